// TLC operator overrides for BigInt.tla: the same functions computed with java.math.BigInteger.
// Used for speed only; spec/SelfTest.tla compares them with the TLA+ definitions.
import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class BigInt {
  static final BigInteger MASK = BigInteger.valueOf(32767);

  static BigInteger get(Value v) {
    final Value[] e = ((TupleValue) v.toTuple()).elems;
    final int s = ((IntValue) e[0]).val;
    if (s == 0) return BigInteger.ZERO;
    final int n = e.length - 1;
    final byte[] bytes = new byte[(15 * n + 7) / 8 + 1];
    final int top = bytes.length - 1;
    int bit = 0;
    for (int i = 1; i <= n; i++, bit += 15) {
      final int limb = ((IntValue) e[i]).val << (bit & 7);
      final int p = top - (bit >> 3);
      bytes[p] |= (byte) limb;
      if (p > 0) bytes[p - 1] |= (byte) (limb >> 8);
      if (p > 1) bytes[p - 2] |= (byte) (limb >> 16);
    }
    return new BigInteger(s, bytes);
  }

  static Value put(BigInteger b) {
    final int s = b.signum();
    if (s == 0) return new TupleValue(new Value[] {IntValue.gen(0)});
    final BigInteger m = b.abs();
    final byte[] bytes = m.toByteArray();
    final int n = (m.bitLength() + 14) / 15;
    final Value[] e = new Value[n + 1];
    e[0] = IntValue.gen(s);
    for (int i = 0; i < n; i++) {
      final int bit = 15 * i;
      final int p = bytes.length - 1 - (bit >> 3);
      int w = bytes[p] & 255;
      if (p > 0) w |= (bytes[p - 1] & 255) << 8;
      if (p > 1) w |= (bytes[p - 2] & 255) << 16;
      e[i + 1] = IntValue.gen((w >> (bit & 7)) & 32767);
    }
    return new TupleValue(e);
  }

  public static Value BNeg(Value a) { return put(get(a).negate()); }
  public static Value BAdd(Value a, Value b) { return put(get(a).add(get(b))); }
  public static Value BSub(Value a, Value b) { return put(get(a).subtract(get(b))); }
  public static Value BMul(Value a, Value b) { return put(get(a).multiply(get(b))); }
  public static Value BCmp(Value a, Value b) { return IntValue.gen(get(a).compareTo(get(b))); }

  public static Value BDiv(Value a, Value b) {
    final BigInteger x = get(a), y = get(b);
    final BigInteger[] qr = x.divideAndRemainder(y);
    return put(qr[1].signum() != 0 && x.signum() * y.signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0]);
  }

  public static Value BShl(Value a, Value k) { return put(get(a).shiftLeft(15 * ((IntValue) k).val)); }
  public static Value BShr(Value a, Value k) { return put(get(a).shiftRight(15 * ((IntValue) k).val)); }
}
