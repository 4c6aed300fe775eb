------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Arbitrary-precision integers, written in plain TLA+ (TLC's own integers *)
(* have 32 bits).  A number is the canonical tuple <<s, l0, l1, ...>> of   *)
(* its sign s and its base-2^15 magnitude limbs, least significant first,  *)
(* without leading zeros; zero is <<0>>.                                   *)
(*                                                                         *)
(* java/BigInt.java overrides BAdd .. BDiv in TLC for speed only; the      *)
(* self-test (SelfTest.tla) compares the definitions below, reached        *)
(* through their P-prefixed names, with the overridden ones.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Base == 32768
BZero == <<0>>
BOne  == <<1, 1>>

LOCAL IMin(a, b) == IF a < b THEN a ELSE b
LOCAL IMax(a, b) == IF a > b THEN a ELSE b
LOCAL Idx(a, b)  == [i \in 1 .. IMax(0, b - a + 1) |-> a + i - 1]
LOCAL Limb(m, i) == IF i \in 1 .. Len(m) THEN m[i] ELSE 0

\* magnitude without leading (that is, trailing in the tuple) zeros
LOCAL Strip(m) ==
  LET nz == {i \in 1 .. Len(m) : m[i] # 0}
  IN  IF nz = {} THEN <<>> ELSE SubSeq(m, 1, CHOOSE i \in nz : \A j \in nz : j <= i)
LOCAL Mk(s, m) == LET t == Strip(m) IN IF t = <<>> THEN BZero ELSE <<s>> \o t

LOCAL MCmp(a, b) ==
  IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
  ELSE LET d == {i \in 1 .. Len(a) : a[i] # b[i]}
       IN  IF d = {} THEN 0
           ELSE LET i == CHOOSE i \in d : \A j \in d : j <= i
                IN  IF a[i] < b[i] THEN -1 ELSE 1

LOCAL MAdd(a, b) ==
  LET n == IMax(Len(a), Len(b))
      r == FoldLeft(LAMBDA acc, i :
                      LET s == Limb(a, i) + Limb(b, i) + acc[2]
                      IN  <<Append(acc[1], s % Base), s \div Base>>,
                    <<<<>>, 0>>, Idx(1, n))
  IN  Strip(Append(r[1], r[2]))

\* a >= b
LOCAL MSub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i :
                      LET s == a[i] - Limb(b, i) - acc[2]
                      IN  IF s < 0 THEN <<Append(acc[1], s + Base), 1>>
                                   ELSE <<Append(acc[1], s), 0>>,
                    <<<<>>, 0>>, Idx(1, Len(a)))
  IN  Strip(r[1])

LOCAL MMulLimb(a, k) ==
  LET r == FoldLeft(LAMBDA acc, i :
                      LET s == a[i] * k + acc[2]
                      IN  <<Append(acc[1], s % Base), s \div Base>>,
                    <<<<>>, 0>>, Idx(1, Len(a)))
  IN  Strip(Append(r[1], r[2]))

LOCAL Zeros(k) == [i \in 1 .. k |-> 0]
LOCAL MShl(a, k) == IF a = <<>> THEN <<>> ELSE Zeros(k) \o a
LOCAL MMul(a, b) ==
  FoldLeft(LAMBDA acc, i : MAdd(acc, MShl(MMulLimb(a, b[i]), i - 1)), <<>>, Idx(1, Len(b)))

\* schoolbook division, one bit of the quotient digit at a time
LOCAL MDivMod(a, b) ==
  LET digit(r) ==
        FoldLeft(LAMBDA acc, i :
                   LET q == acc[1] + 2^(15 - i)
                       p == MMulLimb(b, q)
                   IN  IF MCmp(p, r) <= 0 THEN <<q>> ELSE acc,
                 <<0>>, Idx(1, 15))[1]
      step(acc, i) ==
        LET r  == Strip(<<a[Len(a) + 1 - i]>> \o acc[2])
            q  == digit(r)
        IN  <<<<q>> \o acc[1], MSub(r, MMulLimb(b, q))>>
      res == FoldLeft(step, <<<<>>, <<>>>>, Idx(1, Len(a)))
  IN  <<Strip(res[1]), res[2]>>

-----------------------------------------------------------------------------
PNeg(a) == IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Tail(a)
PAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], MAdd(Tail(a), Tail(b)))
  ELSE LET c == MCmp(Tail(a), Tail(b))
       IN  IF c = 0 THEN BZero
           ELSE IF c > 0 THEN Mk(a[1], MSub(Tail(a), Tail(b)))
           ELSE Mk(b[1], MSub(Tail(b), Tail(a)))
PSub(a, b) == PAdd(a, PNeg(b))
PMul(a, b) == Mk(a[1] * b[1], MMul(Tail(a), Tail(b)))
PCmp(a, b) ==
  IF a[1] # b[1] THEN IF a[1] < b[1] THEN -1 ELSE 1
  ELSE a[1] * MCmp(Tail(a), Tail(b))
\* floor division
PDiv(a, b) ==
  LET qr == MDivMod(Tail(a), Tail(b))
      q  == Mk(a[1] * b[1], qr[1])
  IN  IF a[1] * b[1] < 0 /\ qr[2] # <<>> THEN PSub(q, BOne) ELSE q
\* multiplication and floor division by Base^k
PShl(a, k) == IF a[1] = 0 THEN a ELSE <<a[1]>> \o Zeros(k) \o Tail(a)
PShr(a, k) ==
  LET m == Tail(a)
      q == Mk(a[1], IF k >= Len(m) THEN <<>> ELSE SubSeq(m, k + 1, Len(m)))
  IN  IF a[1] < 0 /\ \E i \in 1 .. IMin(k, Len(m)) : m[i] # 0 THEN PSub(q, BOne) ELSE q

BNeg(a) == PNeg(a)
BAdd(a, b) == PAdd(a, b)
BSub(a, b) == PSub(a, b)
BMul(a, b) == PMul(a, b)
BCmp(a, b) == PCmp(a, b)
BDiv(a, b) == PDiv(a, b)
BShl(a, k) == PShl(a, k)
BShr(a, k) == PShr(a, k)

\* from a TLC integer
BInt(n) ==
  IF n = 0 THEN BZero
  ELSE LET s == IF n < 0 THEN -1 ELSE 1
           m == IF n < 0 THEN -n ELSE n
       IN  Mk(s, <<m % Base, (m \div Base) % Base, m \div (Base * Base)>>)
BAbs(a) == IF a[1] < 0 THEN BNeg(a) ELSE a
BSgn(a) == a[1]

\* floor of the square root, by Newton iteration from above
RECURSIVE BNewton(_, _)
BNewton(n, x) ==
  LET y == BDiv(BAdd(x, BDiv(n, x)), <<1, 2>>)
  IN  IF BCmp(y, x) >= 0 THEN x ELSE BNewton(n, y)
BIsqrt(n) ==
  IF n[1] = 0 THEN BZero
  ELSE BNewton(n, <<1>> \o Zeros((Len(n) \div 2)) \o <<1>>)
=============================================================================
