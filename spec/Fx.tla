-------------------------------- MODULE Fx --------------------------------
(***************************************************************************)
(* Fixed-point reals: a real r is the BigInt floor(r * 2^75).  The         *)
(* absolute resolution is 2.6e-23; every float64 of magnitude >= 2^-22 is  *)
(* represented exactly.  Elementary functions are accurate to about 1e-20. *)
(* Infinities are the finite numbers +-2^200 and NaN is 2^210, so that all *)
(* operators stay total.                                                   *)
(***************************************************************************)
EXTENDS BigInt

FZero == BZero
FOne  == <<1, 0, 0, 0, 0, 0, 1>>
FAdd(a, b) == BAdd(a, b)
FSub(a, b) == BSub(a, b)
FNeg(a)    == BNeg(a)
FMul(a, b) == BShr(BMul(a, b), 5)
FDiv(a, b) == BDiv(BShl(a, 5), b)
FInt(n)    == BShl(BInt(n), 5)
FMulI(a, n) == BMul(a, BInt(n))
FDivI(a, n) == BDiv(a, BInt(n))
FQ(p, q)   == BDiv(FInt(p), BInt(q))
FSqr(a)    == FMul(a, a)

FCmp(a, b) == BCmp(a, b)
FLt(a, b)  == BCmp(a, b) < 0
FLe(a, b)  == BCmp(a, b) <= 0
FEq(a, b)  == a = b
FAbs(a)    == BAbs(a)
FSgn(a)    == BSgn(a)
FMin(a, b) == IF BCmp(a, b) <= 0 THEN a ELSE b
FMax(a, b) == IF BCmp(a, b) >= 0 THEN a ELSE b
FClamp(x, lo, hi) == FMin(FMax(x, lo), hi)

\* m * 10^e
RECURSIVE P10(_)
P10(n) == IF n <= 9 THEN BInt(10^n) ELSE BMul(BInt(10^9), P10(n - 9))
D(m, e) == IF e >= 0 THEN BMul(FInt(m), P10(e)) ELSE BDiv(FInt(m), P10(-e))

FInf  == BShl(<<1, 32>>, 18)     \* 2^200 * 2^75
FNInf == BNeg(FInf)
FNan  == BShl(FOne, 14)          \* 2^210 * 2^75
IsNan(x)    == x = FNan
IsFinite(x) == BCmp(BAbs(x), FInf) < 0

FPi     == <<1, 6296, 12429, 4276, 23202, 4639, 3>>
FHalfPi == <<1, 19532, 6214, 2138, 27985, 18703, 1>>
FTwoPi  == BAdd(FPi, FPi)
FLn2    == <<1, 24143, 30618, 31289, 1533, 22713>>
FHalf   == FQ(1, 2)

\* |a - b| <= atol + rtol * max(|a|, |b|)
Close(a, b, atol, rtol) ==
  IF a = b THEN TRUE
  ELSE /\ IsFinite(a) /\ IsFinite(b)
       /\ FLe(FAbs(FSub(a, b)), FAdd(atol, FMul(rtol, FMax(FAbs(a), FAbs(b)))))

\* nearest integer to a number, as a BigInt
FRound(a) == BShr(BAdd(a, FHalf), 5)
FFloor(a) == BShr(a, 5)

-----------------------------------------------------------------------------
\* sine and cosine, by reduction to [-pi/4, pi/4] and Horner's scheme
LOCAL Horner(r2, ks) ==
  FoldLeft(LAMBDA acc, k : FSub(FOne, BDiv(FMul(r2, acc), BInt(k))), FOne, ks)
LOCAL SinK == <<26 * 27, 24 * 25, 22 * 23, 20 * 21, 18 * 19, 16 * 17, 14 * 15, 12 * 13, 10 * 11, 8 * 9, 6 * 7, 4 * 5, 2 * 3>>
LOCAL CosK == <<25 * 26, 23 * 24, 21 * 22, 19 * 20, 17 * 18, 15 * 16, 13 * 14, 11 * 12, 9 * 10, 7 * 8, 5 * 6, 3 * 4, 1 * 2>>
LOCAL Quad(k) == LET q == BSub(k, BMul(<<1, 4>>, BDiv(k, <<1, 4>>))) IN IF q = BZero THEN 0 ELSE q[2]
LOCAL SinR(r) == FMul(r, Horner(FSqr(r), SinK))
LOCAL CosR(r) == Horner(FSqr(r), CosK)
FSin(x) ==
  LET k == FRound(FDiv(x, FHalfPi))
      r == FSub(x, BMul(k, FHalfPi))
      q == Quad(k)
  IN  CASE q = 0 -> SinR(r) [] q = 1 -> CosR(r) [] q = 2 -> FNeg(SinR(r)) [] OTHER -> FNeg(CosR(r))
FCos(x) ==
  LET k == FRound(FDiv(x, FHalfPi))
      r == FSub(x, BMul(k, FHalfPi))
      q == Quad(k)
  IN  CASE q = 0 -> CosR(r) [] q = 1 -> FNeg(SinR(r)) [] q = 2 -> FNeg(CosR(r)) [] OTHER -> SinR(r)
FTan(x) == FDiv(FSin(x), FCos(x))

FSqrt(x) == BIsqrt(BShl(x, 5))

\* e^x = 2^k e^r
RECURSIVE FPow2(_)
FPow2(k) == IF k = 0 THEN FOne ELSE IF k > 0 THEN BMul(<<1, 2>>, FPow2(k - 1)) ELSE BDiv(FPow2(k + 1), <<1, 2>>)
LOCAL BSmall(k) == IF k = BZero THEN 0 ELSE k[1] * k[2]
FExp(x) ==
  LET k == FRound(FDiv(x, FLn2))
      r == FSub(x, BMul(k, FLn2))
      e == FoldLeft(LAMBDA acc, n : FAdd(FOne, BDiv(FMul(r, acc), BInt(n))), FOne,
                    [i \in 1 .. 20 |-> 21 - i])
  IN  FMul(e, FPow2(BSmall(k)))
\* ln x for 1/16 <= x <= 16: repeated halving, then 2 artanh
RECURSIVE FLn(_)
FLn(x) ==
  IF FLt(x, FQ(2, 3)) THEN FSub(FLn(FAdd(x, x)), FLn2)
  ELSE IF FLt(FQ(4, 3), x) THEN FAdd(FLn(FDivI(x, 2)), FLn2)
  ELSE LET z  == FDiv(FSub(x, FOne), FAdd(x, FOne))
           z2 == FSqr(z)
           s  == FoldLeft(LAMBDA acc, n : FAdd(FQ(1, n), FMul(z2, acc)), FZero,
                          [i \in 1 .. 18 |-> 2 * (18 - i) + 1])
       IN  FMul(FAdd(z, z), s)
FPow(x, y) == FExp(FMul(y, FLn(x)))

-----------------------------------------------------------------------------
\* vectors
VAdd(a, b) == [i \in 1 .. Len(a) |-> FAdd(a[i], b[i])]
VSub(a, b) == [i \in 1 .. Len(a) |-> FSub(a[i], b[i])]
VScale(k, a) == [i \in 1 .. Len(a) |-> FMul(k, a[i])]
VZero(n) == [i \in 1 .. n |-> FZero]
FSum(s) == FoldLeft(LAMBDA acc, x : FAdd(acc, x), FZero, s)
VDot(a, b) == FSum([i \in 1 .. Len(a) |-> FMul(a[i], b[i])])
MatVec(M, x) == [i \in 1 .. Len(M) |-> VDot(M[i], x)]
VClose(a, b, atol, rtol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Close(a[i], b[i], atol, rtol)
\* closeness of every component relative to the size of the largest one of a group
VMax(a) == FoldLeft(LAMBDA acc, x : FMax(acc, FAbs(x)), FZero, a)
=============================================================================
