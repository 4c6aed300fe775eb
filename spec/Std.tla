-------------------------------- MODULE Std --------------------------------
(* The pipeline over fixed-point reals, and comparisons of observed with     *)
(* specified vectors.                                                        *)
EXTENDS Fx, Integers, TLC   \* TLC for TLCEval, which only forces evaluation

Turn == FTwoPi
FWrap(x, c) ==
  IF IsNan(c) THEN x
  ELSE LET y == FAdd(FSub(x, c), FPi)
       IN  FAdd(FSub(FSub(y, BMul(FFloor(FDiv(y, Turn)), Turn)), FPi), c)

INSTANCE Pipeline WITH Leq <- FLe, Plus <- FAdd, Times <- FMul, Null <- FZero, WrapTo <- FWrap, Half <- FHalf

Eps(e) == D(1, -e)

\* a and b denote the same direction up to tol
SameAngle(a, b, tol) ==
  /\ IsFinite(a) /\ IsFinite(b)
  /\ LET d == FSub(a, b)
         k == FRound(FDiv(d, Turn))
     IN  FLe(FAbs(FSub(d, BMul(k, Turn))), tol)

\* observed state close to the specified one; wrapped components may sit at either side of the seam
StateClose(L, obs, spec, tols) ==
  /\ Len(obs) = Len(spec)
  /\ \A i \in 1 .. Len(spec) :
       IF IsNan(L.wrap[i]) THEN Close(obs[i], spec[i], tols[i], FZero)
       ELSE /\ SameAngle(obs[i], spec[i], tols[i])
            /\ FLe(FAbs(FSub(obs[i], L.wrap[i])), FAdd(FPi, tols[i]))

\* tolerance per component: abs + rel * magnitude
Tols(x, atol, rtol) == [i \in 1 .. Len(x) |-> IF IsFinite(x[i]) THEN FAdd(atol, FMul(rtol, FAbs(x[i]))) ELSE atol]

NoLimits(n) == [smin |-> [i \in 1 .. n |-> FNInf], smax |-> [i \in 1 .. n |-> FInf],
                dmin |-> [i \in 1 .. n |-> FNInf], dmax |-> [i \in 1 .. n |-> FInf],
                wrap |-> [i \in 1 .. n |-> FNan]]

-----------------------------------------------------------------------------
(* The solution of the limited differential equation at time h, by n classic *)
(* Runge-Kutta steps.  F(t, x) is the rate law under the held command.       *)
LimitedRate(L, F(_, _), t, x) == TLCEval(StateDot(L, x, TLCEval(F(t, TLCEval(Admissible(L, x))))))
RK4(L, F(_, _), t, x, dt) ==
  LET h2 == FDivI(dt, 2)
      k1 == LimitedRate(L, F, t, x)
      k2 == LimitedRate(L, F, FAdd(t, h2), TLCEval(VAdd(x, VScale(h2, k1))))
      k3 == LimitedRate(L, F, FAdd(t, h2), TLCEval(VAdd(x, VScale(h2, k2))))
      k4 == LimitedRate(L, F, FAdd(t, dt), TLCEval(VAdd(x, VScale(dt, k3))))
  IN  TLCEval([i \in 1 .. Len(x) |->
         FAdd(x[i], FDivI(FMul(dt, FAdd(FAdd(k1[i], k4[i]), BMul(<<1, 2>>, FAdd(k2[i], k3[i])))), 6))])
Flow(L, F(_, _), h, x, n) ==
  LET dt == FDivI(h, n)
  IN  FoldLeft(LAMBDA acc, k : RK4(L, F, FMulI(dt, k - 1), acc, dt), x, [k \in 1 .. n |-> k])
=============================================================================
