------------------------------- MODULE TrDyn -------------------------------
(***************************************************************************)
(* Recorded executions of the stepping machinery (C04, C05, C06, C10, C11) *)
(* for vehicles and for entities written against the base classes, with    *)
(* every kind of limit, wrap centre and integration method.                *)
(***************************************************************************)
EXTENDS TraceBase

Jax(k) == k.meth = "RK45_JAX"
\* relative accuracy of what is computed: JAX computes in single precision
Prec(k) == IF Jax(k) THEN D(3, -6) ELSE D(1, -13)
U(k, e) == Saturate(e.u, UMinOf(k), UMaxOf(k))
Angle(L, i) == ~ IsNan(L.wrap[i])

\* NearEdge, for the precision of the configuration
Near(k, x, lim) == x # lim /\ IsFinite(lim) /\ FLe(FAbs(FSub(x, lim)), FMul(IF Jax(k) THEN D(2, -5) ELSE IF k.cls = "syn" THEN Eps(11) ELSE Eps(7), FAdd(FAbs(lim), Eps(3))))
Either(k, L, x, i) == Near(k, x[i], L.smin[i]) \/ Near(k, x[i], L.smax[i])
\* an observed derivative agrees with the limited derivative at x
DerOk(k, x, obs, t, u) ==
  LET L == LimOf(k)
      a == TLCEval(Admissible(L, x))
      lim == TLCEval(LimitRate(L, RateOf(k, t, a, u)))
      one == TLCEval(OneSided(L, x, lim))
      scale == TLCEval(ScaleOf(k, t, a, u))
      size == VMax(scale)
  IN  /\ Len(obs) = Len(one)
      /\ \A i \in 1 .. Len(one) :
           LET tol == IF Jax(k) THEN FAdd(Eps(6), FMul(D(1, -4), size)) ELSE FAdd(Eps(11), FMul(D(2, -6), scale[i]))
           IN  \/ Within(obs[i], one[i], tol)
               \/ Either(k, L, x, i) /\ (Within(obs[i], lim[i], tol) \/ Within(obs[i], FZero, tol))

Dot(e) ==
  LET k == CfgOf(e.k)
  IN << <<"C06.error", e.err = "">> >> \o
     IF e.err # "" THEN <<>>
     ELSE << <<"C06.derivative", DerOk(k, e.x, e.d, e.t, e.u)>>, <<"C06.sameforjax", e.d = e.dj>> >>

\* states within the limits, wrapped where configured
InLimits(k, L, y) ==
  \A i \in 1 .. Len(y) :
    LET slack == FMul(IF Jax(k) THEN D(1, -6) ELSE IF Angle(L, i) \/ k.cls # "syn" THEN D(1, -14) ELSE FZero, FAdd(FOne, FMin(FMax(FAbs(L.smin[i]), FAbs(L.smax[i])), D(1, 6))))
        s2 == IF k.cls = "syn" THEN slack ELSE FAdd(slack, FMul(Eps(7), FAdd(FMin(FAbs(L.smin[i]), D(1, 6)), FMin(FAbs(L.smax[i]), D(1, 6)))))
    IN  FLe(FSub(L.smin[i], s2), y[i]) /\ FLe(y[i], FAdd(L.smax[i], s2))
WrapRange(k, L, y) ==
  \A i \in 1 .. Len(y) : Angle(L, i) => FLe(FAbs(FSub(y[i], L.wrap[i])), FAdd(FPi, FMul(IF Jax(k) THEN D(2, -6) ELSE Eps(13), FAdd(FOne, FAbs(L.wrap[i])))))

\* rounding of a step that goes from x over raw to y
LimSize(k, i) == LET L == LimOf(k) a == FMax(IF IsFinite(L.smin[i]) THEN FAbs(L.smin[i]) ELSE FZero, IF IsFinite(L.smax[i]) THEN FAbs(L.smax[i]) ELSE FZero)
                 IN  IF k.cls = "syn" THEN FZero ELSE FMul(Eps(7), a)   \* vehicles may hold their limits in single precision
Round(k, x, raw, i) == FAdd(FAdd(Eps(11), LimSize(k, i)), FMul(BMul(BInt(8), Prec(k)), FAdd(FAbs(x[i]), FAbs(raw[i]))))
\* accuracy of the adaptive solver: a small part of the distance covered
\* (where limits start or stop to bind along the step, the solver's own tolerance of 1e-3 of the state is all there is)
Solver(k, kink, x, raw, path, i) == FAdd(IF kink THEN FMul(D(1, -3), FAdd(FAbs(raw[i]), Eps(2))) ELSE Eps(6), FAdd(FMul(IF Jax(k) THEN D(2, -6) ELSE Eps(9), FAdd(FAbs(x[i]), FAbs(raw[i]))), FMul(D(6, -4), FAdd(path[i], FAbs(FSub(raw[i], x[i]))))))

Judge1(e, k, L, x0, u) ==
  LET eu == k.meth = "Euler"
      r == TLCEval(EulerOf(k, e.h, x0, u))
      raw == TLCEval(IF eu THEN r.raw ELSE FlowOf(k, e.h, x0, u, 8))
      y == TLCEval(Finish(L, raw))
      rate == DotOf(k, FZero, x0, u)
      path == [i \in 1 .. Len(x0) |-> FMul(e.h, FAbs(rate[i]))]
      scale == ScaleOf(k, FZero, Admissible(L, x0), u)
      tol == TLCEval([i \in 1 .. Len(y) |-> IF eu THEN FAdd(Round(k, x0, raw, i), FMul(D(2, -6), FMul(e.h, scale[i])))
                                     ELSE Solver(k, e.kink, x0, raw, path, i)])
      clamped == ClampV(raw, L.smin, L.smax)
      inside(i) == FLe(FAdd(L.smin[i], tol[i]), raw[i]) /\ FLe(raw[i], FSub(L.smax[i], tol[i]))
      ok(i) == IF Angle(L, i) THEN SameAngle(e.y[i], y[i], tol[i]) ELSE Within(e.y[i], y[i], tol[i])
  IN [all |-> \A i \in 1 .. Len(y) : ok(i),
      inside |-> \A i \in 1 .. Len(y) : inside(i) => IF Angle(L, i) THEN SameAngle(e.y[i], raw[i], tol[i]) ELSE Within(e.y[i], raw[i], tol[i]),
      angles |-> \A i \in 1 .. Len(y) : Angle(L, i) => SameAngle(e.y[i], clamped[i], tol[i]),
      others |-> \A i \in 1 .. Len(y) : ~Angle(L, i) => Within(e.y[i], clamped[i], tol[i])]

Still(k, L, e) == \A i \in 1 .. Len(e.y) :
   LET f == Finish(L, e.x)[i] tol == FMul(IF Jax(k) THEN D(2, -6) ELSE IF Angle(L, i) THEN Eps(13) ELSE FMul(D(2, -7), FOne), FAdd(FAbs(e.x[i]), FAbs(f)))
       exact == ~Jax(k) /\ ~Angle(L, i) /\ FLe(L.smin[i], e.x[i]) /\ FLe(e.x[i], L.smax[i])
   IN  IF exact THEN e.y[i] = e.x[i] ELSE IF Angle(L, i) THEN SameAngle(e.y[i], f, FAdd(FAdd(IF Jax(k) THEN D(1, -6) ELSE Eps(13), LimSize(k, i)), tol)) ELSE Within(e.y[i], f, FAdd(FAdd(IF Jax(k) THEN D(1, -6) ELSE Eps(13), LimSize(k, i)), tol))

StepEv(e) ==
  LET k == CfgOf(e.k) L == LimOf(k) u == TLCEval(U(k, e))
      vs == Variants(L, e.x)
      js == IF e.judge /\ e.h # FZero THEN {TLCEval(Judge1(e, k, L, x0, u)) : x0 \in vs} ELSE {}
      name == CASE k.meth = "Euler" -> "C10.euler" [] k.meth = "RK45" -> "C10.rk45" [] OTHER -> "C10.rk45jax"
      finite == \A i \in 1 .. Len(e.y) : IsFinite(e.y[i]) /\ IsFinite(e.d[i])
  IN  << <<"C04.finite", finite>>,
         <<"C04.limits", InLimits(k, L, e.y)>>,
         <<"C05.range", WrapRange(k, L, e.y)>>,
         <<"C06.end", DerOk(k, e.y, e.d, e.h, u)>> >>
      \o (IF e.h = FZero THEN << <<"C10.zero", Still(k, L, e)>>, <<"C05.zero", Still(k, L, e)>> >> ELSE <<>>)
      \o (IF js = {} THEN <<>>
          ELSE << <<"C04.inside", \E j \in js : j.inside>>,
                  <<"C04.model", \E j \in js : j.all>>,
                  <<"C05.direction", \E j \in js : j.angles>>,
                  <<"C05.unwrapped", \E j \in js : j.others>>,
                  <<"C06.used", k.meth # "Euler" \/ \E j \in js : j.all>>,
                  <<"C11.moves", \E j \in js : j.all>>,
                  <<name, \E j \in js : j.all>> >>)

Split(e) ==
  LET k == CfgOf(e.k) L == LimOf(k) u == U(k, e)
      rate == DotOf(k, FZero, e.x, u)
  IN << <<"C10.split", e.err = "" /\ Len(e.a) = DimOf(k) /\ \A i \in 1 .. Len(e.a) :
            LET tol == FAdd(Eps(6), FAdd(FMul(Eps(9), FAbs(e.x[i])), FMul(D(6, -4), FAdd(FMul(e.h, FAbs(rate[i])), FAbs(FSub(e.a[i], e.x[i]))))))
                tol2 == IF e.kink THEN FAdd(tol, FMul(D(2, -3), FAdd(FAbs(e.x[i]), Eps(2)))) ELSE tol
            IN  IF Angle(L, i) THEN SameAngle(e.a[i], e.b[i], tol2) ELSE Within(e.a[i], e.b[i], tol2)>> >>

-----------------------------------------------------------------------------
\* x' = f(x) + g(x) u
Zeros(k) == VZero(Len(UMinOf(k)))
SpecF(k, a) == RateOf(k, FZero, a, Zeros(k))
Basis(k, j) == [i \in 1 .. Len(UMinOf(k)) |-> IF i = j THEN FOne ELSE FZero]
Form(e) ==
  LET k == CfgOf(e.k) L == LimOf(k) n == DimOf(k) m == Len(UMinOf(k))
      a == TLCEval(Admissible(L, e.x))
      f0 == TLCEval(SpecF(k, a))
      scale == TLCEval(ScaleOf(k, FZero, a, e.u))
      size == FAdd(VMax(scale), VMax(f0))
      tol(i) == FAdd(Eps(11), FMul(D(2, -6), scale[i]))
      atol == FAdd(Eps(11), FMul(IF k.cls \in {"dub2", "dub3"} THEN Eps(6) ELSE Eps(9), size))
      gcol(j) == VSub(RateOf(k, FZero, a, Basis(k, j)), f0)
      gu == MatVec(e.g, e.u)
      raw == TLCEval(VAdd(e.f, gu))
      lim == LimitRate(L, raw)
      one == OneSided(L, e.x, lim)
  IN << <<"C11.error", e.err = "">> >> \o
     IF e.err # "" THEN <<>>
     ELSE << <<"C11.affine", Len(e.d) = n /\ \A i \in 1 .. n :
                 \/ Within(e.d[i], one[i], atol)
                 \/ Either(k, L, e.x, i) /\ (Within(e.d[i], lim[i], atol) \/ Within(e.d[i], FZero, atol))>>,
             <<"C11.f", \A i \in 1 .. n : Within(e.f[i], f0[i], FAdd(Eps(11), FMul(D(2, -6), ScaleOf(k, FZero, a, Zeros(k))[i])))>>,
             <<"C11.g", \A j \in 1 .. m : LET c == TLCEval(gcol(j)) IN \A i \in 1 .. n :
                           Within(e.g[i][j], c[i], FAdd(Eps(11), FMul(D(2, -6), FAdd(FAbs(c[i]), FMul(Eps(7), FAbs(f0[i]))))))>>,
             <<"C11.matrices", ~ (k.cls = "syn" /\ k.kind = "lin") \/ (e.A = k.p.A /\ e.B = k.p.B)>>,
             <<"C11.linear", ~ e.lin \/ \A i \in 1 .. n :
                 /\ Within(e.f[i], VDot(e.A[i], a), FAdd(Eps(11), FMul(Eps(9), size)))
                 /\ e.g[i] = e.B[i]>> >>

\* the documented system matrices
ZeroM(n, m) == [i \in 1 .. n |-> [j \in 1 .. m |-> FZero]]
SetM(M, entries) == FoldLeft(LAMBDA acc, t : [acc EXCEPT ![t[1]][t[2]] = t[3]], M, entries)
Shift(d) == [i \in 1 .. d |-> <<i, i + d, FOne>>]
MatA(e, d) ==
  IF e.gen = "int" THEN SetM(ZeroM(2 * d, 2 * d), Shift(d) \o [i \in 1 .. d |-> <<i + d, i + d, FNeg(e.damp)>>])
  ELSE SetM(ZeroM(2 * d, 2 * d), Shift(d) \o << <<d + 1, 1, FMulI(FSqr(e.n), 3)>>, <<d + 1, d + 2, FMulI(e.n, 2)>>,
                                                <<d + 2, d + 1, FNeg(FMulI(e.n, 2))>> >>
                                \o IF d = 3 THEN << <<6, 3, FNeg(FSqr(e.n))>> >> ELSE <<>>)
MatB(e, d) == SetM(ZeroM(2 * d, d), [i \in 1 .. d |-> <<i + d, i, FDiv(FOne, e.m)>>])
MClose(X, Y) == Len(X) = Len(Y) /\ \A i \in 1 .. Len(Y) : Len(X[i]) = Len(Y[i]) /\ \A j \in 1 .. Len(Y[i]) :
                   Within(X[i][j], Y[i][j], FMul(Eps(13), FAdd(Eps(5), FAbs(Y[i][j]))))
Mat(e) ==
  LET d == CASE e.mode = "1d" /\ e.gen = "int" -> 1 [] e.mode = "2d" -> 2 [] e.mode = "3d" -> 3 [] OTHER -> 0
  IN IF d = 0 THEN << <<"C11.mode", e.err # "">> >>
     ELSE << <<"C11.generator", e.err = "" /\ MClose(e.A, MatA(e, d)) /\ MClose(e.B, MatB(e, d))>> >>
Shape(e) == << <<"C11.shape", (e.err = "") <=> (Len(e.a) = 2 /\ Len(e.b) = 2 /\ e.a[1] = e.a[2] /\ e.b[1] = e.a[2])>> >>

Clauses(e) ==
  CASE e.ev = "dot" -> Dot(e)
    [] e.ev = "step" -> IF e.err # "" THEN [i \in 1 .. 5 |-> <<<<"C04", "C05", "C06", "C10", "C11">>[i] \o ".error", FALSE>>] ELSE StepEv(e)
    [] e.ev = "split" -> Split(e)
    [] e.ev = "form" -> Form(e)
    [] e.ev = "mat" -> Mat(e)
    [] e.ev = "shape" -> Shape(e)
    [] OTHER -> <<>>

VARIABLES l, bad, cnt
vars == <<l, bad, cnt>>
Init == l = 1 /\ bad = <<>> /\ cnt = 0
Consume == /\ l <= NLines
           /\ LET cs == Clauses(Trace[l])
              IN  bad' = bad \o Verdicts(l, cs) /\ cnt' = cnt + Len(cs)
           /\ l' = l + 1
Done == l = NLines + 1 /\ Report(bad, cnt) /\ l' = l + 1 /\ UNCHANGED <<bad, cnt>>
Next == Consume \/ Done
=============================================================================
