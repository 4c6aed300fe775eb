------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* The vehicles: actuators, limits, equations of motion and observables,   *)
(* as functions of the constructor parameters p (a record of reals).        *)
(***************************************************************************)
EXTENDS Std

Rep(v, n) == [i \in 1 .. n |-> v]
NegV(v) == [i \in 1 .. Len(v) |-> FNeg(v[i])]
One == FOne
G0 == D(3217, -2)

Classes == {"cwh", "rot2d", "sixdof", "dub2", "dub3", "int1", "int2", "int3", "sun"}

Names(c) ==
  CASE c \in {"cwh", "int3"} -> <<"thrust_x", "thrust_y", "thrust_z">>
    [] c = "rot2d"  -> <<"thrust_x", "thrust_y", "moment_z">>
    [] c = "sixdof" -> <<"thrust_x", "thrust_y", "thrust_z", "moment_x", "moment_y", "moment_z">>
    [] c = "dub2"   -> <<"heading_rate", "acceleration">>
    [] c = "dub3"   -> <<"gamma_rate", "roll_rate", "acceleration">>
    [] c = "int1"   -> <<"thrust_x">>
    [] c = "int2"   -> <<"thrust_x", "thrust_y">>
    [] OTHER        -> <<>>
NU(c) == Len(Names(c))
UDef(c) == VZero(NU(c))

\* what a reaction wheel can deliver about one body axis, and the combined limits
WheelAcc(p, inertia) == FDiv(FMul(p.iw, p.alw), inertia)
WheelVel(p, inertia) == FDiv(FMul(p.iw, p.vlw), inertia)
Inertias(p) == <<p.ix, p.iy, p.iz>>
RotAcc(p) == FMin(p.aal, WheelAcc(p, p.inertia))
RotVel(p) == FMin(p.avl, WheelVel(p, p.inertia))
SixAcc(p) == [i \in 1 .. 3 |-> FMin(p.aal[i], WheelAcc(p, Inertias(p)[i]))]
SixVel(p) == [i \in 1 .. 3 |-> FMin(p.avl[i], WheelVel(p, Inertias(p)[i]))]

UMax(c, p) ==
  CASE c \in {"cwh", "int1", "int2", "int3"} -> Rep(One, NU(c))
    [] c = "rot2d"  -> <<One, One, FMul(RotAcc(p), p.inertia)>>
    [] c = "sixdof" -> Rep(p.tcl, 3) \o [i \in 1 .. 3 |-> FMul(SixAcc(p)[i], Inertias(p)[i])]
    [] c = "dub2"   -> <<p.hmax, p.amax>>
    [] c = "dub3"   -> <<p.grmax, p.rrmax, p.amax>>
    [] OTHER        -> <<>>
UMin(c, p) ==
  CASE c = "dub2" -> <<p.hmin, p.amin>>
    [] c = "dub3" -> <<p.grmin, p.rrmin, p.amin>>
    [] OTHER      -> NegV(UMax(c, p))

Dim(c) == CASE c = "cwh" -> 6 [] c = "rot2d" -> 6 [] c = "sixdof" -> 13 [] c = "dub2" -> 4 [] c = "dub3" -> 7
            [] c = "int1" -> 2 [] c = "int2" -> 4 [] c = "int3" -> 6 [] OTHER -> 1

\* state, rate and wrapping limits
Lim(c, p) ==
  LET N == NoLimits(Dim(c))
  IN CASE c = "rot2d" ->
            [N EXCEPT !.smax[6] = RotVel(p), !.smin[6] = FNeg(RotVel(p)),
                      !.dmax[3] = RotVel(p), !.dmin[3] = FNeg(RotVel(p)),
                      !.dmax[6] = RotAcc(p), !.dmin[6] = FNeg(RotAcc(p)), !.wrap[3] = FZero]
       [] c = "sixdof" ->
            [N EXCEPT !.smax = [i \in 1 .. 13 |-> IF i > 10 THEN SixVel(p)[i - 10] ELSE FInf],
                      !.smin = [i \in 1 .. 13 |-> IF i > 10 THEN FNeg(SixVel(p)[i - 10]) ELSE FNInf]]
       [] c = "dub2" -> [N EXCEPT !.smin[4] = p.vmin, !.smax[4] = p.vmax, !.wrap[3] = FZero]
       [] c = "dub3" -> [N EXCEPT !.smin[5] = p.gmin, !.smax[5] = p.gmax, !.smin[6] = p.rmin, !.smax[6] = p.rmax,
                                  !.smin[7] = p.vmin, !.smax[7] = p.vmax,
                                  !.wrap[4] = FZero, !.wrap[5] = FZero, !.wrap[6] = FZero]
       [] OTHER -> N

-----------------------------------------------------------------------------
(* Equations of motion.  Terms(c, p, x, u)[i] is the sequence of summands of *)
(* the i-th rate: their sum is the rate, the sum of their magnitudes is the  *)
(* scale against which rounding is judged.                                   *)
HillX(n, x, vy) == <<FMul(BMul(<<1, 3>>, FSqr(n)), x), FMul(BMul(<<1, 2>>, n), vy)>>
HillY(n, vx)    == <<FMul(BMul(<<-1, 2>>, n), vx)>>
HillZ(n, z)     == <<FNeg(FMul(FSqr(n), z))>>

\* columns of the body-to-Hill rotation of a quaternion (vector part first)
QRot(q) ==
  LET a == q[1] b == q[2] c == q[3] w == q[4]
      two(x) == BMul(<<1, 2>>, x)
  IN  << <<FSub(FAdd(FSqr(w), FSqr(a)), FAdd(FSqr(b), FSqr(c))), two(FSub(FMul(a, b), FMul(w, c))), two(FAdd(FMul(a, c), FMul(w, b)))>>,
         <<two(FAdd(FMul(a, b), FMul(w, c))), FSub(FAdd(FSqr(w), FSqr(b)), FAdd(FSqr(a), FSqr(c))), two(FSub(FMul(b, c), FMul(w, a)))>>,
         <<two(FSub(FMul(a, c), FMul(w, b))), two(FAdd(FMul(b, c), FMul(w, a))), FSub(FAdd(FSqr(w), FSqr(c)), FAdd(FSqr(a), FSqr(b)))>> >>

Terms(c, p, x, u) ==
  CASE c = "cwh" ->
         << <<x[4]>>, <<x[5]>>, <<x[6]>>,
            HillX(p.n, x[1], x[5]) \o <<FDiv(u[1], p.m)>>,
            HillY(p.n, x[4]) \o <<FDiv(u[2], p.m)>>,
            HillZ(p.n, x[3]) \o <<FDiv(u[3], p.m)>> >>
    [] c = "rot2d" ->
         LET s == FSin(x[3]) k == FCos(x[3])
         IN << <<x[4]>>, <<x[5]>>, <<x[6]>>,
               HillX(p.n, x[1], x[5]) \o <<FDiv(FMul(k, u[1]), p.m), FNeg(FDiv(FMul(s, u[2]), p.m))>>,
               HillY(p.n, x[4]) \o <<FDiv(FMul(s, u[1]), p.m), FDiv(FMul(k, u[2]), p.m)>>,
               <<FDiv(u[3], p.inertia)>> >>
    [] c = "sixdof" ->
         LET q == SubSeq(x, 4, 7)
             w == SubSeq(x, 11, 13)
             R == IF p.body THEN QRot(q) ELSE << <<One, FZero, FZero>>, <<FZero, One, FZero>>, <<FZero, FZero, One>> >>
             F(i) == [j \in 1 .. 3 |-> FDiv(FMul(R[i][j], u[j]), p.m)]
             h(s, a, b) == LET v == FDivI(FMul(a, b), 2) IN IF s > 0 THEN v ELSE FNeg(v)
             J == Inertias(p)
             gyro(i, j, k) == FDiv(FMul(FMul(FSub(J[j], J[k]), w[j]), w[k]), J[i])
         IN << <<x[8]>>, <<x[9]>>, <<x[10]>>,
               <<h(1, q[4], w[1]), h(-1, q[3], w[2]), h(1, q[2], w[3])>>,
               <<h(1, q[3], w[1]), h(1, q[4], w[2]), h(-1, q[1], w[3])>>,
               <<h(-1, q[2], w[1]), h(1, q[1], w[2]), h(1, q[4], w[3])>>,
               <<h(-1, q[1], w[1]), h(-1, q[2], w[2]), h(-1, q[3], w[3])>>,
               HillX(p.n, x[1], x[9]) \o F(1), HillY(p.n, x[8]) \o F(2), HillZ(p.n, x[3]) \o F(3),
               <<gyro(1, 2, 3), FDiv(u[4], J[1])>>,
               <<gyro(2, 3, 1), FDiv(u[5], J[2])>>,
               <<gyro(3, 1, 2), FDiv(u[6], J[3])>> >>
    [] c = "dub2" ->
         << <<FMul(x[4], FCos(x[3]))>>, <<FMul(x[4], FSin(x[3]))>>, <<u[1]>>, <<u[2]>> >>
    [] c = "dub3" ->
         << <<FMul(x[7], FMul(FCos(x[4]), FCos(x[5])))>>, <<FMul(x[7], FMul(FSin(x[4]), FCos(x[5])))>>,
            <<FNeg(FMul(x[7], FSin(x[5])))>>, <<FDiv(FMul(G0, FTan(x[6])), x[7])>>,
            <<u[1]>>, <<u[2]>>, <<u[3]>> >>
    [] c \in {"int1", "int2", "int3"} ->
         LET d == Dim(c) \div 2
         IN [i \in 1 .. Dim(c) |->
               IF i <= d THEN <<x[i + d]>>
               ELSE <<FDiv(u[i - d], p.m), FNeg(FMul(p.damp, x[i]))>>]
    [] OTHER -> << <<p.n>> >>

Rate(c, p, x, u)  == LET T == TLCEval(Terms(c, p, x, u)) IN [i \in 1 .. Len(T) |-> FSum(T[i])]
Scale(c, p, x, u) == LET T == TLCEval(Terms(c, p, x, u))
                     IN [i \in 1 .. Len(T) |-> FSum([j \in 1 .. Len(T[i]) |-> FAbs(T[i][j])])]

\* the derivative an entity must report at state x under a command u within its limits
VehStateDot(c, p, x, u) == LET L == Lim(c, p) IN StateDot(L, x, Rate(c, p, Admissible(L, x), u))
VehFlow(c, p, h, x, u, n) == Flow(Lim(c, p), LAMBDA t, y : Rate(c, p, y, u), h, x, n)
VehEuler(c, p, h, x, u) == EulerStep(Lim(c, p), LAMBDA t, y : Rate(c, p, y, u), h, x)

-----------------------------------------------------------------------------
(* Entities written by users of the base classes ("syn"): their rate law is    *)
(*    f(t, x, u) = A x + B u + (sin x[1]) E u + c t + S sin(x)               *)
(* and all limits, defaults and actuator names are parameters.  The operators *)
(* below cover both these and the vehicles, given a configuration record k.   *)
SynTerms(p, t, x, u) ==
  LET sx == TLCEval([j \in 1 .. Len(x) |-> IF \A i \in 1 .. Len(x) : p.S[i][j] = FZero THEN FZero ELSE FSin(x[j])])
      s1 == IF \A i \in 1 .. Len(x) : \A j \in 1 .. Len(u) : p.E[i][j] = FZero THEN FZero ELSE FSin(x[1])
  IN  [i \in 1 .. Len(x) |->
         [j \in 1 .. Len(x) |-> FMul(p.A[i][j], x[j])] \o
         [j \in 1 .. Len(u) |-> FMul(FAdd(p.B[i][j], FMul(s1, p.E[i][j])), u[j])] \o
         <<FMul(p.c[i], t)>> \o [j \in 1 .. Len(x) |-> FMul(p.S[i][j], sx[j])]]

NamesOf(k) == IF k.cls = "syn" THEN k.p.names ELSE Names(k.cls)
UDefOf(k)  == IF k.cls = "syn" THEN k.p.udef ELSE UDef(k.cls)
UMinOf(k)  == IF k.cls = "syn" THEN k.p.umin ELSE UMin(k.cls, k.p)
UMaxOf(k)  == IF k.cls = "syn" THEN k.p.umax ELSE UMax(k.cls, k.p)
DimOf(k)   == IF k.cls = "syn" THEN Len(k.p.smin) ELSE Dim(k.cls)
LimOf(k)   == IF k.cls = "syn" THEN [smin |-> k.p.smin, smax |-> k.p.smax, dmin |-> k.p.dmin, dmax |-> k.p.dmax, wrap |-> k.p.wrap]
              ELSE Lim(k.cls, k.p)
TermsOf(k, t, x, u) == IF k.cls = "syn" THEN SynTerms(k.p, t, x, u) ELSE Terms(k.cls, k.p, x, u)
RateOf(k, t, x, u)  == LET T == TLCEval(TermsOf(k, t, x, u)) IN [i \in 1 .. Len(T) |-> FSum(T[i])]
ScaleOf(k, t, x, u) == LET T == TLCEval(TermsOf(k, t, x, u))
                       IN [i \in 1 .. Len(T) |-> FSum([j \in 1 .. Len(T[i]) |-> FAbs(T[i][j])])]
DotOf(k, t, x, u) == LET L == LimOf(k) IN StateDot(L, x, RateOf(k, t, Admissible(L, x), u))
EulerOf(k, h, x, u) == EulerStep(LimOf(k), LAMBDA t, y : RateOf(k, t, y, u), h, x)
FlowOf(k, h, x, u, n) == Flow(LimOf(k), LAMBDA t, y : RateOf(k, t, y, u), h, x, n)
=============================================================================
