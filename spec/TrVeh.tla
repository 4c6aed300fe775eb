------------------------------- MODULE TrVeh -------------------------------
(***************************************************************************)
(* Recorded executions of the vehicles against their equations of motion   *)
(* (C12-C16, C21) and against one another where models overlap (C17).      *)
(***************************************************************************)
EXTENDS TraceBase

Prop(c) == CASE c = "cwh" -> "C12" [] c = "rot2d" -> "C13" [] c = "sixdof" -> "C14"
             [] c \in {"dub2", "dub3"} -> "C15" [] c = "sun" -> "C21" [] OTHER -> "C16"

\* derivative asked for at a state under a command
Csd(e) ==
  LET k == CfgOf(e.k) c == k.cls p == k.p
  IN  IF e.err # "" THEN << <<Prop(c) \o ".error", FALSE>> >>
      ELSE LET L == Lim(c, p)
               a == Admissible(L, e.x)
           IN << <<Prop(c) \o ".derivative",
                   DotOk(L, e.x, e.d, Rate(c, p, a, e.u), Scale(c, p, a, e.u), Eps(12), D(2, -6))>> >>

\* tolerance of a flow: rounding of the state, plus a fraction of what moved
FlowTol(x, y, extra, path) == [i \in 1 .. Len(x) |->
                           FAdd(FAdd(extra, FMul(Eps(6), FAbs(x[i]))), FMul(D(3, -4), FAdd(path[i], FAbs(FSub(y[i], x[i])))))]

\* a step of an entity under a raw (unsaturated) command
Stp(e) ==
  LET k == CfgOf(e.k) c == k.cls p == k.p P == Prop(c)
  IN  IF e.err # "" THEN << <<P \o ".error", FALSE>> >>
      ELSE LET L == Lim(c, p)
               u == Saturate(e.u, UMin(c, p), UMax(c, p))
               path == LET r == Rate(c, p, Admissible(L, e.x), u) IN [i \in 1 .. Dim(c) |-> FMul(e.h, FAbs(r[i]))]
               jax == e.meth = "RK45_JAX"   \* computes in single precision
               fine(x, raw) == LET t == FlowTol(x, raw, IF jax THEN D(2, -6) ELSE Eps(7), path)
                               IN  IF jax THEN [i \in 1 .. Len(t) |-> FAdd(t[i], FMul(D(4, -6), FAbs(x[i])))] ELSE t
               moves(x0) == LET raw == TLCEval(IF e.meth = "Euler" THEN VehEuler(c, p, e.h, x0, u).raw ELSE VehFlow(c, p, e.h, x0, u, e.sub))
                            IN  StateClose(L, e.y, Finish(L, raw), fine(e.x, raw))
           IN << <<P \o ".motion", \E x0 \in Variants(L, e.x) : moves(x0)>>,
                 <<P \o ".limits", \A i \in 1 .. Dim(c) :
                      FLe(e.y[i], FAdd(L.smax[i], FMul(Eps(6), FAdd(One, FAbs(L.smax[i])))))
                      /\ FLe(FSub(L.smin[i], FMul(Eps(6), FAdd(One, FAbs(L.smin[i])))), e.y[i])>> >>

\* orbital energy integral of unforced point-mass motion
Energy(n, x) == FSub(FAdd(FAdd(FSqr(x[4]), FSqr(x[5])), FAdd(FSqr(x[6]), FSqr(FMul(n, x[3])))),
                     BMul(<<1, 3>>, FSqr(FMul(n, x[1]))))
EnergyScale(n, x) == FAdd(FAdd(FAdd(FSqr(x[4]), FSqr(x[5])), FAdd(FSqr(x[6]), FSqr(FMul(n, x[3])))),
                     BMul(<<1, 3>>, FSqr(FMul(n, x[1]))))
Ener(e) ==
  LET n == CfgOf(e.k).p.n
  IN  << <<"C12.energy", \A i \in 1 .. Len(e.xs) :
              Close(Energy(n, e.xs[i]), Energy(n, e.xs[1]), FMul(D(1, -4), EnergyScale(n, e.xs[1])), FZero)>> >>

\* unit length of the attitude quaternion along a history
Quat(e) ==
  << <<"C14.unit", \A i \in 1 .. Len(e.xs) :
        Close(FSum([j \in 1 .. 4 |-> FSqr(e.xs[i][j + 3])]), One, D(2, -3), FZero)>> >>

\* reported velocity and acceleration of an aircraft
Kin(e) ==
  LET k == CfgOf(e.k) c == k.cls
      x == e.x
      v == IF c = "dub2" THEN x[4] ELSE x[7]
      hd == IF c = "dub2" THEN x[3] ELSE x[4]
      ga == IF c = "dub2" THEN FZero ELSE x[5]
      dir == <<FMul(FCos(hd), FCos(ga)), FMul(FSin(hd), FCos(ga)), FNeg(FSin(ga))>>
      vel == VScale(v, dir)
      tol == FMul(D(2, -6), FAbs(v))
      acc == VScale(e.vd, dir)
      L == Lim(c, k.p)
      rate == Rate(c, k.p, x, VZero(NU(c)))
  IN  << <<"C15.velocity", VClose(e.vel, vel, tol, FZero)>>,
         <<"C15.acceleration", e.v0 \/ VClose(e.acc, acc, FMul(D(1, -5), FAdd(FAbs(e.vd), Eps(6))), FZero)>> >>

\* two models that must move alike: y1[i] of one against y2[j] of the other
Rel(e) ==
  << <<"C17." \o e.what,
       /\ e.err = ""
       /\ Len(e.a) = Len(e.b)
       /\ \A i \in 1 .. Len(e.a) :
            LET tol == FAdd(FAdd(Eps(7), FMul(D(2, -6), FMax(FAbs(e.a[i]), FAbs(e.b[i])))),
                            FMul(e.rtol, FMax(FAbs(FSub(e.a[i], e.a0[i])), FAbs(FSub(e.b[i], e.a0[i])))))
            IN  IF e.ang[i] = 1 THEN SameAngle(e.a[i], e.b[i], tol) ELSE Within(e.a[i], e.b[i], tol)>> >>

Clauses(e) ==
  CASE e.ev = "csd" -> Csd(e)
    [] e.ev = "stp" -> Stp(e)
    [] e.ev = "energy" -> Ener(e)
    [] e.ev = "quat" -> Quat(e)
    [] e.ev = "kin" -> Kin(e)
    [] e.ev = "rel" -> Rel(e)
    [] OTHER -> <<>>

VARIABLES l, bad, cnt
vars == <<l, bad, cnt>>
Init == l = 1 /\ bad = <<>> /\ cnt = 0
Consume == /\ l <= NLines
           /\ LET cs == Clauses(Trace[l])
              IN  bad' = bad \o Verdicts(l, cs) /\ cnt' = cnt + Len(cs)
           /\ l' = l + 1
Done == l = NLines + 1 /\ Report(bad, cnt) /\ l' = l + 1 /\ UNCHANGED <<bad, cnt>>
Next == Consume \/ Done
=============================================================================
