-------------------------------- MODULE Util --------------------------------
(***************************************************************************)
(* The aerobench utilities: the fixed-step integrator, the verification of *)
(* runs against safety limits, frozen objects, and the small helpers.       *)
(***************************************************************************)
EXTENDS Std

\* --- fixed-step integrator: state [t, y, st, tp, yp, has] under configuration [t0, tend, step, tol]
IvpAccepts(c) == FLt(FZero, c.step) /\ FLt(c.t0, c.tend)
IvpStart(c, y0) == [t |-> c.t0, y |-> y0, st |-> "running", has |-> FALSE, tp |-> FZero, yp |-> <<>>]
\* the times one step may reach: rounding decides when the step ends a hair from the end of the interval
IvpLandings(c, t) ==
  LET to == FAdd(t, c.step)
      gap == FSub(FAdd(to, c.tol), c.tend)
      fuzz == FMul(Eps(13), FAdd(FOne, FAbs(c.tend)))
  IN  IF FLe(FAbs(gap), fuzz) THEN {to, c.tend} ELSE IF FSgn(gap) >= 0 THEN {c.tend} ELSE {to}
IvpAdvance(c, s, to, yd) ==
  IF s.st # "running" THEN s
  ELSE [t |-> to, y |-> VAdd(s.y, VScale(FSub(to, s.t), yd)), st |-> IF to = c.tend THEN "finished" ELSE "running",
        has |-> TRUE, tp |-> s.t, yp |-> s.y]
\* the straight line through the ends of the last step
IvpLine(s, t) == VAdd(s.yp, VScale(FDiv(FSub(t, s.tp), FSub(s.t, s.tp)), VSub(s.y, s.yp)))

\* --- safety limits: altitude, Nz, v, alpha are <<>> or <<lo, hi>>; ps, beta are <<>> or <<max>> in degrees
Inside(lim, v) == lim = <<>> \/ (FLe(lim[1], v) /\ FLe(v, lim[2]))
Degrees(v) == IF IsFinite(v) THEN FDiv(FMulI(v, 180), FPi) ELSE v
Below(lim, v) == lim = <<>> \/ FLe(Degrees(v), lim[1])
Doubtful(lim, v) == lim # <<>> /\ IsFinite(v) /\ FLe(FAbs(FSub(Degrees(v), lim[1])), FMul(Eps(12), FAdd(FOne, FAbs(lim[1]))))
InstantSafe(L, x, nz, ps) ==
  /\ Inside(L.altitude, x[12]) /\ Inside(L.Nz, nz) /\ Inside(L.v, x[1]) /\ Inside(L.alpha, x[2])
  /\ Below(L.ps, ps) /\ Below(L.beta, x[3])
InstantDoubtful(L, x, ps) == Doubtful(L.ps, ps) \/ Doubtful(L.beta, x[3])

\* --- frozen objects: [frozen, fields] with fields a function from names to values; known are the names of the class
MaySet(o, key, known) == ~o.frozen \/ key \in DOMAIN o.fields \/ key \in known
Put(f, key, v) == [k \in DOMAIN f \cup {key} |-> IF k = key THEN v ELSE f[k]]

\* --- helpers
Trunc(v) == IF FSgn(v) < 0 THEN FNeg(BShl(FFloor(FNeg(v)), 5)) ELSE BShl(FFloor(v), 5)
StateNames == <<"vt", "alpha", "beta", "phi", "theta", "psi", "P", "Q", "R", "pos_n", "pos_e", "alt", "pow">>
IndexNames == [VT |-> 1, VEL |-> 1, ALPHA |-> 2, BETA |-> 3, PHI |-> 4, THETA |-> 5, PSI |-> 6, P |-> 7, Q |-> 8, R |-> 9,
               POSN |-> 10, POS_N |-> 10, POSE |-> 11, POS_E |-> 11, ALT |-> 12, H |-> 12, POW |-> 13]
\* columns of aircraft k (from 0) in a joint record of width w
Columns(row, k, w) == SubSeq(row, w * k + 1, w * (k + 1))
=============================================================================
