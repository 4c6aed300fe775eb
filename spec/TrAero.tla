------------------------------- MODULE TrAero -------------------------------
(***************************************************************************)
(* Recorded calls of the F-16 model against Aero (C22-C27).                *)
(***************************************************************************)
EXTENDS TraceBase, Aero

Near(a, b) == Close(a, b, Eps(10), D(1, -9))
NearV(a, b) == VClose(a, b, Eps(8), D(1, -8))

Coef(n, a) ==
  CASE n = "cl" -> <<Cl(a[1], a[2])>> [] n = "cn" -> <<Cn(a[1], a[2])>> [] n = "cm" -> <<Cm(a[1], a[2])>>
    [] n = "cx" -> <<Cx(a[1], a[2])>> [] n = "cy" -> <<Cy(a[1], a[2], a[3])>> [] n = "cz" -> <<Cz(a[1], a[2], a[3])>>
    [] n = "dlda" -> <<Dlda(a[1], a[2])>> [] n = "dldr" -> <<Dldr(a[1], a[2])>> [] n = "dnda" -> <<Dnda(a[1], a[2])>>
    [] n = "dndr" -> <<Dndr(a[1], a[2])>> [] OTHER -> Damp(a[1])
Tab(e) == << <<"C24." \o e.name, e.err = "" /\ VClose(e.v, Coef(e.name, e.a), Eps(11), D(1, -10))>> >>
Air(e) == << <<"C24.adc", e.err = "" /\ VClose(e.v, Adc(e.a[1], e.a[2]), Eps(11), D(1, -10))>> >>

Eng(e) ==
  CASE e.name = "tgear" -> << <<"C23.tgear", e.err = "" /\ VClose(e.v, <<Gear(e.a[1])>>, Eps(10), D(1, -10))>> >>
    [] e.name = "rtau" -> << <<"C23.rtau", e.err = "" /\ VClose(e.v, <<Rtau(e.a[1])>>, Eps(11), D(1, -10))>> >>
    [] e.name = "pdot" ->
         << <<"C23.pdot", e.err = "" /\ VClose(e.v, <<Pdot(e.a[1], e.a[2])>>, Eps(10), D(1, -10))>>,
            <<"C23.direction", e.err = "" /\ LET d == FSub(Target(e.a[1], e.a[2]), e.a[1])
                                             IN  FLe(FAbs(d), Eps(9)) \/ FSgn(e.v[1]) = FSgn(d)>> >>
    [] OTHER -> << <<"C23.thrust", e.err = "" /\ VClose(e.v, <<Thrust(e.a[1], e.a[2], e.a[3])>>,
                                                         IF FLt(e.a[2], FZero) THEN D(2, -2) ELSE Eps(7), D(1, -10))>> >>

\* power under a sequence of throttle settings: never leaves [0, 100] (up to the commanded level) and approaches its target
Lag(e) ==
  LET cmd == Gear(e.th)
      t == Target(e.p, cmd)
  IN  << <<"C23.lag", /\ e.err = ""
                      /\ Near(e.cmd, cmd)
                      /\ Near(e.pd, Pdot(e.p, cmd))
                      /\ FLe(FAbs(FSub(t, FAdd(e.p, FMul(e.h, e.pd)))), FAdd(FAbs(FSub(t, e.p)), Eps(9)))>> >>

Mor(e) ==
  << <<"C25.coefficients", e.err = "" /\ VClose(e.v, Morelli(e.a[1], e.a[2], e.a[3], e.a[4], e.a[5], e.a[6], e.a[7], e.a[8], e.a[9],
                                                              e.a[10], e.a[11], e.a[12], e.a[13]), Eps(9), D(1, -9))>> >>
\* the same call with every bounded input replaced by its bound
Same(e) == << <<"C25.saturated", e.err = "" /\ VClose(e.v, e.w, Eps(11), D(1, -11))>> >>

\* the map is read a hundredth of a foot above sea level for points below it
NearX(x, a, b) == IF FLt(x[12], FZero) THEN VClose(a, b, Eps(4), D(1, -8)) ELSE NearV(a, b)
Rigid(e) ==
  IF e.err # "" THEN << <<"C26.error", FALSE>> >>
  ELSE LET m == TLCEval(Eom(e.x, e.u, e.model, e.shift))
       IN << <<"C26.derivative", NearX(e.x, e.xd, m.xd)>>,
             <<"C26.outputs", NearV(<<e.nz, e.ny, e.az, e.ay>>, <<m.Nz, m.Ny, m.az, m.ay>>)>>,
             <<"C26.groundspeed", Close(FAdd(FAdd(FSqr(e.xd[10]), FSqr(e.xd[11])), FSqr(e.xd[12])), FSqr(e.x[1]), Eps(6), D(1, -9))>>,
             <<"C26.arguments", e.keep>> >>
Loop(e) ==
  IF e.err # "" THEN << <<"C26.error", FALSE>> >>
  ELSE LET m == TLCEval(Closed(e.x, e.uref, e.model, e.v2))
       IN << <<"C26.closed", NearX(e.x, e.xd, m.xd)>>,
             <<"C26.surfaces", NearV(e.u, m.u)>>,
             <<"C26.tracked", NearX(e.x, <<e.nz, e.ps, e.nyr>>, <<m.nz, m.ps, m.nyr>>)>>,
             <<"C26.arguments", e.keep>> >>

Ctl(e) ==
  IF e.err # "" THEN << <<"C22.error", FALSE>> >>
  ELSE << <<"C22.surfaces", VClose(e.u, Surfaces(e.uref, e.x, e.lo, e.hi), Eps(9), D(1, -9))>>,
          <<"C22.deviation", VClose(e.xc, Deviation(e.x), Eps(10), D(1, -10))>>,
          <<"C22.limits", \A i \in 1 .. 4 : FLe(e.lo[i], e.u[i]) /\ FLe(e.u[i], e.hi[i])>>,
          <<"C22.arguments", e.keep>> >>
Integ(e) == << <<"C22.integrators", e.err = "" /\ VClose(e.d, TrackErrors(e.uref, e.y[1], e.y[2], e.y[3]), Eps(11), D(1, -11))>>,
               <<"C22.count", e.n = 3>> >>

Conf(e) ==
  IF e.err # "" THEN << <<"C27.error", FALSE>> >>
  ELSE << <<"C27.constraint", VClose(e.y, Constrained(e.x, e.u, e.k, e.orient), Eps(11), D(1, -11))>>,
          <<"C27.rest", e.v = e.u>> >>
Cost(e) ==
  IF e.err # "" THEN << <<"C27.error", FALSE>> >>
  ELSE LET u == PlaceU(e.s, e.u)
           x == Constrained(PlaceX(e.s, e.x), u, e.k, e.orient)
           r == TLCEval(Residual(x, Eom(x, u, e.model, e.shift).xd, e.k, e.orient))
       IN << <<"C27.cost", Close(IF FLt(r, FOne) THEN FSqr(e.r) ELSE e.r, r, Eps(8), D(1, -7))>>,
             <<"C27.weighted", LET w == Residual(e.y, e.xd, e.k, e.orient)
                               IN  Close(IF FLt(w, FOne) THEN FSqr(e.r) ELSE e.r, w, Eps(17), D(1, -6))>>,
             <<"C27.placed", VClose(e.y, x, Eps(11), D(1, -11)) /\ VClose(e.v, u, Eps(11), D(1, -11))>> >>

\* results handed out are the caller's: later calls leave them alone
HeldEv(e) == << <<e.prop \o ".held", e.ok>> >>

Clauses(e) ==
  CASE e.ev = "held" -> HeldEv(e)
    [] e.ev = "tab" -> Tab(e)
    [] e.ev = "adc" -> Air(e)
    [] e.ev = "eng" -> Eng(e)
    [] e.ev = "lag" -> Lag(e)
    [] e.ev = "mor" -> Mor(e)
    [] e.ev = "same" -> Same(e)
    [] e.ev = "eom" -> Rigid(e)
    [] e.ev = "closed" -> Loop(e)
    [] e.ev = "llc" -> Ctl(e)
    [] e.ev = "integ" -> Integ(e)
    [] e.ev = "conf" -> Conf(e)
    [] e.ev = "clf" -> Cost(e)
    [] OTHER -> <<>>

VARIABLES l, bad, cnt
vars == <<l, bad, cnt>>
Init == l = 1 /\ bad = <<>> /\ cnt = 0
Consume == /\ l <= NLines
           /\ LET cs == Clauses(Trace[l])
              IN  bad' = bad \o Verdicts(l, cs) /\ cnt' = cnt + Len(cs)
           /\ l' = l + 1
Done == l = NLines + 1 /\ Report(bad, cnt) /\ l' = l + 1 /\ UNCHANGED <<bad, cnt>>
Next == Consume \/ Done
=============================================================================
