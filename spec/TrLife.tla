------------------------------- MODULE TrLife -------------------------------
(***************************************************************************)
(* Recorded lifecycles of entities: several entities live side by side;    *)
(* clients step them with every form of command (valid or not), assign and *)
(* restore states, read and compare them, and scribble on arrays they got  *)
(* from or gave to them.  The specification carries the state every entity *)
(* must have (C01, C02, C03, C07, C08, C09).                                *)
(*                                                                         *)
(* A step event carries, besides what was observed, a probe: the result of *)
(* the pure transition function of the entity's dynamics for the observed  *)
(* state and the command u, computed in a separate clean process.  The      *)
(* specification first checks that u is the command its own pipeline        *)
(* derives from the action (else the line is a GAP of the driver).          *)
(***************************************************************************)
EXTENDS TraceBase

VARIABLES st, sd, l, bad, cnt
vars == <<st, sd, l, bad, cnt>>

Kind(e) == e.form.kind
Single(e) == Kind(e) \in {"list", "jax"}
Want(e) ==
  LET k == CfgOf(e.k)
      r == Resolve(NamesOf(k), UDefOf(k), e.form)
  IN  IF r.err # "" THEN r
      ELSE IF k.meth = "bad" THEN [err |-> "ValueError", u |-> r.u]
      ELSE IF k.meth = "unsupported" THEN [err |-> "Any", u |-> r.u]
      ELSE r

ErrOk(want, got) == CASE want = ""    -> got = ""
                      [] want = "Any" -> got # ""
                      [] OTHER        -> got = want
\* both the action and the method may be at fault: then either error will do
ErrOk2(e) == LET k == CfgOf(e.k) w == Want(e)
             IN  IF k.meth \in {"bad", "unsupported"} THEN e.err # "" /\ (Resolve(NamesOf(k), UDefOf(k), e.form).err = "" => ErrOk(w.err, e.err))
                 ELSE ErrOk(w.err, e.err)

CloseTo(v, lim) == IsFinite(lim) /\ FLe(FAbs(FSub(v, lim)), FMul(Eps(6), FAbs(lim)))
\* may rounding have put a component on either side of its limit?
Borderline(e, k, u) ==
  \E i \in 1 .. Len(u) :
    \E lim \in {UMinOf(k)[i], UMaxOf(k)[i]} :
      IF Single(e) \/ k.cls \in {"rot2d", "sixdof"} THEN CloseTo(u[i], lim) ELSE NearEdge(u[i], lim)

StateTol(pre, y) == [i \in 1 .. Len(y) |-> FAdd(Eps(9), FMul(D(2, -6), FAdd(FAbs(pre[i]), FAbs(y[i]))))]
CoarseTol(pre, y, h, d) == [i \in 1 .. Len(y) |-> FAdd(Eps(7), FAdd(FMul(Eps(5), FAdd(FAbs(pre[i]), FAbs(y[i]))),
                              FMul(D(5, -4), FAdd(FAbs(FSub(y[i], pre[i])), FMul(h, FAbs(d[i]))))))]
MotionTol(pre, y, raw) == [i \in 1 .. Len(y) |-> FAdd(Eps(7), FAdd(FMul(D(2, -6), FAdd(FAbs(pre[i]), FAbs(raw[i]))),
                                                     FMul(D(1, -4), FAbs(FSub(raw[i], pre[i])))))]
SameVec(a, b, tol) == /\ Len(a) = Len(b)
                      /\ \A i \in 1 .. Len(a) : Within(a[i], b[i], tol[i])
SameDot(a, b, rtol) == LET t == FAdd(Eps(9), FMul(rtol, VMax(b))) IN SameVec(a, b, [i \in 1 .. Len(b) |-> t])
\* in single precision a state may end on either side of its limit
NearLim(x, lim) == IsFinite(lim) /\ FLe(FAbs(FSub(x, lim)), FMul(D(2, -5), FAdd(FAbs(lim), Eps(3))))
SameDotSingle(k, y, a, b) ==
  LET t == FAdd(Eps(9), FMul(D(2, -3), VMax(b)))
  IN  /\ Len(a) = Len(b) /\ Len(y) = Len(b)
      /\ \A i \in 1 .. Len(b) :
           Within(a[i], b[i], t) \/ ((NearLim(y[i], LimOf(k).smin[i]) \/ NearLim(y[i], LimOf(k).smax[i]))
                                      /\ (Within(a[i], FZero, t) \/ Within(b[i], FZero, t)))
\* components of the state that wrap may come out at either side of the seam
SameState(k, a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1 .. Len(a) :
       IF IsNan(LimOf(k).wrap[i]) THEN Within(a[i], b[i], tol[i])
       ELSE SameAngle(a[i], b[i], tol[i])

Accepted(e, k, r) ==
  LET u == Saturate(r.u, UMinOf(k), UMaxOf(k))
      over == Exceeds(r.u, UMinOf(k), UMaxOf(k))
      \* commands held in single precision make the whole step single precision (and move RK45's step control)
      tol == IF Single(e) THEN CoarseTol(e.pre, e.py, e.h, e.pd) ELSE StateTol(e.pre, e.py)
      ok == SameState(k, e.y, e.py, tol)
      dok == IF Single(e) THEN SameDotSingle(k, e.y, e.d, e.pd) ELSE SameDot(e.d, e.pd, D(2, -6))
      utol == [i \in 1 .. Len(u) |-> FAdd(Eps(12), FMul(Eps(6), FAbs(u[i])))]
      euler == IF k.meth # "Euler" THEN TRUE
               ELSE \E x0 \in Variants(LimOf(k), e.pre) :
                      LET raw == EulerOf(k, e.h, x0, u).raw
                      IN  StateClose(LimOf(k), e.y, Finish(LimOf(k), raw), MotionTol(e.pre, e.y, raw))
  IN << <<"GAP.command", SameVec(e.pu, u, utol)>>,
        <<"GAP.probe", e.perr = "">>,
        <<"C01.effect", ok /\ dok>>,
        <<"C01.model", euler>>,
        <<"C01.warning", Borderline(e, k, r.u) \/ (e.warn <=> over)>>,
        <<"C02.effect", ok /\ dok>>,
        <<"C02.model", euler>>,
        <<"C02.default", e.udef = UDefOf(k)>>,
        <<"C03.later", ok /\ dok>>,
        <<"C07.effect", ok /\ dok>>,
        <<"C08.state", ok>>,
        <<"C08.derivative", dok>>,
        <<"C09.unsampled", k.samples = 0 \/ (ok /\ dok)>> >>

Step(e) ==
  LET k == CfgOf(e.k) w == Want(e)
      before == << <<"C03.pre", e.pre = st[e.i] /\ e.preD = sd[e.i]>>,
                   <<"C07.pre", e.pre = st[e.i] /\ e.preD = sd[e.i]>>,
                   <<"C08.pre", e.pre = st[e.i] /\ e.preD = sd[e.i]>>,
                   <<"C07.action", e.argsame>> >>
  IN  before \o
      IF w.err # "" THEN
        << <<"C03.raised", ErrOk2(e)>>,
           <<"C03.state", e.y = e.pre>>,
           <<"C03.derivative", e.d = e.preD>>,
           <<"C03.default", e.udef = UDefOf(k)>> >>
      ELSE IF e.err # "" THEN
        [i \in 1 .. 6 |-> <<<<"C01", "C02", "C03", "C07", "C08", "C09">>[i] \o ".refused", FALSE>>]
      ELSE Accepted(e, k, w)

\* the observed state (and derivative) of an entity after something that must not touch it
Obs(e) ==
  LET same == e.x = st[e.i] /\ e.d = sd[e.i]
  IN  << <<(CASE e.why \in {"got", "gave"} -> "C07.shared"
              [] e.why = "rejected" -> "C03.untouched"
              [] OTHER -> "C08.isolated"), same>> >>

\* arguments of a call on the dynamics, before and after it, and after its results were overwritten
Args(e) == << <<"C07.arguments", e.err = "" /\ e.before = e.after>>, <<"C07.results", e.after = e.later>> >>

\* samples of the last accepted step
Traj(e) ==
  LET k == CfgOf(e.k) n == k.samples L == LimOf(k)
  IN << <<"C09.count", e.err = "" /\ Len(e.ts) = n /\ Len(e.xs) = n>> >> \o
     IF e.err # "" \/ Len(e.ts) # n \/ Len(e.xs) # n THEN <<>>
     ELSE << <<"C09.times", \A j \in 1 .. n : Within(e.ts[j], FDivI(FMulI(e.h, j), n), FMul(Eps(9), e.h))>>,
             <<"C09.last", StateClose(L, e.y, Finish(L, e.xs[n]), StateTol(e.pre, e.y))>>,
             <<"C09.between",
               \E x0 \in Variants(L, e.pre) :
               LET rate == LimitedRate(L, LAMBDA t, x : RateOf(k, t, x, e.u), FZero, x0)
               IN \A j \in 1 .. n :
                 LET raw == FlowOf(k, FDivI(FMulI(e.h, j), n), x0, e.u, 4)
                 IN  \A i \in 1 .. DimOf(k) :
                       LET tol == FAdd(Eps(7), FAdd(FMul(Eps(6), FAbs(e.pre[i])), FMul(D(5, -4), FAdd(FAbs(FSub(raw[i], e.pre[i])), FMul(e.h, FAbs(rate[i]))))))
                       IN  IF IsNan(L.wrap[i]) THEN Within(e.xs[j][i], raw[i], tol)
                           ELSE SameAngle(e.xs[j][i], raw[i], tol)>> >>

Clauses(e) ==
  CASE e.ev = "step" -> Step(e)
    [] e.ev = "obs"  -> Obs(e)
    [] e.ev = "args" -> Args(e)
    [] e.ev = "traj" -> Traj(e)
    [] OTHER -> <<>>

Init == st = <<>> /\ sd = <<>> /\ l = 1 /\ bad = <<>> /\ cnt = 0

Put(f, i, v) == [j \in (DOMAIN f) \cup {i} |-> IF j = i THEN v ELSE f[j]]
Judge(e) == LET cs == Clauses(e) IN bad' = bad \o Verdicts(l, cs) /\ cnt' = cnt + Len(cs)
Advance == l' = l + 1
Now == Trace[l]
Is(ev) == l <= NLines /\ Now.ev = ev

Create == Is("new") /\ st' = Put(st, Now.i, Now.x) /\ sd' = Put(sd, Now.i, Now.d) /\ Judge(Now) /\ Advance
\* an accepted step moves the entity to the observed state (judged above); a refused one does not move it
StepEv == /\ Is("step") /\ Judge(Now) /\ Advance
          /\ st' = Put(st, Now.i, IF Want(Now).err = "" THEN Now.y ELSE st[Now.i])
          /\ sd' = Put(sd, Now.i, IF Want(Now).err = "" THEN Now.d ELSE sd[Now.i])
Assign == Is("assign") /\ st' = Put(st, Now.i, Now.x) /\ Judge(Now) /\ Advance /\ UNCHANGED sd
Look   == l <= NLines /\ Now.ev \in {"obs", "args", "traj", "cfg"} /\ Judge(Now) /\ Advance /\ UNCHANGED <<st, sd>>
Done   == l = NLines + 1 /\ Report(bad, cnt) /\ l' = l + 1 /\ UNCHANGED <<st, sd, bad, cnt>>
Next == Create \/ StepEv \/ Assign \/ Look \/ Done
=============================================================================
