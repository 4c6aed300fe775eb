------------------------------- MODULE TrUtil -------------------------------
(***************************************************************************)
(* Recorded use of the aerobench utilities against Util (C28-C30).         *)
(* mem holds what the specification knows of every integrator and object,   *)
(* so that a whole interleaved history is judged, not single calls.         *)
(***************************************************************************)
EXTENDS TraceBase, Util

VARIABLES l, bad, cnt, mem
vars == <<l, bad, cnt, mem>>

Tight(a, b) == Close(a, b, Eps(13), D(1, -12))
TightV(a, b) == VClose(a, b, Eps(12), D(1, -12))
Remember(h, v) == [k \in DOMAIN mem \cup {h} |-> IF k = h THEN v ELSE mem[k]]

-----------------------------------------------------------------------------
\* integrators: mem[h] = [c, s, y0]; records carry the integrator after the call as o = [t, y, st, has, tp, yp]
Same(o, s) == /\ Tight(o.t, s.t) /\ TightV(o.y, s.y) /\ o.st = s.st /\ o.has = s.has
              /\ s.has => Tight(o.tp, s.tp) /\ TightV(o.yp, s.yp)
NewIvp(e) == << <<"C28.rejects", (e.err = "") = IvpAccepts(e.c)>>,
                <<"C28.start", e.err = "" => Same(e.o, IvpStart(e.c, e.y0))>>,
                <<"C28.arguments", e.keep>> >>
IvpStep(e) ==
  LET m == mem[e.h] s == m.s running == s.st = "running"
      \* the landing the code chose, if it is one of the allowed ones
      lands == IvpLandings(m.c, s.t)
      to == IF e.o.t \in lands THEN e.o.t
            ELSE IF \E v \in lands : Tight(v, e.o.t) THEN CHOOSE v \in lands : Tight(v, e.o.t)
            ELSE CHOOSE v \in lands : TRUE
      n == IvpAdvance(m.c, s, to, e.yd)
  IN << <<"C28.error", e.err = "">>,
        <<"C28.evaluations", IF running THEN Len(e.calls) = 1 /\ Tight(e.calls[1].t, s.t) /\ TightV(e.calls[1].y, s.y) ELSE e.calls = <<>> >>,
        <<"C28.beyond", \A i \in 1 .. Len(e.calls) : FLt(e.calls[i].t, m.c.tend)>>,
        <<"C28.time", Tight(e.o.t, IF running THEN to ELSE s.t)>>,
        <<"C28.finished", (e.o.st = "finished") = (e.o.t = m.c.tend) /\ e.o.st = n.st>>,
        <<"C28.update", TightV(e.o.y, n.y)>>,
        <<"C28.previous", e.o.has = n.has /\ (n.has => Tight(e.o.tp, n.tp) /\ TightV(e.o.yp, n.yp))>>,
        <<"C28.arguments", e.keep>> >>
IvpLook(e) == << <<"C28.isolated", Same(e.o, mem[e.h].s)>>, <<"C28.arguments", e.keep>> >>
\* a dense output taken at some moment (s is the integrator then) and evaluated at any time
IvpDense(e) == LET s == mem[e.h].s
               IN << <<"C28.dense", IF s.has THEN e.err = "" /\ VClose(e.v, IvpLine(s, e.t), Eps(9), D(1, -10)) ELSE e.err # "">> >>
IvpHeld(e) == << <<"C28.held", e.err = "" /\ VClose(e.v, IvpLine(e.s, e.t), Eps(9), D(1, -10))>> >>

-----------------------------------------------------------------------------
Verify(e) ==
  LET n == Len(e.x)
      doubt == \E i \in 1 .. n : InstantDoubtful(e.lim, e.x[i], e.ps[i])
      safe == \A i \in 1 .. n : InstantSafe(e.lim, e.x[i], e.nz[i], e.ps[i])
  IN << <<"C29.verdict", doubt \/ (e.err = "") = safe>>,
        <<"C29.error", e.err \in {"", "AssertionError"}>>,
        <<"C29.again", e.err2 = e.err>>,
        <<"C29.arguments", e.keep>> >>

-----------------------------------------------------------------------------
\* objects: mem[h] = [frozen, fields (names to values), known (names of the class)]
Obs(o) == [k \in DOMAIN o |-> o[k]]
ObjNew(e) == << <<"C30.new", e.err = "">> >>
ObjSet(e) ==
  LET o == mem[e.h] ok == MaySet(o, e.key, {e.known[i] : i \in 1 .. Len(e.known)})
  IN << <<"C30.frozen", (e.err = "") = ok>>,
        <<"C30.fields", Obs(e.o) = (IF ok THEN Put(o.fields, e.key, e.v) ELSE o.fields)>> >>
ObjFreeze(e) == << <<"C30.freeze", e.err = "" /\ Obs(e.o) = mem[e.h].fields>> >>
ObjLook(e) == << <<"C30.isolated", Obs(e.o) = mem[e.h].fields>> >>

Help(e) ==
  CASE e.name = "fix" -> << <<"C30.fix", e.err = "" /\ e.v = Trunc(e.a)>> >>
    [] e.name = "sign" -> << <<"C30.sign", e.err = "" /\ e.v = FInt(FSgn(e.a))>> >>
    [] OTHER -> << <<"C30.names", e.err = "" /\ e.names = StateNames
                       /\ \A k \in DOMAIN IndexNames : k \in DOMAIN e.index /\ e.index[k] = IndexNames[k] - 1>> >>

Extract(e) ==
  IF e.err # "" THEN << <<"C30.extract", FALSE>> >>
  ELSE << <<"C30.states", /\ Len(e.got) = Len(e.states)
                          /\ \A i \in 1 .. Len(e.states) : e.got[i] = Columns(e.states[i], e.k, e.width)>>,
          <<"C30.entries", /\ DOMAIN e.sub = DOMAIN e.ext
                           /\ \A key \in DOMAIN e.ext : /\ Len(e.sub[key]) = Len(e.ext[key])
                                                        /\ \A i \in 1 .. Len(e.ext[key]) :
                                                             e.sub[key][i] = (IF e.many THEN e.ext[key][i][e.k + 1] ELSE e.ext[key][i])>>,
          <<"C30.common", e.times2 = e.times /\ e.status2 = e.status /\ e.modes2 = e.modes>>,
          <<"C30.source", e.keep>> >>

\* printed matrix as read back: title, headings, row labels and entries
Printed(e) ==
  << <<"C30.printed", /\ e.err = "" /\ e.title = e.title0 /\ e.cols = e.cols0 /\ e.rows = e.rows0
                      /\ Len(e.m) = Len(e.m0)
                      /\ \A i \in 1 .. Len(e.m0) : VClose(e.m[i], e.m0[i], Eps(9), D(2, -4))>> >>

Clauses(e) ==
  CASE e.ev = "ivp" -> NewIvp(e) [] e.ev = "step" -> IvpStep(e) [] e.ev = "look" -> IvpLook(e)
    [] e.ev = "dense" -> IvpDense(e) [] e.ev = "held" -> IvpHeld(e)
    [] e.ev = "verify" -> Verify(e)
    [] e.ev = "obj" -> ObjNew(e) [] e.ev = "set" -> ObjSet(e) [] e.ev = "freeze" -> ObjFreeze(e) [] e.ev = "olook" -> ObjLook(e)
    [] e.ev = "help" -> Help(e) [] e.ev = "extract" -> Extract(e) [] e.ev = "print" -> Printed(e)
    [] OTHER -> <<>>

\* what is known afterwards: integrators as observed (each step is judged from where the code stood), objects as specified
Mem(e) ==
  CASE e.ev = "ivp" -> IF e.err = "" THEN Remember(e.h, [c |-> e.c, s |-> e.o]) ELSE mem
    [] e.ev = "step" -> Remember(e.h, [mem[e.h] EXCEPT !.s = e.o])
    [] e.ev = "obj" -> Remember(e.h, [frozen |-> e.frozen, fields |-> Obs(e.o)])
    [] e.ev = "set" -> Remember(e.h, [mem[e.h] EXCEPT !.fields = Obs(e.o)])
    [] e.ev = "freeze" -> Remember(e.h, [mem[e.h] EXCEPT !.frozen = TRUE])
    [] OTHER -> mem

Init == l = 1 /\ bad = <<>> /\ cnt = 0 /\ mem = [k \in {} |-> 0]
Consume == /\ l <= NLines
           /\ LET cs == Clauses(Trace[l])
              IN  bad' = bad \o Verdicts(l, cs) /\ cnt' = cnt + Len(cs)
           /\ mem' = TLCEval(Mem(Trace[l]))
           /\ l' = l + 1
Done == l = NLines + 1 /\ Report(bad, cnt) /\ l' = l + 1 /\ UNCHANGED <<bad, cnt, mem>>
Next == Consume \/ Done
=============================================================================
