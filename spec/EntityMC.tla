------------------------------ MODULE EntityMC ------------------------------
(***************************************************************************)
(* Lifecycle of simulated entities over small integers, explored           *)
(* exhaustively.  An entity has the state <<p, v, th>> (position, speed,    *)
(* heading; TURN units make a full turn), the actuators "acc" and "turn",   *)
(* and one of several limit configurations.  Clients step entities with     *)
(* every form of action, valid or not, assign states (also inadmissible     *)
(* ones), and scribble on arrays they got from or gave to an entity.        *)
(*                                                                          *)
(* Variables: cfg (configuration of each entity, constant), st (state),     *)
(* sd (derivative reported with the last step), act (the last event, an     *)
(* observation hidden from the fingerprint by VIEW).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANTS Ent, CfgIds, Hs, Vals, SetStates, Forms, Printing

TURN == 8
INF == 1000000
NoWrap == 999999

ILeq(a, b) == a <= b
IPlus(a, b) == a + b
ITimes(a, b) == a * b
IWrap(x, c) == IF c = NoWrap THEN x ELSE c - (TURN \div 2) + ((x - c + TURN \div 2) % TURN)

P == INSTANCE Pipeline WITH Leq <- ILeq, Plus <- IPlus, Times <- ITimes, Null <- 0,
                            WrapTo <- IWrap, Half <- 0

Names == <<"acc", "turn">>
\* configurations: two-sided, one-sided and absent limits, rate limits, wrap centres, defaults
Cfg(k) ==
  CASE k = 1 -> [smin |-> <<-4, -2, -INF>>, smax |-> <<4, 2, INF>>, dmin |-> <<-INF, -INF, -INF>>,
                 dmax |-> <<INF, INF, INF>>, wrap |-> <<NoWrap, NoWrap, 0>>,
                 umin |-> <<-1, -2>>, umax |-> <<2, 2>>, udef |-> <<0, 0>>]
    [] k = 2 -> [smin |-> <<-4, -INF, -INF>>, smax |-> <<INF, 2, INF>>, dmin |-> <<-INF, -INF, -1>>,
                 dmax |-> <<2, 1, INF>>, wrap |-> <<NoWrap, NoWrap, 3>>,
                 umin |-> <<-2, -3>>, umax |-> <<1, 3>>, udef |-> <<1, -1>>]
    [] k = 3 -> [smin |-> <<-INF, 1, -3>>, smax |-> <<INF, INF, 3>>, dmin |-> <<-1, -1, -3>>,
                 dmax |-> <<3, 2, 3>>, wrap |-> <<NoWrap, NoWrap, NoWrap>>,
                 umin |-> <<-1, -1>>, umax |-> <<1, 2>>, udef |-> <<-1, 1>>]
    [] k = 4 -> [smin |-> <<-2, -2, -2>>, smax |-> <<2, 2, 2>>, dmin |-> <<-INF, -INF, -INF>>,
                 dmax |-> <<INF, INF, INF>>, wrap |-> <<NoWrap, NoWrap, 1>>,
                 umin |-> <<-INF, -1>>, umax |-> <<1, INF>>, udef |-> <<0, 1>>]

Rate(u, x) == <<x[2], u[1], u[2]>>

MCVals == {-3, 1, 3}
MCSet == {<<0, 0, 0>>, <<4, 2, 3>>, <<-4, -2, -4>>, <<6, 5, 11>>, <<-6, -5, -11>>, <<1, 3, -2>>}
MCSetSmall == {<<0, 0, 0>>, <<6, 5, 11>>}
MCValsSmall == {-3, 3}
MCValsWide == -4 .. 4
MCSetWide == {<<p, v, t>> : p \in {-6, -4, 0, 4, 5}, v \in {-5, -2, 1, 2}, t \in {-11, -4, -3, 0, 2, 3, 5, 9}}

VARIABLES cfg, st, sd, act
vars == <<cfg, st, sd, act>>
view == <<cfg, st>>   \* sd is never read by an action: an observation, like act

None == [kind |-> "none", names |-> <<>>, vals |-> <<>>]
\* every kind of action, well-formed or not
FormsFull ==
  {None, [kind |-> "dict", names |-> <<>>, vals |-> <<>>], [kind |-> "bad", names |-> <<>>, vals |-> <<>>]}
  \cup {[kind |-> "dict", names |-> <<Names[i]>>, vals |-> <<v>>] : i \in 1 .. 2, v \in Vals}
  \cup {[kind |-> "dict", names |-> <<Names[i], Names[3 - i]>>, vals |-> <<v, w>>] : i \in 1 .. 2, v, w \in Vals}
  \cup {[kind |-> "dict", names |-> n, vals |-> [i \in 1 .. Len(n) |-> v]] :
          n \in {<<"oops">>, <<"acc", "oops">>, <<"oops", "turn">>}, v \in Vals}
  \cup {[kind |-> k, names |-> <<>>, vals |-> <<v, w>>] : k \in {"arr", "list"}, v, w \in Vals}
  \cup {[kind |-> "arr", names |-> <<>>, vals |-> <<v, v, v>>] : v \in {1}}

\* command vectors only
FormsArr == {[kind |-> "arr", names |-> <<>>, vals |-> <<v, w>>] : v, w \in Vals}

Ev(e, op, h, form, err, warn) == [e |-> e, op |-> op, h |-> h, form |-> form, err |-> err, warn |-> warn]

Init ==
  /\ cfg \in [Ent -> CfgIds]
  /\ st = [e \in Ent |-> <<0, 1, 0>>]
  /\ sd = [e \in Ent |-> <<0, 0, 0>>]
  /\ act = Ev(0, "init", 0, None, "", FALSE)

\* a step that is refused leaves everything as it was
RejectedStep(e, h, form) ==
  LET r == P!Resolve(Names, Cfg(cfg[e]).udef, form)
  IN  /\ r.err # ""
      /\ act' = Ev(e, "step", h, form, r.err, FALSE)
      /\ UNCHANGED <<cfg, st, sd>>

AcceptedStep(e, h, form) ==
  LET L == Cfg(cfg[e])
      r == P!Resolve(Names, L.udef, form)
      u == P!Saturate(r.u, L.umin, L.umax)
      n == P!EulerStep(L, LAMBDA t, x : Rate(u, x), h, st[e])
  IN  /\ r.err = ""
      /\ act' = Ev(e, "step", h, form, "", P!Exceeds(r.u, L.umin, L.umax))
      /\ st' = [st EXCEPT ![e] = n.x]
      /\ sd' = [sd EXCEPT ![e] = n.d]
      /\ UNCHANGED cfg

\* a client assigns the state (no limits are applied to assigned states)
Assign(e, x) ==
  /\ st' = [st EXCEPT ![e] = x]
  /\ act' = Ev(e, "assign", 0, [kind |-> "state", names |-> <<>>, vals |-> x], "", FALSE)
  /\ UNCHANGED <<cfg, sd>>

\* a client modifies arrays it obtained from, or passed to, an entity; or reads, compares, steps nothing
Scribble(e, what) ==
  /\ act' = Ev(e, what, 0, None, "", FALSE)
  /\ UNCHANGED <<cfg, st, sd>>

Next ==
  \E e \in Ent :
    \/ \E h \in Hs, f \in Forms : RejectedStep(e, h, f) \/ AcceptedStep(e, h, f)
    \/ \E x \in SetStates : Assign(e, x)
    \/ \E w \in {"scribble_state", "scribble_action", "scribble_assigned", "compare"} : Scribble(e, w)

Spec == Init /\ [][Next]_vars

Bound == \A e \in Ent : /\ st[e][1] \in -6 .. 6 /\ st[e][2] \in -5 .. 5 /\ st[e][3] \in -11 .. 11

-----------------------------------------------------------------------------
(* The properties, each stated on the model.                                 *)
Stepped(e) == act'.op = "step" /\ act'.e = e /\ act'.err = ""
L(e) == Cfg(cfg[e])

\* C01: the accepted step is the step of the clipped command; warned iff something was clipped
C01 == [][\A e \in Ent : Stepped(e) =>
            LET r == P!Resolve(Names, L(e).udef, act'.form).u
                c == [i \in 1 .. 2 |-> IF r[i] < L(e).umin[i] THEN L(e).umin[i]
                                       ELSE IF r[i] > L(e).umax[i] THEN L(e).umax[i] ELSE r[i]]
            IN  /\ act'.warn <=> (c # r)
                /\ st'[e] = P!EulerStep(L(e), LAMBDA t, x : Rate(c, x), act'.h, st[e]).x]_vars
\* C02: every form of the same command gives the same step; unnamed actuators stay at default
Vec(f, d) == CASE f.kind = "none" -> d
               [] f.kind = "dict" -> [i \in 1 .. 2 |-> LET k == {j \in 1 .. Len(f.names) : f.names[j] = Names[i]}
                                                       IN  IF k = {} THEN d[i] ELSE f.vals[CHOOSE j \in k : TRUE]]
               [] OTHER -> f.vals
C02 == [][\A e \in Ent : Stepped(e) =>
            LET v == Vec(act'.form, L(e).udef)
                u == P!Saturate(v, L(e).umin, L(e).umax)
            IN  st'[e] = P!EulerStep(L(e), LAMBDA t, x : Rate(u, x), act'.h, st[e]).x]_vars
\* C03: refused iff malformed, and then nothing changes
C03 == [][act'.op = "step" =>
            LET f == act'.form
                bad == \/ f.kind = "bad"
                       \/ f.kind = "dict" /\ \E i \in 1 .. Len(f.names) : f.names[i] \notin {"acc", "turn"}
                       \/ f.kind \in {"arr", "list"} /\ Len(f.vals) # 2
            IN  /\ bad <=> act'.err # ""
                /\ bad => UNCHANGED <<st, sd>>]_vars
\* C04: limits hold after every step; components inside are not altered by the limits
C04 == [][\A e \in Ent : Stepped(e) =>
            \A i \in 1 .. 3 :
              st'[e][i] >= L(e).smin[i] /\ st'[e][i] <= L(e).smax[i]]_vars
\* C05: wrapped components lie within half a turn of the centre; whole turns are taken off
C05 == [][\A e \in Ent : Stepped(e) =>
            LET u == P!Saturate(Vec(act'.form, L(e).udef), L(e).umin, L(e).umax)
                n == P!EulerStep(L(e), LAMBDA t, x : Rate(u, x), act'.h, st[e])
            IN  \A i \in 1 .. 3 :
                  LET raw == P!ClampN(n.raw[i], L(e).smin[i], L(e).smax[i])
                  IN  IF L(e).wrap[i] = NoWrap THEN st'[e][i] = raw
                      ELSE /\ st'[e][i] - L(e).wrap[i] \in -(TURN \div 2) .. (TURN \div 2)
                           /\ (st'[e][i] - raw) % TURN = 0]_vars
\* C06: the reported derivative obeys the rate limits and never points out of a reached limit
C06 == [][\A e \in Ent : Stepped(e) =>
            \A i \in 1 .. 3 :
              /\ sd'[e][i] >= L(e).dmin[i] \/ sd'[e][i] = 0
              /\ sd'[e][i] <= L(e).dmax[i] \/ sd'[e][i] = 0
              /\ L(e).wrap[i] = NoWrap =>
                   /\ st'[e][i] = L(e).smin[i] => sd'[e][i] >= 0
                   /\ st'[e][i] = L(e).smax[i] => sd'[e][i] <= 0]_vars
\* C07/C08: nothing a client does to its own arrays, and no event of another entity, changes an entity
C07 == [][act'.op \in {"scribble_state", "scribble_action", "scribble_assigned", "compare"} => UNCHANGED <<st, sd>>]_vars
C08 == [][\A e \in Ent : act'.e # e => st'[e] = st[e] /\ sd'[e] = sd[e]]_vars
\* C10: a step is one explicit Euler update of the limited rate
C10 == [][\A e \in Ent : Stepped(e) =>
            LET u == P!Saturate(Vec(act'.form, L(e).udef), L(e).umin, L(e).umax)
                x == st[e]
                a == [i \in 1 .. 3 |-> P!ClampN(x[i], L(e).smin[i], L(e).smax[i])]
                d == [i \in 1 .. 3 |->
                        LET r == P!ClampN(Rate(u, a)[i], L(e).dmin[i], L(e).dmax[i])
                        IN  IF x[i] <= L(e).smin[i] /\ r < 0 THEN 0
                            ELSE IF x[i] >= L(e).smax[i] /\ r > 0 THEN 0 ELSE r]
            IN  \A i \in 1 .. 3 : L(e).wrap[i] = NoWrap /\ x[i] + act'.h * d[i] \in L(e).smin[i] .. L(e).smax[i]
                                    => st'[e][i] = x[i] + act'.h * d[i]]_vars

-----------------------------------------------------------------------------
(* Every transition, written out for replay in the implementation.           *)
Dump == IF Printing
        THEN PrintT(<<"T", ToJson([cfg |-> cfg, st |-> st, act |-> act', st2 |-> st', sd2 |-> sd'])>>)
        ELSE TRUE
=============================================================================
