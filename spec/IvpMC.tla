-------------------------------- MODULE IvpMC --------------------------------
(***************************************************************************)
(* The fixed-step integrator over integers (time and state in eighths), for *)
(* every small interval, step and tolerance; the rate is a + b t + c y.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Starts, Ends, Steps, Tols, Rates, Y0s, Printing

VARIABLES c, s, act
vars == <<c, s, act>>
view == <<c, s>>

MCSteps == {-1, 0, 1, 2, 3, 9}
MCStepsWide == -1 .. 6
MCEndsWide == 0 .. 9
MCStartsWide == {-4, 0, 3}
MCY0sWide == {-5, 0, 3}
MCRates == {<<1, 0, 0>>, <<-2, 1, 0>>, <<1, -1, 1>>, <<0, 0, -1>>}

Accepts(k) == k.step > 0 /\ k.tend > k.t0
Init ==
  /\ c \in [t0 : Starts, tend : Ends, step : Steps, tol : Tols, rate : Rates, y0 : Y0s]
  /\ s = IF Accepts(c) THEN [t |-> c.t0, y |-> c.y0, st |-> "running", has |-> FALSE, tp |-> 0, yp |-> 0]
         ELSE [t |-> c.t0, y |-> c.y0, st |-> "refused", has |-> FALSE, tp |-> 0, yp |-> 0]
  /\ act = [op |-> "new", at |-> 0, num |-> 0, calls |-> 0]

Rate(t, y) == c.rate[1] + c.rate[2] * t + c.rate[3] * y
Advance ==
  /\ s.st = "running"
  /\ LET to == IF s.t + c.step + c.tol >= c.tend THEN c.tend ELSE s.t + c.step
     IN s' = [t |-> to, y |-> s.y + (to - s.t) * Rate(s.t, s.y), st |-> IF to = c.tend THEN "finished" ELSE "running",
              has |-> TRUE, tp |-> s.t, yp |-> s.y]
  /\ act' = [op |-> "step", at |-> s.t, num |-> 0, calls |-> 1]
  /\ UNCHANGED c
Idle ==
  /\ s.st = "finished"
  /\ act' = [op |-> "step", at |-> s.t, num |-> 0, calls |-> 0]
  /\ UNCHANGED <<c, s>>
\* the dense output at time t, times the length of the last step
Look(t) ==
  /\ s.st # "refused" /\ s.has
  /\ act' = [op |-> "dense", at |-> t, num |-> s.yp * (s.t - s.tp) + (s.y - s.yp) * (t - s.tp), calls |-> 0]
  /\ UNCHANGED <<c, s>>
Next == Advance \/ Idle \/ \E t \in c.t0 .. c.tend : Look(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Advance)

\* C28 on the model
Inside == s.st = "refused" \/ s.t <= c.tend
Lands == (s.st = "finished") <=> (s.st # "refused" /\ s.t = c.tend)
Refuses == (s.st = "refused") <=> ~Accepts(c)
Regular == s.has => /\ s.t - s.tp = c.step \/ s.t = c.tend
                    /\ s.t - s.tp <= c.step + c.tol
                    /\ s.tp < c.tend
Ends_ == [][act'.calls > 0 => act'.at < c.tend]_vars
Rests == [][s.st = "finished" => s' = s]_vars
Finishes == Accepts(c) ~> s.st = "finished"

Dump == IF Printing THEN PrintT(<<"T", ToJson([c |-> c, s |-> s, act |-> act', s2 |-> s'])>>) ELSE TRUE
=============================================================================
