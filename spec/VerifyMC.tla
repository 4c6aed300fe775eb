------------------------------- MODULE VerifyMC -------------------------------
(***************************************************************************)
(* A run grows instant by instant; every quantity of an instant is below,   *)
(* at, inside or above its limits; any subset of the limits is configured.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRun, Depth, Printing

Both == {"altitude", "Nz", "v", "alpha"}
Upper == {"ps", "beta"}
All == Both \cup Upper
Where(q) == IF q \in Both THEN {"below", "lo", "in", "hi", "above"} ELSE {"in", "hi", "above"}
\* instants in which at most Depth quantities are away from the middle
Instants == UNION {{[q \in All |-> IF q \in S THEN f[q] ELSE "in"] : f \in [S -> {"below", "lo", "hi", "above"}]} :
                     S \in {T \in SUBSET All : Cardinality(T) <= Depth}}
Real == {i \in Instants : \A q \in All : i[q] \in Where(q)}

VARIABLES lim, run, safe, act
vars == <<lim, run, safe, act>>
view == <<lim, run, safe>>

Init == /\ lim \in SUBSET All /\ run = 0 /\ safe = TRUE /\ act = [q \in All |-> "in"]
Record(i) ==
  /\ run < MaxRun
  /\ run' = run + 1
  /\ safe' = (safe /\ \A q \in lim : i[q] \notin {"below", "above"})
  /\ act' = i
  /\ UNCHANGED lim
Next == \E i \in Real : Record(i)
Spec == Init /\ [][Next]_vars

\* C29 on the model: an unsafe run never becomes safe again, limits that are not configured play no role
Final == [][~safe => ~safe']_vars
Exact == [][safe' <=> (safe /\ ~\E q \in lim : act'[q] \in {"below", "above"})]_vars
Unlimited == lim = {} => safe

Dump == IF Printing THEN PrintT(<<"T", ToJson([lim |-> [q \in All |-> q \in lim], run |-> run, safe |-> safe, act |-> act', safe2 |-> safe'])>>) ELSE TRUE
=============================================================================
