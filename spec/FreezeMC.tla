------------------------------- MODULE FreezeMC -------------------------------
(***************************************************************************)
(* Objects whose fields can be frozen, side by side.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Obj, Names, Values, Printing

None == 0                   \* the field does not exist
VARIABLES f, frozen, act    \* f[o][n] is the value of field n of object o
vars == <<f, frozen, act>>
view == <<f, frozen>>

Init == /\ f = [o \in Obj |-> [n \in Names |-> None]]
        /\ frozen = [o \in Obj |-> FALSE]
        /\ act = [op |-> "init", o |-> 0, n |-> "", v |-> 0, ok |-> TRUE]
Set(o, n, v) ==
  LET ok == ~frozen[o] \/ f[o][n] # None
  IN  /\ f' = IF ok THEN [f EXCEPT ![o][n] = v] ELSE f
      /\ act' = [op |-> "set", o |-> o, n |-> n, v |-> v, ok |-> ok]
      /\ UNCHANGED frozen
Freeze(o) ==
  /\ frozen' = [frozen EXCEPT ![o] = TRUE]
  /\ act' = [op |-> "freeze", o |-> o, n |-> "", v |-> 0, ok |-> TRUE]
  /\ UNCHANGED f
Next == \E o \in Obj : Freeze(o) \/ \E n \in Names, v \in Values : Set(o, n, v)
Spec == Init /\ [][Next]_vars

\* C30 on the model
Has(o, g) == {n \in Names : g[o][n] # None}
NoGrowth == [][\A o \in Obj : frozen[o] => Has(o, f') = Has(o, f)]_vars
Updates == [][\A o \in Obj : act'.op = "set" /\ act'.o = o /\ f[o][act'.n] # None => f'[o][act'.n] = act'.v /\ act'.ok]_vars
Apart == [][\A o \in Obj : act'.o # o => f'[o] = f[o] /\ frozen'[o] = frozen[o]]_vars
Stays == [][\A o \in Obj : frozen[o] => frozen'[o]]_vars

Dump == IF Printing THEN PrintT(<<"T", ToJson([f |-> f, frozen |-> frozen, act |-> act', f2 |-> f', frozen2 |-> frozen'])>>) ELSE TRUE
=============================================================================
