------------------------------- MODULE EngineMC -------------------------------
(***************************************************************************)
(* The engine under sequences of throttle settings, in the real numbers of  *)
(* the specification: power follows the command with the published lag.      *)
(***************************************************************************)
EXTENDS Aero, TLC, Json
CONSTANTS Throttles, Starts, MaxTime, Printing   \* percent; percent; number of steps

Hold == D(1, -1)        \* seconds between decisions
VARIABLES p, n, act
vars == <<p, n, act>>
view == <<p, n>>

Th(k) == FDivI(FInt(k), 100)
Init == p \in {FInt(k) : k \in Starts} /\ n = 0 /\ act = [th |-> FZero, cmd |-> FZero, pd |-> FZero]
Step(k) ==
  /\ n < MaxTime
  /\ LET cmd == TLCEval(Gear(Th(k)))
         pd == TLCEval(Pdot(p, cmd))
     IN  /\ p' = TLCEval(FAdd(p, FMul(Hold, pd)))
         /\ act' = [th |-> Th(k), cmd |-> cmd, pd |-> pd]
  /\ n' = n + 1
Next == \E k \in Throttles : Step(k)
Spec == Init /\ [][Next]_vars

\* C23 on the model
InRange == FLe(FZero, p) /\ FLe(p, FInt(100))
\* power moves towards the level it is heading for, never beyond it, and rests only there
Towards == [][LET t == Target(p, act'.cmd)
              IN  /\ FSgn(act'.pd) = FSgn(FSub(t, p))
                  /\ FLe(FAbs(FSub(t, p')), FAbs(FSub(t, p)))]_vars
\* the rate is the slow one for large gaps and the fast one for small gaps or in afterburner
Rates == [][LET t == Target(p, act'.cmd) gap == FSub(t, p)
            IN  FSgn(gap) # 0 => LET k == FDiv(act'.pd, gap) IN FLe(D(1, -1), FAdd(k, Eps(9))) /\ FLe(k, FAdd(FInt(5), Eps(9)))]_vars
\* holding any throttle setting, the power comes to rest at the command
RECURSIVE After(_, _, _)
After(q, cmd, k) == IF k = 0 THEN q ELSE After(TLCEval(FAdd(q, FMul(Hold, Pdot(q, cmd)))), cmd, k - 1)
Settles == n = 0 => \A k \in Throttles : FLe(FAbs(FSub(After(p, Gear(Th(k)), 400), Gear(Th(k)))), D(1, -2))

Dump == IF Printing THEN PrintT(<<"T", ToJson([p |-> p, act |-> act'])>>) ELSE TRUE
=============================================================================
