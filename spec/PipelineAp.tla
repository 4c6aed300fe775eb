------------------------------ MODULE PipelineAp ------------------------------
(***************************************************************************)
(* One component under the scalar pipeline, for ALL integers: any limits,   *)
(* any rate limits, any centre and turn, any command, any rate, any step     *)
(* length.  Apalache proves Inv inductive (Inv holds initially and every     *)
(* step preserves it); Init already admits every state, so one step covers   *)
(* every history.                                                            *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  lo,
  \* @type: Int;
  hi,
  \* @type: Int;
  dlo,
  \* @type: Int;
  dhi,
  \* @type: Int;
  ulo,
  \* @type: Int;
  uhi,
  \* @type: Int;
  centre,
  \* @type: Int;
  half,
  \* @type: Bool;
  wraps,
  \* @type: Int;
  x,
  \* @type: Int;
  u,
  \* @type: Int;
  given,
  \* @type: Int;
  raw,
  \* @type: Int;
  d,
  \* @type: Int;
  moved,
  \* @type: Int;
  turns,
  \* @type: Int;
  from,
  \* @type: Bool;
  stepped

ILeq(a, b) == a <= b
IPlus(a, b) == a + b
ITimes(a, b) == a * b
IWrap(y, c) == y + c      \* not used here: wrapping is stated by its number of turns below
S == INSTANCE Scalar WITH Leq <- ILeq, Plus <- IPlus, Times <- ITimes, Null <- 0, WrapTo <- IWrap, Half <- 0

\* limits that make sense, and a wrap range that contains the limits if there are any
Sane == /\ lo <= hi /\ dlo <= 0 /\ 0 <= dhi /\ ulo <= uhi /\ half > 0

Init ==
  /\ lo \in Int /\ hi \in Int /\ dlo \in Int /\ dhi \in Int /\ ulo \in Int /\ uhi \in Int
  /\ centre \in Int /\ half \in Int /\ wraps \in BOOLEAN
  /\ x \in Int /\ u \in Int /\ given \in Int /\ raw \in Int /\ d \in Int /\ moved \in Int /\ turns \in Int /\ from \in Int
  /\ stepped = FALSE
  /\ Sane

\* the command is limited, the rate is arbitrary, limited and made one-sided, the result is clipped and wrapped
Step ==
  \E command \in Int, rate \in Int, distance \in Int :
    /\ from' = x
    /\ given' = command
    /\ u' = S!ClampN(command, ulo, uhi)
    /\ raw' = rate
    /\ d' = S!OneSidedN(S!ClampN(x, lo, hi), lo, hi, S!ClampN(rate, dlo, dhi))
    \* distance is what the derivative covers in some time: a multiple of it with its sign
    /\ (d' = 0 => distance = 0) /\ (d' > 0 => distance >= 0) /\ (d' < 0 => distance <= 0)
    /\ LET y == S!ClampN(x + distance, lo, hi)
       IN /\ moved' = y
          /\ turns' = IF wraps THEN (y - centre + half) \div (2 * half) ELSE 0
          /\ x' = IF wraps THEN centre - half + ((y - centre + half) % (2 * half)) ELSE y
    /\ stepped' = TRUE
    /\ UNCHANGED <<lo, hi, dlo, dhi, ulo, uhi, centre, half, wraps>>
Next == Step

\* C01, C04, C05, C06
Commands == stepped => /\ ulo <= u /\ u <= uhi
                       /\ (u = given) <=> (ulo <= given /\ given <= uhi)
Limits == stepped => /\ lo <= moved /\ moved <= hi
                     /\ ~wraps => lo <= x /\ x <= hi
Wraps == stepped /\ wraps => /\ centre - half <= x /\ x <= centre + half
                             /\ x = moved - turns * (2 * half)
Rates == stepped => /\ dlo <= d /\ d <= dhi
                    /\ (raw >= dlo /\ raw <= dhi) => d \in {0, raw}
                    /\ (raw >= dlo /\ raw <= dhi /\ lo < from /\ from < hi) => d = raw
                    /\ from <= lo => d >= 0
                    /\ from >= hi => d <= 0
Inv == Sane /\ Commands /\ Limits /\ Wraps /\ Rates

\* every state that satisfies the invariant
Any ==
  /\ lo \in Int /\ hi \in Int /\ dlo \in Int /\ dhi \in Int /\ ulo \in Int /\ uhi \in Int
  /\ centre \in Int /\ half \in Int /\ wraps \in BOOLEAN
  /\ x \in Int /\ u \in Int /\ given \in Int /\ raw \in Int /\ d \in Int /\ moved \in Int /\ turns \in Int /\ from \in Int
  /\ stepped \in BOOLEAN
  /\ Inv

=============================================================================
