------------------------------- MODULE Scalar -------------------------------
(***************************************************************************)
(* What happens to one component, generic in the number system: Pipeline    *)
(* applies it to every component of a state, PipelineAp proves it for all   *)
(* integers.                                                                *)
(***************************************************************************)
CONSTANTS Leq(_, _),       \* order
          Plus(_, _),      \* addition
          Times(_, _),     \* multiplication
          Null,            \* zero
          WrapTo(_, _),    \* WrapTo(x, c): x brought to within half a turn of c; c may mean "not wrapped"
          Half             \* one half, or (for integers) unused

MaxN(a, b) == IF Leq(a, b) THEN b ELSE a
MinN(a, b) == IF Leq(a, b) THEN a ELSE b
ClampN(x, lo, hi) == MinN(MaxN(x, lo), hi)
\* the derivative d of a component at x, not pointing out of the limits
OneSidedN(x, lo, hi, d) ==
  LET a == IF Leq(x, lo) THEN MaxN(d, Null) ELSE d
  IN  IF Leq(hi, x) THEN MinN(a, Null) ELSE a
=============================================================================
