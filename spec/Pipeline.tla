------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* What one step of an entity does, generic in the number system:          *)
(*                                                                         *)
(*   action --Resolve--> command --Saturate--> u                           *)
(*   (x, u) --rate law, LimitRate, OneSided--> derivative --integrate-->   *)
(*   raw state --ClampV--> --WrapV--> next state                           *)
(*                                                                         *)
(* Instantiated with small integers for exhaustive model checking          *)
(* (EntityMC), with fixed-point reals for validating recorded executions   *)
(* of the implementation (TrLife ..), and with unbounded integers for the        *)
(* inductive proofs (PipelineAp).                                          *)
(***************************************************************************)
EXTENDS Scalar, Integers, Sequences, SequencesExt, TLC
ClampV(x, lo, hi) == TLCEval([i \in 1 .. Len(x) |-> ClampN(x[i], lo[i], hi[i])])
WrapV(x, c)       == [i \in 1 .. Len(x) |-> WrapTo(x[i], c[i])]
AddV(x, y)        == [i \in 1 .. Len(x) |-> Plus(x[i], y[i])]
ScaleV(h, x)      == [i \in 1 .. Len(x) |-> Times(h, x[i])]

-----------------------------------------------------------------------------
(* Commands.  A form is a record [kind, names, vals]:                        *)
(*   "none"           no action given            -> the default command      *)
(*   "dict"           names[i] set to vals[i], the rest default              *)
(*   "list|arr|jax"   vals is the command vector                             *)
(*   "bad"            any other type of action                               *)
(* The result is [err, u]; err is "" or the class of error that is raised.   *)
NameIdx(names, s) == IF \E i \in 1 .. Len(names) : names[i] = s
                     THEN CHOOSE i \in 1 .. Len(names) : names[i] = s ELSE 0
Resolve(names, deflt, form) ==
  CASE form.kind = "none" -> [err |-> "", u |-> deflt]
    [] form.kind = "dict" ->
         IF names = <<>> THEN [err |-> "Any", u |-> deflt]
         ELSE IF \E i \in 1 .. Len(form.names) : NameIdx(names, form.names[i]) = 0
              THEN [err |-> "KeyError", u |-> deflt]
         ELSE [err |-> "",
               u |-> FoldLeft(LAMBDA acc, i : [acc EXCEPT ![NameIdx(names, form.names[i])] = form.vals[i]],
                              deflt, [i \in 1 .. Len(form.names) |-> i])]
    [] form.kind \in {"list", "arr", "jax"} ->
         IF Len(form.vals) # Len(deflt) THEN [err |-> "Any", u |-> deflt]
         ELSE [err |-> "", u |-> form.vals]
    [] OTHER -> [err |-> "ValueError", u |-> deflt]

Exceeds(u, lo, hi) == \E i \in 1 .. Len(u) : ~ Leq(lo[i], u[i]) \/ ~ Leq(u[i], hi[i])
Saturate(u, lo, hi) == ClampV(u, lo, hi)

-----------------------------------------------------------------------------
(* Derivatives.  raw is the rate law evaluated at the nearest admissible     *)
(* state; L is a record of limits [smin, smax, dmin, dmax, wrap].            *)
Admissible(L, x) == ClampV(x, L.smin, L.smax)
LimitRate(L, xd) == ClampV(xd, L.dmin, L.dmax)
OneSided(L, x, xd) == [i \in 1 .. Len(x) |-> OneSidedN(x[i], L.smin[i], L.smax[i], xd[i])]
StateDot(L, x, raw) == OneSided(L, x, LimitRate(L, raw))

\* what is done to the integrated state
Finish(L, x) == WrapV(ClampV(x, L.smin, L.smax), L.wrap)

\* F(t, x) is the rate law under the command of the step
EulerStep(L, F(_, _), h, x) ==
  LET d == TLCEval(StateDot(L, x, TLCEval(F(Null, Admissible(L, x)))))
      y == TLCEval(AddV(x, ScaleV(h, d)))
  IN  [x |-> Finish(L, y), raw |-> y,
       d |-> StateDot(L, y, F(h, Admissible(L, y)))]
=============================================================================
