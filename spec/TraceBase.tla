----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Validation of a recorded execution of the implementation.  TRACE names  *)
(* the log (one JSON event per line).  Verdicts are total: a line that the *)
(* specification does not allow adds <<line, clause>> to bad and validation *)
(* continues, so that one execution can be judged for every clause.         *)
(***************************************************************************)
EXTENDS Catalog, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NLines == Len(Trace)

\* <<clause, holds>> pairs to the clauses that do not hold
Failing(cs) == SelectSeq(cs, LAMBDA c : ~c[2])
Verdicts(l, cs) == LET f == Failing(cs) IN [i \in 1 .. Len(f) |-> [line |-> l, clause |-> f[i][1]]]
Report(bad, cnt) == JsonSerialize(IOEnv.OUT, [lines |-> NLines, bad |-> bad, clauses |-> cnt])

\* configuration records of the log, by identifier
Cfgs == SelectSeq(Trace, LAMBDA e : e.ev = "cfg")
CfgOf(k) == Cfgs[k]

\* conjunction that stops at the first failure (for guarding length mismatches)
RelTol(atol, rtol, x) == FAdd(atol, FMul(rtol, FAbs(x)))
Within(a, b, tol) == IF a = b THEN TRUE ELSE IsFinite(a) /\ IsFinite(b) /\ FLe(FAbs(FSub(a, b)), tol)

\* x lies so close to a limit (without being equal to it) that rounding may have put it on either side
NearEdge(x, lim) == x # lim /\ IsFinite(lim) /\ FLe(FAbs(FSub(x, lim)), FMul(Eps(7), FAdd(FAbs(lim), Eps(3))))

\* the states that x may stand for: components near an edge may be on it or just inside it
Edge(L, x, i) == NearEdge(x[i], L.smin[i]) \/ NearEdge(x[i], L.smax[i])
Variants(L, x) ==
  LET N == {i \in 1 .. Len(x) : Edge(L, x, i)}
      lim(i) == IF NearEdge(x[i], L.smin[i]) THEN L.smin[i] ELSE L.smax[i]
      in(i) == IF NearEdge(x[i], L.smin[i]) THEN FAdd(L.smin[i], Eps(12)) ELSE FSub(L.smax[i], Eps(12))
  IN  IF N = {} THEN {x}
      ELSE {[i \in 1 .. Len(x) |-> IF i \notin N THEN x[i] ELSE IF i \in S THEN lim(i) ELSE in(i)] : S \in SUBSET N}

\* an observed derivative obs agrees with the limited derivative of the raw rate
DotOk(L, x, obs, raw, scale, atol, rtol) ==
  /\ Len(obs) = Len(raw)
  /\ LET lim == LimitRate(L, raw)
         one == OneSided(L, x, lim)
     IN  \A i \in 1 .. Len(raw) :
           LET tol == RelTol(atol, rtol, scale[i])
           IN  \/ Within(obs[i], one[i], tol)
               \/ (NearEdge(x[i], L.smin[i]) \/ NearEdge(x[i], L.smax[i]))
                    /\ (Within(obs[i], lim[i], tol) \/ Within(obs[i], FZero, tol))
=============================================================================
