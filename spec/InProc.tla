------------------------------ MODULE InProc ------------------------------
(* Single-process execution: the executor picks any eligible quantum, runs  *)
(* it to completion, and reacts to its outcome.                             *)
EXTENDS Executor

\* stop: "" while running, otherwise how execution ended early
PInit(nodes, edges, ff) ==
  [w |-> WInit(nodes, edges), ff |-> ff, rep |-> {}, stop |-> ""]

PExec(s, k, out) ==
  LET w1 == Mark(s.w, k) IN
  IF out = "ok" THEN [s EXCEPT !.w = WFinish(w1, k), !.rep = @ \cup {<<k, "success">>}]
  ELSE LET f == [s EXCEPT !.w = w1, !.rep = @ \cup {<<k, "failure">>}] IN
    IF out = "invalid" THEN [f EXCEPT !.stop = "exit:21"]
    ELSE IF out = "repeatable" /\ s.ff THEN [f EXCEPT !.stop = "exit:20"]
    ELSE IF s.ff THEN [f EXCEPT !.stop = "MPGraphExecutorError"]
    ELSE [f EXCEPT !.w = WFail(w1, k), !.rep = @ \cup {<<b, "skipped">> : b \in WBlocks(w1, k)}]

PEnabled(s, k) == s.stop = "" /\ k \in Eligible(s.w)
PDone(s) == s.stop # "" \/ s.w.incomplete = {}
PResult(s) == IF s.stop # "" THEN s.stop
              ELSE IF s.w.failed = {} THEN "return" ELSE "MPGraphExecutorError"
PStatus(s) == IF \E x \in s.rep : x[2] = "failure" THEN "failure" ELSE "success"

--------------------------------------------------------------------------
RECURSIVE PRun(_, _, _, _)
PRun(s, r, i, acc) ==
  IF i > Len(r.trace)
  THEN IF ~PDone(s) THEN {"ended-with-quanta-never-attempted"}
       ELSE Is(r.result = PResult(s), "outcome-of-the-run")
            \cup Is(r.status = PStatus(s), "overall-status")
            \cup Is(RepSet(r.reports) = {x \in s.rep : ~(x[2] = "success" /\ x[1] \in RangeOf(r.noreport))},
                    "per-quantum-reports")
            \cup Is(Len(r.reports) = Cardinality(RepSet(r.reports)), "duplicate-report")
            \cup Is(r.result = "MPGraphExecutorError" => r.excinfo, "exception-not-reported")
  ELSE LET e == r.trace[i] IN
       IF ~PEnabled(s, e.k)
       THEN {IF e.k \in s.w.yielded THEN "quantum-attempted-twice"
             ELSE IF s.stop # "" THEN "attempt-after-stop"
             ELSE IF e.k \in s.w.blocked THEN "blocked-quantum-attempted"
             ELSE "attempt-before-upstream-complete"}
       ELSE PRun(PExec(s, e.k, e.out), r, i + 1, acc)

Verdict(r) ==
  LET E == EffectiveEdges(r) IN
  IF ~Acyclic(E)
  THEN Is(r.result = "MPGraphExecutorError" /\ r.trace = <<>>, "cyclic-order-accepted")
  ELSE PRun(PInit(RangeOf(r.nodes), E, r.ff), r, 1, {})
==========================================================================
