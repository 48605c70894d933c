------------------------------ MODULE MpExec ------------------------------
(* Execution in a pool of at most P worker processes, with a per-quantum    *)
(* timeout.  Processes end on their own schedule; the executor polls.       *)
(*                                                                          *)
(* proc[k]: "none" | "up" | "ok" | "fail" | "fatal" | "killed"              *)
(* termed: processes that were told to terminate by the executor.           *)
EXTENDS Executor

MInit(nodes, edges, ff, p) ==
  [w |-> WInit(nodes, edges), ff |-> ff, p |-> p,
   proc |-> [k \in nodes |-> "none"], termed |-> {}, reaped |-> {}, stop |-> "", rep |-> {}]

Up(s) == {k \in s.w.nodes : s.proc[k] = "up"}
InSlots(s) == {k \in s.w.nodes : s.proc[k] # "none" /\ k \notin s.reaped}
\* the executor starts a job: a slot is free and everything upstream succeeded
StartOK(s, k) == /\ s.stop = "" /\ s.proc[k] = "none"
                 /\ Cardinality(InSlots(s)) < s.p
                 /\ k \in Eligible(s.w)
Start(s, k) == [s EXCEPT !.proc[k] = "up", !.w = Mark(@, k)]
\* environment: a process ends (killed only if it was told to terminate)
Exit(s, k, how) == [s EXCEPT !.proc[k] = how]
Term(s, k) == [s EXCEPT !.termed = @ \cup {k}]
\* the executor notices that a process ended
StatusOf(s, k) == CASE s.proc[k] = "ok" -> "success"
                    [] s.proc[k] = "killed" /\ k \in s.termed -> "timeout"
                    [] OTHER -> "failure"
Reap(s, k) ==
  LET st == StatusOf(s, k)
      r1 == [s EXCEPT !.reaped = @ \cup {k}, !.rep = @ \cup {<<k, st>>}] IN
  IF st = "success" THEN [r1 EXCEPT !.w = WFinish(s.w, k)]
  ELSE IF s.ff \/ s.proc[k] = "fatal"
       THEN [r1 EXCEPT !.w = WFail(s.w, k),
                       !.termed = @ \cup (Up(s) \ {k}),
                       !.stop = IF st = "timeout" THEN "MPTimeoutError" ELSE "MPGraphExecutorError"]
       ELSE [r1 EXCEPT !.w = WFail(s.w, k),
                       !.rep = @ \cup {<<b, "skipped">> : b \in WBlocks(s.w, k)}]

MDone(s) == s.stop # "" \/ (s.w.incomplete = {} /\ InSlots(s) = {})
Kinds(s) == {x[2] : x \in s.rep}
MStatus(s) == IF "failure" \in Kinds(s) THEN "failure"
              ELSE IF "timeout" \in Kinds(s) THEN "timeout" ELSE "success"
MResults(s) ==
  IF s.stop # "" THEN {s.stop}
  ELSE IF s.w.failed = {} THEN {"return"}
  ELSE IF "failure" \in Kinds(s) THEN {"MPGraphExecutorError"}
  ELSE IF "skipped" \in Kinds(s) THEN {"MPTimeoutError", "MPGraphExecutorError"}
  ELSE {"MPTimeoutError"}

--------------------------------------------------------------------------
(* Trace validation.  Recorded events: start, exit (how = ok/fail/fatal/    *)
(* killed, with the virtual time), term, kill; reaping is inferred: since   *)
(* the executor polls, an ended process is reaped no later than its         *)
(* consequences become visible.                                             *)
(*   r: nodes, edges, ff, p, timeout, slack, trace, result, status, reports *)
StartTime(r, k) == LET S == {i \in 1..Len(r.trace) : r.trace[i].op = "start" /\ r.trace[i].k = k}
                   IN r.trace[CHOOSE i \in S : TRUE].t

RECURSIVE MRun(_, _, _)
\* s without inferred reaping of failures: successes are applied immediately when needed
MRun(s, r, i) ==
  IF i > Len(r.trace) THEN [s |-> s, bad |-> {}]
  ELSE LET e == r.trace[i] k == e.k IN
   CASE e.op = "start" ->
     IF s.proc[k] # "none" THEN [s |-> s, bad |-> {"quantum-started-twice"}]
     ELSE IF Cardinality(Up(s)) >= s.p THEN [s |-> s, bad |-> {"too-many-processes"}]
     ELSE IF ~(\A q \in Preds(s.w.edges, k) : s.proc[q] = "ok")
          THEN [s |-> s, bad |-> {"started-before-upstream-complete"}]
     ELSE IF s.stop # "" /\ e.t > s.stopt + r.slack THEN [s |-> s, bad |-> {"started-after-stop"}]
     ELSE MRun([s EXCEPT !.proc[k] = "up"], r, i + 1)
   [] e.op = "exit" ->
     IF e.how = "killed" /\ e.code < 0 /\ e.bykill /\ k \notin s.termed
     THEN [s |-> s, bad |-> {"killed-without-cause"}]
     ELSE IF e.t - StartTime(r, k) > r.timeout + r.slack /\ k \notin s.termed /\ s.stop = ""
     THEN [s |-> s, bad |-> {"timeout-not-enforced"}]
     ELSE MRun([s EXCEPT !.proc[k] = e.how,
                         !.stop = IF @ = "" /\ e.how # "ok" /\ (r.ff \/ e.how = "fatal") THEN "stopping" ELSE @,
                         !.stopt = IF s.stop = "" /\ e.how # "ok" /\ (r.ff \/ e.how = "fatal") THEN e.t ELSE @], r, i + 1)
   [] e.op = "term" ->
     IF k \in s.sent /\ s.stop = "" THEN [s |-> s, bad |-> {"completed-quantum-terminated"}]
     ELSE IF s.stop = "" /\ e.t - StartTime(r, k) <= r.timeout
     THEN [s |-> s, bad |-> {"terminated-before-timeout"}]
     ELSE MRun([s EXCEPT !.termed = @ \cup {k}], r, i + 1)
   [] e.op = "sent" ->  \* the quantum has run; its process only waits for its report to be read
     MRun([s EXCEPT !.sent = @ \cup {k}], r, i + 1)
   [] e.op = "kill" ->
     IF k \notin s.termed THEN [s |-> s, bad |-> {"killed-without-terminate"}]
     ELSE MRun(s, r, i + 1)
   [] OTHER -> [s |-> s, bad |-> {"unknown-event"}]

\* how a process ends on its own, by what its quantum does
NaturalCode(kind, ff) ==
  CASE kind = "ok" -> 0
    [] kind \in {"fail", "bigfail"} -> 1
    [] kind \in {"repeatable", "bigrepeatable"} -> IF ff THEN 20 ELSE 1
    [] kind \in {"invalid"} -> 21
    [] OTHER -> -11   \* crash
NaturalCodes(r) ==
  \A i \in 1..Len(r.trace) :
    LET e == r.trace[i] IN
    (e.op = "exit" /\ ~e.bykill /\ r.kinds[e.k] # "segv") => e.code = NaturalCode(r.kinds[e.k], r.ff)

\* expected status of each quantum once the run is over
FinalStatus(s, k) == CASE s.proc[k] = "ok" -> "success"
                       [] s.proc[k] = "killed" -> IF k \in s.termed THEN "timeout" ELSE "failure"
                       [] s.proc[k] \in {"fail", "fatal"} -> "failure"
                       [] OTHER -> "none"
Attempted(s) == {k \in s.w.nodes : s.proc[k] # "none"}
FailedSet(s) == {k \in s.w.nodes : FinalStatus(s, k) \in {"failure", "timeout"}}

FinalVerdict(s, r) ==
  LET failed == FailedSet(s)
      blocked == DescOfSet(s.w.edges, failed) \ Attempted(s)
      exp == {<<k, FinalStatus(s, k)>> : k \in Attempted(s)} \cup {<<k, "skipped">> : k \in blocked}
      kinds == {x[2] : x \in exp}
      reps == RepSet(r.reports)
  IN Is(Len(r.reports) = Cardinality(reps), "duplicate-report") \cup
     Is(NaturalCodes(r), "exit-code-of-process") \cup
     Is(r.result # "hang", "run-does-not-terminate") \cup
     (IF s.stop = "" /\ r.result # "hang" THEN
        Is(Up(s) = {}, "process-left-running")
        \cup Is(Attempted(s) \cup blocked = s.w.nodes, "quantum-never-attempted")
        \cup Is(reps = exp, "per-quantum-reports")
        \cup Is(r.status = (IF "failure" \in kinds THEN "failure"
                            ELSE IF "timeout" \in kinds THEN "timeout" ELSE "success"), "overall-status")
        \cup Is(r.result \in (IF failed = {} THEN {"return"}
                  ELSE IF "failure" \in kinds THEN {"MPGraphExecutorError"}
                  ELSE IF "skipped" \in kinds THEN {"MPTimeoutError", "MPGraphExecutorError"}
                  ELSE {"MPTimeoutError"}), "outcome-of-the-run")
      ELSE IF r.result # "hang" THEN
        \* stopped early: everything still running was told to terminate, the
        \* failure is reported and raised, and nothing false is reported
        Is(\A k \in Up(s) : k \in s.termed, "process-not-stopped")
        \cup Is(r.result \in {"MPGraphExecutorError", "MPTimeoutError"}, "outcome-of-the-run")
        \cup Is(r.result = "MPTimeoutError" => \E x \in reps : x[2] = "timeout", "outcome-of-the-run")
        \cup Is(r.status \in {"failure", "timeout"}, "overall-status")
        \cup Is(\E x \in reps : x[2] \in {"failure", "timeout"}, "per-quantum-reports")
        \cup Is(reps \subseteq exp, "per-quantum-reports")
      ELSE {})
     \cup Is(r.result # "return" /\ r.result # "hang" => r.excinfo, "exception-not-reported")
     \cup Is(\A i \in 1..Len(r.reports) :
               LET p == r.reports[i] IN
               (p.k \in Attempted(s) /\ p.status # "skipped") => p.code = r.codes[p.k], "reported-exit-code")

MStart(r) == [w |-> WInit(RangeOf(r.nodes), EffectiveEdges(r)), p |-> r.p,
              proc |-> [k \in RangeOf(r.nodes) |-> "none"], termed |-> {}, sent |-> {}, stop |-> "", stopt |-> 0]
Verdict(r) ==
  LET E == EffectiveEdges(r) IN
  IF ~Acyclic(E)
  THEN Is(r.result = "MPGraphExecutorError" /\ r.trace = <<>>, "cyclic-order-accepted")
  ELSE IF r.noMp THEN Is(r.result = "MPGraphExecutorError" /\ r.trace = <<>>, "unsupported-multiprocessing-accepted")
  ELSE LET x == MRun(MStart(r), r, 1)
       IN IF x.bad # {} THEN x.bad ELSE FinalVerdict(x.s, r)
==========================================================================
