--------------------------- MODULE SingleQuantum ---------------------------
(* Repeated attempts to run one quantum into the same output run.           *)
(*                                                                          *)
(* store : dataset name -> number of the attempt that wrote it (0: absent); *)
(*         the datasets are the task's outputs plus "meta" and "log".       *)
(* shared: all attempts are made by one process, which has run ran of them. *)
(* log   : history carried by the stored log: sequence of attempt entries,  *)
(*         oldest first, the last one being the attempt that wrote the log. *)
(*                                                                          *)
(* An attempt a has                                                         *)
(*   skip, clobber, assume, raisepartial : options                          *)
(*   inputs : "ok" (all present) | "some" (some missing, still enough) |    *)
(*            "few" (a regular input below its minimum) |                   *)
(*            "noprereq" (a prerequisite below its minimum)                 *)
(*   initfail : the task cannot be constructed                              *)
(*   writes : sequence of outputs the task writes before it ends            *)
(*   ending : "ok" | "nowork" | "unprocessable" | "upstream" | "partial" |  *)
(*            "error"                                                       *)
(*   crash  : the process dies before its crash-th write to the repository  *)
(*            (0: it does not)                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

Rng(s) == {s[i] : i \in 1..Len(s)}
SInit(outs, hasLog) ==
  [outs |-> outs, hasLog |-> hasLog, n |-> 0, log |-> <<>>, shared |-> FALSE, ran |-> 0,
   store |-> [d \in outs \cup {"meta"} \cup (IF hasLog THEN {"log"} ELSE {}) |-> 0]]
All(s) == DOMAIN s.store
Existing(s) == {d \in All(s) : s.store[d] # 0}

\* What the executor decides before doing anything.
Decision(s, a) ==
  IF a.assume THEN "run"
  ELSE IF a.skip /\ s.store["meta"] # 0 THEN "skip"
  ELSE IF Existing(s) = {} THEN "run"
  ELSE IF Existing(s) = All(s) /\ a.skip THEN "skip"
  ELSE IF a.clobber THEN "prune"
  ELSE "refuse"

\* How an attempt that is not skipped ends (if the process survives).
Outcome(a) ==
  CASE a.inputs = "noprereq" -> "FileNotFoundError"
    [] a.inputs = "few" -> "adjusted"
    [] a.initfail -> "InitError"
    [] a.ending \in {"ok", "nowork", "unprocessable", "upstream"} -> "ok"
    [] a.ending = "partial" -> IF a.raisepartial THEN "PartialCause" ELSE "ok"
    [] OTHER -> "TaskError"
Succeeds(a) == Outcome(a) \in {"ok", "adjusted"}
Ran(a) == a.inputs \in {"ok", "some"} /\ ~a.initfail
Written(a) == IF Ran(a) THEN a.writes ELSE <<>>

\* Caveats recorded with a success.
Caveats(s, a) ==
  IF Outcome(a) = "adjusted" THEN {"NO_WORK", "ADJUST_QUANTUM_RAISED", "ANY_OUTPUTS_MISSING", "ALL_OUTPUTS_MISSING"}
  ELSE (CASE a.ending = "nowork" -> {"NO_WORK"}
          [] a.ending = "unprocessable" -> {"NO_WORK", "UNPROCESSABLE_DATA"}
          [] a.ending = "upstream" -> {"NO_WORK", "UPSTREAM_FAILURE_NO_WORK"}
          [] a.ending = "partial" -> {"PARTIAL_OUTPUTS_ERROR"}
          [] OTHER -> {})
       \cup (IF Rng(a.writes) = {} THEN {"ALL_OUTPUTS_MISSING"} ELSE {})
       \cup (IF Rng(a.writes) # s.outs THEN {"ANY_OUTPUTS_MISSING"} ELSE {})

\* The writes of an attempt, in order.  The relative order of the metadata
\* and the log is not constrained, everything else is: outputs first.
Tail2(s, a) ==
  LET m == IF Succeeds(a) THEN <<"meta">> ELSE <<>>
      l == IF s.hasLog THEN <<"log">> ELSE <<>>
  IN {m \o l, l \o m}
OpSeqs(s, a) ==
  LET d == Decision(s, a) IN
  IF d \in {"skip", "refuse"} THEN {<<>>}
  ELSE {(IF d = "prune" THEN <<"prune">> ELSE <<>>) \o Written(a) \o t : t \in Tail2(s, a)}

\* The attempt as recorded in the log it stores.
Entry(s, a, n) ==
  [n |-> n, exc |-> IF Outcome(a) \in {"TaskError", "InitError", "PartialCause"} THEN Outcome(a) ELSE "",
   meta |-> ~Succeeds(a) /\ Outcome(a) # "FileNotFoundError",
   outs |-> IF Succeeds(a) THEN {} ELSE Rng(Written(a)),
   procs |-> s.ran]   \* quanta run earlier in the same process

ApplyOp(st, op, n, entry) ==
  IF op = "prune" THEN [st EXCEPT !.store = [d \in DOMAIN st.store |-> 0], !.log = <<>>]
  ELSE IF op = "log" THEN [st EXCEPT !.store["log"] = n, !.log = entry]
  ELSE [st EXCEPT !.store[op] = n]
RECURSIVE ApplyOps(_, _, _, _)
ApplyOps(st, ops, n, entry) ==
  IF ops = <<>> THEN st ELSE ApplyOps(ApplyOp(st, Head(ops), n, entry), Tail(ops), n, entry)
\* States in the middle of removing what earlier attempts left: the metadata
\* goes first (or with the rest), since it vouches for everything else.
PartialPrunes(st) ==
  {[st EXCEPT !.store = [d \in DOMAIN @ |-> IF d \in keep THEN @[d] ELSE 0],
              !.log = IF "log" \in keep THEN @ ELSE <<>>] : keep \in SUBSET (Existing(st) \ {"meta"})}

\* All possible (state, result) pairs after attempt a.  A process that dies
\* may do so between any two of its writes.
Attempt(s, a) ==
  LET n == s.n + 1
      d == Decision(s, a)
      base == [s EXCEPT !.n = n, !.ran = IF s.shared /\ d \in {"run", "prune"} THEN s.ran + 1 ELSE s.ran]
      prev == IF a.assume THEN <<>> ELSE s.log
      entry == Append(prev, Entry(s, a, n))
      full == {[st |-> ApplyOps(base, ops, n, entry),
                res |-> IF d = "skip" THEN "skipped" ELSE IF d = "refuse" THEN "RuntimeError" ELSE Outcome(a)]
               : ops \in OpSeqs(s, a)}
      died == IF a.crash = 0 \/ d \in {"skip", "refuse"} THEN {}
              ELSE {[st |-> st, res |-> "crash"] : st \in
                      {base} \cup (IF d = "prune" THEN PartialPrunes(base) ELSE {})
                      \cup UNION {{ApplyOps(base, SubSeq(ops, 1, k), n, entry) : k \in 1..(Len(ops) - 1)}
                                  : ops \in OpSeqs(s, a)}}
  IN full \cup died

--------------------------------------------------------------------------
(* Design-level properties.                                                 *)
\* stored metadata always describes a success, and every stored output was
\* then written by that very attempt
NoMixing(s) == s.store["meta"] # 0 =>
  \A d \in s.outs : s.store[d] \in {0, s.store["meta"]}
OutputsOneAttempt(s) == \A d, e \in s.outs : (s.store[d] # 0 /\ s.store[e] # 0) => s.store[d] = s.store[e]

--------------------------------------------------------------------------
(* Trace validation: r.attempts is a sequence of attempts with the observed *)
(* result, store and log history.                                           *)
ObsStore(o) == {<<o.store[i].d, o.store[i].by>> : i \in 1..Len(o.store)}
SpecStore(st) == {<<d, st.store[d]>> : d \in Existing(st)}
ResultOK(p, o) == p.res = o.result
StoreOK(p, o) == SpecStore(p.st) = ObsStore(o)

RECURSIVE Replay(_, _, _)
Replay(S, r, i) ==
  IF i > Len(r.attempts) THEN {}
  ELSE LET o == r.attempts[i]
           P == UNION {Attempt(s, o) : s \in S}
           Q == {p \in P : ResultOK(p, o)}
           R == {p \in Q : StoreOK(p, o)}
       IN IF Q = {} THEN {"attempt-result:" \o o.result \o ":expected:" \o (CHOOSE p \in P : TRUE).res}
          ELSE IF R = {} THEN {"repository-contents-after-attempt"}
          ELSE IF \E p \in R : ~NoMixing(p.st) THEN {"outputs-of-different-attempts-mixed"}
          ELSE Replay({p.st : p \in R}, r, i + 1)
RInit(r) == [SInit(Rng(r.outs), r.hasLog) EXCEPT !.shared = r.shared]
StoreVerdict(r) == Replay({RInit(r)}, r, 1)

\* Provenance of the attempts: metadata, caveats and log history.
ObsLog(o) == [i \in 1..Len(o.log) |-> [n |-> o.log[i].n, exc |-> o.log[i].exc, meta |-> o.log[i].meta,
                                       outs |-> Rng(o.log[i].outs), procs |-> o.log[i].procs]]
HistStep(s, o) ==
  LET P == {p \in Attempt(s, o) : ResultOK(p, o) /\ StoreOK(p, o)} IN P
RECURSIVE HistReplay(_, _, _)
HistReplay(S, r, i) ==
  IF i > Len(r.attempts) THEN {}
  ELSE LET o == r.attempts[i]
           R == UNION {HistStep(s, o) : s \in S}
           L == {p \in R : p.st.log = ObsLog(o)}
           ran == o.result \in {"ok", "adjusted"} /\ o.crash = 0
       IN IF R = {} THEN {}   \* judged by StoreVerdict
          ELSE IF L = {} THEN {"attempt-history-in-logs"}
          ELSE IF ran /\ Rng(o.caveats) # Caveats(CHOOSE s \in S : TRUE, o) THEN {"success-caveats"}
          ELSE IF ran /\ Rng(o.metaouts) # Rng(Written(o)) THEN {"outputs-listed-in-metadata"}
          ELSE IF ran /\ o.metaby # i THEN {"metadata-of-wrong-attempt"}
          ELSE HistReplay({p.st : p \in L}, r, i + 1)
HistoryVerdict(r) == HistReplay({RInit(r)}, r, 1)
==========================================================================
