----------------------------- MODULE Aggregator -----------------------------
(* The aggregator: a supervisor walks the quantum graph and hands quanta   *)
(* to scanners, which send what they find to a writer (provenance file)    *)
(* and an ingester (central repository).                                   *)
(*                                                                         *)
(* What one or more runs of it must leave behind: AggVerdict.  The         *)
(* protocol between the workers is in MCAggregator.                        *)
EXTENDS Provenance

(* r: the fields of a provenance record (Provenance, part 2), and          *)
(*  r.exist     datasets in storage   r.configs  the config init-outputs   *)
(*  r.chain     name of the output chain ("" if none), r.inputs (the rest)*)
(*  r.cfg       [incomplete, promise, dry, prov, update]                   *)
(*  r.run       [outcome, hang, alive]                                     *)
(*  r.repo      [ingested, stored, readable, chain]                        *)
(*  r.before    datasets already ingested before this run                  *)
(*  r.o         the provenance graph (or an error)                         *)

(* In incomplete mode unsuccessful quanta and everything downstream are    *)
(* left for later.                                                         *)
Scanned(r, q) == q.kind = "ran" /\ (r.cfg.incomplete => q.c.meta.has)

Ingestible(r) ==
    LET all == {d \in SeqSet(r.initexist) : TRUE} \cup
               UNION {{d \in QOuts(r.quanta[i]) : Produced(r, d)} : i \in {j \in 1..NQ(r) : Scanned(r, r.quanta[j])}}
        promised == IF r.cfg.promise
                    THEN SeqSet(r.configs) \cup UNION {{r.quanta[i].log, r.quanta[i].meta} : i \in 1..NQ(r)}
                    ELSE {}
    IN all \ promised

WantIngested(r) == SeqSet(r.before) \cup (IF r.cfg.dry THEN {} ELSE Ingestible(r))

AggClauses == {"agg-raises", "agg-hangs", "agg-worker-left", "agg-ingested", "agg-ingested-twice", "agg-records",
               "agg-readable", "agg-chain", "agg-provenance-written"}

AggOK(r, k) ==
    CASE k = "agg-raises" -> r.run.outcome = "" \/ r.run.hang # ""
      [] k = "agg-hangs" -> r.run.hang = ""
      [] k = "agg-worker-left" -> r.run.alive = <<>> \/ r.run.hang # ""
      [] k = "agg-ingested" -> SeqSet(r.repo.ingested) = WantIngested(r)
      [] k = "agg-ingested-twice" -> Len(r.repo.ingested) = Cardinality(SeqSet(r.repo.ingested))
      [] k = "agg-records" -> SeqSet(r.repo.stored) = SeqSet(r.repo.ingested)
      [] k = "agg-readable" -> SeqSet(r.repo.readable) = SeqSet(r.repo.ingested)
      [] k = "agg-chain" -> \/ r.chain = "" \/ r.cfg.dry \/ ~r.cfg.update
                            \/ r.repo.chain = <<"out_run">> \o r.inputs
      [] k = "agg-provenance-written" -> (r.o.error # "missing") <=> (r.cfg.prov /\ ~r.cfg.incomplete)

AggVerdict(r) ==
    LET bad == {k \in AggClauses : ~AggOK(r, k)} IN
    IF bad # {} THEN bad
    ELSE IF r.cfg.prov /\ ~r.cfg.incomplete THEN GraphVerdict(r) ELSE {}

(* A run in which something failed: it must not pretend otherwise, must    *)
(* end, leave no worker behind, not have ingested anything that does not   *)
(* belong there or only half, and a later run must be able to complete.    *)
FaultClauses == {"fault-hidden", "fault-hangs", "fault-worker-left", "fault-ingested-wrong", "fault-ingested-half"}

FaultOK(r, k) ==
    CASE k = "fault-hidden" -> (r.run.fault /\ r.run.hang = "") => r.run.outcome # ""
      [] k = "fault-hangs" -> r.run.hang = ""
      [] k = "fault-worker-left" -> r.run.alive = <<>>
      [] k = "fault-ingested-wrong" -> /\ SeqSet(r.repo.ingested) \subseteq WantIngested(r)
                                       /\ SeqSet(r.before) \subseteq SeqSet(r.repo.ingested)
      [] k = "fault-ingested-half" -> SeqSet(r.repo.stored) = SeqSet(r.repo.ingested)

FaultVerdict(r) ==
    LET bad == {k \in FaultClauses : ~FaultOK(r, k)}
        again == {"rerun-" \o k : k \in AggVerdict(r.again)}
    IN bad \cup again
=============================================================================
