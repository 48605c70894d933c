----------------------------- MODULE Executor -----------------------------
(* Execution of a quantum graph, in one process and with a pool of worker   *)
(* processes.  Both are driven by the walker; what is specified here is     *)
(* which quanta may be attempted when, what a failure does, and what the    *)
(* final report and the exception tell the user.                            *)
EXTENDS Walker, SequencesExt

\* Ordering constraints requested by the user through a data-ID fixup: a
\* quantum with a higher sort key waits for every quantum with a lower one.
FixEdges(fix, rev) ==
  {<<fix[i].k, fix[j].k>> : <<i, j>> \in
     {p \in (1..Len(fix)) \X (1..Len(fix)) :
        IF rev THEN fix[p[1]].key > fix[p[2]].key ELSE fix[p[1]].key < fix[p[2]].key}}

EffectiveEdges(r) == PairsOf(r.edges) \cup PairsOf(r.extra) \cup FixEdges(r.fix, r.rev)

Eligible(w) == {n \in w.incomplete : n \notin w.yielded /\ Preds(w.edges, n) \subseteq w.done}
Mark(w, k) == [w EXCEPT !.yielded = @ \cup {k}, !.ready = @ \ {k}, !.active = @ \cup {k}]

RepSet(reps) == {<<reps[i].k, reps[i].status>> : i \in 1..Len(reps)}
Bad(cond, name) == IF cond THEN {name} ELSE {}
Is(cond, name) == IF cond THEN {} ELSE {name}
==========================================================================
