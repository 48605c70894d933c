------------------------------ MODULE Walker ------------------------------
(* The dependency walker shared by every executor and by the provenance     *)
(* aggregator.  A caller repeatedly asks for the nodes that became ready,   *)
(* and marks nodes as finished or failed, in any order.                     *)
(*                                                                          *)
(* The state is a record so that the very same transition operators are     *)
(* used for model checking (Init/Next below), for behaviour generation      *)
(* (MCWalkerGen) and for judging traces recorded from the code (Verdict).   *)
EXTENDS Dag, TLC

WInit(nodes, edges) ==
  [nodes |-> nodes, edges |-> edges,
   ready |-> {n \in nodes : Preds(edges, n) = {}},
   active |-> {}, incomplete |-> nodes,
   done |-> {}, failed |-> {}, blocked |-> {}, yielded |-> {}]

\* The iterator: hand out everything that is ready, or stop.
WStopped(s) == s.incomplete = {}
WNextResult(s) == s.ready
WNext(s) == [s EXCEPT !.active = @ \cup s.ready, !.yielded = @ \cup s.ready, !.ready = {}]

\* Finish unblocks every successor that waits only for completed nodes.
WFinish(s, k) ==
  LET inc == s.incomplete \ {k}
      fresh == {m \in Succs(s.edges, k) : m \in inc /\ m \notin s.yielded
                                          /\ Preds(s.edges, m) \cap inc = {}}
  IN [s EXCEPT !.incomplete = inc, !.active = @ \ {k}, !.done = @ \cup {k},
               !.ready = (@ \ {k}) \cup fresh]

\* Failure removes all descendants for good.
WBlocks(s, k) == Desc(s.edges, k) \cap s.incomplete
WFail(s, k) ==
  LET b == WBlocks(s, k)
  IN [s EXCEPT !.incomplete = (@ \ {k}) \ b, !.active = (@ \ {k}) \ b,
               !.ready = (@ \ {k}) \ b, !.failed = @ \cup {k}, !.blocked = @ \cup b]

--------------------------------------------------------------------------
(* Declarative properties of the walker state.                              *)
Partition(s) ==
  /\ s.nodes = s.incomplete \cup s.done \cup s.failed \cup s.blocked
  /\ Cardinality(s.nodes) = Cardinality(s.incomplete) + Cardinality(s.done)
                            + Cardinality(s.failed) + Cardinality(s.blocked)
\* exactly the nodes all of whose predecessors completed and that were not handed out yet
ReadyExact(s) ==
  s.ready = {n \in s.incomplete \ s.yielded : Preds(s.edges, n) \subseteq s.done}
\* a node is withheld iff an upstream node failed
BlockedExact(s) ==
  s.blocked = DescOfSet(s.edges, s.failed) \ (s.done \cup s.failed)
\* the caller is never left with nothing to do while work remains
NoStall(s) == s.incomplete # {} => s.ready # {} \/ s.active # {}

--------------------------------------------------------------------------
(* Trace validation.  An event is a record with op in next|finish|fail and  *)
(* the recorded result.                                                     *)
EventOK(s, e) ==
  CASE e.op = "next"   -> /\ e.stopped = WStopped(s)
                          /\ (~e.stopped => RangeOf(e.got) = WNextResult(s) /\ NoDup(e.got))
    [] e.op = "finish" -> e.error = "" /\ e.k \in s.incomplete
    [] e.op = "fail"   -> /\ e.error = "" /\ e.k \in s.incomplete
                          /\ WBlocks(s, e.k) \subseteq RangeOf(e.got)
                          /\ RangeOf(e.got) \subseteq Desc(s.edges, e.k)
                          /\ NoDup(e.got)
    [] OTHER -> FALSE
EventStep(s, e) ==
  CASE e.op = "next"   -> IF e.stopped THEN s ELSE WNext(s)
    [] e.op = "finish" -> WFinish(s, e.k)
    [] e.op = "fail"   -> WFail(s, e.k)
    [] OTHER -> s

RECURSIVE RunTrace(_, _, _)
RunTrace(s, tr, i) ==
  IF i > Len(tr) THEN {}
  ELSE IF ~EventOK(s, tr[i])
       THEN {"walker-step:" \o tr[i].op}
       ELSE LET t == EventStep(s, tr[i]) IN
            IF ~(Partition(t) /\ ReadyExact(t) /\ BlockedExact(t) /\ NoStall(t))
            THEN {"walker-invariant"} ELSE RunTrace(t, tr, i + 1)

WalkerVerdict(r) == RunTrace(WInit(RangeOf(r.nodes), PairsOf(r.edges)), r.trace, 1)
==========================================================================
