----------------------------- MODULE MCWalker -----------------------------
(* All graphs on 1..N (edges point upwards), all orders of next / finish /  *)
(* fail, including finish and fail of nodes that were not handed out yet    *)
(* when AnyOrder is TRUE.  With Gen = TRUE every complete behaviour is      *)
(* printed for replay in the code.                                          *)
EXTENDS Walker, Json
CONSTANTS N, AnyOrder, Gen, MaxLen, NEdges
VARIABLES st, hist
vars == <<st, hist>>
AllEdges == {e \in (1..N) \X (1..N) : e[1] < e[2]}
Rec(e) == IF Gen THEN Append(hist, e) ELSE hist
Init == \E E \in SUBSET AllEdges :
          /\ (NEdges # 99 => Cardinality(E) = NEdges)
          /\ st = WInit(1..N, E)
          /\ hist = <<>>
\* two consecutive "next" calls add nothing after the first
CanNext == ~WStopped(st) /\ (Gen => (st.ready # {}))
Ask == CanNext /\ st' = WNext(st) /\ hist' = Rec(<<"next">>)
Pool == IF AnyOrder THEN st.incomplete ELSE st.active
Fin(k) == st' = WFinish(st, k) /\ hist' = Rec(<<"finish", k>>)
Fai(k) == st' = WFail(st, k) /\ hist' = Rec(<<"fail", k>>)
Next == Ask \/ \E k \in Pool : Fin(k) \/ Fai(k)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

PartitionInv == Partition(st)
ReadyInv == ReadyExact(st)
BlockedInv == BlockedExact(st)
NoStallInv == NoStall(st)
\* a node is handed out at most once and only after all its predecessors finished
YieldOrder == [][\A n \in st'.yielded \ st.yielded : Preds(st.edges, n) \subseteq st.done]_vars
YieldOnce == [][st.yielded \subseteq st'.yielded /\ st.ready \cap st.yielded = {}]_vars
Finality == [][st.done \subseteq st'.done /\ st.failed \subseteq st'.failed /\ st.blocked \subseteq st'.blocked]_vars
Terminates == <>(st.incomplete = {})
Emit == (Gen /\ WStopped(st)) =>
          PrintT(<<"@@", ToJson([n |-> N, edges |-> st.edges, ops |-> hist])>>)
==========================================================================
