----------------------------- MODULE MCMpExec -----------------------------
(* Design check of the pool: all interleavings of process exits, timeouts,  *)
(* polling, and starts.                                                     *)
EXTENDS MpExec
CONSTANTS N, P
VARIABLES st
vars == <<st>>
AllEdges == {e \in (1..N) \X (1..N) : e[1] < e[2]}
Init == \E E \in SUBSET AllEdges, ff \in BOOLEAN : st = MInit(1..N, E, ff, P)
DoStart(k) == StartOK(st, k) /\ st' = Start(st, k)
DoExit(k) == /\ st.proc[k] = "up"
             /\ \E how \in {"ok", "fail", "fatal"} \cup (IF k \in st.termed THEN {"killed"} ELSE {}) :
                  st' = Exit(st, k, how)
DoTimeout(k) == st.stop = "" /\ st.proc[k] = "up" /\ k \notin st.termed /\ st' = Term(st, k)
DoReap(k) == st.stop = "" /\ st.proc[k] \notin {"none", "up"} /\ k \notin st.reaped /\ st' = Reap(st, k)
Next == \E k \in 1..N : DoStart(k) \/ DoExit(k) \/ DoTimeout(k) \/ DoReap(k)
Spec == Init /\ [][Next]_vars /\ \A k \in 1..N : WF_vars(DoStart(k)) /\ WF_vars(DoReap(k)) /\ WF_vars(DoExit(k))

PoolBound == Cardinality(Up(st)) <= P
DepOrder == \A k \in 1..N : st.proc[k] # "none" => \A a \in Anc(st.w.edges, k) : <<a, "success">> \in st.rep
NoFalseBlock == \A k \in 1..N : <<k, "skipped">> \in st.rep =>
                  \E a \in Anc(st.w.edges, k) : {<<a, "failure">>, <<a, "timeout">>} \cap st.rep # {}
OneLine == \A k \in 1..N : Cardinality({x \in st.rep : x[1] = k}) <= 1
AllAccounted == (MDone(st) /\ st.stop = "") => {x[1] : x \in st.rep} = 1..N
RaisesIffFailed == MDone(st) => ((MResults(st) = {"return"}) <=> (MStatus(st) = "success"))
FailureDominates == (MDone(st) /\ "failure" \in Kinds(st)) => MStatus(st) = "failure"
Terminates == <>MDone(st)
==========================================================================
