----------------------------- MODULE MCInProc -----------------------------
EXTENDS InProc, Json
CONSTANTS N, Gen
VARIABLES st, out, attempts
vars == <<st, out, attempts>>
AllEdges == {e \in (1..N) \X (1..N) : e[1] < e[2]}
Outcomes == {"ok", "fail", "repeatable", "invalid"}
Init == /\ \E E \in SUBSET AllEdges, ff \in BOOLEAN : st = PInit(1..N, E, ff)
        /\ out \in [1..N -> Outcomes]
        /\ attempts = [k \in 1..N |-> 0]
Exec(k) == /\ PEnabled(st, k)
           /\ st' = PExec(st, k, out[k])
           /\ attempts' = [attempts EXCEPT ![k] = @ + 1]
           /\ UNCHANGED out
Next == \E k \in 1..N : Exec(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AtMostOnce == \A k \in 1..N : attempts[k] <= 1
\* attempted only when every ancestor succeeded
UpstreamOK == \A k \in 1..N : attempts[k] = 1 => \A a \in Anc(st.w.edges, k) : <<a, "success">> \in st.rep
\* a quantum not downstream of a failure is always attempted (no fail-fast, nothing fatal)
Independence == (PDone(st) /\ st.stop = "") =>
  \A k \in 1..N : (attempts[k] = 0) <=> \E a \in Anc(st.w.edges, k) : <<a, "failure">> \in st.rep
\* the report has exactly one line per quantum of a completed run
OneLine == (PDone(st) /\ st.stop = "") =>
  \A k \in 1..N : Cardinality({x \in st.rep : x[1] = k}) = 1
RaisesIffFailed == PDone(st) => ((PResult(st) = "return") <=> (PStatus(st) = "success"))
FailFastStops == st.ff => Cardinality({x \in st.rep : x[2] = "failure"}) <= 1
Terminates == <>PDone(st)
==========================================================================
