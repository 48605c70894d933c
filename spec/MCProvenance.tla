---------------------------- MODULE MCProvenance ----------------------------
(* Enumerates everything that the execution of one quantum can leave.      *)
EXTENDS Provenance, Json
CONSTANTS MaxPrev, Emitting
VARIABLE case

Outs == {[has |-> FALSE, put |-> {}]} \cup {[has |-> TRUE, put |-> s] : s \in SUBSET {1, 2}}
NoOuts == [has |-> FALSE, put |-> {}]
Prev == [exc : {"", "ValueError"}, meta : BOOLEAN]
Prevs == UNION {[1..n -> Prev] : n \in 0..MaxPrev}
NoLMeta == [has |-> FALSE, outs |-> NoOuts]
LMetas == {NoLMeta} \cup [has : {TRUE}, outs : Outs]
NoMeta == [has |-> FALSE, fail |-> "", cav |-> -1, outs |-> NoOuts]
Metas == [has : {TRUE}, fail : {"", "lsst.Partial"}, cav : {-1, 0, 4}, outs : Outs]

(* A metadata dataset is only written by an attempt that did not fail, and *)
(* then the logs carry neither an exception nor metadata.                  *)
Cases ==
    [logs : {FALSE}, prev : {<<>>}, lexc : {""}, lmeta : {NoLMeta}, meta : {NoMeta} \cup Metas, incomplete : BOOLEAN]
    \cup [logs : {TRUE}, prev : Prevs, lexc : {"", "RuntimeError"}, lmeta : LMetas, meta : {NoMeta}, incomplete : BOOLEAN]
    \cup [logs : {TRUE}, prev : Prevs, lexc : {""}, lmeta : {NoLMeta}, meta : Metas, incomplete : BOOLEAN]

Init == case \in Cases /\ (Emitting => PrintT(<<"@@", ToJson(case)>>))
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
Doc == Documented(case)
TokensAligned == LET a == Attempts(case) IN \A i \in 1..Len(a) : a[i].n = i - 1 /\ a[i].logs \in {0, i} /\ a[i].meta \in {0, i}
=============================================================================
