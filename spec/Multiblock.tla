---------------------------- MODULE Multiblock ----------------------------
(* Random access to the blocks of a quantum graph file: an address table    *)
(* sorted by key, split in pages that are read on demand by a binary        *)
(* search, points into one or more block files.                             *)
(*                                                                          *)
(* A file is [keys, cols, content]: cols[c] is the set of keys that have a  *)
(* block in block file c, in the order they were written, and every block   *)
(* has a content token.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MRange(s) == {s[i] : i \in DOMAIN s}
SortedSeq(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i < j => q[i] < q[j]
MMin(a, b) == IF a < b THEN a ELSE b

NPages(n, rpp) == (n + rpp - 1) \div rpp
PageRows(sorted, rpp, p) == {sorted[i] : i \in (p * rpp + 1)..MMin((p + 1) * rpp, Len(sorted))}  \* p from 0
PageFirst(sorted, rpp, p) == sorted[p * rpp + 1]
PageLast(sorted, rpp, p) == sorted[MMin((p + 1) * rpp, Len(sorted))]

(* ---- what a reader must answer, whatever it has read before ------------ *)
Absent == -2
Expected(f, c, k) == LET S == {i \in DOMAIN f.cols[c] : f.cols[c][i].k = k}
                     IN IF S = {} THEN Absent ELSE f.cols[c][CHOOSE i \in S : TRUE].v
FileKeys(f) == UNION {{f.cols[c][i].k : i \in DOMAIN f.cols[c]} : c \in DOMAIN f.cols}
IndexOf(f, k) == Cardinality({x \in FileKeys(f) : x < k})

OpBad(f, e) ==
  CASE e.op = "find" ->
         IF e.error = "LookupError" THEN (IF e.k \in FileKeys(f) THEN {"lookup-missed-present-key"} ELSE {})
         ELSE IF e.error # "" THEN {"lookup-error:" \o e.error}
         ELSE IF e.k \notin FileKeys(f) THEN {"lookup-invented-key"}
         ELSE (IF e.key # e.k \/ e.index # IndexOf(f, e.k) THEN {"lookup-wrong-row"} ELSE {})
              \cup (IF \E c \in DOMAIN f.cols : e.got[c] # Expected(f, c, e.k) THEN {"lookup-wrong-block"} ELSE {})
    [] e.op = "all" ->
         IF e.error # "" THEN {"read-all-error:" \o e.error}
         ELSE (IF {e.rows[i].key : i \in DOMAIN e.rows} # FileKeys(f) \/ Len(e.rows) # Cardinality(FileKeys(f))
               THEN {"read-all-incomplete"} ELSE {})
              \cup (IF \E i \in DOMAIN e.rows : e.rows[i].key \in FileKeys(f) /\
                        (e.rows[i].index # IndexOf(f, e.rows[i].key)
                         \/ \E c \in DOMAIN f.cols : e.rows[i].got[c] # Expected(f, c, e.rows[i].key))
                    THEN {"read-all-wrong-block"} ELSE {})
    [] e.op = "stream" ->
         IF e.error # "" THEN {"stream-error:" \o e.error}
         ELSE IF e.got # [i \in DOMAIN f.cols[e.c] |-> f.cols[e.c][i].v] THEN {"stream-wrong"} ELSE {}
    [] OTHER -> {"unknown-operation"}

MBVerdict(r) == UNION {OpBad(r.file, r.ops[i]) : i \in DOMAIN r.ops}
===========================================================================
