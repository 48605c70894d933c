------------------------------- MODULE Dag -------------------------------
(* Operators on finite directed graphs given as a set of pairs <<a, b>>.    *)
EXTENDS Naturals, Sequences, FiniteSets

RangeOf(seq) == {seq[i] : i \in 1..Len(seq)}
PairsOf(seq) == {<<seq[i][1], seq[i][2]>> : i \in 1..Len(seq)}

Preds(E, n) == {e[1] : e \in {x \in E : x[2] = n}}
Succs(E, n) == {e[2] : e \in {x \in E : x[1] = n}}

RECURSIVE ReachFrom(_, _, _)
ReachFrom(E, frontier, seen) ==
  LET nxt == {e[2] : e \in {x \in E : x[1] \in frontier}} \ seen
  IN IF nxt = {} THEN seen ELSE ReachFrom(E, nxt, seen \cup nxt)

Desc(E, n) == ReachFrom(E, {n}, {})              \* strict descendants
Rev(E) == {<<e[2], e[1]>> : e \in E}
Anc(E, n) == Desc(Rev(E), n)
DescOfSet(E, S) == ReachFrom(E, S, {})
Acyclic(E) == \A e \in E : e[1] \notin Desc(E, e[1])
NoDup(seq) == Cardinality(RangeOf(seq)) = Len(seq)
==========================================================================
