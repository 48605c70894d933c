----------------------------- MODULE MCOldGraph -----------------------------
(* What can be done with a graph of the older class, in all orders, on every
   graph of a few quanta. *)
EXTENDS OldGraph, Json
CONSTANTS Emit, N, MaxOps
VARIABLES g, S, hist
\* quantum q writes dataset q; graph.k reads what the mask says
Graphs == {[quanta |-> [q \in 1..N |-> [task |-> "t" \o ToString(q), data |-> "", ins |-> I[q], outs |-> <<q>>, initins |-> <<>>]]] :
              I \in {I \in [1..N -> {<<>>, <<1>>, <<2>>, <<1, 2>>}] : \A q \in 1..N : \A d \in Rng(I[q]) : d < q}}
Ids == {s \in {<<a>> : a \in 1..N} \cup {<<a, b>> : a \in 1..N, b \in 1..N} \cup {<<>>} : Cardinality(Rng(s)) = Len(s)}
Ops == {[op |-> "subset", ids |-> s, all |-> FALSE, wrongid |-> FALSE] : s \in Ids}
    \cup {[op |-> o, ids |-> <<q>>, all |-> FALSE, wrongid |-> FALSE] : o \in {"around", "ancestors"}, q \in S}
    \cup {[op |-> o, ids |-> <<>>, all |-> TRUE, wrongid |-> FALSE] : o \in {"connected", "pickle", "convert", "run"}}
    \cup {[op |-> "file", ids |-> s, all |-> a, wrongid |-> w] : s \in Ids, a \in BOOLEAN, w \in BOOLEAN}
Init == g \in Graphs /\ S = Q(g) /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : /\ hist' = Append(hist, o) /\ g' = g
                          /\ IF Result(g, S, o) = {} THEN S' = S ELSE \E T \in Result(g, S, o) : S' = T
        /\ (Emit /\ Len(hist') = MaxOps) => PrintT(<<"@@", ToJson(hist')>>)
Spec == Init /\ [][Next]_<<g, S, hist>>
View == <<g, S, Len(hist)>>
Subset == S \subseteq Q(g)
\* edges of a part are those of the whole between its quanta
Induced == Edges(g, S) = Edges(g, Q(g)) \cap (S \X S)
\* ancestors are closed, components partition the graph
Closed == \A q \in S : LET U == Up(g, S, {q}) IN \A a \in U : Preds(g, S, a) \subseteq U
Parts == /\ UNION Components(g, S) = S
         /\ \A A, B \in Components(g, S) : A = B \/ (A \cap B = {} /\ \A a \in A, b \in B : <<a, b>> \notin Edges(g, S))
=============================================================================
