----------------------------- MODULE MCTaskMeta -----------------------------
(* All short histories of filling the metadata of a task. *)
EXTENDS TaskMeta, Json
CONSTANTS Emit, MaxOps
VARIABLES st, hist, last
Tok(t, v) == [t |-> t, v |-> v]
I1 == [k |-> "s", s |-> Tok("int", "1")]
S1 == [k |-> "s", s |-> Tok("str", "'a'")]
AE == [k |-> "a", a |-> <<>>]
A2 == [k |-> "a", a |-> <<Tok("int", "2"), Tok("int", "3")>>]
AX == [k |-> "a", a |-> <<Tok("int", "2"), Tok("bool", "True")>>]
D0 == [k |-> "d", d |-> <<>>]
D1 == [k |-> "d", d |-> <<[path |-> <<"y">>, val |-> I1], [path |-> <<"x", "y">>, val |-> A2]>>]
DX == [k |-> "d", d |-> <<[path |-> <<"y">>, val |-> I1], [path |-> <<"x">>, val |-> [k |-> "bad"]]>>]
Values == {I1, S1, AE, A2, AX, D0, D1, DX, [k |-> "bad"]}
Paths == {<<"x">>, <<"x", "y">>, <<"x", "x", "y">>}
Ops == {[op |-> op, path |-> p, val |-> v] : op \in {"set", "add"}, p \in Paths, v \in Values} \cup {[op |-> "del", path |-> p, val |-> AE] : p \in Paths}
Init == st = Empty /\ hist = <<>> /\ last = [err |-> "", before |-> Empty, o |-> [op |-> "none"]]
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops : LET r == Result(st, o) IN
            /\ st' = r.st /\ hist' = Append(hist, o) /\ last' = [err |-> r.err, before |-> st, o |-> o]
        /\ (Emit /\ Len(hist') = MaxOps) => PrintT(<<"@@", ToJson(hist')>>)
Spec == Init /\ [][Next]_<<st, hist, last>>
\* with the history out of the way, all reachable metadata up to a size
View == <<st, last, Len(hist)>>
RECURSIVE Sound(_)
\* every list holds one type, every name leads to something
Sound(n) == CASE n.k = "a" -> Cardinality({x.t : x \in Rng(n.a)}) <= 1 [] n.k = "m" -> \A x \in DOMAIN n.c : Sound(n.c[x]) [] n.k = "s" -> TRUE
Valid == Sound(st)
\* a refused operation changes nothing
Refused == last.err # "" => Same(st, last.before)
\* what was set or added is found where it was put, and nothing else changed
Others == last.o.op # "none" /\ last.err = "" =>
    \A x \in {"x", "y"} : x # last.o.path[1] => (x \in DOMAIN st.c <=> x \in DOMAIN last.before.c)
Found == last.o.op \in {"set", "add"} /\ last.err = "" => Find(st, last.o.path).k # "none"
Added == last.o.op = "add" /\ last.err = "" =>
    LET old == Find(last.before, last.o.path) IN Find(st, last.o.path).a = (IF old.k = "none" THEN <<>> ELSE Many(old)) \o Many(Build(last.o.val))
=============================================================================
