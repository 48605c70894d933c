------------------------------ MODULE MCSelect ------------------------------
(* All short sequences of tokens, on a fixed pipeline.                       *)
EXTENDS Select, Json
CONSTANTS MaxLen
VARIABLES ts
Id(q, v) == [t |-> "id", q |-> q, v |-> v]
Op(v) == [t |-> "op", q |-> "", v |-> v]
Tokens == {Id("", "b"), Id("D", "y"), Id("", "s"), Op("("), Op(")"), Op("~"), Op("|"), Op("&"), Op("<="), Op(">")}
TT(l, ins, outs, iin, iout) == [label |-> l, dims |-> {}, ins |-> ins, pre |-> {}, outs |-> outs, iin |-> iin, iout |-> iout]
S0 == [tasks |-> {TT("a", {"x"}, {"y"}, {}, {"i"}), TT("b", {"y"}, {"z"}, {}, {}), TT("c", {"x"}, {"w"}, {"i"}, {}),
                  TT("d", {"z", "w"}, {}, {}, {})},
       subsets |-> {[label |-> "s", members |-> {"a", "c"}]}, steps |-> <<>>, sdims |-> {}, resolved |-> {}]
Init == ts = <<>>
Next == Len(ts) < MaxLen /\ \E t \in Tokens : ts' = Append(ts, t)
Spec == Init /\ [][Next]_ts

(* writing an expression back with parentheses everywhere *)
RECURSIVE Show(_)
Show(e) == CASE e.k = "id" -> <<Id(e.q, e.v)>>
             [] e.k = "search" -> <<Op(e.dir), Id(e.q, e.v)>>
             [] e.k = "not" -> <<Op("~"), Op("(")>> \o Show(e.x) \o <<Op(")")>>
             [] e.k = "or" -> <<Op("(")>> \o Show(e.a) \o <<Op(")"), Op("|"), Op("(")>> \o Show(e.b) \o <<Op(")")>>
             [] OTHER -> <<Op("(")>> \o Show(e.a) \o <<Op(")"), Op("&"), Op("(")>> \o Show(e.b) \o <<Op(")")>>
P == Parse(ts)
RoundTrip == P.ok => Parse(Show(P.ast)).ok /\ Parse(Show(P.ast)).ast = P.ast
Good == P.ok /\ ~Bad(S0, P.ast)
Within == Good => Eval(S0, P.ast) \subseteq Labels(S0.tasks)
(* algebra: complement, De Morgan, the documented meaning of searches *)
Laws == Good =>
    /\ Eval(S0, [k |-> "not", x |-> [k |-> "not", x |-> P.ast]]) = Eval(S0, P.ast)
    /\ P.ast.k = "or" => Eval(S0, [k |-> "not", x |-> P.ast]) =
          Eval(S0, [k |-> "and", a |-> [k |-> "not", x |-> P.ast.a], b |-> [k |-> "not", x |-> P.ast.b]])
Opposite == Len(ts) = 0 => \A l, m \in Labels(S0.tasks) : l \in Before(S0.tasks, m) <=> m \in After(S0.tasks, l)
=============================================================================
