----------------------------- MODULE MCQGFile -----------------------------
(* Orders of reading components from a small graph: loading is monotone,    *)
(* idempotent and order-independent, and nothing is presented that was not  *)
(* read.  Also generates reading histories to replay.                       *)
EXTENDS QGFile, Json
CONSTANTS MaxOps, Emitting
L(c, ds) == [c |-> c, ds |-> ds]
G == [quanta |-> << [task |-> "a", data |-> "1", ins |-> <<L("i", <<1>>)>>, outs |-> <<L("o", <<2>>)>>],
                    [task |-> "a", data |-> "2", ins |-> <<L("i", <<3>>)>>, outs |-> <<L("o", <<4>>)>>],
                    [task |-> "b", data |-> "1", ins |-> <<L("i", <<2, 4>>)>>, outs |-> <<L("o", <<5>>)>>] >>,
      init |-> << [task |-> "a", ins |-> <<>>, outs |-> <<L("s", <<6>>)>>],
                  [task |-> "b", ins |-> <<L("x", <<6>>)>>, outs |-> <<>>] >>]
VARIABLES s, ops
Ids == {<<>>, <<1>>, <<2>>, <<3>>, <<2, 3>>, <<3, 1>>, <<2, 2>>, <<4>>, <<4, 1>>, <<1, 2, 3>>}
Ops == [op : {"thin", "init", "dim", "everything"}, all : {TRUE}, ids : {<<>>}]
       \cup [op : {"datasets", "exec"}, all : {FALSE}, ids : Ids] \cup [op : {"datasets", "exec"}, all : {TRUE}, ids : {<<>>}]
Init == s = R0 /\ ops = <<>>
Next == /\ Len(ops) < MaxOps
        /\ \E op \in Ops : s' = ReadStep(G, s, op) /\ ops' = Append(ops, op)
Spec == Init /\ [][Next]_<<s, ops>>
Monotone == [][/\ Nodes(G, s) \subseteq Nodes(G, s') /\ Edges(G, s) \subseteq Edges(G, s')
               /\ LoadedDs(G, s) \subseteq LoadedDs(G, s')
               /\ \A q \in QIds(G) : CanBuild(s, q) => CanBuild(s', q)]_<<s, ops>>
Idempotent == \A i \in DOMAIN ops : ReadStep(G, s, ops[i]) = s
Closed == Edges(G, s) \subseteq Nodes(G, s) \X Nodes(G, s)
          /\ \A q \in QIds(G) : CanBuild(s, q) => q \in Nodes(G, s)
Emit == (Emitting /\ Len(ops) = MaxOps) => PrintT(<<"@@", ToJson(ops)>>)
===========================================================================
