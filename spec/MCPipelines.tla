---------------------------- MODULE MCPipelines ----------------------------
(* Small pipelines, all short histories of operations on them.               *)
EXTENDS Pipelines
CONSTANTS MaxOps
VARIABLES p, n
L == {"a", "b", "ab"}
Set1(k, v) == <<[k |-> k, kind |-> "set", v |-> v]>>
Cpy(k, v) == <<[k |-> k, kind |-> "copy", v |-> v]>>
TaskSet == [label : L, klass : {"A", "B"}, asg : {<<>>, Set1("a", "1")}]
Contract(id, l) == [id |-> id, refs |-> {l}, l |-> l, f |-> "a", neq |-> FALSE, rl |-> "", rf |-> "", c |-> "1"]
Small(ts) == {[tasks |-> ts, subsets |-> ss, steps |-> IF st /\ ss # {} THEN <<[label |-> "s", dims |-> {}]>> ELSE <<>>,
               contracts |-> IF cs THEN {Contract("c" \o t.label, t.label) : t \in ts} ELSE {}, params |-> {}, instr |-> i] :
              ss \in {{}} \cup {{[label |-> "s", members |-> m, desc |-> ""]} : m \in SUBSET {t.label : t \in ts}},
              st \in BOOLEAN, cs \in BOOLEAN, i \in {"", "X"}}
TaskSets == {ts \in SUBSET TaskSet : Cardinality(ts) \in 1..2 /\ \A t, u \in ts : t.label = u.label => t = u}
Others == {[tasks |-> {[label |-> l, klass |-> "A", asg |-> Cpy("b", "a")]}, subsets |-> {[label |-> "r", members |-> {l}, desc |-> ""]},
            steps |-> <<[label |-> "r", dims |-> {}]>>, contracts |-> {}, params |-> {}, instr |-> i] : l \in {"a", "b", "s"}, i \in {"", "Y"}}
Ops == {[op |-> "sub", labels |-> <<l>>, mode |-> m] : l \in L \cup {"s"}, m \in {"DROP", "EDIT"}}
       \cup {[op |-> "merge", other |-> o] : o \in Others}
       \cup {[op |-> "config", label |-> l, how |-> "value", asg |-> Set1("b", "2")] : l \in {"a", "b"}}
       \cup {[op |-> "addsub", label |-> l, members |-> <<m>>, desc |-> ""] : l \in {"q", "a"}, m \in {"a", "b"}}
       \cup {[op |-> "subadd", label |-> "s", task |-> "b"], [op |-> "subdel", label |-> "s", task |-> "a"]}
       \cup {[op |-> "instr", instr |-> "Y"]}
Init == n = 0 /\ p \in UNION {Small(ts) : ts \in TaskSets}
Next == n < MaxOps /\ n' = n + 1 /\ \E o \in Ops : OpErrors(p, o) = {} /\ p' = OpApply(p, o)
Spec == Init /\ [][Next]_<<p, n>>

Im(inc, exc, hasinc, hasexc, rn, mode) ==
    [doc |-> 1, include |-> inc, exclude |-> exc, hasinc |-> hasinc, hasexc |-> hasexc, rename |-> rn, contracts |-> TRUE,
     steps |-> TRUE, mode |-> mode, instr |-> "keep"]
Whole == Im(<<>>, <<>>, FALSE, FALSE, <<>>, "EDIT")
Empty == [tasks |-> {}, subsets |-> {}, steps |-> <<>>, contracts |-> {}, params |-> {}, instr |-> ""]
AsSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : RangeOf(s) = S
AlwaysValid == Valid(p)
(* importing everything is the identity *)
ImportAll == Import(p, Whole) = p /\ Merge(Empty, <<p>>) = p
(* including some tasks is excluding the others *)
Dual == \A ls \in SUBSET TLabels(p) : \A m \in {"DROP", "EDIT"} :
    Import(p, Im(AsSeq(ls), <<>>, TRUE, FALSE, <<>>, m)) = Import(p, Im(<<>>, AsSeq(TLabels(p) \ ls), FALSE, TRUE, <<>>, m))
(* naming a subset is naming its members *)
Spelled == \A s \in p.subsets : \A m \in {"DROP", "EDIT"} :
    Import(p, Im(<<s.label>>, <<>>, TRUE, FALSE, <<>>, m)) = Import(p, Im(AsSeq(s.members), <<>>, TRUE, FALSE, <<>>, m))
(* reductions compose and stay valid *)
Twice == \A A, B \in SUBSET TLabels(p) :
    Restrict(Restrict(p, A, "EDIT"), A \cap B, "EDIT") = Restrict(p, A \cap B, "EDIT")
(* a reduction does not change the configuration of the remaining tasks *)
SameValues == \A A \in SUBSET TLabels(p) : \A t \in Restrict(p, A, "DROP").tasks : ConfigOf(p, t) = ConfigOf(p, STask(p, t.label))
(* renaming keeps everything but the name *)
Renamed == \A l \in TLabels(p) : LET im == Im(<<>>, <<>>, FALSE, FALSE, <<[old |-> l, new |-> "z"]>>, "DROP") IN
    ~ImportBad(p, im) =>
        /\ Valid(Import(p, im))
        /\ {<<t.klass, t.asg>> : t \in Import(p, im).tasks} = {<<t.klass, t.asg>> : t \in p.tasks}
        /\ SLabels(Import(p, im)) = {s.label : s \in {x \in p.subsets : x.members # {}}}
=============================================================================
