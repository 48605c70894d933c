------------------------------ MODULE MCPGraph ------------------------------
EXTENDS PGraph, Json
CONSTANTS MaxLen, Emitting
VARIABLES S, verified, sorted, hist
mvars == <<S, verified, sorted, hist>>

C(ins, pre, outs, iin, iout) == [ins |-> ins, pre |-> pre, outs |-> outs, iin |-> iin, iout |-> iout]
Confs == {C({"x"}, {}, {"y"}, {}, {"s"}), C({"y"}, {}, {"z"}, {"s"}, {}), C({"z"}, {"p"}, {"x"}, {}, {}),
          C({"x"}, {}, {"w"}, {"s"}, {}), C({"a_metadata"}, {}, {"y"}, {}, {}), C({"x", "y"}, {}, {"v"}, {}, {"u"})}
TaskSet == {[label |-> l, dims |-> {}, ins |-> c.ins, pre |-> c.pre, outs |-> c.outs, iin |-> c.iin, iout |-> c.iout]
            : l \in {"a", "b", "c"}, c \in Confs}
Subs == {"r", "s1"}

Ops == {[op |-> "add", items |-> {t}] : t \in TaskSet}
       \cup {[op |-> "remove", labels |-> {l}, drop |-> b] : l \in {"a", "b", "c"}, b \in BOOLEAN}
       \cup {[op |-> "reconf", items |-> {t}, check |-> b] : t \in TaskSet, b \in BOOLEAN}
       \cup {[op |-> "addsub", label |-> s, members |-> m] : s \in Subs, m \in {{}, {"a"}, {"b"}, {"a", "b"}, {"a", "b", "c"}}}
       \cup {[op |-> k, label |-> s] : k \in {"delsub", "stepdel"}, s \in Subs}
       \cup {[op |-> k, label |-> s, dims |-> d] : k \in {"stepadd", "shard"}, s \in Subs, d \in {{}, {"instrument"}}}
       \cup {[op |-> k, label |-> s, task |-> l] : k \in {"subadd", "subdel"}, s \in Subs, l \in {"a", "b", "c"}}
       \cup {[op |-> "steps", labels |-> q] : q \in {<<>>, <<"r">>, <<"s1", "r">>}}
       \cup {[op |-> k] : k \in {"resolve", "sort"}}

MInit == /\ S = [tasks |-> {}, subsets |-> {}, steps |-> <<>>, sdims |-> {}, resolved |-> {}]
         /\ verified = FALSE /\ sorted = FALSE /\ hist = <<>>
Changes(o) == o.op \notin {"resolve", "sort"}
Do(o) == LET errs == Errs(S, o) IN
    /\ IF errs # {} THEN UNCHANGED <<S, verified, sorted>>
       ELSE /\ S' = Apply(S, o)
            /\ verified' = IF o.op = "resolve" THEN TRUE ELSE verified /\ S' = S
            /\ sorted' = IF o.op \in {"resolve", "sort"} THEN TRUE ELSE sorted /\ S'.tasks = S.tasks
MNext == /\ Len(hist) < MaxLen
         /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, IF Emitting THEN o ELSE o.op)
MSpec == MInit /\ [][MNext]_mvars

Consistent == /\ Peels(GEdges(S.tasks))
              /\ S.resolved \subseteq AllDS(S.tasks)
              /\ Cardinality(S.tasks) = Cardinality(Labels(S.tasks))
              /\ \A s \in S.subsets : s.members \subseteq Labels(S.tasks)
Verified == /\ (verified /\ S.steps # <<>>) => StepsFlowOK(S) /\ ShardsOK(S)
            /\ {x.label : x \in S.sdims} = RangeOf(S.steps)
Full == (verified /\ sorted /\ S.resolved = AllDS(S.tasks)) => ~TwoProducers(S.tasks) /\ ~MixedPrereq(S.tasks)
Emit == (Emitting /\ Len(hist) = MaxLen) => PrintT(<<"@@", ToJson(hist)>>)
MView == <<S, verified, sorted, Len(hist)>>
=============================================================================
