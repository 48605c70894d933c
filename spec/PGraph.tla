------------------------------- MODULE PGraph -------------------------------
(* Editing a pipeline graph.  A state S is                                  *)
(*   tasks     set of [label, dims, ins, pre, outs, iin, iout] (sets)       *)
(*   subsets   set of [label, members]                                      *)
(*   steps     sequence of subset labels                                    *)
(*   sdims     set of [label, dims]: the sharding dimensions of the steps   *)
(*   resolved  set of the names of resolved dataset types                   *)
(* Every operation either happens as specified, or is refused and changes  *)
(* nothing.                                                                 *)
EXTENDS Dag, TLC

Outs(t) == t.outs \cup {t.label \o "_metadata", t.label \o "_log"}
IOuts(t) == t.iout \cup {t.label \o "_config"}
DSOf(t) == t.ins \cup t.pre \cup t.iin \cup Outs(t) \cup IOuts(t)
AllDS(T) == UNION {DSOf(t) : t \in T}
Labels(T) == {t.label : t \in T}
TaskOf(T, l) == CHOOSE t \in T : t.label = l

GEdges(T) ==
    UNION {{<<"D:" \o d, "T:" \o t.label>> : d \in t.ins \cup t.pre}
           \cup {<<"T:" \o t.label, "D:" \o d>> : d \in Outs(t)}
           \cup {<<"D:" \o d, "I:" \o t.label>> : d \in t.iin}
           \cup {<<"I:" \o t.label, "D:" \o d>> : d \in IOuts(t)}
           \cup {<<"I:" \o t.label, "T:" \o t.label>>} : t \in T}
GNodes(T) == {"D:" \o d : d \in AllDS(T)} \cup {"T:" \o l : l \in Labels(T)} \cup {"I:" \o l : l \in Labels(T)}

(* acyclic if peeling off nodes without predecessors leaves nothing *)
RECURSIVE Peels(_)
Peels(E) == IF E = {} THEN TRUE
            ELSE LET heads == {e[2] : e \in E}
                     rest == {e \in E : e[1] \in heads}
                 IN rest # E /\ Peels(rest)

Members(S, l) == (CHOOSE s \in S.subsets : s.label = l).members
SubsetLabels(S) == {s.label : s \in S.subsets}

(* A valid sequence of steps partitions the tasks, and no task of an        *)
(* earlier step needs anything produced by a later one.                     *)
Needs(T, ls) == UNION {t.ins \cup t.pre \cup t.iin : t \in {x \in T : x.label \in ls}}
Makes(T, ls) == UNION {Outs(t) \cup IOuts(t) : t \in {x \in T : x.label \in ls}}
StepsFlowOK(S) ==
    /\ \A i \in 1..Len(S.steps) : S.steps[i] \in SubsetLabels(S)
    /\ \A i, j \in 1..Len(S.steps) : i < j =>
          /\ Members(S, S.steps[i]) \cap Members(S, S.steps[j]) = {}
          /\ Needs(S.tasks, Members(S, S.steps[i])) \cap Makes(S.tasks, Members(S, S.steps[j])) = {}
    /\ UNION {Members(S, S.steps[i]) : i \in 1..Len(S.steps)} = Labels(S.tasks)

(* Splitting a step by its sharding dimensions makes sense only if all its  *)
(* tasks and what they write have these dimensions.                         *)
DSDims(d) == IF d \in {"d1", "d4", "d7", "d10"} THEN {"instrument"}
             ELSE IF d \in {"d2", "d5", "d8", "d11"} THEN {"instrument", "detector"} ELSE {}
ShardOf(S, l) == LET x == {y \in S.sdims : y.label = l} IN IF x = {} THEN {} ELSE (CHOOSE y \in x : TRUE).dims
ShardsOK(S) ==
    \A i \in 1..Len(S.steps) : S.steps[i] \in SubsetLabels(S) =>
        \A t \in {x \in S.tasks : x.label \in Members(S, S.steps[i])} :
            LET sd == ShardOf(S, S.steps[i]) IN sd \subseteq t.dims /\ \A d \in t.outs : sd \subseteq DSDims(d)

Producers(T, d) == {t \in T : d \in Outs(t)} \cup {t \in T : d \in IOuts(t)}
TwoProducers(T) ==
    \E d \in AllDS(T) : Cardinality({t \in T : d \in Outs(t)}) + Cardinality({t \in T : d \in IOuts(t)}) > 1
MixedPrereq(T) ==
    \E d \in AllDS(T) : /\ \E t \in T : d \in t.pre
                        /\ \/ \E t \in T : d \in t.ins \cup t.iin
                           \/ Producers(T, d) # {}

(* Tasks read the metadata of another task with their own dimensions; all   *)
(* of these and the dimensions of the other task have to agree.             *)
MetaLabels == {"a", "b", "c", "t0", "t1", "t2", "t3", "t4", "t5"}
MetaClash(T) ==
    \E m \in {l \o "_metadata" : l \in MetaLabels} :
        LET users == {t \in T : m \in t.ins \cup {t.label \o "_metadata"}}
        IN \E t, u \in users : t.dims # u.dims

RECURSIVE Dedupe(_, _)
Dedupe(seq, seen) == IF seq = <<>> THEN <<>>
                     ELSE IF Head(seq) \in seen THEN Dedupe(Tail(seq), seen)
                     ELSE <<Head(seq)>> \o Dedupe(Tail(seq), seen \cup {Head(seq)})
Without(seq, x) == SelectSeq(seq, LAMBDA y : y # x)

Drop(S, ls) == {[label |-> s.label, members |-> s.members \ ls] : s \in S.subsets}

(* The errors one of which an operation must raise ("*": any), or none.     *)
Errs(S, o) ==
    CASE o.op = "add" ->
            (IF Labels(o.items) \cap Labels(S.tasks) # {} THEN {"*"} ELSE {})
            \cup (IF ~Peels(GEdges(S.tasks \cup o.items)) THEN {"PipelineDataCycleError"} ELSE {})
      [] o.op = "remove" ->
            (IF ~(o.labels \subseteq Labels(S.tasks)) THEN {"*"} ELSE {})
            \cup (IF ~o.drop /\ \E s \in S.subsets : s.members \cap o.labels # {} THEN {"PipelineGraphError"} ELSE {})
      [] o.op = "reconf" ->
            IF ~(Labels(o.items) \subseteq Labels(S.tasks)) THEN {"*"}
            ELSE IF o.check /\ ~(o.items \subseteq S.tasks) THEN {"EdgesChangedError"}
            ELSE IF ~Peels(GEdges({t \in S.tasks : t.label \notin Labels(o.items)} \cup o.items))
                 THEN {"PipelineDataCycleError"} ELSE {}
      [] o.op = "addsub" -> IF o.members \subseteq Labels(S.tasks) THEN {} ELSE {"*"}
      [] o.op = "delsub" -> IF o.label \in SubsetLabels(S) THEN {} ELSE {"*"}
      [] o.op = "subadd" -> IF o.label \in SubsetLabels(S) /\ o.task \in Labels(S.tasks) THEN {} ELSE {"*"}
      [] o.op = "subdel" -> IF o.label \in SubsetLabels(S) THEN {} ELSE {"*"}
      [] o.op \in {"stepdel", "shard"} -> IF o.label \in RangeOf(S.steps) THEN {} ELSE {"*"}
      [] o.op = "resolve" ->
            (IF S.steps # <<>> /\ ~(StepsFlowOK(S) /\ ShardsOK(S)) THEN {"InvalidStepsError"} ELSE {})
            \cup (IF TwoProducers(S.tasks) THEN {"DuplicateOutputError"} ELSE {})
            \cup (IF MixedPrereq(S.tasks) THEN {"ConnectionTypeConsistencyError"} ELSE {})
            \cup (IF MetaClash(S.tasks) THEN {"IncompatibleDatasetTypeError", "MissingDatasetTypeError"} ELSE {})
      [] OTHER -> {}

(* The state after an operation that is not refused. *)
Apply(S, o) ==
    CASE o.op = "add" ->
            [S EXCEPT !.tasks = @ \cup o.items, !.resolved = @ \ AllDS(o.items)]
      [] o.op = "remove" ->
            LET gone == {t \in S.tasks : t.label \in o.labels} IN
            [S EXCEPT !.tasks = @ \ gone, !.subsets = Drop(S, o.labels),
                      !.resolved = (@ \cap AllDS(S.tasks \ gone)) \ AllDS(gone)]
      [] o.op = "reconf" ->
            LET new == o.items \ S.tasks
                old == {t \in S.tasks : t.label \in Labels(new)}
                all == (S.tasks \ old) \cup new
            IN [S EXCEPT !.tasks = all, !.resolved = (@ \cap AllDS(all)) \ (AllDS(old) \cup AllDS(new))]
      [] o.op = "addsub" ->
            [S EXCEPT !.subsets = {s \in @ : s.label # o.label} \cup {[label |-> o.label, members |-> o.members]}]
      [] o.op = "delsub" ->
            [S EXCEPT !.subsets = {s \in @ : s.label # o.label}, !.steps = Without(@, o.label),
                      !.sdims = {x \in @ : x.label # o.label}]
      [] o.op \in {"subadd", "subdel"} ->
            [S EXCEPT !.subsets = {IF s.label # o.label THEN s
                                   ELSE [s EXCEPT !.members = IF o.op = "subadd" THEN @ \cup {o.task} ELSE @ \ {o.task}]
                                   : s \in @}]
      [] o.op = "stepadd" -> [S EXCEPT !.steps = IF o.label \in RangeOf(@) THEN @ ELSE Append(@, o.label),
                                       !.sdims = {x \in @ : x.label # o.label}
                                                 \cup {[label |-> o.label, dims |-> o.dims]}]
      [] o.op = "shard" -> [S EXCEPT !.sdims = {x \in @ : x.label # o.label}
                                               \cup {[label |-> o.label, dims |-> o.dims]}]
      [] o.op = "stepdel" -> [S EXCEPT !.steps = Without(@, o.label), !.sdims = {x \in @ : x.label # o.label}]
      [] o.op = "steps" -> [S EXCEPT !.steps = Dedupe(o.labels, {}),
                                     !.sdims = {[label |-> l, dims |-> ShardOf(S, l)] : l \in RangeOf(o.labels)}]
      [] o.op = "resolve" -> [S EXCEPT !.resolved = AllDS(S.tasks)]
      [] OTHER -> S

(* --------------------------- judging observations ----------------------- *)
NormTask(t) == [label |-> t.label, dims |-> RangeOf(t.dims), ins |-> RangeOf(t.ins), pre |-> RangeOf(t.pre),
                outs |-> RangeOf(t.outs), iin |-> RangeOf(t.iin), iout |-> RangeOf(t.iout)]
StateOf(v) == [tasks |-> {NormTask(v.tasks[i]) : i \in 1..Len(v.tasks)},
               subsets |-> {[label |-> v.subsets[i].label, members |-> RangeOf(v.subsets[i].members)]
                            : i \in 1..Len(v.subsets)},
               sdims |-> {[label |-> v.stepdims[i].label, dims |-> RangeOf(v.stepdims[i].dims)]
                          : i \in 1..Len(v.stepdims)},
               steps |-> v.steps, resolved |-> RangeOf(v.resolved)]
NormOp(o) ==
    CASE o.op \in {"add", "reconf"} -> [o EXCEPT !.items = {NormTask(@[i]) : i \in 1..Len(@)}]
      [] o.op = "remove" -> [o EXCEPT !.labels = RangeOf(@)]
      [] o.op = "addsub" -> [o EXCEPT !.members = RangeOf(@)]
      [] o.op \in {"stepadd", "shard"} -> [o EXCEPT !.dims = RangeOf(@)]
      [] OTHER -> o

(* the position of a task's step *)
StepPos(S, l) == CHOOSE i \in 1..Len(S.steps) : l \in Members(S, S.steps[i])
FollowsSteps(S, order) ==
    \A i, j \in 1..Len(order) : i < j => StepPos(S, order[i]) <= StepPos(S, order[j])
Topological(v, T) ==
    /\ NoDup(v.order) /\ RangeOf(v.order) = GNodes(T)
    /\ LET pos == [n \in RangeOf(v.order) |-> CHOOSE i \in 1..Len(v.order) : v.order[i] = n]
       IN \A e \in GEdges(T) : pos[e[1]] < pos[e[2]]

InfoOK(T, d) ==
    LET prod == {t.label : t \in Producers(T, d.name)}
        cons == {t.label : t \in {x \in T : d.name \in x.ins \cup x.pre \cup x.iin}}
    IN /\ d.type = d.name
       /\ (IF d.producer = "" THEN {} ELSE {d.producer}) = prod
       /\ RangeOf(d.consumers) = cons
       /\ d.prereq = (\E t \in T : d.name \in t.pre)

(* what must hold of a graph at all times *)
ViewClauses == {"pg-datasets", "pg-edges", "pg-info", "pg-order", "pg-views", "pg-verified", "pg-task-step",
                "pg-step-order", "pg-full", "pg-subset-members"}
ViewOK(v, k) ==
    LET S == StateOf(v)
        T == S.tasks
    IN
    CASE k = "pg-datasets" -> RangeOf(v.dts) = AllDS(T) /\ NoDup(v.dts)
      [] k = "pg-edges" -> PairsOf(v.edges) = GEdges(T)
      [] k = "pg-info" -> \A i \in 1..Len(v.info) : InfoOK(T, v.info[i])
      [] k = "pg-order" -> v.sorted => Topological(v, T)
      [] k = "pg-views" -> /\ NoDup(v.taskorder) /\ RangeOf(v.taskorder) = Labels(T)
                           /\ NoDup(v.dsorder) /\ RangeOf(v.dsorder) = AllDS(T)
                           /\ v.sorted =>
                                \A i, j \in 1..Len(v.taskorder) : i < j =>
                                   ("T:" \o v.taskorder[j]) \notin Anc(GEdges(T), "T:" \o v.taskorder[i])
      [] k = "pg-verified" -> (v.verified /\ S.steps # <<>>) => StepsFlowOK(S) /\ ShardsOK(S)
      [] k = "pg-task-step" -> (v.verified /\ S.steps # <<>> /\ StepsFlowOK(S)) =>
                                 PairsOf(v.stepof) = {<<t.label, S.steps[StepPos(S, t.label)]>> : t \in T}
      [] k = "pg-step-order" -> (v.verified /\ v.sorted /\ S.steps # <<>> /\ StepsFlowOK(S)) =>
                                 FollowsSteps(S, v.taskorder)
      [] k = "pg-full" -> v.full => (v.sorted /\ v.verified /\ RangeOf(v.resolved) = AllDS(T))
      [] k = "pg-subset-members" -> \A s \in S.subsets : s.members \subseteq Labels(T)

StepClauses == {"edit-refused", "edit-accepted", "edit-wrong-error", "edit-not-atomic", "edit-tasks", "edit-subsets", "edit-sharding",
                "edit-steps", "edit-resolved", "resolve-incomplete", "sort-ignored", "sort-steps", "copy-shared",
                "roundtrip-state"}
StepClauseOK(r, k) ==
    LET S == StateOf(r.before)
        o == NormOp(r.op)
        errs == Errs(S, o)
        W == Apply(S, o)
        A == StateOf(r.after)
        ok == r.outcome = ""
    IN
    CASE k = "edit-refused" -> errs = {} => ok
      [] k = "edit-accepted" -> ok => errs = {}
      [] k = "edit-wrong-error" -> (~ok /\ errs # {} /\ "*" \notin errs) => r.outcome \in errs
      [] k = "edit-not-atomic" -> ~ok =>
            IF o.op = "resolve" THEN /\ A.tasks = S.tasks /\ A.subsets = S.subsets /\ A.steps = S.steps
                                     /\ S.resolved \subseteq A.resolved
            ELSE r.after = r.before
      [] k = "edit-tasks" -> ok => A.tasks = W.tasks
      [] k = "edit-subsets" -> ok => A.subsets = W.subsets
      [] k = "edit-steps" -> ok => A.steps = W.steps
      [] k = "edit-sharding" -> ok => A.sdims = W.sdims
      [] k = "edit-resolved" -> ok => A.resolved = W.resolved
      [] k = "resolve-incomplete" -> (ok /\ o.op = "resolve") => r.after.full
      [] k = "sort-ignored" -> (ok /\ o.op = "sort") => r.after.sorted
      [] k = "sort-steps" -> (ok /\ o.op = "sort" /\ ~r.before.sorted /\ S.steps # <<>> /\ StepsFlowOK(S)) =>
                                FollowsSteps(S, r.after.taskorder)
      [] k = "copy-shared" -> ~r.shared
      [] k = "roundtrip-state" -> (ok /\ o.op \in {"copy", "roundtrip"} /\ S.tasks # {}) => r.after = r.before

PGVerdict(r) == {k \in StepClauses : ~StepClauseOK(r, k)} \cup {k \in ViewClauses : ~ViewOK(r.after, k)}
=============================================================================
