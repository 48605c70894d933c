------------------------------- MODULE Select -------------------------------
(* Selecting tasks of a pipeline graph with an expression, and other         *)
(* questions about the structure of a pipeline.                              *)
(* An expression is a sequence of tokens [t, q, v]: t = "id" with qualifier  *)
(* q in {"", "T", "D", "S"} and name v, or t = "op" with v the operator, or  *)
(* t = "junk" for something that is neither.                                 *)
EXTENDS PGraph

(* ------------------------------- syntax --------------------------------- *)
(* A parse is [ok, ast, next]; an ast is a tree of records with a kind k.    *)
Fail == [ok |-> FALSE, ast |-> [k |-> "none"], next |-> 0]
IsOp(ts, i, v) == i <= Len(ts) /\ ts[i].t = "op" /\ ts[i].v = v
Searches == {"<", "<=", ">", ">="}
RECURSIVE POr(_, _), PAnd(_, _), PUnary(_, _), POrTail(_, _), PAndTail(_, _)
PUnary(ts, i) ==
    IF i > Len(ts) THEN Fail
    ELSE IF ts[i].t = "id" THEN [ok |-> TRUE, ast |-> [k |-> "id", q |-> ts[i].q, v |-> ts[i].v], next |-> i + 1]
    ELSE IF IsOp(ts, i, "~") THEN
        LET x == PUnary(ts, i + 1)
        IN IF x.ok THEN [ok |-> TRUE, ast |-> [k |-> "not", x |-> x.ast], next |-> x.next] ELSE Fail
    ELSE IF IsOp(ts, i, "(") THEN
        LET x == POr(ts, i + 1)
        IN IF x.ok /\ IsOp(ts, x.next, ")") THEN [x EXCEPT !.next = @ + 1] ELSE Fail
    ELSE IF ts[i].t = "op" /\ ts[i].v \in Searches /\ i < Len(ts) /\ ts[i + 1].t = "id" THEN
        [ok |-> TRUE, ast |-> [k |-> "search", dir |-> ts[i].v, q |-> ts[i + 1].q, v |-> ts[i + 1].v], next |-> i + 2]
    ELSE Fail
PAndTail(ts, left) ==
    IF ~left.ok \/ ~IsOp(ts, left.next, "&") THEN left
    ELSE LET y == PUnary(ts, left.next + 1)
         IN IF ~y.ok THEN Fail
            ELSE PAndTail(ts, [ok |-> TRUE, ast |-> [k |-> "and", a |-> left.ast, b |-> y.ast], next |-> y.next])
PAnd(ts, i) == PAndTail(ts, PUnary(ts, i))
POrTail(ts, left) ==
    IF ~left.ok \/ ~IsOp(ts, left.next, "|") THEN left
    ELSE LET y == PAnd(ts, left.next + 1)
         IN IF ~y.ok THEN Fail
            ELSE POrTail(ts, [ok |-> TRUE, ast |-> [k |-> "or", a |-> left.ast, b |-> y.ast], next |-> y.next])
POr(ts, i) == POrTail(ts, PAnd(ts, i))
Parse(ts) == LET x == POr(ts, 1) IN IF x.ok /\ x.next = Len(ts) + 1 THEN x ELSE Fail

(* ------------------------------ semantics -------------------------------- *)
(* S as in PGraph.  Dependencies between tasks are those at run time.        *)
TaskEdges(T) == {<<p[1].label, p[2].label>> : p \in {x \in T \X T : Outs(x[1]) \cap (x[2].ins \cup x[2].pre) # {}}}
Before(T, l) == Anc(TaskEdges(T), l)
After(T, l) == {u.label : u \in {x \in T : l \in Before(T, x.label)}}
RunProducer(T, d) == {t.label : t \in {x \in T : d \in Outs(x)}}
IsInitOutput(T, d) == \E t \in T : d \in IOuts(t)
Users(T, d) == {t.label : t \in {x \in T : d \in x.ins \cup x.pre \cup x.iin}}

(* what an identifier stands for: "T", "D", "S", or "?" if that is unclear *)
Sort(S, q, v) ==
    LET isT == v \in Labels(S.tasks)
        isD == v \in AllDS(S.tasks)
        isS == v \in SubsetLabels(S)
    IN IF q = "T" THEN IF isT THEN "T" ELSE "?"
       ELSE IF q = "D" THEN IF isD THEN "D" ELSE "?"
       ELSE IF q = "S" THEN IF isS THEN "S" ELSE "?"
       ELSE IF isT /\ ~isD /\ ~isS THEN "T"
       ELSE IF isD /\ ~isT /\ ~isS THEN "D"
       ELSE IF isS /\ ~isT /\ ~isD THEN "S" ELSE "?"

RECURSIVE Bad(_, _), Eval(_, _)
Bad(S, e) ==
    CASE e.k = "id" -> LET s == Sort(S, e.q, e.v) IN s = "?" \/ (s = "D" /\ IsInitOutput(S.tasks, e.v))
      [] e.k = "search" -> LET s == Sort(S, e.q, e.v)
                           IN s \in {"?", "S"} \/ (s = "D" /\ e.dir # ">" /\ IsInitOutput(S.tasks, e.v))
      [] e.k = "not" -> Bad(S, e.x)
      [] OTHER -> Bad(S, e.a) \/ Bad(S, e.b)
Eval(S, e) ==
    LET T == S.tasks IN
    CASE e.k = "id" -> (CASE Sort(S, e.q, e.v) = "T" -> {e.v}
                          [] Sort(S, e.q, e.v) = "D" -> RunProducer(T, e.v)
                          [] OTHER -> Members(S, e.v))
      [] e.k = "search" ->
            (IF Sort(S, e.q, e.v) = "T"
             THEN (IF e.dir \in {"<", "<="} THEN Before(T, e.v) ELSE After(T, e.v))
                  \cup (IF e.dir \in {"<=", ">="} THEN {e.v} ELSE {})
             ELSE IF e.dir \in {"<", "<="}
                  THEN UNION {Before(T, p) : p \in RunProducer(T, e.v)}
                       \cup (IF e.dir = "<=" THEN RunProducer(T, e.v) ELSE {})
                  ELSE UNION {After(T, u) \cup {u} : u \in Users(T, e.v)}
                       \cup (IF e.dir = ">=" THEN RunProducer(T, e.v) ELSE {}))
      [] e.k = "not" -> Labels(T) \ Eval(S, e.x)
      [] e.k = "or" -> Eval(S, e.a) \cup Eval(S, e.b)
      [] OTHER -> Eval(S, e.a) \cap Eval(S, e.b)

(* ------------------------- structural questions -------------------------- *)
(* groups of tasks connected by datasets passed between them at run time     *)
RECURSIVE Connected(_, _)
Connected(E, found) == LET more == found \cup {e[2] : e \in {x \in E : x[1] \in found}}
                                         \cup {e[1] : e \in {x \in E : x[2] \in found}}
                       IN IF more = found THEN found ELSE Connected(E, more)
Groups(T) == {Connected(TaskEdges(T), {l}) : l \in Labels(T)}
NotProduced(T) == {d \in AllDS(T) : Producers(T, d) = {}}
FullBefore(T, l) == {u.label : u \in {x \in T : ("T:" \o x.label) \in Anc(GEdges(T), "T:" \o l)}}
Between(T, first, last) ==
    {l \in Labels(T) : /\ first = "" \/ l = first \/ first \in FullBefore(T, l)
                       /\ last = "" \/ l = last \/ l \in FullBefore(T, last)}

(* --------------------------- judging observations ----------------------- *)
SelClauses == {"select-refused", "select-accepted", "select-error", "select-tasks", "select-graph", "select-resolved",
               "select-sorted", "select-original"}
SelOK(r, k) ==
    LET S == StateOf(r.pg)
        p == Parse(r.tokens)
        bad == ~p.ok \/ Bad(S, p.ast)
        ok == r.outcome = ""
        want == Eval(S, p.ast)
        G == StateOf(r.graph)
    IN
    CASE k = "select-refused" -> ~bad => ok
      [] k = "select-accepted" -> ok => ~bad
      [] k = "select-error" -> (~ok /\ bad) => r.outcome = "InvalidExpressionError"
      [] k = "select-tasks" -> (ok /\ ~bad) => RangeOf(r.tasks) = want
      [] k = "select-graph" -> (ok /\ ~bad /\ r.full) =>
            /\ G.tasks = {t \in S.tasks : t.label \in want}
            /\ RangeOf(r.graph.dts) = AllDS(G.tasks)
            /\ PairsOf(r.graph.edges) = GEdges(G.tasks)
            /\ G.subsets = {} /\ G.steps = <<>>
      [] k = "select-resolved" -> (ok /\ ~bad /\ r.full) => G.resolved = S.resolved \cap AllDS(G.tasks)
      [] k = "select-sorted" -> (ok /\ ~bad /\ r.full /\ r.pg.sorted) => r.graph.sorted /\ Topological(r.graph, G.tasks)
      [] k = "select-original" -> r.unchanged
SelectVerdict(r) == {k \in SelClauses : ~SelOK(r, k)}

StructClauses == {"task-graph", "dataset-graph", "bipartite-graph", "independent", "overall-inputs", "between",
                  "inputs-outputs", "producers-consumers", "edges-listed"}
TripleSet(s) == {<<s[i][1], s[i][2], s[i][3]>> : i \in 1..Len(s)}
InitEdges(T) == {<<p[1].label, p[2].label>> : p \in {x \in T \X T : IOuts(x[1]) \cap x[2].iin # {}}}
DSEdges(T) == UNION {{<<a, b>> : a \in t.ins \cup t.pre, b \in Outs(t)} : t \in T}
DSInitEdges(T) == UNION {{<<a, b>> : a \in t.iin, b \in IOuts(t)} : t \in T}
RunNodes(T) == UNION {t.ins \cup t.pre \cup Outs(t) : t \in T}
InitNodes(T) == UNION {t.iin \cup IOuts(t) : t \in T}
StructOK(r, k) ==
    LET S == StateOf(r.pg)
        T == S.tasks
    IN
    CASE k = "task-graph" -> /\ PairsOf(r.taskgraph.edges) = TaskEdges(T) /\ RangeOf(r.taskgraph.nodes) = Labels(T)
                             /\ PairsOf(r.inittaskgraph.edges) = InitEdges(T) /\ RangeOf(r.inittaskgraph.nodes) = Labels(T)
      [] k = "dataset-graph" -> /\ PairsOf(r.dsgraph.edges) = DSEdges(T) /\ RangeOf(r.dsgraph.nodes) = RunNodes(T)
                                /\ PairsOf(r.initdsgraph.edges) = DSInitEdges(T)
                                /\ RangeOf(r.initdsgraph.nodes) = InitNodes(T)
      [] k = "bipartite-graph" ->
            /\ PairsOf(r.bigraph.edges) = {e \in GEdges(T) : \E l \in Labels(T) : ("T:" \o l) \in {e[1], e[2]}}
                                          \ {<<"I:" \o l, "T:" \o l>> : l \in Labels(T)}
            /\ PairsOf(r.initbigraph.edges) = {e \in GEdges(T) : \E l \in Labels(T) : ("I:" \o l) \in {e[1], e[2]}}
                                              \ {<<"I:" \o l, "T:" \o l>> : l \in Labels(T)}
      [] k = "independent" ->
            /\ {RangeOf(r.independent[i].tasks) : i \in 1..Len(r.independent)} = Groups(T)
            /\ Len(r.independent) = Cardinality(Groups(T))
            /\ \A i \in 1..Len(r.independent) :
                  LET X == {t \in T : t.label \in RangeOf(r.independent[i].tasks)}
                      g == r.independent[i]
                  IN /\ RangeOf(g.datasets) = AllDS(X)
                     /\ PairsOf(g.edges) = GEdges(X)
                     /\ RangeOf(g.resolved) = S.resolved \cap AllDS(X)
                     /\ r.pg.sorted => g.sorted
                     /\ g.bound = r.bound
      [] k = "overall-inputs" -> RangeOf(r.overall) = NotProduced(T) /\ NoDup(r.overall)
      [] k = "between" -> \A i \in 1..Len(r.between) :
            RangeOf(r.between[i].got) = Between(T, r.between[i].first, r.between[i].last)
      [] k = "inputs-outputs" -> \A i \in 1..Len(r.io) :
            LET t == TaskOf(T, r.io[i].task) IN
            /\ RangeOf(r.io[i].ins) = t.ins \cup t.pre /\ RangeOf(r.io[i].iins) = t.iin
            /\ RangeOf(r.io[i].outs) = Outs(t) /\ RangeOf(r.io[i].iouts) = IOuts(t)
            /\ RangeOf(r.io[i].plain) = t.outs /\ RangeOf(r.io[i].iplain) = t.iout
      [] k = "producers-consumers" -> \A i \in 1..Len(r.pc) :
            LET d == r.pc[i].ds
                makers == {"T:" \o l : l \in RunProducer(T, d)} \cup {"I:" \o t.label : t \in {x \in T : d \in IOuts(x)}}
                users == {"T:" \o t.label : t \in {x \in T : d \in x.ins \cup x.pre}}
                         \cup {"I:" \o t.label : t \in {x \in T : d \in x.iin}}
            IN /\ (r.pc[i].error = "DuplicateOutputError") = (Cardinality(makers) > 1)
               /\ r.pc[i].error = "" => RangeOf(r.pc[i].producer) = makers /\ RangeOf(r.pc[i].pedge) = makers
               /\ RangeOf(r.pc[i].consumers) = users /\ RangeOf(r.pc[i].cedges) = users
      [] k = "edges-listed" -> /\ PairsOf(r.edges) = {e \in GEdges(T) : \E l \in Labels(T) : ("T:" \o l) \in {e[1], e[2]}}
                                                     \ {<<"I:" \o l, "T:" \o l>> : l \in Labels(T)}
                               /\ PairsOf(r.initedges) = {e \in GEdges(T) : \E l \in Labels(T) : ("I:" \o l) \in {e[1], e[2]}}
                                                         \ {<<"I:" \o l, "T:" \o l>> : l \in Labels(T)}
StructVerdict(r) == {k \in StructClauses : ~StructOK(r, k)}
=============================================================================
