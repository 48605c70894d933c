------------------------------ MODULE OldGraph ------------------------------
(* Quantum graphs of the older class: parts, files, queries and changes of run.

   g: [quanta: seq of [task, data, ins, outs, initins: seqs of datasets],
       tasks: label -> [ins, outs: seqs of dataset types, initins, initouts: seqs of datasets],
       global: seq of datasets, registry: seq of dataset types, types: dataset -> type (a sequence)]
   Quanta and datasets are numbers; a graph object holds a set of quanta. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Q(g) == DOMAIN g.quanta
Ins(g, q) == Rng(g.quanta[q].ins)
Outs(g, q) == Rng(g.quanta[q].outs)
Edges(g, S) == {<<a, b>> \in S \X S : a # b /\ Outs(g, a) \cap Ins(g, b) # {}}
Labels(g, S) == {g.quanta[q].task : q \in S}
Of(g, S, l) == {q \in S : g.quanta[q].task = l}
TIns(g, l) == Rng(g.tasks[l].ins)
TOuts(g, l) == Rng(g.tasks[l].outs)
TEdges(g, S) == {<<a, b>> \in Labels(g, S) \X Labels(g, S) : TOuts(g, a) \cap TIns(g, b) # {}}
Types(g, S) == UNION {TIns(g, l) \cup TOuts(g, l) : l \in Labels(g, S)}
Preds(g, S, q) == {a \in S : <<a, q>> \in Edges(g, S)}
Succs(g, S, q) == {b \in S : <<q, b>> \in Edges(g, S)}
RECURSIVE Up(_, _, _)
Up(g, S, X) == LET Y == X \cup UNION {Preds(g, S, q) : q \in X} IN IF Y = X THEN X ELSE Up(g, S, Y)
RECURSIVE Comp(_, _, _)
Comp(g, S, X) == LET Y == X \cup UNION {Preds(g, S, q) \cup Succs(g, S, q) : q \in X} IN IF Y = X THEN X ELSE Comp(g, S, Y)
Components(g, S) == {Comp(g, S, {q}) : q \in S}

\* the graphs an operation on a graph of S returns; {} = refused
Result(g, S, o) ==
    CASE o.op = "subset" -> {Rng(o.ids) \cap S}
      [] o.op = "around" -> {{o.ids[1]} \cup Preds(g, S, o.ids[1]) \cup Succs(g, S, o.ids[1])}
      [] o.op = "ancestors" -> {Up(g, S, {o.ids[1]})}
      [] o.op = "connected" -> Components(g, S)
      [] o.op \in {"pickle", "convert", "run"} -> {S}
      [] o.op = "file" -> IF o.wrongid THEN {} ELSE IF o.all THEN {S} ELSE IF Rng(o.ids) \subseteq S THEN {Rng(o.ids)} ELSE {}

\* ------------------------------------------------------- looking at a graph
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
InitOuts(v) == UNION {Rng(v.initouts[i].ds) : i \in DOMAIN v.initouts}
InitIns(v) == UNION {Rng(v.initins[i].ds) : i \in DOMAIN v.initins}
\* datasets asked for by category; the init datasets are those the graph object has
Refs(g, S, v, f) ==
    LET ins == UNION {Ins(g, q) : q \in S} outs == UNION {Outs(g, q) : q \in S}
        ii == InitIns(v) io == InitOuts(v) \cup Rng(g.global)
        want == (IF f.ins THEN ins ELSE {}) \cup (IF f.outs THEN outs ELSE {}) \cup (IF f.initins THEN ii ELSE {}) \cup (IF f.initouts THEN io ELSE {})
        inter == (ins \cup ii) \cap (outs \cup io)
    IN CASE f.inter = "none" -> want [] f.inter = "yes" -> want \cup inter [] f.inter = "no" -> want \ inter
Bad(c, name) == IF c THEN {name} ELSE {}
\* init = "kept": the init datasets are those of the tasks; "maybe": or none at all
Look(g, S, v, init) ==
    Bad(Rng(v.iter) # S \/ Len(v.iter) # Cardinality(S) \/ v.len # Cardinality(S), "quanta")
    \cup Bad(\E i, j \in DOMAIN v.iter : i < j /\ <<v.iter[j], v.iter[i]>> \in Edges(g, Q(g)), "order")
    \cup Bad(\E i \in DOMAIN v.nodes : LET n == v.nodes[i] q == n.id IN
                ~(q \in Q(g)) \/ n.task # g.quanta[q].task \/ n.data # g.quanta[q].data \/ Rng(n.ins) # Ins(g, q)
                \/ Rng(n.outs) # Outs(g, q) \/ Rng(n.initins) # Rng(g.quanta[q].initins), "quantum")
    \cup Bad(Pairs(v.edges) # Edges(g, S), "edges")
    \cup Bad(\E i \in DOMAIN v.nodes : Rng(v.nodes[i].preds) # Preds(g, S, v.nodes[i].id) \/ Rng(v.nodes[i].succs) # Succs(g, S, v.nodes[i].id), "neighbours")
    \cup Bad(Rng(v.first) # {q \in S : Preds(g, S, q) = {}} \/ Rng(v.last) # {q \in S : Succs(g, S, q) = {}}, "ends")
    \cup Bad(S # {} /\ v.connected # (Cardinality(Components(g, S)) = 1), "connected")
    \cup Bad(Rng(v.tasks) # Labels(g, S) \/ Pairs(v.taskedges) # TEdges(g, S), "tasks")
    \cup Bad(\E i \in 1..Len(v.taskorder), j \in 1..Len(v.taskorder) : i < j /\ <<v.taskorder[j], v.taskorder[i]>> \in TEdges(g, S), "task-order")
    \cup Bad(\E i \in DOMAIN v.bytask : Rng(v.bytask[i].ids) # Of(g, S, v.bytask[i].label) \/ v.bytask[i].n # Cardinality(Of(g, S, v.bytask[i].label)), "by-task")
    \cup Bad({v.bytype[i].t : i \in DOMAIN v.bytype} # Types(g, S), "types")
    \cup Bad(\E i \in DOMAIN v.bytype : LET x == v.bytype[i]
                 users == {l \in Labels(g, S) : x.t \in TIns(g, l)} makers == {l \in Labels(g, S) : x.t \in TOuts(g, l)} IN
                Rng(x.users) # users \/ Rng(x.makers) # makers \/ Rng(x.all) # users \cup makers
                \/ Rng(x.quanta) # {q \in S : g.quanta[q].task \in users \cup makers}, "by-type")
    \cup Bad(Rng(v.has) # S \/ Rng(v.hasq) # S \/ Rng(v.found) # S, "membership")
    \cup Bad(Rng(v.global) # Rng(g.global), "global-init-outputs")
    \cup Bad(~(Rng(v.registry) \subseteq Rng(g.registry))
             \/ ~(Rng(g.registry) \cap {g.types[d] : d \in UNION {Ins(g, q) \cup Outs(g, q) : q \in S} \cup Rng(g.global)} \subseteq Rng(v.registry)), "registry-types")
    \cup Bad(\E i \in DOMAIN v.initouts : LET x == v.initouts[i] IN
                Rng(x.ds) # Rng(g.tasks[x.label].initouts) /\ ~(init = "maybe" /\ x.ds = <<>>), "init-outputs")
    \cup Bad(\E i \in DOMAIN v.initins : LET x == v.initins[i] IN
                Rng(x.ds) # Rng(g.tasks[x.label].initins) /\ ~(init = "maybe" /\ x.ds = <<>>), "init-inputs")
    \cup UNION {Bad(Rng(v.refs[i].ds) # Refs(g, S, v, v.refs[i]), "refs-" \o v.refs[i].inter) : i \in DOMAIN v.refs}
    \cup Bad(~v.same, "identity") \cup Bad(v.broken # "", "broken:" \o v.broken)
    \cup Bad(S # {} /\ \E i \in DOMAIN v.summary : v.summary[i].n # Cardinality(Of(g, S, v.summary[i].label)), "summary")

\* r: [g, view, steps: seq of [op, err, out: seq of views, pick, runs]]: every step goes on with one of the graphs
Moved(g, S, v, o) ==
    LET made == UNION {Outs(g, q) : q \in S} \cup InitOuts(v) \cup Rng(v.global)
        to(d) == {o.moved[i][2] : i \in {i \in DOMAIN o.moved : o.moved[i][1] = d}}
        all == {o.moved[i][1] : i \in DOMAIN o.moved}
    IN Bad(\E d \in all : Cardinality(to(d)) # 1, "run-split")
       \cup Bad(\E d, e \in all : d # e /\ to(d) \cap to(e) # {}, "run-merged")
       \cup Bad(\E d \in made : d \in all /\ to(d) = {d}, "run-kept-output")
       \cup Bad(\E d \in all \ made : to(d) # {d}, "run-changed-input")
       \cup Bad(\E i \in DOMAIN o.runs : (o.runs[i][2] = "new") # (o.runs[i][1] \in made), "run-name")
       \cup Bad(o.meta # "new" \/ o.newid # o.wantnewid, "run-metadata")
Verdict(r) ==
    LET g == r.g
        F[i \in 0..Len(r.steps)] ==
            IF i = 0 THEN [S |-> Q(g), bad |-> Look(g, Q(g), r.view, "kept"), init |-> "kept", v |-> r.view]
            ELSE LET p == F[i-1] s == r.steps[i] want == Result(g, p.S, s)
                     init == IF s.op \in {"subset", "around", "ancestors", "connected"} THEN "maybe" ELSE p.init IN
                 IF want = {} /\ ~(s.op = "connected" /\ p.S = {})
                 THEN [p EXCEPT !.bad = p.bad \cup Bad(~("ValueError" \in Rng(s.err)), "accepted-" \o s.op)]
                 ELSE IF s.err # <<>> THEN [p EXCEPT !.bad = p.bad \cup {"refused-" \o s.op \o "-" \o s.err[1]}]
                 ELSE LET got == {Rng(s.out[k].iter) : k \in DOMAIN s.out} IN
                      [S |-> IF s.out = <<>> THEN p.S ELSE Rng(s.out[s.pick].iter),
                       v |-> IF s.out = <<>> THEN p.v ELSE s.out[s.pick],
                       init |-> init,
                       bad |-> p.bad \cup Bad(got # want \/ Len(s.out) # Cardinality(want), "result-" \o s.op)
                               \cup UNION {Look(g, Rng(s.out[k].iter), s.out[k], init) : k \in DOMAIN s.out}
                               \cup (IF s.op = "run" THEN Moved(g, p.S, p.v, s) ELSE {})]
    IN F[Len(r.steps)].bad
=============================================================================
