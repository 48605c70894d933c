-------------------------------- MODULE Decls --------------------------------
(* Connections classes: what is declared, inherited, configured and edited
   decides what a task's connections are. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Kinds == {"inputs", "prerequisiteInputs", "outputs", "initInputs", "initOutputs"}
Reserved == {"dimensions", "allConnections"} \cup Kinds
Empty == [x \in {} |-> {}]
Fn(f) == [x \in DOMAIN f |-> f[x]]

\* ---------------------------------------------------------------- classes
RECURSIVE ConnsOf(_, _), TmOf(_, _), MergeC(_, _), MergeT(_, _)
MergeC(p, bs) == IF bs = <<>> THEN Empty ELSE ConnsOf(p, Head(bs)) @@ MergeC(p, Tail(bs))
ConnsOf(p, k) == Fn(p.classes[k].conns) @@ MergeC(p, p.classes[k].bases)
MergeT(p, bs) == IF bs = <<>> THEN Empty ELSE TmOf(p, Head(bs)) @@ MergeT(p, Tail(bs))
TmOf(p, k) == Fn(p.classes[k].templates) @@ MergeT(p, p.classes[k].bases)
RECURSIVE DimsOf(_, _)
DimsOf(p, k) == LET c == p.classes[k] IN IF c.dims.on THEN Rng(c.dims.v) ELSE DimsOf(p, c.bases[1])
UsedIn(parts) == {parts[i].v : i \in {i \in DOMAIN parts : parts[i].t}}
Used(p, k) == LET cs == ConnsOf(p, k) IN UNION {UsedIn(cs[n].parts) : n \in DOMAIN cs}
ClassErrors(p, k) ==
    LET c == p.classes[k] IN
    (IF DOMAIN c.conns \cap Reserved # {} THEN {"AttributeError"} ELSE {})
    \cup (IF ~c.dims.on /\ c.bases = <<>> THEN {"TypeError"} ELSE {})
    \cup (IF ~(Used(p, k) \subseteq DOMAIN TmOf(p, k)) THEN {"TypeError"} ELSE {})
    \cup (IF Used(p, k) \cap DOMAIN ConnsOf(p, k) # {} THEN {"TypeError"} ELSE {})
Bad(p) == {k \in DOMAIN p.classes : ClassErrors(p, k) # {}}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Last(p) == Len(p.classes)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
Pattern(parts) == Cat([i \in 1..Len(parts) |-> IF parts[i].t THEN "{" \o parts[i].v \o "}" ELSE parts[i].v])
Format(parts, tv) == Cat([i \in 1..Len(parts) |-> IF parts[i].t THEN tv[parts[i].v] ELSE parts[i].v])
Shown(c, ds) == [kind |-> c.kind, ds |-> ds, multiple |-> c.multiple, dims |-> Rng(c.dims)]
View(o) == [n \in DOMAIN o |-> [kind |-> o[n].kind, ds |-> o[n].ds, multiple |-> o[n].multiple, dims |-> Rng(o[n].dims)]]

\* -------------------------------------------------------------- instances
TmVals(p, config) == LET tm == TmOf(p, Last(p)) IN
    [t \in DOMAIN tm |-> IF t \in DOMAIN config THEN (IF config[t].isnum THEN ToString(config[t].num) ELSE Pattern(config[t].parts)) ELSE tm[t]]
Start(p, config) == LET cs == ConnsOf(p, Last(p)) tv == TmVals(p, config) IN
    [conns |-> [n \in DOMAIN cs |-> Shown(cs[n], Format(IF n \in DOMAIN config THEN config[n].parts ELSE cs[n].parts, tv))],
     sets |-> [s \in Kinds |-> {n \in DOMAIN cs : cs[n].kind = s}],
     dims |-> DimsOf(p, Last(p))]
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
Edit(st, e) ==
    CASE e.op = "del" -> IF e.n \in DOMAIN st.conns
             THEN [st EXCEPT !.conns = Without(@, e.n), !.sets = [@ EXCEPT ![st.conns[e.n].kind] = @ \ {e.n}]] ELSE st
      [] e.op = "set" ->
             LET c == Shown(e.c, Pattern(e.c.parts)) IN
             [st EXCEPT !.conns = (e.n :> c) @@ @,
                        !.sets = [s \in Kinds |-> IF s = c.kind THEN @[s] \cup {e.n}
                                                  ELSE IF e.n \in DOMAIN st.conns /\ s = st.conns[e.n].kind THEN @[s] \ {e.n} ELSE @[s]]]
      [] e.op = "discard" -> [st EXCEPT !.sets = [@ EXCEPT ![e.set] = @ \ {e.n}]]
      [] e.op = "dim+" -> [st EXCEPT !.dims = @ \cup {e.n}]
      [] e.op = "dim=" -> [st EXCEPT !.dims = {e.n}]
      [] OTHER -> st
Result(st, e) == IF e.op \in {"del", "look"} /\ e.n \notin DOMAIN st.conns THEN "AttributeError"
                 ELSE IF e.op = "look" THEN st.conns[e.n].ds ELSE "ok"
RECURSIVE Play(_, _), Results(_, _)
Play(st, es) == IF es = <<>> THEN st ELSE Play(Edit(st, Head(es)), Tail(es))
Results(st, es) == IF es = <<>> THEN <<>> ELSE <<Result(st, Head(es))>> \o Results(Edit(st, Head(es)), Tail(es))
Kept(st) == UNION {st.sets[s] : s \in Kinds}
Final(st) == [n \in Kept(st) |-> st.conns[n]]
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
IterNames(st, kinds) == {<<n, s>> \in Kept(st) \X Rng(kinds) : n \in st.sets[s]}

\* an unused template that has the name of a connection is not documented
Unspecified(p) == \E k \in DOMAIN p.classes : DOMAIN ConnsOf(p, k) \cap DOMAIN TmOf(p, k) # {} /\ ClassErrors(p, k) = {}
Verdict(rec) ==
    LET p == rec.plan o == rec.obs bad == Bad(p) IN
    IF Unspecified(p) THEN {}
    ELSE IF bad # {} THEN IF o.failed = Min(bad) /\ ClassErrors(p, Min(bad)) \cap Rng(o.err) # {} THEN {} ELSE {"wrong-outcome-of-declaration"}
    ELSE IF o.failed # 0 THEN {"valid-declaration-refused"}
    ELSE LET cs == ConnsOf(p, Last(p))
             st == Play(Start(p, p.config), p.edits)
             plain == Start(p, Empty)
         IN
         (IF View(o.classconns) # [n \in DOMAIN cs |-> Shown(cs[n], Pattern(cs[n].parts))] \/ Rng(o.classdims) # DimsOf(p, Last(p))
          THEN {"wrong-class"} ELSE {})
         \cup (IF ~o.made THEN {"valid-connections-refused"} ELSE
               (IF o.steps # Results(Start(p, p.config), p.edits) THEN {"wrong-result-of-edit"} ELSE {})
               \cup (IF View(o.conns) # Final(st) THEN {"wrong-connections"} ELSE {})
               \cup (IF \E s \in Kinds : Rng(o.sets[s]) # st.sets[s] THEN {"wrong-kinds"} ELSE {})
               \cup (IF Rng(o.dims) # st.dims THEN {"wrong-dimensions"} ELSE {})
               \cup (IF Rng(o.all) # Kept(st) \/ Rng(o.attrs) # Kept(st) THEN {"wrong-attributes"} ELSE {})
               \cup (IF Len(o.iter) # Cardinality(IterNames(st, p.iter)) \/ Rng(o.iter) # {st.conns[x[1]].ds : x \in IterNames(st, p.iter)}
                     THEN {"wrong-iteration"} ELSE {})
               \cup (IF ~o.frozen \/ ~o.after.same \/ Rng(o.after.results) # {"TypeError"} THEN {"not-frozen"} ELSE {})
               \cup (IF View(o.plain) # plain.conns \/ Rng(o.plaindims) # plain.dims \/ ~o.after.classes THEN {"instances-not-independent"} ELSE {}))
=============================================================================
