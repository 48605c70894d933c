------------------------------ MODULE TaskMeta ------------------------------
(* Task metadata: a tree of named values that tasks fill while they run.

   A node is [k |-> "s", s |-> token], [k |-> "a", a |-> seq of tokens] or
   [k |-> "m", c |-> name -> node]; a token is [t |-> type, v |-> text].
   A value given by the user is a node of the first two kinds, a mapping
   [k |-> "d", d |-> seq of [path, val]], or [k |-> "bad"].
   An operation names an entry by its path, a sequence of names. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
None == [k |-> "none"]
Meta(c) == [k |-> "m", c |-> c]
Empty == Meta([x \in {} |-> None])
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

RECURSIVE Set(_, _, _), Find(_, _), Drop(_, _), Build(_)
Set(n, path, v) ==
    LET h == path[1] IN
    IF Len(path) = 1 THEN Meta((h :> v) @@ n.c)
    ELSE Meta((h :> Set(IF h \in DOMAIN n.c /\ n.c[h].k = "m" THEN n.c[h] ELSE Empty, Tail(path), v)) @@ n.c)
Find(n, path) ==
    IF path = <<>> THEN n
    ELSE IF n.k = "m" /\ path[1] \in DOMAIN n.c THEN Find(n.c[path[1]], Tail(path)) ELSE None
Drop(n, path) ==
    IF Len(path) = 1 THEN Meta(Without(n.c, {path[1]}))
    ELSE Meta((path[1] :> Drop(n.c[path[1]], Tail(path))) @@ n.c)
\* a value as it is stored, or None if it cannot be
Build(v) ==
    IF v.k = "bad" THEN None
    ELSE IF v.k = "d"
    THEN LET F[i \in 0..Len(v.d)] == IF i = 0 THEN Empty
                 ELSE LET b == Build(v.d[i].val) IN
                      IF F[i-1].k = "none" \/ b.k = "none" THEN None ELSE Set(F[i-1], v.d[i].path, b)
         IN F[Len(v.d)]
    ELSE IF v.k = "a" /\ Cardinality({x.t : x \in Rng(v.a)}) > 1 THEN None
    ELSE v
Parent(n, path) == Find(n, SubSeq(path, 1, Len(path) - 1))
Many(n) == IF n.k = "s" THEN <<n.s>> ELSE n.a
\* the result of an operation: [err, st]
Refuse(n, e) == [err |-> e, st |-> n]
Result(n, o) ==
    CASE o.op \in {"set", "setdict"} -> LET b == Build(o.val) IN IF b.k = "none" THEN Refuse(n, "ValueError") ELSE [err |-> "", st |-> Set(n, o.path, b)]
      [] o.op = "del" -> IF Find(n, o.path).k = "none" THEN Refuse(n, "KeyError") ELSE [err |-> "", st |-> Drop(n, o.path)]
      [] o.op = "add" ->
            IF Parent(n, o.path).k # "m" THEN Refuse(n, "KeyError")
            ELSE LET b == Build(o.val) old == Find(n, o.path) IN
                 IF b.k \in {"none", "m"} \/ old.k = "m" THEN Refuse(n, "ValueError")
                 ELSE LET all == (IF old.k = "none" THEN <<>> ELSE Many(old)) \o Many(b) IN
                      IF Cardinality({x.t : x \in Rng(all)}) > 1 THEN Refuse(n, "ValueError")
                      ELSE [err |-> "", st |-> Set(n, o.path, [k |-> "a", a |-> all])]

\* ------------------------------------------------------------------ views
RECURSIVE Same(_, _), Names(_), Params(_), Flat(_)
Same(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "s" -> a.s.t = b.s.t /\ a.s.v = b.s.v
         [] a.k = "a" -> Len(a.a) = Len(b.a) /\ \A i \in DOMAIN a.a : a.a[i].t = b.a[i].t /\ a.a[i].v = b.a[i].v
         [] a.k = "m" -> DOMAIN a.c = DOMAIN b.c /\ \A x \in DOMAIN a.c : Same(a.c[x], b.c[x])
         [] OTHER -> TRUE
Names(n) == UNION {{x} \cup (IF n.c[x].k = "m" THEN {x \o "." \o y : y \in Names(n.c[x])} ELSE {}) : x \in DOMAIN n.c}
Params(n) == UNION {IF n.c[x].k = "m" THEN {x \o "." \o y : y \in Params(n.c[x])} ELSE {x} : x \in DOMAIN n.c}
Top(n) == {x \in DOMAIN n.c : n.c[x].k # "m"}
\* a copy made through the interface shared with property sets
Holds(n) == Params(n) # {}
Flat(n) == Meta([x \in {x \in DOMAIN n.c : n.c[x].k # "m" \/ Holds(n.c[x])} |->
    IF n.c[x].k = "m" THEN Flat(n.c[x])
    ELSE IF n.c[x].k = "a" /\ Len(n.c[x].a) = 1 THEN [k |-> "s", s |-> n.c[x].a[1]] ELSE n.c[x]])

\* one value, or all of them
One(n) == IF n.k = "a" THEN IF n.a = <<>> THEN None ELSE [k |-> "s", s |-> n.a[Len(n.a)]] ELSE n
All(n) == IF n.k = "s" THEN [k |-> "a", a |-> <<n.s>>] ELSE n
Raised(errs, e) == IF e = "" THEN errs = <<>> ELSE e \in Rng(errs)

Look(n, q) ==
    LET f == Find(n, q.path) o == One(f) IN
    [known |-> q.known # (f.k # "none"),
     one |-> IF o.k = "none" THEN ~Raised(q.oneerr, "KeyError") \/ q.dflt.k # "default" ELSE q.oneerr # <<>> \/ ~Same(q.one, o) \/ ~Same(q.dflt, o),
     scalar |-> ~Same(q.scalar, q.one),
     all |-> IF f.k = "none" THEN ~Raised(q.allerr, "KeyError") ELSE q.allerr # <<>> \/ ~Same(q.all, All(f)),
     asdict |-> IF f.k = "m" THEN ~Same(q.asdict, f) ELSE f.k = "none" /\ ~Same(q.asdict, Empty)]
Wrong(r) == {x \in DOMAIN r : r[x]}

\* r: [steps: seq of [op, path, val, task, err, see: what is visible afterwards], copies, tasks: seq of names, ...]
See(n, v) ==
    (IF Same(v.tree, n) THEN {} ELSE {"content"})
    \cup (IF Rng(v.keys) = DOMAIN n.c /\ Len(v.keys) = Cardinality(DOMAIN n.c) /\ v.iter = v.keys /\ v.len = Len(v.keys) THEN {} ELSE {"keys"})
    \cup (IF Rng(v.names) = Names(n) THEN {} ELSE {"names"})
    \cup (IF Rng(v.params) = Params(n) /\ Rng(v.top) = Top(n) THEN {} ELSE {"parameter-names"})
    \cup UNION {{"look-up-" \o x : x \in Wrong(Look(n, q))} : q \in Rng(v.looks)}
Verdict(r) ==
    LET T == Rng(r.tasks)
        F[i \in 0..Len(r.steps)] ==
            IF i = 0 THEN [bad |-> {}, st |-> [t \in T |-> Empty]]
            ELSE LET s == r.steps[i] p == F[i-1] x == Result(p.st[s.task], s) IN
                 [bad |-> p.bad
                    \cup (IF Raised(s.err, x.err) THEN {} ELSE {IF x.err = "" THEN "refused-" \o s.op ELSE "accepted-" \o s.op})
                    \cup {(IF x.err = "" THEN "" ELSE "after-refusal-") \o b : b \in See(x.st, s.see)},
                  st |-> [p.st EXCEPT ![s.task] = x.st]]
        end == F[Len(r.steps)]
        Copy(c) == LET want == IF c.how = "metadata" THEN Flat(end.st[c.task]) ELSE end.st[c.task] IN
            (IF c.err = <<>> /\ Same(c.tree, want) THEN {} ELSE {"copy-by-" \o c.how})
            \cup (IF Same(c.after, end.st[c.task]) THEN {} ELSE {"copy-shared-by-" \o c.how})
        Whole == Meta([k \in {r.full[i].key : i \in DOMAIN r.full} |-> end.st[r.full[CHOOSE i \in DOMAIN r.full : r.full[i].key = k].task]])
    IN end.bad \cup UNION {Copy(c) : c \in Rng(r.copies)}
       \cup (IF Same(r.whole, Whole) THEN {} ELSE {"full-metadata"})
       \cup (IF Same(r.kept, Whole) THEN {} ELSE {"full-metadata-emptied"})
       \cup (IF \A i \in DOMAIN r.emptied : Same(r.emptied[i], Empty) THEN {} ELSE {"not-emptied"})
=============================================================================
