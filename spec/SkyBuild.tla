------------------------------ MODULE SkyBuild ------------------------------
(* Quantum graph builds whose data IDs are related by sky regions, sky pixels
   and time: which quanta exist, which datasets each of them reads and writes.

   A scenario "sc" has
     visits   seq of [id, filter, b, e] (observed during [b, e)), dets, filters,
     tracts   seqs of strings, patches seq of <<tract, patch>>
     boxes    region key -> <<x0, x1, y0, y1>>; keys are "v1" (a visit), "v1d2"
              (a detector in it), "t0" (a tract) and "t0p1" (a patch)
     env      pixelization ("htm7", "px1") -> region key -> seq of pixels
     px12     pixel of "px1" -> seq of the pixels of "px2" it is related to
     conds    user expression: seq of [dim, vals], all of which must hold
     tables   seq of [dims, ids]: tables of data IDs joined into the query
     tasks    seq, in topological order, of [label, dims, ins, pre, outs, sp,
              tp, nowork]: ins are [ds, min]; pre are [ds, min, kind, table];
              sp/tp name the datasets that extend spatial/temporal bounds
     dsdims   dataset type -> seq of (required) dimensions
     store    seq of [run, ds, id];  calibs seq of [coll, ds, id, run, b, e]
     incolls  search path;  cons dataset types that constrain the query
   A data ID is a sequence of strings, one per dimension, "" where absent. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

DimNames == <<"instrument", "physical_filter", "detector", "visit", "tract", "patch", "htm7", "px1", "px2">>
PX1 == 8
PX2 == 9
Rng(s) == {s[i] : i \in DOMAIN s}
Proj(c, dims) == [i \in 1..9 |-> IF DimNames[i] \in dims THEN c[i] ELSE ""]
NoId == [i \in 1..9 |-> ""]

\* ------------------------------------------------------------- the pipeline
DDims(sc, ds) == Rng(sc.dsdims[ds])
TDims(t) == Rng(t.dims)
Meta(t) == t.label \o "_metadata"
LogName(t) == t.label \o "_log"
InTypes(t) == {e.ds : e \in Rng(t.ins)}
AllOuts(t) == Rng(t.outs) \cup {Meta(t), LogName(t)}
Tasks(sc) == DOMAIN sc.tasks
IsOverall(sc, ds) == \A i \in Tasks(sc) : ds \notin AllOuts(sc.tasks[i])
Linked(sc, i, j) == \/ AllOuts(sc.tasks[i]) \cap InTypes(sc.tasks[j]) # {}
                    \/ AllOuts(sc.tasks[j]) \cap InTypes(sc.tasks[i]) # {}
RECURSIVE Comp(_, _)
Comp(sc, s) == LET n == s \cup {j \in Tasks(sc) : \E i \in s : Linked(sc, i, j)}
               IN IF n = s THEN s ELSE Comp(sc, n)
\* every combination of dimensions that is the union of those of a task and of something it reads or writes
Groups(sc, comp) == UNION {{TDims(sc.tasks[i]) \cup DDims(sc, ds) : ds \in InTypes(sc.tasks[i]) \cup AllOuts(sc.tasks[i])}
                              : i \in comp}

\* ------------------------------------------------------- regions and times
HasRegion(dims) == dims \cap {"visit", "tract", "patch"} # {}
ObsKey(c) == IF c[4] = "" THEN "" ELSE IF c[3] = "" THEN "v" \o c[4] ELSE "v" \o c[4] \o "d" \o c[3]
MapKey(c) == IF c[5] = "" THEN "" ELSE IF c[6] = "" THEN "t" \o c[5] ELSE "t" \o c[5] \o "p" \o c[6]
RegKey(c) == IF ObsKey(c) # "" THEN ObsKey(c) ELSE MapKey(c)
Overlap(a, b) == a[1] < b[2] /\ b[1] < a[2] /\ a[3] < b[4] /\ b[3] < a[4]
VisitOf(sc, id) == CHOOSE v \in Rng(sc.visits) : v.id = id
Forever == <<-1000, 1000>>
SpanOf(sc, c) == LET v == VisitOf(sc, c[4]) IN <<v.b, v.e>>
Hull(spans) == <<CHOOSE b \in {s[1] : s \in spans} : \A s \in spans : b <= s[1],
                 CHOOSE e \in {s[2] : s \in spans} : \A s \in spans : e >= s[2]>>

\* --------------------------------------------------- all data IDs of a group
Rows(sc, D) ==
    LET VS == IF "visit" \in D THEN {v.id : v \in Rng(sc.visits)} ELSE {""}
        DS == IF "detector" \in D THEN Rng(sc.dets) ELSE {""}
        TP == IF "patch" \in D THEN Rng(sc.patches)
              ELSE IF "tract" \in D THEN {<<t, "">> : t \in Rng(sc.tracts)} ELSE {<<"", "">>}
        HS == IF "htm7" \in D THEN Rng(sc.htms) ELSE {""}
        XS == IF "px1" \in D THEN Rng(sc.px1s) ELSE {""}
        FS(v) == IF v # "" THEN {VisitOf(sc, v).filter}
                 ELSE IF "physical_filter" \in D THEN Rng(sc.filters) ELSE {""}
        inst == IF D \cap {"instrument", "physical_filter", "detector", "visit"} # {} THEN "C" ELSE ""
        base == UNION {UNION {UNION {{<<inst, f, d, v, tp[1], tp[2]>> : tp \in TP} : d \in DS} : f \in FS(v)} : v \in VS}
        near(c) == ObsKey(c) = "" \/ MapKey(c) = "" \/ Overlap(sc.boxes[ObsKey(c)], sc.boxes[MapKey(c)])
        hs(c) == IF "htm7" \notin D \/ RegKey(c) = "" THEN HS
                 ELSE (IF ObsKey(c) = "" THEN HS ELSE Rng(sc.env["htm7"][ObsKey(c)]))
                      \cap (IF MapKey(c) = "" THEN HS ELSE Rng(sc.env["htm7"][MapKey(c)]))
    IN UNION {UNION {{<<c[1], c[2], c[3], c[4], c[5], c[6], h, x, "">> : h \in hs(c)} : x \in XS}
                 : c \in {b \in base : near(b)}}

\* ------------------------------------------------------- repository lookups
Has(sc, run, ds, id) == \E e \in Rng(sc.store) : e.run = run /\ e.ds = ds /\ e.id = id
RECURSIVE Find(_, _, _, _)
Find(sc, colls, ds, id) ==
    IF colls = <<>> THEN ""
    ELSE IF Has(sc, Head(colls), ds, id) THEN Head(colls) ELSE Find(sc, Tail(colls), ds, id)
RECURSIVE FindCal(_, _, _, _, _)
FindCal(sc, colls, ds, id, span) ==
    IF colls = <<>> THEN ""
    ELSE LET m == {k.run : k \in {x \in Rng(sc.calibs) : x.coll = Head(colls) /\ x.ds = ds /\ x.id = id
                                                          /\ x.b < span[2] /\ span[1] < x.e}}
         IN IF m = {} THEN FindCal(sc, Tail(colls), ds, id, span)
            ELSE IF Cardinality(m) > 1 THEN "ambiguous" ELSE CHOOSE r \in m : TRUE

\* --------------------------------------------------------- the initial query
OptionalFor(sc, ds) == \E i \in Tasks(sc) : \E e \in Rng(sc.tasks[i].ins) : e.ds = ds /\ e.min = 0
Constrained(sc, comp) == {ds \in UNION {InTypes(sc.tasks[i]) : i \in comp} :
                             IsOverall(sc, ds) /\ ds \in Rng(sc.cons) /\ DDims(sc, ds) # {} /\ ~OptionalFor(sc, ds)}
QDims(sc, comp) ==
    (UNION Groups(sc, comp) \cup {c.dim : c \in Rng(sc.conds)} \cup UNION {Rng(t.dims) : t \in Rng(sc.tables)})
    \ (IF \E ds \in Constrained(sc, comp) : "px1" \in DDims(sc, ds) THEN {"px2"} ELSE {"px1", "px2"})
Pos(d) == CHOOSE i \in 1..9 : DimNames[i] = d
QRows(sc, comp) ==
    {c \in Rows(sc, QDims(sc, comp)) :
        /\ \A k \in Rng(sc.conds) : c[Pos(k.dim)] \in Rng(k.vals)
        /\ \A t \in Rng(sc.tables) : Proj(c, Rng(t.dims)) \in Rng(t.ids)
        /\ \A ds \in Constrained(sc, comp) : Find(sc, sc.incolls, ds, Proj(c, DDims(sc, ds))) # ""}

(* The data IDs over the dimensions G that belong to a component: projections of
   the query's rows; with pixels that cannot be queried for, those that the
   region of the rest covers. *)
RECURSIVE Ids(_, _, _, _)
Ids(sc, comp, rows, G) ==
    LET queried == QDims(sc, comp)
        px == G \cap ({"px1", "px2"} \ queried)
        B == G \ px
    IN CASE px = {} -> {Proj(c, G) : c \in rows}
         [] px = {"px1"} /\ HasRegion(B) ->
                UNION {{[b EXCEPT ![PX1] = x] : x \in Rng(sc.env["px1"][RegKey(b)])} : b \in Ids(sc, comp, rows, B)}
         [] px = {"px1"} /\ ~HasRegion(B) ->
                LET S == {H \in Groups(sc, comp) : G \subseteq H /\ "px2" \notin H /\ HasRegion(H)}
                IN IF S # {} THEN UNION {{Proj(c, G) : c \in Ids(sc, comp, rows, H)} : H \in S}
                   ELSE {[b EXCEPT ![PX1] = x[PX1]] : b \in Ids(sc, comp, rows, B), x \in Ids(sc, comp, rows, {"px1"})}
         [] "px2" \in px /\ "px1" \in G ->
                UNION {{[b EXCEPT ![PX2] = y] : y \in Rng(sc.px12[b[PX1]])} : b \in Ids(sc, comp, rows, G \ {"px2"})}
         [] px = {"px2"} /\ "px1" \notin G ->
                LET all == {Proj(c, {"px2"}) : c \in Ids(sc, comp, rows, {"px1", "px2"})}
                IN IF B = {} THEN all ELSE {[b EXCEPT ![PX2] = x[PX2]] : b \in Ids(sc, comp, rows, B), x \in all}

(* P: what a build starts from.  comps[i] and rows[i] of task i's component;
   ids[i] its data IDs; ends[i][ds] the pairs (quantum data ID, dataset data ID). *)
Plan(sc) ==
    LET comps == [i \in Tasks(sc) |-> Comp(sc, {i})]
        rows == [i \in Tasks(sc) |-> QRows(sc, comps[i])]
        pairs(i, ds) == {<<Proj(c, TDims(sc.tasks[i])), Proj(c, DDims(sc, ds))>> :
                            c \in LET G == TDims(sc.tasks[i]) \cup DDims(sc, ds) IN
                                  IF G \subseteq QDims(sc, comps[i]) THEN rows[i] ELSE Ids(sc, comps[i], rows[i], G)}
    IN [ids |-> [i \in Tasks(sc) |-> Ids(sc, comps[i], rows[i], TDims(sc.tasks[i]))],
        ends |-> [i \in Tasks(sc) |-> [ds \in InTypes(sc.tasks[i]) \cup AllOuts(sc.tasks[i]) |-> pairs(i, ds)]]]
Ends(p, i, id, ds) == {e[2] : e \in {x \in p.ends[i][ds] : x[1] = id}}
OutNodes(sc, p, i, id) == UNION {{<<ds, x>> : x \in Ends(p, i, id, ds)} : ds \in AllOuts(sc.tasks[i])}

\* ------------------------------------------------------------ prerequisites
(* got(ds): the data IDs of the regular inputs of type ds that quantum id of
   task i may be offered: those that exist, and those that are to be made. *)
Near(sc, t, id, ds) == {Proj(c, DDims(sc, ds)) :
                           c \in {r \in Rows(sc, TDims(t) \cup DDims(sc, ds)) : Proj(r, TDims(t)) = id}}
BoundIds(t, names, got(_), outs(_)) == UNION {IF ds \in InTypes(t) THEN got(ds) ELSE outs(ds) : ds \in names}
Pre(sc, p, i, id, e, got(_)) ==
    LET t == sc.tasks[i]
        outs(ds) == Ends(p, i, id, ds)
        dd == DDims(sc, e.ds)
        pixel == IF "htm7" \in dd THEN "htm7" ELSE "px1"
        mine == IF HasRegion(TDims(t)) THEN Rng(sc.env[pixel][RegKey(id)]) ELSE {}
        cover == mine \cup UNION {Rng(sc.env[pixel][RegKey(x)]) : x \in BoundIds(t, Rng(t.sp), got, outs)}
        spans == (IF "visit" \in TDims(t) THEN {SpanOf(sc, id)} ELSE {})
                 \cup {SpanOf(sc, x) : x \in BoundIds(t, Rng(t.tp), got, outs)}
        span == IF t.tp = <<>> /\ "visit" \notin TDims(t) THEN Forever
                ELSE IF spans = {} THEN <<0, 0>> ELSE Hull(spans)
        \* a visit implies its filter
        full == IF id[4] = "" THEN id ELSE [id EXCEPT ![2] = VisitOf(sc, id[4]).filter]
        shared == {DimNames[k] : k \in {j \in 1..9 : full[j] # ""}} \cap dd
        found(ids) == {<<e.ds, x, Find(sc, sc.incolls, e.ds, x)>> : x \in {y \in ids : Find(sc, sc.incolls, e.ds, y) # ""}}
    IN CASE e.kind = "lookup" -> found(UNION {Rng(r.ids) : r \in {x \in Rng(e.table) : x.q = id}})
         [] e.kind = "calib" ->
               {n \in {<<e.ds, x, FindCal(sc, sc.incolls, e.ds, x, span)>> : x \in Near(sc, t, id, e.ds)} : n[3] # ""}
         [] e.kind = "plain" /\ dd \cap {"htm7", "px1"} # {} /\ (t.sp # <<>> \/ ~HasRegion(TDims(t))) ->
               found({x.id : x \in {y \in Rng(sc.store) : /\ y.ds = e.ds
                                                          /\ Proj(y.id, shared) = Proj(full, shared)
                                                          /\ t.sp = <<>> \/ y.id[Pos(pixel)] \in cover}})
         [] OTHER -> found(Near(sc, t, id, e.ds))
Ambiguous(ns) == \E n \in ns : n[3] = "ambiguous"

\* ------------------------------------------- adjustment, task by task in order
RECURSIVE Adjust(_, _, _, _)
Adjust(sc, p, i, st) ==
    IF i > Len(sc.tasks) \/ st.err # {} THEN st ELSE
    LET t == sc.tasks[i]
        ref(ds, id) == IF IsOverall(sc, ds) THEN Find(sc, sc.incolls, ds, id)
                       ELSE IF <<ds, id>> \in st.made THEN "new" ELSE ""
        got(id) == [ds \in InTypes(t) |-> {x \in Ends(p, i, id, ds) : ref(ds, x) # ""}]
        \* prerequisites are looked up before any task adjusts its quanta
        potential(id) == [ds \in InTypes(t) |-> IF IsOverall(sc, ds) THEN got(id)[ds] ELSE Ends(p, i, id, ds)]
        pre == [id \in p.ids[i] |-> UNION {LET g == potential(id) IN Pre(sc, p, i, id, e, LAMBDA ds : g[ds]) : e \in Rng(t.pre)}]
        nowork(id) == id \in Rng(t.nowork) \/ \E e \in Rng(t.ins) : Cardinality(got(id)[e.ds]) < e.min
        keep == {id \in p.ids[i] : ~nowork(id)}
        short == \E id \in keep : \E e \in Rng(t.pre) : Cardinality({n \in pre[id] : n[1] = e.ds}) < e.min
        amb == \E id \in p.ids[i] : Ambiguous(pre[id])
    IN Adjust(sc, p, i + 1,
              [kept |-> st.kept \cup
                   {[t |-> i, id |-> id,
                     ins |-> pre[id] \cup UNION {{<<ds, x, ref(ds, x)>> : x \in got(id)[ds]} : ds \in InTypes(t)},
                     outs |-> {<<n[1], n[2], "new">> : n \in OutNodes(sc, p, i, id)}] : id \in keep},
               made |-> st.made \cup UNION {OutNodes(sc, p, i, id) : id \in keep},
               err |-> IF \E id \in keep : Ambiguous(pre[id]) THEN {"CalibrationLookupError"}
                       ELSE IF short THEN {"FileNotFoundError"} ELSE {},
               may |-> st.may \cup IF amb THEN {"CalibrationLookupError"} ELSE {}])
Expected(sc) == Adjust(sc, Plan(sc), 1, [kept |-> {}, made |-> {}, err |-> {}, may |-> {}])
\* an ambiguous lookup anywhere may be reported, even for a quantum that would not survive
MayFail(sc) == \E i \in Tasks(sc) : \E e \in Rng(sc.tasks[i].pre) : e.kind = "calib" /\
                   \E a, b \in Rng(sc.calibs) : a.ds = e.ds /\ a.ds = b.ds /\ a.coll = b.coll /\ a.id = b.id /\ a.run # b.run

\* ------------------------------------------------------------------- verdict
(* obs: [ok, errs, quanta: seq of [task, id, ins, outs], edges]; ins/outs are
   seqs of <<ds, id, ref, uuid-number>>. *)
Strip(s) == {<<x[1], x[2], x[3]>> : x \in Rng(s)}
Nodes2(s) == {<<n[1], n[2]>> : n \in s}
Verdict(rec) ==
    LET sc == rec.sc obs == rec.obs ex == Expected(sc) errs == Rng(obs.errs) IN
    IF ex.err # {} THEN
        IF obs.ok THEN {"graph-built-instead-of-error"}
        ELSE IF errs \cap (ex.err \cup (IF MayFail(sc) THEN {"CalibrationLookupError"} ELSE {})) = {} THEN {"wrong-error"} ELSE {}
    ELSE IF ~obs.ok THEN
        IF ex.may \cap errs # {} THEN {} ELSE {"unexpected-error"}
    ELSE LET
        key(k) == <<sc.tasks[k.t].label, k.id>>
        exk == {key(k) : k \in ex.kept}
        obk == {<<q.task, q.id>> : q \in Rng(obs.quanta)}
        obq(k) == CHOOSE q \in Rng(obs.quanta) : <<q.task, q.id>> = key(k)
        both == {k \in ex.kept : key(k) \in obk}
        pres(k) == {e.ds : e \in Rng(sc.tasks[k.t].pre)}
        reg(k, s) == {n \in s : n[1] \notin pres(k)}
        edges == {<<key(a), key(b)>> : <<a, b>> \in {<<x, y>> \in ex.kept \X ex.kept : Nodes2(x.outs) \cap Nodes2(y.ins) # {}}}
        all == UNION {Rng(q.ins) \cup Rng(q.outs) : q \in Rng(obs.quanta)}
    IN (IF exk \ obk # {} THEN {"missing-quantum"} ELSE {})
       \cup (IF obk \ exk # {} \/ Cardinality(obk) # Len(obs.quanta) THEN {"unexpected-quantum"} ELSE {})
       \cup (IF \E k \in both : reg(k, Strip(obq(k).ins)) # reg(k, k.ins) THEN {"wrong-inputs"} ELSE {})
       \cup (IF \E k \in both : Strip(obq(k).ins) \ reg(k, Strip(obq(k).ins)) # k.ins \ reg(k, k.ins)
             THEN {"wrong-prerequisites"} ELSE {})
       \cup (IF \E k \in both : Strip(obq(k).outs) # k.outs THEN {"wrong-outputs"} ELSE {})
       \cup (IF \E a, b \in all : a[4] = b[4] /\ <<a[1], a[2]>> # <<b[1], b[2]>> THEN {"inconsistent-dataset-identity"} ELSE {})
       \cup (IF exk = obk /\ Rng(obs.edges) # edges THEN {"wrong-quantum-edges"} ELSE {})
=============================================================================
