------------------------------- MODULE Resolve -------------------------------
(* The one definition of a dataset type in a pipeline graph, from the       *)
(* definition registered in the data repository (if any), the connections   *)
(* of the tasks that write it and those of the tasks that read it.          *)
(*   definition  [sc, dims, cal]: storage class, dimensions, calibration    *)
(*   writer      [edge, sc, dims, cal, init]                                *)
(*   reader      [edge, sc, dims, cal, init, comp, pre, defer]; comp = ""   *)
(*               unless only a component is read                            *)
(* conv is the set of pairs <<a, b>> such that storage class a can be       *)
(* converted to b; comps the set of [sc, name, of] of components.           *)
EXTENDS Dag, TLC

Conform(raw) == raw \cup (IF "detector" \in raw THEN {"instrument"} ELSE {})
IsSkypix(e) == "skypix" \in e.dims
SkyDims == {"htm7", "htm3"}
Compat(conv, a, b) == a = b \/ <<a, b>> \in conv
DefOf(e) == [sc |-> e.sc, dims |-> Conform(e.dims), cal |-> e.cal]

(* plain readers that could define the dataset type on their own *)
Defining(R) == {e \in R : e.comp = "" /\ ~IsSkypix(e)}
Bases(reg, W, R) == IF reg # {} THEN reg
                    ELSE IF W # {} THEN {DefOf(e) : e \in W}
                    ELSE {DefOf(e) : e \in Defining(R)}
FromReaders(reg, W) == reg = {} /\ W = {}

ReaderErrs(conv, comps, base, weak, e) ==
    LET bad == IF weak THEN {"MissingDatasetTypeError", "IncompatibleDatasetTypeError"}
               ELSE {"IncompatibleDatasetTypeError"}
        dimsok == IF IsSkypix(e) THEN Conform(e.dims \ {"skypix"}) = base.dims \ SkyDims
                  ELSE Conform(e.dims) = base.dims
        parts == {c \in comps : c.sc = base.sc /\ c.name = e.comp}
    IN IF e.comp # "" THEN
            (* the dimensions of component connections are checked only as far as
               they use a placeholder *)
            (IF IsSkypix(e) /\ ~dimsok THEN bad ELSE {})
            \cup (IF parts = {} THEN bad
                  ELSE IF \E c \in parts : ~Compat(conv, c.of, e.sc) THEN bad ELSE {})
       ELSE (IF ~dimsok \/ e.cal # base.cal THEN bad ELSE {})
            \cup (IF weak THEN (IF e.sc # base.sc THEN bad ELSE {})
                  ELSE IF ~Compat(conv, base.sc, e.sc) THEN bad ELSE {})

(* The errors one of which must be raised; none if the set is empty. *)
ResolveErrs(conv, comps, reg, W, R) ==
    LET bases == Bases(reg, W, R)
        weak == FromReaders(reg, W)
        pre == {e \in R : e.pre}
    IN  (IF Cardinality(W) > 1 THEN {"DuplicateOutputError"} ELSE {})
        \cup (IF bases = {} THEN {"MissingDatasetTypeError"} ELSE {})
        \cup (IF weak /\ Cardinality(bases) > 1 THEN {"MissingDatasetTypeError"} ELSE {})
        \cup UNION {LET d == DefOf(w) IN
                    IF d.dims # b.dims \/ d.cal # b.cal \/ ~Compat(conv, d.sc, b.sc)
                    THEN {"IncompatibleDatasetTypeError"} ELSE {} : w \in W, b \in reg}
        \cup UNION {ReaderErrs(conv, comps, b, weak, e) : e \in R, b \in bases}
        \cup (IF pre # {} /\ (W # {} \/ pre # R) THEN {"ConnectionTypeConsistencyError"} ELSE {})
TheDef(reg, W, R) == CHOOSE b \in Bases(reg, W, R) : TRUE

(* --------- the same, one connection at a time, in any order -------------- *)
(* cur: the definition so far ({} or a singleton); registered, written: as   *)
(* in the real system, what comes first takes precedence.                    *)
ErrCur == {[sc |-> "!", dims |-> {}, cal |-> FALSE]}
StepWriter(conv, cur, isreg, w) ==
    IF isreg THEN LET b == CHOOSE x \in cur : TRUE
                      d == DefOf(w)
                  IN IF d.dims = b.dims /\ d.cal = b.cal /\ Compat(conv, d.sc, b.sc) THEN cur ELSE ErrCur
    ELSE IF cur = {} THEN {DefOf(w)} ELSE ErrCur
StepReader(conv, comps, cur, weak, e) ==
    IF cur = {} THEN (IF e.comp # "" \/ IsSkypix(e) THEN ErrCur ELSE {DefOf(e)})
    ELSE IF ReaderErrs(conv, comps, CHOOSE x \in cur : TRUE, weak, e) = {} THEN cur ELSE ErrCur

(* --------------------------- judging observations ----------------------- *)
NDef(x) == [sc |-> x.sc, dims |-> RangeOf(x.dims), cal |-> x.cal]
NEdge(e) == [e EXCEPT !.dims = RangeOf(@)]
Pairs3(s) == {<<s[i][1], s[i][2], s[i][3]>> : i \in 1..Len(s)}

Clauses == {"resolve-refused", "resolve-accepted", "resolve-error", "resolve-def", "resolve-prereq", "resolve-constraint",
            "resolve-producer", "resolve-consumers", "resolve-adapt", "resolve-generalize", "resolve-register",
            "resolve-check", "resolve-overall-inputs", "resolve-dimension-groups"}
OKClause(r, k) ==
    LET conv == PairsOf(r.conv)
        comps == {r.comps[i] : i \in 1..Len(r.comps)}
        reg == {NDef(r.reg[i]) : i \in 1..Len(r.reg)}
        W == {NEdge(r.writers[i]) : i \in 1..Len(r.writers)}
        R == {NEdge(r.readers[i]) : i \in 1..Len(r.readers)}
        errs == ResolveErrs(conv, comps, reg, W, R)
        ok == r.outcome = ""
        good == ok /\ errs = {}
        d == TheDef(reg, W, R)
        auto == UNION {{t \o "_config", t \o "_log", t \o "_metadata"} : t \in RangeOf(r.tasks)}
    IN
    CASE k = "resolve-refused" -> errs = {} => ok
      [] k = "resolve-accepted" -> ok => errs = {}
      [] k = "resolve-error" -> (~ok /\ errs # {}) => r.outcome \in errs
      [] k = "resolve-def" -> good => NDef(r.def) = d
      [] k = "resolve-prereq" -> good => r.prereq = (\E e \in R : e.pre)
      [] k = "resolve-constraint" -> (good /\ ~(\E e, f \in R : e.init /\ ~f.init)) =>
            r.constraint = (W = {} /\ ~\E e \in R : e.pre \/ e.init \/ e.defer)
      [] k = "resolve-producer" -> good => {e.edge : e \in W} = RangeOf(r.producer)
      [] k = "resolve-consumers" -> good => {e.edge : e \in R} = RangeOf(r.consumers) /\ NoDup(r.consumers)
      [] k = "resolve-adapt" -> good =>
            Pairs3(r.adapted) = {<<e.edge, IF e.comp = "" THEN "d" ELSE "d." \o e.comp, e.sc>> : e \in R}
                                \cup {<<e.edge, "d", e.sc>> : e \in W}
      [] k = "resolve-generalize" -> good => \A i \in 1..Len(r.general) : r.general[i] = "d:" \o d.sc
      [] k = "resolve-register" -> good =>
            /\ RangeOf(r.registered) =
                 (IF r.flags.inputs \/ W # {} THEN {"d"} ELSE {})
                 \cup (auto \ ((IF r.flags.configs THEN {} ELSE {t \o "_config" : t \in RangeOf(r.tasks)})
                               \cup (IF r.flags.logs THEN {} ELSE {t \o "_log" : t \in RangeOf(r.tasks)})))
                 \cup (IF r.flags.packages THEN {"packages"} ELSE {})
            /\ "d" \in RangeOf(r.registered) => NDef(r.regdef) = d
      [] k = "resolve-check" -> good =>
            /\ r.check.full = ""
            /\ r.check.other = "ConflictingDefinitionError"
            /\ r.check.missing =
                 (IF W = {} /\ \A e \in R : e.optional THEN "" ELSE "MissingDatasetTypeError")
            /\ r.check.nopackages = "MissingDatasetTypeError"
      [] k = "resolve-overall-inputs" -> good => RangeOf(r.overall) = (IF W = {} THEN {"d"} ELSE {})
      [] k = "resolve-dimension-groups" -> good =>
            /\ RangeOf(r.group) = d.dims
            /\ RangeOf(r.groupnp) = (IF r.prereq THEN {"-"} ELSE d.dims)
ResolveVerdict(r) == {k \in Clauses : ~OKClause(r, k)}
=============================================================================
