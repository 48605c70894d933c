------------------------------ MODULE MCInitRun ------------------------------
(* All short histories of initialising one output run: by a pipeline graph, by
   a quantum graph or by an executor, with changing configurations and software
   versions, datasets lost or removed in between, and crashes. *)
EXTENDS InitRun, Json
CONSTANTS Emit, MaxOps
VARIABLES st, hist, last

P == [tasks |-> <<[label |-> "A", ins |-> <<>>, outs |-> <<"dA">>], [label |-> "B", ins |-> <<[ds |-> "dA"]>>, outs |-> <<"dB">>]>>,
      given |-> <<>>]
ValSets == {<<1, 1>>, <<2, 1>>}
Sys == {[a |-> "1"], [a |-> "1", b |-> "1"], [a |-> "2"]}
Start == [run |-> Empty, pk |-> [on |-> FALSE, s |-> FALSE, m |-> Empty]]
Ev(op, way, ex, skip, si, sp, cr, vals, sys) ==
    [op |-> op, way |-> way, existing |-> ex, skip |-> skip, saveinit |-> si, savepack |-> sp, crash |-> cr,
     vals |-> [l \in {"A", "B"} |-> IF l = "A" THEN vals[1] ELSE vals[2]], sys |-> sys, v |-> vals]
Ops(vals, sys) ==
    {Ev(op, "pg", TRUE, FALSE, TRUE, TRUE, cr, vals, sys) : op \in {"init", "configs", "packages", "outputs"}, cr \in {0, 2}}
    \cup {Ev(op, "pred", ex, FALSE, TRUE, TRUE, cr, vals, sys) : op \in {"init", "configs", "packages", "outputs"}, ex \in BOOLEAN, cr \in {0, 4}}
    \cup {Ev("init", "exec", TRUE, skip, si, sp, 0, vals, sys) : skip \in BOOLEAN, si \in BOOLEAN, sp \in BOOLEAN}
\* a crash leaves some of the writes of the interrupted stage
Cuts(r) == IF r.cut.pkw THEN {[r.st EXCEPT !.pk.on = FALSE]}
           ELSE {[r.st EXCEPT !.run = [n \in S |-> [c |-> r.cut.w[n], s |-> TRUE]] @@ r.st.run] : S \in {S \in SUBSET DOMAIN r.cut.w : Cardinality(S) = r.left}}
Do(e) == LET r == Result(P, st, e) IN
    /\ \E s \in (IF r.err = {"Broken"} THEN Cuts(r) ELSE {r.st}) : st' = s
    /\ last' = [e |-> e, err |-> r.err, before |-> st]
    /\ hist' = Append(hist, [op |-> e.op, way |-> e.way, existing |-> e.existing, skip |-> e.skip, saveinit |-> e.saveinit,
                             savepack |-> e.savepack, crash |-> e.crash, vals |-> e.v, sys |-> e.sys, what |-> "", purge |-> FALSE])
Name(w) == CASE w = "cfg" -> "cfg:A" [] w = "out" -> "dA"
Edit(w, purge) ==
    /\ IF w = "pk" THEN st.pk.on /\ st' = [st EXCEPT !.pk = IF purge THEN Start.pk ELSE [st.pk EXCEPT !.s = FALSE]]
       ELSE Has(st, Name(w)) /\ st' = [st EXCEPT !.run = IF purge THEN Without(st.run, {Name(w)}) ELSE [st.run EXCEPT ![Name(w)].s = FALSE]]
    /\ last' = [e |-> [op |-> "edit"], err |-> {}, before |-> st]
    /\ hist' = Append(hist, [op |-> "edit", way |-> "pg", existing |-> TRUE, skip |-> FALSE, saveinit |-> TRUE, savepack |-> TRUE, crash |-> 0,
                             vals |-> <<1, 1>>, sys |-> [a |-> "1"], what |-> w, purge |-> purge])
First_ == Ev("init", "pg", TRUE, FALSE, TRUE, TRUE, 0, <<1, 1>>, [a |-> "1"])
Plain == [op |-> "init", way |-> "pg", existing |-> TRUE, skip |-> FALSE, saveinit |-> TRUE, savepack |-> TRUE, crash |-> 0,
          vals |-> <<1, 1>>, sys |-> [a |-> "1"], what |-> "", purge |-> FALSE]
\* a run that is new, or that was initialised before
Init == /\ last = [e |-> [op |-> "edit"], err |-> {}, before |-> Start]
        /\ \/ st = Start /\ hist = <<>>
           \/ st = Result(P, Start, First_).st /\ hist = <<Plain>>
Limit(h) == IF h # <<>> /\ h[1] = Plain THEN MaxOps + 1 ELSE MaxOps
Next == /\ Len(hist) < Limit(hist)
        /\ \/ \E v \in ValSets, y \in Sys : \E e \in Ops(v, y) : Do(e)
           \/ \E w \in {"cfg", "out", "pk"}, purge \in BOOLEAN : Edit(w, purge)
        /\ (Emit /\ Len(hist') = Limit(hist')) => PrintT(<<"@@", ToJson(hist')>>)
Spec == Init /\ [][Next]_<<st, hist, last>>
\* nothing that is stored is ever replaced, except that software versions grow
Kept == last.e.op # "edit" =>
    /\ \A n \in DOMAIN last.before.run : Held(last.before, n) => Held(st, n) /\ st.run[n].c = last.before.run[n].c
    /\ last.before.pk.on /\ last.before.pk.s /\ st.pk.on => st.pk.s /\ \A k \in DOMAIN last.before.pk.m : st.pk.m[k] = last.before.pk.m[k]
\* after a complete initialisation the run holds everything, with these configurations and versions
Complete == (last.e.op = "init" /\ last.err = {} /\ (last.e.way # "exec" \/ (last.e.saveinit /\ last.e.savepack))) =>
    /\ \A l \in {"A", "B"} : Held(st, Cfg(l)) /\ st.run[Cfg(l)].c = ToString(last.e.vals[l])
    /\ Held(st, "dA") /\ Held(st, "dB") /\ st.pk.on /\ st.pk.s /\ \A k \in DOMAIN last.e.sys : st.pk.m[k] = last.e.sys[k]
=============================================================================
