----------------------------- MODULE MCRunReport -----------------------------
(* All short campaigns of a chain of two tasks: each round makes a graph for a
   new run, with or without skipping what earlier rounds completed, executes it
   with any outcome for each quantum, and the report is made after every round. *)
EXTENDS RunReport, Json
CONSTANTS Emit, Dets, MaxRounds, Outcomes
VARIABLES sc, plan

Tasks == <<"t0", "t1">>
OutDs(t) == IF t = "t0" THEN "a" ELSE "b"
Did(d) == "Cam1//" \o d
QOf(t, d) == [task |-> t, id |-> Did(d),
              outs |-> <<<<OutDs(t), Did(d)>>, <<t \o "_metadata", Did(d)>>, <<t \o "_log", Did(d)>>>>,
              ins |-> IF t = "t0" THEN <<<<"raw", Did(d)>>>> ELSE <<<<"a", Did(d)>>>>]
RunName(n) == "run" \o ToString(n)
Done(t, d) == \E e \in Rng(sc.exist) : e[2] = t \o "_metadata" /\ e[3] = Did(d)
Wanted(skip) == {td \in Rng(Tasks) \X Dets : ~(skip /\ Done(td[1], td[2]))}
Good(o) == o \in {"all", "logless"}
Leaves(run, t, d, o) ==
    {<<run, OutDs(t), Did(d)>> : x \in IF Good(o) THEN {1} ELSE {}}
    \cup {<<run, t \o "_metadata", Did(d)>> : x \in IF Good(o) THEN {1} ELSE {}}
    \cup {<<run, t \o "_log", Did(d)>> : x \in IF o \in {"all", "failed"} THEN {1} ELSE {}}
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seqs(S \ {x})
Init ==
    /\ sc = [graphs |-> <<>>, exist |-> <<>>, colls |-> <<>>, hidden |-> <<>>, curse |-> FALSE, caveats |-> "none",
             meta |-> <<>>, codes |-> <<>>, logs |-> <<>>]
    /\ plan = <<>>
\* the second task cannot run in a graph in which the first one did not finish
Possible(w, out) == \A d \in Dets : ~({"t0", "t1"} \subseteq {td[1] : td \in {x \in w : x[2] = d}}) \/ Good(out["t0"][d]) \/ out["t1"][d] = "none"
Round(skip, out) ==
    LET n == Len(sc.graphs) + 1 w == Wanted(skip) run == RunName(n) IN
    /\ Len(sc.graphs) < MaxRounds /\ w # {} /\ Possible(w, out)
    /\ \A t \in Rng(Tasks), d \in Dets : <<t, d>> \notin w => out[t][d] = "none"
    /\ sc' = [sc EXCEPT !.graphs = Append(@, [run |-> run, quanta |->
                             Seqs({QOf("t0", d) : d \in {x \in Dets : <<"t0", x>> \in w}}) \o Seqs({QOf("t1", d) : d \in {x \in Dets : <<"t1", x>> \in w}})]),
                         !.exist = @ \o Seqs(UNION {Leaves(run, td[1], td[2], out[td[1]][td[2]]) : td \in w})]
    /\ plan' = Append(plan, [dets |-> Seqs(Dets), skip |-> skip, same |-> FALSE, out |-> out])
    /\ (Emit /\ Len(plan') = MaxRounds) => PrintT(<<"@@", ToJson([rounds |-> plan', colls |-> <<>>])>>)
Next == \E skip \in BOOLEAN, out \in [Rng(Tasks) -> [Dets -> Outcomes]] : Round(skip, out)
Spec == Init /\ [][Next]_<<sc, plan>>

Status(s, t, d) == LET r == {q \in Report(s).quanta : q.task = t /\ q.id = Did(d)} IN
                   IF r = {} THEN "UNKNOWN" ELSE (CHOOSE q \in r : TRUE).status
\* success is never claimed without metadata and log of the latest attempt
SuccessIsProven == \A q \in Report(sc).quanta : q.status = "SUCCESSFUL" =>
    /\ FinalRun(q.runs) # 0
    /\ q.runs[FinalRun(q.runs)].status = "SUCCESSFUL"
    /\ Exists(sc, q.runs[FinalRun(q.runs)].run, Meta(Key(q)))
    /\ Exists(sc, q.runs[FinalRun(q.runs)].run, LogOf(Key(q)))
\* a quantum whose success was lost, or whose log was, is flagged for ever
LostIsWonky == \A q \in Report(sc).quanta :
    (\/ \E i \in DOMAIN q.runs : q.runs[i].status = "LOGS_MISSING"
     \/ \E i, j \in DOMAIN q.runs : i < j /\ q.runs[i].status = "SUCCESSFUL" /\ q.runs[j].status # "SUCCESSFUL") => q.status = "WONKY"
\* nothing visible goes unremarked: either its quantum succeeded or it is cursed
NothingBadVisible == LET rep == Report(sc) st == Graphs(sc, Empty, 1) IN \A d \in rep.datasets :
    LET seen == \E r \in d.runs : r[3] IN
    /\ d.status \in {"VISIBLE", "CURSED"} => seen
    /\ (seen /\ st.q[<<d.task, d.qid>>].status # "SUCCESSFUL" /\ ~IsLog(st, <<d.ds, d.id>>)) => d.status = "CURSED"
    /\ (seen /\ st.q[<<d.task, d.qid>>].status = "SUCCESSFUL") => d.status = "VISIBLE"
\* a blocked quantum has a failure to blame
BlockedHasCause == \A q \in Report(sc).quanta : q.status = "BLOCKED" =>
    \E f \in Report(sc).quanta : f.id = q.id /\ \E i \in DOMAIN f.runs : f.runs[i].status = "FAILED"
Accounted == LET rep == Report(sc) IN \A t \in {q.task : q \in rep.quanta} :
    LET l == TaskLine(sc, {q \in rep.quanta : q.task = t}) IN
    l.n_successful + l.n_blocked + l.n_unknown + l.n_failed + l.n_wonky = l.n_expected
Recoveries == \A q \in Report(sc).quanta : q.recovered => \E i \in DOMAIN q.runs : q.runs[i].status \in {"FAILED", "BLOCKED"}
Sound == SuccessIsProven /\ LostIsWonky /\ NothingBadVisible /\ BlockedHasCause /\ Accounted /\ Recoveries
WonkyForever == [][\A t \in Rng(Tasks), d \in Dets : Status(sc, t, d) = "WONKY" => Status(sc', t, d) = "WONKY"]_<<sc, plan>>
=============================================================================
