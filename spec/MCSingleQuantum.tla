-------------------------- MODULE MCSingleQuantum --------------------------
EXTENDS SingleQuantum, Json
CONSTANTS MaxAttempts, Gen
VARIABLES st, hist, last
vars == <<st, hist, last>>
Outs == {"o1", "o2"}
WriteSeqs == {<<>>, <<"o1">>, <<"o2">>, <<"o1", "o2">>}
Attempts == [skip : BOOLEAN, clobber : BOOLEAN, assume : {FALSE}, raisepartial : BOOLEAN,
             inputs : {"ok", "some", "few", "noprereq"}, initfail : {FALSE, TRUE},
             writes : WriteSeqs, ending : {"ok", "nowork", "partial", "error"}, crash : IF Gen THEN 0..4 ELSE 0..1]
\* irrelevant fields are normalised so that each behaviour is visited once
Normal(a) == /\ (a.inputs \in {"few", "noprereq"} => ~a.initfail /\ a.writes = <<>> /\ a.ending = "ok" /\ a.raisepartial)
             /\ (a.initfail => a.writes = <<>> /\ a.ending = "ok" /\ a.raisepartial /\ a.inputs = "ok")
             /\ (a.ending # "partial" => a.raisepartial)
             /\ (a.ending = "ok" => (Gen \/ a.writes # <<>>))
NormalAttempts == {a \in Attempts : Normal(a)}
Init == /\ \E hl \in BOOLEAN : st = SInit(Outs, hl)
        /\ hist = <<>> /\ last = "none"
\* (constant-level, so that the huge product is filtered once)
Next == /\ st.n < MaxAttempts
        /\ \E a \in NormalAttempts : \E p \in Attempt(st, a) :
             st' = p.st /\ last' = p.res /\ hist' = IF Gen THEN Append(hist, a) ELSE hist
GenNext == /\ st.n < MaxAttempts
           /\ LET a == RandomElement(NormalAttempts) IN \E p \in Attempt(st, a) :
                st' = p.st /\ last' = p.res /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_vars
NoMixingInv == NoMixing(st)
OneAttemptInv == OutputsOneAttempt(st)
\* metadata is stored by an attempt exactly if it succeeded
MetaIffSuccess == [][(last' \in {"ok", "adjusted"} => st'.store["meta"] = st'.n)
                     /\ (last' \notin {"ok", "adjusted", "skipped", "RuntimeError", "crash"} => st'.store["meta"] = 0)]_vars
\* a skipped or refused attempt changes nothing
SkipIsNoop == [][last' \in {"skipped", "RuntimeError"} => st'.store = st.store /\ st'.log = st.log]_vars
\* without a crash no attempt is ever lost from the history
HistoryGrows == [][(last' \notin {"skipped", "RuntimeError", "crash"} /\ st.hasLog)
                    => st'.log # <<>> /\ Len(st'.log) = Len(st.log) + 1 /\ IsPrefix(st.log, st'.log)]_vars
Emit == (Gen /\ st.n = MaxAttempts) => PrintT(<<"@@", ToJson([hasLog |-> st.hasLog, attempts |-> hist])>>)
==========================================================================
