------------------------------- MODULE Butlers -------------------------------
(* What the butlers that wrap another one promise.

   A caching butler cannot be told from the butler it wraps: whatever was put,
   read, changed in memory, removed or refused before, an operation gives what
   the wrapped butler would give.

   A blocking butler waits for datasets that are not there yet, for as long as
   their types are configured to be waited for, and no longer. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}

\* ------------------------------------------------------------- the store
\* store: dataset -> version, 0 if there is none
Outcome(store, e) ==
    CASE e.op = "put" -> IF e.fail THEN "broken" ELSE IF store[e.d] # 0 THEN "conflict" ELSE "ok"
      [] e.op = "get" -> IF store[e.d] = 0 THEN IF e.fail THEN "broken-or-missing" ELSE "missing" ELSE IF e.fail THEN "broken-or-ok" ELSE "ok"
      [] OTHER -> "ok"
Next(store, e) ==
    IF e.op = "put" /\ Outcome(store, e) = "ok" THEN [store EXCEPT ![e.d] = e.v]
    ELSE IF e.op = "prune" THEN [store EXCEPT ![e.d] = 0]
    ELSE store
Agrees(store, e) ==
    LET o == Outcome(store, e) IN
    CASE o = "ok" -> /\ e.ok
                     /\ e.op = "get" => e.got = store[e.d]
                     /\ e.op = "stored" => e.got = Len(e.asked) /\ Rng(e.set) = {d \in Rng(e.asked) : store[d] # 0}
      [] o = "broken-or-ok" -> IF e.ok THEN e.got = store[e.d] ELSE "Broken" \in Rng(e.err)
      [] o = "broken" -> ~e.ok /\ "Broken" \in Rng(e.err)
      [] o = "conflict" -> ~e.ok /\ "ConflictingDefinitionError" \in Rng(e.err)
      [] o = "missing" -> ~e.ok /\ {"FileNotFoundError", "LookupError"} \cap Rng(e.err) # {}
      [] o = "broken-or-missing" -> ~e.ok
Clause(e) == CASE e.op = "get" -> IF e.ok THEN "wrong-content" ELSE "get-failed"
               [] e.op = "put" -> "wrong-put" [] e.op = "stored" -> "wrong-existence" [] OTHER -> "wrong-outcome"
RECURSIVE Check(_, _, _)
Check(store, es, i) ==
    IF i > Len(es) THEN {}
    ELSE (IF Agrees(store, es[i]) THEN {} ELSE {Clause(es[i])}) \cup Check(Next(store, es[i]), es, i + 1)

\* --------------------------------------------------------------- waiting
\* at: when a dataset arrives; wait: how long to wait, negative if for ever; in tenths of seconds
Slack == 12
Found(t) == t.at <= 0 \/ t.wait < 0 \/ t.at < t.wait
Until(t) == IF t.at <= 0 THEN 0 ELSE IF Found(t) THEN t.at ELSE t.wait
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Waited(took, t) == took >= t - 1 /\ took <= t + Slack
Blocking(r) ==
    LET t == r.things[r.d] IN
    CASE r.op = "get" ->
           (IF r.ok # Found(t) \/ (r.ok /\ r.got # 3) \/ (~r.ok /\ "FileNotFoundError" \notin Rng(r.err)) THEN {"wrong-result-of-wait"} ELSE {})
           \cup (IF ~Waited(r.took, Until(t)) THEN {"wrong-wait"} ELSE {})
      [] r.op = "stored" ->
           \* datasets not waited for may or may not be noticed while waiting for others
           (IF ~r.ok \/ r.got # Len(r.asked)
               \/ (\E d \in Rng(r.asked) : Found(r.things[d]) /\ d \notin Rng(r.set))
               \/ \E d \in Rng(r.set) : r.things[d].at > r.took
            THEN {"wrong-result-of-wait"} ELSE {})
           \cup (IF ~Waited(r.took, MaxOf({Until(r.things[d]) : d \in Rng(r.asked)})) THEN {"wrong-wait"} ELSE {})
      [] r.op = "deferred" ->
           \* may refuse a dataset that is not there, but does not wait for it
           IF r.took > Slack \/ (t.at <= 0 /\ ~r.ok) THEN {"wrong-wait"} ELSE {}
Verdict(rec) ==
    IF rec.kind = "blocking" THEN Blocking(rec)
    ELSE Check([d \in DOMAIN rec.things |-> 0], rec.events, 1)
=============================================================================
