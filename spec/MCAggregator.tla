---------------------------- MODULE MCAggregator ----------------------------
(* The protocol between the aggregator's supervisor and workers, with      *)
(* failures.  Messages of one sender stay in order on each queue; those of *)
(* different senders can overtake each other (as with processes).          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N, NS, Batch, Train, MaxRaise, MaxDie, MaxIntr, Emitting

Quanta == 1..N
Scanners == {"scanner-00" \o ToString(i - 1) : i \in 1..NS}
Workers == Scanners \cup {"writer", "ingester"}
Actors == Workers \cup {"supervisor"}
Queues == {"scan", "ing", "wri", "rep"}
End == <<"end", 0>>

VARIABLES pred, outc, net, phase, failing, raised, ready, fin, failed, blk, toldscan, cancel, pc, cur, got,
          nend, pend, ingested, written, succ, faults, hist
vars == <<pred, outc, net, phase, failing, raised, ready, fin, failed, blk, toldscan, cancel, pc, cur, got, nend, pend,
          ingested, written, succ, faults, hist>>

Dags == {p \in [Quanta -> SUBSET Quanta] : \A q \in Quanta : \A x \in p[q] : x < q}
RECURSIVE Desc(_)
Desc(s) == LET t == s \cup {q \in Quanta : pred[q] \cap s # {}} IN IF t = s THEN s ELSE Desc(t)

Init ==
    /\ pred \in Dags /\ outc \in [Quanta -> {"ok", "fail"}]
    /\ net = [k \in Queues |-> [a \in Actors |-> <<>>]]
    /\ phase = "loop" /\ failing = FALSE /\ raised = FALSE
    /\ ready = {} /\ fin = {} /\ failed = {} /\ blk = {} /\ toldscan = FALSE /\ cancel = FALSE
    /\ pc = [w \in Workers |-> "poll"] /\ cur = [s \in Scanners |-> 0] /\ got = [s \in Scanners |-> FALSE]
    /\ nend = [w \in {"writer", "ingester"} |-> 0] /\ pend = [w \in {"writer", "ingester"} |-> {}]
    /\ ingested = <<>> /\ written = <<>> /\ succ = {} /\ faults = <<0, 0, 0>> /\ hist = <<>>

Note(a) == hist' = IF Emitting THEN Append(hist, a) ELSE hist

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})

Rep(n, x) == [i \in 1..n |-> x]
Put(nt, k, a, ms) == [nt EXCEPT ![k][a] = @ \o ms]
Heads(k) == {a \in Actors : net[k][a] # <<>>}
Take(k, a) == [net EXCEPT ![k][a] = Tail(@)]

(* ---- supervisor *)
Pending == {q \in Quanta : pred[q] \subseteq fin} \ (ready \cup fin \cup failed \cup blk)
SupSend == /\ phase = "loop" /\ Pending # {}
           /\ \E q \in Pending : /\ ready' = ready \cup {q}
                                 /\ net' = Put(net, "scan", "supervisor", <<<<"q", q>>>>)
           /\ Note("supervisor")
           /\ UNCHANGED <<pred, outc, phase, failing, raised, fin, failed, blk, toldscan, cancel, pc, cur, got, nend,
                          pend, ingested, written, succ, faults>>

SupRecv ==
    /\ phase = "loop" /\ Pending = {}
    /\ \E a \in Heads("rep") :
         LET m == Head(net["rep"][a]) IN
         CASE m[1] = "scan" /\ outc[m[2]] = "ok" ->
                /\ fin' = fin \cup {m[2]} /\ net' = Take("rep", a)
                /\ UNCHANGED <<phase, failing, raised, failed, blk, cancel>>
           [] m[1] = "scan" /\ outc[m[2]] = "fail" ->
                LET b == Desc({m[2]}) \ ({m[2]} \cup blk) IN
                /\ failed' = failed \cup {m[2]} /\ blk' = blk \cup b
                /\ net' = Put(Take("rep", a), "wri", "supervisor", [i \in 1..Cardinality(b) |-> <<"q", SetSeq(b)[i]>>])
                /\ UNCHANGED <<phase, failing, raised, fin, cancel>>
           [] m[1] = "error" ->
                /\ phase' = "wait" /\ failing' = TRUE /\ raised' = TRUE /\ cancel' = TRUE /\ net' = Take("rep", a)
                /\ UNCHANGED <<fin, failed, blk>>
           [] OTHER -> net' = Take("rep", a) /\ UNCHANGED <<phase, failing, raised, fin, failed, blk, cancel>>
    /\ Note("supervisor")
    /\ UNCHANGED <<pred, outc, ready, toldscan, pc, cur, got, nend, pend, ingested, written, succ, faults>>

SupStop == /\ phase = "loop" /\ fin \cup failed \cup blk = Quanta /\ phase' = "wait" /\ Note("supervisor")
           /\ UNCHANGED <<pred, outc, net, failing, raised, ready, fin, failed, blk, toldscan, cancel, pc, cur, got,
                          nend, pend, ingested, written, succ, faults>>

SupTell == /\ phase = "wait" /\ ~toldscan /\ toldscan' = TRUE
           /\ net' = Put(Put(net, "scan", "supervisor", Rep(NS, End)), "wri", "supervisor", <<End>>)
           /\ Note("supervisor")
           /\ UNCHANGED <<pred, outc, phase, failing, raised, ready, fin, failed, blk, cancel, pc, cur, got, nend, pend,
                          ingested, written, succ, faults>>

SupWait ==
    /\ phase = "wait" /\ toldscan
    /\ \E a \in Heads("rep") :
         LET m == Head(net["rep"][a]) IN
         /\ net' = Take("rep", a)
         /\ succ' = IF m[1] = "done" THEN succ \cup {a} ELSE succ
         /\ failing' = (failing \/ m[1] = "error") /\ raised' = (raised \/ m[1] = "error")
         /\ cancel' = (cancel \/ m[1] = "error")
    /\ Note("supervisor")
    /\ UNCHANGED <<pred, outc, phase, ready, fin, failed, blk, toldscan, pc, cur, got, nend, pend, ingested, written, faults>>

SupEnd == /\ phase = "wait" /\ succ = Workers /\ phase' = "end" /\ Note("supervisor")
          /\ UNCHANGED <<pred, outc, net, failing, raised, ready, fin, failed, blk, toldscan, cancel, pc, cur, got, nend,
                         pend, ingested, written, succ, faults>>

(* A worker is gone although it never said it was done. *)
SupDead == /\ phase \in {"loop", "wait"} /\ (phase = "loop" => Pending = {})
           /\ \E w \in Workers \ succ : pc[w] \in {"dead", "done"} /\ net["rep"][w] = <<>>
           /\ phase' = "end" /\ raised' = TRUE /\ failing' = TRUE /\ cancel' = TRUE
           /\ pc' = [w \in Workers |-> IF pc[w] = "done" THEN "done" ELSE "killed"]
           /\ Note("supervisor")
           /\ UNCHANGED <<pred, outc, net, ready, fin, failed, blk, toldscan, cur, got, nend, pend, ingested, written,
                          succ, faults>>

(* The user interrupts the supervisor. *)
SupIntr == /\ phase = "loop" /\ faults[3] < MaxIntr /\ faults' = [faults EXCEPT ![3] = @ + 1]
           /\ phase' = "wait" /\ failing' = TRUE /\ raised' = TRUE /\ cancel' = TRUE /\ Note("supervisor")
           /\ UNCHANGED <<pred, outc, net, ready, fin, failed, blk, toldscan, pc, cur, got, nend, pend, ingested,
                          written, succ>>

(* ---- scanners *)
ScanStep(s) ==
    /\ Note(s)
    /\ UNCHANGED <<pred, outc, phase, failing, raised, ready, fin, failed, blk, toldscan, cancel, nend, pend, ingested,
                   written, succ, faults>>
    /\ \/ /\ pc[s] = "poll" /\ cancel /\ pc' = [pc EXCEPT ![s] = "exit"] /\ UNCHANGED <<net, cur, got>>
       \/ /\ pc[s] = "poll" /\ ~cancel
          /\ \E a \in Heads("scan") :
               LET m == Head(net["scan"][a]) IN
               /\ net' = Take("scan", a)
               /\ IF m = End THEN /\ got' = [got EXCEPT ![s] = TRUE] /\ pc' = [pc EXCEPT ![s] = "exit"] /\ UNCHANGED cur
                  ELSE /\ cur' = [cur EXCEPT ![s] = m[2]] /\ pc' = [pc EXCEPT ![s] = "write"] /\ UNCHANGED got
       \/ /\ pc[s] = "write" /\ net' = Put(net, "wri", s, <<<<"q", cur[s]>>>>) /\ pc' = [pc EXCEPT ![s] = "ingest"]
          /\ UNCHANGED <<cur, got>>
       \/ /\ pc[s] = "ingest" /\ net' = Put(net, "ing", s, <<<<"q", cur[s]>>>>) /\ pc' = [pc EXCEPT ![s] = "report"]
          /\ UNCHANGED <<cur, got>>
       \/ /\ pc[s] = "report" /\ net' = Put(net, "rep", s, <<<<"scan", cur[s]>>>>) /\ pc' = [pc EXCEPT ![s] = "poll"]
          /\ UNCHANGED <<cur, got>>
       \/ /\ pc[s] = "exit" /\ net' = Put(Put(net, "ing", s, <<End>>), "wri", s, <<End>>)
          /\ pc' = [pc EXCEPT ![s] = "drain"] /\ UNCHANGED <<cur, got>>
       \/ /\ pc[s] = "drain" /\ ~got[s]
          /\ \E a \in Heads("scan") : /\ net' = Take("scan", a)
                                      /\ got' = [got EXCEPT ![s] = Head(net["scan"][a]) = End]
          /\ UNCHANGED <<pc, cur>>
       \/ /\ pc[s] = "drain" /\ got[s] /\ net' = Put(net, "rep", s, <<<<"done", 0>>>>)
          /\ pc' = [pc EXCEPT ![s] = "done"] /\ UNCHANGED <<cur, got>>

(* ---- the two collecting workers *)
Need(w) == IF w = "writer" THEN NS + 1 ELSE NS
Inbox(w) == IF w = "writer" THEN "wri" ELSE "ing"
Full(w, S) == IF w = "writer" THEN Cardinality(S) >= Train ELSE Cardinality(S) > Batch
Store(w, S) == IF w = "writer" THEN written' = written \o SetSeq(S) /\ UNCHANGED ingested
               ELSE ingested' = ingested \o SetSeq(S) /\ UNCHANGED written

CollectStep(w) ==
    /\ Note(w)
    /\ UNCHANGED <<pred, outc, phase, failing, raised, ready, fin, failed, blk, toldscan, cancel, cur, got, succ, faults>>
    /\ \/ /\ pc[w] = "poll" /\ cancel /\ pc' = [pc EXCEPT ![w] = "drain"]
          /\ UNCHANGED <<net, nend, pend, ingested, written>>
       \/ /\ pc[w] = "poll" /\ ~cancel
          /\ \E a \in Heads(Inbox(w)) :
               LET m == Head(net[Inbox(w)][a]) IN
               /\ net' = Take(Inbox(w), a)
               /\ IF m = End
                  THEN /\ nend' = [nend EXCEPT ![w] = @ + 1]
                       /\ pc' = [pc EXCEPT ![w] = IF nend'[w] = Need(w) THEN "final" ELSE "poll"]
                       /\ UNCHANGED <<pend, ingested, written>>
                  ELSE LET S == pend[w] \cup {m[2]} IN
                       /\ IF Full(w, S) THEN Store(w, S) /\ pend' = [pend EXCEPT ![w] = {}]
                          ELSE pend' = [pend EXCEPT ![w] = S] /\ UNCHANGED <<ingested, written>>
                       /\ UNCHANGED <<nend, pc>>
       \/ /\ pc[w] = "final" /\ Store(w, pend[w]) /\ pend' = [pend EXCEPT ![w] = {}]
          /\ pc' = [pc EXCEPT ![w] = "drain"] /\ UNCHANGED <<net, nend>>
       \/ /\ pc[w] = "drain" /\ nend[w] < Need(w)
          /\ \E a \in Heads(Inbox(w)) :
               /\ net' = Take(Inbox(w), a)
               /\ nend' = [nend EXCEPT ![w] = IF Head(net[Inbox(w)][a]) = End THEN @ + 1 ELSE @]
          /\ UNCHANGED <<pc, pend, ingested, written>>
       \/ /\ pc[w] = "drain" /\ nend[w] = Need(w) /\ net' = Put(net, "rep", w, <<<<"done", 0>>>>)
          /\ pc' = [pc EXCEPT ![w] = "done"] /\ UNCHANGED <<nend, pend, ingested, written>>

(* ---- failures of workers *)
Raise(w) == /\ faults[1] < MaxRaise /\ faults' = [faults EXCEPT ![1] = @ + 1]
            /\ pc[w] \in {"poll", "write", "ingest", "report", "final"}
            /\ net' = Put(net, "rep", w, <<<<"error", 0>>>>)
            /\ pc' = [pc EXCEPT ![w] = IF w \in Scanners THEN "exit" ELSE "drain"]
            /\ Note(w)
            /\ UNCHANGED <<pred, outc, phase, failing, raised, ready, fin, failed, blk, toldscan, cancel, cur, got, nend,
                           pend, ingested, written, succ>>
Die(w) == /\ faults[2] < MaxDie /\ faults' = [faults EXCEPT ![2] = @ + 1]
          /\ pc[w] \notin {"done", "dead", "killed"} /\ phase # "end" /\ pc' = [pc EXCEPT ![w] = "dead"]
          /\ Note(w)
          /\ UNCHANGED <<pred, outc, net, phase, failing, raised, ready, fin, failed, blk, toldscan, cancel, cur, got,
                         nend, pend, ingested, written, succ>>

Sup == SupSend \/ SupRecv \/ SupStop \/ SupTell \/ SupWait \/ SupEnd \/ SupDead
Finished == phase = "end" /\ (\A w \in Workers : pc[w] \in {"done", "dead", "killed"}) /\ UNCHANGED vars
Next == \/ Sup \/ SupIntr
        \/ \E s \in Scanners : ScanStep(s)
        \/ \E w \in {"writer", "ingester"} : CollectStep(w)
        \/ \E w \in Workers : Raise(w) \/ Die(w)
        \/ Finished
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Sup) /\ (\A s \in Scanners : WF_vars(ScanStep(s)))
        /\ (\A w \in {"writer", "ingester"} : WF_vars(CollectStep(w)))

Clean == faults = <<0, 0, 0>>
NoDup(sq) == \A i, j \in 1..Len(sq) : i # j => sq[i] # sq[j]
Elems(sq) == {sq[i] : i \in 1..Len(sq)}

Complete == (phase = "end" /\ Clean) =>
                /\ ~raised
                /\ Elems(written) = Quanta
                /\ Elems(ingested) = fin \cup failed
                /\ failed = {q \in Quanta : outc[q] = "fail" /\ q \notin blk}
                /\ blk = Desc(failed) \ failed
                /\ \A k \in Queues : \A a \in Actors : net[k][a] = <<>>
Once == NoDup(written) /\ NoDup(ingested)
Truthful == /\ (phase = "end" /\ ~raised) => (Clean \/ (Elems(written) = Quanta /\ Elems(ingested) = fin \cup failed))
            /\ raised => ~Clean
            /\ Elems(ingested) \subseteq (ready \cup fin \cup failed)
NoneLeft == phase = "end" => \A w \in Workers : pc[w] \in {"done", "dead", "killed"}
Terminates == <>(phase = "end")

Emit == (Emitting /\ phase = "end") => PrintT(<<"@@", ToJson(hist)>>)
=============================================================================
