--------------------------- MODULE MCMultiblock ---------------------------
(* The paged binary search itself, one probe per step, for every key set,   *)
(* page size and sequence of lookups; and generation of lookup histories.   *)
EXTENDS Multiblock, Json
CONSTANTS MaxKey, MaxOps, Emitting
VARIABLES keys, rpp, read, left, right, target, outcome, ops, mode
vars == <<keys, rpp, read, left, right, target, outcome, ops, mode>>

sorted == SortedSeq(keys)
pages == NPages(Cardinality(keys), rpp)
Rows == UNION {PageRows(sorted, rpp, p) : p \in read}

Init == /\ keys \in SUBSET (0..MaxKey) /\ rpp \in 1..3
        /\ read = {} /\ left = 0 /\ right = 0 /\ target = 0 /\ outcome = "none" /\ ops = <<>> /\ mode = "idle"

Start(k) == /\ mode = "idle" /\ Len(ops) < MaxOps
            /\ target' = k /\ left' = 0 /\ right' = pages - 1 /\ outcome' = "none" /\ mode' = "search"
            /\ UNCHANGED <<keys, rpp, read, ops>>
End(o) == /\ mode' = "idle" /\ outcome' = o /\ ops' = Append(ops, [op |-> "find", k |-> target])
Probe == /\ mode = "search"
         /\ IF target \in Rows THEN End("found") /\ UNCHANGED <<keys, rpp, read, left, right, target>>
            ELSE IF left > right THEN End("missing") /\ UNCHANGED <<keys, rpp, read, left, right, target>>
            ELSE LET mid == left + ((right - left) \div 2) IN
                 /\ read' = read \cup {mid}
                 /\ IF target \in PageRows(sorted, rpp, mid)
                    THEN End("found") /\ UNCHANGED <<keys, rpp, left, right, target>>
                    ELSE IF target < PageFirst(sorted, rpp, mid)
                    THEN right' = mid - 1 /\ UNCHANGED <<keys, rpp, left, target, outcome, ops, mode>>
                    ELSE IF target > PageLast(sorted, rpp, mid)
                    THEN left' = mid + 1 /\ UNCHANGED <<keys, rpp, right, target, outcome, ops, mode>>
                    ELSE End("missing") /\ UNCHANGED <<keys, rpp, left, right, target>>
ReadAll == /\ mode = "idle" /\ Len(ops) < MaxOps
           /\ read' = 0..(pages - 1) /\ ops' = Append(ops, [op |-> "all", k |-> 0]) /\ outcome' = "none"
           /\ UNCHANGED <<keys, rpp, left, right, target, mode>>
Next == (\E k \in 0..MaxKey : Start(k)) \/ Probe \/ ReadAll
Spec == Init /\ [][Next]_vars /\ WF_vars(Probe)

Correct == outcome # "none" => (outcome = "found") = (target \in keys)
\* a lookup reads at most one page per halving of the remaining pages
Answers == (mode = "search") ~> (mode = "idle")
Emit == (Emitting /\ mode = "idle" /\ Len(ops) = MaxOps)
           => PrintT(<<"@@", ToJson([keys |-> sorted, rpp |-> rpp, ops |-> ops])>>)
===========================================================================
