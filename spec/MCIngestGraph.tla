---------------------------- MODULE MCIngestGraph ---------------------------
EXTENDS IngestGraph, Json
CONSTANTS ND, MaxCrash, Emitting
VARIABLES file, reg, graph, pc, batch, todo, promised, crashes, ops, hist
mvars == <<file, reg, graph, pc, batch, todo, promised, crashes, ops, hist>>
DS == 1..ND

Init ==
    /\ file = [d \in DS |-> TRUE] /\ graph = "out"
    /\ promised \in BOOLEAN /\ reg = [d \in DS |-> IF promised THEN "none" ELSE "orig"]
    /\ pc = "start" /\ batch \in 1..ND /\ todo = {} /\ crashes = 0 /\ ops = 0 /\ hist = <<>>

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE First(_, _)
First(S, n) == IF S = {} \/ n = 0 THEN {} ELSE LET x == MinOf(S) IN {x} \cup First(S \ {x}, n - 1)

Step == ops' = ops + 1 /\ UNCHANGED <<promised, batch, crashes, hist>>
Start == /\ pc = "start" /\ pc' = IF graph = "in" THEN "clean" ELSE "forget"
         /\ todo' = IF graph = "in" THEN {d \in DS : reg[d] # "graph"} ELSE {d \in DS : reg[d] = "orig"}
         /\ UNCHANGED <<file, reg, graph, promised, batch, crashes, hist, ops>>
Forget == /\ pc = "forget" /\ todo # {} /\ LET b == First(todo, batch) IN
             /\ reg' = [d \in DS |-> IF d \in b THEN "none" ELSE reg[d]] /\ todo' = todo \ b
          /\ UNCHANGED <<file, graph, pc>> /\ Step
Ingest == /\ pc = "forget" /\ todo = {} /\ graph' = "in" /\ pc' = "clean" /\ todo' = {d \in DS : reg[d] # "graph"}
          /\ UNCHANGED <<file, reg>> /\ Step
(* files go one by one *)
Delete == /\ pc = "clean" /\ \E d \in First(todo, batch) : file[d] /\ file' = [file EXCEPT ![d] = FALSE]
          /\ UNCHANGED <<reg, graph, pc, todo>> /\ Step
Reingest == /\ pc = "clean" /\ todo # {} /\ LET b == First(todo, batch) IN
               /\ \A d \in b : ~file[d]
               /\ reg' = [d \in DS |-> IF d \in b THEN "graph" ELSE reg[d]] /\ todo' = todo \ b
            /\ UNCHANGED <<file, graph, pc>> /\ Step
Finish == /\ pc = "clean" /\ todo = {} /\ pc' = "done" /\ hist' = Append(hist, 0)
          /\ UNCHANGED <<file, reg, graph, promised, batch, todo, crashes, ops>>
Crash == /\ pc \notin {"start", "done"} /\ crashes < MaxCrash /\ crashes' = crashes + 1 /\ pc' = "start" /\ todo' = {}
         /\ hist' = Append(hist, ops + 1) /\ ops' = 0
         /\ UNCHANGED <<file, reg, graph, promised, batch>>
Next == Start \/ Forget \/ Ingest \/ Delete \/ Reingest \/ Finish \/ Crash
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Start \/ Forget \/ Ingest \/ Delete \/ Reingest \/ Finish)

Safe == \A d \in DS : Consistent(file[d], reg[d], graph)
Complete == pc = "done" => graph = "in" /\ \A d \in DS : reg[d] = "graph" /\ ~file[d]
Terminates == <>(pc = "done")
Emit == (Emitting /\ pc = "done") => PrintT(<<"@@", ToJson([batch |-> batch, promised |-> promised, crashes |-> hist])>>)
=============================================================================
