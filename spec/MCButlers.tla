------------------------------ MODULE MCButlers ------------------------------
(* How a cache that keeps the last dataset of each kind stays true to the store:
   what is put is remembered only after it was stored, a copy is remembered, a
   dataset read in another form is not remembered, and whatever is removed is
   forgotten in every form.  Every short history is checked, and given to the
   real butlers. *)
EXTENDS Butlers, Json
CONSTANTS Emit, Len_, Versions, OnPut, OnGet
VARIABLES store, cache, live, hist

Ds == {"d0", "d1"}
Forms == {"full", "columns"}
Reads == {"full", "columns", "asdict"}
Nobody == [d |-> "", v |-> 0]
\* cache: form -> dataset and version shown; live: versions the caller could still change that the cache shares
Init == /\ store = [d \in Ds |-> 0] /\ cache = [f \in Forms |-> Nobody] /\ live = FALSE /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Put(d, v, fail) ==
    /\ LET ok == ~fail /\ store[d] = 0 IN
       /\ store' = IF ok THEN [store EXCEPT ![d] = v] ELSE store
       /\ cache' = IF ok /\ OnPut THEN [cache EXCEPT !["full"] = [d |-> d, v |-> v]] ELSE cache
    /\ Log([op |-> "put", d |-> d, v |-> v, fail |-> fail, view |-> "full"])
    /\ UNCHANGED live
Form(view) == IF view = "columns" THEN "columns" ELSE "full"
Hit(d, view) == cache[Form(view)].d = d
Shows(d, view) == IF Hit(d, view) THEN cache[Form(view)].v ELSE store[d]
Get(d, view) ==
    /\ cache' = IF ~Hit(d, view) /\ store[d] # 0 /\ OnGet /\ view # "asdict" THEN [cache EXCEPT ![Form(view)] = [d |-> d, v |-> store[d]]] ELSE cache
    /\ Log([op |-> "get", d |-> d, v |-> 0, fail |-> FALSE, view |-> view])
    /\ UNCHANGED <<store, live>>
Spoil == /\ Log([op |-> "spoil", d |-> "d0", v |-> 0, fail |-> FALSE, view |-> "full"])
         /\ UNCHANGED <<store, cache, live>>
Prune(d) ==
    /\ store' = [store EXCEPT ![d] = 0]
    /\ cache' = [f \in Forms |-> IF cache[f].d = d THEN Nobody ELSE cache[f]]
    /\ Log([op |-> "prune", d |-> d, v |-> 0, fail |-> FALSE, view |-> "full"])
    /\ UNCHANGED live
Step == \/ \E d \in Ds, v \in Versions, fail \in BOOLEAN : Put(d, v, fail)
        \/ \E d \in Ds, view \in Reads : Get(d, view)
        \/ Spoil
        \/ \E d \in Ds : Prune(d)
Done == Len(hist) = Len_
NextStep == /\ ~Done /\ Step
            /\ (Emit /\ Len(hist') = Len_ /\ hist'[Len_].op = "get") => PrintT(<<"@@", ToJson(hist')>>)
Spec == Init /\ [][NextStep]_<<store, cache, live, hist>>
\* what the cache would answer is what the store holds
CacheIsTrue == \A d \in Ds, view \in Reads : Shows(d, view) = store[d]
=============================================================================
