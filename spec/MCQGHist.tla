------------------------------ MODULE MCQGHist ------------------------------
(* Histories of builds, partial executions, clean-ups and rebuilds over a small
   pipeline.  Design-level guarantees of skip-existing and retention; every
   (repository state, options) pair reached is also printed for replay. *)
EXTENDS QGBuild, Json
CONSTANTS MaxRounds, MaxRuns, Shape, Emit

CI == "Cam1"
D1 == "1"
D2 == "2"
Univ == <<<<CI, "Cam1-G", D1>>, <<CI, "Cam1-G", D2>>>>
Det == <<"instrument", "detector">>
Ins == <<"instrument">>
T(l, dims, ins, outs) == [label |-> l, dims |-> dims, ins |-> ins, pre |-> <<>>, outs |-> outs, initin |-> <<>>,
                          initout |-> <<>>, nowork |-> <<>>, dropout |-> <<>>, dropin |-> <<>>]
E1(ds) == [ds |-> ds, min |-> 1]
Pipeline == CASE Shape = "chain" -> <<T("ta", Det, <<E1("r")>>, <<"a">>), T("tb", Det, <<E1("a")>>, <<"b">>),
                                      T("tc", Ins, <<E1("b")>>, <<"c">>)>>
              [] Shape = "vee" -> <<T("ta", Det, <<E1("r")>>, <<"a", "b">>), T("tb", Det, <<E1("a")>>, <<"c">>),
                                    T("tc", Det, <<E1("b"), E1("c")>>, <<"d">>)>>
Names == IF Shape = "chain" THEN {"r", "a", "b", "c"} ELSE {"r", "a", "b", "c", "d"}
DsDims == [n \in Names \cup {l \o s : l \in {"ta", "tb", "tc"}, s \in {"_metadata", "_log", "_config"}} |->
              CASE n \in {"ta_config", "tb_config", "tc_config"} -> <<>>
                [] Shape = "chain" /\ n \in {"c", "tc_metadata", "tc_log"} -> Ins
                [] OTHER -> Det]

VARIABLES store, nruns, round, plan, opts, out
vars == <<store, nruns, round, plan, opts, out>>
RunName(k) == "run" \o ToString(k)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
SkipPath(n) == [i \in 1..n |-> RunName(n + 1 - i)]
Scen(o) == [tasks |-> Pipeline, dsdims |-> DsDims, univ |-> Univ, where |-> Univ, cons |-> <<"r">>, list |-> FALSE,
            store |-> SetSeq(store), incolls |-> <<"in">>, skipin |-> o.skipin, outrun |-> o.outrun,
            outexists |-> o.outexists, clobber |-> o.clobber, retain_on |-> o.retain_on, retained |-> o.retained,
            prune |-> <<>>]
NoOpts == [skipin |-> <<>>, outrun |-> "", outexists |-> FALSE, clobber |-> FALSE, retain_on |-> FALSE, retained |-> <<>>]

Init == /\ store = {[run |-> "in", ds |-> "r", id |-> <<CI, "", d>>] : d \in {D1, D2}}
        /\ nruns = 0 /\ round = 0 /\ plan = {} /\ opts = NoOpts /\ out = "idle"

Build(new, skip, clob, ret) ==
    /\ round < MaxRounds
    /\ new \/ nruns > 0
    /\ new => nruns < MaxRuns
    /\ LET n == IF new THEN nruns + 1 ELSE nruns
           o == [skipin |-> IF skip THEN SkipPath(nruns) ELSE <<>>, outrun |-> RunName(n),
                 outexists |-> ~new, clobber |-> clob, retain_on |-> ret /\ skip /\ nruns > 0,
                 retained |-> IF ret /\ skip /\ nruns > 0 THEN <<"b">> ELSE <<>>]
           ex == Expected(Scen(o))
       IN /\ opts' = o
          /\ nruns' = IF ex.err = {} THEN n ELSE nruns
          /\ plan' = ex.kept
          /\ out' = IF ex.err = {} THEN "built" ELSE "refused"
          /\ store' = IF ex.err = {} /\ ex.kept # {}
                      THEN store \cup {[run |-> RunName(n), ds |-> CfgName(Pipeline[i]), id |-> NoId] :
                                          i \in {k.t : k \in ex.kept}}
                      ELSE store
          /\ round' = round + 1
          /\ (Emit => PrintT(<<"@@", ToJson(Scen(o))>>))

Existing(n) == \E e \in store : e.ds = n[1] /\ e.id = n[2]
\* one quantum runs: succeeds, or crashes having written any part of its regular outputs
Ready(k) == \A n \in k.ins : Existing(n)
Ent(n) == [run |-> opts.outrun, ds |-> n[1], id |-> n[2]]
Clear(k) == {e \in store : ~\E n \in k.outs : e = Ent(n)}
Exec(k, ok) ==
    /\ out = "built" /\ k \in plan /\ Ready(k)
    /\ \E part \in SUBSET {n \in k.outs : n[1] \in Rng(Pipeline[k.t].outs)} :
         /\ ok => part = {n \in k.outs : n[1] \in Rng(Pipeline[k.t].outs)}
         /\ store' = Clear(k) \cup {Ent(n) : n \in part}
                     \cup (IF ok THEN {Ent(n) : n \in {m \in k.outs : m[1] \in {Meta(Pipeline[k.t]), LogName(Pipeline[k.t])}}}
                           ELSE {})
    /\ plan' = IF ok THEN plan \ {k} ELSE plan \ Down(plan, {k})
    /\ UNCHANGED <<nruns, round, opts, out>>
\* between rounds the user may remove a dataset type that is not retained
Trim == /\ store' = {e \in store : e.ds # "a"} /\ store' # store
        /\ plan' = {} /\ out' = "idle" /\ UNCHANGED <<nruns, round, opts>>
Next == \/ \E n, s, c, r \in BOOLEAN : Build(n, s, c, r)
        \/ \E k \in plan, ok \in BOOLEAN : Exec(k, ok)
        \/ Trim
Spec == Init /\ [][Next]_vars

Fresh == out = "built" /\ ENABLED Next
DoneId(l, id) == \E e \in store : e.ds = l \o "_metadata" /\ e.id = id /\ e.run \in Rng(opts.skipin)
\* a graph never contains a quantum whose input nobody has or will make
NoDangling == out = "built" =>
    \A k \in plan : \A n \in k.ins : Existing(n) \/ \E p \in plan : <<n[1], n[2]>> \in Nodes2(p.outs)
\* what follows is about the transition that builds the graph
NoRedo == [][ (round' = round + 1 /\ out' = "built" /\ ~opts'.retain_on) =>
              \A k \in plan' : ~\E e \in store : e.ds = Meta(Pipeline[k.t]) /\ e.id = k.id /\ e.run \in Rng(opts'.skipin) ]_vars
\* with retention declared, nothing that remains to be done is lost to a clean-up
NothingLost == [][ (round' = round + 1 /\ out' = "built" /\ opts'.retain_on
                    /\ \A e \in store : e.ds \in {"tb_metadata"} =>
                         \E f \in store : f.ds = (IF Shape = "chain" THEN "b" ELSE "c") /\ f.id = e.id) =>
                   \A i \in 1..Len(Pipeline) : \A c \in Rng(Univ) : LET id == Proj(c, Rng(Pipeline[i].dims)) IN
                       \/ \E k \in plan' : k.t = i /\ k.id = id
                       \/ \E e \in store : e.ds = Meta(Pipeline[i]) /\ e.id = id /\ e.run \in Rng(opts'.skipin) ]_vars
=============================================================================
