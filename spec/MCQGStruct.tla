----------------------------- MODULE MCQGStruct -----------------------------
(* All small build problems of one shape: which inputs exist, which quanta find
   no work, which outputs are dropped, whether unanchored quanta are pruned. *)
EXTENDS QGBuild, Json
CONSTANTS Shape, Emit, Small
VARIABLE sc

Univ == <<<<"Cam1", "Cam1-G", "1">>, <<"Cam1", "Cam1-G", "2">>>>
Det == <<"instrument", "detector">>
Ins == <<"instrument">>
Id(d) == <<"Cam1", "", d>>
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
T(l, dims, ins, outs, nw, dr) ==
    [label |-> l, dims |-> dims, ins |-> ins, pre |-> <<>>, outs |-> outs, initin |-> <<>>, initout |-> <<>>,
     nowork |-> SetSeq(nw), dropout |-> SetSeq(dr), dropin |-> <<>>]
E1(ds, m) == [ds |-> ds, min |-> m]
Ids == {Id("1"), Id("2")}
Drops(ds) == {[ds |-> ds, id |-> i] : i \in Ids}
\* "gather": per-detector tasks feeding one summary task with a minimum;  "side": a branch that may stay unanchored
Pipeline(nw1, nw2, dr, m) ==
    IF Shape = "gather"
    THEN <<T("ta", Det, <<E1("r", 1)>>, <<"a">>, nw1, dr), T("tb", Det, <<E1("a", 1), E1("s", 0)>>, <<"b">>, nw2, {}),
           T("tc", Ins, <<E1("b", m)>>, <<"c">>, {}, {})>>
    ELSE <<T("ta", Det, <<E1("r", 1)>>, <<"a", "x">>, nw1, dr), T("tb", Det, <<E1("a", 1)>>, <<"b">>, nw2, {}),
           T("tc", Det, <<E1("x", 1)>>, <<"c">>, {}, {})>>
Names == {"r", "s", "a", "b", "c", "x"}
DsDims == [n \in Names \cup {l \o s : l \in {"ta", "tb", "tc"}, s \in {"_metadata", "_log", "_config"}} |->
              CASE n \in {"ta_config", "tb_config", "tc_config"} -> <<>>
                [] Shape = "gather" /\ n \in {"c", "tc_metadata", "tc_log"} -> Ins
                [] OTHER -> Det]
Init == \E rs \in SUBSET Ids, ss \in SUBSET Ids, nw1, nw2 \in SUBSET Ids, dr \in SUBSET Drops("a"), m \in {0, 1, 2},
           pr \in {<<>>, <<"ta", "tb">>, <<"ta", "tc">>, <<"tb", "tc">>} :
    /\ Small => rs # {} /\ ss \subseteq {Id("1")} /\ nw2 \subseteq {Id("2")} /\ m # 0 /\ pr # <<"tb", "tc">> /\ Cardinality(dr) < 2
    /\ Shape # "gather" => ss = {} /\ m = 1
    /\ sc = [tasks |-> Pipeline(nw1, nw2, dr, m), dsdims |-> DsDims, univ |-> Univ, where |-> Univ,
             cons |-> <<>>, list |-> FALSE,
             store |-> SetSeq({[run |-> "in", ds |-> "r", id |-> i] : i \in rs} \cup {[run |-> "in", ds |-> "s", id |-> i] : i \in ss}),
             incolls |-> <<"in">>, skipin |-> <<>>, outrun |-> "out", outexists |-> FALSE, clobber |-> FALSE,
             retain_on |-> FALSE, retained |-> <<>>, prune |-> pr]
    /\ Emit => PrintT(<<"@@", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
Spec == Init /\ [][Next]_sc

Kept == Expected(sc).kept
Made == UNION {Nodes2(k.outs) : k \in Kept}
NoDangling == \A k \in Kept : \A n \in k.ins : <<n[1], n[2]>> \in Made \/ Has(sc, "in", n[1], n[2])
MinimaMet == \A k \in Kept : \A e \in Rng(sc.tasks[k.t].ins) : Cardinality({n \in k.ins : n[1] = e.ds}) >= e.min
OneProducer == \A a, b \in Kept : a # b => Nodes2(a.outs) \cap Nodes2(b.outs) = {}
Anchored == sc.prune # <<>> =>
    \A k \in Kept : sc.tasks[k.t].label = sc.prune[1] =>
        \E d \in Down(Kept, {k}) : sc.tasks[d.t].label = sc.prune[2]
\* nothing that has everything it needs is lost
NothingLost == sc.prune = <<>> => \A c \in Rng(Univ) :
    (Has(sc, "in", "r", Proj(c, {"instrument", "detector"})) /\ Proj(c, {"instrument", "detector"}) \notin Rng(sc.tasks[1].nowork)
     /\ sc.tasks[1].dropout = <<>>) => \E k \in Kept : k.t = 1 /\ k.id = Proj(c, {"instrument", "detector"})
=============================================================================
