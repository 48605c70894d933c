----------------------------- MODULE MCSkyBuild -----------------------------
(* All small skies of one shape: where two visits point, which of their images
   exist, when the calibrations change hands and how far a per-detector task
   looks in time. *)
EXTENDS SkyBuild, Json
CONSTANTS Emit, Places, Switches, MinIns
VARIABLE sc

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Id(d, v, t, p) == <<IF d \o v = "" THEN "" ELSE "C", "", d, v, t, p, "", "", "">>
VisD == <<"instrument", "detector", "visit">>
Det == <<"instrument", "detector">>
Pat == <<"tract", "patch">>
T(l, dims, ins, pre, outs, tp) == [label |-> l, dims |-> dims, ins |-> ins, pre |-> pre, outs |-> outs, sp |-> <<>>, tp |-> tp, nowork |-> <<>>]
In(ds, m) == [ds |-> ds, min |-> m]
Cal(ds) == [ds |-> ds, min |-> 0, kind |-> "calib", table |-> <<>>]
Images == {Id(d, v, "", "") : d \in {"1", "2"}, v \in {"1", "2"}}
Boxes(x1, x2) ==
    ("v1" :> <<x1, x1 + 30, 2, 32>>) @@ ("v1d1" :> <<x1 + 1, x1 + 14, 3, 31>>) @@ ("v1d2" :> <<x1 + 16, x1 + 29, 3, 31>>)
    @@ ("v2" :> <<x2, x2 + 30, 2, 32>>) @@ ("v2d1" :> <<x2 + 1, x2 + 14, 3, 31>>) @@ ("v2d2" :> <<x2 + 16, x2 + 29, 3, 31>>)
    @@ ("t0" :> <<-5, 105, -5, 45>>) @@ ("t0p0" :> <<0, 40, 0, 40>>) @@ ("t0p1" :> <<35, 75, 0, 40>>) @@ ("t0p2" :> <<70, 100, 0, 40>>)
Names == {"zzr", "zza", "zzb", "zzc", "zzk", "zzm"} \cup {l \o s : l \in {"zzt0", "zzt1", "zzt2"}, s \in {"_metadata", "_log"}}
DsDims == [n \in Names |-> CASE n \in {"zzr", "zza", "zzt0_metadata", "zzt0_log"} -> VisD
                             [] n \in {"zzb", "zzt1_metadata", "zzt1_log"} -> Pat
                             [] OTHER -> Det]
Certs(m) == UNION {{[coll |-> "zzcal", ds |-> ds, id |-> Id(d, "", "", ""), run |-> "zzc1", b |-> -1000, e |-> m],
                    [coll |-> "zzcal", ds |-> ds, id |-> Id(d, "", "", ""), run |-> "zzc2", b |-> m, e |-> 1000]}
                      : ds \in {"zzk", "zzm"}, d \in {"1", "2"}}
Init == \E x1, x2 \in Places, imgs \in (SUBSET Images) \ {{}}, m \in Switches, mn \in MinIns, tp \in {<<>>, <<"zza">>} :
    /\ x1 <= x2
    /\ sc = [kind |-> "join", px |-> <<"healpix6", "healpix5">>, variant |-> "OFF", cons |-> <<>>,
             visits |-> <<[id |-> "1", filter |-> "f1", b |-> 0, e |-> 2], [id |-> "2", filter |-> "f2", b |-> 2, e |-> 4]>>,
             dets |-> <<"1", "2">>, filters |-> <<"f1", "f2">>, tracts |-> <<"0">>,
             patches |-> <<<<"0", "0">>, <<"0", "1">>, <<"0", "2">>>>, boxes |-> Boxes(x1, x2),
             env |-> [k \in {"htm7", "px1"} |-> [b \in DOMAIN Boxes(x1, x2) |-> <<>>]], px12 |-> <<>>, htms |-> <<>>, px1s |-> <<>>,
             conds |-> <<>>, tables |-> <<>>, dsdims |-> DsDims, incolls |-> <<"zzin", "zzcal">>, overall |-> <<"zzr">>, outrun |-> "zzout",
             tasks |-> <<T("zzt0", VisD, <<In("zzr", 1)>>, <<Cal("zzk")>>, <<"zza">>, <<>>),
                         T("zzt1", Pat, <<In("zza", mn)>>, <<>>, <<"zzb">>, <<>>),
                         T("zzt2", Det, <<In("zza", 1)>>, <<Cal("zzm")>>, <<"zzc">>, tp)>>,
             store |-> SetSeq({[run |-> "zzin", ds |-> "zzr", id |-> i] : i \in imgs}),
             calibs |-> SetSeq(Certs(m))]
    /\ Emit => PrintT(<<"@@", ToJson(sc)>>)
Next == FALSE /\ UNCHANGED sc
Spec == Init /\ [][Next]_sc

Stored == {e.id : e \in Rng(sc.store)}
Touching(p) == {i \in Stored : Overlap(sc.boxes[ObsKey(i)], sc.boxes["t0p" \o p])}
Reads(k, ds) == {n[2] : n \in {x \in k.ins : x[1] = ds}}
\* a patch is processed if and only if enough images touch it, and with exactly those
PatchesSeeTheirImages(Ex) == Ex.err = {} => \A p \in {"0", "1", "2"} :
    LET ks == {k \in Ex.kept : k.t = 2 /\ k.id = Id("", "", "0", p)}
        need == sc.tasks[2].ins[1].min
        seen == \E v \in {"1", "2"}, d \in {"1", "2"} : Overlap(sc.boxes["v" \o v \o "d" \o d], sc.boxes["t0p" \o p])
    IN IF seen /\ Cardinality(Touching(p)) >= need
       THEN Cardinality(ks) = 1 /\ \A k \in ks : Reads(k, "zza") = Touching(p)
       ELSE ks = {}
\* images on no patch are not looked at: the query joins them to the sky map
ImagesOnTheMap(Ex) == Ex.err = {} => {k.id : k \in {x \in Ex.kept : x.t = 1}} = UNION {Touching(p) : p \in {"0", "1", "2"}}
\* the calibration of an image is the one valid when it was taken
CalibrationsMatch(Ex) == Ex.err = {} => \A k \in {x \in Ex.kept : x.t = 1} : \A n \in {x \in k.ins : x[1] = "zzk"} :
    \A c \in Rng(sc.calibs) : (c.ds = "zzk" /\ c.run = n[3] /\ c.id = n[2])
        => c.b < SpanOf(sc, k.id)[2] /\ SpanOf(sc, k.id)[1] < c.e
\* and there is exactly one, or the build is refused
OneCalibration(Ex) == Ex.err = {} => \A k \in Ex.kept : k.t \in {1, 3} =>
    Cardinality({n \in k.ins : n[1] \in {"zzk", "zzm"}}) = 1
UnboundedIsAmbiguous(Ex) == (sc.tasks[3].tp = <<>> /\ Ex.err = {}) => {k \in Ex.kept : k.t = 3} = {}
Sound == LET ex == Expected(sc) IN
    /\ PatchesSeeTheirImages(ex)
    /\ ImagesOnTheMap(ex)
    /\ CalibrationsMatch(ex)
    /\ OneCalibration(ex)
    /\ UnboundedIsAmbiguous(ex)
=============================================================================
