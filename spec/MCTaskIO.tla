------------------------------- MODULE MCTaskIO -------------------------------
(* Every short history of reads and writes of one quantum, with a failure of the
   repository at any of its calls.  Nothing outside the quantum is ever touched,
   and what is recorded is what happened. *)
EXTENDS TaskIO, Json
CONSTANTS Emit, MaxOps
VARIABLES read, written, used, put, hist

Conn(ds, kind, multiple, defer) == [ds |-> ds, kind |-> kind, multiple |-> multiple, defer |-> defer, minimum |-> IF kind = "out" THEN 0 ELSE 1]
Conns == [a |-> Conn("in_a", "in", TRUE, FALSE), b |-> Conn("in_b", "in", FALSE, TRUE), o |-> Conn("out_o", "out", FALSE, FALSE), m |-> Conn("out_m", "out", TRUE, FALSE)]
Ins == [in_a |-> <<"in_a:0", "in_a:1">>, in_b |-> <<"in_b:0">>]
Outs == [out_o |-> <<"out_o:0">>, out_m |-> <<"out_m:0", "out_m:1">>, t_log |-> <<"t_log:0">>, t_metadata |-> <<"t_metadata:0">>]
Adjusts == {[on |-> FALSE, super |-> FALSE, ins |-> <<>>, outs |-> <<>>],
            [on |-> TRUE, super |-> TRUE, ins |-> [a |-> <<"in_a:1">>], outs |-> [m |-> <<"out_m:1">>]]}
Plan(adj, ops) == [conns |-> Conns, ins |-> Ins, outs |-> Outs, adjust |-> adj, ops |-> ops]
R(i, d) == [i |-> i, d |-> d]
Gets == {[op |-> "get", form |-> "given", req |-> <<>>, vals |-> <<>>, odd |-> FALSE, fail |-> f] : f \in {0, 2}}
        \cup {[op |-> "get", form |-> "list", req |-> [x |-> [many |-> TRUE, ids |-> ids]], vals |-> <<>>, odd |-> FALSE, fail |-> f] :
                f \in {0, 1}, ids \in {<<R("in_a:1", FALSE), R("none", FALSE)>>, <<R("in_b:0", FALSE), R("in_a:0", TRUE)>>, <<R("in_a:1", FALSE), R("out_o:0", FALSE)>>, <<R("in_a:1x", FALSE)>>}}
V1 == [o |-> [many |-> FALSE, vals |-> <<"w1">>], m |-> [many |-> TRUE, vals |-> <<"w2">>]]
V2 == [o |-> [many |-> FALSE, vals |-> <<"none">>], m |-> [many |-> TRUE, vals |-> <<"w2", "w3">>]]
V3 == [o |-> [many |-> FALSE, vals |-> <<"w1">>]]
Puts == {[op |-> k, form |-> "given", req |-> <<>>, vals |-> v, odd |-> FALSE, fail |-> f] : f \in {0, 2, 4}, v \in {V1, V2, V3}, k \in {"put", "run"}}
        \cup {[op |-> "put", form |-> "list", req |-> [x |-> [many |-> TRUE, ids |-> ids]], vals |-> [x |-> [many |-> TRUE, vals |-> <<"w4", "w5">>]], odd |-> FALSE, fail |-> f] :
                f \in {0, 2}, ids \in {<<R("out_m:1", FALSE), R("out_o:0", FALSE)>>, <<R("out_m:1", FALSE), R("t_log:0", FALSE)>>, <<R("in_a:1", FALSE), R("out_o:0", FALSE)>>, <<R("out_o:0", FALSE)>>}}
Init == /\ \E adj \in Adjusts : hist = [adjust |-> adj, ops |-> <<>>]
        /\ read = {} /\ written = {} /\ used = {} /\ put = {}
P == Plan(hist.adjust, hist.ops)
\* one by one, until something is refused or fails
RECURSIVE Walk(_, _, _, _)
Walk(ids, ok, fail, done) ==
    IF ids = <<>> \/ Head(ids) \notin ok \/ (fail = 1) THEN done
    ELSE Walk(Tail(ids), ok, fail - 1, done \cup {Head(ids)})
Names(seq) == [k \in 1..Len(seq) |-> seq[k].i]
Do(op) ==
    LET reads == IF op.op = "put" THEN <<>> ELSE Names(Reads(Req(P, [op EXCEPT !.op = "get"])))
        got == Walk(reads, InQ(P), op.fail, {})
        whole == got = Rng(reads)
        req == IF op.op = "run" THEN GivenReq(P, OutConns(P)) ELSE IF op.op = "put" THEN Req(P, op) ELSE <<>>
        named == {n \in DOMAIN req : ~Absent(op, n) /\ Len(op.vals[n].vals) = Len(req[n].ids)}
        puts == IF op.op = "get" \/ ~whole THEN {} ELSE Walk(Names(Flat([n \in named |-> Writes(op, req, n)], named)), OutQ(P), op.fail - Len(reads), {})
    IN /\ read' = read \cup got /\ used' = used \cup got
       /\ written' = written \cup puts /\ put' = put \cup puts
       /\ hist' = [hist EXCEPT !.ops = Append(@, op)]
Next == /\ Len(hist.ops) < MaxOps
        /\ \E op \in Gets \cup Puts : Do(op)
        /\ (Emit /\ Len(hist'.ops) = MaxOps) => PrintT(<<"@@", ToJson(Plan(hist'.adjust, hist'.ops))>>)
Spec == Init /\ [][Next]_<<read, written, used, put, hist>>
OnlyItsOwn == read \subseteq InQ(P) /\ written \subseteq OutQ(P)
RecordIsTrue == put = written /\ read \subseteq used
=============================================================================
