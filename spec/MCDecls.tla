------------------------------- MODULE MCDecls -------------------------------
(* All short scripts of edits of the connections of one task.  Whatever is
   done, every connection that is left is of exactly one kind, the one it was
   last given. *)
EXTENDS Decls, Json
CONSTANTS Emit, MaxEdits
VARIABLES st, edits

Part(t, v) == [t |-> t, v |-> v]
Conn(kind, parts) == [kind |-> kind, parts |-> parts, multiple |-> FALSE, dims |-> IF kind = "initOutputs" THEN <<>> ELSE <<"instrument">>]
Plan0 == [classes |-> <<[bases |-> <<>>, conns |-> [a |-> Conn("inputs", <<Part(FALSE, "a"), Part(TRUE, "t")>>), b |-> Conn("outputs", <<Part(FALSE, "b")>>)],
                         order |-> <<"a", "b">>, dims |-> [on |-> TRUE, v |-> <<"instrument">>], templates |-> [t |-> "x"]],
                       [bases |-> <<1>>, conns |-> [b |-> Conn("initOutputs", <<Part(TRUE, "t"), Part(FALSE, "b")>>)],
                         order |-> <<"b">>, dims |-> [on |-> FALSE, v |-> <<>>], templates |-> <<>>]>>,
          config |-> [t |-> [isnum |-> TRUE, num |-> 5, parts |-> <<>>]], edits |-> <<>>, cfgchain |-> TRUE, frozen |-> TRUE,
          iter |-> <<"inputs", "outputs", "prerequisiteInputs">>]
E(op, n, set, c) == [op |-> op, n |-> n, set |-> set, c |-> c]
C0 == Conn("outputs", <<Part(FALSE, "s")>>)
C1 == Conn("prerequisiteInputs", <<Part(FALSE, "r")>>)
Edits == {E("del", n, "inputs", C0) : n \in {"a", "b", "n"}} \cup {E("look", n, "inputs", C0) : n \in {"a", "n"}}
         \cup {E("set", n, "inputs", c) : n \in {"a", "b", "n"}, c \in {C0, C1}}
         \cup {E("discard", "a", s, C0) : s \in {"inputs", "outputs"}} \cup {E("dim+", "visit", "inputs", C0), E("dim=", "detector", "inputs", C0)}
Init == st = Start(Plan0, Plan0.config) /\ edits = <<>>
Next == /\ Len(edits) < MaxEdits
        /\ \E e \in Edits : st' = Edit(st, e) /\ edits' = Append(edits, e)
        /\ (Emit /\ Len(edits') = MaxEdits) => PrintT(<<"@@", ToJson([Plan0 EXCEPT !.edits = edits'])>>)
Spec == Init /\ [][Next]_<<st, edits>>
OneKind == \A n \in Kept(st) : /\ n \in DOMAIN st.conns /\ Cardinality({s \in Kinds : n \in st.sets[s]}) = 1
                                /\ n \in st.sets[st.conns[n].kind]
=============================================================================
