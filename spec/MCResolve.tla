----------------------------- MODULE MCResolve ------------------------------
(* Connections taken into account one at a time: whatever the order, the    *)
(* outcome is the one given by the declarative definition.                  *)
EXTENDS Resolve, Json
CONSTANTS Emitting, NReaders
VARIABLES reg, W, R, phase, todo, cur, pres
mvars == <<reg, W, R, phase, todo, cur, pres>>

Conv == {<<"A", "B">>, <<"B", "A">>, <<"C", "A">>, <<"C", "B">>, <<"a1", "b1">>}
Comps == {[sc |-> "A", name |-> "x", of |-> "a1"], [sc |-> "B", name |-> "x", of |-> "b1"]}
Defs == {[sc |-> s, dims |-> d, cal |-> c] : s \in {"A", "C"}, d \in {{}, {"instrument", "htm7"}}, c \in BOOLEAN}
Writers == {[edge |-> "w1", sc |-> s, dims |-> {}, cal |-> c, init |-> FALSE] : s \in {"A", "C"}, c \in BOOLEAN}
Shapes == {[sc |-> s, dims |-> d, cal |-> c, init |-> FALSE, comp |-> "", pre |-> p, defer |-> FALSE]
           : s \in {"A", "B", "C"}, d \in {{}, {"instrument", "htm7"}, {"skypix", "instrument"}}, c \in BOOLEAN, p \in BOOLEAN}
          \cup {[sc |-> s, dims |-> d, cal |-> FALSE, init |-> FALSE, comp |-> "x", pre |-> FALSE, defer |-> FALSE]
                : s \in {"a1", "b1"}, d \in {{}, {"skypix", "instrument"}}}
Edge(i, s) == [edge |-> "r" \o ToString(i), sc |-> s.sc, dims |-> s.dims, cal |-> s.cal, init |-> s.init,
               comp |-> s.comp, pre |-> s.pre, defer |-> s.defer]

MInit == /\ reg \in {{}} \cup {{d} : d \in Defs}
         /\ W \in {{}} \cup {{w} : w \in Writers}
         /\ \E f \in [1..NReaders -> Shapes] : R = {Edge(i, f[i]) : i \in 1..NReaders}
         /\ phase = "start" /\ todo = {} /\ cur = reg /\ pres = "none"
Err == cur = ErrCur
(* definitions first, then what depends on them *)
Rank(e) == IF e.comp # "" THEN 2 ELSE IF IsSkypix(e) THEN 1 ELSE 0
MNext ==
    \/ /\ phase = "start"
       /\ cur' = IF W = {} THEN cur ELSE StepWriter(Conv, cur, reg # {}, CHOOSE w \in W : TRUE)
       /\ pres' = IF W = {} THEN "none" ELSE "no"
       /\ phase' = "readers" /\ todo' = R
       /\ UNCHANGED <<reg, W, R>>
    \/ /\ phase = "readers" /\ todo # {} /\ ~Err
       /\ \E e \in {x \in todo : \A y \in todo : Rank(x) <= Rank(y)} :
            /\ todo' = todo \ {e}
            /\ LET p == IF e.pre THEN "yes" ELSE "no"
               IN IF pres \notin {"none", p} THEN cur' = ErrCur /\ pres' = pres
                  ELSE /\ pres' = p
                       /\ cur' = StepReader(Conv, Comps, cur, FromReaders(reg, W), e)
       /\ UNCHANGED <<reg, W, R, phase>>
MSpec == MInit /\ [][MNext]_mvars

Done == phase = "readers" /\ (todo = {} \/ Err)
OrderFree == Done => LET errs == ResolveErrs(Conv, Comps, reg, W, R) IN
                     IF Err THEN errs # {} ELSE errs = {} /\ cur = {TheDef(reg, W, R)}
=============================================================================
