----------------------------- MODULE PredSession -----------------------------
(***************************************************************************)
(* Predicates as objects: a program holds some of them in variables, makes *)
(* new ones, copies them, narrows them, evaluates and compares them.       *)
(***************************************************************************)
EXTENDS Preds

CONSTANTS Slots, Types          \* Types goes beyond the enumeration
VARIABLES slot,                 \* the conditions of each variable
          last                  \* the action that led here
pvars == <<slot, last>>

Init == slot = [s \in Slots |-> {}] /\ last = <<"reset", 0, 0, 0, 0>>

Make(s, t, w) == slot' = [slot EXCEPT ![s] = Cond(t, w)]        \* s = validIf(t) / validIfNot(t)
Default(s)    == slot' = [slot EXCEPT ![s] = {}]
Copy(s, o)    == slot' = [slot EXCEPT ![s] = slot[o]]
\* o = s.andIf(t): s itself is narrowed, and o is a copy of it
Narrow(s, o, t, w) == LET n == slot[s] \cup Cond(t, w) IN slot' = [slot EXCEPT ![s] = n, ![o] = n]
Look == UNCHANGED slot                                          \* evaluating, comparing

Next == \/ \E s \in Slots, t \in Types, w \in {0, 1} : Make(s, t, w) /\ last' = <<"make", s, 0, t, w>>
        \/ \E s \in Slots : Default(s) /\ last' = <<"default", s, 0, 0, 0>>
        \/ \E s, o \in Slots : s # o /\ Copy(s, o) /\ last' = <<"copy", s, o, 0, 0>>
        \/ \E s, o \in Slots, t \in Types, w \in {0, 1} : Narrow(s, o, t, w) /\ last' = <<"narrow", s, o, t, w>>
        \/ \E s \in Slots : Look /\ last' = <<"eval", s, 0, 0, 0>>
        \/ \E s, o \in Slots : Look /\ last' = <<"eq", s, o, 0, 0>>
Spec == Init /\ [][Next]_pvars
\* the model forgets how it came here
View == slot

(***************************************************************************)
(* A character is what classes it is in; every combination is tried.       *)
(***************************************************************************)
Sigs == SUBSET Classes
H(conds, sig) == HoldsFor(conds, LAMBDA t : t \in sig)

TypeOK == slot \in [Slots -> SUBSET (Classes \X {0, 1})]
Conjunction == \A s \in Slots, sig \in Sigs :
    H(slot[s], sig) <=> \A t \in Classes : (<<t, 1>> \in slot[s] => t \in sig) /\ (<<t, 0>> \in slot[s] => t \notin sig)
ContradictionHoldsForNone == \A s \in Slots : Contradictory(slot[s]) <=> \A sig \in Sigs : ~H(slot[s], sig)
EmptyHoldsForAll == \A s \in Slots : slot[s] = {} <=> \A sig \in Sigs : H(slot[s], sig)
\* two predicates hold for the same characters exactly if they must compare equal (or are both contradictory)
EqualityIsMeaning == \A s, o \in Slots :
    /\ MustEqual(slot[s], slot[o])  => \A sig \in Sigs : H(slot[s], sig) <=> H(slot[o], sig)
    /\ MustDiffer(slot[s], slot[o]) => \E sig \in Sigs : H(slot[s], sig) # H(slot[o], sig)
OnlyNarrows == [][last'[1] = "narrow" =>
    /\ \A sig \in Sigs : H(slot'[last'[2]], sig) => H(slot[last'[2]], sig)
    /\ \A s \in Slots \ {last'[2], last'[3]} : slot'[s] = slot[s]]_pvars
LookingChangesNothing == [][last'[1] \in {"eval", "eq"} => slot' = slot]_pvars
=============================================================================
