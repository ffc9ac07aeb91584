------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* split, join and trim on every string over a few characters, one of them *)
(* NUL: the laws that users rely on, and the character-at-a-time view.     *)
(***************************************************************************)
EXTENDS Texts, FiniteSets, FiniteSetsExt

CONSTANTS Alphabet, MaxLen
VARIABLE s

Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s

Occurs(d) == Cardinality({i \in DOMAIN s : s[i] = d})

JoinUndoesSplit == \A d \in Alphabet : Join(Split(s, d), d) = s
CountsPieces == \A d \in Alphabet : Len(Split(s, d)) = IF s = <<>> THEN 0 ELSE Occurs(d) + 1
PiecesAreFree == \A d \in Alphabet : \A i \in DOMAIN Split(s, d) : ~Contains(Split(s, d)[i], d)
\* piece lists are made by splitting at another delimiter
SplitUndoesJoin == \A d, e \in Alphabet :
    LET p == Split(s, e) IN
    ((\A i \in DOMAIN p : ~Contains(p[i], d)) /\ p # << <<>> >>) => Split(Join(p, d), d) = p
OnlyExceptions == \A d \in Alphabet : Split(Join(<< <<>> >>, d), d) = <<>> /\ Join(<<>>, d) = <<>>
\* lengths add up
JoinLength == \A d, e \in Alphabet :
    LET p == Split(s, e) IN p # <<>> => Len(Join(p, d)) = FoldLeft(LAMBDA a, x : a + Len(x), 0, p) + Len(p) - 1

Sets == SUBSET Alphabet
TrimIdempotent == \A b \in Sets : Trim(Trim(s, b), b) = Trim(s, b)
TrimEnds == \A b \in Sets : LET t == Trim(s, b) IN t # <<>> => t[1] \notin b /\ t[Len(t)] \notin b
TrimKeeps == \A b \in Sets : LET t == Trim(s, b) IN
    \E i \in 0..Len(s) : /\ i + Len(t) <= Len(s)
                         /\ SubSeq(s, i + 1, i + Len(t)) = t
                         /\ \A j \in 1..i : s[j] \in b
                         /\ \A j \in (i + Len(t) + 1)..Len(s) : s[j] \in b
TrimMonotone == \A b, c \in Sets : b \subseteq c => Trim(Trim(s, b), c) = Trim(s, c)
\* one more character at the end
SplitStep(d, pieces, c) == IF c = d THEN Append(pieces, <<>>) ELSE [pieces EXCEPT ![Len(pieces)] = Append(@, c)]
SplitStepwise == [][\A d \in Alphabet :
    Split(s', d) = IF s = <<>> THEN SplitStep(d, << <<>> >>, s'[1]) ELSE SplitStep(d, Split(s, d), s'[Len(s')])]_s
TrimStepwise == [][\A b \in Sets : s'[Len(s')] \in b => Trim(s', b) = Trim(s, b)]_s
=============================================================================
