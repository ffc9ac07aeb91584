------------------------------- MODULE Preds -------------------------------
(***************************************************************************)
(* EncodingCheckPredicate: a set of conditions <<t, wanted>>, t an         *)
(* EncodingType and wanted 1 (andIf) or 0 (andIfNot).  It holds for a      *)
(* character for which each condition does.                                *)
(***************************************************************************)
EXTENDS Chars, FiniteSets

\* what one validIf / validIfNot / andIf / andIfNot call contributes
Cond(t, wanted) == IF t \in Classes THEN {<<t, wanted>>} ELSE {}

Contradictory(conds) == \E t \in Classes : <<t, 0>> \in conds /\ <<t, 1>> \in conds

HoldsFor(conds, in(_)) == \A k \in conds : (k[2] = 1) <=> in(k[1])
\* for a code point (char16_t and char32_t alike), and for a char
Holds(v, conds, c)   == HoldsFor(conds, LAMBDA t : InClass(v, t, c))
HoldsChar(conds, b)  == HoldsFor(conds, LAMBDA t : InClassOfChar(t, b))

\* predicates that compare equal: the same consistent conditions
\* (nothing is said of two contradictory ones)
MustEqual(a, b)   == a = b /\ ~Contradictory(a)
MustDiffer(a, b)  == a # b /\ ~(Contradictory(a) /\ Contradictory(b))

\* conditions as they come in an event: a sequence of <<t, wanted>>
CondsOf(p) == UNION {Cond(p[i][1], p[i][2]) : i \in DOMAIN p}
=============================================================================
