------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* Writes the tables of the specification to tables.json: the C++ lockstep *)
(* walker interprets them, so that what it compares the library with is    *)
(* the specification's own definition.                                     *)
(***************************************************************************)
EXTENDS Texts, Chars, FiniteSetsExt

\* maximal runs of units lo..hi with one and the same transition from q, as rows
Rows(T(_,_), q, lo, hi) ==
    LET cuts == {u \in (lo + 1)..hi : T(q, u) # T(q, u - 1)} \cup {lo}
        ord  == SetToSortSeq(cuts, LAMBDA a, b : a < b)
    IN  [i \in DOMAIN ord |->
            [lo |-> ord[i], hi |-> IF i = Len(ord) THEN hi ELSE ord[i + 1] - 1, t |-> T(q, ord[i])]]

MachineRows(T(_,_), Q, lo, hi) ==
    LET qs == SetToSeq(Q) IN [i \in DOMAIN qs |-> [q |-> qs[i], rows |-> Rows(T, qs[i], lo, hi)]]

\* 32-bit units: nothing changes above 0x1ffff, which the rows then extend to 0xffffffff (-1)
ExtendTop(m) == [i \in DOMAIN m |-> [m[i] EXCEPT !.rows = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.hi = -1]]]]

Tables ==
  [ m8    |-> MachineRows(Trans8, Q8, 1, 255),
    m16   |-> MachineRows(Trans16, Q16, 1, 65535),
    mu2   |-> MachineRows(TransFlat, QFlat, 1, 65535),
    mu4   |-> ExtendTop(MachineRows(TransFlat, QFlat, 1, 131071)),
    tops  |-> RangeTop,
    fits8 |-> [r \in 1..6 |-> [b \in 1..255 |-> IF LeadFits8(r - 1, b) THEN 1 ELSE 0]],
    fits16 |-> [r \in 1..6 |-> IF LeadFits16(r - 1) THEN 1 ELSE 0],
    enc8  |-> EncRows8,
    enc16 |-> EncRows16,
    trim  |-> SetToSortSeq(TrimBlanks, LAMBDA a, b : a < b),
    ascii7 |-> SetToSortSeq(Ascii7, LAMBDA a, b : a < b),
    cp1252 |-> Cp1252,
    cp1250 |-> Cp1250,
    private |-> PrivateIv, control |-> ControlIv, white |-> WhiteIv,
    turkic |-> SetToSeq(TurkicCodes) ]

Same32(u) == \A q \in QFlat : TransFlat(q, u) = TransFlat(q, 131071)
ASSUME /\ \A u \in {131072, 131073, 1114111, 1114112, 2147483647, -1, -2, -55296, -8193} : Same32(u)
       /\ \A k \in 2..32767 : Same32(65536 * k) /\ Same32(65536 * k + 55296) /\ Same32(65536 * k + 57343)
       /\ \A k \in 0..32767 : Same32(-1 - 65536 * k) /\ Same32(-8193 - 65536 * k)
ASSUME JsonSerialize("tables.json", Tables)

VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
