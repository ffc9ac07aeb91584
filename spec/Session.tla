------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A text on its way through the encodings.  A program holds one string in *)
(* one encoding (8: UTF-8, 16: UTF-16, 2: UCS-2, 32: UCS-4), spelled in    *)
(* any way its encoding allows, and converts it again and again.  A        *)
(* conversion that cannot succeed returns nothing, and the program keeps   *)
(* what it had.                                                            *)
(***************************************************************************)
EXTENDS Codec

CONSTANTS Cps, MaxCps           \* texts of up to MaxCps code points from Cps

Encs == {8, 16, 2, 32}
\* UCS-2 strings have the type of UTF-16 ones, and are converted by its functions
Targets(e) == CASE e = 8 -> {16, 2, 32} [] e \in {16, 2} -> {8, 32} [] e = 32 -> {8, 16, 2}
ScanOf(e, s) == CASE e = 8 -> Scan8(s) [] e = 16 -> Scan16(s) [] e = 2 -> ScanU2(s) [] e = 32 -> ScanU4(s)
RangeOf(e) == CASE e = 8 -> kUtf8 [] e = 16 -> kUtf16 [] e = 2 -> kUcs2 [] e = 32 -> kUcs4
EncodingOf(e, cps) == CASE e = 8 -> EncAll8(cps) [] e = 16 -> EncAll16(cps) [] OTHER -> cps
Conv(e, t, s) ==
    CASE e = 8 /\ t = 16 -> ToUtf16From8(s)  [] e = 8 /\ t = 2 -> ToUcs2From8(s)    [] e = 8 /\ t = 32 -> ToUcs4From8(s)
      [] e \in {16, 2} /\ t = 8 -> ToUtf8From16(s) [] e \in {16, 2} /\ t = 32 -> ToUcs4From16(s)
      [] e = 32 /\ t = 8 -> ToUtf8From32(s)  [] e = 32 /\ t = 16 -> ToUtf16From32(s) [] e = 32 /\ t = 2 -> ToUcs2From32(s)
OwnIs(e, s) == CASE e = 8 -> IsUtf8(s, kUtf8) [] e = 16 -> IsUtf16(s, kUtf16) [] e = 2 -> IsUcs2(s, kUcs2) [] e = 32 -> IsUcs4(s, kUcs4)

VARIABLES enc, str,             \* what the program holds
          text,                 \* the code points it began with
          first,                \* per encoding what the first conversion to it gave
          last
svars == <<enc, str, text, first, last>>
Never == [e \in Encs |-> <<>>]

\* the ways to spell a code point: shortest, or as a surrogate pair in UTF-8
Pair8(c) == EncWith(EncRows8, Enc16(c)[1]) \o EncWith(EncRows8, Enc16(c)[2])
Spellings(e, c) == IF e = 8 THEN {Enc8(c)} \cup (IF c \in 65536..1114111 THEN {Pair8(c)} ELSE {})
                   ELSE IF InRange(RangeOf(e), c) THEN {EncodingOf(e, <<c>>)} ELSE {}
RECURSIVE Spelled(_, _)
Spelled(e, cps) == IF cps = <<>> THEN {<<>>} ELSE {a \o b : a \in Spellings(e, cps[1]), b \in Spelled(e, Tail(cps))}
CutEnds(e) == CASE e = 8 -> {<<>>, <<195>>, <<240, 159>>, <<237, 160, 189, 237>>} [] e = 16 -> {<<>>, <<55357>>} [] OTHER -> {<<>>}
Texts == UNION {[1..n -> Cps] : n \in 1..MaxCps}

\* strings that are no texts (UCS-4 has room for values that are no code points): what no conversion gets anything out of
Stuck(e, s) == ScanOf(e, s).st = "bad" \/ ~AllInRange(kUtf8, ScanOf(e, s).cps)
BrokenUnits(e) == CASE e = 8  -> {<<128>>, <<254>>, <<192, 128>>, <<195, 65>>, <<240, 159, 65>>, <<237, 176, 128>>, <<237, 160, 189, 65>>, <<244, 144, 128>>, <<253, 191, 191, 191, 191, 65>>}
                    [] e = 16 -> {<<56320>>, <<55357, 65>>, <<55357, 55357, 56832>>}
                    [] e = 2  -> {<<56320>>, <<55357, 65>>}
                    [] e = 32 -> {<<55296>>, <<56320>>, <<57343>>, <<-1>>, <<-2147483583>>, <<55357, 56832>>}
BrokenStrings(e) == {s \in {a \o b \o z : a \in {<<>>, <<65>>}, b \in BrokenUnits(e), z \in {<<>>, <<66>>}} : Stuck(e, s)}
IsBroken == Stuck(enc, str)

Begin(e, s) == /\ enc' = e /\ str' = s /\ first' = Never /\ text' = ScanOf(e, s).cps
Init == /\ \/ \E e \in Encs, t \in Texts : \E s \in Spelled(e, t), z \in CutEnds(e) :
              /\ enc = e /\ str = s \o z /\ text = t /\ last = <<"begin", e>> \o s \o z
           \/ \E e \in Encs : \E s \in BrokenStrings(e) : enc = e /\ str = s /\ text = ScanOf(e, s).cps /\ last = <<"begin", e>> \o s
        /\ first = Never

Became(t, r) == \/ r = <<>> /\ UNCHANGED <<enc, str, text, first>>
                \/ /\ r # <<>> /\ enc' = t /\ str' = r /\ text' = text
                   /\ first' = [first EXCEPT ![t] = IF @ = <<>> THEN r ELSE @]
Convert1(t) == Became(t, Conv(enc, t, str)) /\ last' = <<"conv", t>>
Next == \E t \in Targets(enc) : Convert1(t)
Spec == Init /\ [][Next]_svars
View == <<enc, str, text, first>>

(***************************************************************************)
(* C05                                                                     *)
(***************************************************************************)
LosesNothing == ScanOf(enc, str).cps = text
\* what is broken goes nowhere, and nothing becomes broken
BrokenStays == IsBroken => first = Never /\ \A t \in Targets(enc) : Conv(enc, t, str) = <<>>
SettlesAtOnce == first[enc] # <<>> => str = first[enc]
Accepted == OwnIs(enc, str) \/ IsBroken
NothingCutOff == first[enc] # <<>> => ScanOf(enc, str).st = "ok"
Canonical == \A e \in Encs : first[e] # <<>> => first[e] = EncodingOf(e, text)
\* what fits arrives: no dead ends but for the lack of room in the target
FitsArrives == ~IsBroken => \A t \in Targets(enc) : (Conv(enc, t, str) = <<>>) <=> ~AllInRange(RangeOf(t), text)
\* different texts never meet
Injective == \A e \in Encs : first[e] # <<>> => ScanOf(e, first[e]).cps = text
=============================================================================
