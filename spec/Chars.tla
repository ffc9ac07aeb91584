------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Character data per Unicode version 7..16: which code points are         *)
(* assigned, private, control, white space, and their lower case.          *)
(* data/ucd<v>.json was derived from that version's UnicodeData.txt:       *)
(*   assigned: <<lo, hi>> intervals in ascending order                     *)
(*   lower:    <<lo, hi, step, delta>>: lo, lo+step, .., hi lower-case to  *)
(*             themselves plus delta                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC

Versions == 7..16
Ucd == [v \in Versions |-> JsonDeserialize("ucd" \o ToString(v) \o ".json")]

\* index of the last interval whose lo is <= c, 0 if none (binary search)
RECURSIVE LastFrom(_, _, _, _)
LastFrom(iv, c, lo, hi) ==      \* invariant: iv[i][1] <= c for i <= lo, iv[i][1] > c for i > hi
    IF lo >= hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN  IF iv[m][1] <= c THEN LastFrom(iv, c, m, hi) ELSE LastFrom(iv, c, lo, m - 1)
InIntervals(iv, c) == LET i == LastFrom(iv, c, 0, Len(iv)) IN i > 0 /\ c <= iv[i][2]

PrivateIv == << <<57344, 63743>>, <<983040, 1048573>>, <<1048576, 1114109>> >>
ControlIv == << <<0, 31>>, <<127, 159>> >>
WhiteIv   == << <<9, 13>>, <<32, 32>>, <<133, 133>>, <<160, 160>>, <<5760, 5760>>, <<8192, 8202>>,
                <<8232, 8233>>, <<8239, 8239>>, <<8287, 8287>>, <<12288, 12288>> >>

\* EncodingType: 0 kIsNone, 1 kIsAssigned, 2 kIsPrivate, 3 kIsControl, 4 kIsWhitespace
Classes == 1..4
ClassIv(v, t) == CASE t = 1 -> Ucd[v].assigned [] t = 2 -> PrivateIv
                   [] t = 3 -> ControlIv [] t = 4 -> WhiteIv
InClass(v, t, c) == InIntervals(ClassIv(v, t), c)

(***************************************************************************)
(* The predicate's operator() for char sees Latin-1, all of it assigned.   *)
(***************************************************************************)
InClassOfChar(t, b) == CASE t = 1 -> TRUE [] t = 2 -> FALSE
                         [] t = 3 -> InIntervals(ControlIv, b) [] t = 4 -> InIntervals(WhiteIv, b)

(***************************************************************************)
(* Simple lower-case mapping                                               *)
(***************************************************************************)
LowerIn(runs, c) ==
    LET i == LastFrom(runs, c, 0, Len(runs))
    IN  IF i > 0 /\ c <= runs[i][2] /\ (c - runs[i][1]) % runs[i][3] = 0 THEN c + runs[i][4] ELSE c
Lower(v, c) == LowerIn(Ucd[v].lower, c)
TurkicLower(v, c) == IF c = 73 THEN 305 ELSE Lower(v, c)

\* az aze azb azj kk kaz tt tat tr tur
TurkicCodes == { <<97,122>>, <<97,122,101>>, <<97,122,98>>, <<97,122,106>>, <<107,107>>,
                 <<107,97,122>>, <<116,116>>, <<116,97,116>>, <<116,114>>, <<116,117,114>> }
IsTurkic(lang) == lang \in TurkicCodes
LowerFor(v, lang, c) == IF IsTurkic(lang) THEN TurkicLower(v, c) ELSE Lower(v, c)
LowerAll(v, lang, cps) == LET tk == IsTurkic(lang)
                          IN  [i \in DOMAIN cps |-> IF tk THEN TurkicLower(v, cps[i]) ELSE Lower(v, cps[i])]
=============================================================================
