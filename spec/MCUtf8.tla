------------------------------- MODULE MCUtf8 -------------------------------
(***************************************************************************)
(* The UTF-8 machine at work: bytes of a string arrive one by one.  TLC    *)
(* explores every string over Bytes up to MaxLen (not beyond the first     *)
(* broken byte) and checks what the library promises for all strings.      *)
(* Grammar is a second, declarative definition of what UTF-8 is, by        *)
(* arithmetic on whole sequences; the machine has to agree with it.        *)
(***************************************************************************)
EXTENDS Texts

CONSTANTS Bytes, MaxLen

VARIABLES s, m            \* the string so far, the machine (as in Feed)
vars == <<s, m>>

Init == s = <<>> /\ m = Fresh
Arrive(b) == /\ Len(s) < MaxLen /\ m.q # Broken
             /\ s' = Append(s, b) /\ m' = Feed(Trans8, m, b)
Next == \E b \in Bytes : Arrive(b)
Spec == Init /\ [][Next]_vars

x == Scan8(s)

(***************************************************************************)
(* The declarative definition                                              *)
(***************************************************************************)
Size(b) == CASE b < 128 -> 1 [] b \in 192..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..247 -> 4
             [] b \in 248..251 -> 5 [] b \in 252..253 -> 6 [] OTHER -> 0
LeadBits == <<0, 192, 224, 240, 248, 252>>
Least    == <<1, 128, 2048, 65536, 2097152, 67108864>>
\* the value of a sequence t that is complete and well-formed in its bytes
Value(t) == FoldLeft(LAMBDA acc, b : acc * 64 + (b - 128), t[1] - LeadBits[Len(t)], Tail(t))
Shaped(t, n) == Len(t) = n /\ Size(t[1]) = n /\ \A i \in 2..n : IsCont(t[i])
Shortest(t) == Value(t) >= Least[Len(t)]
Single(t) == \E n \in 1..6 : Shaped(t, n) /\ Shortest(t) /\ ~IsSurrogate(Value(t))
Pair(t)   == /\ Len(t) = 6 /\ Shaped(SubSeq(t, 1, 3), 3) /\ Shaped(SubSeq(t, 4, 6), 3)
             /\ IsHigh(Value(SubSeq(t, 1, 3))) /\ IsLow(Value(SubSeq(t, 4, 6)))
Sequence(t) == Len(t) \in 1..6 /\ (Single(t) \/ Pair(t))
\* a lead byte and fewer continuation bytes than it announces; a high half and part of another 3-byte sequence
CutShape(t) == Len(t) \in 1..5 /\ Size(t[1]) > Len(t) /\ \A i \in 2..Len(t) : IsCont(t[i])
Cut(t) == \/ CutShape(t)
          \/ /\ Len(t) \in 3..5 /\ Shaped(SubSeq(t, 1, 3), 3) /\ IsHigh(Value(SubSeq(t, 1, 3)))
             /\ (Len(t) > 3 => Size(t[4]) = 3 /\ CutShape(SubSeq(t, 4, Len(t))))
RECURSIVE Whole(_), WholeThenCut(_)
Whole(t) == t = <<>> \/ \E n \in 1..Len(t) : Sequence(SubSeq(t, 1, n)) /\ Whole(SubSeq(t, n + 1, Len(t)))
WholeThenCut(t) == Cut(t) \/ \E n \in 1..Len(t) : Sequence(SubSeq(t, 1, n)) /\ WholeThenCut(SubSeq(t, n + 1, Len(t)))

MachineMatchesGrammar ==
    /\ (x.st = "ok")  <=> Whole(s)
    /\ (x.st = "cut") <=> (~Whole(s) /\ WholeThenCut(s))

(***************************************************************************)
(* Theorems about all strings (C01 C02 C03 C05 C06 C07 C09 C15 C17 C21)    *)
(***************************************************************************)
Incremental == x.st = Verdict(m.q) /\ x.cps = AllOf(m.cps) /\ x.used = m.used

Accepted    == IsUtf8(s, kUtf8) <=> x.st # "bad"
Narrowing   == /\ IsUtf8(s, kAscii) => IsUtf8(s, kUcs2)
               /\ IsUtf8(s, kUcs2) => IsUtf8(s, kUtf16)
               /\ IsUtf8(s, kUtf16) <=> IsUtf8(s, kUnicode)
               /\ IsUtf8(s, kUtf16) => IsUtf8(s, kUtf8)
               /\ IsUtf8(s, kUtf8) <=> IsUtf8(s, kUcs4)
               /\ \A r \in {-1, 6} : ~IsUtf8(s, r)
NoSurrogates == x.st # "bad" => \A i \in DOMAIN x.cps : InRange(kUtf8, x.cps[i]) /\ x.cps[i] > 0

Whole8 == SubSeq(s, 1, x.used)          \* without the cut-off sequence
CutIgnored ==
    x.st = "cut" =>
       /\ Scan8(Whole8).st = "ok"
       /\ ToUcs4From8(s) = ToUcs4From8(Whole8)
       /\ ToUtf16From8(s) = ToUtf16From8(Whole8)
       /\ ToUcs2From8(s) = ToUcs2From8(Whole8)
       /\ UnicodeLength8(s) = UnicodeLength8(Whole8)
       /\ \A r \in Ranges : IsUtf8(s, r) <=> (IsUtf8(Whole8, r) /\ LeadFits8(r, s[x.used + 1]))

IsImpliesTo ==
    /\ IsUtf8(s, kUcs4)  => ToUcs4From8(s) = x.cps
    /\ IsUtf8(s, kUtf16) => ToUtf16From8(s) = EncAll16(x.cps)
    /\ IsUtf8(s, kUcs2)  => ToUcs2From8(s) = x.cps
    /\ ~IsUtf8(Whole8, kUtf16) /\ x.st # "bad" => ToUtf16From8(s) = <<>>
    /\ ~IsUtf8(Whole8, kUcs2) /\ x.st # "bad" => ToUcs2From8(s) = <<>>
    /\ x.st = "bad" => ToUcs4From8(s) = <<>> /\ ToUtf16From8(s) = <<>> /\ ToUcs2From8(s) = <<>>

RoundTrip ==
    x.st # "bad" =>
       LET u4 == ToUcs4From8(s)  back == ToUtf8From32(u4) IN
       /\ Scan8(back).st = "ok" /\ Scan8(back).cps = x.cps          \* shortest form of the same text
       /\ ToUcs4From8(back) = u4
       /\ LET u16 == ToUtf16From8(s) IN
             u16 # <<>> => /\ IsUtf16(u16, kUtf16) /\ Scan16(u16).st = "ok"
                           /\ ToUtf8From16(u16) = back /\ ToUcs4From16(u16) = u4
                           /\ ToUtf16From8(back) = u16 /\ ToUtf16From32(u4) = u16
       /\ LET u2 == ToUcs2From8(s) IN u2 # <<>> => u2 = u4 /\ IsUcs2(u2, kUcs2) /\ ToUcs2From32(u4) = u2

LengthBounded == UnicodeLength8(s) <= Len(s)
\* shortest form is never longer than what it came from
NoGrowth == x.st # "bad" => Len(ToUtf8From32(x.cps)) <= Len(s)

\* walking the string with decodeUtf8 gives what the scan gives
RECURSIVE Walk(_, _)
Walk(t, acc) == IF t = <<>> THEN [st |-> "ok", cps |-> acc]
                ELSE LET d == DecodeUtf8(t)
                     IN  IF d[2] = -1 THEN [st |-> "bad", cps |-> acc]
                         ELSE IF d[1] = 0 THEN [st |-> "cut", cps |-> acc]
                         ELSE Walk(SubSeq(t, d[2] + 2, Len(t)), Append(acc, d[1]))
CursorWalk == LET w == Walk(s, <<>>) IN w.st = x.st /\ w.cps = x.cps

TrimTwice == TrimWS8(TrimWS8(s)) = TrimWS8(s)
SourceUnicode == ToUtf8FromSource(s, 0) = (IF x.st # "bad" THEN s ELSE <<>>)
\* every code page result is UTF-8 again, with one code point per byte
SourcePages == \A e \in {1, 2} : LET r == ToUtf8FromSource(s, e) IN
                  r # <<>> => Scan8(r).st = "ok" /\ Len(Scan8(r).cps) = Len(s)

\* once broken, always broken: nothing that follows can repair a string
BrokenStays == [][Scan8(s).st = "bad" => Scan8(s').st = "bad"]_vars
\* what is decoded is never taken back
PrefixKept == [][m'.q # Broken => IsPrefix(AllOf(m.cps), AllOf(m'.cps))]_vars
=============================================================================
