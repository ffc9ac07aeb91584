------------------------------- MODULE MCUnits -------------------------------
(***************************************************************************)
(* Strings of 16-bit and of 32-bit units, unit by unit: UTF-16, UCS-2 and  *)
(* UCS-4 (C02 C04 C05 C06 C07 C09 C18 C19).                                *)
(***************************************************************************)
EXTENDS Wide, FiniteSets

CONSTANTS Units16, Units32, MaxLen

Above31 == {-1, -2147483647}          \* 0xffffffff and 0x80000001

VARIABLES width, s
vars == <<width, s>>

Init == width \in {16, 32} /\ s = <<>>
Arrive(u) == Len(s) < MaxLen /\ s' = Append(s, u) /\ UNCHANGED width
Next == \/ width = 16 /\ \E u \in Units16 : Arrive(u)
        \/ width = 32 /\ \E u \in Units32 \cup Above31 : Arrive(u)
Spec == Init /\ [][Next]_vars

x16 == Scan16(s)
x32 == ScanU4(s)

(***************************************************************************)
(* UTF-16, declaratively                                                   *)
(***************************************************************************)
PairAt(i) == i < Len(s) /\ IsHigh(s[i]) /\ IsLow(s[i + 1])
WellFormed16 == \A i \in DOMAIN s :
    /\ IsLow(s[i])  => i > 1 /\ IsHigh(s[i - 1])
    /\ IsHigh(s[i]) => i = Len(s) \/ IsLow(s[i + 1])
EndsInHigh == s # <<>> /\ IsHigh(s[Len(s)])
Declared16 ==
    width = 16 =>
      /\ (x16.st # "bad") <=> WellFormed16
      /\ (x16.st = "cut") <=> (WellFormed16 /\ EndsInHigh)
      /\ x16.st # "bad" => Len(x16.cps) = Cardinality({i \in DOMAIN s : ~IsLow(s[i])}) - (IF EndsInHigh THEN 1 ELSE 0)

Narrowing ==
    /\ width = 16 =>
        /\ IsUtf16(s, kAscii) => IsUtf16(s, kUcs2)
        /\ IsUtf16(s, kUcs2) => IsUtf16(s, kUtf16)
        /\ \A r \in {kUtf8, kUcs4, kUnicode} : IsUtf16(s, r) <=> IsUtf16(s, kUtf16)
        /\ IsUcs2(s, kUcs2) => IsUtf16(s, kUcs2)                    \* UCS-2 is UTF-16 without surrogates
        /\ IsUtf16(s, kUcs2) => IsUcs2(s, kUcs2)
        /\ \A r \in {-1, 6} : ~IsUtf16(s, r) /\ ~IsUcs2(s, r)
    /\ width = 32 =>
        /\ IsUcs4(s, kAscii) => IsUcs4(s, kUcs2)
        /\ IsUcs4(s, kUcs2) => IsUcs4(s, kUtf16)
        /\ IsUcs4(s, kUtf16) <=> IsUcs4(s, kUnicode)
        /\ IsUcs4(s, kUtf16) => IsUcs4(s, kUtf8)
        /\ IsUcs4(s, kUtf8) => IsUcs4(s, kUcs4)
        /\ \A r \in {-1, 6} : ~IsUcs4(s, r)

IsImpliesTo ==
    /\ width = 16 =>
        /\ IsUtf16(s, kUtf8) => ToUtf8From16(s) = EncAll8(x16.cps)
        /\ IsUtf16(s, kUcs4) => ToUcs4From16(s) = x16.cps
        /\ ~IsUtf16(s, kUtf8) => ToUtf8From16(s) = <<>>
        /\ ~IsUtf16(s, kUcs4) => ToUcs4From16(s) = <<>>
    /\ width = 32 =>
        /\ IF IsUcs4(s, kUtf8) THEN ToUtf8From32(s) = EncAll8(s) ELSE ToUtf8From32(s) = <<>>
        /\ IF IsUcs4(s, kUtf16) THEN ToUtf16From32(s) = EncAll16(s) ELSE ToUtf16From32(s) = <<>>
        /\ IF IsUcs4(s, kUcs2) THEN ToUcs2From32(s) = s ELSE ToUcs2From32(s) = <<>>

RoundTrip ==
    /\ width = 16 /\ x16.st # "bad" =>
        LET u8 == ToUtf8From16(s)  u4 == ToUcs4From16(s)  whole == SubSeq(s, 1, x16.used) IN
        /\ Scan8(u8).st = "ok" /\ Scan8(u8).cps = u4
        /\ ToUtf16From8(u8) = whole /\ ToUtf16From32(u4) = whole
        /\ ToUcs4From8(u8) = u4 /\ ToUtf8From32(u4) = u8
    /\ width = 32 /\ s # <<>> =>
        /\ LET u8 == ToUtf8From32(s) IN u8 # <<>> => ToUcs4From8(u8) = s /\ IsUtf8(u8, kUtf8)
        /\ LET u16 == ToUtf16From32(s) IN u16 # <<>> => ToUcs4From16(u16) = s /\ IsUtf16(u16, kUtf16)
        /\ LET u2 == ToUcs2From32(s) IN u2 # <<>> => u2 = s /\ IsUcs2(u2, kUcs2)

CutIgnored ==
    width = 16 /\ x16.st = "cut" =>
        LET whole == SubSeq(s, 1, x16.used) IN
        /\ whole = SubSeq(s, 1, Len(s) - 1)
        /\ ToUtf8From16(s) = ToUtf8From16(whole) /\ ToUcs4From16(s) = ToUcs4From16(whole)
        /\ UnicodeLength16(s) = UnicodeLength16(whole)
        /\ \A r \in Ranges : IsUtf16(s, r) <=> (IsUtf16(whole, r) /\ r \notin {kAscii, kUcs2})

Lengths ==
    /\ width = 16 => UnicodeLength16(s) <= Len(s)
    /\ width = 32 => UnicodeLength32(s) \in {0, Len(s)}

(***************************************************************************)
(* wchar_t: with 32 bits, conversions of wide strings are those of UCS-4   *)
(* restricted to Unicode; with 16 bits they are those of UTF-16            *)
(***************************************************************************)
Wide32 == width = 32 =>
    /\ \A f \in {"isUtf8", "isUtf16", "isUcs4"} : W32Is(f, s) <=> IsUcs4(s, kUnicode)
    /\ W32Is("isUtf16", s) => W32ToW(16, W32To("toUtf16", s)) = s
    /\ W32Is("isUtf8", s) => W32ToW(8, W32To("toUtf8", s)) = s /\ W32ToW(32, W32To("toUcs4", s)) = s
    /\ W32Is("isUcs2", s) => W32To("toUcs2", s) = s
    /\ ~W32Is("isUcs4", s) => W32To("toUcs4", s) = <<>> /\ W32ToW(32, s) = <<>>
Wide16 == width = 16 =>
    /\ \A f \in {"isUtf8", "isUtf16", "isUcs4"} : W16Is(f, s) <=> WellFormed16
    /\ WellFormed16 => W16To("toUtf16", s) = s /\ W16ToW(16, s) = s
    /\ x16.st = "ok" => W16ToW(8, W16To("toUtf8", s)) = s /\ W16ToW(32, W16To("toUcs4", s)) = s
    /\ W16Is("isUcs2", s) => W16To("toUcs2", s) = s
Tchar ==
    /\ width = 16 => TwToT(16, s) = (IF WellFormed16 THEN s ELSE <<>>)
    /\ width = 32 => TwToT(32, s) = ToUtf16From32(s)
    /\ LET w == width IN TnToT(w, s) # <<>> => \A i \in DOMAIN s : s[i] \in 1..127
=============================================================================
