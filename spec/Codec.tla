------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Ranges, encoders, and the is-, to- and unicodeLength functions in terms *)
(* of the machines.                                                        *)
(***************************************************************************)
EXTENDS Machines

(***************************************************************************)
(* Target ranges: RangeType 0..5 is kAscii, kUtf8, kUcs2, kUtf16, kUcs4,   *)
(* kUnicode.  TopOf gives the greatest code point; "none" has no limit     *)
(* (32-bit values from 2^31 up are negative here).                         *)
(***************************************************************************)
Ranges == 0..5
RangeTop == <<127, 2147483647, 65535, 1114111, -1, 1114111>>    \* index range + 1; -1: none
InRange(r, c) == /\ ~IsSurrogate(c)
                 /\ (RangeTop[r + 1] = -1 \/ (c >= 0 /\ c <= RangeTop[r + 1]))
AllInRange(r, cps) == \A i \in DOMAIN cps : InRange(r, cps[i])

\* the least code point that a UTF-8 lead byte can introduce (for a cut-off sequence)
LeadLeast8(b) == CASE b < 128 -> b [] b \in 192..223 -> 128 [] b \in 224..239 -> 2048
                   [] b \in 240..247 -> IF b <= 240 THEN 65536 ELSE (b - 240) * 262144
                   [] b \in 248..251 -> 2097152 [] b \in 252..253 -> 67108864
                   [] OTHER -> 0
LeadFits8(r, b) == InRange(r, LeadLeast8(b))
LeadFits16(r) == InRange(r, 65536)        \* a cut-off high half can only become 0x10000 or more

(***************************************************************************)
(* Encoders, as tables: for the first row with c <= top, unit i is         *)
(* base + ((c - bias) \div div) modulo mod.                                     *)
(***************************************************************************)
U(base, div, mod) == [base |-> base, div |-> div, mod |-> mod]
EncRows8 == <<
  [top |-> 127,        bias |-> 0, units |-> <<U(0, 1, 128)>>],
  [top |-> 2047,       bias |-> 0, units |-> <<U(192, 64, 32), U(128, 1, 64)>>],
  [top |-> 65535,      bias |-> 0, units |-> <<U(224, 4096, 16), U(128, 64, 64), U(128, 1, 64)>>],
  [top |-> 2097151,    bias |-> 0, units |-> <<U(240, 262144, 8), U(128, 4096, 64), U(128, 64, 64), U(128, 1, 64)>>],
  [top |-> 67108863,   bias |-> 0, units |-> <<U(248, 16777216, 4), U(128, 262144, 64), U(128, 4096, 64), U(128, 64, 64), U(128, 1, 64)>>],
  [top |-> 2147483647, bias |-> 0, units |-> <<U(252, 1073741824, 2), U(128, 16777216, 64), U(128, 262144, 64), U(128, 4096, 64), U(128, 64, 64), U(128, 1, 64)>>] >>
EncRows16 == <<
  [top |-> 65535,   bias |-> 0,     units |-> <<U(0, 1, 65536)>>],
  [top |-> 1114111, bias |-> 65536, units |-> <<U(55296, 1024, 1024), U(56320, 1, 1024)>>] >>

EncWith(rows, c) ==
    LET row == rows[CHOOSE i \in DOMAIN rows : c <= rows[i].top /\ (i = 1 \/ c > rows[i-1].top)]
    IN  [i \in DOMAIN row.units |->
            row.units[i].base + (((c - row.bias) \div row.units[i].div) % row.units[i].mod)]
Enc8(c)  == EncWith(EncRows8, c)
Enc16(c) == EncWith(EncRows16, c)

EncAll(E(_), cps) == AllOf(FoldLeft(LAMBDA acc, c : Put(acc, E(c)), NoUnits, cps))
EncAll8(cps)  == EncAll(Enc8, cps)
EncAll16(cps) == EncAll(Enc16, cps)

(***************************************************************************)
(* Results.  Strings are sequences of units without NUL; holds(c) is the   *)
(* predicate in force for a code point.                                    *)
(***************************************************************************)
IsWith(scan, leadFits, r, holds(_)) ==
    /\ r \in Ranges
    /\ scan.st # "bad"
    /\ AllInRange(r, scan.cps)
    /\ (scan.st = "cut" => leadFits)
    /\ \A i \in DOMAIN scan.cps : holds(scan.cps[i])

NoCheck(c) == TRUE
IsUtf8P(s, r, holds(_)) ==
    LET x == Scan8(s) IN IsWith(x, x.st = "cut" => LeadFits8(r, s[x.used + 1]), r, holds)
IsUtf16P(s, r, holds(_)) == IsWith(Scan16(s), LeadFits16(r), r, holds)
IsUcs2P(s, r, holds(_))  == IsWith(ScanU2(s), TRUE, r, holds)
IsUcs4P(s, r, holds(_))  == IsWith(ScanU4(s), TRUE, r, holds)
IsUtf8(s, r)  == IsUtf8P(s, r, NoCheck)
IsUtf16(s, r) == IsUtf16P(s, r, NoCheck)
IsUcs2(s, r)  == IsUcs2P(s, r, NoCheck)
IsUcs4(s, r)  == IsUcs4P(s, r, NoCheck)

kAscii == 0
kUtf8 == 1
kUcs2 == 2
kUtf16 == 3
kUcs4 == 4
kUnicode == 5

\* a conversion: all the complete code points in the target encoding, or nothing
Convert(scan, r, enc(_)) == IF scan.st = "bad" \/ ~AllInRange(r, scan.cps) THEN <<>> ELSE enc(scan.cps)
Same(cps) == cps

ToUcs4From8(s)   == Convert(Scan8(s), kUtf8, Same)
ToUtf16From8(s)  == Convert(Scan8(s), kUtf16, EncAll16)
ToUcs2From8(s)   == Convert(Scan8(s), kUcs2, Same)
ToUtf8From16(s)  == Convert(Scan16(s), kUtf8, EncAll8)
ToUcs4From16(s)  == Convert(Scan16(s), kUcs4, Same)
ToUtf8From32(s)  == Convert(ScanU4(s), kUtf8, EncAll8)
ToUtf16From32(s) == Convert(ScanU4(s), kUtf16, EncAll16)
ToUcs2From32(s)  == Convert(ScanU4(s), kUcs2, Same)

\* code points in a string; `top` is the greatest that counts as Unicode there (-1: none)
Count(scan, r) == IF scan.st = "bad" \/ ~AllInRange(r, scan.cps) THEN 0 ELSE Len(scan.cps)
UnicodeLength8(s)  == Count(Scan8(s), kUnicode)
UnicodeLength16(s) == Count(Scan16(s), kUcs4)
UnicodeLength32(s) == Count(ScanU4(s), kUcs4)

(***************************************************************************)
(* Length-terminated scans: the caller's memory `m` may hold more units    *)
(* than n, but only the first n count.  With n = 0 the NUL terminates.     *)
(*   sees    the string that is judged                                     *)
(*   nulAt   a NUL among the n: where its prefix leaves the machine decides*)
(* Unspecified (any answer): a NUL inside of a multi-unit sequence; and a  *)
(* string that ends in a cut-off ED B0..BF, which the two forms of isUtf8  *)
(* judge differently.                                                      *)
(***************************************************************************)
First(m, n) == SubSeq(m, 1, n)
HasNul(s) == \E i \in DOMAIN s : s[i] = 0
EndsInLowLead(s, x) == x.st = "cut" /\ Len(s) = x.used + 2 /\ s[x.used + 1] = 237 /\ s[x.used + 2] >= 176

\* the allowed answers, as sets; holds is the predicate in force
IsUtf8N(m, n, holds(_)) ==
    IF m = <<>> THEN {TRUE}                     \* null
    ELSE IF n = 0 THEN {IsUtf8P(CStr(m), kUtf8, holds)}
    ELSE IF m[1] = 0 THEN {TRUE}
    ELSE LET s == First(m, n)
             c == CStr(s)
             x == Scan8(c)
         IN  IF ~HasNul(s)
             THEN IF EndsInLowLead(s, x) THEN {FALSE, IsUtf8P(s, kUtf8, holds)} ELSE {IsUtf8P(s, kUtf8, holds)}
             ELSE IF x.st = "cut" /\ IsUtf8P(c, kUtf8, holds) THEN BOOLEAN ELSE {FALSE}

LenN(scan(_), r, m, n) ==
    IF m = <<>> THEN {0}
    ELSE IF n = 0 THEN {Count(scan(CStr(m)), r)}
    ELSE IF m[1] = 0 THEN {0}
    ELSE LET s == First(m, n)
             x == scan(CStr(s))
         IN  IF ~HasNul(s)
             THEN IF EndsInLowLead(s, x) THEN {0, Count(x, r)} ELSE {Count(x, r)}
             ELSE IF x.st = "cut" THEN 0..Len(x.cps) ELSE {0}
UnicodeLength8N(m, n)  == LenN(Scan8, kUnicode, m, n)
UnicodeLength16N(m, n) == LenN(Scan16, kUcs4, m, n)
UnicodeLength32N(m, n) == LenN(ScanU4, kUcs4, m, n)

(***************************************************************************)
(* decodeUtf8: the code point at the start of a string (memory that ends   *)
(* with a NUL) and the cursor, an index from 0, or -1 for null.            *)
(***************************************************************************)
RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(s, i, q, acc) ==
    LET u == IF i > Len(s) THEN 0 ELSE s[i]
    IN  IF u = 0 THEN <<0, i - 1>>
        ELSE LET t == Trans8(q, u)
                 r == t.mul * acc + (u + t.add)
             IN  IF t.to = Broken THEN <<0, -1>>
                 ELSE IF t.emit THEN <<r, i - 1>>
                 ELSE DecodeFrom(s, i + 1, t.to, r)
DecodeUtf8(s) == DecodeFrom(s, 1, Start, 0)
=============================================================================
