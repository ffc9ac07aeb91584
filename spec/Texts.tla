------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* split, join, trim, and the Windows code pages                           *)
(***************************************************************************)
EXTENDS Codec

\* pieces between delimiters
Breaks(s, d) == AllOf(FoldLeft(LAMBDA acc, i : IF s[i] = d THEN Put(acc, <<i>>) ELSE acc, NoUnits, [i \in 1..Len(s) |-> i]))
Split(s, d) ==
    IF s = <<>> THEN <<>>
    ELSE LET b == Breaks(s, d)  n == Len(b)
         IN  [k \in 1..(n + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE b[k - 1] + 1, IF k > n THEN Len(s) ELSE b[k] - 1)]
Join(pieces, d) ==
    IF pieces = <<>> THEN <<>>
    ELSE AllOf(FoldLeft(LAMBDA acc, p : Put(acc, <<d>> \o p), Put(NoUnits, Head(pieces)), Tail(pieces)))

Trim(s, blanks) ==
    LET keep == {i \in DOMAIN s : s[i] \notin blanks}
    IN  IF keep = {} THEN <<>>
        ELSE SubSeq(s, CHOOSE i \in keep : \A j \in keep : i <= j,
                       CHOOSE i \in keep : \A j \in keep : i >= j)
Spaces     == {32}
Ascii7     == {9, 10, 13, 32}
\* tab, LF, CR and the space separators (Zs)
TrimBlanks == {9, 10, 13, 32, 160, 5760} \cup (8192..8202) \cup {8239, 8287, 12288}
TrimWS8(s) == LET x == Scan8(CStr(s)) IN IF x.st = "bad" THEN <<>> ELSE EncAll8(Trim(x.cps, TrimBlanks))

(***************************************************************************)
(* Code pages: code points of bytes 0x80..0xff, 0 where undefined          *)
(***************************************************************************)
Cp1252 == << 8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 0, 381, 0,
             0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 0, 382, 376 >>
          \o [i \in 1..96 |-> 159 + i]
Cp1250 == << 8364, 0, 8218, 0, 8222, 8230, 8224, 8225, 0, 8240, 352, 8249, 346, 356, 381, 377,
             0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 353, 8250, 347, 357, 382, 378,
             160, 711, 728, 321, 164, 260, 166, 167, 168, 169, 350, 171, 172, 173, 174, 379,
             176, 177, 731, 322, 180, 181, 182, 183, 184, 261, 351, 187, 317, 733, 318, 380,
             340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270,
             272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223,
             341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271,
             273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729 >>
CpOf(table, b) == IF b < 128 THEN b ELSE table[b - 127]
FromCp(table, s) ==
    IF \E i \in DOMAIN s : CpOf(table, s[i]) = 0 THEN <<>>
    ELSE EncAll8([i \in DOMAIN s |-> CpOf(table, s[i])])
\* SourceEncoding 0 kSrcUnicode, 1 kSrcCP1252, 2 kSrcCP1250
ToUtf8FromSource(s, enc) ==
    CASE enc = 0 -> IF IsUtf8(s, kUtf8) THEN s ELSE <<>>
      [] enc = 1 -> FromCp(Cp1252, s)
      [] enc = 2 -> FromCp(Cp1250, s)
      [] OTHER   -> <<>>
=============================================================================
