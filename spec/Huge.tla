-------------------------------- MODULE Huge --------------------------------
(***************************************************************************)
(* Calls with strings too long to write down: pre \o pat^n \o tail, n as   *)
(* <<n \div 65536, n % 65536>>.  A pattern of complete sequences leaves    *)
(* the machines where it found them, so results have closed forms in n.    *)
(* Each closed form is compared, event by event, with the definitions in   *)
(* Codec and Texts for small n (Lemma); what the library said is compared  *)
(* with the closed form at the real n.                                     *)
(***************************************************************************)
EXTENDS Api

CONSTANT Chunks
Trace == ndJsonDeserialize("trace.ndjson")

\* numbers as pairs
Plus(p, a) == <<p[1] + ((p[2] + a) \div 65536), (p[2] + a) % 65536>>
Times(p, m) == <<p[1] * m + ((p[2] * m) \div 65536), (p[2] * m) % 65536>>
Zero == <<0, 0>>

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
Mem(e, n) == e.pre \o Rep(e.pat, n) \o e.tail

(***************************************************************************)
(* By the definitions, for a string that can be written down               *)
(***************************************************************************)
IsBy(e, s) ==
    CASE e.op = "is" /\ e.w = 8  -> IsUtf8(s, e.a)
      [] e.op = "is" /\ e.w = 16 -> IsUtf16(s, e.a)
      [] e.op = "is" /\ e.w = 32 -> IsUcs4(s, e.a)
      [] e.op = "isUcs2" -> IsUcs2(s, e.a)
IsNBy(m) == IsUtf8N(m, Len(m), NoCheck)
LenBy(e, s) == CASE e.w = 8 -> UnicodeLength8(s) [] e.w = 16 -> UnicodeLength16(s) [] e.w = 32 -> UnicodeLength32(s)
LenNBy(e, m) == CASE e.w = 8 -> UnicodeLength8N(m, Len(m)) [] e.w = 16 -> UnicodeLength16N(m, Len(m)) [] e.w = 32 -> UnicodeLength32N(m, Len(m))
ScanBy(e, s) == CASE e.w = 8 -> Scan8(s) [] e.w = 16 -> Scan16(s) [] e.w = 32 -> ScanU4(s)
StrOps == {"toUcs4", "toUtf16", "toUcs2", "toUtf8", "fromSource"}
StrBy(e, s) ==
    CASE e.op = "fromSource" -> ToUtf8FromSource(s, e.a)
      [] e.op = "toUcs4"  -> IF e.w = 8 THEN ToUcs4From8(s) ELSE ToUcs4From16(s)
      [] e.op = "toUtf16" -> IF e.w = 8 THEN ToUtf16From8(s) ELSE ToUtf16From32(s)
      [] e.op = "toUcs2"  -> IF e.w = 8 THEN ToUcs2From8(s) ELSE ToUcs2From32(s)
      [] e.op = "toUtf8"  -> IF e.w = 16 THEN ToUtf8From16(s) ELSE ToUtf8From32(s)
TrimOps == {"trim", "trimA7", "trimWS8", "trimWS"}
Blanks(e) == CASE e.op = "trim" -> Spaces [] e.op = "trimA7" -> Ascii7 [] OTHER -> TrimBlanks
TrimBy(e, s) == IF e.op = "trimWS8" THEN TrimWS8(s) ELSE Trim(s, Blanks(e))

(***************************************************************************)
(* Closed forms                                                            *)
(***************************************************************************)
Refused(e) == StrBy(e, e.pat) = <<>> \/ (e.tail # <<>> /\ StrBy(e, e.tail) = <<>> /\ ~(e.op # "fromSource" /\ ScanBy(e, e.tail).st = "cut"))
\* units that trimming takes off a string of nothing but blanks in front of (behind) something else
FrontCut(e) == Len(e.pre \o e.pat) - Len(TrimBy(e, e.pre \o e.pat))
BackCut(e)  == Len(e.pat \o e.tail) - Len(TrimBy(e, e.pat \o e.tail))
PiecesOf(s, d) == IF s = <<>> THEN << <<>> >> ELSE Split(s, d)
NullRun(e) == e.pat = <<0>>

Whole(e) ==         \* what the closed forms rest on
    CASE NullRun(e) -> e.op \in {"isN", "ulenN"} /\ e.pre # <<>> /\ e.tail = <<>> /\ ScanBy(e, e.pre).st = "ok"
      [] e.op \in TrimOps -> e.pat # <<>> /\ TrimBy(e, e.pat) = e.pat
      [] e.op \in {"split", "join"} -> e.pat # <<>> /\ \A i \in DOMAIN e.pat : e.pat[i] # e.a
      [] e.op = "fromSource" -> e.pre = <<>> /\ e.pat # <<>> /\ (e.a = 0 => Scan8(e.pat).st = "ok")
      [] OTHER -> e.pre = <<>> /\ e.pat # <<>> /\ ScanBy(e, e.pat).st = "ok"

IsClosed(e) == IsBy(e, e.pat) /\ (e.tail = <<>> \/ IsBy(e, e.tail))
IsNClosed(e) == IF NullRun(e) THEN {FALSE} ELSE {a /\ b : a \in IsNBy(e.pat), b \in (IF e.tail = <<>> THEN {TRUE} ELSE IsNBy(e.tail))}
LenClosed(e, n) ==
    IF NullRun(e) THEN Zero
    ELSE LET c == LenBy(e, e.pat)  t == LenBy(e, e.tail)
             broken == c = 0 \/ ScanBy(e, e.tail).st = "bad" \/ (t = 0 /\ Len(ScanBy(e, e.tail).cps) > 0)
         IN  IF broken THEN Zero ELSE Plus(Times(n, c), t)
SplitClosed(e, n) ==     \* the lengths of the pieces
    LET A == PiecesOf(e.pre, e.a)  C == PiecesOf(e.tail, e.a)
    IN  [i \in 1..(Len(A) - 1) |-> <<0, Len(A[i])>>]
        \o << Plus(Times(n, Len(e.pat)), Len(A[Len(A)]) + Len(C[1])) >>
        \o [i \in 1..(Len(C) - 1) |-> <<0, Len(C[i + 1])>>]

Small == 1..4
Lemma(e) ==
    /\ Whole(e)
    /\ \A n \in Small : LET m == Mem(e, n)  p == <<0, n>> IN
       CASE e.op \in {"is", "isUcs2"} -> IsBy(e, m) = IsClosed(e)
         [] e.op = "isN"   -> IsNClosed(e) = IsNBy(m)
         [] e.op = "ulen"  -> <<0, LenBy(e, m)>> = LenClosed(e, p)
         [] e.op = "ulenN" -> {LenClosed(e, p)} = {<<0, x>> : x \in LenNBy(e, m)}
         [] e.op \in StrOps -> StrBy(e, m) = IF Refused(e) THEN <<>> ELSE Rep(StrBy(e, e.pat), n) \o StrBy(e, e.tail)
         [] e.op \in TrimOps -> TrimBy(e, m) = SubSeq(m, FrontCut(e) + 1, Len(m) - BackCut(e))
         [] e.op = "split" -> [i \in DOMAIN Split(m, e.a) |-> <<0, Len(Split(m, e.a)[i])>>] = SplitClosed(e, p)
         [] e.op = "join"  -> Join(Split(m, e.a), e.a) = m

Total(e) == Plus(Times(e.n, Len(e.pat)), Len(e.pre) + Len(e.tail))
\* pre \o pat^n \o tail without its first and last units
Minus(p, a) == IF p[2] >= a THEN <<p[1], p[2] - a>> ELSE <<p[1] - 1, p[2] + 65536 - a>>
AllowedHuge(e) ==
    /\ e.out = "ok"
    /\ CASE e.op \in {"is", "isUcs2"} -> e.r = B(IsClosed(e))
         [] e.op = "isN"   -> e.r \in {B(b) : b \in IsNClosed(e)}
         [] e.op \in {"ulen", "ulenN"} -> e.r = LenClosed(e, e.n)
         [] e.op \in StrOps ->
              LET p == StrBy(e, e.pat)  t == StrBy(e, e.tail) IN
              IF Refused(e) THEN e.len = Zero
              ELSE /\ e.q = Len(p) /\ e.t = Len(t) /\ e.head = p /\ e.end = t /\ e.r = <<1>>
                   /\ e.len = Plus(Times(e.n, Len(p)), Len(t))
         [] e.op \in TrimOps -> e.off = FrontCut(e) /\ e.len = Minus(Total(e), FrontCut(e) + BackCut(e)) /\ e.r = <<1>>
         [] e.op = "split" -> e.lens = SplitClosed(e, e.n) /\ e.r = <<1>>
         [] e.op = "join"  -> e.len = Total(e) /\ e.r = <<1>>

VARIABLES l, verdict
vars == <<l, verdict>>
Init == l = 1 /\ verdict = "start"
Step ==
    /\ l <= Len(Trace)
    /\ Assert(Lemma(Trace[l]), <<"closed form", Trace[l]>>)
    /\ verdict' = IF AllowedHuge(Trace[l]) THEN "allowed" ELSE "rejected"
    /\ l' = l + 1
    /\ (verdict' = "rejected" => PrintT(<<"REJECTED", l>>))
Spec == Init /\ [][Step]_vars
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").distinct - 1, Len(Trace)>>)
=============================================================================
