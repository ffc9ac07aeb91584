-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* One call of the library as an event, and whether the specification      *)
(* allows it.  An event is a record                                        *)
(*   k   "api", "wide" for the wchar_t and TCHAR adapters; Rel.tla has more*)
(*   op  the function (with the width of its source where overloaded);     *)
(*       for "wide" <<build, function, width of the source>>               *)
(*   a   further arguments, integers                                       *)
(*   p   conditions of the predicate, <<t, wanted>>                        *)
(*   v   the Unicode version of the build                                  *)
(*   x   the source, units (null pointers are logged as empty)             *)
(*   r   the result: units of a string, <<0>> or <<1>>, or <<number>>      *)
(*   out "ok", or how the call ended instead ("crash", "hang", "throw",    *)
(*       "overread", "modified": none of them is ever allowed)             *)
(***************************************************************************)
EXTENDS Texts, Preds, Wide

B(b) == IF b THEN <<1>> ELSE <<0>>

ConvertOps == {"toUcs4_8", "toUtf16_8", "toUcs2_8", "toUtf8_16", "toUcs4_16", "toUtf8_32", "toUtf16_32", "toUcs2_32"}
Conversion(op, s) ==
    CASE op = "toUcs4_8"   -> ToUcs4From8(s)   [] op = "toUtf16_8"  -> ToUtf16From8(s)
      [] op = "toUcs2_8"   -> ToUcs2From8(s)   [] op = "toUtf8_16"  -> ToUtf8From16(s)
      [] op = "toUcs4_16"  -> ToUcs4From16(s)  [] op = "toUtf8_32"  -> ToUtf8From32(s)
      [] op = "toUtf16_32" -> ToUtf16From32(s) [] op = "toUcs2_32"  -> ToUcs2From32(s)

LenSet(e) ==
    CASE e.op = "ulen8"   -> {UnicodeLength8(CStr(e.x))}
      [] e.op = "ulen16"  -> {UnicodeLength16(CStr(e.x))}
      [] e.op = "ulen32"  -> {UnicodeLength32(CStr(e.x))}
      [] e.op = "ulen8N"  -> UnicodeLength8N(e.x, e.a[1])
      [] e.op = "ulen16N" -> UnicodeLength16N(e.x, e.a[1])
      [] e.op = "ulen32N" -> UnicodeLength32N(e.x, e.a[1])

WideResult(e) ==
    LET b == e.op[1]  f == e.op[2]  w == e.op[3]  s == CStr(e.x) IN
    CASE b = "w32" /\ f \in {"isUtf8", "isUtf16", "isUcs2", "isUcs4"} -> B(W32Is(f, s))
      [] b = "w32" /\ f = "isWstring" -> B(W32IsW(w, s))
      [] b = "w32" /\ f = "toWstring" -> W32ToW(w, s)
      [] b = "w32" /\ f \in {"toUtf8", "toUtf16", "toUcs2", "toUcs4"} -> W32To(f, s)
      [] b = "w16" /\ f \in {"isUtf8", "isUtf16", "isUcs2", "isUcs4"} -> B(W16Is(f, s))
      [] b = "w16" /\ f = "isWstring" -> B(W16IsW(w, s))
      [] b = "w16" /\ f = "toWstring" -> W16ToW(w, s)
      [] b = "w16" /\ f \in {"toUtf8", "toUtf16", "toUcs2", "toUcs4"} -> W16To(f, s)
      [] b \in {"tn", "tw"} /\ f = "isTstring" -> B(TIsT(w, s))
      [] b \in {"tn", "tw"} /\ f \in {"isUtf16", "isUcs2", "isUcs4"} -> B(TNarrowIs(f, s))
      [] b \in {"tn", "tw"} /\ f = "toUtf8" -> TNarrowToUtf8(s)
      [] b = "tn" /\ f = "toTstring" -> TnToT(w, s)
      [] b = "tw" /\ f = "toTstring" -> TwToT(w, s)

Result(e) ==        \* ops with exactly one allowed result
    CASE e.op = "isUtf8"  -> B(IsUtf8P(CStr(e.x), e.a[1], LAMBDA c : Holds(e.v, CondsOf(e.p), c)))
      [] e.op = "isUtf16" -> B(IsUtf16P(CStr(e.x), e.a[1], LAMBDA c : Holds(e.v, CondsOf(e.p), c)))
      [] e.op = "isUcs2"  -> B(IsUcs2P(CStr(e.x), e.a[1], LAMBDA c : Holds(e.v, CondsOf(e.p), c)))
      [] e.op = "isUcs4"  -> B(IsUcs4P(CStr(e.x), e.a[1], LAMBDA c : Holds(e.v, CondsOf(e.p), c)))
      [] e.op \in ConvertOps -> Conversion(e.op, CStr(e.x))
      [] e.op = "fromSource" -> ToUtf8FromSource(CStr(e.x), e.a[1])
      [] e.op = "split"   -> Split(e.x, e.a[1])
      [] e.op = "join"    -> Join(e.x, e.a[1])
      [] e.op = "trim"    -> Trim(e.x, Spaces)
      [] e.op = "trimSet" -> Trim(e.x, {e.a[i] : i \in DOMAIN e.a})
      [] e.op = "trimA7"  -> Trim(e.x, Ascii7)
      [] e.op = "trimWS8" -> TrimWS8(e.x)
      [] e.op \in {"trimWS16", "trimWS32"} -> Trim(e.x, TrimBlanks)
      [] e.op = "decode8" -> DecodeUtf8(e.x)
      [] e.op = "pred8"   -> B(HoldsChar(CondsOf(e.p), e.x[1]))
      [] e.op \in {"pred16", "pred32"} -> B(Holds(e.v, CondsOf(e.p), e.x[1]))

LenOps == {"ulen8", "ulen16", "ulen32", "ulen8N", "ulen16N", "ulen32N"}
Allowed(e) ==
    /\ e.out = "ok"
    /\ CASE e.k = "wide" -> e.r = WideResult(e)
         [] e.op \in LenOps -> e.r[1] \in LenSet(e)
         [] e.op = "isUtf8N" -> e.r \in {B(b) : b \in IsUtf8N(e.x, e.a[1], LAMBDA c : Holds(e.v, CondsOf(e.p), c))}
         [] OTHER -> e.r = Result(e)
=============================================================================
