-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* The wchar_t adapters (wchar_t of 32 bits: UCS-4; of 16 bits: UTF-16)    *)
(* and the Windows TCHAR adapters (narrow: char; wide: 16-bit wchar_t).    *)
(* Operators are named by the function and the width of the source.        *)
(***************************************************************************)
EXTENDS Codec

CopyIf(ok, s) == IF ok THEN s ELSE <<>>

\* wchar_t of 32 bits
W32Is(fn, s) == IsUcs4(s, IF fn = "isUcs2" THEN kUcs2 ELSE kUtf16)
W32To(fn, s) == CASE fn = "toUtf8"  -> ToUtf8From32(s)
                  [] fn = "toUtf16" -> ToUtf16From32(s)
                  [] fn = "toUcs2"  -> ToUcs2From32(s)
                  [] fn = "toUcs4"  -> CopyIf(IsUcs4(s, kUtf16), s)
W32IsW(src, s) == CASE src = 8 -> IsUtf8(s, kUtf16) [] src = 16 -> IsUtf16(s, kUcs4) [] src = 32 -> IsUcs4(s, kUtf16)
W32ToW(src, s) == CASE src = 8 -> ToUcs4From8(s) [] src = 16 -> ToUcs4From16(s)
                    [] src = 32 -> CopyIf(IsUcs4(s, kUtf16), s)

\* wchar_t of 16 bits
W16Is(fn, s) == IsUtf16(s, IF fn = "isUcs2" THEN kUcs2 ELSE kUtf16)
W16To(fn, s) == CASE fn = "toUtf8"  -> ToUtf8From16(s)
                  [] fn = "toUtf16" -> CopyIf(IsUtf16(s, kUtf16), s)
                  [] fn = "toUcs2"  -> CopyIf(IsUcs2(s, kUcs2), s)
                  [] fn = "toUcs4"  -> ToUcs4From16(s)
W16IsW(src, s) == CASE src = 8 -> IsUtf8(s, kUtf16) [] src = 16 -> IsUtf16(s, kUtf16) [] src = 32 -> IsUcs4(s, kUtf16)
W16ToW(src, s) == CASE src = 8 -> ToUtf16From8(s) [] src = 16 -> CopyIf(IsUtf16(s, kUtf16), s)
                    [] src = 32 -> ToUtf16From32(s)

\* TCHAR: both builds classify alike
TIsT(src, s) == CASE src = 8 -> IsUtf8(s, kUtf16) [] src = 16 -> IsUtf16(s, kUtf16) [] src = 32 -> IsUcs4(s, kUtf16)
\* Windows builds: functions of narrow strings
TNarrowIs(fn, s) == IsUtf8(s, CASE fn = "isUtf16" -> kUtf16 [] fn = "isUcs2" -> kUcs2 [] fn = "isUcs4" -> kUcs4)
TNarrowToUtf8(s) == CopyIf(IsUtf8(s, kUtf8), s)
\* toTstring, narrow and wide
TnToT(src, s) == CASE src = 8  -> CopyIf(IsUtf8(s, kAscii), s)
                   [] src = 16 -> CopyIf(IsUtf16(s, kAscii), s)
                   [] src = 32 -> CopyIf(IsUcs4(s, kAscii), s)
TwToT(src, s) == W16ToW(src, s)
=============================================================================
