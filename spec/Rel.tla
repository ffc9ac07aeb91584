-------------------------------- MODULE Rel --------------------------------
(***************************************************************************)
(* Properties that relate calls to each other rather than to the tables:   *)
(* an event carries the results of all the calls involved.                 *)
(*   isto*    r = <<is, is of the string without its cut-off end>>, t = to *)
(*   cutIs* cutTo*   r: with the cut-off end, b: without it                *)
(*   insideIs* insideTo*   a string that breaks inside of a sequence       *)
(*   pIs*     r: with predicate p, b: without, h: the predicate's own      *)
(*            answer for each complete code point                          *)
(*   wideRel  r: a wchar_t function, b: the function it stands for          *)
(*   lower*   m: the lower case of each code point as a string of its own  *)
(***************************************************************************)
EXTENDS Api

ScanFor(w, s) == CASE w = 8 -> Scan8(s) [] w = 16 -> Scan16(s) [] w = 2 -> ScanU2(s) [] w = 32 -> ScanU4(s)
EncFor(w, r, cps) ==
    CASE r = kUtf8 -> EncAll8(cps) [] r = kUtf16 -> EncAll16(cps) [] r \in {kUcs2, kUcs4} -> cps
WidthOf(op) == CASE op \in {"isto8", "cutIs8", "cutTo8", "insideIs8", "insideTo8", "pIsUtf8", "pIsUtf8N", "lower8"} -> 8
                 [] op \in {"isto16", "cutIs16", "cutTo16", "insideIs16", "insideTo16", "pIsUtf16", "lower16"} -> 16
                 [] op = "pIsUcs2" -> 2
                 [] op \in {"isto32", "pIsUcs4", "lower32"} -> 32

IsTo(e) ==
    LET x == ScanFor(WidthOf(e.op), CStr(e.x))  r == e.a[1] IN
    /\ e.r[1] = 1 => IF x.st # "bad" /\ AllInRange(r, x.cps) THEN e.t = EncFor(WidthOf(e.op), r, x.cps)
                     ELSE x.cps # <<>> => e.t # <<>>
    /\ (e.r[1] = 0 /\ e.r[2] = 0) => e.t = <<>>

CutRel(e) ==
    LET w == WidthOf(e.op)  s == CStr(e.x)  x == ScanFor(w, s) IN
    CASE e.op \in {"cutTo8", "cutTo16"} -> x.st = "cut" => e.r = e.b
      [] e.op \in {"cutIs8", "cutIs16"} ->
            x.st = "cut" => ((e.r = <<1>>) <=> (e.b = <<1>> /\ (IF w = 8 THEN LeadFits8(e.a[1], s[x.used + 1]) ELSE LeadFits16(e.a[1]))))
      [] e.op \in {"insideIs8", "insideIs16"} -> x.st = "bad" => e.r = <<0>>
      [] e.op \in {"insideTo8", "insideTo16"} -> x.st = "bad" => e.r = <<>>

PredRel(e) ==
    LET x == ScanFor(WidthOf(e.op), CStr(e.x)) IN
    IF CondsOf(e.p) = {} THEN e.r = e.b
    ELSE \/ x.st = "bad" /\ e.b = <<1>>
         \/ /\ Len(e.h) = Len(x.cps)
            /\ (e.r = <<1>>) <=> (e.b = <<1>> /\ \A i \in DOMAIN e.h : e.h[i] = 1)

LowerRel(e) ==
    LET w == WidthOf(e.op)
        x == ScanFor(w, CStr(e.x))
        cps == IF w = 32 THEN e.x ELSE x.cps
        m == [i \in DOMAIN cps |-> IF cps[i] = 73 THEN (IF IsTurkic(e.a) THEN 305 ELSE 105) ELSE e.m[i]]
    IN  IF w = 32 THEN e.r = m
        ELSE IF x.st = "bad" \/ ~AllInRange(IF w = 8 THEN kUtf8 ELSE kUtf16, m) THEN e.r = <<>>
        ELSE e.r = (IF w = 8 THEN EncAll8(m) ELSE EncAll16(m))

RelOps == {"isto8", "isto16", "isto32", "cutIs8", "cutTo8", "insideIs8", "insideTo8", "cutIs16", "cutTo16", "insideIs16", "insideTo16",
           "pIsUtf8", "pIsUtf8N", "pIsUtf16", "pIsUcs2", "pIsUcs4", "lower8", "lower16", "lower32", "wideRel"}
AllowedRel(e) ==
    /\ e.out = "ok"
    /\ CASE e.op \in {"isto8", "isto16", "isto32"} -> IsTo(e)
         [] e.op \in {"pIsUtf8", "pIsUtf8N", "pIsUtf16", "pIsUcs2", "pIsUcs4"} -> PredRel(e)
         [] e.op \in {"lower8", "lower16", "lower32"} -> LowerRel(e)
         [] e.op = "wideRel" -> e.r = e.b
         [] OTHER -> CutRel(e)
=============================================================================
