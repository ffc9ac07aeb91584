------------------------------ MODULE Findings ------------------------------
(***************************************************************************)
(* Known findings: deviations of the library from the specification that   *)
(* its own tests pin, so that they are recorded (known_findings.json) and  *)
(* not repaired.  Each one names exactly the calls and the wrong result.   *)
(***************************************************************************)
EXTENDS Rel

\* unicodeLength of a NUL-terminated string that ends in a cut-off sequence is one too small
CutLength(e) ==
    /\ e.out = "ok" /\ e.k = "api" /\ e.op \in {"ulen8", "ulen16", "ulen8N", "ulen16N"}
    /\ (e.op \in {"ulen8N", "ulen16N"} => e.a[1] = 0)
    /\ LET x == IF e.op \in {"ulen8", "ulen8N"} THEN Scan8(CStr(e.x)) ELSE Scan16(CStr(e.x))
           n == Len(x.cps)
       IN  /\ x.st = "cut" /\ n >= 1 /\ e.r = <<n - 1>>
           /\ AllInRange(IF e.op \in {"ulen8", "ulen8N"} THEN kUnicode ELSE kUcs4, x.cps)

KnownFinding(e) == CutLength(e)
=============================================================================
