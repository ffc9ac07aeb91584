------------------------------ MODULE ApiTrace ------------------------------
(***************************************************************************)
(* Validates recorded calls of the real library (trace.ndjson): each event *)
(* must be allowed, or be a known finding.  The calls are independent of   *)
(* each other (C20), so the trace is cut into Chunks behaviours that TLC   *)
(* explores in parallel; a rejected event is printed and the rest of the   *)
(* trace is still judged.                                                  *)
(***************************************************************************)
EXTENDS Findings

CONSTANT Chunks
Trace == ndJsonDeserialize("trace.ndjson")

VARIABLES chunk, l, verdict
vars == <<chunk, l, verdict>>

Lo(k) == ((k - 1) * Len(Trace)) \div Chunks + 1
Hi(k) == (k * Len(Trace)) \div Chunks

Init == chunk \in 1..Chunks /\ l = Lo(chunk) /\ verdict = "start"

Judge(e) == IF (IF e.k = "rel" THEN AllowedRel(e) ELSE Allowed(e)) THEN "allowed"
            ELSE IF KnownFinding(e) THEN "known" ELSE "rejected"

Step ==
    /\ l <= Hi(chunk)
    /\ verdict' = Judge(Trace[l])
    /\ l' = l + 1
    /\ chunk' = chunk
    /\ (verdict' = "rejected" => PrintT(<<"REJECTED", l>>))
    /\ (verdict' = "known" => PrintT(<<"KNOWN", l>>))
Next == Step
Spec == Init /\ [][Next]_vars
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").distinct - Chunks, Len(Trace)>>)
=============================================================================
