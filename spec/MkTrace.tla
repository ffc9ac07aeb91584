------------------------------ MODULE MkTrace ------------------------------
(***************************************************************************)
(* Runs of the real tool (trace.ndjson, one per line):                     *)
(*   nargs, input (1: there is one), writable (1: the output can be made), *)
(*   lines, readall (0: reading fails), fits (0: the output does not fit), *)
(*   and what came of it: rc, touched (1: the output file is not as *)
(*   it was), form (1: the output is empty or one well-formed array),      *)
(*   entries (its values)                                                  *)
(***************************************************************************)
EXTENDS MkData, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, verdict
tvars == <<l, verdict>>
Judge(e) ==
    /\ e.rc = ExitOf(e.nargs, e.input = 1, e.writable = 1, e.readall = 1, e.lines, e.fits = 1)
    /\ (e.rc \in {1, 2, 3} => e.touched = 0)
    /\ (e.rc = 0 => e.form = 1 /\ e.entries = Array(e.lines))
TInit == l \in DOMAIN Trace /\ verdict = "start" /\ nargs = 0 /\ hasInput = FALSE /\ canWrite = FALSE /\ lines = <<>> /\ i = 0 /\ readable = 0 /\ room = 0 /\ written = <<>> /\ touched = FALSE /\ rc = -1
TNext == /\ verdict = "start" /\ verdict' = (IF Judge(Trace[l]) THEN "allowed" ELSE "rejected") /\ l' = l /\ UNCHANGED mvars
         /\ (verdict' = "rejected" => PrintT(<<"REJECTED", l>>))
         /\ PrintT(<<"SESSION", l>>)
TSpec == TInit /\ [][TNext]_<<l, verdict, mvars>>
=============================================================================
