----------------------------- MODULE MakeTimes -----------------------------
(***************************************************************************)
(* How make decides that there is something to do: by time stamps of the   *)
(* sources it knows (the list that configure writes), of the configuration *)
(* and of a touch file.  Refines Deploy's library; if clean loses the list *)
(* (KeepsList = FALSE) it does not: a later edit goes unnoticed.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Vers, MaxTime, KeepsList
VARIABLES now, tSrc, tConf, tTouch, list, src, ver, lib, asked
vars == <<now, tSrc, tConf, tTouch, list, src, ver, lib, asked>>
None == <<>>
Init == now = 1 /\ tSrc = 0 /\ tConf = 0 /\ tTouch = 0 /\ list = FALSE /\ src = 0 /\ ver = 0 /\ lib = None /\ asked = FALSE
Tick == now < MaxTime /\ now' = now + 1
Configure(v) == Tick /\ ver' = v /\ tConf' = now /\ list' = TRUE /\ asked' = FALSE /\ UNCHANGED <<tSrc, tTouch, src, lib>>
Edit == Tick /\ src' = src + 1 /\ tSrc' = now /\ asked' = FALSE /\ UNCHANGED <<tConf, tTouch, list, ver, lib>>
Needed == tTouch = 0 \/ tConf > tTouch \/ (list /\ tSrc > tTouch)
All == /\ Tick /\ ver # 0 /\ asked' = TRUE
       /\ IF Needed THEN lib' = <<src, ver>> /\ tTouch' = now ELSE UNCHANGED <<lib, tTouch>>
       /\ UNCHANGED <<tSrc, tConf, list, src, ver>>
Clean == Tick /\ lib' = None /\ tTouch' = 0 /\ list' = (list /\ KeepsList) /\ asked' = FALSE /\ UNCHANGED <<tSrc, tConf, src, ver>>
Scrub == Tick /\ lib' = None /\ tTouch' = 0 /\ list' = FALSE /\ ver' = 0 /\ tConf' = 0 /\ asked' = FALSE /\ UNCHANGED <<tSrc, src>>
Next == (\E v \in Vers : Configure(v)) \/ Edit \/ All \/ Clean \/ Scrub
Spec == Init /\ [][Next]_vars
UpToDate == asked => lib = <<src, ver>>
=============================================================================
