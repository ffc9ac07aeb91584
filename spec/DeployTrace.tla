---------------------------- MODULE DeployTrace ----------------------------
(***************************************************************************)
(* Sessions with the real scripts (trace.ndjson, one per line): plat and   *)
(* steps, each with its operation and what was found afterwards:           *)
(*   rc      exit status                                                   *)
(*   tree    1 if the sources are as they should be, with nothing beside   *)
(*   others  1 if all that belongs to others is as it was                  *)
(*   mod     1 if FindANSAK.cmake is among the modules, as in the sources  *)
(*   files   of the library: <<area, path, kind, edits it may be from,     *)
(*           version, compiler>>; an area is "build" or a prefix           *)
(*   packs   <<version, files, what uninstalling deletes>> of each package *)
(* A tree made by CMake's own installation is judged as one step.          *)
(***************************************************************************)
EXTENDS Deploy, Json

Trace == ndJsonDeserialize("trace.ndjson")
Range(q) == {q[k] : k \in DOMAIN q}
Is(f, x) == x[1] \in Range(f[4]) /\ (SubSeq(f[3], 1, 2) # "h:" /\ f[3] \notin {"find", "uninstaller"} => f[5] = x[2] /\ f[6] = x[3])
Names(fs) == {<<f[2], f[3]>> : f \in fs}
Area(e, a) == {f \in Range(e.files) : f[1] = a}
Whole(fs, names, x) == IF x = Nothing THEN fs = {} ELSE Names(fs) = names /\ \A f \in fs : Is(f, x)
\* what an installer brings beside the library
Extras == {<<"FindANSAK.cmake", "find">>, <<"uninstall-ansak-string.exe", "uninstaller">>}
PrefixName(p) == "p" \o ToString(p)
Agrees(plat, s, e) ==
    /\ e.tree = 1 /\ e.others = 1 /\ (e.mod = 1) = s.mod
    /\ Whole(Area(e, "build"), Products(plat), s.built)
    /\ \A p \in DOMAIN s.inst : Whole(Area(e, PrefixName(p)), Layout(plat), s.inst[p])
    /\ \A v \in AnyVersion : LET ps == {q \in Range(e.packs) : q[1] = v}
                             IN  IF s.pkg[v] = Nothing THEN TRUE
                                 ELSE \E q \in ps : /\ Whole(Range(q[2]), Layout(plat) \cup Extras, s.pkg[v])
                                                  /\ Range(q[3]) = {n[1] : n \in Layout(plat) \cup Extras}
Ended(plat, s, op, rc) == LET x == Ends(plat, s, op) IN (x = "ok" => rc = 0) /\ (x = "fails" => rc # 0)

VARIABLES l, i, verdict
tvars == <<l, i, verdict, st, last, prev>>
TInit == l \in DOMAIN Trace /\ i = 0 /\ verdict = "start" /\ Init
TStep == /\ verdict = "start" /\ i < Len(Trace[l].steps) /\ i' = i + 1 /\ l' = l
         /\ LET e == Trace[l].steps[i + 1]  plat == Trace[l].plat  op == e.op
            IN  /\ st' = Apply(plat, st, op) /\ last' = op /\ prev' = st
                /\ verdict' = IF Ended(plat, st, op, e.rc) /\ Agrees(plat, st', e) THEN "start" ELSE "rejected"
         /\ (verdict' = "rejected" => PrintT(<<"REJECTED", l>>) /\ PrintT(<<"AT", l, i + 1>>) /\ PrintT(<<"SESSION", l>>))
TEnd == /\ verdict = "start" /\ i = Len(Trace[l].steps) /\ verdict' = "allowed" /\ UNCHANGED <<l, i, st, last, prev>>
        /\ PrintT(<<"SESSION", l>>)
TNext == TStep \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
