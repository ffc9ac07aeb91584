----------------------------- MODULE FindTrace -----------------------------
(***************************************************************************)
(* Runs of the real CMake (trace.ndjson, one per line).  k = "find": a     *)
(* world and what FindANSAK.cmake made of it:                              *)
(*   rc 0/1 configured; found, libf, sqlitef: ANSAK_FOUND, _LIB_FOUND,     *)
(*   _SQLITE_FOUND; string, lib, sqlitelib: the place whose library the    *)
(*   variable names exactly ("-" unset, "?" anything else); include: the   *)
(*   place that ANSAK_INCLUDE names; dirs: the places that are among the   *)
(*   include directories of a target; again: 1 if a second run agrees.     *)
(* k = "use": a project (how: "find" after the Makefile's installation,    *)
(* "cmake" after CMake's own, "sub" as a sub-directory) that includes all  *)
(* public headers and calls the library: built, ran, version, want.        *)
(***************************************************************************)
EXTENDS Find, Json

Trace == ndJsonDeserialize("trace.ndjson")
Range(q) == {q[k] : k \in DOMAIN q}
World(e) == [plat |-> e.plat, at |-> [p \in Places |-> Range(e.at[p])], var |-> e.var, env |-> e.env, sqlite |-> e.sqlite = 1, isolate |-> e.isolate = 1]
FindOk(e) ==
    LET x == World(e)  r == Result(x)
    IN  \/ Open(x)
        \/ IF ~r.ok THEN e.rc # 0 /\ e.found = 0
           ELSE /\ e.rc = 0 /\ e.found = 1 /\ e.string = r.root /\ e.include = r.root
                /\ (e.libf = 1) = r.lib /\ (r.lib => e.lib = r.root)
                /\ (e.sqlitef = 1) = r.sqlite /\ (r.sqlite => e.sqlitelib = r.root)
                /\ Range(e.dirs) = (IF r.dirs THEN {r.root} ELSE {})
                /\ e.again = 1
UseOk(e) == e.built = 1 /\ e.ran = 1 /\ e.version = e.want
Allowed(e) == CASE e.k = "find" -> FindOk(e) [] e.k = "use" -> UseOk(e)

VARIABLES l, verdict
TInit == l \in DOMAIN Trace /\ verdict = "start" /\ world = [plat |-> "unix"] /\ got = Nothing
TStep == /\ verdict = "start" /\ verdict' = (IF Allowed(Trace[l]) THEN "allowed" ELSE "rejected") /\ UNCHANGED <<l, world, got>>
         /\ (verdict' = "rejected" => PrintT(<<"REJECTED", l>>)) /\ PrintT(<<"SESSION", l>>)
TSpec == TInit /\ [][TStep]_<<l, verdict, world, got>>
=============================================================================
