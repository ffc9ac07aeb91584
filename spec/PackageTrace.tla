---------------------------- MODULE PackageTrace ----------------------------
(***************************************************************************)
(* Sessions with the real scripts, CMake and CPack (trace.ndjson, one per  *)
(* line): distro, tools, and steps, each with its operation and            *)
(*   rc    exit status                                                     *)
(*   tree  1 if the sources are as they should be, with nothing beside     *)
(*   pkgs  the packages in the build directory: <<format, version its name *)
(*         tells, edits its contents may be from, version of its library,  *)
(*         whole, meta>>; whole: 1 if it holds the headers and the library *)
(*         where they belong and nothing else, meta: 1 if what it says     *)
(*         about itself (name, version, dependencies) is right             *)
(***************************************************************************)
EXTENDS Package, Json, Sequences

Trace == ndJsonDeserialize("trace.ndjson")
Range(q) == {q[k] : k \in DOMAIN q}
Agrees(s, e) ==
    /\ e.tree = 1
    /\ \A f \in Formats, v \in AnyVersion :
          LET ps == {p \in Range(e.pkgs) : p[1] = f /\ p[2] = v}
          IN  IF s.pkgs[f][v] = Nothing THEN ps = {}
              ELSE Cardinality(ps) = 1 /\ \A p \in ps : s.pkgs[f][v] \in Range(p[3]) /\ p[4] = v /\ p[5] = 1 /\ p[6] = 1
    /\ \A p \in Range(e.pkgs) : p[1] \in Formats /\ p[2] \in AnyVersion
Ended(s, op, rc) == LET x == Ends(s, op) IN (x = "ok" => rc = 0) /\ (x = "fails" => rc # 0)

VARIABLES l, i, verdict
tvars == <<l, i, verdict, st, last, prev, distro, tools>>
TInit == /\ l \in DOMAIN Trace /\ i = 0 /\ verdict = "start" /\ st = Fresh /\ last = <<"start", 0>> /\ prev = Fresh
         /\ distro = Trace[l].distro /\ tools = Range(Trace[l].tools)
TStep == /\ verdict = "start" /\ i < Len(Trace[l].steps) /\ i' = i + 1 /\ l' = l /\ UNCHANGED <<distro, tools>>
         /\ LET e == Trace[l].steps[i + 1]  op == e.op
            IN  /\ st' = Apply(st, op, distro, tools) /\ last' = op /\ prev' = st
                /\ verdict' = IF Ended(st, op, e.rc) /\ Agrees(st', e) THEN "start" ELSE "rejected"
         /\ (verdict' = "rejected" => PrintT(<<"REJECTED", l>>) /\ PrintT(<<"AT", l, i + 1>>) /\ PrintT(<<"SESSION", l>>))
TEnd == /\ verdict = "start" /\ i = Len(Trace[l].steps) /\ verdict' = "allowed" /\ UNCHANGED <<l, i, st, last, prev, distro, tools>>
        /\ PrintT(<<"SESSION", l>>)
TNext == TStep \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
