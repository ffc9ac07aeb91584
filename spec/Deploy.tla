------------------------------- MODULE Deploy -------------------------------
(***************************************************************************)
(* Deployment: configure, make (Makefile; make.py on Windows) and the      *)
(* files they leave.  A state has                                          *)
(*   src    how often the sources have been edited                         *)
(*   conf   the configuration, <<prefix, version, compiler>>, or Nothing   *)
(*   cache  the compiler CMake has chosen in the build directory (it keeps *)
(*          to it until the directory is emptied), or Nothing              *)
(*   built  the library in the build directory, <<src, version, compiler>> *)
(*   inst   what is installed under each prefix, likewise                  *)
(*   mod    FindANSAK.cmake is among CMake's modules                       *)
(*   pkg    the packages of each version, likewise (Windows)               *)
(* Nothing else in the file system is ever changed: neither the sources    *)
(* nor what others keep under the prefixes or in the home directory.       *)
(* Operations are <<name, a, b, c>>.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Platform,             \* "unix" or "win"
          Prefixes, Vers, Compilers, MaxEdits
Nothing == <<>>
DefaultPrefix == 0              \* Windows: what a make without configure takes
DefaultVersion == 16
AnyVersion == 7..16
None(S) == [p \in S |-> Nothing]

Fresh == [src |-> 0, conf |-> Nothing, cache |-> Nothing, built |-> Nothing, inst |-> None(0..9), mod |-> FALSE, pkg |-> None(AnyVersion)]

\* on Windows, a make that finds no configuration makes one first
Ensure(plat, s) == IF plat = "win" /\ s.conf = Nothing THEN [s EXCEPT !.conf = <<DefaultPrefix, DefaultVersion, 0>>] ELSE s
\* the library, up to date
BuildUp(s) == LET cc == IF s.cache = Nothing THEN <<s.conf[3]>> ELSE s.cache
              IN  [s EXCEPT !.cache = cc, !.built = <<s.src, s.conf[2], cc[1]>>]
Target(plat, s0, t) ==
    LET s == Ensure(plat, s0)
    IN  CASE t \in {"all", "test"} -> IF s.conf = Nothing THEN s ELSE BuildUp(s)
          [] t = "install"   -> IF s.conf = Nothing THEN s ELSE LET b == BuildUp(s) IN [b EXCEPT !.inst[b.conf[1]] = b.built]
          [] t = "uninstall" -> IF s.conf = Nothing THEN s ELSE [s EXCEPT !.inst[s.conf[1]] = Nothing]
          [] t = "package"   -> IF s.conf = Nothing THEN s ELSE LET b == BuildUp(s) IN [b EXCEPT !.pkg[b.conf[2]] = b.built]
          [] t = "clean"     -> [s EXCEPT !.built = Nothing, !.cache = Nothing, !.pkg = IF s.conf = Nothing THEN @ ELSE [@ EXCEPT ![s.conf[2]] = Nothing]]
          [] t = "scrub"     -> [s EXCEPT !.built = Nothing, !.cache = Nothing, !.conf = Nothing, !.pkg = None(AnyVersion)]
          [] t = "cmake-install"   -> [s EXCEPT !.mod = TRUE]
          [] t = "cmake-uninstall" -> [s EXCEPT !.mod = FALSE]
          [] t = "help"      -> s
\* several targets at once: in turn, but make.py cleans first
Two(plat, s, t, u) == IF plat = "win" /\ u = "clean" THEN Target(plat, Target(plat, s, u), t) ELSE Target(plat, Target(plat, s, t), u)
Apply(plat, s, op) ==
    CASE op[1] = "configure" -> [s EXCEPT !.conf = <<op[2], op[3], op[4]>>]
      [] op[1] = "badconf"   -> s
      [] op[1] = "edit"      -> [s EXCEPT !.src = @ + 1]
      [] op[1] = "make"      -> Target(plat, s, op[2])
      [] op[1] = "make2"     -> Two(plat, s, op[2], op[3])

\* how it ends: "ok", "fails" or "either"
Building == {"all", "test", "install", "package"}
Ends(plat, s, op) ==
    CASE op[1] \in {"configure", "edit"} -> "ok"
      [] op[1] = "badconf" -> "fails"
      [] op[1] = "make" ->
            (CASE op[2] \in Building -> IF Ensure(plat, s).conf = Nothing THEN "fails" ELSE "ok"
              [] op[2] = "uninstall" -> IF s.conf # Nothing /\ s.inst[s.conf[1]] # Nothing THEN "ok" ELSE "either"
              [] op[2] \in {"clean", "scrub"} -> IF s.conf # Nothing THEN "ok" ELSE "either"
              [] OTHER -> "ok")
      [] op[1] = "make2" -> IF s.conf # Nothing /\ (op[2] # "uninstall" \/ s.inst[s.conf[1]] # Nothing) THEN "ok" ELSE "either"

(***************************************************************************)
(* Where the files are: <<path, what it is>>.                              *)
(***************************************************************************)
Headers == {<<"include/ansak/string.hxx", "h:string.hxx">>, <<"include/ansak/string_trim.hxx", "h:string_trim.hxx">>,
            <<"include/ansak/string_splitjoin.hxx", "h:string_splitjoin.hxx">>}
Archs == {"Win32", "x64"}
Configs == {"Release", "Debug", "RelWithDebInfo", "MinSizeRel"}
WinLibs == {<<"lib/" \o a \o "/" \o c \o "/ansakString.lib", "lib:" \o a \o ":" \o c>> : a \in Archs, c \in Configs}
WinPdbs == {<<"lib/" \o a \o "/" \o c \o "/ansakString.pdb", "pdb:" \o a \o ":" \o c>> : a \in Archs, c \in {"Debug", "RelWithDebInfo"}}
Layout(plat) == Headers \cup (IF plat = "unix" THEN {<<"lib/libansakString.a", "lib">>} ELSE WinLibs \cup WinPdbs)
Products(plat) == IF plat = "unix" THEN {<<"build/libansakString.a", "lib">>}
                  ELSE {<<"build/" \o a \o "/" \o c \o "/ansakString.lib", "lib:" \o a \o ":" \o c>> : a \in Archs, c \in Configs}

(***************************************************************************)
(* Behaviours.                                                             *)
(***************************************************************************)
VARIABLES st, last, prev
dvars == <<st, last, prev>>
Targets == {"all", "test", "install", "uninstall", "clean", "scrub", "cmake-install", "cmake-uninstall"} \cup (IF Platform = "win" THEN {"package"} ELSE {})
Pairs == {<<"clean", "all">>, <<"clean", "install">>, <<"install", "uninstall">>, <<"uninstall", "install">>, <<"all", "clean">>, <<"install", "clean">>, <<"cmake-install", "install">>}
Configures == {<<"configure", p, v, cc>> : p \in Prefixes, v \in Vers, cc \in Compilers}
Makes(T) == {<<"make", t, 0, 0>> : t \in T}
Init == st = Fresh /\ last = <<"start", 0, 0, 0>> /\ prev = Fresh
Do(op) == /\ (op[1] = "edit" => st.src < MaxEdits)
          /\ (op[1] = "make2" => Ends(Platform, st, op) = "ok")
          /\ st' = Apply(Platform, st, op) /\ last' = op /\ prev' = st
\* apart, so that a simulation takes each kind of step as often
Configure == \E op \in Configures : Do(op)
BadConfigure == Do(<<"badconf", 0, 0, 0>>)
Edit == \E k \in 0..3 : Do(<<"edit", k, 0, 0>>)
MakeSome == \E op \in Makes(Targets \cap Building) : Do(op)
MakeOther == \E op \in Makes(Targets \ Building) : Do(op)
MakeTwo == \E t \in Pairs : Do(<<"make2", t[1], t[2], 0>>)
Next == Configure \/ BadConfigure \/ Edit \/ MakeSome \/ MakeOther \/ MakeTwo
Spec == Init /\ [][Next]_dvars
View == <<st, last, prev>>

(***************************************************************************)
(* C24                                                                     *)
(***************************************************************************)
Did(t) == last[1] = "make" /\ last[2] = t
Current(x) == x # Nothing /\ x[1] = st.src
\* whatever the history, what has just been built, installed or packed is what the sources and the configuration say
UpToDate == /\ ((Did("all") \/ Did("test")) /\ st.conf # Nothing => Current(st.built) /\ st.built[2] = st.conf[2])
            /\ (Did("install") /\ st.conf # Nothing => Current(st.inst[st.conf[1]]) /\ st.inst[st.conf[1]][2] = st.conf[2])
            /\ (Did("package") => Current(st.pkg[st.conf[2]]))
\* install and uninstall are inverse, and act on the configured prefix only
OneAtATime == \A p \in DOMAIN st.inst : st.inst[p] # prev.inst[p] => st.conf # Nothing /\ p = st.conf[1]
Removes == Did("uninstall") /\ st.conf # Nothing => st.inst[st.conf[1]] = Nothing
\* cleaning up leaves what is installed, and the sources
CleanKeeps == last[1] = "make" /\ last[2] \in {"clean", "scrub", "all", "test", "help"} => st.inst = prev.inst /\ st.src = prev.src /\ st.mod = prev.mod
\* what fails changes nothing
FailsClean == Ends(Platform, prev, last) = "fails" => st = prev
\* make is idempotent
Again == last[1] = "make" => Apply(Platform, st, last) = st
Invs == UpToDate /\ OneAtATime /\ Removes /\ CleanKeeps /\ (last[1] # "start" => FailsClean) /\ Again
=============================================================================
