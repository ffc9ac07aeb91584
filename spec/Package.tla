------------------------------ MODULE Package ------------------------------
(***************************************************************************)
(* Packages on Unix-like systems: configure, edits and the targets all,    *)
(* package, deb, rpm, arch and clean.  A state has                         *)
(*   src    how often the sources have been edited                         *)
(*   conf   the configured Unicode version, or 0                           *)
(*   pkgs   what is in the build directory: for each format and version    *)
(*          the edit its contents are from, or Nothing                     *)
(* The world does not change: the family of the distribution (what its own *)
(* packages are) and the packaging tools there are.                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Vers, MaxEdits, Faulty        \* Faulty: "none", or how a wrong implementation would behave
Formats == {"tgz", "deb", "rpm", "zst"}
AllTools == {"dpkg-deb", "rpm", "debtap"}
Nothing == -1
AnyVersion == 7..16
Fresh == [src |-> 0, conf |-> 0, pkgs |-> [f \in Formats |-> [v \in AnyVersion |-> Nothing]]]

\* lsb_release's answers that mean RPM; every other answer, and none, means DEB
RpmDistros == {"CentOS", "Fedora", "RedHat"}
Family(distro) == IF distro \in RpmDistros THEN "rpm" ELSE "deb"

\* the formats that a target makes
Made(t, distro, tools) ==
    CASE t = "package" -> {"tgz", Family(distro)}
      [] t = "deb"  -> IF "dpkg-deb" \in tools THEN {"deb"} ELSE {}
      [] t = "rpm"  -> IF "rpm" \in tools THEN {"rpm"} ELSE {}
      [] t = "arch" -> IF "debtap" \in tools THEN {"deb", "zst"} ELSE IF "dpkg-deb" \in tools THEN {"deb"} ELSE {}
      [] OTHER -> {}
Targets == {"all", "package", "deb", "rpm", "arch", "clean"}
Apply(s, op, distro, tools) ==
    CASE op[1] = "configure" -> [s EXCEPT !.conf = op[2]]
      [] op[1] = "edit" -> [s EXCEPT !.src = @ + 1]
      [] op[1] = "make" /\ op[2] = "clean" -> [s EXCEPT !.pkgs = Fresh.pkgs]
      [] op[1] = "make" /\ s.conf = 0 -> s
      [] OTHER -> [s EXCEPT !.pkgs = [f \in Formats |-> IF f \in Made(op[2], distro, tools) THEN [@[f] EXCEPT ![s.conf] = s.src] ELSE @[f]]]
Ends(s, op) == IF op[1] = "make" /\ op[2] # "clean" /\ s.conf = 0 THEN "fails" ELSE "ok"

VARIABLES st, last, prev, distro, tools
pvars == <<st, last, prev, distro, tools>>
\* what a wrong implementation leaves behind
Wrong(s, s1, op) ==
    CASE Faulty = "none" -> s1
      [] Faulty = "stale" -> IF op[1] = "make" /\ s.pkgs # Fresh.pkgs /\ op[2] # "clean" THEN [s1 EXCEPT !.pkgs = [f \in Formats |-> [v \in AnyVersion |-> IF s.pkgs[f][v] # Nothing THEN s.pkgs[f][v] ELSE s1.pkgs[f][v]]]] ELSE s1
      [] Faulty = "onename" -> IF op[1] = "make" /\ s1.pkgs # s.pkgs /\ op[2] # "clean" THEN [s1 EXCEPT !.pkgs = [f \in Formats |-> [v \in AnyVersion |-> IF v = s.conf THEN s1.pkgs[f][v] ELSE Nothing]]] ELSE s1
Init == st = Fresh /\ last = <<"start", 0>> /\ prev = Fresh /\ distro \in {"Fedora", "Debian"} /\ tools \in SUBSET AllTools
Do(op) == /\ (op[1] = "edit" => st.src < MaxEdits)
          /\ st' = Wrong(st, Apply(st, op, distro, tools), op) /\ last' = op /\ prev' = st /\ UNCHANGED <<distro, tools>>
Configure == \E v \in Vers : Do(<<"configure", v>>)
Edit == Do(<<"edit", 0>>)
Package == \E t \in Targets \ {"all", "clean"} : Do(<<"make", t>>)
Other == \E t \in {"all", "clean"} : Do(<<"make", t>>)
Next == Configure \/ Edit \/ Package \/ Other
Spec == Init /\ [][Next]_pvars

(***************************************************************************)
(* C27                                                                     *)
(***************************************************************************)
Did(t) == last = <<"make", t>> /\ st.conf # 0
\* what has just been packed is the sources as they are, for the configured version
Current == \A t \in Targets : Did(t) => \A f \in Made(t, distro, tools) : st.pkgs[f][st.conf] = st.src
\* the packages of other versions, and of other formats, stay
OthersStay == last[1] = "make" /\ last[2] # "clean" => \A f \in Formats, v \in AnyVersion : st.pkgs[f][v] # prev.pkgs[f][v] => v = st.conf /\ f \in Made(last[2], distro, tools)
NeverUnasked == \A f \in Formats, v \in AnyVersion : st.pkgs[f][v] # Nothing => v \in Vers /\ st.pkgs[f][v] <= st.src
NoToolNoPackage == ("rpm" \notin tools /\ Family(distro) # "rpm" => \A v \in AnyVersion : st.pkgs["rpm"][v] = Nothing)
                   /\ ("debtap" \notin tools => \A v \in AnyVersion : st.pkgs["zst"][v] = Nothing)
CleanCleans == last = <<"make", "clean">> => st.pkgs = Fresh.pkgs
FailsClean == Ends(prev, last) = "fails" => st = prev
Invs == Current /\ OthersStay /\ NeverUnasked /\ NoToolNoPackage /\ CleanCleans /\ FailsClean
=============================================================================
