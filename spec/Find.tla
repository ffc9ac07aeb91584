-------------------------------- MODULE Find --------------------------------
(***************************************************************************)
(* Finding the library: find_package(ANSAK) in a project.                  *)
(* A world has                                                             *)
(*   plat    "unix", or "win" (libraries by architecture and build type)   *)
(*   at      what each place holds: a set of "string", "lib", "libh",      *)
(*           "sqlite", "sqliteh": libraries, and headers of the other two  *)
(*           ANSAK modules ("string" has its headers, "nohdr": without)    *)
(*   var     the place the CMake variable ANSAK_DIR names, or "-"          *)
(*   env     likewise the environment variable                             *)
(*   sqlite  SQLite3 was found before                                      *)
(*   isolate ANSAK_ISOLATE is set                                          *)
(* Places are "A", "B" and "S"; S is one of the system's standard places.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Places == {"A", "B", "S"}
Contents == {{}, {"string"}, {"nohdr"}, {"string", "lib", "libh"}, {"string", "lib"}, {"string", "libh"},
             {"string", "lib", "libh", "sqlite", "sqliteh"}, {"string", "lib", "libh", "sqliteh"}, {"string", "lib", "libh", "sqlite"}}
Has(w, p) == p # "-" /\ w.at[p] \cap {"string", "nohdr"} # {}
\* where it is looked for, in this order
Order(w) == <<w.var, w.env>> \o (IF w.plat = "unix" THEN <<"S">> ELSE <<>>)
\* what the documentation leaves open: a variable that names a place without the library
Open(w) == \/ w.var # "-" /\ ~Has(w, w.var)
           \/ w.var = "-" /\ w.env # "-" /\ ~Has(w, w.env)
\* libraries of the other modules in a standard place serve headers of another place
           \/ w.at["S"] \cap {"lib", "sqlite"} # {} /\ w.var \o w.env # "--"
Root(w) == IF w.var # "-" THEN w.var ELSE IF w.env # "-" THEN w.env ELSE "S"
Found(w) == Has(w, Root(w)) /\ "string" \in w.at[Root(w)] /\ (w.plat = "unix" \/ Root(w) # "S")
Result(w) ==
    IF ~Found(w) THEN [ok |-> FALSE, root |-> "-", lib |-> FALSE, sqlite |-> FALSE, dirs |-> FALSE]
    ELSE LET at == w.at[Root(w)]
         IN  [ok |-> TRUE, root |-> Root(w), lib |-> {"lib", "libh"} \subseteq at, sqlite |-> w.sqlite /\ {"sqlite", "sqliteh"} \subseteq at, dirs |-> ~w.isolate]

Worlds == {w \in [plat : {"unix", "win"}, at : [Places -> Contents], var : {"-", "A", "B"}, env : {"-", "A", "B"}, sqlite : BOOLEAN, isolate : BOOLEAN] :
              /\ (w.plat = "win" => w.at["S"] = {})
              /\ (\A p \in Places : p \notin {w.var, w.env, "S"} => w.at[p] \in {{}, {"string"}})
              /\ (w.var # "-" \/ w.env # "-" => w.at["S"] \in {{}, {"string"}})}

(***************************************************************************)
(* A project looks, the installation changes, another looks ...            *)
(***************************************************************************)
CONSTANTS Some            \* contents explored
VARIABLES world, got
Small == {x \in [plat : {"unix", "win"}, at : [Places -> Some], var : {"-", "A", "B"}, env : {"-", "A", "B"}, sqlite : BOOLEAN, isolate : BOOLEAN] :
              x.plat = "win" => x.at["S"] = {}}
Nothing == [ok |-> FALSE, root |-> "-", lib |-> FALSE, sqlite |-> FALSE, dirs |-> FALSE]
Init == world \in Small /\ got = Nothing
Look == got' = Result(world) /\ world' = world
Spec == Init /\ [][Look]_<<world, got>>

\* C25: a variable beats the environment, which beats the standard places
First == got.ok => LET o == SelectSeq(Order(world), LAMBDA p : p # "-") IN got.root = o[1] /\ "string" \in world.at[o[1]]
\* nothing is claimed that is not there
Honest == /\ (got.lib => got.ok /\ "lib" \in world.at[got.root])
          /\ (got.sqlite => got.ok /\ "sqlite" \in world.at[got.root] /\ world.sqlite)
\* what is elsewhere does not matter
Elsewhere == got # Nothing =>
    \A p \in Places \ {got.root}, c \in Some : (world.plat = "unix" \/ p # "S") => Result([world EXCEPT !.at[p] = c]) = got
\* installing into a prefix makes the library found by those who name the prefix
Installed == \A p \in {"A", "B"} : world.var = p => Result([world EXCEPT !.at[p] = {"string"}]).ok
Invs == First /\ Honest /\ Elsewhere /\ Installed
=============================================================================
