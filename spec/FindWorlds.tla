----------------------------- MODULE FindWorlds -----------------------------
(* Writes the worlds in which find_package(ANSAK) is decided (worlds.json). *)
EXTENDS Find, Json, SequencesExt
ASSUME LET ws == SetToSeq({x \in Worlds : ~Open(x)})
       IN  JsonSerialize("worlds.json", [k \in DOMAIN ws |-> [ws[k] EXCEPT !.at = [p \in Places |-> SetToSeq(ws[k].at[p])]]])
=============================================================================
