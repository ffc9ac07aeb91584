------------------------------ MODULE Versions ------------------------------
(***************************************************************************)
(* From one Unicode version to the next (C23).  The state is what a build  *)
(* answers; a step upgrades to the next version.  Data is what the builds  *)
(* themselves gave in a sweep, or, for the model, the specification's.     *)
(***************************************************************************)
EXTENDS Sweep

CONSTANT UseSpec
Up == {ver \in Checked : ver + 1 \in Checked}

Pts(iv) == UNION {i[1]..i[2] : i \in {iv[j] : j \in DOMAIN iv}}
\* intervals a inside of intervals b (both ascending, canonical)
Inside(a, b) == {i \in {a[j] : j \in DOMAIN a} : LET k == LastFrom(b, i[1], 0, Len(b)) IN ~(k > 0 /\ i[2] <= b[k][2])}
ClassOf(ver, t) == IF UseSpec THEN Canon(ClassIv(ver, t)) ELSE Canon(Found[ver].iv[t])
PairsOf(ver) == IF UseSpec THEN WantPairs(ver) ELSE GotPairs(Found[ver].lower)

\* what is lost or changes between ver and ver + 1
Lost(ver) == Inside(ClassOf(ver, 1), ClassOf(ver + 1, 1))
InIv(iv, c) == LET k == LastFrom(iv, c, 0, Len(iv)) IN k > 0 /\ c <= iv[k][2]
Overlap(a, b) == a[1] <= b[2] /\ b[1] <= a[2]
Reclassed(ver) ==           \* differences of the other classes that touch an assigned code point
    UNION {{<<t>> \o i : i \in {d \in Sym(ClassOf(ver, t), ClassOf(ver + 1, t)) :
                \E j \in DOMAIN ClassOf(ver, 1) : Overlap(d, ClassOf(ver, 1)[j])}} : t \in 2..4}
Remapped(ver) == PairsOf(ver) \ PairsOf(ver + 1)

UpNext == /\ v = 0
          /\ \E ver \in Up :
               /\ v' = ver /\ f' = "upgrade"
               /\ result' = [bad |-> {<<1>> \o i : i \in Lost(ver)} \cup Reclassed(ver) \cup {<<5>> \o p : p \in Remapped(ver)}, known |-> {}]
               /\ PrintT(<<"FACET", ver, "upgrade">>)
               /\ (result'.bad # {} => /\ PrintT(<<"BAD", ver, "upgrade">>)
                                     /\ PrintT("DIFF " \o ToString(ver) \o " " \o "upgrade" \o " " \o ToJson(SetToSeq(Few(result'.bad)))))
UpSpec == Init /\ [][Next \/ UpNext]_vars
=============================================================================
