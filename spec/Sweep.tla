------------------------------- MODULE Sweep -------------------------------
(***************************************************************************)
(* What a sweep of one build over all values found (sweep<v>.json: class   *)
(* intervals, lower-case pairs), against the character data of version v.  *)
(* Each step compares one facet of one version.                            *)
(***************************************************************************)
EXTENDS Chars, SequencesExt, FiniteSets

CONSTANTS Checked, Facets        \* the versions and facets of this run
Found == [v \in Checked |-> JsonDeserialize("sweep" \o ToString(v) \o ".json")]
Known == JsonDeserialize("known_findings.json").known

VARIABLES v, f, result
vars == <<v, f, result>>

(***************************************************************************)
(* Intervals in canonical form: ascending, neighbours joined               *)
(***************************************************************************)
Canon(iv) == FoldLeft(LAMBDA acc, i : IF acc # <<>> /\ acc[Len(acc)][2] + 1 = i[1]
                                      THEN [acc EXCEPT ![Len(acc)] = <<@[1], i[2]>>] ELSE Append(acc, i), <<>>, iv)
ToSet16(iv) == SelectSeq([i \in DOMAIN iv |-> <<iv[i][1], IF iv[i][2] > 65535 THEN 65535 ELSE iv[i][2]>>], LAMBDA i : i[1] <= 65535)
Sym(a, b) == LET A == {a[i] : i \in DOMAIN a}  B == {b[i] : i \in DOMAIN b} IN (A \ B) \cup (B \ A)

Class32(ver, t) == Sym(Canon(Found[ver].iv[t]), Canon(ClassIv(ver, t)))
Class16(ver, t) == Sym(Found[ver].iv16[t], ToSet16(Canon(ClassIv(ver, t))))

(***************************************************************************)
(* Lower case: the pairs <<c, lower(c)>> that differ                       *)
(***************************************************************************)
Expand(r) == {<<c, c + r[4]>> : c \in {x \in r[1]..r[2] : (x - r[1]) % r[3] = 0}}
WantPairs(ver) == UNION {Expand(Ucd[ver].lower[i]) : i \in DOMAIN Ucd[ver].lower}
Turkic(pairs) == {p \in pairs : p[1] # 73} \cup {<<73, 305>>}
GotPairs(s) == {s[i] : i \in DOMAIN s}

\* a deviation that is a known finding
Covers(k, ver, c) == /\ k.rule = "lower" /\ ver \in k.versions[1]..k.versions[2]
                     /\ \E i \in DOMAIN k.cps : c \in k.cps[i][1]..k.cps[i][2]
Deviates(got, want) ==      \* <<c, got>>, with c itself for no change
    LET gc == {p[1] : p \in got} IN
    (got \ want) \cup {<<p[1], p[1]>> : p \in {q \in want : q[1] \notin gc}}
IsKnown(ver, p) == \E i \in DOMAIN Known : Covers(Known[i], ver, p[1]) /\ p[2] = p[1] + Known[i].delta
KnownIds(ver, P) == {Known[i].id : i \in {j \in DOMAIN Known : \E p \in P : Covers(Known[j], ver, p[1]) /\ p[2] = p[1] + Known[j].delta}}
Lower32(ver, got, want) == LET d == Deviates(got, want) IN
    [bad |-> {p \in d : ~IsKnown(ver, p)}, known |-> KnownIds(ver, d)]
Twice(got) == LET gc == {p[1] : p \in got} IN {p \in got : p[2] \in gc}

Few(S) == IF Cardinality(S) <= 20 THEN S ELSE CHOOSE T \in {{x \in S : \E k \in 0..19 : x = SetToSeq(S)[k + 1]}} : TRUE
Facet(ver, fc) ==
    CASE fc = "class32" -> [bad |-> UNION {{<<t>> \o i : i \in Class32(ver, t)} : t \in Classes}, known |-> {}]
      [] fc = "class16" -> [bad |-> UNION {{<<t>> \o i : i \in Class16(ver, t)} : t \in Classes}, known |-> {}]
      [] fc = "lower"   -> Lower32(ver, GotPairs(Found[ver].lower), WantPairs(ver))
      [] fc = "lowerTr" -> Lower32(ver, GotPairs(Found[ver].lowerTr), Turkic(WantPairs(ver)))
      [] fc = "twice"   -> [bad |-> Twice(GotPairs(Found[ver].lower)), known |-> {}]
      [] fc = "report"  -> [bad |-> IF Found[ver].report = ToString(ver) \o ".0.0" THEN {} ELSE {<<0>>}, known |-> {}]

Init == v = 0 /\ f = "none" /\ result = [bad |-> {}, known |-> {}]
Next == /\ v = 0
        /\ \E ver \in Checked, fc \in Facets :
             /\ v' = ver /\ f' = fc /\ result' = Facet(ver, fc)
             /\ PrintT(<<"FACET", ver, fc>>)
             /\ (result'.bad # {} => /\ PrintT(<<"BAD", ver, fc>>)
                                     /\ PrintT("DIFF " \o ToString(ver) \o " " \o fc \o " " \o ToJson(SetToSeq(Few(result'.bad)))))
             /\ \A k \in result'.known : PrintT(<<"KNOWNID", k>>)
Spec == Init /\ [][Next]_vars
=============================================================================
