------------------------------ MODULE PredTrace ------------------------------
(***************************************************************************)
(* Recorded sessions with real predicates (trace.ndjson, one per line),    *)
(* replayed through PredSession's actions.  An event is                    *)
(*   <<op, s, o, t, w, r, base...>>                                        *)
(*   eval: t = 8, 16 or 32 (char, char16_t, char32_t), w the character,    *)
(*         r its answer, and base the answers of validIf(1) .. validIf(4)  *)
(*         (for char: not used, the specification knows them)              *)
(*   eq:   r = 1 if ==, 0 if !=, 2 if both or neither                      *)
(*   r = -1: the call did not return                                       *)
(***************************************************************************)
EXTENDS PredSession

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES sess, l, verdict
tvars == <<slot, last, sess, l, verdict>>

E == Trace[sess].ev[l]
TInit == Init /\ sess \in DOMAIN Trace /\ l = 1 /\ verdict = "ok"

Answer(e) == IF e[4] = 8 THEN HoldsChar(slot[e[2]], e[5])
             ELSE HoldsFor(slot[e[2]], LAMBDA t : e[6 + t] = 1)
Allowed(e) ==
    CASE e[1] = "eval" -> e[6] = (IF Answer(e) THEN 1 ELSE 0)
      [] e[1] = "eq"   -> /\ e[6] \in {0, 1}
                          /\ (MustEqual(slot[e[2]], slot[e[3]]) => e[6] = 1)
                          /\ (MustDiffer(slot[e[2]], slot[e[3]]) => e[6] = 0)
      [] OTHER -> e[6] # -1
Act(e) == CASE e[1] = "make"    -> Make(e[2], e[4], e[5])
            [] e[1] = "default" -> Default(e[2])
            [] e[1] = "copy"    -> Copy(e[2], e[3])
            [] e[1] = "narrow"  -> Narrow(e[2], e[3], e[4], e[5])
            [] OTHER            -> Look

TNext == /\ l <= Len(Trace[sess].ev) /\ verdict = "ok"
         /\ Act(E) /\ last' = <<E[1], E[2], E[3], E[4], E[5]>>
         /\ verdict' = IF Allowed(E) THEN "ok" ELSE "rejected"
         /\ (verdict' = "rejected" => PrintT(<<"REJECTED", sess>>))
         /\ l' = l + 1 /\ sess' = sess
         /\ ((l = Len(Trace[sess].ev) \/ verdict' = "rejected") => PrintT(<<"SESSION", sess>>))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
