---------------------------- MODULE MemoryTrace ----------------------------
(***************************************************************************)
(* Recorded histories (trace.ndjson, one per line) of one call made over   *)
(* and over, with memory refused at one place after the other:             *)
(*   op, a, x   the call, as in Api.tla (what toLower and unicodeLength give *)
(*              in plenty is taken as it is: C14 and C09 judge it)            *)
(*   ref        what it gave in plenty                                     *)
(*   inplace    1 if it changes its argument                               *)
(*   ev         <<k, h, how, r, x, kept>>: the k-th block was refused (h = *)
(*              1: only that one, 2: all from then on; k = 0: none); how   *)
(*              the call ended (0 returned, 1 threw bad_alloc, 2 threw     *)
(*              something else, 3 did not end), its result, its argument   *)
(*              afterwards, and how many of its blocks are still there     *)
(*              when the result is gone                                    *)
(***************************************************************************)
EXTENDS Api, Json, TLC

VARIABLES call, arg, got, live, refuse, stale, done
M == INSTANCE Memory WITH Calls <- {1}, Need <- <<1>>, Fault <- "none"

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES sess, l, verdict
tvars == <<call, arg, got, live, refuse, stale, done, sess, l, verdict>>

T == Trace[sess]
E == T.ev[l]
RefOps == {"lower8", "lower16", "lower32", "ulen8"}
RefRight == T.op \in RefOps \/ Allowed([k |-> "api", out |-> "ok", op |-> T.op, a |-> T.a, p |-> <<>>, v |-> T.v, x |-> T.x, r |-> T.ref])
How(n) == CASE n = 0 -> "returned" [] n = 1 -> "threw" [] OTHER -> "lost"

TInit == /\ sess \in DOMAIN Trace /\ l = 1 /\ M!MInit
         /\ verdict = IF RefRight THEN "ok" ELSE "rejected"
         /\ (verdict = "rejected" => PrintT(<<"REJECTED", sess>>) /\ PrintT(<<"SESSION", sess>>))
EndAllowed == /\ M!MayEnd(How(E[3]), E[4] = T.ref, E[5] = T.x, E[6])
              /\ E[3] = 0 => E[5] = IF T.inplace = 1 THEN T.ref ELSE T.x
              /\ E[1] = 0 => E[3] = 0                  \* in plenty nothing throws
TNext == /\ l <= Len(T.ev) /\ verdict = "ok"
         /\ done' = <<1, How(E[3]), IF E[4] = T.ref THEN 1 ELSE 0, IF E[5] = T.x THEN "given" ELSE "changed", E[6]>>
         /\ UNCHANGED <<call, arg, got, live, refuse, stale>>
         /\ verdict' = IF EndAllowed THEN "ok" ELSE "rejected"
         /\ (verdict' = "rejected" => PrintT(<<"REJECTED", sess>>) /\ PrintT(<<"AT", sess, l>>))
         /\ l' = l + 1 /\ sess' = sess
         /\ ((l = Len(T.ev) \/ verdict' = "rejected") => PrintT(<<"SESSION", sess>>))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
