---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Recorded walks of real strings (trace.ndjson, one per line), replayed   *)
(* through Session's actions:                                              *)
(*   e, x   the encoding and the units it starts with                      *)
(*   ev     <<target, own, units>>: what the conversion returned, and what *)
(*          the target's own is-function said of it (own = -1: the call    *)
(*          did not return)                                                *)
(***************************************************************************)
EXTENDS Session, Json, TLC

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES sess, l, verdict
tvars == <<enc, str, text, first, last, sess, l, verdict>>

TInit == /\ sess \in DOMAIN Trace /\ l = 1 /\ verdict = "ok" /\ first = Never /\ last = <<"begin", Trace[sess].e>>
         /\ enc = Trace[sess].e /\ str = Trace[sess].x /\ text = ScanOf(enc, str).cps

E == Trace[sess].ev[l]
AllowedStep(t, own, r) ==
    /\ own # -1
    /\ IF ~IsBroken /\ AllInRange(RangeOf(t), text) /\ text # <<>>
       THEN /\ r # <<>> /\ own = 1
            /\ ScanOf(t, r).st = "ok" /\ ScanOf(t, r).cps = text
            /\ first[t] # <<>> => r = first[t]
       ELSE r = <<>>

TNext == /\ l <= Len(Trace[sess].ev) /\ verdict = "ok"
         /\ Became(E[1], E[3]) /\ last' = <<"conv", E[1]>>
         /\ verdict' = IF AllowedStep(E[1], E[2], E[3]) THEN "ok" ELSE "rejected"
         /\ (verdict' = "rejected" => PrintT(<<"REJECTED", sess>>))
         /\ l' = l + 1 /\ sess' = sess
         /\ ((l = Len(Trace[sess].ev) \/ verdict' = "rejected") => PrintT(<<"SESSION", sess>>))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
