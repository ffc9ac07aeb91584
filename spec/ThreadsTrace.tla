---------------------------- MODULE ThreadsTrace ----------------------------
(***************************************************************************)
(* Recorded sessions (trace.ndjson, one per line) replayed through Threads.*)
(*   n    how many different calls there are in it (described in `calls`)  *)
(*   log  events <<thread, 0, call, 0>> and <<thread, 1, call, result>>, in*)
(*        the order in which they happened; result: which of the results   *)
(*        seen for this call, the one of a process that makes no other     *)
(*        call being 0; -1 if it did not return                            *)
(***************************************************************************)
EXTENDS Threads, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES sess, l
tvars == <<pending, memo, place, agreed, sess, l>>

TInit == /\ sess \in DOMAIN Trace /\ l = 1 /\ agreed = TRUE /\ place = Idle
         /\ pending = [t \in 0..Trace[sess].threads |-> Idle]
         /\ memo = [c \in 1..Trace[sess].n |-> Unknown]
E == Trace[sess].log[l]
TNext == /\ l <= Len(Trace[sess].log) /\ agreed
         /\ IF E[2] = 0 THEN Call(E[1], E[3]) ELSE pending[E[1]] = E[3] /\ Return(E[1], E[4])
         /\ l' = l + 1 /\ sess' = sess
         /\ (~agreed' => PrintT(<<"REJECTED", sess>>))
         /\ ((l = Len(Trace[sess].log) \/ ~agreed') => PrintT(<<"SESSION", sess>>))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
