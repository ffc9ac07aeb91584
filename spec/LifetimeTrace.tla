--------------------------- MODULE LifetimeTrace ---------------------------
(***************************************************************************)
(* Recorded programs (trace.ndjson, one per line) replayed through         *)
(* Lifetime.                                                               *)
(*   n    how many different calls there are in it (described in `calls`)  *)
(*   log  events <<thread, 0, call, 0>>, <<thread, 1, call, result>> (as in*)
(*        ThreadsTrace) and <<0, 2, phase, 0>>, in the order in which they *)
(*        happened                                                         *)
(***************************************************************************)
EXTENDS Lifetime, Json

Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES sess, l
tvars == <<pending, memo, place, agreed, phase, object, sess, l>>

TInit == /\ sess \in DOMAIN Trace /\ l = 1 /\ agreed = TRUE /\ place = Idle
         /\ pending = [t \in 0..1 |-> Idle]
         /\ memo = [c \in 1..Trace[sess].n |-> Unknown]
         /\ phase = 0 /\ object = "raw"
E == Trace[sess].log[l]
TNext == /\ l <= Len(Trace[sess].log) /\ agreed
         /\ CASE E[2] = 0 -> LfCall(E[1], E[3])
              [] E[2] = 1 -> pending[E[1]] = E[3] /\ LfReturn(E[1], E[4])
              [] OTHER    -> GoTo(E[3])
         /\ l' = l + 1 /\ sess' = sess
         /\ (~agreed' => PrintT(<<"REJECTED", sess>>))
         /\ ((l = Len(Trace[sess].log) \/ ~agreed') => PrintT(<<"SESSION", sess>>))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
