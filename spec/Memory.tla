------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Running out of memory.  A program makes one call after the other.  A    *)
(* call takes and gives back blocks of memory, and may be refused one at   *)
(* any point (once, or from then on).  It ends by returning a result, or   *)
(* by throwing bad_alloc, after giving back what it had taken.             *)
(*                                                                         *)
(* Fault says how an implementation may go wrong: "swallow" (the refusal   *)
(* is caught, and what there is so far returned), "leak" (it keeps a block *)
(* when it throws), "early" (its argument is changed before everything is  *)
(* there), "memo" (what an abandoned call leaves is taken for complete by  *)
(* the next).  TLC has to find a violation for each, and none for "none".  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Calls,                \* call c needs Need[c] blocks, one after the other
          Need,
          Fault

NoCall == 0
VARIABLES call, arg,            \* the call being made and its argument: "given" or "changed"
          got,                  \* how many blocks it has been given
          live,                 \* blocks taken and not given back
          refuse,               \* the memory refuses: "no", "once", "on"
          stale,                \* the call whose abandoned work is left somewhere
          done                  \* how the last call ended: <<call, how, result, arg, live>>
mvars == <<call, arg, got, live, refuse, stale, done>>

Right(c) == Need[c]             \* stands for the result: what all of the blocks hold
InPlace(c) == c % 2 = 0         \* such a call changes its argument, when it succeeds

MInit == call = NoCall /\ arg = "given" /\ got = 0 /\ live = 0 /\ refuse = "no" /\ stale = NoCall /\ done = <<NoCall, "returned", 0, "given", 0>>
Begin(c) == /\ call = NoCall /\ call' = c /\ arg' = IF Fault = "early" /\ InPlace(c) THEN "changed" ELSE "given"
            /\ got' = (IF Fault = "memo" /\ stale = c THEN Need[c] - 1 ELSE 0) /\ UNCHANGED <<live, refuse, stale, done>>
TakeBlock == /\ call # NoCall /\ got < Need[call] /\ refuse = "no" /\ got' = got + 1 /\ live' = live + 1 /\ UNCHANGED <<call, arg, refuse, stale, done>>
\* the caller takes the result and lets go of it
End(how, r, a, kept) == /\ done' = <<call, how, r, a, kept>> /\ call' = NoCall /\ arg' = "given" /\ got' = 0 /\ live' = kept
Return == /\ call # NoCall /\ got = Need[call]
          /\ End("returned", IF live < got THEN live ELSE got, IF InPlace(call) THEN "changed" ELSE "given", 0) /\ UNCHANGED <<refuse, stale>>
Refused == /\ call # NoCall /\ got < Need[call] /\ refuse # "no"
           /\ refuse' = IF refuse = "once" THEN "no" ELSE refuse
           /\ stale' = call
           /\ IF Fault = "swallow" THEN End("returned", got, "given", 0)
              ELSE End("threw", 0, arg, IF Fault = "leak" /\ live > 0 THEN 1 ELSE 0)
Memory == call # NoCall /\ refuse = "no" /\ refuse' \in {"once", "on"} /\ UNCHANGED <<call, arg, got, live, stale, done>>
Plenty == call = NoCall /\ refuse = "on" /\ refuse' = "no" /\ UNCHANGED <<call, arg, got, live, stale, done>>
MNext == (\E c \in Calls : Begin(c)) \/ TakeBlock \/ Return \/ Refused \/ Memory \/ Plenty
MSpec == MInit /\ [][MNext]_mvars

(***************************************************************************)
(* C26: how a call may end                                                 *)
(***************************************************************************)
MayEnd(how, right, unchanged, kept) == kept = 0 /\ ((how = "returned" /\ right) \/ (how = "threw" /\ unchanged))
EndsWell == done[1] # NoCall => MayEnd(done[2], done[3] = Right(done[1]), done[4] = "given", done[5])
NothingKept == call = NoCall => live = 0
InPlenty == [][Return => done'[3] = Right(call)]_mvars
=============================================================================
