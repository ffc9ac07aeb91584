----------------------------- MODULE Lifetime -----------------------------
(***************************************************************************)
(* A program's life: static objects are made one after the other, main     *)
(* runs, and the objects are destroyed; library calls may be made in every *)
(* phase, by the objects' constructors and destructors, and by a thread    *)
(* that outlives main.  A call gives what it gives in main.                *)
(*                                                                         *)
(* With Dynamic = TRUE the library has an object of its own that is made   *)
(* some time before main and destroyed some time after it, and looks       *)
(* things up in it.  TLC has to find that this breaks Functional.          *)
(***************************************************************************)
EXTENDS Threads

CONSTANT Dynamic
VARIABLES phase,                \* 0: before main, 1: main, 2: after it, 3: over
          object                \* of the library: "raw", "made", "gone"
lfvars == <<pending, memo, place, agreed, phase, object>>

LfInit == ThInit /\ phase = 0 /\ object = "raw"
Make == phase = 0 /\ object = "raw" /\ object' = "made" /\ UNCHANGED <<thvars, phase>>
Destroy == phase = 2 /\ object = "made" /\ object' = "gone" /\ UNCHANGED <<thvars, phase>>
\* the thread that makes the objects, runs main and destroys the objects is 0
GoTo(p) == p = phase + 1 /\ p <= 3 /\ pending[0] = Idle /\ phase' = p /\ UNCHANGED <<thvars, object>>
MayCall(t) == phase < 3 /\ (t # 0 => phase > 0)
LfCall(t, c) == MayCall(t) /\ Call(t, c) /\ UNCHANGED <<phase, object>>
LfReturn(t, r) == Return(t, r) /\ UNCHANGED <<phase, object>>

Looked(c) == IF Dynamic /\ object # "made" THEN NotReturned ELSE Value(c)
LfNext == \/ Make \/ Destroy
          \/ \E p \in 1..3 : (p = 1 => object = "made") /\ (p = 3 => object = "gone") /\ GoTo(p)
          \/ \E t \in Thr, c \in Calls : LfCall(t, c)
          \/ \E t \in Thr : pending[t] # Idle /\ LfReturn(t, Looked(pending[t]))
LfSpec == LfInit /\ [][LfNext]_lfvars
PhasesPass == [][phase' >= phase]_lfvars
===========================================================================
