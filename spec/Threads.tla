------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Calls in any thread and order.  Threads call and return; nobody knows   *)
(* what a call will give until it has once returned (memo), but from then  *)
(* on it gives that for ever, whoever makes it, whenever, next to whatever *)
(* other calls, and wherever its source lies.                              *)
(*                                                                         *)
(* Sharing is how this goes wrong: with Sharing = TRUE a call leaves its   *)
(* argument in one place common to all threads and looks it up there when  *)
(* it returns.  TLC has to find that this breaks Functional: the check     *)
(* runs it both ways.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Thr, Calls, Results, Sharing

Idle == 0                       \* calls are numbered from 1
Unknown == -2
NotReturned == -1

VARIABLES pending,              \* what each thread is calling
          memo,                 \* what each call gave
          place,                \* the shared place
          agreed                \* no call ever gave two different results
thvars == <<pending, memo, place, agreed>>

ThInit == /\ pending = [t \in Thr |-> Idle] /\ memo = [c \in Calls |-> Unknown] /\ place = Idle /\ agreed = TRUE
Call(t, c) == pending[t] = Idle /\ pending' = [pending EXCEPT ![t] = c] /\ place' = c /\ UNCHANGED <<memo, agreed>>
Return(t, r) ==
    LET c == pending[t] IN
    /\ c # Idle
    /\ pending' = [pending EXCEPT ![t] = Idle]
    /\ agreed' = (agreed /\ r # NotReturned /\ memo[c] \in {Unknown, r})
    /\ memo' = [memo EXCEPT ![c] = IF @ = Unknown THEN r ELSE @]
    /\ UNCHANGED place

\* what the library computes: some function of the call
Value(c) == c % Cardinality(Results)
ThNext == \/ \E t \in Thr, c \in Calls : Call(t, c)
          \/ \E t \in Thr : pending[t] # Idle /\ Return(t, Value(IF Sharing THEN place ELSE pending[t]))
ThSpec == ThInit /\ [][ThNext]_thvars

Functional == agreed
MemoIsValue == ~Sharing => \A c \in Calls : memo[c] \in {Unknown, Value(c)}
MemoStays == [][\A c \in Calls : memo[c] # Unknown => memo'[c] = memo[c]]_thvars
=============================================================================
