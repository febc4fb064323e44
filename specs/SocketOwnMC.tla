---------------------------- MODULE SocketOwnMC -----------------------------
(* The descriptor of one socket when threads close it (exchange with "none",  *)
(* then the system's close) and take it over (close own, exchange, store),    *)
(* step by step. Ops: 1 close, 2 take over into an own socket.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT NT
VARIABLES src, dst, hand, pc, op, closes
vars == <<src, dst, hand, pc, op, closes>>
T == 1 .. NT
\* descriptor 100 is shared, t the one thread t's target holds at first
Init == src = 100 /\ dst = [t \in T |-> t] /\ hand = [t \in T |-> 0] /\ pc = [t \in T |-> "start"] /\ op \in [T -> {1, 2}] /\ closes = [d \in T \cup {100} |-> 0]
Go(t, to) == pc' = [pc EXCEPT ![t] = to] /\ UNCHANGED op
Sys(t) == closes' = IF hand[t] = 0 THEN closes ELSE [closes EXCEPT ![hand[t]] = @ + 1]
Next == \E t \in T :
  \/ pc[t] = "start" /\ op[t] = 1 /\ hand' = [hand EXCEPT ![t] = src] /\ src' = 0 /\ Go(t, "sys") /\ UNCHANGED <<dst, closes>>
  \/ pc[t] = "start" /\ op[t] = 2 /\ hand' = [hand EXCEPT ![t] = dst[t]] /\ dst' = [dst EXCEPT ![t] = 0] /\ Go(t, "own") /\ UNCHANGED <<src, closes>>
  \/ pc[t] = "own" /\ Sys(t) /\ hand' = [hand EXCEPT ![t] = 0] /\ Go(t, "take") /\ UNCHANGED <<src, dst>>
  \/ pc[t] = "take" /\ hand' = [hand EXCEPT ![t] = src] /\ src' = 0 /\ Go(t, "put") /\ UNCHANGED <<dst, closes>>
  \/ pc[t] = "put" /\ dst' = [dst EXCEPT ![t] = hand[t]] /\ hand' = [hand EXCEPT ![t] = 0] /\ Go(t, "end") /\ UNCHANGED <<src, closes>>
  \/ pc[t] = "sys" /\ Sys(t) /\ hand' = [hand EXCEPT ![t] = 0] /\ Go(t, "end") /\ UNCHANGED <<src, dst>>
Copies(d) == (IF src = d THEN 1 ELSE 0) + Cardinality({t \in T : dst[t] = d}) + Cardinality({t \in T : hand[t] = d})
Once == \A d \in DOMAIN closes : closes[d] + Copies(d) = 1
=============================================================================
