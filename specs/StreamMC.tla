------------------------------- MODULE StreamMC -------------------------------
(* Bounded model: all call sequences up to MaxOps on a stream of N bytes and  *)
(* a fixed buffer of Cap bytes. Results the specification allows are chosen   *)
(* by the environment (short reads); the invariants say that what was handed  *)
(* over is a prefix of the data and what was stored a prefix of what was      *)
(* offered. Behaviours are printed for replay.                                *)
EXTENDS Stream, TLC
CONSTANTS MaxOps, N, Cap
VARIABLES S, got, put, hist, d
Data == [k \in 1 .. N |-> 10 + k]
Init == S = InitStream("short", Data, "mem", <<>>, Cap) /\ got = <<>> /\ put = <<>> /\ hist = <<>> /\ d = 0
ReadSome == \E n \in 0 .. N + 1 : \E r \in 0 .. N :
   LET e == [op |-> "readSome", n |-> n, ret |-> r, out |-> Slice(Data, S.pos, r), pos |-> -1] IN
   /\ r <= Rem(S)
   /\ \E T \in Step(S, e) : S' = T
   /\ got' = got \o e.out /\ hist' = hist \o <<0, n, r>> /\ put' = put
Read == \E n \in 0 .. N + 1 :
   LET m == Min2(n, Rem(S))
       e == [op |-> "read", n |-> n, ok |-> n <= Rem(S), out |-> Slice(Data, S.pos, m), pos |-> -1] IN
   /\ \E T \in Step(S, e) : S' = T
   /\ got' = got \o e.out /\ hist' = hist \o <<1, n, 0>> /\ put' = put
ReadChar ==
   LET e == [op |-> "readChar", ok |-> Rem(S) > 0, c |-> IF Rem(S) > 0 THEN Data[S.pos + 1] ELSE 0, pos |-> -1] IN
   /\ \E T \in Step(S, e) : S' = T
   /\ got' = got \o Slice(Data, S.pos, Min2(1, Rem(S))) /\ hist' = hist \o <<2, 1, 0>> /\ put' = put
Write == \E n \in 0 .. Cap + 1 :
   LET b == [k \in 1 .. n |-> d * 16 + k]
       e == [op |-> "write", b |-> b, ok |-> n <= Cap - Len(S.out), pos |-> -1] IN
   /\ \E T \in Step(S, e) : S' = T
   /\ put' = IF e.ok THEN put \o b ELSE put
   /\ hist' = hist \o <<3, n, 0>> /\ got' = got
Next == d < MaxOps /\ d' = d + 1 /\ (ReadSome \/ Read \/ ReadChar \/ Write)
Delivered == got = Slice(Data, 0, S.pos) /\ S.pos <= N
Stored == S.out = put /\ Len(put) <= Cap
Emit == d = MaxOps => PrintT(<<"GEN", hist>>)
=============================================================================
