----------------------------- MODULE BitVector -----------------------------
(* P06: bit vectors as sequences of bits.                                   *)
(* State: two vectors, each an ideal sequence of bits (0/1).                *)
EXTENDS Naturals, Integers, Sequences

Zeros(n) == [k \in 1 .. n |-> 0]
Take(s, n) == SubSeq(s, 1, n)
Grow(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Zeros(n - Len(s))
Sub(s, pos, n) == SubSeq(s, pos + 1, pos + n)         \* bits [pos, pos+n)
Pad(s, n) == s \o Zeros(n - Len(s))
Words(n, W) == (n + W - 1) \div W

InitState == [x \in {"a", "b"} |-> <<>>]

----------------------------------------------------------------------------
(* The operations: new content of the changed vector.                       *)
DoInit(bits, n) == Take(bits, n)
DoAppend(s, bits, n) == s \o Take(bits, n)
InRange(s, pos, n) == n = 0 \/ (pos >= 0 /\ n >= 0 /\ pos + n <= Len(s))

(* e.v: name of vector, e.size/e.bits: content observed after the operation *)
Holds(e, s) == e.size = Len(s) /\ e.bits = s
Put(S, v, s, e) == IF Holds(e, s) THEN {[S EXCEPT ![v] = s]} ELSE {}
Same(S, ok) == IF ok THEN {S} ELSE {}

Step(S, e) ==
  CASE e.op = "init"    -> Put(S, e.v, DoInit(e.src, e.n), e)
    [] e.op = "resize"  -> Put(S, e.v, Grow(S[e.v], e.n), e)
    [] e.op = "clear"   -> Put(S, e.v, <<>>, e)
    [] e.op = "appendArr" -> Put(S, e.v, DoAppend(S[e.v], e.src, e.n), e)
    [] e.op = "appendWord" ->
         IF e.n > e.W THEN IF e.thrown THEN Put(S, e.v, S[e.v], e) ELSE {}
         ELSE IF e.thrown THEN {} ELSE Put(S, e.v, DoAppend(S[e.v], e.src, e.n), e)
    [] e.op = "appendVec" -> Put(S, e.v, S[e.v] \o S[e.w], e)
    [] e.op = "set" ->
         IF e.idx < 0 \/ e.idx >= Len(S[e.v])
         THEN IF e.thrown THEN Put(S, e.v, S[e.v], e) ELSE {}
         ELSE IF e.thrown THEN {} ELSE Put(S, e.v, [S[e.v] EXCEPT ![e.idx + 1] = e.b], e)
    [] e.op = "get" ->
         Same(S, IF e.idx < 0 \/ e.idx >= Len(S[e.v]) THEN e.thrown
                 ELSE ~e.thrown /\ e.r = S[e.v][e.idx + 1])
    [] e.op = "copy"    -> Put(S, e.v, S[e.w], e)
    [] e.op = "swap"    -> IF Holds(e, S[e.w]) THEN {[S EXCEPT ![e.v] = S[e.w], ![e.w] = S[e.v]]} ELSE {}
    [] e.op = "extractWord" ->      \* r: all W bits of the returned word
         Same(S, IF e.n > e.W \/ ~InRange(S[e.v], e.pos, e.n) THEN e.thrown
                 ELSE ~e.thrown /\ e.r = Pad(Sub(S[e.v], e.pos, e.n), e.W))
    [] e.op = "extractArr" ->       \* r: the whole target buffer, before: its old content
         Same(S, IF ~InRange(S[e.v], e.pos, e.n) THEN e.thrown /\ e.r = e.before
                 ELSE /\ ~e.thrown
                      /\ LET k == Words(e.n, e.W) * e.W IN
                         e.r = Pad(Sub(S[e.v], e.pos, e.n), k) \o SubSeq(e.before, k + 1, Len(e.before)))
    [] e.op = "extractVec" ->       \* into the other vector
         IF ~InRange(S[e.v], e.pos, e.n)
         THEN IF e.thrown THEN {[S EXCEPT ![e.w] = e.bits]} ELSE {}   \* target unspecified
         ELSE IF e.thrown THEN {} ELSE Put(S, e.w, Sub(S[e.v], e.pos, e.n), e)
    [] e.op = "eq" -> Same(S, e.r = (S[e.v] = S[e.w]) /\ e.ne = (S[e.v] # S[e.w]))
    [] e.op = "check" -> Same(S, Holds(e, S[e.v]))
    \* free functions on raw words: before/after are all bits of the buffers
    [] e.op = "blockset" -> Same(S, e.after = [e.before EXCEPT ![e.idx + 1] = e.b])
    [] e.op = "blockget" -> Same(S, e.r = e.before[e.idx + 1])
    [] e.op = "copybit" ->
         LET k == Words(e.n, e.W) * e.W IN
         Same(S, e.after = Pad(Take(e.src, e.n), k) \o SubSeq(e.before, k + 1, Len(e.before)))
    [] e.op = "shl" ->              \* n bits of src shifted by sh, ext or-ed into word 0; carry returned
         LET k == Words(e.n, e.W) * e.W
             full == Zeros(e.sh) \o Take(e.src, e.n)
             long == Pad(full, k + e.W)
         IN Same(S, IF e.n = 0 THEN ~e.thrown /\ e.after = e.before /\ e.r = Zeros(e.W)
                    ELSE IF e.sh >= e.W THEN e.thrown
                    ELSE /\ ~e.thrown
                         /\ e.r = (IF e.sh = 0 THEN Zeros(e.W) ELSE
                                     \* bits of the last source word shifted out of the last target word
                                     Pad(SubSeq(long, k + 1, k + e.W), e.W))
                         /\ e.after = [j \in 1 .. Len(e.before) |->
                               IF j > k THEN e.before[j]
                               ELSE IF j <= Len(e.ext) /\ e.ext[j] = 1 THEN 1 ELSE long[j]])
    [] OTHER -> {}
=============================================================================
