---------------------------- MODULE BitVectorMC ----------------------------
(* Bounded model: the word representation (last word masked) refines the     *)
(* ideal bit sequence, for every operation history up to MaxOps; and its     *)
(* behaviours are printed for replay on the real code (word size 8).        *)
EXTENDS BitVector, TLC
CONSTANTS MaxOps, MaxBits, W, Lens, Emitting
VARIABLES S, rep, hist     \* ideal content; representation <<len, words>>; operations so far

Ones(n) == [k \in 1 .. n |-> 1]
(* representation: words as sequences of W bits *)
Split(bits) == [k \in 1 .. Words(Len(bits), W) |->
                  [j \in 1 .. W |-> IF (k-1)*W + j <= Len(bits) THEN bits[(k-1)*W + j] ELSE 0]]
Rep(bits) == [len |-> Len(bits), words |-> Split(bits)]
Flat(ws) == [j \in 1 .. Len(ws) * W |-> ws[((j-1) \div W) + 1][((j-1) % W) + 1]]
Abs(r) == Take(Flat(r.words), r.len)
Mask(word, n) == [j \in 1 .. W |-> IF j <= n THEN word[j] ELSE 0]
RResize(r, n) ==
  LET m == Words(n, W)
      ws == [k \in 1 .. m |-> IF k <= Len(r.words) THEN r.words[k] ELSE Zeros(W)]
      q == n % W
  IN [len |-> n, words |-> IF q = 0 THEN ws ELSE [ws EXCEPT ![m] = Mask(ws[m], q)]]
\* append n one bits as one word operation: or into the last word, spill into the next
RAppendOnes(r, n) ==
  LET r2 == RResize(r, r.len + n)
  IN [r2 EXCEPT !.words = [k \in 1 .. Len(r2.words) |->
        [j \in 1 .. W |-> LET p == (k-1)*W + j IN IF p > r.len /\ p <= r.len + n THEN 1 ELSE r2.words[k][j]]]]
RSet(r, i, b) == [r EXCEPT !.words[((i) \div W) + 1][(i % W) + 1] = b]

Init == S = InitState /\ rep = [x \in {"a", "b"} |-> Rep(<<>>)] /\ hist = <<>>
Other(v) == IF v = "a" THEN "b" ELSE "a"
Code(v) == IF v = "a" THEN 0 ELSE 1
Small(n) == n <= MaxBits

Resize == \E v \in {"a", "b"}, n \in Lens :
   /\ S' = [S EXCEPT ![v] = Grow(S[v], n)]
   /\ rep' = [rep EXCEPT ![v] = RResize(rep[v], n)]
   /\ hist' = hist \o <<1, Code(v), n>>
AppendW == \E v \in {"a", "b"}, n \in {1, W - 1, W} :
   /\ Small(Len(S[v]) + n)
   /\ S' = [S EXCEPT ![v] = DoAppend(S[v], Ones(n), n)]
   /\ rep' = [rep EXCEPT ![v] = RAppendOnes(rep[v], n)]
   /\ hist' = hist \o <<2, Code(v), n>>
AppendV == \E v, w \in {"a", "b"} :
   /\ Small(Len(S[v]) + Len(S[w])) /\ Len(S[w]) > 0
   /\ S' = [S EXCEPT ![v] = S[v] \o S[w]]
   /\ rep' = [rep EXCEPT ![v] = Rep(Abs(rep[v]) \o Abs(rep[w]))]
   /\ hist' = hist \o <<3, Code(v), Code(w)>>
SetB == \E v \in {"a", "b"}, b \in {0, 1} : \E p \in {0, Len(S[v]) - 1} :
   /\ p >= 0 /\ Len(S[v]) > 0
   /\ S' = [S EXCEPT ![v][p + 1] = b]
   /\ rep' = [rep EXCEPT ![v] = RSet(rep[v], p, b)]
   /\ hist' = hist \o <<4, Code(v), p, b>>
InitB == \E v \in {"a", "b"}, n \in Lens :     \* raw words of ones, garbage above n included
   /\ S' = [S EXCEPT ![v] = DoInit(Ones(n + W), n)]
   /\ rep' = [rep EXCEPT ![v] = RResize([len |-> Words(n, W) * W, words |-> Split(Ones(Words(n, W) * W))], n)]
   /\ hist' = hist \o <<5, Code(v), n>>
ExtractV == \E v \in {"a", "b"}, n \in Lens : \E p \in {0, 1, Len(S[v]) - n} :
   /\ p >= 0 /\ n > 0 /\ InRange(S[v], p, n)
   /\ S' = [S EXCEPT ![Other(v)] = Sub(S[v], p, n)]
   /\ rep' = [rep EXCEPT ![Other(v)] = Rep(Sub(Abs(rep[v]), p, n))]
   /\ hist' = hist \o <<6, Code(v), p, n>>
Copy == \E v \in {"a", "b"} :
   /\ S' = [S EXCEPT ![v] = S[Other(v)]]
   /\ rep' = [rep EXCEPT ![v] = rep[Other(v)]]
   /\ hist' = hist \o <<7, Code(v)>>
Clear == \E v \in {"a", "b"} :
   /\ S' = [S EXCEPT ![v] = <<>>] /\ rep' = [rep EXCEPT ![v] = Rep(<<>>)]
   /\ hist' = hist \o <<8, Code(v)>>

VARIABLE depth
GInit == Init /\ depth = 0
GNext == depth < MaxOps /\ depth' = depth + 1 /\ (Resize \/ AppendW \/ AppendV \/ SetB \/ InitB \/ ExtractV \/ Copy \/ Clear)

Refines == \A v \in {"a", "b"} : Abs(rep[v]) = S[v]
Canonical == \A v \in {"a", "b"} : rep[v] = Rep(S[v])           \* unused bits are zero
EqAgrees == (rep["a"] = rep["b"]) <=> (S["a"] = S["b"])
Emit == (Emitting /\ depth = MaxOps) => PrintT(<<"GEN", hist>>)
View == IF Emitting THEN <<S, rep, hist>> ELSE <<S, rep, <<>>>>
=============================================================================
