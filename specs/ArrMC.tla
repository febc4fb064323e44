------------------------------- MODULE ArrMC -------------------------------
(* The buffer with a size and a capacity that is kept on shrinking refines    *)
(* the sequence: what is visible is the sequence, growth within the capacity  *)
(* clears what an earlier, longer content left, no two arrays share a buffer. *)
EXTENDS Arr, FiniteSets, TLC
CONSTANTS Sizes, Depth
VARIABLES abs, buf, sz, ops
vars == <<abs, buf, sz, ops>>
V == 1 .. 2
Junk == 77
Init == abs = [v \in V |-> <<>>] /\ buf = [v \in V |-> <<>>] /\ sz = [v \in V |-> 0] /\ ops = <<>>
Do(e, code) == Len(ops) < 4 * Depth /\ ops' = ops \o code /\ abs' \in Step(abs, e)
NewBuf(n, a, k) == [i \in 1 .. n |-> IF i <= k THEN a[i] ELSE Junk]
Resize(v, n, c) ==
  /\ Do([op |-> "resize", v |-> v, n |-> n, c |-> c], <<0, v, n, IF c THEN 1 ELSE 0>>)
  /\ IF n <= sz[v] THEN sz' = [sz EXCEPT ![v] = n] /\ UNCHANGED buf
     ELSE LET b == IF n > Len(buf[v]) THEN NewBuf(n, buf[v], sz[v]) ELSE buf[v]
          IN buf' = [buf EXCEPT ![v] = [i \in 1 .. Len(b) |-> IF c /\ i > sz[v] /\ i <= n THEN 0 ELSE b[i]]] /\ sz' = [sz EXCEPT ![v] = n]
Set(v, x) == sz[v] > 0 /\ Do([op |-> "set", v |-> v, i |-> sz[v] - 1, x |-> x], <<1, v, sz[v] - 1, x>>) /\ buf' = [buf EXCEPT ![v][sz[v]] = x] /\ UNCHANGED sz
Copy(v, w) == Do([op |-> "copy", v |-> v, w |-> w], <<2, v, w, 0>>)
  /\ buf' = [buf EXCEPT ![v] = IF Len(buf[v]) < sz[w] THEN NewBuf(sz[w], buf[w], sz[w]) ELSE [i \in 1 .. Len(buf[v]) |-> IF i <= sz[w] THEN buf[w][i] ELSE buf[v][i]]] /\ sz' = [sz EXCEPT ![v] = sz[w]]
Move(v, w) == Do([op |-> "move", v |-> v, w |-> w], <<3, v, w, 0>>) /\ buf' = [buf EXCEPT ![v] = buf[w], ![w] = buf[v]] /\ sz' = [sz EXCEPT ![v] = sz[w], ![w] = 0]
Swp == Do([op |-> "swap", v |-> 1, w |-> 2], <<4, 1, 2, 0>>) /\ buf' = [buf EXCEPT ![1] = buf[2], ![2] = buf[1]] /\ sz' = [sz EXCEPT ![1] = sz[2], ![2] = sz[1]]
Clear(v) == Do([op |-> "clear", v |-> v], <<5, v, 0, 0>>) /\ sz' = [sz EXCEPT ![v] = 0] /\ UNCHANGED buf
Next == \/ \E v \in V : (\E n \in Sizes, c \in BOOLEAN : Resize(v, n, c)) \/ Set(v, 5 + v) \/ Clear(v) \/ (\E w \in V \ {v} : Copy(v, w) \/ Move(v, w))
        \/ Swp
Refines == \A v \in V : sz[v] <= Len(buf[v]) /\ Agree(abs[v], SubSeq(buf[v], 1, sz[v]))
Emit == Len(ops) = 4 * Depth => PrintT(<<"GEN", ops>>)
=============================================================================
