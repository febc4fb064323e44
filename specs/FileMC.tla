------------------------------- MODULE FileMC -------------------------------
(* Two handles on one file, with the transfer loops at the level of system    *)
(* calls: each call moves part of what is left or is interrupted. Finished    *)
(* loops have moved everything, appends never overwrite, a reader sees a      *)
(* slice of the file.                                                         *)
EXTENDS File, TLC
CONSTANT N
VARIABLES S, busy, got, seen, h
vars == <<S, busy, got, seen, h>>
Idle == [k |-> 0, data |-> <<>>, need |-> 0, ideal |-> <<>>]
Init == S = InitF({"a"}, {1, 2}) /\ busy = Idle /\ got = <<>> /\ seen = <<>> /\ h = <<>>
Open(k, c) == ~S.h[k].open /\
  LET m == CASE c = 1 -> "r" [] c = 2 -> "w" [] c = 3 -> "a" d == IF c = 2 THEN <<>> ELSE S.fs["a"].d IN
  /\ c = 1 => S.fs["a"].ex
  /\ S' = [S EXCEPT !.fs["a"] = [ex |-> TRUE, d |-> d], !.h[k] = [open |-> TRUE, m |-> m, f |-> "a", p |-> IF c = 3 THEN Len(d) ELSE 0, own |-> TRUE]]
  /\ UNCHANGED <<busy, got, seen>>
StartW(k, n) == CanW(S.h[k]) /\ LET x == [i \in 1 .. n |-> Len(h) + 1] IN
  busy' = [k |-> k, data |-> x, need |-> 0, ideal |-> Wrote(S, k, x).fs["a"].d] /\ UNCHANGED <<S, got, seen>>
StartR(k, n) == CanR(S.h[k]) /\ busy' = [k |-> k, data |-> <<>>, need |-> n, ideal |-> Rest(S, k)] /\ got' = <<>> /\ UNCHANGED <<S, seen>>
Call == \* one system call of the running loop
  \/ /\ busy.data # <<>> /\ \E n \in 0 .. Len(busy.data) :
        S' = Wrote(S, busy.k, SubSeq(busy.data, 1, n)) /\ busy' = [busy EXCEPT !.data = SubSeq(@, n + 1, Len(@))] /\ UNCHANGED <<got, seen, h>>
  \/ /\ busy.need > 0 /\ \E n \in 0 .. Min2(busy.need, Len(Rest(S, busy.k))) :
        /\ got' = got \o SubSeq(Rest(S, busy.k), 1, n)
        /\ S' = [S EXCEPT !.h[busy.k].p = @ + n]
        /\ busy' = IF Rest(S, busy.k) = <<>> THEN Idle ELSE [busy EXCEPT !.need = @ - n]
        /\ UNCHANGED <<seen, h>>
Done == busy # Idle /\ busy.data = <<>> /\ busy.need = 0 /\ busy' = Idle /\ UNCHANGED <<S, got, seen, h>>
Seek(k, to) == S.h[k].open /\ S' = [S EXCEPT !.h[k].p = to] /\ UNCHANGED <<busy, got, seen>>
Close(k) == S.h[k].open /\ S' = [S EXCEPT !.h[k] = Closed] /\ UNCHANGED <<busy, got, seen>>
Op(c) == CASE c \in 1 .. 3 -> Open(1, c) [] c \in 4 .. 6 -> Open(2, c - 3)
           [] c = 7 -> StartW(1, 1) [] c = 8 -> StartW(1, 2) [] c = 9 -> StartW(2, 2)
           [] c = 10 -> StartR(1, 2) [] c = 11 -> StartR(2, 1) [] c = 12 -> Seek(1, 1) [] c = 13 -> Seek(2, 3)
           [] c = 14 -> Close(1) [] c = 15 -> Close(2)
Next == \/ busy = Idle /\ Len(h) < N /\ \E c \in 1 .. 15 : Op(c) /\ h' = Append(h, c)
        \/ Call \/ Done
WriteExact == busy # Idle /\ busy.need = 0 /\ busy.data = <<>> /\ CanW(S.h[busy.k]) => S.fs["a"].d = busy.ideal
ReadExact == busy # Idle /\ CanR(S.h[busy.k]) => IsPrefixOf(got, busy.ideal)
Sane == \A k \in {1, 2} : S.h[k].open => S.fs["a"].ex
AppendOnly == [][ (busy # Idle /\ S.h[busy.k].m = "a") => IsPrefixOf(S.fs["a"].d, S'.fs["a"].d) ]_vars
Emit == h # <<>> /\ busy = Idle => PrintT(<<"GEN", h>>)
=============================================================================
