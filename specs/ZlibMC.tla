------------------------------- MODULE ZlibMC -------------------------------
(* The two loops over a fixed output buffer and a fixed input buffer, with an *)
(* abstract coder of arbitrary latency in between. Stream items: 0/1 data, 7  *)
(* end of data, then the trailer (parity, length). The medium may cut the     *)
(* stream or damage one item; whatever the decompressor then does, it never   *)
(* reports the end of anything but the written bytes.                         *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS NW, NR, BUF
VARIABLES w, pend, str, phase, fault, inb, got, ended, st, h
vars == <<w, pend, str, phase, fault, inb, got, ended, st, h>>
RECURSIVE Par(_)
Par(s) == IF s = <<>> THEN 0 ELSE (s[1] + Par(Tail(s))) % 2
Init == w = <<>> /\ pend = <<>> /\ str = <<>> /\ phase = "write" /\ fault = 0 /\ inb = <<>> /\ got = <<>> /\ ended = FALSE /\ st = "ok" /\ h = <<>>
Suffix(s, n) == SubSeq(s, n + 1, Len(s))
Min2(a, b) == IF a < b THEN a ELSE b
\* a write hands the coder k bytes; the coder emits any part of what it holds
Write == phase = "write" /\ Len(h) < NW /\ \E k \in 0 .. 2 : \E b \in [1 .. k -> 0 .. 1] :
  LET p == pend \o [i \in 1 .. k |-> b[i]] IN \E n \in {0, Len(p)} :
  /\ w' = w \o [i \in 1 .. k |-> b[i]] /\ str' = str \o SubSeq(p, 1, n) /\ pend' = Suffix(p, n) /\ h' = Append(h, k)
  /\ UNCHANGED <<phase, fault, inb, got, ended, st>>
Finish == phase = "write" /\ str' = str \o pend \o <<7, Par(w), Len(w)>> /\ pend' = <<>> /\ phase' = "medium" /\ h' = h \o <<9>>
  /\ UNCHANGED <<w, fault, inb, got, ended, st>>
Medium == phase = "medium" /\ phase' = "read" /\
  \/ fault' = 0 /\ str' = str
  \/ fault' = 1 /\ \E n \in 0 .. Len(str) - 1 : str' = SubSeq(str, 1, n)
  \/ fault' = 2 /\ \E i \in 1 .. Len(str) : str[i] \in {0, 1} /\ str' = [str EXCEPT ![i] = 1 - @]
MediumStep == Medium /\ UNCHANGED <<w, pend, inb, got, ended, st, h>>
\* one readSome(k): refill when empty, decode until something comes out
RECURSIVE Run(_, _, _, _, _)
Run(ib, s, k, out, ref) ==     \* ref: size of the underlying reads
  IF Len(out) > 0 /\ (Len(out) = k \/ ib = <<>>) THEN [ib |-> ib, s |-> s, out |-> out, e |-> "ok"]
  ELSE LET m == IF ib = <<>> THEN Min2(ref, Min2(BUF, Len(s))) ELSE 0 i2 == ib \o SubSeq(s, 1, m) s2 == Suffix(s, m) IN
  IF i2 = <<>> THEN [ib |-> i2, s |-> s2, out |-> out, e |-> "throw"]
  ELSE IF i2[1] = 7 THEN LET t == i2 \o s2 all == got \o out IN
       IF Len(t) < 3 \/ t[2] # Par(all) \/ t[3] # Len(all) THEN [ib |-> <<>>, s |-> <<>>, out |-> <<>>, e |-> "throw"]
       ELSE [ib |-> <<>>, s |-> <<>>, out |-> out, e |-> "end"]
  ELSE Run(Tail(i2), s2, k, Append(out, i2[1]), ref)
Read == phase = "read" /\ st = "ok" /\ \E k \in 1 .. 2, ref \in 1 .. 2 :
  LET r == IF ended THEN [ib |-> inb, s |-> str, out |-> <<>>, e |-> "end"] ELSE Run(inb, str, k, <<>>, ref) IN
  /\ inb' = r.ib /\ str' = r.s /\ got' = got \o r.out /\ ended' = (r.e = "end")
  /\ st' = (IF r.e = "throw" THEN "thrown" ELSE IF r.out = <<>> THEN "done" ELSE "ok")
  /\ h' = (IF Len(h) < NW + 1 + NR THEN h \o <<k>> ELSE h)
  /\ UNCHANGED <<w, pend, phase, fault>>
Next == Write \/ Finish \/ MediumStep \/ Read
Good == fault = 0 => st # "thrown" /\ got = SubSeq(w, 1, Len(got))
EndIsTruth == st = "done" \/ ended => got = w
CutNeverEnds == fault = 1 => st # "done"
Emit == st # "ok" => PrintT(<<"GEN", h \o <<fault>>>>)
=============================================================================
