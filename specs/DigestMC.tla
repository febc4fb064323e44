------------------------------ MODULE DigestMC ------------------------------
(* Piecewise hashing: a block buffer fed with pieces of every size around the *)
(* block length processes exactly the padded blocks of the concatenation (the *)
(* compression function is abstract: the list of blocks). The definitions are *)
(* anchored by the published test vectors.                                    *)
EXTENDS Digest, TLC
CONSTANT N
VARIABLES msg, buf, out, h
B == 4
Size(k) == CASE k = 0 -> 0 [] k = 1 -> 1 [] k = 2 -> B - 2 [] k = 3 -> B - 1 [] k = 4 -> B [] k = 5 -> B + 1 [] k = 6 -> 2 * B + 1
Init == msg = <<>> /\ buf = <<>> /\ out = <<>> /\ h = <<>>
\* the buffer keeps less than a block
RECURSIVE Absorb(_, _)
Absorb(b, o) == IF Len(b) < B THEN [b |-> b, o |-> o] ELSE Absorb(SubSeq(b, B + 1, Len(b)), Append(o, SubSeq(b, 1, B)))
Next == Len(h) < N /\ \E k \in 0 .. 6 :
  LET piece == [i \in 1 .. Size(k) |-> (Len(msg) + i) % 7] r == Absorb(buf \o piece, out) IN
  msg' = msg \o piece /\ buf' = r.b /\ out' = r.o /\ h' = Append(h, k)
PadB(m) == LET z == (2 * B - 2 - (Len(m) % B)) % B IN m \o <<128>> \o Zeros(z) \o <<Len(m)>>
RECURSIVE Cut(_)
Cut(m) == IF m = <<>> THEN <<>> ELSE <<SubSeq(m, 1, B)>> \o Cut(SubSeq(m, B + 1, Len(m)))
\* finishing: one or two more blocks
Finish == IF Len(buf) + 2 <= B THEN out \o <<buf \o <<128>> \o Zeros(B - 2 - Len(buf)) \o <<Len(msg)>>>>
          ELSE out \o <<buf \o <<128>> \o Zeros(B - 1 - Len(buf)), Zeros(B - 1) \o <<Len(msg)>>>>
Chunking == Finish = Cut(PadB(msg)) /\ Len(buf) < B
Emit == h # <<>> => PrintT(<<"GEN", <<Len(h)>> \o h>>)
Abc == <<97, 98, 99>>
ASSUME SubSeq(Sha(1, Abc), 1, 6) = <<169, 153, 62, 54, 71, 6>>
ASSUME SubSeq(Sha(256, Abc), 1, 6) = <<186, 120, 22, 191, 143, 1>>
ASSUME SubSeq(Sha(224, Abc), 1, 6) = <<35, 9, 125, 34, 52, 5>>
ASSUME SubSeq(Sha(512, Abc), 1, 6) = <<221, 175, 53, 161, 147, 97>>
ASSUME SubSeq(Sha(384, Abc), 1, 6) = <<203, 0, 117, 63, 69, 163>>
ASSUME SubSeq(Sha(256, <<>>), 1, 4) = <<227, 176, 196, 66>>
\* SipHash reference vector: key 00..0f, message 00..0e
ASSUME SipHash([i \in 1 .. 15 |-> i - 1], <<256, 770, 1284, 1798>>, <<2312, 2826, 3340, 3854>>) = <<17893, 18878, 51809, 41257>>
\* FIPS 197 C.1
ASSUME Aes([i \in 1 .. 16 |-> i - 1], <<>>, FALSE, [i \in 1 .. 16 |-> 17 * (i - 1)]) = <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90>>
ASSUME SubSeq(Aes([i \in 1 .. 32 |-> i - 1], <<>>, FALSE, [i \in 1 .. 16 |-> 17 * (i - 1)]), 1, 4) = <<142, 162, 183, 202>>
\* RFC 4231 test 2
ASSUME SubSeq(Hmac(256, <<74, 101, 102, 101>>, <<119, 104, 97, 116, 32, 100, 111, 32, 121, 97, 32, 119, 97, 110, 116, 32, 102, 111, 114, 32, 110, 111, 116, 104, 105, 110, 103, 63>>), 1, 4) = <<91, 220, 193, 70>>
=============================================================================
