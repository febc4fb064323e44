---------------------------- MODULE SerializerMC ----------------------------
(* Bounded model: for every sequence of up to MaxVals integers from the      *)
(* boundary set and every truncation point, decoding the concatenation gives *)
(* the values back, consumes exactly each encoding, and no encoding is a     *)
(* proper prefix of another (so a truncated value can never decode).         *)
EXTENDS Serializer, TLC, FiniteSets
CONSTANTS MaxVals, N
VARIABLES vals, bytes

B == {0, 1, 126, 127, 128, 129, 135, 136, 255, 256, 32767, 32768, 65407, 65408, 65409, 65415, 65416, 65535}
Ints == IF N = 2 THEN {<<a, b>> : a \in B, b \in {0, 1, 255, 32767, 32768, 65535}}
        ELSE {<<a, b, c, d>> : a \in {0, 127, 128, 135, 255, 65408, 65535}, b \in {0, 1, 32768, 65535}, c \in {0, 1, 65535}, d \in {0, 32768, 65535}}

Init == vals = <<>> /\ bytes = <<>>
Next == Len(vals) < MaxVals /\ \E x \in Ints : vals' = Append(vals, x) /\ bytes' = bytes \o EncInt(x)

RECURSIVE DecAll(_, _)
DecAll(p, k) == IF k = 0 THEN IF p = Len(bytes) THEN <<>> ELSE <<"rest">>
                ELSE LET r == DecInt(bytes, p, N) IN <<r[1]>> \o DecAll(r[2], k - 1)
RoundTrip == DecAll(0, Len(vals)) = vals
Minimal == Len(vals) = 1 => Len(bytes) \in {1, 2, 3, 5, 9}
Encodings == {EncInt(x) : x \in Ints}
ASSUME Cardinality(Encodings) = Cardinality(Ints)          \* injective
ASSUME \A a \in Ints, b \in Ints : a # b => LET x == EncInt(a) y == EncInt(b) IN
          Len(x) >= Len(y) \/ SubSeq(y, 1, Len(x)) # x      \* prefix free
=============================================================================
