------------------------------- MODULE UtfMC -------------------------------
(* Byte sequences up to N over representatives of every byte class, code unit *)
(* sequences of UTF-16, and code points at every boundary.                    *)
EXTENDS Utf, TLC
CONSTANT N
VARIABLE s
BC == <<0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255>>
Init == s = <<>>
Next == Len(s) < N /\ \E k \in 1 .. Len(BC) : s' = Append(s, BC[k])
\* what is accepted is the unique shortest-form encoding of scalar values
Sound8 == LET w == Dec8(s) IN w.ok => AllScalar(w.v) /\ EncAll8(w.v) = s
\* decoding is determined from the left: a decoded prefix stays decoded
Prefix8 == s # <<>> => LET w == Dec8(s) u == Dec8(SubSeq(s, 1, Len(s) - 1)) IN w.ok /\ u.ok => IsPrefixOf(u.v, w.v)
Edges == UNION {{c - 1, c, c + 1} : c \in {0, 127, 128, 2047, 2048, 4095, 4096, 53247, 53248, 55295, 55296, 56319, 56320, 57343, 57344, 65535, 65536, 262143, 262144, 1048575, 1048576, 1114111, 1114112}}
EdgeOk == s = <<>> => \A c \in Edges : IsScalar(c) => /\ Dec8(Enc8(c)) = [ok |-> TRUE, v |-> <<c>>] /\ Dec16(Enc16(c)) = [ok |-> TRUE, v |-> <<c>>]
\* units of UTF-16: the same enumeration mapped to units
U(b) == CASE b = 0 -> 0 [] b = 65 -> 65 [] b = 127 -> 55295 [] b = 128 -> 55296 [] b = 143 -> 56319 [] b = 144 -> 56320 [] b = 159 -> 57343 [] b = 160 -> 57344 [] OTHER -> 65535 - b
Units == [i \in 1 .. Len(s) |-> U(s[i])]
Sound16 == LET w == Dec16(Units) IN w.ok => AllScalar(w.v) /\ EncAll16(w.v) = Units
Emit == PrintT(<<"GEN", <<Len(s)>> \o s>>)
=============================================================================
