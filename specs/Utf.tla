-------------------------------- MODULE Utf --------------------------------
(* P17: UTF-8 and UTF-16. Well-formedness is the table of the Unicode         *)
(* standard (table 3-7); a decoder maps a sequence of code units to its code  *)
(* points or fails.                                                           *)
EXTENDS Bytes
IsScalar(c) == c \in 0 .. 1114111 /\ c \notin 55296 .. 57343
Enc8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Enc16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Cont == 128 .. 191
\* length of the well-formed sequence at p, 0 if none
Len8(s, p) ==
  LET n == Len(s) - p + 1 b == s[p]
      T(k, X) == n > k /\ s[p + k] \in X IN
  IF b <= 127 THEN 1
  ELSE IF b \in 194 .. 223 THEN (IF T(1, Cont) THEN 2 ELSE 0)
  ELSE IF b \in 224 .. 239 THEN
    (IF T(1, IF b = 224 THEN 160 .. 191 ELSE IF b = 237 THEN 128 .. 159 ELSE Cont) /\ T(2, Cont) THEN 3 ELSE 0)
  ELSE IF b \in 240 .. 244 THEN
    (IF T(1, IF b = 240 THEN 144 .. 191 ELSE IF b = 244 THEN 128 .. 143 ELSE Cont) /\ T(2, Cont) /\ T(3, Cont) THEN 4 ELSE 0)
  ELSE 0
Val8(s, p, k) == CASE k = 1 -> s[p] [] k = 2 -> (s[p] - 192) * 64 + s[p + 1] - 128
  [] k = 3 -> (s[p] - 224) * 4096 + (s[p + 1] - 128) * 64 + s[p + 2] - 128
  [] k = 4 -> (s[p] - 240) * 262144 + (s[p + 1] - 128) * 4096 + (s[p + 2] - 128) * 64 + s[p + 3] - 128
RECURSIVE Dec8From(_, _, _)
Dec8From(s, p, acc) == IF p > Len(s) THEN [ok |-> TRUE, v |-> acc]
  ELSE LET k == Len8(s, p) IN IF k = 0 THEN [ok |-> FALSE, v |-> acc] ELSE Dec8From(s, p + k, Append(acc, Val8(s, p, k)))
Dec8(s) == Dec8From(s, 1, <<>>)
RECURSIVE Dec16From(_, _, _)
Dec16From(s, p, acc) == IF p > Len(s) THEN [ok |-> TRUE, v |-> acc]
  ELSE IF s[p] \notin 55296 .. 57343 THEN Dec16From(s, p + 1, Append(acc, s[p]))
  ELSE IF s[p] <= 56319 /\ p < Len(s) /\ s[p + 1] \in 56320 .. 57343
       THEN Dec16From(s, p + 2, Append(acc, 65536 + (s[p] - 55296) * 1024 + s[p + 1] - 56320))
  ELSE [ok |-> FALSE, v |-> acc]
Dec16(s) == Dec16From(s, 1, <<>>)
EncAll8(cs) == Concat([i \in 1 .. Len(cs) |-> Enc8(cs[i])])
EncAll16(cs) == Concat([i \in 1 .. Len(cs) |-> Enc16(cs[i])])
AllScalar(cs) == \A i \in 1 .. Len(cs) : IsScalar(cs[i])
Step(S, e) ==
  CASE e.op = "char" ->        \* one code point: its size, validity and encodings (<<>> for failure)
         LET v == IsScalar(e.c) IN
         IF /\ e.valid = v /\ e.size = (IF v THEN Len(Enc8(e.c)) ELSE 0)
            /\ e.u8 = (IF v THEN Enc8(e.c) ELSE <<>>) /\ e.u16 = (IF v THEN Enc16(e.c) ELSE <<>>) THEN {S} ELSE {}
    [] e.op = "dec8" ->        \* code points of the bytes; first: those decoded before a failure
         LET w == Dec8(e.s) IN IF e.ok = w.ok /\ e.v = w.v THEN {S} ELSE {}
    [] e.op = "str8" -> LET w == Dec8(e.s) IN IF e.ok = w.ok /\ (w.ok => e.v = w.v) THEN {S} ELSE {}
    [] e.op = "conv8" -> LET w == Dec8(e.s) IN IF e.ok = w.ok /\ (w.ok => e.v = EncAll16(w.v)) THEN {S} ELSE {}
    [] e.op = "dec16" -> LET w == Dec16(e.s) IN IF e.ok = w.ok /\ e.v = w.v THEN {S} ELSE {}
    [] e.op = "str16" -> LET w == Dec16(e.s) IN IF e.ok = w.ok /\ (w.ok => e.v = w.v) THEN {S} ELSE {}
    [] e.op = "conv16" -> LET w == Dec16(e.s) IN IF e.ok = w.ok /\ (w.ok => e.v = EncAll8(w.v)) THEN {S} ELSE {}
    [] e.op = "enc" ->         \* a whole string of code points
         LET v == AllScalar(e.s) IN
         IF e.valid = v /\ e.ok8 = v /\ e.ok16 = v /\ (v => e.u8 = EncAll8(e.s) /\ e.u16 = EncAll16(e.s)) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
