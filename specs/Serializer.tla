----------------------------- MODULE Serializer -----------------------------
(* P01: typed values on a byte stream.                                       *)
(* Values (as recorded):                                                     *)
(*  [k |-> "i", l |-> limbs]   integer of Len(l)*2 bytes, two's complement,  *)
(*                             little-endian 16-bit limbs                    *)
(*  [k |-> "p", b |-> bytes]   plain data                                    *)
(*  [k |-> "s", b |-> bytes]   byte string (size prefix, bytes)              *)
(*  [k |-> "v", e |-> values]  sequence / ordered set (size prefix, elements)*)
(*  [k |-> "m", e |-> values]  ordered map: k1, v1, k2, v2, ...              *)
(*  [k |-> "u", e |-> values]  unordered map, in iteration order             *)
(*  [k |-> "o", e |-> values]  object: fields one after another, no prefix   *)
EXTENDS Integers, Sequences

Lo(x) == x % 256
Hi(x) == x \div 256

\* all limbs from index k on equal to x
Rest(l, k, x) == \A j \in k .. Len(l) : l[j] = x
FitsS8(l)  == \/ l[1] < 128 /\ Rest(l, 2, 0)
              \/ l[1] >= 65408 /\ Rest(l, 2, 65535)
FitsU8(l)  == l[1] < 256 /\ Rest(l, 2, 0)
FitsU16(l) == Rest(l, 2, 0)
FitsS16(l) == l[1] >= 32768 /\ Rest(l, 2, 65535)
FitsU32(l) == Rest(l, 3, 0)
FitsS32(l) == l[2] >= 32768 /\ Rest(l, 3, 65535)

LE16(x) == <<Lo(x), Hi(x)>>
EncInt(l) ==
  IF FitsS8(l) THEN LET b == Lo(l[1]) IN IF b >= 128 /\ b <= 135 THEN <<132, b>> ELSE <<b>>
  ELSE IF FitsU8(l) THEN <<128, l[1]>>
  ELSE IF FitsU16(l) THEN <<129>> \o LE16(l[1])
  ELSE IF FitsS16(l) THEN <<133>> \o LE16(l[1])
  ELSE IF FitsU32(l) THEN <<130>> \o LE16(l[1]) \o LE16(l[2])
  ELSE IF FitsS32(l) THEN <<134>> \o LE16(l[1]) \o LE16(l[2])
  ELSE <<131>> \o LE16(l[1]) \o LE16(l[2]) \o LE16(l[3]) \o LE16(l[4])

RawInt(l) == [j \in 1 .. 2 * Len(l) |-> IF j % 2 = 1 THEN Lo(l[(j + 1) \div 2]) ELSE Hi(l[j \div 2])]
NatLimbs(n) == <<n % 65536, n \div 65536, 0, 0>>
EncSize(n, fixed) == IF fixed THEN RawInt(NatLimbs(n)) ELSE EncInt(NatLimbs(n))

RECURSIVE Enc(_, _), EncAll(_, _)
Enc(v, fixed) ==
  CASE v.k = "i" -> IF fixed THEN RawInt(v.l) ELSE EncInt(v.l)
    [] v.k = "p" -> v.b
    [] v.k = "s" -> EncSize(Len(v.b), fixed) \o v.b
    [] v.k = "v" -> EncSize(Len(v.e), fixed) \o EncAll(v.e, fixed)
    [] v.k \in {"m", "u"} -> EncSize(Len(v.e) \div 2, fixed) \o EncAll(v.e, fixed)
    [] v.k = "o" -> EncAll(v.e, fixed)
EncAll(vs, fixed) == IF vs = <<>> THEN <<>>
                     ELSE IF Len(vs) = 1 THEN Enc(vs[1], fixed)
                     ELSE LET h == Len(vs) \div 2
                          IN EncAll(SubSeq(vs, 1, h), fixed) \o EncAll(SubSeq(vs, h + 1, Len(vs)), fixed)

(* Decoding an integer of n limbs at position p (0-based) of bs: <<limbs, next position>> *)
SignExt(x, n, half) == IF x >= half THEN 65535 ELSE 0
DecInt(bs, p, n) ==
  LET h == bs[p + 1]
      w(k) == bs[p + k] + 256 * bs[p + k + 1]          \* 16-bit word at offset k-1
      ext(base, f) == [j \in 1 .. n |-> IF j <= Len(base) THEN base[j] ELSE f]
  IN CASE h = 128 -> <<ext(<<bs[p + 2]>>, 0), p + 2>>
       [] h = 129 -> <<ext(<<w(2)>>, 0), p + 3>>
       [] h = 130 -> <<ext(<<w(2), w(4)>>, 0), p + 5>>
       [] h = 131 \/ h = 135 -> <<ext(<<w(2), w(4), w(6), w(8)>>, 0), p + 9>>
       [] h = 132 -> LET b == bs[p + 2] IN <<ext(<<IF b >= 128 THEN 65280 + b ELSE b>>, IF b >= 128 THEN 65535 ELSE 0), p + 2>>
       [] h = 133 -> <<ext(<<w(2)>>, SignExt(w(2), n, 32768)), p + 3>>
       [] h = 134 -> <<ext(<<w(2), w(4)>>, SignExt(w(4), n, 32768)), p + 5>>
       [] OTHER -> <<ext(<<IF h >= 128 THEN 65280 + h ELSE h>>, IF h >= 128 THEN 65535 ELSE 0), p + 1>>

FormSize(h) == CASE h \in {128, 132} -> 2 [] h \in {129, 133} -> 3 [] h \in {130, 134} -> 5 [] h \in {131, 135} -> 9 [] OTHER -> 1
(* Equality of values; unordered maps as sets of pairs. *)
RECURSIVE Same(_, _)
Pairs(e) == {<<e[2 * j - 1], e[2 * j]>> : j \in 1 .. Len(e) \div 2}
Same(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "i" -> a.l = b.l
       [] a.k \in {"p", "s"} -> a.b = b.b
       [] a.k \in {"v", "m", "o"} -> Len(a.e) = Len(b.e) /\ \A j \in 1 .. Len(a.e) : Same(a.e[j], b.e[j])
       [] a.k = "u" -> Len(a.e) = Len(b.e) /\ Pairs(a.e) = Pairs(b.e)

----------------------------------------------------------------------------
(* State: fixed (integer format), q: values written and not yet loaded,      *)
(* each with its end offset; size: bytes on the stream; avail: bytes left    *)
(* after truncation; pos: read offset; dead: a load has failed.              *)
InitStateFor(fixed) == [fixed |-> fixed, q |-> <<>>, size |-> 0, avail |-> -1, pos |-> 0, dead |-> FALSE]

Avail(S) == IF S.avail = -1 THEN S.size ELSE S.avail

Step(S, e) ==
  CASE e.op = "save" ->
         LET bs == Enc(e.v, S.fixed) IN
         IF e.thrown \/ e.out # bs THEN {}
         ELSE {[S EXCEPT !.q = Append(@, [v |-> e.v, end |-> S.size + Len(bs)]), !.size = @ + Len(bs)]}
    [] e.op = "truncate" -> {[S EXCEPT !.avail = e.n]}
    [] e.op = "load" ->
         IF S.q = <<>> THEN IF e.thrown THEN {S} ELSE {}      \* nothing left: end of stream
         ELSE IF Head(S.q).end > Avail(S)
         THEN IF e.thrown THEN {[S EXCEPT !.q = <<>>, !.dead = TRUE]} ELSE {}
         ELSE IF e.thrown \/ ~Same(Head(S.q).v, e.v) \/ (e.pos # -1 /\ e.pos # Head(S.q).end) THEN {}
         ELSE {[S EXCEPT !.q = Tail(@), !.pos = Head(S.q).end]}
    [] e.op = "raw" -> \* an integer of n limbs loaded from bytes: every documented form is understood, one too wide for the type is refused
         LET h == e.b[1] wide == h \in {131, 135} /\ e.n = 2 size == FormSize(h) IN
         IF wide \/ Len(e.b) < size THEN (IF e.thrown THEN {S} ELSE {})
         ELSE IF ~e.thrown /\ <<e.l, e.pos>> = DecInt(e.b, 0, e.n) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
