------------------------------ MODULE NumText ------------------------------
(* Which texts denote which integers. A text ends at its length or at the     *)
(* first NUL.                                                                 *)
EXTENDS Num
UptoNul(t) == LET z == {i \in 1 .. Len(t) : t[i] = 0} IN IF z = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
IsDigit(c) == c \in 48 .. 57
HexVal(c) == IF c \in 48 .. 57 THEN c - 48 ELSE IF c \in 65 .. 70 THEN c - 55 ELSE IF c \in 97 .. 102 THEN c - 87 ELSE -1
\* decimal: [ok, neg, digits (canonical magnitude without leading zeros)]
ParseDec(text, max, min, signed) ==
  LET t == UptoNul(text)
      neg == signed /\ t # <<>> /\ t[1] = 45
      ds == IF neg THEN Tail(t) ELSE t
      wf == ds # <<>> /\ \A i \in 1 .. Len(ds) : IsDigit(ds[i])
      m == IF wf THEN StripZeros(Dec(ds)) ELSE <<>>
  IN [ok |-> wf /\ DigLe(m, IF neg THEN min ELSE max), neg |-> neg /\ m # <<>>, m |-> m]
\* hexadecimal: digits only; the top digit is limited for signed types
ParseHex(text, bits, signed) ==
  LET t == UptoNul(text)
      wf == t # <<>> /\ \A i \in 1 .. Len(t) : HexVal(t[i]) >= 0
      m == IF wf THEN StripZeros([i \in 1 .. Len(t) |-> HexVal(t[i])]) ELSE <<>>
      n == bits \div 4
  IN [ok |-> wf /\ (Len(m) < n \/ (Len(m) = n /\ (signed => m[1] <= 7))), neg |-> FALSE, m |-> m]
=============================================================================
