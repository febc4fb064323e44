------------------------------ MODULE StrOpMC ------------------------------
(* Every text up to N over blank, tab, letters of both cases, separator and   *)
(* line end: the definitions have the stated properties.                      *)
EXTENDS StrOp, TLC
CONSTANT N
VARIABLE s
A == <<32, 9, 65, 97, 44, 10, 122>>
Init == s = <<>>
Next == Len(s) < N /\ \E k \in 1 .. Len(A) : s' = Append(s, A[k])
TrimOk == LET t == TrimS(s, BSpace) IN /\ \E i \in 0 .. Len(s) - Len(t) : Slice(s, i, Len(t)) = t
                                          /\ \A j \in (1 .. i) \cup (i + Len(t) + 1 .. Len(s)) : s[j] \in BSpace
            /\ (t # <<>> => t[1] \notin BSpace /\ t[Len(t)] \notin BSpace)
SplitOk == \A m \in 1 .. 4 : LET ps == SplitS(s, 44, m) IN
   /\ Join(ps, 44) = s /\ Len(ps) \in 1 .. m /\ \A i \in 1 .. Len(ps) - 1 : \A j \in 1 .. Len(ps[i]) : ps[i][j] # 44
   /\ (Len(ps) < m => \A j \in 1 .. Len(ps[Len(ps)]) : ps[Len(ps)][j] # 44)
CaseOk == /\ LoS(LoS(s)) = LoS(s) /\ UpS(LoS(s)) = UpS(s) /\ Len(LoS(s)) = Len(s)
          /\ \A i \in 1 .. Len(s) : (LoS(s)[i] # s[i]) <=> s[i] \in 65 .. 90
FindOk == \A p \in {<<>>, <<97>>, <<97, 122>>, <<44>>} : LET r == FindS(LoS(s), p) IN
   (r >= 0 => Slice(LoS(s), r, Len(p)) = p) /\ (r = -1 => \A i \in 0 .. Len(s) - Len(p) : Slice(LoS(s), i, Len(p)) # p)
Emit == PrintT(<<"GEN", <<Len(s)>> \o s>>)
=============================================================================
