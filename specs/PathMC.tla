------------------------------- MODULE PathMC -------------------------------
(* Laws of names, for every name over separators, dots and letters.           *)
EXTENDS Path, TLC
CONSTANT N
VARIABLE n
A == {DOT, SLASH, BSLASH, 97, 98}
Init == n = <<>>
Next == Len(n) < N /\ \E c \in A : n' = Append(n, c)
HasDot == \E i \in 1 .. Len(n) : n[i] = DOT
Join == LET s == Split(n) IN IF HasDot THEN s.base \o <<DOT>> \o s.suf = n ELSE s.base = n /\ s.suf = <<>>
LastDot == \A i \in 1 .. Len(Split(n).suf) : Split(n).suf[i] # DOT
Agrees == HasDot /\ Split(n).suf # <<>> => HasExt(n, Split(n).suf)
OwnSuffix == \A k \in 1 .. Len(n) : HasExt(n, SubSeq(n, k, Len(n))) <=> k > 1 /\ n[k - 1] = DOT
NoBack == \A i \in 1 .. Len(n) : Slashes(n)[i] # BSLASH /\ (n[i] # BSLASH => Slashes(n)[i] = n[i])
ExeParts == LET x == Exe(n) IN IsPrefixOf(x.dir \o x.base, n) /\ \A i \in 1 .. Len(x.base) : x.base[i] # SLASH
Emit == PrintT(<<"GEN", n>>)
=============================================================================
