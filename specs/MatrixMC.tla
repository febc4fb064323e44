-------------------------------- MODULE MatrixMC -------------------------------
(* Every header over a small alphabet, every shape up to MaxN: a file is taken *)
(* or refused by independent rules, what is written is taken and gives the    *)
(* same matrix, and the dealing of rows and columns is even and complete.     *)
EXTENDS Matrix, TLC
CONSTANTS MaxN, MaxH
VARIABLES h, shape
W1 == <<"#", "M", "">>  W2 == <<"M", "V", "D">>  W3 == <<"D", "S", "M">>  D1 == <<2, 1, 0, -1>>  D2 == <<2, 1, 0, -1>>
Init == /\ h \in UNION {[1 .. n -> 1 .. 3] : n \in 0 .. MaxH}
        /\ shape \in (1 .. MaxN) \X (1 .. MaxN)
Next == UNCHANGED <<h, shape>>
Row == shape[1]
C == shape[2]
M == [i \in 1 .. Row |-> [j \in 1 .. C |-> (i * 7 + j * 3) % 5]]
Pick(w, i) == IF i <= Len(h) THEN <<w[h[i]]>> ELSE <<>>
Ev == [op |-> "load", as |-> "matrix", head |-> Pick(W1, 1) \o Pick(W2, 2) \o Pick(W3, 3), dims |-> Pick(D1, 4) \o Pick(D2, 5),
       body |-> [i \in 1 .. 3 |-> <<[bad |-> FALSE, v |-> i, sep |-> ":", c |-> 0], [bad |-> FALSE, v |-> i + 5, sep |-> ":", c |-> 1]>>]]
\* taken as a matrix exactly when the five words are well-formed (and the body fits, which it does here)
Taken == /\ Load(Ev).ok <=> (Len(h) = 5 /\ h[1] = 1 /\ h[2] = 1 /\ h[3] \in {1, 2} /\ h[4] \in {1, 2} /\ h[5] \in {1, 2} /\ (h[3] = 2 => h[5] = 1))
         /\ Load([Ev EXCEPT !.as = "vector"]).ok <=> (Len(h) >= 4 /\ h[1] = 1 /\ h[2] = 2 /\ h[3] \in {1, 2} /\ h[4] \in {1, 2})
Values(r) == [j \in DOMAIN r |-> [bad |-> FALSE, v |-> r[j], sep |-> ":", c |-> 0]]
Pairs(r) == LET z == NonZero(r, {}) IN [j \in DOMAIN z |-> [bad |-> FALSE, v |-> z[j][2], sep |-> ":", c |-> z[j][1]]]
Back == /\ Load([as |-> "matrix", head |-> <<"#", "M", "D">>, dims |-> <<Row, C>>, body |-> [i \in 1 .. Row |-> Values(M[i])]]) = [ok |-> TRUE, m |-> M]
        /\ Load([as |-> "matrix", head |-> <<"#", "M", "S">>, dims |-> <<Row, C>>, body |-> [i \in 1 .. Row |-> Pairs(M[i])]]) = [ok |-> TRUE, m |-> M]
        /\ Load([as |-> "sparse", head |-> <<"#", "M", "S">>, dims |-> <<Row, C>>, body |-> [i \in 1 .. Row |-> Pairs(M[i])]]) = [ok |-> TRUE, m |-> M]
Even == C <= Row => LET u == Unit(Row, C) IN
          /\ \A i \in 1 .. Row : Sum(u[i]) = 1
          /\ \A j \in 1 .. C : Sum(Col(u, j)) \in {Row \div C, (Row + C - 1) \div C}
Groups == \A r \in 1 .. C : LET k == Compressed(M, r) IN
          /\ \A i \in 1 .. Row : Sum(k[i]) = Sum(M[i])                    \* nothing lost, nothing twice
          /\ Cut(0, C, r) = 0 /\ Cut(r, C, r) = C
          /\ \A j \in 1 .. r : Cut(j, C, r) - Cut(j - 1, C, r) \in {C \div r, (C + r - 1) \div r}
\* the rules of orthonormal columns accept the plain unit vectors (scaled) and reject a column that is off
Sane == LET id == [i \in 1 .. Row |-> [j \in 1 .. Row |-> IF i = j THEN F ELSE 0]]
            m == [i \in 1 .. Row |-> [j \in 1 .. Row |-> IF i <= j THEN i + j ELSE 0]] IN
          Ortho(m, id) /\ (Row > 1 => ~Ortho([m EXCEPT ![Row][1] = 1], id))
Emit == (h = <<>>) => PrintT(<<"GEN", <<Row, C>>>>)
=============================================================================
