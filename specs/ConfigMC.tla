------------------------------ MODULE ConfigMC ------------------------------
(* Every text up to N characters over the characters of the grammar: what is  *)
(* accepted can be printed and read back to the same configuration.           *)
EXTENDS Config, TLC
CONSTANT N
VARIABLE text
Alpha == {97, 61, 91, 93, 35, 32, 10, 13}     \* a = [ ] # blank LF CR
Init == text = <<>>
Next == Len(text) < N /\ \E c \in Alpha : text' = Append(text, c)
RECURSIVE Body(_)
Body(E) == IF E = {} THEN <<>> ELSE LET e == CHOOSE x \in E : TRUE IN e[2] \o <<61>> \o e[3] \o <<LF>> \o Body(E \ {e})
RECURSIVE Secs(_, _)
Secs(C, X) == IF X = {} THEN <<>> ELSE LET s == CHOOSE x \in X : TRUE IN
   <<91>> \o s \o <<93, LF>> \o Body({e \in C.ents : e[1] = s}) \o Secs(C, X \ {s})
Printed(C) == Body({e \in C.ents : e[1] = <<>>}) \o Secs(C, C.secs \ {<<>>})
RoundTrip == LET r == Load(Empty, text) IN r.ok => LET q == Load(Empty, Printed(r.c)) IN q.ok /\ q.c = r.c
Functional == LET r == Load(Empty, text) IN \A e \in r.c.ents : \A f \in r.c.ents : e[1] = f[1] /\ e[2] = f[2] => e = f
WellPlaced == LET r == Load(Empty, text) IN \A e \in r.c.ents : e[1] \in r.c.secs /\ IsName(e[2])
\* a text is accepted iff each of its lines is, and no name repeats
LineWise == LET ls == SplitLF(text) IN Load(Empty, text).ok => \A i \in 1 .. Len(ls) : Classify(ChopCR(ls[i])).k # "bad"
Emit == PrintT(<<"GEN", <<Len(text)>> \o text>>)
=============================================================================
