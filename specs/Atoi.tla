-------------------------------- MODULE Atoi --------------------------------
(* P11: which texts denote which integers. A text ends at its length or at    *)
(* the first NUL.                                                             *)
EXTENDS NumText
Want(e) == IF e.base = 10 THEN ParseDec(e.text, IF e.s THEN SMax(e.bits) ELSE UMax(e.bits), SMin(e.bits), e.s)
           ELSE ParseHex(e.text, e.bits, e.s)
Step(S, e) ==
  CASE e.op = "parse" ->
         LET w == Want(e) IN
         IF /\ e.ok = w.ok
            /\ (w.ok => e.neg = w.neg /\ e.abs = ToWord(w.m, e.base, W0))
            /\ (~w.ok /\ e.flag => e.abs = W0)           \* the flag interface returns 0 on failure
         THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
