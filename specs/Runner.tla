------------------------------- MODULE Runner -------------------------------
(* P37: the unit test runner: what each assertion counts, what an exception   *)
(* stops, the summary and the verdict.                                        *)
EXTENDS Integers, Sequences, FiniteSets
Passing == {"assert1", "eqint1", "equ1", "eqs1", "eqstr1", "eqf1", "eqd1", "near1", "nearneg1", "ptr1", "ptrnull1", "exc1", "excbase1", "msg1", "noexc1", "eqchar1", "eqmix1"}
Failing == {"assert0", "eqint0", "equ0", "eqs0", "eqstr0", "eqf0", "eqd0", "near0", "nearedge0", "nearnan0", "nearneg0", "ptr0", "fail", "excnone0", "excother0", "excint0", "msgnone0", "msgtext0", "msgother0", "noexc0", "noexcint0", "eqchar0", "eqmix0"}
Throwing == {"throw", "throwint", "throwarg", "throwempty", "throwcmp"}     \* the exception leaves the module
\* an array comparison <<"arr", n, k>>: n elements of which k differ
Ok(a) == IF a[1] \in Passing THEN 1 ELSE IF a[1] = "arr" THEN a[2] - a[3] ELSE 0
Ng(a) == IF a[1] \in Failing THEN 1 ELSE IF a[1] = "arr" THEN a[3] ELSE 0
Throws(a) == a[1] \in Throwing
Known(a) == a[1] \in Passing \cup Failing \cup Throwing \cup {"arr"}
\* how a failed exception assertion says what happened instead
SaysNone == {"excnone0", "msgnone0"}
SaysText == {"msgtext0"}
SaysOther == {"excother0", "excint0", "msgother0"}
RECURSIVE Said(_, _, _)
Said(m, i, K) == IF i > Len(m) \/ Throws(m[i]) THEN 0 ELSE (IF m[i][1] \in K THEN 1 ELSE 0) + Said(m, i + 1, K)
RECURSIVE SaidAll(_, _, _)
SaidAll(ms, i, K) == IF i > Len(ms) THEN 0 ELSE Said(ms[i], 1, K) + SaidAll(ms, i + 1, K)
RECURSIVE RunMod(_, _)
RunMod(m, i) == IF i > Len(m) THEN [ok |-> 0, ng |-> 0, ex |-> 0] ELSE IF Throws(m[i]) THEN [ok |-> 0, ng |-> 0, ex |-> 1]
  ELSE LET r == RunMod(m, i + 1) IN [ok |-> r.ok + Ok(m[i]), ng |-> r.ng + Ng(m[i]), ex |-> r.ex]
RECURSIVE RunAll(_, _)
RunAll(ms, i) == IF i > Len(ms) THEN [ok |-> 0, ng |-> 0, ex |-> 0]
  ELSE LET a == RunMod(ms[i], 1) b == RunAll(ms, i + 1) IN [ok |-> a.ok + b.ok, ng |-> a.ng + b.ng, ex |-> a.ex + b.ex]
\* e: mods (their actions), init and term ("no", "ok", "throw"), ran (numbers of the modules in the order they were entered),
\*    inits, terms (calls), summary, exit, reports (failure messages printed), fixed, fixdone (fixtures made and destroyed)
Verdict(e) ==
  LET r == RunAll(e.mods, 1) n == Len(e.mods) IN
  /\ \A i \in 1 .. n : \A j \in 1 .. Len(e.mods[i]) : Known(e.mods[i][j])
  /\ e.inits = (IF e.init = "no" THEN 0 ELSE 1)
  /\ e.announced = e.ran
  /\ IF e.init = "throw" THEN e.ran = <<>> /\ e.exit = 1 /\ ~e.sum.there /\ e.terms = 0
     ELSE /\ e.ran = [i \in 1 .. n |-> i]                       \* every module once, in order of registration
          /\ e.terms = (IF e.term = "no" THEN 0 ELSE 1) /\ e.early = FALSE   \* term after all modules
          /\ e.reports = r.ng /\ e.stopped = r.ex
          /\ e.whynone = SaidAll(e.mods, 1, SaysNone) /\ e.whytext = SaidAll(e.mods, 1, SaysText) /\ e.whyother = SaidAll(e.mods, 1, SaysOther)
          /\ IF e.term = "throw" THEN e.exit = 1 /\ ~e.sum.there
             ELSE /\ e.sum.there /\ e.sum.module = n /\ e.sum.ok = r.ok /\ e.sum.ng = r.ng /\ e.sum.exception = r.ex /\ e.sum.total = r.ok + r.ng + r.ex
                  /\ e.sum.name = e.name
                  /\ e.exit = (IF r.ng + r.ex > 0 THEN 1 ELSE 0)
  /\ e.fixed = e.fixdone /\ e.fixed = e.fixwant
Step(S, e) == IF e.op = "run" /\ Verdict(e) THEN {S} ELSE {}
=============================================================================
