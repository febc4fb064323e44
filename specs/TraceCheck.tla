---------------------------- MODULE TraceCheck ----------------------------
(* Validation of sessions recorded from the implementation.                *)
(* A session is accepted iff some behaviour of the specification explains  *)
(* all of its events; poss is the set of abstract states the specification *)
(* may be in after the first i events (subset construction, so that        *)
(* non-deterministic specifications are handled exactly).                  *)
(* "big" reports an instance too large to log: n elements went in, m came  *)
(* out, and whether they are the same, element by element.                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS StepOp(_, _),   \* abstract state, observed event -> set of successors
          InitOp(_)       \* session -> set of initial abstract states
VARIABLES t, i, poss

Sessions == ndJsonDeserialize(IOEnv.TRACE)

TInit == /\ t \in 1 .. Len(Sessions)
         /\ i = 0
         /\ poss = InitOp(Sessions[t])

TNext == /\ i < Len(Sessions[t].ev)
         /\ poss # {}
         /\ LET e == Sessions[t].ev[i + 1]
            IN  poss' = IF e.op \in {"crash", "hang"} THEN {}
                        ELSE IF e.op = "big" THEN (IF e.same /\ e.m = e.n THEN poss ELSE {})
                        ELSE UNION {StepOp(s, e) : s \in poss}
         /\ i' = i + 1
         /\ UNCHANGED t

Accepted == poss # {}
=============================================================================
