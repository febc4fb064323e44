------------------------------- MODULE TimeMC -------------------------------
(* The calendar as a transition system, one day at a time, decade by decade: the day number     *)
(* formula, its inverse and the texts agree with it on every day, and reading *)
(* a text gives the time back.                                                *)
EXTENDS Time, TLC
CONSTANTS First, Last
VARIABLES y, m, d, n
Init == y \in {x \in First .. Last : (x - First) % 10 = 0} /\ m = 1 /\ d = 1 /\ n = DayNo(y, 1, 1)
Next == /\ ~((y - First) % 10 = 9 /\ m = 12 /\ d = 31) /\ n' = n + 1
        /\ IF d < MLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>> ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
Sod == ((n % 86400) * 7919) % 86400
Ms == (n * 31) % 1000
Number == DayNo(y, m, d) = n /\ Civil(n) = [y |-> y, m |-> m, d |-> d]
Week == (n % 7) = ((DayNo(2000, 1, 1) % 7) + (n - 10957)) % 7
Epoch == DayNo(1970, 1, 1) = 0 /\ DayNo(2000, 1, 1) = 10957 /\ DayNo(9999, 12, 31) = 2932896
Back(name, sep, t, ms) == LET p == Parse(Text(n, Sod, Ms, ms, name, sep, t)) IN (y <= 3000) => p.ok /\ p.n = n /\ p.s = Sod /\ (ms => p.ms = Ms)
RoundTrip == Back(FALSE, 45, 32, TRUE) /\ Back(TRUE, 47, 84, FALSE)
NoSuchDay == ~Parse(Pad(y, 4) \o <<45>> \o Pad(m, 2) \o <<45>> \o Pad(MLen(y, m) + 1, 2) \o <<84, 48, 48, 58, 48, 48, 58, 48, 48>>).ok
Emit == (d = 1 \/ d = MLen(y, m)) => PrintT(<<"GEN", <<n>>>>)
=============================================================================
