------------------------------ MODULE Calendar ------------------------------
(* Dates of the Gregorian calendar, UTC, and their texts.                    *)
EXTENDS Num
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days before year y (from 1970), before month m of year y
YDays(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 492) - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)
RECURSIVE MDays(_, _)
MDays(y, m) == IF m = 1 THEN 0 ELSE MLen(y, m - 1) + MDays(y, m - 1)
DayNo(y, m, d) == YDays(y) + MDays(y, m) + d - 1
YearOf(n) == LET g == 1970 + n \div 366 IN CHOOSE y \in g .. g + 20 : YDays(y) <= n /\ n < YDays(y + 1)
MonthOf(y, r) == CHOOSE m \in 1 .. 12 : MDays(y, m) <= r /\ r < MDays(y, m) + MLen(y, m)
Civil(n) == LET y == YearOf(n) r == n - YDays(y) m == MonthOf(y, r) IN [y |-> y, m |-> m, d |-> r - MDays(y, m) + 1]
RECURSIVE Pad(_, _)
Pad(v, n) == IF n = 0 THEN <<>> ELSE Append(Pad(v \div 10, n - 1), 48 + (v % 10))
Names == << <<74, 97, 110>>, <<70, 101, 98>>, <<77, 97, 114>>, <<65, 112, 114>>, <<77, 97, 121>>, <<74, 117, 110>>, <<74, 117, 108>>, <<65, 117, 103>>, <<83, 101, 112>>, <<79, 99, 116>>, <<78, 111, 118>>, <<68, 101, 99>> >>
\* "%Y-%m-%d %H:%M:%S" (or month names, other separators), "." and milliseconds if ms
Text(n, sod, msec, ms, name, sep, t) == LET c == Civil(n) IN
  Pad(c.y, 4) \o <<sep>> \o (IF name THEN Names[c.m] ELSE Pad(c.m, 2)) \o <<sep>> \o Pad(c.d, 2) \o <<t>> \o Pad(sod \div 3600, 2) \o <<58>> \o Pad((sod \div 60) % 60, 2) \o <<58>> \o Pad(sod % 60, 2)
  \o (IF ms THEN <<46>> \o Pad(msec, 3) ELSE <<>>)
=============================================================================
