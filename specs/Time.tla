-------------------------------- MODULE Time --------------------------------
(* P31: points in time as day number since 1970-01-01, second of the day and  *)
(* millisecond; their texts in the Gregorian calendar, UTC.                   *)
EXTENDS Calendar
\* reading: NoTime or the time denoted
NoTime == [ok |-> FALSE]
IsDig(s, p, n) == p + n - 1 <= Len(s) /\ \A i \in p .. p + n - 1 : s[i] \in 48 .. 57
RECURSIVE Val(_, _, _)
Val(s, p, n) == IF n = 0 THEN 0 ELSE Val(s, p, n - 1) * 10 + s[p + n - 1] - 48
Parse(s) ==
  IF Len(s) < 19 \/ ~IsDig(s, 1, 4) \/ s[5] \notin {45, 47} THEN NoTime ELSE
  LET nm == {i \in 1 .. 12 : SubSeq(s, 6, 8) = Names[i]}
      named == nm # {}
      q == IF named THEN 9 ELSE 8 IN          \* position of the second separator
  IF ~named /\ ~IsDig(s, 6, 2) THEN NoTime ELSE
  IF ~(q + 11 <= Len(s) /\ s[q] = s[5] /\ IsDig(s, q + 1, 2) /\ s[q + 3] \in {32, 84} /\ IsDig(s, q + 4, 2) /\ s[q + 6] = 58 /\ IsDig(s, q + 7, 2) /\ s[q + 9] = 58 /\ IsDig(s, q + 10, 2)) THEN NoTime ELSE
  LET y == Val(s, 1, 4) m == IF named THEN CHOOSE i \in nm : TRUE ELSE Val(s, 6, 2)
      d == Val(s, q + 1, 2) hh == Val(s, q + 4, 2) mm == Val(s, q + 7, 2) ss == Val(s, q + 10, 2)
      r == SubSeq(s, q + 12, Len(s))
      withMs == Len(r) \in {4, 5} /\ r[1] = 46 /\ IsDig(r, 2, 3) /\ (Len(r) = 5 => r[5] = 90) IN
  IF ~(y \in 1970 .. 3000 /\ m \in 1 .. 12 /\ d >= 1 /\ d <= MLen(y, m) /\ hh <= 23 /\ mm <= 59 /\ ss <= 59 /\ (r = <<>> \/ r = <<90>> \/ withMs)) THEN NoTime
  ELSE [ok |-> TRUE, n |-> DayNo(y, m, d), s |-> hh * 3600 + mm * 60 + ss, ms |-> IF withMs THEN Val(r, 2, 3) ELSE 0]
\* FILETIME: 100 ns units since 1601
WAdd(a, b) == LET x1 == a[1] + b[1] x2 == a[2] + b[2] + x1 \div 65536 x3 == a[3] + b[3] + x2 \div 65536 x4 == a[4] + b[4] + x3 \div 65536 IN <<x1 % 65536, x2 % 65536, x3 % 65536, x4 % 65536>>
RECURSIVE WMul(_, _)
WMul(w, ds) == IF ds = <<>> THEN w ELSE WMul(MulAdd(w, Head(ds), 0), Tail(ds))
Ten(n) == [i \in 1 .. n |-> 10]
WSmall(v) == <<v % 65536, v \div 65536, 0, 0>>
\* 134774 days from 1601 to 1970; 86400 = 16*10*10*6*9
FileTime(n, s, ms) == WMul(WAdd(WMul(WAdd(WMul(WSmall(n + 134774), <<16, 10, 10, 6, 9>>), WSmall(s)), Ten(3)), WSmall(ms)), Ten(4))
Less(e) == e.n1 < e.n2 \/ (e.n1 = e.n2 /\ (e.s1 < e.s2 \/ (e.s1 = e.s2 /\ e.m1 < e.m2)))
Same(e) == e.n1 = e.n2 /\ e.s1 = e.s2 /\ e.m1 = e.m2
Step(S, e) ==
  CASE e.op = "str" -> IF e.t = e.before \o Text(e.n, e.s, e.m, e.ms, FALSE, 45, 32) THEN {S} ELSE {}
    [] e.op = "fmt" -> IF e.t = e.before \o Text(e.n, e.s, e.m, e.ms, e.name, e.sep, e.mid) THEN {S} ELSE {}
    [] e.op = "parse" -> LET p == Parse(e.t) IN IF p.ok = e.ok /\ (p.ok => p.n = e.n /\ p.s = e.s /\ p.ms = e.m) THEN {S} ELSE {}
    [] e.op = "now" -> \* the current time (second copy), the same in seconds (third), the seconds of a time (fourth)
         IF e.n2 = e.n /\ e.s2 = e.s /\ e.m2 = e.m /\ e.n3 = e.n /\ e.s3 = e.s /\ e.m3 = e.m /\ e.n4 = e.n /\ e.s4 = e.s /\ e.m4 = e.m THEN {S} ELSE {}
    [] e.op = "ft" -> IF e.w = FileTime(e.n, e.s, e.m) /\ e.back THEN {S} ELSE {}
    [] e.op = "add" -> \* x seconds later; n, s before, n2, s2 after
         LET tot == e.s + e.x IN IF e.n2 = e.n + (tot \div 86400) /\ e.s2 = tot % 86400 /\ e.keep THEN {S} ELSE {}
    [] e.op = "cmp" -> IF e.lt = Less(e) /\ e.eq = Same(e) /\ e.ne = ~Same(e) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
