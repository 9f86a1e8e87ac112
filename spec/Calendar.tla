------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar. *)
EXTENDS Integers, Sequences

Leap(y) == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))
MonthDays(m, y) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                     [] m \in {4, 6, 9, 11} -> 30
                     [] OTHER -> 31
ValidDM(d, m, y) == m \in 1..12 /\ d >= 1 /\ d <= MonthDays(m, y)

RECURSIVE DaysBefore(_, _)
DaysBefore(m, y) == IF m = 1 THEN 0 ELSE DaysBefore(m - 1, y) + MonthDays(m - 1, y)
\* days since 1 January of year 1 (a Monday)
DayNumber(d, m, y) == LET p == y - 1
                      IN p * 365 + (p \div 4) - (p \div 100) + (p \div 400) + DaysBefore(m, y) + d - 1
\* Sunday = 1 ... Saturday = 7
WeekDay(d, m, y) == ((DayNumber(d, m, y) + 1) % 7) + 1

\* chronological order of two dates <<d, m, y>>
DateCmp(a, b) == IF a[3] # b[3] THEN (IF a[3] < b[3] THEN -1 ELSE 1)
                 ELSE IF a[2] # b[2] THEN (IF a[2] < b[2] THEN -1 ELSE 1)
                 ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE 0
=============================================================================
