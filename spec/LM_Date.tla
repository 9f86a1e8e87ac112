-------------------------------- MODULE LM_Date --------------------------------
(* C18: the calendar of the specification against a walk from day to day: every   *)
(* month of the years FROM..TO is walked from its first to its last day.          *)
EXTENDS Calendar, IOUtils
FROM == atoi(IOEnv.FROM)
TO == atoi(IOEnv.TO)
VARIABLES dd, mm, yy
Init == dd = 1 /\ mm \in 1..12 /\ yy \in FROM..TO
Next == dd' = dd + 1 /\ ValidDM(dd', mm, yy) /\ UNCHANGED <<mm, yy>>

\* lengths of months and leap years as the calendar's definition lists them
DAYS == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
Has29 == \/ yy % 400 = 0
         \/ yy % 4 = 0 /\ yy % 100 # 0
Last == DAYS[mm] + (IF mm = 2 /\ Has29 THEN 1 ELSE 0)
Succ == IF dd < Last THEN <<dd + 1, mm, yy>> ELSE IF mm < 12 THEN <<1, mm + 1, yy>> ELSE <<1, 1, yy + 1>>
Lemma ==
  LET s == Succ
      n == DayNumber(dd, mm, yy)
      w == WeekDay(dd, mm, yy)
  IN /\ ValidDM(dd, mm, yy) /\ ValidDM(s[1], s[2], s[3])
     /\ (dd = Last) = ~ValidDM(dd + 1, mm, yy)
     /\ \A x \in {-1, 0} : ~ValidDM(x, mm, yy) /\ ~ValidDM(dd, x, yy)
     /\ ~ValidDM(dd, 13, yy) /\ ~ValidDM(32, mm, yy)
     \* consecutive days have consecutive numbers and weekdays
     /\ DayNumber(s[1], s[2], s[3]) = n + 1
     /\ WeekDay(s[1], s[2], s[3]) = IF w = 7 THEN 1 ELSE w + 1
     \* 400 years are 146097 days, a whole number of weeks
     /\ DayNumber(dd, mm, yy + 400) = n + 146097 /\ WeekDay(dd, mm, yy + 400) = w
     \* known days: 1/1/2000 was a Saturday, 24/11/1859 a Thursday
     /\ (<<dd, mm, yy>> = <<1, 1, 2000>> => w = 7) /\ (<<dd, mm, yy>> = <<24, 11, 1859>> => w = 5)
     \* chronological order
     /\ DateCmp(<<dd, mm, yy>>, s) = -1 /\ DateCmp(s, <<dd, mm, yy>>) = 1 /\ DateCmp(s, s) = 0
     /\ \A e \in {<<1, 1, yy>>, <<31, 12, yy>>, <<15, mm, yy>>, <<1, 1, yy + 1>>, <<28, 2, yy - 1>>, <<dd, 6, yy + 100>>, <<1, mm, yy>>} :
          LET k == DayNumber(e[1], e[2], e[3])
          IN DateCmp(<<dd, mm, yy>>, e) = IF n < k THEN -1 ELSE IF n > k THEN 1 ELSE 0
================================================================================
