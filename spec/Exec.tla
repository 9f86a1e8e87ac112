--------------------------------- MODULE Exec ----------------------------------
(* Running whole programs in the LM_ modules: XRun(text, stdin, ped) is the       *)
(* final machine of the program, whose lines are given as a sequence of strings.  *)
EXTENDS Machine, IOUtils
RECURSIVE XJoin(_, _, _)
XJoin(ls, i, acc) == IF i > Len(ls) THEN acc ELSE XJoin(ls, i + 1, acc \o Codes(ls[i]) \o <<NL>>)
XText(ls) == XJoin(ls, 1, <<>>)
XSTEPS == TLCEval([i \in 1..60 |-> i])
RECURSIVE XGo(_, _)
XGo(m, n) == IF m.st # "run" \/ n = 0 THEN m ELSE XGo(StepN(m, XSTEPS), n - 1)
XProg(block, inp, ped) == XGo(Begin(Boot(<<>>, <<>>, inp, ped, "floor"), block), 200)
XBAD == [st |-> "syntax", em |-> <<>>, er |-> [k |-> "none"]]
XRun(ls, inp, ped) == LET p == Parse(XText(ls), ped) IN IF p.ok THEN XProg(p.b, inp, ped) ELSE XBAD
RECURSIVE XLinesFrom(_, _, _)
XLinesFrom(xs, i, acc) == IF i > Len(xs) THEN acc ELSE XLinesFrom(xs, i + 1, acc \o IntText(xs[i]) \o <<NL>>)
\* what a program that outputs these integers, one per line, prints
XLines(xs) == XLinesFrom(xs, 1, <<>>)
XNum(n) == ToString(n)
================================================================================
