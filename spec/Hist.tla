--------------------------------- MODULE Hist ---------------------------------
(* Histories of REPL entries over a fixed alphabet, executed by the machine.  *)
(* The MC_ modules extend this one with an alphabet, an abstract state that    *)
(* states a property directly, and the relation between both; TLC explores    *)
(* every history up to DEPTH (one representative per machine state), and the   *)
(* transitions it prints are replayed in the interpreter.                     *)
(* In texts "|" stands for a line break, and what follows "~" is the line the  *)
(* entry's INPUT statement will read; "@restart" ends the interpreter and       *)
(* starts a new one in the same directory.                                     *)
EXTENDS Repl, IOUtils, TLCExt
CONSTANTS Setup, Alph, Probe    \* sequences of texts
DEPTH == atoi(IOEnv.DEPTH)
DMODE == IOEnv.DMODE

CODEX == CODE1 @@ ("\n" :> 10)
HTxt(s) == TLCEval([i \in 1..Len(s) |-> LET c == SubSeq(s, i, i) IN IF c = "|" THEN NL ELSE CODEX[c]])
RECURSIVE HCut(_, _)
HCut(c, i) == IF i > Len(c) THEN <<c, <<>>>> ELSE IF c[i] = 126 THEN <<SubSeq(c, 1, i - 1), SubSeq(c, i + 1, Len(c)) \o <<NL>>>> ELSE HCut(c, i + 1)
HSplit(s) == HCut(HTxt(s), 1)
HLETTER == TLCEval([i \in 1..Len(Alph) |->
             IF Alph[i] = "@restart" THEN [r |-> TRUE, p |-> [ok |-> FALSE], inp |-> <<>>]
             ELSE LET c == HSplit(Alph[i]) IN [r |-> FALSE, p |-> Parse(c[1] \o (IF Contains(c[1], NL) THEN <<NL>> ELSE <<>>), FALSE), inp |-> c[2]]])
HSETUP == TLCEval([i \in 1..Len(Setup) |-> LET c == HSplit(Setup[i]) IN [p |-> Parse(c[1] \o (IF Contains(c[1], NL) THEN <<NL>> ELSE <<>>), FALSE), inp |-> c[2]]])

HSTEPS == [i \in 1..50 |-> i]
RECURSIVE HRun(_, _)
HRun(m, n) == IF m.st # "run" \/ n = 0 THEN m ELSE HRun(StepN(m, HSTEPS), n - 1)
\* [m, ok, out, un]: the machine after the entry, whether it succeeded, what it printed, whether the
\* specification leaves its effect open (or it does not end)
HEnter(m, x) ==
  IF ~x.p.ok THEN [m |-> m, ok |-> FALSE, out |-> <<>>, un |-> FALSE, er |-> [k |-> "syntax"]]
  ELSE LET q == HRun(Begin([m EXCEPT !.ip = x.inp, !.ii = 0, !.em = <<>>, !.rp = TRUE], x.p.b), 60)
       IN [m |-> [Reset(q) EXCEPT !.em = <<>>, !.ip = <<>>, !.ii = 0], ok |-> q.st = "done", out |-> q.em,
           un |-> q.st \in {"unspec", "run"}, er |-> q.er]
HFresh(dir) == LET b == [Boot(dir, <<>>, <<>>, FALSE, DMODE) EXCEPT !.st = "done", !.rp = TRUE]
               IN Fold(LAMBDA m, s : LET r == HEnter(m, s) IN IF r.un THEN Assert(FALSE, <<"setup", s>>) ELSE r.m, b, HSETUP)
HDo(m, i) == IF HLETTER[i].r THEN [m |-> HFresh(m.dir), ok |-> TRUE, out |-> <<>>, un |-> FALSE, er |-> [k |-> "none"]]
             ELSE HEnter(m, HLETTER[i])

VARIABLES hm, hh, ho   \* machine, history (letters), what the last entry did
hvars == <<hm, hh, ho>>
HNONE == [i |-> 0, ok |-> TRUE, out |-> <<>>, er |-> [k |-> "none"]]
\* activation numbers and the like do not matter
HState(m) == [m EXCEPT !.na = 0]
HInit == /\ hm = HFresh(<<>>) /\ hh = <<>> /\ ho = HNONE
         /\ PrintT(<<"TEXTS", Setup, Alph, Probe>>)
HNext(i) == LET r == HDo(hm, i)
            IN /\ ~r.un
               /\ hm' = r.m
               /\ ho' = [i |-> i, ok |-> r.ok, out |-> r.out, er |-> r.er]
               /\ hh' = Append(hh, i)
\* (the last conjunct of every Next) the transition taken, by the views of its ends
HLog(v, w) == PrintT(<<"T", TLCFP(v), hh'[Len(hh')], TLCFP(w), hh>>)
HMachineOK == MachineInv(hm)
\* value of global variable n
HVal(m, n) == m.fr[m.g].vs[n].v
HStr(s) == VS(Codes(s))
===============================================================================
