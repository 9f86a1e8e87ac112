-------------------------------- MODULE MC_Text --------------------------------
(* C15: text files return exactly the lines written, and EOF is exact.          *)
(* Abstract state: the sequence of lines, the mode, the lines already read.     *)
EXTENDS Hist
SetupDef == <<"DECLARE x : STRING", "x <- \"none\"">>
AlphDef == <<"OPENFILE \"f\" FOR READ", "OPENFILE \"f\" FOR WRITE", "OPENFILE \"f\" FOR APPEND", "CLOSEFILE \"f\"",
             "WRITEFILE \"f\", \"ab c\"", "WRITEFILE \"f\", \"\"", "WRITEFILE \"f\", -12", "READFILE \"f\", x", "OUTPUT EOF(\"f\")",
             "@restart">>
ProbeDef == <<"x", "CLOSEFILE \"f\"", "OPENFILE \"f\" FOR READ", "WHILE NOT EOF(\"f\") DO|READFILE \"f\", x|OUTPUT \"[\", x, \"]\"|ENDWHILE",
              "READFILE \"f\", x", "CLOSEFILE \"f\"">>
MAXL == 3
F == Codes("f")
LINE == <<Codes("ab c"), <<>>, Codes("-12")>>

VARIABLE abs   \* [made, md, lines, pos, x, ok, e]
vars == <<hvars, abs>>
Fail0 == [abs EXCEPT !.ok = FALSE, !.e = "-"]
Good(s) == [s EXCEPT !.ok = TRUE, !.e = "-"]
Opened(md, s) == Good([s EXCEPT !.md = md, !.pos = 0])
AbsStep(i) ==
  LET shut == abs.md = "-"
      write(l) == IF abs.md \in {"W", "A"} THEN Good([abs EXCEPT !.lines = Append(@, l)]) ELSE Fail0
  IN CASE i = 1 -> IF shut /\ abs.made THEN Opened("R", abs) ELSE Fail0
       [] i = 2 -> IF shut THEN Opened("W", [abs EXCEPT !.lines = <<>>, !.made = TRUE]) ELSE Fail0
       [] i = 3 -> IF shut /\ abs.made THEN Opened("A", abs) ELSE Fail0
       [] i = 4 -> IF ~shut THEN Opened("-", abs) ELSE Fail0
       [] i \in 5..7 -> write(LINE[i - 4])
       [] i = 8 -> IF abs.md # "R" \/ abs.pos = Len(abs.lines) THEN Fail0
                   ELSE Good([abs EXCEPT !.pos = @ + 1, !.x = abs.lines[abs.pos + 1]])
       [] i = 9 -> IF abs.md # "R" THEN Fail0 ELSE [abs EXCEPT !.ok = TRUE, !.e = IF abs.pos = Len(abs.lines) THEN "TRUE" ELSE "FALSE"]
       [] i = 10 -> Good([abs EXCEPT !.md = "-", !.pos = 0, !.x = Codes("none")])

View == HState(hm)
Init == HInit /\ abs = [made |-> FALSE, md |-> "-", lines |-> <<>>, pos |-> 0, x |-> Codes("none"), ok |-> TRUE, e |-> "-"]
\* READFILE past the last line: the property does not say what happens, the programs ask EOF first
Next == /\ Len(hh) < DEPTH
        /\ \E i \in 1..Len(Alph) : /\ ~(i = 8 /\ abs.md = "R" /\ abs.pos = Len(abs.lines))
                                   /\ HNext(i) /\ abs' = AbsStep(i) /\ HLog(View, View')
Spec == Init /\ [][Next]_vars
Bound == Len(abs.lines) <= MAXL
RECURSIVE Joined(_)
Joined(ls) == IF ls = <<>> THEN <<>> ELSE ls[1] \o <<NL>> \o Joined(SubSeq(ls, 2, Len(ls)))
Mode == [R |-> "READ", W |-> "WRITE", A |-> "APPEND"]
Refines ==
  /\ ho.ok = abs.ok
  /\ (abs.md # "-") = (F \in DOMAIN hm.hs)
  /\ abs.md # "-" => hm.hs[F].md = Mode[abs.md]
  /\ abs.made = (F \in DOMAIN hm.dir)
  /\ abs.made => hm.dir[F].b = Joined(abs.lines)
  /\ HVal(hm, "x") = VS(abs.x)
  /\ ho.i = 9 /\ ho.ok => ho.out = Codes(abs.e) \o <<NL>>
Always == [][Refines']_vars
\* C15 in its own words
Stated == [][/\ ho'.i \in 5..7 /\ ho'.ok => abs'.lines = Append(abs.lines, LINE[ho'.i - 4])
             /\ ho'.i \in {1, 3, 4, 8, 9, 10} => abs'.lines = abs.lines
             /\ ho'.i = 2 /\ ho'.ok => abs'.lines = <<>>]_vars
================================================================================
