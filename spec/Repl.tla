-------------------------------- MODULE Repl --------------------------------
(* The interactive loop: how standard input is cut into entries, what is     *)
(* printed around them, and what survives a failing entry (everything in m   *)
(* except the control part: continuation, value stack and dead activations). *)
EXTENDS Machine

PROMPT == <<62, 32>>
PROMPT2 == <<46, 32>>
HELP == Codes("Visit https://github.com/SingularityT3/PseudoEngine2 for syntax, examples and more info") \o <<NL>>
     \o Codes("Use `RUNFILE <filename>` to run programs stored in files") \o <<NL>>
BANNER1 == Codes("PseudoEngine2 v")
BANNER2 == Codes(" REPL") \o <<NL>> \o Codes("Enter '?' for help, 'EXIT' to quit") \o <<NL>>
MULTI == {"IF", "CASE", "WHILE", "REPEAT", "FOR", "PROCEDURE", "FUNCTION", "TYPE"}

EXITWORD == Codes("EXIT")
\* a complete line (with a line editor: any text) is available at the current position
HasLine(m) == IF m.ec THEN m.ii < Len(m.ip) ELSE LineEnd(m.ip, m.ii + 1) <= Len(m.ip)
\* first word of an entry: the identifier characters after leading blanks
Lead(c) == FirstAt(c, 1, LAMBDA x : x \notin {32, 9})
FirstWord(c) == NameFrom(c, Lead(c), SpanWord(c, Lead(c)) - 1)
\* the part of a line that is not a comment
RECURSIVE CodePart(_, _)
CodePart(c, i) == IF i >= Len(c) THEN c
                  ELSE IF c[i] = 47 /\ c[i + 1] = 47 THEN SubSeq(c, 1, i - 1) ELSE CodePart(c, i + 1)
IsMulti(c) == FirstWord(c) \in MULTI /\ ~(FirstWord(c) = "TYPE" /\ Contains(CodePart(c, 1), 61))
RUNWORD == Codes("RUNFILE")
IsRun(c) == StartsAt(c, 1, RUNWORD) /\ (Len(c) = 7 \/ c[8] \in {32, 9})

RECURSIVE More(_, _)
\* continuation lines of a multi-line entry up to an empty line; [k, m, c]
More(m, c) ==
  LET m1 == Emit(m, PROMPT2)
      rl == ReadLine(m.ip, m.ii)
      m2 == Typing([m1 EXCEPT !.ii = rl[2]], m, rl[1])
  IN IF ~HasLine(m) THEN [k |-> "eof", m |-> m1, c |-> <<>>]
     ELSE IF rl[1] = <<>> THEN [k |-> "code", m |-> m2, c |-> c \o <<NL>>]
     ELSE More(m2, c \o <<NL>> \o rl[1])

RECURSIVE StripBlank(_)
StripBlank(c) == IF c # <<>> /\ c[Len(c)] \in {32, 9} THEN StripBlank(SubSeq(c, 1, Len(c) - 1)) ELSE c

\* the next entry: [k |-> "eof" | "exit" | "help" | "blank" | "run" | "norun" | "code", m, c]
NextEntry(m) ==
  LET m1 == Emit(m, PROMPT)
      rl == ReadLine(m.ip, m.ii)
      c == rl[1]
      m2 == Typing([m1 EXCEPT !.ii = rl[2]], m, rl[1])
      e(k, x) == [k |-> k, m |-> m2, c |-> x]
  IN IF ~HasLine(m) THEN [k |-> "eof", m |-> m1, c |-> <<>>]
     ELSE IF c = <<>> THEN e("blank", c)
     ELSE IF c = <<63>> THEN e("help", c)
     ELSE IF c = EXITWORD THEN e("exit", c)
     ELSE IF IsRun(c) THEN (IF Len(c) < 9 THEN e("norun", c) ELSE e("run", StripBlank(SubSeq(c, 9, Len(c)))))
     ELSE IF IsMulti(c) THEN More(m2, c)
     ELSE e("code", c)

RunHead(f) == Codes("==> Running file '") \o f \o Codes("'") \o <<NL>>
RunTail(ok) == <<NL>> \o Codes("==> Program exited ") \o Codes(IF ok THEN "successfully" ELSE "with an error") \o <<NL>>

\* forget the control state of an abandoned entry
Reset(m) == [m EXCEPT !.st = "done", !.k = <<>>, !.vs = <<>>, !.a = m.g, !.fr = (m.g :> m.fr[m.g]), !.er = [k |-> "none"]]
=============================================================================
