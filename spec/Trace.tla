-------------------------------- MODULE Trace --------------------------------
(* Trace validation.  Each case read from the file TRACE is a series of runs  *)
(* of the real interpreter in one directory; every run carries the program,   *)
(* configuration, standard input and everything observed.  The specification  *)
(* executes the same program; the case is accepted iff every run's            *)
(* observation is one the specification allows.                               *)
(*   case: id, files: <<[n, b]>>, special: <<[n, k]>>, runs                   *)
(*   run:  mode "file"|"repl", src, ped, dm, inp, ver, out, exit (-1: killed  *)
(*         by a signal, sanitizer report, abort; -2: resource bound),         *)
(*         diags: <<[k, lines, l, c]>>, after: <<[n, b]>>, fl: line the       *)
(*         syntax diagnostic has to name (0: not checked), lite: only the way  *)
(*         the run ends is judged (inputs too large to execute here),         *)
(*         rl: standard input is read through the line editor, which echoes   *)
EXTENDS Repl, IOUtils, Json

CASES == ndJsonDeserialize(IOEnv.TRACE)
STEPS == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20,
           21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40>>
MAXN == atoi(IOEnv.MAXN)

\* (named unlike every bound name of the specification: TLC caches constants only then)
VARIABLE tr
\* tr: id, r (run), n, ph, m, sv (suspended REPL machines), d (diagnostics predicted so far), dir, w (note)

TextDir(fs) == TLCEval([x \in {fs[i].n : i \in 1..Len(fs)} |->
                 [k |-> "text", b |-> fs[CHOOSE i \in 1..Len(fs) : fs[i].n = x].b]])
SpecialOf(c) == TLCEval([x \in {c.special[i].n : i \in 1..Len(c.special)} |->
                 c.special[CHOOSE i \in 1..Len(c.special) : c.special[i].n = x].k])

Init == \E i \in 1..Len(CASES) :
          tr = [id |-> i, r |-> 1, n |-> 0, ph |-> "boot", m |-> [st |-> "none"], sv |-> <<>>, d |-> <<>>,
               dir |-> TextDir(CASES[i].files), w |-> ""]

Run == CASES[tr.id].runs[tr.r]

----------------------------------------------------------------------------
(* comparison of predicted and observed behaviour *)
\* does the text o from position j match the prediction e from position i ("prefix": o may go on)
RECURSIVE SkipLn(_, _)
SkipLn(x, j) == IF j > Len(x) \/ x[j] = NL THEN j ELSE SkipLn(x, j + 1)
RECURSIVE MatchW(_, _, _, _)
MatchW(e, o, i, j) ==   \* returns position after the match in o, or 0
  IF i > Len(e) THEN j
  ELSE IF e[i] = WILD THEN MatchW(e, o, SkipLn(e, i), SkipLn(o, j))
  ELSE IF j > Len(o) THEN 0
  ELSE IF e[i] # o[j] THEN 0
  ELSE MatchW(e, o, i + 1, j + 1)
Match(e, o) == IF ~Contains(e, WILD)
               THEN (IF Len(e) <= Len(o) /\ SubSeq(o, 1, Len(e)) = e THEN Len(e) + 1 ELSE 0)
               ELSE MatchW(e, o, 1, 1)
OutExact(e, o) == Match(e, o) = Len(o) + 1
OutErr(e, o) == LET p == Match(e, o) IN p # 0 /\ (p = Len(o) + 1 \/ (p = Len(o) /\ o[p] = NL))
OutPrefix(e, o) == Match(e, o) # 0

\* lengths of the lines of a source
RECURSIVE LineLens(_, _, _)
LineLens(src, i, acc) == IF i > Len(src) + 1 THEN acc
                         ELSE LET j == SkipLn(src, i) IN LineLens(src, j + 1, Append(acc, j - i))
SrcLines(src) == TLCEval(LineLens(src, 1, <<>>))
ChainOK(x, ls) ==
  LET n == Len(x.ch)
      full == Len(ls) = n + 1 /\ SubSeq(ls, 2, n + 1) = x.ch /\ (x.top = {} \/ ls[1] \in x.top)
  IN IF x.b
     THEN \/ full
          \/ Len(ls) = n + 2 /\ (x.top = {} \/ ls[2] \in x.top) /\ SubSeq(ls, 3, n + 2) = x.ch
          \/ x.top = {} /\ Len(ls) = n /\ ls = x.ch
     ELSE full
\* the positions named are compared only if the run asks for it (ln)
DiagOK(x, d) ==
  CASE x.k = "rt" -> d.k = "runtime" /\ (Run.ln => ChainOK(x, d.lines))
    [] x.k = "ped" -> d.k = "pedantic" /\ Contains(d.w, x.con) /\ (~Run.ln \/ x.top = {} \/ d.l \in x.top)
    [] x.k = "syn" -> d.k = "syntax" /\ (Run.ln => d.l - x.o \in 1..Len(x.n) /\ d.c >= 0 /\ d.c <= x.n[d.l - x.o] + 1 /\ (x.l = 0 \/ d.l = x.l + x.o))
    [] x.k = "pedsyn" -> d.k = "pedantic" /\ Contains(d.w, x.con) /\ (Run.ln => d.l = x.l)
    [] x.k = "any" -> TRUE
DiagsOK(e, o) == Len(e) = Len(o) /\ \A i \in 1..Len(e) : DiagOK(e[i], o[i])
DiagsPrefix(e, o) == Len(e) <= Len(o) /\ \A i \in 1..Len(e) : DiagOK(e[i], o[i])

\* data files left behind: same names, same text
FilesMatch(dir, after) ==
  LET names == {after[i].n : i \in 1..Len(after)}
      want == {x \in DOMAIN dir : dir[x].k # "full"}
  IN /\ names = want
     /\ \A i \in 1..Len(after) : dir[after[i].n].k = "text" => dir[after[i].n].b = after[i].b

\* predicted syntax-time outcome of a program that does not parse
SynDiag(p, src, fl, pre) == IF p.k = "pedantic" THEN [k |-> "pedsyn", l |-> p.l, con |-> p.con]
                       ELSE [k |-> "syn", l |-> fl, n |-> SrcLines(src), o |-> pre]

\* reason for rejecting the finished run, "" if accepted
Judge(m, d, kind) ==
  LET o == Run
  IN CASE o.exit = -1 -> "crash"
       [] o.exit = -2 -> IF kind = "open" THEN "" ELSE "resource"
       [] o.exit \notin {0, 1} -> "exit status"
       [] kind = "open" -> IF ~OutPrefix(m.em, o.out) THEN "output"
                           ELSE IF ~DiagsPrefix(d, o.diags) THEN "diagnostic"
                           ELSE IF o.mode = "file" /\ ((o.exit = 1) # (Len(o.diags) = 1)) THEN "exit status and diagnostics"
                           ELSE IF o.mode = "repl" /\ o.exit # 0 THEN "exit status"
                           ELSE ""
       [] kind = "ok" -> IF o.exit # 0 THEN "exit status"
                         ELSE IF ~OutExact(m.em, o.out) THEN "output"
                         ELSE IF ~DiagsOK(d, o.diags) THEN "diagnostic"
                         ELSE IF ~FilesMatch(m.dir, o.after) THEN "files"
                         ELSE ""
       [] OTHER ->        IF o.exit # 1 THEN "exit status"
                          ELSE IF ~OutErr(m.em, o.out) THEN "output"
                          ELSE IF ~DiagsOK(d, o.diags) THEN "diagnostic"
                          ELSE IF ~FilesMatch(m.dir, o.after) THEN "files"
                          ELSE IF kind = "noexec" /\ o.used # 0 THEN "input consumed"
                          ELSE ""

Show(w, m, d) == PrintT(<<"DETAIL", CASES[tr.id].id, tr.r, w, "predicted diagnostics", d, "predicted output", m.em, "error", m.er>>)
Verdict(v, w) == PrintT(<<"VERDICT", CASES[tr.id].id, v, tr.r, w>>)

\* a write error nobody reported before the end of the run
Unreported(m) == {f \in DOMAIN m.hs : m.hs[f].bad # {}}
AtExit(m) == IF Unreported(m) = {} THEN m
             ELSE FailT(m, UNION {m.hs[f].bad : f \in Unreported(m)}, FALSE)

\* end of run: kind "ok", "err", "noexec" (rejected before anything ran), "open"
Finish(m, d, kind, note) ==
  LET w == Judge(m, d, IF kind = "lite" THEN "open" ELSE kind)
      t == [tr EXCEPT !.m = [st |-> "none"], !.sv = <<>>, !.d = <<>>, !.n = @ + 1]
  IN IF w # ""
     THEN /\ Show(w, m, d)
          /\ Verdict("bad", w)
          /\ tr' = [t EXCEPT !.ph = "end"]
     ELSE IF kind = "open" \/ tr.r = Len(CASES[tr.id].runs)
     THEN /\ Verdict(IF kind = "open" THEN "open" ELSE "ok", note)
          /\ tr' = [t EXCEPT !.ph = "end"]
     ELSE tr' = [t EXCEPT !.ph = "boot", !.r = @ + 1, !.dir = m.dir]

Fresh == [Boot(tr.dir, SpecialOf(CASES[tr.id]), Run.inp, Run.ped, Run.dm) EXCEPT !.ec = Run.rl]

BootFile ==
  LET p == ParseAt(Run.src, Run.ped, 1 + Run.pre)   \* Run.pre lines without tokens stand above the program
  IN IF p.ok THEN tr' = [tr EXCEPT !.ph = "run", !.n = @ + 1, !.m = Begin(Fresh, p.b)]
     ELSE IF p.k = "unspec" THEN Finish(Fresh, <<>>, "open", "unspecified literal")
     ELSE Finish(Fresh, <<SynDiag(p, Run.src, Run.fl, Run.pre)>>, "noexec", "rejected")
BootRepl == tr' = [tr EXCEPT !.ph = "entry", !.n = @ + 1,
                           !.m = [Emit(Fresh, BANNER1 \o Run.ver \o BANNER2) EXCEPT !.rp = TRUE, !.st = "done"]]

RunSteps ==
  LET m == StepN(tr.m, STEPS)
  IN IF tr.n > MAXN THEN Finish(m, tr.d, "open", "budget")
     ELSE IF m.st = "run" THEN tr' = [tr EXCEPT !.m = m, !.n = @ + 1]
     ELSE IF m.st = "unspec" THEN Finish(m, tr.d, "open", m.er.w)
     ELSE IF m.rp THEN   \* an entry of the REPL has ended
          tr' = IF m.st = "err"
               THEN [tr EXCEPT !.m = Reset(Emit(m, <<NL>>)), !.d = Append(@, m.er), !.ph = "entry", !.n = @ + 1]
               ELSE [tr EXCEPT !.m = Reset(m), !.ph = "entry", !.n = @ + 1]
     ELSE IF tr.sv # <<>> THEN   \* a program started by RUNFILE has ended
          LET q == AtExit(m)
              up == tr.sv[1]
              back == [up EXCEPT !.dir = q.dir, !.ii = q.ii,
                                 !.em = q.em \o (IF q.st = "err" THEN <<NL>> ELSE <<>>) \o RunTail(q.st = "done")]
          IN tr' = [tr EXCEPT !.m = back, !.sv = <<>>, !.ph = "entry", !.n = @ + 1,
                            !.d = IF q.st = "err" THEN Append(@, q.er) ELSE @]
     ELSE LET q == AtExit(m)
          IN IF q.st = "done" THEN Finish(q, tr.d, "ok", "") ELSE Finish(q, Append(tr.d, q.er), "err", "")

Entry ==
  LET e == NextEntry(tr.m)
      m == e.m
      stay(mm) == tr' = [tr EXCEPT !.m = mm, !.n = @ + 1]
  IN CASE e.k \in {"eof", "exit"} -> LET q == AtExit(m) IN Finish(q, tr.d, "ok", "")
       [] e.k = "blank" -> stay(m)
       [] e.k = "help" -> stay(Emit(m, HELP))
       [] e.k = "norun" -> tr' = [tr EXCEPT !.m = m, !.n = @ + 1, !.d = Append(@, [k |-> "any"])]
       [] e.k = "run" ->
            LET h == Emit(m, RunHead(e.c))
                ok == e.c \in DOMAIN m.dir
                p == Parse(m.dir[e.c].b, m.ped)
                bad(x, pre) == tr' = [tr EXCEPT !.m = Emit(h, pre \o RunTail(FALSE)), !.n = @ + 1, !.d = Append(@, x)]
            IN IF ~ok THEN bad([k |-> "any"], <<>>)
               ELSE IF m.dir[e.c].k # "text" THEN Finish(m, tr.d, "open", "RUNFILE of a data file")
               ELSE IF ~p.ok THEN (IF p.k = "unspec" THEN Finish(m, tr.d, "open", "unspecified literal")
                                   ELSE bad(SynDiag(p, m.dir[e.c].b, 0, 0), <<NL>>))
               ELSE tr' = [tr EXCEPT !.sv = <<h>>, !.ph = "run", !.n = @ + 1,
                            !.m = Begin([Boot(h.dir, h.sp, h.ip, h.ped, h.dm) EXCEPT !.ii = h.ii, !.em = h.em, !.ec = h.ec], p.b)]
       [] OTHER ->
            LET p == Parse(e.c, m.ped)
            IN IF p.ok THEN tr' = [tr EXCEPT !.m = Begin(m, p.b), !.ph = "run", !.n = @ + 1]
               ELSE IF p.k = "unspec" THEN Finish(m, tr.d, "open", "unspecified literal")
               ELSE tr' = [tr EXCEPT !.m = Emit(m, <<NL>>), !.n = @ + 1, !.d = Append(@, SynDiag(p, e.c, 0, 0))]

Next == CASE tr.ph = "boot" -> IF Run.exit = -1 THEN Finish([em |-> <<>>, er |-> ""], <<>>, "open", "")
                              ELSE IF Run.lite THEN Finish([em |-> <<>>, er |-> "", dir |-> tr.dir], <<>>, "lite", "outcome only")
                              ELSE IF Run.mode = "file" THEN BootFile ELSE BootRepl
          [] tr.ph = "run" -> RunSteps
          [] tr.ph = "entry" -> Entry
          [] OTHER -> FALSE

Spec == Init /\ [][Next]_tr
View == <<tr.id, tr.r, tr.n, tr.ph>>
\* invariant of the specification itself, on every state the traces visit
SpecInv == tr.ph \notin {"run", "entry"} \/ MachineInv(tr.m)
=============================================================================
