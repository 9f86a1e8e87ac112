------------------------------ MODULE Machine ------------------------------
(* Operational semantics of the language as a continuation machine.          *)
(* State m:                                                                   *)
(*   st   "run" | "done" | "err" | "unspec" | "budget"                        *)
(*   k    continuation: <<item, rest>> or <<>>                                *)
(*   vs   value stack:  <<value, rest>> or <<>>                               *)
(*   fr   activation id -> [nm, vs, ty, en, fn, rt, cl, up]                   *)
(*          vs: name -> cell [r, v, c]   (r: reference of a BYREF parameter)  *)
(*          ty: type name -> definition, en: enum literal -> value            *)
(*          fn: is a function, rt: its return type, cl: line of the call,     *)
(*          up: caller                                                        *)
(*   a, g, na  current / global activation, last id given out (never reused)  *)
(*   pr   procedure or function name -> definition                            *)
(*   hs   open handles, dir: directory contents, sp: special paths            *)
(*   ip   standard input, ii: characters of it consumed                       *)
(*   em   characters written to standard output (-1: rest of line unknown)    *)
(*   er   the run-time error                                                  *)
(*   rp   REPL mode, ped: --pedantic, dm: DIV rounding mode                   *)
(* A location is [a, n, p]: variable n of activation a and a path of record   *)
(* fields <<"f", name>> and array elements <<"i", flat position>>.            *)
EXTENDS Values

NOREF == [a |-> 0, n |-> "", p |-> <<>>]
Cell(v) == [r |-> NOREF, v |-> v, c |-> FALSE]
Frame(nm, fn, rt, cl, up) ==
  [nm |-> nm, vs |-> <<>>, ty |-> <<>>, en |-> <<>>, fn |-> fn, rt |-> rt, cl |-> cl, up |-> up]
Put(f, x, v) == (x :> v) @@ f
Del(f, x) == TLCEval([y \in DOMAIN f \ {x} |-> f[y]])

Unspec(m, w) == [m EXCEPT !.st = "unspec", !.er = [k |-> "unspec", w |-> w]]
RECURSIVE Chain(_, _)
Chain(fr, a) == IF fr[a].up = 0 THEN <<>> ELSE <<fr[a].cl>> \o Chain(fr, fr[a].up)
\* top: acceptable lines of the failing statement ({}: any)
FailT(m, top, b) == [m EXCEPT !.st = "err", !.er = [k |-> "rt", top |-> top, ch |-> Chain(m.fr, m.a), b |-> b]]
Fail(m, l) == FailT(m, {l}, FALSE)
FailPed(m, l) == [m EXCEPT !.st = "err", !.er = [k |-> "ped", con |-> "undeclared", top |-> {l}, ch |-> <<>>, b |-> FALSE]]
\* an X or Z result
Stop(m, x) == IF x.k = "Z" THEN Unspec(m, x.w) ELSE FailT(m, {x.l}, x.b)

Pop(m) == [m EXCEPT !.k = m.k[2]]
PushK(m, it) == [m EXCEPT !.k = <<it, m.k>>]
PushV(m, v) == [m EXCEPT !.vs = <<v, m.vs>>]
Emit(m, cs) == [m EXCEPT !.em = @ \o cs]
WILD == -1

----------------------------------------------------------------------------
(* Storage *)
HasVar(m, a, n) == n \in DOMAIN m.fr[a].vs
\* own activation first, then the globals; 0: none
Owner(m, n) == IF HasVar(m, m.a, n) THEN m.a ELSE IF HasVar(m, m.g, n) THEN m.g ELSE 0
BaseRef(m, a, n) == LET c == m.fr[a].vs[n] IN IF c.r.a # 0 THEN c.r ELSE [a |-> a, n |-> n, p |-> <<>>]
RECURSIVE Drill(_, _, _)
Drill(v, p, i) == IF i > Len(p) THEN v
                  ELSE Drill(IF p[i][1] = "f" THEN v.f[p[i][2]] ELSE v.e[p[i][2]], p, i + 1)
ValAt(m, r) == Drill(m.fr[r.a].vs[r.n].v, r.p, 1)
RECURSIVE Upd(_, _, _, _)
Upd(v, p, i, x) == IF i > Len(p) THEN x
                   ELSE IF p[i][1] = "f" THEN [v EXCEPT !.f[p[i][2]] = Upd(@, p, i + 1, x)]
                   ELSE [v EXCEPT !.e[p[i][2]] = Upd(@, p, i + 1, x)]
SetAt(m, r, x) == [m EXCEPT !.fr[r.a].vs[r.n].v = Upd(@, r.p, 1, x)]
IsConst(m, r) == m.fr[r.a].vs[r.n].c
Live(m, r) == r.a \in DOMAIN m.fr
NewVar(m, n, v) == [m EXCEPT !.fr[m.a].vs = Put(@, n, Cell(v))]

\* types: own activation, then the global one
TypeAct(m, a, n) == IF n \in DOMAIN m.fr[a].ty THEN a ELSE IF n \in DOMAIN m.fr[m.g].ty THEN m.g ELSE 0
NOTYPE == <<"?">>
ResolveTy(m, a, tk) ==
  IF tk[1] = "TY" THEN BaseTy(tk[2])
  ELSE LET w == TypeAct(m, a, tk[2])
       IN IF w = 0 THEN NOTYPE ELSE <<m.fr[w].ty[tk[2]].k, tk[2], w>>
DefOf(m, t) == m.fr[t[3]].ty[t[2]]
IsLiteral(m, n) == n \in DOMAIN m.fr[m.a].en \/ n \in DOMAIN m.fr[m.g].en
Literal(m, n) == IF n \in DOMAIN m.fr[m.a].en THEN m.fr[m.a].en[n] ELSE m.fr[m.g].en[n]
IsTypeName(m, n) == TypeAct(m, m.a, n) # 0 \/ IsLiteral(m, n)

\* Initial values.  Result may be X (unknown field type), or Z.
RECURSIVE Default(_, _, _), FieldsOf(_, _, _, _, _), BoundsOf(_, _, _, _, _)
Cells(d) == LET RECURSIVE P(_)
                P(i) == IF i > Len(d) THEN 1 ELSE (d[i][2] - d[i][1] + 1) * P(i + 1)
            IN P(1)
Default(m, t, depth) ==
  CASE t = TI -> VI(Z0)
    [] t = TR -> RZero
    [] t = TB -> VB(FALSE)
    [] t = TC -> VC(0)
    [] t = TS -> VS(<<>>)
    [] t = TD -> UV(TD)
    [] t[1] = "E" -> [k |-> "E", t |-> t, i |-> 0]
    [] t[1] = "P" -> [k |-> "P", t |-> t, r |-> NOREF]
    [] t[1] = "O" -> IF depth > 20 THEN XL(-1, FALSE)
                     ELSE LET f == FieldsOf(m, t, DefOf(m, t).b, 1, depth)
                          IN IF f.bad.k # "N" THEN f.bad ELSE [k |-> "O", t |-> t, f |-> f.f]
NewArray(m, d, ty, depth) ==
  LET v == Default(m, ty, depth)
      n == Cells(d)
  IN IF IsBad(v) THEN v
     ELSE IF n > m.cap THEN Z("array size")
     ELSE [k |-> "A", d |-> d, ty |-> ty, e |-> TLCEval([i \in 1..n |-> v])]
\* bounds of an array field: literals and global INTEGER variables with + - *
RECURSIVE FieldBound(_, _)
FieldBound(m, e) ==
  IF e.t = "lit" /\ e.v.k = "I" THEN e.v
  ELSE IF e.t = "par" THEN FieldBound(m, e.e)
  ELSE IF e.t = "bin" /\ e.o \in {"+", "-", "*"}
  THEN LET a == FieldBound(m, e.a)
           b == FieldBound(m, e.b)
       IN IF a.k # "I" \/ b.k # "I" THEN Z("field bound")
          ELSE IF ~ZSmall(a.z) \/ ~ZSmall(b.z) THEN Z("field bound")
          ELSE VI(CASE e.o = "+" -> ZAdd(a.z, b.z) [] e.o = "-" -> ZSub(a.z, b.z) [] OTHER -> ZMul(a.z, b.z))
  ELSE IF e.t = "un" /\ e.o = "-" /\ e.e.t = "lit" /\ e.e.v.k = "I" THEN VI(ZNeg(e.e.v.z))
  ELSE IF e.t = "get" /\ e.p.s = <<>> /\ HasVar(m, m.g, e.p.n) /\ m.fr[m.g].vs[e.p.n].v.k = "I" THEN m.fr[m.g].vs[e.p.n].v
  ELSE Z("field bound")
BoundsOf(m, b, i, acc, bad) ==
  IF i > Len(b) \/ bad.k # "N" THEN [d |-> acc, bad |-> bad]
  ELSE LET lo == FieldBound(m, b[i])
           hi == FieldBound(m, b[i + 1])
       IN IF lo.k = "Z" \/ hi.k = "Z" THEN [d |-> acc, bad |-> Z("field bound")]
          ELSE IF ~ZSmall(lo.z) \/ ~ZSmall(hi.z) THEN [d |-> acc, bad |-> Z("array size")]
          ELSE IF hi.z[1] < lo.z[1] THEN [d |-> acc, bad |-> XL(-1, FALSE)]
          ELSE IF hi.z[1] - lo.z[1] > m.cap THEN [d |-> acc, bad |-> Z("array size")]
          ELSE BoundsOf(m, b, i + 2, Append(acc, <<lo.z[1], hi.z[1]>>), bad)
\* [f |-> name -> value, bad |-> NOVAL or X/Z]; line -1 in X: any line
FieldsOf(m, t, b, i, depth) ==
  IF i > Len(b) THEN [f |-> <<>>, bad |-> NOVAL]
  ELSE LET n == b[i]
           ty == ResolveTy(m, t[3], n.ty)
           rest == FieldsOf(m, t, b, i + 1, depth)
           bd == BoundsOf(m, n.b, 1, <<>>, NOVAL)
           v == IF n.t = "decl" THEN Default(m, ty, depth + 1) ELSE NewArray(m, bd.d, ty, depth + 1)
           dup == \E j \in 1..(i - 1) : \E x \in 1..Len(n.ns), y \in 1..Len(b[j].ns) : n.ns[x] = b[j].ns[y]
       IN IF dup \/ \E x, y \in 1..Len(n.ns) : x # y /\ n.ns[x] = n.ns[y] THEN [f |-> <<>>, bad |-> Z("duplicate field")]
          ELSE IF \E x \in 1..Len(n.ns) : n.ns[x] \in DOMAIN m.fr[t[3]].ty \/ n.ns[x] \in DOMAIN m.fr[m.g].ty
                  \/ n.ns[x] \in DOMAIN m.fr[t[3]].en \/ n.ns[x] \in DOMAIN m.fr[m.g].en
          THEN [f |-> <<>>, bad |-> Z("field named as a type")]
          ELSE IF n.t = "arr" /\ bd.bad.k # "N" THEN [f |-> <<>>, bad |-> bd.bad]
          ELSE IF ty = NOTYPE THEN [f |-> <<>>, bad |-> XL(-1, FALSE)]
          ELSE IF IsBad(v) THEN [f |-> <<>>, bad |-> IF v.k = "X" THEN XL(-1, FALSE) ELSE v]
          ELSE IF rest.bad.k # "N" THEN rest
          ELSE [f |-> TLCEval([x \in {n.ns[q] : q \in 1..Len(n.ns)} |-> v]) @@ rest.f, bad |-> NOVAL]
\* an X whose line is -1 may name any line
StopD(m, x, l) == IF x.k = "X" THEN (IF x.l = -1 THEN FailT(m, {}, TRUE) ELSE FailT(m, {l}, FALSE)) ELSE Unspec(m, x.w)

----------------------------------------------------------------------------
(* Expressions without calls of user functions and without assignments       *)
RECURSIVE IsPure(_), PathPure(_)
PathPure(p) == \A i \in 1..Len(p.s) : p.s[i][1] # "i" \/ \A j \in 1..Len(p.s[i][3]) : IsPure(p.s[i][3][j])
IsPure(n) ==
  CASE n.t \in {"lit", "date"} -> TRUE
    [] n.t = "get" -> n.p.s = <<>> \/ PathPure(n.p)
    [] n.t = "bin" -> IsPure(n.a) /\ IsPure(n.b)
    [] n.t \in {"un", "par", "cast"} -> IsPure(n.e)
    [] n.t = "call" -> n.n \in DOMAIN BUILTINS /\ \A i \in 1..Len(n.a) : IsPure(n.a[i])
    [] OTHER -> FALSE

\* EOF(f)
EofVal(m, a, l) ==
  IF Len(a) # 1 THEN XL(l, FALSE)
  ELSE LET s == Conv(a[1], TS)
       IN IF s.k = "M" THEN XL(l, FALSE)
          ELSE IF s.k # "S" THEN Z("file name")
          ELSE IF s.s \notin DOMAIN m.hs THEN XL(l, TRUE)
          ELSE IF m.hs[s.s].md # "READ" THEN XL(l, TRUE)
          ELSE IF m.dir[s.s].k # "text" THEN Z("opaque file")
          ELSE VB(m.hs[s.s].pos >= Len(m.dir[s.s].b))

\* value of a location used as an expression: whole arrays are not values
Rd(v, l) == IF v.k = "A" THEN XL(l, FALSE) ELSE v

RECURSIVE Pure(_, _), Walk(_, _, _, _, _, _), FlatIx(_, _, _, _, _, _, _)

\* position in the element sequence: indices checked from left to right; given: values already known
FlatIx(m, d, es, given, i, acc, l) ==
  IF i > Len(d) THEN [k |-> "ix", n |-> acc + 1]
  ELSE LET v == IF given = <<>> THEN Pure(m, es[i]) ELSE given[i]
       IN IF IsBad(v) THEN v
          ELSE IF KindOf(v) # "I" THEN XL(l, FALSE)
          ELSE IF IsU(v) THEN Z("index")
          ELSE IF ~ZSmall(v.z) \/ v.z[1] < d[i][1] \/ v.z[1] > d[i][2] THEN XL(l, FALSE)
          ELSE FlatIx(m, d, es, given, i + 1, acc * (d[i][2] - d[i][1] + 1) + v.z[1] - d[i][1], l)

\* follow path steps s[i..] from location r with value v; ix: list of index value lists, or <<>>
Walk(m, s, i, r, v, ix) ==
  IF i > Len(s) THEN [k |-> "loc", r |-> r, v |-> v]
  ELSE LET op == s[i][1]
           l == s[i][2]
       IN CASE op = "f" ->
                 IF v.k # "O" THEN XL(l, FALSE)
                 ELSE IF s[i][3] \notin DOMAIN v.f THEN XL(l, FALSE)
                 ELSE Walk(m, s, i + 1, [r EXCEPT !.p = Append(@, <<"f", s[i][3]>>)], v.f[s[i][3]], ix)
            [] op = "d" ->
                 IF v.k # "P" THEN XL(l, FALSE)
                 ELSE IF v.r.a = 0 \/ ~Live(m, v.r) THEN XL(l, FALSE)
                 ELSE Walk(m, s, i + 1, v.r, ValAt(m, v.r), ix)
            [] OTHER ->
                 IF v.k # "A" THEN XL(l, FALSE)
                 ELSE IF Len(s[i][3]) # Len(v.d) THEN XL(l, FALSE)
                 ELSE LET given == IF ix = <<>> THEN <<>> ELSE ix[1]
                          f == FlatIx(m, v.d, s[i][3], given, 1, 0, l)
                      IN IF IsBad(f) THEN f
                         ELSE Walk(m, s, i + 1, [r EXCEPT !.p = Append(@, <<"i", f.n>>)], v.e[f.n],
                                   IF ix = <<>> THEN <<>> ELSE Tail(ix))
\* [k |-> "loc", r, v], X, Z, or [k |-> "ND"] if the base name is unknown
Loc(m, p, ix) ==
  LET o == Owner(m, p.n)
      r == BaseRef(m, o, p.n)
  IN IF o = 0 THEN [k |-> "ND"] ELSE Walk(m, p.s, 1, r, ValAt(m, r), ix)
\* value of a path used as an expression
GetVal(m, p, ix) ==
  LET q == Loc(m, p, ix)
  IN CASE q.k = "loc" -> Rd(q.v, p.l)
       [] q.k = "ND" -> IF p.s = <<>> /\ IsLiteral(m, p.n) THEN Literal(m, p.n) ELSE XL(p.l, FALSE)
       [] OTHER -> q

\* a comparison or arithmetic result where the operand is a not-a-value
Pure(m, n) ==
  CASE n.t = "lit" -> n.v
    [] n.t = "date" -> AtLine(MakeDate(ZMk(1, NOfDigits(n.v[1])), ZMk(1, NOfDigits(n.v[2])), ZMk(1, NOfDigits(n.v[3]))), n.l)
    [] n.t = "get" -> GetVal(m, n.p, <<>>)
    [] n.t = "par" -> LET v == Pure(m, n.e)
                      IN v
    [] n.t = "un" -> LET v == Pure(m, n.e)
                     IN IF IsBad(v) THEN v ELSE AtLine(UnOp(n.o, v), n.l)
    [] n.t = "cast" -> LET v == Pure(m, n.e)
                       IN IF IsBad(v) THEN v ELSE AtLine(Cast(n.ty, v), n.l)
    [] n.t = "bin" ->
         LET a == Pure(m, n.a)
             b == Pure(m, n.b)
         IN IF IsBad(a) THEN a
            ELSE IF n.o = "AND" /\ a.k = "B" /\ ~a.b THEN a
            ELSE IF n.o = "AND" /\ KindOf(a) = "B" /\ IsU(a) /\ IsBad(b) THEN Z("and")
            ELSE IF IsBad(b) THEN b
            ELSE AtLine(BinOp(n.o, a, b, m.dm, m.fr), n.l)
    [] n.t = "call" ->
         LET vals == TLCEval([i \in 1..Len(n.a) |-> Pure(m, n.a[i])])
             bad == {i \in 1..Len(n.a) : IsBad(vals[i])}
         IN IF bad # {} THEN vals[CHOOSE i \in bad : \A j \in bad : i <= j]
            ELSE IF n.n = "EOF" THEN EofVal(m, vals, n.l)
            ELSE Builtin(n.n, vals, n.l)

----------------------------------------------------------------------------
(* Statements.  Continuation items are tuples <<op, ...>>:                    *)
(*  "blk" stmts i | "ev" node | "drop" | "bin" node | "and" node | "un" node  *)
(*  "cast" node | "args" node i | "inv" node n | "get" node ix | ...          *)

\* evaluate n, then continue with item it, which finds the value on the value stack
Ev(m, n, it) ==
  IF IsPure(n)
  THEN LET v == Pure(m, n) IN IF IsBad(v) THEN Stop(m, v) ELSE PushK(PushV(m, v), it)
  ELSE PushK(PushK(m, it), <<"ev", n>>)

RECURSIVE TakeV(_, _, _)
\* the n topmost values, deepest first: <<values, rest>>
TakeV(vs, n, acc) == IF n = 0 THEN <<acc, vs>> ELSE TakeV(vs[2], n - 1, <<vs[1]>> \o acc)

\* evaluate the expressions es one after the other, then continue with it (Len(es) values on the stack)
EvAll(m, es, it) == IF es = <<>> THEN PushK(m, it) ELSE PushK(PushK(m, it), <<"evs", es, 1>>)

\* all index expressions of a path, left to right
RECURSIVE PathIxs(_, _)
PathIxs(s, i) == IF i > Len(s) THEN <<>> ELSE (IF s[i][1] = "i" THEN s[i][3] ELSE <<>>) \o PathIxs(s, i + 1)
RECURSIVE GroupIxs(_, _, _)
GroupIxs(s, i, vals) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i][1] = "i"
  THEN LET n == Len(s[i][3]) IN <<SubSeq(vals, 1, n)>> \o GroupIxs(s, i + 1, SubSeq(vals, n + 1, Len(vals)))
  ELSE GroupIxs(s, i + 1, vals)

\* continue with <<"pl", node, path, op>>: the location of the path is needed next
\* (index values are on the stack if the path is impure)
WithLoc(m, p, it) == IF PathPure(p) THEN PushK(m, it \o << <<>> >>)
                     ELSE LET es == PathIxs(p.s, 1)
                          IN PushK(PushK(PushK(m, it), <<"grp", p, Len(es)>>), <<"evs", es, 1>>)

----------------------------------------------------------------------------
(* calls *)
UserFn(m, n) == n \in DOMAIN m.pr
Ret(m, v) ==   \* leave the current activation with value v; the "ret" item has been removed
  LET a == m.a
  IN PushV([m EXCEPT !.fr = Del(@, a), !.a = m.fr[a].up], v)

\* a BYREF argument is evaluated to the location [k |-> "L", r, ty] of a variable, once, in its turn
RefArgs(m, n) == LET ps == m.pr[n.n].ps
                 IN TLCEval([i \in 1..Len(n.a) |-> IF i <= Len(ps) /\ n.a[i].t = "get" THEN
                                             (IF ps[i].r THEN [t |-> "ref", p |-> n.a[i].p, l |-> n.a[i].l] ELSE n.a[i])
                                           ELSE n.a[i]])
\* bind parameters; args: values, nodes: argument nodes.  Result: [bad, vs]
RECURSIVE Bind(_, _, _, _, _, _)
Bind(m, d, vals, nodes, i, acc) ==
  IF i > Len(d.ps) THEN [bad |-> NOVAL, vs |-> acc]
  ELSE LET p == d.ps[i]
           v == vals[i]
           cv == Conv(v, p.ty)   \* not looked at if v is a location
           nd == nodes[i]
       IN IF p.n \in DOMAIN acc THEN [bad |-> Z("duplicate parameter"), vs |-> acc]
          ELSE IF v.k = "N" THEN [bad |-> X, vs |-> acc]
          ELSE IF p.r
          THEN IF v.k = "L" /\ v.ty = p.ty
               THEN Bind(m, d, vals, nodes, i + 1, Put(acc, p.n, [r |-> v.r, v |-> NOVAL, c |-> FALSE]))
               ELSE IF nd.t = "par" /\ TypeOf(v) = p.ty THEN [bad |-> Z("parenthesised BYREF argument"), vs |-> acc]
               ELSE [bad |-> X, vs |-> acc]
          ELSE IF cv.k = "M" THEN [bad |-> X, vs |-> acc]
          ELSE IF cv.k = "Z" THEN [bad |-> cv, vs |-> acc]
          ELSE Bind(m, d, vals, nodes, i + 1, Put(acc, p.n, Cell(cv)))

\* nodes: the argument nodes, whose values are the topmost Len(nodes) values
Invoke(m0, name, nodes, l) ==
  LET tk == TakeV(m0.vs, Len(nodes), <<>>)
      m == [m0 EXCEPT !.vs = tk[2]]
      d == m.pr[name]
      id == m.na + 1
      b == Bind(m, d, tk[1], nodes, 1, <<>>)
  IN IF Len(nodes) # Len(d.ps) THEN Fail(m, l)
     ELSE IF b.bad.k # "N" THEN Stop(m, AtLine(b.bad, l))
     ELSE IF Cardinality(DOMAIN m.fr) > m.depth THEN Unspec(m, "call depth")
     ELSE PushK(PushK([m EXCEPT !.fr = Put(@, id, [Frame(name, d.fn, d.rt, l, m.a) EXCEPT !.vs = b.vs]),
                                !.a = id, !.na = id],
                      <<"ret", d.l>>),
                <<"blk", d.b, 1>>)

RECURSIVE Unwind(_, _)
\* drop items up to, and excluding, the first one whose op is in S; <<>> if none before the bottom
Unwind(k, S) == IF k = <<>> THEN <<>> ELSE IF k[1][1] \in S THEN k ELSE Unwind(k[2], S)
LOOPS == {"wh", "rep", "for"}

----------------------------------------------------------------------------
(* stores *)
\* records of one type declared at different times may have array fields of different bounds
RECURSIVE SameShape(_, _)
SameShape(a, b) == CASE a.k = "O" -> b.k # "O" \/ \A x \in DOMAIN a.f : SameShape(a.f[x], b.f[x])
                     [] a.k = "A" -> a.d = b.d /\ \A i \in DOMAIN a.e : SameShape(a.e[i], b.e[i])
                     [] OTHER -> TRUE
\* v (a value) into location q of node line l
Store(m, q, v, l) ==
  IF IsConst(m, q.r) THEN Fail(m, l)
  ELSE IF q.v.k = "A" \/ v.k = "N" THEN Fail(m, l)
  ELSE LET c == Conv(v, TypeOf(q.v))
       IN IF c.k = "M" THEN Fail(m, l) ELSE IF c.k = "Z" THEN Unspec(m, c.w)
          ELSE IF ~SameShape(q.v, c) THEN Fail(m, l) ELSE SetAt(m, q.r, c)

\* assignment of value v to path p
AssignTo(m, n, v, ix) ==
  LET q == Loc(m, n.p, ix)
  IN CASE q.k = "loc" -> Store(m, q, v, n.l)
       [] q.k = "ND" -> IF n.p.s # <<>> THEN Fail(m, n.p.l)
                        ELSE IF IsTypeName(m, n.p.n) THEN Fail(m, n.p.l)
                        ELSE IF m.ped THEN FailPed(m, n.l)
                        ELSE IF v.k = "N" THEN Fail(m, n.l)
                        ELSE NewVar(m, n.p.n, v)
       [] OTHER -> IF ix # <<>> THEN Unspec(m, "impure path") ELSE Stop(m, q)

\* whole-array copy: src is the location of the source
AssignArray(m, n, src, ix) ==
  LET q == Loc(m, n.p, ix)
  IN CASE q.k = "loc" ->
            IF q.v.k # "A" THEN Fail(m, n.l)
            ELSE IF IsConst(m, q.r) THEN Fail(m, n.l)
            ELSE IF q.v.ty # src.v.ty \/ q.v.d # src.v.d THEN Fail(m, n.l)
            ELSE IF ~SameShape(q.v, src.v) THEN Fail(m, n.l)
            ELSE SetAt(m, q.r, src.v)
       [] q.k = "ND" -> Fail(m, n.p.l)
       [] OTHER -> IF ix # <<>> THEN Unspec(m, "impure path") ELSE Stop(m, q)

----------------------------------------------------------------------------
(* standard input *)
LineEnd(s, i) == FirstAt(s, i, LAMBDA c : c = NL)
\* <<line, new position>>; positions count characters consumed
ReadLine(s, pos) == LET e == LineEnd(s, pos + 1) IN <<SubSeq(s, pos + 1, e - 1), IF e > Len(s) THEN Len(s) ELSE e>>

\* the typed line converted to type ty
Typed(line, ty) ==
  CASE ty = TI -> TextInt(line)
    [] ty = TR -> TextReal(line)
    [] ty = TB -> IF line = BoolText(TRUE) THEN VB(TRUE) ELSE IF line = BoolText(FALSE) THEN VB(FALSE) ELSE UV(TB)
    [] ty = TC -> IF Len(line) = 1 THEN VC(line[1]) ELSE IF line = <<>> THEN Z("INPUT of an empty line into CHAR") ELSE X
    [] ty = TS -> VS(line)
    [] OTHER -> X

\* what a line editor reading from a file shows of the line it has read
Typing(m2, m, line) == IF m.ec /\ m.ii < Len(m.ip) THEN Emit(m2, line \o <<NL>>) ELSE m2
Input(m, n, ix) ==
  LET q == Loc(m, n.p, ix)
      rl == ReadLine(m.ip, m.ii)
      m2 == Typing([m EXCEPT !.ii = rl[2]], m, rl[1])
      typ(mm, r, v) == LET w == Typed(rl[1], TypeOf(v))
                       IN IF IsBad(w) THEN Stop(mm, AtLine(w, n.l)) ELSE SetAt(mm, r, w)
  IN CASE q.k = "loc" ->
            IF q.v.k = "A" THEN Fail(m, n.l)
            ELSE IF IsConst(m, q.r) THEN Fail(m, n.l)
            ELSE typ(m2, q.r, q.v)
       [] q.k = "ND" -> IF n.p.s # <<>> THEN Fail(m, n.p.l)
                        ELSE IF IsTypeName(m, n.p.n) THEN Fail(m, n.p.l)
                        ELSE IF m.ped THEN FailPed(m, n.p.l)
                        ELSE NewVar(m2, n.p.n, VS(rl[1]))
       [] OTHER -> IF ix # <<>> THEN Unspec(m, "impure path") ELSE Stop(m, q)

----------------------------------------------------------------------------
(* standard output *)
TypeText(t) == Codes(t[2])
OBJECT == <<32, 111, 98, 106, 101, 99, 116>>
LiteralText(m, v) == Codes(DefOf(m, v.t).vs[v.i + 1])
RealText(v) == FmtG(v, 10) \o (IF RIsInt(v) THEN <<46, 48>> ELSE <<>>)
OutText(m, v) ==
  CASE v.k = "I" -> ZText(v.z)
    [] v.k = "R" -> RealText(v)
    [] v.k = "B" -> BoolText(v.b)
    [] v.k = "C" -> <<v.c>>
    [] v.k = "S" -> v.s
    [] v.k = "D" -> DateText(v)
    [] v.k = "E" -> LiteralText(m, v)
    [] v.k = "P" \/ v.k = "O" -> TypeText(v.t) \o OBJECT
    [] OTHER -> <<WILD>>
\* what the REPL prints for the value of an expression statement
NameAt(r) == IF r.p = <<>> THEN Codes(r.n)
             ELSE IF r.p[Len(r.p)][1] = "f" THEN Codes(r.p[Len(r.p)][2]) ELSE <<WILD>>
EchoText(m, v) ==
  CASE v.k = "C" -> <<39, v.c, 39>>
    [] v.k = "S" -> <<34>> \o v.s \o <<34>>
    [] v.k = "E" -> TypeText(v.t) \o <<58, 32>> \o LiteralText(m, v)
    [] v.k = "P" -> TypeText(v.t) \o <<58, 32>> \o
                    (IF v.r.a = 0 THEN Codes("null")
                     ELSE IF ~Live(m, v.r) THEN Codes("{DELETED}") ELSE NameAt(v.r))
    [] OTHER -> OutText(m, v)
Echo(m, v) == IF v.k = "N" THEN m ELSE Emit(m, EchoText(m, v) \o <<NL>>)

----------------------------------------------------------------------------
(* files.  dir: name -> [k |-> "text", b] | [k |-> "rec", rs] | [k |-> "raw"] *)
(* hs: name -> [md, pos, bad]; bad: lines of rejected writes not yet reported *)
Handle(md) == [md |-> md, pos |-> IF md = "RANDOM" THEN 1 ELSE 0, bad |-> {}]
Special(m, f) == IF f \in DOMAIN m.sp THEN m.sp[f] ELSE "none"
WithNl(b) == IF b = <<>> \/ b[Len(b)] = NL THEN b ELSE b \o <<NL>>
Open(m, f, md, l) ==
  LET s == Special(m, f)
      ex == f \in DOMAIN m.dir
      h(mm) == [mm EXCEPT !.hs = Put(@, f, Handle(md))]
  IN IF f \in DOMAIN m.hs THEN Fail(m, l)
     ELSE IF f = <<>> \/ f = <<46>> \/ f = <<46, 46>> THEN Fail(m, l)    \* no name, or a directory
     ELSE IF s = "none" /\ (Contains(f, 47) \/ Contains(f, 0) \/ Len(f) > 255) THEN Unspec(m, "path")
     ELSE IF s = "deny" THEN Fail(m, l)         \* directory, missing directory, no permission
     ELSE IF s = "full" THEN IF md \in {"WRITE", "APPEND"} THEN h([m EXCEPT !.dir = Put(@, f, [k |-> "full"])])
                             ELSE Unspec(m, "special file")
     ELSE IF s # "none" THEN Unspec(m, "special file")
     ELSE CASE md = "READ" -> IF ~ex THEN Fail(m, l) ELSE IF m.dir[f].k # "text" THEN Unspec(m, "opaque file") ELSE h(m)
            [] md = "WRITE" -> h([m EXCEPT !.dir = Put(@, f, [k |-> "text", b |-> <<>>])])
            [] md = "APPEND" -> IF ~ex THEN Fail(m, l) ELSE IF m.dir[f].k # "text" THEN Unspec(m, "opaque file") ELSE h(m)
            [] OTHER -> IF ~ex \/ (m.dir[f].k = "text" /\ m.dir[f].b = <<>>)
                        THEN h([m EXCEPT !.dir = Put(@, f, [k |-> "rec", rs |-> <<>>])])
                        ELSE IF m.dir[f].k # "rec" THEN Unspec(m, "not a random file") ELSE h(m)

\* a file name value: S, X (wrong type) or Z
FName(v) == IF KindOf(v) # "S" THEN X ELSE IF IsU(v) THEN Z("file name") ELSE v

Close(m, f, l) ==
  IF f \notin DOMAIN m.hs THEN Fail(m, l)
  ELSE IF m.hs[f].bad # {} THEN FailT([m EXCEPT !.hs = Del(@, f)], m.hs[f].bad \cup {l}, FALSE)
  ELSE [m EXCEPT !.hs = Del(@, f)]

ReadF(m, n, f) ==
  LET o == Owner(m, n.n)
      r == BaseRef(m, o, n.n)
      rl == ReadLine(m.dir[f].b, m.hs[f].pos)
      m2 == [m EXCEPT !.hs[f].pos = rl[2]]
  IN IF f \notin DOMAIN m.hs THEN Fail(m, n.l)
     ELSE IF m.hs[f].md # "READ" THEN Fail(m, n.l)
     ELSE IF o # 0 /\ ValAt(m, r).k = "A" THEN Unspec(m, "READFILE into array")
     ELSE IF o # 0 /\ TypeOf(ValAt(m, r)) # TS THEN Fail(m, n.l)
     ELSE IF o # 0 /\ IsConst(m, r) THEN Fail(m, n.l)
     ELSE IF o # 0 THEN SetAt(m2, r, VS(rl[1]))
     ELSE IF IsTypeName(m, n.n) THEN Unspec(m, "READFILE into a type name")
     ELSE NewVar(m2, n.n, VS(rl[1]))

WriteF(m, f, v, l) ==
  IF KindOf(v) \notin {"I", "R", "B", "C", "S", "D"} THEN Fail(m, l)
  ELSE IF IsU(v) THEN Unspec(m, "WRITEFILE of an unknown value")
  ELSE IF m.dir[f].k = "full" /\ m.rp THEN Unspec(m, "rejected write in a session")
  ELSE IF m.dir[f].k = "full" THEN [m EXCEPT !.hs[f].bad = @ \cup {l}]
  ELSE [m EXCEPT !.dir[f].b = (IF m.hs[f].md = "APPEND" THEN WithNl(@) ELSE @) \o StrOf(v) \o <<NL>>]

\* does the type contain a pointer, or the value something undetermined
RECURSIVE HasK(_, _)
HasK(v, k) == CASE v.k = k -> TRUE
                [] v.k = "O" -> \E x \in DOMAIN v.f : HasK(v.f[x], k)
                [] v.k = "A" -> \E i \in DOMAIN v.e : HasK(v.e[i], k)
                [] OTHER -> FALSE
\* records are stored by type names, not by activation
RECURSIVE Ser(_), Load(_, _)
Ser(v) == CASE v.k = "E" -> [k |-> "e", n |-> v.t[2], i |-> v.i]
            [] v.k = "O" -> [k |-> "o", n |-> v.t[2], f |-> TLCEval([x \in DOMAIN v.f |-> Ser(v.f[x])])]
            [] v.k = "A" -> [k |-> "a", d |-> v.d, e |-> TLCEval([i \in DOMAIN v.e |-> Ser(v.e[i])])]
            [] OTHER -> v
\* the stored record s as the new content of v; X if the types differ
Load(v, s) ==
  CASE v.k = "E" -> IF s.k = "e" /\ s.n = v.t[2] THEN [v EXCEPT !.i = s.i]
                    ELSE IF s.k = "U" THEN (IF s.t[1] = "E" /\ s.t[2] = v.t[2] THEN UV(v.t) ELSE X) ELSE X
    [] v.k = "O" -> IF s.k # "o" THEN X
                    ELSE IF s.n # v.t[2] THEN X
                    ELSE IF DOMAIN s.f # DOMAIN v.f THEN Z("record layout changed")
                    ELSE LET f == TLCEval([x \in DOMAIN v.f |-> Load(v.f[x], s.f[x])])
                         IN IF \E x \in DOMAIN f : f[x].k = "X" THEN X
                            ELSE IF \E x \in DOMAIN f : f[x].k = "Z" THEN Z("record layout changed")
                            ELSE [v EXCEPT !.f = f]
    [] v.k = "A" -> IF s.k # "a" THEN X
                    ELSE IF DOMAIN s.e # DOMAIN v.e THEN X
                    ELSE IF s.d # v.d THEN Z("array shape changed")
                    ELSE LET e == TLCEval([i \in DOMAIN v.e |-> Load(v.e[i], s.e[i])])
                         IN IF \E i \in DOMAIN e : e[i].k = "X" THEN X
                            ELSE IF \E i \in DOMAIN e : e[i].k = "Z" THEN Z("array shape changed")
                            ELSE [v EXCEPT !.e = e]
    [] OTHER -> IF s.k \in {"e", "o", "a"} THEN X ELSE IF TypeOf(s) = TypeOf(v) THEN s ELSE X

Seek(m, f, z, l) ==
  IF f \notin DOMAIN m.hs THEN Fail(m, l)
  ELSE IF m.hs[f].md # "RANDOM" THEN Fail(m, l)
  ELSE IF Sat(z) > Len(m.dir[f].rs) + 1 THEN Fail(m, l)
  ELSE [m EXCEPT !.hs[f].pos = Sat(z)]

Rec(m, n, f) ==
  LET o == Owner(m, n.n)
      r == BaseRef(m, o, n.n)
      v == ValAt(m, r)
      pos == m.hs[f].pos
      rs == m.dir[f].rs
      x == Load(v, rs[pos])
  IN IF f \notin DOMAIN m.hs THEN Fail(m, n.l)
     ELSE IF m.hs[f].md # "RANDOM" THEN Fail(m, n.l)
     ELSE IF o = 0 THEN Fail(m, n.l)
     ELSE IF n.t = "getr" /\ IsConst(m, r) THEN Fail(m, n.l)
     ELSE IF v.k = "P" \/ (v.k = "A" /\ v.ty[1] = "P") THEN Fail(m, n.l)
     ELSE IF HasK(v, "P") THEN Unspec(m, "pointer inside a record")
     ELSE IF n.t = "putr"
     THEN IF HasK(v, "U") THEN Unspec(m, "PUTRECORD of an unknown value")
          ELSE [m EXCEPT !.dir[f].rs = IF pos > Len(rs) THEN Append(rs, Ser(v)) ELSE [rs EXCEPT ![pos] = Ser(v)]]
     ELSE IF pos > Len(rs) THEN Fail(m, n.l)
     ELSE IF x.k = "X" THEN Fail(m, n.l) ELSE IF x.k = "Z" THEN Unspec(m, x.w) ELSE SetAt(m, r, x)

----------------------------------------------------------------------------
(* declarations *)
RECURSIVE DeclNames(_, _, _, _)
DeclNames(m, n, ty, i) ==
  IF i > Len(n.ns) \/ m.st # "run" THEN m
  ELSE LET x == n.ns[i]
           d == Default(m, ty, 0)
       IN IF HasVar(m, m.a, x) THEN (IF m.fr[m.a].vs[x].r.a = 0 /\ m.fr[m.a].vs[x].v.k = "A"
                                     THEN Unspec(m, "variable and array of one name") ELSE Fail(m, n.l))
          ELSE IF IsTypeName(m, x) THEN Fail(m, n.l)
          ELSE IF ty = NOTYPE THEN Fail(m, n.l)
          ELSE IF IsBad(d) THEN StopD(m, d, n.l)
          ELSE DeclNames(NewVar(m, x, d), n, ty, i + 1)

\* bs: the bound values, checked from left to right before anything is created
RECURSIVE DimsOf(_, _, _)
DimsOf(bs, i, acc) ==
  IF i > Len(bs) THEN [k |-> "dims", d |-> acc]
  ELSE IF KindOf(bs[i]) # "I" \/ KindOf(bs[i + 1]) # "I" THEN X
  ELSE IF IsU(bs[i]) \/ IsU(bs[i + 1]) THEN Z("bound")
  ELSE IF ZCmp(bs[i + 1].z, bs[i].z) < 0 THEN X
  ELSE IF ~ZSmall(bs[i].z) \/ ~ZSmall(bs[i + 1].z) THEN Z("array size")
  ELSE IF bs[i + 1].z[1] - bs[i].z[1] > 1000000 THEN Z("array size")
  ELSE DimsOf(bs, i + 2, Append(acc, <<bs[i].z[1], bs[i + 1].z[1]>>))

RECURSIVE ArrNames(_, _, _, _)
ArrNames(m, n, v, i) ==
  IF i > Len(n.ns) \/ m.st # "run" THEN m
  ELSE IF HasVar(m, m.a, n.ns[i]) THEN Unspec(m, "duplicate array name")
  ELSE ArrNames(NewVar(m, n.ns[i], v), n, v, i + 1)
DeclArr(m, n, bs) ==
  LET d == DimsOf(bs, 1, <<>>)
      ty == ResolveTy(m, m.a, n.ty)
      v == NewArray(m, d.d, ty, 0)
  IN IF d.k = "X" THEN Fail(m, n.l)
     ELSE IF d.k = "Z" THEN Unspec(m, d.w)
     ELSE IF ty = NOTYPE THEN Fail(m, n.l)
     ELSE IF IsBad(v) THEN StopD(m, v, n.l)
     ELSE ArrNames(m, n, v, 1)

Clash(m, x) == HasVar(m, m.a, x) \/ IsTypeName(m, x)
DefType(m, n, def) ==
  IF n.n \in DOMAIN m.fr[m.a].ty \/ n.n \in DOMAIN m.fr[m.a].en THEN Fail(m, n.l)
  ELSE IF Clash(m, n.n) THEN Unspec(m, "type name already in use")
  ELSE [m EXCEPT !.fr[m.a].ty = Put(@, n.n, def)]
DefEnum(m, n) ==
  LET m2 == DefType(m, n, [k |-> "E", vs |-> n.vs])
  IN IF m2.st # "run" THEN m2
     ELSE IF \/ \E i \in 1..Len(n.vs) : Clash(m, n.vs[i]) \/ n.vs[i] = n.n
             \/ \E i, j \in 1..Len(n.vs) : i # j /\ n.vs[i] = n.vs[j]
     THEN Unspec(m, "enum literal already in use")
     ELSE [m2 EXCEPT !.fr[m.a].en =
             TLCEval([x \in {n.vs[i] : i \in 1..Len(n.vs)} |->
                [k |-> "E", t |-> <<"E", n.n, m.a>>, i |-> (CHOOSE i \in 1..Len(n.vs) : n.vs[i] = x) - 1]]) @@ @]
DefPtr(m, n) ==
  LET t == ResolveTy(m, m.a, n.ty)
  IN IF t = NOTYPE THEN (IF n.n = n.ty[2] THEN Unspec(m, "pointer to itself") ELSE Fail(m, n.l))
     ELSE DefType(m, n, [k |-> "P", ty |-> t])

DefProc(m, n) ==
  LET bad == {i \in 1..Len(n.ps) : ResolveTy(m, m.a, n.ps[i].ty) = NOTYPE}
      isf == n.t = "func"
      rt == IF isf THEN ResolveTy(m, m.a, n.ret) ELSE NOTYPE
      clash == n.n \in DOMAIN m.pr
  IN IF clash /\ (m.pr[n.n].fn = isf) THEN Fail(m, n.l)
     ELSE IF clash THEN Unspec(m, "procedure and function of one name")
     ELSE IF n.n \in DOMAIN BUILTINS /\ isf THEN Fail(m, n.l)
     ELSE IF n.n \in DOMAIN BUILTINS THEN Unspec(m, "procedure named as a built-in")
     ELSE IF isf /\ rt = NOTYPE THEN Fail(m, n.l)
     ELSE IF bad # {} THEN Fail(m, n.l)
     ELSE [m EXCEPT !.pr = Put(@, n.n,
             [fn |-> isf, rt |-> rt, b |-> n.b, l |-> n.l,
              ps |-> TLCEval([i \in 1..Len(n.ps) |-> [n |-> n.ps[i].n, r |-> n.ps[i].r, ty |-> ResolveTy(m, m.a, n.ps[i].ty)]])])]

TakePtr(m, n) ==
  LET a == Loc(m, n.p, <<>>)
      b == Loc(m, n.q, <<>>)
  IN IF ~PathPure(n.p) \/ ~PathPure(n.q) THEN Unspec(m, "impure path in pointer assignment")
     ELSE IF a.k = "ND" THEN Fail(m, n.p.l)
     ELSE IF IsBad(a) THEN Stop(m, a)
     ELSE IF a.v.k = "A" THEN Fail(m, n.l)
     ELSE IF b.k = "ND" THEN Fail(m, n.q.l)
     ELSE IF IsBad(b) THEN Stop(m, b)
     ELSE IF a.v.k # "P" \/ b.v.k = "A" THEN Fail(m, n.l)
     ELSE IF IsConst(m, a.r) THEN Fail(m, n.l)
     ELSE IF DefOf(m, a.v.t).ty # TypeOf(b.v) THEN Fail(m, n.l)
     ELSE SetAt(m, a.r, [a.v EXCEPT !.r = b.r])

----------------------------------------------------------------------------
(* CASE *)
CaseEq(v, w) ==
  IF IsNumK(KindOf(v)) /\ IsNumK(KindOf(w)) THEN Compare("=", v, w)
  ELSE IF v.k = "N" \/ w.k = "N" THEN Z("case value")
  ELSE IF KindOf(v) # KindOf(w) THEN VB(FALSE)
  ELSE IF KindOf(v) \in {"P", "O"} THEN Z("case of pointers or records")
  ELSE Compare("=", v, w)
CaseRng(v, lo, hi) ==
  LET kv == KindOf(v)
      kl == KindOf(lo)
      kh == KindOf(hi)
  IN IF IsNumK(kv) THEN (IF ~IsNumK(kl) \/ ~IsNumK(kh) THEN Z("case range type")
                         ELSE Logic("AND", Compare("<=", lo, v), Compare("<=", v, hi)))
     ELSE IF kv \in {"C", "D"} /\ kl = kv /\ kh = kv
          THEN Logic("AND", Compare("<=", lo, v), Compare("<=", v, hi))
     ELSE Z("case range type")
\* clause i of node n for value v
Clause(m, n, i, v) ==
  IF i > Len(n.cs) THEN m
  ELSE LET c == n.cs[i]
       IN CASE c.k = "oth" -> PushK(m, <<"blk", c.b, 1>>)
            [] c.k = "eq" -> Ev(m, c.e, <<"case1", n, i, v>>)
            [] ~IsNumK(KindOf(v)) /\ KindOf(v) \notin {"C", "D"} -> Unspec(m, "case range type")
            [] OTHER -> EvAll(m, <<c.lo, c.hi>>, <<"case2", n, i, v>>)
CaseHit(m, n, i, v, r) ==
  IF r.k = "Z" THEN Unspec(m, r.w)
  ELSE IF IsU(r) THEN Unspec(m, "case on an unknown value")
  ELSE IF r.b THEN PushK(m, <<"blk", n.cs[i].b, 1>>)
  ELSE Clause(m, n, i + 1, v)

\* top value v is a condition: continue with yes or no
Cond(m, v, lines, yes, no) ==
  IF KindOf(v) # "B" THEN FailT(m, lines, FALSE)
  ELSE IF IsU(v) THEN Unspec(m, "condition on an unknown value")
  ELSE IF v.b THEN yes ELSE no

\* FOR: iterator location r, remaining test
ForTest(m, n, r, z, s) ==
  LET v == ValAt(m, r)
      c == ZCmp(v.z, z)
  IN IF v.k # "I" THEN Unspec(m, "iterator unknown")
     ELSE IF (ZSign(s) > 0 /\ c > 0) \/ (ZSign(s) < 0 /\ c < 0) THEN m
     ELSE PushK(PushK(m, <<"for", n, r, z, s>>), <<"blk", n.b, 1>>)

----------------------------------------------------------------------------
(* one statement *)
Exec(m, n) ==
  CASE n.t = "decl" -> DeclNames(m, n, ResolveTy(m, m.a, n.ty), 1)
    [] n.t = "arr" -> IF \E i \in 1..Len(n.ns) : HasVar(m, m.a, n.ns[i]) /\ m.fr[m.a].vs[n.ns[i]].r.a = 0
                            /\ m.fr[m.a].vs[n.ns[i]].v.k = "A" THEN Fail(m, n.l)
                      ELSE IF \E i \in 1..Len(n.ns) : Clash(m, n.ns[i]) THEN Unspec(m, "array name already in use")
                      ELSE EvAll(m, n.b, <<"arr", n>>)
    [] n.t = "const" -> LET v == Pure(m, n.e)
                        IN IF IsBad(v) THEN Stop(m, v)
                           ELSE IF HasVar(m, m.a, n.n)
                           THEN (IF m.fr[m.a].vs[n.n].r.a = 0 /\ m.fr[m.a].vs[n.n].v.k = "A"
                                 THEN Unspec(m, "constant and array of one name") ELSE Fail(m, n.l))
                           ELSE IF IsTypeName(m, n.n) THEN Unspec(m, "constant named as a type")
                           ELSE [m EXCEPT !.fr[m.a].vs = Put(@, n.n, [Cell(v) EXCEPT !.c = TRUE])]
    [] n.t = "ptype" -> DefPtr(m, n)
    [] n.t = "etype" -> DefEnum(m, n)
    [] n.t = "rtype" -> DefType(m, n, [k |-> "O", b |-> n.b])
    [] n.t = "if" -> Ev(m, n.cs[1].c, <<"if", n, 1>>)
    [] n.t = "case" -> Ev(m, n.v, <<"case", n>>)
    [] n.t = "while" -> Ev(m, n.c, <<"wh2", n>>)
    [] n.t = "repeat" -> PushK(PushK(m, <<"rep", n>>), <<"blk", n.b, 1>>)
    [] n.t = "for" ->
         LET o == Owner(m, n.n)
             m2 == IF o = 0 THEN NewVar(m, n.n, VI(Z0)) ELSE m
             r == BaseRef(m2, IF o = 0 THEN m.a ELSE o, n.n)
         IN IF o = 0 /\ IsTypeName(m, n.n) THEN Unspec(m, "iterator named as a type")
            ELSE IF ValAt(m2, r).k = "A" THEN Unspec(m, "iterator named as an array")
            ELSE IF TypeOf(ValAt(m2, r)) # TI THEN Fail(m, n.l)
            ELSE IF IsConst(m2, r) THEN Fail(m, n.l)
            ELSE Ev(m2, n.a, <<"for1", n, r>>)
    [] n.t = "callp" -> IF ~UserFn(m, n.n) \/ m.pr[n.n].fn THEN Fail(m, n.l)
                        ELSE EvAll(PushK(m, <<"drop">>), RefArgs(m, n), <<"inv", n>>)
    [] n.t \in {"proc", "func"} -> DefProc(m, n)
    [] n.t = "out" -> PushK(m, <<"out", n, 1>>)
    [] n.t = "inp" -> WithLoc(m, n.p, <<"inp", n>>)
    [] n.t = "open" -> Ev(m, n.f, <<"open", n>>)
    [] n.t \in {"readf", "getr", "putr", "closef", "writef"} -> Ev(m, n.f, <<n.t, n>>)
    [] n.t = "seek" -> Ev(m, n.e, <<"seek", n>>)
    [] n.t = "ret" -> IF ~m.fr[m.a].fn THEN Fail(m, n.l) ELSE Ev(m, n.e, <<"ret1", n>>)
    [] n.t = "brk" -> LET k == Unwind(m.k, LOOPS \cup {"ret"})
                      IN IF k = <<>> \/ k[1][1] = "ret" THEN Fail(m, n.l) ELSE [m EXCEPT !.k = k[2]]
    [] n.t = "cont" -> LET k == Unwind(m.k, LOOPS \cup {"ret"})
                       IN IF k = <<>> \/ k[1][1] = "ret" THEN Fail(m, n.l) ELSE [m EXCEPT !.k = k]
    [] n.t = "asg" -> LET e == IF n.e.t = "par" THEN n.e.e ELSE n.e
                          q == IF e.t = "get" /\ PathPure(e.p) THEN Loc(m, e.p, <<>>) ELSE [k |-> "ND"]
                      IN IF q.k = "loc" /\ q.v.k = "A"
                         THEN IF n.e.t = "get" /\ PathPure(n.p) THEN AssignArray(m, n, q, <<>>) ELSE Unspec(m, "array copy form")
                         ELSE Ev(m, n.e, <<"asg", n>>)
    [] n.t = "pasg" -> TakePtr(m, n)
    [] OTHER -> Ev(m, n, <<"drop">>)

\* an expression with calls or assignments, evaluated stepwise
EvalStep(m, n) ==
  CASE n.t = "get" -> LET es == PathIxs(n.p.s, 1) IN EvAll(m, es, <<"get", n, Len(es)>>)
    [] n.t = "par" -> Ev(m, n.e, <<"nop">>)
    [] n.t \in {"un", "cast"} -> Ev(m, n.e, <<n.t, n>>)
    [] n.t = "bin" -> Ev(m, n.a, <<IF n.o = "AND" THEN "and" ELSE "bin1", n>>)
    [] n.t = "call" -> IF n.n \in DOMAIN BUILTINS THEN EvAll(m, n.a, <<"bi", n>>)
                       ELSE IF ~UserFn(m, n.n) \/ ~m.pr[n.n].fn THEN Fail(m, n.l)
                       ELSE EvAll(m, RefArgs(m, n), <<"inv", n>>)
    [] n.t = "ref" -> WithLoc(m, n.p, <<"refl", n>>)
    [] n.t \in {"asg", "pasg"} -> Exec(PushK(m, <<"none">>), n)

Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* items that do not need a value
StepItem(m, it) ==
  LET op == it[1] IN
  CASE op = "blk" -> IF it[3] > Len(it[2]) THEN m
                     ELSE Exec(PushK(m, <<"blk", it[2], it[3] + 1>>), it[2][it[3]])
    [] op = "ev" -> EvalStep(m, it[2])
    [] op = "evs" -> LET n == it[2][it[3]]
                     IN IF it[3] = Len(it[2]) THEN Ev(m, n, <<"nop">>)
                        ELSE Ev(PushK(m, <<"evs", it[2], it[3] + 1>>), n, <<"nop">>)
    [] op = "nop" -> m
    [] op = "none" -> PushV(m, NOVAL)
    [] op = "inv" -> Invoke(m, it[2].n, it[2].a, it[2].l)
    [] op = "ret" -> IF m.fr[m.a].fn THEN FailT(m, {}, FALSE) ELSE Ret(m, NOVAL)
    [] op = "wh" -> Ev(m, it[2].c, <<"wh2", it[2]>>)
    [] op = "rep" -> Ev(m, it[2].c, <<"rep2", it[2]>>)
    [] op = "for" -> LET v == ValAt(m, it[3])
                         w == ZAdd(v.z, it[5])
                     IN IF v.k # "I" THEN Unspec(m, "iterator unknown")
                        ELSE IF ~In64(w) THEN Unspec(m, "iterator overflow")
                        ELSE ForTest(SetAt(m, it[3], VI(w)), it[2], it[3], it[4], it[5])
    [] op = "out" -> IF it[3] > Len(it[2].es) THEN Emit(m, <<NL>>)
                     ELSE Ev(m, it[2].es[it[3]], <<"out2", it[2], it[3]>>)
    [] op = "inp" -> Input(m, it[2], it[3])
    [] op = "refl" -> LET q == Loc(m, it[2].p, it[3])
                      IN IF q.k = "loc" THEN (IF q.v.k = "A" THEN Fail(m, it[2].l)
                                              ELSE PushV(m, [k |-> "L", r |-> q.r, ty |-> TypeOf(q.v)]))
                         ELSE IF q.k = "ND" THEN Fail(m, it[2].p.l)
                         ELSE IF it[3] # <<>> THEN Unspec(m, "impure path") ELSE Stop(m, q)
    [] op = "asgl" -> AssignTo(m, it[2], it[3], it[4])
    [] op = "arr" -> LET tk == TakeV(m.vs, Len(it[2].b), <<>>) IN DeclArr([m EXCEPT !.vs = tk[2]], it[2], tk[1])
    [] op = "bi" -> LET tk == TakeV(m.vs, Len(it[2].a), <<>>)
                        m2 == [m EXCEPT !.vs = tk[2]]
                        r == IF it[2].n = "EOF" THEN EofVal(m, tk[1], it[2].l) ELSE Builtin(it[2].n, tk[1], it[2].l)
                    IN IF IsBad(r) THEN Stop(m, r) ELSE PushV(m2, r)
    [] op = "get" -> LET tk == TakeV(m.vs, it[3], <<>>)
                         m2 == [m EXCEPT !.vs = tk[2]]
                         v == GetVal(m, it[2].p, GroupIxs(it[2].p.s, 1, tk[1]))
                     IN IF IsBad(v) THEN Unspec(m, "impure path") ELSE PushV(m2, v)
    [] op = "grp" -> \* index values of an impure path: hand them to the item below
         LET tk == TakeV(m.vs, it[3], <<>>)
             nx == m.k[1]
         IN [m EXCEPT !.vs = tk[2], !.k = <<nx \o <<GroupIxs(it[2].s, 1, tk[1])>>, m.k[2]>>]
    [] op = "case2" -> LET tk == TakeV(m.vs, 2, <<>>)
                       IN CaseHit([m EXCEPT !.vs = tk[2]], it[2], it[3], it[4], CaseRng(it[4], tk[1][1], tk[1][2]))

VALUEOPS == {"drop", "if", "wh2", "rep2", "for1", "for2", "for3", "out2", "asg", "and", "bin1", "bin2", "un", "cast",
             "ret1", "case", "case1", "open", "readf", "getr", "putr", "closef", "writef", "write2", "seek", "seek2"}
\* items that consume the top value v (already removed from the stack of m)
StepValue(m, it, v) ==
  LET op == it[1]
      n == it[2] IN
  CASE op = "drop" -> IF m.rp THEN Echo(m, v) ELSE m
    [] op = "if" -> LET i == it[3]
                    IN Cond(m, v, {n.l, n.cs[i].c.l}, PushK(m, <<"blk", n.cs[i].b, 1>>),
                            IF i < Len(n.cs) THEN Ev(m, n.cs[i + 1].c, <<"if", n, i + 1>>) ELSE PushK(m, <<"blk", n.e, 1>>))
    [] op = "wh2" -> Cond(m, v, {n.l, n.c.l}, PushK(PushK(m, <<"wh", n>>), <<"blk", n.b, 1>>), m)
    [] op = "rep2" -> Cond(m, v, {n.l, n.c.l}, m, PushK(PushK(m, <<"rep", n>>), <<"blk", n.b, 1>>))
    [] op = "for1" -> IF KindOf(v) # "I" THEN Fail(m, n.l) ELSE Ev(m, n.z, <<"for2", n, it[3], v>>)
    [] op = "for2" -> IF KindOf(v) # "I" THEN Fail(m, n.l) ELSE Ev(m, n.s, <<"for3", n, it[3], it[4], v>>)
    [] op = "for3" -> IF KindOf(v) # "I" THEN Fail(m, n.l)
                      ELSE IF IsU(v) \/ IsU(it[4]) \/ IsU(it[5]) THEN Unspec(m, "FOR over an unknown value")
                      ELSE IF v.z = Z0 THEN Unspec(m, "STEP 0")
                      ELSE IF ~Live(m, it[3]) THEN Unspec(m, "iterator gone")
                      ELSE ForTest(SetAt(m, it[3], it[4]), n, it[3], it[5].z, v.z)
    [] op = "out2" -> IF v.k = "N" THEN Fail(m, n.l) ELSE PushK(Emit(m, OutText(m, v)), <<"out", n, it[3] + 1>>)
    [] op = "asg" -> IF PathPure(n.p) THEN AssignTo(m, n, v, <<>>) ELSE WithLoc(m, n.p, <<"asgl", n, v>>)
    [] op = "and" -> IF v.k = "B" /\ ~v.b THEN PushV(m, v)
                     ELSE IF KindOf(v) = "B" /\ IsU(v) THEN Unspec(m, "AND on an unknown value")
                     ELSE Ev(m, n.b, <<"bin2", n, v>>)
    [] op = "bin1" -> Ev(m, n.b, <<"bin2", n, v>>)
    [] op = "bin2" -> LET r == AtLine(BinOp(n.o, it[3], v, m.dm, m.fr), n.l) IN IF IsBad(r) THEN Stop(m, r) ELSE PushV(m, r)
    [] op = "un" -> LET r == AtLine(UnOp(n.o, v), n.l) IN IF IsBad(r) THEN Stop(m, r) ELSE PushV(m, r)
    [] op = "cast" -> LET r == AtLine(Cast(n.ty, v), n.l) IN IF IsBad(r) THEN Stop(m, r) ELSE PushV(m, r)
    [] op = "ret1" -> LET c == Conv(v, m.fr[m.a].rt)
                          k == Unwind(m.k, {"ret"})
                      IN IF v.k = "N" THEN Fail(m, n.l)
                         ELSE IF c.k = "M" THEN Fail(m, n.l) ELSE IF c.k = "Z" THEN Unspec(m, c.w)
                         ELSE Ret([m EXCEPT !.k = k[2]], c)
    [] op = "case" -> Clause(m, n, 1, v)
    [] op = "case1" -> CaseHit(m, n, it[3], it[4], CaseEq(it[4], v))
    [] op = "seek" -> IF KindOf(v) # "I" THEN Fail(m, n.l)
                      ELSE IF IsU(v) THEN Unspec(m, "SEEK")
                      ELSE IF ZSign(v.z) <= 0 THEN Fail(m, n.l)
                      ELSE Ev(m, n.f, <<"seek2", n, v>>)
    [] op = "write2" -> WriteF(m, it[3], v, n.l)
    [] OTHER ->   \* file statements: v is the file name
         LET f == FName(v)
         IN IF IsBad(f) THEN Stop(m, AtLine(f, n.l))
            ELSE CASE op = "open" -> Open(m, f.s, n.md, n.l)
                   [] op = "closef" -> Close(m, f.s, n.l)
                   [] op = "readf" -> ReadF(m, n, f.s)
                   [] op \in {"getr", "putr"} -> Rec(m, n, f.s)
                   [] op = "seek2" -> Seek(m, f.s, it[3].z, n.l)
                   [] op = "writef" -> IF f.s \notin DOMAIN m.hs THEN Fail(m, n.l)
                                       ELSE IF m.hs[f.s].md \notin {"WRITE", "APPEND"} THEN Fail(m, n.l)
                                       ELSE Ev(m, n.e, <<"write2", n, f.s>>)

\* one transition of a running machine
Step(m) ==
  IF m.k = <<>> THEN [m EXCEPT !.st = "done"]
  ELSE LET it == m.k[1]
       IN IF it[1] \in VALUEOPS THEN StepValue([m EXCEPT !.k = m.k[2], !.vs = m.vs[2]], it, m.vs[1])
          ELSE StepItem(Pop(m), it)
StepIf(m, k) == IF m.st = "run" THEN Step(m) ELSE m
\* up to Len(ks) transitions
StepN(m, ks) == Fold(StepIf, m, ks)

----------------------------------------------------------------------------
\* a fresh interpreter; dir, stdin, special paths and configuration given
Boot(dir, sp, ip, ped, dm) ==
  [st |-> "run", k |-> <<>>, vs |-> <<>>, fr |-> (1 :> Frame("Program", FALSE, NOTYPE, 0, 0)), a |-> 1, g |-> 1, na |-> 1,
   pr |-> <<>>, hs |-> <<>>, dir |-> dir, sp |-> sp, ip |-> ip, ii |-> 0, em |-> <<>>, ec |-> FALSE, er |-> [k |-> "none"],
   rp |-> FALSE, ped |-> ped, dm |-> dm, cap |-> 5000, depth |-> 400]
Begin(m, block) == [m EXCEPT !.st = "run", !.k = << <<"blk", block, 1>>, <<>> >>, !.vs = <<>>, !.a = m.g]

\* Invariants of every reachable machine state (checked while traces are validated)
RECURSIVE WellTyped(_, _)
WellTyped(m, v) ==
  CASE v.k = "I" -> In64(v.z)
    [] v.k = "E" -> v.i >= 0 /\ v.i < NV(m.fr, v.t)
    [] v.k = "D" -> ValidDM(v.d, v.m, v.y)
    [] v.k = "O" -> \A x \in DOMAIN v.f : WellTyped(m, v.f[x])
    [] v.k = "A" -> Len(v.e) = Cells(v.d) /\ \A i \in DOMAIN v.e : TypeOf(v.e[i]) = v.ty
    [] OTHER -> v.k # "N"
StoreOK(m) == \A a \in DOMAIN m.fr : \A x \in DOMAIN m.fr[a].vs :
                LET c == m.fr[a].vs[x] IN IF c.r.a # 0 THEN c.r.a \in DOMAIN m.fr ELSE WellTyped(m, c.v)
FilesOK(m) == \A f \in DOMAIN m.hs : f \in DOMAIN m.dir /\
                (m.hs[f].md = "RANDOM" => m.hs[f].pos \in 1..(Len(m.dir[f].rs) + 1))
MachineInv(m) == StoreOK(m) /\ FilesOK(m) /\ m.ii <= Len(m.ip)
=============================================================================
