"""Random programs covering the whole language.  A program is a list of top-level
entries, an entry is a list of lines (one statement, possibly spanning lines)."""

PRIM = ["INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING"]


def tname(t):
    return t if isinstance(t, str) else t[1]


class Gen:
    def __init__(self, rng, ped=False, perr=0.0, files=False, inputs=False, loops=True, calls=True, types=True, ptrs=True,
                 size=14, maxdepth=3, dates=True, fprefix="f"):
        self.rng, self.ped, self.perr = rng, ped, perr
        self.files, self.loops, self.calls, self.types, self.ptrs, self.dates = files, loops, calls, types, ptrs and types, dates
        self.inputs = inputs
        self.size, self.maxdepth = size, maxdepth
        self.enums, self.recs, self.ptypes, self.procs, self.funcs = {}, {}, {}, {}, {}
        self.g = {}          # global variables: name -> ("S", t) | ("A", dims, t)
        self.consts = {}     # global constants
        self.l = None        # local variables inside a procedure
        self.ro = set()      # loop counters: not to be assigned
        self.n = 0
        self.handles = {}    # file -> mode, as far as known
        self.fprefix = fprefix
        self.unset = set()

    # -------------------------------------------------------------- names
    def fresh(self, base):
        self.n += 1
        return "%s%d" % (base, self.n)

    def vname(self):
        return self.fresh(self.rng.choice(["v", "x", "total", "Num", "my_var", "q", "IFx", "FORM", "To", "ENDed", "i", "outPUT", "PRINTER", "TYPEs", "CASEs"]))

    def R(self, p):
        return self.rng.random() < p

    # -------------------------------------------------------------- types
    def alltypes(self, comp=True):
        ts = PRIM[:]
        if self.enums:
            ts += [("E", n) for n in self.enums]
        if comp:
            ts += [("O", n) for n in self.recs]
        return ts

    def typedef(self):
        r = self.rng
        k = r.choice("EOOP" if self.ptrs else "EO")
        if k == "E":
            n = self.fresh("Col")
            self.enums[n] = [self.fresh(r.choice(["red", "Mon", "lit", "E"])) for _ in range(r.randint(1, 5))]
            return ["TYPE %s = (%s)" % (n, ", ".join(self.enums[n]))]
        if k == "O":
            n = self.fresh("Rec")
            fs = []
            out = ["TYPE " + n]
            for _ in range(r.randint(1, 4)):
                t = r.choice(self.alltypes())
                f = self.fresh("fld")
                if self.R(0.3):
                    d = self.dims(3)
                    fs.append((f, ("A", d, t)))
                    out.append("    DECLARE %s : ARRAY[%s] OF %s" % (f, self.dimtext(d), tname(t)))
                else:
                    fs.append((f, ("S", t)))
                    out.append("    DECLARE %s : %s" % (f, tname(t)))
            self.recs[n] = fs
            return out + ["ENDTYPE"]
        n = self.fresh("Ptr")
        t = r.choice(self.alltypes())
        self.ptypes[n] = t
        return ["TYPE %s = ^%s" % (n, tname(t))]

    def dims(self, mx=5):
        r = self.rng
        out = []
        for _ in range(r.choice([1, 1, 1, 2])):
            lo = r.choice([1, 1, 0, -1, 3])
            out.append((lo, lo + r.randint(0, mx - 1)))
        return tuple(out)

    def dimtext(self, d):
        return ", ".join("%d:%d" % x for x in d)

    # -------------------------------------------------------------- paths
    def visible(self, writable):
        vs = dict(self.g)
        if not writable:
            vs.update(self.consts)
        if self.l is not None:
            vs.update(self.l)
        return {n: v for n, v in vs.items() if not (writable and n in self.ro)}

    def cands(self, t, writable):
        out = []

        def rec(name, steps, v, depth):
            if v[0] == "A":
                rec(name, steps + [("i", v[1])], ("S", v[2]), depth)
                return
            vt = v[1]
            if vt == t:
                out.append((name, steps))
            if depth >= 3 or isinstance(vt, str):
                return
            if vt[0] == "O":
                for f, fv in self.recs[vt[1]]:
                    rec(name, steps + [("f", f)], fv, depth + 1)
            elif vt[0] == "P" and not steps and name not in self.unset:
                rec(name, steps + [("d",)], ("S", self.ptypes[vt[1]]), depth + 1)
        for n, v in self.visible(writable).items():
            rec(n, [], v, 0)
        return out

    def index(self, d):
        r = self.rng
        out = []
        for lo, hi in d:
            k = r.randint(lo, hi)
            if self.R(self.perr):
                k = r.choice([lo - 1, hi + 1, hi + 2, lo - 3])
            x = str(k) if k >= 0 or self.R(0.5) else "(0 - %d)" % -k
            if self.R(0.15):
                x = "%s + %d" % (k - 1 if k >= 1 else "-" + str(-(k - 1)), 1)
            lv = [n for n, v in self.visible(False).items() if n in self.ro and v == ("S", "INTEGER")]
            if lv and self.R(0.2) and lo >= 0:
                # fold a loop counter into the range
                x = "%d + (%s * %s) MOD %d" % (lo, lv[0], lv[0], hi - lo + 1)
            out.append(x)
        if self.R(self.perr * 0.5):
            out.append("1")
        return ", ".join(out)

    def text(self, c):
        s = c[0]
        for st in c[1]:
            s += "[" + self.index(st[1]) + "]" if st[0] == "i" else "." + st[1] if st[0] == "f" else "^"
        return s

    def path(self, t, writable=False):
        cs = self.cands(t, writable)
        return self.text(self.rng.choice(cs)) if cs else None

    # -------------------------------------------------------------- expressions
    def lit(self, t):
        r = self.rng
        if t == "INTEGER":
            return str(r.choice([0, 1, 2, 3, 5, 9, 12, 100, r.randint(0, 999)]))
        if t == "REAL":
            return r.choice(["0.5", "1.25", "2.0", "10.75", "0.1", "99.9", "3.14"])
        if t == "BOOLEAN":
            return r.choice(["TRUE", "FALSE"])
        if t == "CHAR":
            return r.choice(["'a'", "'Z'", "' '", "'\\n'", "'9'", "'\\''", "'/'"])
        if t == "STRING":
            return r.choice(['""', '"abc"', '"x"', '"Hello World"', '"12"', '"a//b"', '"it\'s"', '"tab\\tq\\""', '"-7.5"'])
        if t == "DATE":
            return "%d/%d/%d" % (r.randint(1, 28), r.randint(1, 12), r.choice([1999, 2000, 2024, 1, 1600]))
        if t[0] == "E":
            return r.choice(self.enums[t[1]])
        return None

    def wrongtype(self, t):
        return self.rng.choice([x for x in PRIM if x != t])

    def call(self, t, d):
        cs = [n for n, f in self.funcs.items() if f[1] == t]
        if not cs or not self.calls or self.infunc_nocall:
            return None
        n = self.rng.choice(cs)
        a = self.args(self.funcs[n][0], d)
        return "%s(%s)" % (n, a) if a is not None else None

    infunc_nocall = False

    def args(self, ps, d):
        out = []
        for name, t, ref in ps:
            if ref:
                p = self.path(t, True)
                if p is None:
                    return None
                out.append(p)
            else:
                e = self.expr(t, d - 1)
                if e is None:
                    return None
                out.append(e)
        if self.R(self.perr * 0.5) and out:
            out = out[:-1] if self.R(0.5) else out + ["1"]
        return ", ".join(out)

    def expr(self, t, d=2):
        r = self.rng
        if self.R(self.perr * 0.3) and isinstance(t, str):
            t = self.wrongtype(t)
        if d <= 0 or self.R(0.25):
            p = self.path(t) if self.R(0.7) else None
            return p or self.lit(t) or self.path(t)
        if self.R(0.2):
            c = self.call(t, d)
            if c:
                return c
        g = lambda x: self.expr(x, d - 1)
        P = lambda s: "(" + s + ")"
        if t == "INTEGER":
            k = r.randint(0, 9)
            if k < 4:
                return "%s %s %s" % (P(g("INTEGER")), r.choice("+-"), P(g("INTEGER")))
            if k < 5:
                return "(%s * %d) MOD %d" % (P(g("INTEGER")), r.randint(1, 9), r.choice([7, 100, 1000]))
            if k < 6:
                return "%s %s %d" % (P(g("INTEGER")), r.choice(["DIV", "MOD"]), r.randint(1, 9) if not self.R(self.perr) else 0)
            if k < 7:
                return "LENGTH(%s)" % g("STRING")
            if k < 8 and not self.ped:
                return r.choice(["INTEGER(%s)" % g("BOOLEAN"), "INTEGER(%s)" % g("CHAR"), "INTEGER(\"%d\")" % r.randint(-5, 50)])
            if k < 9:
                return "-" + P(g("INTEGER"))
            return "ASC(%s)" % g("CHAR")
        if t == "REAL":
            k = r.randint(0, 5)
            if k < 3:
                return "%s %s %s" % (P(g("REAL")), r.choice("+-"), P(g(r.choice(["REAL", "INTEGER"]))))
            if k < 4:
                return "%s / %s" % (P(g("INTEGER")), r.choice(["2", "4", "3", "0.5"]))
            if k < 5:
                return "-" + P(g("REAL"))
            return g("REAL")
        if t == "BOOLEAN":
            k = r.randint(0, 6)
            if k < 3:
                x = r.choice(["INTEGER", "INTEGER", "REAL", "CHAR"])
                return "%s %s %s" % (P(g(x)), r.choice(["=", "<>", "<", "<=", ">", ">="]), P(g(x)))
            if k < 4:
                return "NOT " + P(g("BOOLEAN"))
            if k < 6:
                return "%s %s %s" % (P(g("BOOLEAN")), r.choice(["AND", "OR"]), P(g("BOOLEAN")))
            return "%s = %s" % (P(g("STRING")), P(g("STRING")))
        if t == "CHAR":
            return r.choice(["LCASE", "UCASE"]) + P(g("CHAR")) if self.R(0.5) else g("CHAR")
        if t == "STRING":
            k = r.randint(0, 5)
            if k < 3:
                return "LEFT(%s & %s & \"....\", 4)" % (P(g("STRING")), P(g(r.choice(["STRING", "CHAR", "STRING"]))))
            if k < 4:
                return "%s(%s)" % (r.choice(["TO_UPPER", "TO_LOWER"]), g("STRING"))
            if k < 5:
                n = r.randint(0, 3)
                return "LEFT(%s & \"abc\", %d)" % (P(g("STRING")), n if not self.R(self.perr) else r.choice([-1, 99]))
            return g("STRING")
        if t == "DATE":
            return self.path(t) or self.lit(t)
        if t[0] == "E":
            if self.R(0.4):
                e = self.path(t) or self.lit(t)
                return "%s %s %d" % (e, r.choice("+-"), r.randint(0, 12))
            return self.path(t) or self.lit(t)
        return self.path(t)

    # -------------------------------------------------------------- statements
    def declare(self, scope):
        """a declaration into scope (a dict); returns lines"""
        r = self.rng
        ts = self.alltypes()
        if self.dates and self.R(0.05):
            n = self.vname()
            out = ["DECLARE %s : DATE" % n]
            out.append("%s <- %s" % (n, self.lit("DATE")))
            scope[n] = ("S", "DATE")
            return out
        if self.ptypes and self.R(0.25):
            pt = r.choice(list(self.ptypes))
            n = self.vname()
            out = ["DECLARE %s : %s" % (n, pt)]
            q = self.path(self.ptypes[pt], True)
            scope[n] = ("S", ("P", pt))
            if q and not self.R(self.perr):
                out.append("%s <- ^%s" % (n, q))
            else:
                self.unset.add(n)
            return out
        t = r.choice(ts)
        n = self.vname()
        if self.R(0.3):
            d = self.dims()
            scope[n] = ("A", d, t)
            return ["DECLARE %s : ARRAY[%s] OF %s" % (n, self.dimtext(d), tname(t))]
        if self.R(0.2):
            n2 = self.vname()
            scope[n], scope[n2] = ("S", t), ("S", t)
            return ["DECLARE %s, %s : %s" % (n, n2, tname(t))]
        if self.R(0.2) and not self.ped and isinstance(t, str):
            e = self.expr(t, 2)
            scope[n] = ("S", t)
            return ["%s <- %s" % (n, e)]
        scope[n] = ("S", t)
        out = ["DECLARE %s : %s" % (n, tname(t))]
        if t == "CHAR":     # the default character is code 0
            out.append("%s <- %s" % (n, self.lit("CHAR")))
        return out

    def assign(self):
        r = self.rng
        t = r.choice(self.alltypes())
        for _ in range(4):
            p = self.path(t, True)
            if p:
                break
            t = r.choice(self.alltypes())
        if not p:
            return self.output()
        e = self.expr(t, 2)
        if e is None:
            return self.output()
        if t == "REAL" and self.R(0.2):
            e = self.expr("INTEGER", 1)
        return ["%s <- %s" % (p, e)]

    def output(self):
        es = []
        for _ in range(self.rng.randint(1, 3)):
            t = self.rng.choice([x for x in self.alltypes(False)])
            e = self.expr(t, 1)
            if e:
                es.append(e)
        es = es or ['"-"']
        return [self.rng.choice(["OUTPUT", "OUTPUT", "PRINT"]) + " " + ", ".join(es)]

    def dump(self):
        """print everything visible that prints"""
        out = []
        for n, v in self.visible(False).items():
            if v[0] == "S" and (isinstance(v[1], str) or v[1][0] == "E"):
                out.append(n)
        cs = [c for t in self.alltypes(False) for c in self.cands(t, False) if c[1]]
        self.rng.shuffle(cs)
        pe, self.perr = self.perr, 0
        out += [self.text(c) for c in cs[:5]]
        self.perr = pe
        out = out[:12]
        return ["OUTPUT " + ", \"|\", ".join(out)] if out else ["OUTPUT \"nothing\""]

    def body(self, depth, n, loop, fn):
        out = []
        for _ in range(n):
            out += self.stmt(depth, loop, fn)
        return ["    " + x for x in out]

    def stmt(self, depth, loop=False, fn=None):
        r = self.rng
        ch = ["asg"] * 6 + ["out"] * 4 + ["arr", "ptr", "call", "call"]
        if depth > 0:
            ch += ["if", "if", "case"]
            if self.loops:
                ch += ["for", "for", "while", "repeat"]
        if loop and not self.ped:
            ch += ["brk"]
        if fn is not None and self.l is not None and depth < self.maxdepth:
            ch += ["ret"]
        if self.inputs:
            ch += ["inp"]
        if self.files and self.l is None:
            ch += ["file", "file"]
        if self.l is not None and depth == self.maxdepth:
            ch += ["ldecl"]
        k = r.choice(ch)
        b = lambda lp: self.body(depth - 1, r.randint(1, 3), lp, fn)
        if k == "asg":
            return self.assign()
        if k == "out":
            return self.output()
        if k == "inp":
            p = self.path(r.choice(["STRING", "STRING", "INTEGER", "REAL"]), True)
            return ["INPUT " + p] if p else self.output()
        if k == "arr":
            vs = [(n, v) for n, v in self.visible(True).items() if v[0] == "A"]
            if vs:
                a = r.choice(vs)
                same = [n for n, v in self.visible(False).items() if v == a[1]]
                if self.R(self.perr):
                    same = [n for n, v in self.visible(False).items() if v[0] == "A"]
                if len(same) > 1 or self.R(0.2):
                    return ["%s <- %s" % (a[0], r.choice(same))]
            return self.assign()
        if k == "ptr":
            vs = [(n, v[1][1]) for n, v in self.visible(True).items() if v[0] == "S" and v[1][0] == "P"]
            if vs:
                n, pt = r.choice(vs)
                q = self.path(self.ptypes[pt], True)
                if q:
                    if depth == self.maxdepth and self.l is None:
                        self.unset.discard(n)
                    return ["%s <- ^%s" % (n, q)]
                same = [m for m, p in vs if p == pt and m != n]
                if same and n not in self.unset:
                    return ["%s <- %s" % (r.choice(same), n)]
            return self.assign()
        if k == "call":
            if self.procs and self.calls and not self.infunc_nocall:
                n = r.choice(list(self.procs))
                a = self.args(self.procs[n], 2)
                if a is not None:
                    return ["CALL %s%s" % (n, "(%s)" % a if self.procs[n] or self.R(0.5) else "")]
            return self.assign()
        if k == "if":
            out = ["IF %s%sTHEN" % (self.cond(), r.choice([" ", " ", "\n"]))] + b(loop)
            if not self.ped and self.R(0.3):
                out += ["ELSE IF %s THEN" % self.cond()] + b(loop)
            if self.R(0.5):
                out += ["ELSE"] + b(loop)
            return self.flat(out + ["ENDIF"])
        if k == "case":
            vs = [n for n, v in self.visible(False).items() if v in (("S", "INTEGER"), ("S", "CHAR"), ("S", "STRING")) and n not in self.consts]
            if not vs:
                return self.output()
            n = r.choice(vs)
            t = self.visible(False)[n][1]
            out = ["CASE OF " + n]
            for _ in range(r.randint(1, 3)):
                if t == "INTEGER" and self.R(0.4):
                    a = r.randint(-3, 5)
                    out.append("    %d TO %d : %s" % (a, a + r.randint(0, 4), self.simple()))
                else:
                    out.append("    %s : %s" % (self.lit(t), self.simple()))
                if self.R(0.3):
                    out.append("        " + self.simple())
            if self.R(0.6):
                out.append("    OTHERWISE : " + self.simple())
            return out + ["ENDCASE"]
        if k == "for":
            v = self.fresh("i")
            sc = self.l if self.l is not None else self.g
            if self.l is None:
                pass
            pre = ["DECLARE %s : INTEGER" % v] if self.ped or self.R(0.5) else []
            if pre and (loop or depth < self.maxdepth):
                pre = []
            sc[v] = ("S", "INTEGER")
            self.ro.add(v)
            a, z = r.randint(-2, 3), r.randint(-2, 5)
            st = r.choice(["", "", " STEP 2", " STEP -1", " STEP 3", " STEP -2"])
            out = pre + ["FOR %s <- %d TO %d%s" % (v, a, z, st)] + b(True) + ["NEXT" + (" " + v if self.R(0.8) else "")]
            if (loop or depth < self.maxdepth or self.l is not None) and not self.R(self.perr):
                sc.pop(v, None)
            return out
        if k in ("while", "repeat"):
            v = self.fresh("w")
            sc = self.l if self.l is not None else self.g
            sc[v] = ("S", "INTEGER")
            self.ro.add(v)
            lim = r.randint(0, 4)
            # the counter is assigned before the loop; in pedantic programs it is declared at the top
            pre = ["%s <- 0" % v]
            if self.ped:
                self.needdecl.append(v)
            inc = ["    %s <- %s + 1" % (v, v)]
            bd = b(True)
            if (loop or depth < self.maxdepth or self.l is not None) and not self.R(self.perr):
                sc.pop(v, None)
            if k == "while":
                return pre + ["WHILE %s < %d%s" % (v, lim, " DO" if self.R(0.8) else "")] + inc + bd + ["ENDWHILE"]
            return pre + ["REPEAT"] + inc + bd + ["UNTIL %s >= %d" % (v, lim)]
        if k == "brk":
            return ["IF %s THEN" % self.cond(), "    " + r.choice(["BREAK", "CONTINUE"]), "ENDIF"]
        if k == "ret":
            e = self.expr(fn, 2)
            return ["RETURN " + e] if e else self.output()
        if k == "ldecl":
            return self.declare(self.l)
        if k == "file":
            return self.filestmt()
        return self.output()

    needdecl = None

    def flat(self, xs):
        return [y for x in xs for y in x.split("\n")]

    def cond(self):
        return self.expr("BOOLEAN", 2)

    def simple(self):
        return self.rng.choice([self.output, self.assign])()[0]

    def filestmt(self):
        r = self.rng
        f = self.fprefix + str(r.randint(1, 2)) + ".txt"
        md = self.handles.get(f)
        q = '"%s"' % f
        if md is None:
            m = r.choice(["WRITE", "APPEND", "READ", "WRITE"]) if f in self.seen else "WRITE"
            if self.R(self.perr):
                m = "READ"
            self.handles[f] = m
            self.seen.add(f)
            return ["OPENFILE %s FOR %s" % (q, m)]
        if self.R(0.3):
            self.handles[f] = None
            return ["CLOSEFILE " + q]
        if md in ("WRITE", "APPEND"):
            return ["WRITEFILE %s, %s" % (q, self.expr(r.choice(PRIM), 1))]
        v = [n for n, x in self.visible(True).items() if x == ("S", "STRING")]
        if v:
            n = r.choice(v)
            return ["IF NOT EOF(%s) THEN" % q, "    READFILE %s, %s" % (q, n), "ENDIF"]
        return ["CLOSEFILE " + q] if not self.handles.update({f: None}) else []

    def procedure(self):
        r = self.rng
        isf = self.R(0.5)
        ps = []
        parts = []
        mode = False
        for i in range(r.randint(0, 3)):
            t = r.choice(self.alltypes())
            if t == "REAL":
                t = "INTEGER"
            n = self.fresh("p")
            w = r.choice(["", "", "BYREF", "BYVAL"])
            if w:
                mode = w == "BYREF"
            ps.append((n, t, mode))
            parts.append((w + " " if w else "") + n + " : " + tname(t))
        self.l = {n: ("S", t) for n, t, _ in ps}
        ro = self.ro
        self.ro = set()
        ret = r.choice(self.alltypes()) if isf else None
        n = self.fresh("Func" if isf else "Proc")
        rec = self.R(0.25)
        if rec:     # bounded recursion
            ps = [("depth", "INTEGER", False)] + ps
            parts = ["BYVAL depth : INTEGER"] + parts
            # the first parameter fixes the mode unless the next one names its own
            if len(parts) > 1 and not parts[1].startswith("BY"):
                parts[1] = ("BYREF " if ps[1][2] else "BYVAL ") + parts[1]
            self.l["depth"] = ("S", "INTEGER")
            self.ro.add("depth")
        head = "%s %s%s%s" % ("FUNCTION" if isf else "PROCEDURE", n, "(%s)" % ", ".join(parts) if parts or self.R(0.3) else "",
                              " RETURNS " + tname(ret) if isf else "")
        self.infunc_nocall = self.R(0.5)
        self.needdecl_l = None
        save, self.needdecl = self.needdecl, []
        b = self.body(self.maxdepth, r.randint(1, 3), False, ret)
        if rec:
            a = self.args(ps[1:], 1)
            if a is not None:
                rest = "%s(depth - 1%s)" % (n, ", " + a if a else "")
                if isf:
                    b += ["    IF depth > 0 THEN", "        OUTPUT \"rec\", depth", "        RETURN " + rest, "    ENDIF"]
                else:
                    b += ["    IF depth > 0 THEN", "        CALL " + rest, "    ENDIF"]
        if isf:
            e = self.expr(ret, 1)
            if e is None:     # a record: declare a local one
                e = self.fresh("loc")
                b = ["    DECLARE %s : %s" % (e, tname(ret))] + b
            if not self.R(self.perr):
                b += ["    RETURN " + e]
        b = ["    DECLARE %s : INTEGER" % v for v in self.needdecl] + b
        self.needdecl = save
        self.infunc_nocall = False
        self.l, self.ro = None, ro
        if rec:
            ps = [("depth", "INTEGER", False)] + ps[1:]
        (self.funcs.__setitem__(n, (ps, ret)) if isf else self.procs.__setitem__(n, ps))
        # recursion depth is passed as a small literal by args() through expr(): clamp it inside the body
        out = [head] + b + ["ENDFUNCTION" if isf else "ENDPROCEDURE"]
        if rec:
            out[1:1] = ["    IF depth > 4 THEN", "        depth <- 4", "    ENDIF"]
        return out

    def program(self):
        """list of entries"""
        r = self.rng
        self.seen = set()
        self.needdecl = []
        out = []
        if self.types:
            for _ in range(r.randint(0, 4)):
                out.append(self.typedef())
        for _ in range(r.randint(0, 2)):
            c = self.fresh("cst")
            t = r.choice(PRIM)
            self.consts[c] = ("S", t)
            out.append(["CONSTANT %s = %s" % (c, self.lit(t))])
        for _ in range(r.randint(3, 7)):
            out += [[x] for x in self.declare(self.g)]
        if self.calls:
            for _ in range(r.randint(0, 3)):
                out.append(self.procedure())
        body = []
        for _ in range(self.size):
            if self.R(0.1):
                body += [[x] for x in self.declare(self.g)]
            elif self.R(0.12):
                body.append(self.dump())
            else:
                body += split(self.stmt(self.maxdepth))
        body.append(self.dump())
        return out + [["DECLARE %s : INTEGER" % v] for v in self.needdecl] + body


HEADS = ("IF", "CASE", "WHILE", "REPEAT", "FOR", "PROCEDURE", "FUNCTION", "TYPE")
ENDS = ("ENDIF", "ENDCASE", "ENDWHILE", "UNTIL", "NEXT", "ENDPROCEDURE", "ENDFUNCTION", "ENDTYPE")


def split(lines):
    """cut statement lines at top level into entries"""
    out, cur, depth = [], [], 0
    for ln in lines:
        cur.append(ln)
        if ln.startswith(" "):
            continue
        w = ln.split()[0] if ln.split() else ""
        if w in HEADS and not (w == "TYPE" and "=" in ln):
            depth = 1
        if w in ENDS:
            depth = 0
        if depth == 0:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def file_text(entries):
    return "\n".join("\n".join(e) for e in entries) + "\n"


def repl_text(entries):
    """standard input of a session: multi-line constructs closed by an empty line"""
    s = ""
    for e in entries:
        s += "\n".join(e) + "\n"
        w = first_word(e[0])
        if w in HEADS and not (w == "TYPE" and "=" in e[0]):
            s += "\n"
    return s


def first_word(s):
    w = ""
    for c in s.lstrip(" \t") if False else s:
        if c.isalpha():
            w += c
        else:
            break
    return w
