"""Programs that evaluate the same place (or expression) again and again with different bindings: in loops, in procedures
called with different arguments, in recursion.  A session's entries are parsed anew each time; these are not."""

import random
from common import *

DEFS = ["TYPE Q\n DECLARE v : INTEGER\n DECLARE c : ARRAY[0:1] OF INTEGER\nENDTYPE",
        "TYPE R\n DECLARE n : INTEGER\n DECLARE s : STRING\n DECLARE b : ARRAY[1:2] OF INTEGER\n DECLARE q : Q\nENDTYPE",
        "TYPE PR = ^R", "TYPE PI = ^INTEGER", "TYPE PQ = ^Q", "TYPE En = (e0, e1, e2)"]
VARS = ["DECLARE m : ARRAY[1:2, 0:1] OF INTEGER", "DECLARE a : ARRAY[1:2] OF R", "DECLARE ms : ARRAY[1:2, 0:1] OF R", "DECLARE v1 : R", "DECLARE v2 : R", "DECLARE pr : PR", "DECLARE pa : ARRAY[1:2] OF PR",
        "DECLARE pi : PI", "DECLARE pq : PQ", "DECLARE e : En", "pa[1] <- ^v1", "pa[2] <- ^v2", "pr <- ^v1", "t <- 0"]
SUBS = ["PROCEDURE inc(BYREF z : INTEGER)\n z <- z + 1\nENDPROCEDURE", "PROCEDURE add(BYREF z : INTEGER, BYVAL k : INTEGER)\n z <- z * 2 + k\n k <- 0\nENDPROCEDURE", "PROCEDURE lose(z : INTEGER)\n z <- z + 100\nENDPROCEDURE",
        "FUNCTION nx(z : INTEGER) RETURNS INTEGER\n RETURN 3 - z\nENDFUNCTION", "FUNCTION twice(BYREF z : INTEGER) RETURNS INTEGER\n z <- z + 1\n RETURN z * 2\nENDFUNCTION",
        "FUNCTION mk(k : INTEGER) RETURNS R\n DECLARE l : R\n l.n <- k\n l.b[1] <- k + 1\n l.q.c[0] <- k + 2\n RETURN l\nENDFUNCTION", "PROCEDURE tworec(BYREF x : R, BYVAL y : R)\n x.b[1] <- x.b[1] + 3\n y.b[1] <- 99\n x.q.v <- y.b[1]\nENDPROCEDURE"]
# places of type INTEGER in the indices i (1..2) and j (0..1)
PLACES = ["m[{i}, {j}]", "a[{i}].n", "a[{i}].b[{i2}]", "a[{i}].q.v", "a[{i}].q.c[{j}]", "ms[{i}, {j}].n", "ms[{i}, {j}].b[{i2}]", "ms[{i}, {j}].q.c[{j2}]", "pa[{i}]^.n", "pa[{i}]^.b[{i2}]", "pa[{i}]^.q.c[{j}]", "pr^.n", "pr^.b[{i}]", "pr^.q.c[{j}]",
          "v1.b[{i}]", "v2.q.c[{j}]", "v1.q.v", "t"]
RECS = ["a[{i}]", "ms[{i}, {j}]", "v1", "v2", "pr^", "pa[{i}]^"]
SUBRECS = ["a[{i}].q", "ms[{i}, {j}].q", "v1.q", "pr^.q", "pa[{i}]^.q"]
DUMP = 'FOR di <- 1 TO 2\n OUTPUT di, ":", a[di].n, ",", a[di].b[1], ",", a[di].b[2], ",", a[di].q.v, ",", a[di].q.c[0], ",", a[di].q.c[1], ";", m[di, 0], ",", m[di, 1]\n FOR dj <- 0 TO 1\n  OUTPUT ms[di, dj].n, ",", ms[di, dj].b[1], ",", ms[di, dj].b[2], ",", ms[di, dj].q.v, ",", ms[di, dj].q.c[0], ",", ms[di, dj].q.c[1]\n NEXT dj\nNEXT di\n' \
       'OUTPUT v1.n, ",", v1.b[1], ",", v1.b[2], ",", v1.q.v, ",", v1.q.c[0], ",", v1.q.c[1], ";", v2.n, ",", v2.b[1], ",", v2.b[2], ",", v2.q.v, ",", v2.q.c[0], ",", v2.q.c[1], ";", t'


class Loops:
    def __init__(self, r, err=0.002):
        self.r, self.err, self.k = r, err, 0

    def idx(self, kind, sc):
        """an index expression with value 1..2 (i) or 0..1 (j) from the scope's index variables"""
        r = self.r
        i, j = r.choice(sc["i"]) if sc["i"] else None, r.choice(sc["j"]) if sc["j"] else None
        if r.random() < self.err:
            return r.choice([i or "3", "%s + 1" % (i or "2"), "%s - 1" % (j or "0"), "-1"])
        c = []
        if kind == "i":
            c = ["1", "2"] + ([i, i, i, i, "3 - " + i, "3 - " + i if "pure" in sc else "nx(%s)" % i] if i else []) + (["%s + 1" % j, "%s + 1" % j] if j else [])
        else:
            c = ["0", "1"] + ([j, j, j, j, "1 - " + j] if j else []) + (["%s - 1" % i, "2 - %s" % i] if i else [])
        return r.choice(c[2:] if len(c) > 2 and r.random() < 0.9 else c)

    def fill(self, t, sc):
        for x in ("{i}", "{j}", "{i2}", "{j2}"):
            while x in t:
                t = t.replace(x, self.idx(x[1], sc), 1)
        return t

    def place(self, sc):
        return self.fill(self.r.choice(PLACES + sc["p"] * 4), sc)

    def rec(self, sc):
        return self.fill(self.r.choice(RECS + sc["r"] * 3), sc)

    def val(self, sc):
        r = self.r
        k = r.random()
        if k < 0.35:
            return self.place(sc)
        if k < 0.5 and sc["i"]:
            return "%s * 10 + %s" % (r.choice(sc["i"]), self.idx("j", sc))
        if k < 0.6:
            return "twice(%s)" % self.place(sc)
        if k < 0.75:
            return "(%s + %s) MOD 1000" % (self.place(sc), self.place(sc))
        return str(r.randint(0, 9))

    def stmt(self, sc, d):
        r, k = self.r, self.r.random()
        if k < 0.3:
            return "%s <- %s" % (self.place(sc), self.val(sc))
        if k < 0.4:
            return "OUTPUT " + ', ",", '.join(self.val(sc) for _ in range(r.randint(1, 3)))
        if k < 0.5:
            return r.choice(["CALL inc(%s)" % self.place(sc), "CALL add(%s, %s)" % (self.place(sc), self.val(sc)), "CALL lose(%s)" % self.place(sc)])
        if k < 0.6:
            return r.choice(["%s <- %s" % (self.rec(sc), self.rec(sc)), "%s <- mk(%s)" % (self.rec(sc), self.val(sc)), "CALL tworec(%s, %s)" % (self.rec(sc), self.rec(sc)),
                             "%s <- %s" % (self.fill(r.choice(SUBRECS), sc), self.fill(r.choice(SUBRECS), sc)), "%s <- %s" % (self.fill(r.choice(["a[{i}].b", "ms[{i}, {j}].b", "v1.b", "pr^.b"]), sc), self.fill(r.choice(["a[{i}].b", "ms[{i}, {j}].b", "v2.b"]), sc))][: 5 if r.random() < 0.3 else 4])
        if k < 0.7:
            sc = dict(sc, pure=True)
            return r.choice(["pr <- ^%s" % self.fill(r.choice(["a[{i}]", "ms[{i}, {j}]", "v1", "v2"]), sc), "pa[%s] <- ^%s" % (self.idx("i", sc), self.fill(r.choice(["a[{i}]", "ms[{i}, {j}]", "v1", "v2"]), sc)), "pa[%s] <- pr" % self.idx("i", sc),
                             "pi <- ^%s\npi^ <- pi^ + 5" % self.place(dict(sc, p=[])), "pq <- ^%s\npq^.c[%s] <- %s" % (self.fill(r.choice(SUBRECS), sc), self.idx("j", sc), self.val(sc))])
        if k < 0.76:
            return "cs <- %s\nCASE OF cs\n %s : OUTPUT \"c1\"\n 0 TO 9 : %s\n OTHERWISE : OUTPUT \"c3\"\nENDCASE" % (self.place(sc), r.randint(0, 4), self.one(sc))
        if k < 0.84:
            return "IF %s %s %s THEN\n %s\nELSE\n %s\nENDIF" % (self.place(sc), r.choice(["<", "=", ">=", "<>"]), self.val(sc), self.one(sc), self.one(sc))
        if d < 2:
            return self.loop(sc, d + 1)
        return self.one(sc)

    def one(self, sc):
        return self.r.choice(["%s <- %s" % (self.place(sc), self.val(sc)), "CALL inc(%s)" % self.place(sc), "OUTPUT " + self.val(sc)])

    def body(self, sc, d, n=None):
        return "\n".join(self.stmt(sc, d) for _ in range(n or self.r.randint(1, 3)))

    def loop(self, sc, d):
        r = self.r
        self.k += 1
        w = "%s%d" % ("ij"[r.random() < 0.4], self.k)
        s2 = dict(sc)
        s2[w[0]] = sc[w[0]] + [w]
        lo, hi = ("1", "2") if w[0] == "i" else ("0", "1")
        b = self.body(s2, d)
        k = r.random()
        if k < 0.45:
            return "FOR %s <- %s TO %s\n%s\nNEXT %s" % (w, lo, hi, b, w)
        if k < 0.55:
            return "FOR %s <- %s TO %s STEP -1\n%s\nNEXT %s" % (w, hi, lo, b, w)
        if k < 0.8:
            return "%s <- %s\nWHILE %s <= %s DO\n%s\n%s <- %s + 1\nENDWHILE" % (w, lo, w, hi, b, w, w)
        return "%s <- %s\nREPEAT\n%s\n%s <- %s + 1\nUNTIL %s > %s" % (w, lo, b, w, w, w, hi)

    def program(self):
        r = self.r
        out = DEFS + VARS + SUBS
        top = dict(i=[], j=[], p=[], r=[])
        calls = []
        for k in range(r.randint(1, 2)):      # procedures whose places depend on parameters
            sc = dict(i=["u"], j=["w"], p=["y"], r=["x"])
            dec = "DECLARE lr : R\nDECLARE la : ARRAY[1:2] OF R\nlr.n <- 7\n" if r.random() < 0.5 else ""
            if dec:
                sc["r"] = ["x", "lr", "la[{i}]"]
                sc["p"] = ["y", "x.b[{i}]", "lr.b[{i}]", "la[{i}].q.c[{j}]"]
            else:
                sc["p"] = ["y", "x.b[{i}]", "x.q.c[{j}]"]
            show = '\nOUTPUT "loc ", lr.n, lr.b[1], lr.b[2], la[1].n, la[2].n, la[1].q.c[0], la[2].q.c[1]' if dec else ""
            rec = "IF deep > 0 THEN\n CALL proc%d(x, y, 3 - u, 1 - w, deep - 1)\nENDIF\n" % k if r.random() < 0.5 else ""
            pre, post = self.body(sc, 1), self.body(sc, 1)
            out.append("PROCEDURE proc%d(BYREF x : R, BYREF y : INTEGER, BYVAL u : INTEGER, w : INTEGER, deep : INTEGER)\n%s%s\n%s%s%s\nENDPROCEDURE" % (k, dec, pre, rec, post, show))
            calls.append(lambda sc, k=k: "CALL proc%d(%s, %s, %s, %s, %d)" % (k, self.rec(sc), self.place(sc), self.idx("i", sc), self.idx("j", sc), r.randint(0, 2)))
        out = list(out)
        for _ in range(r.randint(2, 4)):
            out.append(self.loop(top, 0))
            if r.random() < 0.6:
                sc = dict(top, i=["ci"], j=["cj"])
                out.append("FOR ci <- 1 TO 2\nFOR cj <- 0 TO 1\n%s\nNEXT cj\nNEXT ci" % r.choice(calls)(sc))
            out.append(DUMP)
        return out


def loop_cases(rng, n, tag):
    return [(prog if k % 2 else repl)("%s%d" % (tag, k), Loops(random.Random(rng.random())).program()) for k in range(n)]
