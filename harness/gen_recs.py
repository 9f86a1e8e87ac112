"""Records of random shapes: type definitions, values for every leaf, and copies along every channel"""
import random
from common import *

PRIM = ["INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE", "Col"]


def value(r, t):
    return {"INTEGER": lambda: str(r.randint(-99, 99)), "REAL": lambda: "%d.%s" % (r.randint(-9, 9), r.choice(["5", "25", "125", "0"])), "BOOLEAN": lambda: r.choice(["TRUE", "FALSE"]), "CHAR": lambda: "'%s'" % r.choice("abcXYZ019 #"),
            "STRING": lambda: '"%s"' % r.choice(["", "x", "yy", "a b", "zzz", "# ", "1", "-", "l1\\nl2"]), "DATE": lambda: "%d/%d/%d" % (r.randint(1, 28), r.randint(1, 12), r.randint(1990, 2030)), "Col": lambda: r.choice(["red", "green", "blue"])}[t]()


SIMPLE = ["x", "y", "z", "ar", "br", "bx", "by", "x", "y", "z"]     # what PUTRECORD and GETRECORD take


class Shapes:
    def __init__(self, r, files=False):
        self.r = r
        self.files = files
        self.types = {}            # name -> list of (field, kind): kind = prim | type name | ("A", bounds, elem)
        self.text = ["TYPE Col = (red, green, blue)"]
        n = r.randint(2, 4)
        for i in range(n):
            self.define("T%d" % i, last=i == n - 1)
        self.top = "T%d" % (n - 1)

    def size(self, k):
        if isinstance(k, tuple):
            s = 1
            for lo, hi in k[1]:
                s *= hi - lo + 1
            return s * self.size(k[2])
        return sum(self.size(x) for _, x in self.types[k]) if k in self.types else 1

    def define(self, name, last):
        r = self.r
        fs, lines, used, total = [], [], set(), 0
        names = ["a", "b", "c", "n", "s", "x", "val", "data", "next", "f1", "f2", "f3", "item", "pos"]
        r.shuffle(names)
        for _ in range(r.randint(1, 4) + last):
            k = r.random()
            recs = list(self.types)
            t = r.choice(PRIM) if k < 0.5 or not recs else r.choice(recs)
            if r.random() < 0.35:
                t = ("A", tuple((lo, lo + r.randint(0, 2)) for lo in [r.choice([0, 1, 1, -1, 3]) for _ in range(r.choice([1, 1, 2]))]), t)
            cnt = r.choice([1, 1, 1, 2, 2, 3])
            if total + cnt * self.size(t) > 24:
                t, cnt = r.choice(PRIM), 1
            if total + cnt > 24 or len(names) < cnt:
                break
            ns = [names.pop() for _ in range(cnt)]
            total += cnt * self.size(t)
            fs += [(x, t) for x in ns]
            lines.append(" DECLARE %s : %s" % (", ".join(ns), self.ty(t)))
        self.types[name] = fs
        self.text.append("TYPE %s\n%s\nENDTYPE" % (name, "\n".join(lines)))

    def ty(self, t):
        return "ARRAY[%s] OF %s" % (", ".join("%d:%d" % b for b in t[1]), t[2]) if isinstance(t, tuple) else t

    def leaves(self, k, p=""):
        if isinstance(k, tuple):
            def idx(bs):
                if not bs:
                    yield []
                    return
                for i in range(bs[0][0], bs[0][1] + 1):
                    for rest in idx(bs[1:]):
                        yield [i] + rest
            return [l for ix in idx(k[1]) for l in self.leaves(k[2], "%s[%s]" % (p, ", ".join(map(str, ix))))]
        if k in self.types:
            return [l for f, t in self.types[k] for l in self.leaves(t, "%s.%s" % (p, f))]
        return [(p, k)]

    def inner(self, k, p=""):
        """the records and arrays inside (path, kind)"""
        out = []
        if isinstance(k, tuple):
            out += self.inner(k[2], "%s[%s]" % (p, ", ".join(str(b[0]) for b in k[1]))) + self.inner(k[2], "%s[%s]" % (p, ", ".join(str(b[1]) for b in k[1])))
        elif k in self.types:
            for f, t in self.types[k]:
                if isinstance(t, tuple) or t in self.types:
                    out.append(("%s.%s" % (p, f), t))
                    out += self.inner(t, "%s.%s" % (p, f))
        if k in self.types and p.endswith("]"):
            out.append((p, k))
        return out

    def fill(self, v, t=None, share=1):
        return ["%s%s <- %s" % (v, l, value(self.r, k)) for l, k in self.leaves(t or self.top) if self.r.random() < share]

    def dump(self, v, t=None):
        return "OUTPUT " + ', ",", '.join(v + l for l, _ in self.leaves(t or self.top))

    def program(self):
        r, T = self.r, self.top
        lv = self.leaves(T)
        body = "\n".join(" z%s <- %s" % (l, value(r, k)) for l, k in lv if r.random() < 0.6)
        es = self.text + ["TYPE PT = ^%s" % T, "TYPE Box\n DECLARE h : INTEGER\n DECLARE u, w : %s\n DECLARE g : ARRAY[1:2] OF %s\nENDTYPE" % (T, T), "TYPE Twin\n%s" % self.text[-1].split("\n", 1)[1],
                          "DECLARE x, y, z : %s" % T, "DECLARE ar, br : ARRAY[1:2] OF %s" % T, "DECLARE bx, by : Box", "DECLARE pt : PT", "DECLARE tw : Twin", "pt <- ^y",
                          "PROCEDURE Val(z : %s)\n%s\n %s\nENDPROCEDURE" % (T, body, self.dump("z")), "PROCEDURE Ref(BYREF z : %s)\n%s\nENDPROCEDURE" % (T, body),
                          "FUNCTION Ch(z : %s) RETURNS %s\n%s\n RETURN z\nENDFUNCTION" % (T, T, body), "FUNCTION Mk() RETURNS %s\n DECLARE loc : %s\n%s\n RETURN loc\nENDFUNCTION" % (T, T, body.replace(" z", " loc")), "FUNCTION Glob() RETURNS %s\n RETURN x\nENDFUNCTION" % T]
        vs = ["x", "y", "z", "ar[1]", "ar[2]", "br[1]", "bx.u", "bx.w", "by.w", "bx.g[2]", "by.g[1]", "pt^"]
        dumps = [self.dump(v) for v in ("x", "y", "ar[1]", "ar[2]", "bx.u", "bx.w", "by.w", "bx.g[2]")]
        es += [self.dump("x")] + self.fill("x") + self.fill("bx.w") + [self.dump("x"), self.dump("bx.w")]
        ins = self.inner(T)
        # a date that was never set is undetermined and cannot be stored
        for v in ("x", "y", "z", "ar[1]", "ar[2]", "br[1]", "br[2]", "bx.u", "by.u", "by.w", "bx.g[1]", "bx.g[2]", "by.g[1]", "by.g[2]"):
            es += ["%s%s <- %s" % (v, l, value(r, k)) for l, k in lv if k == "DATE"]
        if self.files:
            es += ['OPENFILE "r.dat" FOR RANDOM']
        for _ in range(r.randint(5, 8)):
            a, b = r.choice(vs), r.choice(vs)
            k = r.random()
            if k < 0.3:
                es += ["%s <- %s" % (a, b)]
            elif k < 0.5:
                es += [r.choice(["CALL Val(%s)" % a, "CALL Ref(%s)" % a, "%s <- Ch(%s)" % (a, b), "%s <- Mk()" % a, "%s <- Glob()" % a, "bx <- by", "by <- bx", "br <- ar", "ar <- br", "bx.g <- ar", "ar <- by.g", "pt <- ^%s" % r.choice(vs[:11])])]
            elif k < 0.65 and ins:
                p, t = r.choice(ins)
                q, u = r.choice([i for i in ins if i[1] == t] if r.random() < 0.85 else ins)
                es += ["%s%s <- %s%s" % (a, p, b, q)]
            elif k < 0.7:
                es += [r.choice(["tw <- x", "x <- tw", "x <- bx", "bx <- x", "x <- 5", "OUTPUT x = y", "OUTPUT x", "ar <- x", "CALL Val(tw)", "x <- ar"])]
            elif self.files:
                es += [r.choice(['SEEK "r.dat", %d' % r.randint(1, 3)] * 2 + ['PUTRECORD "r.dat", %s' % r.choice(SIMPLE)] * 4 + ['GETRECORD "r.dat", %s' % r.choice(SIMPLE)] * 4 + ['GETRECORD "r.dat", tw', 'PUTRECORD "r.dat", bx', 'GETRECORD "r.dat", by', 'CLOSEFILE "r.dat"\nOPENFILE "r.dat" FOR RANDOM'])]
            else:
                es += ['OPENFILE "q.dat" FOR RANDOM', 'PUTRECORD "q.dat", %s' % r.choice(SIMPLE), 'SEEK "q.dat", 1', 'GETRECORD "q.dat", %s' % r.choice(SIMPLE), 'CLOSEFILE "q.dat"']
            es += self.fill(r.choice([a, b]), share=0.4)
            es += [self.dump(a), self.dump(b)] + ([self.dump('x'), self.dump('ar[2]'), self.dump('bx.g[2]'), self.dump('by.u')] if 'RECORD' in es[-1] or r.random() < 0.2 else [])
        if self.files:
            es += ['CLOSEFILE "r.dat"']
        return es + dumps

    def reader(self):
        """a later run that reads everything back"""
        es = self.text + ["TYPE Box\n DECLARE h : INTEGER\n DECLARE u, w : %s\n DECLARE g : ARRAY[1:2] OF %s\nENDTYPE" % (self.top, self.top), "DECLARE x : %s" % self.top, "DECLARE bx : Box", 'OPENFILE "r.dat" FOR RANDOM']
        for k in (1, 2, 3, 4):
            es += ['SEEK "r.dat", %d' % k, 'GETRECORD "r.dat", x', self.dump("x"), 'GETRECORD "r.dat", bx', self.dump("bx.w"), self.dump("bx.g[2]")]
        return es


def rec_cases(rng, n, tag, files=False):
    out = []
    for k in range(n):
        s = Shapes(random.Random(rng.random()), files)
        es = s.program()
        c = (prog if k % 3 == 0 and not files else repl)("%s%d" % (tag, k), es)
        if files:
            c["runs"].append(rrun(s.reader()))
        out.append(c)
    return out
