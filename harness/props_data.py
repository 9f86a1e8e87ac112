"""C05 variables, C06 arrays, C07 records, C08 constants, C09 pointers, C19 enumerations."""
import itertools
import random
import mc
from common import *
import gen_dyn
import gen_loops
import gen_recs

# types of the small world and expressions of each type
DEFS = ["TYPE Col = (red, green, blue)", "TYPE Dir = (up, down)", "TYPE R1\n DECLARE n : INTEGER\n DECLARE s : STRING\n DECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE",
        "TYPE R2\n DECLARE n : INTEGER\n DECLARE s : STRING\n DECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE",
        "TYPE PI = ^INTEGER", "TYPE PR = ^REAL", "TYPE PJ = ^INTEGER"]
TYPES = ["INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE", "Col", "Dir", "R1", "R2", "PI", "PR", "PJ"]
PRIMS = ["INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE"]
SRCVARS = ["vi <- 7", "vr <- 2.75", "vb <- TRUE", "vc <- 'q'", 'vs <- "word"', 'v1 <- "z"', 'v0 <- ""', "vd <- 3/4/2021", "ve <- green", "vf <- down", "DECLARE vo : R1", "DECLARE vq : R2",
           "vo.n <- 5", 'vo.s <- "rec"', "vo.a[2] <- 8", "vq.n <- 6", "DECLARE vp : PI", "DECLARE vpr : PR", "DECLARE vpj : PJ", "vp <- ^vi", "vpr <- ^vr", "vpj <- ^vi",
           "DECLARE va : ARRAY[1:2] OF INTEGER", "FUNCTION fi() RETURNS INTEGER\n RETURN -12\nENDFUNCTION", "FUNCTION fr() RETURNS REAL\n RETURN 0.125\nENDFUNCTION",
           'FUNCTION fs() RETURNS STRING\n RETURN "k"\nENDFUNCTION', "FUNCTION fo() RETURNS R1\n RETURN vo\nENDFUNCTION"]
SRC = {
    "INTEGER": ["7", "-3", "vi", "9007199254740993", "vi + 1", "fi()", "LENGTH(vs)", "va[1]", "vo.n", "vp^", "vi DIV 2", "4294967297"],
    "REAL": ["2.5", "2.0", "vr", "vi / 2", "7 / 7", "vr * 2", "fr()", "vpr^", "0.1 + 0.2", "1000000000000.0"],
    "BOOLEAN": ["TRUE", "vb", "NOT vb", "vi > 3"],
    "CHAR": ["'x'", "vc", "' '", "CHR(65)", "'\\n'"],
    "STRING": ['""', '"a"', '"ab"', "vs", "v1", "v0", '"12"', '"TRUE"', 'vs & "!"', "'a' & 'b'", "fs()", "vo.s", '" "', '"1.5"', "LEFT(vs, 1)"],
    "DATE": ["5/6/2020", "vd", "SETDATE(1, 2, 2003)"],
    "Col": ["red", "ve", "ve + 1"], "Dir": ["up", "vf"], "R1": ["vo", "fo()"], "R2": ["vq"], "PI": ["vp", "^vi"], "PR": ["vpr", "^vr"], "PJ": ["vpj"],
    "other": ["va", "undef", "nofn()", "1 / 0", "va[3]", "vo.zz"],
}
SAFE = {"INTEGER": "41", "REAL": "4.25", "BOOLEAN": "TRUE", "CHAR": "'i'", "STRING": '"init"', "DATE": "11/10/2012", "Col": "blue", "Dir": "down"}


def init(path, t):
    """entries giving the place a known value of its type"""
    if t in SAFE:
        return ["%s <- %s" % (path, SAFE[t])]
    if t in ("R1", "R2"):
        return ["%s.n <- 77" % path, '%s.s <- "seven"' % path, "%s.a[1] <- 70" % path]
    return ["%s <- %s" % (path, {"PI": "vp", "PR": "vpr", "PJ": "vpj"}[t])]


def look(path, t):
    if t in ("R1", "R2"):
        return 'OUTPUT %s.n, ",", %s.s, ",", %s.a[1], ",", %s.a[2]' % (path, path, path, path)
    if t in ("PI", "PR", "PJ"):
        return path + "^"
    return path


def places(t):
    """(declarations, path) of a variable of type t in every kind of storage"""
    yield ["DECLARE x : " + t], "x"
    yield ["DECLARE x : ARRAY[1:3] OF " + t], "x[2]"
    yield ["DECLARE x : ARRAY[0:1, 1:2] OF " + t], "x[1, 1]"
    yield ["TYPE Box\n DECLARE a : INTEGER\n DECLARE f : %s\n DECLARE z : INTEGER\nENDTYPE" % t, "DECLARE x : Box"], "x.f"
    yield ["TYPE Box\n DECLARE g : ARRAY[1:2] OF %s\nENDTYPE" % t, "DECLARE x : ARRAY[1:2] OF Box"], "x[2].g[1]"
    yield ["TYPE PT = ^" + t, "DECLARE y : " + t, "DECLARE x : PT", "x <- ^y"], "x^"
    yield ["TYPE PT = ^" + t, "DECLARE y : ARRAY[1:2] OF " + t, "DECLARE x : PT", "x <- ^y[2]"], "x^"
    if t in SAFE:
        yield ["x <- " + SAFE[t]], "x"          # the type of the first assignment


INTEXT = ["5", "-5", "+5", "5.7", "-0.5", "abc", " 5", "5 ", "1e3", "TRUE", "FALSE", "x", "xy", "12/3/2020", "99999999999999999999", "9223372036854775807", "9007199254740993", ".5", "5.",
          "0", "007", "12abc", "a b c", "  ", "\\n", '"q"', "//x", "1.5.2", "0x10", "nan", "inf", "-"]


# ------------------------------------------------------------------ C05
@check("C05", "model_checking",
       "Store matrix: every kind of storage (variable, array element, record field, nested, through a pointer, first assignment) of every type, "
       "against sources of every type, through assignment; the same through BYVAL and BYREF parameters, RETURN, FOR and INPUT (file and session); the value is "
       "shown after every store. Then random sequences of stores over one variable of every type, and random whole programs with errors.")
def c05(ck, rng, tier):
    q = tier == "quick"
    mc.replay(ck, rng, tier, "MC_Vars", (3, 60), (40, 900), length=120)
    cases = []
    # assignment
    for t in TYPES:
        srcs = [(u, s) for u in SRC for s in SRC[u]]
        for j, (decl, path) in enumerate(places(t)):
            ss = srcs if j == 0 or not q else [x for x in srcs if x[0] in (t, "INTEGER", "STRING", "CHAR")] + rng.sample(srcs, 12)
            es = DEFS + SRCVARS + decl + init(path, t) + [look(path, t)]
            for u, s in ss:
                es += ["%s <- %s" % (path, s), look(path, t)]
                if j == 0 and (u == t or rng.random() < 0.3):
                    es += init(path, t)
            cases.append(repl("as-%s-%d" % (t, j), es))
        # a rejected store in a file keeps the earlier output and names the fault
        for u in TYPES:
            s = rng.choice(SRC[u])
            if s == "undef":
                continue
            cases.append(prog("af-%s-%s" % (t, u), DEFS + SRCVARS + ["DECLARE x : " + t] + init("x", t) + [look("x", t).replace("x^", "OUTPUT x^") if t[0] == "P" else ("OUTPUT x" if look("x", t) == "x" else look("x", t)),
                                                                     "x <- " + s, 'OUTPUT "stored"'], ln=True))
    # parameters and RETURN
    for t in TYPES:
        es = DEFS + SRCVARS + ["DECLARE x : " + t] + init("x", t)
        sh = look("p", t)
        sh = sh if sh.startswith("OUTPUT") else "OUTPUT " + sh
        es += ["PROCEDURE V(p : %s)\n %s\n%s\n %s\nENDPROCEDURE" % (t, sh, "\n".join(" " + e for e in init("p", t)), sh),
               "PROCEDURE W(BYREF p : %s)\n %s\n%s\n %s\nENDPROCEDURE" % (t, sh, "\n".join(" " + e for e in init("p", t)), sh)]
        for u in SRC:
            for s in SRC[u]:
                es.append("CALL V(%s)" % s)
                if not s.startswith("^"):
                    es.append("CALL W(%s)" % s)
        cases.append(repl("pa-" + t, es + ["OUTPUT vi, vr, vb, vc, vs, v1, v0, vd, ve, vf, vo.n, vq.n, va[1]"]))
        es = DEFS + SRCVARS + ["DECLARE x : " + t] + init("x", t)
        k = 0
        for u in SRC:
            for s in SRC[u] if not q else rng.sample(SRC[u], min(5, len(SRC[u]))):
                k += 1
                es.append("FUNCTION Q%d() RETURNS %s\n RETURN %s\nENDFUNCTION" % (k, t, s))
                es += ["x <- Q%d()" % k, look("x", t)] if t not in SAFE else ["Q%d()" % k, "x <- Q%d()" % k, look("x", t)]
        cases.append(repl("re-" + t, es))
    # FOR: the iterator is a store, too
    for t in TYPES:
        es = DEFS + SRCVARS + ["DECLARE x : " + t] + init("x", t) + ["FOR x <- 1 TO 2\n OUTPUT \"it\"\nNEXT x", look("x", t)]
        for u in SRC:
            es += ["FOR x <- %s TO 3\n BREAK\nNEXT x" % SRC[u][0], look("x", t)]
        cases.append(repl("fo-" + t, es))
    run(ck, cases, maxn=4000)
    # INPUT
    cases = []
    for t in TYPES:
        for j, (decl, path) in enumerate(places(t)):
            if q and j not in (0, 1, 4, 5, 7):
                continue
            es = DEFS + SRCVARS + decl + init(path, t) + [look(path, t)]
            for s in INTEXT:
                if t == "BOOLEAN" and s not in ("TRUE", "FALSE"):
                    continue
                es += ["INPUT " + path, s, look(path, t)]
            cases.append(repl("in-%s-%d" % (t, j), es))
            if j in (0, 1):
                sh = look(path, t) if t[0] != "P" else "OUTPUT 1"
                sh = sh if sh.startswith("OUTPUT") else "OUTPUT " + sh
                for s in (["5", "abc", "TRUE", "x", "2.5"] if t != "BOOLEAN" else ["TRUE", "FALSE"]):
                    cases.append(prog("if-%s-%d-%s" % (t, j, s), DEFS + SRCVARS + decl + init(path, t) + [sh, "INPUT " + path, sh, "INPUT fresh", "OUTPUT fresh"], s + "\nrest\n"))
    es = []
    for i, s in enumerate(INTEXT):
        es += ["INPUT n%d" % i, s, "n%d" % i, 'n%d <- "str"' % i, "n%d" % i, "n%d <- 5" % i, "n%d" % i]
    cases.append(repl("in-new", es))
    # stores that keep their type: a name once created keeps it, wherever the later store happens
    for t1, t2 in itertools.product(list(SAFE), list(SAFE)):
        es = DEFS + ["w <- " + SAFE[t1], "w", "w <- " + SAFE[t2], "w", "DECLARE w : " + t2, "w", "PROCEDURE Z\n w <- %s\n OUTPUT w\nENDPROCEDURE" % SAFE[t2], "CALL Z", "w",
                     "DECLARE k : " + t1, "k <- %s" % SAFE[t2], "DECLARE m, n, o : " + t1, "n <- " + SAFE[t2], "m <- " + SAFE[t1], "m", "OUTPUT " + ("m" if t1 == "DATE" else "o")]
        cases.append(repl("kt-%s-%s" % (t1, t2), es))
    run(ck, cases)
    # random sequences of stores over several places; every place shown after every step
    for rnd in range(1 if q else 6):
        cases = []
        for n in range(90 if q else 250):
            cases.append(stores(random.Random(rng.random()), "s%d-%d" % (rnd, n)))
        run(ck, cases, "asan" if rnd % 2 == 0 else "plain")
        run(ck, rand_cases(rng, 60 if q else 250, "g%d-" % rnd, perr=0.12), "plain")
        run(ck, rand_cases(rng, 30 if q else 120, "h%d-" % rnd, inp=B("5\nabc\n2.5\nTRUE\nx\n" * 3), inputs=True, perr=0.05), "plain")


def stores(r, id):
    pl = [("x%d" % i, t) for i, t in enumerate(r.choices(TYPES[:9], k=3))]
    es = DEFS + SRCVARS
    ps = []
    for i, (x, t) in enumerate(pl):
        ch = list(places(t))
        decl, path = r.choice(ch)
        sub = lambda e: e.replace("Box", "Box%d" % i).replace("PT", "PT%d" % i)
        import re
        f = lambda e: re.sub(r"\by\b", "y%d" % i, re.sub(r"\bx\b", x, sub(e)))
        es += [f(d) for d in decl] + init(f(path), t)
        ps.append((f(path), t))
    shows = [look(p, t) for p, t in ps]
    for _ in range(r.randint(8, 16)):
        p, t = r.choice(ps)
        u = r.choice([t, t, r.choice(list(SRC)), "INTEGER", "STRING", "CHAR"])
        s = r.choice(SRC[u] + [a for a, b in ps if b == u])
        k = r.random()
        if k < 0.7:
            es.append("%s <- %s" % (p, s))
        elif k < 0.8 and t != "BOOLEAN":
            es += ["INPUT " + p, r.choice(INTEXT)]
        elif k < 0.9:
            n = "P%d" % len(es)
            es += ["PROCEDURE %s(%s a : %s)\n a <- %s\nENDPROCEDURE" % (n, r.choice(["BYREF", "BYVAL"]), r.choice([t, u if u in TYPES else t]), s), "CALL %s(%s)" % (n, p)]
        else:
            es.append("FOR %s <- 1 TO 2\nNEXT" % p if " " not in p and p.isalnum() else "%s <- %s" % (p, s))
        es += shows
    return repl(id, es)


# ------------------------------------------------------------------ C06
SHAPES = [[(1, 1)], [(1, 4)], [(0, 3)], [(-2, 1)], [(5, 8)], [(-5, -3)], [(1, 2), (1, 2)], [(0, 1), (3, 5)], [(-1, 1), (-1, 0)], [(1, 2), (0, 1), (2, 3)], [(1, 3), (1, 1)], [(2, 2), (4, 6)],
          [(1, 2), (1, 2), (1, 2), (0, 1)], [(1000000000, 1000000002)], [(-2000000000, -1999999998)]]


def dimt(d):
    return ", ".join("%d:%d" % x for x in d)


def cells(d):
    return list(itertools.product(*[range(l, u + 1) for l, u in d]))


def cell(n, ix):
    return "%s[%s]" % (n, ", ".join(map(str, ix)))


def dumpa(n, d, f=""):
    return "OUTPUT " + ', ",", '.join(cell(n, ix) + f for ix in cells(d))


ELEMV = {"INTEGER": lambda k: str(k * 10 + 1), "REAL": lambda k: "%d.5" % k, "BOOLEAN": lambda k: "TRUE" if k % 2 else "FALSE", "CHAR": lambda k: "'%s'" % chr(97 + k % 26),
         "STRING": lambda k: '"s%d"' % k, "DATE": lambda k: "%d/1/2020" % (k % 28 + 1), "Col": lambda k: ["red", "green", "blue"][k % 3]}


def odd_indices(d, rng):
    """index lists that must be rejected"""
    out = []
    mid = [l for l, u in d]
    for j, (l, u) in enumerate(d):
        for v in (l - 1, u + 1, l - 1000, u + 4294967296, -u - 7 if -u - 7 < l else l - 9, 9223372036854775807, -9223372036854775807):
            out.append(", ".join(str(v) if i == j else str(m) for i, m in enumerate(mid)))
        for v in ("1.0", '"1"', "'1'", "TRUE", "undef", "1 / 0", "1/1/2020", "r2", "arr"):
            out.append(", ".join(str(v) if i == j else str(m) for i, m in enumerate(mid)))
    out.append(", ".join(map(str, mid + [mid[0]])))
    if len(d) > 1:
        out.append(", ".join(map(str, mid[:-1])))
    # an index in range of another dimension only
    for p in itertools.permutations(range(len(d))):
        ix = [d[k][1] for k in p]
        out.append(", ".join(map(str, ix)))
    return out


@check("C06", "model_checking",
       "Arrays of 1 to 5 dimensions with every bound in [-3,4] (all 1-dimensional, samples of the others; all 2-dimensional in the thorough tier) and of 15 further shapes, eight element types: defaults, write every cell then read every cell, in and out of "
       "bounds and ill-typed index tuples for reads, writes, BYREF, INPUT and pointers with a dump of all cells after each, whole-array assignment between all pairs of "
       "shapes and element types followed by independent writes, computed indices and random sequences over several arrays, local arrays and arrays of records.")
def c06(ck, rng, tier):
    q = tier == "quick"
    mc.replay(ck, rng, tier, "MC_Arr", (4, 110), (40, 1500), length=60)
    cases = []
    for si, d in enumerate(SHAPES):
        cs = cells(d)
        for t in ELEMV:
            if q and t in ("REAL", "BOOLEAN", "CHAR") and si % 3:
                continue
            es = ["TYPE Col = (red, green, blue)", "DECLARE before : ARRAY[1:2] OF %s" % t, "DECLARE arr : ARRAY[%s] OF %s" % (dimt(d), t), "DECLARE after : ARRAY[1:2] OF %s" % t]
            if t != "DATE":
                es.append(dumpa("arr", d))
            order = cs[:]
            rng.shuffle(order)
            f = ELEMV[t]
            if t == "DATE":
                es += ["%s <- 9/9/1999" % cell("arr", ix) for ix in cs] + ["%s <- 9/9/1999" % cell(b, (k,)) for b in ("before", "after") for k in (1, 2)]
            for k, ix in enumerate(order):
                es += ["%s <- %s" % (cell("arr", ix), f(k)), dumpa("arr", d)]
            es += ["OUTPUT before[1], before[2], after[1], after[2]"]
            # computed indices
            es += ["a%d <- %d" % (j, ix) for j, ix in enumerate(cs[-1])]
            es += ["arr[%s]" % ", ".join("a%d" % j for j in range(len(d))), "arr[%s]" % ", ".join("a%d * 2 - %d" % (j, cs[-1][j]) for j in range(len(d)))]
            cases.append(repl("rw-%d-%s" % (si, t), es))
        es = ["DECLARE arr : ARRAY[%s] OF INTEGER" % dimt(d), "r2 <- 2.0", "PROCEDURE W(BYREF v : INTEGER)\n v <- 99\nENDPROCEDURE", "TYPE PI = ^INTEGER", "DECLARE p : PI", "z <- 3"]
        es += ["%s <- %d" % (cell("arr", ix), k + 1) for k, ix in enumerate(cs)]
        for o in odd_indices(d, rng):
            es += ["arr[%s] <- 55" % o, "z <- arr[%s]" % o, "CALL W(arr[%s])" % o, "p <- ^arr[%s]" % o, "arr[%s]" % o, dumpa("arr", d), "z"]
        es += ["INPUT arr[%s]" % odd_indices(d, rng)[1], "77", dumpa("arr", d), "arr <- 5", "arr", "z <- arr", "OUTPUT arr", "arr + 1", "arr[1 <- 2", "arr[] <- 1", "z[1]", "z[1] <- 2", "z"]
        cases.append(repl("odd-%d" % si, es))
        for o in rng.sample(odd_indices(d, rng), 4):
            for st in ("arr[%s] <- 55", "OUTPUT arr[%s]"):
                cases.append(prog("of-%d-%s-%s" % (si, o, st[0]), ["DECLARE arr : ARRAY[%s] OF INTEGER" % dimt(d), "r2 <- 2.0", 'OUTPUT "go"', st % o, 'OUTPUT "no"'], ln=True))
    # whole-array assignment between all pairs
    decls = [(d, t) for d in ([(1, 4)], [(0, 3)], [(1, 3)], [(1, 2), (1, 2)], [(1, 4), (1, 1)], [(1, 1), (1, 4)], [(-1, 2)], [(5, 8)], [(2, 3), (2, 3)]) for t in ("INTEGER",)]
    decls += [([(1, 4)], t) for t in ("REAL", "STRING", "CHAR", "BOOLEAN", "Col")] + [([(1, 2), (1, 2)], "REAL"), ([(1, 4)], "INTEGER")]
    pairs = list(itertools.product(range(len(decls)), repeat=2))
    if q:
        pairs = [p for p in pairs if p[0] == p[1]] + rng.sample([p for p in pairs if p[0] != p[1]], 70)
    for i, j in pairs:
        (d1, t1), (d2, t2) = decls[i], decls[j]
        es = ["TYPE Col = (red, green, blue)", "DECLARE a : ARRAY[%s] OF %s" % (dimt(d1), t1), "DECLARE b : ARRAY[%s] OF %s" % (dimt(d2), t2)]
        es += ["%s <- %s" % (cell("a", ix), ELEMV[t1](k + 1)) for k, ix in enumerate(cells(d1))]
        es += ["%s <- %s" % (cell("b", ix), ELEMV[t2](k + 5)) for k, ix in enumerate(cells(d2))]
        es += ["b <- a", dumpa("a", d1), dumpa("b", d2), "%s <- %s" % (cell("b", cells(d2)[-1]), ELEMV[t2](9)), dumpa("a", d1), "%s <- %s" % (cell("a", cells(d1)[0]), ELEMV[t1](12)), dumpa("b", d2),
               "a <- b", dumpa("a", d1), dumpa("b", d2), "a <- a", dumpa("a", d1)]
        cases.append(repl("wh-%d-%d" % (i, j), es))
    # every dimension counts: the same number of cells per dimension under other bounds, other sizes, another order, another number of dimensions
    for n in range(24 if q else 240):
        d = [(a, a + k) for a, k in ((rng.randint(-2, 2), rng.randint(0, 2)) for _ in range(n % 4 + 1))]
        alt = []
        for k in range(len(d)):
            for nd in ((d[k][0] + 1, d[k][1] + 1), (d[k][0] - 1, d[k][1] - 1), (d[k][0], d[k][1] + 1), (d[k][0] - 1, d[k][1])):
                alt.append(d[:k] + [nd] + d[k + 1:])
        alt += [d[::-1], d + [(1, 1)], [(0, 0)] + d, [(x + 5, y + 5) for x, y in d], d[:-1], d[1:], d]
        if len(d) > 1:
            x, y = d[0], d[1]
            alt += [[(x[0] + 1, x[1] + 1), (y[0] - 1, y[1] - 1)] + d[2:], [(x[0], x[1] + 1), (y[0], y[1] - 1)] + d[2:] if y[0] < y[1] else d, [y, x] + d[2:]]
        alt = [x for x in alt if x]
        t = rng.choice(["INTEGER", "INTEGER", "STRING", "Col", "REAL"])
        es = ["TYPE Col = (red, green, blue)", "TYPE H\n DECLARE f : ARRAY[%s] OF %s\nENDTYPE" % (dimt(d), t), "DECLARE h : H", "DECLARE a : ARRAY[%s] OF %s" % (dimt(d), t)]
        es += ["%s <- %s" % (cell("a", ix), ELEMV[t](k + 1)) for k, ix in enumerate(cells(d))] + ["h.f <- a"]
        for k, e in enumerate(alt):
            c0, c1 = cells(e)[0], cells(e)[-1]
            es += ["DECLARE b%d : ARRAY[%s] OF %s" % (k, dimt(e), t), "%s <- %s" % (cell("b%d" % k, c1), ELEMV[t](k + 3)), rng.choice(["a <- b%d" % k, "h.f <- b%d" % k, "a <- b%d" % k]), rng.choice(["b%d <- a" % k, "b%d <- h.f" % k]), "OUTPUT %s, %s" % (cell("b%d" % k, c0), cell("b%d" % k, c1))]
            if k % 4 == 3 or k == len(alt) - 1:
                es += [dumpa("a", d), dumpa("h.f", d)]
        cases.append(repl("wd%d" % n, es))
    for i, es in enumerate(ARRAYS):
        cases += both("ar%d" % i, es)
    run(ck, cases, maxn=4000)
    run(ck, shapes06(rng, q), "plain", maxn=4000)
    run(ck, [c for c in cases if c["id"].startswith(("odd", "ar", "of"))], "asan", maxn=4000)
    for rnd in range(1 if q else 6):
        cases = [arrseq(random.Random(rng.random()), "q%d-%d" % (rnd, n)) for n in range(120 if q else 300)]
        run(ck, cases, "asan" if rnd % 2 else "plain")
        run(ck, rand_cases(rng, 40 if q else 200, "g%d-" % rnd, perr=0.05, ptrs=False), "asan")
        run(ck, gen_loops.loop_cases(rng, 50 if q else 200, "l%d-" % rnd), "plain", maxn=4000)
        run(ck, gen_dyn.dyn_cases(rng, 40 if q else 200, "d%d-" % rnd), "asan", maxn=4000)


def shapes06(rng, q):
    """arrays with every bound in [-3, 4]: a distinct value in every cell, all cells read back, every index tuple of the surrounding box probed by a read or a write"""
    one = [(a, b) for a in range(-3, 5) for b in range(a, 5)]
    small = [x for x in one if x[1] - x[0] < 4]
    shapes = [[x] for x in one]
    two = list(itertools.product(one, repeat=2))
    shapes += rng.sample(two, 45) if q else two
    three = []
    while len(three) < (45 if q else 900):
        d = [rng.choice(small) for _ in range(3)]
        n = [y - x + 1 for x, y in d]
        if n[0] * n[1] * n[2] <= 36 and (len(set(n)) > 1 or rng.random() < 0.1):
            three.append(d)
    four = []
    while len(four) < (8 if q else 120):
        d = [rng.choice(small) for _ in range(rng.choice([4, 4, 5]))]
        n = 1
        for x, y in d:
            n *= y - x + 1
        if 4 < n <= 36:
            four.append(d)
    out = []
    for si, d in enumerate(shapes + three + four):
        cs = cells(d)
        t = "INTEGER" if si % 4 else rng.choice(["STRING", "REAL", "CHAR", "Col"]) if len(cs) < 60 else "INTEGER"
        f = (lambda k: str(k + 1)) if t == "INTEGER" else ELEMV[t]
        es = ["TYPE Col = (red, green, blue)", "DECLARE arr : ARRAY[%s] OF %s" % (dimt(d), t)]
        if len(cs) > 12 and t == "INTEGER" and rng.random() < 0.6:
            # by nested loops, in a random nesting order
            ps = rng.sample(range(len(d)), len(d))
            es += ["n <- 0", "\n".join("FOR i%d <- %d TO %d" % (p, *d[p]) for p in ps) + "\nn <- n + 1\narr[%s] <- n\n" % ", ".join("i%d" % k for k in range(len(d))) + "\n".join("NEXT i%d" % p for p in reversed(ps))]
        else:
            es += ["%s <- %s" % (cell("arr", ix), f(k)) for k, ix in rng.sample(list(enumerate(cs)), len(cs))]
        es.append(dumpa("arr", d))
        box = [ix for ix in itertools.product(*[range(x - 1, y + 2) for x, y in d]) if ix not in set(cs)]
        if len(box) > 70:
            box = rng.sample(box, 70)
        for k, ix in enumerate(box):
            es.append(cell("arr", ix) + (" <- " + f(k) if rng.random() < 0.5 else ""))
        es.append(dumpa("arr", d))
        out.append(repl("sh%d" % si, es))
    return out


ARRAYS = [
    ["DECLARE a, b : ARRAY[1:2] OF INTEGER", "a[1] <- 1", "OUTPUT a[1], b[1]", "b <- a", "b[1] <- 2", "OUTPUT a[1], b[1]"],
    ["DECLARE a : ARRAY[1:3] OF INTEGER", "FOR i <- 1 TO 3\n a[i] <- i * i\nNEXT i", "a[a[2] - 3] <- 50", "OUTPUT a[1], a[2], a[3]", "a[a[3] - 8 + 1] <- a[1]", "OUTPUT a[1], a[2], a[3]"],
    ["PROCEDURE L(n : INTEGER)\n DECLARE a : ARRAY[1:3] OF INTEGER\n OUTPUT a[1], a[2], a[3]\n a[n] <- n\n IF n > 1 THEN\n CALL L(n - 1)\n ENDIF\n OUTPUT a[1], a[2], a[3]\nENDPROCEDURE", "CALL L(3)", "CALL L(1)"],
    ["DECLARE a : ARRAY[1:2] OF INTEGER", "PROCEDURE G\n a[1] <- a[1] + 1\nENDPROCEDURE", "CALL G", "CALL G", "OUTPUT a[1], a[2]"],
    ["FUNCTION Ix(n : INTEGER) RETURNS INTEGER\n OUTPUT \"ix\", n\n RETURN n\nENDFUNCTION", "DECLARE a : ARRAY[1:2, 1:3] OF INTEGER", "a[Ix(1), Ix(2)] <- Ix(7)", "OUTPUT a[Ix(1), Ix(2)]", "OUTPUT a[1, 1], a[2, 1], a[1, 2]"],
    ["TYPE R\n DECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE", "DECLARE r, s : R", "DECLARE m : ARRAY[1:2] OF INTEGER", "m[1] <- 4", "r.a[2] <- 5", "m <- r.a", "OUTPUT m[1], m[2]", "m[2] <- 6", "OUTPUT r.a[2]",
     "r.a <- m", "OUTPUT r.a[1], r.a[2]", "m[1] <- 9", "OUTPUT r.a[1]", "s.a <- r.a", "s.a[1] <- 70", "OUTPUT r.a[1], s.a[1], s.a[2]"],
    ["DECLARE a : ARRAY[2:1] OF INTEGER", "a[1]", "DECLARE b : ARRAY[1:1.5] OF INTEGER", "DECLARE c : ARRAY[\"1\":2] OF INTEGER", "DECLARE d : ARRAY[1:2] OF Nothing", "DECLARE e : ARRAY[1:2] OF INTEGER", "DECLARE e : ARRAY[1:3] OF INTEGER", "e[3]",
     "DECLARE e : INTEGER", "e", "n <- 3", "DECLARE f : ARRAY[1:n] OF INTEGER", "n <- 5", "f[3] <- 1", "f[4]", "f[3]", "DECLARE g : ARRAY[-n:n - 4] OF INTEGER", "g[-5]", "g[1]", "g[2]"],
    ["DECLARE a : ARRAY[1:2] OF CHAR", "a[1] <- \"x\"", "a[2] <- \"xy\"", "a[1] <- 5", "OUTPUT a[1]", "DECLARE r : ARRAY[1:2] OF REAL", "r[1] <- 3", "r[2] <- \"a\"", "r[1]", "r[2]"],
    ["DECLARE g : ARRAY[1:2] OF ARRAY[1:2] OF INTEGER"], ["a[1] <- 5"], ["OUTPUT a[1]"], ["a <- 5", "OUTPUT a[1]"],
    ["DECLARE a : ARRAY[1:3] OF INTEGER", "a[2] <- 5", "PROCEDURE P(BYREF x : INTEGER, BYREF y : INTEGER)\n x <- 1\n y <- 2\nENDPROCEDURE", "CALL P(a[1], a[3])", "OUTPUT a[1], a[2], a[3]", "CALL P(a[2], a[2])", "OUTPUT a[1], a[2], a[3]"],
    ["DECLARE m : ARRAY[0:2, 0:2] OF INTEGER", "FOR i <- 0 TO 2\n FOR j <- 0 TO 2\n m[i, j] <- i * 10 + j\n NEXT j\nNEXT i", "FOR i <- 0 TO 2\n FOR j <- 0 TO 2\n OUTPUT m[j, i], \" \", m[i, j]\n NEXT j\nNEXT i"],
    ["DECLARE big : ARRAY[1:70, 1:70] OF INTEGER", "big[1, 1] <- 1", "big[70, 70] <- 2", "big[35, 36] <- 3", "big[36, 35] <- 4", "OUTPUT big[1, 1], big[70, 70], big[35, 36], big[36, 35], big[1, 70], big[70, 1], big[2, 1]"],
]


def arrseq(r, id):
    sh = [[(1, 3)], [(1, 3)], r.choice([[(0, 2)], [(1, 2), (1, 2)], [(-1, 1)]])]
    ns = ["a", "b", "c"]
    es = ["DECLARE %s : ARRAY[%s] OF INTEGER" % (n, dimt(d)) for n, d in zip(ns, sh)] + ["DECLARE i : INTEGER", "i <- 1", "TYPE PI = ^INTEGER", "DECLARE p : PI",
         "TYPE R\n DECLARE n : INTEGER\n DECLARE v : ARRAY[1:2] OF INTEGER\nENDTYPE", "DECLARE rs : ARRAY[1:2] OF R", "PROCEDURE Inc(BYREF x : INTEGER)\n x <- x + 1\nENDPROCEDURE",
         "PROCEDURE Two(BYREF x : INTEGER, y : INTEGER)\n x <- y + 1\n y <- x + 1\nENDPROCEDURE", "p <- ^a[1]"]

    def ref(bad=0.08):
        k = r.randint(0, 4)
        if k < 3:
            ix = []
            for l, u in sh[k]:
                if r.random() < bad:
                    ix.append(r.choice([str(l - 1), str(u + 1), "1.5", "9999999999"]))
                else:
                    v = r.randint(l, u)
                    ix.append(r.choice([str(v), str(v), "i" if l <= 1 <= u else str(v), "i + %d" % (v - 1) if r.random() < 0.3 else str(v)]))
            return "%s[%s]" % (ns[k], ", ".join(ix))
        if k == 3:
            return r.choice(["rs[%d].n", "rs[%d].v[1]", "rs[%d].v[2]"]) % r.randint(1, 2)
        return "p^"
    dump = [dumpa(n, d) for n, d in zip(ns, sh)] + ["OUTPUT i, p^, rs[1].n, rs[1].v[1], rs[1].v[2], rs[2].n, rs[2].v[1], rs[2].v[2]"]
    for _ in range(r.randint(10, 18)):
        k = r.random()
        if k < 0.45:
            es.append("%s <- %s" % (ref(), r.choice([str(r.randint(0, 9)), ref(), ref() + " + 1", '"x"', "2.5"] if r.random() < 0.3 else [str(r.randint(0, 9)), ref()])))
        elif k < 0.6:
            es.append("%s <- %s" % tuple(r.choices(ns, k=2)))
        elif k < 0.75:
            es.append(r.choice(["CALL Inc(%s)" % ref(), "CALL Two(%s, %s)" % (ref(), ref())]))
        elif k < 0.82:
            es.append("p <- ^" + ref(0.03).replace("p^", "a[2]"))
        elif k < 0.9:
            es.append("i <- %d" % r.randint(1, 2))
        elif k < 0.95:
            es.append("rs[%d] <- rs[%d]" % (r.randint(1, 2), r.randint(1, 3)))
        else:
            es += ["INPUT " + ref(), r.choice(["5", "7", "abc"])]
        es += dump
    return repl(id, es)


# ------------------------------------------------------------------ C07
RDEF = ["TYPE Col = (red, green, blue)", "TYPE In\n DECLARE n : INTEGER\n DECLARE s : STRING\n DECLARE v : ARRAY[1:2] OF INTEGER\nENDTYPE",
        "TYPE Mid\n DECLARE i : In\n DECLARE c : Col\n DECLARE j : ARRAY[0:1] OF In\nENDTYPE", "TYPE Out\n DECLARE m : Mid\n DECLARE b : BOOLEAN\n DECLARE r : REAL\n DECLARE ch : CHAR\nENDTYPE"]
LEAF = {"In": [(".n", "I"), (".s", "S"), (".v[1]", "I"), (".v[2]", "I")], "Mid": None, "Out": None}


def leaves(t):
    if t == "In":
        return [(".n", "I"), (".s", "S"), (".v[1]", "I"), (".v[2]", "I")]
    if t == "Mid":
        return [(p + l, k) for p in (".i", ".j[0]", ".j[1]") for l, k in leaves("In")] + [(".c", "E")]
    return [(".m" + l, k) for l, k in leaves("Mid")] + [(".b", "B"), (".r", "R"), (".ch", "C")]


def val(r, k):
    return {"I": str(r.randint(-99, 99)), "S": '"%s"' % r.choice(["x", "yy", "zzz", "", "w w"]), "E": r.choice(["red", "green", "blue"]), "B": r.choice(["TRUE", "FALSE"]), "R": r.choice(["0.5", "2.25", "-1.75"]),
            "C": "'%s'" % r.choice("pqr")}[k]


def dumpr(n, t):
    return "OUTPUT " + ', ",", '.join(n + l for l, k in leaves(t))


@check("C07", "model_checking",
       "Records of three nesting depths (fields of every primitive and enumerated type, array fields, nested records, arrays of records): every copy channel (assignment between variables, "
       "elements, fields and pointer targets, BYVAL parameter, RETURN, whole-array copy, PUTRECORD/GETRECORD) followed by a write to every leaf of either side with a dump of both; defaults; "
       "ill-typed field stores; undeclared fields; and random sequences over a world of records.")
def c07(ck, rng, tier):
    q = tier == "quick"
    mc.replay(ck, rng, tier, "MC_Rec", (3, 110), (4, 1500), length=60)
    cases = []
    pl = {"In": ["x", "a[1]", "a[2]", "mm.i", "mm.j[0]", "oo.m.i", "oo.m.j[1]", "am[2].i", "am[1].j[1]", "p^"], "Mid": ["mm", "nn", "oo.m", "am[1]", "am[2]", "pm^"], "Out": ["oo", "o2", "ao[0]", "ao[1]"]}
    world = RDEF + ["TYPE PIn = ^In", "TYPE PMid = ^Mid", "DECLARE x, y : In", "DECLARE a, a2 : ARRAY[1:2] OF In", "DECLARE mm, nn : Mid", "DECLARE am : ARRAY[1:2] OF Mid", "DECLARE oo, o2 : Out",
                    "DECLARE ao : ARRAY[0:1] OF Out", "DECLARE p : PIn", "DECLARE pm : PMid", "p <- ^y", "pm <- ^am[2]"]
    fns = ["FUNCTION Id%s(r : %s) RETURNS %s\n RETURN r\nENDFUNCTION" % (t, t, t) for t in pl] + \
          ["FUNCTION Ch%s(r : %s) RETURNS %s\n r%s <- 1234\n RETURN r\nENDFUNCTION" % (t, t, t, leaves(t)[0][0]) for t in pl]
    # defaults
    for t in pl:
        for p in pl[t]:
            cases.append(repl("df-%s-%s" % (t, p), world + [dumpr(p, t)]))
    for t in pl:
        prs = [(s, d) for s in pl[t] for d in pl[t] if s != d]
        if q and len(prs) > 20:
            prs = rng.sample(prs, 20)
        for s, d in prs:
            es = world + fns + ["%s%s <- %s" % (s, l, val(rng, k)) for l, k in leaves(t)] + [dumpr(s, t), dumpr(d, t), "%s <- %s" % (d, s), dumpr(d, t)]
            ls = leaves(t) if not q else rng.sample(leaves(t), min(4, len(leaves(t))))
            for l, k in ls:
                es += ["%s%s <- %s" % (d, l, val(rng, k)), dumpr(s, t), dumpr(d, t), "%s%s <- %s" % (s, l, val(rng, k)), dumpr(s, t), dumpr(d, t)]
            es += ["%s <- Id%s(%s)" % (d, t, s), dumpr(d, t), "%s <- Ch%s(%s)" % (d, t, s), dumpr(s, t), dumpr(d, t), "%s <- %s" % (s, s), dumpr(s, t)]
            cases.append(repl("cp-%s-%s-%s" % (t, s, d), es))
    # field types and unknown fields
    for t in pl:
        for p in pl[t][: 3 if q else 9]:
            es = world[:]
            es += ["%s%s <- %s" % (p, l, val(rng, k)) for l, k in leaves(t)]
            for l, k in leaves(t) if not q else rng.sample(leaves(t), min(7, len(leaves(t)))):
                for s in ("5", "2.5", "TRUE", "'c'", '"c"', '"str"', "red", "x", "1/2/2020", "a", "undef"):
                    es += ["%s%s <- %s" % (p, l, s)]
                es += [dumpr(p, t)]
            es += ["%s.zz <- 1" % p, "%s.zz" % p, "%s.n.n" % p, "%s.N" % p, "%s.In" % p, "%s[1]" % p, "%s^" % p, "p^.zz", dumpr(p, t), "%s <- 5" % p, "%s <- %s" % (p, pl["In" if t != "In" else "Mid"][0]), dumpr(p, t),
                   "OUTPUT " + p, "%s + 1" % p, "%s = %s" % (p, p), p]
            cases.append(repl("ft-%s-%s" % (t, p), es))
    # fields the type does not declare, under every name that means something elsewhere
    names = ["x", "a", "mm", "n", "s", "v", "i", "c", "j", "m", "b", "r", "ch", "g1", "gs", "K9", "ga", "gr", "In", "Mid", "Out", "Col", "PIn", "red", "p", "Pr", "Fn", "IdIn", "it", "zz", "par"]
    glob = ["DECLARE g1 : INTEGER", "DECLARE gs : STRING", "CONSTANT K9 = 9", "DECLARE ga : ARRAY[1:2] OF INTEGER", "DECLARE gr : In", "g1 <- 41", "gs <- \"text\"", "ga[1] <- 5", "gr.n <- 6", "FOR it <- 1 TO 2\nNEXT it", "PROCEDURE Pr(BYREF z : INTEGER)\n z <- 77\nENDPROCEDURE", "FUNCTION Fn(z : INTEGER) RETURNS INTEGER\n RETURN z\nENDFUNCTION"]
    fld = {"In": "nsv", "Mid": "icj", "Out": ["m", "b", "r", "ch"]}
    allp = [(t, p) for t in pl for p in pl[t]]
    for t, p in (rng.sample(allp, 9) if q else allp):
        es = world + glob
        for nm in (rng.sample(names, 16) if q else names):
            if nm in fld[t]:
                continue
            es += rng.sample(["%s.%s" % (p, nm), "%s.%s <- 1" % (p, nm), "OUTPUT %s.%s" % (p, nm), "INPUT %s.%s\n12\n" % (p, nm) if 0 else "g1 <- %s.%s + 1" % (p, nm), "CALL Pr(%s.%s)" % (p, nm), "g1 <- Fn(%s.%s)" % (p, nm), "p <- ^%s.%s" % (p, nm), "%s.%s[1] <- 1" % (p, nm), "OUTPUT %s.%s[1]" % (p, nm),
                              "%s.%s.n <- 1" % (p, nm), "gr <- %s.%s" % (p, nm), "IF %s.%s = 1 THEN\n OUTPUT 1\nENDIF" % (p, nm), "FOR q9 <- 1 TO %s.%s\n OUTPUT q9\nNEXT q9" % (p, nm), "%s.%s^ <- 1" % (p, nm)], 4 if q else 9)
        es += ["OUTPUT g1, gs, K9, ga[1], ga[2], gr.n, gr.s", dumpr("x", "In"), dumpr("mm", "Mid"), dumpr("oo", "Out"), dumpr(p, t)]
        # inside a procedure the locals and parameters are not fields either
        if p in ("x", "mm", "oo"):
            es += ["PROCEDURE Loc(par : INTEGER)\n DECLARE l1 : INTEGER\n l1 <- 3\n OUTPUT %s.%s\nENDPROCEDURE" % (p, nm) for nm in ["l1"]] + ["CALL Loc(1)", "PROCEDURE Loc2(par : INTEGER)\n %s.par <- 3\nENDPROCEDURE" % p, "CALL Loc2(1)", dumpr(p, t)]
        cases.append(repl("uf-%s-%s" % (t, p), es))
    for i, es in enumerate(RECS):
        cases += both("rc%d" % i, es)
        cases.append(repl("rx%d" % i, es + ["1"]))
    run(ck, cases, maxn=4000)
    run(ck, [c for c in cases if c["id"].startswith(("rc", "cp-Mid"))][:60], "asan", maxn=4000)
    for rnd in range(1 if q else 6):
        cases = [recseq(random.Random(rng.random()), "q%d-%d" % (rnd, n), world + fns, pl) for n in range(120 if q else 300)]
        run(ck, cases, "plain" if rnd % 2 else "asan", maxn=4000)
        run(ck, rand_cases(rng, 40 if q else 200, "g%d-" % rnd, perr=0.03), "plain")
        run(ck, gen_loops.loop_cases(rng, 50 if q else 200, "l%d-" % rnd), "plain", maxn=4000)
        run(ck, gen_recs.rec_cases(rng, 40 if q else 200, "r%d-" % rnd), "asan" if rnd % 2 else "plain", maxn=4000)
        run(ck, gen_dyn.dyn_cases(rng, 40 if q else 200, "d%d-" % rnd), "plain" if rnd % 2 else "asan", maxn=4000)


RECS = [
    ["TYPE R\n DECLARE n : INTEGER\nENDTYPE", "DECLARE a, b : R", "a.n <- 1", "b <- a", "b.n <- 2", "OUTPUT a.n, b.n", "PROCEDURE P(r : R)\n r.n <- 50\n OUTPUT r.n\nENDPROCEDURE", "CALL P(a)", "OUTPUT a.n",
     "PROCEDURE Q(BYREF r : R)\n r.n <- 60\nENDPROCEDURE", "CALL Q(a)", "OUTPUT a.n", "CALL Q(b)", "OUTPUT a.n, b.n"],
    ["TYPE R\n DECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE", "DECLARE x, y : R", "PROCEDURE P(r : R)\n r.a[1] <- 9\n OUTPUT r.a[1]\nENDPROCEDURE", "x.a[1] <- 1", "CALL P(x)", "OUTPUT x.a[1]", "y <- x", "y.a[1] <- 3", "OUTPUT x.a[1], y.a[1]"],
    ["TYPE R\n DECLARE n : INTEGER\nENDTYPE", "DECLARE g : R", "FUNCTION F() RETURNS R\n g.n <- g.n + 1\n RETURN g\nENDFUNCTION", "DECLARE h : R", "h <- F()", "g.n <- 100", "OUTPUT h.n, g.n", "h <- F()", "h.n <- 5", "OUTPUT h.n, g.n"],
    ["TYPE R\n DECLARE n : INTEGER\nENDTYPE", "DECLARE a, b : ARRAY[1:2] OF R", "a[1].n <- 1", "a[2].n <- 2", "b <- a", "a[1].n <- 10", "b[2].n <- 20", "OUTPUT a[1].n, a[2].n, b[1].n, b[2].n"],
    ["TYPE R\n DECLARE n : INTEGER\nENDTYPE", "TYPE S\n DECLARE n : INTEGER\nENDTYPE", "DECLARE a : R", "DECLARE b : S", "a.n <- 1", "b <- a", "b.n", "a <- b", "a.n"],
    ["TYPE R\n DECLARE n : INTEGER\nENDTYPE", "DECLARE a : R", "c <- a", "c.n", "c.n <- 4", "OUTPUT a.n, c.n"],
    ["TYPE R\n DECLARE n : INTEGER\n DECLARE n : STRING\nENDTYPE", "DECLARE a : R"], ["TYPE R\n DECLARE a : R\nENDTYPE", "DECLARE a : R"], ["TYPE R\n DECLARE x : Nope\nENDTYPE", "DECLARE a : R"], ["DECLARE a : R", "TYPE R\n DECLARE n : INTEGER\nENDTYPE"],
    ["TYPE R\n DECLARE x, y, z : INTEGER\nENDTYPE", "DECLARE a, b : R", "a.x <- 1", "a.y <- 2", "a.z <- 3", "OUTPUT a.x, a.y, a.z, b.x, b.y, b.z", "b <- a", "b.y <- 7", "OUTPUT a.x, a.y, a.z, b.x, b.y, b.z"],
    ["TYPE R\n DECLARE n : INTEGER\nENDTYPE", "PROCEDURE P\n DECLARE l : R\n OUTPUT l.n\n l.n <- 5\n OUTPUT l.n\nENDPROCEDURE", "CALL P", "CALL P"],
    ["TYPE R\n DECLARE n : INTEGER\nENDTYPE", "FUNCTION B(d : INTEGER) RETURNS R\n DECLARE l : R\n DECLARE k : R\n l.n <- d\n IF d > 0 THEN\n k <- B(d - 1)\n l.n <- l.n + k.n\n ENDIF\n RETURN l\nENDFUNCTION", "DECLARE r : R", "r <- B(5)", "r.n", "r <- B(2)", "r.n"],
    ["TYPE R\n DECLARE n : INTEGER\n DECLARE d : DATE\nENDTYPE", "DECLARE a, b : R", "a.d <- 5/6/2007", "b <- a", "a.d <- 1/1/2001", "OUTPUT a.d, b.d", "b.d <- 30/2/2001", "OUTPUT b.d", "a.d <- \"1/1/2001\"", "OUTPUT a.d"],
    ["TYPE P = ^INTEGER", "TYPE R\n DECLARE p : P\nENDTYPE", "x <- 1", "y <- 2", "DECLARE a, b : R", "a.p <- ^x", "b <- a", "a.p <- ^y", "q1 <- a.p", "OUTPUT q1^", "q2 <- b.p", "OUTPUT q2^"],
    ["TYPE N\n DECLARE v : INTEGER\nENDTYPE", "TYPE PN = ^N", "DECLARE n, m : N", "DECLARE p : PN", "p <- ^n", "m.v <- 8", "p^ <- m", "OUTPUT n.v", "m.v <- 9", "OUTPUT n.v", "n.v <- 3", "m <- p^", "n.v <- 4", "OUTPUT m.v"],
]


def recseq(r, id, world, pl):
    es = world[:]
    for t in pl:
        for p in r.sample(pl[t], 3):
            es += ["%s%s <- %s" % (p, l, val(r, k)) for l, k in r.sample(leaves(t), 4)]
    dump = [dumpr("x", "In"), dumpr("y", "In"), dumpr("a[1]", "In"), dumpr("a[2]", "In"), dumpr("mm", "Mid"), dumpr("am[1]", "Mid"), dumpr("am[2]", "Mid"), dumpr("oo", "Out"), dumpr("ao[1]", "Out")]
    for n in range(r.randint(6, 10)):
        t = r.choice(list(pl))
        s, d = r.choice(pl[t]), r.choice(pl[t])
        l, k = r.choice(leaves(t))
        es.append(r.choice(["%s <- %s" % (d, s), "%s <- %s" % (d, s), "%s%s <- %s" % (d, l, val(r, k)), "%s%s <- %s" % (d, l, val(r, k)), "%s <- Ch%s(%s)" % (d, t, s), "a2 <- a", "a <- a2", "oo.m.j <- mm.j", "am[1].j <- oo.m.j",
                            "x.v <- y.v", "p <- ^a[%d]" % r.randint(1, 2), "pm <- ^oo.m", "p <- ^am[1].i", "%s%s <- %s%s" % (d, l, s, l), "%s <- %s" % (d, r.choice(pl[r.choice(list(pl))]))]))
        es += r.sample(dump, 4) if n % 3 else dump
    return repl(id, es + dump)


# ------------------------------------------------------------------ C08
CONSTS = [("INTEGER", "41", "42"), ("REAL", "2.5", "3.5"), ("BOOLEAN", "TRUE", "FALSE"), ("CHAR", "'c'", "'d'"), ("STRING", '"text"', '"other"'), ("INTEGER", "-7", "8"), ("REAL", "-0.5", "1.5")]


@check("C08", "model_checking",
       "Constants of every literal form (both definition syntaxes, global, local to a procedure, inside branches and loops), each attacked by every writing statement - assignment, redefinition, "
       "redeclaration, FOR, INPUT, READFILE, GETRECORD, BYREF parameters (direct and forwarded), pointers (direct, copied, through records and arrays) - from the main program and from procedures; the constant is read back after every attempt. "
       "Then random sequences mixing the attempts with legal uses.")
def c08(ck, rng, tier):
    q = tier == "quick"
    mc.replay(ck, rng, tier, "MC_Const", (40, 140), (40, None))
    cases = []
    for i, (t, v, w) in enumerate(CONSTS):
        for eq in ("=", "<-"):
            es = attack_setup(t, w) + ["CONSTANT c %s %s" % (eq, v), "c"]
            for a in attacks(t, v, w):
                if not opens(a):
                    es += a + ["c"]
            cases.append(repl("at-%d-%s" % (i, "e" if eq == "=" else "a"), es, files=cfiles(t, w)))
        for j, a in enumerate(attacks(t, v, w)):
            cases.append(prog("af-%d-%d" % (i, j), attack_setup(t, w) + ["CONSTANT c = " + v, "OUTPUT c"] + a + ["OUTPUT c", 'OUTPUT "end"'], w.strip("'\"") + "\n", files=cfiles(t, w)))
            # a local constant
            b = [x for x in a if x.split()[0] not in ("PROCEDURE", "TYPE", "FUNCTION")]
            if len(b) == len(a):
                cases.append(prog("al-%d-%d" % (i, j), attack_setup(t, w) + ["PROCEDURE Loc\nCONSTANT c = %s\nOUTPUT c\n%s\nOUTPUT c\nENDPROCEDURE" % (v, "\n".join(a)), "CALL Loc"],
                                  w.strip("'\"") + "\n", files=cfiles(t, w)))
                # the constant is global, the attempt happens in a procedure
                cases.append(prog("ag-%d-%d" % (i, j), attack_setup(t, w) + ["CONSTANT c = " + v, "PROCEDURE Att\nOUTPUT c\n%s\nOUTPUT c\nENDPROCEDURE" % "\n".join(a), "CALL Att"],
                                  w.strip("'\"") + "\n", files=cfiles(t, w)))
                cases.append(repl("ar-%d-%d" % (i, j), attack_setup(t, w) + ["CONSTANT c = " + v, "PROCEDURE Att\nOUTPUT c\n%s\nOUTPUT c\nENDPROCEDURE" % "\n".join(a), "CALL Att"] +
                                  ([w.strip("'\"")] if a[0].startswith("INPUT") else []) + ["c", "CLOSEFILE \"t.txt\"", "c"], files=cfiles(t, w)))
    for i, es in enumerate(CLIST):
        cases += both("cl%d" % i, es)
    run(ck, cases, maxn=4000)
    run(ck, [c for c in cases if c["id"].startswith(("at", "ar"))][:: 2 if q else 1], "asan", maxn=4000)
    for rnd in range(1 if q else 6):
        cases = [constseq(random.Random(rng.random()), "q%d-%d" % (rnd, n)) for n in range(100 if q else 300)]
        cases += [constctx(random.Random(rng.random()), "x%d-%d" % (rnd, n)) for n in range(160 if q else 500)]
        run(ck, cases, "plain" if rnd % 2 == 0 else "asan", maxn=4000)


def cfiles(t, w):
    return {b"t.txt": B(w.strip("'\"") + "\nsecond\n")}


def opens(a):
    """redefinitions of a name as something of another kind: left open by the specification"""
    return a[0].startswith(("DECLARE c : ARRAY", "TYPE c", "TYPE Q"))


def attack_setup(t, w):
    return ["TYPE PT = ^" + t, "TYPE Box\n DECLARE p : PT\n DECLARE v : %s\nENDTYPE" % t, "DECLARE pt, pu : PT", "DECLARE bx : Box", "DECLARE ap : ARRAY[1:2] OF PT", "DECLARE other : " + t, "other <- " + w,
            "PROCEDURE Wr(BYREF z : %s)\n z <- %s\nENDPROCEDURE" % (t, w), "PROCEDURE Fw(BYREF y : %s)\n CALL Wr(y)\nENDPROCEDURE" % t, "PROCEDURE Rd(BYREF z : %s)\n OUTPUT z\nENDPROCEDURE" % t,
            "PROCEDURE Pv(z : %s)\n z <- %s\n OUTPUT z\nENDPROCEDURE" % (t, w), "FUNCTION Fn(BYREF z : %s) RETURNS %s\n z <- %s\n RETURN z\nENDFUNCTION" % (t, t, w)]


def attacks(t, v, w):
    out = [["c <- " + w], ["c <- c"], ["c <- other"], ["CONSTANT c = " + w], ["CONSTANT c = " + v], ["DECLARE c : " + t], ["DECLARE c : ARRAY[1:2] OF " + t], ["DECLARE c, fresh%s : %s" % (t, t)],
           ["CALL Wr(c)"], ["CALL Fw(c)"], ["CALL Pv(c)"], ["CALL Rd(c)"], ["OUTPUT Fn(c)"],
           ["pt <- ^c", "pt^ <- " + w], ["pt <- ^c", "pu <- pt", "pu^ <- " + w], ["bx.p <- ^c", "pu <- bx.p", "pu^ <- " + w], ["ap[1] <- ^c", "pu <- ap[1]", "pu^ <- " + w],
           ["pt <- ^c", "CALL Wr(pt^)"], ["pt <- ^c", "OUTPUT pt^"], ["pt <- ^other", "pt^ <- c", "OUTPUT other"], ["other <- c", "other <- " + w, "OUTPUT other"],
           ["FOR c <- 1 TO 3\n OUTPUT \"it\"\nNEXT c"], ["FOR i <- 1 TO 3\n c <- %s\nNEXT i" % w], ["OPENFILE \"t.txt\" FOR READ", "READFILE \"t.txt\", c", "CLOSEFILE \"t.txt\""],
           ["OPENFILE \"r.dat\" FOR RANDOM", "PUTRECORD \"r.dat\", other", "SEEK \"r.dat\", 1", "GETRECORD \"r.dat\", c", "CLOSEFILE \"r.dat\""],
           ["OPENFILE \"s.dat\" FOR RANDOM", "PUTRECORD \"s.dat\", c", "SEEK \"s.dat\", 1", "GETRECORD \"s.dat\", other", "OUTPUT other", "CLOSEFILE \"s.dat\""],
           ["INPUT c", ], ["c[1] <- " + w], ["c.f <- " + w], ["c^ <- " + w], ["IF TRUE THEN\n c <- %s\nENDIF" % w], ["REPEAT\n c <- %s\nUNTIL TRUE" % w], ["CASE OF other\n %s : c <- other\nENDCASE" % w],
           ["TYPE c = (aa, bb)"], ["TYPE Q = (c, d)"], ["PROCEDURE c\nENDPROCEDURE"]]
    res = []
    for a in out:
        if a[0].startswith("INPUT"):
            a = ["INPUT c", w.strip("'\"")] if False else a
        res.append(a)
    return res


CLIST = [
    ["CONSTANT c = 5", "OUTPUT c", "PROCEDURE P\n OUTPUT c\n CONSTANT c = 6\n OUTPUT c\nENDPROCEDURE", "CALL P", "c", "CALL P", "c"],
    ["CONSTANT c = 5", "PROCEDURE P(c : INTEGER)\n c <- c + 1\n OUTPUT c\nENDPROCEDURE", "CALL P(1)", "CALL P(c)", "c"],
    ["CONSTANT c = 5", "PROCEDURE P\n DECLARE c : STRING\n c <- \"loc\"\n OUTPUT c\nENDPROCEDURE", "CALL P", "c"],
    ["PROCEDURE P(n : INTEGER)\n CONSTANT k = 3\n OUTPUT k + n\n IF n > 0 THEN\n CALL P(n - 1)\n ENDIF\n OUTPUT k\nENDPROCEDURE", "CALL P(3)"],
    ["CONSTANT c = 5", "FUNCTION F() RETURNS INTEGER\n RETURN c\nENDFUNCTION", "x <- F()", "x <- x + 1", "OUTPUT x, c"],
    ["CONSTANT c = \"abc\"", "s <- c", "s <- s & \"d\"", "OUTPUT c, s", "OUTPUT LEFT(c, 2), TO_UPPER(c), c & \"z\"", "c"],
    ["x <- 1", "CONSTANT x = 2", "x", "x <- 3", "x"], ["DECLARE x : INTEGER", "CONSTANT x = 2", "x"], ["CONSTANT c = 1 + 1", "c"], ["CONSTANT c = x", "c"], ["CONSTANT c = -5", "c"], ["CONSTANT c = 1/2/2003", "c"], ["CONSTANT c = -2.5", "OUTPUT c + 1"],
    ["CONSTANT c"], ["CONSTANT = 3"], ["CONSTANT c 3"], ["CONSTANT c = "], ["CONSTANT c = TRUE", "IF c THEN\n OUTPUT \"yes\"\nENDIF", "c <- FALSE", "c"],
    ["FOR i <- 1 TO 3\n CONSTANT q = 4\n OUTPUT q\nNEXT i", "q", "q <- 5", "q"],
    ["IF TRUE THEN\n CONSTANT q = 4\nENDIF", "q", "q <- 5", "q"],
    ["CONSTANT a = 1", "CONSTANT b = 2", "CONSTANT c = 3", "OUTPUT a, b, c", "a <- b", "OUTPUT a, b, c", "b <- c", "OUTPUT a, b, c"],
    ["CONSTANT lim = 3", "DECLARE m : ARRAY[1:lim] OF INTEGER", "FOR i <- 1 TO lim\n m[i] <- lim * i\nNEXT i", "OUTPUT m[1], m[lim]", "m[lim] <- 0", "lim", "m[lim + 1]"],
    ["CONSTANT c = 5", "TYPE PI = ^INTEGER", "DECLARE p, q : PI", "PROCEDURE S(BYREF r : PI)\n r^ <- 9\nENDPROCEDURE", "p <- ^c", "CALL S(p)", "c", "PROCEDURE T(r : PI)\n r^ <- 9\nENDPROCEDURE", "CALL T(p)", "c", "q <- p", "q^ <- q^ + 1", "c", "q^"],
    ["CONSTANT c = 5", "PROCEDURE P(BYREF x : INTEGER)\n FOR x <- 1 TO 3\n NEXT x\nENDPROCEDURE", "CALL P(c)", "c", "PROCEDURE Q(BYREF x : INTEGER)\n INPUT x\nENDPROCEDURE", "CALL Q(c)", "8", "c"],
    ["CONSTANT c = 5", "PROCEDURE P(BYREF x : INTEGER)\n OUTPUT x\nENDPROCEDURE", "CALL P(c)", "c"],
]


def constseq(r, id):
    t, v, w = r.choice(CONSTS)
    es = attack_setup(t, w)
    at = [a for a in attacks(t, v, w) if not opens(a)]
    k = r.randint(0, 4)
    for i in range(r.randint(8, 14)):
        if i == k:
            es.append("CONSTANT c = " + v)
        a = r.choice(at)
        es += a + ["c"]
        if r.random() < 0.3:
            es += r.choice([["other <- " + w], ["pt <- ^other"], ["pt^ <- " + w], ["c & \"\""], ["CALL Wr(other)"]]) + ["other"]
        if a[0] == "INPUT c" and i > k:
            pass
    return repl(id, es, files=cfiles(t, w))


def cwrites(t, w):
    """every statement that writes a variable, as a template of the name"""
    out = ["@ <- " + w, "@ <- other", "@ <- @", "INPUT @", 'OPENFILE "t.txt" FOR READ\nREADFILE "t.txt", @\nCLOSEFILE "t.txt"', 'OPENFILE "s.dat" FOR RANDOM\nPUTRECORD "s.dat", other\nSEEK "s.dat", 1\nGETRECORD "s.dat", @\nCLOSEFILE "s.dat"',
           "CALL Wr(@)", "CALL Fw(@)", "other <- Fn(@)", "OUTPUT Fn(@)", "IF Fn(@) = other THEN\nOUTPUT \"eq\"\nENDIF", "CALL Two(other, @)", "CALL Two(@, other)", "CALL Two(@, @)", "CALL Mix(other, @)", "CALL Mix(@, other)",
           "pt <- ^@\npt^ <- " + w, "pt <- ^@\nCALL Wr(pt^)", "bx.p <- ^@\npu <- bx.p\npu^ <- other", "ap[2] <- ^@\npt <- ap[2]\nCALL Fw(pt^)", "pt <- ^@\nINPUT pt^", "pt <- ^@\nCALL Pw(pt)", "pt <- ^@\nCALL Pr(pt)"]
    for st in ("", " STEP 1", " STEP 2", " STEP -1", " STEP other"):
        for a, b in (("1", "3"), ("3", "1"), ("2", "2"), ("@", "3"), ("1", "@")):
            out.append("FOR @ <- %s TO %s%s\nOUTPUT \"b\"\nNEXT @" % (a, b, st))
    return out


CWRAP = ["@", "IF TRUE THEN\n@\nENDIF", "IF FALSE THEN\nOUTPUT 1\nELSE\n@\nENDIF", "FOR i1 <- 1 TO 2\n@\nNEXT i1", "FOR i2 <- 1 TO 3 STEP 2\n@\nNEXT i2", "REPEAT\n@\nUNTIL TRUE", "w1 <- 0\nWHILE w1 < 2 DO\nw1 <- w1 + 1\n@\nENDWHILE",
         "CASE OF one\n1 : @@\nOTHERWISE : OUTPUT 0\nENDCASE", "CASE OF one\n2 : OUTPUT 0\nOTHERWISE : @@\nENDCASE", "IF FALSE THEN\nOUTPUT 1\nELSE IF TRUE THEN\n@\nENDIF"]


def constctx(r, id):
    """write statements x what they are inside of x what the written name stands for; the same statement is also run on variables before"""
    t, v, w = r.choice(CONSTS)
    if r.random() < 0.4:
        t, v, w = [c for c in CONSTS if c[0] == "INTEGER"][0]
    ws = cwrites(t, w)
    es = attack_setup(t, w) + ["one <- 1", "DECLARE vr, vs : " + t, "PROCEDURE Two(BYREF a : %s, b : %s)\n a <- b\n b <- %s\nENDPROCEDURE" % (t, t, w), "PROCEDURE Mix(BYVAL a : %s, BYREF b : %s)\n a <- %s\n OUTPUT b\n b <- a\nENDPROCEDURE" % (t, t, w),
                               "PROCEDURE Pw(q : PT)\n q^ <- %s\nENDPROCEDURE" % w, "PROCEDURE Pr(BYREF q : PT)\n q^ <- other\nENDPROCEDURE", "CONSTANT c = " + v]
    loc = r.random() < 0.25
    line = w.strip("'\"")
    for i in range(r.randint(5, 9)):
        st = r.choice(ws)
        wrap = r.choice(CWRAP)
        if "\n" in st and "@@" in wrap:
            wrap = r.choice(CWRAP[:7])
        k = r.random()
        stm = lambda n: (wrap.replace("@@", "@")).replace("@", st.replace("@", n))
        fs = ['CLOSEFILE "t.txt"', 'CLOSEFILE "s.dat"'] if "OPENFILE" in st else []
        ins = [line] if "INPUT" in st else []
        if k < 0.35:
            es += [stm("c")] + ins + fs + ["c"]
        elif k < 0.6:
            es += ["PROCEDURE A%d\n%s\nENDPROCEDURE" % (i, stm("c")), "CALL A%d" % i] + ins + fs + ["c"]
        elif k < 0.8:
            # the same statement on a variable, then on the constant
            es += ["PROCEDURE B%d(BYREF x : %s)\n%s\nENDPROCEDURE" % (i, t, stm("x"))] + ["CALL B%d(vr)" % i] + ins + fs + ["vr"] + ["CALL B%d(c)" % i] + ins + fs + ["c", "CALL B%d(vs)" % i] + ins + fs + ["vs"]
        elif k < 0.9:
            es += ["FUNCTION D%d() RETURNS %s\nCONSTANT k = %s\n%s\nRETURN k\nENDFUNCTION" % (i, t, v, stm("k")), "OUTPUT D%d()" % i] + ins + fs
        else:
            es += ["PROCEDURE E%d(n : INTEGER)\nCONSTANT k = %s\nOUTPUT k\nIF n > 0 THEN\nCALL E%d(n - 1)\nELSE\n%s\nENDIF\nOUTPUT k\nENDPROCEDURE" % (i, v, i, stm("k")), "CALL E%d(%d)" % (i, r.randint(0, 2))] + ins + fs + ["c"]
    return repl(id, es, files=cfiles(t, w))


# ------------------------------------------------------------------ C09
@check("C09", "model_checking",
       "Pointers to variables, array elements, record fields and other pointers' targets, of every target type: aliasing in both directions, copies, pointers in records and arrays, BYREF and BYVAL pointer parameters, "
       "retargeting, type checks on taking a pointer, unset pointers, and pointers to locals, parameters and BYREF parameters of activations that have returned (also by error), dereferenced right after, after further calls and declarations. Random sequences over a world of pointers.")
def c09(ck, rng, tier):
    q = tier == "quick"
    mc.replay(ck, rng, tier, "MC_Ptr", (4, 120), (40, None))
    cases = []
    for t in TYPES[:9]:
        for u in TYPES[:9]:
            es = DEFS + SRCVARS + ["TYPE PT = ^" + t, "DECLARE p, p2 : PT", "DECLARE x, x2 : " + u, "DECLARE ax : ARRAY[1:3] OF " + u, "TYPE Bx\n DECLARE f : %s\n DECLARE g : ARRAY[1:2] OF %s\nENDTYPE" % (u, u), "DECLARE bx : Bx",
                                   "TYPE PU = ^" + u, "DECLARE pu : PU"]
            pls = ["x", "ax[2]", "bx.f", "bx.g[2]"]
            for p in pls + ["x2", "ax[1]", "ax[3]", "bx.g[1]"]:
                es += init(p, u)
            es += ["p^"]
            for pp in pls:
                es += ["p <- ^" + pp, lookd("p", u)]
                if t == u:
                    alt = {"INTEGER": "5", "REAL": "6.5", "BOOLEAN": "FALSE", "CHAR": "'w'", "STRING": '"new"', "DATE": "1/1/2001", "Col": "red", "Dir": "up"}.get(t, "vo" if t == "R1" else "vq")
                    es += ["p^ <- " + alt, look(pp, u), "p2 <- p", lookd("p2", u)] + init("p2^", u) + [look(pp, u), lookd("p", u)] + \
                          ["%s <- %s" % (pp, alt), lookd("p", u), lookd("p2", u)] + [look(x, u) for x in ("x2", "ax[1]", "ax[3]", "bx.g[1]")]
                    for s in ("5", "2.5", '"s"', '"long"', "TRUE", "vd", "ve", "vf", "vo", "undef"):
                        es += ["p^ <- " + s, lookd("p", u), look(pp, u)]
                    es += init(pp, u)
            es += ["pu <- ^x", "p <- pu", "pu <- p", lookd("p", u)]
            cases.append(repl("ty-%s-%s" % (t, u), es))
    es = DEFS + SRCVARS + ["DECLARE p : PI"]
    for s in ("5", "vi", "2.5", "vp", "^vr", "^vi", "^vs", "^va[1]", "^va[9]", "^vo.n", "^vo.s", "^vo.zz", "^vo", "^va", "^undef", "^vp", "^5", "^(vi)", "vpj", "vpr", "^vp^", "^fi()", '"x"', "NONE"):
        es += ["p <- " + s, "p^", "p"]
    cases.append(repl("take", es))
    for i, es in enumerate(PTRS):
        cases += both("pt%d" % i, es)
        cases.append(repl("ps%d" % i, es, via_p=False))
    # dangling pointers: how the target dies x what happens before the dereference x how it is used
    for i, (setup, act) in enumerate(itertools.product(DEATHS, BETWEEN)):
        es = ["TYPE PI = ^INTEGER", "TYPE R\n DECLARE n : INTEGER\n DECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE", "TYPE H\n DECLARE hp : PI\nENDTYPE", "DECLARE p, q : PI", "DECLARE h : H", "DECLARE hp : ARRAY[1:2] OF PI", "g <- 1",
              "PROCEDURE Use\n DECLARE u1, u2, u3, u4 : INTEGER\n u1 <- 111\n u2 <- 222\n u3 <- 333\n OUTPUT u1 + u2 + u3 + u4\nENDPROCEDURE"] + setup + act
        es += ["OUTPUT p^", "p^ <- 999", "z <- p^ + 1", "q <- p", "q^", "q^ <- 998", "CALL Use", "OUTPUT g", "p <- ^g", "p^", "p^ <- 7", "g", "q^"]
        cases.append(repl("dg%d" % i, es))
        cases.append(prog("df%d" % i, es[:-13] + ["OUTPUT p^", "OUTPUT \"alive\""]))
        cases.append(prog("dw%d" % i, es[:-13] + ["p^ <- 5", "OUTPUT \"alive\""]))
    run(ck, cases, maxn=4000)
    run(ck, [c for c in cases if c["id"].startswith(("dg", "dw", "pt", "take"))], "asan", maxn=4000)
    run(ck, refchains(rng, q), "asan", maxn=4000)
    for rnd in range(1 if q else 6):
        cases = [ptrseq(random.Random(rng.random()), "q%d-%d" % (rnd, n)) for n in range(140 if q else 300)]
        run(ck, cases, "asan" if rnd % 2 == 0 else "plain", maxn=4000)
        run(ck, rand_cases(rng, 40 if q else 200, "g%d-" % rnd, perr=0.05), "asan")
        run(ck, gen_loops.loop_cases(rng, 50 if q else 200, "l%d-" % rnd), "asan", maxn=4000)


def refchains(rng, q):
    """BYREF parameters forwarded through 1..4 activations; a pointer taken at one of them, used at each level of the return"""
    out = []
    tg = [("g", "INTEGER"), ("ga[2]", "INTEGER"), ("gr.n", "INTEGER"), ("gb.r.n", "INTEGER"), ("pq^", "INTEGER"), ("lo", "INTEGER"), ("la[1]", "INTEGER"), ("lr.n", "INTEGER"), ("gr", "R"), ("gra[1]", "R"), ("lr", "R"), ("gb.r", "R"), ("pv", "INTEGER")]
    combos = [(t, d, k, m) for t in range(len(tg)) for d in (1, 2, 3, 4) for k in range(1, d + 1) for m in ("BYREF", "mixed")]
    for n, (ti, d, k, mode) in enumerate(rng.sample(combos, 90) if q else combos):
        t, ty = tg[ti]
        look = "OUTPUT p^.n" if ty == "R" else "OUTPUT p^"
        # assigning through the pointer names a field of it
        fw = "p^.n <- %d" if ty == "R" else "p^ <- %d"
        es = ["TYPE R\n DECLARE n : INTEGER\nENDTYPE", "TYPE RB\n DECLARE r : R\nENDTYPE", "TYPE PT = ^" + ty, "TYPE PI = ^INTEGER", "DECLARE p, p2 : PT", "DECLARE pq : PI", "DECLARE g, g2 : INTEGER", "DECLARE ga : ARRAY[1:3] OF INTEGER", "DECLARE gr : R", "DECLARE gra : ARRAY[1:2] OF R", "DECLARE gb : RB", "pq <- ^g2",
              "PROCEDURE Use(u1 : INTEGER, u2 : INTEGER)\n DECLARE u3, u4 : INTEGER\n DECLARE u5 : R\n u3 <- 111\n u4 <- 222\n u5.n <- 333\n OUTPUT u1 + u2 + u3 + u4 + u5.n\nENDPROCEDURE"]
        byval = rng.randint(2, d) if mode == "mixed" and d > 1 else 0
        names = ["v"] * (d + 1) if rng.random() < 0.3 else ["v%d" % i for i in range(d + 1)]
        for i in range(d, 0, -1):
            x = names[i]
            f = x + ".n" if ty == "R" else x
            b = []
            if i == k:
                b += ["p <- ^" + x, look]
            b += ["%s <- %s + %d" % (f, f, 10 ** (i - 1))]
            if i < d:
                b += ["CALL C%d(%s)" % (i + 1, x), "OUTPUT " + f]
                if i < k:
                    # the pointer as it is after the deeper call has returned
                    b += [look, fw % (500 + i), "OUTPUT " + f] if rng.random() < 0.7 or not byval else []
                    b += ["CALL Use(1, 2)"] + ([look] if not byval else [])
            es.append("PROCEDURE C%d(%s %s : %s)\n %s\nENDPROCEDURE" % (i, "BYVAL" if i == byval else "BYREF", x, ty, "\n ".join(b)))
        tf = t + ".n" if ty == "R" else t
        es.append("PROCEDURE Main(pv : INTEGER)\n DECLARE lo : INTEGER\n DECLARE la : ARRAY[1:2] OF INTEGER\n DECLARE lr : R\n CALL C1(%s)\n OUTPUT %s\n CALL Use(3, 4)\n %s\n %s\n OUTPUT %s\nENDPROCEDURE" % (t, tf, look, fw % 900, tf))
        es += ["CALL Main(7)", "CALL Use(5, 6)", look, fw % 901, look, "p2 <- p", look.replace("p^", "p2^"), "OUTPUT g, g2, ga[2], gr.n, gra[1].n, gb.r.n"]
        if t[0] in "gp" and t != "pv":
            es += ["CALL C1(%s)" % t, "CALL Use(7, 8)", look, fw % 902, "OUTPUT " + tf, look]
        out.append(repl("ch%d" % n, es))
        if n % 3 == 0:
            out.append(prog("cf%d" % n, es))
    return out


def lookd(p, t):
    if t in ("R1", "R2"):
        return 'OUTPUT %s^.n, ",", %s^.s, ",", %s^.a[1]' % (p, p, p)
    return p + "^"


DEATHS = [
    ["PROCEDURE D\n DECLARE l : INTEGER\n l <- 42\n p <- ^l\n OUTPUT p^\nENDPROCEDURE", "CALL D"],
    ["PROCEDURE D(v : INTEGER)\n p <- ^v\n p^ <- p^ + 1\n OUTPUT v\nENDPROCEDURE", "CALL D(4)"],
    ["PROCEDURE D\n DECLARE l : ARRAY[1:3] OF INTEGER\n l[2] <- 42\n p <- ^l[2]\n OUTPUT p^\nENDPROCEDURE", "CALL D"],
    ["PROCEDURE D\n DECLARE l : R\n l.n <- 42\n p <- ^l.n\n OUTPUT p^\nENDPROCEDURE", "CALL D"],
    ["PROCEDURE D\n DECLARE l : R\n l.a[1] <- 42\n p <- ^l.a[1]\n OUTPUT p^\nENDPROCEDURE", "CALL D"],
    ["PROCEDURE D\n impl <- 42\n p <- ^impl\n OUTPUT p^\nENDPROCEDURE", "CALL D"],
    ["FUNCTION D() RETURNS PI\n DECLARE l : INTEGER\n DECLARE r : PI\n l <- 42\n r <- ^l\n RETURN r\nENDFUNCTION", "p <- D()"],
    ["FUNCTION D() RETURNS INTEGER\n DECLARE l : INTEGER\n l <- 42\n p <- ^l\n RETURN p^\nENDFUNCTION", "OUTPUT D()"],
    ["PROCEDURE D(n : INTEGER)\n DECLARE l : INTEGER\n l <- n\n IF n = 1 THEN\n p <- ^l\n ENDIF\n IF n > 0 THEN\n CALL D(n - 1)\n ENDIF\nENDPROCEDURE", "CALL D(3)"],
    ["PROCEDURE E(BYREF k : INTEGER)\n p <- ^k\nENDPROCEDURE", "PROCEDURE D\n DECLARE l : INTEGER\n l <- 42\n CALL E(l)\n OUTPUT p^\nENDPROCEDURE", "CALL D"],
    ["PROCEDURE D(BYREF k : INTEGER)\n p <- ^k\nENDPROCEDURE", "CALL D(g)"],     # the target is the caller's variable: still alive
    ["PROCEDURE E(BYREF r : PI)\n DECLARE l : INTEGER\n l <- 42\n r <- ^l\nENDPROCEDURE", "CALL E(p)"],
    ["PROCEDURE D\n DECLARE l : INTEGER\n h.hp <- ^l\n p <- h.hp\nENDPROCEDURE", "CALL D", "p <- h.hp"],
    ["PROCEDURE D\n DECLARE l : INTEGER\n hp[2] <- ^l\nENDPROCEDURE", "CALL D", "p <- hp[2]"],
    ["PROCEDURE D\n DECLARE l : INTEGER\n l <- 42\n p <- ^l\n l <- 1 DIV 0\nENDPROCEDURE", "CALL D"],                    # dies by a runtime error (session only)
    ["PROCEDURE D\n FOR it <- 1 TO 3\n p <- ^it\n NEXT it\n OUTPUT p^\nENDPROCEDURE", "CALL D"],
    ["PROCEDURE D\n DECLARE l : INTEGER\n p <- ^l\n q <- ^g\n CALL E2\nENDPROCEDURE", "PROCEDURE E2\n p^ <- 77\n OUTPUT p^\nENDPROCEDURE", "CALL D"],
    [],                                                                                                                    # never set
]
BETWEEN = [[], ["CALL Use"], ["CALL Use", "CALL Use", "n1 <- 1", "n2 <- 2", "n3 <- 3", "DECLARE na : ARRAY[1:3] OF INTEGER"], ["PROCEDURE Deep(d : INTEGER)\n DECLARE dl : INTEGER\n dl <- d\n IF d > 0 THEN\n CALL Deep(d - 1)\n ELSE\n OUTPUT p^\n ENDIF\nENDPROCEDURE", "CALL Deep(4)"]]
PTRS = [
    ["TYPE P = ^INTEGER", "DECLARE p : P", "p^", "p^ <- 1", "q <- p", "x <- p^", "OUTPUT p^ + 1"],
    ["TYPE P = ^INTEGER", "DECLARE p : P", "x <- 5", "p <- ^x", "p^", "p^ <- p^ * 2", "x", "x <- x + 1", "p^", "y <- 1", "p <- ^y", "p^ <- 100", "OUTPUT x, y"],
    ["TYPE P = ^INTEGER", "DECLARE p : P", "DECLARE a : ARRAY[1:3] OF INTEGER", "FOR i <- 1 TO 3\n p <- ^a[i]\n p^ <- i * i\nNEXT i", "OUTPUT a[1], a[2], a[3]", "i <- 1", "p <- ^a[i]", "i <- 3", "p^ <- 50", "OUTPUT a[1], a[3]"],
    ["TYPE P = ^INTEGER", "DECLARE a, b : ARRAY[1:2] OF INTEGER", "DECLARE p : P", "b[1] <- 9", "p <- ^a[1]", "a <- b", "p^", "p^ <- 3", "OUTPUT a[1], b[1]"],
    ["TYPE P = ^INTEGER", "TYPE R\n DECLARE n : INTEGER\nENDTYPE", "DECLARE r, s : R", "DECLARE p : P", "s.n <- 9", "p <- ^r.n", "r <- s", "p^", "p^ <- 3", "OUTPUT r.n, s.n"],
    ["TYPE R\n DECLARE n : INTEGER\n DECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE", "TYPE P = ^R", "DECLARE r, s : R", "DECLARE p : P", "p <- ^r", "p^.n <- 4", "r.n", "p^.a[2] <- 6", "r.a[2]", "s <- p^", "s.n <- 7", "r.n", "p^ <- s", "OUTPUT r.n, r.a[2]", "r.n <- 11", "p^.n", "p^.zz", "p^.n.n"],
    ["TYPE P = ^INTEGER", "TYPE PP = ^P", "x <- 5", "DECLARE p : P", "DECLARE pp : PP", "p <- ^x", "pp <- ^p", "pp^^", "pp^^ <- 6", "x", "y <- 7", "p <- ^y", "pp^^", "pp^ <- ^x", "p^"],
    ["TYPE P = ^INTEGER", "x <- 1", "y <- 2", "DECLARE p, q : P", "p <- ^x", "q <- ^y", "p^ <- q^", "OUTPUT x, y", "p <- q", "p^ <- 9", "OUTPUT x, y", "p = q"],
    ["TYPE P = ^INTEGER", "x <- 1", "DECLARE p : P", "p <- ^x", "PROCEDURE S(BYREF q : P)\n y <- 5\n q^ <- 10\nENDPROCEDURE", "CALL S(p)", "x", "PROCEDURE T(q : P)\n q^ <- 20\n DECLARE l : INTEGER\n q <- ^l\n q^ <- 30\n OUTPUT l\nENDPROCEDURE", "CALL T(p)", "OUTPUT x, p^"],
    ["TYPE P = ^INTEGER", "FUNCTION Get(BYREF v : INTEGER) RETURNS P\n DECLARE r : P\n r <- ^v\n RETURN r\nENDFUNCTION", "x <- 5", "DECLARE p : P", "p <- Get(x)", "p^", "p^ <- 8", "x", "DECLARE a : ARRAY[1:2] OF INTEGER", "p <- Get(a[2])", "p^ <- 4", "OUTPUT a[1], a[2]"],
    ["TYPE P = ^INTEGER", "PROCEDURE D(n : INTEGER, prev : P)\n DECLARE l : INTEGER\n DECLARE me : P\n l <- n\n me <- ^l\n IF n < 3 THEN\n CALL D(n + 1, me)\n ENDIF\n IF n > 0 THEN\n prev^ <- prev^ * 10 + n\n ENDIF\n OUTPUT n, l\nENDPROCEDURE", "x <- 0", "DECLARE p : P", "p <- ^x", "CALL D(0, p)"],
    ["TYPE P = ^INTEGER", "DECLARE p : P", "OUTPUT p", "p", "p + 1", "p = p", "IF p THEN\nENDIF", "INPUT p", "5", "p^"],
    ["TYPE P = ^INTEGER", "x <- 1", "DECLARE p : P", "p <- ^x", "OUTPUT p^, p^ + p^", "y <- p^ * p^ - 1", "y", "IF p^ = 1 THEN\n OUTPUT \"one\"\nENDIF", "p^ <- \"text\"", "x", "p^ <- 2.5", "x"],
    ["TYPE P = ^STRING", "s <- \"abc\"", "DECLARE p : P", "p <- ^s", "p^ <- p^ & \"d\"", "OUTPUT s, LENGTH(p^)", "p^ <- 'c'", "s", "p^ <- 5", "s"],
    ["TYPE P = ^Later"], ["TYPE P = ^INTEGER", "TYPE P = ^REAL", "DECLARE p : P", "x <- 1", "p <- ^x"], ["TYPE P = INTEGER"], ["TYPE P = ^"], ["DECLARE p : ^INTEGER"],
    ["TYPE P = ^INTEGER", "DECLARE ap : ARRAY[1:2] OF P", "x <- 1", "y <- 2", "ap[1] <- ^x", "ap[2] <- ^y", "q <- ap[1]", "q^ <- 10", "q <- ap[2]", "q^ <- 20", "OUTPUT x, y", "ap[1] <- ap[2]", "q <- ap[1]", "q^", "ap[1]^", "ap[1]^ <- 30", "OUTPUT x, y"],
    ["TYPE P = ^INTEGER", "p <- ^x", "x <- 5", "p <- ^x", "p^", "DECLARE p : P"],
    ["TYPE E = (one, two)", "TYPE P = ^E", "DECLARE e : E", "DECLARE p : P", "p <- ^e", "p^", "p^ <- two", "e", "p^ <- p^ + 1", "e"],
]


def ptrseq(r, id):
    es = ["TYPE PI = ^INTEGER", "TYPE R\n DECLARE n : INTEGER\n DECLARE a : ARRAY[1:2] OF INTEGER\n DECLARE q : PI\nENDTYPE", "TYPE PR = ^R", "DECLARE x, y : INTEGER", "DECLARE a : ARRAY[1:3] OF INTEGER", "DECLARE r1, r2 : R",
          "DECLARE p, q, s : PI", "DECLARE pr : PR", "DECLARE ap : ARRAY[1:2] OF PI", "CONSTANT k = 77",
          "PROCEDURE Loc(v : INTEGER)\n DECLARE l : INTEGER\n l <- v\n q <- ^l\n q^ <- q^ + 1\n OUTPUT l\nENDPROCEDURE",
          "PROCEDURE Rf(BYREF v : INTEGER)\n s <- ^v\n s^ <- s^ + 1\nENDPROCEDURE",
          "PROCEDURE Rp(BYREF w : PI, v : INTEGER)\n w^ <- w^ + v\n w <- ^x\nENDPROCEDURE",
          "PROCEDURE Vp(w : PI)\n w^ <- 5\n w <- ^y\n w^ <- 6\nENDPROCEDURE",
          "PROCEDURE Nest(v : INTEGER)\n DECLARE l : INTEGER\n l <- v * 2\n p <- ^l\n CALL Rf(l)\n CALL Rp(p, 3)\n OUTPUT l\nENDPROCEDURE",
          "FUNCTION Mk(BYREF v : INTEGER) RETURNS PI\n DECLARE t : PI\n t <- ^v\n RETURN t\nENDFUNCTION"]
    tg = ["x", "y", "a[1]", "a[2]", "a[3]", "r1.n", "r1.a[1]", "r2.a[2]", "k", "pr^.n", "pr^.a[1]", "p^", "r1"]
    pv = ["p", "q", "s", "ap[1]", "ap[2]", "r1.q"]
    dump = ["OUTPUT x, \",\", y, \",\", a[1], \",\", a[2], \",\", a[3], \",\", r1.n, \",\", r1.a[1], \",\", r1.a[2], \",\", r2.n, \",\", r2.a[2], \",\", k", "p^", "q^", "s^"]
    for i in range(r.randint(10, 18)):
        p = r.choice(pv)
        k = r.random()
        if k < 0.3:
            es.append("%s <- ^%s" % (p, r.choice(tg)))
        elif k < 0.5:
            es.append("%s^ <- %s" % (r.choice("pqs"), r.choice(["1", "2", "p^ + 1", "x", "q^", '"s"', "k"])))
        elif k < 0.6:
            es.append("%s <- %s" % (p, r.choice(pv)))
        elif k < 0.7:
            es.append("%s <- %s" % (r.choice(tg[:8]), r.choice(["3", "4", "p^", "s^", "x"])))
        elif k < 0.78:
            es.append(r.choice(["r1 <- r2", "r2 <- r1", "pr <- ^r1", "pr <- ^r2", "pr^ <- r2", "r2 <- pr^"]))
        else:
            es.append(r.choice(["CALL Loc(%d)" % r.randint(1, 9), "CALL Rf(%s)" % r.choice(tg), "CALL Rp(%s, 2)" % p, "CALL Vp(%s)" % p, "CALL Nest(4)", "%s <- Mk(%s)" % (p, r.choice(tg[:10]))]))
        es += dump
    return repl(id, es)


# ------------------------------------------------------------------ C19
@check("C19", "model_checking",
       "Enumerated types of 1 to 9 names: every value plus and minus offsets from a pool reaching both ends of the 64-bit range, in both directions; comparisons of all pairs within and across types; stores, parameters, RETURN, arrays, "
       "record fields, pointers, constants, CASE and output of every value; two types with shared and distinct names; and random sequences.")
def c19(ck, rng, tier):
    q = tier == "quick"
    mc.replay(ck, rng, tier, "MC_Enum", (40, None), (40, None))
    mc.replay(ck, rng, tier, "MC_Vars", (3, 40), (40, 600), length=120)
    cases = []
    I = (1 << 63) - 1
    offs = list(range(-12, 13)) + [100, -100, 2147483647, -2147483648, 4294967296, 4294967295, -4294967297, 9007199254740993, -9007199254740993, I, -I, I - 1, -I + 1, 1000000007, -1000000007]
    for n in range(1, 10):
        names = ["e%d" % i for i in range(n)]
        es = ["TYPE E = (%s)" % ", ".join(names), "DECLARE v, w : E", "v"] + names
        for i, a in enumerate(names):
            for k in offs if not q or n in (1, 3, 7) else rng.sample(offs, 12):
                ks = "(%d)" % k if k < 0 else str(k)
                es += ["%s + %s" % (a, ks), "%s - %s" % (a, ks)]
                if k in (-5, 3, I, -I):
                    es += ["v <- " + a, "v <- v + " + ks, "v", "v <- %s - %s" % (a, ks), "OUTPUT v"]
        cases.append(repl("ar%d" % n, es))
        es = es[:3]
        for a, b in itertools.product(names, names):
            for op in ("=", "<>") if not q else (rng.choice(["=", "<>"]),):
                es.append("%s %s %s" % (a, op, b))
        for op in ("<", ">", "<=", ">=", "&", "AND", "*", "/", "DIV", "MOD", "+", "-"):
            es += ["%s %s %s" % (names[0], op, names[-1]), "%s %s 2" % (names[0], op), "%s %s 2.5" % (names[-1], op), *(["2 %s %s" % (op, names[0])] if op not in "+-" else []), '%s %s "s"' % (names[0], op)]
        es += ["-%s" % names[0], "NOT %s" % names[0]]
        cases.append(repl("cm%d" % n, es))
    two = ["TYPE A = (a1, a2, a3)", "TYPE C = (c1, c2, c3)", "TYPE BX\n DECLARE fa : A\n DECLARE fc : C\n DECLARE ga : ARRAY[1:2] OF A\nENDTYPE", "TYPE PA = ^A", "TYPE PC = ^C", "DECLARE va, wa : A", "DECLARE vc : C", "DECLARE bx : BX",
           "DECLARE aa : ARRAY[1:2] OF A", "DECLARE ac : ARRAY[1:2] OF C", "DECLARE pa : PA", "DECLARE pc : PC", "CONSTANT ka = 1",
           "PROCEDURE Ta(x : A)\n OUTPUT x\n x <- x + 1\n OUTPUT x\nENDPROCEDURE", "PROCEDURE Tr(BYREF x : A)\n x <- x + 1\nENDPROCEDURE", "FUNCTION Fa(n : INTEGER) RETURNS A\n RETURN a1 + n\nENDFUNCTION", "FUNCTION Fc(n : INTEGER) RETURNS A\n RETURN c1 + n\nENDFUNCTION",
           "FUNCTION Fi(n : INTEGER) RETURNS INTEGER\n RETURN a2\nENDFUNCTION"]
    srcs = ["a1", "a3", "c1", "c2", "va", "vc", "wa", "va + 1", "vc + 1", "c3 - 5", "1", "0", '"a1"', "'a'", "2.0", "TRUE", "bx.fa", "bx.fc", "aa[1]", "ac[2]", "Fa(4)", "Fa(-1)", "Fc(1)", "pa^", "pc^", "A", "undef", "a4", "1/2/2003"]
    for tgt in ["va", "vc", "bx.fa", "bx.fc", "bx.ga[2]", "aa[2]", "ac[1]", "pa^", "pc^", "i", "s", "newv"]:
        es = two + ["pa <- ^wa", "pc <- ^vc", "i <- 5", 's <- "str"']
        for s in srcs:
            es += ["%s <- %s" % (tgt, s), tgt]
        cases.append(repl("st-" + tgt, es + ["OUTPUT va, vc, wa, bx.fa, bx.fc, bx.ga[1], aa[1], ac[1]"]))
    es = two[:]
    for s in srcs:
        es += ["CALL Ta(%s)" % s, "CALL Tr(%s)" % s, "va = %s" % s, "%s <> vc" % s, "OUTPUT va, vc, wa, aa[1], ac[2]", "pa <- ^%s" % s, "pc <- ^%s" % s]
    es += ["Fi(1)", "aa <- ac", "a1 = c1", "a1 <> c1", "a2 = a2", "OUTPUT a1, c1", "DECLARE a1 : INTEGER", "a1 <- 5", "a1", "a2", "TYPE A = (z1)", "z1", "FOR va <- 1 TO 2\nNEXT va", "va", "INPUT va", "a2", "va", "va[1]", "va.x", "va^", "LENGTH(va)", "STRING(va)", "INTEGER(a2)", "a2 & a1", "a1 & \"x\"", "CASE OF va\n a1 TO a2 : OUTPUT 1\n OTHERWISE : OUTPUT 2\nENDCASE"]
    cases.append(repl("uses", es))
    for i, es in enumerate(ENUMS):
        cases += both("en%d" % i, es)
    run(ck, cases, maxn=4000)
    run(ck, [c for c in cases if c["id"].startswith(("ar", "uses", "st"))][:: 3 if q else 1], "asan", maxn=4000)
    for rnd in range(1 if q else 6):
        cases = []
        for n in range(100 if q else 250):
            r = random.Random(rng.random())
            es = two + ["pa <- ^wa", "pc <- ^vc", "i <- 2"]
            ta, tc = ["va", "wa", "bx.fa", "bx.ga[1]", "aa[2]", "pa^"], ["vc", "bx.fc", "ac[1]", "pc^"]
            for _ in range(r.randint(10, 18)):
                t = r.choice([ta, ta, tc])
                k = r.random()
                if k < 0.5:
                    es.append("%s <- %s %s %s" % (r.choice(t), r.choice(t + (["a1", "a2", "a3"] if t is ta else ["c1", "c3"])), r.choice("+-"), r.choice(["1", "2", "i", "-i", "7", "i * i", "1000000001"])))
                elif k < 0.6:
                    es.append("%s <- %s" % (r.choice(ta), r.choice(tc)))
                elif k < 0.7:
                    es.append("%s %s %s" % (r.choice(ta + tc), r.choice(["=", "<>"]), r.choice(ta + tc)))
                elif k < 0.8:
                    es.append("CALL Tr(%s)" % r.choice(ta + tc[:1]))
                elif k < 0.9:
                    es.append("%s <- Fa(%d)" % (r.choice(ta), r.randint(-9, 9)))
                else:
                    es.append(r.choice(["i <- i + 1", "pa <- ^aa[2]", "pa <- ^va", "aa[1] <- aa[2]", "i <- -i", "FOR i <- 0 TO 4\n OUTPUT va + i\nNEXT i", "WHILE va <> a2\n va <- va + 1\n OUTPUT va\nENDWHILE"]))
                es.append("OUTPUT va, wa, bx.fa, bx.ga[1], aa[1], aa[2], pa^, vc, bx.fc, ac[1], i")
            cases.append(repl("q%d-%d" % (rnd, n), es))
        run(ck, cases, "asan" if rnd % 2 else "plain")


ENUMS = [
    ["TYPE D = (Mon, Tue, Wed, Thu, Fri, Sat, Sun)", "d <- Mon", "FOR i <- 1 TO 15\n d <- d + 1\n OUTPUT i, d\nNEXT i", "REPEAT\n d <- d - 3\n OUTPUT d\nUNTIL d = Mon"],
    ["TYPE D = (only)", "d <- only", "d + 1", "d - 1", "d + 1000000", "d = only"],
    ["TYPE D = (a, b)", "DECLARE x : ARRAY[1:3] OF D", "x[2] <- b", "OUTPUT x[1], x[2], x[3]", "x[1] <- x[2] + 1", "OUTPUT x[1], x[2], x[3]"],
    ["TYPE D = (a, b, c)", "FUNCTION N(d : D) RETURNS D\n RETURN d + 1\nENDFUNCTION", "N(a)", "N(c)", "N(N(N(b)))", "N(1)"],
    ["TYPE D = (a, b, c)", "PROCEDURE P\n DECLARE l : D\n OUTPUT l\n l <- l - 1\n OUTPUT l\nENDPROCEDURE", "CALL P", "CALL P"],
    ["PROCEDURE P\n TYPE L = (x, y)\n DECLARE l : L\n l <- y\n OUTPUT l, l + 1\nENDPROCEDURE", "CALL P", "CALL P", "y", "DECLARE l : L"],
    ["TYPE D = (a, b, c)", "TYPE D = (d, e)", "a", "d"], ["TYPE D = (a, a)", "a"], ["TYPE D = ()"], ["TYPE D = (1, 2)"], ["TYPE D = (a,)"], ["a <- 5", "TYPE D = (a, b)", "a", "b"],
    ["TYPE D = (a, b, c)", "OUTPUT a, b, c, a + 1, c + 1", "s <- \"v: \" & b", "s", "OUTPUT \"x\" & (b + 1)"],
    ["TYPE Season = (Spring, Summer, Autumn, Winter)", "DECLARE s : Season", "s <- Summer", "CASE OF s\n Spring : OUTPUT \"1\"\n Summer : OUTPUT \"2\"\n OTHERWISE : OUTPUT \"3\"\nENDCASE", "s <- s + 9", "s", "s <> Summer", "IF s = Autumn THEN\n OUTPUT \"autumn\"\nENDIF"],
]
