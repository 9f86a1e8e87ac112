"""C13, C14 random files, C15 text files, C16 handles."""
import itertools
import random
import struct
import gen_recs
import mc
from common import *


def reals(rng, n):
    """decimal literals of binary64 values over the whole normal range"""
    out = ["0.0", "-0.0", "1.0", "0.1", "-0.1", "1.5", "3.141592653589793", "2.2250738585072014e-308", "1.7976931348623157e308", "0.1000000000000000055", "123456789.123456789", "9007199254740993.0", "5.0e-5",
           "1.0e21", "1.0e16", "123456.7890625", "0.000001", "0.0000001", "1.0e-7", "4.35", "0.3", "100.0", "1.0e15", "-2.5e-10", "999999.9999999", "1.0000000000000002", "0.9999999999999999"]
    for _ in range(n):
        while True:
            b = rng.getrandbits(64)
            x = struct.unpack("<d", struct.pack("<Q", b))[0]
            e = (b >> 52) & 0x7ff
            if 0 < e < 0x7ff:
                break
        out.append(repr(x))
    for _ in range(n):
        x = rng.choice([-1, 1]) * rng.getrandbits(rng.choice([20, 40, 53, 53])) * 2.0 ** rng.randint(-60, 20)
        out.append(repr(x))
    from fractions import Fraction
    res = []
    for s in out:
        x = float(s)
        # shortest decimal as digits without exponent
        from decimal import Decimal
        t = format(Decimal(repr(x)), "f")
        if "." not in t:
            t += ".0"
        res.append(t)
    return res


def q(s):
    """a STRING literal denoting the bytes s, or None if it has no literal"""
    out = ""
    for c in s:
        if c == "\n":
            out += "\\n"
        elif c == "\t":
            out += "\\t"
        elif c == '"':
            out += '\\"'
        elif c == "\\":
            out += "\\\\"
        else:
            out += c
    return '"' + out + '"'


STRINGS = ["", " ", "a", "abc", "a b", " lead", "trail ", "#", "##", "#5", "5#abc", "\n", "\n\n", "a\nb", "\nx", "x\n", "line1\nline2\nline3", "a#b\n#c", "12", "-3", "1.5", "TRUE", "\t", "\t x", "x" * 200, "\\", "\\n", '"', "'", "//", "a\"b",
           "0", "e", "end", "]", "[", "{}", ",", ";", "a,b", "S#1", "1 2 3", "\x7f", "\x80\xff", "\xe9t\xe9", "%s%d", "\n#\n", " \n ", "\r", "x\ry", "\r\n", "\x01\x02"]

RDEF13 = ["TYPE Col = (red, green, blue)", "TYPE In\n DECLARE i : INTEGER\n DECLARE s : STRING\n DECLARE c : CHAR\n DECLARE v : ARRAY[1:3] OF STRING\nENDTYPE",
          "TYPE Out\n DECLARE n : In\n DECLARE r : REAL\n DECLARE b : BOOLEAN\n DECLARE e : Col\n DECLARE d : DATE\n DECLARE m : ARRAY[0:1, 1:2] OF INTEGER\n DECLARE ar : ARRAY[1:2] OF In\n DECLARE z : STRING\nENDTYPE"]


def vals13(rng, big):
    """(type, expression) pairs"""
    out = [("INTEGER", s) for s in ["0", "1", "-1", "7", "-42", "2147483647", "-2147483648", "2147483648", "4294967296", "9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775807", "(-9223372036854775807 - 1)"]]
    out += [("INTEGER", str(rng.randint(-(1 << 62), 1 << 62))) for _ in range(8)]
    out += [("REAL", s) for s in reals(rng, 60 if big else 5)]
    out += [("BOOLEAN", "TRUE"), ("BOOLEAN", "FALSE")]
    out += [("STRING", q(s)) for s in STRINGS if "\r" not in s]
    for _ in range(30 if big else 8):
        out.append(("STRING", q("".join(chr(rng.choice([10, 35, 32, 48, 65, 44, 9, 39, rng.randint(32, 126), rng.randint(128, 255)])) for _ in range(rng.randint(1, 25))))))
    out += [("DATE", s) for s in ["1/1/2000", "29/2/2024", "31/12/9999", "1/1/1", "28/2/1900", "5/6/1066"]]
    out += [("Col", s) for s in ["red", "green", "blue"]]
    return out


def leaves13(t):
    if t == "In":
        return [(".i", "INTEGER"), (".s", "STRING"), (".c", "CHAR"), (".v[1]", "STRING"), (".v[2]", "STRING"), (".v[3]", "STRING")]
    return [(".n" + l, k) for l, k in leaves13("In")] + [(".r", "REAL"), (".b", "BOOLEAN"), (".e", "Col"), (".d", "DATE")] + [(".m[%d, %d]" % (a, b), "INTEGER") for a in (0, 1) for b in (1, 2)] + \
        [(".ar[%d]%s" % (k, l), kk) for k in (1, 2) for l, kk in leaves13("In")] + [(".z", "STRING")]


def fill(rng, n, t, vs):
    out = []
    for l, k in leaves13(t):
        c = [e for tt, e in vs if tt == k and len(e) < (24 if k == "REAL" else 400)] if k != "CHAR" else ["'a'", "' '", "'#'", "'\\n'", "CHR(0)", "CHR(127)", "'\\''"]
        out.append("%s%s <- %s" % (n, l, rng.choice(c)))
    return out


def cmpdump(n, t):
    return "OUTPUT " + ', "|", '.join(n + l for l, k in leaves13(t))


def chan(rng, decls, put, show, others=()):
    """the three read channels for one PUT: same session, reopened, later runs (file and session)"""
    f = '"f.dat"'
    op, cl = "OPENFILE %s FOR RANDOM" % f, "CLOSEFILE " + f
    w = [op] + put + [cl]
    runs = [frun("\n".join(decls + w + [op, "SEEK %s, 1" % f] + show + [cl]) + "\n"), rrun(decls + [op, "SEEK %s, 1" % f] + show + [cl]), frun("\n".join(decls + [op, "SEEK %s, 1" % f] + show) + "\n")]
    return runs


# ------------------------------------------------------------------ C13
@check("C13", "exploration",
       "PUTRECORD/GETRECORD of every type: boundary and random INTEGER, REAL over the whole normal range compared bit-exactly by =, all CHAR codes, strings with line breaks, '#', digits, blanks, quotes, bytes above 127, dates, "
       "enumerations, arrays and nested records; read back in the same session, after CLOSEFILE and OPENFILE, and by two later processes (session and file); reads into variables of every other type; records written by later runs; random record sequences.")
def c13(ck, rng, tier):
    qk = tier == "quick"
    cases = []
    vs = vals13(rng, not qk)
    # scalar values: several per file, one record each
    for ci, part in enumerate(chunks(rng.sample(vs, len(vs)), 9)):
        decls = RDEF13[:1]
        put, show, same = [], [], []
        for i, (t, e) in enumerate(part):
            decls.append("DECLARE w%d, g%d : %s" % (i, i, t))
            decls.append("w%d <- %s" % (i, e))
            if t == "DATE":
                decls.append("g%d <- 3/3/2003" % i)
            put += ["SEEK \"f.dat\", %d" % (i + 1), "PUTRECORD \"f.dat\", w%d" % i]
            same += ["SEEK \"f.dat\", %d" % (i + 1), "GETRECORD \"f.dat\", g%d" % i, "OUTPUT \"[\", g%d, \"]\"" % i, "OUTPUT g%d = w%d" % (i, i)]
            if t == "REAL" and len(e) > 40:      # printing would only exercise the decimal conversion
                del same[-2]
            elif t == "REAL":
                same += ["OUTPUT (g%d - w%d) * 1000000.0" % (i, i)]
        order = list(range(len(part)))
        show = same
        runs = chan(rng, decls, put + same, show)
        cases.append(dict(id="v%d" % ci, runs=runs))
    # all characters
    for lo in range(0, 256, 32):
        decls = ["DECLARE w, g : CHAR", "DECLARE ws, gs : STRING", "DECLARE wa, ga : ARRAY[1:3] OF CHAR"]
        put, show = [], []
        for k, c in enumerate(range(lo, lo + 32)):
            lit = {10: "'\\n'", 9: "'\\t'", 92: "'\\\\'", 39: "'\\''"}.get(c)
            if lit is None:
                lit = "'%s'" % chr(c) if c >= 32 else "CHR(%d)" % c
            if c == 13:
                lit = "CHR(13)"
            put += ["w <- " + lit, "SEEK \"f.dat\", %d" % (2 * k + 1), "PUTRECORD \"f.dat\", w", "ws <- \"a\" & w & w & \"#\"", "SEEK \"f.dat\", %d" % (2 * k + 2), "PUTRECORD \"f.dat\", ws"]
            show += ["w <- " + lit, "SEEK \"f.dat\", %d" % (2 * k + 1), "GETRECORD \"f.dat\", g", "OUTPUT g = w, ASC(g)" if c < 128 else "OUTPUT g = w", "SEEK \"f.dat\", %d" % (2 * k + 2), "GETRECORD \"f.dat\", gs",
                     "OUTPUT gs = \"a\" & w & w & \"#\", LENGTH(gs)"]
        cases.append(dict(id="c%d" % lo, runs=chan(rng, decls, put, show)))
    # arrays of every element type
    for i, t in enumerate(["INTEGER", "REAL", "STRING", "CHAR", "BOOLEAN", "DATE", "Col", "In"]):
        for d in ("1:3", "0:1, -1:0", "5:5"):
            cs = {"1:3": ["1", "2", "3"], "0:1, -1:0": ["0, -1", "0, 0", "1, -1", "1, 0"], "5:5": ["5"]}[d]
            decls = RDEF13[:2] + ["DECLARE w, g, g2 : ARRAY[%s] OF %s" % (d, t), "DECLARE oth : ARRAY[9:9] OF " + t]
            put, show = [], []
            for c in cs:
                if t == "In":
                    put += fill(rng, "w[%s]" % c, "In", vs)
                    show.append(cmpdump("g[%s]" % c, "In"))
                else:
                    pool = [e for tt, e in vs if tt == t] if t != "CHAR" else ["'x'", "'\\n'", "' '", "'#'"]
                    put.append("w[%s] <- %s" % (c, rng.choice(pool)))
                    if t == "DATE":
                        decls += ["g[%s] <- 1/1/2001" % c]
                    show.append("OUTPUT \"<\", g[%s], \">\"" % c)
            if t == "DATE":
                decls.append("oth[9] <- 1/1/2001")
            put += ["PUTRECORD \"f.dat\", w"]
            cases.append(dict(id="a%d-%s" % (i, d), runs=chan(rng, decls, put, ["GETRECORD \"f.dat\", g"] + show)))
    # records
    for n in range(12 if qk else 60):
        decls = RDEF13 + ["DECLARE w, g, x : Out", "DECLARE iw, ig : In", "DECLARE aw, ag : ARRAY[1:2] OF Out", "g.d <- 1/1/2001", "x.d <- 2/2/2002", "ag[1].d <- 1/1/2001", "ag[2].d <- 1/1/2001"]
        put = fill(rng, "w", "Out", vs) + fill(rng, "x", "Out", vs) + fill(rng, "iw", "In", vs) + ["aw[1] <- w", "aw[2] <- x"]
        put += ["PUTRECORD \"f.dat\", w", "SEEK \"f.dat\", 2", "PUTRECORD \"f.dat\", iw", "SEEK \"f.dat\", 3", "PUTRECORD \"f.dat\", aw", "SEEK \"f.dat\", 4", "PUTRECORD \"f.dat\", x"]
        show = ["GETRECORD \"f.dat\", g", cmpdump("g", "Out"), "SEEK \"f.dat\", 2", "GETRECORD \"f.dat\", ig", cmpdump("ig", "In"), "SEEK \"f.dat\", 3", "GETRECORD \"f.dat\", ag", cmpdump("ag[1]", "Out"), cmpdump("ag[2]", "Out"),
                "SEEK \"f.dat\", 4", "GETRECORD \"f.dat\", g", cmpdump("g", "Out"), "SEEK \"f.dat\", 1", "GETRECORD \"f.dat\", w", cmpdump("w", "Out")]
        cases.append(dict(id="r%d" % n, runs=chan(rng, decls, put, show)))
    # a value of one type read into a variable of another: an error that changes nothing
    tps = ["INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE", "Col", "Dir", "In", "In2", "AI", "AR", "AI2"]
    dl = RDEF13[:2] + ["TYPE Dir = (up, red2)", "TYPE In2\n DECLARE i : INTEGER\n DECLARE s : STRING\n DECLARE c : CHAR\n DECLARE v : ARRAY[1:3] OF STRING\nENDTYPE"]
    for i, t in enumerate(tps):
        dl.append("DECLARE w%d, g%d : %s" % (i, i, {"AI": "ARRAY[1:2] OF INTEGER", "AR": "ARRAY[1:2] OF REAL", "AI2": "ARRAY[1:3] OF INTEGER"}.get(t, t)))
        p = {"In": "w%d.i", "In2": "w%d.i", "AI": "w%d[1]", "AR": "w%d[1]", "AI2": "w%d[3]"}.get(t, "w%d") % i
        v = {"INTEGER": "7", "REAL": "7.5", "BOOLEAN": "TRUE", "CHAR": "'7'", "STRING": '"7"', "DATE": "7/7/2007", "Col": "green", "Dir": "red2", "In": "7", "In2": "7", "AI": "7", "AR": "7.5", "AI2": "7"}[t]
        o = {"INTEGER": "1", "REAL": "1.5", "BOOLEAN": "FALSE", "CHAR": "'1'", "STRING": '"1"', "DATE": "1/1/2001", "Col": "blue", "Dir": "up", "In": "1", "In2": "1", "AI": "1", "AR": "1.5", "AI2": "1"}[t]
        dl += [p + " <- " + v, p.replace("w", "g", 1) + " <- " + o]
    lk = ["g%d.i" % i if t[:2] == "In" and t != "INTEGER" else "g%d[1]" % i if t in ("AI", "AR") else "g%d[3]" % i if t == "AI2" else "g%d" % i for i, t in enumerate(tps)]
    for i, t in enumerate(tps):
        es = dl + ["OPENFILE \"f.dat\" FOR RANDOM", "PUTRECORD \"f.dat\", w%d" % i]
        for j in range(len(tps)):
            es += ["SEEK \"f.dat\", 1", "GETRECORD \"f.dat\", g%d" % j, lk[j]]
        cases.append(dict(id="t%d" % i, runs=[rrun(es), rrun(dl + ["OPENFILE \"f.dat\" FOR RANDOM"] + [e for j in range(len(tps)) for e in ("GETRECORD \"f.dat\", g%d" % j, lk[j])])]))
    # arrays with another number of elements, directly and at any depth of a record
    for i, t in enumerate(["INTEGER", "STRING", "CHAR", "BOOLEAN", "REAL", "Col", "In"] if not qk else rng.sample(["INTEGER", "STRING", "CHAR", "BOOLEAN", "REAL", "Col", "In"], 3)):
        dims = ["1:1", "1:2", "0:2", "1:4", "1:2, 1:2", "1:2, 1:3", "0:0, 0:4", "1:6"]
        cnt = [1, 2, 3, 4, 4, 6, 5, 6]
        last = ["1", "2", "2", "4", "2, 2", "2, 3", "0, 4", "6"]
        first = ["1", "1", "0", "1", "1, 1", "1, 1", "0, 0", "1"]
        dl = RDEF13[:2]
        for k, d in enumerate(dims):
            dl = dl + ["DECLARE w%d, g%d : ARRAY[%s] OF %s" % (k, k, d, t)]
            for c in {first[k], last[k]}:
                for v in "wg":
                    dl += fill(rng, "%s%d[%s]" % (v, k, c), "In", vs) if t == "In" else ["%s%d[%s] <- %s" % (v, k, c, rng.choice([e for tt, e in vs if tt == t and len(e) < 30]))]
        es = dl + ["OPENFILE \"f.dat\" FOR RANDOM"]
        for k in range(len(dims)):
            es += ["SEEK \"f.dat\", %d" % (k + 1), "PUTRECORD \"f.dat\", w%d" % k]
        pairs = [(a, b) for a in range(len(dims)) for b in range(len(dims)) if a == b or cnt[a] != cnt[b]]
        rng.shuffle(pairs)
        for a, b in pairs:
            es += ["SEEK \"f.dat\", %d" % (a + 1), "GETRECORD \"f.dat\", g%d" % b] + (["OUTPUT g%d[%s].i, g%d[%s].i" % (b, first[b], b, last[b])] if t == "In" else ["OUTPUT g%d[%s], g%d[%s]" % (b, first[b], b, last[b])])
        cases.append(dict(id="n%d" % i, runs=[rrun(es)]))
    # strings typed in by the user
    for n in range(20 if qk else 80):
        ss = ["".join(chr(rng.choice([35, 32, 48, 65, 9, 39, 34, 92, rng.randint(0, 9), rng.randint(14, 126), rng.randint(128, 255)])) for _ in range(rng.randint(0, 20))) for _ in range(4)]
        src = ["DECLARE s, g : STRING", "OPENFILE \"f.dat\" FOR RANDOM", "FOR i <- 1 TO 4\n INPUT s\n SEEK \"f.dat\", i\n PUTRECORD \"f.dat\", s\nNEXT i", "CLOSEFILE \"f.dat\""]
        rd = ["DECLARE g : STRING", "OPENFILE \"f.dat\" FOR RANDOM", "FOR i <- 4 TO 1 STEP -1\n SEEK \"f.dat\", i\n GETRECORD \"f.dat\", g\n OUTPUT LENGTH(g), \":\", g\nNEXT i"]
        cases.append(dict(id="u%d" % n, runs=[frun("\n".join(src) + "\n", "\n".join(ss) + "\n"), frun("\n".join(rd) + "\n")]))
    run(ck, cases, maxn=4000)
    run(ck, [c for c in cases if c["id"][0] in "rtuan"][:: 4 if qk else 1], "asan", maxn=4000)
    for rnd in range(1 if qk else 6):
        run(ck, [randfile(random.Random(rng.random()), "q%d-%d" % (rnd, n), vs) for n in range(60 if qk else 200)], "plain" if rnd % 2 == 0 else "asan", maxn=4000)
        run(ck, gen_recs.rec_cases(rng, 40 if qk else 200, "s%d-" % rnd, files=True), "plain" if rnd % 2 else "asan", maxn=4000)


def randfile(r, id, vs):
    """several runs over two random files with records of several types"""
    decls = RDEF13 + ["DECLARE wi, gi : INTEGER", "DECLARE ws, gs : STRING", "DECLARE wr, gr : REAL", "DECLARE wo, go : In", "DECLARE wc, gc : Col", "DECLARE wa, ga : ARRAY[1:3] OF STRING"]
    runs = []
    n = {"f.dat": [], "g.dat": []}
    for k in range(r.randint(2, 4)):
        es, open_ = decls[:], set()
        for _ in range(r.randint(6, 14)):
            f = r.choice(list(n))
            if f not in open_:
                es.append('OPENFILE "%s" FOR RANDOM' % f)
                open_.add(f)
            v, t = r.choice([("i", "INTEGER"), ("s", "STRING"), ("r", "REAL"), ("o", "In"), ("c", "Col"), ("a", "")])
            x = r.random()
            if x < 0.5:
                p = r.randint(1, len(n[f]) + 1)
                if t == "In":
                    es += fill(r, "wo", "In", vs)
                elif v == "a":
                    es += ["wa[%d] <- %s" % (j, r.choice([e for tt, e in vs if tt == "STRING"])) for j in (1, 2, 3)]
                else:
                    es.append("w%s <- %s" % (v, r.choice([e for tt, e in vs if tt == t and (t != "REAL" or len(e) < 24)])))
                es += ['SEEK "%s", %d' % (f, p), 'PUTRECORD "%s", w%s' % (f, v)]
                n[f][p - 1:p] = [v]
            elif x < 0.9 and n[f]:
                p = r.randint(1, len(n[f]))
                v = n[f][p - 1] if r.random() < 0.85 else v
                es += ['SEEK "%s", %d' % (f, p), 'GETRECORD "%s", g%s' % (f, v), cmpdump("go", "In") if v == "o" else 'OUTPUT ga[1], "|", ga[2], "|", ga[3]' if v == "a" else "OUTPUT g" + v]
            elif x < 0.97:
                es.append('CLOSEFILE "%s"' % f)
                open_.discard(f)
            else:
                es.append('SEEK "%s", %d' % (f, r.choice([0, -1, len(n[f]) + 2, 99])))
        runs.append(rrun(es))
    return dict(id=id, runs=runs)


# ------------------------------------------------------------------ C14
OPS14 = ["SEEK", "PUT", "GET", "CLOSE", "OPEN", "REOPEN", "RESTART"]


@check("C14", "model_checking",
       "Sequences of SEEK / PUTRECORD / GETRECORD / CLOSEFILE / OPENFILE / restart over one or two random files against a mirror of the records: all sequences of a fixed length over a small alphabet, and long random interleavings, with the whole file dumped by the program "
       "and by a later process at the end; SEEK to addresses around 1 and n+1 and far outside; reading at n+1 and in an empty file.")
def c14(ck, rng, tier):
    qk = tier == "quick"
    mc.replay(ck, rng, tier, "MC_Random", (40, 80), (40, None))
    cases = []
    f = '"f"'
    D = ["DECLARE x, y : INTEGER", "y <- -1", "DECLARE s : STRING"]

    def dump(n):
        out = ["CLOSEFILE " + f, "OPENFILE %s FOR RANDOM" % f]
        for k in range(1, n + 2):
            out += ["y <- -5", "SEEK %s, %d" % (f, k), "GETRECORD %s, y" % f, "OUTPUT y"]
        return out
    addr = ["1", "2", "3", "4", "5", "6", "0", "-1", "100", "2147483648", "4294967297", "-4294967295", "9223372036854775807", "-9223372036854775807", "1.0", '"1"', "TRUE", "x", "undef"]
    for n in range(0, 5):
        fill_ = ["OPENFILE %s FOR RANDOM" % f] + [e for k in range(1, n + 1) for e in ("x <- %d" % (k * 11), "SEEK %s, %d" % (f, k), "PUTRECORD %s, x" % f)] + ["x <- 2"]
        es = D + fill_
        for a in addr:
            es += ["SEEK %s, %s" % (f, a), "GETRECORD %s, y" % f, "y", "y <- -1"]
        cases.append(repl("sk%d" % n, es + dump(n)))
        for a in addr:
            cases.append(dict(id="sp%d-%s" % (n, a), runs=[rrun(D + fill_ + ["SEEK %s, %s" % (f, a), "x <- 777", "PUTRECORD %s, x" % f, "GETRECORD %s, y" % f, "y", "PUTRECORD %s, x" % f] + dump(n + 3)), rrun(D + dump(n + 3))]))
    # mixed types and values that look like separators in the same file
    for n in range(20 if qk else 60):
        r = random.Random(rng.random())
        vals = [r.choice(['"%s"' % s for s in ("", "#", "a\\nb", "1", "x#y", " ", "\\n\\n", "end")] + ["5", "-3", "2.5", "TRUE", "'c'"]) for _ in range(6)]
        es = ["OPENFILE %s FOR RANDOM" % f]
        tys = {}
        for k, v in enumerate(vals):
            es += ["v%d <- %s" % (k, v), "SEEK %s, %d" % (f, k + 1), "PUTRECORD %s, v%d" % (f, k)]
        for _ in range(4):
            k, j = r.randrange(6), r.randrange(6)
            es += ["SEEK %s, %d" % (f, k + 1), "PUTRECORD %s, v%d" % (f, j)]
            vals[k] = vals[j]
        rd = []
        for k, v in enumerate(vals):
            rd += ["u%d <- %s" % (k, '"zz"' if v[0] == '"' else "'z'" if v[0] == "'" else "FALSE" if v == "TRUE" else "0.5" if "." in v else "99"), "SEEK %s, %d" % (f, k + 1), "GETRECORD %s, u%d" % (f, k), "OUTPUT \"<\", u%d, \">\"" % k]
        cases.append(dict(id="mx%d" % n, runs=[rrun(es + rd), rrun(["OPENFILE %s FOR RANDOM" % f] + rd)]))
    # files of many records: appended at the end, replaced, reread, across runs
    for i, n in enumerate([6, 7, 8, 9, 12, 16, 17, 31, 33, 64, 100, 130, 256] if qk else list(range(5, 34)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]):
        fl = ["OPENFILE %s FOR RANDOM" % f, "FOR i <- 1 TO %d\n x <- i * 3\n SEEK %s, i\n PUTRECORD %s, x\nNEXT i" % (n, f, f)]
        if i % 3 == 1:
            fl = ["OPENFILE %s FOR RANDOM" % f, "FOR i <- 1 TO %d\n x <- i * 3\n SEEK %s, i\n PUTRECORD %s, x\n IF i MOD 5 = 0 THEN\n  CLOSEFILE %s\n  OPENFILE %s FOR RANDOM\n ENDIF\nNEXT i" % (n, f, f, f, f)]
        rd = lambda m: ["s <- \"\"", "FOR i <- %d TO 1 STEP -1\n SEEK %s, i\n GETRECORD %s, y\n s <- s & y & \" \"\nNEXT i" % (m, f, f), "OUTPUT s"]
        mid, k = [], n
        for _ in range(6):
            p = rng.choice([k + 1, k + 1, k, 1, rng.randint(1, k), k + 2])
            mid += ["x <- %d" % rng.randint(1000, 9999), "SEEK %s, %d" % (f, p), "PUTRECORD %s, x" % f]
            k += p == k + 1
        r1 = D + fl + rd(n) + mid + rd(k)
        r2 = D + ["OPENFILE %s FOR RANDOM" % f] + rd(k) + ["SEEK %s, %d" % (f, k + 1), "GETRECORD %s, y" % f, "SEEK %s, %d" % (f, k + 1), "PUTRECORD %s, x" % f, "SEEK %s, %d" % (f, k + 3), "SEEK %s, %d" % (f, k + 2), "PUTRECORD %s, x" % f] + rd(k + 2)
        cases.append(dict(id="mr%d" % n, runs=[rrun(r1), rrun(r2), rrun(D + ["OPENFILE %s FOR RANDOM" % f] + rd(k + 2))]))
    run(ck, cases, maxn=4000)
    run(ck, [c for c in cases if c["id"].startswith(("sk", "mx"))], "asan", maxn=4000)
    for rnd in range(1 if qk else 8):
        run(ck, [recs14(random.Random(rng.random()), "q%d-%d" % (rnd, n)) for n in range(120 if qk else 300)], "plain" if rnd % 2 == 0 else "asan", maxn=4000)


def recs14(r, id):
    names = ["f", "g"][: r.choice([1, 1, 2])]
    decls = ["DECLARE x, y : INTEGER", "DECLARE s, t : STRING", "TYPE R\n DECLARE n : INTEGER\n DECLARE s : STRING\nENDTYPE", "DECLARE ro, rp : R"]
    n = {f: 0 for f in names}
    runs = []
    c = 0
    kind = r.choice(["x", "x", "s", "ro"])
    dst = {"x": "y", "s": "t", "ro": "rp"}[kind]
    for k in range(r.randint(1, 4)):
        es = decls[:]
        op = set()
        for _ in range(r.randint(8, 20)):
            f = r.choice(names)
            fq = '"%s"' % f
            if f not in op:
                if r.random() < 0.95:
                    es.append("OPENFILE %s FOR RANDOM" % fq)
                    op.add(f)
            z = r.random()
            if z < 0.3:
                p = r.choice([1, n[f] + 1, r.randint(1, n[f] + 1), r.randint(1, n[f] + 1), n[f] + 2, 0])
                es.append("SEEK %s, %d" % (fq, p))
            elif z < 0.6:
                c += 1
                p = r.randint(1, n[f] + 1)
                if r.random() < 0.7:
                    es.append("SEEK %s, %d" % (fq, p))
                    n[f] = max(n[f], p)
                else:
                    n[f] += 1      # an upper bound, the program decides
                es += [{"x": "x <- %d" % c, "s": 's <- "%s"' % ("v%d" % c + r.choice(["", "\\n", "#", "\\n#5\\n", " "]) * r.randint(0, 3)), "ro": "ro.n <- %d" % c}[kind]] + (['ro.s <- "%s"' % r.choice(["", "a\\nb", "#1", "long text " * 3])] if kind == "ro" else [])
                es.append("PUTRECORD %s, %s" % (fq, kind))
            elif z < 0.85:
                if r.random() < 0.6:
                    es.append("SEEK %s, %d" % (fq, r.randint(1, n[f] + 1)))
                es += ["GETRECORD %s, %s" % (fq, dst), "OUTPUT rp.n, rp.s" if kind == "ro" else dst]
            elif z < 0.97:
                es.append("CLOSEFILE " + fq)
                op.discard(f)
            else:
                es.append(r.choice(["WRITEFILE %s, 5" % fq, "READFILE %s, s" % fq, "OPENFILE %s FOR READ" % fq if f in op else "CLOSEFILE " + fq, "OPENFILE %s FOR WRITE" % fq if f in op else "SEEK %s, 1" % fq]))
        runs.append(rrun(es))
    es = decls[:]
    for f in names:
        es.append('OPENFILE "%s" FOR RANDOM' % f)
        for k in range(1, n[f] + 3):
            es += ['SEEK "%s", %d' % (f, k), 'GETRECORD "%s", %s' % (f, dst), "OUTPUT rp.n, rp.s" if kind == "ro" else dst]
    return dict(id=id, runs=runs + [rrun(es)])


# ------------------------------------------------------------------ C15
VAL15 = ['"plain"', '""', '" "', '"  two"', '"tail  "', "'c'", "'\\t'", "5", "-17", "0", "9007199254740993", "-9223372036854775807", "TRUE", "FALSE", "2.5", "-0.000001", "1234567.891", "0.1", "1/2/2003", "29/2/2024", '"//x"', '"#"', '"12"', '"a,b"', '"\\\\"',
         '"\xe9"', '"' + "y" * 120 + '"', "2 + 3", '"ab" & "cd"', "7 DIV 2", "1 = 1", '"tab\\tx"', "100.0", "123456.789012", "0.3", "1000000.5", "-2.0000005", "'\xe9'", "CHR(128)", "CHR(255)", "CHR(127)", "CHR(1)", '"\x80\xff"', '"x" & CHR(200)', "CHR(27) & \"[0m\"", "CHR(0)", '"a" & CHR(0) & "b"', "CHR(0) & CHR(0)"]
NASTY = ['"a\\nb"', '"\\n"', '"x\\n"', '"\\n\\n"']


def loop15(f, v="l"):
    return ['OPENFILE "%s" FOR READ' % f, 'WHILE NOT EOF("%s")\n READFILE "%s", %s\n OUTPUT "<", %s, ">"\nENDWHILE' % (f, f, v, v), 'EOF("%s")' % f, 'CLOSEFILE "%s"' % f]


def loop15f(f, v="l"):
    return ['OPENFILE "%s" FOR READ' % f, 'WHILE NOT EOF("%s")\n READFILE "%s", %s\n OUTPUT "<", %s, ">"\nENDWHILE' % (f, f, v, v), 'OUTPUT EOF("%s")' % f, 'CLOSEFILE "%s"' % f]


CONTENT = [b"", b"one\n", b"one", b"\n", b"\n\n", b"a\nb\nc\n", b"a\nb\nc", b"\na\n", b"a\n\nb\n", b"  \n", b" x \n\ty\n", b"a\r\nb\r\n", b"1\n2.5\nTRUE\n", b"x" * 5000 + b"\ny\n", b"\xff\xfe\n\x01\x02\n", b"last\n\n\n", b"no newline\nat end", b"\x00z\n"]


@check("C15", "model_checking",
       "Text files: every kind of value written in every order-2 combination and read back in the same session, after reopening and by later processes; WRITE over and APPEND to existing contents of 18 shapes (with and without final newline, empty lines, CR, NUL, long lines); "
       "the EOF loop and EOF before and after every READFILE, reading past the end, several files and handles interleaved, and random histories over three files and several processes. The bytes of every file are compared after every run.")
def c15(ck, rng, tier):
    qk = tier == "quick"
    cases = []
    for i, c in enumerate(CONTENT):
        fs = {b"t.txt": c}
        cases.append(dict(id="rd%d" % i, files=fs, runs=[frun("\n".join(loop15f("t.txt")) + "\n")]))
        nl = c.count(b"\n") + 2
        es = ["DECLARE l : STRING", 'OPENFILE "t.txt" FOR READ', 'EOF("t.txt")']
        for _ in range(min(nl, 6) + 1):
            es += ['READFILE "t.txt", l', 'OUTPUT "<", l, ">"', 'EOF("t.txt")', 'EOF("t.txt")']
        cases.append(repl("eo%d" % i, es + ['CLOSEFILE "t.txt"', 'OPENFILE "t.txt" FOR READ', 'READFILE "t.txt", l', "OUTPUT l"], files=fs))
        for v in ['"new"', '""', "5", "TRUE"]:
            for md in ("APPEND", "WRITE"):
                cases.append(dict(id="ap%d-%s%s" % (i, md, v), files=fs, runs=[frun('OPENFILE "t.txt" FOR %s\nWRITEFILE "t.txt", %s\n%sCLOSEFILE "t.txt"\n' % (md, v, 'WRITEFILE "t.txt", "second"\n' if v == "5" else "")), rrun(loop15("t.txt"))]))
        cases.append(dict(id="an%d" % i, files=fs, runs=[frun('OPENFILE "t.txt" FOR APPEND\nCLOSEFILE "t.txt"\nOPENFILE "t.txt" FOR APPEND\n'), rrun(loop15("t.txt"))]))
        cases.append(dict(id="wn%d" % i, files=fs, runs=[frun('OPENFILE "t.txt" FOR WRITE\nCLOSEFILE "t.txt"\n' + "\n".join(loop15f("t.txt")) + "\n"), rrun(loop15("t.txt"))]))
    vals = VAL15 + NASTY
    pairs = list(itertools.product(vals, vals))
    if qk:
        pairs = [(v, rng.choice(vals)) for v in vals] + [(rng.choice(vals), v) for v in vals]
    for i, (a, b) in enumerate(pairs):
        w = 'OPENFILE "t.txt" FOR WRITE\nWRITEFILE "t.txt", %s\nWRITEFILE "t.txt", %s\nCLOSEFILE "t.txt"\n' % (a, b)
        cases.append(dict(id="wr%d" % i, runs=[frun(w + "\n".join(loop15f("t.txt")) + "\n"), frun('OPENFILE "t.txt" FOR APPEND\nWRITEFILE "t.txt", %s\n' % b), rrun(loop15("t.txt"))]))
    es = ['OPENFILE "t.txt" FOR WRITE', 'FOR i <- 0 TO 255\n IF i <> 13 AND i <> 10 THEN\n  WRITEFILE "t.txt", CHR(i)\n ENDIF\nNEXT i', 'CLOSEFILE "t.txt"', 'OPENFILE "t.txt" FOR READ', "i <- 0", 'WHILE NOT EOF("t.txt")\n READFILE "t.txt", l\n i <- i + ASC(l)\n OUTPUT LENGTH(l), " ", ASC(l)\nENDWHILE', "OUTPUT i"]
    cases += both("chars", es)
    # what may be written: only text-like values
    es = ["TYPE E = (aa, bb)", "TYPE R\n DECLARE n : INTEGER\nENDTYPE", "TYPE P = ^INTEGER", "DECLARE e : E", "DECLARE r : R", "DECLARE p : P", "DECLARE arr : ARRAY[1:2] OF INTEGER", "DECLARE l : STRING", 'OPENFILE "t.txt" FOR WRITE']
    for v in ["e", "aa", "r", "p", "arr", "arr[1]", "r.n", "undef", "1 / 0", '"ok"', "arr[5]", "nofn()"]:
        es += ['WRITEFILE "t.txt", ' + v]
    cases.append(repl("kinds", es + ['CLOSEFILE "t.txt"'] + loop15("t.txt")))
    # the target of READFILE
    es = ["TYPE R\n DECLARE s : STRING\nENDTYPE", "DECLARE r : R", "DECLARE st : STRING", "DECLARE i : INTEGER", "DECLARE re : REAL", "DECLARE c : CHAR", "DECLARE b : BOOLEAN", "DECLARE sa : ARRAY[1:2] OF STRING", "CONSTANT k = \"kk\"", 'OPENFILE "t.txt" FOR READ']
    for v in ["st", "newv", "i", "re", "c", "b", "k", "newv"]:
        es += ['READFILE "t.txt", ' + v, v]
    es += ['READFILE "t.txt", r.s', "r.s", 'READFILE "t.txt", sa[1]', "sa[1]", 'READFILE "t.txt"', "READFILE", 'READFILE "t.txt", 5', 'READFILE "nope.txt", st', "READFILE t.txt, st", 'READFILE 5, st', 'READFILE st, st', 'READFILE "t.txt", st', "st"]
    cases.append(repl("targets", es, files={b"t.txt": b"\n".join(b"line%d" % i for i in range(1, 20)) + b"\n"}))
    es = ['OPENFILE "t.txt" FOR WRITE', 'FOR i <- 1 TO 30\n WRITEFILE "t.txt", i * i\nNEXT i', 'CLOSEFILE "t.txt"', 'OPENFILE "t.txt" FOR READ', 'OPENFILE "u.txt" FOR WRITE', 'WHILE NOT EOF("t.txt")\n READFILE "t.txt", l\n WRITEFILE "u.txt", "copy " & l\nENDWHILE',
          'CLOSEFILE "u.txt"', 'CLOSEFILE "t.txt"'] + loop15f("u.txt")
    cases += both("copy", es)
    # file names computed, in variables, with characters of all sorts
    for i, n in enumerate(["a", "with space.txt", "UPPER.TXT", "x.y.z", "-dash", "t#1", "\xe9.txt", "a'b", "0", "name,comma", "very" * 20]):
        es = ['fn <- "%s"' % n, "OPENFILE fn FOR WRITE", "WRITEFILE fn, \"in \" & fn", "CLOSEFILE fn", 'OPENFILE "" & fn FOR READ', "READFILE fn, l", "OUTPUT l", "OUTPUT EOF(fn)", "CLOSEFILE fn"]
        cases += both("fn%d" % i, es)
    run(ck, cases, maxn=4000)
    run(ck, [c for c in cases if c["id"].startswith(("eo", "rd", "kinds", "targets"))], "asan", maxn=4000)
    mc.replay(ck, rng, tier, "MC_Text", (40, 130), (40, None))
    for rnd in range(1 if qk else 8):
        run(ck, [text15(random.Random(rng.random()), "q%d-%d" % (rnd, n)) for n in range(130 if qk else 300)], "plain" if rnd % 2 == 0 else "asan", maxn=4000)


def text15(r, id):
    names = ["a.txt", "b.txt", "c.txt"][: r.randint(1, 3)]
    files = {B(n): r.choice(CONTENT) for n in names if r.random() < 0.6}
    runs = []
    for k in range(r.randint(1, 3)):
        es = ["DECLARE l : STRING"]
        op = {}
        for _ in range(r.randint(8, 22)):
            f = r.choice(names)
            fq = '"%s"' % f
            if f not in op:
                md = r.choice(["READ", "READ", "WRITE", "APPEND", "APPEND"])
                es.append("OPENFILE %s FOR %s" % (fq, md))
                op[f] = md
            elif r.random() < 0.2:
                es.append("CLOSEFILE " + fq)
                del op[f]
            elif op[f] == "READ":
                es += r.choice([["READFILE %s, l" % fq, 'OUTPUT "<", l, ">"'], ["EOF(%s)" % fq], ['IF NOT EOF(%s) THEN\n READFILE %s, l\n OUTPUT "<", l, ">"\nENDIF' % (fq, fq)], ["WRITEFILE %s, 5" % fq] if r.random() < 0.1 else ["EOF(%s)" % fq]])
            else:
                es += r.choice([["WRITEFILE %s, %s" % (fq, r.choice(VAL15 + NASTY))]] * 4 + [["READFILE %s, l" % fq], ["EOF(%s)" % fq]])
        runs.append(rrun(es))
    es = []
    for f in names:
        es += loop15(f)
    return dict(id=id, files=files, runs=runs + [rrun(es)])


# ------------------------------------------------------------------ C16
@check("C16", "model_checking",
       "The handle state machine: every statement in every state of one and two names (closed, READ, WRITE, APPEND, RANDOM, file present or absent), each followed by a probe of every handle and file; unopenable paths (directory, missing directory, no permission), a full device; "
       "data left by programs ending normally, by a runtime error, in a procedure, by EXIT or end of input; aborted entries; random histories over names and modes. Contents of all files are compared after every run.")
def c16(ck, rng, tier):
    qk = tier == "quick"
    mc.replay(ck, rng, tier, "MC_Files", (40, 200), (40, None))
    cases = []
    modes = ["READ", "WRITE", "APPEND", "RANDOM"]
    stm = ["OPENFILE {f} FOR READ", "OPENFILE {f} FOR WRITE", "OPENFILE {f} FOR APPEND", "OPENFILE {f} FOR RANDOM", "READFILE {f}, l", "WRITEFILE {f}, \"w\"", "EOF({f})", "SEEK {f}, 1", "SEEK {f}, 2", "GETRECORD {f}, x", "PUTRECORD {f}, x", "CLOSEFILE {f}"]
    probe = ["EOF(\"a\")", "READFILE \"a\", l", "l", "SEEK \"a\", 1", "WRITEFILE \"a\", \"p\"", "EOF(\"b\")", "READFILE \"b\", l", "l", "WRITEFILE \"b\", \"p\"", "CLOSEFILE \"a\"", "CLOSEFILE \"b\"", 'CLOSEFILE "r"']
    base = ["DECLARE l : STRING", "DECLARE x : INTEGER", "x <- 7"]
    states = [[]] + [['OPENFILE "a" FOR %s' % m] for m in modes[:3]] + [['OPENFILE "r" FOR RANDOM'], ['OPENFILE "a" FOR READ', 'READFILE "a", l'], ['OPENFILE "a" FOR WRITE', 'WRITEFILE "a", "x"'], ['OPENFILE "a" FOR APPEND', 'WRITEFILE "a", "x"'],
                                                                         ['OPENFILE "r" FOR RANDOM', 'PUTRECORD "r", x', 'SEEK "r", 2'], ['OPENFILE "a" FOR READ', 'OPENFILE "b" FOR WRITE', 'OPENFILE "r" FOR RANDOM'], ['OPENFILE "a" FOR READ', 'CLOSEFILE "a"'],
                                                                         ['OPENFILE "n" FOR WRITE'], ['OPENFILE "n" FOR WRITE', 'CLOSEFILE "n"']]
    for i, st in enumerate(states):
        for f in ("a", "b", "r", "n"):
            for j, s in enumerate(stm):
                s = s.format(f='"%s"' % f)
                if f in ("r",) and ("READ" in s or "WRITE" in s or "APPEND" in s) and "OPENFILE" in s and not any('"r"' in e for e in st):
                    continue
                if f in "ab" and "RANDOM" in s and 'OPENFILE "%s"' % f not in " ".join(st):
                    continue
                if qk and rng.random() < 0.5 and i not in (0, 9):
                    continue
                cases.append(dict(id="s%d-%s-%d" % (i, f, j), files={b"a": b"one\ntwo\nthree\n", b"b": b"b1\nb2\n"}, runs=[rrun(base + st + [s] + (["l"] if "READFILE" in s else []) + probe)]))
    for i, (st, s) in enumerate(itertools.product(states, stm)):
        s = s.format(f='"a"')
        if "RANDOM" in s and not any('"a"' in e for e in st) or qk and rng.random() < 0.6:
            continue
        if s.startswith("EOF"):
            s = "OUTPUT " + s
        cases.append(dict(id="f%d" % i, files={b"a": b"one\ntwo\nthree\n", b"b": b"b1\nb2\n"}, runs=[frun("\n".join(base + st + [s, 'OUTPUT "end"']) + "\n", ln=True)]))
    # names and arguments of the wrong type or form
    es = base + ["CONSTANT fn = \"a\"", "num <- 5", "DECLARE arr : ARRAY[1:2] OF STRING", "arr[1] <- \"a\""]
    for a in ("5", "2.5", "TRUE", "'a'", "num", "undef", "fn", "arr[1]", "arr", '"a" & "b"', "1 / 0", '""', "l"):
        for s in stm:
            if a == "'a'" and "OPENFILE" in s:
                continue
            es.append(s.format(f=a))
        es += ['CLOSEFILE "a"', 'CLOSEFILE "ab"', 'CLOSEFILE "t"']
    cases.append(repl("args", es, files={b"a": b"one\ntwo\n", b"ab": b"q\n"}))
    for i, s in enumerate(["OPENFILE \"a\"", "OPENFILE \"a\" FOR", "OPENFILE \"a\" FOR READING", "OPENFILE \"a\" READ", "OPENFILE FOR READ", "CLOSEFILE", "WRITEFILE \"a\"", "WRITEFILE \"a\",", "READFILE \"a\" l", "SEEK \"a\"", "SEEK \"a\",", "GETRECORD \"a\"", "PUTRECORD \"a\", 5", "PUTRECORD \"a\", x + 1", "EOF", "EOF()",
                           "EOF(\"a\", 1)", "OPENFILE \"a\" FOR READ WRITE", "OPENFILE \"a\" FOR read"]):
        cases.append(repl("sy%d" % i, base + ['OPENFILE "a" FOR READ', s, 'READFILE "a", l', "l"], files={b"a": b"one\n"}))
    # paths that cannot be opened
    for kind in ("dir", "locked", "missing"):
        nm = {"dir": "d", "locked": "lk", "missing": "no/such"}[kind]
        for m in modes:
            es = base + ['OPENFILE "ok" FOR WRITE', 'WRITEFILE "ok", 1', 'OPENFILE "%s" FOR %s' % (nm, m), 'EOF("%s")' % nm, 'WRITEFILE "%s", 1' % nm, 'READFILE "%s", l' % nm, 'CLOSEFILE "%s"' % nm, 'OPENFILE "%s" FOR %s' % (nm, m), 'WRITEFILE "ok", 2', 'CLOSEFILE "ok"'] + loop15("ok")
            cases.append(dict(id="un-%s-%s" % (kind, m), special={B(nm): kind}, runs=[rrun(es)]))
            cases.append(dict(id="uf-%s-%s" % (kind, m), special={B(nm): kind}, runs=[frun("\n".join(['OPENFILE "ok" FOR WRITE', 'WRITEFILE "ok", 1', 'OUTPUT "go"', 'OPENFILE "%s" FOR %s' % (nm, m), 'OUTPUT "no"']) + "\n", ln=True)]))
    # a device that rejects writes: reported by CLOSEFILE at the latest, or at exit
    for m in ("WRITE", "APPEND"):
        for k, val in enumerate(['"x"', '""', '"%s"' % ("y" * 5000), "12345"]):
            w = ['OPENFILE "full" FOR ' + m] + ['WRITEFILE "full", ' + val] * (k % 2 + 1)
            if m == "APPEND":
                continue
            cases.append(dict(id="fl-c%s%d" % (m, k), special={b"full": "full"}, runs=[frun("\n".join(['OUTPUT "go"'] + w + ['CLOSEFILE "full"', "x <- 1"]) + "\n")]))
            cases.append(dict(id="fl-x%s%d" % (m, k), special={b"full": "full"}, runs=[frun("\n".join(['OUTPUT "go"'] + w + ["x <- 1"]) + "\n")]))
            cases.append(dict(id="fl-o%s%d" % (m, k), special={b"full": "full"}, runs=[frun("\n".join(['OUTPUT "go"', 'OPENFILE "ok" FOR WRITE', 'WRITEFILE "ok", 1', 'WRITEFILE "ok", 2'] + (['CLOSEFILE "ok"'] if k % 2 else []) + w) + "\n")]))
            cases.append(dict(id="fl-r%s%d" % (m, k), special={b"full": "full"}, runs=[rrun(['OPENFILE "full" FOR ' + m, 'WRITEFILE "full", ' + val, 'CLOSEFILE "full"', 'OUTPUT "alive"', 'OPENFILE "ok" FOR WRITE', 'WRITEFILE "ok", 3', 'CLOSEFILE "ok"'])]))
    # everything written reaches the file system however the run ends
    ends = {"normal": ([], None), "rt": (["OUTPUT 1 DIV 0"], None), "rtproc": (["PROCEDURE P\n WRITEFILE \"a\", \"in P\"\n z <- undef\nENDPROCEDURE", "CALL P"], None), "rtfn": (["FUNCTION F() RETURNS INTEGER\n WRITEFILE \"b\", \"in F\"\n RETURN \"x\"\nENDFUNCTION", "y <- F() + 1"], None),
            "loop": (["FOR i <- 1 TO 5\n WRITEFILE \"a\", i\n IF i = 3 THEN\n i <- \"x\"\n ENDIF\nNEXT i"], None), "file": (['READFILE "a", l'], None), "reopen": (['OPENFILE "a" FOR READ'], None), "stmtfail": (['WRITEFILE "a", 5 + TRUE'], None)}
    for k, (tail, _) in ends.items():
        for cl in ([], ["a"], ["b"], ["a", "b", "r"]):
            es = base + ['OPENFILE "a" FOR WRITE', 'OPENFILE "b" FOR APPEND', 'OPENFILE "r" FOR RANDOM'] + ['WRITEFILE "a", "l%d"\nWRITEFILE "b", %d' % (i, i) for i in range(3)] + ['PUTRECORD "r", x', 'SEEK "r", 2', "x <- 8", 'PUTRECORD "r", x'] + ['CLOSEFILE "%s"' % c for c in cl] + tail
            rd = rrun(base + ['OPENFILE "r" FOR RANDOM', 'GETRECORD "r", x', "x", 'SEEK "r", 2', 'GETRECORD "r", x', "x", 'SEEK "r", 3', 'GETRECORD "r", x'] + loop15("a") + loop15("b"))
            cases.append(dict(id="en-%s-%s" % (k, "".join(cl)), files={b"b": b"old\n"}, runs=[frun("\n".join(es) + "\n"), rd]))
            flat = []
            for e in es:
                flat += e.split("\n") if e.startswith("WRITEFILE") else [e]
            cases.append(dict(id="er-%s-%s" % (k, "".join(cl)), files={b"b": b"old\n"}, runs=[rrun(flat + ["EXIT"]) if k != "rt" else rrun(flat), rd]))
    # large contents: more than any buffer
    for n in (10, 300):
        src = 'OPENFILE "a" FOR WRITE\nFOR i <- 1 TO %d\n WRITEFILE "a", "%s"\nNEXT i\n' % (n, "z" * 200)
        cases.append(dict(id="big%d" % n, maxfile=200000, runs=[frun(src + "x <- 1 DIV 0\n"), frun("n <- 0\nOPENFILE \"a\" FOR READ\nWHILE NOT EOF(\"a\")\n READFILE \"a\", l\n n <- n + LENGTH(l)\nENDWHILE\nOUTPUT n\n")]))
    run(ck, cases, maxn=4000)
    run(ck, [c for c in cases if c["id"].startswith(("en", "un", "args"))], "asan", maxn=4000)
    for rnd in range(1 if qk else 8):
        run(ck, [hand16(random.Random(rng.random()), "q%d-%d" % (rnd, n)) for n in range(120 if qk else 300)], "plain" if rnd % 2 == 0 else "asan", maxn=4000)


def hand16(r, id):
    tx, rx = ["a", "b", "c"], ["r", "s"]
    files = {B(n): r.choice([b"one\ntwo\n", b"", b"x\ny\nz"]) for n in tx if r.random() < 0.6}
    runs = []
    special = {b"d": "dir", b"no/f": "missing", b"lk": "locked"} if r.random() < 0.5 else {}
    for k in range(r.randint(1, 3)):
        es = ["DECLARE l : STRING", "DECLARE x, y : INTEGER", "x <- %d" % r.randint(1, 99)]
        for _ in range(r.randint(12, 26)):
            f = r.choice(tx + tx + rx + ([x.decode() for x in special] if r.random() < 0.3 else []))
            fq = '"%s"' % f
            if f in rx:
                es.append(r.choice(["OPENFILE %s FOR RANDOM", "OPENFILE %s FOR RANDOM", "PUTRECORD %s, x", "PUTRECORD %s, x", "GETRECORD %s, y", "SEEK %s, 1", "SEEK %s, 2", "SEEK %s, 3", "CLOSEFILE %s", "READFILE %s, l", "WRITEFILE %s, 1", "EOF(%s)", "x <- x + 1"]).replace("%s", fq))
            else:
                m = ["OPENFILE %s FOR READ", "OPENFILE %s FOR WRITE", "OPENFILE %s FOR APPEND", "READFILE %s, l", "READFILE %s, l", "WRITEFILE %s, x", "WRITEFILE %s, x", "WRITEFILE %s, l", "CLOSEFILE %s", "EOF(%s)", "EOF(%s)", "SEEK %s, 1", "GETRECORD %s, y", "PUTRECORD %s, x",
                     "IF EOF(%s) THEN\n OUTPUT \"e\"\nELSE\n READFILE %s, l\n OUTPUT l\nENDIF", "PROCEDURE Q%d\n WRITEFILE %s, \"q\"\n CLOSEFILE %s\n CLOSEFILE %s\nENDPROCEDURE" if False else "WRITEFILE %s, \"t\""]
                es.append(r.choice(m).replace("%s", fq))
            if r.random() < 0.15:
                es.append(r.choice(["l", "OUTPUT x, y", "x <- x + 1", "z <- 1 DIV 0"]))
        if r.random() < 0.5:
            runs.append(rrun(es))
        else:
            es = ["OUTPUT " + e if e.startswith("EOF(") or e == "l" else e for e in es]
            runs.append(frun("\n".join(es) + "\n"))
    es = ["DECLARE y : INTEGER", "y <- -1"]
    for f in tx:
        es += loop15(f)
    for f in rx:
        es += ['OPENFILE "%s" FOR RANDOM' % f] + [e for k in (1, 2, 3) for e in ('SEEK "%s", %d' % (f, k), 'GETRECORD "%s", y' % f, "y")]
    return dict(id=id, files=files, special=special, runs=runs + [rrun(es)])
