"""C01: every input is executed or diagnosed.  Random and systematic abuse, run under
AddressSanitizer; TLC executes each program on the specification (which predicts the way
it ends), except for runs marked lite, whose size allows only the outcome to be judged."""
import itertools, random
import corpus, layout, gen_prog as GP
from common import *

POOL = ["DECLARE", "CONSTANT", "TYPE", "ENDTYPE", "DEFINE", "IF", "THEN", "ELSE", "ENDIF", "CASE", "OF", "OTHERWISE", "ENDCASE",
        "WHILE", "DO", "ENDWHILE", "REPEAT", "UNTIL", "FOR", "TO", "STEP", "NEXT", "BREAK", "CONTINUE", "PROCEDURE", "BYREF", "BYVAL",
        "ENDPROCEDURE", "CALL", "FUNCTION", "RETURNS", "RETURN", "ENDFUNCTION", "OPENFILE", "READ", "WRITE", "APPEND", "RANDOM",
        "READFILE", "WRITEFILE", "CLOSEFILE", "SEEK", "GETRECORD", "PUTRECORD", "EOF", "OUTPUT", "PRINT", "INPUT", "INTEGER", "REAL",
        "BOOLEAN", "CHAR", "STRING", "DATE", "ARRAY", "TRUE", "FALSE", "MOD", "DIV", "AND", "OR", "NOT",
        "+", "-", "*", "/", "&", "=", "<>", "<", "<=", ">", ">=", "<-", "^", "(", ")", "[", "]", ".", ",", ":",
        "x", "LENGTH", "1", "2.5", '"s"', "'c'", "1/2/2000", "\n", '"', "'", "//", "@", "_", "\xe9", "99999999999999999999", "1.", ".5"]

# an environment with a value of every kind; the entries after it use it in every wrong way
ENV = '''TYPE En = (ea, eb, ec)
TYPE Fn = (fa)
TYPE PI = ^INTEGER
TYPE PE = ^En
TYPE Rec
 DECLARE i : INTEGER
 DECLARE s : STRING
 DECLARE e : En
 DECLARE a : ARRAY[0:2] OF INTEGER
ENDTYPE
TYPE PR = ^Rec
TYPE Out
 DECLARE r : Rec
 DECLARE m : ARRAY[1:2, 1:2] OF REAL
ENDTYPE
DECLARE i, j : INTEGER
DECLARE r : REAL
DECLARE b : BOOLEAN
DECLARE c : CHAR
DECLARE s, f : STRING
DECLARE d : DATE
DECLARE e : En
DECLARE g : Fn
DECLARE p, np : PI
DECLARE q : PR
DECLARE pe : PE
DECLARE w, w2 : Rec
DECLARE o : Out
DECLARE a, a2 : ARRAY[1:3] OF INTEGER
DECLARE m : ARRAY[0:1, 0:2] OF STRING
DECLARE ra : ARRAY[1:2] OF Rec
DECLARE pa : ARRAY[1:2] OF PI
CONSTANT K = 7
CONSTANT KS = "const"
PROCEDURE pv(x : INTEGER)
 DECLARE loc : INTEGER
 loc <- x
 p <- ^loc
ENDPROCEDURE
PROCEDURE pr(BYREF x : INTEGER, BYREF y : Rec)
 x <- x + 1
 y.i <- x
ENDPROCEDURE
PROCEDURE pn
 i <- i + 1
ENDPROCEDURE
FUNCTION fi(x : INTEGER) RETURNS INTEGER
 RETURN x + 1
ENDFUNCTION
FUNCTION fr(x : Rec) RETURNS Rec
 x.i <- 9
 RETURN x
ENDFUNCTION
FUNCTION fno(x : STRING) RETURNS STRING
 IF x = "y" THEN
  RETURN x & "!"
 ENDIF
ENDFUNCTION
FUNCTION rec(n : INTEGER) RETURNS INTEGER
 IF n <= 0 THEN
  RETURN 0
 ENDIF
 RETURN rec(n - 1) + 1
ENDFUNCTION
i <- 3
j <- -2
r <- 2.5
b <- TRUE
c <- 'x'
s <- "hello"
f <- "t.txt"
d <- 29/2/2024
e <- eb
p <- ^i
q <- ^w
w.s <- "rec"
w.e <- ec
'''
ATOMS = ["i", "j", "r", "b", "c", "s", "f", "d", "e", "g", "p", "np", "q", "pe", "w", "w2", "o", "a", "m", "ra", "pa", "K", "KS", "ea", "fa",
         "En", "Rec", "PI", "p^", "np^", "q^.i", "q^.s", "pe^", "w.i", "w.s", "w.e", "w.a", "w.zz", "o.r", "o.r.i", "o.m[1, 2]", "o.m",
         "a[1]", "a[3]", "a[0]", "a[4]", "a[i]", "a[r]", "a[1, 1]", "a[s]", "m[0, 0]", "m[1, 2]", "m[2, 0]", "m[0]", "ra[1]", "ra[2].a[2]",
         "ra[1].a[3]", "ra[1].e", "pa[1]", "pa[1]^", "undef", "undef[1]", "undef.f", "undef^", "pv", "pn", "fi", "fi(1)", "fi()", "fi(s)",
         "fi(1, 2)", "fr(w)", "fr(w).i", "fno(\"y\")", "fno(\"n\")", "rec(20)", "nofn(1)", "^i", "^w", "^a", "0", "1", "-1", "3",
         "9223372036854775807", "(-9223372036854775807 - 1)", "1.5", "1e5", "0.0", "TRUE", "FALSE", "'z'", "'\\n'", '""', '"ab"', '"12"',
         "1/1/2000", "31/2/2001", "0/0/0", "e + 1", "e - 100", "d + 1", "NOT b", "-s", "-e", "-r", "i / 0", "i MOD 0", "i DIV 0", "s & c & i",
         "w & s", "i = s", "w = w", "a = a", "e < ea", "p = p", "INTEGER(s)", "CHAR(i)", "DATE(s)", "REAL(w)", "STRING(e)", "BOOLEAN(d)",
         "(i <- 5)", "(p <- ^i)", "(w <- w2)", "(newv <- 4)", "(s <- c)", "EOF(f)", 'EOF("t.txt")', "EOF(1)", "EOF(w)", "(i)", "((w))", "i.i", "s[1]", "s^", "a^", "En.ea"]
# one of every kind of operand, and every place an operand, a name or a type can stand in
NOVAL = {"(i <- 5)", "(p <- ^i)", "(w <- w2)", "(newv <- 4)", "(s <- c)"}   # assignments have no value
REPS = ["i", "r", "b", "c", "s", "d", "e", "g", "p", "np", "q", "w", "o", "a", "m", "ra", "K", "En", "Rec", "PI", "ea", "p^", "np^", "q^", "q^.i", "w.a", "w.zz", "a[1]", "a[9]", "m[0, 1]", "ra[1]", "pa[1]^",
        "undef", "undef.f", "pv", "fi", "fi(1)", "fi()", "fr(w)", 'fno("n")', "nofn(1)", "1", "-1", "1.5", "TRUE", "'z'", '"ab"', '""', "1/1/2000", "31/2/2001", "(i <- 5)", "(p <- ^i)", "(w <- w2)", "(newv <- 4)",
        "i / 0", "LENGTH", "LEFT(s, 99)", "INTEGER(s)", "e + 1", "(w)", "(a)", "9223372036854775807"]
SLOTS = ["{}", "OUTPUT {}", "OUTPUT 1, {}, 2", "OUTPUT ({})", "OUTPUT -{}", "OUTPUT NOT {}", "OUTPUT - - {}", "i <- {}", "r <- {}", "b <- {}", "c <- {}", "s <- {}", "d <- {}", "e <- {}", "g <- {}", "p <- {}", "q <- {}", "pe <- {}", "w <- {}", "o <- {}",
         "o.r <- {}", "a <- {}", "m <- {}", "ra <- {}", "ra[1] <- {}", "w.a <- {}", "w.e <- {}", "a[1] <- {}", "m[0, 0] <- {}", "p^ <- {}", "np^ <- {}", "q^ <- {}", "q^.a[1] <- {}", "new <- {}", "K <- {}", "pa[1] <- {}",
         "a[{}] <- 1", "OUTPUT a[{}]", "m[{}, 1] <- \"x\"", "OUTPUT m[0, {}]", "OUTPUT ra[{}].a[{}]", "OUTPUT w.a[{}]", "OUTPUT pa[{}]^",
         "IF {} THEN\n OUTPUT 1\nENDIF", "IF FALSE THEN\n OUTPUT 1\nELSE IF {} THEN\n OUTPUT 2\nELSE\n OUTPUT 3\nENDIF", "WHILE {} DO\n BREAK\nENDWHILE", "REPEAT\n OUTPUT 1\nUNTIL {} OR TRUE", "REPEAT\n BREAK\nUNTIL {}",
         "FOR k <- {} TO 3\n BREAK\nNEXT k", "FOR k <- 1 TO {}\n BREAK\nNEXT k", "FOR k <- 1 TO 3 STEP {}\n BREAK\nNEXT k", "FOR {} <- 1 TO 2\n OUTPUT 1\nNEXT",
         "CASE OF i\n {} : OUTPUT 1\n OTHERWISE : OUTPUT 2\nENDCASE", "CASE OF i\n {} TO 5 : OUTPUT 1\n OTHERWISE : OUTPUT 2\nENDCASE", "CASE OF i\n 1 TO {} : OUTPUT 1\n OTHERWISE : OUTPUT 2\nENDCASE",
         "CASE OF s\n {} : OUTPUT 1\n OTHERWISE : OUTPUT 2\nENDCASE", "CASE OF e\n {} : OUTPUT 1\n OTHERWISE : OUTPUT 2\nENDCASE", "CASE OF w\n {} : OUTPUT 1\nENDCASE", "CASE OF {}\n 1 : OUTPUT 1\n \"s\" : OUTPUT 3\n OTHERWISE : OUTPUT 2\nENDCASE",
         "CALL pv({})", "CALL pr({}, w)", "CALL pr(i, {})", "CALL pn({})", "CALL {}", "CALL {}()", "OUTPUT fi({})", "OUTPUT fi({}, 1)", "OUTPUT fr({}).i", "w2 <- fr({})", "OUTPUT fno({})", "OUTPUT {}({})", "OUTPUT {}()",
         "DECLARE a# : ARRAY[{}:3] OF INTEGER", "DECLARE a# : ARRAY[1:{}] OF INTEGER", "DECLARE a# : ARRAY[1:2, {}:2] OF Rec", "CONSTANT k# = {}", "DECLARE {} : INTEGER", "DECLARE v# : {}", "DECLARE v# : ARRAY[1:2] OF {}",
         "TYPE {} = (z#)", "TYPE T# = ({}, y#)", "TYPE T# = ^{}", "TYPE T#\n DECLARE x : {}\nENDTYPE", "TYPE T#\n DECLARE x : ARRAY[1:{}] OF INTEGER\nENDTYPE", "TYPE {}\n DECLARE x : INTEGER\nENDTYPE",
         "PROCEDURE {}()\n OUTPUT 1\nENDPROCEDURE", "PROCEDURE P#({} : INTEGER)\n OUTPUT 1\nENDPROCEDURE", "PROCEDURE P#(x : {})\n OUTPUT 1\nENDPROCEDURE", "FUNCTION F#() RETURNS {}\n RETURN i\nENDFUNCTION\n OUTPUT F#()",
         "FUNCTION F#() RETURNS INTEGER\n RETURN {}\nENDFUNCTION\nOUTPUT F#()", "FUNCTION F#() RETURNS Rec\n RETURN {}\nENDFUNCTION\nOUTPUT F#().i", "FUNCTION F#(BYREF z : INTEGER) RETURNS PI\n p <- {}\n RETURN p\nENDFUNCTION\nOUTPUT F#(i)^", "RETURN {}",
         "OPENFILE {} FOR READ", "OPENFILE {} FOR WRITE", "OPENFILE {} FOR RANDOM", "CLOSEFILE {}", "READFILE {}, s", "WRITEFILE {}, 1", "SEEK {}, 1", "GETRECORD {}, i", "PUTRECORD {}, i", "OUTPUT EOF({})",
         'OPENFILE "o" FOR APPEND\n|WRITEFILE "o", {}\n|CLOSEFILE "o"', 'OPENFILE "t.txt" FOR READ\n|READFILE "t.txt", {}\n|CLOSEFILE "t.txt"', 'OPENFILE "w" FOR RANDOM\n|SEEK "w", {}\n|PUTRECORD "w", {}\n|SEEK "w", 1\n|GETRECORD "w", {}\n|CLOSEFILE "w"', "INPUT {}",
         "OUTPUT INTEGER({})", "OUTPUT REAL({})", "OUTPUT STRING({})", "OUTPUT BOOLEAN({})", "OUTPUT CHAR({})", "OUTPUT DATE({})", "p <- ^{}", "q <- ^{}", "pe <- ^{}", "new2 <- ^{}", "{} <- 1", "{} <- {}", "{} <- ^i", "OUTPUT {}^", "OUTPUT {}.i", "OUTPUT {}[1]", "OUTPUT {}[1, 2]",
         "{}^ <- 1", "{}.i <- 1", "{}[1] <- 1"] + \
        ["OUTPUT {} %s %s" % (o, x) for o in ("+", "/", "MOD", "&", "=", "<", "AND", "OR") for x in ("1", '"s"', "FALSE", "w", "e")] + ["OUTPUT %s %s {}" % (x, o) for o in ("-", "DIV", "&", "<>", ">=", "AND", "OR") for x in ("2.5", '"s"', "TRUE", "FALSE", "p", "e")]
BUILT = ["LENGTH", "RIGHT", "LEFT", "MID", "TO_UPPER", "TO_LOWER", "LCASE", "UCASE", "ASC", "CHR", "NUM_TO_STR", "STR_TO_NUM", "IS_NUM",
         "RAND", "INT", "DAY", "MONTH", "YEAR", "DAYINDEX", "SETDATE", "TODAY", "POW", "EXP", "SIN", "COS", "TAN", "ASIN", "ACOS", "ATAN",
         "SQRT", "LOG", "LN", "HYPOT", "TIME", "HOURS", "MINUTES", "SECONDS", "ATAN2", "ROUND", "GAUSS", "EOF"]
MUTE = {"TODAY", "TIME", "HOURS", "MINUTES", "SECONDS"}
OPS = ["+", "-", "*", "/", "DIV", "MOD", "&", "=", "<>", "<", "<=", ">", ">=", "AND", "OR"]
LV = ["i", "r", "b", "c", "s", "d", "e", "g", "p", "pe", "w", "o", "a", "ra", "K", "a[1]", "a[9]", "a[j]", "m[1, 1]", "m[s, 1]", "w.i", "w.a[1]",
      "w.a[3]", "w.q", "o.r", "o.m[2, 2]", "ra[2]", "ra[2].s", "p^", "np^", "q^", "q^.i", "q^.a[1]", "undef2", "undef2[1]", "undef2.x",
      "ea", "En", "fi", "pn", "s.x", "i[1]", "i^", "pa[1]", "pa[2]^", "LENGTH", "w.e", "w2", "a2"]
MODES = ["READ", "WRITE", "APPEND", "RANDOM"]


def expr(rng, d=1):
    r = rng.random()
    if d <= 0 or r < 0.5:
        return rng.choice(ATOMS)
    if r < 0.75:
        return expr(rng, d - 1) + " " + rng.choice(OPS) + " " + expr(rng, d - 1)
    if r < 0.9:
        return "%s(%s)" % (rng.choice(BUILT + ["fi", "fr", "fno"]), ", ".join(expr(rng, d - 1) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 3, 4]))))
    return rng.choice(["-", "NOT ", "(", "^"]) + expr(rng, d - 1) + (")" if rng.random() < 0.2 else "")


def stmt(rng, d=2):
    """a statement or construct over ENV without regard to types"""
    E = lambda: expr(rng)
    L = lambda: rng.choice(LV)
    F = lambda: rng.choice(["f", '"t.txt"', '"u.txt"', '"v.dat"', '"none"', '""', "s", "i", "c", "w"])
    S = lambda: "\n".join(" " + x for x in stmt(rng, d - 1).split("\n"))
    k = rng.randrange(22 if d > 0 else 16)
    if k in (0, 1):
        return "%s <- %s" % (L(), E())
    if k in (2, 3):
        return "OUTPUT %s" % ", ".join(E() for _ in range(rng.choice([1, 1, 2, 3])))
    if k == 4:
        return E()
    if k == 5:
        return "INPUT %s" % L()
    if k == 6:
        return "CALL %s" % rng.choice(["pn", "pn()", "pv(%s)" % E(), "pr(%s, %s)" % (rng.choice(ATOMS), rng.choice(ATOMS)), "pv", "pv(%s, %s)" % (E(), E()),
                                       "fi(%s)" % E(), "nope(1)", "i", "w.i", "pr(%s, %s)" % (L(), L())])
    if k == 7:
        return "OPENFILE %s FOR %s" % (F(), rng.choice(MODES))
    if k == 8:
        return rng.choice(["READFILE %s, %s" % (F(), L()), "WRITEFILE %s, %s" % (F(), E()), "CLOSEFILE %s" % F()])
    if k == 9:
        return rng.choice(["SEEK %s, %s" % (F(), E()), "GETRECORD %s, %s" % (F(), L()), "PUTRECORD %s, %s" % (F(), L())])
    if k == 10:
        return "DECLARE %s : %s" % (rng.choice(["n1", "n2, n3", "i", "K", "En", "n4"]), rng.choice(
            ["INTEGER", "En", "Rec", "PI", "ARRAY[1:%s] OF INTEGER" % E(), "ARRAY[%s:3, 1:2] OF Rec" % E(), "Nope", "ea", "ARRAY[1:2] OF PR"]))
    if k == 11:
        return "CONSTANT %s = %s" % (rng.choice(["c1", "c2", "i", "K", "En"]), rng.choice([E(), "1", '"x"', "-3", "TRUE"]))
    if k == 12:
        return rng.choice(["TYPE %s = (%s)" % (rng.choice(["T1", "T2", "En", "i"]), rng.choice(["x1, x2", "ea", "i", "x3, x3", "y1"])),
                           "TYPE %s = ^%s" % (rng.choice(["T3", "T4", "PI"]), rng.choice(["INTEGER", "En", "Rec", "Nope", "T3", "PI"])),
                           "TYPE %s\n DECLARE z : %s\n DECLARE y : %s\nENDTYPE" % (rng.choice(["R1", "R2", "Rec"]), rng.choice(["INTEGER", "R1", "Rec", "En", "Nope"]),
                                                                                    rng.choice(["STRING", "ARRAY[1:2] OF R1", "ARRAY[1:%s] OF CHAR" % E(), "PI"]))])
    if k == 13:
        return rng.choice(["BREAK", "CONTINUE", "RETURN %s" % E(), "%s <- ^%s" % (L(), rng.choice(ATOMS)), "p <- ^%s" % L()])
    if k == 14:
        return "PROCEDURE %s(%s)\n %s\nENDPROCEDURE" % (rng.choice(["n5", "n6", "pn"]), rng.choice(["", "BYREF z : INTEGER", "z : Rec", "z : Nope", "z, z : INTEGER"]), rng.choice(["z <- 1", "i <- 2", "OUTPUT z", "CALL n5()"]))
    if k == 15:
        return "FUNCTION %s(%s) RETURNS %s\n RETURN %s\nENDFUNCTION" % (rng.choice(["n7", "n8", "fi"]), rng.choice(["", "BYREF z : STRING", "z : PI"]), rng.choice(["INTEGER", "Rec", "En", "Nope", "PI"]), E())
    if k == 16:
        return "IF %s THEN\n%s\nELSE\n%s\nENDIF" % (E(), S(), S())
    if k == 17:
        return "CASE OF %s\n %s : %s\n %s TO %s : %s\n OTHERWISE : %s\nENDCASE" % (L(), E(), S().strip(), E(), E(), S().strip(), S().strip())
    if k == 18:
        return "WHILE %s DO\n%s\n BREAK\nENDWHILE" % (E(), S())
    if k == 19:
        return "REPEAT\n%s\nUNTIL %s" % (S(), rng.choice([E() + " OR TRUE", E()]))
    if k == 20:
        v = rng.choice(["i", "j", "n9", "K", "r", "s", "a"])
        return "FOR %s <- %s TO %s%s\n%s\nNEXT %s" % (v, rng.choice(["1", "5", E()]), rng.choice(["3", "0", E()]), rng.choice(["", " STEP 2", " STEP -1", " STEP " + E()]), S(), v)
    return "%s\n%s" % (stmt(rng, 0), stmt(rng, 0)) if d < 2 else "IF TRUE THEN\n%s\n%s\nENDIF" % (S(), S())


def slot_cases(rng, keep):
    """sessions that put every kind of operand in every place; an entry with parts (|) is several entries"""
    es = []
    for k, sl in enumerate(SLOTS):
        for j, a in enumerate(REPS):
            if rng.random() < keep and not (a in NOVAL and (" = " in sl or " <> " in sl)):
                es.append(sl.replace("{}", a).replace("#", "%d_%d" % (k, j)))
    rng.shuffle(es)
    for i, part in enumerate(chunks(es, 30)):
        part = [e.rstrip("\n") for x in part for e in x.split("|")]
        yield repl("slot%d" % i, ENVENT + [e + "\n5" if e.startswith("INPUT") else e for e in part], files=dict(FILES), steps=8000)


def calm(x):
    """leaves out what may legitimately run on for ever or print unpredictable text"""
    return not any(w + "(" in x for w in MUTE)


def ents(text):
    return ["\n".join(e) for e in GP.split(text.strip("\n").split("\n"))]


ENVENT = ents(ENV)
FILES = {b"t.txt": b"one\n2\n\nTRUE\nx y z\nlast", b"u.txt": b"", b"v.dat": b""}
INP = b"5\nabc\n2.5\nTRUE\n\n1/1/2001\n  7 \nz\n99999999999999999999\n"


def chaos_file(id, rng, n, **kw):
    st = [s for s in (stmt(rng) for _ in range(n)) if calm(s)]
    return prog(id, ENV + "\n".join(st) + "\n", INP, files=dict(FILES), steps=5000, **kw)


def chaos_repl(id, rng, n, **kw):
    st = [s for s in (stmt(rng) for _ in range(n)) if calm(s)]
    return repl(id, ENVENT + st, files=dict(FILES), steps=5000, **kw)


def damage(rng, src):
    """a byte- or token-level change of a program text"""
    k = rng.randrange(9)
    if k < 5:
        lines = src.split("\n")
        i = rng.choice([i for i, l in enumerate(lines) if layout.tokens(l)])
        t = layout.tokens(lines[i])
        j = rng.randrange(len(t))
        a, b = t[j]
        l = lines[i]
        if k == 0:
            l = l[:a] + l[b:]
        elif k == 1:
            l = l[:b] + " " + l[a:]
        elif k == 2:
            l = l[:a] + rng.choice(POOL) + l[b:]
        elif k == 3:
            l = l[:a] + rng.choice(POOL) + " " + l[a:]
        else:
            l = l[:a]
        lines[i] = l
        return "\n".join(lines)
    at = rng.randrange(len(src) + 1)
    if k == 5:
        return src[:at]
    if k == 6:
        return src[:at] + chr(rng.choice([0, 1, 9, 10, 13, 32, 34, 39, 40, 47, 64, 92, 127, 128, 195, 255])) + src[at:]
    if k == 7:
        return src[:at] + src[at + 1 + rng.randrange(6):]
    b = rng.randrange(len(src) + 1)
    a, b = min(at, b), max(at, b)
    return src[:a] + src[a:b][:200] + src[a:b][:200] + src[b:]


def lines_moved(rng, src):
    """deletes, repeats, exchanges whole lines: unbalanced constructs"""
    l = src.rstrip("\n").split("\n")
    for _ in range(rng.choice([1, 1, 2])):
        i, j = rng.randrange(len(l)), rng.randrange(len(l))
        k = rng.randrange(3)
        if k == 0:
            del l[i]
        elif k == 1:
            l.insert(i, l[j])
        else:
            l[i], l[j] = l[j], l[i]
        if not l:
            l = [""]
    return "\n".join(l) + "\n"


def deep():
    """nesting and length, judged by outcome only"""
    out = []
    def add(tag, src, inp=b"", **kw):
        out.append(prog("deep-" + tag, src, inp, lite=True, timeout=60, **kw))
    for n in (50, 300, 1000):
        add("par%d" % n, "OUTPUT " + "(" * n + "1" + ")" * n + "\n")
        add("parx%d" % n, "OUTPUT " + "(" * n + "1\n")
        add("neg%d" % n, "OUTPUT " + "- " * n + "1\n")
        add("not%d" % n, "OUTPUT " + "NOT " * n + "TRUE\n")
        add("sum%d" % n, "OUTPUT " + "1 + " * n + "1\n")
        add("cat%d" % n, "OUTPUT " + '"a" & ' * n + "1\n")
        add("and%d" % n, "OUTPUT " + "TRUE AND " * n + "FALSE\n")
        add("if%d" % n, "".join("IF TRUE THEN\n" for _ in range(n)) + "OUTPUT 1\n" + "ENDIF\n" * n)
        add("ifx%d" % n, "".join("IF TRUE THEN\n" for _ in range(n)) + "OUTPUT 1\n")
        add("elif%d" % n, "IF FALSE THEN\n" + "ELSE IF FALSE THEN\nOUTPUT 0\n" * n + "ELSE\nOUTPUT 1\nENDIF\n")
        add("for%d" % n, "".join("FOR i%d <- 1 TO 1\n" % i for i in range(n)) + "OUTPUT 1\n" + "".join("NEXT i%d\n" % i for i in range(n - 1, -1, -1)))
        add("while%d" % n, "WHILE TRUE DO\n" * n + "BREAK\n" + "ENDWHILE\nBREAK\n" * (n - 1) + "ENDWHILE\n")
        add("idx%d" % n, "DECLARE a : ARRAY[0:1] OF INTEGER\nOUTPUT " + "a[" * n + "0" + "]" * n + "\n")
        add("call%d" % n, "OUTPUT " + "INT(" * n + "1" + ")" * n + "\n")
        add("case%d" % n, "x <- 1\nCASE OF x\n" + "".join(" %d : OUTPUT %d\n" % (i + 2, i) for i in range(n)) + " OTHERWISE : OUTPUT 0\nENDCASE\n")
        add("dims%d" % n, "DECLARE a : ARRAY[" + ",".join(["1:1"] * n) + "] OF INTEGER\na[" + ",".join(["1"] * n) + "] <- 1\nOUTPUT a[" + ",".join(["1"] * n) + "]\n")
        add("params%d" % n, "PROCEDURE p(" + ", ".join("a%d : INTEGER" % i for i in range(n)) + ")\nOUTPUT a0\nENDPROCEDURE\nCALL p(" + ", ".join("1" for _ in range(n)) + ")\n")
        add("enum%d" % n, "TYPE T = (" + ", ".join("e%d" % i for i in range(n)) + ")\nDECLARE x : T\nx <- e1\nOUTPUT x - 5\n")
        add("ptr%d" % n, "TYPE P0 = ^INTEGER\n" + "".join("TYPE P%d = ^P%d\n" % (i + 1, i) for i in range(n)) + "DECLARE i : INTEGER\nDECLARE p : P0\np <- ^i\nOUTPUT p^\n")
        add("rec%d" % n, "FUNCTION f(n : INTEGER) RETURNS INTEGER\nIF n = 0 THEN\nRETURN 0\nENDIF\nRETURN f(n - 1) + 1\nENDFUNCTION\nOUTPUT f(%d)\n" % n)
        add("nested-rec%d" % n, "".join("TYPE R%d\nDECLARE x : %s\nENDTYPE\n" % (i, "INTEGER" if i == 0 else "R%d" % (i - 1)) for i in range(min(n, 300))) + "DECLARE r : R%d\n" % (min(n, 300) - 1)
            + "OUTPUT r" + ".x" * min(n, 300) + "\n")
        add("caret%d" % n, "x <- 1\nOUTPUT x" + "^" * n + "\n")
        add("lines%d" % n, "OUTPUT 1\n" * n)
        add("blank%d" % n, "\n" * n + "x\n")
        add("declare%d" % n, "DECLARE " + ", ".join("v%d" % i for i in range(n)) + " : INTEGER\nOUTPUT v%d\n" % (n - 1))
        add("outs%d" % n, "OUTPUT " + ", ".join("1" for _ in range(n)) + "\n")
    for n in (1000, 50000):
        add("id%d" % n, "%s <- 1\nOUTPUT %s\n" % ("v" * n, "v" * n))
        add("str%d" % n, 'OUTPUT "%s"\n' % ("s" * n))
        add("strx%d" % n, 'OUTPUT "%s\n' % ("s" * n))
        add("int%d" % n, "OUTPUT %s\n" % ("9" * n))
        add("real%d" % n, "OUTPUT 1.%s\n" % ("9" * n))
        add("realx%d" % n, "OUTPUT %s.5\n" % ("9" * n))
        add("cmt%d" % n, "//%s\nOUTPUT 1\n" % ("c" * n))
        add("sp%d" % n, "OUTPUT%s1\n" % (" " * n))
        add("inp%d" % n, "INPUT x\nOUTPUT LENGTH(x)\n", b"i" * n + b"\n")
        add("inpi%d" % n, "DECLARE x : INTEGER\nINPUT x\nOUTPUT x\n", b"9" * n + b"\n")
        add("inpr%d" % n, "DECLARE x : REAL\nINPUT x\nOUTPUT x\n", b"9" * n + b".5\n")
        add("read%d" % n, "DECLARE x : STRING\nOPENFILE \"f\" FOR READ\nREADFILE \"f\", x\nOUTPUT LENGTH(x), EOF(\"f\")\nCLOSEFILE \"f\"\n", files={b"f": b"l" * n}, maxfile=100)
        add("openlong%d" % n, 'OPENFILE "%s" FOR WRITE\n' % ("n" * n))
    add("grow", 's <- "x"\nFOR i <- 1 TO 18\n s <- s & s\nNEXT i\nOUTPUT LENGTH(s), MID(s, 1000, 3), LENGTH(TO_UPPER(s)), LENGTH(LEFT(s, 200000)), LENGTH(RIGHT(s, 200000))\n')
    add("rec-inf", "FUNCTION f(n : INTEGER) RETURNS INTEGER\nRETURN f(n + 1)\nENDFUNCTION\nOUTPUT f(0)\n")
    add("loop-inf", "WHILE TRUE DO\n x <- 1\nENDWHILE\n", steps=20000)
    for n in (100, 5000, 20000):
        add("arr%d" % n, "DECLARE a : ARRAY[1:%d] OF INTEGER\na[%d] <- 4\nOUTPUT a[%d], a[1]\nDECLARE b : ARRAY[1:%d] OF INTEGER\nb <- a\nOUTPUT b[%d]\n" % (n, n, n, n, n))
        add("arrneg%d" % n, "DECLARE a : ARRAY[-%d:%d] OF STRING\na[-%d] <- \"x\"\na[%d] <- \"y\"\nOUTPUT a[-%d], a[0], a[%d]\na[%d] <- \"z\"\n" % (n, n, n, n, n, n, n + 1))
    for lo, hi in (("0", "-1"), ("5", "1"), ("9223372036854775807", "9223372036854775807"), ("-9223372036854775807", "-9223372036854775807"), ("1", "0")):
        add("arrb" + lo + hi, "DECLARE a : ARRAY[%s:%s] OF INTEGER\na[%s] <- 1\nOUTPUT a[%s]\na[%s + 1] <- 2\n" % (lo, hi, lo, hi, hi))
    for lo, hi in (("-9223372036854775807", "9223372036854775807"), ("1", "9223372036854775807"), ("0", "9223372036854775807"), ("1", "4294967297")):
        for more in ("", ", 1:4294967296", ", %s:%s" % (lo, hi), ", 1:2, 1:9223372036854775807"):
            add("arrh", "DECLARE a : ARRAY[%s:%s%s] OF INTEGER\nOUTPUT \"made\"\n" % (lo, hi, more))
    return out


def corrupt(ck, rng, n):
    """data files that no run of the interpreter wrote, opened in every mode"""
    use = ('TYPE En = (ea, eb, ec)\nTYPE Rec\n DECLARE i : INTEGER\n DECLARE s : STRING\n DECLARE e : En\n DECLARE a : ARRAY[0:2] OF INTEGER\n DECLARE c : CHAR\nENDTYPE\n'
           'DECLARE i : INTEGER\nDECLARE r : REAL\nDECLARE b : BOOLEAN\nDECLARE c : CHAR\nDECLARE s : STRING\nDECLARE d : DATE\nDECLARE e : En\nDECLARE w : Rec\nDECLARE a : ARRAY[1:3] OF STRING\n')
    vs = ["i", "r", "b", "c", "s", "d", "e", "w", "a"]
    sets = 'i <- 77\nr <- 1.5\nb <- TRUE\nc <- \'#\'\ns <- "line\\nbreak # 12"\nd <- 5/6/2007\ne <- ec\nw.i <- 5\nw.s <- "#"\nw.e <- eb\na[2] <- "mid"\n'
    out = []
    for v in vs:
        mk = {"id": "mk", "runs": [frun(use + sets + 'OPENFILE "f" FOR RANDOM\nPUTRECORD "f", %s\nSEEK "f", 2\nPUTRECORD "f", %s\nSEEK "f", 3\nPUTRECORD "f", %s\nCLOSEFILE "f"\n' % (v, v, rng.choice(vs)))]}
        import pe2
        rec = pe2.run_case(ck.box, mk)
        data = [bytes(x["b"]) for x in rec["runs"][0]["after"] if bytes(x["n"]) == b"f"]
        data = data[0] if data else b""
        for j in range(n):
            x = bytearray(data)
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                k = rng.randrange(6)
                at = rng.randrange(len(x) + 1)
                if k == 0:
                    del x[at:]
                elif k == 1:
                    del x[at:at + rng.choice([1, 2, 8])]
                elif k == 2:
                    x[at:at] = rng.choice([b"#", b" ", b"\n", b"\0", b"-", b"9", b"99999999999999999999", b"A", b"S", b"-1", b"e", b".", b"\xff", b"nan", b"inf", b"1e999", b"0x"])
                elif k == 3 and x:
                    at = rng.randrange(len(x))
                    x[at] = rng.choice([0, 10, 32, 35, 45, 48, 57, 65, 127, 128, 255, rng.randrange(256)])
                elif k == 4:
                    x[at:at] = x[max(0, at - 9):at]
                else:
                    x[at:at + 1] = b"%d" % rng.choice([0, -1, 3, 255, 256, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, -2 ** 63, 10 ** 30])
            out.append((v, bytes(x)))
    for x in (b"", b"\n", b"#", b"##", b"\0" * 40, b"\xff" * 40, b"garbage text\nmore\n", b"1", b"1\n2\n3\n", b"I 5#", b"-5", bytes(range(256)), b"9" * 400, b"#" * 300, b" " * 300, b"S99999999999 x", b"\r\n\r\n"):
        for v in vs:
            out.append((v, x))
    for j, (v, x) in enumerate(out):
        o = rng.choice(vs)
        act = []
        for k in rng.sample(range(7), 7):
            act.append(['GETRECORD "f", %s' % v, 'SEEK "f", 2', 'GETRECORD "f", %s' % o, 'PUTRECORD "f", %s' % v, 'SEEK "f", 1', 'SEEK "f", 3\nGETRECORD "f", %s' % v, 'OUTPUT EOF("f")'][k])
        ses = ents(use + sets) + ['OPENFILE "f" FOR RANDOM'] + "\n".join(act).split("\n") + \
            ['CLOSEFILE "f"', 'OPENFILE "f" FOR READ', 'READFILE "f", s', 'OUTPUT EOF("f")', 'READFILE "f", s', "OUTPUT LENGTH(s)", 'CLOSEFILE "f"', 'OPENFILE "f" FOR RANDOM', 'GETRECORD "f", w', 'OUTPUT "alive"']
        yield repl("corrupt%d-%s" % (j, v), ses, files={b"f": x}, strictmem=True, timeout=30, lite=True)
        if j % 3 == 0:
            yield prog("corruptf%d-%s" % (j, v), use + sets + 'OPENFILE "f" FOR RANDOM\n' + "\n".join(act[:3]) + '\nCLOSEFILE "f"\nOUTPUT i, r, b, c, s, d, e, w.i, w.s, w.e, w.a[2], a[2]\n',
                       files={b"f": x}, strictmem=True, timeout=30)


TEXTS = [b"", b"\n", b"\n\n\n", b"x", b"x\n", b"\0", b"a\0b\nc", b"\xff\xfe\n\x80", b"1 2 3", b"\r", b"a\r\nb\r\n", b"\x1a", b"\x04", b"9" * 300 + b"\n", b"x" * 5000, b"-", b"+", b".", b"1e400\n", b"-9223372036854775809\n",
         b"9223372036854775808\n", b"TRUE\n", b"True", b" 5", b"5 ", b"0x10\n", b"nan\n", b"inf\n", b"1.5\n", b"''\n", b"\t\n", b"1/1/1\n", b"32/1/2000\n"]


def stdin_cases():
    """every kind of input line into every kind of target, file and text data likewise"""
    tg = ["i", "r", "b", "c", "s", "d", "e", "p", "w", "a", "a[1]", "a[9]", "w.i", "w.e", "q^.s", "np^", "K", "newvar", "En", "m[0, 0]"]
    for t, i in itertools.product(tg, range(len(TEXTS))):
        x = TEXTS[i]
        yield "INPUT %s\nOUTPUT %s\nINPUT %s\n" % (t, t, t), x, {}
        yield 'OPENFILE "x.txt" FOR READ\nREADFILE "x.txt", %s\nOUTPUT %s, EOF("x.txt")\nREADFILE "x.txt", %s\n' % (t, t, t), b"", {b"x.txt": x}


def hostile(rng):
    """what a person's keyboard may send: control and escape sequences, arbitrary bytes, any line end"""
    x = b""
    for _ in range(rng.randint(1, 12)):
        k = rng.random()
        if k < 0.3:
            x += bytes(rng.randrange(256) for _ in range(rng.randint(0, 30)))
        elif k < 0.5:
            x += bytes(rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 11, 12, 14, 16, 18, 20, 21, 22, 23, 24, 25, 26, 27, 127, 200, 65, 91, 40]) for _ in range(rng.randint(1, 20)))
        elif k < 0.6:
            x += b"x <- " + b"1+" * rng.randint(1, 3000) + b"1"
        else:
            x += rng.choice([b"INPUT x", b"OUTPUT x", b"IF TRUE THEN", b"", b"x <- 5", b"TYPE T", b"EXIT ", b"?", b"RUNFILE x", b"DECLARE c : CHAR", b"INPUT c", b"c <- 'x'", b"PROCEDURE p", b"FOR i <- 1 TO 3"])
        x += rng.choice([b"\n", b"\n", b"\n", b"\r\n", b"\r", b""])
    return x


HOSTF = b"""INPUT x
INPUT y
OUTPUT x, y
DECLARE c : CHAR
DECLARE i : INTEGER
DECLARE r : REAL
DECLARE b : BOOLEAN
INPUT c
INPUT i
INPUT r
INPUT b
OUTPUT c, i, r, b
"""


@check("C01", "exploration",
       "Runs under AddressSanitizer and the UBSan memory checks. Sessions of two-token entries over every pair from a pool of 98 tokens (thorough: triples too); "
       "programs of a corpus covering every construct with tokens, bytes and lines deleted, repeated, exchanged, inserted or cut off; random statements over an environment with a value of every kind, used without regard to types (file and REPL, with and without --pedantic); "
       "built-ins over argument tuples of every kind; arbitrary bytes, control and escape sequences at the prompt and at INPUT, with and without the line editor (outcome only); input and data-file texts of 33 shapes into 20 targets; random files damaged at byte level or foreign, opened in every mode; nesting, lengths and sizes up to 1000 / 50000; arrays with extreme bounds. "
       "TLC executes every program on the specification and rejects a crash, another exit status, a missing or different diagnostic; runs marked 'outcome only' are judged by how they end.")
def c01(ck, rng, tier):
    T = tier == "thorough"
    out = []
    # token sequences
    seqs = [(a, b) for a in POOL for b in POOL] + [(a,) for a in POOL]
    rng.shuffle(seqs)
    es = [" ".join(x).replace("\n", " \\n ") for x in seqs if x[0] != "\n" and not (set(x) & {"TODAY"})]
    for i, part in enumerate(chunks(es, 70)):
        if T or i % 2 == ck.seed % 2:
            out.append(repl("pair%d" % i, ["x <- 1"] + part + ['OUTPUT "end"']))
    for i in range(300 if T else 25):
        part = [" ".join(rng.choice(POOL).replace("\n", "") for _ in range(rng.choice([3, 3, 4, 5, 6]))) for _ in range(60)]
        out.append(repl("tri%d" % i, ["x <- 1"] + part + ['OUTPUT "end"'], ped=rng.random() < 0.2))
    for i in range(400 if T else 60):
        out.append(prog("toks%d" % i, " ".join(rng.choice(POOL) for _ in range(rng.randrange(3, 30))), ped=rng.random() < 0.3))
    for i in range(256):
        if T or i % 4 == 0 or i in (10, 13, 34, 39, 92, 127, 255):
            ch = chr(i)
            out.append(prog("byte%d" % i, ch + rng.choice(["", "\n", ch, "OUTPUT 1\n"])))
            out.append(prog("bytem%d" % i, "OUTPUT 1 " + ch + " + 2\nOUTPUT \"" + ch + "\"\n"))
    run(ck, out, "asan", timeout=800)
    # damaged programs
    out = []
    names = sorted(corpus.CORPUS)
    for i in range(2500 if T else 330):
        nm = rng.choice(names)
        src = corpus.text(nm)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            src = damage(rng, src) if rng.random() < 0.75 and src.strip() else lines_moved(rng, src)
        out.append(prog("dmg%d-%s" % (i, nm), src, corpus.INPUT[nm], ped=rng.random() < 0.2, steps=5000, timeout=30))
    for i in range(400 if T else 40):
        nm = rng.choice(names)
        es = [damage(rng, e) if rng.random() < 0.25 else e for e in corpus.CORPUS[nm]]
        es = [e.rstrip("\n") for e in es if "\r" not in e and e.strip() and "\n\n" not in e.strip("\n")]
        out.append(repl("dmgr%d-%s" % (i, nm), es, steps=5000, timeout=30, lite=any("INPUT" in e or "READ" in e for e in es)))
    run(ck, out, "asan", timeout=800)
    # statements over ENV, types ignored
    out = []
    for i in range(1500 if T else 130):
        out.append(chaos_file("chf%d" % i, rng, rng.choice([1, 3, 6]), ped=rng.random() < 0.1))
    for i in range(700 if T else 90):
        out.append(chaos_repl("chr%d" % i, rng, 25))
    # built-ins
    tup = [(f, ()) for f in BUILT] + [(f, (a,)) for f in BUILT for a in ATOMS] + [(f, tuple(rng.choice(ATOMS) for _ in range(n))) for f in BUILT for n in (2, 2, 2, 2, 3, 3, 3, 3, 4)]
    es = ["OUTPUT %s(%s)" % (f, ", ".join(a)) for f, a in tup if f not in MUTE and (f != "TIME" or a)]
    rng.shuffle(es)
    for i, part in enumerate(chunks(es, 40)):
        if T or i % 3 == ck.seed % 3:
            out.append(repl("fn%d" % i, ENVENT + part))
    es = [(rng.choice(ATOMS), rng.choice(OPS), rng.choice(ATOMS)) for _ in range(4000 if T else 800)]
    es = ["OUTPUT %s %s %s" % e for e in es if e[1] not in ("=", "<>") or not NOVAL & set(e)]
    es += ["%s <- %s" % (v, a) for v in LV for a in ATOMS if T or rng.random() < 0.1]
    for i, part in enumerate(chunks(es, 40)):
        out.append(repl("bin%d" % i, ENVENT + part))
    out += slot_cases(rng, 1 if T else 0.3)
    run(ck, out, "asan", timeout=800)
    # any bytes at the line editor
    out = []
    for i in range(1500 if T else 160):
        x = hostile(rng)
        out.append(dict(id="tty%d" % i, kind="rlasan" if i % 4 else "asan", timeout=60,
                        runs=[dict(mode="repl", src=b"", inp=x, lite=True)] if i % 2 else [dict(mode="file", src=HOSTF, inp=x, lite=True)]))
    run(ck, out, "asan", timeout=800)
    # standard input and text files
    out = []
    cs = list(stdin_cases())
    for i, (body, inp, files) in enumerate(cs):
        if T or i % 6 == ck.seed % 6:
            out.append(prog("in%d" % i, ENV + body, inp, files=files))
    run(ck, out, "asan", timeout=800)
    run(ck, list(corrupt(ck, rng, 150 if T else 18)), "asan", n=600, timeout=800)
    run(ck, deep(), "asan", timeout=800)
    run(ck, rand_cases(rng, 400 if T else 40, "rnd", perr=0.12, files=True), "asan", timeout=800)
