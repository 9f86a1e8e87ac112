"""C03 control flow, C04 calls."""
import itertools
import mc
from common import *
import gen_loops

I64MAX = (1 << 63) - 1


# ------------------------------------------------------------------ C03
class Flow:
    """random nested control flow over small counters, with a trace of every block entered"""

    def __init__(self, rng, brk=True):
        self.r, self.n, self.brk = rng, 0, brk
        self.vars = []      # counters in scope
        self.b = 0

    def mark(self):
        self.b += 1
        return 'OUTPUT "%s"%s' % ("b%d" % self.b, "".join(', " ", ' + v for v in self.vars[-3:]))

    def cond(self):
        r = self.r
        if self.vars and r.random() < 0.85:
            v = r.choice(self.vars)
            k = r.randint(-2, 4)
            c = r.choice(["%s = %d", "%s <> %d", "%s > %d", "%s <= %d", "%s < %d", "%s >= %d"]) % (v, k)
            if r.random() < 0.2:
                c = "%s MOD 2 = %d" % (v, r.randint(0, 1))
            if r.random() < 0.15:
                c = "NOT (%s)" % c
            if r.random() < 0.2:
                c = "(%s) %s (%s = %d)" % (c, r.choice(["AND", "OR"]), r.choice(self.vars), r.randint(-1, 3))
            return c
        return r.choice(["TRUE", "FALSE", "t", "NOT t"])

    def block(self, d, loop, ind):
        out = [self.mark()]
        for _ in range(self.r.randint(1, 3)):
            out += self.stmt(d - 1, loop)
        if self.r.random() < 0.3:
            out.append(self.mark())
        return [" " * ind + x for x in out]

    def stmt(self, d, loop):
        r = self.r
        ch = ["mark"]
        if d > 0:
            ch += ["if", "if", "case", "for", "for", "while", "repeat", "rangecase"]
        if loop and self.brk:
            ch += ["brk", "brk", "ifbrk"]
        if self.vars:
            ch += ["asg"]
        k = r.choice(ch)
        ind = r.choice([1, 2, 4])
        if k == "mark":
            return [self.mark()]
        if k == "asg":
            return ["acc <- acc * 3 MOD 97 + %s" % r.choice(self.vars)]
        if k == "brk":
            return ["IF %s THEN" % self.cond(), "  " + r.choice(["BREAK", "CONTINUE"]), "ENDIF"]
        if k == "ifbrk":
            return ["IF %s THEN" % self.cond()] + self.block(d, loop, ind) + [" " + r.choice(["BREAK", "CONTINUE"]), "ELSE",
                                                                             "  " + r.choice(["BREAK", "CONTINUE", self.mark()]), "ENDIF"]
        if k == "if":
            out = ["IF %s THEN" % self.cond()] + self.block(d, loop, ind)
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                out += ["ELSE IF %s THEN" % self.cond()] + self.block(d, loop, ind)
            if r.random() < 0.5:
                out += ["ELSE"] + self.block(d, loop, ind)
            return out + ["ENDIF"]
        if k in ("case", "rangecase"):
            e = r.choice(self.vars + ["acc", "acc"])
            out = ["CASE OF " + e]
            if e == "acc":
                out.insert(0, "acc <- acc MOD %d" % r.randint(4, 7))
            for _ in range(r.randint(1, 4)):
                a = r.randint(-2, 4)
                lab = "%d" % a if r.random() < 0.5 else "%d TO %d" % (a, a + r.randint(-1, 3))
                bl = self.block(d, loop, 4)
                out += [" %s : %s" % (lab, bl[0].strip())] + bl[1:]
            if r.random() < 0.5:
                bl = self.block(d, loop, 4)
                out += [" OTHERWISE : " + bl[0].strip()] + bl[1:]
            return out + ["ENDCASE"]
        self.n += 1
        v = "%s%d" % (r.choice("ijk"), self.n)
        if k == "for":
            a, z = r.randint(-2, 3), r.randint(-2, 4)
            st = r.choice(["", "", "", " STEP 1", " STEP 2", " STEP -1", " STEP -2", " STEP 3"])
            if "-" in st and a < z and r.random() < 0.7:
                a, z = z, a
            self.vars.append(v)
            body = self.block(d, True, ind)
            if r.random() < 0.1:
                body.append(" %s <- %s + 1" % (v, v) if "-" not in st else " %s <- %s - 1" % (v, v))
            self.vars.pop()
            return ["FOR %s <- %d TO %d%s" % (v, a, z, st)] + body + ["NEXT" + r.choice([" " + v, ""]), 'OUTPUT "after ", %s' % v]
        self.vars.append(v)
        lim = r.randint(0, 4)
        body = [" %s <- %s + 1" % (v, v)] + self.block(d, True, ind)
        self.vars.pop()
        if k == "while":
            return ["%s <- 0" % v, "WHILE %s < %d%s" % (v, lim, r.choice([" DO", ""]))] + body + ["ENDWHILE", 'OUTPUT "after ", %s' % v]
        return ["%s <- 0" % v, "REPEAT"] + body + ["UNTIL %s >= %d" % (v, lim), 'OUTPUT "after ", %s' % v]

    def program(self, d):
        out = ["acc <- 1", "t <- TRUE"]
        for _ in range(self.r.randint(2, 4)):
            out += self.stmt(d, False)
        return out + ["OUTPUT acc"]


def wrap(rng, lines):
    """the same code as the body of a procedure or function called from a loop"""
    b = ["    " + x for x in lines]
    if rng.random() < 0.5:
        return ["PROCEDURE Work"] + b + ["ENDPROCEDURE", "FOR outer <- 1 TO 2", "  CALL Work", 'OUTPUT "outer ", outer', "NEXT outer"]
    return ["FUNCTION Work RETURNS INTEGER".replace("Work", "Work()")] + b + ["    RETURN acc", "ENDFUNCTION", "w <- 0", "WHILE w < 2",
                                                                              "  w <- w + 1", "  OUTPUT Work()", "ENDWHILE"]


def for_table():
    es = []
    for a, z, s in itertools.product(range(-2, 4), range(-2, 4), [None, 1, 2, 3, -1, -2, -3]):
        st = "" if s is None else " STEP %d" % s
        es.append("FOR i <- %d TO %d%s\n OUTPUT i\nNEXT i" % (a, z, st))
        es.append("i")
    big = I64MAX
    for a, z, s in [(big - 3, big - 1, 1), (big - 7, big - 2, 2), (-big, -big + 2, 1), (-big + 2, -big, -1), (big - 4000000002, big - 4000000000, 1),
                    (2147483646, 2147483649, 1), (-2147483647, -2147483650, -1), (0, 9000000000, 4000000000), (9007199254740990, 9007199254740995, 1),
                    (0, -9000000000, -3000000000), (big - 10, big - 5, 5), (-big + 10, -big + 5, -5)]:
        es.append("FOR i <- %d TO %d STEP %d\n OUTPUT i\nNEXT" % (a, z, s))
        es.append("i")
    return es


FOR_SIDE = [
    # start, stop and step are evaluated once, in this order, before the first iteration
    'FUNCTION Tell(n : INTEGER) RETURNS INTEGER\n OUTPUT "eval ", n\n RETURN n\nENDFUNCTION',
    'FOR i <- Tell(1) TO Tell(5) STEP Tell(2)\n OUTPUT i\nNEXT i',
    'FOR i <- Tell(3) TO Tell(1)\n OUTPUT i\nNEXT i', 'i',
    'z <- 4', 's <- 1', 'a <- 1',
    'FOR i <- a TO z STEP s\n OUTPUT i\n z <- z + 1\n s <- s + 1\n a <- 100\nNEXT i', 'i', 'z', 's',
    'FOR i <- i TO i + 2\n OUTPUT i\nNEXT i', 'i',
    'FOR i <- 1 TO i\n OUTPUT i\nNEXT i', 'i',
    'FOR i <- 1 TO 10\n OUTPUT i\n i <- i + 2\nNEXT i', 'i',
    'FOR i <- 10 TO 1 STEP -3\n OUTPUT i\n IF i = 7 THEN\n i <- 3\n ENDIF\nNEXT i', 'i',
    'FOR i <- 1 TO 3\n FOR j <- i TO 3\n OUTPUT i, " ", j\n NEXT j\nNEXT i', 'i', 'j',
    'FOR i <- 1 TO 2\n FOR i <- 5 TO 6\n OUTPUT i\n NEXT i\n OUTPUT "o", i\nNEXT i', 'i',
    'FOR i <- 1 TO 3\nNEXT i', 'i', 'FOR i <- 3 TO 1\nNEXT', 'i',
    'DECLARE n : INTEGER', 'FOR n <- 1 TO 3\n OUTPUT n\nNEXT n', 'n',
    'FOR n <- 1 TO 3\n OUTPUT n\n BREAK\nNEXT n', 'n', 'FOR n <- 1 TO 3\n CONTINUE\n OUTPUT n\nNEXT n', 'n',
    'PROCEDURE P(BYREF k : INTEGER)\n FOR k <- 1 TO 3\n OUTPUT k, n\n NEXT k\nENDPROCEDURE', 'CALL P(n)', 'n',
    'PROCEDURE Q\n FOR n <- 7 TO 8\n OUTPUT n\n NEXT n\n FOR loc <- 1 TO 2\n OUTPUT loc\n NEXT loc\nENDPROCEDURE', 'CALL Q', 'n', 'loc',
    'DECLARE r : REAL', 'FOR r <- 1 TO 3\n OUTPUT r\nNEXT r', 'r', 'DECLARE st : STRING', 'FOR st <- 1 TO 2\nNEXT st', 'st',
    'CONSTANT cc = 3', 'FOR cc <- 1 TO 2\n OUTPUT cc\nNEXT cc', 'cc',
    'FOR q <- 1.0 TO 3\nNEXT', 'q', 'FOR q <- 1 TO 3.5\n OUTPUT q\nNEXT', 'q', 'FOR q <- 1 TO 3 STEP 0.5\n OUTPUT q\nNEXT', 'q',
    'FOR q <- "1" TO 3\nNEXT', "FOR q <- 1 TO 'a'\nNEXT", 'FOR q <- TRUE TO 3\nNEXT', 'FOR q <- 1 TO 3 STEP TRUE\nNEXT', 'q',
    'FOR q <- 1 TO 4 DIV 2\n OUTPUT q\nNEXT', 'FOR q <- 1 TO 4 / 2\n OUTPUT q\nNEXT', 'q',
]

CASES = [
    'PROCEDURE CI(x : INTEGER)\n CASE OF x\n 1 : OUTPUT "one"\n 2 TO 4 : OUTPUT "two-four"\n 3 : OUTPUT "three"\n -5 TO -3 : OUTPUT "neg"\n'
    ' 9 TO 7 : OUTPUT "empty"\n 2 + 6 : OUTPUT "eight"\n OTHERWISE : OUTPUT "other"\n ENDCASE\nENDPROCEDURE',
    *['CALL CI(%d)' % k for k in range(-7, 12)],
    'PROCEDURE CN(x : INTEGER)\n CASE OF x\n 1 : OUTPUT "one"\n OUTPUT "again"\n 5 TO 5 : OUTPUT "five"\n ENDCASE\n OUTPUT "end"\nENDPROCEDURE',
    *['CALL CN(%d)' % k for k in (0, 1, 4, 5, 6)],
    "PROCEDURE CC(x : CHAR)\n CASE OF x\n 'a' TO 'f' : OUTPUT \"af\"\n 'e' : OUTPUT \"e\"\n 'A' : OUTPUT \"A\"\n '0' TO '9' : OUTPUT \"digit\"\n"
    " OTHERWISE : OUTPUT \"other\"\n ENDCASE\nENDPROCEDURE",
    *["CALL CC('%s')" % c for c in "afgeA09/:Z "],
    'PROCEDURE CS(x : STRING)\n CASE OF x\n "abc" : OUTPUT 1\n "" : OUTPUT 2\n "ab" & "cd" : OUTPUT 3\n OTHERWISE : OUTPUT 4\n ENDCASE\nENDPROCEDURE',
    *['CALL CS("%s")' % s for s in ("abc", "", "abcd", "ABC", "ab", " abc")],
    'PROCEDURE CR(x : REAL)\n CASE OF x\n 1.5 : OUTPUT "x"\n 2.0 TO 3.0 : OUTPUT "y"\n 4 : OUTPUT "four"\n 5 TO 6 : OUTPUT "z"\n OTHERWISE : OUTPUT "o"\n ENDCASE\nENDPROCEDURE',
    *['CALL CR(%s)' % s for s in ("1.5", "1.4", "2.0", "2.5", "3.0", "3.0001", "1.9999", "4.0", "4", "5", "5.5", "6.0", "6.1")],
    'PROCEDURE CB(x : BOOLEAN)\n CASE OF x\n TRUE : OUTPUT "t"\n FALSE : OUTPUT "f"\n ENDCASE\nENDPROCEDURE', 'CALL CB(TRUE)', 'CALL CB(FALSE)', 'CALL CB(1 > 2)',
    'PROCEDURE CD(x : DATE)\n CASE OF x\n 1/1/2020 : OUTPUT "ny"\n 1/2/2020 TO 29/2/2020 : OUTPUT "feb"\n OTHERWISE : OUTPUT "o"\n ENDCASE\nENDPROCEDURE',
    *['CALL CD(%s)' % s for s in ("1/1/2020", "1/2/2020", "31/1/2020", "15/2/2020", "29/2/2020", "1/3/2020", "15/2/2021", "15/2/2019")],
    'TYPE Col = (red, green, blue)', 'c <- green',
    'PROCEDURE CE(x : Col)\n CASE OF x\n red : OUTPUT "r"\n green : OUTPUT "g"\n OTHERWISE : OUTPUT "b"\n ENDCASE\nENDPROCEDURE', 'CALL CE(red)', 'CALL CE(c)', 'CALL CE(c + 1)',
    'big <- 9007199254740993', 'CASE OF big\n 9007199254740992 : OUTPUT "low"\n 9007199254740993 : OUTPUT "hit"\nENDCASE',
    'CASE OF big\n 1 TO 9007199254740992 : OUTPUT "low"\n 9007199254740993 TO 9007199254740993 : OUTPUT "hit"\nENDCASE',
    # clauses are tried in order and labels after the hit are not evaluated
    'FUNCTION L(n : INTEGER) RETURNS INTEGER\n OUTPUT "label ", n\n RETURN n\nENDFUNCTION',
    'lv <- 2', 'CASE OF lv\n L(1) : OUTPUT "a"\n L(2) : OUTPUT "b"\n L(3) : OUTPUT "c"\n OTHERWISE : OUTPUT "d"\nENDCASE',
    'lv <- 5', 'CASE OF lv\n L(1) TO L(2) : OUTPUT "a"\n L(4) TO L(6) : OUTPUT "b"\n L(3) : OUTPUT "c"\nENDCASE',
    'x <- 1', 'CASE OF x\n 1 : x <- 2\n 2 : x <- 3\n OTHERWISE : x <- 4\nENDCASE', 'x',
    'CASE OF x\n 1 : OUTPUT "i"\n 2 :\n xx <- x + 1\n CASE OF xx\n 3 : OUTPUT "inner"\n OTHERWISE : OUTPUT "no"\n ENDCASE\n OTHERWISE : OUTPUT "outer"\nENDCASE',
    'CASE OF x\n OTHERWISE : OUTPUT "only"\nENDCASE',
    'CASE OF x\n 1 / 0 : OUTPUT "z"\nENDCASE', 'CASE OF x\n "a" : OUTPUT "z"\n 2 : OUTPUT "two"\nENDCASE', 'CASE OF x\n 2.0 : OUTPUT "real"\nENDCASE',
    'CASE OF x\n 1.5 TO 2.5 : OUTPUT "real range"\nENDCASE',
]


def if_table():
    es = ["PROCEDURE T(a : BOOLEAN, b : BOOLEAN, c : BOOLEAN)\n IF a THEN\n OUTPUT 1\n ELSE IF b THEN\n OUTPUT 2\n ELSE IF c THEN\n OUTPUT 3\n ELSE\n OUTPUT 4\n ENDIF\n"
          " IF a THEN\n OUTPUT 5\n ENDIF\n IF b THEN\n OUTPUT 6\n ELSE\n OUTPUT 7\n ENDIF\n IF b THEN\n OUTPUT 8\n ELSE IF c THEN\n OUTPUT 9\n ENDIF\nENDPROCEDURE",
          'FUNCTION F(b : BOOLEAN, n : INTEGER) RETURNS BOOLEAN\n OUTPUT "cond ", n\n RETURN b\nENDFUNCTION']
    for a, b, c in itertools.product(["TRUE", "FALSE"], repeat=3):
        es.append("CALL T(%s, %s, %s)" % (a, b, c))
        es.append('IF F(%s, 1) THEN\n OUTPUT "A"\nELSE IF F(%s, 2) THEN\n OUTPUT "B"\nELSE IF F(%s, 3) THEN\n OUTPUT "C"\nELSE\n OUTPUT "D"\nENDIF' % (a, b, c))
    # nesting: the ELSE belongs to the inner IF
    for a, b in itertools.product(["TRUE", "FALSE"], repeat=2):
        es.append('IF %s THEN\n IF %s THEN\n OUTPUT 1\n ELSE\n OUTPUT 2\n ENDIF\nELSE\n IF %s THEN\n OUTPUT 3\n ENDIF\nENDIF' % (a, b, b))
        es.append('IF %s\nTHEN\n OUTPUT 1\nELSE\n OUTPUT 2\nENDIF' % a)
    return es


def nonbool():
    es = ["TYPE Col = (red, green)", "TYPE R\n DECLARE f : BOOLEAN\nENDTYPE", "DECLARE rec : R", "TYPE P = ^BOOLEAN", "DECLARE p : P", "DECLARE arr : ARRAY[1:2] OF BOOLEAN"]
    for c in ["1", "0", "1.0", '"TRUE"', "'T'", "red", "rec", "p", "arr", "1/1/2020", "undefinedVar", "nosuch()", "1 / 0 = 1"]:
        es += ['IF %s THEN\n OUTPUT "x"\nELSE\n OUTPUT "y"\nENDIF' % c, 'IF FALSE THEN\n OUTPUT "x"\nELSE IF %s THEN\n OUTPUT "y"\nELSE\n OUTPUT "z"\nENDIF' % c,
               'IF TRUE THEN\n OUTPUT "x"\nELSE IF %s THEN\n OUTPUT "y"\nENDIF' % c,
               'WHILE %s\n OUTPUT "x"\n BREAK\nENDWHILE' % c, 'REPEAT\n OUTPUT "x"\nUNTIL %s' % c, 'REPEAT\n OUTPUT "x"\n BREAK\nUNTIL %s' % c]
    es += ['IF rec.f THEN\n OUTPUT 1\nELSE\n OUTPUT 2\nENDIF', 'IF arr[1] THEN\n OUTPUT 1\nELSE\n OUTPUT 2\nENDIF']
    return es


LOOPS = [
    'n <- 0', 'WHILE n < 3\n OUTPUT n\n n <- n + 1\nENDWHILE', 'n', 'WHILE n < 3 DO\n OUTPUT "never"\nENDWHILE', 'REPEAT\n OUTPUT "once"\nUNTIL TRUE',
    'REPEAT\n n <- n + 1\n OUTPUT n\nUNTIL n > 5', 'n',
    'FUNCTION C(k : INTEGER) RETURNS BOOLEAN\n OUTPUT "test ", n\n RETURN n < k\nENDFUNCTION', 'n <- 0', 'WHILE C(2)\n n <- n + 1\nENDWHILE', 'REPEAT\n n <- n + 1\nUNTIL NOT C(5)',
    'n <- 0', 'WHILE TRUE\n n <- n + 1\n IF n = 2 THEN\n CONTINUE\n ENDIF\n IF n = 4 THEN\n BREAK\n ENDIF\n OUTPUT n\nENDWHILE', 'n',
    'n <- 0', 'REPEAT\n n <- n + 1\n IF n = 2 THEN\n CONTINUE\n ENDIF\n OUTPUT n\nUNTIL n >= 4', 'n',
    'n <- 0', 'REPEAT\n n <- n + 1\n IF n = 3 THEN\n CONTINUE\n ENDIF\n OUTPUT n\nUNTIL n = 3', 'n',
    'FOR i <- 1 TO 5\n IF i = 2 THEN\n CONTINUE\n ENDIF\n IF i = 4 THEN\n BREAK\n ENDIF\n OUTPUT i\nNEXT i', 'i',
    'FOR i <- 1 TO 3\n FOR j <- 1 TO 3\n IF j = 2 THEN\n CONTINUE\n ENDIF\n OUTPUT i, j\n NEXT j\n OUTPUT "row"\nNEXT i', 'i', 'j',
    'FOR i <- 1 TO 3\n FOR j <- 1 TO 3\n IF j = 2 THEN\n BREAK\n ENDIF\n OUTPUT i, j\n NEXT j\n IF i = 2 THEN\n BREAK\n ENDIF\n OUTPUT "row"\nNEXT i', 'i', 'j',
    'FOR i <- 1 TO 3\n n <- 0\n WHILE n < 3\n n <- n + 1\n IF n = i THEN\n CONTINUE\n ENDIF\n REPEAT\n OUTPUT i, n\n BREAK\n UNTIL FALSE\n ENDWHILE\nNEXT i',
    'FOR i <- 1 TO 4\n CASE OF i\n 1 : CONTINUE\n 3 : BREAK\n OTHERWISE : OUTPUT "c", i\n ENDCASE\n OUTPUT "end", i\nNEXT i', 'i',
    'BREAK', 'CONTINUE', 'IF TRUE THEN\n BREAK\nENDIF', 'IF TRUE THEN\n CONTINUE\nENDIF', 'CASE OF 1\n 1 : BREAK\nENDCASE',
    'PROCEDURE PB\n BREAK\nENDPROCEDURE', 'CALL PB', 'FOR i <- 1 TO 2\n OUTPUT i\n CALL PB\nNEXT i', 'i', 'PROCEDURE PC\n CONTINUE\nENDPROCEDURE',
    'FOR i <- 1 TO 2\n OUTPUT i\n CALL PC\nNEXT i', 'i',
    'FUNCTION FR(k : INTEGER) RETURNS INTEGER\n FOR i2 <- 1 TO 5\n WHILE TRUE\n REPEAT\n IF i2 = k THEN\n RETURN i2 * 10\n ENDIF\n UNTIL TRUE\n BREAK\n ENDWHILE\n NEXT i2\n RETURN -1\nENDFUNCTION',
    'FR(3)', 'FR(9)', 'FR(1) + FR(5)',
    'FOR i <- 1 TO 3\n OUTPUT FR(i)\nNEXT i',
    'WHILE FALSE\n OUTPUT 1 / 0\nENDWHILE', 'IF FALSE THEN\n OUTPUT 1 / 0\nENDIF', 'FOR i <- 1 TO 0\n OUTPUT 1 / 0\nNEXT i', 'i',
]


@check("C03", "exploration",
       "FOR headers over start, stop in -2..3 and seven steps, 64-bit bounds, side effects in headers and bodies; IF/ELSE IF truth tables; CASE with values "
       "and ranges of every type; WHILE/REPEAT; BREAK/CONTINUE in every kind of loop, conditional and procedure; conditions of every wrong type; random nested "
       "control flow (depth 4) with a trace of every block entered, at top level and inside procedures and functions.")
def c03(ck, rng, tier):
    q = tier == "quick"
    cases = []
    es = for_table()
    for i, c in enumerate(chunks(es, 40)):
        cases += both("for%d" % i, c) if i % 4 == 0 else [repl("for%d" % i, c)]
    cases.append(repl("forside", FOR_SIDE))
    cases += [repl("case", CASES), repl("if", if_table()), repl("loops", LOOPS)]
    cases += [repl("nb%d" % i, nonbool()[:6] + c) for i, c in enumerate(chunks(nonbool()[6:], 20))]
    # each of these also on its own in a program file (the first error ends the run)
    defs = [e for e in CASES + FOR_SIDE + LOOPS + if_table()[:2] if e.split()[0] in ("PROCEDURE", "FUNCTION", "TYPE", "DECLARE", "CONSTANT")]
    pre = ["x <- 1", "n <- 0", "c <- 1", "i <- 1", "j <- 0"]
    for i, e in enumerate(CASES + FOR_SIDE + LOOPS + if_table() + nonbool()):
        if e.split()[0] in ("PROCEDURE", "FUNCTION", "TYPE", "DECLARE", "CONSTANT") or len(e.split()) == 1:
            continue
        need = [d for d in defs if d.split()[1].split("(")[0] in e]
        cases.append(prog("one%d" % i, "\n".join(need + pre + [e, 'OUTPUT "end", i, n']) + "\n"))
    run(ck, cases)
    for rnd in range(1 if q else 8):
        cases = []
        for n in range(420 if q else 500):
            r = __import__("random").Random(rng.random())
            ls = Flow(r, brk=True).program(r.choice([2, 3, 3, 4]))
            if n % 3 == 0:
                ls = wrap(r, ls)
            src = "\n".join(ls) + "\n"
            cases.append(prog("flow%d-%d" % (rnd, n), src, steps=100000))
        run(ck, cases, "plain" if rnd % 3 != 2 else "asan", maxn=1200)
        run(ck, rand_cases(rng, 60 if q else 200, "g%d-" % rnd, perr=0.01), maxn=1200)


# ------------------------------------------------------------------ C04
PT = {"INTEGER": ("1", "v + 10"), "REAL": ("1.5", "v + 0.25"), "STRING": ('"s"', 'v & "x"'), "CHAR": ("'c'", "'d'"), "BOOLEAN": ("FALSE", "NOT v"),
      "DATE": ("1/1/2000", "2/2/2002"), "Col": ("green", "v + 1"), "Rec": (None, None)}
PRE4 = ["TYPE Col = (red, green, blue)", "TYPE Rec\n DECLARE n : INTEGER\n DECLARE a : ARRAY[1:2] OF INTEGER\nENDTYPE",
        "TYPE PI = ^INTEGER"]


def mode_programs():
    """every assignment of modes to three parameters: what the caller sees after writes in the callee"""
    out = []
    for ms in itertools.product(["", "BYVAL ", "BYREF "], repeat=3):
        for kind in ("PROCEDURE", "FUNCTION"):
            ps = ", ".join(m + n + " : INTEGER" for m, n in zip(ms, "abc"))
            body = " a <- a + 1\n OUTPUT x, y, z\n b <- b + 10\n OUTPUT x, y, z\n c <- c + 100\n OUTPUT a, b, c, x, y, z\n"
            es = ["x <- 1", "y <- 2", "z <- 3"]
            if kind == "PROCEDURE":
                es += ["PROCEDURE P(%s)\n%sENDPROCEDURE" % (ps, body), "CALL P(x, y, z)", "OUTPUT x, y, z", "CALL P(x, x, x)", "OUTPUT x, y, z", "CALL P(1, y, z)", "CALL P(x, 2, z)",
                       "CALL P(x, y, z + 0)", "OUTPUT x, y, z"]
            else:
                es += ["FUNCTION P(%s) RETURNS INTEGER\n%s RETURN a * 100 + b * 10 + c\nENDFUNCTION" % (ps, body), "OUTPUT P(x, y, z)", "OUTPUT x, y, z", "OUTPUT P(z, y, x) + P(x, x, x)",
                       "OUTPUT x, y, z", "OUTPUT P(1, y, z)", "OUTPUT P(x, 2, z)", "OUTPUT P(x, y, z + 0)", "OUTPUT x, y, z"]
            out.append(es)
    return out


def kinds_of_targets():
    """BYREF and BYVAL parameters of every type bound to variables, array elements, record fields, dereferenced pointers"""
    out = []
    for t, (v0, upd) in PT.items():
        for mode in ("BYREF", "BYVAL"):
            es = list(PRE4)
            if t == "Rec":
                es += ["TYPE Box\n DECLARE f : Rec\n DECLARE g : ARRAY[0:1] OF Rec\nENDTYPE", "PROCEDURE W(%s v : Rec)\n v.n <- v.n + 1\n v.a[2] <- v.a[2] + 5\n OUTPUT v.n, v.a[2]\nENDPROCEDURE"
                       % mode, "DECLARE x : Rec", "DECLARE arr : ARRAY[1:3] OF Rec", "DECLARE b : Box", "DECLARE ba : ARRAY[1:2] OF Box"]
                for p in ("x", "arr[2]", "b.f", "b.g[1]", "ba[2].g[0]", "ba[1].f"):
                    es += ["CALL W(%s)" % p, "OUTPUT %s.n, %s.a[1], %s.a[2]" % (p, p, p), "CALL W(%s)" % p, "%s.n" % p]
                es += ["OUTPUT arr[1].n, arr[3].n, b.g[0].n, ba[1].g[0].n, ba[2].g[1].n"]
            else:
                es += ["TYPE Box\n DECLARE f : %s\n DECLARE g : ARRAY[0:1] OF %s\nENDTYPE" % (t, t), "TYPE PB = ^%s" % t,
                       "PROCEDURE W(%s v : %s)\n v <- %s\n OUTPUT v\nENDPROCEDURE" % (mode, t, upd),
                       "DECLARE x : %s" % t, "DECLARE arr : ARRAY[1:3] OF %s" % t, "DECLARE b : Box", "DECLARE ba : ARRAY[1:2] OF Box", "DECLARE p : PB"]
                for p in ("x", "arr[1]", "arr[2]", "arr[3]", "b.f", "b.g[0]", "b.g[1]", "ba[2].g[0]", "ba[1].f"):
                    es.append("%s <- %s" % (p, v0))
                es.append("p <- ^arr[3]")
                for p in ("x", "arr[2]", "b.f", "b.g[1]", "ba[2].g[0]", "p^"):
                    es += ["CALL W(%s)" % p, p, "OUTPUT arr[1], arr[3], b.g[0]"]
                es += ["CALL W(%s)" % v0, "CALL W((x))", "CALL W(y)", "CALL W(arr)", "CALL W(b)", "CALL W(arr[4])", "CALL W(arr[1 / 0])", "CALL W(b.nofield)", "CALL W()", "CALL W(x, x)"]
            out.append(es)
    return out


SCOPES = [
    # locals are invisible to callers and callees, gone after the return, fresh in every activation
    ["PROCEDURE In\n OUTPUT secret\nENDPROCEDURE", "PROCEDURE Out\n secret <- 5\n CALL In\nENDPROCEDURE", "CALL Out", "secret", "CALL In"],
    ["PROCEDURE A\n DECLARE l : INTEGER\n OUTPUT l\n l <- l + 7\n OUTPUT l\nENDPROCEDURE", "CALL A", "CALL A", "l"],
    ["PROCEDURE A(p : INTEGER)\n OUTPUT p\n p <- p + 1\n OUTPUT p\nENDPROCEDURE", "CALL A(1)", "CALL A(1)", "p"],
    ["x <- 1", "PROCEDURE S\n OUTPUT x\n x <- 2\n OUTPUT x\nENDPROCEDURE", "CALL S", "x"],
    ["x <- 1", "PROCEDURE S\n DECLARE x : STRING\n OUTPUT x\n x <- \"loc\"\n OUTPUT x\nENDPROCEDURE", "CALL S", "x"],
    ["x <- 1", "PROCEDURE S\n OUTPUT x\n DECLARE x : STRING\n x <- \"loc\"\n OUTPUT x\nENDPROCEDURE", "CALL S", "x", "CALL S"],
    ["x <- 1", "PROCEDURE S(x : INTEGER)\n x <- x + 5\n OUTPUT x\nENDPROCEDURE", "CALL S(10)", "x", "CALL S(x)", "x"],
    ["x <- 1", "PROCEDURE S(BYREF x : INTEGER)\n x <- x + 5\n OUTPUT x\nENDPROCEDURE", "y <- 10", "CALL S(y)", "OUTPUT x, y", "CALL S(x)", "OUTPUT x, y"],
    ["DECLARE x : ARRAY[1:2] OF INTEGER", "PROCEDURE S\n DECLARE x : ARRAY[1:3] OF INTEGER\n x[3] <- 4\n OUTPUT x[3], x[1]\nENDPROCEDURE", "x[1] <- 9", "CALL S", "x[1]", "x[3]"],
    ["DECLARE x : ARRAY[1:2] OF INTEGER", "PROCEDURE S\n DECLARE x : INTEGER\n x <- 4\n OUTPUT x\nENDPROCEDURE", "x[1] <- 9", "CALL S", "x[1]"],
    ["x <- 3", "PROCEDURE S\n DECLARE x : ARRAY[1:2] OF INTEGER\n x[2] <- 4\n OUTPUT x[2]\nENDPROCEDURE", "CALL S", "x"],
    ["PROCEDURE S\n CONSTANT k = 3\n OUTPUT k\n k <- 4\nENDPROCEDURE", "CALL S", "k", "k <- 7", "k", "CALL S", "k"],
    ["PROCEDURE T\n TYPE L = (one, two)\n DECLARE v : L\n v <- two\n OUTPUT v\nENDPROCEDURE", "CALL T", "CALL T", "DECLARE w : L", "two"],
    ["PROCEDURE S\n inner <- 1\n OUTPUT inner\nENDPROCEDURE", "PROCEDURE R\n inner <- \"text\"\n CALL S\n OUTPUT inner\nENDPROCEDURE", "CALL R", "inner"],
    ["PROCEDURE S\n FOR idx <- 1 TO 2\n OUTPUT idx\n NEXT idx\nENDPROCEDURE", "CALL S", "idx", "idx <- 9", "CALL S", "idx"],
    ["PROCEDURE N(d : INTEGER)\n DECLARE loc : INTEGER\n loc <- d\n IF d > 0 THEN\n CALL N(d - 1)\n ENDIF\n OUTPUT d, loc\nENDPROCEDURE", "CALL N(4)", "loc"],
    ["g <- 0", "PROCEDURE N(d : INTEGER, BYREF acc : INTEGER)\n acc <- acc + d\n g <- g + 1\n IF d > 0 THEN\n CALL N(d - 1, acc)\n ENDIF\n OUTPUT d, acc\nENDPROCEDURE", "t <- 0", "CALL N(4, t)", "t", "g"],
    ["FUNCTION Fact(n : INTEGER) RETURNS INTEGER\n IF n <= 1 THEN\n RETURN 1\n ENDIF\n RETURN n * Fact(n - 1)\nENDFUNCTION", "Fact(5)", "Fact(20)", "Fact(0)"],
    ["FUNCTION Fib(n : INTEGER) RETURNS INTEGER\n DECLARE a, b : INTEGER\n IF n < 2 THEN\n RETURN n\n ENDIF\n a <- Fib(n - 1)\n b <- Fib(n - 2)\n RETURN a + b\nENDFUNCTION", "Fib(9)", "a", "b"],
    ["FUNCTION Ev(n : INTEGER) RETURNS BOOLEAN\n IF n = 0 THEN\n RETURN TRUE\n ENDIF\n RETURN Od(n - 1)\nENDFUNCTION",
     "FUNCTION Od(n : INTEGER) RETURNS BOOLEAN\n IF n = 0 THEN\n RETURN FALSE\n ENDIF\n RETURN Ev(n - 1)\nENDFUNCTION", "Ev(10)", "Od(10)", "Ev(7)"],
    ["FUNCTION Ack(m : INTEGER, n : INTEGER) RETURNS INTEGER\n IF m = 0 THEN\n RETURN n + 1\n ENDIF\n IF n = 0 THEN\n RETURN Ack(m - 1, 1)\n ENDIF\n RETURN Ack(m - 1, Ack(m, n - 1))\nENDFUNCTION", "Ack(2, 3)"],
    # reference chains, aliases
    ["PROCEDURE C(BYREF z : INTEGER)\n z <- z * 2\nENDPROCEDURE", "PROCEDURE Bb(BYREF y : INTEGER)\n y <- y + 1\n CALL C(y)\n OUTPUT y\nENDPROCEDURE", "PROCEDURE A(BYREF x : INTEGER)\n CALL Bb(x)\n OUTPUT x\n CALL Bb(x)\nENDPROCEDURE", "v <- 1", "CALL A(v)", "v"],
    ["PROCEDURE C(BYVAL z : INTEGER)\n z <- z * 2\n OUTPUT z\nENDPROCEDURE", "PROCEDURE Bb(BYREF y : INTEGER)\n CALL C(y)\n OUTPUT y\nENDPROCEDURE", "v <- 3", "CALL Bb(v)", "v"],
    ["PROCEDURE C(BYREF z : INTEGER)\n z <- z * 2\nENDPROCEDURE", "PROCEDURE Bb(BYVAL y : INTEGER)\n CALL C(y)\n OUTPUT y\nENDPROCEDURE", "v <- 3", "CALL Bb(v)", "v"],
    ["PROCEDURE Swap(BYREF a : INTEGER, b : INTEGER)\n DECLARE t : INTEGER\n t <- a\n a <- b\n b <- t\nENDPROCEDURE", "x <- 1", "y <- 2", "CALL Swap(x, y)", "OUTPUT x, y", "CALL Swap(x, x)", "x",
     "DECLARE m : ARRAY[1:3] OF INTEGER", "FOR i <- 1 TO 3\n m[i] <- i * i\nNEXT i", "CALL Swap(m[1], m[3])", "OUTPUT m[1], m[2], m[3]", "i <- 1", "CALL Swap(i, m[i])", "OUTPUT i, m[1], m[2], m[3]"],
    ["PROCEDURE Al(BYREF a : INTEGER, BYREF b : INTEGER)\n a <- 5\n OUTPUT b\n b <- 6\n OUTPUT a\nENDPROCEDURE", "x <- 0", "CALL Al(x, x)", "x"],
    ["g <- 1", "PROCEDURE Al(BYREF a : INTEGER)\n g <- 10\n OUTPUT a\n a <- 20\n OUTPUT g\nENDPROCEDURE", "CALL Al(g)", "g"],
    ["g <- 1", "PROCEDURE Al(BYVAL a : INTEGER)\n g <- 10\n OUTPUT a\n a <- 20\n OUTPUT g\nENDPROCEDURE", "CALL Al(g)", "g"],
    ["DECLARE m : ARRAY[1:3] OF INTEGER", "k <- 2", "PROCEDURE Ix(BYREF e : INTEGER)\n k <- 3\n e <- 42\n OUTPUT m[2], m[3]\nENDPROCEDURE", "CALL Ix(m[k])", "OUTPUT k, m[1], m[2], m[3]"],
    ["DECLARE m, m2 : ARRAY[1:3] OF INTEGER", "PROCEDURE Wh(BYREF e : INTEGER)\n m2[2] <- 7\n m <- m2\n OUTPUT e\n e <- 8\n OUTPUT m[2], m2[2]\nENDPROCEDURE", "CALL Wh(m[2])", "OUTPUT m[2], m2[2]"],
    ["TYPE R\n DECLARE n : INTEGER\nENDTYPE", "DECLARE r, s : R", "PROCEDURE Wh(BYREF e : INTEGER)\n s.n <- 7\n r <- s\n OUTPUT e\n e <- 8\n OUTPUT r.n, s.n\nENDPROCEDURE", "CALL Wh(r.n)", "OUTPUT r.n, s.n"],
    # RETURN
    ["PROCEDURE P\n OUTPUT 1\n RETURN 5\n OUTPUT 2\nENDPROCEDURE", "CALL P", "RETURN 3", "IF TRUE THEN\n RETURN 3\nENDIF"],
    ["FUNCTION F(n : INTEGER) RETURNS INTEGER\n IF n > 0 THEN\n RETURN n\n ENDIF\nENDFUNCTION", "F(3)", "F(0)", "x <- F(0)", "x", "F(4)"],
    ["FUNCTION F() RETURNS INTEGER\n RETURN 1\n OUTPUT \"dead\"\n RETURN 2\nENDFUNCTION", "F()", "F() + F() * 10"],
    ["FUNCTION F() RETURNS INTEGER\n RETURN \"a\"\nENDFUNCTION", "F()", "FUNCTION G() RETURNS REAL\n RETURN 3\nENDFUNCTION", "G()", "FUNCTION H() RETURNS CHAR\n RETURN \"x\"\nENDFUNCTION", "H()", "FUNCTION I() RETURNS STRING\n RETURN 'c'\nENDFUNCTION", "I()",
     "FUNCTION J() RETURNS INTEGER\n RETURN 2.0\nENDFUNCTION", "J()", "FUNCTION K() RETURNS CHAR\n RETURN \"xy\"\nENDFUNCTION", "K()", "FUNCTION L() RETURNS BOOLEAN\n RETURN 1\nENDFUNCTION", "L()"],
    ["FUNCTION F(n : INTEGER) RETURNS STRING\n CASE OF n\n 1 : RETURN \"one\"\n 2 TO 3 : RETURN \"few\"\n OTHERWISE : RETURN \"many\"\n ENDCASE\nENDFUNCTION", "F(1)", "F(3)", "F(4)", "F(1) & F(2)"],
    ["FUNCTION F(n : INTEGER) RETURNS INTEGER\n DECLARE t : INTEGER\n t <- 0\n WHILE TRUE\n FOR i <- 1 TO 10\n t <- t + i\n IF t > n THEN\n RETURN t\n ENDIF\n NEXT i\n ENDWHILE\nENDFUNCTION", "F(7)", "F(60)", "F(0)"],
    ["FUNCTION F(n : INTEGER) RETURNS INTEGER\n OUTPUT \"F\", n\n RETURN n\nENDFUNCTION", "F(1) + F(2) * F(3)", "F(1) - F(2)", "OUTPUT F(4), F(5)", "F(F(6))", "DECLARE a : ARRAY[1:3] OF INTEGER", "a[F(2)] <- F(9)", "a[2]", "F(1) = F(1) AND F(2) = F(3)", "F(1) = F(2) AND F(2) = F(3)", "F(1) = F(1) OR F(2) = F(3)"],
    ["FUNCTION R1(BYREF n : INTEGER) RETURNS INTEGER\n n <- n + 1\n RETURN n\nENDFUNCTION", "x <- 1", "R1(x) + x", "x + R1(x)", "x", "R1(x) * 100 + R1(x)", "x"],
    # errors at the call
    ["PROCEDURE P(a : INTEGER, b : STRING)\n OUTPUT a, b\nENDPROCEDURE", "CALL P(1, \"x\")", "CALL P(1)", "CALL P", "CALL P()", "CALL P(1, \"x\", 2)", "CALL P(\"x\", 1)", "CALL P(1.0, \"x\")", "CALL P(1, 'c')", "CALL P(TRUE, \"x\")", "CALL P(1, 2)", "CALL Q(1)", "P(1, \"x\")", "OUTPUT P(1, \"x\")"],
    ["FUNCTION F(a : REAL) RETURNS REAL\n RETURN a / 2\nENDFUNCTION", "F(3)", "F(3.0)", "F(\"3\")", "F()", "F(1, 2)", "CALL F(1)", "Nope(1)", "F"],
    ["PROCEDURE P(a : CHAR)\n OUTPUT a\nENDPROCEDURE", "CALL P('x')", "CALL P(\"y\")", "CALL P(\"yy\")", "CALL P(\"\")", "CALL P(65)"],
    ["PROCEDURE P(BYREF a : REAL)\n a <- 2.5\nENDPROCEDURE", "n <- 1", "CALL P(n)", "n", "r <- 1.5", "CALL P(r)", "r", "s <- \"c\"", "PROCEDURE Q(BYREF c : CHAR)\n c <- 'z'\nENDPROCEDURE", "CALL Q(s)", "s", "PROCEDURE T(BYREF c : STRING)\n c <- \"zz\"\nENDPROCEDURE", "ch <- 'a'", "CALL T(ch)", "ch"],
    ["PROCEDURE P(BYREF a : INTEGER)\n a <- 2\nENDPROCEDURE", "CALL P(1)", "CALL P(1 + 1)", "CALL P(-1)", "x <- 5", "CALL P(-x)", "CALL P(x + 0)", "x", "CALL P(LENGTH(\"a\"))", "CALL P(undef)", "undef", "CONSTANT k = 3", "CALL P(k)", "k", "TYPE Co = (aa, bb)", "PROCEDURE E(BYREF a : Co)\n a <- bb\nENDPROCEDURE", "CALL E(aa)", "aa"],
    ["FUNCTION G() RETURNS INTEGER\n RETURN 1\nENDFUNCTION", "PROCEDURE P(BYREF a : INTEGER)\n a <- 2\nENDPROCEDURE", "CALL P(G())", "PROCEDURE P(b : INTEGER)\nENDPROCEDURE", "FUNCTION G() RETURNS REAL\nENDFUNCTION", "CALL P(3)"],
    ["PROCEDURE P(BYVAL a : INTEGER, b : INTEGER)\n a <- 1\n b <- 2\nENDPROCEDURE", "PROCEDURE Q(BYREF a : INTEGER, b : INTEGER)\n a <- 1\n b <- 2\nENDPROCEDURE", "PROCEDURE R(a : INTEGER, BYREF b : INTEGER, c : INTEGER, BYVAL d : INTEGER, e : INTEGER)\n a <- 1\n b <- 2\n c <- 3\n d <- 4\n e <- 5\nENDPROCEDURE",
     "u <- 0", "v <- 0", "w <- 0", "x <- 0", "y <- 0", "CALL P(u, v)", "OUTPUT u, v", "CALL Q(u, v)", "OUTPUT u, v", "u <- 0", "v <- 0", "CALL R(u, v, w, x, y)", "OUTPUT u, v, w, x, y"],
    # the mode of one procedure does not carry over to the next
    ["PROCEDURE Q(BYREF a : INTEGER)\n a <- 1\nENDPROCEDURE", "PROCEDURE P(a : INTEGER)\n a <- 2\nENDPROCEDURE", "x <- 0", "CALL P(x)", "x", "CALL Q(x)", "x"],
    # procedures see globals created after their definition; deep recursion
    ["PROCEDURE Late\n OUTPUT later\nENDPROCEDURE", "CALL Late", "later <- 4", "CALL Late"],
    ["FUNCTION Down(n : INTEGER) RETURNS INTEGER\n IF n = 0 THEN\n RETURN 0\n ENDIF\n RETURN 1 + Down(n - 1)\nENDFUNCTION", "Down(300)"],
    ["FUNCTION Sum(BYREF n : INTEGER, BYVAL d : INTEGER) RETURNS INTEGER\n n <- n + d\n IF d = 0 THEN\n RETURN n\n ENDIF\n RETURN Sum(n, d - 1)\nENDFUNCTION", "t <- 0", "Sum(t, 50)", "t"],
    # a procedure defined inside a construct, parameters of user types
    ["TYPE R\n DECLARE n : INTEGER\nENDTYPE", "FUNCTION Mk(k : INTEGER) RETURNS R\n DECLARE r : R\n r.n <- k\n RETURN r\nENDFUNCTION", "DECLARE a : R", "a <- Mk(5)", "a.n", "PROCEDURE Sh(v : R)\n OUTPUT v.n\nENDPROCEDURE", "CALL Sh(a)", "CALL Sh(Mk(6))", "CALL Sh(5)"],
]


RTYPES = {"INTEGER": ("7", '"no"'), "REAL": ("2.5", "TRUE"), "BOOLEAN": ("TRUE", "1"), "CHAR": ("'k'", '"kk"'), "STRING": ('"str"', "4"), "DATE": ("1/2/2003", '"1/2/2003"'),
          "En": ("eb", "0"), "PI": ("gp", "3"), "Rec": ("gr", "gr.n")}
ENDINGS = ["", "IF {c} THEN\n RETURN {v}\nENDIF", "WHILE {c}\n RETURN {v}\nENDWHILE", "FOR i <- 1 TO 3\n IF {c} THEN\n  RETURN {v}\n ENDIF\nNEXT i", "REPEAT\n IF {c} THEN\n  RETURN {v}\n ENDIF\nUNTIL TRUE",
           "CASE OF n\n 1 : RETURN {v}\n 2 TO 3 : OUTPUT \"two\"\nENDCASE", "IF NOT {c} THEN\n OUTPUT \"no\"\nELSE\n RETURN {v}\nENDIF", "OUTPUT \"t\"\nRETURN {v}\nOUTPUT \"never\"", "RETURN {w}", "CALL Sub({c})",
           "WHILE TRUE\n IF {c} THEN\n  RETURN {v}\n ENDIF\n BREAK\nENDWHILE\nOUTPUT \"after\"", "IF {c} THEN\n RETURN {v}\nENDIF\nRETURN {w}"]


def returns(rng, keep):
    """functions of every type and number of parameters that end in every way with and without RETURN"""
    env = ["TYPE En = (ea, eb, ec)", "TYPE PI = ^INTEGER", "TYPE Rec\n DECLARE n : INTEGER\nENDTYPE", "gi <- 4", "DECLARE gp : PI", "gp <- ^gi", "DECLARE gr : Rec", "gr.n <- 12", "PROCEDURE Sub(b : BOOLEAN)\n OUTPUT \"sub\"\nENDPROCEDURE"]
    for t, (v, w) in RTYPES.items():
        for k, ps in enumerate(["n : INTEGER", "n : INTEGER, m : %s" % t, "BYREF n : INTEGER, x : STRING", ""]):
            es, calls = list(env), []
            for j, e in enumerate(ENDINGS):
                f = "F%d" % j
                e = e.replace("{c}", "n = 1" if ps else "gi = 1").replace("{v}", v).replace("{w}", w)
                if not ps:
                    e = e.replace("OF n", "OF gi")
                es.append("FUNCTION %s(%s) RETURNS %s\n OUTPUT \"in\"\n%s\nENDFUNCTION" % (f, ps, t, e))
                for a in (0, 1, 2):
                    c = "%s(%s)" % (f, ["z", "z, " + v, 'z, "q"', ""][k])
                    calls += ["%s <- %d" % ("z" if ps else "gi", a), {"PI": "gp <- %s" % c, "Rec": "gr <- %s" % c}.get(t, "OUTPUT " + c), {"PI": "gp^", "Rec": "gr.n"}.get(t, c)]
            yield repl("ret-%s-%d" % (t, k), es + calls + ["z", "gi", "gr.n"])
            for j in range(len(ENDINGS)):
                if rng.random() < keep:
                    yield prog("retf-%s-%d-%d" % (t, k, j), es + ["z <- %d" % rng.choice([0, 1, 2]), "gi <- z"] + [x for x in calls[9 * j:9 * j + 9] if x.startswith("OUTPUT") or " <- F" in x][:2] + ['OUTPUT "end"'], ln=True)


class Calls:
    """random procedures over a few globals with every passing mode, nested calls, recursion and traces"""

    def __init__(self, rng):
        self.r = rng
        self.T = ["INTEGER", "STRING", "INTEGER"]

    def program(self):
        r = self.r
        g = {"g1": "INTEGER", "g2": "INTEGER", "s1": "STRING", "s2": "STRING"}
        out = ["DECLARE arr : ARRAY[1:4] OF INTEGER", "g1 <- 1", "g2 <- 2", 's1 <- "a"', 's2 <- "b"', "TYPE R\n DECLARE n : INTEGER\n DECLARE s : STRING\nENDTYPE", "DECLARE rec : R",
               "DECLARE recs : ARRAY[1:2] OF R"]
        procs = []
        for i in range(r.randint(2, 4)):
            isf = r.random() < 0.45
            n = "pq"[isf] + str(i)
            ps, mode, txt = [], False, []
            for j in range(r.randint(0, 4)):
                w = r.choice(["", "", "BYREF", "BYVAL"])
                if w:
                    mode = w == "BYREF"
                t = r.choice(self.T)
                nm = r.choice(["x", "y", "z", "g1", "s1", "w"]) + ("" if r.random() < 0.5 else str(j))
                if nm in [p[0] for p in ps]:
                    nm = "u%d" % j
                ps.append((nm, t, mode))
                txt.append("%s%s : %s" % (w + " " if w else "", nm, t))
            scope = dict(g)
            scope.update({p[0]: p[1] for p in ps})
            body = []
            if r.random() < 0.4:
                l = r.choice(["loc", "g2", "s2", "g1"])
                if l not in [p[0] for p in ps]:
                    t = r.choice(self.T)
                    body.append("DECLARE %s : %s" % (l, t))
                    scope[l] = t
            for _ in range(r.randint(2, 5)):
                body += self.stmt(scope, procs, None)
            body.append(self.show(scope))
            if isf:
                rt = r.choice(self.T)
                if r.random() < 0.3:
                    body.append("IF %s > %d THEN\n RETURN %s\nENDIF" % (self.expr("INTEGER", scope), r.randint(0, 9), self.expr(rt, scope)))
                if r.random() < 0.95:
                    body.append("RETURN " + self.expr(rt, scope))
                out.append("FUNCTION %s(%s) RETURNS %s\n%s\nENDFUNCTION" % (n, ", ".join(txt), rt, "\n".join(body)))
                procs.append((n, ps, rt))
            else:
                out.append("PROCEDURE %s(%s)\n%s\nENDPROCEDURE" % (n, ", ".join(txt), "\n".join(body)))
                procs.append((n, ps, None))
        g["rec.n"], g["rec.s"] = "INTEGER", "STRING"
        for _ in range(r.randint(4, 8)):
            out += self.stmt(g, procs, None, top=True)
            if r.random() < 0.7:
                out.append(self.show(g))
        return out + [self.show(g), "OUTPUT arr[1], arr[2], arr[3], arr[4], rec.n, rec.s, recs[1].n, recs[2].s"]

    def show(self, scope):
        vs = sorted(scope)
        return "OUTPUT " + ", \",\", ".join(vs)

    def place(self, t, scope):
        c = [n for n in scope if scope[n] == t]
        c += ["arr[%d]" % self.r.randint(1, 4)] if t == "INTEGER" else []
        c += ["recs[%d].%s" % (self.r.randint(1, 2), "n" if t == "INTEGER" else "s"), "rec.n" if t == "INTEGER" else "rec.s"]
        return self.r.choice(c + c[:2])

    def expr(self, t, scope, procs=(), d=1):
        r = self.r
        fs = [p for p in procs if p[2] == t]
        if fs and r.random() < 0.3:
            c = self.call(r.choice(fs), scope, procs)
            if c:
                return c
        if d and r.random() < 0.4:
            a, b = self.expr(t, scope, procs, 0), self.expr(t, scope, procs, 0)
            return "(%s + %s) MOD 1000" % (a, b) if t == "INTEGER" else "LEFT(%s & %s & \"...\", 3)" % (a, b)
        if r.random() < 0.7:
            return self.place(t, scope)
        return str(r.randint(0, 9)) if t == "INTEGER" else '"%s"' % r.choice("klmn")

    def call(self, p, scope, procs):
        a = []
        for n, t, ref in p[1]:
            if ref:
                a.append(self.place(t, scope) if self.r.random() < 0.97 else "1")
            else:
                a.append(self.expr(t, scope, (), 1))
        if self.r.random() < 0.02 and a:
            a.pop()
        return "%s(%s)" % (p[0], ", ".join(a))

    def stmt(self, scope, procs, loop, top=False):
        r = self.r
        k = r.random()
        if procs and k < (0.6 if top else 0.35):
            p = r.choice(procs)
            if p[2] is None:
                return ["CALL " + self.call(p, scope, procs)]
            return ["%s <- %s" % (self.place(p[2], scope), self.call(p, scope, procs))]
        t = r.choice(self.T)
        return ["%s <- %s" % (self.place(t, scope), self.expr(t, scope, procs if top or r.random() < 0.5 else ()))]


@check("C04", "model_checking",
       "All 27 mode combinations of three parameters for procedures and functions, observed after every write in the callee; parameters of every type bound to "
       "variables, elements, fields and dereferenced pointers; 50 scope, recursion, alias, RETURN and error scenarios, each in the REPL and as a file; random "
       "programs with nested calls, all modes, shadowing and aliases.")
def c04(ck, rng, tier):
    q = tier == "quick"
    mc.replay(ck, rng, tier, "MC_Call", (3, 120), (40, None))
    cases = []
    for i, es in enumerate(mode_programs()):
        cases.append(repl("m%d" % i, es))
        if i % 3 == 0:
            cases.append(prog("mf%d" % i, es[:6]))
    for i, es in enumerate(kinds_of_targets()):
        cases.append(repl("k%d" % i, es))
        cases.append(prog("kf%d" % i, es))
    for i, es in enumerate(SCOPES):
        cases += both("s%d" % i, es)
        # in a file the first error ends the program: one program per call
        defs = [e for e in es if e.split()[0] in ("PROCEDURE", "FUNCTION", "TYPE", "DECLARE", "CONSTANT") or " <- " in e.split("\n")[0] and "\n" not in e]
        for j, e in enumerate(es):
            if e not in defs:
                cases.append(prog("s%d-%d" % (i, j), defs + [e if e.split()[0] in ("CALL", "OUTPUT", "RETURN", "IF", "FOR") else "OUTPUT " + e, 'OUTPUT "end"'], ln=True))
    cases += returns(rng, 0.35 if q else 1)
    run(ck, cases)
    run(ck, [c for c in cases if c["id"][0] in "ksr"][:: 2 if q else 1], "asan")
    import random
    for rnd in range(1 if q else 8):
        cases = []
        for n in range(300 if q else 500):
            es = Calls(random.Random(rng.random())).program()
            cases.append(prog("c%d-%d" % (rnd, n), es) if n % 2 else repl("c%d-%d" % (rnd, n), es))
        run(ck, cases, "plain" if rnd % 2 == 0 else "asan", maxn=1200)
        run(ck, rand_cases(rng, 60 if q else 200, "g%d-" % rnd, perr=0.02), "asan" if rnd % 2 == 0 else "plain", maxn=1200)
        run(ck, gen_loops.loop_cases(rng, 50 if q else 200, "l%d-" % rnd), "plain" if rnd % 2 == 0 else "asan", maxn=4000)
