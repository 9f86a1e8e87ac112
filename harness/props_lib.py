"""C17 built-in functions, C18 dates."""
import itertools
import random
from fractions import Fraction
from common import *

BIG = ["2147483647", "2147483648", "4294967296", "4294967297", "4294967298", "9223372036854775807", "-9223372036854775807", "(-9223372036854775807 - 1)", "-2147483648", "-4294967295",
       "-4294967296", "18446744073709551615 - 0"][:-1]
STRS = ['""', '"a"', '"ab"', '"abc"', '"a b c"', '"Hello, World!"', '"\\n"', '"a\\nb"', '"\\t\\"q\\""', "\"it's\"", '"0123456789"', '"MiXeD cAsE 12 [](){}@`^_~|"', '"//x"', '"' + "ab3-" * 20 + '"']
BYTES = [b'"\xe9t\xe9"', b'"\x80\xff\xc3\xa9"']


def calls(fmt, *argsets):
    return [fmt % a for a in itertools.product(*argsets)]


def sess(cases, tag, entries, n=45, pre=()):
    for i, part in enumerate(chunks(entries, n)):
        cases.append(repl("%s%d" % (tag, i), list(pre) + part))


def numerals(rng, n):
    out = []
    for _ in range(n):
        a = "".join(rng.choice("0123456789") for _ in range(rng.choice([0, 1, 2, 3, 6, 9, 15, 17])))
        b = "".join(rng.choice("0123456789") for _ in range(rng.choice([0, 1, 2, 5, 6, 7, 12])))
        s = a + rng.choice([".", ".", ""]) + b
        if any(c.isdigit() for c in s):
            out.append(s)
    return out


def builtin_samples(rng, n):
    """built-in calls (right and wrong) after the definitions they need"""
    es = ["LENGTH(x)", "LENGTH(5)", "LENGTH(\"\")"] + calls("LEFT(x, %s)", range(-1, 6)) + calls("RIGHT(x, %s)", range(-1, 6)) + calls("MID(x, %s, %s)", range(0, 5), range(0, 5))
    es += ["TO_UPPER(x)", "TO_LOWER(x)", "UCASE('q')", "LCASE('Q')", "ASC('a')", "ASC(\"\")", "CHR(65)", "CHR(128)", "CHR(-1)", "NUM_TO_STR(2.5)", "NUM_TO_STR(-3)", "STR_TO_NUM(\"2.50\")", "STR_TO_NUM(\"x\")", "IS_NUM(\"12\")", "IS_NUM(x)", "INT(2.7)", "INT(-2.7)", "RAND(0)",
           "DAY(1/2/2003)", "MONTH(1/2/2003)", "YEAR(1/2/2003)", "DAYINDEX(1/2/2003)", "SETDATE(29, 2, 2024)", "SETDATE(30, 2, 2024)", "EOF(\"none\")", "POW(2, 3)", "SQRT(16)", "x & 1", "LENGTH(x, x)", "MID(x)", "nofn(1)", "LEFT(x, TRUE)", "UCASE(x)", "STR_TO_NUM(5)"]
    return ["x <- \"aBc\""], rng.sample(es, min(n, len(es)))


NOTNUM = ["abc", "12x", "x12", "1.2.3", "..", ".", "1 2", "1,5", "--1", "+-1", "1-", "1+", "a", "-", "+", "e", "e5", "1..2", "5%", "$5", "1_000", "12/3", "1:2", "TRUE", "one", "1.5x", "1x5", "0b1",
          "9999999999999999999999x", "((1))", "'1'", "1.a", ".a", "-a", "-.", "+.", "1e5x", "1/2"]


@check("C17", "exploration",
       "LENGTH/LEFT/RIGHT/MID over a list of strings (empty, control, quotes, high bytes, NUL) with every position and length from -2 to length+2 and values around 2^31, 2^32 and 2^63; "
       "the split law; ASC/CHR/LCASE/UCASE over all codes; TO_UPPER/TO_LOWER of all characters; STR_TO_NUM, IS_NUM, REAL(), INTEGER() over every string of up to 4 (thorough 6) characters "
       "from {0, 1, 9, '.'} and longer random numerals and over non-numerals; NUM_TO_STR and back; INT; RAND bounds; every built-in with wrong argument types and counts; random programs.")
def c17(ck, rng, tier):
    q = tier == "quick"
    cases = []
    # --- strings
    for i, s in enumerate(STRS + BYTES):
        s = s if isinstance(s, str) else s.decode("latin1")
        n = len(s) - 2 - s.count("\\")
        ks = list(range(-2, n + 3)) if n <= 6 else [-1, 0, 1, 2, n // 2, n - 1, n, n + 1, n + 2]
        es = ["LENGTH(x)"] + calls("LEFT(x, %s)", ks) + calls("RIGHT(x, %s)", ks)
        es += ["LEFT(x, %d) & RIGHT(x, LENGTH(x) - %d) = x" % (k, k) for k in ks]
        es += calls("MID(x, %s, %s)", ks, ks if n <= 4 or not q else rng.sample(ks, min(len(ks), 6)))
        es += calls("LEFT(x, %s)", rng.sample(BIG, 4) if q else BIG) + calls("RIGHT(x, %s)", rng.sample(BIG, 4) if q else BIG)
        es += calls("MID(x, %s, %s)", ["1", "2"] + rng.sample(BIG, 2), rng.sample(BIG, 3)) + calls("MID(x, %s, 1)", rng.sample(BIG, 4))
        es += ["TO_UPPER(x)", "TO_LOWER(x)", "TO_LOWER(TO_UPPER(x)) = TO_LOWER(x)", "LENGTH(x & x)", "LENGTH(x & 'c')"]
        if n >= 3:
            es += ["MID(LEFT(x, 3), 2, 2)", "LEFT(MID(x, 2, LENGTH(x) - 1), 1)", "RIGHT(LEFT(x, LENGTH(x) - 1), 1)", "MID(x, LENGTH(x), 1) = RIGHT(x, 1)"]
        sess(cases, "s%d." % i, es, pre=["x <- " + s])
    # an embedded NUL
    pre = ["x <- \"ab\" & CHR(0) & \"cd\"", "DECLARE z : CHAR"]
    es = ["LENGTH(x)", "LEFT(x, 3)", "LEFT(x, 4)", "RIGHT(x, 3)", "MID(x, 3, 1)", "MID(x, 2, 4)", "MID(x, 2, 5)", "TO_UPPER(x)", "x = \"ab\"", "x = LEFT(x, 5)", "LENGTH(LEFT(x, 3))",
          "x & \"e\" = \"ab\" & CHR(0) & \"cde\"", "ASC(MID(x, 3, 1))", "STR_TO_NUM(\"12\" & CHR(0) & \"3\")", "IS_NUM(\"12\" & CHR(0))", "INTEGER(\"1\" & CHR(0))", "LENGTH(\"\" & z)", "ASC(z)",
          "STR_TO_NUM(CHR(0) & \"5\")", "LENGTH(TO_LOWER(x))"]
    sess(cases, "nul", es, pre=pre)
    # computed, nested, in loops and functions
    for i in range(12 if q else 120):
        s = rng.choice(STRS)
        n = len(s) - 2 - s.count("\\")
        lo, hi = rng.choice([(0, n), (1, n), (-1, n), (0, n + 1)])
        f = rng.choice(["LEFT(x, i)", "RIGHT(x, i)", "MID(x, i + 1, 0)", "MID(x, i, 1)", "MID(x, i, LENGTH(x) - i)", "MID(x, i, LENGTH(x) - i + 1)", "MID(x, 1, i)", "LEFT(RIGHT(x, i), 1)"])
        cases.append(prog("l%d" % i, ["x <- " + s, "FOR i <- %d TO %d" % (lo, hi), ' OUTPUT i, ":", %s, ":"' % f, "NEXT i", 'OUTPUT "done"']))
    # --- characters
    es = ["ASC(CHR(%d))" % n for n in range(128)] + ["CHR(%d)" % n for n in range(0, 256, 1 if not q else 3)]
    es += ["UCASE(CHR(%d))" % n for n in range(256)] + ["LCASE(CHR(%d))" % n for n in range(256)]
    es += ["CHR(%d) = '%s'" % (ord(c), c) for c in "aZ09 ~!"] + ["ASC('%s')" % c for c in ["a", "Z", "0", " ", "\\n", "\\t", "\\'", "\\\\", "\\\""]] + ["ASC(\"a\")", "ASC(\"ab\")", "ASC(\"\")", "ASC(LEFT(\"Q\", 1))"]
    sess(cases, "c", es, n=60)
    es = ["TO_UPPER(%s)" % " & ".join("CHR(%d)" % c for c in range(k, k + 16)) for k in range(0, 256, 16)]
    es += ["TO_LOWER(%s)" % " & ".join("CHR(%d)" % c for c in range(k, k + 16)) for k in range(0, 256, 16)]
    sess(cases, "ul", es, n=16)
    cases.append(prog("call", ["FOR i <- 0 TO 127", " IF ASC(CHR(i)) <> i THEN", '  OUTPUT "bad ", i', " ENDIF", ' OUTPUT i, " ", UCASE(CHR(i)) = CHR(i), LCASE(CHR(i)) = CHR(i)', "NEXT i"]))
    # --- numerals
    es = []
    for k in range(1, 5 if q else 7):
        for t in itertools.product("019.", repeat=k):
            s = "".join(t)
            if q and k == 4 and rng.random() < 0.5 or not q and k == 6 and rng.random() < 0.7:
                continue
            es.append('OUTPUT STR_TO_NUM("%s"), " ", REAL("%s"), " ", IS_NUM("%s"), " ", INTEGER("%s")' % (s, s, s, s) if "." not in s or k <= 3 else
                      'OUTPUT STR_TO_NUM("%s"), " ", REAL("%s"), " ", IS_NUM("%s")' % (s, s, s))
    for s in numerals(rng, 60 if q else 1500):
        es.append('OUTPUT STR_TO_NUM("%s"), " ", REAL("%s"), " ", IS_NUM("%s")' % (s, s, s))
        if "." not in s:
            es.append('INTEGER("%s")' % s)
        es.append('STR_TO_NUM("%s") = %s' % (s, s if not s.startswith(".") and not s.endswith(".") and len(s) < 18 else "REAL(\"%s\")" % s))
    for s in NOTNUM + ["", " ", "  "]:
        es += ['OUTPUT STR_TO_NUM("%s"), " ", REAL("%s"), " ", INTEGER("%s")' % (s, s, s), 'IS_NUM("%s")' % s]
    for s in ["-5", "+5", "-0.5", "+.5", "-7.", "-0", "+0", "1e3", "0x1F", "1E-2", " 5", "5 ", "inf", "nan", "0x", "1e", ".e1"]:
        es += ['OUTPUT STR_TO_NUM("%s"), " ", REAL("%s"), " ", INTEGER("%s")' % (s, s, s), 'IS_NUM("%s")' % s]
    for s in ["9223372036854775807", "9223372036854775808", "-9223372036854775808", "9007199254740993", "00000000000000000000000000012", "2147483648", "4294967301"]:
        es += ['INTEGER("%s")' % s, 'REAL("%s")' % s if len(s) < 18 else "1", 'STR_TO_NUM("%s")' % s]
    es += ["INTEGER('7')", "REAL('7')", "STR_TO_NUM('7')", "IS_NUM('7')", "IS_NUM('x')", "STR_TO_NUM(\"1\" & \"2.\" & \"5\")", "IS_NUM(\"1\" & '.')", "INTEGER(TRUE)", "INTEGER(2.9)", "INTEGER(-2.9)",
           "REAL(3)", "STRING(3)", "STRING(2.5)", "STRING(TRUE)", "STRING('c')", "BOOLEAN(0)", "BOOLEAN(3)", "BOOLEAN(\"\")", "BOOLEAN(\"FALSE\")", "CHAR(65)", "INTEGER(INTEGER(\"12\") & \"3\")"]
    sess(cases, "n", es, n=30)
    # --- NUM_TO_STR and back
    es = []
    for i in range(80 if q else 1500):
        d = rng.randint(0, 6)
        k = rng.choice([rng.randint(0, 9), rng.randint(0, 999), rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 9), rng.randint(0, 10 ** 12)])
        v = "%d.%0*d" % (k // 10 ** d, d, k % 10 ** d) if d else "%d.0" % k
        if rng.random() < 0.3:
            v = "-" + v
        es.append("OUTPUT NUM_TO_STR(%s), \" \", STR_TO_NUM(NUM_TO_STR(%s)) = %s" % (v, v, v))
        if rng.random() < 0.3:
            es.append("REAL(NUM_TO_STR(%s)) - (%s)" % (v, v))
    for v in ["0", "1", "-1", "123456789", "1/3", "2/3", "0.0000005", "0.00000049", "-0.0000004", "1000000.5", "0.1 + 0.2", "7 DIV 2", "1.0", "999999.9999995", "2147483648", "0.5", "1e", "TRUE", "\"5\"", "'5'"]:
        es.append("NUM_TO_STR(%s)" % v)
    sess(cases, "b", es, n=30)
    # --- INT
    es = []
    for v in ["0.0", "0.5", "-0.5", "1.0", "-1.0", "1.999999", "-1.999999", "-1.000001", "2.5", "-2.5", "-0.000001", "0.999999", "2147483647.5", "-2147483648.5", "4294967296.25", "-4294967296.25",
              "9007199254740991.0", "-9007199254740991.0", "1000000000000000000.0", "-1000000000000000000.5", "3", "-3", "0 - 0.5", "7 / 2", "-7 / 2", "1 / 3 * 3", "10 / -4", "0.1 + 0.7", "(0.1 + 0.7) * 10",
              "\"5.5\"", "TRUE", "'a'"]:
        es += ["INT(%s)" % v]
    for i in range(30 if q else 500):
        a, b = rng.randint(-10 ** rng.randint(1, 9), 10 ** rng.randint(1, 9)), rng.choice([2, 3, 7, 10, 64, 1000, -3, -10])
        es.append("INT(%d / %d)" % (a, b))
        es.append("INT(%d / %d) = %d" % (a, b, Fraction(a, b).__floor__()))
    sess(cases, "i", es, n=30)
    # --- RAND, POW, SQRT
    cases.append(prog("rand", ["bad <- 0", "FOR x <- 0 TO 20", " FOR k <- 1 TO 10", "  r <- RAND(x)", "  IF r < 0 OR r > x THEN", "   bad <- bad + 1", "  ENDIF", " NEXT k", "NEXT x", "OUTPUT bad"]))
    es = ["RAND(0)", "RAND(0) = 0", "RAND(1) <= 1", "RAND(1) >= 0"]
    for x in [1, 2, 3, 10, 255, 32767, 32768, 65536, 1000000, 2147483647, 2147483648, 4294967296, 10 ** 12]:
        es += ["RAND(%d)" % x, "RAND(%d) <= %d" % (x, x), "RAND(%d) >= 0" % x, "INT(RAND(%d)) <= %d" % (x, x)]
    es += ["RAND(TRUE)", "RAND(\"3\")", "RAND(2.5)", "RAND()"]
    es += ["POW(%d, %d)" % (a, b) for a in (0, 1, 2, 3, -2, 10) for b in (0, 1, 2, 3, 8)] + ["SQRT(%d)" % n for n in (0, 1, 4, 9, 144, 10000, 2)]
    sess(cases, "r", es * (2 if q else 40))
    # --- every built-in, wrong types and counts
    ARG = {"S": '"ab"', "I": "1", "R": "1.5", "C": "'c'", "D": "2/3/2004", "B": "TRUE", "A": "arr", "E": "red", "O": "rec", "P": "ptr", "L": '"abcd"', "1": '"a"', "0": '""', "V": "v"}
    SIG = {"LENGTH": "S", "LEFT": "SI", "RIGHT": "SI", "MID": "SII", "TO_UPPER": "S", "TO_LOWER": "S", "NUM_TO_STR": "R", "STR_TO_NUM": "S", "IS_NUM": "S", "EOF": "S", "LCASE": "C", "UCASE": "C", "ASC": "C",
           "CHR": "I", "DAY": "D", "MONTH": "D", "YEAR": "D", "DAYINDEX": "D", "SETDATE": "III", "RAND": "I", "INT": "R", "POW": "RR", "SQRT": "R", "EXP": "R", "SIN": "R", "COS": "R", "LOG": "R", "LN": "R",
           "TODAY": "", "HOURS": "", "ATAN2": "RR"}
    pre = ["TYPE E = (red, blue)", "TYPE T\n DECLARE n : INTEGER\nENDTYPE", "TYPE P = ^INTEGER", "DECLARE arr : ARRAY[1:2] OF INTEGER", "DECLARE rec : T", "DECLARE ptr : P", 'v <- "abc"']
    es = []
    for f, sg in SIG.items():
        for i in range(len(sg)):
            for a in "SIRCDBAEOPL10V":
                if f == "EOF" and a not in "IRBAEO":
                    continue
                es.append("%s(%s)" % (f, ", ".join(ARG[a] if j == i else ARG[c] for j, c in enumerate(sg))))
        if f not in ("TODAY", "HOURS"):
            es.append("%s(%s)" % (f, ", ".join(ARG[c] for c in sg[:-1])))
            es.append("%s(%s)" % (f, ", ".join(ARG[c] for c in sg + "I")))
            es.append("x <- %s" % f)
            es.append("CALL %s(%s)" % (f, ", ".join(ARG[c] for c in sg)))
    sess(cases, "t", es, n=40, pre=pre)
    cases += rand_cases(rng, 20 if q else 700, "p", perr=0.05)
    run(ck, cases)
    if not q:      # no read outside the string: the same under AddressSanitizer
        run(ck, [c for c in cases if c["id"][0] in "slnt"][:400], "asan")
    else:
        run(ck, [c for c in cases if c["id"][0] == "s"][:24], "asan")


# ------------------------------------------------------------------ C18
def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(m, y):
    return 29 if m == 2 and leap(y) else 28 if m == 2 else 30 if m in (4, 6, 9, 11) else 31


EDGE = [(1, 1, 1), (31, 12, 9999), (28, 2, 1900), (1, 3, 1900), (29, 2, 2000), (1, 3, 2000), (28, 2, 2023), (29, 2, 2024), (31, 12, 1999), (1, 1, 2000), (15, 10, 1582), (4, 10, 1582), (1, 1, 1970), (31, 1, 2021),
        (30, 4, 2021), (1, 2, 2021), (2, 1, 2021), (28, 2, 2100), (19, 1, 2038), (1, 1, 4), (29, 2, 4), (31, 12, 100), (1, 1, 10000), (31, 12, 32767)]


@check("C18", "exploration",
       "SETDATE over every (day 0..32, month 0..13) of 6 (thorough 40) years and over huge and negative components; date literals with valid and invalid components and odd spellings; "
       "for runs of consecutive days (thorough: whole years of a 400-year cycle) the printed date, DAY, MONTH, YEAR and DAYINDEX; all six comparisons over all pairs of a list of boundary dates; "
       "dates through variables, parameters, arrays, records, text files and random files (also corrupted ones).")
def c18(ck, rng, tier):
    q = tier == "quick"
    cases = []
    # validity
    years = [1900, 2000, 2023, 2024, 1, 9999] if q else [1900, 2000, 2023, 2024, 1, 4, 100, 400, 9999, 32767, 2100, 1600, 1582] + [rng.randint(1, 4000) for _ in range(27)]
    es = []
    for y in years:
        for m in range(0, 14):
            for d in range(0, 33):
                ok = 1 <= m <= 12 and 1 <= d <= mdays(m, y)
                edge = d in (0, 1, 28, 29, 30, 31, 32)
                if edge or rng.random() < (0.05 if q else 0.3):
                    es.append("SETDATE(%d, %d, %d)" % (d, m, y))
                if edge and y in (1900, 2000, 2023, 2024) and d > 0 and (not q or m in (1, 2, 4, 12, 13, 0)):
                    es.append("%d/%d/%d" % (d, m, y))
    H = ["0", "-1", "256", "257", "-255", "65537", "65536 + 2", "4294967297", "4294967296 + 4", "9223372036854775807", "-9223372036854775807", "32768", "32769", "65792", "1.0", "TRUE", "\"1\""]
    for i, h in enumerate(H):
        es += ["SETDATE(%s, 1, 2000)" % h, "SETDATE(1, %s, 2000)" % h]
        cases.append(repl("h%d" % i, ["SETDATE(1, 1, %s)" % h]))
    for y in [1, 4, 5, 99, 100, 400, 1582, 1752, 32767, 32768, 40000, 65536, 65537, 67536]:
        es += ["SETDATE(28, 2, %d)" % y, "SETDATE(29, 2, %d)" % y, "SETDATE(31, 12, %d)" % y, "SETDATE(30, 2, %d)" % y]
    es += ["SETDATE(-%d, %d, 2000)" % (a, b) for a in (1, 5) for b in (1, -1)] + ["SETDATE(1, -2, 2000)", "SETDATE(1, 2)", "SETDATE(1, 2, 3, 4)", "SETDATE()"]
    rng.shuffle(es)
    for y in [0, -1, -2, -3, -4, -5, -99, -100, -101, -399, -400, -401, -32766, -32767, -32768, -32769, -65536]:
        es += ["SETDATE(28, 2, %d)" % y, "SETDATE(29, 2, %d)" % y, "SETDATE(30, 2, %d)" % y, "SETDATE(31, 12, %d)" % y, 'OUTPUT DAYINDEX(SETDATE(1, 3, %d)), YEAR(SETDATE(2, 1, %d))' % (y, y)]
    for i in range(20 if q else 400):
        y = rng.randint(-32767, 32767)
        es.append('OUTPUT SETDATE(29, 2, %d), DAYINDEX(SETDATE(29, 2, %d))' % (4 * (y // 4), 4 * (y // 4)))
    rng.shuffle(es)
    for i, part in enumerate(chunks(es, 50)):
        cases.append(repl("v%d" % i, part))
    # literals
    lits = ["%s/%s/%s" % t for t in [("01", "02", "2003"), ("1", "02", "0004"), ("001", "002", "2003"), ("31", "4", "2000"), ("32", "1", "2000"), ("0", "1", "2000"), ("1", "0", "2000"), ("1", "13", "2000"),
                                      ("29", "2", "1900"), ("29", "2", "2000"), ("29", "2", "2001"), ("30", "2", "2024"), ("31", "6", "2020"), ("31", "9", "2020"), ("31", "11", "2020"), ("31", "12", "2020"),
                                      ("1", "1", "99999"), ("1", "1", "32767"), ("1", "1", "32768"), ("1", "1", "65537"), ("257", "1", "2000"), ("1", "257", "2000"), ("1", "1", "4294969296"), ("1", "1", "99999999999999999999"),
                                      ("99999999999999999999", "1", "2000"), ("4294967297", "1", "2000"), ("1", "4294967298", "2000")]]
    es = []
    for l in lits:
        es += [l, "OUTPUT %s" % l, "d <- %s" % l, "OUTPUT d"]
    es += ["1/2", "1/2/3", "10/5/2", "10 / 5 / 2", "10/5 / 2", "10 /5/2", "12/3", "x <- 12", "x/3/4", "(12)/3/2001", "12/(3)/2001", "12/3/2001 = SETDATE(12, 3, 2001)", "-1/2/2003", "1/2/2003 + 1", "1/2/2003 & \"\"", "1/2/2003/4", "1/2/2003.5",
           "1.5/2/2003", "1/2/x", "DAY(1/2/2003)", "DAY(1/2)", "1//2", "1/2//3", "1/2/3//4", "\"\" & 1/2/2003", "3/2/2001 < 4/2/2001", "3/2/2001<4/2/2001", "NOT 3/2/2001", "3/2/2001 DIV 2"]
    for i, part in enumerate(chunks(es, 40)):
        cases.append(repl("l%d" % i, part))
    for i, l in enumerate(lits):       # in a file: nothing or everything
        cases.append(prog("L%d" % i, ['OUTPUT "start"', "DECLARE a : DATE", "a <- " + l, 'OUTPUT "now ", a, " ", DAY(a), " ", MONTH(a), " ", YEAR(a)']))
    # consecutive days through the components
    def days(y, m0, m1):
        return ["FOR m <- %d TO %d" % (m0, m1), " n <- 31", " IF m = 4 OR m = 6 OR m = 9 OR m = 11 THEN", "  n <- 30", " ENDIF", " IF m = 2 THEN", "  n <- %d" % mdays(2, y), " ENDIF",
                " FOR d <- 1 TO n", "  x <- SETDATE(d, m, %d)" % y, '  OUTPUT x, " ", DAY(x), " ", MONTH(x), " ", YEAR(x), " ", DAYINDEX(x)', " NEXT d", "NEXT m", "x <- SETDATE(%d, %d, %d)" % (mdays(m1, y) + 1, m1, y)]
    ys = [1900, 2000, 2023, 2024] if q else [1, 4, 100, 1582, 9999] + list(range(1890, 2110))
    for y in ys:
        for m in ((1, 5, 9) if not q else (1, 9) if y in (2000, 2024) else (1,)):
            cases.append(prog("y%d.%d" % (y, m), days(y, m, m + 3 if not q else m + 2), steps=200000))
    es = []
    for y in [1, 2, 3, 4, 5, 99, 100, 101, 199, 200, 300, 399, 400, 401, 800, 1000, 1581, 1582, 1583, 1600, 1700, 1752, 1800, 1899, 1900, 1901, 1969, 1970, 1971, 1999, 2000, 2001, 2037, 2038, 2039, 2100, 2400, 4000, 9999, 32767]:
        for d, m in [(1, 1), (28, 2), (1, 3), (31, 12)] + ([(29, 2)] if leap(y) else []):
            es.append('OUTPUT DAYINDEX(%d/%d/%d), " ", SETDATE(%d, %d, %d)' % (d, m, y, d, m, y))
    for i in range(60 if q else 3000):
        y = rng.choice([rng.randint(1, 9999), rng.randint(1900, 2100), rng.randint(1, 32767)])
        m = rng.randint(1, 12)
        d = rng.randint(1, mdays(m, y))
        es.append("DAYINDEX(SETDATE(%d, %d, %d))" % (d, m, y))
    for i, part in enumerate(chunks(es, 50)):
        cases.append(repl("w%d" % i, part))
    # order
    es = []
    E = EDGE + [(rng.randint(1, 28), rng.randint(1, 12), rng.randint(1, 9999)) for _ in range(4 if q else 20)]
    for a in E:
        near = sorted(E, key=lambda b: abs((b[2] - a[2]) * 372 + (b[1] - a[1]) * 31 + b[0] - a[0]))
        for b in (near[:5] + rng.sample(E, 3) if q else E):
            sa, sb = "%d/%d/%d" % a, "%d/%d/%d" % b
            es.append('OUTPUT %s' % ', ","'.join([", " * 0 + "%s %s %s" % (sa, op, sb) for op in ("=", "<>", "<", "<=", ">", ">=")]).replace('","', '",", '))
    for a, b in [((2, 1, 2000), (1, 2, 2000)), ((31, 1, 2000), (1, 2, 2000)), ((1, 12, 1999), (1, 1, 2000)), ((31, 12, 1999), (1, 1, 2000)), ((5, 5, 5), (5, 5, 6))]:
        for op in ("=", "<>", "<", "<=", ">", ">="):
            es += ["%d/%d/%d %s %d/%d/%d" % (a + (op,) + b), "%d/%d/%d %s %d/%d/%d" % (b + (op,) + a)]
    Y = [-32767, -32000, -5000, -401, -400, -5, -4, -1, 0, 1, 4, 5, 99, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 9999, 10000, 16384, 32766, 32767]
    for i in range(150 if q else 3000):
        a = (rng.choice([1, 28, 31, rng.randint(1, 28)]), rng.choice([1, 12, 7]), rng.choice(Y + [rng.randint(-32767, 32767)]))
        b = (rng.choice([1, 28, 31, a[0]]), rng.choice([1, 12, a[1]]), rng.choice(Y + [a[2], a[2] - 1, a[2] + 1]))
        b = b[:2] + (min(max(b[2], -32767), 32767),)
        es.append("OUTPUT " + ', " ", '.join("SETDATE(%d, %d, %d) %s SETDATE(%d, %d, %d)" % (a + (o,) + b) for o in ("<", ">", "=", "<=")))
    es += ["1/1/2000 = 1", "1/1/2000 < 2.5", "1/1/2000 > \"x\"", "1/1/2000 = TRUE", "1/1/2000 <= 'c'", "1 < 1/1/2000", "\"1/1/2000\" = 1/1/2000"]
    for i, part in enumerate(chunks(es, 40)):
        cases.append(repl("o%d" % i, part))
    # storage
    for i in range(16 if q else 300):
        ds = [rng.choice(E) for _ in range(3)]
        t = ["%d/%d/%d" % d for d in ds]
        cases.append(prog("s%d" % i, ["TYPE R", " DECLARE n : INTEGER", " DECLARE d : DATE", " DECLARE h : ARRAY[1:2] OF DATE", "ENDTYPE", "DECLARE a : ARRAY[1:3] OF DATE", "DECLARE r, r2 : R",
                                      "FUNCTION F(x : DATE, BYREF y : DATE) RETURNS DATE", " y <- x", " RETURN SETDATE(DAY(x), MONTH(x), YEAR(x))", "ENDFUNCTION",
                                      "a[1] <- " + t[0], "a[2] <- a[1]", "r.d <- " + t[1], "r.h[2] <- " + t[2], "a[3] <- F(r.d, r.h[1])", "r2 <- r", "r.d <- " + t[2],
                                      'OUTPUT a[1], " ", a[2], " ", a[3], " ", r.d, " ", r2.d, " ", r2.h[1], " ", r.h[2]', 'OUTPUT a[1] = a[2], a[3] < r.d, r2.d >= r.h[2]',
                                      'OPENFILE "d.txt" FOR WRITE', 'WRITEFILE "d.txt", a[1]', 'WRITEFILE "d.txt", r.h[2]', 'CLOSEFILE "d.txt"', 'OPENFILE "d.txt" FOR READ',
                                      'READFILE "d.txt", s', 'OUTPUT s', 'OPENFILE "d.dat" FOR RANDOM', 'PUTRECORD "d.dat", r', 'SEEK "d.dat", 2', 't <- a[3]', 'PUTRECORD "d.dat", t', 'SEEK "d.dat", 1', 'GETRECORD "d.dat", r2',
                                      'OUTPUT r2.d, " ", r2.h[1], " ", r2.h[2]', 'SEEK "d.dat", 2', 'GETRECORD "d.dat", t', "OUTPUT t, DAYINDEX(t)"]))
    for i, (d, n) in enumerate([(31, 4), (29, 2), (0, 1), (1, 0), (1, 13), (32, 1)]):
        cases.append(prog("c%d" % i, ['OUTPUT "a"', "x <- 5/6/2021", "x <- SETDATE(%d, %d, 2023)" % (d, n), "OUTPUT x"]))
        cases.append(repl("cr%d" % i, ["x <- 5/6/2021", "x <- SETDATE(%d, %d, 2023)" % (d, n), "x", "x <- %d/%d/2023" % (d, n), "x", "DAYINDEX(x)", "x <- 28/2/2023", "x"]))
    # default value and CASE
    cases.append(repl("def", ["DECLARE d : DATE", "d", "DAY(d)", "MONTH(d)", "YEAR(d)", "DAYINDEX(d)", "d = d", "d <- 29/2/2024", "CASE OF d\n 1/1/2024 TO 28/2/2024 : OUTPUT 1\n 29/2/2024 : OUTPUT 2\n OTHERWISE : OUTPUT 3\nENDCASE",
                              "CASE OF d\n 28/2/2024 TO 1/3/2024 : OUTPUT 1\n OTHERWISE : OUTPUT 3\nENDCASE", "TODAY() >= 1/1/2020", "DAYINDEX(TODAY()) > 0", "DAY(TODAY()) <= 31", "TODAY() = SETDATE(DAY(TODAY()), MONTH(TODAY()), YEAR(TODAY()))"]))
    run(ck, cases)
