"""Expressions for C02 (and as building blocks elsewhere)."""
from fractions import Fraction

I64 = (1 << 63) - 1
INTS = ["0", "1", "2", "3", "5", "7", "10", "100", "255", "-1", "-2", "-7", "-10"]
BIGINTS = ["2147483647", "2147483648", "-2147483648", "4294967296", "9007199254740992", "9007199254740993", "-9007199254740993",
           "9223372036854775806", "9223372036854775807", "-9223372036854775807", "3037000499", "1000000007", "4611686018427387904", "-9223372036854775807 - 1"]
REALS = ["0.0", "0.5", "1.5", "2.0", "0.1", "3.14159", "100.25", "1000000.0", "0.000001", "123456789.125", "-2.5", "-0.75", "7.0"]
BOOLS = ["TRUE", "FALSE"]
CHARS = ["'a'", "'b'", "'Z'", "'0'", "' '", "'\\n'"]
NULS = ["CHR(0)", "(CHR(0) & CHR(0))", "(\"a\" & CHR(0))", "(\"a\" & CHR(0) & \"b\")", "(\"a\" & CHR(0) & \"c\")", "(CHR(0) & \"a\")", "(\"ab\" & CHR(0))", "STRING(CHR(0))", "\"ab\"", "\"a\"", "\"b\"", "\"\"", "(\"a\" & CHR(127) & \"b\")", "(\"a\\n\" & CHR(0))", "(\"a\\n\" & CHR(1))", "\"\\\"a\"", "\"a \"", "\" a\"", "\"A\""]
STRS = ['""', '"a"', '"abc"', '"12"', '"Hello World"', '"a b"', '"TRUE"']
DATES = ["1/1/2000", "29/2/2024", "31/12/1999"]
TY = {"I": INTS, "R": REALS, "B": BOOLS, "C": CHARS, "S": STRS, "D": DATES}
ARITH = ["+", "-", "*", "/", "DIV", "MOD"]
CMP = ["=", "<>", "<", "<=", ">", ">="]
LEVEL = {"*": 5, "/": 5, "DIV": 5, "MOD": 5, "+": 4, "-": 4, "&": 3, "=": 2, "<>": 2, "<": 2, "<=": 2, ">": 2, ">=": 2, "AND": 1, "OR": 1}


def lit(rng, t, big=False):
    s = rng.choice(BIGINTS if big and t == "I" else TY[t])
    return s


def tree(rng, t, d, vars=None):
    """an expression tree of type t (mostly): text pieces ("lit", s) | ("bin", op, a, b) | ("un", op, a) | ("par", a)"""
    if d <= 0 or rng.random() < 0.15:
        if vars and rng.random() < 0.4 and vars.get(t):
            return ("lit", rng.choice(vars[t]))
        return ("lit", lit(rng, t))
    if rng.random() < 0.04:    # a deliberate type error
        t = rng.choice("IRBCS")
    g = lambda tt: tree(rng, tt, d - 1, vars)
    r = rng.random()
    if t == "I":
        if r < 0.15:
            return ("un", "-", g("I"))
        return ("bin", rng.choice(["+", "-", "*", "DIV", "MOD", "+", "-"]), g("I"), g("I"))
    if t == "R":
        if r < 0.15:
            return ("un", "-", g("R"))
        op = rng.choice(["+", "-", "*", "/", "+", "/"])
        if op == "/":
            return ("bin", "/", g(rng.choice("IR")), g(rng.choice("IR")))
        a, b = rng.choice(["RI", "IR", "RR"])
        return ("bin", op, g(a), g(b))
    if t == "S":
        return ("bin", "&", g(rng.choice("SCIRBS")), g(rng.choice("SCSIB")))
    if t == "B":
        if r < 0.25:
            return ("un", "NOT", g("B"))
        if r < 0.6:
            return ("bin", rng.choice(["AND", "OR"]), g("B"), g("B"))
        k = rng.choice("IIRNCSBDX")
        if k == "N":
            return ("bin", rng.choice(CMP), g("I"), g("R"))
        if k in "IRCD":
            return ("bin", rng.choice(CMP), g(k) if k != "D" else ("lit", lit(rng, "D")), g(k) if k != "D" else ("lit", lit(rng, "D")))
        if k == "X":
            a, b = rng.choice("IRBCS"), rng.choice("IRBCS")
            return ("bin", rng.choice(["=", "<>"]), g(a), g(b))
        return ("bin", rng.choice(["=", "<>"]), g(k), g(k))
    return ("lit", lit(rng, t))


def show(rng, n, drop=0.0, sp=1.0):
    """text; parentheses where the tree needs them, except that a fraction of them is dropped, and some are added"""
    def s(n):
        if n[0] == "lit":
            return n[1] if not n[1].startswith("-") or rng.random() < 0.5 else "(" + n[1] + ")"
        if n[0] == "un":
            a = s(n[2])
            if n[2][0] == "bin" and rng.random() >= drop:
                a = "(" + a + ")"
            return n[1] + (" " if n[1] == "NOT" or a.startswith("-") else "") + a
        op, a, b = n[1], n[2], n[3]
        x, y = s(a), s(b)
        def need(c, right):
            if c[0] == "bin":
                return LEVEL[c[1]] < LEVEL[op] or (right and LEVEL[c[1]] == LEVEL[op])
            return c[0] == "un" and c[1] == "NOT"
        if need(a, False) and rng.random() >= drop or rng.random() < 0.03:
            x = "(" + x + ")"
        if need(b, True) and rng.random() >= drop or rng.random() < 0.03:
            y = "(" + y + ")"
        gap = " " if op.isalpha() or rng.random() < sp or y.startswith("/") or op in ("/",) else ""
        return x + gap + op + gap + y
    return s(n)


def num(s):
    return Fraction(s) if " " not in s else -Fraction(2) ** 63


def overflows(op, a, b):
    """a generator-level filter: the pair would leave the 64-bit range, which the property leaves open"""
    if "." in a or "." in b:
        if op == "DIV" and num(b) != 0:
            return abs(num(a) / num(b)) > 10 ** 15
        return False
    x, y = int(num(a)), int(num(b))
    if op == "DIV" and x < -I64 and y == -1:
        return True
    try:
        z = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[op]()
    except KeyError:
        return False
    return abs(z) > I64
