"""Case generators, one function per property; CHECKS[pid](checker, rng, tier)."""
import itertools
import gen_expr as X
from common import *


# ------------------------------------------------------------------ C02
@check("C02", "exploration",
       "Operator table: every binary operator on operand pairs of a fixed pool (all five types and DATE, small and 64-bit "
       "boundary integers, reals) as REPL entries, whose echo shows value and type; then random expression trees printed with "
       "minimal, dropped and redundant parentheses, in the REPL and in OUTPUT statements of program files.")
def c02(ck, rng, tier):
    q = tier == "quick"
    pool = [(t, s) for t in "IRBCSD" for s in X.TY[t]] + [("I", s) for s in X.BIGINTS]
    ops = X.ARITH + X.CMP + ["&", "AND", "OR"]
    tab = []
    for (ta, a), (tb, b) in itertools.product(pool, pool):
        for op in ops:
            if ta in "IR" and tb in "IR" and op in X.ARITH and X.overflows(op, a, b):
                continue
            tab.append("(%s) %s (%s)" % (a, op, b))
    ck.extra["operator_table_size"] = len(tab)
    if q:    # boundary integers completely, a sample of the rest
        big = ["(%s) %s (%s)" % (a, op, b) for a in X.BIGINTS for b in X.BIGINTS for op in X.ARITH + X.CMP
               if not (op in X.ARITH and X.overflows(op, a, b))]
        tab = big + rng.sample(tab, 3600)
    else:
        rng.shuffle(tab)
    un = ["-(%s)" % s for _, s in pool if s != X.BIGINTS[-1]] + ["NOT (%s)" % s for _, s in pool] + [s for _, s in pool]
    cases = [repl("t%d" % i, c) for i, c in enumerate(chunks(tab + un, 60))]
    # strings that differ only behind a character that might end them, or in case, blanks or length
    tab = ["(%s) %s (%s)" % (a, o, b) for a in X.NULS for b in X.NULS for o in ("=", "<>", "&")] + ["LENGTH(%s & %s) = LENGTH(%s) + LENGTH(%s)" % (a, b, a, b) for a in X.NULS for b in X.NULS]
    rng.shuffle(tab)
    cases += [repl("u%d" % i, c) for i, c in enumerate(chunks(tab[:700] if q else tab, 60))]
    # operands that no operator (or few) accepts: other kinds, things without a value, undeclared names, failing operands
    env = ["TYPE En = (ea, eb, ec)", "TYPE Rec\n DECLARE n : INTEGER\nENDTYPE", "TYPE PI = ^INTEGER", "DECLARE e : En", "DECLARE w : Rec", "DECLARE p : PI", "DECLARE np : PI", "DECLARE arr : ARRAY[1:2] OF INTEGER",
           "DECLARE i : INTEGER", "i <- 3", "p <- ^i", "PROCEDURE pv()\n OUTPUT 1\nENDPROCEDURE", "FUNCTION fi() RETURNS INTEGER\n OUTPUT \"called\"\n RETURN 7\nENDFUNCTION", "FUNCTION fs() RETURNS STRING\n OUTPUT \"called\"\n RETURN \"s\"\nENDFUNCTION"]
    odd = ["e", "ec", "w", "w.n", "p", "p^", "np", "np^", "arr", "arr[1]", "arr[9]", "En", "pv", "pv()", "undef", "1 / 0", "1 DIV 0", "i <- 4", "fi()", "fs()", "fi", "31/2/2001", "LENGTH(5)", "ASC(\"\")", "-TRUE", "NOT 1", "- \"s\"", "2 AND TRUE"]
    good = ["5", "-2", "0", "2.5", "TRUE", "FALSE", "'a'", '"ab"', "29/2/2024"]
    tab = [(a, op, b) for a in odd for b in good + odd for op in ops] + [(a, op, b) for a in good for b in odd for op in ops]
    tab = ["(%s) %s (%s)" % t for t in tab if not (t[1] in ("=", "<>") and "i <- 4" in t or t[1] == "-" and t[2] in ("e", "ec") and t[0] in ("5", "-2", "0", "w.n", "p^", "arr[1]", "fi()", "LENGTH(5)"))] + [o + "(%s)" % a for a in odd for o in ("-", "NOT ", "- - ", "NOT NOT ")]
    ck.extra["odd_operand_table_size"] = len(tab)
    tab = rng.sample(tab, 3000) if q else tab
    cases += [repl("o%d" % i, env + c) for i, c in enumerate(chunks(tab, 60))]
    for part in chunks(cases, 240):
        ck.run(part)
    # random trees
    decl = ["i <- 7", "j <- -3", "r <- 2.5", "s <- \"xy\"", "c <- 'q'", "b <- TRUE"]
    vs = {"I": ["i", "j"], "R": ["r"], "S": ["s"], "C": ["c"], "B": ["b"]}
    for rnd in range(1 if q else 10):
        cases = []
        for n in range(110 if q else 240):
            es = []
            for _ in range(22):
                t = rng.choice("IRBSIRB")
                es.append(X.show(rng, X.tree(rng, t, rng.randint(1, 4), vs), drop=rng.choice([0, 0, 0.3, 1]), sp=rng.choice([1, 1, 0.3])))
            if n % 3:
                cases.append(repl("x%d-%d" % (rnd, n), decl + es))
            else:
                cases.append(prog("x%d-%d" % (rnd, n), "\n".join(decl + ["OUTPUT " + e for e in es[:8]]) + "\n"))
        ck.run(cases, "plain" if rnd % 2 == 0 else "asan")
import props_flow
import props_data
import props_files
import props_lib   # C17, C18
import props_front
import props_robust
