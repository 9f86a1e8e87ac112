"""Record types whose array fields get their bounds when a variable is declared: copies between equal and unequal shapes"""
import random
from common import *


def dyn_case(r, cid):
    """n changes between declarations: two variables of one type may have array fields of different bounds"""
    two = r.random() < 0.3
    fld = "DECLARE a : ARRAY[%s] OF %s" % (r.choice(["1:n", "n:3", "n:n + 1", "0:n", "1:n", "1:n", "n - 1:n * 2 - 1", "1:(n + 3) * 1"]) + (", 1:2" if two else ""), r.choice(["INTEGER", "STRING", "INTEGER", "CHAR"]))
    ix = (lambda i: "%d, %d" % (i, r.randint(1, 2))) if two else (lambda i: str(i))
    es = ["n <- %d" % r.randint(1, 3), "TYPE R\n DECLARE k : INTEGER\n %s\nENDTYPE" % fld, "TYPE S\n DECLARE i : R\n DECLARE g : ARRAY[1:2] OF R\nENDTYPE", "TYPE PR = ^R"]
    ty = r.choice(["STRING", "CHAR", "INTEGER"])
    lit = {"INTEGER": lambda: str(r.randint(0, 99)), "CHAR": lambda: "'%s'" % r.choice("abcdef"), "STRING": lambda: '"%s"' % r.choice("abcdef")}
    t = fld.split(" OF ")[1]
    vs, arr, rec2, ptr = [], [], [], []
    names = iter(["x%d" % i for i in range(40)])
    es += ["PROCEDURE Val(v : R)\n v.k <- v.k + 1\n v.a[%s] <- %s\n OUTPUT v.k, v.a[%s]\nENDPROCEDURE" % (ix(1), lit[t](), ix(1)),
           "PROCEDURE Ref(BYREF v : R)\n v.k <- v.k + 1\n v.a[%s] <- %s\nENDPROCEDURE" % (ix(2), lit[t]()),
           "FUNCTION Mk() RETURNS R\n DECLARE q : R\n q.k <- n\n q.a[%s] <- %s\n RETURN q\nENDFUNCTION" % (ix(1), lit[t]())]
    vs = []
    for _ in range(r.randint(3, 5)):
        k = r.random()
        v = next(names)
        if k < 0.5:
            es.append("DECLARE %s : R" % v)
            vs.append((v, "R"))
        elif k < 0.75:
            es.append("DECLARE %s : ARRAY[1:2] OF R" % v)
            vs += [(v, "A"), (v + "[1]", "R"), (v + "[2]", "R")]
        else:
            es.append("DECLARE %s : S" % v)
            vs += [(v, "S"), (v + ".i", "R"), (v + ".g", "A"), (v + ".g[2]", "R")]
        if r.random() < 0.45:
            es.append("n <- %d" % r.randint(0, 4))
    rs = [v for v, k in vs if k == "R"]
    for _ in range(r.randint(8, 14)):
        k = r.random()
        v = r.choice(rs) if rs else "zz"
        if k < 0.35:
            es.append("%s.a[%s] <- %s" % (v, ix(r.randint(-1, 4)), lit[t]()))
        elif k < 0.45:
            es.append("%s.k <- %d" % (v, r.randint(0, 99)))
        elif k < 0.75:
            a, ka = r.choice(vs)
            b = r.choice([b for b, kb in vs if kb == ka] if r.random() < 0.9 else [b for b, _ in vs])
            es.append("%s <- %s" % (a, b))
        elif k < 0.8:
            es.append("%s.a <- %s.a" % (v, r.choice(rs) if rs else "zz"))
        elif k < 0.85:
            es.append("n <- %d" % r.randint(0, 4))
        elif k < 0.9:
            es.append("CALL %s(%s)" % (r.choice(["Val", "Ref"]), v))
        elif k < 0.95:
            es.append("%s <- Mk()" % v)
        else:
            es.append("y%d <- %s" % (r.randint(0, 1), v))
        w = r.choice(rs) if rs else "zz"
        es += ["OUTPUT %s.k" % v, "%s.a[%s]" % (v, ix(r.randint(0, 3))), "%s.a[%s]" % (w, ix(r.randint(0, 3)))]
    for v in rs:
        for i in range(-1, 5):
            es.append("%s.a[%s]" % (v, ix(i)))
    return repl(cid, es) if r.random() < 0.8 else prog(cid, es)


def dyn_cases(rng, n, tag):
    return [dyn_case(random.Random(rng.random()), "%s%d" % (tag, k)) for k in range(n)]
