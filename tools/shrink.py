"""shrink.py REPLAY.json: removes entries (REPL) or lines (file) of the last run while TLC still rejects the case"""
import sys
sys.path.insert(0, "/verif/harness")
import pe2, check, gen_prog as GP


def bad(box, variants, kind):
    recs = pe2.run_cases(box, variants, kind)
    v, st = pe2.validate(recs)
    return [v[c["id"]][0] == "bad" for c in variants]


def main(p):
    case, kind, pid = check.load_case(p)
    box = pe2.Box()
    r = case["runs"][-1]
    repl = r["mode"] == "repl"
    lines = (r["inp"] if repl else r["src"]).decode("latin1").split("\n")
    if repl:
        parts, cur = [], []
        for l in lines:
            cur.append(l)
            if len(cur) == 1 and not GP.first_word(l) in GP.HEADS or l == "":
                parts.append(cur)
                cur = []
        if cur:
            parts.append(cur)
    else:
        parts = [[l] for l in lines]

    def mk(ps, i):
        t = "\n".join("\n".join(x) for x in ps).encode("latin1")
        if not t.endswith(b"\n"):
            t += b"\n"
        q = dict(r, **({"inp": t} if repl else {"src": t}))
        return dict(case, id="v%d" % i, runs=case["runs"][:-1] + [q])
    n = max(1, len(parts) // 2)
    try:
        while n >= 1:
            i = 0
            while i < len(parts):
                vs, at = [], []
                for k in range(8):
                    if i + k * n < len(parts):
                        q = parts[:i + k * n] + parts[i + (k + 1) * n:]
                        vs.append(mk(q, k))
                        at.append(i + k * n)
                res = bad(box, vs, kind)
                hit = [a for a, b in zip(at, res) if b]
                if hit:
                    parts = parts[:hit[0]] + parts[hit[0] + n:]
                    i = hit[0]
                else:
                    i += 8 * n
            n = n // 2 if n > 1 else 0
        c = mk(parts, 0)
        rec = pe2.run_case(box, c, kind)
        v, st = pe2.validate([rec])
        pe2.show(rec, v[c["id"]])
        print(pe2.detail(st["raw"], c["id"]))
    finally:
        box.close()


main(sys.argv[1])
