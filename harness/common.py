"""Shared by the property generators: the registry and case constructors."""
import random
import gen_prog as GP

CHECKS, RULE, LEVEL = {}, {}, {}


def check(pid, level, rule):
    def d(f):
        CHECKS[pid], LEVEL[pid], RULE[pid] = f, level, rule
        return f
    return d


def B(s):
    return s.encode("latin1") if isinstance(s, str) else s


RUNKEYS = ("ped", "ln", "fl", "via_p", "lite", "pre")


def rrun(entries, **kw):
    """one REPL run; entries are texts without the blank line that closes a construct"""
    out = b""
    for e in entries:
        e = B(e)
        out += e + b"\n"
        if b"\n" in e:
            out += b"\n"
    return dict(mode="repl", src=b"", inp=out, **kw)


def frun(src, inp=b"", **kw):
    return dict(mode="file", src=B(src), inp=B(inp), **kw)


def repl(id, entries, **kw):
    r = rrun(entries, **{k: kw.pop(k) for k in RUNKEYS if k in kw})
    return dict(id=id, runs=[r], **kw)


def prog(id, src, inp=b"", **kw):
    if not isinstance(src, (str, bytes)):
        src = "\n".join(src) + "\n"
    r = frun(src, inp, **{k: kw.pop(k) for k in RUNKEYS if k in kw})
    return dict(id=id, runs=[r], **kw)


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def both(id, entries, inp=b"", **kw):
    """the same entries as a program file and as a session (two cases)"""
    return [prog(id + "f", "\n".join(entries) + "\n", inp, **kw), repl(id + "r", entries, **kw)]


def rand_cases(rng, n, tag, inp=b"", repl_share=0.5, ln=False, **kw):
    """random programs of the whole language"""
    out = []
    for i in range(n):
        r = random.Random(rng.random())
        ents = GP.Gen(r, **kw).program()
        if kw.get("inputs") or r.random() >= repl_share:
            out.append(dict(id="%s%d" % (tag, i), steps=20000,
                            runs=[frun(GP.file_text(ents), inp, ped=kw.get("ped", False), ln=ln)]))
        else:
            out.append(dict(id="%s%d" % (tag, i), steps=20000,
                            runs=[dict(mode="repl", src=b"", inp=B(GP.repl_text(ents)), ped=kw.get("ped", False), ln=ln)]))
    return out


def run(ck, cases, kind="plain", n=400, **kw):
    for part in chunks(cases, n):
        ck.run(part, kind, **kw)

