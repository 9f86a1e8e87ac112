"""The exhaustive models spec/MC_*.tla: TLC checks the property on every history of the model and prints
the transitions it took; the walks made here from those transitions are replayed in the interpreter."""
import collections, random, re
import pe2
from common import *

TR = re.compile(r'<<"T", (-?\d+), (\d+), (-?\d+), <<([\d, ]*)>>>>')


NEUTRAL = re.compile(r"^(OUTPUT [^()]*|[\w^.\[\]]+)$")   # probes that cannot change anything


def strings(s):
    """the list of texts in a TLA+ tuple of strings"""
    return [re.sub(r"\\(.)", r"\1", x) for x in re.findall(r'"((?:\\.|[^"\\])*)"', s)]


def explore(ck, module, depth, timeout=600, workers=4):
    """runs TLC on the model; returns (setup, letters, probes, transitions)"""
    rc, o = pe2.tlc(module, cfg="MC.cfg", env={"DEPTH": str(depth), "DMODE": ck.dm}, workers=workers, mem="5g", timeout=timeout)
    if rc != 0:
        raise pe2.TLCFailure("model %s: TLC exit %d\n%s" % (module, rc, pe2.tlc_error(o)))
    flat = re.sub(r"\s+", " ", o)
    m = re.search(r'<<"TEXTS", (<<.*?>>), (<<.*?>>), (<<.*?>>)>>', flat) or re.search(r'<< "TEXTS", (<<.*?>>), (<<.*?>>), (<<.*?>>) >>', flat)
    flat = flat.replace("<< ", "<<").replace(" >>", ">>")
    ts = [(int(a), int(i), int(b), tuple(int(x) for x in h.split(",") if x.strip())) for a, i, b, h in TR.findall(flat)]
    st = pe2.STATS.findall(o)[-1]
    ck.states += int(st[1])
    ck.transitions += int(st[0])
    mm = ck.extra.setdefault("models", {})
    mm[module] = {"depth": depth, "states": int(st[1]), "transitions": int(st[0])}
    return strings(m.group(1)), strings(m.group(2)), strings(m.group(3)), ts


def walks(rng, ts, length):
    """walks from the initial state that together take every transition: (letters, how many of them are new) in each"""
    succ, start = collections.defaultdict(dict), None
    for a, i, b, h in ts:
        succ[a][i] = b
        if h == ():
            start = a
    todo = {a: set(d) for a, d in succ.items()}
    left = sum(len(x) for x in todo.values())
    out = []
    while left:
        at, w, new = start, [], 0
        while len(w) < length:
            if todo.get(at):
                loops = [i for i in sorted(todo[at]) if succ[at][i] == at]
                i = rng.choice(loops or sorted(todo[at]))
                todo[at].discard(i)
                left -= 1
                new += 1
                w.append(i)
                at = succ[at][i]
                continue
            # shortest way to a state with work left
            prev, q, goal = {at: None}, collections.deque([at]), None
            while q and goal is None:
                u = q.popleft()
                for i, v in sorted(succ.get(u, {}).items()):
                    if v not in prev:
                        prev[v] = (u, i)
                        if todo.get(v):
                            goal = v
                            break
                        q.append(v)
            if goal is None:
                break
            path = []
            while prev[goal]:
                path.append(prev[goal][1])
                goal = prev[goal][0]
            if w and len(w) + len(path) >= length:
                break
            for i in reversed(path):
                w.append(i)
                at = succ[at][i]
        if not new:
            break
        out.append(w)
    return out


def entry(t):
    """a letter's text: (entry, input lines)"""
    e, _, i = t.replace("|", "\n").partition("~")
    return e, (i + "\n" if "~" in t else "")


def session(setup, texts):
    """the texts as runs of the REPL"""
    runs, cur = [], b""
    def put(t):
        nonlocal cur
        e, i = entry(t)
        cur += B(e) + b"\n" + (b"\n" if "\n" in e else b"") + B(i)
    for t in setup:
        put(t)
    for t in texts:
        if t == "@restart":
            runs.append(cur)
            cur = b""
            for s in setup:
                put(s)
        else:
            put(t)
    runs.append(cur)
    return [dict(mode="repl", src=b"", inp=r) for r in runs]


def histories(ck, rng, module, depth, cap=None, length=45, probes=0.15, sample=0, tag="", **kw):
    """cases that replay the model's transitions: walks covering them all (at most cap of them), and
    sample plain shortest histories followed by the probes"""
    setup, letters, probe, ts = explore(ck, module, depth, **kw)
    ws = walks(rng, ts, length)
    total = len(ws)
    if cap and len(ws) > cap:
        ws = rng.sample(ws, cap)
    out = []
    for n, w in enumerate(ws):
        texts = []
        for i in w:
            texts.append(letters[i - 1])
            if rng.random() < probes / 3:
                texts += [t for t in probe if NEUTRAL.match(t)]
        out.append(dict(id="%s%s-w%d" % (module, tag, n), runs=session(setup, texts + probe)))
    hs = [h + (i,) for a, i, b, h in ts]
    for n, h in enumerate(rng.sample(hs, min(sample, len(hs)))):
        out.append(dict(id="%s%s-h%d" % (module, tag, n), runs=session(setup, [letters[i - 1] for i in h] + probe)))
    ck.extra["models"][module].update(walks=total, walks_replayed=len(ws), histories_replayed=min(sample, len(hs)))
    return out


def replay(ck, rng, tier, module, quick, thorough, length=45, kind="plain"):
    """checks the model to a depth and replays walks over its transitions; quick and thorough are (depth, cap)"""
    depth, cap = quick if tier == "quick" else thorough
    cases = histories(ck, rng, module, depth, cap=cap, length=length, sample=0 if tier == "quick" else 60)
    for part in (cases[i:i + 800] for i in range(0, len(cases), 800)):
        ck.run(part, kind, maxn=4000)
    if tier != "quick":
        ck.run([dict(c, id=c["id"] + "s") for c in rng.sample(cases, min(len(cases), 200))], "asan", maxn=4000)


# lemma models spec/LM_*.tla: TLC decides laws of the specification itself (the property's own statement, or another
# formulation of it) on every input up to a bound; per property (module, quick parameters, thorough parameters)
LEMMAS = {
    "C02": [("LM_Num", dict(SMALL=8, DEEP=0), dict(SMALL=24, DEEP=1)), ("LM_Expr", dict(LEN=2), dict(LEN=3))],
    "C03": [("LM_Flow", dict(RANGE=2), dict(RANGE=4))],
    "C10": [("LM_Layout", dict(LEN=3), dict(LEN=4))],
    "C11": [("LM_Trace", dict(DEPTH=3), dict(DEPTH=4))],
    "C17": [("LM_Text", dict(LEN=4), dict(LEN=6))],
    "C18": [("LM_Date", dict(FROM=1590, TO=2010), dict(FROM=1, TO=4000)), ("LM_Date", dict(FROM=-20, TO=20), dict(FROM=-32767, TO=-30000))],
    "C20": [("LM_Ped", dict(LEN=2), dict(LEN=4))],
}


def lemma(pid, tier):
    """checks the property's lemma models; returns their statistics"""
    out = {}
    for module, quick, thorough in LEMMAS.get(pid, []):
        par = quick if tier == "quick" else thorough
        rc, o = pe2.tlc(module, cfg="Lemma.cfg", env={k: str(v) for k, v in par.items()}, workers=2, mem="3g", timeout=850 if tier == "quick" else 7000)
        if rc != 0:
            raise pe2.TLCFailure("lemma %s: TLC exit %d\n%s" % (module, rc, pe2.tlc_error(o)))
        st = pe2.STATS.findall(o)[-1]
        out[module] = dict(par, states=int(st[1]))
    return out
