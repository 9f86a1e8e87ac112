#!/usr/bin/env python3
"""python3 harness/check.py <property> [--tier quick|thorough] [--seed N]

Generates inputs for one property, runs them through the interpreter built from
/repo's working tree and lets TLC decide every run against the specification."""
import argparse, concurrent.futures, hashlib, importlib, json, os, random, re, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc, pe2

EVID = os.environ.get("PE2_EVID", os.path.join(pe2.VERIF, "evidence"))
KNOWN = os.path.join(pe2.VERIF, "known_findings.txt")


def known_findings(pid):
    """{case digest: text} of the findings recorded for this property"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", ln)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def digest(case):
    h = hashlib.sha256()
    for r in case["runs"]:
        h.update(r["mode"].encode() + b"\0" + r["src"] + b"\0" + r.get("inp", b"") + (b"P" if r.get("ped") else b"-") + (repr(r["pre"]).encode() if r.get("pre") else b""))
    for n in sorted(case.get("files", {})):
        h.update(n + b"\0" + case["files"][n])
    for n in sorted(case.get("special", {})):
        h.update(n + case["special"][n].encode())
    return h.hexdigest()[:16]


def readable(case):
    def t(b):
        return b.decode("latin1")
    d = {"id": case["id"], "runs": [{"mode": r["mode"], "pedantic": bool(r.get("ped")), "program": t(r["src"]), "stdin": t(r.get("inp", b"")),
             **({"above": "%d times %r" % r["pre"]} if r.get("pre") else {})}
                                    for r in case["runs"]]}
    if case.get("files"):
        d["files"] = {t(n): t(b) for n, b in case["files"].items()}
    if case.get("special"):
        d["special"] = {t(n): k for n, k in case["special"].items()}
    return d


def editable(b):
    return b and all(len(l) < 75 and all(32 <= c < 127 for c in l) for l in b.split(b"\n"))


class Checker:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.box = pe2.Box()
        self.dm = pe2.div_mode(self.box)
        self.n = dict(ok=0, open=0, bad=0)
        self.states = self.transitions = 0
        self.distinct = set()
        self.openwhy, self.samples, self.viol, self.errs = {}, [], [], {}
        self.extra = {}
        self.known = known_findings(pid)
        self.kind_n = {}
        rep = os.path.join(EVID, "replay")
        if os.path.isdir(rep):
            for f in os.listdir(rep):
                if f.startswith(pid + "-"):
                    os.unlink(os.path.join(rep, f))

    def run(self, cases, kind="plain", maxn=2500, timeout=700):
        for i, c in enumerate(cases):
            if re.search(r"[^A-Za-z0-9._-]", c["id"]):
                c["id"] = re.sub(r"[^A-Za-z0-9._-]+", "_", c["id"]) + "_%d" % i
            for r in c["runs"]:
                r.setdefault("dm", self.dm)
            # some of the cases the line editor (of the shipped build) shows unchanged are run with it
            if "kind" not in c and i % 6 == 0 and all(editable(r.get("inp", b"")) for r in c["runs"]):
                c["kind"] = {"plain": "rl", "asan": "rlasan"}[kind]
            k = c.get("kind", kind)
            self.kind_n[k] = self.kind_n.get(k, 0) + 1
        recs = pe2.run_cases(self.box, cases, kind)
        v, st = pe2.validate(recs, maxn=maxn, timeout=timeout)
        self.states += st["states"]
        self.transitions += st["transitions"]
        byid = {c["id"]: (c, r) for c, r in zip(cases, recs)}
        bad = []
        for cid, (verdict, run, why) in v.items():
            c, rec = byid[cid]
            self.n[verdict] += 1
            for r in rec["runs"]:
                for d in r["diags"]:
                    self.errs[d["k"]] = self.errs.get(d["k"], 0) + 1
            if verdict == "ok":
                self.distinct.add(digest(c))
                if len(self.samples) < 3 and len(c["runs"][0]["src"]) + len(c["runs"][0].get("inp", b"")) < 900:
                    self.samples.append(readable(c))
            elif verdict == "open":
                self.openwhy[why] = self.openwhy.get(why, 0) + 1
            else:
                bad.append((c, rec, why, pe2.detail(st["raw"], cid)))
        if bad:
            self.confirm(bad[:12], kind, maxn)
        return v

    def confirm(self, bad, kind, maxn):
        again = pe2.run_cases(self.box, [dict(c, steps=2000000, timeout=60) for c, _, _, _ in bad], kind)
        v, st = pe2.validate(again, maxn=maxn)
        for (c, rec, why, det), r2 in zip(bad, again):
            if v[c["id"]][0] != "bad":
                self.n["bad"] -= 1
                self.n[v[c["id"]][0]] += 1
                self.extra["unconfirmed"] = self.extra.get("unconfirmed", 0) + 1
                print("note: rejection of %s not confirmed by a second run" % c["id"])
                continue
            dg = digest(c)
            if dg in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[dg]))
                continue
            self.report(c, r2, v[c["id"]][2], pe2.detail(st["raw"], c["id"]), c.get("kind", kind))

    def report(self, c, rec, why, det, kind):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.viol) + 1))
        obs = [{"exit": r["exit"], "stdout": bytes(r["out"]).decode("latin1"), "stderr": r["_err"], "diagnostics": r["diags"]}
               for r in rec["runs"]]
        case = {"id": c["id"], "files": {n.hex(): b.hex() for n, b in c.get("files", {}).items()},
                "special": {n.hex(): k for n, k in c.get("special", {}).items()},
                "runs": [{k: (x.hex() if isinstance(x, bytes) else [x[0], x[1].hex()] if k == "pre" and x else x) for k, x in r.items()} for r in c["runs"]]}
        json.dump({"property": self.pid, "why": why, "build": kind, "case": readable(c), "observed": obs, "specification": det,
                   "replay_with": "python3 harness/check.py --replay " + p, "raw": case}, open(p, "w"), indent=1)
        self.viol.append(p)
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("  %s: %s" % (c["id"], why))
        sys.stdout.flush()

    def evidence(self, gen):
        lvl = gen.LEVEL.get(self.pid, "exploration")
        cov = {"evaluations": sum(self.n.values()), "distinct_nontrivial": len(self.distinct),
               "rule": gen.RULE[self.pid] + ("  Before that TLC checks the property itself on every history over the alphabets of the listed models (to the given depth; one representative per state), and walks covering their transitions are replayed." if "models" in self.extra else "") + ("  TLC also decides the laws stated in the listed lemma models on every input up to their bounds." if "lemmas" in self.extra else "") + "  Counted as non-trivial: cases with distinct texts whose whole behaviour the specification determined and accepted.",
               "samples": self.samples, "states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.n["ok"] + self.n["bad"],
               "left_open_by_the_specification": self.openwhy, "diagnostics_observed": self.errs, "builds": self.kind_n,
               "div_mode": self.dm}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": lvl, "coverage": cov,
              "assumptions": ["the specification in spec/ states what the property and the language documentation determine",
                              "TLC evaluates the specification correctly",
                              "runs of a build of the working tree with PE2_VERIF (execution budget only) behave as the shipped program"],
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)


def load_case(p):
    raw = json.load(open(p))
    c = raw["raw"]
    return {"id": c["id"], "files": {bytes.fromhex(n): bytes.fromhex(b) for n, b in c["files"].items()},
            "special": {bytes.fromhex(n): k for n, k in c["special"].items()},
            "runs": [{k: (bytes.fromhex(x) if k in ("src", "inp") else (x[0], bytes.fromhex(x[1])) if k == "pre" and x else x) for k, x in r.items()} for r in c["runs"]]}, raw["build"], raw["property"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        case, kind, pid = load_case(a.replay)
        box = pe2.Box()
        try:
            rec = pe2.run_case(box, case, kind)
            v, st = pe2.validate([rec])
            pe2.show(rec, v[case["id"]])
            print(pe2.detail(st["raw"], case["id"]))
            return 1 if v[case["id"]][0] == "bad" else 0
        finally:
            box.close()
    gen = importlib.import_module("props")
    ck = None
    try:
        ck = Checker(a.pid, a.tier, a.seed)
        rng = random.Random("%s/%d" % (a.pid, a.seed))
        with concurrent.futures.ThreadPoolExecutor(1) as ex:
            lem = ex.submit(mc.lemma, a.pid, a.tier)
            gen.CHECKS[a.pid](ck, rng, a.tier)
            lem = lem.result()
        if lem:
            ck.extra["lemmas"] = lem
            ck.states += sum(x["states"] for x in lem.values())
        ck.evidence(gen)
        print("%s %s: %s, open: %s, diagnostics: %s, %d states, %.0f s" %
              (a.pid, a.tier, ck.n, ck.openwhy, ck.errs, ck.states, time.time() - ck.t0))
        return 1 if ck.viol else 0
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if ck:
            ck.box.close()


if __name__ == "__main__":
    sys.exit(main())
