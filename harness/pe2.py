"""Builds the interpreter from /repo's working tree, runs it in scratch
directories and hands what was observed to TLC (spec/Trace.tla), which decides
whether the specification allows it.  No oracle lives in this file."""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, stat, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("PE2_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SCRATCH = os.environ.get("PE2_SCRATCH", tempfile.gettempdir())
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
TLAMODS = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
NOBODY = 65534


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- building
FLAGS = {
    "plain": ["-O1", "-g0"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,null,bounds,return,unreachable,vptr,object-size,alignment",
             "-fno-sanitize-recover=all"],
}
# with the line editor, as the shipped program
FLAGS["rl"] = FLAGS["plain"] + ["-DREADLINE"]
FLAGS["rlasan"] = FLAGS["asan"] + ["-DREADLINE"]


def sources():
    cm = open(os.path.join(REPO, "CMakeLists.txt"), errors="replace").read()
    cm = re.sub(r"#.*", "", cm)
    fs = [f for f in re.findall(r"[\w./-]+\.(?:cpp|cc|cxx)", cm) if os.path.exists(os.path.join(REPO, f))]
    fs = list(dict.fromkeys(fs))
    if not fs:
        for d, _, names in os.walk(os.path.join(REPO, "src")):
            fs += [os.path.relpath(os.path.join(d, n), REPO) for n in names if n.endswith(".cpp")]
    return sorted(fs)


def version():
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
    return m.groups() if m else ("1", "0", "1")


def tree_hash():
    h = hashlib.sha256()
    for base in ("src",):
        for d, dirs, names in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for n in sorted(names):
                p = os.path.join(d, n)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    for n in ("CMakeLists.txt", "PsConfig.h.in"):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def build(kind):
    """path of an executable of the working tree, hooks on"""
    key = tree_hash()
    out = os.path.join(BUILD, kind + "-" + key)
    exe = os.path.join(out, "pe2")
    if os.path.exists(exe):
        os.utime(out)
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD)
    ver = version()
    cfg = open(os.path.join(REPO, "PsConfig.h.in")).read()
    for n, v in zip(("MAJOR", "MINOR", "PATCH"), ver):
        cfg = cfg.replace("@PseudoEngine2_VERSION_%s@" % n, v)
    open(os.path.join(tmp, "PsConfig.h"), "w").write(cfg)
    base = ["-std=c++20", "-DPE2_VERIF", "-w", "-I" + os.path.join(REPO, "src"), "-I" + tmp] + FLAGS[kind]
    srcs = sources()
    # one precompiled header for the common prefix
    pch = os.path.join(REPO, "src/pch.h")
    inc = []
    if os.path.exists(pch):
        os.makedirs(os.path.join(tmp, "pch"))
        shutil.copy(pch, os.path.join(tmp, "pch", "pe2pch.h"))
        r = subprocess.run(["g++"] + base + ["-x", "c++-header", os.path.join(tmp, "pch", "pe2pch.h"),
                                             "-o", os.path.join(tmp, "pch", "pe2pch.h.gch")], capture_output=True, text=True)
        if r.returncode == 0:
            inc = ["-include", os.path.join(tmp, "pch", "pe2pch.h")]

    def comp(f):
        o = os.path.join(tmp, f.replace("/", "_") + ".o")
        r = subprocess.run(["g++"] + base + inc + ["-c", os.path.join(REPO, f), "-o", o], capture_output=True, text=True)
        return o, r.returncode, r.stderr
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(comp, srcs))
    bad = [r for r in res if r[1]]
    if bad:
        shutil.rmtree(tmp, ignore_errors=True)
        raise HarnessError("build failed:\n" + bad[0][2][:3000])
    r = subprocess.run(["g++"] + FLAGS[kind] + [o for o, _, _ in res] + ["-o", os.path.join(tmp, "pe2")] + (["-lreadline"] if kind.startswith("rl") else []), capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise HarnessError("link failed:\n" + r.stderr[:3000])
    for o, _, _ in res:
        os.unlink(o)
    shutil.rmtree(os.path.join(tmp, "pch"), ignore_errors=True)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    prune()
    return exe


def prune(keep=12):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    ds = [d for d in ds if os.path.isdir(d) and os.path.exists(os.path.join(d, "pe2"))]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- running
class Box:
    """a scratch area readable by the unprivileged user the interpreter runs as"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="pe2-", dir=SCRATCH)
        os.chmod(self.dir, 0o755)
        self.exe = {}
        self.n = 0
        self.drop = os.geteuid() == 0
        if self.drop:
            p = subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[])
            self.drop = p.returncode == 0

    def exe_for(self, kind):
        if kind not in self.exe:
            dst = os.path.join(self.dir, "pe2-" + kind)
            shutil.copy(build(kind), dst)
            os.chmod(dst, 0o755)
            self.exe[kind] = dst
        return self.exe[kind]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


SAN_RE = re.compile(rb"AddressSanitizer|runtime error:|LeakSanitizer|terminate called|Assertion '")
BUDGET = b"verification budget"


LAUNCHES = {
    "plain": 'ulimit -c 0; ulimit -f 131072; ulimit -s 524288 2>/dev/null; ulimit -v 3000000; exec "$0" "$@"',
    "asan": 'ulimit -c 0; ulimit -f 131072; ulimit -s 524288 2>/dev/null; exec "$0" "$@"',
}

DIAG_RT = re.compile(rb"Runtime Error in file ([^\n]*?)(?::)?\n")
DIAG_SY = re.compile(rb"^(Syntax Error|Error\(pedantic\)|Error) on line (-?\d+), column (-?\d+) of ", re.M)
FRAME = re.compile(rb"^(.*), line (\d+), column (\d+)$")


def parse_diags(err):
    """the diagnostics printed on stderr, in order"""
    # the line editor rings the bell on the same stream
    ds, lines, i = [], err.replace(b"\x07", b"").split(b"\n"), 0
    while i < len(lines):
        ln = lines[i]
        m = DIAG_SY.match(ln)
        if ln.startswith(b"Runtime Error in file "):
            j = i + 1
            while j < len(lines) and lines[j] != b"Traceback:":
                j += 1
            fr = []
            j += 1
            cols = []
            while j < len(lines):
                f = FRAME.match(lines[j])
                if not f:
                    break
                fr.append(int(f.group(2)))
                cols.append(int(f.group(3)))
                j += 1
            info = b"\n".join(lines[i + 1:])
            if BUDGET in info:
                fr = []
            ds.append({"k": "budget" if BUDGET in info else "runtime", "lines": fr, "l": fr[0] if fr else 0,
                       "c": cols[0] if cols else 0})
            i = j
        elif m:
            k = {b"Syntax Error": "syntax", b"Error(pedantic)": "pedantic", b"Error": "other"}[m.group(1)]
            j = i + 1
            while j < len(lines) and not DIAG_SY.match(lines[j]) and not lines[j].startswith(b"Runtime Error in file "):
                j += 1
            info = b" ".join(lines[i + 1:j])
            ds.append({"k": k, "lines": [], "l": int(m.group(2)), "c": int(m.group(3)),
                       "w": [w for w, x in PEDWORDS if re.search(x, info, re.I)] if k == "pedantic" else []})
            i += 1
        elif ln.startswith(b"Expected filename") or ln.startswith(b"Error: File '"):
            ds.append({"k": "other", "lines": [], "l": 0, "c": 0})
            i += 1
        else:
            i += 1
    return ds


# the constructs a pedantic error can name
PEDWORDS = [("BREAK", rb"\bBREAK\b"), ("CONTINUE", rb"\bCONTINUE\b"), ("ELSE IF", rb"\bELSE ?IF\b"), ("cast", rb"cast|conver"), ("undeclared", rb"declare|undefined")]

WARN = re.compile(rb"Warning on line \d+ column \d+: Comparison result is ignored[^\n]*\n")


def b2l(b):
    return list(b)


def execute(exe, kind, mode, src, ped, inp, cwd, drop, timeout=20, steps=200000, prog="prog.psc", via_p=None, used=[0]):
    """one run; returns (out, err, exit); used[0]: how much of its input file it has read"""
    args = ["/bin/sh", "-c", LAUNCHES["asan" if "asan" in kind else "plain"], exe]
    if ped:
        args.append(via_p or "--pedantic")
    if mode == "file":
        args.append(prog)
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC", "PE2_STEPS": str(steps), "PE2_DEPTH": "4000", "PE2_CELLS": "200000",
           "ASAN_OPTIONS": "max_allocation_size_mb=1024:hard_rss_limit_mb=2500:detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1",
           "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=99"}
    kw = {}
    if drop:
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    # file mode reads from a file, so that it can be seen whether anything was read
    fin = None
    if mode == "file":
        fin = tempfile.TemporaryFile()
        fin.write(inp)
        fin.flush()
        os.lseek(fin.fileno(), 0, os.SEEK_SET)
    p = subprocess.Popen(args, stdin=fin or subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True, **kw)
    try:
        out, err = p.communicate(None if fin else inp, timeout=timeout)
        if fin:
            used[0] = os.lseek(fin.fileno(), 0, os.SEEK_CUR)
            fin.close()
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return out, err, -2
    rc = p.returncode
    if b"requested allocation size" in err or b"out of memory" in err or b"rss limit" in err or b"allocation-size-too-big" in err \
       or b"std::bad_alloc" in err or (b"stack-overflow" in err):
        return out, err, -2 if b"stack-overflow" not in err else -3
    if rc < 0 or rc == 99 or SAN_RE.search(err):
        return out, err, -1
    return out, err, rc


def run_case(box, case, kind="plain"):
    """case: dict(id, files={name: bytes}, special={name: kind}, runs=[dict(mode, src, ped, inp, fl?)]).
    Returns the record for TLC."""
    kind = case.get("kind", kind)
    exe = box.exe_for(kind)
    box.n += 1
    cwd = tempfile.mkdtemp(prefix="r-", dir=box.dir)
    try:
        special = case.get("special", {})
        for n, b in case.get("files", {}).items():
            with open(os.path.join(cwd.encode(), n), "wb") as f:
                f.write(b)
            os.chmod(os.path.join(cwd.encode(), n), 0o666)
            if box.drop:
                os.chown(os.path.join(cwd.encode(), n), NOBODY, NOBODY)
        for n, k in special.items():
            p = os.path.join(cwd.encode(), n)
            if k == "full":
                os.symlink(b"/dev/full", p)
            elif k == "dir":
                os.mkdir(p)
            elif k == "locked":
                open(p, "wb").close()
                os.chmod(p, 0)
            # "missing": a path in a directory that does not exist
        os.chmod(cwd, 0o777)
        runs = []
        for r in case["runs"]:
            src = r["src"]
            if r["mode"] == "file":
                pp = os.path.join(cwd, ".prog")
                n, above = r.get("pre") or (0, b"")       # lines without tokens put above the program
                with open(pp, "wb") as f:
                    f.write((above + b"\n") * n + src)
                os.chmod(pp, 0o644)
            used = [0]
            out, err, rc = execute(exe, kind, r["mode"], src, r.get("ped", False), r.get("inp", b""), cwd, box.drop,
                                   prog=".prog", timeout=case.get("timeout", 20), steps=case.get("steps", 200000),
                                   via_p=r.get("via_p"), used=used)
            after = []
            for n in sorted(os.listdir(cwd.encode())):
                p = os.path.join(cwd.encode(), n)
                if n == b".prog" or n in special:
                    continue
                st = os.lstat(p)
                if stat.S_ISREG(st.st_mode):
                    try:
                        data = open(p, "rb").read()
                    except OSError:
                        data = b""
                    after.append({"n": b2l(n), "b": b2l(data) if len(data) <= case.get("maxfile", 20000) else []})
                else:
                    after.append({"n": b2l(n), "b": []})
            ds = parse_diags(err)
            ex = rc
            if any(d["k"] == "budget" for d in ds):
                ex = -2
            if ex == -3 or ex == -2 and case.get("strictmem") and not any(d["k"] == "budget" for d in ds):
                ex = -1
            if ex == -2:
                out = out[:100000]
            runs.append({"mode": r["mode"], "src": b2l(src if r["mode"] == "file" else b""), "ped": bool(r.get("ped", False)),
                         "dm": r.get("dm", "trunc"), "inp": b2l(r.get("inp", b"")), "ver": b2l(".".join(version()).encode()),
                         "out": b2l(WARN.sub(b"", out)), "exit": ex, "diags": ds, "after": after, "fl": r.get("fl", 0), "pre": (r.get("pre") or (0,))[0], "ln": bool(r.get("ln", False)), "lite": bool(r.get("lite", False)), "rl": kind.startswith("rl"), "used": used[0],
                         "_err": err[-2000:].decode("latin1")})
            if rc < 0:
                break
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    return {"id": case["id"], "files": [{"n": b2l(n), "b": b2l(b)} for n, b in case.get("files", {}).items()],
            "special": [{"n": b2l(n), "k": "full" if k == "full" else "deny"} for n, k in special.items()],
            "runs": runs}


def run_cases(box, cases, kind="plain"):
    for k in sorted({c.get("kind", kind) for c in cases} | {kind}):
        box.exe_for(k)
    slow = []

    def one(c):
        # a tree that hangs often must not use up the time of the whole check
        t0 = time.time()
        lim = c.get("timeout", 20)
        r = run_case(box, dict(c, timeout=min(lim, 3)) if len(slow) > 12 else c, kind)
        if time.time() - t0 > lim:
            slow.append(1)
        return r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, cases))


PROBE = b"OUTPUT (0-7) DIV 2\nOUTPUT 7 DIV (0-2)\n"


def div_mode(box):
    r = run_case(box, {"id": "probe", "runs": [{"mode": "file", "src": PROBE}]})
    o = bytes(r["runs"][0]["out"])
    return {b"-4\n-4\n": "floor", b"-4\n-3\n": "euclid"}.get(o, "trunc")


# ---------------------------------------------------------------- TLC
def java(mem):
    return ["java", "-Xss256m", "-Xmx" + mem, "-XX:+UseParallelGC", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
            "-cp", TLAJAR + ":" + TLAMODS]


def tlc_error(o):
    """the error lines of TLC's output, without the (long) state"""
    i = o.find("Error:")
    return o[-3000:] if i < 0 else o[i:i + 1500] + "\n...\n" + o[-2500:]


class TLCFailure(HarnessError):
    pass


def tlc(module, cfg=None, env=None, workers=2, mem="4g", timeout=800, args=(), spec=SPEC):
    """returns TLC's output; raises if TLC itself failed"""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=SCRATCH)
    e = dict(os.environ)
    e.update(env or {})
    try:
        cmd = java(mem) + ["tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config",
                           cfg or module + ".cfg"] + list(args) + [module + ".tla"]
        p = subprocess.run(cmd, cwd=spec, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        raise TLCFailure("TLC timed out: " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


VERD = re.compile(r'<<"VERDICT", "([^"]*)", "(ok|open|bad)", (\d+), "([^"]*)">>')
DETAIL = re.compile(r'<<\s*"DETAIL",\s*"([^"]*)"')
STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def validate(records, maxn=2500, procs=None, mem=None, timeout=800, module="Trace"):
    """verdict per case id from TLC: dict id -> (verdict, run, why); plus statistics"""
    if not records:
        return {}, {"states": 0, "transitions": 0}
    size = sum(sum(len(r["out"]) + len(r["src"]) + len(r["inp"]) for r in c["runs"]) + 200 for c in records)
    if procs is None:
        procs = max(1, min(NCPU, 4, (len(records) + 249) // 250))
    # deal the records so that every process gets a similar load
    order = sorted(range(len(records)), key=lambda i: -sum(len(r["out"]) + len(r["src"]) + len(r["inp"]) for r in records[i]["runs"]))
    parts = [[] for _ in range(procs)]
    for j, i in enumerate(order):
        parts[j % procs].append(records[i])
    tmp = tempfile.mkdtemp(prefix="tr-", dir=SCRATCH)
    mem = mem or ("%dm" % max(1500, min(6000, 20000 // procs)))
    try:
        def one(j):
            f = os.path.join(tmp, "t%d.ndjson" % j)
            with open(f, "w") as fh:
                for c in parts[j]:
                    fh.write(json.dumps({"id": c["id"], "files": c["files"], "special": c["special"],
                                         "runs": [{k: v for k, v in r.items() if not k.startswith("_")} for r in c["runs"]]}) + "\n")
            return tlc(module, env={"TRACE": f, "MAXN": str(maxn)}, workers=max(1, NCPU // procs), mem=mem, timeout=timeout)
        with cf.ThreadPoolExecutor(procs) as ex:
            outs = list(ex.map(one, range(procs)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    verdicts, st, tr, details = {}, 0, 0, {}
    for rc, o in outs:
        for m in VERD.finditer(re.sub(r"\s+", " ", o).replace("<< ", "<<").replace(" >>", ">>")):
            verdicts[m.group(1)] = (m.group(2), int(m.group(3)), m.group(4))
        s = STATS.findall(o)
        if s:
            tr += int(s[-1][0])
            st += int(s[-1][1])
        if rc != 0:
            raise TLCFailure("TLC failed (exit %d):\n%s" % (rc, tlc_error(o)))
    miss = [c["id"] for c in records if c["id"] not in verdicts]
    if miss:
        raise TLCFailure("no verdict for %s\n%s" % (miss[:5], outs[0][1][-3000:]))
    return verdicts, {"states": st, "transitions": tr, "raw": [o for _, o in outs]}


# ---------------------------------------------------------------- command line, for development
def show(rec, verdict, raw=None):
    for r in rec["runs"]:
        print("--- src" if r["mode"] == "file" else "--- repl input")
        print(bytes(r["src"] if r["mode"] == "file" else r["inp"]).decode("latin1"))
        print(("--- out (exit %d) %s" % (r["exit"], r["diags"]))[:600])
        print(bytes(r["out"]).decode("latin1"))
        print("--- err\n" + r["_err"])
    print("VERDICT", verdict)


def detail(raw, cid):
    """TLC's explanation of a rejection, with code sequences turned into text"""
    for o in raw:
        i = o.find('<<"DETAIL", "%s"' % cid)
        if i < 0:
            m = re.search(r'<<\s*"DETAIL",\s*"%s"' % re.escape(cid), o)
            i = m.start() if m else -1
        if i >= 0:
            j = o.find('"VERDICT"', i)
            t = o[i:j]

            def tx(m):
                ns = [int(x) for x in re.findall(r"-?\d+", m.group(0))]
                return repr("".join(chr(x) if 0 <= x < 256 else "\u2026" for x in ns))
            return re.sub(r"<<\s*-?\d+(?:\s*,\s*-?\d+){3,}\s*>>", tx, t)[:4000]
    return ""


if __name__ == "__main__":
    kind = os.environ.get("KIND", "plain")
    box = Box()
    try:
        cases = []
        for i, f in enumerate(sys.argv[1:]):
            src = open(f, "rb").read()
            if f.endswith(".repl"):
                cases.append({"id": f, "runs": [{"mode": "repl", "src": b"", "inp": src, "ln": True}]})
            else:
                cases.append({"id": f, "runs": [{"mode": "file", "src": src, "ln": True}]})
        dm = div_mode(box)
        for c in cases:
            for r in c["runs"]:
                r["dm"] = dm
        recs = run_cases(box, cases, kind)
        v, st = validate(recs)
        for r in recs:
            if v[r["id"]][0] != "ok" or os.environ.get("SHOW"):
                show(r, v[r["id"]])
                print(detail(st["raw"], r["id"]))
        print({k: st[k] for k in ("states", "transitions")}, {x: sum(1 for y in v.values() if y[0] == x) for x in ("ok", "open", "bad")})
    finally:
        box.close()
