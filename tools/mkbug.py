"""development: helper used to write seeded bugs.
   bug(id, prop, [(file, old, new)...], needs, breaks, prog, expect_out, rc=0, stdin="", args="", extra="")"""
import json, os, shutil, subprocess, tempfile
SEED = "/verif/seeded"


def bug(id, prop, edits, needs, breaks, prog=None, expect=None, rc=0, stdin="", pre="", post="", repl=None, args="", script=None, err=None):
    t = tempfile.mkdtemp(prefix="mkbug.")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (t, t), shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(t)
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for n in ("prog.psc", "stdin.txt", "expect.txt"):
        if os.path.exists(d + "/" + n):
            os.unlink(d + "/" + n)
    if script is None:
        open(d + "/prog.psc", "w").write(prog or "")
        open(d + "/stdin.txt", "w").write(repl if repl is not None else stdin)
        open(d + "/expect.txt", "w").write(expect)
        cmd = '"$B" %s' % args if repl is not None else '"$B" %s prog.psc' % args
        flt = " | grep -v -e '^> $' -e '^PseudoEngine2 v' -e '^Enter ' | sed -e 's/^> //'" if False else ""
        script = """cp "$here/prog.psc" "$here/stdin.txt" .
%s
timeout 60 %s < stdin.txt > out.txt 2> err.txt%s
rc=$?
%s
cmp -s out.txt "$here/expect.txt" || { echo "output differs:"; diff out.txt "$here/expect.txt" | head -20; exit 1; }
[ $rc = %d ] || { echo "exit status $rc"; exit 1; }
%s""" % (pre, cmd, flt, post, rc, ("grep -q -e '%s' err.txt || { echo 'diagnostic differs'; cat err.txt; exit 1; }" % err) if err else "")
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd /repo after the build: exit 0 if the property's example holds
here=$(cd "$(dirname "$0")" && pwd)
B="$PWD/_build/PseudoEngine2"
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
""" + script + "\nexit 0\n")
