"""development: do the lines a seeded bug's patch removes (or, for a pure insertion, its neighbours) come from the original repository?"""
import re, subprocess, sys
BASE = "9b7bedc"
for id in sys.argv[1:]:
    f, n, bad, rem = None, 0, [], 0
    for l in open("/verif/seeded/%s/patch.diff" % id):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l[:1] == " ": n += 1
        elif f and l[:1] == "-" and not l.startswith("---"):
            rem += 1
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (n, n), BASE + "..HEAD", "--", f], capture_output=True, text=True).stdout
            if not b.startswith("^"): bad.append((f, n, l.strip()))
            n += 1
    print(id, "original" if rem and len(bad) < rem else "NOT ORIGINAL (%d removed)" % rem, bad[:3])
