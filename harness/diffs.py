"""development aid: first difference between prediction and observation of each replay file"""
import json, sys, re
for p in sys.argv[1:]:
    d = json.load(open(p))
    run = int((re.search(r'"DETAIL", "[^"]*", (\d+)', re.sub(r"\s+", " ", d["specification"])) or [0, 1])[1]) - 1
    ob = d["observed"][run]; o = ob["stdout"]; s = d["specification"]
    c = d["case"]["runs"][run]
    print("==", p.split("/")[-1], d["case"]["id"], d["why"], "run", run, "exit", ob["exit"])
    if d["why"] == "output" and c["mode"] == "repl" or d["why"] == "output":
        t = s[s.index('"predicted output"'):]
        t = t[t.index(",") + 1:t.rindex('"error"')].strip().rstrip(",")
        try:
            e = eval(t)
        except Exception:
            e = t
        if isinstance(e, str):
            i = j = 0
            while i < len(e) and j < len(o):
                if e[i] == "\u2026":
                    while i < len(e) and e[i] != "\n": i += 1
                    while j < len(o) and o[j] != "\n": j += 1
                    continue
                if e[i] != o[j]: break
                i += 1; j += 1
            print("  observed ", repr(o[max(0, j - 40):j + 40])); print("  predicted", repr(e[max(0, i - 40):i + 40]))
            if c["mode"] == "repl":
                k = o[:j].count("> ") - 1 + 0
                inp = c["stdin"].split("\n"); n = o[:j].count("\n> ") + o[:j].count("\n. ")
                print("  entries", inp[max(0, n - 2):n + 1])
            else:
                print("  line", o[:j].count("\n") + 1)
                if "-v" in sys.argv: print(c["program"])
    else:
        print("  diags", ob["diagnostics"][-3:]); print("  stderr", ob["stderr"][-400:]); 
        print("  spec", re.sub(r"\s+", " ", s)[:300])
        print("  prog", repr((c["program"] or c["stdin"])[:1500]))
