"""setup_cmd: build the interpreter in both configurations and parse the specification"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pe2
for k in ("plain", "asan", "rl", "rlasan"):
    print(pe2.build(k))
p = subprocess.run(["java", "-cp", pe2.TLAJAR + ":" + pe2.TLAMODS, "tla2sany.SANY", "Trace.tla"], cwd=pe2.SPEC, capture_output=True, text=True)
print(p.stdout[-300:])
sys.exit(0 if p.returncode == 0 else 1)
