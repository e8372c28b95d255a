"""Regenerates the two hint files that steer the generators (never a verdict):
vf/constants.json   - how often each number occurs in the library (dictionary baseline)
vf/unexplored.json  - per check, code that its ordinary campaign does not reach on this tree
Usage: gen_hints.py [Cxx ...]     (run on the tree the properties were established on)"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv/bin/python"


def main(ids):
    sys.path.insert(0, HERE)
    f = os.path.join(HERE, "vf", "unexplored.json")
    out = json.load(open(f)) if os.path.exists(f) else {}
    if not ids:
        src = ("import sys, json; sys.path[:0] = [%r]; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages');"
               "from vf import gen; print(json.dumps({repr(k): v for k, v in sorted(gen.constants().items())}, indent=0))" % HERE)
        c = subprocess.run([VENV, "-c", src], capture_output=True, text=True, check=True).stdout
        open(os.path.join(HERE, "vf", "constants.json"), "w").write(c)
        src = src.replace("{repr(k): v for k, v in sorted(gen.constants().items())}", "dict(sorted(gen.strings().items()))")
        c = subprocess.run([VENV, "-c", src], capture_output=True, text=True, check=True).stdout
        open(os.path.join(HERE, "vf", "strings.json"), "w").write(c)
        out = {}
        ids = ["C%02d" % i for i in range(1, 34)]
    for pid in ids:
        u = set(map(tuple, out.get(pid, [])))
        for seed in ("1", "2", "3"):
            env = dict(os.environ, VERIF_SEED=seed, VERIF_EXTRA="0", VERIF_SHOW_UNEXPLORED="1")
            r = subprocess.run([VENV, "check.py", pid, "--tier", "quick"], cwd=HERE, env=env, capture_output=True, text=True)
            for ln in r.stdout.splitlines():
                if ln.startswith("[["):
                    u |= {tuple(x) for x in json.loads(ln)}
        out[pid] = sorted(map(list, u))
        print(pid, len(u), flush=True)
        with open(f, "w") as g:
            json.dump(dict(sorted(out.items())), g, indent=0)


if __name__ == "__main__":
    main(sys.argv[1:])
