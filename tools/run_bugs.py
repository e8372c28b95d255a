"""run_bugs.py [--all-checks] [--new] [id ...]: quick checks against planted bugs, each in a scratch copy of the
repository; updates tools/bug_results.json (a development tool; no check uses it)."""
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "tools", "bug_results.json")


def main(argv):
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    every = "--all-checks" in argv
    ids = [a for a in argv if not a.startswith("-")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    if "--new" in argv:
        ids = [i for i in ids if i not in res]
    checks = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    for b in ids:
        d = os.path.join(HERE, "seeded", b)
        own = json.load(open(os.path.join(d, "meta.json")))["property"]
        w = "/tmp/vf_bug_%s" % b
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w, check=True)
        try:
            for c in checks if every else [own]:
                if every and c in res.get(b, {}):
                    continue
                env = dict(os.environ, VERIF_REPO=w, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
                if c != own:
                    env["VERIF_EXTRA"] = "0"
                r = subprocess.run([sys.executable, "check.py", c, "--tier", "quick"], cwd=HERE, env=env,
                                   capture_output=True, text=True)
                res.setdefault(b, {})[c] = r.returncode
                if c == own:
                    m = re.search(r"VIOLATION.*\n(.*)", r.stdout)
                    last = [x for x in r.stdout.splitlines() if x.startswith(c + " ")][-1:]
                    print(b, c, r.returncode, last, (m.group(1) if m else r.stderr[-300:])[:150], flush=True)
            print(b, sorted(c for c, x in res[b].items() if x == 1), flush=True)
            with open(OUT, "w") as f:
                json.dump(res, f, indent=0, sort_keys=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
