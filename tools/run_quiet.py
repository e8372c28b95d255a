"""Development aid: run the checks on behaviour-preserving rewritings (tools/refactorings/*.diff), where they must
stay quiet.  usage: tools/run_quiet.py [-c C01,C02] [-j JOBS] [name ...]   (no names: all, applied together)"""
import argparse
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-c", default=",".join("C%02d" % i for i in range(1, 34)))
    ap.add_argument("-j", default="8")
    ap.add_argument("names", nargs="*")
    a = ap.parse_args()
    names = a.names or sorted(f[:-5] for f in os.listdir(HERE + "/refactorings") if f.endswith(".diff"))
    tmp = tempfile.mkdtemp(prefix="quiet_")
    try:
        repo, verif = tmp + "/repo", tmp + "/verif"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
        for n in names:
            r = subprocess.run(["git", "apply", "-C1", HERE + "/refactorings/%s.diff" % n], cwd=repo)
            print("with" if r.returncode == 0 else "without (it overlaps another)", n, flush=True)
        bad = 0
        for c in a.c.split(","):
            r = subprocess.run([sys.executable, "check.py", c, "quick"], cwd=verif, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_JOBS=a.j))
            print(c, r.returncode, r.stdout.strip()[-700:], r.stderr.strip()[-300:], flush=True)
            bad += r.returncode != 0
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp)


sys.exit(main())
