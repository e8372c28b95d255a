"""DESIGN.md = tools/design_head.md + the table of planted bugs (tools/bug_results.json, written by tools/run_bugs.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    f = os.path.join(HERE, "tools", "bug_results.json")
    res = json.load(open(f)) if os.path.exists(f) else {}
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip("\n"), ""]
    out += ["| planted bug | needs | own | others |", "|---|---|---|---|"]
    d = os.path.join(HERE, "seeded")
    caught = 0
    ids = sorted(os.listdir(d))
    for b in ids:
        m = json.load(open(os.path.join(d, b, "meta.json")))
        r = res.get(b, {})
        own = r.get(m["property"])
        caught += own == 1
        others = " ".join(sorted(c for c, x in r.items() if x == 1 and c != m["property"]))
        out.append("| %s | %s | %s | %s |" % (b, m["needs"].replace("|", "/"),
                                              {1: "caught", 0: "missed", None: "not run"}.get(own, "error"), others))
    out += ["", "%d planted bugs, %d caught by their own property's quick check." % (len(ids), caught), ""]
    tail = os.path.join(HERE, "tools", "design_tail.md")
    if os.path.exists(tail):
        out.append(open(tail).read().rstrip("\n"))
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out).rstrip("\n") + "\n")


if __name__ == "__main__":
    main()
