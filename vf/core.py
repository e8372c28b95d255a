"""Runner: Hypothesis campaigns sharded over processes, shrinking of concrete cases,
replay files, evidence, and the verdict lines."""
import ast
import collections
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import gen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """the library broke the property on this case"""


def lib(f, *a, **k):
    """call into the code under test: whatever it raises on a valid input breaks the property"""
    try:
        return f(*a, **k)
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = [x for x in tb if os.path.realpath(x.filename).startswith(os.path.realpath(REPO))]
        w = where[-1] if where else tb[-1]
        raise Violation("raises %s: %s (at %s:%s)" % (type(e).__name__, str(e)[:160], os.path.basename(w.filename),
                                                      w.lineno))


class Stats:
    def __init__(self):
        self.evals = 0
        self.hashes = set()
        self.c = collections.Counter()
        self.samples = []

    def merge(self, o):
        self.evals += o.evals
        self.hashes |= o.hashes
        self.c.update(o.c)
        self.samples += o.samples


def case_hash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(), digest_size=8).digest()


# ------------------------------------------------------------------ coverage of the code under test
_LINES = set()      # (file, qualified name, line)
_ARCS = set()       # (file, qualified name, line, offset, destination): outcomes of conditional jumps


def start_coverage():
    """lines executed and outcomes of conditional jumps in the library (cheap: each is reported until known)"""
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    root = os.path.realpath(os.path.join(REPO, "ta")) + os.sep
    try:
        mon.use_tool_id(3, "vf")
    except ValueError:
        return
    ok = {}

    def inside(f):
        r = ok.get(f)
        if r is None:
            r = ok[f] = os.path.realpath(f).startswith(root)
        return r

    def line(code, n):
        if inside(code.co_filename):
            _LINES.add((os.path.basename(code.co_filename), code.co_qualname, n))
        return mon.DISABLE

    where = {}
    seen = {}

    def branch(code, off, dest):
        if not inside(code.co_filename):
            return mon.DISABLE
        k = (code, off)
        w = where.get(k)
        if w is None:
            ln = code.co_firstlineno
            for a, b, n in code.co_lines():
                if a <= off < b and n:
                    ln = n
            w = where[k] = (os.path.basename(code.co_filename), code.co_qualname, ln, off)
        d = seen.setdefault(k, {})
        if dest not in d:
            d[dest] = 0
            _ARCS.add(w + (dest,))
        d[dest] += 1
        if len(d) > 1 or d[dest] > 20000:
            return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.register_callback(3, mon.events.BRANCH, branch)
    mon.set_events(3, mon.events.LINE | mon.events.BRANCH)


def library_functions():
    """(file, qualified name) -> executable lines, plus the source lines and the lines of raise statements"""
    out, text = {}, {}
    d = os.path.join(REPO, "ta")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py"):
            continue
        try:
            src = open(os.path.join(d, fn)).read()
            co = compile(src, fn, "exec")
            tree = ast.parse(src)
        except SyntaxError:
            continue
        text[fn] = src.splitlines()
        raises = set()
        for nd in ast.walk(tree):
            if isinstance(nd, ast.Raise):
                raises.update(range(nd.lineno, nd.end_lineno + 1))
        todo = [co]
        while todo:
            c = todo.pop()
            if c.co_flags & 0x1:
                ls = {ln for _, _, ln in c.co_lines() if ln and ln != c.co_firstlineno and ln not in raises}
                out.setdefault((fn, c.co_qualname), set()).update(ls)
            for k in c.co_consts:
                if hasattr(k, "co_code"):
                    todo.append(k)
    return out, text


def executable_lines(fns):
    return {(f, ln) for (f, q), ls in fns.items() for ln in ls}


def unexplored(lines, arcs, fns, text):
    """what was never reached inside functions that were reached: [(file, qualified name, source text, kind)]"""
    hit = collections.defaultdict(set)
    for f, q, n in lines:
        hit[f, q].add(n)
    out = set()

    def src(f, n):
        t = text.get(f, [])
        return " ".join(t[n - 1].split()) if 0 < n <= len(t) else ""

    for (f, q), ls in fns.items():
        if hit[f, q]:
            for n in ls - hit[f, q]:
                out.add((f, q, src(f, n), "line"))
    dests = collections.defaultdict(set)
    for f, q, n, off, dest in arcs:
        dests[f, q, n, off].add(dest)
    for (f, q, n, off), d in dests.items():
        if len(d) == 1:
            out.add((f, q, src(f, n), "branch"))
    return out


def known_unexplored(pid):
    f = os.path.join(VERIF, "vf", "unexplored.json")
    if not os.path.exists(f):
        return set()
    return {tuple(x) for x in json.load(open(f)).get(pid, [])}


# ------------------------------------------------------------------ worker side
_CHECK = None
_STOP = None
_DEADLINE = None


def _seed(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:6], "big")


class _StopShard(Exception):
    pass


def _shard(job):
    t0 = time.time()
    task, shard, n, seed, profile = job
    gen.PROFILE = profile
    import warnings
    warnings.simplefilter("ignore")
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st

    stats = Stats()
    found = []
    res = {"task": task, "stats": stats, "fail": None, "error": None, "skipped": 0}

    @st.composite
    def strat(draw):
        return _CHECK.generate(draw, task)

    @hypothesis.seed(_seed(seed, _CHECK.ID, task, shard, profile))
    @settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate,),
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False)
    @given(strat())
    def prop(case):
        if found:
            raise _StopShard()
        if _STOP.is_set() or time.time() > _DEADLINE:
            res["skipped"] += 1
            return
        stats.evals += 1
        try:
            nt = _CHECK.run(case, stats)
        except Violation as v:
            found.append((case, str(v)))
            raise _StopShard()
        except (ArithmeticError, AttributeError, LookupError, TypeError, ValueError) as e:
            # the oracles cope with every answer of a sound library
            found.append((case, "the answers are not of a kind that can be judged: %r in %s" % (
                e, traceback.extract_tb(e.__traceback__)[-1].name)))
            raise _StopShard()
        if nt:
            stats.hashes.add(case_hash(case))
            if len(stats.samples) < 1 and stats.evals > 3:
                stats.samples.append(_brief(case))

    try:
        prop()
    except _StopShard:
        pass
    except BaseException as e:  # noqa
        if not found:
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
    if found:
        if not os.environ.get("VERIF_KEEP"):
            _STOP.set()
        case, msg = found[0]
        try:
            case, msg = shrink(case, msg)
        except Exception as e:  # shrinking is a convenience
            msg += " [shrinking failed: %r]" % (e,)
        res["fail"] = (case, msg)
    res["lines"], res["arcs"] = set(_LINES), set(_ARCS)
    if os.environ.get("VERIF_TIMES"):
        print("%7.1fs %s %d" % (time.time() - t0, task, n), flush=True)
    return res


def _brief(case):
    def b(x):
        if isinstance(x, list) and len(x) > 12:
            return x[:6] + ["... %d values" % len(x)]
        if isinstance(x, dict):
            return {k: b(v) for k, v in x.items()}
        return x
    return b(case)


# ------------------------------------------------------------------ shrinking concrete cases
def _holds_invalid(case):
    d = case.get("data")
    if d is None or "high" not in d:
        return False
    for o, h, l, c, v in zip(d["open"], d["high"], d["low"], d["close"], d["volume"]):
        if not (0 < l <= min(o, c) and max(o, c) <= h and v >= 0):
            return True
    return not d["close"]


def shrink(case, msg, budget=float(os.environ.get("VERIF_SHRINK", 12))):
    t0 = time.time()
    best = [case, msg]

    def attempt(c):
        if time.time() - t0 > budget or _holds_invalid(c):
            return False
        try:
            _CHECK.run(c, Stats())
        except Violation as v:
            best[0], best[1] = c, str(v)
            return True
        except Exception:
            return False
        return False

    def cp():
        return json.loads(json.dumps(best[0]))

    def chunks(get, setr, minlen):
        size = max(1, len(get(best[0])) // 2)
        while size >= 1:
            i = 0
            while i < len(get(best[0])):
                n = len(get(best[0]))
                if n - size < minlen or time.time() - t0 > budget:
                    break
                c = cp()
                setr(c, i, min(n, i + size))
                if not attempt(c):
                    i += size
            if size == 1:
                break
            size //= 2

    # try the generator's own choices back to plain ones
    for k, v in (("index", "range"), ("index2", "range"), ("fill", True), ("fill", False), ("ints", [])):
        if k in best[0] and best[0][k] != v and not (k == "fill" and v is True and best[0][k] is False):
            c = cp(); c[k] = v
            attempt(c)
    for rnd in range(2):
        for key in ("data", "data2", "frame"):
            if isinstance(best[0].get(key), dict) and best[0][key]:
                def get(c, key=key):
                    return next(iter(c[key].values()))

                def setr(c, i, j, key=key):
                    for k in c[key]:
                        c[key][k] = c[key][k][:i] + c[key][k][j:]
                chunks(get, setr, 0 if key == "frame" else 1)
        if isinstance(best[0].get("ops"), list):
            chunks(lambda c: c["ops"], lambda c, i, j: c.__setitem__("ops", c["ops"][:i] + c["ops"][j:]), 1)
        p = best[0].get("params")
        if isinstance(p, dict):
            for k in list(p):
                v = p[k]
                if isinstance(v, int) and not isinstance(v, bool) and v > 1:
                    for nv in (1, 2, 3, v // 2, v - 1):
                        if nv < best[0]["params"][k]:
                            c = cp(); c["params"][k] = nv
                            if attempt(c):
                                break
        d = best[0].get("data")
        if isinstance(d, dict) and "high" in d:
            c = cp(); c["data"]["volume"] = [1.0] * len(c["data"]["volume"])
            attempt(c)
            c = cp(); c["data"]["open"] = list(c["data"]["close"])
            attempt(c)
            for dg in (0, 1, 2, 4):
                c = cp()
                for k in ("open", "high", "low", "close", "volume"):
                    c["data"][k] = [float(round(x, dg)) for x in c["data"][k]]
                if c["data"] != best[0]["data"] and attempt(c):
                    break
            m = min(best[0]["data"]["low"])
            for sub in (m - 1, m // 2):
                if sub > 0:
                    c = cp()
                    for k in ("open", "high", "low", "close"):
                        c["data"][k] = [x - sub for x in c["data"][k]]
                    if attempt(c):
                        break
    return best[0], best[1]


# ------------------------------------------------------------------ parent side
def _init(check, stop, deadline):
    global _CHECK, _STOP, _DEADLINE
    _CHECK, _STOP, _DEADLINE = check, stop, deadline


def load_known():
    f = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(f):
        return json.load(open(f)).get("findings", [])
    return []


def main(check, tier, seed, jobs=None):
    global _CHECK, _STOP, _DEADLINE
    t0 = time.time()
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    cap = float(os.environ.get("VERIF_CAP", 420 if tier == "quick" else 3000))
    deadline = t0 + cap
    _init(check, stop, deadline)
    start_coverage()
    scale = float(os.environ.get("VERIF_SCALE", 1.0)) * (getattr(check, "MORE", 1) if tier == "quick" else 1)
    joblist = []
    per = getattr(check, "PER", 200)
    only = os.environ.get("VERIF_ONLY")     # development aid: tasks by name
    for task, n in check.tasks(tier):
        if only and not set(task.split(":")) & set(only.split(",")):
            continue
        n = max(4, int(n * scale))
        k = max(1, (n + per - 1) // per) if tier == "quick" else max(1, (n + 399) // 400)
        for s in range(k):
            joblist.append((task, s, -(-n // k), seed, "normal"))
    # interleave the shards of different tasks so that a defect shows early
    joblist.sort(key=lambda j: (j[1], _seed(seed, j[0])))
    procs = jobs or int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    total = Stats()
    fails, errors = [], []
    lines = set()
    skipped = 0
    per_task = collections.Counter()
    arcs = set()
    fns, text = library_functions()
    extra = []

    def take(r):
        nonlocal skipped
        total.merge(r["stats"])
        per_task[r["task"]] += r["stats"].evals
        skipped += r["skipped"]
        lines.update(r["lines"])
        arcs.update(r["arcs"])
        if r["error"]:
            errors.append((r["task"], r["error"]))
        if r["fail"]:
            fails.append((r["task"],) + r["fail"])

    with ctx.Pool(procs) as pool:
        for r in pool.imap_unordered(_shard, joblist):
            take(r)
        # coverage feedback: code that was entered but not explored gets a second, wilder campaign
        todo = unexplored(lines, arcs, fns, text) - known_unexplored(check.ID)
        if os.environ.get("VERIF_SHOW_UNEXPLORED"):
            print(json.dumps(sorted(unexplored(lines, arcs, fns, text))))
        if os.environ.get("VERIF_WILD"):
            todo.add(("", "", "asked for", "env"))
        budget = float(os.environ.get("VERIF_EXTRA", 75 if tier == "quick" else 900))
        if todo and not fails and not errors and budget:
            extra = sorted(todo)
            t1 = time.time()
            owners = {q.split(".")[0] for _, q, _, _ in todo}
            names = [t for t, _ in check.tasks(tier)]
            pick = [t for t in names if t.split(":")[-1] in owners] if all(
                any(t.split(":")[-1] == o for t in names) for o in owners) else names
            rnd = 0
            while time.time() - t1 < budget and not fails and not errors and not skipped:
                js = []
                while len(js) < 4 * procs:
                    js += [(t, 1000 + rnd, 12, seed, "wild") for t in pick]
                    rnd += 1
                for r in pool.imap_unordered(_shard, js):
                    take(r)
                    if time.time() - t1 > 3 * budget:
                        stop.set()
    known = [k for k in load_known() if k.get("property") == check.ID and k.get("status") == "known"]
    code = 0
    if known:
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (check.ID, k["what"]))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    reported = 0
    for task, case, msg in sorted(fails, key=lambda f: len(json.dumps(f[1], default=str)))[:(3 if not os.environ.get("VERIF_KEEP") else 400)]:
        name = "%s-%s.json" % (check.ID, case_hash(case).hex())
        path = os.path.join(VERIF, "replays", name)
        with open(path, "w") as f:
            json.dump({"property": check.ID, "task": task, "message": msg, "case": case, "seed": seed}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        print("  %s: %s" % (task, msg))
        reported += 1
        code = 1
    if errors and not code:
        print("HARNESS-ERROR in %d shard(s); first: %s\n%s" % (len(errors), errors[0][0], errors[0][1]),
              file=sys.stderr)
        code = 2
    ex = executable_lines(fns)
    hit = {(f, n) for f, _, n in lines}
    samples = total.samples[:8]
    if not samples and fails:
        samples = [_brief(fails[0][1])]
    ev = {
        "property": check.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evals,
            "distinct_nontrivial": len(total.hashes),
            "rule": check.RULE,
            "samples": samples,
            "evaluations_per_task": dict(sorted(per_task.items())),
            "classes": {k: int(v) for k, v in sorted(total.c.items())},
            "library_lines_executed": len(hit & ex),
            "library_lines_in_functions": len(ex),
            "unexplored_code_that_triggered_the_second_campaign": [list(x) for x in extra[:20]],
            "skipped_by_time_cap": skipped,
        },
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": reported,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs%s" % (
        check.ID, tier, seed, total.evals, len(total.hashes), time.time() - t0,
        "" if code == 0 else (" -> VIOLATED" if code == 1 else " -> ERROR")))
    return code
