"""Driver of the bounded exhaustive checks.

A check is a module checks/cNN.py with

  PROPERTY, BOUNDS (text), ASSUMPTIONS (list of text), RULE (text)
  cases(tier)        -> list of JSON-able case descriptions; their order and number are fixed
  run_case(case, cx) -> explores the case on the real code; cx.step()/cx.state()/cx.trace() count,
                        cx.fail(msg, **data) reports a violation (raises)

Cases are split over worker processes; every case of the list is always executed.
Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was printed.
Any exception that escapes a case (the code under test, or the harness because the code under test
handed it something unusable) counts as a violation of that case.
"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.json")


class Violation(Exception):
    def __init__(self, msg, data=None):
        super(Violation, self).__init__(msg)
        self.msg = msg
        self.data = data or {}


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.generic,)):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


class Cx(object):
    """Counters of one worker."""

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.nontrivial = 0
        self.notes = {}
        self.samples = []

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).digest()[:8])

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(jsonable(s))

    def fail(self, msg, **data):
        raise Violation(msg, data)

    def check(self, ok, msg, **data):
        if not ok:
            raise Violation(msg, data)

    def close(self, got, want, msg, rtol=1e-4, atol=1e-5, **data):
        import numpy as np
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail(msg + ": shape %r, expected %r" % (got.shape, want.shape),
                      got=got, want=want, **data)
        if got.dtype == object or want.dtype == object:
            self.fail(msg + ": not numeric", got=got, want=want, **data)
        g, w = got.astype(np.float64), want.astype(np.float64)
        with np.errstate(all="ignore"):
            ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            i = tuple(int(v[0]) for v in np.nonzero(~np.atleast_1d(ok)))
            self.fail(msg + ": got %r, expected %r at %r" % (
                np.atleast_1d(got)[i], np.atleast_1d(want)[i], i), got=got, want=want, **data)


def load_known():
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"] if k.get("status") == "known"]
    except IOError:
        return []


def is_known(prop, case, known):
    for k in known:
        if k["property"] == prop and k.get("case") == case:
            return k
    return None


def run_one(mod, case, cx):
    """None, or a dict describing the violation."""
    try:
        cx.cases += 1
        mod.run_case(case, cx)
        return None
    except Violation as e:
        return {"case": case, "message": e.msg, "data": jsonable(e.data)}
    except Exception as e:  # noqa
        return {"case": case, "message": "unexpected %s: %s" % (type(e).__name__, str(e)[:600]),
                "data": {"traceback": traceback.format_exc()[-4000:]}}


def worker(modname, shard, tier, seed, wfd, max_bad):
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
        os.dup2(devnull, 1)
    out = os.fdopen(wfd, "w")
    cx = Cx(tier, seed)
    bad = []
    try:
        import tfshim
        tfshim.load()
        mod = importlib.import_module(modname)
        if hasattr(mod, "setup"):
            mod.setup(cx)
        for i, case in shard:
            out.write("C %d\n" % i)
            out.flush()
            r = run_one(mod, case, cx)
            if r is not None:
                r["index"] = i
                bad.append(r)
                if len(bad) >= max_bad:
                    break
    except BaseException as e:  # noqa
        bad.append({"case": None, "index": -1,
                    "message": "could not load the code under test: %r" % (e,),
                    "data": {"traceback": traceback.format_exc()[-4000:]}})
    out.write("R " + json.dumps({
        "states": [s.hex() for s in cx.states], "transitions": cx.transitions,
        "traces": cx.traces, "cases": cx.cases, "nontrivial": cx.nontrivial,
        "notes": cx.notes, "samples": cx.samples, "bad": bad}) + "\n")
    out.flush()
    os._exit(0)


def main(argv):
    t0 = time.time()
    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    except ValueError:
        seed = 0
    modname = "c" + prop[1:]
    replay = None
    if len(argv) > 2 and argv[1] == "--replay":
        with open(argv[2]) as f:
            replay = json.load(f)["case"]
    mod = importlib.import_module(modname)
    if replay is not None:
        allcases = [replay]
    else:
        allcases = mod.cases(tier)
        allcases = json.loads(json.dumps(allcases))
    ncpu = os.cpu_count() or 4
    nw = max(1, min(int(os.environ.get("VERIF_JOBS", ncpu)), 8, len(allcases)))
    nw = min(nw, getattr(mod, "MAX_WORKERS", 8))
    weights = getattr(mod, "weight", lambda c: 1)
    order = sorted(range(len(allcases)), key=lambda i: -weights(allcases[i]))
    shards = [[] for _ in range(nw)]
    load = [0.0] * nw
    for i in order:
        k = load.index(min(load))
        shards[k].append((i, allcases[i]))
        load[k] += weights(allcases[i])
    sys.stdout.flush()
    procs = []
    for sh in shards:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            worker(modname, sh, tier, seed, w, 20)
        os.close(w)
        procs.append((pid, r, sh))
    results, bad = [], []
    # read all pipes concurrently
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r, sh in procs:
        bufs[r] = [b"", None, pid, sh]
        sel.register(r, selectors.EVENT_READ)
    while sel.get_map():
        for key, _ in sel.select():
            d = os.read(key.fd, 1 << 16)
            if d:
                bufs[key.fd][0] += d
            else:
                sel.unregister(key.fd)
    for r, (data, _, pid, sh) in bufs.items():
        os.close(r)
        _, status = os.waitpid(pid, 0)
        res, last = None, -1
        for line in data.decode("utf8", "replace").split("\n"):
            if line.startswith("C "):
                last = int(line[2:])
            elif line.startswith("R "):
                res = json.loads(line[2:])
        if res is None:
            bad.append({"case": allcases[last] if last >= 0 else None, "index": last,
                        "message": "the process died (status %d) while exploring this case" % status,
                        "data": {}})
        else:
            results.append(res)
            bad.extend(res["bad"])
    states = set()
    notes, samples = {}, []
    tot = dict(transitions=0, traces=0, cases=0, nontrivial=0)
    for res in results:
        states.update(res["states"])
        for k in tot:
            tot[k] += res[k]
        for k, v in res["notes"].items():
            notes[k] = notes.get(k, 0) + v
        samples += res["samples"]
    known = load_known()
    violations, findings = [], []
    for b in sorted(bad, key=lambda b: b["index"]):
        k = is_known(prop, b["case"], known) if b["case"] is not None else None
        if k:
            findings.append((k, b))
        else:
            violations.append(b)
    cov = {"states": len(states), "transitions": tot["transitions"],
           "traces_validated_against_impl": tot["traces"],
           "samples": samples[:5], "cases": tot["cases"],
           "exhaustive": tot["cases"] == len(allcases),
           "bounds": mod.BOUNDS.get(tier, "") if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
           "rule": getattr(mod, "RULE", ""), "counts": notes}
    if not samples and allcases:
        cov["samples"] = [allcases[0]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 3), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if replay is None:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
    for k, b in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s tier=%s cases=%d/%d states=%d transitions=%d traces=%d %s wall=%.1fs" % (
        prop, tier, tot["cases"], len(allcases), len(states), tot["transitions"], tot["traces"],
        json.dumps(notes, sort_keys=True), time.time() - t0))
    for n, b in enumerate(violations):
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        b["property"] = prop
        b["replay_cmd"] = "bash run.sh %s --replay %s" % (prop, path)
        with open(path, "w") as f:
            json.dump(b, f, indent=1)
            f.write("\n")
        if n < 10:
            print("  " + b["message"][:800])
            print("  case: " + json.dumps(b["case"])[:400])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        if n >= 9:
            break
    sys.stdout.flush()
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException as e:  # noqa
        traceback.print_exc()
        p = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(p, exist_ok=True)
        p = os.path.join(p, "driver.json")
        with open(p, "w") as f:
            json.dump({"case": None, "message": repr(e), "trace": traceback.format_exc()}, f)
        print("VIOLATION property=%s replay=%s" % (sys.argv[1].upper(), p))
        rc = 1
    sys.exit(rc)
