"""C13: every on/off history of HMC adaptation, against the dual averaging and moving variance recursions."""
import itertools

import numpy as np

TECHNIQUE = ("explicit-state depth-first exploration of all on/off histories of step size and mass adaptation on the real sampler (all "
             "variables saved and restored at every node), in lockstep with an explicit float64 model; every model step is replayed "
             "on the implementation")
LEVEL_NOTE = "bounded depth; noise and acceptance draws fixed per depth; targets Gaussian, coupled and stiff"
RULE = "a case is a target x chain shape x adaptation parameters x way of giving the switches; its histories are all explored"
ASSUMPTIONS = ["all state of the sampler between runs lives in the variables of the graph",
               "a search for the step size whose acceptance rate comes within 1e-3 of the target rate is not explored further"]
BOUNDS = {"quick": "all 4^d histories of both switches to depth 5 (2^d to depth 7 when only the step size adapts), mass collection "
                   "starting at iteration 0-4, 4 parameter sets; constant switches for 12 iterations; always rejecting or accepting "
                   "for 40 iterations",
          "thorough": "depth 6 (4^6 histories) and 9 (2^9), more parameter sets, 24 and 120 iterations"}

PARAMS = {
    "default": {},
    "fast": {"target_acceptance_rate": 0.65, "gamma": 0.2, "t0": 5, "kappa": 0.6, "mass_decay": 0.7},
    "slow": {"target_acceptance_rate": 0.9, "gamma": 0.1, "t0": 30, "kappa": 0.9, "mass_decay": 0.95},
    "bare": {},                 # nothing is given: every documented default
    "small": {"step_size": 0.05, "gamma": 0.5, "t0": 1, "kappa": 0.5, "mass_decay": 0.5},
}


def cases(tier):
    deep = tier == "thorough"
    out = []
    every = [p for p in PARAMS if p != "bare"]
    for t, chain in (("gauss", [3]), ("pair", [3]), ("iso", [2, 2]), ("deep", [2])):
        for mci in (0, 1, 2, 3, 4):
            ps = ["default", "fast", "slow", "small"]
            if not deep:
                ps = [ps[(mci + len(t)) % 4], "fast"] if t != "deep" else [ps[mci % 4]]
            for p in sorted(set(ps)):
                out.append({"kind": "both", "target": t, "chain": chain, "mci": mci, "par": p, "depth": 6 if deep else 5})
    for t, chain in (("gauss", []), ("gauss", [1]), ("pair", [3]), ("deep", [2]), ("twin", [2])):
        for p in every if deep else ["default", "fast", "small"]:
            out.append({"kind": "step", "target": t, "chain": chain, "mci": 10, "par": p, "depth": 9 if deep else 7})
    for f in itertools.product(("true", "false"), ("none", "true", "false", "ph")):
        for p in ("default", "fast") if not deep else every:
            out.append({"kind": "const", "target": "pair", "chain": [3], "mci": 3, "par": p, "flags": f, "iters": 24 if deep else 12})
    for f in (("none", "none"), ("true", "none"), ("true", "true"), ("ph", "ph")):
        out.append({"kind": "const", "target": "iso", "chain": [2], "mci": 10, "par": "bare", "flags": f, "iters": 24 if deep else 14})
    for f in (("ph", "true"), ("ph", "false")):
        for p in ("fast", "small"):
            out.append({"kind": "mixed", "target": "iso", "chain": [3], "mci": 2, "par": p, "flags": f, "depth": 9 if deep else 7})
    for t in ("gauss", "quartic"):
        for u in (0.0, 0.9999999):
            for p in every if deep else ["default", "fast"]:
                out.append({"kind": "long", "target": t, "chain": [2], "mci": 5, "par": p, "u": u, "iters": 120 if deep else 40})
    for same in ("zero", "equal"):
        out.append({"kind": "degenerate", "target": "iso", "chain": [3], "mci": 1, "par": "fast", "same": same})
        out.append({"kind": "degenerate", "target": "iso", "chain": [1], "mci": 1, "par": "fast", "same": same})
    out.append({"kind": "tensor", "target": "pair", "chain": [3], "mci": 2, "par": "fast"})
    for f in (("ph", "ph"), ("true", "true"), ("ph", "none"), ("none", "none")):
        for t, chain in (("pair", [3]), ("gauss", [])):
            out.append({"kind": "alone", "target": t, "chain": chain, "mci": 2, "par": "fast", "flags": f, "iters": 18 if deep else 10})
    out.append({"kind": "errors"})
    return out


def weight(c):
    k = c["kind"]
    if k in ("both", "step", "mixed"):
        return 1.5 + 0.004 * (4 if k == "both" else 2) ** (c["depth"] + 0.4)
    return 2


def draws(case, H, d):
    """noise and acceptance draws of iteration d (fixed)"""
    r = np.random.RandomState(100 + d + 31 * len(case["target"]))
    return r.randn(H.n_noise), (r.rand(max(H.n_u, 1))[:H.n_u] * 0.9).astype(np.float32)


class Lock(object):
    """the sampler and the model in lockstep"""

    def __init__(self, tf, zs, case, cx, flags, tensor=False):
        from hmcref import HMCRef, Target
        from hmcrun import HMCRun
        self.cx, self.case = cx, case
        T = Target(case["target"])
        kw = {"step_size": 0.4, "n_leapfrogs": 2, "mass_collect_iters": case["mci"]}
        if case["par"] == "bare":
            kw = {}
        kw.update(PARAMS[case["par"]])
        rk = dict(kw)
        if tensor:
            kw = {k: tf.constant(v, tf.int32 if k in ("n_leapfrogs", "mass_collect_iters") else tf.float32) for k, v in kw.items()}
        if flags[1] == "none":
            kw.pop("mass_collect_iters", None)
            rk.pop("mass_collect_iters", None)
        self.H = HMCRun(tf, zs, T, case["chain"], kw, flags=flags)
        self.H.owned(cx)
        rk["target_rate"] = rk.pop("target_acceptance_rate", 0.8)
        self.ref = HMCRef(T, case["chain"], adapt_step=flags[0] != "none", adapt_mass=flags[1] != "none", **rk)
        self.flags = flags
        r = np.random.RandomState(5)
        self.q = {k: np.asarray(0.8 * r.randn(*(tuple(case["chain"]) + tuple(T.data[k]))), np.float32) for k in self.H.names}
        self.H.setq(self.q)
        off, self.S = self.H.momentum_map(self.on((False, False)))
        cx.close(off, np.zeros(len(off)), "mean of the momenta")
        cx.close(self.S.dot(self.S.T), np.eye(len(off)), "covariance of the momenta before adaptation", 1e-3, 1e-4)

    def on(self, on):
        return tuple(bool(o) if f == "ph" else f == "true" for f, o in zip(self.flags, on))

    def save(self):
        return self.H.state.get(), self.ref.save(), self.q

    def load(self, s):
        self.H.state.set(s[0])
        self.ref.load(s[1])
        self.q = s[2]

    def step(self, on, d, tag, u=None, loose=1.0):
        """False when the reference cannot tell which way a step size search went"""
        import c12
        cx, H, ref = self.cx, self.H, self.ref
        eff = self.on(on)
        nv, uu = draws(self.case, H, d)
        if u is not None:
            uu = np.full(H.n_u, u, np.float32)
        q64 = c12.f64(self.q)
        mass = ref.begin(q64, *eff)
        for k in mass:
            cx.check(np.all(np.isfinite(mass[k])) and np.all(mass[k] > 0), "model error: mass")
        r = H.step(nv, uu, on)
        m = np.concatenate([np.broadcast_to(mass[k], H.chain + tuple(H.T.data[k])).ravel() for k in H.names])
        p = np.concatenate([np.asarray(r["init_momentum"][k], np.float64).ravel() for k in H.names])
        cx.close(p, np.sqrt(m) * self.S.dot(nv), tag + ": momenta (mass %r)" % m.tolist(), 3e-3, 1e-4)
        ref.margin = np.inf
        want = ref.finish(q64, c12.f64(r["init_momentum"]), uu.reshape(H.chain), eff[0], r["acceptance_rate"])
        if ref.margin < 1e-3:
            cx.note("ambiguous searches")
            return False
        # at most a rounding difference may separate a draw from the reported rate
        c12.compare(cx, r, want, tag, loose)
        e = float(r["updated_step_size"])
        cx.check(np.isfinite(e) and e > 0, tag + ": step size %r" % e)
        ref.s["eps"] = e            # equal up to rounding (compared above); keeps rounding errors from accumulating
        for v in H.state.get():
            cx.check(np.all(np.isfinite(v)), tag + ": a variable of the sampler is not finite", value=v)
        self.q = {k: np.asarray(r["samples"][k]) for k in H.names}
        cx.step()
        cx.trace()
        cx.state(self.case["par"], self.case["mci"], H.state.key(H.state.get()))
        return True


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan as zs
    with tf.Graph().as_default():
        kind = case["kind"]
        if kind == "errors":
            for kw in ({"adapt_mass": True}, {"adapt_mass": tf.placeholder(tf.bool, [])}, {"adapt_mass": False}):
                try:
                    zs.HMC(step_size=0.1, **kw)
                except ValueError:
                    cx.step()
                else:
                    cx.fail("adapt_mass without adapt_step_size was accepted")
            cx.state("errors")
            return
        if kind in ("both", "step", "mixed"):
            flags = {"both": ("ph", "ph"), "step": ("ph", "none")}.get(kind) or tuple(case["flags"])
            L = Lock(tf, zs, case, cx, flags)
            alphabet = [(a, b) for a in (True, False) for b in ((True, False) if kind == "both" else (False,))]

            def rec(d, path):
                s = L.save()
                for on in alphabet:
                    L.load(s)
                    ph = path + ["".join("01"[x] for x in on)]
                    if L.step(on, d, "history " + " ".join(ph), loose=1 + 0.5 * d) and d + 1 < case["depth"]:
                        rec(d + 1, ph)
            rec(0, [])
            return
        if kind == "const":
            L = Lock(tf, zs, case, cx, tuple(case["flags"]))
            for d in range(case["iters"]):
                if not L.step((True, d % 3 != 0), d, "iteration %d" % d, loose=3):
                    return
            return
        if kind == "alone":
            # what else is fetched with the sampling operation (nothing, one field, all) does not matter for what it does
            L = Lock(tf, zs, case, cx, tuple(case["flags"]))
            H = L.H
            for d in range(case["iters"]):
                before, on = H.state.get(), (d < 8, d % 5 != 3)
                if not L.step(on, d, "iteration %d" % d, loose=3):
                    return
                full = H.getq()
                for fields in [[f] for f in H.FIELDS] + [[]]:
                    H.state.set(before)
                    H.blind(*draws(case, H, d), on=L.on(on), fields=fields)
                    q = H.getq()
                    for k in H.names:
                        cx.close(q[k], full[k], "iteration %d: %s after running the sampling operation with %r" % (d, k, fields), 1e-5, 1e-6)
                    cx.step()
                # the walk goes on from the state in which the operation ran on its own
            return
        if kind == "tensor":
            L = Lock(tf, zs, case, cx, ("ph", "ph"), tensor=True)
            for d in range(8):
                if not L.step((d < 6, d < 5), d, "iteration %d" % d, loose=3):
                    return
            return
        if kind == "long":
            L = Lock(tf, zs, case, cx, ("ph", "ph"))
            for d in range(case["iters"]):
                if not L.step((d % 20 < 15, d % 10 < 7), d, "iteration %d" % d, u=case["u"], loose=10):
                    return
            return
        if kind == "degenerate":
            # no variance observed: chains stay where they are because every proposal is rejected
            L = Lock(tf, zs, case, cx, ("ph", "ph"))
            if case["same"] == "zero":
                L.q = {k: np.zeros_like(v) for k, v in L.q.items()}
            else:
                L.q = {k: np.full_like(v, 0.7) for k, v in L.q.items()}
            L.H.setq(L.q)
            for d in range(6):
                if not L.step((False, True), d, "iteration %d" % d, u=0.9999999, loose=3):
                    return
