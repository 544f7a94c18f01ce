"""C15: all execution orders of one session.run of samplers and score-function training steps."""
import itertools

import numpy as np

import noise

TECHNIQUE = ("dynamic partial-order exploration: the graph of the real code is executed under a controlled scheduler (an interpreter "
             "of the TF executor that evaluates operations with TensorFlow's kernels), unordered conflicting variable accesses are "
             "found from happens-before and every order of them is executed; each baseline trace is replayed with session.run and "
             "must agree bit for bit")
LEVEL_NOTE = ("complete per run up to the execution cap: without unordered conflicting accesses all schedules are equivalent; bounds are "
              "the histories, targets and fetch sets explored")
RULE = "a case is a sampler or estimator x options x target x fetch set; all histories of switches up to a depth are followed"
ASSUMPTIONS = ["a reference variable read is an alias of its buffer until an operation computes with it; Assign copies in place "
               "(as TensorFlow's CPU kernels do)",
               "operations without variable access are deterministic functions of their inputs"]
BOUNDS = {"quick": "HMC: 6 targets, 4 switch settings, all switch histories to depth 3, fetching the operation alone, with every single "
                   "statistic and with all; SG-MCMC: 14 settings, 4 targets, 4 calls; REINFORCE: 6 option sets, 3 iterations; at most "
                   "100 executions per run",
          "thorough": "histories to depth 4, 6 calls, at most 1000 executions per run"}

SG = [("SGLD", {}), ("PSGLD", {})]
for so in (True, False):
    SG += [("SGHMC", {"second_order": so, "n_iter_resample_v": n}) for n in (0, 2)]
    SG += [("SGNHT", {"second_order": so, "use_vector_alpha": va, "variance_extra": 0.2, "n_iter_resample_v": n})
           for va in (True, False) for n in (0, 2)]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for t, chain in (("pair", [2]), ("gauss", [3]), ("deep", [1, 2]), ("twin", [2]), ("iso", []), ("quartic", [2])):
        for fl in (("none", "none"), ("ph", "none"), ("ph", "ph"), ("true", "ph"), ("false", "true")):
            for fetch in ("op", "all", "each"):
                if fetch == "each" and t not in ("pair", "gauss"):
                    continue
                depth = (4 if deep else 3) if fetch != "each" else 2
                out.append({"kind": "hmc", "target": t, "chain": chain, "flags": fl, "fetch": fetch, "depth": depth, "mci": 2})
    for alg, kw in SG:
        for t, chain in (("pair", [2]), ("deep", [1, 2]), ("gauss", []), ("twin", [2])):
            for fetch in ("op", "all", "each"):
                out.append({"kind": "sg", "alg": alg, "kw": kw, "target": t, "chain": chain, "fetch": fetch, "calls": 6 if deep else 4})
    for m in ("bern", "two"):
        for v in ("on", "decay0", "baseline", "off", "basedecay"):
            for fetch in ("cost", "grads", "both"):
                out.append({"kind": "reinforce", "model": m, "vr": v, "fetch": fetch})
    return out


def weight(c):
    if c["kind"] == "hmc":
        n = sum(1 for f in c["flags"] if f == "ph")
        return 1.5 + 0.12 * (2 ** n) ** c["depth"] * (7 if c["fetch"] == "each" else 1)
    return 1.5


class Stepper(object):
    """explores the schedules of one run, validates the baseline on the real executor and moves to its final state"""

    def __init__(self, tf, sess, cx):
        from hmcrun import State, session
        import tfsched
        self.tf, self.sess, self.cx, self.S = tf, sess, cx, tfsched
        self.K = tfsched.Kernels(tf, session)
        self.state = State(tf, sess)
        self.progs = {}
        self.limit = 1000 if cx.tier == "thorough" else 100

    def vals(self):
        return {v.op.name: x for v, x in zip(self.state.vars, self.state.get())}

    def set(self, d):
        self.state.set([d[v.op.name] for v in self.state.vars])

    def run(self, key, fetches, feed, tag):
        cx = self.cx
        preset = {t.op.name: [np.asarray(v, t.dtype.as_numpy_dtype)] for t, v in feed.items()}
        v0 = self.vals()
        base, n, bad = None, 0, None
        try:
            if key not in self.progs:
                self.progs[key] = self.S.Program(fetches, self.K, preset)
            prog = self.progs[key]
            for ex, cons in self.S.explore(prog, v0, preset, self.limit):
                res, vs = ex.results()
                n += 1
                cx.step()
                if base is None:
                    base = (res, vs, ex)
                    cx.note("operations", ex.steps)
                    cx.note("variable accesses", len(ex.accesses))
                    if ex.races():
                        cx.note("unordered conflicting pairs", len(ex.races()))
                    continue
                bad = self.differ(base, (res, vs), prog)
                if bad:
                    bad = (bad, cons)
                    break
        except (NotImplementedError, KeyError, AttributeError, TypeError, IndexError) as e:
            # the interpreter does not know this kind of graph: no verdict on this run
            cx.note("runs without a model")
            cx.note("no model: %s" % repr(e)[:80])
            self.sess.run(fetches, feed)
            return
        got = self.sess.run(fetches, feed)
        after = self.vals()
        real = ([np.asarray(g) for g, f in zip(got, prog.fetches) if hasattr(f, "value_index")],
                {k: after[k] for k in base[1] if k in after})
        mb = ([r for r in base[0]], {k: v for k, v in base[1].items() if k in after})
        if bad:
            cx.fail("%s: the result depends on the order of execution: %s" % (tag, bad[0]),
                    order=[[list(map(repr, a)), list(map(repr, b))] for a, b in bad[1]], races=[repr(r) for r in base[2].races()[:6]])
        if self.differ(mb, real, prog) is None:
            cx.trace()
        elif n == 1:
            cx.note("runs that do not conform to the model")
        cx.note("schedules", n)
        # 'prog' shares names across nodes; states are the variables before the run
        cx.state(tuple(np.asarray(v).tobytes() for _, v in sorted(v0.items())), key)
        out = dict(v0)
        out.update({k: v for k, v in base[1].items() if k in out})
        self.set(out)

    @staticmethod
    def differ(a, b, prog):
        i = 0
        for f in prog.fetches:
            if hasattr(f, "value_index"):
                if not np.array_equal(a[0][i], b[0][i], equal_nan=True):
                    return "fetched %s is %s or %s" % (f.name, a[0][i].tolist(), b[0][i].tolist())
                i += 1
        for k in a[1]:
            if k in b[1] and not np.array_equal(a[1][k], b[1][k], equal_nan=True):
                return "variable %s is %s or %s" % (k, a[1][k].tolist(), b[1][k].tolist())
        return None


def fetchsets(op, groups, how):
    flat = [t for g in groups.values() for t in g]
    if how == "op":
        return {"op": [op]}
    if how == "all":
        return {"all": [op] + flat}
    return {k: [op] + g for k, g in groups.items()}


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan as zs
    with tf.Graph().as_default():
        if case["kind"] == "hmc":
            from hmcref import Target
            from hmcrun import HMCRun
            T = Target(case["target"])
            kw = {"step_size": 0.4, "n_leapfrogs": 2, "gamma": 0.2, "t0": 2, "mass_decay": 0.6}
            if case["flags"][1] != "none":
                kw["mass_collect_iters"] = case["mci"]
            H = HMCRun(tf, zs, T, case["chain"], kw, flags=tuple(case["flags"]))
            r = np.random.RandomState(5)
            H.setq({k: np.asarray(0.8 * r.randn(*(tuple(case["chain"]) + tuple(T.data[k]))), np.float32) for k in H.names})
            S = Stepper(tf, H.sess, cx)
            groups = {}
            for f in H.FIELDS:
                x = getattr(H.info, f)
                groups[f] = [x[k] for k in H.names] if isinstance(x, dict) else [x]
            sets = fetchsets(H.op, groups, case["fetch"])
            opts = [(True, False) if f == "ph" else (True,) for f in case["flags"]]

            def rec(d, path):
                v0 = S.vals()
                for on in itertools.product(*opts):
                    for nm, fs in sets.items():
                        S.set(v0)
                        rr = np.random.RandomState(50 + d)
                        fd = H.feed(on)
                        fd.update(H.noisefeed(rr.randn(H.n_noise), rr.rand(max(H.n_u, 1))[:H.n_u] * 0.8))
                        ph = path + ["".join("01"[x] for x in on)]
                        S.run(nm, fs, fd, "switches %s, fetching %s" % (" ".join(ph), nm))
                    if d + 1 < case["depth"]:
                        rec(d + 1, ph)
            rec(0, [])
            return
        if case["kind"] == "sg":
            import c14
            R = c14.Run(tf, zs, cx, case)
            S = Stepper(tf, R.sess, cx)
            groups = {f: [getattr(R.info, f)[k] for k in R.names] for f in R.fields}
            sets = fetchsets(R.op, groups, case["fetch"])
            for i in range(case["calls"]):
                v0 = S.vals()
                for nm, fs in sets.items():
                    S.set(v0)
                    fd = R.feed(i % 2, i % 2)
                    for j, o in enumerate(R.ops):
                        fd[o.outputs[0]] = np.random.RandomState(100 * i + j).randn(*R.oshape(o))
                    S.run(nm, fs, fd, "call %d, fetching %s" % (i, nm))
            return
        import c11
        c = dict(case, axis="first", S=2, N=2, est="reinforce")
        d = c11.Disc(case["model"], 2, 0)
        B = c11.Build(tf, zs, c, d)
        obj = zs.variational.elbo(B.meta, B.observed, axis=B.axis, variational=B.q)
        kw = {"on": {}, "decay0": {"decay": 0.0}, "off": {"variance_reduction": False}, "basedecay": {"decay": 0.5}}.get(case["vr"], {})
        if case["vr"] in ("baseline", "basedecay"):
            kw["baseline"] = tf.get_variable("bl", initializer=tf.constant(0.3, tf.float64))
        ret = obj.reinforce(**kw)
        costs = list(ret) if isinstance(ret, (tuple, list)) else [ret]
        vs = [v for v in tf.trainable_variables()]
        gr = [g for g in tf.gradients(costs[0], vs) if g is not None]
        fs = {"cost": costs, "grads": gr, "both": costs + gr}[case["fetch"]]
        from hmcrun import session
        sess = session(tf)
        sess.run(tf.global_variables_initializer())
        S = Stepper(tf, sess, cx)
        ops, other = noise.random_ops(fs)
        cx.check(not other, "unknown random numbers")
        zsall = list(d.outcomes(2))
        for i in range(3):
            fd = {}
            z = zsall[(7 * i + 3) % len(zsall)]
            fd.update(B.feed(z))
            S.run(case["fetch"], fs, fd, "iteration %d" % i)
