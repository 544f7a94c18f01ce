"""C05: invalid arguments are rejected.

All distributions x kinds of invalid argument x where it becomes known (when the graph is built, or only at
run time with unknown rank / unknown dimensions) x which other parameters are static x every output.
"""
import itertools

import numpy as np

from dists import BY_NAME, SPECS

TECHNIQUE = ("exhaustive fault enumeration (kind of invalid argument x point where it becomes known x output) on "
             "the real code, with the valid neighbour of every fault executed too")
LEVEL_NOTE = "every fault kind of the property text for every distribution, parameter, stage and output"
RULE = "a case is one distribution; inside, every fault x form x output is one execution"
ASSUMPTIONS = ["graph rewriting (grappler) is off: it may delete run-time rank assertions of size-one vectors"]
BOUNDS = {"quick": "one batch axis of size 2 (3 for the wrong one), 3 categories",
          "thorough": "as quick with batch ranks 0..2 and categories 2..4"}

ERR = None


def cases(tier):
    out = []
    for s in SPECS:
        for K in ([3] if tier == "quick" else [2, 3, 4]):
            for b in ([(2,)] if tier == "quick" else [(2,), (), (2, 2)]):
                out.append({"dist": s.name, "K": K, "batch": b, "part": "params"})
                out.append({"dist": s.name, "K": K, "batch": b, "part": "calls"})
                if s.check_num:
                    out.append({"dist": s.name, "K": K, "batch": b, "part": "numerics"})
    out.append({"part": "misc"})
    return out


def weight(c):
    return {"params": 3, "calls": 2, "numerics": 2, "misc": 1}[c["part"]]


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan.distributions as D
    from tensorflow.core.protobuf import rewriter_config_pb2 as rc
    cfg = tf.ConfigProto()
    cfg.graph_options.rewrite_options.disable_meta_optimizer = True
    allowed = (ValueError, TypeError, NotImplementedError, tf.errors.OpError)
    x = Ex(cx, tf, D, cfg, allowed)
    if case["part"] == "misc":
        return misc(x)
    s = BY_NAME[case["dist"]]
    K, batch = case["K"], tuple(case["batch"])
    base = {p: s.fill(p, batch if b else (), K, salt=i).astype("float32")
            for i, (p, _, b) in enumerate(s.params)}
    given = s.fill_value(batch, K, salt=1).astype("int32" if s.discrete else "float32")
    getattr(x, case["part"])(s, K, batch, base, given)
    cx.sample(case)


class Ex(object):
    def __init__(self, cx, tf, D, cfg, allowed):
        self.cx, self.tf, self.D, self.cfg, self.allowed = cx, tf, D, cfg, allowed

    def attempt(self, s, P, given, forms=None, kw=None, n=2, gform="S", nform="S", build=None):
        """{stage: exception or None} for building and for every output.

        forms[p]: "S" constant, "U" placeholder of unknown rank, "P" placeholder of unknown dimensions."""
        tf = self.tf
        forms = forms or {}
        kw = dict(kw or {})
        res = {}
        with tf.Graph().as_default():
            fd = {}

            def mk(v, form, dtype=None):
                a = np.asarray(v) if dtype is None else np.asarray(v, dtype)
                if form == "S":
                    return tf.constant(a)
                t = tf.placeholder(a.dtype, None if form == "U" else [None] * a.ndim)
                fd[t] = a
                return t

            try:
                T = {p: mk(a, forms.get(p, "S")) for p, a in P.items()}
                k2 = {}
                for k, v in kw.items():
                    if forms.get(k) in ("U", "P"):
                        k2[k] = mk(v, forms[k], "int32")
                    elif forms.get(k) == "T":
                        k2[k] = tf.constant(np.asarray(v))
                    else:
                        k2[k] = v
                d = build(T, k2) if build else s.build(self.D, T, **k2)
            except self.allowed as e:
                return {"build": e}
            res["build"] = None

            def outputs():
                gv = (lambda: mk(given, gform)) if not callable(given) else given
                yield "log_prob", lambda: d.log_prob(gv())
                yield "prob", lambda: d.prob(gv())
                if s is None or s.samples:
                    nn = n if nform == "S" else mk(n, nform, "int32") if nform in "UP" else self.tf.constant(n)
                    yield "sample", lambda: d.sample(nn)
            with tf.Session(config=self.cfg) as sess:
                for k, f in outputs():
                    try:
                        t = f()
                        sess.run(t, fd)
                        res[k] = None
                    except self.allowed as e:
                        res[k] = e
                    self.cx.step()
        return res

    def expect(self, res, bad, name):
        """bad: "build" (must fail when built), or the outputs that must fail; all others must work."""
        self.cx.trace()
        self.cx.state(name)
        if bad == "build":
            self.cx.check(res["build"] is not None, name + ": accepted when the distribution is built")
            return
        if res["build"] is not None:
            self.cx.fail(name + ": rejected when built: %s" % (str(res["build"])[:300],))
        for k, e in res.items():
            if k == "build":
                continue
            if k in bad:
                self.cx.check(e is not None, "%s: accepted by %s" % (name, k))
            elif e is not None:
                self.cx.fail("%s: %s fails: %s" % (name, k, str(e)[:300]))

    ALL = ("log_prob", "prob", "sample")

    def params(self, s, K, batch, base, given):
        names = list(base)
        for f in "SPU":
            self.expect(self.attempt(s, base, given, {p: f for p in names}), (), "%s valid (%s)" % (s.name, f))
        for p, er, b in s.params:
            others = [q for q in names if q != p]
            # types
            if others:
                for f in "SU":
                    P = dict(base)
                    P[p] = base[p].astype("float64")
                    self.expect(self.attempt(s, P, given, {p: f}), "build", "%s %s float64, others float32 (%s)" % (s.name, p, f))
            for dt in ("int32", "int64", "bool", "complex64"):
                P = {q: np.ones_like(a).astype(dt) for q, a in base.items()}
                self.expect(self.attempt(s, P, given), "build", "%s parameters of type %s" % (s.name, dt))
                P = dict(base)
                P[p] = np.ones_like(base[p]).astype(dt)
                self.expect(self.attempt(s, P, given), "build", "%s %s of type %s" % (s.name, p, dt))
            if not b:
                for badv in (np.full((1,), 0.5, "float32"), np.full((2,), 0.5, "float32"),
                             np.full((1, 1), 0.5, "float32")):
                    P = dict(base)
                    P[p] = badv
                    self.expect(self.attempt(s, P, given), "build", "%s %s of shape %r" % (s.name, p, badv.shape))
                    for of in "SU":
                        fm = {q: of for q in others}
                        fm[p] = "U"
                        self.expect(self.attempt(s, P, given, fm), self.ALL, "%s %s of shape %r at run time (%s)" % (
                            s.name, p, badv.shape, of))
                continue
            # batch shapes that do not broadcast
            if len(s.batched()) > 1 and batch:
                bad = [batch[:-1] + (3,)] + ([] if s.broadcast else [batch[:-1] + (1,), (2,) + batch, batch[1:]])
                for bs in bad:
                    P = dict(base)
                    P[p] = s.fill(p, bs, K).astype("float32")
                    tag = "%s %s of batch shape %r (others %r)" % (s.name, p, bs, batch)
                    self.expect(self.attempt(s, P, given), "build", tag)
                    for pf, of in (("U", "S"), ("U", "U"), ("P", "P"), ("P", "U")):
                        if pf == "P" and len(bs) != len(batch):
                            continue
                        fm = {q: of for q in others}
                        fm[p] = pf
                        r = self.attempt(s, P, given, fm)
                        if s.broadcast:
                            self.expect(r, self.ALL, tag + " at run time (%s/%s)" % (pf, of))
                        else:
                            self.expect(r, self.ALL, tag + " at run time (%s/%s)" % (pf, of))
            # inconsistent event shapes
            if s.name.startswith(("MultivariateN", "MatrixV")):
                ev = s.event_shape(p, K)
                alts = [ev[:-1] + (ev[-1] + 1,), (ev[0] + 1,) + ev[1:]] + ([tuple(q + 1 for q in ev)] if er == 2 else [])
                for a in sorted(set(alts)):
                    P = dict(base)
                    P[p] = np.ones(batch + a, "float32")
                    tag = "%s %s of event shape %r" % (s.name, p, a)
                    self.expect(self.attempt(s, P, given), "build", tag)
                    for pf, of in (("U", "S"), ("U", "U"), ("P", "P")):
                        fm = {q: of for q in others}
                        fm[p] = pf
                        self.expect(self.attempt(s, P, given, fm), self.ALL, tag + " at run time (%s/%s)" % (pf, of))
            # ranks that are too small
            for r in range(er):
                P = dict(base)
                P[p] = np.full((2,) * r, 0.5, "float32")
                tag = "%s %s of rank %d" % (s.name, p, r)
                self.expect(self.attempt(s, P, given), "build", tag)
                for of in "SU":
                    fm = {q: of for q in others}
                    fm[p] = "U"
                    self.expect(self.attempt(s, P, given, fm), self.ALL, tag + " at run time (%s)" % of)
        if s.discrete:
            for dt in (self.tf.bool, self.tf.string, self.tf.complex64):
                self.expect(self.attempt(s, base, given, kw={"dtype": dt}), "build", "%s of type %r" % (s.name, dt))
        if s.extra.get("n_experiments"):
            for v in (0, -1, -3):
                self.expect(self.attempt(s, base, given, kw={"n_experiments": v}), "build", "%s n_experiments=%r" % (s.name, v))
                for f in "UP":
                    self.expect(self.attempt(s, base, given, {"n_experiments": f}, kw={"n_experiments": v}), self.ALL,
                                "%s n_experiments=%r at run time (%s)" % (s.name, v, f))
            for v in (1.0, 2.5, "a", [2], [1, 2]):
                self.expect(self.attempt(s, base, given, kw={"n_experiments": v}), "build", "%s n_experiments=%r" % (s.name, v))
            for v in ([2], [1, 2]):
                self.expect(self.attempt(s, base, given, {"n_experiments": "U"}, kw={"n_experiments": v}), self.ALL,
                            "%s n_experiments=%r at run time" % (s.name, v))
            self.expect(self.attempt(s, base, given, {"n_experiments": "T"}, kw={"n_experiments": np.float32(2)}), "build",
                        "%s n_experiments a float tensor" % s.name)
            self.expect(self.attempt(s, base, given, {"n_experiments": "U"}, kw={"n_experiments": s.extra["n_experiments"]}), (),
                        "%s n_experiments valid at run time" % s.name)

    def calls(self, s, K, batch, base, given):
        dens = ("log_prob", "prob")
        for pf in "SU":
            fm = {p: pf for p in base}
            # group sizes
            self.expect(self.attempt(s, base, given, fm, {"group_ndims": -1}), "build", "%s group_ndims=-1" % s.name)
            self.expect(self.attempt(s, base, given, fm, {"group_ndims": [0]}), "build", "%s group_ndims=[0]" % s.name)
            for v in (-1, -2):
                for f in "UP":
                    self.expect(self.attempt(s, base, given, dict(fm, group_ndims=f), {"group_ndims": v}), dens,
                                "%s group_ndims=%d at run time (%s)" % (s.name, v, f))
            for v in ([0], [1], [1, 1]):
                if v == [1] and not batch:
                    continue
                self.expect(self.attempt(s, base, given, dict(fm, group_ndims="U"), {"group_ndims": v}), dens,
                            "%s group_ndims=%r at run time" % (s.name, v))
            k = len(batch) + 1
            r = self.attempt(s, base, given, fm, {"group_ndims": k})
            if r["build"] is None:
                self.expect(r, dens, "%s group_ndims=%d for batch rank %d" % (s.name, k, len(batch)))
            self.expect(self.attempt(s, base, given, dict(fm, group_ndims="U"), {"group_ndims": k}), dens,
                        "%s group_ndims=%d for batch rank %d at run time" % (s.name, k, len(batch)))
            self.expect(self.attempt(s, base, given, dict(fm, group_ndims="U"), {"group_ndims": len(batch)}), (),
                        "%s group_ndims=%d valid at run time" % (s.name, len(batch)))
            self.expect(self.attempt(s, base, given, fm, {"group_event_ndims": 1}), "build", "%s group_event_ndims" % s.name)
            # sample counts
            if s.samples:
                for v in ([2], [1], [2, 2]):
                    for nf in "TU":
                        self.expect(self.attempt(s, base, given, fm, n=v, nform=nf), ("sample",),
                                    "%s n_samples=%r (%s)" % (s.name, v, nf))
                self.expect(self.attempt(s, base, given, fm, n=2.5, nform="T"), ("sample",), "%s n_samples=2.5" % s.name)
                self.expect(self.attempt(s, base, given, fm, n=2, nform="U"), (), "%s n_samples=2 at run time" % s.name)
            # given values
            wrong = {"float32": ["float64", "int32", "bool"], "int32": ["float32", "int64", "bool"]}[str(given.dtype)]
            for w in wrong:
                for gf in "SU":
                    self.expect(self.attempt(s, base, given.astype(w), fm, gform=gf), dens,
                                "%s given of type %s (%s)" % (s.name, w, gf))
            if batch:
                bad = s.fill_value(batch[:-1] + (3,), K).astype(given.dtype)
                for gf in "SPU":
                    self.expect(self.attempt(s, base, bad, fm, gform=gf), dens,
                                "%s (%s) given of batch shape %r (%s)" % (s.name, pf, batch[:-1] + (3,), gf))
            if s.vrank:
                vs = s.value_shape(K)
                for a in sorted({vs[:-1] + (K + 1,), vs[:-1] + (K + 2,)} | ({(3,) + vs[1:]} if s.vrank == 2 else set())):
                    bad = np.ones(batch + a, given.dtype)
                    for gf in "SPU":
                        self.expect(self.attempt(s, base, bad, fm, gform=gf), dens,
                                    "%s (%s) given of value shape %r (%s)" % (s.name, pf, a, gf))
        if not s.samples:
            import tensorflow as tf
            with tf.Graph().as_default():
                d = s.build(self.D, {p: tf.constant(a) for p, a in base.items()})
                for n in (None, 2):
                    try:
                        d.sample(n)
                    except self.allowed:
                        self.cx.step()
                        continue
                    self.cx.fail("%s: sample(%r) without n_experiments accepted" % (s.name, n))

    def numerics(self, s, K, batch, base, given):
        n = s.name.split("/")[0]
        dens = ("log_prob", "prob")
        z = np.zeros_like

        def one(a, v, at=None):
            """a with one element replaced"""
            a = np.array(a)
            if at is None:
                a.reshape(-1)[-1 if a.size else 0] = v
            else:
                a[at] = v
            return a

        T = []     # (param or "given", bad value, failing outputs)
        if n in ("Normal", "FoldNormal"):
            if "std" in base:
                T += [("std", one(base["std"], 0.0), dens), ("std", one(base["std"], -1.0), dens),
                      ("std", one(base["std"], np.nan), dens), ("std", one(base["std"], np.inf), dens)]
            else:
                T += [("logstd", one(base["logstd"], 200.0), ("sample",)), ("logstd", one(base["logstd"], -200.0), dens),
                      ("logstd", one(base["logstd"], np.nan), dens + ("sample",))]
        if n == "Uniform":
            T += [("maxval", base["minval"].copy(), dens), ("minval", base["maxval"] + 1, ("log_prob",))]
        if n in ("Gamma", "InverseGamma"):
            T += [("alpha", one(base["alpha"], 0.0), dens), ("beta", one(base["beta"], 0.0), dens),
                  ("beta", one(base["beta"], -1.0), dens), ("given", one(given, 0.0), dens), ("given", one(given, -1.0), dens)]
        if n == "Beta":
            T += [("alpha", one(base["alpha"], 0.0), dens), ("beta", one(base["beta"], 0.0), dens),
                  ("given", one(given, 0.0), dens), ("given", one(given, 1.0), dens), ("given", one(given, 1.5), dens)]
        if n == "Poisson":
            T += [("rate", one(base["rate"], 0.0), dens), ("rate", one(base["rate"], -1.0), dens), ("given", one(given, -1), dens)]
        if n == "Binomial":
            T += [("given", one(given, -1), dens), ("given", one(given, s.extra["n_experiments"] + 1), dens)]
        if n == "Laplace":
            T += [("scale", one(base["scale"], 0.0), dens), ("scale", one(base["scale"], -1.0), dens)]
        if n == "BinConcrete":
            T += [("given", one(given, 0.0), dens), ("given", one(given, 1.0), dens),
                  ("temperature", np.float32(0.0), dens), ("temperature", np.float32(-1.0), dens)]
        if n == "MultivariateNormalCholesky":
            T += [("cov_tril", one(base["cov_tril"], 0.0, (Ellipsis, K - 1, K - 1)), dens)]
        if n == "MatrixVariateNormalCholesky":
            T += [("u_tril", one(base["u_tril"], 0.0, (Ellipsis, 1, 1)), dens),
                  ("v_tril", one(base["v_tril"], 0.0, (Ellipsis, K - 1, K - 1)), dens)]
        if n == "Dirichlet":
            T += [("alpha", one(base["alpha"], 0.0), dens), ("given", one(given, 0.0), dens), ("given", one(given, -0.5), dens)]
        if n in ("Concrete", "ExpConcrete"):
            T += [("temperature", np.float32(0.0), dens), ("temperature", np.float32(-1.0), dens)]
            if n == "Concrete":
                T += [("given", one(given, 0.0), dens), ("given", one(given, -0.5), dens)]
        self.cx.check(bool(T), "no numeric faults for %s" % s.name)
        for f in "SU":
            fm = {p: f for p in base}
            self.expect(self.attempt(s, base, given, fm, {"check_numerics": True}, gform=f), (),
                        "%s valid with check_numerics (%s)" % (s.name, f))
            for p, v, bad in T:
                P, g = dict(base), given
                if p == "given":
                    g = v
                else:
                    P[p] = v
                tag = "%s %s=%r (%s)" % (s.name, p, np.asarray(v).reshape(-1)[-1], f)
                r = self.attempt(s, P, g, fm, {"check_numerics": True}, gform=f)
                for k in bad:
                    self.cx.check(r["build"] is not None or r[k] is not None,
                                  "%s: accepted by %s with check_numerics" % (tag, k))
                self.cx.trace()
                self.cx.state(tag)
                # without checking nothing is raised when the density is evaluated
                r = self.attempt(s, P, g, fm, {"check_numerics": False}, gform=f)
                for k in dens:
                    if n.startswith("M"):
                        continue    # a singular matrix may make the solver fail
                    self.cx.check(r["build"] is None and r[k] is None, "%s: %s fails without check_numerics: %s" % (
                        tag, k, str(r["build"] or r[k])[:200]))


def misc(x):
    tf, D, cx = x.tf, x.D, x.cx

    def rejects(f, what):
        with tf.Graph().as_default():
            try:
                f()
            except x.allowed:
                cx.step()
                cx.trace()
                cx.state(what)
                return
            cx.fail(what + " is accepted")

    for C in (D.Normal, D.FoldNormal):
        rejects(lambda: C(mean=0.), "%s without std and logstd" % C.__name__)
        rejects(lambda: C(mean=0., std=1., logstd=0.), "%s with std and logstd" % C.__name__)
        rejects(lambda: C(0., 1.), "%s with a positional second argument" % C.__name__)
        rejects(lambda: C(0., 1., std=1.), "%s with a positional second argument and std" % C.__name__)
        rejects(lambda: C(0., 1., logstd=1.), "%s with a positional second argument and logstd" % C.__name__)
