"""C10: values of variational objectives for all bounded combinations of model, posterior, axes and weights."""
import itertools

import numpy as np
from scipy import special as sp

TECHNIQUE = ("exhaustive enumeration of bounded models, posteriors, axes and importance weights on the real code; oracle: the "
             "definition of each objective in float64 from the sampled values of the same run")
LEVEL_NOTE = "complete over the combinations below; Gaussian models of up to three latent nodes"
RULE = "a case is an objective x form of the model x form of the posterior x number of latent nodes"
ASSUMPTIONS = ["sampled latent values are fetched in the same run, so the oracle sees the values the code used"]
BOUNDS = {"quick": "4 objectives x 4 model forms x 2 posterior forms x 1..3 latents x 8 axes (all that apply) x 8 variations (observed and "
                   "deterministic nodes in the posterior, observed latents, extreme and zero weights, changed observations, extra "
                   "model nodes); all error combinations",
          "thorough": "as quick, also in float32, with runtime-only shapes and sample counts, and up to four latents"}

OBJ = ["elbo", "iw", "is", "klpq"]
FORMS = ["meta", "deco", "override", "func"]
POST = ["variational", "latent"]
AXES = [None, 0, 1, 2, -1, [0], [0, 1], [1, 2]]
TWISTS = ["plain", "qobs", "prec", "huge", "tiny", "zero", "mutate", "extra"]
LAYOUTS = ["full", "nsamples"]


def cases(tier):
    out = []
    for o, f, p, n in itertools.product(OBJ, FORMS, POST, (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
        out.append({"kind": "value", "obj": o, "form": f, "post": p, "n": n, "ft": "float64", "rt": False})
        if tier == "thorough":
            out.append({"kind": "value", "obj": o, "form": f, "post": p, "n": n, "ft": "float32", "rt": False})
            out.append({"kind": "value", "obj": o, "form": f, "post": p, "n": n, "ft": "float64", "rt": True})
    out += [{"kind": "errors", "obj": o} for o in OBJ]
    out += [{"kind": "nolatent", "form": f} for f in ("meta", "override", "func")]
    return out


def weight(c):
    return 3 if c["kind"] == "value" else 1


def npdf(x, m, s):
    return -0.5 * np.log(2 * np.pi) - np.log(s) - 0.5 * ((x - m) / s) ** 2


class Setup(object):
    """One model/posterior pair; latents z0 -> z1 -> ..., data x given the last latent."""

    def __init__(self, tf, zs, case, twist, layout):
        self.tf, self.zs, self.case, self.twist, self.layout = tf, zs, case, twist, layout
        self.n = case["n"]
        self.ft = case["ft"]
        self.shape = (2, 3, 2) if layout == "full" else (3, 2)
        self.names = ["z%d" % i for i in range(self.n)]
        dt = self.dt = getattr(tf, self.ft)
        self.c = lambda v: tf.constant(np.asarray(v, self.ft))
        # offsets of the log joint, one per sample
        off = np.zeros(self.shape)
        k = np.arange(off.size).reshape(self.shape)
        if twist == "huge":
            off = 700. * (k % 4) - 300.
        elif twist == "tiny":
            off = -1500. - 40. * (k % 3)
        elif twist == "zero":
            off = np.where(k % 2 == 0, -np.inf, 0.) if case["obj"] in ("iw", "is") else np.where(k % 2 == 0, -1e4, 0.)
        self.off = off
        self.xval = np.linspace(-1., 1.5, self.shape[-1])
        self.zobs = np.linspace(0.3, 0.9, int(np.prod(self.shape))).reshape(self.shape)
        self.observed = {"x": self.c(self.xval)}
        self.prec = "z%d" % (self.n - 1) if twist == "prec" else None
        if self.prec:
            self.observed[self.prec] = self.c(self.zobs)
        self.extra = twist == "extra"
        if twist == "qobs":
            # the model has a further latent u, observed in the posterior net and given as observation
            self.observed["u"] = self.c(0.4)
        self.expected = dict(self.observed)
        self.model_calls = 0

    # ---- model
    def model_fn(self):
        zs, c = self.zs, self.c
        self.model_calls += 1
        bn = zs.BayesianNet()
        prev = c(0.25)
        for i, nm in enumerate(self.names):
            z = bn.normal(nm, prev, std=c(1. + 0.5 * i))
            prev = z * c(0.8)
        if self.twist == "qobs":
            u = bn.normal("u", c(0.), std=c(2.))
            prev = prev + u
        if self.extra:
            bn.deterministic("d", prev * c(3.))
        bn.normal("x", prev, std=c(0.7))
        return bn

    def log_joint_np(self, zv):
        zv = dict(zv)
        if self.prec:
            zv[self.prec] = self.zobs
        lp, prev = 0., 0.25
        for i, nm in enumerate(self.names):
            lp = lp + npdf(zv[nm], prev, 1. + 0.5 * i)
            prev = 0.8 * zv[nm]
        if self.twist == "qobs":
            lp = lp + npdf(0.4, 0., 2.)
            prev = prev + 0.4
        return lp + npdf(self.xval, prev, 0.7) + self.off

    def log_joint_tf(self, d):
        """a log joint function of a dictionary of all nodes"""
        self.model_calls += 1
        want = set(self.names) | set(self.expected)
        if set(d) != want:
            raise AssertionError("the log joint function is given %r instead of %r" % (sorted(d), sorted(want)))
        N = self.zs.distributions.Normal
        c = self.c
        lp, prev = c(0.), c(0.25)
        for i, nm in enumerate(self.names):
            lp = lp + N(mean=prev, std=c(1. + 0.5 * i)).log_prob(d[nm])
            prev = d[nm] * c(0.8)
        if "u" in d:
            lp = lp + N(mean=c(0.), std=c(2.)).log_prob(d["u"])
            prev = prev + d["u"]
        return lp + N(mean=prev, std=c(0.7)).log_prob(d["x"]) + c(self.off)

    def model(self):
        zs = self.zs
        f = self.case["form"]
        if f == "func":
            return self.log_joint_tf
        if f == "deco":
            m = zs.meta_bayesian_net(scope="m", reuse_variables=True)(self.model_fn)()
        else:
            m = zs.MetaBayesianNet(self.model_fn)
        if f == "override" or np.any(self.off != 0):
            def lj(bn):
                names = [k for k, v in bn.nodes.items() if isinstance(v, zs.StochasticTensor)]
                r = self.c(self.off)
                for k in names:
                    r = r + bn.cond_log_prob(k)
                return r
            m.log_joint = lj
        return m

    # ---- posterior
    def posterior(self):
        zs, tf = self.zs, self.tf
        obs = {"u": self.c(0.4)} if self.twist == "qobs" else {}
        bn = zs.BayesianNet(observed=obs)
        if self.twist == "qobs":
            bn.normal("u", self.c(-3.), std=self.c(0.1))
            bn.deterministic("dq", self.c(5.))
        for i, nm in enumerate(self.names):
            m, s = 0.1 * (i + 1), 0.5 + 0.25 * i
            if self.layout == "full":
                mean = m + 0.1 * np.arange(np.prod(self.shape)).reshape(self.shape)
                mean = self.c(mean)
                if self.case["rt"]:
                    mean = tf.placeholder_with_default(mean, shape=None)
                bn.normal(nm, mean, std=self.c(s), is_reparameterized=(i % 2 == 0))
            else:
                ns = tf.placeholder_with_default(3, shape=[]) if self.case["rt"] else 3
                bn.normal(nm, self.c(m + np.zeros(self.shape[-1])), std=self.c(s), n_samples=ns)
        return bn

    def log_q_np(self, zv):
        r = 0.
        for i, nm in enumerate(self.names):
            m, s = 0.1 * (i + 1), 0.5 + 0.25 * i
            mean = m + 0.1 * np.arange(np.prod(self.shape)).reshape(self.shape) if self.layout == "full" else m
            r = r + npdf(zv[nm], mean, s)
        return r


def lme(x, axis):
    axis = tuple(axis) if isinstance(axis, list) else axis
    with np.errstate(all="ignore"):
        return sp.logsumexp(x, axis=axis) - np.log(np.prod([x.shape[a] for a in np.atleast_1d(axis)]))


def run_value(case, cx, tf, zs):
    V = zs.variational
    obj = case["obj"]
    with tf.Graph().as_default():
        todo = []
        for layout, twist in itertools.product(LAYOUTS, TWISTS):
            axes = AXES if layout == "full" else [None, 0, -1, [0]]
            if obj in ("iw", "is"):
                axes = [a for a in axes if a is not None]
            s = Setup(tf, zs, case, twist, layout)
            model, q = s.model(), s.posterior()
            for axis in axes:
                what = "%s(%s, %s, %d latents, axis=%r, %s, %s)" % (obj, case["form"], case["post"], case["n"], axis, twist, layout)
                cx.step()
                s.model_calls = 0
                if case["post"] == "variational":
                    post = {"variational": q}
                else:
                    post = {"latent": {nm: (q[nm].tensor, q.cond_log_prob(nm)) for nm in s.names}}
                observed = dict(s.observed)
                if obj == "is":
                    if "variational" in post:
                        post = {"proposal": post["variational"]}
                    t = zs.is_loglikelihood(model, observed, axis=axis, **post)
                    ts = {"value": t}
                elif obj == "klpq":
                    k = V.klpq(model, observed, axis=axis, **post)
                    if twist == "mutate":
                        observed["x"] = s.c(s.xval + 100.)
                    ts = {"cost": k.importance(), "rws": k.rws()}
                    try:
                        k.tensor
                    except NotImplementedError:
                        pass
                    else:
                        cx.fail(what + ": can be evaluated")
                else:
                    f = {"elbo": V.elbo, "iw": [V.importance_weighted_objective, V.iw_objective][case["n"] % 2]}[obj]
                    k = f(model, observed, axis=axis, **post)
                    if twist == "mutate":
                        observed["x"] = s.c(s.xval + 100.)
                    ts = {"value": k.tensor, "sgvb": k.sgvb(), "converted": tf.identity(k)}
                if obj != "is":
                    if case["form"] == "func":
                        cx.check(k.bn is None and k.meta_bn is None, what + ": there is a net")
                    else:
                        cx.check(k.meta_bn is model, what + ": meta_bn is another model")
                        for nm in s.names:
                            ts["bn:" + nm] = k.bn[nm].tensor
                            cx.check(k.bn[nm].is_observed(), what + ": latent %s is sampled anew" % nm)
                    cx.check(k.variational is (q if case["post"] == "variational" else None), what + ": variational")
                cx.check(s.model_calls == 1, "%s: the model was built %d times for one objective" % (what, s.model_calls))
                todo.append((what, s, axis, twist, {nm: q[nm].tensor for nm in s.names}, ts))
        conf = tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
        conf.graph_options.rewrite_options.disable_meta_optimizer = True
        with tf.Session(config=conf) as sess:
            res = sess.run([[t[4], t[5]] for t in todo])
        rtol, atol = (1e-8, 1e-8) if case["ft"] == "float64" else (1e-4, 1e-3)
        for (what, s, axis, twist, _, _), (zv, got) in zip(todo, res):
            zv = {k: v.astype(np.float64) for k, v in zv.items()}
            lp, lq = s.log_joint_np(zv), s.log_q_np(zv)
            full = np.broadcast_shapes(lp.shape, lq.shape)
            lp, lq = np.broadcast_to(lp, full), np.broadcast_to(lq, full)
            ax = tuple(axis) if isinstance(axis, list) else axis
            if obj == "elbo":
                want = lp - lq if axis is None else np.mean(lp - lq, ax)
            elif obj in ("iw", "is"):
                want = lme(lp - lq, axis)
            else:
                if axis is None:
                    want = -lq
                else:
                    w = lp - lq
                    w = np.exp(w - sp.logsumexp(w, axis=ax, keepdims=True))
                    want = np.sum(w * -lq, ax)
            for k, v in got.items():
                if k.startswith("bn:"):
                    nm = k[3:]
                    cx.close(v, np.broadcast_to(s.zobs, zv[nm].shape) if nm == s.prec else zv[nm], "%s: %s in the net" % (what, nm),
                             rtol=1e-6)
                else:
                    cx.close(v, -want if k == "sgvb" else want, "%s: %s" % (what, k), rtol=rtol, atol=atol)
            cx.trace()
            cx.state(what)
        cx.sample({"expression": todo[-1][0]})


def run_nolatent(case, cx, tf, zs):
    """an evidence lower bound without latent variables is the mean log joint"""
    calls = []
    xv = np.array([[0.3, -1.2, 2.], [0.7, 0.1, -0.4]])
    with tf.Graph().as_default(), tf.Session() as sess:
        for axis in (None, 0, 1, -1, [0], [0, 1]):
            what = "elbo without latents (%s, axis=%r)" % (case["form"], axis)

            def build():
                calls.append("net")
                bn = zs.BayesianNet()
                bn.normal("x", tf.get_variable("mu%r" % len(calls), initializer=np.float64(0.2)), std=tf.constant(0.7, tf.float64))
                bn.deterministic("d", tf.constant(1.))
                return bn

            def func(d):
                calls.append("func")
                cx.check(set(d) == {"x"}, what + ": the log joint function is given %r" % sorted(d))
                return zs.distributions.Normal(tf.constant(0.2, tf.float64), std=tf.constant(0.7, tf.float64)).log_prob(d["x"])
            del calls[:]
            model = func if case["form"] == "func" else zs.MetaBayesianNet(build)
            if case["form"] == "override":
                model.log_joint = lambda bn: bn.cond_log_prob("x") - tf.constant(3., tf.float64)
            q = zs.BayesianNet({"u": tf.constant(1.)})
            q.normal("u", 0., std=1.)
            q.deterministic("e", tf.constant(2.))
            with tf.variable_scope("s%d" % cx.transitions):
                k = zs.variational.elbo(model, {"x": tf.constant(xv)}, variational=q, axis=axis)
                v = [k.tensor, -k.sgvb(), -k.reinforce(), -k.reinforce(variance_reduction=False)]
                if case["form"] != "func":
                    cx.check(k.bn is k.bn and k.bn["x"].is_observed(), what + ": the net")
            cx.check(len(calls) == 1, "%s: the model was built %d times for one objective" % (what, len(calls)))
            sess.run(tf.global_variables_initializer())
            want = npdf(xv, 0.2, 0.7) - (3. if case["form"] == "override" else 0.)
            if axis is not None:
                want = np.mean(want, tuple(axis) if isinstance(axis, list) else axis)
            for nm, t in zip(("value", "-sgvb", "-reinforce", "-reinforce without variance reduction"), v):
                cx.close(sess.run(t), want, "%s: %s" % (what, nm), rtol=1e-8)
            cx.step()
            cx.state(what)
            cx.trace()


def run_errors(case, cx, tf, zs):
    V = zs.variational
    obj = case["obj"]

    def make(model, observed, **kw):
        if obj == "is":
            if "variational" in kw:
                kw["proposal"] = kw.pop("variational")
            return zs.is_loglikelihood(model, observed, **kw)
        if obj == "klpq":
            return V.klpq(model, observed, **kw).importance()
        return {"elbo": V.elbo, "iw": V.importance_weighted_objective}[obj](model, observed, **kw).tensor

    def expect(what, f, exc):
        cx.step()
        cx.trace()
        try:
            f()
        except exc:
            return
        cx.fail("%s: %s is not an error" % (obj, what))

    # every assignment of three model nodes to: observed, posterior, neither
    for assign in itertools.product(["obs", "post", "none"], repeat=3):
        for form in ("meta", "func"):
            with tf.Graph().as_default():
                names = ["a", "b", "x"]
                used = {}

                def model():
                    bn = zs.BayesianNet()
                    prev = 0.
                    for nm in names:
                        prev = bn.normal(nm, prev * tf.ones([2]), std=1.) * 1.
                    return bn

                def fn(d):
                    used.update(d)
                    return tf.zeros([3, 2])
                q = zs.BayesianNet()
                observed = {}
                for nm, a in zip(names, assign):
                    if a == "obs":
                        observed[nm] = tf.zeros([2])
                    elif a == "post":
                        q.normal(nm, tf.zeros([2]), std=1., n_samples=3)
                what = "%s %r" % (form, dict(zip(names, assign)))
                if form == "func":
                    if "post" not in assign:
                        continue
                    make(fn, observed, variational=q, axis=0)
                    cx.check(set(used) == {n for n, a in zip(names, assign) if a != "none"}, "%s: the function gets %r" % (
                        what, sorted(used)))
                    cx.step()
                elif "none" in assign:
                    expect(what, lambda: make(zs.MetaBayesianNet(model), observed, variational=q, axis=0), ValueError)
                elif "post" in assign:
                    make(zs.MetaBayesianNet(model), observed, variational=q, axis=0)
                    cx.step()
                elif obj == "elbo":
                    # nothing latent at all
                    t = make(zs.MetaBayesianNet(model), observed, variational=q)
                    with tf.Session() as sess:
                        cx.close(sess.run(t), np.full([2], 3 * npdf(0., 0., 1.)), what, rtol=1e-5)
                cx.state("errors", obj, form, assign)
    with tf.Graph().as_default():
        def model():
            bn = zs.BayesianNet()
            z = bn.normal("z", tf.zeros([2]), std=1., n_samples=3)
            bn.normal("x", z * 1., std=1.)
            return bn
        q = zs.BayesianNet()
        q.normal("z", tf.zeros([2]), std=1., n_samples=3)
        lat = {"z": [q["z"].tensor, q.cond_log_prob("z")]}
        obs = {"x": tf.zeros([2])}
        meta = zs.MetaBayesianNet(model)
        for m in (meta, lambda d: tf.zeros([3, 2])):
            expect("no posterior", lambda: make(m, obs, axis=0), ValueError)
            expect("two posteriors", lambda: make(m, obs, latent=lat, variational=q, axis=0), ValueError)
            expect("a posterior that is no net", lambda: make(m, obs, variational=lat, axis=0), TypeError)
            expect("a posterior that is a model", lambda: make(m, obs, variational=meta, axis=0), TypeError)
            make(m, obs, latent=lat, axis=0)
            make(m, obs, variational=q, axis=0)
            if obj in ("iw", "is"):
                expect("no axis", lambda: make(m, obs, variational=q), ValueError)
                expect("axis None", lambda: make(m, obs, latent=lat, axis=None), ValueError)
            else:
                make(m, obs, variational=q)
        if obj == "iw":
            # VIMCO needs at least two samples
            for ns, rt, ax in itertools.product((1, 2), (False, True), (0, -2, 1, -1)):
                n = tf.placeholder_with_default(np.int32(ns), shape=[]) if rt else ns
                q1 = zs.BayesianNet()
                if ax in (0, -2):
                    q1.normal("z", tf.zeros([2]), std=1., n_samples=n, is_reparameterized=False)
                    o1 = obs
                else:
                    q1.normal("z", tf.zeros([2, n]), std=1., is_reparameterized=False)
                    o1 = {"x": tf.zeros([2, 1])}

                def vimco():
                    t = V.importance_weighted_objective(lambda d: d["z"] + d["x"], o1, variational=q1, axis=ax).vimco()
                    with tf.Session() as sess:
                        return sess.run(t)
                if ns == 1:
                    expect("VIMCO with one sample (runtime %s, axis %d)" % (rt, ax), vimco, (ValueError, tf.errors.InvalidArgumentError))
                else:
                    cx.check(vimco().shape == (2,), "VIMCO cost has the wrong shape (axis %d)" % ax)


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan as zs
    {"value": run_value, "errors": run_errors, "nolatent": run_nolatent}[case["kind"]](case, cx, tf, zs)
