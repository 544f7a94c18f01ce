"""C11: gradient estimators, averaged over all outcomes of discrete latents, against the exact gradient of the bound."""
import itertools

import numpy as np
from scipy import special as sp

import noise

TECHNIQUE = ("exhaustive enumeration of all outcomes of discrete latents (and of all outcome histories over several iterations for "
             "stateful estimators) on the real code; oracle: exact gradient of the enumerated bound in float64")
LEVEL_NOTE = ("the expectation is exact because the outcome space is finite and fully enumerated; pathwise gradients are compared for "
              "a fixed set of noise vectors")
RULE = "a case is an estimator x model x numbers of samples and data x position of the sample axis x options"
ASSUMPTIONS = ["feeding a node's value replaces its sample and nothing else (gradients through samples are C04)",
               "the exact gradient is computed by central differences of the enumerated bound in float64"]
BOUNDS = {"quick": "3 discrete models (2, 4 and 6 outcomes per element), up to 3 samples, 1-2 data points, sample axis first, last, "
                   "in the middle, before two data axes, counted from the end or absent, number of samples known statically or at run time; REINFORCE histories of 2 iterations x 7 option sets; pathwise: 2 Gaussian models x 12 settings",
          "thorough": "as quick with up to 4 samples, REINFORCE histories of 3 iterations, 2 parameter points"}

MODELS = {"bern": 2, "two": 6, "vec": 4}
VR = ["off", "on", "decay0", "baseline", "vecbaseline", "basedecay", "offbaseline"]


def cases(tier):
    out = []
    deep = tier == "thorough"
    for pt in ([0, 1] if deep else [0]):
        for m in MODELS:
            for ax in ("first", "last", "neg", "none", "list"):
                for S, N in [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2)] + ([(4, 1)] if deep else []):
                    if ax == "none" and S > 1 or (MODELS[m] ** (S * N) > (300 if not deep else 1300)):
                        continue
                    if ax == "list" and N > 1:
                        continue
                    base = {"model": m, "axis": ax, "S": S, "N": N, "pt": pt}
                    if S > 1 and ax != "list":
                        out.append(dict(base, est="vimco"))
                    out.append(dict(base, est="importance"))
                    for v in VR:
                        n_out = MODELS[m] ** (S * N)
                        if n_out > 40 and v not in ("off", "on"):
                            continue
                        depth = 1 if v in ("off", "offbaseline") or n_out > 40 else (2 if not deep or n_out > 8 else 3)
                        out.append(dict(base, est="reinforce", vr=v, depth=depth))
            # axes counted from the end, in the middle, and numbers of samples known only at run time
            for ax in ("neg2", "mid", "midneg"):
                for S, N in [(2, 1), (3, 1), (2, 2)]:
                    if MODELS[m] ** (S * N) > 300:
                        continue
                    base = {"model": m, "axis": ax, "S": S, "N": N, "pt": pt}
                    out += [dict(base, est="vimco"), dict(base, est="importance"), dict(base, est="reinforce", vr="on", depth=1)]
            # two data axes behind the sample axis (4 data points form a square)
            for ax in ("lead3", "lead3neg"):
                for S, N in [(2, 1), (2, 2), (3, 2), (2, 4)]:
                    if MODELS[m] ** (S * N) > 300:
                        continue
                    base = {"model": m, "axis": ax, "S": S, "N": N, "pt": pt}
                    out += [dict(base, est="vimco"), dict(base, est="importance"), dict(base, est="reinforce", vr="on", depth=1)]
            for ax in ("first", "last", "neg", "neg2", "midneg"):
                for S, N in [(2, 1), (3, 2)]:
                    if MODELS[m] ** (S * N) > 300:
                        continue
                    base = {"model": m, "axis": ax, "S": S, "N": N, "pt": pt, "dyn": 1}
                    out += [dict(base, est="vimco"), dict(base, est="importance")]
        for m in ("g1", "g2"):
            for est in ("elbo", "iw"):
                for ax in ("first", "last", "neg", "none"):
                    for path in (False, True):
                        if est == "iw" and ax == "none":
                            continue
                        out.append({"est": "sgvb", "model": m, "axis": ax, "S": 1 if ax == "none" else 3, "N": 2, "path": path,
                                    "obj": est, "pt": pt})
    return out


def weight(c):
    if c["est"] == "sgvb":
        return 1
    n = MODELS[c["model"]] ** (c["S"] * c["N"])
    return 1.5 + 0.002 * n ** c.get("depth", 1)


class Disc(object):
    """Discrete model, mirrored in numpy and in zhusuan.  Elements: tuples of latent values."""

    def __init__(self, name, N, pt):
        self.name, self.N = name, N
        r = np.random.RandomState(7 + pt)
        self.x = np.array([0.7, -0.4, 1.1, 0.2])[:N] + 0.3 * pt
        if name == "bern":
            self.phi = {"a": r.randn(N) * 0.8}
            self.elems = [(0,), (1,)]
        elif name == "vec":
            self.phi = {"a": r.randn(N, 2) * 0.8}
            self.elems = [((i, j),) for i in (0, 1) for j in (0, 1)]
        else:
            self.phi = {"a": r.randn(N) * 0.8, "b": r.randn(3), "c": r.randn(3)}
            self.elems = [(i, j) for i in (0, 1) for j in (0, 1, 2)]
        self.theta = {"t0": np.array(0.3), "t1": np.array(1.2 + 0.2 * pt), "t3": np.array([0.2, -0.5, 0.4])}
        if name == "bern" or name == "vec":
            del self.theta["t3"]

    # numpy: z is a list of arrays [..., N(, 2)] with N last
    def logq(self, phi, z):
        def bern(l, v):
            return np.where(v > 0.5, -np.logaddexp(0, -l), -np.logaddexp(0, l))
        if self.name == "bern":
            return bern(phi["a"], z[0])
        if self.name == "vec":
            return bern(phi["a"], z[0]).sum(-1)
        l = phi["b"] + phi["c"] * z[0][..., None]
        l = l - sp.logsumexp(l, axis=-1, keepdims=True)
        return bern(phi["a"], z[0]) + np.take_along_axis(l, z[1][..., None].astype(int), -1)[..., 0]

    def logp(self, th, z):
        def bern(l, v):
            return np.where(v > 0.5, -np.logaddexp(0, -l), -np.logaddexp(0, l))
        if self.name == "bern":
            lp, m = bern(th["t0"], z[0]), th["t1"] * z[0]
        elif self.name == "vec":
            lp, m = bern(th["t0"], z[0]).sum(-1), th["t1"] * z[0][..., 0] - 0.6 * z[0][..., 1]
        else:
            l = th["t3"] - sp.logsumexp(th["t3"])
            lp = bern(th["t0"], z[0]) + l[z[1].astype(int)]
            m = th["t1"] * z[0] + 0.5 * z[1] * z[0] - 0.3 * z[1]
        return lp - 0.5 * np.log(2 * np.pi) - 0.5 * (self.x - m) ** 2

    def outcomes(self, S):
        """all outcomes: list of z arrays lists, [S, N(,2)]"""
        k = S * self.N
        for idx in itertools.product(range(len(self.elems)), repeat=k):
            el = [self.elems[i] for i in idx]
            z = []
            for j in range(len(el[0])):
                a = np.array([e[j] for e in el])
                z.append(a.reshape((S, self.N) + a.shape[1:]))
            yield z


class Build(object):
    """the same model in zhusuan"""

    def __init__(self, tf, zs, case, d):
        self.tf, self.zs, self.d, self.case = tf, zs, d, case
        S, N, ax = case["S"], case["N"], case["axis"]
        self.phi = {k: tf.get_variable("phi_" + k, initializer=tf.constant(v)) for k, v in sorted(d.phi.items())}
        self.theta = {k: tf.get_variable("theta_" + k, initializer=tf.constant(v)) for k, v in sorted(d.theta.items())}
        # layout of the sample axis
        if ax in ("first", "list"):
            self.axis = 0 if ax == "first" else [0]
        elif ax == "last":
            self.axis = 1
        elif ax == "neg":
            self.axis = -1
        elif ax in ("neg2", "midneg"):
            self.axis = -2
        elif ax == "mid":
            self.axis = 1
        elif ax in ("lead3", "lead3neg"):
            self.axis = 0 if ax == "lead3" else -3
        else:
            self.axis = None
        self.tail = ax in ("last", "neg", "mid", "midneg")
        self.unit = [1] if ax in ("mid", "midneg") else []
        if case.get("dyn"):
            S = tf.placeholder_with_default(np.int32(S), [])
        tail = [N, 1] + self.unit
        self.lead = ([2, 2] if N == 4 else [N, 1]) if ax.startswith("lead3") else None
        dims = tail if self.tail else self.lead or [N]
        self.x = tf.constant(d.x)
        q = self.q = zs.BayesianNet()

        def lay(t, extra=0):
            """parameter [N, ...] -> layout with the sample axis after N"""
            if self.lead:
                return tf.reshape(t, self.lead + [2] * extra)
            if not self.tail:
                return t
            t = tf.expand_dims(t, 1)
            if self.unit:
                t = tf.expand_dims(t, 2)
            return tf.tile(t, [1, S] + self.unit + [1] * (extra))
        ns = None if self.tail or ax == "none" else S
        if d.name == "bern":
            q.bernoulli("z0", lay(self.phi["a"]), n_samples=ns)
        elif d.name == "vec":
            q.bernoulli("z0", lay(self.phi["a"], 1), n_samples=ns, group_ndims=1)
        else:
            z0 = q.bernoulli("z0", lay(self.phi["a"]), n_samples=ns)
            q.categorical("z1", self.phi["b"] + self.phi["c"] * tf.expand_dims(tf.cast(z0, tf.float64), -1))
        self.names = ["z0", "z1"] if d.name == "two" else ["z0"]

        def model():
            bn = zs.BayesianNet()
            shape = tf.ones(dims, tf.float64)
            th = self.theta
            if d.name == "vec":
                z = bn.bernoulli("z0", th["t0"] * tf.ones(dims + [2], tf.float64), group_ndims=1)
                zf = tf.cast(z, tf.float64)
                m = th["t1"] * zf[..., 0] - 0.6 * zf[..., 1]
            elif d.name == "bern":
                z = bn.bernoulli("z0", th["t0"] * shape)
                m = th["t1"] * tf.cast(z, tf.float64)
            else:
                z0 = tf.cast(bn.bernoulli("z0", th["t0"] * shape), tf.float64)
                z1 = tf.cast(bn.categorical("z1", th["t3"] + tf.zeros(dims + [3], tf.float64)), tf.float64)
                m = th["t1"] * z0 + 0.5 * z1 * z0 - 0.3 * z1
            bn.normal("x", m, std=tf.constant(1., tf.float64))
            return bn
        self.meta = zs.MetaBayesianNet(model)
        self.observed = {"x": tf.reshape(self.x, dims)}

    def feed(self, z):
        f = {}
        for nm, v in zip(self.names, z):
            if self.tail:
                v = np.moveaxis(v, 0, 1)
                if self.unit:
                    v = np.expand_dims(v, 2)
            elif self.axis is None:
                v = v[0]
            elif self.lead:
                v = v.reshape(v.shape[:1] + tuple(self.lead) + v.shape[2:])
            f[self.q[nm].tensor] = v.astype(np.int32)
        return f


def fd(f, P, h=1e-5):
    """central differences of the scalar f with respect to every entry of the dict of arrays"""
    out = {}
    for k, v in P.items():
        g = np.zeros_like(v)
        it = np.ndindex(*v.shape) if v.shape else [()]
        for i in it:
            a, b = dict(P), dict(P)
            u = v.copy()
            u[i] += h
            a[k] = u
            w = v.copy()
            w[i] -= h
            b[k] = w
            g[i] = (f(a) - f(b)) / (2 * h)
        out[k] = g
    return out


def run_disc(case, cx, tf, zs):
    d = Disc(case["model"], case["N"], case["pt"])
    S, N, est = case["S"], case["N"], case["est"]
    V = zs.variational
    outs = list(d.outcomes(S))
    Z = [np.stack([o[j] for o in outs]) for j in range(len(outs[0]))]          # [M, S, N(,2)]
    P = np.exp(d.logq(d.phi, Z).sum((1, 2)))
    cx.check(abs(P.sum() - 1) < 1e-9, "harness: probabilities of the outcomes do not sum to one")
    with tf.Graph().as_default():
        b = Build(tf, zs, case, d)
        base_vars = []
        extra = {}
        if est == "reinforce":
            obj = V.elbo(b.meta, b.observed, variational=b.q, axis=b.axis)
            vr = case["vr"]
            kw = {}
            if vr in ("off", "offbaseline"):
                kw["variance_reduction"] = False
            if vr in ("decay0", "basedecay"):
                kw["decay"] = {"decay0": 0.05, "basedecay": 0.5}[vr]
            if "base" in vr:
                w = tf.get_variable("w", initializer=tf.constant(np.array([0.4, -0.3])))
                bl = w[0] * b.x + w[1] if vr == "vecbaseline" or vr == "basedecay" else w[0]
                if b.tail and bl.get_shape().ndims:
                    bl = tf.reshape(bl, [N, 1] + b.unit)
                kw["baseline"] = bl
                wv = np.array([0.4, -0.3])
                bl_np = wv[0] * d.x + wv[1] if vr in ("vecbaseline", "basedecay") else np.full(N, wv[0])
                base_vars = [w]
            r = obj.reinforce(**kw)
            if "base" in vr and vr != "offbaseline":
                cx.check(isinstance(r, tuple) and len(r) == 2, "reinforce with a baseline returns %r" % (r,))
                cost = tf.reduce_sum(r[0]) + tf.reduce_sum(r[1])
                extra["basegrad"] = tf.gradients(tf.reduce_sum(r[1]), base_vars)
                extra["costbase"] = tf.gradients(tf.reduce_sum(r[0]), base_vars)
                cx.check(extra.pop("costbase") == [None], "the cost moves the baseline")
            else:
                cx.check(isinstance(r, tf.Tensor), "reinforce returns %r" % (r,))
                cost = tf.reduce_sum(r)
        elif est == "vimco":
            obj = V.importance_weighted_objective(b.meta, b.observed, variational=b.q, axis=b.axis)
            cost = tf.reduce_sum(obj.vimco())
        else:
            obj = V.klpq(b.meta, b.observed, variational=b.q, axis=b.axis)
            cost = tf.reduce_sum(obj.importance())
        pn, tn = sorted(d.phi), sorted(d.theta)
        targets = [b.phi[k] for k in pn] + ([b.theta[k] for k in tn] if est != "importance" else [])
        grads = tf.gradients(cost, targets)
        for k, g in zip(pn + tn, grads):
            cx.check(g is not None, "no gradient for %s" % k)
        fetch = [tf.convert_to_tensor(g) for g in grads] + [t for v in extra.values() for t in v]
        trainable = {v.name for v in targets + base_vars}
        state = [v for v in tf.global_variables() if v.name not in trainable]
        ph = [tf.placeholder(v.dtype.base_dtype, v.get_shape()) for v in state]
        setst = tf.group(*[tf.assign(v, p) for v, p in zip(state, ph)]) if state else None
        with tf.Session() as sess:
            sess.run(tf.global_variables_initializer())
            feeds = [b.feed(o) for o in outs]
            keys = sorted(feeds[0], key=lambda t: t.name)
            call = sess.make_callable(fetch, feed_list=keys)

            def run(i):
                cx.step()
                return call(*[feeds[i][k] for k in keys])

            def save():
                return sess.run(state)

            def load(s):
                if state:
                    sess.run(setst, dict(zip(ph, s)))
            what = "%s %s" % (est, {k: v for k, v in case.items() if k != "est"})
            if est == "importance":
                # deterministic given the samples
                for i, o in enumerate(outs):
                    lq, lp = d.logq(d.phi, o), d.logp(d.theta, o)
                    w = lp - lq
                    w = np.exp(w - sp.logsumexp(w, axis=0)) if b.axis is not None else np.ones_like(w)
                    want = fd(lambda p: -np.sum(w * d.logq(p, o)), d.phi)
                    got = run(i)
                    for k, g in zip(pn, got):
                        cx.close(g, want[k], "%s: gradient for %s at outcome %r" % (what, k, [v.tolist() for v in o]),
                                 rtol=1e-6, atol=1e-7)
                    cx.state(what, i)
                    cx.trace()
                return

            def bound(phi, th):
                lw = d.logp(th, Z) - d.logq(phi, Z)                     # [M, S, N]
                p = np.exp(d.logq(phi, Z).sum((1, 2)))
                v = lw.mean(1) if est == "reinforce" else sp.logsumexp(lw, axis=1) - np.log(S)
                return np.sum(p * v.sum(-1))
            want = fd(lambda p: -bound(p, d.theta), d.phi)
            want.update(fd(lambda t: -bound(d.phi, t), d.theta))

            def expect(hist):
                """enumerate the next iteration after the history; returns states after each outcome"""
                s0 = save()
                acc, after = None, []
                for i in range(len(outs)):
                    load(s0)
                    g = run(i)
                    if not hist or est == "reinforce":
                        per_outcome(i, g, hist)
                    acc = [P[i] * np.asarray(x) for x in g] if acc is None else [a + P[i] * np.asarray(x) for a, x in zip(acc, g)]
                    after.append(save())
                for k, g in zip(pn + tn, acc):
                    cx.close(g, want[k], "%s: expected gradient for %s after history %r" % (what, k, hist), rtol=1e-5, atol=1e-6)
                cx.trace()
                cx.state(what, tuple(hist))
                return after

            memo = {}

            def score(i):
                """log weights of outcome i less the baseline, and the scores of all elements [S, N, ...]"""
                if i not in memo:
                    o = outs[i]
                    jac = {}
                    for names, P_, f in ((pn, d.phi, lambda p: d.logq(p, o)), (tn, d.theta, lambda p: d.logp(p, o))):
                        for k in names:
                            v = P_[k]
                            J = np.zeros((S, N) + v.shape)
                            for idx in np.ndindex(*v.shape):
                                u, w_ = v.copy(), v.copy()
                                u[idx] += 1e-5
                                w_[idx] -= 1e-5
                                J[(slice(None), slice(None)) + idx] = (f(dict(P_, **{k: u})) - f(dict(P_, **{k: w_}))) / 2e-5
                            jac[k] = J
                    sig = d.logp(d.theta, o) - d.logq(d.phi, o)
                    memo[i] = sig, jac
                return memo[i]

            def learning_signal(i):
                sig = score(i)[0]
                return sig - bl_np if "base" in vr and vr != "offbaseline" else sig

            def reinforce_outcome(i, g, hist):
                """the learning signal is that of the documentation: less the baseline and the moving mean of the earlier ones"""
                mm, wsum, dec = 0., 0., kw.get("decay", 0.8)
                if kw.get("variance_reduction", True):
                    for h in hist:
                        mm = dec * mm + (1 - dec) * learning_signal(h).mean()
                        wsum = dec * wsum + (1 - dec)
                    mm = mm / wsum if hist else 0.
                l = learning_signal(i) - mm
                jac = score(i)[1]
                n = S if b.axis is not None else 1
                for k, x in zip(pn + tn, g):
                    w_ = l if k in pn else np.ones_like(l)
                    cx.close(x, -np.tensordot(w_, jac[k], axes=([0, 1], [0, 1])) / n,
                             "%s: gradient for %s at outcome %d after history %r (learning signal, baseline, moving mean)" % (what, k, i, hist),
                             rtol=1e-5, atol=1e-6)
                if "basegrad" in extra:
                    e = -learning_signal(i)
                    gw = np.array([np.sum(e * (d.x if vr != "baseline" else 1.)), np.sum(e) if vr != "baseline" else 0.]) / n
                    got = g[len(pn + tn)]
                    cx.close(got, gw, "%s: gradient of the baseline cost at outcome %d" % (what, i), rtol=1e-5, atol=1e-6)

            def per_outcome(i, g, hist):
                if est == "reinforce":
                    reinforce_outcome(i, g, hist)
                    return
                if est != "vimco":
                    return
                # the estimator with the baselines of the paper
                o = outs[i]
                lw = d.logp(d.theta, o) - d.logq(d.phi, o)
                L = sp.logsumexp(lw, axis=0) - np.log(S)
                sig = np.zeros_like(lw)
                for s in range(S):
                    rest = np.delete(lw, s, 0)
                    cv = sp.logsumexp(np.concatenate([rest, rest.mean(0, keepdims=True)]), axis=0) - np.log(S)
                    sig[s] = L - cv
                wt = fd(lambda p: -np.sum(sig * d.logq(p, o)) - np.sum(sp.logsumexp(d.logp(d.theta, o) - d.logq(p, o), axis=0)), d.phi)
                for k, x in zip(pn, g):
                    cx.close(x, wt[k], "%s: gradient for %s at outcome %r" % (what, k, [v.tolist() for v in o]), rtol=1e-5, atol=1e-6)

            after = expect([])
            if case.get("depth", 1) > 1:
                frontier = [([i], s) for i, s in enumerate(after)]
                for k in range(1, case["depth"]):
                    nxt = []
                    for hist, s in frontier:
                        load(s)
                        a = expect(hist)
                        if k + 1 < case["depth"]:
                            nxt += [(hist + [i], t) for i, t in enumerate(a)]
                    frontier = nxt
            cx.sample({"case": case, "outcomes": len(outs)})


def run_sgvb(case, cx, tf, zs):
    """pathwise gradient for fixed noise"""
    S, N, ax = case["S"], case["N"], case["axis"]
    two = case["model"] == "g2"
    r = np.random.RandomState(3 + case["pt"])
    phi = {"m": r.randn(N), "ls": r.randn(N) * 0.3}
    if two:
        phi["w"] = np.array(0.7)
    th = {"t": np.array(0.6), "lx": np.array(-0.2)}
    x = np.array([0.5, -1.0])
    tail = ax in ("last", "neg")
    axis = {"first": 0, "last": 1, "neg": -1, "none": None}[ax]
    V = zs.variational
    with tf.Graph().as_default():
        pv = {k: tf.get_variable("p_" + k, initializer=tf.constant(v)) for k, v in sorted(phi.items())}
        tv = {k: tf.get_variable("t_" + k, initializer=tf.constant(v)) for k, v in sorted(th.items())}
        q = zs.BayesianNet()

        def lay(t):
            return tf.tile(tf.expand_dims(t, 1), [1, S]) if tail else t
        ns = None if tail or ax == "none" else S
        kw = dict(use_path_derivative=True) if case["path"] else {}
        z = q.normal("z", lay(pv["m"]), logstd=lay(pv["ls"]), n_samples=ns, **kw)
        if two:
            q.normal("y", z * pv["w"], std=tf.constant(0.5, tf.float64), **kw)

        def model():
            bn = zs.BayesianNet()
            o = tf.ones([N, 1] if tail else [N], tf.float64)
            z = bn.normal("z", 0. * o, std=tv["t"] * o + 1.)
            m = z * tv["t"]
            if two:
                y = bn.normal("y", z * 0.3, std=o)
                m = m + y * y
            bn.normal("x", m, logstd=tv["lx"] * o)
            return bn
        obs = {"x": tf.constant(x[:, None] if tail else x)}
        f = V.elbo if case["obj"] == "elbo" else V.importance_weighted_objective
        k = f(zs.MetaBayesianNet(model), obs, variational=q, axis=axis)
        cost = k.sgvb()
        names = sorted(pv) + sorted(tv)
        grads = tf.gradients(tf.reduce_sum(cost), [pv[n] for n in sorted(pv)] + [tv[n] for n in sorted(tv)])
        for n, g in zip(names, grads):
            cx.check(g is not None, "no pathwise gradient for %s" % n)

        def logn(v, m, ls):
            return -0.5 * np.log(2 * np.pi) - ls - 0.5 * ((v - m) / np.exp(ls)) ** 2

        def bound(P, T, P0, eps):
            z = P["m"] + np.exp(P["ls"]) * eps[0]
            if case["path"]:
                # the variational density keeps its parameters; they only act through the values
                PQ = P0
            else:
                PQ = P
            lq = logn(z, PQ["m"], PQ["ls"])
            lp = logn(z, 0., np.log(T["t"] + 1.))
            m = z * T["t"]
            if two:
                y = P["w"] * z + 0.5 * eps[1]
                # the mean of y given z: its z is a value, its weight a parameter; both are parameters of the node
                zq = P0["m"] + np.exp(P0["ls"]) * eps[0] if case["path"] else z
                lq = lq + logn(y, PQ["w"] * zq, np.log(0.5))
                lp = lp + logn(y, 0.3 * z, 0.)
                m = m + y * y
            lp = lp + logn(x, m, T["lx"])
            lw = lp - lq
            return np.sum(lw) if case["obj"] == "elbo" and ax == "none" else \
                np.sum(lw.mean(0)) if case["obj"] == "elbo" else np.sum(sp.logsumexp(lw, axis=0) - np.log(S))
        with tf.Session() as sess:
            sess.run(tf.global_variables_initializer())
            need = [q["z"].tensor] + ([q["y"].tensor] if two else [])
            ns_, other = noise.own(sess, need)
            cx.check(not other, "random numbers the harness does not own: %r" % other)
            cx.check(len(ns_) == len(need), "number of random ops: %d" % len(ns_))
            for salt in range(6 if cx.tier == "quick" else 20):
                feed = {n.op.outputs[0]: n.base(salt + 5 * i) for i, n in enumerate(ns_)}
                zv, got, val = sess.run([need, grads, cost], feed)
                # noise in the order [S, N] recovered from the sampled values
                mv = [np.moveaxis(v, 1, 0) if tail else v for v in zv]
                if ax == "none":
                    mv = [v[None] for v in mv]
                eps = [(mv[0] - phi["m"]) / np.exp(phi["ls"])]
                if two:
                    eps.append((mv[1] - phi["w"] * mv[0]) / 0.5)
                want = fd(lambda P: -bound(P, th, phi, eps), phi)
                want.update(fd(lambda T: -bound(phi, T, phi, eps), th))
                cx.close(np.sum(val), -bound(phi, th, phi, eps), "value of the cost", rtol=1e-8)
                for n, g in zip(names, got):
                    cx.close(g, want[n], "pathwise gradient for %s %r noise %d" % (n, case, salt), rtol=1e-5, atol=1e-6)
                cx.step()
                cx.trace()
                cx.state("sgvb", case, salt)


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan as zs
    (run_sgvb if case["est"] == "sgvb" else run_disc)(case, cx, tf, zs)
