"""Targets for the MCMC checks (in numpy float64 and in tensorflow) and the documented HMC transition and adaptation."""
import numpy as np


class Target(object):
    """names, data shapes; logp/grad over dicts of arrays chain + data; tf log joint over dicts of tensors."""

    def __init__(self, name):
        self.name = name
        self.obs = {}
        if name == "gauss":            # one latent, no data axes
            self.data = {"x": ()}
        elif name == "iso":            # one latent, vector
            self.data = {"x": (2,)}
        elif name == "pair":           # two coupled latents of different rank, observed value
            self.data = {"b": (), "a": (2,)}
            self.obs = {"y": np.array([0.7, -0.3], np.float32)}
        elif name == "deep":           # matrix latent and vector latent
            self.data = {"v": (2,), "m": (2, 1)}
        elif name == "twin":           # three coupled latents, two of the same shape
            self.data = {"c": (2,), "d": (2,), "e": ()}
        elif name == "half":           # support x > 0: log of a negative number is undefined
            self.data = {"x": ()}
        elif name == "quartic":        # stiff: large steps diverge
            self.data = {"x": (1,)}
        elif name in ("pole", "wall"):  # the density is infinite (zero) beyond 1.2
            self.data = {"x": ()}
        self.names = list(self.data)

    def bc(self, a, chain):
        return np.asarray(a, np.float64)

    def _np(self, q, obs):
        n = self.name
        if n == "gauss":
            x = q["x"]
            return -0.5 * (x - 0.3) ** 2 / 0.49, {"x": -(x - 0.3) / 0.49}
        if n == "iso":
            x = q["x"]
            c = np.array([0.2, -0.4])
            s = np.array([1.0, 4.0])
            return (-0.5 * s * (x - c) ** 2).sum(-1), {"x": -s * (x - c)}
        if n == "pair":
            a, b = q["a"], q["b"]
            y = np.asarray(obs["y"], np.float64)
            r = y - a * b[..., None]
            lp = -0.5 * b ** 2 - 0.5 * (a ** 2).sum(-1) - 0.5 * (r ** 2).sum(-1)
            return lp, {"a": -a + r * b[..., None], "b": -b + (r * a).sum(-1)}
        if n == "deep":
            v, m = q["v"], q["m"][..., 0]
            lp = -0.5 * (v ** 2).sum(-1) - (m ** 2).sum(-1) - 0.25 * (v * m).sum(-1) ** 2
            s = (v * m).sum(-1)[..., None]
            return lp, {"v": -v - 0.5 * s * m, "m": (-2 * m - 0.5 * s * v)[..., None]}
        if n == "twin":
            c, d, e = q["c"], q["d"], q["e"]
            r = c - 2 * d
            lp = -0.5 * (r ** 2).sum(-1) - 0.5 * (d ** 2).sum(-1) - (e - c[..., 0]) ** 2
            g = 2 * (e - c[..., 0])
            return lp, {"c": -r + np.stack([g, 0 * g], -1), "d": 2 * r - d, "e": -g}
        if n == "half":
            x = q["x"]
            with np.errstate(all="ignore"):
                return 2 * np.log(x) - x, {"x": 2 / x - 1}
        if n in ("pole", "wall"):
            x = q["x"]
            with np.errstate(all="ignore"):
                return np.where(x > 1.2, np.inf if n == "pole" else -np.inf, -0.5 * x ** 2), {"x": np.where(x > 1.2, 0., -x)}
        if n == "quartic":
            x = q["x"]
            with np.errstate(all="ignore"):
                return (-x ** 4 / 4).sum(-1), {"x": -x ** 3}

    def logp(self, q, obs=None):
        return self._np(q, obs or self.obs)[0]

    def grad(self, q, obs=None):
        return self._np(q, obs or self.obs)[1]

    def tf_log_joint(self, tf):
        n = self.name

        def f(d):
            if n == "gauss":
                return -0.5 * tf.square(d["x"] - 0.3) / 0.49
            if n == "iso":
                return tf.reduce_sum(-0.5 * tf.constant([1., 4.]) * tf.square(d["x"] - tf.constant([0.2, -0.4])), -1)
            if n == "pair":
                r = d["y"] - d["a"] * tf.expand_dims(d["b"], -1)
                return -0.5 * tf.square(d["b"]) - 0.5 * tf.reduce_sum(tf.square(d["a"]), -1) - 0.5 * tf.reduce_sum(tf.square(r), -1)
            if n == "deep":
                v, m = d["v"], d["m"][..., 0]
                return (-0.5 * tf.reduce_sum(tf.square(v), -1) - tf.reduce_sum(tf.square(m), -1)
                        - 0.25 * tf.square(tf.reduce_sum(v * m, -1)))
            if n == "twin":
                return (-0.5 * tf.reduce_sum(tf.square(d["c"] - 2. * d["d"]), -1) - 0.5 * tf.reduce_sum(tf.square(d["d"]), -1)
                        - tf.square(d["e"] - d["c"][..., 0]))
            if n == "half":
                return 2 * tf.log(d["x"]) - d["x"]
            if n in ("pole", "wall"):
                x = d["x"]
                b = tf.fill(tf.shape(x), tf.constant(np.inf if n == "pole" else -np.inf, tf.float32))
                b.set_shape(x.get_shape())
                return tf.where(x > 1.2, b, -0.5 * tf.square(x))
            if n == "quartic":
                return tf.reduce_sum(-d["x"] ** 4 / 4, -1)
        return f

    def meta(self, tf, zs):
        """the same target as a model (pair only; equal up to a constant)"""
        assert self.name == "pair"

        def build():
            bn = zs.BayesianNet()
            b = bn.normal("b", tf.zeros(self.chain), std=1.)
            a = bn.normal("a", tf.zeros(tuple(self.chain) + (2,)), std=1., group_ndims=1)
            bn.normal("y", a * tf.expand_dims(b, -1), std=1., group_ndims=1)
            return bn
        return zs.MetaBayesianNet(build)

    meta_const = -2.5 * np.log(2 * np.pi)


def ex(c, n):
    """append n axes"""
    return c.reshape(c.shape + (1,) * n)


class HMCRef(object):
    """float64 model of one HMC iteration.  State is explicit so that it can be saved and restored."""

    def __init__(self, target, chain, step_size=1., n_leapfrogs=10, adapt_step=False, target_rate=0.8, gamma=0.05, t0=100.,
                 kappa=0.75, adapt_mass=False, mass_collect_iters=10, mass_decay=0.99, const=0.0):
        self.T, self.chain, self.L = target, tuple(chain), n_leapfrogs
        self.adapt_step, self.adapt_mass = adapt_step, adapt_mass      # whether the machinery exists at all
        self.target_rate, self.gamma, self.t0, self.kappa = target_rate, gamma, t0, kappa
        self.mci = mass_collect_iters if adapt_mass else 0
        self.decay = mass_decay
        self.const = const
        self.mu = np.log(10. * step_size)
        nd = len(self.chain)
        sh = {k: (1,) * nd + tuple(d) for k, d in target.data.items()}
        self.s = {"t": 0, "eps": float(step_size), "step": 0.0, "hbar": 0.0, "lbar": np.log(step_size), "wt": 0.0,
                  "mean": {k: np.zeros(v) for k, v in sh.items()}, "var": {k: np.zeros(v) for k, v in sh.items()}}
        self.margin = np.inf

    def save(self):
        s = dict(self.s)
        s["mean"], s["var"] = dict(s["mean"]), dict(s["var"])
        return s

    def load(self, s):
        self.s = dict(s)
        self.s["mean"], self.s["var"] = dict(s["mean"]), dict(s["var"])

    # -- pieces
    def traj(self, q, p, mass, eps, L):
        T = self.T
        q, p = dict(q), dict(p)
        with np.errstate(all="ignore"):
            g = T.grad(q)
            p = {k: p[k] + eps / 2 * g[k] for k in p}
            for i in range(L):
                q = {k: q[k] + eps * p[k] / mass[k] for k in q}
                g = T.grad(q)
                h = eps if i < L - 1 else eps / 2
                p = {k: p[k] + h * g[k] for k in p}
        return q, p

    def energy(self, q, p, mass):
        with np.errstate(all="ignore"):
            lp = self.T.logp(q) + self.const
            kin = 0
            for k in p:
                a = p[k] ** 2 / mass[k]
                kin = kin + 0.5 * a.reshape(a.shape[:len(self.chain)] + (-1,)).sum(-1)
            return -lp + kin, lp

    def rate(self, q, p, nq, np_, mass):
        h0, l0 = self.energy(q, p, mass)
        h1, l1 = self.energy(nq, np_, mass)
        with np.errstate(all="ignore"):
            a = np.exp(np.minimum(h0 - h1, 0))
        a = np.where(np.isfinite(a) & np.isfinite(l1), a, 0.)
        return h0, h1, l0, l1, a

    def mass_of(self, q, adapt_mass):
        """updates the moving variance; the mass used in iteration s['t'] (already incremented)"""
        s = self.s
        ones = {k: np.ones_like(v) for k, v in s["mean"].items()}
        if not self.adapt_mass:
            return ones
        ax = tuple(range(len(self.chain)))
        if adapt_mass:
            s["wt"] += 1
            w = (1 - self.decay) / (1 - self.decay ** s["wt"])
            for k in q:
                m0 = s["mean"][k]
                m1 = m0 + w * np.mean(q[k] - m0, axis=ax, keepdims=True)
                s["var"][k] = (1 - w) * s["var"][k] + w * np.mean((q[k] - m0) * (q[k] - m1), axis=ax, keepdims=True)
                s["mean"][k] = m1
        if s["t"] < self.mci:
            return ones
        return {k: np.where(v > 0, 1 / np.where(v > 0, v, 1), 1.) for k, v in s["var"].items()}

    def begin(self, q, on_step, on_mass):
        """first half: mass of this iteration"""
        self.s["t"] += 1
        self.mass = self.mass_of(q, on_mass)
        return self.mass

    def finish(self, q, p, u, on_step, rate=None):
        """rate: the reported (and separately compared) acceptance rate, used for the decision itself"""
        s, mass = self.s, self.mass
        fresh = False
        eps = s["eps"]
        if self.adapt_step and on_step and (s["t"] == 1 or s["t"] == self.mci):
            fresh = True
            last, go = 1.0, True
            n = 0
            while go:
                nq, np_ = self.traj(q, p, mass, eps, 1)
                acc = float(np.mean(self.rate(q, p, nq, np_, mass)[4]))
                self.margin = min(self.margin, abs(acc - self.target_rate))
                go = (last < self.target_rate) == (acc < self.target_rate)
                eps = eps / 1.5 if acc < self.target_rate else eps * 1.5
                last = acc
                n += 1
                assert n < 200
        nq, np_ = self.traj(q, p, mass, eps, self.L)
        h0, h1, l0, l1, a = self.rate(q, p, nq, np_, mass)
        ok = u < (a if rate is None else np.asarray(rate, np.float64))
        new = {k: np.where(ex(ok, nq[k].ndim - ok.ndim), nq[k], q[k]) for k in q}
        if self.adapt_step:
            if on_step:
                f = 1.0 if fresh else 0.0
                s["step"] = (1 - f) * s["step"] + 1
                r1 = 1 / (s["step"] + self.t0)
                s["hbar"] = (1 - f) * (1 - r1) * s["hbar"] + r1 * (self.target_rate - np.mean(a if rate is None else np.asarray(rate, np.float64)))
                le = self.mu - np.sqrt(s["step"]) / self.gamma * s["hbar"]
                r = s["step"] ** -self.kappa
                s["lbar"] = r * le + (1 - f) * (1 - r) * s["lbar"]
                s["eps"] = float(np.exp(le))
            else:
                s["eps"] = float(np.exp(s["lbar"]))
        return {"samples": new, "acceptance_rate": a, "updated_step_size": s["eps"], "orig_hamiltonian": h0, "hamiltonian": h1,
                "orig_log_prob": l0, "log_prob": np.where(ok, l1, l0), "accepted": ok, "prop": nq, "prop_p": np_, "eps": eps}
