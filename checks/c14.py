"""C14: SGLD, PSGLD, SGHMC, SGNHT: every history of calls (mini-batch, learning rate, noise) against the documented update."""
import itertools

import numpy as np

import noise

TECHNIQUE = ("explicit-state depth-first exploration of all call histories (mini-batch x learning rate x noise per call) on the real "
             "samplers with owned randomness and saved/restored variables, in lockstep with an explicit float64 model of the update")
LEVEL_NOTE = "bounded depth and alphabets; the noise enters element by element, so its law and independence follow from the match"
RULE = "a case is a sampler x options x target x chain shape x way of giving arguments; its histories are all explored"
ASSUMPTIONS = ["all state between calls lives in the variables of the graph",
               "random operators deliver independent standard normal numbers (TensorFlow)"]
BOUNDS = {"quick": "4 samplers, both integrators, scalar/vector friction, 4 targets (one with latent variables of equal shape), 0-2 chain axes; all histories over "
                   "2 mini-batches x 2 learning rates x 2 noises to depth 3; resampling periods 0,None,1,2,3,5 over 2n+2 calls",
          "thorough": "as quick with depth 4 and more hyperparameters"}


def settings(tier):
    deep = tier == "thorough"
    S = [("SGLD", {}), ("PSGLD", {}), ("PSGLD", {"hps": [0.5, 0.1]}), ("PSGLD", {"hps": [0.99, 1e-5]})]
    for so in (True, False):
        S.append(("SGHMC", {"second_order": so}))
        S.append(("SGHMC", {"second_order": so, "friction": 0.4, "variance_estimate": 0.1, "n_iter_resample_v": 2}))
        S.append(("SGHMC", {"second_order": so, "friction": 0.1, "n_iter_resample_v": None}))
        for va in (True, False):
            S.append(("SGNHT", {"second_order": so, "use_vector_alpha": va}))
            S.append(("SGNHT", {"second_order": so, "use_vector_alpha": va, "variance_extra": 0.3, "tune_rate": 2.0, "n_iter_resample_v": 2}))
            if deep:
                S.append(("SGNHT", {"second_order": so, "use_vector_alpha": va, "variance_extra": 0.05, "tune_rate": 0.5, "n_iter_resample_v": 3}))
    return S


def cases(tier):
    deep = tier == "thorough"
    out = []
    for alg, kw in settings(tier):
        for t, chain in (("pair", [2]), ("deep", [1, 2]), ("gauss", []), ("twin", [2])):
            out.append({"kind": "history", "alg": alg, "kw": kw, "target": t, "chain": chain, "depth": 4 if deep else 3})
    for alg in ("SGHMC", "SGNHT"):
        for so in (True, False):
            for n in (0, None, 1, 2, 3, 5, "t2", "ph3"):
                out.append({"kind": "resample", "alg": alg, "kw": {"second_order": so}, "n": n, "target": "pair", "chain": [3]})
            for n in (0, 1, 3):
                out.append({"kind": "resample", "alg": alg, "kw": {"second_order": so}, "n": n, "target": "twin", "chain": [3]})
    for alg in ("SGLD", "PSGLD", "SGHMC", "SGNHT"):
        for how in ("meta", "order", "tensor", "const", "default", "alone"):
            out.append({"kind": "args", "alg": alg, "how": how, "kw": {}, "target": "pair", "chain": [2]})
        out.append({"kind": "errors", "alg": alg})
    return out


def weight(c):
    return 2 + (8 ** c["depth"]) * 0.01 if c["kind"] == "history" else 2


class Ref(object):
    """float64 model of the samplers"""

    def __init__(self, alg, kw, T, q, v0, const=0.):
        self.alg, self.T = alg, T
        self.so = kw.get("second_order", True)
        self.friction = kw.get("friction", 0.25)
        self.beta = kw.get("variance_estimate", 0.)
        self.a = kw.get("variance_extra", 0.)
        self.tune = kw.get("tune_rate", 1.)
        self.vec = kw.get("use_vector_alpha", True)
        self.n = kw.get("n_iter_resample_v", 20 if alg == "SGHMC" else None) or 0
        self.decay, self.eps = kw.get("hps", [0.9, 1e-3])
        self.s = {"t": 0, "v": v0, "aux": {k: np.zeros(np.shape(x)) for k, x in q.items()},
                  "alpha": {k: np.full(np.shape(x) if self.vec else (), self.a) for k, x in q.items()}}

    def step(self, q, lr, obs, res, gau):
        """res, gau: standard normal noise of resampling and of the update; returns (info, new state)"""
        s, T = self.s, self.T
        g = lambda x: T.grad(x, obs)
        new = {"t": s["t"] + 1, "v": s["v"], "aux": s["aux"], "alpha": s["alpha"]}
        if self.alg == "SGLD":
            G = g(q)
            nq = {k: q[k] + 0.5 * lr * G[k] + np.sqrt(lr) * gau[k] for k in q}
            return {"q": nq}, new
        if self.alg == "PSGLD":
            G = g(q)
            new["aux"] = {k: self.decay * s["aux"][k] + (1 - self.decay) * G[k] ** 2 for k in q}
            P = {k: 1 / (self.eps + np.sqrt(new["aux"][k])) for k in q}
            nq = {k: q[k] + 0.5 * lr * P[k] * G[k] + np.sqrt(lr * P[k]) * gau[k] for k in q}
            return {"q": nq}, new
        v = s["v"]
        if self.n and s["t"] % self.n == 0:
            v = {k: np.sqrt(lr) * res[k] for k in q}
        mean = (lambda x: x) if (self.alg == "SGNHT" and self.vec) else np.mean
        if self.alg == "SGHMC":
            std = np.sqrt(2 * (self.friction - self.beta) * lr)
            if not self.so:
                G = g(q)
                nv = {k: (1 - self.friction) * v[k] + lr * G[k] + std * gau[k] for k in q}
                nq = {k: q[k] + nv[k] for k in q}
            else:
                d = np.exp(-0.5 * self.friction)
                q1 = {k: q[k] + 0.5 * v[k] for k in q}
                G = g(q1)
                nv = {k: d * (d * v[k] + lr * G[k] + std * gau[k]) for k in q}
                nq = {k: q1[k] + 0.5 * nv[k] for k in q}
            new["v"] = nv
            return {"q": nq, "mean_k": {k: np.mean(nv[k] ** 2) for k in q}}, new
        std = np.sqrt(2 * self.a * lr)
        al = s["alpha"]
        if not self.so:
            G = g(q)
            nv = {k: (1 - al[k]) * v[k] + lr * G[k] + std * gau[k] for k in q}
            nq = {k: q[k] + nv[k] for k in q}
            mk = {k: mean(nv[k] ** 2) for k in q}
            na = {k: al[k] + self.tune * (mk[k] - lr) for k in q}
        else:
            q1 = {k: q[k] + 0.5 * v[k] for k in q}
            a1 = {k: al[k] + 0.5 * self.tune * (mean(v[k] ** 2) - lr) for k in q}
            d = {k: np.exp(-0.5 * a1[k]) for k in q}
            G = g(q1)
            nv = {k: d[k] * (d[k] * v[k] + lr * G[k] + std * gau[k]) for k in q}
            nq = {k: q1[k] + 0.5 * nv[k] for k in q}
            mk = {k: mean(nv[k] ** 2) for k in q}
            na = {k: a1[k] + 0.5 * self.tune * (mk[k] - lr) for k in q}
        new["v"], new["alpha"] = nv, na
        return {"q": nq, "mean_k": mk, "alpha": na}, new


class Run(object):
    def __init__(self, tf, zs, cx, case, lr="ph", how=None, n="kw", alg=None):
        from hmcref import Target
        from hmcrun import State, session
        self.tf, self.cx, self.case = tf, cx, case
        alg = case["alg"]
        self.T = T = Target(case["target"])
        self.chain = tuple(case["chain"])
        names = T.names[::-1] if how == "order" else T.names
        self.names = names
        r = np.random.RandomState(11)
        self.shape = {k: self.chain + tuple(T.data[k]) for k in names}
        self.q0 = {k: np.asarray(0.7 * r.randn(*self.shape[k]), np.float32) for k in names}
        self.vars = {k: tf.Variable(tf.constant(self.q0[k]), name=k) for k in names}
        self.obs_ph = {k: tf.placeholder(tf.float32, v.shape) for k, v in T.obs.items()}
        self.batches = [dict(T.obs), {k: v * -1.5 + 0.4 for k, v in T.obs.items()}]
        self.lrs = [0.04, 0.09]
        kw = dict(case["kw"])
        mk = dict(kw)
        hps = mk.pop("hps", None)
        if hps is not None:
            mk["preconditioner_hparams"] = zs.PSGLD.RMSPreconditioner.HParams(decay=hps[0], epsilon=hps[1])
        self.extra = {}
        if n != "kw":
            nn = n
            if n == "t2":
                nn, n = tf.constant(2), 2
            elif n == "ph3":
                nn, n = tf.placeholder(tf.int32, []), 3
                self.extra[nn] = 3
            mk["n_iter_resample_v"] = nn
            kw["n_iter_resample_v"] = n
        if how == "tensor":
            add = {"SGHMC": {"friction": 0.3, "variance_estimate": 0.05, "n_iter_resample_v": 2},
                   "SGNHT": {"variance_extra": 0.2, "tune_rate": 1.5, "n_iter_resample_v": 2}}.get(alg, {})
            kw.update(add)
            mk.update({k: tf.constant(v, tf.int32 if isinstance(v, int) else tf.float32) for k, v in add.items()})
        if how in ("const", "default"):
            self.lr_t, self.lrs = None, [0.04, 0.04]
            lr_arg = 0.04
        else:
            lr_arg = self.lr_t = tf.placeholder(tf.float32, [])
        sampler = getattr(zs, alg)(lr_arg, **mk)
        if how == "meta":
            T.chain = self.chain
            lj = T.meta(tf, zs)
        else:
            lj = T.tf_log_joint(tf)
        self.op, self.info = sampler.sample(lj, observed=dict(self.obs_ph), latent={k: self.vars[k] for k in names})
        want = {"SGLD": ["q"], "PSGLD": ["q"], "SGHMC": ["q", "mean_k"], "SGNHT": ["q", "mean_k", "alpha"]}[alg]
        for f in want:
            cx.check(hasattr(self.info, f), "info has no " + f)
            cx.check(set(getattr(self.info, f)) == set(names), "info.%s is about %r" % (f, sorted(getattr(self.info, f))))
        self.fields = want
        # initial state, with the random numbers of the initialisers owned
        self.sess = session(tf)
        init = tf.global_variables_initializer()
        iops, other = noise.random_ops([init])
        cx.check(not other, "unknown random numbers in the initialisers: %r" % other)
        v0, f = {}, self.feed(0, 0)
        stray = self.sess.run([o.outputs[0] for o in iops], f)
        for o, x in zip(iops, stray):
            ks = [k for k in names if self.shape[k] == np.shape(x)]
            # latent variables of one shape start with the same noise: it is not known which operation is whose
            z = np.asarray(np.random.RandomState(23 + int(np.prod(np.shape(x)))).randn(*np.shape(x)), np.float32)
            f[o.outputs[0]] = z
            v0.update({k: np.sqrt(self.lrs[0]) * z.astype(np.float64) for k in ks})
        for k in names if iops else ():
            n_ops = sum(np.shape(x) == self.shape[k] for x in stray)
            cx.check(n_ops == sum(s == self.shape[k] for s in self.shape.values()),
                     "initial momenta are not drawn once per latent variable")
        cx.check(all(np.shape(x) in self.shape.values() for x in stray), "initial momenta of unexpected shape")
        if alg in ("SGHMC", "SGNHT"):
            cx.check(set(v0) == set(names), "no initial momentum for " + repr(sorted(set(names) - set(v0))))
        self.state = State(tf, self.sess)
        self.sess.run(init, f)
        self.ref = Ref(alg, kw, T, self.q0, v0)
        self.q = {k: v.astype(np.float64) for k, v in self.q0.items()}
        # update noise
        tens = [self.op] + [t for fl in want for t in getattr(self.info, fl).values()]
        ops, other = noise.random_ops(tens)
        cx.check(not other, "unknown random numbers: %r" % other)
        cx.check(all(noise.KINDS[o.type] == "normal" for o in ops), "noise is not normal")
        self.ops = ops
        self.roles = None
        self.by = {k: [o for o in ops if self.oshape(o) == self.shape[k]] for k in names}
        for k in names:
            cx.check(self.by[k], "no noise for " + k)
        for k in names:
            same = [j for j in names if self.shape[j] == self.shape[k]]
            cx.check(len(self.by[k]) % len(same) == 0, "%d random tensors serve %d latent variables of one shape" % (len(self.by[k]), len(same)))
        cx.check(len(set(o.name for v in self.by.values() for o in v)) == len(ops), "random numbers of unexpected shape",
                 shapes=[self.oshape(o) for o in ops])

    def oshape(self, o):
        """shape of the noise: the shape input, evaluated"""
        key = o.name
        c = self.__dict__.setdefault("_osh", {})
        if key not in c:
            s = o.outputs[0].get_shape()
            if s.is_fully_defined():
                c[key] = tuple(s.as_list())
            else:
                c[key] = tuple(np.asarray(self.sess.run(o.inputs[0], self.feed(0, 0))).tolist())
        return c[key]

    def feed(self, b, l):
        f = dict(self.extra)
        if self.lr_t is not None:
            f[self.lr_t] = self.lrs[l]
        for k, p in self.obs_ph.items():
            f[p] = self.batches[b][k]
        return f

    def save(self):
        return self.state.get(), dict(self.ref.s), dict(self.q)

    def load(self, s):
        self.state.set(s[0])
        self.ref.s = dict(s[1])
        self.q = dict(s[2])

    def call(self, b, l, z, tag):
        cx = self.cx
        f = self.feed(b, l)
        val = {}
        for i, o in enumerate(self.ops):
            r = np.random.RandomState(1000 * z + i)
            val[o] = np.asarray(r.randn(*self.oshape(o)), np.float32)
            f[o.outputs[0]] = val[o]
        _, info = self.sess.run([self.op, {n: getattr(self.info, n) for n in self.fields}], f)
        obs = {k: v.astype(np.float64) for k, v in self.batches[b].items()}
        lr = self.lrs[l]

        def model(roles):
            gau = {k: val[roles[k][0]].astype(np.float64) for k in self.names}
            res = {k: val[roles[k][1]].astype(np.float64) for k in self.names}
            return self.ref.step(self.q, lr, obs, res, gau)
        if self.roles is None:
            opts = []
            for k in self.names:
                o = self.by[k]
                two = self.case["alg"] in ("SGHMC", "SGNHT")
                alone = sum(s == self.shape[k] for s in self.shape.values()) == len(o)
                opts.append([(x, y) for x in o for y in (o if two else [x]) if not two or (x is y if alone else x is not y)])
            best = None
            for combo in itertools.product(*opts):
                roles = dict(zip(self.names, combo))
                if len(set(o.name for c in combo for o in set(c))) < sum(len(set(c)) for c in combo):
                    continue        # no random tensor serves twice
                w, _ = model(roles)
                err = sum(np.abs(np.asarray(info["q"][k], np.float64) - w["q"][k]).max() for k in self.names)
                if best is None or err < best[0]:
                    best = (err, roles)
            # keep the assignment only if it is told apart by a call that resamples
            if self.ref.alg in ("SGLD", "PSGLD") or (self.ref.n and self.ref.s["t"] % self.ref.n == 0) or not self.ref.n:
                self.roles = best[1]
            roles = best[1]
        else:
            roles = self.roles
        want, new = model(roles)
        for n in self.fields:
            for k in self.names:
                cx.close(info[n][k], want[n][k], "%s: %s of %s" % (tag, n, k), 1e-3, 2e-5)
        var = self.sess.run(self.vars)
        for k in self.names:
            cx.check(np.array_equal(var[k], np.asarray(info["q"][k])), "%s: variable %s differs from the reported value" % (tag, k))
        self.ref.s = new
        self.q = {k: np.asarray(var[k], np.float64) for k in self.names}
        cx.step()
        cx.trace()
        cx.state(self.case["alg"], repr(self.case["kw"]), self.case["target"], tag)


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan as zs
    with tf.Graph().as_default():
        k = case["kind"]
        if k == "errors":
            from hmcref import Target
            T = Target("gauss")
            for lat in (tf.zeros([2]), np.zeros([2], np.float32)):
                try:
                    getattr(zs, case["alg"])(0.1).sample(T.tf_log_joint(tf), observed={}, latent={"x": lat})
                except TypeError:
                    cx.step()
                else:
                    cx.fail("a latent that is not a variable was accepted")
            cx.state("errors", case["alg"])
            return
        if k == "history":
            R = Run(tf, zs, cx, case)
            nb = 2 if R.T.obs else 1
            alpha = list(itertools.product(range(nb), range(2), range(2)))

            def rec(d, path):
                s = R.save()
                for a in alpha:
                    R.load(s)
                    ph = path + [a]
                    R.call(a[0], a[1], a[2] + 10 * d, "calls (batch, rate, noise) %r" % (ph,))
                    if d + 1 < case["depth"]:
                        rec(d + 1, ph)
            rec(0, [])
            return
        if k == "resample":
            R = Run(tf, zs, cx, case, n=case["n"])
            n = R.ref.n
            for i in range(2 * max(n, 3) + 2):
                R.call(i % 2, (i // 2) % 2, i, "call %d" % i)
            return
        if k == "args":
            R = Run(tf, zs, cx, case, how=case["how"])
            for i in range(23 if case["how"] == "default" else 6):
                before = R.state.get()
                R.call(i % 2, i % 2, i, "call %d" % i)
                if case["how"] == "alone":
                    # the walk goes on from the state that the operation leaves when nothing is fetched with it
                    R.state.set(before)
                    f = R.feed(i % 2, i % 2)
                    f.update({o.outputs[0]: np.asarray(np.random.RandomState(1000 * i + j).randn(*R.oshape(o)), np.float32)
                              for j, o in enumerate(R.ops)})
                    R.sess.run(R.op, f)
                    q = R.sess.run(R.vars)
                    for kk in R.names:
                        cx.close(q[kk], R.q[kk], "call %d of the sampling operation alone: %s" % (i, kk), 1e-5, 1e-6)
                    cx.step()
