"""C16: annealed importance sampling over all outcomes of proposal draws and transitions of finite chains, and with the real HMC."""
import itertools

import numpy as np
from scipy import special as sp

import noise

TECHNIQUE = ("exhaustive enumeration of all paths (proposal draw and every transition) of AIS over finite latent spaces, driven through "
             "the real AIS.run with a session proxy that owns the randomness; the mean weight over all paths must be the exact marginal "
             "likelihood; oracle for each path: telescoping sum over the states actually visited")
LEVEL_NOTE = "the expectation is exact (finite path space, fully enumerated); with the real HMC single paths are compared"
RULE = "a case is a model x numbers of states, chains, data, temperatures and adaptation iterations; all its paths are explored"
ASSUMPTIONS = ["the sampler given to AIS leaves the annealed density invariant (the stub's Metropolis kernel does; for HMC this is C12)"]
BOUNDS = {"quick": "2-3 latent states (one or two latents), 1-3 chains, 1-2 data points, 1-4 temperatures, 0-2 adaptation iterations: up to "
                   "1024 paths per case; schedules of 1-12, 50 and 1000 temperatures; real HMC with 1-6 temperatures",
          "thorough": "up to 8192 paths per case"}


def cases(tier):
    lim = 8200 if tier == "thorough" else 1100
    out = []
    for model in ("cat", "two", "fn"):
        for K in (2, 3):
            if model == "two" and K == 3:
                continue
            for C in (1, 2, 3):
                for T in (1, 2, 3, 4, 5):
                    for A in (0, 2):
                        k = K if model != "two" else 4
                        n = (k ** (T + 1)) ** C
                        if n > lim or (A == 2 and n > 300):
                            continue
                        out.append({"kind": "paths", "model": model, "K": K, "C": C, "T": T, "A": A, "n": n})
    for C, N in ((1, 2), (2, 2), (3, 2), (4, 3)):
        for T in (1, 2, 4):
            for scale in (1.0, 60.0, 3000.0):
                out.append({"kind": "value", "model": "cat", "K": 3, "C": C, "N": N, "T": T, "A": 1, "scale": scale})
    for T in list(range(1, 13)) + [50, 1000]:
        out.append({"kind": "schedule", "T": T})
    for T in (1, 2, 3, 6):
        for A in (0, 3):
            for ad in (False, True):
                out.append({"kind": "hmc", "T": T, "A": A, "adapt": ad})
    return out


def weight(c):
    return 1.5 + c.get("n", 0) * 0.004 * (c["T"] + 2) if c["kind"] == "paths" else 2


class Model(object):
    """finite latent z (or z, w), observed x [N]; in numpy and zhusuan"""

    def __init__(self, case):
        self.two = case["model"] == "two"
        self.fn = case["model"] == "fn"
        self.K, self.N, self.C = case["K"], case.get("N", 1), case["C"]
        r = np.random.RandomState(3)
        self.x = np.array([0.4, -1.1, 0.8])[:self.N]
        self.scale = case.get("scale", 1.0)
        self.qz = r.randn(self.N, self.K)
        self.pz = r.randn(self.N, self.K)
        self.mu = np.linspace(-1, 1.3, self.K)
        self.qw, self.pw = r.randn(self.N), r.randn(self.N)
        self.states = list(itertools.product(range(self.K), range(2))) if self.two else [(k,) for k in range(self.K)]

    def lq(self, n):
        """log proposal of every state, for data point n"""
        a = self.qz[n] - sp.logsumexp(self.qz[n])
        if self.two:
            b = [-np.logaddexp(0, self.qw[n]), -np.logaddexp(0, -self.qw[n])]
            return np.array([a[z] + b[w] for z, w in self.states])
        return np.array([a[s[0]] for s in self.states])

    def lj(self, n):
        a = self.pz[n] - sp.logsumexp(self.pz[n])
        out = []
        for s in self.states:
            v, m = a[s[0]], self.mu[s[0]]
            if self.two:
                v += [-np.logaddexp(0, self.pw[n]), -np.logaddexp(0, -self.pw[n])][s[1]]
                m = m + 0.7 * s[1] * (s[0] - 0.4)
            out.append(v - self.scale * (0.5 * np.log(2 * np.pi) + 0.5 * (self.x[n] - m) ** 2))
        return np.array(out)

    def build(self, tf, zs):
        f = np.float32

        def prop():
            bn = zs.BayesianNet()
            bn.categorical("z", tf.constant(self.qz.astype(f)), n_samples=self.C)
            if self.two:
                bn.bernoulli("w", tf.constant(self.qw.astype(f)), n_samples=self.C)
            return bn

        def model(obs=None):
            bn = zs.BayesianNet(obs)
            z = bn.categorical("z", tf.constant(self.pz.astype(f)), n_samples=self.C)
            zf = tf.cast(z, tf.float32)
            m = tf.gather(tf.constant(self.mu.astype(f)), tf.convert_to_tensor(z))
            if self.two:
                w = bn.bernoulli("w", tf.constant(self.pw.astype(f)), n_samples=self.C)
                m = m + 0.7 * tf.cast(w, tf.float32) * (zf - 0.4)
            bn.normal("x", m, std=1.)
            return bn
        names = ["z", "w"] if self.two else ["z"]
        if self.fn or self.scale != 1.0:
            def mb(obs):
                lps = model(obs).cond_log_prob(names + ["x"])
                return sum(lps[:-1]) + self.scale * lps[-1]
        else:
            mb = zs.MetaBayesianNet(model)
        return mb, zs.MetaBayesianNet(prop), names


class StubHMC(object):
    """moves to given states; reports the annealed log density before and after, like HMC"""

    def __init__(self, tf):
        self.tf = tf

    def sample(self, log_fn, observed, latent):
        tf = self.tf
        self.next = {k: tf.placeholder(tf.int32, v.get_shape()) for k, v in latent.items()}
        self.latent = dict(latent)

        class Info(object):
            pass
        self.info = Info()
        d = dict(observed)
        d.update(latent)
        old = log_fn(d)
        d = dict(observed)
        d.update(self.next)
        new = log_fn(d)
        self.info.orig_log_prob, self.info.log_prob = old, new
        self.info.acceptance_rate = tf.ones_like(new)
        with tf.control_dependencies([old, new]):
            op = tf.group(*[latent[k].assign(self.next[k]) for k in latent])
        self.old, self.op = old, op
        return op, self.info


def flatten(x):
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flatten(y)]
    return [x]


class Proxy(object):
    """what AIS.run sees as the session: adds the randomness of the call and records the call"""

    def __init__(self, sess, hook):
        self.sess, self.hook = sess, hook
        self.graph = sess.graph

    def run(self, fetches, feed_dict=None, **kw):
        return self.hook(fetches, dict(feed_dict or {}))


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan as zs
    from zhusuan.evaluation import AIS
    from hmcrun import session
    with tf.Graph().as_default():
        if case["kind"] == "hmc":
            return hmc_case(tf, zs, AIS, case, cx)
        if case["kind"] == "schedule":
            case = dict(case, model="cat", K=2, C=1, A=0, sched=True)
        M = Model(case)
        mb, prop, names = M.build(tf, zs)
        C, N, T, A = M.C, M.N, case["T"], case["A"]
        latent = {k: tf.Variable(tf.zeros([C, N], tf.int32), name=k) for k in names}
        xph = tf.placeholder(tf.float32, [N])
        stub = StubHMC(tf)
        ais = AIS(mb, prop, stub, observed={"x": xph}, latent=latent, n_temperatures=T, n_adapt=A)
        sess = session(tf)
        sess.run(tf.global_variables_initializer())
        rops = [o for o in tf.get_default_graph().get_operations() if o.type in noise.KINDS or o.type in noise.OTHER_RANDOM]
        lq = np.array([M.lq(n) for n in range(N)])
        lj = np.array([M.lj(n) for n in range(N)])
        log = {"temps": [], "moves": [], "states": []}
        plan = {}
        ns = len(M.states)
        cx.check(all(o.type == "Multinomial" or o.type == "RandomUniform" for o in rops), "unexpected random numbers",
                 ops=[o.type for o in rops])
        uni = {}
        for o in rops:
            s = np.shape(sess.run(o.outputs[0], {xph: M.x}))
            uni[o] = s

        def initfeed(st):
            """random numbers that make the proposal draw the states st [C, N]"""
            f = {}
            for o, s in uni.items():
                if o.type == "Multinomial":
                    z = np.array([[M.states[st[c][n]][0] for n in range(N)] for c in range(C)])
                    v = z.reshape(s) if s != (N, C) else z.T
                    f[o.outputs[0]] = v
                else:
                    w = np.array([[M.states[st[c][n]][1] for n in range(N)] for c in range(C)])
                    f[o.outputs[0]] = np.where(w, 1e-6, 1 - 1e-6).reshape(s)
            return f

        def current():
            v = sess.run([latent[k] for k in names])
            return [[M.states.index(tuple(int(a[c, n]) for a in v)) for n in range(N)] for c in range(C)]

        def hook(fetches, feed):
            k = plan["i"]
            before = current()
            f = dict(feed)
            f.update(initfeed(plan["init"]))
            mv = plan["moves"][min(len(log["moves"]), len(plan["moves"]) - 1)]
            for j, nm in enumerate(names):
                f[stub.next[nm]] = [[M.states[mv[c][n]][j] for n in range(N)] for c in range(C)]
            if stub.op in flatten(fetches):
                o = np.asarray(sess.run(stub.old, f), np.float64)
                ts = [(o[c, n] - lq[n, before[c][n]]) / (lj[n, before[c][n]] - lq[n, before[c][n]]) for c in range(C) for n in range(N)]
                temp = ts[0]
                cx.close(ts, np.full(len(ts), temp), "temperatures of the chains", 1e-3, 1e-3)
            r = sess.run(fetches, f)
            after = current()
            plan["i"] += 1
            if stub.op in flatten(fetches):
                # the temperature in force: the annealed density of the current state lies between those of proposal and target
                log["temps"].append(temp)
                log["moves"].append(after)
                log["states"].append(before)
                cx.check(after == mv, "transition not executed")
            return r
        px = Proxy(sess, hook)
        want_t = None

        def run(init, moves):
            log.update(temps=[], moves=[], states=[])
            plan.update(i=0, init=init, moves=moves)
            got = ais.run(px, {xph: M.x})
            cx.step(plan["i"])
            # schedule
            t = np.array(log["temps"][A:])
            cx.check(len(log["temps"]) == A + T, "%d transitions for %d temperatures and %d adaptations" % (len(log["temps"]), T, A))
            cx.check(abs(t[-1] - 1) < 2e-4 and t[0] >= 0 and np.all(np.diff(t) > 0), "temperatures %r" % t.tolist())
            s = lambda i: 1 / (1 + np.exp(-4 * (2. * i / T - 1)))
            exp = np.array([(s(i) - s(0)) / (s(T) - s(0)) for i in range(1, T + 1)])
            cx.close(t, exp, "temperature schedule", 1e-4, 2e-5 if T > 20 else 2e-4)
            t = exp
            for a in log["temps"][:A]:
                cx.check(-1e-3 <= a <= 1 + 1e-3, "adaptation at temperature %r" % a)
            cx.check(log["states"][A] == init, "the weights do not start from the proposal draw")
            # telescoping weight over the states visited
            tt = np.concatenate([[0.], t])
            w = np.zeros((C, N))
            for i in range(T):
                st = log["states"][A + i]
                for c in range(C):
                    for n in range(N):
                        z = st[c][n]
                        w[c, n] += (tt[i + 1] - tt[i]) * (lj[n, z] - lq[n, z])
            ref = np.mean(sp.logsumexp(w, axis=0) - np.log(C))
            cx.close(got, ref, "log likelihood of a path", 2e-4, 2e-4)
            cx.trace()
            return float(got), t

        if case.get("sched"):
            run([[0]], [[[1]], [[0]]])
            cx.state("schedule", T)
            return
        if case["kind"] == "value":
            for k in range(4):
                r = np.random.RandomState(k)
                init = r.randint(ns, size=(C, N)).tolist()
                moves = r.randint(ns, size=(A + T, C, N))
                moves[:A] = (np.array(init) + 1) % ns
                moves = moves.tolist()
                run(init, moves)
                cx.state("value", repr(case), k)
            return
        # all paths (N = 1)
        total, mass = 0.0, 0.0
        Z = np.exp(sp.logsumexp(lj[0]))
        kernels = None
        for path in itertools.product(range(ns), repeat=C * (T + 1)):
            p = np.array(path).reshape(T + 1, C)
            init = [[int(a)] for a in p[0]]
            moves = [[[int(a)] for a in row] for row in ([(p[0] + 1) % ns] * A + list(p[1:]))]
            got, t = run(init, moves)
            if kernels is None:
                kernels = []
                for a in t:
                    lf = (1 - a) * lq[0] + a * lj[0]
                    Kt = np.minimum(1, np.exp(lf[None] - lf[:, None])) / ns
                    np.fill_diagonal(Kt, 0)
                    np.fill_diagonal(Kt, 1 - Kt.sum(1))
                    kernels.append(Kt)
            pr = np.exp(lq[0][p[0]].sum())
            for i in range(T):
                for c in range(C):
                    pr *= kernels[i][p[i][c], p[i + 1][c]]
            total += pr * np.exp(got)
            mass += pr
            cx.state(repr(case), path)
        cx.close(mass, 1.0, "path probabilities", 1e-6, 1e-6)
        cx.close(total, Z, "mean importance weight over all %d paths (marginal likelihood)" % case["n"], 2e-4, 0)
        cx.nontrivial += 1


def hmc_case(tf, zs, AIS, case, cx):
    """the real HMC inside AIS: weights of the states visited"""
    from hmcrun import session
    T, A = case["T"], case["A"]
    ph = tf.placeholder(tf.float32, [])

    def prop():
        # an amortised proposal: needs the fed value too
        bn = zs.BayesianNet()
        bn.normal("z", 0.2 + 0.3 * ph, std=1.3, n_samples=3)
        return bn

    def model():
        bn = zs.BayesianNet()
        z = bn.normal("z", tf.constant(-0.4), std=0.8, n_samples=3)
        bn.normal("x", 1.5 * z, std=0.6)
        return bn

    def ln(v, m, s):
        return -0.5 * np.log(2 * np.pi) - np.log(s) - 0.5 * ((v - m) / s) ** 2
    z = tf.Variable(tf.zeros([3]))
    hmc = zs.HMC(step_size=0.3, n_leapfrogs=3, **({"adapt_step_size": True} if case["adapt"] else {}))
    rec = {}
    real = hmc.sample

    def recorded(*a, **k):
        r = real(*a, **k)
        rec['op'] = r[0]
        return r
    hmc.sample = recorded
    ais = AIS(zs.MetaBayesianNet(model), zs.MetaBayesianNet(prop), hmc, observed={"x": ph}, latent={"z": z}, n_temperatures=T, n_adapt=A)
    sess = session(tf)
    sess.run(tf.global_variables_initializer())
    states = []

    def hook(fetches, feed):
        before = np.array(sess.run(z), np.float64)
        r = sess.run(fetches, feed)
        if any(q is rec['op'] for q in flatten(fetches)):
            states.append(before)
        return r
    for x in (0.7, -0.5, 1.1):
        x = np.float32(x)
        del states[:]
        got = ais.run(Proxy(sess, hook), {ph: x})
        cx.check(len(states) == A + T, "%d transitions" % len(states))
        s = lambda i: 1 / (1 + np.exp(-4 * (2. * i / T - 1)))
        t = [(s(i) - s(0)) / (s(T) - s(0)) for i in range(T + 1)]
        w = 0
        for i in range(T):
            v = states[A + i]
            lq = ln(v, 0.2 + 0.3 * float(x), 1.3)
            lj = ln(v, -0.4, 0.8) + ln(float(x), 1.5 * v, 0.6)
            w = w + (t[i + 1] - t[i]) * (lj - lq)
        cx.close(got, sp.logsumexp(w) - np.log(3), "log likelihood with HMC", 1e-3, 1e-3)
        cx.step(T + A)
        cx.trace()
    cx.state("hmc", repr(case))
