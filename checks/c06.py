"""C06: histories of a Bayesian net.

Explicit-state exploration: a reference model of the net (which nodes exist, which values and densities have
been asked for so far) is explored breadth first over the complete operation alphabet until no new model state
appears, and every transition of the model is replayed on the real class from the initial state; in addition
every operation sequence up to a depth is replayed.  After every replay all tensors ever returned are fetched
in one run and compared with densities computed from the fetched values.
"""
import itertools

import numpy as np

from dists import BY_NAME

TECHNIQUE = ("explicit-state model checking of operation histories: breadth-first closure of a reference model, every "
             "transition replayed against the real BayesianNet, plus all sequences up to a depth")
LEVEL_NOTE = ("complete closure of the bounded model (four names, fixed parameters) and all sequences up to the stated "
              "depth; other node kinds are covered by C08")
RULE = "a case is a net variant (where observations come from) x first operation(s) of the sequence"
ASSUMPTIONS = ["one run fetches all tensors, so sampled values are consistent"]
BOUNDS = {"quick": "closure of the model over 7 operations, 11 net variants; all sequences of 3 of 13 operations for 3 net "
                   "variants, of 2 operations for the other 8",
          "thorough": "closure of the model over all 13 operations, 11 net variants; all sequences of 3 operations for all "
                      "variants, of 4 operations for the plain variant"}

OPS = ["addA", "addB", "addC", "addD", "addA2", "detA", "tA", "tB", "lA", "lB", "lAC", "LJ", "bad"]
CLOSURE = {"quick": ["addA", "addB", "addC", "detA", "tA", "lA", "LJ"], "thorough": OPS}
VARIANTS = ["plain", "obsA", "obsBC", "meta", "metaA", "metaABC", "override", "badobs", "metabad", "legacy", "legacyA"]


def cases(tier):
    n = 1 if tier == "quick" else 4
    out = [{"kind": "bfs", "variant": v, "shard": i, "of": n} for v in VARIANTS for i in range(n)]
    for v in VARIANTS:
        deep = v in ("plain", "obsA", "metaABC")
        for p in OPS:
            if tier == "thorough" and v == "plain":
                out += [{"kind": "all", "variant": v, "prefix": [p, q], "depth": 4} for q in OPS]
            else:
                out.append({"kind": "all", "variant": v, "prefix": [p], "depth": 3 if deep or tier == "thorough" else 2})
    return out


def weight(c):
    return 20 if c["kind"] == "bfs" else 13 ** (c["depth"] - len(c["prefix"]) - 1)


OBS = {"legacyA": "a", "obsA": "a", "obsBC": "bc", "metaA": "a", "metaABC": "abc"}


class Model(object):
    """Reference model: what exists and what has been asked for."""

    def __init__(self, variant):
        self.variant = variant
        self.nodes = {}          # name -> kind
        self.asked = set()       # {"t:a", "l:a", "LJ"}: caches that may exist
        self.uses = {}           # name -> whether it was built on the value of a

    def key(self):
        return (self.variant, tuple(sorted(self.nodes.items())), tuple(sorted(self.asked)),
                tuple(sorted(self.uses.items())))

    def bad_obs(self, name):
        return self.variant in ("badobs", "metabad") and name == "a"

    def apply(self, op):
        """-> True if the operation is to fail"""
        if op.startswith(("add", "det")):
            name = {"addA": "a", "addB": "b", "addC": "c", "addD": "d", "addA2": "a", "detA": "a"}[op]
            if name in self.nodes:
                return True
            if self.bad_obs(name) and op != "detA":
                return True
            self.nodes[name] = op
            if op in ("addB", "addD"):
                self.uses[name] = "a" in self.nodes
                if self.uses[name]:
                    self.asked.add("t:a")
            self.asked.discard("LJ")
            return False
        if op in ("tA", "tB"):
            n = op[1].lower()
            if n not in self.nodes:
                return True
            self.asked.add("t:" + n)
            return False
        if op in ("lA", "lB", "lAC"):
            for n in op[1:].lower():
                if n not in self.nodes or self.nodes[n].startswith("det"):
                    return True
            for n in op[1:].lower():
                self.asked.add("l:" + n)
            return False
        if op == "LJ":
            self.asked.add("LJ")
            return False
        return False


OBSVAL = {"a": np.array([0.7, -0.4], np.float32), "b": np.array([1.1, 0.2], np.float32),
          "c": np.array([1, 0], np.int32)}


class Replay(object):
    def __init__(self, cx, tf, zs, variant):
        self.cx, self.tf, self.zs, self.variant = cx, tf, zs, variant
        self.fetch = []            # (kind, info, tensor)
        self.m = Model(variant)
        self.trace = []
        self.bn = None
        self.reads = {}

    def where(self):
        return "%s %s" % (self.variant, " ".join(self.trace))

    def run(self, seq):
        tf, zs = self.tf, self.zs
        v = self.variant
        obs = {n: OBSVAL[n] for n in OBS.get(v, "")}

        def body():
            o = None
            if v.startswith("obs"):
                o = {n: tf.constant(x) for n, x in obs.items()}
            elif v == "badobs":
                o = {"a": tf.constant(np.zeros(5, np.float32))}
            self.bn = zs.BayesianNet(observed=o) if o is not None else zs.BayesianNet()
            for op in seq:
                self.do(op)
            return self.bn

        if v in ("plain", "obsA", "obsBC", "badobs"):
            body()
        elif v.startswith("legacy"):
            # old-style nodes register themselves in the enclosing net
            with zs.BayesianNet({n: tf.constant(x) for n, x in obs.items()}) as self.bn:
                for op in seq:
                    self.do(op)
        else:
            meta = zs.MetaBayesianNet(body) if v != "metaABC" else zs.meta_bayesian_net()(body)()
            if v == "override":
                meta.log_joint = self.override
            if v == "metabad":
                obs = {"a": np.zeros(5, np.float32)}
            r = meta.observe(**obs)
            self.cx.check(r is self.bn, "observe() does not return the net built by the model")
        self.audit()

    def override(self, bn):
        self.cx.check(bn is self.bn, "log_joint is called with another net")
        t = self.tf.constant(100.0)
        if "a" in self.m.nodes and not self.m.nodes["a"].startswith("det"):
            t = t + 2.0 * self.tf.reduce_sum(bn.cond_log_prob("a"))
        return t

    def do(self, op):
        cx, tf, bn, m = self.cx, self.tf, self.bn, self.m
        self.trace.append(op)
        cx.step()
        before = dict(bn.nodes)
        if op == "bad":
            return self.bad()
        had_a = "a" in m.nodes
        expect = m.apply(op)
        try:
            r = self.real(op, had_a)
        except (ValueError, TypeError) as e:
            if not expect:
                cx.fail("%s: unexpected error %s" % (self.where(), str(e)[:300]))
            cx.check(dict(bn.nodes) == before and all(bn.nodes[k] is before[k] for k in before),
                     self.where() + ": the failed operation changed the nodes")
            return
        cx.check(not expect, self.where() + ": should be an error")
        if op == "LJ":
            self.fetch.append(("lj", (dict(m.nodes), dict(m.uses)), r))
        elif op[0] == "l":
            rs = r if isinstance(r, list) else [r]
            cx.check(isinstance(r, list) == (op == "lAC"), self.where() + ": returned %r" % type(r))
            for n, t in zip(op[1:].lower(), rs):
                self.fetch.append(("logp", n, t))
        elif op[0] == "t":
            self.fetch.append(("value", op[1].lower(), r))
        elif op.startswith("add") and op != "addD":
            n = {"addA2": "a"}.get(op, op[3:].lower())
            cx.check(bn.nodes.get(n) is r, self.where() + ": the node is not registered")
            cx.check(r.name == n and r.bn is bn, self.where() + ": name or net of the node is wrong")
            cx.check(r.is_observed() == (n in OBS.get(self.variant, "")), self.where() + ": is_observed wrong")

    def real(self, op, had_a):
        tf, bn = self.tf, self.bn
        D = self.zs.distributions
        if self.variant.startswith("legacy"):
            if op == "addA":
                return self.zs.Normal("a", tf.constant([0.5, -0.5]), std=1.5)
            if op == "addA2":
                return self.zs.Normal("a", mean=[1., 2.], logstd=[0.3, -0.3])
            if op == "addB":
                mean = bn["a"] + 0.25 if had_a else tf.constant([0.1, 0.2])
                return self.zs.Normal("b", mean, std=2., group_ndims=1)
            if op == "addC":
                return self.zs.Bernoulli("c", tf.constant([0.3, -0.2]), n_samples=3)
        if op == "addA":
            return bn.normal("a", tf.constant([0.5, -0.5]), std=1.5)
        if op == "addA2":
            return bn.stochastic("a", D.Normal(mean=[1., 2.], logstd=[0.3, -0.3]))
        if op == "addB":
            mean = bn["a"] + 0.25 if had_a else tf.constant([0.1, 0.2])
            return bn.stochastic("b", D.Normal(mean=mean, std=2., group_ndims=1))
        if op == "addC":
            return bn.bernoulli("c", tf.constant([0.3, -0.2]), n_samples=3)
        if op == "addD":
            return bn.deterministic("d", 2. * bn.get("a") if had_a else tf.constant([3., 4.]))
        if op == "detA":
            return bn.deterministic("a", tf.constant([9., 8.]))
        if op in ("tA", "tB"):
            n = bn[op[1].lower()]
            return n.tensor if isinstance(n, self.zs.framework.StochasticTensor) else n
        if op in ("lA", "lB"):
            return bn.cond_log_prob(op[1].lower())
        if op == "lAC":
            return bn.cond_log_prob(["a", "c"])
        if op == "LJ":
            return bn.log_joint()
        raise AssertionError(op)

    def bad(self):
        """Operations that are always errors."""
        cx, bn = self.cx, self.bn
        before = dict(bn.nodes)
        todo = [("get('zz')", lambda: bn.get("zz"), (ValueError,)), ("bn['zz']", lambda: bn["zz"], (ValueError, KeyError)),
                ("cond_log_prob('zz')", lambda: bn.cond_log_prob("zz"), (ValueError,)),
                ("get(['a', 'zz'])", lambda: bn.get(["a", "zz"]), (ValueError,)),
                ("cond_log_prob(['zz', 'a'])", lambda: bn.cond_log_prob(["zz", "a"]), (ValueError,)),
                ("bn['a'] = 1", lambda: bn.__setitem__("a", self.tf.constant(1.)), (TypeError,)),
                ("get([3])", lambda: bn.get([3]), (TypeError,))]
        if "d" in self.m.nodes:
            todo.append(("cond_log_prob('d')", lambda: bn.cond_log_prob("d"), (ValueError,)))
            todo.append(("cond_log_prob(['d'])", lambda: bn.cond_log_prob(["d"]), (ValueError,)))
        for what, f, exc in todo:
            try:
                f()
            except exc:
                continue
            cx.fail("%s: %s is not an error" % (self.where(), what))
        cx.check(dict(bn.nodes) == before, self.where() + ": an error changed the nodes")

    def audit(self):
        """Ask for everything once more and evaluate all that was ever returned."""
        cx, tf, bn, m = self.cx, self.tf, self.bn, self.m
        ST = self.zs.framework.StochasticTensor
        cx.check(set(bn.nodes) == set(m.nodes), "%s: nodes %r, expected %r" % (
            self.where(), sorted(bn.nodes), sorted(m.nodes)))
        names = sorted(m.nodes)
        got = bn.get(names)
        cx.check(isinstance(got, list) and len(got) == len(names), self.where() + ": get(list) is not a list")
        for n, g in zip(names, got):
            cx.check(g is bn[n] and g is bn.get(n), self.where() + ": get() and [] differ for " + n)
            self.fetch.append(("value", n, g.tensor if isinstance(g, ST) else g))
            if m.nodes[n].startswith("det") or n == "d":
                continue
            self.fetch.append(("logp", n, bn.cond_log_prob(n)))
            self.fetch.append(("logp", n, g.cond_log_p))
            self.fetch.append(("value", n, g.tensor))
        self.fetch.append(("lj", (dict(m.nodes), dict(m.uses)), bn.log_joint()))
        for (k, i, t) in self.fetch:
            if not isinstance(t, tf.Tensor):
                cx.check(k == "lj" and t == 0 and not [n for n in i[0] if n != "d" and not i[0][n].startswith("det")],
                         "%s: %s returned %r" % (self.where(), k, t))

    def symbolic(self):
        return [t for _, _, t in self.fetch if isinstance(t, self.tf.Tensor)]

    def verify(self, vals):
        cx, m, tf = self.cx, self.m, self.tf
        vals = iter(vals)
        res = [(k, i, next(vals) if isinstance(t, tf.Tensor) else t) for k, i, t in self.fetch]
        cur = {}
        for k, n, v in res:
            if k == "value":
                if n in cur:
                    cx.check(v.shape == cur[n].shape and np.array_equal(v, cur[n]),
                             "%s: node %s has two values %r and %r" % (self.where(), n, v.tolist(), cur[n].tolist()))
                cur[n] = v
        obs = OBS.get(self.variant, "")
        for n in m.nodes:
            if n in obs and not m.nodes[n].startswith("det"):
                cx.check(np.array_equal(cur[n], OBSVAL[n]), "%s: observed node %s reports %r" % (
                    self.where(), n, cur[n].tolist()))
        if m.nodes.get("a") == "detA":
            cx.check(np.array_equal(cur["a"], [9., 8.]), self.where() + ": deterministic node changed")
        if "d" in m.nodes:
            want = 2 * cur["a"] if m.uses["d"] else np.array([3., 4.])
            cx.close(cur["d"], want, self.where() + ": deterministic node d")
        ref = {}
        N = BY_NAME["Normal"]
        for n, kind in m.nodes.items():
            if n == "a" and kind == "addA":
                ref[n] = N.logp({"mean": [0.5, -0.5], "std": 1.5}, cur[n])
            elif n == "a" and kind == "addA2":
                ref[n] = N.logp({"mean": [1., 2.], "std": np.exp([0.3, -0.3])}, cur[n])
            elif n == "b":
                mean = cur["a"] + 0.25 if m.uses["b"] else np.array([0.1, 0.2])
                ref[n] = N.logp({"mean": mean, "std": 2.}, cur[n]).sum(-1)
            elif n == "c":
                ref[n] = BY_NAME["Bernoulli"].logp({"logits": [0.3, -0.2]}, cur[n])
                cx.check(cur[n].shape == ((3, 2) if n not in obs else (2,)), self.where() + ": shape of c")
        for k, i, v in res:
            if k == "logp":
                cx.close(v, ref[i], "%s: conditional log probability of %s" % (self.where(), i), rtol=1e-4, atol=1e-4)
            elif k == "lj":
                nodes, _ = i
                st = [n for n in nodes if n in ref]
                if self.variant == "override":
                    want = 100.0 + (2.0 * ref["a"].sum() if "a" in st else 0.0)
                else:
                    want = sum(ref[n] for n in st) if st else 0.0
                cx.close(v, want, "%s: log joint over %s" % (self.where(), st), rtol=1e-4, atol=1e-3)
        cx.trace()
        cx.state(m.key())


BATCH = 120


def replay_all(cx, tf, zs, variant, seqs):
    """Replay the sequences; a batch of them shares one graph and one run (each has its own net)."""
    conf = tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
    conf.graph_options.rewrite_options.disable_meta_optimizer = True
    for k in range(0, len(seqs), BATCH):
        with tf.Graph().as_default():
            rs = []
            for s in seqs[k:k + BATCH]:
                r = Replay(cx, tf, zs, variant)
                r.run(s)
                rs.append(r)
            f = [r.symbolic() for r in rs]
            vals = f
            if any(f):
                with tf.Session(config=conf) as sess:
                    vals = sess.run(f)
            for r, v in zip(rs, vals):
                r.verify(v)


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan as zs
    v = case["variant"]
    if case["kind"] == "all":
        pre = case["prefix"]
        replay_all(cx, tf, zs, v, [pre + list(rest) for rest in itertools.product(OPS, repeat=case["depth"] - len(pre))])
        cx.sample({"variant": v, "sequence": pre})
        return
    # closure of the model
    seen = {Model(v).key(): []}
    todo = [[]]
    edges = []
    while todo:
        nxt = []
        for path in todo:
            for op in CLOSURE[cx.tier]:
                m = Model(v)
                for q in path:
                    m.apply(q)
                m.apply(op)
                edges.append(path + [op])
                if m.key() not in seen:
                    seen[m.key()] = path + [op]
                    nxt.append(path + [op])
        todo = nxt
    edges = [e for i, e in enumerate(edges) if i % case["of"] == case["shard"]]
    replay_all(cx, tf, zs, v, edges)
    cx.note("model transitions replayed", len(edges))
    cx.sample({"variant": v, "longest path": max(seen.values(), key=len)})
