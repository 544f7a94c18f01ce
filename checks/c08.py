"""C08: shortcuts against explicit construction.

For every convenience method of a net and every old-style node class, all combinations of its options (each at its
default and at non-default values) are built twice: by the shortcut, and by constructing the distribution and adding
it explicitly.  Both get the same fed random numbers and must agree in everything observable.
"""
import itertools

import numpy as np

import noise
from dists import BY_NAME

TECHNIQUE = ("exhaustive enumeration of all option combinations of every node-building shortcut on the real code, compared "
             "with explicit construction under identical owned random numbers")
LEVEL_NOTE = "complete over the option alphabets below; parameters and values are one fixed generic batch per shortcut"
RULE = "a case is a shortcut x way of building (method, old-style class outside/inside a net) x observed or not"
ASSUMPTIONS = ["feeding the output of a random op replaces that random number and nothing else"]
BOUNDS = {"quick": "all shortcuts and old-style classes x options {n_samples none, 3; group_ndims default, 1; dtype default and "
                   "another; is_reparameterized; use_path_derivative; check_numerics; normalize_logits; parameterisation}: full "
                   "product for sampled nodes, single options and all together for observed nodes and aliases",
          "thorough": "full product everywhere, also runtime n_samples and group_ndims, n_samples 1, group_ndims 0 and 2, and "
                      "float results"}

# shortcut -> (method names, old-style class names, distribution class, spec)
SHORT = {
    "Normal": (["normal"], ["Normal"], "Normal"),
    "Normal/logstd": (["normal"], ["Normal"], "Normal/logstd"),
    "FoldNormal": (["fold_normal"], ["FoldNormal"], "FoldNormal"),
    "FoldNormal/logstd": (["fold_normal"], ["FoldNormal"], "FoldNormal/logstd"),
    "Bernoulli": (["bernoulli"], ["Bernoulli"], "Bernoulli"),
    "Categorical": (["categorical", "discrete"], ["Categorical", "Discrete"], "Categorical"),
    "Uniform": (["uniform"], ["Uniform"], "Uniform"),
    "Gamma": (["gamma"], ["Gamma"], "Gamma"),
    "Beta": (["beta"], ["Beta"], "Beta"),
    "Poisson": (["poisson"], ["Poisson"], "Poisson"),
    "Binomial": (["binomial"], ["Binomial"], "Binomial/4"),
    "InverseGamma": (["inverse_gamma"], ["InverseGamma"], "InverseGamma"),
    "Laplace": (["laplace"], ["Laplace"], "Laplace"),
    "BinConcrete": (["bin_concrete", "bin_gumbel_softmax"], ["BinConcrete", "BinGumbelSoftmax"], "BinConcrete"),
    "MultivariateNormalCholesky": (["multivariate_normal_cholesky"], ["MultivariateNormalCholesky"],
                                   "MultivariateNormalCholesky"),
    "MatrixVariateNormalCholesky": (["matrix_variate_normal_cholesky"], ["MatrixVariateNormalCholesky"],
                                    "MatrixVariateNormalCholesky"),
    "Multinomial": (["multinomial"], ["Multinomial"], "Multinomial/3"),
    "UnnormalizedMultinomial": (["unnormalized_multinomial", "bag_of_categoricals"],
                                ["UnnormalizedMultinomial", "BagofCategoricals"], "UnnormalizedMultinomial"),
    "OnehotCategorical": (["onehot_categorical", "onehot_discrete"], ["OnehotCategorical", "OnehotDiscrete"],
                          "OnehotCategorical"),
    "Dirichlet": (["dirichlet"], ["Dirichlet"], "Dirichlet"),
    "ExpConcrete": (["exp_concrete", "exp_gumbel_softmax"], ["ExpConcrete", "ExpGumbelSoftmax"], "ExpConcrete"),
    "Concrete": (["concrete", "gumbel_softmax"], ["Concrete", "GumbelSoftmax"], "Concrete"),
}
ALIAS = {"Discrete": "Categorical", "OnehotDiscrete": "OnehotCategorical", "BinGumbelSoftmax": "BinConcrete",
         "ExpGumbelSoftmax": "ExpConcrete", "GumbelSoftmax": "Concrete", "BagofCategoricals": "UnnormalizedMultinomial"}
K = 3


def cases(tier):
    out = []
    for s, (ms, cs, _) in sorted(SHORT.items()):
        for m in ms:
            out += [{"kind": "method", "short": s, "name": m, "where": w} for w in ("net", "observed", "observe")]
        for c in cs:
            out += [{"kind": "class", "short": s, "name": c, "where": w} for w in ("alone", "net", "observed", "given")]
            out.append({"kind": "alias", "name": c})
    out += [{"kind": "special", "name": n} for n in ("Implicit", "Empirical", "queries", "node", "defaults", "keywords")]
    return out


def weight(c):
    return 5 if c["kind"] in ("method", "class") else 1


def options(spec, cls, tier):
    """alphabet of every option of the shortcut"""
    deep = tier == "thorough"
    o = {"group_ndims": [None, 1] + ([0, 2, "rt1"] if deep else [])}
    if spec.samples:
        o["n_samples"] = [None, 3] + ([1, "rt2"] if deep else [])
    if spec.discrete:
        alt = [t for t in (["int64"] if not deep else ["int64", "float32"]) if t in spec.value_types]
        o["dtype"] = [None] + alt
    if spec.reparam:
        o["is_reparameterized"] = [None, False, True] if deep else [None, False]
    if spec.path:
        o["use_path_derivative"] = [None, True]
    if spec.check_num:
        o["check_numerics"] = [None, True]
    if cls in ("Multinomial", "UnnormalizedMultinomial"):
        o["normalize_logits"] = [None, False]
    return o


def kwargs_of(tf, combo):
    kw = {}
    for k, v in combo.items():
        if v is None:
            continue
        if k == "dtype":
            v = getattr(tf, v)
        elif isinstance(v, str):
            v = tf.placeholder_with_default(np.int32(v[2:]), shape=[])
        kw[k] = v
    return kw


def same_meta(cx, what, a, b):
    for at in ("dtype", "param_dtype", "is_continuous", "is_reparameterized", "use_path_derivative"):
        x, y = getattr(a, at), getattr(b, at)
        cx.check(x == y, "%s: %s is %r, explicit construction gives %r" % (what, at, x, y))
    ga, gb = a.group_ndims, b.group_ndims
    if isinstance(ga, int) or isinstance(gb, int):
        cx.check(isinstance(ga, int) and isinstance(gb, int) and ga == gb, "%s: group_ndims is %r, explicit %r" % (what, ga, gb))


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan as zs
    if case["kind"] == "special":
        return SPECIAL[case["name"]](cx, tf, zs)
    if case["kind"] == "alias":
        return run_alias(case, cx, tf, zs)
    ms, cs, sname = SHORT[case["short"]]
    spec = BY_NAME[sname]
    opts = options(spec, spec.cls, cx.tier)
    names = sorted(opts)
    combos = [dict(zip(names, v)) for v in itertools.product(*[opts[n] for n in names])]
    first = SHORT[case["short"]][0][0], SHORT[case["short"]][1][0]
    if cx.tier == "quick" and (case["where"] not in ("net", "alone") or case["name"] not in first):
        # every option alone, all options together
        combos = [c for c in combos if sum(v is not None for v in c.values()) in (0, 1, len(c))]
    for k in range(0, len(combos), 24):
        batch(case, cx, tf, zs, spec, combos[k:k + 24])
    cx.sample({"shortcut": case["name"], "options": {k: repr(v) for k, v in opts.items()}, "combinations": len(combos)})


def batch(case, cx, tf, zs, spec, combos):
    D = zs.distributions
    bshape = (2, 2) if spec.broadcast else (2, 2)
    with tf.Graph().as_default():
        P = {}
        for i, (p, er, batched) in enumerate(spec.params):
            v = spec.fill(p, bshape if batched else (), K, salt=i + 1)
            P[p] = tf.placeholder_with_default(v.astype(np.float32), shape=v.shape)
        plist = [P[p] for p, _, _ in spec.params]
        pairs = []
        for combo in combos:
            what = "%s (%s) %r" % (case["name"], case["where"], {k: v for k, v in combo.items() if v is not None})
            kw = kwargs_of(tf, combo)
            dkw = {k: v for k, v in kw.items() if k != "n_samples"}
            ns = kw.get("n_samples")
            vdt = np.dtype({None: "int32"}.get(combo.get("dtype"), combo.get("dtype"))) if spec.discrete else np.dtype("float32")
            val = spec.fill_value(bshape, K, salt=2).astype(vdt)
            if spec.name in ("Normal/logstd", "FoldNormal/logstd"):
                cp = dict(P)
                args = (cp.pop("mean"),)
            elif spec.name in ("Normal", "FoldNormal"):
                args, cp = (P["mean"],), {"std": P["std"]}
            else:
                args, cp = tuple(plist), {}
            # extra constant arguments follow positionally (n_experiments)
            ex = dict(spec.extra)
            ex.pop("normalize_logits", None)
            if case["kind"] == "method" and "n_experiments" in ex:
                args = args + (ex.pop("n_experiments"),)
            obs = None
            # explicit construction
            dist = getattr(D, spec.cls)(**dict(dict(P, **spec.extra), **dkw))
            ref_bn = zs.BayesianNet()
            if case["where"] in ("observed", "observe", "given"):
                obs = val
                ref = zs.StochasticTensor(ref_bn, "x", dist, observation=tf.constant(obs), n_samples=ns)
            else:
                ref = ref_bn.stochastic("x", dist, n_samples=ns) if ns is not None else ref_bn.stochastic("x", dist)
            # the shortcut
            if case["kind"] == "method":
                def build(bn):
                    return getattr(bn, case["name"])("x", *args, **dict(dict(cp, **ex), **kw))
                if case["where"] == "net":
                    bn = zs.BayesianNet()
                    node = build(bn)
                elif case["where"] == "observed":
                    bn = zs.BayesianNet({"x": tf.constant(obs), "other": tf.constant(1.)})
                    node = build(bn)
                else:
                    def f():
                        b = zs.BayesianNet()
                        build(b)
                        return b
                    bn = zs.MetaBayesianNet(f).observe(x=tf.constant(obs), other=tf.constant(1.))
                    node = bn["x"]
                cx.check(bn.nodes.get("x") is node and bn.get("x") is node, what + ": the node is not registered")
                cx.check(node.bn is bn, what + ": node.bn is another net")
            else:
                cls = getattr(zs, case["name"])
                def build(**more):
                    return cls("x", *args, **dict(dict(cp, **ex), **dict(kw, **more)))
                if case["where"] == "alone":
                    node = build()
                    cx.check(node.bn is None, what + ": an old-style node outside any net belongs to a net")
                elif case["where"] == "given":
                    node = build(observation=tf.constant(obs))
                elif case["where"] == "net":
                    with zs.BayesianNet() as bn:
                        node = build()
                    cx.check(bn.get("x") is node and node.bn is bn, what + ": the node is not registered")
                else:
                    with zs.BayesianNet({"x": tf.constant(obs), "other": tf.constant(1.)}) as bn:
                        node = build()
                    cx.check(bn.get("x") is node and node.bn is bn, what + ": the node is not registered")
            cx.check(node.name == "x", what + ": name %r" % (node.name,))
            cx.check(type(node.dist) is type(ref.dist) or issubclass(type(node.dist), type(ref.dist))
                     or issubclass(type(ref.dist), type(node.dist)), what + ": distribution %r" % type(node.dist))
            same_meta(cx, what, node.dist, ref.dist)
            cx.check(node.dtype == ref.dtype, what + ": type of the node")
            cx.check(node.is_observed() == ref.is_observed() == (obs is not None), what + ": is_observed()")
            pairs.append((what, combo, node, ref, val))
            cx.step()
        # evaluate everything, with the same random numbers on both sides
        fetch, info = [], []
        conf = tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
        conf.graph_options.rewrite_options.disable_meta_optimizer = True
        feed = {}
        nanfeed = {p: np.full(p.shape.as_list(), np.nan, np.float32) for p in plist}
        with tf.Session(config=conf) as sess:
            jobs = []
            for what, combo, node, ref, val in pairs:
                two = []
                for n in (node, ref):
                    r = {}
                    if spec.samples or n.is_observed():
                        r["value"] = n.tensor
                        r["logp"] = n.cond_log_p
                    r["logp(given)"] = n.dist.log_prob(tf.constant(val))
                    r["prob(given)"] = n.dist.prob(tf.constant(val))
                    if "value" in r and r["value"].dtype.is_floating and not n.is_observed():
                        g = tf.gradients(r["value"], plist)
                        for (p, _, _), t in zip(spec.params, g):
                            r["dvalue/d" + p] = t
                    g = tf.gradients(r["logp(given)"], plist)
                    for (p, _, _), t in zip(spec.params, g):
                        r["dlogp/d" + p] = t
                    two.append(r)
                a, b = two
                for k in b:
                    cx.check((a[k] is None) == (b[k] is None), "%s: %s is %s, explicit construction gives %s" % (
                        what, k, "missing" if a[k] is None else "there", "none" if b[k] is None else "one"))
                    if k == "value" and a[k] is not None:
                        cx.check(a[k].dtype == b[k].dtype, "%s: type of the value %r" % (what, a[k].dtype))
                        cx.check(a[k].get_shape().as_list() == b[k].get_shape().as_list() if a[k].get_shape().ndims is not None
                                 and b[k].get_shape().ndims is not None else True, what + ": static shape of the value")
                if not node.is_observed() and spec.samples:
                    na, oa = noise.random_ops([node.tensor])
                    nb, ob = noise.random_ops([ref.tensor])
                    cx.check([o.type for o in na] == [o.type for o in nb] and len(oa) == len(ob),
                             what + ": other random numbers than explicit construction")
                    jobs.append((na, nb))
                info.append((what, combo, a, b))
            # shapes of the noise come from one unfed run
            allops = [o for na, nb in jobs for o in na + nb]
            shapes = sess.run([o.outputs[0] for o in allops]) if allops else []
            byop = dict(zip(allops, shapes))
            for na, nb in jobs:
                for i, (x, y) in enumerate(zip(na, nb)):
                    cx.check(byop[x].shape == byop[y].shape, "shape of the random numbers differs: %r and %r" % (
                        byop[x].shape, byop[y].shape))
                    v = byop[y]
                    feed[x.outputs[0]] = v
                    feed[y.outputs[0]] = v
            flat = [{k: [a[k], b[k]] for k in b if b[k] is not None} for _, _, a, b in info]
            res = sess.run(flat, feed)
            for (what, combo, a, b), r in zip(info, res):
                for k, (x, y) in r.items():
                    cx.close(x, y, "%s: %s" % (what, k), rtol=1e-5, atol=1e-6)
                cx.trace()
                cx.state(case["name"], case["where"], sorted((k, str(v)) for k, v in combo.items()))
            # numeric checks: both sides accept or reject undefined parameters
            if spec.check_num:
                def outcome(t):
                    try:
                        sess.run(t, nanfeed)
                        return "accepted"
                    except tf.errors.InvalidArgumentError:
                        return "rejected"
                off = [i for i in info if not i[1].get("check_numerics")]
                if off and outcome([[i[2]["logp(given)"], i[3]["logp(given)"]] for i in off]) == "accepted":
                    off = []
                on = [i for i in info if i[1].get("check_numerics")]
                if cx.tier == "quick":
                    on = [i for i in on if sum(v is not None for v in i[1].values()) in (1, len(i[1]))]
                for what, combo, a, b in on + off:
                    got = [outcome(t) for t in (a["logp(given)"], b["logp(given)"])]
                    cx.check(got[0] == got[1], "%s: undefined parameters are %s, explicit construction: %s" % (
                        what, got[0], got[1]))


def run_alias(case, cx, tf, zs):
    n = case["name"]
    D = zs.distributions
    cx.check(hasattr(zs, n), "zs.%s is missing" % n)
    cx.check(hasattr(D, n), "zs.distributions.%s is missing" % n)
    if n in ALIAS:
        a, b = getattr(D, n), getattr(D, ALIAS[n])
        cx.check(a is b or issubclass(a, b) or issubclass(b, a), "distributions.%s is not %s" % (n, ALIAS[n]))
    cx.step()


def run_implicit(cx, tf, zs):
    """Implicit nodes stand for the given samples."""
    for gn, vs, ctx, known in itertools.product([0, 1], [[], [3]], ["alone", "net", "observed"], [[2, 3], [None, 3], None]):
        with tf.Graph().as_default(), tf.Session() as sess:
            x = tf.placeholder_with_default(np.arange(6.).reshape(2, 3).astype(np.float32), known)
            y = tf.constant(np.arange(6.).reshape(2, 3) + 1, tf.float32)
            if ctx == "alone":
                n = zs.Implicit("x", x, value_shape=vs, group_ndims=gn)
            else:
                with zs.BayesianNet({"x": y} if ctx == "observed" else {}) as bn:
                    n = zs.Implicit("x", x, value_shape=vs, group_ndims=gn)
                cx.check(bn.get("x") is n, "Implicit node is not registered")
            cx.close(sess.run(n.tensor), sess.run(y if ctx == "observed" else x), "value of an Implicit node")
            cx.check(n.dist.group_ndims == gn, "group_ndims of Implicit")
            cx.check(n.dist.get_value_shape().as_list() == vs, "value_shape of Implicit")
            cx.check(n.dtype == tf.float32 and n.dist.is_continuous, "type of Implicit")
            z = tf.constant([[0., 1., 2.], [3., 4., 9.]], tf.float32)        # one element differs from x
            p, q, r = sess.run([n.dist.prob(x), n.dist.prob(y), n.dist.prob(z[None])])
            lp, lq, lr = sess.run([n.dist.log_prob(x), n.dist.log_prob(y), n.dist.log_prob(tf.tile(z[None], [4, 1, 1]))])
            cx.check(np.all(np.isposinf(p)) and np.all(np.isposinf(lp)) and np.all(q == 0) and np.all(np.isneginf(lq)),
                     "probability of Implicit", p=p, q=q, lp=lp, lq=lq)
            shape = (2, 3)[:2 - len(vs) - gn]
            cx.check(p.shape == lp.shape == q.shape == lq.shape == shape and r.shape == (1,) + shape and lr.shape == (4,) + shape,
                     "shape of the probability of Implicit(value_shape=%r, group_ndims=%d): %r" % (vs, gn, p.shape))
            if not gn:
                eq = np.array([[1, 1, 1], [1, 1, 0]])
                eq = eq.min(-1) if vs else eq
                cx.check(np.array_equal(np.isposinf(r[0]), eq > 0) and np.all(r[0][eq == 0] == 0), "probability of Implicit", r=r)
                cx.check(np.array_equal(np.isposinf(lr[2]), eq > 0) and np.all(np.isneginf(lr[2][eq == 0])), "probability of Implicit", lr=lr)
            cx.step()
            cx.trace()
            cx.state("implicit", gn, vs, ctx, known)


def run_empirical(cx, tf, zs):
    for gn, vs, dt, cont, ctx in itertools.product([0, 1], [[], [3]], ["int32", "float32"], [None, True, False],
                                                   ["alone", "observed"]):
        with tf.Graph().as_default(), tf.Session() as sess:
            y = tf.constant(np.arange(6).reshape(2, 3), dt)
            bs = [2, 3] if not vs else [2]
            kw = dict(dtype=getattr(tf, dt), batch_shape=bs, value_shape=vs, group_ndims=gn, is_continuous=cont)
            if ctx == "alone":
                n = zs.Empirical("x", **kw)
                cx.check(not n.is_observed(), "Empirical node is observed")
                try:
                    n.tensor
                except ValueError:
                    pass
                else:
                    cx.fail("sampling an Empirical node is not an error")
            else:
                with zs.BayesianNet({"x": y}):
                    n = zs.Empirical("x", **kw)
                cx.close(sess.run(n.tensor), sess.run(y), "value of an observed Empirical node")
            d = n.dist
            cx.check(d.dtype == getattr(tf, dt) and n.dtype == d.dtype, "type of Empirical")
            cx.check(d.get_batch_shape().as_list() == bs and d.get_value_shape().as_list() == vs, "shapes of Empirical")
            cx.check(d.group_ndims == gn, "group_ndims of Empirical")
            cx.check(bool(d.is_continuous) == (dt == "float32" if cont is None else cont),
                     "Empirical(%s, is_continuous=%r).is_continuous is %r" % (dt, cont, d.is_continuous))
            cx.step()
            cx.trace()
            cx.state("empirical", gn, vs, dt, cont, ctx)


def run_queries(cx, tf, zs):
    """deprecated queries of a net are their replacements"""
    for obs in ({}, {"a": 0.3}, {"a": 0.3, "b": 1.}):
        with tf.Graph().as_default(), tf.Session() as sess:
            bn = zs.BayesianNet({k: tf.constant(v) for k, v in obs.items()})
            a = bn.normal("a", 0.5, std=2.)
            b = bn.normal("b", a * 2., std=1.)
            for names in ("a", "b", ["a"], ["a", "b"], ("b", "a")):
                o, l = bn.outputs(names), bn.local_log_prob(names)
                g, c = bn.get(names), bn.cond_log_prob(names)
                q1 = bn.query(names, outputs=True)
                q2 = bn.query(names, local_log_prob=True)
                q3 = bn.query(names, outputs=True, local_log_prob=True)
                if isinstance(names, str):
                    pack = [([o], [g]), ([l], [c]), (list(q1), [g]), (list(q2), [c]), (list(q3), [g, c])]
                else:
                    pack = [(o, g), (l, c), ([x[0] for x in q1], g), ([x[0] for x in q2], c), ([x[0] for x in q3], g),
                            ([x[1] for x in q3], c)]
                for got, want in pack:
                    cx.check(len(got) == len(want), "queries return %d results instead of %d" % (len(got), len(want)))
                    for x, y in sess.run([[u, v] for u, v in zip(got, want)]):
                        cx.close(x, y, "query of %r" % (names,))
                cx.step()
                cx.state("query", names, sorted(obs))
            for bad in ("zz", ["a", "zz"]):
                for f in (bn.outputs, bn.local_log_prob, lambda n: bn.query(n, outputs=True)):
                    try:
                        f(bad)
                    except ValueError:
                        continue
                    cx.fail("querying %r is not an error" % (bad,))
            try:
                bn.query("a")
            except ValueError:
                pass
            else:
                cx.fail("a query without anything selected is not an error")
            cx.trace()


def run_node(cx, tf, zs):
    """deprecated members of a node are their replacements"""
    for sname in ("Normal", "Bernoulli", "Dirichlet"):
        with tf.Graph().as_default(), tf.Session() as sess:
            spec = BY_NAME[sname]
            P = {p: tf.constant(spec.fill(p, (2,), K, 1), tf.float32) for p, _, _ in spec.params}
            bn = zs.BayesianNet()
            n = bn.stochastic("x", spec.build(zs.distributions, P))
            cx.check(n.net is bn and n.distribution is n.dist, "net/distribution of a node")
            v = tf.constant(spec.fill_value((2,), K).astype(n.dtype.as_numpy_dtype))
            r = sess.run([n.log_prob(v), n.dist.log_prob(v), n.prob(v), n.dist.prob(v)])
            cx.close(r[0], r[1], "log_prob of a node")
            cx.close(r[2], r[3], "prob of a node")
            cx.check(n.sample(4).get_shape().as_list() == [4] + n.tensor.get_shape().as_list(), "sample(4) of a node")
            cx.check(n.get_shape().as_list() == n.tensor.get_shape().as_list() == n.shape.as_list(), "shape of a node")
            cx.step()
            cx.trace()
            cx.state("node", sname)


def same_dist(cx, sess, tf, what, a, b, val, ref=None):
    v = tf.constant(val)
    same_meta(cx, what, a, b)
    x, y = sess.run([a.log_prob(v), b.log_prob(v)])
    cx.close(x, y, what + ": log probability")
    if ref is not None:
        cx.close(x, ref, what + ": log probability with the documented defaults")
    cx.step()
    cx.trace()


def run_defaults(cx, tf, zs):
    """parameters that are left out take the default of the distribution: standard location, unit interval"""
    val = np.array([0.3, 0.9], np.float32)
    lo = lambda m, s: -0.5 * np.log(2 * np.pi) - np.log(s) - 0.5 * ((val - m) / s) ** 2
    fold = lambda m, s: np.logaddexp(lo(m, s), -0.5 * np.log(2 * np.pi) - np.log(s) - 0.5 * ((val + m) / s) ** 2)
    J = [("normal", "Normal", {"std": 2.}, lo(0., 2.)), ("normal", "Normal", {"logstd": 0.5}, lo(0., np.exp(.5))),
         ("fold_normal", "FoldNormal", {"std": 2.}, fold(0., 2.)), ("fold_normal", "FoldNormal", {"logstd": .5}, fold(0., np.exp(.5))),
         ("uniform", "Uniform", {}, np.zeros(2)), ("uniform", "Uniform", {"maxval": 4.}, np.full(2, -np.log(4.))),
         ("uniform", "Uniform", {"minval": -1.}, np.full(2, -np.log(2.)))]
    for m, c, kw, ref in J:
        with tf.Graph().as_default(), tf.Session() as sess:
            explicit = getattr(zs.distributions, c)(**kw)
            bn = zs.BayesianNet()
            nodes = {"method": getattr(bn, m)("x", **kw), "old-style class": getattr(zs, c)("x", **kw)}
            for k, n in sorted(nodes.items()):
                same_dist(cx, sess, tf, "%s (%s) %r" % (c, k, kw), n.dist, explicit, val, ref)
                cx.state("defaults", c, k, repr(kw))


def run_keywords(cx, tf, zs):
    """all parameters by name, in any order"""
    for short, (ms, cs, sname) in sorted(SHORT.items()):
        spec = BY_NAME[sname]
        with tf.Graph().as_default(), tf.Session() as sess:
            P = {p: tf.constant(spec.fill(p, (2,) if b else (), K, 1), tf.float32) for p, _, b in spec.params}
            ex = dict(spec.extra)
            if spec.cls == "UnnormalizedMultinomial":
                ex["normalize_logits"] = False
            explicit = getattr(zs.distributions, spec.cls)(**dict(P, **ex))
            val = spec.fill_value((2,), K).astype(explicit.dtype.as_numpy_dtype)
            kw = dict(reversed(sorted(dict(P, **ex).items())))
            for m in ms:
                n = getattr(zs.BayesianNet(), m)(name="x", **kw)
                same_dist(cx, sess, tf, "%s by keywords" % m, n.dist, explicit, val)
                cx.check(n.name == "x", m + ": name")
                cx.state("keywords", m)
            for c in cs:
                n = getattr(zs, c)(name="x", **kw)
                same_dist(cx, sess, tf, "%s by keywords" % c, n.dist, explicit, val)
                cx.state("keywords", c)


SPECIAL = {"Implicit": run_implicit, "Empirical": run_empirical, "queries": run_queries, "node": run_node, "defaults": run_defaults,
           "keywords": run_keywords}
