"""C01: shapes of samples and (log) probabilities.

Enumerated: every distribution x every assignment of small concrete shapes to its parameters that
broadcasts x every static-knowledge mode of every parameter and of the given value x number of samples
x group size (as a number and as a runtime scalar).  Oracle: numpy broadcasting and the reference density.
"""
import itertools

import numpy as np

import dists
from dists import BY_NAME, SPECS

TECHNIQUE = ("explicit-state exhaustive enumeration of shape configurations, executed on the real code and "
             "compared with a numpy broadcasting model")
LEVEL_NOTE = ("every combination of the bounded shape, static-knowledge, sample-count and grouping domains is "
              "executed; larger ranks and dimensions are not")
RULE = ("a case is one distribution, one static-knowledge mode per tensor and one form of group/sample count; "
        "all concrete shape assignments consistent with it are executed")
ASSUMPTIONS = ["float32 parameters", "parameter values from the small domains of lib/dists.py",
               "value axes of a given value are never broadcast"]
BOUNDS = {"quick": "batch ranks 0..2, dimensions 1..3, 3 static-knowledge modes per tensor, n in {None,0,1,2} and run-time n of 0 and 3",
          "thorough": "batch ranks 0..3, dimensions 0..3, 4 static-knowledge modes per tensor, n in {None,0,1,2,3} and run-time n of 0 and 3"}

Q_SHAPES = [(), (1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 3)]
T_SHAPES = Q_SHAPES + [(0,), (1, 3), (3, 1), (3, 2), (2, 1, 1), (1, 2, 3), (2, 3, 2)]
Q_VSH = [(), (1,), (2,), (3,), (2, 1), (1, 3), (2, 3), (2, 2, 3)]
T_VSH = T_SHAPES + [(2, 2, 3), (2, 2, 1), (4, 1, 2, 3)]


def cases(tier):
    modes = "SPU" if tier == "quick" else "SPMU"
    out = []
    for s in SPECS:
        nb = len(s.batched())
        if tier == "quick":
            # pairwise cover of the modes; the thorough tier takes the whole product
            full = s.name in ("Normal", "Bernoulli", "Categorical", "MultivariateNormalCholesky")
            variant = "/" in s.name and s.name not in ("Binomial/4", "Multinomial/3")
            same = [(m * nb, g) for m in modes for g in modes
                    if full or (m == g if variant else (m, g) not in (("S", "P"), ("P", "S")))]
            mixed = [] if variant else {1: [], 2: ["SU.S", "US.U", "SP.U", "PU.P", "UP.S", "PS.U"],
                                        3: ["SUU.S", "USU.U", "UUS.P", "PSU.S"]}[nb]
            combos = same + [tuple(m.split(".")) for m in mixed]
        else:
            combos = [(m, g) for m in itertools.product(modes, repeat=nb) for g in modes
                      if len(set(m)) <= 2]
        for pm, g in combos:
            out.append({"dist": s.name, "pmode": "".join(pm), "gmode": g})
    return out + [{"dist": "Implicit", "pmode": "", "gmode": "U"}]


def weight(c):
    n = 1.0
    if c["dist"] == "Implicit":
        return n
    two = len(BY_NAME[c["dist"]].batched()) > 1 and BY_NAME[c["dist"]].broadcast
    for m in c["pmode"]:
        n *= {"S": 6 if two else 4, "P": 3, "M": 4, "U": 1}[m]
    return n * (2.0 if c["gmode"] == "S" else 1.5 if c["gmode"] != "U" else 1)


def known(shape, mode):
    """The static shape a tensor of concrete shape `shape` is declared with in a mode."""
    if mode == "S":
        return list(shape)
    if mode == "P":
        return [None] * len(shape)
    if mode == "M":   # every other dimension known
        return [d if i % 2 else None for i, d in enumerate(shape)]
    return None


def run_case(case, cx):
    import tensorflow as tf
    if case["dist"] == "Implicit":
        import c08
        import zhusuan as zs
        return c08.run_implicit(cx, tf, zs)
    import zhusuan.distributions as D
    s = BY_NAME[case["dist"]]
    shapes = Q_SHAPES if cx.tier == "quick" else T_SHAPES
    vshapes = Q_VSH if cx.tier == "quick" else T_VSH
    K = 3
    bp = s.batched()
    # concrete shape assignments of the batched parameters
    if s.broadcast:
        assign = []
        for c in itertools.product(shapes, repeat=len(bp)):
            try:
                np.broadcast_shapes(*c)
            except ValueError:
                continue
            assign.append(c)
    else:
        assign = [(c,) * len(bp) for c in shapes]
    groups = {}
    for c in assign:
        key = repr([known(sh + s.event_shape(p, K), m)
                    for p, sh, m in zip(bp, c, case["pmode"])])
        groups.setdefault(key, []).append(c)
    for key in groups:
        explore(cx, tf, D, s, K, bp, groups[key], case, vshapes)


def explore(cx, tf, D, s, K, bp, assign, case, vshapes):
    """All `assign` share one static declaration of the parameters."""
    stat = {p: known(sh + s.event_shape(p, K), m) for p, sh, m in zip(bp, assign[0], case["pmode"])}
    maxb = max(len(np.broadcast_shapes(*c)) for c in assign)
    # concrete values
    data = {}
    for c in assign:
        data[c] = {p: s.fill(p, sh, K, salt=i).astype(np.float32) for i, (p, sh) in enumerate(zip(bp, c))}
    fixed = {p: np.float32(s.pdom(p, K)[0]) for p, _, b in s.params if not b}
    # given values grouped by their static declaration
    givens = {}
    for c in assign:
        b = np.broadcast_shapes(*c)
        for vs in vshapes:
            try:
                full = np.broadcast_shapes(b, vs)
            except ValueError:
                continue
            gk = known(vs + s.value_shape(K), case["gmode"])
            givens.setdefault(repr(gk), (gk, []))[1].append((c, vs, full))
    vtype = tf.int32 if s.discrete else tf.float32
    g = tf.Graph()
    with g.as_default():
        tf.set_random_seed(cx.seed + 1)
        P, feedable = {}, {}
        for p in bp:
            if case["pmode"][bp.index(p)] == "S" and len(assign) == 1:
                P[p] = tf.constant(data[assign[0]][p])      # a constant: everything is known
            else:
                P[p] = feedable[p] = tf.placeholder(tf.float32, stat[p])
        for p, v in fixed.items():
            P[p] = tf.constant(v)
        grp_t = [tf.placeholder(tf.int32, None if case["gmode"] == "U" else []) for _ in range(maxb + 1)]
        n_t = tf.placeholder(tf.int32, [])
        n_u = tf.placeholder(tf.int32, None)
        dist = [s.build(D, P, group_ndims=k) for k in range(maxb + 1)]
        dist_t = [s.build(D, P, group_ndims=k) for k in grp_t]
        d0 = dist[0]
        cx.check(d0.dtype == vtype, "dtype of the distribution is %r" % d0.dtype)
        fetch = {"batch": d0.batch_shape, "value": d0.value_shape}
        static = {"batch": d0.get_batch_shape(), "value": d0.get_value_shape()}
        smp = {}
        if s.samples:
            smp = {"None": (d0.sample(), None), "1": (d0.sample(1), 1), "2": (d0.sample(2), 2),
                   "T": (d0.sample(n_t), "T"), "U": (dist_t[-1].sample(n_u), "T")}
            if case["gmode"] == "S":
                # no samples at all, a count that is a constant tensor, a count that is a numpy integer
                smp["0"] = (d0.sample(0), 0)
                smp["C"] = (d0.sample(tf.constant(2)), 2)
                smp["np"] = (d0.sample(np.int64(2)), 2)
        lps = []
        for gk, uses in givens.values():
            ph = tf.placeholder(vtype, gk)
            lo = {}
            nbmax = max(len(np.broadcast_shapes(*c)) for c, _, _ in uses)
            for k in range(nbmax + 1):
                lo[k] = (dist[k].log_prob(ph),) + ((dist[k].prob(ph),) if k in (0, 1, nbmax) else ())
                if case["gmode"] != "S" or cx.tier != "quick":
                    lo["T%d" % k] = (dist_t[k].log_prob(ph),) + ((dist_t[k].prob(ph),) if k == 1 else ())
            lps.append((ph, uses, lo))
        sess = tf.Session(graph=g)
    with sess:
        for c, nT in [(c, k) for c in assign for k in ((3, 0) if s.samples else (3,))]:
            b = np.broadcast_shapes(*c)
            fd = {feedable[p]: data[c][p] for p in feedable}
            fd[n_t] = fd[n_u] = nT
            fd.update((q, k) for k, q in enumerate(grp_t))
            f = dict(fetch)
            f["smp"] = {k: v[0] for k, v in smp.items()}
            r = sess.run(f, fd)
            cx.step()
            cx.state(s.name, c, case["pmode"])
            where = "%s params %r (%s)" % (s.name, c, case["pmode"])
            cx.check(tuple(r["batch"]) == b, "%s: batch_shape %r, expected %r" % (where, tuple(r["batch"]), b))
            cx.check(tuple(r["value"]) == s.value_shape(K),
                     "%s: value_shape %r" % (where, tuple(r["value"])))
            cx.check(static["batch"].is_compatible_with(b),
                     "%s: static batch shape %r contradicts %r" % (where, static["batch"], b))
            cx.check(static["value"].is_compatible_with(s.value_shape(K)),
                     "%s: static value shape %r" % (where, static["value"]))
            if set(case["pmode"]) == {"S"}:
                cx.check(static["batch"].is_fully_defined() and static["value"].is_fully_defined(),
                         where + ": static shapes are not reported although the parameters' are known")
            for k, (t, n) in smp.items():
                want = (() if n is None else (nT,) if n == "T" else (n,)) + b + s.value_shape(K)
                got = r["smp"][k]
                cx.check(got.shape == want, "%s sample(%s): shape %r, expected %r" % (where, k, got.shape, want))
                cx.check(t.get_shape().is_compatible_with(want),
                         "%s sample(%s): static shape %r but %r at run time" % (where, k, t.get_shape(), want))
                cx.check(got.dtype == vtype.as_numpy_dtype, "%s sample: dtype %r" % (where, got.dtype))
                if set(case["pmode"]) == {"S"} and n != "T":
                    cx.check(t.get_shape().ndims is not None, "%s sample(%s): static rank unknown" % (where, k))
                cx.step()
        jobs = [(ph, lo, c, vs, full) for ph, uses, lo in lps for c, vs, full in uses]
        # with one parameter assignment and one use of each placeholder everything is run at once
        at_once = len(assign) == 1 and all(len(uses) == 1 for _, uses, _ in lps)
        for chunk in ([jobs] if at_once else [[j] for j in jobs]):
            fd, fetches = {}, []
            fd.update((q, k) for k, q in enumerate(grp_t))
            for ph, lo, c, vs, full in chunk:
                fd.update((feedable[p], data[c][p]) for p in feedable)
                fd[ph] = s.fill_value(vs, K, salt=2).astype(vtype.as_numpy_dtype)
                nb = len(np.broadcast_shapes(*c))
                fetches.append({k: lo[k] for i in range(nb + 1) for k in (i, "T%d" % i) if k in lo})
            for (ph, lo, c, vs, full), res in zip(chunk, sess.run(fetches, fd)):
                PP = dict(data[c])
                PP.update(fixed)
                want = s.logp(PP, fd[ph])
                where = "%s params %r (%s) given %r (%s)" % (s.name, c, case["pmode"], vs, case["gmode"])
                cx.check(want.shape == full, "reference shape %r %r" % (want.shape, full))
                for key in res:
                    k = int(str(key).lstrip("T"))
                    form = "tensor" if str(key)[0] == "T" else "int"
                    w = want.sum(tuple(range(-k, 0))) if k else want
                    name = "%s group_ndims=%d (%s)" % (where, k, form)
                    for t, got, q in zip(lo[key], res[key], ("log_prob", "prob")):
                        cx.check(got.shape == w.shape,
                                 "%s: %s shape %r, expected %r" % (name, q, got.shape, w.shape))
                        cx.check(got.dtype == np.float32, "%s: %s has type %r" % (name, q, got.dtype))
                        if q == "log_prob":
                            cx.close(got, w, name + ": log_prob", rtol=1e-3, atol=1e-3)
                        else:
                            cx.close(got, np.exp(w), name + ": prob", rtol=5e-3, atol=1e-5)
                        cx.check(t.get_shape().is_compatible_with(w.shape),
                                 "%s: static %s shape %r but %r at run time" % (name, q, t.get_shape(), w.shape))
                    cx.step()
                    cx.trace()
                    cx.state(s.name, c, case["pmode"], vs, case["gmode"], k, form)
    cx.sample({"dist": s.name, "params": assign[0], "mode": case["pmode"] + "/" + case["gmode"]})
