"""C03: the law of a sample.

All random ops under a sample are owned: their outputs are fed.  For every configuration
 1. the influence of every single noise element on every sample element is determined by exhaustive
    single-element perturbation; the influence sets of different sample elements must be disjoint
    (independence along the sample axis and over the batch);
 2. the joint space of the noise elements of a sample element is enumerated: every outcome of discrete
    noise, the full product of a quantile grid (or Gauss-Hermite nodes) of continuous noise, and the
    weighted push-forward is compared with the documented law (cdf, pmf, moments).
"""
import itertools

import numpy as np
from scipy import special as sp

import dists
import noise
from dists import BY_NAME, SPECS

TECHNIQUE = ("exhaustive enumeration of the (discretised) noise space of the real sampling code, push-forward "
             "law compared with a reference law; exhaustive single-element perturbation for independence")
LEVEL_NOTE = ("discrete noise is enumerated completely; continuous noise on a full product of quantile grids, so "
              "deviations of the law below the grid's resolution (about 1e-3 in one noise dimension, 2e-2 in two, "
              "6e-2 in three) are not seen except in the tails, which are followed down to probability 2**-20")
RULE = "a case is distribution x parameter shapes x static knowledge x sample count x type"
ASSUMPTIONS = ["TensorFlow's raw random ops are independent with their documented laws",
               "random op outputs that are fed behave like drawn ones"]
BOUNDS = {"quick": "grids of 600 (one noise element), 40^2, 16^3 points; batch shapes of up to 6 elements",
          "thorough": "grids of 4000 (one noise element), 90^2, 28^3 points; batch shapes of up to 12 elements"}


def cases(tier):
    out = []
    for s in SPECS:
        if not s.samples:
            continue
        vec = max([e for _, e, _ in s.params]) > 0
        nb = len(s.batched())
        Ks = ([2, 3] if vec else [0])
        for K in Ks:
            if nb == 1 or not s.broadcast:
                shp = [[()] * nb, [(2,)] * nb, [(2, 2)] * nb]
                if tier == "thorough":
                    shp += [[(3,)] * nb, [(1, 2)] * nb, [(2, 1, 2)] * nb]
            else:
                shp = [[(), ()], [(2,), (2,)], [(2, 1), (3,)], [(), (3,)], [(2, 2), (2,)]]
                if tier == "thorough":
                    shp += [[(3,), ()], [(3,), (2, 1)], [(1,), (3,)], [(2, 1, 2), (2, 1)]]
            for i, c in enumerate(shp):
                for mode in "SU":
                    for n in ("None", "2", "T"):
                        if tier == "quick" and (i + "SU".index(mode) + ["None", "2", "T"].index(n)) % 2 and i > 1:
                            continue
                        out.append({"dist": s.name, "K": K, "shapes": c, "mode": mode, "n": n,
                                    "ft": "float32", "vt": "int32" if s.discrete else None, "kw": {}})
            base = {"dist": s.name, "K": K, "shapes": shp[1], "mode": "S", "n": "2"}
            for ft in s.float_types:
                if s.discrete:
                    for vt in s.value_types:
                        out.append(dict(base, ft=ft, vt=vt, kw={}))
                else:
                    out.append(dict(base, ft=ft, vt=None, kw={}))
            for kw in ([{"is_reparameterized": False}] if s.reparam else []) + \
                    ([{"check_numerics": True}] if s.check_num else []) + [{"group_ndims": 1}]:
                out.append(dict(base, ft="float32", vt="int32" if s.discrete else None, kw=kw))
        if s.discrete and "logits" in s.batched():
            for K in Ks:
                for ft in s.float_types:
                    out.append({"dist": s.name, "K": K, "shapes": [(4,)], "mode": "S", "n": "2", "ft": ft,
                                "vt": "int32", "kw": {}, "far": 1})
    # seen[...] removes duplicates
    seen, res = set(), []
    for c in out:
        k = repr(c)
        if k not in seen:
            seen.add(k)
            res.append(c)
    return res


def weight(c):
    s = BY_NAME[c["dist"]]
    k = max(1, c["K"]) if s.vrank and not s.discrete else 1
    if s.name == "Beta":
        k = 2
    return {1: 1, 2: 2.5, 3: 5}.get(k, 5)


def cdf(s, P, x):
    """Reference cdf of univariate continuous laws."""
    n = s.name.split("/")[0]
    sd = P.get("std", np.exp(P["logstd"]) if "logstd" in P else None)
    if n == "Normal":
        return sp.ndtr((x - P["mean"]) / sd)
    if n == "FoldNormal":
        return np.where(x >= 0, sp.ndtr((x - P["mean"]) / sd) - sp.ndtr((-x - P["mean"]) / sd), 0)
    if n == "Uniform":
        return np.clip((x - P["minval"]) / (P["maxval"] - P["minval"]), 0, 1)
    if n == "Gamma":
        return np.where(x > 0, sp.gammainc(P["alpha"], P["beta"] * np.maximum(x, 0)), 0)
    if n == "InverseGamma":
        return np.where(x > 0, sp.gammaincc(P["alpha"], P["beta"] / np.maximum(x, 1e-300)), 0)
    if n == "Beta":
        return sp.betainc(P["alpha"], P["beta"], np.clip(x, 0, 1))
    if n == "Laplace":
        z = (x - P["loc"]) / P["scale"]
        return np.where(z < 0, 0.5 * np.exp(np.minimum(z, 0)), 1 - 0.5 * np.exp(-np.maximum(z, 0)))
    if n == "BinConcrete":
        x = np.clip(x, 1e-300, 1 - 1e-16)
        return sp.expit(P["temperature"] * (np.log(x) - np.log1p(-x)) - P["logits"])
    return None


def in_support(s, x, K):
    n = s.name.split("/")[0]
    if not np.all(np.isfinite(x.astype(np.float64))):
        return False
    if n in ("FoldNormal", "Gamma", "InverseGamma"):
        return bool(np.all(x >= 0))
    if n in ("Beta", "BinConcrete"):
        return bool(np.all((x >= 0) & (x <= 1)))
    if n in ("Dirichlet", "Concrete"):
        return bool(np.all((x >= 0) & (x <= 1)))
    if n == "ExpConcrete":
        return bool(np.all(x <= 1e-6))
    return True


def ks(vals, weights, F):
    """Kolmogorov distance of a weighted point set from the cdf F."""
    o = np.argsort(vals, kind="stable")
    v, w = vals[o], weights[o]
    c = np.cumsum(w)
    f = F(v)
    # compare at the last of equal values and just before the first
    last = np.append(v[1:] != v[:-1], True)
    up = np.max(np.abs(c[last] - f[last]))
    first = np.append(True, v[1:] != v[:-1])
    lo = np.max(np.abs((c - w)[first] - f[first]))
    return max(up, lo)


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan.distributions as D
    s = BY_NAME[case["dist"]]
    K = case["K"]
    ft = case["ft"]
    bp = s.batched()
    shapes = [tuple(x) for x in case["shapes"]]
    kw = dict(case["kw"])
    if s.discrete:
        kw["dtype"] = tf.as_dtype(case["vt"])
    vt = np.dtype(case["vt"] or ft)
    data = {p: s.fill(p, sh, K, salt=i).astype(ft) for i, (p, sh) in enumerate(zip(bp, shapes))}
    for p, _, b in s.params:
        if not b:
            data[p] = np.asarray(s.pdom(p, K)[0], ft)
    if case.get("far"):
        # some outcomes have practically no probability
        f = {"float16": 100.0, "float32": 200.0, "float64": 1000.0}[ft]
        a = data["logits"]
        a = np.array([f, -f, 0.7, -f]) if a.ndim == 1 else np.array(
            [[f, 0, -f], [0, -f, 0.5], [-f, -f, -f], [-f, f, 0.5 * f]])[:, :K]
        data["logits"] = a.astype(ft)
    batch = np.broadcast_shapes(*shapes)
    name = "%s %s" % (s.name, {k: case[k] for k in ("shapes", "mode", "n", "ft", "vt", "kw", "K", "far")
                                 if k in case})
    with tf.Graph().as_default():
        P, fd = {}, {}
        for p, a in data.items():
            if case["mode"] == "S":
                P[p] = tf.constant(a)
            else:
                P[p] = tf.placeholder(ft, None)
                fd[P[p]] = a
        kw.setdefault("group_ndims", 0)
        d = s.build(D, P, **kw)
        n = {"None": None, "2": 2, "T": 3}[case["n"]]
        if case["n"] == "T":
            nph = tf.placeholder(tf.int32, [])
            fd[nph] = 3
            x = d.sample(nph)
        else:
            x = d.sample(n)
        y = d.sample(n if case["n"] != "T" else nph)      # a second draw, for the seeds
        want_shape = (() if n is None else (n,)) + batch + s.value_shape(K)
        with tf.Session() as sess:
            explore(cx, tf, s, K, sess, x, y, fd, data, n, batch, want_shape, vt, name, ft, "far" in case)
    cx.sample(case)


def explore(cx, tf, s, K, sess, x, y, fd, data, n, batch, want_shape, vt, name, ft, far=False):
    N, other = noise.own(sess, [x], fd)
    if other:
        cx.note("unowned random ops")
        return
    ops2, _ = noise.random_ops([y])
    seeds = [(o.get_attr("seed"), o.get_attr("seed2")) for o in [q.op for q in N] + ops2]
    fixed = [q for q in seeds if q != (0, 0)]
    cx.check(len(fixed) == len(set(fixed)), "%s: draws share a fixed seed %r" % (name, seeds))
    cx.check(not (set(q.op for q in N) & set(ops2)), "%s: two draws share their random numbers" % name)
    fds = list(fd)
    run = sess.make_callable(x, feed_list=fds + [q.op.outputs[0] for q in N])
    pre = [fd[k] for k in fds]

    def ev(arrs):
        cx.step()
        return run(*(pre + arrs))

    base = [q.base() for q in N]
    x0 = ev(base)
    cx.check(x0.shape == want_shape, "%s: sample shape %r, expected %r" % (name, x0.shape, want_shape))
    cx.check(x0.dtype == vt, "%s: sample type %r, expected %r" % (name, x0.dtype, vt))
    eshape = (() if n is None else (n,)) + batch
    E = int(np.prod(eshape)) if eshape else 1
    V = int(np.prod(s.value_shape(K))) if s.vrank else 1
    infl = {}
    bases = [base, [q.base(1) for q in N]]
    for b in bases:
        xb = ev(b).reshape(E, V)
        for j, q in enumerate(N):
            for e in range(q.size):
                if q.kind == "categorical":
                    alts = range(q.arg.shape[1])
                else:
                    alts = [q.quantile(e, u) for u in (0.002, 0.998, 0.4)]
                for a in alts:
                    arr = list(b)
                    arr[j] = b[j].copy()
                    arr[j].reshape(-1)[e] = a
                    ch = np.nonzero(np.any(ev(arr).reshape(E, V) != xb, axis=1))[0]
                    for i in ch:
                        infl.setdefault(int(i), set()).add((j, e))
    owner = {}
    for i in sorted(infl):
        for e in infl[i]:
            cx.check(e not in owner, "%s: sample elements %r and %r use the same random number" % (
                name, np.unravel_index(owner.get(e, 0), eshape) if eshape else (),
                np.unravel_index(i, eshape) if eshape else ()))
            owner[e] = i
    for i in range(E):
        if far and i not in infl:
            infl[i] = set()      # decided by its parameters alone
        cx.check(i in infl, "%s: sample element %d does not depend on any random number" % (name, i))
        cx.state(name, "influence", i, sorted(infl[i]))
    # joint grids
    cont1 = 600 if cx.tier == "quick" else 4000
    cont2 = 40 if cx.tier == "quick" else 90
    cont3 = 16 if cx.tier == "quick" else 28
    elems = {}
    for i in range(E):
        es = sorted(infl[i])
        k = len(es)
        kinds = [N[j].kind for j, _ in es]
        grids = []
        mode = "quantile"
        if all(kd in ("categorical", "poisson") for kd in kinds):
            mode = "exact"
        elif all(kd == "normal" for kd in kinds) and k > 1:
            mode = "hermite"
        for j, e in es:
            q = N[j]
            if q.discrete():
                o = q.outcomes(e)
                grids.append((np.array([v for v, _ in o]), np.array([w for _, w in o])))
            elif mode == "hermite":
                nodes, w = np.polynomial.hermite_e.hermegauss(5 if k <= 4 else 3)
                grids.append((nodes, w / w.sum()))
            else:
                m = {1: cont1, 2: cont2, 3: cont3}.get(k, 6)
                us = (np.arange(m) + 0.5) / m
                grids.append((q.quantile_grid(e, us), np.full(m, 1.0 / m)))
        elems[i] = (es, grids, mode)
    cx.check(all(len(el[0]) <= 8 for el in elems.values()), "%s: a sample element uses %d random numbers" % (
        name, max(len(el[0]) for el in elems.values())))
    total = max(int(np.prod([len(g[0]) for g in el[1]])) for el in elems.values())
    pts = {i: np.empty((total, V)) for i in elems}
    wts = {i: np.zeros(total) for i in elems}
    idx = {i: [np.asarray(ix).ravel() for ix in np.indices([len(g[0]) for g in el[1]])] or [np.zeros(1, int)]
           for i, el in elems.items()}
    for t in range(total):
        arr = [b.copy() for b in base]
        for i, (es, grids, mode) in elems.items():
            ix = idx[i]
            if t >= len(ix[0]):
                continue
            w = 1.0
            for (j, e), (vals, ws), a in zip(es, grids, ix):
                arr[j].reshape(-1)[e] = vals[a[t]]
                w *= ws[a[t]]
            wts[i][t] = w
        r = ev(arr).reshape(E, V)
        for i in elems:
            pts[i][t] = r[i]
    cx.trace(total * E)
    full = {p: np.asarray(a, np.float64) for p, a in data.items()}
    for i in range(E):
        es, grids, mode = elems[i]
        keep = wts[i] > 0
        v, w = pts[i][keep], wts[i][keep]
        w = w / w.sum()
        # parameters of this batch element
        bi = np.unravel_index(i, eshape)[(0 if n is None else 1):] if eshape else ()
        Pe = {}
        for p, er, b in s.params:
            a = full[p]
            if b:
                ev_sh = s.event_shape(p, K)
                a = np.broadcast_to(a, batch + ev_sh)[bi]
            Pe[p] = a
        where = "%s element %r" % (name, bi)
        law(cx, s, K, Pe, v, w, mode, len(es), where, ft)
        cx.state(name, "law", i, mode, total)
    edges(cx, s, K, ev, base, N, name, full)
    tails(cx, s, K, ev, N, elems, name, full, eshape, batch, n, ft)


def tail_mass(s, P, x):
    """min(P(X <= x), P(X >= x)) of univariate continuous laws, accurate in the tails"""
    n = s.name.split("/")[0]
    sd = P.get("std", np.exp(P["logstd"]) if "logstd" in P else None)
    if n == "Normal":
        return sp.ndtr(-abs(x - P["mean"]) / sd)
    if n == "FoldNormal":
        up = sp.ndtr((P["mean"] - x) / sd) + sp.ndtr((-P["mean"] - x) / sd)
        return min(up, 1 - up)
    if n == "Gamma":
        return min(sp.gammainc(P["alpha"], P["beta"] * x), sp.gammaincc(P["alpha"], P["beta"] * x))
    if n == "InverseGamma":
        return min(sp.gammainc(P["alpha"], P["beta"] / x), sp.gammaincc(P["alpha"], P["beta"] / x))
    if n == "Laplace":
        return 0.5 * np.exp(-abs(x - P["loc"]) / P["scale"])
    if n == "Uniform":
        w = P["maxval"] - P["minval"]
        return min((x - P["minval"]) / w, (P["maxval"] - x) / w)
    if n == "BinConcrete" and 0 < x < 1 - 1e-9:
        return sp.expit(-abs(P["temperature"] * (np.log(x) - np.log1p(-x)) - P["logits"]))
    return None


def tails(cx, s, K, ev, N, elems, name, full, eshape, batch, n, ft):
    """Extreme outcomes of the noise (of probability 2**-12 .. 2**-20) must give correspondingly extreme samples."""
    nm = s.name.split("/")[0]
    if s.discrete or nm not in ("Normal", "FoldNormal", "Laplace") and ft != "float64" or ft == "float16":
        return
    med = [np.array([q.quantile(i, 0.5) for i in range(q.size)]).reshape(q.shape).astype(q.dtype) for q in N]
    m = max(len(el[0]) for el in elems.values())
    for p in (2.0 ** -12, 2.0 ** -16, 2.0 ** -20):
        seen = {}
        for k in range(m):
            for u in (p, 1 - p):
                arr = [b.copy() for b in med]
                for es, _, _ in elems.values():
                    if k < len(es):
                        j, e = es[k]
                        arr[j].reshape(-1)[e] = N[j].quantile(e, u)
                out = np.asarray(ev(arr), np.float64).reshape(len(elems), -1)
                for i, (es, _, _) in elems.items():
                    if k >= len(es):
                        continue
                    bi = np.unravel_index(i, eshape)[(0 if n is None else 1):] if eshape else ()
                    P = {}
                    for pn, _, b in s.params:
                        P[pn] = np.broadcast_to(full[pn], batch + s.event_shape(pn, K))[bi] if b else full[pn]
                    if s.vrank == 0 and len(es) == 1:
                        t = tail_mass(s, P, out[i][0])
                        if nm == "FoldNormal":       # one end folds back into the bulk
                            seen[i, k] = min(seen.get((i, k), 1.0), float(t))
                            continue
                        cx.check(t is None or p / 4 <= t <= 4 * p or t > 0.01,
                                 "%s: noise of tail probability %.2g gives the sample %r of tail probability %.3g" % (
                                     name, p, out[i].tolist(), t if t is not None else np.nan))
                    elif nm in ("Concrete", "ExpConcrete") and len(es) == K:
                        with np.errstate(divide="ignore"):
                            l = np.log(out[i]) if nm == "Concrete" else out[i]
                        if np.all(np.isfinite(l)):
                            z = float(P["temperature"]) * l - P["logits"]
                            t = sp.expit(-(z.max() - z.min()))
                            seen[i, k] = min(seen.get((i, k), 1.0), float(t))
                            # the component that stands out from the others (at the median) is as extreme as its noise
                            ts = []
                            for c in range(K):
                                r = z[c] - np.delete(z, c).mean() - np.log(np.log(2.0))
                                ts.append(float(np.exp(-np.exp(-r)) if z[c] < np.delete(z, c).mean() else -np.expm1(-np.exp(-r))))
                            cx.check(any(p / 4 <= t <= 4 * p for t in ts), "%s: noise %d at %r gives a component of tail probability %r" % (
                                name, k, u, ts))
                    cx.state(name, "tail", i, k, u)
        for (i, k), t in seen.items():
            # Concrete: one end of the Gumbel noise has an exponential tail, the other a much thinner one
            cx.check(p / 4 <= t <= 4 * p, "%s: noise %d of tail probability %.2g gives values of tail probability %.3g" % (
                name, k, p, t))


def law(cx, s, K, P, v, w, mode, k, where, ft):
    half = ft == "float16"
    cx.check(in_support(s, v, K), where + ": sample outside the support")
    nm = s.name.split("/")[0]
    if s.discrete:
        if nm == "Poisson":
            sup = [np.float64(z) for z in range(200)]
        elif s.name == "Multinomial/raw":
            sup = s.vdom(K)
        else:
            sup = s.vdom(K)
        got = {}
        for a, ww in zip(v, w):
            got[tuple(a)] = got.get(tuple(a), 0) + ww
        tol = (1e-5 if mode == "exact" else 1.5 * (1.0 / max(1, len(w))) ** (1.0 / k)) + (2e-3 if half else 2e-6)
        keys = set()
        for z in sup:
            key = tuple(np.asarray(z, np.float64).reshape(-1))
            keys.add(key)
            if s.name == "Multinomial/raw":
                want = float(np.exp(BY_NAME["Multinomial/3"].logp({"logits": P["logits"]}, np.asarray(z))))
            else:
                want = float(np.exp(s.logp(P, np.asarray(z))))
            g = got.get(key, 0.0)
            cx.check(abs(g - want) <= tol, "%s: probability of %r is %.6f, expected %.6f" % (where, key, g, want))
        cx.check(set(got) <= keys, "%s: values outside the support: %r" % (where, sorted(set(got) - keys)[:3]))
        return
    if s.vrank == 0:
        vals = v[:, 0]
        m = len(vals) ** (1.0 / k)
        tol = (1.1 / m if k == 1 else 0.6 / m + 4e-3) + (3e-2 if half else 1e-5)
        if mode == "hermite":
            moments(cx, v, w, None, None, where)
            return
        dist = ks(vals, w, lambda t: cdf(s, P, t))
        cx.check(dist <= tol, "%s: the law of the samples is %.4f away from the documented one (tolerance %.4f)" % (
            where, dist, tol), sample=vals[:5])
        return
    if nm in ("MultivariateNormalCholesky", "MatrixVariateNormalCholesky"):
        if nm[1] == "u":
            mean, cov = P["mean"], P["cov_tril"] @ P["cov_tril"].T
        else:
            mean = P["mean"].reshape(-1)
            # row-major vec: cov = (U U') kron (V V')
            cov = np.kron(P["u_tril"] @ P["u_tril"].T, P["v_tril"] @ P["v_tril"].T)
        normal_moments(cx, v, w, mean, cov, where, mode)
        return
    m = len(v) ** (1.0 / k)
    tol = {1: 0.01, 2: 0.6 / m + 5e-3, 3: 0.9 / m + 5e-3}.get(k, 0.2) + (2e-2 if half else 1e-4)
    if nm == "Dirichlet":
        a = P["alpha"]
        cx.check(np.allclose(v.sum(-1), 1, atol=5e-3 if half else 1e-5), where + ": samples do not sum to one")
        for c in range(K):
            dist = ks(v[:, c], w, lambda t: sp.betainc(a[c], a.sum() - a[c], np.clip(t, 0, 1)))
            cx.check(dist <= tol, "%s: marginal %d is %.4f away from Beta (tolerance %.4f)" % (where, c, dist, tol))
        a0 = a.sum()
        for c in range(K):
            for e in range(K):
                want = a[c] * (a[e] + (c == e)) / (a0 * (a0 + 1))
                got = float(np.sum(w * v[:, c] * v[:, e]))
                cx.check(abs(got - want) <= tol, "%s: second moment %d,%d %.4f, expected %.4f" % (
                    where, c, e, got, want))
        return
    # Concrete / ExpConcrete
    if nm == "Concrete":
        cx.check(np.allclose(v.sum(-1), 1, atol=5e-3 if half else 1e-5), where + ": samples do not sum to one")
        with np.errstate(divide="ignore"):
            lv = np.log(np.maximum(v, 1e-300))
    else:
        lv = v
        cx.check(np.allclose(sp.logsumexp(lv, axis=-1), 0, atol=2e-2 if half else 1e-4),
                 where + ": exp of samples does not sum to one")
    l, t = P["logits"], float(P["temperature"])
    for c, e in itertools.combinations(range(K), 2):
        z = t * (lv[:, c] - lv[:, e])
        ok = np.isfinite(z)
        dist = ks(z, w, lambda q: sp.expit(q - (l[c] - l[e])))
        cx.check(dist <= tol, "%s: log ratio of %d and %d is %.4f away from logistic (tolerance %.4f)" % (
            where, c, e, dist, tol))
    pr = np.exp(l - sp.logsumexp(l))
    for c in range(K):
        g = float(np.sum(w * (np.argmax(lv, -1) == c)))
        cx.check(abs(g - pr[c]) <= tol, "%s: category %d is largest with probability %.4f, expected %.4f" % (
            where, c, g, pr[c]))


def normal_moments(cx, v, w, mean, cov, where, mode):
    """All moments up to order four of every coordinate pair (exact for the Hermite rule)."""
    tol = 1e-3 if mode == "hermite" else 0.05
    d = v.shape[1]
    mu = (w[:, None] * v).sum(0)
    cx.close(mu, mean, where + ": mean", rtol=tol, atol=tol)
    c = v - mean
    C = np.einsum("n,ni,nj->ij", w, c, c)
    cx.close(C, cov, where + ": covariance", rtol=tol, atol=tol)
    if mode == "hermite":
        T3 = np.einsum("n,ni,nj,nk->ijk", w, c, c, c)
        cx.close(T3, np.zeros_like(T3), where + ": third moments", rtol=0, atol=1e-2)
        if len(w) >= 5 ** d or d <= 4:
            T4 = np.einsum("n,ni,nj->ij", w, c ** 2, c ** 2)
            want = np.outer(np.diag(cov), np.diag(cov)) + 2 * cov ** 2
            if abs(T4 - want).max() > 1e-2 * max(1, abs(want).max()):
                cx.fail(where + ": fourth moments", got=T4, want=want)


def moments(cx, v, w, mean, cov, where):
    raise AssertionError(where)


def edges(cx, s, K, ev, base, N, name, full):
    """The smallest and largest outcomes of uniform noise must still give finite samples in the support of
    this element: an outcome of practically no probability must not be drawn with probability 2**-23."""
    nm = s.name.split("/")[0]
    for j, q in enumerate(N):
        if q.kind != "uniform":
            continue
        for u in (0.0, q.top()):
            arr = [b.copy() for b in base]
            arr[j][...] = u
            r = ev(arr)
            cx.check(in_support(s, r, K), "%s: sample outside the support for uniform noise %r: %r" % (
                name, u, r.reshape(-1)[:4].tolist()))
            if nm == "Uniform":
                # the upper end itself may be reached by rounding, but only from the largest outcomes
                ok = (r >= full["minval"]) & ((r < full["maxval"]) | (u > 0.5) & (r <= full["maxval"]))
                cx.check(bool(np.all(ok)), "%s: sample %r outside [minval, maxval) for uniform noise %r" % (
                    name, r[~ok].reshape(-1)[:4].tolist() if np.ndim(r) else r, u))
            elif s.discrete and "logits" in full and nm != "UnnormalizedMultinomial":
                lp = s.logp(full, r)
                cx.check(bool(np.all(lp > -60)), "%s: uniform noise %r draws a value of log probability %r" % (
                    name, u, float(np.min(lp))))
            cx.state(name, "edge", j, u)
