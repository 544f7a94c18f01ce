"""C02: log_prob/prob equal the documented density.

For every distribution the full cartesian product of a finite domain of every parameter and of the value
(laid out on broadcast axes, so one run evaluates the whole product), for every type, option and alias.
Oracle: float64 reference densities in lib/dists.py.
"""
import itertools

import numpy as np

from scipy import special as sp

import dists
from dists import BY_NAME, SPECS

TECHNIQUE = ("exhaustive enumeration of finite parameter x value x type x option domains on the real code "
             "against a float64 reference density model")
LEVEL_NOTE = "every point of the product of the declared finite domains is evaluated; the domains are finite grids"
RULE = "a case is distribution x number of categories x parameter type x value type x option set"
ASSUMPTIONS = ["reference densities in lib/dists.py are right (scipy special functions)",
               "agreement up to the rounding expected for the type"]
BOUNDS = {"quick": "up to 14 values per parameter and value, categories 2..4, float16/32/64, all options",
          "thorough": "up to 27 values per parameter and value, categories 1..6, float16/32/64, all options"}

ALIASES = {"Categorical": ["Discrete"], "OnehotCategorical": ["OnehotDiscrete"],
           "UnnormalizedMultinomial": ["BagofCategoricals"], "BinConcrete": ["BinGumbelSoftmax"],
           "ExpConcrete": ["ExpGumbelSoftmax"], "Concrete": ["GumbelSoftmax"]}
# additional scalar parameter/value elements for float32/float64
EXTRA = {
    "mean": [-20.0, 0.05, 7.0], "std": [0.05, 20.0], "logstd": [-3.0, 3.0], "logits": [-15.0, 9.0, 30.0],
    "loc": [-20.0, 0.05], "scale": [0.1, 30.0], "alpha": [0.1, 7.5, 40.0], "beta": [0.05, 13.0],
    "rate": [0.01, 40.0], "temperature": [0.1, 0.5, 5.0], "minval": [-20.0], "maxval": [1.5, 60.0],
}
VEXTRA = {
    "Normal": [-30.0, 0.01, 12.0], "FoldNormal": [0.01, 12.0, 30.0], "Laplace": [-30.0, 0.01, 12.0],
    "Gamma": [0.01, 20.0], "InverseGamma": [0.02, 30.0], "Beta": [0.01, 0.99, 0.3], "Poisson": [2, 25, 60],
    "BinConcrete": [0.01, 0.99, 0.3], "Uniform": [0.0, 0.7],
}
VEC = {"logits": [[20.0, 0.0, -5.0, 3.0, 0.5, -1.0], [1e-3, 0.0, -1e-3, 2.0, -2.0, 8.0]],
       "alpha": [[0.1, 0.2, 0.05, 0.3, 0.2, 0.4], [30.0, 20.0, 1.0, 2.0, 5.0, 9.0]]}


# far from zero: a formula that exponentiates without care overflows or cancels there
FAR = {"float16": 13.0, "float32": 150.0, "float64": 800.0}


# close to the ends of the domain and of the support: a formula that clips or adds a small constant is wrong there
XPAR = {"std": [1e-12, 1e8], "logstd": [-27.0, 18.0], "scale": [1e-12, 1e8], "alpha": [1e-5, 2000.0],
        "beta": [1e-6, 1e4], "rate": [1e-12, 1e5], "temperature": [0.01, 50.0], "mean": [1e5], "loc": [1e5],
        "minval": [-1e6], "maxval": [1e6], "logits": [40.0, -60.0]}
XVAL = {"Normal": [1e5, -1e-9, 3e7], "FoldNormal": [1e5, 1e-9, 0.0, 3e7], "Laplace": [1e5, -1e-9, 3e7],
        "Gamma": [1e-25, 1e-9, 1e5], "InverseGamma": [1e-15, 1e-6, 1e12], "Beta": [1e-25, 1e-9, 1 - 2.0 ** -23],
        "Poisson": [300, 5000, 32767], "BinConcrete": [1e-25, 1e-9, 1 - 2.0 ** -23], "Uniform": [9e5, -9e5, 1e-9]}
XVEC = {"alpha": [[1e-5, 3.0, 1e-3], [500.0, 1e-4, 2000.0]], "logits": [[60.0, 0.0, -60.0], [0.0, -70.0, 80.0]]}
XSIM = [[1e-25, 0.4, 0.6], [1e-12, 1.0, 1e-20], [1.0, 1e-7, 1e-9]]


def ks(s, tier):
    if max([e for _, e, _ in s.params] + [s.vrank]) == 0:
        return [0]
    return [2, 3, 4] if tier == "quick" else [2, 3, 4] + ([1, 5, 6] if s.name in (
        "Categorical", "OnehotCategorical") else [])


def options(s):
    o = [{}, {"group": 1}]
    if s.check_num:
        o.append({"kw": {"check_numerics": True}})
    if s.reparam:
        o.append({"kw": {"is_reparameterized": False}})
    if s.path:
        o.append({"kw": {"use_path_derivative": True}})
    if "n_experiments" in s.extra and s.extra["n_experiments"]:
        o.append({"ntensor": 1})
    for a in ALIASES.get(s.name, []):
        o.append({"alias": a})
    o.append({"np": 1})
    return o


def cases(tier):
    out = []
    for s in SPECS:
        for K in ks(s, tier):
            for ft in s.float_types:
                vts = list(s.value_types) if s.discrete else [None]
                for vt in vts:
                    for o in options(s):
                        if tier == "quick" and s.discrete and o and vt not in ("int32", "float64"):
                            continue
                        out.append({"dist": s.name, "K": K, "ft": ft, "vt": vt, "opt": o})
    for nm in ("FoldNormal", "FoldNormal/logstd", "Uniform"):
        for ft in ("float16", "float32", "float64"):
            for g in (0, 1):
                out.append({"dist": nm, "K": 0, "ft": ft, "outside": g})
    for s in SPECS:
        if s.name.endswith("/raw") or "Matrix" in s.name or "Multivariate" in s.name:
            continue
        for ft in ("float32", "float64"):
            for g in (0, 1):
                for vt in (("int16", "int32", "float64") if s.discrete and s.name != "Categorical" else
                           ("int32",) if s.discrete else (None,)):
                    out.append({"dist": s.name, "K": 3 if ks(s, tier) != [0] else 0, "ft": ft, "extreme": g, "vt": vt})
    for nm in ("MultivariateNormalCholesky", "MatrixVariateNormalCholesky"):
        for ft in ("float32", "float64"):
            for K in (2, 3, 4):
                for g in (0, 1):
                    out.append({"dist": nm, "K": K, "ft": ft, "scaled": g})
    out.append({"constructors": 1})
    return out


def weight(c):
    return 3 if "constructors" in c else 1


def domain(s, pname, K, ft, tier):
    dom = [np.asarray(v, np.float64) for v in s.pdom(pname, K)]
    if K > 4:
        dom = [np.resize(d, K) + 0.01 * np.arange(K) for d in dom]
    if pname == "logits" and not s.name.startswith("BinConcrete") and not s.name.endswith("/raw"):
        f = FAR[ft]
        if np.ndim(dom[0]) == 1:
            dom += [f + dom[0], -f + dom[1]]
            if ft != "float16":
                dom.append(f * np.array([1, -1, 0.5, 1, -0.5, 0])[:K])
        elif ft != "float16":
            dom += [np.float64(f), np.float64(-f)]
    if ft == "float16":
        return dom
    er = [e for p, e, _ in s.params if p == pname][0]
    if er == 0:
        dom += [np.float64(v) for v in EXTRA.get(pname, [])
                if not (s.name.startswith("BinConcrete") and pname == "logits" and abs(v) > 10)]
        for _ in range(1 if tier == "quick" else 2):
            b = sorted(float(v) for v in dom)
            dom += [np.float64((x + y) / 2) for x, y in zip(b, b[1:])]
    elif er == 1 and pname in VEC:
        dom += [np.array(v[:K]) for v in VEC[pname]]
    return dom


def vdomain(s, K, ft, tier):
    dom = [np.asarray(v, np.float64) for v in s.vdom(K)]
    if ft != "float16" and s.vrank == 0:
        dom += [np.float64(v) for v in VEXTRA.get(s.name.split("/")[0], [])]
        for _ in range(0 if s.discrete else 1 if tier == "quick" else 2):
            b = sorted(float(v) for v in dom)
            dom += [np.float64((x + y) / 2) for x, y in zip(b, b[1:])]
    return dom


def layout(s, doms, vdom):
    """Arrays on broadcast axes: axis i carries the i-th parameter's domain, the last one the value's."""
    names = [p for p, _, _ in s.params]
    n = len(names) + 1
    P = {}
    bat = [p for p, _, b in s.params if b]
    for i, p in enumerate(names):
        a = np.array(doms[p])
        sh = [1] * n
        sh[i] = len(doms[p])
        P[p] = a.reshape(tuple(sh) + a.shape[1:])
    v = np.array(vdom)
    v = v.reshape((1,) * (n - 1) + (len(vdom),) + v.shape[1:])
    if not s.broadcast:
        # parameters must have one batch shape: expand them explicitly
        bs = np.broadcast_shapes(*[P[p].shape[:n] for p in names])
        P = {p: np.broadcast_to(P[p], bs + P[p].shape[n:]).copy() for p in names}
    return P, v, n


def cond(s, P, v, want, group):
    """Magnitude of the terms that cancel in the result (rounding grows with it)."""
    if s.name.startswith("FoldNormal"):
        sd = np.float64(P["std"]) if "std" in P else np.exp(np.float64(P["logstd"]))
        c = ((np.float64(v) - P["mean"]) ** 2 + (np.float64(v) + P["mean"]) ** 2) / sd ** 2
        c = np.broadcast_to(c, want.shape)
        return c.sum(-1) if group else c
    if "logits" in P and s.params[-1][1] == 1:
        t = np.float64(P.get("temperature", 1.0))
        n = np.float64(v).sum(-1) if s.discrete and s.vrank else 1.0
        c = np.max(np.abs(np.float64(P["logits"])), -1) * np.shape(P["logits"])[-1] * np.maximum(n, 1.0) + t
        c = np.broadcast_to(c, want.shape)
        return c.sum(-1) if group else c
    return np.zeros(want.shape[:-1] if group else want.shape)


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan.distributions as D
    if "constructors" in case:
        return constructors(cx, tf, D)
    s = BY_NAME[case["dist"]]
    K, ft = case["K"], case["ft"]
    if "outside" in case:
        return outside(case, cx, tf, D, s)
    if "extreme" in case:
        return extreme(case, cx, tf, D, s)
    if "scaled" in case:
        return scaled(case, cx, tf, D, s)
    o = case["opt"]
    kw = dict(o.get("kw", {}))
    group = o.get("group", 0)
    if s.discrete:
        kw["dtype"] = tf.as_dtype(case["vt"])
    doms = {p: domain(s, p, K, ft, cx.tier) for p, _, _ in s.params}
    scal = [p for p, _, b in s.params if not b]
    rtol, atol = dists.TOL[ft]
    with tf.Graph().as_default(), tf.Session() as sess:
        work = []
        for sv in itertools.product(*[doms[p] for p in scal]):
            d = dict(doms)
            d.update((p, [x]) for p, x in zip(scal, sv))
            vd = vdomain(s, K, ft, cx.tier)
            P, v, n = layout(s, d, vd)
            for p in scal:
                P[p] = P[p].reshape(())
            vt = np.dtype(case["vt"]) if s.discrete else np.dtype(ft)
            Pn = {p: a.astype(ft) for p, a in P.items()}
            vn = v.astype(vt)
            args = {p: (a if o.get("np") else tf.constant(a)) for p, a in Pn.items()}
            if o.get("ntensor"):
                args["n_experiments"] = tf.placeholder_with_default(np.int32(s.extra["n_experiments"]), [])
            if o.get("alias"):
                e = dict(s.extra)
                e.update(args)
                e.update(kw)
                dist = getattr(D, o["alias"])(group_ndims=group, **e)
            else:
                dist = s.build(D, args, group_ndims=group, **kw)
            cx.check(bool(dist.is_continuous) == (not s.discrete), "%s: is_continuous is %r" % (s.name, dist.is_continuous))
            cx.check(dist.dtype == tf.as_dtype(vt) and dist.param_dtype == tf.as_dtype(ft),
                     "%s %s: types of values and parameters are reported as %r and %r" % (s.name, case, dist.dtype, dist.param_dtype))
            given = vn.tolist() if o.get("np") and not s.discrete else tf.constant(vn)
            want = s.logp(Pn, vn)
            work.append((sv, dist.log_prob(given), dist.prob(given), want))
        res = sess.run([(w[1], w[2]) for w in work])
    for (sv, lt, pt, want), (lp, pr) in zip(work, res):
        w = want.sum(-1) if group else want
        n = want.shape[-1] if group else 1
        name = "%s %s" % (s.name, case)
        cx.check(lp.dtype == np.dtype(ft), "%s: log_prob has type %r" % (name, lp.dtype))
        big = max(1.0, float(np.max(np.abs(want[np.isfinite(want)]))) if n > 1 else 1.0)
        at = atol * n * big if group else atol
        at = at + 16 * np.finfo(ft).eps * cond(s, Pn, vn, want, group)
        with np.errstate(over="ignore"):
            finite = np.abs(w) < (3e4 if ft == "float16" else 1e30)
        cx.close(lp[finite], w[finite], name + ": log_prob", rtol=rtol, atol=np.broadcast_to(at, w.shape)[finite])
        with np.errstate(all="ignore"):
            ep = np.exp(w)
        prtol = {"float16": 0.15, "float32": 5e-3, "float64": 1e-7}[ft]
        fin = finite & (ep < (6e4 if ft == "float16" else 1e30))
        # relative error of exp grows with the magnitude of the log
        with np.errstate(all="ignore"):
            slack = prtol * (1 + np.abs(np.where(fin, w, 0))) * np.where(fin, ep, 0) \
                + {"float16": 1e-3, "float32": 1e-7, "float64": 1e-12}[ft] \
                + np.where(fin, ep, 0) * (at - atol)
        bad = fin & ~(np.abs(pr.astype(np.float64) - np.where(fin, ep, 0)) <= slack)
        if bad.any():
            i = tuple(int(x[0]) for x in np.nonzero(np.atleast_1d(bad)))
            cx.fail("%s: prob %r, expected %r at %r" % (name, np.atleast_1d(pr)[i], np.atleast_1d(ep)[i], i))
        cx.step(int(lp.size))
        cx.trace(int(want.size))
        for i in np.ndindex(*want.shape):
            cx.state(s.name, K, ft, case["vt"], repr(o), sv, i)
    cx.sample({"case": case, "points": int(sum(w[3].size for w in work))})


def outside(case, cx, tf, D, s):
    """Values outside the support of FoldNormal / Uniform."""
    ft, g = case["ft"], case["outside"]
    doms = {p: s.pdom(p, 0) for p, _, _ in s.params}
    # far outside, just outside, and exactly on the ends of the support
    vd = [-5.0, -0.7, -0.05, 0.2, 0.0, -1e-3] if s.name.startswith("Fold") else \
        [-30.0, -4.0, 4.0, 30.0, -0.2] + [float(x) for p in ("minval", "maxval") for x in doms[p]]
    P, v, n = layout(s, doms, vd)
    P = {p: a.astype(ft) for p, a in P.items()}
    v = v.astype(ft)
    want = s.logp(P, v)
    with tf.Graph().as_default(), tf.Session() as sess:
        d = s.build(D, {p: tf.constant(a) for p, a in P.items()}, group_ndims=g)
        lp, pr = sess.run([d.log_prob(v), d.prob(v)])
    rtol, atol = dists.TOL[ft]
    if g:
        want = want.sum(-1)
    if g and not np.isfinite(want).any():
        cx.check(np.all(np.isneginf(lp)), "%s: %r" % (case, lp))
    inf = np.isneginf(want)
    cx.check(inf.any(), "no value outside the support")
    cx.check(np.all(np.isneginf(lp[inf])), "%s: finite log probability outside the support: %r" % (case, lp[inf]))
    cx.check(np.all(pr[inf] == 0), "%s: non-zero probability outside the support: %r" % (case, pr[inf]))
    cx.close(lp[~inf], want[~inf], "%s log_prob" % case, rtol=rtol, atol=atol)
    cx.step(int(lp.size))
    cx.trace(int(lp.size))
    for i in range(lp.size):
        cx.state(s.name, ft, g, i)


def terms(s, P, v):
    """Sum of the magnitudes of the terms of the log density: what rounding is relative to."""
    P = {k: np.float64(a) for k, a in P.items()}
    v = np.float64(v)
    nm = s.name.split("/")[0]
    A = np.abs
    L = lambda x: A(np.log(x))
    G = lambda x: A(sp.gammaln(x)) + A(x * np.log(x)) + x
    if nm in ("Normal", "FoldNormal"):
        sd = P["std"] if "std" in P else np.exp(P["logstd"])
        r = 2 + L(sd) + ((A(v) + A(P["mean"])) / sd) ** 2 * (1 + L(sd))
    elif nm == "Laplace":
        r = 2 + L(P["scale"]) + (A(v) + A(P["loc"])) / P["scale"]
    elif nm == "Uniform":
        r = 1 + L(P["maxval"] - P["minval"])
    elif nm == "Gamma":
        a, b = P["alpha"], P["beta"]
        r = a * L(b) + G(a) + (a + 1) * L(v) + b * v + 1
    elif nm == "InverseGamma":
        a, b = P["alpha"], P["beta"]
        r = a * L(b) + G(a) + (a + 1) * L(v) + b / v + 1
    elif nm == "Beta":
        a, b = P["alpha"], P["beta"]
        r = (a + 1) * L(v) + (b + 1) * L(1 - v) + G(a) + G(b) + G(a + b) + 1
    elif nm == "Poisson":
        r = v * L(P["rate"]) + P["rate"] + G(v + 1) + 1
    elif nm in ("Bernoulli", "Categorical"):
        l = A(P["logits"])
        r = 1 + (l.max(-1) if nm == "Categorical" else l) + 0 * v
    elif nm == "Binomial":
        r = 10 + 20 * A(P["logits"]) + 0 * v
    elif nm == "BinConcrete":
        r = 2 + L(P["temperature"]) + 3 * (P["temperature"] + 1) * (L(v) + L(1 - v)) + 3 * A(P["logits"])
    elif nm == "Dirichlet":
        a = P["alpha"]
        r = G(a.sum(-1)) + G(a).sum(-1) + ((a + 1) * L(v)).sum(-1) + 1
    elif nm in ("Concrete", "ExpConcrete"):
        lv = np.log(v) if nm == "Concrete" else v
        n = v.shape[-1]
        r = 5 + n * L(P["temperature"]) + 4 * n * (A(P["logits"]).max(-1) + (P["temperature"] + 1) * A(lv).max(-1))
    else:
        r = 10 + 10 * A(P["logits"]).max(-1) + 0 * v.sum(-1)
    return r


def extreme(case, cx, tf, D, s):
    ft, g, K = case["ft"], case["extreme"], case["K"]
    doms = {}
    for p, er, _ in s.params:
        d = list(s.pdom(p, K))[:2]
        d += [np.float64(x) for x in XPAR.get(p, [])] if er == 0 else [np.array(x) for x in XVEC[p]]
        doms[p] = d
    vt = case["vt"] or ft
    vd = list(s.vdom(K))[:4]
    nm = s.name.split("/")[0]
    if s.vrank == 0:
        vd += [np.float64(x) for x in XVAL.get(nm, [])]
    elif not s.discrete:
        vd += [np.log(x) if nm == "ExpConcrete" else np.array(x) for x in XSIM]
    eps = np.finfo(ft).eps
    with tf.Graph().as_default(), tf.Session() as sess:
        scal = [p for p, _, b in s.params if not b]
        for sv in itertools.product(*[doms[p] for p in scal]):
            d = dict(doms)
            d.update((p, [x]) for p, x in zip(scal, sv))
            P, v, _ = layout(s, d, vd)
            for p in scal:
                P[p] = P[p].reshape(())
            P = {p: a.astype(ft) for p, a in P.items()}
            vn = v.astype(vt)
            kw = {"dtype": tf.as_dtype(vt)} if s.discrete else {}
            dist = s.build(D, {p: tf.constant(a) for p, a in P.items()}, group_ndims=g, **kw)
            lp, pr = sess.run([dist.log_prob(tf.constant(vn)), dist.prob(tf.constant(vn))])
            with np.errstate(all="ignore"):
                want = s.logp(P, vn)
                tol = 64 * eps * np.broadcast_to(terms(s, P, vn), want.shape)
            # comparable where no single term leaves the range of the type
            ok = np.isfinite(want) & (np.abs(want) < 1e30) & np.isfinite(tol) & (tol < 1e25)
            if g:
                with np.errstate(all="ignore"):
                    want, tol, ok = want.sum(-1), tol.sum(-1), ok.all(-1)
            bad = ok & ~(np.abs(lp.astype(np.float64) - want) <= tol)
            if bad.any():
                i = tuple(int(x[0]) for x in np.nonzero(np.atleast_1d(bad)))
                cx.fail("%s %s: log_prob %r, expected %r (+- %.2g) at %r" % (
                    case, sv, np.atleast_1d(lp)[i], np.atleast_1d(want)[i], np.atleast_1d(tol)[i], i))
            with np.errstate(all="ignore"):
                ep = np.exp(lp.astype(np.float64))
                okp = ok & (ep < 1e30)
                badp = okp & ~(np.abs(pr - ep) <= 1e-4 * ep + 64 * eps * np.abs(lp) * ep + 1e-37)
            cx.check(not badp.any(), "%s: prob is not the exponential of log_prob" % case)
            cx.step(int(lp.size))
            cx.trace(int(ok.sum()))
            for i in np.ndindex(*want.shape):
                cx.state(s.name, ft, "extreme", g, vt, sv, i)


def scaled(case, cx, tf, D, s):
    """Normal vectors and matrices in other units: the log density changes by the log of the units alone."""
    ft, g, K = case["ft"], case["scaled"], case["K"]
    e = {"float32": [-14, 12], "float64": [-120, 110]}[ft]
    mat = s.vrank == 2
    for a, b in itertools.product(e + [0], repeat=2):
        for shape in ("both", "first", "turns"):
            # units of the rows of the factors (a of the last factor, b of the first one of a matrix)
            i = np.arange(K)
            u = np.full(K, float(a)) if shape == "both" else np.where(i == 0, a, 0.) if shape == "first" else np.where(i % 2, -a, a) / 2.
            w = np.full(2, float(b) if shape == "both" else b / 2.)
            if not mat and b != 0 or mat and abs(a + b) > max(e):
                continue
            U, W = 10. ** u, 10. ** w
            doms = {p: [np.resize(x, np.shape(x)) for x in s.pdom(p, K)[:2]] for p, _, _ in s.params}
            P = {p: np.stack([np.asarray(x, np.float64) for x in d]) for p, d in doms.items()}
            v = np.stack([np.asarray(x, np.float64) for x in s.vdom(K)[:2]])
            f = W[:, None] * U if mat else U
            want = s.logp(P, v) - np.log(10.) * ((u.sum() * 2 + w.sum() * K) if mat else u.sum())
            Q = dict(P, mean=P["mean"] * f)
            if mat:
                Q["u_tril"], Q["v_tril"] = P["u_tril"] * W[:, None], P["v_tril"] * U[:, None]
            else:
                Q["cov_tril"] = P["cov_tril"] * U[:, None]
            with tf.Graph().as_default(), tf.Session() as sess:
                dist = s.build(D, {p: tf.constant(x.astype(ft)) for p, x in Q.items()}, group_ndims=g)
                lp = sess.run(dist.log_prob(tf.constant((v * f).astype(ft))))
            cx.close(lp, want.sum(-1) if g else want, "%s units 1e%r 1e%r: log_prob" % (case, u.tolist(), w.tolist()),
                     rtol=3e-4 if ft == "float32" else 1e-7, atol=1e-3 if ft == "float32" else 1e-7)
            cx.step(int(lp.size))
            cx.trace(int(lp.size))
            cx.state(s.name, ft, "scaled", K, g, a, b, shape)


def constructors(cx, tf, D):
    """Positional order of the documented constructor arguments, scalars/lists as parameters."""
    L = np.array([[1.1, 0], [0.4, 0.7]])
    M = [[0.3, -1.0], [0.5, 0.2]]
    C = [
        ("Normal", (1.0,), {"std": 2.0}, 0.3, lambda v: BY_NAME["Normal"].logp({"mean": 1., "std": 2.}, v)),
        ("Normal", ([1.0, 0.],), {"logstd": [0.5, 0.1]}, [0.3, .2],
         lambda v: BY_NAME["Normal/logstd"].logp({"mean": [1., 0.], "logstd": [.5, .1]}, v)),
        ("FoldNormal", (1.0,), {"std": 2.0}, 0.3, lambda v: BY_NAME["FoldNormal"].logp({"mean": 1., "std": 2.}, v)),
        ("Bernoulli", (1.5,), {}, 1, lambda v: BY_NAME["Bernoulli"].logp({"logits": 1.5}, v)),
        ("Categorical", ([1.5, 0.1],), {}, 1, lambda v: BY_NAME["Categorical"].logp({"logits": [1.5, .1]}, v)),
        ("Uniform", (), {}, 0.4, lambda v: np.zeros(())),
        ("Uniform", (-1., 3.), {}, 0.4, lambda v: BY_NAME["Uniform"].logp({"minval": -1., "maxval": 3.}, v)),
        ("Gamma", (2.5, 0.7), {}, 0.4, lambda v: BY_NAME["Gamma"].logp({"alpha": 2.5, "beta": .7}, v)),
        ("Beta", (2.5, 0.7), {}, 0.4, lambda v: BY_NAME["Beta"].logp({"alpha": 2.5, "beta": .7}, v)),
        ("Poisson", (2.5,), {}, 3, lambda v: BY_NAME["Poisson"].logp({"rate": 2.5}, v)),
        ("Binomial", (0.5, 4), {}, 3, lambda v: BY_NAME["Binomial/4"].logp({"logits": 0.5}, v)),
        ("InverseGamma", (2.5, 0.7), {}, 0.4, lambda v: BY_NAME["InverseGamma"].logp({"alpha": 2.5, "beta": .7}, v)),
        ("Laplace", (2.5, 0.7), {}, 0.4, lambda v: BY_NAME["Laplace"].logp({"loc": 2.5, "scale": .7}, v)),
        ("BinConcrete", (2.5, 0.7), {}, 0.4,
         lambda v: BY_NAME["BinConcrete"].logp({"temperature": 2.5, "logits": .7}, v)),
        ("MultivariateNormalCholesky", ([1., 2.], L.tolist()), {}, [0.1, 0.2],
         lambda v: BY_NAME["MultivariateNormalCholesky"].logp({"mean": [1., 2.], "cov_tril": L}, v)),
        ("Multinomial", ([1., 2.], 3), {}, [1, 2], lambda v: BY_NAME["Multinomial/3"].logp({"logits": [1., 2.]}, v)),
        ("UnnormalizedMultinomial", ([1., 2.],), {}, [1, 2],
         lambda v: BY_NAME["UnnormalizedMultinomial"].logp({"logits": [1., 2.]}, v)),
        ("OnehotCategorical", ([1., 2.],), {}, [1, 0], lambda v: BY_NAME["OnehotCategorical"].logp({"logits": [1., 2.]}, v)),
        ("Dirichlet", ([1., 2.],), {}, [.3, .7], lambda v: BY_NAME["Dirichlet"].logp({"alpha": [1., 2.]}, v)),
        ("ExpConcrete", (0.5, [1., 2.]), {}, np.log([.3, .7]).tolist(),
         lambda v: BY_NAME["ExpConcrete"].logp({"temperature": .5, "logits": [1., 2.]}, v)),
        ("Concrete", (0.5, [1., 2.]), {}, [.3, .7],
         lambda v: BY_NAME["Concrete"].logp({"temperature": .5, "logits": [1., 2.]}, v)),
        ("MatrixVariateNormalCholesky", (M, L.tolist(), (2 * L).tolist()), {}, [[0., 1.], [2., .5]],
         lambda v: BY_NAME["MatrixVariateNormalCholesky"].logp({"mean": M, "u_tril": L, "v_tril": 2 * L}, v)),
    ]
    with tf.Graph().as_default(), tf.Session() as sess:
        for cls, a, kw, v, ref in C:
            lp = sess.run(getattr(D, cls)(*a, **kw).log_prob(v))
            cx.close(lp, ref(np.asarray(v, np.float64)), "%s%r%r log_prob" % (cls, a, kw), rtol=1e-4, atol=1e-4)
            cx.step()
            cx.trace()
            cx.state("ctor", cls, repr(a))
        # types are taken from the tensors given
        for ft in (tf.float16, tf.float32, tf.float64):
            one, two = tf.constant(1., ft), tf.constant(2., ft)
            for d in (D.Normal(one, std=two), D.Uniform(one, two), D.Laplace(one, two), D.Gamma(one, two)):
                cx.check(d.dtype == ft and d.param_dtype == ft, "%r type %r" % (d, d.dtype))
                cx.check(sess.run(d.log_prob(1.5)).dtype == ft.as_numpy_dtype, "type of log_prob")
                cx.step()
