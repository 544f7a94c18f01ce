"""Reference description of every distribution in zhusuan.distributions, written from the class
documentation and the cited papers in float64 numpy/scipy (never from the implementation).

A Spec knows its parameter names, how many trailing event axes each parameter has, small domains of
parameter and value elements, the reference log density, and how to build the real object.
"""
import itertools

import numpy as np
from scipy import special as sp


def bshape(*shapes):
    return np.broadcast_shapes(*[tuple(s) for s in shapes])


class Spec(object):
    reparam = False            # accepts is_reparameterized
    path = False               # accepts use_path_derivative
    check_num = False          # accepts check_numerics
    discrete = False
    samples = True             # sample() supported
    vrank = 0                  # number of value axes
    broadcast = True           # parameters broadcast against each other
    extra = {}                 # constant keyword arguments
    float_types = ("float16", "float32", "float64")
    value_types = None         # for discrete: allowed dtype arguments

    def __init__(self, name, cls, params, **kw):
        self.name = name
        self.cls = cls
        self.params = params           # list of (pname, event_rank, batched)
        for k, v in kw.items():
            setattr(self, k, v)

    # -- domains -----------------------------------------------------------------
    def pdom(self, pname, K):
        """list of arrays (event-shaped elements) of valid values of parameter pname"""
        return self._pdom[pname](K)

    def batched(self):
        return [p for p, _, b in self.params if b]

    def event_shape(self, pname, K):
        er = [e for p, e, _ in self.params if p == pname][0]
        return self._esh(pname, K) if hasattr(self, "_esh") else (K,) * er

    def value_shape(self, K):
        return self._vsh(K) if hasattr(self, "_vsh") else (K,) * self.vrank

    def fill(self, pname, shape, K, salt=0):
        """A parameter tensor of batch shape `shape`, cycling through the domain."""
        dom = self.pdom(pname, K)
        n = int(np.prod(shape)) if shape else 1
        # a stride coprime with the domain so that two parameters do not stay in step
        idx = [(i * (1 + salt) + salt) % len(dom) for i in range(n)]
        ev = self.event_shape(pname, K)
        return np.array([dom[i] for i in idx], dtype=np.float64).reshape(tuple(shape) + ev)

    def fill_value(self, shape, K, salt=0):
        dom = self.vdom(K)
        n = int(np.prod(shape)) if shape else 1
        idx = [(i * (1 + salt) + salt) % len(dom) for i in range(n)]
        return np.array([dom[i] for i in idx], dtype=np.float64).reshape(
            tuple(shape) + self.value_shape(K))

    def vdom(self, K):
        return self._vdom(K)

    def build(self, D, P, **kw):
        args = dict(self.extra)
        args.update(P)
        args.update(kw)
        return getattr(D, self.cls)(**args)

    def logp(self, P, v):
        with np.errstate(all="ignore"):
            return self._logp({k: np.asarray(a, np.float64) for k, a in P.items()},
                              np.asarray(v, np.float64))


def _const(vals):
    return lambda K: [np.float64(v) for v in vals]


def _vecs(K):
    base = [[0.3, -1.2, 0.9, 0.1], [2.0, 0.5, -0.7, -2.0], [-0.4, -0.4, 1.1, 0.6], [0., 0., 0., 0.],
            [-3.0, 1.5, 0.2, 1.0]]
    return [np.array(b[:K]) for b in base]


def _pos(K):
    base = [[0.5, 1.7, 3.0, 0.9], [2.0, 1.0, 0.7, 1.3], [1.0, 1.0, 1.0, 1.0], [4.0, 0.3, 2.2, 0.6]]
    return [np.array(b[:K]) for b in base]


def _simplex(K):
    base = [[0.2, 0.5, 0.1, 0.2], [0.6, 0.1, 0.15, 0.15], [0.25, 0.25, 0.25, 0.25],
            [0.05, 0.15, 0.5, 0.3]]
    return [np.array(b[:K]) / np.sum(b[:K]) for b in base]


def _tril(K):
    base = np.array([[1.1, 0, 0, 0], [0.4, 0.7, 0, 0], [-0.3, 0.2, 1.4, 0], [0.1, -0.6, 0.5, 0.9]])
    b2 = np.array([[0.6, 0, 0, 0], [-0.5, 1.3, 0, 0], [0.2, 0.9, 0.8, 0], [0.7, 0.3, -0.2, 1.2]])
    return [base[:K, :K], b2[:K, :K], np.eye(K) * 1.5]


def _onehot(K):
    return [np.eye(K)[i] for i in range(K)]


def _counts(n, K):
    return [np.array(c, np.float64) for c in itertools.product(range(n + 1), repeat=K) if sum(c) == n]


def lognorm(x, m, s):
    return -0.5 * np.log(2 * np.pi) - np.log(s) - 0.5 * ((x - m) / s) ** 2


def _lp_normal(P, v):
    s = P["std"] if "std" in P else np.exp(P["logstd"])
    return lognorm(v, P["mean"], s)


def _lp_fold(P, v):
    s = P["std"] if "std" in P else np.exp(P["logstd"])
    return np.where(v >= 0, np.logaddexp(lognorm(v, P["mean"], s), lognorm(-v, P["mean"], s)), -np.inf)


def _lp_bern(P, v):
    l = P["logits"]
    return np.where(v > 0.5, -np.logaddexp(0, -l), -np.logaddexp(0, l))


def _lsm(l):
    return l - sp.logsumexp(l, axis=-1, keepdims=True)


def _lp_cat(P, v):
    l = _lsm(P["logits"])
    shp = bshape(v.shape, l.shape[:-1])
    l = np.broadcast_to(l, shp + l.shape[-1:])
    v = np.broadcast_to(v, shp).astype(int)
    return np.take_along_axis(l, v[..., None], -1)[..., 0]


def _lp_unif(P, v):
    ins = (v >= P["minval"]) & (v < P["maxval"])
    return np.where(ins, -np.log(P["maxval"] - P["minval"]), -np.inf)


def _lp_gamma(P, v):
    a, b = P["alpha"], P["beta"]
    return a * np.log(b) - sp.gammaln(a) + (a - 1) * np.log(v) - b * v


def _lp_beta(P, v):
    a, b = P["alpha"], P["beta"]
    return (a - 1) * np.log(v) + (b - 1) * np.log1p(-v) - sp.betaln(a, b)


def _lp_pois(P, v):
    return v * np.log(P["rate"]) - P["rate"] - sp.gammaln(v + 1)


def _lp_invg(P, v):
    a, b = P["alpha"], P["beta"]
    return a * np.log(b) - sp.gammaln(a) - (a + 1) * np.log(v) - b / v


def _lp_lap(P, v):
    return -np.log(2 * P["scale"]) - np.abs(v - P["loc"]) / P["scale"]


def _lp_binom(n):
    def f(P, v):
        l = P["logits"]
        return sp.gammaln(n + 1) - sp.gammaln(v + 1) - sp.gammaln(n - v + 1) \
            - v * np.logaddexp(0, -l) - (n - v) * np.logaddexp(0, l)
    return f


def _lp_binc(P, v):
    # density of sigmoid((logits + logistic)/t): with y = logit(v), t*y - logits ~ Logistic
    t = P["temperature"]
    z = t * (np.log(v) - np.log1p(-v)) - P["logits"]
    return np.log(t) - z - 2 * np.logaddexp(0, -z) - np.log(v) - np.log1p(-v)


def _lp_mvn(P, v):
    m, L = P["mean"], P["cov_tril"]
    cov = np.matmul(L, np.swapaxes(L, -1, -2))
    y = v - m
    shp = bshape(y.shape[:-1], cov.shape[:-2])
    y = np.broadcast_to(y, shp + y.shape[-1:])
    cov = np.broadcast_to(cov, shp + cov.shape[-2:])
    q = np.einsum("...i,...i->...", y, np.linalg.solve(cov, y[..., None])[..., 0])
    d = y.shape[-1]
    return -0.5 * (d * np.log(2 * np.pi) + np.linalg.slogdet(cov)[1] + q)


def _lp_mult(comb, normalize):
    def f(P, v):
        l = _lsm(P["logits"]) if normalize else P["logits"]
        r = np.sum(v * l, -1)
        if comb:
            r = r + sp.gammaln(np.sum(v, -1) + 1) - np.sum(sp.gammaln(v + 1), -1)
        return r
    return f


def _lp_onehot(P, v):
    return np.sum(v * _lsm(P["logits"]), -1)


def _lp_dir(P, v):
    a = P["alpha"]
    return sp.gammaln(np.sum(a, -1)) - np.sum(sp.gammaln(a), -1) + np.sum((a - 1) * np.log(v), -1)


def _lp_expc(P, v):
    t, l = P["temperature"], P["logits"]
    n = bshape(l.shape, v.shape)[-1]
    z = l - t * v
    return sp.gammaln(n) + (n - 1) * np.log(t) + np.sum(z, -1) - n * sp.logsumexp(z, axis=-1)


def _lp_conc(P, v):
    return _lp_expc(P, np.log(v)) - np.sum(np.log(v), -1)


def _lp_mvnm(P, v):
    m, U, V = P["mean"], P["u_tril"], P["v_tril"]
    U2 = np.matmul(U, np.swapaxes(U, -1, -2))
    V2 = np.matmul(V, np.swapaxes(V, -1, -2))
    y = v - m
    n, p = y.shape[-2:]
    shp = bshape(y.shape[:-2], U2.shape[:-2])
    y = np.broadcast_to(y, shp + (n, p))
    U2 = np.broadcast_to(U2, shp + (n, n))
    V2 = np.broadcast_to(V2, shp + (p, p))
    # tr(V^-1 Y' U^-1 Y)
    A = np.linalg.solve(U2, y)
    B = np.matmul(np.swapaxes(y, -1, -2), A)
    q = np.trace(np.linalg.solve(V2, B), axis1=-2, axis2=-1)
    return -0.5 * (n * p * np.log(2 * np.pi) + n * np.linalg.slogdet(V2)[1]
                   + p * np.linalg.slogdet(U2)[1] + q)


INTF = ("int16", "int32", "int64", "float16", "float32", "float64")
REAL = [-2.0, -0.3, 0.0, 1.7, 4.0]
MEAN = [-1.5, 0.0, 2.0]
STD = [0.4, 1.0, 3.0]


def _mat_esh(p, K):
    return {"mean": (2, K), "u_tril": (2, 2), "v_tril": (K, K)}[p]


def _mat_mean(K):
    r = [np.arange(2 * K) * 0.3 - 0.5, np.cos(np.arange(2 * K)), np.zeros(2 * K)]
    return [x.reshape(2, K) for x in r]


def make_specs():
    S = []

    def add(*a, **k):
        s = Spec(*a, **k)
        S.append(s)
        return s

    rp = dict(reparam=True, path=True, check_num=True)
    for nm, lp, vd in (("Normal", _lp_normal, REAL), ("FoldNormal", _lp_fold, [0.1, 0.8, 2.5, 4.0])):
        add(nm, nm, [("mean", 0, True), ("std", 0, True)], _logp=lp, _vdom=_const(vd),
            _pdom={"mean": _const(MEAN), "std": _const(STD)}, **rp)
        add(nm + "/logstd", nm, [("mean", 0, True), ("logstd", 0, True)], _logp=lp, _vdom=_const(vd),
            _pdom={"mean": _const(MEAN), "logstd": _const(np.log(STD))}, **rp)
    add("Bernoulli", "Bernoulli", [("logits", 0, True)], discrete=True, value_types=INTF, _logp=_lp_bern,
        _vdom=_const([0, 1]), _pdom={"logits": _const([-4.0, -0.5, 0.0, 2.0])})
    add("Categorical", "Categorical", [("logits", 1, True)], discrete=True,
        value_types=("int32", "int64", "float32", "float64"), float_types=("float32", "float64"),
        _logp=_lp_cat, _vdom=lambda K: [np.float64(i) for i in range(K)], _pdom={"logits": _vecs})
    add("Uniform", "Uniform", [("minval", 0, True), ("maxval", 0, True)], reparam=True, check_num=True,
        _logp=_lp_unif, _vdom=_const([-0.4, 0.3, 0.9]),
        _pdom={"minval": _const([-1.0, -0.5, -3.0]), "maxval": _const([1.0, 2.5])})
    add("Gamma", "Gamma", [("alpha", 0, True), ("beta", 0, True)], check_num=True, _logp=_lp_gamma,
        _vdom=_const([0.1, 1.0, 4.0]), _pdom={"alpha": _const([0.5, 1.0, 3.0]), "beta": _const([0.5, 2.0])})
    add("Beta", "Beta", [("alpha", 0, True), ("beta", 0, True)], check_num=True, _logp=_lp_beta,
        _vdom=_const([0.1, 0.5, 0.85]), _pdom={"alpha": _const([0.5, 1.0, 3.0]), "beta": _const([0.7, 2.0])})
    add("Poisson", "Poisson", [("rate", 0, True)], discrete=True, check_num=True, value_types=INTF,
        _logp=_lp_pois, _vdom=_const([0, 1, 4, 9]), _pdom={"rate": _const([0.5, 3.0, 8.0])})
    for n in (1, 4):
        add("Binomial/%d" % n, "Binomial", [("logits", 0, True)], discrete=True, check_num=True,
            value_types=INTF, extra={"n_experiments": n}, _logp=_lp_binom(n),
            _vdom=_const(range(n + 1)), _pdom={"logits": _const([-2.0, 0.0, 1.5])})
    add("InverseGamma", "InverseGamma", [("alpha", 0, True), ("beta", 0, True)], check_num=True,
        _logp=_lp_invg, _vdom=_const([0.2, 1.0, 4.0]),
        _pdom={"alpha": _const([0.8, 1.0, 3.0]), "beta": _const([0.5, 2.0])})
    add("Laplace", "Laplace", [("loc", 0, True), ("scale", 0, True)], _logp=_lp_lap, _vdom=_const(REAL),
        _pdom={"loc": _const(MEAN), "scale": _const([0.5, 1.0, 2.0])}, **rp)
    add("BinConcrete", "BinConcrete", [("temperature", 0, False), ("logits", 0, True)], _logp=_lp_binc,
        _vdom=_const([0.1, 0.5, 0.85]),
        _pdom={"temperature": _const([0.7, 1.0, 2.0]), "logits": _const([-1.0, 0.0, 1.5])}, **rp)
    add("MultivariateNormalCholesky", "MultivariateNormalCholesky",
        [("mean", 1, True), ("cov_tril", 2, True)], broadcast=False, vrank=1, _logp=_lp_mvn, _vdom=_vecs,
        float_types=("float32", "float64"), _pdom={"mean": _vecs, "cov_tril": _tril}, **rp)
    for n in (1, 3):
        add("Multinomial/%d" % n, "Multinomial", [("logits", 1, True)], discrete=True, vrank=1,
            value_types=INTF, extra={"n_experiments": n}, _logp=_lp_mult(True, True),
            _vdom=lambda K, n=n: _counts(n, K), _pdom={"logits": _vecs})
    add("Multinomial/None", "Multinomial", [("logits", 1, True)], discrete=True, vrank=1, samples=False,
        value_types=INTF, extra={"n_experiments": None}, _logp=_lp_mult(True, True),
        _vdom=lambda K: _counts(1, K) + _counts(2, K), _pdom={"logits": _vecs})
    add("Multinomial/raw", "Multinomial", [("logits", 1, True)], discrete=True, vrank=1,
        value_types=INTF, extra={"n_experiments": 2, "normalize_logits": False},
        _logp=_lp_mult(True, False), _vdom=lambda K: _counts(2, K), _pdom={"logits": _vecs})
    add("UnnormalizedMultinomial", "UnnormalizedMultinomial", [("logits", 1, True)], discrete=True, vrank=1,
        samples=False, value_types=INTF, _logp=_lp_mult(False, True),
        _vdom=lambda K: _counts(1, K) + _counts(2, K), _pdom={"logits": _vecs})
    add("UnnormalizedMultinomial/raw", "UnnormalizedMultinomial", [("logits", 1, True)], discrete=True,
        vrank=1, samples=False, value_types=INTF, extra={"normalize_logits": False},
        _logp=_lp_mult(False, False), _vdom=lambda K: _counts(2, K), _pdom={"logits": _vecs})
    add("OnehotCategorical", "OnehotCategorical", [("logits", 1, True)], discrete=True, vrank=1,
        value_types=INTF, _logp=_lp_onehot, _vdom=_onehot, _pdom={"logits": _vecs})
    add("Dirichlet", "Dirichlet", [("alpha", 1, True)], vrank=1, check_num=True, _logp=_lp_dir,
        _vdom=_simplex, _pdom={"alpha": _pos})
    add("ExpConcrete", "ExpConcrete", [("temperature", 0, False), ("logits", 1, True)], vrank=1,
        _logp=_lp_expc, _vdom=lambda K: [np.log(x) for x in _simplex(K)],
        _pdom={"temperature": _const([0.7, 1.0, 2.0]), "logits": _vecs}, **rp)
    add("Concrete", "Concrete", [("temperature", 0, False), ("logits", 1, True)], vrank=1,
        _logp=_lp_conc, _vdom=_simplex,
        _pdom={"temperature": _const([0.7, 1.0, 2.0]), "logits": _vecs}, **rp)
    add("MatrixVariateNormalCholesky", "MatrixVariateNormalCholesky",
        [("mean", 2, True), ("u_tril", 2, True), ("v_tril", 2, True)], broadcast=False, vrank=2,
        _logp=_lp_mvnm, _vdom=_mat_mean, _esh=_mat_esh, _vsh=lambda K: (2, K),
        float_types=("float32", "float64"),
        _pdom={"mean": _mat_mean, "u_tril": lambda K: _tril(2), "v_tril": lambda K: _tril(K)}, **rp)
    return S


SPECS = make_specs()
BY_NAME = {s.name: s for s in SPECS}
TOL = {"float16": (6e-2, 6e-2), "float32": (3e-4, 3e-4), "float64": (1e-9, 1e-9)}
