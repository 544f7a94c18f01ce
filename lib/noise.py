"""Ownership of randomness: the random ops a tensor depends on, their marginal laws, and feeding them."""
import numpy as np
from scipy import special as sp
from scipy import stats

KINDS = {
    "RandomStandardNormal": "normal", "RandomUniform": "uniform", "Multinomial": "categorical",
    "RandomGamma": "gamma", "RandomPoissonV2": "poisson", "RandomPoisson": "poisson",
}
OTHER_RANDOM = ("TruncatedNormal", "ParameterizedTruncatedNormal", "RandomUniformInt", "RandomShuffle",
                "StatelessRandomNormal", "StatelessRandomUniform", "StatelessMultinomial",
                "StatelessRandomNormalV2", "StatelessRandomUniformV2", "StatelessRandomGammaV2",
                "StatelessRandomGammaV3", "StatelessRandomPoisson", "StatefulStandardNormalV2",
                "StatefulUniform", "StatelessTruncatedNormal", "StatelessRandomBinomial",
                "StatefulRandomBinomial", "StatelessRandomUniformInt")


def ancestors(tensors):
    seen, todo = set(), [getattr(t, "op", t) for t in tensors]
    while todo:
        op = todo.pop()
        if op in seen:
            continue
        seen.add(op)
        todo.extend(i.op for i in op.inputs)
        todo.extend(op.control_inputs)
    return seen


def random_ops(tensors, graph=None):
    """(ops we can feed, in graph order; names of random ops we cannot own)"""
    anc = ancestors(tensors)
    ops = [o for o in anc if o.type in KINDS]
    if ops:
        pos = {o: i for i, o in enumerate(ops[0].graph.get_operations())}
        ops.sort(key=lambda o: pos[o])
    other = [o.name for o in anc if o.type in OTHER_RANDOM]
    return ops, other


class Noise(object):
    """The marginal law of every element of one random op's output (given its evaluated inputs)."""

    def __init__(self, op, shape, arg):
        self.op = op
        self.kind = KINDS[op.type]
        self.shape = tuple(shape)
        self.dtype = op.outputs[0].dtype.as_numpy_dtype
        n = int(np.prod(self.shape)) if self.shape else 1
        if self.kind in ("gamma", "poisson"):
            self.arg = np.broadcast_to(np.asarray(arg, np.float64), self.shape).reshape(n)
        elif self.kind == "categorical":
            l = np.asarray(arg, np.float64)
            p = np.exp(l - sp.logsumexp(l, axis=-1, keepdims=True))
            self.arg = np.repeat(p, self.shape[1], axis=0)      # [B*N, K]
        else:
            self.arg = None
        self.size = n

    def discrete(self):
        return self.kind in ("categorical", "poisson")

    def outcomes(self, i):
        """[(value, weight)] of element i, all of them (up to negligible mass)."""
        if self.kind == "categorical":
            return [(k, w) for k, w in enumerate(self.arg[i])]
        r = self.arg[i]
        hi = int(r + 12 * np.sqrt(r) + 20)
        ks = np.arange(hi)
        return list(zip(ks.tolist(), stats.poisson.pmf(ks, r).tolist()))

    def top(self):
        """the largest value uniform noise of this type takes"""
        return 1.0 - {2: 2.0 ** -10, 4: 2.0 ** -23, 8: 2.0 ** -52}[np.dtype(self.dtype).itemsize]

    def quantile(self, i, u):
        if self.kind == "normal":
            return sp.ndtri(u)
        if self.kind == "uniform":
            return min(u, self.top())
        if self.kind == "gamma":
            return sp.gammaincinv(self.arg[i], u)
        if self.kind == "categorical":
            return int(min(np.searchsorted(np.cumsum(self.arg[i]), u), len(self.arg[i]) - 1))
        return float(stats.poisson.ppf(u, self.arg[i]))

    def quantile_grid(self, i, us):
        us = np.asarray(us)
        if self.kind == "normal":
            return sp.ndtri(us)
        if self.kind == "uniform":
            return np.minimum(us, self.top())
        if self.kind == "gamma":
            return sp.gammaincinv(self.arg[i], us)
        return np.array([self.quantile(i, u) for u in us])

    def base(self, salt=0):
        """a fixed generic outcome"""
        us = ((np.arange(self.size) * 0.618034 + 0.137 * (salt + 1)) % 1.0) * 0.8 + 0.1
        return np.array([self.quantile(i, u) for i, u in enumerate(us)]).reshape(self.shape).astype(self.dtype)


def own(sess, tensors, feed=None):
    """Noise descriptions of all random ops under `tensors` (their inputs evaluated under feed)."""
    ops, other = random_ops(tensors)
    res = []
    for op in ops:
        a = op.inputs[1] if op.type in ("RandomGamma", "RandomPoissonV2", "RandomPoisson") else op.inputs[0]
        shp, arg = sess.run([op.outputs[0], a], feed)
        res.append(Noise(op, shp.shape, arg))
    return res, other
