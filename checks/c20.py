"""C20: effective sample size of all short chains, against exact rational arithmetic."""
import itertools
from fractions import Fraction

import numpy as np

TECHNIQUE = ("exhaustive enumeration of all short chains over small alphabets on the real code; oracle: the definition in exact rational "
             "arithmetic, both outcomes accepted where an autocorrelation is exactly zero and rounding may make it negative")
LEVEL_NOTE = "bounded: all chains of length up to 13 (two values) and 8 (three values), up to 3 dimensions"
RULE = "a case is an alphabet x length (x form); all chains are explored"
ASSUMPTIONS = ["constant chains are excluded (the definition divides by the variance)"]
BOUNDS = {"quick": "all chains of length 2-12 over 2 values, 2-7 over 3, 2-5 over 5; shifted and scaled, 3 dtypes; all pairs/triples of columns of short chains x burn-in 0-3 and default",
          "thorough": "length 15 over 2 values, 9 over 3, 7 over 5"}


def cases(tier):
    th = tier == "thorough"
    out = []
    for a, n in (([0, 1], 15 if th else 12), ([-1, 0, 2], 9 if th else 7), ([-3, 0, 1, 2, 10], 7 if th else 5)):
        for k in range(2, n + 1):
            total = len(a) ** k
            of = max(1, total // 1000)
            for s in range(min(of, 16)):
                out.append({"kind": "one", "alpha": a, "n": k, "slice": s, "of": min(of, 16)})
    for n in (2, 3, 4):
        for d in (1, 2, 3):
            out.append({"kind": "vec", "n": n, "d": d})
    out.append({"kind": "long"})
    out.append({"kind": "zero"})
    return out


def weight(c):
    return 1


# chains with mean 0 and variance 8 of n = 9 integers, one autocorrelation of which is exactly zero before a positive one: every
# intermediate result up to there is an integer or a multiple of 1/8, so no rounding can turn the zero into a negative number
ZERO = [[-3, -4, 2, -4, 1, 0, 1, 4, 3], [-2, -4, 1, -3, 2, 4, 2, 3, -3], [-1, 4, 3, 0, 3, -4, -2, -4, 1], [-3, -4, -1, 2, 1, 4, 0, 4, -3],
        [-3, 2, -4, 0, -3, -1, 1, 4, 4], [0, -4, -4, 0, 0, 2, 4, -2, 4], [-4, 2, -1, 4, 3, 3, -3, -2, -2],
        [-4, -3, 2, -4, 0, 1, 1, 4, 3], [-2, -4, -2, -3, 2, 4, -1, 3, 3]]


def exact(ch):
    """the set of values allowed by the definition; the last one is its value without rounding"""
    n = len(ch)
    x = [Fraction(v) for v in ch]
    mu = sum(x) / n
    c = [v - mu for v in x]
    v0 = sum(v * v for v in c)
    var = v0 / (n - 1)
    var_plus = v0 / n
    s = Fraction(0)
    out = []
    for t in range(1, n):
        cov = sum(c[i] * c[i + t] for i in range(n - t)) / (n - t)
        rho = 1 - (var - cov) / var_plus
        if rho < 0:
            break
        if rho == 0:
            out.append(s)          # rounding may see it as negative
        s += rho
    out.append(s)
    return [float(Fraction(n) / (1 + 2 * v)) for v in out]


def ok1(got, want, tol):
    return any(abs(got - w) <= tol * abs(w) for w in want)


def run_case(case, cx):
    from zhusuan.diagnostics import effective_sample_size, effective_sample_size_1d
    if case["kind"] == "one":
        forms = [("float64", 1., 0.), ("float64", -2.5, 7.), ("float64", 1e6, 0.), ("float64", 1e-6, 0.), ("float64", 3., -100.), ("float32", 1., 0.), ("int64", 1, 0), ("int32", 4, 10)]
        for i, ch in enumerate(itertools.product(case["alpha"], repeat=case["n"])):
            if i % case["of"] != case["slice"] or len(set(ch)) == 1:
                continue
            want = exact(ch)
            for dt, a, b in forms:
                x = (np.array(ch, "float64") * a + b).astype(dt)
                keep = x.copy()
                got = effective_sample_size_1d(x)
                cx.check(np.array_equal(x, keep), "the chain was changed")
                cx.check(np.ndim(got) == 0 and ok1(float(got), want, 2e-4 if dt == "float32" else 1e-6),
                         "chain %r * %r + %r (%s): effective sample size %r, expected %r" % (ch, a, b, dt, got, want))
                cx.step()
            # as a vector chain with one dimension
            got = effective_sample_size(np.array(ch, "float64")[:, None], burn_in=0)
            cx.check(ok1(float(got), want, 1e-6), "one-dimensional chain %r without burn-in: %r, expected %r" % (ch, got, want))
            cx.state(ch)
        cx.trace()
    elif case["kind"] == "vec":
        n, d = case["n"], case["d"]
        alpha = [0, 1] if n * d > 6 else [0, 1, 3]
        cols = [c for c in itertools.product(alpha, repeat=n) if len(set(c)) > 1]
        if d == 3 and len(cols) > 14:
            cols = cols[::3]
        for t in itertools.product(cols, repeat=d):
            wants = [exact(c) for c in t]
            body = np.array(t, "float64").T
            allowed = [min(w) for w in itertools.product(*wants)]
            for burn in (0, 1, 3, None, 100):
                b = 100 if burn is None else burn
                # the discarded samples are such that including any of them changes the result
                head = np.array([[(7 * i + j) % 11 - 50. for j in range(d)] for i in range(b)]).reshape(b, d)
                x = np.concatenate([head, body])
                got = effective_sample_size(x) if burn is None else effective_sample_size(x, burn_in=burn)
                cx.check(np.size(got) == 1 and ok1(float(np.ravel(got)[0]), allowed, 1e-6),
                         "columns %r with %r discarded: %r, expected %r" % (t, burn, got, allowed))
                cx.step()
            cx.state("vec", t)
        cx.trace()
    elif case["kind"] == "zero":
        for ch in ZERO:
            want = exact(ch)
            cx.check(len(want) == 2 and want[1] < 0.99 * want[0], "the harness: %r has no vanishing autocorrelation" % (ch,))
            for a, b in ((1., 0.), (2., 0.), (-.5, 0.), (1., 7.), (4., -16.)):
                got = effective_sample_size_1d(np.array(ch, "float64") * a + b)
                cx.check(ok1(float(got), want[1:], 1e-9), "chain %r, the autocorrelation of which is zero and then positive: %r, expected %r"
                         % (ch, got, want[1]))
                cx.step()
            cx.state("zero", tuple(ch))
        cx.trace()
    else:
        # longer chains with structure: periodic, trends, blocks
        pats = [[i % p for i in range(n)] for n in (60, 101) for p in (2, 3, 7, 50)] + \
               [[(i // p) % 2 for i in range(n)] for n in (60, 101) for p in (2, 5, 20)] + [list(range(50)), [i * i % 17 for i in range(120)]]
        for p in pats:
            want = exact(p)
            for a, b in ((1., 0.), (-.1, 3.)):
                got = effective_sample_size_1d(np.array(p) * a + b)
                cx.check(ok1(float(got), want, 1e-6), "long chain: %r, expected %r" % (got, want))
                cx.step()
            cx.state("long", tuple(p))
        for p in pats:
            for q in pats:
                if len(p) == len(q):
                    got = effective_sample_size(np.array([p, q]).T, 0)
                    al = [min(w) for w in itertools.product(exact(p), exact(q))]
                    cx.check(ok1(float(got), al, 1e-6), "two long columns: %r, expected %r" % (got, al))
                    cx.step()
