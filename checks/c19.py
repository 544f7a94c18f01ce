"""C19: log-sum-exp and log-mean-exp on all small tensors of extreme values; dictionary merging."""
import itertools

import numpy as np

TECHNIQUE = ("exhaustive enumeration of all small tensors over an alphabet of extreme values x all axes x forms on the real code; oracle: "
             "extended precision reference; all small tuples of dictionaries")
LEVEL_NOTE = "bounded: alphabets of 6-14 values, tensors up to 8 entries, rank up to 4"
RULE = "a case is a function x dtype x shape; all tensors over the alphabet x all axis arguments are explored"
ASSUMPTIONS = ["float rounding tolerance relative to the largest entry"]
BOUNDS = {"quick": "all vectors of length 1-4 over 12 values, all 2x2 (and 1x3, 3x1, 2x1x2) tensors over 6 values, all axis subsets with positive/negative/list/tuple forms, both keepdims, 3 dtypes, known/unknown shapes",
          "thorough": "vectors of length 5, tensors of 6 entries"}

ALPHA = {"float32": [-np.inf, -3e38, -1e4, -104., -0.5, 0., 1e-3, 88.9, 1e4, 3e38, np.inf, np.nan],
         "float64": [-np.inf, -1e308, -1e5, -746., -0.5, 0., 1e-3, 710., 1e5, 1e308, np.inf, np.nan],
         "float16": [-np.inf, -6e4, -300., -17., -0.5, 0., 1e-2, 11.5, 300., 6e4, np.inf, np.nan]}
SMALL = {"float32": [-np.inf, -2e4, -1., 0.5, 95., 3e38], "float64": [-np.inf, -2e5, -1., 0.5, 720., 1e308],
         "float16": [-np.inf, -900., -1., 0.5, 14., 6e4]}


def cases(tier):
    out = []
    vec = [[1], [2], [3], [4]] + ([[5]] if tier == "thorough" else [])
    ten = [[2, 2], [1, 3], [3, 1], [2, 1, 2], [1, 2, 1, 2]] + ([[2, 3], [3, 2], [1, 2, 3]] if tier == "thorough" else [])
    for fn in ("log_mean_exp", "log_sum_exp"):
        for dt in ALPHA:
            for sh in vec:
                if len(sh) == 1 and sh[0] == 5 and dt != "float32":
                    continue
                out.append({"kind": "lse", "fn": fn, "dt": dt, "shape": sh, "alpha": "big"})
            for sh in ten:
                out.append({"kind": "lse", "fn": fn, "dt": dt, "shape": sh, "alpha": "small"})
            out.append({"kind": "big", "fn": fn, "dt": dt})
        out.append({"kind": "forms", "fn": fn})
        for dt in ("float32", "float64"):
            out.append({"kind": "grad", "fn": fn, "dt": dt})
    out.append({"kind": "merge"})
    return out


def weight(c):
    n = int(np.prod(c.get("shape", [1])))
    return 12 if c["kind"] == "forms" else 10 if n >= 5 or len(c.get("shape", [])) > 3 else 5 if n == 4 else 1


def axes_of(r):
    """all axis arguments of a rank"""
    out = [None]
    for k in range(1, r + 1):
        for sub in itertools.combinations(range(r), k):
            if k == 1:
                out += [sub[0], sub[0] - r]
            out += [list(sub), tuple(a - r for a in reversed(sub))]
    return out


def ref(x, axis, keepdims, mean):
    x = np.asarray(x).astype(np.longdouble)
    ax = tuple(range(x.ndim)) if axis is None else tuple(a % x.ndim for a in (axis if isinstance(axis, (list, tuple)) else [axis]))
    with np.errstate(all="ignore"):
        m = x.max(axis=ax, keepdims=True)       # nan propagates
        m0 = np.where(np.isfinite(m), m, 0)
        n = np.prod([x.shape[a] for a in ax])
        s = np.sum(np.exp(x - m0), axis=ax, keepdims=True)
        r = np.log(s / (n if mean else 1)) + m0
        r = np.where(np.isnan(m), m, r)
    big = np.abs(m0)
    if not keepdims:
        r, big = np.squeeze(r, ax), np.squeeze(big, ax)
    return r, big


def compare(cx, got, want, big, dt, msg, n):
    eps = float(np.finfo(dt).eps)
    cx.check(got.dtype == np.dtype(dt), msg + ": dtype %s" % got.dtype)
    cx.check(got.shape == want.shape, msg + ": shape %r, expected %r" % (got.shape, want.shape))
    g = got.astype(np.longdouble)
    top = np.finfo(dt).max
    with np.errstate(all="ignore"):
        want = np.where(np.abs(want) > top, np.sign(want) * np.inf, want)
        tol = 4 * eps * (np.abs(big) + np.abs(np.where(np.isfinite(want), want, 0))) + 8 * eps * n
        ok = (g == want) | (np.isnan(g) & np.isnan(want)) | (np.abs(g - want) <= tol)
    if not np.all(ok):
        i = tuple(int(v[0]) for v in np.nonzero(~np.atleast_1d(ok)))
        cx.fail(msg + ": got %r, expected %r" % (np.atleast_1d(got)[i], np.atleast_1d(want)[i]), index=list(i))


def run_case(case, cx):
    import tensorflow as tf
    import sys
    import zhusuan.utils
    utils = sys.modules["zhusuan.utils"]      # (the package attribute of that name is another module)
    import warnings
    from hmcrun import session
    k = case["kind"]
    if k == "merge":
        return merge(cx)
    fn = getattr(utils, case["fn"])
    mean = case["fn"] == "log_mean_exp"
    if k == "lse":
        dt, sh = case["dt"], case["shape"]
        alpha = (ALPHA if case["alpha"] == "big" else SMALL)[dt]
        n = int(np.prod(sh))
        allx = np.array(list(itertools.product(alpha, repeat=n)), dt).reshape([-1] + sh)
        # all tensors are evaluated in one run as a leading dimension, and a fraction of them one by one
        for known in ("static", "rank", "unknown"):
            with tf.Graph().as_default():
                ph1 = tf.placeholder(dt, {"static": sh, "rank": [None] * len(sh), "unknown": None}[known])
                phn = tf.placeholder(dt, {"static": [None] + sh, "rank": [None] * (len(sh) + 1), "unknown": None}[known])
                sess = session(tf)
                for ax in axes_of(len(sh)):
                    for kd in (False, True):
                        lead = list(range(1, len(sh) + 1)) if ax is None else [a % len(sh) + 1 for a in (ax if isinstance(ax, (list, tuple)) else [ax])]
                        if isinstance(ax, int):
                            lead = lead[0] if ax >= 0 else ax
                        tn = fn(phn, lead, kd)
                        got = sess.run(tn, {phn: allx})
                        want, big = ref(allx, lead, kd, mean)
                        msg = "%s of %s %s, axis %r, keepdims %r (%s shape)" % (case["fn"], dt, sh, ax, kd, known)
                        try:
                            compare(cx, got, want, big, dt, msg, n)
                        except Exception as e:
                            i = getattr(e, "data", {}).get("index", [0])[0]
                            cx.fail(str(e) + " for %r" % (allx[i].tolist() if i < len(allx) else None,))
                        cx.check(tn.get_shape().is_compatible_with(got.shape), msg + ": static shape")
                        t1 = fn(ph1, axis=ax, keepdims=kd)
                        for i in range(0, len(allx), max(1, len(allx) // (23 if known == "static" else 5))):
                            want1, big1 = ref(allx[i], ax, kd, mean)
                            compare(cx, sess.run(t1, {ph1: allx[i]}), want1, big1, dt, msg + " for %r" % allx[i].tolist(), n)
                        cx.step(len(allx))
                        cx.trace()
                        cx.state(case["fn"], dt, tuple(sh), repr(ax), kd, known)
    elif k == "big":
        # long vectors: the mean of many equal entries, one large among many small, empty sums
        dt = case["dt"]
        with tf.Graph().as_default():
            ph = tf.placeholder(dt, [None])
            t = fn(ph, 0)
            sess = session(tf)
            for n in (1, 2, 1000) + (() if dt == "float16" else (20000,)):
                for a in SMALL[dt]:
                    for b in SMALL[dt]:
                        for pos in (0, n - 1):
                            x = np.full([n], a, dt)
                            x[pos] = b
                            want, big = ref(x, 0, False, mean)
                            got = sess.run(t, {ph: x})
                            compare(cx, got, want, big + (40 if dt == "float16" else 10), dt, "%s of %d entries %r and one %r" % (case["fn"], n, a, b), min(n, 200))
                            cx.step()
                cx.state("big", case["fn"], dt, n)
                cx.trace()
            if not mean:
                got = sess.run(t, {ph: np.zeros([0], dt)})
                cx.check(np.isneginf(got), "log_sum_exp of nothing is %r" % (got,))
    elif k == "grad":
        # the gradient is the softmax
        dt = case["dt"]
        for n in (1, 2, 3):
            vals = [-1e4, -30., -1., 0., 0.5, 60., 3e4]
            for shape, ax in (((-1, n), 1), ((n, -1), 0), ((-1, n), -1)):
                allx = np.array(list(itertools.product(vals, repeat=n)), dt)
                x = allx if shape[0] == -1 else np.ascontiguousarray(allx.T)
                with tf.Graph().as_default():
                    ph = tf.placeholder(dt, [None, None])
                    for kd in (False, True):
                        g = tf.gradients(fn(ph, ax, kd), ph)[0]
                        cx.check(g is not None, "no gradient")
                        got = session(tf).run(g, {ph: x})
                        e = x.astype(np.longdouble)
                        e = np.exp(e - e.max(ax, keepdims=True))
                        cx.close(got, (e / e.sum(ax, keepdims=True)).astype(np.float64), "gradient", 1e-4, 1e-6)
                        cx.step(len(allx))
                        cx.state("grad", case["fn"], dt, n, shape, kd)
    elif k == "forms":
        with tf.Graph().as_default():
            sess = session(tf)
            x = np.array([[[0.3, -1., 2.], [800., 799., -5.]], [[1., 2., 3.], [-900., -901., -902.]]], np.float32)
            ref0 = lambda ax, kd: ref(x, ax, kd, mean)
            v = tf.Variable(x)
            sess.run(tf.global_variables_initializer())
            for form in (x, x.tolist(), tf.constant(x), v, [tf.constant(x[0]), tf.constant(x[1])]):
                todo = []
                for ax in axes_of(3):
                    for kd in (False, True):
                        want, big = ref0(ax, kd)
                        for call in (lambda: fn(form, ax, kd), lambda: fn(form, axis=ax, keepdims=kd), lambda: fn(x=form, keepdims=kd, axis=ax)):
                            todo.append((call(), want, big, "%s, axis %r, keepdims %r" % (case["fn"], ax, kd)))
                        if not kd:
                            todo.append((fn(form, ax), want, big, "%s default keepdims" % case["fn"]))
                    cx.state("forms", case["fn"], type(form).__name__, repr(ax))
                for v, (_, want, big, msg) in zip(sess.run([t[0] for t in todo]), todo):
                    compare(cx, np.asarray(v), want, big, "float32", msg, 12)
                    cx.step()
            want, big = ref0(None, False)
            compare(cx, sess.run(fn(x)), want, big, "float32", "default axis", 12)
            # a scalar
            for s in ALPHA["float32"]:
                want, big = ref(np.float32(s), None, False, mean)
                compare(cx, sess.run(fn(tf.constant(s))), want, big, "float32", "%s of the scalar %r" % (case["fn"], s), 1)
                cx.step()
            import zhusuan as zs
            if mean:
                cx.check(zs.log_mean_exp is fn or callable(zs.log_mean_exp), "not exported")
            cx.trace()


def merge(cx):
    from zhusuan.utils import merge_dicts
    keys = ["a", "b", 3]
    objs = [object(), [1], None]
    ds = []
    for present in itertools.product((None, 0, 1, 2), repeat=len(keys)):
        ds.append({k: objs[p] for k, p in zip(keys, present) if p is not None})
    small = [d for d in ds if len(d) <= 1] + [ds[-1], ds[27]]
    for r, pool in ((0, ds), (1, ds), (2, ds), (3, small), (4, small[:7])):
        for t in itertools.product(pool, repeat=r):
            copies = [dict(d) for d in t]
            got = merge_dicts(*t)
            want = {}
            for d in copies:
                for k, v in d.items():
                    want[k] = v
            cx.check(type(got) is dict, "not a dict")
            cx.check(set(got) == set(want) and all(got[k] is want[k] for k in want), "merged %r to %r" % (copies, got))
            cx.check(all(a == b and list(a) == list(b) for a, b in zip(t, copies)), "an argument was changed")
            cx.check(all(got is not d for d in t), "the result is one of the arguments")
            cx.step()
    cx.state("merge")
    cx.trace()
