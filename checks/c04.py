"""C04: gradient flow through samples and densities.

Every distribution x is_reparameterized x use_path_derivative x parameter shapes x parameter assignments;
for each, every element of every parameter.  Noise is fed, so a sample is a function of the parameters and
its gradient is compared with central differences of that very function in float64.
"""
import itertools

import numpy as np

import noise
from dists import BY_NAME, SPECS

TECHNIQUE = ("exhaustive enumeration of distribution x option x parameter element; automatic gradients of the "
             "real code compared with central differences under owned noise")
LEVEL_NOTE = ("all option combinations and every single parameter element of bounded batches; parameter values from "
              "finite domains")
RULE = "a case is distribution x options x shapes x assignment of parameter values x type"
ASSUMPTIONS = ["central differences in float64 approximate derivatives to 1e-4"]
BOUNDS = {"quick": "2 to 3 shape assignments, 2 value assignments, categories 2..3",
          "thorough": "3 to 5 shape assignments, 4 value assignments, categories 2..4"}


def cases(tier):
    out = []
    for s in SPECS:
        vec = max(e for _, e, _ in s.params) > 0
        nb = len(s.batched())
        if nb == 1 or not s.broadcast:
            shp = [[(2,)] * nb, [()] * nb] + ([[(2, 2)] * nb] if tier == "thorough" else [])
        else:
            shp = [[(2,), (2,)], [(2, 1), (3,)], [(), ()]] + (
                [[(), (2,)], [(3,), ()]] if tier == "thorough" else [])
        for K in ([2, 3] + ([4] if tier == "thorough" else []) if vec else [0]):
            for rp in ([True, False] if s.reparam else [None]):
                for pd in ([False, True] if s.path else [None]):
                    for c in shp:
                        for salt in range(2 if tier == "quick" else 4):
                            for cn in ([False, True] if s.check_num and salt == 0 else [None]):
                                out.append({"dist": s.name, "K": K, "rp": rp, "pd": pd, "shapes": c,
                                            "salt": salt, "cn": cn, "ft": "float64"})
                    for ft in s.float_types[:-1]:
                        out.append({"dist": s.name, "K": K, "rp": rp, "pd": pd, "shapes": shp[0], "salt": 1,
                                    "cn": None, "ft": ft})
    return out


def weight(c):
    return 2 if c["K"] >= 3 else 1


def fdiff(f, arrs, key, h):
    """central differences of scalar f wrt every element of arrs[key]"""
    a = arrs[key]
    g = np.zeros(a.shape)
    for i in np.ndindex(*a.shape):
        step = h * max(1.0, abs(float(a[i])))
        hi, lo = dict(arrs), dict(arrs)
        hi[key], lo[key] = a.copy(), a.copy()
        hi[key][i] += step
        lo[key][i] -= step
        g[i] = (f(hi) - f(lo)) / (2 * step)
    return g


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan.distributions as D
    s = BY_NAME[case["dist"]]
    K, ft, salt = case["K"], case["ft"], case["salt"]
    exact = ft == "float64"
    bp = s.batched()
    shapes = [tuple(x) for x in case["shapes"]]
    data = {p: s.fill(p, sh, K, salt=i + salt).astype(ft) for i, (p, sh) in enumerate(zip(bp, shapes))}
    for p, _, b in s.params:
        if not b:
            data[p] = np.asarray(s.pdom(p, K)[salt % len(s.pdom(p, K))], ft)
    batch = np.broadcast_shapes(*shapes)
    kw = {}
    if case["rp"] is not None:
        kw["is_reparameterized"] = case["rp"]
    if case["pd"] is not None:
        kw["use_path_derivative"] = case["pd"]
    if case["cn"]:
        kw["check_numerics"] = True
    reparam = bool(case["rp"]) if s.reparam else False
    pathd = bool(case["pd"]) if s.path else False
    vt = tf.float64 if exact and s.discrete else tf.float32 if s.discrete else tf.as_dtype(ft)
    if s.discrete:
        if vt.name not in s.value_types:
            vt = tf.float32
        kw["dtype"] = vt
    names = list(data)
    nm = "%s %s" % (s.name, {k: case[k] for k in ("rp", "pd", "shapes", "salt", "cn", "ft", "K")})
    with tf.Graph().as_default():
        ph = {p: tf.placeholder(ft, a.shape) for p, a in data.items()}
        d = s.build(D, ph, group_ndims=0, **kw)
        cx.check(bool(d.is_reparameterized) == reparam, nm + ": is_reparameterized is %r" % d.is_reparameterized)
        cx.check(bool(d.use_path_derivative) == pathd, nm + ": use_path_derivative is %r" % d.use_path_derivative)
        given_np = s.fill_value((2,) + batch, K, salt=1 + salt).astype(vt.as_numpy_dtype)
        given = tf.placeholder(vt, given_np.shape)

        def wsum(t):
            """a generic linear functional of a tensor"""
            shape = t.get_shape().as_list()
            k = int(np.prod(shape)) if shape else 1
            w = np.cos(1.0 + 1.7 * np.arange(k)).reshape(shape)
            return tf.reduce_sum(tf.cast(t, ft) * tf.constant(w.astype(ft)))

        funcs = {"log_prob": wsum(d.log_prob(given)), "prob": wsum(d.prob(given))}
        if s.samples:
            x = d.sample(2)
            if x.get_shape().as_list() is None or None in x.get_shape().as_list():
                x.set_shape((2,) + batch + s.value_shape(K))
            x1 = d.sample()
            funcs["sample"] = wsum(x)
            funcs["sample1"] = wsum(x1)
            lpx = d.log_prob(x)
            if lpx.get_shape().is_fully_defined():
                funcs["entropy"] = wsum(lpx)
        grads = {}
        for f, t in funcs.items():
            ys = [ph[p] for p in names] + ([given] if not s.discrete else [])
            grads[f] = tf.gradients(t, ys)
        with tf.Session() as sess:
            N, other = noise.own(sess, list(funcs.values()), dict([(ph[p], data[p]) for p in names] + [(given, given_np)]))
            if other:
                cx.note("unowned random ops")
                return
            zfeed = [q.op.outputs[0] for q in N]
            z = [q.base(salt) for q in N]
            order = names + ["given"]
            phs = [ph[p] for p in names] + [given]
            calls = {f: sess.make_callable(t, feed_list=phs + zfeed) for f, t in funcs.items()}

            def ev(f):
                def g(arrs):
                    cx.step()
                    return float(calls[f](*([arrs[k] for k in order] + z)))
                return g

            arrs = dict(data)
            arrs["given"] = given_np
            present = {f: [g for g in gs if g is not None] for f, gs in grads.items()}
            gcall = sess.make_callable(present, feed_list=phs + zfeed)
            got = gcall(*([arrs[k] for k in order] + z))
            val = {f: iter(v) for f, v in got.items()}
            for f in funcs:
                for key, gt in zip(order, grads[f]):
                    gv = None if gt is None else np.asarray(next(val[f]), np.float64)
                    where = "%s: gradient of %s wrt %s" % (nm, f, key)
                    cx.state(nm, f, key)
                    cx.trace()
                    # what has to be there
                    if f.startswith("sample"):
                        if key == "given":
                            zero = True
                        else:
                            zero = not reparam
                    elif f in ("log_prob", "prob"):
                        zero = pathd and key != "given"
                    else:
                        # log_prob(sample): through the value if reparameterised, through the parameters
                        # unless path derivative
                        if key == "given":
                            continue
                        zero = pathd and not reparam
                    if zero:
                        cx.check(gv is None or not np.any(gv), where + " should not exist but is %r" % (
                            None if gv is None else gv.tolist(),))
                        continue
                    if f == "entropy":
                        if not exact:
                            continue
                        want = entropy_grad(cx, s, reparam, pathd, ev, arrs, key, sess, x, given, calls, phs, zfeed,
                                            order, z, funcs, tf, batch)
                        if want is None:
                            continue
                    elif exact:
                        want = fdiff(ev(f), arrs, key, 2e-6)
                    else:
                        cx.check(gv is not None or (s.name == "Uniform" and key == "given"), where + " is missing")
                        continue
                    if gv is None:
                        gv = np.zeros_like(want)
                    scale = max(1.0, float(np.max(np.abs(want))) if want.size else 1.0)
                    cx.close(gv, want, where, rtol=1e-4, atol=2e-5 * scale)
    cx.sample(case)


def entropy_grad(cx, s, reparam, pathd, ev, arrs, key, sess, x, given, calls, phs, zfeed, order, z, funcs, tf, batch):
    """d/dkey of sum w log p(x(params); params): value part if reparameterised + parameter part unless path."""
    xs = sess.make_callable(x, feed_list=phs + zfeed)
    f = calls["log_prob"]

    def total(vparams, pparams):
        a = dict(vparams)
        xv = xs(*([a[k] for k in order] + z))
        b = dict(pparams)
        b["given"] = xv.astype(arrs["given"].dtype)
        cx.step()
        return float(f(*([b[k] for k in order] + z)))

    if s.name.startswith(("Uniform",)):
        return None      # the density is discontinuous in the sample only at the boundary; nothing to compare
    a = arrs[key]
    g = np.zeros(a.shape)
    for i in np.ndindex(*a.shape):
        h = 2e-6 * max(1.0, abs(float(a[i])))
        hi, lo = dict(arrs), dict(arrs)
        hi[key], lo[key] = a.copy(), a.copy()
        hi[key][i] += h
        lo[key][i] -= h
        t = 0.0
        if reparam:
            t += (total(hi, arrs) - total(lo, arrs)) / (2 * h)
        if not pathd:
            t += (total(arrs, hi) - total(arrs, lo)) / (2 * h)
        g[i] = t
    return g
