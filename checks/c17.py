"""C17: flows on grids of parameters and points: returned log density against the Jacobian of the returned transformation."""
import itertools

import numpy as np

TECHNIQUE = ("exhaustive enumeration of parameter grids x point grids x numbers of flows x shapes on the real code; oracle: determinant of "
             "the Jacobian of the returned map (automatic differentiation), injectivity and order on the grid, point-wise independence")
LEVEL_NOTE = "bounded: parameter and point grids, up to 4 flows, up to 4 dimensions; float32 tolerance"
RULE = "a case is a flow x dimension x number of flows x shape; all parameter assignments of the grid are explored"
ASSUMPTIONS = ["tf.gradients differentiates correctly", "w = 0 exactly is excluded (the planar parameterisation divides by w'w)"]
BOUNDS = {"quick": "planar: d 1-3, 0-3 flows, all 2-5 valued parameter assignments (up to 729; with more parameters, all within two entries of a base) x up to 64 points; IAF: d 1-4, 0-4 flows, "
                   "both updates, linear and nonlinear networks, and gates over 8 magnitudes per coordinate; all shape pairs up to rank 3 over {1,2,3} static and dynamic",
          "thorough": "up to 4096 parameter assignments per case"}


def cases(tier):
    lim = 4096 if tier == "thorough" else 729
    out = []
    for d in (1, 2, 3):
        for n in (0, 1, 2, 3):
            out.append({"kind": "planar", "d": d, "n": n, "lim": lim})
    out.append({"kind": "planarbig", "lim": lim})
    for d in (1, 2, 3, 4):
        for n in (0, 1, 2, 3, 4):
            for up in ("normal", "gru"):
                for nn in ("linear", "custom"):
                    out.append({"kind": "iaf", "d": d, "n": n, "up": up, "nn": nn, "lim": min(lim, 243)})
    for d in (1, 2, 3):
        for n in (1, 2, 3):
            for up in ("normal", "gru"):
                out.append({"kind": "gate", "d": d, "n": n, "up": up})
    for d in (1, 2, 3, 4):
        out.append({"kind": "ar", "d": d, "lim": min(lim, 729)})
    for flow in ("planar", "iaf", "iafgru"):
        for shape in ([2, 2], [1, 3], [3, 1, 2], [2, 2, 1, 2], [0, 2], [5, 2]):
            for known in ("full", "rank", "last"):
                out.append({"kind": "shape", "flow": flow, "shape": shape, "known": known})
        for dyn in (False, True):
            out.append({"kind": "errors", "flow": flow, "dyn": dyn})
    return out


def weight(c):
    return 6 if c["kind"] in ("planar", "planarbig", "ar") else 3 if c["kind"] == "iaf" else 4 if c["kind"] == "errors" else 1


GRID = {1: [-8., -1., -0.2, 0., 0.5, 3.], 2: [-3., -0.4, 0.1, 1.2], 3: [-1.5, 0.3, 2.], 4: [-0.8, 1.1]}


def assignments(shapes, lim, scale=1.0):
    """all assignments of an alphabet to all entries, the alphabet chosen so that there are at most lim"""
    if scale != 1.0:
        return [[np.asarray(v * scale, np.float32) for v in a] for a in assignments(shapes, lim)]
    n = sum(int(np.prod(s, dtype=int)) for s in shapes)
    if n == 0:
        return [[]]
    for alpha in ([-2.5, -0.7, 0.1, 0.9, 3.], [-2.5, -0.7, 0.9, 2.], [-1.3, 0.4, 2.1], [-0.9, 1.4]):
        if len(alpha) ** n <= lim:
            return [split(v, shapes) for v in itertools.product(alpha, repeat=n)]
    # too many entries: all assignments that differ from a base assignment in at most two entries
    base = [(-0.6, 0.9, 0.35)[i % 3] for i in range(n)]
    out = []
    for alt in (1.5, -1.2):
        for k in ((0, 1, 2) if n * (n - 1) // 2 <= lim else (0, 1)):
            for idx in itertools.combinations(range(n), k):
                v = list(base)
                for i in idx:
                    v[i] = alt
                out.append(split(v, shapes))
    return out


def split(v, shapes):
    out, i = [], 0
    for s in shapes:
        n = int(np.prod(s, dtype=int))
        out.append(np.asarray(v[i:i + n], np.float32).reshape(s))
        i += n
    return out


def custom_nn(tf):
    """a nonlinear autoregressive network: m, s of coordinate j depend on coordinates before j (and on the flow's number)"""
    def f(name, id, z, hidden):
        d = int(z.get_shape()[-1])
        c = tf.cumsum(tf.tanh(z), axis=-1, exclusive=True)
        m = tf.sin(c + 0.3 * (id + 1)) * 0.8
        s = 0.5 + tf.square(tf.cos(c * 1.3 - id))
        if hidden is not None:
            m = m + 0.2 * hidden
        return m, s
    return f


class Flow(object):
    def __init__(self, tf, case, x, lp):
        from zhusuan import transform as tr
        k = case["kind"] if case["kind"] not in ("shape", "errors") else case["flow"]
        if k.startswith("planar"):
            self.z, self.l = tr.planar_normalizing_flow(x, lp, case.get("n", 1))
        else:
            nn = tr.linear_ar if case.get("nn", "linear") == "linear" else custom_nn(tf)
            self.z, self.l = tr.inv_autoregressive_flow(x, case.get("hidden"), lp, nn, case.get("n", 1),
                                                        update=case.get("up", "gru" if k == "iafgru" else "normal"))
        self.vars = tf.global_variables()
        self.ph = [tf.placeholder(tf.float32, v.get_shape()) for v in self.vars]
        self.set = tf.group(*[v.assign(p) for v, p in zip(self.vars, self.ph)]) if self.vars else tf.no_op()


def jac(tf, z, x, d):
    """[P, d, d] when points are independent"""
    rows = []
    for i in range(d):
        g = tf.gradients(z[..., i], x)[0]
        rows.append(g if g is not None else tf.zeros_like(x))
    return tf.stack(rows, axis=-2)


def check_points(cx, x, z, l, l0, J, tag, size=1.0):
    d = x.shape[-1]
    cx.check(z.shape == x.shape and l.shape == x.shape[:-1], "%s: shapes %r, %r" % (tag, z.shape, l.shape))
    cx.check(np.all(np.isfinite(z)), tag + ": non-finite sample", z=z)
    det = np.linalg.det(J.astype(np.float64)) if len(x) else np.zeros(0)
    mag = np.prod(np.maximum(np.abs(J).max(-1), 1.0), axis=-1) if len(x) else np.zeros(0)
    with np.errstate(all="ignore"):
        got = np.exp(-(l.astype(np.float64) - l0))
    cx.check(not np.any(np.isnan(got)), tag + ": log density is not a number", l=l, x=x)
    err = np.abs(got - np.abs(det))
    tol = 3e-4 * np.abs(det) + 3e-6 * mag * size
    bad = np.nonzero(err > tol)[0]
    if len(bad):
        i = bad[0]
        cx.fail("%s: the density falls by a factor %r, the Jacobian determinant is %r, at %r" % (tag, got[i], det[i], x[i].tolist()))
    cx.step(len(x))


def run_case(case, cx):
    import tensorflow as tf
    from hmcrun import session
    with tf.Graph().as_default():
        k = case["kind"]
        if k == "errors":
            return errors(tf, case, cx)
        if k == "shape":
            return shapes(tf, case, cx)
        if k == "ar":
            return ar(tf, case, cx)
        if k == "gate":
            return gate(tf, case, cx)
        d = case.get("d", 1)
        pts = np.array(list(itertools.product(GRID[d], repeat=d)), np.float32)
        x = tf.constant(pts)
        l0 = (0.3 * np.arange(len(pts)) - 2).astype(np.float32)
        if k == "iaf" and case["nn"] == "custom":
            case = dict(case, hidden=np.cos(pts) if case["n"] % 2 else None)
        if k == "planarbig":
            case = dict(case, n=1)
        F = Flow(tf, case, x, tf.constant(l0))
        J = jac(tf, F.z, x, d)
        sess = session(tf)
        sess.run(tf.global_variables_initializer())
        if k == "planarbig":
            sets = [[np.full(p.get_shape().as_list(), v, np.float32) for p, v in zip(F.ph, t)] for t in
                    itertools.product([-2., 0., 1.], [-100., -30., -17.3, -8., -1., .01, 1., 30., 100.],
                                      [-100., -30., -3.3, -1., -.01, .01, 1., 3.3, 30., 100.])]
        else:
            sets = [None] + assignments([p.get_shape().as_list() for p in F.ph], case["lim"], 1.0 if k == "planar" else 0.3 if case["n"] < 4 else 0.15)
        for a in sets:
            if a is not None:
                sess.run(F.set, dict(zip(F.ph, a)))
            z, l, j = sess.run([F.z, F.l, J])
            tag = "parameters %r" % (None if a is None else [v.ravel().tolist() for v in a],)
            check_points(cx, pts, z, l, l0.astype(np.float64), j, tag, 100. if k == "planarbig" else 1.)
            if d == 1 and k != "planarbig":
                cx.check(np.all(np.diff(z[:, 0]) > -1e-5) or np.all(np.diff(z[:, 0]) < 1e-5), tag + ": the map is not monotone", z=z)
            if k.startswith("planar"):
                cx.check(np.all(np.linalg.det(j.astype(np.float64)) > -1e-3 * np.maximum(1, np.abs(j).max()) ** d),
                         tag + ": the map is not invertible")
            cx.trace()
            cx.state(k, d, case.get("n"), case.get("up"), case.get("nn"), tag)
        if case.get("n") == 0:
            cx.check(np.array_equal(z, pts) and np.array_equal(l, l0), "no flow is not the identity")


def gate(tf, case, cx):
    """all assignments of small, moderate and large gates to the coordinates: the log density compared as a logarithm"""
    from zhusuan import transform as tr
    from hmcrun import session
    d, n, up = case["d"], case["n"], case["up"]
    vals = {"gru": [-30., -12., -6., -1., 0., 2., 9., 25.], "normal": [1e-9, 1e-5, 0.02, 0.7, 1., 3., 1e4, 1e8]}[up]
    pts = np.array(list(itertools.product(GRID[d], repeat=d)), np.float32)
    x = tf.constant(pts)
    l0 = (0.3 * np.arange(len(pts)) - 2).astype(np.float32)
    g = tf.placeholder(tf.float32, [d])
    z, l = tr.inv_autoregressive_flow(x, None, tf.constant(l0), lambda name, id, z, hidden: (0.3 * tf.ones_like(z), tf.ones_like(z) * g), n,
                                      update=up)
    J = jac(tf, z, x, d)
    sess = session(tf)
    for v in itertools.product(vals, repeat=d):
        if n > 1 and up == "normal" and abs(np.sum(np.log10(v))) * n > 25 or up == "gru" and n * max(-min(v), 0) > 60:
            continue
        zz, ll, jj = sess.run([z, l, J], {g: np.array(v, np.float32)})
        with np.errstate(all="ignore"):
            want = -np.log(np.abs(np.linalg.det(jj.astype(np.float64))))
        got = ll.astype(np.float64) - l0
        if not np.all(np.isfinite(want)):
            continue
        bad = np.nonzero(~(np.abs(got - want) <= 1e-3 * (1 + np.abs(want) * 0.01)))[0]
        if len(bad):
            i = bad[0]
            cx.fail("gates %r: the log density changes by %r, minus the log Jacobian determinant is %r, at %r" % (
                v, got[i], want[i], pts[i].tolist()))
        cx.step(len(pts))
        cx.trace()
        cx.state("gate", d, n, up, v)


def ar(tf, case, cx):
    """linear_ar: the outputs of a coordinate depend on earlier coordinates only, and s is positive"""
    from zhusuan.transform import linear_ar
    from hmcrun import session
    d = case["d"]
    pts = np.array(list(itertools.product(GRID[d], repeat=d)), np.float32)
    x = tf.constant(pts)
    m, s = linear_ar("ar", 0, x)
    vs = tf.global_variables()
    ph = [tf.placeholder(tf.float32, v.get_shape()) for v in vs]
    st = tf.group(*[v.assign(p) for v, p in zip(vs, ph)])
    Jm, Js = jac(tf, m, x, d), jac(tf, s, x, d)
    sess = session(tf)
    sess.run(tf.global_variables_initializer())
    dep = np.zeros((d, d), bool)
    for a in assignments([p.get_shape().as_list() for p in ph], case["lim"]):
        sess.run(st, dict(zip(ph, a)))
        mv, sv, jm, js = sess.run([m, s, Jm, Js])
        cx.check(np.all(sv > 0), "s is not positive")
        for i in range(d):
            for j in range(i, d):
                cx.check(not np.any(jm[:, i, j]) and not np.any(js[:, i, j]), "outputs for coordinate %d depend on coordinate %d" % (i, j))
        dep |= (np.abs(jm) > 0).any(0) & (np.abs(js) > 0).any(0)
        cx.step(len(pts))
        cx.trace()
        cx.state("ar", d, repr([v.ravel().tolist() for v in a]))
    cx.check(np.array_equal(dep, np.tril(np.ones((d, d), bool), -1)), "some outputs do not depend on all earlier coordinates", dep=dep)


def shapes(tf, case, cx):
    """leading shapes, unknown shapes, independence of the points"""
    from hmcrun import session
    sh = case["shape"]
    d = sh[-1]
    st = {"full": sh, "rank": [None] * (len(sh) - 1) + [d], "last": None}[case["known"]]
    x = tf.placeholder(tf.float32, st)
    if st is None:
        # the last dimension must be known; everything else may be unknown
        x.set_shape(tf.TensorShape([None] * (len(sh) - 1) + [d]))
    lp = tf.placeholder(tf.float32, sh[:-1] if case["known"] == "full" else None)
    F = Flow(tf, dict(case, n=2), x, lp)
    sess = session(tf)
    sess.run(tf.global_variables_initializer())
    for k in range(2):
        a = [np.asarray(np.random.RandomState(k + 5 * i).choice([-1.1, 0.6, 1.7], p.get_shape().as_list()), np.float32)
             for i, p in enumerate(F.ph)]
        sess.run(F.set, dict(zip(F.ph, a)))
        n = int(np.prod(sh, dtype=int))
        pts = (np.sin(np.arange(n) * 1.7) * 2).reshape(sh).astype(np.float32)
        l0 = np.cos(np.arange(n // d)).reshape(sh[:-1]).astype(np.float32)
        z, l = sess.run([F.z, F.l], {x: pts, lp: l0})
        cx.check(z.shape == tuple(sh) and l.shape == tuple(sh[:-1]), "shapes %r, %r" % (z.shape, l.shape))
        cx.check(F.z.get_shape().is_compatible_with(sh) and F.l.get_shape().is_compatible_with(sh[:-1]), "static shapes contradict")
        flat, lf = pts.reshape(-1, d), l0.reshape(-1)
        one = [1] * (len(sh) - 1) + [d]
        for i in range(len(flat)):
            # the same point among different others, at every position
            p2 = np.roll(flat, 3, axis=0) * 0.5 - 1
            l2 = np.roll(lf, 1) - 4
            p2[i], l2[i] = flat[i], lf[i]
            z2, ll2 = sess.run([F.z, F.l], {x: p2.reshape(sh), lp: l2.reshape(sh[:-1])})
            cx.close(z2.reshape(-1, d)[i], z.reshape(-1, d)[i], "a point is moved differently among other points", 1e-5, 1e-6)
            cx.close(ll2.reshape(-1)[i], l.reshape(-1)[i], "density of a point differs among other points", 1e-5, 1e-5)
            cx.step()
        cx.trace()
        cx.state("shape", repr(case), k)


def errors(tf, case, cx):
    from hmcrun import session
    sess = session(tf)
    dims = (1, 2, 3)
    pairs = []
    for r in (1, 2, 3):
        for s in itertools.product((2, 3), repeat=r):
            for q in range(0, 4):
                for t in itertools.product(dims, repeat=q):
                    pairs.append((s, t))
    for s, t in pairs:
        ok = len(s) >= 2 and tuple(s[:-1]) == tuple(t)
        with tf.Graph().as_default():
            sess = session(tf)
            if case["dyn"]:
                x = tf.placeholder(tf.float32, [None] * (len(s) - 1) + [s[-1]])
                lp = tf.placeholder(tf.float32, None)
            else:
                x, lp = tf.constant(np.zeros(s, np.float32)), tf.constant(np.zeros(t, np.float32))
            fd = {x: np.zeros(s, np.float32), lp: np.zeros(t, np.float32)}
            # (the samples alone do not use the log probabilities)
            for what in (("z", "l") if ok else ("l",)):
                try:
                    F = Flow(tf, dict(case), x, lp)
                    sess.run(tf.global_variables_initializer())
                    sess.run(getattr(F, what), fd)
                    good = True
                except (ValueError, tf.errors.InvalidArgumentError):
                    good = False
                cx.check(good == ok, "samples of shape %r with log probabilities of shape %r: %s" % (
                    s, t, "accepted" if good else "rejected"), fetched=what)
                cx.step()
        cx.state("errors", case["flow"], case["dyn"], s, t)
    for n in ("2", 1.5, None, np.float32(2)):
        with tf.Graph().as_default():
            try:
                Flow(tf, dict(case, n=n), tf.zeros([2, 2]), tf.zeros([2]))
            except ValueError:
                cx.step()
            else:
                cx.fail("n_iters = %r was accepted" % (n,))
