"""C09: expressions on nodes and objectives against the same expressions on their tensors."""
import itertools
import operator

import numpy as np

TECHNIQUE = ("exhaustive enumeration of one- and two-operator expressions on the real classes, compared with the same "
             "expression on the underlying tensor in the same run")
LEVEL_NOTE = "complete over the operator, operand and order alphabets below; expressions of depth 1 (quick) or 2 (thorough)"
RULE = "a case is a kind of tensor-like object x group of expressions"
ASSUMPTIONS = ["the tensor's own operators are the oracle; bitwise use of & | ^ ~ on integers, and @, are not overloaded by "
               "zhusuan and not compared"]
BOUNDS = {"quick": "15 kinds of object x 3 unary, 14 binary operators x both orders x 16 kinds of operand; 14 index expressions; "
                   "two-operator expressions (x op1 y) op2 z, z op2 (y op1 x) for 4 kinds of object; 20 tensor functions; fetches and feeds; identity, truth and iteration",
          "thorough": "as quick, with two-operator expressions on all 15 kinds of object"}

KINDS = ["f32", "f32s", "f64", "f32obs", "f16obs", "i32", "i64", "i32obs", "bool", "det-op", "fold", "elbo0", "elbo", "iw", "f32spec"]
GROUPS = ["binary", "unary", "index", "functions", "session", "identity", "convert"]
BIN = [("+", operator.add), ("-", operator.sub), ("*", operator.mul), ("/", operator.truediv),
       ("//", operator.floordiv), ("%", operator.mod), ("**", operator.pow),
       ("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge)]
LOGIC = [("&", operator.and_), ("|", operator.or_), ("^", operator.xor)]


def cases(tier):
    out = [{"kind": k, "group": g} for k in KINDS for g in GROUPS]
    out += [{"kind": k, "group": "nested"} for k in (KINDS if tier == "thorough" else ["f32", "i32", "bool", "iw"])]
    return out


def weight(c):
    return {"binary": 6, "nested": 30}.get(c["group"], 1)


def objects(tf, zs, kind):
    """(tensor-like object, its value's numpy type or None)"""
    bn = zs.BayesianNet()
    mean = np.array([[0.5, -1.5, 2.], [1., -0.25, 3.]])
    if kind == "f32":
        return bn.normal("x", tf.constant(mean, tf.float32), std=1.), "float32"
    if kind == "f32s":
        return bn.normal("x", 0.5, std=1.), "float32"
    if kind == "f64":
        return bn.normal("x", tf.constant(mean, tf.float64), std=tf.constant(1., tf.float64), n_samples=2), "float64"
    if kind in ("f32obs", "f16obs"):
        t = {"f32obs": tf.float32, "f16obs": tf.float16}[kind]
        b = zs.BayesianNet({"x": tf.constant(mean, t)})
        return b.normal("x", tf.constant(0., t), std=tf.constant(1., t)), t.name
    if kind == "f32spec":
        b = zs.BayesianNet({"x": tf.constant([[np.nan, 1., np.inf], [-np.inf, 0., -0.]], tf.float32)})
        return b.normal("x", 0., std=1.), "float32"
    if kind == "i32":
        return bn.poisson("x", tf.constant([[1., 3., 8.], [2., 2., 5.]])), "int32"
    if kind == "i64":
        return bn.bernoulli("x", tf.constant([[1., 0., -1.], [2., 0., 0.]]), dtype=tf.int64), "int64"
    if kind == "i32obs":
        b = zs.MetaBayesianNet(lambda: mk(zs, tf)).observe(x=np.array([[3, -2, 1], [7, 1, -4]], np.int32))
        return b["x"], "int32"
    if kind == "bool":
        return zs.Implicit("x", tf.constant([[True, False, True], [False, False, True]]), value_shape=[]), "bool"
    if kind == "det-op":
        # a node built on another node
        a = bn.normal("a", 0., std=1.)
        return bn.normal("x", a + tf.constant(mean, tf.float32), std=a * a + 1.), "float32"
    if kind == "fold":
        return bn.fold_normal("x", tf.constant(mean, tf.float32), std=1., n_samples=1), "float32"

    def model():
        m = zs.BayesianNet()
        z = m.normal("z", tf.zeros([3]), std=1., n_samples=2)
        m.normal("y", z, std=0.5)
        return m
    v = zs.BayesianNet()
    v.normal("z", tf.constant([0.1, -0.2, 0.3]), std=0.7, n_samples=2)
    obs = {"y": tf.constant([1., 0., -1.])}
    meta = zs.MetaBayesianNet(model)
    if kind == "elbo0":
        return zs.variational.elbo(meta, obs, variational=v, axis=0), "float32"
    if kind == "elbo":
        return zs.variational.elbo(meta, obs, variational=v), "float32"
    return zs.variational.importance_weighted_objective(meta, obs, variational=v, axis=0), "float32"


def mk(zs, tf):
    b = zs.BayesianNet()
    b.poisson("x", tf.constant([[1., 1., 1.], [1., 1., 1.]]))
    return b


def operands(tf, zs, x, dt):
    """other operands: name, value used with the object, value used with its tensor"""
    t = x.tensor
    shape = [d if d is not None else 1 for d in t.get_shape().as_list()]
    rng = np.arange(1, 1 + int(np.prod(shape) if shape else 1)).reshape(shape)
    out = []
    if dt == "bool":
        vals = [("True", True), ("False", False), ("np.bool_", np.bool_(True)), ("array", (rng % 2).astype(bool)),
                ("row", np.array([True, True, False])), ("tensor", tf.constant((rng % 3 == 1))),
                ("list", [True, False, False]), ("float array", np.array([1., 2., 3.], np.float32))]
    else:
        np_dt = np.dtype(dt)
        arr = ((rng % 5 - 2.5) if dt.startswith("f") else rng % 3 + 2).astype(np_dt)
        vals = [("2", 2), ("-3", -3), ("1.5", 1.5), ("np scalar", np_dt.type(3)), ("array", arr), ("row", arr.reshape(-1)[:1]),
                ("tensor", tf.constant(arr)), ("scalar tensor", tf.constant(np_dt.type(2))), ("list", arr.tolist()),
                ("variable", tf.Variable(arr)), ("other type", np.array([1, 2, 3], "float64" if dt != "float64" else "float32")),
                ("bool", True), ("None", None)]
        if dt.startswith("f"):
            vals += [("nan", float("nan")), ("special", np.array([np.nan, np.inf, -0.], np_dt)), ("-inf", -np.inf)]
    out = [(n, v, v) for n, v in vals]
    if dt not in ("bool",):
        b = zs.BayesianNet({"o": tf.constant(arr)})
        if dt.startswith("f"):
            o = b.normal("o", tf.constant(np_dt.type(0)), std=tf.constant(np_dt.type(1)))
        else:
            o = b.poisson("o", tf.constant(1.), dtype=getattr(tf, dt))
        out.append(("node", o, o.tensor))
    else:
        o = zs.Implicit("o", tf.constant((rng % 2).astype(bool)), value_shape=[])
        out.append(("node", o, o.tensor))
    out.append(("itself", x, t))
    return out


def same(a, b):
    return np.array_equal(a, b, equal_nan=np.asarray(a).dtype.kind == "f")


ERR = (TypeError, ValueError)


class Pairs(object):
    """collects (what, from object, from tensor) and evaluates all of them in one run"""

    def __init__(self, cx, tf, kind):
        self.cx, self.tf, self.kind = cx, tf, kind
        self.items = []

    def add(self, what, f, g):
        """f on the object, g on the tensor"""
        tf, cx = self.tf, self.cx
        cx.step()
        try:
            want = g()
            err = None
        except ERR + (NotImplementedError, tf.errors.OpError, AttributeError) as e:
            err = e
        try:
            got = f()
            gerr = None
        except ERR + (NotImplementedError, tf.errors.OpError, AttributeError) as e:
            gerr = e
        what = "%s: %s" % (self.kind, what)
        if err is not None:
            cx.check(gerr is not None, "%s gives %r, for the tensor it is an error (%s)" % (
                what, None if gerr else got, str(err)[:100]))
            return None
        cx.check(gerr is None, "%s is an error (%s: %s)" % (what, type(gerr).__name__, str(gerr)[:200]))
        cx.check(isinstance(got, tf.Tensor), "%s gives %r, not a Tensor" % (what, type(got)))
        cx.check(got.dtype == want.dtype, "%s has type %r instead of %r" % (what, got.dtype, want.dtype))
        cx.check(str(got.get_shape()) == str(want.get_shape()), "%s has static shape %s instead of %s" % (
            what, got.get_shape(), want.get_shape()))
        self.items.append((what, got, want))
        return got, want

    def run(self):
        tf, cx = self.tf, self.cx
        conf = tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
        conf.graph_options.rewrite_options.disable_meta_optimizer = True
        with tf.Session(config=conf) as sess:
            sess.run(tf.global_variables_initializer())
            feed = {}
            if self.x.tensor.dtype.is_integer:
                # fixed values: division by zero and powers are defined
                v = sess.run(self.x.tensor)
                feed = {self.x.tensor: (np.arange(v.size) % 4 + 1).reshape(v.shape).astype(v.dtype)}
            res = sess.run([[g, w] for _, g, w in self.items], feed)
        for (what, _, _), (g, w) in zip(self.items, res):
            ok = g.shape == w.shape and g.dtype == w.dtype and np.array_equal(g, w, equal_nan=True) \
                and np.array_equal(np.signbit(g) & ~np.isnan(g), np.signbit(w) & ~np.isnan(w)) if g.dtype.kind == "f" else np.array_equal(g, w)
            cx.check(ok, "%s gives %r instead of %r" % (what, g.tolist(), w.tolist()))
            cx.trace()
            cx.state(what)


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan as zs
    with tf.Graph().as_default():
        x, dt = objects(tf, zs, case["kind"])
        p = Pairs(cx, tf, case["kind"])
        p.x = x
        globals()["g_" + case["group"]](cx, tf, zs, x, dt, p)
        if p.items:
            cx.sample({"kind": case["kind"], "expression": p.items[-1][0]})
            p.run()


def ops_for(dt):
    return LOGIC if dt == "bool" else BIN


def g_binary(cx, tf, zs, x, dt, p):
    t = x.tensor
    for (on, f), (vn, v, w) in itertools.product(ops_for(dt), operands(tf, zs, x, dt)):
        if on == "**" and vn == "-3" and dt.startswith("i"):
            continue
        p.add("x %s %s" % (on, vn), lambda: f(x, v), lambda: f(t, w))
        p.add("%s %s x" % (vn, on), lambda: f(v, x), lambda: f(w, t))
    if dt.startswith("f"):
        c = tf.constant(2.5, t.dtype)
        p.add("x.__div__(2.5)", lambda: x.__div__(c), lambda: t / c)
        p.add("x.__rdiv__(2.5)", lambda: x.__rdiv__(c), lambda: c / t)


def g_nested(cx, tf, zs, x, dt, p):
    t = x.tensor
    ops = LOGIC if dt == "bool" else BIN[:3] if dt.startswith("i") else BIN[:7]     # integers: no division by zero
    other = [o for o in operands(tf, zs, x, dt) if o[0] in ("2", "array", "node", "itself", "True", "tensor")]
    for (o1, f), (o2, g) in itertools.product(ops, ops):
        for (n1, a1, b1), (n2, a2, b2) in itertools.product(other, other):
            p.add("(x %s %s) %s %s" % (o1, n1, o2, n2), lambda: g(f(x, a1), a2), lambda: g(f(t, b1), b2))
            p.add("%s %s (%s %s x)" % (n2, o2, n1, o1), lambda: g(a2, f(a1, x)), lambda: g(b2, f(b1, t)))


def g_unary(cx, tf, zs, x, dt, p):
    t = x.tensor
    if dt == "bool":
        p.add("~x", lambda: ~x, lambda: ~t)
        p.add("~~x", lambda: ~(~x), lambda: ~(~t))
    p.add("-x", lambda: -x, lambda: -t)
    p.add("abs(x)", lambda: abs(x), lambda: abs(t))


def g_index(cx, tf, zs, x, dt, p):
    t = x.tensor
    i = tf.constant(0)
    # the object and its tensor are indexed by the same expression
    for name, f in [("[0]", lambda a: a[0]), ("[-1]", lambda a: a[-1]), ("[...]", lambda a: a[...]), ("[:1]", lambda a: a[:1]),
                    ("[::-1]", lambda a: a[::-1]), ("[0, 1]", lambda a: a[0, 1]), ("[..., 1]", lambda a: a[..., 1]),
                    ("[:, 1:]", lambda a: a[:, 1:]), ("[None]", lambda a: a[None]), ("[tf.newaxis, 0]", lambda a: a[tf.newaxis, 0]),
                    ("[tensor]", lambda a: a[i]), ("[:, ::2]", lambda a: a[:, ::2]), ("[1:, :2]", lambda a: a[1:, :2]),
                    ("[i:i+1]", lambda a: a[i:i + 1]), ("['a']", lambda a: a["a"])]:
        p.add("x" + name, lambda: f(x), lambda: f(t))


def g_functions(cx, tf, zs, x, dt, p):
    t = x.tensor
    fl = dt.startswith("f")
    fs = [("identity", tf.identity), ("stack", lambda a: tf.stack([a, a])), ("concat", lambda a: tf.concat([a, a], 0)),
          ("shape", tf.shape), ("rank", tf.rank), ("size", tf.size), ("cast f64", lambda a: tf.cast(a, tf.float64)),
          ("cast i32", lambda a: tf.cast(a, tf.int32)), ("reshape", lambda a: tf.reshape(a, [-1])),
          ("expand", lambda a: tf.expand_dims(a, 0)), ("transpose", tf.transpose), ("tile", lambda a: tf.tile(tf.reshape(a, [-1]), [2])),
          ("zeros_like", tf.zeros_like), ("where", lambda a: tf.where(tf.equal(a, a), a, a)), ("equal", lambda a: tf.equal(a, a)),
          ("gather", lambda a: tf.gather(a, [0])), ("stop_gradient", tf.stop_gradient)]
    if dt != "bool":
        fs += [("reduce_sum", tf.reduce_sum), ("reduce_max", lambda a: tf.reduce_max(a, -1)), ("add_n", lambda a: tf.add_n([a, a])),
               ("square", tf.square), ("maximum", lambda a: tf.maximum(a, a))]
    if fl:
        fs += [("exp", tf.exp), ("softplus", tf.nn.softplus), ("matmul", lambda a: tf.matmul(a, a, transpose_b=True)),
               ("log_mean_exp", lambda a: zs.log_mean_exp(a)),
               ("normal.log_prob", lambda a: zs.distributions.Normal(tf.zeros([], dt), std=tf.ones([], dt)).log_prob(a)),
               ("new node", lambda a: zs.BayesianNet({"q": a}).normal("q", a, std=tf.ones([], dt)).cond_log_p)]
    for n, f in fs:
        p.add("tf.%s(x)" % n, lambda: f(x), lambda: f(t))


def g_convert(cx, tf, zs, x, dt, p):
    t = x.tensor
    for d in ("float16", "float32", "float64", "int32", "int64", "bool"):
        p.add("convert_to_tensor(x, %s)" % d, lambda: tf.convert_to_tensor(x, dtype=getattr(tf, d)),
              lambda: tf.convert_to_tensor(t, dtype=getattr(tf, d)))
        p.add("convert_to_tensor(x, preferred %s)" % d,
              lambda: tf.convert_to_tensor(x, preferred_dtype=getattr(tf, d)), lambda: tf.convert_to_tensor(t))
    cx.check(tf.convert_to_tensor(x) is t, "converting to a tensor does not give the object's tensor")
    cx.check(x.tensor is t, "the tensor of the object changes")
    if hasattr(x, "dtype"):
        cx.check(x.dtype == t.dtype, "type of the object")
        cx.check(str(x.shape) == str(t.shape) and str(x.get_shape()) == str(t.get_shape()), "shape of the object")


def g_session(cx, tf, zs, x, dt, p):
    t = x.tensor
    u = tf.reduce_sum(tf.cast(t, tf.float32))
    with tf.Session() as sess:
        sess.run(tf.global_variables_initializer())
        for what, f in [("run([x, t])", lambda: sess.run([x, t])), ("run((x, t))", lambda: sess.run((x, t))),
                        ("run({...})", lambda: [v for _, v in sorted(sess.run({"a": x, "b": t}).items())]),
                        ("run([[x], t])", lambda: [sess.run([[x], t])[0][0]] * 2),
                        ("make_callable", lambda: sess.make_callable([x, t])())]:
            a, b = f()
            cx.check(a.dtype == b.dtype and same(a, b), "%s differs: %r and %r" % (what, a, b))
            cx.step()
            cx.trace()
        a = sess.run(x)
        cx.check(isinstance(a, (np.ndarray, np.generic)), "run(x) gives %r" % type(a))
        v = (np.ones_like(a) if dt == "bool" else a + np.asarray(1, a.dtype))
        i = tf.identity(x)
        r = sess.run([i, u], {x: v})
        cx.check(same(r[0], v), "feeding the object has no effect on it")
        cx.close(r[1], np.sum(v.astype(np.float32)), "feeding the object has no effect on what depends on it", rtol=1e-3)
        r = sess.run([i, u], {t: v})
        cx.check(same(r[0], v), "feeding the tensor has no effect on the object")
        try:
            h = sess.partial_run_setup([u, i], [x])
            r = sess.partial_run(h, u, {x: v})
            cx.close(r, np.sum(v.astype(np.float32)), "partial run with the object fed", rtol=1e-3)
        except (tf.errors.UnimplementedError, RuntimeError, NotImplementedError):
            pass
        cx.step(3)
        cx.state("session", p.kind)


def g_identity(cx, tf, zs, x, dt, p):
    y, _ = objects(tf, zs, p.kind)
    t = x.tensor
    import copy
    c = copy.copy(x)            # another object that stands for the same tensor, under the same name
    cx.check(c.tensor is t, "copies have another tensor")
    others = [("copy", c)]
    if hasattr(x, "dist"):
        n = zs.BayesianNet({x.name: t})
        others += [("node observed as x", zs.BayesianNet({x.name: t}).stochastic(x.name, x.dist)),
                   ("another node observed as x", zs.StochasticTensor(n, x.name, x.dist, observation=t))]
    for nm, o in others:
        for what, got, want in [("x == " + nm, x == o, False), (nm + " == x", o == x, False), ("x != " + nm, x != o, True),
                                ("x in [%s]" % nm, x in [o], False), ("len({x, %s})" % nm, len({x, o}), 2)]:
            cx.step()
            cx.check(isinstance(got, (bool, int)) and got == want, "%s: %s is %r" % (p.kind, what, got))
    for what, got, want in [
            ("x == x", x == x, True), ("x == y", x == y, False), ("x == tensor", x == t, False), ("x != x", x != x, False),
            ("x != y", x != y, True), ("x == 1", x == 1, False), ("x in [y, x]", x in [y, x], True), ("x in [y]", x in [y], False),
            ("x in {x}", x in {x}, True), ("y in {x: 1}", y in {x: 1}, False), ("len({x, y, x})", len({x, y, x}), 2),
            ("hash", hash(x) == hash(x), True), ("dict", {x: 1, y: 2}[x], 1), ("index", [y, x].index(x), 1)]:
        cx.step()
        cx.check(isinstance(got, (bool, int)) and got == want, "%s: %s is %r" % (p.kind, what, got))

    def unpack():
        a, b = x
    for what, f in [("bool(x)", lambda: bool(x)), ("not x", lambda: not x), ("x and 1", lambda: x and 1), ("1 if x else 2", lambda: 1 if x else 2),
                    ("iter(x)", lambda: iter(x)), ("list(x)", lambda: list(x)), ("for", lambda: [i for i in x]), ("unpacking", unpack),
                    ("bool(y)", lambda: bool(y)), ("any([x])", lambda: any([x])), ("x.__nonzero__()", lambda: x.__nonzero__()),
                    ("zip(x)", lambda: list(zip(x))), ("x < x < x", lambda: bool(x))]:
        cx.step()
        try:
            r = f()
        except TypeError:
            continue
        cx.fail("%s: %s is not a TypeError but %r" % (p.kind, what, r))
    cx.state("identity", p.kind)
    cx.trace()
