"""C18: backward search on all small graphs; sharing of variables over all short call histories."""
import itertools

import numpy as np

TECHNIQUE = ("exhaustive enumeration of graphs (real TensorFlow graphs with data, multi-output and control edges) x seed sequences x input "
             "sets on the real code, oracle: reachability and order; all call histories of functions that share variables up to a depth")
LEVEL_NOTE = "bounded: graphs up to 4-6 operations, call histories up to length 4-5"
RULE = "a case is a family of graphs x a slice; all graphs, seed sequences and input sets of the family are explored"
ASSUMPTIONS = ["Tensor.op, Operation.inputs and Operation.control_inputs describe the graph", "graphs without cycles (one while loop is included)"]
BOUNDS = {"quick": "all graphs of 4 operations with edges in {none, data from output 0, data from output 1, control} and all subsets of input "
                   "tensors, all single seeds, pairs and the full sequences; all data graphs of 5 operations; call histories of length 3",
          "thorough": "additionally all graphs of 4 operations with 6 edge kinds and seed sequences up to length 3, all graphs of 5 operations with data and control edges, all data graphs of 6 operations, histories of length 4"}


def cases(tier):
    out = []
    th = tier == "thorough"
    fam = [("mix", 3, 6), ("mix", 4, 4), ("data", 5, 2)] + ([("mix", 4, 6), ("mix", 5, 3), ("data", 6, 2)] if th else [])
    for kind, n, k in fam:
        total = k ** (n * (n - 1) // 2)
        nsl = max(1, min(64, total // 128))
        for s in range(nsl):
            out.append({"kind": "graphs", "fam": kind, "n": n, "k": k, "slice": s, "of": nsl,
                        "seeds": 3 if (th and n == 4 and k == 4) or n == 3 else 2})
    for shape in ("chain", "ladder", "fan", "controlchain", "while", "real", "realhmc"):
        out.append({"kind": "big", "shape": shape})
    for dec in ("reuse_variables", "reuse"):
        for first in range(len(ACTS)):
            out.append({"kind": "reuse", "dec": dec, "depth": 4 if th else 3, "first": first})
    return out


def weight(c):
    return 6 if c["kind"] == "graphs" else 3 if c["kind"] == "reuse" else 1


# ---------------------------------------------------------------- graphs
def build(tf, n, kinds):
    """kinds[(i, j)], i < j: 0 none, 1 data from the first output of i, 2 data from its last output, 3 control, 4 both outputs, 5 data and control"""
    ops = []
    for j in range(n):
        ins, ctl = [], []
        for i in range(j):
            k = kinds[i, j]
            if k in (1, 5):
                ins.append(ops[i].outputs[0])
            elif k == 2:
                ins.append(ops[i].outputs[-1])
            elif k == 4:
                ins += [ops[i].outputs[-1], ops[i].outputs[0]]
            if k in (3, 5):
                ctl.append(ops[i])
        with tf.control_dependencies(ctl):
            if not ins:
                t = tf.raw_ops.InfeedDequeueTuple(dtypes=[tf.float32, tf.float32], shapes=[[], []])[0]
            elif len(ins) == 1 and j % 2:
                t = tf.identity(ins[0])
            elif len(ins) == 1:
                t = tf.identity_n([ins[0], ins[0]])[0]
            else:
                t = tf.identity_n(ins)[0]
        ops.append(t.op)
    return ops


def needed(seeds, inputs):
    """the operations needed for the seeds"""
    inputs = set(id(t) for t in inputs)
    stack = [t.op for t in seeds if id(t) not in inputs]
    seen = {}
    while stack:
        o = stack.pop()
        if o in seen:
            continue
        pre = [t.op for t in o.inputs if id(t) not in inputs] + list(o.control_inputs)
        seen[o] = pre
        stack += pre
    return seen


def judge(cx, got, seeds, inputs, order=True):
    want = needed(seeds, inputs)
    cx.check(isinstance(got, list), "the result is not a list")
    cx.check(len(set(got)) == len(got), "an operation is listed twice", got=[o.name for o in got])
    cx.check(set(got) == set(want), "wrong set of operations", got=sorted(o.name for o in got), want=sorted(o.name for o in want),
             seeds=[t.name for t in seeds], inputs=[t.name for t in inputs],
             graph={o.name: [t.name for t in o.inputs] + ["^" + c.name for c in o.control_inputs] for o in want})
    if order:
        pos = {o: i for i, o in enumerate(got)}
        for o, pre in want.items():
            for p in pre:
                cx.check(pos[p] < pos[o], "operation %s is listed before %s, which it needs" % (o.name, p.name),
                         got=[q.name for q in got], seeds=[t.name for t in seeds], inputs=[t.name for t in inputs])


def graphs(case, cx):
    import tensorflow as tf
    from zhusuan.framework.utils import get_backward_ops
    n, k = case["n"], case["k"]
    pairs = [(i, j) for j in range(n) for i in range(j)]
    for gi, ks in enumerate(itertools.product(range(k), repeat=len(pairs))):
        if gi % case["of"] != case["slice"]:
            continue
        with tf.Graph().as_default():
            ops = build(tf, n, dict(zip(pairs, ks)))
            cx.state("g", case["fam"], n, ks)
            # one representative tensor per distinct output used, plus a second output of every multi-output operation
            tens = []
            for o in ops:
                tens.append(list(o.outputs[:1]) + ([o.outputs[-1]] if len(o.outputs) > 1 else []))
            firsts = [t[0] for t in tens]
            flat = [t for ts in tens for t in ts]
            if n <= 4 and k <= 4:
                insets = itertools.chain.from_iterable(itertools.combinations(flat, r) for r in range(0, 3))
                insets = list(insets) + [tuple(firsts), tuple(flat)] + list(itertools.combinations(firsts, 3))
            else:
                insets = list(itertools.chain.from_iterable(itertools.combinations(firsts, r) for r in range(0, 3)))
            last = flat[-len(tens[-1]):]
            seqs = [tuple(s) for s in ([t] for t in flat)]
            seqs += [s for s in itertools.permutations(firsts, 2)] + [(firsts[-1], firsts[-1])]
            seqs += [tuple(firsts), tuple(reversed(firsts)), ()]
            if case["seeds"] >= 3:
                seqs += list(itertools.permutations(firsts, 3))
            for ins in insets:
                for sd in seqs:
                    if n > 3 and len(ins) >= 2 and not set(map(id, sd)) & set(map(id, last)):
                        continue      # covered by the smaller graphs
                    a, b = list(sd), list(ins)
                    got = get_backward_ops(a, b)
                    cx.check(list(map(id, a)) == list(map(id, sd)) and list(map(id, b)) == list(map(id, ins)),
                             "the arguments were changed")
                    judge(cx, got, sd, ins)
                    cx.step()
            # forms of the arguments
            want = get_backward_ops([flat[-1]], [])
            for form in (lambda: get_backward_ops(flat[-1]), lambda: get_backward_ops((flat[-1],), None),
                         lambda: get_backward_ops([flat[-1]], treat_as_inputs=()), lambda: get_backward_ops(seed_tensors=flat[-1], treat_as_inputs=[])):
                cx.check(form() == want, "the result depends on the form of the arguments")
                cx.step()
            cx.trace()


def big(case, cx):
    import tensorflow as tf
    from zhusuan.framework.utils import get_backward_ops
    sh = case["shape"]
    with tf.Graph().as_default():
        if sh == "chain":
            t = x0 = tf.placeholder(tf.float32, [])
            mid = None
            for i in range(4000):
                t = tf.identity(t)
                mid = t if i == 2000 else mid
            tests = [([t], []), ([t], [mid]), ([mid, t], [x0]), ([t, mid], [t])]
        elif sh == "ladder":
            a, b = tf.placeholder(tf.float32, []), tf.placeholder(tf.float32, [])
            for i in range(60):
                a, b = a + b, a * b
                mid = a if i <= 30 else mid
            tests = [([a], []), ([b, a], []), ([a, b], [mid]), ([mid, b], [])]
        elif sh == "fan":
            xs = [tf.placeholder(tf.float32, []) for _ in range(200)]
            s = tf.add_n(xs + xs[::-1])
            tests = [([s], []), ([s], xs[::2]), (xs + [s], xs[:3]), ([s] + xs, [])]
        elif sh == "controlchain":
            t = tf.no_op()
            for i in range(300):
                with tf.control_dependencies([t]):
                    t = tf.no_op()
            with tf.control_dependencies([t]):
                z = tf.constant(1.)
            tests = [([z], []), ([z, z + 1], [z])]
        elif sh == "while":
            i = tf.while_loop(lambda i, x: i < 5, lambda i, x: (i + 1, x * 2.), [tf.constant(0), tf.constant(1.)])
            tests = [([i[1]], []), (list(i), []), ([i[0], i[1] + 1.], [i[1]])]
        elif sh == "real":
            import zhusuan as zs
            @zs.meta_bayesian_net()
            def model():
                bn = zs.BayesianNet()
                z = bn.normal("z", tf.zeros([3, 2]), std=1., group_ndims=1, n_samples=2)
                w = bn.bernoulli("w", z * 3., group_ndims=1)
                bn.normal("x", tf.reduce_sum(z, -1) + tf.cast(tf.reduce_sum(w.tensor, -1), tf.float32), std=.5)
                return bn
            bn = model().observe()
            z, w, x = [bn.get(k) for k in "zwx"] if not isinstance(bn.get("z"), tuple) else bn.get(list("zwx"))
            z, w, x = [tf.convert_to_tensor(v) for v in (z, w, x)]
            lj = bn.log_joint()
            tests = [([lj], []), ([lj], [z]), ([lj], [z, w]), ([x], [w]), ([x, lj], [z, w, x]), ([z, x], [z])]
        else:
            import zhusuan as zs
            q = tf.Variable(np.zeros(2, np.float32))
            hmc = zs.HMC(step_size=0.1, n_leapfrogs=3, adapt_step_size=tf.constant(True), adapt_mass=tf.constant(True))
            op, info = hmc.sample(lambda o: -tf.reduce_sum(tf.square(o["x"])), {}, {"x": q})
            g = tf.get_default_graph()
            outs = [t for t in info.samples.values()] + [info.acceptance_rate, info.updated_step_size]
            tests = [(outs, []), (outs[:1], [info.acceptance_rate]), (outs[::-1], outs[:1])]
        for sd, ins in tests:
            got = get_backward_ops(list(sd), list(ins))
            # (loops make the graph cyclic: no order is promised there)
            judge(cx, got, sd, ins, order=sh not in ("while", "realhmc"))
            cx.step(len(got))
            cx.trace()
            cx.state("big", sh, len(sd), len(ins))


# ---------------------------------------------------------------- variable sharing
ACTS = ["f", "g", "f in s", "f in n", "f2", "f in s reused", "nested", "new f", "other graph"]


def reuse(case, cx):
    for rest in itertools.product(range(len(ACTS)), repeat=case["depth"] - 1):
        history(case, [case["first"]] + list(rest), cx)


def history(case, acts, cx):
    import warnings
    import tensorflow as tf
    import zhusuan as zs
    with warnings.catch_warnings(), tf.Graph().as_default():
        warnings.simplefilter("ignore")
        dec = getattr(zs, case["dec"])
        calls = []

        def mk(name, scope):
            @dec(scope)
            def f(x, k=1.):
                calls.append((x, k))
                w = tf.get_variable("w", [2], initializer=tf.constant_initializer(1.))
                b = tf.get_variable("b", [], initializer=tf.constant_initializer(2.))
                return w, b, x * k
            return f
        f, g = mk("f", "fs"), mk("g", "gs")
        h = dec("outer")(lambda x: (f(x), tf.get_variable("v", [])))
        own = {}

        def use(key, fn, fresh):
            before = len(tf.global_variables())
            n = len(calls)
            r = fn()
            cx.check(len(calls) == n + 1, "the function was not called exactly once per call")
            w, b, y = r
            made = len(tf.global_variables()) - before
            if key not in own:
                cx.check(made == 2 + fresh, "the first call created %d variables" % made, acts=acts)
                for k2, (w2, b2) in own.items():
                    cx.check(w2 is not w and b2 is not b, "two functions share a variable", acts=acts)
                own[key] = (w, b)
            else:
                cx.check(made == fresh, "a later call created %d variables" % (made - fresh), acts=acts)
                cx.check(own[key][0] is w and own[key][1] is b, "a later call uses other variables", acts=acts)
            return y, calls[-1]

        nest = 0
        extra = 0
        for step, a in enumerate(ACTS[i] for i in acts):
            x = tf.constant(float(step))
            if a == "f":
                y, c = use("f", lambda: f(x), 0)
                cx.check(c == (x, 1.) or (c[0] is x and c[1] == 1.), "arguments are not passed on")
            elif a == "f2":
                y, c = use("f", lambda: f(x, k=3.), 0)
                cx.check(c[0] is x and c[1] == 3., "arguments are not passed on")
            elif a == "g":
                use("g", lambda: g(x), 0)
            elif a == "f in s":
                with tf.variable_scope("vs"):
                    use("f", lambda: f(x), 0)
            elif a == "f in s reused":
                with tf.variable_scope("vs", reuse=tf.AUTO_REUSE):
                    use("f", lambda: f(x), 0)
            elif a == "f in n":
                with tf.name_scope("ns"):
                    use("f", lambda: f(x), 0)
            elif a == "nested":
                # h calls f; h's own variable is created by its first call.  f keeps its own variables
                if nest == 0:
                    v0 = []
                hold = []
                use("f", lambda: hold.append(h(x)) or hold[0][0], 1 if nest == 0 else 0)
                if nest == 0:
                    v0 = hold[0][1]
                cx.check(hold[0][1] is v0, "a later call uses another variable", acts=acts)
                nest += 1
            elif a == "new f":
                # another function declared with the same scope name has its own variables
                extra += 1
                use("new%d" % extra, lambda f3=mk("f", "fs"): f3(x), 0)
            elif a == "other graph":
                with tf.Graph().as_default() as g2:
                    f3 = mk("f", "fs")
                    w, b, _ = f3(tf.constant(0.))
                    w2, b2, _ = f3(tf.constant(1.))
                    cx.check(w is w2 and b is b2 and len(tf.global_variables()) == 2, "variables in another graph")
            cx.step()
        names = [v.name for v in tf.global_variables()]
        cx.check(len(set(names)) == len(names), "two variables have the same name")
        cx.state("reuse", case["dec"], tuple(acts))
        cx.trace()


def run_case(case, cx):
    {"graphs": graphs, "big": big, "reuse": reuse}[case["kind"]](case, cx)
