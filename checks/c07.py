"""C07: which observations a net sees, for every way builds nest, repeat, fail and interleave.

(a) all nesting trees of builds (models, plain nets, net contexts) up to a size, with an exception before or after
    the inner builds of any node, caught by whoever encloses it;
(b) two threads building at the same time under a controlled scheduler: every line of zhusuan executed by either
    thread is a possible switch point; all schedules up to a preemption bound; and all interleavings (no bound) of
    the points between the steps of the two programs;
(c) all sequences of builds of models with and without variable reuse.
"""
import itertools
import os
import sys
import threading

import numpy as np

TECHNIQUE = ("exhaustive enumeration of nesting/fault trees, and stateless model checking of two building threads on the "
             "real code: all schedules up to a preemption bound at line granularity, all interleavings at step granularity")
LEVEL_NOTE = "bounded tree size, two threads, bounded number of preemptions"
RULE = "a case is a tree shape with one labelling of its root, a pair of thread programs, or a set of variable programs"
ASSUMPTIONS = ["a thread switch inside one source line of zhusuan, or inside TensorFlow, is not explored"]
BOUNDS = {"quick": "trees of up to 3 builds (all labellings, for size 3 with fewer inner observations and faults); 7 pairs of thread programs, up to 1 preemption at line level, all "
                   "interleavings at step level (6 pairs); 3 builds of variable reusing models",
          "thorough": "trees of up to 4 builds (reduced labels for size 4); 7 pairs of thread programs, up to 2 preemptions at "
                      "line level, all interleavings at step level; 4 builds of variable reusing models"}

STYLES = ["meta", "self", "plain", "context"]
OBSS = ["", "x", "y", "xy"]
FAULTS = ["none", "before", "after"]


def forests(n):
    """all ordered forests with n nodes, as nested tuples"""
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for first in forests(k - 1):
            for rest in forests(n - k):
                out.append((first,) + rest)
    return out


def size(f):
    return sum(1 + size(t) for t in f)


PAIRS = [("obs", "obs"), ("obs", "plain"), ("obs", "nest"), ("obs", "fail"), ("nest", "plain"), ("context", "obs"),
         ("context", "plain")]


def cases(tier):
    out = []
    for n in range(1, 4 if tier == "quick" else 5):
        for i, f in enumerate(forests(n)):
            for st in STYLES:
                for ob in (OBSS if n < 4 else ["", "x"]):
                    out.append({"kind": "tree", "n": n, "forest": i, "style": st, "obs": ob})
    for i, p in enumerate(PAIRS):
        if tier == "thorough" or p != ("obs", "nest"):
            out.append({"kind": "coarse", "pair": i, "shared": True})
        if tier == "thorough" or "nest" not in p:
            out.append({"kind": "coarse", "pair": i, "shared": False})
        for first in (0, 1):
            for sh in range(8 if tier == "thorough" else 1):
                out.append({"kind": "line", "pair": i, "first": first, "bound": 1 if tier == "quick" else 2, "shard": sh,
                            "of": 8 if tier == "thorough" else 1})
    for reuse in (False, True):
        for getv in (False, True):
            for deco in (False, True):
                out.append({"kind": "vars", "reuse": reuse, "getvar": getv, "deco": deco, "n": 3 if tier == "quick" else 4})
    return out


def weight(c):
    if c["kind"] == "coarse":
        return {2: 66, 4: 18}.get(c["pair"], 2)
    return {"tree": {1: .1, 2: .2, 3: 2}.get(c.get("n", 0), 10), "line": 2 if c.get("bound") == 1 else 40, "vars": 1}[c["kind"]]


class Boom(Exception):
    pass


# ---------------------------------------------------------------- nesting trees

class Tree(object):
    """Executes one labelled tree.  labels: list of (style, obs, fault) in preorder."""

    def __init__(self, cx, tf, zs, forest, labels, dist):
        self.cx, self.tf, self.zs, self.dist = cx, tf, zs, dist
        self.forest, self.labels = forest, labels
        self.k = 0
        self.stack = []              # (observations, meta) of the enclosing builds, innermost last
        self.todo = []

    def where(self):
        return "%r %r" % (self.forest, self.labels)

    def value(self, i, name):
        return np.array([10. * i + (1 if name == "x" else 2)], np.float32)

    def probe(self, bn, names, obs, what):
        """add nodes to bn and compare their observations with what is expected"""
        for nm in names:
            node = bn.stochastic(nm, self.dist)
            want = obs.get(nm)
            self.cx.step()
            self.cx.check(node.is_observed() == (want is not None),
                          "%s: %s: node %s is %sobserved" % (self.where(), what, nm, "" if node.is_observed() else "not "))
            if want is not None:
                got = self.tf.get_static_value(node.tensor)
                self.cx.check(got is not None and np.array_equal(got, want),
                              "%s: %s: node %s has observation %r instead of %r" % (self.where(), what, nm, got, want))

    def run_forest(self, forest, outer_bn):
        for t in forest:
            i = self.k
            self.k += 1
            style, obs, fault = self.labels[i]
            try:
                self.build(i, t, style, obs, fault, outer_bn)
            except Boom as e:
                self.cx.check(e.args[0] == i or e.args[0] >= 0, "wrong exception")
                # count the builds that were skipped so that labels stay aligned
                self.k = i + 1 + size(t)

    def meta_override(self, i):
        return lambda bn: 1000. + i

    def build(self, i, subtree, style, obs, fault, outer_bn):
        tf, zs, cx = self.tf, self.zs, self.cx
        o = {n: self.value(i, n) for n in obs}
        enclosing = self.stack[-1] if self.stack else ({}, None, None)

        def body(*args, **kwargs):
            mine, my_meta, ident = self.stack[-1]
            if ident is not None:
                cx.check(args == ("arg", i) and kwargs == {"kw": -i} or style == "self",
                         "%s: the model function got %r %r" % (self.where(), args, kwargs))
            bn = zs.BayesianNet()
            self.probe(bn, ["x"], mine, "build %d, before inner builds" % i)
            if outer_bn is not None and "x" not in outer_bn[0].nodes:
                self.probe(outer_bn[0], ["x", "y"], outer_bn[1], "nodes added to the enclosing net within build %d" % i)
            if fault == "before":
                raise Boom(i)
            if subtree:
                self.run_forest(subtree, (zs.BayesianNet(), mine))
            self.probe(bn, ["y", "z"], mine, "build %d, after inner builds" % i)
            bn2 = zs.BayesianNet()
            self.probe(bn2, ["x", "y"], mine, "second net of build %d" % i)
            if fault == "after":
                raise Boom(i)
            self.todo.append((bn, bn2, mine, my_meta))
            return bn

        if style in ("meta", "self"):
            if style == "self" and enclosing[1] is not None:
                # observe the enclosing model again from inside: its function is a trampoline
                meta = enclosing[1]
            else:
                meta = zs.MetaBayesianNet(lambda *a, **k: self.tramp(*a, **k), args=["arg", i], kwargs={"kw": -i},
                                          scope=[None, "s"][i % 2])
                if i % 2 == 0:
                    meta.log_joint = self.meta_override(i)
            self.stack.append((o, meta, None if style == "self" else i))
            prev = getattr(self, "current", None)
            self.current = body
            try:
                bn = meta.observe(**o)
            finally:
                self.stack.pop()
                self.current = prev
            cx.check(isinstance(bn, zs.BayesianNet), self.where() + ": observe() returned %r" % (bn,))
            self.probe(bn, ["w"], {}, "after build %d" % i)
        elif style == "plain":
            self.stack.append((enclosing[0], enclosing[1], None))
            try:
                body()
            finally:
                self.stack.pop()
        else:
            # a net used as context (old style; every other time of a class of the user's own), with observations of its own
            cls = type("Net", (zs.BayesianNet,), {}) if i % 2 else zs.BayesianNet
            net = None
            self.stack.append((enclosing[0], enclosing[1], None))
            try:
                with cls(observed={n: v + 0.5 for n, v in o.items()}) as net:
                    cx.check(zs.BayesianNet.get_context() is net, self.where() + ": get_context() is not the net entered")
                    body()
                    cx.check(zs.BayesianNet.get_context() is net, self.where() + ": get_context() changed")
            finally:
                self.stack.pop()
        if style == "context":
            for nm in "xy":
                node = net.stochastic(nm, self.dist)
                want = enclosing[0].get(nm)
                if want is None and nm in o:
                    want = o[nm] + 0.5
                cx.check(node.is_observed() == (want is not None), self.where() + ": observed net %d, node %s" % (i, nm))
                if want is not None:
                    cx.check(np.array_equal(tf.get_static_value(node.tensor), want), "%s: observed net %d, node %s is %r" % (
                        self.where(), i, nm, tf.get_static_value(node.tensor)))

    def tramp(self, *a, **k):
        return self.current(*a, **k)

    def finish(self):
        """after everything: overrides belong to the models, nothing is left on the stacks"""
        cx, zs = self.cx, self.zs
        for bn, bn2, mine, meta in self.todo:
            if meta is not None and meta.log_joint is not None:
                want = meta.log_joint(None)
                cx.check(bn.log_joint() == want and bn2.log_joint() == want,
                         self.where() + ": log joint override of another model is used")
        bn = zs.BayesianNet()
        self.probe(bn, ["x", "y"], {}, "a net built afterwards")
        try:
            zs.BayesianNet.get_context()
        except RuntimeError:
            pass
        else:
            cx.fail(self.where() + ": a net is left as context")


def run_tree(case, cx, tf, zs):
    f = forests(case["n"])[case["forest"]]
    n = case["n"]
    small = n >= 4
    lab = [(s, o, x) for s in STYLES for o in (["", "x"] if small else OBSS) for x in FAULTS]
    if n == 3:
        lab = [(s, o, x) for s in STYLES for o in ("", "x") for x in (("none", "after") if cx.tier == "quick" else FAULTS)]
    if small:
        lab = [l for l in lab if l[0] in ("meta", "plain") and l[2] != "before" or l == ("self", "x", "none")]
    # all labellings
    count = 0
    g = None
    for fault in FAULTS:
        for rest in itertools.product(lab, repeat=n - 1):
            if count % 150 == 0:
                if g is not None:
                    g.__exit__(None, None, None)
                g = tf.Graph().as_default()
                g.__enter__()
                dist = zs.distributions.Normal(mean=tf.zeros([1]), std=tf.ones([1]))
            count += 1
            labels = [(case["style"], case["obs"], fault)] + list(rest)
            t = Tree(cx, tf, zs, f, labels, dist)
            t.run_forest(f, None)
            t.finish()
            cx.trace()
            cx.state("tree", f, labels)
    g.__exit__(None, None, None)
    cx.sample({"forest": repr(f), "labels": labels})


# ---------------------------------------------------------------- threads

class Sched(object):
    """Runs two functions in threads, one at a time; `choose(step, cur, enabled)` decides at each point."""

    def __init__(self, funcs, choose, lines):
        self.funcs, self.choose, self.lines = funcs, choose, lines
        self.sem = [threading.Semaphore(0) for _ in funcs]
        self.done = [False] * len(funcs)
        self.err = [None] * len(funcs)
        self.over = threading.Semaphore(0)
        self.step = 0
        self.cur = 0

    def point(self, me):
        enabled = [i for i in range(len(self.funcs)) if not self.done[i]]
        nxt = self.choose(self.step, me, enabled)
        self.step += 1
        if nxt != me:
            self.cur = nxt
            self.sem[nxt].release()
            if not self.done[me]:
                self.sem[me].acquire()

    def tracer(self, me):
        root = self.lines

        def local(frame, event, arg):
            if event == "line":
                self.point(me)
            return local

        def tr(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(root):
                return local
            return None
        return tr

    def body(self, me):
        self.sem[me].acquire()
        try:
            if self.lines:
                sys.settrace(self.tracer(me))
            try:
                self.funcs[me](lambda: None if self.lines else self.point(me))
            finally:
                if self.lines:
                    sys.settrace(None)
        except BaseException as e:  # noqa
            self.err[me] = e
        self.done[me] = True
        rest = [i for i in range(len(self.funcs)) if not self.done[i]]
        if rest:
            self.cur = rest[0]
            self.sem[rest[0]].release()
        else:
            self.over.release()

    def run(self, first):
        ts = [threading.Thread(target=self.body, args=(i,)) for i in range(len(self.funcs))]
        for t in ts:
            t.daemon = True
            t.start()
        self.cur = first
        self.sem[first].release()
        if not self.over.acquire(timeout=60):
            raise AssertionError("the threads do not finish")
        for t in ts:
            t.join()
        return self.err


def program(cx, tf, zs, kind, me, graph, dist, meta):
    """A building program of thread `me`; pt() is a step boundary."""
    val = np.array([100. * (me + 1)], np.float32)

    def expect(bn, name, want, what):
        node = bn.stochastic(name, dist)
        cx.check(node.is_observed() == (want is not None), "thread %d (%s), %s: node %s is %sobserved" % (
            me, kind, what, name, "" if node.is_observed() else "not "))
        if want is not None:
            cx.check(np.array_equal(tf.get_static_value(node.tensor), want),
                     "thread %d (%s), %s: node %s has observation %r instead of %r" % (
                         me, kind, what, name, tf.get_static_value(node.tensor), want))

    def run(pt):
        def model(depth=0):
            pt()
            bn = zs.BayesianNet()
            pt()
            expect(bn, "x", val + depth, "build")
            if kind == "nest" and depth == 0:
                pt()
                slot[me] = lambda: model(1)
                m.observe(x=val + 1)
                slot[me] = None
                pt()
                bn2 = zs.BayesianNet()
                expect(bn2, "x", val, "after the inner build")
            pt()
            if kind == "fail":
                raise Boom(me)
            expect(bn, "y", None, "build")
            return bn

        with graph.as_default():
            slot = meta["slot"]
            m = meta["metas"][me]
            if kind == "plain":
                for k in range(2):
                    pt()
                    bn = zs.BayesianNet()
                    pt()
                    expect(bn, "x", None, "plain net")
                return
            if kind == "context":
                pt()
                with zs.BayesianNet({"x": val}) as bn:
                    pt()
                    cx.check(zs.BayesianNet.get_context() is bn, "thread %d: another thread's net is the context" % me)
                    expect(bn, "x", val, "net with observations")
                    pt()
                    cx.check(zs.BayesianNet.get_context() is bn, "thread %d: another thread's net is the context" % me)
                pt()
                try:
                    zs.BayesianNet.get_context()
                except RuntimeError:
                    pass
                else:
                    cx.fail("thread %d: a net is left as context" % me)
                return
            slot[me] = model
            pt()
            try:
                bn = m.observe(x=val)
                cx.check(kind != "fail", "the exception is lost")
            except Boom as e:
                cx.check(kind == "fail" and e.args[0] == me, "exception of another thread")
            pt()
            expect(zs.BayesianNet(), "x", None, "after the build")
    return run


def schedule(cx, tf, zs, pair, shared, choose, lines, first, env):
    """Run one schedule of the pair of programs."""
    slot = {}
    ident = {}

    def f():
        return slot[ident[threading.get_ident()]]()

    m0 = zs.MetaBayesianNet(f)
    m1 = m0 if shared else zs.MetaBayesianNet(f)
    meta = {"slot": slot, "metas": [m0, m1]}
    funcs = []
    for me in (0, 1):
        g, d = env[me]
        p = program(cx, tf, zs, pair[me], me, g, d, meta)

        def fn(pt, me=me, p=p):
            ident[threading.get_ident()] = me
            p(pt)
        funcs.append(fn)
    s = Sched(funcs, choose, lines)
    err = s.run(first)
    for e in err:
        if e is not None:
            raise e
    cx.trace()
    cx.step(s.step)
    return s.step


def new_env(tf, zs):
    env = []
    for me in (0, 1):
        g = tf.Graph()
        with g.as_default():
            d = zs.distributions.Normal(mean=tf.zeros([1]), std=tf.ones([1]))
        env.append((g, d))
    return env


def run_coarse(case, cx, tf, zs):
    """All interleavings at step granularity: depth first over the choices."""
    pair = PAIRS[case["pair"]]
    n = 0
    todo = [[]]
    while todo:
        prefix = todo.pop()
        trace = []

        def choose(step, me, enabled):
            c = enabled[0] if step >= len(prefix) - 1 else prefix[step + 1]
            trace.append((c, list(enabled)))
            return c
        first = prefix[0] if prefix else 0
        if n % 300 == 0:
            env = new_env(tf, zs)
        schedule(cx, tf, zs, pair, case["shared"], choose, None, first, env)
        n += 1
        full = [(first, [0, 1])] + trace
        for i in range(len(prefix), len(full)):
            for alt in full[i][1]:
                if alt != full[i][0]:
                    todo.append([c for c, _ in full[:i]] + [alt])
        cx.state("coarse", pair, case["shared"], tuple(c for c, _ in full))
    cx.note("interleavings at step granularity", n)


def run_line(case, cx, tf, zs):
    """All schedules with up to `bound` preemptions at line granularity."""
    pair = PAIRS[case["pair"]]
    root = os.path.realpath(os.path.dirname(zs.__file__)) + os.sep
    env = new_env(tf, zs)
    # warm up imports and caches outside the exploration
    base = schedule(cx, tf, zs, pair, True, lambda s, me, en: me if me in en else en[0], root, case["first"], env)
    base = schedule(cx, tf, zs, pair, True, lambda s, me, en: me if me in en else en[0], root, case["first"], env)
    n = 0
    lengths = base

    def go(pre):
        def choose(step, me, enabled):
            other = [e for e in enabled if e != me]
            if step in pre and other:
                return other[0]
            return me if me in enabled else enabled[0]
        return schedule(cx, tf, zs, pair, True, choose, root, case["first"], env)

    for i in range(case["shard"], lengths + 40, case["of"]):
        if n % 400 == 0:
            env = new_env(tf, zs)
        total = go({i})
        n += 1
        cx.state("line", pair, case["first"], i)
        if case["bound"] >= 2:
            for j in range(i + 1, total):
                if n % 400 == 0:
                    env = new_env(tf, zs)
                go({i, j})
                n += 1
                cx.state("line", pair, case["first"], i, j)
        if i >= total:
            break
    cx.note("schedules at line granularity", n)


# ---------------------------------------------------------------- variables

def run_vars(case, cx, tf, zs):
    reuse, getv = case["reuse"], case["getvar"]
    try:
        if case["deco"]:
            zs.meta_bayesian_net(reuse_variables=True)(lambda: zs.BayesianNet())()
        else:
            zs.MetaBayesianNet(lambda: zs.BayesianNet(), reuse_variables=True)
    except ValueError:
        pass
    else:
        cx.fail("variable reuse without a scope is not an error")
    # all sequences of builds of two models, with exceptions and observations in between
    for seq in itertools.product([0, 1], repeat=case["n"]):
        with tf.Graph().as_default():
            got = {0: [], 1: []}
            dup = False

            def make(k):
                def f(tag, scale=1.):
                    cx.check(tag == "t%d" % k and scale == 2. + k, "the model function gets other arguments")
                    bn = zs.BayesianNet()
                    if getv or reuse:
                        v = tf.get_variable("v", shape=[2], initializer=tf.constant_initializer(k))
                    else:
                        v = tf.Variable(tf.zeros([2]) + k, name="v")
                    got[k].append(v)
                    bn.normal("x", v, std=scale)
                    return bn
                if case["deco"]:
                    return zs.meta_bayesian_net(scope="m%d" % k, reuse_variables=reuse)(f)("t%d" % k, scale=2. + k)
                return zs.MetaBayesianNet(f, args=("t%d" % k,), kwargs={"scale": 2. + k}, scope="m%d" % k,
                                          reuse_variables=reuse)
            ms = [make(0), make(1)]
            bns = []
            for n, k in enumerate(seq):
                cx.step()
                before = len(tf.global_variables())
                obs = {"x": np.full([2], n, np.float32)} if n % 2 else {}
                try:
                    bn = ms[k].observe(**obs)
                except ValueError:
                    # a variable of that name exists already: only legal without reuse, for named variables
                    cx.check(not reuse and getv and k in seq[:n], "build %d of %r fails" % (n, seq))
                    dup = True
                    continue
                cx.check(bn["x"].is_observed() == bool(obs), "observations of build %d of %r" % (n, seq))
                bns.append((k, n, bn))
                added = len(tf.global_variables()) - before
                want = 0 if reuse and k in seq[:n] else 1
                cx.check(added == want, "build %d of %r creates %d variables instead of %d" % (n, seq, added, want))
            for k in (0, 1):
                ids = {id(v) if not reuse else v.name for v in got[k]}
                if reuse:
                    cx.check(len(ids) <= 1, "builds of one model use different variables %r" % ids)
                else:
                    cx.check(len({v.name for v in got[k]}) == len(got[k]), "builds of a model share variables")
            names = [{v.name for v in got[k]} for k in (0, 1)]
            cx.check(not (names[0] & names[1]), "two models share variables")
            for k in (0, 1):
                for nm in names[k]:
                    cx.check(nm.startswith("m%d" % k), "variable %s is not in the scope of its model" % nm)
            with tf.Session() as sess:
                sess.run(tf.global_variables_initializer())
                for k, n, bn in bns:
                    if n % 2:
                        x = np.full([2], n, np.float32)
                        lp = -np.log(np.sqrt(2 * np.pi) * (2. + k)) - 0.5 * ((x - k) / (2. + k)) ** 2
                        cx.close(sess.run(bn.cond_log_prob("x")), lp, "log density of build %d of %r" % (n, seq), rtol=1e-4)
            cx.trace()
            cx.state("vars", case, seq)


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan as zs
    {"tree": run_tree, "coarse": run_coarse, "line": run_line, "vars": run_vars}[case["kind"]](case, cx, tf, zs)
