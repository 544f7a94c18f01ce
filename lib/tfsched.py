"""A controlled-scheduler interpreter of TensorFlow 1 graphs, for exploring all execution orders of one session.run.

Dataflow semantics of the TF executor: tokens (live or dead) per operation and per (nested) loop iteration, Switch/Merge/Enter/Exit/
NextIteration, control edges.  A value read from a reference variable is an alias of the variable's buffer until an operation computes
with it; Assign, AssignAdd, ... overwrite that buffer in place (as the kernels do).  Pure operations are evaluated by TensorFlow's own
kernels, one at a time (and memoised).  Every operation instance carries the set of instances that must precede it, so conflicting
accesses to a variable that no dependency orders (races) are found from one execution; each is then reversed in further executions.
"""
import collections

import numpy as np

ALIAS1 = {"Identity", "RefIdentity", "StopGradient", "PreventGradient", "CheckNumerics", "Snapshot", "Exit", "RefExit", "NextIteration",
          "RefNextIteration", "Enter", "RefEnter", "LoopCond", "PlaceholderWithDefault"}
RESHAPE = {"Reshape", "ExpandDims", "Squeeze"}
WRITE = {"Assign", "AssignAdd", "AssignSub"}
VAR = {"VariableV2", "Variable", "VarHandleOp", "TemporaryVariable"}


class Alias(object):
    __slots__ = ("var", "shape")

    def __init__(self, var, shape=None):
        self.var, self.shape = var, shape


class Dead(object):
    def __init__(self, whole):
        self.whole = whole


class Infeasible(Exception):
    pass


class Kernels(object):
    """evaluates single operations with TensorFlow"""

    def __init__(self, tf, session):
        self.tf = tf
        self.graph = tf.Graph()
        self.mk = session
        self.ops, self.memo, self.sess = {}, {}, None
        self.pending = []

    def prepare(self, op):
        attrs = {k: v for k, v in op.node_def.attr.items() if k not in ("_class", "_output_shapes", "frame_name")}
        sig = (op.type, tuple(sorted((k, v.SerializeToString(deterministic=True)) for k, v in attrs.items())),
               tuple(i.dtype.base_dtype.name for i in op.inputs), len(op.outputs))
        if sig not in self.ops:
            with self.graph.as_default():
                ph = [self.tf.placeholder(i.dtype.base_dtype) for i in op.inputs]
                with self.graph.control_dependencies(None):
                    new = self.graph.create_op(op.type, ph, [o.dtype.base_dtype for o in op.outputs], attrs=attrs)
            self.ops[sig] = [ph, new, None, len(self.ops)]
        return sig

    def run(self, sig, vals):
        ent = self.ops[sig]
        key = (ent[3],) + tuple((v.dtype.str, v.shape, v.tobytes() if v.dtype != object else repr(v.tolist())) for v in vals)
        if key in self.memo:
            return self.memo[key]
        if ent[2] is None:
            if self.sess is None:
                with self.graph.as_default():
                    self.sess = self.mk(self.tf)
            with self.graph.as_default():
                ent[2] = self.sess.make_callable(list(ent[1].outputs) if ent[1].outputs else ent[1], feed_list=ent[0])
        r = ent[2](*vals)
        r = [np.asarray(x) for x in r] if ent[1].outputs else []
        self.memo[key] = r
        return r


class Program(object):
    """The part of the graph needed for the fetches."""

    def __init__(self, fetches, kernels, preset=()):
        """preset: names of operations whose output is given (random numbers, placeholders)"""
        self.k = kernels
        fetches = [f._as_graph_element() if hasattr(f, "_as_graph_element") else f for f in fetches]
        self.fetches = [getattr(f, "op", f) if not hasattr(f, "value_index") else f for f in fetches]
        todo = [getattr(f, "op", f) for f in fetches]
        self.ops = {}
        while todo:
            op = todo.pop()
            if op.name in self.ops:
                continue
            self.ops[op.name] = op
            todo.extend(i.op for i in op.inputs)
            todo.extend(op.control_inputs)
        self.inp, self.ctl, self.cons, self.sig = {}, {}, collections.defaultdict(list), {}
        for n, op in self.ops.items():
            self.inp[n] = [(i.op.name, i.value_index) for i in op.inputs]
            self.ctl[n] = [c.name for c in op.control_inputs]
            for s, (p, i) in enumerate(self.inp[n]):
                self.cons[p].append((n, s, i))
            for s, c in enumerate(self.ctl[n]):
                self.cons[c].append((n, -1 - s, None))
        self.enter_const = {n for n, op in self.ops.items() if op.type in ("Enter", "RefEnter") and op.get_attr("is_constant")}
        for n, op in self.ops.items():
            if self.pure(op) and n not in preset:
                self.sig[n] = kernels.prepare(op)

    @staticmethod
    def pure(op):
        t = op.type
        return not (t in VAR or t in WRITE or t in ALIAS1 or t in ("Switch", "RefSwitch", "Merge", "RefMerge", "NoOp", "IdentityN",
                    "ReadVariableOp", "AssignVariableOp", "AssignAddVariableOp", "AssignSubVariableOp", "ControlTrigger", "Placeholder"))


class Execution(object):
    def __init__(self, prog, variables, preset, constraints=()):
        """variables: {op name: array}; preset: {op name: [output arrays]}; constraints: [(first instance, later instance)]"""
        self.p, self.vars, self.preset = prog, {k: np.array(v) for k, v in variables.items()}, preset
        self.after = collections.defaultdict(set)
        for a, b in constraints:
            self.after[b].add(a)
        self.arrived = collections.defaultdict(dict)
        self.done = {}                 # instance -> index
        self.fired = set()
        self.ready = collections.deque()
        self.hb = []
        self.keys = []
        self.accesses = []             # (index, var, kind)
        self.consts = collections.defaultdict(list)     # frame path -> [(consumer list, tokens, hb)]
        self.iters = set()
        self.out = {}
        self.steps = 0

    # -- tokens
    def send(self, name, tag, tokens, hb):
        """tokens: list of output tokens, or a Dead"""
        op = self.p.ops[name]
        t = op.type
        if t in ("NextIteration", "RefNextIteration"):
            if isinstance(tokens, Dead):
                return
            f, i = tag[-1]
            tag = tag[:-1] + ((f, i + 1),)
            self.new_iter(tag)
        elif t in ("Exit", "RefExit"):
            if isinstance(tokens, Dead) and not tokens.whole:
                return
            tag = tag[:-1]
        elif t in ("Enter", "RefEnter"):
            f = op.get_attr("frame_name")
            f = f.decode() if isinstance(f, bytes) else f
            base = tag
            tag = base + ((f, 0),)
            if name in self.p.enter_const:
                self.consts[(base, f)].append((name, tokens, hb))
                for it in [x for x in self.iters if x[:-1] == base and x[-1][0] == f]:
                    if it != tag:
                        self.deliver(name, it, tokens, hb)
            self.new_iter(tag)
        self.deliver(name, tag, tokens, hb)

    def new_iter(self, tag):
        if tag in self.iters:
            return
        self.iters.add(tag)
        if tag[-1][1] > 0:
            for name, tokens, hb in self.consts[(tag[:-1], tag[-1][0])]:
                self.deliver(name, tag, tokens, hb)

    def deliver(self, name, tag, tokens, hb):
        for c, slot, idx in self.p.cons[name]:
            tok = tokens if isinstance(tokens, Dead) else (tokens[idx] if idx is not None else None)
            inst = (c, tag)
            a = self.arrived[inst]
            if slot in a:
                continue
            a[slot] = (tok, hb)
            if inst not in self.fired and self.is_ready(inst):
                self.fired.add(inst)
                self.ready.append(inst)

    def is_ready(self, inst):
        n, tag = inst
        op, a = self.p.ops[n], self.arrived[inst]
        nc = len(self.p.ctl[n])
        if any(-1 - s not in a for s in range(nc)):
            return False
        if op.type in ("Merge", "RefMerge"):
            exp = self.expected(n, tag)
            live = [s for s in exp if s in a and not isinstance(a[s][0], Dead)]
            return bool(live) or all(s in a for s in exp)
        return all(s in a for s in range(len(self.p.inp[n])))

    def expected(self, n, tag):
        it = tag[-1][1] if tag else 0
        exp = []
        loop = any(self.p.ops[p].type in ("NextIteration", "RefNextIteration") for p, _ in self.p.inp[n])
        for s, (p, _) in enumerate(self.p.inp[n]):
            nxt = self.p.ops[p].type in ("NextIteration", "RefNextIteration")
            if not loop or (nxt if it > 0 else not nxt):
                exp.append(s)
        return exp

    # -- values
    def read(self, tok, idx):
        if isinstance(tok, Alias):
            self.accesses.append((idx, tok.var, "r"))
            v = self.vars[tok.var]
            return np.array(v if tok.shape is None else v.reshape(tok.shape))
        return tok

    def peek(self, tok):
        if isinstance(tok, Alias):
            v = self.vars[tok.var]
            return v if tok.shape is None else v.reshape(tok.shape)
        return tok

    def execute(self, inst, idx, ins):
        n, tag = inst
        op = self.p.ops[n]
        t = op.type
        if n in self.preset:
            return list(self.preset[n])
        if t in VAR:
            return [Alias(n)]
        if t in ALIAS1 or t == "IdentityN":
            return list(ins)
        if t in ("Switch", "RefSwitch"):
            pred = bool(self.read(ins[1], idx))
            d = Dead(False)
            return [d, ins[0]] if pred else [ins[0], d]
        if t in ("NoOp", "ControlTrigger"):
            return []
        if t in WRITE:
            a = ins[0]
            val = self.read(ins[1], idx)
            if t != "Assign":
                self.accesses.append((idx, a.var, "r"))
            self.accesses.append((idx, a.var, "w"))
            old = self.vars[a.var]
            self.vars[a.var] = {"Assign": lambda: np.array(val), "AssignAdd": lambda: old + val,
                                "AssignSub": lambda: old - val}[t]().astype(old.dtype)
            return [Alias(a.var)]
        if t == "ReadVariableOp":
            self.accesses.append((idx, ins[0].var, "r"))
            return [np.array(self.vars[ins[0].var])]
        if t in ("AssignVariableOp", "AssignAddVariableOp", "AssignSubVariableOp"):
            v = ins[0].var
            val = self.read(ins[1], idx)
            self.accesses.append((idx, v, "w"))
            self.vars[v] = np.array(val) if t == "AssignVariableOp" else self.vars[v] + (val if "Add" in t else -val)
            return []
        if t in RESHAPE and isinstance(ins[0], Alias):
            rest = [self.read(x, idx) for x in ins[1:]]
            r = self.p.k.run(self.p.sig[n], [self.peek(ins[0])] + rest)[0]
            return [Alias(ins[0].var, r.shape)]
        vals = [self.read(x, idx) for x in ins]
        return self.p.k.run(self.p.sig[n], vals)

    # -- the run
    def run(self):
        for n in self.p.ops:
            if not self.p.inp[n] and not self.p.ctl[n]:
                self.fired.add((n, ()))
                self.ready.append((n, ()))
            elif n in self.preset and not self.p.ctl[n]:
                # a fed tensor does not wait for its inputs; keep the dependence on them (harmless: they are pure)
                pass
        waiting = []
        while self.ready or waiting:
            if not self.ready:
                raise Infeasible()
            inst = self.ready.popleft()
            need = [a for a in self.after.get(inst, ()) if a not in self.done]
            if need:
                waiting.append(inst)
                continue
            self.process(inst)
            if waiting:
                still = []
                for w in waiting:
                    if any(a not in self.done for a in self.after.get(w, ())):
                        still.append(w)
                    else:
                        self.ready.append(w)
                waiting = still
        return self

    def process(self, inst):
        n, tag = inst
        op, a = self.p.ops[n], self.arrived[inst]
        idx = len(self.hb)
        self.steps += 1
        if op.type in ("Merge", "RefMerge"):
            exp = self.expected(n, tag)
            live = [s for s in exp if s in a and not isinstance(a[s][0], Dead)]
            use = live[:1] or exp
            h = 0
            for s in use:
                h |= a[s][1]
            for s in range(len(self.p.ctl[n])):
                h |= a[-1 - s][1]
            self.hb.append(h | (1 << idx))
            self.keys.append(inst)
            self.done[inst] = idx
            tokens = [a[live[0]][0], np.asarray(live[0], np.int32)] if live else Dead(True)
            self.keep(inst, tokens)
            self.send(n, tag, tokens, self.hb[idx])
            return
        h, dead = 0, None
        for s in list(range(len(self.p.inp[n]))) + [-1 - s for s in range(len(self.p.ctl[n]))]:
            tok, hh = a[s]
            h |= hh
            if isinstance(tok, Dead):
                dead = tok if dead is None or tok.whole else dead
        self.hb.append(h | (1 << idx))
        self.keys.append(inst)
        self.done[inst] = idx
        if dead is not None:
            whole = True if op.type in ("Switch", "RefSwitch") else dead.whole
            tokens = Dead(whole)
        else:
            tokens = self.execute(inst, idx, [a[s][0] for s in range(len(self.p.inp[n]))])
        self.keep(inst, tokens)
        self.send(n, tag, tokens, self.hb[idx])

    def keep(self, inst, tokens):
        if not inst[1] or self.p.ops[inst[0]].type in ("Exit", "RefExit"):
            if not (isinstance(tokens, Dead) and inst[0] in self.out):
                self.out[inst[0]] = tokens

    def results(self):
        """fetched values (an alias is read when everything is over) and final variables"""
        res = []
        for f in self.p.fetches:
            if hasattr(f, "value_index"):
                tk = self.out[f.op.name]
                if isinstance(tk, Dead):
                    raise ValueError("fetched value of %s was never computed" % f.name)
                res.append(np.array(self.peek(tk[f.value_index])))
        return res, self.vars

    def races(self):
        """pairs (instance a, instance b): a ran before b, they conflict, and nothing orders them"""
        out = []
        byvar = collections.defaultdict(list)
        for i, v, k in self.accesses:
            byvar[v].append((i, k))
        for v, acc in byvar.items():
            if not any(k == "w" for _, k in acc):
                continue
            for y in range(len(acc)):
                for x in range(y):
                    if "w" not in (acc[x][1], acc[y][1]) or acc[x][0] == acc[y][0]:
                        continue
                    if not (self.hb[acc[y][0]] >> acc[x][0]) & 1:
                        pr = (self.keys[acc[x][0]], self.keys[acc[y][0]], v)
                        if pr not in out:
                            out.append(pr)
        return out


def explore(prog, variables, preset, limit=100):
    """All outcomes over all orders of unordered conflicting accesses.  Yields (execution, constraints)."""
    todo, seen, n = [()], set(), 0
    while todo and n < limit:
        cons = todo.pop()
        ck = frozenset(cons)
        if ck in seen:
            continue
        seen.add(ck)
        try:
            ex = Execution(prog, variables, preset, cons).run()
        except Infeasible:
            continue
        n += 1
        yield ex, cons
        decided = set(ck) | {(b, a) for a, b in ck}
        rev = [((b, a), v) for a, b, v in ex.races() if (b, a) not in decided]
        for c, _ in rev:
            todo.append(cons + (c,))
        # the extreme orders first: everything that races on one variable the other way round
        for v in sorted({v for _, v in rev}):
            grp = tuple(c for c, w in rev if w == v)
            if len(grp) > 1:
                todo.append(cons + grp)
