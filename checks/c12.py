"""C12: the HMC transition on the real code, over grids of states, momenta and acceptance draws, against the documented transition."""
import itertools

import numpy as np

TECHNIQUE = ("exhaustive enumeration of grids of positions x momenta x acceptance draws (including both sides of the acceptance "
             "threshold) and of accept/reject histories, driven through the real sampler with owned randomness; oracle: an explicit "
             "float64 model of the transition, replayed step by step (every model trace is validated on the implementation)")
LEVEL_NOTE = "bounded: grids of positions and momenta, up to 5 leapfrog steps, up to 4 chains in joint patterns; float32 tolerance"
RULE = "a case is a target density x chain shape x sampler settings x how arguments are given x latent order"
ASSUMPTIONS = ["session.run with fed random numbers behaves as with drawn ones",
               "the target densities used (Gaussian, coupled, half line, quartic, with a wall and with a pole) stand for all differentiable log joints"]
BOUNDS = {"quick": "8 targets (1-2 latents, 0-2 data axes), 0-2 chain axes, 1/2/3/5 leapfrog steps, steps 0.1-1e20, all grid "
                   "combinations of 2-5 positions x 2-5 momenta per element as chains; all 4^k acceptance patterns for k<=4 "
                   "chains; histories of depth 3",
          "thorough": "as quick with up to 13 leapfrog steps, more step sizes and histories of depth 5"}

F32 = np.float32


def cases(tier):
    deep, more = True, tier == "thorough"
    out = []
    Ls = [1, 2, 3, 4, 5, 8, 13] if more else [1, 2, 3, 5]
    for t in ("gauss", "iso", "pair", "deep", "twin"):
        for L in Ls:
            for eps in ([0.1, 0.3, 0.7] if more else [0.1, 0.5]):
                out.append({"kind": "grid", "target": t, "L": L, "eps": eps})
    for t in ("half", "quartic"):
        for L in Ls:
            for eps in (0.3, 1.5, 30., 1e10, 1e20):
                out.append({"kind": "grid", "target": t, "L": L, "eps": eps})
    for t in ("pole", "wall"):
        for L in Ls[:3]:
            out.append({"kind": "grid", "target": t, "L": L, "eps": 0.7})
        out.append({"kind": "history", "target": t, "L": 1, "eps": 0.8, "depth": 3})
    for t in ("gauss", "pair", "deep", "twin"):
        for chain in ([], [1], [2], [3], [2, 2] if deep else [1, 2]) + (([4],) if deep else ()):
            out.append({"kind": "accept", "target": t, "chain": chain, "L": 2, "eps": 0.9 if t != "deep" else 0.7})
    for t in ("half", "quartic"):
        out.append({"kind": "accept", "target": t, "chain": [3], "L": 2, "eps": 1.0})
    for t in ("gauss", "pair"):
        for how in ("tensor", "placeholder", "default"):
            out.append({"kind": "args", "target": t, "how": how})
    out.append({"kind": "args", "target": "pair", "how": "meta"})
    out.append({"kind": "args", "target": "pair", "how": "order"})
    for t in ("gauss", "pair", "quartic"):
        for L in ([1, 3] if more else [2]):
            out.append({"kind": "history", "target": t, "L": L, "eps": 0.6, "depth": 5 if more else 3})
    for t in ("iso", "pair"):
        for mci in (0, 2, 4):
            out.append({"kind": "adapted", "target": t, "mci": mci})
    out.append({"kind": "badstart"})
    return out


def weight(c):
    return {"grid": 1, "accept": 1.5 + (2 if len(c.get("chain", [])) else 0), "args": 1, "history": 3, "adapted": 4,
            "badstart": 0.7}[c["kind"]]


def grids(T, deep):
    """flat position and momentum-noise grids: lists of vectors over all elements of one chain"""
    n = sum(int(np.prod(d, dtype=int)) for d in T.data.values())
    if T.name == "half":
        qs, ps = [0.2, 1.0, 3.0], [-1.5, -0.2, 0.6, 2.0]
    elif T.name in ("pole", "wall"):
        qs, ps = [-1.5, 0.0, 1.0], [-2.0, -0.4, 0.7, 3.1]
    elif n == 1:
        qs, ps = [-1.5, -0.3, 0.0, 0.9, 2.5], [-2.0, -0.4, 0.0, 0.7, 1.6]
    elif n == 2:
        qs, ps = [-1.2, 0.4, 1.9], [-1.1, 0.3, 1.7]
    elif n == 3:
        qs, ps = ([-1.2, 0.4, 1.3] if deep else [-0.9, 1.3]), [-1.1, 0.8]
    else:
        qs, ps = [-0.9, 1.3], [-1.1, 0.8]
    return [(q, p) for q in itertools.product(qs, repeat=n) for p in itertools.product(ps, repeat=n)]


def unflat(T, names, rows, chain):
    """rows [C, n] in the order of names -> dict of arrays chain + data"""
    rows = np.asarray(rows, F32)
    out, i = {}, 0
    for k in names:
        d = T.data[k]
        n = int(np.prod(d, dtype=int))
        out[k] = rows[:, i:i + n].reshape(tuple(chain) + tuple(d))
        i += n
    return out


def f64(d):
    return {k: np.asarray(v, np.float64) for k, v in d.items()}


def compare(cx, r, want, tag, loose=1.0, finite_only=True, const=0.0):
    """r: fetched info; want: reference result"""
    rt, at = 2e-3 * loose, 2e-4 * loose
    big = 1e6
    cx.close(r["orig_log_prob"], want["orig_log_prob"], tag + ": orig_log_prob", rt, at)
    cx.close(r["orig_hamiltonian"], want["orig_hamiltonian"], tag + ": orig_hamiltonian", rt, at)
    h = np.asarray(want["hamiltonian"])
    sel = np.isfinite(h) & (np.abs(h) < big)
    got = np.asarray(r["hamiltonian"], np.float64)
    cx.check(got.shape == h.shape, tag + ": hamiltonian has shape %r, expected %r" % (got.shape, h.shape))
    cx.close(got[sel], h[sel], tag + ": hamiltonian", rt * 2, at * 5)
    cx.close(r["acceptance_rate"], want["acceptance_rate"], tag + ": acceptance rate", 0, 4e-3 * loose)
    cx.close(r["log_prob"], want["log_prob"], tag + ": log_prob", rt * 2, at * 5)
    cx.check(set(r["samples"]) == set(want["samples"]), tag + ": samples of %r" % sorted(r["samples"]))
    for k, v in want["samples"].items():
        cx.close(r["samples"][k], v, tag + ": sample of " + k, rt, at)
    cx.close(r["updated_step_size"], want["updated_step_size"], tag + ": updated_step_size", 1e-3 * loose, 0)


def one(cx, H, ref, q, nv, u, on=(False, False), tag="", loose=1.0):
    """one transition of both, from the current state; q is the current position (float32)"""
    ref.begin(f64(q), *on)
    u = np.asarray(u, F32)
    r = H.step(nv, u, on)
    p = r["init_momentum"]
    cx.check(set(p) == set(H.names), tag + ": init_momentum of %r" % sorted(p))
    for k in H.names:
        cx.check(np.shape(p[k]) == H.chain + tuple(H.T.data[k]), tag + ": init_momentum of %s has shape %r" % (k, np.shape(p[k])))
    want = ref.finish(f64(q), f64(p), np.asarray(u, np.float64).reshape(H.chain), on[0], r["acceptance_rate"])
    compare(cx, r, want, tag, loose)
    v = H.getq()
    for k in H.names:
        cx.check(np.array_equal(v[k], np.asarray(r["samples"][k]), equal_nan=True), tag + ": variable %s differs from the reported sample" % k,
                 var=v[k], sample=r["samples"][k])
        rej = ~want["accepted"]
        cx.check(np.array_equal(v[k][rej], np.asarray(q[k], F32)[rej]), tag + ": a rejected chain of %s moved" % k, before=q[k], after=v[k])
        cx.check(np.all(np.isfinite(v[k])), tag + ": non-finite sample of " + k)
    cx.step()
    cx.trace()
    cx.state(tuple(v[k].tobytes() for k in H.names))
    return r, want


def run_case(case, cx):
    import tensorflow as tf
    import zhusuan as zs
    from hmcref import HMCRef, Target
    from hmcrun import HMCRun
    g = tf.Graph()
    deep = True
    with g.as_default():
        kind = case["kind"]
        if kind == "badstart":
            return badstart(tf, zs, cx)
        T = Target(case["target"])
        n = sum(int(np.prod(d, dtype=int)) for d in T.data.values())
        if kind == "grid":
            G = grids(T, deep)
            C = len(G)
            H = HMCRun(tf, zs, T, [C], {"step_size": case["eps"], "n_leapfrogs": case["L"]})
            H.owned(cx)
            ref = HMCRef(T, [C], case["eps"], case["L"])
            q = unflat(T, H.names, [a for a, _ in G], [C])
            # noise laid out per random op: find the layout through the momentum reported (the law is checked in 'accept')
            nv = np.concatenate([unflat(T, H.names, [b for _, b in G], [C])[k].ravel() for k in H.names])
            loose = 1.0 if case["eps"] <= 1 else 3.0
            H.setq(q)
            r, want = one(cx, H, ref, q, nv, np.zeros(C), tag="draw 0", loose=loose)
            a = np.asarray(r["acceptance_rate"], np.float64)
            cx.check(np.all((a >= 0) & (a <= 1)), "acceptance rates outside [0, 1]", a=a)
            cx.note("chains", C)
            cx.note("rejected at draw 0", int((a == 0).sum()))
            # reversibility on the implementation: start from the proposal with the momentum reversed
            ok = want["accepted"] & np.isfinite(want["orig_hamiltonian"])
            if case["eps"] <= 1 and ok.any():
                start = {k: np.where(ok.reshape(ok.shape + (1,) * (v.ndim - 1)), want["prop"][k], q[k]).astype(F32) for k, v in q.items()}
                pm = {k: np.where(ok.reshape(ok.shape + (1,) * (v.ndim - 1)), -want["prop_p"][k], 0.) for k, v in q.items()}
                H.setq(start)
                nv2 = np.concatenate([pm[k].ravel() for k in H.names])
                r2 = H.step(nv2, np.zeros(C))
                for k in q:
                    good = ok & (np.asarray(r2["acceptance_rate"]) > 0)
                    cx.check(np.array_equal(good, ok), "the reverse move is impossible")
                    cx.close(np.asarray(r2["samples"][k])[ok], q[k][ok], "the reversed trajectory of %s does not return" % k, 5e-3, 5e-3)
                cx.step()
            for u in (0.999999, 0.5):
                H.setq(q)
                one(cx, H, ref, q, nv, np.full(C, u), tag="draw %g" % u, loose=loose) if not near(a, u) else None
            return
        if kind == "accept":
            chain = case["chain"]
            C = int(np.prod(chain, dtype=int))
            H = HMCRun(tf, zs, T, chain, {"step_size": case["eps"], "n_leapfrogs": case["L"]})
            H.owned(cx)
            ref = HMCRef(T, chain, case["eps"], case["L"])
            H.law(cx, {k: np.ones((1,) * len(chain) + tuple(d)) for k, d in T.data.items()})
            G = grids(T, False)
            G = [G[(7 * i + 3) % len(G)] for i in range(max(C, 1) * 3)]
            for salt in range(2):
                rows = [G[(i + salt * C) % len(G)] for i in range(C)]
                q = unflat(T, H.names, [a for a, _ in rows], chain)
                nv = np.concatenate([unflat(T, H.names, [b for _, b in rows], chain)[k].ravel() for k in H.names])
                H.setq(q)
                r0, w0 = one(cx, H, ref, q, nv, np.zeros(C), tag="probe")
                a = np.asarray(r0["acceptance_rate"], np.float64).ravel()
                opts = []
                for i in range(C):
                    o = {0.0, 0.9999999}
                    if 0 < a[i] < 1:
                        o |= {a[i] * 0.97, min(a[i] * 1.03, 0.9999999)}
                    elif a[i] == 0:
                        o |= {1e-30}
                    opts.append(sorted(o))
                base = None
                outs = {}
                for u in itertools.product(*opts):
                    H.setq(q)
                    r, _ = one(cx, H, ref, q, nv, np.array(u), tag="draws %r with rates %r" % (list(u), a.tolist()))
                    for i in range(C):
                        key = (i, u[i])
                        val = b"".join(np.ascontiguousarray(np.asarray(r["samples"][k]).reshape((C, -1))[i]).tobytes() for k in H.names)
                        cx.check(outs.setdefault(key, val) == val, "chain %d depends on the acceptance draws of other chains" % i)
                # isolation: change one chain's position and momentum at a time
                for i in range(C):
                    alt = G[(i + 5) % len(G)]
                    rows2 = list(rows)
                    rows2[i] = alt
                    q2 = unflat(T, H.names, [a_ for a_, _ in rows2], chain)
                    nv2 = np.concatenate([unflat(T, H.names, [b for _, b in rows2], chain)[k].ravel() for k in H.names])
                    H.setq(q2)
                    r, _ = one(cx, H, ref, q2, nv2, np.zeros(C), tag="other chain changed")
                    for k in H.names:
                        x, y = np.asarray(r["samples"][k]).reshape(C, -1), np.asarray(r0["samples"][k]).reshape(C, -1)
                        keep = [j for j in range(C) if j != i]
                        cx.close(x[keep], y[keep], "chain moved by another chain", 1e-6, 1e-6)
            return
        if kind == "args":
            how, chain = case["how"], [3]
            kw, feeds, L, eps = {}, {}, 3, 0.4
            if how == "tensor":
                kw = {"step_size": tf.constant(eps), "n_leapfrogs": tf.constant(L)}
            elif how == "placeholder":
                kw, feeds = {"step_size": eps}, {"n_leapfrogs": L}
            elif how == "default":
                L, eps = 10, 1.0
            else:
                kw = {"step_size": eps, "n_leapfrogs": L}
            H = HMCRun(tf, zs, T, chain, kw, feeds=feeds, meta=how == "meta", order=T.names[::-1] if how == "order" else None)
            H.owned(cx)
            G = grids(T, False)
            rows = [G[(11 * i + 2) % len(G)] for i in range(3)]
            q = unflat(T, H.names, [a for a, _ in rows], chain)
            nv = np.concatenate([unflat(T, H.names, [b for _, b in rows], chain)[k].ravel() for k in H.names])
            for LL in ([L] if how != "placeholder" else [1, 2, 3, 5]):
                ref = HMCRef(T, chain, eps, LL, const=T.meta_const if how == "meta" else 0.)
                for k in H.extra:
                    H.extra[k] = LL
                H.setq(q)
                one(cx, H, ref, q, nv, np.array([0., 0.9999, 0.]), tag="L=%d" % LL)
            return
        if kind == "history":
            chain = [2]
            H = HMCRun(tf, zs, T, chain, {"step_size": case["eps"], "n_leapfrogs": case["L"]})
            H.owned(cx)
            ref = HMCRef(T, chain, case["eps"], case["L"])
            G = grids(T, False)
            rows = [G[5 % len(G)], G[len(G) // 2]]
            q0 = unflat(T, H.names, [a for a, _ in rows], chain)
            noises = [np.concatenate([unflat(T, H.names, [G[(3 * i + j * 7 + 1) % len(G)][1] for j in range(2)], chain)[k].ravel()
                                      for k in H.names]) for i in range(2)]
            H.setq(q0)
            root = (H.state.get(), ref.save(), q0)

            def rec(node, d, path):
                for ni in range(len(noises)):
                    for u in itertools.product((0.0, 0.9999999), repeat=2):
                        H.state.set(node[0])
                        ref.load(node[1])
                        r, w = one(cx, H, ref, node[2], noises[ni], np.array(u), tag="after %r" % (path + [(ni, u)],), loose=1 + d)
                        if d + 1 < case["depth"]:
                            rec((H.state.get(), ref.save(), {k: np.asarray(r["samples"][k]) for k in H.names}), d + 1, path + [(ni, u)])
            rec(root, 0, [])
            return
        if kind == "adapted":
            # adapt for a while, switch off, then the transition must be the plain one with the adapted step size and mass
            chain, mci = [4], case["mci"]
            H = HMCRun(tf, zs, T, chain, {"step_size": 0.5, "n_leapfrogs": 2, "mass_collect_iters": mci}, flags=("ph", "ph"))
            H.owned(cx)
            ref = HMCRef(T, chain, 0.5, 2, True, adapt_mass=True, mass_collect_iters=mci)
            G = grids(T, False)
            rows = [G[(13 * i + 4) % len(G)] for i in range(4)]
            q = unflat(T, H.names, [a for a, _ in rows], chain)
            H.setq(q)
            rs = np.random.RandomState(3)
            for it in range(5):
                nv = rs.randn(H.n_noise)
                r, w = one(cx, H, ref, q, nv, np.zeros(4), (True, True), tag="adapting iteration %d" % it, loose=3)
                q = {k: np.asarray(r["samples"][k]) for k in H.names}
            sv, rv = H.state.get(), ref.save()
            ref.begin(f64(q), False, False)
            mass = ref.mass
            ref.load(rv)
            H.law(cx, mass)
            H.state.set(sv)
            for it in range(3):
                for u in ([0, 0, 0, 0], [0, 0.9999999, 0, 0.9999999]):
                    a, b = H.state.get(), ref.save()
                    one(cx, H, ref, q, rs.randn(H.n_noise), np.array(u, float), (False, False), tag="frozen iteration %d" % it, loose=5)
                    if u[1] == 0:
                        H.state.set(a)
                        ref.load(b)
                q = {k: v for k, v in H.getq().items()}


def near(a, u):
    return bool(np.any(np.abs(a - u) < 0.01 * max(u, 1e-3)))


def badstart(tf, zs, cx):
    """a chain whose log density is undefined at the start is an error; latents that are not variables are, too"""
    from hmcref import Target
    from hmcrun import HMCRun
    T = Target("half")
    H = HMCRun(tf, zs, T, [2], {"step_size": 0.5, "n_leapfrogs": 1})
    for bad in (-1.0, 0.0, np.nan):
        H.setq({"x": np.array([1.0, bad], F32)})
        try:
            H.step(np.zeros(2), np.zeros(2))
        except tf.errors.InvalidArgumentError:
            cx.step()
        else:
            cx.fail("no error although the log density of the start %r is undefined" % bad)
    for lat in (tf.zeros([2]), np.zeros([2], F32)):
        try:
            zs.HMC(0.1, 2).sample(T.tf_log_joint(tf), observed={}, latent={"x": lat})
        except TypeError:
            cx.step()
        else:
            cx.fail("a latent that is not a variable was accepted")
    cx.state("bad")
