"""Drives the real HMC sampler with owned randomness and explicit state (all variables of the graph)."""
import numpy as np

import noise


def session(tf):
    from tensorflow.core.protobuf import config_pb2
    c = config_pb2.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
    c.graph_options.rewrite_options.disable_meta_optimizer = True
    return tf.Session(config=c)


class State(object):
    """Save and restore of every variable of the graph."""

    def __init__(self, tf, sess):
        self.sess = sess
        self.vars = tf.global_variables()
        self.ph = [tf.placeholder(v.dtype.base_dtype, v.get_shape()) for v in self.vars]
        self.assign = tf.group(*[v.assign(p) for v, p in zip(self.vars, self.ph)])
        # v.value()/read_value both yield the current content when nothing else runs
        self.reads = [v.read_value() if hasattr(v, "read_value") else v for v in self.vars]

    def get(self):
        return [np.array(x) for x in self.sess.run(self.reads)]

    def set(self, vals):
        self.sess.run(self.assign, dict(zip(self.ph, vals)))

    @staticmethod
    def key(vals):
        return tuple(np.round(np.asarray(v, np.float64), 4).tobytes() for v in vals)


class HMCRun(object):
    FIELDS = ["samples", "acceptance_rate", "updated_step_size", "init_momentum", "orig_hamiltonian", "hamiltonian", "orig_log_prob",
              "log_prob"]

    def __init__(self, tf, zs, target, chain, kw, flags=("none", "none"), meta=False, order=None, feeds=None, var_shape=None):
        """flags: 'none', 'ph', 'true', 'false' for step size and mass adaptation; feeds: extra kw given as placeholders"""
        self.tf, self.T, self.chain = tf, target, tuple(chain)
        self.names = list(order or target.names)
        self.vars = {k: tf.Variable(tf.zeros(self.chain + tuple(target.data[k])), name=k) for k in self.names}
        self.fl = {}
        args = dict(kw)
        for nm, f in zip(("adapt_step_size", "adapt_mass"), flags):
            if f == "ph":
                args[nm] = self.fl[nm] = tf.placeholder(tf.bool, [])
            elif f != "none":
                args[nm] = f == "true"
        self.extra = {}
        for k, v in (feeds or {}).items():
            args[k] = tf.placeholder(tf.int32 if k == "n_leapfrogs" else tf.float32, [])
            self.extra[args[k]] = v
        obs = {k: tf.constant(v) for k, v in target.obs.items()}
        hmc = zs.HMC(**args)
        if meta:
            target.chain = self.chain
            lj = target.meta(tf, zs)
        else:
            lj = target.tf_log_joint(tf)
        self.op, self.info = hmc.sample(lj, observed=obs, latent={k: self.vars[k] for k in self.names})
        tens = []
        for f in self.FIELDS:
            x = getattr(self.info, f)
            tens += list(x.values()) if isinstance(x, dict) else [x]
        self.sess = session(tf)
        self.state = State(tf, self.sess)
        self.sess.run(tf.global_variables_initializer(), self.extra)
        mom = [self.info.init_momentum[k] for k in self.names]
        self.mops, o1 = noise.random_ops(mom)
        allops, o2 = noise.random_ops([self.op] + tens)
        self.uops = [o for o in allops if o not in self.mops]
        self.other = o1 + o2
        fd = self.feed()
        sv = self.state.get()
        self.mshape = [np.shape(x) for x in self.sess.run([o.outputs[0] for o in self.mops], fd)]
        self.ushape = [np.shape(x) for x in self.sess.run([o.outputs[0] for o in self.uops], fd)]
        self.state.set(sv)
        self.n_noise = int(sum(np.prod(s, dtype=int) for s in self.mshape))
        self.n_u = int(sum(np.prod(s, dtype=int) for s in self.ushape))
        self.setters = {k: tf.placeholder(tf.float32, self.vars[k].get_shape()) for k in self.names}
        self.setop = tf.group(*[self.vars[k].assign(self.setters[k]) for k in self.names])
        self.fetch = {f: getattr(self.info, f) for f in self.FIELDS}

    def owned(self, cx):
        kinds = sorted(noise.KINDS[o.type] for o in self.mops)
        cx.check(not self.other, "random numbers of an unknown kind: %r" % (self.other,))
        cx.check(all(k == "normal" for k in kinds), "momenta are not drawn from normal random numbers: %r" % kinds)
        cx.check(all(noise.KINDS[o.type] == "uniform" for o in self.uops), "acceptance draws are not uniform")
        n = sum(int(np.prod(self.chain + tuple(d), dtype=int)) for d in self.T.data.values())
        cx.check(self.n_noise == n, "momenta of %d elements are made of %d random numbers" % (n, self.n_noise))
        c = int(np.prod(self.chain, dtype=int))
        cx.check(self.n_u == c, "%d chains use %d acceptance draws" % (c, self.n_u))

    def feed(self, on=(False, False)):
        f = dict(self.extra)
        for nm, v in zip(("adapt_step_size", "adapt_mass"), on):
            if nm in self.fl:
                f[self.fl[nm]] = bool(v)
        return f

    def setq(self, q):
        self.sess.run(self.setop, {self.setters[k]: q[k] for k in self.names})

    def getq(self):
        return dict(zip(self.names, [np.array(x) for x in self.sess.run([self.vars[k] for k in self.names])]))

    def noisefeed(self, nv, u):
        """nv: flat vector of normal noise, u: flat vector of uniforms (chain order)"""
        f, i = {}, 0
        for o, s in zip(self.mops, self.mshape):
            n = int(np.prod(s, dtype=int))
            f[o.outputs[0]] = np.asarray(nv[i:i + n], np.float32).reshape(s)
            i += n
        i = 0
        for o, s in zip(self.uops, self.ushape):
            n = int(np.prod(s, dtype=int))
            f[o.outputs[0]] = np.asarray(u[i:i + n], np.float32).reshape(s)
            i += n
        return f

    def step(self, nv, u, on=(False, False)):
        fd = self.feed(on)
        fd.update(self.noisefeed(nv, u))
        _, r = self.sess.run([self.op, self.fetch], fd)
        return r

    def blind(self, nv, u, on=(False, False), fields=()):
        """runs the sampling operation with some of the information only"""
        fd = self.feed(on)
        fd.update(self.noisefeed(nv, u))
        self.sess.run([self.op] + [self.fetch[f] for f in fields], fd)

    def momentum_map(self, on=(False, False)):
        """(offset, Jacobian) of the momenta with respect to the normal noise, in the current state (restored)"""
        sv = self.state.get()
        u = np.full(max(self.n_u, 1), 0.999)
        rows = []
        for i in range(-1, self.n_noise):
            e = np.zeros(self.n_noise)
            if i >= 0:
                e[i] = 1.0
            fd = self.feed(on)
            fd.update(self.noisefeed(e, u))
            m = self.sess.run(self.info.init_momentum, fd)
            rows.append(np.concatenate([np.asarray(m[k], np.float64).ravel() for k in self.names]))
            self.state.set(sv)
        off = rows[0]
        return off, np.array([r - off for r in rows[1:]]).T

    def law(self, cx, mass, on=(False, False)):
        """given the noise, the momenta are N(0, mass), independent over chains, latents and elements"""
        off, J = self.momentum_map(on)
        m = np.concatenate([np.broadcast_to(mass[k], self.chain + tuple(self.T.data[k])).ravel() for k in self.names])
        cx.close(off, np.zeros(len(off)), "mean of the momenta")
        cx.close(J.dot(J.T), np.diag(m), "covariance of the momenta", rtol=2e-3, atol=1e-5 * max(1, m.max()))
        cx.step(len(off) + 1)
