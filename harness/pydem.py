"""Random decomposed error models in text form with their reference graph and, for correlated decoding, the implied weights."""
import math

import numpy as np

from pymodel import Ref, mask_of


def llr(p):
    return math.log((1 - p) / p)


def xor(a, b):
    return a * (1 - b) + b * (1 - a)


class Model:
    def __init__(self):
        self.lines = []
        self.errors = []  # (p, [(key, fault ids)])
        self.num_dets = 0
        self.num_obs = 0

    @property
    def text(self):
        return "".join(x + "\n" for x in self.lines)


def generate(g, max_dets=6, max_errors=9, max_edges=10, correlated=True, many_obs=False):
    m = Model()
    n = g.range(1, max_dets)
    nobs = g.pick([1, 3, 9] + ([65, 80] if many_obs else []))
    keys = []
    obs_of = {}
    offset = 0

    def component(used):
        for _ in range(4):
            if keys and g.chance(1, 2):
                k = g.pick(keys)
                if k[0] < offset:
                    continue
            else:
                u = offset + g.choice(n)
                v = None if g.chance(1, 4) else offset + g.choice(n)
                if v == u:
                    v = None
                k = Ref.key(u, v)
                if k not in keys and len(keys) >= max_edges:
                    continue
            if k in used:
                continue
            if k not in obs_of:
                obs_of[k] = sorted(set(g.choice(nobs) for _ in range(g.choice(3))))
            return k
        return None

    def show(k, obs):
        ds = ["D%d" % (x - offset) for x in k if x is not None]
        g.shuffle(ds)
        return " ".join(ds + ["L%d" % o for o in obs])

    for _ in range(1 + g.choice(max_errors)):
        kind = g.weighted([12, 1, 1, 1])
        if kind == 1:
            d = g.choice(n)
            m.lines.append("detector D%d" % d)
            m.num_dets = max(m.num_dets, offset + d + 1)
            continue
        if kind == 2:
            o = g.choice(nobs)
            m.lines.append("logical_observable L%d" % o)
            m.num_obs = max(m.num_obs, o + 1)
            continue
        if kind == 3 and offset < 3:
            s = g.range(1, 2)
            m.lines.append("shift_detectors %d" % s)
            offset += s
            continue
        p = g.range(1, 49) / 100.0
        comps = []
        for _ in range([1, 2, 3][g.weighted([3, 3, 1])]):
            k = component([x[0] for x in comps])
            if k is not None:
                comps.append((k, obs_of[k]))
                if k not in keys:
                    keys.append(k)
        if not comps:
            continue
        m.lines.append("error(%g) %s" % (p, " ^ ".join(show(k, o) for k, o in comps)))
        m.errors.append((p, comps))
        for k, o in comps:
            for x in k:
                if x is not None:
                    m.num_dets = max(m.num_dets, x + 1)
            for x in o:
                m.num_obs = max(m.num_obs, x + 1)
    if not correlated and g.chance(1, 4):
        m.lines.append("error(0) D0 L%d" % g.choice(nobs))
        m.num_dets = max(m.num_dets, offset + 1)
        m.num_obs = max(m.num_obs, int(m.lines[-1].split("L")[1]) + 1)
    return m


def reference(m):
    """Graph of the model: independent combination per edge, fault ids of the first component."""
    r = Ref(m.num_dets, m.num_obs)
    ps, fs = {}, {}
    for p, comps in m.errors:
        for k, o in comps:
            fs.setdefault(k, set(o))
            ps[k] = xor(ps[k], p) if k in ps else p
    for k, p in ps.items():
        r.add(k[0], k[1], fs[k], llr(p), p)
    r.num_nodes = max(r.num_nodes, m.num_dets)
    r.fids = m.num_obs
    return r


def implied_weights(m, ref):
    idx = {k: i for i, k in enumerate(ref.edges)}
    joint, marg = {}, [0.0] * len(idx)
    for p, comps in m.errors:
        for a, _ in comps:
            marg[idx[a]] = xor(marg[idx[a]], p)
            for b, _ in comps:
                if a != b:
                    q = (idx[a], idx[b])
                    joint[q] = xor(joint.get(q, 0.0), p)
    out = [dict() for _ in idx]
    for (a, b), p in joint.items():
        out[a][b] = llr(min(0.5, p / marg[a]))
        ref.extra_max = max(ref.extra_max, abs(out[a][b]))
    return out


def subset_sums(ws):
    t = np.zeros(1)
    for w in ws:
        t = np.concatenate([t, t + w])
    return t


class Correlated:
    """All answers two-pass correlated matching may give for a syndrome."""

    def __init__(self, m, ref):
        self.ref = ref
        self.implied = implied_weights(m, ref)
        self.synd, self.w, self.fm = ref.tables()
        self.w0 = [e[1] for e in ref.edges.values()]
        mx = max([abs(x) for x in self.w0] + [abs(x) for d in self.implied for x in d.values()] + [0.0])
        self.tol = (mx / (1 << 24) + 1e-12) * (4 * len(self.w0) + 8) + 1e-12

    def answers(self, events):
        s = 0
        for e in events:
            s ^= 1 << int(e)
        ex = np.nonzero(self.synd == (np.uint64(s) if self.synd.dtype == np.uint64 else s))[0]
        if len(ex) == 0:
            return None
        best = self.w[ex].min()
        out = []
        for f in ex[self.w[ex] <= best + self.tol]:
            w = list(self.w0)
            for i in range(len(w)):
                if int(f) >> i & 1:
                    for j, x in self.implied[i].items():
                        w[j] = min(w[j], x)
            w2 = subset_sums(w)[ex]
            b = w2.min()
            out.append((float(b), set(int(x) for x in self.fm[ex][w2 <= b + 2 * self.tol]),
                        set(int(x) for x in ex[w2 <= b + 2 * self.tol]), w != self.w0))
        return out
