"""Reference model of a matching graph for the Python checks: a plain dictionary of edges and an exhaustive oracle."""
import math

import numpy as np

from pypbt import check

MAXW = (1 << 24) - 1
STRATEGIES = ["disallow", "independent", "smallest-weight", "keep-original", "replace"]


def merged_weight(a, b):
    """Weight of the odd-parity combination of two independent mechanisms of weights a and b."""
    s = math.copysign(1, a) * math.copysign(1, b)
    return s * min(abs(a), abs(b)) + math.log1p(math.exp(-abs(a + b))) - math.log1p(math.exp(-abs(a - b)))


def valid_p(p):
    return 0 <= p <= 1


class Ref:
    def __init__(self, num_nodes=0, min_fids=0):
        self.num_nodes = num_nodes
        self.fids = min_fids
        self.edges = {}  # key -> [fault_ids, weight, probability]
        self.boundary = set()
        self.extra_max = 0.0  # weights of other edges (implied weights) that enter the discretisation

    @staticmethod
    def key(u, v):
        return (u, None) if v is None else (min(u, v), max(u, v))

    def add(self, u, v, fault_ids, weight, p=-1, strategy="disallow"):
        """False if a merge was refused."""
        p = -1 if p is None else p
        fault_ids = set(int(f) for f in fault_ids)
        self.num_nodes = max(self.num_nodes, u + 1, (v if v is not None else 0) + 1)
        k = self.key(u, v)
        if k not in self.edges:
            self.edges[k] = [fault_ids, float(weight), float(p)]
            self._ids(fault_ids)
            return True
        e = self.edges[k]
        if strategy == "disallow":
            return False
        if strategy == "keep-original" or (strategy == "smallest-weight" and weight >= e[1]):
            return True
        if strategy == "independent":
            e[1] = merged_weight(weight, e[1])
            e[2] = p * (1 - e[2]) + e[2] * (1 - p) if valid_p(p) and valid_p(e[2]) else -1.0
        else:
            self.edges[k] = [fault_ids, float(weight), float(p)]
            self._ids(fault_ids)
        return True

    def _ids(self, fault_ids):
        for f in fault_ids:
            self.fids = max(self.fids, f + 1)

    def set_boundary(self, b):
        self.boundary = set(b)
        for n in b:
            self.num_nodes = max(self.num_nodes, n + 1)

    @property
    def num_detectors(self):
        return self.num_nodes - len(self.boundary)

    def describe(self):
        return "nodes=%d boundary=%s fids=%d edges=%s" % (self.num_nodes, sorted(self.boundary), self.fids, [
            (k[0], k[1], sorted(e[0]), e[1], e[2]) for k, e in self.edges.items()])

    # ---------------------------------------------------------------- exhaustive oracle
    def tables(self):
        """Syndrome, weight and fault mask of every set of edges (masks as Python ints in object arrays if wide)."""
        n = len(self.edges)
        assert n <= 16
        dt = np.uint64 if self.num_nodes <= 64 else object
        fd = np.uint64 if self.fids <= 64 else object
        synd = np.zeros(1, dtype=dt)
        w = np.zeros(1)
        fm = np.zeros(1, dtype=fd)
        for (u, v), (f, wt, _) in self.edges.items():
            s = 0
            if u not in self.boundary:
                s ^= 1 << u
            if v is not None and v not in self.boundary:
                s ^= 1 << v
            m = 0
            for x in f:
                m ^= 1 << x
            synd = np.concatenate([synd, synd ^ (np.uint64(s) if dt is np.uint64 else s)])
            w = np.concatenate([w, w + wt])
            fm = np.concatenate([fm, fm ^ (np.uint64(m) if fd is np.uint64 else m)])
        return synd, w, fm

    def tolerance(self):
        ws = [abs(e[1]) for e in self.edges.values()]
        if self.extra_max == 0 and all(x == int(x) for x in ws):
            return 1e-9
        return (len(ws) + 2) * max(ws + [self.extra_max]) / MAXW * 1.01 + 1e-12

    def optimum(self, tables, events):
        """(minimum weight, set of fault masks of the solutions of minimum weight) or None when infeasible."""
        synd, w, fm = tables
        s = 0
        for e in events:
            if e not in self.boundary:
                s ^= 1 << int(e)
        sel = synd == (np.uint64(s) if synd.dtype == np.uint64 else s)
        if not sel.any():
            return None
        ww = w[sel]
        best = ww.min()
        near = ww <= best + 2 * self.tolerance()
        return float(best), set(int(x) for x in fm[sel][near])


def mask_of(vec):
    m = 0
    for k in np.nonzero(np.asarray(vec))[0]:
        m |= 1 << int(k)
    return m


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def compare_edges(m, ref, what=""):
    """The decoder's public view of its graph equals the model."""
    check(m.num_nodes == ref.num_nodes, what, "num_nodes", m.num_nodes, "expected", ref.num_nodes)
    check(set(m.boundary) == ref.boundary, what, "boundary", m.boundary, "expected", ref.boundary)
    check(m.num_detectors == ref.num_detectors, what, "num_detectors", m.num_detectors, "expected", ref.num_detectors)
    check(m.num_fault_ids == ref.fids, what, "num_fault_ids", m.num_fault_ids, "expected", ref.fids)
    check(m.num_edges == len(ref.edges), what, "num_edges", m.num_edges, "expected", len(ref.edges))
    es = m.edges()
    check(len(es) == len(ref.edges), what, "edges() lists", len(es), "expected", len(ref.edges))
    seen = set()
    for u, v, d in es:
        k = ref.key(u, v)
        check(k not in seen, what, "edge listed twice:", k)
        seen.add(k)
        check(k in ref.edges, what, "unexpected edge", k)
        f, w, p = ref.edges[k]
        check(set(d["fault_ids"]) == f, what, "edge", k, "fault_ids", d["fault_ids"], "expected", f)
        check(close(d["weight"], w), what, "edge", k, "weight", d["weight"], "expected", w)
        check(close(d["error_probability"], p if valid_p(p) else -1.0), what, "edge", k, "error_probability",
              d["error_probability"], "expected", p)


def check_accessors(g, m, ref):
    """has_edge and friends agree with the model for present and absent edges, in either orientation."""
    n = ref.num_nodes
    if n == 0:
        return
    for _ in range(4):
        u, v = g.choice(n), g.choice(n)
        k = ref.key(u, v)
        check(m.has_edge(u, v) == (k in ref.edges), "has_edge", u, v, "is", m.has_edge(u, v))
        check(m.has_boundary_edge(u) == ((u, None) in ref.edges), "has_boundary_edge", u)
        if k in ref.edges:
            d = m.get_edge_data(u, v)
            f, w, p = ref.edges[k]
            check(set(d["fault_ids"]) == f and close(d["weight"], w), "get_edge_data", u, v, d, "expected", ref.edges[k])
            if valid_p(p):
                check(close(d["error_probability"], p), "get_edge_data", u, v, d, "expected", p)
            else:
                check(not valid_p(d["error_probability"]), "get_edge_data", u, v, d)
        else:
            raises(ValueError, lambda: m.get_edge_data(u, v), "get_edge_data of a missing edge")
        if (u, None) in ref.edges:
            d = m.get_boundary_edge_data(u)
            f, w, p = ref.edges[(u, None)]
            check(set(d["fault_ids"]) == f and close(d["weight"], w), "get_boundary_edge_data", u, d)
            if valid_p(p):
                check(close(d["error_probability"], p), "get_boundary_edge_data", u, d)
        else:
            raises(ValueError, lambda: m.get_boundary_edge_data(u), "get_boundary_edge_data of a missing edge")


def raises(types, fn, what):
    try:
        r = fn()
    except types:
        return
    check(False, what, "did not raise", types, "but returned", r)


def check_decode(m, ref, tables, events, what="", z=None, **kw):
    """m.decode of the syndrome agrees with the exhaustive oracle. Returns (prediction, weight) or None if infeasible."""
    if z is None:
        z = np.zeros(ref.num_nodes, dtype=np.uint8)
        z[list(events)] = 1
    opt = ref.optimum(tables, events)
    if opt is None:
        raises(ValueError, lambda: m.decode(z, **kw), "%s decode of infeasible events %s" % (what, list(events)))
        return None
    pred, w = m.decode(z, return_weight=True, **kw)
    check(pred.dtype == np.uint8 and pred.shape == (ref.fids,), what, "prediction of shape", pred.shape, pred.dtype)
    check(all(x in (0, 1) for x in pred), what, "prediction is not binary", pred)
    tol = ref.tolerance()
    check(abs(w - opt[0]) <= 2 * tol, what, "events", list(events), "weight", w, "but the minimum is", opt[0])
    check(mask_of(pred) in opt[1], what, "events", list(events), "prediction", list(pred),
          "is not that of a minimum-weight solution:", sorted(opt[1])[:8])
    p2 = m.decode(z, **kw)
    check((p2 == pred).all(), what, "decode without return_weight gives another prediction")
    return pred, w


# -------------------------------------------------------------------- generators
def gen_weight(g, negative=False):
    k = g.weighted([5, 3, 1, 1])
    if k == 0:
        w = float(g.range(0, 6))
    elif k == 1:
        w = g.range(0, 4000) / 1000.0
    elif k == 2:
        w = float(g.range(0, 5000))
    else:
        w = g.range(0, 20) / 3.0
    if negative and g.chance(1, 4):
        w = -w
    return w


def gen_prob(g):
    k = g.weighted([3, 2, 1, 1, 1])
    return [None, g.range(0, 100) / 100.0 if k == 1 else 0.25, 0.0, 1.0, -1.0][k]


def gen_fids(g, top=6):
    if g.chance(1, 5):
        return set()
    if g.chance(1, 25):
        return set(g.range(0, 2 * top) for _ in range(4 + g.choice(7)))
    return set(g.range(0, top) for _ in range(1 + g.choice(3)))


def gen_ref(g, max_nodes=6, max_edges=10, negative=False, top_fid=6, boundary=True, probs=True, selfloops=True):
    """A random graph. With negative weights every node has at most one boundary edge and boundary-boundary edges
    are not negative (the documented domain of exact negative-weight decoding)."""
    n = 1 + g.choice(max_nodes)
    r = Ref(n)
    nb = g.weighted([4, 3, 1, 1]) if boundary else 0
    b = set()
    for _ in range(min(nb, n)):
        b.add(g.choice(n))
    r.set_boundary(b)
    has_b = set()
    for _ in range(g.choice(max_edges + 1)):
        u = g.choice(n)
        v = None if boundary and g.chance(1, 5) else g.choice(n)
        if v == u and not (selfloops and g.chance(1, 8)):
            v = (u + 1) % n
            if v == u:
                v = None if boundary else u
        if r.key(u, v) in r.edges or (v == u and not selfloops):
            continue
        ub, vb = u in b, v is None or v in b
        if negative and (ub != vb):
            d = v if ub else u
            if d in has_b:
                continue
            has_b.add(d)
        w = gen_weight(g, negative and not (ub and vb))
        r.add(u, v, gen_fids(g, top_fid), w, gen_prob(g) if probs else None)
    return r


def gen_events(g, ref, feasible=True):
    """A syndrome: of random edges (feasible), or of random nodes."""
    ev = set()
    ks = list(ref.edges)
    if feasible and ks:
        for _ in range(g.choice(len(ks) + 1)):
            u, v = g.pick(ks)
            for x in (u, v):
                if x is not None and x not in ref.boundary:
                    ev ^= {x}
    else:
        for x in range(ref.num_nodes):
            if x not in ref.boundary and g.chance(1, 3):
                ev.add(x)
    return sorted(ev)


def build(pymatching, ref):
    """The decoder for the model through add_edge and add_boundary_edge."""
    m = pymatching.Matching()
    for (u, v), (f, w, p) in ref.edges.items():
        if v is None:
            m.add_boundary_edge(u, fault_ids=f, weight=w, error_probability=None if p == -1 else p)
        else:
            m.add_edge(u, v, fault_ids=f, weight=w, error_probability=None if p == -1 else p)
    if m.num_nodes < ref.num_nodes or ref.boundary:
        # nodes without edges come into being as boundary nodes
        extra = set(ref.boundary)
        if m.num_nodes < ref.num_nodes:
            m.set_boundary_nodes(extra | {ref.num_nodes - 1})
        m.set_boundary_nodes(extra)
    if ref.fids > m.num_fault_ids:
        m.ensure_num_fault_ids(ref.fids)
    return m
