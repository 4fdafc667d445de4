"""Checks of the decoding calls of the Python API against the exhaustive oracle, shared by several properties."""
import itertools

import numpy as np

import pymatching
from pypbt import check
from pymodel import Ref, build, check_decode, compare_edges, gen_events, gen_ref, gen_weight, raises

INF = float("inf")


def syndrome(g, ref, ev):
    """A syndrome vector of an accepted length for the events."""
    top = max(ev, default=-1) + 1
    w = g.range(max(ref.num_detectors, top), ref.num_nodes)
    z = np.zeros(w, dtype=np.uint8)
    z[list(ev)] = 1
    return z


def distances(ref):
    """All-pairs distances of the detectors, and to the boundary, for non-negative weights."""
    n = ref.num_nodes
    d = [[INF] * (n + 1) for _ in range(n + 1)]  # index n: the boundary
    for i in range(n + 1):
        d[i][i] = 0.0
    for (u, v), e in ref.edges.items():
        a = n if u in ref.boundary else u
        b = n if v is None or v in ref.boundary else v
        if a != b:
            d[a][b] = d[b][a] = min(d[a][b], e[1])
    # paths do not pass through the boundary
    for k in range(n):
        for i in range(n + 1):
            if d[i][k] < INF:
                for j in range(n + 1):
                    if d[i][k] + d[k][j] < d[i][j]:
                        d[i][j] = d[i][k] + d[k][j]
    return d


def check_edges(m, ref, tables, ev, z, what="", **kw):
    """decode_to_edges_array of the syndrome."""
    opt = ref.optimum(tables, ev)
    if opt is None:
        raises(ValueError, lambda: m.decode_to_edges_array(z, **kw), what + " decode_to_edges_array of an infeasible syndrome")
        return None
    a = m.decode_to_edges_array(z, **kw)
    check(a.ndim == 2 and a.shape[1] == 2 and a.dtype == np.int64, what, "edges array of shape", a.shape, a.dtype)
    seen, synd, w = set(), set(), 0.0
    for u, v in a.tolist():
        check(u >= 0, what, "edge", (u, v))
        k = Ref.key(u, None) if v == -1 else Ref.key(u, v)
        if v == -1 and k not in ref.edges:
            # the boundary may be a node of the user's graph
            ks = [Ref.key(u, b) for b in ref.boundary if Ref.key(u, b) in ref.edges]
            check(ks, what, "edge", (u, v), "is not in the graph")
            k = min(ks, key=lambda x: ref.edges[x][1])
        elif v == -1:
            # lightest of the boundary edges of the node
            ks = [k] + [Ref.key(u, b) for b in ref.boundary if Ref.key(u, b) in ref.edges]
            k = min(ks, key=lambda x: ref.edges[x][1])
        check(k in ref.edges, what, "edge", (u, v), "is not in the graph")
        check(k not in seen, what, "edge", (u, v), "is listed twice")
        seen.add(k)
        w += ref.edges[k][1]
        for x in k:
            if x is not None and x not in ref.boundary:
                synd ^= {x}
    want = set(x for x in ev if x not in ref.boundary)
    check(synd == want, what, "edges", a.tolist(), "have events", sorted(synd), "instead of", sorted(want))
    loops = sum(min(0.0, e[1]) for (x, y), e in ref.edges.items() if x == y and x not in ref.boundary)
    if not kw:
        check(abs(w + loops - opt[0]) <= 2 * ref.tolerance(), what, "edges", a.tolist(), "weigh", w, "but the optimum is", opt[0])
    return a, w


def check_pairs(m, ref, tables, ev, z, what=""):
    """decode_to_matched_dets_array and _dict of the syndrome (non-negative weights)."""
    real = sorted(x for x in ev if x not in ref.boundary)
    if any(e[1] < 0 for k, e in ref.edges.items()):
        raises(ValueError, lambda: m.decode_to_matched_dets_array(z), what + " matched events with negative weights")
        raises(ValueError, lambda: m.decode_to_matched_dets_dict(z), what + " matched events with negative weights")
        return
    opt = ref.optimum(tables, ev)
    if opt is None:
        raises(ValueError, lambda: m.decode_to_matched_dets_array(z), what + " matched events of an infeasible syndrome")
        raises(ValueError, lambda: m.decode_to_matched_dets_dict(z), what + " matched events of an infeasible syndrome")
        return
    a = m.decode_to_matched_dets_array(z)
    check(a.ndim == 2 and a.shape[1] == 2 and a.dtype == np.int64, what, "pairs of shape", a.shape, a.dtype)
    d = m.decode_to_matched_dets_dict(z)
    flat = [x for x in a.reshape(-1).tolist() if x != -1]
    check(sorted(flat) == real, what, "pairs", a.tolist(), "do not cover each of", real, "once")
    check(sorted(d) == real, what, "dictionary", d, "does not cover", real)
    want = {}
    dist = distances(ref)
    w = 0.0
    for u, v in a.tolist():
        check(u != -1, what, "pair", (u, v))
        if v == -1:
            want[u] = None
            w += dist[u][ref.num_nodes]
        else:
            want[u], want[v] = v, u
            w += dist[u][v]
    for k, v in d.items():
        check(type(k) is int and (v is None or type(v) is int), what, "dictionary entry", k, v)
        check(v is None or d.get(v) == k, what, "dictionary is not symmetric:", d)
    tol = 2 * ref.tolerance()
    check(abs(w - opt[0]) <= tol, what, "pairs", a.tolist(), "are", w, "apart, but the optimum is", opt[0])
    wd = sum((dist[k][ref.num_nodes] if v is None else dist[k][v] / 2) for k, v in d.items())
    check(abs(wd - opt[0]) <= tol, what, "dictionary", d, "pairs are", wd, "apart, but the optimum is", opt[0])
    check(d == want, what, "dictionary", d, "and array", a.tolist(), "differ")


MODES = ["decode", "edges", "pairs", "batch"]


def run_mode(g, m, ref, tables, mode, ev, what=""):
    z = syndrome(g, ref, ev)
    if mode == "decode":
        check_decode(m, ref, tables, ev, what, z=z)
    elif mode == "edges":
        check_edges(m, ref, tables, ev, z, what)
    elif mode == "pairs":
        check_pairs(m, ref, tables, ev, z, what)
    else:
        opt = ref.optimum(tables, ev)
        a = np.array([z, z])
        if opt is None:
            raises(ValueError, lambda: m.decode_batch(a), what + " batch of infeasible shots")
        else:
            p, w = m.decode_batch(a, return_weights=True)
            check(p.shape == (2, ref.fids), what, "batch predictions of shape", p.shape)
            for i in range(2):
                check(abs(w[i] - opt[0]) <= 2 * ref.tolerance(), what, "batch weight", w[i], "optimum", opt[0])
                mask = sum(1 << int(k) for k in np.nonzero(p[i])[0])
                check(mask in opt[1], what, "batch prediction", p[i].tolist(), "is not that of an optimal solution")


def decode_case(g, c, modes=("decode",), negative=0, infeasible=1, top_fid=6, calls=3, boundary_events=True, **opts):
    """One random graph and a sequence of calls in the given modes. negative / infeasible: chances out of 4."""
    ref = gen_ref(g, negative=g.chance(negative, 4) if negative else False, top_fid=top_fid, **opts)
    if g.chance(1, 6):
        ref.fids += g.choice(3)
    m = build(pymatching, ref)
    c.note(ref.describe())
    compare_edges(m, ref, "built")
    t = ref.tables()
    if any(e[1] < 0 for e in ref.edges.values()):
        c.label("negative")
    nontriv = 0
    for _ in range(1 + g.choice(calls)):
        ev = gen_events(g, ref, not g.chance(infeasible, 4))
        if boundary_events:
            ev = sorted(set(ev) | set(b for b in ref.boundary if g.chance(1, 5)))
        mode = g.pick(list(modes))
        c.note(mode, ev)
        c.label(mode)
        run_mode(g, m, ref, t, mode, ev, mode)
        if [x for x in ev if x not in ref.boundary]:
            nontriv += 1
        if ref.optimum(t, ev) is None:
            c.label("infeasible")
    if nontriv and len(ref.edges) >= 2:
        c.nontrivial = True
