import math
import warnings

import numpy as np
import stim

import pymatching
from pypbt import check
from pymodel import Ref, build, check_decode, gen_events, gen_ref, gen_weight, mask_of, raises

PROPERTY_ID = "C20"
RULE = ("a case is one graph (loaded edge by edge, from a check matrix or from an error model with correlations) and one batch of "
        "shots decoded alone and in batches with every combination of packing options, in several array encodings; non-trivial "
        "when the batch has at least two different shots with detection events")
warnings.simplefilter("ignore")

SIZES = [1, 2, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 70]
FIDS = [0, 1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 66, 72, 130]


def big_graph(g):
    """A sparse graph with a chosen number of nodes and fault ids, near byte and word boundaries."""
    n = g.pick(SIZES)
    r = Ref(n)
    nb = g.weighted([4, 2, 1, 1])
    b = set()
    for _ in range(min(nb, n)):
        b.add(n - 1 - len(b) if g.chance(1, 2) else g.choice(n))
    r.set_boundary(b)
    nf = g.pick(FIDS)
    for u in range(n):
        if g.chance(3, 4):
            v = u + 1 if u + 1 < n and g.chance(4, 5) else g.choice(n)
            if v != u and r.key(u, v) not in r.edges:
                r.add(u, v, set(g.choice(nf) for _ in range(g.choice(3))) if nf else set(), gen_weight(g))
    for _ in range(g.choice(4)):
        u = g.choice(n)
        if (u, None) not in r.edges:
            r.add(u, None, {nf - 1} if nf else set(), gen_weight(g))
    r.fids = max(r.fids, nf)
    return r


def encode_shots(g, a, c):
    """The same shots as another kind of array."""
    k = g.choice(8)
    c.label("shots-%d" % k)
    if k == 0:
        return a
    if k == 1:
        return a.astype(bool) if a.max(initial=0) <= 1 else a
    if k == 2:
        return a.astype(np.int64)
    if k == 3:
        return np.asfortranarray(a)
    if k == 4:
        w = np.zeros((a.shape[0] * 2, a.shape[1] * 3), dtype=np.uint8)
        w[::2, 1::3] = a
        w[1::2, :] = 1
        return w[::2, 1::3]
    if k == 5:
        return a[::-1].copy()[::-1]
    if k == 6:
        return a.tolist() if a.shape[0] else a
    return a.astype(np.int32)


def encode_single(g, z, c):
    k = g.choice(10)
    c.label("syndrome-%d" % k)
    if k == 0:
        return z
    if k == 1:
        return z.astype(bool)
    if k == 2:
        return [int(x) for x in z]
    if k == 3:
        return [bool(x) for x in z]
    if k == 4:
        return z.astype(g.pick([np.int8, np.int16, np.int32, np.int64, np.uint16, np.uint32, np.uint64]))
    if k == 5:
        return z.astype(float)
    if k == 6:
        w = np.zeros(2 * len(z), dtype=np.uint8)
        w[1::2] = 1
        w[::2] = z
        return w[::2]
    if k == 7:
        return tuple(int(x) for x in z)
    if k == 8:
        return [np.uint8(x) for x in z]
    return z[::-1].copy()[::-1]


def dem_graph(g):
    """Error-model text whose errors come with decompositions, so that correlated decoding applies."""
    n = g.range(2, 5)
    lines = []
    nf = g.pick([1, 2, 7, 9, 65])

    def comp():
        u = g.choice(n)
        t = "D%d" % u
        if g.chance(2, 3):
            v = g.choice(n)
            if v != u:
                t += " D%d" % v
        return t, frozenset(t.split())

    def comp_obs():
        t, k = comp()
        if g.chance(1, 2):
            t += " L%d" % g.choice(nf)
        return t, k

    for _ in range(2 + g.choice(5)):
        p = g.range(1, 49) / 100.0
        parts = [comp_obs()]
        while len(parts) < 3 and g.chance(1, 2):
            q = comp_obs()
            if q[1] not in [x[1] for x in parts]:
                parts.append(q)
        lines.append("error(%g) %s" % (p, " ^ ".join(x[0] for x in parts)))
    lines.append("logical_observable L%d" % (nf - 1))
    lines.append("detector D%d" % (n - 1))
    return "\n".join(lines) + "\n"


def property(g, c):
    kind = g.weighted([4, 4, 3])
    corr = False
    ref = tables = None
    if kind == 0:
        ref = gen_ref(g, max_nodes=9, max_edges=11, negative=g.chance(1, 5), top_fid=g.pick([3, 8, 17, 70]))
        m = build(pymatching, ref)
        tables = ref.tables()
        c.note(ref.describe())
        c.label("small")
    elif kind == 1:
        ref = big_graph(g)
        m = build(pymatching, ref)
        c.note(ref.describe())
        c.label("wide")
    else:
        text = dem_graph(g)
        c.note(text)
        m = pymatching.Matching(stim.DetectorErrorModel(text), enable_correlations=True)
        corr = g.chance(2, 3)
        c.label("correlated" if corr else "model")
    n, nd, nf = m.num_nodes, m.num_detectors, m.num_fault_ids
    boundary = set(m.boundary)
    edges = [(u, v) for u, v, _ in m.edges()]

    # shots: syndromes of random sets of edges, some repeated, some empty
    shots = []
    for _ in range(g.pick([0, 1, 2, 3, 5, 9])):
        if shots and g.chance(1, 5):
            shots.append(list(g.pick(shots)))
            continue
        ev = set()
        for _ in range(g.choice(7)):
            if edges:
                for x in g.pick(edges):
                    if x is not None and x not in boundary:
                        ev ^= {x}
        shots.append(sorted(ev))
    # events on boundary nodes are ignored
    noisy = [list(s) + [b for b in sorted(boundary) if g.chance(1, 6)] for s in shots]
    c.note("shots", noisy)

    def width_ok(w):
        return nd <= w <= n

    used = max([max(s, default=-1) for s in noisy], default=-1) + 1
    single = []
    kw = {"enable_correlations": True} if corr else {}
    for s in noisy:
        w = g.range(max(nd, max(s, default=-1) + 1), n)
        z = np.zeros(w, dtype=np.uint8)
        z[s] = 1
        if tables is not None:
            check_decode(m, ref, tables, s, "single", z=z)
        single.append(m.decode(z, return_weight=True, **kw))
        ze = encode_single(g, z, c)
        p2, w2 = m.decode(ze, return_weight=True, **kw)
        check((p2 == single[-1][0]).all() and w2 == single[-1][1], "encoding", type(ze), getattr(ze, "dtype", ""),
              "changes the result from", single[-1], "to", (p2, w2))
        # two-dimensional syndromes: z[check, time]
        if not boundary and nd > 0 and g.chance(1, 3):
            divs = [d for d in range(1, nd + 1) if nd % d == 0]
            rows = g.pick(divs)
            z2 = np.zeros((rows, nd // rows), dtype=np.uint8)
            for e in s:
                z2[e % rows, e // rows] = 1
            c.label("syndrome-2d")
            p2, w2 = m.decode(z2 if g.chance(1, 2) else z2.tolist(), return_weight=True, **kw)
            check((p2 == single[-1][0]).all() and w2 == single[-1][1], "2D syndrome of shape", z2.shape, "gives", (p2, w2),
                  "instead of", single[-1])
    if len(set(map(tuple, shots)) - {()}) >= 2:
        c.nontrivial = True

    for packed_in in (False, True):
        for packed_out in (False, True):
            w = g.range(max(nd, used), n)
            a = np.zeros((len(noisy), w), dtype=np.uint8)
            for i, s in enumerate(noisy):
                a[i, s] = 1
            if packed_in:
                a = np.packbits(a, bitorder="little", axis=1)
                a = a.reshape(len(noisy), (w + 7) // 8)
                check((nd + 7) // 8 <= a.shape[1] <= (n + 7) // 8, "harness")
            a0 = a.copy()
            ae = encode_shots(g, a, c)
            rw = g.chance(2, 3)
            args = dict(kw)
            if packed_in or g.chance(1, 2):
                args["bit_packed_shots"] = packed_in
            if packed_out or g.chance(1, 2):
                args["bit_packed_predictions"] = packed_out
            if rw or g.chance(1, 2):
                args["return_weights"] = rw
            res = m.decode_batch(ae, **args)
            check((a == a0).all(), "decode_batch changed its input")
            pred = res[0] if rw else res
            cols = (nf + 7) // 8 if packed_out else nf
            check(pred.shape == (len(noisy), cols) and pred.dtype == np.uint8, "predictions of shape", pred.shape, pred.dtype,
                  "expected", (len(noisy), cols))
            if rw:
                ws = res[1]
                check(ws.shape == (len(noisy),) and ws.dtype == np.float64, "weights of shape", ws.shape)
            for i in range(len(noisy)):
                row = pred[i]
                if packed_out:
                    bits = np.unpackbits(row, bitorder="little")
                    check((bits[nf:] == 0).all(), "padding bits set in row", i, row.tolist())
                    row = bits[:nf]
                check((row == single[i][0]).all(), "shot", i, "packed_in", packed_in, "packed_out", packed_out, "prediction",
                      row.tolist(), "alone", single[i][0].tolist())
                if rw:
                    check(ws[i] == single[i][1], "shot", i, "weight", ws[i], "alone", single[i][1])

    # shapes that do not fit
    for w in (nd - 1, n + 1):
        if w >= 0:
            raises(ValueError, lambda: m.decode(np.zeros(w, dtype=np.uint8)), "decode of a syndrome of length %d" % w)
            raises(ValueError, lambda: m.decode_batch(np.zeros((2, w), dtype=np.uint8)), "decode_batch of width %d" % w)
    k = g.choice(6)
    if k == 0:
        for w in ((nd + 7) // 8 - 1, (n + 7) // 8 + 1):
            if w >= 0:
                raises(ValueError, lambda: m.decode_batch(np.zeros((2, w), dtype=np.uint8), bit_packed_shots=True),
                       "bit packed decode_batch of width %d" % w)
    elif k == 1:
        raises(ValueError, lambda: m.decode_batch(np.zeros(nd, dtype=np.uint8)), "one-dimensional shots")
        raises(ValueError, lambda: m.decode_batch(np.zeros((1, nd, 1), dtype=np.uint8)), "three-dimensional shots")
    elif k == 2:
        raises(ValueError, lambda: m.decode(np.zeros((nd + 1, 1), dtype=np.uint8)), "2D syndrome of the wrong size")
        raises(ValueError, lambda: m.decode(np.zeros((1, nd, 1), dtype=np.uint8)), "3D syndrome")
    elif k == 3 and ref is not None and len(ref.edges) <= 12:
        # a shot that cannot be explained is refused in a batch as it is alone
        t = tables if tables is not None else ref.tables()
        ev = gen_events(g, ref, False)
        if ref.optimum(t, ev) is None:
            a = np.zeros((len(noisy) + 1, n), dtype=np.uint8)
            for i, s in enumerate(noisy):
                a[i, s] = 1
            a[len(noisy), ev] = 1
            order = list(range(len(noisy) + 1))
            g.shuffle(order)
            c.label("infeasible-in-batch")
            raises(ValueError, lambda: m.decode_batch(a[order]), "batch with an infeasible shot %s" % ev)
            res = m.decode_batch(a[:-1], return_weights=True)
            for i in range(len(noisy)):
                check(res[1][i] == single[i][1], "after a refused batch, shot", i, "has weight", res[1][i])
