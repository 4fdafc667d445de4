import warnings

import numpy as np
import scipy.sparse as sp

import pymatching
from pypbt import check
from pymodel import Ref, check_decode, compare_edges, check_accessors, gen_weight, raises, STRATEGIES

PROPERTY_ID = "C18"
RULE = ("a case is one check matrix with its arguments in one of the accepted forms, loaded through one of the entry points, "
        "compared edge by edge with a dictionary model and decoded for several syndromes against exhaustive search (or, for "
        "malformed arguments, expected to raise); non-trivial when well-formed with at least two columns giving edges and a "
        "non-empty syndrome was decoded, or when malformed in exactly one respect")
warnings.simplefilter("ignore")

FORMS = ["dense", "list", "csc", "csr", "coo", "lil", "dok", "csc_array", "csr_array", "bool", "float", "int64",
         "csc_zeros", "csc_unsorted", "fortran", "bsr", "dia", "matrix", "csc_split", "uint64", "negative_strides"]


def encode(g, dense, form, dtype=np.uint8):
    if form == "dense":
        return dense.astype(dtype)
    if form == "list":
        return [[int(x) for x in row] for row in dense]
    if form == "bool":
        return dense.astype(bool)
    if form == "float":
        return dense.astype(float)
    if form == "int64":
        return dense.astype(np.int64)
    if form == "fortran":
        return np.asfortranarray(dense.astype(np.uint8))
    if form in ("csc_array", "csr_array"):
        return getattr(sp, form)(dense)
    if form == "csc_zeros":
        c = sp.csc_matrix(np.ones_like(dense))
        c.data = np.asarray(dense.T.reshape(-1)[: c.nnz]).astype(c.data.dtype)
        return c
    if form == "matrix":
        return np.matrix(dense)
    if form == "uint64":
        return dense.astype(np.uint64)
    if form == "negative_strides":
        return dense[::-1, ::-1].copy()[::-1, ::-1]
    if form == "csc_split":
        # every one stored as two entries that add up to it
        c = sp.csc_matrix(dense.astype(np.int64))
        a = 1 + g.range(0, 300)
        return sp.csc_matrix((np.stack([np.full(c.nnz, a), np.full(c.nnz, 1 - a)], axis=1).reshape(-1),
                              np.repeat(c.indices, 2), c.indptr * 2), shape=dense.shape)
    if form == "csc_unsorted":
        c = sp.csc_matrix(dense)
        for j in range(dense.shape[1]):
            a, b = c.indptr[j], c.indptr[j + 1]
            c.indices[a:b] = c.indices[a:b][::-1].copy()
        c.has_sorted_indices = False
        return c
    return getattr(sp, form + "_matrix")(dense)


def vec(g, values, kind):
    """The same numbers as a list, array or narrower array."""
    if kind == 0:
        return np.array(values, dtype=float)
    if kind == 1:
        return list(values)
    if kind == 2 and all(float(v) == int(v) for v in values):
        return np.array(values, dtype=np.int64)
    if kind == 3:
        return np.array([values, values], dtype=float).T.copy()[:, 0]  # not contiguous
    return np.array(values, dtype=float)


def property(g, c):
    big = g.chance(1, 12)
    rows = g.range(0, 5) if not big else g.range(8, 20)
    cols = g.range(0, 7) if not big else g.range(8, 24)
    reps = [1, 2, 3][g.weighted([5, 3, 1])]
    give_reps = reps > 1 or g.chance(1, 3)
    H = np.zeros((rows, cols), dtype=np.uint8)
    for j in range(cols):
        k = g.weighted([1, 4, 8])
        for _ in range(k):
            if rows:
                H[g.choice(rows), j] = 1
    strat = STRATEGIES[g.weighted([1, 2, 4, 2, 2])]
    virtual = g.chance(1, 3)
    kwargs = {}
    neg = g.chance(1, 5)
    # weights
    ws = [1.0] * cols
    wk = g.weighted([2, 2, 5])
    weights = None
    if wk == 1:
        x = gen_weight(g, neg)
        ws = [x] * cols
        weights = g.pick([x, np.float64(x), int(x) if x == int(x) else x, np.int64(x) if x == int(x) else x])
    elif wk == 2:
        ws = [gen_weight(g, neg) for _ in range(cols)]
        weights = vec(g, ws, g.choice(4))
    wname = "weights" if g.chance(5, 6) else "spacelike_weights"
    # error probabilities
    ps = [-1.0] * cols
    probs = None
    pk = g.weighted([3, 1, 3])
    if pk == 1:
        x = g.pick([0.0, 0.125, 0.3, 1.0])
        ps = [x] * cols
        probs = x if not (x == int(x) and g.chance(1, 2)) else int(x)
    elif pk == 2:
        ps = [g.pick([0.0, 0.1, 0.25, 0.7, 1.0, -1.0]) for _ in range(cols)]
        probs = vec(g, ps, g.choice(2))
    # faults matrix
    F = np.eye(cols, dtype=np.uint8)
    fm = None
    if g.chance(1, 3):
        fr = g.range(0, 6)
        F = np.zeros((fr, cols), dtype=np.uint8)
        for j in range(cols):
            for i in range(fr):
                if g.chance(1, 3):
                    F[i, j] = 1
        forms = FORMS if fr and cols else ["dense", "csc", "csr", "coo"]
        fm = encode(g, F, g.pick(forms))
    # timelike
    tw, pm = [1.0] * rows, [-1.0] * rows
    twa = pma = None
    if reps > 1 or g.chance(1, 8):
        k = g.weighted([2, 2, 3])
        if k == 1:
            x = gen_weight(g, neg)
            tw = [x] * rows
            twa = g.pick([x, np.float64(x)])
        elif k == 2:
            tw = [gen_weight(g, neg) for _ in range(rows)]
            twa = vec(g, tw, g.choice(4))
        k = g.weighted([3, 1, 2])
        if k == 1:
            x = g.pick([0.0, 0.2, 1.0])
            pm = [x] * rows
            pma = x
        elif k == 2:
            pm = [g.pick([0.0, 0.2, 0.5, 1.0, -1.0]) for _ in range(rows)]
            pma = vec(g, pm, g.choice(2))
    mname = "measurement_error_probabilities" if g.chance(5, 6) else "measurement_error_probability"

    # expected graph
    nd = rows * reps
    ref = Ref(nd, F.shape[0])
    refused = False
    for rep in range(reps):
        for j in range(cols):
            on = [int(i) + rep * rows for i in np.nonzero(H[:, j])[0]]
            f = set(int(i) for i in np.nonzero(F[:, j])[0])
            if len(on) == 2:
                refused |= not ref.add(on[0], on[1], f, ws[j], ps[j], strat)
            elif len(on) == 1:
                refused |= not ref.add(on[0], None if virtual else nd, f, ws[j], ps[j], strat)
    for rep in range(reps - 1):
        for i in range(rows):
            refused |= not ref.add(i + rep * rows, i + (rep + 1) * rows, set(), tw[i], pm[i], strat)
    if not virtual and ref.num_nodes == nd + 1:
        ref.set_boundary({nd})
    ref.fids = F.shape[0]

    form = g.pick(FORMS)
    if rows == 0 or cols == 0:
        form = g.pick(["dense", "csc", "csr", "coo"])
    Henc = encode(g, H, form)
    if weights is not None:
        kwargs[wname] = weights
    if probs is not None:
        kwargs["error_probabilities"] = probs
    if give_reps:
        kwargs["repetitions"] = reps
    if twa is not None:
        kwargs["timelike_weights"] = twa
    if pma is not None:
        kwargs[mname] = pma
    if fm is not None:
        kwargs["faults_matrix"] = fm
    if strat != "smallest-weight" or g.chance(1, 2):
        kwargs["merge_strategy"] = strat
    if virtual or g.chance(1, 4):
        kwargs["use_virtual_boundary_node"] = virtual

    # malformations
    bad = None
    if g.chance(1, 6):
        opts = ["strategy", "weights-len", "probs-len", "faults-cols", "both-weights", "ndim"]
        if rows >= 1 and cols >= 1:
            opts += ["entry", "fault-entry"]
        if rows >= 3 and cols >= 1:
            opts += ["three"]
        if reps > 1:
            opts += ["tw-len", "pm-len", "both-meas", "tw-type"]
        bad = g.pick(opts)
        if bad == "strategy":
            kwargs["merge_strategy"] = g.pick(["Disallow", "", "smallest_weight", "keep"])
        elif bad == "weights-len":
            kwargs.pop("spacelike_weights", None)
            kwargs["weights"] = np.ones(g.pick([x for x in (0, cols - 1, cols + 1, cols + 3) if x >= 0 and x != cols]))
        elif bad == "probs-len":
            kwargs["error_probabilities"] = np.ones(g.pick([x for x in (0, cols - 1, cols + 1) if x >= 0 and x != cols])) * 0.1
        elif bad == "faults-cols":
            kwargs["faults_matrix"] = np.ones((2, cols + 1 + g.choice(2)), dtype=np.uint8)
        elif bad == "both-weights":
            kwargs["weights"] = kwargs["spacelike_weights"] = 1.0
        elif bad == "ndim":
            kwargs.pop("spacelike_weights", None)
            kwargs["weights"] = np.ones((max(cols, 1), 2))
        elif bad == "entry":
            H2 = H.copy()
            x = g.pick([2, 3, 5, -1, 1.5, 0.5, 255, 256, 257, -255, 65537, 2 ** 32 + 1, float("nan"), float("inf")])
            if x != int(x) if x == x and abs(x) != float("inf") else True:
                H2 = H2.astype(float)
            else:
                H2 = H2.astype(np.int64)
            H2[g.choice(rows), g.choice(cols)] = x
            Henc = H2 if g.chance(1, 2) else sp.csr_matrix(H2)
            if g.chance(1, 4) and x in (2, 3, 5):
                # the same entry given several times, each time as one
                c2 = sp.csc_matrix(H2)
                Henc = sp.csc_matrix((np.ones(int(c2.data.sum()), dtype=np.uint8), np.repeat(c2.indices, c2.data),
                                      np.concatenate([[0], np.cumsum(H2.sum(axis=0))])), shape=H2.shape)
                c.label("repeated-entry")
        elif bad == "fault-entry":
            F2 = F.copy() if F.shape[0] else np.zeros((1, cols), dtype=np.uint8)
            x = g.pick([2, 3, 5, -1, 1.5, 0.5, 255, 256, 257, -255])
            F2 = F2.astype(np.int64 if x == int(x) else float)
            F2[g.choice(F2.shape[0]), g.choice(cols)] = x
            kwargs["faults_matrix"] = F2
        elif bad == "three":
            H2 = H.copy()
            rr = list(range(rows))
            g.shuffle(rr)
            j = g.choice(cols)
            H2[:, j] = 0
            H2[rr[: 3 + g.choice(rows - 2)], j] = 1
            Henc = H2
        elif bad == "tw-len":
            kwargs["timelike_weights"] = np.ones(g.pick([rows + 1, rows + 2, max(rows - 1, 0) if rows else 1]))
        elif bad == "pm-len":
            kwargs.pop("measurement_error_probability", None)
            kwargs["measurement_error_probabilities"] = np.ones(g.pick([rows + 1, rows + 2, max(rows - 1, 0) if rows else 1])) * 0.1
        elif bad == "both-meas":
            kwargs["measurement_error_probability"] = kwargs["measurement_error_probabilities"] = 0.1
        elif bad == "tw-type":
            kwargs["timelike_weights"] = "1.0"

    how = g.choice(5)
    c.note("H=%s form=%s reps=%d virtual=%s strategy=%s entry=%d bad=%s" % (H.tolist(), form, reps, virtual, strat, how, bad))
    c.note("kwargs", {k: (v.tolist() if hasattr(v, "tolist") else str(v)) for k, v in kwargs.items()})

    def load():
        if how == 0:
            return pymatching.Matching(Henc, **kwargs)
        if how == 1:
            return pymatching.Matching(H=Henc, **kwargs)
        if how == 2:
            return pymatching.Matching.from_check_matrix(Henc, **kwargs)
        m = pymatching.Matching()
        if how == 3:
            m.add_edge(0, 1)
            m.load_from_check_matrix(Henc, **kwargs)
        else:
            m.load_from_check_matrix(H=Henc, **kwargs)
        return m

    if bad:
        c.nontrivial = True
        c.label("malformed-" + bad)
        raises((ValueError, TypeError), load, "malformed argument (%s)" % bad)
        return
    if refused:
        c.nontrivial = True
        c.label("disallowed-merge")
        raises(ValueError, load, "parallel columns with merge strategy disallow")
        return
    m = load()
    back = Henc if isinstance(Henc, (list, np.ndarray)) else Henc.toarray()
    check((np.array(back).astype(int).reshape(H.shape) == H).all(), "loading changed the caller's check matrix")
    c.note("expected", ref.describe())
    c.label("form-" + form)
    c.label("reps-%d" % reps)
    c.label("strategy-" + strat)
    compare_edges(m, ref)
    check_accessors(g, m, ref)

    # decoding
    if any(e[1] < 0 for e in ref.edges.values()):
        c.label("negative-weights")
    small = len(ref.edges) <= 12
    tables = ref.tables() if small else None
    plain = reps == 1 and fm is None
    for _ in range(3):
        feasible = g.chance(4, 5)
        ev = set()
        if feasible:
            for k in ref.edges:
                if g.chance(1, 3):
                    for x in k:
                        if x is not None and x not in ref.boundary:
                            ev ^= {x}
        else:
            ev = set(x for x in range(nd) if g.chance(1, 3))
        z = np.zeros(nd, dtype=np.uint8)
        z[sorted(ev)] = 1
        if g.chance(1, 4):
            z = np.zeros(ref.num_nodes, dtype=np.uint8)
            z[sorted(ev)] = 1
        if reps > 1 and g.chance(1, 2):
            z = np.zeros((rows, reps), dtype=np.uint8)
            for x in ev:
                z[x % rows, x // rows] = 1
            c.label("syndrome-2d")
        c.note("events", sorted(ev), "shape", z.shape)
        if small:
            r = check_decode(m, ref, tables, sorted(ev), z=z)
        elif feasible:
            r = m.decode(z, return_weight=True)
        else:
            r = None
        if r is None:
            c.label("infeasible")
            continue
        pred, w = r
        if plain:
            # the correction has the syndrome, and its own weight is the reported one
            s = (H.astype(int) @ pred.astype(int)) % 2
            got = set(int(x) for x in np.nonzero(s)[0])
            check(got == ev, "correction", pred.tolist(), "has syndrome", sorted(got), "instead of", sorted(ev))
            if strat in ("smallest-weight", "keep-original", "replace"):
                cw = sum(ws[j] for j in np.nonzero(pred)[0])
                check(abs(cw - w) <= 2 * ref.tolerance() + 1e-9 * abs(w), "correction weighs", cw, "reported", w)
        elif fm is None and cols:
            # over all rounds, the corrected columns explain the total syndrome
            s = (H.astype(int) @ pred.astype(int)) % 2
            tot = np.zeros(rows, dtype=int)
            for x in ev:
                tot[x % rows] ^= 1
            check((s == tot).all(), "correction", pred.tolist(), "sums to", s.tolist(), "instead of", tot.tolist())
        if ev and len(ref.edges) >= 2:
            c.nontrivial = True
            c.label("decoded")
    # noise from the loaded probabilities
    nz = m.add_noise()
    allp = all(0 <= e[2] <= 1 for e in ref.edges.values())
    check((nz is not None) == allp, "add_noise returned", nz, "but probabilities are", "complete" if allp else "incomplete")
    if nz is not None:
        noise, synd = nz
        check(noise.shape == (ref.fids,) and synd.shape == (ref.num_nodes,), "noise shapes", noise.shape, synd.shape)
        if fm is None and rows:
            s = (H.astype(int) @ noise.astype(int)) % 2 if cols else np.zeros(rows, dtype=int)
            tot = np.zeros(rows, dtype=int)
            for x in np.nonzero(synd)[0]:
                check(x < nd, "boundary node flagged")
                tot[x % rows] ^= 1
            check((s == tot).all(), "noise", noise.tolist(), "gives", s.tolist(), "but the syndrome is", synd.tolist())
        if all(e[2] in (0.0, 1.0) for e in ref.edges.values()):
            c.label("deterministic-noise")
            ev, fids = set(), set()
            for k, e in ref.edges.items():
                if e[2] == 1.0:
                    fids ^= e[0]
                    for x in k:
                        if x is not None and x not in ref.boundary:
                            ev ^= {x}
            check(set(np.nonzero(synd)[0].tolist()) == ev, "deterministic syndrome", synd.tolist(), "expected", sorted(ev))
            check(set(np.nonzero(noise)[0].tolist()) == fids, "deterministic noise", noise.tolist(), "expected", sorted(fids))
