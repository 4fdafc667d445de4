import os
import tempfile
import warnings

import numpy as np
import stim

import pymatching
import pydem
from pypbt import check
from pymodel import check_decode, gen_events, mask_of, raises
from pygeneric import check_edges

PROPERTY_ID = "C17"
RULE = ("Python API: random decomposed error models loaded with correlations through the constructor or a circuit; a history of "
        "correlated and plain decode, decode_batch and decode_to_edges_array calls judged by enumerating all optimal first passes "
        "and second passes; non-trivial when a first pass lowers some weight")
warnings.simplefilter("ignore")


def property(g, c):
    md = pydem.generate(g, max_dets=5, max_edges=9, many_obs=True)
    ref = pydem.reference(md)
    if not ref.edges or len(ref.edges) > 12:
        return
    c.note(md.text)
    M = pymatching.Matching
    k = g.choice(4)
    if k == 3:
        how = g.choice(6)
        if how >= 4:
            with tempfile.TemporaryDirectory() as d:
                path = os.path.join(d, "model")
                with open(path, "w") as f:
                    f.write(md.text)
                m = M.from_detector_error_model_file(path) if how == 4 else M.from_stim_circuit_file(path)
        else:
            m = [lambda: M(stim.DetectorErrorModel(md.text)), lambda: M.from_detector_error_model(stim.DetectorErrorModel(md.text)),
                 lambda: M(stim.Circuit(md.text)), lambda: M.from_stim_circuit(stim.Circuit(md.text))][how]()
        z = np.zeros(ref.num_nodes, dtype=np.uint8)
        z[gen_events(g, ref)] = 1
        c.label("not-enabled")
        for _ in range(g.choice(3)):
            op = g.choice(3)
            c.note("op", op)
            if op == 0:
                k = g.choice(ref.fids + 3)
                m.ensure_num_fault_ids(k)
                ref.fids = max(ref.fids, k)
            elif op == 1:
                m.set_boundary_nodes(set())
            else:
                check_decode(m, ref, ref.tables(), list(np.nonzero(z)[0]), "plain before")
        raises(ValueError, lambda: m.decode(z, enable_correlations=True), "correlated decode without correlations")
        raises(ValueError, lambda: m.decode_batch(np.array([z]), enable_correlations=True), "correlated batch without correlations")
        raises(ValueError, lambda: m.decode_to_edges_array(z, enable_correlations=True), "correlated edges without correlations")
        check_decode(m, ref, ref.tables(), list(np.nonzero(z)[0]), "plain")
        return
    m = [lambda: M(stim.DetectorErrorModel(md.text), enable_correlations=True),
         lambda: M.from_detector_error_model(stim.DetectorErrorModel(md.text), enable_correlations=True),
         lambda: M.from_stim_circuit(stim.Circuit(md.text), enable_correlations=True)][k]()
    q = pydem.Correlated(md, ref)
    t = (q.synd, q.w, q.fm)
    ekeys = list(ref.edges)
    for _ in range(1 + g.choice(5)):
        ev = gen_events(g, ref)
        z = np.zeros(ref.num_nodes, dtype=np.uint8)
        z[ev] = 1
        mode = g.choice(5)
        c.note("call", mode, ev)
        c.label("call-%d" % mode)
        ans = q.answers(ev)
        if any(a[3] for a in ans):
            c.nontrivial = True
        if mode == 0 or mode == 1:
            if mode == 0:
                p, w = m.decode(z, return_weight=True, enable_correlations=True)
                p2 = m.decode(z, enable_correlations=True)
                check((p == p2).all(), "prediction depends on return_weight")
            else:
                ps, ws = m.decode_batch(np.array([z, z]), return_weights=True, enable_correlations=True)
                check((ps[0] == ps[1]).all() and ws[0] == ws[1], "equal shots differ")
                p, w = ps[0], ws[0]
            ok = any(abs(w - a[0]) <= 2 * q.tol and mask_of(p) in a[1] for a in ans)
            check(ok, "correlated result", list(p), w, "expected one of", [(a[0], sorted(a[1])[:6]) for a in ans[:4]])
        elif mode == 2:
            a = m.decode_to_edges_array(z, enable_correlations=True)
            sel = 0
            for u, v in a.tolist():
                key = ref.key(u, None if v == -1 else v)
                check(key in ref.edges, "edge", (u, v), "is not in the graph")
                check(not sel >> ekeys.index(key) & 1, "edge", (u, v), "twice")
                sel |= 1 << ekeys.index(key)
            check(any(sel in x[2] for x in ans), "correlated edges", a.tolist(), "are not optimal after reweighting")
        elif mode == 3:
            check_decode(m, ref, t, ev, "plain")
        else:
            check_edges(m, ref, t, ev, z, "plain")
