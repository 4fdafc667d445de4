import ctypes
import gc
import os
import sys
import tempfile
import warnings

import numpy as np
import stim

import pymatching
import pydem
from pypbt import check
from pymodel import build, gen_events, gen_ref

PROPERTY_ID = "C28"
RULE = ("Python API: a list of 1..5 calls (every decoding mode, batches, correlated decoding, refused syndromes and shapes, sampling, "
        "queries, exports, loading models, the command line tool, refused model files) is run over and over while the bytes held from malloc, the objects held by Python "
        "and the open files are counted; suspected growth is followed for 512 rounds and judged over the last three doublings; "
        "non-trivial when a call has at least two detection events or is refused")
warnings.simplefilter("ignore")
gc.freeze()


class _Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


_mallinfo2 = ctypes.CDLL(None).mallinfo2
_mallinfo2.restype = _Mallinfo2


def held():
    gc.collect()
    i = _mallinfo2()
    return i.uordblks + i.hblkhd, sys.getallocatedblocks(), len(os.listdir("/proc/self/fd"))


def refused(call):
    try:
        call()
    except (ValueError, TypeError):
        return
    check(False, "a call that should be refused was not")


def property(g, c):
    corr = g.chance(1, 3)
    kw = {"enable_correlations": True} if corr else {}
    md = None
    if corr or g.chance(1, 4):
        md = pydem.generate(g, correlated=corr, many_obs=True)
        ref = pydem.reference(md)
        if not ref.edges or not ref.num_nodes:
            return
        m = pymatching.Matching(stim.DetectorErrorModel(md.text), **kw)
        c.note(md.text)
    else:
        ref = gen_ref(g)
        if not ref.edges:
            return
        m = build(pymatching, ref)
        if g.chance(1, 3):
            m.ensure_num_fault_ids(g.pick([70, 300, 5000]))
        c.note(ref.describe(), "ids", m.num_fault_ids)
    n, nd = m.num_nodes, m.num_detectors
    inf = [gen_events(g, ref, False) for _ in range(4)]
    text = md.text if md else "error(0.1) D0 D1\n"
    with tempfile.TemporaryDirectory() as d:
        good, bad = os.path.join(d, "good.dem"), os.path.join(d, "bad.dem")
        with open(good, "w") as f:
            f.write(text)
        with open(bad, "w") as f:
            f.write(text + g.pick(["nonsense\n", "error(0.1) D0 X\n", "repeat 3 {\n"]))

        def make():
            ev = gen_events(g, ref)
            z = np.zeros(n, dtype=np.uint8)
            z[ev] = 1
            zi = np.zeros(n, dtype=np.uint8)
            zi[g.pick(inf)] = 1
            k = g.choice(17)
            if len(ev) >= 2 and k < 5:
                c.nontrivial = True
            c.note("call", k, ev, np.nonzero(zi)[0].tolist())
            c.label("call-%d" % k)

            def may_refuse(call):
                def f():
                    try:
                        call()
                    except ValueError:
                        pass
                return f
            if k == 0:
                return lambda: m.decode(z, return_weight=True, **kw)
            if k == 1:
                return lambda: m.decode_to_edges_array(z, **kw)
            if k == 2:
                return lambda: (m.decode_to_matched_dets_array(z), m.decode_to_matched_dets_dict(z))
            if k == 3:
                a = np.array([z, z, z])
                return lambda: m.decode_batch(a, return_weights=True, **kw)
            if k == 4:
                a = np.packbits(np.array([z, z]), axis=1, bitorder="little")
                return lambda: m.decode_batch(a, bit_packed_shots=True, bit_packed_predictions=True, **kw)
            if k >= 5 and k <= 8:
                c.nontrivial = True
                a = np.array([z, zi])
                return may_refuse([lambda: m.decode(zi, **kw), lambda: m.decode_to_edges_array(zi, **kw),
                                   lambda: m.decode_to_matched_dets_array(zi), lambda: m.decode_batch(a, **kw)][k - 5])
            if k == 9:
                w = np.zeros(n + 1, dtype=np.uint8)
                return lambda: (refused(lambda: m.decode(w)), refused(lambda: m.decode_batch(np.array([w]))))
            if k == 10:
                return lambda: (m.add_noise(), m.edges(), repr(m), m.boundary)
            if k == 11:
                return lambda: (m.to_networkx(), m.to_rustworkx())
            if k == 12:
                u, v = g.pick(list(ref.edges))
                if v is None:
                    return lambda: (m.has_boundary_edge(u), m.get_boundary_edge_data(u), refused(lambda: m.get_boundary_edge_data(n + 5)))
                return lambda: (m.has_edge(u, v), m.get_edge_data(u, v), refused(lambda: m.get_edge_data(u, n + 5)))
            if k == 13:
                return lambda: refused(lambda: m.add_edge(0, 1, fault_ids={1, 2, 3}, merge_strategy="bogus"))
            if k == 14:
                M = pymatching.Matching
                return lambda: (M.from_detector_error_model_file(good, **kw), M(stim.DetectorErrorModel(text), **kw),
                                M.from_stim_circuit_file(good, **kw))
            if k == 15:
                # the command line tool, called from Python
                z2 = np.zeros(md.num_dets if md else 2, dtype=np.uint8)
                if md:
                    z2[ev] = 1
                shots, obs, out = (os.path.join(d, "%s%d" % (x, g.choice(1000))) for x in ("s", "o", "r"))
                with open(shots, "w") as f:
                    f.write("".join(map(str, z2)) + "\n")
                with open(obs, "w") as f:
                    f.write("0" * (md.num_obs if md else 0) + "\n")
                args = ["--dem", good, "--in", shots, "--in_format", "01", "--out", out] + ["--enable_correlations"] * corr
                if g.chance(1, 2) and md and 0 < md.num_obs <= 64:
                    args = ["count_mistakes"] + args + ["--obs_in", obs, "--obs_in_format", "01"]
                else:
                    args = ["predict"] + args
                c.note(args[0])
                c.label(args[0])
                return lambda: check(pymatching.cli(command_line_args=args) == 0, "refused", args)
            c.nontrivial = True
            M = pymatching.Matching
            return lambda: (refused(lambda: M.from_detector_error_model_file(bad, **kw)), refused(lambda: M.from_stim_circuit_file(bad, **kw)),
                            refused(lambda: M.from_detector_error_model_file(good + ".missing", **kw)))
        calls = [make() for _ in range(1 + g.choice(5))]
        done = 0
        at = {}
        for e in range(2, 10):
            while done < 1 << e:
                for f in calls:
                    f()
                done += 1
            at[e] = held()
            if e == 3 and all(x <= y for x, y in zip(at[3], at[2])):
                return
            if e >= 5 and all(x <= y for x, y in zip(at[e], at[e - 2])):
                return
        c.label("followed to the end")
        for q, (name, per) in enumerate([("bytes", 8), ("Python objects", 0.5), ("open files", 0.5)]):
            grows = all(at[e][q] - at[e - 1][q] >= per * (1 << (e - 1)) for e in (7, 8, 9))
            check(not grows, name, "held grow without end: after 64, 128, 256 and 512 rounds", [at[e][q] for e in (6, 7, 8, 9)])
