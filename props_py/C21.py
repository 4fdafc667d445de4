import warnings

import numpy as np

import pymatching
from pypbt import check
from pymodel import build, gen_ref, mask_of

PROPERTY_ID = "C21"
RULE = ("Python API: random graphs with probabilities; every add_noise sample must be the syndrome and fault ids of one set of edges "
        "that respects probabilities zero and one, and set_seed must reproduce whole histories of samples and rand_float values; "
        "non-trivial when at least one edge has a probability strictly between zero and one")
warnings.simplefilter("ignore")


def property(g, c):
    ref = gen_ref(g, max_nodes=6, max_edges=9, top_fid=g.pick([5, 66]))
    complete = g.chance(4, 5)
    for e in ref.edges.values():
        e[2] = g.pick([0.0, 1.0, 0.5, 0.25, 0.9, 0.01])
    if not complete and ref.edges:
        k = g.pick(list(ref.edges))
        ref.edges[k][2] = g.pick([-1.0, 1.5, -0.25])
    m = build(pymatching, ref)
    c.note(ref.describe())
    full = all(0 <= e[2] <= 1 for e in ref.edges.values())
    synd, _, fm = ref.tables()
    sel = np.arange(len(synd))
    ok = np.ones(len(synd), dtype=bool)
    for i, e in enumerate(ref.edges.values()):
        bit = (sel >> i) & 1
        if e[2] == 0.0:
            ok &= bit == 0
        elif e[2] == 1.0:
            ok &= bit == 1
    possible = set(zip((int(x) for x in synd[ok]), (int(x) for x in fm[ok])))
    if any(0 < e[2] < 1 for e in ref.edges.values()) and full:
        c.nontrivial = True

    ops = [g.choice(3) for _ in range(1 + g.choice(6))]

    def play():
        out = []
        for o in ops:
            if o == 0:
                a, b = 1.5, 4.0
                x = pymatching.rand_float(a, b)
                check(a <= x <= b, "rand_float(%g, %g) gave %g" % (a, b, x))
                out.append(x)
                continue
            r = m.add_noise()
            check((r is not None) == full, "add_noise returned", r, "with", "complete" if full else "missing", "probabilities")
            if r is None:
                out.append(None)
                continue
            noise, s = r
            check(noise.shape == (ref.fids,) and s.shape == (ref.num_nodes,), "shapes", noise.shape, s.shape)
            check(all(x in (0, 1) for x in noise) and all(x in (0, 1) for x in s), "sample is not binary", noise, s)
            check((mask_of(s), mask_of(noise)) in possible, "sample", s.tolist(), noise.tolist(), "is not that of a set of edges")
            out.append((noise.tolist(), s.tolist()))
            if o == 2:
                # decoding in between does not disturb the sequence
                w = m.decode(s, return_weight=True)
                out.append(float(w[1]))
        return out

    seed = g.pick([0, 1, 7, 12345, 2**31, 2**32 - 1, g.choice(1 << 20)])
    pymatching.set_seed(seed)
    first = play()
    if g.chance(1, 2):
        pymatching.randomize()
        play()
    pymatching.set_seed(seed)
    again = play()
    check(first == again, "seed", seed, "gave", first, "and then", again)
    c.label("complete" if full else "missing-probability")
