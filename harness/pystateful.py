"""Random histories of graph-building calls on one Matching object, mirrored by the dictionary model."""
import copy
import warnings

import numpy as np

import pymatching
from pypbt import check
from pymodel import Ref, STRATEGIES, MAXW, check_accessors, close, compare_edges, gen_events, gen_fids, gen_prob, gen_weight, raises
from pygeneric import MODES, run_mode


def spell_ids(g, f):
    if not f:
        return g.pick([None, -1, set(), np.int64(-1)])
    if len(f) == 1 and g.chance(1, 2):
        x = next(iter(f))
        return g.pick([x, np.int64(x), {x}])
    return set(f) if g.chance(2, 3) else frozenset(f)


def add(g, c, m, ref, n, negative, wide=False):
    u = g.choice(n)
    boundary = g.chance(1, 4)
    v = None if boundary else g.choice(n)
    if not boundary and u == v and not g.chance(1, 5):
        v = (u + 1) % n
    if ref.edges and g.chance(1, 3):
        u, v = g.pick(list(ref.edges))
        if v is not None and g.chance(1, 2):
            u, v = v, u
    f, w, p = gen_fids(g, 120 if wide and g.chance(1, 12) else 6), gen_weight(g, negative), gen_prob(g)
    if ref.edges and g.chance(1, 6):
        w = g.pick(list(ref.edges.values()))[1]
    strat = g.pick(STRATEGIES)
    kw = {}
    ids = spell_ids(g, f)
    if ids is not None or g.chance(1, 2):
        kw["qubit_id" if v is not None and g.chance(1, 8) else "fault_ids"] = ids
    if w != 1.0 or g.chance(1, 2):
        kw["weight"] = g.pick([w, np.float64(w), int(w) if w == int(w) else w])
    if p is not None or g.chance(1, 4):
        kw["error_probability"] = p
    if strat != "disallow" or g.chance(1, 2):
        kw["merge_strategy"] = strat
    nu = g.pick([u, np.int64(u)])
    call = (lambda: m.add_boundary_edge(nu, **kw)) if v is None else (lambda: m.add_edge(nu, v, **kw))
    c.note("add", u, v, kw)
    before = copy.deepcopy(ref)
    if ref.add(u, v, f, w, p, strat):
        call()
        c.label("merge-" + strat if ref.key(u, v) in before.edges else "new-edge")
        if strat == "independent" and ref.key(u, v) in before.edges:
            # adopt the rounding of the merged weight, so that later ties are ties in both
            got = (m.get_boundary_edge_data(u) if v is None else m.get_edge_data(u, v))["weight"]
            check(close(got, ref.edges[ref.key(u, v)][1]), "merged weight", got, "expected", ref.edges[ref.key(u, v)][1])
            ref.edges[ref.key(u, v)][1] = got
        return True
    c.label("merge-refused")
    raises(ValueError, call, "parallel edge with merge strategy disallow")
    return False


def rejected(g, c, m, ref):
    """Calls that must fail or have no effect, leaving the graph as it was."""
    k = g.choice(6)
    c.label("rejected-%d" % k)
    c.note("rejected call", k)
    if k == 0:
        raises(ValueError, lambda: m.add_edge(-1, 0), "negative node")
    elif k == 1:
        raises(ValueError, lambda: m.add_boundary_edge(-1), "negative node")
    elif k == 2:
        raises(ValueError, lambda: m.add_edge(0, 1, merge_strategy="bogus"), "unknown merge strategy")
    elif k == 3:
        raises(ValueError, lambda: m.add_edge(0, 1, fault_ids=0, qubit_id=0), "fault_ids and qubit_id")
    else:
        w = g.pick([MAXW + 1.0, -MAXW - 1.0, 1e9, float("inf"), -float("inf")])
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            if k == 4:
                m.add_edge(0, 1, weight=w, fault_ids={40}, merge_strategy="replace")
            else:
                m.add_boundary_edge(0, weight=w, fault_ids={40}, merge_strategy="replace")
        check(len(rec) == 1, "an edge of weight", w, "was not added without exactly one warning:", [str(r.message) for r in rec])


def history(g, c, decode, steps):
    n = g.range(2, 6)
    m = pymatching.Matching()
    ref = Ref()
    calls = 0
    negative = not decode and g.chance(1, 2)
    for _ in range(1 + g.choice(steps)):
        k = g.weighted([8, 1, 1, 1, 6 if decode else 1])
        if k == 0:
            if decode and len(ref.edges) >= 11:
                continue
            add(g, c, m, ref, n, negative, wide=not decode)
        elif k == 1:
            b = set(x for x in range(n) if g.chance(1, 4))
            c.note("boundary", sorted(b))
            m.set_boundary_nodes(b if g.chance(2, 3) else set(np.int64(x) for x in b))
            ref.set_boundary(b)
            c.label("set-boundary")
        elif k == 2:
            x = g.pick([0, 1, 3, 8, 66])
            c.note("ensure", x)
            m.ensure_num_fault_ids(x)
            ref.fids = max(ref.fids, x)
        elif k == 3:
            rejected(g, c, m, ref)
        elif decode and ref.num_nodes:
            ev = gen_events(g, ref, g.chance(3, 4))
            mode = g.pick(MODES)
            c.note(mode, ev)
            c.label(mode)
            run_mode(g, m, ref, ref.tables(), mode, ev, mode)
            calls += bool(ev)
        compare_edges(m, ref, "after the last step")
    check_accessors(g, m, ref)
    allp = all(0 <= e[2] <= 1 for e in ref.edges.values())
    check((m.add_noise() is not None) == allp, "add_noise with probabilities", "complete" if allp else "incomplete")
    if len(ref.edges) >= 2 and (calls >= 2 or not decode):
        c.nontrivial = True
