import warnings

import networkx as nx
import numpy as np
import rustworkx as rx

import pymatching
from pypbt import check
from pymodel import (Ref, build, check_accessors, check_decode, close, compare_edges, gen_events, gen_fids, gen_prob, gen_ref,
                     gen_weight, raises, valid_p)

PROPERTY_ID = "C19"
RULE = ("a case either loads one networkx or rustworkx graph with randomly present and randomly typed attributes and compares "
        "the decoder with a dictionary model, or builds a decoder, exports it to networkx and rustworkx, inspects the export, "
        "loads it again and compares edges, counts and decoding results; non-trivial when the graph has at least two edges")
warnings.simplefilter("ignore")


def fid_attr(g, fids):
    """One of the accepted spellings of a set of fault ids; {} when the attribute may be left out."""
    if len(fids) == 0:
        k = g.choice(5)
        v = [None, -1, set(), [], np.int64(-1)][k]
        if k == 0:
            return {}
    elif len(fids) == 1 and g.chance(1, 2):
        x = next(iter(fids))
        v = g.pick([x, np.int64(x), np.int32(x)])
    else:
        v = g.pick([set, list, tuple, frozenset])(fids)
        if g.chance(1, 4):
            v = set(np.int64(x) for x in fids)
    return {"fault_ids" if g.chance(4, 5) else "qubit_id": v}


def attrs(g, fids, w, p):
    a = fid_attr(g, fids)
    if w != 1.0 or g.chance(1, 2):
        a["weight"] = g.pick([w, w, np.float64(w), int(w) if w == int(w) else w])
    if p is not None:
        a["error_probability"] = p
    return a


def check_export(m, ref, nodes, edges, what):
    """nodes: {label: is_boundary}, edges: [(u, v, data)] of an export of m."""
    virtual = any(v is None for _, v in ref.edges)
    want = {i: i in ref.boundary for i in range(ref.num_nodes)}
    if virtual:
        want[ref.num_nodes] = True
    check(nodes == want, what, "nodes", nodes, "expected", want)
    check(len(edges) == len(ref.edges), what, "has", len(edges), "edges, expected", len(ref.edges))
    seen = set()
    for u, v, d in edges:
        k = Ref.key(u, v)
        if virtual and ref.num_nodes in k:
            k = (k[0], None)
        check(k in ref.edges and k not in seen, what, "edge", (u, v), "unexpected")
        seen.add(k)
        f, w, p = ref.edges[k]
        check(set(d["fault_ids"]) == f and close(d["weight"], w) and
              close(d["error_probability"], p if valid_p(p) else -1), what, "edge", (u, v), d, "expected", ref.edges[k])


def exported(ref):
    """Model of the graph an export of ref describes."""
    out = Ref(ref.num_nodes)
    b = set(ref.boundary)
    if any(v is None for _, v in ref.edges):
        b.add(ref.num_nodes)
    out.set_boundary(b)
    for (u, v), (f, w, p) in ref.edges.items():
        out.add(u, ref.num_nodes if v is None else v, f, w, p if valid_p(p) else -1)
    return out


def decode_all(g, c, m, ref, what):
    if len(ref.edges) > 12:
        return
    t = ref.tables()
    for _ in range(2):
        ev = gen_events(g, ref, g.chance(4, 5))
        c.note(what, "events", ev)
        check_decode(m, ref, t, ev, what)


def nx_nodes(G):
    return {int(i): bool(a["is_boundary"]) for i, a in G.nodes(data=True)}


def import_case(g, c):
    use_rx = g.chance(1, 2)
    n = g.range(0, 6)
    labels = list(range(n))
    gaps = n > 0 and not use_rx and g.chance(1, 6)
    if gaps:
        cur = 0
        for i in range(n):
            cur += g.choice(3)
            labels[i] = cur
            cur += 1
    npint = not use_rx and g.chance(1, 8)
    multi = g.chance(1, 3)
    bnodes = set(x for x in range(n) if g.chance(1, 4))
    edges = []
    if n:
        for _ in range(g.choice(11)):
            u, v = g.choice(n), g.choice(n)
            if u == v and not g.chance(1, 6):
                v = (u + 1) % n
            edges.append((u, v, gen_fids(g), gen_weight(g), gen_prob(g)))
    if not multi:
        d = {}
        for e in edges:
            d.setdefault(Ref.key(e[0], e[1]), e)
        edges = list(d.values())
    touched = set()
    for e in edges:
        touched |= {e[0], e[1]}
    if gaps:
        # with gaps, every node is named by an edge or is a boundary node
        bnodes |= set(range(n)) - touched
    minf = g.pick([None, None, 0, 3, 9])
    bad = g.weighted([8, 1, 1]) if edges else 0
    lab = [np.int64(x) if npint else x for x in labels]
    items = [(lab[u], lab[v], attrs(g, f, w, p)) for u, v, f, w, p in edges]
    if bad == 1:
        a = items[g.choice(len(items))][2]
        a["fault_ids"] = 0
        a["qubit_id"] = 0
    elif bad == 2:
        a = items[g.choice(len(items))][2]
        a.pop("qubit_id", None)
        a["fault_ids"] = g.pick(["ab", 1.5, {0.5}, {"x"}, [1, 2.0]])

    def battr(x):
        if x in bnodes:
            return {"is_boundary": g.pick([True, True, 1, np.bool_(True)])}
        return {} if g.chance(1, 2) else {"is_boundary": False}

    order = list(range(n))
    if use_rx:
        G = rx.PyGraph(multigraph=multi)
        G.add_nodes_from([battr(x) for x in order])
        G.add_edges_from(items)
    else:
        G = nx.MultiGraph() if multi else nx.Graph()
        g.shuffle(order)
        for x in order:
            if x in bnodes or (not gaps and x not in touched) or g.chance(1, 2):
                G.add_node(lab[x], **battr(x))
        for u, v, a in items:
            G.add_edge(u, v, **a)
        if not gaps:
            G.add_nodes_from(lab)
    if g.chance(1, 8):
        # attributes of other kinds are ignored
        if use_rx:
            for i in range(n):
                G[i]["colour"] = "red"
        else:
            for i in G.nodes:
                G.nodes[i]["colour"] = "red"

    ref = Ref(0, minf or 0)
    ref.num_nodes = n
    ref.set_boundary(set(int(labels[x]) for x in bnodes))
    for u, v, f, w, p in edges:
        ref.add(int(labels[u]), int(labels[v]), f, w, p, "smallest-weight")

    how = g.choice(4)
    c.note("import %s multi=%s labels=%s boundary=%s minf=%s how=%d bad=%d items=%s" % (
        "rustworkx" if use_rx else "networkx", multi, labels, sorted(bnodes), minf, how, bad, items))
    kw = {} if minf is None else {"min_num_fault_ids": minf}

    def load():
        if how == 0 and minf is None:
            return pymatching.Matching(G)
        m = pymatching.Matching()
        if how == 1:
            m.add_boundary_edge(7, fault_ids=11)
        if use_rx:
            (m.load_from_retworkx if how == 2 else m.load_from_rustworkx)(G, **kw)
            return m
        if how == 2:
            return pymatching.Matching.from_networkx(G, **kw)
        m.load_from_networkx(G, **kw)
        return m

    if bad:
        c.nontrivial = True
        c.label("malformed")
        raises(ValueError if bad == 1 else TypeError, load, "malformed fault ids")
        return
    m = load()
    c.label("import-rustworkx" if use_rx else "import-networkx")
    if multi and len(edges) > len(ref.edges):
        c.label("parallel-edges")
    compare_edges(m, ref, "import")
    check_accessors(g, m, ref)
    decode_all(g, c, m, ref, "imported")
    if len(ref.edges) >= 2:
        c.nontrivial = True


def export_case(g, c):
    ref = gen_ref(g, max_nodes=7, max_edges=10, negative=g.chance(1, 5))
    m = build(pymatching, ref)
    compare_edges(m, ref, "built")
    c.note("export of", ref.describe())
    if len(ref.edges) >= 2:
        c.nontrivial = True
    virtual = any(v is None for _, v in ref.edges)
    c.label("virtual-boundary" if virtual else "no-virtual-boundary")
    touched = set(x for k in ref.edges for x in k)
    if any(x not in touched for x in range(ref.num_nodes)):
        c.label("isolated-nodes")
    if virtual and ref.boundary:
        c.label("both-boundaries")
    if g.chance(1, 2):
        m.decode(np.zeros(ref.num_nodes, dtype=np.uint8))
    ex = exported(ref)
    # exporting does not alter the decoder, and may be repeated
    for rnd in range(1 + g.choice(2)):
        which = g.choice(2)
        c.label(["export-networkx", "export-rustworkx"][which])
        if which == 0:
            G = m.to_networkx()
            check_export(m, ref, nx_nodes(G), list(G.edges(data=True)), "networkx export")
            m2 = pymatching.Matching.from_networkx(G)
        else:
            G = m.to_rustworkx() if g.chance(3, 4) else m.to_retworkx()
            check_export(m, ref, {i: G[i]["is_boundary"] for i in G.node_indices()}, G.weighted_edge_list(), "rustworkx export")
            m2 = pymatching.Matching(G)
        compare_edges(m2, ex, "reloaded")
        check(m2.num_detectors == m.num_detectors, "number of detectors changed from", m.num_detectors, "to", m2.num_detectors)
        check(repr(m2).startswith("<pymatching.Matching object with %d detector" % ref.num_detectors), "repr", repr(m2))
        # an export of the reloaded graph describes the same graph again (through the other library as well)
        G3 = m2.to_networkx() if g.chance(1, 2) else None
        if G3 is not None:
            check_export(m2, ex, nx_nodes(G3), list(G3.edges(data=True)), "second export")
        if len(ref.edges) <= 12:
            t = ref.tables()
            for _ in range(2):
                ev = gen_events(g, ref, g.chance(4, 5))
                c.note("events", ev)
                z = np.zeros(ref.num_nodes, dtype=np.uint8)
                z[ev] = 1
                a = check_decode(m, ref, t, ev, "original", z=z)
                if ex.num_detectors <= ref.num_nodes <= ex.num_nodes:
                    # the model's fault ids may exceed the export's when ids were declared without an edge
                    t2 = ex.tables()
                    b = check_decode(m2, ex, t2, ev, "reloaded", z=z)
                    check((a is None) == (b is None), "feasibility changed")
                    if a is not None:
                        check(abs(a[1] - b[1]) <= 2 * ref.tolerance(), "weight changed from", a[1], "to", b[1])
    compare_edges(m, ref, "after export")


def property(g, c):
    if g.chance(1, 2):
        export_case(g, c)
    else:
        import_case(g, c)
