import inspect
import re
import warnings

import networkx as nx

import pymatching
from pypbt import check
from pymodel import Ref, compare_edges
from pystateful import add

PROPERTY_ID = "C30"
RULE = ("Python API: graphs grown by random add_edge, add_boundary_edge and set_boundary_nodes calls; after each of several stages "
        "the text of repr() and the calls that draw() makes to networkx (recorded by stand-ins that draw nothing) are compared with "
        "a dictionary model; non-trivial when a drawn graph has at least two edges")
warnings.simplefilter("ignore")

NAMES = ["draw_networkx_nodes", "draw_networkx_labels", "draw_networkx_edges", "draw_networkx_edge_labels"]
WHITE = {"w", "white", "#fff", "#ffffff", "1", "1.0"}


def record(m):
    """The arguments, by name, of every networkx drawing call made by m.draw()."""
    calls = {n: [] for n in NAMES}
    saved = {n: getattr(nx, n) for n in NAMES}

    def stand_in(name):
        sig = inspect.signature(getattr(saved[name], "__wrapped__", saved[name]))

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            calls[name].append(b.arguments)
        return f
    try:
        for n in NAMES:
            setattr(nx, n, stand_in(n))
        m.draw()
    finally:
        for n in NAMES:
            setattr(nx, n, saved[n])
    return calls


def spread(x, n):
    """One value per drawn item."""
    if isinstance(x, str) or not hasattr(x, "__len__"):
        return [x] * n
    check(len(x) == n, "a list of", len(x), "values for", n, "drawn items")
    return list(x)


def is_white(c):
    if isinstance(c, str):
        return c.lower() in WHITE
    return len(c) >= 3 and all(float(x) == 1.0 for x in list(c)[:3])


def check_drawing(m, ref):
    calls = record(m)
    vb = ref.num_nodes if any(k[1] is None for k in ref.edges) else None
    nodes = set(range(ref.num_nodes)) | ({vb} if vb is not None else set())
    boundary = set(ref.boundary) | ({vb} if vb is not None else set())
    want = {}
    for (u, v), (f, w, p) in ref.edges.items():
        want[frozenset((u, vb if v is None else v))] = (set(f), w)
    # Nodes: each drawn once, boundary nodes white and the others grey, at the place where its label and edges are.
    place = {}

    def placed(pos, things):
        for x in things:
            check(x in pos, "node", x, "has no position")
            xy = tuple(float(t) for t in pos[x])
            check(place.setdefault(x, xy) == xy, "node", x, "is drawn at", place[x], "and at", xy)
    drawn = {}
    for a in calls["draw_networkx_nodes"]:
        lst = list(a["G"]) if a["nodelist"] is None else list(a["nodelist"])
        placed(a["pos"], lst)
        for x, col in zip(lst, spread(a["node_color"], len(lst))):
            check(x not in drawn, "node", x, "is drawn twice")
            drawn[x] = col
    check(set(drawn) == nodes, "drawn nodes", sorted(drawn), "nodes", sorted(nodes))
    for x, col in drawn.items():
        check(is_white(col) == (x in boundary), "node", x, "is drawn in colour", col)
    check(len({str(col) for x, col in drawn.items() if x not in boundary}) <= 1, "detectors of different colours")
    named = {}
    for a in calls["draw_networkx_labels"]:
        lab = {x: x for x in a["G"]} if a["labels"] is None else dict(a["labels"])
        placed(a["pos"], lab)
        for x, t in lab.items():
            check(x not in named, "node", x, "is labelled twice")
            named[x] = str(t)
    check(named == {x: str(x) for x in nodes}, "node labels", named)
    # Edges: each drawn once, heavier ones thicker.
    width = {}
    for a in calls["draw_networkx_edges"]:
        lst = list(a["G"].edges()) if a["edgelist"] is None else [tuple(e[:2]) for e in a["edgelist"]]
        for (u, v), wd in zip(lst, spread(a["width"], len(lst))):
            placed(a["pos"], (u, v))
            k = frozenset((u, v))
            check(k not in width, "edge", (u, v), "is drawn twice")
            width[k] = float(wd)
    check(set(width) == set(want), "drawn edges", [sorted(k) for k in width], "edges", [sorted(k) for k in want])
    top = max(w for f, w in want.values())
    for k, wd in width.items():
        # from 0.2 for weight zero, growing in proportion to the weight
        check(0.2 - 1e-9 <= wd <= 2.2 + 1e-9, "edge", sorted(k), "has thickness", wd)
    if top > 0:
        heavy = max(width[k] for k in want if want[k][1] == top)
        for k, wd in width.items():
            check(abs((wd - 0.2) * top - (heavy - 0.2) * want[k][1]) <= 1e-6 * top, "edge", sorted(k), "of weight", want[k][1],
                  "has thickness", wd, "while the heaviest, of weight", top, "has", heavy)
        check(heavy >= 2 - 1e-9, "the heaviest edge has thickness", heavy)
    text = {}
    for a in calls["draw_networkx_edge_labels"]:
        lab = a["edge_labels"] or {}
        for (u, v), t in lab.items():
            placed(a["pos"], (u, v))
            check(frozenset((u, v)) not in text, "edge", (u, v), "is labelled twice")
            text[frozenset((u, v))] = str(t)
    check(set(text) <= set(want), "labels on edges that do not exist:", [sorted(k) for k in text])
    for k, (f, w) in want.items():
        got = [int(x) for x in re.findall(r"-?\d+", text.get(k, ""))]
        check(sorted(got) == sorted(f), "edge", sorted(k), "with fault ids", sorted(f), "is labelled", text.get(k))


def property(g, c):
    n = g.pick([2, 4, 6, 8])
    m = pymatching.Matching()
    ref = Ref()
    for _ in range(1 + g.choice(3)):
        for _ in range(g.choice(7)):
            add(g, c, m, ref, n, False, wide=True)
        if g.chance(1, 2):
            b = set(x for x in range(n) if g.chance(1, 4))
            c.note("boundary", sorted(b))
            m.set_boundary_nodes(b)
            ref.set_boundary(b)
            c.label("boundary-%d" % min(len(b), 2))
        d, b, e = ref.num_detectors, len(ref.boundary), len(ref.edges)
        want = "<pymatching.Matching object with %d detector%s, %d boundary node%s, and %d edge%s>" % (
            d, "" if d == 1 else "s", b, "" if b == 1 else "s", e, "" if e == 1 else "s")
        for got in (repr(m), str(m)):
            check(got == want, "described as", got, "expected", want)
        if ref.edges and max(x[1] for x in ref.edges.values()) > 0:
            check_drawing(m, ref)
            c.label("drawn")
            if len(ref.edges) >= 2:
                c.nontrivial = True
        compare_edges(m, ref, "afterwards")
