import warnings

from pygeneric import decode_case

PROPERTY_ID = "C05"
RULE = "Python API: decode_to_matched_dets_array and _dict on random small graphs, judged by shortest paths and exhaustive search; non-trivial when a non-empty syndrome was decoded on a graph with at least two edges"
warnings.simplefilter("ignore")


def property(g, c):
    decode_case(g, c, modes=("pairs",), negative=1 if g.chance(1, 4) else 0, infeasible=1)
