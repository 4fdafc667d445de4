import warnings

from pygeneric import decode_case

PROPERTY_ID = "C04"
RULE = "Python API: Matching.decode_to_edges_array on random small graphs, judged by exhaustive search; non-trivial when a non-empty syndrome was decoded on a graph with at least two edges"
warnings.simplefilter("ignore")


def property(g, c):
    decode_case(g, c, modes=("edges",), negative=1, infeasible=1)
