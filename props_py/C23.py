import warnings

from pygeneric import decode_case

PROPERTY_ID = "C23"
RULE = "Python API: graphs mixing boundary nodes and virtual boundary edges, with detection events on boundary nodes, judged by exhaustive search; non-trivial when a non-empty syndrome was decoded on a graph with at least two edges"
warnings.simplefilter("ignore")


def property(g, c):
    decode_case(g, c, modes=("decode", "batch", "edges", "pairs"), infeasible=1, calls=4)
