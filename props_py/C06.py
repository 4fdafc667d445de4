import warnings

from pygeneric import decode_case

PROPERTY_ID = "C06"
RULE = "Python API: graphs with negative weights decoded through Matching.decode, decode_batch and decode_to_edges_array, judged by exhaustive search; non-trivial when a non-empty syndrome was decoded on a graph with at least two edges"
warnings.simplefilter("ignore")


def property(g, c):
    decode_case(g, c, modes=("decode", "batch", "edges"), negative=4, infeasible=0)
