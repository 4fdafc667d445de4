import warnings

from pygeneric import decode_case

PROPERTY_ID = "C07"
RULE = "Python API: one decoder, a history of calls in every mode including refused ones, each judged by exhaustive search; non-trivial when a non-empty syndrome was decoded on a graph with at least two edges"
warnings.simplefilter("ignore")


def property(g, c):
    decode_case(g, c, modes=("decode", "batch", "edges", "pairs"), negative=1, infeasible=1, calls=8, top_fid=g.pick([6, 70]))
