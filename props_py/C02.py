import warnings

from pygeneric import decode_case

PROPERTY_ID = "C02"
RULE = "Python API: random small graphs decoded through Matching.decode and decode_batch, weight and prediction judged by exhaustive search; non-trivial when a non-empty syndrome was decoded on a graph with at least two edges"
warnings.simplefilter("ignore")


def property(g, c):
    decode_case(g, c, modes=("decode", "batch"), infeasible=0, top_fid=g.pick([1, 6, 15, 62]))
