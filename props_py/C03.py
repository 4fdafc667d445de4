import warnings

from pygeneric import decode_case

PROPERTY_ID = "C03"
RULE = "Python API: graphs with more than 64 fault ids decoded through Matching.decode and decode_batch, judged by exhaustive search; non-trivial when a non-empty syndrome was decoded on a graph with at least two edges"
warnings.simplefilter("ignore")


def property(g, c):
    decode_case(g, c, modes=("decode", "batch"), negative=1, infeasible=0, top_fid=g.pick([64, 65, 70, 130, 200]))
