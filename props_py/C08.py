import warnings

from pygeneric import decode_case

PROPERTY_ID = "C08"
RULE = "Python API: feasible and infeasible syndromes in every mode; accepted exactly when exhaustive search finds an explanation; non-trivial when a non-empty syndrome was decoded on a graph with at least two edges"
warnings.simplefilter("ignore")


def property(g, c):
    decode_case(g, c, modes=("decode", "batch", "edges", "pairs"), infeasible=3, calls=5)
