import warnings

from pystateful import history

PROPERTY_ID = "C15"
RULE = ("Python API: random histories of graph changes interleaved with decoding calls of every mode, each call judged by "
        "exhaustive search on the graph as it is now; non-trivial when at least two non-empty syndromes were decoded on a graph "
        "with at least two edges")
warnings.simplefilter("ignore")


def property(g, c):
    history(g, c, True, 24)
