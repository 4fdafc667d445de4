import warnings

from pystateful import history

PROPERTY_ID = "C14"
RULE = ("Python API: random histories of add_edge, add_boundary_edge (every merge strategy and argument form), set_boundary_nodes, "
        "ensure_num_fault_ids and rejected calls, mirrored after every step by a dictionary model; non-trivial when the graph "
        "has at least two edges")
warnings.simplefilter("ignore")


def property(g, c):
    history(g, c, False, 14)
