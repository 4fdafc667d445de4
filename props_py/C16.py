import os
import pathlib
import tempfile
import warnings

import stim

import pymatching
import pydem
from pypbt import check
from pymodel import check_decode, compare_edges, gen_events, raises

PROPERTY_ID = "C16"
RULE = ("Python API: random decomposed error models loaded through every entry point (constructor, from_detector_error_model, files "
        "given as strings or paths, circuits standing for the model), compared with the reference graph and decoded; non-trivial "
        "when the model has at least two edges and one error with several components")
warnings.simplefilter("ignore")


def property(g, c):
    corr = g.chance(1, 2)
    md = pydem.generate(g, correlated=corr, many_obs=True)
    ref = pydem.reference(md)
    if corr:
        pydem.implied_weights(md, ref)
    how = g.choice(7)
    c.note("entry %d correlations %s\n%s" % (how, corr, md.text))
    c.label("entry-%d" % how)
    kw = {"enable_correlations": True} if corr else {}
    M = pymatching.Matching
    if how in (2, 3, 6):
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "model.dem")
            with open(path, "w") as f:
                f.write(md.text)
            p = path if g.chance(1, 2) else pathlib.Path(path)
            m = M.from_stim_circuit_file(p, **kw) if how == 6 else M.from_detector_error_model_file(p, **kw)
            raises(ValueError, lambda: M.from_detector_error_model_file(path + ".missing"), "missing file")
    elif how == 0:
        m = M(stim.DetectorErrorModel(md.text), **kw)
    elif how == 1:
        m = M.from_detector_error_model(stim.DetectorErrorModel(md.text), **kw)
    elif how == 4:
        m = M(stim.Circuit(md.text), **kw)
    else:
        m = M.from_stim_circuit(stim.Circuit(md.text), **kw)
    compare_edges(m, ref, "loaded")
    k = g.choice(8)
    if k == 0:
        raises(TypeError, lambda: M.from_detector_error_model(stim.Circuit(md.text)), "a circuit instead of a model")
    elif k == 1:
        raises(TypeError, lambda: M.from_stim_circuit(stim.DetectorErrorModel(md.text)), "a model instead of a circuit")
    if ref.num_nodes and len(ref.edges) <= 12:
        t = ref.tables()
        for _ in range(2):
            ev = gen_events(g, ref, g.chance(5, 6))
            c.note("events", ev)
            check_decode(m, ref, t, ev, "plain")
    if len(ref.edges) >= 2 and any(len(x[1]) > 1 for x in md.errors):
        c.nontrivial = True
