import os
import sys
import tempfile
import warnings

import numpy as np
import stim

import pymatching
import pydem
from pymatching._cli_argv import cli_argv
from pypbt import check
from pymodel import gen_events

PROPERTY_ID = "C22"
RULE = ("Python API: pymatching.cli and the console entry point run on random models and shot files (01, b8, dets) in a scratch "
        "directory; predictions and counts are compared with Matching.decode of every shot; non-trivial when at least two shots "
        "have detection events")
warnings.simplefilter("ignore")


def encode(fmt, rows, nd):
    if fmt == "01":
        return "".join("".join(str(int(b)) for b in r) + "\n" for r in rows).encode()
    if fmt == "b8":
        return b"".join(np.packbits(np.array(r, dtype=np.uint8), bitorder="little").tobytes() for r in rows)
    out = ""
    for r in rows:
        out += "shot" + "".join(" D%d" % k if k < nd else " L%d" % (k - nd) for k in range(len(r)) if r[k]) + "\n"
    return out.encode()


def property(g, c):
    corr = g.chance(1, 3)
    md = pydem.generate(g, correlated=True)
    ref = pydem.reference(md)
    if ref.num_nodes == 0 or not ref.edges:
        return
    nd, nf = md.num_dets, md.num_obs
    m = pymatching.Matching(stim.DetectorErrorModel(md.text), enable_correlations=corr)
    shots = [gen_events(g, ref) for _ in range(g.choice(6))]
    zs = []
    for ev in shots:
        z = [0] * nd
        for x in ev:
            z[x] = 1
        zs.append(z)
    want = [m.decode(z, enable_correlations=corr).tolist() for z in zs]
    fmt = g.pick(["01", "b8", "dets"])
    count = g.chance(1, 2) and nf <= 64
    appended = g.chance(1, 2)
    c.note("%s correlations=%s format=%s appended=%s shots=%s\n%s" % ("count_mistakes" if count else "predict", corr, fmt, appended,
                                                                      shots, md.text))
    c.label("count_mistakes" if count else "predict")
    c.label("format-" + fmt)
    if len([s for s in shots if s]) >= 2:
        c.nontrivial = True
    actual = []
    for w in want:
        a = list(w)
        if a and g.chance(1, 2):
            k = g.choice(len(a))
            a[k] ^= 1
        actual.append(a)
    with tempfile.TemporaryDirectory() as d:
        def path(n):
            return os.path.join(d, n)

        with open(path("m.dem"), "w") as f:
            f.write(md.text)
        rows = [z + (actual[i] if appended else []) for i, z in enumerate(zs)]
        with open(path("shots"), "wb") as f:
            f.write(encode(fmt, rows, nd))
        args = ["--dem", path("m.dem"), "--in", path("shots"), "--in_format", fmt, "--out", path("out")]
        if appended:
            args.append("--in_includes_appended_observables")
        if corr:
            args.append("--enable_correlations")
        ofmt = g.pick(["01", "b8", "dets"])
        if count:
            if not appended:
                if nf == 0 and ofmt == "b8":
                    ofmt = "01"  # b8 records of no bits have no extent
                with open(path("obs"), "wb") as f:
                    if ofmt == "dets":
                        f.write("".join("shot" + "".join(" L%d" % k for k in range(nf) if a[k]) + "\n" for a in actual).encode())
                    else:
                        f.write(encode(ofmt, actual, nf))
                args += ["--obs_in", path("obs"), "--obs_in_format", ofmt]
            args = ["count_mistakes"] + args
        else:
            args = ["predict"] + args + ["--out_format", ofmt]
        if g.chance(1, 2):
            rc = pymatching.cli(command_line_args=args)
        else:
            old = sys.argv
            sys.argv = ["pymatching"] + args
            try:
                cli_argv()
            finally:
                sys.argv = old
            rc = 0
        check(rc == 0, "exit status", rc)
        with open(path("out"), "rb") as f:
            got = f.read()
        if count:
            mistakes = sum(1 for i in range(len(zs)) if actual[i] != want[i])
            check(got == b"%d / %d\n" % (mistakes, len(zs)), "counted", got, "expected", mistakes, "of", len(zs))
        else:
            if ofmt == "dets":
                exp = "".join("shot" + "".join(" L%d" % k for k in range(nf) if w[k]) + "\n" for w in want).encode()
            else:
                exp = encode(ofmt, want, nf)
            check(got == exp, "predicted", got, "expected", exp)
        if g.chance(1, 10):
            for bad in (args + ["--bogus"], ["nonsense"]):
                try:
                    rc = pymatching.cli(command_line_args=bad)
                except ValueError:
                    rc = 1
                check(rc != 0, bad[0], bad[-1], "was accepted")
