"""Phases and case counts of every check: (cases, time cap in seconds) per tier."""

COMMON_ASSUMPTIONS = [
    "phases named py load the Python package of /repo with its bindings compiled against /verif/shim/pybind11, a small reimplementation of the parts of pybind11 they use, and stand-ins for stim, rustworkx and matplotlib",
    "g++ 13 on x86-64; Stim is replaced by /verif/shim/stim.h, a small reimplementation of the parts PyMatching calls",
]


def cpp(prop, san, fast, cap=(45, 600)):
    """san / fast: cases of the quick tier; the thorough tier runs 20 times as many."""
    ph = []
    if san:
        ph.append(dict(name="san", config="san", quick=(san, cap[0]), thorough=(san * 20, cap[1])))
    if fast:
        ph.append(dict(name="fast", config="fast", quick=(fast, cap[0]), thorough=(fast * 20, cap[1])))
    return dict(phases=ph)


def py(cases, cap=(60, 600)):
    return dict(name="py", config="py", quick=(cases, cap[0]), thorough=(cases * 20, cap[1]))


CHECKS = {
    "C01": cpp("C01", 80000, 800000),
    "C02": cpp("C02", 80000, 800000),
    "C03": cpp("C03", 80000, 800000),
    "C04": cpp("C04", 80000, 800000),
    "C05": cpp("C05", 80000, 800000),
    "C06": cpp("C06", 80000, 800000),
    "C07": cpp("C07", 80000, 800000),
    "C08": cpp("C08", 80000, 800000),
    "C09": cpp("C09", 80000, 800000),
    "C10": cpp("C10", 160000, 1600000),
    "C11": cpp("C11", 320000, 4000000),
    "C12": cpp("C12", 320000, 4000000),
    "C13": cpp("C13", 80000, 800000),
    "C14": cpp("C14", 80000, 1000000),
    "C15": cpp("C15", 60000, 600000),
    "C16": cpp("C16", 60000, 600000),
    "C17": cpp("C17", 60000, 600000),
    "C18": dict(phases=[py(160000)]),
    "C19": dict(phases=[py(220000)]),
    "C20": dict(phases=[py(220000)]),
    "C21": cpp("C21", 80000, 800000),
    "C22": cpp("C22", 40000, 200000),
    "C23": cpp("C23", 60000, 600000),
    "C24": cpp("C24", 40000, 300000),
    "C25": cpp("C25", 8000, 80000),
    "C26": cpp("C26", 80000, 500000),
    "C27": cpp("C27", 20000, 90000),
    "C29": dict(phases=[dict(name="tsan", config="tsan", quick=(60000, 45), thorough=(1200000, 600)),
                        dict(name="fast", config="fast", quick=(200000, 45), thorough=(6000000, 600))]),
    "C28": cpp("C28", 50000, 600000),
    "C31": cpp("C31", 50000, 500000),
    "C30": dict(phases=[py(100000)]),
}
# The same properties through the Python layer (bindings and matching.py), which the C++ phases do not touch.
for _p, _n in {"C02": 30000, "C03": 30000, "C04": 40000, "C05": 40000, "C06": 30000, "C07": 30000, "C08": 30000, "C14": 50000,
               "C15": 40000, "C16": 40000, "C17": 40000, "C21": 40000, "C22": 40000, "C23": 30000, "C28": 7000}.items():
    CHECKS[_p]["phases"].append(py(_n))
# Coverage-guided search over choice sequences, in the thorough tier only: it finds rare paths, but per second of run time
# it is no quicker than random search at the defects planted so far.
for _p, _c in CHECKS.items():
    if any(ph["config"] == "fast" for ph in _c["phases"]) and _p != "C29":
        _c["phases"].insert(2, dict(name="cov", config="cov", thorough=(10 ** 9, 150)))
NOT_APPLICABLE = {}
