"""setup_cmd: builds every check once, so that the checks' own builds are incremental."""
import concurrent.futures as cf
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, config
bad = 0


def one(job):
    try:
        build.build_phase(*job)
        return None
    except build.BuildError as e:
        return str(e)


jobs = [(p, ph) for p, spec in config.CHECKS.items() for ph in spec["phases"] if "quick" in ph]
if not build.tsan_works():
    jobs = [j for j in jobs if j[1]["config"] != "tsan"]
first = {}
for j in jobs:
    first.setdefault(j[1]["config"], j)
errors = [one(j) for j in first.values()]  # shared objects first
with cf.ThreadPoolExecutor(max_workers=8) as ex:
    errors += list(ex.map(one, [j for j in jobs if j not in first.values()]))
for e in errors:
    if e:
        bad += 1
        print(e)
sys.exit(1 if bad else 0)
