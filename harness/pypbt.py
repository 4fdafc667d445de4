"""Property-based testing core of the Python checks: the same design as pbt.h (a case is its sequence of choices),
with worker processes, crash and hang isolation, shrinking and replay."""
import argparse
import hashlib
import importlib.util
import json
import mmap
import os
import random
import resource
import signal
import struct
import sys
import tempfile
import time

MAXCH = 1 << 17


class Fail(Exception):
    pass


def check(cond, *msg):
    if not cond:
        raise Fail(" ".join(str(x) for x in msg))


class Gen:
    def __init__(self, seed=None, replay=None, mirror=None, scale=0):
        self.rec = []
        self.replay = replay
        self.rng = random.Random(seed) if replay is None else None
        self.mirror = mirror
        self.scale = scale

    def choice(self, n):
        n = max(1, n)
        if self.replay is None:
            v = int(self.rng.random() * n) if n < (1 << 40) else self.rng.randrange(n)
        else:
            k = len(self.rec)
            v = self.replay[k] if k < len(self.replay) else 0
            v = min(v, n - 1)
        self.rec.append(v)
        if self.mirror is not None and len(self.rec) < MAXCH:
            struct.pack_into("<Q", self.mirror, 16 + 8 * (len(self.rec) - 1), v)
            struct.pack_into("<Q", self.mirror, 8, len(self.rec))
        return v

    def range(self, lo, hi):
        return lo + self.choice(hi - lo + 1)

    def chance(self, num, den):
        return self.choice(den) >= den - num

    def weighted(self, ws):
        x = self.choice(sum(ws))
        for i, w in enumerate(ws):
            if x < w:
                return i
            x -= w
        return 0

    def pick(self, seq):
        return seq[self.choice(len(seq))]

    def shuffle(self, v):
        for i in range(len(v) - 1):
            j = i + self.choice(len(v) - i)
            v[i], v[j] = v[j], v[i]


class Ctx:
    def __init__(self):
        self.lines = []
        self.labels = {}
        self.nontrivial = False

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def note(self, *a):
        self.lines.append(" ".join(str(x) for x in a))


def new_mirror():
    return mmap.mmap(-1, 16 + 8 * MAXCH)


def mirror_choices(m):
    n = struct.unpack_from("<Q", m, 8)[0]
    return list(struct.unpack_from("<%dQ" % n, m, 16))


def run_case(prop, gen, ctx):
    """None if the property held, else a message."""
    try:
        prop.property(gen, ctx)
        return None
    except Fail as e:
        return str(e)
    except Exception as e:  # noqa: BLE001
        import traceback
        return "unexpected exception: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])


def arm(secs):
    signal.setitimer(signal.ITIMER_PROF, secs)


def limit():
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def status_message(st, err):
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        m = "hang: case exceeded its CPU-time limit" if s == signal.SIGPROF else "crash: signal %d" % s
    else:
        m = "crash: exit status %d" % os.WEXITSTATUS(st)
    return m + ("\n" + err if err else "")


def forked(prop, choices, scale, cpu):
    """Runs one case in a child: (message or None, choices actually used, description)."""
    m = new_mirror()
    r, w = os.pipe()
    err = tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.dup2(err.fileno(), 2)
        os.dup2(err.fileno(), 1)
        limit()
        arm(cpu)
        g = Gen(replay=choices, mirror=m, scale=scale)
        c = Ctx()
        msg = run_case(prop, g, c)
        out = json.dumps(dict(msg=msg, desc=c.lines, rec=g.rec)).encode()
        with os.fdopen(w, "wb") as f:
            f.write(out)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st == 0 and data:
        d = json.loads(data)
        return d["msg"], d["rec"], d["desc"]
    err.seek(0)
    return status_message(st, err.read(3000).decode(errors="replace")), mirror_choices(m), ["(crashed)"]


def shrink(prop, choices, scale, cpu, budget=120):
    best = list(choices)
    t0 = time.time()
    tries = 0

    def attempt(cand):
        nonlocal best, tries
        tries += 1
        msg, rec, _ = forked(prop, cand, scale, cpu)
        if msg is None:
            return False
        rec = rec[:len(cand)]
        if (len(rec), rec) < (len(best), best):
            best = rec
            return True
        return False

    improved = True
    while improved and time.time() - t0 < budget and tries < 4000:
        improved = False
        n = max(1, len(best) // 2)
        while n >= 1 and time.time() - t0 < budget:
            i = 0
            while i + n <= len(best) and time.time() - t0 < budget:
                if attempt(best[:i] + best[i + n:]):
                    improved = True
                else:
                    i += n
            n //= 2
        i = 0
        while i < len(best) and time.time() - t0 < budget:
            if best[i]:
                for v in (0, best[i] // 2, best[i] - 1):
                    if i < len(best) and v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                        improved = True
                        break
            i += 1
    return best


def worker(prop, args, wid, pipe_w):
    limit()
    m = args.mirrors[wid]
    keep_samples = []
    labels, labelled, evals, seen = {}, 0, 0, set()
    t_end = time.time() + args.time_cap
    result = None
    i = args.starts[wid]
    while i < args.cases and time.time() < t_end:
        struct.pack_into("<Q", m, 0, i)
        struct.pack_into("<Q", m, 8, 0)
        g = Gen(seed=args.seed * 1000003 + i, mirror=m, scale=args.scale)
        c = Ctx()
        arm(args.cpu)
        msg = run_case(prop, g, c)
        arm(0)
        evals += 1
        labelled += 1
        for k, v in c.labels.items():
            labels[k] = labels.get(k, 0) + v
        if c.nontrivial:
            h = hashlib.blake2b(repr(g.rec).encode(), digest_size=8).digest()
            if h not in seen:
                seen.add(h)
                if len(keep_samples) < 2 and evals > 20:
                    keep_samples.append("\n".join(c.lines)[:1500])
        if msg is not None:
            result = dict(msg=msg, rec=g.rec, case=i)
            break
        i += args.workers
    data = json.dumps(dict(result=result, evals=evals, labels=labels, labelled=labelled, samples=keep_samples,
                           seen=[h.hex() for h in seen])).encode()
    with os.fdopen(pipe_w, "wb") as f:
        f.write(data)
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--package")
    ap.add_argument("--shim")
    ap.add_argument("--prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cases", type=int, default=1000)
    ap.add_argument("--time-cap", type=float, default=60, dest="time_cap")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--scale", type=int, default=0)
    ap.add_argument("--out")
    ap.add_argument("--replay-out", dest="replay_out")
    ap.add_argument("--replay")
    ap.add_argument("--known", default="")
    ap.add_argument("--cpu", type=float, default=30)
    args = ap.parse_args()
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    sys.path[:0] = [args.package, args.shim, os.path.dirname(os.path.abspath(__file__))]
    sys.modules["pypbt"] = sys.modules["__main__"]
    spec = importlib.util.spec_from_file_location("prop", args.prop)
    prop = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(prop)

    if args.replay:
        d = json.load(open(args.replay))
        msg, rec, desc = forked(prop, d["choices"], args.scale, args.cpu)
        print("\n".join(desc))
        print("FAILED: " + msg if msg else "held")
        return 1 if msg else 0

    args.mirrors = [new_mirror() for _ in range(args.workers)]
    args.starts = list(range(args.workers))
    procs = {}
    for w in range(args.workers):
        r, wr = os.pipe()
        err = tempfile.TemporaryFile()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.dup2(err.fileno(), 2)
            os.dup2(err.fileno(), 1)
            worker(prop, args, w, wr)
        os.close(wr)
        procs[w] = (pid, r, err)
    evals, labels, labelled, samples, seen, failures = 0, {}, 0, [], set(), []
    for w, (pid, r, err) in procs.items():
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if st != 0 or not data:
            err.seek(0)
            m = args.mirrors[w]
            failures.append((struct.unpack_from("<Q", m, 0)[0], status_message(st, err.read(3000).decode(errors="replace")),
                             mirror_choices(m)))
            continue
        d = json.loads(data)
        evals += d["evals"]
        labelled += d["labelled"]
        for k, v in d["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += d["samples"]
        seen.update(d["seen"])
        if d["result"]:
            failures.append((d["result"]["case"], d["result"]["msg"], d["result"]["rec"]))
    out = dict(property=prop.PROPERTY_ID, evaluations=evals, distinct_nontrivial=len(seen), labelled=labelled,
               rule=prop.RULE, violation=False, message="", requested=args.cases, labels=labels, known_hits=[],
               samples=samples[:4])
    if failures:
        failures.sort()
        case, msg, rec = failures[0]
        first, _, _ = forked(prop, rec, args.scale, args.cpu)
        best = shrink(prop, rec, args.scale, args.cpu) if first is not None else rec
        fmsg, _, desc = forked(prop, best, args.scale, args.cpu)
        out["violation"] = True
        out["message"] = (fmsg or msg) + "\n" + "\n".join(desc)
        if args.replay_out:
            json.dump(dict(property=prop.PROPERTY_ID, choices=best, scale=args.scale, message=fmsg or msg,
                           description=desc, reproducible=fmsg is not None, found_at_case=case),
                      open(args.replay_out, "w"), indent=1)
        print("FAILED: " + out["message"])
    if args.out:
        json.dump(out, open(args.out, "w"), indent=1)
    print("%s: %d cases, %d distinct non-trivial" % (prop.PROPERTY_ID, evals, len(seen)))
    return 1 if failures else 0


if __name__ == "__main__":
    sys.exit(main())
