"""Shared machinery: environment, bounded exhaustive exploration, reporting.

A check enumerates *items*.  An item is one start of an execution of the real
code: a plain JSON value that names a state of the explored space (a complex,
a file, a history prefix, ...).  ``run_item(item, rec)`` drives the real code
from that state through the whole alphabet of operations and compares every
observation with the reference model.  Nothing is sampled: all items of the
tier's bound are run, in parallel worker processes.
"""

import contextlib
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

os.environ["MPLBACKEND"] = "Agg"
for _v in (
    "OMP_NUM_THREADS",
    "OPENBLAS_NUM_THREADS",
    "MKL_NUM_THREADS",
    "NUMEXPR_NUM_THREADS",
):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# failures after which a run ends early (0: at the first one)
STOP = int(os.environ.get("MC_STOP", "200"))
REPO = os.path.abspath(os.environ.get("MC_REPO", "/repo"))
STUBS = os.path.join(VERIF, "mc", "stubs")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
ITEM_TIMEOUT = 120  # seconds; an item normally takes milliseconds

if REPO not in sys.path:
    sys.path.insert(0, REPO)


def load_target():
    """Import pytspl from the working tree under test."""
    import warnings

    warnings.filterwarnings("ignore")
    try:
        import chebpy  # noqa: F401
    except ImportError:
        sys.path.append(STUBS)
    with contextlib.redirect_stdout(io.StringIO()):
        import pytspl
    got = os.path.dirname(os.path.dirname(os.path.abspath(pytspl.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        raise RuntimeError(f"pytspl comes from {got}, not from {REPO}")
    try:
        import torch

        torch.set_num_threads(1)
    except ImportError:
        pass
    return pytspl


class Hang(BaseException):
    """The code under test did not return."""


class Mismatch(Exception):
    """The real code and the reference model disagree."""


class Rec:
    """What one item contributes to the coverage, and what went wrong."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.failures = []
        self.samples = []
        self.known = set()

    def state(self, *key):
        """A distinct state of the explored space was visited."""
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def step(self, n=1):
        """n operations of the alphabet were executed on the real code."""
        self.transitions += n

    def trace(self, n=1):
        """n model traces were replayed on the real code and compared."""
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)

    def fail(self, message, key=None, detail=None):
        """Record a violation. key identifies a finding: see known_findings.txt."""
        if key and key in _KNOWN:
            self.known.add(key)  # a listed finding: exploration goes on
            return
        self.failures.append(
            {"message": str(message)[:2000], "key": key or "", "detail": detail}
        )

    def check(self, cond, message, key=None):
        if not cond:
            self.fail(message() if callable(message) else message, key)
        return bool(cond)


def _watch(seconds):
    """Raise Hang after so many seconds of computing (whatever else the machine is
    doing), or after three times as many of waiting; 0: stop watching."""
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.alarm(3 * seconds)


def _handle():
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)


def _alarm(signum, frame):
    raise Hang()


_MODULE = None
_KNOWN = {}


def _worker(conn, chunks, clock):
    _init_worker()
    while True:
        i = conn.recv()
        if i is None:
            return
        conn.send((len(chunks[i]), _chunk(chunks[i], clock)))


def _pool(chunks, limit, enough):
    """Run the chunks in worker processes.  A worker that dies, or that stays in
    one item (say in a library call that never returns, where no Python signal
    handler runs) ends the exploration with a violation for that item."""
    import multiprocessing as mp
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    todo = iter(range(len(chunks)))
    workers = {}
    try:
        for _ in range(min(WORKERS, len(chunks))):
            here, there = ctx.Pipe()
            clock = ctx.RawArray("d", 2)
            p = ctx.Process(target=_worker, args=(there, chunks, clock), daemon=True)
            p.start()
            there.close()
            i = next(todo)
            clock[1] = time.time()
            here.send(i)
            workers[here] = [p, clock, i]
        while workers:
            for conn in wait(list(workers), timeout=2):
                p, clock, i = workers[conn]
                try:
                    result = conn.recv()
                except EOFError:
                    yield 0, _lost(chunks[i], clock, "the process died")
                    return
                yield result
                if enough():
                    return
                i = next(todo, None)
                if i is None:
                    conn.send(None)
                    del workers[conn]
                    p.join(5)
                else:
                    clock[0], clock[1] = 0, time.time()
                    conn.send(i)
                    workers[conn][2] = i
            for p, clock, i in workers.values():
                if time.time() - clock[1] > 3 * limit + 30:
                    yield 0, _lost(chunks[i], clock, f"no answer within {limit} s")
                    return
    finally:
        for p, _, _ in workers.values():
            p.kill()


def _lost(chunk, clock, message):
    item = chunk[min(int(clock[0]), len(chunk) - 1)]
    rec = Rec()
    rec.fail(message)
    rec.failures[0]["item"] = item
    return _result(rec)


def _init_worker():
    import gc

    gc.freeze()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    _handle()


def pristine(fn, keys):
    """{key: fn(key)}, every call in a process of its own in which nothing of the
    code under test has run before: what an object answers that has no history,
    not even one that is kept in its class or module.  An exception is returned."""
    import multiprocessing as mp

    keys = list(keys)
    with mp.get_context("fork").Pool(
        WORKERS, initializer=_init_worker, maxtasksperchild=1
    ) as pool:
        got = pool.map_async(_Pristine(fn), keys, chunksize=1).get(600)
    return dict(zip(keys, got))


class _Pristine:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, key):
        _reseed()
        _watch(120)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return self.fn(key)
        except Hang:
            return RuntimeError("no answer within 120 s")
        except Exception as e:
            return RuntimeError(f"{type(e).__name__}: {e}")
        finally:
            _watch(0)


def _reseed():
    """Every item starts from the same state of the global generators."""
    import random

    import numpy as np

    random.seed(SEED)
    np.random.seed(SEED)
    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(SEED)


def _one(item, rec):
    _reseed()
    before = len(rec.failures)
    limit = getattr(_MODULE, "ITEM_TIMEOUT", ITEM_TIMEOUT)
    _watch(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            _MODULE.run_item(item, rec)
    except Hang:
        rec.fail(f"no answer within {limit} s")
    except Mismatch as e:
        rec.fail(str(e))
    except MemoryError:
        raise
    except Exception as e:  # the real code failed on a valid input
        tb = traceback.format_exc(limit=-6)
        rec.fail(f"unexpected {type(e).__name__}: {e}", detail=tb)
    finally:
        _watch(0)
    for f in rec.failures[before:]:
        f["item"] = item


def _chunk(items, clock=None):
    rec = Rec()
    for n, item in enumerate(items):
        if clock is not None:
            clock[0], clock[1] = n, time.time()
        _one(item, rec)
        if len(rec.failures) > min(20, STOP):
            break
    return _result(rec)


def _result(rec):
    return (
        rec.states,
        rec.transitions,
        rec.traces,
        rec.outcomes,
        rec.failures[:25],
        rec.samples,
        rec.known,
    )


def _chunks(items, size):
    buf = []
    for it in items:
        buf.append(it)
        if len(buf) >= size:
            yield buf
            buf = []
    if buf:
        yield buf


def known_keys(pid):
    """Finding keys listed for the property: lines 'known: property=<id> key=<key> ...'."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith(f"known: property={pid} "):
                rest = line.split(" ", 2)[2]
                key = rest.split(" ", 1)[0]
                if key.startswith("key="):
                    out[key[4:]] = rest.split(" ", 1)[1] if " " in rest else ""
    return out


def run_check(pid, module, tier, replay=None):
    """Everything the check writes outside the evidence goes to one scratch folder."""
    scratch = tempfile.mkdtemp(prefix="mc.")
    tempfile.tempdir = os.environ["TMPDIR"] = scratch
    try:
        return _run_check(pid, module, tier, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run_check(pid, module, tier, replay):
    global _MODULE, _KNOWN
    t0 = time.time()
    load_target()
    _MODULE = module
    _KNOWN = known_keys(pid)
    if hasattr(module, "setup"):
        with contextlib.redirect_stdout(io.StringIO()):
            module.setup(tier)

    if replay:
        rec = Rec()
        _handle()
        for item in json.load(open(replay))["items"]:
            _one(item, rec)
        for f in rec.failures:
            print("REPLAY:", f["message"])
            if f.get("detail"):
                print(f["detail"])
        print(f"replayed: {len(rec.failures)} failure(s)")
        return 1 if rec.failures else 0

    items = module.items(tier)
    states, outcomes, samples, new, hit = set(), set(), [], [], set()
    transitions = traces = nitems = 0
    size = getattr(module, "CHUNK", 64)
    limit = getattr(module, "ITEM_TIMEOUT", ITEM_TIMEOUT)

    def results():
        allc = list(_chunks(items, size))
        if WORKERS <= 1:
            _handle()
            for c in allc:
                yield len(c), _chunk(c)
        else:
            yield from _pool(allc, limit, lambda: len(new) > STOP)

    for n, (s, tr, ct, oc, fl, sm, kn) in results():
        nitems += n
        states |= s
        outcomes |= oc
        transitions += tr
        traces += ct
        new += fl
        hit |= kn
        if len(samples) < 5:
            samples += sm

    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={pid} {k} {_KNOWN[k]}")

    code = 0
    os.makedirs(EVIDENCE, exist_ok=True)
    if new:
        code = 1
        path = os.path.join(EVIDENCE, f"{pid}.replay.json")
        new.sort(key=lambda f: len(json.dumps(f["item"])))
        with open(path, "w") as fh:
            json.dump(
                {
                    "property": pid,
                    "replay_cmd": f"python run.py {pid} --replay {path}",
                    "items": [new[0]["item"]],
                    "failures": new[:20],
                },
                fh,
                indent=1,
                default=str,
            )
        for f in new[:5]:
            print(f"  {f['message']}")
            if f.get("detail"):
                print("    " + f["detail"].strip().replace("\n", "\n    "))
            print(f"    item: {json.dumps(f['item'], default=str)[:400]}")
        print(f"VIOLATION property={pid} replay={path}")

    wall = round(time.time() - t0, 2)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": SEED,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "samples": samples[:5] or ["none"],
            "start_points": nitems,
            "distinct_observed_outcomes": len(outcomes),
            "exhaustive": not new,
            "bound": module.bound(tier) if hasattr(module, "bound") else "",
            "conformance": "every trace of the reference model is replayed on "
            "the real code and every observation compared",
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": wall,
        "violations": len(new),
    }
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(
        f"{pid} {tier}: start points {nitems}, states {len(states)}, "
        f"transitions {transitions}, traces {traces}, "
        f"outcomes {len(outcomes)}, violations {len(new)}, {wall} s"
    )
    return code
