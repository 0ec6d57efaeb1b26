"""C16: every run of a filter reports its own result, whatever ran before."""

import itertools

import numpy as np

from . import gen
from .common import build, describe
from .core import Mismatch, pristine
from .filt import equal, snapshot
from .ref import dense

CHUNK = 1
ASSUMPTIONS = [
    "runs on one thread; the random generator is seeded before a noisy run, so that "
    "the run on a fresh object can be repeated",
    "a refused least-squares run leaves no result, as its code says; a refused run of "
    "another filter may leave the previous result or none, but no mixture",
]


def bound(tier):
    k = 3 if tier == "quick" else 4
    return (
        f"every sequence of at most {k} operations (runs with different parameters, "
        "refused runs, overwriting the reported arrays) on each of the five filter "
        f"classes, and every sequence of at most {k} operations on two objects that "
        "share a complex or have different ones of the same shape; on three complexes; "
        "the given flows exchanged in place between runs; 5 orders of all operations, "
        "repeated up to 48 runs on one object; every pair of runs of a method that each "
        "differ from a base run in at most one argument; "
        "the expected reports come from processes in which only that run took place"
    )


def complexes():
    k4 = gen.orient([(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)], "mix")
    return [
        gen.cx(4, k4, [(0, 1, 2)]),
        gen.cx(5, gen.orient([(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (3, 4)], "alt"),
               [(0, 1, 2), (1, 2, 3)]),
        gen.cx(3, [(1, 0), (2, 1), (0, 2)], []),
        # the shape of the second one
        gen.cx(5, gen.orient([(0, 1), (0, 2), (1, 2), (0, 4), (2, 4), (3, 4)], "mix"),
               [(0, 1, 2), (0, 2, 4)]),
    ]  # fmt: skip


def flows(E):
    i = np.arange(E)
    return np.sin(1 + 2.3 * i) * 3 + 0.5, ((-1.0) ** i) * (1 + i % 4)


def alphabet(cls):
    """name -> (object, f1, f2) -> run it."""
    snr = np.array([3.0, 10.0])
    return {
        "EdgeFlowDenoising": {
            "L1": lambda o, a, b: o.denoise(a, b, "L1"),
            "L1L two mu": lambda o, a, b: o.denoise(b, a, "L1L", [0.1, 4]),
            "L1U": lambda o, a, b: o.denoise(a, b, "L1U", [2.0]),
            "refused": lambda o, a, b: o.denoise(a, b, "L3"),
        },
        "LSFilterDesign": {
            "one gradient": lambda o, a, b: o.subcomponent_extraction_type_one(
                a, "gradient", 2),
            "one harmonic": lambda o, a, b: o.subcomponent_extraction_type_one(
                b, "harmonic", 3),
            "two gradient": lambda o, a, b: o.subcomponent_extraction_type_two(
                b, "gradient", 3),
            "two curl": lambda o, a, b: o.subcomponent_extraction_type_two(
                a, "curl", 1),
            "general": lambda o, a, b: o.general_filter(a, 2, 3),
            "general curl": lambda o, a, b: o.general_filter(b, 0, 2),
            "refused": lambda o, a, b: o.subcomponent_extraction_type_one(a, "x", 2),
            "refused two": lambda o, a, b: o.subcomponent_extraction_type_two(
                a, "harmonic", 2),
        },
        "GridBasedFilterDesign": {
            "denoise": lambda o, a, b: o.denoise(a, b, "L1", 2),
            "denoise L1L": lambda o, a, b: o.denoise(b, a, "L1L", 3, 2.0),
            "curl": lambda o, a, b: o.subcomponent_extraction(a, "curl", "L1U", 2),
            "gradient": lambda o, a, b: o.subcomponent_extraction(
                b, "gradient", "L1L", 3, 7, 0.5, 0.3, 20),
            "general": lambda o, a, b: o.general_filter(a, 2, 3),
            "general gradient": lambda o, a, b: o.general_filter(b, 2, 0),
            "refused": lambda o, a, b: o.denoise(a, b, "", 2),
        },
        "ChebyshevFilterDesign": {
            "gradient": lambda o, a, b: o.apply(a, L=3),
            "harmonic": lambda o, a, b: o.apply(b, "L1", "harmonic", 2, 5),
            "long": lambda o, a, b: o.apply(a, "L1L", "gradient", 6, None, 0.5, 10),
            "refused": lambda o, a, b: o.apply(a, component="x"),
        },
        "SimplicialTrendFilter": {
            "l2 divergence": lambda o, a, b: o.denoising_l2_regularizer(
                a, "divergence", 2, snr),
            "l2 curl": lambda o, a, b: o.denoising_l2_regularizer(
                b, "curl", 1, snr[:1], 3.0),
            "l1": lambda o, a, b: o.denoising_l1_regularizer(
                a, "divergence", 1, snr[1:], 1, 0.3),
            "interpolate": lambda o, a, b: o.interpolation_l1_regularizer(
                b, "curl", [0.5], 1),
            "refused": lambda o, a, b: o.denoising_l2_regularizer(
                a, "gradient", 1, snr),
        },
    }[cls]  # fmt: skip


# method -> the arguments of a run and, for each of them, other values.  Flows are given
# by number.
VARY = {
    "EdgeFlowDenoising": {
        "denoise": (
            {"f": 0, "f_true": 1, "p_choice": "L1", "mu_vals": [0.5, 2.0]},
            {"f": [1], "f_true": [0], "p_choice": ["L1L", "L1U"],
             "mu_vals": [[0.5], [2.0, 0.5], [0.5, 2.5], [0.5, 1.25, 2.0]]},
        ),
    },
    "LSFilterDesign": {
        "subcomponent_extraction_type_one": (
            {"f": 0, "component": "gradient", "L": 3},
            {"f": [1], "component": ["curl", "harmonic"], "L": [2, 4]},
        ),
        "subcomponent_extraction_type_two": (
            {"f": 0, "component": "gradient", "L": 3, "tolerance": 1e-6},
            {"f": [1], "component": ["curl"], "L": [2, 4], "tolerance": [2.5, 3.5]},
        ),
        "general_filter": (
            {"f": 0, "L1": 2, "L2": 3, "tolerance": 1e-3},
            {"f": [1], "L1": [3, 0], "L2": [2, 0], "tolerance": [2.5, 3.5]},
        ),
    },
    "GridBasedFilterDesign": {
        "denoise": (
            {"f": 0, "f_true": 1, "p_choice": "L1", "L": 3, "mu": 0.5},
            {"f": [1], "f_true": [0], "p_choice": ["L1L", "L1U"], "L": [2, 4],
             "mu": [0.6, 2.0]},
        ),
        "subcomponent_extraction": (
            {"f": 0, "component": "curl", "p_choice": "L1", "L": 3, "num_of_samples": 10,
             "cut_off_frequency": 1.0, "steep": 5},
            {"f": [1], "component": ["gradient"], "p_choice": ["L1L", "L1U"], "L": [2, 4],
             "num_of_samples": [7, 11], "cut_off_frequency": [0.5, 1.1], "steep": [4, 20]},
        ),
        "general_filter": (
            {"f": 0, "L1": 2, "L2": 3}, {"f": [1], "L1": [3, 0], "L2": [2, 0]},
        ),
    },
    "ChebyshevFilterDesign": {
        "apply": (
            {"f": 0, "p_choice": "L1", "component": "gradient", "L": 5, "n": 12,
             "cut_off_frequency": 1.0, "steep": 5},
            {"f": [1], "p_choice": ["L1L", "L1U"], "component": ["curl", "harmonic"],
             "L": [4, 7], "n": [10, None], "cut_off_frequency": [0.5, 1.1],
             "steep": [4, 20]},
        ),
    },
    "SimplicialTrendFilter": {
        "denoising_l2_regularizer": (
            {"flow": 0, "component": "divergence", "num_realizations": 2,
             "snr_db": [3.0, 9.0], "mu": 0.5},
            {"flow": [1], "component": ["curl"], "num_realizations": [1, 3],
             "snr_db": [[9.0, 3.0], [3.0]], "mu": [0.6, 2.0]},
        ),
        "denoising_l1_regularizer": (
            {"flow": 0, "component": "divergence", "num_realizations": 1,
             "snr_db": [9.0], "order": 1, "regularization": 0.3},
            {"flow": [1], "component": ["curl"], "num_realizations": [2],
             "snr_db": [[3.0]], "order": [0, 2], "regularization": [0.4]},
        ),
        "interpolation_l1_regularizer": (
            {"flow": 0, "component": "divergence", "ratio": [0.5], "num_realizations": 1,
             "order": 1, "regularization": 0.3},
            {"flow": [1], "component": ["curl"], "ratio": [[0.7], [0.5, 0.7]],
             "num_realizations": [2], "order": [0, 2], "regularization": [0.4]},
        ),
    },
}  # fmt: skip


def runs(cls, method):
    """The run of a method and all that differ from it in one argument."""
    base, other = VARY[cls][method]
    return [base] + [dict(base, **{k: v}) for k, vs in other.items() for v in vs]


def call(o, method, kw, pair):
    kw = {
        k: pair[v].copy() if k in ("f", "f_true", "flow")
        else np.array(v) if k == "snr_db" else v
        for k, v in kw.items()
    }  # fmt: skip
    np.random.seed(7)
    getattr(o, method)(**kw)


CLASSES = (
    "EdgeFlowDenoising", "LSFilterDesign", "GridBasedFilterDesign",
    "ChebyshevFilterDesign", "SimplicialTrendFilter",
)  # fmt: skip


FRESH = {}


def setup(tier):
    global ITEM_TIMEOUT
    ITEM_TIMEOUT = 120 if tier == "quick" else 1800
    keys = [
        (cls, name, ci, other)
        for other in (0, 1)
        for ci in range(len(complexes()))
        for cls in CLASSES
        for name in alphabet(cls)
    ]
    keys += [
        (cls, (method, i), ci, 0)
        for ci in (1, 3)
        for cls in CLASSES
        for method in VARY[cls]
        for i in range(len(runs(cls, method)))
    ]
    FRESH.update(pristine(first_run, keys))


def first_run(key):
    """The result of the run on an object and a complex of its own."""
    import pytspl.filters as filters

    cls, name, ci, other = key
    c = complexes()[ci]
    o = getattr(filters, cls)(build(c))
    np.random.seed(7)
    f1, f2 = flows(len(c["e"]))[:: -1 if other else 1]
    try:
        if isinstance(name, tuple):
            call(o, name[0], runs(cls, name[0])[name[1]], (f1, f2))
        else:
            alphabet(cls)[name](o, f1, f2)
    except ValueError:
        return "refused"
    return snapshot(o.history)


def items(tier):
    depth = 3 if tier == "quick" else 4
    for ci in range(3):
        for cls in CLASSES:
            if cls == "SimplicialTrendFilter" and ci and tier == "quick":
                continue
            ops = list(alphabet(cls)) + ["scribble", "rewrite"]
            for op in ops:
                yield {"kind": "one", "cls": cls, "cx": ci, "first": op, "depth": depth}
    for cls in CLASSES:
        top = 16 if cls == "SimplicialTrendFilter" else 48
        for step in (1, 2, 3, 5, 7):
            yield {"kind": "one", "cls": cls, "cx": 1, "long": top, "step": step}
    for cls in CLASSES:
        for method in VARY[cls]:
            for i in range(len(runs(cls, method))):
                yield {"kind": "vary", "cls": cls, "method": method, "first": i}
    for cls, other in itertools.product(CLASSES[:4], repeat=2):
        for op in list(alphabet(cls))[:3]:
            for ci in (1, 3):
                yield {"kind": "two", "cls": cls, "other": other, "cx": 1, "cx2": ci,
                       "first": op, "depth": depth}  # fmt: skip


def scribble(h, depth=0):
    for v in h.values():
        if isinstance(v, dict) and depth < 3:
            scribble(v, depth + 1)
        elif isinstance(v, np.ndarray):
            v[...] = 7


def all_none(h):
    return all(
        v is None or (isinstance(v, dict) and v is not h and all_none(v))
        for v in h.values()
    )


def run_vary(item, rec):
    """Two runs of one method that differ in one or two arguments, on one object, on
    two that share a complex, and on two whose complexes have the same shape."""
    import pytspl.filters as filters

    cls, method, i = item["cls"], item["method"], item["first"]
    make = getattr(filters, cls)
    cs = complexes()
    fl = flows(len(cs[1]["e"]))
    every = runs(cls, method)
    for j, (k, place) in itertools.product(
        range(len(every)), ((1, "same"), (1, "shared"), (3, "other"))
    ):
        if place != "same" and 0 not in (i, j) and i != j:
            continue
        sc = build(cs[1])
        first = make(sc)
        second = {"same": first, "shared": make(sc), "other": make(build(cs[k]))}[place]
        rec.state(cls, method, i, j, place)
        rec.trace()
        what = f"{cls}.{method}{every[i]} then {place} {every[j]}: {describe(cs[1])}"
        for o, n, c in ((first, i, 1), (second, j, k)):
            want = FRESH[cls, (method, n), c, 0]
            rec.step()
            if isinstance(want, Exception):
                raise Mismatch(f"{cls}.{method}{every[n]} fails: {want}")
            try:
                call(o, method, every[n], fl)
                got = snapshot(o.history)
            except ValueError:
                got = "refused"
            if not rec.check(
                got == want if "refused" in (got, want) else equal(got, want, 1e-7),
                f"run {n} reports something else than on a fresh object: {what}",
            ):
                return
        rec.outcome(cls, method, j)


def run_item(item, rec):
    import pytspl.filters as filters

    if item["kind"] == "vary":
        return run_vary(item, rec)
    two = item["kind"] == "two"
    ci = [item["cx"]] + ([item["cx2"]] if two else [])
    cs = [complexes()[k] for k in ci]
    c = cs[0]
    sc = build(c)
    scs = [sc, sc if ci[-1] == ci[0] else build(cs[-1])]
    E = len(c["e"])
    f1, f2 = flows(E)
    mats = [[dense(x.incidence_matrix(r)) for r in (1, 2)] for x in scs]
    classes = [item["cls"], item["other"]] if two else [item["cls"]]
    alph = []
    for i, cls in enumerate(classes):
        a = alphabet(cls)
        names = list(a)[:3] if two else list(a)
        alph += [(i, n, a[n]) for n in names]
        if not two:
            alph.append((i, "scribble", None))
            alph.append((i, "rewrite", None))
    alph = [x for x in alph if not two or x[1] != "refused"]

    def expected(i, name, other=0):
        got = FRESH[classes[i], name, ci[i], other]
        if isinstance(got, Exception):
            raise Mismatch(f"the first run of {classes[i]} {name!r} fails: {got}")
        return got

    if "long" in item:
        n, k = len(alph), item["step"]
        order = [alph[(i * k + i // n) % n] for i in range(item["long"])]
        sequences = [tuple(order)]
    else:
        first = next(x for x in alph if x[1] == item["first"] and x[0] == 0)
        sequences = (
            (first,) + rest
            for n in range(item["depth"])
            for rest in itertools.product(alph, repeat=n)
        )
    for seq in sequences:
        objs = [getattr(filters, cls)(x) for cls, x in zip(classes, scs)]
        rec.check(
            all(all_none(o.history) for o in objs), "a new filter reports a result"
        )
        a, b = f1.copy(), f2.copy()
        given = [f1, f2]
        seen = []  # (history object, snapshot when it was current)
        txt = f"{item['kind']} {classes} {[x[1] for x in seq]} on " + " and ".join(
            describe(x) for x in cs
        )
        rec.state(tuple(ci), tuple(classes), tuple((x[0], x[1]) for x in seq))
        now = [snapshot(o.history) for o in objs]
        for i, name, fn in seq:
            rec.step()
            o = objs[i]
            if name == "scribble":
                scribble(o.history)
                seen = [(h, snapshot(h)) for h, _ in seen]
                now = [snapshot(x.history) for x in objs]
                continue
            if name == "rewrite":  # the same arrays, other values
                given.reverse()
                a[:], b[:] = given
                for h, s in seen:
                    if not rec.check(
                        equal(snapshot(h), s, 1e-12),
                        f"a report changed with its input: {txt}",
                    ):
                        return
                continue
            want = expected(i, name, int(given[0] is f2))
            before = snapshot(o.history)
            np.random.seed(7)
            try:
                fn(o, a, b)
                refused = False
            except ValueError:
                refused = True
            if not rec.check(
                refused == (want == "refused"), f"refusal differs: {name} in {txt}"
            ):
                return
            if refused:
                ok = all_none(o.history) or (
                    classes[i] != "LSFilterDesign"
                    and equal(snapshot(o.history), before)
                )
                if not rec.check(
                    ok, f"a refused run leaves a (half) result behind: {txt}"
                ):
                    return
            elif not rec.check(
                equal(snapshot(o.history), want, 1e-7),
                f"{name} reports something else than on a fresh object: {txt}",
            ):
                return
            now[i] = snapshot(o.history)
            seen.append((o.history, snapshot(o.history)))
            for h, s in seen:
                if not rec.check(
                    h is o.history or equal(snapshot(h), s, 1e-12),
                    f"an earlier result was changed by {name}: {txt}",
                ):
                    return
            for o2, s in zip(objs, now):
                if not rec.check(
                    equal(snapshot(o2.history), s, 1e-12),
                    f"another object's result was changed by {name}: {txt}",
                ):
                    return
            if not rec.check(
                np.array_equal(a, given[0]) and np.array_equal(b, given[1]),
                f"{name} changed an input signal: {txt}",
            ):
                return
        for c, x, m in zip(cs, scs, mats):
            rec.check(
                np.array_equal(dense(x.incidence_matrix(1)), m[0])
                and np.array_equal(dense(x.incidence_matrix(2)), m[1])
                and [tuple(e) for e in x.edges] == gen.edges_of(c),
                f"the complex was changed: {txt}",
            )
        rec.trace()
        rec.outcome(tuple(classes), seq[-1][1])
    rec.sample(f"{classes}: all sequences starting with {item.get('first')!r}")
