"""C09: shipped datasets and data readers reproduce the files they come from."""

import csv
import itertools
import math
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from . import core
from .ref import dense

CHUNK = 1
ITEM_TIMEOUT = 200
ASSUMPTIONS = [
    "the triangle file of lastfm-1k-artist is not part of the repository: the check "
    "adds one (every second 3-clique) to a scratch copy of the package",
    "spring-layout coordinates are only required to be one finite 2-D point per node",
]
DATA = os.path.join(core.REPO, "pytspl", "data")
SMALL = ("siouxfalls", "test_dataset", "paper", "forex", "wsn", "anaheim")
MEDIUM = ("chicago-sketch", "goldcoast", "barcelona", "winnipeg")
LARGE = ("chicago-regional",)
BAD = (
    "", "Paper", "siouxfalls ", " siouxfalls", "README.md", ".DS_Store", "nope",
    "paper/", "../paper_data", "lastfm", "chicago", "forex.csv", "SIOUXFALLS", "wsn2",
)  # fmt: skip


def bound(tier):
    return (
        "every shipped dataset, compared entry by entry with its raw files, loaded twice with the first "
        "result destroyed in between; every ordered pair of small datasets loaded "
        f"one after the other, and 13 loads in a row; {len(BAD)} names that are no dataset; coordinate and flow "
        "files: every order of 3 node ids out of 4 x bases x delimiters x headers"
    )


def items(tier):
    for name in LARGE:
        yield {"kind": "dataset", "name": name}
    for name in MEDIUM[::-1] + SMALL:
        yield {"kind": "dataset", "name": name}
    for a, b in itertools.permutations(SMALL, 2):
        yield {"kind": "pair", "names": [a, b]}
    for names in (SMALL[:3], SMALL[2:5]):  # the same datasets over and over
        yield {"kind": "pair", "names": [names[i * i % 3] for i in range(12)]}
    for b in BAD:
        yield {"kind": "unknown", "name": b}
    yield {"kind": "list"}
    yield {"kind": "lastfm"}
    for i, ids in enumerate(itertools.permutations(range(4), 3)):
        for base in (0, 1):
            yield {"kind": "coords", "ids": ids, "base": base, "var": i}
    for i in range(12):
        yield {"kind": "flow", "var": i}


# ---- independent readers -------------------------------------------------


def tsv(path, skip=0):
    with open(path) as fh:
        lines = fh.read().splitlines()[skip:]
    head = [h.strip() for h in lines[0].split("\t")]
    rows = [[c.strip() for c in ln.split("\t")] for ln in lines[1:] if ln.strip()]
    return head, rows


def num(text):
    try:
        return float(text)
    except ValueError:
        return text


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return str(a).strip() == str(b).strip()
    return a == b or math.isclose(float(a), float(b), rel_tol=1e-12, abs_tol=1e-12)


def cliques(edges):
    nb = {}
    for a, b in edges:
        nb.setdefault(a, set()).add(b)
        nb.setdefault(b, set()).add(a)
    return {
        tuple(sorted((a, b, w))) for a, b in edges for w in nb[a] & nb[b]
    }


def matrix(path):
    with open(path) as fh:
        return np.array([[float(x) for x in r] for r in csv.reader(fh) if r])


def column(path):
    with open(path) as fh:
        return [float(r.split(",")[0]) for r in fh.read().split()]


def from_B1(B1):
    return [
        (int(np.flatnonzero(c == -1)[0]), int(np.flatnonzero(c == 1)[0])) for c in B1.T
    ]


def points(path, node, x, y, sep, base):
    with open(path) as fh:
        lines = [ln for ln in fh.read().splitlines() if ln.strip()]
    cut = (lambda s: s.split()) if sep == " " else (lambda s: s.split(sep))
    head = [h.strip() for h in cut(lines[0])]
    i, j, k = head.index(node), head.index(x), head.index(y)
    out = {}
    for ln in lines[1:]:
        r = cut(ln)
        out[int(float(r[i])) - base] = (float(r[j]), float(r[k]))
    return out


def expected(name):
    """nodes, edges (in order), triangles, edge features, coordinates, flow."""
    feats, coords, flow = None, None, None
    if name in ("forex", "chicago-sketch"):
        folder, f1, f2, fl = {
            "forex": ("foreign_exchange", "B1.csv", "B2t.csv", "flow_FX_1538755200.csv"),
            "chicago-sketch": (
                "transportation_networks/chicago-sketch", "B1_chicago_sketch.csv",
                "B2t_chicago_sketch.csv", "flow_chicago_sketch.csv",
            ),
        }[name]  # fmt: skip
        folder = os.path.join(DATA, folder)
        B1 = matrix(os.path.join(folder, f1))
        raw = from_B1(B1)
        tris = set()
        for row in matrix(os.path.join(folder, f2)):
            tris.add(tuple(sorted({v for i in np.flatnonzero(row) for v in raw[i]})))
        vals = column(os.path.join(folder, fl))
        flow = dict(zip(raw, vals))
        n = B1.shape[0]
        edges = sorted(raw)
        if name == "chicago-sketch":
            coords = points(
                os.path.join(folder, "coordinates_chicago_sketch.csv"),
                "Id", "X", "Y", ",", 0,
            )  # fmt: skip
    elif name == "paper":
        folder = os.path.join(DATA, "paper_data")
        with open(os.path.join(folder, "edges.csv")) as fh:
            rows = list(csv.DictReader(fh, delimiter=" "))
        raw = [(int(r["Source"]), int(r["Target"])) for r in rows]
        n = max(map(max, raw)) + 1
        edges = sorted(raw)
        feats = {e: {"Distance": num(r["Distance"])} for e, r in zip(raw, rows)}
        flow = dict(zip(edges, column(os.path.join(folder, "flow.csv"))))
        coords = points(os.path.join(folder, "coordinates.csv"), "Id", "X", "Y", " ", 0)
        tris = cliques(edges)
    elif name == "wsn":
        with open(os.path.join(DATA, "wsn", "water_network.pkl"), "rb") as fh:
            B1, q, _, head, hr = pickle.load(fh)
        edges = from_B1(np.asarray(B1))
        n = B1.shape[0]
        tris = cliques(edges)
        q, hr = np.asarray(q, dtype=float), np.asarray(hr, dtype=float).squeeze()
        flow = np.concatenate(
            (np.asarray(head, dtype=float), -hr * np.sign(q) * np.abs(q) ** 1.852)
        )
    else:
        folder = os.path.join(DATA, "transportation_networks", name)
        head, rows = tsv(os.path.join(folder, f"{name}_net.tntp"), 8)
        i, j = head.index("init_node"), head.index("term_node")
        feats, order = {}, []
        for r in rows:
            e = (int(r[i]) - 1, int(r[j]) - 1)
            if e in feats or e[::-1] in feats:
                continue
            order.append(e)
            feats[e] = {
                h: num(c)
                for h, c in zip(head, r)
                if h not in ("~", ";", "", "init_node", "term_node")
            }
        edges = sorted(order)
        n = max(map(max, edges)) + 1
        tris = cliques(edges)
        path = os.path.join(folder, f"{name}_node.tntp")
        if os.path.exists(path):
            coords = points(path, "node", "X", "Y", "\t", 1)
        flow = {}
        path = os.path.join(folder, f"{name}_flow.tntp")
        if os.path.exists(path):
            vol = {}
            with open(path) as fh:
                for ln in fh.read().splitlines()[1:]:
                    r = ln.split()
                    if r:
                        vol.setdefault((int(r[0]) - 1, int(r[1]) - 1), float(r[2]))
            flow = {e: vol[e] - vol.get(e[::-1], 0) for e in edges}
    return n, edges, tris, feats, coords, flow


def compare(name, got, want, rec):
    sc, coords, flow = got
    n, edges, tris, feats, wcoords, wflow = want
    rec.check([int(x) for x in sc.nodes] == list(range(n)), f"{name}: nodes differ")
    es = [(int(a), int(b)) for a, b in sc.edges]
    if not rec.check(es == edges, f"{name}: edges differ from the file"):
        return
    ts = [tuple(sorted(map(int, t))) for t in sc.triangles]
    rec.check(
        len(ts) == len(tris) and set(ts) == tris, f"{name}: triangles differ"
    )
    if n * len(edges) < 3e6:
        B1, B2 = sc.incidence_matrix(1), sc.incidence_matrix(2)
        rec.check(abs(B1 @ B2).sum() == 0, f"{name}: boundary of a boundary is not 0")
        D = dense(B1)
        rec.check(
            from_B1(D) == edges and np.count_nonzero(D) == 2 * len(edges),
            f"{name}: B1 differs",
        )
    if feats is not None:
        g = sc.get_edge_features()
        ok = set(g) == set(edges)
        for e in edges if ok else ():
            if not ok:
                break
            ok = set(g[e]) == set(feats[e]) and all(
                same(g[e][k], feats[e][k]) for k in feats[e]
            )
        rec.check(ok, f"{name}: edge features differ from the file")
    rec.check(
        {int(k) for k in coords} == set(range(n)), f"{name}: nodes without coordinates"
    )
    pts = {int(k): tuple(float(x) for x in v) for k, v in coords.items()}
    rec.check(
        all(len(p) == 2 and np.all(np.isfinite(p)) for p in pts.values()),
        f"{name}: coordinates are not points",
    )
    if wcoords is not None:
        rec.check(
            all(same(a, b) for k in wcoords for a, b in zip(pts[k], wcoords[k])),
            f"{name}: coordinates differ from the file",
        )
    if isinstance(wflow, dict):
        rec.check(
            [(int(a), int(b)) for a, b in flow] == (edges if wflow else []),
            f"{name}: the flow is not keyed by the edges in order",
        )
        rec.check(
            all(same(v, wflow[tuple(k)]) for k, v in flow.items()),
            f"{name}: flow values differ from the file",
        )
    else:
        rec.check(
            np.allclose(np.asarray(flow, dtype=float), wflow, rtol=1e-12, atol=0),
            f"{name}: flow differs from the file",
        )
    rec.step(5)


def destroy(got):
    """Abuse a loaded result: a later load must not see it."""
    sc, coords, flow = got
    if isinstance(flow, dict):
        flow.clear()
    else:
        flow[:] = 0
    coords.clear()
    for f in sc.edge_features.values():
        f.clear()
    sc.edge_features.clear()
    sc.node_features.clear()
    sc.edges.clear()
    sc.nodes.clear()
    sc.triangles.clear()


def run_item(item, rec):
    from pytspl import list_datasets, load_dataset
    from pytspl.io.network_reader import read_coordinates, read_flow

    kind = item["kind"]
    rec.state(*sorted((k, str(v)) for k, v in item.items()))
    if kind == "dataset":
        name = item["name"]
        want = expected(name)
        for _ in range(1 if name in LARGE + ("barcelona", "winnipeg") else 2):
            got = load_dataset(name)
            rec.step()
            compare(name, got, want, rec)
            rec.trace()
            destroy(got)
        rec.outcome(name, len(want[1]))
        rec.sample(f"dataset {name}: {want[0]} nodes, {len(want[1])} edges")
    elif kind == "pair":
        for name in item["names"] + item["names"][:1]:
            got = load_dataset(name)
            rec.step()
            compare(name, got, expected(name), rec)
            destroy(got)
            rec.trace()
    elif kind == "unknown":
        try:
            load_dataset(item["name"])
            rec.fail(f"unknown dataset {item['name']!r} was not refused")
        except ValueError:
            pass
        rec.step()
        rec.trace()
    elif kind == "list":
        names = list_datasets()
        rec.step()
        need = set(SMALL + MEDIUM + LARGE) | {"lastfm-1k-artist"}
        rec.check(
            need <= set(names) and len(names) == len(set(names)),
            f"dataset names {names}",
        )
        rec.check(
            not set(names) & set(BAD), f"a name that is no dataset is listed: {names}"
        )
        rec.trace()
    elif kind == "lastfm":
        run_lastfm(rec)
    elif kind == "coords":
        run_coords(item, rec, read_coordinates)
    else:
        run_flow(item, rec, read_flow)


LOAD = """
import pickle, sys
out = sys.argv[1]
from pytspl import load_dataset
sc, coords, flow = load_dataset("lastfm-1k-artist")
with open(out, "wb") as fh:
    pickle.dump((list(sc.nodes), list(sc.edges), list(sc.triangles),
                 sc.incidence_matrix(1), sc.incidence_matrix(2), coords, flow), fh)
"""


def run_lastfm(rec):
    """Load the dataset from a scratch copy of the package with a triangle file."""
    folder = os.path.join(DATA, "lastfm-dataset-1K")
    B1 = matrix(os.path.join(folder, "B1-artist.csv"))
    edges = from_B1(B1)
    pos = {frozenset(e): i for i, e in enumerate(edges)}
    tris = sorted(cliques(edges))[::2]
    flow = dict(zip(edges, column(os.path.join(folder, "flow-artist.csv"))))
    tmp = tempfile.mkdtemp(prefix="mc09.")
    try:
        src, pkg = os.path.join(core.REPO, "pytspl"), os.path.join(tmp, "pytspl")
        shutil.copytree(src, pkg, ignore=shutil.ignore_patterns("data", "__pycache__"))
        os.mkdir(os.path.join(pkg, "data"))
        for f in os.listdir(DATA):
            if f != "lastfm-dataset-1K":
                os.symlink(os.path.join(DATA, f), os.path.join(pkg, "data", f))
        data = os.path.join(pkg, "data", "lastfm-dataset-1K")
        os.mkdir(data)
        for f in os.listdir(folder):
            if f != "B2t-artist.csv":
                os.symlink(os.path.join(folder, f), os.path.join(data, f))
        with open(os.path.join(data, "B2t-artist.csv"), "w") as fh:
            for a, b, c in tris:
                row = [0] * len(edges)
                for u, v, s in ((a, b, 1), (b, c, 1), (a, c, -1)):
                    i = pos[frozenset((u, v))]
                    row[i] = s if edges[i] == (u, v) else -s
                fh.write(",".join(map(str, row)) + "\n")
        out = os.path.join(tmp, "out.pkl")
        r = subprocess.run(
            [sys.executable, "-W", "ignore", "-c", LOAD, out],
            cwd=tmp, capture_output=True, text=True, timeout=300,
            env=dict(os.environ, PYTHONPATH=os.pathsep.join([tmp, core.STUBS])),
        )  # fmt: skip
        rec.step()
        if not rec.check(r.returncode == 0, f"lastfm: not loaded: {r.stderr[-800:]}"):
            return
        with open(out, "rb") as fh:
            got = pickle.load(fh)

        class Loaded:
            nodes, edges, triangles = got[:3]

            @staticmethod
            def incidence_matrix(rank):
                return got[2 + rank]

        want = (B1.shape[0], edges, set(tris), None, None, flow)
        compare("lastfm-1k-artist", (Loaded, got[5], got[6]), want, rec)
        rec.trace()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_coords(item, rec, read_coordinates):
    tmp = tempfile.mkdtemp(prefix="mc09.")
    try:
        for delim in (",", " ", "\t", ";"):
            for pad in ("", " ") if delim not in " " else ("",):
                names = (("Id", "X", "Y"), ("node", "lon", "lat"))[item["var"] % 2]
                names = (*names, "#", "Note")
                cols = list(range(3 if pad or delim == " " else 5))
                r = (item["var"] // 2 + 3 * (len(cols) > 3)) % len(cols)
                cols = cols[r:] + cols[:r]
                path = os.path.join(tmp, "c.csv")
                # the same file, then with other values and the same size
                for turn in (1, 0):
                    want = {}
                    with open(path, "w") as fh:
                        fh.write(delim.join(names[k] + pad for k in cols) + "\n")
                        for i, v in enumerate(item["ids"]):
                            x, y = 1.25 * i - 1, [3, -4.5, 0.001][i - turn]
                            cells = [str(v + item["base"]), repr(x), repr(y)]
                            cells += [f"{i},5", ("#1", "", "1 // ~ 2")[i]]
                            cells = [f'"{t}"' if delim in t else t for t in cells]
                            fh.write(delim.join(cells[k] for k in cols) + "\n")
                            want[v] = (x, y)
                    kw = {}
                    if item["base"]:
                        kw["start_index_zero"] = False
                    got = read_coordinates(
                        filename=path, node_id_col=names[0], x_col=names[1],
                        y_col=names[2], delimiter=delim, **kw,
                    )  # fmt: skip
                    rec.step()
                    got = {int(k): tuple(map(float, v)) for k, v in got.items()}
                    rec.check(
                        got == want, f"coordinates {got} instead of {want} ({delim!r})"
                    )
                    rec.trace()
        rec.check(
            read_coordinates(os.path.join(tmp, "no"), "Id", "X", "Y", ",") is None,
            "a missing coordinate file is not reported as None",
        )
        rec.step()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_flow(item, rec, read_flow):
    tmp = tempfile.mkdtemp(prefix="mc09.")
    try:
        v = item["var"]
        rows = [(i, i + 1, (-1) ** i * (i + 0.25 * v)) for i in range(v + 1)]
        for sep in ("\t", ",", ";"):
            for header in (True, False):
                path = os.path.join(tmp, "f.csv")
                for now in (rows[::-1], rows):  # the same size
                    with open(path, "w") as fh:
                        if header:
                            fh.write(sep.join(("From", "To", "Volume")) + "\n")
                        for r in now:
                            fh.write(sep.join(map(str, r)) + "\n")
                    kw = {}
                    if sep != "\t":
                        kw["sep"] = sep
                    if not header:
                        kw["header"] = None
                    got = read_flow(path, **kw)
                    rec.step()
                    rec.check(
                        np.array_equal(got.to_numpy(dtype=float), np.array(now, dtype=float)),
                        f"flow file read as {got.to_numpy().tolist()} not {now}",
                    )
                    if header:
                        rec.check(
                            list(got.columns) == ["From", "To", "Volume"], "flow columns"
                        )
                    rec.trace()
            # a file with empty cells and texts keeps its shape and its values
            with open(path, "w") as fh:
                fh.write(sep.join(("#", "From", "Volume")) + "\n")
                for i in range(v + 3):
                    text = f"{i},5" if sep != "," else f"{i};5"
                    vol = "" if i % 3 == 1 else str(-0.5 * i)
                    fh.write(sep.join((text, "# x" if i % 2 else "~", vol)) + "\n")
            got = read_flow(path, sep=sep)
            rec.step()
            rec.check(
                got.shape == (v + 3, 3)
                and list(got.columns) == ["#", "From", "Volume"]
                and all(
                    got.iloc[i, 0] == (f"{i},5" if sep != "," else f"{i};5")
                    and got.iloc[i, 1] == ("# x" if i % 2 else "~")
                    and (
                        got.iloc[i, 2] == -0.5 * i
                        if i % 3 != 1
                        else got.iloc[i, 2] != got.iloc[i, 2]
                    )
                    for i in range(v + 3)
                ),
                f"flow file with texts and empty cells: {got.to_numpy().tolist()}",
            )
            rec.trace()
        rec.check(
            len(read_flow(os.path.join(tmp, "no"))) == 0,
            "a missing flow file is not reported as empty",
        )
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
