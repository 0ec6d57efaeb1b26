"""C07: edge-list files (CSV, TNTP) become exactly the network they list."""

import itertools
import os
import shutil
import tempfile

from . import gen

CHUNK = 32
ASSUMPTIONS = [
    "files are written by the check: one header line (after the skipped metadata "
    "lines of a TNTP file), integer node ids, no self loops",
    "delimiters are one character; a field that holds one is quoted",
]
PAIRS3 = [(a, b) for a in range(3) for b in range(3) if a != b]
PAIRS4 = [(a, b) for a in range(4) for b in range(4) if a != b]
DELIMS = (",", ";", " ", "\t", "|")


def bound(tier):
    k = 3 if tier == "quick" else 4
    return (
        f"every sequence of at most {k} directed rows over 4 nodes (repeats and "
        f"reversed repeats included), every sequence of at most {k + 1} over 3 "
        "nodes, each as CSV and TNTP, zero and one based, with changing "
        "delimiter, column order, extra columns, requested features and column "
        "types, ids as 3 and 3.0; ids up to 40000; files of 40 to 1100 rows"
    )


def items(tier):
    k = 3 if tier == "quick" else 4
    i = 0
    for pairs, top in ((PAIRS4, k), (PAIRS3, k + 1)):
        for r in range(1, top + 1):
            for rows in itertools.product(pairs, repeat=r):
                if pairs is PAIRS3 and r <= k:
                    continue  # already covered on 4 nodes
                yield {"rows": [list(x) for x in rows], "var": i}
                i += 1
    # sparse ids: gaps leave isolated nodes
    for rows in itertools.permutations([(1, 6), (9, 2), (2, 1), (6, 9)], 3):
        yield {"rows": [list(x) for x in rows], "var": i}
        i += 1
    # large ids
    for rows in itertools.permutations([(40000, 2), (300, 40000), (2, 300)]):
        yield {"rows": [list(x) for x in rows], "var": i}
        i += 1
    for c in gen.dedupe(
        gen.family_items(
            patterns=("fwd", "mix", "rev"),
            orders=("riffle", "reversed"),
            fills=("none",),
            relabel=(0, 2),
            max_edges=160,
        )
    ):
        es = [list(e) for e in c["e"]]
        # repeat some rows, forwards and backwards
        es += [list(e) for e in es[::3]] + [list(e)[::-1] for e in es[::2]]
        yield {"rows": es, "var": i}
        i += 1
    # more rows than fit one block of anything
    ring = [[i, (i + 1) % 1100] for i in range(1100)]
    ring = [r if r[0] % 3 else r[::-1] for r in ring] + [[0, 2], [2, 0], [1, 0]]
    yield {"rows": ring, "var": i}


def tables(rows):
    """Feature columns: names, and the text and value of every cell."""
    n = len(rows)
    yield "Distance", [str(10 + 3 * i) for i in range(n)], [10 + 3 * i for i in range(n)]
    yield "Capacity", [f"{1.5 * i - 2:.3f}" for i in range(n)], [
        1.5 * i - 2 for i in range(n)
    ]
    # larger than any integer a float can hold exactly
    yield "index", [str(2**53 + 1 + 2 * i) for i in range(n)], [
        2**53 + 1 + 2 * i for i in range(n)
    ]
    # some cells are empty
    yield "class", ["" if i % 3 == 1 else f"{-i / 4}" for i in range(n)], [
        None if i % 3 == 1 else -i / 4 for i in range(n)
    ]
    # the same value in every row
    yield "Label", ["x"] * n, ["x"] * n
    # texts that look like comments, quotes, numbers and empty cells, but are none
    texts = [TEXTS[i % len(TEXTS)] + str(i) for i in range(n)]
    yield "_kind", texts, texts
    # decimal commas and blanks: texts, quoted where they hold the delimiter
    texts = [f"{i + 1},5{i % 10}0" for i in range(n)]
    yield "Share", texts, texts
    texts = [f" y {i} " for i in range(n)]
    yield "Note", texts, texts
    # no value at all
    yield "Toll", [""] * n, [None] * n


TEXTS = ("A", "#", "Z#", "é'", "//", "-", "0x", "~", "%", "N/A-")
REQUESTS = (
    None,
    [],
    ["Distance"],
    ["Capacity", "Distance"],
    ["_kind"],
    ["_kind", "Distance", "Capacity"],
    ["Capacity", "index"],
    ["class", "Distance"],
    ["index", "class", "_kind"],
    ["Label"],
    ["Share", "Distance"],
    ["Note", "Share"],
    ["Toll"],
    ["Toll", "Note"],
)


# end of a line, end of the file
ENDS = (("\n", "\n"), ("\r\n", "\r\n"), ("\n", ""), ("\n", "\n\n"))


def save(path, lines, var):
    line, last = ENDS[var % len(ENDS)]
    with open(path, "w", newline="") as fh:
        fh.write(line.join(lines) + last)


def held_before(read, kw, cols, form, var):
    """The file first holds another network of the very same size, and is read: the
    second column of end points has moved on by one row."""
    k = next(i for i, (n, _) in enumerate(cols) if n == kw["dest_col"])
    cols = list(cols)
    cols[k] = (cols[k][0], cols[k][1][1:] + cols[k][1][:1])
    save(kw["filename"], form(cols), var)
    read(**kw)


def quoted(text, delim):
    return f'"{text}"' if delim in text else text



def cell_eq(got, want):
    """An empty cell is NaN (or None)."""
    if want is None:
        return got is None or got != got
    return got == want


def cells_eq(got, want):
    return got.keys() == want.keys() and all(cell_eq(got[k], want[k]) for k in want)


def model(rows):
    """nodes 0..largest id; an edge per unordered pair, in its first direction."""
    edges, first = [], {}
    for i, (a, b) in enumerate(map(tuple, rows)):
        if (a, b) not in first and (b, a) not in first:
            first[a, b] = i
            edges.append((a, b))
    return list(range(max(max(r) for r in rows) + 1)), sorted(edges), first


def compare(rec, what, sc, rows, want_features):
    nodes, edges, first = model(rows)
    rec.step()
    if not rec.check(
        [int(x) for x in sc.nodes] == nodes, f"{what}: nodes {sc.nodes} not {nodes}"
    ):
        return
    if not rec.check(
        [tuple(e) for e in sc.edges] == edges, f"{what}: edges {sc.edges} not {edges}"
    ):
        return
    got = sc.get_edge_features()
    if not want_features:
        rec.check(len(got) == 0, f"{what}: features {got} although none were asked")
        return
    cols = {name: values for name, _, values in tables(rows)}
    want = {e: {k: cols[k][first[e]] for k in want_features} for e in edges}
    rec.check(
        list(got) == edges and all(cells_eq(got[e], want[e]) for e in edges),
        f"{what}: features {got} not {want}",
    )
    for name in want_features:
        col = sc.get_edge_features(name)
        rec.check(
            cells_eq(col, {e: cols[name][first[e]] for e in edges}),
            f"{what}: column {name}: {col}",
        )
    rec.check(
        sorted(sc.edge_feature_names()) == sorted(want_features),
        f"{what}: feature names {sc.edge_feature_names()}",
    )
    cl = {tuple(t) for t in gen.cliques3(len(nodes), edges)}
    tr = [tuple(sorted(t)) for t in sc.triangles]
    rec.check(
        len(tr) == len(cl) and set(tr) == cl, f"{what}: triangles {tr} not {cl}"
    )


def run_item(item, rec):
    from pytspl import read_csv, read_tntp

    rows, var = item["rows"], item["var"]
    rec.state(*map(tuple, rows))
    tmp = tempfile.mkdtemp(prefix="mc07.")
    try:
        feats = list(tables(rows))
        for base in (0, 1):
            ids = [(a + base, b + base) for a, b in rows]
            for j in range(2):
                delim = DELIMS[(var + base + 3 * j) % len(DELIMS)]
                req = REQUESTS[(var // 2 + 2 * base + j * 4) % len(REQUESTS)]
                src, dest = (("Source", "Target"), ("to", "from"), ("a", "b"))[
                    (var + j) % 3
                ]
                # ids may be written as 3 or 3.0
                form = "%d.0" if (var + j) % 11 == 7 else "%d"
                cols = [(src, [form % a for a, _ in ids]), (dest, [form % b for _, b in ids])]
                cols += [(n, t) for n, t, _ in feats]
                r = (var + j + base) % len(cols)
                cols = cols[r:] + cols[:r]
                if (var + j) % 2:
                    cols = cols[::-1]
                path = os.path.join(tmp, "n.csv")  # rewritten for every read

                def form(cols):
                    lines = [delim.join(n for n, _ in cols)]
                    for i in range(len(rows)):
                        lines.append(delim.join(quoted(t[i], delim) for _, t in cols))
                    return lines

                kw = dict(filename=path, delimiter=delim, src_col=src, dest_col=dest)
                if req is not None or var % 2:
                    kw["feature_cols"] = None if req is None else list(req)
                if base or var % 2:
                    kw["start_index_zero"] = not base
                if (var + base + j) % 3 == 0:
                    held_before(read_csv, kw, cols, form, var // 3 + base + j)
                save(path, form(cols), var // 3 + base + j)
                sc = read_csv(**kw).to_simplicial_complex()
                compare(rec, f"csv rows={ids} base={base} asked={req}", sc, rows, req)

            # TNTP: leading '~', trailing ';', metadata before the header
            skip = (0, 1, 8)[(var + base) % 3]
            use = feats[: (var + base) % (len(feats) + 1)]
            src, dest = (("init_node", "term_node"), ("To", "From"))[var % 2]
            pad = (" ", "")[(var // 2) % 2]
            path = os.path.join(tmp, "n.tntp")
            delim = ("\t", ",")[var % 5 == 4]
            cols = [(src, [str(a) for a, _ in ids]), (dest, [str(b) for _, b in ids])]
            cols += [(n, t) for n, t, _ in use]
            r = (var // 3 + base) % len(cols)
            cols = cols[r:] + cols[:r]
            if (var // 2) % 3 == 0:
                cols = cols[::-1]

            def form(cols):
                lines = [f"<METADATA {m}> 3" for m in range(skip)]
                names = [pad + n + pad for n, _ in cols]
                lines.append(delim.join(["~", *names, ";"]))
                for i in range(len(ids)):
                    cells = ["", *(quoted(t[i], delim) for _, t in cols), ";"]
                    lines.append(delim.join(cells))
                return lines

            kw = dict(filename=path, src_col=src, dest_col=dest, skip_rows=skip)
            if delim != "\t" or var % 2:
                kw["delimiter"] = delim
            if base or var % 2:
                kw["start_index_zero"] = not base
            if (var + base) % 3 == 1:
                held_before(read_tntp, kw, cols, form, var // 7 + base)
            save(path, form(cols), var // 7 + base)
            sc = read_tntp(**kw).to_simplicial_complex()
            req = [n for n, _, _ in use]
            compare(rec, f"tntp rows={ids} base={base} columns={req}", sc, rows, req)
        rec.trace(6)
        rec.outcome(tuple(map(tuple, sc.edges)))
        rec.sample(f"rows {rows}: CSV and TNTP, both index bases")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
