"""Writes properties.jsonl and MANIFEST.json (run after editing this file)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "pytspl/simplicial_complex/simplicial_complex.py"
BU = "pytspl/simplicial_complex/scbuilder.py"
NR = "pytspl/io/network_reader.py"
DL = "pytspl/io/dataset_loader.py"
HD = "pytspl/decomposition/hodge_decomposition.py"
ED = "pytspl/decomposition/eigendecomposition.py"
F = "pytspl/filters/"
GP = "pytspl/hogde_gp/"

# id: title, statement, over, quantifier text, why tests can't,
#     files, [(mechanism, where)], [observation points], technique
P = {}


def prop(pid, title, statement, over, text, why, files, mech, observe, technique):
    P[pid] = dict(
        title=title, statement=statement, over=over, text=text, why=why, files=files,
        mech=mech, observe=observe, technique=technique,
    )  # fmt: skip


prop(
    "C01", "Incidence matrices are the boundary maps of the given complex",
    "For every simplicial complex, column j of the node-edge incidence matrix has -1 at "
    "the tail and +1 at the head of the j-th edge, and column j of the edge-triangle "
    "incidence matrix has one +-1 entry for each side of the j-th triangle, signed so "
    "that the sides form one closed walk. The product of the two is zero whatever the "
    "order and direction of the edges and the vertex order of the triangles, the rank-0 "
    "map is a row of ones, other ranks are refused with a ValueError, and a triangle "
    "with a missing side is refused with a ValueError.",
    ["inputs"], "every complex: any node count, edge set, edge direction, edge order, "
    "filling and triangle vertex order",
    "tests look at one fixed seven-node complex whose edges are all sorted; wrong signs "
    "need edges stored against the vertex order of a triangle",
    [SC], [("edge and triangle lists to boundary maps", SC)],
    ["incidence_matrix(rank) of a SimplicialComplex"],
    "explicit-state enumeration of all small complexes, real constructor compared with a "
    "reference boundary operator",
)
prop(
    "C02", "Laplacians and adjacency are those of the complex, at every rank",
    "For every complex, the graph Laplacian, the lower and upper Laplacians of every "
    "rank that has one, the Hodge Laplacians of rank 0, 1 and 2 and the adjacency matrix "
    "are exactly the ones the boundary maps define (symmetric, with kernels of the "
    "dimension of the homology of the complex). They have one row per simplex of their "
    "rank, also when there are no edges or no triangles, and ranks without such an "
    "operator are refused with a ValueError.",
    ["inputs"], "every complex, including empty ranks, and every rank argument",
    "tests compare the operators of one complex; the rank-2 operator and complexes "
    "without triangles are not compared with anything",
    [SC], [("Laplacians from boundary maps", SC)],
    ["laplacian, lower, upper, hodge, adjacency and identity matrices"],
    "explicit-state enumeration of all small complexes against entrywise definitions and "
    "exact homology ranks",
)
prop(
    "C03", "k-step shifting applies the shift operator exactly k times",
    "For every complex, flow and number of steps k, the lower (upper) shift is the lower "
    "(upper) edge Laplacian applied k times to the flow, and the combined k-step shift "
    "is the sum of both, which is the Hodge Laplacian applied k times for k >= 1. The "
    "defaults are one step for lower and upper and two for the combined shift, and the "
    "given flow is left unchanged.",
    ["inputs"], "every complex, every flow, every step count",
    "tests use one and two steps on one complex",
    [SC], [("repeated operator application", SC)],
    ["apply_lower_shifting, apply_upper_shifting, apply_k_step_shifting"],
    "exhaustive exploration of step counts on all small complexes, a basis of flows per "
    "complex (the operators are linear)",
)
prop(
    "C04", "Structure queries describe exactly the complex that was given",
    "For every complex, shape, dimension, list of simplices, and node and edge feature "
    "tables report exactly what it was built from, in that order; a feature name gives "
    "that column for every edge and an unknown one is refused with a KeyError. The faces "
    "of a simplex are exactly its sub-simplices of one dimension less, each once with "
    "sorted vertices, and all faces of listed simplices are listed. The printed summary "
    "states the same numbers, and generated coordinates give every node its own point.",
    ["inputs"], "every complex and feature table; every simplex of up to five vertices",
    "tests ask a single complex; features with several columns, other dimensions and "
    "unsorted simplices are not sampled",
    [SC], [("structure queries", SC)],
    ["shape, max_dim, simplices, get_faces, node and edge features"],
    "explicit-state enumeration of all small complexes and all vertex tuples",
)
prop(
    "C05", "Filling all triangles fills exactly the 3-cliques, once each",
    "For every network, building a complex with all triangles fills each 3-clique of "
    "the network exactly once and nothing else, whatever the direction and order of the "
    "edges, also in dense networks, and without changing nodes, edges or features; "
    "an explicit triangle list (also an empty one) is used as given. The answer of a builder does not depend on "
    "earlier requests to it, nor on what was done to their answers.",
    ["inputs", "histories"], "every network; every pair of requests to one builder",
    "tests count the triangles of one network",
    [BU], [("clique search", BU)], ["triangles(), to_simplicial_complex()"],
    "explicit-state enumeration of all small networks, all pairs of builder requests, "
    "against the definition of a clique",
)
prop(
    "C06", "Distance filling keeps the 3-cliques whose sides are all short enough",
    "For every network with edge distances and every threshold, filling by distance "
    "fills exactly the 3-cliques all three of whose sides have a known distance strictly "
    "below the threshold, whatever the direction in which the sides are stored; a "
    "distance of zero is short and an unknown one is not. The distance column and the "
    "threshold asked for are the ones used (by default 'distance' and 1.5).",
    ["inputs", "configurations"], "every network, distance assignment, column name and "
    "threshold",
    "tests use one network with two thresholds and all edges sorted",
    [BU], [("distance condition", BU)],
    ["triangles_dist_based(), to_simplicial_complex('distance')"],
    "exhaustive enumeration of distance assignments, directions and thresholds on all "
    "small networks",
)
prop(
    "C07", "Edge-list files (CSV, TNTP) become exactly the network they list",
    "Reading an edge-list file gives the network it lists: one edge per distinct node "
    "pair, in the direction of its first row, edges in ascending order, renumbered from "
    "zero when the file counts from one, and all nodes from zero to the largest id. Each "
    "edge carries the feature columns of the first row that lists it: the requested ones "
    "of a CSV file (none if not asked for), all remaining ones of a TNTP file, with the value of "
    "its cell, also where rows mix large integers, decimals, texts and empty cells. This "
    "holds for every delimiter, column order, choice of columns, number of skipped "
    "metadata lines, and repeated or reversed row.",
    ["inputs", "configurations"], "every file content and every combination of reader "
    "options",
    "tests read a few fixed shipped files with fixed options",
    [NR], [("edge-list parsing", NR)], ["read_csv, read_tntp, and the builder they return"],
    "exhaustive enumeration of all row sequences up to a length x reader options, on "
    "real files, against a row-by-row reference parser",
)
prop(
    "C08", "A complex written as incidence files is read back as the same complex",
    "Reading a complex from its node-edge incidence matrix file and its transposed "
    "edge-triangle incidence matrix file gives the complex that was written: the same "
    "nodes (isolated ones too), the same edges in the same direction (listed in ascending "
    "order), and exactly the written triangles in their order. This holds for every "
    "column order, edge direction, triangle orientation and number format of the files.",
    ["inputs"], "every complex with a triangle, every column order, direction and format",
    "tests read one shipped pair of files whose columns are already sorted",
    [NR], [("incidence matrix parsing", NR)], ["read_B1_B2 and the complex it builds"],
    "exhaustive enumeration of complexes, column orders and formats; write, read back, "
    "compare (round trip)",
)
prop(
    "C09", "Shipped datasets and data readers reproduce the files they come from",
    "Loading a shipped dataset gives exactly the nodes, edges, triangles, edge features, "
    "coordinates and flow that its files describe: every edge has its own features and "
    "flow value, every node has coordinates (a generated layout if there is no coordinate "
    "file), and a second load gives the same network, features and flow whatever was "
    "done in between. Coordinate and flow files of any order, base, delimiter and "
    "header are read entry by entry, and unknown dataset names are refused with a "
    "ValueError.",
    ["inputs", "histories"], "every shipped dataset, every pair of loads, every small "
    "coordinate and flow file",
    "tests check counts of the datasets, not which value belongs to which edge",
    [DL, "pytspl/io/data_loaders/", NR],
    [("dataset loaders", "pytspl/io/data_loaders/"), ("file readers", NR)],
    ["load_dataset, list_datasets, read_coordinates, read_flow"],
    "exhaustive run over all shipped datasets and pairs of loads, plus enumeration of "
    "small files, against an independent reader of the raw files",
)
prop(
    "C10", "The Hodge decomposition splits every flow into its three components",
    "For every complex and flow, the gradient, curl and harmonic components are the "
    "orthogonal projections of the flow on the image of the transposed node-edge map, "
    "the image of the edge-triangle map and the kernel of the Hodge Laplacian; "
    "they sum to the flow, and divergence and curl of a flow are the "
    "boundary maps applied to it. Rounding, when asked for, rounds each component to the "
    "given number of digits, unknown components are refused with a ValueError, and the "
    "flow is left unchanged.",
    ["inputs"], "every complex (also with an empty component) and every flow",
    "tests decompose one flow on one complex, rounded to two digits",
    [HD, SC], [("least squares projections", HD)],
    ["get_component_flow, get_divergence, get_curl and the decomposition functions"],
    "exhaustive exploration of a basis of flows on all small complexes (the "
    "decomposition is linear) against exact projectors",
)
prop(
    "C11", "Eigenpairs, embeddings and total variance are those of the components",
    "For every complex and tolerance, the eigenpairs of a component are an orthonormal "
    "basis of eigenvectors with ascending eigenvalues: all eigenvalues of the lower "
    "(upper) edge Laplacian above the tolerance for gradient (curl), all of the Hodge "
    "Laplacian up to the tolerance for harmonic. A full decomposition reports the values "
    "below its tolerance as exact zeros. Embeddings are the coordinates of the "
    "flow in those bases in the order harmonic, curl, gradient, the total variance of an eigenvector of the "
    "node Laplacian is its eigenvalue, and unknown components are refused with a "
    "ValueError.",
    ["inputs", "configurations"], "every complex, component, tolerance and flow",
    "tests look at shapes and at one complex with the default tolerance",
    [ED, SC], [("spectral split", ED)],
    ["get_component_eigenpair, get_simplicial_embeddings, get_total_variance"],
    "explicit enumeration of small complexes and of one tolerance per spectral gap, "
    "compared with exact eigenprojectors",
)
prop(
    "C12", "Low-pass denoising solves (I + mu P) x = f for every mu",
    "For every complex, operator P (Hodge, lower or upper Laplacian), flow f and "
    "sequence of parameters mu, edge-flow denoising reports the solution of "
    "(I + mu P) x = f for the last mu, the filter that produced it, and for every mu, in "
    "order, the relative error to the true signal and the response 1/(1 + mu lambda) at "
    "every eigenvalue. Unknown operators are refused with a ValueError and the inputs "
    "are left unchanged.",
    ["inputs", "configurations"], "every complex, operator, flow and mu sequence",
    "tests denoise one flow on one complex and compare one error",
    [F + "edge_flow_denoising.py", F + "base_filter.py"],
    [("low-pass filter", F + "edge_flow_denoising.py")],
    ["EdgeFlowDenoising.denoise and its history"],
    "exhaustive exploration of operators x parameter sequences on all small complexes "
    "against direct solutions",
)
prop(
    "C13", "Least-squares filters extract components, exactly once long enough",
    "For every complex, flow and filter length, least-squares filters are the "
    "polynomials in their operator that fit the ideal response best on the spectrum. A "
    "filter with at least as many taps as there are distinct eigenvalues extracts the "
    "component exactly (in the Hodge Laplacian: where gradient and curl share no "
    "eigenvalue), and the general filter with separate lower and upper lengths "
    "does so for both. The reported estimate, filter, error and response of every length "
    "up to the requested one are those of that length's own filter.",
    ["inputs", "configurations"], "every complex, component, flow and filter length",
    "tests compare a few errors on two complexes with fixed lengths",
    [F + "ls_filter_design.py", F + "base_filter.py"],
    [("least-squares design", F + "ls_filter_design.py")],
    ["LSFilterDesign methods and history"],
    "exhaustive exploration of filter lengths on all small complexes against an "
    "independent least-squares fit",
)
prop(
    "C14", "Grid filters fit their response on a uniform grid over the spectrum",
    "For every complex, flow and filter length, grid-based filters are the polynomials "
    "that fit the wanted response best on equally spaced samples (as many as asked for) "
    "between zero and the largest eigenvalue of their operator: 1/(1 + mu x) for denoising, the logistic "
    "step with the given cut-off and steepness for component extraction. The reported "
    "estimate, filter, error and response of every length are those of that length's own "
    "filter, and unknown operators and components are refused with a ValueError.",
    ["inputs", "configurations"], "every complex, operator, component, flow, length, "
    "sample count, cut-off and steepness",
    "tests compare a few errors on one complex",
    [F + "grid_based_filter_design.py", F + "base_filter.py"],
    [("grid design", F + "grid_based_filter_design.py")],
    ["GridBasedFilterDesign methods and history"],
    "exhaustive exploration of the parameter grid on all small complexes against an "
    "independent fit",
)
prop(
    "C15", "Chebyshev filters are the truncated expansion of the wanted response",
    "For every complex, operator, flow, filter length and number of interpolation "
    "points, the Chebyshev filter is the truncated Chebyshev expansion of the logistic "
    "response over the range of the spectrum, applied to the operator; with more points "
    "and terms it converges to the response itself. Estimate, filter, error and response "
    "are reported consistently with each other, and the error to the ideal filter is the "
    "spectral-norm distance to the exact component projector. Unknown operators and "
    "components are refused with a ValueError.",
    ["inputs", "configurations"], "every complex, operator, component, flow, length, "
    "number of points, cut-off and steepness",
    "tests compare a few errors on one complex",
    [F + "chebyshev_filter_design.py", F + "base_filter.py"],
    [("Chebyshev recursion", F + "chebyshev_filter_design.py")],
    ["ChebyshevFilterDesign methods and history"],
    "exhaustive exploration of lengths x points x responses on all small complexes "
    "against an independent expansion",
)
prop(
    "C16", "Every filter run reports its own result, whatever ran before",
    "After any sequence of filter runs, successful or refused, on one filter object or "
    "on several that share a complex, the reported history of a successful run equals the "
    "one a fresh object reports for that run, with nothing left over from earlier runs. A "
    "refused run leaves no half result, and a refused least-squares run none at all. "
    "Reports taken earlier are not changed by later runs of the same or another object, "
    "and overwriting a report or an input does not change later results.",
    ["histories"], "every sequence of runs on the same and on other filter objects",
    "tests call each method once on a fresh object",
    [F], [("run history", F + "base_filter.py")],
    ["history of all filter classes"],
    "exhaustive enumeration of all operation histories up to a depth on the real objects, "
    "compared with fresh runs",
)
prop(
    "C17", "Trend filters minimise the problem they state",
    "For every complex, flow and weight, the l2 trend filter solves its regularised "
    "least-squares problem for the divergence or curl, the l1 trend filter and the flow "
    "interpolation reach the minimum of their objective for the shift operator of the "
    "given order, and interpolation keeps the stated number of observed edges at their "
    "values. The reported errors, correlations, and component sizes are those of the "
    "reported signals, one per weight or ratio and realization.",
    ["inputs", "configurations"], "every complex, component, order, weight, ratio, noise "
    "level and number of realizations",
    "tests compare a few summary numbers on one complex with noise",
    [F + "simplicial_trend_filter.py"],
    [("regularised problems", F + "simplicial_trend_filter.py")],
    ["SimplicialTrendFilter methods and history"],
    "exhaustive exploration of orders, weights and observed-edge sets on small complexes "
    "against closed forms and an independent convex program",
)
prop(
    "C18", "Edge kernels are the stated functions of the Hodge Laplacians",
    "For every complex and positive parameters, each edge kernel is the stated function of "
    "the spectrum on the harmonic, gradient and curl spaces: diffusion exp(-kappa x) "
    "(one for harmonic) and Matern (2 mu/kappa^2 + x)^-mu (mu for harmonic) weighted per "
    "component, Laplacian 1/x (1/(0.001 + x) for harmonic) weighted per component, and the non-composed forms with one shared "
    "parameter set and no weights. Values for any index sets (reordered, repeated, rectangular, single, "
    "second set omitted, diagonal only) are the entries of that one matrix, its covar_matrix lists the values per component, a parameter reads back as it was set without changing the others, "
    "and unknown kernel or data names are refused with a ValueError.",
    ["inputs", "configurations"], "every complex (also with empty components), kernel, "
    "parameter assignment and pair of index sets",
    "tests only construct a kernel and train one on one dataset",
    [GP + "forex/", GP + "kernel_serializer.py", GP + "kernels.py"],
    [("spectral kernels", GP + "forex/"), ("kernel lookup", GP + "kernel_serializer.py")],
    ["kernels returned by KernelSerializer.serialize"],
    "exhaustive product of parameter values and index sets on enumerated complexes "
    "against exact spectral functions",
)
prop(
    "C19", "The edge GP trainer splits, trains and predicts as stated",
    "For every flow, ratio and seed, the split is a reproducible partition of the edges "
    "of the requested size in which every target is the value of its own edge, "
    "normalisation uses mean and standard deviation of the training targets only, and "
    "the tensors handed out are the Laplacians, incidence matrices and eigenpairs of the "
    "complex. In any order of training and predicting, each training step follows the gradient of the negative marginal likelihood of the "
    "given data for the requested number of steps at the requested rate, each prediction "
    "is the posterior of the current parameters for the edges asked, with the errors of that "
    "prediction as its metrics, and reported parameters and kernel are those of the "
    "trained model (a ValueError before training).",
    ["inputs", "histories", "configurations"], "every split, and every history of "
    "training, predicting, and reading parameters",
    "tests train once on one dataset and bound the error",
    [GP + "hodge_gp_trainer.py", GP + "exact_gp.py"],
    [("split, training loop, prediction", GP + "hodge_gp_trainer.py"),
     ("GP model", GP + "exact_gp.py")],
    ["HodgeGPTrainer and ExactGPModel methods"],
    "exhaustive enumeration of splits and of operation histories, conformance of every "
    "step with the closed-form posterior and a recording optimiser",
)
prop(
    "C20", "Random complexes are determined by their parameters and seed",
    "For every node count, edge probability, distance threshold and seed, the generated "
    "complex, edge distances and coordinates are the same at every call, whatever was drawn before "
    "from any generator; the edges are those of the Erdos-Renyi graph of "
    "that seed, each with a distance in [0, 1). The filled triangles are exactly the "
    "3-cliques with all distances below the threshold, which affects nothing else, and "
    "every node has coordinates.",
    ["inputs", "histories"], "every parameter combination and seed, any prior use of the "
    "random generators",
    "the only test checks that something was generated",
    ["pytspl/io/sc_generator.py", BU], [("generator", "pytspl/io/sc_generator.py")],
    ["generate_random_simplicial_complex"],
    "exhaustive run over a grid of parameters, seeds and generator states against the "
    "definition",
)
prop(
    "C21", "Drawings show the complex and the flow they are given, where asked",
    "A drawing shows, on the axes it was asked for and nowhere else, every node at its "
    "coordinates, every edge of the flow (or all edges) between its nodes in its direction "
    "with the colour of its own value on the scale of the colour bar, every filled "
    "triangle, and labels with the value of their own node or edge, for every form in "
    "which a flow can be given and with or without coordinates. Decompositions and "
    "eigenvectors are drawn on a figure of their own, one titled part per component or "
    "eigenvector, with their values. Any sequence of drawings accumulates just these "
    "parts; filter response plots show the reported responses and are refused before a run.",
    ["inputs", "histories", "configurations"], "every complex, layout, flow form, drawing "
    "option and sequence of drawings on several axes",
    "tests only check that drawing does not fail",
    ["pytspl/plot/plot.py", F + "chebyshev_filter_design.py",
     F + "edge_flow_denoising.py"],
    [("drawing", "pytspl/plot/plot.py")],
    ["artists on the matplotlib axes and figures"],
    "exhaustive enumeration of drawing histories and options; after every operation the "
    "artists of all axes are compared with a model of the canvas",
)
prop(
    "C22", "A complex answers every query the same, whatever was asked before",
    "Every query of a complex (matrices, operators, spectra, decompositions, features, "
    "builders on it) gives the answer a fresh equal complex gives, after any sequence of "
    "other queries to it or to another complex, even one of the same size. Queries "
    "change neither the complex nor the flow they are given, and overwriting arrays "
    "a query returned does not change later answers.",
    ["histories"], "every sequence of queries on several complexes",
    "tests ask independent questions of module-wide shared complexes in one fixed order",
    [SC, ED, HD], [("query methods", SC)], ["all public queries of SimplicialComplex"],
    "exhaustive enumeration of query histories over pairs of look-alike complexes, every "
    "answer compared with a fresh complex",
)
prop(
    "C23", "The building blocks of filters are the quantities they are named after",
    "For every complex and every kind of filter, the operator of a filter is the Laplacian "
    "it is asked for (the Hodge Laplacian by default, a ValueError for unknown names), the "
    "true signal is the requested component of the flow, the masks of the three components "
    "mark, in the order of all eigenvalues, exactly the eigenvalues of that component and "
    "partition them, the largest eigenvalue and the normalised power iteration are those of "
    "the operator, the logistic response and the relative error follow their formulas, and "
    "recorded results are copies that later recordings or changes of the inputs leave alone.",
    ["inputs", "histories"], "every complex, operator, component, signal and recording",
    "tests compare shapes, or one value on one complex",
    ["pytspl/filters/base_filter.py"],
    [("shared parts of all filters", "pytspl/filters/base_filter.py")],
    ["get_p_matrix, get_true_signal, get_component_coefficients, get_lambda_max, "
     "power_iteration, logistic_function, calculate_error_NRMSE, set_history"],
    "explicit enumeration of small complexes x filter classes x operators x components, and "
    "of recording histories, against exact projectors and closed formulas",
)

NOTES = {}
if os.path.exists(os.path.join(HERE, "tools", "notes.json")):
    NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for pid, p in P.items():
            fh.write(
                json.dumps(
                    {
                        "id": pid,
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["text"]},
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "mechanism": [
                                {"name": a, "where": b} for a, b in p["mech"]
                            ],
                            "state": [],
                            "observe_at": p["observe"],
                            "hook_needed": None,
                        },
                    }
                )
                + "\n"
            )
    import sys

    sys.path.insert(0, HERE)
    checks = []
    for pid, p in P.items():
        cmd = f"/opt/venv/bin/python run.py {pid} --tier "
        checks.append(
            {
                "property": pid,
                "quick_cmd": cmd + "quick",
                "thorough_cmd": cmd + "thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": "every state inside the bound is explored on the real "
                "code and every observation is compared with an independent reference "
                "model; bounds and assumptions are in DESIGN.md and in the evidence",
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python run.py --selftest",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks: the checks use the public API of the working tree in /repo. "
        "Known findings and repaired defects are in known_findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
