From 4a759d8b4ba48278a937d7857412d3a743b3abb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:47 +0000
Subject: [PATCH 01/25] fix: orient B2 columns consistently with the stored
 edge directions

triangles_to_B2 ignored whether an edge is stored as (a, b) or (b, a), so
B1 @ B2 was not zero on complexes with mixed edge directions.
---
 .../simplicial_complex/simplicial_complex.py  | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 89233e9..857e508 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -95,25 +95,25 @@ class SimplicialComplex:
         Returns:
             np.ndarray: B2 matrix.
         """
+        def edge_index_and_sign(from_node, to_node):
+            # the sign is -1 if the edge is stored in the other direction
+            try:
+                return edges.index((from_node, to_node)), 1
+            except ValueError:
+                return edges.index((to_node, from_node)), -1
+
         B2 = np.zeros((len(edges), len(triangles)))
         for j, triangle in enumerate(triangles):
             a, b, c = triangle
-            try:
-                index_a = edges.index((a, b))
-            except ValueError:
-                index_a = edges.index((b, a))
-            try:
-                index_b = edges.index((b, c))
-            except ValueError:
-                index_b = edges.index((c, b))
-            try:
-                index_c = edges.index((a, c))
-            except ValueError:
-                index_c = edges.index((c, a))
+            index_a, sign_a = edge_index_and_sign(a, b)
+            index_b, sign_b = edge_index_and_sign(b, c)
+            index_c, sign_c = edge_index_and_sign(a, c)
 
+            # the triangle follows the direction of its first edge, so that
+            # its boundary is a closed loop (B1 @ B2 = 0)
             B2[index_a, j] = 1
-            B2[index_c, j] = -1
-            B2[index_b, j] = 1
+            B2[index_b, j] = sign_a * sign_b
+            B2[index_c, j] = -sign_a * sign_c
 
         return B2
 
-- 
2.43.0


From 4091d71b99e6e6166585317db2cdcc6c0e35202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 02/25] fix: apply the shift operators the requested number of
 times

Any step count other than 1 was treated as 2.
---
 pytspl/simplicial_complex/simplicial_complex.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 857e508..8ac6de9 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -355,12 +355,9 @@ class SimplicialComplex:
         """
         L1L = self.lower_laplacian_matrix(rank=1)
 
-        if steps == 1:
-            # L(1, l) @ f
+        # L(1, l)**steps @ f
+        for _ in range(steps):
             flow = L1L @ flow
-        else:
-            # L(1, l)**2 @ f
-            flow = L1L @ (L1L @ flow)
 
         return flow
 
@@ -380,12 +377,9 @@ class SimplicialComplex:
         """
         L1U = self.upper_laplacian_matrix(rank=1)
 
-        if steps == 1:
-            # L(1, u) @ f
+        # L(1, u)**steps @ f
+        for _ in range(steps):
             flow = L1U @ flow
-        else:
-            # L(1, u)**2 @ f
-            flow = L1U @ (L1U @ flow)
 
         return flow
 
-- 
2.43.0


From 243ab837fb608afcce923cdc394189ca56e5a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 03/25] fix: support the documented rank 2 in
 hodge_laplacian_matrix

---
 pytspl/simplicial_complex/simplicial_complex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 8ac6de9..6ea3e03 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -336,6 +336,8 @@ class SimplicialComplex:
             return self.lower_laplacian_matrix(
                 rank=rank
             ) + self.upper_laplacian_matrix(rank=rank)
+        elif rank == 2:
+            return self.lower_laplacian_matrix(rank=rank)
         else:
             raise ValueError("Rank must be between 0 and 2.")
 
-- 
2.43.0


From 25e139eff84f924dba62d978064cbfa5fece5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 04/25] fix: pass a dense Laplacian to get_total_variance

SimplicialComplex.get_total_variance always failed on an assertion.
---
 pytspl/simplicial_complex/simplicial_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 6ea3e03..beebbff 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -476,7 +476,7 @@ class SimplicialComplex:
         Returns:
             np.ndarray: The total variance of the SC.
         """
-        laplacian_matrix = self.laplacian_matrix()
+        laplacian_matrix = self.laplacian_matrix().toarray()
         return get_total_variance(laplacian_matrix)
 
     def get_divergence(self, flow: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 0e768a103f38c418f54b3e9c668520d99e5dfa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 05/25] fix: find triangle distances of reversed and zero
 length edges

Edges stored as (b, a) raised a KeyError and triangles with an edge of
distance 0 were dropped.
---
 pytspl/simplicial_complex/scbuilder.py | 29 +++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pytspl/simplicial_complex/scbuilder.py b/pytspl/simplicial_complex/scbuilder.py
index e6066a3..1a0d2f2 100644
--- a/pytspl/simplicial_complex/scbuilder.py
+++ b/pytspl/simplicial_complex/scbuilder.py
@@ -63,23 +63,24 @@ class SCBuilder:
         """
         triangle_nodes = self.triangles()
 
+        def get_distance(from_node, to_node):
+            # the edge can be stored in either direction
+            if (from_node, to_node) not in self.edge_features:
+                from_node, to_node = to_node, from_node
+            return self.edge_features[(from_node, to_node)][dist_col_name]
+
         conditional_tri = []
         for a, b, c in triangle_nodes:
-            if (
-                self.edge_features[(a, b)][dist_col_name]
-                and self.edge_features[(b, c)][dist_col_name]
-                and self.edge_features[(a, c)][dist_col_name]
+            distances = [
+                get_distance(a, b),
+                get_distance(b, c),
+                get_distance(a, c),
+            ]
+
+            if all(
+                dist is not None and dist < epsilon for dist in distances
             ):
-                dist_ab = self.edge_features[(a, b)][dist_col_name]
-                dist_ac = self.edge_features[(b, c)][dist_col_name]
-                dist_bc = self.edge_features[(a, c)][dist_col_name]
-
-                if (
-                    dist_ab < epsilon
-                    and dist_ac < epsilon
-                    and dist_bc < epsilon
-                ):
-                    conditional_tri.append([a, b, c])
+                conditional_tri.append([a, b, c])
 
         return conditional_tri
 
-- 
2.43.0


From 133885044a61f7074d59b1a17a0e285fac645940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 06/25] fix: attach edge features to the edge of their own row

read_csv and read_tntp took the features of the i-th row for the i-th edge
after duplicates were dropped and the edges were sorted. read_csv also
failed with its default feature_cols=None.
---
 pytspl/io/network_reader.py | 66 +++++++++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 10 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index da6b74c..cc7addd 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -64,6 +64,44 @@ def _extract_nodes_edges(
     return nodes, edges
 
 
+def _extract_edge_features(
+    df: pd.DataFrame,
+    edges: list,
+    src_col: str,
+    dest_col: str,
+    feature_cols: list,
+    start_index_zero: bool,
+) -> dict:
+    """
+    Extract the features of the edges from the network dataframe. The
+    features of an edge are taken from the first row that defines it.
+
+    Args:
+        df (pd.DataFrame): The dataframe containing the edges.
+        edges (list): The list of extracted edges.
+        src_col (str): The name of the column containing the source nodes.
+        dest_col (str): The name of the column containing the destination
+        nodes.
+        feature_cols (list): The names of the feature columns.
+        start_index_zero (bool): True, if the node ids start from 0. False,
+        if the node ids start from 1.
+
+    Returns:
+        dict: Dictionary of edge features, in the order of the edges.
+    """
+    offset = 0 if start_index_zero else 1
+
+    first_rows = {}
+    for i, (from_node, to_node) in enumerate(zip(df[src_col], df[dest_col])):
+        edge = (int(from_node) - offset, int(to_node) - offset)
+        first_rows.setdefault(edge, i)
+
+    return {
+        edge: df.iloc[first_rows[edge]][feature_cols].to_dict()
+        for edge in edges
+    }
+
+
 def read_tntp(
     filename: str,
     src_col: str,
@@ -112,11 +150,15 @@ def read_tntp(
 
     edge_features = {}
     node_features = {}
-    if len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
-            edge_features[(from_node, to_node)] = df.iloc[i][
-                feature_cols
-            ].to_dict()
+    if feature_cols:
+        edge_features = _extract_edge_features(
+            df=df,
+            edges=edges,
+            src_col=src_col,
+            dest_col=dest_col,
+            feature_cols=feature_cols,
+            start_index_zero=start_index_zero,
+        )
 
     return SCBuilder(
         nodes=nodes,
@@ -163,11 +205,15 @@ def read_csv(
     edge_features = {}
     node_features = {}
 
-    if len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
-            edge_features[(from_node, to_node)] = df.iloc[i][
-                feature_cols
-            ].to_dict()
+    if feature_cols:
+        edge_features = _extract_edge_features(
+            df=df,
+            edges=edges,
+            src_col=src_col,
+            dest_col=dest_col,
+            feature_cols=feature_cols,
+            start_index_zero=start_index_zero,
+        )
 
     return SCBuilder(
         nodes=nodes,
-- 
2.43.0


From fef9e1d138509e147cb1a942a7bf314cb3887022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 07/25] fix: read B2 triangles in the column order of B1

read_B1_B2 sorted the edges before looking up the rows of B2, which gave
wrong triangles for unsorted edges, and dropped trailing isolated nodes.
---
 pytspl/io/network_reader.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index cc7addd..9a7e605 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -268,7 +268,6 @@ def read_B1_B2(B1_filename: str, B2_filename: str) -> tuple:
     B1 = pd.read_csv(B1_filename, header=None).to_numpy()
 
     num_edges = B1.shape[1]
-    nodes = set()
     edges = []
 
     for j in range(num_edges):
@@ -276,16 +275,15 @@ def read_B1_B2(B1_filename: str, B2_filename: str) -> tuple:
         from_node = np.where(col == -1)[0][0]
         to_node = np.where(col == 1)[0][0]
 
-        nodes.add(from_node)
-        nodes.add(to_node)
-
         edges.append((from_node, to_node))
 
-    nodes = list(range(max(nodes) + 1))
+    # every row of B1 is a node
+    nodes = list(range(B1.shape[0]))
+    # the rows of B2 follow the order of the columns of B1
+    triangles = read_B2(B2_filename, np.asarray(edges))
     edges.sort()
 
     scbuilder = SCBuilder(nodes=nodes, edges=edges)
-    triangles = read_B2(B2_filename, np.asarray(edges))
 
     return scbuilder, triangles
 
-- 
2.43.0


From 71ceb2fb666d424788c874dafb49b9420d255c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 08/25] fix: keep the smallest eigenvalue when the Laplacian
 has no kernel

subcomponent_extraction_type_two always zeroed the smallest eigenvalue, which
is nonzero e.g. for the gradient component of a tree.
---
 pytspl/filters/ls_filter_design.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytspl/filters/ls_filter_design.py b/pytspl/filters/ls_filter_design.py
index de8cccf..3d928f4 100644
--- a/pytspl/filters/ls_filter_design.py
+++ b/pytspl/filters/ls_filter_design.py
@@ -178,8 +178,8 @@ class LSFilterDesign(BaseFilter):
         # get the true signal
         f_true = self.get_true_signal(component=component, f=f)
 
-        # filter coefficients
-        alpha = [0] + [1] * (len(eigenvals) - 1)
+        # filter coefficients - only the zero eigenvalue is filtered out
+        alpha = np.where(eigenvals > 0, 1.0, 0.0)
 
         # apply the filter
         H, f_estimated, frequency_responses, errors = self._apply_filter(
-- 
2.43.0


From 08fd545cf597d79474c3a88249c05664bd594b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 09/25] fix: give every filter run its own history

set_history updated one dictionary in place: the grid based general filter
reported its curl results under both L1 and L2, and these keys leaked into
later runs. _reset_history dropped the frequency_responses key.
---
 pytspl/filters/base_filter.py             | 18 +++++++++++-------
 pytspl/filters/simplicial_trend_filter.py | 15 ++++++++-------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index 9ec2bd9..a428476 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -30,6 +30,7 @@ class BaseFilter:
         self.history = {
             "filter": None,
             "f_estimated": None,
+            "frequency_responses": None,
             "extracted_component_error": None,
             "filter_error": None,
         }
@@ -43,13 +44,16 @@ class BaseFilter:
         filter_error: np.ndarray = np.array([]),
     ) -> None:
         """Set the history of the filter design."""
-        self.history["filter"] = filter.astype(float)
-        self.history["f_estimated"] = f_estimated.astype(float)
-        self.history["frequency_responses"] = frequency_responses.astype(float)
-        self.history["extracted_component_error"] = (
-            extracted_component_error.astype(float)
-        )
-        self.history["filter_error"] = filter_error.astype(float)
+        # a new dictionary, so that earlier results are left untouched
+        self.history = {
+            "filter": filter.astype(float),
+            "f_estimated": f_estimated.astype(float),
+            "frequency_responses": frequency_responses.astype(float),
+            "extracted_component_error": extracted_component_error.astype(
+                float
+            ),
+            "filter_error": filter_error.astype(float),
+        }
 
     @staticmethod
     def calculate_error_NRMSE(f_estimated: np.ndarray, f_true) -> float:
diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 15e2e6c..8477200 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -57,13 +57,14 @@ class SimplicialTrendFilter(BaseFilter):
             errors (np.ndarray): The errors.
             correlations (np.ndarray): The correlations.
         """
-        self.history["filter"] = (
-            filter.astype(float) if filter is not None else None
-        )
-        self.history["frequency_responses"] = frequency_responses.astype(float)
-        self.history["component_flow"] = component_flow.astype(float)
-        self.history["errors"] = errors.astype(float)
-        self.history["correlations"] = correlations.astype(float)
+        # a new dictionary, so that earlier results are left untouched
+        self.history = {
+            "filter": filter.astype(float) if filter is not None else None,
+            "frequency_responses": frequency_responses.astype(float),
+            "component_flow": component_flow.astype(float),
+            "errors": errors.astype(float),
+            "correlations": correlations.astype(float),
+        }
 
     @staticmethod
     def _solver(
-- 
2.43.0


From 73153a0bc25588ca504da59ee16ef0ae6c0fbe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:55 +0000
Subject: [PATCH 10/25] fix: compute the largest eigenvalue reliably in the
 filter designs

The mean of (P @ v) / v over a power iteration from the all-ones vector is
NaN or far off when that vector has no part in the dominant eigenspace or the
dominant eigenvector has zeros, e.g. 1.7 instead of 4 for L1U of the paper
dataset.
---
 pytspl/filters/base_filter.py              | 12 ++++++++++++
 pytspl/filters/chebyshev_filter_design.py  |  8 +++-----
 pytspl/filters/grid_based_filter_design.py |  3 +--
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index a428476..5621ada 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -98,6 +98,18 @@ class BaseFilter:
         v = v.astype(float)
         return v
 
+    @staticmethod
+    def get_lambda_max(P: np.ndarray) -> float:
+        """Largest eigenvalue of the symmetric matrix P.
+
+        Args:
+            P (np.ndarray): The input matrix.
+
+        Returns:
+            float: The largest eigenvalue.
+        """
+        return np.linalg.eigvalsh(P)[-1]
+
     def get_true_signal(self, f: np.ndarray, component: str) -> np.ndarray:
         """
         Get the true signal for the component.
diff --git a/pytspl/filters/chebyshev_filter_design.py b/pytspl/filters/chebyshev_filter_design.py
index cb0a129..f76e757 100644
--- a/pytspl/filters/chebyshev_filter_design.py
+++ b/pytspl/filters/chebyshev_filter_design.py
@@ -94,7 +94,7 @@ class ChebyshevFilterDesign(BaseFilter):
     def get_alpha(self, p_choice: str) -> tuple:
         """
         Calculate the alpha value for the given choice of P matrix using
-        the power iteration method.
+        its largest eigenvalue.
 
         Args:
             p_choice (str): The choice of P matrix.
@@ -103,10 +103,8 @@ class ChebyshevFilterDesign(BaseFilter):
             tuple: The alpha and lambda_max value calculated.
         """
         P = self.get_p_matrix(p_choice).toarray()
-        v = self.power_iteration(P=P)
-
-        # mean of the largest eigenvalue
-        lambda_max = np.mean((P @ v) / v)
+        # the largest eigenvalue
+        lambda_max = self.get_lambda_max(P=P)
         # perform a transformation to shit the domain to [0, lambda_g_max]
         alpha = lambda_max / 2
         return alpha, lambda_max
diff --git a/pytspl/filters/grid_based_filter_design.py b/pytspl/filters/grid_based_filter_design.py
index 0d522ed..1ca5922 100644
--- a/pytspl/filters/grid_based_filter_design.py
+++ b/pytspl/filters/grid_based_filter_design.py
@@ -35,9 +35,8 @@ class GridBasedFilterDesign(BaseFilter):
             np.ndarray: Sampled grid points.
         """
         # Get the largest eigenvalue
-        v = self.power_iteration(P=P)
         lambda_min = 0
-        lambda_max = np.mean(P @ v / v)
+        lambda_max = self.get_lambda_max(P=P)
         return np.linspace(lambda_min, lambda_max, num_of_samples)
 
     @staticmethod
-- 
2.43.0


From 200424080dcaa1fd5ab2261426655d93b7eb85e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:19 +0000
Subject: [PATCH 11/25] fix: allow more Chebyshev filter orders than
 coefficients

apply failed with a shape mismatch when n < L.
---
 pytspl/filters/chebyshev_filter_design.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/filters/chebyshev_filter_design.py b/pytspl/filters/chebyshev_filter_design.py
index f76e757..4205fee 100644
--- a/pytspl/filters/chebyshev_filter_design.py
+++ b/pytspl/filters/chebyshev_filter_design.py
@@ -72,7 +72,7 @@ class ChebyshevFilterDesign(BaseFilter):
         K = len(coeffs)
 
         I = np.eye(P.shape[0], P.shape[1])
-        H_cheb_approx = np.zeros((order, P.shape[0], P.shape[1]), dtype=float)
+        H_cheb_approx = np.zeros((K, P.shape[0], P.shape[1]), dtype=float)
 
         for k in range(K):
             if k == 0:
-- 
2.43.0


From ec3a11d431bcc346f0936b5c4d194941bc747388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:19 +0000
Subject: [PATCH 12/25] fix: regularize the curl in the l2 trend filter when
 asked to

The divergence was penalized whatever the component.
---
 pytspl/filters/simplicial_trend_filter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 8477200..c7af310 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -208,7 +208,12 @@ class SimplicialTrendFilter(BaseFilter):
         # compute the noise variance
         power_noise, snr = self.get_power_noise(flow=flow, snr_db=snr_db)
 
-        L1l = self.sc.lower_laplacian_matrix(rank=1)
+        # the Laplacian of the regularized component
+        if component == "divergence":
+            lap_matrix = self.sc.lower_laplacian_matrix(rank=1).toarray()
+        else:
+            lap_matrix = self.sc.upper_laplacian_matrix(rank=1).toarray()
+
         num_edges = len(self.sc.edges)
         # identity matrix
         I = np.eye(num_edges)
@@ -233,7 +238,7 @@ class SimplicialTrendFilter(BaseFilter):
                 errors_noisy[i, j] = self.calculate_error_NRMSE(f_noisy, flow)
 
                 # compute the filter
-                H = np.linalg.inv(I + mu * L1l)
+                H = np.linalg.inv(I + mu * lap_matrix)
                 frequency_responses[:, i, j] = H @ f_noisy
 
                 # compute the error
-- 
2.43.0


From 4468c7b803730936b91ef1e9abaa56bec91a698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:19 +0000
Subject: [PATCH 13/25] fix: report an untrained HodgeGPTrainer with the
 intended ValueError

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index edabcd7..2c376ff 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -29,6 +29,7 @@ class HodgeGPTrainer:
         """
         self.sc = sc
         self.y = y
+        self.model = None
 
         self.output_device = torch.device(output_device)
 
-- 
2.43.0


From 9d681eba91ddef1bf6d8d8efce54cb5edb4333c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:19 +0000
Subject: [PATCH 14/25] fix: raise ValueError for a kernel type the dataset
 does not have

'laplacian_non_hc' is a known name without a forex kernel: KeyError.
---
 pytspl/hogde_gp/kernel_serializer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytspl/hogde_gp/kernel_serializer.py b/pytspl/hogde_gp/kernel_serializer.py
index 3f695da..09cdebd 100644
--- a/pytspl/hogde_gp/kernel_serializer.py
+++ b/pytspl/hogde_gp/kernel_serializer.py
@@ -53,7 +53,10 @@ class KernelSerializer:
 
         if data_name == "forex":
             kernels = Kernels.get_forex_kernels()
-            kernel = kernels[kernel_type]
-            return kernel
+            if kernel_type not in kernels:
+                raise ValueError(
+                    f"Invalid kernel type. Choose from {list(kernels)}"
+                )
+            return kernels[kernel_type]
         else:
             raise ValueError("Invalid data name. Choose from ['forex']")
-- 
2.43.0


From f8728d7fcbb898b5043e3c7cd413b3cb7cd56d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:19 +0000
Subject: [PATCH 15/25] fix: let the kernels' forward default x2 to x1

x2 was used before the check for None.
---
 pytspl/hogde_gp/forex/diffusion.py        | 4 ++--
 pytspl/hogde_gp/forex/diffusion_non_hc.py | 4 ++--
 pytspl/hogde_gp/forex/laplacian.py        | 4 ++--
 pytspl/hogde_gp/forex/matern.py           | 4 ++--
 pytspl/hogde_gp/forex/matern_non_hc.py    | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pytspl/hogde_gp/forex/diffusion.py b/pytspl/hogde_gp/forex/diffusion.py
index 529d649..224f57a 100644
--- a/pytspl/hogde_gp/forex/diffusion.py
+++ b/pytspl/hogde_gp/forex/diffusion.py
@@ -134,12 +134,12 @@ class DiffusionKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/diffusion_non_hc.py b/pytspl/hogde_gp/forex/diffusion_non_hc.py
index 6c6e8df..d37c689 100644
--- a/pytspl/hogde_gp/forex/diffusion_non_hc.py
+++ b/pytspl/hogde_gp/forex/diffusion_non_hc.py
@@ -141,12 +141,12 @@ class DiffusionNonHCKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/laplacian.py b/pytspl/hogde_gp/forex/laplacian.py
index 6733910..3bf3bcd 100644
--- a/pytspl/hogde_gp/forex/laplacian.py
+++ b/pytspl/hogde_gp/forex/laplacian.py
@@ -96,12 +96,12 @@ class LaplacianKernelForex(Kernel):
         return self._eval_covar_matrix()
 
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/matern.py b/pytspl/hogde_gp/forex/matern.py
index 7c1bea4..5b89c27 100644
--- a/pytspl/hogde_gp/forex/matern.py
+++ b/pytspl/hogde_gp/forex/matern.py
@@ -214,12 +214,12 @@ class MaternKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
diff --git a/pytspl/hogde_gp/forex/matern_non_hc.py b/pytspl/hogde_gp/forex/matern_non_hc.py
index ceba00d..9f9568d 100644
--- a/pytspl/hogde_gp/forex/matern_non_hc.py
+++ b/pytspl/hogde_gp/forex/matern_non_hc.py
@@ -221,12 +221,12 @@ class MaternNonHCKernelForex(Kernel):
 
     # define the kernel function
     def forward(self, x1, x2=None, diag: Optional[bool] = False, **params):
+        if x2 is None:
+            x2 = x1
         x1, x2 = x1.long(), x2.long()
         x1 = x1.squeeze(-1)
         x2 = x2.squeeze(-1)
         # compute the kernel matrix
-        if x2 is None:
-            x2 = x1
 
         (k0, k1, k2) = self._eval_covar_matrix()
         K0 = self.harm_eigvects[x1, :] * k0 @ self.harm_eigvects[x2, :].T
-- 
2.43.0


From 5f9baf9c54b202fb6ebc36759cd3c5b48b2c1c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:19 +0000
Subject: [PATCH 16/25] fix: seed the weights and the layout of the random
 generator

Only the edges were reproducible, not the triangles and coordinates.
---
 pytspl/io/sc_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytspl/io/sc_generator.py b/pytspl/io/sc_generator.py
index bf3ca79..e14d648 100644
--- a/pytspl/io/sc_generator.py
+++ b/pytspl/io/sc_generator.py
@@ -26,7 +26,8 @@ def generate_random_simplicial_complex(
     # get random weights
     import random
 
-    weights = [random.random() for i in range(G.number_of_edges())]
+    rng = random.Random(seed)
+    weights = [rng.random() for i in range(G.number_of_edges())]
     # set the weights
     for i, (u, v) in enumerate(G.edges()):
         G[u][v]["distance"] = weights[i]
@@ -45,6 +46,6 @@ def generate_random_simplicial_complex(
     ).to_simplicial_complex(
         condition="distance", dist_threshold=dist_threshold
     )
-    coordinates = nx.spring_layout(G)
+    coordinates = nx.spring_layout(G, seed=seed)
 
     return sc, coordinates
-- 
2.43.0


From bb733306c3cf9d8b4a9c0096396564d6b2f94ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 17/25] fix: put the GP model in training mode before training
 it

predict leaves it in evaluation mode, so training again after a prediction
fitted the posterior instead of the marginal likelihood.
---
 pytspl/hogde_gp/hodge_gp_trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index 2c376ff..f0a7162 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -245,6 +245,9 @@ class HodgeGPTrainer:
             optimizer (_type_, optional): The optimizer. Defaults to
             torch.optim.Adam.
         """
+        model.train()
+        likelihood.train()
+
         # Use the adam optimizer
         optimizer = optimizer(model.parameters(), lr=learning_rate)
         # Includes GaussianLikelihood parameters
-- 
2.43.0


From 5e422f8ae245ebff07c37ed4d11997f2a5c99b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 18/25] fix: lay out isolated nodes when plotting without
 coordinates

Drawing the nodes failed with a KeyError.
---
 pytspl/plot/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 6aa13fb..9479410 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -47,6 +47,7 @@ class SCPlot:
         if self.pos is None:
             # use spring layout if no coordinates are provided
             G = nx.Graph()
+            G.add_nodes_from(self.sc.nodes)
             G.add_edges_from(self.sc.edges)
             layout = nx.spring_layout(G)
             self.pos = layout
-- 
2.43.0


From 4ad782e13b499f0068edf9ee4d91f854f2a6260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 19/25] fix: draw node labels on the given axes

They went to the current axes, which can be another plot.
---
 pytspl/plot/plot.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 9479410..d836abd 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -184,6 +184,7 @@ class SCPlot:
                 font_weight=font_weight,
                 font_color=font_color,
                 alpha=alpha,
+                ax=ax,
             )
 
         node_collection.set_zorder(2)
@@ -194,6 +195,7 @@ class SCPlot:
         font_color: str = "k",
         font_weight: str = "normal",
         alpha=None,
+        ax=None,
     ) -> None:
         """
         Draw the labels of the nodes.
@@ -207,10 +209,15 @@ class SCPlot:
             Defaults to 'normal'.
             alpha (float, optional): The transparency of the node labels.
             Defaults to None.
+            ax (matplotlib.axes.Axes, optional): The axes object.
+            Defaults to None.
         """
+        if ax is None:
+            ax = plt.gca()
+
         for node_id in self.sc.nodes:
             (x, y) = self.pos[node_id]
-            plt.text(
+            ax.text(
                 x,
                 y,
                 node_id,
-- 
2.43.0


From 39f3600607d1d367ee9799e1e2c4cbcc90f66862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 20/25] fix: color the nodes with the colormap of their
 colorbar

The cmap argument only reached the colorbar.
---
 pytspl/plot/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index d836abd..283ea8e 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -139,6 +139,7 @@ class SCPlot:
 
         self._init_axes(ax=ax)
 
+        scatter_cmap = None
         if np.iterable(node_color) and np.all(
             [isinstance(c, Number) for c in node_color]
         ):
@@ -153,6 +154,7 @@ class SCPlot:
             if vmax is None:
                 vmax = max(node_color)
 
+            scatter_cmap = cmap
             # add colorbar
             color_map = mpl.cm.ScalarMappable(cmap=cmap)
             color_map.set_clim(vmin=vmin, vmax=vmax)
@@ -166,6 +168,7 @@ class SCPlot:
             [self.pos[node_id][1] for node_id in nodes],
             s=node_size,
             c=node_color,
+            cmap=scatter_cmap,
             edgecolors=node_edge_colors,
             vmin=vmin,
             vmax=vmax,
-- 
2.43.0


From f5cefb3b05e4063b48ce1550dd0beed20473991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:56 +0000
Subject: [PATCH 21/25] fix: draw eigenvectors on a figure of their own

Figure 1 was reused, so the plots went on top of whatever it showed.
---
 pytspl/plot/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 283ea8e..dc44cb6 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -738,11 +738,11 @@ class SCPlot:
         # adjust the figure size to fit all the plots
         if num_rows > 1:
             new_figsize = (figsize[0], figsize[1] * num_rows)
-            fig = plt.figure(1, figsize=new_figsize)
+            fig = plt.figure(figsize=new_figsize)
         else:
             if num_cols != 1:
                 figsize = ((figsize[0] / viz_per_row) * num_cols, figsize[1])
-            fig = plt.figure(1, figsize=figsize)
+            fig = plt.figure(figsize=figsize)
 
         for i, eig_vec in enumerate(eigenvector_indices):
 
-- 
2.43.0


From 7c0205d02f30c3b1545952bda69fb44a8f518261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:31 +0000
Subject: [PATCH 22/25] fix: apply Chebyshev filters to complexes with one edge

---
 pytspl/filters/chebyshev_filter_design.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytspl/filters/chebyshev_filter_design.py b/pytspl/filters/chebyshev_filter_design.py
index 4205fee..acf12fe 100644
--- a/pytspl/filters/chebyshev_filter_design.py
+++ b/pytspl/filters/chebyshev_filter_design.py
@@ -230,18 +230,18 @@ class ChebyshevFilterDesign(BaseFilter):
 
         for k in range(L):
             g_cheb_approx = np.diag(
-                U_l.T @ np.squeeze(H_cheb_approx[k, :, :]) @ U_l
+                U_l.T @ H_cheb_approx[k, :, :] @ U_l
             )
             # compute the error with respect to the true component extraction
             errors_response[k] = self.calculate_error_NRMSE(
                 g_cheb_approx, h_ideal
             )
             errors_filter[k] = np.linalg.norm(
-                np.squeeze(H_cheb_approx[k, :, :]) - H_ideal, ord=2
+                H_cheb_approx[k, :, :] - H_ideal, ord=2
             )
 
             # compute the component error with respect to the true signal
-            f_cheb[k] = np.squeeze(H_cheb_approx[k, :, :]) @ f
+            f_cheb[k] = H_cheb_approx[k, :, :] @ f
             extracted_comp_error[k] = self.calculate_error_NRMSE(
                 f_cheb[k], f_true
             )
-- 
2.43.0


From e7bf209d18f0c0aaa5190ca8ca8bf59e0ac131f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:24 +0000
Subject: [PATCH 23/25] fix: stop listing cliques larger than triangles

---
 pytspl/simplicial_complex/scbuilder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pytspl/simplicial_complex/scbuilder.py b/pytspl/simplicial_complex/scbuilder.py
index 1a0d2f2..ee1b591 100644
--- a/pytspl/simplicial_complex/scbuilder.py
+++ b/pytspl/simplicial_complex/scbuilder.py
@@ -7,6 +7,8 @@ The 2-simplices can be added in three ways:
     - Triangles based on a condition e.g. distance.
 """
 
+from itertools import takewhile
+
 import networkx as nx
 
 from pytspl.simplicial_complex import SimplicialComplex
@@ -42,7 +44,11 @@ class SCBuilder:
         """
         g = nx.Graph()
         g.add_edges_from(self.edges)
-        cliques = nx.enumerate_all_cliques(g)
+        # the cliques come in order of size: stop after the triangles, there
+        # can be exponentially many larger ones
+        cliques = takewhile(
+            lambda x: len(x) <= 3, nx.enumerate_all_cliques(g)
+        )
         triangle_nodes = [x for x in cliques if len(x) == 3]
         # sort the triangles
         triangle_nodes = [sorted(tri) for tri in triangle_nodes]
-- 
2.43.0


From 073d54ab05208226a2fc6f14ba8eeebb07b46989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:10 +0000
Subject: [PATCH 24/25] fix: keep feature values when rows mix column types

A row of integer and decimal columns was converted to decimals, which
changed integers above 2**53.
---
 pytspl/io/network_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index 9a7e605..f2e2d17 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -96,9 +96,11 @@ def _extract_edge_features(
         edge = (int(from_node) - offset, int(to_node) - offset)
         first_rows.setdefault(edge, i)
 
+    # a row of mixed columns is converted to a common type: keep the values
+    features = df[feature_cols].astype(object)
+
     return {
-        edge: df.iloc[first_rows[edge]][feature_cols].to_dict()
-        for edge in edges
+        edge: features.iloc[first_rows[edge]].to_dict() for edge in edges
     }
 
 
-- 
2.43.0


From 9e0743d2c3b4d6486924d10e0f4dcee4653bc82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:41 +0000
Subject: [PATCH 25/25] fix: score predictions against targets, not targets
 against predictions

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index f0a7162..821209b 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -305,7 +305,7 @@ class HodgeGPTrainer:
         # Get the metrics
         mae = gpytorch.metrics.mean_absolute_error(predictions, y_test)
         mse = gpytorch.metrics.mean_squared_error(predictions, y_test)
-        r2 = r2_score(y_test, pred_mean)
+        r2 = r2_score(pred_mean, y_test)
         mlss = gpytorch.metrics.mean_standardized_log_loss(predictions, y_test)
         nlpd = gpytorch.metrics.negative_log_predictive_density(
             predictions, y_test
-- 
2.43.0

