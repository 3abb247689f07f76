From 3a318698973b8afda24bd32e469933493f471119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 01/29] fix: orient triangle columns of B2 consistently with
 the stored edge directions

---
 pytspl/simplicial_complex/simplicial_complex.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 89233e9..49169c4 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -98,22 +98,29 @@ class SimplicialComplex:
         B2 = np.zeros((len(edges), len(triangles)))
         for j, triangle in enumerate(triangles):
             a, b, c = triangle
+            # orientation of each edge with respect to the triangle:
+            # 1 if stored in the direction given, -1 if stored reversed
+            sign_a, sign_b, sign_c = 1, 1, 1
             try:
                 index_a = edges.index((a, b))
             except ValueError:
                 index_a = edges.index((b, a))
+                sign_a = -1
             try:
                 index_b = edges.index((b, c))
             except ValueError:
                 index_b = edges.index((c, b))
+                sign_b = -1
             try:
                 index_c = edges.index((a, c))
             except ValueError:
                 index_c = edges.index((c, a))
+                sign_c = -1
 
+            # a triangle is oriented along its edge between a and b
             B2[index_a, j] = 1
-            B2[index_c, j] = -1
-            B2[index_b, j] = 1
+            B2[index_c, j] = -sign_a * sign_c
+            B2[index_b, j] = sign_a * sign_b
 
         return B2
 
-- 
2.43.0


From 263be1fefed12b8809ffbb21e0f6513fd4f7b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 02/29] fix: read the features of each edge from its own row of
 the network file

---
 pytspl/io/network_reader.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index da6b74c..15c88b1 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -36,11 +36,13 @@ def _extract_nodes_edges(
 
     Returns:
         list: List of nodes and edges.
+        dict: Position of the first row of each edge in the dataframe.
     """
     nodes = set()
     edges = []
+    edge_rows = {}
 
-    for _, row in df.iterrows():
+    for i, (_, row) in enumerate(df.iterrows()):
         # subtract 1 to make the node ids 0-indexed
         from_node = int(row[src_col])
         to_node = int(row[dest_col])
@@ -56,12 +58,13 @@ def _extract_nodes_edges(
             continue
 
         edges.append((from_node, to_node))
+        edge_rows[(from_node, to_node)] = i
 
     nodes = list(range(max(nodes) + 1))
     # order edges
     edges.sort()
 
-    return nodes, edges
+    return nodes, edges, edge_rows
 
 
 def read_tntp(
@@ -98,7 +101,7 @@ def read_tntp(
     df.drop(["~", ";"], axis=1, inplace=True)
 
     # get the nodes and edges
-    nodes, edges = _extract_nodes_edges(
+    nodes, edges, edge_rows = _extract_nodes_edges(
         df=df,
         src_col=src_col,
         dest_col=dest_col,
@@ -113,7 +116,8 @@ def read_tntp(
     edge_features = {}
     node_features = {}
     if len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
+        for from_node, to_node in edges:
+            i = edge_rows[(from_node, to_node)]
             edge_features[(from_node, to_node)] = df.iloc[i][
                 feature_cols
             ].to_dict()
@@ -152,7 +156,7 @@ def read_csv(
     df = pd.read_csv(filename, sep=delimiter)
 
     # get the nodes and edges
-    nodes, edges = _extract_nodes_edges(
+    nodes, edges, edge_rows = _extract_nodes_edges(
         df=df,
         src_col=src_col,
         dest_col=dest_col,
@@ -164,7 +168,8 @@ def read_csv(
     node_features = {}
 
     if len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
+        for from_node, to_node in edges:
+            i = edge_rows[(from_node, to_node)]
             edge_features[(from_node, to_node)] = df.iloc[i][
                 feature_cols
             ].to_dict()
-- 
2.43.0


From a0336750b5817f58419a595566a48e62bc149fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 03/29] fix: let read_csv read a network without feature
 columns

---
 pytspl/io/network_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index 15c88b1..d70efac 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -167,7 +167,7 @@ def read_csv(
     edge_features = {}
     node_features = {}
 
-    if len(feature_cols) > 0:
+    if feature_cols is not None and len(feature_cols) > 0:
         for from_node, to_node in edges:
             i = edge_rows[(from_node, to_node)]
             edge_features[(from_node, to_node)] = df.iloc[i][
-- 
2.43.0


From 0e36a86e246a97f2bcbc339a9d50efb97e47e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 04/29] fix: find triangle distances for either edge direction
 and keep zero distances

---
 pytspl/simplicial_complex/scbuilder.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pytspl/simplicial_complex/scbuilder.py b/pytspl/simplicial_complex/scbuilder.py
index e6066a3..4ec985d 100644
--- a/pytspl/simplicial_complex/scbuilder.py
+++ b/pytspl/simplicial_complex/scbuilder.py
@@ -65,15 +65,19 @@ class SCBuilder:
 
         conditional_tri = []
         for a, b, c in triangle_nodes:
+            # the features can be stored for either direction of an edge
+            dist_ab, dist_bc, dist_ac = [
+                self.edge_features[
+                    edge if edge in self.edge_features else edge[::-1]
+                ][dist_col_name]
+                for edge in [(a, b), (b, c), (a, c)]
+            ]
+
             if (
-                self.edge_features[(a, b)][dist_col_name]
-                and self.edge_features[(b, c)][dist_col_name]
-                and self.edge_features[(a, c)][dist_col_name]
+                dist_ab is not None
+                and dist_bc is not None
+                and dist_ac is not None
             ):
-                dist_ab = self.edge_features[(a, b)][dist_col_name]
-                dist_ac = self.edge_features[(b, c)][dist_col_name]
-                dist_bc = self.edge_features[(a, c)][dist_col_name]
-
                 if (
                     dist_ab < epsilon
                     and dist_ac < epsilon
-- 
2.43.0


From afcc22131e87613f93551f30aaaf00584b089773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 05/29] fix: pass a dense Laplacian to the total variance
 computation

---
 pytspl/simplicial_complex/simplicial_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 49169c4..2bdbc0b 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -487,7 +487,7 @@ class SimplicialComplex:
         Returns:
             np.ndarray: The total variance of the SC.
         """
-        laplacian_matrix = self.laplacian_matrix()
+        laplacian_matrix = self.laplacian_matrix().toarray()
         return get_total_variance(laplacian_matrix)
 
     def get_divergence(self, flow: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 1601d4fa53614b9b2bf83a321e5dc6ede5915e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 06/29] fix: shift the flow as many times as the number of
 steps given

---
 pytspl/simplicial_complex/simplicial_complex.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 2bdbc0b..7fe262f 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -366,8 +366,9 @@ class SimplicialComplex:
             # L(1, l) @ f
             flow = L1L @ flow
         else:
-            # L(1, l)**2 @ f
-            flow = L1L @ (L1L @ flow)
+            # L(1, l)**steps @ f
+            for _ in range(steps):
+                flow = L1L @ flow
 
         return flow
 
@@ -391,8 +392,9 @@ class SimplicialComplex:
             # L(1, u) @ f
             flow = L1U @ flow
         else:
-            # L(1, u)**2 @ f
-            flow = L1U @ (L1U @ flow)
+            # L(1, u)**steps @ f
+            for _ in range(steps):
+                flow = L1U @ flow
 
         return flow
 
-- 
2.43.0


From 1f97bc0e3fba22d24e385130592e69cb1b27c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:18 +0000
Subject: [PATCH 07/29] fix: return the documented Hodge Laplacian of rank 2

---
 pytspl/simplicial_complex/simplicial_complex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 7fe262f..2af22b6 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -343,6 +343,8 @@ class SimplicialComplex:
             return self.lower_laplacian_matrix(
                 rank=rank
             ) + self.upper_laplacian_matrix(rank=rank)
+        elif rank == 2:
+            return self.lower_laplacian_matrix(rank=rank)
         else:
             raise ValueError("Rank must be between 0 and 2.")
 
-- 
2.43.0


From c7eb09790db1860226e7ca141bed8fae65d23190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 08/29] fix: keep the edge order and all nodes of the B1 file
 so that B2 rows refer to the right edges

---
 pytspl/io/network_reader.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index d70efac..4c0e6d9 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -227,7 +227,6 @@ def read_B1_B2(B1_filename: str, B2_filename: str) -> tuple:
     B1 = pd.read_csv(B1_filename, header=None).to_numpy()
 
     num_edges = B1.shape[1]
-    nodes = set()
     edges = []
 
     for j in range(num_edges):
@@ -235,13 +234,11 @@ def read_B1_B2(B1_filename: str, B2_filename: str) -> tuple:
         from_node = np.where(col == -1)[0][0]
         to_node = np.where(col == 1)[0][0]
 
-        nodes.add(from_node)
-        nodes.add(to_node)
-
         edges.append((from_node, to_node))
 
-    nodes = list(range(max(nodes) + 1))
-    edges.sort()
+    # the rows of B1 are the nodes, and its columns are the edges in the
+    # order the rows of B2 (and the flow) refer to
+    nodes = list(range(B1.shape[0]))
 
     scbuilder = SCBuilder(nodes=nodes, edges=edges)
     triangles = read_B2(B2_filename, np.asarray(edges))
-- 
2.43.0


From 6143f901516a3a551d202bba44ddde1d1b5a5781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 09/29] fix: derive the weights and the layout of a random
 complex from its seed

---
 pytspl/io/sc_generator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytspl/io/sc_generator.py b/pytspl/io/sc_generator.py
index bf3ca79..a8aeab6 100644
--- a/pytspl/io/sc_generator.py
+++ b/pytspl/io/sc_generator.py
@@ -21,12 +21,13 @@ def generate_random_simplicial_complex(
         SimplicialComplex: The generated simplicial complex.
         dict: The coordinates of the nodes.
     """
-    G = nx.erdos_renyi_graph(n=num_of_nodes, p=p, seed=seed, directed=False)
-
-    # get random weights
     import random
 
-    weights = [random.random() for i in range(G.number_of_edges())]
+    rng = random.Random(seed)
+    G = nx.erdos_renyi_graph(n=num_of_nodes, p=p, seed=rng, directed=False)
+
+    # get random weights
+    weights = [rng.random() for i in range(G.number_of_edges())]
     # set the weights
     for i, (u, v) in enumerate(G.edges()):
         G[u][v]["distance"] = weights[i]
@@ -45,6 +46,6 @@ def generate_random_simplicial_complex(
     ).to_simplicial_complex(
         condition="distance", dist_threshold=dist_threshold
     )
-    coordinates = nx.spring_layout(G)
+    coordinates = nx.spring_layout(G, seed=seed)
 
     return sc, coordinates
-- 
2.43.0


From 172034c173812c0d23108ecfd4351cc5bb18a555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 10/29] fix: reset the frequency responses with the rest of the
 filter history

---
 pytspl/filters/base_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index 9ec2bd9..e60d2c6 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -30,6 +30,7 @@ class BaseFilter:
         self.history = {
             "filter": None,
             "f_estimated": None,
+            "frequency_responses": None,
             "extracted_component_error": None,
             "filter_error": None,
         }
-- 
2.43.0


From 17b665a9b1976237b0c9ae9a050d9477fef7a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 11/29] fix: start every grid filter run with a fresh history

---
 pytspl/filters/grid_based_filter_design.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/filters/grid_based_filter_design.py b/pytspl/filters/grid_based_filter_design.py
index 0d522ed..a286528 100644
--- a/pytspl/filters/grid_based_filter_design.py
+++ b/pytspl/filters/grid_based_filter_design.py
@@ -165,6 +165,8 @@ class GridBasedFilterDesign(BaseFilter):
             L (int): The filter size.
             mu (float): The damping factor.
         """
+        self._reset_history()
+
         P = self.get_p_matrix(p_choice)
         U, _ = get_eigendecomposition(lap_mat=P.toarray())
 
@@ -220,6 +222,8 @@ class GridBasedFilterDesign(BaseFilter):
             steep (int, Optional): The steepness of the logistic function.
             Default is 100.
         """
+        self._reset_history()
+
         P = self.get_p_matrix(p_choice)
         U, _ = get_eigendecomposition(lap_mat=P.toarray())
 
-- 
2.43.0


From c4dea4e1b4918a83d533b552195d9062fc865b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 12/29] fix: only suppress the zero eigenvalues in the LS
 gradient and curl filters

---
 pytspl/filters/ls_filter_design.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/filters/ls_filter_design.py b/pytspl/filters/ls_filter_design.py
index de8cccf..62bbec8 100644
--- a/pytspl/filters/ls_filter_design.py
+++ b/pytspl/filters/ls_filter_design.py
@@ -179,7 +179,7 @@ class LSFilterDesign(BaseFilter):
         f_true = self.get_true_signal(component=component, f=f)
 
         # filter coefficients
-        alpha = [0] + [1] * (len(eigenvals) - 1)
+        alpha = np.where(eigenvals == 0, 0, 1)
 
         # apply the filter
         H, f_estimated, frequency_responses, errors = self._apply_filter(
-- 
2.43.0


From b81707678641aa6d17b199d74ca1274a31fab5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 13/29] fix: regularize the curl with the upper Laplacian in l2
 denoising

---
 pytspl/filters/simplicial_trend_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 15e2e6c..804a926 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -207,7 +207,11 @@ class SimplicialTrendFilter(BaseFilter):
         # compute the noise variance
         power_noise, snr = self.get_power_noise(flow=flow, snr_db=snr_db)
 
-        L1l = self.sc.lower_laplacian_matrix(rank=1)
+        # regularize the divergence or the curl
+        if component == "divergence":
+            lap_matrix = self.sc.lower_laplacian_matrix(rank=1)
+        else:
+            lap_matrix = self.sc.upper_laplacian_matrix(rank=1)
         num_edges = len(self.sc.edges)
         # identity matrix
         I = np.eye(num_edges)
@@ -232,7 +236,7 @@ class SimplicialTrendFilter(BaseFilter):
                 errors_noisy[i, j] = self.calculate_error_NRMSE(f_noisy, flow)
 
                 # compute the filter
-                H = np.linalg.inv(I + mu * L1l)
+                H = np.linalg.inv(I + mu * lap_matrix)
                 frequency_responses[:, i, j] = H @ f_noisy
 
                 # compute the error
-- 
2.43.0


From 8d7b51b196365049fed32dd757372893d0c7506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 14/29] fix: reject a kernel type without a forex kernel with
 the documented ValueError

---
 pytspl/hogde_gp/kernel_serializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/hogde_gp/kernel_serializer.py b/pytspl/hogde_gp/kernel_serializer.py
index 3f695da..0755a02 100644
--- a/pytspl/hogde_gp/kernel_serializer.py
+++ b/pytspl/hogde_gp/kernel_serializer.py
@@ -53,6 +53,10 @@ class KernelSerializer:
 
         if data_name == "forex":
             kernels = Kernels.get_forex_kernels()
+            if kernel_type not in kernels:
+                raise ValueError(
+                    f"Invalid kernel type. Choose from {list(kernels)}"
+                )
             kernel = kernels[kernel_type]
             return kernel
         else:
-- 
2.43.0


From 9aa2000d231bc3b2032b65640bb82c7d444840e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 15/29] fix: raise the documented ValueError for the parameters
 of an untrained GP

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index edabcd7..2c376ff 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -29,6 +29,7 @@ class HodgeGPTrainer:
         """
         self.sc = sc
         self.y = y
+        self.model = None
 
         self.output_device = torch.device(output_device)
 
-- 
2.43.0


From 3d59dfaf19592d4e1ba07d5706a997d906879431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 16/29] fix: place isolated nodes when the plot generates the
 layout

---
 pytspl/plot/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 6aa13fb..9479410 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -47,6 +47,7 @@ class SCPlot:
         if self.pos is None:
             # use spring layout if no coordinates are provided
             G = nx.Graph()
+            G.add_nodes_from(self.sc.nodes)
             G.add_edges_from(self.sc.edges)
             layout = nx.spring_layout(G)
             self.pos = layout
-- 
2.43.0


From 50cc8cb99a0832b561dc26e6e6c3830a98675cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 17/29] fix: draw the node labels in the axes that were given

---
 pytspl/plot/plot.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 9479410..d836abd 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -184,6 +184,7 @@ class SCPlot:
                 font_weight=font_weight,
                 font_color=font_color,
                 alpha=alpha,
+                ax=ax,
             )
 
         node_collection.set_zorder(2)
@@ -194,6 +195,7 @@ class SCPlot:
         font_color: str = "k",
         font_weight: str = "normal",
         alpha=None,
+        ax=None,
     ) -> None:
         """
         Draw the labels of the nodes.
@@ -207,10 +209,15 @@ class SCPlot:
             Defaults to 'normal'.
             alpha (float, optional): The transparency of the node labels.
             Defaults to None.
+            ax (matplotlib.axes.Axes, optional): The axes object.
+            Defaults to None.
         """
+        if ax is None:
+            ax = plt.gca()
+
         for node_id in self.sc.nodes:
             (x, y) = self.pos[node_id]
-            plt.text(
+            ax.text(
                 x,
                 y,
                 node_id,
-- 
2.43.0


From dbd9d9dfda98f14fca67e5d8a11e828f77f176a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 18/29] fix: color the nodes with the color map their colorbar
 shows

---
 pytspl/plot/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index d836abd..495afbf 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -158,6 +158,9 @@ class SCPlot:
             color_map.set_clim(vmin=vmin, vmax=vmax)
             fig = ax.get_figure()
             fig.colorbar(mappable=color_map, ax=ax)
+        else:
+            # a color map only applies to numeric colors
+            cmap = None
 
         nodes = self.sc.nodes
 
@@ -167,6 +170,7 @@ class SCPlot:
             s=node_size,
             c=node_color,
             edgecolors=node_edge_colors,
+            cmap=cmap,
             vmin=vmin,
             vmax=vmax,
             alpha=alpha,
-- 
2.43.0


From 02d5c7a7b8b9b12557289a4a4f7b4e91f7e32aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 19/29] fix: estimate the largest eigenvalue with a Rayleigh
 quotient that stays finite

---
 pytspl/filters/base_filter.py              | 7 +++++++
 pytspl/filters/chebyshev_filter_design.py  | 4 ++--
 pytspl/filters/grid_based_filter_design.py | 3 ++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index e60d2c6..80311ce 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -86,6 +86,13 @@ class BaseFilter:
         """
         v = np.ones(P.shape[0])
 
+        if not np.any(P @ v):
+            if not np.any(P):
+                return v / np.linalg.norm(v)
+            # the start vector is in the kernel of P: start from the column
+            # of the largest diagonal element instead
+            v = P[:, np.argmax(np.diag(P))]
+
         for _ in range(iterations):
             v = P @ v
             v = v / np.linalg.norm(v)
diff --git a/pytspl/filters/chebyshev_filter_design.py b/pytspl/filters/chebyshev_filter_design.py
index cb0a129..5d2b676 100644
--- a/pytspl/filters/chebyshev_filter_design.py
+++ b/pytspl/filters/chebyshev_filter_design.py
@@ -105,8 +105,8 @@ class ChebyshevFilterDesign(BaseFilter):
         P = self.get_p_matrix(p_choice).toarray()
         v = self.power_iteration(P=P)
 
-        # mean of the largest eigenvalue
-        lambda_max = np.mean((P @ v) / v)
+        # Rayleigh quotient of the approximated eigenvector
+        lambda_max = (v @ P @ v) / (v @ v)
         # perform a transformation to shit the domain to [0, lambda_g_max]
         alpha = lambda_max / 2
         return alpha, lambda_max
diff --git a/pytspl/filters/grid_based_filter_design.py b/pytspl/filters/grid_based_filter_design.py
index a286528..e1ba0c2 100644
--- a/pytspl/filters/grid_based_filter_design.py
+++ b/pytspl/filters/grid_based_filter_design.py
@@ -37,7 +37,8 @@ class GridBasedFilterDesign(BaseFilter):
         # Get the largest eigenvalue
         v = self.power_iteration(P=P)
         lambda_min = 0
-        lambda_max = np.mean(P @ v / v)
+        # Rayleigh quotient of the approximated eigenvector
+        lambda_max = (v @ P @ v) / (v @ v)
         return np.linspace(lambda_min, lambda_max, num_of_samples)
 
     @staticmethod
-- 
2.43.0


From be56e18f5dad0f4e07bc613261afa3d18a05e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 20/29] fix: build a Chebyshev filter longer than its series of
 coefficients

---
 pytspl/filters/chebyshev_filter_design.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/filters/chebyshev_filter_design.py b/pytspl/filters/chebyshev_filter_design.py
index 5d2b676..f28150f 100644
--- a/pytspl/filters/chebyshev_filter_design.py
+++ b/pytspl/filters/chebyshev_filter_design.py
@@ -72,7 +72,7 @@ class ChebyshevFilterDesign(BaseFilter):
         K = len(coeffs)
 
         I = np.eye(P.shape[0], P.shape[1])
-        H_cheb_approx = np.zeros((order, P.shape[0], P.shape[1]), dtype=float)
+        H_cheb_approx = np.zeros((K, P.shape[0], P.shape[1]), dtype=float)
 
         for k in range(K):
             if k == 0:
-- 
2.43.0


From 94a8fcf818c069c6f6470856bcde660de5edb3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 21/29] fix: do not count rounding errors as rank in the Hodge
 decomposition

---
 pytspl/decomposition/hodge_decomposition.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytspl/decomposition/hodge_decomposition.py b/pytspl/decomposition/hodge_decomposition.py
index ce8f926..b6ba5e3 100644
--- a/pytspl/decomposition/hodge_decomposition.py
+++ b/pytspl/decomposition/hodge_decomposition.py
@@ -13,6 +13,10 @@ The following components can be extracted:
 import numpy as np
 from scipy.sparse import csr_matrix
 
+# Singular values of an incidence matrix below this fraction of the largest
+# are zero up to rounding (the machine precision is too tight a cut-off).
+RANK_TOLERANCE = 1e-10
+
 
 def get_gradient_flow(
     B1: csr_matrix,
@@ -33,7 +37,7 @@ def get_gradient_flow(
     Returns:
         np.ndarray: The gradient flow.
     """
-    p = np.linalg.lstsq(B1.T.toarray(), flow, rcond=None)[0]
+    p = np.linalg.lstsq(B1.T.toarray(), flow, rcond=RANK_TOLERANCE)[0]
     gradient_flow = B1.T @ p
 
     if round_fig:
@@ -61,7 +65,7 @@ def get_curl_flow(
     Returns:
         np.ndarray: The curl flow.
     """
-    w = np.linalg.lstsq(B2.toarray(), flow, rcond=None)[0]
+    w = np.linalg.lstsq(B2.toarray(), flow, rcond=RANK_TOLERANCE)[0]
     curl_flow = B2 @ w
 
     if round_fig:
-- 
2.43.0


From 0d1d87ab31d3a439273590fce436b89eb0f66cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:13 +0000
Subject: [PATCH 22/29] fix: count a repeated eigenvalue once in the LS filter,
 as its tolerance says

---
 pytspl/filters/ls_filter_design.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytspl/filters/ls_filter_design.py b/pytspl/filters/ls_filter_design.py
index 62bbec8..f312277 100644
--- a/pytspl/filters/ls_filter_design.py
+++ b/pytspl/filters/ls_filter_design.py
@@ -174,6 +174,8 @@ class LSFilterDesign(BaseFilter):
         U, eigenvals = get_eigendecomposition(lap_mat=lap_matrix.toarray())
         eigenvals = np.where(np.abs(eigenvals) < tolerance, 0, eigenvals)
         eigenvals = np.unique(eigenvals)
+        # a repeated eigenvalue counts once, whatever its rounding errors
+        eigenvals = eigenvals[np.diff(eigenvals, prepend=-np.inf) > tolerance]
 
         # get the true signal
         f_true = self.get_true_signal(component=component, f=f)
-- 
2.43.0


From 8f4aacc67f01cb5f2755e8e96903be6d4adeb264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:01 +0000
Subject: [PATCH 23/29] fix: l1 trend filter of the curl on a complex without
 triangles

The solver rejects an operator without rows and fails on a zero operator;
the penalty of an empty curl is zero.
---
 pytspl/filters/simplicial_trend_filter.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 804a926..01d8893 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -65,6 +65,17 @@ class SimplicialTrendFilter(BaseFilter):
         self.history["errors"] = errors.astype(float)
         self.history["correlations"] = correlations.astype(float)
 
+    @staticmethod
+    def _shifted_norm(shift_operator: np.ndarray, f_opt):
+        """l1 norm of the shifted flow, as an expression of the solver."""
+        import cvxpy as cp
+
+        if shift_operator.count_nonzero() == 0:
+            # no triangles: there is no curl, and the solver accepts neither
+            # an operator without rows nor a constant zero
+            return 0
+        return cp.norm(shift_operator @ f_opt, p=1)
+
     @staticmethod
     def _solver(
         num_edges: int,
@@ -76,9 +87,11 @@ class SimplicialTrendFilter(BaseFilter):
         import cvxpy as cp
 
         f_opt = cp.Variable(num_edges)
-        shifted_edge_flow = shift_operator @ f_opt
+        shifted_norm = SimplicialTrendFilter._shifted_norm(
+            shift_operator, f_opt
+        )
         objective = cp.Minimize(
-            1 * cp.norm(f_noisy - f_opt) + mu * cp.norm(shifted_edge_flow, p=1)
+            1 * cp.norm(f_noisy - f_opt) + mu * shifted_norm
         )
         prob = cp.Problem(objective)
         prob.solve()
@@ -451,10 +464,10 @@ class SimplicialTrendFilter(BaseFilter):
                 # l1 norm based regularization
                 # solve the optimization problem
                 f_opt = cp.Variable(num_edges)
-                shifted_edge_flow = shift_operator @ f_opt
                 objective = cp.Minimize(
                     1 * cp.norm(f_opt - f_in)
-                    + regularization * cp.norm(shifted_edge_flow, p=1)
+                    + regularization
+                    * self._shifted_norm(shift_operator, f_opt)
                 )
                 constraints = [
                     sampling_matrix @ f_opt == sampling_matrix @ f_in
-- 
2.43.0


From c0ce6270b257c7a9ec17ec5e23aa722a8f2d54a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:15 +0000
Subject: [PATCH 24/29] fix: Chebyshev filter on a complex with a single edge

Squeezing its 1x1 filter left no matrix to multiply with.
---
 pytspl/filters/chebyshev_filter_design.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytspl/filters/chebyshev_filter_design.py b/pytspl/filters/chebyshev_filter_design.py
index f28150f..8fe119f 100644
--- a/pytspl/filters/chebyshev_filter_design.py
+++ b/pytspl/filters/chebyshev_filter_design.py
@@ -232,18 +232,18 @@ class ChebyshevFilterDesign(BaseFilter):
 
         for k in range(L):
             g_cheb_approx = np.diag(
-                U_l.T @ np.squeeze(H_cheb_approx[k, :, :]) @ U_l
+                U_l.T @ H_cheb_approx[k, :, :] @ U_l
             )
             # compute the error with respect to the true component extraction
             errors_response[k] = self.calculate_error_NRMSE(
                 g_cheb_approx, h_ideal
             )
             errors_filter[k] = np.linalg.norm(
-                np.squeeze(H_cheb_approx[k, :, :]) - H_ideal, ord=2
+                H_cheb_approx[k, :, :] - H_ideal, ord=2
             )
 
             # compute the component error with respect to the true signal
-            f_cheb[k] = np.squeeze(H_cheb_approx[k, :, :]) @ f
+            f_cheb[k] = H_cheb_approx[k, :, :] @ f
             extracted_comp_error[k] = self.calculate_error_NRMSE(
                 f_cheb[k], f_true
             )
-- 
2.43.0


From d914316abb896bcf85e444853f86e0827653e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:31 +0000
Subject: [PATCH 25/29] fix: train a GP model in training mode

After a prediction the model stayed in evaluation mode, so training
optimised the likelihood of its own posterior, or failed.
---
 pytspl/hogde_gp/hodge_gp_trainer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index 2c376ff..47a958d 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -245,6 +245,11 @@ class HodgeGPTrainer:
             optimizer (_type_, optional): The optimizer. Defaults to
             torch.optim.Adam.
         """
+        # the marginal likelihood is that of the prior: a model that has
+        # made predictions is in evaluation mode
+        model.train()
+        likelihood.train()
+
         # Use the adam optimizer
         optimizer = optimizer(model.parameters(), lr=learning_rate)
         # Includes GaussianLikelihood parameters
-- 
2.43.0


From 07129d4a79db4a2dde5e5ac7a82896284b61b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:49 +0000
Subject: [PATCH 26/29] fix: predict with the current hyperparameters of the
 model

A second prediction after a change of the hyperparameters reused what the
first one had stored, and mixed both settings.
---
 pytspl/hogde_gp/hodge_gp_trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index 47a958d..70aab61 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -292,6 +292,9 @@ class HodgeGPTrainer:
         Returns:
             gpytorch.distributions (torch.tensor): The predictions.
         """
+        # leaving training mode drops what an earlier prediction stored for
+        # the hyperparameters of that time
+        model.train()
         model.eval()
         likelihood.eval()
 
-- 
2.43.0


From 0802fb21879dfd5bec35fe4543ee4db7709699a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 27/29] fix: eigendecomposition must not touch the process-wide
 warning state

Entering warnings.catch_warnings in several threads at once leaves every
later warning of the process suppressed.
---
 pytspl/decomposition/eigendecomposition.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pytspl/decomposition/eigendecomposition.py b/pytspl/decomposition/eigendecomposition.py
index fdf7b79..6e07d36 100644
--- a/pytspl/decomposition/eigendecomposition.py
+++ b/pytspl/decomposition/eigendecomposition.py
@@ -6,10 +6,8 @@ into gradient, curl and harmonic eigenvalues and eigenvectors
 (eigenpairs).
 """
 
-import warnings
-
 import numpy as np
-from scipy.sparse.linalg import eigsh
+from scipy.linalg import eigh
 
 
 def get_total_variance(laplacian_matrix: np.ndarray) -> float:
@@ -150,10 +148,9 @@ def get_eigendecomposition(
         lap_mat, np.ndarray
     ), "Laplacian matrix must be a numpy array"
 
-    with warnings.catch_warnings(record=True):
-        # eigenvalues, eigenvectors = np.linalg.eig(lap_mat)
-        eigenvalues, eigenvectors = eigsh(lap_mat, k=lap_mat.shape[0])
-        # set the values below tolerance to zero
-        eigenvalues[np.abs(eigenvalues) < tolerance] = 0
+    # the dense solver eigsh turns to when all eigenpairs are requested
+    eigenvalues, eigenvectors = eigh(lap_mat)
+    # set the values below tolerance to zero
+    eigenvalues[np.abs(eigenvalues) < tolerance] = 0
 
     return eigenvectors, eigenvalues
-- 
2.43.0


From f84dcf887c91ab052b68852bdb94f556fa477e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:38 +0000
Subject: [PATCH 28/29] fix: score the predictions against the targets in the
 R2 metric

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index 70aab61..8d95794 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -310,7 +310,7 @@ class HodgeGPTrainer:
         # Get the metrics
         mae = gpytorch.metrics.mean_absolute_error(predictions, y_test)
         mse = gpytorch.metrics.mean_squared_error(predictions, y_test)
-        r2 = r2_score(y_test, pred_mean)
+        r2 = r2_score(pred_mean, y_test)
         mlss = gpytorch.metrics.mean_standardized_log_loss(predictions, y_test)
         nlpd = gpytorch.metrics.negative_log_predictive_density(
             predictions, y_test
-- 
2.43.0


From 235f6001c06c696ddeea849538e64c8feba66709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:38 +0000
Subject: [PATCH 29/29] fix: print the noise level in dB and its own noisy
 error when denoising

---
 pytspl/filters/simplicial_trend_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 01d8893..dbb5d2a 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -270,8 +270,8 @@ class SimplicialTrendFilter(BaseFilter):
                 )
 
             print(
-                f"SNR: {np.round(snr[i], 4)} dB - "
-                + f"error noisy: {np.round(np.mean(errors_noisy[i:,]), 4)} - "
+                f"SNR: {np.round(snr_db[i], 4)} dB - "
+                + f"error noisy: {np.round(np.mean(errors_noisy[i, :]), 4)} - "
                 + f"l2 error: {np.round(np.mean(errors[i, :]), 4)} - "
                 + f"corr:  {np.round(np.mean(corrs[i, :]), 4)}"
             )
@@ -374,7 +374,7 @@ class SimplicialTrendFilter(BaseFilter):
                 )
 
             print(
-                f"SNR: {np.round(snr[i], 4)} dB - "
+                f"SNR: {np.round(snr_db[i], 4)} dB - "
                 + f"l1 error: {np.round(np.mean(errors[i, :]), 4)} - "
                 + f"corr: {np.round(np.mean(correlations[i, :]), 4)}"
             )
-- 
2.43.0

