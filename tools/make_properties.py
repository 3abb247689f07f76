"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os

SCF = "pytspl/simplicial_complex/simplicial_complex.py"
BLD = "pytspl/simplicial_complex/scbuilder.py"
RD = "pytspl/io/network_reader.py"
EIG = "pytspl/decomposition/eigendecomposition.py"
HD = "pytspl/decomposition/hodge_decomposition.py"
BF = "pytspl/filters/base_filter.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": [observe], "hook_needed": None},
    })


ANY = ("every simplicial complex on nodes 0..n-1 with distinct undirected edges: any number of nodes, "
       "edges and triangles (none included), any edge order and stored direction, any triangle order and "
       "vertex order, isolated nodes and several connected components included")

prop("C01", "The boundary operators of a complex form an exact chain complex",
     "For every simplicial complex, the node-edge incidence matrix has one column per edge in the listed order, holding exactly -1 at the edge's first node, +1 at its second node and 0 elsewhere (row v for node v, in whatever order the nodes are listed). The edge-triangle incidence matrix has one column per triangle in the listed order, holding +-1 at exactly that triangle's three boundary edges and 0 elsewhere. The product of the two is exactly zero, whichever direction each edge is stored in and whatever order a triangle's vertices are listed in.",
     ["inputs"], ANY,
     "The tests compare the matrices of two shipped networks whose edges all point the same way; the boundary-of-a-boundary law must hold for every mixture of edge directions, orders and triangle vertex orders, of which there are unboundedly many.",
     [SCF], [("incidence matrices built from edge and triangle lists", SCF + " edges_to_B1, triangles_to_B2"), ("incidence query", SCF + " incidence_matrix")],
     "incidence_matrix(rank=0|1|2) of a complex built directly or by the builder")

prop("C02", "Laplacians and adjacency are exactly those of the complex",
     "For every simplicial complex, the graph Laplacian, the lower and upper Laplacians and the Hodge Laplacians returned for each rank equal the products of the incidence matrices that define them, the Hodge Laplacian of the edges being the sum of its lower and upper parts, whose product is zero. Their kernels have the topological dimensions: connected components for nodes, independent unfilled cycles for edges. The adjacency matrix is the symmetric 0/1 matrix of the undirected edges.",
     ["inputs"], ANY,
     "Tests compare the Laplacians of one seven-node example with the products the code itself computes; the identities and Betti numbers must hold for every topology and orientation.",
     [SCF], [("Laplacian queries", SCF + " laplacian_matrix, lower_/upper_/hodge_laplacian_matrix"), ("adjacency query", SCF + " adjacency_matrix")],
     "the matrices returned by the Laplacian and adjacency queries")

prop("C03", "A builder fills exactly the requested triangles and keeps all else",
     "Building a complex with the default condition yields every 3-clique of the edges exactly once and nothing else; with the distance condition exactly those 3-cliques whose three edge distances are all strictly below the threshold, whichever direction an edge and its features are stored in; with an explicit list exactly that list. Nodes, edges and features are carried over unchanged, and shape, dimension, simplex list, faces, feature names and feature values describe exactly the simplices and data that were given.",
     ["inputs"], ANY + "; any edge distances (zero, equal to the threshold, negative, infinite) and any threshold",
     "Tests use one seven-node graph with one threshold; cliques, ties at the threshold, zero distances and reversed edges form an unbounded input space.",
     [BLD, SCF], [("triangle enumeration", BLD + " triangles"), ("distance condition", BLD + " triangles_dist_based"), ("assembly", BLD + " to_simplicial_complex"), ("descriptors", SCF + " shape, max_dim, simplices, get_faces, edge_feature_names, get_edge_features")],
     "SCBuilder.to_simplicial_complex and the complex it returns")

prop("C04", "The Hodge decomposition splits any flow into its three orthogonal parts",
     "For every complex and every edge flow, the unrounded gradient, curl and harmonic components add up to the flow, are mutually orthogonal, are linear in the flow, and are the orthogonal projections onto the image of the node-edge coboundary, the image of the edge-triangle boundary and the remaining kernel: the gradient part has no curl, the curl part no divergence, the harmonic part neither, and decomposing a component again returns it unchanged. Rounding, when requested, only rounds the same component to the requested number of decimals.",
     ["inputs"], ANY + "; any real flow (integer or float, huge or tiny, zero, a pure component) and any rounding setting",
     "Tests check rounded values for one flow on one complex; the projections must be right for every topology (no triangles, no edges in kernel, several components) and flow.",
     [HD, SCF], [("gradient/curl/harmonic projection", HD + " get_gradient_flow, get_curl_flow, get_harmonic_flow"), ("dispatch", SCF + " get_component_flow")],
     "get_component_flow(flow, component, round_fig, round_sig_fig)")

prop("C05", "Divergence, curl and shifting are the boundary operators acting on flows",
     "For every complex and flow, the divergence at a node is the flow entering it minus the flow leaving it along the stored edge directions, and the curl on a triangle is the signed sum of the flow around its boundary in that triangle's orientation. Lower and upper shifting by any number of steps k >= 1 apply the lower and upper Laplacian exactly k times, and k-step shifting is the sum of the two.",
     ["inputs"], ANY + "; any real flow and any number of steps from 1 up",
     "Tests sample one complex, one flow and at most two steps.",
     [SCF, EIG], [("divergence and curl", SCF + " get_divergence, get_curl"), ("shifting", SCF + " apply_lower_shifting, apply_upper_shifting, apply_k_step_shifting")],
     "values returned by the divergence, curl and shifting queries")

prop("C06", "Component eigenpairs are complete, orthonormal and span their subspaces",
     "For every complex, the harmonic, gradient and curl eigenpairs returned are orthonormal eigenvectors of the edge Hodge Laplacian with their eigenvalues (in ascending order, zero for harmonic), their numbers are the dimensions of the three subspaces and add up to the number of edges, and each family spans exactly its subspace; given a tolerance, eigenvalues up to it count as zero and no others. The simplicial embeddings of a flow are its inner products with these eigenvectors, so they carry all of the flow's energy and reproduce the Hodge components, and the total variance lists the eigenvalues of the graph Laplacian.",
     ["inputs"], ANY + "; complexes whose non-zero eigenvalues exceed the given tolerance, repeated eigenvalues included",
     "Tests compare rounded values on one seven-node example and one city; degenerate spectra, empty components and disconnected complexes are not reached.",
     [EIG, SCF], [("eigenpairs by component", SCF + " get_component_eigenpair; " + EIG), ("embeddings", SCF + " get_simplicial_embeddings"), ("total variance", SCF + " get_total_variance")],
     "get_component_eigenpair, get_simplicial_embeddings, get_total_variance")

prop("C07", "Results do not depend on naming, order or orientation of the simplices",
     "Renaming the nodes, reordering the edges or triangles, reversing the stored direction of an edge together with the sign of its flow value, or permuting a triangle's vertices changes every result (Laplacian spectra, components, divergence, curl, embeddings up to basis, filter outputs and errors) only by the corresponding permutation and sign change.",
     ["inputs"], ANY + "; any relabelling, reordering and reorientation of it, any flow, and the linear filters on top",
     "It relates two runs on different encodings of the same object; the tests only ever run one encoding.",
     [SCF, BLD, HD, EIG, BF], [("orientation handling", SCF + " edges_to_B1, triangles_to_B2"), ("filters", "pytspl/filters/*.py")],
     "pairs of complexes that encode the same object, queried through the public API")

prop("C08", "Reading a network file keeps every link with its own features",
     "Reading a CSV or TNTP network yields nodes 0..max and exactly one edge per node pair mentioned in the file, in the direction of the first row that mentions the pair, in ascending order; file ids that start at 1 are shifted by one. Each edge's features are exactly the requested (CSV) or all remaining (TNTP) columns of that first row, whatever the row order, delimiter, duplicates or reversed duplicates in the file; coordinates and flow files are returned row by row, and a missing coordinate or flow file gives no coordinates or an empty table.",
     ["inputs"], "every well-formed network, node or flow file: any row order, delimiter, id base, number of metadata rows, numeric feature columns, duplicated and reversed rows",
     "Tests read three shipped files whose rows happen to be sorted and free of duplicates, so misalignment of features with edges cannot show.",
     [RD], [("edge extraction", RD + " _extract_nodes_edges"), ("readers", RD + " read_csv, read_tntp, read_coordinates, read_flow")],
     "the builder (nodes, edges, features) and tables returned by the readers")

prop("C09", "Incidence matrix files round-trip into the complex they describe",
     "Reading a pair of incidence matrix files gives back a complex with one node per row and one edge per column of the first file, in file order and direction, whose node-edge incidence matrix equals the file exactly. Its triangles are, in file order, exactly those the rows of the second file describe, so that its edge-triangle incidence matrix equals the file up to the orientation of each triangle.",
     ["inputs"], "every valid pair of incidence matrix files: any column order and direction, isolated nodes, any number of triangles",
     "Tests read two shipped pairs whose columns are sorted and all point the same way.",
     [RD], [("incidence file readers", RD + " read_B1_B2, read_B2")],
     "read_B1_B2 on generated files and the complex built from its result")

prop("C10", "Transportation datasets load with net flows and matching coordinates",
     "Loading any transportation network folder in the TNTP layout gives the network of its net file with zero-based ids, the coordinates of its node file (or generated coordinates for every node when there is none), and for every edge the net flow: the volume in the edge's direction minus the volume in the opposite direction, zero when the opposite row is absent. A folder without a flow file gives an empty flow, an unknown name is rejected, and a folder whose files have changed is loaded afresh.",
     ["inputs", "configurations"], "every set of network, node and flow files in the dataset layout: any row order, one-way and two-way links, missing node or flow file",
     "Tests load the shipped folders only and look at counts.",
     ["pytspl/io/data_loaders/transportation_loader.py", "pytspl/io/dataset_loader.py", RD], [("folder loader", "pytspl/io/data_loaders/transportation_loader.py load_transportation_dataset, load_flow_transportation"), ("entry point", "pytspl/io/dataset_loader.py load_dataset, list_datasets")],
     "load_dataset on generated dataset folders")

prop("C11", "Shipped datasets load as the network, coordinates and flow in their files",
     "Every dataset that is listed and whose files are present loads into a complex that satisfies the boundary law, with a coordinate for every node and nothing else, whose edges, triangles, coordinates and flow values are those an independent reading of its files gives, edge by edge.",
     ["inputs", "configurations"], "every listed dataset whose raw files are shipped, and repeated loads of it in one process",
     "Tests check a few counts per dataset; alignment of flows, coordinates and orientation across thousands of edges is not looked at.",
     ["pytspl/io/dataset_loader.py", "pytspl/io/data_loaders/forex_loader.py", "pytspl/io/data_loaders/paper_loader.py", "pytspl/io/data_loaders/wsn_loader.py", "pytspl/io/data_loaders/transportation_loader.py"],
     [("dataset registry", "pytspl/io/dataset_loader.py load_dataset, list_datasets"), ("loaders", "pytspl/io/data_loaders/*.py")],
     "load_dataset(name) and the raw files under pytspl/data")

prop("C12", "Random complexes are valid and reproducible from their seed",
     "A generated random complex has exactly the requested nodes, valid distinct edges, a distance in [0,1) for every edge, every triangle whose three distances are all below the threshold and no other, and a coordinate for every node. Calling the generator again with the same arguments returns the same complex, distances and coordinates whatever else the process drew from its random generators in between, without disturbing them; and the threshold affects only which triangles are filled.",
     ["inputs", "histories"], "every number of nodes, edge probability (0 and 1 included), threshold and seed, after any history of random draws",
     "The test calls it once and checks counts; reproducibility is a relation between calls.",
     ["pytspl/io/sc_generator.py"], [("generator", "pytspl/io/sc_generator.py generate_random_simplicial_complex")],
     "generate_random_simplicial_complex results and the state of the global random generators")

prop("C13", "A filter's recorded results describe its last run and nothing else",
     "After any filter run, the recorded filter, estimate, frequency response and errors agree with each other and with the arguments of that run: the estimate is the recorded filter applied to the given flow, and the last error is the relative error of that estimate against the true component or signal. They depend only on those arguments, not on earlier runs of that or any other filter object, and a general filter's harmonic, curl and gradient parts add up to the flow and each recorded part belongs to its own component.",
     ["histories", "inputs"], "every sequence of runs (with different components, operators, sizes and flows) on one or several filter objects, on every complex",
     "Tests run each filter once on a fresh object; stale or shared records only show over a sequence of runs.",
     [BF, "pytspl/filters/edge_flow_denoising.py", "pytspl/filters/ls_filter_design.py", "pytspl/filters/grid_based_filter_design.py", "pytspl/filters/chebyshev_filter_design.py"],
     [("history record", BF + " set_history, _reset_history"), ("general filters", "pytspl/filters/*_filter_design.py general_filter"), ("error", BF + " calculate_error_NRMSE")],
     "the history of each filter object after every run of a random sequence")

prop("C14", "Edge-flow denoising is the exact regularised low-pass filter",
     "For every complex, choice of operator P and regularisation weights mu >= 0, the denoised flow is the unique minimiser of ||x-f||^2 + mu*x'Px for the last weight, the recorded response to each weight is 1/(1+mu*lambda) in ascending eigenvalue order, and the recorded error of each weight is that of its own solution. Denoising leaves the components P annihilates unchanged, never increases the energy of the flow, and with mu = 0 changes nothing.",
     ["inputs"], ANY + "; P any of the three operators, one or many weights from 0 to very large, any flow",
     "Tests check rounded errors on one example for a handful of weights.",
     ["pytspl/filters/edge_flow_denoising.py", BF], [("denoise", "pytspl/filters/edge_flow_denoising.py denoise"), ("operator choice", BF + " get_p_matrix")],
     "EdgeFlowDenoising.denoise history")

prop("C15", "Least-squares filters are the best polynomial fits and extract components",
     "For every complex, component and filter size L, the least-squares filter is a polynomial of degree below L in the Laplacian it is built on, with the smallest squared deviation from the ideal response over that Laplacian's eigenvalues. When L reaches the number of distinct eigenvalues, it is the exact projector and the estimate equals the Hodge component: on the Hodge Laplacian whenever no eigenvalue is shared between components, and for the gradient and curl on their own Laplacians always, also when zero is not among the eigenvalues or eigenvalues repeat.",
     ["inputs"], ANY + "; every component, filter sizes up to where the fit is numerically well-posed, any flow",
     "Tests check a few errors on one example; optimality and exactness must hold for every spectrum.",
     ["pytspl/filters/ls_filter_design.py", BF], [("fit", "pytspl/filters/ls_filter_design.py _apply_filter"), ("designs", "pytspl/filters/ls_filter_design.py subcomponent_extraction_type_one, subcomponent_extraction_type_two, general_filter"), ("masks", BF + " get_component_coefficients")],
     "LSFilterDesign histories and general_filter results")

prop("C16", "Grid-based filters fit the requested response over the spectrum range",
     "For every complex, the grid-based filter of size L is the polynomial of degree below L in the chosen operator that fits the requested response (low-pass 1/(1+mu*lambda) for denoising, logistic high-pass with the given cut-off and steepness for extraction) best in least squares over evenly spaced points from 0 to the estimated largest eigenvalue. That estimate never exceeds the largest eigenvalue, is positive unless the operator is zero, and reaches it when the iteration has converged.",
     ["inputs"], ANY + "; any operator, filter size, number of samples, weight, cut-off and steepness, any flow",
     "Tests check a few errors on one example; estimates on disconnected complexes, vectors with vanishing entries or kernels are not reached.",
     ["pytspl/filters/grid_based_filter_design.py", BF], [("grid and response", "pytspl/filters/grid_based_filter_design.py _sample_grid_points, denoise, subcomponent_extraction"), ("eigenvalue estimate", BF + " power_iteration")],
     "GridBasedFilterDesign histories")

prop("C17", "Chebyshev filters evaluate their series on the operator's spectrum",
     "The Chebyshev frequency approximation returned for given coefficients and alpha is, at full size, the truncated Chebyshev series of the shifted operator (P-alpha*I)/alpha, for every operator, order and number of coefficients; alpha is half of the estimated largest eigenvalue, and the ideal filter of a component is the orthogonal projector onto it when no eigenvalue is shared between components. Applying the filter records estimates, embeddings and errors consistent with it.",
     ["inputs"], ANY + "; any operator, coefficient vector, order, cut-off and steepness",
     "The tests that run it need a package that is not installed here and look at one example; nothing checks the recurrence against the series.",
     ["pytspl/filters/chebyshev_filter_design.py", BF], [("recurrence", "pytspl/filters/chebyshev_filter_design.py get_chebyshev_frequency_approx"), ("apply", "pytspl/filters/chebyshev_filter_design.py apply, get_alpha, get_ideal_frequency")],
     "get_chebyshev_frequency_approx, get_alpha, get_ideal_frequency, apply history (series library replaced by a stand-in)")

prop("C18", "Trend filters solve the regularised problem they state",
     "For every complex, flow, noise level and order, the l2 trend filter returns the closed-form minimiser that penalises the requested quantity (divergence or curl), the l1 trend filter returns a minimiser of data misfit plus weighted l1 norm of the shifted flow, and interpolation returns such a minimiser that reproduces every observed value of the requested fraction of the edges (rounded down). Noise has the requested power, the shift operator of order 2k is the divergence or curl after k Laplacian applications and of order 2k-1 is k Laplacian applications, and recorded errors, correlations and component norms are those of the returned estimates.",
     ["inputs", "histories"], ANY + "; both quantities, orders from 0 up, several noise levels, ratios, realisations and weights, any seed of the random generator",
     "The tests of this filter cannot run here (a data file is missing) and only bound an error on one dataset.",
     ["pytspl/filters/simplicial_trend_filter.py"], [("l2", "pytspl/filters/simplicial_trend_filter.py denoising_l2_regularizer"), ("l1", "pytspl/filters/simplicial_trend_filter.py denoising_l1_regularizer, _solver"), ("interpolation", "pytspl/filters/simplicial_trend_filter.py interpolation_l1_regularizer"), ("shift", "pytspl/filters/simplicial_trend_filter.py get_shift_operator")],
     "SimplicialTrendFilter histories, get_shift_operator, get_power_noise")

prop("C19", "Edge kernels are the stated spectral functions of the Hodge Laplacian",
     "For every complex and every setting of the positive hyperparameters, each edge kernel evaluated at any two lists of edge indices equals the corresponding block of the covariance of its family - diffusion exp(-kappa*lambda), Matern (2mu/kappa^2+lambda)^-mu with the constant mu on the harmonic part, Laplacian kappa/lambda - scaled and summed over the harmonic, gradient and curl parts (with separate hyperparameters, or one shared set), is symmetric positive semi-definite, and its diagonal agrees with its full evaluation; covar_matrix lists the spectral function's values on the three parts. The covariance does not depend on the choice of eigenbasis, each hyperparameter can be set to any positive value and read back, and each kernel type gives its own kernel.",
     ["inputs"], ANY + " with at least one edge; any positive hyperparameters, any index lists (repeated, reordered, rectangular)",
     "Tests only construct one kernel and train one model on one dataset.",
     ["pytspl/hogde_gp/forex/diffusion.py", "pytspl/hogde_gp/forex/diffusion_non_hc.py", "pytspl/hogde_gp/forex/matern.py", "pytspl/hogde_gp/forex/matern_non_hc.py", "pytspl/hogde_gp/forex/laplacian.py", "pytspl/hogde_gp/kernel_serializer.py", "pytspl/hogde_gp/kernels.py"],
     [("kernel evaluation", "pytspl/hogde_gp/forex/*.py forward, _eval_covar_matrix"), ("kernel choice", "pytspl/hogde_gp/kernel_serializer.py serialize")],
     "kernel objects from KernelSerializer.serialize evaluated on index tensors")

prop("C20", "GP data preparation never mixes up or leaks edges and targets",
     "The train/test split partitions the edges exactly once between the two sets in the requested proportion, keeps every target with its own edge, is reproducible from its seed, and returns the full data in edge order; with normalisation, all targets are shifted and scaled by the mean and standard deviation of the training targets alone. The operators and eigenpairs handed to the model are those of the complex.",
     ["inputs", "histories"], ANY + " with at least a few edges; any target values, ratio, seed, normalisation, and repeated calls",
     "Tests check shapes for one dataset and one ratio.",
     ["pytspl/hogde_gp/hodge_gp_trainer.py"], [("split and normalisation", "pytspl/hogde_gp/hodge_gp_trainer.py train_test_split, normalize_data"), ("operators", "pytspl/hogde_gp/hodge_gp_trainer.py get_laplacians, get_incidence_matrices, get_eigenpairs")],
     "tensors returned by HodgeGPTrainer")

prop("C21", "GP prediction is exact Gaussian conditioning with the learned kernel",
     "Predicting with a model (trained or not) returns the exact Gaussian posterior at the test edges given the training data, for the model's current mean, scale, kernel and noise. Training takes the requested number of steps of the requested optimiser on the negative marginal log likelihood, and the reported parameters and the reconstructed kernel with its variances are those of the trained model.",
     ["inputs", "histories"], "every complex with edges, targets, kernel type, hyperparameters, mean setting, number of training steps, learning rate and optimiser",
     "The test trains one model on one dataset and checks that values exist.",
     ["pytspl/hogde_gp/hodge_gp_trainer.py", "pytspl/hogde_gp/exact_gp.py"], [("prediction", "pytspl/hogde_gp/hodge_gp_trainer.py predict"), ("training", "pytspl/hogde_gp/hodge_gp_trainer.py train"), ("model", "pytspl/hogde_gp/exact_gp.py"), ("learned kernel", "pytspl/hogde_gp/hodge_gp_trainer.py get_model_parameters, build_matern_kernel")],
     "predictions, model parameters after training, reconstructed kernel")

prop("C22", "Plots show exactly the complex and the flow they are given",
     "A drawn network shows one marker per node at its coordinates, one line or arrow per edge between its end nodes in the stored direction, one filled polygon per triangle, and one label per node and per flow value, all in the axes that were given. With a flow on at least one edge, each edge's colour is the colour map's colour of its own value within the shown limits and each edge label is that edge's value, whatever the order of the flow's entries and whatever was drawn before; decomposition and eigenvector plots show that component's or eigenvector's values, one panel each, with its eigenvalue.",
     ["inputs", "configurations"], ANY + "; any coordinates (of further nodes too) or none, flows as array, list or dict in any order, directed or not, labels on or off, any axes",
     "Tests only check that drawing does not fail; wrong pairing of values and edges is invisible to them.",
     ["pytspl/plot/plot.py"], [("drawing", "pytspl/plot/plot.py draw_network, draw_sc_nodes, draw_sc_edges, draw_edge_labels"), ("panels", "pytspl/plot/plot.py draw_hodge_decomposition, draw_eigenvectors")],
     "matplotlib artists in the axes after drawing")

prop("C23", "Queries have no side effects and repeat exactly",
     "No query, decomposition, filter, kernel or plot changes the complex it works on, the arrays, lists and dictionaries passed to it, or any other complex, and changing a returned matrix or array in place does not change what the library answers later. Repeating a query with the same arguments, in any order, interleaved with any other operations, or from several threads, gives the same answer, and the deterministic queries leave the process-wide random generators and warning filters as they were.",
     ["histories", "schedules"], "every sequence of public operations over several complexes with equal shapes, interleaved, repeated, from one thread or several",
     "Tests call each operation once in isolation; shared mutable state, caches and aliasing only show over histories.",
     [SCF, BLD, HD, EIG, BF, "pytspl/filters/simplicial_trend_filter.py", "pytspl/hogde_gp/hodge_gp_trainer.py", "pytspl/plot/plot.py"],
     [("all public operations", "pytspl/**")],
     "an event log of every call: digests of arguments, state and results before and after")

prop("C24", "Invalid requests are rejected with ValueError and change nothing",
     "An unknown frequency component, operator choice, rank, kernel or data name, dataset name, trend quantity, negative trend order or unknown drawing option is rejected with a ValueError before anything is computed, and asking for filter plots or learned parameters before a run is rejected in the same way. A rejected request leaves the complex intact, and the object gives the same results afterwards as if the request had never been made.",
     ["inputs", "histories", "fault_sequences"], "every invalid value (near misses such as different case, blanks, prefixes, numbers, None) at every entry point that documents the rejection, interleaved with valid requests",
     "Tests try one invalid value at some of the entry points and never continue afterwards.",
     [SCF, BF, "pytspl/filters/ls_filter_design.py", "pytspl/filters/simplicial_trend_filter.py", "pytspl/io/dataset_loader.py", "pytspl/hogde_gp/kernel_serializer.py", "pytspl/hogde_gp/hodge_gp_trainer.py", "pytspl/plot/plot.py"],
     [("argument checks", "the modules listed")],
     "exceptions raised and results of later valid requests")

prop("C25", "Component masks split the edge spectrum into its three parts",
     "For every complex, the harmonic, curl and gradient coefficient masks are 0/1 vectors with one entry per eigenvalue of the edge Hodge Laplacian in ascending order, they add up to one in every position, and each selects as many positions as its subspace has dimensions. At every eigenvalue, the number of positions each mask selects is the multiplicity of that eigenvalue in its own part of the spectrum.",
     ["inputs"], ANY + "; repeated eigenvalues and eigenvalues shared between components included",
     "Tests compare the masks of one seven-node example.",
     [BF], [("masks", BF + " get_component_coefficients")],
     "get_component_coefficients for the three components")

prop("C26", "Filter plots show the recorded responses over the spectrum",
     "After denoising with an operator, the frequency response plot for that operator draws exactly the recorded response of the last weight over the operator's eigenvalues in ascending order. The Chebyshev series plot shows, at every eigenvalue of the operator, the logistic response with the given cut-off and steepness and its Chebyshev interpolant; the Chebyshev response plot shows, at every eigenvalue of the edge Hodge Laplacian, the embeddings of the true component and of the last recorded estimate, each under its own name in the legend. Each plot opens one figure of its own, and the record and earlier figures stay as they were.",
     ["inputs", "histories"], ANY + "; every operator, list of weights, filter size, number of points, cut-off, steepness and order of runs and plots",
     "Tests only check that plotting does not fail.",
     ["pytspl/filters/edge_flow_denoising.py", "pytspl/filters/chebyshev_filter_design.py"],
     [("denoising response plot", "pytspl/filters/edge_flow_denoising.py plot_desired_frequency_response"), ("Chebyshev plots", "pytspl/filters/chebyshev_filter_design.py plot_chebyshev_series_approx, plot_frequency_response_approx")],
     "matplotlib artists of the figure after plotting, next to the filter's history")

prop("C27", "Options left out take their documented defaults, by position or by name",
     "For every public function, class and method, leaving out an option gives exactly the result of passing its documented default, whatever the other arguments are, and arguments given by position in the documented order mean the same as when given by name. This holds for complexes, builders, readers, decompositions, filters, trend filters, Gaussian process tools and plots.",
     ["inputs"], ANY + "; every combination of options given, left out, at or away from their defaults, by position or by name",
     "Tests call each function with one fixed set of options and never compare a call that leaves an option out with one that spells it out.",
     ["pytspl"],
     [("rounding, tolerance and step defaults", "pytspl/simplicial_complex/simplicial_complex.py get_component_flow, get_component_eigenpair, apply_k_step_shifting; pytspl/decomposition"), ("filter defaults", "pytspl/filters grid_based_filter_design.py, ls_filter_design.py, chebyshev_filter_design.py, edge_flow_denoising.py, simplicial_trend_filter.py"), ("split and training defaults", "pytspl/hogde_gp/hodge_gp_trainer.py train_test_split, train, get_eigenpairs"), ("drawing defaults", "pytspl/plot/plot.py"), ("reader and builder defaults", "pytspl/io/network_reader.py, pytspl/simplicial_complex/scbuilder.py")],
     "results, filter histories, rendered figures and complexes of calls that differ only in how the same arguments are given")

prop("C28", "What is printed is what was computed",
     "Every summary, progress line and metric the library prints states the values of the run it belongs to: the sizes of a complex, data set, split or operator; for every filter size, regularisation weight, noise level (in dB) and interpolation ratio, under its own label and in order, the error (and correlation, filter or response error, error of the noisy input) of that very size, weight, level or ratio; for every training step, the loss at that step; and after a prediction, the mean absolute error, mean squared error, R2, mean log loss and negative log predictive density of the returned posterior against the given targets.",
     ["inputs", "histories"], ANY + "; every filter, operator, size, list of weights, noise levels, ratios, kernel, training length and test set",
     "Tests discard what is printed, although some values (test metrics, losses, errors of the noisy input) are reported nowhere else.",
     ["pytspl/filters", "pytspl/hogde_gp/hodge_gp_trainer.py", "pytspl/simplicial_complex/simplicial_complex.py", "pytspl/io/dataset_loader.py"],
     [("filter progress", "pytspl/filters/*.py print"), ("training loss", "pytspl/hogde_gp/hodge_gp_trainer.py train"), ("test metrics", "pytspl/hogde_gp/hodge_gp_trainer.py predict"), ("summaries", "pytspl/simplicial_complex/simplicial_complex.py print_summary, pytspl/io/dataset_loader.py load_dataset")],
     "standard output next to returned values, histories and independent recomputation")

prop("C29", "Copies and saved models behave like the originals",
     "A deep copy of a complex, builder, plot, filter, kernel, trainer or model, and what is restored from a pickle of it - in the same or in another process - holds the same content, record and parameters and gives the same answers, predictions and course of further training as the original, whatever either had been asked before; a model built anew and loaded with the state dictionary of a trained one has its parameters and predictions. Original and copy share nothing: using, training or changing one, or overwriting what it returned, leaves the other as it was.",
     ["inputs", "histories"], ANY + "; any history of requests before and after copying; every filter class, kernel and mean, trained or not; every pickle protocol",
     "Tests never copy or save an object; a cache, closure or unregistered parameter left out of a copy shows only in later answers of one of the two.",
     ["pytspl"],
     [("complexes and builders", SCF + "; " + BLD), ("filters and their records", "pytspl/filters/*.py history"), ("models, kernels, trainers", "pytspl/hogde_gp/*.py; pytspl/hogde_gp/forex/*.py"), ("plots", "pytspl/plot/plot.py")],
     "answers, histories, parameters and predictions of originals and copies")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        fh.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
