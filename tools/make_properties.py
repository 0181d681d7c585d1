import json
def P(id,title,st,over,q,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=["pystruct/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d["anchors"]["observe_at"]=obs or []
    d["anchors"]["hook_needed"]=None
    return d
L=[]
L.append(P("C01","Joint feature is the documented count vector, and scores are linear in it",
"For every model, input and legal labeling, the joint feature vector has the advertised size and holds, in the documented layout, the per-state sums of node features and the per-state-pair counts (or edge-feature sums) of the edges. The score w·joint_feature(x, y) therefore equals the sum of the unary and pairwise potentials that inference uses for that labeling, including loss-rescaled, symmetric and antisymmetric variants, and a batch's joint feature is the sum of its samples'.",
["inputs","configurations"],"all model classes x configurations (directed, symmetric/antisymmetric edge features, class weights, latent layouts, node types) x graphs (isolated nodes, reversed edges, multi-edges) x labelings x label dtypes",
"Tests compare a few hand-made labelings of small grids; mix-ups of layout (state/feature order, edge direction, column order) agree with them whenever sizes or graphs are symmetric.",
["models/graph_crf.py","models/edge_feature_graph_crf.py","models/chain_crf.py","models/grid_crf.py","models/multilabel_svm.py","models/unstructured_svm.py","models/latent_graph_crf.py","models/latent_node_crf.py","models/node_type_edge_feature_graph_crf.py","utils/inference.py","inference/common.py"],
[("joint_feature","models/*.py"),("batch_joint_feature","models/base.py, unstructured_svm.py, src/utils.pyx"),("compress_sym/expand_sym","utils/inference.py")],obs=["joint_feature()","batch_joint_feature()","compute_energy()"]))
L.append(P("C02","Relaxed labelings extend joint feature and loss linearly",
"Given node and edge marginals instead of a labeling, the joint feature and the loss are the linear extension of their values on labelings: on marginals that are the indicator of a labeling they agree exactly with that labeling's, and on a convex combination they give the same combination.",
["inputs","configurations"],"all models that accept relaxed labelings x graphs x labelings and convex mixtures of labelings",
"Tests only meet marginals a solver happens to return on a few grids and never compare them with the indicator of a labeling.",
["models/base.py","models/graph_crf.py","models/edge_feature_graph_crf.py","models/multilabel_svm.py","models/latent_graph_crf.py","models/latent_node_crf.py","models/typed_crf.py","models/node_type_edge_feature_graph_crf.py","models/grid_crf.py"],
[("joint_feature on tuples","models/*.py"),("continuous_loss","models/*.py")],obs=["joint_feature(x, (unary, pairwise))","loss(y, (unary, pairwise))"]))
L.append(P("C03","Exact inference returns a maximizing labeling",
"Whenever inference is advertised as exact - max-product on chains, trees and forests (edges in any order and orientation, isolated nodes, single nodes, no edges), unary-only inference on edgeless graphs, AD3 with branch and bound on any graph, the linear program and AD3 on forests with a unique optimum, and the multi-class, binary and multi-label classifiers - the returned labeling attains the maximum of w·joint_feature over all labelings. Ties may be broken arbitrarily, but the result must still be one jointly optimal labeling. The optional QPBO and OpenGM back ends are given exactly this problem: a library that minimises what it is given yields such a labeling, and its energy when asked for.",
["inputs","configurations"],"graphs up to 6 nodes x 2-4 states x integer potentials with and without ties x methods and their options; the max-product algorithms model-checked exhaustively over tiny potentials",
"Tests compare with exhaustive search on a few random Gaussian instances, where ties never happen and chains are always in order.",
["inference/maxprod.py","inference/inference_methods.py","inference/linear_programming.py","utils/graph_functions.py","models/crf.py","models/unstructured_svm.py","models/multilabel_svm.py"],
[("viterbi","src/_viterbi.pyx"),("tree_max_product","inference/maxprod.py"),("is_chain / is_forest dispatch","inference/maxprod.py, utils/graph_functions.py"),("inference_dispatch","inference/inference_methods.py")],obs=["inference()","inference_dispatch()"]))
L.append(P("C04","Approximate and relaxed inference results are valid",
"On any graph, every inference method returns one legal state per node, or - when a relaxed result is asked for and the optimum is fractional - non-negative node marginals summing to one with edge marginals that agree with them. A relaxed optimum scores at least as well as every labeling, and a reported energy is minus the score of the relaxed solution that was found. Message passing also finds the optimum, when it is unique, of loopy graphs whose cycles carry no interaction, for any damping; on any graph with cycles it labels every node with a best label given the messages after the allowed number of sweeps, or after a sweep that moved the messages by less than the tolerance.",
["inputs","configurations"],"loopy graphs incl. frustrated cycles and multi-edges x methods (lp, ad3, ad3+, max-product) x relaxed/return_energy",
"Tests check fractional solutions on one checkerboard and never check edge marginals or energies against the potentials.",
["inference/inference_methods.py","inference/linear_programming.py","inference/maxprod.py","models/crf.py"],
[("inference_lp","inference/inference_methods.py"),("inference_ad3","inference/inference_methods.py"),("iterative_max_product","inference/maxprod.py"),("lp_general_graph","inference/linear_programming.py")],obs=["inference(relaxed=, return_energy=)"]))
L.append(P("C05","Loss is the class-weighted Hamming loss of the visible labels",
"The loss of predicting one labeling for another is the number of wrong nodes, each weighted with the class weight of its true label; it is non-negative, zero for equal labelings, and never exceeds the maximum loss, which is the total class weight of the true labeling. Latent models count visible labels only, and the batch loss lists the per-sample losses in order.",
["inputs","configurations"],"all models x non-uniform class weights x pairs of labelings incl. latent labelings that differ only in hidden state",
"Tests mostly use uniform weights and compare training accuracy, not the loss itself.",
["models/base.py","models/unstructured_svm.py","models/latent_graph_crf.py","models/latent_node_crf.py","models/grid_crf.py","models/typed_crf.py"],
[("loss/max_loss/batch_loss","models/base.py"),("latent loss","models/latent_graph_crf.py, latent_node_crf.py")],obs=["loss()","max_loss()","batch_loss()"]))
L.append(P("C06","Loss-augmented inference maximizes score plus loss",
"With an exact solver, loss-augmented inference returns a legal labeling that attains the maximum of w·joint_feature plus the loss towards the true labeling, with the same loss the model reports; for the latent models the maximum is over all latent labelings and only visible labels are counted. The batch version returns such a labeling for every sample, also when scores tie.",
["inputs","configurations"],"all models x class weights (loss- and C-rescaling) x label dtypes x tied and untied integer weights",
"Tests use uniform class weights, Gaussian weights (no ties) and mostly compare solvers with each other.",
["models/crf.py","models/unstructured_svm.py","models/latent_graph_crf.py","models/latent_node_crf.py","models/node_type_edge_feature_graph_crf.py"],
[("loss_augment_unaries","src/utils.pyx"),("loss_augmented_inference","models/*.py"),("batch_loss_augmented_inference","models/unstructured_svm.py, base.py")],obs=["loss_augmented_inference()","batch_loss_augmented_inference()"]))
L.append(P("C07","Batch and parallel evaluation equal sequential evaluation in sample order",
"Predicting or learning with several jobs gives, for every schedule of the jobs, exactly the results of the sequential run with samples matched to their own results; this covers prediction, the learners' constraint search, and objective evaluation. Batch methods of the models return the per-sample results in sample order.",
["schedules","inputs","configurations"],"all completion orders of the jobs (3-5 samples, 2-3 workers) x learners x models with samples of different sizes",
"Tests run one parallel fit and compare scores; the schedule space and sample alignment are not explored.",
["learners/ssvm.py","learners/n_slack_ssvm.py","learners/one_slack_ssvm.py","learners/subgradient_ssvm.py","learners/subgradient_latent_ssvm.py","learners/structured_perceptron.py","utils/inference.py","models/base.py"],
[("Parallel(delayed(...))","learners/*.py"),("find_constraint","utils/inference.py"),("batch_inference","models/base.py")],obs=["predict()","fit(n_jobs=2)","batch_*()"]))
L.append(P("C08","Latent completion respects the labels and is optimal among such labelings",
"Completing the latent variables of a labeled sample returns a labeling whose visible part is exactly the given labels and which, with an exact solver, attains the maximum score among all such labelings. The initial latent assignment is consistent with the labels too, uses only states that exist for each label, and mapping latent states back to labels is total.",
["inputs","configurations"],"latent graph, grid, directional grid, latent-node and edge-feature latent-node models x states per label x graphs x weights",
"Tests check consistency on toy data with one weight vector; optimality of the completion is compared only once.",
["models/latent_graph_crf.py","models/latent_grid_crf.py","models/latent_node_crf.py"],
[("latent","models/latent_graph_crf.py, latent_node_crf.py"),("init_latent/kmeans_init","models/latent_graph_crf.py, latent_node_crf.py"),("label_from_latent","models/latent_*.py")],obs=["latent()","init_latent()","label_from_latent()"]))
L.append(P("C09","Cutting-plane constraints are truthful and their QP is solved to optimality",
"After training, every stored constraint of the n-slack and one-slack learners is truthful: its feature difference and loss are those of real labelings of the samples it belongs to. The learned weights are the optimum of the regularized QP over exactly the stored constraints (C per sample, respectively C times the number of samples in the one-slack form), and respect the requested non-positivity of weights.",
["inputs","histories","configurations"],"models x C x batch size x negativity constraints x pruning settings x all working-set histories of the design model (small label sets)",
"Tests only check that training error is low; a QP with a wrong C, a lost constraint or a wrong difference vector usually still separates toy data.",
["learners/n_slack_ssvm.py","learners/one_slack_ssvm.py","utils/inference.py"],
[("_solve_n_slack_qp / _solve_1_slack_qp","learners/*.py"),("find_constraint","utils/inference.py"),("prune_constraints","learners/*.py")],
[("constraints_","working set of the QP","learners/n_slack_ssvm.py, one_slack_ssvm.py")],["constraints_","w","objective_curve_"]))
L.append(P("C10","Cutting-plane training bounds the optimum and stops near it",
"In every run of the cutting-plane learners with exact inference, the reported dual objectives never exceed the true optimum, the reported primal objectives are never below it, and the dual objective does not decrease while no constraint is dropped. When training stops on its own, the learned weights' true regularized risk is within the promised tolerance of the optimum; the final primal entry is the true risk of the learned weights.",
["inputs","histories","configurations"],"models x tolerances x C x batch sizes x data with and without separability x any order of constraint discovery in the design model",
"Tests check curve lengths and low training error; whether the objective is the true risk or the stop is early is not decided by toy data.",
["learners/n_slack_ssvm.py","learners/one_slack_ssvm.py","learners/ssvm.py","utils/inference.py"],
[("objective_curve_/primal_objective_curve_","learners/*.py"),("stopping criterion","learners/*.py"),("objective_primal","utils/inference.py")],obs=["objective_curve_","primal_objective_curve_","w"]))
L.append(P("C11","Caching, pruning, warm starts and solver switching do not change what is learned",
"Training with an inference cache, with removal of inactive constraints, from a warm start, or with a switch of the inference method reaches the same optimal risk (within tolerance) as plain training. The cache holds, for every sample, only truthful and distinct entries, the most recent ones and at most the requested number, and entries taken from it are reported as such. A constraint that stays inactive for longer than the inactivity window is removed, removal never moves the optimum of the remaining constraints, and with a window of 0 nothing is removed.",
["histories","configurations","inputs"],"cache sizes x cache tolerances x inactivity windows x switch methods x warm starts; cache machine model-checked over all insertion histories",
"Tests check that each option still learns toy data and count some lengths; an over-full or stale cache is invisible to them.",
["learners/one_slack_ssvm.py","learners/n_slack_ssvm.py"],
[("_update_cache/_constraint_from_cache","learners/one_slack_ssvm.py"),("prune_constraints","learners/*.py"),("switch_to","learners/*.py")],
[("inference_cache_","per-sample cached (feature, loss, labeling)","learners/one_slack_ssvm.py")],["inference_cache_","cached_constraint_","w"]))
L.append(P("C12","The structured perceptron follows its update rule exactly",
"Starting from zero, the perceptron adds the effective learning rate times the joint-feature difference for exactly the samples predicted with nonzero loss, with the current weights (online) or the weights at the start of the epoch (batch), stops after the first epoch without loss or at the iteration limit, and records each epoch's average loss. With averaging it returns the exact mean of the weight vectors of the epochs requested.",
["inputs","histories","configurations"],"models x batch/online x averaging modes x decay x data orders; update machine model-checked over all small data sets",
"Tests check a separable toy set and one averaging case; most deviations (order, extra or missing updates) still separate.",
["learners/structured_perceptron.py"],[("fit","learners/structured_perceptron.py")],[("w","current weights","learners/structured_perceptron.py")],["w","loss_curve_","model.inference calls"]))
L.append(P("C13","The subgradient learner takes the documented steps and reports true risks",
"Each step of the subgradient learner moves the weights by the effective learning rate (constant, decayed, or automatic) along the momentum-smoothed subgradient of the regularized risk at the current weights for the current sample or batch, and averaging returns the documented weighted mean of the iterates. Every sample is visited once per epoch, every recorded objective is the true risk of the recorded weights, and training stops early when, and only when, an epoch found no sample with positive slack (unless asked to go on).",
["inputs","histories","configurations"],"models x learning-rate schedules x momentum x averaging x mini-batches x shuffling x multi-epoch histories",
"Tests check low training error on toy data; a wrong schedule, gradient scale or stale weights still learns those.",
["learners/subgradient_ssvm.py","utils/inference.py","learners/ssvm.py"],[("_solve_subgradient","learners/subgradient_ssvm.py"),("fit","learners/subgradient_ssvm.py")],obs=["w","objective_curve_","model inference calls"]))
L.append(P("C14","Frank-Wolfe iterates stay dual feasible with valid duality gaps",
"Throughout block-coordinate and batch Frank-Wolfe training the weights are C times a convex combination, per sample, of true joint-feature differences, reported dual values never exceed the optimal risk and reported primal values are true risks never below it. With line search the dual value never decreases between checks of unaveraged runs, and training stops before the iteration limit only when the duality gap is below the tolerance.",
["inputs","histories","configurations"],"models x batch/block-coordinate x line search x averaging x sampling order x tolerances; update machine model-checked on small polytopes",
"Tests check accuracy on one data set per mode; invalid step sizes or stale block state still learn.",
["learners/frankwolfe_ssvm.py"],[("_frank_wolfe_bc/_frank_wolfe_batch","learners/frankwolfe_ssvm.py"),("_calc_dual_gap","learners/frankwolfe_ssvm.py")],obs=["w","objective_curve_","primal_objective_curve_"]))
L.append(P("C15","Latent learning alternates correct completions and correct refits",
"Latent training completes the hidden states of the ground truth with the latest weights before every refit after the first, refits on exactly those completions, and stops as soon as no completion changes or the iteration limit is reached; constraints carried over to the next refit are re-evaluated against the new completions. Latent subgradient learning uses, for every sample, the completion and the loss of the current weights; predictions of latent learners are the visible labels of the latent predictions, and their score is computed from visible labels.",
["histories","inputs","configurations"],"latent models x base learners x numbers of latent iterations x initial completions",
"Tests look at the accuracy after training on toy data with known hidden structure.",
["learners/latent_structured_svm.py","learners/subgradient_latent_ssvm.py","utils/inference.py"],[("fit","learners/latent_structured_svm.py"),("find_constraint_latent","utils/inference.py")],obs=["H_init_","w","predict()","predict_latent()","score()","model.latent / base fit calls"]))
L.append(P("C16","Refits are fresh, parameters are kept, warm starts resume",
"Fitting a learner that was fitted before, without asking for a warm start, gives the same result as fitting a fresh learner of the same parameters, except where documented to resume; a warm-started fit continues from the earlier state. Constructor parameters are never changed by fitting and survive copying and get/set of parameters, and the parameters a latent learner shares with its base learner are read from and written to the base learner. Every fit returns the learner, and how verbose it is changes nothing.",
["histories","configurations"],"all short histories of fit / warm fit / set parameter / clone / predict over the learners",
"Tests call fit once per learner object; histories of several calls are hardly sampled.",
["learners/ssvm.py","learners/n_slack_ssvm.py","learners/one_slack_ssvm.py","learners/structured_perceptron.py","learners/subgradient_ssvm.py","learners/frankwolfe_ssvm.py","learners/latent_structured_svm.py"],
[("fit prologue","learners/*.py"),("property proxies","learners/latent_structured_svm.py")],obs=["w","get_params()","fit()"]))
L.append(P("C17","Saved learners round-trip, on schedule, without losing the live learner's state",
"The logger saves exactly at iterations that are multiples of its period and at the end, into the file whose name is formed from the pattern, and loading returns a learner with the same weights, parameters, training curves and predictions. The large inference cache is not stored, and the learner being trained keeps its cache and state after saving, also when writing fails.",
["histories","fault_sequences","inputs"],"save periods x iteration histories x file name patterns x learners with and without cache x write failures",
"Tests save one learner at its end and reload it; periodic names, caches and failures during saving are not exercised.",
["utils/logging.py"],[("SaveLogger.__call__/save/load","utils/logging.py")],obs=["files written","load()","inference_cache_"]))
L.append(P("C18","Typed graph models generalize the single-type model and keep types apart",
"With one node type the typed model has the same joint feature, inference optimum, loss and loss-augmented optimum as the edge-feature graph model on the same graph. With several types every node is scored and labeled with its own type's states, labels of a type form its own contiguous range, edges between types use the weights of that ordered pair of types, and converting labels between the flat and the per-type form is a round trip.",
["inputs","configurations"],"1-3 types with different numbers of states and features x edges within and between types, missing types and missing edge blocks x labelings x weights",
"Tests use a handful of hand-computed vectors; layouts with unequal states, features and edge blocks are hardly touched.",
["models/node_type_edge_feature_graph_crf.py","models/typed_crf.py"],[("joint_feature","models/node_type_edge_feature_graph_crf.py"),("flattenY/unflattenY","models/typed_crf.py")],obs=["joint_feature()","inference()","flattenY()","unflattenY()"]))
L.append(P("C19","Hard logic constraints are satisfied by constrained inference",
"Inference under hard logic constraints (exactly-one, at-most-one, or, xor-out, or-out, and-out, imply, with negations, scalar or per-node states) returns, when the solver is exact and the constraints are satisfiable, a labeling that satisfies all of them and has the highest score among those that do. In batch inference and prediction each sample is solved under its own constraints.",
["inputs","configurations"],"operators x scopes x negations x satisfiable constraint sets x single- and multi-type graphs x several samples; operator semantics enumerated exhaustively",
"Tests try a few constraints on one graph; per-sample alignment and the operators' meaning with negation are not covered.",
["inference/inference_methods.py","models/crf.py","models/base.py","learners/ssvm.py"],[("inference_ad3plus","inference/inference_methods.py"),("inference(constraints=)","models/crf.py"),("predict(constraints=)","learners/ssvm.py")],obs=["inference(constraints=)","batch_inference(constraints=)","predict(constraints=)"]))
L.append(P("C20","Malformed inputs and parameters are rejected, well-formed ones accepted",
"Inputs and parameters that do not fit the model - wrong weight length, node or edge feature dimension, number of states or labels in the data, class-weight length, conflicting symmetry lists, unknown inference method or neighborhood, out-of-range node indices or labels in typed models, invalid batch size - raise an error instead of producing a result. Every well-formed input at the boundary of these rules is accepted.",
["inputs","configurations"],"every validation rule x one-off deviations on both sides of its boundary x models and learners",
"Tests sample a few error cases of the typed model and of class weights only.",
["models/base.py","models/crf.py","models/chain_crf.py","models/edge_feature_graph_crf.py","models/typed_crf.py","models/unstructured_svm.py","models/multilabel_svm.py","inference/common.py","inference/inference_methods.py","utils/graph.py","learners/frankwolfe_ssvm.py","learners/n_slack_ssvm.py"],
[("_check_size_w/_check_size_x","models/*.py"),("initialize","models/*.py"),("_validate_params","inference/common.py")],obs=["exceptions raised by constructors, initialize(), joint_feature(), inference(), fit()"]))
L.append(P("C21","Scores and training curves tell the truth",
"A learner's score is one minus the summed loss of its own predictions divided by the summed maximum loss. The training-loss curve is recorded exactly at the requested iterations and holds one minus the score of the weights at that time, and each curve and timestamp list has one entry per recorded iteration plus the documented final entry, with non-decreasing times.",
["inputs","histories","configurations"],"learners x models with class weights and samples of unequal size x monitoring periods x numbers of iterations",
"Tests check that curves exist or have a length for one setting; values are not compared with predictions.",
["learners/ssvm.py","learners/n_slack_ssvm.py","learners/one_slack_ssvm.py","learners/subgradient_ssvm.py","learners/frankwolfe_ssvm.py","learners/structured_perceptron.py","learners/latent_structured_svm.py"],[("score","learners/ssvm.py"),("_compute_training_loss","learners/ssvm.py")],obs=["score()","loss_curve_","objective_curve_","timestamps_"]))
L.append(P("C22","Calls do not modify their inputs and are repeatable",
"Inference, loss-augmented inference, joint-feature, loss, latent completion, prediction, scoring and training leave the caller's inputs, labels, weights and option objects unchanged, and repeating a call with the same arguments gives the same result regardless of what was computed in between.",
["inputs","histories"],"all public operations of all models and learners x interleavings of repeated calls",
"Tests use fresh arrays per call; an aliased or in-place modified array rarely shows in the asserted values.",
["models/base.py","models/crf.py","models/graph_crf.py","models/latent_graph_crf.py","models/latent_node_crf.py","models/multilabel_svm.py","inference/inference_methods.py","inference/maxprod.py","learners/ssvm.py"],[("potentials built afresh","models/*.py"),("kwargs copy","inference/inference_methods.py")],obs=["arguments before/after","return values"]))
L.append(P("C23","Synthetic data generators are coherent and deterministic",
"The synthetic data sets have the documented shapes, integer labels covering only the states of the task, inputs that agree with the labels outside the injected noise (exactly, when noise is zero) and, for the seeded generators, the same data on every call with the same seed.",
["inputs","configurations"],"all exported generators x sample counts x sizes x noise levels x seeds",
"Tests use the generators as fixtures with one parameter setting.",
["datasets/synthetic_grids.py","datasets/__init__.py"],[("generate_*","datasets/synthetic_grids.py")],obs=["returned X, Y"]))
L.append(P("C24","Grid models are the graph model on the explicit lattice",
"For every grid size including single rows, columns and cells, the 4- and 8-neighborhood grid models (plain, directional and latent) use each lattice edge exactly once with the orientation and direction features documented, and give the same joint feature, inference optimum, loss-augmented optimum and relaxed results as the graph model on that lattice, reshaped to the grid.",
["inputs","configurations"],"grid sizes 1x1 to 4x4 x neighborhoods x state/feature counts x weights x relaxed and energy options",
"Tests use a few square-ish grids with 4-neighborhood; directional models with 8 neighbors are not used.",
["models/grid_crf.py","models/latent_grid_crf.py","utils/graph.py"],[("make_grid_edges","utils/graph.py"),("edge_list_to_features","utils/graph.py"),("_reshape_y","models/grid_crf.py")],obs=["joint_feature()","inference()","make_grid_edges()"]))
L.append(P("C25","Interrupted training leaves a usable learner that can be resumed",
"When training is interrupted from the keyboard at any point of its iterations, fit still returns the learner: it holds the weights of the last completed update, constraints that belong to the data and curves of equal length, its final recorded objective is the risk of those weights, the logger is told the final state, and predictions work. A cutting-plane learner that is resumed afterwards still reaches the optimum within its tolerance, and a subgradient learner continues from the weights and step count it stopped at.",
["crash_points","histories"],"every request a learner makes to its model, the quadratic solver and its logger during the iterations as the point of interruption x learners and their options x resumed runs",
"No test interrupts a run; which state an interruption leaves behind depends on the exact point of the iteration.",
["learners/n_slack_ssvm.py","learners/one_slack_ssvm.py","learners/subgradient_ssvm.py","learners/subgradient_latent_ssvm.py","learners/frankwolfe_ssvm.py","learners/structured_perceptron.py"],[("except KeyboardInterrupt","learners/*.py"),("fit(warm_start=, constraints=)","learners/*.py")],obs=["w","constraints_","objective_curve_","primal_objective_curve_","fit() after an interruption"]))
L.append(P("C26","The reference tools minimise and maximise what they say",
"The plain linear SVM finds weights and an intercept that together minimise C times the summed hinge loss plus half the squared norm (for every data set with both classes, separable or not), and predicts the sign of its decision function. The downhill simplex learner minimises the mean structured hinge loss plus the squared norm over 2 C: it never ends above the values at the points it starts from and, with one or two weights, ends at the minimum. Exhaustive (loss-augmented) inference returns a maximiser over all labelings, the primal objective helper returns C times the summed slacks plus half the squared norm, and packing a symmetric matrix into its lower triangle and back is lossless.",
["inputs"],"random small data sets, separable and not, C below and above 1; structured problems with exact inference; all small symmetric matrices in the model",
"Neither solver has a test of optimality (the SVM has none at all); helpers are only used as oracles of other tests.",
["learners/svm.py","learners/downhill_simplex_ssvm.py","utils/inference.py"],[("SVM.fit","learners/svm.py"),("PrimalDSStructuredSVM.fit","learners/downhill_simplex_ssvm.py"),("exhaustive_inference","utils/inference.py"),("objective_primal","utils/inference.py")],obs=["w","b","predict()","exhaustive_inference()","objective_primal()"]))
L.append(P("C27","The learning plot shows what the learner recorded",
"For every learner that was trained once, the learning plot draws the recorded objective, and the primal objective if there is one, against the iterations or against the times at which they were known, in minutes; it marks exactly the primal objectives of a one-slack learner that took inference, draws the training losses in a second panel at their iterations if there are any, and prints the number of objectives, the last one and the gap. A latent learner is plotted as its base learner, the perceptron by its training losses, and the command plots a stored learner like a live one. The grid plot shows every cell with a line between any two neighbours.",
["inputs","configurations","histories"],"learners x options x monitoring periods x numbers of iterations x both abscissae x live and stored learners; grids of all shapes",
"No test calls the plotting functions.",
["plot_learning.py","utils/plotting.py"],[("plot_learning","plot_learning.py"),("plot_grid","utils/plotting.py")],obs=["lines of the figure","printed summary"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in L))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in L: jsonschema.validate(d,s); assert len(d["title"])<=80,d["id"]
print(len(L))
