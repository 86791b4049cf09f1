"""Further properties (C08 ...), loaded by spec.py."""


def add(prop):
    prop("C08", "Leaves follow their named distribution family",
         "For every leaf family and every valid parameter setting, however the parameters were given, the log-likelihood of a value equals the family's log density for each feature, channel and repetition, "
         "wherever the variables sit in the data; samples of every feature, channel and repetition follow that density and its mode maximises it. "
         "Leaves whose parameters are computed from evidence columns use each row's own parameters. A value outside the support never gets a positive density: it scores minus infinity or is rejected.",
         ["inputs", "configurations"],
         "all leaf families, all parameter values and shapes, all data values, scopes and missing patterns",
         "Tests compare a few parameter values with torch's own distributions (the same implementation) and check shapes of samples.",
         ["spflow/modules/leaves"],
         [("log_prob and imputation of missing entries", "spflow/modules/leaves/leaf.py: log_likelihood"), ("parameter projections", "spflow/utils/projections.py"),
          ("sampling and modes", "spflow/modules/leaves/*.py")],
         "runtime monitor: closed-form density oracle, chi-square / KS monitors on drawn samples",
         "Densities are compared with independent float64 formulas; sampling is judged statistically with alarm level 1e-10.")
    prop("C09", "Leaf estimation returns the weighted maximum-likelihood parameters",
         "Maximum-likelihood estimation of a leaf sets, for every feature, channel and repetition, the parameters that maximise that slot's weighted log-likelihood of the complete rows: integer weights act like duplicated rows, "
         "the scale of the weights, the order of the rows and the leaf's other slots do not matter, and the bias-corrected variant differs by O(1/N). "
         "Parameters stay valid on degenerate data, missing values are ignored only when requested, and a rejected request changes nothing.",
         ["inputs", "configurations"],
         "all leaf families, data sets, weightings, leaf shapes and missing-value patterns",
         "Tests fit one or two data sets per family and check closeness to the generating parameters.",
         ["spflow/modules/leaves", "spflow/utils/leaves.py"],
         [("weight preparation and NaN strategy", "spflow/modules/leaves/leaf.py: _prepare_mle_data; spflow/utils/leaves.py"),
          ("per-family estimators", "spflow/modules/leaves/*.py: _compute_parameter_estimates"), ("tree tables", "spflow/modules/leaves/cltree.py")],
         "runtime monitor: closed-form weighted maximiser and metamorphic oracles",
         "Exact comparison with closed-form maximisers on generated data; the Gamma estimator is an approximation by design and judged by invariances.")
    prop("C10", "EM performs expected-count updates and never lowers the likelihood",
         "One expectation-maximisation step sets every mixture weight to its normalised expected count and every leaf slot to its weighted maximum-likelihood estimate under the current posterior, "
         "with a node shared by several parents updated once from all of them. Without bias correction the training log-likelihood never decreases, the returned history holds the average log-likelihood before each update, "
         "iteration stops exactly when it no longer increases or the step limit is reached, batched EM equals the same updates one batch at a time, fixed priors and parameter-free leaves stay as they are, "
         "and parts of the model that no row reaches keep valid, finite parameters.",
         ["inputs", "configurations", "histories"],
         "all circuits and shipped model families, data sets and batchings",
         "Tests check that a few EM runs increase the likelihood of small fixed models.",
         ["spflow/learn/expectation_maximization.py", "spflow/modules", "spflow/zoo"],
         [("EM driver and history", "spflow/learn/expectation_maximization.py"), ("expected counts", "spflow/modules/sums/*.py, spflow/modules/einsum/*.py, spflow/modules/conv/sum_conv.py: _expectation_maximization_step"),
          ("leaf updates", "spflow/modules/leaves/leaf.py: _expectation_maximization_step")],
         "runtime monitor: independent expected counts by finite differences, likelihood-monotonicity monitor over EM histories",
         "Expected counts come from an independent float64 evaluator (random circuits) or from a separate backward pass (shipped models); Gamma leaves are excluded from monotonicity (approximate estimator).")
    prop("C11", "Gradient training follows the true gradient and keeps models valid",
         "The gradient of the log-likelihood with respect to every trainable parameter equals its derivative, also for data with missing values; after any optimiser steps the model is still a normalised distribution with valid weights. "
         "train_gradient_descent performs exactly the documented loop: one optimiser step per batch on the stated loss (negative mean log-likelihood, or posterior cross-entropy plus the weighted likelihood term for classifiers), "
         "scheduler once per epoch, callbacks once per batch and epoch with the actual losses, validation that changes nothing; invalid requests are rejected before anything changes.",
         ["inputs", "configurations", "histories"],
         "all circuits, shipped models, optimisers, batchings, missing-value patterns and hyper-parameters",
         "Tests run a few epochs on tiny models and check that the loss goes down.",
         ["spflow/learn/gradient_descent.py", "spflow/modules", "spflow/utils/projections.py"],
         [("training loop", "spflow/learn/gradient_descent.py"), ("parameterisations", "spflow/utils/projections.py"), ("differentiable likelihood", "spflow/modules/*/*.py: log_likelihood")],
         "runtime monitor: central-difference oracle, reference training loop, enumeration after updates",
         "Derivatives are compared at random entries of every parameter in float64; training trajectories are compared with a re-implemented loop.")
    prop("C12", "Structure learners return the circuit their procedure defines",
         "learn_spn, learn_prometheus and learn_cnet return a decomposable, smooth, normalised circuit over exactly the requested scope whose log-density equals that of the learning recursion: "
         "products over the variable groups the dependence test separates, mixtures over row clusters weighted by their share of the rows, an even mixture over the spanning-tree partitions (Prometheus), "
         "and conditioning on the highest-entropy variable with empirical branch frequencies (cutset networks), with slices below the given limits becoming leaves fitted to exactly their rows. "
         "Hence univariate marginals match the training frequencies. Leaf templates keep their settings, only columns of the scope matter, data and templates stay unchanged, learning ends on degenerate data, "
         "merging nested sums keeps the distribution, and invalid requests are rejected.",
         ["inputs", "configurations", "histories"],
         "all data sets, leaf templates, scopes, slice limits, channel numbers and clustering/partitioning outcomes",
         "Tests learn a few fixed data sets and check shapes, scopes or that the likelihood is finite.",
         ["spflow/learn/learn_spn.py", "spflow/learn/prometheus.py", "spflow/learn/cnet.py", "spflow/utils/rdc.py"],
         [("LearnSPN recursion, pruning", "spflow/learn/learn_spn.py"), ("Prometheus recursion and partitions", "spflow/learn/prometheus.py"), ("cutset networks", "spflow/learn/cnet.py"), ("dependence test", "spflow/utils/rdc.py")],
         "runtime monitor: reference learning recursions, observed callbacks, structural walk, empirical marginals",
         "Clustering and partitioning decisions are injected as deterministic functions of the slice so that an independent recursion predicts the log-density; built-in methods are judged by marginals and unmistakable structure.")
    prop("C13", "Chow-Liu trees are optimal and top-k tree enumeration is exact",
         "The tree a CLTree leaf or an HCLT learns maximises the total smoothed, weighted mutual information over all spanning trees (hence, without smoothing, the training likelihood over all tree models), "
         "and the top-k enumeration returns exactly the k best distinct spanning trees in order, for minimisation and maximisation, under edge constraints, ties, integer weights and dropout. "
         "Mutual information equals its definition for binary and categorical data, any weights, pseudocount and chunk size. "
         "A learned HCLT has one hidden variable with the requested number of states per observed variable, connected exactly along those trees, and is an even mixture over the k trees when initialised uniformly.",
         ["inputs", "configurations"],
         "all weight matrices and data sets (judged exhaustively for up to six variables), weightings, smoothing and numbers of trees",
         "Tests check one or two small matrices and the presence of a strong edge.",
         ["spflow/modules/leaves/cltree.py", "spflow/zoo/hclt"],
         [("structure learning, mutual information", "spflow/modules/leaves/cltree.py: fit_structure, _compute_mutual_information, _prim_maximum_spanning_tree"),
          ("pairwise mutual information", "spflow/zoo/hclt/mi.py"), ("top-k spanning trees", "spflow/zoo/hclt/topk_mst.py"), ("HCLT construction", "spflow/zoo/hclt/learn.py")],
         "runtime monitor: exhaustive spanning-tree oracle over observed results",
         "Observed trees are compared with all labelled trees (Pruefer enumeration); optimality is judged by value so any tie-break is accepted.")
    prop("C14", "Constructors accept only valid structures; declared shapes and scopes hold",
         "Every module a constructor accepts computes values of exactly the shape it declares (features, channels, repetitions), and the (scope, shape) it declares per feature and channel are the variables its value depends on. "
         "Constructors reject ill-formed structures: products over overlapping scopes, sums or concatenations over inputs with different scopes or arrangements, incompatible channels or repetitions, parameters whose shape does not "
         "fit the leaf, empty scopes, cyclic tree parents. Accepted circuits are therefore decomposable and smooth; parameters given per feature, channel or repetition are used along exactly those axes, and splits partition their input.",
         ["inputs", "configurations"],
         "all combinations of module types, shapes, scopes, splits, parameter shapes and nestings",
         "Tests construct fixed, mostly valid combinations and compare declared shapes.",
         ["spflow/modules"],
         [("constructors and shape inference", "spflow/modules/*/*.py: __init__, feature_to_scope"), ("parameter shape inference", "spflow/utils/leaves.py"), ("splits", "spflow/modules/ops")],
         "runtime monitor: dependence of every value entry on every variable observed by perturbation; accept/reject oracle",
         "A reference predicate decides which requests are well-formed; for accepted modules the real value tensor is observed while single variables change.")
    prop("C15", "Scopes form a consistent set algebra; region graphs hold decompositions",
         "Scopes behave as pairs of disjoint finite sets (query, evidence): equality and hash ignore order, subset, disjointness, union, removal and pairwise tests agree with set algebra, every way of giving the same variables gives the same scope, "
         "and malformed scopes (negative or non-integer indices, overlapping query and evidence, duplicates, evidence without query) are rejected; operations never change their operands. "
         "A region graph accepts a partition only if its regions are pairwise disjoint and together make up the parent's scope, and lists every reachable region exactly once, children before parents.",
         ["inputs"],
         "all index sets, orders and input types",
         "Tests check a handful of fixed scopes.",
         ["spflow/meta"],
         [("scope algebra", "spflow/meta/data/scope.py"), ("region graphs", "spflow/meta/region_graph.py")],
         "runtime monitor: model-based comparison with frozenset pairs",
         "Random histories of scope operations run on the real class and on a pair-of-sets model.")
    prop("C16", "Weights and parameters set are the ones used, normalised and owned",
         "Setting normalised positive weights (constructor, weights or log_weights setter) or leaf parameters makes the getters return them and every later query use them, in every mode: train or eval, with or without gradients, in copies, after "
         "loading states and after in-place or optimiser edits of the raw parameters. Whatever real values the raw parameters hold, the weights are non-negative and sum to one over the inputs, and leaf parameters stay in their domain. "
         "Invalid weights or parameters (negative, unnormalised, wrong shape) are refused and leave the module unchanged; a module owns its values: later changes of the tensors it was given do not change it.",
         ["inputs", "histories", "configurations"],
         "all weight layers and leaf families, shapes, raw parameter values and operation sequences",
         "Tests set one weight tensor and read it back.",
         ["spflow/modules/sums", "spflow/modules/einsum", "spflow/modules/conv", "spflow/modules/leaves", "spflow/utils/projections.py"],
         [("weight setters", "spflow/modules/sums/*.py, spflow/modules/einsum/*.py, spflow/modules/conv/sum_conv.py"), ("parameterisation of leaves", "spflow/modules/leaves/*.py, spflow/utils/projections.py")],
         "runtime monitor: reference mixture over observed inputs after random operation histories",
         "Random histories of setters, mode switches, copies, loads, edits and queries; each query is compared with a float64 mixture using the weights the history should have left.")
    prop("C17", "Queries are pure, per row, repeatable, reentrant; DAGs stay linear",
         "The value a query returns for a row depends on that row and the model only, whatever the other rows, their order, the batch split, the tensor layout, earlier queries, or concurrent queries from other threads. "
         "Likelihood queries change neither inputs, model nor global settings; sampling fills missing entries only and is a function of the generator's state, which successive draws advance. "
         "A likelihood query evaluates each shared node once, so DAGs cost time linear in their size, and query caches affect no result and keep no module or tensor alive.",
         ["inputs", "histories", "schedules", "configurations"],
         "all circuits, batches, query histories, thread schedules and cache uses",
         "Tests issue one query at a time on a fresh model and compare shapes or a single value.",
         ["spflow/modules", "spflow/utils/cache.py", "spflow/utils/sampling_context.py"],
         [("cached decorator, cache lifetime", "spflow/utils/cache.py"), ("log_likelihood, sample, mpe", "spflow/modules/*/*.py"), ("module base class", "spflow/modules/module.py")],
         "runtime monitor: differential histories, thread stress with injected switches, call counting, weak references",
         "Random query histories and concurrent query schedules run on the real models; state snapshots, call counts and weak references are observed.")
    prop("C18", "Copies, pickles and saved states are the same model, and independent",
         "A deep copy, pickle, torch.save round trip, or a state dict loaded into a model of the same structure answers every query - log-likelihoods, samples under the same seed, MPE, marginals, and training steps - exactly as the original. "
         "Afterwards the two share no storage: updating or training one leaves the other unchanged. Converting the floating-point type and back, and saving during training mode, keep the distribution.",
         ["inputs", "histories", "configurations"],
         "all modules and models, parameter values, modes and orders of copying, saving, querying and editing",
         "Tests round-trip one or two models and compare one likelihood.",
         ["spflow/modules", "spflow/zoo"],
         [("registered parameters and buffers", "spflow/modules/*/*.py: __init__"), ("random structure held as buffers", "spflow/modules/ops, spflow/modules/einsum, spflow/modules/conv"), ("leaf state", "spflow/modules/leaves")],
         "runtime monitor: differential execution of original and copy, storage identity",
         "Original and copy run the same random queries, edits and optimiser steps; results and storages are compared.")
    prop("C19", "Expression-language circuits denote what is written",
         "A circuit written with the operators of the expression language (weighted terms added, terms multiplied, in any nesting, grouping and order) has exactly the density of the written mixture/product expression: weights belong to the term they are written on, products multiply, and nested sums are not merged into a different mixture. "
         "The operands stay unchanged and may be reused in several expressions. Expressions without a valid circuit (unnormalised or negative weights, mixed scopes in a sum, overlapping scopes in a product, wrong operand types) are rejected.",
         ["inputs"],
         "all expression trees over leaves and modules, including shared operands",
         "Tests write a few fixed expressions and check types and shapes.",
         ["spflow/dsl.py", "spflow/modules/module.py"],
         [("operators and term building", "spflow/dsl.py"), ("sum and product construction", "spflow/modules/sums, spflow/modules/products")],
         "runtime monitor: independent float64 evaluation of the written expression",
         "Random expression trees are evaluated by the library and by a direct float64 interpreter.")
    prop("C20", "Class posteriors follow Bayes' rule; supervised fits are per class",
         "For every classifier (circuit with class channels, naive Bayes, RAT-SPN, Einet, scikit-learn wrapper) the predicted probabilities are prior times class-conditional likelihood, normalised over the classes, also with missing features, and predicted labels are their argmax. "
         "Supervised estimation fits each class's parameters to the rows of that class and the class prior to the class frequencies, so that joint, conditional and marginal likelihoods are consistent.",
         ["inputs", "configurations"],
         "all priors, class-conditionals, label sets, missing patterns and training sets",
         "Tests check that probabilities sum to one or that an accuracy is high.",
         ["spflow/interfaces", "spflow/zoo"],
         [("classification mix-in", "spflow/interfaces/classifier.py, spflow/interfaces/sklearn.py"), ("naive Bayes", "spflow/zoo/naive_bayes.py"), ("RAT-SPN, Einet posteriors", "spflow/zoo")],
         "runtime monitor: Bayes rule on independently computed class-conditionals",
         "Class-conditionals are obtained from the observed leaves or from one-hot class weights and combined in float64.")
    prop("C21", "The scikit-learn interface gives the model's own answers",
         "score_samples, score, predict, predict_proba and sample of the scikit-learn estimators return exactly what the wrapped or learned model says for the given rows (with the configured aggregation of channels and repetitions), in row order, for every accepted container and dtype, and class labels map back to the caller's. "
         "fit trains on exactly the given table, leaves the caller's model and data unchanged where promised, and obeys the learner settings; random_state determines the samples and unseeded draws differ. "
         "clone, get_params/set_params and pickling behave as scikit-learn requires, and unfitted or malformed requests are rejected.",
         ["inputs", "configurations", "histories"],
         "all wrapped or learned models, settings, containers and call orders",
         "Tests fit one small model and check shapes.",
         ["spflow/interfaces/sklearn.py"],
         [("density estimator", "spflow/interfaces/sklearn.py: SPFlowDensityEstimator"), ("classifier", "spflow/interfaces/sklearn.py: SPFlowClassifier")],
         "runtime monitor: the model's own queries and direct learner calls as oracle",
         "Estimator answers are compared with direct queries of the underlying model and with a direct call of the configured learner.")
    prop("C22", "Inner and triple products equal the integrals of the circuits' products",
         "For every two (three) compatible circuits or leaves the computed inner product matrix (triple product tensor) equals the integral over the whole domain of the product of the functions, per feature, channel pair (triple) and repetition, and self products are symmetric and positive semidefinite. "
         "The value does not depend on the order of variables inside leaves, on caching or on the batch, and its derivatives are those of the integral. "
         "Incompatible pairs (different structure, families, supports or scopes) are rejected, not paired up.",
         ["inputs", "configurations"],
         "all leaf families with all parameters, all compatible structures, signed and monotone weights, channels and repetitions",
         "Tests compare a few closed forms of single leaves with themselves.",
         ["spflow/utils/inner_product_core.py", "spflow/utils/inner_product.py", "spflow/utils/compatibility.py"],
         [("closed forms of the leaf families", "spflow/utils/inner_product_core.py"), ("recursion over circuits", "spflow/utils/inner_product.py"), ("compatibility", "spflow/utils/compatibility.py")],
         "runtime monitor: exact sums and Gauss-Legendre quadrature of observed densities",
         "Densities are evaluated by the library's leaves in float64 (and by independent formulas) on quadrature grids that resolve the parameters; the grid sums are the oracle.")
    prop("C23", "Squared circuits are normalised; signed evaluation and sampling are faithful",
         "A sum of squared (signed) circuits, optionally times a monotone circuit, is evaluated as the sum of the squared component values divided by its exact partition function: it is finite, non-negative and integrates to one, for every channel and repetition, after parameter edits and within one cache. "
         "Signed evaluation returns the sign and log absolute value of the circuit's function; builders (build_socs, complex pairs, proposals, ready-made models) produce components of the declared structure, do not alter their template, and are reproducible from their seed. "
         "Samples follow the squared density up to the declared Markov chain bias, derivatives are those of the normalised log-likelihood, and unsupported queries are rejected.",
         ["inputs", "configurations", "histories"],
         "all component structures, leaf families, weights, model configurations and seeds",
         "Tests check one two-variable example and finiteness.",
         ["spflow/modules/sos", "spflow/modules/sums/signed_sum.py", "spflow/zoo/sos", "spflow/learn/build_socs.py", "spflow/utils/signed_semiring.py"],
         [("squared circuits", "spflow/modules/sos"), ("signed sums", "spflow/modules/sums/signed_sum.py"), ("signed log arithmetic", "spflow/utils/signed_semiring.py"), ("ready-made models", "spflow/zoo/sos"), ("builders", "spflow/learn/build_socs.py")],
         "runtime monitor: float64 evaluation of the component functions, exact normalisation",
         "Component values are computed in float64 from weights and leaf densities, squared, summed over the whole (quadrature) domain, and compared with what the model reports; samples are compared with the exact squared distribution.")
    prop("C24", "Information measures equal their definitions on the model's distribution",
         "Exact entropy, mutual information and conditional mutual information equal the defining sums over the distribution the model's log-likelihood assigns (with the requested aggregation of channels and repetitions), for every choice of variable sets; Monte Carlo estimates converge to the same values, are reproducible from their seed and then leave the global random state alone. "
         "Conditional probabilities are the ratio of the model's marginals, and weights of evidence are the documented Laplace-corrected log-odds differences, with scores only for observed entries. "
         "The measures neither change the model nor the evidence, and malformed requests or unknown domains are rejected.",
         ["inputs", "configurations", "histories"],
         "all circuits, variable sets, aggregations, evidence patterns, sample sizes and seeds",
         "Tests check two-variable toy models.",
         ["spflow/measures"],
         [("entropy and mutual information", "spflow/measures/information_theory.py"), ("conditional probability and weight of evidence", "spflow/measures/weight_of_evidence.py"), ("aggregation and domains", "spflow/measures/_utils.py")],
         "runtime monitor: defining sums over the enumerated joint, concentration bounds for estimates",
         "The joint table is enumerated from complete-row log-likelihoods; measures are recomputed in float64; estimates must lie within a Bernstein bound.")
    prop("C25", "Quadrature circuits equal the quadrature of their integral circuits",
         "Materialising an integral circuit under a quadrature rule yields a circuit whose log-likelihood is, for every input, the nested quadrature sum the symbolic circuit declares (each latent variable bound by name, functions evaluated at the declared points, shared or private), for hand-built circuits and for every region graph; conditionally normalised functions give total mass one. "
         "The tensorised form equals the recursion over its region graph with the layer parameters its networks produce, has mass one, marginalises missing values and does not depend on chunking, folding, padding, data type or batch; its layers are exact log-domain contractions, also for impossible inputs. "
         "Weighted sums sample in proportion to the (unnormalised) value under the evidence, and malformed circuits, rules and weights are rejected.",
         ["inputs", "configurations", "programs"],
         "all symbolic circuits, latent dimensions and orders, region graphs, quadrature rules, sharing schemes, leaf families, masks and data types",
         "Tests materialise two-variable examples with constant functions.",
         ["spflow/zoo/pic"],
         [("symbolic circuits and materialisation", "spflow/zoo/pic/pipeline.py"), ("shared functions", "spflow/zoo/pic/functional_sharing.py"), ("weighted sums", "spflow/zoo/pic/weighted_sum.py"), ("tensorised circuits", "spflow/zoo/pic/tensorized")],
         "runtime monitor: float64 named-axis quadrature and region-graph recursion",
         "Symbolic circuits are evaluated by binding latent axes by name in float64; tensorised layers are compared with dense float64 contractions.")
    prop("C26", "Differentiable sampling and leaf-parameter records describe the same draw",
         "Differentiable sampling draws hard values from the same (conditional) distribution as ordinary sampling at every temperature, for every output slot, keeps the evidence, never becomes NaN when evidence excludes components, and differentiable MPE is the ordinary MPE. "
         "Its gradients are finite, move one to one with the location of the component that generated a value, and follow the temperature softmax relaxation for the weights of mixtures over channels. "
         "Asking for leaf parameters does not change the draw and returns, for every generated entry exactly once, the parameters of the leaf channel and repetition that generated it, in both modes; kinds without support reject the request.",
         ["inputs", "configurations"],
         "all sampleable circuits and architectures, leaf families, temperatures, routing requests, evidence patterns, batch sizes",
         "Tests check shapes and that some gradient exists.",
         ["spflow/utils/sampling_context.py", "spflow/modules"],
         [("straight-through sampling and one-hot routing", "spflow/utils/sampling_context.py"), ("leaf sampling and records", "spflow/modules/leaves/leaf.py"), ("routing of every layer", "spflow/modules")],
         "runtime monitor: exact enumeration, KS/PIT and hooked routing of differentiable draws",
         "Drawn values are compared with enumerated distributions; recorded parameters must explain the drawn values (probability integral transform) and cover exactly the generated entries.")
    prop("C27", "Autoencoding circuits encode, decode and train as their joint circuit",
         "Encoding draws latents from the joint circuit's distribution given the observed (possibly incomplete) input, decoding draws inputs given the latents and any partial input (which is kept when asked), prior and input samples follow the marginals, MPE encoding and decoding is the circuit's, and joint and marginal log-likelihoods are the circuit's, for every encoder architecture, latent family, packing and permutation. "
         "Latent statistics are the mean and variance of the component that generated the latent (so they average to the posterior's), with the Kullback-Leibler term and decoding latent of that component. "
         "Every loss component and total follow from the configured terms; training visits each row once per epoch, applies exactly the optimiser's (clipped) steps, reports row averages, and evaluation changes nothing.",
         ["inputs", "configurations"],
         "all encoder configurations, latent and input families, decoders, loss configurations, optimisers, batch sizes and evidence patterns",
         "Tests check shapes, finiteness and that a loss decreases.",
         ["spflow/zoo/apc"],
         [("joint encoders", "spflow/zoo/apc/encoders"), ("model and losses", "spflow/zoo/apc/model.py"), ("training", "spflow/zoo/apc/train.py"), ("decoders", "spflow/zoo/apc/decoders.py")],
         "runtime monitor: exact enumeration / KS of the joint circuit, recorded loss evaluations replayed",
         "The joint circuit is enumerated; draws and statistics are compared with it, and every loss evaluation during training is recorded and its gradient steps replayed.")
    prop("C28", "Interval evidence is the probability mass of the box",
         "The log-likelihood of interval evidence is the log of the probability that every variable lies between its two bounds (both included; NaN or infinite means no bound on that side), "
         "for every leaf family with interval support and every circuit over such leaves, in every feature, channel and repetition and independently of the other rows. "
         "Evidence with a lower bound above its upper bound, mismatched shapes or a distribution without interval support is refused rather than answered wrongly.",
         ["inputs", "programs", "configurations"],
         "all circuits over all leaf families, all combinations of open, closed, degenerate and out-of-support intervals",
         "Tests use the standard normal, a uniform and small Bernoulli and categorical leaves with a few finite bounds.",
         ["spflow/utils/range_inference.py", "spflow/modules/leaves", "spflow/meta/data/interval_evidence.py"],
         [("interval likelihood of leaves", "spflow/modules/leaves/leaf.py, normal.py, uniform.py, bernoulli.py, categorical.py"), ("evidence container", "spflow/meta/data/interval_evidence.py"), ("propagation through layers", "spflow/modules")],
         "runtime monitor: reference masses, enumeration and numeric integration",
         "Leaf masses come from scipy, circuits are re-evaluated in float64 with interval leaves, architectures are compared with the enumerated box, mixtures with the integral of their own density.")
    prop("C29", "Continuous mixtures return the mixture they trained",
         "The circuit returned by the continuous-mixture learners is the equally weighted mixture, over the evaluation points, of the decoded factorised or tree components, a normalised distribution that marginalises missing values. "
         "Training follows the gradient of that circuit's mean negative log-likelihood over every row once per epoch, keeps the parameters (and, with latent optimisation, the latent points) that score best on the validation data (training data without it), stops after the configured patience, and is reproducible. "
         "Integration points are randomly shifted low-discrepancy points mapped to the standard normal with equal weights, and invalid settings or data are rejected.",
         ["inputs", "configurations", "histories"],
         "all data sets, leaf families, structures, latent dimensions, point counts, batch sizes, learning rates, patience and latent-optimisation settings",
         "Tests run one tiny training per leaf family and look at shapes.",
         ["spflow/zoo/cms"],
         [("training, selection and compilation", "spflow/zoo/cms/continuous_mixtures.py"), ("integration points", "spflow/zoo/cms/rqmc.py"), ("joint likelihood wrapper", "spflow/zoo/cms/joint.py")],
         "runtime monitor: hooked optimiser steps against finite differences of the returned circuit; replayed histories",
         "Optimiser steps are intercepted and their gradients compared with central differences of the returned circuit; per-epoch states are reproduced by shorter trainings and the selection recomputed.")
    prop("C30", "Reports and traces describe the circuit and change nothing",
         "Structure statistics, tree views and drawn graphs of every circuit and model family count and show exactly its layers, connections, sharing, depth, shapes, scopes and parameters. "
         "Producing a report or a trace, with tracing on or off, leaves results, parameters, hooks and random streams unchanged, prints true statistics and respects its event limit. "
         "A temporarily replaced method is used by every instance inside the block only and is restored afterwards, also after errors.",
         ["programs", "configurations", "histories"],
         "all circuits (including shared subcircuits), model families, report options and replaced methods",
         "Tests look for substrings in reports of toy models.",
         ["spflow/utils/structure_stats.py", "spflow/utils/module_display.py", "spflow/utils/visualization.py", "spflow/utils/debug.py", "spflow/utils/replace.py"],
         [("statistics", "spflow/utils/structure_stats.py"), ("tree view and pictures", "spflow/utils/module_display.py, visualization.py"), ("tracing", "spflow/utils/debug.py"), ("replacement", "spflow/utils/replace.py")],
         "runtime monitor: independent graph traversal; state and random-stream comparison around every report",
         "Reports are parsed and compared with a graph recomputed from public attributes; state, hooks and random streams are compared before and after.")
    prop("C31", "Answers do not depend on which table columns hold the variables",
         "A circuit whose scope names any columns of a wider table, in any order and with gaps, answers every query exactly as the same circuit over columns 0..n-1: likelihoods, missing values, marginals, posteriors, information measures, inner products, training and structure learning read its own columns only. "
         "Other columns may hold anything and are never read or written. "
         "Sampling and MPE without data return a table indexed by variable that the model itself can score, and fill only the model's columns of a given table.",
         ["inputs", "programs", "configurations"],
         "all circuits, architectures and learners; all injective maps of variables to columns, table widths and contents of the other columns",
         "Tests build nearly every model over columns 0..n-1.",
         ["spflow/modules", "spflow/zoo", "spflow/learn", "spflow/measures"],
         [("table preparation", "spflow/modules/module.py:_prepare_sample_data"), ("column lookup", "spflow/modules/leaves/leaf.py"), ("squared circuits", "spflow/modules/sos/socs.py, spflow/zoo/sos/models.py"), ("measures", "spflow/measures/information_theory.py"), ("learners", "spflow/learn")],
         "runtime monitor: metamorphic comparison of relabelled circuits",
         "Every generated model is built twice, over columns 0..n-1 and over a random column map of a wider table with hostile contents; all answers are compared.")
    prop("C32", "Image views answer like the flat circuit they wrap",
         "An image wrapper returns for images, in any memory layout, exactly what its circuit returns for the flattened pixels: likelihoods, gradients, samples, conditional samples, MPE and training steps, with observed pixels untouched. "
         "Marginalising rows, columns and channels, also repeatedly, yields a smaller view whose answers are those of the full view with these pixels missing, and leaves the original unchanged. "
         "Images of any other shape are rejected.",
         ["inputs", "programs", "histories"],
         "all image shapes, memory layouts, missing-pixel patterns, wrapped circuits and marginalisation sequences",
         "Tests compare shapes for one normal-leaf circuit; no marginal view is ever evaluated.",
         ["spflow/modules/wrapper"],
         [("image view", "spflow/modules/wrapper/image_wrapper.py"), ("wrapper base", "spflow/modules/wrapper/base.py")],
         "runtime monitor: differential comparison with the flat circuit; enumeration for frequencies",
         "The wrapped circuit itself, queried with flattened or masked rows, is the oracle; sample frequencies are tested against its enumerated table.")
    prop("C33", "Architectures keep their meaning inside larger circuits",
         "A complete architecture (RatSPN, Einet, naive Bayes, ConvPc, Chow-Liu tree, leaves or hand-built circuit) used as an input of sums, products, element-wise sums and products or concatenations keeps the distribution it has on its own: the composed circuit evaluates, marginalises and conditions as the composition of its parts. "
         "Samples, conditional samples and MPE answers of the whole follow that distribution, whatever likelihoods the parts have cached. "
         "Gradients and training reach the parameters of every part.",
         ["inputs", "programs", "configurations"],
         "all compositions of architectures with matching scopes, their configurations (repetitions, classes, structure) and queries",
         "Tests build each architecture as the root of its circuit.",
         ["spflow/zoo", "spflow/modules/sums", "spflow/modules/products", "spflow/modules/ops"],
         [("composition", "spflow/modules/sums, spflow/modules/products, spflow/modules/ops/cat.py"), ("architectures", "spflow/zoo/rat/rat_spn.py, zoo/einet/einet.py, zoo/conv/conv_pc.py, zoo/naive_bayes"), ("shape tables", "spflow/modules/module_shape.py")],
         "runtime monitor: enumeration; float64 composition of the parts' own tables as oracle",
         "The tables of the parts alone are composed in float64 and compared with what the composed circuit answers; sample frequencies are tested against the enumerated table.")
    prop("C34", "Conditional leaves use each row's own evidence",
         "A circuit whose leaves compute their parameters from evidence columns answers every row as the same circuit with the parameters of that row's evidence: likelihoods with and without missing values, posteriors, samples, conditional samples, MPE answers and leaf-parameter records, in any row order or batch. "
         "Evidence columns are never altered; gradients and training reach the parameter functions, and copies and saved models answer alike. "
         "Operations without a meaning for conditional leaves (estimation, marginalisation, interval queries without evidence) are refused and change nothing.",
         ["inputs", "programs", "histories"],
         "all circuits and architectures mixing conditional and fixed leaves, evidence values, row orders and missing-value patterns",
         "Tests use single conditional leaves with one evidence column and never look at individual rows.",
         ["spflow/modules/leaves/leaf.py", "spflow/modules/leaves"],
         [("conditional branch of likelihood and sampling", "spflow/modules/leaves/leaf.py"), ("conditional distributions", "spflow/modules/leaves/*.py")],
         "runtime monitor: differential comparison with per-row circuits of fixed parameters; enumeration for frequencies",
         "For every evidence row a circuit with fixed float64-computed parameters is built and queried alone; the conditional circuit's answers for that row must coincide, sample frequencies per evidence row are tested against its enumerated table.")
    prop("C35", "Zero probabilities stay exact and harmless",
         "Where leaves give values probability zero, a circuit or architecture returns -inf exactly for the assignments its textbook value makes impossible and correct numbers, never NaN, for all others, complete or with missing values, alone or in a batch. "
         "Samples, conditional samples and MPE completions are possible assignments with the model's frequencies, and class posteriors of possible rows are proper. "
         "Gradients and EM updates of possible rows are finite and correct whatever impossible branches or rows surround them.",
         ["inputs", "programs", "configurations"],
         "all circuits and architectures with zero-probability leaf values, all rows, missing-value patterns and batch compositions",
         "Tests use strictly positive leaves; -inf arithmetic (0 * -inf, -inf minus -inf, logsumexp of nothing) only appears for particular combinations of branches.",
         ["spflow/modules", "spflow/zoo", "spflow/learn", "spflow/utils/logspace.py"],
         [("log-space arithmetic of sums and products", "spflow/modules/sums, spflow/modules/products, spflow/modules/einsum, spflow/modules/rat/factorize.py"), ("bounded leaves", "spflow/modules/leaves/uniform.py, categorical.py, geometric.py"), ("EM", "spflow/utils/logspace.py")],
         "runtime monitor: float64 textbook evaluation; enumeration; finite differences",
         "Random circuits over categorical leaves with zero entries and uniform leaves on a grid are enumerated exactly (cells of constant density); -inf patterns must coincide, frequencies are tested, gradients compared with finite differences and EM steps with independently computed expected counts.")
    prop("C36", "A failed operation leaves nothing behind",
         "A query, measure, product, learner or context that fails midway - out of memory, an interrupt, an exception in a callable of the caller, a refused request - changes no parameter, flag, hook, gradient, caller's table, torch setting, random stream it keeps private, or class method, and asking again gives the same answer as before. "
         "An update (EM, gradient training) that fails midway leaves a model with valid parameters that goes on exactly like a fresh model holding the same parameters.",
         ["fault_sequences", "crash_points", "programs"],
         "all operations of all circuits and zoo models, all points at which a tensor operation inside them can fail, all kinds of exception",
         "Tests only watch operations that succeed or are refused at once; what a half-done operation leaves behind shows only when it is interrupted at a particular point and the model is used again.",
         ["spflow/modules", "spflow/learn", "spflow/measures", "spflow/dsl.py", "spflow/utils", "spflow/interfaces"],
         [("temporary default dtype in RDC partitioning", "spflow/learn/learn_spn.py"), ("contexts that patch classes", "spflow/dsl.py, spflow/utils/replace.py"), ("private random streams", "spflow/measures/_utils.py, spflow/interfaces/sklearn.py"), ("per-call caches", "spflow/utils/cache.py"), ("EM and gradient training", "spflow/learn/expectation_maximization.py, spflow/learn/gradient_descent.py")],
         "runtime monitor: fault injection at tensor operations with before/after state comparison",
         "A torch function mode counts the tensor operations of each operation and raises at chosen ones (fault or interrupt); state, settings, class attributes, data and random streams are compared bitwise, the operation is repeated, and interrupted updates are continued beside a fresh model with the same parameters.")

    prop("C37", "Answers do not depend on the units of the variables",
         "Measuring a variable in another unit (and its leaves' parameters with it) changes log-densities by the Jacobian only, however large or small the densities become, and leaves class posteriors, box probabilities, gradients of mixture weights, information and evidence measures unchanged. "
         "Samples, conditional samples and MPE completions drawn with the same random numbers, estimated parameters, EM histories and learned circuits are those of the old unit converted to the new one, and squared circuits stay normalised.",
         ["inputs", "programs", "configurations"],
         "all circuits, architectures and leaf families with location/scale parameters, all unit factors that keep squares of scales representable, all rows and missing-value patterns",
         "Tests use data of order one, where absolute epsilons, clamps and probability-space arithmetic go unnoticed; with other units densities leave the floating-point range although their logarithms do not.",
         ["spflow/modules", "spflow/zoo", "spflow/learn", "spflow/measures", "spflow/utils/inner_product_core.py"],
         [("log-space evaluation", "spflow/modules/sums, spflow/modules/einsum, spflow/modules/products"), ("leaf estimation", "spflow/utils/leaves.py, spflow/modules/leaves"), ("posteriors", "spflow/interfaces/classifier.py, spflow/zoo"), ("inner products", "spflow/utils/inner_product_core.py, spflow/modules/sos/socs.py")],
         "runtime monitor: metamorphic comparison of original and rescaled models on the real code",
         "Every case builds a model, a copy with converted parameters (units are powers of two, so data conversion is exact), and compares all answers of both; factors reach 2^50 in single and 2^400 in double precision, hundreds of decades of density.")
