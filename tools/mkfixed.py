"""Rewrites the 'fixed' list of KNOWN_FINDINGS.json from this table (commit found by its subject)."""
import json, os, subprocess
T = [
 ("ElementwiseProduct routing clobbered", "C05", "sampling an element-wise product of inputs with 1 and >1 channels drew every input from channel 0"),
 ("RepetitionMixingLayer sampled its repetition", "C05", "repetition mixing sampled the repetition from the sum over all channels' weights instead of the selected channel's"),
 ("MPE of Bernoulli(p=0.5)", "C07", "MPE of a Bernoulli leaf with p=0.5 and of a Uniform leaf was NaN"),
 ("Bernoulli/Geometric MLE stored infinite logits", "C09", "MLE of a Bernoulli/Geometric leaf on constant data stored infinite logits (later NaN)"),
 ("Laplace MLE ignored sample weights", "C09", "weighted MLE of a Laplace leaf used the unweighted median"),
 ("bias-corrected leaf MLE depended", "C09", "bias-corrected MLE changed with the number of other features/channels in the same leaf layer"),
 ("ElementwiseProduct rejected splits", "C14", "a split layer reported the wrong shape for its last part; valid element-wise products were rejected"),
 ("learn_cnet raised InvalidWeightsError when a category", "C12", "cutset network learning failed when a category did not occur in a slice"),
 ("RatSPN/Einet with several classes", "C06", "conditional sampling of RatSPN/Einet with several classes drew the class from its prior"),
 ("learn_cnet left the tree leaf", "C12", "cutset network learning returned an uninitialised tree leaf for single-row slices"),
 ("conditional sampling raised when an unrouted", "C06", "conditional sampling raised when an alternative not taking part was impossible under the evidence"),
 ("single-input Einsum/Linsum sampling interleaved", "C05", "single-input einsum/linsum layers with consecutive or index splits sampled the wrong features/channels"),
 ("ElementwiseProduct shape check divided", "C14", "element-wise product over a split input checked channels instead of features"),
 ("OuterProduct over a split input", "C14", "outer product over a split input had a malformed feature/scope map"),
 ("ElementwiseSum.marginalize indexed", "C04", "marginalising an element-wise sum selected weights by variable instead of by feature"),
 ("RepetitionMixingLayer rejected weights", "C16", "repetition mixing rejected weights normalised over repetitions and accepted those normalised over channels"),
 ("RepetitionMixingLayer.marginalize raised", "C04", "marginalising a repetition mixing layer raised IndexError"),
 ("Sum.marginalize raised InvalidWeightsError", "C04", "marginalising a sum with an underflowed weight raised"),
 ("Categorical leaves with a zero-probability", "C04", "a categorical leaf with a zero-probability category could not be marginalised"),
 ("sample(data=...) and mpe(data=...)", "C06", "sample(data=evidence) and mpe(data=evidence) routed mixtures by prior weights, ignoring the evidence"),
 ("ElementwiseSum routed out-of-range", "C05", "sampling an element-wise sum with one single-channel (broadcast) input raised"),
 ("ElementwiseSum EM step failed", "C10", "EM failed on an element-wise sum with one single-channel (broadcast) input"),
 ("Histogram mode ignored the bin widths", "C08", "MPE of a Histogram leaf with unequal bin widths was not the densest bin"),
 ("Hypergeometric sampled every channel", "C08", "Hypergeometric channels with smaller N or n were sampled with the largest N and n"),
 ("Uniform rejected values outside one channel", "C08", "Uniform leaves raised for values outside one channel's interval and for missing values"),
 ("CLTree estimation divided the sample weight", "C09", "CLTree estimation smoothed the more the more features/channels/repetitions the leaf had"),
    ("zero-probability inputs and unreached sums", "C10", "a component no row reaches got NaN weights after one EM step; an inner node with probability zero for a row made gradients NaN; EinsumLayer returned NaN instead of -inf when all channels of an input were impossible"),
    ("SumConv EM keeps one weight vector", "C10", "SumConv EM averaged log-weights over the kernel, destroying the per-position weights and lowering the likelihood"),
    ("EM updates a sum shared by several parents once", "C10", "a sum node with two parents was EM-updated twice per step with already updated weights"),
    ("log-likelihoods of rows with missing values can be differentiated", "C11", "backward() through Bernoulli, Binomial, Geometric, NegativeBinomial, Poisson, Exponential and Gamma leaves raised for data with missing values"),
    ("rdc fails on perfectly dependent columns", "C12", "rdc of a column with a copy of itself raised; learn_spn failed on data with duplicated or constant columns"),
    ("learned leaves keep the settings of the leaf templates", "C12", "learn_spn and learn_prometheus re-created leaves without K or total_count (Categorical with fewer categories than declared, Binomial failing), and failed for a single template with explicit scope"),
    ("learn_spn clusters rows by the columns of the current scope only", "C12", "row clustering used columns outside the scope"),
    ("learn_spn does not end on identical rows", "C12", "endless recursion on identical rows"),
    ("learn_spn does not end when clustering cannot separate", "C12", "RecursionError or exponential blow-up when k-means returned one cluster"),
    ("dependence test ranked ties", "C12", "independent columns of discrete data (e.g. two Bernoulli(0.1) columns) were given a dependence coefficient of about 0.66 and grouped together; the result changed with the row order"),
    ("marginalising a sum whose input has no repetitions", "C04", "Sum/WeightedSum with several repetitions over an input with one: marginalize raised IndexError"),
    ("mixing over repetitions accepted an input", "C14", "RepetitionMixingLayer(num_repetitions=1) over an input with R>1 repetitions evaluated to total mass R"),
    ("infinite values counted as missing", "C03", "CLTree([inf, nan]) was the mass of the whole table (log-likelihood 0): infinite entries passed validation and were summed out like missing ones, e.g. cltree over {0,1}, K=2, row [inf, nan]"),
    ("truncated values just below an integer", "C03", "CLTree on a complete row holding 0.9999998 used category 0, with a missing value in the batch category 1"),
    ("wrong over discrete domains other than 0..K-1", "C08", "PiecewiseLinear over Domain.discrete_range(3, 5) sampled the values 0..2; over discrete_bins([-1, 1]) its total mass was 2/3"),
    ("histogram leaf lost its probability floor", "C04", "Histogram(min_prob=0.1, probs=[0.001, 0.999]).marginalize([other]) evaluated to log 0.001 instead of log 0.1"),
    ("parameter records of conditional Gamma leaves", "C34", "the leaf-parameter records of a conditional Gamma leaf held the logarithms of the parameters it was drawn with"),
    ("marginalised leaves lost validate_args", "C04", "a leaf built with validate_args=False lost the setting when marginalised: the marginal rejected values the leaf scores"),
    ("counts given per feature were spread over the repetitions", "C14", "Binomial and NegativeBinomial laid per-feature counts out along the repetitions (or rejected them)"),
    ("piecewise-linear leaves could not be marginalised", "C04", "PiecewiseLinear.marginalize raised TypeError for every request"),
    ("Prometheus drops row clusters whose columns are uncorrelated", "C12", "affinity exactly 0 removed the pair from the spanning tree: clusters were dropped from the mixture"),
    ("maximum spanning tree enumeration ignores its edge constraints", "C13", "topk_mst(minimize=False) returned one tree only and integer weight matrices raised"),
    ("randomly initialised HCLTs lose their hidden categories", "C13", "learn_hclt_*(init='random') built transitions with one output channel: the hidden variables below the root had a single state"),
    ("CLTree mutual information uses marginals", "C13", "smoothed pairwise and single tables disagreed: a skewed variable gained spurious mutual information and the tree was not optimal"),
    ("CLTree evaluates parents that contain a cycle", "C14", "a parents vector with a cycle was silently evaluated as an unnormalised product"),
    ("Cat over channels rejects inputs", "C14", "Cat(dim=2)/Sum mixed the channels of inputs whose variables are arranged differently: features mixed different variables"),
    ("equal scopes have equal hashes", "C15", "scopes equal up to the order of their variables had different hashes; comparing a scope with another type raised AttributeError"),
    ("scopes given as tensors or arrays", "C15", "a scope built from a tensor held tensors: it was unequal to the same scope of integers"),
    ("leaves reject zero output channels", "C14", "leaves accepted zero output channels or repetitions"),
    ("leaves accept their scope as an iterator", "C14", "a leaf whose scope was given as a generator got an empty scope"),
    ("leaf parameters cannot enlarge the shape", "C14", "leaf parameters of a wrong shape were broadcast and enlarged the leaf beyond its declared shape; SplitConsecutive produced more parts than requested"),
    ("given per feature (and channel) keep their declared axes", "C14", "leaf parameters given per feature (and channel) were broadcast along the wrong axes"),
    ("Categorical, Uniform and Hypergeometric parameters given per feature", "C14", "Categorical, Uniform and Hypergeometric parameters given per feature were broadcast along the wrong axes"),
    ("EinsumLayer reused the normalised weights", "C16", "EinsumLayer kept using the cached normalised weights of parameters that were replaced"),
    ("modules own the weights and parameters", "C16", "weights and parameters set on a module stayed aliases of the caller's tensors (or of another module's)"),
    ("all-zero weight column gave NaN", "C20", "supervised estimation of a class with no rows gave NaN leaf parameters"),
    ("Laplace leaves with tiny, different scales", "C37", "inner products of Laplace leaves with tiny, different scales (both below about 1e-8) were computed with the formula for equal scales"),
    ("partition function below 1e-30", "C23", "SOCS/ExpSOCS over about a hundred or more variables (partition function below 1e-30) were not normalised"),
    ("outer products of an empty batch", "C17", "log-likelihood of an empty batch raised for outer products"),
    ("unseeded samples of the density estimator", "C21", "unseeded sample() calls of the density estimator repeated the same rows"),
    ("NaN gradients of inner products of Laplace leaves", "C22", "derivatives of Laplace inner and triple products were NaN for equal scales"),
    ("NaN inner products of Poisson leaves with large rates", "C22", "Poisson inner products were NaN for large rates (overflow of the Bessel factor)"),
    ("negative binomial leaves dropped all counts above 4096", "C22", "negative binomial inner products truncated the series at 4096 counts, whatever the tail"),
    ("histograms with a single bin had the wrong shape", "C22", "inner products of single-bin histograms were transposed (wrong shape)"),
    ("paired the features of leaves whose variables are ordered", "C22", "inner products paired feature i with feature i even when the leaves order their variables differently"),
    ("no absolute-weight proposal", "C23", "build_abs_weight_proposal (hence SOCS sampling) failed for signed sums with several output channels"),
    ("zero weights of signed sums had no derivative", "C23", "zero weights of a SignedSum received no derivative, and nodes that are exactly zero gave NaN derivatives"),
    ("information measures sampled only the first", "C24", "Monte Carlo entropy/MI/CMI drew samples of the first output channel and repetition only, while evaluating their mixture"),
    ("leave-one-out weight of evidence scored missing", "C24", "weight_of_evidence_leave_one_out returned 0 instead of NaN for entries that are missing in some rows of the batch"),
    ("weighted sums ignored evidence and the mass", "C25", "WeightedSum routed samples by raw weights: conditional samples ignored evidence, unnormalised inputs were drawn with wrong frequencies, inactive rows could raise"),
    ("tensorised PIC layers returned NaN", "C25", "tensorised layers returned NaN for all-impossible slices and masked padding; padding underflowed mixing layers"),
    ("TensorizedQPC cast its quadrature", "C25", "integer data truncated the quadrature points, float64 data raised, missing values gave NaN"),
    ("materialising shared integral functions failed", "C25", "F-sharing groups with several units raised IndexError; nested units of a group (n-ary partitions) recursed without end"),
    ("integral functions were evaluated with latent columns", "C25", "columns of y were bound to the wrong latent axis when the product's operands are not in ascending latent order"),
    ("differentiable routing turned excluded components into NaN", "C26", "differentiable conditional sampling multiplied the -inf log-likelihood of an excluded component by a zero routing weight: every logit became NaN and the row was never sampled"),
    ("leaf-parameter records mistook a categorical leaf's own axes", "C26", "return_leaf_params with as many generated rows as features, and as many channels as features, read the leaf's (features, channels, repetitions, K) logits as batched: ShapeError or wrong parameters"),
    ("differentiable leaf-parameter records rejected entries generated by another leaf", "C26", "differentiable sampling with return_leaf_params raised ShapeError when a mixture over concatenated leaves sent only some features of a row to one of them"),
    ("joint encoder ignored the latent permutation when sampling", "C27", "ConvPcJointEncoder(perm_latents=True) with as many latents as fusion features: encode/sample routed latents without the permutation the likelihood uses, so draws followed another distribution"),
    ("ProdConv sampling routed padded images", "C05", "sampling a ProdConv with padding cut the upsampled routing to the first input-size positions instead of cropping the border: samples, conditional samples and MPE of padded ConvPcs followed wrong patches"),
    ("ConvPc padding dropped the last rows", "C01", "ConvPc over images needing an odd padding (3x3 with depth 1 and kernel 2) could not be evaluated: the last row and column were not covered"),
    ("ProdConv claimed the variables of rows", "C01", "ProdConv over 3x3 with a 2x2 kernel kept the dropped row and column in its scope although they are not modelled"),
    ("interval evidence open or below the support", "C28", "log_likelihood_interval of exponential, gamma and log-normal leaves raised ValueError when the lower bound is open (NaN, -inf) or lies below the support"),
    ("structure statistics, tree view and pictures showed", "C30", "get_structure_stats reported one node and zero parameters for Einet and NaiveBayes (and SOCS); tree views and pictures of Einet, NaiveBayes, SOCS and wrappers ended at the root"),
    ("default sample table was narrower than the model", "C31", "sample()/mpe() without data on a model whose variables are not exactly columns 0..n-1 raised IndexError: the table had one column per variable instead of one per index"),
    ("SOSModel and ExpSOSModel default sample table", "C31", "SOSModel.sample without data built a table too narrow for a scope with gaps"),
    ("exact entropy indexed a table narrower", "C31", "entropy(method=\"exact\") (and the mutual informations built on it) raised IndexError for models whose variables are not exactly columns 0..n-1"),
    ("SOCS sampling could not fill a table wider", "C31", "SOCS.sample(data=...) raised a shape mismatch when the table has columns beyond the highest variable"),
    ("ImageWrapper could not evaluate or sample an image with marginalized", "C32", "after ImageWrapper.marginalize every query raised IndexError (or read the wrong pixels): the smaller image was flattened into columns 0..k-1 although the remaining variables keep their numbers"),
    ("ImageWrapper sampling bypassed", "C32", "an ImageWrapper around RatSPN with several root nodes drew images of the first class only, and around SOCS returned only missing pixels"),
    ("CLTree learned its tree from reordered columns", "C31", "a CLTree whose scope is not in ascending order learned its tree from the columns in scope order but used it with sorted variables, so training gave a different model than over ascending columns"),
    ("ElementwiseSum sampling raised KeyError when only other parts", "C33", "sampling a circuit with an ElementwiseSum in one branch and evidence in another raised KeyError"),
    ("RatSPN and Einet reported the repetitions they mix away", "C33", "a RatSPN or Einet with several repetitions could not be combined with other modules by products and sums: shapes and scope tables declared R repetitions where evaluation returns one"),
    ("differentiable sampling could not route into mixed repetitions", "C26", "differentiable sampling of a RatSPN or Einet with several repetitions through a circuit around it raised InvalidParameterError: the incoming route had to be as wide as the repetitions it mixes away"),
    ("interval inference on conditional leaves silently used", "C34", "interval queries on conditional leaves returned the same mass for every evidence row (that of unused default parameters); now refused"),
    ("Bernoulli, Binomial and NegativeBinomial leaves with probabilities of exactly", "C35", "Bernoulli(probs=0.) or probs=1., likewise Binomial and NegativeBinomial, returned NaN log-likelihoods"),
    ("signed, weighted, tabular and fixed-parameter modules shared", "C16", "SignedSum, SignedCategorical, CLTree, Hypergeometric, Uniform, Histogram, Binomial/NegativeBinomial total_count and WeightedSum kept the caller's tensor, so later edits of it changed the model; WeightedSum.weights accepted negative values"),
    ("weighted sums had NaN gradients", "C35", "WeightedSum gave NaN gradients for the whole batch when one row was impossible or a weight was zero"),
    ("Gamma estimates lost their digits", "C09", "single-precision Gamma estimates of data with a small spread (mean 1000, deviation 1) were off by a factor of two"),
    ("replace() left a static method", "C36", "replace(Scope.join_all, f) left join_all an ordinary method afterwards, so calls on instances failed"),
    ("Factorize turned a zero-probability feature into NaN", "C35", "RAT-SPN and top-down Einet returned NaN for rows with one zero-probability feature: Factorize multiplied -inf by the zeros of its assignment matrix"),
]
import sys
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixed_extra.json")
if os.path.exists(extra):
    T += [tuple(x) for x in json.load(open(extra))]
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
p = os.path.join(H, "KNOWN_FINDINGS.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
d["fixed"] = []
used = set()
for subj, prop, what in T:
    c = [l.split(" ", 1)[0] for l in log if subj in l]
    if len(c) != 1:
        sys.exit(f"{subj}: {c}")
    used.add(c[0])
    d["fixed"].append(f"fixed: property={prop} {c[0]} {what}")
for l in log:
    if " fix:" in l and l.split()[0] not in used:
        print("not listed:", l)
json.dump(d, open(p, "w"), indent=1)
