From 93760857f59cb161f8c28c6e6ad8ba0d312ba742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 001/106] fix: ElementwiseProduct routing clobbered all channel
 indices when one input has a single channel

The repeated index tensor is an expanded view; writing 0 for the broadcast
input overwrote the index of every other input as well.
---
 spflow/modules/products/elementwise_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index ee2d008..5bcc77c 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -194,7 +194,7 @@ class ElementwiseProduct(BaseProduct):
 
         num_inputs = len(self.inputs)
         if not output_ids.is_floating_point():
-            mapped = repeat(output_ids, "b f -> b f i", i=num_inputs)
+            mapped = repeat(output_ids, "b f -> b f i", i=num_inputs).clone()
             for i, inp in enumerate(self.inputs):
                 if int(inp.out_shape.channels) == 1:
                     mapped[..., i] = 0
-- 
2.43.0


From 3e159279ad32ddb75425aa8fe830ca4a9312e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 002/106] fix: RepetitionMixingLayer sampled its repetition
 from the sum of all channels' logits

Every output channel mixes over repetitions with its own weights; route with
the weights of the channel that was requested.
---
 spflow/modules/sums/repetition_mixing_layer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 2a58ee3..52ded72 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -9,7 +9,12 @@ from spflow.exceptions import InvalidParameterCombinationError, MissingCacheErro
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
-from spflow.utils.sampling_context import SamplingContext, sample_from_logits
+from spflow.utils.sampling_context import (
+    SamplingContext,
+    index_tensor,
+    repeat_channel_index,
+    sample_from_logits,
+)
 
 
 class RepetitionMixingLayer(Sum):
@@ -136,7 +141,11 @@ class RepetitionMixingLayer(Sum):
             log_posterior = log_posterior.log_softmax(dim=3)
             logits = log_posterior
 
-        rep_logits = logits.sum(-2)
+        # Each output channel has its own distribution over repetitions: use the routed one.
+        c_idxs = repeat_channel_index(
+            sampling_ctx.channel_index, "b f co -> b f co r", r=int(logits.shape[-1])
+        )
+        rep_logits = index_tensor(logits, index=c_idxs, dim=2, is_differentiable=sampling_ctx.is_differentiable)
         rep_samples = sample_from_logits(
             logits=rep_logits,
             dim=-1,
-- 
2.43.0


From 337cc677170016f616d64a3cc36e2daec0ecc753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 003/106] fix: MPE of Bernoulli(p=0.5) and Uniform leaves
 returned NaN

torch reports NaN where a mode is not unique; complete with a density
maximizer instead.
---
 spflow/modules/leaves/bernoulli.py |  4 ++++
 spflow/modules/leaves/leaf.py      | 12 ++++++++++--
 spflow/modules/leaves/uniform.py   |  4 ++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index cd21076..ba37be6 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -98,6 +98,10 @@ class Bernoulli(LeafModule):
         """Return a distribution class that supports differentiable sampling."""
         return BernoulliWithDifferentiableSampling
 
+    def _distribution_mode(self, dist: torch.distributions.Distribution) -> Tensor:
+        """Return a maximizer; both outcomes are modes at p=0.5 (where torch reports NaN)."""
+        return (dist.probs >= 0.5).to(dist.probs.dtype)
+
     def params(self) -> dict[str, Tensor]:
         """Returns distribution parameters."""
         return {"logits": self.logits}
diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 185229b..9b8bace 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -236,6 +236,14 @@ class LeafModule(Module, ABC):
         """
         return self.distribution().mode
 
+    def _distribution_mode(self, dist: torch.distributions.Distribution) -> Tensor:
+        """Return a density maximizer of ``dist`` for MPE.
+
+        ``torch.distributions`` reports NaN where the mode is not unique; subclasses for which
+        that can happen override this with a concrete maximizer.
+        """
+        return dist.mode
+
     def marginalized_params(self, indices: list[int]) -> dict[str, Tensor]:
         """Return parameters marginalized to specified indices.
 
@@ -672,7 +680,7 @@ class LeafModule(Module, ABC):
                         f"MPE sampling requires a distribution with a 'mode' attribute, but "
                         f"{dist.__class__.__name__} does not provide one."
                     )
-                samples = dist.mode
+                samples = self._distribution_mode(dist)
 
                 if samples.dim() == 2:
                     samples = rearrange(samples, "b f -> b f 1 1")
@@ -681,7 +689,7 @@ class LeafModule(Module, ABC):
             else:
                 # Get mode of distribution as MPE
                 dist = self.distribution(with_differentiable_sampling=sampling_ctx.is_differentiable)
-                samples = rearrange(dist.mode, "f ci r -> 1 f ci r")
+                samples = rearrange(self._distribution_mode(dist), "f ci r -> 1 f ci r")
 
             if samples.ndim == 4:
                 if not self.is_conditional:
diff --git a/spflow/modules/leaves/uniform.py b/spflow/modules/leaves/uniform.py
index e4b212a..175f444 100644
--- a/spflow/modules/leaves/uniform.py
+++ b/spflow/modules/leaves/uniform.py
@@ -91,6 +91,10 @@ class Uniform(LeafModule):
         """Returns the mode (midpoint) of the distribution."""
         return (self.low + self.high) / 2
 
+    def _distribution_mode(self, dist: torch.distributions.Distribution) -> Tensor:
+        """Return the midpoint; every point is a mode (torch reports NaN)."""
+        return (dist.low + dist.high) / 2
+
     def params(self) -> dict[str, Tensor]:
         """Returns distribution parameters."""
         return {"low": self.low, "high": self.high}
-- 
2.43.0


From c139794cc0e37f092e791db2ca5988ef9f707438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 004/106] fix: Bernoulli/Geometric MLE stored infinite logits
 when the estimate is exactly one

Keep the estimate inside the open unit interval as Binomial already does.
---
 spflow/modules/leaves/bernoulli.py | 2 +-
 spflow/modules/leaves/geometric.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index ba37be6..ef00ff9 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -126,7 +126,7 @@ class Bernoulli(LeafModule):
         p_est = n_success / n_total
 
         # Handle edge cases (NaN, zero, or near-zero p) before broadcasting
-        p_est = _handle_mle_edge_cases(p_est, lb=0.0)
+        p_est = _handle_mle_edge_cases(p_est, lb=0.0, ub=1.0)
 
         return {"probs": p_est}
 
diff --git a/spflow/modules/leaves/geometric.py b/spflow/modules/leaves/geometric.py
index 6160511..7fbf8bb 100644
--- a/spflow/modules/leaves/geometric.py
+++ b/spflow/modules/leaves/geometric.py
@@ -127,7 +127,7 @@ class Geometric(LeafModule):
             p_est = p_est - (p_est * (1 - p_est) / n_total)
 
         # Handle edge cases (NaN, zero, or near-zero p) before broadcasting
-        p_est = _handle_mle_edge_cases(p_est, lb=0.0)
+        p_est = _handle_mle_edge_cases(p_est, lb=0.0, ub=1.0)
 
         return {"probs": p_est}
 
-- 
2.43.0


From f7d59e7f41f50a7b91ea6f4b37286bbbcbef6a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 005/106] fix: Laplace MLE ignored sample weights for the
 location

The location estimate was the plain median, so weighted MLE and EM produced a
location independent of the responsibilities (and dropped the channel axis).
---
 spflow/modules/leaves/laplace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/laplace.py b/spflow/modules/leaves/laplace.py
index 404340e..06e6c31 100644
--- a/spflow/modules/leaves/laplace.py
+++ b/spflow/modules/leaves/laplace.py
@@ -97,7 +97,11 @@ class Laplace(LeafModule):
         n_total = weights.sum(dim=0)
 
         # ---- 1. Correct Laplace MLE for loc: weighted median ----
-        loc_est = torch.median(data, dim=0).values
+        order = data.argsort(dim=0).expand(weights.shape)
+        cum_weights = weights.gather(0, order).cumsum(dim=0)
+        median_rank = (cum_weights < 0.5 * cum_weights[-1:]).sum(dim=0, keepdim=True)
+        median_row = order.gather(0, median_rank)
+        loc_est = data.expand(weights.shape).gather(0, median_row).squeeze(0)
 
         # ---- 2. Correct Laplace MLE for scale ----
         abs_dev = torch.abs(data - loc_est)
-- 
2.43.0


From ee12fd1db0ba22f416b36258cb471f21d54d8c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 006/106] fix: bias-corrected leaf MLE depended on the number
 of other features and channels

Weights were normalised over the whole (row, feature, channel, repetition)
tensor, so each column's effective sample size was N/(F*C*R) instead of N.
---
 spflow/modules/leaves/leaf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 9b8bace..7a4484a 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -583,6 +583,11 @@ class LeafModule(Module, ABC):
         # Step 2: Apply NaN strategy (drop/impute)
         scoped_data, normalized_weights = apply_nan_strategy(nan_strategy, scoped_data, self.device, weights)
 
+        # Each parameter is estimated from its own weighted sample: give every column the total
+        # weight of the (effective) number of rows, independent of the other columns.
+        column_totals = normalized_weights.sum(dim=0, keepdim=True)
+        normalized_weights = normalized_weights * (scoped_data.shape[0] / column_totals)
+
         return scoped_data, normalized_weights
 
     def maximum_likelihood_estimation(
-- 
2.43.0


From 5967535e9fe00e71414740bd65fa4270f80aaf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 007/106] fix: ElementwiseProduct rejected splits whose channel
 count is not divisible by the number of splits

Split.get_out_shapes reported the channel count in the feature position of the
last split, so the shape check saw non-broadcastable inputs.
---
 spflow/modules/ops/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/modules/ops/split.py b/spflow/modules/ops/split.py
index 63fe222..15cd101 100644
--- a/spflow/modules/ops/split.py
+++ b/spflow/modules/ops/split.py
@@ -205,7 +205,7 @@ class Split(Module, ABC):
             if remainder == 0:
                 return [(event_shape[0], quotient)] * self.num_splits
             else:
-                return [(event_shape[0], quotient)] * (self.num_splits - 1) + [(event_shape[1], remainder)]
+                return [(event_shape[0], quotient)] * (self.num_splits - 1) + [(event_shape[0], remainder)]
 
     @property
     @abstractmethod
-- 
2.43.0


From c9ac7fdf7e76ce3b0118be87242c607b7cf81938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 008/106] fix: learn_cnet raised InvalidWeightsError when a
 category was absent from a data slice

A conditioning value without any rows got a branch of weight zero, which Sum
rejects; leave that branch out.
---
 spflow/learn/cnet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spflow/learn/cnet.py b/spflow/learn/cnet.py
index 8edc05a..881e1b0 100644
--- a/spflow/learn/cnet.py
+++ b/spflow/learn/cnet.py
@@ -248,6 +248,10 @@ def learn_cnet(
         if len(non_empty) == 1:
             return branches[non_empty[0][0]]
 
+        # Sum weights must be positive: values never observed in this slice get no branch.
+        branches = [branches[i] for i, _ in non_empty]
+        weights_list = [w for _, w in non_empty]
+
         # Create Sum node over branches
         # Weight shape needs to account for each child's out_channels
         # Sum expects: (features, in_channels, out_channels, repetitions)
-- 
2.43.0


From 4beddedad3a1c917eb9d134307b49ee3e21f368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 009/106] fix: RatSPN/Einet with several classes ignored
 evidence when choosing the class

sample_with_evidence/MPE drew the class from its prior; weight it with the
cached per-class likelihoods of the evidence.
---
 spflow/zoo/einet/einet.py | 5 +++++
 spflow/zoo/rat/rat_spn.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/spflow/zoo/einet/einet.py b/spflow/zoo/einet/einet.py
index 5605810..475f232 100644
--- a/spflow/zoo/einet/einet.py
+++ b/spflow/zoo/einet/einet.py
@@ -454,6 +454,11 @@ class Einet(Module, Classifier):
             logits = rearrange(logits, "1 co 1 -> 1 1 co")
             logits = repeat(logits, "1 1 co -> b 1 co", b=batch_size)
 
+            # With cached evidence the class follows its posterior, not its prior.
+            class_lls = cache["log_likelihood"].get(self.root_node.inputs) if "log_likelihood" in cache else None
+            if class_lls is not None:
+                logits = logits + rearrange(class_lls, "b 1 co 1 -> b 1 co")
+
             if sampling_ctx.is_mpe:
                 sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
             else:
diff --git a/spflow/zoo/rat/rat_spn.py b/spflow/zoo/rat/rat_spn.py
index 21c08b4..e576eaa 100644
--- a/spflow/zoo/rat/rat_spn.py
+++ b/spflow/zoo/rat/rat_spn.py
@@ -302,6 +302,11 @@ class RatSPN(Module, Classifier):
             logits = rearrange(logits, "1 co 1 -> 1 1 co")
             logits = repeat(logits, "1 1 co -> b 1 co", b=batch_size)  # shape [b, 1, n_root_nodes]
 
+            # With cached evidence the class follows its posterior, not its prior.
+            class_lls = cache["log_likelihood"].get(self.root_node.inputs) if "log_likelihood" in cache else None
+            if class_lls is not None:
+                logits = logits + rearrange(class_lls, "b 1 co 1 -> b 1 co")
+
             if sampling_ctx.is_mpe:
                 sampling_ctx.channel_index = torch.argmax(logits, dim=-1)
             else:
-- 
2.43.0


From 6994e5fca2f8f1e26a8a3958e97444feb243234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 010/106] fix: learn_cnet left the tree leaf of a single-row
 slice uninitialised

---
 spflow/learn/cnet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/learn/cnet.py b/spflow/learn/cnet.py
index 881e1b0..e7d94f4 100644
--- a/spflow/learn/cnet.py
+++ b/spflow/learn/cnet.py
@@ -306,6 +306,9 @@ def _create_leaf(
             K=K,
             alpha=alpha,
         )
+        if data_slice.shape[0] == 1:
+            # Tree estimation needs at least two rows: a lone row counts twice.
+            data_slice = data_slice.repeat(2, 1)
         if data_slice.shape[0] >= 2:
             leaf.maximum_likelihood_estimation(data_slice)
         return leaf
-- 
2.43.0


From 226ca974f82d0791804225fa95b9fc5baced8ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 011/106] fix: conditional sampling raised when an unrouted
 alternative is impossible under the evidence

---
 spflow/modules/conv/sum_conv.py               |  5 ++--
 spflow/modules/einsum/einsum_layer.py         |  6 ++--
 spflow/modules/einsum/linsum_layer.py         |  6 ++--
 spflow/modules/sums/elementwise_sum.py        |  6 ++--
 .../modules/sums/repetition_mixing_layer.py   | 29 +++++++++++--------
 spflow/modules/sums/sum.py                    |  6 ++--
 spflow/utils/sampling_context.py              | 18 ++++++++++++
 7 files changed, 46 insertions(+), 30 deletions(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index 46018a7..de9fdca 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -19,6 +19,7 @@ from spflow.utils.cache import Cache, cached
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
+    condition_logits,
     index_tensor,
     repeat_channel_index,
     repeat_repetition_index,
@@ -383,8 +384,8 @@ class SumConv(Module):
         # Compute posterior if we have cached likelihoods
         if input_lls is not None:
             # input_lls: (batch, H, W, in_c)
-            log_posterior = selected_logits + input_lls
-            log_posterior = F.log_softmax(log_posterior, dim=-1)
+            routed = rearrange(sampling_ctx.mask, "b (h w) -> b h w", h=H, w=W)
+            log_posterior = condition_logits(selected_logits, input_lls, routed)
         else:
             log_posterior = F.log_softmax(selected_logits, dim=-1)
 
diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index f348048..6739cb4 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -40,6 +40,7 @@ from spflow.utils.cache import Cache, cached
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
+    condition_logits,
     index_tensor,
     repeat_channel_index,
     repeat_repetition_index,
@@ -530,10 +531,7 @@ class EinsumLayer(Module):
             joint_ll_flat = rearrange(joint_ll, "b f i j -> b f (i j)")
 
             # Compute posterior
-            log_prior = logits_flat
-            log_posterior = log_prior + joint_ll_flat
-            log_posterior = log_posterior - torch.logsumexp(log_posterior, dim=-1, keepdim=True)
-            logits_flat = log_posterior
+            logits_flat = condition_logits(logits_flat, joint_ll_flat, sampling_ctx.mask)
 
         indices = sample_from_logits(
             logits=logits_flat,
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 01b925a..101867b 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -29,6 +29,7 @@ from spflow.utils.cache import Cache, cached
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
+    condition_logits,
     index_tensor,
     repeat_channel_index,
     repeat_repetition_index,
@@ -407,10 +408,7 @@ class LinsumLayer(Module):
             prod_ll = left_ll + right_ll  # (B, D, C)
 
             # Compute posterior
-            log_prior = logits
-            log_posterior = log_prior + prod_ll
-            log_posterior = log_posterior - torch.logsumexp(log_posterior, dim=-1, keepdim=True)
-            logits = log_posterior
+            logits = condition_logits(logits, prod_ll, sampling_ctx.mask)
 
         indices = sample_from_logits(
             logits=logits,
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 6b587dd..9c468ba 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -23,6 +23,7 @@ from spflow.utils.projections import (
 )
 from spflow.utils.sampling_context import (
     SamplingContext,
+    condition_logits,
     index_tensor,
     repeat_channel_index,
     repeat_repetition_index,
@@ -422,10 +423,7 @@ class ElementwiseSum(Module):
             )
 
             # Compute log posterior by reweighing logits with input lls
-            log_prior = logits
-            log_posterior = log_prior + input_lls
-            log_posterior = log_posterior.log_softmax(dim=2)
-            logits = log_posterior
+            logits = condition_logits(logits, input_lls, sampling_ctx.mask)
 
         # Sample/MPE over the input-module axis.
         cids_stack = sample_from_logits(
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 52ded72..735b222 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -11,6 +11,7 @@ from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
 from spflow.utils.sampling_context import (
     SamplingContext,
+    condition_logits,
     index_tensor,
     repeat_channel_index,
     sample_from_logits,
@@ -129,23 +130,27 @@ class RepetitionMixingLayer(Sum):
         batch_size = int(sampling_ctx.channel_index.shape[0])
         logits = repeat(self.logits, "f co r -> b f co r", b=batch_size)
 
-        # Check if we have cached input log-likelihoods to compute posterior
-        if "log_likelihood" in cache and cache["log_likelihood"].get(self.inputs) is not None:
-            # Compute log posterior by reweighing logits with input lls
-            input_lls = cache["log_likelihood"][self.inputs]
-            log_prior = logits
-            # Only unsqueeze if input_lls has fewer dims than log_prior
-            if input_lls.dim() < log_prior.dim():
-                input_lls = rearrange(input_lls, "... -> ... 1")
-            log_posterior = log_prior + input_lls
-            log_posterior = log_posterior.log_softmax(dim=3)
-            logits = log_posterior
-
         # Each output channel has its own distribution over repetitions: use the routed one.
         c_idxs = repeat_channel_index(
             sampling_ctx.channel_index, "b f co -> b f co r", r=int(logits.shape[-1])
         )
         rep_logits = index_tensor(logits, index=c_idxs, dim=2, is_differentiable=sampling_ctx.is_differentiable)
+
+        # Check if we have cached input log-likelihoods to compute posterior
+        if "log_likelihood" in cache and cache["log_likelihood"].get(self.inputs) is not None:
+            # Reweigh the logits of the routed channel with its input lls
+            input_lls = cache["log_likelihood"][self.inputs]
+            # Only unsqueeze if input_lls has fewer dims than the logits
+            if input_lls.dim() < logits.dim():
+                input_lls = rearrange(input_lls, "... -> ... 1")
+            input_lls = index_tensor(
+                input_lls.expand_as(logits),
+                index=c_idxs,
+                dim=2,
+                is_differentiable=sampling_ctx.is_differentiable,
+            )
+            rep_logits = condition_logits(rep_logits, input_lls, sampling_ctx.mask)
+
         rep_samples = sample_from_logits(
             logits=rep_logits,
             dim=-1,
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index b8934b2..48b685e 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -20,6 +20,7 @@ from spflow.utils.projections import (
 )
 from spflow.utils.sampling_context import (
     SamplingContext,
+    condition_logits,
     repeat_channel_index,
     index_tensor,
     repeat_repetition_index,
@@ -359,10 +360,7 @@ class Sum(Module):
                 is_differentiable=sampling_ctx.is_differentiable,
             )
 
-            log_prior = logits
-            log_posterior = log_prior + input_lls
-            log_posterior = log_posterior.log_softmax(dim=2)
-            logits = log_posterior
+            logits = condition_logits(logits, input_lls, sampling_ctx.mask)
 
         # Sample from categorical distribution defined by weights to obtain indices into input channels
         new_channel_index = sample_from_logits(
diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index af8cc66..35fe72e 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -1144,6 +1144,24 @@ def index_tensor(
         return tensor.squeeze(dim)
 
 
+def condition_logits(log_prior: Tensor, input_lls: Tensor, mask: Tensor) -> Tensor:
+    """Reweigh choice logits by the evidence log-likelihoods of the alternatives.
+
+    Positions which are not routed (``mask`` is False) keep their prior: the alternatives there may all
+    be impossible under the evidence of that row, which has no defined posterior and is never used.
+
+    Args:
+        log_prior (Tensor): Prior logits of shape (batch, features, choices).
+        input_lls (Tensor): Log-likelihoods of the alternatives, broadcastable to ``log_prior``.
+        mask (Tensor): Boolean routing mask of shape (batch, features).
+
+    Returns:
+        Tensor: Posterior logits of shape (batch, features, choices).
+    """
+    log_posterior = (log_prior + input_lls).log_softmax(dim=-1)
+    return torch.where(mask.unsqueeze(-1), log_posterior, log_prior)
+
+
 def sample_from_logits(
     logits: torch.Tensor,
     dim: int,
-- 
2.43.0


From 3a0cd326e5bb1d20afd9dd651ba820db7da28051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 012/106] fix: single-input Einsum/Linsum sampling interleaved
 the routing mask regardless of the split type

---
 spflow/modules/einsum/einsum_layer.py | 2 +-
 spflow/modules/einsum/linsum_layer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 6739cb4..0ae7f54 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -564,7 +564,7 @@ class EinsumLayer(Module):
         else:
             # Single input with Split module - use generic merge_split_indices
             full_indices = self.inputs.merge_split_tensors(left_indices, right_indices)
-            full_mask = repeat(sampling_ctx.mask, "b f -> b (f two)", two=2)
+            full_mask = self.inputs.merge_split_tensors(sampling_ctx.mask, sampling_ctx.mask)
 
             child_ctx = sampling_ctx.with_routing(channel_index=full_indices, mask=full_mask)
             self.inputs._sample(data=data, cache=cache, sampling_ctx=child_ctx)
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 101867b..51e6cd2 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -432,7 +432,7 @@ class LinsumLayer(Module):
             # Single input with Split module - use generic merge_split_indices
             # For LinsumLayer, both left and right use the same indices (linear combination)
             full_indices = self.inputs.merge_split_tensors(indices, indices)
-            full_mask = repeat(sampling_ctx.mask, "b f -> b (f two)", two=2)
+            full_mask = self.inputs.merge_split_tensors(sampling_ctx.mask, sampling_ctx.mask)
 
             child_ctx = sampling_ctx.with_routing(channel_index=full_indices, mask=full_mask)
             self.inputs._sample(data=data, cache=cache, sampling_ctx=child_ctx)
-- 
2.43.0


From b93411799b16e8a595a919d8d27e6298a727e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 013/106] fix: ElementwiseProduct shape check divided the
 channels instead of the features of a split input

---
 spflow/modules/products/elementwise_product.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/spflow/modules/products/elementwise_product.py b/spflow/modules/products/elementwise_product.py
index 5bcc77c..f0baad8 100644
--- a/spflow/modules/products/elementwise_product.py
+++ b/spflow/modules/products/elementwise_product.py
@@ -102,11 +102,8 @@ class ElementwiseProduct(BaseProduct):
                 raise ValueError("num_splits must be the same for all inputs")
             out_f = self.inputs[0].out_shape.features
             out_c = self.inputs[0].out_shape.channels
-            if out_f == 1:
-                out_f_computed = 1
-            else:
-                out_f_computed = int(out_f // self.num_splits)
-            shapes = inputs[0].get_out_shapes((out_f_computed, out_c))
+            # The split divides the feature axis (dim=1 of its event shape), every channel is kept.
+            shapes = [(shape[1], shape[0]) for shape in inputs[0].get_out_shapes((out_c, out_f))]
         else:
             shapes = [(inp.out_shape.features, inp.out_shape.channels) for inp in inputs]
 
-- 
2.43.0


From 93df635bf0efddd3ceb225758e84878ebbd9649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 014/106] fix: OuterProduct over a split input reported a
 malformed feature/scope map

---
 spflow/modules/products/outer_product.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index 9544c37..38f36e5 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -148,8 +148,9 @@ class OuterProduct(BaseProduct):
     def feature_to_scope(self) -> list[Scope]:
         out = []
         for r in range(self.out_shape.repetitions):
-            if isinstance(self.inputs, Split):
-                scope_lists_r = self.inputs.feature_to_scope[
+            if self.input_is_split:
+                split = self.inputs if isinstance(self.inputs, Split) else self.inputs[0]
+                scope_lists_r = split.feature_to_scope[
                     ..., r
                 ]  # Shape: (num_features_per_split, num_splits)
                 scope_lists_r = [scope_lists_r[:, i] for i in range(self.num_splits)]
-- 
2.43.0


From 1c9d0bb72da9955f682e9a815f1e07349408ecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 015/106] fix: ElementwiseSum.marginalize indexed its weights
 by variable instead of by feature

---
 spflow/modules/sums/elementwise_sum.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 9c468ba..feace8a 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -253,7 +253,7 @@ class ElementwiseSum(Module):
         marg_input = None
 
         mutual_rvs = set(module_scope.query).intersection(set(marg_rvs))
-        module_weights = self.weights
+        module_log_weights = self.log_weights.detach()
 
         # module scope is being fully marginalized over
         if len(mutual_rvs) == len(module_scope.query):
@@ -270,10 +270,13 @@ class ElementwiseSum(Module):
 
             # if marginalized input is not None
             if marg_input:
-                indices = [self.scope.query.index(el) for el in list(mutual_rvs)]
-                mask = torch.ones(len(module_scope.query), device=module_weights.device, dtype=torch.bool)
-                mask[indices] = False
-                module_weights = module_weights[mask]
+                # a feature vanishes only if all of its variables are marginalized
+                keep = [
+                    not set(scope.query).issubset(mutual_rvs)
+                    for scope in self.inputs[0].feature_to_scope[:, 0]
+                ]
+                mask = torch.tensor(keep, device=module_log_weights.device, dtype=torch.bool)
+                module_log_weights = module_log_weights[mask]
 
         else:
             marg_input = self.inputs
@@ -282,7 +285,13 @@ class ElementwiseSum(Module):
             return None
 
         else:
-            return ElementwiseSum(inputs=[inp for inp in marg_input], weights=module_weights)
+            module = ElementwiseSum(
+                inputs=[inp for inp in marg_input],
+                out_channels=self._num_sums,
+                num_repetitions=self.out_shape.repetitions,
+            )
+            module.log_weights = module_log_weights.clone()
+            return module
 
     def _sample(
         self,
-- 
2.43.0


From c4fd58865a5a2662e713c6c9a4e9e904fd6a2543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 016/106] fix: RepetitionMixingLayer rejected weights
 normalized over repetitions

---
 spflow/modules/sums/repetition_mixing_layer.py | 4 ++--
 spflow/modules/sums/sum.py                     | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 735b222..d0872c4 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -25,6 +25,8 @@ class RepetitionMixingLayer(Sum):
     Extends Sum with RAT-SPN specific optimizations.
     """
 
+    _SUM_DIM = 2
+
     def __init__(
         self,
         inputs: Module,
@@ -45,8 +47,6 @@ class RepetitionMixingLayer(Sum):
         if self.out_shape.channels != self.inputs.out_shape.channels:
             raise ValueError("out_channels must match the out_channels of the input module.")
 
-        self.sum_dim = 2
-
     @property
     def feature_to_scope(self) -> np.ndarray:
         return self.inputs.feature_to_scope
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 48b685e..bbaca17 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -44,6 +44,9 @@ class Sum(Module):
         logits (Parameter): Unnormalized log-weights for gradient optimization.
     """
 
+    # Weight axis the mixture is normalized over.
+    _SUM_DIM = 1
+
     def __init__(
         self,
         inputs: Module | list[Module],
@@ -106,7 +109,7 @@ class Sum(Module):
         else:
             self.inputs = inputs
 
-        self.sum_dim = 1
+        self.sum_dim = self._SUM_DIM
         self.scope = self.inputs.scope
 
         # ========== 5. SHAPE COMPUTATION (early, so shapes can be reused below) ==========
-- 
2.43.0


From 0e70802617f0cd908755f2795b103ac7570241b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 017/106] fix: RepetitionMixingLayer.marginalize raised
 IndexError

---
 .../modules/sums/repetition_mixing_layer.py   | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index d0872c4..88f92e6 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -257,3 +257,43 @@ class RepetitionMixingLayer(Sum):
 
         # Recursively call EM on inputs
         self.inputs._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)
+
+    def marginalize(
+        self,
+        marg_rvs: list[int],
+        prune: bool = True,
+        cache: Cache | None = None,
+    ) -> RepetitionMixingLayer | None:
+        """Marginalize out specified random variables.
+
+        Args:
+            marg_rvs: Random variables to marginalize out.
+            prune: Whether to prune unnecessary modules.
+            cache: Cache for memoization.
+
+        Returns:
+            RepetitionMixingLayer | None: Marginalized layer, or None if the whole scope is marginalized.
+        """
+        mutual_rvs = set(self.scope.query).intersection(set(marg_rvs))
+        if len(mutual_rvs) == len(self.scope.query):
+            return None
+
+        log_weights = self.log_weights.detach()
+        marg_input = self.inputs
+        if mutual_rvs:
+            marg_input = self.inputs.marginalize(marg_rvs, prune=prune, cache=cache)
+            if marg_input is None:
+                return None
+            # a feature vanishes only if all of its variables are marginalized
+            keep = [
+                not set(scope.query).issubset(mutual_rvs) for scope in self.inputs.feature_to_scope[:, 0]
+            ]
+            log_weights = log_weights[torch.tensor(keep, device=log_weights.device, dtype=torch.bool)]
+
+        module = RepetitionMixingLayer(
+            inputs=marg_input,
+            out_channels=self.out_shape.channels,
+            num_repetitions=self.out_shape.repetitions,
+        )
+        module.log_weights = log_weights.clone()
+        return module
-- 
2.43.0


From 0dfa458d383c20e43a96ba01097e88c190601eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 018/106] fix: Sum.marginalize raised InvalidWeightsError when
 a weight underflows to zero

---
 spflow/modules/sums/sum.py | 39 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index bbaca17..1879a08 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -455,7 +455,7 @@ class Sum(Module):
         marg_input = None
 
         mutual_rvs = set(module_scope.query).intersection(set(marg_rvs))
-        module_weights = self.weights
+        module_log_weights = self.log_weights.detach()
 
         # module scope is being fully marginalized over
         if len(mutual_rvs) == len(module_scope.query):
@@ -486,31 +486,15 @@ class Sum(Module):
                     ).bool()
 
                     # Apply mask to weights for this repetition: (out_features, in_channels, out_channels)
-                    masked_weights_r = module_weights[:, :, :, r][mask]
+                    masked_weights_r = module_log_weights[:, :, :, r][mask]
                     masked_weights_list.append(masked_weights_r)
 
                 # Stack weights back along the repetition dimension
-                # Handle different repetition counts if needed
-                if all(w.shape[0] == masked_weights_list[0].shape[0] for w in masked_weights_list):
-                    # All repetitions have same number of features, can stack directly
-                    module_weights = torch.stack(masked_weights_list, dim=-1)
-                else:
-                    # Features differ across repetitions - this shouldn't happen in practice
-                    # but handle gracefully by keeping the largest
-                    max_features = max(w.shape[0] for w in masked_weights_list)
-                    padded_list = []
-                    for w in masked_weights_list:
-                        if w.shape[0] < max_features:
-                            padding = torch.zeros(
-                                max_features - w.shape[0],
-                                w.shape[1],
-                                w.shape[2],
-                                device=w.device,
-                                dtype=w.dtype,
-                            )
-                            w = torch.cat([w, padding], dim=0)
-                        padded_list.append(w)
-                    module_weights = torch.stack(padded_list, dim=-1)
+                if any(w.shape[0] != masked_weights_list[0].shape[0] for w in masked_weights_list):
+                    raise InvalidWeightsError(
+                        "Cannot marginalize 'Sum': the number of remaining features differs across repetitions."
+                    )
+                module_log_weights = torch.stack(masked_weights_list, dim=-1)
 
         else:
             marg_input = self.inputs
@@ -519,4 +503,11 @@ class Sum(Module):
             return None
 
         else:
-            return Sum(inputs=marg_input, weights=module_weights)
+            module = Sum(
+                inputs=marg_input,
+                out_channels=self.out_shape.channels,
+                num_repetitions=self.out_shape.repetitions,
+            )
+            # log-weights carry over exactly, also where the weight itself underflows to zero
+            module.log_weights = module_log_weights.clone()
+            return module
-- 
2.43.0


From 28bb6694c2a71fb46d151a3af86e5c1ed461c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 019/106] fix: Categorical leaves with a zero-probability
 category could not be marginalized

---
 spflow/modules/leaves/categorical.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/spflow/modules/leaves/categorical.py b/spflow/modules/leaves/categorical.py
index 52b7a4e..41f3aaa 100644
--- a/spflow/modules/leaves/categorical.py
+++ b/spflow/modules/leaves/categorical.py
@@ -72,13 +72,19 @@ class Categorical(LeafModule):
 
         # Initialize parameter with K categories
         param_shape = (*self._event_shape, K)
-        init_value = init_parameter(
-            param=param_source,
-            event_shape=param_shape,
-            init=lambda shape: torch.rand(shape).softmax(dim=-1),
-        )
-
-        logits_tensor = init_value if logits is not None else proj_convex_to_real(init_value)
+        if logits is not None:
+            # -inf logits are valid, they denote categories of probability zero
+            init_parameter(
+                param=logits.masked_fill(torch.isneginf(logits), 0.0), event_shape=param_shape, init=torch.rand
+            )
+            logits_tensor = logits
+        else:
+            init_value = init_parameter(
+                param=probs,
+                event_shape=param_shape,
+                init=lambda shape: torch.rand(shape).softmax(dim=-1),
+            )
+            logits_tensor = proj_convex_to_real(init_value)
 
         self._logits = nn.Parameter(logits_tensor)
 
-- 
2.43.0


From 8e5149ff872dc11885b847c03023c72253cd450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 020/106] fix: sample(data=...) and mpe(data=...) ignored the
 evidence when routing

---
 spflow/modules/module.py                | 15 ++++++++++++++-
 spflow/modules/wrapper/image_wrapper.py |  2 +-
 spflow/zoo/cms/joint.py                 |  2 +-
 spflow/zoo/rat/rat_spn.py               |  2 +-
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/spflow/modules/module.py b/spflow/modules/module.py
index 9dc8490..392a985 100644
--- a/spflow/modules/module.py
+++ b/spflow/modules/module.py
@@ -172,6 +172,19 @@ class Module(nn.Module, ABC):
 
         return data
 
+    def _evidence_cache(self, data: Tensor) -> Cache:
+        """Return the cache that routes sampling of ``data``.
+
+        Observed entries in ``data`` are evidence, so the forward log-likelihoods
+        that condition the routing decisions are computed up front.
+        """
+        cache = Cache()
+        missing = torch.isnan(data)
+        has_inputs = any(isinstance(m, Module) for m in self.modules() if m is not self)
+        if has_inputs and missing.any() and not missing.all():
+            self.log_likelihood(data, cache=cache)
+        return cache
+
     @abstractmethod
     def log_likelihood(
         self,
@@ -228,7 +241,7 @@ class Module(nn.Module, ABC):
         """
         data = self._prepare_sample_data(num_samples=num_samples, data=data)
         if cache is None:
-            cache = Cache()
+            cache = self._evidence_cache(data)
         sampling_ctx = SamplingContext(
             num_samples=data.shape[0],
             device=data.device,
diff --git a/spflow/modules/wrapper/image_wrapper.py b/spflow/modules/wrapper/image_wrapper.py
index 04c181c..5712f8c 100644
--- a/spflow/modules/wrapper/image_wrapper.py
+++ b/spflow/modules/wrapper/image_wrapper.py
@@ -268,7 +268,7 @@ class ImageWrapper(Wrapper):
         # Prepare data tensor
         data = self._prepare_sample_data(num_samples, data)
         if cache is None:
-            cache = Cache()
+            cache = self._evidence_cache(data)
 
         sampling_ctx = SamplingContext(
             num_samples=data.shape[0],
diff --git a/spflow/zoo/cms/joint.py b/spflow/zoo/cms/joint.py
index 8ae4588..18fa2ba 100644
--- a/spflow/zoo/cms/joint.py
+++ b/spflow/zoo/cms/joint.py
@@ -57,7 +57,7 @@ class JointLogLikelihood(Wrapper):
     ) -> Tensor | tuple[Tensor, list[LeafParamRecord]]:
         data = self._prepare_sample_data(num_samples=num_samples, data=data)
         if cache is None:
-            cache = Cache()
+            cache = self.module._evidence_cache(data)
         context_device = data.device if data is not None else None
         if context_device is None:
             try:
diff --git a/spflow/zoo/rat/rat_spn.py b/spflow/zoo/rat/rat_spn.py
index e576eaa..88f1a1a 100644
--- a/spflow/zoo/rat/rat_spn.py
+++ b/spflow/zoo/rat/rat_spn.py
@@ -281,7 +281,7 @@ class RatSPN(Module, Classifier):
         """
         data = self._prepare_sample_data(num_samples=num_samples, data=data)
         if cache is None:
-            cache = Cache()
+            cache = self._evidence_cache(data)
         batch_size = data.shape[0]
         sampling_ctx = SamplingContext(
             num_samples=batch_size,
-- 
2.43.0


From e71cf2cd7e6fda07a33ce583472e7194359da48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 021/106] fix: ElementwiseSum routed out-of-range channels to a
 broadcast single-channel input

---
 spflow/modules/sums/elementwise_sum.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index feace8a..3395d42 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -449,8 +449,15 @@ class ElementwiseSum(Module):
 
         for i, inp in enumerate(self.inputs):
             child_mask = sampling_ctx.mask & (selected_input == i)
+            child_channel_index = cids_in_channels_per_input
+            if inp.out_shape.channels == 1 and self.in_shape.channels > 1:
+                # A single-channel input is broadcast over all input channels.
+                if sampling_ctx.is_differentiable:
+                    child_channel_index = child_channel_index.sum(dim=-1, keepdim=True)
+                else:
+                    child_channel_index = torch.zeros_like(child_channel_index)
             sampling_ctx_cpy = sampling_ctx.with_routing(
-                channel_index=cids_in_channels_per_input,
+                channel_index=child_channel_index,
                 mask=child_mask,
             )
 
-- 
2.43.0


From b01ecdff1e05654536c7b073a7bbc17c3cd2b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 022/106] fix: ElementwiseSum EM step failed when one input is
 broadcast over channels

---
 spflow/modules/sums/elementwise_sum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 3395d42..02da07f 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -542,6 +542,8 @@ class ElementwiseSum(Module):
                 inp_ll = cache.get("log_likelihood", inp)
                 if inp_ll is None:
                     raise MissingCacheError("Input log-likelihoods not found in cache.")
+                if inp.out_shape.channels == 1 and self.in_shape.channels > 1:
+                    inp_ll = repeat(inp_ll, "b f 1 r -> b f ci r", ci=self.in_shape.channels)
                 input_lls.append(inp_ll)
             input_lls = torch.stack(input_lls, dim=3)
 
-- 
2.43.0


From 3ab7a05f16da16a01048e070eb4d959ba58b5396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 023/106] fix: Histogram mode ignored the bin widths

The mode returned the midpoint of the bin with the largest mass, which is not the densest bin when the bins
have different widths, so MPE completed a row with a value of lower density than another one.
---
 spflow/modules/leaves/histogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/histogram.py b/spflow/modules/leaves/histogram.py
index b3b65fc..fbe12d2 100644
--- a/spflow/modules/leaves/histogram.py
+++ b/spflow/modules/leaves/histogram.py
@@ -74,8 +74,8 @@ class HistogramDist:
 
     @property
     def mode(self) -> Tensor:
-        """Return mode as bin midpoint of the maximum-probability bin."""
-        max_idx = torch.argmax(self.probs, dim=-1)  # (F, C, R)
+        """Return mode as bin midpoint of the bin with maximum density."""
+        max_idx = torch.argmax(self._bin_densities, dim=-1)  # (F, C, R)
         mids = self._bin_midpoints.to(device=max_idx.device, dtype=self._logits.dtype)  # (B,)
         return mids[max_idx]  # (F, C, R)
 
-- 
2.43.0


From a2ae0c03490a10245a062b2bc0371c15ba596412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 024/106] fix: Hypergeometric sampled every channel from the
 largest urn and draw count

All slots were sampled with the maximum N and n over channels and repetitions, so channels with smaller
parameters followed the wrong distribution.
---
 spflow/modules/leaves/hypergeometric.py | 35 ++++++++-----------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/spflow/modules/leaves/hypergeometric.py b/spflow/modules/leaves/hypergeometric.py
index d663452..e8b6df3 100644
--- a/spflow/modules/leaves/hypergeometric.py
+++ b/spflow/modules/leaves/hypergeometric.py
@@ -165,32 +165,19 @@ class _HypergeometricDistribution:
         if not isinstance(n_samples, tuple):
             n_samples = (n_samples,)
 
-        # Prepare the tensor to store the samples
         sample_shape = n_samples + self.event_shape
-        data = torch.zeros(sample_shape, device=self.K.device)
 
-        # Generate random indices for each sample, scope, and leaves
-        rand_indices = torch.argsort(
-            torch.rand(*sample_shape, self.N.max().to(torch.int32).item(), device=self.K.device), dim=-1
-        )
-
-        # Use broadcasting to create masks where draws are of interest
-        expanded_k_shape = (*n_samples, *self.K.shape)
-        expanded_n_shape = (*n_samples, *self.n.shape)
-        K_expanded = torch.broadcast_to(rearrange(self.K, "... -> 1 ..."), expanded_k_shape)
-        n_expanded = torch.broadcast_to(rearrange(self.n, "... -> 1 ..."), expanded_n_shape)
-
-        # Create a mask for the "drawn" indices, considering the first K indices as objects of interest
-        drawn_mask = rand_indices < rearrange(K_expanded, "... -> ... 1")
-
-        # Count the "drawn" indices for each sample, within the first 'n' draws
-        n_drawn = drawn_mask[..., : n_expanded.max().to(torch.int32).item()].sum(dim=-1)
-
-        # Adjust the shape of n_drawn to match the desired sample shape
-        n_drawn_shape_adjusted = n_drawn[..., : self.n.shape[-1]]
-
-        # Ensure the counts do not exceed the limits defined by n and K for each scope and leaves
-        data = torch.where(n_drawn_shape_adjusted < n_expanded, n_drawn_shape_adjusted, n_expanded)
+        # Random permutation of each population; elements beyond that population's size N are ordered last
+        max_population = self.N.max().to(torch.int32).item()
+        element = torch.arange(max_population, device=self.K.device)
+        keys = torch.rand(*sample_shape, max_population, device=self.K.device)
+        keys = keys.masked_fill(element >= rearrange(self.N, "... -> ... 1"), float("inf"))
+        rand_indices = torch.argsort(keys, dim=-1)
+
+        # The first K elements of a population are the objects of interest, the first n positions are drawn
+        is_success = rand_indices < rearrange(self.K, "... -> ... 1")
+        is_drawn = element < rearrange(self.n, "... -> ... 1")
+        data = (is_success & is_drawn).sum(dim=-1).to(self.n.dtype)
 
         return data
 
-- 
2.43.0


From f10f0c756c398d196bf1f51973a99fc7232bc2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 025/106] fix: Uniform rejected values outside one channel's
 interval although support_outside is set

support_outside was ignored: a value outside the interval of any channel raised, so mixtures of uniforms with
different intervals could not be evaluated. The placeholder for missing values (Uniform, Hypergeometric) was taken
from channel 0 and could be rejected by the other channels.
---
 spflow/modules/leaves/hypergeometric.py |  4 +++-
 spflow/modules/leaves/uniform.py        | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/spflow/modules/leaves/hypergeometric.py b/spflow/modules/leaves/hypergeometric.py
index e8b6df3..3a19ac8 100644
--- a/spflow/modules/leaves/hypergeometric.py
+++ b/spflow/modules/leaves/hypergeometric.py
@@ -337,7 +337,9 @@ class Hypergeometric(LeafModule):
     def _supported_value(self):
         """Fallback value for unsupported data."""
         # Hypergeometric support lower bound is max(0, n + K - N).
-        return torch.maximum(self.n + self.K - self.N, torch.zeros_like(self.N))
+        # Take the largest one over channels and repetitions, so that the value is valid for all of them.
+        lower = torch.maximum(self.n + self.K - self.N, torch.zeros_like(self.N))
+        return lower.amax(dim=tuple(range(1, lower.dim()))) if lower.dim() > 1 else lower
 
     @property
     def _torch_distribution_class(self) -> type[_HypergeometricDistribution]:
diff --git a/spflow/modules/leaves/uniform.py b/spflow/modules/leaves/uniform.py
index 175f444..7c77bf6 100644
--- a/spflow/modules/leaves/uniform.py
+++ b/spflow/modules/leaves/uniform.py
@@ -74,17 +74,18 @@ class Uniform(LeafModule):
     @property
     def _supported_value(self):
         """Fallback value for unsupported data."""
-        return self.low
+        # The largest lower bound lies in the interval of every channel and repetition (if they overlap).
+        return self.low.amax(dim=tuple(range(1, self.low.dim()))) if self.low.dim() > 1 else self.low
 
     @property
     def _torch_distribution_class(self) -> type[torch.distributions.Uniform]:
-        return torch.distributions.Uniform
+        return _UniformWithSupportOutside if bool(self._support_outside) else torch.distributions.Uniform
 
     @property
     def _torch_distribution_class_with_differentiable_sampling(
         self,
     ) -> type[torch.distributions.Uniform]:
-        return torch.distributions.Uniform
+        return self._torch_distribution_class
 
     @property
     def mode(self) -> Tensor:
@@ -182,3 +183,11 @@ class _Uniform(torch.distributions.Uniform):
     def mode(self):
         # We deviate from torch here, since torch returns NaN
         raise NotImplementedError("Mode is not defined (not unique) for Uniform distributions")
+
+
+class _UniformWithSupportOutside(torch.distributions.Uniform):
+    """Uniform distribution which assigns density zero to values outside its interval."""
+
+    def _validate_sample(self, value: Tensor) -> None:
+        # Only the interval check is skipped: the result still has to broadcast with the parameters.
+        torch.broadcast_shapes(value.shape, self._batch_shape)
-- 
2.43.0


From 947734715af315147144163a8aeea3b43a47bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 026/106] fix: CLTree estimation divided the sample weight
 among features, channels and repetitions

The counts of each slot summed to N/(F*C*R) instead of N, so the same smoothing constant weighed more the larger
the leaf was.
---
 spflow/modules/leaves/cltree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 6b9245e..43b5ef0 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -418,6 +418,9 @@ class CLTree(LeafModule):
         if nan_strategy is None:
             nan_strategy = "ignore"
         scoped, weights = apply_nan_strategy(nan_strategy, scoped, self.device, weights)
+        # Every channel and repetition is estimated from its own weighted sample with total weight N, so that the
+        # smoothing does not depend on the number of features, channels and repetitions.
+        weights = weights * (scoped.shape[0] / weights.sum(dim=0, keepdim=True).clamp_min(1e-12))
         if scoped.shape[0] < 2:
             raise InvalidParameterError("CLTree requires at least 2 complete samples for MLE.")
 
-- 
2.43.0


From a3ce0e1c1b5c138a495ef8ca94bfdc7b1398635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 027/106] fix: zero-probability inputs and unreached sums do
 not turn likelihoods, gradients or EM weights into NaN

---
 spflow/modules/einsum/einsum_layer.py         | 19 ++++-----
 spflow/modules/einsum/linsum_layer.py         |  6 +--
 spflow/modules/sums/elementwise_sum.py        |  6 +--
 .../modules/sums/repetition_mixing_layer.py   |  6 +--
 spflow/modules/sums/sum.py                    |  6 +--
 spflow/utils/logspace.py                      | 40 +++++++++++++++++++
 6 files changed, 59 insertions(+), 24 deletions(-)
 create mode 100644 spflow/utils/logspace.py

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 0ae7f54..76836be 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -37,6 +37,7 @@ from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.utils.cache import Cache, cached
+from spflow.utils.logspace import normalize_log_expectations
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -371,14 +372,16 @@ class EinsumLayer(Module):
         above, and the removed maxima are added back after ``log``.
         """
         left_max = left_ll.amax(dim=2, keepdim=True)
-        left_prob = torch.exp(left_ll - left_max)
+        left_prob = torch.exp(left_ll - left_max.masked_fill(torch.isneginf(left_max), 0.0))
 
         right_max = right_ll.amax(dim=2, keepdim=True)
-        right_prob = torch.exp(right_ll - right_max)
+        right_prob = torch.exp(right_ll - right_max.masked_fill(torch.isneginf(right_max), 0.0))
 
         weights = self._normalized_weights()
         prob = self._contract_probabilities(left_prob, right_prob, weights)
-        return torch.log(prob) + left_max + right_max
+        impossible = prob == 0
+        log_prob = torch.log(prob.masked_fill(impossible, 1.0)) + left_max + right_max
+        return log_prob.masked_fill(impossible, -float("inf"))
 
     @cached
     def log_likelihood(
@@ -610,17 +613,9 @@ class EinsumLayer(Module):
 
             # Compute log expectations
             log_expectations = log_weights + log_grads + joint_input_ll - module_lls
-            log_expectations = log_expectations.logsumexp(0)  # Sum over batch
 
             # Normalize to get new log weights
-            flat_expectations = rearrange(log_expectations, "f co r i j -> f co r (i j)")
-            flat_log_weights = torch.nn.functional.log_softmax(flat_expectations, dim=-1)
-            new_log_weights = rearrange(
-                flat_log_weights,
-                "f co r (i j) -> f co r i j",
-                i=self._left_channels,
-                j=self._right_channels,
-            )
+            new_log_weights = normalize_log_expectations(log_expectations, self.log_weights, (-2, -1))
 
             # M-step: update weights
             self.log_weights = new_log_weights
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 51e6cd2..b8e87d8 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -26,6 +26,7 @@ from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
 from spflow.utils.cache import Cache, cached
+from spflow.utils.logspace import logsumexp, normalize_log_expectations
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -292,7 +293,7 @@ class LinsumLayer(Module):
         weighted_ll = prod_ll + log_weights
 
         # LogSumExp over input channels (dim=3)
-        log_prob = torch.logsumexp(weighted_ll, dim=3)  # (N, D, O, R)
+        log_prob = logsumexp(weighted_ll, dim=3)  # (N, D, O, R)
 
         return log_prob
 
@@ -477,10 +478,9 @@ class LinsumLayer(Module):
 
             # Compute log expectations
             log_expectations = log_weights + log_grads + prod_ll - module_lls
-            log_expectations = log_expectations.logsumexp(0)  # Sum over batch
 
             # Normalize to get new log weights
-            new_log_weights = torch.nn.functional.log_softmax(log_expectations, dim=-1)
+            new_log_weights = normalize_log_expectations(log_expectations, self.log_weights, -1)
 
             # M-step: update weights
             self.log_weights = new_log_weights
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 02da07f..fba1d3e 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -18,6 +18,7 @@ from spflow.meta.data import Scope
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.utils.cache import Cache, cached
+from spflow.utils.logspace import logsumexp, normalize_log_expectations
 from spflow.utils.projections import (
     proj_convex_to_real,
 )
@@ -515,7 +516,7 @@ class ElementwiseSum(Module):
         weighted_lls = ll + log_weights  # shape: (B, F, IC, OC)
 
         # Sum over input channels (sum_dim + 1 since here the batch dimension is the first dimension)
-        output = torch.logsumexp(weighted_lls, dim=self.sum_dim + 1)
+        output = logsumexp(weighted_lls, dim=self.sum_dim + 1)
         output = rearrange(output, "b f ci co r -> b f (ci co) r")
 
         return output
@@ -568,8 +569,7 @@ class ElementwiseSum(Module):
             )
 
             log_expectations = log_weights + log_grads + input_lls - module_lls
-            log_expectations = log_expectations.logsumexp(0)  # Sum over batch dimension
-            log_expectations = log_expectations.log_softmax(self.sum_dim)  # Normalize
+            log_expectations = normalize_log_expectations(log_expectations, self.log_weights, self.sum_dim)
 
             # ----- maximization step -----
             self.log_weights = log_expectations
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 88f92e6..619f557 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -9,6 +9,7 @@ from spflow.exceptions import InvalidParameterCombinationError, MissingCacheErro
 from spflow.modules.module import Module
 from spflow.modules.sums.sum import Sum
 from spflow.utils.cache import Cache, cached
+from spflow.utils.logspace import logsumexp, normalize_log_expectations
 from spflow.utils.sampling_context import (
     SamplingContext,
     condition_logits,
@@ -206,7 +207,7 @@ class RepetitionMixingLayer(Sum):
         weighted_lls = ll + log_weights  # shape: (B, F, OC, R) + (1, F, OC, R) = (B, F, R, OC)
 
         # Sum over input channels (sum_dim + 1 since here the batch dimension is the first dimension)
-        output = torch.logsumexp(weighted_lls, dim=self.sum_dim + 1)  # shape: (B, F, OC, R)
+        output = logsumexp(weighted_lls, dim=self.sum_dim + 1)  # shape: (B, F, OC, R)
 
         # Repetition axis is mixed out, so re-introduce singleton repetition dimension.
         return rearrange(output, "b f co -> b f co 1")
@@ -249,8 +250,7 @@ class RepetitionMixingLayer(Sum):
             log_grads = torch.log(module_lls.grad)
 
             log_expectations = log_weights + log_grads + input_lls - module_lls
-            log_expectations = log_expectations.logsumexp(0)  # Sum over batch dimension
-            log_expectations = log_expectations.log_softmax(self.sum_dim)  # Normalize
+            log_expectations = normalize_log_expectations(log_expectations, self.log_weights, self.sum_dim)
 
             # ----- maximization step -----
             self.log_weights = log_expectations
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 1879a08..6a429d8 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -15,6 +15,7 @@ from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.cat import Cat
 from spflow.utils.cache import Cache, cached
+from spflow.utils.logspace import logsumexp, normalize_log_expectations
 from spflow.utils.projections import (
     proj_convex_to_real,
 )
@@ -279,7 +280,7 @@ class Sum(Module):
         weighted_lls = ll + log_weights  # shape: (B, F, IC, OC, R)
 
         # Sum over input channels (sum_dim + 1 since here the batch dimension is the first dimension)
-        output = torch.logsumexp(weighted_lls, dim=self.sum_dim + 1)
+        output = logsumexp(weighted_lls, dim=self.sum_dim + 1)
 
         return output
 
@@ -425,8 +426,7 @@ class Sum(Module):
             module_lls = rearrange(module_lls, "b f co r -> b f 1 co r")
 
             log_expectations = log_weights + log_grads + input_lls - module_lls
-            log_expectations = log_expectations.logsumexp(0)  # Sum over batch dimension
-            log_expectations = log_expectations.log_softmax(self.sum_dim)  # Normalize
+            log_expectations = normalize_log_expectations(log_expectations, self.log_weights, self.sum_dim)
 
             # ----- maximization step -----
             self.log_weights = log_expectations
diff --git a/spflow/utils/logspace.py b/spflow/utils/logspace.py
new file mode 100644
index 0000000..0b390d0
--- /dev/null
+++ b/spflow/utils/logspace.py
@@ -0,0 +1,40 @@
+"""Numerically safe operations on log-probabilities."""
+
+from __future__ import annotations
+
+import torch
+from torch import Tensor
+
+
+def logsumexp(log_values: Tensor, dim: int) -> Tensor:
+    """Log-sum-exp whose gradient is zero, instead of NaN, where every term is ``-inf``.
+
+    Args:
+        log_values: Log-space terms.
+        dim: Dimension to reduce.
+
+    Returns:
+        Tensor: Reduced log-values, ``-inf`` where every term is ``-inf``.
+    """
+    impossible = torch.isneginf(log_values).all(dim=dim, keepdim=True)
+    if not impossible.any():
+        return torch.logsumexp(log_values, dim=dim)
+    output = torch.logsumexp(log_values.masked_fill(impossible, 0.0), dim=dim)
+    return output.masked_fill(impossible.squeeze(dim), -float("inf"))
+
+
+def normalize_log_expectations(log_expectations: Tensor, log_weights: Tensor, dim: int | tuple[int, ...]) -> Tensor:
+    """Turn per-sample log-expectations of a sum node into new log-weights.
+
+    Args:
+        log_expectations: Log-expectations with a leading batch dimension. Samples which have zero
+            probability under the node may hold NaN and contribute nothing.
+        log_weights: Current log-weights, kept for nodes that no sample reaches.
+        dim: Dimension(s) of ``log_weights`` over which the weights of a node are normalized.
+
+    Returns:
+        Tensor: Normalized log-weights of the shape of ``log_weights``.
+    """
+    log_expectations = log_expectations.masked_fill(log_expectations.isnan(), -float("inf")).logsumexp(0)
+    total = log_expectations.logsumexp(dim, keepdim=True)
+    return torch.where(torch.isfinite(total), log_expectations - total, log_weights)
-- 
2.43.0


From 5bf4e9e10f83cc54e3efdb7674d7b83c91ce60ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 028/106] fix: SumConv EM keeps one weight vector per kernel
 position

---
 spflow/modules/conv/sum_conv.py | 56 ++++++++++++---------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index de9fdca..3dffd21 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -16,6 +16,7 @@ from spflow.exceptions import InvalidWeightsError, MissingCacheError, ShapeError
 from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.utils.cache import Cache, cached
+from spflow.utils.logspace import logsumexp, normalize_log_expectations
 from spflow.utils.projections import proj_convex_to_real
 from spflow.utils.sampling_context import (
     SamplingContext,
@@ -216,7 +217,7 @@ class SumConv(Module):
 
             # Weighted sum over input channels: logsumexp over dim 3 (in_channels)
             weighted_lls = ll + log_weights
-            result = torch.logsumexp(weighted_lls, dim=3)  # (batch, features, out_c, reps)
+            result = logsumexp(weighted_lls, dim=3)  # (batch, features, out_c, reps)
 
             return result
 
@@ -242,7 +243,7 @@ class SumConv(Module):
 
         # Weighted sum over input channels: logsumexp over dim 2 (in_channels)
         weighted_lls = ll + log_weights
-        result = torch.logsumexp(weighted_lls, dim=2)  # (batch, out_c, H//K, W//K, K, K, reps)
+        result = logsumexp(weighted_lls, dim=2)  # (batch, out_c, H//K, W//K, K, K, reps)
 
         # Invert the patch transformation and flatten spatial dimensions.
         result = rearrange(result, "b co oh ow kh kw r -> b (oh kh ow kw) co r")
@@ -483,43 +484,26 @@ class SumConv(Module):
             else:
                 log_grads = torch.log(module_lls_grad + 1e-10)
 
-            # Current log weights: (out_c, in_c, k, k, reps)
-            # Average over kernel spatial dims for simplicity
-            log_weights = self.log_weights.mean(dim=(2, 3))  # (out_c, in_c, reps)
-
-            # Reshape for broadcasting:
-            # log_weights: (1, 1, out_c, in_c, reps)
-            # log_grads: (batch, features, out_c, 1, reps)
-            # input_lls: (batch, features, 1, in_c, reps)
-            # module_lls: (batch, features, out_c, 1, reps)
-
-            log_weights = rearrange(log_weights, "co ci r -> 1 1 co ci r")
-            log_grads = rearrange(log_grads, "b f co r -> b f co 1 r")
-            input_lls = rearrange(input_lls, "b f ci r -> b f 1 ci r")
-            module_lls = rearrange(module_lls, "b f co r -> b f co 1 r")
+            # Kernel position (kh, kw) weights every pixel with that offset in its patch; inputs
+            # smaller than the kernel use position (0, 0) only.
+            side = int(input_lls.shape[1] ** 0.5)
+            k = self.kernel_size if side >= self.kernel_size else 1
+            log_weights = self.log_weights[:, :, :k, :k]  # (out_c, in_c, k, k, reps)
+            spatial = {"oh": side // k, "kh": k, "ow": side // k, "kw": k}
+            input_lls = rearrange(input_lls, "b (oh kh ow kw) ci r -> (b oh ow) 1 ci kh kw r", **spatial)
+            log_grads = rearrange(log_grads, "b (oh kh ow kw) co r -> (b oh ow) co 1 kh kw r", **spatial)
+            module_lls = rearrange(module_lls, "b (oh kh ow kw) co r -> (b oh ow) co 1 kh kw r", **spatial)
 
             # Compute log expectations
             # This follows the standard EM derivation for mixture models
-            log_expectations = log_weights + log_grads + input_lls - module_lls
-            # Shape: (batch, features, out_c, in_c, reps)
-
-            # Sum over batch and features dimensions
-            log_expectations = torch.logsumexp(log_expectations, dim=0)  # (features, out_c, in_c, reps)
-            log_expectations = torch.logsumexp(log_expectations, dim=0)  # (out_c, in_c, reps)
-
-            # Normalize over in_channels (sum dimension for this module)
-            # The sum_dim for SumConv is dimension 1 (in_channels)
-            log_expectations = torch.log_softmax(log_expectations, dim=1)
-
-            # Update log_weights: need to expand to full kernel shape
-            # Current shape: (out_c, in_c, reps)
-            # Target shape: (out_c, in_c, k, k, reps)
-            k = self.kernel_size
-            new_log_weights = rearrange(log_expectations, "co ci r -> co ci 1 1 r")
-            new_log_weights = repeat(new_log_weights, "co ci 1 1 r -> co ci kh kw r", kh=k, kw=k)
-
-            # Set new weights
-            self.logits.data = new_log_weights.contiguous()
+            log_expectations = log_weights.unsqueeze(0) + log_grads + input_lls - module_lls
+
+            # Set new weights, normalized over in_channels
+            new_log_weights = self.log_weights.clone()
+            new_log_weights[:, :, :k, :k] = normalize_log_expectations(
+                log_expectations, log_weights, self.sum_dim
+            )
+            self.logits.data = new_log_weights
 
         # Recursively call EM on inputs
         self.inputs._expectation_maximization_step(data, cache=cache, bias_correction=bias_correction)
-- 
2.43.0


From d4b67867145241720670720a4580641fcfe926d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 029/106] fix: EM updates a sum shared by several parents once
 per step

---
 spflow/modules/conv/sum_conv.py                |  4 ++++
 spflow/modules/einsum/einsum_layer.py          |  4 ++++
 spflow/modules/einsum/linsum_layer.py          |  4 ++++
 spflow/modules/sums/elementwise_sum.py         |  4 ++++
 spflow/modules/sums/repetition_mixing_layer.py |  4 ++++
 spflow/modules/sums/sum.py                     |  4 ++++
 spflow/utils/cache.py                          | 17 +++++++++++++++++
 7 files changed, 41 insertions(+)

diff --git a/spflow/modules/conv/sum_conv.py b/spflow/modules/conv/sum_conv.py
index 3dffd21..2471776 100644
--- a/spflow/modules/conv/sum_conv.py
+++ b/spflow/modules/conv/sum_conv.py
@@ -448,6 +448,10 @@ class SumConv(Module):
         Raises:
             MissingCacheError: If required log-likelihoods are not found in cache.
         """
+        # A sum shared by several parents is updated once, from the gradients of all of them
+        if not cache.first_visit("_expectation_maximization_step", self):
+            return
+
         with torch.no_grad():
             # Get cached log-likelihoods
             input_lls = cache["log_likelihood"].get(self.inputs)
diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 76836be..3b12b8d 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -588,6 +588,10 @@ class EinsumLayer(Module):
             bias_correction: Whether to apply bias correction.
             cache: Cache with log-likelihoods.
         """
+        # A sum shared by several parents is updated once, from the gradients of all of them
+        if not cache.first_visit("_expectation_maximization_step", self):
+            return
+
         with torch.no_grad():
             # Get cached values
             left_ll, right_ll = self._get_left_right_ll(data, cache)
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index b8e87d8..3f53a45 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -454,6 +454,10 @@ class LinsumLayer(Module):
             bias_correction: Whether to apply bias correction.
             cache: Cache with log-likelihoods.
         """
+        # A sum shared by several parents is updated once, from the gradients of all of them
+        if not cache.first_visit("_expectation_maximization_step", self):
+            return
+
         with torch.no_grad():
             # Get cached values
             left_ll, right_ll = self._get_left_right_ll(data, cache)
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index fba1d3e..692f793 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -534,6 +534,10 @@ class ElementwiseSum(Module):
             data: Training data tensor.
             cache: Cache for memoization.
         """
+        # A sum shared by several parents is updated once, from the gradients of all of them
+        if not cache.first_visit("_expectation_maximization_step", self):
+            return
+
         with torch.no_grad():
             # ----- expectation step -----
 
diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 619f557..9deaa8b 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -229,6 +229,10 @@ class RepetitionMixingLayer(Sum):
         Raises:
             MissingCacheError: If required log-likelihoods are not found in cache.
         """
+        # A sum shared by several parents is updated once, from the gradients of all of them
+        if not cache.first_visit("_expectation_maximization_step", self):
+            return
+
         with torch.no_grad():
             # ----- expectation step -----
 
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 6a429d8..004b82d 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -403,6 +403,10 @@ class Sum(Module):
         Raises:
             MissingCacheError: If required log-likelihoods are not found in cache.
         """
+        # A sum shared by several parents is updated once, from the gradients of all of them
+        if not cache.first_visit("_expectation_maximization_step", self):
+            return
+
         with torch.no_grad():
             # ----- expectation step -----
 
diff --git a/spflow/utils/cache.py b/spflow/utils/cache.py
index 2d1f094..79f4fa4 100644
--- a/spflow/utils/cache.py
+++ b/spflow/utils/cache.py
@@ -64,6 +64,23 @@ class Cache:
                 self._cache[method_name] = WeakKeyDictionary()
             self._cache[method_name][module] = value
 
+    def first_visit(self, method_name: str, module: Module) -> bool:
+        """Tell whether a traversal reaches a module for the first time, and mark it as reached.
+
+        Modules with several parents are reached once per parent; in-place updates such as an EM
+        step must run for them only once.
+
+        Args:
+            method_name: Name of the traversing method.
+            module: Module instance that is being visited.
+
+        Returns:
+            True on the first call for this method and module, False afterwards.
+        """
+        first = self.get(method_name, module) is None
+        self.set(method_name, module, True)
+        return first
+
     def __getitem__(self, method_name: str) -> WeakKeyDictionary[Module, Any]:
         """Get the cache dictionary for a method type (for backward compatibility).
 
-- 
2.43.0


From ec636c4a80e6e3c6b95bcf73657cda45996b3bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 030/106] fix: log-likelihoods of rows with missing values can
 be differentiated

---
 spflow/modules/leaves/leaf.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 7a4484a..6ee09d4 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -477,11 +477,6 @@ class LeafModule(Module, ABC):
             marg_mask_for_log_prob = torch.broadcast_to(marg_mask_for_log_prob, log_prob.shape)
             log_prob[marg_mask_for_log_prob] = 0.0
 
-        # Set marginalized scope data back to NaNs
-        if has_marginalizations:
-            marg_mask_for_data = rearrange(marg_mask, "b f -> b f 1 1")
-            data_q[marg_mask_for_data] = torch.nan
-
         return log_prob
 
     def _log_likelihood_interval(
-- 
2.43.0


From 2094756f0233367cdecb5aeec637a5dde49580c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 031/106] fix: rdc fails on perfectly dependent columns

---
 spflow/utils/rdc.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/spflow/utils/rdc.py b/spflow/utils/rdc.py
index cc8af52..b5e4326 100644
--- a/spflow/utils/rdc.py
+++ b/spflow/utils/rdc.py
@@ -85,7 +85,7 @@ def rdc(x, y, f=torch.sin, k=20, s=1 / 6.0, n=1):
         if torch.is_complex(eigs):
             # Check if imaginary parts are negligible (numerical precision issues)
             max_imag = torch.max(torch.abs(torch.imag(eigs)))
-            if max_imag > 1e-8:
+            if max_imag > 1e-8 and ub > 1:
                 # Significant imaginary parts indicate numerical issues
                 ub -= 1
                 k = (ub + lb) // 2
@@ -99,7 +99,7 @@ def rdc(x, y, f=torch.sin, k=20, s=1 / 6.0, n=1):
             eigenvals_valid = 0 <= torch.min(eigs) and torch.max(eigs) <= 1
 
         # Binary search if k is too large
-        if not eigenvals_valid:
+        if not eigenvals_valid and ub > 1:
             ub -= 1
             k = (ub + lb) // 2
             continue
@@ -114,9 +114,9 @@ def rdc(x, y, f=torch.sin, k=20, s=1 / 6.0, n=1):
 
     # Return the square root of the maximum eigenvalue (using real part if complex)
     if torch.is_complex(eigs):
-        return torch.sqrt(torch.max(torch.real(eigs)))
+        return torch.sqrt(torch.clamp(torch.max(torch.real(eigs)), 0, 1))
     else:
-        return torch.sqrt(torch.max(eigs))
+        return torch.sqrt(torch.clamp(torch.max(eigs), 0, 1))
 
 
 def cca_loop(k, C):
@@ -147,7 +147,7 @@ def cca_loop(k, C):
         if torch.is_complex(eigs):
             # Check if imaginary parts are negligible (numerical precision issues)
             max_imag = torch.max(torch.abs(torch.imag(eigs)))
-            if max_imag > 1e-8:
+            if max_imag > 1e-8 and ub > 1:
                 # Significant imaginary parts indicate numerical issues
                 ub -= 1
                 k = (ub + lb) // 2
@@ -161,7 +161,7 @@ def cca_loop(k, C):
             eigenvals_valid = 0 <= torch.min(eigs) and torch.max(eigs) <= 1
 
         # Binary search if k is too large
-        if not eigenvals_valid:
+        if not eigenvals_valid and ub > 1:
             ub -= 1
             k = (ub + lb) // 2
             continue
@@ -176,9 +176,9 @@ def cca_loop(k, C):
 
     # Return the square root of the maximum eigenvalue (using real part if complex)
     if torch.is_complex(eigs):
-        return torch.sqrt(torch.max(torch.real(eigs)))
+        return torch.sqrt(torch.clamp(torch.max(torch.real(eigs)), 0, 1))
     else:
-        return torch.sqrt(torch.max(eigs))
+        return torch.sqrt(torch.clamp(torch.max(eigs), 0, 1))
 
 
 def rankdata_ordinal(x):
@@ -273,7 +273,7 @@ def rdc_np(x, y, f=np.sin, k=20, s=1 / 6.0, n=1):
         eigs = np.linalg.eigvals(np.dot(np.dot(np.linalg.pinv(Cxx), Cxy), np.dot(np.linalg.pinv(Cyy), Cyx)))
 
         # Binary search if k is too large
-        if not (np.all(np.isreal(eigs)) and 0 <= np.min(eigs) and np.max(eigs) <= 1):
+        if ub > 1 and not (np.all(np.isreal(eigs)) and 0 <= np.min(eigs) and np.max(eigs) <= 1):
             ub -= 1
             k = (ub + lb) // 2
             continue
@@ -285,7 +285,7 @@ def rdc_np(x, y, f=np.sin, k=20, s=1 / 6.0, n=1):
         else:
             k = (ub + lb) // 2
 
-    return np.sqrt(np.max(eigs))
+    return np.sqrt(np.clip(np.max(np.real(eigs)), 0, 1))
 
 
 def cca_loop_np(k, C):
@@ -311,7 +311,7 @@ def cca_loop_np(k, C):
         eigs = np.linalg.eigvals(np.dot(np.dot(np.linalg.pinv(Cxx), Cxy), np.dot(np.linalg.pinv(Cyy), Cyx)))
 
         # Binary search if k is too large
-        if not (np.all(np.isreal(eigs)) and 0 <= np.min(eigs) and np.max(eigs) <= 1):
+        if ub > 1 and not (np.all(np.isreal(eigs)) and 0 <= np.min(eigs) and np.max(eigs) <= 1):
             ub -= 1
             k = (ub + lb) // 2
             continue
@@ -323,4 +323,4 @@ def cca_loop_np(k, C):
         else:
             k = (ub + lb) // 2
 
-    return np.sqrt(np.max(eigs))
+    return np.sqrt(np.clip(np.max(np.real(eigs)), 0, 1))
-- 
2.43.0


From 58b95318681723bac698c713fb0dcf2b637c584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 032/106] fix: learned leaves keep the settings of the leaf
 templates

---
 spflow/learn/learn_spn.py  | 22 ++++++++++++++++++----
 spflow/learn/prometheus.py |  5 ++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 8323844..9ceb475 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -92,6 +92,21 @@ def adapt_product_inputs(inputs: list[Module], leaf_oc, sum_oc) -> list[Module]:
     return output_modules
 
 
+def instantiate_leaf(template: LeafModule, scope: Scope) -> LeafModule:
+    """Create a leaf over a part of a template's scope that keeps the template's fixed settings.
+
+    Args:
+        template: Leaf module given by the user.
+        scope: Part of the template's scope to create the leaf for.
+
+    Returns:
+        New leaf with the template's family, channels and settings such as ``K`` or ``total_count``.
+    """
+    if template.out_shape.repetitions > 1 or template.is_conditional:
+        return template.__class__(scope=scope, out_channels=template.out_shape.channels)
+    return template.marginalize([rv for rv in template.scope.query if rv not in scope.query])
+
+
 def partition_by_rdc(
     data: torch.Tensor,
     threshold: float = 0.3,
@@ -230,7 +245,8 @@ def learn_spn(
                 scope = leaf_modules[0].scope
         else:
             scope = leaf_modules.scope
-            leaf_modules = [leaf_modules]
+    if isinstance(leaf_modules, LeafModule):
+        leaf_modules = [leaf_modules]
 
     # Verify that all indices in scope are valid for the data
     # if len(scope.query) > 0 and max(scope.query) >= data.shape[1]:
@@ -287,9 +303,7 @@ def learn_spn(
             leaf_scope = set(leaf_module.scope.query)
             scope_inter = s.intersection(leaf_scope)
             if len(scope_inter) > 0:
-                leaf_layer = leaf_module.__class__(
-                    scope=Scope(sorted(scope_inter)), out_channels=leaf_module.out_shape.channels
-                ).to(data.device)
+                leaf_layer = instantiate_leaf(leaf_module, Scope(sorted(scope_inter))).to(data.device)
                 # estimate leaves node parameters from data
                 leaf_layer.maximum_likelihood_estimation(data)
 
diff --git a/spflow/learn/prometheus.py b/spflow/learn/prometheus.py
index da6cae4..3e27098 100644
--- a/spflow/learn/prometheus.py
+++ b/spflow/learn/prometheus.py
@@ -29,6 +29,7 @@ from fast_pytorch_kmeans import KMeans
 from networkx import connected_components, from_numpy_array, maximum_spanning_tree
 
 from spflow.exceptions import InvalidParameterError, InvalidTypeError, UnsupportedOperationError
+from spflow.learn.learn_spn import instantiate_leaf
 from spflow.meta.data.scope import Scope
 from spflow.modules.module import Module
 from spflow.modules.leaves.leaf import LeafModule
@@ -323,9 +324,7 @@ def _create_partitioned_mv_leaf(
         if not intersection:
             continue
 
-        leaf = leaf_module.__class__(
-            scope=Scope(sorted(intersection)), out_channels=leaf_module.out_shape.channels
-        ).to(data.device)
+        leaf = instantiate_leaf(leaf_module, Scope(sorted(intersection))).to(data.device)
         leaf.maximum_likelihood_estimation(data)
         leaves.append(leaf)
 
-- 
2.43.0


From fd9a48bdd5c0c9928d554e67d3851ccd0b192003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 033/106] fix: learn_spn clusters rows by the columns of the
 current scope only

---
 spflow/learn/learn_spn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 9ceb475..7eb3103 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -365,7 +365,7 @@ def learn_spn(
                 labels_per_channel = []
                 # create cluster for each channel
                 for i in range(out_channels):
-                    labels = clustering_method(data)
+                    labels = clustering_method(data[:, scope.query])
                     labels_per_channel.append(labels)
 
                 # non-conditional clusters
-- 
2.43.0


From acdddebaf94acf05a9d3377a6f5e72fdd86db0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 034/106] fix: learn_spn does not end on identical rows

---
 spflow/learn/learn_spn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 7eb3103..24793ba 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -358,14 +358,16 @@ def learn_spn(
 
         else:
             # if not enough instances to cluster, create leaves layer (can be set to prevent overfitting too much or to reduce network size)
-            if data.shape[0] < min_instances_slice:
+            # identical instances cannot be separated any further either
+            slice_data = data[:, scope.query]
+            if data.shape[0] < min_instances_slice or bool((slice_data == slice_data[:1]).all()):
                 return create_partitioned_mv_leaf(scope, data)
             # cluster data
             else:
                 labels_per_channel = []
                 # create cluster for each channel
                 for i in range(out_channels):
-                    labels = clustering_method(data[:, scope.query])
+                    labels = clustering_method(slice_data)
                     labels_per_channel.append(labels)
 
                 # non-conditional clusters
-- 
2.43.0


From 2c7a09331a977931a913befbc00c79b66766d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 035/106] fix: learn_spn does not end when clustering cannot
 separate the rows

---
 spflow/learn/learn_spn.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/spflow/learn/learn_spn.py b/spflow/learn/learn_spn.py
index 24793ba..ff2a1e9 100644
--- a/spflow/learn/learn_spn.py
+++ b/spflow/learn/learn_spn.py
@@ -367,7 +367,11 @@ def learn_spn(
                 labels_per_channel = []
                 # create cluster for each channel
                 for i in range(out_channels):
-                    labels = clustering_method(slice_data)
+                    # the outcome may depend on a random initialization: retry while nothing is separated
+                    for _ in range(10):
+                        labels = clustering_method(slice_data)
+                        if torch.unique(labels).numel() > 1:
+                            break
                     labels_per_channel.append(labels)
 
                 # non-conditional clusters
@@ -380,7 +384,10 @@ def learn_spn(
                         # Recurse for each label
                         #
                         # for each cluster, create a substructure
-                        for cluster_id in torch.unique(labels):
+                        cluster_ids = torch.unique(labels)
+                        # rows that could not be separated are not clustered again, which might never end
+                        sub_min_instances = min_instances_slice if len(cluster_ids) > 1 else data.shape[0] + 1
+                        for cluster_id in cluster_ids:
                             sub_structure = learn_spn(
                                 data[labels == cluster_id, :],
                                 leaf_modules=leaf_modules,
@@ -389,7 +396,7 @@ def learn_spn(
                                 clustering_method=clustering_method,
                                 partitioning_method=partitioning_method,
                                 min_features_slice=min_features_slice,
-                                min_instances_slice=min_instances_slice,
+                                min_instances_slice=sub_min_instances,
                             )
                             inputs_per_channel.append(sub_structure)
 
-- 
2.43.0


From 6f2b33205cb6686c5942e0d87055b1cdf6e5665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 036/106] fix: Prometheus drops row clusters whose columns are
 uncorrelated

---
 spflow/learn/prometheus.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spflow/learn/prometheus.py b/spflow/learn/prometheus.py
index 3e27098..7b1e815 100644
--- a/spflow/learn/prometheus.py
+++ b/spflow/learn/prometheus.py
@@ -26,7 +26,7 @@ import numpy as np
 import networkx as nx
 import torch
 from fast_pytorch_kmeans import KMeans
-from networkx import connected_components, from_numpy_array, maximum_spanning_tree
+from networkx import connected_components, maximum_spanning_tree
 
 from spflow.exceptions import InvalidParameterError, InvalidTypeError, UnsupportedOperationError
 from spflow.learn.learn_spn import instantiate_leaf
@@ -148,7 +148,10 @@ def _mst_partitions_from_affinity(affinity: torch.Tensor) -> list[list[list[int]
     if d <= 1:
         return []
 
-    graph = from_numpy_array(np.asarray(affinity.detach().cpu().numpy()))
+    weights = np.asarray(affinity.detach().cpu().numpy())
+    graph = nx.complete_graph(d)  # pairs without any affinity are edges, too
+    for i, j in graph.edges:
+        graph.edges[i, j]["weight"] = float(weights[i, j])
     tree = maximum_spanning_tree(graph, weight="weight")
 
     edges_sorted = sorted(tree.edges(data=True), key=lambda e: float(e[2].get("weight", 0.0)))
-- 
2.43.0


From 71c214fef80681241321584ad9c92cc483d466ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 037/106] fix: maximum spanning tree enumeration ignores its
 edge constraints

---
 spflow/zoo/hclt/topk_mst.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/spflow/zoo/hclt/topk_mst.py b/spflow/zoo/hclt/topk_mst.py
index d5ed65a..9b1ec27 100644
--- a/spflow/zoo/hclt/topk_mst.py
+++ b/spflow/zoo/hclt/topk_mst.py
@@ -106,23 +106,25 @@ def mst_with_constraints(
 
     reuse[:, :] = weights
 
+    best, worst = (-np.inf, np.inf) if minimize else (np.inf, -np.inf)
+
     n = int(weights.shape[0])
     if dropout_prob > 0.0:
         rng = rng or np.random.default_rng()
         mask = rng.random((n, n)) < dropout_prob
         mask = np.triu(mask, k=1)
-        reuse[mask] = np.inf
-        reuse[(mask.T)] = np.inf
+        reuse[mask] = worst
+        reuse[(mask.T)] = worst
 
     included = {_canon_edge(e) for e in included_edges}
     excluded = {_canon_edge(e) for e in excluded_edges}
 
     for a, b in included:
-        reuse[a, b] = -np.inf
-        reuse[b, a] = -np.inf
+        reuse[a, b] = best
+        reuse[b, a] = best
     for a, b in excluded:
-        reuse[a, b] = np.inf
-        reuse[b, a] = np.inf
+        reuse[a, b] = worst
+        reuse[b, a] = worst
 
     mst = kruskal_mst_complete(reuse, minimize=minimize)
     mst_set = set(mst)
@@ -155,7 +157,8 @@ def topk_mst(
     if weights.ndim != 2 or weights.shape[0] != weights.shape[1]:
         raise ShapeError(f"weights must be square (N,N), got {weights.shape}.")
 
-    reuse = np.empty_like(weights)
+    reuse = np.empty(weights.shape, dtype=np.result_type(weights.dtype, np.float64))
+    sign = 1.0 if minimize else -1.0  # the heap pops the smallest total first
 
     mst0, total0 = mst_with_constraints(
         weights,
@@ -175,7 +178,7 @@ def topk_mst(
         return (tuple(mst_edges), tuple(included_edges), tuple(excluded_edges))
 
     heap: list[tuple[float, tuple, list[Edge], list[Edge], list[Edge]]] = []
-    heappush(heap, (float(total0), key_for(mst0, [], []), mst0, [], []))
+    heappush(heap, (sign * float(total0), key_for(mst0, [], []), mst0, [], []))
 
     out: list[list[Edge]] = []
     while heap and len(out) < num_trees:
@@ -217,6 +220,6 @@ def topk_mst(
                 continue
             inc = list(included_edges)
             exc = list(excluded_edges)
-            heappush(heap, (float(cand_total), key_for(cand_mst, inc, exc), cand_mst, inc, exc))
+            heappush(heap, (sign * float(cand_total), key_for(cand_mst, inc, exc), cand_mst, inc, exc))
 
     return out
-- 
2.43.0


From 1bedb594a7fbb77993288ed5808e7e10bbae3bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 038/106] fix: randomly initialised HCLTs lose their hidden
 categories

---
 spflow/zoo/hclt/learn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/zoo/hclt/learn.py b/spflow/zoo/hclt/learn.py
index 0a45733..3c5bbbf 100644
--- a/spflow/zoo/hclt/learn.py
+++ b/spflow/zoo/hclt/learn.py
@@ -67,7 +67,11 @@ def _build_hclt_from_tree(
                 continue
             child_sub = build_subtree(ch, node)
             weights = None if init != "uniform" else uniform_sum_weights(num_hidden_cats, num_hidden_cats)
-            trans = Sum(inputs=child_sub) if weights is None else Sum(inputs=child_sub, weights=weights)
+            trans = (
+                Sum(inputs=child_sub, out_channels=num_hidden_cats)
+                if weights is None
+                else Sum(inputs=child_sub, weights=weights)
+            )
             child_msgs.append(trans)
 
         if not child_msgs:
-- 
2.43.0


From effe08110faf4dc53a0f766cf32d3367c0b029d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 039/106] fix: CLTree mutual information uses marginals of the
 smoothed pairwise tables

---
 spflow/modules/leaves/cltree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 43b5ef0..03a61a5 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -270,7 +270,8 @@ class CLTree(LeafModule):
         w = w * (num_samples / w.sum().clamp_min(1e-12))
 
         # Marginals: counts_i[f,k]
-        counts_i = torch.full((num_features, K), self.alpha, dtype=dtype, device=device)
+        # alpha per cell of the pairwise tables adds up to alpha * K per category of one variable
+        counts_i = torch.full((num_features, K), self.alpha * K, dtype=dtype, device=device)
         for k in range(K):
             counts_i[:, k] += (w[:, None] * (x == k).to(dtype)).sum(dim=0)
         denom_i = counts_i.sum(dim=1, keepdim=True).clamp_min(1e-12)
-- 
2.43.0


From fe7c252d1913b654d9033dfbeb0438eb428ad29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 040/106] fix: CLTree evaluates parents that contain a cycle

---
 spflow/modules/leaves/cltree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 03a61a5..5d2eddb 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -238,7 +238,8 @@ class CLTree(LeafModule):
                 continue
             if p < 0 or p >= len(parents) or p == i:
                 return False
-        return True
+        # every variable has to be reachable from the root: a cycle is no tree
+        return len(_compute_orders_from_parents(parents).pre_order) == len(parents)
 
     def _resolve_scoped_data(self, data: Tensor) -> Tensor:
         if data.dim() != 2:
-- 
2.43.0


From 8994ddc024993fe34864ed644b83ac0fd57438e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 041/106] fix: Cat over channels rejects inputs that arrange
 their variables differently

---
 spflow/modules/ops/cat.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spflow/modules/ops/cat.py b/spflow/modules/ops/cat.py
index 787a9a1..e521aea 100644
--- a/spflow/modules/ops/cat.py
+++ b/spflow/modules/ops/cat.py
@@ -50,6 +50,12 @@ class Cat(Module):
                 raise ValueError("All inputs must have the same number of features.")
             if not Scope.all_equal([module.scope for module in self.inputs]):
                 raise ValueError("All inputs must have the same scope.")
+            # One feature per variable: the channels of a feature must all model the same variable.
+            if self.inputs[0].out_shape.features == len(self.inputs[0].scope.query) and not all(
+                np.array_equal(module.feature_to_scope, self.inputs[0].feature_to_scope)
+                for module in self.inputs
+            ):
+                raise ValueError("All inputs must arrange their scope over the features in the same order.")
 
             # Scope is the same as all inputs
             self._scope = self.inputs[0].scope
-- 
2.43.0


From 26e588283bd6bb49239bb8939d619b25ce4ec3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 042/106] fix: equal scopes have equal hashes

---
 spflow/meta/data/scope.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spflow/meta/data/scope.py b/spflow/meta/data/scope.py
index 71cfe0e..a0b127a 100644
--- a/spflow/meta/data/scope.py
+++ b/spflow/meta/data/scope.py
@@ -105,7 +105,7 @@ class Scope:
             else:
                 return str(self.query) + "|" + str(self.evidence)
 
-    def __eq__(self, other: "Scope") -> bool:
+    def __eq__(self, other: object) -> bool:
         """Equality comparison between two Scope objects.
 
         Two scopes are considered equal if they represent the same query and evidence RVs.
@@ -116,8 +116,14 @@ class Scope:
         Returns:
             Boolean indicating whether both scopes are considered equal (True) or not (False).
         """
+        if not isinstance(other, Scope):
+            return NotImplemented
         return self.equal_query(other) and self.equal_evidence(other)
 
+    def __hash__(self) -> int:
+        # Equal scopes must have equal hashes: equality ignores the order of the variables.
+        return hash((frozenset(self.query), frozenset(self.evidence)))
+
     def __len__(self) -> int:
         """Returns the number of query variables in the scope.
 
-- 
2.43.0


From 664fc13af40728593a76b26dcaf2661a6fe2d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 043/106] fix: scopes given as tensors or arrays hold plain
 integers

---
 spflow/meta/data/scope.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/spflow/meta/data/scope.py b/spflow/meta/data/scope.py
index a0b127a..1d19895 100644
--- a/spflow/meta/data/scope.py
+++ b/spflow/meta/data/scope.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 from collections.abc import Iterable
 from dataclasses import dataclass
 from functools import reduce
+from operator import index
 
 from spflow.exceptions import InvalidParameterError
 
@@ -52,15 +53,13 @@ class Scope:
 
         if isinstance(query, int):
             query = [query]
-        elif not isinstance(query, (list, tuple)):
-            # Handle other iterables like numpy arrays, torch tensors, ranges, etc.
-            query = list(query)
+        # Handle other iterables like numpy arrays, torch tensors, ranges, etc.
+        query = [index(rv) for rv in query]
 
         if isinstance(evidence, int):
             evidence = [evidence]
-        elif not isinstance(evidence, (list, tuple)):
-            # Handle other iterables like numpy arrays, torch tensors, ranges, etc.
-            evidence = list(evidence)
+        # Handle other iterables like numpy arrays, torch tensors, ranges, etc.
+        evidence = [index(rv) for rv in evidence]
 
         if len(query) == 0 and len(evidence) != 0:
             raise InvalidParameterError(
-- 
2.43.0


From a584d36126da90080f4b2b28247ba0cddd5fd530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:27 +0000
Subject: [PATCH 044/106] fix: leaves reject zero output channels or
 repetitions

---
 spflow/utils/leaves.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spflow/utils/leaves.py b/spflow/utils/leaves.py
index e07700f..9b174ce 100644
--- a/spflow/utils/leaves.py
+++ b/spflow/utils/leaves.py
@@ -150,6 +150,9 @@ def parse_leaf_args(
             raise InvalidParameterCombinationError(
                 "Either out_channels or distribution parameters must be given."
             )
+        if out_channels < 1:
+            raise ValueError(f"Number of output channels must be greater or equal to 1 but was {out_channels}.")
+
         event_shape = (query_length, out_channels)
     else:
         # Keep backward compatibility for default out_channels=1 call sites when params define channels.
@@ -167,6 +170,8 @@ def parse_leaf_args(
         event_shape = params[0].shape
 
     if num_repetitions is not None and len(event_shape) == 2:
+        if num_repetitions < 1:
+            raise ValueError(f"Number of repetitions must be greater or equal to 1 but was {num_repetitions}.")
         event_shape = torch.Size(list(event_shape) + [num_repetitions])
 
     return event_shape
-- 
2.43.0


From aadbd36fdbeeaa579a327c7308d1696eac91d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 045/106] fix: leaves accept their scope as an iterator

---
 spflow/modules/leaves/leaf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 6ee09d4..d63fcde 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from typing import Optional, Dict, Callable, Iterable, Union
+from typing import Optional, Dict, Callable, Iterable, Iterator, Union
 
 import numpy as np
 import torch
@@ -42,6 +42,10 @@ class LeafModule(Module, ABC):
         """
         super().__init__()
 
+        if isinstance(scope, Iterator):
+            # The scope is read more than once
+            scope = list(scope)
+
         event_shape = parse_leaf_args(
             scope=scope,
             out_channels=out_channels,
-- 
2.43.0


From 33c3fc3b0566b4744474b6b76db65463f5245103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 046/106] fix: leaf parameters cannot enlarge the shape the
 leaf declares

---
 spflow/modules/ops/split_consecutive.py | 7 ++++++-
 spflow/utils/leaves.py                  | 9 +++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/ops/split_consecutive.py b/spflow/modules/ops/split_consecutive.py
index a80a6fe..eeebc82 100644
--- a/spflow/modules/ops/split_consecutive.py
+++ b/spflow/modules/ops/split_consecutive.py
@@ -78,7 +78,12 @@ class SplitConsecutive(Split):
             List of log likelihood tensors, one for each split output.
         """
         lls = self.inputs.log_likelihood(data, cache=cache)
-        lls_split = lls.split(self.inputs.out_shape.features // self.num_splits, dim=self.dim)
+        # The last part also takes the features left over by an uneven division
+        size = lls.shape[self.dim]
+        part = size // self.num_splits
+        lls_split = lls.split(
+            [part] * (self.num_splits - 1) + [size - part * (self.num_splits - 1)], dim=self.dim
+        )
         return list(lls_split)
 
     def merge_split_indices(self, *split_indices: Tensor) -> Tensor:
diff --git a/spflow/utils/leaves.py b/spflow/utils/leaves.py
index 9b174ce..a8e6260 100644
--- a/spflow/utils/leaves.py
+++ b/spflow/utils/leaves.py
@@ -167,6 +167,15 @@ def parse_leaf_args(
                 "The number of scope dimensions must match the number of parameters out_features (first dimension)."
             )
 
+        # The first parameter declares the shape: the others may be broadcast to it but not enlarge it.
+        for param in params[1:]:
+            if param.dim() > 0 and any(
+                size not in (1, declared) for size, declared in zip(param.shape[:3], params[0].shape[:3])
+            ):
+                raise InvalidParameterCombinationError(
+                    f"Parameter shape {tuple(param.shape)} does not match the declared shape {tuple(params[0].shape)}."
+                )
+
         event_shape = params[0].shape
 
     if num_repetitions is not None and len(event_shape) == 2:
-- 
2.43.0


From 2b8aa0569908c0fc6e3bf44e0fe9cc0900e15a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 047/106] fix: leaf parameters given per feature (and channel)
 keep their declared axes

---
 spflow/utils/leaves.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spflow/utils/leaves.py b/spflow/utils/leaves.py
index a8e6260..834378b 100644
--- a/spflow/utils/leaves.py
+++ b/spflow/utils/leaves.py
@@ -109,6 +109,9 @@ def init_parameter(param: Tensor | None, event_shape: tuple[int, ...], init: Cal
     else:
         if not torch.isfinite(param).all():
             raise ValueError("Parameter must be finite.")
+        if 0 < param.dim() < 3 and len(event_shape) == 3:
+            # Features (and channels) only: the other axes share the given values
+            param = param.reshape(*param.shape, *[1] * (3 - param.dim())).expand(*event_shape).clone()
         return param
 
 
@@ -177,6 +180,8 @@ def parse_leaf_args(
                 )
 
         event_shape = params[0].shape
+        if len(event_shape) == 1:
+            event_shape = torch.Size([query_length, 1])
 
     if num_repetitions is not None and len(event_shape) == 2:
         if num_repetitions < 1:
-- 
2.43.0


From 175b6db199497feb90cd43253699c89e7361d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 048/106] fix: Categorical, Uniform and Hypergeometric
 parameters given per feature keep their declared axes

---
 spflow/modules/leaves/categorical.py    |  7 +++++++
 spflow/modules/leaves/hypergeometric.py |  3 +++
 spflow/modules/leaves/uniform.py        |  3 +++
 spflow/utils/leaves.py                  | 20 ++++++++++++++++----
 4 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/spflow/modules/leaves/categorical.py b/spflow/modules/leaves/categorical.py
index 41f3aaa..1062685 100644
--- a/spflow/modules/leaves/categorical.py
+++ b/spflow/modules/leaves/categorical.py
@@ -60,6 +60,13 @@ class Categorical(LeafModule):
 
         assert K is not None, "K must be provided or inferred from params"
 
+        if param_source is not None and 1 < param_source.dim() < 4:
+            # Features (and channels) only: the other axes share the given values
+            shape = param_source.shape[:-1]
+            shape = (*shape, *[1] * (3 - len(shape)))
+            param_source = param_source.reshape(*shape, K).repeat(1, 1, num_repetitions or 1, 1)
+            probs, logits = (None, param_source) if logits is not None else (param_source, None)
+
         super().__init__(
             scope=scope,
             out_channels=out_channels,  # type: ignore
diff --git a/spflow/modules/leaves/hypergeometric.py b/spflow/modules/leaves/hypergeometric.py
index 3a19ac8..daee904 100644
--- a/spflow/modules/leaves/hypergeometric.py
+++ b/spflow/modules/leaves/hypergeometric.py
@@ -5,6 +5,7 @@ from torch import Tensor
 from spflow.exceptions import InvalidParameterCombinationError
 from spflow.meta.data import Scope
 from spflow.modules.leaves.leaf import LeafModule
+from spflow.utils.leaves import align_parameter
 from spflow.utils.sampling_context import SIMPLE
 
 
@@ -285,6 +286,8 @@ class Hypergeometric(LeafModule):
         self.register_buffer("N", torch.empty(size=[]))
         self.register_buffer("n", torch.empty(size=[]))
 
+        K, N, n = (align_parameter(param, self._event_shape) for param in (K, N, n))
+
         # Validate inputs before assignment
         self.check_inputs(K, N, n, self.event_shape)
 
diff --git a/spflow/modules/leaves/uniform.py b/spflow/modules/leaves/uniform.py
index 7c77bf6..1d3c5e9 100644
--- a/spflow/modules/leaves/uniform.py
+++ b/spflow/modules/leaves/uniform.py
@@ -8,6 +8,7 @@ from spflow.exceptions import InvalidParameterCombinationError, InvalidParameter
 from spflow.meta.data import Scope
 from spflow.modules.leaves.leaf import LeafModule
 from spflow.utils.cache import Cache
+from spflow.utils.leaves import align_parameter
 
 
 class Uniform(LeafModule):
@@ -66,6 +67,8 @@ class Uniform(LeafModule):
         self.register_buffer("end_next", torch.empty(size=[]))
         self.register_buffer("_support_outside", torch.empty(size=[]))
 
+        low = align_parameter(low, self._event_shape)
+        high = align_parameter(high, self._event_shape)
         self.low = low
         self.high = high
         self.end_next = torch.nextafter(high, high.new_tensor(float("inf")))
diff --git a/spflow/utils/leaves.py b/spflow/utils/leaves.py
index 834378b..7f86205 100644
--- a/spflow/utils/leaves.py
+++ b/spflow/utils/leaves.py
@@ -109,10 +109,22 @@ def init_parameter(param: Tensor | None, event_shape: tuple[int, ...], init: Cal
     else:
         if not torch.isfinite(param).all():
             raise ValueError("Parameter must be finite.")
-        if 0 < param.dim() < 3 and len(event_shape) == 3:
-            # Features (and channels) only: the other axes share the given values
-            param = param.reshape(*param.shape, *[1] * (3 - param.dim())).expand(*event_shape).clone()
-        return param
+        return align_parameter(param, event_shape)
+
+
+def align_parameter(param: Tensor, event_shape: tuple[int, ...]) -> Tensor:
+    """Lay out a parameter given per feature (and channel) along (features, channels, repetitions).
+
+    Args:
+        param: Parameter tensor.
+        event_shape: Event shape of the leaf.
+
+    Returns:
+        Parameter tensor in which the axes left out share the given values.
+    """
+    if 0 < param.dim() < 3 and len(event_shape) == 3:
+        param = param.reshape(*param.shape, *[1] * (3 - param.dim())).expand(*event_shape).clone()
+    return param
 
 
 def parse_leaf_args(
-- 
2.43.0


From c476dabca13b234d5d591baaa9d2227427f8939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:26 +0000
Subject: [PATCH 049/106] fix: EinsumLayer reused the normalised weights of
 replaced parameters

---
 spflow/modules/einsum/einsum_layer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 3b12b8d..76cf105 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -203,7 +203,7 @@ class EinsumLayer(Module):
 
         # Register logits parameter
         self.logits = nn.Parameter(torch.zeros(self.weights_shape))
-        self._eval_weight_cache: tuple[int, Tensor] | None = None
+        self._eval_weight_cache: tuple[Tensor, Tensor] | None = None
 
         # Set weights via property (converts to logits)
         self.weights = weights
@@ -314,20 +314,19 @@ class EinsumLayer(Module):
             return weights.unflatten(-1, (self._left_channels, self._right_channels))
 
         cache_entry = self._eval_weight_cache
-        current_version = self.logits._version
         if cache_entry is not None:
-            cached_version, cached_weights = cache_entry
+            cached_logits, cached_weights = cache_entry
             if (
-                cached_version == current_version
-                and cached_weights.device == self.logits.device
+                cached_weights.device == self.logits.device
                 and cached_weights.dtype == self.logits.dtype
+                and torch.equal(cached_logits, self.logits)
             ):
                 return cached_weights
 
         flat_logits = self.logits.flatten(start_dim=-2)
         weights = torch.nn.functional.softmax(flat_logits, dim=-1)
         normalized = weights.unflatten(-1, (self._left_channels, self._right_channels))
-        self._eval_weight_cache = (current_version, normalized)
+        self._eval_weight_cache = (self.logits.detach().clone(), normalized)
         return normalized
 
     def _use_factored_probability_contraction(self, device: torch.device) -> bool:
-- 
2.43.0


From 550b8cd86adad0548fdc775994df7de184e181d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 050/106] fix: modules own the weights and parameters they are
 given

---
 spflow/modules/einsum/einsum_layer.py      | 2 +-
 spflow/modules/einsum/linsum_layer.py      | 2 +-
 spflow/modules/leaves/bernoulli.py         | 2 +-
 spflow/modules/leaves/binomial.py          | 2 +-
 spflow/modules/leaves/categorical.py       | 2 +-
 spflow/modules/leaves/geometric.py         | 2 +-
 spflow/modules/leaves/negative_binomial.py | 2 +-
 spflow/modules/sums/elementwise_sum.py     | 2 +-
 spflow/modules/sums/sum.py                 | 2 +-
 spflow/utils/leaves.py                     | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/spflow/modules/einsum/einsum_layer.py b/spflow/modules/einsum/einsum_layer.py
index 76cf105..8f17bfd 100644
--- a/spflow/modules/einsum/einsum_layer.py
+++ b/spflow/modules/einsum/einsum_layer.py
@@ -275,7 +275,7 @@ class EinsumLayer(Module):
         """Set log weights directly."""
         if values.shape != self.weights_shape:
             raise ShapeError(f"Log weight shape mismatch: expected {self.weights_shape}, got {values.shape}")
-        self.logits.data = values
+        self.logits.data = values.detach().clone()
         self._clear_eval_weight_cache()
 
     def extra_repr(self) -> str:
diff --git a/spflow/modules/einsum/linsum_layer.py b/spflow/modules/einsum/linsum_layer.py
index 3f53a45..5b97501 100644
--- a/spflow/modules/einsum/linsum_layer.py
+++ b/spflow/modules/einsum/linsum_layer.py
@@ -232,7 +232,7 @@ class LinsumLayer(Module):
         """Set log weights directly."""
         if values.shape != self.weights_shape:
             raise ShapeError(f"Log weight shape mismatch: expected {self.weights_shape}, got {values.shape}")
-        self.logits.data = values
+        self.logits.data = values.detach().clone()
 
     def extra_repr(self) -> str:
         return f"{super().extra_repr()}, weights={self.weights_shape}"
diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index ef00ff9..ac416f6 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -80,7 +80,7 @@ class Bernoulli(LeafModule):
     @logits.setter
     def logits(self, value: Tensor) -> None:
         """Set logits directly."""
-        self._logits.data = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
+        self._logits.data = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device).detach().clone()
 
     @property
     def _supported_value(self):
diff --git a/spflow/modules/leaves/binomial.py b/spflow/modules/leaves/binomial.py
index edaf756..08adc1e 100644
--- a/spflow/modules/leaves/binomial.py
+++ b/spflow/modules/leaves/binomial.py
@@ -122,7 +122,7 @@ class Binomial(LeafModule):
     @logits.setter
     def logits(self, value: Tensor) -> None:
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = value_tensor
+        self._logits.data = value_tensor.detach().clone()
 
     @property
     def _supported_value(self):
diff --git a/spflow/modules/leaves/categorical.py b/spflow/modules/leaves/categorical.py
index 1062685..70d6cfa 100644
--- a/spflow/modules/leaves/categorical.py
+++ b/spflow/modules/leaves/categorical.py
@@ -114,7 +114,7 @@ class Categorical(LeafModule):
     @logits.setter
     def logits(self, value: Tensor) -> None:
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = value_tensor
+        self._logits.data = value_tensor.detach().clone()
 
     @property
     def _supported_value(self):
diff --git a/spflow/modules/leaves/geometric.py b/spflow/modules/leaves/geometric.py
index 7fbf8bb..d9d8c0b 100644
--- a/spflow/modules/leaves/geometric.py
+++ b/spflow/modules/leaves/geometric.py
@@ -83,7 +83,7 @@ class Geometric(LeafModule):
     @logits.setter
     def logits(self, value: Tensor) -> None:
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = value_tensor
+        self._logits.data = value_tensor.detach().clone()
 
     @property
     def _supported_value(self):
diff --git a/spflow/modules/leaves/negative_binomial.py b/spflow/modules/leaves/negative_binomial.py
index dabe979..40eaccd 100644
--- a/spflow/modules/leaves/negative_binomial.py
+++ b/spflow/modules/leaves/negative_binomial.py
@@ -112,7 +112,7 @@ class NegativeBinomial(LeafModule):
     @logits.setter
     def logits(self, value: Tensor) -> None:
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = value_tensor
+        self._logits.data = value_tensor.detach().clone()
 
     @property
     def _supported_value(self):
diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 692f793..64831b3 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -228,7 +228,7 @@ class ElementwiseSum(Module):
         """
         if values.shape != self.log_weights.shape:
             raise ValueError(f"Invalid shape for weights: {values.shape}.")
-        self.logits.data = values
+        self.logits.data = values.detach().clone()
 
     def extra_repr(self) -> str:
         return f"{super().extra_repr()}, weights={self.weights_shape}"
diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index 004b82d..c8aac56 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -241,7 +241,7 @@ class Sum(Module):
         """
         if values.shape != self.log_weights.shape:
             raise ShapeError(f"Invalid shape for weights: {values.shape}.")
-        self.logits.data = values
+        self.logits.data = values.detach().clone()
 
     def extra_repr(self) -> str:
         return f"{super().extra_repr()}, weights={self.weights_shape}"
diff --git a/spflow/utils/leaves.py b/spflow/utils/leaves.py
index 7f86205..1a04ff0 100644
--- a/spflow/utils/leaves.py
+++ b/spflow/utils/leaves.py
@@ -109,7 +109,7 @@ def init_parameter(param: Tensor | None, event_shape: tuple[int, ...], init: Cal
     else:
         if not torch.isfinite(param).all():
             raise ValueError("Parameter must be finite.")
-        return align_parameter(param, event_shape)
+        return align_parameter(param, event_shape).detach().clone()
 
 
 def align_parameter(param: Tensor, event_shape: tuple[int, ...]) -> Tensor:
-- 
2.43.0


From 0b9dda0247004f8bdd8776bdcf556c3d0f7f3783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 051/106] fix: leaf estimation with an all-zero weight column
 gave NaN parameters

---
 spflow/modules/leaves/leaf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index d63fcde..3475166 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -585,7 +585,12 @@ class LeafModule(Module, ABC):
         # Each parameter is estimated from its own weighted sample: give every column the total
         # weight of the (effective) number of rows, independent of the other columns.
         column_totals = normalized_weights.sum(dim=0, keepdim=True)
-        normalized_weights = normalized_weights * (scoped_data.shape[0] / column_totals)
+        # A column without any weight (e.g. a class absent from the targets) uses all rows equally.
+        normalized_weights = torch.where(
+            column_totals > 0,
+            normalized_weights * (scoped_data.shape[0] / column_totals),
+            torch.ones_like(normalized_weights),
+        )
 
         return scoped_data, normalized_weights
 
-- 
2.43.0


From 2b1e457645cf7fefa6205fc3a00d206879d36067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:19 +0000
Subject: [PATCH 052/106] fix: outer products of an empty batch of rows raised

---
 spflow/modules/products/outer_product.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/spflow/modules/products/outer_product.py b/spflow/modules/products/outer_product.py
index 38f36e5..6986271 100644
--- a/spflow/modules/products/outer_product.py
+++ b/spflow/modules/products/outer_product.py
@@ -263,12 +263,9 @@ class OuterProduct(BaseProduct):
         output = lls[0]
         for i in range(1, len(lls)):
             output = output.unsqueeze(3) + lls[i].unsqueeze(2)
-            if output.ndim == 4:
-                output = output.view(output.size(0), self.out_shape.features, -1)
-            elif output.ndim == 5:
-                output = output.view(output.size(0), self.out_shape.features, -1, self.out_shape.repetitions)
-            else:
+            if output.ndim not in (4, 5):
                 raise ValueError("Invalid number of dimensions")
+            output = output.flatten(start_dim=2, end_dim=3)
 
         # View as [b, n, m1 * m2, r]
         if self.out_shape.repetitions is None:
-- 
2.43.0


From 93222074308fb610299a36fe634ac98c2e25fedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:42 +0000
Subject: [PATCH 053/106] fix: unseeded samples of the density estimator
 repeated themselves

---
 spflow/interfaces/sklearn.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spflow/interfaces/sklearn.py b/spflow/interfaces/sklearn.py
index 7a06a3d..6d76b36 100644
--- a/spflow/interfaces/sklearn.py
+++ b/spflow/interfaces/sklearn.py
@@ -285,15 +285,19 @@ class SPFlowDensityEstimator(BaseEstimator, DensityMixin):
         if random_state is not None and not isinstance(random_state, (int, np.integer)):
             raise InvalidTypeError(f"random_state must be an int or None, got {type(random_state)}.")
 
-        seed = int(random_state) if random_state is not None else None
+        if random_state is None:
+            # Continue the global random stream, so that successive calls give new samples.
+            with torch.no_grad():
+                samples = self.model_.sample(num_samples=n_samples)
+            return samples.detach().cpu().numpy()
+
         device = self._device()
         cuda_devices: list[int] = []
         if device.type == "cuda":
             cuda_devices = [device.index or 0]
 
         with torch.random.fork_rng(devices=cuda_devices):
-            if seed is not None:
-                torch.manual_seed(seed)
+            torch.manual_seed(int(random_state))
             with torch.no_grad():
                 samples = self.model_.sample(num_samples=n_samples)
         return samples.detach().cpu().numpy()
-- 
2.43.0


From a1702c13b351cb5715a88e9362aeb8cf379c0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:34 +0000
Subject: [PATCH 054/106] fix: NaN gradients of inner products of Laplace
 leaves with equal scales

---
 spflow/utils/inner_product_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 3550579..bb4f266 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -177,7 +177,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         exp2 = torch.exp(-d / b2)
         term_tails = (exp1 + exp2) / (4.0 * (b1 + b2))
         same = torch.isclose(b1, b2)
-        term_mid = (exp1 - exp2) / (4.0 * (b1 - b2))
+        # Keep the unused branch finite for equal scales, where it would turn gradients into NaN.
+        term_mid = (exp1 - exp2) / (4.0 * torch.where(same, torch.ones_like(b1 - b2), b1 - b2))
         term_mid_same = torch.exp(-d / b1) * d / (4.0 * b1.pow(2))
         return torch.where(same, term_tails + term_mid_same, term_tails + term_mid)
 
-- 
2.43.0


From 8b6f60ed0aa9bef918402e8c334a0ec0c6feb8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:34 +0000
Subject: [PATCH 055/106] fix: NaN inner products of Poisson leaves with large
 rates

---
 spflow/utils/inner_product_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index bb4f266..305f2f3 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -199,8 +199,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         l1 = rearrange(a.rate.to(dtype=torch.float64), "f ci r -> f ci 1 r").clamp_min(0.0)
         l2 = rearrange(b.rate.to(dtype=torch.float64), "f co r -> f 1 co r").clamp_min(0.0)
         z = 2.0 * torch.sqrt((l1 * l2).clamp_min(0.0))
-        i0 = getattr(torch, "i0", torch.special.i0)
-        return torch.exp(-(l1 + l2)) * i0(z)
+        # exp(-(l1 + l2)) * i0(z), with the exponentially scaled Bessel function to avoid inf * 0.
+        return torch.exp(z - (l1 + l2)) * torch.special.i0e(z)
 
     if isinstance(a, Gamma) and isinstance(b, Gamma):
         a1 = rearrange(a.concentration.to(dtype=torch.float64), "f ci r -> f ci 1 r").clamp_min(1e-30)
-- 
2.43.0


From fb88190bdee49fd9300044a81461554028ffe3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:29 +0000
Subject: [PATCH 056/106] fix: inner products of negative binomial leaves
 dropped all counts above 4096

---
 spflow/utils/inner_product_core.py | 33 +++++++++++++++++-------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 305f2f3..2ec9015 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -97,15 +97,20 @@ def _series_logsumexp(
     device: torch.device,
     dtype: torch.dtype = torch.float64,
 ) -> Tensor:
-    # Generic positive-series accumulator in log-space. log_terms_fn(k) -> log term tensor.
+    # Generic positive-series accumulator in log-space. log_terms_fn(k) -> log terms of a block of
+    # indices k, stacked along a new leading dimension.
+    log_tol = torch.log(torch.tensor(tol, dtype=dtype, device=device))
     logS = torch.full((), float("-inf"), dtype=dtype, device=device)
-    for k in range(max_k + 1):
-        lt = log_terms_fn(k)
-        logS = torch.logaddexp(logS, lt)
-        if k >= 32:
-            # Relative contribution bound: exp(lt-logS) < tol
-            if torch.all((lt - logS) < torch.log(torch.tensor(tol, dtype=dtype, device=device))):
-                break
+    block = 64
+    start = 0
+    while start <= max_k:
+        stop = min(start + block, max_k + 1)
+        terms = log_terms_fn(torch.arange(start, stop, dtype=dtype, device=device))
+        logS = torch.logaddexp(logS, torch.logsumexp(terms, dim=0))
+        # Relative contribution bound: exp(last term - logS) < tol
+        if torch.all((terms[-1] - logS) < log_tol):
+            break
+        start, block = stop, min(2 * block, 4096)
     return logS
 
 
@@ -291,8 +296,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         p2 = rearrange(b.probs.to(dtype=torch.float64), "f co r -> f 1 co r").clamp_min(1e-30).clamp_max(1.0)
         q = p1 * p2
 
-        def log_term(k: int) -> Tensor:
-            kk = torch.tensor(float(k), dtype=torch.float64, device=q.device)
+        def log_term(k: Tensor) -> Tensor:
+            kk = rearrange(k, "k -> k 1 1 1 1")
             # (r1)_k (r2)_k / (k!)^2 * (p1 p2)^k * (1-p1)^r1 (1-p2)^r2
             lt = (
                 torch.lgamma(r1 + kk)
@@ -305,7 +310,7 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
             const = r1 * torch.log((1.0 - p1).clamp_min(1e-30)) + r2 * torch.log((1.0 - p2).clamp_min(1e-30))
             return lt + const
 
-        logS = _series_logsumexp(log_terms_fn=log_term, max_k=4096, tol=1e-12, device=q.device)
+        logS = _series_logsumexp(log_terms_fn=log_term, max_k=10**7, tol=1e-12, device=q.device)
         return torch.exp(logS)
 
     if isinstance(a, Histogram) and isinstance(b, Histogram):
@@ -846,8 +851,8 @@ def triple_product_tensor(
             )
             q = p1 * p2 * p3
 
-            def log_term(k: int) -> Tensor:
-                kk = torch.tensor(float(k), dtype=torch.float64, device=q.device)
+            def log_term(k: Tensor) -> Tensor:
+                kk = rearrange(k, "k -> k 1 1 1 1 1")
                 lt = (
                     torch.lgamma(r1 + kk)
                     - torch.lgamma(r1)
@@ -865,7 +870,7 @@ def triple_product_tensor(
                 )
                 return lt + const
 
-            logS = _series_logsumexp(log_terms_fn=log_term, max_k=4096, tol=1e-12, device=q.device)
+            logS = _series_logsumexp(log_terms_fn=log_term, max_k=10**7, tol=1e-12, device=q.device)
             out = torch.exp(logS)
         elif isinstance(a, Histogram) and isinstance(b, Histogram) and isinstance(c, Histogram):
             edges1 = a.bin_edges.to(dtype=torch.float64, device=a.device)
-- 
2.43.0


From df4de38bf6fa9652f5241331017b9134738cf1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:41 +0000
Subject: [PATCH 057/106] fix: inner products of histograms with a single bin
 had the wrong shape

---
 spflow/utils/inner_product_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 2ec9015..13442d4 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -341,8 +341,8 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         in2 = (mids >= edges2[0]) & (mids < edges2[-1])
         mask = (in1 & in2).to(dtype=torch.float64)
 
-        d1 = dens1.index_select(-1, idx1).squeeze(-1)  # (F,Ca,1,R,S)
-        d2 = dens2.index_select(-1, idx2).squeeze(-1)  # (F,1,Cb,R,S)
+        d1 = dens1.index_select(-1, idx1)  # (F,Ca,1,R,S)
+        d2 = dens2.index_select(-1, idx2)  # (F,1,Cb,R,S)
         prod = d1 * d2  # (F,Ca,Cb,R,S)
         out = torch.sum(prod * rearrange(seg_len * mask, "s -> 1 1 1 1 s"), dim=-1)
         return out
-- 
2.43.0


From 7368dd78e5e66250cbe87f6a5d3e6381487416fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:15 +0000
Subject: [PATCH 058/106] fix: inner products paired the features of leaves
 whose variables are ordered differently

---
 spflow/utils/inner_product_core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 13442d4..ea58cc5 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -54,6 +54,9 @@ def _ensure_same_scope(a: Module, b: Module) -> None:
 
 
 def _leaf_event_shape_ok(a: LeafModule, b: LeafModule) -> None:
+    if tuple(a.scope.query) != tuple(b.scope.query):
+        # Features are paired by position.
+        raise ShapeError(f"Leaf variables must be in the same order: {a.scope.query} vs {b.scope.query}.")
     if a.out_shape.features != b.out_shape.features:
         raise ShapeError("Leaf features must match for inner product.")
     if a.out_shape.repetitions != b.out_shape.repetitions:
@@ -669,6 +672,8 @@ def triple_product_tensor(
     )
 
     if a_is_leaf_like and b_is_leaf_like and c_is_leaf_like:
+        _leaf_event_shape_ok(cast(LeafModule, a), cast(LeafModule, b))
+        _leaf_event_shape_ok(cast(LeafModule, a), cast(LeafModule, c))
         # Handle a subset of leaf triples explicitly; otherwise reduce to finite sums/interval overlap where possible.
         if (
             _SignedCategorical is not None
-- 
2.43.0


From 5b981a19552ca1431734bd0b2485deaf1f369f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 059/106] fix: no absolute-weight proposal (hence no SOCS
 samples) for signed sums with several channels

---
 spflow/learn/build_socs.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/spflow/learn/build_socs.py b/spflow/learn/build_socs.py
index 25d6708..5160c4c 100644
--- a/spflow/learn/build_socs.py
+++ b/spflow/learn/build_socs.py
@@ -126,7 +126,6 @@ def build_abs_weight_proposal(component: Module, *, eps: float = 1e-8) -> Module
         w = w / w.sum(dim=1, keepdim=True).clamp_min(1e-12)
         return Sum(
             inputs=node.inputs,
-            out_channels=node.out_shape.channels,
             num_repetitions=node.out_shape.repetitions,
             weights=w,
         )
-- 
2.43.0


From 972838130918e82636784925365ed4e02d691f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 060/106] fix: zero weights of signed sums had no derivative,
 and exact zeros gave NaN derivatives

---
 spflow/modules/sums/signed_sum.py | 13 ++++++-------
 spflow/utils/signed_semiring.py   | 19 +++++++------------
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/spflow/modules/sums/signed_sum.py b/spflow/modules/sums/signed_sum.py
index 8b0e497..b25075f 100644
--- a/spflow/modules/sums/signed_sum.py
+++ b/spflow/modules/sums/signed_sum.py
@@ -16,7 +16,7 @@ from spflow.utils.sampling_context import (
     SamplingContext,
     update_channel_index_strict,
 )
-from spflow.utils.signed_semiring import signed_logsumexp, sign_of
+from spflow.utils.signed_semiring import signed_logsumexp
 
 
 class SignedSum(Module):
@@ -152,13 +152,12 @@ class SignedSum(Module):
         ss = rearrange(child_sign, "b f ci r -> b f ci 1 r").to(dtype=torch.int8)
 
         w = rearrange(self.weights, "f ci co r -> 1 f ci co r")
-        w_sign = sign_of(w).to(dtype=torch.int8)
-        # Avoid log(0) for zero weights; zero-weight terms should contribute nothing.
-        w_logabs = torch.log(torch.abs(w).clamp_min(1e-30))
-
         # Terms: w * x = sign(w)*sign(x) * exp(log|w|+log|x|)
-        term_sign = (w_sign * ss).to(dtype=torch.int8)
-        term_logabs = ll + w_logabs  # broadcast over batch
+        # Zero-weight terms contribute nothing (and avoid log(0)). The weights' derivative flows through the
+        # signed factor, so that it is also right for zero weights, where log|w| has none.
+        w_abs = torch.abs(w.detach()).clamp_min(1e-30)
+        term_sign = (w / w_abs) * ss
+        term_logabs = ll + torch.log(w_abs)  # broadcast over batch
 
         out_logabs, out_sign = signed_logsumexp(
             logabs_terms=term_logabs,
diff --git a/spflow/utils/signed_semiring.py b/spflow/utils/signed_semiring.py
index 106a05a..c0b6bdb 100644
--- a/spflow/utils/signed_semiring.py
+++ b/spflow/utils/signed_semiring.py
@@ -52,30 +52,25 @@ def signed_logsumexp(
     if logabs_terms.numel() == 0:
         raise ValueError("signed_logsumexp requires at least one term.")
 
-    # m = max(a_i) for stability (treat -inf properly)
-    m = torch.max(logabs_terms, dim=dim, keepdim=True).values
-
-    # If all terms are -inf along `dim`, the sum is exactly 0.
-    # Avoid exp(nan) from (-inf) - (-inf).
+    # m = max(a_i) for stability. If all terms are -inf along `dim`, the sum is exactly 0: avoid (-inf) - (-inf).
+    m = torch.max(logabs_terms.detach(), dim=dim, keepdim=True).values
     all_neg_inf = torch.isneginf(m)
+    m = torch.where(all_neg_inf, torch.zeros_like(m), m)
 
     # exp(a_i - m) is in [0, 1] for finite a_i
     scaled = torch.exp(logabs_terms - m)
-    if all_neg_inf.any():
-        scaled = torch.where(all_neg_inf, torch.zeros_like(scaled), scaled)
     signed_scaled = scaled * sign_terms.to(dtype=scaled.dtype)
     s = torch.sum(signed_scaled, dim=dim, keepdim=True)
 
-    # Handle zeros safely
+    # Handle zeros safely: log(0) = -inf, without a NaN derivative
     sign_s = sign_of(s)
     abs_s = torch.abs(s)
     if eps > 0.0:
         abs_s = abs_s + abs_s.new_tensor(eps)
 
-    logabs_s = torch.log(abs_s)
-    out_logabs = m + logabs_s
-    if all_neg_inf.any():
-        out_logabs = torch.where(all_neg_inf, torch.full_like(out_logabs, float("-inf")), out_logabs)
+    is_zero = all_neg_inf | (abs_s == 0)
+    logabs_s = torch.log(torch.where(is_zero, torch.ones_like(abs_s), abs_s))
+    out_logabs = torch.where(is_zero, torch.full_like(logabs_s, float("-inf")), m + logabs_s)
 
     if not keepdim:
         out_logabs = out_logabs.squeeze(dim)
-- 
2.43.0


From d97a10bffc9f3d3df57c33296a5198844ff10042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 061/106] fix: Monte Carlo information measures sampled only
 the first of several outputs

---
 spflow/measures/_utils.py             | 22 ++++++++++++++++++++++
 spflow/measures/information_theory.py | 13 ++++++++++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/spflow/measures/_utils.py b/spflow/measures/_utils.py
index e61f1ba..0a69b52 100644
--- a/spflow/measures/_utils.py
+++ b/spflow/measures/_utils.py
@@ -13,6 +13,8 @@ from spflow.modules.leaves.bernoulli import Bernoulli
 from spflow.modules.leaves.categorical import Categorical
 from spflow.modules.leaves.leaf import LeafModule
 from spflow.modules.module import Module
+from spflow.utils.cache import Cache
+from spflow.utils.sampling_context import SamplingContext
 
 
 def as_scope(scope: Scope | int | Iterable[int] | None) -> Scope:
@@ -72,6 +74,26 @@ def reduce_log_likelihood(
     return ll
 
 
+def draw_samples(model: Module, num_samples: int, *, channel_agg: str, repetition_agg: str) -> Tensor:
+    """Draw samples from the distribution that ``reduce_log_likelihood`` evaluates.
+
+    For several output channels or repetitions this is their uniform mixture, or the first one for ``"first"``.
+    """
+    shape = model.out_shape
+    channels = 1 if channel_agg == "first" else shape.channels
+    repetitions = 1 if repetition_agg == "first" else shape.repetitions
+    if channels == 1 and repetitions == 1:
+        return model.sample(num_samples=num_samples)
+    channel_index = torch.randint(channels, (num_samples, 1), device=model.device).expand(-1, shape.features)
+    sampling_ctx = SamplingContext(
+        channel_index=channel_index.contiguous(),
+        mask=torch.ones_like(channel_index, dtype=torch.bool),
+        repetition_index=torch.randint(repetitions, (num_samples,), device=model.device),
+    )
+    data = model._prepare_sample_data(num_samples=num_samples, data=None)
+    return model._sample(data=data, sampling_ctx=sampling_ctx, cache=Cache())
+
+
 def iter_modules(module: Module) -> Iterator[Module]:
     """Yield all modules in a probabilistic circuit (pre-order)."""
     yield module
diff --git a/spflow/measures/information_theory.py b/spflow/measures/information_theory.py
index 140e409..9e1089a 100644
--- a/spflow/measures/information_theory.py
+++ b/spflow/measures/information_theory.py
@@ -8,6 +8,7 @@ from torch import Tensor
 from spflow.exceptions import InvalidParameterError, UnsupportedOperationError
 from spflow.measures._utils import (
     as_scope,
+    draw_samples,
     fork_rng,
     infer_discrete_domains,
     reduce_log_likelihood,
@@ -80,7 +81,9 @@ def entropy(
     with fork_rng(seed, model.device) as _:
         if seed is not None:
             torch.manual_seed(seed)
-        samples = model.sample(num_samples=num_samples)
+        samples = draw_samples(
+            model, num_samples, channel_agg=channel_agg, repetition_agg=repetition_agg
+        )
 
     d = samples.shape[1]
     evidence = torch.full((num_samples, d), torch.nan, device=samples.device, dtype=samples.dtype)
@@ -143,7 +146,9 @@ def mutual_information(
     with fork_rng(seed, model.device) as _:
         if seed is not None:
             torch.manual_seed(seed)
-        samples = model.sample(num_samples=num_samples)
+        samples = draw_samples(
+            model, num_samples, channel_agg=channel_agg, repetition_agg=repetition_agg
+        )
 
     d = samples.shape[1]
     x_rvs = list(x_scope.query)
@@ -228,7 +233,9 @@ def conditional_mutual_information(
     with fork_rng(seed, model.device) as _:
         if seed is not None:
             torch.manual_seed(seed)
-        samples = model.sample(num_samples=num_samples)
+        samples = draw_samples(
+            model, num_samples, channel_agg=channel_agg, repetition_agg=repetition_agg
+        )
 
     d = samples.shape[1]
     x_rvs = list(x_scope.query)
-- 
2.43.0


From 04720f680c7d13ab40d9dac9d4bcfd0440ac8602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 062/106] fix: leave-one-out weight of evidence scored missing
 entries

---
 spflow/measures/weight_of_evidence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/measures/weight_of_evidence.py b/spflow/measures/weight_of_evidence.py
index 98c5b48..8308e55 100644
--- a/spflow/measures/weight_of_evidence.py
+++ b/spflow/measures/weight_of_evidence.py
@@ -203,7 +203,7 @@ def weight_of_evidence_leave_one_out(
             repetition_agg=repetition_agg,
         )
 
-        out[:, j] = w
+        out[:, j] = torch.where(score_mask[:, j], w, torch.full_like(w, torch.nan))
 
     return out
 
-- 
2.43.0


From 25c7b661780bac21acdc6dbb3fe1f2c40cd1e3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 063/106] fix: weighted sums ignored evidence and the mass of
 their inputs when sampling

Routing used the raw weights only, so conditional samples were independent of the
evidence, unnormalised inputs were drawn with wrong frequencies, and rows routed
elsewhere could raise.
---
 spflow/zoo/pic/weighted_sum.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/spflow/zoo/pic/weighted_sum.py b/spflow/zoo/pic/weighted_sum.py
index 8281293..d2ec3aa 100644
--- a/spflow/zoo/pic/weighted_sum.py
+++ b/spflow/zoo/pic/weighted_sum.py
@@ -251,20 +251,45 @@ class WeightedSum(Module):
         weights = weights.gather(dim=3, index=idxs)
         weights = rearrange(weights, "b f ci 1 -> b f ci")
 
+        # Weight each input by the likelihood it assigns to the evidence, or by its total mass (inputs may be
+        # unnormalized) if there is none.
+        input_lls = cache["log_likelihood"].get(self.inputs)
+        if input_lls is None:
+            mass_cache = cache.extras.setdefault("weighted_sum_mass_cache", Cache())
+            unobserved = torch.full_like(data[:1], float("nan"))
+            input_lls = self.inputs.log_likelihood(unobserved, cache=mass_cache)
+        input_lls = input_lls.detach().to(device=weights.device, dtype=weights.dtype)
+        input_lls = input_lls.expand(batch_size, -1, -1, -1)
+        indices = repeat(
+            rearrange(sampling_ctx.repetition_index, "... -> (...)"),
+            "b -> b f ci 1",
+            f=num_features,
+            ci=num_input_channels,
+        )
+        if input_lls.shape[-1] == 1:
+            indices = torch.zeros_like(indices)
+        input_lls = torch.gather(input_lls, dim=-1, index=indices).squeeze(-1)
+        log_weights = torch.log(weights) + input_lls
+        offset = log_weights.amax(dim=-1, keepdim=True)
+        weights = torch.exp(log_weights - torch.where(torch.isfinite(offset), offset, torch.zeros_like(offset)))
+
         # Sample from categorical distribution
         if sampling_ctx.is_mpe:
             new_channel_index = torch.argmax(weights, dim=-1)
         else:
             # Normalize for sampling (temporary normalization for distribution)
             denom = weights.sum(dim=-1, keepdim=True)
-            invalid_rows = (denom <= 0).squeeze(-1)
+            impossible_rows = (denom <= 0).squeeze(-1)
+            invalid_rows = impossible_rows & sampling_ctx.mask.to(device=denom.device)
             if invalid_rows.any():
                 num_invalid_rows = int(invalid_rows.sum().item())
                 raise ShapeError(
                     "WeightedSum.sample encountered zero-sum routing weights for "
                     f"{num_invalid_rows} feature rows. Sampling is undefined for these rows."
                 )
-            probs = weights / denom
+            # Inactive rows are not sampled; give them any valid distribution.
+            weights = torch.where(rearrange(impossible_rows, "b f -> b f 1"), torch.ones_like(weights), weights)
+            probs = weights / weights.sum(dim=-1, keepdim=True)
             new_channel_index = torch.distributions.Categorical(probs=probs).sample()
 
         update_channel_index_strict(sampling_ctx, new_channel_index)
-- 
2.43.0


From adbff60d514d082ddab9c02077d260e2d16e7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 064/106] fix: tensorised PIC layers returned NaN for
 impossible inputs and let padding take part in the maximum

---
 spflow/zoo/pic/tensorized/cp.py    |  3 ++-
 spflow/zoo/pic/tensorized/utils.py | 14 +++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/spflow/zoo/pic/tensorized/cp.py b/spflow/zoo/pic/tensorized/cp.py
index eb28177..4f22f30 100644
--- a/spflow/zoo/pic/tensorized/cp.py
+++ b/spflow/zoo/pic/tensorized/cp.py
@@ -145,7 +145,8 @@ class UncollapsedCPLayer(TensorizedLayer):
         """Reduce across arity dimension with optional masking."""
         if self.fold_mask is not None:
             mask_shape = self.fold_mask.shape + (1,) * (x.ndim - self.fold_mask.ndim)
-            x = x * self.fold_mask.view(mask_shape)
+            mask = self.fold_mask.to(dtype=torch.bool, device=x.device).view(mask_shape)
+            x = torch.where(mask, x, torch.zeros_like(x))
         return x.sum(dim=1)
 
     def _forward_out_linear(self, x: Tensor) -> Tensor:
diff --git a/spflow/zoo/pic/tensorized/utils.py b/spflow/zoo/pic/tensorized/utils.py
index 4a608fe..eb1e293 100644
--- a/spflow/zoo/pic/tensorized/utils.py
+++ b/spflow/zoo/pic/tensorized/utils.py
@@ -32,6 +32,8 @@ def log_func_exp(*x: Tensor, func: Callable[..., Tensor], dim: int, keepdim: boo
 
     # Find max for numerical stability (per tensor)
     max_x = [torch.max(xi, dim=dim, keepdim=True)[0] for xi in x]
+    # Impossible slices (all -inf) stay impossible: avoid (-inf) - (-inf)
+    max_x = [torch.where(torch.isneginf(m), torch.zeros_like(m), m) for m in max_x]
 
     # Subtract max and exponentiate
     exp_x = [torch.exp(xi - xi_max) for xi, xi_max in zip(x, max_x)]
@@ -112,12 +114,14 @@ def eval_mixing(x: Tensor, weights: Tensor, fold_mask: Tensor | None = None) ->
         Output log-probabilities (F, K, *B).
     """
 
+    if fold_mask is not None:
+        # Mask in log-space, so that padding does not take part in the maximum either
+        mask = fold_mask.to(dtype=torch.bool, device=x.device).view(
+            fold_mask.shape + (1,) * (x.ndim - fold_mask.ndim)
+        )
+        x = torch.where(mask, x, torch.full_like(x, float("-inf")))
+
     def linear(x_prob: Tensor) -> Tensor:
-        if fold_mask is not None:
-            mask = fold_mask.to(dtype=x_prob.dtype, device=x_prob.device).view(
-                fold_mask.shape + (1,) * (x_prob.ndim - fold_mask.ndim)
-            )
-            x_prob = x_prob * mask
         return torch.einsum("fhk,fhk...->fk...", weights, x_prob)
 
     return log_func_exp(x, func=linear, dim=1, keepdim=False)
-- 
2.43.0


From 382e54ccd68bacce299ebde06e38c8f77ace3218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 065/106] fix: TensorizedQPC cast its quadrature to the data
 type and returned NaN for missing values

---
 spflow/zoo/pic/tensorized/qpc.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/spflow/zoo/pic/tensorized/qpc.py b/spflow/zoo/pic/tensorized/qpc.py
index 2cfb8ba..929ff81 100644
--- a/spflow/zoo/pic/tensorized/qpc.py
+++ b/spflow/zoo/pic/tensorized/qpc.py
@@ -488,12 +488,19 @@ class TensorizedQPC(Module):
     @cached
     def log_likelihood(self, data: Tensor, cache: Cache | None = None) -> Tensor:
         data = data.to(device=self.device)
-        z_quad = self.quadrature_rule.points.to(device=self.device, dtype=data.dtype)
-        w_quad = self.quadrature_rule.weights.to(device=self.device, dtype=data.dtype)
+        dtype = next(self.parameters()).dtype
+        z_quad = self.quadrature_rule.points.to(device=self.device, dtype=dtype)
+        w_quad = self.quadrature_rule.weights.to(device=self.device, dtype=dtype)
 
         # Leaf parameterization and leaf log-likelihoods.
         leaf_param = self.input_net(z_quad, n_chunks=self.config.n_chunks)  # (V,K,P)
-        leaf_ll = self._leaf_log_likelihood(data, leaf_param)  # (B,V,K)
+        missing = torch.isnan(data)
+        leaf_ll = self._leaf_log_likelihood(
+            torch.where(missing, torch.zeros_like(data), data), leaf_param
+        )  # (B,V,K)
+        # Missing values are marginalized out
+        missing = rearrange(missing[:, self._leaf_vars.to(device=data.device)], "b v -> b v 1")
+        leaf_ll = torch.where(missing, torch.zeros_like(leaf_ll), leaf_ll)
 
         # Initial folded outputs for leaf regions: (F0, K, B)
         x0 = rearrange(leaf_ll, "b v k -> v k b").contiguous()
-- 
2.43.0


From 5a9e405a80cfe943e7d2765da7ab9272f94ce2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 066/106] fix: materialising shared integral functions failed
 for F-sharing and recursed for nested units

---
 spflow/zoo/pic/pipeline.py | 99 ++++++++------------------------------
 1 file changed, 20 insertions(+), 79 deletions(-)

diff --git a/spflow/zoo/pic/pipeline.py b/spflow/zoo/pic/pipeline.py
index 4fbed5f..98248a1 100644
--- a/spflow/zoo/pic/pipeline.py
+++ b/spflow/zoo/pic/pipeline.py
@@ -506,66 +506,28 @@ def pic2qpc(
             out = torch.kron(out, w)
         return out
 
-    def materialize_integral_group(group: FunctionGroup) -> None:
-        # Collect only Integral units.
-        units = [u for u in group.units if isinstance(u, Integral)]
-        if len(units) == 0:
-            return
-
-        # Ensure children compiled.
-        for u in units:
-            _visit(u.inputs)
-
-        # Group by (out_dim, in_dim) because root/other integrals may differ.
-        buckets: Dict[Tuple[int, int], list[Integral]] = {}
-        for u in units:
-            z_dim = len(u.latent_scope.query)
-            y_dim = len(u.integrated_latent_scope.query)
-            buckets.setdefault((z_dim, y_dim), []).append(u)
+    group_values: Dict[Tuple[FunctionGroup, int, int], Tensor] = {}
 
-        for (z_dim, y_dim), bucket in buckets.items():
-            if z_dim == 0:
-                # Skip scalar-output integrals (typically root).
-                continue
+    def integral_values(u: Integral, *, device, dtype) -> Tensor:
+        """Evaluate the function of an integral on all (out_ch, in_ch) pairs of quadrature points."""
+        z_dim = len(u.latent_scope.query)
+        y_query = u.integrated_latent_scope.query
 
-            device = group.mlp.fourier.B.device
-            dtype = quadrature_rule.points.dtype
+        z_grid = grid_points(z_dim, device=device, dtype=dtype)  # (K^z, z_dim)
+        y_grid = grid_points(len(y_query), device=device, dtype=dtype)  # (K^y, y_dim)
 
-            z_grid = grid_points(z_dim, device=device, dtype=dtype)  # (K^z, z_dim)
-            y_grid = grid_points(y_dim, device=device, dtype=dtype)  # (K^y, y_dim)
-
-            out_ch = z_grid.shape[0]
-            in_ch = y_grid.shape[0]
-
-            # Broadcast into (out_ch, in_ch, dim).
-            num_output_channels = out_ch
-            num_input_channels = in_ch
-            z = repeat(z_grid, "co zd -> co ci zd", ci=num_input_channels)
-            y = repeat(y_grid, "ci yd -> co ci yd", co=num_output_channels)
-
-            vals_all = group.evaluate_batched(z, y)  # (num_heads, out_ch, in_ch)
-
-            y_w = kron_weights(y_dim, device=vals_all.device, dtype=vals_all.dtype)  # (in_ch,)
-            vals_all = vals_all * rearrange(y_w, "ci -> 1 1 ci")
-
-            for u in bucket:
-                head_idx = u.function_head_idx
-                if head_idx is None:
-                    continue
-                if u in L:
-                    continue
-                child = L[u.inputs]
-                if child.out_shape.channels != in_ch:
-                    raise ShapeError(
-                        f"Integral child channels mismatch: expected {in_ch}, got {child.out_shape.channels}."
-                    )
-                weights_mat = rearrange(vals_all[head_idx], "co ci -> ci co")
-                weights_full = repeat(
-                    rearrange(weights_mat, "ci co -> 1 ci co 1"),
-                    "1 ci co 1 -> f ci co 1",
-                    f=child.out_shape.features,
-                )
-                L[u] = WeightedSum(inputs=child, weights=weights_full)
+        z = repeat(z_grid, "co zd -> co ci zd", ci=y_grid.shape[0])
+        y = repeat(y_grid, "ci yd -> co ci yd", co=z_grid.shape[0])
+
+        if not isinstance(u.function, FunctionGroup):
+            return u.function(z, y)  # type: ignore[misc]
+
+        # Evaluate all units of a function group at once.
+        key = (u.function, z_dim, len(y_query))
+        if key not in group_values:
+            group_values[key] = u.function.evaluate_batched(z, y)  # (num_heads, out_ch, in_ch)
+        head = 0 if u.function.sharing_type == "f" else (u.function_head_idx or 0)
+        return group_values[key][head]
 
     def _visit(u: Module) -> Module:
         if u in L:
@@ -618,17 +580,9 @@ def pic2qpc(
             return L[u]
 
         if isinstance(u, Integral):
-            # If the integral uses a function group, materialize the whole group at once.
-            if isinstance(u.function, FunctionGroup):
-                materialize_integral_group(u.function)
-                if u in L:
-                    return L[u]
-
             child = _visit(u.inputs)
 
-            z_dim = len(u.latent_scope.query)
             y_dim = len(u.integrated_latent_scope.query)
-            out_ch = k_pow(u.latent_scope)
             in_ch = k_pow(u.integrated_latent_scope)
 
             if child.out_shape.channels != in_ch:
@@ -640,20 +594,7 @@ def pic2qpc(
 
             device = u.function.mlp.fourier.B.device if isinstance(u.function, FunctionGroup) else child.device
             dtype = quadrature_rule.points.dtype
-            z_grid = grid_points(z_dim, device=device, dtype=dtype)
-            y_grid = grid_points(y_dim, device=device, dtype=dtype)
-
-            num_output_channels = out_ch
-            num_input_channels = in_ch
-            z = repeat(z_grid, "co zd -> co ci zd", ci=num_input_channels)
-            y = repeat(y_grid, "ci yd -> co ci yd", co=num_output_channels)
-
-            if isinstance(u.function, FunctionGroup):
-                head = 0 if u.function.sharing_type == "f" else (u.function_head_idx or 0)
-                vals = u.function.evaluate_batched(z, y)[head]
-            else:
-                vals = u.function(z, y)  # type: ignore[misc]
-
+            vals = integral_values(u, device=device, dtype=dtype)
             y_w = kron_weights(y_dim, device=vals.device, dtype=vals.dtype)
             Wf = vals * rearrange(y_w, "ci -> 1 ci")  # (out_ch, in_ch)
 
-- 
2.43.0


From a419cda0dbbd8b9cc3e3d629440e4bfcf9292c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 067/106] fix: integral functions were evaluated with latent
 columns in the wrong order

The columns of y follow the integrated scope (sorted by PICProduct), while the
channels of an outer product follow its operands.
---
 spflow/zoo/pic/pipeline.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/spflow/zoo/pic/pipeline.py b/spflow/zoo/pic/pipeline.py
index 98248a1..705f3e5 100644
--- a/spflow/zoo/pic/pipeline.py
+++ b/spflow/zoo/pic/pipeline.py
@@ -506,15 +506,34 @@ def pic2qpc(
             out = torch.kron(out, w)
         return out
 
-    group_values: Dict[Tuple[FunctionGroup, int, int], Tensor] = {}
+    group_values: Dict[Tuple[FunctionGroup, int, Tuple[int, ...]], Tensor] = {}
+
+    def latent_order(u: Module) -> Tuple[int, ...]:
+        """Return the latent variables of a unit in the order of its materialized channel axes."""
+        if isinstance(u, PICProduct):
+            z_left = getattr(u.left, "latent_scope", Scope([]))
+            z_right = getattr(u.right, "latent_scope", Scope([]))
+            if z_left == z_right:
+                return latent_order(u.left)
+            return latent_order(u.left) + latent_order(u.right)
+        if isinstance(u, PICSum):
+            return latent_order(u.inputs[0])
+        return tuple(getattr(u, "latent_scope", Scope([])).query)
 
     def integral_values(u: Integral, *, device, dtype) -> Tensor:
         """Evaluate the function of an integral on all (out_ch, in_ch) pairs of quadrature points."""
         z_dim = len(u.latent_scope.query)
         y_query = u.integrated_latent_scope.query
 
+        # The columns of y follow the integrated scope, the input channels follow the child's latent axes.
+        child_order = latent_order(u.inputs)
+        if set(child_order) == set(y_query):
+            columns = tuple(child_order.index(rv) for rv in y_query)
+        else:
+            columns = tuple(range(len(y_query)))
+
         z_grid = grid_points(z_dim, device=device, dtype=dtype)  # (K^z, z_dim)
-        y_grid = grid_points(len(y_query), device=device, dtype=dtype)  # (K^y, y_dim)
+        y_grid = grid_points(len(y_query), device=device, dtype=dtype)[:, list(columns)]  # (K^y, y_dim)
 
         z = repeat(z_grid, "co zd -> co ci zd", ci=y_grid.shape[0])
         y = repeat(y_grid, "ci yd -> co ci yd", co=z_grid.shape[0])
@@ -523,7 +542,7 @@ def pic2qpc(
             return u.function(z, y)  # type: ignore[misc]
 
         # Evaluate all units of a function group at once.
-        key = (u.function, z_dim, len(y_query))
+        key = (u.function, z_dim, columns)
         if key not in group_values:
             group_values[key] = u.function.evaluate_batched(z, y)  # (num_heads, out_ch, in_ch)
         head = 0 if u.function.sharing_type == "f" else (u.function_head_idx or 0)
-- 
2.43.0


From c96aceae19bb1ea6ce6cf402aaa7332ceddf117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:28 +0000
Subject: [PATCH 068/106] fix: differentiable routing turned excluded
 components into NaN

---
 spflow/utils/sampling_context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spflow/utils/sampling_context.py b/spflow/utils/sampling_context.py
index 35fe72e..99e22b2 100644
--- a/spflow/utils/sampling_context.py
+++ b/spflow/utils/sampling_context.py
@@ -1117,6 +1117,8 @@ def index_one_hot(tensor: torch.Tensor, index: torch.Tensor, dim: int) -> torch.
         tensor.dim() == index.dim()
     ), f"Tensor and index number of dimensions must be the same but was tensor.dim()={tensor.dim()} and index.dim()={index.dim()}"
 
+    # 0 * inf is NaN: entries that are not selected must not contribute, whatever their value.
+    tensor = torch.where((index == 0) & ~torch.isfinite(tensor), torch.zeros_like(tensor), tensor)
     return torch.sum(tensor * index, dim=dim)
 
 
-- 
2.43.0


From cde1f00a8d1bf6c182afdd7de3e1ca71c3dce086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:37 +0000
Subject: [PATCH 069/106] fix: leaf-parameter records mistook a categorical
 leaf's own axes for a batch

---
 spflow/modules/leaves/leaf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 3475166..014ebce 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -828,7 +828,12 @@ class LeafModule(Module, ABC):
         num_channels = self.out_shape.channels
         num_repetitions = self.out_shape.repetitions
 
-        if param.dim() >= 4 and param.shape[0] == n_active and param.shape[1] == num_features:
+        if (
+            self.is_conditional
+            and param.dim() >= 4
+            and param.shape[0] == n_active
+            and param.shape[1] == num_features
+        ):
             routed = param
         elif param.shape[0] == num_features:
             if param.dim() == 3:
-- 
2.43.0


From 58df1fcd771d0c1c0b315ca75e3e0c14935f46c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:37 +0000
Subject: [PATCH 070/106] fix: differentiable leaf-parameter records rejected
 entries generated by another leaf

---
 spflow/modules/leaves/leaf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 014ebce..230e4fa 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -919,7 +919,7 @@ class LeafModule(Module, ABC):
         return selected_flat.reshape(params.shape[0], params.shape[1], params.shape[2], *tail_shape)
 
     def _select_param_channel(
-        self, *, params: Tensor, channel_index: Tensor, is_differentiable: bool
+        self, *, params: Tensor, channel_index: Tensor, active_mask: Tensor, is_differentiable: bool
     ) -> Tensor:
         """Select routed channel dimension, yielding shape (N, F, *tail)."""
         params_flat = rearrange(params, "n f c ... -> n f c (...)")
@@ -939,7 +939,8 @@ class LeafModule(Module, ABC):
                     "Differentiable channel routing feature width mismatch for leaf parameters: "
                     f"got {channel_weights.shape[1]}, expected 1 or {params.shape[1]}."
                 )
-            one_hot_sums = channel_weights.sum(dim=2)
+            # Entries that are not generated by this leaf carry no channel.
+            one_hot_sums = channel_weights.sum(dim=2)[active_mask]
             if not torch.allclose(one_hot_sums, torch.ones_like(one_hot_sums), rtol=0.0, atol=1e-6):
                 raise ShapeError(
                     "Differentiable channel routing for leaf parameters must be one-hot encoded per (sample, feature)."
@@ -1013,6 +1014,7 @@ class LeafModule(Module, ABC):
             params = self._select_param_channel(
                 params=params,
                 channel_index=channel_index_active,
+                active_mask=active_mask[instance_mask],
                 is_differentiable=sampling_ctx.is_differentiable,
             )
             full_shape = (int(instance_mask.shape[0]), len(scope_cols), *params.shape[2:])
-- 
2.43.0


From 34478c3ca93e5d00c3a21b0e17387a8f7e850cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:24 +0000
Subject: [PATCH 071/106] fix: ConvPc joint encoder ignored the latent
 permutation when sampling

---
 spflow/zoo/apc/encoders/convpc_joint_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/zoo/apc/encoders/convpc_joint_encoder.py b/spflow/zoo/apc/encoders/convpc_joint_encoder.py
index 578b718..ee1abe2 100644
--- a/spflow/zoo/apc/encoders/convpc_joint_encoder.py
+++ b/spflow/zoo/apc/encoders/convpc_joint_encoder.py
@@ -230,7 +230,7 @@ class _LatentFeaturePacking(Module):
         )
 
         ctx_features = sampling_ctx.channel_index.shape[1]
-        if ctx_features == self.in_shape.features:
+        if ctx_features == self.in_shape.features and ctx_features != self.target_features:
             return self.inputs._sample(data=data, cache=cache, sampling_ctx=sampling_ctx)
         if ctx_features == 1:
             num_target_features = self.target_features
-- 
2.43.0


From fbabbef9f8144bb9341a929709b190d7ce4e539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 072/106] fix: ProdConv sampling routed padded images to the
 wrong patches

---
 spflow/modules/conv/prod_conv.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/spflow/modules/conv/prod_conv.py b/spflow/modules/conv/prod_conv.py
index 6c4e282..34a8f1d 100644
--- a/spflow/modules/conv/prod_conv.py
+++ b/spflow/modules/conv/prod_conv.py
@@ -273,27 +273,33 @@ class ProdConv(Module):
                     f"got {upsampled_features}, expected {expected_upsampled_features}."
                 )
 
-            # Handle explicit padding case: trim padded spatial positions to input size.
+            # Handle explicit padding case: drop the padded border so that every input position
+            # keeps the routing of the patch that covers it.
             if upsampled_features > in_features:
-                expected_padded_features = (self._input_h + 2 * self.padding_h) * (
-                    self._input_w + 2 * self.padding_w
-                )
                 if self.padding_h == 0 and self.padding_w == 0:
                     raise ShapeError(
                         "ProdConv.sample received oversized upsampled feature width without padding: "
                         f"got {upsampled_features}, input features are {in_features}."
                     )
-                if upsampled_features != expected_padded_features:
+                up_h = self._output_h * self.kernel_size_h
+                up_w = self._output_w * self.kernel_size_w
+                end_h = self.padding_h + self._input_h
+                end_w = self.padding_w + self._input_w
+                if end_h > up_h or end_w > up_w:
                     raise ShapeError(
-                        "ProdConv.sample only trims in the exact padding case. "
-                        f"Got upsampled width {upsampled_features}, expected padded width "
-                        f"{expected_padded_features}, input width {in_features}."
+                        "ProdConv.sample upsampling does not cover all input positions: "
+                        f"got grid ({up_h}, {up_w}), padded input needs ({end_h}, {end_w})."
                     )
-                channel_idx = sampling_ctx.channel_index[:, :in_features].contiguous()
-                mask = sampling_ctx.mask[:, :in_features].contiguous()
+                channel_idx = sampling_ctx.channel_index
+                mask = sampling_ctx.mask
+                trailing = channel_idx.shape[2:]
+                channel_idx = channel_idx.reshape(channel_idx.shape[0], up_h, up_w, *trailing)
+                mask = mask.reshape(mask.shape[0], up_h, up_w)
+                channel_idx = channel_idx[:, self.padding_h : end_h, self.padding_w : end_w]
+                mask = mask[:, self.padding_h : end_h, self.padding_w : end_w]
                 sampling_ctx.update(
-                    channel_index=channel_idx,
-                    mask=mask,
+                    channel_index=channel_idx.reshape(channel_idx.shape[0], in_features, *trailing),
+                    mask=mask.reshape(mask.shape[0], in_features),
                 )
             elif upsampled_features < in_features:
                 raise ShapeError(
-- 
2.43.0


From 3ba8f6e98be44b8470b38ecfac3923314960aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 073/106] fix: ConvPc padding dropped the last rows and columns
 of images needing an odd padding

---
 spflow/zoo/conv/conv_pc.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/spflow/zoo/conv/conv_pc.py b/spflow/zoo/conv/conv_pc.py
index 30f2c78..b8e5af4 100644
--- a/spflow/zoo/conv/conv_pc.py
+++ b/spflow/zoo/conv/conv_pc.py
@@ -48,19 +48,17 @@ def compute_non_overlapping_kernel_and_padding(
     if H_data <= 0 or W_data <= 0 or H_target <= 0 or W_target <= 0:
         raise ValueError("All dimensions must be positive.")
 
-    # Compute required kernel sizes
-    kH = math.ceil(H_data / H_target)
-    kW = math.ceil(W_data / W_target)
-
-    # Compute padding needed to make input + 2*padding divisible by kernel
-    padded_H = kH * H_target
-    padded_W = kW * W_target
-
-    total_pad_H = max(padded_H - H_data, 0)
-    total_pad_W = max(padded_W - W_data, 0)
-
-    pH = total_pad_H // 2
-    pW = total_pad_W // 2
+    def kernel_and_padding(size: int, target: int) -> tuple[int, int]:
+        kernel = math.ceil(size / target)
+        if kernel == 1 and (target - size) % 2 == 1:
+            # A kernel of width one cannot absorb an odd amount of (symmetric) padding.
+            kernel = 2
+        # Padding is symmetric: round up, otherwise an odd total leaves the last row/column uncovered.
+        padding = (max(kernel * target - size, 0) + 1) // 2
+        return kernel, padding
+
+    kH, pH = kernel_and_padding(H_data, H_target)
+    kW, pW = kernel_and_padding(W_data, W_target)
 
     return (kH, kW), (pH, pW)
 
-- 
2.43.0


From d3919e7361d24f0de27089e3296334f0cb717943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:51 +0000
Subject: [PATCH 074/106] fix: ProdConv claimed the variables of rows and
 columns that fit in no patch

---
 spflow/modules/conv/prod_conv.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/spflow/modules/conv/prod_conv.py b/spflow/modules/conv/prod_conv.py
index 34a8f1d..cba7b35 100644
--- a/spflow/modules/conv/prod_conv.py
+++ b/spflow/modules/conv/prod_conv.py
@@ -105,12 +105,10 @@ class ProdConv(Module):
 
     def _compute_scope(self) -> None:
         """Compute the aggregated scope for this layer."""
-        # Get input scopes
-        input_scopes = self.inputs.feature_to_scope
-
-        # For now, compute overall scope as union of all input scopes
+        # Union of the scopes covered by the output patches (rows or columns that fit in no patch
+        # are not modelled)
         all_rvs = set()
-        for scope in input_scopes.flatten():
+        for scope in self.feature_to_scope.flatten():
             all_rvs.update(scope.query)
         self.scope = Scope(sorted(all_rvs))
 
-- 
2.43.0


From 491d21b759644e0dde27a2f04a7594bb94ef50a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 075/106] fix: interval evidence open or below the support
 raised for exponential, gamma and log-normal leaves

---
 spflow/modules/leaves/leaf.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 230e4fa..7216354 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -535,10 +535,20 @@ class LeafModule(Module, ABC):
             high_expanded,
         )
 
+        # Distributions over a half-line reject bounds below their support: the CDF is 0 there
+        lower_bound = getattr(getattr(dist, "support", None), "lower_bound", None)
+
+        def cdf(value: Tensor) -> Tensor:
+            if lower_bound is None:
+                return dist.cdf(value)
+            below = value <= lower_bound
+            inside = torch.where(below, torch.full_like(value, float("inf")), value)
+            return dist.cdf(inside).masked_fill(below, 0.0)
+
         # Compute CDF values
         try:
-            cdf_high = dist.cdf(high_for_cdf)
-            cdf_low = dist.cdf(low_for_cdf)
+            cdf_high = cdf(high_for_cdf)
+            cdf_low = cdf(low_for_cdf)
         except NotImplementedError:
             raise NotImplementedError(
                 f"{self.__class__.__name__} does not support interval inference. "
-- 
2.43.0


From f9d4f224cb925a552fa77adf81f7d9f1ab1934e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:03 +0000
Subject: [PATCH 076/106] fix: structure statistics, tree view and pictures
 showed no circuit below Einet, NaiveBayes, SOCS and wrapped modules

---
 spflow/utils/module_display.py  | 15 ++++++++++-----
 spflow/utils/structure_stats.py | 14 +++++++++-----
 spflow/utils/visualization.py   | 11 +++++++++--
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/spflow/utils/module_display.py b/spflow/utils/module_display.py
index e2db66f..7097737 100644
--- a/spflow/utils/module_display.py
+++ b/spflow/utils/module_display.py
@@ -10,6 +10,8 @@ from __future__ import annotations
 
 from typing import Optional, Any
 
+from torch import nn
+
 from spflow.modules.module import Module
 
 # Tree view constants
@@ -231,11 +233,14 @@ def _get_module_children(module: Module) -> list[tuple[str, Module]]:
             else:
                 children.append(("inputs", inputs))
 
-    # Check for root_node attribute (RAT-SPN modules)
-    if module.__class__.__name__ == "RatSPN":
-        root_node = module.root_node
-        if root_node is not None and isinstance(root_node, Module):
-            children.append(("root_node", root_node))
+    # Models that keep their circuit in other attributes (wrappers, RatSPN, Einet, NaiveBayes, SOCS)
+    root_node = getattr(module, "root_node", None)
+    if isinstance(root_node, Module):
+        children.append(("root_node", root_node))
+    elif not children and isinstance(module, nn.Module):
+        for name, child in module.named_children():
+            group = child if isinstance(child, nn.ModuleList) else [child]
+            children.extend((name, c) for c in group if isinstance(c, Module))
 
     return children
 
diff --git a/spflow/utils/structure_stats.py b/spflow/utils/structure_stats.py
index d8ae6a2..64cbe3f 100644
--- a/spflow/utils/structure_stats.py
+++ b/spflow/utils/structure_stats.py
@@ -88,7 +88,7 @@ def _iter_structure_children(module: Module) -> list[Module]:
     - Skips ``Cat`` wrappers by yielding their inputs directly.
     - Expands ``nn.ModuleList`` inputs into individual child modules.
     - Includes wrapped modules via the ``Wrapper.module`` attribute.
-    - Includes ``RatSPN.root_node`` as a child.
+    - Includes ``root_node`` (RatSPN, Einet, NaiveBayes), else any registered child modules (SOCS).
 
     Args:
         module: Module whose children should be returned.
@@ -129,10 +129,14 @@ def _iter_structure_children(module: Module) -> list[Module]:
             else:
                 children.append(inputs)
 
-    if module.__class__.__name__ == "RatSPN":
-        root_node = getattr(module, "root_node", None)
-        if isinstance(root_node, Module):
-            children.append(root_node)
+    # Models that keep their circuit in attributes other than ``inputs``
+    root_node = getattr(module, "root_node", None)
+    if isinstance(root_node, Module):
+        children.append(root_node)
+    elif not children and isinstance(module, torch.nn.Module):
+        for child in module.children():
+            group = child if isinstance(child, torch.nn.ModuleList) else [child]
+            children.extend(c for c in group if isinstance(c, Module))
 
     return children
 
diff --git a/spflow/utils/visualization.py b/spflow/utils/visualization.py
index decc7e8..d65a4a8 100644
--- a/spflow/utils/visualization.py
+++ b/spflow/utils/visualization.py
@@ -390,10 +390,17 @@ def _build_graph(
                 edge = pydot.Edge(str(child_id), str(node_id))
                 graph.add_edge(edge)
 
-    # Special handling for RatSPN: traverse through root_node
+    # Models that keep their circuit in other attributes (RatSPN, Einet, NaiveBayes, wrappers, SOCS)
     if hasattr(module, "root_node"):
+        circuit = [module.root_node]
+    elif getattr(module, "inputs", None) is None:
+        groups = [child if isinstance(child, nn.ModuleList) else [child] for child in module.children()]
+        circuit = [child for group in groups for child in group if isinstance(child, Module)]
+    else:
+        circuit = []
+    for child in circuit:
         child_id = _build_graph(
-            module.root_node,
+            child,
             graph,
             show_scope,
             show_shape,
-- 
2.43.0


From 9009b963e5c958eb76b08afa295684bf341d3231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:36 +0000
Subject: [PATCH 077/106] fix: default sample table was narrower than the
 model's highest variable

---
 spflow/modules/module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/module.py b/spflow/modules/module.py
index 392a985..229ca85 100644
--- a/spflow/modules/module.py
+++ b/spflow/modules/module.py
@@ -168,7 +168,9 @@ class Module(nn.Module, ABC):
         if data is None:
             if num_samples is None:
                 num_samples = 1
-            data = torch.full((num_samples, len(self.scope.query)), float("nan")).to(self.device)
+            # Columns are indexed by variable, as log_likelihood expects them
+            num_columns = max(self.scope.query, default=-1) + 1
+            data = torch.full((num_samples, num_columns), float("nan")).to(self.device)
 
         return data
 
-- 
2.43.0


From f80ac323cb408381074320f8212182ee969b13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:36 +0000
Subject: [PATCH 078/106] fix: SOSModel and ExpSOSModel default sample table
 was narrower than the highest variable

---
 spflow/zoo/sos/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spflow/zoo/sos/models.py b/spflow/zoo/sos/models.py
index 82b8cfc..2ecf9ef 100644
--- a/spflow/zoo/sos/models.py
+++ b/spflow/zoo/sos/models.py
@@ -495,7 +495,8 @@ class SOSModel(Module):
         if data is None:
             if num_samples is None:
                 num_samples = 1
-            data = torch.full((num_samples, len(self.scope.query)), float("nan"), device=self.device)
+            num_columns = max(self.scope.query, default=-1) + 1
+            data = torch.full((num_samples, num_columns), float("nan"), device=self.device)
         if cache is None:
             cache = Cache()
         sampling_ctx = SamplingContext(
@@ -655,7 +656,8 @@ class ExpSOSModel(Module):
         if data is None:
             if num_samples is None:
                 num_samples = 1
-            data = torch.full((num_samples, len(self.scope.query)), float("nan"), device=self.device)
+            num_columns = max(self.scope.query, default=-1) + 1
+            data = torch.full((num_samples, num_columns), float("nan"), device=self.device)
         if cache is None:
             cache = Cache()
         sampling_ctx = SamplingContext(
-- 
2.43.0


From 73a23b7b96d9fa60e4f0cf9ab5a0a8140ba8e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:44 +0000
Subject: [PATCH 079/106] fix: exact entropy indexed a table narrower than the
 model's highest variable

---
 spflow/measures/information_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/measures/information_theory.py b/spflow/measures/information_theory.py
index 9e1089a..4e7b169 100644
--- a/spflow/measures/information_theory.py
+++ b/spflow/measures/information_theory.py
@@ -59,7 +59,7 @@ def entropy(
         if grid.dim() == 1:
             grid = grid.unsqueeze(1)
 
-        d = len(model.scope.query)
+        d = max(model.scope.query) + 1  # columns are indexed by variable
         data = torch.full((grid.shape[0], d), torch.nan, device=model.device, dtype=torch.get_default_dtype())
         for j, rv in enumerate(rvs):
             data[:, rv] = grid[:, j]
-- 
2.43.0


From e5d7a4ea2233dc5ff9a062ba2eb71663990010c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:30 +0000
Subject: [PATCH 080/106] fix: SOCS sampling could not fill a table wider than
 the model's highest variable

---
 spflow/modules/sos/socs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/sos/socs.py b/spflow/modules/sos/socs.py
index 9c1064a..edb7fb5 100644
--- a/spflow/modules/sos/socs.py
+++ b/spflow/modules/sos/socs.py
@@ -272,6 +272,7 @@ class SOCS(Module):
         # Sample per-component with an independence MH kernel:
         # target π(x) ∝ c_i(x)^2, proposal q(x) from a monotone PC (either c_i itself or abs-weight proxy).
         out = data.clone()
+        query = torch.tensor(self.scope.query, device=data.device)
         for i, comp in enumerate(self.components):
             mask = comp_idx == i
             if not mask.any():
@@ -302,6 +303,7 @@ class SOCS(Module):
                 log_q_x = torch.where(accept, log_q_p, log_q_x)
                 log_t_x = torch.where(accept, log_t_p, log_t_x)
 
-            out[mask] = x
+            # Only the model's own columns: the table may hold further variables
+            out[mask.nonzero(), query] = x[:, query]
 
         return out
-- 
2.43.0


From 6e30b7c42827469c557d720343f54d5e704889c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:14 +0000
Subject: [PATCH 081/106] fix: ImageWrapper could not evaluate or sample an
 image with marginalized rows, columns or channels

---
 spflow/modules/wrapper/image_wrapper.py | 45 ++++++++++++++++---------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/spflow/modules/wrapper/image_wrapper.py b/spflow/modules/wrapper/image_wrapper.py
index 5712f8c..af85994 100644
--- a/spflow/modules/wrapper/image_wrapper.py
+++ b/spflow/modules/wrapper/image_wrapper.py
@@ -141,6 +141,27 @@ class ImageWrapper(Wrapper):
                 w=image_width,
             )
 
+    def _to_columns(self, image: Tensor) -> Tensor:
+        """Flatten an image into the table the wrapped module reads.
+
+        The i-th pixel belongs to the i-th smallest variable of the module, whose scope has gaps once
+        parts of the image have been marginalized.
+        """
+        flat_data = self.flatten(image)
+        columns = sorted(self.scope.query)
+        if columns == list(range(flat_data.shape[1])):
+            return flat_data
+        data = flat_data.new_full((flat_data.shape[0], columns[-1] + 1), float("nan"))
+        data[:, columns] = flat_data
+        return data
+
+    def _from_columns(self, data: Tensor) -> Tensor:
+        """Inverse of :meth:`_to_columns`."""
+        columns = sorted(self.scope.query)
+        if columns != list(range(data.shape[1])):
+            data = data[:, columns]
+        return self.to_image_format(data)
+
     def extra_repr(self):
         return f"C={self.num_channel}, H={self.height}, W={self.width}"
 
@@ -168,7 +189,7 @@ class ImageWrapper(Wrapper):
                 f"Data shape must be (batch_size, num_channel, height, width) but got {data.shape}."
             )
 
-        data = self.flatten(data)
+        data = self._to_columns(data)
         self.module._expectation_maximization_step(data, bias_correction=bias_correction, cache=cache)
 
     @cached
@@ -200,7 +221,7 @@ class ImageWrapper(Wrapper):
             raise ShapeError(
                 f"Data shape must be (batch_size, num_channel, height, width) but got {data.shape}."
             )
-        data = self.flatten(data)
+        data = self._to_columns(data)
 
         log_prob = self.module.log_likelihood(data, cache=cache)
 
@@ -277,15 +298,7 @@ class ImageWrapper(Wrapper):
             return_leaf_params=return_leaf_params,
         )
 
-        # Flatten data to 2D for processing
-        flat_data = self.flatten(data)
-
-        self.module._sample(
-            data=flat_data,
-            cache=cache,
-            sampling_ctx=sampling_ctx,
-        )
-        image = self.to_image_format(flat_data)
+        image = self._sample(data=data, sampling_ctx=sampling_ctx, cache=cache)
         if return_leaf_params:
             return image, sampling_ctx.leaf_param_records()
         return image
@@ -296,13 +309,13 @@ class ImageWrapper(Wrapper):
         sampling_ctx: SamplingContext,
         cache: Cache,
     ) -> Tensor:
-        flat_data = self.flatten(data)
-        self.module._sample(
-            data=flat_data,
+        # Flatten data to 2D for processing
+        flat_data = self.module._sample(
+            data=self._to_columns(data),
             cache=cache,
             sampling_ctx=sampling_ctx,
         )
-        return self.to_image_format(flat_data)
+        return self._from_columns(flat_data)
 
     def marginalize(
         self,
@@ -323,7 +336,7 @@ class ImageWrapper(Wrapper):
         """
 
         marg_rvs = []
-        scope = torch.as_tensor(self.scope.query, dtype=torch.long)
+        scope = torch.as_tensor(sorted(self.scope.query), dtype=torch.long)
 
         scope = self.to_image_format(scope, batch=False)
 
-- 
2.43.0


From 94205c19c8c5c414ee6c3593ecc68fb87e4046b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:55 +0000
Subject: [PATCH 082/106] fix: ImageWrapper sampling bypassed the wrapped
 model's own sample

---
 spflow/modules/wrapper/image_wrapper.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/spflow/modules/wrapper/image_wrapper.py b/spflow/modules/wrapper/image_wrapper.py
index af85994..a0f359a 100644
--- a/spflow/modules/wrapper/image_wrapper.py
+++ b/spflow/modules/wrapper/image_wrapper.py
@@ -291,17 +291,17 @@ class ImageWrapper(Wrapper):
         if cache is None:
             cache = self._evidence_cache(data)
 
-        sampling_ctx = SamplingContext(
-            num_samples=data.shape[0],
-            device=data.device,
+        # The module's own entry point: models with several classes draw the class there
+        samples = self.module.sample(
+            data=self._to_columns(data),
             is_mpe=is_mpe,
+            cache=cache,
             return_leaf_params=return_leaf_params,
         )
-
-        image = self._sample(data=data, sampling_ctx=sampling_ctx, cache=cache)
         if return_leaf_params:
-            return image, sampling_ctx.leaf_param_records()
-        return image
+            samples, records = samples
+            return self._from_columns(samples), records
+        return self._from_columns(samples)
 
     def _sample(
         self,
-- 
2.43.0


From 47a914710054313bf9316f017d75fc00b6eafa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:56 +0000
Subject: [PATCH 083/106] fix: CLTree learned its tree from reordered columns
 when the scope is not ascending

---
 spflow/modules/leaves/cltree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 5d2eddb..086680d 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -302,7 +302,10 @@ class CLTree(LeafModule):
             data: Tensor of shape (N, D) with values in {0..K-1} for this scope.
             sample_weights: Optional per-row weights (N,).
         """
-        scoped = self._resolve_scoped_data(data)
+        self._fit_scoped_structure(self._resolve_scoped_data(data), sample_weights=sample_weights)
+
+    def _fit_scoped_structure(self, scoped: Tensor, *, sample_weights: Tensor | None) -> None:
+        """Learn the structure from data whose columns follow the order of this scope."""
         if torch.isnan(scoped).any():
             raise InvalidParameterError(
                 "fit_structure requires complete data without NaNs (use nan_strategy='ignore')."
@@ -444,7 +447,7 @@ class CLTree(LeafModule):
         # Learn structure once (shared across channels/repetitions).
         if not self._has_learned_structure():
             w_scalar = weights[:, 0].sum(dim=(1, 2)).detach()  # (N,)
-            self.fit_structure(data=scoped, sample_weights=w_scalar)
+            self._fit_scoped_structure(scoped, sample_weights=w_scalar)
 
         parents = self.parents.tolist()
         root = parents.index(-1)
-- 
2.43.0


From b24d8107f2aa48590934c67344ce48c8caa72514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:59 +0000
Subject: [PATCH 084/106] fix: ElementwiseSum sampling raised KeyError when
 only other parts of the circuit had cached likelihoods

---
 spflow/modules/sums/elementwise_sum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/sums/elementwise_sum.py b/spflow/modules/sums/elementwise_sum.py
index 64831b3..6019531 100644
--- a/spflow/modules/sums/elementwise_sum.py
+++ b/spflow/modules/sums/elementwise_sum.py
@@ -390,7 +390,9 @@ class ElementwiseSum(Module):
             is_differentiable=sampling_ctx.is_differentiable,
         )
 
-        if "log_likelihood" in cache and all(cache["log_likelihood"][inp] is not None for inp in self.inputs):
+        if "log_likelihood" in cache and all(
+            cache["log_likelihood"].get(inp) is not None for inp in self.inputs
+        ):
             input_lls = []
             for inp in self.inputs:
                 inp_ll = cache["log_likelihood"][inp]
-- 
2.43.0


From 492133e7c807e7b39ff92844c1262454991653b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:18 +0000
Subject: [PATCH 085/106] fix: RatSPN and Einet reported the repetitions they
 mix away, so other modules could not combine them

---
 spflow/modules/sums/repetition_mixing_layer.py | 3 ++-
 spflow/zoo/einet/einet.py                      | 7 ++++++-
 spflow/zoo/rat/rat_spn.py                      | 8 +++++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 9deaa8b..1a5500f 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -50,7 +50,8 @@ class RepetitionMixingLayer(Sum):
 
     @property
     def feature_to_scope(self) -> np.ndarray:
-        return self.inputs.feature_to_scope
+        # A single repetition is left after mixing.
+        return self.inputs.feature_to_scope[:, :1]
 
     def _process_weights_parameter(
         self,
diff --git a/spflow/zoo/einet/einet.py b/spflow/zoo/einet/einet.py
index 475f232..1bed576 100644
--- a/spflow/zoo/einet/einet.py
+++ b/spflow/zoo/einet/einet.py
@@ -132,7 +132,12 @@ class Einet(Module, Classifier):
 
         # Shape computation
         self.in_shape = self.root_node.in_shape
-        self.out_shape = self.root_node.out_shape
+        root_shape = self.root_node.out_shape
+        self.out_shape = ModuleShape(
+            features=root_shape.features,
+            channels=root_shape.channels,
+            repetitions=1,  # Always 1 after mixing the repetitions
+        )
 
     def _get_layer_class(self):
         """Get the layer class based on layer_type."""
diff --git a/spflow/zoo/rat/rat_spn.py b/spflow/zoo/rat/rat_spn.py
index 88f1a1a..3ad7378 100644
--- a/spflow/zoo/rat/rat_spn.py
+++ b/spflow/zoo/rat/rat_spn.py
@@ -19,6 +19,7 @@ from spflow.exceptions import InvalidParameterError, UnsupportedOperationError
 from spflow.interfaces.classifier import Classifier
 from spflow.meta.data.scope import Scope
 from spflow.modules.module import Module
+from spflow.modules.module_shape import ModuleShape
 from spflow.modules.leaves.leaf import LeafModule
 from spflow.modules.ops.split import Split, SplitMode
 from spflow.modules.ops.split_consecutive import SplitConsecutive
@@ -121,7 +122,12 @@ class RatSPN(Module, Classifier):
 
         # Shape computation: delegate to root node
         self.in_shape = self.root_node.in_shape
-        self.out_shape = self.root_node.out_shape
+        root_shape = self.root_node.out_shape
+        self.out_shape = ModuleShape(
+            features=root_shape.features,
+            channels=root_shape.channels,
+            repetitions=1,  # Always 1 after mixing the repetitions
+        )
 
     def create_spn(self):
         """Create the RAT-SPN architecture.
-- 
2.43.0


From 53e8c243ef5de348c8988f51c168fe45ea51aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:35 +0000
Subject: [PATCH 086/106] fix: interval inference on conditional leaves
 silently used their unused default parameters

---
 spflow/modules/leaves/leaf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index 7216354..b19c78a 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -436,6 +436,11 @@ class LeafModule(Module, ABC):
         """
         # Dispatch on IntervalEvidence
         if isinstance(data, IntervalEvidence):
+            if self.is_conditional:
+                raise NotImplementedError(
+                    f"{self.__class__.__name__} does not support interval inference with a parameter function: "
+                    "interval bounds carry no evidence values to compute the parameters from."
+                )
             return self._log_likelihood_interval(data.low, data.high, cache)
 
         if data.dim() != 2:
-- 
2.43.0


From 5e747aa5e4a5bcc949b1866d44792cf6ad2557d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:08 +0000
Subject: [PATCH 087/106] fix: Bernoulli, Binomial and NegativeBinomial leaves
 with probabilities of exactly 0 or 1 returned NaN

---
 spflow/modules/leaves/bernoulli.py         |  6 +++---
 spflow/modules/leaves/binomial.py          |  6 +++---
 spflow/modules/leaves/negative_binomial.py |  6 +++---
 spflow/utils/projections.py                | 17 +++++++++++++++++
 4 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/spflow/modules/leaves/bernoulli.py b/spflow/modules/leaves/bernoulli.py
index ac416f6..07f0761 100644
--- a/spflow/modules/leaves/bernoulli.py
+++ b/spflow/modules/leaves/bernoulli.py
@@ -6,7 +6,7 @@ from spflow.exceptions import InvalidParameterCombinationError
 from spflow.modules.leaves.leaf import LeafModule
 from spflow.utils.cache import Cache
 from spflow.utils.leaves import init_parameter, _handle_mle_edge_cases
-from spflow.utils.projections import proj_bounded_to_real, proj_real_to_bounded
+from spflow.utils.projections import proj_probs_to_logits, proj_real_to_bounded
 from spflow.utils.sampling_context import SIMPLE
 
 
@@ -57,7 +57,7 @@ class Bernoulli(LeafModule):
 
         init_fn = torch.randn if logits is not None else torch.rand
         init_value = init_parameter(param=param_source, event_shape=self._event_shape, init=init_fn)
-        logits_tensor = init_value if logits is not None else proj_bounded_to_real(init_value, lb=0.0, ub=1.0)
+        logits_tensor = init_value if logits is not None else proj_probs_to_logits(init_value)
 
         self._logits = nn.Parameter(logits_tensor)
 
@@ -70,7 +70,7 @@ class Bernoulli(LeafModule):
     def probs(self, value: Tensor) -> None:
         """Set success probability (stores as logits)."""
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = proj_bounded_to_real(value_tensor, lb=0.0, ub=1.0)
+        self._logits.data = proj_probs_to_logits(value_tensor)
 
     @property
     def logits(self) -> Tensor:
diff --git a/spflow/modules/leaves/binomial.py b/spflow/modules/leaves/binomial.py
index 08adc1e..6a526d8 100644
--- a/spflow/modules/leaves/binomial.py
+++ b/spflow/modules/leaves/binomial.py
@@ -7,7 +7,7 @@ from spflow.exceptions import InvalidParameterCombinationError
 from spflow.meta.data import Scope
 from spflow.modules.leaves.leaf import LeafModule
 from spflow.utils.leaves import init_parameter, _handle_mle_edge_cases
-from spflow.utils.projections import proj_bounded_to_real, proj_real_to_bounded
+from spflow.utils.projections import proj_probs_to_logits, proj_real_to_bounded
 from spflow.utils.sampling_context import SIMPLE
 
 
@@ -84,7 +84,7 @@ class Binomial(LeafModule):
         total_count = torch.broadcast_to(total_count, self.event_shape).clone()
         self.register_buffer("_total_count", total_count)
 
-        logits_tensor = init_value if logits is not None else proj_bounded_to_real(init_value, lb=0.0, ub=1.0)
+        logits_tensor = init_value if logits is not None else proj_probs_to_logits(init_value)
 
         self._logits = nn.Parameter(logits_tensor)
         self.differentiable_sampling_method = differentiable_sampling_method
@@ -112,7 +112,7 @@ class Binomial(LeafModule):
     def probs(self, value: Tensor) -> None:
         """Set success probability (stores as logit_p, no validation after init)."""
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = proj_bounded_to_real(value_tensor, lb=0.0, ub=1.0)
+        self._logits.data = proj_probs_to_logits(value_tensor)
 
     @property
     def logits(self) -> Tensor:
diff --git a/spflow/modules/leaves/negative_binomial.py b/spflow/modules/leaves/negative_binomial.py
index 40eaccd..1c7db58 100644
--- a/spflow/modules/leaves/negative_binomial.py
+++ b/spflow/modules/leaves/negative_binomial.py
@@ -5,7 +5,7 @@ from spflow.exceptions import InvalidParameterCombinationError
 from spflow.meta.data import Scope
 from spflow.modules.leaves.leaf import LeafModule
 from spflow.utils.leaves import init_parameter, _handle_mle_edge_cases
-from spflow.utils.projections import proj_bounded_to_real, proj_real_to_bounded
+from spflow.utils.projections import proj_probs_to_logits, proj_real_to_bounded
 from spflow.utils.sampling_context import SIMPLE
 
 
@@ -75,7 +75,7 @@ class NegativeBinomial(LeafModule):
         total_count = torch.broadcast_to(total_count, self.event_shape).clone()
         self.register_buffer("_total_count", total_count)
 
-        logits_tensor = init_value if logits is not None else proj_bounded_to_real(init_value, lb=0.0, ub=1.0)
+        logits_tensor = init_value if logits is not None else proj_probs_to_logits(init_value)
 
         self._logits = nn.Parameter(logits_tensor)
 
@@ -102,7 +102,7 @@ class NegativeBinomial(LeafModule):
     def probs(self, value: Tensor) -> None:
         """Set success probability (stores as logit_p, no validation after init)."""
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = proj_bounded_to_real(value_tensor, lb=0.0, ub=1.0)
+        self._logits.data = proj_probs_to_logits(value_tensor)
 
     @property
     def logits(self) -> Tensor:
diff --git a/spflow/utils/projections.py b/spflow/utils/projections.py
index 27c3475..9fc8ede 100644
--- a/spflow/utils/projections.py
+++ b/spflow/utils/projections.py
@@ -5,6 +5,7 @@ Used for internal projections of Tensor parameters.
 
 import torch
 from torch import Tensor
+from torch.distributions.utils import clamp_probs
 
 
 def proj_convex_to_real(x: Tensor) -> Tensor:
@@ -140,3 +141,19 @@ def proj_bounded_to_real(
     else:
         # project from right-bounded interval
         return torch.log(ub - x)
+
+
+def proj_probs_to_logits(probs: Tensor) -> Tensor:
+    """Projects probabilities onto finite logits.
+
+    Probabilities of exactly 0 and 1 are moved to the closest values ``torch.distributions`` works
+    with: infinite logits turn log-likelihoods into NaN.
+
+    Args:
+        probs: Tensor with probabilities.
+
+    Returns:
+        Tensor of same shape as ``probs`` with logits, NaN for values outside of [0, 1].
+    """
+    certain = (probs == 0.0) | (probs == 1.0)
+    return proj_bounded_to_real(torch.where(certain, clamp_probs(probs), probs), lb=0.0, ub=1.0)
-- 
2.43.0


From 5648731c37fd1787dd06c95ec029dc45988efac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:08 +0000
Subject: [PATCH 088/106] fix: Factorize turned a zero-probability feature into
 NaN for every output

---
 spflow/modules/rat/factorize.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/rat/factorize.py b/spflow/modules/rat/factorize.py
index 652d802..c2c4483 100644
--- a/spflow/modules/rat/factorize.py
+++ b/spflow/modules/rat/factorize.py
@@ -162,8 +162,13 @@ class Factorize(BaseProduct):
             cache=cache,
         )  # lls[0] shape: [batch_size, num_features, num_channel, num_repetitions]
 
-        output = torch.einsum("bicr, ior->bocr", lls[0], self.indices)
-        return output
+        # An impossible feature must only reach the outputs it belongs to: -inf * 0 is NaN
+        impossible = torch.isneginf(lls[0])
+        if not impossible.any():
+            return torch.einsum("bicr, ior->bocr", lls[0], self.indices)
+        output = torch.einsum("bicr, ior->bocr", lls[0].masked_fill(impossible, 0.0), self.indices)
+        reached = torch.einsum("bicr, ior->bocr", impossible.to(self.indices.dtype), self.indices) > 0
+        return output.masked_fill(reached, -float("inf"))
 
     def _sample(
         self,
-- 
2.43.0


From a265f4b99a82bc40c98840faebb4de81c28cbce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:33 +0000
Subject: [PATCH 089/106] fix: differentiable sampling could not route into
 mixed repetitions from outside RatSPN and Einet

---
 spflow/modules/sums/repetition_mixing_layer.py | 7 ++++++-
 spflow/zoo/einet/einet.py                      | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 1a5500f..91dfeed 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -124,7 +124,12 @@ class RepetitionMixingLayer(Sum):
             num_samples=data.shape[0],
             num_features=self.out_shape.features,
             num_channels=self.out_shape.channels,
-            num_repetitions=self.out_shape.repetitions,
+            # This layer chooses the repetition itself: a route for the single mixed repetition is enough.
+            num_repetitions=(
+                1
+                if sampling_ctx.is_differentiable and sampling_ctx.repetition_index.shape[-1] == 1
+                else self.out_shape.repetitions
+            ),
             allowed_feature_widths=(1, self.out_shape.features),
         )
         sampling_ctx.broadcast_feature_width(target_features=self.out_shape.features, allow_from_one=True)
diff --git a/spflow/zoo/einet/einet.py b/spflow/zoo/einet/einet.py
index 1bed576..97cfeca 100644
--- a/spflow/zoo/einet/einet.py
+++ b/spflow/zoo/einet/einet.py
@@ -436,7 +436,12 @@ class Einet(Module, Classifier):
             num_samples=data.shape[0],
             num_features=self.out_shape.features,
             num_channels=self.out_shape.channels,
-            num_repetitions=self.num_repetitions,
+            # The repetitions are mixed below the root: a route for the single mixed one is enough.
+            num_repetitions=(
+                1
+                if sampling_ctx.is_differentiable and sampling_ctx.repetition_index.shape[-1] == 1
+                else self.num_repetitions
+            ),
             allowed_feature_widths=(1, self.out_shape.features),
         )
 
-- 
2.43.0


From d9847628596a8aa03130d64b482c383e0fcbbfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:12 +0000
Subject: [PATCH 090/106] fix: inner products of Laplace leaves with tiny,
 different scales were those of equal scales

---
 spflow/utils/inner_product_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index ea58cc5..149cb26 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -184,7 +184,7 @@ def leaf_inner_product(a: Module, b: Module) -> Tensor:
         exp1 = torch.exp(-d / b1)
         exp2 = torch.exp(-d / b2)
         term_tails = (exp1 + exp2) / (4.0 * (b1 + b2))
-        same = torch.isclose(b1, b2)
+        same = torch.isclose(b1, b2, rtol=1e-5, atol=0.0)  # relative to the scales: they may be tiny
         # Keep the unused branch finite for equal scales, where it would turn gradients into NaN.
         term_mid = (exp1 - exp2) / (4.0 * torch.where(same, torch.ones_like(b1 - b2), b1 - b2))
         term_mid_same = torch.exp(-d / b1) * d / (4.0 * b1.pow(2))
-- 
2.43.0


From 4ce68c44a2d6938d37f511eca8384b882e3a3098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:10 +0000
Subject: [PATCH 091/106] fix: squared circuits with a partition function below
 1e-30 were not normalised

---
 spflow/modules/sos/socs.py         | 2 +-
 spflow/utils/inner_product_core.py | 2 +-
 spflow/zoo/sos/exp_socs.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/sos/socs.py b/spflow/modules/sos/socs.py
index edb7fb5..b49d298 100644
--- a/spflow/modules/sos/socs.py
+++ b/spflow/modules/sos/socs.py
@@ -136,7 +136,7 @@ class SOCS(Module):
             z_parts.append(diag.permute(0, 2, 1))  # (F, C, R)
 
         Z = reduce(torch.stack(z_parts, dim=0), "n f c r -> f c r", "sum")
-        logZ = torch.log(torch.clamp(Z, min=1e-30))
+        logZ = torch.log(torch.clamp(Z, min=torch.finfo(Z.dtype).tiny))
         cache.set("socs_logZ", self, logZ)
         cache.extras["socs_logZ"] = logZ
         return logZ
diff --git a/spflow/utils/inner_product_core.py b/spflow/utils/inner_product_core.py
index 149cb26..4f29c6e 100644
--- a/spflow/utils/inner_product_core.py
+++ b/spflow/utils/inner_product_core.py
@@ -614,7 +614,7 @@ def log_self_inner_product_scalar(
         module, module, cache=cache, signed_sum_types=signed_sum_types, memo_key=memo_key
     )
     z = torch.clamp(k[0, 0, 0, 0], min=0.0)
-    return torch.log(z.clamp_min(1e-30))
+    return torch.log(z.clamp_min(torch.finfo(z.dtype).tiny))
 
 
 def _get_triple_memo(cache: Cache, *, memo_key: str) -> dict[tuple[int, int, int], Tensor]:
diff --git a/spflow/zoo/sos/exp_socs.py b/spflow/zoo/sos/exp_socs.py
index acea7f9..0c27706 100644
--- a/spflow/zoo/sos/exp_socs.py
+++ b/spflow/zoo/sos/exp_socs.py
@@ -77,7 +77,7 @@ class ExpSOCS(Module):
             )
         Z = reduce(torch.stack(z_parts), "... ->", "sum")
         Z = torch.clamp(Z, min=0.0)
-        logZ = torch.log(Z.clamp_min(1e-30))
+        logZ = torch.log(Z.clamp_min(torch.finfo(Z.dtype).tiny))
 
         cache.set("exp_socs_logZ", self, logZ)
         cache.extras["exp_socs_logZ"] = logZ
-- 
2.43.0


From 0687ca0b2ef2f8a41f2c1dcedf451bed80538612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:22 +0000
Subject: [PATCH 092/106] fix: signed, weighted, tabular and fixed-parameter
 modules shared the tensors they were given

---
 spflow/modules/leaves/binomial.py          | 2 +-
 spflow/modules/leaves/cltree.py            | 4 ++--
 spflow/modules/leaves/histogram.py         | 4 ++--
 spflow/modules/leaves/hypergeometric.py    | 2 +-
 spflow/modules/leaves/negative_binomial.py | 2 +-
 spflow/modules/leaves/uniform.py           | 4 ++--
 spflow/modules/sums/signed_sum.py          | 2 +-
 spflow/zoo/pic/weighted_sum.py             | 6 ++++--
 spflow/zoo/sos/signed_categorical.py       | 2 +-
 9 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/spflow/modules/leaves/binomial.py b/spflow/modules/leaves/binomial.py
index 6a526d8..8948009 100644
--- a/spflow/modules/leaves/binomial.py
+++ b/spflow/modules/leaves/binomial.py
@@ -101,7 +101,7 @@ class Binomial(LeafModule):
         Args:
             total_count: Floating point representing the number of trials.
         """
-        self._total_count = total_count
+        self._total_count = total_count.detach().clone()
 
     @property
     def probs(self) -> Tensor:
diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 086680d..3d1f99c 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -175,7 +175,7 @@ class CLTree(LeafModule):
                 )
             parents_list = [int(v) for v in parents.detach().cpu().tolist()]
             orders = _compute_orders_from_parents(parents_list)
-            self.register_buffer("parents", parents.to(dtype=torch.long))
+            self.register_buffer("parents", parents.detach().to(dtype=torch.long, copy=True))
             self.register_buffer("pre_order", torch.tensor(orders.pre_order, dtype=torch.long))
             self.register_buffer("post_order", torch.tensor(orders.post_order, dtype=torch.long))
         else:
@@ -203,7 +203,7 @@ class CLTree(LeafModule):
             if tuple(log_cpt.shape) != expected:
                 raise ShapeError(f"log_cpt must have shape {expected}, got {tuple(log_cpt.shape)}.")
 
-        self.log_cpt = nn.Parameter(log_cpt)
+        self.log_cpt = nn.Parameter(log_cpt.detach().clone())
 
     @property
     def _supported_value(self) -> float:
diff --git a/spflow/modules/leaves/histogram.py b/spflow/modules/leaves/histogram.py
index fbe12d2..805dba5 100644
--- a/spflow/modules/leaves/histogram.py
+++ b/spflow/modules/leaves/histogram.py
@@ -240,7 +240,7 @@ class Histogram(LeafModule):
             )
 
         self.register_buffer("bin_edges", torch.empty(size=[]))
-        self.bin_edges = bin_edges
+        self.bin_edges = bin_edges.detach().clone()
 
         param_shape = (*self._event_shape, nbins)
         init_value = init_parameter(
@@ -260,7 +260,7 @@ class Histogram(LeafModule):
     @logits.setter
     def logits(self, value: Tensor) -> None:
         value_tensor = torch.as_tensor(value, dtype=self._logits.dtype, device=self._logits.device)
-        self._logits.data = value_tensor
+        self._logits.data = value_tensor.detach().clone()
 
     @property
     def probs(self) -> Tensor:
diff --git a/spflow/modules/leaves/hypergeometric.py b/spflow/modules/leaves/hypergeometric.py
index daee904..7d5a857 100644
--- a/spflow/modules/leaves/hypergeometric.py
+++ b/spflow/modules/leaves/hypergeometric.py
@@ -286,7 +286,7 @@ class Hypergeometric(LeafModule):
         self.register_buffer("N", torch.empty(size=[]))
         self.register_buffer("n", torch.empty(size=[]))
 
-        K, N, n = (align_parameter(param, self._event_shape) for param in (K, N, n))
+        K, N, n = (align_parameter(param, self._event_shape).detach().clone() for param in (K, N, n))
 
         # Validate inputs before assignment
         self.check_inputs(K, N, n, self.event_shape)
diff --git a/spflow/modules/leaves/negative_binomial.py b/spflow/modules/leaves/negative_binomial.py
index 1c7db58..972ccfb 100644
--- a/spflow/modules/leaves/negative_binomial.py
+++ b/spflow/modules/leaves/negative_binomial.py
@@ -91,7 +91,7 @@ class NegativeBinomial(LeafModule):
         Args:
             total_count: Non-negative number of required successes.
         """
-        self._total_count = total_count
+        self._total_count = total_count.detach().clone()
 
     @property
     def probs(self) -> Tensor:
diff --git a/spflow/modules/leaves/uniform.py b/spflow/modules/leaves/uniform.py
index 1d3c5e9..022afd7 100644
--- a/spflow/modules/leaves/uniform.py
+++ b/spflow/modules/leaves/uniform.py
@@ -67,8 +67,8 @@ class Uniform(LeafModule):
         self.register_buffer("end_next", torch.empty(size=[]))
         self.register_buffer("_support_outside", torch.empty(size=[]))
 
-        low = align_parameter(low, self._event_shape)
-        high = align_parameter(high, self._event_shape)
+        low = align_parameter(low, self._event_shape).detach().clone()
+        high = align_parameter(high, self._event_shape).detach().clone()
         self.low = low
         self.high = high
         self.end_next = torch.nextafter(high, high.new_tensor(float("inf")))
diff --git a/spflow/modules/sums/signed_sum.py b/spflow/modules/sums/signed_sum.py
index b25075f..9f77593 100644
--- a/spflow/modules/sums/signed_sum.py
+++ b/spflow/modules/sums/signed_sum.py
@@ -83,7 +83,7 @@ class SignedSum(Module):
                 f"Invalid shape for weights: was {tuple(weights.shape)} but expected {self.weights_shape}."
             )
 
-        self.weights = nn.Parameter(weights)
+        self.weights = nn.Parameter(weights.detach().clone())
 
     @property
     def feature_to_scope(self) -> np.ndarray:
diff --git a/spflow/zoo/pic/weighted_sum.py b/spflow/zoo/pic/weighted_sum.py
index d2ec3aa..946aec6 100644
--- a/spflow/zoo/pic/weighted_sum.py
+++ b/spflow/zoo/pic/weighted_sum.py
@@ -126,7 +126,7 @@ class WeightedSum(Module):
         )
 
         # ========== 6. WEIGHT REGISTRATION ==========
-        self._weights = nn.Parameter(weights)
+        self._weights = nn.Parameter(weights.detach().clone())
 
     @property
     def feature_to_scope(self) -> np.ndarray:
@@ -152,7 +152,9 @@ class WeightedSum(Module):
             raise ShapeError(
                 f"Invalid shape for weights: Was {values.shape} but expected {self._weights.shape}."
             )
-        self._weights.data = values
+        if not torch.all(values >= 0):
+            raise InvalidWeightsError("Weights for 'WeightedSum' must be non-negative.")
+        self._weights.data = values.detach().to(dtype=self._weights.dtype, device=self._weights.device, copy=True)
 
     @property
     def log_weights(self) -> Tensor:
diff --git a/spflow/zoo/sos/signed_categorical.py b/spflow/zoo/sos/signed_categorical.py
index 12d7ecf..8cf646f 100644
--- a/spflow/zoo/sos/signed_categorical.py
+++ b/spflow/zoo/sos/signed_categorical.py
@@ -77,7 +77,7 @@ class SignedCategorical(Module):
                 f"expected {self.weights_shape}."
             )
 
-        self.weights = nn.Parameter(weights)
+        self.weights = nn.Parameter(weights.detach().clone())
 
     @property
     def feature_to_scope(self) -> np.ndarray:
-- 
2.43.0


From 1e3ad87e7e35ba361ae2d3bc6ac53061caa11365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:11 +0000
Subject: [PATCH 093/106] fix: weighted sums had NaN gradients in batches with
 impossible rows or zero weights

---
 spflow/zoo/pic/weighted_sum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spflow/zoo/pic/weighted_sum.py b/spflow/zoo/pic/weighted_sum.py
index 946aec6..0fb46b9 100644
--- a/spflow/zoo/pic/weighted_sum.py
+++ b/spflow/zoo/pic/weighted_sum.py
@@ -17,6 +17,7 @@ from spflow.modules.module import Module
 from spflow.modules.module_shape import ModuleShape
 from spflow.modules.ops.cat import Cat
 from spflow.utils.cache import Cache, cached
+from spflow.utils.logspace import logsumexp
 from spflow.utils.sampling_context import (
     SamplingContext,
     update_channel_index_strict,
@@ -164,7 +165,8 @@ class WeightedSum(Module):
             Tensor: Log of weights, no softmax applied.
         """
         neg_inf = torch.full_like(self._weights, float("-inf"))
-        return torch.where(self._weights > 0, torch.log(self._weights), neg_inf)
+        positive = self._weights > 0
+        return torch.where(positive, torch.log(torch.where(positive, self._weights, 1.0)), neg_inf)
 
     def extra_repr(self) -> str:
         return f"{super().extra_repr()}, weights={tuple(self._weights.shape)}"
@@ -198,7 +200,7 @@ class WeightedSum(Module):
         weighted_lls = ll + log_weights  # shape: (B, F, IC, OC, R)
 
         # Sum over input channels (sum_dim + 1 since batch dimension is first)
-        output = torch.logsumexp(weighted_lls, dim=self.sum_dim + 1)
+        output = logsumexp(weighted_lls, dim=self.sum_dim + 1)
 
         return output
 
-- 
2.43.0


From 11e6fd883ed26d56ba197acefa6ee0c066e1b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:17 +0000
Subject: [PATCH 094/106] fix: Gamma estimates lost their digits when the
 data's spread was small against its mean

---
 spflow/modules/leaves/gamma.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spflow/modules/leaves/gamma.py b/spflow/modules/leaves/gamma.py
index 908fc48..04d7a78 100644
--- a/spflow/modules/leaves/gamma.py
+++ b/spflow/modules/leaves/gamma.py
@@ -135,12 +135,13 @@ class Gamma(LeafModule):
         """
         n_total = weights.sum(dim=0)
 
-        data_log = data.log()
-        mean_xlnx = (weights * data_log * data).sum(dim=0) / n_total
+        # The covariance of x and ln(x), from centred data: the difference of the raw moments loses all
+        # its digits when the spread is small compared with the mean. ln(x) is taken relative to the mean.
         mean_x = (weights * data).sum(dim=0) / n_total
-        mean_ln_x = (weights * data_log).sum(dim=0) / n_total
+        centred_log = (data / mean_x).log()
+        centred_log = centred_log - (weights * centred_log).sum(dim=0) / n_total
 
-        theta_est = mean_xlnx - mean_x * mean_ln_x
+        theta_est = (weights * (data - mean_x) * centred_log).sum(dim=0) / n_total
         concentration_est = mean_x / theta_est
         rate_est = 1 / theta_est
 
-- 
2.43.0


From 6d1daa53a4da26167777e84ea4448fd003310a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:46 +0000
Subject: [PATCH 095/106] fix: replace() left a static method as an ordinary
 method

---
 spflow/utils/replace.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/spflow/utils/replace.py b/spflow/utils/replace.py
index f060486..5afbf61 100644
--- a/spflow/utils/replace.py
+++ b/spflow/utils/replace.py
@@ -57,6 +57,10 @@ def replace(method_ref: Callable, replacement_func: Callable):
 
     # Get the original method
     original_method = getattr(target_class, method_name)
+    # What the class itself holds: a static or class method is stored as its descriptor, and an inherited
+    # method is not stored at all.
+    missing = object()
+    original_attribute = vars(target_class).get(method_name, missing)
 
     # Detect if the original method is decorated (e.g., with @cached)
     # Methods decorated with @functools.wraps have __wrapped__ attribute
@@ -71,6 +75,8 @@ def replace(method_ref: Callable, replacement_func: Callable):
         new_method = cached(replacement_func)
     else:
         new_method = replacement_func
+    if isinstance(original_attribute, staticmethod):
+        new_method = staticmethod(new_method)
 
     # Replace the method on the class
     setattr(target_class, method_name, new_method)
@@ -79,7 +85,10 @@ def replace(method_ref: Callable, replacement_func: Callable):
         yield
     finally:
         # Restore the original method
-        setattr(target_class, method_name, original_method)
+        if original_attribute is missing:
+            delattr(target_class, method_name)
+        else:
+            setattr(target_class, method_name, original_attribute)
 
 
 def _extract_class_and_name(method_ref: Callable) -> tuple[type, str]:
-- 
2.43.0


From 45218d6e8bd82a3f90c72657048f1043045cafaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:01 +0000
Subject: [PATCH 096/106] fix: dependence test ranked ties by their position

The randomized dependence coefficient ordered equal values by row, so two
independent columns of discrete data shared the row order within each value and
looked dependent (about 0.66 for two independent Bernoulli(0.1) columns, 0.9 for
Bernoulli(0.02)), and the result changed with the order of the rows.
Equal values now share a rank, as in the empirical distribution function.
---
 spflow/utils/rdc.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/spflow/utils/rdc.py b/spflow/utils/rdc.py
index b5e4326..1704353 100644
--- a/spflow/utils/rdc.py
+++ b/spflow/utils/rdc.py
@@ -38,10 +38,10 @@ def rdc(x, y, f=torch.sin, k=20, s=1 / 6.0, n=1):
         y = y.reshape((-1, 1))
 
     # Copula Transformation
-    cx = torch.stack([rankdata_ordinal(xc) for xc in x.T], dim=1) / torch.prod(
+    cx = torch.stack([rankdata_max(xc) for xc in x.T], dim=1) / torch.prod(
         x.new_tensor(x.shape, dtype=torch.float32)
     )
-    cy = torch.stack([rankdata_ordinal(yc) for yc in y.T], dim=1) / torch.prod(
+    cy = torch.stack([rankdata_max(yc) for yc in y.T], dim=1) / torch.prod(
         y.new_tensor(y.shape, dtype=torch.float32)
     )
 
@@ -181,6 +181,22 @@ def cca_loop(k, C):
         return torch.sqrt(torch.clamp(torch.max(eigs), 0, 1))
 
 
+def rankdata_max(x):
+    """PyTorch equivalent of scipy.stats.rankdata(method='max').
+
+    Equal values share a rank, as in the empirical distribution function. Ranking ties by
+    their position instead would make columns of discrete data look dependent on each other.
+
+    Args:
+        x: Input tensor to rank.
+
+    Returns:
+        Tensor: Ranks of data with ties given the largest rank among them.
+    """
+    _, inverse, counts = torch.unique(x, sorted=True, return_inverse=True, return_counts=True)
+    return torch.cumsum(counts, dim=0)[inverse].to(torch.float)
+
+
 def rankdata_ordinal(x):
     """PyTorch equivalent of scipy.stats.rankdata(method='ordinal').
 
@@ -235,8 +251,8 @@ def rdc_np(x, y, f=np.sin, k=20, s=1 / 6.0, n=1):
         y = y.reshape((-1, 1))
 
     # Copula Transformation
-    cx = np.column_stack([rankdata(xc, method="ordinal") for xc in x.T]) / float(x.size)
-    cy = np.column_stack([rankdata(yc, method="ordinal") for yc in y.T]) / float(y.size)
+    cx = np.column_stack([rankdata(xc, method="max") for xc in x.T]) / float(x.size)
+    cy = np.column_stack([rankdata(yc, method="max") for yc in y.T]) / float(y.size)
 
     # Add a vector of ones so that w.x + b is just a dot product
     O = np.ones(cx.shape[0])
-- 
2.43.0


From 945e3b96f533eb331f9b85066ee0e91f83b14fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:25 +0000
Subject: [PATCH 097/106] fix: marginalising a sum whose input has no
 repetitions failed

---
 spflow/modules/sums/sum.py     | 4 +++-
 spflow/zoo/pic/weighted_sum.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/spflow/modules/sums/sum.py b/spflow/modules/sums/sum.py
index c8aac56..5183ea7 100644
--- a/spflow/modules/sums/sum.py
+++ b/spflow/modules/sums/sum.py
@@ -476,7 +476,9 @@ class Sum(Module):
                 # Apply mask to weights per-repetition
                 masked_weights_list = []
                 for r in range(self.out_shape.repetitions):
-                    feature_to_scope_r = self.inputs.feature_to_scope[:, r].copy()
+                    # An input without repetitions is shared by all of them
+                    input_r = min(r, self.inputs.feature_to_scope.shape[1] - 1)
+                    feature_to_scope_r = self.inputs.feature_to_scope[:, input_r].copy()
                     # remove mutual_rvs from feature_to_scope list
                     for rv in mutual_rvs:
                         for idx, scope in enumerate(feature_to_scope_r):
diff --git a/spflow/zoo/pic/weighted_sum.py b/spflow/zoo/pic/weighted_sum.py
index 0fb46b9..683b174 100644
--- a/spflow/zoo/pic/weighted_sum.py
+++ b/spflow/zoo/pic/weighted_sum.py
@@ -341,7 +341,9 @@ class WeightedSum(Module):
                 # Apply mask to weights per-repetition
                 masked_weights_list = []
                 for r in range(self.out_shape.repetitions):
-                    feature_to_scope_r = self.inputs.feature_to_scope[:, r].copy()
+                    # An input without repetitions is shared by all of them
+                    input_r = min(r, self.inputs.feature_to_scope.shape[1] - 1)
+                    feature_to_scope_r = self.inputs.feature_to_scope[:, input_r].copy()
                     for rv in mutual_rvs:
                         for idx, scope in enumerate(feature_to_scope_r):
                             if scope is not None:
-- 
2.43.0


From 3aa53144fb71ac4d3d7aec27f458c0b1060b020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:58 +0000
Subject: [PATCH 098/106] fix: mixing over repetitions accepted an input with
 another number of repetitions

---
 spflow/modules/sums/repetition_mixing_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spflow/modules/sums/repetition_mixing_layer.py b/spflow/modules/sums/repetition_mixing_layer.py
index 91dfeed..36ac75a 100644
--- a/spflow/modules/sums/repetition_mixing_layer.py
+++ b/spflow/modules/sums/repetition_mixing_layer.py
@@ -47,6 +47,8 @@ class RepetitionMixingLayer(Sum):
 
         if self.out_shape.channels != self.inputs.out_shape.channels:
             raise ValueError("out_channels must match the out_channels of the input module.")
+        if self.inputs.out_shape.repetitions not in (1, self.out_shape.repetitions):
+            raise ValueError("num_repetitions must match the number of repetitions of the input module.")
 
     @property
     def feature_to_scope(self) -> np.ndarray:
-- 
2.43.0


From d3ec174570f974b619c4ad175c9bbf66a71d4f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:57 +0000
Subject: [PATCH 099/106] fix: infinite values counted as missing in Chow-Liu
 tree leaves

---
 spflow/modules/leaves/cltree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 3d1f99c..21b07e0 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -36,14 +36,14 @@ def _validate_discrete_values(data: Tensor, *, K: int) -> None:
     if data.numel() == 0:
         return
 
-    finite = data[torch.isfinite(data)]
-    if finite.numel() == 0:
+    observed = data[~torch.isnan(data)]
+    if observed.numel() == 0:
         return
 
-    if not torch.allclose(finite, finite.round()):
+    if not torch.allclose(observed, observed.round()):
         raise InvalidParameterError("CLTree expects discrete integer values (or NaN for missing).")
 
-    if finite.min() < 0 or finite.max() >= K:
+    if observed.min() < 0 or observed.max() >= K:
         raise InvalidParameterError(f"CLTree observed values must be in {{0, ..., {K - 1}}}.")
 
 
-- 
2.43.0


From cf9c9427658e92bca88e135fe001bd5e7fbe21ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:20 +0000
Subject: [PATCH 100/106] fix: Chow-Liu tree leaves truncated values just below
 an integer

---
 spflow/modules/leaves/cltree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spflow/modules/leaves/cltree.py b/spflow/modules/leaves/cltree.py
index 21b07e0..246b231 100644
--- a/spflow/modules/leaves/cltree.py
+++ b/spflow/modules/leaves/cltree.py
@@ -312,7 +312,7 @@ class CLTree(LeafModule):
             )
         _validate_discrete_values(scoped, K=self.K)
 
-        x = scoped.to(dtype=torch.long)
+        x = scoped.round().to(dtype=torch.long)
         mi = self._compute_mutual_information(x, sample_weights=sample_weights)
         parents_list = _prim_maximum_spanning_tree(mi.to(dtype=mi.dtype), root=0)
         orders = _compute_orders_from_parents(parents_list)
@@ -344,7 +344,7 @@ class CLTree(LeafModule):
 
         # Fast path for complete data (no NaNs): index CPTs.
         if not torch.isnan(scoped).any():
-            x = scoped.to(dtype=torch.long, device=self.log_cpt.device)
+            x = scoped.round().to(dtype=torch.long, device=self.log_cpt.device)
             log_cpt = self.log_cpt
             ll = torch.zeros((N, C, R), dtype=log_cpt.dtype, device=log_cpt.device)
             for i in range(F):
@@ -442,7 +442,7 @@ class CLTree(LeafModule):
         del bias_correction
 
         scoped, weights = self._prepare_mle_inputs(data=data, weights=weights, nan_strategy=nan_strategy)
-        x = scoped.to(device=self.log_cpt.device, dtype=torch.long)
+        x = scoped.round().to(device=self.log_cpt.device, dtype=torch.long)
 
         # Learn structure once (shared across channels/repetitions).
         if not self._has_learned_structure():
-- 
2.43.0


From 5a553fc33db756ab2f21e54ccef17eeabde27201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:31 +0000
Subject: [PATCH 101/106] fix: piecewise-linear leaves were wrong over discrete
 domains other than 0..K-1

---
 spflow/modules/leaves/piecewise_linear.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/spflow/modules/leaves/piecewise_linear.py b/spflow/modules/leaves/piecewise_linear.py
index 0abce99..84ce007 100644
--- a/spflow/modules/leaves/piecewise_linear.py
+++ b/spflow/modules/leaves/piecewise_linear.py
@@ -333,7 +333,8 @@ class PiecewiseLinearDist:
             if self.domains[i_feature].data_type != DataType.DISCRETE:
                 raise ValueError(f"Unknown data type: {self.domains[i_feature].data_type}")
             dist = torch.distributions.Categorical(probs=ys_i[1:-1])
-            flat_samples[:, flat_idx] = dist.sample(sample_shape)
+            values_i = self.xs[i_repetition][i_leaf][i_feature][i_channel][1:-1]
+            flat_samples[:, flat_idx] = values_i[dist.sample(sample_shape)]
 
         return self._reshape_flat_with_batch(flat_samples)
 
@@ -566,10 +567,9 @@ class PiecewiseLinear(LeafModule):
                             # If no data in cluster, use uniform
                             densities = torch.ones(len(mids), device=device) / len(mids)
                         else:
-                            # Compute histogram densities
-                            densities = torch.histogram(
-                                data_subset.cpu(), bins=breaks.cpu(), density=True
-                            ).hist.to(device)
+                            # Compute relative frequencies of the domain values
+                            counts = torch.histogram(data_subset.cpu(), bins=breaks.cpu()).hist.to(device)
+                            densities = counts / data_subset.shape[0]
 
                     elif self.domains[i_feature].data_type == DataType.CONTINUOUS:
                         # Find histogram bins using automatic bin width
@@ -627,8 +627,11 @@ class PiecewiseLinear(LeafModule):
                     x = torch.tensor(x, device=device, dtype=torch.float32)
                     y = torch.tensor(y, device=device, dtype=torch.float32)
 
-                    # Compute AUC using the trapeziod rule
-                    auc = torch.trapezoid(y=y, x=x)
+                    # Total mass: sum over the values of a discrete domain, otherwise the area (trapezoid rule)
+                    if self.domains[i_feature].data_type == DataType.DISCRETE:
+                        auc = y.sum()
+                    else:
+                        auc = torch.trapezoid(y=y, x=x)
 
                     # Normalize y to sum to 1 using AUC
                     if auc > 0:
-- 
2.43.0


From c402e076120a2ff75508df211e181af1489b1916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:56 +0000
Subject: [PATCH 102/106] fix: a marginalised histogram leaf lost its
 probability floor

---
 spflow/modules/leaves/histogram.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/histogram.py b/spflow/modules/leaves/histogram.py
index 805dba5..66c1bbc 100644
--- a/spflow/modules/leaves/histogram.py
+++ b/spflow/modules/leaves/histogram.py
@@ -344,5 +344,8 @@ class Histogram(LeafModule):
             return None
 
         return Histogram(
-            scope=self.scope.copy(), bin_edges=self.bin_edges.detach().clone(), logits=self.logits.detach()
+            scope=self.scope.copy(),
+            bin_edges=self.bin_edges.detach().clone(),
+            logits=self.logits.detach(),
+            min_prob=self._min_prob,
         )
-- 
2.43.0


From 92e4f1d92779f76ba378f8cf2c86828c52e0b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:41 +0000
Subject: [PATCH 103/106] fix: piecewise-linear leaves could not be
 marginalised

---
 spflow/modules/leaves/piecewise_linear.py | 32 +++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/spflow/modules/leaves/piecewise_linear.py b/spflow/modules/leaves/piecewise_linear.py
index 84ce007..ae0249a 100644
--- a/spflow/modules/leaves/piecewise_linear.py
+++ b/spflow/modules/leaves/piecewise_linear.py
@@ -664,6 +664,38 @@ class PiecewiseLinear(LeafModule):
         self.domains = None
         self._distribution_cache = None
 
+    def marginalize(
+        self, marg_rvs: List[int], prune: bool = True, cache: Cache | None = None
+    ) -> Optional["PiecewiseLinear"]:
+        """Structurally marginalize out specified variables.
+
+        Args:
+            marg_rvs: Variable indices to marginalize.
+            prune: Unused (for interface consistency).
+            cache: Unused (for interface consistency).
+
+        Returns:
+            Leaf over the remaining variables or None if fully marginalized.
+        """
+        del prune, cache
+        keep = [i for i, rv in enumerate(self.scope.query) if rv not in marg_rvs]
+        if not keep:
+            return None
+
+        marginalized = PiecewiseLinear(
+            scope=Scope([self.scope.query[i] for i in keep]),
+            out_channels=self.out_shape.channels,
+            num_repetitions=self.out_shape.repetitions,
+            alpha=self.alpha,
+        )
+        if self.is_initialized:
+            for name in ("xs", "ys"):
+                table = [[[leaf[i] for i in keep] for leaf in leaves] for leaves in getattr(self, name)]
+                setattr(marginalized, name, table)
+            marginalized.domains = [self.domains[i] for i in keep]
+            marginalized.is_initialized = True
+        return marginalized
+
     def log_likelihood(
         self,
         data: Tensor,
-- 
2.43.0


From cdffbd1b075c811c97d2b18eafb68096eca080b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:46 +0000
Subject: [PATCH 104/106] fix: Binomial and NegativeBinomial counts given per
 feature were spread over the repetitions

---
 spflow/modules/leaves/binomial.py          | 6 ++++--
 spflow/modules/leaves/negative_binomial.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/spflow/modules/leaves/binomial.py b/spflow/modules/leaves/binomial.py
index 8948009..b21a896 100644
--- a/spflow/modules/leaves/binomial.py
+++ b/spflow/modules/leaves/binomial.py
@@ -6,7 +6,7 @@ from torch import Tensor, nn
 from spflow.exceptions import InvalidParameterCombinationError
 from spflow.meta.data import Scope
 from spflow.modules.leaves.leaf import LeafModule
-from spflow.utils.leaves import init_parameter, _handle_mle_edge_cases
+from spflow.utils.leaves import align_parameter, init_parameter, _handle_mle_edge_cases
 from spflow.utils.projections import proj_probs_to_logits, proj_real_to_bounded
 from spflow.utils.sampling_context import SIMPLE
 
@@ -81,7 +81,9 @@ class Binomial(LeafModule):
         init_value = init_parameter(param=param_source, event_shape=self.event_shape, init=init_fn)
 
         # Register total_count as a fixed buffer
-        total_count = torch.broadcast_to(total_count, self.event_shape).clone()
+        total_count = torch.broadcast_to(
+            align_parameter(total_count, self.event_shape), self.event_shape
+        ).clone()
         self.register_buffer("_total_count", total_count)
 
         logits_tensor = init_value if logits is not None else proj_probs_to_logits(init_value)
diff --git a/spflow/modules/leaves/negative_binomial.py b/spflow/modules/leaves/negative_binomial.py
index 972ccfb..fd391af 100644
--- a/spflow/modules/leaves/negative_binomial.py
+++ b/spflow/modules/leaves/negative_binomial.py
@@ -4,7 +4,7 @@ from torch import Tensor, nn
 from spflow.exceptions import InvalidParameterCombinationError
 from spflow.meta.data import Scope
 from spflow.modules.leaves.leaf import LeafModule
-from spflow.utils.leaves import init_parameter, _handle_mle_edge_cases
+from spflow.utils.leaves import align_parameter, init_parameter, _handle_mle_edge_cases
 from spflow.utils.projections import proj_probs_to_logits, proj_real_to_bounded
 from spflow.utils.sampling_context import SIMPLE
 
@@ -72,7 +72,9 @@ class NegativeBinomial(LeafModule):
         init_value = init_parameter(param=param_source, event_shape=self.event_shape, init=init_fn)
 
         # Register n as a fixed buffer
-        total_count = torch.broadcast_to(total_count, self.event_shape).clone()
+        total_count = torch.broadcast_to(
+            align_parameter(total_count, self.event_shape), self.event_shape
+        ).clone()
         self.register_buffer("_total_count", total_count)
 
         logits_tensor = init_value if logits is not None else proj_probs_to_logits(init_value)
-- 
2.43.0


From 0908b92651bcb4a0e891289255355377d9b7e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:30 +0000
Subject: [PATCH 105/106] fix: marginalised leaves lost validate_args

---
 spflow/modules/leaves/leaf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index b19c78a..fd19b21 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -1152,7 +1152,9 @@ class LeafModule(Module, ABC):
         marg_params_dict = {k: v.detach() for k, v in marg_params_dict.items()}
 
         # Construct new object of the same class as the leaves
-        return self.__class__(
+        marg_leaf = self.__class__(
             scope=scope_marg,
             **marg_params_dict,
         )
+        marg_leaf._validate_args = self._validate_args
+        return marg_leaf
-- 
2.43.0


From 6b954b8526d14be8c73a57aca5881e20b1825547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:56:25 +0000
Subject: [PATCH 106/106] fix: parameter records of conditional Gamma leaves
 held the logarithms of the parameters

---
 spflow/modules/leaves/gamma.py | 12 ++++++------
 spflow/modules/leaves/leaf.py  |  8 ++++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/spflow/modules/leaves/gamma.py b/spflow/modules/leaves/gamma.py
index 04d7a78..4b455ea 100644
--- a/spflow/modules/leaves/gamma.py
+++ b/spflow/modules/leaves/gamma.py
@@ -100,17 +100,17 @@ class Gamma(LeafModule):
     ) -> type[torch.distributions.Gamma]:
         return torch.distributions.Gamma
 
+    def _conditional_params(self, evidence: Tensor) -> dict[str, Tensor]:
+        """Exponentiate the results of the parameter function, so that both parameters are positive."""
+        params = self.parameter_fn(evidence)
+        return {name: torch.exp(params[name]) for name in ("concentration", "rate")}
+
     def conditional_distribution(
         self, evidence: Tensor, with_differentiable_sampling: bool = False
     ) -> torch.distributions.Gamma:
         del with_differentiable_sampling
-        # Pass evidence to parameter network to get parameters
-        params = self.parameter_fn(evidence)
-
-        # Apply exponential to ensure positive parameters and construct torch Gamma distribution
         return torch.distributions.Gamma(
-            concentration=torch.exp(params["concentration"]),
-            rate=torch.exp(params["rate"]),
+            **self._conditional_params(evidence),
             validate_args=self._validate_args,
         )
 
diff --git a/spflow/modules/leaves/leaf.py b/spflow/modules/leaves/leaf.py
index fd19b21..2bffba9 100644
--- a/spflow/modules/leaves/leaf.py
+++ b/spflow/modules/leaves/leaf.py
@@ -132,6 +132,10 @@ class LeafModule(Module, ABC):
         else:
             return self._torch_distribution_class(validate_args=self._validate_args, **params)  # type: ignore[call-arg]
 
+    def _conditional_params(self, evidence: Tensor) -> Dict[str, Tensor]:
+        """Distribution parameters computed from evidence by the parameter function."""
+        return self.parameter_fn(evidence)
+
     def conditional_distribution(
         self, evidence: Tensor, with_differentiable_sampling: bool = False
     ) -> torch.distributions.Distribution:
@@ -148,7 +152,7 @@ class LeafModule(Module, ABC):
         """
         if evidence is None:
             raise ValueError("Evidence tensor must be provided for conditional distribution.")
-        params = self.parameter_fn(evidence)
+        params = self._conditional_params(evidence)
         return self.__make_distribution(params, with_differentiable_sampling=with_differentiable_sampling)
 
     @property
@@ -1004,7 +1008,7 @@ class LeafModule(Module, ABC):
         if self.is_conditional:
             if evidence is None:
                 raise RuntimeError("Conditional leaf parameter collection requires evidence.")
-            params_dict = self.parameter_fn(evidence)
+            params_dict = self._conditional_params(evidence)
         else:
             params_dict = self.params()
         if "scale" in params_dict and "log_scale" not in params_dict:
-- 
2.43.0

