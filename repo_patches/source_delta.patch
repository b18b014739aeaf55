From 79039739c0f5f631975fce787eaa05f62cae819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 01/68] fix: apply inverse scale transformations in reverse
 order

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 5396808..ee71892 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -159,7 +159,7 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A 2D tensor containing original theta scores. Each column represents one latent variable.
         """
-        for scale in self.scale:
+        for scale in reversed(self.scale):
             transformed_theta = scale.inverse(transformed_theta)
         return transformed_theta
 
-- 
2.43.0


From 2bd15e671360a59c3e5c762bf4b0de4f3b5e6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 02/68] fix: one-hot encoding no longer overwrites missing
 values in the caller's data

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 6bc655d..ee20963 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -353,7 +353,7 @@ def one_hot_encode_test_data(
             "The number of columns in the data tensor must match the length of the item_categories list."
         )
     if data.isnan().any():
-        data[data.isnan()] = -1
+        data = torch.where(data.isnan(), -1, data)
 
     one_hot_list = []
     if data.dtype != torch.long:
-- 
2.43.0


From 85981a0c251a5284b5129b723ba20f8a26e77f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 03/68] fix: residuals no longer overwrite missing values in
 the caller's data

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index c23c899..719b845 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -172,7 +172,7 @@ class Evaluator:
         data, theta, _ = self._evaluate_data_theta_input(data, theta, **kwargs)
 
         missing_mask = get_missing_mask(data)
-        data[torch.isnan(data)] = -1
+        data = torch.where(torch.isnan(data), -1, data)
         if self.model.mc_correct is not None:
             # 3D tensor with dimensions (respondents, items, item categories)
             probabilities = self.model.item_probabilities(theta)
-- 
2.43.0


From 396087480a18600679cbafd59217ae10b926fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 04/68] fix: group_fit_log_likelihood aligns the missing mask
 with the sorted respondents and skips missing responses

---
 irtorch/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 719b845..dfc7bc9 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -576,13 +576,14 @@ class Evaluator:
         indicies = torch.sort(theta[:, latent_variable - 1], dim=0)[1]
         theta = theta[indicies]
         data = data[indicies]
+        missing_mask = missing_mask[indicies]
         likelihoods = self.model.log_likelihood(
             data,
             self.model(theta),
             missing_mask,
             loss_reduction="none"
         )
-        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).sum(dim=1)
+        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).nansum(dim=1)
         group_mean_likelihoods = torch.zeros(groups)
         start_index = 0
         for group in range(groups):
-- 
2.43.0


From c69044c2066082dc546e3299950e2e10d61432f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 05/68] fix: LinkCommonItems.inverse undoes the sign flip
 before the inverse spline

---
 irtorch/rescale/link_common_items.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 0649b8a..dc58b20 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -253,8 +253,8 @@ class LinkCommonItems(Scale):
             A 2D tensor containing theta scores on the the original scale.
         """
         if self._method == "spline":
-            theta, _ = self._transformation(transformed_theta, inverse=True)
-            return theta * self._transformation_multiplier
+            theta, _ = self._transformation(transformed_theta * self._transformation_multiplier, inverse=True)
+            return theta
         else:
             raise NotImplementedError("Inverse transformation is not yet implemented for monotonic neural networks.")
 
-- 
2.43.0


From a04b9f83cc7f110c3d81efec7f4e46c2d67a1173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 06/68] fix: neural net LinkCommonItems.jacobian differentiates
 the actual transformation

---
 irtorch/rescale/link_common_items.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index dc58b20..486aa4c 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -278,7 +278,7 @@ class LinkCommonItems(Scale):
         theta_scores = theta.clone()
         theta_scores.detach_().requires_grad_(True)
         if self._method == "neuralnet":
-            transformed_thetas = self._transformation(theta_scores)
+            transformed_thetas = self._split_activation(self._transformation(theta_scores)).sum(dim=1).view(-1, 1)
         else:
             transformed_thetas, _ = self._transformation(theta_scores, inverse=False)
         transformed_thetas = transformed_thetas * self._transformation_multiplier
-- 
2.43.0


From 3d22de099ff1c3064b31915038fc5f97a1167bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 07/68] fix: RationalQuadraticSpline log determinant accounts
 for the slope outside the bounds

---
 irtorch/torch_modules/rational_quadratic_spline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/torch_modules/rational_quadratic_spline.py b/irtorch/torch_modules/rational_quadratic_spline.py
index 3c103fa..a92249e 100644
--- a/irtorch/torch_modules/rational_quadratic_spline.py
+++ b/irtorch/torch_modules/rational_quadratic_spline.py
@@ -123,7 +123,9 @@ class RationalQuadraticSpline(nn.Module):
         
         outputs = torch.where(below, lower_trans(inputs), outputs)
         outputs = torch.where(above, upper_trans(inputs), outputs)
-        logabsdet = torch.where(~inside, torch.zeros_like(logabsdet), logabsdet)
+        sign = -1 if inverse else 1
+        logabsdet = torch.where(below, torch.full_like(logabsdet, sign * np.log(self.deriv_outside_lower)), logabsdet)
+        logabsdet = torch.where(above, torch.full_like(logabsdet, sign * np.log(self.deriv_outside_upper)), logabsdet)
         
         if inside.any():
             out_inside, logdet_inside = self._rational_quadratic_spline(
-- 
2.43.0


From 8e8a071a11b2882b7267a8dc30a753f9f0365827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 08/68] fix: random incorrect imputation accepts multiple
 choice models and rejects the others

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 913f703..24e0a35 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -335,7 +335,7 @@ def impute_missing(
         imputed_data[mask] = means.repeat(data.shape[0], 1)[mask]
     elif method == "random incorrect":
         if model is not None:
-            if model.mc_correct is not None:
+            if model.mc_correct is None:
                 raise ValueError("The model provided must be a multiple choice item model when using random_incorrect imputation")
             item_categories = model.item_categories
             mc_correct = model.mc_correct
-- 
2.43.0


From 257e5dd5ca3319f0b14bd4ce645f5702a9b0f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 09/68] fix: get_item_categories uses all observed responses of
 an item instead of complete rows only

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 24e0a35..fbcfa09 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -291,7 +291,7 @@ def get_item_categories(data: torch.Tensor):
     list
         A list of integers where each integer is the number of possible responses for the corresponding item.
     """
-    return [int(data[~data.isnan().any(dim=1)][:, col].max()) + 1 for col in range(data.shape[1])]
+    return [int(data[~data[:, col].isnan(), col].max()) + 1 for col in range(data.shape[1])]
 
 @torch.no_grad()
 def impute_missing(
-- 
2.43.0


From 195c6cf4542f921c5acb66345e3839fcd2c56a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 10/68] fix: sum scores count missing responses as zero

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index ee20963..a176942 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -464,6 +464,6 @@ def sum_score(data: torch.Tensor, mc_correct: list[int] = None):
         A tensor of sum scores for each respondent.
     """
     if mc_correct is None:
-        return data.sum(dim=1)
+        return torch.where(get_missing_mask(data), 0, data).sum(dim=1)
     else:
         return (data == torch.tensor(mc_correct, dtype=data.dtype)).int().sum(dim=1).float()
-- 
2.43.0


From 76577531b70ae885f1c5546033ca75389fda518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 11/68] fix: random incorrect imputation works for a single
 respondent

---
 irtorch/_internal_utils.py | 2 +-
 irtorch/utils.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index a176942..341aa21 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -440,7 +440,7 @@ def impute_missing_internal(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
         return imputed_data
diff --git a/irtorch/utils.py b/irtorch/utils.py
index fbcfa09..d428823 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -350,7 +350,7 @@ def impute_missing(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
     elif method == "prior expected":
-- 
2.43.0


From 79617cab8b0ec6759328ef7c608e852033e66a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 12/68] fix: correlation_matrix with missing values centers
 each pair on its jointly observed rows

---
 irtorch/_internal_utils.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 341aa21..c0ed08e 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -50,30 +50,18 @@ def correlation_matrix(x):
         
         return corr_matrix
 
-    means = torch.nanmean(x, dim=0)
-    centered_tensor = x - means
-    # Set NaNs back where they originally were in the centered tensor
-    centered_tensor[~mask] = 0
-    # Calculate the dot product of the centered matrix to get the covariance
-    cov_matrix = torch.matmul(centered_tensor.T, centered_tensor)
-    
-    # Normalization factors: counts of non-NaN pairs
-    norm_factors = torch.matmul(mask.T.float(), mask.float())
-    # Adjust normalization by dividing by n-1
-    norm_factors = torch.where(norm_factors > 1, norm_factors - 1, torch.ones_like(norm_factors))
-    cov_matrix = cov_matrix / norm_factors
-    
-    corr_matrix = torch.ones_like(cov_matrix)
-    for i in range(cov_matrix.size(0)):
-        for j in range(cov_matrix.size(1)):
+    # Each pair of variables uses the means and standard deviations of the observations where both are present
+    corr_matrix = torch.ones(x.size(1), x.size(1), dtype=x.dtype, device=x.device)
+    for i in range(x.size(1)):
+        for j in range(x.size(1)):
             if i == j or i > j:
                 continue
             else:
                 valid_mask = mask[:, i] & mask[:, j]
                 if torch.sum(valid_mask) > 1:
-                    std_i = torch.sqrt(torch.sum((x[valid_mask, i] - x[valid_mask, i].mean()) ** 2) / (torch.sum(valid_mask) - 1))
-                    std_j = torch.sqrt(torch.sum((x[valid_mask, j] - x[valid_mask, j].mean()) ** 2) / (torch.sum(valid_mask) - 1))
-                    corr_matrix[i, j] = cov_matrix[i, j] / (std_i * std_j)
+                    centered_i = x[valid_mask, i] - x[valid_mask, i].mean()
+                    centered_j = x[valid_mask, j] - x[valid_mask, j].mean()
+                    corr_matrix[i, j] = (centered_i * centered_j).sum() / (centered_i.square().sum() * centered_j.square().sum()).sqrt()
                     corr_matrix[j, i] = corr_matrix[i, j]
                 else:
                     corr_matrix[i, j] = 0.0 # Assign a default value if there aren't enough valid pairs
-- 
2.43.0


From b3305fa18dc8a9e7e356a0477e1ea22f57148bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 13/68] fix: random_guessing_data supports its documented
 default guessing probabilities

---
 irtorch/_internal_utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index c0ed08e..057a228 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -95,8 +95,9 @@ def random_guessing_data(
         A 2D tensor with test data. Rows are respondents and columns are items.
     """
     num_items = len(item_categories)
+    if guessing_probabilities is None:
+        guessing_probabilities = [1.0 / cats if mc_correct is not None else 0.0 for cats in item_categories]
     if (
-        guessing_probabilities is not None and \
         isinstance(guessing_probabilities, list) and \
         all(isinstance(item, float) for item in guessing_probabilities) and \
         len(guessing_probabilities) == num_items
@@ -106,10 +107,6 @@ def random_guessing_data(
     else:
         raise ValueError("guessing_probabilities must be list of floats with the same length as the number of items.")
 
-
-    if guessing_probabilities is None:
-        guessing_probabilities = [1.0 / cats for cats in item_categories]
-
     response_matrix = torch.zeros(size, num_items)
 
     for item_idx, num_categories in enumerate(item_categories):
-- 
2.43.0


From 34047b2f98859b6aa83d7ee21a5b64631aaabc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 14/68] fix: random_guessing_data respects the answer key of
 two-category items

---
 irtorch/_internal_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 057a228..99f2cbb 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -112,7 +112,7 @@ def random_guessing_data(
     for item_idx, num_categories in enumerate(item_categories):
         guessing_prob = guessing_probabilities[item_idx]
 
-        if num_categories == 2:
+        if num_categories == 2 and mc_correct is None:
             responses = torch.bernoulli(torch.full((size,), guessing_prob))
         else:
             if mc_correct is not None:
@@ -124,7 +124,7 @@ def random_guessing_data(
                 incorrect_total_prob = 1.0 - guessing_prob
                 probs[probs != guessing_prob] = incorrect_total_prob / (num_categories - 1)
 
-                responses = torch.multinomial(probs.repeat(size, 1), 1).squeeze()
+                responses = torch.multinomial(probs.repeat(size, 1), 1).squeeze(1)
             else:
                 responses = torch.zeros(size, dtype=torch.long)
 
-- 
2.43.0


From 0f170783b312e76d77615e854c182c5bb0f592b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 15/68] fix: bit starting theta from a subset of items treats
 the other items as missing

---
 irtorch/rescale/bit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 355c115..a795373 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -347,6 +347,10 @@ class Bit(Scale):
             guessing_probabilities,
             selected_correct
         )
+        # items which are not used are treated as missing
+        full_random_data = torch.full((guessing_iterations, len(self.model.item_categories)), torch.nan)
+        full_random_data[:, items] = random_data
+        random_data = full_random_data
 
         logger.info("Approximating theta from random guessing data to get minimum bit score.")
         guessing_theta = self.model.latent_scores(random_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
-- 
2.43.0


From 1334905cc98a239aaa63e8d8b1a4eb3d7c72dcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 16/68] fix: Bit.jacobian works for a subset of items

---
 irtorch/rescale/bit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index a795373..65b0204 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -246,7 +246,7 @@ class Bit(Scale):
             if theta.requires_grad:
                 theta.requires_grad_(False)
 
-            probs = self.model.item_probabilities(theta)
+            probs = self.model.item_probabilities(theta)[:, self.items]
             prob_grads = self.model.probability_gradients(theta, rescale=False)[:, self.items, :, 0]
             entropy_gradient_summands = probs.log2() * prob_grads
             item_bit_gradients = entropy_gradient_summands.nansum(dim=2).abs()
-- 
2.43.0


From c9710b9f92d2d801b1ecbceab85cb88e8d6c59ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 17/68] fix: gradient methods no longer switch off
 requires_grad on the caller's theta

---
 irtorch/models/base_irt_model.py | 4 +---
 irtorch/rescale/bit.py           | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index ee71892..ddd4c77 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -334,9 +334,7 @@ class BaseIRTModel(ABC, nn.Module):
         The last line gives us a linear equation that is solved using `torch.linalg.solve` to get :math:`\nabla_{\boldsymbol{\theta}} \mathbb{E}(X_j|\boldsymbol{\theta})`.
         This is more efficient as computing :math:`\mathbf{J}^{-1}_f` is not needed.
         """
-        if theta.requires_grad:
-            theta.requires_grad_(False)
-
+        theta = theta.detach()
         gradients = torch.zeros(theta.shape[0], len(self.item_categories), theta.shape[1])
         theta_scores = theta.clone()
         theta_scores.requires_grad_(True)
diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 65b0204..dffe408 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -243,9 +243,7 @@ class Bit(Scale):
             A torch tensor with the gradients for each theta score. Dimensions are (theta rows, latent variables, latent variables) where the last two are the jacobians.
         """
         if self.model.latent_variables == 1:
-            if theta.requires_grad:
-                theta.requires_grad_(False)
-
+            theta = theta.detach()
             probs = self.model.item_probabilities(theta)[:, self.items]
             prob_grads = self.model.probability_gradients(theta, rescale=False)[:, self.items, :, 0]
             entropy_gradient_summands = probs.log2() * prob_grads
-- 
2.43.0


From 4b28a9566e10afb007caabf7efc6b11d5a8cfa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 18/68] fix: rescaled gradients treat negative infinity like
 positive infinity

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index ddd4c77..6091cdf 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -382,7 +382,7 @@ class BaseIRTModel(ABC, nn.Module):
         )
         gradients = torch.linalg.solve(transform_jacobian_T, non_transform_gradients)
         gradients[gradients.isnan()] = 0.
-        gradients[gradients == torch.inf] = 0.
+        gradients[gradients.isinf()] = 0.
         # transpose back to original shape
         gradients = gradients.view(original_shape)
         return gradients
-- 
2.43.0


From 8c567a5d96824f6982fe747843b23eee4c0444df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 19/68] fix: ML and MAP scoring restores which parameters were
 trainable

---
 irtorch/models/base_irt_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 6091cdf..03637da 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -795,6 +795,7 @@ class BaseIRTModel(ABC, nn.Module):
                     prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), self.algorithm.covariance_matrix.to(device))
 
             # Ensure model parameters gradients are not updated
+            trainable_parameters = [parameter for parameter in self.parameters() if parameter.requires_grad]
             self.requires_grad_(False)
 
             if initial_theta_scores is None:
@@ -851,7 +852,8 @@ class BaseIRTModel(ABC, nn.Module):
             # Reset requires_grad train model later
             self.to("cpu")
             optimized_theta_scores = optimized_theta_scores.detach().to("cpu")
-            self.requires_grad_(True)
+            for parameter in trainable_parameters:
+                parameter.requires_grad_(True)
         return optimized_theta_scores
 
     @torch.no_grad()
-- 
2.43.0


From 227ead9946c73551bf02978a9e637805cb69e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 20/68] fix: reject an mc_correct equal to the number of item
 categories

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 03637da..165a452 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -35,7 +35,7 @@ class BaseIRTModel(ABC, nn.Module):
     ):
         super().__init__()
         if mc_correct is not None:
-            if not all(item >= mc for item, mc in zip(item_categories, mc_correct)):
+            if not all(item > mc for item, mc in zip(item_categories, mc_correct)):
                 raise ValueError("mc_correct cannot be greater than the number of categories for each item.")
         self.latent_variables = latent_variables
         self.item_categories = item_categories
-- 
2.43.0


From fa0e7298711ecbd8aab77b13001bbbd891794133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 21/68] fix: encoder scoring supports random incorrect
 imputation

---
 irtorch/models/base_irt_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 165a452..f6e952b 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -598,6 +598,8 @@ class BaseIRTModel(ABC, nn.Module):
                         encoder_data = impute_missing_internal(
                             data = data,
                             method=self.algorithm.imputation_method,
+                            mc_correct=self.mc_correct,
+                            item_categories=self.item_categories,
                         )
                     elif not self.algorithm.one_hot_encoded:
                         raise ValueError("The algorithm encoder does not use one-hot encoded data, and autoencoder does not have a pre-specified imputation method. Please impute beforehand.")
-- 
2.43.0


From 218e78d6672ea747e067a94a76c7a96e8f57ffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 22/68] fix: EAP scoring works for models fitted without
 training theta scores (MML)

---
 irtorch/models/base_irt_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index f6e952b..d4c4a41 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -886,9 +886,7 @@ class BaseIRTModel(ABC, nn.Module):
                 4: 5
             }.get(self.latent_variables, 15)
 
-        if hasattr(self.algorithm, "training_theta_scores"):
-            if self.algorithm.training_theta_scores is None:
-                raise ValueError("Please fit the model before computing latent scores.")
+        if hasattr(self.algorithm, "training_theta_scores") and self.algorithm.training_theta_scores is not None:
             train_theta_scores = self.algorithm.training_theta_scores.to("cpu")
             theta_grid = self._theta_grid(train_theta_scores, grid_size=grid_points)
             # Center the data and compute the covariance matrix.
-- 
2.43.0


From 9b39713735266ce58d2aa97743f10eeae711a8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 23/68] fix: EAP scoring does not underflow for long tests

---
 irtorch/models/base_irt_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index d4c4a41..0191ef0 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -926,7 +926,9 @@ class BaseIRTModel(ABC, nn.Module):
         # p(x|theta)p(theta) / sum(p(x|theta)p(theta)) needs to sum to 1 for each respondent response pattern.
         log_posterior = (log_prior + grid_log_likelihoods).view(-1, theta_grid.shape[0]) # each row is one respondent
         # convert to float 64 to prevent 0 probabilities
-        exp_log_posterior = log_posterior.to(dtype=torch.float64).exp()
+        # subtract the maximum of each row to prevent underflow for long tests
+        log_posterior = log_posterior.to(dtype=torch.float64)
+        exp_log_posterior = (log_posterior - log_posterior.max(dim=1, keepdim=True).values).exp()
         posterior = (exp_log_posterior.T / exp_log_posterior.sum(dim=1)).T.view(-1, 1) # transform to one column
 
         # Get expected theta
-- 
2.43.0


From 4763f69611dd8dee2e85bfa1a81bcdedbb608c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 24/68] fix: VAE.fit stores its imputation and batch
 normalization settings like AE.fit

---
 irtorch/estimation_algorithms/vae.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 5f9be23..9aa1008 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -101,6 +101,10 @@ class VAE(AE):
         self.annealing_iterations = annealing_iterations
         self.anneal = anneal
         self.one_hot_encoded = one_hot_encoded
+        self.batch_normalization = batch_normalization_encoder
+        self.imputation_method = imputation_method
+        self.item_categories = model.item_categories
+        self.mc_correct = model.mc_correct
 
         if batch_size is None:
             batch_size = train_data.shape[0]
-- 
2.43.0


From 002163828e9f47f3fbabdbbad635d146b70e0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 25/68] fix: encoder sampling in sum_score_probabilities

---
 irtorch/evaluator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index dfc7bc9..d6dad2f 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1093,14 +1093,14 @@ class Evaluator:
             theta_scores = self.model.latent_scores(population_data, theta_estimation="NN", device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         if latent_density_method in ["data", "encoder sampling"]:
+            if latent_density_method == "encoder sampling":
+                theta_scores = self.model.algorithm.sample_latent_variables(
+                    model=self.model, sample_size=sample_size, input_data=population_data
+                )
             weights = (
                 torch.ones(theta_scores.shape[0])
                 / theta_scores.shape[0]
             )
-            if latent_density_method == "encoder sampling":
-                theta_scores = self.model.algorithm.sample_latent_variables(
-                    sample_size=sample_size, input_data=population_data
-                )
         else:
             (
                 theta_scores,
-- 
2.43.0


From 50ded46e0da7701a897eb68c218188f906919b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 26/68] fix: sum_score_probabilities accepts population data
 for models without an encoder

---
 irtorch/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index d6dad2f..49c70db 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1090,7 +1090,8 @@ class Evaluator:
                 mvn = MultivariateNormal(torch.zeros(self.model.latent_variables), self.model.algorithm.covariance_matrix)
                 theta_scores = mvn.sample((4000,)).to(dtype=torch.float32)
         else:
-            theta_scores = self.model.latent_scores(population_data, theta_estimation="NN", device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
+            theta_estimation = "NN" if hasattr(self.model.algorithm, "encoder") else "ML"
+            theta_scores = self.model.latent_scores(population_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         if latent_density_method in ["data", "encoder sampling"]:
             if latent_density_method == "encoder sampling":
-- 
2.43.0


From 544fff39453483c17f8d41e814c880906272a26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 27/68] fix: timer works without CUDA so that cross validation
 can run on the CPU

---
 irtorch/timer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/irtorch/timer.py b/irtorch/timer.py
index 6687f53..b15921c 100644
--- a/irtorch/timer.py
+++ b/irtorch/timer.py
@@ -11,17 +11,19 @@ def start_timer():
     """
     global START_TIME
     gc.collect()
-    torch.cuda.empty_cache()
-    torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
-    torch.cuda.synchronize()
+    if torch.cuda.is_available():
+        torch.cuda.empty_cache()
+        torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
+        torch.cuda.synchronize()
     START_TIME = time.time()
 
 def end_timer_and_print(local_msg):
     """
     End the timer and print the execution time and memory usage.
     """
+    if torch.cuda.is_available():
+        torch.cuda.synchronize()
     end_time = time.time()
-    torch.cuda.synchronize()
     logger.info("\n%s", local_msg)
     logger.info("Total execution time = %s sec", end_time - START_TIME)
     logger.info("Max memory used by tensors = %s bytes", torch.cuda.max_memory_allocated())
-- 
2.43.0


From f4a499e0132f17f7152056b32c0a19c692d45db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 28/68] fix: cross validation fits an untrained copy of the
 model in every fold

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index d428823..d1ef0e8 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -180,7 +180,7 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
             if "algorithm" in fold_params:
                 algorithm = copy.deepcopy(fold_params.pop("algorithm"))
             
-            result = _cv_fold(model, train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
+            result = _cv_fold(copy.deepcopy(model), train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
             
             # Add algorithm back to result if it was present
             if algorithm is not None:
-- 
2.43.0


From 7d11af9ba11452b8c6ef3fb25275932d140b0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 29/68] fix: joint entropies skip responses coded as -1

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 99f2cbb..31133f8 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -263,7 +263,7 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
     if data.dim() != 2:
         raise ValueError("Input must be a 2D tensor")
     
-    mask = ~torch.isnan(data)
+    mask = ~get_missing_mask(data)
     int_data = data.int()
     max_combos = ((int_data.max() + 1) ** 2).item()
     proportions = torch.zeros(int_data.shape[1], int_data.shape[1], max_combos)
-- 
2.43.0


From df6b61cced9cbd3215a469d6fc9eaa3f4b001011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 30/68] fix: group_fit_residuals works on the training data and
 forwards its scoring arguments

---
 irtorch/evaluator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 49c70db..15a3b46 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -253,6 +253,8 @@ class Evaluator:
         raw_residuals = grouped_data_probabilties - grouped_model_probabilties
         if standardize:
             # get number of people in each group
+            if data is None:
+                data = self.model.algorithm.train_data
             data = torch.chunk(data, groups)
             group_n = torch.tensor([group.shape[0] for group in data])
 
@@ -604,6 +606,7 @@ class Evaluator:
         groups: int = 10,
         theta_estimation: str = "ML",
         rescale: bool = True,
+        **kwargs
     ) -> tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
         """
         Group the respondents based on their ordered latent variable scores.
@@ -625,7 +628,9 @@ class Evaluator:
             A 2D tensor containing test data. Each row corresponds to one respondent and each column represents a latent variable. (default is None)
         rescale : bool, optional
             Whether to group the latent scores on the theta transformation scale if it exists. Note: for uni-dimensional models, all monotone scale transformations are equivalent in this case. (default is True)
-        
+        **kwargs : dict, optional
+            Additional keyword arguments used for theta estimation. Refer to :meth:`irtorch.models.BaseIRTModel.latent_scores` for additional details.
+
         Returns
         -------
         tuple[torch.Tensor, torch.Tensor, torch.Tensor]
@@ -635,7 +640,7 @@ class Evaluator:
 
             The third tensor contains the average latent variable values within each group along the specified latent_variable.
         """
-        data, theta, _ = self._evaluate_data_theta_input(data=data, theta=theta, theta_estimation=theta_estimation)
+        data, theta, _ = self._evaluate_data_theta_input(data=data, theta=theta, theta_estimation=theta_estimation, **kwargs)
 
         if rescale and self.model.scale:
             transformed_scores = self.model.transform_theta(theta)
-- 
2.43.0


From e0bb86f423dce876846f0fda4995665102ae9a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 31/68] fix: align item log-likelihoods of ModelMix with
 respondents

---
 irtorch/_internal_utils.py           | 33 ++++++++++++++++++++++++++++
 irtorch/estimation_algorithms/mml.py |  5 ++---
 irtorch/estimation_algorithms/vae.py |  7 +++---
 irtorch/evaluator.py                 | 18 ++++-----------
 irtorch/models/base_irt_model.py     |  8 +++----
 5 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 31133f8..403af1a 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -132,6 +132,39 @@ def random_guessing_data(
 
     return response_matrix
 
+def item_log_likelihoods(
+    model,
+    data: torch.Tensor,
+    output: torch.Tensor,
+    missing_mask: torch.Tensor = None,
+) -> torch.Tensor:
+    """
+    Compute the log-likelihood of each item response.
+
+    Parameters
+    ----------
+    model : BaseIRTModel
+        The IRT model.
+    data : torch.Tensor
+        A 2D tensor with test data. Columns are items and rows are respondents.
+    output : torch.Tensor
+        The model output for each respondent.
+    missing_mask : torch.Tensor, optional
+        A 2D tensor with missing data mask. (default is None)
+
+    Returns
+    -------
+    torch.Tensor
+        A 2D tensor with the log-likelihoods. Columns are items and rows are respondents. Missing responses are nan.
+    """
+    log_likelihoods = model.log_likelihood(data, output, missing_mask=missing_mask, loss_reduction="none")
+    sub_models = getattr(model, "models", None)
+    if not isinstance(sub_models, torch.nn.ModuleList):
+        return log_likelihoods.view(data.shape[0], -1)
+    # mixed models return the log-likelihoods for one sub-model at a time
+    log_likelihoods = log_likelihoods.split([data.shape[0] * sub_model.items for sub_model in sub_models])
+    return torch.cat([ll.view(data.shape[0], -1) for ll in log_likelihoods], dim=1)
+
 def conditional_score_distribution(
     probabilities: torch.Tensor,
     item_categories: list[int],
diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index f36849d..5b92c80 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -4,7 +4,7 @@ import torch
 from torch.distributions import MultivariateNormal
 from irtorch.models import BaseIRTModel, MonotoneBSpline, NestedLogit, MonotoneBSpline
 from irtorch.utils import gauss_hermite
-from irtorch._internal_utils import dynamic_print
+from irtorch._internal_utils import dynamic_print, item_log_likelihoods
 from irtorch.irt_dataset import PytorchIRTDataset
 from irtorch.estimation_algorithms import BaseIRTAlgorithm
 
@@ -268,8 +268,7 @@ class MML(BaseIRTAlgorithm):
 
         self.optimizer.zero_grad()
         logits = model(latent_grid)
-        ll = model.log_likelihood(train_data.data, logits, missing_mask=train_data.mask, loss_reduction="none")
-        ll = ll.view(-1, model.items).nansum(dim=1) # sum over items
+        ll = item_log_likelihoods(model, train_data.data, logits, train_data.mask).nansum(dim=1) # sum over items
         
         log_sums = (log_weights + ll).view(number_of_weights, -1)
         constant = log_sums.max(dim=0)[0] # for logexpsum trick (one constant per respondent)
diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 9aa1008..7a9bd13 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -5,6 +5,7 @@ from irtorch.models import BaseIRTModel
 from irtorch.estimation_algorithms.ae import AE
 from irtorch.estimation_algorithms.encoders import VariationalEncoder
 from irtorch.irt_dataset import PytorchIRTDataset
+from irtorch._internal_utils import item_log_likelihoods
 
 logger = logging.getLogger("irtorch")
 
@@ -246,18 +247,18 @@ class VAE(AE):
         else:
             self.annealing_factor = 1.0
 
-        log_p_x_theta = model.log_likelihood(
+        log_p_x_theta = item_log_likelihoods(
+            model,
             data.repeat(self.iw_samples, 1),
             logits,
             missing_mask.repeat(self.iw_samples, 1),
-            loss_reduction="none",
         )
 
         # Reshape tensor by each iw-sample
         # we need to keep a dimension for each respondent, but we can sum over items
         log_p_x_theta = log_p_x_theta.view(
             self.iw_samples,
-            log_p_x_theta.shape[0] // (self.iw_samples * data.shape[1]),
+            data.shape[0],
             data.shape[1],
         ).nansum(2)
 
diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 15a3b46..08eb40e 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -10,6 +10,7 @@ from irtorch.quantile_mv_normal import QuantileMVNormal
 from irtorch.torch_modules.gaussian_mixture_model import GaussianMixtureModel
 from irtorch._internal_utils import (
     conditional_score_distribution,
+    item_log_likelihoods,
     sum_incorrect_probabilities,
     get_missing_mask,
     correlation_matrix,
@@ -522,16 +523,10 @@ class Evaluator:
             else:
                 dim = None
 
-        likelihoods = self.model.log_likelihood(
-            data,
-            self.model(theta),
-            missing_mask,
-            loss_reduction="none"
-        )
+        likelihoods = item_log_likelihoods(self.model, data, self.model(theta), missing_mask)
 
         # On unseen data, we may end up with 0 probabilities which will result in -inf likelihoods
         likelihoods[likelihoods==-torch.inf] = -30.0
-        likelihoods = likelihoods.view(theta.shape[0], -1)
         if reduction in "mean":
             return likelihoods.nanmean(dim=dim)
         if reduction == "sum":
@@ -579,13 +574,8 @@ class Evaluator:
         theta = theta[indicies]
         data = data[indicies]
         missing_mask = missing_mask[indicies]
-        likelihoods = self.model.log_likelihood(
-            data,
-            self.model(theta),
-            missing_mask,
-            loss_reduction="none"
-        )
-        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).nansum(dim=1)
+        likelihoods = item_log_likelihoods(self.model, data, self.model(theta), missing_mask)
+        respondent_likelihoods = likelihoods.nansum(dim=1)
         group_mean_likelihoods = torch.zeros(groups)
         start_index = 0
         for group in range(groups):
diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 0191ef0..aef741d 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -6,7 +6,7 @@ import torch
 from torch import nn
 from torch.distributions import MultivariateNormal
 import torch.nn.functional as F
-from irtorch._internal_utils import linear_regression, impute_missing_internal, dynamic_print, one_hot_encode_test_data, get_missing_mask
+from irtorch._internal_utils import linear_regression, impute_missing_internal, dynamic_print, one_hot_encode_test_data, get_missing_mask, item_log_likelihoods
 
 if TYPE_CHECKING:
     from irtorch.rescale.scale import Scale
@@ -668,8 +668,7 @@ class BaseIRTModel(ABC, nn.Module):
             missing_mask = missing_mask.repeat_interleave(training_thetas.shape[0], dim=0)
 
             logits = logits.repeat(data.shape[0], 1)
-            lls = self.log_likelihood(init_data, logits, missing_mask, loss_reduction="none")
-            lls = lls.view(logits.shape[0], -1).nansum(dim=1)
+            lls = item_log_likelihoods(self, init_data, logits, missing_mask).nansum(dim=1)
             lls = lls.view(data.shape[0], -1)
             best_theta_ind = lls.argmax(dim=1)
             best_theta_ind = torch.arange(0, data.shape[0], device=device) * training_thetas.shape[0] + best_theta_ind
@@ -919,8 +918,7 @@ class BaseIRTModel(ABC, nn.Module):
         replicated_theta_grid = torch.cat([theta_grid] * data.shape[0], dim=0)
         log_prior = torch.cat([log_prior] * data.shape[0], dim=0)
         missing_mask = get_missing_mask(replicated_data)
-        grid_log_likelihoods = self.log_likelihood(replicated_data, replicated_logits, missing_mask, loss_reduction = "none")
-        grid_log_likelihoods = grid_log_likelihoods.view(-1, data.shape[1]).nansum(dim=1) # sum likelihood over items
+        grid_log_likelihoods = item_log_likelihoods(self, replicated_data, replicated_logits, missing_mask).nansum(dim=1) # sum likelihood over items
 
         # Approximate integration integral(p(x|theta)*p(theta)dtheta)
         # p(x|theta)p(theta) / sum(p(x|theta)p(theta)) needs to sum to 1 for each respondent response pattern.
-- 
2.43.0


From 18267d9841f270b79487cc22ae86a2dbaae14b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 32/68] fix: MonotoneBSpline with separate categories supports
 several latent variables

---
 irtorch/models/monotone_b_spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/monotone_b_spline.py b/irtorch/models/monotone_b_spline.py
index a557f11..2b3a62a 100644
--- a/irtorch/models/monotone_b_spline.py
+++ b/irtorch/models/monotone_b_spline.py
@@ -93,7 +93,7 @@ class MonotoneBSpline(BaseIRTModel):
         else:
             # (lv, n_bases, items, max(item_categories))
             # with True where splines are supposed to be
-            spline_mask = torch.ones((1, self.n_bases, self.items, max(item_categories)), dtype=bool)
+            spline_mask = torch.ones((self.latent_variables, self.n_bases, self.items, max(item_categories)), dtype=bool)
             spline_mask[:, :, :, 0] = False
             # remove entries for items with fewer possible responses
             for item, item_cat in enumerate(item_categories):
-- 
2.43.0


From 8e4e4f526cf25d194016495142e54a88927ea41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 33/68] fix: relationship directions are zero for unrelated
 items without negative relationships

---
 irtorch/models/monotone_nn.py         | 2 +-
 irtorch/models/monotone_polynomial.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/monotone_nn.py b/irtorch/models/monotone_nn.py
index 5a8499c..33695e2 100644
--- a/irtorch/models/monotone_nn.py
+++ b/irtorch/models/monotone_nn.py
@@ -279,4 +279,4 @@ class MonotoneNN(BaseIRTModel):
         if hasattr(self, "negation_dim0"):
             return torch.stack([getattr(self, f"negation_dim{i}").all_item_weights().sign() for i in range(self.latent_variables)], dim=1).int()
         else:
-            return torch.ones(self.items, self.latent_variables, dtype=torch.int)
+            return self.item_theta_relationships.int()
diff --git a/irtorch/models/monotone_polynomial.py b/irtorch/models/monotone_polynomial.py
index bf7949b..a68efe9 100644
--- a/irtorch/models/monotone_polynomial.py
+++ b/irtorch/models/monotone_polynomial.py
@@ -135,4 +135,4 @@ class MonotonePolynomial(BaseIRTModel):
         """
         if self.negative_latent_variable_item_relationships:
             return (self._modules["mono_poly"].directions * self._modules["mono_poly"].directions_mask).transpose(0, 1).sign().int()
-        return torch.ones(self.items, self.latent_variables).int()
+        return self._modules["mono_poly"].relationship_matrix.reshape(self.latent_variables, self.items, -1)[:, :, 0].transpose(0, 1).int()
-- 
2.43.0


From b8242faa5b7d04fbc21b891333c3922a8deceb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 34/68] fix: variational and bounded encoders support batch
 normalization with several hidden layers

---
 irtorch/estimation_algorithms/encoders/bounded_encoder.py     | 2 +-
 irtorch/estimation_algorithms/encoders/variational_encoder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/estimation_algorithms/encoders/bounded_encoder.py b/irtorch/estimation_algorithms/encoders/bounded_encoder.py
index d4dea5f..015e5fc 100644
--- a/irtorch/estimation_algorithms/encoders/bounded_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/bounded_encoder.py
@@ -27,7 +27,7 @@ class BoundedEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # output layer
diff --git a/irtorch/estimation_algorithms/encoders/variational_encoder.py b/irtorch/estimation_algorithms/encoders/variational_encoder.py
index 132690e..0a27c95 100644
--- a/irtorch/estimation_algorithms/encoders/variational_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/variational_encoder.py
@@ -27,7 +27,7 @@ class VariationalEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # variational layers
-- 
2.43.0


From 877fc40fb65c703632f382d67a5f7f3eb40991cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:32 +0000
Subject: [PATCH 35/68] fix: JML no longer overwrites the caller's starting
 scores

---
 irtorch/estimation_algorithms/jml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index a5f0aa2..e30465c 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -84,7 +84,7 @@ class JML(BaseIRTAlgorithm):
             raise ValueError("start_thetas must contain the same number of latent variables as the model.")
 
         self.training_theta_scores = torch.nn.Parameter(
-            start_thetas.to(device)
+            start_thetas.detach().clone().to(device)
         )
 
         self.optimizer = torch.optim.Adam(
-- 
2.43.0


From 881d1daf4e8c99ea35cf945573880957dba2336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 36/68] fix: flow and link Jacobians work inside no_grad, as in
 encoder standard errors on a transformed scale

---
 irtorch/rescale/flow.py              | 1 +
 irtorch/rescale/link_common_items.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/irtorch/rescale/flow.py b/irtorch/rescale/flow.py
index 7e85ef2..3ab65df 100644
--- a/irtorch/rescale/flow.py
+++ b/irtorch/rescale/flow.py
@@ -210,6 +210,7 @@ class Flow(Scale):
         # destandardize
         return theta * self.theta_stds + self.theta_means
 
+    @torch.inference_mode(False)
     def jacobian(
         self,
         theta: torch.Tensor
diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 486aa4c..33badce 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -258,6 +258,7 @@ class LinkCommonItems(Scale):
         else:
             raise NotImplementedError("Inverse transformation is not yet implemented for monotonic neural networks.")
 
+    @torch.inference_mode(False)
     def jacobian(
         self,
         theta: torch.Tensor
-- 
2.43.0


From 1f77d6da06b3f985f0f0aa567773f5531741fe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 37/68] fix: edge extrapolation of interp handles ties at the
 smallest and largest point

---
 irtorch/latent_variable_functions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/irtorch/latent_variable_functions.py b/irtorch/latent_variable_functions.py
index 89248f6..f5b865b 100644
--- a/irtorch/latent_variable_functions.py
+++ b/irtorch/latent_variable_functions.py
@@ -49,9 +49,11 @@ def interp(x_new, x, y):
 
     # Handle extrapolation for x_new outside the range of x
     if (~mask).any():
-        # Compute the slopes at the edges for extrapolation
-        left_slope = (y[1] - y[0]) / (x[1] - x[0])
-        right_slope = (y[-1] - y[-2]) / (x[-1] - x[-2])
+        # Compute the slopes at the edges for extrapolation using the nearest point that is not tied with the edge
+        left = min(int((x == x[0]).sum()), x.shape[0] - 1)
+        right = min(int((x == x[-1]).sum()), x.shape[0] - 1) + 1
+        left_slope = (y[left] - y[0]) / (x[left] - x[0])
+        right_slope = (y[-1] - y[-right]) / (x[-1] - x[-right])
         y_new[~mask] = torch.where(
             x_new[~mask] < x[0],
             y[0] + left_slope * (x_new[~mask] - x[0]),
-- 
2.43.0


From e6bfee212871c407503aaba0005f2e2f5d8d7dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:02 +0000
Subject: [PATCH 38/68] fix: Gaussian mixture fitting survives collapsing and
 empty components

---
 irtorch/torch_modules/gaussian_mixture_model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/irtorch/torch_modules/gaussian_mixture_model.py b/irtorch/torch_modules/gaussian_mixture_model.py
index ed9cb23..f204342 100644
--- a/irtorch/torch_modules/gaussian_mixture_model.py
+++ b/irtorch/torch_modules/gaussian_mixture_model.py
@@ -101,13 +101,18 @@ class GaussianMixtureModel(torch.nn.Module):
         weights = torch.sum(responsibilities, dim=1) / data.size(0)
         
         weighted_sum = torch.matmul(responsibilities, data)
-        means = weighted_sum / torch.sum(responsibilities, dim=1, keepdim=True)
+        # empty components have no responsibilities to divide by
+        component_sizes = torch.sum(responsibilities, dim=1).clamp_min(torch.finfo(data.dtype).tiny)
+        means = weighted_sum / component_sizes.unsqueeze(1)
         
         covariances = torch.zeros_like(self.covariances)
+        # a small ridge and exact symmetry keep the covariances of collapsing components positive definite
+        ridge = 1e-5 * data.var(dim=0, unbiased=False).mean() * torch.eye(self.n_features, device=data.device)
         for i in range(self.n_components):
             diff = data - means[i]
             weighted_diff = diff * responsibilities[i, :, None]
-            covariances[i] = torch.matmul(weighted_diff.T, diff) / torch.sum(responsibilities[i])
+            covariance = torch.matmul(weighted_diff.T, diff) / component_sizes[i]
+            covariances[i] = (covariance + covariance.T) / 2 + ridge
 
         self.weights.data = weights
         self.means.data = means
-- 
2.43.0


From 0b628eb3a8418bdd8926d8c7cfb7e6ab07119873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:49 +0000
Subject: [PATCH 39/68] fix: cross validation supports non-numeric fit
 arguments

---
 irtorch/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index d1ef0e8..6c90a86 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -188,13 +188,13 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
                 
             results.append(result)
         
-        # Average results across folds, excluding non-numeric values
+        # Average the log-likelihood across folds, the parameters are the same in every fold
         avg_result = {}
         for k in results[0].keys():
-            if k == "algorithm":
-                avg_result[k] = results[0][k]  # Just take the first one
-            else:
+            if k == "log_likelihood":
                 avg_result[k] = sum(d[k] for d in results) / len(results)
+            else:
+                avg_result[k] = results[0][k]  # Just take the first one
         
         return avg_result
     except Exception as e:
-- 
2.43.0


From ae8540e3b0277c64433668340490708d59c93c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:39 +0000
Subject: [PATCH 40/68] fix: plot information of models with several latent
 variables on transformed scales

The transformed scores kept all latent variables, so the plot of one
variable failed and that of two used the wrong axes.
---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 66468d1..8fa58ad 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -730,7 +730,7 @@ class Plotter:
             logger.warning("A large grid of latent variable values is used for plotting. This may take a while. Consider lowering the steps argument.")
 
         if rescale and self.model.scale:
-            scores_to_plot = self.model.transform_theta(theta_grid)
+            scores_to_plot = self.model.transform_theta(theta_grid)[:, latent_indices]
         else:
             scores_to_plot = theta_grid[:, [var - 1 for var in latent_variables]]
             if scores_to_plot.dim() == 1:
-- 
2.43.0


From 530ca4ce1864af8d2ed978878476e183297487cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:53 +0000
Subject: [PATCH 41/68] fix: item probability plots hold other latent variables
 at their medians on the plotted scale

The medians of the untransformed training scores were used as values on
the transformed scale.
---
 irtorch/plotter.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 8fa58ad..f4a5477 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -586,15 +586,7 @@ class Plotter:
 
         latent_indices = [theta - 1 for theta in latent_variables]
 
-        mask = torch.ones(model_dim, dtype=bool)
-        mask[latent_indices] = 0
-        if fixed_thetas is None:
-            if hasattr(self.model.algorithm, "training_theta_scores") and self.model.algorithm.training_theta_scores is not None:
-                fixed_thetas = self.model.algorithm.training_theta_scores[:, mask].median(dim=0).values
-            else:
-                fixed_thetas = torch.zeros(model_dim)[mask]
-
-        elif len(fixed_thetas) is not model_dim - len(latent_variables):
+        if fixed_thetas is not None and len(fixed_thetas) != model_dim - len(latent_variables):
             raise TypeError("If specified, the number of fixed latent variables needs to be the same as the number of variables in the model not used for plotting.")
 
         theta_grid = self._get_theta_grid_for_plotting(latent_variables, theta_range, second_theta_range, steps, fixed_thetas, latent_indices, rescale)
-- 
2.43.0


From 8eb4d0fed9992c189164cff852da9220c324425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:53 +0000
Subject: [PATCH 42/68] fix: log-likelihood plots with missing responses and
 with two latent variables

Missing responses made the whole curve missing and the observed sum
score undefined, and plotting two latent variables failed.
---
 irtorch/plotter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index f4a5477..2a1a949 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -8,7 +8,7 @@ import plotly.graph_objects as go
 import plotly.express as px
 import plotly.io as pio
 from irtorch.estimation_algorithms import AE, VAE
-from irtorch._internal_utils import entropy
+from irtorch._internal_utils import entropy, sum_score
 
 if TYPE_CHECKING:
     from irtorch.models.base_irt_model import BaseIRTModel
@@ -380,7 +380,7 @@ class Plotter:
             item_mask[[item - 1 for item in items]] = 1
             log_likelihood = log_likelihood[:, item_mask]
 
-        log_likelihood = log_likelihood.sum(dim=1)
+        log_likelihood = log_likelihood.nansum(dim=1) # missing responses do not contribute
 
         if len(latent_variables) == 1:
             scores_to_plot.squeeze_()
@@ -406,17 +406,18 @@ class Plotter:
                 color = color or None
             )
             if expected_sum_score:
+                observed_sum_score = sum_score(data.view(1, -1), self.model.mc_correct).item()
                 fig.add_vline(
-                    x=data.sum().item(),
+                    x=observed_sum_score,
                     line_dash="dash",
                     line_color="gray",
                     opacity=0.7
                 )
                 fig.add_annotation(
-                    x=data.sum().item(),
+                    x=observed_sum_score,
                     y=1.0,
                     yref="paper",
-                    text=f"Observed sum score: {data.sum().item()}",
+                    text=f"Observed sum score: {observed_sum_score}",
                     showarrow=True,
                     arrowhead=1,
                     ax=0,
@@ -424,7 +425,7 @@ class Plotter:
                 )
             return fig
         if len(latent_variables) == 2:
-            grid_size = int(np.sqrt(log_likelihood.size()))
+            grid_size = int(np.sqrt(log_likelihood.numel()))
             return self._3d_surface_plot(
                 x = scores_to_plot[:, 0].reshape((grid_size, grid_size)),
                 y = scores_to_plot[:, 1].reshape((grid_size, grid_size)),
-- 
2.43.0


From 0561ba81986bc9f4c2710e279f6862f738ae8f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:36 +0000
Subject: [PATCH 43/68] fix: models fitted in parallel do not share the
 algorithm instance

With more than four models per core, several models were sent to a
process together and were given the same algorithm, mixing their
training data, histories and scores.
---
 irtorch/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 6c90a86..36da3a3 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -503,7 +503,8 @@ def fit_multiple_models_cpu(
         # Ensure each subprocess uses a single thread for PyTorch.
         torch.set_num_threads(1)
         with mp.Pool(cores_to_use) as pool:
-            trained_models = pool.starmap(_fit_model, [(model, train_data, kwargs) for model in models])
+            # one task per model: models sent together would share the algorithm instance
+            trained_models = pool.starmap(_fit_model, [(model, train_data, kwargs) for model in models], chunksize=1)
     finally:
         torch.set_num_threads(original_threads)
 
-- 
2.43.0


From fdbc27bfcd0d8bd2694a76a93336d9909813e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 44/68] fix: sum score probabilities do not reuse a density
 fitted for other data

---
 irtorch/evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 08eb40e..668e8a0 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1114,6 +1114,7 @@ class Evaluator:
         population_data: torch.Tensor,
         trapezoidal_segments: int,
     ):
+        stored_density = self.latent_density
         if population_data is not None or (
             (
                 latent_density_method != "qmvn"
@@ -1146,5 +1147,7 @@ class Evaluator:
 
         weights = self.latent_density.pdf(theta_scores)
         weights = weights / weights.sum()
+        # A density fitted here belongs to these theta scores and is not used for other populations or later fits
+        self.latent_density = stored_density
 
         return theta_scores, weights
\ No newline at end of file
-- 
2.43.0


From 81c9a71f547a217dfc01c159bd6e8454f75c8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 45/68] fix: likelihoods of responses with vanishing
 probability no longer make fitted parameters nan

---
 irtorch/models/graded_response.py          | 4 +++-
 irtorch/models/nested_logit.py             | 4 +++-
 irtorch/models/three_parameter_logistic.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/irtorch/models/graded_response.py b/irtorch/models/graded_response.py
index d0f71cb..0058da5 100644
--- a/irtorch/models/graded_response.py
+++ b/irtorch/models/graded_response.py
@@ -200,7 +200,9 @@ class GradedResponse(BaseIRTModel):
             respondents = data.size(0)
             data = data[~missing_mask]
 
-        ll = reshaped_probabilities[torch.arange(data.size(0)), data].log()
+        picked = reshaped_probabilities[torch.arange(data.size(0)), data]
+        # a probability that is not positive in floating point would give nan gradients
+        ll = picked.clamp(min=torch.finfo(picked.dtype).tiny).log()
         if loss_reduction == "sum":
             return ll.sum()
         elif loss_reduction == "none":
diff --git a/irtorch/models/nested_logit.py b/irtorch/models/nested_logit.py
index 9aaa334..fdae28e 100644
--- a/irtorch/models/nested_logit.py
+++ b/irtorch/models/nested_logit.py
@@ -309,7 +309,9 @@ class NestedLogit(BaseIRTModel):
             respondents = data.size(0)
             data = data[~missing_mask]
 
-        ll = reshaped_probabilities[torch.arange(data.size(0)), data].log()
+        picked = reshaped_probabilities[torch.arange(data.size(0)), data]
+        # a probability that is not positive in floating point would give nan gradients
+        ll = picked.clamp(min=torch.finfo(picked.dtype).tiny).log()
         if loss_reduction == "sum":
             return ll.sum()
         if loss_reduction == "none":
diff --git a/irtorch/models/three_parameter_logistic.py b/irtorch/models/three_parameter_logistic.py
index fdedbc4..7a1cd95 100644
--- a/irtorch/models/three_parameter_logistic.py
+++ b/irtorch/models/three_parameter_logistic.py
@@ -164,7 +164,9 @@ class ThreeParameterLogistic(BaseIRTModel):
             respondents = data.size(0)
             data = data[~missing_mask]
 
-        ll = reshaped_probabilities[torch.arange(data.size(0)), data].log()
+        picked = reshaped_probabilities[torch.arange(data.size(0)), data]
+        # a probability that is not positive in floating point would give nan gradients
+        ll = picked.clamp(min=torch.finfo(picked.dtype).tiny).log()
         if loss_reduction == "sum":
             return ll.sum()
         if loss_reduction == "none":
-- 
2.43.0


From 121a45548d611c0f4aef74a9d56c3a3719ce5956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 46/68] fix: SurprisalSpline gradients stay finite for large
 surprisals and vanishing probabilities

---
 irtorch/models/surprisal_spline.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/irtorch/models/surprisal_spline.py b/irtorch/models/surprisal_spline.py
index dd00eb5..ff76834 100644
--- a/irtorch/models/surprisal_spline.py
+++ b/irtorch/models/surprisal_spline.py
@@ -131,8 +131,8 @@ class SurprisalSpline(BaseIRTModel):
         surprisal = surp.sum(dim=0) # (batch, items, max(item_categories)-1)
 
         ones = torch.ones(*surprisal.shape[:-1], 1, device=theta.device)
-        a = torch.cat((ones, 1/surprisal.cumsum(dim=-1).exp()), dim=-1)
-        b = torch.cat((1-1/surprisal.exp(), ones), dim=-1)
+        a = torch.cat((ones, (-surprisal.cumsum(dim=-1)).exp()), dim=-1)
+        b = torch.cat((1 - (-surprisal).exp(), ones), dim=-1)
         probabilities = a*b
         return torch.flip(probabilities, dims=[-1])
 
@@ -188,7 +188,9 @@ class SurprisalSpline(BaseIRTModel):
             respondents = data.size(0)
             data = data[~missing_mask]
 
-        ll = reshaped_probabilities[torch.arange(data.size(0)), data].log()
+        picked = reshaped_probabilities[torch.arange(data.size(0)), data]
+        # a probability that is not positive in floating point would give nan gradients
+        ll = picked.clamp(min=torch.finfo(picked.dtype).tiny).log()
         if loss_reduction == "sum":
             return ll.sum()
         if loss_reduction == "none":
-- 
2.43.0


From 685b766865cf8d9759323d28efaec8a4990ef434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 47/68] fix: JML starting scores are finite when all sum scores
 are equal

---
 irtorch/estimation_algorithms/jml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index e30465c..c49cf1a 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -73,7 +73,9 @@ class JML(BaseIRTAlgorithm):
 
         if start_thetas is None:
             start_thetas = sum_score(train_data, model.mc_correct)
-            start_thetas = (start_thetas - start_thetas.mean()) / start_thetas.std()
+            start_thetas = start_thetas - start_thetas.mean()
+            if start_thetas.std() > 0: # all sum scores may be equal
+                start_thetas = start_thetas / start_thetas.std()
             start_thetas = start_thetas.detach().unsqueeze(1).repeat(1, model.latent_variables)
             if model.latent_variables > 1:
                 # add small noise to avoid all latent variables updating the same way
-- 
2.43.0


From 3e7ab6684a450adabd2953fa618e5d7ac607e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 48/68] fix: ML and MAP scoring uses a line search so that
 steep likelihoods do not diverge

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index aef741d..24f09ad 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -813,7 +813,7 @@ class BaseIRTModel(ABC, nn.Module):
             # Initial guess for the theta_scores are the outputs from the encoder
             optimized_theta_scores = initial_theta_scores.clone().detach().requires_grad_(True)
 
-            optimizer = torch.optim.LBFGS([optimized_theta_scores], lr = learning_rate)
+            optimizer = torch.optim.LBFGS([optimized_theta_scores], lr = learning_rate, line_search_fn = "strong_wolfe")
             loss_history = []
             tolerance = 1e-8
 
-- 
2.43.0


From 15e39d19220b0fcff8789da70fbcd3af7af2f984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 49/68] fix: training scores are used as starting values also
 for models with one logit block per item

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 24f09ad..71c6a96 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -667,7 +667,7 @@ class BaseIRTModel(ABC, nn.Module):
             init_data = data.repeat_interleave(training_thetas.shape[0], dim=0)
             missing_mask = missing_mask.repeat_interleave(training_thetas.shape[0], dim=0)
 
-            logits = logits.repeat(data.shape[0], 1)
+            logits = logits.repeat(data.shape[0], *[1] * (logits.dim() - 1))
             lls = item_log_likelihoods(self, init_data, logits, missing_mask).nansum(dim=1)
             lls = lls.view(data.shape[0], -1)
             best_theta_ind = lls.argmax(dim=1)
-- 
2.43.0


From 90b945bb48b8dc406ba087e4a7e65cf9b1195ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 50/68] fix: standardised group residuals use the number of
 respondents who answered the item

---
 irtorch/evaluator.py | 56 +++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 668e8a0..824eb71 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -240,26 +240,18 @@ class Evaluator:
         tuple[torch.Tensor, torch.Tensor]
             A tuple with torch tensors. The first one holds the residuals for each group and has dimensions (groups, items, item categories). The second one is a 1D tensor and holds the mid points of the groups.
         """
-        grouped_data_probabilties, grouped_model_probabilties, group_mid_points = \
-            self.latent_group_probabilities(
-                data=data,
-                theta=theta,
-                rescale=rescale,
-                latent_variable=latent_variable,
-                groups=groups,
-                theta_estimation=theta_estimation,
-                **kwargs
-            )
+        grouped_data, grouped_theta, group_mid_points = self._group_respondents(
+            data, theta, latent_variable, groups, theta_estimation, rescale, **kwargs
+        )
+        grouped_data_probabilties = self._grouped_data_probabilities(grouped_data)
+        grouped_model_probabilties = self._grouped_theta_probabilities(grouped_theta)
 
         raw_residuals = grouped_data_probabilties - grouped_model_probabilties
         if standardize:
-            # get number of people in each group
-            if data is None:
-                data = self.model.algorithm.train_data
-            data = torch.chunk(data, groups)
-            group_n = torch.tensor([group.shape[0] for group in data])
+            # get number of people in each group who responded to each item
+            group_n = torch.stack([(~get_missing_mask(group)).sum(dim=0) for group in grouped_data]).unsqueeze(-1)
 
-            std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n.reshape(-1, 1, 1)).sqrt()
+            std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n).sqrt()
             return std_residuals, group_mid_points
         
         for item, categories in enumerate(self.model.item_categories):
@@ -630,6 +622,32 @@ class Evaluator:
 
             The third tensor contains the average latent variable values within each group along the specified latent_variable.
         """
+        grouped_data, grouped_theta, group_mid_points = self._group_respondents(
+            data, theta, latent_variable, groups, theta_estimation, rescale, **kwargs
+        )
+        grouped_data_probabilties = self._grouped_data_probabilities(grouped_data)
+        grouped_model_probabilties = self._grouped_theta_probabilities(grouped_theta)
+        return grouped_data_probabilties, grouped_model_probabilties, group_mid_points
+
+    def _group_respondents(
+        self,
+        data: torch.Tensor,
+        theta: torch.Tensor,
+        latent_variable: int,
+        groups: int,
+        theta_estimation: str,
+        rescale: bool,
+        **kwargs
+    ) -> tuple[tuple[torch.Tensor, ...], tuple[torch.Tensor, ...], torch.Tensor]:
+        """
+        Sort the respondents by one latent variable and divide them into groups.
+        See :meth:`latent_group_probabilities` for the arguments.
+
+        Returns
+        -------
+        tuple[tuple[torch.Tensor, ...], tuple[torch.Tensor, ...], torch.Tensor]
+            The data and the theta scores of each group, and the group mid points.
+        """
         data, theta, _ = self._evaluate_data_theta_input(data=data, theta=theta, theta_estimation=theta_estimation, **kwargs)
 
         if rescale and self.model.scale:
@@ -660,11 +678,7 @@ class Evaluator:
             )
 
         data = data[indices]
-        grouped_data = torch.chunk(data, groups)
-        grouped_data_probabilties = self._grouped_data_probabilities(grouped_data)
-        grouped_model_probabilties = self._grouped_theta_probabilities(grouped_theta)
-        return grouped_data_probabilties, grouped_model_probabilties, group_mid_points
-
+        return torch.chunk(data, groups), grouped_theta, group_mid_points
 
     @torch.no_grad()
     def mutual_information_difference(
-- 
2.43.0


From ab210f4d00a5179552e1ae8c01fbc29baae2e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 51/68] fix: p-values of Q3 and mutual information differences
 account for missing responses

---
 irtorch/evaluator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 824eb71..769c964 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -770,10 +770,11 @@ class Evaluator:
         logger.info("Largest AMID is %.2f between %s and %s.", max_value, max_location[0], max_location[1])
 
         if sample_hypothesis_test:
+            missing_mask = get_missing_mask(data)
             sample_amids = torch.zeros(samples, *data_mutual_information.shape)
             for sample in range(samples):
                 dynamic_print(f"Computing AMID p-values by null distribution sampling. Sample: {sample+1}")
-                sample_data = self.model.sample_test_data(theta)
+                sample_data = self.model.sample_test_data(theta).masked_fill(missing_mask, -1)
                 sample_joint_entropies = joint_entropy_matrix(sample_data, log_base=log_base)
                 sample_entropies = sample_joint_entropies.diag()
                 sample_entropy_sums = sample_entropies.unsqueeze(dim=-1) + sample_entropies.unsqueeze(dim=0)
@@ -909,10 +910,11 @@ class Evaluator:
         logger.info("Largest Q3 is %.2f between %s and %s.", max_value, max_location[0], max_location[1])
 
         if sample_hypothesis_test:
+            missing_mask = get_missing_mask(data)
             sample_corr_matrices = torch.zeros(samples, *corr_matrix.shape)
             for sample in range(samples):
                 dynamic_print(f"Computing Q3 p-values by null distribution sampling. Sample: {sample+1}")
-                sample_data = self.model.sample_test_data(theta)
+                sample_data = self.model.sample_test_data(theta).masked_fill(missing_mask, -1)
                 sample_residuals = self.residuals(
                     sample_data,
                     theta = theta,
-- 
2.43.0


From 59ab3d2ec9405ca4eb89616a8ec635183bd60e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 52/68] fix: the EAP integration grid follows the spread of the
 prior

---
 irtorch/models/base_irt_model.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 71c6a96..f80d2e4 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -892,19 +892,19 @@ class BaseIRTModel(ABC, nn.Module):
             mean_centered_theta_scores = train_theta_scores - train_theta_scores.mean(dim=0)
             cov_matrix = mean_centered_theta_scores.T @ mean_centered_theta_scores / (train_theta_scores.shape[0] - 1)
         else:
-            grid_values = torch.linspace(-3, 3, grid_points).view(-1, 1)
-            grid_values = grid_values.expand(-1, self.latent_variables).contiguous()
+            if hasattr(self.algorithm, "covariance_matrix"):
+                cov_matrix = self.algorithm.covariance_matrix
+            else:
+                cov_matrix = torch.eye(self.latent_variables)
+
+            # Three prior standard deviations in each direction
+            grid_values = torch.linspace(-3, 3, grid_points).view(-1, 1) * cov_matrix.diag().sqrt()
             if self.latent_variables == 1:
                 theta_grid = grid_values
             else:
                 columns = [grid_values[:, i] for i in range(grid_values.size(1))]
                 theta_grid = torch.cartesian_prod(*columns)
 
-            if hasattr(self.algorithm, "covariance_matrix"):
-                cov_matrix = self.algorithm.covariance_matrix
-            else:
-                cov_matrix = torch.eye(self.latent_variables)
-
         # Create prior (multivariate normal distribution).
         means = torch.zeros(self.latent_variables)
         prior_density = MultivariateNormal(means, cov_matrix)
-- 
2.43.0


From c3991267cc7a64a06267fbff8a115ec25faa03b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 53/68] fix: the default integration of MML follows the latent
 covariance and uses normalised weights

---
 irtorch/estimation_algorithms/mml.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index 5b92c80..bf80d26 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -307,9 +307,11 @@ class MML(BaseIRTAlgorithm):
         else:
             latent_combos = latent_grid
 
-        normal_dist = MultivariateNormal(
+        standard_normal = MultivariateNormal(
             loc=torch.zeros(latent_variables),
-            covariance_matrix=self.covariance_matrix
+            covariance_matrix=torch.eye(latent_variables)
         )
-        weights = normal_dist.log_prob(latent_combos)
-        return latent_combos, weights
+        # The weights sum to one and the grid is spread out as the latent variables are
+        weights = standard_normal.log_prob(latent_combos).log_softmax(dim=0)
+        cholesky = torch.linalg.cholesky(self.covariance_matrix.to(latent_combos.dtype))
+        return latent_combos @ cholesky.T, weights
-- 
2.43.0


From 4bdb670893ec5c2df3e52f12c04f7b4dbb81ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 54/68] fix: JML in batches judges whole epochs instead of
 single batches

---
 irtorch/estimation_algorithms/jml.py | 53 +++++++++++++---------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index c49cf1a..01ca62c 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -154,40 +154,37 @@ class JML(BaseIRTAlgorithm):
         model.train()
 
         for epoch in range(max_epochs):
+            train_loss = 0.0
             for _, (batch, mask, _, idx) in enumerate(data_loader):
                 self.optimizer.zero_grad()
                 model_out = model(self.training_theta_scores[idx])
                 loss = -model.log_likelihood(batch, model_out, missing_mask=mask, loss_reduction="sum")
                 loss.backward()
                 self.optimizer.step()
-                
-                train_loss = loss.item()
-                self.training_history["train_loss"].append(loss.item())
-                
-                current_loss = train_loss
-                scheduler.step(train_loss)
-                dynamic_print(f"Epoch: {epoch}. Loss: {train_loss:.4f}")
-
-                if current_loss < best_loss:
-                    best_loss = current_loss
-                    best_epoch = epoch
-                    best_model_state = {
-                        "theta": copy.deepcopy(self.training_theta_scores.data),
-                        "state_dict": copy.deepcopy(model.state_dict()),
-                        "optimizer": copy.deepcopy(self.optimizer.state_dict()) 
-                    }
-
-                current_lr = [group["lr"] for group in self.optimizer.param_groups]
-                if current_lr != prev_lr:
-                    lr_update_count += 1
-                    if lr_update_count >= learning_rate_updates_before_stopping:
-                        break
-                    prev_lr = current_lr
-                    logger.info("Decreased learning rate to: %s", current_lr[0])
-
-
-            if lr_update_count >= learning_rate_updates_before_stopping:
-                break
+                train_loss += loss.item()
+
+            # Batches differ in respondents and size, only whole epochs are comparable
+            self.training_history["train_loss"].append(train_loss)
+            current_loss = train_loss
+            scheduler.step(train_loss)
+            dynamic_print(f"Epoch: {epoch}. Loss: {train_loss:.4f}")
+
+            if current_loss < best_loss:
+                best_loss = current_loss
+                best_epoch = epoch
+                best_model_state = {
+                    "theta": copy.deepcopy(self.training_theta_scores.data),
+                    "state_dict": copy.deepcopy(model.state_dict()),
+                    "optimizer": copy.deepcopy(self.optimizer.state_dict()) 
+                }
+
+            current_lr = [group["lr"] for group in self.optimizer.param_groups]
+            if current_lr != prev_lr:
+                lr_update_count += 1
+                if lr_update_count >= learning_rate_updates_before_stopping:
+                    break
+                prev_lr = current_lr
+                logger.info("Decreased learning rate to: %s", current_lr[0])
 
         # Load the best model state
         if best_model_state is not None:
-- 
2.43.0


From 8cb9076d284e8b10ecba5446ead8b4b88cf05ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 55/68] fix: ML standard errors of several latent variables
 invert the information matrix

---
 irtorch/models/base_irt_model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index f80d2e4..c099060 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -638,8 +638,12 @@ class BaseIRTModel(ABC, nn.Module):
                         jacobian = self.theta_transform_jacobian(theta_orig)
                         se = torch.sqrt(torch.einsum("...ij,...jk,...ik->...i", jacobian, var, jacobian))
                 else:
-                    fisher_info = self.information(theta, item=False, degrees=None, rescale=rescale)
-                    se = 1/torch.einsum("...ii->...i", fisher_info).sqrt()
+                    fisher_info = self.information(theta, item=False, degrees=None, rescale=rescale).double()
+                    # The inverse accounts for the uncertainty in the other latent variables
+                    undetermined = torch.einsum("...ii->...i", fisher_info) == 0
+                    inverse_info = torch.linalg.inv_ex(fisher_info + torch.diag_embed(undetermined.double())).inverse
+                    variances = torch.einsum("...ii->...i", inverse_info).masked_fill(undetermined, torch.inf)
+                    se = torch.where(variances < 0, torch.inf, variances).sqrt().to(theta.dtype)
                 return return_theta, se
             logger.warning("Standard errors are only implemented for theta scores with ML or NN estimation.")
 
-- 
2.43.0


From 1b2eef2dec239840490e30bae262f361eb3a1e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 56/68] fix: MAP scores of a model without fitted algorithm use
 a standard normal prior

---
 irtorch/models/base_irt_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index c099060..81d65b8 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -798,6 +798,8 @@ class BaseIRTModel(ABC, nn.Module):
                     prior_density = MultivariateNormal(torch.zeros(train_theta_scores.shape[1]).to(device), cov_matrix.to(device))
                 elif hasattr(self.algorithm, "covariance_matrix"):
                     prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), self.algorithm.covariance_matrix.to(device))
+                else: # as for EAP
+                    prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), torch.eye(self.latent_variables).to(device))
 
             # Ensure model parameters gradients are not updated
             trainable_parameters = [parameter for parameter in self.parameters() if parameter.requires_grad]
-- 
2.43.0


From fa1ba73004b658784ab47778cd16db991563053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 57/68] fix: plots over decreasing scales keep their last point

---
 irtorch/plotter.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 2a1a949..b3b090c 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -258,8 +258,8 @@ class Plotter:
             min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
             if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
                 start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                item_entropies = item_entropies[:start_idx]
+                scores_to_plot = scores_to_plot[:start_idx + 1]
+                item_entropies = item_entropies[:start_idx + 1]
             else:
                 start_idx = min_indices[-1].item()  # get the last index
                 scores_to_plot = scores_to_plot[start_idx:]
@@ -387,8 +387,8 @@ class Plotter:
             min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
             if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
                 start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                log_likelihood = log_likelihood.detach_().squeeze_()[:start_idx]
+                scores_to_plot = scores_to_plot[:start_idx + 1]
+                log_likelihood = log_likelihood.detach_().squeeze_()[:start_idx + 1]
             else:
                 start_idx = min_indices[-1].item()  # get the last index
                 scores_to_plot = scores_to_plot[start_idx:]
@@ -741,8 +741,8 @@ class Plotter:
             min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
             if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
                 start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                information = information.detach_().squeeze_()[:start_idx]
+                scores_to_plot = scores_to_plot[:start_idx + 1]
+                information = information.detach_().squeeze_()[:start_idx + 1]
             else:
                 start_idx = min_indices[-1].item()  # get the last index
                 scores_to_plot = scores_to_plot[start_idx:]
@@ -863,8 +863,8 @@ class Plotter:
             min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
             if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
                 start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                sum_scores = sum_scores[:start_idx]
+                scores_to_plot = scores_to_plot[:start_idx + 1]
+                sum_scores = sum_scores[:start_idx + 1]
             else:
                 start_idx = min_indices[-1].item()  # get the last index
                 scores_to_plot = scores_to_plot[start_idx:]
@@ -1051,8 +1051,8 @@ class Plotter:
         min_indices = (latent_scores == latent_scores.min()).nonzero().flatten()
         if min_indices[-1] == len(latent_scores) - 1:  # if we have reversed theta scale
             start_idx = min_indices[0].item()  # get the first index
-            latent_scores = latent_scores[:start_idx]
-            prob_matrix = prob_matrix[:start_idx, :]
+            latent_scores = latent_scores[:start_idx + 1]
+            prob_matrix = prob_matrix[:start_idx + 1, :]
         else:
             start_idx = min_indices[-1].item()  # get the last index
             latent_scores = latent_scores[start_idx:]
-- 
2.43.0


From eef369e3d56753129d4b3171bd4c6a4fd8742aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 58/68] fix: no mutual information or p-values for items never
 answered together

---
 irtorch/_internal_utils.py | 6 +++++-
 irtorch/evaluator.py       | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 403af1a..c7f1c27 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -300,6 +300,7 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
     int_data = data.int()
     max_combos = ((int_data.max() + 1) ** 2).item()
     proportions = torch.zeros(int_data.shape[1], int_data.shape[1], max_combos)
+    never_together = torch.zeros(int_data.shape[1], int_data.shape[1], dtype=torch.bool)
     for i in range(int_data.shape[1]):
         for j in range(int_data.shape[1]):
             if i > j:
@@ -313,8 +314,11 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
                     )
                     proportions[i, j, :unique_combinations.size(0)] = counts.float() / counts.sum()
                     proportions[j, i, :unique_combinations.size(0)] = proportions[i, j, :unique_combinations.size(0)]
+                else:
+                    proportions[i, j, 0] = proportions[j, i, 0] = 1.0
+                    never_together[i, j] = never_together[j, i] = True
 
-    return entropy(proportions, log_base)
+    return entropy(proportions, log_base).masked_fill(never_together, torch.nan)
 
 def is_jupyter():
     try:
diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 769c964..56b6704 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -787,6 +787,7 @@ class Evaluator:
             # if it is a relatively low amount of times, the p-value is low
             p_values = counts / sample_amids.shape[0]
             p_values.fill_diagonal_(torch.nan)
+            p_values[mid.isnan()] = torch.nan # items never observed together
 
             p_values_df = pd.DataFrame(p_values.detach().numpy())
             p_values_df.columns = [f"Item {i+1}" for i in range(p_values.shape[0])]
@@ -930,6 +931,8 @@ class Evaluator:
             # times 2 since we are interested in both tails
             p_values = torch.min(counts1, counts2).float() * 2 / sample_corr_matrices.shape[0]
             p_values.fill_diagonal_(torch.nan)
+            together = (~missing_mask).float().T @ (~missing_mask).float()
+            p_values[together < 2] = torch.nan # items never observed together
 
             p_values_df = pd.DataFrame(p_values.detach().numpy())
             p_values_df.columns = [f"Item {i+1}" for i in range(corr_matrix.shape[0])]
-- 
2.43.0


From d3c3e8bdedcf7ee6559bc3eb9a959a0d5b04b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 59/68] fix: an interrupted MML fit leaves no precomputed
 spline basis behind

---
 irtorch/estimation_algorithms/mml.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index bf80d26..7a31fbf 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -133,15 +133,20 @@ class MML(BaseIRTAlgorithm):
         )
 
         model.to(device)
-        self._training_loop(
-            model,
-            train_data.to(device),
-            max_epochs,
-            points.to(device, dtype = torch.float32),
-            log_weights.to(device, dtype = torch.float32),
-            scheduler,
-            learning_rate_updates_before_stopping
-        )
+        try:
+            self._training_loop(
+                model,
+                train_data.to(device),
+                max_epochs,
+                points.to(device, dtype = torch.float32),
+                log_weights.to(device, dtype = torch.float32),
+                scheduler,
+                learning_rate_updates_before_stopping
+            )
+        finally:
+            # remove basis functions for spline models after fitting, also when interrupted
+            if hasattr(model, "basis"):
+                model.basis = None
         
         model.to("cpu")
         model.eval()
@@ -225,10 +230,6 @@ class MML(BaseIRTAlgorithm):
 
             logger.debug("Current learning rate: %s", self.optimizer.param_groups[0]["lr"])
 
-        # remove basis functions for spline models after fitting
-        if isinstance(model, MonotoneBSpline) or isinstance(model, MonotoneBSpline) or (isinstance(model, NestedLogit) and model.incorrect_response_model == "bspline"):
-            model.basis = None
-
         # Load the best model state
         if best_model_state is not None:
             model.load_state_dict(best_model_state["state_dict"])
-- 
2.43.0


From 49d29b6ec20f2bc79d1713aa4330fcd7f8bf0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 60/68] fix: link tests whose largest items differ

---
 irtorch/rescale/link_common_items.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 33badce..d43f077 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -311,8 +311,10 @@ class LinkCommonItems(Scale):
         kl_loss = nn.KLDivLoss(reduction="batchmean")
         target_probs = self._model_from.item_probabilities(latent_variables)[:, self._model_from_common_item_indices]
         linked_probs = self._model_to.item_probabilities(linked_latent_variables)[:, self._model_to_common_item_indices]
-        target_probs = target_probs.view(-1, target_probs.shape[2])
-        linked_probs = linked_probs.view(-1, linked_probs.shape[2])
+        # The models may pad the categories differently, due to items which are not common.
+        categories = max(self._common_item_categories)
+        target_probs = target_probs[:, :, :categories].reshape(-1, categories)
+        linked_probs = linked_probs[:, :, :categories].reshape(-1, categories)
         # linked_probs need log scale for KL div
         # Adding a tiny constant to avoid issues with log(0).
         loss = kl_loss(torch.log(linked_probs + 1e-10), target_probs)
-- 
2.43.0


From bd0384253de1f384dc736a45c2e3fee166144073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:18 +0000
Subject: [PATCH 61/68] fix: a VAE's best state and stopping are judged after
 annealing

---
 irtorch/estimation_algorithms/ae.py  | 9 +++++++++
 irtorch/estimation_algorithms/vae.py | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/irtorch/estimation_algorithms/ae.py b/irtorch/estimation_algorithms/ae.py
index 704dd6e..bae5444 100644
--- a/irtorch/estimation_algorithms/ae.py
+++ b/irtorch/estimation_algorithms/ae.py
@@ -247,6 +247,9 @@ class AE(BaseIRTAlgorithm):
             if (self.total_iterations) % self.evaluation_interval_size == 0 and self.total_iterations != 1:
                 mean_loss = np.mean(self.batch_mean_losses)
                 self.training_history["train_loss"].append(mean_loss)
+                # Losses from before the annealing was completed are not comparable with those after it
+                if self.total_iterations - len(self.batch_mean_losses) < self._annealed_iterations():
+                    continue
                 self.scheduler.step(mean_loss)
 
                 # Check if the learning rate has been updated
@@ -269,6 +272,12 @@ class AE(BaseIRTAlgorithm):
         epoch_mean_loss /= len(self.data_loader)
         return epoch_mean_loss
 
+    def _annealed_iterations(self) -> int:
+        """
+        The number of iterations at the start of the training during which the loss function is annealed.
+        """
+        return 0
+
     def _train_batch(self, model: BaseIRTModel, input_batch: torch.Tensor, batch: torch.Tensor, missing_mask: torch.Tensor):
         """
         Train the model on a batch of data.
diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 7a9bd13..f452b61 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -166,6 +166,9 @@ class VAE(AE):
             train_data_irt.input_data.to("cpu")
         ).clone().detach()
 
+    def _annealed_iterations(self) -> int:
+        return self.annealing_iterations if self.anneal else 0
+
     def _train_batch(self, model: BaseIRTModel, input_batch: torch.Tensor, batch: torch.Tensor, missing_mask: torch.Tensor):
         """
         Train the model on a batch of data.
-- 
2.43.0


From 29c58442a68dff2fcee3bc7ca4c8e2b254124775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 62/68] fix: mixed models with responses stored as integers

---
 irtorch/models/model_mix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index ddd2915..812b60d 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -161,6 +161,7 @@ class ModelMix(BaseIRTModel):
             [model.items for model in self.models],
             dim=1
         )
+        data_splits = [data_split.contiguous() for data_split in data_splits]
         if missing_mask is None:
             mask_splits = [None] * len(self.models)
         else:
-- 
2.43.0


From e467c3fb40cdc1930311d592e34c6725c5dde197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 63/68] fix: joint maximum likelihood with responses stored as
 integers or doubles

---
 irtorch/estimation_algorithms/jml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index 01ca62c..d709c29 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -72,7 +72,7 @@ class JML(BaseIRTAlgorithm):
             batch_size = train_data.shape[0]
 
         if start_thetas is None:
-            start_thetas = sum_score(train_data, model.mc_correct)
+            start_thetas = sum_score(train_data, model.mc_correct).float()
             start_thetas = start_thetas - start_thetas.mean()
             if start_thetas.std() > 0: # all sum scores may be equal
                 start_thetas = start_thetas / start_thetas.std()
-- 
2.43.0


From d0b29a65fdcc545e54e0f7480aee1fdac16c43bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 64/68] fix: log-likelihood of responses stored column by
 column

---
 irtorch/models/base_irt_model.py           | 4 ++--
 irtorch/models/graded_response.py          | 4 ++--
 irtorch/models/nested_logit.py             | 4 ++--
 irtorch/models/surprisal_spline.py         | 4 ++--
 irtorch/models/three_parameter_logistic.py | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 81d65b8..6e77103 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -245,11 +245,11 @@ class BaseIRTModel(ABC, nn.Module):
             The log likelihood.
         """
         data = data.long()
-        data = data.view(-1)
+        data = data.reshape(-1)
         reshaped_output = output.reshape(-1, self.max_item_responses)
         # Remove missing values from log likelihood calculation
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_output = reshaped_output[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
diff --git a/irtorch/models/graded_response.py b/irtorch/models/graded_response.py
index 0058da5..0e2a5a9 100644
--- a/irtorch/models/graded_response.py
+++ b/irtorch/models/graded_response.py
@@ -191,11 +191,11 @@ class GradedResponse(BaseIRTModel):
             The log likelihood.
         """
         probabilities = self.probabilities_from_output(output)
-        data = data.long().view(-1)
+        data = data.long().reshape(-1)
         reshaped_probabilities = probabilities.reshape(-1, self.max_item_responses)
 
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_probabilities = reshaped_probabilities[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
diff --git a/irtorch/models/nested_logit.py b/irtorch/models/nested_logit.py
index fdae28e..fbc55a7 100644
--- a/irtorch/models/nested_logit.py
+++ b/irtorch/models/nested_logit.py
@@ -300,11 +300,11 @@ class NestedLogit(BaseIRTModel):
         torch.Tensor
             The log likelihood.
         """
-        data = data.long().view(-1)
+        data = data.long().reshape(-1)
         reshaped_probabilities = output.reshape(-1, self.max_item_responses)
 
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_probabilities = reshaped_probabilities[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
diff --git a/irtorch/models/surprisal_spline.py b/irtorch/models/surprisal_spline.py
index ff76834..386d090 100644
--- a/irtorch/models/surprisal_spline.py
+++ b/irtorch/models/surprisal_spline.py
@@ -179,11 +179,11 @@ class SurprisalSpline(BaseIRTModel):
         torch.Tensor
             The log likelihood.
         """
-        data = data.long().view(-1)
+        data = data.long().reshape(-1)
         reshaped_probabilities = output.reshape(-1, self.max_item_responses)
 
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_probabilities = reshaped_probabilities[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
diff --git a/irtorch/models/three_parameter_logistic.py b/irtorch/models/three_parameter_logistic.py
index 7a1cd95..9caff10 100644
--- a/irtorch/models/three_parameter_logistic.py
+++ b/irtorch/models/three_parameter_logistic.py
@@ -155,11 +155,11 @@ class ThreeParameterLogistic(BaseIRTModel):
             The log likelihood.
         """
         probabilities = self.probabilities_from_output(output)
-        data = data.long().view(-1)
+        data = data.long().reshape(-1)
         reshaped_probabilities = probabilities.reshape(-1, 2)
 
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_probabilities = reshaped_probabilities[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
-- 
2.43.0


From 00c6839339c52819c6eeb2edba4c43d9dc3a891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 65/68] fix: imputation of responses stored as integers or
 doubles

---
 irtorch/_internal_utils.py | 2 +-
 irtorch/utils.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index c7f1c27..6bc8b39 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -435,7 +435,7 @@ def impute_missing_internal(
     item_categories : list[int], optional
         Only for method='random_incorrect'. A list of integers where each integer is the number of possible responses for the corresponding item. If None, the number of possible responses is calculated from the data. (default is None)
     """
-    imputed_data = data.clone()
+    imputed_data = data.clone().float() # integers cannot hold nan
 
     if (imputed_data == -1).any():
         imputed_data[imputed_data == -1] = torch.nan
diff --git a/irtorch/utils.py b/irtorch/utils.py
index 36da3a3..7e65a31 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -322,7 +322,7 @@ def impute_missing(
     item_categories : list[int], optional
         Only for method='random_incorrect'. A list of integers where each integer is the number of possible responses for the corresponding item. If None, the number of possible responses is calculated from the data. (default is None)
     """
-    imputed_data = data.clone()
+    imputed_data = data.clone().float() # integers cannot hold nan
 
     if (imputed_data == -1).any():
         imputed_data[imputed_data == -1] = torch.nan
-- 
2.43.0


From 8548dcf86d91e1d74fc9c8d97a4298df5cf8ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:07 +0000
Subject: [PATCH 66/68] fix: outliers of scores stored as doubles

---
 irtorch/outlier_detector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/irtorch/outlier_detector.py b/irtorch/outlier_detector.py
index ef7357f..ae43221 100644
--- a/irtorch/outlier_detector.py
+++ b/irtorch/outlier_detector.py
@@ -59,7 +59,7 @@ class OutlierDetector:
             raise ValueError("At least one of upper and lower must be True")
 
         # Calculate quartiles and IQR for all columns
-        q1, q3 = torch.quantile(data, torch.tensor([0.25, 0.75]), dim=0, keepdim=True)
+        q1, q3 = torch.quantile(data, torch.tensor([0.25, 0.75], dtype=data.dtype), dim=0, keepdim=True)
         iqr = q3 - q1
 
         # Calculate lower and upper bounds
@@ -105,7 +105,7 @@ class OutlierDetector:
             raise ValueError("At least one of upper and lower must be True")
 
         # Calculate quartiles and IQR for all columns
-        q1, q3 = torch.quantile(data, torch.tensor([0.25, 0.75]), dim=0, keepdim=True)
+        q1, q3 = torch.quantile(data, torch.tensor([0.25, 0.75], dtype=data.dtype), dim=0, keepdim=True)
         iqr = q3 - q1
 
         # Calculate lower and upper bounds
@@ -145,7 +145,7 @@ class OutlierDetector:
             raise ValueError("Input data must be a 2D tensor")
 
         # Calculate quartiles and IQR for all columns, resulting in 1D tensors for q1, q3, and iqr
-        q1, q3 = torch.quantile(data, torch.tensor([0.25, 0.75]), dim=0, keepdim=True)
+        q1, q3 = torch.quantile(data, torch.tensor([0.25, 0.75], dtype=data.dtype), dim=0, keepdim=True)
         iqr = q3 - q1
 
         # Calculate lower and upper bounds
-- 
2.43.0


From fd1b70c6ffea46e2b82a9bd49e51d498d5c11185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:59 +0000
Subject: [PATCH 67/68] fix: mixes with models whose outputs have other shapes
 than items times categories

---
 irtorch/_internal_utils.py  | 10 +++++++---
 irtorch/models/model_mix.py | 25 ++++++++++++++-----------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 6bc8b39..5743e30 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -158,12 +158,16 @@ def item_log_likelihoods(
         A 2D tensor with the log-likelihoods. Columns are items and rows are respondents. Missing responses are nan.
     """
     log_likelihoods = model.log_likelihood(data, output, missing_mask=missing_mask, loss_reduction="none")
+    return _by_respondent(model, log_likelihoods, data.shape[0])
+
+def _by_respondent(model, log_likelihoods: torch.Tensor, respondents: int) -> torch.Tensor:
+    # rows are respondents and columns are items
     sub_models = getattr(model, "models", None)
     if not isinstance(sub_models, torch.nn.ModuleList):
-        return log_likelihoods.view(data.shape[0], -1)
+        return log_likelihoods.view(respondents, -1)
     # mixed models return the log-likelihoods for one sub-model at a time
-    log_likelihoods = log_likelihoods.split([data.shape[0] * sub_model.items for sub_model in sub_models])
-    return torch.cat([ll.view(data.shape[0], -1) for ll in log_likelihoods], dim=1)
+    log_likelihoods = log_likelihoods.split([respondents * sub_model.items for sub_model in sub_models])
+    return torch.cat([_by_respondent(m, ll, respondents) for m, ll in zip(sub_models, log_likelihoods)], dim=1)
 
 def conditional_score_distribution(
     probabilities: torch.Tensor,
diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index 812b60d..f34524f 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -43,6 +43,12 @@ class ModelMix(BaseIRTModel):
         )
         # register each model as a submodule
         self.models = nn.ModuleList(models)
+        # the models differ in the shape of their output for a respondent
+        with torch.no_grad():
+            self._output_shapes = [
+                model(torch.zeros(1, self.latent_variables, device=next(model.parameters()).device)).shape[1:]
+                for model in models
+            ]
 
     def reset_parameters(self) -> None:
         nn.init.normal_(self.weight_param, mean=1., std=0.01)
@@ -62,10 +68,15 @@ class ModelMix(BaseIRTModel):
         output : torch.Tensor
             2D tensor. Rows are respondents and columns are item category logits.
         """
-        outputs = [model(theta) for model in self.models]
+        outputs = [model(theta).reshape(theta.shape[0], -1) for model in self.models]
         concatenated_output = torch.cat(outputs, dim=1)
         return concatenated_output
 
+    def _split_output(self, output: torch.Tensor) -> list[torch.Tensor]:
+        # the part of the output from each model, in the shape the model returned it
+        outputs = torch.split(output, [shape.numel() for shape in self._output_shapes], dim=1)
+        return [part.reshape(-1, *shape) for part, shape in zip(outputs, self._output_shapes)]
+
     def probabilities_from_output(self, output: torch.Tensor) -> torch.Tensor:
         """
         Compute probabilities from the output tensor from the forward method.
@@ -80,11 +91,7 @@ class ModelMix(BaseIRTModel):
         torch.Tensor
             3D tensor with dimensions (respondents, items, item categories)
         """
-        outputs = torch.split(
-            output,
-            [model.max_item_responses * model.items for model in self.models],
-            dim=1
-        )
+        outputs = self._split_output(output)
         probabilities = [model.probabilities_from_output(output_part) for model, output_part in zip(self.models, outputs)]
         return self._pad_and_concat(probabilities, dim=1, pad_dim=2)
 
@@ -151,11 +158,7 @@ class ModelMix(BaseIRTModel):
             The log likelihood.
         """
         # run model.log_likelihood for each model
-        outputs = torch.split(
-            output,
-            [model.max_item_responses * model.items for model in self.models],
-            dim=1
-        )
+        outputs = self._split_output(output)
         data_splits = torch.split(
             data,
             [model.items for model in self.models],
-- 
2.43.0


From 2f5b94c4237aa1484af3f9cd6e1e7278a0cb6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 68/68] fix: standard errors only count the items a respondent
 answered

---
 irtorch/models/base_irt_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 6e77103..6962137 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -638,7 +638,10 @@ class BaseIRTModel(ABC, nn.Module):
                         jacobian = self.theta_transform_jacobian(theta_orig)
                         se = torch.sqrt(torch.einsum("...ij,...jk,...ik->...i", jacobian, var, jacobian))
                 else:
-                    fisher_info = self.information(theta, item=False, degrees=None, rescale=rescale).double()
+                    item_info = self.information(theta, item=True, degrees=None, rescale=rescale).double()
+                    # Items without a response say nothing about the respondent
+                    missing_mask = get_missing_mask(data)
+                    fisher_info = item_info.masked_fill(missing_mask[..., None, None], 0.0).nansum(dim=1)
                     # The inverse accounts for the uncertainty in the other latent variables
                     undetermined = torch.einsum("...ii->...i", fisher_info) == 0
                     inverse_info = torch.linalg.inv_ex(fisher_info + torch.diag_embed(undetermined.double())).inverse
-- 
2.43.0

