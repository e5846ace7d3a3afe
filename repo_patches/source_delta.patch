From c92690df137303235a9b971946e5f406c70448d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:23 +0000
Subject: [PATCH 01/63] fix: nuslerp indexes colinear vectors of tensors with
 leading unit dimensions

The colinearity mask was squeezed along every unit dimension, so tensors such
as (1, n, m) raised IndexError (or masked the wrong vectors) with
nuslerp_flatten disabled. Only the reduced dimension is dropped now.
---
 mergekit/merge_methods/nuslerp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/nuslerp.py b/mergekit/merge_methods/nuslerp.py
index efa0f7d..69d571e 100644
--- a/mergekit/merge_methods/nuslerp.py
+++ b/mergekit/merge_methods/nuslerp.py
@@ -154,7 +154,7 @@ def nuslerp(
     theta = torch.acos(cos_theta.clamp(-1, 1))
     sin_theta = torch.sin(theta)
 
-    colinear = (sin_theta.abs() < eps).squeeze()
+    colinear = (sin_theta.abs() < eps).squeeze(-1)
 
     res = (torch.sin((1 - t) * theta) * v0 + torch.sin(t * theta) * v1) / sin_theta
     # Use linear interpolation for (nearly) colinear vectors
-- 
2.43.0


From 22801ae823bfd05633c182d6b64b8efa7487c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:50 +0000
Subject: [PATCH 02/63] fix: breadcrumbs drops every parameter when gamma
 rounds to zero outliers

---
 mergekit/sparsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 13789e1..8e3140c 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -110,7 +110,7 @@ def magnitude_outliers(
     indices = torch.sort(w, descending=False).indices
     mask = torch.zeros_like(tensor)
 
-    mask.view(-1)[indices[n_bot:-n_top]] = 1
+    mask.view(-1)[indices[n_bot : num_elems - n_top]] = 1
 
     res = rescaled_masked_tensor(tensor, mask, rescale_norm)
     return res
-- 
2.43.0


From 3456e8c9c8ba2901a814ff2d84b26f1b9c7d6934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:50 +0000
Subject: [PATCH 03/63] fix: della fails on task vectors with single-element
 rows

---
 mergekit/sparsify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 8e3140c..cbfdac0 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -168,6 +168,9 @@ def della_magprune(
     min_ranks = ranks.min(dim=1, keepdim=True).values
     max_ranks = ranks.max(dim=1, keepdim=True).values
     rank_norm = ((ranks - min_ranks) / (max_ranks - min_ranks)).clamp(0, 1)
+    if ranks.shape[1] < 2:
+        # single-element rows have no rank ordering; keep at the mean probability
+        rank_norm = torch.full_like(ranks, 0.5)
     probs = (density - epsilon) + rank_norm * 2 * epsilon
     mask = torch.bernoulli(probs).to(work_dtype)
 
-- 
2.43.0


From 0253c5a4721eaa59eec693bce1d889cd1e104cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:24 +0000
Subject: [PATCH 04/63] fix: sce returns a wrongly shaped tensor when no
 element is selected

---
 mergekit/merge_methods/sce.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge_methods/sce.py b/mergekit/merge_methods/sce.py
index 477e118..9a8d5d1 100644
--- a/mergekit/merge_methods/sce.py
+++ b/mergekit/merge_methods/sce.py
@@ -56,15 +56,15 @@ def sce_mask(
     tvs: torch.Tensor, density: float, mask_dtype: Optional[torch.dtype] = None
 ):
     if density <= 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
     if density >= 1:
-        return torch.ones_like(tvs, dtype=mask_dtype)
+        return torch.ones_like(tvs[0], dtype=mask_dtype)
 
     var = torch.var(tvs, dim=0, unbiased=False)
     nonzero = torch.count_nonzero(var)
     k = int(nonzero * density)
     if k == 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
 
     _, indices = torch.topk(var.abs().view(-1), k=k, largest=True)
     mask = torch.zeros_like(var, dtype=mask_dtype)
-- 
2.43.0


From d9a9a474c00d880b7aa1faa967afe94b72a391f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:36 +0000
Subject: [PATCH 05/63] fix: karcher does not crop embeddings of different
 vocabulary sizes

---
 mergekit/merge_methods/karcher.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/karcher.py b/mergekit/merge_methods/karcher.py
index e15cc1c..95486ad 100644
--- a/mergekit/merge_methods/karcher.py
+++ b/mergekit/merge_methods/karcher.py
@@ -45,8 +45,7 @@ class KarcherTask(Task[torch.Tensor]):
         model_tensors = list(tensors.values())
 
         # Ensure all tensors have compatible shapes
-        for i in range(1, len(model_tensors)):
-            rectify_embed_sizes(self.weight_info, [model_tensors[0], model_tensors[i]])
+        rectify_embed_sizes(self.weight_info, model_tensors)
 
         # Calculate weights (equal by default)
         alphas = [1.0 / len(model_tensors)] * len(model_tensors)
-- 
2.43.0


From d2d3c1d6eac2e72388753b30e0524361643b0d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:36 +0000
Subject: [PATCH 06/63] fix: custom merge methods get tensors in arbitrary
 order and without the base model first

---
 mergekit/merge_methods/easy_define.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index a0bdcb8..a2a9614 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -110,10 +110,9 @@ def __merge_method(
 
     tt_fields = {}
     tt_fields["gather_tensors"] = (MergeTensorInput, Field(...))
-    if ("base_model" in used_kwargs) or use_base_tensor_arg:
-        bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
-        field_kwargs = {"default": None} if not require_base_tensor else {}
-        tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
+    bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
+    field_kwargs = {"default": None} if not require_base_tensor else {}
+    tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
     if "output_weight" in used_kwargs:
         tt_fields["output_weight"] = (WeightInfo, Field(...))
     if parameters:
@@ -140,14 +139,12 @@ def __merge_method(
     tt_fields["uses_accelerator"] = _uses_accelerator
 
     def _execute(self, tensors: Dict[ModelReference, torch.Tensor], **_kwargs):
-        model_refs = set(tensors.keys())
-        base_model = getattr(self, "base_model", None)
+        model_refs = list(tensors.keys())
+        base_model = self.base_model
         if base_model and base_model in model_refs:
             model_refs.remove(base_model)
             if not use_base_tensor_arg:
-                model_refs = [base_model] + list(model_refs)
-            else:
-                model_refs = list(model_refs)
+                model_refs = [base_model] + model_refs
         base_tensor = tensors.get(base_model, None)
         tensors = [tensors[key] for key in model_refs]
         inner_kwargs = {}
@@ -182,9 +179,7 @@ def __merge_method(
         base_model: Optional[ModelReference],
         **_kwargs,
     ) -> Task:
-        tt_kwargs = {"gather_tensors": tensors}
-        if "base_model" in tt_fields:
-            tt_kwargs["base_model"] = base_model
+        tt_kwargs = {"gather_tensors": tensors, "base_model": base_model}
         if "output_weight" in tt_fields:
             tt_kwargs["output_weight"] = output_weight
         if "parameters" in tt_fields:
-- 
2.43.0


From c5310454d098539b5725d4509a885e5e64d0f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 07/63] fix: output norm and head ignore models beyond the
 first slice's source count

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index dcf01fc..addc15f 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -323,7 +323,7 @@ class MergePlanner:
         for weight_info in module_arch.post_weights():
             self.plan_tensor(
                 weight_info,
-                [weight_info] * len(definition.slices[0].sources),
+                [weight_info] * len(definition.slices[-1].sources),
                 [s.model for s in definition.slices[-1].sources],
                 config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(
                     definition.slices[-1]
-- 
2.43.0


From 2a198afd117a2e5008717de98198d92f5307d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:01 +0000
Subject: [PATCH 08/63] fix: planning optional weights with aliases raises
 TypeError

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index addc15f..48a743b 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -169,7 +169,7 @@ class MergePlanner:
                 index = LoaderCache().get(model).index
                 if any(
                     name in index.tensor_paths
-                    for name in [w_in.name] + (w_in.aliases or [])
+                    for name in (w_in.name, *(w_in.aliases or ()))
                 ):
                     any_weight = True
                     break
-- 
2.43.0


From b0cd96510cf1a84cceb4e9796d88158a75ac344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 09/63] fix: a single conditional parameter (not in a list)
 raises RuntimeError

---
 mergekit/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/config.py b/mergekit/config.py
index 3114015..3e73e8e 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -26,6 +26,8 @@ ParameterSetting: TypeAlias = Union[
 def evaluate_setting(
     tensor_name: str, setting: ParameterSetting, t: float = 0
 ) -> Optional[float]:
+    if isinstance(setting, ConditionalParameter):
+        setting = [setting]
     if isinstance(setting, (float, int, bool, str)):
         return setting
     elif isinstance(setting, list):
-- 
2.43.0


From 4715969975981325569f5fcade040237b98b7992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:03 +0000
Subject: [PATCH 10/63] fix: order of referenced models (and so the config
 donor) depends on hashing

---
 mergekit/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mergekit/config.py b/mergekit/config.py
index 3e73e8e..28d97ec 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -101,25 +101,25 @@ class MergeConfiguration(BaseModel):
     parameters: Optional[Dict[str, ParameterSetting]] = None
 
     def referenced_models(self) -> List[ModelReference]:
-        models = set()
+        models = {}  # insertion-ordered
         if self.base_model:
-            models.add(self.base_model)
+            models[self.base_model] = None
         if self.models:
             for model_in in self.models:
-                models.add(model_in.model)
+                models[model_in.model] = None
         if self.slices:
             for s in self.slices:
                 for src in s.sources:
-                    models.add(src.model)
+                    models[src.model] = None
         if self.modules:
             for m in self.modules.values():
                 if m.models:
                     for model_in in m.models:
-                        models.add(model_in.model)
+                        models[model_in.model] = None
                 if m.slices:
                     for s in m.slices:
                         for src in s.sources:
-                            models.add(src.model)
+                            models[src.model] = None
         return list(models)
 
     @model_validator(mode="after")
-- 
2.43.0


From 533208dea63d7e88827ac7c7987e1c9a63f70141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:01 +0000
Subject: [PATCH 11/63] fix: --write-threads is ignored (wrong field name in
 the planner)

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index 48a743b..edc3173 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -339,7 +339,7 @@ class MergePlanner:
             max_shard_size=self.options.out_shard_size,
             safe_serialization=self.options.safe_serialization,
             use_async=self.options.async_write,
-            max_write_threads=self.options.write_threads,
+            write_threads=self.options.write_threads,
         )
         save_tasks = []
         for weight, tensor_task in self._tensors:
-- 
2.43.0


From 2886f5a1073f206c947c59639bea495a8d79fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:01 +0000
Subject: [PATCH 12/63] fix: merging Olmo2 models drops the query and key norms

---
 mergekit/_data/architectures/olmo2.json | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/_data/architectures/olmo2.json b/mergekit/_data/architectures/olmo2.json
index 1360496..75e8223 100644
--- a/mergekit/_data/architectures/olmo2.json
+++ b/mergekit/_data/architectures/olmo2.json
@@ -24,6 +24,12 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
-- 
2.43.0


From 41eb0ac10b6cf53b0972cfd1c6597c0a3f09ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:01 +0000
Subject: [PATCH 13/63] fix: merging BertForMaskedLM models drops the
 prediction head transform

---
 .../_data/architectures/bert-masked-lm.json   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/mergekit/_data/architectures/bert-masked-lm.json b/mergekit/_data/architectures/bert-masked-lm.json
index d6430e4..84d8c5d 100644
--- a/mergekit/_data/architectures/bert-masked-lm.json
+++ b/mergekit/_data/architectures/bert-masked-lm.json
@@ -34,10 +34,30 @@
     ],
     "post_weights": [
         {
-            "name": "bert.pooler.dense.weight"
+            "name": "bert.pooler.dense.weight",
+            "optional": true
         },
         {
-            "name": "bert.pooler.dense.bias"
+            "name": "bert.pooler.dense.bias",
+            "optional": true
+        },
+        {
+            "name": "cls.predictions.transform.dense.weight"
+        },
+        {
+            "name": "cls.predictions.transform.dense.bias"
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.weight",
+            "aliases": [
+                "cls.predictions.transform.LayerNorm.gamma"
+            ]
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.bias",
+            "aliases": [
+                "cls.predictions.transform.LayerNorm.beta"
+            ]
         },
         {
             "name": "cls.predictions.bias"
-- 
2.43.0


From 65c1c499ede4c42f53c9c6c75c99c24876ecaa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:01 +0000
Subject: [PATCH 14/63] fix: Whisper decoder weight names lack the separator
 after the prefix

---
 mergekit/_data/architectures/whisper.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/whisper.json b/mergekit/_data/architectures/whisper.json
index 82ac444..fdb8cd7 100644
--- a/mergekit/_data/architectures/whisper.json
+++ b/mergekit/_data/architectures/whisper.json
@@ -10,7 +10,7 @@
     ],
     "modules": {
         "decoder": {
-            "weight_prefix": "model.decoder",
+            "weight_prefix": "model.decoder.",
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-- 
2.43.0


From f7d5966f9b2b522776f3e85dd4bb04249486054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:01 +0000
Subject: [PATCH 15/63] fix: word embeddings of GPT2 and Roberta classifiers
 are not treated as embeddings

---
 mergekit/_data/architectures/gpt2-sequence-classification.json | 3 ++-
 .../_data/architectures/roberta-sequence-classification.json   | 3 ++-
 mergekit/_data/architectures/roberta-token-classification.json | 3 ++-
 mergekit/_data/architectures/roberta.json                      | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mergekit/_data/architectures/gpt2-sequence-classification.json b/mergekit/_data/architectures/gpt2-sequence-classification.json
index 54cf31f..2919e47 100644
--- a/mergekit/_data/architectures/gpt2-sequence-classification.json
+++ b/mergekit/_data/architectures/gpt2-sequence-classification.json
@@ -5,7 +5,8 @@
     ],
     "pre_weights": [
         {
-            "name": "transformer.wte.weight"
+            "name": "transformer.wte.weight",
+            "is_embed": true
         },
         {
             "name": "transformer.wpe.weight"
diff --git a/mergekit/_data/architectures/roberta-sequence-classification.json b/mergekit/_data/architectures/roberta-sequence-classification.json
index 6e137e6..8d1f47e 100644
--- a/mergekit/_data/architectures/roberta-sequence-classification.json
+++ b/mergekit/_data/architectures/roberta-sequence-classification.json
@@ -8,7 +8,8 @@
             "name": "roberta.embeddings.position_embeddings.weight"
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "roberta.embeddings.word_embeddings.weight",
+            "is_embed": true
         },
         {
             "name": "roberta.embeddings.token_type_embeddings.weight"
diff --git a/mergekit/_data/architectures/roberta-token-classification.json b/mergekit/_data/architectures/roberta-token-classification.json
index 2b9cae9..1927836 100644
--- a/mergekit/_data/architectures/roberta-token-classification.json
+++ b/mergekit/_data/architectures/roberta-token-classification.json
@@ -8,7 +8,8 @@
             "name": "roberta.embeddings.position_embeddings.weight"
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "roberta.embeddings.word_embeddings.weight",
+            "is_embed": true
         },
         {
             "name": "roberta.embeddings.token_type_embeddings.weight"
diff --git a/mergekit/_data/architectures/roberta.json b/mergekit/_data/architectures/roberta.json
index cab186c..cc63883 100644
--- a/mergekit/_data/architectures/roberta.json
+++ b/mergekit/_data/architectures/roberta.json
@@ -8,7 +8,8 @@
             "name": "roberta.embeddings.position_embeddings.weight"
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "roberta.embeddings.word_embeddings.weight",
+            "is_embed": true
         },
         {
             "name": "roberta.embeddings.token_type_embeddings.weight"
-- 
2.43.0


From 5244af12acacd128d7048daf6f0c6ebb0d818cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:01 +0000
Subject: [PATCH 16/63] fix: norms and vision weights are treated as token
 embeddings

---
 mergekit/_data/architectures/lfm2.json           | 3 +--
 mergekit/_data/architectures/qwen2_5_vl.json     | 3 +--
 mergekit/_data/architectures/qwen2_vl.json       | 3 +--
 mergekit/_data/architectures/qwen3_vl.json       | 6 ++----
 mergekit/_data/architectures/qwen3_vl_dense.json | 6 ++----
 5 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/mergekit/_data/architectures/lfm2.json b/mergekit/_data/architectures/lfm2.json
index d383d93..0d002bc 100644
--- a/mergekit/_data/architectures/lfm2.json
+++ b/mergekit/_data/architectures/lfm2.json
@@ -9,8 +9,7 @@
             "is_embed": true
         },
         {
-            "name": "model.embedding_norm.weight",
-            "is_embed": true
+            "name": "model.embedding_norm.weight"
         }
 
     ],
diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index cd3258b..56ff56f 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -117,8 +117,7 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "visual.patch_embed.proj.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 7e5ee74..829a098 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -120,8 +120,7 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "visual.patch_embed.proj.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen3_vl.json b/mergekit/_data/architectures/qwen3_vl.json
index a257dbf..3258291 100644
--- a/mergekit/_data/architectures/qwen3_vl.json
+++ b/mergekit/_data/architectures/qwen3_vl.json
@@ -135,15 +135,13 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "model.visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "model.visual.patch_embed.proj.weight"
                     },
                     {
                         "name": "model.visual.patch_embed.proj.bias"
                     },
                     {
-                        "name": "model.visual.pos_embed.weight",
-                        "is_embed": true
+                        "name": "model.visual.pos_embed.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen3_vl_dense.json b/mergekit/_data/architectures/qwen3_vl_dense.json
index 4e46477..596da95 100644
--- a/mergekit/_data/architectures/qwen3_vl_dense.json
+++ b/mergekit/_data/architectures/qwen3_vl_dense.json
@@ -134,15 +134,13 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "model.visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "model.visual.patch_embed.proj.weight"
                     },
                     {
                         "name": "model.visual.patch_embed.proj.bias"
                     },
                     {
-                        "name": "model.visual.pos_embed.weight",
-                        "is_embed": true
+                        "name": "model.visual.pos_embed.weight"
                     }
                 ],
                 "post_weights": [],
-- 
2.43.0


From b0e2fc597075727b5f90d5ca4f9bcab3ae00ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:01 +0000
Subject: [PATCH 17/63] fix: GPT-NeoX and Cohere models without buffers or
 query/key norms cannot be merged

---
 mergekit/_data/architectures/cohere.json   | 6 ++++--
 mergekit/_data/architectures/gpt-neox.json | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/mergekit/_data/architectures/cohere.json b/mergekit/_data/architectures/cohere.json
index 7b36cab..d69dfd2 100644
--- a/mergekit/_data/architectures/cohere.json
+++ b/mergekit/_data/architectures/cohere.json
@@ -35,13 +35,15 @@
                 "name": "model.layers.${layer_index}.mlp.up_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
diff --git a/mergekit/_data/architectures/gpt-neox.json b/mergekit/_data/architectures/gpt-neox.json
index e8bf29a..ea61721 100644
--- a/mergekit/_data/architectures/gpt-neox.json
+++ b/mergekit/_data/architectures/gpt-neox.json
@@ -61,13 +61,16 @@
                 "name": "gpt_neox.layers.${layer_index}.post_attention_layernorm.bias"
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.bias",
+                "optional": true
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.masked_bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.masked_bias",
+                "optional": true
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.rotary_emb.inv_freq"
+                "name": "gpt_neox.layers.${layer_index}.attention.rotary_emb.inv_freq",
+                "optional": true
             }
         ]
     }
-- 
2.43.0


From 54d3b668aa7895d8d35377e236e8dd2b1fe63833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:38 +0000
Subject: [PATCH 18/63] fix: architecture inference raises TypeError when tied
 weights are not known

---
 mergekit/architecture/auto.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 019e20a..5c1b049 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -173,6 +173,8 @@ def infer_architecture_info(
     ignore_on_save, tied_keys, embed_names, transformer_tensor_names = (
         get_transformers_info(base_model, options)
     )
+    tied_keys = tied_keys or ()
+    embed_names = embed_names or set()
     if transformer_tensor_names:
         all_tensor_names = set(transformer_tensor_names)
         model_types = {
@@ -245,9 +247,8 @@ def infer_architecture_info(
             model_types,
             use_transformers_layout=bool(transformer_tensor_names),
         )
-        optional = (not present_in_all) or (
-            tied_keys is not None
-            and any(re.search(pat, full_name) for pat in tied_keys)
+        optional = (not present_in_all) or any(
+            re.search(pat, full_name) for pat in tied_keys
         )
         is_embed = (full_name in embed_names) or any(
             re.search(pat, full_name) for pat in tied_keys
-- 
2.43.0


From af104f3ea58a98d21e4450888d7a574cddc98f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:25 +0000
Subject: [PATCH 19/63] fix: merging Mamba models with use_bias drops the
 projection biases

---
 mergekit/_data/architectures/mamba.json | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mergekit/_data/architectures/mamba.json b/mergekit/_data/architectures/mamba.json
index 1c47353..71e89a7 100644
--- a/mergekit/_data/architectures/mamba.json
+++ b/mergekit/_data/architectures/mamba.json
@@ -46,9 +46,17 @@
             {
                 "name": "backbone.layers.${layer_index}.mixer.in_proj.weight"
             },
+            {
+                "name": "backbone.layers.${layer_index}.mixer.in_proj.bias",
+                "optional": true
+            },
             {
                 "name": "backbone.layers.${layer_index}.mixer.out_proj.weight"
             },
+            {
+                "name": "backbone.layers.${layer_index}.mixer.out_proj.bias",
+                "optional": true
+            },
             {
                 "name": "backbone.layers.${layer_index}.mixer.x_proj.weight"
             },
-- 
2.43.0


From bd161dc4e4a51fc77e917eace1e0a4050d952c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:42 +0000
Subject: [PATCH 20/63] fix: stacking layers of models with per-layer types
 fails to write the config

---
 mergekit/merge.py | 51 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 5c3a7ea..75d1b41 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -15,8 +15,8 @@ import transformers
 from mergekit._data import chat_templates
 from mergekit.architecture import ModelArchitecture, get_architecture_info
 from mergekit.card import generate_card
-from mergekit.common import ModelReference, set_config_value
-from mergekit.config import MergeConfiguration
+from mergekit.common import ModelReference, get_config_value, set_config_value
+from mergekit.config import MergeConfiguration, OutputSliceDefinition
 from mergekit.graph import Executor
 from mergekit.io.tasks import LoaderCache
 from mergekit.multigpu_executor import MultiGPUExecutor
@@ -295,23 +295,21 @@ def _model_out_config(
         res.torch_dtype = config.dtype
 
     module_layers = {}
+    module_slices = {}
     for module_name in arch_info.modules:
         if config.modules and module_name in config.modules:
             module_def = config.modules.get(module_name)
             if module_def and module_def.slices:
-                module_layers[module_name] = sum(
-                    [
-                        s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
-                        for s in module_def.slices
-                    ]
-                )
+                module_slices[module_name] = module_def.slices
         elif config.slices:
-            module_layers[module_name] = sum(
-                [
-                    s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
-                    for s in config.slices
-                ]
-            )
+            module_slices[module_name] = config.slices
+    for module_name, slices in module_slices.items():
+        module_layers[module_name] = sum(
+            [
+                s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
+                for s in slices
+            ]
+        )
 
     if module_layers:
         for module_name in module_layers:
@@ -331,6 +329,9 @@ def _model_out_config(
                 continue
             try:
                 set_config_value(res, cfg_key, module_layers[module_name])
+                _set_layer_types(
+                    res, cfg_key, module_slices[module_name], trust_remote_code
+                )
             except Exception as e:
                 LOG.warning(
                     f"Unable to set number of layers for module {module_name} in output config "
@@ -341,6 +342,28 @@ def _model_out_config(
     return res
 
 
+def _set_layer_types(
+    config: transformers.PretrainedConfig,
+    num_layers_key: str,
+    slices: List[OutputSliceDefinition],
+    trust_remote_code: bool = False,
+):
+    """Stack the per-layer types of the sliced models like the layers themselves."""
+    types_key = ".".join(num_layers_key.split(".")[:-1] + ["layer_types"])
+    layer_types = []
+    for s in slices:
+        source = s.sources[0]
+        source_cfg = source.model.config(trust_remote_code=trust_remote_code)
+        try:
+            source_types = get_config_value(source_cfg, types_key)
+        except RuntimeError:
+            return
+        if not isinstance(source_types, (list, tuple)):
+            return
+        layer_types.extend(source_types[slice(*source.layer_range)])
+    set_config_value(config, types_key, layer_types)
+
+
 def _update_config_vocab(
     config: transformers.PretrainedConfig,
     arch_info: ModelArchitecture,
-- 
2.43.0


From b1c88a35f717c6f069d14767623883eaa2899ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:52 +0000
Subject: [PATCH 21/63] fix: arcee_fusion stores half precision models as
 float32

---
 mergekit/merge_methods/arcee_fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/arcee_fusion.py b/mergekit/merge_methods/arcee_fusion.py
index fb355d9..67c6928 100644
--- a/mergekit/merge_methods/arcee_fusion.py
+++ b/mergekit/merge_methods/arcee_fusion.py
@@ -53,7 +53,7 @@ class DynamicThresholdFusion:
 
     def compute_fusion_mask(self, importance_scores):
         threshold = self.calculate_dynamic_threshold(importance_scores)
-        fusion_mask = (importance_scores >= threshold).float()
+        fusion_mask = (importance_scores >= threshold).to(importance_scores.dtype)
         return fusion_mask, threshold
 
 
-- 
2.43.0


From 5b8750df32d524b766d15b0b65b73d2ca168d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:44 +0000
Subject: [PATCH 22/63] fix: MultiGPUExecutor drops results still queued when
 the workers finish

---
 mergekit/multigpu_executor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/multigpu_executor.py b/mergekit/multigpu_executor.py
index 64e2bfa..aa40122 100644
--- a/mergekit/multigpu_executor.py
+++ b/mergekit/multigpu_executor.py
@@ -151,7 +151,10 @@ class MultiGPUExecutor:
             results_snapshot = dict(self.results)
 
             def update_progress():
-                while not self.done_event.is_set():
+                # drain the queue before leaving: workers may finish with results pending
+                while not (
+                    self.done_event.is_set() and self.task_completion_queue.empty()
+                ):
                     try:
                         task_idx, result = self.task_completion_queue.get(timeout=0.1)
                         task_handle = TaskHandle(self.universe, task_idx)
-- 
2.43.0


From 186f2ee41d8d1360b3b99a17cab4e19fe9747e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:53 +0000
Subject: [PATCH 23/63] fix: mergekit-extract-lora ignores --write-threads

---
 mergekit/scripts/extract_lora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 0b32233..a40460d 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -366,7 +366,7 @@ def plan_extraction(
         max_shard_size=-1,
         safe_serialization=options.safe_serialization,
         use_async=options.async_write,
-        max_write_threads=options.write_threads,
+        write_threads=options.write_threads,
     )
 
     name_to_wi = all_weights_map(model_ref, options)
-- 
2.43.0


From 0db4d06a70d98554e118ae6e4b237916b799d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:27 +0000
Subject: [PATCH 24/63] fix: tensors of checkpoints with a nested state_dict
 cannot be read

---
 mergekit/io/loader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mergekit/io/loader.py b/mergekit/io/loader.py
index 3f8bff4..ba5ceb9 100644
--- a/mergekit/io/loader.py
+++ b/mergekit/io/loader.py
@@ -53,6 +53,8 @@ class LazyPickleLoader(TensorLoader):
         self.device = device
         with torch_lazy_load():
             self.index = torch.load(path, pickle_module=LazyUnpickleModule)
+        if "state_dict" in self.index:
+            self.index = self.index["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         if key not in self.index:
@@ -71,6 +73,8 @@ class DumbPytorchLoader(TensorLoader):
 
     def __init__(self, path: str, device: Optional[str] = None):
         self.tensors = torch.load(path, map_location=device, weights_only=True)
+        if "state_dict" in self.tensors:
+            self.tensors = self.tensors["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         return self.tensors[key]
-- 
2.43.0


From 0b7640bb9fae92b432af4c080be3554c9a54cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:53 +0000
Subject: [PATCH 25/63] fix: lazy unpickling corrupts strided tensors and fails
 on scalar and bool ones

---
 mergekit/io/lazy_unpickle.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index be26d86..b7e4a5b 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -4,11 +4,9 @@
 import codecs
 import collections
 import contextlib
-import operator
 import os
 import pickle
 import zipfile
-from functools import reduce
 from typing import Any, Optional, Tuple, Union
 
 import accelerate
@@ -71,8 +69,11 @@ class DeferredLoad(BaseModel, arbitrary_types_allowed=True):
         reader: "TorchArchiveReader",
         map_location: Any = None,
     ) -> torch.Tensor:
-        total_params = reduce(operator.mul, self.shape)
-        total_bytes = total_params * dtype_bytes(self.dtype)
+        # number of storage elements spanned, including gaps between strided elements
+        span = 1 + sum((n - 1) * st for n, st in zip(self.shape, self.stride))
+        if 0 in self.shape:
+            span = 0
+        total_bytes = span * dtype_bytes(self.dtype)
 
         f = reader.open_file(file_name=self.name, offset=self.file_offset)
         storage = torch.UntypedStorage.from_buffer(
@@ -180,11 +181,7 @@ def torch_lazy_load():
 
 def dtype_bytes(dtype: torch.dtype) -> int:
     """Return the number of bytes used to store a single instance of `dtype`."""
-    if dtype.is_floating_point:
-        ti = torch.finfo(dtype)
-    else:
-        ti = torch.iinfo(dtype)
-    return max(1, ti.bits // 8)
+    return dtype.itemsize
 
 
 def get_dtype(storage_type: Any):
-- 
2.43.0


From 50b3f88017a852d691738557cc2ac630dbcb8b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 26/63] fix: model_stock and nuslerp fail on embeddings cropped
 in the hidden dimension

---
 mergekit/merge_methods/model_stock.py | 4 ++--
 mergekit/merge_methods/nuslerp.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge_methods/model_stock.py b/mergekit/merge_methods/model_stock.py
index 3498579..98e235c 100644
--- a/mergekit/merge_methods/model_stock.py
+++ b/mergekit/merge_methods/model_stock.py
@@ -53,8 +53,8 @@ class ModelStockMergeTask(Task[torch.Tensor]):
                 w_0 = w_0.unsqueeze(0)
                 ws = [w.unsqueeze(0) for w in ws]
         else:
-            w_0 = w_0.view(-1)
-            ws = [w.view(-1) for w in ws]
+            w_0 = w_0.reshape(-1)
+            ws = [w.reshape(-1) for w in ws]
 
         offsets = [w - w_0 for w in ws]
 
diff --git a/mergekit/merge_methods/nuslerp.py b/mergekit/merge_methods/nuslerp.py
index 69d571e..b58333d 100644
--- a/mergekit/merge_methods/nuslerp.py
+++ b/mergekit/merge_methods/nuslerp.py
@@ -141,8 +141,8 @@ def nuslerp(
         return x / torch.norm(x, dim=-1, keepdim=True).clamp(min=eps)
 
     if flatten:
-        v0 = v0.view(-1)
-        v1 = v1.view(-1)
+        v0 = v0.reshape(-1)
+        v1 = v1.reshape(-1)
     elif dim != -1:
         v0 = v0.transpose(dim, -1)
         v1 = v1.transpose(dim, -1)
-- 
2.43.0


From 811ea39cb2d9455bd3aaf03deec54d37266e10e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:29 +0000
Subject: [PATCH 27/63] fix: tokens beyond a model's vocab_size are missing
 from its permutation

---
 mergekit/tokenizer/build.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 91a0c61..988b12e 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -262,6 +262,7 @@ def build_tokenizer(
                 LOG.warning(
                     f"{model} token {repr(tok)} has index {orig_idx}>{vocab_size - 1} (padding?)"
                 )
+                p[new_idx] = -1
                 continue
 
             p[new_idx] = orig_idx
-- 
2.43.0


From 2d76206095d239c8ac84bb97c8b56d58b611daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:29 +0000
Subject: [PATCH 28/63] fix: tokens added to the base tokenizer count as the
 base model's own

---
 mergekit/tokenizer/build.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 988b12e..9575ea1 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -231,6 +231,9 @@ def build_tokenizer(
     else:
         raise RuntimeError(f"Unimplemented tokenizer source: {tokenizer_source}")
 
+    # take these before adding tokens, as tokenizer_out may be one of the inputs
+    original_vocabs = {model: tok.get_vocab() for model, tok in tokenizers.items()}
+
     for tok in add_tokens:
         tokenizer_out.add_tokens(tok)
 
@@ -241,10 +244,7 @@ def build_tokenizer(
     for model in (
         pbar := tqdm.tqdm(referenced_models, desc="Building tokenizer permutations")
     ):
-        if model in tokenizers:
-            model_vocab = tokenizers[model].get_vocab()
-        else:
-            model_vocab = tokenizers[base_model].get_vocab()
+        model_vocab = original_vocabs.get(model, original_vocabs[base_model])
 
         vocab_size = get_vocab_size(model.model, trust_remote_code=trust_remote_code)
         if vocab_size is None:
@@ -274,7 +274,7 @@ def build_tokenizer(
     return TokenizerInfo(
         tokenizer=tokenizer_out,
         permutations=permutations,
-        original_vocabs={model: tok.get_vocab() for model, tok in tokenizers.items()},
+        original_vocabs=original_vocabs,
     )
 
 
-- 
2.43.0


From a094486fa62f5a6d36412d058fc81491aee3262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:29 +0000
Subject: [PATCH 29/63] fix: union tokenizer drops added tokens of models
 without a vocab_size

---
 mergekit/tokenizer/build.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 9575ea1..f8c089e 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -114,13 +114,12 @@ def build_union_tokenizer(
     warned_added_tokens = set()
 
     for model, tokenizer in tokenizers.items():
-        vocab_size = (
-            get_vocab_size(model.model, trust_remote_code=trust_remote_code)
-            or tokenizer.vocab_size
-        )
+        vocab = tokenizer.get_vocab()
+        vocab_size = get_vocab_size(
+            model.model, trust_remote_code=trust_remote_code
+        ) or len(vocab)
         added_tokens = tokenizer.added_tokens_decoder
 
-        vocab = tokenizer.get_vocab()
         for tok, idx in vocab.items():
             if idx >= vocab_size:
                 LOG.warning(
-- 
2.43.0


From eecb37b8e1b1a6d6e49047b39a85e727b29b54f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:29 +0000
Subject: [PATCH 30/63] fix: stripping a tokenizer leaves merges whose product
 was stripped

---
 mergekit/tokenizer/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index f8c089e..a7fda7c 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -91,7 +91,7 @@ def get_stripped_tokenizer(
             toks = m
         else:
             raise RuntimeError(f"Unexpected merge format: {repr(m)} ({type(m)})")
-        for tok in toks:
+        for tok in (*toks, "".join(toks)):
             if tok in unused_toks:
                 return False
         return True
-- 
2.43.0


From 8c8be62b8dd59a78a25f84d1a4b29b8b72dee77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:29 +0000
Subject: [PATCH 31/63] fix: zero embeddings cannot be used

---
 mergekit/tokenizer/embed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 74dc93b..c0c8f24 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -130,7 +130,9 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 continue
 
             if num_present == 0:
-                token_configs[token] = TokenEmbeddingConfig(source=ZeroEmbedding())
+                token_configs[token] = TokenEmbeddingConfig(
+                    source=ZeroEmbedding(kind="zero")
+                )
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
@@ -152,7 +154,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         cfg: TokenEmbeddingConfig,
     ) -> torch.Tensor:
         if isinstance(cfg.source, ZeroEmbedding):
-            pass
+            embed = torch.zeros_like(next(iter(tensors.values()))[0])
         elif isinstance(cfg.source, ModelTokenEmbedding):
             model = cfg.source.model
             assert (
-- 
2.43.0


From 3d331cd263a8d4c0f38830d1dd3d4e00ca937de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:29 +0000
Subject: [PATCH 32/63] fix: tokenizer merge fails when the base model lacks
 the embedding tensor

---
 mergekit/tokenizer/embed.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index c0c8f24..10cb438 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -33,10 +33,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         tokenizer = tokenizer_info.tokenizer
         permutations = tokenizer_info.permutations
 
-        models = set(tensors.keys())
-        if self.base_model:
-            models.add(self.base_model)
-        models = list(models)
+        models = list(tensors.keys())
 
         vocab = tokenizer.get_vocab()
         vocab_size = len(vocab)
@@ -136,7 +133,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
-            if num_present > 0 and self.base_model is not None:
+            if self.base_model in models:
                 if permutations[self.base_model][token_id] >= 0:
                     token_configs[token] = TokenEmbeddingConfig(source=self.base_model)
                     continue
-- 
2.43.0


From e9c749924ef8702167e789987d09d7877821ed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:55 +0000
Subject: [PATCH 33/63] fix: MoE merges fail when a shared expert's model is
 not used elsewhere

---
 mergekit/moe/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/moe/common.py b/mergekit/moe/common.py
index 2b1ea00..e1fc6e4 100644
--- a/mergekit/moe/common.py
+++ b/mergekit/moe/common.py
@@ -24,7 +24,9 @@ def initialize_io(
     base_model = config.base_model
     loaders: Dict[ModelReference, LazyTensorLoader] = {}
     for model in tqdm.tqdm(
-        [base_model] + [e.source_model for e in config.experts], desc="Warm up loaders"
+        [base_model]
+        + [e.source_model for e in config.experts + (config.shared_experts or [])],
+        desc="Warm up loaders",
     ):
         loaders[model] = model.lazy_loader(
             cache_dir=merge_options.transformers_cache,
-- 
2.43.0


From 0e33f2a841278b9e150646d62dec6e15c4c4f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:26 +0000
Subject: [PATCH 34/63] fix: model references with spaces, quotes or separators
 in their paths cannot be serialized

---
 mergekit/common.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 1bc6339..7cbf40d 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -203,16 +203,23 @@ class ModelReference(BaseModel, frozen=True):
 
     @model_serializer()
     def serialize(self):
-        if self.override_architecture is not None:
+        parts = [
+            part
+            for path in (self.model, self.lora)
+            if path is not None
+            for part in (path.path, path.revision)
+            if part is not None
+        ]
+        if self.override_architecture is not None or any(
+            c in part for part in parts for c in '"+@ '
+        ):
+            # can not be written as a plain string
             return {
                 "model": self.model,
                 "lora": self.lora,
                 "override_architecture": self.override_architecture,
             }
-        res = str(self)
-        if '"' in res or " " in res:
-            return self
-        return res
+        return str(self)
 
     @classmethod
     def parse(cls, value: str) -> "ModelReference":
-- 
2.43.0


From a68a74efb4020facf9b92932b90736e0c679106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:26 +0000
Subject: [PATCH 35/63] fix: multimerge rewrites strings that are not models
 but equal a merge name

---
 mergekit/scripts/multimerge.py | 50 +++++++++++++---------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index 1735d4c..a2854d1 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -3,10 +3,11 @@
 
 import logging
 import os
-from typing import Dict, Optional, Set, Tuple, Union
+from typing import Dict, Optional, Set, Tuple
 
 import click
 import yaml
+from pydantic import BaseModel
 
 from mergekit.common import ImmutableMap, ModelReference
 from mergekit.config import MergeConfiguration
@@ -133,39 +134,26 @@ def patched_config(config: MergeConfiguration, merge_names: Set[str], working_di
     """
     used = set()
 
-    def _patch_mr(value: Union[dict, list, str, int, None]):
-        nonlocal used
-        if isinstance(value, list):
-            return [_patch_mr(x) for x in value]
-        elif isinstance(value, dict):
-            if set(value.keys()) == {"model", "lora", "override_architecture"}:
-                # is a ModelReference
-                base = value["model"]["path"]
-                if base in merge_names:
-                    value["model"] = value["model"].copy()
-                    value["model"]["path"] = os.path.join(working_dir, base)
-                    used.add(base)
+    def _patch(value):
+        if isinstance(value, ModelReference):
+            if value.model.path not in merge_names:
                 return value
-            return {k: _patch_mr(v) for k, v in value.items()}
-        elif isinstance(value, str):
-            try:
-                mr = ModelReference.model_validate(value)
-                if mr.model.path in merge_names:
-                    used.add(mr.model.path)
-                    return ModelReference(
-                        model={
-                            "path": os.path.join(working_dir, mr.model.path),
-                            "revision": mr.model.revision,
-                        },
-                        lora=mr.lora,
-                        override_architecture=mr.override_architecture,
-                    ).model_dump()
-            except ValueError:
-                pass
+            used.add(value.model.path)
+            path = os.path.join(working_dir, value.model.path)
+            return value.model_copy(
+                update={"model": value.model.model_copy(update={"path": path})}
+            )
+        elif isinstance(value, BaseModel):
+            return value.model_copy(
+                update={k: _patch(getattr(value, k)) for k in value.model_fields_set}
+            )
+        elif isinstance(value, list):
+            return [_patch(x) for x in value]
+        elif isinstance(value, dict):
+            return {k: _patch(v) for k, v in value.items()}
         return value
 
-    new_dict = _patch_mr(config.model_dump())
-    return MergeConfiguration.model_validate(new_dict), used
+    return _patch(config), used
 
 
 def make_tasks(
-- 
2.43.0


From 8b7ad9dd9ab52a4faaddfcdfba4503c7b1dccd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:26 +0000
Subject: [PATCH 36/63] fix: mergekit-pytorch fails on absent parameters and
 ignores zero or false ones

---
 mergekit/scripts/merge_raw_pytorch.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 70d3578..0462bd4 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -189,14 +189,11 @@ def construct_param_dicts(
         for model_def in config.models:
             mr = ModelReference.model_validate({"model": {"path": model_def.model}})
             tensor_params[mr] = tensor_params.get(mr, {})
-            if value := evaluate_setting(
-                tensor_name, model_def.parameters.get(param_def.name, [])
-            ):
-                tensor_params[mr][param_def.name] = value
-            elif value := evaluate_setting(
-                tensor_name,
-                config.parameters.get(param_def.name, []) if config.parameters else [],
-            ):
+            value = None
+            for params in (model_def.parameters, config.parameters):
+                if value is None and params and param_def.name in params:
+                    value = evaluate_setting(tensor_name, params[param_def.name])
+            if value is not None:
                 tensor_params[mr][param_def.name] = value
             elif param_def.required:
                 raise RuntimeError(
-- 
2.43.0


From 7e0d313c67bdb47d9c268226b58f43f135d3f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:26 +0000
Subject: [PATCH 37/63] fix: mergekit-pytorch --tensor-union fails on tensors
 missing from a model

---
 mergekit/merge_methods/base.py        | 6 +++++-
 mergekit/scripts/merge_raw_pytorch.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/base.py b/mergekit/merge_methods/base.py
index 03b2284..27c156f 100644
--- a/mergekit/merge_methods/base.py
+++ b/mergekit/merge_methods/base.py
@@ -27,7 +27,11 @@ class TensorDictWrapper(Task[Dict[ModelReference, torch.Tensor]]):
         }
 
     def execute(self, **kwargs) -> Dict[ModelReference, torch.Tensor]:
-        return {ModelReference.model_validate_json(k): v for k, v in kwargs.items()}
+        return {
+            ModelReference.model_validate_json(k): v
+            for k, v in kwargs.items()
+            if v is not None
+        }
 
 
 MergeTensorInput: TypeAlias = Union[
diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 0462bd4..37d9538 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -64,7 +64,9 @@ class SimpleLoadTensor(Task[torch.Tensor]):
 
     def execute(self) -> torch.Tensor:
         loader = SimpleLoaderCache().get(self.model)
-        tensor = loader.get_tensor(self.tensor_name, device=self.device or "cpu")
+        tensor = loader.get_tensor(
+            self.tensor_name, device=self.device or "cpu", raise_on_missing=False
+        )
         if tensor is None:
             return None
         if dt := dtype_from_name(self.dtype):
-- 
2.43.0


From 05d90e67f800c43eb72232f0ffd62189768ed435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:27 +0000
Subject: [PATCH 38/63] fix: extract-lora --save-module fails whenever another
 module is added to the list

---
 mergekit/scripts/extract_lora.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index a40460d..fa5c067 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -115,8 +115,7 @@ def main(
 ):
     merge_options.apply_global_options()
 
-    if not modules_to_save:
-        modules_to_save = []
+    modules_to_save = list(modules_to_save or [])
 
     base_model_ref = ModelReference.model_validate(base_model)
     model_ref = ModelReference.model_validate(model)
-- 
2.43.0


From 78b0ea35b78f0f826012fbb4cf7155859864e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:27 +0000
Subject: [PATCH 39/63] fix: extract-lora --sv-epsilon writes adapters with
 modules of rank zero

---
 mergekit/scripts/extract_lora.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index fa5c067..7d2198d 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -237,7 +237,8 @@ class TaskVectorDecompositionTask(Task[Tuple[torch.Tensor, torch.Tensor]]):
         )
         rank = min(self.max_rank, s.shape[0])
         if self.sv_epsilon > 0:
-            rank = min((s > self.sv_epsilon).sum().item(), rank)
+            # PEFT does not accept adapters of rank zero
+            rank = max(1, min((s > self.sv_epsilon).sum().item(), rank))
         if self.distribute_scale:
             sqrt_s = torch.diag(torch.sqrt(s[:rank]))
             scale_a = sqrt_s
-- 
2.43.0


From 53a593e1bfd45ecfb8ba4fc79e4d2857380a7766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:27 +0000
Subject: [PATCH 40/63] fix: extract-lora fails on optional weights that are
 absent

---
 mergekit/scripts/extract_lora.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 7d2198d..32b064d 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -158,7 +158,7 @@ def main(
 
     module_real_ranks = {}
     for task, result in executor.run():
-        if isinstance(task, TaskVectorDecompositionTask):
+        if isinstance(task, TaskVectorDecompositionTask) and result[0] is not None:
             module_real_ranks[task.weight_info.name.removesuffix(".weight")] = result[
                 0
             ].shape[0]
@@ -228,7 +228,11 @@ class TaskVectorDecompositionTask(Task[Tuple[torch.Tensor, torch.Tensor]]):
     def arguments(self) -> Dict[str, Any]:
         return {"task_vector": self.input_task}
 
-    def execute(self, task_vector: torch.Tensor) -> Tuple[torch.Tensor, torch.Tensor]:
+    def execute(
+        self, task_vector: Optional[torch.Tensor]
+    ) -> Tuple[Optional[torch.Tensor], Optional[torch.Tensor]]:
+        if task_vector is None:
+            return None, None
         if self.transpose:
             task_vector = task_vector.T
         out_dtype = task_vector.dtype
@@ -266,7 +270,11 @@ class TaskVectorTask(Task[torch.Tensor]):
     def arguments(self) -> Dict[str, Any]:
         return {"base": self.base_tensor, "model": self.model_tensor}
 
-    def execute(self, base: torch.Tensor, model: torch.Tensor) -> torch.Tensor:
+    def execute(
+        self, base: Optional[torch.Tensor], model: Optional[torch.Tensor]
+    ) -> Optional[torch.Tensor]:
+        if base is None or model is None:
+            return None
         return model - base
 
     def group_label(self):
-- 
2.43.0


From 7a968faeae7d91e94c7db57f4bf638b962997f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:53 +0000
Subject: [PATCH 41/63] fix: tokensurgeon applies embed-only matching to the LM
 head and vice versa

---
 mergekit/scripts/tokensurgeon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 6c6e079..2be3fae 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -717,8 +717,8 @@ def main(
             orig_vocab=orig_vocab,
             donor_vocab=donor_vocab,
             junk_tokens=junk_tokens,
-            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
-            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
+            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
+            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
             is_lm_head=False,
             options=options,
         )
@@ -741,8 +741,8 @@ def main(
             orig_vocab=orig_vocab,
             donor_vocab=donor_vocab,
             junk_tokens=junk_tokens,
-            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
-            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
+            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
+            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
             is_lm_head=True,
             options=options,
         )
-- 
2.43.0


From 0df6bd97e09f0235481a3516b504121b2271ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:53 +0000
Subject: [PATCH 42/63] fix: tokensurgeon weighted subword mean favours the
 wrong end of the token

---
 mergekit/tokensurgeon/subword.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/subword.py b/mergekit/tokensurgeon/subword.py
index e30cc26..8811bbc 100644
--- a/mergekit/tokensurgeon/subword.py
+++ b/mergekit/tokensurgeon/subword.py
@@ -41,7 +41,7 @@ def subword_approximate(
                 res[idx] /= len(token_ids)
         elif subword_method == SubwordMethod.WEIGHTED_MEAN:
             weights = list(range(1, len(token_ids) + 1))
-            if not is_lm_head:
+            if is_lm_head:
                 # for embed_tokens, want last token to have highest weight
                 # (vs. first token for lm_head)
                 weights = weights[::-1]
-- 
2.43.0


From 5bfecd753abebf9e034c6c96d05aa0fb00482a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:53 +0000
Subject: [PATCH 43/63] fix: tokensurgeon can not scale or add noise to mean
 embeddings

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 2be3fae..f9eac74 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -267,7 +267,7 @@ def compute_new_embeddings(
     assert all(t in donor_vocab for t in target_tokens)
     if options.method == ApproximationMethod.MEAN:
         mean = orig_embed.mean(dim=0)
-        return mean.unsqueeze(0).expand(len(target_tokens), -1)
+        return mean.unsqueeze(0).repeat(len(target_tokens), 1)
     elif options.method == ApproximationMethod.ZERO:
         return torch.zeros(
             len(target_tokens),
-- 
2.43.0


From 7696c3314e9ce8cba8795eb0059dc34f1bc15ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:53 +0000
Subject: [PATCH 44/63] fix: tokensurgeon john_hewitt fallback raises TypeError

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index f9eac74..245a984 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -238,7 +238,7 @@ def john_hewitt_init(orig_embed: torch.Tensor, num_new_tokens: int) -> torch.Ten
         )
         return (
             torch.randn(
-                len(num_new_tokens),
+                num_new_tokens,
                 orig_embed.shape[1],
                 device=orig_embed.device,
                 dtype=orig_embed.dtype,
-- 
2.43.0


From fa53f7cabd679e46b03202814e080d2bd7580c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:53 +0000
Subject: [PATCH 45/63] fix: tokensurgeon stb method is passed the options as
 its sparsity

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 245a984..ad9819a 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -437,7 +437,7 @@ def build_embedding_matrix(
             safe_orig_vocab,
             safe_donor_vocab,
             junk_tokens,
-            options,
+            options.k,
         )
     else:
         token_basis = None
-- 
2.43.0


From e41c6d586c16c28f151d947742a278bf678798dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:53 +0000
Subject: [PATCH 46/63] fix: tokensurgeon fails on architectures without an
 output embedding

---
 mergekit/scripts/tokensurgeon.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index ad9819a..86042a0 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -159,12 +159,14 @@ def get_stuff(
         aliases=maybe_aliases(embed_wi, get_tied),
         raise_on_missing=not embed_wi.optional,
     )
-    lm_head = loader.get_tensor(
-        lm_head_wi.name,
-        device=device,
-        aliases=maybe_aliases(lm_head_wi, get_tied),
-        raise_on_missing=not lm_head_wi.optional,
-    )
+    lm_head = None
+    if lm_head_wi is not None:
+        lm_head = loader.get_tensor(
+            lm_head_wi.name,
+            device=device,
+            aliases=maybe_aliases(lm_head_wi, get_tied),
+            raise_on_missing=not lm_head_wi.optional,
+        )
     return vocab, embed, lm_head
 
 
@@ -747,7 +749,7 @@ def main(
             options=options,
         )
     else:
-        if not lm_head_wi.optional:
+        if lm_head_wi is not None and not lm_head_wi.optional:
             raise RuntimeError(
                 f"Missing tensor {lm_head_wi.name} in model {options.model}"
             )
-- 
2.43.0


From 73273a074a9ecdbafba4b308ab0ecb4b45c45465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:53 +0000
Subject: [PATCH 47/63] fix: tokensurgeon common_interpolation fails on half
 precision embeddings

---
 mergekit/tokensurgeon/common_interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/tokensurgeon/common_interpolation.py b/mergekit/tokensurgeon/common_interpolation.py
index 0f1dde3..c830dc7 100644
--- a/mergekit/tokensurgeon/common_interpolation.py
+++ b/mergekit/tokensurgeon/common_interpolation.py
@@ -89,6 +89,8 @@ def common_interp_approximate(
     assert a_embeddings.dim() == 2
     assert targets.size(1) == a_embeddings.size(1)
     assert (k is None) or (k > 0), "k must be positive"
+    targets = targets.float()
+    a_embeddings = a_embeddings.float()
 
     if metric == DistanceMetric.EUCLIDEAN:
         distances = torch.cdist(targets, a_embeddings, p=2)
-- 
2.43.0


From a13fae95a757c2653f861300c6bf61aa8250a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:53 +0000
Subject: [PATCH 48/63] fix: tokensurgeon mp_rope can not find rope_theta in
 transformers v5 configs

---
 mergekit/scripts/tokensurgeon.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 86042a0..8b2ba78 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -255,6 +255,13 @@ def john_hewitt_init(orig_embed: torch.Tensor, num_new_tokens: int) -> torch.Ten
     return new_embeds.to(orig_embed.dtype)
 
 
+def get_rope_theta(config: transformers.PretrainedConfig) -> float:
+    if hasattr(config, "rope_theta"):
+        return config.rope_theta
+    # transformers v5
+    return config.rope_parameters["rope_theta"]
+
+
 def compute_new_embeddings(
     orig_embed: torch.Tensor,
     donor_embed: torch.Tensor,
@@ -336,8 +343,8 @@ def compute_new_embeddings(
                 k=options.k,
                 num_heads_a=donor_config.num_attention_heads,
                 num_heads_b=model_config.num_attention_heads,
-                a_rope_base=donor_config.rope_theta,
-                b_rope_base=model_config.rope_theta,
+                a_rope_base=get_rope_theta(donor_config),
+                b_rope_base=get_rope_theta(model_config),
             )
         else:
             indices, coeffs = batch_omp(targets, donor_shared_embeds, options.k)
-- 
2.43.0


From 124c3f9946a67651fb3cfdfefe0846d65d36c4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:29 +0000
Subject: [PATCH 49/63] fix: evolved slerp merges with a separate base model
 have three inputs

---
 mergekit/evo/genome.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/mergekit/evo/genome.py b/mergekit/evo/genome.py
index fdb1ac7..7bf0ce1 100644
--- a/mergekit/evo/genome.py
+++ b/mergekit/evo/genome.py
@@ -299,19 +299,6 @@ class ModelGenome:
                 s["sources"][0]["parameters"] = {"weight": 1 - t}
                 s["sources"][1]["parameters"] = {"weight": t}
 
-            if self.definition.base_model and (
-                self.definition.base_model not in self.definition.models
-            ):
-                s["sources"].append(
-                    {
-                        "model": self.definition.base_model,
-                        "layer_range": [
-                            slice_idx * layer_step,
-                            (slice_idx + 1) * layer_step,
-                        ],
-                    }
-                )
-
             slices.append(s)
         return slices
 
-- 
2.43.0


From 9a17530d8b28667f19d523f7d3842f7b47d98277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:34 +0000
Subject: [PATCH 50/63] fix: an interrupted LoRA merge leaves a partial model
 that later merges use

---
 mergekit/common.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 7cbf40d..735d341 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -5,6 +5,7 @@ import binascii
 import logging
 import os
 import os.path
+import tempfile
 from typing import (
     Any,
     Callable,
@@ -116,7 +117,7 @@ class ModelReference(BaseModel, frozen=True):
         )
 
         if not os.path.exists(out_path):
-            os.makedirs(out_path, exist_ok=True)
+            os.makedirs(cache_dir, exist_ok=True)
 
             config = self.config(trust_remote_code)
             auto_cls = get_auto_cls(config.architectures[0])
@@ -134,7 +135,11 @@ class ModelReference(BaseModel, frozen=True):
             )
             logging.info(f"Merging {self.lora} into {self.model}")
             model = model.merge_and_unload()
-            model.save_pretrained(out_path, safe_serialization=True)
+            # only a complete result may appear under its final name
+            with tempfile.TemporaryDirectory(dir=cache_dir) as tmp_dir:
+                tmp_path = os.path.join(tmp_dir, "merged")
+                model.save_pretrained(tmp_path, safe_serialization=True)
+                os.rename(tmp_path, out_path)
             del model
 
         return ModelReference(model=ModelPath(path=out_path))
-- 
2.43.0


From 74c661169edb9ed2fb3feed12bfdf933035a2763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:34 +0000
Subject: [PATCH 51/63] fix: cached LoRA merges are used regardless of
 --lora-merge-dtype

---
 mergekit/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/common.py b/mergekit/common.py
index 735d341..224dab3 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -115,6 +115,8 @@ class ModelReference(BaseModel, frozen=True):
             cache_dir,
             self.model._unique_id() + "_" + self.lora._unique_id(),
         )
+        if lora_merge_dtype:
+            out_path += "_" + lora_merge_dtype
 
         if not os.path.exists(out_path):
             os.makedirs(cache_dir, exist_ok=True)
-- 
2.43.0


From 832814da9aff51c024eb02ce293d64b9e2f15799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 52/63] fix: an earlier checkpoint in the output directory
 shadows the one written over it

---
 mergekit/io/tensor_writer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mergekit/io/tensor_writer.py b/mergekit/io/tensor_writer.py
index 06b6d46..42a5464 100644
--- a/mergekit/io/tensor_writer.py
+++ b/mergekit/io/tensor_writer.py
@@ -167,6 +167,16 @@ class TensorWriter:
                 new_path = os.path.join(self.out_path, new_name)
                 os.rename(old_path, new_path)
 
+            # An earlier checkpoint in the same directory must not take
+            # precedence over the one just written
+            for stale_name in [
+                f"{prefix}.{extension}",
+                f"{prefix}.{extension}.index.json",
+            ]:
+                stale_path = os.path.join(self.out_path, stale_name)
+                if stale_name not in name_remap.values() and os.path.exists(stale_path):
+                    os.remove(stale_path)
+
             # Write index file if needed
             if total_shards > 1:
                 for key in self.weight_map:
-- 
2.43.0


From a183c70d80ff255545de4dea51f5cd515da49ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 53/63] fix: chat templates longer than a file name can not be
 given in a configuration

---
 mergekit/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 75d1b41..778b110 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -185,7 +185,7 @@ def _set_chat_template(
         chat_template = Counter(model_templates).most_common(1)[0][0]
         LOG.info(f"Auto-selected chat template: {chat_template}")
 
-    elif (
+    elif "{" not in chat_template and (
         t := importlib.resources.files(chat_templates).joinpath(
             chat_template + ".jinja"
         )
-- 
2.43.0


From 1bdff5c1cf4514e32796f6aeff5f6977e469bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 54/63] fix: chat_template auto ignores tokenizers that need
 --trust-remote-code

---
 mergekit/merge.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 778b110..dab642b 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -115,7 +115,9 @@ def run_merge(
 
     if tokenizer is not None:
         LOG.info("Saving tokenizer")
-        _set_chat_template(tokenizer, merge_config)
+        _set_chat_template(
+            tokenizer, merge_config, trust_remote_code=options.trust_remote_code
+        )
         tokenizer.save_pretrained(out_path, safe_serialization=True)
     else:
         if options.copy_tokenizer:
@@ -275,7 +277,9 @@ def _copy_tokenizer(
         revision=donor_model.model.revision,
         trust_remote_code=options.trust_remote_code,
     )
-    _set_chat_template(tokenizer, merge_config)
+    _set_chat_template(
+        tokenizer, merge_config, trust_remote_code=options.trust_remote_code
+    )
     tokenizer.save_pretrained(out_path, safe_serialization=True)
 
 
-- 
2.43.0


From b5a4e79bc28cf1bfdc928dfa00ea18c2e4e85833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 55/63] fix: mergekit-layershuffle fails on every model

---
 mergekit/scripts/layershuffle.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index e961427..ba51820 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -18,6 +18,15 @@ from mergekit.merge import run_merge
 from mergekit.options import MergeOptions, PrettyPrintHelp, add_merge_options
 
 
+def _num_layers(model: ModelReference, trust_remote_code: bool = False) -> int:
+    cfg = model.config(trust_remote_code=trust_remote_code)
+    arch_info = arch_info_for_config(cfg)
+    if arch_info is None or len(arch_info.modules) != 1:
+        raise RuntimeError(f"Unable to shuffle the layers of {model}")
+    (module_def,) = arch_info.modules.values()
+    return module_def.architecture.num_layers(cfg)
+
+
 @click.command("mergekit-layershuffle", cls=PrettyPrintHelp)
 @click.argument("out_path", type=str)
 @click.option("--model", "-m", multiple=True, type=str, help="Add a model to the merge")
@@ -61,25 +70,28 @@ def main(
     full_random: bool,
     merge_options: MergeOptions,
 ):
+    merge_options.apply_global_options()
+
     models = [ModelReference.parse(m) for m in model]
+    if not weight:
+        weight = [1.0 / len(models)] * len(models)
+    elif len(weight) != len(models):
+        raise click.UsageError("Must specify exactly one weight per model")
 
-    m0_cfg = models[0].config()
-    arch_info = arch_info_for_config(m0_cfg)
-    total_num_layers = arch_info.num_layers(m0_cfg)
+    total_num_layers = _num_layers(models[0], merge_options.trust_remote_code)
 
     out_slices: List[OutputSliceDefinition] = []
 
     if full_random:
-        for model, frac in zip(models, weight):
-            cfg = model.config()
-            num_layers = int(arch_info.num_layers(cfg) * frac)
-            for _ in range(num_layers):
+        for src_model, frac in zip(models, weight):
+            num_layers = _num_layers(src_model, merge_options.trust_remote_code)
+            for _ in range(int(num_layers * frac)):
                 src_idx = random.randrange(0, num_layers)
                 out_slices.append(
                     OutputSliceDefinition(
                         sources=[
                             InputSliceDefinition(
-                                model=str(model),
+                                model=src_model,
                                 layer_range=(src_idx, src_idx + 1),
                             )
                         ]
@@ -89,7 +101,7 @@ def main(
     else:
         for layer_idx in range(total_num_layers):
             src_model = random.choices(models, weights=weight, k=1)[0]
-            if out_slices and out_slices[-1].sources[0].model == str(src_model):
+            if out_slices and out_slices[-1].sources[0].model == src_model:
                 out_slices[-1].sources[0].layer_range = (
                     out_slices[-1].sources[0].layer_range[0],
                     layer_idx + 1,
@@ -99,7 +111,7 @@ def main(
                     OutputSliceDefinition(
                         sources=[
                             InputSliceDefinition(
-                                model=str(src_model),
+                                model=src_model,
                                 layer_range=(layer_idx, layer_idx + 1),
                             )
                         ]
-- 
2.43.0


From 3ae47c03b88b67ffa61176dbe6e04daec6dc3f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 56/63] fix: mergekit-legacy ignores --num-threads and
 --verbosity

---
 mergekit/scripts/legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/scripts/legacy.py b/mergekit/scripts/legacy.py
index 922a9a9..c5e8a6d 100644
--- a/mergekit/scripts/legacy.py
+++ b/mergekit/scripts/legacy.py
@@ -80,6 +80,8 @@ def main(
     merge_options: MergeOptions,
 ):
     """Wrapper for using a subset of legacy-style script arguments."""
+    merge_options.apply_global_options()
+
     models = [InputModelDefinition(model=model, parameters={}) for model in merge]
     if base_model and base_model not in merge:
         models.append(InputModelDefinition(model=base_model, parameters={}))
-- 
2.43.0


From 37322086e3c8f912122bc1bd03134e07f07f3811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 57/63] fix: mergekit-legacy requires --weight instead of
 defaulting to 1.0

---
 mergekit/scripts/legacy.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mergekit/scripts/legacy.py b/mergekit/scripts/legacy.py
index c5e8a6d..82f3370 100644
--- a/mergekit/scripts/legacy.py
+++ b/mergekit/scripts/legacy.py
@@ -98,11 +98,12 @@ def main(
         assert len(weight) == 1, "Must specify exactly one weight for SLERP"
         parameters["t"] = weight[0]
     else:
-        if weight:
-            if len(weight) == 1:
-                weight = [weight[0]] * len(models)
-            for idx, w in enumerate(weight):
-                models[idx].parameters["weight"] = w
+        if not weight:
+            weight = [1.0]
+        if len(weight) == 1:
+            weight = [weight[0]] * len(models)
+        for idx, w in enumerate(weight):
+            models[idx].parameters["weight"] = w
 
     if int8_mask:
         parameters["int8_mask"] = True
-- 
2.43.0


From e0192d1934947767fbbb076de2e69ceda1dfea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 58/63] fix: bakllama fails on every configuration

---
 mergekit/scripts/bakllama.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/bakllama.py b/mergekit/scripts/bakllama.py
index e2d4b04..4460e09 100644
--- a/mergekit/scripts/bakllama.py
+++ b/mergekit/scripts/bakllama.py
@@ -7,13 +7,14 @@ import click
 import yaml
 from pydantic import BaseModel
 
-from mergekit.common import MergeOptions
 from mergekit.config import (
     ConditionalParameter,
     InputSliceDefinition,
     MergeConfiguration,
+    OutputSliceDefinition,
 )
 from mergekit.merge import run_merge
+from mergekit.options import MergeOptions
 
 
 class LayerSlice(BaseModel):
@@ -58,15 +59,23 @@ def main(
                 value=s.scale, filter="down_proj"
             )
         slices.append(
-            InputSliceDefinition(
-                model=s.model, layer_range=(s.start, s.end), parameters=parameters
+            OutputSliceDefinition(
+                sources=[
+                    InputSliceDefinition(
+                        model=s.model,
+                        layer_range=(s.start, s.end),
+                        parameters=parameters,
+                    )
+                ]
             )
         )
 
     merge_config = MergeConfiguration(
         merge_method="passthrough", slices=slices, dtype="float16" if fp16 else None
     )
-    run_merge(merge_config, out_path, MergeOptions(clone_tensors=clone_tensors))
+    run_merge(
+        merge_config, out_path, options=MergeOptions(clone_tensors=clone_tensors)
+    )
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 3307fec8b581e5fa89fd8e9d17e18a1f6914080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 59/63] fix: bakllama ignores embedding_source and
 lm_head_source

---
 mergekit/scripts/bakllama.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/bakllama.py b/mergekit/scripts/bakllama.py
index 4460e09..56b328e 100644
--- a/mergekit/scripts/bakllama.py
+++ b/mergekit/scripts/bakllama.py
@@ -51,8 +51,15 @@ def main(
     with open(config_path, "r", encoding="utf-8") as file:
         config = BakllamaConfig.model_validate(yaml.safe_load(file))
 
+    # slices without layers only provide the weights before or after all layers
+    layer_slices = list(config.layer_slices)
+    if config.embedding_source:
+        layer_slices.insert(0, LayerSlice(model=config.embedding_source, start=0, end=0))
+    if config.lm_head_source:
+        layer_slices.append(LayerSlice(model=config.lm_head_source, start=0, end=0))
+
     slices = []
-    for s in config.layer_slices:
+    for s in layer_slices:
         parameters = {}
         if s.scale is not None:
             parameters["scale"] = ConditionalParameter(
-- 
2.43.0


From ebdbc06bf9a5fb673af5095780b544123c713010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 60/63] fix: fill_missing_params fails when run as a script

---
 mergekit/scripts/fill_missing_params.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index b0bb7b0..6fa4e62 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -196,10 +196,6 @@ def main(
     )
 
 
-if __name__ == "__main__":
-    main()
-
-
 class ParameterNamesUtils:
     """Utility functions for handling parameter names."""
 
@@ -394,3 +390,7 @@ class ParameterNamesUtils:
             Path(index.base_path) / index.tensor_paths[name], framework="pt"
         ) as f:
             return f.get_slice(name).get_shape()
+
+
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From 91ff2470a8e9659002522173d79c691c9ead0eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 61/63] fix: vocab_size of merged qwen3_vl_moe models is
 written to the wrong place in the config

---
 mergekit/_data/architectures/qwen3_vl.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/qwen3_vl.json b/mergekit/_data/architectures/qwen3_vl.json
index 3258291..298a722 100644
--- a/mergekit/_data/architectures/qwen3_vl.json
+++ b/mergekit/_data/architectures/qwen3_vl.json
@@ -5,7 +5,7 @@
         "Qwen3VLMoeForConditionalGeneration"
     ],
     "num_vision_layers_config_key": "vision_config.depth",
-    "vocab_size_config_key": "vocab_size",
+    "vocab_size_config_key": "text_config.vocab_size",
     "tagalong_files": [
         "preprocessor_config.json",
         "vocab.json"
-- 
2.43.0


From eb08fe2dbabcaca6c3f05a6c442e575b0134fe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:37 +0000
Subject: [PATCH 62/63] fix: model_stock gives NaN where task vectors are
 directly opposed

---
 mergekit/merge_methods/model_stock.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/merge_methods/model_stock.py b/mergekit/merge_methods/model_stock.py
index 98e235c..5bbe9dd 100644
--- a/mergekit/merge_methods/model_stock.py
+++ b/mergekit/merge_methods/model_stock.py
@@ -80,6 +80,8 @@ class ModelStockMergeTask(Task[torch.Tensor]):
         cos_theta = torch.stack(cos_thetas).mean(dim=0).unsqueeze(-1)
         N = len(ws)
         t = (N * cos_theta) / (1 + (N - 1) * cos_theta)
+        # directly opposed task vectors have no finite ratio - keep the base weights
+        t = torch.where(torch.isfinite(t), t, torch.zeros_like(t))
 
         w_avg = sum(ws) / len(ws)
         w_h = t * w_avg + (1 - t) * w_0
-- 
2.43.0


From 0b62037972e5b6d1061dc87c86bc8c94279f56ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:32 +0000
Subject: [PATCH 63/63] fix: name the base model's revision in the extracted
 adapter's configuration

---
 mergekit/scripts/extract_lora.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 32b064d..11a9283 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -202,6 +202,7 @@ def make_config_dict(
     different_ranked = {k: v for k, v in module_ranks.items() if v != max_rank}
     return {
         "base_model_name_or_path": base_ref.model.path,
+        "revision": base_ref.model.revision,
         "peft_type": "LORA",
         "use_rslora": False,
         "target_modules": target_modules,
-- 
2.43.0

