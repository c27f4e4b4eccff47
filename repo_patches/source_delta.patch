From 2a3b6d6d4fcea2a260ee71f3f0fad0ad3cd106d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:21 +0000
Subject: [PATCH 001/121] fix: drain completed results before the multi-GPU
 progress thread exits

---
 mergekit/multigpu_executor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/multigpu_executor.py b/mergekit/multigpu_executor.py
index 64e2bfa..a84ad3a 100644
--- a/mergekit/multigpu_executor.py
+++ b/mergekit/multigpu_executor.py
@@ -151,7 +151,10 @@ class MultiGPUExecutor:
             results_snapshot = dict(self.results)
 
             def update_progress():
-                while not self.done_event.is_set():
+                # keep going until the queue is drained, or results would be lost
+                while not (
+                    self.done_event.is_set() and self.task_completion_queue.empty()
+                ):
                     try:
                         task_idx, result = self.task_completion_queue.get(timeout=0.1)
                         task_handle = TaskHandle(self.universe, task_idx)
-- 
2.43.0


From c791a6aabe707f2c5870b0c2b101fff60dafa6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:12 +0000
Subject: [PATCH 002/121] fix: lazily read pickle checkpoints whose file was
 renamed after saving

---
 mergekit/io/lazy_unpickle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index be26d86..9151a47 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -127,6 +127,12 @@ class TorchArchiveReader:
     def __init__(self, path: str):
         self.archive = zipfile.ZipFile(path, mode="r")
         self.archive_name = os.path.basename(os.path.normpath(path)).split(".")[0]
+        # torch names the top-level directory after the file as it was first
+        # written, so a renamed checkpoint has a different one
+        for entry in self.archive.namelist():
+            if entry.endswith("/data.pkl"):
+                self.archive_name = entry[: -len("/data.pkl")]
+                break
 
     def open_file(self, file_name: str, offset: int = 0) -> zipfile.ZipExtFile:
         if self.file_name != file_name or (
-- 
2.43.0


From e28ca510b5dfe544fa8a2c46f6c2275ef1b98964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:40 +0000
Subject: [PATCH 003/121] fix: lazily read scalar, boolean and strided tensors
 from pickle checkpoints correctly

---
 mergekit/io/lazy_unpickle.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index 9151a47..e942388 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -4,11 +4,9 @@
 import codecs
 import collections
 import contextlib
-import operator
 import os
 import pickle
 import zipfile
-from functools import reduce
 from typing import Any, Optional, Tuple, Union
 
 import accelerate
@@ -71,7 +69,11 @@ class DeferredLoad(BaseModel, arbitrary_types_allowed=True):
         reader: "TorchArchiveReader",
         map_location: Any = None,
     ) -> torch.Tensor:
-        total_params = reduce(operator.mul, self.shape)
+        # the span of storage the tensor covers, which for a strided view is
+        # not its number of elements
+        total_params = 1 + sum((n - 1) * s for n, s in zip(self.shape, self.stride))
+        if 0 in self.shape:
+            total_params = 0
         total_bytes = total_params * dtype_bytes(self.dtype)
 
         f = reader.open_file(file_name=self.name, offset=self.file_offset)
@@ -186,11 +188,7 @@ def torch_lazy_load():
 
 def dtype_bytes(dtype: torch.dtype) -> int:
     """Return the number of bytes used to store a single instance of `dtype`."""
-    if dtype.is_floating_point:
-        ti = torch.finfo(dtype)
-    else:
-        ti = torch.iinfo(dtype)
-    return max(1, ti.bits // 8)
+    return torch.empty(0, dtype=dtype).element_size()
 
 
 def get_dtype(storage_type: Any):
-- 
2.43.0


From 2a2da67d51bda60ea3edd517c63d335649bfa90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:34 +0000
Subject: [PATCH 004/121] fix: do not leave a stale checkpoint visible when
 writing into a used directory

---
 mergekit/io/tensor_writer.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/mergekit/io/tensor_writer.py b/mergekit/io/tensor_writer.py
index 06b6d46..ae231d2 100644
--- a/mergekit/io/tensor_writer.py
+++ b/mergekit/io/tensor_writer.py
@@ -6,7 +6,7 @@ import logging
 import os
 import threading
 from concurrent.futures import Future, ThreadPoolExecutor
-from typing import Dict, List, Optional
+from typing import Dict, List, Optional, Set
 
 import safetensors
 import torch
@@ -162,6 +162,9 @@ class TensorWriter:
                     )
                     name_remap[old_name] = new_name
 
+            if total_shards > 0:
+                self._remove_stale_checkpoint(keep=set(name_remap.values()))
+
             for old_name, new_name in name_remap.items():
                 old_path = os.path.join(self.out_path, old_name)
                 new_path = os.path.join(self.out_path, new_name)
@@ -186,6 +189,25 @@ class TensorWriter:
                     }
                     json.dump(content, f, indent=2)
 
+    def _remove_stale_checkpoint(self, keep: Set[str]):
+        """
+        Removes the files through which a reader would find a checkpoint that was
+        written to the same directory earlier, in another layout or format.
+        """
+        if self.override_basename:
+            entry_points = [
+                f"{self.override_basename}.safetensors",
+                f"{self.override_basename}.bin",
+            ]
+        else:
+            entry_points = ["model.safetensors", "pytorch_model.bin"]
+
+        for entry_point in entry_points:
+            for stale_name in (f"{entry_point}.index.json", entry_point):
+                stale_path = os.path.join(self.out_path, stale_name)
+                if stale_name not in keep and os.path.exists(stale_path):
+                    os.remove(stale_path)
+
     def _get_name_components(self):
         if self.override_basename:
             basename = self.override_basename
-- 
2.43.0


From dcf1d144d603abdf8fb6f83d41f5e820890ac83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:38 +0000
Subject: [PATCH 005/121] fix: do not finalize a checkpoint when leaving
 TensorWriter because of an error

---
 mergekit/io/tensor_writer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mergekit/io/tensor_writer.py b/mergekit/io/tensor_writer.py
index ae231d2..7473a86 100644
--- a/mergekit/io/tensor_writer.py
+++ b/mergekit/io/tensor_writer.py
@@ -62,6 +62,11 @@ class TensorWriter:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
+        if exc_type is not None:
+            # incomplete - do not make it look like a finished checkpoint
+            if self.use_async:
+                self._executor.shutdown()
+            return
         self.finalize()
 
     def save_tensor(self, name: str, tensor: torch.Tensor, clone: bool = False):
-- 
2.43.0


From b51d901cbb98c343c26da5e7fbb62ee4d19abfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:07 +0000
Subject: [PATCH 006/121] fix: read tensors of pickle checkpoints nested under
 state_dict

---
 mergekit/io/loader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mergekit/io/loader.py b/mergekit/io/loader.py
index 3f8bff4..ba5ceb9 100644
--- a/mergekit/io/loader.py
+++ b/mergekit/io/loader.py
@@ -53,6 +53,8 @@ class LazyPickleLoader(TensorLoader):
         self.device = device
         with torch_lazy_load():
             self.index = torch.load(path, pickle_module=LazyUnpickleModule)
+        if "state_dict" in self.index:
+            self.index = self.index["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         if key not in self.index:
@@ -71,6 +73,8 @@ class DumbPytorchLoader(TensorLoader):
 
     def __init__(self, path: str, device: Optional[str] = None):
         self.tensors = torch.load(path, map_location=device, weights_only=True)
+        if "state_dict" in self.tensors:
+            self.tensors = self.tensors["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         return self.tensors[key]
-- 
2.43.0


From 5c0b7e46f560818c9d5d2ced288ab5873378c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:18 +0000
Subject: [PATCH 007/121] fix: serialize pickle loading, which replaces
 process-wide functions, between threads

---
 mergekit/io/lazy_tensor_loader.py |  4 +++-
 mergekit/io/lazy_unpickle.py      | 12 ++++++++++++
 mergekit/io/loader.py             |  4 +++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/mergekit/io/lazy_tensor_loader.py b/mergekit/io/lazy_tensor_loader.py
index 9979341..4e29639 100644
--- a/mergekit/io/lazy_tensor_loader.py
+++ b/mergekit/io/lazy_tensor_loader.py
@@ -14,6 +14,7 @@ import safetensors.torch
 import torch
 from torch import Tensor
 
+from mergekit.io.lazy_unpickle import TORCH_LOAD_LOCK
 from mergekit.io.loader import TensorLoader
 
 
@@ -89,7 +90,8 @@ class ShardedTensorIndex:
             with safetensors.safe_open(file_path, framework="pt") as st:
                 tensor_paths = {key: shard_name for key in st.keys()}
         else:
-            shard = torch.load(file_path, map_location="meta")
+            with TORCH_LOAD_LOCK:
+                shard = torch.load(file_path, map_location="meta")
             if "state_dict" in shard:
                 shard = shard["state_dict"]
 
diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index e942388..2b99e6d 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -6,6 +6,7 @@ import collections
 import contextlib
 import os
 import pickle
+import threading
 import zipfile
 from typing import Any, Optional, Tuple, Union
 
@@ -159,12 +160,23 @@ class TorchArchiveReader:
         return self.file
 
 
+# `torch_lazy_load` replaces process-wide functions, so only one thread may be
+# using it, or `torch.load` in general, at any time
+TORCH_LOAD_LOCK = threading.RLock()
+
+
 @contextlib.contextmanager
 def torch_lazy_load():
     """
     Context manager under which `torch.load` will return a `DeferredLoad` instead
     of `torch.Tensor.`
     """
+    with TORCH_LOAD_LOCK, _lazy_load_monkeypatch():
+        yield
+
+
+@contextlib.contextmanager
+def _lazy_load_monkeypatch():
     old_unpickler = pickle.Unpickler
     old_load = pickle.load
     old_rebuild_tensor = torch._utils._rebuild_tensor
diff --git a/mergekit/io/loader.py b/mergekit/io/loader.py
index ba5ceb9..77ee08d 100644
--- a/mergekit/io/loader.py
+++ b/mergekit/io/loader.py
@@ -8,6 +8,7 @@ import safetensors
 import torch
 
 from mergekit.io.lazy_unpickle import (
+    TORCH_LOAD_LOCK,
     DeferredLoad,
     LazyUnpickleModule,
     TorchArchiveReader,
@@ -72,7 +73,8 @@ class DumbPytorchLoader(TensorLoader):
     tensors: Dict[str, torch.Tensor]
 
     def __init__(self, path: str, device: Optional[str] = None):
-        self.tensors = torch.load(path, map_location=device, weights_only=True)
+        with TORCH_LOAD_LOCK:
+            self.tensors = torch.load(path, map_location=device, weights_only=True)
         if "state_dict" in self.tensors:
             self.tensors = self.tensors["state_dict"]
 
-- 
2.43.0


From e98efdf902c15d1c5195544fce1b681c542e9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:28 +0000
Subject: [PATCH 008/121] fix: evaluate a parameter given as a single filtered
 value

---
 mergekit/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/config.py b/mergekit/config.py
index 3114015..3e73e8e 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -26,6 +26,8 @@ ParameterSetting: TypeAlias = Union[
 def evaluate_setting(
     tensor_name: str, setting: ParameterSetting, t: float = 0
 ) -> Optional[float]:
+    if isinstance(setting, ConditionalParameter):
+        setting = [setting]
     if isinstance(setting, (float, int, bool, str)):
         return setting
     elif isinstance(setting, list):
-- 
2.43.0


From 0e07be2b5a530843c748818c1a597b2edd3e6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:10 +0000
Subject: [PATCH 009/121] fix: write model references with spaces or separators
 in a form that reads back

---
 mergekit/common.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 1bc6339..8eb76dd 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -203,16 +203,19 @@ class ModelReference(BaseModel, frozen=True):
 
     @model_serializer()
     def serialize(self):
-        if self.override_architecture is not None:
+        parts = [self.model.path, self.model.revision]
+        if self.lora:
+            parts += [self.lora.path, self.lora.revision]
+        if self.override_architecture is not None or any(
+            c in part for part in parts if part for c in '"+@ '
+        ):
+            # can't be (unambiguously) written as a string
             return {
                 "model": self.model,
                 "lora": self.lora,
                 "override_architecture": self.override_architecture,
             }
-        res = str(self)
-        if '"' in res or " " in res:
-            return self
-        return res
+        return str(self)
 
     @classmethod
     def parse(cls, value: str) -> "ModelReference":
-- 
2.43.0


From 30888de5275d05f134d936ba602e72095398e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:10 +0000
Subject: [PATCH 010/121] fix: list referenced models in configuration order

---
 mergekit/config.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mergekit/config.py b/mergekit/config.py
index 3e73e8e..3551897 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -101,25 +101,26 @@ class MergeConfiguration(BaseModel):
     parameters: Optional[Dict[str, ParameterSetting]] = None
 
     def referenced_models(self) -> List[ModelReference]:
-        models = set()
+        # dict instead of set, so the order does not depend on hash values
+        models: Dict[ModelReference, None] = {}
         if self.base_model:
-            models.add(self.base_model)
+            models[self.base_model] = None
         if self.models:
             for model_in in self.models:
-                models.add(model_in.model)
+                models[model_in.model] = None
         if self.slices:
             for s in self.slices:
                 for src in s.sources:
-                    models.add(src.model)
+                    models[src.model] = None
         if self.modules:
             for m in self.modules.values():
                 if m.models:
                     for model_in in m.models:
-                        models.add(model_in.model)
+                        models[model_in.model] = None
                 if m.slices:
                     for s in m.slices:
                         for src in s.sources:
-                            models.add(src.model)
+                            models[src.model] = None
         return list(models)
 
     @model_validator(mode="after")
-- 
2.43.0


From 9a77d04a2e53d54bfdc757b5e7dca9543df325cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 011/121] fix: accept token embedding sources whose model has a
 revision and an adapter

---
 mergekit/tokenizer/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/config.py b/mergekit/tokenizer/config.py
index ae35c10..d84e2c1 100644
--- a/mergekit/tokenizer/config.py
+++ b/mergekit/tokenizer/config.py
@@ -30,7 +30,9 @@ class ZeroEmbedding(BaseModel, frozen=True):
 
 
 class TokenEmbeddingConfig(BaseModel, frozen=True):
-    source: Union[ModelTokenEmbedding, ZeroEmbedding, ModelReference, None] = None
+    source: Union[ModelTokenEmbedding, ZeroEmbedding, ModelReference, None] = (
+        pydantic.Field(default=None, union_mode="left_to_right")
+    )
     force: bool = False
 
 
-- 
2.43.0


From e509eb2cbaee633586726b095ba7ec7ea338200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:43 +0000
Subject: [PATCH 012/121] fix: plan optional weights that have aliases

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index dcf01fc..f15957e 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -169,7 +169,7 @@ class MergePlanner:
                 index = LoaderCache().get(model).index
                 if any(
                     name in index.tensor_paths
-                    for name in [w_in.name] + (w_in.aliases or [])
+                    for name in [w_in.name] + list(w_in.aliases or ())
                 ):
                     any_weight = True
                     break
-- 
2.43.0


From 47f5c47ec498d7c54e3e01ab54b9893dcec42b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:43 +0000
Subject: [PATCH 013/121] fix: merge final weights from all sources of the last
 slice

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index f15957e..296c410 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -323,7 +323,7 @@ class MergePlanner:
         for weight_info in module_arch.post_weights():
             self.plan_tensor(
                 weight_info,
-                [weight_info] * len(definition.slices[0].sources),
+                [weight_info] * len(definition.slices[-1].sources),
                 [s.model for s in definition.slices[-1].sources],
                 config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(
                     definition.slices[-1]
-- 
2.43.0


From 31d11ac203c6ff3cb0948aa266bcde7ae1deee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:52 +0000
Subject: [PATCH 014/121] fix: linear merge of integer tensors with fractional
 weights

---
 mergekit/merge_methods/linear.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mergekit/merge_methods/linear.py b/mergekit/merge_methods/linear.py
index efe2a7f..be48bb5 100644
--- a/mergekit/merge_methods/linear.py
+++ b/mergekit/merge_methods/linear.py
@@ -46,6 +46,11 @@ class LinearMergeTask(Task[torch.Tensor]):
             )
 
         tensors = torch.stack(tensors, dim=0)
+        int_dtype = None
+        if not (tensors.is_floating_point() or tensors.is_complex()):
+            # fractional weights can't be represented in an integer type
+            int_dtype = tensors.dtype
+            tensors = tensors.to(torch.float64)
         weights = torch.tensor(weights, dtype=tensors.dtype, device=tensors.device)
         while len(weights.shape) < len(tensors.shape):
             weights.unsqueeze_(-1)
@@ -54,6 +59,8 @@ class LinearMergeTask(Task[torch.Tensor]):
         if self.normalize:
             res = res / weights.sum(dim=0)
 
+        if int_dtype is not None:
+            res = res.round().to(int_dtype)
         return res
 
     def group_label(self) -> Optional[str]:
-- 
2.43.0


From 8b67c06409f0b77bf27c4af6e3260bf4bb0b3708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:52 +0000
Subject: [PATCH 015/121] fix: keep the working data type in arcee_fusion

---
 mergekit/merge_methods/arcee_fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/arcee_fusion.py b/mergekit/merge_methods/arcee_fusion.py
index fb355d9..edcb7db 100644
--- a/mergekit/merge_methods/arcee_fusion.py
+++ b/mergekit/merge_methods/arcee_fusion.py
@@ -92,7 +92,7 @@ class ArceeFusionMergeTask(Task[torch.Tensor]):
         )
 
         delta = prepped_tensors[1] - prepped_tensors[0]
-        masked_delta = delta * fusion_mask
+        masked_delta = delta * fusion_mask.to(delta.dtype)
         fused = prepped_tensors[0] + masked_delta
 
         return fused
-- 
2.43.0


From 6cf3652ea8d9695ed6dabbfd118dfe65186a79e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:52 +0000
Subject: [PATCH 016/121] fix: keep the working data type in ramplus_tl

---
 mergekit/merge_methods/ram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/ram.py b/mergekit/merge_methods/ram.py
index 98f05eb..a91fe0d 100644
--- a/mergekit/merge_methods/ram.py
+++ b/mergekit/merge_methods/ram.py
@@ -72,7 +72,7 @@ def ramplus_tl_merge(
         + (tv_flat_z * overlap_mask / contrib_counts.clamp(min=1))
     ).sum(dim=0, keepdim=True)
     merged_tv = merged_tv_flat.reshape_as(base_tensor)
-    return base_tensor + merged_tv
+    return base_tensor + merged_tv.to(base_tensor.dtype)
 
 
 def _prepare_ram_vectors(
-- 
2.43.0


From f630c6dcff44595ef47dcbe837dc0c8abe9010af Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:16:50 +0000
Subject: [PATCH 017/121] fix: slerp of scalar tensors

---
 mergekit/merge_methods/slerp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/slerp.py b/mergekit/merge_methods/slerp.py
index 208cc25..05efe36 100644
--- a/mergekit/merge_methods/slerp.py
+++ b/mergekit/merge_methods/slerp.py
@@ -159,7 +159,8 @@ def slerp(
 
 def maybe_torch(v: np.ndarray, is_torch: bool):
     if is_torch:
-        return torch.from_numpy(v)
+        # arithmetic on 0-d arrays gives numpy scalars
+        return torch.from_numpy(np.asarray(v))
     return v
 
 
-- 
2.43.0


From d66a0d3a68dd5427e9edf01aa187dc2ce2509cd9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:16:50 +0000
Subject: [PATCH 018/121] fix: arcee_fusion of scalar and non-contiguous
 tensors

---
 mergekit/merge_methods/arcee_fusion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge_methods/arcee_fusion.py b/mergekit/merge_methods/arcee_fusion.py
index edcb7db..1c3060c 100644
--- a/mergekit/merge_methods/arcee_fusion.py
+++ b/mergekit/merge_methods/arcee_fusion.py
@@ -21,7 +21,7 @@ from mergekit.merge_methods.rectify_embed import rectify_embed_sizes
 class DynamicThresholdFusion:
     def approximate_quantiles(self, tensor, q):
         # Flatten the tensor
-        flat_tensor = tensor.view(-1)
+        flat_tensor = tensor.reshape(-1)
 
         # If tensor is too large, sample it
         if flat_tensor.numel() > 1e6:
@@ -103,8 +103,8 @@ class ArceeFusionMergeTask(Task[torch.Tensor]):
         diff = (params - base_params).abs()
         p = F.softmax(params, dim=-1) + eps
         q = F.softmax(base_params, dim=-1) + eps
-        kl_div = torch.sum(p * torch.log(p / q), dim=-1)
-        return diff * kl_div.unsqueeze(-1)
+        kl_div = torch.sum(p * torch.log(p / q), dim=-1, keepdim=params.dim() > 0)
+        return diff * kl_div
 
 
 class ArceeFusionMerge(MergeMethod):
-- 
2.43.0


From ece7db8da23dd9f0edb25e466a75fceb564e9e65 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:16:50 +0000
Subject: [PATCH 019/121] fix: model_stock of opposed task vectors and
 non-contiguous tensors

---
 mergekit/merge_methods/model_stock.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge_methods/model_stock.py b/mergekit/merge_methods/model_stock.py
index 3498579..098fae1 100644
--- a/mergekit/merge_methods/model_stock.py
+++ b/mergekit/merge_methods/model_stock.py
@@ -53,8 +53,8 @@ class ModelStockMergeTask(Task[torch.Tensor]):
                 w_0 = w_0.unsqueeze(0)
                 ws = [w.unsqueeze(0) for w in ws]
         else:
-            w_0 = w_0.view(-1)
-            ws = [w.view(-1) for w in ws]
+            w_0 = w_0.reshape(-1)
+            ws = [w.reshape(-1) for w in ws]
 
         offsets = [w - w_0 for w in ws]
 
@@ -79,7 +79,12 @@ class ModelStockMergeTask(Task[torch.Tensor]):
 
         cos_theta = torch.stack(cos_thetas).mean(dim=0).unsqueeze(-1)
         N = len(ws)
-        t = (N * cos_theta) / (1 + (N - 1) * cos_theta)
+        denominator = 1 + (N - 1) * cos_theta
+        # opposed task vectors have no common direction - keep the base weights
+        # instead of dividing by zero
+        singular = denominator.abs() < 1e-6
+        t = (N * cos_theta) / denominator.masked_fill(singular, 1)
+        t = t.masked_fill(singular, 0)
 
         w_avg = sum(ws) / len(ws)
         w_h = t * w_avg + (1 - t) * w_0
-- 
2.43.0


From 625fe7005803f008c8288c3bfcdd6e99ffb1ae63 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:16:50 +0000
Subject: [PATCH 020/121] fix: nuslerp of opposed vectors, of tensors with
 leading dimensions of one and of non-contiguous tensors

---
 mergekit/merge_methods/nuslerp.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mergekit/merge_methods/nuslerp.py b/mergekit/merge_methods/nuslerp.py
index efa0f7d..099c487 100644
--- a/mergekit/merge_methods/nuslerp.py
+++ b/mergekit/merge_methods/nuslerp.py
@@ -141,8 +141,8 @@ def nuslerp(
         return x / torch.norm(x, dim=-1, keepdim=True).clamp(min=eps)
 
     if flatten:
-        v0 = v0.view(-1)
-        v1 = v1.view(-1)
+        v0 = v0.reshape(-1)
+        v1 = v1.reshape(-1)
     elif dim != -1:
         v0 = v0.transpose(dim, -1)
         v1 = v1.transpose(dim, -1)
@@ -154,12 +154,15 @@ def nuslerp(
     theta = torch.acos(cos_theta.clamp(-1, 1))
     sin_theta = torch.sin(theta)
 
-    colinear = (sin_theta.abs() < eps).squeeze()
+    # opposed vectors are only recognizable up to the precision of the data type
+    colinear = (sin_theta.abs() < eps) | (
+        cos_theta.abs() > 1 - 2 * torch.finfo(cos_theta.dtype).eps
+    )
 
     res = (torch.sin((1 - t) * theta) * v0 + torch.sin(t * theta) * v1) / sin_theta
     # Use linear interpolation for (nearly) colinear vectors
-    res[colinear] = (1 - t) * v0[colinear] + t * v1[colinear]
+    res = torch.where(colinear, (1 - t) * v0 + t * v1, res)
 
     if dim != -1 and not flatten:
         res = res.transpose(dim, -1)
-    return res.view(out_shape)
+    return res.reshape(out_shape)
-- 
2.43.0


From 57d3a302558c14fc1077a78a4ef58579d30fe7e9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:16:50 +0000
Subject: [PATCH 021/121] fix: multislerp did not recognize opposed vectors
 because of rounding

---
 mergekit/merge_methods/multislerp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/multislerp.py b/mergekit/merge_methods/multislerp.py
index 0a10bc4..f3e27ad 100644
--- a/mergekit/merge_methods/multislerp.py
+++ b/mergekit/merge_methods/multislerp.py
@@ -55,11 +55,12 @@ def multislerp(
 
     # Project to unit hypersphere
     norms = torch.norm(tensors_flat, dim=-1, keepdim=True)
-    unit_tensors = tensors_flat / (norms + eps)
+    unit_tensors = tensors_flat / norms.clamp(min=eps)
 
     mean = (unit_tensors * weights.view(-1, 1)).sum(0)
     mean_norm = torch.norm(mean)
-    if mean_norm < eps:
+    # opposed vectors only cancel up to the precision of the data type
+    if mean_norm < max(eps, torch.finfo(tensors.dtype).eps):
         if tensors.shape[0] == 2:
             # fallback to linear interpolation
             res = (tensors[0] * weights[0] + tensors[1] * weights[1]).view(
-- 
2.43.0


From 9fba8a30d764f1c28c5ed1afa3ab92529bc1b3e2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:16:50 +0000
Subject: [PATCH 022/121] fix: karcher merge of embeddings of different sizes

---
 mergekit/merge_methods/karcher.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/karcher.py b/mergekit/merge_methods/karcher.py
index e15cc1c..95486ad 100644
--- a/mergekit/merge_methods/karcher.py
+++ b/mergekit/merge_methods/karcher.py
@@ -45,8 +45,7 @@ class KarcherTask(Task[torch.Tensor]):
         model_tensors = list(tensors.values())
 
         # Ensure all tensors have compatible shapes
-        for i in range(1, len(model_tensors)):
-            rectify_embed_sizes(self.weight_info, [model_tensors[0], model_tensors[i]])
+        rectify_embed_sizes(self.weight_info, model_tensors)
 
         # Calculate weights (equal by default)
         alphas = [1.0 / len(model_tensors)] * len(model_tensors)
-- 
2.43.0


From a6fa238a7a6dadd6c5dd85b9da6e7dff5004fcef Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 023/121] fix: magnitude_outliers dropped every entry when no
 outlier is removed

---
 mergekit/sparsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 13789e1..8e3140c 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -110,7 +110,7 @@ def magnitude_outliers(
     indices = torch.sort(w, descending=False).indices
     mask = torch.zeros_like(tensor)
 
-    mask.view(-1)[indices[n_bot:-n_top]] = 1
+    mask.view(-1)[indices[n_bot : num_elems - n_top]] = 1
 
     res = rescaled_masked_tensor(tensor, mask, rescale_norm)
     return res
-- 
2.43.0


From 733f9b356f2a7fad6934b3ebd4945d22a24b8d77 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 024/121] fix: della_magprune of tensors with a single element
 per row

---
 mergekit/sparsify.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 8e3140c..724f9dc 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -159,7 +159,7 @@ def della_magprune(
     )
 
     if len(tensor.shape) < 2:
-        tensor = tensor.unsqueeze(0)
+        tensor = tensor.reshape(1, -1)
     magnitudes = tensor.abs()
 
     sorted_indices = torch.argsort(magnitudes, dim=1, descending=False)
@@ -167,7 +167,11 @@ def della_magprune(
 
     min_ranks = ranks.min(dim=1, keepdim=True).values
     max_ranks = ranks.max(dim=1, keepdim=True).values
-    rank_norm = ((ranks - min_ranks) / (max_ranks - min_ranks)).clamp(0, 1)
+    if tensor.shape[1] > 1:
+        rank_norm = ((ranks - min_ranks) / (max_ranks - min_ranks)).clamp(0, 1)
+    else:
+        # rank carries no information for a single element
+        rank_norm = torch.full_like(ranks, 0.5)
     probs = (density - epsilon) + rank_norm * 2 * epsilon
     mask = torch.bernoulli(probs).to(work_dtype)
 
-- 
2.43.0


From 9428fd002122dc949884332e85d4da3ab915e1fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:23:17 +0000
Subject: [PATCH 025/121] fix: magnitude sparsification of non-contiguous
 tensors

---
 mergekit/sparsify.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 724f9dc..53b0335 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -63,8 +63,8 @@ def magnitude(
     k = int(density * tensor.numel())
 
     assert k > 0, "not gonna zero out the whole tensor buddy"
-    mask = torch.zeros_like(tensor)
-    w = tensor.abs().view(-1)
+    mask = torch.zeros_like(tensor, memory_format=torch.contiguous_format)
+    w = tensor.abs().reshape(-1)
     if w.device.type == "cpu":
         w = w.float()
     topk = torch.argsort(w, descending=True)[:k]
@@ -104,11 +104,11 @@ def magnitude_outliers(
         n_top += n_bot
         n_bot = 0
 
-    w = tensor.abs().view(-1)
+    w = tensor.abs().reshape(-1)
     if w.device.type == "cpu":
         w = w.float()
     indices = torch.sort(w, descending=False).indices
-    mask = torch.zeros_like(tensor)
+    mask = torch.zeros_like(tensor, memory_format=torch.contiguous_format)
 
     mask.view(-1)[indices[n_bot : num_elems - n_top]] = 1
 
-- 
2.43.0


From b6a3bba93007460dfb1225696213f8d17503e811 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:24:01 +0000
Subject: [PATCH 026/121] fix: pass tensors to merge methods in input order,
 base model first

---
 mergekit/merge_methods/easy_define.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index a0bdcb8..a2f1481 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -110,10 +110,9 @@ def __merge_method(
 
     tt_fields = {}
     tt_fields["gather_tensors"] = (MergeTensorInput, Field(...))
-    if ("base_model" in used_kwargs) or use_base_tensor_arg:
-        bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
-        field_kwargs = {"default": None} if not require_base_tensor else {}
-        tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
+    bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
+    field_kwargs = {"default": None} if not require_base_tensor else {}
+    tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
     if "output_weight" in used_kwargs:
         tt_fields["output_weight"] = (WeightInfo, Field(...))
     if parameters:
@@ -140,14 +139,12 @@ def __merge_method(
     tt_fields["uses_accelerator"] = _uses_accelerator
 
     def _execute(self, tensors: Dict[ModelReference, torch.Tensor], **_kwargs):
-        model_refs = set(tensors.keys())
+        model_refs = list(tensors.keys())
         base_model = getattr(self, "base_model", None)
         if base_model and base_model in model_refs:
             model_refs.remove(base_model)
             if not use_base_tensor_arg:
-                model_refs = [base_model] + list(model_refs)
-            else:
-                model_refs = list(model_refs)
+                model_refs = [base_model] + model_refs
         base_tensor = tensors.get(base_model, None)
         tensors = [tensors[key] for key in model_refs]
         inner_kwargs = {}
@@ -182,9 +179,7 @@ def __merge_method(
         base_model: Optional[ModelReference],
         **_kwargs,
     ) -> Task:
-        tt_kwargs = {"gather_tensors": tensors}
-        if "base_model" in tt_fields:
-            tt_kwargs["base_model"] = base_model
+        tt_kwargs = {"gather_tensors": tensors, "base_model": base_model}
         if "output_weight" in tt_fields:
             tt_kwargs["output_weight"] = output_weight
         if "parameters" in tt_fields:
-- 
2.43.0


From 15f23574e74eaf9f9aab6eca894985ed4862d1b7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:24:30 +0000
Subject: [PATCH 027/121] fix: sce with a selection that keeps no position
 returned a tensor of the wrong shape

---
 mergekit/merge_methods/sce.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mergekit/merge_methods/sce.py b/mergekit/merge_methods/sce.py
index 477e118..4f14e6b 100644
--- a/mergekit/merge_methods/sce.py
+++ b/mergekit/merge_methods/sce.py
@@ -56,17 +56,17 @@ def sce_mask(
     tvs: torch.Tensor, density: float, mask_dtype: Optional[torch.dtype] = None
 ):
     if density <= 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
     if density >= 1:
-        return torch.ones_like(tvs, dtype=mask_dtype)
+        return torch.ones_like(tvs[0], dtype=mask_dtype)
 
     var = torch.var(tvs, dim=0, unbiased=False)
     nonzero = torch.count_nonzero(var)
     k = int(nonzero * density)
     if k == 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
 
-    _, indices = torch.topk(var.abs().view(-1), k=k, largest=True)
-    mask = torch.zeros_like(var, dtype=mask_dtype)
+    _, indices = torch.topk(var.abs().reshape(-1), k=k, largest=True)
+    mask = torch.zeros_like(var, dtype=mask_dtype, memory_format=torch.contiguous_format)
     mask.view(-1)[indices] = 1
     return mask
-- 
2.43.0


From a5a93e092e443af81ac81cb9ae446f05dbeb7010 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:24:30 +0000
Subject: [PATCH 028/121] fix: sce weighting of scalar tensors and of small
 task vectors

---
 mergekit/merge_methods/sce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/sce.py b/mergekit/merge_methods/sce.py
index 4f14e6b..507e546 100644
--- a/mergekit/merge_methods/sce.py
+++ b/mergekit/merge_methods/sce.py
@@ -45,9 +45,9 @@ def sce_merge(
 
 
 def sce_weight(tvs: torch.Tensor) -> torch.Tensor:
-    weights = torch.mean(tvs**2, dim=list(range(1, tvs.dim())))
+    weights = torch.mean(tvs.reshape(tvs.shape[0], -1) ** 2, dim=1)
     weight_sum = torch.sum(weights).item()
-    if abs(weight_sum) < 1e-6:
+    if weight_sum < torch.finfo(weights.dtype).tiny:
         return torch.ones_like(weights) / weights.shape[0]
     return weights / weight_sum
 
-- 
2.43.0


From a23008788b2c258bb557c69db9f2756c64aebd24 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:28:47 +0000
Subject: [PATCH 029/121] fix: normalized task arithmetic in float16 with
 weights that sum to zero

---
 mergekit/merge_methods/generalized_task_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/generalized_task_arithmetic.py b/mergekit/merge_methods/generalized_task_arithmetic.py
index b421269..3649946 100644
--- a/mergekit/merge_methods/generalized_task_arithmetic.py
+++ b/mergekit/merge_methods/generalized_task_arithmetic.py
@@ -173,7 +173,7 @@ class GTATask(Task[torch.Tensor]):
         else:
             mixed_delta = weighted_deltas.sum(dim=0)
             divisor = weights.sum(dim=0)
-            divisor[divisor.abs() < 1e-8] = 1
+            divisor[divisor.abs().float() < 1e-8] = 1
 
         if self.normalize:
             mixed_delta /= divisor
-- 
2.43.0


From ea479544ebf72156dc8995f8f83b41a9bd2ce020 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:36:53 +0000
Subject: [PATCH 030/121] fix: tokenizer merge with a token whose index is
 beyond a model's embeddings

---
 mergekit/tokenizer/build.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 91a0c61..988b12e 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -262,6 +262,7 @@ def build_tokenizer(
                 LOG.warning(
                     f"{model} token {repr(tok)} has index {orig_idx}>{vocab_size - 1} (padding?)"
                 )
+                p[new_idx] = -1
                 continue
 
             p[new_idx] = orig_idx
-- 
2.43.0


From 4cb40abc5c31bc45228338f1b5a5e214c6027f56 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:36:53 +0000
Subject: [PATCH 031/121] fix: zero embeddings for tokens

---
 mergekit/tokenizer/embed.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 74dc93b..4d61bc6 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -130,7 +130,9 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 continue
 
             if num_present == 0:
-                token_configs[token] = TokenEmbeddingConfig(source=ZeroEmbedding())
+                token_configs[token] = TokenEmbeddingConfig(
+                    source=ZeroEmbedding(kind="zero")
+                )
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
@@ -152,7 +154,8 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         cfg: TokenEmbeddingConfig,
     ) -> torch.Tensor:
         if isinstance(cfg.source, ZeroEmbedding):
-            pass
+            some_tensor = next(iter(tensors.values()))
+            embed = torch.zeros_like(some_tensor[0])
         elif isinstance(cfg.source, ModelTokenEmbedding):
             model = cfg.source.model
             assert (
-- 
2.43.0


From bf0e144e8513fd5d9f20c965136e3d31b409b56e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:36:53 +0000
Subject: [PATCH 032/121] fix: tokenizer merge of slices that do not include
 the base model

---
 mergekit/tokenizer/embed.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 4d61bc6..6a4522c 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -33,10 +33,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         tokenizer = tokenizer_info.tokenizer
         permutations = tokenizer_info.permutations
 
-        models = set(tensors.keys())
-        if self.base_model:
-            models.add(self.base_model)
-        models = list(models)
+        models = list(tensors.keys())
 
         vocab = tokenizer.get_vocab()
         vocab_size = len(vocab)
@@ -136,7 +133,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
-            if num_present > 0 and self.base_model is not None:
+            if num_present > 0 and self.base_model in models:
                 if permutations[self.base_model][token_id] >= 0:
                     token_configs[token] = TokenEmbeddingConfig(source=self.base_model)
                     continue
-- 
2.43.0


From 04bba36f7efaebae84a7217df2a5e35ce1c52899 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:36:53 +0000
Subject: [PATCH 033/121] fix: order of new tokens in union tokenizers differed
 from run to run

---
 mergekit/tokenizer/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 988b12e..01d466b 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -121,7 +121,7 @@ def build_union_tokenizer(
         added_tokens = tokenizer.added_tokens_decoder
 
         vocab = tokenizer.get_vocab()
-        for tok, idx in vocab.items():
+        for tok, idx in sorted(vocab.items(), key=lambda kv: kv[1]):
             if idx >= vocab_size:
                 LOG.warning(
                     f"Token {repr(tok)} present in {str(model)} tokenizer but >= vocab_size"
-- 
2.43.0


From 98d1db7663ac179b28fb990e41248ff7d657df21 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:36:53 +0000
Subject: [PATCH 034/121] fix: drop merges that produce tokens removed from the
 tokenizer

---
 mergekit/tokenizer/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 01d466b..0e00438 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -91,7 +91,7 @@ def get_stripped_tokenizer(
             toks = m
         else:
             raise RuntimeError(f"Unexpected merge format: {repr(m)} ({type(m)})")
-        for tok in toks:
+        for tok in [*toks, "".join(toks)]:
             if tok in unused_toks:
                 return False
         return True
-- 
2.43.0


From 58b59278ccec0aa8f024c787c1a7873dcd06971c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:37:24 +0000
Subject: [PATCH 035/121] fix: tokens added to the output tokenizer were taken
 for tokens of the base model

---
 mergekit/tokenizer/build.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 0e00438..e853cd9 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -222,8 +222,10 @@ def build_tokenizer(
             trust_remote_code=trust_remote_code,
         )
     elif tokenizer_source == "base":
-        # it done
-        tokenizer_out = tokenizer_base
+        # separate copy, as tokens may be added to it
+        tokenizer_out = get_stripped_tokenizer(
+            base_model.model, trust_remote_code=trust_remote_code
+        )
     elif tokenizer_source == "union":
         tokenizer_out = build_union_tokenizer(
             tokenizer_base, tokenizers, trust_remote_code=trust_remote_code
-- 
2.43.0


From 10053c1aa278798995138f7c8091232aba208264 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:37:24 +0000
Subject: [PATCH 036/121] fix: take a token from a model that is assumed to
 share the base tokenizer

---
 mergekit/tokenizer/build.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index e853cd9..835540f 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -276,7 +276,10 @@ def build_tokenizer(
     return TokenizerInfo(
         tokenizer=tokenizer_out,
         permutations=permutations,
-        original_vocabs={model: tok.get_vocab() for model, tok in tokenizers.items()},
+        original_vocabs={
+            model: tokenizers.get(model, tokenizer_base).get_vocab()
+            for model in [*tokenizers, *referenced_models]
+        },
     )
 
 
-- 
2.43.0


From fafc8807da6f7d007eac968338a8a466b2dfb254 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:42:57 +0000
Subject: [PATCH 037/121] fix: keep layer types in step with the number of
 layers of the output

---
 mergekit/merge.py | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 5c3a7ea..acaaf5a 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -15,8 +15,8 @@ import transformers
 from mergekit._data import chat_templates
 from mergekit.architecture import ModelArchitecture, get_architecture_info
 from mergekit.card import generate_card
-from mergekit.common import ModelReference, set_config_value
-from mergekit.config import MergeConfiguration
+from mergekit.common import ModelReference, get_config_value, set_config_value
+from mergekit.config import MergeConfiguration, OutputSliceDefinition
 from mergekit.graph import Executor
 from mergekit.io.tasks import LoaderCache
 from mergekit.multigpu_executor import MultiGPUExecutor
@@ -295,10 +295,12 @@ def _model_out_config(
         res.torch_dtype = config.dtype
 
     module_layers = {}
+    module_slices = {}
     for module_name in arch_info.modules:
         if config.modules and module_name in config.modules:
             module_def = config.modules.get(module_name)
             if module_def and module_def.slices:
+                module_slices[module_name] = module_def.slices
                 module_layers[module_name] = sum(
                     [
                         s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
@@ -306,6 +308,7 @@ def _model_out_config(
                     ]
                 )
         elif config.slices:
+            module_slices[module_name] = config.slices
             module_layers[module_name] = sum(
                 [
                     s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
@@ -331,6 +334,12 @@ def _model_out_config(
                 continue
             try:
                 set_config_value(res, cfg_key, module_layers[module_name])
+                _update_layer_types(
+                    res,
+                    cfg_key,
+                    module_slices[module_name],
+                    trust_remote_code=trust_remote_code,
+                )
             except Exception as e:
                 LOG.warning(
                     f"Unable to set number of layers for module {module_name} in output config "
@@ -341,6 +350,30 @@ def _model_out_config(
     return res
 
 
+def _update_layer_types(
+    config: transformers.PretrainedConfig,
+    num_layers_key: str,
+    slices: List[OutputSliceDefinition],
+    trust_remote_code: bool = False,
+):
+    """Set the per-layer attention types to those of the layers in the output."""
+    prefix, _, _ = num_layers_key.rpartition(".")
+    key = f"{prefix}.layer_types" if prefix else "layer_types"
+    try:
+        if not get_config_value(config, key):
+            return
+    except RuntimeError:
+        return
+
+    layer_types = []
+    for s in slices:
+        source = s.sources[0]
+        start, end = source.layer_range
+        source_config = source.model.config(trust_remote_code=trust_remote_code)
+        layer_types.extend(get_config_value(source_config, key)[start:end])
+    set_config_value(config, key, layer_types)
+
+
 def _update_config_vocab(
     config: transformers.PretrainedConfig,
     arch_info: ModelArchitecture,
-- 
2.43.0


From 4a5446a68e9f9529fc02902beac694dcd68ff0c4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:51:00 +0000
Subject: [PATCH 038/121] fix: query and key norms were lost in merges of OLMo
 2 models

---
 mergekit/_data/architectures/olmo2.json | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/_data/architectures/olmo2.json b/mergekit/_data/architectures/olmo2.json
index 1360496..d14aef3 100644
--- a/mergekit/_data/architectures/olmo2.json
+++ b/mergekit/_data/architectures/olmo2.json
@@ -15,9 +15,15 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
-- 
2.43.0


From f66a79d4d263c112b6246517037f0d659904d795 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:51:00 +0000
Subject: [PATCH 039/121] fix: prediction head transform was lost in merges of
 BERT masked language models

---
 .../_data/architectures/bert-masked-lm.json   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/mergekit/_data/architectures/bert-masked-lm.json b/mergekit/_data/architectures/bert-masked-lm.json
index d6430e4..84d8c5d 100644
--- a/mergekit/_data/architectures/bert-masked-lm.json
+++ b/mergekit/_data/architectures/bert-masked-lm.json
@@ -34,10 +34,30 @@
     ],
     "post_weights": [
         {
-            "name": "bert.pooler.dense.weight"
+            "name": "bert.pooler.dense.weight",
+            "optional": true
         },
         {
-            "name": "bert.pooler.dense.bias"
+            "name": "bert.pooler.dense.bias",
+            "optional": true
+        },
+        {
+            "name": "cls.predictions.transform.dense.weight"
+        },
+        {
+            "name": "cls.predictions.transform.dense.bias"
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.weight",
+            "aliases": [
+                "cls.predictions.transform.LayerNorm.gamma"
+            ]
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.bias",
+            "aliases": [
+                "cls.predictions.transform.LayerNorm.beta"
+            ]
         },
         {
             "name": "cls.predictions.bias"
-- 
2.43.0


From cb2ff829b5774418ec9a982d42a888c8e456e370 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:51:26 +0000
Subject: [PATCH 040/121] fix: biases and norms that a configuration switches
 on were lost in merges

---
 .../_data/architectures/afmoe_partial.json    | 16 +++++++++++
 mergekit/_data/architectures/apertus.json     | 16 +++++++++++
 mergekit/_data/architectures/arcee.json       | 24 ++++++++++++++++
 mergekit/_data/architectures/cohere.json      | 16 +++++++++++
 mergekit/_data/architectures/cohere2.json     | 16 +++++++++++
 mergekit/_data/architectures/falcon.json      | 16 +++++++++++
 mergekit/_data/architectures/gemma.json       | 24 ++++++++++++++++
 mergekit/_data/architectures/gemma2.json      | 16 +++++++++++
 mergekit/_data/architectures/gemma3.json      | 16 +++++++++++
 mergekit/_data/architectures/lfm2.json        | 12 ++++++++
 .../llama-sequence-classification.json        | 28 +++++++++++++++++++
 mergekit/_data/architectures/llama.json       | 28 +++++++++++++++++++
 mergekit/_data/architectures/llama4.json      | 16 +++++++++++
 mergekit/_data/architectures/mamba.json       |  8 ++++++
 mergekit/_data/architectures/mistral3.json    |  8 ++++++
 mergekit/_data/architectures/olmo2.json       | 16 +++++++++++
 mergekit/_data/architectures/phi2.json        | 16 +++++++++++
 mergekit/_data/architectures/qwen3.json       | 16 +++++++++++
 mergekit/_data/architectures/qwen3_moe.json   | 16 +++++++++++
 mergekit/_data/architectures/qwen3_vl.json    | 16 +++++++++++
 .../_data/architectures/qwen3_vl_dense.json   | 16 +++++++++++
 .../architectures/roberta-masked-lm.json      |  7 +++++
 22 files changed, 363 insertions(+)

diff --git a/mergekit/_data/architectures/afmoe_partial.json b/mergekit/_data/architectures/afmoe_partial.json
index e8a418b..6066180 100644
--- a/mergekit/_data/architectures/afmoe_partial.json
+++ b/mergekit/_data/architectures/afmoe_partial.json
@@ -72,18 +72,34 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.gate_proj.weight"
             },
diff --git a/mergekit/_data/architectures/apertus.json b/mergekit/_data/architectures/apertus.json
index 4b6d90a..7e74bfb 100644
--- a/mergekit/_data/architectures/apertus.json
+++ b/mergekit/_data/architectures/apertus.json
@@ -55,17 +55,33 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/arcee.json b/mergekit/_data/architectures/arcee.json
index 2a1088a..5b17e15 100644
--- a/mergekit/_data/architectures/arcee.json
+++ b/mergekit/_data/architectures/arcee.json
@@ -31,23 +31,47 @@
             {
                 "name": "model.layers.${layer_index}.mlp.down_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.down_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.up_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.up_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/cohere.json b/mergekit/_data/architectures/cohere.json
index 7b36cab..b87061b 100644
--- a/mergekit/_data/architectures/cohere.json
+++ b/mergekit/_data/architectures/cohere.json
@@ -40,17 +40,33 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/cohere2.json b/mergekit/_data/architectures/cohere2.json
index 755e7db..ce48232 100644
--- a/mergekit/_data/architectures/cohere2.json
+++ b/mergekit/_data/architectures/cohere2.json
@@ -25,15 +25,31 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.gate_proj.weight"
             },
diff --git a/mergekit/_data/architectures/falcon.json b/mergekit/_data/architectures/falcon.json
index 648dab0..e150f01 100644
--- a/mergekit/_data/architectures/falcon.json
+++ b/mergekit/_data/architectures/falcon.json
@@ -39,14 +39,30 @@
             {
                 "name": "transformer.h.${layer_index}.mlp.dense_4h_to_h.weight"
             },
+            {
+                "name": "transformer.h.${layer_index}.mlp.dense_4h_to_h.bias",
+                "optional": true
+            },
             {
                 "name": "transformer.h.${layer_index}.mlp.dense_h_to_4h.weight"
             },
+            {
+                "name": "transformer.h.${layer_index}.mlp.dense_h_to_4h.bias",
+                "optional": true
+            },
             {
                 "name": "transformer.h.${layer_index}.self_attention.dense.weight"
             },
+            {
+                "name": "transformer.h.${layer_index}.self_attention.dense.bias",
+                "optional": true
+            },
             {
                 "name": "transformer.h.${layer_index}.self_attention.query_key_value.weight"
+            },
+            {
+                "name": "transformer.h.${layer_index}.self_attention.query_key_value.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/gemma.json b/mergekit/_data/architectures/gemma.json
index 43dbe27..0db6653 100644
--- a/mergekit/_data/architectures/gemma.json
+++ b/mergekit/_data/architectures/gemma.json
@@ -22,21 +22,37 @@
                 "input_space": "h_${layer_index}",
                 "output_space": "attn_qk_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "input_space": "h_${layer_index}",
                 "output_space": "attn_qk_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "input_space": "h_${layer_index}",
                 "output_space": "attn_v_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "input_space": "attn_v_${layer_index}",
                 "output_space": "post_attn_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
                 "input_space": "h_a_${layer_index}"
@@ -80,6 +96,14 @@
         {
             "name": "model.norm.weight",
             "input_space": "h_${num_layers}"
+        },
+        {
+            "name": "lm_head.weight",
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         }
     ]
 }
diff --git a/mergekit/_data/architectures/gemma2.json b/mergekit/_data/architectures/gemma2.json
index 5250524..76f4049 100644
--- a/mergekit/_data/architectures/gemma2.json
+++ b/mergekit/_data/architectures/gemma2.json
@@ -18,15 +18,31 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
diff --git a/mergekit/_data/architectures/gemma3.json b/mergekit/_data/architectures/gemma3.json
index 787fd04..e8ed110 100644
--- a/mergekit/_data/architectures/gemma3.json
+++ b/mergekit/_data/architectures/gemma3.json
@@ -18,21 +18,37 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
diff --git a/mergekit/_data/architectures/lfm2.json b/mergekit/_data/architectures/lfm2.json
index d383d93..6c3cb85 100644
--- a/mergekit/_data/architectures/lfm2.json
+++ b/mergekit/_data/architectures/lfm2.json
@@ -43,14 +43,26 @@
                 "name": "model.layers.${layer_index}.conv.conv.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.conv.conv.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.conv.in_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.conv.in_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.conv.out_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.conv.out_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_layernorm.weight",
                 "optional": true
diff --git a/mergekit/_data/architectures/llama-sequence-classification.json b/mergekit/_data/architectures/llama-sequence-classification.json
index 7c73d12..9a295e2 100644
--- a/mergekit/_data/architectures/llama-sequence-classification.json
+++ b/mergekit/_data/architectures/llama-sequence-classification.json
@@ -24,6 +24,10 @@
                 "head_split": "output",
                 "is_kq": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "input_space": "running_residual",
@@ -31,18 +35,30 @@
                 "head_split": "output",
                 "is_kq": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "input_space": "running_residual",
                 "output_space": "attn_v_${layer_index}",
                 "head_split": "output"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "input_space": "attn_v_${layer_index}",
                 "output_space": "running_residual",
                 "head_split": "input"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
                 "input_space": "running_residual"
@@ -52,15 +68,27 @@
                 "input_space": "running_residual",
                 "output_space": "up_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.up_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.gate_proj.weight",
                 "input_space": "running_residual",
                 "output_space": "up_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.gate_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.down_proj.weight",
                 "input_space": "up_${layer_index}",
                 "output_space": "running_residual"
+            },
+            {
+                "name": "model.layers.${layer_index}.mlp.down_proj.bias",
+                "optional": true
             }
         ]
     },
diff --git a/mergekit/_data/architectures/llama.json b/mergekit/_data/architectures/llama.json
index 00918a2..f2dfdf1 100644
--- a/mergekit/_data/architectures/llama.json
+++ b/mergekit/_data/architectures/llama.json
@@ -25,6 +25,10 @@
                 "head_split": "output",
                 "is_kq": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "input_space": "running_residual",
@@ -32,18 +36,30 @@
                 "head_split": "output",
                 "is_kq": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "input_space": "running_residual",
                 "output_space": "attn_v_${layer_index}",
                 "head_split": "output"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "input_space": "attn_v_${layer_index}",
                 "output_space": "running_residual",
                 "head_split": "input"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
                 "input_space": "running_residual"
@@ -53,15 +69,27 @@
                 "input_space": "running_residual",
                 "output_space": "up_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.up_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.gate_proj.weight",
                 "input_space": "running_residual",
                 "output_space": "up_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.gate_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.down_proj.weight",
                 "input_space": "up_${layer_index}",
                 "output_space": "running_residual"
+            },
+            {
+                "name": "model.layers.${layer_index}.mlp.down_proj.bias",
+                "optional": true
             }
         ]
     },
diff --git a/mergekit/_data/architectures/llama4.json b/mergekit/_data/architectures/llama4.json
index 0edd874..2404b64 100644
--- a/mergekit/_data/architectures/llama4.json
+++ b/mergekit/_data/architectures/llama4.json
@@ -30,15 +30,31 @@
                         {
                             "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
                         },
diff --git a/mergekit/_data/architectures/mamba.json b/mergekit/_data/architectures/mamba.json
index 1c47353..71e89a7 100644
--- a/mergekit/_data/architectures/mamba.json
+++ b/mergekit/_data/architectures/mamba.json
@@ -46,9 +46,17 @@
             {
                 "name": "backbone.layers.${layer_index}.mixer.in_proj.weight"
             },
+            {
+                "name": "backbone.layers.${layer_index}.mixer.in_proj.bias",
+                "optional": true
+            },
             {
                 "name": "backbone.layers.${layer_index}.mixer.out_proj.weight"
             },
+            {
+                "name": "backbone.layers.${layer_index}.mixer.out_proj.bias",
+                "optional": true
+            },
             {
                 "name": "backbone.layers.${layer_index}.mixer.x_proj.weight"
             },
diff --git a/mergekit/_data/architectures/mistral3.json b/mergekit/_data/architectures/mistral3.json
index f39fc7c..f9c2baf 100644
--- a/mergekit/_data/architectures/mistral3.json
+++ b/mergekit/_data/architectures/mistral3.json
@@ -77,9 +77,17 @@
                     {
                         "name": "linear_1.weight"
                     },
+                    {
+                        "name": "linear_1.bias",
+                        "optional": true
+                    },
                     {
                         "name": "linear_2.weight"
                     },
+                    {
+                        "name": "linear_2.bias",
+                        "optional": true
+                    },
                     {
                         "name": "norm.weight"
                     },
diff --git a/mergekit/_data/architectures/olmo2.json b/mergekit/_data/architectures/olmo2.json
index d14aef3..48832b8 100644
--- a/mergekit/_data/architectures/olmo2.json
+++ b/mergekit/_data/architectures/olmo2.json
@@ -15,21 +15,37 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
diff --git a/mergekit/_data/architectures/phi2.json b/mergekit/_data/architectures/phi2.json
index f509e51..6b5145b 100644
--- a/mergekit/_data/architectures/phi2.json
+++ b/mergekit/_data/architectures/phi2.json
@@ -68,6 +68,22 @@
             },
             {
                 "name": "model.layers.${layer_index}.mlp.fc2.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_layernorm.weight",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_layernorm.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_layernorm.weight",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_layernorm.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/qwen3.json b/mergekit/_data/architectures/qwen3.json
index 917f287..5273bcb 100644
--- a/mergekit/_data/architectures/qwen3.json
+++ b/mergekit/_data/architectures/qwen3.json
@@ -46,17 +46,33 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/qwen3_moe.json b/mergekit/_data/architectures/qwen3_moe.json
index 1c7d849..37d6db2 100644
--- a/mergekit/_data/architectures/qwen3_moe.json
+++ b/mergekit/_data/architectures/qwen3_moe.json
@@ -46,17 +46,33 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/qwen3_vl.json b/mergekit/_data/architectures/qwen3_vl.json
index a257dbf..6862620 100644
--- a/mergekit/_data/architectures/qwen3_vl.json
+++ b/mergekit/_data/architectures/qwen3_vl.json
@@ -60,17 +60,33 @@
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.k_proj.weight"
                         },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.k_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.q_norm.weight"
                         },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.q_proj.weight"
                         },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.q_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.v_proj.weight"
                         },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.v_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.o_proj.weight"
+                        },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.o_proj.bias",
+                            "optional": true
                         }
                     ]
                 }
diff --git a/mergekit/_data/architectures/qwen3_vl_dense.json b/mergekit/_data/architectures/qwen3_vl_dense.json
index 4e46477..aa5fbba 100644
--- a/mergekit/_data/architectures/qwen3_vl_dense.json
+++ b/mergekit/_data/architectures/qwen3_vl_dense.json
@@ -60,17 +60,33 @@
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.k_proj.weight"
                         },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.k_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.o_proj.weight"
                         },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.o_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.q_norm.weight"
                         },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.q_proj.weight"
                         },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.q_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.language_model.layers.${layer_index}.self_attn.v_proj.weight"
+                        },
+                        {
+                            "name": "model.language_model.layers.${layer_index}.self_attn.v_proj.bias",
+                            "optional": true
                         }
                     ]
                 }
diff --git a/mergekit/_data/architectures/roberta-masked-lm.json b/mergekit/_data/architectures/roberta-masked-lm.json
index 1aae76a..681616d 100644
--- a/mergekit/_data/architectures/roberta-masked-lm.json
+++ b/mergekit/_data/architectures/roberta-masked-lm.json
@@ -49,6 +49,13 @@
             "tied_names": [
                 "roberta.embeddings.word_embeddings.weight"
             ]
+        },
+        {
+            "name": "lm_head.decoder.bias",
+            "optional": true,
+            "tied_names": [
+                "lm_head.bias"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
-- 
2.43.0


From 2a6b1be35cddb5840e5c4bacebc4cb9c651c4d58 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:51:26 +0000
Subject: [PATCH 041/121] fix: models whose configuration leaves out some of
 the listed tensors could not be merged

---
 mergekit/_data/architectures/cohere.json      |  6 ++--
 mergekit/_data/architectures/falcon.json      | 34 ++++++++++++++++---
 mergekit/_data/architectures/gpt-neox.json    | 21 ++++++++----
 .../architectures/granite4moehybrid.json      |  9 +++--
 mergekit/_data/architectures/mamba.json       |  3 +-
 mergekit/_data/architectures/phi2.json        |  6 +++-
 mergekit/_data/architectures/phi3.json        |  6 +++-
 mergekit/_data/architectures/stablelm2.json   | 12 +++++--
 mergekit/_data/architectures/starcoder2.json  | 18 ++++++----
 mergekit/_data/architectures/t5.json          | 20 ++++++++---
 10 files changed, 103 insertions(+), 32 deletions(-)

diff --git a/mergekit/_data/architectures/cohere.json b/mergekit/_data/architectures/cohere.json
index b87061b..9cdbab2 100644
--- a/mergekit/_data/architectures/cohere.json
+++ b/mergekit/_data/architectures/cohere.json
@@ -35,7 +35,8 @@
                 "name": "model.layers.${layer_index}.mlp.up_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
@@ -45,7 +46,8 @@
                 "optional": true
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
diff --git a/mergekit/_data/architectures/falcon.json b/mergekit/_data/architectures/falcon.json
index e150f01..9433b21 100644
--- a/mergekit/_data/architectures/falcon.json
+++ b/mergekit/_data/architectures/falcon.json
@@ -18,23 +18,47 @@
         },
         {
             "name": "lm_head.weight",
-            "is_embed": true
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "transformer.word_embeddings.weight"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
     "layer_templates": {
         "weights": [
             {
-                "name": "transformer.h.${layer_index}.ln_attn.bias"
+                "name": "transformer.h.${layer_index}.ln_attn.bias",
+                "optional": true
             },
             {
-                "name": "transformer.h.${layer_index}.ln_attn.weight"
+                "name": "transformer.h.${layer_index}.ln_attn.weight",
+                "optional": true
             },
             {
-                "name": "transformer.h.${layer_index}.ln_mlp.bias"
+                "name": "transformer.h.${layer_index}.ln_mlp.bias",
+                "optional": true
             },
             {
-                "name": "transformer.h.${layer_index}.ln_mlp.weight"
+                "name": "transformer.h.${layer_index}.ln_mlp.weight",
+                "optional": true
+            },
+            {
+                "name": "transformer.h.${layer_index}.input_layernorm.bias",
+                "optional": true
+            },
+            {
+                "name": "transformer.h.${layer_index}.input_layernorm.weight",
+                "optional": true
+            },
+            {
+                "name": "transformer.h.${layer_index}.post_attention_layernorm.bias",
+                "optional": true
+            },
+            {
+                "name": "transformer.h.${layer_index}.post_attention_layernorm.weight",
+                "optional": true
             },
             {
                 "name": "transformer.h.${layer_index}.mlp.dense_4h_to_h.weight"
diff --git a/mergekit/_data/architectures/gpt-neox.json b/mergekit/_data/architectures/gpt-neox.json
index e8bf29a..f36e207 100644
--- a/mergekit/_data/architectures/gpt-neox.json
+++ b/mergekit/_data/architectures/gpt-neox.json
@@ -18,7 +18,11 @@
         },
         {
             "name": "embed_out.weight",
-            "is_embed": true
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "gpt_neox.embed_in.weight"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
@@ -28,13 +32,15 @@
                 "name": "gpt_neox.layers.${layer_index}.attention.dense.weight"
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.dense.bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.dense.bias",
+                "optional": true
             },
             {
                 "name": "gpt_neox.layers.${layer_index}.attention.query_key_value.weight"
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.query_key_value.bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.query_key_value.bias",
+                "optional": true
             },
             {
                 "name": "gpt_neox.layers.${layer_index}.input_layernorm.weight"
@@ -61,13 +67,16 @@
                 "name": "gpt_neox.layers.${layer_index}.post_attention_layernorm.bias"
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.bias",
+                "optional": true
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.masked_bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.masked_bias",
+                "optional": true
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.rotary_emb.inv_freq"
+                "name": "gpt_neox.layers.${layer_index}.attention.rotary_emb.inv_freq",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/granite4moehybrid.json b/mergekit/_data/architectures/granite4moehybrid.json
index 1ef6c64..5b14eee 100644
--- a/mergekit/_data/architectures/granite4moehybrid.json
+++ b/mergekit/_data/architectures/granite4moehybrid.json
@@ -35,13 +35,16 @@
                 "name": "model.layers.${layer_index}.shared_mlp.output_linear.weight"
             },
             {
-                "name": "model.layers.${layer_index}.block_sparse_moe.input_linear.weight"
+                "name": "model.layers.${layer_index}.block_sparse_moe.input_linear.weight",
+                "optional": true
             },
             {
-                "name": "model.layers.${layer_index}.block_sparse_moe.router.layer.weight"
+                "name": "model.layers.${layer_index}.block_sparse_moe.router.layer.weight",
+                "optional": true
             },
             {
-                "name": "model.layers.${layer_index}.block_sparse_moe.output_linear.weight"
+                "name": "model.layers.${layer_index}.block_sparse_moe.output_linear.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
diff --git a/mergekit/_data/architectures/mamba.json b/mergekit/_data/architectures/mamba.json
index 71e89a7..2637364 100644
--- a/mergekit/_data/architectures/mamba.json
+++ b/mergekit/_data/architectures/mamba.json
@@ -29,7 +29,8 @@
                 "name": "backbone.layers.${layer_index}.mixer.A_log"
             },
             {
-                "name": "backbone.layers.${layer_index}.mixer.conv1d.bias"
+                "name": "backbone.layers.${layer_index}.mixer.conv1d.bias",
+                "optional": true
             },
             {
                 "name": "backbone.layers.${layer_index}.mixer.conv1d.weight"
diff --git a/mergekit/_data/architectures/phi2.json b/mergekit/_data/architectures/phi2.json
index 6b5145b..6856b3d 100644
--- a/mergekit/_data/architectures/phi2.json
+++ b/mergekit/_data/architectures/phi2.json
@@ -15,7 +15,11 @@
         },
         {
             "name": "lm_head.weight",
-            "is_embed": true
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         },
         {
             "name": "model.final_layernorm.bias"
diff --git a/mergekit/_data/architectures/phi3.json b/mergekit/_data/architectures/phi3.json
index 6c606b8..6dd68b3 100644
--- a/mergekit/_data/architectures/phi3.json
+++ b/mergekit/_data/architectures/phi3.json
@@ -12,7 +12,11 @@
     "post_weights": [
         {
             "name": "lm_head.weight",
-            "is_embed": true
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         },
         {
             "name": "model.norm.weight"
diff --git a/mergekit/_data/architectures/stablelm2.json b/mergekit/_data/architectures/stablelm2.json
index d2d2f46..89b5a39 100644
--- a/mergekit/_data/architectures/stablelm2.json
+++ b/mergekit/_data/architectures/stablelm2.json
@@ -18,7 +18,11 @@
         },
         {
             "name": "lm_head.weight",
-            "is_embed": true
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
@@ -40,10 +44,12 @@
                 "name": "model.layers.${layer_index}.mlp.up_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
+                "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
+                "optional": true
             },
             {
-                "name": "model.layers.${layer_index}.post_attention_layernorm.bias"
+                "name": "model.layers.${layer_index}.post_attention_layernorm.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
diff --git a/mergekit/_data/architectures/starcoder2.json b/mergekit/_data/architectures/starcoder2.json
index c226689..90abd3f 100644
--- a/mergekit/_data/architectures/starcoder2.json
+++ b/mergekit/_data/architectures/starcoder2.json
@@ -35,25 +35,29 @@
                 "name": "model.layers.${layer_index}.input_layernorm.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.q_proj.bias"
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.k_proj.bias"
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.v_proj.bias"
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.o_proj.bias"
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
@@ -65,13 +69,15 @@
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
             {
-                "name": "model.layers.${layer_index}.mlp.c_fc.bias"
+                "name": "model.layers.${layer_index}.mlp.c_fc.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.mlp.c_fc.weight"
             },
             {
-                "name": "model.layers.${layer_index}.mlp.c_proj.bias"
+                "name": "model.layers.${layer_index}.mlp.c_proj.bias",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.mlp.c_proj.weight"
diff --git a/mergekit/_data/architectures/t5.json b/mergekit/_data/architectures/t5.json
index 9ed8a7b..cfea735 100644
--- a/mergekit/_data/architectures/t5.json
+++ b/mergekit/_data/architectures/t5.json
@@ -59,10 +59,16 @@
                             "name": "decoder.block.${layer_index}.layer.1.layer_norm.weight"
                         },
                         {
-                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi_0.weight"
+                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi.weight",
+                            "optional": true
                         },
                         {
-                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi_1.weight"
+                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi_0.weight",
+                            "optional": true
+                        },
+                        {
+                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi_1.weight",
+                            "optional": true
                         },
                         {
                             "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wo.weight"
@@ -118,10 +124,16 @@
                             "optional": true
                         },
                         {
-                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi_0.weight"
+                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi.weight",
+                            "optional": true
                         },
                         {
-                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi_1.weight"
+                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi_0.weight",
+                            "optional": true
+                        },
+                        {
+                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi_1.weight",
+                            "optional": true
                         },
                         {
                             "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wo.weight"
-- 
2.43.0


From 2de9356636e5dcc8350d9b6f79041fc1ab357e9f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:51:26 +0000
Subject: [PATCH 042/121] fix: tensor names of DistilBertModel and RobertaModel

---
 mergekit/_data/architectures/distilbert.json | 100 +++++++++++++----
 mergekit/_data/architectures/roberta.json    | 112 +++++++++++++++----
 2 files changed, 168 insertions(+), 44 deletions(-)

diff --git a/mergekit/_data/architectures/distilbert.json b/mergekit/_data/architectures/distilbert.json
index bd99716..e585b97 100644
--- a/mergekit/_data/architectures/distilbert.json
+++ b/mergekit/_data/architectures/distilbert.json
@@ -5,21 +5,31 @@
     ],
     "pre_weights": [
         {
-            "name": "distilbert.embeddings.position_embeddings.weight"
+            "name": "embeddings.position_embeddings.weight",
+            "aliases": [
+                "distilbert.embeddings.position_embeddings.weight"
+            ]
         },
         {
-            "name": "distilbert.embeddings.word_embeddings.weight",
-            "is_embed": true
+            "name": "embeddings.word_embeddings.weight",
+            "is_embed": true,
+            "aliases": [
+                "distilbert.embeddings.word_embeddings.weight"
+            ]
         },
         {
-            "name": "distilbert.embeddings.LayerNorm.bias",
+            "name": "embeddings.LayerNorm.bias",
             "aliases": [
+                "embeddings.LayerNorm.beta",
+                "distilbert.embeddings.LayerNorm.bias",
                 "distilbert.embeddings.LayerNorm.beta"
             ]
         },
         {
-            "name": "distilbert.embeddings.LayerNorm.weight",
+            "name": "embeddings.LayerNorm.weight",
             "aliases": [
+                "embeddings.LayerNorm.gamma",
+                "distilbert.embeddings.LayerNorm.weight",
                 "distilbert.embeddings.LayerNorm.gamma"
             ]
         }
@@ -29,52 +39,100 @@
     "layer_templates": {
         "weights": [
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.k_lin.weight"
+                "name": "transformer.layer.${layer_index}.attention.k_lin.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.k_lin.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.k_lin.bias"
+                "name": "transformer.layer.${layer_index}.attention.k_lin.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.k_lin.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.q_lin.weight"
+                "name": "transformer.layer.${layer_index}.attention.q_lin.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.q_lin.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.q_lin.bias"
+                "name": "transformer.layer.${layer_index}.attention.q_lin.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.q_lin.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.v_lin.weight"
+                "name": "transformer.layer.${layer_index}.attention.v_lin.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.v_lin.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.v_lin.bias"
+                "name": "transformer.layer.${layer_index}.attention.v_lin.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.v_lin.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.out_lin.weight"
+                "name": "transformer.layer.${layer_index}.attention.out_lin.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.out_lin.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.out_lin.bias"
+                "name": "transformer.layer.${layer_index}.attention.out_lin.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.out_lin.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.sa_layer_norm.bias"
+                "name": "transformer.layer.${layer_index}.sa_layer_norm.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.sa_layer_norm.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.sa_layer_norm.weight"
+                "name": "transformer.layer.${layer_index}.sa_layer_norm.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.sa_layer_norm.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.ffn.lin1.weight"
+                "name": "transformer.layer.${layer_index}.ffn.lin1.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.ffn.lin1.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.ffn.lin1.bias"
+                "name": "transformer.layer.${layer_index}.ffn.lin1.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.ffn.lin1.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.ffn.lin2.weight"
+                "name": "transformer.layer.${layer_index}.ffn.lin2.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.ffn.lin2.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.ffn.lin2.bias"
+                "name": "transformer.layer.${layer_index}.ffn.lin2.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.ffn.lin2.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.output_layer_norm.bias"
+                "name": "transformer.layer.${layer_index}.output_layer_norm.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.output_layer_norm.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.output_layer_norm.weight"
+                "name": "transformer.layer.${layer_index}.output_layer_norm.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.output_layer_norm.weight"
+                ]
             }
         ]
     }
diff --git a/mergekit/_data/architectures/roberta.json b/mergekit/_data/architectures/roberta.json
index cab186c..26475c5 100644
--- a/mergekit/_data/architectures/roberta.json
+++ b/mergekit/_data/architectures/roberta.json
@@ -5,24 +5,42 @@
     ],
     "pre_weights": [
         {
-            "name": "roberta.embeddings.position_embeddings.weight"
+            "name": "embeddings.position_embeddings.weight",
+            "aliases": [
+                "roberta.embeddings.position_embeddings.weight"
+            ]
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "embeddings.word_embeddings.weight",
+            "aliases": [
+                "roberta.embeddings.word_embeddings.weight"
+            ]
         },
         {
-            "name": "roberta.embeddings.token_type_embeddings.weight"
+            "name": "embeddings.token_type_embeddings.weight",
+            "aliases": [
+                "roberta.embeddings.token_type_embeddings.weight"
+            ]
         },
         {
-            "name": "roberta.embeddings.LayerNorm.weight"
+            "name": "embeddings.LayerNorm.weight",
+            "aliases": [
+                "roberta.embeddings.LayerNorm.weight"
+            ]
         },
         {
-            "name": "roberta.embeddings.LayerNorm.bias"
+            "name": "embeddings.LayerNorm.bias",
+            "aliases": [
+                "roberta.embeddings.LayerNorm.bias"
+            ]
         },
         {
-            "name": "roberta.embeddings.position_ids",
+            "name": "embeddings.position_ids",
             "optional": true,
-            "force_dtype": "int64"
+            "force_dtype": "int64",
+            "aliases": [
+                "roberta.embeddings.position_ids"
+            ]
         }
     ],
     "post_weights": [
@@ -37,52 +55,100 @@
     "layer_templates": {
         "weights": [
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.output.dense.weight"
+                "name": "encoder.layer.${layer_index}.attention.output.dense.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.output.dense.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.output.dense.bias"
+                "name": "encoder.layer.${layer_index}.attention.output.dense.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.output.dense.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.output.LayerNorm.weight"
+                "name": "encoder.layer.${layer_index}.attention.output.LayerNorm.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.output.LayerNorm.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.output.LayerNorm.bias"
+                "name": "encoder.layer.${layer_index}.attention.output.LayerNorm.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.output.LayerNorm.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.query.weight"
+                "name": "encoder.layer.${layer_index}.attention.self.query.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.query.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.query.bias"
+                "name": "encoder.layer.${layer_index}.attention.self.query.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.query.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.key.weight"
+                "name": "encoder.layer.${layer_index}.attention.self.key.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.key.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.key.bias"
+                "name": "encoder.layer.${layer_index}.attention.self.key.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.key.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.value.weight"
+                "name": "encoder.layer.${layer_index}.attention.self.value.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.value.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.value.bias"
+                "name": "encoder.layer.${layer_index}.attention.self.value.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.value.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.intermediate.dense.weight"
+                "name": "encoder.layer.${layer_index}.intermediate.dense.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.intermediate.dense.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.intermediate.dense.bias"
+                "name": "encoder.layer.${layer_index}.intermediate.dense.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.intermediate.dense.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.output.dense.weight"
+                "name": "encoder.layer.${layer_index}.output.dense.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.output.dense.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.output.dense.bias"
+                "name": "encoder.layer.${layer_index}.output.dense.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.output.dense.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.output.LayerNorm.weight"
+                "name": "encoder.layer.${layer_index}.output.LayerNorm.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.output.LayerNorm.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.output.LayerNorm.bias"
+                "name": "encoder.layer.${layer_index}.output.LayerNorm.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.output.LayerNorm.bias"
+                ]
             }
         ]
     }
-- 
2.43.0


From c6b106811027c04b25a048bcbb497b0aab9f2496 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:51:26 +0000
Subject: [PATCH 043/121] fix: names of the decoder tensors of Whisper models

---
 mergekit/_data/architectures/whisper.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/whisper.json b/mergekit/_data/architectures/whisper.json
index 82ac444..fdb8cd7 100644
--- a/mergekit/_data/architectures/whisper.json
+++ b/mergekit/_data/architectures/whisper.json
@@ -10,7 +10,7 @@
     ],
     "modules": {
         "decoder": {
-            "weight_prefix": "model.decoder",
+            "weight_prefix": "model.decoder.",
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-- 
2.43.0


From cb51d55bbdde0154db5c8780b7c1c3e30cde3ad4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:51:26 +0000
Subject: [PATCH 044/121] fix: number of text layers of Qwen2-VL models

---
 mergekit/_data/architectures/qwen2_vl.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 7e5ee74..724c195 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -17,7 +17,7 @@
                     "Qwen2ForCausalLM"
                 ],
                 "model_type": "qwen2",
-                "num_layers_config_key": "num_hidden_layers",
+                "num_layers_config_key": "text_config.num_hidden_layers",
                 "pre_weights": [
                     {
                         "name": "model.embed_tokens.weight",
-- 
2.43.0


From b6ad756119a669fcbb2560768a3609870bffbf39 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:52:02 +0000
Subject: [PATCH 045/121] fix: optional biases of Granite 4 and of the BERT
 language model head

---
 .../_data/architectures/bert-masked-lm.json   |  7 ++++++
 .../architectures/granite4moehybrid.json      | 24 +++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/mergekit/_data/architectures/bert-masked-lm.json b/mergekit/_data/architectures/bert-masked-lm.json
index 84d8c5d..04ddaa7 100644
--- a/mergekit/_data/architectures/bert-masked-lm.json
+++ b/mergekit/_data/architectures/bert-masked-lm.json
@@ -69,6 +69,13 @@
                 "bert.embeddings.word_embeddings.weight"
             ],
             "is_embed": true
+        },
+        {
+            "name": "cls.predictions.decoder.bias",
+            "optional": true,
+            "tied_names": [
+                "cls.predictions.bias"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
diff --git a/mergekit/_data/architectures/granite4moehybrid.json b/mergekit/_data/architectures/granite4moehybrid.json
index 5b14eee..2a50d44 100644
--- a/mergekit/_data/architectures/granite4moehybrid.json
+++ b/mergekit/_data/architectures/granite4moehybrid.json
@@ -53,18 +53,34 @@
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mamba.A_log",
                 "optional": true
@@ -89,6 +105,10 @@
                 "name": "model.layers.${layer_index}.mamba.in_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.mamba.in_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mamba.norm.weight",
                 "optional": true
@@ -96,6 +116,10 @@
             {
                 "name": "model.layers.${layer_index}.mamba.out_proj.weight",
                 "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.mamba.out_proj.bias",
+                "optional": true
             }
         ]
     }
-- 
2.43.0


From ba5d9513988fe0c632e5bf3fd86a4e4428d0ebbb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 046/121] fix: accept the names transformers 5 gives the vision
 tower of Gemma 3 models

---
 mergekit/_data/architectures/gemma3vl.json | 107 ++++++++++++++++-----
 1 file changed, 85 insertions(+), 22 deletions(-)

diff --git a/mergekit/_data/architectures/gemma3vl.json b/mergekit/_data/architectures/gemma3vl.json
index 27a9f02..a459dbb 100644
--- a/mergekit/_data/architectures/gemma3vl.json
+++ b/mergekit/_data/architectures/gemma3vl.json
@@ -103,78 +103,141 @@
             }
         },
         "vision_tower": {
-            "weight_prefix": "vision_tower.vision_model.",
+            "weight_prefix": "vision_tower.",
             "architecture": {
                 "model_type": "siglip_vision_model",
                 "architectures": [],
                 "pre_weights": [
                     {
-                        "name": "embeddings.patch_embedding.bias"
+                        "name": "vision_model.embeddings.patch_embedding.bias",
+                        "aliases": [
+                            "embeddings.patch_embedding.bias"
+                        ]
                     },
                     {
-                        "name": "embeddings.patch_embedding.weight"
+                        "name": "vision_model.embeddings.patch_embedding.weight",
+                        "aliases": [
+                            "embeddings.patch_embedding.weight"
+                        ]
                     },
                     {
-                        "name": "embeddings.position_embedding.weight"
+                        "name": "vision_model.embeddings.position_embedding.weight",
+                        "aliases": [
+                            "embeddings.position_embedding.weight"
+                        ]
                     }
                 ],
                 "post_weights": [
                     {
-                        "name": "post_layernorm.bias"
+                        "name": "vision_model.post_layernorm.bias",
+                        "aliases": [
+                            "post_layernorm.bias"
+                        ]
                     },
                     {
-                        "name": "post_layernorm.weight"
+                        "name": "vision_model.post_layernorm.weight",
+                        "aliases": [
+                            "post_layernorm.weight"
+                        ]
                     }
                 ],
                 "layer_templates": {
                     "weights": [
                         {
-                            "name": "encoder.layers.${layer_index}.layer_norm1.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.layer_norm1.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.layer_norm1.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.layer_norm1.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.layer_norm1.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.layer_norm1.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.layer_norm2.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.layer_norm2.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.layer_norm2.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.layer_norm2.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.layer_norm2.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.layer_norm2.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.mlp.fc1.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.mlp.fc1.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.mlp.fc1.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.mlp.fc1.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.mlp.fc1.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.mlp.fc1.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.mlp.fc2.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.mlp.fc2.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.mlp.fc2.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.mlp.fc2.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.mlp.fc2.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.mlp.fc2.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.k_proj.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.k_proj.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.k_proj.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.k_proj.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.k_proj.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.k_proj.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.out_proj.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.out_proj.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.out_proj.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.out_proj.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.out_proj.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.out_proj.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.q_proj.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.q_proj.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.q_proj.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.q_proj.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.q_proj.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.q_proj.weight"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.v_proj.bias"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.v_proj.bias",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.v_proj.bias"
+                            ]
                         },
                         {
-                            "name": "encoder.layers.${layer_index}.self_attn.v_proj.weight"
+                            "name": "vision_model.encoder.layers.${layer_index}.self_attn.v_proj.weight",
+                            "aliases": [
+                                "encoder.layers.${layer_index}.self_attn.v_proj.weight"
+                            ]
                         }
                     ]
                 },
-- 
2.43.0


From 22015b47e14430ea7c8b256cd0fc594ed2b6eade Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:52:55 +0000
Subject: [PATCH 047/121] fix: vocabulary size was not updated for merged Qwen
 vision-language models

---
 mergekit/_data/architectures/qwen2_5_vl.json | 2 +-
 mergekit/_data/architectures/qwen2_vl.json   | 2 +-
 mergekit/_data/architectures/qwen3_vl.json   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index cd3258b..53c6828 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -5,7 +5,7 @@
         "Qwen2_5_VLForConditionalGeneration"
     ],
     "num_vision_layers_config_key": "vision_config.depth",
-    "vocab_size_config_key": "vocab_size",
+    "vocab_size_config_key": "text_config.vocab_size",
     "tagalong_files": [
         "preprocessor_config.json",
         "vocab.json"
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 724c195..1e91f18 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -5,7 +5,7 @@
         "Qwen2VLForConditionalGeneration"
     ],
     "num_vision_layers_config_key": "vision_config.depth",
-    "vocab_size_config_key": "vocab_size",
+    "vocab_size_config_key": "text_config.vocab_size",
     "tagalong_files": [
         "preprocessor_config.json",
         "vocab.json"
diff --git a/mergekit/_data/architectures/qwen3_vl.json b/mergekit/_data/architectures/qwen3_vl.json
index 6862620..40a1f95 100644
--- a/mergekit/_data/architectures/qwen3_vl.json
+++ b/mergekit/_data/architectures/qwen3_vl.json
@@ -5,7 +5,7 @@
         "Qwen3VLMoeForConditionalGeneration"
     ],
     "num_vision_layers_config_key": "vision_config.depth",
-    "vocab_size_config_key": "vocab_size",
+    "vocab_size_config_key": "text_config.vocab_size",
     "tagalong_files": [
         "preprocessor_config.json",
         "vocab.json"
-- 
2.43.0


From 2e72dfdccc9ebe3a029fa9472c7bd571d3fc92ba Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:52:56 +0000
Subject: [PATCH 048/121] fix: optional attention biases of Gemma 3
 vision-language models

---
 mergekit/_data/architectures/gemma3vl.json | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mergekit/_data/architectures/gemma3vl.json b/mergekit/_data/architectures/gemma3vl.json
index a459dbb..79df1a2 100644
--- a/mergekit/_data/architectures/gemma3vl.json
+++ b/mergekit/_data/architectures/gemma3vl.json
@@ -32,21 +32,37 @@
                         {
                             "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
                         },
                         {
                             "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
                         },
                         {
                             "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
                         },
+                        {
+                            "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                            "optional": true
+                        },
                         {
                             "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
                         },
-- 
2.43.0


From 6391fad22a313df661dfac1543aa88198ec47e12 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:55:50 +0000
Subject: [PATCH 049/121] fix: experts with missing tensors were combined with
 those of other experts

---
 mergekit/architecture/conversion.py | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/mergekit/architecture/conversion.py b/mergekit/architecture/conversion.py
index e9da6c7..174bb2f 100644
--- a/mergekit/architecture/conversion.py
+++ b/mergekit/architecture/conversion.py
@@ -67,8 +67,26 @@ def _wildcard_values(pattern: str, source_key: str) -> tuple[str, ...]:
     return match.groups()
 
 
+def _has_contiguous_indices(wildcard_values: set[tuple[str, ...]]) -> bool:
+    if not all(len(v) == 1 and v[0].isdigit() for v in wildcard_values):
+        return True
+    return {int(v[0]) for v in wildcard_values} == set(range(len(wildcard_values)))
+
+
 def _has_complete_wildcard_group(wildcard_values: set[tuple[str, ...]]) -> bool:
-    return wildcard_values == {()} or len(wildcard_values) > 1
+    return wildcard_values == {()} or (
+        len(wildcard_values) > 1 and _has_contiguous_indices(wildcard_values)
+    )
+
+
+def _has_all_sources(
+    source_patterns: list[str], wildcard_values: dict[str, set[tuple[str, ...]]]
+) -> bool:
+    """Check that every source pattern has a tensor for each of the same indices."""
+    reference = wildcard_values.get(source_patterns[0], set())
+    return _has_contiguous_indices(reference) and all(
+        wildcard_values.get(pattern, set()) == reference for pattern in source_patterns
+    )
 
 
 def convert_checkpoint_tensors(
@@ -91,7 +109,7 @@ def convert_checkpoint_tensors(
     available: dict[str, TensorSource] = dict(source_tensors)
     for transform in transforms:
         additions: dict[str, TensorSource] = {}
-        conversion_layers = set()
+        conversion_layers: dict[str, dict[str, set[tuple[str, ...]]]] = {}
         for match in _iter_transform_matches(transform, available):
             if isinstance(transform, WeightRenaming):
                 additions[match.renamed_key] = match.source_value
@@ -106,14 +124,18 @@ def convert_checkpoint_tensors(
                     source_pattern=match.source_pattern,
                     future=match.source_value,
                 )
-                conversion_layers.add(match.renamed_key)
+                conversion_layers.setdefault(match.renamed_key, {}).setdefault(
+                    match.source_pattern, set()
+                ).add(match.wildcard_values)
 
         available.update(additions)
 
         if isinstance(transform, WeightRenaming):
             continue
 
-        for conversion_layer in conversion_layers:
+        for conversion_layer, wildcard_values in conversion_layers.items():
+            if not _has_all_sources(transform.source_patterns, wildcard_values):
+                continue
             converted = transform.convert(conversion_layer)
             if target_key in converted:
                 return converted[target_key]
-- 
2.43.0


From 3682ebf6fccc88ed96b9e46d373548fd22bf7f7f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:56:31 +0000
Subject: [PATCH 050/121] fix: architecture inference dropped tensors
 transformers knows under other names, and failed without model code

---
 mergekit/architecture/auto.py       | 40 ++++++++++++++++++++++++++---
 mergekit/architecture/conversion.py | 11 ++++++++
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 019e20a..b46ca62 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -15,7 +15,10 @@ from mergekit.architecture.base import (
     ModuleDefinition,
     WeightInfo,
 )
-from mergekit.architecture.conversion import can_convert_checkpoint_keys
+from mergekit.architecture.conversion import (
+    can_convert_checkpoint_keys,
+    converted_checkpoint_keys,
+)
 from mergekit.architecture.json_definitions import (
     JsonLayerTemplates,
     JsonModuleArchDef,
@@ -156,6 +159,24 @@ def _template_present_in_all_models(
     )
 
 
+def _uses_transformers_layout(
+    target_names: set[str],
+    tied_keys: List[str],
+    checkpoint_names: set[str],
+    model_type: Optional[str],
+) -> bool:
+    """Check that no tensor is missing while another one in the checkpoint goes unused."""
+    missing = any(
+        not can_convert_checkpoint_keys(model_type, checkpoint_names, name)
+        for name in target_names
+        if not any(re.search(pat, name) for pat in tied_keys)
+    )
+    return not missing or all(
+        converted_checkpoint_keys(model_type, name) & target_names
+        for name in checkpoint_names
+    )
+
+
 @lru_cache(maxsize=128)
 def infer_architecture_info(
     models: Tuple[ModelReference, ...],
@@ -179,7 +200,18 @@ def infer_architecture_info(
             model: model.config(trust_remote_code=options.trust_remote_code).model_type
             for model in model_tensor_names
         }
-    else:
+        if not _uses_transformers_layout(
+            all_tensor_names - (ignore_on_save or set()),
+            tied_keys or [],
+            model_tensor_names[base_model],
+            model_types[base_model],
+        ):
+            LOG.warning(
+                f"Unable to convert tensor names of {base_model} to those used by "
+                "transformers - using the names in the checkpoint instead"
+            )
+            transformer_tensor_names = None
+    if not transformer_tensor_names:
         all_tensor_names = raw_tensor_names
         model_types = {}
 
@@ -249,8 +281,8 @@ def infer_architecture_info(
             tied_keys is not None
             and any(re.search(pat, full_name) for pat in tied_keys)
         )
-        is_embed = (full_name in embed_names) or any(
-            re.search(pat, full_name) for pat in tied_keys
+        is_embed = (full_name in (embed_names or ())) or any(
+            re.search(pat, full_name) for pat in tied_keys or ()
         )  # strictly speaking you can have tied non-embedding/lm-head weights
         # but i've never seen it so let's not worry about it until this breaks something
         return WeightInfo(
diff --git a/mergekit/architecture/conversion.py b/mergekit/architecture/conversion.py
index 174bb2f..9087786 100644
--- a/mergekit/architecture/conversion.py
+++ b/mergekit/architecture/conversion.py
@@ -147,6 +147,17 @@ def convert_checkpoint_tensors(
     return tensor if isinstance(tensor, torch.Tensor) else None
 
 
+def converted_checkpoint_keys(model_type: Optional[str], source_key: str) -> set[str]:
+    """Return all names a checkpoint tensor is known by during conversion."""
+    keys = {source_key}
+    for transform in get_checkpoint_conversion_mapping(model_type) or []:
+        for match in list(_iter_transform_matches(transform, dict.fromkeys(keys))):
+            keys |= _expanded_target_keys(
+                match.renamed_key, transform.target_patterns
+            ) | {match.renamed_key}
+    return keys
+
+
 def can_convert_checkpoint_keys(
     model_type: Optional[str],
     source_keys: set[str],
-- 
2.43.0


From e2ce1ed324da8b5eb882334aec03fd16578eebf7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:01:10 +0000
Subject: [PATCH 051/121] fix: projector tensors of Qwen2-VL and Qwen2.5-VL
 were listed twice

---
 mergekit/_data/architectures/qwen2_5_vl.json | 2 +-
 mergekit/_data/architectures/qwen2_vl.json   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index 53c6828..aa12fba 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -84,7 +84,7 @@
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-                "override_num_layers": 2,
+                "override_num_layers": 1,
                 "pre_weights": [
                     {
                         "name": "visual.merger.ln_q.weight"
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 1e91f18..20344fe 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -84,7 +84,7 @@
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-                "override_num_layers": 2,
+                "override_num_layers": 1,
                 "pre_weights": [
                     {
                         "name": "visual.merger.ln_q.weight"
-- 
2.43.0


From 8030d8e2c6b34d058c03421dac411e829191c274 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:11:17 +0000
Subject: [PATCH 052/121] fix: output head of merges of tied and untied models

---
 mergekit/merge.py | 12 ++++++++++++
 mergekit/plan.py  | 15 +++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index acaaf5a..7f08f4a 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -289,6 +289,18 @@ def _model_out_config(
         res = config.base_model.config(trust_remote_code=trust_remote_code)
     else:
         res = config.referenced_models()[0].config(trust_remote_code=trust_remote_code)
+    if getattr(res, "tie_word_embeddings", False) and any(
+        getattr(
+            model.config(trust_remote_code=trust_remote_code),
+            "tie_word_embeddings",
+            True,
+        )
+        is False
+        for model in config.referenced_models()
+    ):
+        # at least one model has an output head of its own, and so has the result
+        res.tie_word_embeddings = False
+
     if config.out_dtype:
         res.torch_dtype = config.out_dtype
     elif config.dtype:
diff --git a/mergekit/plan.py b/mergekit/plan.py
index 296c410..aa4832f 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -87,6 +87,13 @@ class MergePlanner:
             config=model.config(trust_remote_code=self.options.trust_remote_code),
         )
 
+    def _is_untied(self, model: ModelReference) -> bool:
+        """Whether weights tied in the given model are separate in the output."""
+        model_cfg = model.config(trust_remote_code=self.options.trust_remote_code)
+        return getattr(model_cfg, "tie_word_embeddings", False) and not getattr(
+            self.out_model_config, "tie_word_embeddings", True
+        )
+
     def normalize_config(self):
         base_model = self.config.base_model
 
@@ -167,10 +174,10 @@ class MergePlanner:
             any_weight = False
             for model, w_in in zip(models, weights_in):
                 index = LoaderCache().get(model).index
-                if any(
-                    name in index.tensor_paths
-                    for name in [w_in.name] + list(w_in.aliases or ())
-                ):
+                names = [w_in.name] + list(w_in.aliases or ())
+                if self._is_untied(model):
+                    names += list(w_in.tied_names or ())
+                if any(name in index.tensor_paths for name in names):
                     any_weight = True
                     break
 
-- 
2.43.0


From 0fd5ba1b8bf0a1988e7d824b4ec8578fe93f172b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:11:43 +0000
Subject: [PATCH 053/121] fix: vocabulary size in the configuration of merges
 of models with different vocabularies

---
 mergekit/merge.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 7f08f4a..0996295 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -18,6 +18,7 @@ from mergekit.card import generate_card
 from mergekit.common import ModelReference, get_config_value, set_config_value
 from mergekit.config import MergeConfiguration, OutputSliceDefinition
 from mergekit.graph import Executor
+from mergekit.io.lazy_tensor_loader import LazyTensorLoader
 from mergekit.io.tasks import LoaderCache
 from mergekit.multigpu_executor import MultiGPUExecutor
 from mergekit.options import MergeOptions
@@ -92,6 +93,14 @@ def run_merge(
         _update_config_vocab(
             cfg_out, arch_info, tokenizer, pad_to_multiple_of=pad_to_multiple_of
         )
+    else:
+        _fit_config_vocab(
+            cfg_out,
+            arch_info,
+            merge_config,
+            out_path,
+            trust_remote_code=options.trust_remote_code,
+        )
 
     LOG.info("Saving config")
     cfg_out.save_pretrained(out_path)
@@ -406,4 +415,35 @@ def _update_config_vocab(
         )
 
 
+def _fit_config_vocab(
+    config: transformers.PretrainedConfig,
+    arch_info: ModelArchitecture,
+    merge_config: MergeConfiguration,
+    out_path: str,
+    trust_remote_code: bool = False,
+):
+    """Set the vocabulary size to that of the merged embeddings, if models differ."""
+    key = arch_info.vocab_size_config_key or "vocab_size"
+    try:
+        vocab_sizes = {
+            get_config_value(model.config(trust_remote_code=trust_remote_code), key)
+            for model in merge_config.referenced_models()
+        }
+    except RuntimeError:
+        return
+    if len(vocab_sizes) < 2:
+        return
+
+    loader = LazyTensorLoader.from_disk(out_path)
+    rows = {
+        loader.get_tensor(weight.name).shape[0]
+        for weight in arch_info.all_weights(config)
+        if weight.is_embed and weight.name in loader.index.tensor_paths
+    } & vocab_sizes
+    if len(rows) == 1:
+        set_config_value(config, key, rows.pop())
+    else:
+        LOG.warning("Unable to determine vocabulary size of output model")
+
+
 __all__ = ["MergeOptions", "run_merge"]
-- 
2.43.0


From 13fac2ce4e929f52c0d0546be865e2a9c7dfc58a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:11:43 +0000
Subject: [PATCH 054/121] fix: model cards could not be written without network
 for models at relative paths

---
 mergekit/card.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mergekit/card.py b/mergekit/card.py
index aab595c..1372c85 100644
--- a/mergekit/card.py
+++ b/mergekit/card.py
@@ -1,6 +1,7 @@
 # Copyright (C) 2026 Arcee AI
 # SPDX-License-Identifier: LGPL-3.0-only
 
+import logging
 import os
 from typing import Generator, List, Optional
 
@@ -12,6 +13,8 @@ from yaml.nodes import SequenceNode as SequenceNode
 from mergekit import merge_methods
 from mergekit.config import MergeConfiguration, ModelReference
 
+LOG = logging.getLogger(__name__)
+
 CARD_TEMPLATE = """---
 {metadata}
 ---
@@ -72,7 +75,9 @@ def is_hf(path: str) -> bool:
         return True  # If path doesn't exist locally, it must be a HF repo
     try:
         return huggingface_hub.repo_exists(path, repo_type="model", token=False)
-    except HFValidationError:
+    except Exception as e:
+        if not isinstance(e, HFValidationError):
+            LOG.warning(f"Unable to look up {path} on Hugging Face Hub", exc_info=e)
         return False
 
 
-- 
2.43.0


From 2720b0b73cbd729bd7cae06b0587f4ad45c2941f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:13:47 +0000
Subject: [PATCH 055/121] fix: tensors wrongly marked, or not marked, as token
 embeddings

---
 .../_data/architectures/gpt2-sequence-classification.json   | 3 ++-
 mergekit/_data/architectures/lfm2.json                      | 3 +--
 mergekit/_data/architectures/qwen2_5_vl.json                | 3 +--
 mergekit/_data/architectures/qwen2_vl.json                  | 3 +--
 mergekit/_data/architectures/qwen3_vl.json                  | 6 ++----
 mergekit/_data/architectures/qwen3_vl_dense.json            | 6 ++----
 .../architectures/roberta-sequence-classification.json      | 3 ++-
 .../_data/architectures/roberta-token-classification.json   | 3 ++-
 mergekit/_data/architectures/roberta.json                   | 1 +
 9 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/mergekit/_data/architectures/gpt2-sequence-classification.json b/mergekit/_data/architectures/gpt2-sequence-classification.json
index 54cf31f..2919e47 100644
--- a/mergekit/_data/architectures/gpt2-sequence-classification.json
+++ b/mergekit/_data/architectures/gpt2-sequence-classification.json
@@ -5,7 +5,8 @@
     ],
     "pre_weights": [
         {
-            "name": "transformer.wte.weight"
+            "name": "transformer.wte.weight",
+            "is_embed": true
         },
         {
             "name": "transformer.wpe.weight"
diff --git a/mergekit/_data/architectures/lfm2.json b/mergekit/_data/architectures/lfm2.json
index 6c3cb85..f972a2a 100644
--- a/mergekit/_data/architectures/lfm2.json
+++ b/mergekit/_data/architectures/lfm2.json
@@ -9,8 +9,7 @@
             "is_embed": true
         },
         {
-            "name": "model.embedding_norm.weight",
-            "is_embed": true
+            "name": "model.embedding_norm.weight"
         }
 
     ],
diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index aa12fba..25c2f22 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -117,8 +117,7 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "visual.patch_embed.proj.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 20344fe..2982cb3 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -120,8 +120,7 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "visual.patch_embed.proj.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen3_vl.json b/mergekit/_data/architectures/qwen3_vl.json
index 40a1f95..7b14afb 100644
--- a/mergekit/_data/architectures/qwen3_vl.json
+++ b/mergekit/_data/architectures/qwen3_vl.json
@@ -151,15 +151,13 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "model.visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "model.visual.patch_embed.proj.weight"
                     },
                     {
                         "name": "model.visual.patch_embed.proj.bias"
                     },
                     {
-                        "name": "model.visual.pos_embed.weight",
-                        "is_embed": true
+                        "name": "model.visual.pos_embed.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen3_vl_dense.json b/mergekit/_data/architectures/qwen3_vl_dense.json
index aa5fbba..36435fa 100644
--- a/mergekit/_data/architectures/qwen3_vl_dense.json
+++ b/mergekit/_data/architectures/qwen3_vl_dense.json
@@ -150,15 +150,13 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "model.visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "model.visual.patch_embed.proj.weight"
                     },
                     {
                         "name": "model.visual.patch_embed.proj.bias"
                     },
                     {
-                        "name": "model.visual.pos_embed.weight",
-                        "is_embed": true
+                        "name": "model.visual.pos_embed.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/roberta-sequence-classification.json b/mergekit/_data/architectures/roberta-sequence-classification.json
index 6e137e6..8d1f47e 100644
--- a/mergekit/_data/architectures/roberta-sequence-classification.json
+++ b/mergekit/_data/architectures/roberta-sequence-classification.json
@@ -8,7 +8,8 @@
             "name": "roberta.embeddings.position_embeddings.weight"
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "roberta.embeddings.word_embeddings.weight",
+            "is_embed": true
         },
         {
             "name": "roberta.embeddings.token_type_embeddings.weight"
diff --git a/mergekit/_data/architectures/roberta-token-classification.json b/mergekit/_data/architectures/roberta-token-classification.json
index 2b9cae9..1927836 100644
--- a/mergekit/_data/architectures/roberta-token-classification.json
+++ b/mergekit/_data/architectures/roberta-token-classification.json
@@ -8,7 +8,8 @@
             "name": "roberta.embeddings.position_embeddings.weight"
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "roberta.embeddings.word_embeddings.weight",
+            "is_embed": true
         },
         {
             "name": "roberta.embeddings.token_type_embeddings.weight"
diff --git a/mergekit/_data/architectures/roberta.json b/mergekit/_data/architectures/roberta.json
index 26475c5..8071501 100644
--- a/mergekit/_data/architectures/roberta.json
+++ b/mergekit/_data/architectures/roberta.json
@@ -12,6 +12,7 @@
         },
         {
             "name": "embeddings.word_embeddings.weight",
+            "is_embed": true,
             "aliases": [
                 "roberta.embeddings.word_embeddings.weight"
             ]
-- 
2.43.0


From f57ccdc24540cf7035b48d106dc891fc787fa697 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:26:31 +0000
Subject: [PATCH 056/121] fix: position embeddings taken for token embeddings
 in inferred architectures

---
 mergekit/architecture/auto.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index b46ca62..d3027cd 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -98,9 +98,14 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
     embed_names = set()
     _embed_out = model_obj.get_output_embeddings()
     _embed_in = model_obj.get_input_embeddings()
+    _vocab_size = getattr(_embed_in, "num_embeddings", None)
     for name, module in model_obj.named_modules():
         if (
-            isinstance(module, torch.nn.Embedding)
+            # not those of positions or token types
+            (
+                isinstance(module, torch.nn.Embedding)
+                and module.num_embeddings == _vocab_size
+            )
             or module == _embed_out
             or module == _embed_in
         ):
@@ -210,6 +215,13 @@ def infer_architecture_info(
                 f"Unable to convert tensor names of {base_model} to those used by "
                 "transformers - using the names in the checkpoint instead"
             )
+            # prefixes differ, but names of embedding modules are the same
+            suffixes = {tuple(name.split(".")[-2:]) for name in embed_names}
+            embed_names = {
+                name
+                for name in raw_tensor_names
+                if tuple(name.split(".")[-2:]) in suffixes
+            }
             transformer_tensor_names = None
     if not transformer_tensor_names:
         all_tensor_names = raw_tensor_names
-- 
2.43.0


From 200c793f9e8ff92d952fe9c08b1b9009e69a5a41 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:26:31 +0000
Subject: [PATCH 057/121] fix: vocabulary size of multimodal models without a
 definition

---
 mergekit/merge.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 0996295..b188f02 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -395,6 +395,16 @@ def _update_layer_types(
     set_config_value(config, key, layer_types)
 
 
+def _vocab_size_key(
+    config: transformers.PretrainedConfig, arch_info: ModelArchitecture
+) -> str:
+    if arch_info.vocab_size_config_key:
+        return arch_info.vocab_size_config_key
+    if not hasattr(config, "vocab_size") and hasattr(config, "text_config"):
+        return "text_config.vocab_size"
+    return "vocab_size"
+
+
 def _update_config_vocab(
     config: transformers.PretrainedConfig,
     arch_info: ModelArchitecture,
@@ -405,9 +415,7 @@ def _update_config_vocab(
     if pad_to_multiple_of and vocab_size % pad_to_multiple_of:
         vocab_size = vocab_size + pad_to_multiple_of - (vocab_size % pad_to_multiple_of)
     try:
-        set_config_value(
-            config, arch_info.vocab_size_config_key or "vocab_size", vocab_size
-        )
+        set_config_value(config, _vocab_size_key(config, arch_info), vocab_size)
     except Exception as e:
         LOG.warning(
             "Unable to set vocabulary size in output config - you may need to manually correct it.",
@@ -423,7 +431,7 @@ def _fit_config_vocab(
     trust_remote_code: bool = False,
 ):
     """Set the vocabulary size to that of the merged embeddings, if models differ."""
-    key = arch_info.vocab_size_config_key or "vocab_size"
+    key = _vocab_size_key(config, arch_info)
     try:
         vocab_sizes = {
             get_config_value(model.config(trust_remote_code=trust_remote_code), key)
-- 
2.43.0


From ddb64b0aa9733460dac06c70424f365729125b2c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 058/121] fix: settings equal to the name of a stage were
 changed in multi-stage merges

---
 mergekit/scripts/multimerge.py | 56 ++++++++++++++++------------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index 1735d4c..af4b03f 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -3,10 +3,11 @@
 
 import logging
 import os
-from typing import Dict, Optional, Set, Tuple, Union
+from typing import Any, Dict, Optional, Set, Tuple
 
 import click
 import yaml
+from pydantic import BaseModel
 
 from mergekit.common import ImmutableMap, ModelReference
 from mergekit.config import MergeConfiguration
@@ -133,39 +134,34 @@ def patched_config(config: MergeConfiguration, merge_names: Set[str], working_di
     """
     used = set()
 
-    def _patch_mr(value: Union[dict, list, str, int, None]):
-        nonlocal used
-        if isinstance(value, list):
-            return [_patch_mr(x) for x in value]
-        elif isinstance(value, dict):
-            if set(value.keys()) == {"model", "lora", "override_architecture"}:
-                # is a ModelReference
-                base = value["model"]["path"]
-                if base in merge_names:
-                    value["model"] = value["model"].copy()
-                    value["model"]["path"] = os.path.join(working_dir, base)
-                    used.add(base)
+    def _patch_mr(value: Any) -> Any:
+        # only touch actual model references - other settings may happen to have
+        # the same value as the name of a merge
+        if isinstance(value, ModelReference):
+            if value.model.path not in merge_names:
                 return value
+            used.add(value.model.path)
+            return value.model_copy(
+                update={
+                    "model": value.model.model_copy(
+                        update={"path": os.path.join(working_dir, value.model.path)}
+                    )
+                }
+            )
+        elif isinstance(value, BaseModel):
+            return value.model_copy(
+                update={
+                    name: _patch_mr(getattr(value, name))
+                    for name in value.model_fields_set
+                }
+            )
+        elif isinstance(value, (list, tuple)):
+            return type(value)(_patch_mr(x) for x in value)
+        elif isinstance(value, dict):
             return {k: _patch_mr(v) for k, v in value.items()}
-        elif isinstance(value, str):
-            try:
-                mr = ModelReference.model_validate(value)
-                if mr.model.path in merge_names:
-                    used.add(mr.model.path)
-                    return ModelReference(
-                        model={
-                            "path": os.path.join(working_dir, mr.model.path),
-                            "revision": mr.model.revision,
-                        },
-                        lora=mr.lora,
-                        override_architecture=mr.override_architecture,
-                    ).model_dump()
-            except ValueError:
-                pass
         return value
 
-    new_dict = _patch_mr(config.model_dump())
-    return MergeConfiguration.model_validate(new_dict), used
+    return _patch_mr(config), used
 
 
 def make_tasks(
-- 
2.43.0


From c201d25bd75b83ff3fce4ece4aab053c0b1d76fa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 059/121] fix: interrupted stages of multi-stage merges were
 taken for finished ones

---
 mergekit/scripts/multimerge.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index af4b03f..2b451a5 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -24,6 +24,7 @@ MODEL_CHECK_FILENAMES = [
     "model.safetensors.index.json",
     "pytorch_model.bin.index.json",
 ]
+INCOMPLETE_FILENAME = ".mergekit-incomplete"
 
 
 class MergeModelTask(Task[str]):
@@ -38,8 +39,11 @@ class MergeModelTask(Task[str]):
         return {str(key): self.input_merges[key] for key in self.input_merges}
 
     def execute(self, **kwargs):
+        # present for as long as the merge is incomplete
+        marker_path = os.path.join(self.out_path, INCOMPLETE_FILENAME)
         if (
             self.lazy
+            and not os.path.exists(marker_path)
             and os.path.exists(os.path.join(self.out_path, "config.json"))
             and any(
                 os.path.exists(os.path.join(self.out_path, filename))
@@ -52,11 +56,15 @@ class MergeModelTask(Task[str]):
         LOG.info(f"Running merge for {self.name}")
         cfg = MergeConfiguration.model_validate(yaml.safe_load(self.config_yaml))
 
+        os.makedirs(self.out_path, exist_ok=True)
+        with open(marker_path, "w"):
+            pass
         run_merge(
             cfg,
             self.out_path,
             options=self.options,
         )
+        os.unlink(marker_path)
         LOG.info(f"Merge complete for {self.name}")
         return self.out_path
 
-- 
2.43.0


From 4a9b68f63f615a399ec878c435c2b9c33dee1bd2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:46:55 +0000
Subject: [PATCH 060/121] fix: loose tensors lost the start of their name in
 inferred architectures, depending on hash order

---
 mergekit/architecture/auto.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index d3027cd..4aa9065 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -260,10 +260,7 @@ def infer_architecture_info(
     for tensor_name in all_tensor_names:
         if RE_LAYER_INDEX.search(tensor_name):
             continue
-        for prefix in module_prefixes:
-            if tensor_name.startswith(prefix):
-                module_loose_weights[prefix].add(tensor_name[len(prefix) :])
-                break
+        module_loose_weights[""].add(tensor_name)
 
     if "" in module_prefixes and not (module_loose_weights[""] or module_templates[""]):
         module_prefixes.remove("")
@@ -304,17 +301,17 @@ def infer_architecture_info(
         )
 
     module_archs = {}
-    for prefix in module_prefixes:
+    for prefix in sorted(module_prefixes):
         num_layers = module_layer_counts[prefix]
         module_archs[prefix or "default"] = JsonModuleArchitecture(
             definition=JsonModuleArchDef(
                 model_type="",
                 architectures=[],
-                pre_weights=[_wi(t, "") for t in module_loose_weights[prefix]],
+                pre_weights=[_wi(t, "") for t in sorted(module_loose_weights[prefix])],
                 layer_templates=JsonLayerTemplates(
                     weights=[
                         _wi(t, "", num_layers=num_layers)
-                        for t in module_templates[prefix]
+                        for t in sorted(module_templates[prefix])
                     ]
                 ),
                 post_weights=[],
-- 
2.43.0


From 9d1c53a34ae790fbd8050fd84484fe8441863183 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:10:47 +0000
Subject: [PATCH 061/121] fix: merges repeated in one process used the input
 models as they first were

---
 mergekit/architecture/auto.py | 2 --
 mergekit/io/tasks.py          | 2 ++
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 4aa9065..f65c352 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -4,7 +4,6 @@
 import logging
 import re
 from collections import defaultdict
-from functools import lru_cache
 from typing import List, Optional, Tuple
 
 import torch
@@ -182,7 +181,6 @@ def _uses_transformers_layout(
     )
 
 
-@lru_cache(maxsize=128)
 def infer_architecture_info(
     models: Tuple[ModelReference, ...],
     base_model: Optional[ModelReference],
diff --git a/mergekit/io/tasks.py b/mergekit/io/tasks.py
index 4e32cf5..8bbc3f1 100644
--- a/mergekit/io/tasks.py
+++ b/mergekit/io/tasks.py
@@ -50,6 +50,8 @@ class LoaderCache:
             loader.flush()
 
     def setup(self, options: MergeOptions):
+        # models may have changed on disk since they were last used
+        self.loaders.clear()
         self.lora_cache_dir = options.lora_merge_cache
         self.hf_cache_dir = options.transformers_cache
         self.lazy_unpickle = options.lazy_unpickle
-- 
2.43.0


From 6cfa6d860eb97de4a29319528b77b7fe1ac227aa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:18:12 +0000
Subject: [PATCH 062/121] fix: shared expert of mergekit-moe that is not also
 another expert was not loaded

---
 mergekit/moe/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/moe/common.py b/mergekit/moe/common.py
index 2b1ea00..e1fc6e4 100644
--- a/mergekit/moe/common.py
+++ b/mergekit/moe/common.py
@@ -24,7 +24,9 @@ def initialize_io(
     base_model = config.base_model
     loaders: Dict[ModelReference, LazyTensorLoader] = {}
     for model in tqdm.tqdm(
-        [base_model] + [e.source_model for e in config.experts], desc="Warm up loaders"
+        [base_model]
+        + [e.source_model for e in config.experts + (config.shared_experts or [])],
+        desc="Warm up loaders",
     ):
         loaders[model] = model.lazy_loader(
             cache_dir=merge_options.transformers_cache,
-- 
2.43.0


From 7755e908a72407d7b580d2460bb47b4755d29025 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:18:12 +0000
Subject: [PATCH 063/121] fix: DeepSeek MoE output failed when the output
 directory did not exist

---
 mergekit/moe/deepseek.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/moe/deepseek.py b/mergekit/moe/deepseek.py
index 03ff072..a877e58 100644
--- a/mergekit/moe/deepseek.py
+++ b/mergekit/moe/deepseek.py
@@ -118,6 +118,7 @@ class DeepseekMoE(MoEOutputArchitecture):
         )
         if out_dtype is not None:
             out_cfg["torch_dtype"] = str(out_dtype).removeprefix("torch.")
+        os.makedirs(out_path, exist_ok=True)
         with open(os.path.join(out_path, "config.json"), "w", encoding="utf-8") as f:
             json.dump(out_cfg, f, indent=4)
 
-- 
2.43.0


From 7ee182e0979f49e7a00ce74e88d19a67ecbac82f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:18:43 +0000
Subject: [PATCH 064/121] fix: Qwen MoE output of models with their own head
 size or sliding window could not be loaded

---
 mergekit/moe/qwen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mergekit/moe/qwen.py b/mergekit/moe/qwen.py
index 8fcfef8..ec44177 100644
--- a/mergekit/moe/qwen.py
+++ b/mergekit/moe/qwen.py
@@ -81,6 +81,8 @@ class QwenMoE(MoEOutputArchitecture):
         out_cfg.norm_topk_prob = True
         out_cfg.sliding_window = None
         out_cfg.use_sliding_window = False
+        if getattr(out_cfg, "layer_types", None):
+            out_cfg.layer_types = ["full_attention"] * out_cfg.num_hidden_layers
         out_cfg.shared_expert_intermediate_size = out_cfg.intermediate_size
         out_cfg.moe_intermediate_size = out_cfg.intermediate_size
 
@@ -156,7 +158,10 @@ class QwenMoE(MoEOutputArchitecture):
                 except KeyError:
                     if tensor_name.endswith("_proj.bias"):
                         # qwen 2 moe wants attention bias, give it zeros
-                        head_dim = out_cfg.hidden_size // out_cfg.num_attention_heads
+                        head_dim = (
+                            getattr(base_cfg, "head_dim", None)
+                            or out_cfg.hidden_size // out_cfg.num_attention_heads
+                        )
                         num_heads = (
                             out_cfg.num_key_value_heads
                             if (
-- 
2.43.0


From 4098d42ca62bed2d6a5c4be6316f32dc4ee5cea2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:18:43 +0000
Subject: [PATCH 065/121] fix: biases were lost without notice in mixtures of
 experts that have no place for them

---
 mergekit/moe/common.py   | 13 +++++++++++++
 mergekit/moe/deepseek.py | 12 +++++++++++-
 mergekit/moe/mixtral.py  |  6 ++++++
 mergekit/moe/qwen.py     | 12 +++++++++++-
 4 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/mergekit/moe/common.py b/mergekit/moe/common.py
index e1fc6e4..30e214f 100644
--- a/mergekit/moe/common.py
+++ b/mergekit/moe/common.py
@@ -45,6 +45,19 @@ def initialize_io(
     return loaders, base_loader, writer
 
 
+def has_biases(
+    config: MoEMergeConfig,
+    setting: str,
+    trust_remote_code: bool = False,
+) -> bool:
+    """Whether any model has the biases the given setting switches on."""
+    return any(
+        getattr(model.config(trust_remote_code=trust_remote_code), setting, False)
+        for model in [config.base_model]
+        + [e.source_model for e in config.experts + (config.shared_experts or [])]
+    )
+
+
 def select_dtype(
     config: MoEMergeConfig, base_cfg: transformers.PretrainedConfig
 ) -> Optional[torch.dtype]:
diff --git a/mergekit/moe/deepseek.py b/mergekit/moe/deepseek.py
index a877e58..48b91f9 100644
--- a/mergekit/moe/deepseek.py
+++ b/mergekit/moe/deepseek.py
@@ -12,7 +12,12 @@ import transformers
 
 from mergekit.architecture import arch_info_for_config
 from mergekit.moe.arch import MoEOutputArchitecture
-from mergekit.moe.common import copy_tensor_out, initialize_io, select_dtype
+from mergekit.moe.common import (
+    copy_tensor_out,
+    has_biases,
+    initialize_io,
+    select_dtype,
+)
 from mergekit.moe.config import MoEMergeConfig
 from mergekit.options import MergeOptions
 
@@ -66,6 +71,11 @@ class DeepseekMoE(MoEOutputArchitecture):
                     "Deepseek MoE requires all input models to be Llama or Mistral models"
                 )
             return False
+        for setting in ("mlp_bias",):
+            if has_biases(config, setting, trust_remote_code=trust_remote_code):
+                if explain:
+                    logging.warning(f"DeepSeek MoE does not support models with {setting}")
+                return False
         return True
 
     def _generate_config(
diff --git a/mergekit/moe/mixtral.py b/mergekit/moe/mixtral.py
index c7e9850..9249ca5 100644
--- a/mergekit/moe/mixtral.py
+++ b/mergekit/moe/mixtral.py
@@ -13,6 +13,7 @@ from mergekit.moe.arch import MoEOutputArchitecture
 from mergekit.moe.common import (
     convert_and_save_checkpoint_tensors,
     copy_tensor_out,
+    has_biases,
     initialize_io,
     noise_and_scale,
     select_dtype,
@@ -55,6 +56,11 @@ class MixtralMoE(MoEOutputArchitecture):
                     "Mixtral requires all input models to be Llama or Mistral models"
                 )
             return False
+        for setting in ("attention_bias", "mlp_bias"):
+            if has_biases(config, setting, trust_remote_code=trust_remote_code):
+                if explain:
+                    logging.warning(f"Mixtral does not support models with {setting}")
+                return False
         return True
 
     def _generate_config(
diff --git a/mergekit/moe/qwen.py b/mergekit/moe/qwen.py
index ec44177..49a5fe2 100644
--- a/mergekit/moe/qwen.py
+++ b/mergekit/moe/qwen.py
@@ -14,7 +14,12 @@ from transformers.models.qwen2_moe import Qwen2MoeConfig
 
 from mergekit.architecture.json_definitions import NAME_TO_ARCH
 from mergekit.moe.arch import MoEOutputArchitecture
-from mergekit.moe.common import copy_tensor_out, initialize_io, select_dtype
+from mergekit.moe.common import (
+    copy_tensor_out,
+    has_biases,
+    initialize_io,
+    select_dtype,
+)
 from mergekit.moe.config import MoEMergeConfig
 from mergekit.options import MergeOptions
 
@@ -65,6 +70,11 @@ class QwenMoE(MoEOutputArchitecture):
                     "Qwen MoE requires all input models to be Qwen2, Llama or Mistral models"
                 )
             return False
+        for setting in ("attention_bias", "mlp_bias"):
+            if has_biases(config, setting, trust_remote_code=trust_remote_code):
+                if explain:
+                    logging.warning(f"Qwen MoE does not support models with {setting}")
+                return False
         return True
 
     def _generate_config(
-- 
2.43.0


From f22fa599dbdffffa5e5d72d9895292af535e2e7d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:18:43 +0000
Subject: [PATCH 066/121] fix: padding took part in the average hidden state of
 prompts

---
 mergekit/moe/router.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/moe/router.py b/mergekit/moe/router.py
index c0bc08c..8296fc9 100644
--- a/mergekit/moe/router.py
+++ b/mergekit/moe/router.py
@@ -29,7 +29,9 @@ def get_hidden_states(
     )  # (num_layers, batch_size, seq_len, hidden_size)
     if average:
         # use average over sequence
-        hidden_states = hidden_states.sum(dim=2) / hidden_states.shape[2]
+        mask = tokenized["attention_mask"].to(hidden_states.device)
+        mask = mask.unsqueeze(-1).to(hidden_states.dtype)
+        hidden_states = (hidden_states * mask).sum(dim=2) / mask.sum(dim=1)
     else:
         # take last value
         hidden_states = hidden_states[:, :, -1, :]
-- 
2.43.0


From 871922a6f664406aa55df7cb5424613c31d3240e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:18:43 +0000
Subject: [PATCH 067/121] fix: adapters of models were not applied by
 mergekit-moe

---
 mergekit/scripts/moe.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/moe.py b/mergekit/scripts/moe.py
index 44061ad..36fb65c 100644
--- a/mergekit/scripts/moe.py
+++ b/mergekit/scripts/moe.py
@@ -4,15 +4,16 @@
 import logging
 import os
 import sys
-from typing import List
+from typing import List, Optional
 
 import click
 import transformers
 import yaml
 
+from mergekit.common import ModelReference
 from mergekit.merge import MergeOptions
 from mergekit.moe import ALL_OUTPUT_ARCHITECTURES, MoEOutputArchitecture
-from mergekit.moe.config import MoEMergeConfig, is_bad_config
+from mergekit.moe.config import Expert, MoEMergeConfig, is_bad_config
 from mergekit.moe.router import get_gate_params, warn_degenerate_gates
 from mergekit.options import PrettyPrintHelp, add_merge_options
 
@@ -31,6 +32,7 @@ def build(
         sys.exit(1)
 
     base_model = config.base_model
+    config = merge_adapters(config, merge_options)
     out_arch = select_output_arch(config, merge_options, verbose=verbose)
 
     tokenizer = transformers.AutoTokenizer.from_pretrained(
@@ -52,7 +54,7 @@ def build(
             need_gates.extend(config.shared_experts)
 
     gate_vecs = get_gate_params(
-        base_model,
+        config.base_model,
         tokenizer,
         need_gates,
         mode=config.gate_mode,
@@ -84,6 +86,33 @@ def build(
     logging.info("Done.")
 
 
+def merge_adapters(
+    config: MoEMergeConfig, merge_options: MergeOptions
+) -> MoEMergeConfig:
+    """Apply the adapters of all models that have one."""
+
+    def merged(model: ModelReference) -> ModelReference:
+        return model.merged(
+            cache_dir=merge_options.lora_merge_cache,
+            trust_remote_code=merge_options.trust_remote_code,
+            lora_merge_dtype=merge_options.lora_merge_dtype,
+        )
+
+    def merged_experts(experts: Optional[List[Expert]]) -> Optional[List[Expert]]:
+        return experts and [
+            e.model_copy(update={"source_model": merged(e.source_model)})
+            for e in experts
+        ]
+
+    return config.model_copy(
+        update={
+            "base_model": merged(config.base_model),
+            "experts": merged_experts(config.experts),
+            "shared_experts": merged_experts(config.shared_experts),
+        }
+    )
+
+
 def select_output_arch(
     config: MoEMergeConfig,
     merge_options: MergeOptions,
-- 
2.43.0


From 52a821457bdf805a4b3fe01abd2519d3caf541cc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:25:25 +0000
Subject: [PATCH 068/121] fix: data type in the configuration of DeepSeek MoE
 output

---
 mergekit/moe/deepseek.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/moe/deepseek.py b/mergekit/moe/deepseek.py
index 48b91f9..dd658e5 100644
--- a/mergekit/moe/deepseek.py
+++ b/mergekit/moe/deepseek.py
@@ -127,6 +127,8 @@ class DeepseekMoE(MoEOutputArchitecture):
             config.experts_per_token,
         )
         if out_dtype is not None:
+            # newer versions of transformers write, and prefer, another name
+            out_cfg.pop("dtype", None)
             out_cfg["torch_dtype"] = str(out_dtype).removeprefix("torch.")
         os.makedirs(out_path, exist_ok=True)
         with open(os.path.join(out_path, "config.json"), "w", encoding="utf-8") as f:
-- 
2.43.0


From 9e1155ec041f6fc2d8a6b8c8f6763ae4dd82ee71 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:33:34 +0000
Subject: [PATCH 069/121] fix: order of tensors in raw merges depended on the
 hash seed

---
 mergekit/scripts/merge_raw_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 70d3578..b81179b 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -97,7 +97,7 @@ def plan_flat_merge(
     )
 
     save_tasks = []
-    for tensor_name in tqdm.tqdm(list(all_tensor_names), desc="Planning operations"):
+    for tensor_name in tqdm.tqdm(sorted(all_tensor_names), desc="Planning operations"):
         inputs = {
             model_def.model: SimpleLoadTensor(
                 model=model_def.model, tensor_name=tensor_name, dtype=config.dtype
-- 
2.43.0


From 8f448a070b3dd6bf8fe680b84e2916efa98c462e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:33:34 +0000
Subject: [PATCH 070/121] fix: raw merges ignored zero parameters and crashed
 without model parameters

---
 mergekit/scripts/merge_raw_pytorch.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index b81179b..525a7ef 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -189,14 +189,12 @@ def construct_param_dicts(
         for model_def in config.models:
             mr = ModelReference.model_validate({"model": {"path": model_def.model}})
             tensor_params[mr] = tensor_params.get(mr, {})
-            if value := evaluate_setting(
-                tensor_name, model_def.parameters.get(param_def.name, [])
-            ):
-                tensor_params[mr][param_def.name] = value
-            elif value := evaluate_setting(
-                tensor_name,
-                config.parameters.get(param_def.name, []) if config.parameters else [],
-            ):
+            value = None
+            for parameters in (model_def.parameters, config.parameters):
+                if value is None and parameters and param_def.name in parameters:
+                    value = evaluate_setting(tensor_name, parameters[param_def.name])
+
+            if value is not None:
                 tensor_params[mr][param_def.name] = value
             elif param_def.required:
                 raise RuntimeError(
-- 
2.43.0


From 8c8150fad070508649f9dfa38073790ed77183d8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:33:34 +0000
Subject: [PATCH 071/121] fix: base model outside of the model list of raw
 merges was only half considered

---
 mergekit/scripts/merge_raw_pytorch.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 525a7ef..3a12dac 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -84,8 +84,11 @@ def plan_flat_merge(
     loaders = SimpleLoaderCache()
     loaders.lazy_unpickle = options.lazy_unpickle
     all_tensor_names = set()
-    for model_def in tqdm.tqdm(config.models, desc="Preparing model loaders"):
-        loader = loaders.get(model_def.model)
+    model_paths = [model_def.model for model_def in config.models]
+    if config.base_model is not None and config.base_model not in model_paths:
+        model_paths.append(config.base_model)
+    for model_path in tqdm.tqdm(model_paths, desc="Preparing model loaders"):
+        loader = loaders.get(model_path)
         all_tensor_names.update(loader.index.tensor_paths.keys())
 
     writer_task = TensorWriterTask(
@@ -202,6 +205,21 @@ def construct_param_dicts(
                 )
             else:
                 tensor_params[mr][param_def.name] = param_def.default_value
+
+    if config.base_model is not None and config.base_model not in [
+        model_def.model for model_def in config.models
+    ]:
+        mr = ModelReference.model_validate({"model": {"path": config.base_model}})
+        tensor_params[mr] = {}
+        for param_def in merge_method.tensor_parameters():
+            value = None
+            if config.parameters and param_def.name in config.parameters:
+                value = evaluate_setting(
+                    tensor_name, config.parameters[param_def.name]
+                )
+            tensor_params[mr][param_def.name] = (
+                value if value is not None else param_def.default_value
+            )
     return global_params, tensor_params
 
 
-- 
2.43.0


From 7ee25d0d6c57f21e20c2012efeee59932c437756 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:33:34 +0000
Subject: [PATCH 072/121] fix: union of tensors in raw merges failed on missing
 tensors

---
 mergekit/merge_methods/base.py        | 6 +++++-
 mergekit/scripts/merge_raw_pytorch.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/base.py b/mergekit/merge_methods/base.py
index 03b2284..27c156f 100644
--- a/mergekit/merge_methods/base.py
+++ b/mergekit/merge_methods/base.py
@@ -27,7 +27,11 @@ class TensorDictWrapper(Task[Dict[ModelReference, torch.Tensor]]):
         }
 
     def execute(self, **kwargs) -> Dict[ModelReference, torch.Tensor]:
-        return {ModelReference.model_validate_json(k): v for k, v in kwargs.items()}
+        return {
+            ModelReference.model_validate_json(k): v
+            for k, v in kwargs.items()
+            if v is not None
+        }
 
 
 MergeTensorInput: TypeAlias = Union[
diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 3a12dac..6789b13 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -64,7 +64,9 @@ class SimpleLoadTensor(Task[torch.Tensor]):
 
     def execute(self) -> torch.Tensor:
         loader = SimpleLoaderCache().get(self.model)
-        tensor = loader.get_tensor(self.tensor_name, device=self.device or "cpu")
+        tensor = loader.get_tensor(
+            self.tensor_name, device=self.device or "cpu", raise_on_missing=False
+        )
         if tensor is None:
             return None
         if dt := dtype_from_name(self.dtype):
-- 
2.43.0


From 563b04a8527011700b683ee7278e635f75a63171 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:33:34 +0000
Subject: [PATCH 073/121] fix: raw merges read files opened by earlier merges
 in the same process

---
 mergekit/scripts/merge_raw_pytorch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 6789b13..6a596e1 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -84,6 +84,7 @@ def plan_flat_merge(
     merge_method = merge_methods.get(config.merge_method)
 
     loaders = SimpleLoaderCache()
+    loaders.loaders.clear()
     loaders.lazy_unpickle = options.lazy_unpickle
     all_tensor_names = set()
     model_paths = [model_def.model for model_def in config.models]
-- 
2.43.0


From 352dbecc15cd3b71d0640ab1278b6e6d8681812a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:33:44 +0000
Subject: [PATCH 074/121] fix: number of write threads was ignored

---
 mergekit/plan.py                      | 2 +-
 mergekit/scripts/extract_lora.py      | 2 +-
 mergekit/scripts/merge_raw_pytorch.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index aa4832f..c61dfd4 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -346,7 +346,7 @@ class MergePlanner:
             max_shard_size=self.options.out_shard_size,
             safe_serialization=self.options.safe_serialization,
             use_async=self.options.async_write,
-            max_write_threads=self.options.write_threads,
+            write_threads=self.options.write_threads,
         )
         save_tasks = []
         for weight, tensor_task in self._tensors:
diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 0b32233..a40460d 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -366,7 +366,7 @@ def plan_extraction(
         max_shard_size=-1,
         safe_serialization=options.safe_serialization,
         use_async=options.async_write,
-        max_write_threads=options.write_threads,
+        write_threads=options.write_threads,
     )
 
     name_to_wi = all_weights_map(model_ref, options)
diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 6a596e1..5cc809f 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -99,7 +99,7 @@ def plan_flat_merge(
         max_shard_size=options.out_shard_size,
         safe_serialization=options.safe_serialization,
         use_async=options.async_write,
-        max_write_threads=options.write_threads,
+        write_threads=options.write_threads,
     )
 
     save_tasks = []
-- 
2.43.0


From afaf14c862950ace2fc9c11f5fdd604d8458205a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:39:39 +0000
Subject: [PATCH 075/121] fix: order of models in raw merges depended on the
 hash seed

---
 mergekit/scripts/merge_raw_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 5cc809f..75eb70d 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -146,7 +146,7 @@ def plan_flat_merge(
 
         tensor_task = merge_method.make_task(
             output_weight=WeightInfo(name=tensor_name),
-            tensors=TensorDictWrapper(tensors=inputs),
+            tensors=TensorDictWrapper(tensors=ImmutableMap(inputs)),
             parameters=ImmutableMap(global_params),
             tensor_parameters=ImmutableMap(
                 data={
-- 
2.43.0


From b74add421cb84268cbc821f1e288c674bcc9831c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:53:33 +0000
Subject: [PATCH 076/121] fix: interrupted adapter merges were taken for
 finished ones

---
 mergekit/common.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 8eb76dd..6ab554a 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -5,6 +5,7 @@ import binascii
 import logging
 import os
 import os.path
+import tempfile
 from typing import (
     Any,
     Callable,
@@ -116,7 +117,7 @@ class ModelReference(BaseModel, frozen=True):
         )
 
         if not os.path.exists(out_path):
-            os.makedirs(out_path, exist_ok=True)
+            os.makedirs(cache_dir, exist_ok=True)
 
             config = self.config(trust_remote_code)
             auto_cls = get_auto_cls(config.architectures[0])
@@ -134,7 +135,16 @@ class ModelReference(BaseModel, frozen=True):
             )
             logging.info(f"Merging {self.lora} into {self.model}")
             model = model.merge_and_unload()
-            model.save_pretrained(out_path, safe_serialization=True)
+            # only a completely written model may appear in the cache
+            with tempfile.TemporaryDirectory(dir=cache_dir, prefix="tmp_") as tmp:
+                tmp_path = os.path.join(tmp, "merged")
+                model.save_pretrained(tmp_path, safe_serialization=True)
+                try:
+                    os.rename(tmp_path, out_path)
+                except OSError:
+                    # another process may have been faster
+                    if not os.path.exists(out_path):
+                        raise
             del model
 
         return ModelReference(model=ModelPath(path=out_path))
-- 
2.43.0


From 99fe8ba70dd2af927b257bf0c30ea163b9806191 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:53:33 +0000
Subject: [PATCH 077/121] fix: adapter merges in different precisions shared a
 cache entry

---
 mergekit/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/common.py b/mergekit/common.py
index 6ab554a..8cef91c 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -115,6 +115,8 @@ class ModelReference(BaseModel, frozen=True):
             cache_dir,
             self.model._unique_id() + "_" + self.lora._unique_id(),
         )
+        if lora_merge_dtype:
+            out_path += "_" + lora_merge_dtype.removeprefix("torch.")
 
         if not os.path.exists(out_path):
             os.makedirs(cache_dir, exist_ok=True)
-- 
2.43.0


From f0f157aaa0bed4d34f67c7c4e5395a04e862fe17 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:54:06 +0000
Subject: [PATCH 078/121] fix: adapter merges of paths with equal checksums
 shared a cache entry

---
 mergekit/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 8cef91c..1609f1f 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -1,7 +1,7 @@
 # Copyright (C) 2026 Arcee AI
 # SPDX-License-Identifier: LGPL-3.0-only
 
-import binascii
+import hashlib
 import logging
 import os
 import os.path
@@ -85,7 +85,7 @@ class ModelPath(BaseModel, frozen=True):
         return (
             os.path.basename(self.path)
             + "_"
-            + str(binascii.crc32(self.__str__().encode()))
+            + hashlib.sha256(self.__str__().encode()).hexdigest()[:32]
         )
 
 
-- 
2.43.0


From 45595b69267ad830ee7d99e1691765295b01d92f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 079/121] fix: extracted adapters contained excluded modules
 and listed modules they did not contain

---
 mergekit/scripts/extract_lora.py | 49 +++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index a40460d..92d31fd 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -168,9 +168,11 @@ def main(
     config_dict = make_config_dict(
         base_ref=base_model_ref,
         max_rank=real_max_rank,
-        modules_to_save=modules_to_save,
-        target_modules=list(
-            set(key.split(".")[-1] for key in module_real_ranks.keys())
+        modules_to_save=abbreviate_module_names(
+            plan_result.saved_modules, plan_result.all_modules, separator=""
+        ),
+        target_modules=abbreviate_module_names(
+            list(module_real_ranks), plan_result.all_modules, separator="."
         ),
         module_ranks=module_real_ranks,
     )
@@ -193,6 +195,20 @@ def main(
     LOG.info(f"LoRA adapter extracted to {out_path}")
 
 
+def abbreviate_module_names(
+    names: List[str], all_names: List[str], separator: str
+) -> List[str]:
+    """Use the last component of module names where that matches no other module."""
+    res = []
+    for name in names:
+        key = name.split(".")[-1]
+        matches = [n for n in all_names if n == key or n.endswith(separator + key)]
+        entry = key if set(matches) <= set(names) else name
+        if entry not in res:
+            res.append(entry)
+    return res
+
+
 def make_config_dict(
     base_ref: ModelReference,
     max_rank: int,
@@ -341,6 +357,8 @@ def _make_dummy_model(
 
 class PlanResults(BaseModel):
     tasks: List[Task]
+    all_modules: List[str]
+    saved_modules: List[str]
     base_vocab_size: int
     final_vocab_size: int
 
@@ -387,6 +405,7 @@ def plan_extraction(
     del dummy_base
 
     warned_modules = set()
+    saved_modules = []
 
     def _should_extract(name: str) -> bool:
         if include_regexes and not any(re.search(r, name) for r in include_regexes):
@@ -413,7 +432,9 @@ def plan_extraction(
             else:
                 continue
 
-        if (
+        # If embeddings are not explicitly excluded but embed_lora is False,
+        # save them at full rank instead of decomposing
+        save_embedding = (
             (not embed_lora)
             and (
                 module == embed_in
@@ -421,16 +442,15 @@ def plan_extraction(
                 or isinstance(module, nn.Embedding)
             )
             and not any(re.search(r, name) for r in exclude_regexes or [])
+        )
+
+        if (
+            save_embedding
+            or name in modules_to_save
+            or (name.split(".")[-1] in modules_to_save)
         ):
-            # If embeddings are not explicitly excluded but embed_lora is False,
-            # save them at full rank instead of decomposing
-            key = name.split(".")[-1]
-            if key not in modules_to_save:
-                LOG.warning(f"Adding {key} to modules_to_save")
-                modules_to_save.append(key)
-
-        if name in modules_to_save or (name.split(".")[-1] in modules_to_save):
             LOG.info(f"Planning to save {name} at full rank")
+            saved_modules.append(name)
             targets.extend(plan_module_to_save(model_ref, writer_task, wi, bias_wi))
         elif _should_extract(name):
             if isinstance(module, (nn.Linear, nn.Conv1d, nn.Conv2d, nn.Embedding)):
@@ -456,8 +476,7 @@ def plan_extraction(
                 )
                 if not skip_undecomposable:
                     # into modules_to_save it goes
-                    if key not in modules_to_save:
-                        modules_to_save.append(key)
+                    saved_modules.append(name)
                     targets.extend(
                         plan_module_to_save(model_ref, writer_task, wi, bias_wi)
                     )
@@ -469,6 +488,8 @@ def plan_extraction(
     finalize = FinalizeModel(tensor_save_tasks=save_tasks, writer_task=writer_task)
     return PlanResults(
         tasks=targets + [finalize],
+        all_modules=[name for name, _ in dummy_model.named_modules()],
+        saved_modules=saved_modules,
         base_vocab_size=base_vocab,
         final_vocab_size=ft_vocab,
     )
-- 
2.43.0


From 081769946cecb21768031515d89e4adb1ac757ee Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 080/121] fix: extracted adapters of rank zero could not be
 loaded

---
 mergekit/scripts/extract_lora.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 92d31fd..79e11c5 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -254,7 +254,8 @@ class TaskVectorDecompositionTask(Task[Tuple[torch.Tensor, torch.Tensor]]):
         )
         rank = min(self.max_rank, s.shape[0])
         if self.sv_epsilon > 0:
-            rank = min((s > self.sv_epsilon).sum().item(), rank)
+            # rank zero adapters can not be loaded
+            rank = min(max(1, (s > self.sv_epsilon).sum().item()), rank)
         if self.distribute_scale:
             sqrt_s = torch.diag(torch.sqrt(s[:rank]))
             scale_a = sqrt_s
-- 
2.43.0


From 11d4ffe236a5f39d88495e29dc9a316cfd162746 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 081/121] fix: extracted adapters did not name the revision of
 the base model

---
 mergekit/scripts/extract_lora.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 79e11c5..59c0c57 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -219,6 +219,7 @@ def make_config_dict(
     different_ranked = {k: v for k, v in module_ranks.items() if v != max_rank}
     return {
         "base_model_name_or_path": base_ref.model.path,
+        "revision": base_ref.model.revision,
         "peft_type": "LORA",
         "use_rslora": False,
         "target_modules": target_modules,
-- 
2.43.0


From 2a49062fe31c9e9dee72008d4019257cb0d6190a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 082/121] fix: extracted adapters lacked tied output weights
 that are not in the architecture definition

---
 mergekit/scripts/extract_lora.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 59c0c57..063cca2 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -395,6 +395,7 @@ def plan_extraction(
 
     embed_in = dummy_model.get_input_embeddings()
     embed_out = dummy_model.get_output_embeddings()
+    embed_in_name = next(n for n, m in dummy_model.named_modules() if m is embed_in)
 
     ft_vocab = embed_in.weight.shape[0]
     base_vocab = dummy_base.get_input_embeddings().weight.shape[0]
@@ -434,6 +435,10 @@ def plan_extraction(
             else:
                 continue
 
+        if module == embed_out and embed_out.weight is embed_in.weight:
+            # the checkpoint may only contain the input embeddings
+            wi = wi.model_copy(update={"tied_names": (embed_in_name + ".weight",)})
+
         # If embeddings are not explicitly excluded but embed_lora is False,
         # save them at full rank instead of decomposing
         save_embedding = (
-- 
2.43.0


From d074086cc2fa42b0e3798ffbbef9ef67664fdfeb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 083/121] fix: convolutions were decomposed into adapters that
 could not be loaded

---
 mergekit/scripts/extract_lora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 063cca2..57c9641 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -460,7 +460,7 @@ def plan_extraction(
             saved_modules.append(name)
             targets.extend(plan_module_to_save(model_ref, writer_task, wi, bias_wi))
         elif _should_extract(name):
-            if isinstance(module, (nn.Linear, nn.Conv1d, nn.Conv2d, nn.Embedding)):
+            if isinstance(module, (nn.Linear, nn.Embedding)):
                 LOG.info(f"Planning LoRA extraction for {name}")
                 targets.extend(
                     plan_lora_module(
-- 
2.43.0


From 365fa37c440b60168d16c4d791bb7265e7500dac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 084/121] fix: extraction of adapters used models as they were
 when first read by the process

---
 mergekit/scripts/extract_lora.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 57c9641..a061f64 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -19,7 +19,13 @@ from mergekit.architecture import WeightInfo, arch_info_for_config
 from mergekit.card import generate_card_lora
 from mergekit.common import ModelReference, get_auto_cls
 from mergekit.graph import Executor, Task
-from mergekit.io.tasks import FinalizeModel, LoadTensor, SaveTensor, TensorWriterTask
+from mergekit.io.tasks import (
+    FinalizeModel,
+    LoaderCache,
+    LoadTensor,
+    SaveTensor,
+    TensorWriterTask,
+)
 from mergekit.io.tensor_writer import TensorWriter
 from mergekit.multigpu_executor import MultiGPUExecutor
 from mergekit.options import MergeOptions, PrettyPrintHelp, add_merge_options
@@ -118,6 +124,8 @@ def main(
     if not modules_to_save:
         modules_to_save = []
 
+    LoaderCache().setup(options=merge_options)
+
     base_model_ref = ModelReference.model_validate(base_model)
     model_ref = ModelReference.model_validate(model)
     plan_result = plan_extraction(
-- 
2.43.0


From d374857938845e319d494c8961793a1af3dfde48 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:17:00 +0000
Subject: [PATCH 085/121] fix: changed biases were lost when loading extracted
 adapters

---
 mergekit/scripts/extract_lora.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index a061f64..4e25725 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -6,7 +6,7 @@ import logging
 import os
 import re
 import sys
-from typing import Any, Dict, List, Optional, Tuple
+from typing import Any, Dict, List, Optional, Set, Tuple
 
 import click
 import torch
@@ -183,6 +183,8 @@ def main(
             list(module_real_ranks), plan_result.all_modules, separator="."
         ),
         module_ranks=module_real_ranks,
+        # peft can only apply biases if all of the modules have one
+        lora_bias=plan_result.biased_modules.issuperset(module_real_ranks),
     )
     with open(os.path.join(out_path, "adapter_config.json"), "w") as f:
         json.dump(config_dict, f, indent=4)
@@ -223,6 +225,7 @@ def make_config_dict(
     modules_to_save: List[str],
     target_modules: List[str],
     module_ranks: Dict[str, int],
+    lora_bias: bool = False,
 ):
     different_ranked = {k: v for k, v in module_ranks.items() if v != max_rank}
     return {
@@ -230,6 +233,7 @@ def make_config_dict(
         "revision": base_ref.model.revision,
         "peft_type": "LORA",
         "use_rslora": False,
+        "lora_bias": lora_bias,
         "target_modules": target_modules,
         "modules_to_save": modules_to_save,
         "task_type": "CAUSAL_LM",
@@ -369,6 +373,7 @@ class PlanResults(BaseModel):
     tasks: List[Task]
     all_modules: List[str]
     saved_modules: List[str]
+    biased_modules: Set[str]
     base_vocab_size: int
     final_vocab_size: int
 
@@ -415,6 +420,8 @@ def plan_extraction(
         embed_lora = False
     del dummy_base
 
+    model_index = LoaderCache().get(model_ref).index
+    biased_modules = set()
     warned_modules = set()
     saved_modules = []
 
@@ -430,6 +437,8 @@ def plan_extraction(
     ):
         wi = name_to_wi.get(name + ".weight")
         bias_wi = name_to_wi.get(name + ".bias")
+        if bias_wi is not None and bias_wi.name not in model_index.tensor_paths:
+            bias_wi = None
         if wi is None:
             if hasattr(module, "weight"):
                 LOG.warning(
@@ -470,6 +479,8 @@ def plan_extraction(
         elif _should_extract(name):
             if isinstance(module, (nn.Linear, nn.Embedding)):
                 LOG.info(f"Planning LoRA extraction for {name}")
+                if bias_wi is not None:
+                    biased_modules.add(name)
                 targets.extend(
                     plan_lora_module(
                         base_model_ref,
@@ -505,6 +516,7 @@ def plan_extraction(
         tasks=targets + [finalize],
         all_modules=[name for name, _ in dummy_model.named_modules()],
         saved_modules=saved_modules,
+        biased_modules=biased_modules,
         base_vocab_size=base_vocab,
         final_vocab_size=ft_vocab,
     )
-- 
2.43.0


From adf664fd0b30a9925573a6cd79a42a59410baf93 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 086/121] fix: extracting an adapter from a model whose
 architecture is not in the list crashed instead of being read from the
 checkpoint

---
 mergekit/scripts/extract_lora.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 4e25725..d54b92d 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -16,6 +16,7 @@ import transformers
 from pydantic import BaseModel
 
 from mergekit.architecture import WeightInfo, arch_info_for_config
+from mergekit.architecture.auto import infer_architecture_info
 from mergekit.card import generate_card_lora
 from mergekit.common import ModelReference, get_auto_cls
 from mergekit.graph import Executor, Task
@@ -609,6 +610,8 @@ def all_weights_map(
     name_to_wi = {}
     model_cfg = model_ref.config(trust_remote_code=options.trust_remote_code)
     arch_info = arch_info_for_config(model_cfg)
+    if arch_info is None:
+        arch_info = infer_architecture_info((model_ref,), model_ref, options)
     for wi in arch_info.all_weights(model_cfg):
         name_to_wi[wi.name] = wi
     return name_to_wi
-- 
2.43.0


From 042e6f72558eee713945c85da2165981ba7a4255 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 087/121] fix: prefix and byte matching for embeddings only was
 applied to the output layer only, and the other way round

---
 mergekit/scripts/tokensurgeon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 6c6e079..2be3fae 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -717,8 +717,8 @@ def main(
             orig_vocab=orig_vocab,
             donor_vocab=donor_vocab,
             junk_tokens=junk_tokens,
-            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
-            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
+            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
+            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
             is_lm_head=False,
             options=options,
         )
@@ -741,8 +741,8 @@ def main(
             orig_vocab=orig_vocab,
             donor_vocab=donor_vocab,
             junk_tokens=junk_tokens,
-            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
-            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
+            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
+            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
             is_lm_head=True,
             options=options,
         )
-- 
2.43.0


From 3990c47f4ca764dd7a928468e6bc81465c086837 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 088/121] fix: tokenizer transplantation with a sparse token
 basis always crashed

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 2be3fae..907096b 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -437,7 +437,7 @@ def build_embedding_matrix(
             safe_orig_vocab,
             safe_donor_vocab,
             junk_tokens,
-            options,
+            options.k,
         )
     else:
         token_basis = None
-- 
2.43.0


From a1abb0ccb5a75ad931ea5acba7e32f68511e8c95 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 089/121] fix: john_hewitt initialization crashed on a singular
 covariance matrix

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 907096b..f389fd0 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -238,7 +238,7 @@ def john_hewitt_init(orig_embed: torch.Tensor, num_new_tokens: int) -> torch.Ten
         )
         return (
             torch.randn(
-                len(num_new_tokens),
+                num_new_tokens,
                 orig_embed.shape[1],
                 device=orig_embed.device,
                 dtype=orig_embed.dtype,
-- 
2.43.0


From 4058e7f001944277fee0e058a679fa334a05201f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 090/121] fix: noise and scale of new tokens crashed with the
 mean of the embeddings

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index f389fd0..ad9819a 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -267,7 +267,7 @@ def compute_new_embeddings(
     assert all(t in donor_vocab for t in target_tokens)
     if options.method == ApproximationMethod.MEAN:
         mean = orig_embed.mean(dim=0)
-        return mean.unsqueeze(0).expand(len(target_tokens), -1)
+        return mean.unsqueeze(0).repeat(len(target_tokens), 1)
     elif options.method == ApproximationMethod.ZERO:
         return torch.zeros(
             len(target_tokens),
-- 
2.43.0


From 2744743aa64872124d66d1c840ba10f176e5f6ed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 091/121] fix: landmark PCA applied the inverse of the rotation
 between the embedding spaces

---
 mergekit/tokensurgeon/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/pca.py b/mergekit/tokensurgeon/pca.py
index 9a1a8fc..f50ee73 100644
--- a/mergekit/tokensurgeon/pca.py
+++ b/mergekit/tokensurgeon/pca.py
@@ -50,7 +50,7 @@ def landmark_pca_approximate(
     B_pca = torch.mm(centered_b, V_b)  # (N, effective_dim)
 
     # Compute Procrustes matrix and solve for optimal rotation
-    M = torch.mm(B_pca.t(), A_pca)  # (effective_dim, effective_dim)
+    M = torch.mm(A_pca.t(), B_pca)  # (effective_dim, effective_dim)
     U, S, V = torch.svd(M)
     R = torch.mm(U, V.t())  # (effective_dim, effective_dim)
 
-- 
2.43.0


From 2b80fab521c41c20ce9291046ccd9104942ab999 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 092/121] fix: weights of the weighted mean of subwords were
 reversed

---
 mergekit/tokensurgeon/subword.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/subword.py b/mergekit/tokensurgeon/subword.py
index e30cc26..8811bbc 100644
--- a/mergekit/tokensurgeon/subword.py
+++ b/mergekit/tokensurgeon/subword.py
@@ -41,7 +41,7 @@ def subword_approximate(
                 res[idx] /= len(token_ids)
         elif subword_method == SubwordMethod.WEIGHTED_MEAN:
             weights = list(range(1, len(token_ids) + 1))
-            if not is_lm_head:
+            if is_lm_head:
                 # for embed_tokens, want last token to have highest weight
                 # (vs. first token for lm_head)
                 weights = weights[::-1]
-- 
2.43.0


From 2535507cb05ce13ae3d06def01f90ebbc96cc2ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 093/121] fix: orthogonal matching pursuit returned huge or NaN
 coefficients for linearly dependent embeddings

---
 mergekit/tokensurgeon/omp.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/mergekit/tokensurgeon/omp.py b/mergekit/tokensurgeon/omp.py
index 1ce3979..a65ad7b 100644
--- a/mergekit/tokensurgeon/omp.py
+++ b/mergekit/tokensurgeon/omp.py
@@ -50,6 +50,8 @@ def batch_omp(
     r = torch.zeros((B, k, k), dtype=work_dtype, device=device)
     selected_indices = torch.zeros((B, k), dtype=torch.long, device=device)
     mask = torch.zeros((B, N), dtype=torch.bool, device=device)
+    redundant = torch.zeros((B, k), dtype=torch.bool, device=device)
+    rel_eps = 100 * torch.finfo(work_dtype).eps
     residuals = targets_work.clone()
 
     for t in range(k):
@@ -66,9 +68,7 @@ def batch_omp(
 
         new_atom = points_work[new_idx]  # (B, D)
         if t == 0:
-            r[:, 0, 0] = new_atom.norm(dim=1)
-            norm = r[:, 0, 0].clamp(min=eps)
-            q[:, :, 0] = new_atom / norm.unsqueeze(1)
+            residual = new_atom
         else:
             # Project onto existing basis
             projections = torch.bmm(
@@ -81,15 +81,27 @@ def batch_omp(
             ).squeeze(
                 -1
             )  # (B, D)
-            norm = torch.clamp(torch.norm(residual, dim=1), min=eps)
-            # Update R and Q
             r[:, :t, t] = projections
-            r[:, t, t] = norm
-            q[:, :, t] = residual / norm.unsqueeze(-1)
+        # Update R and Q
+        norm = torch.norm(residual, dim=1)
+        # An atom in the span of the atoms already selected gets a coefficient of zero
+        redundant[:, t] = norm <= torch.clamp(
+            rel_eps * torch.norm(new_atom, dim=1), min=eps
+        )
+        norm = norm.masked_fill(redundant[:, t], 1.0)
+        r[:, t, t] = norm
+        q[:, :, t] = (residual / norm.unsqueeze(-1)).masked_fill(
+            redundant[:, t].unsqueeze(-1), 0.0
+        )
 
         if t > 0 and t % reorthogonalize_interval == 0:
             q_b = q[:, :, : t + 1]
             q_new, r_new = torch.linalg.qr(q_b, mode="reduced")
+            keep = redundant[:, : t + 1].any(dim=1).view(-1, 1, 1)
+            q_new = torch.where(keep, q_b, q_new)
+            r_new = torch.where(
+                keep, torch.eye(t + 1, dtype=work_dtype, device=device), r_new
+            )
             r[:, : t + 1, : t + 1] = torch.bmm(r_new, r[:, : t + 1, : t + 1])
             q[:, :, : t + 1] = q_new
 
-- 
2.43.0


From 2f1222708f6c6582e7bd0e1c3ddc8b5f611131c0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 094/121] fix: matching pursuit with RoPE crashed with
 transformers v5 configurations

---
 mergekit/scripts/tokensurgeon.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index ad9819a..07ca81a 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -253,6 +253,14 @@ def john_hewitt_init(orig_embed: torch.Tensor, num_new_tokens: int) -> torch.Ten
     return new_embeds.to(orig_embed.dtype)
 
 
+def get_rope_base(config: transformers.PretrainedConfig) -> float:
+    theta = getattr(config, "rope_theta", None)
+    if theta is None:
+        # transformers v5 keeps it with the other RoPE parameters
+        theta = (getattr(config, "rope_parameters", None) or {}).get("rope_theta")
+    return 10000.0 if theta is None else theta
+
+
 def compute_new_embeddings(
     orig_embed: torch.Tensor,
     donor_embed: torch.Tensor,
@@ -334,8 +342,8 @@ def compute_new_embeddings(
                 k=options.k,
                 num_heads_a=donor_config.num_attention_heads,
                 num_heads_b=model_config.num_attention_heads,
-                a_rope_base=donor_config.rope_theta,
-                b_rope_base=model_config.rope_theta,
+                a_rope_base=get_rope_base(donor_config),
+                b_rope_base=get_rope_base(model_config),
             )
         else:
             indices, coeffs = batch_omp(targets, donor_shared_embeds, options.k)
-- 
2.43.0


From fd4cf3c4bd196744994e1cb0030f34c0dc4deb99 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 095/121] fix: common interpolation crashed on half precision
 embeddings

---
 mergekit/tokensurgeon/common_interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mergekit/tokensurgeon/common_interpolation.py b/mergekit/tokensurgeon/common_interpolation.py
index 0f1dde3..cb9e72f 100644
--- a/mergekit/tokensurgeon/common_interpolation.py
+++ b/mergekit/tokensurgeon/common_interpolation.py
@@ -89,6 +89,9 @@ def common_interp_approximate(
     assert a_embeddings.dim() == 2
     assert targets.size(1) == a_embeddings.size(1)
     assert (k is None) or (k > 0), "k must be positive"
+    # distances are not implemented for half precision on all devices
+    targets = targets.to(torch.float32)
+    a_embeddings = a_embeddings.to(torch.float32)
 
     if metric == DistanceMetric.EUCLIDEAN:
         distances = torch.cdist(targets, a_embeddings, p=2)
-- 
2.43.0


From 758beafbc4d010cf8da2e20e19820caa145cfa31 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 096/121] fix: tokenizer transplantation left the bias of the
 output layer in the order of the old vocabulary

---
 mergekit/scripts/tokensurgeon.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 07ca81a..4d809d0 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -531,6 +531,25 @@ def build_embedding_matrix(
     return res
 
 
+def get_bias_name(weight_info: WeightInfo) -> str:
+    return weight_info.name.removesuffix(".weight") + ".bias"
+
+
+def build_output_bias(
+    orig_bias: torch.Tensor,
+    orig_vocab: Dict[NormalizedToken, int],
+    donor_vocab: Dict[NormalizedToken, int],
+    new_vocab_size: int,
+) -> torch.Tensor:
+    """Arrange the bias of the output layer by donor token. New tokens get none."""
+    res = torch.zeros(new_vocab_size, device=orig_bias.device, dtype=orig_bias.dtype)
+    for token, donor_idx in donor_vocab.items():
+        orig_idx = orig_vocab.get(token)
+        if orig_idx is not None and orig_idx < orig_bias.shape[0]:
+            res[donor_idx] = orig_bias[orig_idx]
+    return res
+
+
 class AllowMatch(enum.Enum):
     LM_HEAD_ONLY = "lm_head"
     EMBED_ONLY = "embed"
@@ -786,6 +805,14 @@ def main(
             tensor = cache.get(options.model).get_tensor(
                 weight_info.name, aliases=weight_info.aliases, raise_on_missing=False
             )
+            if (
+                tensor is not None
+                and lm_head_wi is not None
+                and weight_info.name == get_bias_name(lm_head_wi)
+            ):
+                tensor = build_output_bias(
+                    tensor, orig_vocab, donor_vocab, new_vocab_size
+                )
         if tensor is None:
             if weight_info.optional:
                 continue
-- 
2.43.0


From 9af7748edfa280b18f14eb872309a98904019f72 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:41:56 +0000
Subject: [PATCH 097/121] fix: tokenizer transplantation crashed for
 architectures without an output layer

---
 mergekit/scripts/tokensurgeon.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 4d809d0..11b4322 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -106,7 +106,7 @@ def get_arch_info(
 
 def get_embedding_info(
     arch_info: ConfiguredModelArchitecture,
-) -> Tuple[WeightInfo, WeightInfo]:
+) -> Tuple[WeightInfo, Optional[WeightInfo]]:
     """Get WeightInfo for the input and output embeddings of a model."""
 
     if len(arch_info.info.modules) != 1:
@@ -159,12 +159,14 @@ def get_stuff(
         aliases=maybe_aliases(embed_wi, get_tied),
         raise_on_missing=not embed_wi.optional,
     )
-    lm_head = loader.get_tensor(
-        lm_head_wi.name,
-        device=device,
-        aliases=maybe_aliases(lm_head_wi, get_tied),
-        raise_on_missing=not lm_head_wi.optional,
-    )
+    lm_head = None
+    if lm_head_wi is not None:
+        lm_head = loader.get_tensor(
+            lm_head_wi.name,
+            device=device,
+            aliases=maybe_aliases(lm_head_wi, get_tied),
+            raise_on_missing=not lm_head_wi.optional,
+        )
     return vocab, embed, lm_head
 
 
@@ -774,7 +776,7 @@ def main(
             options=options,
         )
     else:
-        if not lm_head_wi.optional:
+        if lm_head_wi is not None and not lm_head_wi.optional:
             raise RuntimeError(
                 f"Missing tensor {lm_head_wi.name} in model {options.model}"
             )
-- 
2.43.0


From f8eba20bc1a0756cea4d33a5dc61f4a810de827a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:47:06 +0000
Subject: [PATCH 098/121] fix: tokenizer transplantation could not read
 mixtures of experts in the layout transformers saves

---
 mergekit/scripts/tokensurgeon.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 11b4322..1f2d15f 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -21,6 +21,7 @@ from mergekit.architecture.auto import infer_architecture_info
 from mergekit.common import ModelReference, set_config_value
 from mergekit.io.tasks import (
     LoaderCache,
+    LoadTensor,
 )
 from mergekit.io.tensor_writer import TensorWriter
 from mergekit.options import MergeOptions, PrettyPrintHelp, add_merge_options
@@ -804,9 +805,12 @@ def main(
         elif lm_head_wi is not None and weight_info.name == lm_head_wi.name:
             tensor = new_lm_head
         else:
-            tensor = cache.get(options.model).get_tensor(
-                weight_info.name, aliases=weight_info.aliases, raise_on_missing=False
-            )
+            tensor = LoadTensor(
+                model=options.model,
+                tensor=weight_info.name,
+                optional=True,
+                aliases=maybe_aliases(weight_info, tied=False),
+            ).execute()
             if (
                 tensor is not None
                 and lm_head_wi is not None
-- 
2.43.0


From 02dfea91369a7e8600a1ad3c52a9b125c84d624b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 099/121] fix: output layer of Cohere and LFM2 models with tied
 embeddings was not found when one was needed

---
 mergekit/_data/architectures/cohere.json  | 5 ++++-
 mergekit/_data/architectures/cohere2.json | 5 ++++-
 mergekit/_data/architectures/lfm2.json    | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/mergekit/_data/architectures/cohere.json b/mergekit/_data/architectures/cohere.json
index 9cdbab2..47d3fe7 100644
--- a/mergekit/_data/architectures/cohere.json
+++ b/mergekit/_data/architectures/cohere.json
@@ -16,7 +16,10 @@
         {
             "name": "lm_head.weight",
             "is_embed": true,
-            "optional": true
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
diff --git a/mergekit/_data/architectures/cohere2.json b/mergekit/_data/architectures/cohere2.json
index ce48232..79ce12f 100644
--- a/mergekit/_data/architectures/cohere2.json
+++ b/mergekit/_data/architectures/cohere2.json
@@ -16,7 +16,10 @@
         {
             "name": "lm_head.weight",
             "is_embed": true,
-            "optional": true
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
diff --git a/mergekit/_data/architectures/lfm2.json b/mergekit/_data/architectures/lfm2.json
index f972a2a..f238c5a 100644
--- a/mergekit/_data/architectures/lfm2.json
+++ b/mergekit/_data/architectures/lfm2.json
@@ -17,7 +17,10 @@
         {
             "name": "lm_head.weight",
             "is_embed": true,
-            "optional": true
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
-- 
2.43.0


From 95ae54e34f62027008cd471ad205c30af724035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:07 +0000
Subject: [PATCH 100/121] fix: negative genes of slerp genomes were not made
 positive without allow_negative_weights

---
 mergekit/evo/genome.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/genome.py b/mergekit/evo/genome.py
index fdb1ac7..fe72224 100644
--- a/mergekit/evo/genome.py
+++ b/mergekit/evo/genome.py
@@ -285,9 +285,13 @@ class ModelGenome:
                 ]
             }
 
+            values = genotype[slice_idx, :, 0, 0]
+            if not self.definition.allow_negative_weights:
+                values = torch.abs(values)
+
             # Choose the two models with the highest weight and
             # calculate the interpolation parameter t
-            chosen = torch.topk(genotype[slice_idx, :, 0, 0], 2)
+            chosen = torch.topk(values, 2)
             t = torch.softmax(chosen.values, dim=-1)[1].item()
             s["parameters"] = {"t": t}
             s["base_model"] = self.definition.models[chosen.indices[0].item()]
-- 
2.43.0


From 01cc89f68c51160c1435203da5b5e10232782d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:07 +0000
Subject: [PATCH 101/121] fix: slerp genomes with a separate base model could
 not be merged

---
 mergekit/evo/genome.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/mergekit/evo/genome.py b/mergekit/evo/genome.py
index fe72224..63ca0e0 100644
--- a/mergekit/evo/genome.py
+++ b/mergekit/evo/genome.py
@@ -303,19 +303,6 @@ class ModelGenome:
                 s["sources"][0]["parameters"] = {"weight": 1 - t}
                 s["sources"][1]["parameters"] = {"weight": t}
 
-            if self.definition.base_model and (
-                self.definition.base_model not in self.definition.models
-            ):
-                s["sources"].append(
-                    {
-                        "model": self.definition.base_model,
-                        "layer_range": [
-                            slice_idx * layer_step,
-                            (slice_idx + 1) * layer_step,
-                        ],
-                    }
-                )
-
             slices.append(s)
         return slices
 
-- 
2.43.0


From dd347b3f26b78a5483372426f5f69a733cc5378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:47 +0000
Subject: [PATCH 102/121] fix: linear merges with a base model that has no
 weight of its own crashed

---
 mergekit/merge_methods/linear.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/linear.py b/mergekit/merge_methods/linear.py
index be48bb5..986fcc9 100644
--- a/mergekit/merge_methods/linear.py
+++ b/mergekit/merge_methods/linear.py
@@ -32,7 +32,12 @@ class LinearMergeTask(Task[torch.Tensor]):
     def execute(
         self, tensors: Dict[ModelReference, torch.Tensor], **_kwargs
     ) -> torch.Tensor:
-        keys = list(tensors.keys())
+        # a base model that has no weight takes no part
+        keys = [
+            key
+            for key in tensors.keys()
+            if self.tensor_parameters[key]["weight"] is not None
+        ]
 
         tensors = [tensors[key] for key in keys]
         weights = [self.tensor_parameters[key]["weight"] for key in keys]
-- 
2.43.0


From 96b7e0ba44e55bf8e57c2c4e5ee8286f10e360e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 103/121] fix: on-disk evaluation by the pool strategy crashed
 without an accelerator

---
 mergekit/evo/actors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index 8d0f231..dc86f85 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -94,7 +94,9 @@ class OnDiskMergeEvaluator(MergeActorBase):
         torch_accelerator_module = get_torch_accelerator_module(
             self.merge_options.device
         )
-        torch_accelerator_module.empty_cache()
+        if hasattr(torch_accelerator_module, "empty_cache"):
+            # torch.cpu has no cache to empty
+            torch_accelerator_module.empty_cache()
         LOG.info("Merging model")
         merged_path = merge_model(
             genotype, self.genome, self.model_storage_path, self.merge_options
-- 
2.43.0


From e25aac2801653a8a05781265d5bdee56b996c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:41 +0000
Subject: [PATCH 104/121] fix: a failed merge or evaluation made the buffered
 strategy wait for ever

---
 mergekit/evo/strategy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index adb6929..02b06d9 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -187,7 +187,13 @@ class BufferedRayEvaluationStrategyActor:
                         merged.append((future_result, r))
                     elif r in evaluating:
                         future_result = evaluating.pop(r)
-                        future_result.set_result(await r)
+                        try:
+                            result = await r
+                        except Exception as e:
+                            # whoever is waiting for this genotype has to know
+                            future_result.set_exception(e)
+                        else:
+                            future_result.set_result(result)
 
                 if (
                     not self.input_queue
-- 
2.43.0


From ae705a3c85d86e3f946122abbcc6f3e9814e55bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:41 +0000
Subject: [PATCH 105/121] fix: quantized evaluation failed with the buffered
 and serial strategies

---
 mergekit/evo/strategy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index 02b06d9..f6b2ddf 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -157,9 +157,9 @@ class BufferedRayEvaluationStrategyActor:
 
                 while merged and len(evaluating) < self.num_gpus:
                     future_result, merged_path = merged.pop()
-                    kwargs = {}
+                    model_kwargs = {}
                     if self.quantization_config is not None:
-                        kwargs["quantization_config"] = self.quantization_config
+                        model_kwargs["quantization_config"] = self.quantization_config
                     evaluating[
                         evaluate_model_ray.remote(
                             merged_path,
@@ -171,7 +171,7 @@ class BufferedRayEvaluationStrategyActor:
                             task_manager=self.task_manager,
                             apply_chat_template=self.config.apply_chat_template,
                             fewshot_as_multiturn=self.config.fewshot_as_multiturn,
-                            **kwargs,
+                            model_kwargs=model_kwargs,
                         )
                     ] = future_result
 
@@ -265,9 +265,9 @@ def evaluate_genotype_serial(
     )
     if not merged_path:
         return {"score": None, "results": None}
-    kwargs = {}
+    model_kwargs = {}
     if quantization_config is not None:
-        kwargs["quantization_config"] = quantization_config
+        model_kwargs["quantization_config"] = quantization_config
     res = ray.get(
         evaluate_model_ray.options(scheduling_strategy=strat).remote(
             merged_path,
@@ -279,7 +279,7 @@ def evaluate_genotype_serial(
             task_manager=task_manager,
             apply_chat_template=config.apply_chat_template,
             fewshot_as_multiturn=config.fewshot_as_multiturn,
-            **kwargs,
+            model_kwargs=model_kwargs,
         )
     )
     ray.util.remove_placement_group(pg)
-- 
2.43.0


From 67a99595457eadf34038f33da4425bfaea2b5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:41 +0000
Subject: [PATCH 106/121] fix: invalid genotypes crashed the buffered and
 serial strategies

---
 mergekit/evo/helpers.py  | 8 ++++++--
 mergekit/evo/strategy.py | 2 --
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mergekit/evo/helpers.py b/mergekit/evo/helpers.py
index fd1fd1d..18f2273 100644
--- a/mergekit/evo/helpers.py
+++ b/mergekit/evo/helpers.py
@@ -48,7 +48,7 @@ def _eval_model(
 
 
 def evaluate_model(
-    merged_path: str,
+    merged_path: Optional[str],
     tasks: List[TaskConfiguration],
     num_fewshot: Optional[int],
     limit: Optional[int],
@@ -58,6 +58,10 @@ def evaluate_model(
     model_kwargs: Optional[Dict[str, Any]] = None,
     **kwargs,
 ) -> dict:
+    if not merged_path:
+        logging.error("Model merge failed")
+        return {"score": None, "results": None}
+
     # monkeypatch_tqdm()
     monkeypatch_lmeval_vllm()
     try:
@@ -97,7 +101,7 @@ def merge_model(
     genome: ModelGenome,
     model_storage_path: str,
     merge_options: MergeOptions,
-) -> str:
+) -> Optional[str]:
     # monkeypatch_tqdm()
     try:
         cfg = genome.genotype_merge_config(genotype)
diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index f6b2ddf..92e6251 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -263,8 +263,6 @@ def evaluate_genotype_serial(
     merged_path = merge_model_ray.options(scheduling_strategy=strat).remote(
         genotype, genome, model_storage_path, merge_options
     )
-    if not merged_path:
-        return {"score": None, "results": None}
     model_kwargs = {}
     if quantization_config is not None:
         model_kwargs["quantization_config"] = quantization_config
-- 
2.43.0


From b7a240faeba9d4b864f7c3c1091fc660bef0742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:41 +0000
Subject: [PATCH 107/121] fix: the serial strategy kept the resources of a
 genotype that could not be merged or evaluated

---
 mergekit/evo/strategy.py | 42 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index 92e6251..ce08205 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -260,27 +260,29 @@ def evaluate_genotype_serial(
     strat = ray.util.scheduling_strategies.PlacementGroupSchedulingStrategy(
         placement_group=pg
     )
-    merged_path = merge_model_ray.options(scheduling_strategy=strat).remote(
-        genotype, genome, model_storage_path, merge_options
-    )
-    model_kwargs = {}
-    if quantization_config is not None:
-        model_kwargs["quantization_config"] = quantization_config
-    res = ray.get(
-        evaluate_model_ray.options(scheduling_strategy=strat).remote(
-            merged_path,
-            config.tasks,
-            num_fewshot=config.num_fewshot,
-            limit=config.limit,
-            vllm=vllm,
-            batch_size=batch_size,
-            task_manager=task_manager,
-            apply_chat_template=config.apply_chat_template,
-            fewshot_as_multiturn=config.fewshot_as_multiturn,
-            model_kwargs=model_kwargs,
+    try:
+        merged_path = merge_model_ray.options(scheduling_strategy=strat).remote(
+            genotype, genome, model_storage_path, merge_options
         )
-    )
-    ray.util.remove_placement_group(pg)
+        model_kwargs = {}
+        if quantization_config is not None:
+            model_kwargs["quantization_config"] = quantization_config
+        res = ray.get(
+            evaluate_model_ray.options(scheduling_strategy=strat).remote(
+                merged_path,
+                config.tasks,
+                num_fewshot=config.num_fewshot,
+                limit=config.limit,
+                vllm=vllm,
+                batch_size=batch_size,
+                task_manager=task_manager,
+                apply_chat_template=config.apply_chat_template,
+                fewshot_as_multiturn=config.fewshot_as_multiturn,
+                model_kwargs=model_kwargs,
+            )
+        )
+    finally:
+        ray.util.remove_placement_group(pg)
     return res
 
 
-- 
2.43.0


From a77b302427e4f2f4d4660fe4980fd8c42c16c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 108/121] fix: merges of genotypes that failed left their
 directories in the storage path

---
 mergekit/evo/helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/helpers.py b/mergekit/evo/helpers.py
index 18f2273..2ce7d63 100644
--- a/mergekit/evo/helpers.py
+++ b/mergekit/evo/helpers.py
@@ -110,7 +110,12 @@ def merge_model(
         return None
     os.makedirs(model_storage_path, exist_ok=True)
     res = tempfile.mkdtemp(prefix="merged", dir=model_storage_path)
-    run_merge(cfg, out_path=res, options=merge_options)
+    try:
+        run_merge(cfg, out_path=res, options=merge_options)
+    except Exception:
+        # nobody else knows about this directory
+        shutil.rmtree(res, ignore_errors=True)
+        raise
     return res
 
 
-- 
2.43.0


From 3ab237fa2cc6358945b8dd246b82573ef862f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 109/121] fix: models evaluated in memory had an uninitialized
 output layer if it is tied to the embeddings

---
 mergekit/evo/actors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index dc86f85..3c7d04b 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -201,6 +201,9 @@ class InMemoryMergeEvaluator(MergeActorBase):
                 .requires_grad_(False)
             )
 
+        # no_init_weights also keeps tied weights from being tied
+        inner_model.tie_weights()
+
         if self.vllm:
             # oh i hate this
             with tempfile.TemporaryDirectory(
-- 
2.43.0


From 50b5e1a433fcb11170efc6c85d76575195b435e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 110/121] fix: models with weights in buffers could not be
 evaluated in memory

---
 mergekit/evo/actors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index 3c7d04b..231d06d 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -291,7 +291,8 @@ class InMemoryMergeEvaluator(MergeActorBase):
             else:
                 raise ValueError("Unknown LLM engine type")
             model = worker.model_runner.model
-        param_dict = dict(model.named_parameters())
+        # some architectures keep weights in buffers
+        param_dict = {**dict(model.named_buffers()), **dict(model.named_parameters())}
 
         stacked_mapping = {
             # mappings for Llama/Mistral attention weights to vLLM packed tensors
-- 
2.43.0


From 40ffed5b1a8d4a699507f1a79a8c3753b185ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:50 +0000
Subject: [PATCH 111/121] fix: rotary embeddings of models evaluated in memory
 were rounded to bfloat16

---
 mergekit/evo/actors.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index 231d06d..bdc9b5f 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -195,7 +195,6 @@ class InMemoryMergeEvaluator(MergeActorBase):
                     cfg_out,
                     **model_kwargs,
                 )
-                .bfloat16()
                 .to(self.merge_options.device)
                 .eval()
                 .requires_grad_(False)
-- 
2.43.0


From 040411a08483320788120204753acf9f4ba149ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:55 +0000
Subject: [PATCH 112/121] fix: architectures without a definition could not be
 evaluated in memory

---
 mergekit/evo/actors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index bdc9b5f..af1834f 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -26,7 +26,7 @@ except ImportError:
     vllm = None
 
 
-from mergekit.architecture import arch_info_for_config
+from mergekit.architecture import get_architecture_info
 from mergekit.common import get_torch_accelerator_module, get_torch_accelerator_type
 from mergekit.config import MergeConfiguration
 from mergekit.evo.config import EvolMergeConfiguration
@@ -150,7 +150,7 @@ class InMemoryMergeEvaluator(MergeActorBase):
         super().__init__(*args, vllm=vllm, **kwargs)
 
     def _maybe_init_model(self, config: MergeConfiguration):
-        ai = arch_info_for_config(self.genome._input_config_example)
+        ai = get_architecture_info(config, self.merge_options)
         cfg_out = _model_out_config(
             config,
             ai,
-- 
2.43.0


From ffd0e3976a7b65c0df221e75ee54560be92f3742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 113/121] fix: mergekit-evolve went on with input models a
 former run had not finished writing

---
 mergekit/scripts/evolve.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/mergekit/scripts/evolve.py b/mergekit/scripts/evolve.py
index ae3bcbf..0cc7eea 100644
--- a/mergekit/scripts/evolve.py
+++ b/mergekit/scripts/evolve.py
@@ -4,6 +4,7 @@
 import importlib.util
 import logging
 import os
+import tempfile
 import time
 import warnings
 from typing import List, Optional
@@ -410,19 +411,27 @@ def _reshard_model(
         torch_dtype=torch.bfloat16,
         cache_dir=os.path.join(storage_path, "transformers_cache"),
     )
-    model_hf.save_pretrained(
-        out_path, safe_serialization=True, out_shard_size=1_000_000_000_000
-    )
-    try:
-        tokenizer = transformers.AutoTokenizer.from_pretrained(
-            model.model.path,
-            revision=model.model.revision,
-            trust_remote_code=trust_remote_code,
-            use_fast=True,
+    # only a completely written model may appear among the input models
+    os.makedirs(os.path.dirname(out_path), exist_ok=True)
+    with tempfile.TemporaryDirectory(
+        dir=os.path.dirname(out_path), prefix="tmp_"
+    ) as tmp:
+        tmp_path = os.path.join(tmp, "resharded")
+        model_hf.save_pretrained(
+            tmp_path, safe_serialization=True, out_shard_size=1_000_000_000_000
         )
-        tokenizer.save_pretrained(out_path)
-    except Exception as e:
-        logging.warning(f"Could not save tokenizer for {model.model}", exc_info=e)
+        try:
+            tokenizer = transformers.AutoTokenizer.from_pretrained(
+                model.model.path,
+                revision=model.model.revision,
+                trust_remote_code=trust_remote_code,
+                use_fast=True,
+            )
+        except Exception as e:
+            logging.warning(f"Could not save tokenizer for {model.model}", exc_info=e)
+        else:
+            tokenizer.save_pretrained(tmp_path)
+        os.rename(tmp_path, out_path)
 
     return ModelReference(model=out_path)
 
-- 
2.43.0


From df6d0f237da7809ea29fe348d51ca20a145e5b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:58 +0000
Subject: [PATCH 114/121] fix: bakllama could not be started, and ignored
 embedding and output head sources

---
 mergekit/scripts/bakllama.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/mergekit/scripts/bakllama.py b/mergekit/scripts/bakllama.py
index e2d4b04..3b2854a 100644
--- a/mergekit/scripts/bakllama.py
+++ b/mergekit/scripts/bakllama.py
@@ -1,19 +1,20 @@
 # Copyright (C) 2026 Arcee AI
 # SPDX-License-Identifier: LGPL-3.0-only
 
-from typing import List, Optional
+from typing import Dict, List, Optional
 
 import click
 import yaml
 from pydantic import BaseModel
 
-from mergekit.common import MergeOptions
 from mergekit.config import (
     ConditionalParameter,
     InputSliceDefinition,
     MergeConfiguration,
+    OutputSliceDefinition,
 )
 from mergekit.merge import run_merge
+from mergekit.options import MergeOptions
 
 
 class LayerSlice(BaseModel):
@@ -29,6 +30,21 @@ class BakllamaConfig(BaseModel):
     lm_head_source: Optional[str] = None
 
 
+def _slice(
+    model: str,
+    start: int,
+    end: int,
+    parameters: Optional[Dict[str, ConditionalParameter]] = None,
+) -> OutputSliceDefinition:
+    return OutputSliceDefinition(
+        sources=[
+            InputSliceDefinition(
+                model=model, layer_range=(start, end), parameters=parameters
+            )
+        ]
+    )
+
+
 @click.command("bakllama")
 @click.argument("config_path", type=click.Path(exists=True, dir_okay=False))
 @click.argument("out_path", type=str)
@@ -57,11 +73,13 @@ def main(
             parameters["scale"] = ConditionalParameter(
                 value=s.scale, filter="down_proj"
             )
-        slices.append(
-            InputSliceDefinition(
-                model=s.model, layer_range=(s.start, s.end), parameters=parameters
-            )
-        )
+        slices.append(_slice(s.model, s.start, s.end, parameters))
+
+    # weights before and after the layers come from the first and last slice
+    if config.embedding_source is not None:
+        slices.insert(0, _slice(config.embedding_source, 0, 0))
+    if config.lm_head_source is not None:
+        slices.append(_slice(config.lm_head_source, 0, 0))
 
     merge_config = MergeConfiguration(
         merge_method="passthrough", slices=slices, dtype="float16" if fp16 else None
-- 
2.43.0


From c339837be440c8316c698734ede5c69365f46c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:58 +0000
Subject: [PATCH 115/121] fix: mergekit-layershuffle failed to count the layers
 of a model

---
 mergekit/scripts/layershuffle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index e961427..bf2a827 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -65,14 +65,15 @@ def main(
 
     m0_cfg = models[0].config()
     arch_info = arch_info_for_config(m0_cfg)
-    total_num_layers = arch_info.num_layers(m0_cfg)
+    module_arch = next(iter(arch_info.modules.values())).architecture
+    total_num_layers = module_arch.num_layers(m0_cfg)
 
     out_slices: List[OutputSliceDefinition] = []
 
     if full_random:
         for model, frac in zip(models, weight):
             cfg = model.config()
-            num_layers = int(arch_info.num_layers(cfg) * frac)
+            num_layers = int(module_arch.num_layers(cfg) * frac)
             for _ in range(num_layers):
                 src_idx = random.randrange(0, num_layers)
                 out_slices.append(
-- 
2.43.0


From 05fe306b5acb45b73ed567d9c37387276a07df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:58 +0000
Subject: [PATCH 116/121] fix: full-random layer shuffles only drew from the
 first layers of each model

---
 mergekit/scripts/layershuffle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index bf2a827..401cc50 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -73,9 +73,9 @@ def main(
     if full_random:
         for model, frac in zip(models, weight):
             cfg = model.config()
-            num_layers = int(module_arch.num_layers(cfg) * frac)
-            for _ in range(num_layers):
-                src_idx = random.randrange(0, num_layers)
+            src_num_layers = module_arch.num_layers(cfg)
+            for _ in range(int(src_num_layers * frac)):
+                src_idx = random.randrange(0, src_num_layers)
                 out_slices.append(
                     OutputSliceDefinition(
                         sources=[
-- 
2.43.0


From 11ea3df5e7b0e24f4bd4a82f27391a8a9b0f2b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:58 +0000
Subject: [PATCH 117/121] fix: layer shuffles without weights failed

---
 mergekit/scripts/layershuffle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index 401cc50..3529b93 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -89,7 +89,7 @@ def main(
         random.shuffle(out_slices)
     else:
         for layer_idx in range(total_num_layers):
-            src_model = random.choices(models, weights=weight, k=1)[0]
+            src_model = random.choices(models, weights=weight or None, k=1)[0]
             if out_slices and out_slices[-1].sources[0].model == str(src_model):
                 out_slices[-1].sources[0].layer_range = (
                     out_slices[-1].sources[0].layer_range[0],
-- 
2.43.0


From 5449bd9a0b45f1f5a3d1fc4b6d924e31c789eedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:59 +0000
Subject: [PATCH 118/121] fix: mergekit-legacy did not default weights to 1

---
 mergekit/scripts/legacy.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mergekit/scripts/legacy.py b/mergekit/scripts/legacy.py
index 922a9a9..28f2860 100644
--- a/mergekit/scripts/legacy.py
+++ b/mergekit/scripts/legacy.py
@@ -96,11 +96,12 @@ def main(
         assert len(weight) == 1, "Must specify exactly one weight for SLERP"
         parameters["t"] = weight[0]
     else:
-        if weight:
-            if len(weight) == 1:
-                weight = [weight[0]] * len(models)
-            for idx, w in enumerate(weight):
-                models[idx].parameters["weight"] = w
+        if not weight:
+            weight = [1.0]
+        if len(weight) == 1:
+            weight = [weight[0]] * len(models)
+        for idx, w in enumerate(weight):
+            models[idx].parameters["weight"] = w
 
     if int8_mask:
         parameters["int8_mask"] = True
-- 
2.43.0


From 95d50d30bdcebd02ea30f6545fd6dc3b9fc3977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:59 +0000
Subject: [PATCH 119/121] fix: fill_missing_params could not be run as a script

---
 mergekit/scripts/fill_missing_params.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index b0bb7b0..6fa4e62 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -196,10 +196,6 @@ def main(
     )
 
 
-if __name__ == "__main__":
-    main()
-
-
 class ParameterNamesUtils:
     """Utility functions for handling parameter names."""
 
@@ -394,3 +390,7 @@ class ParameterNamesUtils:
             Path(index.base_path) / index.tensor_paths[name], framework="pt"
         ) as f:
             return f.get_slice(name).get_shape()
+
+
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From 008bd5ce77a9ebc84905a4c606ebf96179ca3ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:59 +0000
Subject: [PATCH 120/121] fix: fill_missing_params could not read pickled
 checkpoints

---
 mergekit/scripts/fill_missing_params.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index 6fa4e62..1467c45 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -11,7 +11,7 @@ from huggingface_hub import snapshot_download
 from safetensors import safe_open
 from tqdm import tqdm
 
-from mergekit.io.lazy_tensor_loader import ShardedTensorIndex
+from mergekit.io.lazy_tensor_loader import LazyTensorLoader, ShardedTensorIndex
 from mergekit.io.tensor_writer import TensorWriter
 
 DEFAULT_SHARD_SIZE = 5 * 1024**3
@@ -144,6 +144,9 @@ def copy_and_fill_missing_params(
         str(ParameterNamesUtils.resolve_model_directory(sub_model_dir))
     )
 
+    base_loader = LazyTensorLoader(base_index, lazy_unpickle=False)
+    submodel_loader = LazyTensorLoader(submodel_index, lazy_unpickle=False)
+
     # Initialize the tensor writer
     writer = TensorWriter(
         out_path=str(output_dir), max_shard_size=max_shard_size, safe_serialization=True
@@ -156,12 +159,12 @@ def copy_and_fill_missing_params(
         desc="Merging tensors",
         unit="tensor",
     ):
-        tensor = load_tensor_from_index(name, base_index)
+        tensor = base_loader.get_tensor(name)
 
         # Check if the parameter is common to both models
         if name in common_param_names:
             submodel_name = ParameterNamesUtils.strip_prefix(name, prefix)
-            submodel_tensor = load_tensor_from_index(submodel_name, submodel_index)
+            submodel_tensor = submodel_loader.get_tensor(submodel_name)
 
             # Log size mismatches
             if submodel_tensor.size() != tensor.size():
-- 
2.43.0


From 31e338ba6738853e88cb351dba78be830a5dfac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:59 +0000
Subject: [PATCH 121/121] fix: which of two equally matching parts
 fill_missing_params filled was left to chance

---
 mergekit/scripts/fill_missing_params.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index 1467c45..3fd2bfe 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -230,7 +230,10 @@ class ParameterNamesUtils:
         """
         assert len(list1) >= len(list2), "params name list1 can't be shorter than list2"
 
-        possible_prefixes = {item.split(".")[0] for item in list1 if "." in item}
+        # in order of appearance, which is also the order of preference
+        possible_prefixes = dict.fromkeys(
+            item.split(".")[0] for item in list1 if "." in item
+        )
         possible_prefixes = [""] + list(possible_prefixes)
 
         prefix_matches = {}
-- 
2.43.0

