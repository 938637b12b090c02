From 0253a436765f084157267465d9af5b40c23cb589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 01/55] fix: store only the elements of views and
 non-contiguous tensors

tensor_to_bytes dumped the whole underlying storage starting at the data
pointer, so slices, transposed tensors and views were stored with wrong bytes.
---
 sd_mecha/streaming.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 100c2f7..38a2901 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -335,12 +335,14 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 # src: https://github.com/huggingface/safetensors/blob/aa4ad823cf71d913f283b70332d37ab45803949d/bindings/python/py_src/safetensors/torch.py#L405
 # this function is Apache 2.0: https://github.com/huggingface/safetensors/blob/main/LICENSE
 def tensor_to_bytes(tensor: torch.Tensor) -> bytes:
-    # assume tensor is not spare nor contiguous and on the cpu
-    total_bytes = len(tensor.untyped_storage())
+    # assume tensor is not sparse and on the cpu
+    # views (slices, transposes, etc.) share the storage of another tensor, only keep the elements of this one
+    tensor = tensor.detach().resolve_conj().resolve_neg().contiguous()
+    total_bytes = tensor.numel() * tensor.element_size()
+    if total_bytes == 0:
+        return b""
 
     ptr = tensor.data_ptr()
-    if ptr == 0:
-        return b""
     newptr = ctypes.cast(ptr, ctypes.POINTER(ctypes.c_ubyte))
     data = numpy.ctypeslib.as_array(newptr, (total_bytes,))  # no internal copy
     if sys.byteorder == "big":
-- 
2.43.0


From 99e2c5492944490ac54afe0d8c321a9c52e2c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 02/55] fix: allow growing the header when the write buffer
 size is 0

---
 sd_mecha/streaming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 38a2901..64adb07 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -312,8 +312,9 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
                 self.file = open(self.file_path, "rb+")
 
                 # move data in chunks from the end to avoid overwriting
-                for chunk_end in tqdm(range(old_file_end, old_data_section, -self.minimum_buffer_size), desc="Reallocating data section"):
-                    chunk_start = max(chunk_end - self.minimum_buffer_size, old_data_section)
+                max_chunk_size = self.minimum_buffer_size or 2**20
+                for chunk_end in tqdm(range(old_file_end, old_data_section, -max_chunk_size), desc="Reallocating data section"):
+                    chunk_start = max(chunk_end - max_chunk_size, old_data_section)
                     chunk_size = chunk_end - chunk_start
                     self.file.seek(chunk_start)
                     data = self.file.read(chunk_size)
-- 
2.43.0


From f7b7e2b20ac195efc1dc21284c6d77a4bb2553ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 03/55] fix: raise on truncated inputs and complete short reads
 and writes

Reads past the end of a truncated input silently produced zeros (or the bytes
previously in the buffer), and the unbuffered files may transfer less bytes
than requested in one call.
---
 sd_mecha/streaming.py | 55 +++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 64adb07..a8c74b9 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -2,6 +2,7 @@ import abc
 import contextlib
 import ctypes
 import dataclasses
+import io
 import json
 import pathlib
 import struct
@@ -128,9 +129,9 @@ class InSafetensorsDict(SafetensorsMapping):
             yield key, self[key]
 
     def _read_header(self):
-        header_size_bytes = self.file.read(8)
+        header_size_bytes = read_exactly(self.file, 8)
         header_size = struct.unpack('<Q', header_size_bytes)[0]
-        header_json = self.file.read(header_size).decode('utf-8').strip()
+        header_json = read_exactly(self.file, header_size).decode('utf-8').strip()
         header = json.loads(header_json)
 
         # sort by memory order to reduce seek time
@@ -140,13 +141,12 @@ class InSafetensorsDict(SafetensorsMapping):
     def _ensure_buffer(self, start_pos, length):
         if start_pos < self.buffer_start_offset or start_pos + length > self.buffer_start_offset + len(self.buffer):
             self.file.seek(start_pos)
-            necessary_buffer_size = max(self.default_buffer_size, length)
-            if len(self.buffer) < necessary_buffer_size:
-                self.buffer = bytearray(necessary_buffer_size)
-            else:
-                self.buffer = self.buffer[:necessary_buffer_size]
+            buffer = bytearray(max(self.default_buffer_size, length))
+            bytes_read = read_into(self.file, buffer)
+            if bytes_read < length:
+                raise EOFError(f"unexpected end of file in {self.file_path}: expected {length} bytes at offset {start_pos}, got {bytes_read}")
 
-            self.file.readinto(self.buffer)
+            self.buffer = buffer
             self.buffer_start_offset = start_pos
 
     def _load_tensor(self, tensor_name):
@@ -167,6 +167,37 @@ class InSafetensorsDict(SafetensorsMapping):
                 return torch.frombuffer(self.buffer, count=total_bytes // dtype_bytes, offset=buffer_offset, dtype=dtype).reshape(shape)
 
 
+# the files are unbuffered: the operating system may transfer less bytes than requested in a single call
+def read_into(file, buffer) -> int:
+    """Fill `buffer` from the current position of `file`. Only stops early at the end of the file."""
+    total_read = 0
+    with memoryview(buffer) as view:
+        while total_read < len(view):
+            n = file.readinto(view[total_read:])
+            if not n:
+                break
+            total_read += n
+    return total_read
+
+
+def read_exactly(file, size: int) -> bytes:
+    # the header tells how much to read: never allocate more than what the file can provide
+    position = file.tell()
+    available = file.seek(0, io.SEEK_END) - position
+    file.seek(position)
+    buffer = bytearray(max(0, min(size, available)))
+    if read_into(file, buffer) < size:
+        raise EOFError(f"unexpected end of file: expected {size} bytes at offset {position}")
+    return bytes(buffer)
+
+
+def write_all(file, data):
+    with memoryview(data) as view:
+        total_written = 0
+        while total_written < len(view):
+            total_written += file.write(view[total_written:])
+
+
 class StateDictKeyError(KeyError):
     """
     Exception raised when a requested key is missing from a streamed or in-memory state dict.
@@ -263,7 +294,7 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             lock = contextlib.nullcontext()
 
         with lock:
-            self.file.write(state.buffer[:state.memory_used])
+            write_all(self.file, state.buffer[:state.memory_used])
             buffer_offset = self.flushed_size
             self.flushed_size += state.memory_used
             state.memory_used = 0
@@ -327,9 +358,9 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
                 overhead = 0
 
             self.file.seek(0)
-            self.file.write(struct.pack('<Q', max(self.max_header_size, header_size)))
-            self.file.write(header_json)
-            self.file.write(b' ' * overhead)
+            write_all(self.file, struct.pack('<Q', max(self.max_header_size, header_size)))
+            write_all(self.file, header_json)
+            write_all(self.file, b' ' * overhead)
             self.file.close()
 
 
-- 
2.43.0


From f2f23e8425a4b1e053b33bc1bedecf6a58cf53bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 04/55] fix: do not remove ema keys from the model config when
 omitting them

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index e48c15c..8ba3fa2 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -158,7 +158,7 @@ def merge(
         if strict_weight_space and recipe.merge_space != "weight":
             raise ValueError(f"recipe should be in 'weight' space, not '{recipe.merge_space.identifier}'")
 
-        recipe_metadata = recipe.model_config.metadata()
+        recipe_metadata = OrderedDict(recipe.model_config.metadata())
         if not omit_extra_keys:
             recipe, recipe_metadata = copy_extra_keys(recipe)
 
-- 
2.43.0


From 76a588baef78e0316b5262e64e117163bfb464a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 05/55] fix: tensor_sum no longer writes into its inputs

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index aae7a68..b689c06 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -153,11 +153,12 @@ def tensor_sum(
 
     start_i, end_i, region_is_inverted = ratio_to_region(width, offset, a.size(0))
     if region_is_inverted:
-        b[start_i:end_i] = a[start_i:end_i]
-        return b
+        res = b.clone()
+        res[start_i:end_i] = a[start_i:end_i]
     else:
-        a[start_i:end_i] = b[start_i:end_i]
-        return a
+        res = a.clone()
+        res[start_i:end_i] = b[start_i:end_i]
+    return res
 
 
 @merge_method
-- 
2.43.0


From d3e8689a7bc4ec2bb7e5ed0cfeda10d01df84013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 06/55] fix: multiply_quotient no longer writes into alpha

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index b689c06..478df30 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -289,7 +289,7 @@ def multiply_quotient(
     c = torch.complex(c, torch.zeros_like(c))
 
     threshold = torch.maximum(torch.abs(ac_log), torch.abs(bc_log))
-    alpha *= torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
+    alpha = alpha * torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
 
     res = a * (b / c)**alpha
     res = torch.where(torch.isnan(res), a, res)
-- 
2.43.0


From 19f4ce0da78b6205da439507552bd88d46c07ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 07/55] fix: make rotate usable

The method indexed its tensor arguments by key, subtracted the centroids in
place from its inputs, and mixed up integer and fractional alignments.
---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 478df30..5ace3ea 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -382,8 +382,8 @@ def create_filter(shape: Tuple[int, ...] | torch.Size, alpha: float, tilt: float
 
 @merge_method
 def rotate(
-    a_dict: Parameter(Tensor),
-    b_dict: Parameter(Tensor),
+    a_dict: Parameter(StateDict[Tensor]),
+    b_dict: Parameter(StateDict[Tensor]),
     alignment: Parameter(float) = 1.0,
     alpha: Parameter(Tensor) = 0.0,
     **kwargs,
@@ -410,8 +410,8 @@ def rotate(
     b_neurons = b.reshape(*shape_2d)
     a_centroid = a_neurons.mean(0)
     b_centroid = b_neurons.mean(0)
-    a_neurons -= a_centroid
-    b_neurons -= b_centroid
+    a_neurons = a_neurons - a_centroid
+    b_neurons = b_neurons - b_centroid
 
     cache = kwargs.get("cache")
     if cache is not None:
@@ -420,7 +420,7 @@ def rotate(
             cache[key] = {}
         cache = cache[key]
 
-    alignment_is_float = math.isclose(alignment, round(alignment))
+    alignment_is_float = not math.isclose(alignment, round(alignment))
 
     if cache is not None and "rotation" in cache:
         rotation = transform = cache["rotation"].to(a.device, a.dtype)
-- 
2.43.0


From db82e6ffb2c16a9053825485ba1fe54ba0a2a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 08/55] fix: pass overlap_emphasis to the dropout method

---
 sd_mecha/merge_method_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 1d2bf39..0e93ad6 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -248,7 +248,7 @@ def dropout(
         subtract(model, a)
         for model in models
     ]
-    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_skew=overlap_emphasis, seed=seed)
+    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_emphasis=overlap_emphasis, seed=seed)
     return merge_methods.add_difference(a, ba_delta, alpha=alpha)
 
 
-- 
2.43.0


From 22a1094adc88e17b13f1c788cfcce6c99ed21af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 09/55] fix: make the rescale option of ties_with_dare work

The wrapper passed an option that the method does not have, and the method
rescaled exactly when asked not to.
---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 8 ++++----
 sd_mecha/merge_method_wrappers.py                     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 5ace3ea..e300640 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -700,13 +700,13 @@ def ties_sum_with_dropout(
         # Corner case
         return deltas * 0.0
     elif no_rescale:
-        # Rescale
-        # $$ \hat{\delta}^t = \tilde{\delta}^t / (1-p) $$
-        return deltas / (1.0 - probability) 
-    else:
         # No rescale
         # $$ \hat{\delta}^t = \tilde{\delta}^t $$
         return deltas
+    else:
+        # Rescale
+        # $$ \hat{\delta}^t = \tilde{\delta}^t / (1-p) $$
+        return deltas / (1.0 - probability)
 
 
 def binomial_coefficient_np(n, k):
diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 0e93ad6..1e86876 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -297,7 +297,7 @@ def ties_with_dare(
     res = ties_sum_with_dropout(
         *deltas,
         probability=probability,
-        rescale=rescale,
+        no_rescale=not rescale,
         k=k,
         vote_sgn=vote_sgn,
         seed=seed,
-- 
2.43.0


From 078f423912b0b91b904e736e58002ec0f8789772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 10/55] fix: enable the stock and median modes of
 ties_sum_extended only when asked

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index e300640..c446215 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -498,9 +498,9 @@ def ties_sum_extended(  # aka add_difference_ties
 ) -> Return(Tensor, "delta"):
     filtered_delta, param_counts = ties_sum_deltas(*models, k=k, vote_sgn=vote_sgn)
 
-    if apply_median:
+    if not apply_median:
         # Model Stock
-        t = 1.0 if apply_stock else get_model_stock_t(torch.unbind(filtered_delta), cos_eps=cos_eps)
+        t = 1.0 if not apply_stock else get_model_stock_t(torch.unbind(filtered_delta), cos_eps=cos_eps)
 
         filtered_delta = filtered_delta.sum(dim=0)
 
-- 
2.43.0


From 44dcb3e9c4199d057396d3ba37ac733900038bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 11/55] fix: serialize booleans and non-finite numbers in a
 form that can be deserialized

---
 sd_mecha/serialization.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 4db8a7f..20b9d89 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -1,6 +1,6 @@
 import logging
 import pathlib
-from typing import List, Optional, Hashable
+from typing import List, Optional
 from .extensions import merge_methods
 from .recipe_nodes import RecipeNode, ModelRecipeNode, RecipeVisitor, LiteralRecipeNode, MergeRecipeNode
 
@@ -86,7 +86,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
                 return results[ref_index]
             elif arg.startswith('"') and arg.endswith('"'):
                 return arg[1:-1]
-            elif '.' in arg or 'e' in arg.lower():
+            elif '.' in arg or 'e' in arg.lower() or arg in NON_FINITE_NUMBERS:
                 return float(arg)
             else:
                 return int(arg)
@@ -210,11 +210,11 @@ class SerializerVisitor(RecipeVisitor):
         if isinstance(value, dict):
             dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
+        # bool is a subclass of int, and 1 == 1.0 == True
+        if value is None or isinstance(value, bool):
+            return REVERSE_CONSTANTS[value]
         if isinstance(value, (int, float)):
             return str(value)
-        # int or float needs to be handled before this (1.0 == True)
-        if isinstance(value, Hashable) and value in REVERSE_CONSTANTS:
-            return REVERSE_CONSTANTS[value]
         if isinstance(value, RecipeNode):
             return value.accept(self)
         raise TypeError(f"type {type(value)} cannot be serialized: {value}")
@@ -235,3 +235,4 @@ CONSTANTS = {
 REVERSE_CONSTANTS = {
     v: k for k, v in CONSTANTS.items()
 }
+NON_FINITE_NUMBERS = {"inf", "-inf", "nan"}
-- 
2.43.0


From 0e06ae2b6e242e7587a020a5824855b4cbf7a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 12/55] fix: accept line terminators and blank lines in recipes

Lines of a file read with readlines() and texts ending with a newline were rejected.
---
 sd_mecha/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 20b9d89..a44f8a8 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -36,7 +36,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
     if not recipe[0].startswith("version"):
         raise RuntimeError("bad format: expected version at line 1")
 
-    actual_version, recipe = recipe[0], recipe[1:]
+    actual_version, recipe = recipe[0].rstrip("\r\n"), recipe[1:]
     expected_version = get_version_header(MECHA_FORMAT_VERSION)
     if actual_version != expected_version:
         raise RuntimeError(f"bad recipe version: got {actual_version}, expected {expected_version}")
@@ -45,7 +45,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
 
     def parse(line):
         line = line.strip()
-        if line.startswith("#"):
+        if not line or line.startswith("#"):
             return
 
         command, *args = tokenize(line)
-- 
2.43.0


From 20d37b44dabb0e3b45ccb718aec9292b3e88c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 13/55] fix: keep the merge space of literals and serialize
 recipes made of a single literal

---
 sd_mecha/serialization.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index a44f8a8..8905d7d 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -152,7 +152,10 @@ def serialize(recipe: RecipeNode, *, output: Optional[pathlib.Path | str] = None
         A string representation of the recipe, suitable for writing to a .mecha file.
     """
     serializer = SerializerVisitor()
-    recipe.accept(serializer)
+    if isinstance(recipe, LiteralRecipeNode):
+        serializer.add_literal(recipe)  # the last instruction has to be a recipe node
+    else:
+        recipe.accept(serializer)
     version_header = get_version_header(MECHA_FORMAT_VERSION)
     serialized = "\n".join([version_header] + serializer.instructions)
 
@@ -175,14 +178,17 @@ class SerializerVisitor(RecipeVisitor):
         self.instructions = instructions if instructions is not None else []
 
     def visit_literal(self, node: LiteralRecipeNode):
-        value = self.__serialize_value(node.value)
-        if node.model_config is None:
-            return value
+        if node.model_config is None and node.merge_space == "param":
+            return self.__serialize_value(node.value)
         else:
-            config = self.__serialize_value(node.model_config.identifier)
-            merge_space = self.__serialize_value(node.merge_space.identifier)
-            line = f"literal {value} model_config={config} merge_space={merge_space}"
-            return self.__add_instruction(line)
+            return self.add_literal(node)
+
+    def add_literal(self, node: LiteralRecipeNode) -> str:
+        value = self.__serialize_value(node.value)
+        config = self.__serialize_value(getattr(node.model_config, "identifier", None))
+        merge_space = self.__serialize_value(node.merge_space.identifier)
+        line = f"literal {value} model_config={config} merge_space={merge_space}"
+        return self.__add_instruction(line)
 
     def visit_model(self, node: ModelRecipeNode) -> str:
         path = self.__serialize_value(str(node.path))
-- 
2.43.0


From 2408ae13701d472361b7ceca5cd0f9664ae5b309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 14/55] fix: parse strings and dictionary keys with special
 characters in recipes

Positional strings containing '=' were read as keyword arguments, newlines in
strings broke the line format, dictionary keys were not quoted, and repeated
keywords or an unfinished escape sequence were silently dropped.
---
 sd_mecha/serialization.py | 64 ++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 8905d7d..01b103b 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -1,5 +1,6 @@
 import logging
 import pathlib
+import re
 from typing import List, Optional
 from .extensions import merge_methods
 from .recipe_nodes import RecipeNode, ModelRecipeNode, RecipeVisitor, LiteralRecipeNode, MergeRecipeNode
@@ -48,10 +49,14 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         if not line or line.startswith("#"):
             return
 
-        command, *args = tokenize(line)
+        (command_keyword, command), *args = tokenize(line)
+        if command_keyword is not None:
+            raise ValueError(f"unknown command: {command_keyword}")
         positional_args, keyword_args = preprocess_args(args)
         if command == "dict":
-            results.append(dict(*positional_args, **keyword_args))
+            if positional_args:
+                raise ValueError("dict only accepts keyword arguments")
+            results.append(keyword_args)
         elif command == "literal":
             results.append(LiteralRecipeNode(*positional_args, **keyword_args))
         elif command == "model":
@@ -67,12 +72,14 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
     def preprocess_args(args):
         positional_args = []
         named_args = {}
-        for arg_index, arg in enumerate(args):
-            if '=' in arg:
-                key, value = arg.split('=', maxsplit=1)
-                named_args[key] = get_arg_value(value, arg_index)
+        for arg_index, (key, arg) in enumerate(args):
+            value = get_arg_value(arg, arg_index)
+            if key is None:
+                positional_args.append(value)
+            elif key not in named_args:
+                named_args[key] = value
             else:
-                positional_args.append(get_arg_value(arg, arg_index))
+                raise ValueError(f"argument {arg_index}: repeated argument '{key}'")
         return positional_args, named_args
 
     def get_arg_value(arg, arg_index):
@@ -94,14 +101,19 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
             raise ValueError(f"argument {arg_index}: {str(e)}")
 
     def tokenize(line):
-        tokens = []
+        tokens = []  # pairs of (optional keyword, argument), where strings keep their surrounding quotes
+        keyword = None
         current_token = []
         quote_prefix = []
         inside_quotes = False
         is_escape = False
+        is_end_of_quotes = False
         for char in line:
+            was_end_of_quotes, is_end_of_quotes = is_end_of_quotes, False
             if is_escape:
                 is_escape = False
+                if inside_quotes:
+                    char = ESCAPED_CHARS.get(char, char)
             elif char == "\\":
                 is_escape = True
                 continue
@@ -111,20 +123,32 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
                     quote_prefix = current_token
                     current_token = []
                 else:  # End of quoted string
-                    tokens.append(f'{"".join(quote_prefix)}"{"".join(current_token)}"')
+                    tokens.append((keyword, f'{"".join(quote_prefix)}"{"".join(current_token)}"'))
+                    is_end_of_quotes = keyword is None and not quote_prefix
+                    keyword = None
                     current_token = []
                     quote_prefix = []
                 continue
+            elif char == '=' and not inside_quotes and keyword is None:
+                if was_end_of_quotes:  # Quoted keyword
+                    keyword = tokens.pop()[1][1:-1]
+                else:
+                    keyword = ''.join(current_token)
+                    current_token = []
+                continue
             elif char == ' ' and not inside_quotes:
-                if current_token:  # End of a token
-                    tokens.append(''.join(current_token))
+                if current_token or keyword is not None:  # End of a token
+                    tokens.append((keyword, ''.join(current_token)))
+                    keyword = None
                     current_token = []
                 continue
             current_token.append(char)
         if inside_quotes:  # Handle mismatched quotes
             raise ValueError(f"mismatched quotes in input")
-        if current_token:  # Add last token if exists
-            tokens.append(''.join(current_token))
+        if is_escape:
+            raise ValueError(f"incomplete escape sequence in input")
+        if current_token or keyword is not None:  # Add last token if exists
+            tokens.append((keyword, ''.join(current_token)))
         return tokens
 
     for line_num, line in enumerate(recipe, 1):
@@ -212,9 +236,11 @@ class SerializerVisitor(RecipeVisitor):
     def __serialize_value(self, value) -> str:
         if isinstance(value, str):
             value = value.replace("\\", "\\\\").replace('"', "\\\"")
+            for escaped, char in ESCAPED_CHARS.items():
+                value = value.replace(char, f"\\{escaped}")
             return f'"{value}"'
         if isinstance(value, dict):
-            dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
+            dict_line = "dict " + " ".join(f"{self.__serialize_key(k)}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
         # bool is a subclass of int, and 1 == 1.0 == True
         if value is None or isinstance(value, bool):
@@ -225,6 +251,11 @@ class SerializerVisitor(RecipeVisitor):
             return value.accept(self)
         raise TypeError(f"type {type(value)} cannot be serialized: {value}")
 
+    def __serialize_key(self, key) -> str:
+        if isinstance(key, str) and not re.fullmatch(r"[\w.:/+-]+", key):
+            return self.__serialize_value(key)
+        return str(key)
+
     def __add_instruction(self, instruction: str) -> str:
         try:
             return f"&{self.instructions.index(instruction)}"
@@ -241,4 +272,9 @@ CONSTANTS = {
 REVERSE_CONSTANTS = {
     v: k for k, v in CONSTANTS.items()
 }
+# a recipe has one instruction per line: line terminators cannot appear as-is in strings
+ESCAPED_CHARS = {
+    "n": "\n",
+    "r": "\r",
+}
 NON_FINITE_NUMBERS = {"inf", "-inf", "nan"}
-- 
2.43.0


From 9df685a3e9c6b4d3038105ff7f78b8fb2b60ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 15/55] fix: make ModelConfigImpl hashable

Registering one broke the inference of every model config.
---
 sd_mecha/extensions/model_configs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index c6b1002..7f84b00 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -132,6 +132,9 @@ class ModelConfigImpl(ModelConfig):
                 components[k] = v
         self._components = components
 
+    def __hash__(self):
+        return hash(self._identifier)
+
     @property
     def identifier(self) -> str:
         return self._identifier
-- 
2.43.0


From 41315a11b32e68d373533c305c7f1715bc39be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 16/55] fix: merge model files of unknown architectures

The structural config of a model file was built from tensor metadata instead of
key metadata, which made every merge of such a file crash.
---
 sd_mecha/merging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 8ba3fa2..102b908 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -388,7 +388,10 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
         node.state_dict, node_path = self.__load_dict(node)
-        metadata = OrderedDict(node.state_dict.metadata())
+        metadata = OrderedDict(
+            (k, KeyMetadata(v.shape, v.dtype, optional=True))
+            for k, v in node.state_dict.metadata()
+        )
         node.model_config = self.__determine_model_config(metadata, node.model_config)
         check_model_config(node.state_dict, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, str(node.path))
 
-- 
2.43.0


From e6a90a472db0aa0d0b51c2fb34fb8611d520fbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 17/55] fix: keep the intersection of structural keys when it
 becomes empty

---
 sd_mecha/merging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 102b908..9314290 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -368,6 +368,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     check_mandatory_keys: bool
     dicts_cache: MutableMapping[str, Mapping[str, torch.Tensor]] = dataclasses.field(default_factory=dict)
     structural_metadata: MutableMapping[str, KeyMetadata] = dataclasses.field(default_factory=OrderedDict)
+    structural_dicts: List[Mapping[str, KeyMetadata]] = dataclasses.field(default_factory=list)
     param_config: Optional[ModelConfig] = None
 
     def visit_literal(self, node: LiteralRecipeNode):
@@ -442,7 +443,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
                 raise RuntimeError("could not infer model config")
 
         if config is None:
-            if not self.structural_metadata:
+            if not self.structural_dicts:
                 self.structural_metadata.update(metadata)
             else:
                 for k in list(self.structural_metadata):
@@ -453,6 +454,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
                         metadata[k].shape is not None and metadata[k].metadata().shape.numel() > self.structural_metadata[k].metadata().shape.numel()
                     ):
                         self.structural_metadata[k] = metadata[k]
+            self.structural_dicts.append(metadata)
             config = StructuralModelConfig(self.structural_metadata)
 
         return config
-- 
2.43.0


From 605d191d0e53b645f86a15eba06f403b6342f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 18/55] fix: dictionaries of recipes have the model config of
 their recipes

They were matched as state dicts without keys, which emptied the structural
config shared by all models of the recipe.
---
 sd_mecha/merging.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 9314290..33c9202 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -379,7 +379,8 @@ class LoadInputDictsVisitor(RecipeVisitor):
         for k, v in node.value.items():
             if isinstance(v, RecipeNode):
                 v.accept(self)
-            elif isinstance(v, torch.Tensor):
+                self.__use_config_of_value(node, v)
+            if isinstance(v, torch.Tensor):
                 metadata[k] = KeyMetadata(v.shape, v.dtype, optional=True)
             elif k not in metadata:
                 metadata[k] = KeyMetadata(None, None, optional=True)
@@ -387,6 +388,18 @@ class LoadInputDictsVisitor(RecipeVisitor):
         node.model_config = self.__determine_model_config(metadata, node.model_config)
         check_model_config(node.value, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, "<in-memory state dict>")
 
+    @staticmethod
+    def __use_config_of_value(node: LiteralRecipeNode, value: RecipeNode):
+        if value.model_config is None:
+            return
+        if is_config_stub(node.model_config):
+            node.model_config = value.model_config
+        if node.model_config.identifier != value.model_config.identifier:
+            raise ValueError(
+                f"all recipes of a dictionary should have the same model config, "
+                f"expected {node.model_config.identifier} but got {value.model_config.identifier}"
+            )
+
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
         node.state_dict, node_path = self.__load_dict(node)
         metadata = OrderedDict(
-- 
2.43.0


From f8e877454c5fd2b9b4ebdcd54bfd0d02bcb4e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 19/55] fix: forget inferred model configs when a recipe is
 closed

The configs inferred during a merge were kept on the recipe, so later merges
used stale configs, and structural configs were embedded in the output although
they cannot be deserialized.
---
 sd_mecha/merging.py       | 32 ++++++++++++++++++++++++++++++++
 sd_mecha/serialization.py | 12 +++++++++---
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 33c9202..580a645 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -350,16 +350,48 @@ def open_input_dicts(
     check_mandatory_keys: bool = False,
     empty_cuda_cache: bool = False,
 ):
+    config_hints = ConfigHintsVisitor()
+    recipe.accept(config_hints)
     try:
         recipe.accept(LoadInputDictsVisitor(list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys))
         yield recipe
     finally:
         recipe.accept(CloseInputDictsVisitor())
+        config_hints.restore()
         if empty_cuda_cache:
             gc.collect()
             torch.cuda.empty_cache()
 
 
+@dataclasses.dataclass
+class ConfigHintsVisitor(RecipeVisitor):
+    """
+    Remember the model config of each input, as given by the user.
+
+    The inferred configs depend on the contents of the files, and structural configs depend on all inputs of the recipe:
+    they are not valid anymore once the input dicts are closed.
+    """
+    config_hints: List[Tuple[RecipeNode, Optional[ModelConfig]]] = dataclasses.field(default_factory=list)
+
+    def visit_literal(self, node: LiteralRecipeNode):
+        self.config_hints.append((node, node.model_config))
+        if isinstance(node.value, Mapping):
+            for v in node.value.values():
+                if isinstance(v, RecipeNode):
+                    v.accept(self)
+
+    def visit_model(self, node: ModelRecipeNode):
+        self.config_hints.append((node, node.model_config))
+
+    def visit_merge(self, node: MergeRecipeNode):
+        for arg in (*node.args, *node.kwargs.values()):
+            arg.accept(self)
+
+    def restore(self):
+        for node, config in self.config_hints:
+            node.model_config = config
+
+
 @dataclasses.dataclass
 class LoadInputDictsVisitor(RecipeVisitor):
     model_dirs: Iterable[pathlib.Path]
diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 01b103b..b0c3320 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -202,21 +202,22 @@ class SerializerVisitor(RecipeVisitor):
         self.instructions = instructions if instructions is not None else []
 
     def visit_literal(self, node: LiteralRecipeNode):
-        if node.model_config is None and node.merge_space == "param":
+        config_identifier = getattr(node.model_config, "identifier", None)
+        if config_identifier in (None, "structural") and node.merge_space == "param":
             return self.__serialize_value(node.value)
         else:
             return self.add_literal(node)
 
     def add_literal(self, node: LiteralRecipeNode) -> str:
         value = self.__serialize_value(node.value)
-        config = self.__serialize_value(getattr(node.model_config, "identifier", None))
+        config = self.__serialize_config(node.model_config)
         merge_space = self.__serialize_value(node.merge_space.identifier)
         line = f"literal {value} model_config={config} merge_space={merge_space}"
         return self.__add_instruction(line)
 
     def visit_model(self, node: ModelRecipeNode) -> str:
         path = self.__serialize_value(str(node.path))
-        config = self.__serialize_value(getattr(node.model_config, "identifier", None))
+        config = self.__serialize_config(node.model_config)
         merge_space = self.__serialize_value(node.merge_space.identifier)
         line = f"model {path} model_config={config} merge_space={merge_space}"
         return self.__add_instruction(line)
@@ -251,6 +252,11 @@ class SerializerVisitor(RecipeVisitor):
             return value.accept(self)
         raise TypeError(f"type {type(value)} cannot be serialized: {value}")
 
+    def __serialize_config(self, config) -> str:
+        identifier = getattr(config, "identifier", None)
+        # structural configs cannot be resolved by identifier, they are determined again from the inputs
+        return self.__serialize_value(identifier if identifier != "structural" else None)
+
     def __serialize_key(self, key) -> str:
         if isinstance(key, str) and not re.fullmatch(r"[\w.:/+-]+", key):
             return self.__serialize_value(key)
-- 
2.43.0


From 0551663ca005dfdf74cec7ac224aa27ba8811f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 20/55] fix: do not hide an error behind a missing key of
 another argument

---
 sd_mecha/merging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 580a645..3ae05ea 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -649,8 +649,10 @@ class ErrorHolder:
     def intercept(self, fn, *args, **kwargs):
         try:
             return fn(*args, **kwargs)
-        except Exception:
-            self.exc_info = sys.exc_info()
+        except Exception as e:
+            # a missing key never hides an actual error
+            if self.exc_info is None or isinstance(self.exc_info[1], StateDictKeyError) and not isinstance(e, StateDictKeyError):
+                self.exc_info = sys.exc_info()
             return None
 
     def try_raise(self):
-- 
2.43.0


From 544c924b1f9d7d3f3f4ef5a324649ead697a4233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 21/55] fix: stop the workers before closing the output of a
 failed merge

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 3ae05ea..48dac8e 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -170,7 +170,6 @@ def merge(
         buffer_size_per_file_per_thread = buffer_size_per_file // max(1, threads)
 
         with (
-            executor,
             tqdm(total=len(recipe_metadata), desc="Merging recipe") as progress,
             _get_output_dict(
                 output,
@@ -179,6 +178,7 @@ def merge(
                 model_dirs,
                 buffer_size_per_file_per_thread,
             ) as output_dict,
+            executor,  # innermost: all workers have to stop before the output is closed
         ):
             fix_torch_threading()
             futures = []
-- 
2.43.0


From a7f5c9da94b1f4e8bdc68a1d56c87e9585e5e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 22/55] fix: only copy the extra keys of models in the merge
 space of the recipe

---
 sd_mecha/merging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 48dac8e..7f26fff 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -251,7 +251,11 @@ class ForwardableNodesVisitor(RecipeVisitor):
             self.forwardable_nodes.append((node, metadata))
 
     def visit_model(self, node: ModelRecipeNode):
-        if node.model_config == self.target_config and not any(node in n[0] for n in self.forwardable_nodes):
+        if (
+            node.model_config == self.target_config and
+            node.merge_space == self.target_merge_space and
+            not any(node in n[0] for n in self.forwardable_nodes)
+        ):
             self.forwardable_nodes.append((node, OrderedDict(node.state_dict.metadata())))
 
     def visit_merge(self, node: MergeRecipeNode):
-- 
2.43.0


From e2c152fbd0750fd656082a19442920669ae6ddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 23/55] fix: compare literals of tensors by identity when
 looking for nodes in a recipe

---
 sd_mecha/recipe_nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index f742f84..d0dc4f9 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -113,7 +113,11 @@ class LiteralRecipeNode(RecipeNode):
 
     def __contains__(self, item):
         if isinstance(item, LiteralRecipeNode):
-            return self.value == item.value
+            if self.value is item.value:
+                return True
+            # tensors and dictionaries of tensors cannot be compared to a single truth value
+            containers = (dict, torch.Tensor)
+            return not isinstance(self.value, containers) and not isinstance(item.value, containers) and self.value == item.value
         else:
             return False
 
-- 
2.43.0


From 05b5b0e473cd4460f7223f3af54131cad442fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 24/55] fix: accept empty dictionaries as recipes

---
 sd_mecha/extensions/merge_methods.py | 2 +-
 sd_mecha/merging.py                  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 364b772..981d13b 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -571,7 +571,7 @@ def value_to_node(node_or_value: RecipeNodeOrValue, expected_type: type = None)
 
     if expected_type is None:
         if isinstance(node_or_value, Mapping):
-            expected_type = next(iter(node_or_value.values()))
+            expected_type = next(iter(node_or_value.values()), None)
         else:
             expected_type = type(node_or_value)
 
diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 7f26fff..b0a5954 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -733,10 +733,10 @@ class CastInputDicts(RecipeVisitor):
     def visit_literal(self, node: LiteralRecipeNode):
         if (
             isinstance(node.value, torch.Tensor | int | float) or
-            isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values())), torch.Tensor | int | float)
+            isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values()), None), torch.Tensor | int | float)
         ):
             return node.to(device=self.device, dtype=self.dtype)
-        if isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values())), RecipeNode):
+        if isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values()), None), RecipeNode):
             return LiteralRecipeNode(
                 {k: v.accept(self) for k, v in node.value.items()},
                 model_config=node.model_config,
-- 
2.43.0


From 08c95f5543532518884746463655f4f2eae5f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 25/55] fix: reject arguments given both by position and by
 keyword

The positional value was silently dropped.
---
 sd_mecha/extensions/merge_methods.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 981d13b..403d3c0 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -249,6 +249,10 @@ class MergeMethod:
             float('inf'),
         ))
 
+        for k in params.args[:len(args)]:
+            if k in kwargs:
+                raise TypeError(f"Multiple values for argument '{k}'")
+
         def ensure_positive(v: int):
             if v < 0:
                 raise RuntimeError
-- 
2.43.0


From caa44cb8c3300d2e35c1b06d19c39c12cad68332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 26/55] fix: raise ValueError when converting from or to a
 config without converters

---
 sd_mecha/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index 0785215..63ca080 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -107,7 +107,7 @@ def dijkstra(graph, start, goal):
         if current_node == goal:
             break
 
-        for neighbor, edge_id in graph[current_node]:
+        for neighbor, edge_id in graph.get(current_node, ()):
             distance_via_current = current_dist + 1
             if distance_via_current < distances[neighbor]:
                 distances[neighbor] = distance_via_current
@@ -115,7 +115,7 @@ def dijkstra(graph, start, goal):
                 edge_used[neighbor] = edge_id
                 heapq.heappush(heap, (distance_via_current, neighbor))
 
-    if distances[goal] == float('inf'):
+    if distances.get(goal, float('inf')) == float('inf'):
         return None
 
     path_ids = []
-- 
2.43.0


From 0bc0fed7defab47dab099bd504fdf418c02b3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 27/55] fix: write the keys, aliases and optional flags of
 model configs to yaml

---
 sd_mecha/extensions/model_configs.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index 7f84b00..43a6a86 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -22,7 +22,7 @@ StateDictKey = str
 class KeyMetadata:
     shape: Optional[List[int]] | torch.Size
     dtype: Optional[str] | torch.dtype
-    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: bool(p)})
+    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: not p})
     optional: bool = dataclasses.field(default=False, metadata={"exclude": lambda p: not p})
 
     def __post_init__(self):
@@ -316,14 +316,18 @@ _model_configs_registry_aux: Dict[str, ModelConfig] = {}
 
 def serialize(obj):
     if isinstance(obj, ModelComponent):
-        return serialize(obj.keys)
+        return serialize(obj.keys())
+    elif isinstance(obj, LazyModelConfigBase):
+        obj._ensure_config()
+        return serialize(obj.underlying_config)
     elif dataclasses.is_dataclass(obj):
         return {
             field.metadata.get("serial_name", field.name): serialize(getattr(obj, field.name))
             for field in dataclasses.fields(obj)
             if not (
-                callable(field.metadata.get("exclude")) and field.metadata["exclude"](getattr(obj, field.name))
-                or field.metadata.get("exclude", False)
+                field.metadata["exclude"](getattr(obj, field.name))
+                if callable(field.metadata.get("exclude"))
+                else field.metadata.get("exclude", False)
             )
         }
     elif isinstance(obj, (str, int, float, type(None))):
-- 
2.43.0


From ea8879aa8d6a062d3d8ee46a575abdf3a36def90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 28/55] fix: use the model_dirs and tqdm of Defaults in all
 accepted forms

---
 sd_mecha/helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index ec3bb52..42e797d 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -7,7 +7,7 @@ from .merging import merge
 from .conversion import convert
 from .recipe_nodes import ModelRecipeNode, LiteralRecipeNode, RecipeNode, RecipeNodeOrValue
 from .extensions.merge_methods import NonDictLiteralValue
-from typing import Optional, List, MutableMapping, Iterable, Mapping
+from typing import Optional, MutableMapping, Iterable, Iterator, Mapping
 
 
 def model(
@@ -98,7 +98,8 @@ class Defaults:
         Args:
             See documentation for `sd_mecha.merge` or `sd_mecha.conversion` for a description of each parameter.
         """
-        self.__model_dirs = model_dirs
+        # an iterator can only be consumed once
+        self.__model_dirs = list(model_dirs) if isinstance(model_dirs, Iterator) else model_dirs
         self.__merge_device = merge_device
         self.__merge_dtype = merge_dtype
         self.__output_device = output_device
@@ -178,6 +179,8 @@ class Defaults:
             omit_ema = self.__omit_ema
         if check_mandatory_keys is ...:
             check_mandatory_keys = self.__check_mandatory_keys
+        if tqdm is ...:
+            tqdm = self.__tqdm
 
         return merge(
             recipe,
@@ -202,7 +205,7 @@ class Defaults:
     def _model_dirs_to_pathlib_list(models_dir):
         if models_dir is ...:
             models_dir = []
-        if not isinstance(models_dir, List):
+        if isinstance(models_dir, (str, pathlib.Path)) or models_dir is None:
             models_dir = [models_dir]
         models_dir = list(models_dir)
         for i in range(len(models_dir)):
-- 
2.43.0


From 56647d513291165051de76421140023db2da2137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 29/55] fix: convert lycoris networks with the prefix of their
 own config

All converters shared the loop variable and looked up keys with the prefix of
the last registered config.
---
 sd_mecha/extensions/builtin/lycoris.py | 34 ++++++++++++++------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/sd_mecha/extensions/builtin/lycoris.py b/sd_mecha/extensions/builtin/lycoris.py
index 935153f..80bb5c1 100644
--- a/sd_mecha/extensions/builtin/lycoris.py
+++ b/sd_mecha/extensions/builtin/lycoris.py
@@ -15,21 +15,25 @@ def _register_all_lycoris_configs():
                 LycorisModelConfig(base_config, "kohya", "lora", list(lycoris_algorithms)),
         ):
             model_configs.register_aux(lyco_config)
-            lora_config_id = lyco_config.identifier
-            base_config_id = lyco_config.base_config.identifier
-
-            @merge_method(identifier=f"convert_'{lora_config_id}'_to_base", is_conversion=True)
-            def diffusers_lora_to_base(
-                lora: Parameter(StateDict[torch.Tensor], "weight", lora_config_id),
-                **kwargs,
-            ) -> Return(torch.Tensor, "delta", base_config_id):
-                key = kwargs["key"]
-                lycoris_keys = lyco_config.to_lycoris_keys(key)
-                if not lycoris_keys:
-                    raise StateDictKeyError(key)
-
-                lycoris_key = next(iter(lycoris_keys))
-                return compose_lora_up_down(lora, lycoris_key.split(".")[0])
+            _register_lycoris_converter(lyco_config)
+
+
+def _register_lycoris_converter(lyco_config: "LycorisModelConfig"):
+    lora_config_id = lyco_config.identifier
+    base_config_id = lyco_config.base_config.identifier
+
+    @merge_method(identifier=f"convert_'{lora_config_id}'_to_base", is_conversion=True)
+    def diffusers_lora_to_base(
+        lora: Parameter(StateDict[torch.Tensor], "weight", lora_config_id),
+        **kwargs,
+    ) -> Return(torch.Tensor, "delta", base_config_id):
+        key = kwargs["key"]
+        lycoris_keys = lyco_config.to_lycoris_keys(key)
+        if not lycoris_keys:
+            raise StateDictKeyError(key)
+
+        lycoris_key = next(iter(lycoris_keys))
+        return compose_lora_up_down(lora, lycoris_key.split(".")[0])
 
 
 def compose_lora_up_down(state_dict: Mapping[str, torch.Tensor], key: str):
-- 
2.43.0


From a54c1668f1dadbde2abafe45280e4472f422cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 30/55] fix: convert the vae and the projection biases of
 sdxl-kohya models

The keys of the vae are the same in both configs, and stacked biases had the
wrong shape.
---
 .../builtin/model_configs/convert_sdxl_kohya_to_original.py  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
index 0f6484f..09d3070 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
@@ -2,7 +2,6 @@ import torch
 from torch import Tensor
 from sd_mecha import merge_method, StateDict, Return, Parameter
 from sd_mecha.extensions import model_configs
-from .convert_huggingface_sd_vae_to_original import convert_vae
 
 
 sdxl_kohya_config = model_configs.resolve('sdxl-kohya')
@@ -42,7 +41,7 @@ def convert_sdxl_kohya_to_original(
         if kohya_key.endswith((".in_proj_weight", ".in_proj_bias")):
             is_bias = kohya_key.endswith("bias")
             partial_key = kohya_key.replace(".in_proj_weight", "").replace(".in_proj_bias", "")
-            res = torch.vstack([
+            res = torch.cat([
                 kohya_sd[f"{partial_key}.{k}_proj.{'bias' if is_bias else 'weight'}"]
                 for k in ("q", "k", "v")
             ])
@@ -53,7 +52,5 @@ def convert_sdxl_kohya_to_original(
             res = res.T
 
         return res
-    elif sgm_key.startswith("first_stage_model."):
-        return convert_vae(kohya_sd, sgm_key)
     else:
         return kohya_sd[sgm_key]
-- 
2.43.0


From c3f9f56da0ba7e5b4f65b0f34de9b9481e4d43f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 31/55] fix: convert the last attentions of the first up block
 of sdxl diffusers unets

Their prefix was overwritten by the one of the upsampler.
---
 .../model_configs/convert_sdxl_diffusers_unet_to_original.py   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
index 8bb3e7e..83805d7 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
@@ -103,9 +103,8 @@ for i in range(3):
 
         # no upsample in up_blocks.3
         hf_upsample_prefix = f"up_blocks.{i}.upsamplers.0."
-        sd_upsample_prefix = f"output_blocks.{3*i + 2}.{1 if i == 0 else 2}."
+        sd_upsample_prefix = f"output_blocks.{3*i + 2}.2."
         unet_conversion_map_layer[sd_upsample_prefix] = hf_upsample_prefix
-unet_conversion_map_layer["output_blocks.2.2.conv."] = "output_blocks.2.1.conv."
 
 hf_mid_atn_prefix = "mid_block.attentions.0."
 sd_mid_atn_prefix = "middle_block.1."
-- 
2.43.0


From 93b92545a4f6743814468c38130ce3da9da928dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 32/55] fix: convert the attention norms of huggingface vaes

---
 .../model_configs/convert_huggingface_sd_vae_to_original.py      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
index 9397677..31a5ead 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
@@ -41,6 +41,7 @@ vae_conversion_map = {
     # (original, huggingface)
     "nin_shortcut": "conv_shortcut",
     "norm_out": "conv_norm_out",
+    "mid.attn_1.norm.": "mid_block.attentions.0.group_norm.",
     "mid.attn_1.": "mid_block.attentions.0.",
 }
 for i in range(4):
-- 
2.43.0


From 3fb0a06fec8a14551864a70fc8ec328644c46b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 33/55] fix: register the flux conversions

---
 sd_mecha/extensions/builtin/model_configs/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/extensions/builtin/model_configs/__init__.py b/sd_mecha/extensions/builtin/model_configs/__init__.py
index 78104bc..a6d6fa9 100644
--- a/sd_mecha/extensions/builtin/model_configs/__init__.py
+++ b/sd_mecha/extensions/builtin/model_configs/__init__.py
@@ -15,5 +15,6 @@ _register_configs()
 from .convert_sdxl_kohya_to_original import convert_sdxl_kohya_to_original
 from .convert_sdxl_diffusers_unet_to_original import convert_sdxl_diffusers_unet_to_original
 from .convert_sd1_kohya_to_original import convert_sd1_kohya_to_original
+from . import convert_flux
 from . import convert_sdxl_blocks
 from . import convert_sd1_blocks
-- 
2.43.0


From d8ad424c9a161759a5d865ac133e37fb3319b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 34/55] fix: pass the exact value of numbers to methods that
 expect python numbers

---
 sd_mecha/merging.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index b0a5954..74adb5d 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -15,7 +15,7 @@ from .extensions import model_configs, model_formats
 from .extensions.merge_methods import MergeMethod, StateDict, T as MergeMethodT, value_to_node
 from .extensions.merge_spaces import MergeSpace
 from .extensions.model_configs import ModelConfig, StructuralModelConfig, KeyMetadata
-from .recipe_nodes import RecipeVisitor, LiteralRecipeNode, RecipeNode, MergeRecipeNode, ModelRecipeNode, RecipeNodeOrValue, NonDictLiteralValue
+from .recipe_nodes import RecipeVisitor, LiteralRecipeNode, RecipeNode, MergeRecipeNode, ModelRecipeNode, RecipeNodeOrValue, NonDictLiteralValue, PythonLiteralValue
 from .streaming import OutSafetensorsDict, TensorMetadata, StateDictKeyError
 from . import recipe_nodes, serialization
 from collections import OrderedDict
@@ -716,10 +716,8 @@ def cast_node_value(value, expected_type):
         return value
     if isinstance(expected_type, str):
         raise RuntimeError(f"cannot implicitly convert {type(value)} to {expected_type}")
-    if issubclass(expected_type, int):
-        return int(value)
-    if issubclass(expected_type, float):
-        return float(value)
+    if issubclass(expected_type, int | float):
+        return expected_type(value)
     if issubclass(expected_type, torch.Tensor):
         return torch.tensor(value, dtype=torch.float32)
     return value
@@ -729,14 +727,16 @@ def cast_node_value(value, expected_type):
 class CastInputDicts(RecipeVisitor):
     device: str | torch.device
     dtype: torch.dtype
+    expected_type: Optional[type | TypeVar] = None
 
     def visit_literal(self, node: LiteralRecipeNode):
-        if (
-            isinstance(node.value, torch.Tensor | int | float) or
-            isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values()), None), torch.Tensor | int | float)
-        ):
+        first_value = next(iter(node.value.values()), None) if isinstance(node.value, Mapping) else node.value
+        if isinstance(first_value, int | float) and self.expected_type is not None and is_subclass(self.expected_type, PythonLiteralValue):
+            # a method that expects a python number should receive this exact number
+            return node
+        if isinstance(first_value, torch.Tensor | int | float):
             return node.to(device=self.device, dtype=self.dtype)
-        if isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values()), None), RecipeNode):
+        if isinstance(first_value, RecipeNode):
             return LiteralRecipeNode(
                 {k: v.accept(self) for k, v in node.value.items()},
                 model_config=node.model_config,
@@ -748,9 +748,18 @@ class CastInputDicts(RecipeVisitor):
         return node.to(device=self.device, dtype=self.dtype)
 
     def visit_merge(self, node: MergeRecipeNode):
+        input_types = node.merge_method.get_input_types().as_dict(len(node.args))
         return MergeRecipeNode(
             node.merge_method,
-            tuple(v.accept(self) for v in node.args),
-            {k: v.accept(self) for k, v in node.kwargs.items()},
+            tuple(v.accept(self.__for_type(input_types[i])) for i, v in enumerate(node.args)),
+            {k: v.accept(self.__for_type(input_types[k])) for k, v in node.kwargs.items()},
             node.cache,
         )
+
+    def __for_type(self, input_type: type | TypeVar):
+        if is_subclass(input_type, StateDict):
+            input_type = next(iter(typing.get_args(input_type) or (MergeMethodT,)))
+        if isinstance(input_type, TypeVar):
+            # the method forwards its input: it is up to the receiving method
+            return self
+        return dataclasses.replace(self, expected_type=input_type)
-- 
2.43.0


From 642f769b02fcb4099653d1a6044426edb809b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 35/55] fix: refuse to save over an input of the recipe

---
 sd_mecha/merging.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 74adb5d..b4245ae 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -177,6 +177,7 @@ def merge(
                 original_recipe,
                 model_dirs,
                 buffer_size_per_file_per_thread,
+                recipe.accept(InputFilesVisitor()),
             ) as output_dict,
             executor,  # innermost: all workers have to stop before the output is closed
         ):
@@ -270,6 +271,7 @@ def _get_output_dict(
     recipe: RecipeNode,
     model_dirs: Iterable[pathlib.Path],
     buffer_size_per_thread: int,
+    input_files: Iterable[pathlib.Path] = (),
 ):
     if isinstance(output, (str, pathlib.Path)):
         if not isinstance(output, pathlib.Path):
@@ -278,6 +280,8 @@ def _get_output_dict(
             for model_dir in model_dirs:
                 output = model_dir / output
                 break
+        if output.exists() and any(f.exists() and output.samefile(f) for f in input_files):
+            raise ValueError(f"cannot save to {output}: this file is an input of the recipe")
         logging.info(f"Saving to {output}")
 
         try:
@@ -562,6 +566,19 @@ def check_model_config(state_dict: Iterable[str], config: ModelConfig, strip_ext
             raise RuntimeError(f"State dict {state_dict_origin} is missing non-optional keys: {missing_keys}")
 
 
+class InputFilesVisitor(RecipeVisitor):
+    def visit_literal(self, node: LiteralRecipeNode) -> List[pathlib.Path]:
+        if not isinstance(node.value, Mapping):
+            return []
+        return [f for v in node.value.values() if isinstance(v, RecipeNode) for f in v.accept(self)]
+
+    def visit_model(self, node: ModelRecipeNode) -> List[pathlib.Path]:
+        return [getattr(node.state_dict, "file_path", node.path)]
+
+    def visit_merge(self, node: MergeRecipeNode) -> List[pathlib.Path]:
+        return [f for v in (*node.args, *node.kwargs.values()) for f in v.accept(self)]
+
+
 @dataclasses.dataclass
 class CloseInputDictsVisitor(RecipeVisitor):
     def visit_literal(self, node: LiteralRecipeNode):
-- 
2.43.0


From 80b45c2b65cedc9ba443b56bfe35a695cef5d834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 36/55] fix: never read past the end of a truncated file from
 the buffer

---
 sd_mecha/streaming.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index a8c74b9..dafe0ed 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -146,6 +146,7 @@ class InSafetensorsDict(SafetensorsMapping):
             if bytes_read < length:
                 raise EOFError(f"unexpected end of file in {self.file_path}: expected {length} bytes at offset {start_pos}, got {bytes_read}")
 
+            del buffer[bytes_read:]  # what is past the end of the file is not data
             self.buffer = buffer
             self.buffer_start_offset = start_pos
 
-- 
2.43.0


From 841cd3c2bab4c9ec958330bc95080c2d6b52627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 37/55] fix: do not keep results alive through the traceback of
 a missing key

---
 sd_mecha/merging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index b4245ae..82f528c 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -678,7 +678,11 @@ class ErrorHolder:
 
     def try_raise(self):
         if self.exc_info:
-            raise self.get_error()
+            try:
+                raise self.get_error()
+            finally:
+                # the traceback refers to the frame that owns this holder: a cycle would keep all of its values alive
+                self.exc_info = None
 
     def get_error(self):
         if self.exc_info:
-- 
2.43.0


From 8d5d336fa11dd0d06b588d984cdf90899f800db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 38/55] fix: share the buffer with the models used in
 dictionaries of recipes

---
 sd_mecha/recipe_nodes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index d0dc4f9..e4a8140 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -244,7 +244,13 @@ class ModelsCountVisitor(RecipeVisitor):
         self.__seen_nodes = []
 
     def visit_literal(self, node: LiteralRecipeNode) -> int:
-        return 0
+        if not isinstance(node.value, dict):
+            return 0
+        return sum(
+            child.accept(self)
+            for child in node.value.values()
+            if isinstance(child, RecipeNode)
+        )
 
     def visit_model(self, node: ModelRecipeNode) -> int:
         seen = node in self.__seen_nodes
-- 
2.43.0


From 335dcf86ae201ffa33a81979432ae2d726960ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 39/55] fix: allow methods without arguments as arguments

---
 sd_mecha/recipe_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index e4a8140..3260d09 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -232,11 +232,11 @@ class ModelDepthRecipeVisitor(RecipeVisitor):
         return 1
 
     def visit_merge(self, node: MergeRecipeNode):
-        return max(
+        return max((
             child.accept(self)
             for children in (node.args, node.kwargs.values())
             for child in children
-        ) + 1
+        ), default=0) + 1
 
 
 class ModelsCountVisitor(RecipeVisitor):
-- 
2.43.0


From ff42e7c39ba3d052160a806179388e3b8bf8175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 40/55] fix: never pass other values to string parameters

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 82f528c..8d14373 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -735,7 +735,7 @@ def cast_node_value(value, expected_type):
 
     if isinstance(expected_type, TypeVar) or isinstance(value, expected_type):
         return value
-    if isinstance(expected_type, str):
+    if issubclass(expected_type, str):
         raise RuntimeError(f"cannot implicitly convert {type(value)} to {expected_type}")
     if issubclass(expected_type, int | float):
         return expected_type(value)
-- 
2.43.0


From 302de4e33adcb548ebca5e914ef73f61b5505c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 41/55] fix: infer the config a method demands through methods
 without demand

---
 sd_mecha/merging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 8d14373..5159b0e 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -451,8 +451,10 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
     def visit_merge(self, node: recipe_nodes.MergeRecipeNode):
         input_configs = node.merge_method.get_input_configs().as_dict(len(node.args))
+        # parameters without a config agree with the result
+        return_config = node.merge_method.get_return_config([], {}) or self.param_config
         for k, v in itertools.chain(enumerate(node.args), node.kwargs.items()):
-            v.accept(dataclasses.replace(self, param_config=input_configs[k]))
+            v.accept(dataclasses.replace(self, param_config=input_configs[k] or return_config))
 
     def __load_dict(self, node: recipe_nodes.ModelRecipeNode):
         if node.state_dict is not None:
-- 
2.43.0


From 8fec3c00c5252618994650b76eecaa982bae2bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 42/55] fix: reject model configs and merge spaces that are not
 identifiers in recipes

---
 sd_mecha/serialization.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index b0c3320..dca7871 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -53,6 +53,8 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         if command_keyword is not None:
             raise ValueError(f"unknown command: {command_keyword}")
         positional_args, keyword_args = preprocess_args(args)
+        if command in ("literal", "model"):
+            check_attributes(command, keyword_args)
         if command == "dict":
             if positional_args:
                 raise ValueError("dict only accepts keyword arguments")
@@ -69,6 +71,13 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         else:
             raise ValueError(f"unknown command: {command}")
 
+    def check_attributes(command, keyword_args):
+        for name in ("model_config", "merge_space"):
+            value = keyword_args.get(name)
+            is_omitted = name not in keyword_args or value is None and (command, name) != ("model", "merge_space")
+            if not is_omitted and not isinstance(value, str):
+                raise ValueError(f"'{name}' should be an identifier, got {value}")
+
     def preprocess_args(args):
         positional_args = []
         named_args = {}
-- 
2.43.0


From 045a9d199421e67d1610eca86284db8f0bcb7e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 43/55] fix: serialize literals of dictionaries of recipes as
 recipes

---
 sd_mecha/serialization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index dca7871..9bbdafe 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -250,7 +250,7 @@ class SerializerVisitor(RecipeVisitor):
                 value = value.replace(char, f"\\{escaped}")
             return f'"{value}"'
         if isinstance(value, dict):
-            dict_line = "dict " + " ".join(f"{self.__serialize_key(k)}={self.__serialize_value(v)}" for k, v in value.items())
+            dict_line = "dict " + " ".join(f"{self.__serialize_key(k)}={self.__serialize_item(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
         # bool is a subclass of int, and 1 == 1.0 == True
         if value is None or isinstance(value, bool):
@@ -261,6 +261,11 @@ class SerializerVisitor(RecipeVisitor):
             return value.accept(self)
         raise TypeError(f"type {type(value)} cannot be serialized: {value}")
 
+    def __serialize_item(self, value) -> str:
+        if isinstance(value, LiteralRecipeNode):  # a dictionary of recipes, as opposed to one of values
+            return self.add_literal(value)
+        return self.__serialize_value(value)
+
     def __serialize_config(self, config) -> str:
         identifier = getattr(config, "identifier", None)
         # structural configs cannot be resolved by identifier, they are determined again from the inputs
-- 
2.43.0


From 30e50ab389a1d6e5c5bc3c57df167b990734774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 44/55] fix: reject recipe arguments with a value but no
 keyword

---
 sd_mecha/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 9bbdafe..ff67aec 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -141,6 +141,8 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
             elif char == '=' and not inside_quotes and keyword is None:
                 if was_end_of_quotes:  # Quoted keyword
                     keyword = tokens.pop()[1][1:-1]
+                elif not current_token:
+                    raise ValueError("missing keyword before '='")
                 else:
                     keyword = ''.join(current_token)
                     current_token = []
-- 
2.43.0


From 47453c4a06e69b8a4244391a39ba1b90cda9257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:45 +0000
Subject: [PATCH 45/55] fix: serialize the merge space of dictionaries of
 recipes

---
 sd_mecha/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index ff67aec..98e8de3 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -214,7 +214,9 @@ class SerializerVisitor(RecipeVisitor):
 
     def visit_literal(self, node: LiteralRecipeNode):
         config_identifier = getattr(node.model_config, "identifier", None)
-        if config_identifier in (None, "structural") and node.merge_space == "param":
+        # the attributes of a dictionary of recipes would otherwise be determined again from its values
+        has_nodes = isinstance(node.value, dict) and any(isinstance(v, RecipeNode) for v in node.value.values())
+        if config_identifier in (None, "structural") and node.merge_space == "param" and not has_nodes:
             return self.__serialize_value(node.value)
         else:
             return self.add_literal(node)
-- 
2.43.0


From d9ecf73981b5c4754c1a06ecc0fb04c635068d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 46/55] fix: flux model configs carry the identifier they are
 registered under

---
 sd_mecha/extensions/builtin/model_configs/flux-flux.yaml        | 2 +-
 .../builtin/model_configs/flux-flux_diffuser_only.yaml          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml b/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
index 9b8dc3c..c8fac97 100644
--- a/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
+++ b/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
@@ -1,4 +1,4 @@
-identifier: flux_dev-flux
+identifier: flux-flux
 components:
   diffuser:
     model.diffusion_model.double_blocks.0.img_attn.norm.key_norm.scale: {shape: [128], dtype: bfloat16}
diff --git a/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml b/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
index 4ccadd8..8ef06f5 100644
--- a/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
+++ b/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
@@ -1,4 +1,4 @@
-identifier: flux_dev_unet_only-flux
+identifier: flux-flux_diffuser_only
 components:
   diffuser:
     double_blocks.0.img_attn.norm.key_norm.scale: {shape: [128], dtype: bfloat16}
-- 
2.43.0


From b75a40f4664ea7bb056fb31348cbd4786a43f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 47/55] fix: close safetensors files when opening or finishing
 them fails

---
 sd_mecha/streaming.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index dafe0ed..dd602a3 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -83,7 +83,11 @@ class InSafetensorsDict(SafetensorsMapping):
         self.default_buffer_size = buffer_size
         self.file = open(file_path, mode='rb', buffering=0)
         self.file_path = file_path
-        self.header_size, self.header = self._read_header()
+        try:
+            self.header_size, self.header = self._read_header()
+        except BaseException:
+            self.close()
+            raise
         self.buffer = bytearray()
         self.buffer_start_offset = 8 + self.header_size
         self.lock = threading.Lock()
@@ -234,7 +238,11 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
         self.flushed_size = 0
         self.minimum_buffer_size = minimum_buffer_size
 
-        self.max_header_size = self._init_buffer(header)
+        try:
+            self.max_header_size = self._init_buffer(header)
+        except BaseException:
+            self.file.close()
+            raise
 
     def __del__(self):
         self.file.close()
@@ -322,6 +330,12 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             state.buffer = b""
 
     def close(self):
+        try:
+            self._finalize()
+        finally:
+            self.file.close()
+
+    def _finalize(self):
         with self.lock:
             for state in self.thread_states.values():
                 self._flush_buffer(state, close=True)
@@ -362,7 +376,6 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             write_all(self.file, struct.pack('<Q', max(self.max_header_size, header_size)))
             write_all(self.file, header_json)
             write_all(self.file, b' ' * overhead)
-            self.file.close()
 
 
 # src: https://github.com/huggingface/safetensors/blob/aa4ad823cf71d913f283b70332d37ab45803949d/bindings/python/py_src/safetensors/torch.py#L405
-- 
2.43.0


From a653d7b4b8e64ede593e9eda77e8c689e71e5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 48/55] fix: stack the masks of dropout with an odd overlap

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index c446215..d8d5dfd 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -598,10 +598,10 @@ def dropout(  # aka n-supermario
     rng = np.random.default_rng(seed)
 
     if overlap % 2 == 1:
-        masks = tuple(
+        masks = torch.stack([
             torch.from_numpy(rng.binomial(n=1, p=1 - probability, size=delta0.shape)).to(device=delta0.device, dtype=torch.bool)
             for _ in range(len(deltas))
-        )
+        ])
     else:
         ks = np.arange(2 ** len(deltas))
         pmf = overlapping_sets_pmf(len(deltas), probability, overlap, overlap_emphasis)
-- 
2.43.0


From 88ef12a09ad7c244f3a1efac898525e03cd899d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 49/55] fix: dropout with a probability of 0 and overlapping
 sets

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index d8d5dfd..a830c6f 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -642,7 +642,10 @@ def overlapping_sets_pmf(n, p, overlap, overlap_emphasis):
     for i in range(1, 2 ** n):
         num_sets = bin(i).count("1")
         expanded_binomial_pmf[i-1] = binomial_pmf[num_sets-1] / binomial_coefficient_np(n, num_sets)
-    expanded_binomial_pmf /= expanded_binomial_pmf.sum()
+    if expanded_binomial_pmf.any():
+        expanded_binomial_pmf /= expanded_binomial_pmf.sum()
+    else:  # p is 0: the distribution is not defined, there is nothing to emphasize
+        expanded_binomial_pmf = pmf
 
     pmf = weighted_sum_impl(
         pmf,
-- 
2.43.0


From c38667773e1fb2f7067c9132b12d58742f0de26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:10 +0000
Subject: [PATCH 50/55] fix: truncate_rank of square and tall matrices to their
 full rank

---
 sd_mecha/extensions/builtin/merge_methods/svd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/svd.py b/sd_mecha/extensions/builtin/merge_methods/svd.py
index a88a218..ce53eb6 100644
--- a/sd_mecha/extensions/builtin/merge_methods/svd.py
+++ b/sd_mecha/extensions/builtin/merge_methods/svd.py
@@ -61,7 +61,7 @@ def torch_svd_lowrank(
 
     # Algorithm 5.1 in Halko et al 2009, slightly modified to reduce
     # the number conjugate and transpose operations
-    assert m < n or n > q
+    assert m < n or n >= q
     # computing the SVD approximation of a transpose in
     # order to keep B shape minimal (the m < n case) or the V
     # shape small (the n > q case)
-- 
2.43.0


From 5a7ab80c6b571ac98662b5e6300bdd7761f780f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:29 +0000
Subject: [PATCH 51/55] fix: accept model paths in operators and composite
 helpers

---
 sd_mecha/extensions/merge_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 403d3c0..2cdd429 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -576,6 +576,8 @@ def value_to_node(node_or_value: RecipeNodeOrValue, expected_type: type = None)
     if expected_type is None:
         if isinstance(node_or_value, Mapping):
             expected_type = next(iter(node_or_value.values()), None)
+        elif isinstance(node_or_value, pathlib.Path):
+            expected_type = torch.Tensor
         else:
             expected_type = type(node_or_value)
 
-- 
2.43.0


From 16a603f557633bcf3ea0b104649770674ba05f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:34 +0000
Subject: [PATCH 52/55] fix: require the returned merge space symbol itself to
 be used by a parameter

---
 sd_mecha/extensions/merge_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 2cdd429..7ba3989 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -206,7 +206,7 @@ class MergeMethod:
 
         return_data = self.__get_return_data(self.__f_hints.get("return"))  # validates return type annotation
         if isinstance(return_data.merge_space, MergeSpaceSymbol):
-            if not any(k.merge_space for k in params.as_dict().values()):
+            if return_data.merge_space not in input_merge_spaces.as_dict().values():
                 raise RuntimeError("when using a merge space symbol as output, it must also be used by at least one input parameter")
 
     def __repr__(self):
-- 
2.43.0


From 9d84dc2a23b8f6f579005adbce7a140618b97921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:34 +0000
Subject: [PATCH 53/55] fix: validate conversions before registering them

---
 sd_mecha/extensions/merge_methods.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 7ba3989..155dfdd 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -509,12 +509,15 @@ def __recipe_impl(
         identifier = fn.__name__
     fn_object = MergeMethod(fn, identifier)
 
+    if is_conversion:
+        if not register:
+            raise ValueError("A conversion recipe must be registered")
+        validate_config_conversion(fn_object)
+
     if register:
         _merge_methods_registry[identifier] = fn_object
         if is_conversion:
-            _conversion_registry[identifier] = validate_config_conversion(fn_object)
-    elif is_conversion:
-        raise ValueError("A conversion recipe must be registered")
+            _conversion_registry[identifier] = fn_object
 
     return fn_object
 
-- 
2.43.0


From dcfb0319fa1ee82865c92cddb0ae16fa71e69424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:34 +0000
Subject: [PATCH 54/55] fix: reject conversions without model configs, and
 accept variadic ones

---
 sd_mecha/conversion.py               | 4 ++--
 sd_mecha/extensions/merge_methods.py | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index 63ca080..d30f55b 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -37,8 +37,8 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
     converter_paths: Dict[str, List[Tuple[str, Any]]] = {}
     for converter in all_converters:
         input_configs = converter.get_input_configs()
-        return_config = converter.get_return_config(input_configs.args, input_configs.kwargs)
-        src_config = input_configs.args[0].identifier
+        return_config = converter.get_return_config(input_configs.args_varargs(), input_configs.kwargs)
+        src_config = input_configs.args_varargs()[0].identifier
         tgt_config = return_config.identifier
         converter_paths.setdefault(src_config, [])
         converter_paths.setdefault(tgt_config, [])
diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 155dfdd..15c73e4 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -527,8 +527,10 @@ def validate_config_conversion(merge_method: MergeMethod):
     args_varargs = params.args if params.args else params.args_varargs()
     assert len(args_varargs) == 1, f"the merge method should be able to take exactly 1 positional argument"
     configs = merge_method.get_input_configs()
-    input_config = configs.args if configs.args else configs.args_varargs()[0]
+    input_config = configs.args_varargs()[0]
     assert input_config is not None, f"the input ModelConfig['identifier...'] is missing. It should be appended to the type annotation of `{args_varargs[0]}`"
+    return_config = merge_method.get_return_config(configs.args_varargs(), configs.kwargs)
+    assert return_config is not None, "the return ModelConfig['identifier...'] is missing. It should be appended to the return type annotation"
     return merge_method
 
 
-- 
2.43.0


From 03a2d3ad5154a1d4b539ef08d6ab3fc6b33a20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:34 +0000
Subject: [PATCH 55/55] fix: report a merge space that no argument determines

---
 sd_mecha/extensions/merge_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 15c73e4..dfba906 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -337,6 +337,8 @@ class MergeMethod:
 
         merge_space_param: MergeSpace | MergeSpaceSymbol = self.__get_return_data(self.__f_hints.get("return")).merge_space
         if isinstance(merge_space_param, MergeSpaceSymbol):
+            if merge_space_param not in resolved_input_spaces:
+                raise RuntimeError(f"could not infer merge space of method '{self.identifier}'")
             return resolved_input_spaces[merge_space_param]
         if merge_space_param is None:
             if self.default_merge_space in resolved_input_spaces:
-- 
2.43.0

