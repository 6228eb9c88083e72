From 0a63e311dd6432907104547d340bee7c7543c610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 01/70] fix: reading a truncated safetensors file or a short
 read silently gives zeros

---
 sd_mecha/streaming.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 100c2f7..367feb6 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -141,12 +141,23 @@ class InSafetensorsDict(SafetensorsMapping):
         if start_pos < self.buffer_start_offset or start_pos + length > self.buffer_start_offset + len(self.buffer):
             self.file.seek(start_pos)
             necessary_buffer_size = max(self.default_buffer_size, length)
-            if len(self.buffer) < necessary_buffer_size:
-                self.buffer = bytearray(necessary_buffer_size)
-            else:
-                self.buffer = self.buffer[:necessary_buffer_size]
-
-            self.file.readinto(self.buffer)
+            # a new buffer is always needed: tensors that were already loaded share memory with the previous one
+            buffer = bytearray(necessary_buffer_size)
+
+            # raw reads can return fewer bytes than requested
+            bytes_read = 0
+            with memoryview(buffer) as view:
+                while bytes_read < necessary_buffer_size:
+                    n = self.file.readinto(view[bytes_read:])
+                    if not n:
+                        break
+                    bytes_read += n
+
+            if bytes_read < length:
+                raise RuntimeError(f"unexpected end of file in {self.file_path}: the file is truncated or corrupted")
+
+            del buffer[bytes_read:]
+            self.buffer = buffer
             self.buffer_start_offset = start_pos
 
     def _load_tensor(self, tensor_name):
-- 
2.43.0


From 31bf92d7492ba0bf7d9caf546bc61fa8ac5f4720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 02/70] fix: short writes silently corrupt the output file

---
 sd_mecha/streaming.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 367feb6..23c3e9c 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -274,7 +274,7 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             lock = contextlib.nullcontext()
 
         with lock:
-            self.file.write(state.buffer[:state.memory_used])
+            write_all(self.file, state.buffer[:state.memory_used])
             buffer_offset = self.flushed_size
             self.flushed_size += state.memory_used
             state.memory_used = 0
@@ -337,12 +337,20 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
                 overhead = 0
 
             self.file.seek(0)
-            self.file.write(struct.pack('<Q', max(self.max_header_size, header_size)))
-            self.file.write(header_json)
-            self.file.write(b' ' * overhead)
+            write_all(self.file, struct.pack('<Q', max(self.max_header_size, header_size)))
+            write_all(self.file, header_json)
+            write_all(self.file, b' ' * overhead)
             self.file.close()
 
 
+def write_all(file, data):
+    # raw writes can write fewer bytes than requested
+    with memoryview(data) as view:
+        bytes_written = 0
+        while bytes_written < len(view):
+            bytes_written += file.write(view[bytes_written:])
+
+
 # src: https://github.com/huggingface/safetensors/blob/aa4ad823cf71d913f283b70332d37ab45803949d/bindings/python/py_src/safetensors/torch.py#L405
 # this function is Apache 2.0: https://github.com/huggingface/safetensors/blob/main/LICENSE
 def tensor_to_bytes(tensor: torch.Tensor) -> bytes:
-- 
2.43.0


From 036b4598076827093a9c377e8b7ab79fafc0ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 03/70] fix: saving non-contiguous or partial views of tensors
 corrupts the output file

---
 sd_mecha/streaming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 23c3e9c..63d99dc 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -354,8 +354,9 @@ def write_all(file, data):
 # src: https://github.com/huggingface/safetensors/blob/aa4ad823cf71d913f283b70332d37ab45803949d/bindings/python/py_src/safetensors/torch.py#L405
 # this function is Apache 2.0: https://github.com/huggingface/safetensors/blob/main/LICENSE
 def tensor_to_bytes(tensor: torch.Tensor) -> bytes:
-    # assume tensor is not spare nor contiguous and on the cpu
-    total_bytes = len(tensor.untyped_storage())
+    # assume tensor is not sparse and on the cpu
+    tensor = tensor.resolve_neg().contiguous()
+    total_bytes = tensor.numel() * tensor.element_size()
 
     ptr = tensor.data_ptr()
     if ptr == 0:
-- 
2.43.0


From 650ed792c602c9ba0e6b4c5c35629bdec96bde05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 04/70] fix: saving fails when the header must be relocated and
 the buffer size is 0

---
 sd_mecha/streaming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 63d99dc..3a5f4ad 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -323,8 +323,9 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
                 self.file = open(self.file_path, "rb+")
 
                 # move data in chunks from the end to avoid overwriting
-                for chunk_end in tqdm(range(old_file_end, old_data_section, -self.minimum_buffer_size), desc="Reallocating data section"):
-                    chunk_start = max(chunk_end - self.minimum_buffer_size, old_data_section)
+                max_chunk_size = max(self.minimum_buffer_size, 1)
+                for chunk_end in tqdm(range(old_file_end, old_data_section, -max_chunk_size), desc="Reallocating data section"):
+                    chunk_start = max(chunk_end - max_chunk_size, old_data_section)
                     chunk_size = chunk_end - chunk_start
                     self.file.seek(chunk_start)
                     data = self.file.read(chunk_size)
-- 
2.43.0


From 067284e56a2c2dad793ea0c71e00d7b5e2e69005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 05/70] fix: the output is closed while workers still write to
 it when a merge fails

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index e48c15c..9660cf0 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -170,7 +170,6 @@ def merge(
         buffer_size_per_file_per_thread = buffer_size_per_file // max(1, threads)
 
         with (
-            executor,
             tqdm(total=len(recipe_metadata), desc="Merging recipe") as progress,
             _get_output_dict(
                 output,
@@ -179,6 +178,7 @@ def merge(
                 model_dirs,
                 buffer_size_per_file_per_thread,
             ) as output_dict,
+            executor,  # entered last: workers must be done before the output is closed
         ):
             fix_torch_threading()
             futures = []
-- 
2.43.0


From 618e1dc309f3300aff7430c7a6cb62274f4c8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 06/70] fix: a failed merge leaves a valid but incomplete model
 at the output path

---
 sd_mecha/merging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 9660cf0..0e527f1 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -289,7 +289,11 @@ def _get_output_dict(
         )
         try:
             yield streamed_output
-        finally:
+        except BaseException:
+            # without its header, an incomplete file cannot be mistaken for a merged model
+            streamed_output.file.close()
+            raise
+        else:
             streamed_output.close()
     else:
         if output is None:
-- 
2.43.0


From d8b7ce8cfde771138ca7de426164c3d67baf9f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 07/70] fix: merging safetensors files that match no model
 config always fails

---
 sd_mecha/merging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 0e527f1..c77787b 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -392,7 +392,10 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
         node.state_dict, node_path = self.__load_dict(node)
-        metadata = OrderedDict(node.state_dict.metadata())
+        metadata = OrderedDict(
+            (k, KeyMetadata(v.shape, v.dtype, optional=True))
+            for k, v in node.state_dict.metadata()
+        )
         node.model_config = self.__determine_model_config(metadata, node.model_config)
         check_model_config(node.state_dict, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, str(node.path))
 
-- 
2.43.0


From aab6c01028c2f4598217c0a67a0e7977fc2d7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 08/70] fix: booleans are serialized in a form that cannot be
 deserialized

---
 sd_mecha/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 4db8a7f..7ca31ec 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -210,7 +210,8 @@ class SerializerVisitor(RecipeVisitor):
         if isinstance(value, dict):
             dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
-        if isinstance(value, (int, float)):
+        # bool needs to be handled before int (bool is a subclass of int)
+        if isinstance(value, (int, float)) and not isinstance(value, bool):
             return str(value)
         # int or float needs to be handled before this (1.0 == True)
         if isinstance(value, Hashable) and value in REVERSE_CONSTANTS:
-- 
2.43.0


From d7996fc84a94d36794812bf55834d3da88f17fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 09/70] fix: quoted positional strings containing '=' are
 parsed as keyword arguments

---
 sd_mecha/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 7ca31ec..33b84ea 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -68,7 +68,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         positional_args = []
         named_args = {}
         for arg_index, arg in enumerate(args):
-            if '=' in arg:
+            if '=' in arg.split('"', maxsplit=1)[0]:
                 key, value = arg.split('=', maxsplit=1)
                 named_args[key] = get_arg_value(value, arg_index)
             else:
-- 
2.43.0


From c13df621f08ef03beeba01e537046a1aa5a6cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 10/70] fix: infinite and nan floats cannot be deserialized

---
 sd_mecha/serialization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 33b84ea..c132f32 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -86,10 +86,11 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
                 return results[ref_index]
             elif arg.startswith('"') and arg.endswith('"'):
                 return arg[1:-1]
-            elif '.' in arg or 'e' in arg.lower():
-                return float(arg)
             else:
-                return int(arg)
+                try:
+                    return int(arg)
+                except ValueError:
+                    return float(arg)
         except ValueError as e:
             raise ValueError(f"argument {arg_index}: {str(e)}")
 
-- 
2.43.0


From 1c134595d49fb699bf9fb2e6d3628c327d02c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 11/70] fix: strings containing line breaks are serialized as
 several lines

---
 sd_mecha/serialization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index c132f32..a273b39 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -103,6 +103,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         for char in line:
             if is_escape:
                 is_escape = False
+                char = ESCAPES.get(char, char)
             elif char == "\\":
                 is_escape = True
                 continue
@@ -207,6 +208,8 @@ class SerializerVisitor(RecipeVisitor):
     def __serialize_value(self, value) -> str:
         if isinstance(value, str):
             value = value.replace("\\", "\\\\").replace('"', "\\\"")
+            for escape, char in ESCAPES.items():
+                value = value.replace(char, f"\\{escape}")
             return f'"{value}"'
         if isinstance(value, dict):
             dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
@@ -229,6 +232,11 @@ class SerializerVisitor(RecipeVisitor):
             return f"&{len(self.instructions) - 1}"
 
 
+# line breaks would otherwise end the instruction
+ESCAPES = {
+    "n": "\n",
+    "r": "\r",
+}
 CONSTANTS = {
     "null": None,
     "true": True,
-- 
2.43.0


From 639af5105dadf08cea2777bcc55817d8535ac6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 12/70] fix: dict keys that are not valid tokens are serialized
 wrongly

---
 sd_mecha/serialization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index a273b39..32152c9 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -212,6 +212,9 @@ class SerializerVisitor(RecipeVisitor):
                 value = value.replace(char, f"\\{escape}")
             return f'"{value}"'
         if isinstance(value, dict):
+            for k in value:
+                if not isinstance(k, str) or any(c in '"\\=' or c.isspace() for c in k):
+                    raise TypeError(f"dict key cannot be serialized: {k!r}")
             dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
         # bool needs to be handled before int (bool is a subclass of int)
-- 
2.43.0


From a4ea0be01f00ca83878d9553309899202ca598e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 13/70] fix: literals are serialized without their merge space,
 or not at all

---
 sd_mecha/serialization.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 32152c9..cff4676 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -154,7 +154,11 @@ def serialize(recipe: RecipeNode, *, output: Optional[pathlib.Path | str] = None
         A string representation of the recipe, suitable for writing to a .mecha file.
     """
     serializer = SerializerVisitor()
-    recipe.accept(serializer)
+    if isinstance(recipe, LiteralRecipeNode):
+        # a literal needs its own instruction when no other instruction refers to it
+        serializer.visit_root_literal(recipe)
+    else:
+        recipe.accept(serializer)
     version_header = get_version_header(MECHA_FORMAT_VERSION)
     serialized = "\n".join([version_header] + serializer.instructions)
 
@@ -177,14 +181,17 @@ class SerializerVisitor(RecipeVisitor):
         self.instructions = instructions if instructions is not None else []
 
     def visit_literal(self, node: LiteralRecipeNode):
-        value = self.__serialize_value(node.value)
-        if node.model_config is None:
-            return value
+        if node.model_config is None and node.merge_space.identifier == "param":
+            return self.__serialize_value(node.value)
         else:
-            config = self.__serialize_value(node.model_config.identifier)
-            merge_space = self.__serialize_value(node.merge_space.identifier)
-            line = f"literal {value} model_config={config} merge_space={merge_space}"
-            return self.__add_instruction(line)
+            return self.visit_root_literal(node)
+
+    def visit_root_literal(self, node: LiteralRecipeNode):
+        value = self.__serialize_value(node.value)
+        config = self.__serialize_value(getattr(node.model_config, "identifier", None))
+        merge_space = self.__serialize_value(node.merge_space.identifier)
+        line = f"literal {value} model_config={config} merge_space={merge_space}"
+        return self.__add_instruction(line)
 
     def visit_model(self, node: ModelRecipeNode) -> str:
         path = self.__serialize_value(str(node.path))
-- 
2.43.0


From 71b5f130c165b39b7229b95cfd21a44f6175ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 14/70] fix: recipes with a structural model config cannot be
 deserialized

---
 sd_mecha/serialization.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index cff4676..9ec96e4 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -188,14 +188,14 @@ class SerializerVisitor(RecipeVisitor):
 
     def visit_root_literal(self, node: LiteralRecipeNode):
         value = self.__serialize_value(node.value)
-        config = self.__serialize_value(getattr(node.model_config, "identifier", None))
+        config = self.__serialize_config(node.model_config)
         merge_space = self.__serialize_value(node.merge_space.identifier)
         line = f"literal {value} model_config={config} merge_space={merge_space}"
         return self.__add_instruction(line)
 
     def visit_model(self, node: ModelRecipeNode) -> str:
         path = self.__serialize_value(str(node.path))
-        config = self.__serialize_value(getattr(node.model_config, "identifier", None))
+        config = self.__serialize_config(node.model_config)
         merge_space = self.__serialize_value(node.merge_space.identifier)
         line = f"model {path} model_config={config} merge_space={merge_space}"
         return self.__add_instruction(line)
@@ -212,6 +212,13 @@ class SerializerVisitor(RecipeVisitor):
         line = " ".join(parts)
         return self.__add_instruction(line)
 
+    def __serialize_config(self, model_config) -> str:
+        identifier = getattr(model_config, "identifier", None)
+        if identifier == "structural":
+            # a structural config has no identity of its own, it is always determined from the inputs
+            identifier = None
+        return self.__serialize_value(identifier)
+
     def __serialize_value(self, value) -> str:
         if isinstance(value, str):
             value = value.replace("\\", "\\\\").replace('"', "\\\"")
-- 
2.43.0


From ea5a28962831cc9180d13d67ad1097cb1019388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 15/70] fix: recipes with line terminators or blank lines are
 rejected

---
 sd_mecha/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 9ec96e4..a1e3beb 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -36,7 +36,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
     if not recipe[0].startswith("version"):
         raise RuntimeError("bad format: expected version at line 1")
 
-    actual_version, recipe = recipe[0], recipe[1:]
+    actual_version, recipe = recipe[0].strip(), recipe[1:]
     expected_version = get_version_header(MECHA_FORMAT_VERSION)
     if actual_version != expected_version:
         raise RuntimeError(f"bad recipe version: got {actual_version}, expected {expected_version}")
@@ -45,7 +45,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
 
     def parse(line):
         line = line.strip()
-        if line.startswith("#"):
+        if not line or line.startswith("#"):
             return
 
         command, *args = tokenize(line)
-- 
2.43.0


From 2cf11fd7ccd6f11ba692f10417b7716349d71dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 16/70] fix: deserializing a recipe that ends in a dict does
 not return a recipe node

---
 sd_mecha/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index a1e3beb..52d7eda 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -135,7 +135,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         except ValueError as e:
             raise ValueError(f"line {line_num}: {e}.\n    {line}")
 
-    return results[-1]
+    return merge_methods.value_to_node(results[-1])
 
 
 def serialize(recipe: RecipeNode, *, output: Optional[pathlib.Path | str] = None) -> str:
-- 
2.43.0


From 3f85189bd4aee69bf1a7d0bf783d716503ec5cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 17/70] fix: value_to_node fails on paths without an expected
 type and on empty dicts

---
 sd_mecha/extensions/merge_methods.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 364b772..69ada37 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -570,10 +570,7 @@ def value_to_node(node_or_value: RecipeNodeOrValue, expected_type: type = None)
         raise TypeError(f"type of 'node_or_value' should be one of {typing.get_args(RecipeNodeOrValue)}, not {type(node_or_value)}")
 
     if expected_type is None:
-        if isinstance(node_or_value, Mapping):
-            expected_type = next(iter(node_or_value.values()))
-        else:
-            expected_type = type(node_or_value)
+        expected_type = T
 
     numeric = int | float
 
-- 
2.43.0


From 6b2a212431eccea29c9f42d9a149b870dad83e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 18/70] fix: dicts of literal nodes are serialized as dicts of
 values

---
 sd_mecha/serialization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 52d7eda..ff707d9 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -229,7 +229,11 @@ class SerializerVisitor(RecipeVisitor):
             for k in value:
                 if not isinstance(k, str) or any(c in '"\\=' or c.isspace() for c in k):
                     raise TypeError(f"dict key cannot be serialized: {k!r}")
-            dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
+            dict_line = "dict " + " ".join(
+                # a dict of nodes must not become a dict of values
+                f"{k}={self.visit_root_literal(v) if isinstance(v, LiteralRecipeNode) else self.__serialize_value(v)}"
+                for k, v in value.items()
+            )
             return self.__add_instruction(dict_line)
         # bool needs to be handled before int (bool is a subclass of int)
         if isinstance(value, (int, float)) and not isinstance(value, bool):
-- 
2.43.0


From 46acac69c6d639df19bd00787bbd40922ad9303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 19/70] fix: literals with a structural model config are
 serialized like those without one

---
 sd_mecha/serialization.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index ff707d9..7e5fdb1 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -181,21 +181,21 @@ class SerializerVisitor(RecipeVisitor):
         self.instructions = instructions if instructions is not None else []
 
     def visit_literal(self, node: LiteralRecipeNode):
-        if node.model_config is None and node.merge_space.identifier == "param":
+        if self.__config_identifier(node.model_config) is None and node.merge_space.identifier == "param":
             return self.__serialize_value(node.value)
         else:
             return self.visit_root_literal(node)
 
     def visit_root_literal(self, node: LiteralRecipeNode):
         value = self.__serialize_value(node.value)
-        config = self.__serialize_config(node.model_config)
+        config = self.__serialize_value(self.__config_identifier(node.model_config))
         merge_space = self.__serialize_value(node.merge_space.identifier)
         line = f"literal {value} model_config={config} merge_space={merge_space}"
         return self.__add_instruction(line)
 
     def visit_model(self, node: ModelRecipeNode) -> str:
         path = self.__serialize_value(str(node.path))
-        config = self.__serialize_config(node.model_config)
+        config = self.__serialize_value(self.__config_identifier(node.model_config))
         merge_space = self.__serialize_value(node.merge_space.identifier)
         line = f"model {path} model_config={config} merge_space={merge_space}"
         return self.__add_instruction(line)
@@ -212,12 +212,11 @@ class SerializerVisitor(RecipeVisitor):
         line = " ".join(parts)
         return self.__add_instruction(line)
 
-    def __serialize_config(self, model_config) -> str:
+    @staticmethod
+    def __config_identifier(model_config) -> Optional[str]:
         identifier = getattr(model_config, "identifier", None)
-        if identifier == "structural":
-            # a structural config has no identity of its own, it is always determined from the inputs
-            identifier = None
-        return self.__serialize_value(identifier)
+        # a structural config has no identity of its own, it is always determined from the inputs
+        return identifier if identifier != "structural" else None
 
     def __serialize_value(self, value) -> str:
         if isinstance(value, str):
-- 
2.43.0


From 84b45ba43791439f750cd440150b609b4527e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 20/70] fix: arguments given twice are dropped and missing ones
 raise RuntimeError when calling merge methods

---
 sd_mecha/extensions/merge_methods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 69ada37..3dcb6cc 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -251,9 +251,13 @@ class MergeMethod:
 
         def ensure_positive(v: int):
             if v < 0:
-                raise RuntimeError
+                raise TypeError("Missing positional argument")
             return v
 
+        for k in params.args[:len(args)]:
+            if k in kwargs:
+                raise TypeError(f"Multiple values for argument '{k}'")
+
         max_args = len(params.args) if not params.has_varargs() else float("inf")
         min_args = len(params.args) - len(defaults.args)
         n_args = len(args) + len([kwargs[k] for k in params.args if k in kwargs])
-- 
2.43.0


From dc53391b8f5c27834173fed315ba2c0bbdcc0471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 21/70] fix: the dropout wrapper passes a parameter that does
 not exist

---
 sd_mecha/merge_method_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 1d2bf39..0e93ad6 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -248,7 +248,7 @@ def dropout(
         subtract(model, a)
         for model in models
     ]
-    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_skew=overlap_emphasis, seed=seed)
+    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_emphasis=overlap_emphasis, seed=seed)
     return merge_methods.add_difference(a, ba_delta, alpha=alpha)
 
 
-- 
2.43.0


From 70757eece9d935bc9ddbb28f7036d23dc81cf503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 22/70] fix: dropout always fails at its default overlap, and
 on tensors of rank 0

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index aae7a68..ad3dce2 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -597,14 +597,14 @@ def dropout(  # aka n-supermario
     rng = np.random.default_rng(seed)
 
     if overlap % 2 == 1:
-        masks = tuple(
-            torch.from_numpy(rng.binomial(n=1, p=1 - probability, size=delta0.shape)).to(device=delta0.device, dtype=torch.bool)
+        masks = torch.stack([
+            torch.as_tensor(rng.binomial(n=1, p=1 - probability, size=delta0.shape)).to(device=delta0.device, dtype=torch.bool)
             for _ in range(len(deltas))
-        )
+        ])
     else:
         ks = np.arange(2 ** len(deltas))
         pmf = overlapping_sets_pmf(len(deltas), probability, overlap, overlap_emphasis)
-        masks = torch.from_numpy(rng.choice(ks, size=delta0.shape, p=pmf)).to(delta0.device)
+        masks = torch.as_tensor(rng.choice(ks, size=delta0.shape, p=pmf)).to(delta0.device)
         masks = torch.stack([masks & 2 ** i != 0 for i in range(len(deltas))])
 
     final_delta = torch.zeros_like(delta0)
-- 
2.43.0


From e3225a9eac98601a8c177568699b2ef05b38a375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 23/70] fix: ties_with_dare passes a parameter that does not
 exist

---
 sd_mecha/merge_method_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 0e93ad6..1e86876 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -297,7 +297,7 @@ def ties_with_dare(
     res = ties_sum_with_dropout(
         *deltas,
         probability=probability,
-        rescale=rescale,
+        no_rescale=not rescale,
         k=k,
         vote_sgn=vote_sgn,
         seed=seed,
-- 
2.43.0


From 42d28dd9f2bc54fad70443211a23ea142809068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 24/70] fix: the flux conversions are never registered

---
 sd_mecha/extensions/builtin/model_configs/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/extensions/builtin/model_configs/__init__.py b/sd_mecha/extensions/builtin/model_configs/__init__.py
index 78104bc..a6d6fa9 100644
--- a/sd_mecha/extensions/builtin/model_configs/__init__.py
+++ b/sd_mecha/extensions/builtin/model_configs/__init__.py
@@ -15,5 +15,6 @@ _register_configs()
 from .convert_sdxl_kohya_to_original import convert_sdxl_kohya_to_original
 from .convert_sdxl_diffusers_unet_to_original import convert_sdxl_diffusers_unet_to_original
 from .convert_sd1_kohya_to_original import convert_sd1_kohya_to_original
+from . import convert_flux
 from . import convert_sdxl_blocks
 from . import convert_sd1_blocks
-- 
2.43.0


From 6bd555da4a4f3652d0925e9a772000f75d52324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 25/70] fix: the flux configs give another identifier than the
 one they are registered with

---
 sd_mecha/extensions/builtin/model_configs/flux-flux.yaml        | 2 +-
 .../builtin/model_configs/flux-flux_diffuser_only.yaml          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml b/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
index 9b8dc3c..c8fac97 100644
--- a/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
+++ b/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
@@ -1,4 +1,4 @@
-identifier: flux_dev-flux
+identifier: flux-flux
 components:
   diffuser:
     model.diffusion_model.double_blocks.0.img_attn.norm.key_norm.scale: {shape: [128], dtype: bfloat16}
diff --git a/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml b/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
index 4ccadd8..8ef06f5 100644
--- a/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
+++ b/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
@@ -1,4 +1,4 @@
-identifier: flux_dev_unet_only-flux
+identifier: flux-flux_diffuser_only
 components:
   diffuser:
     double_blocks.0.img_attn.norm.key_norm.scale: {shape: [128], dtype: bfloat16}
-- 
2.43.0


From 688b07ad3a319d6d8c06486bfe6aef90c09dcfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 26/70] fix: the vae of sdxl-kohya models is never found when
 converting

---
 .../builtin/model_configs/convert_sdxl_kohya_to_original.py    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
index 0f6484f..440773e 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
@@ -2,7 +2,6 @@ import torch
 from torch import Tensor
 from sd_mecha import merge_method, StateDict, Return, Parameter
 from sd_mecha.extensions import model_configs
-from .convert_huggingface_sd_vae_to_original import convert_vae
 
 
 sdxl_kohya_config = model_configs.resolve('sdxl-kohya')
@@ -53,7 +52,5 @@ def convert_sdxl_kohya_to_original(
             res = res.T
 
         return res
-    elif sgm_key.startswith("first_stage_model."):
-        return convert_vae(kohya_sd, sgm_key)
     else:
         return kohya_sd[sgm_key]
-- 
2.43.0


From 249e7126082d3aaf82d0cd7b863040559c1cb557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 27/70] fix: attention biases of sdxl-kohya models convert to
 the wrong shape

---
 .../builtin/model_configs/convert_sdxl_kohya_to_original.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
index 440773e..09d3070 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
@@ -41,7 +41,7 @@ def convert_sdxl_kohya_to_original(
         if kohya_key.endswith((".in_proj_weight", ".in_proj_bias")):
             is_bias = kohya_key.endswith("bias")
             partial_key = kohya_key.replace(".in_proj_weight", "").replace(".in_proj_bias", "")
-            res = torch.vstack([
+            res = torch.cat([
                 kohya_sd[f"{partial_key}.{k}_proj.{'bias' if is_bias else 'weight'}"]
                 for k in ("q", "k", "v")
             ])
-- 
2.43.0


From 4a7018a062d06a23f53b2e7b7d51641b26ec639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 28/70] fix: an attention block of sdxl-diffusers models is
 never found when converting

---
 .../model_configs/convert_sdxl_diffusers_unet_to_original.py   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
index 8bb3e7e..83805d7 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
@@ -103,9 +103,8 @@ for i in range(3):
 
         # no upsample in up_blocks.3
         hf_upsample_prefix = f"up_blocks.{i}.upsamplers.0."
-        sd_upsample_prefix = f"output_blocks.{3*i + 2}.{1 if i == 0 else 2}."
+        sd_upsample_prefix = f"output_blocks.{3*i + 2}.2."
         unet_conversion_map_layer[sd_upsample_prefix] = hf_upsample_prefix
-unet_conversion_map_layer["output_blocks.2.2.conv."] = "output_blocks.2.1.conv."
 
 hf_mid_atn_prefix = "mid_block.attentions.0."
 sd_mid_atn_prefix = "middle_block.1."
-- 
2.43.0


From 408cbef9dcd8f191b5672086cdf24cef199fe0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 29/70] fix: the attention norms of the vae of sd1-kohya models
 are never found when converting

---
 .../model_configs/convert_huggingface_sd_vae_to_original.py      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
index 9397677..31a5ead 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
@@ -41,6 +41,7 @@ vae_conversion_map = {
     # (original, huggingface)
     "nin_shortcut": "conv_shortcut",
     "norm_out": "conv_norm_out",
+    "mid.attn_1.norm.": "mid_block.attentions.0.group_norm.",
     "mid.attn_1.": "mid_block.attentions.0.",
 }
 for i in range(4):
-- 
2.43.0


From 0cc46962c3b046732e8210987d6bc3cb19bde37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 30/70] fix: merging or converting a recipe changes the model
 configs of its nodes, and thereby later results

---
 sd_mecha/merging.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index c77787b..ef87dc8 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -354,11 +354,14 @@ def open_input_dicts(
     check_mandatory_keys: bool = False,
     empty_cuda_cache: bool = False,
 ):
+    load_visitor = LoadInputDictsVisitor(list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys)
     try:
-        recipe.accept(LoadInputDictsVisitor(list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys))
+        recipe.accept(load_visitor)
         yield recipe
     finally:
         recipe.accept(CloseInputDictsVisitor())
+        for node, original_config in reversed(load_visitor.original_configs):
+            node.model_config = original_config
         if empty_cuda_cache:
             gc.collect()
             torch.cuda.empty_cache()
@@ -372,6 +375,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     check_mandatory_keys: bool
     dicts_cache: MutableMapping[str, Mapping[str, torch.Tensor]] = dataclasses.field(default_factory=dict)
     structural_metadata: MutableMapping[str, KeyMetadata] = dataclasses.field(default_factory=OrderedDict)
+    original_configs: List[Tuple[RecipeNode, Optional[ModelConfig]]] = dataclasses.field(default_factory=list)
     param_config: Optional[ModelConfig] = None
 
     def visit_literal(self, node: LiteralRecipeNode):
@@ -387,7 +391,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
             elif k not in metadata:
                 metadata[k] = KeyMetadata(None, None, optional=True)
 
-        node.model_config = self.__determine_model_config(metadata, node.model_config)
+        self.__set_model_config(node, metadata)
         check_model_config(node.value, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, "<in-memory state dict>")
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
@@ -396,7 +400,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
             (k, KeyMetadata(v.shape, v.dtype, optional=True))
             for k, v in node.state_dict.metadata()
         )
-        node.model_config = self.__determine_model_config(metadata, node.model_config)
+        self.__set_model_config(node, metadata)
         check_model_config(node.state_dict, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, str(node.path))
 
     def visit_merge(self, node: recipe_nodes.MergeRecipeNode):
@@ -434,6 +438,10 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
         return self.dicts_cache[cache_key], path
 
+    def __set_model_config(self, node: LiteralRecipeNode | ModelRecipeNode, metadata: MutableMapping[str, KeyMetadata]):
+        self.original_configs.append((node, node.model_config))
+        node.model_config = self.__determine_model_config(metadata, node.model_config)
+
     def __determine_model_config(self, metadata: MutableMapping[str, KeyMetadata], config_hint: Optional[ModelConfig]) -> ModelConfig:
         config = config_hint
         if config is None or config == model_configs.INFER:
-- 
2.43.0


From c813c0e0d74fd2622250946cbd63777b585dc84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 31/70] fix: user defined model configs cannot be inferred
 because they are not hashable

---
 sd_mecha/extensions/model_configs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index c6b1002..e914d11 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -132,6 +132,9 @@ class ModelConfigImpl(ModelConfig):
                 components[k] = v
         self._components = components
 
+    def __hash__(self):
+        return hash(self.identifier)
+
     @property
     def identifier(self) -> str:
         return self._identifier
-- 
2.43.0


From 819d16c9440ee2fee67dae478be5f0d622605847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 32/70] fix: converting without a conversion or a config raises
 KeyError or AttributeError instead of ValueError

---
 sd_mecha/conversion.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index 0785215..a8feeb0 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -47,6 +47,8 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
     if isinstance(config, RecipeNode):
         with open_input_dicts(config, model_dirs):
             config = config.model_config
+        if config is None:
+            raise ValueError("the recipe to take the target config from has no config")
 
     tgt_config = config if isinstance(config, str) else config.identifier
 
@@ -63,7 +65,9 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
 
     recipe = value_to_node(recipe)
     with open_input_dicts(recipe, model_dirs):
-        src_config = recipe.model_config.identifier
+        src_config = getattr(recipe.model_config, "identifier", None)
+    if src_config is None:
+        raise ValueError("the recipe to convert has no config")
     if src_config == "structural":
         raise ValueError(
             "recipe config is 'structural': "
@@ -93,6 +97,9 @@ def dijkstra(graph, start, goal):
              or None if no path exists.
     """
 
+    if start != goal and (start not in graph or goal not in graph):
+        return None
+
     distances = {node: float('inf') for node in graph}
     distances[start] = 0
     predecessors = {node: None for node in graph}  # will store the node we came from
-- 
2.43.0


From c2a0c15c0b22395b6b954c6b6c853ed420eb85de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 33/70] fix: lora models with lycoris names convert to nothing

---
 sd_mecha/extensions/builtin/lycoris.py | 36 ++++++++++++++------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/sd_mecha/extensions/builtin/lycoris.py b/sd_mecha/extensions/builtin/lycoris.py
index 935153f..3979af8 100644
--- a/sd_mecha/extensions/builtin/lycoris.py
+++ b/sd_mecha/extensions/builtin/lycoris.py
@@ -14,22 +14,26 @@ def _register_all_lycoris_configs():
                 LycorisModelConfig(base_config, "lycoris", "lycoris", list(lycoris_algorithms)),
                 LycorisModelConfig(base_config, "kohya", "lora", list(lycoris_algorithms)),
         ):
-            model_configs.register_aux(lyco_config)
-            lora_config_id = lyco_config.identifier
-            base_config_id = lyco_config.base_config.identifier
-
-            @merge_method(identifier=f"convert_'{lora_config_id}'_to_base", is_conversion=True)
-            def diffusers_lora_to_base(
-                lora: Parameter(StateDict[torch.Tensor], "weight", lora_config_id),
-                **kwargs,
-            ) -> Return(torch.Tensor, "delta", base_config_id):
-                key = kwargs["key"]
-                lycoris_keys = lyco_config.to_lycoris_keys(key)
-                if not lycoris_keys:
-                    raise StateDictKeyError(key)
-
-                lycoris_key = next(iter(lycoris_keys))
-                return compose_lora_up_down(lora, lycoris_key.split(".")[0])
+            _register_lycoris_config(lyco_config)
+
+
+def _register_lycoris_config(lyco_config: "LycorisModelConfig"):
+    model_configs.register_aux(lyco_config)
+    lora_config_id = lyco_config.identifier
+    base_config_id = lyco_config.base_config.identifier
+
+    @merge_method(identifier=f"convert_'{lora_config_id}'_to_base", is_conversion=True)
+    def diffusers_lora_to_base(
+        lora: Parameter(StateDict[torch.Tensor], "weight", lora_config_id),
+        **kwargs,
+    ) -> Return(torch.Tensor, "delta", base_config_id):
+        key = kwargs["key"]
+        lycoris_keys = lyco_config.to_lycoris_keys(key)
+        if not lycoris_keys:
+            raise StateDictKeyError(key)
+
+        lycoris_key = next(iter(lycoris_keys))
+        return compose_lora_up_down(lora, lycoris_key.split(".")[0])
 
 
 def compose_lora_up_down(state_dict: Mapping[str, torch.Tensor], key: str):
-- 
2.43.0


From c720153029b7a8207b34ac4126178f05a711e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 34/70] fix: model configs cannot be written to yaml, and their
 aliases and optional flags are left out

---
 sd_mecha/extensions/model_configs.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index e914d11..4c9d77e 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -22,7 +22,7 @@ StateDictKey = str
 class KeyMetadata:
     shape: Optional[List[int]] | torch.Size
     dtype: Optional[str] | torch.dtype
-    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: bool(p)})
+    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: not p})
     optional: bool = dataclasses.field(default=False, metadata={"exclude": lambda p: not p})
 
     def __post_init__(self):
@@ -316,14 +316,15 @@ _model_configs_registry_aux: Dict[str, ModelConfig] = {}
 
 def serialize(obj):
     if isinstance(obj, ModelComponent):
-        return serialize(obj.keys)
+        return serialize(obj.keys())
     elif dataclasses.is_dataclass(obj):
         return {
             field.metadata.get("serial_name", field.name): serialize(getattr(obj, field.name))
             for field in dataclasses.fields(obj)
             if not (
-                callable(field.metadata.get("exclude")) and field.metadata["exclude"](getattr(obj, field.name))
-                or field.metadata.get("exclude", False)
+                field.metadata["exclude"](getattr(obj, field.name))
+                if callable(field.metadata.get("exclude"))
+                else field.metadata.get("exclude", False)
             )
         }
     elif isinstance(obj, (str, int, float, type(None))):
@@ -341,6 +342,9 @@ def serialize(obj):
 
 
 def to_yaml(model_config: ModelConfig) -> str:
+    if isinstance(model_config, LazyModelConfigBase):
+        model_config._ensure_config()
+        model_config = model_config.underlying_config
     dict_config = serialize(model_config)
     old_representers = yaml.SafeDumper.yaml_representers.copy()
 
-- 
2.43.0


From c38644c0483b12828e909caf15bee357630598db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 35/70] fix: the config that a method expects is not considered
 for the inputs of nested methods, including casts

---
 sd_mecha/merging.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index ef87dc8..cd5e924 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -405,8 +405,13 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
     def visit_merge(self, node: recipe_nodes.MergeRecipeNode):
         input_configs = node.merge_method.get_input_configs().as_dict(len(node.args))
+        # inputs that do not declare a config have the config of the output
+        default_config = node.merge_method.get_return_config([None] * len(node.args), {})
+        if default_config is None:
+            default_config = self.param_config
         for k, v in itertools.chain(enumerate(node.args), node.kwargs.items()):
-            v.accept(dataclasses.replace(self, param_config=input_configs[k]))
+            param_config = input_configs[k] if input_configs[k] is not None else default_config
+            v.accept(dataclasses.replace(self, param_config=param_config))
 
     def __load_dict(self, node: recipe_nodes.ModelRecipeNode):
         if node.state_dict is not None:
-- 
2.43.0


From ddb3f82460dfa2f8367435b136de97e16ce6b561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 36/70] fix: a missing key no longer hides the error of another
 operand

---
 sd_mecha/merging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index cd5e924..100163e 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -620,7 +620,9 @@ class ErrorHolder:
         try:
             return fn(*args, **kwargs)
         except Exception:
-            self.exc_info = sys.exc_info()
+            # a missing key must not hide the genuine error of another input
+            if self.exc_info is None or isinstance(self.exc_info[1], StateDictKeyError):
+                self.exc_info = sys.exc_info()
             return None
 
     def try_raise(self):
-- 
2.43.0


From bc6f8b64a7d0bea108c926eb8ab64c8e25dca3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 37/70] fix: close a model file whose header cannot be read

---
 sd_mecha/streaming.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 3a5f4ad..dff9ed1 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -82,7 +82,11 @@ class InSafetensorsDict(SafetensorsMapping):
         self.default_buffer_size = buffer_size
         self.file = open(file_path, mode='rb', buffering=0)
         self.file_path = file_path
-        self.header_size, self.header = self._read_header()
+        try:
+            self.header_size, self.header = self._read_header()
+        except BaseException:
+            self.close()
+            raise
         self.buffer = bytearray()
         self.buffer_start_offset = 8 + self.header_size
         self.lock = threading.Lock()
-- 
2.43.0


From c0762955fa98ef0fba77e1daa558d3783e25d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 38/70] fix: close the output file when finishing it fails

---
 sd_mecha/merging.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 100163e..13914e0 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -289,12 +289,11 @@ def _get_output_dict(
         )
         try:
             yield streamed_output
+            streamed_output.close()
         except BaseException:
             # without its header, an incomplete file cannot be mistaken for a merged model
             streamed_output.file.close()
             raise
-        else:
-            streamed_output.close()
     else:
         if output is None:
             output = {}
-- 
2.43.0


From ef7a5642a7ee91a8ab01b82715d6891a183cfe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 39/70] fix: omitting ema keys no longer removes them from the
 model config

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 13914e0..a5c9a7b 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -158,7 +158,7 @@ def merge(
         if strict_weight_space and recipe.merge_space != "weight":
             raise ValueError(f"recipe should be in 'weight' space, not '{recipe.merge_space.identifier}'")
 
-        recipe_metadata = recipe.model_config.metadata()
+        recipe_metadata = OrderedDict(recipe.model_config.metadata())
         if not omit_extra_keys:
             recipe, recipe_metadata = copy_extra_keys(recipe)
 
-- 
2.43.0


From e5a7c3902de449fbc515c839983aece62318a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 40/70] fix: extra keys of several in-memory models with the
 same keys can be forwarded

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index a5c9a7b..1ccec64 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -242,7 +242,7 @@ class ForwardableNodesVisitor(RecipeVisitor):
             isinstance(next(iter(node.value.values())), torch.Tensor) and
             node.model_config == self.target_config and
             node.merge_space == self.target_merge_space and
-            not any(node in n[0] for n in self.forwardable_nodes)
+            not any(node is n[0] for n in self.forwardable_nodes)
         ):
             metadata = OrderedDict(
                 (k, TensorMetadata(v.shape, v.dtype))
-- 
2.43.0


From 70972bdc18ccf00eb7b288200ed10adbca1919fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 41/70] fix: cast forwarded extra keys to the output device and
 dtype

---
 sd_mecha/merging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 1ccec64..f67928b 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -133,9 +133,6 @@ def merge(
     if merge_device is not None or merge_dtype is not None:
         recipe = recipe.accept(CastInputDicts(merge_device, merge_dtype))
 
-    if output_device is not None or output_dtype is not None:
-        recipe = recipe.to(device=output_device, dtype=output_dtype)
-
     if threads is not None and (threads < 0 or not isinstance(threads, int)):
         raise RuntimeError("threads should be a non-negative integer or None")
 
@@ -162,6 +159,9 @@ def merge(
         if not omit_extra_keys:
             recipe, recipe_metadata = copy_extra_keys(recipe)
 
+        if output_device is not None or output_dtype is not None:
+            recipe = recipe.to(device=output_device, dtype=output_dtype)
+
         if omit_ema and "ema" in recipe.model_config.components():
             for key in recipe.model_config.components()["ema"].keys():
                 if key in recipe_metadata:
-- 
2.43.0


From da7effe17742d55597658574ba5227ab8e5384d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 42/70] fix: deliver bool parameters as bool and refuse other
 types for str parameters

---
 sd_mecha/merging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index f67928b..ec6cf6d 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -679,8 +679,10 @@ def cast_node_value(value, expected_type):
 
     if isinstance(expected_type, TypeVar) or isinstance(value, expected_type):
         return value
-    if isinstance(expected_type, str):
+    if issubclass(expected_type, str):
         raise RuntimeError(f"cannot implicitly convert {type(value)} to {expected_type}")
+    if issubclass(expected_type, bool):
+        return bool(value)
     if issubclass(expected_type, int):
         return int(value)
     if issubclass(expected_type, float):
-- 
2.43.0


From 169f872a800720add5f81494e3a061d000ba754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 43/70] fix: cast only tensor parameters to the merge dtype,
 and numbers directly to it

---
 sd_mecha/merging.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index ec6cf6d..85a8246 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -696,14 +696,23 @@ def cast_node_value(value, expected_type):
 class CastInputDicts(RecipeVisitor):
     device: str | torch.device
     dtype: torch.dtype
+    tensor_expected: bool = True
 
     def visit_literal(self, node: LiteralRecipeNode):
-        if (
-            isinstance(node.value, torch.Tensor | int | float) or
-            isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values())), torch.Tensor | int | float)
-        ):
+        value = node.value
+        first_value = next(iter(value.values()), None) if isinstance(value, Mapping) else value
+        if self.tensor_expected and self.dtype is not None and isinstance(first_value, int | float):
+            # directly to the merge dtype, an intermediate float32 would round the value
+            def to_tensor(v):
+                return torch.tensor(float(v), dtype=self.dtype, device=self.device)
+            return LiteralRecipeNode(
+                {k: to_tensor(v) for k, v in value.items()} if isinstance(value, Mapping) else to_tensor(value),
+                model_config=node.model_config,
+                merge_space=node.merge_space,
+            )
+        if self.tensor_expected and isinstance(first_value, torch.Tensor | int | float):
             return node.to(device=self.device, dtype=self.dtype)
-        if isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values())), RecipeNode):
+        if isinstance(first_value, RecipeNode):
             return LiteralRecipeNode(
                 {k: v.accept(self) for k, v in node.value.items()},
                 model_config=node.model_config,
@@ -712,12 +721,21 @@ class CastInputDicts(RecipeVisitor):
         return node
 
     def visit_model(self, node: ModelRecipeNode):
-        return node.to(device=self.device, dtype=self.dtype)
+        return node.to(device=self.device, dtype=self.dtype) if self.tensor_expected else node
 
     def visit_merge(self, node: MergeRecipeNode):
+        input_types = node.merge_method.get_input_types().as_dict(len(node.args))
         return MergeRecipeNode(
             node.merge_method,
-            tuple(v.accept(self) for v in node.args),
-            {k: v.accept(self) for k, v in node.kwargs.items()},
+            tuple(self.__cast_input(v, input_types[i]) for i, v in enumerate(node.args)),
+            {k: self.__cast_input(v, input_types[k]) for k, v in node.kwargs.items()},
             node.cache,
         )
+
+    def __cast_input(self, node: RecipeNode, input_type: type):
+        if is_subclass(input_type, StateDict):
+            input_type = next(iter(typing.get_args(input_type)), MergeMethodT)
+        if isinstance(input_type, TypeVar):
+            return node.accept(self)
+        # parameters that are not tensors are never cast: a dtype could not represent their value
+        return node.accept(dataclasses.replace(self, tensor_expected=is_subclass(input_type, torch.Tensor)))
-- 
2.43.0


From a8334d6e32e2542e243a2d5bc65cdbe595b024ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 44/70] fix: tensor_sum does not write into its operands

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index ad3dce2..746307b 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -153,11 +153,12 @@ def tensor_sum(
 
     start_i, end_i, region_is_inverted = ratio_to_region(width, offset, a.size(0))
     if region_is_inverted:
-        b[start_i:end_i] = a[start_i:end_i]
-        return b
+        res = b.clone()
+        res[start_i:end_i] = a[start_i:end_i]
     else:
-        a[start_i:end_i] = b[start_i:end_i]
-        return a
+        res = a.clone()
+        res[start_i:end_i] = b[start_i:end_i]
+    return res
 
 
 @merge_method
-- 
2.43.0


From b478accbccab81f7e279be91800751115f74a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 45/70] fix: multiply_quotient does not write into alpha, and
 accepts a scalar

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 746307b..f38fe5c 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -289,7 +289,7 @@ def multiply_quotient(
     c = torch.complex(c, torch.zeros_like(c))
 
     threshold = torch.maximum(torch.abs(ac_log), torch.abs(bc_log))
-    alpha *= torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
+    alpha = alpha * torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
 
     res = a * (b / c)**alpha
     res = torch.where(torch.isnan(res), a, res)
-- 
2.43.0


From 9e0d0f504be596c10863227d314e0385a7da8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 46/70] fix: rotate reads its operands as state dicts and does
 not write into them

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index f38fe5c..92cb3d8 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -382,8 +382,8 @@ def create_filter(shape: Tuple[int, ...] | torch.Size, alpha: float, tilt: float
 
 @merge_method
 def rotate(
-    a_dict: Parameter(Tensor),
-    b_dict: Parameter(Tensor),
+    a_dict: Parameter(StateDict[Tensor]),
+    b_dict: Parameter(StateDict[Tensor]),
     alignment: Parameter(float) = 1.0,
     alpha: Parameter(Tensor) = 0.0,
     **kwargs,
@@ -410,8 +410,8 @@ def rotate(
     b_neurons = b.reshape(*shape_2d)
     a_centroid = a_neurons.mean(0)
     b_centroid = b_neurons.mean(0)
-    a_neurons -= a_centroid
-    b_neurons -= b_centroid
+    a_neurons = a_neurons - a_centroid
+    b_neurons = b_neurons - b_centroid
 
     cache = kwargs.get("cache")
     if cache is not None:
-- 
2.43.0


From ad8960e81a414cc99c5e936eeedcd6996d6344d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 47/70] fix: rotate takes fractional powers only for fractional
 alignments

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 10 ++++++----
 sd_mecha/extensions/builtin/merge_methods/svd.py      |  3 +--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 92cb3d8..929d6a1 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -420,14 +420,16 @@ def rotate(
             cache[key] = {}
         cache = cache[key]
 
-    alignment_is_float = math.isclose(alignment, round(alignment))
+    alignment_is_float = not math.isclose(alignment, round(alignment))
+    # a rotation found for an integer alignment can include a reflection, it has no fractional power
+    rotation_key = "proper_rotation" if alignment_is_float else "rotation"
 
-    if cache is not None and "rotation" in cache:
-        rotation = transform = cache["rotation"].to(a.device, a.dtype)
+    if cache is not None and rotation_key in cache:
+        rotation = transform = cache[rotation_key].to(a.device, a.dtype)
     else:
         rotation = transform = orthogonal_procrustes(a_neurons, b_neurons, cancel_reflection=alignment_is_float)
         if cache is not None:
-            cache["rotation"] = rotation.to("cpu", torch.float16)
+            cache[rotation_key] = rotation.to("cpu", torch.float16)
 
     if alignment_is_float:
         transform = fractional_matrix_power(transform, alignment, cache)
diff --git a/sd_mecha/extensions/builtin/merge_methods/svd.py b/sd_mecha/extensions/builtin/merge_methods/svd.py
index a88a218..86681b6 100644
--- a/sd_mecha/extensions/builtin/merge_methods/svd.py
+++ b/sd_mecha/extensions/builtin/merge_methods/svd.py
@@ -34,8 +34,7 @@ def fractional_matrix_power(matrix: Tensor, power: float, cache: Optional[Dict[s
             cache["eigenvectors"] = eigenvectors.to("cpu", torch.complex32)
             cache["eigenvectors_inv"] = eigenvectors_inv.to("cpu", torch.complex32)
 
-    eigenvalues.pow_(power)
-    result = eigenvectors @ torch.diag(eigenvalues) @ eigenvectors_inv
+    result = eigenvectors @ torch.diag(eigenvalues ** power) @ eigenvectors_inv
     return result.real.to(dtype=matrix.dtype)
 
 
-- 
2.43.0


From 87e518dfcef5c64518a7ab83bfce80b67d71b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 48/70] fix: select_max_white_delta whitens the pair of deltas,
 for any shape

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 929d6a1..5d51162 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -267,10 +267,11 @@ def select_max_white_delta(
     a_norm = (a - a.mean()) / a.std(correction=0)
     b_norm = (b - b.mean()) / b.std(correction=0)
 
-    d = torch.stack((a_norm.flatten(), b_norm.flatten()), dim=-1)
+    d = torch.stack((a_norm.flatten(), b_norm.flatten())).nan_to_num(nan=0)
     v, vs = torch.linalg.eigh(d.cov(correction=0))
-    w = vs @ torch.diag_embed(1 / v.sqrt()) @ vs.mH
-    a_w, b_w = (w @ d).T
+    v_inv_sqrt = torch.where(v > v.max() * 1e-6, 1 / v.sqrt(), 0)
+    w = vs @ torch.diag_embed(v_inv_sqrt) @ vs.mH
+    a_w, b_w = (w @ d).reshape(2, *a.shape)
 
     return torch.where((1 - alpha) * a_w.abs() >= alpha * b_w.abs(), a, b)
 
-- 
2.43.0


From 6ff3d1eb3b2e8d82f27d50d0887f6ca96c75b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 49/70] fix: truncate_rank accepts to keep the full rank

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 5d51162..18ce789 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -802,6 +802,9 @@ def truncate_rank(
     a_2d = a.flatten(start_dim=1)
     max_rank = min(a_2d.shape)
     target_rank = min(max(round(max_rank * rank_ratio), 1), max_rank)
+    if target_rank == max_rank:
+        return a
+
     svd_driver = "gesvda" if a.is_cuda else None
     u, s, vt = torch_svd_lowrank(a_2d, q=target_rank, full_matrices=False, driver=svd_driver)
     return (u @ torch.diag(s) @ vt).reshape(original_shape)
-- 
2.43.0


From 12437203a2580e8ccd73b3f6499c5729ab28f7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 50/70] fix: apply_median, apply_stock and no_rescale do what
 they say

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 18ce789..9eecd41 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -501,9 +501,9 @@ def ties_sum_extended(  # aka add_difference_ties
 ) -> Return(Tensor, "delta"):
     filtered_delta, param_counts = ties_sum_deltas(*models, k=k, vote_sgn=vote_sgn)
 
-    if apply_median:
+    if not apply_median:
         # Model Stock
-        t = 1.0 if apply_stock else get_model_stock_t(torch.unbind(filtered_delta), cos_eps=cos_eps)
+        t = 1.0 if not apply_stock else get_model_stock_t(torch.unbind(filtered_delta), cos_eps=cos_eps)
 
         filtered_delta = filtered_delta.sum(dim=0)
 
@@ -702,7 +702,7 @@ def ties_sum_with_dropout(
     if math.isclose(probability, 1.0):
         # Corner case
         return deltas * 0.0
-    elif no_rescale:
+    elif not no_rescale:
         # Rescale
         # $$ \hat{\delta}^t = \tilde{\delta}^t / (1-p) $$
         return deltas / (1.0 - probability) 
-- 
2.43.0


From 072651728859bcfbbd2ade32dfba212f275eb29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 51/70] fix: model stock keeps the shape of scalar tensors

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 9eecd41..6410cb2 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -749,8 +749,8 @@ def get_model_stock_t(deltas: Sequence[Tensor], cos_eps: float):
     cos_theta = torch.stack(cos_thetas).mean(dim=0)
 
     # Convert to column vector for multiplication
-    t = (n * cos_theta / (1 + (n - 1) * cos_theta)).unsqueeze(-1)
-    return t
+    t = n * cos_theta / (1 + (n - 1) * cos_theta)
+    return t.unsqueeze(-1) if deltas[0].dim() > 0 else t
 
 
 # src: https://github.com/krishnap25/geom_median/blob/main/src/geom_median/torch/weiszfeld_list_of_array.py
-- 
2.43.0


From 6bffbd329717909e3dbee50441d621f50cce44c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 52/70] fix: Defaults.merge uses the default tqdm

---
 sd_mecha/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index ec3bb52..26315b7 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -178,6 +178,8 @@ class Defaults:
             omit_ema = self.__omit_ema
         if check_mandatory_keys is ...:
             check_mandatory_keys = self.__check_mandatory_keys
+        if tqdm is ...:
+            tqdm = self.__tqdm
 
         return merge(
             recipe,
-- 
2.43.0


From d26aa7b3d106ea9b498ff23b070365ddb39118dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 53/70] fix: accept model directories as strings or paths,
 singly or as any iterable

---
 sd_mecha/conversion.py |  8 ++++----
 sd_mecha/helpers.py    | 17 ++++-------------
 sd_mecha/merging.py    | 17 ++++++++++++-----
 3 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index a8feeb0..e69e23c 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -6,10 +6,10 @@ from .extensions.merge_methods import value_to_node
 from .extensions.model_configs import ModelConfig
 from .extensions import merge_methods
 from .recipe_nodes import RecipeNode, RecipeNodeOrValue
-from sd_mecha.merging import open_input_dicts, infer_model_configs
+from sd_mecha.merging import open_input_dicts, infer_model_configs, model_dirs_to_list
 
 
-def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, model_dirs: Iterable[pathlib.Path] = ()):
+def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, model_dirs: pathlib.Path | str | Iterable[pathlib.Path | str] = ()):
     """
     Convert a recipe from one model config to another.
 
@@ -22,7 +22,7 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
             A `RecipeNode` or dictionary representing the input model or partial recipe.
         config (str, ModelConfig or RecipeNode):
             The desired output config, or a recipe node that has the desired config.
-        model_dirs (Iterable[Path], optional):
+        model_dirs (Path, str or an iterable of these, optional):
             Directories to resolve relative model paths.
 
     Returns:
@@ -32,7 +32,7 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
         ValueError:
             If no conversion path is found.
     """
-    model_dirs = list(model_dirs)
+    model_dirs = model_dirs_to_list(model_dirs)
     all_converters = merge_methods.get_all_converters()
     converter_paths: Dict[str, List[Tuple[str, Any]]] = {}
     for converter in all_converters:
diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index 26315b7..7edfa84 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -3,11 +3,11 @@ import pathlib
 import torch
 from .extensions.merge_spaces import MergeSpace
 from .extensions.model_configs import ModelConfig
-from .merging import merge
+from .merging import merge, model_dirs_to_list
 from .conversion import convert
 from .recipe_nodes import ModelRecipeNode, LiteralRecipeNode, RecipeNode, RecipeNodeOrValue
 from .extensions.merge_methods import NonDictLiteralValue
-from typing import Optional, List, MutableMapping, Iterable, Mapping
+from typing import Optional, MutableMapping, Iterable, Mapping
 
 
 def model(
@@ -203,14 +203,5 @@ class Defaults:
     @staticmethod
     def _model_dirs_to_pathlib_list(models_dir):
         if models_dir is ...:
-            models_dir = []
-        if not isinstance(models_dir, List):
-            models_dir = [models_dir]
-        models_dir = list(models_dir)
-        for i in range(len(models_dir)):
-            if isinstance(models_dir[i], str):
-                models_dir[i] = pathlib.Path(models_dir[i])
-            if models_dir[i] is not None:
-                models_dir[i] = models_dir[i].absolute()
-
-        return models_dir
+            models_dir = ()
+        return [models_dir.absolute() for models_dir in model_dirs_to_list(models_dir)]
diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 85a8246..317ccdd 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -37,7 +37,7 @@ def merge(
     output_dtype: Optional[torch.dtype] = ...,
     threads: Optional[int] = ...,
     total_buffer_size: int = ...,
-    model_dirs: Iterable[pathlib.Path] = ...,
+    model_dirs: pathlib.Path | str | Iterable[pathlib.Path | str] = ...,
     strict_weight_space: bool = ...,
     check_finite: bool = ...,
     omit_extra_keys: bool = ...,
@@ -110,8 +110,7 @@ def merge(
         total_buffer_size = 2**28
     if model_dirs is ...:
         model_dirs = ()
-    else:
-        model_dirs = list(model_dirs)
+    model_dirs = model_dirs_to_list(model_dirs)
     if strict_weight_space is ...:
         strict_weight_space = True
     if check_finite is ...:
@@ -200,6 +199,14 @@ def merge(
                 return output_dict
 
 
+def model_dirs_to_list(model_dirs: Optional[pathlib.Path | str | Iterable[pathlib.Path | str]]) -> List[pathlib.Path]:
+    if model_dirs is None:
+        return []
+    if isinstance(model_dirs, (str, pathlib.Path)):
+        model_dirs = [model_dirs]
+    return [pathlib.Path(model_dir) for model_dir in model_dirs if model_dir is not None]
+
+
 def fix_torch_threading():
     if not torch.cuda.is_available():
         return
@@ -347,13 +354,13 @@ class ThisThreadExecutor(nullcontext):
 @contextlib.contextmanager
 def open_input_dicts(
     recipe: recipe_nodes.RecipeNode,
-    model_dirs: Iterable[pathlib.Path] = (),
+    model_dirs: pathlib.Path | str | Iterable[pathlib.Path | str] = (),
     buffer_size_per_dict: int = 0,
     omit_extra_keys: bool = True,
     check_mandatory_keys: bool = False,
     empty_cuda_cache: bool = False,
 ):
-    load_visitor = LoadInputDictsVisitor(list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys)
+    load_visitor = LoadInputDictsVisitor(model_dirs_to_list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys)
     try:
         recipe.accept(load_visitor)
         yield recipe
-- 
2.43.0


From 1675a4fe93c390e93ffa1b80227dcf131f60c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 54/70] fix: Defaults keeps its model directories for every
 operation

---
 sd_mecha/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index 7edfa84..647a8e6 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -98,7 +98,8 @@ class Defaults:
         Args:
             See documentation for `sd_mecha.merge` or `sd_mecha.conversion` for a description of each parameter.
         """
-        self.__model_dirs = model_dirs
+        # an iterator could only be used by one operation
+        self.__model_dirs = model_dirs if model_dirs is ... else model_dirs_to_list(model_dirs)
         self.__merge_device = merge_device
         self.__merge_dtype = merge_dtype
         self.__output_device = output_device
-- 
2.43.0


From e050fa10273fadbcf836e9ee5e2e8d0d9b280746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 55/70] fix: merge recipes that use a method without operands

---
 sd_mecha/recipe_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index f742f84..fc48465 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -228,11 +228,11 @@ class ModelDepthRecipeVisitor(RecipeVisitor):
         return 1
 
     def visit_merge(self, node: MergeRecipeNode):
-        return max(
+        return max((
             child.accept(self)
             for children in (node.args, node.kwargs.values())
             for child in children
-        ) + 1
+        ), default=0) + 1
 
 
 class ModelsCountVisitor(RecipeVisitor):
-- 
2.43.0


From 39edcff41197661d459560be07e18c533412e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 56/70] fix: refuse to overwrite an input model with the output

---
 sd_mecha/merging.py | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 317ccdd..a54ee01 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -174,6 +174,7 @@ def merge(
                 output,
                 recipe_metadata,
                 original_recipe,
+                recipe.accept(ModelPathsVisitor(model_dirs)),
                 model_dirs,
                 buffer_size_per_file_per_thread,
             ) as output_dict,
@@ -271,6 +272,7 @@ def _get_output_dict(
     output: Optional[MutableMapping[str, torch.Tensor]] | pathlib.Path | str,
     merged_header: Mapping[str, TensorMetadata],
     recipe: RecipeNode,
+    input_paths: Iterable[pathlib.Path],
     model_dirs: Iterable[pathlib.Path],
     buffer_size_per_thread: int,
 ):
@@ -281,6 +283,8 @@ def _get_output_dict(
             for model_dir in model_dirs:
                 output = model_dir / output
                 break
+        if output.exists() and any(path.exists() and path.samefile(output) for path in input_paths):
+            raise ValueError(f"the output {output} is also an input of the recipe")
         logging.info(f"Saving to {output}")
 
         try:
@@ -423,16 +427,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
         if node.state_dict is not None:
             return node.state_dict, node.path
 
-        path = node.path
-        if not isinstance(path, pathlib.Path):
-            path = pathlib.Path(path)
-        if not path.is_absolute():
-            for base_dir in self.model_dirs:
-                path_attempt = base_dir / path
-                if path_attempt.exists():
-                    path = path_attempt
-                    break
-
+        path = resolve_model_path(node.path, self.model_dirs)
         cache_key = str(path.resolve())
         if cache_key not in self.dicts_cache:
             matching_formats = []
@@ -481,6 +476,32 @@ class LoadInputDictsVisitor(RecipeVisitor):
         return config
 
 
+def resolve_model_path(path: pathlib.Path | str, model_dirs: Iterable[pathlib.Path]) -> pathlib.Path:
+    path = pathlib.Path(path)
+    if not path.is_absolute():
+        for base_dir in model_dirs:
+            path_attempt = base_dir / path
+            if path_attempt.exists():
+                return path_attempt
+    return path
+
+
+@dataclasses.dataclass
+class ModelPathsVisitor(RecipeVisitor):
+    model_dirs: Iterable[pathlib.Path]
+
+    def visit_literal(self, node: LiteralRecipeNode) -> Set[pathlib.Path]:
+        if not isinstance(node.value, Mapping):
+            return set()
+        return set().union(*(v.accept(self) for v in node.value.values() if isinstance(v, RecipeNode)))
+
+    def visit_model(self, node: ModelRecipeNode) -> Set[pathlib.Path]:
+        return {resolve_model_path(node.path, self.model_dirs)}
+
+    def visit_merge(self, node: MergeRecipeNode) -> Set[pathlib.Path]:
+        return set().union(*(v.accept(self) for v in (*node.args, *node.kwargs.values())))
+
+
 def is_config_stub(config: Optional[model_configs.ModelConfig]) -> bool:
     return getattr(config, "identifier", None) in (None, model_configs.INFER.identifier)
 
-- 
2.43.0


From c3eea01625fbe0aa76c7afd00d30a90194c4403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 57/70] fix: dropout with overlapping sets accepts a
 probability of zero

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 6410cb2..a04c7cb 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -641,6 +641,8 @@ def overlapping_sets_pmf(n, p, overlap, overlap_emphasis):
         pmf = np.exp(pmf) / np.sum(np.exp(pmf))
 
     binomial_pmf = binom.pmf(np.arange(1, n + 1), n, p)
+    if p == 0:
+        binomial_pmf[0] = 1  # the limit for small p, only single sets remain
     expanded_binomial_pmf = np.zeros(2 ** n - 1)
     for i in range(1, 2 ** n):
         num_sets = bin(i).count("1")
-- 
2.43.0


From c68cef0de87e5bb53515a84ca1b0e65bfc9ccbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 58/70] fix: release the operands of a key that is skipped

---
 sd_mecha/merging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index a54ee01..376cac8 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -654,7 +654,11 @@ class ErrorHolder:
 
     def try_raise(self):
         if self.exc_info:
-            raise self.get_error()
+            try:
+                raise self.get_error()
+            finally:
+                # the traceback refers to this holder, the operands would outlive the key otherwise
+                self.exc_info = None
 
     def get_error(self):
         if self.exc_info:
-- 
2.43.0


From 09ffaeba28b252210ac327cb3ea5fff2ac2ae2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 59/70] fix: notice a short read while moving the data section
 of an output

---
 sd_mecha/streaming.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index dff9ed1..cdb008d 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -333,6 +333,8 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
                     chunk_size = chunk_end - chunk_start
                     self.file.seek(chunk_start)
                     data = self.file.read(chunk_size)
+                    if len(data) < chunk_size:
+                        raise RuntimeError(f"unexpected end of file in {self.file_path} while moving the data section")
 
                     # calculate the new position and write the chunk
                     self.file.seek(chunk_start + data_offset)
-- 
2.43.0


From 23c69e7d56714f1c5433731feb6433c389f28071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 60/70] fix: crossover of scalar tensors uses the filter, and
 never extrapolates

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index a04c7cb..3858307 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -312,8 +312,11 @@ def crossover(
     if tilt == 1:
         return weighted_sum_impl(a, b, alpha=alpha)
 
-    if len(a.shape) == 0 or torch.allclose(a.half(), b.half()):
-        return weighted_sum_impl(a, b, alpha=tilt)
+    if len(a.shape) == 0:
+        return crossover.__wrapped__(a.reshape(1), b.reshape(1), alpha, tilt).reshape(())
+
+    if torch.allclose(a.half(), b.half()):
+        return weighted_sum_impl(a, b, alpha=alpha)
 
     shape = a.shape
 
-- 
2.43.0


From 16200d59aec87d1ae4aea64bb07dc6a86dec8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 61/70] fix: geometric_sum with zeros returns its operands at
 the end points

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 3858307..4550ccd 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -105,10 +105,15 @@ def geometric_sum(
 ) -> Return(Tensor):
     a = torch.complex(a, torch.zeros_like(a))
     b = torch.complex(b, torch.zeros_like(b))
-    res = a ** (1 - alpha) * b ** alpha
+    res = complex_power(a, 1 - alpha) * complex_power(b, alpha)
     return res.real
 
 
+def complex_power(base: Tensor, exponent: Tensor) -> Tensor:
+    # the zeroth power is 1 for all bases, torch gives nan for a complex 0
+    return torch.where(torch.as_tensor(exponent) == 0, 1, base ** exponent)
+
+
 @merge_method
 def add_cosine_a(
     a: Parameter(Tensor, "weight"),
-- 
2.43.0


From 68383324fc01e2292f0ac01d204c9729ce1efcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 62/70] fix: top_k_tensor_sum selects one element too many with
 an offset

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 4550ccd..a1bc648 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -182,7 +182,7 @@ def top_k_tensor_sum(
     start_top_k = kth_abs_value(a_dist, start_i)
     end_top_k = kth_abs_value(a_dist, end_i)
 
-    indices_mask = (start_top_k <= torch.abs(a_dist)) & (torch.abs(a_dist) <= end_top_k)
+    indices_mask = (start_top_k < torch.abs(a_dist)) & (torch.abs(a_dist) <= end_top_k)
     if region_is_inverted:
         indices_mask = ~indices_mask
     indices_mask = torch.gather(indices_mask.float(), 0, redist_indices)
-- 
2.43.0


From 6b92b8e5f2b2fe4fb4725f5b53d5cd9b75fbf7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 63/70] fix: magnitude thresholds of float64 tensors are not
 rounded to float32

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index a1bc648..37ea44f 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -196,7 +196,12 @@ def kth_abs_value(a: Tensor, k: int) -> Tensor:
     if k <= 0:
         return torch.tensor(-1, device=a.device)
     else:
-        return torch.kthvalue(torch.abs(a.float()), k)[0]
+        return kth_value(torch.abs(a), k)
+
+
+def kth_value(a: Tensor, k: int) -> Tensor:
+    # half types are not supported everywhere, but float64 values need to be compared exactly
+    return torch.kthvalue(a.to(torch.promote_types(a.dtype, torch.float32)), k)[0]
 
 
 def ratio_to_region(width: float, offset: float, n: int) -> Tuple[int, int, bool]:
@@ -587,7 +592,7 @@ def ties_sum_deltas(
 
 def filter_top_k(a: Tensor, k: float):
     k = max(int((1 - k) * a.numel()), 1)
-    k_value, _ = a.flatten().abs().float().kthvalue(k)
+    k_value = kth_value(a.flatten().abs(), k)
     top_k_filter = (a.abs() >= k_value).float()
     return a * top_k_filter
 
-- 
2.43.0


From 0d2b82a1d6e739f2c50acae7a5c77e7372ce2023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 64/70] fix: dropout with emphasis accepts every overlap

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 37ea44f..458af58 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -662,9 +662,11 @@ def overlapping_sets_pmf(n, p, overlap, overlap_emphasis):
         expanded_binomial_pmf[i-1] = binomial_pmf[num_sets-1] / binomial_coefficient_np(n, num_sets)
     expanded_binomial_pmf /= expanded_binomial_pmf.sum()
 
+    # overlap has a period of 2, as above
+    folded_overlap = abs((overlap + 1) % 2 - 1)
     pmf = weighted_sum_impl(
         pmf,
-        weighted_sum_impl(pmf, expanded_binomial_pmf, alpha=1-abs(2*overlap-1)),
+        weighted_sum_impl(pmf, expanded_binomial_pmf, alpha=1-abs(2*folded_overlap-1)),
         alpha=overlap_emphasis,
     )
     return np.concatenate([[p], pmf * (1 - p)])
-- 
2.43.0


From 4209634a0931b002afcd6f43b45f002f31630a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 65/70] fix: add_cosine_b of a tensor of zeros is not NaN

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 458af58..4565765 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -134,7 +134,8 @@ def add_cosine_b(
 ) -> Return(Tensor, "weight"):
     similarity = torch.nn.functional.cosine_similarity(a, b, dim=0)
     dot_product = torch.sum(a * b)
-    magnitude_similarity = dot_product / (torch.norm(a) * torch.norm(b))
+    # a tensor of zeros is similar to nothing, as in cosine_similarity
+    magnitude_similarity = torch.nan_to_num(dot_product / (torch.norm(a) * torch.norm(b)), nan=0.0)
     combined_similarity = (similarity + magnitude_similarity) / 2.0
     return add_cosine_generic(a, b, alpha, combined_similarity)
 
-- 
2.43.0


From f36544781fe81395d52610ded6c9afa481ee3397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 66/70] fix: fractional rotations with repeated angles or half
 turns

---
 .../extensions/builtin/merge_methods/svd.py   | 49 +++++++++++--------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/svd.py b/sd_mecha/extensions/builtin/merge_methods/svd.py
index 86681b6..89db52b 100644
--- a/sd_mecha/extensions/builtin/merge_methods/svd.py
+++ b/sd_mecha/extensions/builtin/merge_methods/svd.py
@@ -1,3 +1,4 @@
+import math
 import torch
 from torch import Tensor
 from typing import Optional, Tuple, Dict
@@ -21,29 +22,35 @@ def orthogonal_procrustes(a, b, cancel_reflection: bool = False):
 
 
 def fractional_matrix_power(matrix: Tensor, power: float, cache: Optional[Dict[str, Tensor]] = None):
-    if cache is not None and "eigenvalues" in cache:
-        complex_dtype = torch_complex_dtype_map[matrix.dtype]
-        eigenvalues = cache["eigenvalues"].to(matrix.device, complex_dtype)
-        eigenvectors = cache["eigenvectors"].to(matrix.device, complex_dtype)
-        eigenvectors_inv = cache["eigenvectors_inv"].to(matrix.device, complex_dtype)
+    """
+    Power of a rotation matrix.
+
+    The eigenvectors of the symmetric part span the planes of the rotation. Contrary to those of the matrix itself,
+    they are orthogonal even if some planes are rotated by the same angle.
+    """
+    precision = torch.finfo(matrix.dtype).eps ** 0.5
+    if cache is not None and "eigenvectors" in cache:
+        eigenvectors = cache["eigenvectors"].to(matrix.device, matrix.dtype)
+        precision = max(precision, 4 * torch.finfo(cache["eigenvectors"].dtype).eps)
     else:
-        eigenvalues, eigenvectors = torch.linalg.eig(matrix)
-        eigenvectors_inv = torch.linalg.inv(eigenvectors)
+        eigenvectors = torch.linalg.eigh((matrix + matrix.T) / 2).eigenvectors
         if cache is not None:
-            cache["eigenvalues"] = eigenvalues.to("cpu", torch.complex32)
-            cache["eigenvectors"] = eigenvectors.to("cpu", torch.complex32)
-            cache["eigenvectors_inv"] = eigenvectors_inv.to("cpu", torch.complex32)
-
-    result = eigenvectors @ torch.diag(eigenvalues ** power) @ eigenvectors_inv
-    return result.real.to(dtype=matrix.dtype)
-
-
-torch_complex_dtype_map = {
-    torch.bfloat16: torch.complex32,
-    torch.float16: torch.complex32,
-    torch.float32: torch.complex64,
-    torch.float64: torch.complex128,
-}
+            cache["eigenvectors"] = eigenvectors.to("cpu", torch.float16)
+
+    perpendicular = (matrix - matrix.T) @ eigenvectors / 2
+    cos = (eigenvectors * (matrix @ eigenvectors)).sum(dim=0)
+    sin = perpendicular.norm(dim=0)
+    angles = torch.atan2(sin, cos)
+    is_straight = sin < precision
+    is_half_turn = is_straight & (cos < 0)
+
+    perpendicular = perpendicular * torch.where(is_straight, 0, torch.sin(power * angles) / sin)
+    result = (eigenvectors * torch.cos(power * angles) + perpendicular) @ eigenvectors.T
+
+    # half a turn does not tell the direction of the rotation, nor how the eigenvectors form planes
+    half_turns = eigenvectors[:, is_half_turn]
+    x, y = half_turns[:, 0:-1:2], half_turns[:, 1::2]
+    return result + math.sin(power * math.pi) * (y @ x.T - x @ y.T)
 
 
 # need to redefine torch.svd_lowrank to specify the svd driver and for full_matrices support
-- 
2.43.0


From 0781c3dbd9bcddf840a1e7cb1b6528b04131283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:41 +0000
Subject: [PATCH 67/70] fix: count the models inside dictionaries of recipes
 when dividing the buffer memory

---
 sd_mecha/recipe_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index fc48465..9a210bd 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -240,7 +240,9 @@ class ModelsCountVisitor(RecipeVisitor):
         self.__seen_nodes = []
 
     def visit_literal(self, node: LiteralRecipeNode) -> int:
-        return 0
+        if not isinstance(node.value, dict):
+            return 0
+        return sum(v.accept(self) for v in node.value.values() if isinstance(v, RecipeNode))
 
     def visit_model(self, node: ModelRecipeNode) -> int:
         seen = node in self.__seen_nodes
-- 
2.43.0


From f56f436bcecdf75ab80c225a4f5f13545770a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:41 +0000
Subject: [PATCH 68/70] fix: reject conversions without input or output config,
 before registering them

---
 sd_mecha/conversion.py               | 2 +-
 sd_mecha/extensions/merge_methods.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index e69e23c..cd265f8 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -38,7 +38,7 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
     for converter in all_converters:
         input_configs = converter.get_input_configs()
         return_config = converter.get_return_config(input_configs.args, input_configs.kwargs)
-        src_config = input_configs.args[0].identifier
+        src_config = input_configs.args_varargs()[0].identifier
         tgt_config = return_config.identifier
         converter_paths.setdefault(src_config, [])
         converter_paths.setdefault(tgt_config, [])
diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 3dcb6cc..154ae7d 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -510,9 +510,9 @@ def __recipe_impl(
     fn_object = MergeMethod(fn, identifier)
 
     if register:
-        _merge_methods_registry[identifier] = fn_object
         if is_conversion:
             _conversion_registry[identifier] = validate_config_conversion(fn_object)
+        _merge_methods_registry[identifier] = fn_object
     elif is_conversion:
         raise ValueError("A conversion recipe must be registered")
 
@@ -524,8 +524,10 @@ def validate_config_conversion(merge_method: MergeMethod):
     args_varargs = params.args if params.args else params.args_varargs()
     assert len(args_varargs) == 1, f"the merge method should be able to take exactly 1 positional argument"
     configs = merge_method.get_input_configs()
-    input_config = configs.args if configs.args else configs.args_varargs()[0]
+    input_config = configs.args_varargs()[0]
     assert input_config is not None, f"the input ModelConfig['identifier...'] is missing. It should be appended to the type annotation of `{args_varargs[0]}`"
+    return_config = merge_method.get_return_config(configs.args, configs.kwargs)
+    assert return_config is not None, f"the output ModelConfig is missing. It should be appended to the type annotation of the return value"
     return merge_method
 
 
-- 
2.43.0


From b2663226577f45b1aadcef872a08ac7773ab1239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:41 +0000
Subject: [PATCH 69/70] fix: reject a merge space symbol as output that no
 parameter uses

---
 sd_mecha/extensions/merge_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 154ae7d..114a521 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -206,7 +206,7 @@ class MergeMethod:
 
         return_data = self.__get_return_data(self.__f_hints.get("return"))  # validates return type annotation
         if isinstance(return_data.merge_space, MergeSpaceSymbol):
-            if not any(k.merge_space for k in params.as_dict().values()):
+            if not any(k.merge_space is return_data.merge_space for k in params.as_dict().values()):
                 raise RuntimeError("when using a merge space symbol as output, it must also be used by at least one input parameter")
 
     def __repr__(self):
-- 
2.43.0


From 9fe32ca1e5a27d58a91c1901d15ec8034d366a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:21 +0000
Subject: [PATCH 70/70] fix: forward extra keys only from model files in the
 merge space of the output

---
 sd_mecha/merging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 376cac8..35faf0d 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -259,7 +259,11 @@ class ForwardableNodesVisitor(RecipeVisitor):
             self.forwardable_nodes.append((node, metadata))
 
     def visit_model(self, node: ModelRecipeNode):
-        if node.model_config == self.target_config and not any(node in n[0] for n in self.forwardable_nodes):
+        if (
+            node.model_config == self.target_config and
+            node.merge_space == self.target_merge_space and
+            not any(node in n[0] for n in self.forwardable_nodes)
+        ):
             self.forwardable_nodes.append((node, OrderedDict(node.state_dict.metadata())))
 
     def visit_merge(self, node: MergeRecipeNode):
-- 
2.43.0

