From f7038f876fbeef111af05099099c3fb51c45312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 01/84] fix: models loaded from files with a structural config
 could not be merged

The structural config was built out of TensorMetadata, which has neither
'aliases' nor 'optional', so every merge of such a file raised AttributeError.
---
 sd_mecha/merging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index e48c15c..a6312c3 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -388,7 +388,10 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
         node.state_dict, node_path = self.__load_dict(node)
-        metadata = OrderedDict(node.state_dict.metadata())
+        metadata = OrderedDict(
+            (k, KeyMetadata(v.shape, v.dtype, optional=True))
+            for k, v in node.state_dict.metadata()
+        )
         node.model_config = self.__determine_model_config(metadata, node.model_config)
         check_model_config(node.state_dict, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, str(node.path))
 
-- 
2.43.0


From 16b53217345fd4ed0ddea1d02c5e8272b6aed594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 02/84] fix: views were written to safetensors outputs as their
 raw storage

tensor_to_bytes dumped the bytes of the whole storage starting at data_ptr():
transposed tensors were saved in the wrong order, and slices were saved with
the wrong length, reading past the end of the storage.
---
 sd_mecha/streaming.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 100c2f7..924157f 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -335,11 +335,13 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 # src: https://github.com/huggingface/safetensors/blob/aa4ad823cf71d913f283b70332d37ab45803949d/bindings/python/py_src/safetensors/torch.py#L405
 # this function is Apache 2.0: https://github.com/huggingface/safetensors/blob/main/LICENSE
 def tensor_to_bytes(tensor: torch.Tensor) -> bytes:
-    # assume tensor is not spare nor contiguous and on the cpu
-    total_bytes = len(tensor.untyped_storage())
+    # assume tensor is not sparse and is on the cpu
+    # views (slices, transposes, expanded tensors, ...) do not span their whole storage in logical order
+    tensor = tensor.contiguous()
+    total_bytes = tensor.numel() * tensor.element_size()
 
     ptr = tensor.data_ptr()
-    if ptr == 0:
+    if ptr == 0 or total_bytes == 0:
         return b""
     newptr = ctypes.cast(ptr, ctypes.POINTER(ctypes.c_ubyte))
     data = numpy.ctypeslib.as_array(newptr, (total_bytes,))  # no internal copy
-- 
2.43.0


From c07f5bbeb702590a1074f8752cfb55b2b03b0936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 03/84] fix: truncated safetensors inputs were silently read as
 stale or zero weights

The number of bytes returned by readinto was ignored, so a truncated file (or a
short raw read) yielded tensors filled with whatever was in the buffer.
---
 sd_mecha/streaming.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 924157f..f39e8bf 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -141,12 +141,22 @@ class InSafetensorsDict(SafetensorsMapping):
         if start_pos < self.buffer_start_offset or start_pos + length > self.buffer_start_offset + len(self.buffer):
             self.file.seek(start_pos)
             necessary_buffer_size = max(self.default_buffer_size, length)
-            if len(self.buffer) < necessary_buffer_size:
-                self.buffer = bytearray(necessary_buffer_size)
-            else:
-                self.buffer = self.buffer[:necessary_buffer_size]
-
-            self.file.readinto(self.buffer)
+            # a new buffer is needed every time: loaded tensors are views of the previous one
+            buffer = bytearray(necessary_buffer_size)
+            total_read = 0
+            with memoryview(buffer) as view:
+                # a raw read can return less than what was asked for
+                while total_read < necessary_buffer_size:
+                    chunk_read = self.file.readinto(view[total_read:])
+                    if not chunk_read:
+                        break
+                    total_read += chunk_read
+
+            if total_read < length:
+                raise RuntimeError(f"{self.file_path} is truncated: expected {length} bytes at offset {start_pos}, got {total_read}")
+
+            del buffer[total_read:]
+            self.buffer = buffer
             self.buffer_start_offset = start_pos
 
     def _load_tensor(self, tensor_name):
-- 
2.43.0


From fa828a667f2116707beae10703d281685eecaee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 04/84] fix: the structural config of a merge leaked into later
 merges of the same nodes

The structural config (the keys in common between the inputs of one recipe) was
left on the nodes after merging, so that merging one of these nodes again, alone
or with other models, silently dropped keys.
---
 sd_mecha/merging.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index a6312c3..08b219f 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -350,11 +350,15 @@ def open_input_dicts(
     check_mandatory_keys: bool = False,
     empty_cuda_cache: bool = False,
 ):
+    load_visitor = LoadInputDictsVisitor(list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys)
     try:
-        recipe.accept(LoadInputDictsVisitor(list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys))
+        recipe.accept(load_visitor)
         yield recipe
     finally:
         recipe.accept(CloseInputDictsVisitor())
+        # the structural config is only meaningful together with the other inputs of this recipe
+        for node in load_visitor.structural_nodes:
+            node.model_config = None
         if empty_cuda_cache:
             gc.collect()
             torch.cuda.empty_cache()
@@ -368,6 +372,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     check_mandatory_keys: bool
     dicts_cache: MutableMapping[str, Mapping[str, torch.Tensor]] = dataclasses.field(default_factory=dict)
     structural_metadata: MutableMapping[str, KeyMetadata] = dataclasses.field(default_factory=OrderedDict)
+    structural_nodes: List[RecipeNode] = dataclasses.field(default_factory=list)
     param_config: Optional[ModelConfig] = None
 
     def visit_literal(self, node: LiteralRecipeNode):
@@ -383,7 +388,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
             elif k not in metadata:
                 metadata[k] = KeyMetadata(None, None, optional=True)
 
-        node.model_config = self.__determine_model_config(metadata, node.model_config)
+        node.model_config = self.__determine_model_config(node, metadata)
         check_model_config(node.value, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, "<in-memory state dict>")
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
@@ -392,7 +397,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
             (k, KeyMetadata(v.shape, v.dtype, optional=True))
             for k, v in node.state_dict.metadata()
         )
-        node.model_config = self.__determine_model_config(metadata, node.model_config)
+        node.model_config = self.__determine_model_config(node, metadata)
         check_model_config(node.state_dict, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, str(node.path))
 
     def visit_merge(self, node: recipe_nodes.MergeRecipeNode):
@@ -430,8 +435,8 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
         return self.dicts_cache[cache_key], path
 
-    def __determine_model_config(self, metadata: MutableMapping[str, KeyMetadata], config_hint: Optional[ModelConfig]) -> ModelConfig:
-        config = config_hint
+    def __determine_model_config(self, node: RecipeNode, metadata: MutableMapping[str, KeyMetadata]) -> ModelConfig:
+        config = node.model_config
         if config is None or config == model_configs.INFER:
             inferred_model_configs = infer_model_configs(metadata)
             if any(self.param_config in cfgs for cfgs in inferred_model_configs):
@@ -454,6 +459,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
                     ):
                         self.structural_metadata[k] = metadata[k]
             config = StructuralModelConfig(self.structural_metadata)
+            self.structural_nodes.append(node)
 
         return config
 
-- 
2.43.0


From 51153744c02e0b01dca272f774bfb0b92a987fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 05/84] fix: recipes serialized while merging structural models
 could not be deserialized

The recipe embedded in the output named the transient 'structural' config, which
deserialize() rejects. It is now left to be determined again from the models.
---
 sd_mecha/serialization.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 4db8a7f..7b7fe78 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -2,6 +2,7 @@ import logging
 import pathlib
 from typing import List, Optional, Hashable
 from .extensions import merge_methods
+from .extensions.model_configs import StructuralModelConfig
 from .recipe_nodes import RecipeNode, ModelRecipeNode, RecipeVisitor, LiteralRecipeNode, MergeRecipeNode
 
 
@@ -176,17 +177,17 @@ class SerializerVisitor(RecipeVisitor):
 
     def visit_literal(self, node: LiteralRecipeNode):
         value = self.__serialize_value(node.value)
+        config = self.__serialize_config(node.model_config)
         if node.model_config is None:
             return value
         else:
-            config = self.__serialize_value(node.model_config.identifier)
             merge_space = self.__serialize_value(node.merge_space.identifier)
             line = f"literal {value} model_config={config} merge_space={merge_space}"
             return self.__add_instruction(line)
 
     def visit_model(self, node: ModelRecipeNode) -> str:
         path = self.__serialize_value(str(node.path))
-        config = self.__serialize_value(getattr(node.model_config, "identifier", None))
+        config = self.__serialize_config(node.model_config)
         merge_space = self.__serialize_value(node.merge_space.identifier)
         line = f"model {path} model_config={config} merge_space={merge_space}"
         return self.__add_instruction(line)
@@ -203,6 +204,12 @@ class SerializerVisitor(RecipeVisitor):
         line = " ".join(parts)
         return self.__add_instruction(line)
 
+    def __serialize_config(self, config) -> str:
+        # structural configs are not unique objects, they have to be determined again from the state dicts
+        if isinstance(config, StructuralModelConfig):
+            config = None
+        return self.__serialize_value(getattr(config, "identifier", None))
+
     def __serialize_value(self, value) -> str:
         if isinstance(value, str):
             value = value.replace("\\", "\\\\").replace('"', "\\\"")
-- 
2.43.0


From 35a399561c06ff56989b3c16d7fc8335c530c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 06/84] fix: bool and non finite float literals were serialized
 into unparseable recipes

Booleans were written as Python's True/False, which the parser does not know, and
inf/nan were parsed as integers.
---
 sd_mecha/serialization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 7b7fe78..d3b49e5 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -87,7 +87,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
                 return results[ref_index]
             elif arg.startswith('"') and arg.endswith('"'):
                 return arg[1:-1]
-            elif '.' in arg or 'e' in arg.lower():
+            elif '.' in arg or 'e' in arg.lower() or arg in NON_FINITE_FLOATS:
                 return float(arg)
             else:
                 return int(arg)
@@ -217,7 +217,7 @@ class SerializerVisitor(RecipeVisitor):
         if isinstance(value, dict):
             dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
-        if isinstance(value, (int, float)):
+        if isinstance(value, (int, float)) and not isinstance(value, bool):
             return str(value)
         # int or float needs to be handled before this (1.0 == True)
         if isinstance(value, Hashable) and value in REVERSE_CONSTANTS:
@@ -239,6 +239,7 @@ CONSTANTS = {
     "true": True,
     "false": False,
 }
+NON_FINITE_FLOATS = ("inf", "-inf", "nan")
 REVERSE_CONSTANTS = {
     v: k for k, v in CONSTANTS.items()
 }
-- 
2.43.0


From 9ab967ceb4e8d02781e310ec86407914ac5c057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 07/84] fix: serialized strings with '=' or line breaks were
 not parsed back

A quoted positional string containing '=' (e.g. a model path) was taken for a
keyword argument, and line breaks were written raw into the line based format.
---
 sd_mecha/serialization.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index d3b49e5..8793be7 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -69,7 +69,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         positional_args = []
         named_args = {}
         for arg_index, arg in enumerate(args):
-            if '=' in arg:
+            if '=' in arg and not arg.startswith('"'):
                 key, value = arg.split('=', maxsplit=1)
                 named_args[key] = get_arg_value(value, arg_index)
             else:
@@ -103,6 +103,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         for char in line:
             if is_escape:
                 is_escape = False
+                char = ESCAPED_CHARACTERS.get(char, char)
             elif char == "\\":
                 is_escape = True
                 continue
@@ -212,7 +213,7 @@ class SerializerVisitor(RecipeVisitor):
 
     def __serialize_value(self, value) -> str:
         if isinstance(value, str):
-            value = value.replace("\\", "\\\\").replace('"', "\\\"")
+            value = value.replace("\\", "\\\\").replace('"', "\\\"").replace("\n", "\\n").replace("\r", "\\r")
             return f'"{value}"'
         if isinstance(value, dict):
             dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
@@ -234,6 +235,10 @@ class SerializerVisitor(RecipeVisitor):
             return f"&{len(self.instructions) - 1}"
 
 
+ESCAPED_CHARACTERS = {
+    "n": "\n",
+    "r": "\r",
+}
 CONSTANTS = {
     "null": None,
     "true": True,
-- 
2.43.0


From a82dab102e565d16fcbb48115babb006c4d7fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 08/84] fix: deserialize() rejected lists of lines with line
 endings and blank lines

Passing file.readlines(), as the recipe_deserialize example does, failed on the
version header, and a trailing blank line was taken for an empty command.
---
 sd_mecha/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 8793be7..03d1262 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -37,7 +37,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
     if not recipe[0].startswith("version"):
         raise RuntimeError("bad format: expected version at line 1")
 
-    actual_version, recipe = recipe[0], recipe[1:]
+    actual_version, recipe = recipe[0].strip(), recipe[1:]
     expected_version = get_version_header(MECHA_FORMAT_VERSION)
     if actual_version != expected_version:
         raise RuntimeError(f"bad recipe version: got {actual_version}, expected {expected_version}")
@@ -46,7 +46,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
 
     def parse(line):
         line = line.strip()
-        if line.startswith("#"):
+        if not line or line.startswith("#"):
             return
 
         command, *args = tokenize(line)
-- 
2.43.0


From 3044fdfbd2f3ecc0ec12443cd2120ae2d574345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 09/84] fix: literal recipes lost their merge space or their
 value when serialized

A literal at the root of a recipe was not written at all (or came back as a
dict), and the merge space of a literal without a config was dropped.
---
 sd_mecha/serialization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 03d1262..be94937 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -154,7 +154,10 @@ def serialize(recipe: RecipeNode, *, output: Optional[pathlib.Path | str] = None
         A string representation of the recipe, suitable for writing to a .mecha file.
     """
     serializer = SerializerVisitor()
-    recipe.accept(serializer)
+    root = recipe.accept(serializer)
+    if root != f"&{len(serializer.instructions) - 1}" or serializer.instructions[-1].startswith("dict "):
+        # bare literals are inlined in the instructions that use them, but nothing uses the root
+        serializer.instructions.append(f"literal {root}")
     version_header = get_version_header(MECHA_FORMAT_VERSION)
     serialized = "\n".join([version_header] + serializer.instructions)
 
@@ -179,7 +182,7 @@ class SerializerVisitor(RecipeVisitor):
     def visit_literal(self, node: LiteralRecipeNode):
         value = self.__serialize_value(node.value)
         config = self.__serialize_config(node.model_config)
-        if node.model_config is None:
+        if node.model_config is None and node.merge_space.identifier == "param":
             return value
         else:
             merge_space = self.__serialize_value(node.merge_space.identifier)
-- 
2.43.0


From 3eae5e12bfde22f96af4ee7d6b744d4dfa06b9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 10/84] fix: every lycoris converter used the key prefix of the
 last registered config

The converters closed over the loop variable, so networks with 'lycoris_' keys
were looked up with the 'lora' prefix and converted to nothing.
---
 sd_mecha/extensions/builtin/lycoris.py | 34 ++++++++++++++------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/sd_mecha/extensions/builtin/lycoris.py b/sd_mecha/extensions/builtin/lycoris.py
index 935153f..80bb5c1 100644
--- a/sd_mecha/extensions/builtin/lycoris.py
+++ b/sd_mecha/extensions/builtin/lycoris.py
@@ -15,21 +15,25 @@ def _register_all_lycoris_configs():
                 LycorisModelConfig(base_config, "kohya", "lora", list(lycoris_algorithms)),
         ):
             model_configs.register_aux(lyco_config)
-            lora_config_id = lyco_config.identifier
-            base_config_id = lyco_config.base_config.identifier
-
-            @merge_method(identifier=f"convert_'{lora_config_id}'_to_base", is_conversion=True)
-            def diffusers_lora_to_base(
-                lora: Parameter(StateDict[torch.Tensor], "weight", lora_config_id),
-                **kwargs,
-            ) -> Return(torch.Tensor, "delta", base_config_id):
-                key = kwargs["key"]
-                lycoris_keys = lyco_config.to_lycoris_keys(key)
-                if not lycoris_keys:
-                    raise StateDictKeyError(key)
-
-                lycoris_key = next(iter(lycoris_keys))
-                return compose_lora_up_down(lora, lycoris_key.split(".")[0])
+            _register_lycoris_converter(lyco_config)
+
+
+def _register_lycoris_converter(lyco_config: "LycorisModelConfig"):
+    lora_config_id = lyco_config.identifier
+    base_config_id = lyco_config.base_config.identifier
+
+    @merge_method(identifier=f"convert_'{lora_config_id}'_to_base", is_conversion=True)
+    def diffusers_lora_to_base(
+        lora: Parameter(StateDict[torch.Tensor], "weight", lora_config_id),
+        **kwargs,
+    ) -> Return(torch.Tensor, "delta", base_config_id):
+        key = kwargs["key"]
+        lycoris_keys = lyco_config.to_lycoris_keys(key)
+        if not lycoris_keys:
+            raise StateDictKeyError(key)
+
+        lycoris_key = next(iter(lycoris_keys))
+        return compose_lora_up_down(lora, lycoris_key.split(".")[0])
 
 
 def compose_lora_up_down(state_dict: Mapping[str, torch.Tensor], key: str):
-- 
2.43.0


From dc06e3ba5e75542692bd1354ce6d78dd575c1ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 11/84] fix: convert() raised KeyError for configs without any
 converter

The documented ValueError is raised instead, and converting to the same config is
a no-op as it is for the configs that have converters.
---
 sd_mecha/conversion.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index 0785215..db8de60 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -93,6 +93,11 @@ def dijkstra(graph, start, goal):
              or None if no path exists.
     """
 
+    if start == goal:
+        return []
+    if start not in graph or goal not in graph:
+        return None
+
     distances = {node: float('inf') for node in graph}
     distances[start] = 0
     predecessors = {node: None for node in graph}  # will store the node we came from
-- 
2.43.0


From c7a41f4559f6eccd4fae078d87b9f286176372c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 12/84] fix: registering a ModelConfigImpl broke the inference
 of every model config

infer_model_configs() uses configs as dictionary keys, but ModelConfigImpl was not hashable.
---
 sd_mecha/extensions/model_configs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index c6b1002..7ceadc8 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -132,6 +132,10 @@ class ModelConfigImpl(ModelConfig):
                 components[k] = v
         self._components = components
 
+    # dataclasses that define __eq__ are not hashable by default
+    def __hash__(self):
+        return hash(self._identifier)
+
     @property
     def identifier(self) -> str:
         return self._identifier
-- 
2.43.0


From 306e405c6fc2e75329b6c1fca8f41ab151c2dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 13/84] fix: to_yaml() failed on every model config and dropped
 key aliases and optionality

The bound method of a component was serialized instead of its keys, lazy configs
were not resolved, and a callable 'exclude' was always considered true.
---
 sd_mecha/extensions/model_configs.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index 7ceadc8..7b794fa 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -22,7 +22,7 @@ StateDictKey = str
 class KeyMetadata:
     shape: Optional[List[int]] | torch.Size
     dtype: Optional[str] | torch.dtype
-    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: bool(p)})
+    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: not p})
     optional: bool = dataclasses.field(default=False, metadata={"exclude": lambda p: not p})
 
     def __post_init__(self):
@@ -317,14 +317,18 @@ _model_configs_registry_aux: Dict[str, ModelConfig] = {}
 
 def serialize(obj):
     if isinstance(obj, ModelComponent):
-        return serialize(obj.keys)
+        return serialize(obj.keys())
+    elif isinstance(obj, LazyModelConfigBase):
+        obj._ensure_config()
+        return serialize(obj.underlying_config)
     elif dataclasses.is_dataclass(obj):
         return {
             field.metadata.get("serial_name", field.name): serialize(getattr(obj, field.name))
             for field in dataclasses.fields(obj)
             if not (
-                callable(field.metadata.get("exclude")) and field.metadata["exclude"](getattr(obj, field.name))
-                or field.metadata.get("exclude", False)
+                field.metadata["exclude"](getattr(obj, field.name))
+                if callable(field.metadata.get("exclude"))
+                else field.metadata.get("exclude", False)
             )
         }
     elif isinstance(obj, (str, int, float, type(None))):
-- 
2.43.0


From 0f9019b55af7fadb0086387319489fbb059edd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 14/84] fix: the flux configs could not be converted into one
 another

The conversion module was never imported, and the identifiers inside of the flux
yaml files did not match the registered identifiers used by the converters.
---
 sd_mecha/extensions/builtin/model_configs/__init__.py           | 1 +
 sd_mecha/extensions/builtin/model_configs/flux-flux.yaml        | 2 +-
 .../builtin/model_configs/flux-flux_diffuser_only.yaml          | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/__init__.py b/sd_mecha/extensions/builtin/model_configs/__init__.py
index 78104bc..a6d6fa9 100644
--- a/sd_mecha/extensions/builtin/model_configs/__init__.py
+++ b/sd_mecha/extensions/builtin/model_configs/__init__.py
@@ -15,5 +15,6 @@ _register_configs()
 from .convert_sdxl_kohya_to_original import convert_sdxl_kohya_to_original
 from .convert_sdxl_diffusers_unet_to_original import convert_sdxl_diffusers_unet_to_original
 from .convert_sd1_kohya_to_original import convert_sd1_kohya_to_original
+from . import convert_flux
 from . import convert_sdxl_blocks
 from . import convert_sd1_blocks
diff --git a/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml b/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
index 9b8dc3c..c8fac97 100644
--- a/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
+++ b/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
@@ -1,4 +1,4 @@
-identifier: flux_dev-flux
+identifier: flux-flux
 components:
   diffuser:
     model.diffusion_model.double_blocks.0.img_attn.norm.key_norm.scale: {shape: [128], dtype: bfloat16}
diff --git a/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml b/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
index 4ccadd8..8ef06f5 100644
--- a/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
+++ b/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
@@ -1,4 +1,4 @@
-identifier: flux_dev_unet_only-flux
+identifier: flux-flux_diffuser_only
 components:
   diffuser:
     double_blocks.0.img_attn.norm.key_norm.scale: {shape: [128], dtype: bfloat16}
-- 
2.43.0


From e6390a9b57b3e07e998fd84ca77c60f1c5dc88cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 15/84] fix: sdxl-kohya models lost their VAE when converted to
 sdxl-sgm

The VAE keys of sdxl-kohya are those of sdxl-sgm, but they were looked up under
their huggingface names, which do not exist in the config.
---
 .../builtin/model_configs/convert_sdxl_kohya_to_original.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
index 0f6484f..b07719a 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
@@ -2,7 +2,7 @@ import torch
 from torch import Tensor
 from sd_mecha import merge_method, StateDict, Return, Parameter
 from sd_mecha.extensions import model_configs
-from .convert_huggingface_sd_vae_to_original import convert_vae
+
 
 
 sdxl_kohya_config = model_configs.resolve('sdxl-kohya')
@@ -53,7 +53,5 @@ def convert_sdxl_kohya_to_original(
             res = res.T
 
         return res
-    elif sgm_key.startswith("first_stage_model."):
-        return convert_vae(kohya_sd, sgm_key)
-    else:
+    else:  # includes "first_stage_model.": the vae keys are the same in both configs
         return kohya_sd[sgm_key]
-- 
2.43.0


From 8beb88aa15f4767c35c229a0efc651bfea3ea500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 16/84] fix: sdxl-kohya in_proj_bias tensors were converted to
 the wrong shape

vstack stacks the 1-d q, k and v biases as rows, giving [3, 1280] instead of [3840].
---
 .../builtin/model_configs/convert_sdxl_kohya_to_original.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
index b07719a..754c202 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
@@ -42,7 +42,7 @@ def convert_sdxl_kohya_to_original(
         if kohya_key.endswith((".in_proj_weight", ".in_proj_bias")):
             is_bias = kohya_key.endswith("bias")
             partial_key = kohya_key.replace(".in_proj_weight", "").replace(".in_proj_bias", "")
-            res = torch.vstack([
+            res = torch.cat([
                 kohya_sd[f"{partial_key}.{k}_proj.{'bias' if is_bias else 'weight'}"]
                 for k in ("q", "k", "v")
             ])
-- 
2.43.0


From a77feeb0d683ba1d65110b8629f60ea55ab77f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 17/84] fix: sd1-kohya models lost the VAE mid block norms when
 converted to sd1-ldm

'norm' is only renamed to 'group_norm' in keys that contain 'attentions', which
was tested before 'mid.attn_1' is itself renamed to 'mid_block.attentions.0'.
---
 .../model_configs/convert_huggingface_sd_vae_to_original.py      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
index 9397677..31a5ead 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
@@ -41,6 +41,7 @@ vae_conversion_map = {
     # (original, huggingface)
     "nin_shortcut": "conv_shortcut",
     "norm_out": "conv_norm_out",
+    "mid.attn_1.norm.": "mid_block.attentions.0.group_norm.",
     "mid.attn_1.": "mid_block.attentions.0.",
 }
 for i in range(4):
-- 
2.43.0


From d201f85b4089df3acf54acaf7b53b4cae0227539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 18/84] fix: sdxl diffusers unets lost up_blocks.0.attentions.2
 when converted to sdxl-sgm

output_blocks.2.1 was mapped to the upsampler (which is output_blocks.2.2 in sdxl,
where every up block but the last one has attention), overriding the attention.
---
 .../model_configs/convert_sdxl_diffusers_unet_to_original.py   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
index 8bb3e7e..83805d7 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
@@ -103,9 +103,8 @@ for i in range(3):
 
         # no upsample in up_blocks.3
         hf_upsample_prefix = f"up_blocks.{i}.upsamplers.0."
-        sd_upsample_prefix = f"output_blocks.{3*i + 2}.{1 if i == 0 else 2}."
+        sd_upsample_prefix = f"output_blocks.{3*i + 2}.2."
         unet_conversion_map_layer[sd_upsample_prefix] = hf_upsample_prefix
-unet_conversion_map_layer["output_blocks.2.2.conv."] = "output_blocks.2.1.conv."
 
 hf_mid_atn_prefix = "mid_block.attentions.0."
 sd_mid_atn_prefix = "middle_block.1."
-- 
2.43.0


From 4752a8341f5623ffbd1ac654855a05a271724387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 19/84] fix: passing an argument both by position and by name
 was silently accepted

weighted_sum(a, b, b=c) dropped or shifted the positional values instead of
raising TypeError as any python function does.
---
 sd_mecha/extensions/merge_methods.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 364b772..7352f08 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -254,6 +254,10 @@ class MergeMethod:
                 raise RuntimeError
             return v
 
+        for k in params.args[:len(args)]:
+            if k in kwargs:
+                raise TypeError(f"Got multiple values for argument '{k}'")
+
         max_args = len(params.args) if not params.has_varargs() else float("inf")
         min_args = len(params.args) - len(defaults.args)
         n_args = len(args) + len([kwargs[k] for k in params.args if k in kwargs])
-- 
2.43.0


From 2fefa6b8904d6062cec1aabb78ae1de2df864b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 20/84] fix: multiply_quotient failed on scalar alpha and
 modified alpha in place

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index aae7a68..7fcc133 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -288,7 +288,7 @@ def multiply_quotient(
     c = torch.complex(c, torch.zeros_like(c))
 
     threshold = torch.maximum(torch.abs(ac_log), torch.abs(bc_log))
-    alpha *= torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
+    alpha = alpha * torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
 
     res = a * (b / c)**alpha
     res = torch.where(torch.isnan(res), a, res)
-- 
2.43.0


From d8ad4140934f14dbfd469de90239de0a1263f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 21/84] fix: tensor_sum overwrote the weights of its input
 models

When no cast happens before it, its inputs are the tensors of the state dict given
by the user (or the read buffer of the model file).
---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 7fcc133..478df30 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -153,11 +153,12 @@ def tensor_sum(
 
     start_i, end_i, region_is_inverted = ratio_to_region(width, offset, a.size(0))
     if region_is_inverted:
-        b[start_i:end_i] = a[start_i:end_i]
-        return b
+        res = b.clone()
+        res[start_i:end_i] = a[start_i:end_i]
     else:
-        a[start_i:end_i] = b[start_i:end_i]
-        return a
+        res = a.clone()
+        res[start_i:end_i] = b[start_i:end_i]
+    return res
 
 
 @merge_method
-- 
2.43.0


From 4fc32cbddb4981c6c1f2476834108535bc009e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 22/84] fix: rotate could not be used on any model

It indexed its inputs by key but declared them as tensors, took fractional
alignments for integers and the other way around, and overwrote the input weights.
---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 478df30..5ace3ea 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -382,8 +382,8 @@ def create_filter(shape: Tuple[int, ...] | torch.Size, alpha: float, tilt: float
 
 @merge_method
 def rotate(
-    a_dict: Parameter(Tensor),
-    b_dict: Parameter(Tensor),
+    a_dict: Parameter(StateDict[Tensor]),
+    b_dict: Parameter(StateDict[Tensor]),
     alignment: Parameter(float) = 1.0,
     alpha: Parameter(Tensor) = 0.0,
     **kwargs,
@@ -410,8 +410,8 @@ def rotate(
     b_neurons = b.reshape(*shape_2d)
     a_centroid = a_neurons.mean(0)
     b_centroid = b_neurons.mean(0)
-    a_neurons -= a_centroid
-    b_neurons -= b_centroid
+    a_neurons = a_neurons - a_centroid
+    b_neurons = b_neurons - b_centroid
 
     cache = kwargs.get("cache")
     if cache is not None:
@@ -420,7 +420,7 @@ def rotate(
             cache[key] = {}
         cache = cache[key]
 
-    alignment_is_float = math.isclose(alignment, round(alignment))
+    alignment_is_float = not math.isclose(alignment, round(alignment))
 
     if cache is not None and "rotation" in cache:
         rotation = transform = cache["rotation"].to(a.device, a.dtype)
-- 
2.43.0


From 052f8f93a96a09542e03cd3e6585913ec930b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 23/84] fix: truncate_rank failed to keep the full rank of
 square and tall matrices

torch_svd_lowrank asserts n > q, so rank_ratio=1.0 raised AssertionError.
---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 5ace3ea..22eb826 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -799,6 +799,9 @@ def truncate_rank(
     a_2d = a.flatten(start_dim=1)
     max_rank = min(a_2d.shape)
     target_rank = min(max(round(max_rank * rank_ratio), 1), max_rank)
+    if target_rank == max_rank:
+        return a
+
     svd_driver = "gesvda" if a.is_cuda else None
     u, s, vt = torch_svd_lowrank(a_2d, q=target_rank, full_matrices=False, driver=svd_driver)
     return (u @ torch.diag(s) @ vt).reshape(original_shape)
-- 
2.43.0


From 36f9e96c629194c6b55ebd0bf10cf63ed57b69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 24/84] fix: dropout failed with its default overlap, and could
 not be built by its wrapper

A tuple of masks has no sum(), scalar keys gave numpy scalars instead of arrays,
and the wrapper passed a keyword that the merge method does not have.
---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 5 +++--
 sd_mecha/merge_method_wrappers.py                     | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 22eb826..5707794 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -599,13 +599,14 @@ def dropout(  # aka n-supermario
 
     if overlap % 2 == 1:
         masks = tuple(
-            torch.from_numpy(rng.binomial(n=1, p=1 - probability, size=delta0.shape)).to(device=delta0.device, dtype=torch.bool)
+            torch.from_numpy(np.asarray(rng.binomial(n=1, p=1 - probability, size=tuple(delta0.shape)))).to(device=delta0.device, dtype=torch.bool)
             for _ in range(len(deltas))
         )
+        masks = torch.stack(masks)
     else:
         ks = np.arange(2 ** len(deltas))
         pmf = overlapping_sets_pmf(len(deltas), probability, overlap, overlap_emphasis)
-        masks = torch.from_numpy(rng.choice(ks, size=delta0.shape, p=pmf)).to(delta0.device)
+        masks = torch.from_numpy(np.asarray(rng.choice(ks, size=tuple(delta0.shape), p=pmf))).to(delta0.device)
         masks = torch.stack([masks & 2 ** i != 0 for i in range(len(deltas))])
 
     final_delta = torch.zeros_like(delta0)
diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 1d2bf39..0e93ad6 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -248,7 +248,7 @@ def dropout(
         subtract(model, a)
         for model in models
     ]
-    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_skew=overlap_emphasis, seed=seed)
+    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_emphasis=overlap_emphasis, seed=seed)
     return merge_methods.add_difference(a, ba_delta, alpha=alpha)
 
 
-- 
2.43.0


From a2eec389f28d00300206d4024410124bffebce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 25/84] fix: apply_median and apply_stock of ties_sum_extended
 were inverted

By default, TIES used the geometric median, and the model stock ratio was only
applied when apply_stock was disabled.
---
 .../extensions/builtin/merge_methods/__init__.py     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 5707794..45ffe40 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -499,18 +499,18 @@ def ties_sum_extended(  # aka add_difference_ties
     filtered_delta, param_counts = ties_sum_deltas(*models, k=k, vote_sgn=vote_sgn)
 
     if apply_median:
+        # $$ \tau_m $$, but in geometric median instead of arithmetic mean. Considered to replace model stock.
+        filtered_delta = geometric_median.__wrapped__(*torch.unbind(filtered_delta), eps=eps, maxiter=maxiter, ftol=ftol)
+
+        return torch.nan_to_num(filtered_delta)
+    else:
         # Model Stock
-        t = 1.0 if apply_stock else get_model_stock_t(torch.unbind(filtered_delta), cos_eps=cos_eps)
+        t = get_model_stock_t(torch.unbind(filtered_delta), cos_eps=cos_eps) if apply_stock else 1.0
 
         filtered_delta = filtered_delta.sum(dim=0)
 
         # $$ \tau_m $$
         return torch.nan_to_num(filtered_delta * t / param_counts)
-    else:
-        # $$ \tau_m $$, but in geometric median instead of arithmetic mean. Considered to replace model stock.
-        filtered_delta = geometric_median.__wrapped__(*torch.unbind(filtered_delta), eps=eps, maxiter=maxiter, ftol=ftol)
-
-        return torch.nan_to_num(filtered_delta)
 
 
 # latex notes in reference to original implementation: https://arxiv.org/abs/2306.01708
-- 
2.43.0


From faf91cc57ed093c6d17745491e90de5f62de344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 26/84] fix: ties_with_dare could not be used, and no_rescale
 did the opposite of its name

The wrapper passed a 'rescale' keyword that the merge method does not have.
---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 8 ++++----
 sd_mecha/merge_method_wrappers.py                     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 45ffe40..2b18b24 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -701,13 +701,13 @@ def ties_sum_with_dropout(
         # Corner case
         return deltas * 0.0
     elif no_rescale:
-        # Rescale
-        # $$ \hat{\delta}^t = \tilde{\delta}^t / (1-p) $$
-        return deltas / (1.0 - probability) 
-    else:
         # No rescale
         # $$ \hat{\delta}^t = \tilde{\delta}^t $$
         return deltas
+    else:
+        # Rescale
+        # $$ \hat{\delta}^t = \tilde{\delta}^t / (1-p) $$
+        return deltas / (1.0 - probability)
 
 
 def binomial_coefficient_np(n, k):
diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 0e93ad6..1e86876 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -297,7 +297,7 @@ def ties_with_dare(
     res = ties_sum_with_dropout(
         *deltas,
         probability=probability,
-        rescale=rescale,
+        no_rescale=not rescale,
         k=k,
         vote_sgn=vote_sgn,
         seed=seed,
-- 
2.43.0


From b6dcad076cf5eb9c93ce2f3a47c8f3edf2315767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 27/84] fix: omit_extra_keys=False failed on recipes with more
 than one in-memory model

Looking for a literal node in another compared their tensors elementwise, which
has no truth value.
---
 sd_mecha/recipe_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index f742f84..897d184 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -113,6 +113,9 @@ class LiteralRecipeNode(RecipeNode):
 
     def __contains__(self, item):
         if isinstance(item, LiteralRecipeNode):
+            if isinstance(self.value, (dict, torch.Tensor)) or isinstance(item.value, (dict, torch.Tensor)):
+                # comparing tensors (or dicts thereof) is elementwise
+                return self.value is item.value
             return self.value == item.value
         else:
             return False
-- 
2.43.0


From 08d5242a473227234bef3965d74b9b12fbaaab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 28/84] fix: Defaults.merge ignored the tqdm given to Defaults

---
 sd_mecha/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index ec3bb52..26315b7 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -178,6 +178,8 @@ class Defaults:
             omit_ema = self.__omit_ema
         if check_mandatory_keys is ...:
             check_mandatory_keys = self.__check_mandatory_keys
+        if tqdm is ...:
+            tqdm = self.__tqdm
 
         return merge(
             recipe,
-- 
2.43.0


From d7810c41dd583f721e7b19f218aa9d31e1d4830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 29/84] fix: Defaults only accepted lists as iterables of model
 directories

---
 sd_mecha/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index 26315b7..15ab231 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -7,7 +7,7 @@ from .merging import merge
 from .conversion import convert
 from .recipe_nodes import ModelRecipeNode, LiteralRecipeNode, RecipeNode, RecipeNodeOrValue
 from .extensions.merge_methods import NonDictLiteralValue
-from typing import Optional, List, MutableMapping, Iterable, Mapping
+from typing import Optional, MutableMapping, Iterable, Mapping
 
 
 def model(
@@ -204,7 +204,7 @@ class Defaults:
     def _model_dirs_to_pathlib_list(models_dir):
         if models_dir is ...:
             models_dir = []
-        if not isinstance(models_dir, List):
+        if isinstance(models_dir, (str, pathlib.Path)) or models_dir is None:
             models_dir = [models_dir]
         models_dir = list(models_dir)
         for i in range(len(models_dir)):
-- 
2.43.0


From 62367cb2d3e241d93bd87b528d77ab3593f60b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 30/84] fix: pathlib.Path could not be used as a recipe or as a
 fallback model

value_to_node() only turned paths into models when a tensor was explicitly
expected, although RecipeNodeOrValue includes paths. Empty dictionaries raised
StopIteration at the same place.
---
 sd_mecha/extensions/merge_methods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 7352f08..ffde283 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -575,7 +575,9 @@ def value_to_node(node_or_value: RecipeNodeOrValue, expected_type: type = None)
 
     if expected_type is None:
         if isinstance(node_or_value, Mapping):
-            expected_type = next(iter(node_or_value.values()))
+            expected_type = next(iter(node_or_value.values()), None)
+        elif isinstance(node_or_value, pathlib.Path):
+            expected_type = torch.Tensor  # without any expectation, a path is the path of a model
         else:
             expected_type = type(node_or_value)
 
-- 
2.43.0


From 36a4b7d4b06aec0d0d3c2c721d5ff2ef8c194da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 31/84] fix: merging a recipe with an empty dictionary raised
 StopIteration

---
 sd_mecha/merging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 08b219f..bb747f7 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -686,10 +686,10 @@ class CastInputDicts(RecipeVisitor):
     def visit_literal(self, node: LiteralRecipeNode):
         if (
             isinstance(node.value, torch.Tensor | int | float) or
-            isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values())), torch.Tensor | int | float)
+            isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values()), None), torch.Tensor | int | float)
         ):
             return node.to(device=self.device, dtype=self.dtype)
-        if isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values())), RecipeNode):
+        if isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values()), None), RecipeNode):
             return LiteralRecipeNode(
                 {k: v.accept(self) for k, v in node.value.items()},
                 model_config=node.model_config,
-- 
2.43.0


From b4762a4d36ed5853c459f51ade8d8c48e488ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 32/84] fix: dictionaries of recipe nodes emptied structural
 merges

The keys of such a dictionary were not recorded, so it was taken for an empty
state dict and its (empty) keys were intersected with those of the other inputs.
---
 sd_mecha/merging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index bb747f7..a87192d 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -383,6 +383,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
         for k, v in node.value.items():
             if isinstance(v, RecipeNode):
                 v.accept(self)
+                metadata[k] = KeyMetadata(None, None, optional=True)
             elif isinstance(v, torch.Tensor):
                 metadata[k] = KeyMetadata(v.shape, v.dtype, optional=True)
             elif k not in metadata:
-- 
2.43.0


From 356e36993929dfa8f012d66e0c6d0bea0b1a7ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 33/84] fix: saving to one of the input models destroyed it

The output file is truncated when it is opened, while its keys are still being
read from it. Such an output is now rejected before touching the file.
---
 sd_mecha/merging.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index a87192d..ab282b8 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -176,6 +176,7 @@ def merge(
                 output,
                 recipe_metadata,
                 original_recipe,
+                recipe,
                 model_dirs,
                 buffer_size_per_file_per_thread,
             ) as output_dict,
@@ -264,6 +265,7 @@ def _get_output_dict(
     output: Optional[MutableMapping[str, torch.Tensor]] | pathlib.Path | str,
     merged_header: Mapping[str, TensorMetadata],
     recipe: RecipeNode,
+    open_recipe: RecipeNode,
     model_dirs: Iterable[pathlib.Path],
     buffer_size_per_thread: int,
 ):
@@ -274,6 +276,8 @@ def _get_output_dict(
             for model_dir in model_dirs:
                 output = model_dir / output
                 break
+        if output.exists() and open_recipe.accept(ReadsFromFileVisitor(output)):
+            raise ValueError(f"cannot save to {output}: the recipe reads from this file while merging")
         logging.info(f"Saving to {output}")
 
         try:
@@ -536,6 +540,25 @@ class CloseInputDictsVisitor(RecipeVisitor):
             model.accept(self)
 
 
+@dataclasses.dataclass
+class ReadsFromFileVisitor(RecipeVisitor):
+    path: pathlib.Path
+
+    def visit_literal(self, node: LiteralRecipeNode) -> bool:
+        return isinstance(node.value, Mapping) and any(
+            v.accept(self)
+            for v in node.value.values()
+            if isinstance(v, RecipeNode)
+        )
+
+    def visit_model(self, node: recipe_nodes.ModelRecipeNode) -> bool:
+        path = getattr(node.state_dict, "file_path", node.path)
+        return path.exists() and path.samefile(self.path)
+
+    def visit_merge(self, node: recipe_nodes.MergeRecipeNode) -> bool:
+        return any(v.accept(self) for v in (*node.args, *node.kwargs.values()))
+
+
 @dataclasses.dataclass
 class KeyMergeVisitor(RecipeVisitor):
     key: str
-- 
2.43.0


From 69a853951c04542f6b7116e9ea100712d4180e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 34/84] fix: partial writes silently corrupted the output file

The number of bytes returned by the raw file was ignored: when the disk (or file
size limit) is reached within a write, or past 2 GB, the rest of the data was
dropped without any error.
---
 sd_mecha/streaming.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index f39e8bf..d01fce1 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -273,7 +273,7 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             lock = contextlib.nullcontext()
 
         with lock:
-            self.file.write(state.buffer[:state.memory_used])
+            self._write(state.buffer[:state.memory_used])
             buffer_offset = self.flushed_size
             self.flushed_size += state.memory_used
             state.memory_used = 0
@@ -330,17 +330,24 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 
                     # calculate the new position and write the chunk
                     self.file.seek(chunk_start + data_offset)
-                    self.file.write(data)
+                    self._write(data)
 
                 # we made just enough space for the header
                 overhead = 0
 
             self.file.seek(0)
-            self.file.write(struct.pack('<Q', max(self.max_header_size, header_size)))
-            self.file.write(header_json)
-            self.file.write(b' ' * overhead)
+            self._write(struct.pack('<Q', max(self.max_header_size, header_size)))
+            self._write(header_json)
+            self._write(b' ' * overhead)
             self.file.close()
 
+    def _write(self, data: bytes | bytearray):
+        # a raw write can be partial, e.g. when the disk is almost full
+        with memoryview(data) as view:
+            written = 0
+            while written < len(view):
+                written += self.file.write(view[written:])
+
 
 # src: https://github.com/huggingface/safetensors/blob/aa4ad823cf71d913f283b70332d37ab45803949d/bindings/python/py_src/safetensors/torch.py#L405
 # this function is Apache 2.0: https://github.com/huggingface/safetensors/blob/main/LICENSE
-- 
2.43.0


From 1a64822815b6e6e19c01898f736bb6d2306c099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 35/84] fix: outputs could not grow their header when the
 buffer size was zero

Moving the data section by steps of zero bytes raised ValueError.
---
 sd_mecha/streaming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index d01fce1..88e3b9c 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -322,8 +322,9 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
                 self.file = open(self.file_path, "rb+")
 
                 # move data in chunks from the end to avoid overwriting
-                for chunk_end in tqdm(range(old_file_end, old_data_section, -self.minimum_buffer_size), desc="Reallocating data section"):
-                    chunk_start = max(chunk_end - self.minimum_buffer_size, old_data_section)
+                max_chunk_size = max(self.minimum_buffer_size, 1)
+                for chunk_end in tqdm(range(old_file_end, old_data_section, -max_chunk_size), desc="Reallocating data section"):
+                    chunk_start = max(chunk_end - max_chunk_size, old_data_section)
                     chunk_size = chunk_end - chunk_start
                     self.file.seek(chunk_start)
                     data = self.file.read(chunk_size)
-- 
2.43.0


From 9b4046a512227cc76da4c6c95c0a14d2bd68f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 36/84] fix: omitting the ema keys once omitted them from every
 later merge of the same config

---
 sd_mecha/merging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index ab282b8..1f55f76 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -158,7 +158,8 @@ def merge(
         if strict_weight_space and recipe.merge_space != "weight":
             raise ValueError(f"recipe should be in 'weight' space, not '{recipe.merge_space.identifier}'")
 
-        recipe_metadata = recipe.model_config.metadata()
+        # the config keeps its own metadata: it must not lose the keys that are omitted below
+        recipe_metadata = OrderedDict(recipe.model_config.metadata())
         if not omit_extra_keys:
             recipe, recipe_metadata = copy_extra_keys(recipe)
 
-- 
2.43.0


From fe24d0bcac91ee7dc53243b031a8dc6f184a3b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 37/84] fix: omit_extra_keys=False failed on recipes that load
 models of several merge spaces

---
 sd_mecha/merging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 1f55f76..b9da27b 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -253,7 +253,11 @@ class ForwardableNodesVisitor(RecipeVisitor):
             self.forwardable_nodes.append((node, metadata))
 
     def visit_model(self, node: ModelRecipeNode):
-        if node.model_config == self.target_config and not any(node in n[0] for n in self.forwardable_nodes):
+        if (
+            node.model_config == self.target_config and
+            node.merge_space == self.target_merge_space and
+            not any(node in n[0] for n in self.forwardable_nodes)
+        ):
             self.forwardable_nodes.append((node, OrderedDict(node.state_dict.metadata())))
 
     def visit_merge(self, node: MergeRecipeNode):
-- 
2.43.0


From e6bd5fc281d433d36256b77a6bdcc2f170909dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 38/84] fix: errors of merge methods were masked by errors of
 the output closing under running threads

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index b9da27b..345d07d 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -171,7 +171,6 @@ def merge(
         buffer_size_per_file_per_thread = buffer_size_per_file // max(1, threads)
 
         with (
-            executor,
             tqdm(total=len(recipe_metadata), desc="Merging recipe") as progress,
             _get_output_dict(
                 output,
@@ -181,6 +180,7 @@ def merge(
                 model_dirs,
                 buffer_size_per_file_per_thread,
             ) as output_dict,
+            executor,  # exits first: the output must not be closed while threads still write to it
         ):
             fix_torch_threading()
             futures = []
-- 
2.43.0


From 9b042c3b45ba9f2384610d24ef492d59ebfbd250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 39/84] fix: merge methods called without any argument could
 not be merged inside another one

---
 sd_mecha/recipe_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index 897d184..9ab8a4d 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -231,11 +231,11 @@ class ModelDepthRecipeVisitor(RecipeVisitor):
         return 1
 
     def visit_merge(self, node: MergeRecipeNode):
-        return max(
+        return max((
             child.accept(self)
             for children in (node.args, node.kwargs.values())
             for child in children
-        ) + 1
+        ), default=0) + 1
 
 
 class ModelsCountVisitor(RecipeVisitor):
-- 
2.43.0


From f312db0747368afc8f643804a941269e6595316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 40/84] fix: numbers given to int and float parameters were
 rounded to float32

---
 sd_mecha/merging.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 345d07d..e59d426 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -15,7 +15,7 @@ from .extensions import model_configs, model_formats
 from .extensions.merge_methods import MergeMethod, StateDict, T as MergeMethodT, value_to_node
 from .extensions.merge_spaces import MergeSpace
 from .extensions.model_configs import ModelConfig, StructuralModelConfig, KeyMetadata
-from .recipe_nodes import RecipeVisitor, LiteralRecipeNode, RecipeNode, MergeRecipeNode, ModelRecipeNode, RecipeNodeOrValue, NonDictLiteralValue
+from .recipe_nodes import RecipeVisitor, LiteralRecipeNode, RecipeNode, MergeRecipeNode, ModelRecipeNode, RecipeNodeOrValue, NonDictLiteralValue, PythonLiteralValue
 from .streaming import OutSafetensorsDict, TensorMetadata, StateDictKeyError
 from . import recipe_nodes, serialization
 from collections import OrderedDict
@@ -730,9 +730,18 @@ class CastInputDicts(RecipeVisitor):
         return node.to(device=self.device, dtype=self.dtype)
 
     def visit_merge(self, node: MergeRecipeNode):
+        input_types = node.merge_method.get_input_types().as_dict(len(node.args))
         return MergeRecipeNode(
             node.merge_method,
-            tuple(v.accept(self) for v in node.args),
-            {k: v.accept(self) for k, v in node.kwargs.items()},
+            tuple(self.__visit_arg(v, input_types[i]) for i, v in enumerate(node.args)),
+            {k: self.__visit_arg(v, input_types[k]) for k, v in node.kwargs.items()},
             node.cache,
         )
+
+    def __visit_arg(self, node: RecipeNode, input_type: type):
+        if isinstance(node, LiteralRecipeNode) and is_subclass(input_type, PythonLiteralValue):
+            values = node.value.values() if isinstance(node.value, Mapping) else [node.value]
+            if not any(isinstance(v, torch.Tensor | RecipeNode) for v in values):
+                # the method receives plain python numbers: passing them through tensors would only round them
+                return node
+        return node.accept(self)
-- 
2.43.0


From dca1bf809ef968cd2ece7bb3f5eff8050ee6d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 41/84] fix: block weights given as a dictionary lost the
 config they are converted from

---
 sd_mecha/merging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index e59d426..eca2def 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -412,8 +412,10 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
     def visit_merge(self, node: recipe_nodes.MergeRecipeNode):
         input_configs = node.merge_method.get_input_configs().as_dict(len(node.args))
+        return_config = node.merge_method.get_return_config([], {})
         for k, v in itertools.chain(enumerate(node.args), node.kwargs.items()):
-            v.accept(dataclasses.replace(self, param_config=input_configs[k]))
+            # parameters without a config have the config of the return value
+            v.accept(dataclasses.replace(self, param_config=input_configs[k] or return_config or self.param_config))
 
     def __load_dict(self, node: recipe_nodes.ModelRecipeNode):
         if node.state_dict is not None:
-- 
2.43.0


From e7759042fbbe7151c52f51fc37bb001b29f6d4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 42/84] fix: select_max_white_delta whitened across elements,
 so it always returned b or failed

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 2b18b24..91ebb1a 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -264,13 +264,13 @@ def select_max_white_delta(
     b: Parameter(Tensor, "delta"),
     alpha: Parameter(Tensor) = 0.5,
 ) -> Return(Tensor, "delta"):
-    a_norm = (a - a.mean()) / a.std(correction=0)
-    b_norm = (b - b.mean()) / b.std(correction=0)
+    a_norm = ((a - a.mean()) / a.std(correction=0)).nan_to_num(nan=0)
+    b_norm = ((b - b.mean()) / b.std(correction=0)).nan_to_num(nan=0)
 
-    d = torch.stack((a_norm.flatten(), b_norm.flatten()), dim=-1)
+    d = torch.stack((a_norm.flatten(), b_norm.flatten()))
     v, vs = torch.linalg.eigh(d.cov(correction=0))
-    w = vs @ torch.diag_embed(1 / v.sqrt()) @ vs.mH
-    a_w, b_w = (w @ d).T
+    w = vs @ torch.diag_embed(1 / v.clamp(min=torch.finfo(v.dtype).eps).sqrt()) @ vs.mH
+    a_w, b_w = (x.reshape_as(a) for x in w @ d)
 
     return torch.where((1 - alpha) * a_w.abs() >= alpha * b_w.abs(), a, b)
 
-- 
2.43.0


From c4b128e56dc5b1b0f9327f3eb904618783726a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 43/84] fix: top k thresholds were rounded to float32, so
 float64 merges lost the elements at the limit

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 91ebb1a..cdaf172 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -191,7 +191,7 @@ def kth_abs_value(a: Tensor, k: int) -> Tensor:
     if k <= 0:
         return torch.tensor(-1, device=a.device)
     else:
-        return torch.kthvalue(torch.abs(a.float()), k)[0]
+        return torch.kthvalue(torch.abs(a.to(torch.promote_types(a.dtype, torch.float32))), k)[0]
 
 
 def ratio_to_region(width: float, offset: float, n: int) -> Tuple[int, int, bool]:
@@ -576,7 +576,7 @@ def ties_sum_deltas(
 
 def filter_top_k(a: Tensor, k: float):
     k = max(int((1 - k) * a.numel()), 1)
-    k_value, _ = a.flatten().abs().float().kthvalue(k)
+    k_value, _ = a.flatten().abs().to(torch.promote_types(a.dtype, torch.float32)).kthvalue(k)
     top_k_filter = (a.abs() >= k_value).float()
     return a * top_k_filter
 
-- 
2.43.0


From 81b76446a7709f27d8a2f2b2de7ada4dcbc903fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:29 +0000
Subject: [PATCH 44/84] fix: add_cosine_b turned layers that are all zero in
 one model into nan

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index cdaf172..7439204 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -128,8 +128,7 @@ def add_cosine_b(
     alpha: Parameter(Tensor) = 1.0,
 ) -> Return(Tensor, "weight"):
     similarity = torch.nn.functional.cosine_similarity(a, b, dim=0)
-    dot_product = torch.sum(a * b)
-    magnitude_similarity = dot_product / (torch.norm(a) * torch.norm(b))
+    magnitude_similarity = torch.nn.functional.cosine_similarity(a.flatten(), b.flatten(), dim=0)
     combined_similarity = (similarity + magnitude_similarity) / 2.0
     return add_cosine_generic(a, b, alpha, combined_similarity)
 
-- 
2.43.0


From 47633a889866d29a542552a1f50b7b5c00b1423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 45/84] fix: model stock turned scalar tensors into vectors

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 7439204..62c614d 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -746,8 +746,8 @@ def get_model_stock_t(deltas: Sequence[Tensor], cos_eps: float):
     cos_theta = torch.stack(cos_thetas).mean(dim=0)
 
     # Convert to column vector for multiplication
-    t = (n * cos_theta / (1 + (n - 1) * cos_theta)).unsqueeze(-1)
-    return t
+    t = n * cos_theta / (1 + (n - 1) * cos_theta)
+    return t.unsqueeze(-1) if deltas[0].dim() > 0 else t
 
 
 # src: https://github.com/krishnap25/geom_median/blob/main/src/geom_median/torch/weiszfeld_list_of_array.py
-- 
2.43.0


From 4b59811899754329c314e5f632b27317fe9e0c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 46/84] fix: top_k copy_region included the element before its
 region, and left it out of wrapped regions

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 62c614d..2ca6014 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -176,7 +176,7 @@ def top_k_tensor_sum(
     start_top_k = kth_abs_value(a_dist, start_i)
     end_top_k = kth_abs_value(a_dist, end_i)
 
-    indices_mask = (start_top_k <= torch.abs(a_dist)) & (torch.abs(a_dist) <= end_top_k)
+    indices_mask = (start_top_k < torch.abs(a_dist)) & (torch.abs(a_dist) <= end_top_k)
     if region_is_inverted:
         indices_mask = ~indices_mask
     indices_mask = torch.gather(indices_mask.float(), 0, redist_indices)
-- 
2.43.0


From 9c41e3dc1d80015de4b5500c0af10b40762977d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 47/84] fix: rotate reused cached rotations with reflections
 for fractional alignments, and the reverse

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 2ca6014..2c9495b 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -421,12 +421,14 @@ def rotate(
 
     alignment_is_float = not math.isclose(alignment, round(alignment))
 
-    if cache is not None and "rotation" in cache:
-        rotation = transform = cache["rotation"].to(a.device, a.dtype)
+    # fractional powers need a rotation without reflection, which is another matrix
+    rotation_key = "rotation_no_reflection" if alignment_is_float else "rotation"
+    if cache is not None and rotation_key in cache:
+        rotation = transform = cache[rotation_key].to(a.device, a.dtype)
     else:
         rotation = transform = orthogonal_procrustes(a_neurons, b_neurons, cancel_reflection=alignment_is_float)
         if cache is not None:
-            cache["rotation"] = rotation.to("cpu", torch.float16)
+            cache[rotation_key] = rotation.to("cpu", torch.float16)
 
     if alignment_is_float:
         transform = fractional_matrix_power(transform, alignment, cache)
-- 
2.43.0


From f1e76b445bfa434c4bae30ebfeaa36fe8046f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 48/84] fix: rotate failed on wide layers with negative integer
 alignments

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 2c9495b..5fba271 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -439,7 +439,8 @@ def rotate(
             device=transform.device,
         )
     elif not math.isclose(alignment, 1):
-        transform = torch.linalg.matrix_power(transform, round(alignment))
+        # low rank transforms are singular: undo them with the transpose
+        transform = torch.linalg.matrix_power(transform if alignment > 0 else transform.T, abs(round(alignment)))
 
     if not torch.allclose(alpha, torch.zeros_like(alpha)):
         # interpolate the relationship between the neurons
-- 
2.43.0


From 367df7502ee6c76cf9310488e81e59e96b9c4287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 49/84] fix: crossover with a tilt of 2, or rounded to just
 below a multiple of 4, inverted the cut

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 5fba271..8ba18a9 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -339,6 +339,11 @@ def create_filter(shape: Tuple[int, ...] | torch.Size, alpha: float, tilt: float
 
     # normalize tilt to the range [0, 4]
     tilt -= math.floor(tilt // 4 * 4)
+    if abs(tilt - 4) < 1e-10:
+        tilt = 0.0
+    elif abs(tilt - 2) < 1e-10:
+        tilt = 2.0
+
     if tilt > 2:
         alpha = 1 - alpha
         alpha_inverted = True
@@ -362,10 +367,10 @@ def create_filter(shape: Tuple[int, ...] | torch.Size, alpha: float, tilt: float
     else:
         mesh = gradients[0]
 
-    if tilt < 1e-10 or abs(tilt - 4) < 1e-10:
+    if tilt < 1e-10:
         dft_filter = (mesh > 1 - alpha).float()
     elif abs(tilt - 2) < 1e-10:
-        dft_filter = (mesh < 1 - alpha).float()
+        dft_filter = (mesh < alpha).float()
     else:
         tilt_cot = 1 / math.tan(math.pi * tilt / 2)
         if tilt <= 1 or 2 < tilt <= 3:
-- 
2.43.0


From 71f952d19a511931626e152a248e314b7589e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 50/84] fix: model files behind symbolic links to files without
 the .safetensors suffix were refused

---
 sd_mecha/extensions/model_formats.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sd_mecha/extensions/model_formats.py b/sd_mecha/extensions/model_formats.py
index 73b3aef..8983772 100644
--- a/sd_mecha/extensions/model_formats.py
+++ b/sd_mecha/extensions/model_formats.py
@@ -79,7 +79,6 @@ def _register_builtin_model_formats():
     @register_model_format(identifier="single_file")
     class SingleFileModelFormat(ModelFormat):
         def matches(self, path: pathlib.Path) -> bool:
-            path = path.resolve()
             return path.suffix == ".safetensors"
 
         def get_read_dict(self, path: pathlib.Path, buffer_size: int) -> Mapping[str, torch.Tensor]:
-- 
2.43.0


From 0704ec643f3388b045130ef62d3e176f3257a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 51/84] fix: reading tensors from several threads must not turn
 off warnings for the whole process

warnings.catch_warnings() is not thread-safe: overlapping reads restored the
filters in the wrong order, and left 'ignore everything' in place after the
merge. The buffer is writable, so torch.frombuffer has nothing to warn about.
---
 sd_mecha/streaming.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 88e3b9c..d0f329f 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -9,7 +9,6 @@ import sys
 import threading
 import numpy
 import torch
-import warnings
 from collections import OrderedDict
 from typing import Optional, Mapping, Iterator, Iterable, Tuple
 from tqdm import tqdm
@@ -169,12 +168,10 @@ class InSafetensorsDict(SafetensorsMapping):
             return torch.tensor([], dtype=dtype).reshape(shape)
 
         absolute_start_pos = 8 + self.header_size + offsets[0]
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            with self.lock:
-                self._ensure_buffer(absolute_start_pos, total_bytes)
-                buffer_offset = absolute_start_pos - self.buffer_start_offset
-                return torch.frombuffer(self.buffer, count=total_bytes // dtype_bytes, offset=buffer_offset, dtype=dtype).reshape(shape)
+        with self.lock:
+            self._ensure_buffer(absolute_start_pos, total_bytes)
+            buffer_offset = absolute_start_pos - self.buffer_start_offset
+            return torch.frombuffer(self.buffer, count=total_bytes // dtype_bytes, offset=buffer_offset, dtype=dtype).reshape(shape)
 
 
 class StateDictKeyError(KeyError):
-- 
2.43.0


From 5b35dbfa8dfd778e7db39cf9e20277f17ff494ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 52/84] fix: to_yaml must not change how the rest of the
 process dumps YAML

the representers of yaml.SafeDumper were replaced for the time of the call, and
for good when two calls overlapped
---
 sd_mecha/extensions/model_configs.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index 7b794fa..f4b2d88 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -347,7 +347,10 @@ def serialize(obj):
 
 def to_yaml(model_config: ModelConfig) -> str:
     dict_config = serialize(model_config)
-    old_representers = yaml.SafeDumper.yaml_representers.copy()
+
+    # a dumper of its own: the representers of yaml.SafeDumper are shared with the whole process
+    class ConfigDumper(yaml.SafeDumper):
+        pass
 
     def flow_style_list_representer(dumper, data):
         return dumper.represent_sequence('tag:yaml.org,2002:seq', data, flow_style=True)
@@ -358,13 +361,9 @@ def to_yaml(model_config: ModelConfig) -> str:
         else:
             return dumper.represent_mapping('tag:yaml.org,2002:map', data)
 
-    try:
-        yaml.SafeDumper.add_representer(list, flow_style_list_representer)
-        yaml.SafeDumper.add_representer(dict, flow_style_dict_representer)
-        return yaml.safe_dump(dict_config, width=2**64, sort_keys=False)
-    finally:
-        yaml.SafeDumper.yaml_representers.clear()
-        yaml.SafeDumper.yaml_representers.update(old_representers)
+    ConfigDumper.add_representer(list, flow_style_list_representer)
+    ConfigDumper.add_representer(dict, flow_style_dict_representer)
+    return yaml.dump(dict_config, Dumper=ConfigDumper, width=2**64, sort_keys=False)
 
 
 def from_yaml(yaml_config: str) -> ModelConfig:
-- 
2.43.0


From 0dd1d14c4cc55fa4b68f7535c99ea01e689fc25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 53/84] fix: making space for the header must not move the data
 byte by byte

with a total buffer size of 0, or one that is small for the number of files and
threads, the data section was moved in chunks of (nearly) one byte, which takes
minutes for a file of a hundred megabytes
---
 sd_mecha/streaming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index d0f329f..7616eb8 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -319,7 +319,7 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
                 self.file = open(self.file_path, "rb+")
 
                 # move data in chunks from the end to avoid overwriting
-                max_chunk_size = max(self.minimum_buffer_size, 1)
+                max_chunk_size = max(self.minimum_buffer_size, 2**12)
                 for chunk_end in tqdm(range(old_file_end, old_data_section, -max_chunk_size), desc="Reallocating data section"):
                     chunk_start = max(chunk_end - max_chunk_size, old_data_section)
                     chunk_size = chunk_end - chunk_start
-- 
2.43.0


From da45ee6ca4946453aad9e0b1d358a1ef3d2d9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:27 +0000
Subject: [PATCH 54/84] fix: models inside dictionaries of recipes share the
 memory given to the open files

---
 sd_mecha/recipe_nodes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index 9ab8a4d..bf89014 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -225,6 +225,12 @@ class RecipeVisitor(abc.ABC):
 
 class ModelDepthRecipeVisitor(RecipeVisitor):
     def visit_literal(self, node: LiteralRecipeNode):
+        if isinstance(node.value, dict):
+            return max((
+                child.accept(self)
+                for child in node.value.values()
+                if isinstance(child, RecipeNode)
+            ), default=0)
         return 0
 
     def visit_model(self, _node: ModelRecipeNode):
@@ -243,6 +249,12 @@ class ModelsCountVisitor(RecipeVisitor):
         self.__seen_nodes = []
 
     def visit_literal(self, node: LiteralRecipeNode) -> int:
+        if isinstance(node.value, dict):
+            return sum(
+                child.accept(self)
+                for child in node.value.values()
+                if isinstance(child, RecipeNode)
+            )
         return 0
 
     def visit_model(self, node: ModelRecipeNode) -> int:
-- 
2.43.0


From b51d879316f63b4d10a7f51d2b2176a939454a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:27 +0000
Subject: [PATCH 55/84] fix: find the recipes inside a dictionary of recipes
 with the 'in' operator

---
 sd_mecha/recipe_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index bf89014..44588ad 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -112,6 +112,8 @@ class LiteralRecipeNode(RecipeNode):
         self.__model_config = model_config
 
     def __contains__(self, item):
+        if isinstance(self.value, dict) and any(item in v for v in self.value.values() if isinstance(v, RecipeNode)):
+            return True
         if isinstance(item, LiteralRecipeNode):
             if isinstance(self.value, (dict, torch.Tensor)) or isinstance(item.value, (dict, torch.Tensor)):
                 # comparing tensors (or dicts thereof) is elementwise
-- 
2.43.0


From 1815382fd704e3455eddc541aaf54a222a2b8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:02 +0000
Subject: [PATCH 56/84] fix: reject unusable config conversions before
 registering them

---
 sd_mecha/conversion.py               |  5 +++--
 sd_mecha/extensions/merge_methods.py | 15 +++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index db8de60..1a1d081 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -37,8 +37,9 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
     converter_paths: Dict[str, List[Tuple[str, Any]]] = {}
     for converter in all_converters:
         input_configs = converter.get_input_configs()
-        return_config = converter.get_return_config(input_configs.args, input_configs.kwargs)
-        src_config = input_configs.args[0].identifier
+        input_args = input_configs.args_varargs()
+        return_config = converter.get_return_config(input_args, input_configs.kwargs)
+        src_config = input_args[0].identifier
         tgt_config = return_config.identifier
         converter_paths.setdefault(src_config, [])
         converter_paths.setdefault(tgt_config, [])
diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index ffde283..8532dd2 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -509,12 +509,17 @@ def __recipe_impl(
         identifier = fn.__name__
     fn_object = MergeMethod(fn, identifier)
 
+    if is_conversion:
+        if not register:
+            raise ValueError("A conversion recipe must be registered")
+        validate_config_conversion(fn_object)
+
     if register:
         _merge_methods_registry[identifier] = fn_object
         if is_conversion:
-            _conversion_registry[identifier] = validate_config_conversion(fn_object)
-    elif is_conversion:
-        raise ValueError("A conversion recipe must be registered")
+            _conversion_registry[identifier] = fn_object
+        else:
+            _conversion_registry.pop(identifier, None)
 
     return fn_object
 
@@ -524,8 +529,10 @@ def validate_config_conversion(merge_method: MergeMethod):
     args_varargs = params.args if params.args else params.args_varargs()
     assert len(args_varargs) == 1, f"the merge method should be able to take exactly 1 positional argument"
     configs = merge_method.get_input_configs()
-    input_config = configs.args if configs.args else configs.args_varargs()[0]
+    input_config = configs.args_varargs()[0]
     assert input_config is not None, f"the input ModelConfig['identifier...'] is missing. It should be appended to the type annotation of `{args_varargs[0]}`"
+    required_kwargs = [k for k in params.kwargs if k not in merge_method.get_default_args().kwargs]
+    assert not required_kwargs, f"the merge method should not require any keyword argument, but {required_kwargs} have no default value"
     return merge_method
 
 
-- 
2.43.0


From 6e0fe8396b0946e011a2904ddd18cca1b4ab64d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:02 +0000
Subject: [PATCH 57/84] fix: literal arguments passed as *args are in 'param'
 space, like other literal arguments

---
 sd_mecha/extensions/merge_methods.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 8532dd2..94fadce 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -373,9 +373,7 @@ class MergeMethod:
 
         varargs_merge_space = FunctionArgs.EMPTY_VARARGS
         if params.has_varargs():
-            varargs_merge_space = params.vararg.merge_space
-            if varargs_merge_space is None:
-                varargs_merge_space = self.default_merge_space
+            varargs_merge_space = get_merge_space_or_default(params.vararg, False)
 
         kwargs_merge_spaces = {}
         for name in names.kwargs:
-- 
2.43.0


From 3be66777035ff5be5545c7dca8ed9b416faf3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 58/84] fix: a merge space symbol returned by a merge method
 must be used by a parameter

---
 sd_mecha/extensions/merge_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 94fadce..e8a99a0 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -206,7 +206,7 @@ class MergeMethod:
 
         return_data = self.__get_return_data(self.__f_hints.get("return"))  # validates return type annotation
         if isinstance(return_data.merge_space, MergeSpaceSymbol):
-            if not any(k.merge_space for k in params.as_dict().values()):
+            if not any(k.merge_space is return_data.merge_space for k in params.as_dict().values()):
                 raise RuntimeError("when using a merge space symbol as output, it must also be used by at least one input parameter")
 
     def __repr__(self):
-- 
2.43.0


From 2c13ecad0e4b991dcc10e47f54edcabf4bc08d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 59/84] fix: report that the merge space cannot be inferred
 when a method is called without its *args

---
 sd_mecha/extensions/merge_methods.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index e8a99a0..bbcfcc2 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -337,12 +337,14 @@ class MergeMethod:
 
         merge_space_param: MergeSpace | MergeSpaceSymbol = self.__get_return_data(self.__f_hints.get("return")).merge_space
         if isinstance(merge_space_param, MergeSpaceSymbol):
+            if merge_space_param not in resolved_input_spaces:
+                raise RuntimeError(f"could not infer merge space of method '{self.identifier}'")
             return resolved_input_spaces[merge_space_param]
         if merge_space_param is None:
             if self.default_merge_space in resolved_input_spaces:
                 return resolved_input_spaces[self.default_merge_space]
-            any_input_merge_space = next(iter(input_merge_spaces.values()))
-            if all(v == any_input_merge_space for v in input_merge_spaces.values()):
+            any_input_merge_space = next(iter(input_merge_spaces.values()), None)
+            if any_input_merge_space is not None and all(v == any_input_merge_space for v in input_merge_spaces.values()):
                 if isinstance(any_input_merge_space, set):
                     if len(any_input_merge_space) != 1:
                         raise RuntimeError(f"could not infer merge space of method '{self.identifier}'")
-- 
2.43.0


From 9223b1fb21a826380e6f1cbd0d81d1b61e19076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 60/84] fix: looking for the deepest argument must not go
 through every tensor of a model

---
 sd_mecha/merging.py      |  2 +-
 sd_mecha/recipe_nodes.py | 13 ++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index eca2def..330887b 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -611,7 +611,7 @@ class KeyMergeVisitor(RecipeVisitor):
     ):
         def depth_of_value(index) -> int:
             nodes = node_args if isinstance(index, int) else node_kwargs
-            return nodes[index].accept(recipe_nodes.ModelDepthRecipeVisitor())
+            return nodes[index].accept(recipe_nodes.ModelDepthRecipeVisitor(self.key))
 
         error_holder = ErrorHolder()
         merged = {}
diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index 44588ad..4403191 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -226,14 +226,13 @@ class RecipeVisitor(abc.ABC):
 
 
 class ModelDepthRecipeVisitor(RecipeVisitor):
+    def __init__(self, key: Optional[str] = None):
+        self.__key = key
+
     def visit_literal(self, node: LiteralRecipeNode):
-        if isinstance(node.value, dict):
-            return max((
-                child.accept(self)
-                for child in node.value.values()
-                if isinstance(child, RecipeNode)
-            ), default=0)
-        return 0
+        # only the recipe of the key is going to be evaluated
+        child = node.value.get(self.__key) if isinstance(node.value, dict) else None
+        return child.accept(self) if isinstance(child, RecipeNode) else 0
 
     def visit_model(self, _node: ModelRecipeNode):
         return 1
-- 
2.43.0


From 6bb4872d9c2650813d9c2262cff6232d4eb757ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 61/84] fix: models whose config is 'infer' were refused next
 to any known config

The config is only known once the model is open: until then, it is not different
from the config of the other inputs.
---
 sd_mecha/extensions/merge_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index bbcfcc2..1197da6 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -392,7 +392,7 @@ class MergeMethod:
         arg_tuples = enumerate(arg_configs)
         kwarg_tuples = ((k, kwarg_configs.get(k)) for k in kwarg_configs)
         for param, arg_config in itertools.chain(arg_tuples, kwarg_tuples):
-            if arg_config is None:
+            if arg_config is None or arg_config is model_configs.INFER:
                 continue
 
             param_config = input_configs[param]
-- 
2.43.0


From 72112890078ca1710ef493fc542c943ddb82010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 62/84] fix: inferred configs of a merge stayed on the nodes of
 the recipe

A node that was once merged as one of several matching configs could not be used
as another one later, and its recipe was serialized differently from then on.
---
 sd_mecha/merging.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 330887b..4178d07 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -365,9 +365,9 @@ def open_input_dicts(
         yield recipe
     finally:
         recipe.accept(CloseInputDictsVisitor())
-        # the structural config is only meaningful together with the other inputs of this recipe
-        for node in load_visitor.structural_nodes:
-            node.model_config = None
+        # the configs that were determined are only meaningful for these inputs, used in this recipe
+        for node, config in load_visitor.undetermined_configs:
+            node.model_config = config
         if empty_cuda_cache:
             gc.collect()
             torch.cuda.empty_cache()
@@ -381,7 +381,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     check_mandatory_keys: bool
     dicts_cache: MutableMapping[str, Mapping[str, torch.Tensor]] = dataclasses.field(default_factory=dict)
     structural_metadata: MutableMapping[str, KeyMetadata] = dataclasses.field(default_factory=OrderedDict)
-    structural_nodes: List[RecipeNode] = dataclasses.field(default_factory=list)
+    undetermined_configs: List[Tuple[RecipeNode, Optional[ModelConfig]]] = dataclasses.field(default_factory=list)
     param_config: Optional[ModelConfig] = None
 
     def visit_literal(self, node: LiteralRecipeNode):
@@ -450,6 +450,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     def __determine_model_config(self, node: RecipeNode, metadata: MutableMapping[str, KeyMetadata]) -> ModelConfig:
         config = node.model_config
         if config is None or config == model_configs.INFER:
+            self.undetermined_configs.append((node, config))
             inferred_model_configs = infer_model_configs(metadata)
             if any(self.param_config in cfgs for cfgs in inferred_model_configs):
                 config = self.param_config
@@ -471,7 +472,6 @@ class LoadInputDictsVisitor(RecipeVisitor):
                     ):
                         self.structural_metadata[k] = metadata[k]
             config = StructuralModelConfig(self.structural_metadata)
-            self.structural_nodes.append(node)
 
         return config
 
-- 
2.43.0


From c606e8b121148271c8ff244b3ccc37adb9221030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 63/84] fix: input files with an unreadable header stayed open

---
 sd_mecha/streaming.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 7616eb8..13efc83 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -81,7 +81,12 @@ class InSafetensorsDict(SafetensorsMapping):
         self.default_buffer_size = buffer_size
         self.file = open(file_path, mode='rb', buffering=0)
         self.file_path = file_path
-        self.header_size, self.header = self._read_header()
+        try:
+            self.header_size, self.header = self._read_header()
+        except BaseException:
+            # nobody else can close it, and the exception would keep it open as long as it is referenced
+            self.file.close()
+            raise
         self.buffer = bytearray()
         self.buffer_start_offset = 8 + self.header_size
         self.lock = threading.Lock()
-- 
2.43.0


From 0089a8de3174e69e416ef074a5a91ad5cdd37101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 64/84] fix: the output file stayed open when writing its end
 failed

---
 sd_mecha/streaming.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 13efc83..4d8b1e6 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -302,6 +302,13 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             state.buffer = b""
 
     def close(self):
+        try:
+            self._flush_and_write_header()
+        finally:
+            # also when the data could not be written, e.g. when the disk is full
+            self.file.close()
+
+    def _flush_and_write_header(self):
         with self.lock:
             for state in self.thread_states.values():
                 self._flush_buffer(state, close=True)
@@ -342,7 +349,6 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             self._write(struct.pack('<Q', max(self.max_header_size, header_size)))
             self._write(header_json)
             self._write(b' ' * overhead)
-            self.file.close()
 
     def _write(self, data: bytes | bytearray):
         # a raw write can be partial, e.g. when the disk is almost full
-- 
2.43.0


From 63e637f02cb2e1e099eb5611131befd8be5728f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 65/84] fix: Defaults forgot an iterator of model directories
 after its first operation

---
 sd_mecha/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index 15ab231..e1357a2 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -7,7 +7,7 @@ from .merging import merge
 from .conversion import convert
 from .recipe_nodes import ModelRecipeNode, LiteralRecipeNode, RecipeNode, RecipeNodeOrValue
 from .extensions.merge_methods import NonDictLiteralValue
-from typing import Optional, MutableMapping, Iterable, Mapping
+from typing import Optional, MutableMapping, Iterable, Iterator, Mapping
 
 
 def model(
@@ -98,6 +98,8 @@ class Defaults:
         Args:
             See documentation for `sd_mecha.merge` or `sd_mecha.conversion` for a description of each parameter.
         """
+        if isinstance(model_dirs, Iterator):
+            model_dirs = list(model_dirs)  # it is used by more than one operation
         self.__model_dirs = model_dirs
         self.__merge_device = merge_device
         self.__merge_dtype = merge_dtype
-- 
2.43.0


From e4e7f253250fa91cc5b76e55f6dba78c384079c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:56 +0000
Subject: [PATCH 66/84] fix: convert_ckpt_to_safetensors refused checkpoints
 with shared or non-contiguous tensors

---
 scripts/convert_ckpt_to_safetensors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scripts/convert_ckpt_to_safetensors.py b/scripts/convert_ckpt_to_safetensors.py
index 040c6f2..6428ad3 100644
--- a/scripts/convert_ckpt_to_safetensors.py
+++ b/scripts/convert_ckpt_to_safetensors.py
@@ -19,6 +19,12 @@ def main(input_path: pathlib.Path, output_path: pathlib.Path):
     if "state_dict" in ckpt:
         del ckpt["state_dict"]
 
+    # tensors that share memory or are not contiguous are refused by safetensors
+    ckpt = {
+        k: v.detach().clone(memory_format=torch.contiguous_format) if isinstance(v, torch.Tensor) else v
+        for k, v in ckpt.items()
+    }
+
     print("saving...")
     safetensors.torch.save_file(ckpt, output_path)
 
-- 
2.43.0


From ed83be096dfd5c4a57b1c685edb9a748cff21fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:56 +0000
Subject: [PATCH 67/84] fix: the n_average example gave names of models as
 parameters

---
 examples/n_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/n_average.py b/examples/n_average.py
index 0fa12bf..a61ff2c 100644
--- a/examples/n_average.py
+++ b/examples/n_average.py
@@ -11,5 +11,5 @@ models = [
     "CounterfeitV30_v30",
 ]
 
-recipe = sd_mecha.n_average(*models)
+recipe = sd_mecha.n_average(*(sd_mecha.model(f"{model}.safetensors") for model in models))
 sd = sd_mecha.merge(recipe)
-- 
2.43.0


From fe6762f2cb98f4f1e805b319c04436aaecf6f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 68/84] fix: the lora_merge example lost the layers that the
 lora does not train

---
 examples/lora_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/lora_merge.py b/examples/lora_merge.py
index f26b5fa..ededac1 100644
--- a/examples/lora_merge.py
+++ b/examples/lora_merge.py
@@ -4,6 +4,7 @@ sd_mecha.set_log_level()
 
 base = sd_mecha.model("ghostmix_v20Bakedvae.safetensors")
 lora = sd_mecha.convert(sd_mecha.model("head-mounted display3-000007.safetensors"), base)
-recipe = sd_mecha.add_difference(base, lora, alpha=1.0)
+# layers that the lora does not train stay those of the base model
+recipe = sd_mecha.add_difference(base, lora, alpha=1.0) | base
 
 sd = sd_mecha.merge(recipe)
-- 
2.43.0


From fca674662aeffe91503a4683e9eb0f945c94f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:44 +0000
Subject: [PATCH 69/84] fix: a recipe with a file name that is not unicode made
 the output file invalid

---
 sd_mecha/serialization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index be94937..b1d9671 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -160,6 +160,11 @@ def serialize(recipe: RecipeNode, *, output: Optional[pathlib.Path | str] = None
         serializer.instructions.append(f"literal {root}")
     version_header = get_version_header(MECHA_FORMAT_VERSION)
     serialized = "\n".join([version_header] + serializer.instructions)
+    try:
+        serialized.encode("utf-8")
+    except UnicodeEncodeError as e:
+        # e.g. file names that are not valid unicode: the text could not be written to any file
+        raise TypeError(f"recipe cannot be serialized: {e}") from e
 
     if isinstance(output, str):
         output = pathlib.Path(output)
-- 
2.43.0


From f15c3b7de2d0d0d1730a96cbd5681226713de4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:52 +0000
Subject: [PATCH 70/84] fix: lora configs took the other names of full weights
 for names of their own layers

---
 sd_mecha/extensions/builtin/lycoris.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sd_mecha/extensions/builtin/lycoris.py b/sd_mecha/extensions/builtin/lycoris.py
index 80bb5c1..895d399 100644
--- a/sd_mecha/extensions/builtin/lycoris.py
+++ b/sd_mecha/extensions/builtin/lycoris.py
@@ -98,18 +98,24 @@ def _to_lycoris_keys(
             if key.endswith("bias") or not getattr(meta.metadata().dtype, "is_floating_point", True):
                 continue
 
-            key = key.split('.')
-            if key[-1] == "weight":
-                key = key[:-1]
-            key = "_".join(key)
-
             for suffix in lycoris_algorithms[algorithm]:
-                lycoris_key = f"{prefix}_{key}.{suffix}"
-                lycoris_keys[lycoris_key] = dataclasses.replace(meta, shape=[], optional=True)
+                lycoris_keys[_to_lycoris_key(key, prefix, suffix)] = dataclasses.replace(
+                    meta,
+                    shape=[],
+                    aliases=[_to_lycoris_key(alias, prefix, suffix) for alias in meta.aliases],
+                    optional=True,
+                )
 
     return lycoris_keys
 
 
+def _to_lycoris_key(key: StateDictKey, prefix: str, suffix: str) -> StateDictKey:
+    key = key.split('.')
+    if key[-1] == "weight":
+        key = key[:-1]
+    return f"{prefix}_{'_'.join(key)}.{suffix}"
+
+
 lycoris_algorithms = {
     "lora": ("lora_up.weight", "lora_down.weight", "alpha"),
 }
-- 
2.43.0


From 247be81ab69f53c8a5e045b0682fddc7acfc2478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:52 +0000
Subject: [PATCH 71/84] fix: recipe files were written and read in the encoding
 of the locale

---
 sd_mecha/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index b1d9671..ff1573b 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -14,7 +14,7 @@ def deserialize_path(recipe: pathlib.Path) -> RecipeNode:
         raise ValueError(f"unable to deserialize '{recipe}': no such file")
 
     if recipe.suffix == ".mecha":
-        with open(recipe, "r") as recipe_file:
+        with open(recipe, "r", encoding="utf-8") as recipe_file:
             return deserialize(recipe_file.read())
     else:
         raise ValueError(f"unable to deserialize '{recipe}': unknown extension")
@@ -171,7 +171,7 @@ def serialize(recipe: RecipeNode, *, output: Optional[pathlib.Path | str] = None
     if output is not None:
         output = output.absolute()
         logging.info(f"Saving recipe to {output}")
-        output.write_text(serialized)
+        output.write_text(serialized, encoding="utf-8")
 
     return serialized
 
-- 
2.43.0


From 7afc0816fb86b2f2aa0f67d1e158f553bf056cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:02 +0000
Subject: [PATCH 72/84] fix: a negative or fractional total_buffer_size was
 only refused after the output was overwritten

---
 sd_mecha/merging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 4178d07..e4fbf44 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -139,6 +139,10 @@ def merge(
     if threads is not None and (threads < 0 or not isinstance(threads, int)):
         raise RuntimeError("threads should be a non-negative integer or None")
 
+    total_buffer_size = int(total_buffer_size)
+    if total_buffer_size < 0:
+        raise ValueError("total_buffer_size should not be negative")
+
     total_files_open = (
         recipe.accept(recipe_nodes.ModelsCountVisitor()) +
         int(isinstance(output, (str, pathlib.Path)))
-- 
2.43.0


From 0c4d8f8304fa6902b46f28d141cf0194a3807551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:02 +0000
Subject: [PATCH 73/84] fix: devices and dtypes that do not exist were only
 noticed after the output was overwritten

---
 sd_mecha/merging.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index e4fbf44..c2e9738 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -125,6 +125,8 @@ def merge(
     if tqdm is ...:
         tqdm = tqdm_original
 
+    check_devices_and_dtypes((merge_device, output_device), (merge_dtype, output_dtype))
+
     recipe = value_to_node(recipe)
     original_recipe = recipe
     if fallback_model is not None:
@@ -206,6 +208,18 @@ def merge(
                 return output_dict
 
 
+def check_devices_and_dtypes(devices: Iterable, dtypes: Iterable):
+    from .extensions.builtin.merge_methods import cast_dtype_map
+
+    for device in devices:
+        if isinstance(device, (str, torch.device)):
+            torch.empty(0, device=device)  # raises if the device cannot be used
+
+    for dtype in dtypes:
+        if isinstance(dtype, str) and dtype not in cast_dtype_map:
+            raise ValueError(f"Unknown dtype {dtype}. Possible values are None, {', '.join(cast_dtype_map)}")
+
+
 def fix_torch_threading():
     if not torch.cuda.is_available():
         return
-- 
2.43.0


From 474559fbe4ef89d9ca641eb8a5e0ea35ec3d4e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:02 +0000
Subject: [PATCH 74/84] fix: inputs with dtypes that safetensors does not have
 could not be merged into a file

---
 sd_mecha/streaming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 4d8b1e6..6d87b1c 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -249,7 +249,7 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 
     def _init_buffer(self, header: Mapping[str, TensorMetadata]) -> int:
         trimmed_header = {
-            k: v for k, v in header.items() if v.shape is not None and v.dtype is not None
+            k: v for k, v in header.items() if v.shape is not None and v.dtype in DTYPE_REVERSE_MAPPING
         }
         worst_case_header = OrderedDict(sorted(
             trimmed_header.items(),
-- 
2.43.0


From a2b765599ec6c1ac6e8b4806f3800d1bf7ac0e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:02 +0000
Subject: [PATCH 75/84] fix: parameters named key or cache did not receive
 their arguments

---
 sd_mecha/extensions/merge_methods.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 1197da6..a3da3d1 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -230,10 +230,16 @@ class MergeMethod:
         cache: Optional[dict],
     ) -> Tuple[Tuple[torch.Tensor, ...], Dict]:
         if self.has_varkwargs:
-            input_kwargs |= {
+            param_names = self.get_param_names()
+            context = {
                 "key": key,
                 "cache": cache,
             }
+            # a parameter that is declared with one of these names keeps its own argument
+            input_kwargs = input_kwargs | {
+                k: v for k, v in context.items()
+                if k not in param_names.args and k not in param_names.kwargs
+            }
         return input_args, input_kwargs
 
     def __call__(self, *args, **kwargs):
-- 
2.43.0


From 778b6d11f389d7bc5a43971052ed9b4c3159f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:42 +0000
Subject: [PATCH 76/84] Revert "fix: the lora_merge example lost the layers
 that the lora does not train"

This reverts commit fe6762f2cb98f4f1e805b319c04436aaecf6f7bf.
---
 examples/lora_merge.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/examples/lora_merge.py b/examples/lora_merge.py
index ededac1..f26b5fa 100644
--- a/examples/lora_merge.py
+++ b/examples/lora_merge.py
@@ -4,7 +4,6 @@ sd_mecha.set_log_level()
 
 base = sd_mecha.model("ghostmix_v20Bakedvae.safetensors")
 lora = sd_mecha.convert(sd_mecha.model("head-mounted display3-000007.safetensors"), base)
-# layers that the lora does not train stay those of the base model
-recipe = sd_mecha.add_difference(base, lora, alpha=1.0) | base
+recipe = sd_mecha.add_difference(base, lora, alpha=1.0)
 
 sd = sd_mecha.merge(recipe)
-- 
2.43.0


From ae24b094b2bd07f889ee63e766c5bca9d09b99da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:42 +0000
Subject: [PATCH 77/84] Revert "fix: the n_average example gave names of models
 as parameters"

This reverts commit ed83be096dfd5c4a57b1c685edb9a748cff21fcc.
---
 examples/n_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/n_average.py b/examples/n_average.py
index a61ff2c..0fa12bf 100644
--- a/examples/n_average.py
+++ b/examples/n_average.py
@@ -11,5 +11,5 @@ models = [
     "CounterfeitV30_v30",
 ]
 
-recipe = sd_mecha.n_average(*(sd_mecha.model(f"{model}.safetensors") for model in models))
+recipe = sd_mecha.n_average(*models)
 sd = sd_mecha.merge(recipe)
-- 
2.43.0


From 4a9d8eb1a73431c0d998bc0c055b8d9d8a314c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:06 +0000
Subject: [PATCH 78/84] fix: close the inputs of dictionaries that hold tensors
 and recipes

---
 sd_mecha/merging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index c2e9738..57b7531 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -551,8 +551,8 @@ def check_model_config(state_dict: Iterable[str], config: ModelConfig, strip_ext
 class CloseInputDictsVisitor(RecipeVisitor):
     def visit_literal(self, node: LiteralRecipeNode):
         if isinstance(node.value, Mapping):
-            if not node.value or isinstance(next(iter(node.value.values())), RecipeNode):
-                for v in node.value.values():
+            for v in node.value.values():
+                if isinstance(v, RecipeNode):
                     v.accept(self)
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
-- 
2.43.0


From f8b77dbde5f8ec3e23d8154e3919b8b67f92ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:06 +0000
Subject: [PATCH 79/84] fix: read the files of model configs as UTF-8 whatever
 the locale

---
 sd_mecha/extensions/model_configs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index f4b2d88..c3aed85 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -305,7 +305,7 @@ class YamlModelConfig(LazyModelConfigBase):
         return self._identifier
 
     def create_config(self) -> ModelConfig:
-        with open(self.yaml_config_file, "r") as f:
+        with open(self.yaml_config_file, "r", encoding="utf-8") as f:
             yaml_config = f.read()
 
         return from_yaml(yaml_config)
-- 
2.43.0


From ba6dec9391a66faf4359ddd1d3c7ab44a1a42894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 80/84] fix: numbers in dictionaries given to StateDict[int]
 and StateDict[float] parameters were rounded to float32

---
 sd_mecha/merging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 57b7531..3eec852 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -759,6 +759,8 @@ class CastInputDicts(RecipeVisitor):
         )
 
     def __visit_arg(self, node: RecipeNode, input_type: type):
+        if is_subclass(input_type, StateDict):
+            input_type = (typing.get_args(input_type) or (input_type,))[0]
         if isinstance(node, LiteralRecipeNode) and is_subclass(input_type, PythonLiteralValue):
             values = node.value.values() if isinstance(node.value, Mapping) else [node.value]
             if not any(isinstance(v, torch.Tensor | RecipeNode) for v in values):
-- 
2.43.0


From b0fa79731edb8cb8c5ff46c12dad225b2b318b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:10 +0000
Subject: [PATCH 81/84] fix: models in a merge space that was registered later
 were refused by the methods that accept any space

---
 sd_mecha/extensions/merge_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index a3da3d1..692a609 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -370,6 +370,8 @@ class MergeMethod:
                 if has_default or is_subclass(param.interface, PythonLiteralValue):
                     merge_space = {merge_spaces.resolve("param")}
                 else:
+                    # spaces can be registered at any time
+                    self.default_merge_space.merge_spaces = merge_spaces.get_all()
                     merge_space = self.default_merge_space
             return merge_space
 
-- 
2.43.0


From 94501e7da10ce34dacc109c2566cf794d739e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:54 +0000
Subject: [PATCH 82/84] fix: dictionaries whose keys all belong to a config
 without conversion were not converted from the others they fit

---
 sd_mecha/conversion.py | 6 +++++-
 sd_mecha/merging.py    | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index 1a1d081..f2baacd 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -52,7 +52,11 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
     tgt_config = config if isinstance(config, str) else config.identifier
 
     if isinstance(recipe, Mapping):
-        possible_configs = infer_model_configs(recipe)
+        # the search must not stop at a config that has no conversion
+        possible_configs = [
+            sorted(s, key=lambda cfg: cfg.identifier, reverse=True)
+            for s in infer_model_configs(recipe, break_early=False)
+        ]
         for possible_config in (cfg for s in possible_configs for cfg in s):
             res = create_conversion_recipe(recipe, converter_paths, possible_config.identifier, tgt_config)
             if res is not None:
diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 3eec852..28eb26c 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -498,7 +498,7 @@ def is_config_stub(config: Optional[model_configs.ModelConfig]) -> bool:
     return getattr(config, "identifier", None) in (None, model_configs.INFER.identifier)
 
 
-def infer_model_configs(state_dict: Iterable[str]) -> List[Set[ModelConfig]]:
+def infer_model_configs(state_dict: Iterable[str], break_early: bool = True) -> List[Set[ModelConfig]]:
     state_dict_set = set(state_dict)
     configs_affinity = {}
 
@@ -510,7 +510,7 @@ def infer_model_configs(state_dict: Iterable[str]) -> List[Set[ModelConfig]]:
         if len(matched_keys) >= len(state_dict_set) * 0.1:
             configs_affinity[model_config] = len(matched_keys)
         # heuristic: break early if we match more than 90% of the keys of a config
-        if len(matched_keys) == len(state_dict_set) and len(matched_keys) >= len(model_config.keys()) * 0.9:
+        if break_early and len(matched_keys) == len(state_dict_set) and len(matched_keys) >= len(model_config.keys()) * 0.9:
             break
 
     best_configs = sorted((
-- 
2.43.0


From 8628b70f279e71b560eb2581b7af58326652c691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:54 +0000
Subject: [PATCH 83/84] fix: the config that a parameter declares was missed if
 another config with all the keys of the model came first

---
 sd_mecha/merging.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 28eb26c..63011a3 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -469,7 +469,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
         config = node.model_config
         if config is None or config == model_configs.INFER:
             self.undetermined_configs.append((node, config))
-            inferred_model_configs = infer_model_configs(metadata)
+            inferred_model_configs = infer_model_configs(metadata, self.param_config)
             if any(self.param_config in cfgs for cfgs in inferred_model_configs):
                 config = self.param_config
             elif inferred_model_configs and len(inferred_model_configs[0]) == 1:
@@ -498,7 +498,7 @@ def is_config_stub(config: Optional[model_configs.ModelConfig]) -> bool:
     return getattr(config, "identifier", None) in (None, model_configs.INFER.identifier)
 
 
-def infer_model_configs(state_dict: Iterable[str], break_early: bool = True) -> List[Set[ModelConfig]]:
+def infer_model_configs(state_dict: Iterable[str], expected_config: Optional[ModelConfig] = None, break_early: bool = True) -> List[Set[ModelConfig]]:
     state_dict_set = set(state_dict)
     configs_affinity = {}
 
@@ -511,6 +511,11 @@ def infer_model_configs(state_dict: Iterable[str], break_early: bool = True) ->
             configs_affinity[model_config] = len(matched_keys)
         # heuristic: break early if we match more than 90% of the keys of a config
         if break_early and len(matched_keys) == len(state_dict_set) and len(matched_keys) >= len(model_config.keys()) * 0.9:
+            # the expected config must not be missed because it comes later, if it fits just as well
+            if expected_config is not None and state_dict_set.issubset(
+                k_alias for k, v in expected_config.keys().items() for k_alias in (k, *v.aliases)
+            ):
+                configs_affinity[expected_config] = len(matched_keys)
             break
 
     best_configs = sorted((
-- 
2.43.0


From 6e32bd32aa6b1cf050cb23536b3461fbb67a54c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:30 +0000
Subject: [PATCH 84/84] fix: lazily negated tensors were written to safetensors
 outputs with the wrong sign

---
 sd_mecha/streaming.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 6d87b1c..44ca383 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -363,7 +363,8 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 def tensor_to_bytes(tensor: torch.Tensor) -> bytes:
     # assume tensor is not sparse and is on the cpu
     # views (slices, transposes, expanded tensors, ...) do not span their whole storage in logical order
-    tensor = tensor.contiguous()
+    # and the storage of lazily negated ones (e.g. the imaginary part of a conjugate) has the opposite sign
+    tensor = tensor.resolve_neg().contiguous()
     total_bytes = tensor.numel() * tensor.element_size()
 
     ptr = tensor.data_ptr()
-- 
2.43.0

