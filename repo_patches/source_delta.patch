From c04af5d08e6cbdb7103f06d5975a21cf67b06cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:02 +0000
Subject: [PATCH 01/40] fix: treat only decimal digits as list indices in paths
 (int() rejects other isdigit() characters)

---
 conda_recipe_manager/parser/_traverse.py          | 4 ++--
 conda_recipe_manager/parser/recipe_parser.py      | 2 +-
 conda_recipe_manager/parser/recipe_parser_deps.py | 6 +++---
 conda_recipe_manager/parser/recipe_reader.py      | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index f32167c..90c7f29 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -70,7 +70,7 @@ def _traverse_recurse(node: Node, path: StrStack) -> Optional[Node]:
 
     path_part = path[-1]
     # Check if the path is attempting an array index.
-    if path_part.isdigit():
+    if path_part.isdecimal():
         # Map virtual to physical indices and perform some out-of-bounds checks.
         idx_map = remap_child_indices_virt_to_phys(node.children)
         virtual_idx = int(path_part)
@@ -138,7 +138,7 @@ def traverse_with_index(root: Node, path: StrStack) -> tuple[Optional[Node], int
     virt_idx: int = INVALID_IDX
     phys_idx: int = INVALID_IDX
     # Pre-determine if the path is targeting a list position. Patching only applies on the last index provided.
-    if path[0].isdigit():
+    if path[0].isdecimal():
         # Find the index position of the target on the parent's list
         virt_idx = int(path.pop(0))
 
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 19ce469..24f9d8c 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -374,7 +374,7 @@ class RecipeParser(RecipeReader):
             return False
 
         # Removal in all scenarios requires targeting the parent node.
-        node_idx = -1 if not path_stack[0].isdigit() else int(path_stack[0])
+        node_idx = -1 if not path_stack[0].isdecimal() else int(path_stack[0])
         # `traverse()` is destructive to the stack, so make a copy for the second traversal call.
         path_stack_copy = path_stack.copy()
         node_to_rm = traverse(self._root, path_stack)
diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 064f448..0178f40 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -51,17 +51,17 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
                 not bool(path[0])
                 and path[1] == "requirements"
                 and str_to_dependency_section(path[2]) is not None
-                and path[3].isdigit()
+                and path[3].isdecimal()
             )
 
         # Multi-output
         return (
             not bool(path[0])
             and path[1] == "outputs"
-            and path[2].isdigit()
+            and path[2].isdecimal()
             and path[3] == "requirements"
             and str_to_dependency_section(path[4]) is not None
-            and path[5].isdigit()
+            and path[5].isdecimal()
         )
 
     @staticmethod
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 782de49..09980c5 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -286,7 +286,7 @@ class RecipeReader(IsModifiable):
             return self._vars_tbl[s]
 
         # int
-        if s.isdigit():
+        if s.isdecimal():
             return int(s)
 
         # float
-- 
2.43.0


From 1b2996179bb557826b77c3dbc95df7e1566d0290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:04 +0000
Subject: [PATCH 02/40] fix: selector parser gives 'and' precedence over 'or'

---
 conda_recipe_manager/parser/selector_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/selector_parser.py b/conda_recipe_manager/parser/selector_parser.py
index e2ba136..23e11c5 100644
--- a/conda_recipe_manager/parser/selector_parser.py
+++ b/conda_recipe_manager/parser/selector_parser.py
@@ -124,8 +124,13 @@ class SelectorParser(IsModifiable):
                 # `NOT` has the highest precedence. For example:
                 #   - `not osx and win` is interpreted as `(not osx) and win`
                 #   - In Python, `not True or True` is interpreted as `(not True) or True`, returning `True`
+                # `AND` has a higher precedence than `OR`. For example:
+                #   - `osx and arm64 or win` is interpreted as `(osx and arm64) or win`
                 if node.value != LogicOp.NOT:
-                    while op_stack and op_stack[-1].value == LogicOp.NOT:
+                    while op_stack and (
+                        op_stack[-1].value == LogicOp.NOT
+                        or (op_stack[-1].value == LogicOp.AND and node.value == LogicOp.OR)
+                    ):
                         postfix_stack.append(op_stack.pop())
                 op_stack.append(node)
                 continue
-- 
2.43.0


From f8f0da347659ef0dee40063f26fa3dbaa4d8df46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 03/40] fix: report corrupt or unsupported archives as
 FetchError

---
 .../fetcher/http_artifact_fetcher.py               | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 2473478..b645a8e 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -4,8 +4,10 @@
 
 from __future__ import annotations
 
+import lzma
 import tarfile
 import zipfile
+import zlib
 from enum import Enum, auto
 from pathlib import Path
 from typing import Final, Iterator, cast
@@ -82,7 +84,17 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
                 # TODO 7-zip support
                 case _:
                     raise FetchError("The archive type could not be identified.")
-        except (tarfile.TarError, zipfile.BadZipFile, ValueError) as e:
+        # NOTE: Corrupt or truncated archives raise `EOFError` or the error of the compression library in use. Encrypted
+        # and otherwise unsupported ZIP files raise `RuntimeError`/`NotImplementedError`.
+        except (
+            tarfile.TarError,
+            zipfile.BadZipFile,
+            ValueError,
+            EOFError,
+            RuntimeError,
+            zlib.error,
+            lzma.LZMAError,
+        ) as e:
             raise FetchError("An extraction error occurred while extracting the archive.") from e
         except IOError as e:
             raise FetchError("A file system error occurred while extracting the archive.") from e
-- 
2.43.0


From 36e000dc09b090a7340de68a424badcd217128cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 04/40] fix: check out the resolved git target instead of
 always the branch

---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 2aa3c70..0c3ebab 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -104,7 +104,7 @@ class GitArtifactFetcher(BaseArtifactFetcher):
         git_target: Final[Optional[str]] = self._resolve_checkout_target()
         if git_target:
             try:
-                repo.git.checkout(self._git_target.branch, force=True)
+                repo.git.checkout(git_target, force=True)
             except git_exceptions.GitError as e:
                 raise FetchError(f"Failed to git checkout target: {git_target}") from e
 
-- 
2.43.0


From c87ebb63d5bc168897e3d5309c5d9786658944ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 05/40] fix: copy local git sources into the existing temporary
 directory

---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 0c3ebab..fca8fd1 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -65,7 +65,7 @@ class GitArtifactFetcher(BaseArtifactFetcher):
             case True:
                 return Repo.clone_from(self._git_target.url, self._temp_dir_path)  # type: ignore[misc]
             case False:
-                shutil.copytree(self._git_target.url, self._temp_dir_path)
+                shutil.copytree(self._git_target.url, self._temp_dir_path, dirs_exist_ok=True)
                 return Repo(self._temp_dir_path)
 
     def _resolve_checkout_target(self) -> Optional[str]:
-- 
2.43.0


From 01ed5b4453009dd7af2bf2fbddc6c5d8817a4d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:07 +0000
Subject: [PATCH 06/40] fix: a key that holds only an empty key is not rendered
 as a key-value pair

---
 conda_recipe_manager/parser/_node.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index 1ea2666..0eb10ad 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -155,7 +155,13 @@ class Node:
 
         :returns: True if the node represents a single key. False otherwise.
         """
-        return self.key_flag and len(self.children) == 1 and self.children[0].is_leaf()
+        return (
+            self.key_flag
+            and len(self.children) == 1
+            and self.children[0].is_leaf()
+            # An empty key is rendered on its own line.
+            and not self.children[0].key_flag
+        )
 
     def is_collection_element(self) -> bool:
         """
-- 
2.43.0


From 6e3f1849622aedaf934ad2bf98d6b9ae987dc721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 07/40] fix: stack_path_to_str() no longer consumes the
 caller's path (get_selector_paths() lost paths when called twice)

---
 conda_recipe_manager/parser/_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 1f37fc8..521fdf5 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -60,9 +60,8 @@ def stack_path_to_str(path_stack: StrStack | StrStackImmutable) -> str:
     :param path_stack: Stack to construct back into a string.
     :returns: Path, described as a string.
     """
-    # Normalize type if a tuple is given.
-    if isinstance(path_stack, tuple):
-        path_stack = list(path_stack)
+    # Normalize type if a tuple is given and ensure the caller's data is not consumed.
+    path_stack = list(path_stack)
     path = ""
     while len(path_stack) > 0:
         value = path_stack.pop()
-- 
2.43.0


From 8a970261be24057eac75bf1a184aaf148a309edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 08/40] fix: get_value() returns the mapping found at the path
 of a list element

---
 conda_recipe_manager/parser/recipe_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 09980c5..b9c47a0 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -870,7 +870,11 @@ class RecipeReader(IsModifiable):
             # NOTE: Traversing the tree and generating our own data structures will be more efficient than rendering and
             # leveraging the YAML parser, BUT this method re-uses code and is easier to maintain.
             lst: list[str] = []
-            RecipeReader._render_tree(node, -1, lst)
+            # Members of a collection element are rendered as a stand-alone mapping, without the list's `- ` prefix.
+            render_node: Final[Node] = (
+                Node(ROOT_NODE_VALUE, children=node.children) if node.is_collection_element() else node
+            )
+            RecipeReader._render_tree(render_node, -1, lst)
             return_value = "\n".join(lst)
 
         # Collection types are transformed into strings above and will need to be transformed into a proper data type.
-- 
2.43.0


From e05ee86c7cb5b4dfc1c743bb80323a1e9101743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 09/40] fix: get_value() returns a list for lists that hold a
 single non-string value

---
 conda_recipe_manager/parser/recipe_reader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index b9c47a0..66b0451 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -881,12 +881,11 @@ class RecipeReader(IsModifiable):
         # `_parse_yaml()` will also render JINJA variables for us, if requested.
         if isinstance(return_value, str):
             parser = self if sub_vars else None
-            parsed_value = RecipeReader._parse_yaml(return_value, parser)
-            # Lists containing 1 value will drop the surrounding list by the YAML parser. To ensure greater consistency
-            # and provide better type-safety, we will re-wrap such values.
-            if not isinstance(parsed_value, list) and len(node.children) == 1 and node.children[0].list_member_flag:
-                return [parsed_value]
-            return parsed_value
+            return_value = RecipeReader._parse_yaml(return_value, parser)
+        # Lists containing 1 value will drop the surrounding list by the YAML parser. To ensure greater consistency
+        # and provide better type-safety, we will re-wrap such values.
+        if not isinstance(return_value, list) and len(node.children) == 1 and node.children[0].list_member_flag:
+            return [return_value]
         return return_value
 
     def find_value(self, value: Primitives) -> list[str]:
-- 
2.43.0


From d27e16869578b38c16033dd8af5ca9a982dbc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 10/40] fix: patching an out-of-bounds list index is rejected
 instead of raising IndexError

---
 conda_recipe_manager/parser/_traverse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index 90c7f29..b9f0267 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -144,7 +144,11 @@ def traverse_with_index(root: Node, path: StrStack) -> tuple[Optional[Node], int
 
     node = traverse(root, path)
     if node is not None and virt_idx >= 0:
-        phys_idx = remap_child_indices_virt_to_phys(node.children)[virt_idx]
+        idx_map = remap_child_indices_virt_to_phys(node.children)
+        # There is no physical position for an index that is out-of-bounds.
+        if virt_idx >= len(idx_map):
+            return node, virt_idx, INVALID_IDX
+        phys_idx = idx_map[virt_idx]
 
         # If the node in a list is a "Collection Element", we want return that node and not the parent that contains
         # the list. Collection Nodes are abstract containers that will contain the rest of
-- 
2.43.0


From 7637e2fc963883acae2453c683421b03cfef63fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 11/40] fix: patch add only creates keys in mappings and only
 appends to lists

---
 conda_recipe_manager/parser/recipe_parser.py | 37 ++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 24f9d8c..c6de967 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -285,6 +285,28 @@ class RecipeParser(RecipeReader):
 
         return True
 
+    @staticmethod
+    def _is_mapping_node(node: Node) -> bool:
+        """
+        Indicates if new keys can be added to a node. Keys that have no value yet can be turned into a mapping.
+
+        :param node: Target node to validate
+        :returns: True if the node represents a mapping. False otherwise.
+        """
+        if not node.is_root() and not node.key_flag and not node.is_collection_element():
+            return False
+        return all(child.key_flag or child.is_comment() for child in node.children)
+
+    @staticmethod
+    def _is_list_node(node: Node) -> bool:
+        """
+        Indicates if a node can be appended to. Keys that have no value yet can be turned into a list.
+
+        :param node: Target node to validate
+        :returns: True if the node represents a list. False otherwise.
+        """
+        return node.key_flag and all(child.list_member_flag or child.is_comment() for child in node.children)
+
     def _patch_add_find_target(self, path_stack: StrStack) -> tuple[Optional[Node], int, int, str, bool]:
         """
         Finds the target node of an `add()` operation, along with some supporting information.
@@ -307,14 +329,25 @@ class RecipeParser(RecipeReader):
             append_to_list = True
 
         path_stack_copy = path_stack.copy()
-        node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack)
+        node: Optional[Node]
+        if append_to_list:
+            node, virt_idx, phys_idx = traverse(self._root, path_stack), INVALID_IDX, INVALID_IDX
+        else:
+            node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack)
         # Attempt to run a second time, if no node is found. As per the RFC, the containing object/list must exist. That
         # allows us to create only 1 level in the path.
         path_to_create = ""
         # NOTE: Appending to a non-existent list is effectively adding a second level and disallowed by the RFC.
         if node is None and not append_to_list:
             path_to_create = path_stack_copy.pop(0)
-            node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack_copy)
+            node, virt_idx, phys_idx = traverse(self._root, path_stack_copy), INVALID_IDX, INVALID_IDX
+
+        # A new key can only be added to a mapping and only lists can be appended to.
+        if node is not None and (
+            (path_to_create and not RecipeParser._is_mapping_node(node))
+            or (append_to_list and not RecipeParser._is_list_node(node))
+        ):
+            return None, INVALID_IDX, INVALID_IDX, "", False
 
         return node, virt_idx, phys_idx, path_to_create, append_to_list
 
-- 
2.43.0


From b31e12335b179d7a0d66e5e13330e5222ffe7fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 12/40] fix: patching the index of a mapping in a list
 addresses the list position instead of overwriting the mapping

---
 conda_recipe_manager/parser/_traverse.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index b9f0267..a123964 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -150,11 +150,6 @@ def traverse_with_index(root: Node, path: StrStack) -> tuple[Optional[Node], int
             return node, virt_idx, INVALID_IDX
         phys_idx = idx_map[virt_idx]
 
-        # If the node in a list is a "Collection Element", we want return that node and not the parent that contains
-        # the list. Collection Nodes are abstract containers that will contain the rest of
-        if node.children[phys_idx].is_collection_element():
-            return node.children[phys_idx], INVALID_IDX, INVALID_IDX
-
     return node, virt_idx, phys_idx
 
 
-- 
2.43.0


From f3869cd88ff86b32ff131a156cf63692ff326f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 13/40] fix: a patch move that can not be completed restores
 the value it removed

---
 conda_recipe_manager/parser/recipe_parser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index c6de967..9453d5d 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -486,7 +486,18 @@ class RecipeParser(RecipeReader):
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
-        return self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value)
+        # The removal can invalidate the target (i.e. the target is inside of the value moved or list positions shifted).
+        # In that event, the removed value must not be lost.
+        stack_from: Final[StrStack] = str_to_stack_path(value_from)
+        parent: Final[Optional[Node]] = traverse(self._root, stack_from[1:])
+        original_children: Final[list[Node]] = [] if parent is None else parent.children.copy()
+        if not self._patch_remove(stack_from):
+            return False
+        if self._patch_add(path_stack, original_value):
+            return True
+        if parent is not None:
+            parent.children = original_children
+        return False
 
     def _patch_copy(self, path_stack: StrStack, value_from: str) -> bool:
         """
-- 
2.43.0


From ca62b4fa99c37b250764f4b3abe050e34b7427f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 14/40] fix: empty lists and mappings can be parsed as values,
 so patching them in no longer raises IndexError

---
 conda_recipe_manager/parser/recipe_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 66b0451..8fcf203 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -160,7 +160,7 @@ class RecipeReader(IsModifiable):
 
         # If a dictionary is returned, we have a line containing a key and potentially a value. There should only be 1
         # key/value pairing in 1 line. Nodes representing keys should be flagged for handling edge cases.
-        if isinstance(output, dict):
+        if isinstance(output, dict) and output:
             children: list[Node] = []
             key = list(output.keys())[0]
             # If the value returned is None, there is no leaf node to set
@@ -169,7 +169,7 @@ class RecipeReader(IsModifiable):
                 children.append(Node(cast(Primitives, output[key]), comment))
             return Node(key, comment, children, key_flag=True)
         # If a list is returned, then this line is a listed member of the parent Node
-        if isinstance(output, list):
+        if isinstance(output, list) and output:
             # The full line is a comment
             if s.startswith("#"):
                 # Comments are list members to ensure indentation
@@ -181,7 +181,7 @@ class RecipeReader(IsModifiable):
             # multi-output recipe files so we need to support the scenario here.
             #
             # `PKG-3006` tracks an investigation effort into what we need to support for our purposes.
-            if isinstance(output[0], dict):
+            if isinstance(output[0], dict) and output[0]:
                 # Build up the key-and-potentially-value pair nodes first
                 key_children: list[Node] = []
                 key = list(output[0].keys())[0]
-- 
2.43.0


From b934b3ecb3e8ca19b8e70757d34c9b06aae5079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 15/40] fix: a patch with a value that can not be written as
 YAML is rejected instead of raising parser errors

---
 conda_recipe_manager/parser/recipe_parser.py | 22 ++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 9453d5d..1736248 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -21,6 +21,7 @@ import difflib
 import re
 from typing import Final, Optional, TypeGuard, cast
 
+import yaml
 from jsonschema import validate as schema_validate
 
 from conda_recipe_manager.parser._node import Node
@@ -351,6 +352,19 @@ class RecipeParser(RecipeReader):
 
         return node, virt_idx, phys_idx, path_to_create, append_to_list
 
+    @staticmethod
+    def _generate_patch_subtree(value: JsonType) -> Optional[list[Node]]:
+        """
+        Generates the nodes that represent a value provided by a patch.
+
+        :param value: Value to generate nodes from.
+        :returns: A list of nodes. `None` if the value can not be represented in a recipe file.
+        """
+        try:
+            return RecipeReader._generate_subtree(value)
+        except (yaml.YAMLError, IndexError):
+            return None
+
     def _patch_add(self, path_stack: StrStack, value: JsonType) -> bool:
         """
         Performs a JSON patch `add` operation.
@@ -374,7 +388,9 @@ class RecipeParser(RecipeReader):
         if path_to_create:
             value = {path_to_create: value}
 
-        new_children: list[Node] = RecipeReader._generate_subtree(value)
+        new_children = RecipeParser._generate_patch_subtree(value)
+        if new_children is None:
+            return False
         # Mark children as list members if they are list members
         if append_to_list or phys_idx > INVALID_IDX:
             # Adding an object to a list requires the children to be wrapped in a collection node
@@ -443,7 +459,9 @@ class RecipeParser(RecipeReader):
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
-        new_children: list[Node] = RecipeReader._generate_subtree(value)
+        new_children = RecipeParser._generate_patch_subtree(value)
+        if new_children is None:
+            return False
         # Lists inject all children at the target position.
         if phys_idx > INVALID_IDX:
             # Adding an object to a list requires the children to be wrapped in a collection node
-- 
2.43.0


From de8d04fd9130bc508ed67cc715ee3e9094c938ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 16/40] fix: the empty path addresses the root instead of
 raising IndexError

---
 conda_recipe_manager/parser/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 521fdf5..a8e917e 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -42,7 +42,7 @@ def str_to_stack_path(path: str) -> StrStack:
     # TODO reduce 3 (O)n operations to 1 O(n) operation
 
     # Wipe the trailing `/`, if provided. It doesn't have meaning here; only the `root` path is tracked.
-    if path[-1] == ROOT_NODE_VALUE:
+    if path and path[-1] == ROOT_NODE_VALUE:
         path = path[:-1]
     parts = path.split("/")
     # Replace empty strings with `/` for compatibility in other functions.
-- 
2.43.0


From 9a8672bc81cf7e5219c2397b9db097f630683ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:43 +0000
Subject: [PATCH 17/40] fix: a patch can not move a value into itself

---
 conda_recipe_manager/parser/recipe_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 1736248..24b4605 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -504,9 +504,13 @@ class RecipeParser(RecipeReader):
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
-        # The removal can invalidate the target (i.e. the target is inside of the value moved or list positions shifted).
-        # In that event, the removed value must not be lost.
+        # NOTE from the RFC: "The 'from' location MUST NOT be a proper prefix of the 'path' location"
         stack_from: Final[StrStack] = str_to_stack_path(value_from)
+        if len(path_stack) > len(stack_from) and path_stack[-len(stack_from) :] == stack_from:
+            return False
+
+        # The removal can invalidate the target (i.e. list positions shifted). In that event, the removed value must not
+        # be lost.
         parent: Final[Optional[Node]] = traverse(self._root, stack_from[1:])
         original_children: Final[list[Node]] = [] if parent is None else parent.children.copy()
         if not self._patch_remove(stack_from):
-- 
2.43.0


From 8e911a90036938db84bbeb914252341e79085ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:43 +0000
Subject: [PATCH 18/40] fix: moving a path onto itself is a no-op regardless of
 how the path is spelled

---
 conda_recipe_manager/parser/recipe_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 24b4605..28bbce0 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -615,7 +615,7 @@ class RecipeParser(RecipeReader):
 
         # A no-op move is silly, but we might as well make it efficient AND ensure a no-op move doesn't corrupt our
         # modification flag.
-        if op == "move" and path == patch["from"]:
+        if op == "move" and str_to_stack_path(path) == str_to_stack_path(cast(str, patch["from"])):
             return True
 
         # Both versions of the path are sent over so that the op can easily use both private and public functions
-- 
2.43.0


From 6fe985ed9e0e2be37af27ea48d8c724bb04a15e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:45 +0000
Subject: [PATCH 19/40] fix: editing the comment of a section does not
 overwrite the comment of its only list member

---
 conda_recipe_manager/parser/recipe_parser.py  | 32 ++++++++++---------
 .../parser/recipe_parser_deps.py              |  3 ++
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 28bbce0..cf90b67 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -117,6 +117,20 @@ class RecipeParser(RecipeReader):
         del self._vars_tbl[var]
         self._is_modified = True
 
+    def _set_line_comment(self, path: str, node: Node, comment: str) -> None:
+        """
+        Sets the comment of the line that a node is found on. Some lines of YAML correspond to multiple nodes. For
+        consistency, we need to ensure that comments are duplicated across all nodes on a line.
+
+        :param path: Path to the node
+        :param node: Node found at the path
+        :param comment: Comment to set
+        """
+        node.comment = comment
+        # A key and its value share a line. The only member of a list, however, is found on its own line.
+        if node.is_single_key() and not node.children[0].list_member_flag:
+            node.children[0].comment = comment
+
     ## Selector Editing Functions ##
     def add_selector(
         self, path: str, selector: str | SelectorParser, mode: SelectorConflictMode = SelectorConflictMode.REPLACE
@@ -163,11 +177,7 @@ class RecipeParser(RecipeReader):
             # Strip the existing comment of it's leading `#` symbol
             comment = f"# {selector} " + node.comment.replace("#", "", 1).strip()
 
-        node.comment = comment
-        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
-        # duplicate across all nodes on a line.
-        if node.is_single_key():
-            node.children[0].comment = comment
+        self._set_line_comment(path, node, comment)
 
         self._rebuild_selectors()
         self._is_modified = True
@@ -200,11 +210,7 @@ class RecipeParser(RecipeReader):
         if comment.strip() == "#":
             comment = ""
 
-        node.comment = comment
-        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
-        # duplicate across all nodes on a line.
-        if node.is_single_key():
-            node.children[0].comment = comment
+        self._set_line_comment(path, node, comment)
 
         self._rebuild_selectors()
         self._is_modified = True
@@ -246,11 +252,7 @@ class RecipeParser(RecipeReader):
         # Prepend a `#` if it is missing
         if comment[0] != "#":
             comment = f"# {comment}"
-        node.comment = comment
-        # Comments for "single key" nodes apply to both the parent and child. This is because such parent nodes render
-        # on the same line as their children.
-        if node.is_single_key():
-            node.children[0].comment = comment
+        self._set_line_comment(path, node, comment)
         self._is_modified = True
 
     ## YAML Patching Functions ##
diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 0178f40..91db9bc 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -202,6 +202,9 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
             # patch, so we know we can make assume a dependency list exists.
             if sel_path.endswith("/-"):
                 sel_path = sel_path[0:-1] + str(len(cast(list[str], self.get_value(base_path))) - 1)
+            # The selector applies to the only dependency in a new section, not to the section itself.
+            elif is_new_section:
+                sel_path = f"{base_path}/0"
             self.add_selector(sel_path, dep.selector, mode=sel_mode)
         return patch_success
 
-- 
2.43.0


From c5ed22ca28c7a01e15d78160c69a689620f16a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:45 +0000
Subject: [PATCH 20/40] fix: add_comment() updates the selector table

---
 conda_recipe_manager/parser/recipe_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index cf90b67..96694e6 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -253,6 +253,8 @@ class RecipeParser(RecipeReader):
         if comment[0] != "#":
             comment = f"# {comment}"
         self._set_line_comment(path, node, comment)
+        # Bracketed text in a comment can be interpreted as a selector.
+        self._rebuild_selectors()
         self._is_modified = True
 
     ## YAML Patching Functions ##
-- 
2.43.0


From 1fce87687c4bc18d370d8ea203f8f5358342acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:46 +0000
Subject: [PATCH 21/40] fix: selectors and comments of a list member that is a
 mapping are kept on the line they are set on

---
 conda_recipe_manager/parser/recipe_parser.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 96694e6..1a171df 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -126,10 +126,19 @@ class RecipeParser(RecipeReader):
         :param node: Node found at the path
         :param comment: Comment to set
         """
-        node.comment = comment
-        # A key and its value share a line. The only member of a list, however, is found on its own line.
-        if node.is_single_key() and not node.children[0].list_member_flag:
-            node.children[0].comment = comment
+        line_nodes: Final[list[Node]] = [node]
+        # A list member that is a mapping shares its line with the first key of that mapping.
+        parent: Final[Optional[Node]] = traverse(self._root, str_to_stack_path(path)[1:])
+        if node.is_collection_element():
+            line_nodes.append(node.children[0])
+        elif parent is not None and parent.is_collection_element() and parent.children[0] is node:
+            line_nodes.append(parent)
+
+        for line_node in line_nodes:
+            line_node.comment = comment
+            # A key and its value share a line. The only member of a list, however, is found on its own line.
+            if line_node.is_single_key() and not line_node.children[0].list_member_flag:
+                line_node.children[0].comment = comment
 
     ## Selector Editing Functions ##
     def add_selector(
-- 
2.43.0


From 1e1551cc39f15ec47fd4822f2e34b3441bf9c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 22/40] fix: the root path converts back to the root path

---
 conda_recipe_manager/parser/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index a8e917e..5bc32a3 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -62,6 +62,8 @@ def stack_path_to_str(path_stack: StrStack | StrStackImmutable) -> str:
     """
     # Normalize type if a tuple is given and ensure the caller's data is not consumed.
     path_stack = list(path_stack)
+    if path_stack == [ROOT_NODE_VALUE]:
+        return ROOT_NODE_VALUE
     path = ""
     while len(path_stack) > 0:
         value = path_stack.pop()
-- 
2.43.0


From 74472466811c07c18e3e94d7b2c5adf3688a81c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 23/40] fix: get_variable() hands out copies of variables that
 are collections

---
 conda_recipe_manager/parser/recipe_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 8fcf203..8138a69 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -6,6 +6,7 @@
 from __future__ import annotations
 
 import ast
+import copy
 import hashlib
 import json
 import re
@@ -1052,7 +1053,8 @@ class RecipeReader(IsModifiable):
             if default == RecipeReader._sentinel or isinstance(default, SentinelType):
                 raise KeyError
             return default
-        return self._vars_tbl[var]
+        # Collections are copied so that callers don't accidentally modify a private member variable.
+        return copy.deepcopy(self._vars_tbl[var])
 
     def get_variable_references(self, var: str) -> list[str]:
         """
-- 
2.43.0


From 223a18a90782f25f9592a7d9cadd8ad0ed9a2a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:56 +0000
Subject: [PATCH 24/40] fix: dependency sections without a value and non-string
 dependencies no longer break dependency queries

---
 .../parser/recipe_parser_deps.py              |  2 +-
 conda_recipe_manager/parser/recipe_reader.py  | 22 +++++++++++++------
 .../parser/recipe_reader_deps.py              | 10 ++++++++-
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 91db9bc..a64e9a7 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -170,7 +170,7 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
 
         # TODO: Add a "get dependencies at path" function to `RecipeReaderDeps`
         cur_deps: Final[list[Optional[str]]] = cast(
-            list[Optional[str]], self.get_value(base_path, sub_vars=True, default=[])
+            list[Optional[str]], self._get_list_members(base_path, sub_vars=True)
         )
 
         # Check for duplicate dependencies, if applicable.
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 8138a69..f3ae881 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -889,6 +889,17 @@ class RecipeReader(IsModifiable):
             return [return_value]
         return return_value
 
+    def _get_list_members(self, path: str, sub_vars: bool = False) -> list[JsonType]:
+        """
+        Retrieves the members of a list at a given path.
+
+        :param path: Path to the list
+        :param sub_vars: (Optional) If set to True, Jinja template variables will be "rendered".
+        :returns: The members of the list. Keys that are not found or do not hold a list have no members.
+        """
+        value: Final[JsonType] = self.get_value(path, default=[], sub_vars=sub_vars)
+        return value if isinstance(value, list) else []
+
     def find_value(self, value: Primitives) -> list[str]:
         """
         Given a value, find all the paths that contain that value.
@@ -959,8 +970,7 @@ class RecipeReader(IsModifiable):
         """
         paths: list[str] = ["/"]
 
-        outputs: Final[list[str]] = cast(list[str], self.get_value("/outputs", []))
-        for i in range(len(outputs)):
+        for i in range(len(self._get_list_members("/outputs"))):
             paths.append(f"/outputs/{i}")
 
         return paths
@@ -1004,18 +1014,16 @@ class RecipeReader(IsModifiable):
         def _scan_requirements(path_prefix: str = "") -> None:
             for section in req_sections:
                 section_path = f"{path_prefix}/requirements/{section}"
-                # Relying on `get_value()` ensures that we will only examine literal values and ignore comments
+                # Relying on `_get_list_members()` ensures that we will only examine literal values and ignore comments
                 # in-between dependencies.
-                dependencies = cast(list[str], self.get_value(section_path, []))
-                for i in range(len(dependencies)):
+                for i in range(len(self._get_list_members(section_path))):
                     paths.append(f"{section_path}/{i}")
 
         # Scan for both multi-output and non-multi-output recipes. Here is an example of a recipe that has both:
         #   https://github.com/AnacondaRecipes/curl-feedstock/blob/master/recipe/meta.yaml
         _scan_requirements()
 
-        outputs = cast(list[JsonType], self.get_value("/outputs", []))
-        for i in range(len(outputs)):
+        for i in range(len(self._get_list_members("/outputs"))):
             _scan_requirements(f"/outputs/{i}")
 
         return paths
diff --git a/conda_recipe_manager/parser/recipe_reader_deps.py b/conda_recipe_manager/parser/recipe_reader_deps.py
index feefba4..facf83d 100644
--- a/conda_recipe_manager/parser/recipe_reader_deps.py
+++ b/conda_recipe_manager/parser/recipe_reader_deps.py
@@ -52,7 +52,8 @@ class RecipeReaderDeps(RecipeReader):
         if dep is None:
             return None
 
-        dep = dep.strip()
+        # YAML may not interpret a dependency as a string
+        dep = str(dep).strip()
         if not dep:
             return None
 
@@ -123,12 +124,19 @@ class RecipeReaderDeps(RecipeReader):
                 self.get_value(RecipeReader.append_to_path(path, "/requirements"), default={}, sub_vars=True),
             )
             dep_map[package] = []
+            # The `/requirements` key may not have a value
+            if not isinstance(requirements, dict):
+                continue
             for section_str, deps in requirements.items():
                 section = str_to_dependency_section(section_str)
                 # Unrecognized sections will be skipped as "junk" data
                 if section is None:
                     continue
 
+                # Sections may not have a value
+                if not isinstance(deps, list):
+                    continue
+
                 for i, dep in enumerate(deps):
                     dep = RecipeReaderDeps._sanitize_dep(dep)
                     if dep is None:
-- 
2.43.0


From 2d7f941f03351c60124d735b8e6db26f76b57295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:26 +0000
Subject: [PATCH 25/40] fix: an empty CBC file defines no variables

---
 conda_recipe_manager/parser/cbc_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/parser/cbc_parser.py b/conda_recipe_manager/parser/cbc_parser.py
index 09489b0..75ede83 100644
--- a/conda_recipe_manager/parser/cbc_parser.py
+++ b/conda_recipe_manager/parser/cbc_parser.py
@@ -61,6 +61,9 @@ class CbcParser(RecipeReader):
         #                selectors is available (so py>=38 and py<=310 wouldn't work). To be confirmed though."
 
         parsed_contents: Final[_CbcType] = cast(_CbcType, self.get_value("/"))
+        # Files without any keys do not define any variables.
+        if not isinstance(parsed_contents, dict):
+            return
         for variable, value_list in parsed_contents.items():
             if not isinstance(value_list, list):
                 continue
-- 
2.43.0


From 62c4017cb274ce2ea1e67042ce041aae20645f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:30 +0000
Subject: [PATCH 26/40] fix: dependencies that are unresolved variables are
 matched by name however they are escaped

---
 conda_recipe_manager/parser/recipe_parser_deps.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index a64e9a7..b902468 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -9,6 +9,7 @@ from typing import Final, Optional, cast
 from conda_recipe_manager.parser.dependency import (
     Dependency,
     DependencyConflictMode,
+    DependencyData,
     dependency_data_from_str,
     dependency_data_render_as_str,
     str_to_dependency_section,
@@ -83,6 +84,18 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
             return base_path
         return f"{base_path}/-"
 
+    @staticmethod
+    def _is_same_name(lhs: DependencyData, rhs: DependencyData) -> bool:
+        """
+        Indicates if two dependencies have the same name.
+
+        :param lhs: First dependency to compare.
+        :param rhs: Second dependency to compare.
+        :returns: True if the dependencies have the same name. False otherwise.
+        """
+        # Unresolved variables may or may not be `$`-escaped. See `RecipeReader.get_value()` for more details.
+        return cast(str, lhs.name).replace("${{", "{{") == cast(str, rhs.name).replace("${{", "{{")
+
     def _calc_is_new_section(self, base_path: str) -> Optional[bool]:
         """
         Determines if a new dependency section (`run`, `host`, etc) need to be added.
@@ -181,7 +194,7 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
                     continue
 
                 cur_data = dependency_data_from_str(cur_dep)
-                if cast(str, cur_data.name) != cast(str, dep.data.name):
+                if not RecipeParserDeps._is_same_name(cur_data, dep.data):
                     continue
 
                 # If we have a name match, act according to the conflict mode
-- 
2.43.0


From fff41b3d6f421a54294a90c557711f37356ef7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:30 +0000
Subject: [PATCH 27/40] fix: a dependency that can not be added leaves the
 comment of the existing one alone

---
 conda_recipe_manager/parser/recipe_parser_deps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index b902468..667c314 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -141,7 +141,8 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
 
         patch_success = self.patch({"op": patch_op, "path": patch_path, "value": value})
 
-        if preserve_sel is not None:
+        # A failed patch must not change the recipe
+        if patch_success and preserve_sel is not None:
             self.add_selector(patch_path, preserve_sel)
 
         return patch_success
-- 
2.43.0


From 841bb18ebcb9eedbcab65b98a8ade1c175c11155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 28/40] fix: bumping to a new version resets the build number
 even if --build-num is given

---
 conda_recipe_manager/commands/bump_recipe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index a92a213..d897d54 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -388,7 +388,7 @@ def bump_recipe(
         sys.exit(ExitCode.PARSE_EXCEPTION)
 
     # Attempt to update fields
-    _update_build_num(recipe_parser, build_num)
+    _update_build_num(recipe_parser, build_num and target_version is None)
 
     # NOTE: We check if `target_version` is specified to perform a "full bump" for type checking reasons. Also note that
     # the `build_num` flag is invalidated if we are bumping to a new version. The build number must be reset to 0 in
-- 
2.43.0


From 571e32c942f005b650959bb80136a0adec1e8ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 29/40] fix: get_messages() hands out a copy of the messages

---
 conda_recipe_manager/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/types.py b/conda_recipe_manager/types.py
index e7e2367..e721f1c 100644
--- a/conda_recipe_manager/types.py
+++ b/conda_recipe_manager/types.py
@@ -103,7 +103,8 @@ class MessageTable:
         """
         if category not in self._tbl:
             return []
-        return self._tbl[category]
+        # Returned as a copy, so that callers can't modify the table.
+        return self._tbl[category].copy()
 
     def get_message_count(self, category: MessageCategory) -> int:
         """
-- 
2.43.0


From a528f81eb0ae2c0921a279bd5bce3e1384cceaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 30/40] fix: a converted recipe that can not be written is
 recorded as a failure instead of raising

---
 conda_recipe_manager/commands/convert.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index 357443f..bc8d417 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -164,8 +164,13 @@ def convert_file(file_path: Path, output: Optional[Path], print_output: bool, de
             "WARNING: File is not called `recipe.yaml`.",
             print_enabled=print_output and os.path.basename(output) != "recipe.yaml",
         )
-        with open(output, "w", encoding="utf-8") as fptr:
-            fptr.write(conversion_result.content)
+        try:
+            with open(output, "w", encoding="utf-8") as fptr:
+                fptr.write(conversion_result.content)
+        except Exception as e:  # pylint: disable=broad-exception-caught
+            return _record_unrecoverable_failure(
+                conversion_result, ExitCode.IO_ERROR, f"EXCEPTION: Failed to write: {output}", print_output, e
+            )
 
     conversion_result.set_return_code()
     return conversion_result
-- 
2.43.0


From bb1e5c5d07719a09f4a13f711b422242e0504cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 31/40] fix: every kind of unrecoverable conversion failure is
 counted in bulk conversions

---
 conda_recipe_manager/commands/convert.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index bc8d417..a834b24 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -22,6 +22,16 @@ from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConver
 from conda_recipe_manager.parser.types import V0_FORMAT_RECIPE_FILE_NAME, V1_FORMAT_RECIPE_FILE_NAME
 from conda_recipe_manager.types import MessageCategory, MessageTable
 
+# Exit codes that indicate that a recipe file could not be converted at all.
+_UNRECOVERABLE_FAILURES: Final[set[ExitCode]] = {
+    ExitCode.IO_ERROR,
+    ExitCode.PARSE_EXCEPTION,
+    ExitCode.RENDER_EXCEPTION,
+    ExitCode.READ_EXCEPTION,
+    ExitCode.PRE_PROCESS_EXCEPTION,
+    ExitCode.ILLEGAL_OPERATION,
+}
+
 # When performing a bulk operation, overall "success" is indicated by the % of recipe files that were converted
 # "successfully"
 DEFAULT_BULK_SUCCESS_PASS_THRESHOLD: Final[float] = 0.80
@@ -311,7 +321,7 @@ def convert(
     num_recipe_success: int = 0
 
     for project_name, result in results.items():
-        if result.code in {ExitCode.PARSE_EXCEPTION, ExitCode.READ_EXCEPTION, ExitCode.RENDER_EXCEPTION}:
+        if result.code in _UNRECOVERABLE_FAILURES:
             recipes_with_except.append(project_name)
             exceptions = result.msg_tbl.get_messages(MessageCategory.EXCEPTION)
             for exception in exceptions:
-- 
2.43.0


From 20da05f9acc6d35a591e1643cd38fdcfa7702d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:06 +0000
Subject: [PATCH 32/40] fix: sources without any key-value pairs are reported
 as unsupported instead of raising AttributeError

---
 conda_recipe_manager/fetcher/artifact_fetcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conda_recipe_manager/fetcher/artifact_fetcher.py b/conda_recipe_manager/fetcher/artifact_fetcher.py
index e1384ed..d8bc73a 100644
--- a/conda_recipe_manager/fetcher/artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/artifact_fetcher.py
@@ -79,6 +79,10 @@ def from_recipe(recipe: RecipeReader, ignore_unsupported: bool = False) -> dict[
         recipe_name = "Unknown Recipe"
 
     for i, parsed_source in enumerate(parsed_sources):
+        # Sources that are not described by key-value pairs are not supported.
+        if not isinstance(parsed_source, dict):
+            parsed_source = {}
+
         # NOTE: `optional_str()` is used to force evaluation of potentially unknown types to strings for input
         #       sanitation purposes.
         # NOTE: `url` is the same for both V0 and V1 formats.
-- 
2.43.0


From 310e0391c7b19ebebd547c6cd432c623edc5bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 33/40] fix: a list is not patched into another list, which a
 recipe file can not represent

---
 conda_recipe_manager/parser/recipe_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 1a171df..d7c73bf 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -401,6 +401,10 @@ class RecipeParser(RecipeReader):
         if path_to_create:
             value = {path_to_create: value}
 
+        # Recipe files have no representation for a list that is directly contained by another list.
+        if (append_to_list or phys_idx > INVALID_IDX) and isinstance(value, list):
+            return False
+
         new_children = RecipeParser._generate_patch_subtree(value)
         if new_children is None:
             return False
@@ -472,6 +476,10 @@ class RecipeParser(RecipeReader):
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
+        # Recipe files have no representation for a list that is directly contained by another list.
+        if phys_idx > INVALID_IDX and isinstance(value, list):
+            return False
+
         new_children = RecipeParser._generate_patch_subtree(value)
         if new_children is None:
             return False
-- 
2.43.0


From 70658e31af3b3b1a98c940a7d167bf73b5c1d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:11 +0000
Subject: [PATCH 34/40] fix: URLs that are rejected by the HTTP library are
 reported as FetchError

---
 conda_recipe_manager/fetcher/http_artifact_fetcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index b645a8e..f8ba5c3 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -113,7 +113,8 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
                     if not chunk:
                         break
                     archive.write(chunk)
-        except requests.exceptions.RequestException as e:  # type: ignore[misc]
+        # NOTE: Some malformed URLs are only rejected by the underlying HTTP library, with a `ValueError`.
+        except (requests.exceptions.RequestException, ValueError) as e:  # type: ignore[misc]
             raise FetchError("An HTTP error occurred while fetching the archive.") from e
         except IOError as e:
             raise FetchError("A file system error occurred while fetching the archive.") from e
-- 
2.43.0


From 2e09994176a1d5d7cbcca7f14d325a7d5f23bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:11 +0000
Subject: [PATCH 35/40] fix: a malformed archive URL is reported by fetch()
 instead of failing to construct the fetcher

---
 conda_recipe_manager/fetcher/http_artifact_fetcher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index f8ba5c3..2ea06d7 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -57,7 +57,11 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
         # with archives with many different file extensions. To avoid the many pitfalls here of trying to calculate the
         # "true basename" of the file, we just pre-pend `extracted_` to indicate this is the folder containing the
         # extracted archive.
-        archive_file_name: Final[str] = Path(urlparse(self._archive_url).path).name
+        try:
+            archive_file_name = Path(urlparse(self._archive_url).path).name
+        except ValueError:
+            # Malformed URLs are reported when the archive is fetched.
+            archive_file_name = "archive"
         extracted_dir_name: Final[str] = f"extracted_{archive_file_name}"
 
         self._archive_path: Final[Path] = self._temp_dir_path / archive_file_name
-- 
2.43.0


From 9ea89f63c54d98fc3d5363e02b8db94119a1d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 36/40] fix: artifact names that contain a path separator no
 longer prevent creating a fetcher

---
 conda_recipe_manager/fetcher/base_artifact_fetcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/base_artifact_fetcher.py b/conda_recipe_manager/fetcher/base_artifact_fetcher.py
index 7ecc606..715c9db 100644
--- a/conda_recipe_manager/fetcher/base_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/base_artifact_fetcher.py
@@ -34,7 +34,9 @@ class BaseArtifactFetcher(metaclass=ABCMeta):
         self._name = name
         # NOTE: There is an open issue about this pylint edge case: https://github.com/pylint-dev/pylint/issues/7658
         self._temp_dir: Final[TemporaryDirectory[str]] = TemporaryDirectory(  # pylint: disable=consider-using-with
-            prefix=f"{_ARTIFACT_FETCHER_FILE_ID}_", suffix=f"_{self._name}"
+            # Names that come from a recipe may contain expressions with path separators.
+            prefix=f"{_ARTIFACT_FETCHER_FILE_ID}_",
+            suffix=f"_{self._name.replace('/', '_')}",
         )
         self._temp_dir_path: Final[Path] = Path(self._temp_dir.name)
         # Flag to track if `fetch()` has been called successfully once.
-- 
2.43.0


From 101906d50dc5cd5e697b4e20342f5fac7a853fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:46 +0000
Subject: [PATCH 37/40] fix: relative imports are not reported as dependencies

---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index b860230..d1789c0 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -107,11 +107,11 @@ class PythonDependencyScanner(BaseDependencyScanner):
                 # Handle multiple (comma-separated) imports on one line
                 for alias in node.names:
                     module_names.append(alias.name.split(".")[0])
-            elif node.module is not None:
+            # Relative imports (non-zero `level`) can only refer to modules in the target project.
+            elif node.level == 0 and node.module is not None:
                 module_names.append(node.module.split(".")[0])
 
             for module_name in module_names:
-                # TODO filter relative imports
                 # Filter-out the standard library modules and local module names (i.e. modules defined in the target
                 # project).
                 if not module_name or module_name in sys.stdlib_module_names or module_name in project_modules:
-- 
2.43.0


From aa5f96d96960fe9b03e56ca660ab4108e416f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:46 +0000
Subject: [PATCH 38/40] fix: python is not reported as a test dependency next
 to the run dependency

---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index d1789c0..092ac53 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -149,6 +149,10 @@ class PythonDependencyScanner(BaseDependencyScanner):
                     MessageCategory.EXCEPTION, f"Exception encountered while scanning `{file}`: {e}"
                 )
 
+        # Python is inherently a HOST and RUN dependency for all Python projects.
+        all_imports.add(new_project_dependency("python", DependencySection.HOST))
+        all_imports.add(new_project_dependency("python", DependencySection.RUN))
+
         # `RUN` dependencies are automatically added as `TEST` dependencies, so we need to filter if there are
         # (effectively) duplicates
         def _filter_test_duplicates(dep: ProjectDependency) -> bool:
@@ -166,8 +170,4 @@ class PythonDependencyScanner(BaseDependencyScanner):
 
         # TODO filter unused imports
 
-        # Python is inherently a HOST and RUN dependency for all Python projects.
-        all_imports.add(new_project_dependency("python", DependencySection.HOST))
-        all_imports.add(new_project_dependency("python", DependencySection.RUN))
-
         return all_imports
-- 
2.43.0


From ef90d025339b91496048bed94fd3c46e3e0e6123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:46 +0000
Subject: [PATCH 39/40] fix: a project file that can not be read or decoded is
 recorded as a message

---
 .../scanner/dependency/pyproject_dep_scanner.py             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
index 082f225..1149f61 100644
--- a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
@@ -43,10 +43,12 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
         try:
             with open(self._src_dir / self._project_fn, "rb") as f:
                 data = cast(dict[str, dict[str, list[str] | dict[str, list[str]]]], tomllib.load(f))
-        except (FileNotFoundError, tomllib.TOMLDecodeError) as e:
+        except (OSError, UnicodeDecodeError, tomllib.TOMLDecodeError) as e:
             if isinstance(e, FileNotFoundError):
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"`{self._project_fn}` file not found.")
-            if isinstance(e, tomllib.TOMLDecodeError):
+            elif isinstance(e, OSError):
+                self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"Could not read `{self._project_fn}` file.")
+            else:
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"Could not parse `{self._project_fn}` file.")
             return set()
 
-- 
2.43.0


From 94415c7fe8b474d926d8bc97e0da2958acd2a9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:33 +0000
Subject: [PATCH 40/40] fix: a project file with a malformed project section is
 reported instead of raising

---
 .../dependency/pyproject_dep_scanner.py       | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
index 1149f61..cd125fd 100644
--- a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
@@ -34,6 +34,16 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
         self._src_dir: Final[Path] = Path(src_dir)
         self._project_fn: Final[str] = project_file_name
 
+    @staticmethod
+    def _is_str_list(value: object) -> bool:
+        """
+        Determines if a value read from the project file is a list of strings.
+
+        :param value: Value to check
+        :returns: True if the value is a list that only contains strings. False otherwise.
+        """
+        return isinstance(value, list) and all(isinstance(item, str) for item in value)
+
     def scan(self) -> set[ProjectDependency]:
         """
         Actively scans a project for dependencies. Implementation is dependent on the type of scanner used.
@@ -60,18 +70,30 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
             )
             return set()
 
+        project: Final = data["project"]
+        if (
+            not isinstance(project, dict)
+            or not self._is_str_list(project.get("dependencies", []))
+            or not isinstance(project.get("optional-dependencies", {}), dict)
+            or not all(self._is_str_list(dep_lst) for dep_lst in project.get("optional-dependencies", {}).values())
+        ):
+            self._msg_tbl.add_message(
+                MessageCategory.ERROR, f"`{self._project_fn}` file contains an invalid `project` section."
+            )
+            return set()
+
         # NOTE: The dependency constraint system used in `pyproject.toml` appears to be compatible with `conda`'s
         # `MatchSpec` object. For now, dependencies that can't be parsed with `MatchSpec` will store the raw string in
         # a `.name` field.
         # TODO Future, consider handling Environment Markers:
         #   https://packaging.python.org/en/latest/specifications/dependency-specifiers/#environment-markers
         deps: set[ProjectDependency] = set()
-        for dep_name in cast(list[str], data["project"].get("dependencies", [])):
+        for dep_name in cast(list[str], project.get("dependencies", [])):
             deps.add(new_project_dependency(dep_name, DependencySection.RUN))
 
         # Optional dependencies are stored in a dictionary, where the key is the "package extra" name and the value is
         # a dependency list. For example: {'dev': ['pytest'], 'conda_build': ['conda-build']}
-        for dep_lst in cast(dict[str, list[str]], data["project"].get("optional-dependencies", {})).values():
+        for dep_lst in cast(dict[str, list[str]], project.get("optional-dependencies", {})).values():
             for dep_name in dep_lst:
                 deps.add(new_project_dependency(dep_name, DependencySection.RUN_CONSTRAINTS))
 
-- 
2.43.0

