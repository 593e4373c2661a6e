From 720e6ef67a11abe1184aa1fafddc6e7ad06c7e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:32 +0000
Subject: [PATCH 01/43] fix: MoL Euler method referenced a gridfunction group
 that is never declared

---
 nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
index 4bdbff9..f8f1c25 100644
--- a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
+++ b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
@@ -131,12 +131,15 @@ def generate_gridfunction_names(
         else:
             # Allocate memory for diagonal Butcher tables, which use a "y_nplus1_running_total gridfunction"
             non_y_n_gridfunctions_list.append("y_nplus1_running_total_gfs")
+            diagnostic_gridfunctions_point_to = "y_nplus1_running_total_gfs"
             if MoL_method != "Euler":
                 # Allocate memory for diagonal Butcher tables that aren't Euler
                 # Need k_odd for k_1,3,5... and k_even for k_2,4,6...
                 non_y_n_gridfunctions_list.extend(["k_odd_gfs", "k_even_gfs"])
-            diagnostic_gridfunctions_point_to = "y_nplus1_running_total_gfs"
-            diagnostic_gridfunctions2_point_to = "k_odd_gfs"
+                diagnostic_gridfunctions2_point_to = "k_odd_gfs"
+            else:
+                # Euler allocates only one gridfunction group besides y_n_gfs.
+                diagnostic_gridfunctions2_point_to = None
 
     non_y_n_gridfunctions_list.append("auxevol_gfs")
 
@@ -207,7 +210,10 @@ def register_CFunction_MoL_malloc(
         )
 
     body += f"\ngridfuncs->diagnostic_output_gfs  = gridfuncs->{diagnostic_gridfunctions_point_to};\n"
-    body += f"gridfuncs->diagnostic_output_gfs2 = gridfuncs->{diagnostic_gridfunctions2_point_to};\n"
+    if diagnostic_gridfunctions2_point_to is None:
+        body += "gridfuncs->diagnostic_output_gfs2 = NULL;\n"
+    else:
+        body += f"gridfuncs->diagnostic_output_gfs2 = gridfuncs->{diagnostic_gridfunctions2_point_to};\n"
 
     cfc.register_CFunction(
         includes=includes,
-- 
2.43.0


From d02d672593b64d615206c0bcb6ae6563d598c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:32 +0000
Subject: [PATCH 02/43] fix: superB MoL skipped boundary conditions for
 non-diagonal and RK3 methods, and all of Euler

---
 nrpy/infrastructures/superB/MoL.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index 502db8e..2b52be4 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -587,6 +587,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     + Butcher[3][2] * k2_or_y_nplus_a32_k2_gfs * dt,
                     Butcher[2][2] * k2_or_y_nplus_a32_k2_gfs * dt + y_n_gfs,
                 ],
+                post_rhs_bcs_str=post_rhs_bcs_str,
                 post_rhs_output_list=[
                     k2_or_y_nplus_a32_k2_gfs,
                     k1_or_y_nplus_a21_k1_or_y_nplus1_running_total_gfs,
@@ -683,6 +684,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     rhs_output_expr=rhs_output,
                     RK_lhs_list=[RK_lhs],
                     RK_rhs_list=[RK_rhs],
+                    post_rhs_bcs_str=post_rhs_bcs_str,
                     post_rhs_output_list=[post_rhs_output],
                     enable_simd=enable_simd,
                     gf_aliases=gf_aliases,
@@ -698,6 +700,10 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
             if (
                 MoL_method == "Euler"
             ):  # Euler's method doesn't require any k_i, and gets its own unique algorithm
+                body += r"""
+          case RK_SUBSTEP_K1:
+          {
+"""
                 body += single_RK_substep_input_symbolic(
                     comment_block="// ***Euler timestepping only requires one RHS evaluation***",
                     substep_time_offset_dt=Butcher[0][0],
@@ -712,6 +718,9 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     gf_aliases=gf_aliases,
                     post_rhs_string=post_rhs_string,
                 )
+                body += """
+          break;
+          }"""
             else:
                 for s in range(num_steps):
                     # If we're on the first step (s=0), we use y_n gridfunction as input.
-- 
2.43.0


From 164b0ceda1da35ad307a293d8f3922f9367bb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:55 +0000
Subject: [PATCH 03/43] fix: cache files were written in place, so readers and
 interrupted runs could leave or see truncated pickles

---
 nrpy/helpers/cached_functions.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/nrpy/helpers/cached_functions.py b/nrpy/helpers/cached_functions.py
index 073b37f..908e6a3 100644
--- a/nrpy/helpers/cached_functions.py
+++ b/nrpy/helpers/cached_functions.py
@@ -11,7 +11,9 @@ Author: Zachariah B. Etienne
 """
 
 import hashlib
+import os
 import pickle
+import tempfile
 from pathlib import Path
 from typing import Any, cast
 
@@ -97,6 +99,27 @@ def read_cached(unique_id: str) -> Any:
         return pickle.load(file)
 
 
+def _atomic_pickle_dump(path: Path, data: Any) -> None:
+    """
+    Pickle data into path, so that path never holds a partially written pickle.
+
+    The data are written to a temporary file in the same directory, which then
+    replaces path in a single step. Processes sharing the cache, as well as later
+    runs after an interrupted one, thus see either no file or a complete one.
+
+    :param path: The file to be (over)written.
+    :param data: The data to be pickled.
+    """
+    fd, tmp_name = tempfile.mkstemp(dir=path.parent, prefix=path.name, suffix=".tmp")
+    try:
+        with os.fdopen(fd, "wb") as file:
+            pickle.dump(data, file)
+        os.replace(tmp_name, path)
+    except BaseException:
+        os.unlink(tmp_name)
+        raise
+
+
 def write_cached(unique_id: str, data: Any) -> None:
     """
     Write data to the cache file associated with a unique ID.
@@ -110,9 +133,7 @@ def write_cached(unique_id: str, data: Any) -> None:
     True
     """
     # print(f"Writing " + str(unique_id[:80]).replace("\n", ""))
-    with open(cache_file(unique_id), "wb") as file:
-        # print(f"Writing cached file {file.name}.")
-        pickle.dump(data, file)
+    _atomic_pickle_dump(cache_file(unique_id), data)
 
 
 def cached_simplify(expr: sp.Basic) -> sp.Expr:
@@ -141,8 +162,7 @@ def cached_simplify(expr: sp.Basic) -> sp.Expr:
                 return cast(sp.Expr, pickle.load(file))
         else:
             simplified = sp.simplify(expr)
-            with open(cache_fle, "wb") as file:
-                pickle.dump(simplified, file)
+            _atomic_pickle_dump(cache_fle, simplified)
             return cast(sp.Expr, simplified)
     except pickle.PicklingError:
         return cast(sp.Expr, sp.simplify(expr))
-- 
2.43.0


From 308b8aefc7126d18d891dee29c4cc15fb5d53cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:55 +0000
Subject: [PATCH 04/43] fix: ConditionalFileUpdater overwrote files with
 partial content when generation failed, and did not create files with blank
 content

---
 nrpy/helpers/conditional_file_updater.py | 26 ++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/nrpy/helpers/conditional_file_updater.py b/nrpy/helpers/conditional_file_updater.py
index a89dc80..32d82a3 100644
--- a/nrpy/helpers/conditional_file_updater.py
+++ b/nrpy/helpers/conditional_file_updater.py
@@ -6,6 +6,7 @@ Author: Steven R. Brandt
 
 import io
 import os
+import shutil
 import sys
 from difflib import context_diff
 from pathlib import Path
@@ -77,6 +78,10 @@ class ConditionalFileUpdater:
         :param exception_value: Exception value if an exception was raised within the context.
         :param traceback: Traceback object if an exception was raised within the context.
         """
+        # If generating the content failed, keep the existing file as it is.
+        if exception_type is not None:
+            return
+
         print(f"Checking {self.fname}...", end="")
         new_content = self.fd.getvalue()
         if self.do_format:
@@ -84,12 +89,15 @@ class ConditionalFileUpdater:
 
         # Determine if the file exists and read its content if it does.
         old_content = ""
-        if os.path.exists(self.fname):
+        file_exists = os.path.exists(self.fname)
+        if file_exists:
             with open(self.fname, encoding=self.encoding) as file_descriptor:
                 old_content = file_descriptor.read()
 
         # Decide whether to write based on a comparison of stripped content.
-        should_write = new_content.strip() != old_content.strip()
+        should_write = (
+            not file_exists or new_content.strip() != old_content.strip()
+        )
 
         if should_write:
             if verbose:
@@ -103,8 +111,18 @@ class ConditionalFileUpdater:
                 )
 
             if not nochange:
-                with open(self.fname, "w", encoding=self.encoding) as file_descriptor:
-                    file_descriptor.write(new_content)
+                # Replace the file in one step, so that it is never left half-written.
+                target = os.path.realpath(self.fname)
+                temporary = f"{target}.{os.getpid()}.tmp"
+                try:
+                    with open(temporary, "w", encoding=self.encoding) as file_descriptor:
+                        file_descriptor.write(new_content)
+                    if file_exists:
+                        shutil.copymode(target, temporary)
+                    os.replace(temporary, target)
+                finally:
+                    if os.path.exists(temporary):
+                        os.unlink(temporary)
                 print(c.colorize("[written]", "red"))
         else:
             print(c.colorize("[no changes]", "green"))
-- 
2.43.0


From 5737f6f7e031aaf2e84eeb570cd063e4eb563fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:58 +0000
Subject: [PATCH 05/43] fix: Makefile object names were wrong for source paths
 containing the file extension elsewhere (e.g. subdirectory my.code)

---
 nrpy/infrastructures/BHaH/Makefile_helpers.py   | 2 +-
 nrpy/infrastructures/superB/Makefile_helpers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/Makefile_helpers.py b/nrpy/infrastructures/BHaH/Makefile_helpers.py
index 902f91d..607d61d 100644
--- a/nrpy/infrastructures/BHaH/Makefile_helpers.py
+++ b/nrpy/infrastructures/BHaH/Makefile_helpers.py
@@ -154,7 +154,7 @@ def output_CFunctions_function_prototypes_and_construct_Makefile(
 
     # Object files
     OBJ_FILES_str = "OBJ_FILES = " + " ".join(
-        c_file.replace(f".{src_code_file_ext}", ".o")
+        f"{os.path.splitext(c_file)[0]}.o"
         for c_file in sorted(Makefile_list_of_files, key=str.lower)
     )
 
diff --git a/nrpy/infrastructures/superB/Makefile_helpers.py b/nrpy/infrastructures/superB/Makefile_helpers.py
index f871f66..7ade1c4 100644
--- a/nrpy/infrastructures/superB/Makefile_helpers.py
+++ b/nrpy/infrastructures/superB/Makefile_helpers.py
@@ -161,7 +161,7 @@ def output_CFunctions_function_prototypes_and_construct_Makefile(
 
     OBJ_FILES_str = "OBJ_FILES ="
     for c_file in sorted(Makefile_list_of_files):
-        OBJ_FILES_str += " " + c_file.replace(".cpp", ".o")
+        OBJ_FILES_str += " " + os.path.splitext(c_file)[0] + ".o"
 
     LDFLAGS_str = "LDFLAGS ="
     if addl_libraries is not None:
-- 
2.43.0


From f61db22f036dc443a1e4ce877992e6c7eca449d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:00 +0000
Subject: [PATCH 06/43] fix: rank-1 gridfunction registration ignored the
 dimension, and 4D vectors got 3D parity types

---
 nrpy/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index de95448..caed0d8 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -204,7 +204,11 @@ class GridFunction:
                     if gf.rank == 0:
                         parity_type.append(0)
                     elif gf.rank == 1:
-                        parity_type.append(int(gf.name[-1]) + 1)
+                        if gf.dimension == 4:
+                            # scalar t component, vector i components
+                            parity_type.append(int(gf.name[-1]))
+                        else:
+                            parity_type.append(int(gf.name[-1]) + 1)
                     elif gf.rank == 2:
                         idx0 = gf.name[-2]
                         idx1 = gf.name[-1]
@@ -890,7 +894,7 @@ def register_gridfunctions_for_single_rank1(
 
     # Step 2: Register each gridfunction
     gf_list = []
-    for i in range(3):
+    for i in range(dimension):
         gf_list += [str(IDX_OBJ_TMP[i])]
     # Manually adjust kwargs so that basename is not checked (we're not passing the basename!),
     # and rank is set to 1.
-- 
2.43.0


From 6f3b7ed46fbb72e3336f9a40b12f1cdbfe849c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:00 +0000
Subject: [PATCH 07/43] fix: antisymmetric gridfunctions registered their zero
 and negated components as gridfunctions; rankN order followed the hash seed

---
 nrpy/grid.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index caed0d8..98996c3 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -945,7 +945,9 @@ def register_gridfunctions_for_single_rank2(
             for gf in gf_list:
                 if gf == str(IDX_OBJ_TMP[i][j]):
                     save = False
-            if save:
+            # Antisymmetric components that vanish or are minus another
+            # component (i.e., that are not plain symbols) are not independent.
+            if save and isinstance(IDX_OBJ_TMP[i][j], sp.Symbol):
                 gf_list.append(str(IDX_OBJ_TMP[i][j]))
 
     # Manually adjust kwargs so that basename is not checked (we're not passing the basename!),
@@ -1066,7 +1068,11 @@ def register_gridfunctions_for_single_rankN(
         for sublist in flatten_list(IDX_OBJ_TMP)
         for item in (sublist if isinstance(sublist, list) else [sublist])
     ]
-    unique_gf_list = list(set(map(str, flat_list)))
+    # Antisymmetric components that vanish or are minus another component
+    # (i.e., that are not plain symbols) are not independent.
+    unique_gf_list = list(
+        dict.fromkeys(str(item) for item in flat_list if isinstance(item, sp.Symbol))
+    )
 
     # Manually adjust kwargs for registration
     kwargs["is_basename"] = False
-- 
2.43.0


From 2d61cc5abd8524969147a426405de447a496e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:00 +0000
Subject: [PATCH 08/43] fix: ETLegacy gridfunctions accepted invalid groups

---
 nrpy/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index 98996c3..5b488c8 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -480,6 +480,7 @@ class ETLegacyGridFunction(GridFunction):
             wavespeed,
             is_basename,
         )
+        self.verify_gridfunction_group_is_valid()
         _gf_array_name = gf_array_name
 
     def verify_gridfunction_group_is_valid(self) -> None:
-- 
2.43.0


From 504ec5b0a3ff32fa8382c5602116ff021da967d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:01 +0000
Subject: [PATCH 09/43] fix: malformed symmetry options such as nosym01 or
 symx01 were accepted as (anti)symmetries

---
 nrpy/indexedexp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nrpy/indexedexp.py b/nrpy/indexedexp.py
index e57bbf6..18cd664 100644
--- a/nrpy/indexedexp.py
+++ b/nrpy/indexedexp.py
@@ -5,6 +5,7 @@ Authors: Zachariah Etienne, Kenneth Sible, Steven Brandt
 """
 
 # Step 1: Load needed modules
+import re
 import string
 import sys  # Standard Python module for multiplatform OS-level functions
 from typing import Any, List, Optional, Sequence, Tuple, Union, cast
@@ -251,6 +252,9 @@ def declare_indexedexp(
             raise ValueError(
                 f"Unsupported symmetry '{symmetry}' for indexed expression. Valid symmetry options must start with 'sym', 'anti', or 'nosym'"
             )
+        for sym in symmetry.split("_"):
+            if not re.fullmatch(rf"nosym|(sym|anti)[0-9]{{2,{max(rank, 2)}}}", sym):
+                raise ValueError(f"unsupported symmetry option '{sym}'")
         indexedexp = symmetrize(
             rank, cast(_rank2_type, indexedexp), symmetry, dimension
         )
-- 
2.43.0


From db4751f4291cbf9914c491c19925f6c79f8d925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:05 +0000
Subject: [PATCH 10/43] fix: parallel codegen merged stale copies over entries
 modified by other tasks, and in completion order

---
 nrpy/helpers/parallel_codegen.py | 69 ++++++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 7 deletions(-)

diff --git a/nrpy/helpers/parallel_codegen.py b/nrpy/helpers/parallel_codegen.py
index ec351e5..0455b3b 100644
--- a/nrpy/helpers/parallel_codegen.py
+++ b/nrpy/helpers/parallel_codegen.py
@@ -94,20 +94,75 @@ def deep_update(d: Dict[Any, Any], u: Dict[Any, Any]) -> None:
             d[k] = v
 
 
+def as_plain_data(obj: Any) -> Any:
+    """
+    Convert registered objects to plain data, so that they can be compared by content.
+
+    :param obj: A registered object, or (a possibly nested list or tuple of) such objects.
+    :return: Lists and dictionaries with the same contents.
+    """
+    if isinstance(obj, (list, tuple)):
+        return [as_plain_data(item) for item in obj]
+    if hasattr(obj, "__dict__"):
+        return (
+            type(obj).__name__,
+            {key: as_plain_data(value) for key, value in vars(obj).items()},
+        )
+    return obj
+
+
+def changes_since(old: Dict[Any, Any], new: Dict[Any, Any]) -> Dict[Any, Any]:
+    """
+    Find all entries of a (nested) dictionary that were added or modified.
+
+    :param old: The original dictionary.
+    :param new: The dictionary to compare with.
+    :return: Dictionary containing only those entries of new that are not in old, or differ.
+
+    Doctest:
+    >>> changes_since({'a': 1, 'b': {'c': 2}}, {'a': 1, 'b': {'c': 2, 'd': 3}, 'e': 4})
+    {'b': {'d': 3}, 'e': 4}
+    """
+    changes: Dict[Any, Any] = {}
+    for k, v in new.items():
+        if isinstance(v, dict):
+            nested_changes = changes_since(old.get(k, {}), v)
+            if nested_changes or k not in old:
+                changes[k] = nested_changes
+        elif k not in old or as_plain_data(v) != as_plain_data(old[k]):
+            changes[k] = v
+    return changes
+
+
 def unpack_NRPy_environment_dict(
     NRPy_environment_dict: Dict[str, NRPyEnv_type]
 ) -> None:
     """
-    Unpack the NRPy environment dictionaries.
+    Unpack the NRPy environment dictionaries, in the order the tasks were registered.
+
+    Each environment is a complete copy of the registries. Only what changed relative to
+    the current registries is merged, as otherwise entries modified by one task would be
+    overwritten by the unmodified copies from all other tasks.
 
     :param NRPy_environment_dict: Dictionary containing NRPy environment types.
     """
-    for env in NRPy_environment_dict.values():
-        par.glb_params_dict.update(env[0])
-        par.glb_code_params_dict.update(env[1])
-        cfc.CFunction_dict.update(env[2])
-        gri.glb_gridfcs_dict.update(env[3])
-        deep_update(par.glb_extras_dict, env[4])
+    registration_order = {key: i for i, key in enumerate(ParallelCodeGen_dict)}
+    all_changes = [
+        [
+            changes_since(cast(Dict[Any, Any], old), cast(Dict[Any, Any], new))
+            for old, new in zip(NRPyEnv(), env)
+        ]
+        for _, env in sorted(
+            NRPy_environment_dict.items(),
+            key=lambda item: registration_order.get(item[0], len(registration_order)),
+        )
+    ]
+    for changes in all_changes:
+        par.glb_params_dict.update(changes[0])
+        par.glb_code_params_dict.update(changes[1])
+        cfc.CFunction_dict.update(changes[2])
+        gri.glb_gridfcs_dict.update(changes[3])
+        deep_update(par.glb_extras_dict, changes[4])
 
 
 def pcg_registration_phase() -> bool:
-- 
2.43.0


From 2f5b0a7ea041f1821ff1ae5d667c66d7b65d83dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:24 +0000
Subject: [PATCH 11/43] fix: bool parameters given in parameter files were
 ignored, and on the command line did not compile

---
 .../BHaH/cmdline_input_and_parfiles.py                | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 515a98a..513e0d0 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -134,7 +134,7 @@ static void print_usage() {{
 #define MAX_ARRAY_SIZE 100 // Adjust as needed
 
 // Parameter types
-typedef enum { PARAM_REAL, PARAM_INT, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY } param_type;
+typedef enum { PARAM_REAL, PARAM_INT, PARAM_BOOL, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY } param_type;
 
 // Parameter descriptor struct
 typedef struct {
@@ -180,6 +180,9 @@ param_descriptor param_table[] = {
             elif cparam_type == "REAL":
                 param_type = "PARAM_REAL"
                 found_REAL = True
+            elif cparam_type == "bool":
+                param_type = "PARAM_BOOL"
+                found_boolean = True
             elif "char" in cparam_type and "[" in cparam_type and "]" in cparam_type:
                 param_type = "PARAM_CHARARRAY"
                 buffer_size = int(cparam_type.split("[")[1].split("]")[0])
@@ -568,6 +571,12 @@ static void read_boolean(const char *value, bool *result, const char *param_name
                 f'            read_integer(values_array[0], &commondata->{param_name}, "{param_name}");\n'
                 f"        }}\n"
             )
+        elif param_type == "PARAM_BOOL":
+            assignment_code += (
+                f"        {prefix} (param_desc->index == {index}) {{\n"
+                f'            read_boolean(values_array[0], &commondata->{param_name}, "{param_name}");\n'
+                f"        }}\n"
+            )
         elif param_type == "PARAM_CHARARRAY":
             # buffer_size is used instead of array_size
             assignment_code += (
-- 
2.43.0


From 63272bc79f4697c5bbf45b6b968532f4e5e6a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:49 +0000
Subject: [PATCH 12/43] fix: command-line parameters were not applied after an
 empty parameter file, and silently ignored for unsupported types

---
 .../BHaH/cmdline_input_and_parfiles.py        | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 513e0d0..2e03481 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -30,6 +30,7 @@ def register_CFunction_cmdline_input_and_parfile_parser(
     :param project_name: Name of the project. Used for file naming and error messaging.
     :param cmdline_inputs: Optional list of command-line inputs that can be used to overwrite specific
                            parameters defined in the parameter file.
+    :raises ValueError: If a command-line input cannot be set from the command line.
     """
     if cmdline_inputs is None:
         cmdline_inputs = []
@@ -602,22 +603,31 @@ static void read_boolean(const char *value, bool *result, const char *param_name
             )
 
     # Add the assignment code and the else block
-    body += assignment_code
-    body += r"""        else {
+    body += assignment_code + ("        else " if assignment_code else "        ")
+    body += r"""{
             fprintf(stderr, "Error: Unknown parameter index for %s.\n", param_name);
             exit(1);
         }
     }
 }
 
-    // Handling options 3 and 4: Overwriting steerable parameters
-    if (option == 3 || option == 4) {
+  } // END WHILE LOOP over all lines in the file
+  fclose(file); // Close the parameter file.
+
+  // Handling options 3 and 4: Overwriting steerable parameters
+  if (option == 3 || option == 4) {
         // For options 3 and 4, we extract the last arguments as steerable parameters
 """
     # Handle steerable parameters overwriting
     steerable_body = ""
     for i, key in enumerate(cmdline_inputs):
         CodeParam = par.glb_code_params_dict[key]
+        if not any(param["name"] == key for param in parameters_list) or (
+            "[" in CodeParam.cparam_type and "char" not in CodeParam.cparam_type
+        ):
+            raise ValueError(
+                f"Parameter {key} of type {CodeParam.cparam_type} cannot be set from the command line."
+            )
         if CodeParam.add_to_parfile and CodeParam.commondata:
             cparam_type = CodeParam.cparam_type.strip()
             if "char" in cparam_type:
@@ -632,9 +642,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
                 steerable_body += f'        read_boolean(argv[argc - number_of_steerable_parameters + {i}], &commondata->{key}, "{key}");\n'
     body += steerable_body
     body += """
-    } // END IF (option == 3 || option == 4)
-  } // END WHILE LOOP over all lines in the file
-  fclose(file); // Close the parameter file.
+  } // END IF (option == 3 || option == 4)
 """
 
     # Register the C function with the constructed components
-- 
2.43.0


From 030882106be93bceacbcf24c2a994bc9fed1281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:33 +0000
Subject: [PATCH 13/43] fix: parameter-file parser overflowed buffers,
 truncated integers, and rejected or split long values

---
 .../BHaH/cmdline_input_and_parfiles.py        | 61 ++++++++++---------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 2e03481..f470e21 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -260,12 +260,10 @@ static void parse_param(const char *param_str, char *param_name, int *array_size
       fprintf(stderr, "Error: Missing closing bracket in parameter %s.\n", param_str);
       exit(1);
     }
-    char size_str[16];
-    size_t size_len = bracket_end - bracket_start - 1;
-    strncpy(size_str, bracket_start + 1, size_len);
-    size_str[size_len] = '\0';
-    *array_size = atoi(size_str);
-    if (*array_size <= 0) {
+    char *endptr;
+    const long size_val = strtol(bracket_start + 1, &endptr, 10);
+    *array_size = (int)size_val;
+    if (endptr != bracket_end || bracket_end[1] != '\0' || size_val <= 0 || size_val > MAX_ARRAY_SIZE) {
       fprintf(stderr, "Error: Invalid array size in parameter %s.\n", param_name);
       exit(1);
     }
@@ -277,11 +275,11 @@ static void parse_param(const char *param_str, char *param_name, int *array_size
 }
 
 // Function to parse value string into array of values
-static void parse_value(const char *value_str, char values[][PARAM_SIZE], int *value_count) {
+static void parse_value(const char *value_str, char values[][LINE_SIZE], int *value_count) {
   if (value_str[0] == '{') {
     // Array value
     size_t len = strlen(value_str);
-    if (value_str[len - 1] != '}') {
+    if (len < 2 || value_str[len - 1] != '}') {
       fprintf(stderr, "Error: Missing closing brace in value %s.\n", value_str);
       exit(1);
     }
@@ -295,21 +293,21 @@ static void parse_value(const char *value_str, char values[][PARAM_SIZE], int *v
     char *saveptr;
     val_token = strtok_r(value_copy, ",", &saveptr);
     while (val_token != NULL) {
-      safe_copy(values[count], trim_space(val_token), PARAM_SIZE);
-      count++;
-      if (count > MAX_ARRAY_SIZE) {
+      if (count >= MAX_ARRAY_SIZE) {
         fprintf(stderr, "Error: Array size exceeds maximum allowed.\n");
         exit(1);
       }
+      safe_copy(values[count], trim_space(val_token), LINE_SIZE);
+      count++;
       val_token = strtok_r(NULL, ",", &saveptr);
     }
     *value_count = count;
   } else {
     // Scalar value
-    char mutable_value[PARAM_SIZE];
-    safe_copy(mutable_value, value_str, PARAM_SIZE);
+    char mutable_value[LINE_SIZE];
+    safe_copy(mutable_value, value_str, LINE_SIZE);
     char *trimmed = trim_space(mutable_value);
-    safe_copy(values[0], trimmed, PARAM_SIZE);
+    safe_copy(values[0], trimmed, LINE_SIZE);
     *value_count = 1;
   }
 }
@@ -324,7 +322,7 @@ static void read_integer(const char *value, int *result, const char *param_name)
   errno = 0; // To detect overflow
   long int_val = strtol(value, &endptr, 10);
 
-  if (endptr == value || *endptr != '\0' || errno == ERANGE) {
+  if (endptr == value || *endptr != '\0' || errno == ERANGE || int_val < INT_MIN || int_val > INT_MAX) {
     fprintf(stderr, "Error: Invalid integer value for %s: %s.\n", param_name, value);
     exit(1);
   }
@@ -356,23 +354,22 @@ static void read_REAL(const char *value, REAL *result, const char *param_name) {
 static void read_chararray(const char *value, char *result, const char *param_name, size_t size) {
   // Remove surrounding quotes if present
   size_t len = strlen(value);
-  char trimmed_value[PARAM_SIZE];
-  if (value[0] == '"' && value[len - 1] == '"') {
-    if (len - 2 >= size) {
-      fprintf(stderr, "Error: Buffer overflow detected for %s.\n", param_name);
-      exit(1);
-    }
-    strncpy(trimmed_value, value + 1, len - 2);
-    trimmed_value[len - 2] = '\0';
-  } else {
-    safe_copy(trimmed_value, value, PARAM_SIZE);
+  char trimmed_value[LINE_SIZE];
+  safe_copy(trimmed_value, value, LINE_SIZE);
+  char *unquoted_value = trimmed_value;
+  if (len >= 2 && value[0] == '"' && value[len - 1] == '"') {
+    trimmed_value[len - 1] = '\0';
+    unquoted_value++;
+  } else if (value[0] == '"') {
+    fprintf(stderr, "Error: Unmatched quote for %s: %s.\n", param_name, value);
+    exit(1);
   }
 
-  if (strlen(trimmed_value) >= size) {
+  if (strlen(unquoted_value) >= size) {
     fprintf(stderr, "Error: Buffer overflow detected for %s.\n", param_name);
     exit(1);
   }
-  safe_copy(result, trimmed_value, size);
+  safe_copy(result, unquoted_value, size);
 }
 """
 
@@ -470,11 +467,16 @@ static void read_boolean(const char *value, bool *result, const char *param_name
 
   char line[LINE_SIZE];
   char param[PARAM_SIZE];
-  char value[PARAM_SIZE];
+  char value[LINE_SIZE];
   int params_set[NUM_PARAMETERS] = {{0}}; // Track which parameters have been set.
 
   // Iterate through each line of the parameter file.
   while (fgets(line, sizeof(line), file)) {{
+    if (strchr(line, '\n') == NULL && !feof(file)) {{
+      fprintf(stderr, "Error: Line too long in parameter file: %s.\n", line);
+      exit(1);
+    }}
+
     // Remove comments from the line.
     char *comment_start = strchr(line, '#');
     if (comment_start != NULL) {{
@@ -502,7 +504,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
         }}
 
         // Parse the value string into individual values.
-        char values_array[MAX_ARRAY_SIZE][PARAM_SIZE];
+        char values_array[MAX_ARRAY_SIZE][LINE_SIZE];
         int value_count = 0;
         parse_value(value, values_array, &value_count);
 
@@ -652,6 +654,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
             "<string.h>",
             "<ctype.h>",
             "<errno.h>",
+            "<limits.h>",
             "<stdbool.h>",
         ],
         prefunc=prefunc,
-- 
2.43.0


From 5e585096889924edd76fe9468319498045ff2133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:46 +0000
Subject: [PATCH 14/43] fix: quoted parameter strings containing #, =, quotes,
 backslashes or % were corrupted, and string REAL defaults lowercased

---
 nrpy/infrastructures/BHaH/CodeParameters.py   | 19 +++++-
 .../BHaH/cmdline_input_and_parfiles.py        | 60 ++++++++++++-------
 2 files changed, 56 insertions(+), 23 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/CodeParameters.py b/nrpy/infrastructures/BHaH/CodeParameters.py
index ddf7508..1fc2698 100644
--- a/nrpy/infrastructures/BHaH/CodeParameters.py
+++ b/nrpy/infrastructures/BHaH/CodeParameters.py
@@ -98,17 +98,30 @@ def register_CFunctions_params_commondata_struct_set_to_default() -> None:
                     CPtype = CodeParam.cparam_type
                     comment = f"  // {CodeParam.module}::{parname}"
                     defaultval = CodeParam.defaultvalue
+                    # C spells True/False in lowercase. Other values (e.g., M_PI) are output as given.
+                    defaultval_str = (
+                        str(defaultval).lower()
+                        if isinstance(defaultval, bool)
+                        else str(defaultval)
+                    )
                     if "char" in CPtype and "[" in CPtype and "]" in CPtype:
                         chararray_size = CPtype.split("[")[1].replace("]", "")
-                        c_output = f'snprintf({struct}->{parname}, {chararray_size}, "{defaultval}");{comment}\n'
+                        # The default value is output inside a C format string.
+                        escaped_defaultval = (
+                            str(defaultval)
+                            .replace("\\", "\\\\")
+                            .replace('"', '\\"')
+                            .replace("%", "%%")
+                        )
+                        c_output = f'snprintf({struct}->{parname}, {chararray_size}, "{escaped_defaultval}");{comment}\n'
                     elif "[" in CPtype and "]" in CPtype:
                         # Handle REAL[N] and int[N] arrays
                         array_size = CPtype.split("[")[1].split("]")[0]
-                        c_output = f"for(int i=0; i<{array_size}; i++) {{ {struct}->{parname}[i] = {str(defaultval).lower()}; }}{comment}\n"
+                        c_output = f"for(int i=0; i<{array_size}; i++) {{ {struct}->{parname}[i] = {defaultval_str}; }}{comment}\n"
                     elif isinstance(defaultval, (bool, int, float)) or (
                         CPtype == "REAL" and isinstance(defaultval, str)
                     ):
-                        c_output = f"{struct}->{parname} = {str(defaultval).lower()};{comment}\n"
+                        c_output = f"{struct}->{parname} = {defaultval_str};{comment}\n"
                     else:
                         raise ValueError(
                             f"{CodeParam.defaultvalue} is not a valid default value type ({type(CodeParam.defaultvalue)}), for parameter {CodeParam.module}::{parname}, commondata = {CodeParam.commondata}"
diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index f470e21..8524139 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -5,6 +5,7 @@ Author: Zachariah B. Etienne
         zachetie **at** gmail **dot* com
 """
 
+import re
 from collections import defaultdict
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Union
@@ -358,8 +359,14 @@ static void read_chararray(const char *value, char *result, const char *param_na
   safe_copy(trimmed_value, value, LINE_SIZE);
   char *unquoted_value = trimmed_value;
   if (len >= 2 && value[0] == '"' && value[len - 1] == '"') {
-    trimmed_value[len - 1] = '\0';
-    unquoted_value++;
+    // Remove quotes, and the backslashes from \" and \\.
+    char *dest = unquoted_value;
+    for (size_t i = 1; i < len - 1; i++) {
+      if (value[i] == '\\' && i + 1 < len - 1 && (value[i + 1] == '"' || value[i + 1] == '\\'))
+        i++;
+      *dest++ = value[i];
+    }
+    *dest = '\0';
   } else if (value[0] == '"') {
     fprintf(stderr, "Error: Unmatched quote for %s: %s.\n", param_name, value);
     exit(1);
@@ -477,19 +484,25 @@ static void read_boolean(const char *value, bool *result, const char *param_name
       exit(1);
     }}
 
-    // Remove comments from the line.
-    char *comment_start = strchr(line, '#');
-    if (comment_start != NULL) {{
-      *comment_start = '\0';
+    // Remove comments from the line. A '#' inside a quoted string does not start a comment.
+    bool in_quotes = false;
+    for (char *c = line; *c != '\0'; c++) {{
+      if (in_quotes && *c == '\\' && (c[1] == '"' || c[1] == '\\')) {{
+        c++; // Skip escaped character.
+      }} else if (*c == '"') {{
+        in_quotes = !in_quotes;
+      }} else if (*c == '#' && !in_quotes) {{
+        *c = '\0';
+        break;
+      }}
     }}
 
-    // Split the line into parameter and value based on '=' delimiter.
-    char *p = strtok(line, "=");
-    if (p) {{
-      safe_copy(param, trim_space(p), sizeof(param));
-      p = strtok(NULL, "=");
-      if (p) {{
-        safe_copy(value, trim_space(p), sizeof(value));
+    // Split the line into parameter and value at the first '='.
+    char *equals_sign = strchr(line, '=');
+    if (equals_sign != NULL) {{
+      *equals_sign = '\0';
+        safe_copy(param, trim_space(line), sizeof(param));
+        safe_copy(value, trim_space(equals_sign + 1), sizeof(value));
 
         char param_name[PARAM_SIZE];
         int array_size = 0;
@@ -611,7 +624,6 @@ static void read_boolean(const char *value, bool *result, const char *param_name
             exit(1);
         }
     }
-}
 
   } // END WHILE LOOP over all lines in the file
   fclose(file); // Close the parameter file.
@@ -844,8 +856,10 @@ def generate_default_parfile(project_dir: str, project_name: str) -> None:
                         raise ValueError(
                             f"Default value for char array parameter '{parname}' must be a string."
                         )
-                    # Escape double quotes in the default value
-                    escaped_default_val = default_val.replace('"', '\\"')
+                    # Escape backslashes & double quotes in the default value
+                    escaped_default_val = default_val.replace("\\", "\\\\").replace(
+                        '"', '\\"'
+                    )
                     # Wrap the default value in quotes
                     default_val_formatted = f'"{escaped_default_val}"'
                     display_type = "char"
@@ -861,8 +875,10 @@ def generate_default_parfile(project_dir: str, project_name: str) -> None:
                         raise ValueError(
                             f"Default value for char parameter '{parname}' must be a string."
                         )
-                    # Escape double quotes in the default value
-                    escaped_default_val = CodeParam.defaultvalue.replace('"', '\\"')
+                    # Escape backslashes & double quotes in the default value
+                    escaped_default_val = CodeParam.defaultvalue.replace(
+                        "\\", "\\\\"
+                    ).replace('"', '\\"')
                     # Wrap the default value in quotes
                     default_val_formatted = f'"{escaped_default_val}"'
                     parfile_output_dict[CodeParam.module].append(
@@ -886,10 +902,14 @@ def generate_default_parfile(project_dir: str, project_name: str) -> None:
         output_str += "".join(params)
 
     def align_by_hash(original_string: str) -> str:
+        # The comment starts at the first "#" that is not inside a quoted string.
+        def find_comment(line: str) -> int:
+            return len(re.match(r'(?:"(?:\\.|[^"\\])*"|[^#"])*', line).group())  # type: ignore
+
         lines = original_string.split("\n")
         max_length = max(
             (
-                line.find("#")
+                find_comment(line)
                 for line in lines
                 if "#" in line and not line.strip().startswith("#")
             ),
@@ -899,7 +919,7 @@ def generate_default_parfile(project_dir: str, project_name: str) -> None:
         adjusted_lines = []
         for line in lines:
             if "#" in line and not line.strip().startswith("#"):
-                index = line.find("#")
+                index = find_comment(line)
                 spaces_needed = max_length - index
                 if spaces_needed > 0:
                     adjusted_line = line[:index] + " " * spaces_needed + line[index:]
-- 
2.43.0


From 602040bf970ec2a03601ecfd109863349d9dd9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:59 +0000
Subject: [PATCH 15/43] fix: AbsSIMD needed AVX512DQ on AVX512F-only targets,
 and NegFusedMulSubSIMD had the wrong sign for SSE2 with FMA

---
 nrpy/helpers/simd_intrinsics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/helpers/simd_intrinsics.h b/nrpy/helpers/simd_intrinsics.h
index 5780cca..208211e 100644
--- a/nrpy/helpers/simd_intrinsics.h
+++ b/nrpy/helpers/simd_intrinsics.h
@@ -42,7 +42,7 @@
 #define NegFusedMulSubSIMD(a, b, c) _mm512_fnmsub_pd((a), (b), (c))
 
 // Absolute Value
-#define AbsSIMD(a) _mm512_and_pd((a), _mm512_castsi512_pd(_mm512_set1_epi64(0x7FFFFFFFFFFFFFFF)))
+#define AbsSIMD(a) _mm512_abs_pd((a))
 
 // Initialize vector to zero (output is REAL_SIMD_ARRAY)
 #define SetZeroSIMD _mm512_setzero_pd()
@@ -162,7 +162,7 @@
 #define FusedMulAddSIMD(a, b, c) _mm_fmadd_pd((a), (b), (c))
 #define FusedMulSubSIMD(a, b, c) _mm_fmsub_pd((a), (b), (c))
 #define NegFusedMulAddSIMD(a, b, c) _mm_sub_pd((c), _mm_mul_pd((a), (b)))                                   // c - a*b
-#define NegFusedMulSubSIMD(a, b, c) _mm_sub_pd((c), _mm_sub_pd((c), _mm_sub_pd(_mm_mul_pd((a), (b)), (c)))) // -a*b - c = c - (c + a*b + c)
+#define NegFusedMulSubSIMD(a, b, c) _mm_sub_pd((c), _mm_add_pd((c), _mm_add_pd(_mm_mul_pd((a), (b)), (c)))) // -a*b - c = c - (c + a*b + c)
 #else
 // Fused Multiply-Add/Subtract Operations without FMA
 #define FusedMulAddSIMD(a, b, c) _mm_add_pd(_mm_mul_pd((a), (b)), (c))    // a*b + c
-- 
2.43.0


From 94af23408c21bbb98601dd63690d9d59f0c91c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:59 +0000
Subject: [PATCH 16/43] fix: SIMD kernels used constants (_Integer_1, numbers
 under roots) that were never declared as vectors

---
 nrpy/helpers/cse_preprocess_postprocess.py |  3 ++
 nrpy/helpers/simd.py                       | 43 +++++++++++++---------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/nrpy/helpers/cse_preprocess_postprocess.py b/nrpy/helpers/cse_preprocess_postprocess.py
index 4f9eea6..5239fe1 100644
--- a/nrpy/helpers/cse_preprocess_postprocess.py
+++ b/nrpy/helpers/cse_preprocess_postprocess.py
@@ -218,6 +218,9 @@ def cse_preprocess(
                         subtree.expr = (
                             _One_ if sp.Integer(exponent) % 2 == 0 else _NegativeOne_
                         )
+                        if subtree.expr == _One_:
+                            symbol_to_Rational_dict[_One_] = sp.S.One
+                            map_rat_to_sym[sp.S.One] = _One_
                         tree.build(subtree)
                         changed_expr = True
             if changed_expr:
diff --git a/nrpy/helpers/simd.py b/nrpy/helpers/simd.py
index 78606c9..2596a2e 100644
--- a/nrpy/helpers/simd.py
+++ b/nrpy/helpers/simd.py
@@ -32,7 +32,6 @@ from sympy import (
     sin,
     sqrt,
     srepr,
-    sympify,
     var,
 )
 
@@ -297,6 +296,18 @@ def expr_convert_to_simd_intrins(
             subtree.expr = SignSIMD(args[0])
     tree.reconstruct()
 
+    def rational_symbol(value: Rational) -> Basic:
+        # Return the symbol standing for a constant, declaring it when new
+        if value not in map_rat_to_sym:
+            name = (
+                f"_Integer_{value.p}"
+                if value.q == 1
+                else f"_Rational_{value.p}_{value.q}"
+            )
+            map_rat_to_sym[value] = Symbol(prefix + name)
+            symbol_to_Rational_dict[map_rat_to_sym[value]] = value
+        return map_rat_to_sym[value]
+
     def IntegerPowSIMD(a: Basic, n: int) -> Any:
         # Recursive Helper Function: Construct Integer Powers
         if n == 2:
@@ -304,19 +315,9 @@ def expr_convert_to_simd_intrins(
         if n > 2:
             return MulSIMD(IntegerPowSIMD(a, n - 1), a)
         if n <= -2:
-            one = Symbol(prefix + "_Integer_1")
-            try:
-                map_rat_to_sym[sympify(1)]
-            except KeyError:
-                symbol_to_Rational_dict[one], map_rat_to_sym[sympify(1)] = S.One, one
-            return DivSIMD(one, IntegerPowSIMD(a, -n))
+            return DivSIMD(rational_symbol(S.One), IntegerPowSIMD(a, -n))
         if n == -1:
-            one = Symbol(prefix + "_Integer_1")
-            try:
-                map_rat_to_sym[sympify(1)]
-            except KeyError:
-                symbol_to_Rational_dict[one], map_rat_to_sym[sympify(1)] = S.One, one
-            return DivSIMD(one, a)
+            return DivSIMD(rational_symbol(S.One), a)
         if n == 1:
             return a
         # n == 0 case. Should never be called.
@@ -336,19 +337,27 @@ def expr_convert_to_simd_intrins(
         func = subtree.expr.func
         args = subtree.expr.args
         if func == Pow:
-            one = Symbol(prefix + "_Integer_1")
             exponent = lookup_rational(args[1])
+            if isinstance(args[0], Rational) and args[0] > 0:
+                # SIMD operands must be SIMD constants, not numbers
+                args = (rational_symbol(args[0]), args[1])
+                subtree.expr = Pow(*args, evaluate=False)
+                tree.build(subtree)
             if exponent in (Rational(1, 2), 0.5):
                 subtree.expr = SqrtSIMD(args[0])
                 subtree.children.pop(1)
             elif exponent in (-Rational(1, 2), -0.5):
-                subtree.expr = DivSIMD(one, SqrtSIMD(args[0]))
+                subtree.expr = DivSIMD(rational_symbol(S.One), SqrtSIMD(args[0]))
                 tree.build(subtree)
             elif exponent in (-Rational(3, 2), -1.5):
-                subtree.expr = DivSIMD(one, SqrtSIMD(args[0]) * args[0])
+                subtree.expr = DivSIMD(
+                    rational_symbol(S.One), SqrtSIMD(args[0]) * args[0]
+                )
                 tree.build(subtree)
             elif exponent in (-Rational(5, 2), -2.5):
-                subtree.expr = DivSIMD(one, SqrtSIMD(args[0]) * args[0] * args[0])
+                subtree.expr = DivSIMD(
+                    rational_symbol(S.One), SqrtSIMD(args[0]) * args[0] * args[0]
+                )
                 tree.build(subtree)
             elif exponent == Rational(1, 3):
                 subtree.expr = CbrtSIMD(args[0])
-- 
2.43.0


From cd4372ab344317ed179bb63009abc40b5c7b121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:59 +0000
Subject: [PATCH 17/43] fix: postproc_substitution_dict crashed with CSE, and
 cleaning _NegativeOne_ removed a constant still used by temporaries

---
 nrpy/c_codegen.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index c464d6d..48ed4cb 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -591,14 +591,15 @@ def c_codegen(
                     f"{full_type_string}{common_subexpression[0]} = {simd_expr};\n"
                 )
             else:
+                subexpression = common_subexpression[1]
                 if CCGParams.postproc_substitution_dict:
-                    common_subexpression[1] = apply_substitution_dict(
-                        common_subexpression[1], CCGParams.postproc_substitution_dict
+                    subexpression = apply_substitution_dict(
+                        subexpression, CCGParams.postproc_substitution_dict
                     )
                 outstring += (
                     full_type_string
                     + sp.ccode(
-                        common_subexpression[1],
+                        subexpression,
                         common_subexpression[0],
                         user_functions=custom_functions_for_SymPy_ccode[
                             CCGParams.fp_type
@@ -619,6 +620,9 @@ def c_codegen(
                         f"Disabling simd_clean_NegativeOnes_after_processing since len(cse_results[1])={len(cse_results[1])}>1"
                     )
                     CCGParams.simd_clean_NegativeOnes_after_processing = False
+                if f"{varprefix}_NegativeOne_" in outstring:
+                    # A common subexpression above needs the constant as well.
+                    CCGParams.simd_clean_NegativeOnes_after_processing = False
                 simd_expr = expr_convert_to_simd_intrins(
                     result,
                     CCGParams.symbol_to_Rational_dict,
-- 
2.43.0


From 4e7d6c23e234539e70459d422374b3e6fe035cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:45 +0000
Subject: [PATCH 18/43] fix: 1D slice loops no longer write into zero-length
 point arrays when the coordinate system has no points on the axis

---
 nrpy/infrastructures/BHaH/simple_loop.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/simple_loop.py b/nrpy/infrastructures/BHaH/simple_loop.py
index 9b69c29..a4ea79f 100644
--- a/nrpy/infrastructures/BHaH/simple_loop.py
+++ b/nrpy/infrastructures/BHaH/simple_loop.py
@@ -356,10 +356,9 @@ dp1d.xCart_axis = {'xCart[1];' if axis == "y" else 'xCart[2];'}
     for i in range(3):
         if numpts[i] == Nxx[i]:
             out_string += f"{pragma}for(int i{i}=NGHOSTS; i{i}<Nxx{i} + NGHOSTS; i{i}++) i{i}_pts[i{i}-NGHOSTS] = i{i};\n"
-        elif numpts == [0, 0, 0] and i == 0:
-            out_string += (
-                f"// CoordSystem = {CoordSystem} has no points on the {axis} axis!\n"
-            )
+        elif numpts == [0, 0, 0]:
+            if i == 0:
+                out_string += f"// CoordSystem = {CoordSystem} has no points on the {axis} axis!\n"
         else:
             for j, pt in enumerate(i012_pts[i]):
                 out_string += f"i{i}_pts[{j}] = (int)({sp.ccode(pt)});\n"
-- 
2.43.0


From 5541d54653f43b3d1c3a2455b41138cb7e0e8ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:35 +0000
Subject: [PATCH 19/43] fix: validation accepted a NaN in place of any trusted
 or compared value

---
 nrpy/validate_expressions/validate_expressions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nrpy/validate_expressions/validate_expressions.py b/nrpy/validate_expressions/validate_expressions.py
index 6ad3567..5f0f2b0 100644
--- a/nrpy/validate_expressions/validate_expressions.py
+++ b/nrpy/validate_expressions/validate_expressions.py
@@ -97,7 +97,8 @@ def assert_equal(
         tolerance = 10 ** (-4.0 / 5.0 * precision)
         abs_diff = fabs(vardict_1_results_dict[var_1] - vardict_2_results_dict[var_2])
         avg = (vardict_1_results_dict[var_1] + vardict_2_results_dict[var_2]) / 2
-        if abs_diff > fabs(avg) * tolerance:
+        # "not <=" instead of ">", so that a NaN is reported.
+        if not abs_diff <= fabs(avg) * tolerance:
             print(f"Error on {var_1}: {abs_diff} > {fabs(avg) * tolerance}")
             raise AssertionError
 
@@ -422,7 +423,12 @@ def compare_against_trusted(
         # We compare relative error here. Pass if abs_diff <= |trusted value| * tolerance
         tolerance = 10 ** (-4.0 / 5.0 * mp.dps)
         abs_diff = results_dict[key] - mpc(trusted_results_dict[key])
-        if fabs(abs_diff) > fabs(mpc(trusted_results_dict[key])) * tolerance:
+        # "not <=" instead of ">", so that a NaN on one side only is reported.
+        if not fabs(abs_diff) <= fabs(
+            mpc(trusted_results_dict[key])
+        ) * tolerance and not (
+            mp.isnan(results_dict[key]) and mp.isnan(trusted_results_dict[key])
+        ):
             raise ValueError(
                 "\n*** FAILURE ***\n"
                 f"****{key}**** mismatch in {trusted_file_basename}! {fabs(abs_diff)} >= {fabs(mpc(trusted_results_dict[key]))} * {tolerance} disagreement\n"
-- 
2.43.0


From daaca5e90faa2540315c0d3dc4a6c000cabbfe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:17 +0000
Subject: [PATCH 20/43] fix: a run killed while checkpointing destroyed the
 previous checkpoint, and incomplete or mismatched checkpoint files were
 accepted

---
 nrpy/infrastructures/BHaH/checkpointing.py | 75 ++++++++++++++++------
 1 file changed, 57 insertions(+), 18 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index 20b320d..841c75a 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -28,7 +28,9 @@ def register_CFunction_read_checkpoint(
     """
     includes = ["BHaH_defines.h", "BHaH_function_prototypes.h", "unistd.h"]
     prefunc = r"""
-#define FREAD(ptr, size, nmemb, stream) { MAYBE_UNUSED const int numitems=fread((ptr), (size), (nmemb), (stream)); }
+// A checkpoint that is incomplete, or was written by a different executable or for different grids, must never be used.
+#define CHECKPOINT_ERROR(msg) { fprintf(stderr, "Error: checkpoint file %s is unusable: %s\n", filename, (msg)); exit(EXIT_FAILURE); }
+#define FREAD(ptr, size, nmemb, stream) { if(fread((ptr), (size), (nmemb), (stream)) != (size_t)(nmemb)) CHECKPOINT_ERROR("file too short."); }
 """
     desc = "Read a checkpoint file"
     cfunc_type = "int"
@@ -45,8 +47,13 @@ def register_CFunction_read_checkpoint(
     return 0;
 
   FILE *cp_file = fopen(filename, "r");
+  if (cp_file == NULL)
+    CHECKPOINT_ERROR("cannot open file for reading.");
+  const int NUMGRIDS = commondata->NUMGRIDS;
   FREAD(commondata, sizeof(commondata_struct), 1, cp_file);
   fprintf(stderr, "cd struct size = %ld time=%e\n", sizeof(commondata_struct), commondata->time);
+  if (commondata->NUMGRIDS != NUMGRIDS)
+    CHECKPOINT_ERROR("number of grids differs.");
 """
     if enable_bhahaha:
         body += r"""
@@ -62,22 +69,34 @@ def register_CFunction_read_checkpoint(
 """
     body += r"""
   for (int grid = 0; grid < commondata->NUMGRIDS; grid++) {
+    const params_struct params_setup = griddata[grid].params;
     FREAD(&griddata[grid].params, sizeof(params_struct), 1, cp_file);
+    if (griddata[grid].params.Nxx_plus_2NGHOSTS0 != params_setup.Nxx_plus_2NGHOSTS0 ||
+        griddata[grid].params.Nxx_plus_2NGHOSTS1 != params_setup.Nxx_plus_2NGHOSTS1 ||
+        griddata[grid].params.Nxx_plus_2NGHOSTS2 != params_setup.Nxx_plus_2NGHOSTS2)
+      CHECKPOINT_ERROR("grid sizes differ.");
 
+    const int Nxx_plus_2NGHOSTS0 = griddata[grid].params.Nxx_plus_2NGHOSTS0;
+    const int Nxx_plus_2NGHOSTS1 = griddata[grid].params.Nxx_plus_2NGHOSTS1;
+    const int Nxx_plus_2NGHOSTS2 = griddata[grid].params.Nxx_plus_2NGHOSTS2;
+    const int ntot = griddata[grid].params.Nxx_plus_2NGHOSTS0 * griddata[grid].params.Nxx_plus_2NGHOSTS1 * griddata[grid].params.Nxx_plus_2NGHOSTS2;
     int count;
     FREAD(&count, sizeof(int), 1, cp_file);
-
+    if (count < 0 || count > ntot)
+      CHECKPOINT_ERROR("invalid number of points.");
     int *restrict out_data_indices = (int *restrict)malloc(sizeof(int) * count);
     REAL *restrict compact_out_data = (REAL *restrict)malloc(sizeof(REAL) * NUM_EVOL_GFS * count);
 
-    const int Nxx_plus_2NGHOSTS0 = griddata[grid].params.Nxx_plus_2NGHOSTS0;
-    const int Nxx_plus_2NGHOSTS1 = griddata[grid].params.Nxx_plus_2NGHOSTS1;
-    const int Nxx_plus_2NGHOSTS2 = griddata[grid].params.Nxx_plus_2NGHOSTS2;
-    const int ntot = griddata[grid].params.Nxx_plus_2NGHOSTS0 * griddata[grid].params.Nxx_plus_2NGHOSTS1 * griddata[grid].params.Nxx_plus_2NGHOSTS2;
     fprintf(stderr, "Reading checkpoint: grid = %d | pts = %d / %d | %d\n", grid, count, ntot, Nxx_plus_2NGHOSTS2);
     FREAD(out_data_indices, sizeof(int), count, cp_file);
     FREAD(compact_out_data, sizeof(REAL), count * NUM_EVOL_GFS, cp_file);
+    for (int i = 0; i < count; i++) {
+      if (out_data_indices[i] < 0 || out_data_indices[i] >= ntot)
+        CHECKPOINT_ERROR("invalid point index.");
+    }
 
+    // main() has allocated y_n_gfs already; do not leak it.
+    MoL_free_memory_y_n_gfs(&griddata[grid].gridfuncs);
     MoL_malloc_y_n_gfs(commondata, &griddata[grid].params, &griddata[grid].gridfuncs);
 #pragma omp parallel for
     for (int i = 0; i < count; i++) {
@@ -88,6 +107,8 @@ def register_CFunction_read_checkpoint(
     free(out_data_indices);
     free(compact_out_data);
   }
+  if (fgetc(cp_file) != EOF)
+    CHECKPOINT_ERROR("file too long.");
   fclose(cp_file);
   fprintf(stderr, "FINISHED WITH READING\n");
 
@@ -128,6 +149,9 @@ def register_CFunction_write_checkpoint(
         "REAL", __name__, "checkpoint_every", default_checkpoint_every, commondata=True
     )
     includes = ["BHaH_defines.h", "BHaH_function_prototypes.h"]
+    prefunc = r"""
+#define FWRITE(ptr, size, nmemb, stream) { if(fwrite((ptr), (size), (nmemb), (stream)) != (size_t)(nmemb)) write_ok = false; }
+"""
     desc = "Write a checkpoint file"
     cfunc_type = "void"
     name = "write_checkpoint"
@@ -143,22 +167,31 @@ def register_CFunction_write_checkpoint(
 // Step 2: Multiplying by outevery yields the exact time we should output again, t_out.
 // Step 3: If fabs(t_out - currtime) < 0.5 * currdt, then currtime is as close to t_out as possible!
 if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
-  FILE *cp_file = fopen(filename, "w+");
-  fwrite(commondata, sizeof(commondata_struct), 1, cp_file);
+  // Write to a temporary file, and replace the previous checkpoint only once the new one is complete,
+  //   so that a run killed while checkpointing (or a full disk) always leaves a complete checkpoint behind.
+  char tmp_filename[256 + 4];
+  snprintf(tmp_filename, sizeof(tmp_filename), "%s.tmp", filename);
+  bool write_ok = true;
+  FILE *cp_file = fopen(tmp_filename, "w");
+  if (cp_file == NULL) {
+    fprintf(stderr, "Error: could not open %s for writing; checkpoint NOT written.\n", tmp_filename);
+    return;
+  }
+  FWRITE(commondata, sizeof(commondata_struct), 1, cp_file);
   fprintf(stderr, "WRITING CHECKPOINT: cd struct size = %ld time=%e\n", sizeof(commondata_struct), commondata->time);
 """
     if enable_bhahaha:
         body += r"""
   for (int i = 0; i < commondata->bah_num_horizons; i++) {
-    fwrite(&commondata->bhahaha_params_and_data[i], sizeof(bhahaha_params_and_data_struct), 1, cp_file);
-    fwrite(commondata->bhahaha_params_and_data[i].prev_horizon_m1, sizeof(REAL), 64 * 32, cp_file);
-    fwrite(commondata->bhahaha_params_and_data[i].prev_horizon_m2, sizeof(REAL), 64 * 32, cp_file);
-    fwrite(commondata->bhahaha_params_and_data[i].prev_horizon_m3, sizeof(REAL), 64 * 32, cp_file);
+    FWRITE(&commondata->bhahaha_params_and_data[i], sizeof(bhahaha_params_and_data_struct), 1, cp_file);
+    FWRITE(commondata->bhahaha_params_and_data[i].prev_horizon_m1, sizeof(REAL), 64 * 32, cp_file);
+    FWRITE(commondata->bhahaha_params_and_data[i].prev_horizon_m2, sizeof(REAL), 64 * 32, cp_file);
+    FWRITE(commondata->bhahaha_params_and_data[i].prev_horizon_m3, sizeof(REAL), 64 * 32, cp_file);
   }
 """
     body += r"""
   for(int grid=0; grid<commondata->NUMGRIDS; grid++) {
-    fwrite(&griddata[grid].params, sizeof(params_struct), 1, cp_file);
+    FWRITE(&griddata[grid].params, sizeof(params_struct), 1, cp_file);
     const int ntot = ( griddata[grid].params.Nxx_plus_2NGHOSTS0*
                        griddata[grid].params.Nxx_plus_2NGHOSTS1*
                        griddata[grid].params.Nxx_plus_2NGHOSTS2 );
@@ -173,7 +206,7 @@ if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
     for(int i=0;i<ntot;i++) {
       if(maskval >= +0) count++;
     }
-    fwrite(&count, sizeof(int), 1, cp_file);
+    FWRITE(&count, sizeof(int), 1, cp_file);
 
     int  *restrict out_data_indices = (int  *restrict)malloc(sizeof(int)                 * count);
     REAL *restrict compact_out_data = (REAL *restrict)malloc(sizeof(REAL) * NUM_EVOL_GFS * count);
@@ -187,19 +220,25 @@ if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
       }
     }
     //printf("HEY which_el = %d | count = %d\n", which_el, count);
-    fwrite(out_data_indices, sizeof(int) , count               , cp_file);
-    fwrite(compact_out_data, sizeof(REAL), count * NUM_EVOL_GFS, cp_file);
+    FWRITE(out_data_indices, sizeof(int) , count               , cp_file);
+    FWRITE(compact_out_data, sizeof(REAL), count * NUM_EVOL_GFS, cp_file);
     free(out_data_indices); free(compact_out_data);
     MoL_malloc_y_n_gfs(commondata, &griddata[grid].params, &griddata[grid].gridfuncs);
 #pragma omp parallel for
     for(int i=0;i<ntot*NUM_EVOL_GFS;i++) griddata[grid].gridfuncs.y_n_gfs[i] = griddata[grid].gridfuncs.diagnostic_output_gfs[i];
   }
-  fclose(cp_file);
-  fprintf(stderr, "FINISHED WRITING CHECKPOINT\n");
+  if (fclose(cp_file) != 0)
+    write_ok = false;
+  if (!write_ok || rename(tmp_filename, filename) != 0) {
+    fprintf(stderr, "Error: could not write checkpoint %s; keeping the previous one, if any.\n", filename);
+    remove(tmp_filename);
+  } else
+    fprintf(stderr, "FINISHED WRITING CHECKPOINT\n");
 }
 """
     cfc.register_CFunction(
         includes=includes,
+        prefunc=prefunc,
         desc=desc,
         cfunc_type=cfunc_type,
         name=name,
-- 
2.43.0


From 40d12e22b81c404bfa8b2cce2575322e9af99ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:37 +0000
Subject: [PATCH 21/43] fix: coordinate-system wrappers forwarded the wrong
 arguments for function-pointer, several function, or expression-sized array
 parameters

---
 .../BHaH/rfm_wrapper_functions.py                | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py b/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py
index c78f4e2..6a691e5 100644
--- a/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py
+++ b/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py
@@ -68,15 +68,21 @@ def register_CFunctions_CoordSystem_wrapper_funcs() -> None:
 
         # Construct function call:
         # Remove linebreaks from params
-        params = base_CFunc.params.replace("\n", "")
+        params = base_CFunc.params.replace("\n", " ")
         # Remove multiple spaces to tidy up the line a little.
         params = " ".join(params.split())
         # Case: functions passed to function.
-        # Remove all function arguments. E.g., void f(REAL x) -> void f.
-        params = re.sub("\\(.*\\)", "", params)
-        # Case: fixed-size arrays.
+        # Keep only the name of function pointers. E.g., void (*f)(REAL x) -> void f(REAL x).
+        params = re.sub(
+            r"\(\s*\*\s*(?:(?:restrict|const)\s+)?(\w+)\s*\)", r"\1", params
+        )
+        # Remove all function arguments, innermost first. E.g., void f(REAL x), int n -> void f, int n.
+        num_subs = 1
+        while num_subs > 0:
+            params, num_subs = re.subn(r"\([^()]*\)", "", params)
+        # Case: arrays.
         # Remove size. E.g., const REAL xx[3] -> const REAL xx.
-        params = re.sub("\\[[0-9A-Z_]*\\]", "", params)
+        params = re.sub(r"\[[^\]]*\]", "", params)
         # Remove pointers, which might brush against variable name.
         params_sanitized = params.replace("*", " ")
         params = ""
-- 
2.43.0


From 2bd1d1b1822c76cf9447826a4e09603c5873ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:44 +0000
Subject: [PATCH 22/43] fix: parameters of grids beyond the default NUMGRIDS
 were never set to their defaults

---
 .../BHaH/numerical_grids_and_timestep.py           | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py b/nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py
index 0766905..6af0e76 100644
--- a/nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py
+++ b/nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py
@@ -248,15 +248,15 @@ def register_CFunction_numerical_grids_and_timestep(
     cfunc_type = "void"
     name = "numerical_grids_and_timestep"
     params = "commondata_struct *restrict commondata, griddata_struct *restrict griddata, bool calling_for_first_time"
-    body = r"""
-  // Step 1.a: Set each CodeParameter in griddata.params to default, for MAXNUMGRIDS grids.
-  params_struct_set_to_default(commondata, griddata);"""
-    body += rf"""
+    body = rf"""
+  // Step 1.a: Set commondata->NUMGRIDS to number of CoordSystems we have
+  commondata->NUMGRIDS = {len(list_of_CoordSystems)};
+
+  // Step 1.b: Set each CodeParameter in griddata.params to default, for all NUMGRIDS grids.
+  params_struct_set_to_default(commondata, griddata);
+
   // Independent grids
   int Nx[3] = {{ -1, -1, -1 }};
-
-  // Step 1.b: Set commondata->NUMGRIDS to number of CoordSystems we have
-  commondata->NUMGRIDS = {len(list_of_CoordSystems)};
 """
     if gridding_approach == "independent grid(s)":
         body += """
-- 
2.43.0


From 876a6682f55e531d4c89b3b70565709a2fd8ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:44 +0000
Subject: [PATCH 23/43] fix: output_progress_every=0 crashed the run with a
 division by zero instead of disabling progress output

---
 nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py b/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py
index 2330bf8..c218756 100644
--- a/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py
+++ b/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py
@@ -82,7 +82,7 @@ def register_CFunction_progress_indicator(
     body += """
   // Proceed only if progress output is enabled (output_progress_every > 0)
   // and the current iteration (nn) is a multiple of the output frequency (output_progress_every)
-  if (! (commondata->output_progress_every >= 0 && (commondata->nn % commondata->output_progress_every == 0)) )
+  if (! (commondata->output_progress_every > 0 && (commondata->nn % commondata->output_progress_every == 0)) )
     return;"""
     if compute_ETA:
         body += """
-- 
2.43.0


From 6dc2fe3537c665289ed36bee0881edc6e3b8b160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:53 +0000
Subject: [PATCH 24/43] fix: bhah_finalize() leaked coordinate arrays and
 boundary maps, and bhah_initialize() allocated too few grids

---
 nrpy/infrastructures/BHaH/bhah_lib.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/bhah_lib.py b/nrpy/infrastructures/BHaH/bhah_lib.py
index 003e37a..d3e2eda 100644
--- a/nrpy/infrastructures/BHaH/bhah_lib.py
+++ b/nrpy/infrastructures/BHaH/bhah_lib.py
@@ -7,7 +7,7 @@ Author: Leonardo Rosa Werneck
 
 from typing import Dict
 
-from nrpy.c_function import register_CFunction
+from nrpy.c_function import CFunction_dict, register_CFunction
 
 
 def register_CFunction_bhah_initialize() -> None:
@@ -30,10 +30,9 @@ commondata_struct *commondata = (commondata_struct *)malloc(sizeof(commondata_st
 // Step 1.b: Set each commondata CodeParameter to default.
 commondata_struct_set_to_default(commondata);
 
-// Step 1.c: Allocate NUMGRIDS griddata arrays, each containing
+// Step 1.c: Allocate MAXNUMGRIDS griddata arrays, each containing
 //           data specific to an individual grid.
-const int n_grids = commondata->NUMGRIDS;
-griddata_struct *griddata = (griddata_struct *)malloc(sizeof(griddata_struct) * n_grids);
+griddata_struct *griddata = (griddata_struct *)malloc(sizeof(griddata_struct) * MAXNUMGRIDS);
 
 // Step 1.d: Set each CodeParameter in griddata.params to default.
 params_struct_set_to_default(commondata, griddata);
@@ -45,7 +44,7 @@ const bool calling_for_first_time = true;
 numerical_grids_and_timestep(commondata, griddata, calling_for_first_time);
 
 // Step 1.f: Allocate memory for all gridfunctions
-for(int grid = 0; grid < n_grids; grid++) {
+for(int grid = 0; grid < commondata->NUMGRIDS; grid++) {
   MoL_malloc_y_n_gfs(commondata, &griddata[grid].params, &griddata[grid].gridfuncs); 
   MoL_malloc_non_y_n_gfs(commondata, &griddata[grid].params, &griddata[grid].gridfuncs);
 }
@@ -88,6 +87,14 @@ def register_CFunction_bhah_finalize() -> None:
               MoL_free_memory_y_n_gfs(&griddata[grid].gridfuncs);
               MoL_free_memory_non_y_n_gfs(&griddata[grid].gridfuncs);
       rfm_precompute_free(commondata, &griddata[grid].params, &griddata[grid].rfmstruct);
+      for(int i = 0; i < 3; i++) free(griddata[grid].xx[i]);
+"""
+    if any(name.startswith("bcstruct_set_up") for name in CFunction_dict):
+        body += """
+      free(griddata[grid].bcstruct.inner_bc_array);
+      for(int ng = 0; ng < NGHOSTS*3; ng++) free(griddata[grid].bcstruct.pure_outer_bc_array[ng]);
+"""
+    body += """
     }
     free(bhah_struct->commondata);
     free(bhah_struct->griddata);
-- 
2.43.0


From 0fe80f2c95ccdedc378a6a04b3beea1ab578b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:46 +0000
Subject: [PATCH 25/43] fix: generated thorn code read integer parameters from
 the wrong thorn, and used the parameter's address as its value

---
 nrpy/infrastructures/CarpetX/CodeParameters.py  | 6 +++---
 nrpy/infrastructures/ETLegacy/CodeParameters.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/CodeParameters.py b/nrpy/infrastructures/CarpetX/CodeParameters.py
index c298ff0..e233eb1 100644
--- a/nrpy/infrastructures/CarpetX/CodeParameters.py
+++ b/nrpy/infrastructures/CarpetX/CodeParameters.py
@@ -105,10 +105,10 @@ def read_CodeParameters(
             CPtype = CodeParam.cparam_type
             if CPtype in ("CCTK_REAL", "REAL"):
                 read_CP_str += read_CCTK_REAL_CodeParameter(CPname, CPthorn)
-            else:
+            elif enable_simd:
                 CPcomment = f"  // {CPthorn}::{CPname}"
-                c_output = f'const {CPtype} {CPname} = CCTK_ParameterGet("{CPname}", "{CodeParam.module}", NULL);{CPcomment}\n'
-                read_CP_str += c_output
+                read_CP_str += f'const {CPtype} *{CPname}ptr = CCTK_ParameterGet("{CPname}", "{CPthorn}", NULL);{CPcomment}\n'
+                read_CP_str += f"const {CPtype} {CPname} = *{CPname}ptr;\n"
     if declare_invdxxs:
         for dirn in range(3):
             read_CP_str += read_CCTK_REAL_CodeParameter(f"invdxx{dirn}", "")
diff --git a/nrpy/infrastructures/ETLegacy/CodeParameters.py b/nrpy/infrastructures/ETLegacy/CodeParameters.py
index b7f07a0..00962db 100644
--- a/nrpy/infrastructures/ETLegacy/CodeParameters.py
+++ b/nrpy/infrastructures/ETLegacy/CodeParameters.py
@@ -114,8 +114,8 @@ def read_CodeParameters(
                 read_CP_str += read_CCTK_REAL_CodeParameter(CPname, CPthorn)
             else:
                 CPcomment = f"  // {CPthorn}::{CPname}"
-                c_output = f'const {CPtype} {CPname} = CCTK_ParameterGet("{CPname}", "{CodeParam.module}", NULL);{CPcomment}\n'
-                read_CP_str += c_output
+                read_CP_str += f'const {CPtype} *{CPname}ptr = CCTK_ParameterGet("{CPname}", "{CPthorn}", NULL);{CPcomment}\n'
+                read_CP_str += f"const {CPtype} {CPname} = *{CPname}ptr;\n"
     if declare_invdxxs:
         for dirn in range(3):
             read_CP_str += read_CCTK_REAL_CodeParameter(f"invdxx{dirn}", "")
-- 
2.43.0


From 8832e2c0796cf7c32b60ba7446ef7da55bc9d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:46 +0000
Subject: [PATCH 26/43] fix: schedule.ccl generation crashed for a thorn
 without scheduled functions

---
 nrpy/infrastructures/CarpetX/schedule_ccl.py  | 2 +-
 nrpy/infrastructures/ETLegacy/schedule_ccl.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/schedule_ccl.py b/nrpy/infrastructures/CarpetX/schedule_ccl.py
index 8c4dd0e..0284d77 100644
--- a/nrpy/infrastructures/CarpetX/schedule_ccl.py
+++ b/nrpy/infrastructures/CarpetX/schedule_ccl.py
@@ -63,7 +63,7 @@ def construct_schedule_ccl(
 # Step 0: Allocate memory for gridfunctions, using the STORAGE: keyword.
 {STORAGE}
 """
-    schedule_ccl_dict: Dict[str, List[ScheduleCCL]] = {}
+    schedule_ccl_dict: Dict[str, List[ScheduleCCL]] = {thorn_name: []}
     for function_name, item in sorted(cfc.CFunction_dict.items()):
         if item.ET_schedule_bins_entries:
             for schedule_bin, entry in item.ET_schedule_bins_entries:
diff --git a/nrpy/infrastructures/ETLegacy/schedule_ccl.py b/nrpy/infrastructures/ETLegacy/schedule_ccl.py
index 9e6dfb2..fa460ed 100644
--- a/nrpy/infrastructures/ETLegacy/schedule_ccl.py
+++ b/nrpy/infrastructures/ETLegacy/schedule_ccl.py
@@ -63,7 +63,7 @@ def construct_schedule_ccl(
 # Step 0: Allocate memory for gridfunctions, using the STORAGE: keyword.
 {STORAGE}
 """
-    schedule_ccl_dict: Dict[str, List[ScheduleCCL]] = {}
+    schedule_ccl_dict: Dict[str, List[ScheduleCCL]] = {thorn_name: []}
     for function_name, item in sorted(cfc.CFunction_dict.items()):
         if item.ET_schedule_bins_entries:
             for schedule_bin, entry in item.ET_schedule_bins_entries:
-- 
2.43.0


From d3da6b128f7b96796f3d1ef317701771f92ea5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:46 +0000
Subject: [PATCH 27/43] fix: symmetry registration of 4-dimensional vectors
 flipped the wrong axes and wrote past sym[3], and rejected names such as J4U0

---
 nrpy/infrastructures/ETLegacy/Symmetry_registration.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/ETLegacy/Symmetry_registration.py b/nrpy/infrastructures/ETLegacy/Symmetry_registration.py
index 4d20fe4..9e547e6 100644
--- a/nrpy/infrastructures/ETLegacy/Symmetry_registration.py
+++ b/nrpy/infrastructures/ETLegacy/Symmetry_registration.py
@@ -49,7 +49,7 @@ def register_CFunction_Symmetry_registration_oldCartGrid3D(
   //    to account for gridfunction parity across
   //    x=0, y=0, and/or z=0 planes, respectively
 """
-            if len(gfname) > 2 and gfname[-3].isdigit():
+            if len(gfname) > 3 and gfname[-3:].isdigit():
                 raise ValueError(
                     "Sorry, gridfunctions of rank 3 or greater not supported."
                 )
@@ -67,8 +67,11 @@ def register_CFunction_Symmetry_registration_oldCartGrid3D(
                     body += f"  sym[{symidx0}] *= -1;\n"
                     body += f"  sym[{symidx1}] *= -1;\n"
             elif gfname[-1].isdigit():  # Rank 1
-                symidx = gfname[-1]
-                body += f"  sym[{symidx}] = -1;\n"
+                symidx = int(gfname[-1])
+                if gf.dimension == 4:
+                    symidx -= 1
+                if symidx >= 0:
+                    body += f"  sym[{symidx}] = -1;\n"
             elif not gfname[-1].isdigit():  # Rank 0
                 body += "  // (this gridfunction is a scalar -- no need to change default sym[]'s!)\n"
             else:
-- 
2.43.0


From eda211422ab334c4fd1edf2997429595ba1372ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:58 +0000
Subject: [PATCH 28/43] fix: BSSN scalars are the same symbols whether or not
 already registered

trK, cf and alpha were real-valued symbols when BSSNQuantities registered the
gridfunctions and unassumed symbols when they were registered before, so the
generated right-hand sides differed between serial and parallel code generation.
---
 nrpy/equations/general_relativity/BSSN_quantities.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nrpy/equations/general_relativity/BSSN_quantities.py b/nrpy/equations/general_relativity/BSSN_quantities.py
index 15c0f52..cb712e7 100644
--- a/nrpy/equations/general_relativity/BSSN_quantities.py
+++ b/nrpy/equations/general_relativity/BSSN_quantities.py
@@ -54,9 +54,6 @@ class BSSNQuantities:
             self.lambdaU = ixp.declarerank1("lambdaU")
             self.vetU = ixp.declarerank1("vetU")
             self.betU = ixp.declarerank1("betU")
-            self.trK, self.cf, self.alpha = sp.symbols(
-                "trK cf alpha"
-            )  # , real=True)  # no tensor gridfunction is real=True. Do this for consistency.
         else:
             # Step 2.a: Register indexed quantities, using ixp.register_... functions
             self.hDD = gri.register_gridfunctions_for_single_rank2(
@@ -76,12 +73,18 @@ class BSSNQuantities:
             )
 
             # Step 2.b: Register scalar quantities, using gri.register_gridfunctions()
-            self.trK, self.cf, self.alpha = gri.register_gridfunctions(
+            gri.register_gridfunctions(
                 ["trK", "cf", "alpha"],
                 f_infinity=[0.0, 1.0, 1.0],
                 wavespeed=[1.0, 1.0, sp.sqrt(2.0)],
             )
 
+        # The scalars must be the same symbols whether or not the gridfunctions were
+        #   already registered, else the generated code depends on what came before.
+        self.trK, self.cf, self.alpha = sp.symbols(
+            "trK cf alpha"
+        )  # , real=True)  # no tensor gridfunction is real=True. Do this for consistency.
+
         self.RbarDD = ixp.declarerank2("RbarDD", symmetry="sym01")
 
         # fmt: off
-- 
2.43.0


From e0b1813a57c3570a3dfdeeb748e88dbfddd85280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:19 +0000
Subject: [PATCH 29/43] fix: kernels with upwinded derivatives did not read the
 control vector when no expression uses it

---
 nrpy/c_codegen.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index 48ed4cb..6a9d2e8 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -403,6 +403,15 @@ def c_codegen(
             list_of_deriv_vars
         )
 
+        # Upwinded derivatives depend on the upwind control vector, so
+        #   its needed components must be read from memory as well.
+        if isinstance(CCGParams.upwind_control_vec, list):
+            for deriv_op in list_of_deriv_operators:
+                if "dupD" in deriv_op:
+                    free_symbols_list.extend(
+                        CCGParams.upwind_control_vec[int(deriv_op[-1])].free_symbols
+                    )
+
         # Store fdcoeffs and stencil (tuple) for each unique
         #   derivative operator to deriv_operator_dict
         deriv_operator_dict = {}
-- 
2.43.0


From 46432ca245f05edaf5a9bb566cd916971db4c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:51 +0000
Subject: [PATCH 30/43] fix: SymTP Cart_to_xx[1] is NaN at the equator through
 cancellation

With an odd number of points in xx1 the equator is on the grid, where the
difference of two nearly equal numbers under the square root came out
negative; bcstruct_set_up then indexed with the resulting NaN and crashed.
---
 nrpy/reference_metric.py | 42 +++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/nrpy/reference_metric.py b/nrpy/reference_metric.py
index 1e59528..543ffd3 100644
--- a/nrpy/reference_metric.py
+++ b/nrpy/reference_metric.py
@@ -1176,16 +1176,21 @@ class ReferenceMetric:
             self.Cart_to_xx[1] = sp.acos(
                 sp.sign(self.Cartz)
                 * (
+                    # Same root as 1 + rSph^2/bScale^2 - Sqrt[...]/bScale^2, in a form that
+                    # neither cancels nor goes negative near the equator (Cartz = 0).
                     sp.sqrt(
-                        1
-                        + rSph**2 / bScale**2
-                        - sp.sqrt(
-                            bScale**4
-                            + 2 * bScale**2 * rSph**2
-                            + rSph**4
-                            - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
+                        4
+                        * self.Cartz**2
+                        / (
+                            bScale**2
+                            + rSph**2
+                            + sp.sqrt(
+                                bScale**4
+                                + 2 * bScale**2 * rSph**2
+                                + rSph**4
+                                - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
+                            )
                         )
-                        / bScale**2
                     )
                     * SQRT1_2
                 )
@@ -1225,16 +1230,21 @@ class ReferenceMetric:
             self.Cart_to_xx[1] = sp.acos(
                 sp.sign(self.Cartz)
                 * (
+                    # Same root as 1 + rSph^2/bScale^2 - Sqrt[...]/bScale^2, in a form that
+                    # neither cancels nor goes negative near the equator (Cartz = 0).
                     sp.sqrt(
-                        1
-                        + rSph**2 / bScale**2
-                        - sp.sqrt(
-                            bScale**4
-                            + 2 * bScale**2 * rSph**2
-                            + rSph**4
-                            - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
+                        4
+                        * self.Cartz**2
+                        / (
+                            bScale**2
+                            + rSph**2
+                            + sp.sqrt(
+                                bScale**4
+                                + 2 * bScale**2 * rSph**2
+                                + rSph**4
+                                - 4 * bScale**2 * rSph**2 * sp.cos(thSph) ** 2
+                            )
                         )
-                        / bScale**2
                     )
                     * SQRT1_2
                 )
-- 
2.43.0


From 7f3575345b530216d6d2f78aa9ccb3f45b3fc062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:49 +0000
Subject: [PATCH 31/43] fix: superB default slice file names need a string
 argument the caller never passes

---
 nrpy/infrastructures/superB/diagnostics.py                | 8 ++++----
 .../superB/output_0d_1d_2d_nearest_gridpoint_slices.py    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/nrpy/infrastructures/superB/diagnostics.py b/nrpy/infrastructures/superB/diagnostics.py
index 8bb806e..58cef97 100644
--- a/nrpy/infrastructures/superB/diagnostics.py
+++ b/nrpy/infrastructures/superB/diagnostics.py
@@ -128,12 +128,12 @@ def register_CFunction_diagnostics(
         "convergence_factor",
     ),
     axis_filename_tuple: Tuple[str, str] = (
-        "out1d-AXIS-%s-conv_factor%.2f-t%08.2f.txt",
-        "CoordSystemName, convergence_factor, time",
+        "out1d-AXIS-conv_factor%.2f-t%08.2f.txt",
+        "convergence_factor, time",
     ),
     plane_filename_tuple: Tuple[str, str] = (
-        "out2d-PLANE-%s-conv_factor%.2f-t%08.2f.txt",
-        "CoordSystemName, convergence_factor, time",
+        "out2d-PLANE-conv_factor%.2f-t%08.2f.txt",
+        "convergence_factor, time",
     ),
     out_quantities_dict: Union[str, Dict[Tuple[str, str], str]] = "default",
     enable_BSSN_diagnostics: bool = True,
diff --git a/nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py b/nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py
index e349752..535d457 100644
--- a/nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py
+++ b/nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py
@@ -324,8 +324,8 @@ def register_CFunction_diagnostics_set_up_nearest_1d_axis(
     out_quantities_dict: Dict[Tuple[str, str], str],
     axis: str,
     filename_tuple: Tuple[str, str] = (
-        "out1d-AXIS-%s-conv_factor%.2f-t%08.2f.txt",
-        "CoordSystemName, convergence_factor, time",
+        "out1d-AXIS-conv_factor%.2f-t%08.2f.txt",
+        "convergence_factor, time",
     ),
 ) -> Union[None, pcg.NRPyEnv_type]:
     r"""
@@ -441,8 +441,8 @@ def register_CFunction_diagnostics_set_up_nearest_2d_plane(
     out_quantities_dict: Dict[Tuple[str, str], str],
     plane: str,
     filename_tuple: Tuple[str, str] = (
-        "out2d-PLANE-%s-conv_factor%.2f-t%08.2f.txt",
-        "CoordSystemName, convergence_factor, time",
+        "out2d-PLANE-conv_factor%.2f-t%08.2f.txt",
+        "convergence_factor, time",
     ),
 ) -> Union[None, pcg.NRPyEnv_type]:
     r"""
-- 
2.43.0


From 353414595225a3bd501cb1e2b37f8b4bb031735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 32/43] fix: superB bcstruct_chare_set_up writes past an empty
 array on chares without non-local sources

---
 nrpy/infrastructures/superB/CurviBoundaryConditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/CurviBoundaryConditions.py b/nrpy/infrastructures/superB/CurviBoundaryConditions.py
index 818d30b..2ad7299 100644
--- a/nrpy/infrastructures/superB/CurviBoundaryConditions.py
+++ b/nrpy/infrastructures/superB/CurviBoundaryConditions.py
@@ -207,7 +207,7 @@ def register_CFunction_bcstruct_chare_set_up(CoordSystem: str) -> None:
       nonlocalinnerbcstruct->globalidx3_srcpts[src_chare_id] = (int *restrict)malloc(sizeof(int) * nonlocalinnerbcstruct->num_srcpts_each_chare[src_chare_id]);
     }
     // Set globalidx3_srcpts and bcstruct_chare->inner_bc_array_nonlocal
-    int count_nonlocalinnerbc_srcpt_each_src_chare[nonlocalinnerbcstruct->tot_num_src_chares] = {0};
+    int count_nonlocalinnerbc_srcpt_each_src_chare[MAX(1, nonlocalinnerbcstruct->tot_num_src_chares)] = {0};
     for (int pt = 0; pt < bcstruct->bc_info.num_inner_boundary_points; pt++) {
       const int dstpt = bcstruct->inner_bc_array[pt].dstpt;
       const int srcpt = bcstruct->inner_bc_array[pt].srcpt;
-- 
2.43.0


From ea46200e0fdbfb63a4a35edcf566ea6b7aec5708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 33/43] fix: superB gathers non-local inner boundary data from
 any chare, mixing stages when one source is ahead

---
 nrpy/infrastructures/superB/timestepping_chare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index bb09298..c1db5e7 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -51,7 +51,7 @@ def generate_process_nonlocalinnerbc_code() -> str:
     return """
       if (griddata_chare[grid].nonlocalinnerbcstruct.tot_num_src_chares > 0) {
         for (iter = 0; iter < griddata_chare[grid].nonlocalinnerbcstruct.tot_num_src_chares; iter++) {
-          when receiv_nonlocalinnerbc_data(int src_chare_idx3, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {
+          when receiv_nonlocalinnerbc_data[griddata_chare[grid].nonlocalinnerbcstruct.idx3_of_src_chares[iter]](int src_chare_idx3, int type_gfs, int len_tmpBuffer, REAL tmpBuffer[len_tmpBuffer]) {
             serial {
               set_tmpBuffer_innerbc_receiv(src_chare_idx3, len_tmpBuffer, tmpBuffer, grid);
               type_gfs_nonlocal_innerbc = type_gfs;
-- 
2.43.0


From 54b7f8e2934d4948eb0282f23d3a2ff230e52432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:39 +0000
Subject: [PATCH 34/43] fix: superB chare xxmax is offset from the global xxmax
 instead of the chare's own extent

---
 nrpy/infrastructures/superB/numerical_grids.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/superB/numerical_grids.py b/nrpy/infrastructures/superB/numerical_grids.py
index 59c7c59..7939b42 100644
--- a/nrpy/infrastructures/superB/numerical_grids.py
+++ b/nrpy/infrastructures/superB/numerical_grids.py
@@ -75,10 +75,10 @@ params_chare->Nxx_plus_2NGHOSTS2 = params_chare->Nxx2 + 2*NGHOSTS;
         body += f"params_chare->{key} = {value};\n"
 
     body += "\n// Set xxmin, xxmax\n"
-    for minmax in ["min", "max"]:
-        for dirn in range(3):
-            param_dir = f"params_chare->xx{minmax}{dirn}"
-            body += f"{param_dir} = params->xx{minmax}{dirn} + (params->dxx{dirn} * (REAL)(params_chare->Nxx{dirn} * chare_index[{dirn}]));\n"
+    for dirn in range(3):
+        body += f"params_chare->xxmin{dirn} = params->xxmin{dirn} + (params->dxx{dirn} * (REAL)(params_chare->Nxx{dirn} * chare_index[{dirn}]));\n"
+    for dirn in range(3):
+        body += f"params_chare->xxmax{dirn} = params->xxmax{dirn} - (params->dxx{dirn} * (REAL)(params_chare->Nxx{dirn} * (Nchare{dirn} - 1 - chare_index[{dirn}])));\n"
 
     body += r"""
 
-- 
2.43.0


From 62f9fddab54e693a27520008d17f645cf3fa7fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:07 +0000
Subject: [PATCH 35/43] fix: superB pup routines name a gridfunction group the
 Euler method does not have

---
 nrpy/infrastructures/superB/superB/superB_pup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/superB/superB/superB_pup.py b/nrpy/infrastructures/superB/superB/superB_pup.py
index 796b5af..aa87e55 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup.py
+++ b/nrpy/infrastructures/superB/superB/superB_pup.py
@@ -229,7 +229,10 @@ void pup_MoL_gridfunctions_struct(PUP::er &p, MoL_gridfunctions_struct &gridfunc
         )
     # In superB, allocate separate memory to diagnostic_output_gfs
     prefunc += "gridfuncs.diagnostic_output_gfs  = (REAL *restrict)malloc(sizeof(REAL) * NUM_EVOL_GFS * Nxx_plus_2NGHOSTS_tot);\n"
-    prefunc += f"gridfuncs.diagnostic_output_gfs2 = gridfuncs.{diagnostic_gridfunctions2_point_to};\n"
+    if diagnostic_gridfunctions2_point_to is None:
+        prefunc += "gridfuncs.diagnostic_output_gfs2 = NULL;\n"
+    else:
+        prefunc += f"gridfuncs.diagnostic_output_gfs2 = gridfuncs.{diagnostic_gridfunctions2_point_to};\n"
     prefunc += """
   }"""
     for gridfunctions in gridfunctions_list:
-- 
2.43.0


From f2861147875b8b639b354905c47fbefa5e03d162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:13 +0000
Subject: [PATCH 36/43] fix: superB: set the psi4 fields of diagnostic_struct
 even without psi4 diagnostics

Without psi4 diagnostics (or on grids that are not spherical-like) the
number of extraction radii, the length of the sums and the pointers were
left uninitialised, while pup_diagnostic_struct() packs arrays of those
lengths and ~Timestepping() frees the pointers.
---
 nrpy/infrastructures/superB/numerical_grids.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nrpy/infrastructures/superB/numerical_grids.py b/nrpy/infrastructures/superB/numerical_grids.py
index 7939b42..4930a91 100644
--- a/nrpy/infrastructures/superB/numerical_grids.py
+++ b/nrpy/infrastructures/superB/numerical_grids.py
@@ -176,6 +176,15 @@ for(int grid=0; grid<commondata->NUMGRIDS; grid++) {
   diagnosticstruct_set_up_nearest_2d_xy_plane(commondata, &griddata[grid].params, &griddata_chare[grid].params, &griddata_chare[grid].charecommstruct, griddata[grid].xx, chare_index, &griddata_chare[grid].diagnosticstruct);
   diagnosticstruct_set_up_nearest_2d_yz_plane(commondata, &griddata[grid].params, &griddata_chare[grid].params, &griddata_chare[grid].charecommstruct, griddata[grid].xx, chare_index, &griddata_chare[grid].diagnosticstruct);
     """
+    body += r"""
+  // No psi4 decomposition unless psi4_diagnostics_set_up() below sets it up
+  griddata_chare[grid].diagnosticstruct.num_of_R_exts_chare = 0;
+  griddata_chare[grid].diagnosticstruct.psi4_spinweightm2_sph_harmonics_max_l = 0;
+  griddata_chare[grid].diagnosticstruct.length_localsums_for_psi4_decomp = 0;
+  griddata_chare[grid].diagnosticstruct.list_of_R_exts_chare = NULL;
+  griddata_chare[grid].diagnosticstruct.localsums_for_psi4_decomp = NULL;
+  griddata_chare[grid].diagnosticstruct.globalsums_for_psi4_decomp = NULL;
+"""
     if enable_psi4_diagnostics:
         body += r"""
   psi4_diagnostics_set_up(commondata, &griddata[grid].params, &griddata_chare[grid].params,
-- 
2.43.0


From 2b7029cb5938c5e1d8e6ff370da3dc24995f1367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:13 +0000
Subject: [PATCH 37/43] fix: superB: pup the chare-to-neighbour tables in full

idx3chare_to_src_chare_id and idx3chare_to_dst_chare_id have one entry per
chare, but were packed and unpacked with one entry per source/destination
chare: after a restart or migration a chare read beyond their end.
---
 nrpy/infrastructures/superB/CurviBoundaryConditions.py | 1 +
 nrpy/infrastructures/superB/superB/superB.h            | 1 +
 nrpy/infrastructures/superB/superB/superB_pup.py       | 9 +++++----
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/superB/CurviBoundaryConditions.py b/nrpy/infrastructures/superB/CurviBoundaryConditions.py
index 2ad7299..03e670e 100644
--- a/nrpy/infrastructures/superB/CurviBoundaryConditions.py
+++ b/nrpy/infrastructures/superB/CurviBoundaryConditions.py
@@ -172,6 +172,7 @@ def register_CFunction_bcstruct_chare_set_up(CoordSystem: str) -> None:
       }
     }
     // Set value
+    nonlocalinnerbcstruct->tot_num_chares = tot_num_chares;
     nonlocalinnerbcstruct->tot_num_src_chares = count_src_chares;
     // Allocate memory
     nonlocalinnerbcstruct->idx3_of_src_chares = (int *restrict)malloc(sizeof(int) * count_src_chares);
diff --git a/nrpy/infrastructures/superB/superB/superB.h b/nrpy/infrastructures/superB/superB/superB.h
index 1a5401e..0481993 100644
--- a/nrpy/infrastructures/superB/superB/superB.h
+++ b/nrpy/infrastructures/superB/superB/superB.h
@@ -129,6 +129,7 @@ typedef struct __tmpBuffers_struct__ {
 } tmpBuffers_struct;
 
 typedef struct __nonlocalinnerbc_struct__ {
+  int tot_num_chares; // length of idx3chare_to_src_chare_id and idx3chare_to_dst_chare_id
   // variables for this chare having the dst pt but not the src pt
   int tot_num_src_chares;
   int *restrict idx3_of_src_chares;
diff --git a/nrpy/infrastructures/superB/superB/superB_pup.py b/nrpy/infrastructures/superB/superB/superB_pup.py
index aa87e55..ce9b8e2 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup.py
+++ b/nrpy/infrastructures/superB/superB/superB_pup.py
@@ -382,15 +382,16 @@ void pup_tmpBuffers_struct(PUP::er &p, tmpBuffers_struct &tmpBuffers, const para
 
 // PUP routine for struct nonlocalinnerbc_struct
 void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
+  p | nonlocal.tot_num_chares;
   p | nonlocal.tot_num_src_chares;
   p | nonlocal.tot_num_dst_chares;
   if (p.isUnpacking()) {
     nonlocal.idx3_of_src_chares = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
-    nonlocal.idx3chare_to_src_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
+    nonlocal.idx3chare_to_src_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_chares);
     nonlocal.num_srcpts_each_chare = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
 
     nonlocal.idx3_of_dst_chares = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
-    nonlocal.idx3chare_to_dst_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
+    nonlocal.idx3chare_to_dst_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_chares);
     nonlocal.num_srcpts_tosend_each_chare = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
 
     nonlocal.map_srcchare_and_srcpt_id_to_linear_id = (int **)malloc(sizeof(int *) * nonlocal.tot_num_src_chares);
@@ -399,11 +400,11 @@ void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
     nonlocal.globalidx3_srcpts_tosend = (int **)malloc(sizeof(int *) * nonlocal.tot_num_dst_chares);
   }
   PUParray(p, nonlocal.idx3_of_src_chares, nonlocal.tot_num_src_chares);
-  PUParray(p, nonlocal.idx3chare_to_src_chare_id, nonlocal.tot_num_src_chares);
+  PUParray(p, nonlocal.idx3chare_to_src_chare_id, nonlocal.tot_num_chares);
   PUParray(p, nonlocal.num_srcpts_each_chare, nonlocal.tot_num_src_chares);
 
   PUParray(p, nonlocal.idx3_of_dst_chares, nonlocal.tot_num_dst_chares);
-  PUParray(p, nonlocal.idx3chare_to_dst_chare_id, nonlocal.tot_num_dst_chares);
+  PUParray(p, nonlocal.idx3chare_to_dst_chare_id, nonlocal.tot_num_chares);
   PUParray(p, nonlocal.num_srcpts_tosend_each_chare, nonlocal.tot_num_dst_chares);
 
   for (int src_chare = 0; src_chare < nonlocal.tot_num_src_chares; src_chare++) {
-- 
2.43.0


From 6ad63c9069375329a1dfb4cd7143c0c366666bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:42 +0000
Subject: [PATCH 38/43] fix: superB: clear the full grid's boundary pointers
 when a chare is unpacked

pup_griddata() leaves bcstruct of the full grid out, but ~Timestepping()
frees its pointers: a chare that had migrated once crashed when it was
destroyed or migrated again.
---
 nrpy/infrastructures/superB/superB/superB_pup.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nrpy/infrastructures/superB/superB/superB_pup.py b/nrpy/infrastructures/superB/superB/superB_pup.py
index ce9b8e2..f24828d 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup.py
+++ b/nrpy/infrastructures/superB/superB/superB_pup.py
@@ -438,6 +438,12 @@ void pup_griddata(PUP::er &p, griddata_struct &gd) {
   PUParray(p, gd.xx[0], gd.params.Nxx_plus_2NGHOSTS0);
   PUParray(p, gd.xx[1], gd.params.Nxx_plus_2NGHOSTS1);
   PUParray(p, gd.xx[2], gd.params.Nxx_plus_2NGHOSTS2);
+  if (p.isUnpacking()) {
+    // bcstruct of the full grid is not PUP'ed; ~Timestepping() frees these pointers.
+    gd.bcstruct.inner_bc_array = NULL;
+    for (int ng = 0; ng < NGHOSTS * 3; ng++)
+      gd.bcstruct.pure_outer_bc_array[ng] = NULL;
+  }
 }
 
 // PUP routine for struct griddata_chare
-- 
2.43.0


From 7d65c33f75ff58969eaa983417f7c7f9b51a7dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:56 +0000
Subject: [PATCH 39/43] fix: superB: pup write_chckpt_this_step

The flag is set before the chare waits for the diagnostics to be written and
read after that; a chare that migrated in between read an unset value and
waited for a checkpoint the other chares do not take.
---
 nrpy/infrastructures/superB/timestepping_chare.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index c1db5e7..e123f69 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -257,6 +257,7 @@ void Timestepping::pup(PUP::er &p) {
   p | iter;
   p | type_gfs_nonlocal_innerbc;
   p | write_diagnostics_this_step;
+  p | write_chckpt_this_step;
   p | f_1d_y;
   p | f_1d_z;
   p | f_2d_xy;
-- 
2.43.0


From 8564dfc4ba7420aaf8f0468fd6fb6958d6fb4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:23 +0000
Subject: [PATCH 40/43] fix: Cart_to_xx_and_nearest_i0i1i2 relative to the
 global grid center does not compile (unbalanced braces)

---
 nrpy/infrastructures/BHaH/xx_tofrom_Cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
index 81395e8..6199a59 100644
--- a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
+++ b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
@@ -64,8 +64,8 @@ def register_CFunction__Cart_to_xx_and_nearest_i0i1i2(
   Cartx -= Cart_originx;
   Carty -= Cart_originy;
   Cartz -= Cart_originz;
-  {
 """
+    body += "  {\n"
     if "theta_adj" in CoordSystem:
         body += ccg.c_codegen(
             [rfm.Cart_to_xx[0], rfm.Cart_to_xx[1], rfm.Cart_to_xx[2]],
-- 
2.43.0


From 404a71dacfaebe7e6ec0dc263044230accdebb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:42 +0000
Subject: [PATCH 41/43] fix: nrpyinline loses indentation and line breaks of
 code inside comments

---
 bin/nrpyinline.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/bin/nrpyinline.py b/bin/nrpyinline.py
index 66fb7d7..c21678b 100644
--- a/bin/nrpyinline.py
+++ b/bin/nrpyinline.py
@@ -28,17 +28,15 @@ def strip_comment_markers(line: str) -> str:
     stripped_line = line.lstrip()
     leading_spaces = line[: len(line) - len(stripped_line)]
 
-    # Remove leading comment markers
-    if stripped_line.startswith("//"):
-        stripped_line = stripped_line[2:].lstrip()
-    elif stripped_line.startswith("/*"):
-        stripped_line = stripped_line[2:].lstrip()
-    elif stripped_line.startswith("*"):
-        stripped_line = stripped_line[1:].lstrip()
-
-    # Remove trailing comment markers
+    # Blank out leading comment markers, so that code keeps its indentation
+    for marker in ("//", "/*", "*"):
+        if stripped_line.startswith(marker):
+            stripped_line = " " * len(marker) + stripped_line[len(marker) :]
+            break
+
+    # Remove trailing comment markers, but keep the line break
     if stripped_line.rstrip().endswith("*/"):
-        stripped_line = stripped_line.rstrip()[:-2].rstrip()
+        stripped_line = stripped_line.rstrip()[:-2].rstrip() + "\n"
 
     # Return the line with original leading spaces and processed content
     return leading_spaces + stripped_line
-- 
2.43.0


From 33c26fe92b27edf2dee64fa4ec23f0b3bc86aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:57 +0000
Subject: [PATCH 42/43] fix: cpyHosttoDevice__gf swaps the host and device
 offsets

---
 nrpy/helpers/gpu/cuda_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/helpers/gpu/cuda_utilities.py b/nrpy/helpers/gpu/cuda_utilities.py
index 39aee1e..23dd82a 100644
--- a/nrpy/helpers/gpu/cuda_utilities.py
+++ b/nrpy/helpers/gpu/cuda_utilities.py
@@ -422,8 +422,8 @@ def register_CFunction_cpyHosttoDevice__gf() -> None:
   size_t streamid = (params->grid_idx + gpu_GF_IDX) % nstreams;
   int offset_gpu  = Nxx_plus_2NGHOSTS_tot * gpu_GF_IDX;
   int offset_host = Nxx_plus_2NGHOSTS_tot * host_GF_IDX;
-  cudaMemcpyAsync(&gf_gpu[offset_host],
-                  &gf_host[offset_gpu],
+  cudaMemcpyAsync(&gf_gpu[offset_gpu],
+                  &gf_host[offset_host],
                   sizeof(REAL) * Nxx_plus_2NGHOSTS_tot,
                   cudaMemcpyHostToDevice, streams[streamid]);
   cudaCheckErrors(cudaMemcpyAsync, "Copy of gf data failed");
-- 
2.43.0


From 7a14a4218c930e61a5cba9f92e073a1a80055b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:57 +0000
Subject: [PATCH 43/43] fix: GPU_Kernel call of a kernel without parameters is
 cut short

---
 nrpy/helpers/gpu/gpu_kernel.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nrpy/helpers/gpu/gpu_kernel.py b/nrpy/helpers/gpu/gpu_kernel.py
index 5f60752..3d7f692 100644
--- a/nrpy/helpers/gpu/gpu_kernel.py
+++ b/nrpy/helpers/gpu/gpu_kernel.py
@@ -198,9 +198,7 @@ dim3 threads_per_block(threads_in_x_dir, threads_in_y_dir, threads_in_z_dir);"""
         c_function_call: str = self.name
         c_function_call += self.launch_settings
 
-        for p in self.params_dict:
-            c_function_call += f"{p}, "
-        c_function_call = c_function_call[:-2] + ");\n"
+        c_function_call += ", ".join(self.params_dict) + ");\n"
 
         if self.cuda_check_error:
             msg = f"{self.name} failure"
-- 
2.43.0

