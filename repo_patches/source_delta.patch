From 4a6c143e8571edb1484044accb329162117220da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 01/30] fix: keep k-points numbered ten and above in the listed
 k-point table

The row recogniser accepted a one-digit index only, so every row from the
tenth on was silently left out and num_kpoints was wrong.
---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 94b612d..ca253e8 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2109,7 +2109,7 @@ def _process_kpoint_blocks(block: Block, *,
             elif "Number of kpoints" in line:
                 accum["num_kpoints"] = to_type(get_numbers(line)[0], int)
     else:
-        kp_block_re = re.compile(gen_table_re(r"\d\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
+        kp_block_re = re.compile(gen_table_re(r"\d+\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
                                               r"\+"))
         accum: KPointsList = {"points": [{"qpt": to_type(match.group("qx", "qy", "qx"), float),
                                           "weight": to_type(match["wt"], float)}
-- 
2.43.0


From 71ea5e07cb6f636ff3aa6933f4337a91ab2871c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 02/30] fix: let parse_single resolve binary parsers by name

Names were looked up among the text parsers only, so "cst_esp" and
"epme_bin" were ignored in favour of the file's extension.
---
 castep_outputs/cli/castep_outputs_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index 7f7417e..beece49 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -63,7 +63,7 @@ def parse_single(in_file: str | Path | TextIO,
         in_file = Path(in_file)
 
     if isinstance(parser, str):
-        parser = PARSERS.get(parser)
+        parser = ALL_PARSERS.get(parser)
 
     if parser is None and isinstance(in_file, Path):
         ext = in_file.suffix.strip(".")
-- 
2.43.0


From 1da443cd6a5e7e9a7bf53d062ca413f49d27d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 03/30] fix: expose the binary parsers at the top level

The documentation says importing castep_outputs exposes all of the parsers.
---
 castep_outputs/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/castep_outputs/__init__.py b/castep_outputs/__init__.py
index 6aed080..a5482ba 100644
--- a/castep_outputs/__init__.py
+++ b/castep_outputs/__init__.py
@@ -3,6 +3,8 @@
 __author__ = "Jacob Wilkins"
 __version__ = "0.3.3"
 
+from .bin_parsers import parse_cst_esp_file as parse_cst_esp_file
+from .bin_parsers import parse_epme_bin_file as parse_epme_bin_file
 from .cli.castep_outputs_main import parse_single  # noqa: F401
 from .parsers import *  # noqa: F403
 from .tools import MDGeomParser as MDGeomParser
-- 
2.43.0


From 5f57bd85de8ae94fab0ed217705b78542f0231ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 04/30] fix: key multi-file results by the name of the file

Path keys made the json dumper fail whenever parse_all was given more than
one Path.
---
 castep_outputs/cli/castep_outputs_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index beece49..05d4033 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -125,7 +125,7 @@ def parse_all(
     for typ, paths in files.items():
         parser = ALL_PARSERS[typ]
         for path in paths:
-            data[path] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
+            data[str(path)] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
 
     if len(data) == 1:
         data = data.popitem()[1]
-- 
2.43.0


From 9715ae99e1365a42603b07e2f727c988768cf866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 05/30] fix: dump plain YAML with PyYAML too

Only the ruamel engine's data was normalised; PyYAML wrote python object tags
for the defaultdicts and tuples of the results.
---
 castep_outputs/cli/castep_outputs_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index 05d4033..8e64480 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -83,7 +83,7 @@ def parse_single(in_file: str | Path | TextIO,
 
     if out_format == "json" or testing:
         data = normalise(data, {dict: json_safe, complex: json_safe})
-    elif out_format in {"yaml", "ruamel"}:
+    elif out_format in {"yaml", "ruamel", "pyyaml"}:
         data = normalise(data, {tuple: list})
 
     if testing:
-- 
2.43.0


From 194050eb44dd0c23482c0f1e0324774768c7f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 06/30] fix: accept the documented "-f yaml" on the command
 line

get_dumpers resolves yaml to the installed engine, but argparse rejected it.
---
 castep_outputs/cli/args.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 232b4af..1369b92 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -39,8 +39,8 @@ def get_parser() -> argparse.ArgumentParser:
                             default="WARNING")
     arg_parser.add_argument("-o", "--output", help="File to write output, default: screen",
                             default=None)
-    arg_parser.add_argument("-f", "--out-format", help="Output format", choices=SUPPORTED_FORMATS,
-                            default="json")
+    arg_parser.add_argument("-f", "--out-format", help="Output format",
+                            choices=(*SUPPORTED_FORMATS, "yaml"), default="json")
 
     arg_parser.add_argument("-t", "--testing", action="store_true",
                             help="Set testing mode to produce flat outputs")
-- 
2.43.0


From 124f6c956144ccfcd8d57e1fe604e87529323057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 07/30] fix: find a seed's .err files in the seed's own
 directory

The pattern repeated the directory, so nothing was found for dir/seed and an
absolute seed raised; the order was also whatever the directory gave.
---
 castep_outputs/cli/args.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 1369b92..fe2f8a0 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -102,8 +102,8 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-            if args.inc_err and (err_files := seed.parent.glob(f"{seed}.*.err")):
-                args.err.extend(map(str, err_files))
+            if args.inc_err:
+                args.err.extend(map(str, sorted(seed.parent.glob(f"{seed.name}.*.err"))))
 
     return args
 
-- 
2.43.0


From 479cb6a1f330a314a097b3b0ffc8c6705d8989e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 08/30] fix: do not close a file handle the caller passed in

FileWrapper closed the wrapped handle when collected, so parsing an open
castep, md or geom file closed it behind its owner's back. Handles opened from
a path are closed by the code which opened them.
---
 castep_outputs/utilities/filewrapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 97a93cd..633f683 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -106,9 +106,6 @@ class FileWrapper:
         """Close wrapped file, and invalidate self."""
         self.file.close()
 
-    def __del__(self) -> None:
-        self.close()
-
 
 class Block:
     """
-- 
2.43.0


From 6037dd14d897a6f0d4b8ee3a157f0dfe6b5cf68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 09/30] fix: no exception from deleting a lazy parser whose
 file does not exist

---
 castep_outputs/tools/md_geom_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index f26fa06..145c349 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -207,7 +207,8 @@ While iteration should work, extracting particular frames may not.
 
     def __del__(self) -> None:
         """Close file before deletion."""
-        self._handle.close()
+        if hasattr(self, "_raw_handle"):
+            self._raw_handle.close()
 
     def __str__(self) -> str:
         return f"""\
-- 
2.43.0


From 62feca1d6e746b7eb73b82895d78876f200cdac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 10/30] fix: report xrd_sf columns in the order of the file

The order of the keys was that of a set of strings, different in each process.
---
 castep_outputs/parsers/xrd_sf_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/xrd_sf_file_parser.py b/castep_outputs/parsers/xrd_sf_file_parser.py
index e30999f..8db2d7d 100644
--- a/castep_outputs/parsers/xrd_sf_file_parser.py
+++ b/castep_outputs/parsers/xrd_sf_file_parser.py
@@ -55,7 +55,7 @@ def parse_xrd_sf_file(xrd_sf_file: TextIO) -> XRDSFFileInfo:
     headers = next(xrd_sf_file).split()[3:]
     # Turn Re(x) into x_re
     headers = [f"{head[3:-1]}_{head[0:2]}".lower() for head in headers]
-    headers_wo = {head[:-3] for head in headers}
+    headers_wo = dict.fromkeys(head[:-3] for head in headers)
 
     xrd_re = re.compile(rf"(?P<qvec>(?:\s*{REs.INTNUMBER_RE}){{3}})" +
                         labelled_floats(headers))
-- 
2.43.0


From d77896ccd0f0fedcf1a14832a16e7909434f4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 11/30] fix: predict the same generated files in every process

With several functionals the pseudopotential theory was that of whichever one
a set of strings gave first.
---
 castep_outputs/tools/get_generated_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index c821da7..a55a7fa 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -469,7 +469,7 @@ def _get_generated_files(
         elif xc & {"libxc_gga", "libxc_hyb_gga"}:
             theory = "PBE"
         else:
-            theory = XC_TO_PS_THEORY.get(next(iter(xc)), "LDA")
+            theory = XC_TO_PS_THEORY.get(min(xc), "LDA")
 
         otf_name = f"{spec}_EXT_{theory}_OTF"
 
-- 
2.43.0


From ded5571c05f8455dbd69c71e49b8b847eec51964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 12/30] fix: report a final configuration without preceding
 geometry steps

The branch indexed a list by name unless an iteration had been recorded before,
so a filter with FINAL_CONFIG but not GEOM_OPT (such as LOW) failed on every
finished geometry optimisation.
---
 castep_outputs/parsers/castep_file_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index ca253e8..c6dba9f 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1051,6 +1051,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             logger("Found final geom configuration")
 
+            curr_run.setdefault("geom_opt", defaultdict(list))
             curr_run["geom_opt"]["final_configuration"] = _process_final_config_block(block)
 
         elif block := Block.from_re(line, castep_file,
@@ -1118,7 +1119,8 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             key, val = normalise_string(match["key"]).lower(), to_type(match["value"], float)
             key = "_".join(key.split())
             logger("Found geomopt %s", key)
-            curr_run["geom_opt"]["final_configuration"][key] = val
+            curr_run.setdefault("geom_opt", defaultdict(list))
+            curr_run["geom_opt"].setdefault("final_configuration", {})[key] = val
 
         elif block := Block.from_re(line, castep_file,
                                     f"<--( min)? {REs.MINIMISERS_RE}$",
-- 
2.43.0


From a416799400d652b5536f9b3c75b349097814e8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 13/30] fix: give the energies of every run the same type

Only those of the last run in the file were turned into tuples.
---
 castep_outputs/parsers/castep_file_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index c6dba9f..8e3958a 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -207,6 +207,8 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                                   REs.EMPTY):
 
             if curr_run:
+                fix_data_types(curr_run, {"energies": float,
+                                          "solvation": float})
                 runs.append(curr_run)
             logger("Found run %s", len(runs) + 1)
             curr_run = defaultdict(list)
-- 
2.43.0


From 5fec7637004a459ff61b239d7a3347022155e733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 14/30] fix: keep the line which follows a one-line warning

The first line after a warning which does not continue it was dropped, whatever
it said; and with warnings filtered out their continuation lines were taken for
sections of their own.
---
 castep_outputs/parsers/castep_file_parser.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 8e3958a..1ffd84c 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -275,20 +275,19 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif match := re.match(r"(?:\s*[^:]+:)?(\s*)warning", line, re.IGNORECASE):
 
-            if Filters.SYS_INFO not in to_parse:
-                continue
-
-            logger("Found warning")
-
             warn = line.strip()
 
-            for tst, line in enumerate(castep_file):
+            for line in castep_file:
                 if not line.strip() or not re.match(match.group(1) + r"\s+", line):
-                    if tst:
-                        castep_file.rewind()
+                    castep_file.rewind()
                     break
                 warn += " " + line.strip()
 
+            if Filters.SYS_INFO not in to_parse:
+                continue
+
+            logger("Found warning")
+
             curr_run["warning"].append(warn)
 
         # Memory estimate
-- 
2.43.0


From 48cc47f75ce2cc36c8b0f7b57375108a49011906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 15/30] fix: do not parse a filtered-out title as a section

The line below the heading was only taken from the file when its section was
asked for, so a title such as "Final energy 7" was reported as an energy when
parameters were filtered out.
---
 castep_outputs/parsers/castep_file_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 1ffd84c..88c13ef 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -305,12 +305,14 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
         # Title
         elif re.match(gen_table_re("Title", r"\*+"), line):
 
+            line = next(castep_file)
+
             if Filters.PARAMETERS not in to_parse:
                 continue
 
             logger("Found title")
 
-            curr_run["title"] = next(castep_file).strip()
+            curr_run["title"] = line.strip()
 
         # Parameters
         elif block := Block.from_re(line, castep_file,
@@ -747,11 +749,12 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif "Applied Electric Field" in line:
 
+            line = next(castep_file)
+
             if Filters.PARAMETERS not in to_parse:
                 continue
 
             logger("Found electric field")
-            line = next(castep_file)
             curr_run["applied_field"] = to_type(get_numbers(line), float)
 
         # Forces blocks
-- 
2.43.0


From 041f54c741ee7e8e462214ae4fe03bf6dee51767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 16/30] fix: accept SCF debug lines before the first kinetic
 eigenvalue

They failed on an unbound local variable.
---
 castep_outputs/parsers/castep_file_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 88c13ef..be91178 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1715,6 +1715,7 @@ def _process_scf(block: Block) -> list[SCFReport]:
     scf = []
     curr: SCFReport = {}
     debug_info: SCFDebugInfo = {}
+    eig = []
     for line in block:
         if match := REs.SCF_LOOP_RE.match(line):
             if curr:
@@ -1760,7 +1761,7 @@ def _process_scf(block: Block) -> list[SCFReport]:
                         "change": float(numbers[3])})
 
         elif "Checking convergence criteria" in line:
-            debug_info["eigenvalue"].append(eig)
+            debug_info.setdefault("eigenvalue", []).append(eig)
             eig = []
 
         elif match := re.match(r"[+(]?(?P<key>[()0-9A-Za-z -]+)=?"
-- 
2.43.0


From 1583248ddf06c978956e5850e2ff5455a272a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 17/30] fix: no unbound label for pair potential values ahead
 of their species

---
 castep_outputs/parsers/castep_file_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index be91178..22af476 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2455,6 +2455,7 @@ def _process_dipole(block: Block) -> DipoleTable:
 def _process_pair_params(block_in: Block) -> dict[str, dict[str, dict | str]]:
 
     accum: dict[str, Any] = {}
+    labels: tuple[tuple[str, ...], ...] = ()
     for line in block_in:
         # Two-body
         if block := Block.from_re(line, block_in, "Two Body", r"^\w*\s*\*+\s*$"):
-- 
2.43.0


From 95767003608fde02052e78e2743fcfbd59c118f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 18/30] fix: report a mixture component which precedes its atom
 as such

It failed on an unbound local variable, or took the position of an atom of an
earlier block.
---
 castep_outputs/parsers/castep_file_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 22af476..f3ad22b 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -651,6 +651,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             logger("Found initial positions")
 
             curr_run["initial_positions"] = {}
+            idx = pos = None
             for line in block:
                 if match := REs.MIXTURE_LINE_1_RE.search(line):
                     val = match.groupdict()
@@ -661,6 +662,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                     curr_run["initial_positions"][spec, idx] = {"pos": pos, "weight": weight}
 
                 elif match := REs.MIXTURE_LINE_2_RE.search(line):
+                    if idx is None:
+                        raise ValueError("Invalid mixture block")
+
                     spec = match["spec"].strip()
                     weight = float(match["weight"])
 
-- 
2.43.0


From a249bf327567c6bcc9c1c1eb35d474df6736b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 19/30] fix: accept lines ahead of the header of a phonon file

A blank first line was enough to fail on an unbound local variable.
---
 castep_outputs/parsers/phonon_file_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/phonon_file_parser.py b/castep_outputs/parsers/phonon_file_parser.py
index 8bc07ec..cce51c4 100644
--- a/castep_outputs/parsers/phonon_file_parser.py
+++ b/castep_outputs/parsers/phonon_file_parser.py
@@ -64,6 +64,8 @@ def parse_phonon_file(phonon_file: TextIO) -> PhononFileInfo:
 
     logger = log_factory(phonon_file)
     phonon_info: PhononFileInfo = defaultdict(list)
+    qdata: PhononFileQPoint = defaultdict(list)
+    eigenvectors_endblock = ""
 
     for line in phonon_file:
         if block := Block.from_re(line, phonon_file, "BEGIN header", "END header"):
@@ -79,7 +81,7 @@ def parse_phonon_file(phonon_file: TextIO) -> PhononFileInfo:
             logger("Found eigenvalue block")
 
             _, _, posx, posy, posz, weight, *qpoint_dir = line.split()
-            qdata: PhononFileQPoint = defaultdict(list)
+            qdata = defaultdict(list)
 
             qdata["qpt"] = to_type((posx, posy, posz), float)
             qdata["weight"] = float(weight)
-- 
2.43.0


From fd20bd2c7f158f8bedb47d9efa7f572515239537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 20/30] fix: keep the units of intermediate and product
 absolute positions

---
 castep_outputs/parsers/cell_param_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index c6ffb76..2caaf82 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -714,8 +714,8 @@ _PARSERS: dict[str, Callable] = {
     "positions_frac_intermediate": _parse_positions,
     "positions_frac_product": _parse_positions,
     "positions_abs": _parse_positions_abs,
-    "positions_abs_intermediate": _parse_positions,
-    "positions_abs_product": _parse_positions,
+    "positions_abs_intermediate": _parse_positions_abs,
+    "positions_abs_product": _parse_positions_abs,
     "positions_aspectral_intermediate": _parse_positions,
     "positions_aspectral_product": _parse_positions,
     "species_pot": _parse_species_pot,
-- 
2.43.0


From 9c79bd2869668c138f530463befbc8c6ed76892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 21/30] fix: accept tab-separated vectors in cell and param
 files

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 2caaf82..4cc72b8 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -160,7 +160,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
             key = key.strip().lower()
             logger("Found param %s", key)
 
-            if " " in val.strip():
+            if len(val.split()) > 1:
                 val = to_type(val.split(), determine_type(val))
             else:
                 val = to_type(val, determine_type(val))
-- 
2.43.0


From f07a3ec8b35b6c29560cb700aadbd9bd26d07fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 22/30] fix: read the frames after a double blank line of a
 trajectory

The first empty block was taken for the end of the file and the remaining
frames were silently dropped.
---
 castep_outputs/parsers/md_geom_file_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/md_geom_file_parser.py b/castep_outputs/parsers/md_geom_file_parser.py
index a6ed344..79e99db 100644
--- a/castep_outputs/parsers/md_geom_file_parser.py
+++ b/castep_outputs/parsers/md_geom_file_parser.py
@@ -171,8 +171,9 @@ def parse_md_geom_file(md_geom_file: TextIO | FileWrapper | Block) -> list[MDGeo
     _comment = parse_header(md_geom_file)
 
     steps = []
-    while block := Block.from_re("", md_geom_file, "", "^$", eof_possible=True):
-        steps.append(parse_md_geom_frame(block))
+    while len(block := Block.from_re("", md_geom_file, "", "^$", eof_possible=True)) > 1:
+        if block:
+            steps.append(parse_md_geom_frame(block))
 
     if not steps:
         logger("Invalid or empty md/geom file.", level="error")
-- 
2.43.0


From b51e41766f03eec4fa83abb2edce60c40c4952ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 23/30] fix: raise on a truncated or corrupt Fortran record

A file cut short at any point gave shortened or empty data without a word.
---
 castep_outputs/bin_parsers/fortran_bin_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/bin_parsers/fortran_bin_parser.py b/castep_outputs/bin_parsers/fortran_bin_parser.py
index e375925..ed87ca0 100644
--- a/castep_outputs/bin_parsers/fortran_bin_parser.py
+++ b/castep_outputs/bin_parsers/fortran_bin_parser.py
@@ -55,7 +55,8 @@ class FortranBinaryReader:
 
         size = int.from_bytes(bin_size, "big")
         data = self.file.read(size)
-        self.file.read(4)
+        if len(data) != size or self.file.read(4) != bin_size:
+            raise OSError("Unexpected end of file or corrupt record.")
         return data
 
     def rewind(self, n: int = 1, /) -> None:
@@ -215,7 +216,10 @@ class FortranBinaryReader:
         :
             Loaded data.
         """
-        return {
+        out = {
             key: parse_bytes(datum, typ)
             for (key, typ), datum in zip(dtypes.items(), self, strict=False)
         }
+        if len(out) != len(dtypes):
+            raise OSError("Unexpected end of file.")
+        return out
-- 
2.43.0


From e7e8c16c2934561c14ddb1a38e87dd8d14ad8931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 24/30] fix: no exponential backtracking on parameter lines

A value of some thirty digits, or some twenty floats, followed by two words
hung the parser: each number could be read in several ways.
---
 castep_outputs/utilities/castep_res.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 00da67e..3d7e248 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -187,7 +187,7 @@ def get_atom_parts(spec: str) -> dict[str, str]:
 #: Floating point number.
 #:
 #: :meta hide-value:
-FNUMBER_RE = r"(?:[+-]?(?:\d*\.\d+|\d+\.\d*))"
+FNUMBER_RE = r"(?:[+-]?(?:\d+\.\d*|\.\d+))"
 
 #: Integer number.
 #:
@@ -601,7 +601,7 @@ PARAM_VALUE_RE = re.compile(
     rf"""
 ^\s*(?P<key>[a-z_]+)
 \s*[ \t:=]\s*
-    (?:(?P<val>(?:\s*{NUMBER_RE.pattern})+)|
+    (?:(?P<val>(?:\s*{NUMBER_RE.pattern}(?!\d))+)|
     # String starts with anything which is NOT digit,+,-,. or space.
     (?P<str>[^-+\d\s.](?:\s*\S+)*))
     # If numeric value, chance of unit
-- 
2.43.0


From 0b015079e5710cfc85056df14b42fbe4da917f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 25/30] fix: split trajectory frames at blank lines holding
 spaces

CASTEP ends each frame of a .md/.geom file with a blank line of spaces,
which "^$" does not match, so all frames were merged into one.
---
 castep_outputs/parsers/md_geom_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/md_geom_file_parser.py b/castep_outputs/parsers/md_geom_file_parser.py
index 79e99db..c014256 100644
--- a/castep_outputs/parsers/md_geom_file_parser.py
+++ b/castep_outputs/parsers/md_geom_file_parser.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 from collections import defaultdict
 from typing import TextIO, TypedDict
 
-from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, TAG_RE, get_numbers
+from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, EMPTY, TAG_RE, get_numbers
 from castep_outputs.utilities.constants import FST_D, TAG_ALIASES
 from castep_outputs.utilities.datatypes import AtomIndex, ThreeByThreeMatrix, ThreeVector
 from castep_outputs.utilities.filewrapper import Block, FileWrapper
@@ -171,7 +171,7 @@ def parse_md_geom_file(md_geom_file: TextIO | FileWrapper | Block) -> list[MDGeo
     _comment = parse_header(md_geom_file)
 
     steps = []
-    while len(block := Block.from_re("", md_geom_file, "", "^$", eof_possible=True)) > 1:
+    while len(block := Block.from_re("", md_geom_file, "", EMPTY, eof_possible=True)) > 1:
         if block:
             steps.append(parse_md_geom_frame(block))
 
-- 
2.43.0


From af772e9871e963deef786654206582f08f695499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 26/30] fix: read the tensors of a magres file without a
 calculation block

---
 castep_outputs/parsers/magres_file_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/castep_outputs/parsers/magres_file_parser.py b/castep_outputs/parsers/magres_file_parser.py
index 690f55f..baf0360 100644
--- a/castep_outputs/parsers/magres_file_parser.py
+++ b/castep_outputs/parsers/magres_file_parser.py
@@ -85,6 +85,7 @@ def parse_magres_file(magres_file: TextIO) -> MagresInfo:
     # pylint: disable=too-many-branches
 
     accum = defaultdict(dict)
+    version = 22  # Layout of current versions, if the file does not say.
 
     for line in magres_file:
         if block := Block.from_re(line, magres_file, r"^\s*\[\w+\]\s*$", r"^\s*\[/\w+\]\s*$"):
-- 
2.43.0


From b1b36fbddf4d12df25d431a97b989597b4ec203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 27/30] fix: report bonds whose spin population is zero as such

A spin column reading 0.00 was dropped as if the column were missing.
---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index f3ad22b..ef527be 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2284,7 +2284,7 @@ def _process_bond_analysis(block: Block) -> BondData:
              if (match := REs.BOND_RE.match(line))}
 
     for val in accum.values():
-        if not val["spin"]:
+        if val["spin"] is None:
             del val["spin"]
 
     return accum
-- 
2.43.0


From a309e3744c58327b6e758fbfe4b62f51b88a8452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 28/30] fix: no exponential backtracking on pseudopotential
 strings

---
 castep_outputs/utilities/castep_res.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 3d7e248..ea7ba63 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -316,7 +316,10 @@ PS_SHELL_RE = re.compile(
 # Need to elimate sign from FP re.
 FP_NUM_RE = r"(?:\d+\.?\d*|\d*\.\d+)"
 
-PSPOT_SHELL_RE = rf"(?:{SHELL_RE}{FNUMBER_RE}?)"
+# Unsigned number directly after shell taken as one: no two ways of splitting the digits.
+PSPOT_SHELL_RE = (
+    rf"(?:\d[{''.join(SHELLS)}](?:\d+\.\d*|\.\d+|\d{{0,2}}(?:[+-](?:\d+\.\d*|\.\d+))?))"
+)
 PROJ_TYPES = "UNGHLP"
 PSPOT_PROJ_RE = re.compile(
     rf"""
-- 
2.43.0


From 1fe99bf09d7642d26f5c0cb081441f2d63e25f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 29/30] fix: report geometry line-search trials only when asked
 for

---
 castep_outputs/parsers/castep_file_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index ef527be..423fd5a 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1112,6 +1112,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif match := re.search(rf"trial guess \(lambda=\s*({REs.EXPFNUMBER_RE})\)", line):
 
+            if Filters.GEOM_OPT not in to_parse:
+                continue
+
             curr_run.setdefault("geom_opt", defaultdict(list))
 
             curr_run["geom_opt"]["trial"].append(float(match.group(1)))
-- 
2.43.0


From f66bd93608f2bf58832f898678ab2d8b8e036d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 30/30] fix: read text files as UTF-8 in every locale

---
 castep_outputs/tools/md_geom_parser.py | 2 +-
 castep_outputs/utilities/utility.py    | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index 145c349..88784f8 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -36,7 +36,7 @@ class MDGeomParser:
         if not self.file.is_file():
             raise FileNotFoundError(f"Cannot open file ({self.file.absolute()}).")
 
-        self._raw_handle = self.file.open()
+        self._raw_handle = self.file.open(encoding="utf-8")
         self._handle = FileWrapper(self._raw_handle)
         self.logger = log_factory(self._handle)
 
diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 7e920d8..d4a9e02 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -642,6 +642,9 @@ def file_or_path(*, mode: Literal["r", "rb"], **open_kwargs: Any) -> Callable:
         Wrapped function able to handle open files or paths invisibly.
     """
 
+    if "b" not in mode:  # Not what the locale happens to say.
+        open_kwargs.setdefault("encoding", "utf-8")
+
     def inner(
         func: Callable[Concatenate[IO, P], Out],
     ) -> Callable[Concatenate[str | Path | IO, P], Out]:
-- 
2.43.0

