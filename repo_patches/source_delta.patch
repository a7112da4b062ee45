From 175888d5fc53f6bf2d3f9393b110b09ab6b95c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 001/123] fix: Maccor to BioLogic times keep fractional hours,
 minutes and milliseconds

---
 beep/protocol/maccor_to_biologic_mb.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 2b62a3f..b585104 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -167,18 +167,17 @@ class MaccorToBiologicMb:
         mins = 0.0 if min_str == "" else float(min_str)
         secs = 0.0 if sec_str == "" else float(sec_str)
 
-        if mins == 0.0 and secs == 0.0:
-            return "{:.3f}".format(int(hours)), "h"
+        # all sections may be fractional, milliseconds are the finest biologic unit
+        total_time_ms = round(hours * 60 * 60 * 1000 + mins * 60 * 1000 + secs * 1000)
 
-        if secs == 0.0:
-            total_time_min = int(hours * 60 + mins)
-            return "{:.3f}".format(total_time_min), "mn"
+        if mins == 0.0 and secs == 0.0 and hours % 1.0 == 0.0:
+            return "{:.3f}".format(hours), "h"
 
-        if secs % 1.0 == 0.0:
-            total_time_sec = int(hours * 60 * 60 + mins * 60 + secs)
-            return "{:.3f}".format(total_time_sec), "s"
+        if secs == 0.0 and total_time_ms % (60 * 1000) == 0:
+            return "{:.3f}".format(total_time_ms // (60 * 1000)), "mn"
 
-        total_time_ms = int(hours * 60 * 60 * 1000 + mins * 60 * 1000 + secs * 1000)
+        if total_time_ms % 1000 == 0:
+            return "{:.3f}".format(total_time_ms // 1000), "s"
 
         biologic_max_time_num = 1e10  # taken from biologic ec-lab software
         if total_time_ms < biologic_max_time_num:
-- 
2.43.0


From deb4288e96445f7a28e6e7e06898f2f528867aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 002/123] fix: Maccor to BioLogic end entry filters see a
 step's only end entry

---
 beep/protocol/maccor_to_biologic_mb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index b585104..323e256 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -684,7 +684,7 @@ class MaccorToBiologicMb:
             if end_entries is None:
                 return step
 
-            end_entries = end_entries if type(end_entries) is not list else end_entries
+            end_entries = end_entries if type(end_entries) is list else [end_entries]
             filtered_end_entries = []
             for idx, end_entry in enumerate(end_entries):
                 if pred(end_entry, idx, step_num):
-- 
2.43.0


From 234f22ba7687dbab704d49df990ca377ebead2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 003/123] fix: Maccor to BioLogic sequence mappers are applied
 one after another

---
 beep/protocol/maccor_to_biologic_mb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 323e256..688d628 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -845,13 +845,13 @@ class MaccorToBiologicMb:
         for i, seq in enumerate(seqs):
             mapped_seq = seq
 
-            mapped_seq = self._apply_max_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_max_voltage_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_voltage_to_seq(technique_num, seq, i)
+            mapped_seq = self._apply_max_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_max_voltage_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_voltage_to_seq(technique_num, mapped_seq, i)
 
             for mapper in self.seq_mappers + extra_mappers:
-                mapped_seq = mapper(technique_num, seq, i)
+                mapped_seq = mapper(technique_num, mapped_seq, i)
 
             mapped_seqs.append(mapped_seq)
 
-- 
2.43.0


From 66404cd9fd5adc3195b587dbdf1596a3ae962d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 004/123] fix: Maccor to BioLogic cycle rules count every
 AdvCycle passed when a loop repeats

---
 beep/protocol/maccor_to_biologic_mb.py | 58 +++++++++++++-------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 688d628..78d3069 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -1090,6 +1090,7 @@ class MaccorToBiologicMb:
 
             prev_loop_open = -1
             prev_measurement_step_num = -1
+            leading_adv_cycle_count = 0
             for i, step in enumerate(tp.steps):
                 step_num = i + tp.step_num_offset + 1
                 step_type = get(step, "StepType")
@@ -1115,37 +1116,38 @@ class MaccorToBiologicMb:
                     if prev_loop_open == -1:
                         raise Exception("Unclosed loop at step {}".format(step_num))
 
-                    # we need to trace the loop to find the cycle advancement
-                    if adv_cycle_count > 0:
-                        if prev_measurement_step_num == -1:
-                            raise Exception(
-                                (
-                                    "Loop end at step {} contains advance cycle with" + "no physical step in loop body"
-                                ).format(step_num)
-                            )
-
-                        looped_cycle_advances = adv_cycle_count
-                        for j in range(prev_loop_open + 1, i + 1):
-                            looped_step_num = j + tp.step_num_offset
-                            if looped_step_num == step_num:
+                    # we need to trace the loop to find the cycle advancement,
+                    # both trailing and leading advances of the loop body count
+                    looped_cycle_advances = adv_cycle_count
+                    for j in range(prev_loop_open + 1, i + 1):
+                        looped_step_num = j + tp.step_num_offset + 1
+                        if looped_step_num == step_num:
+                            if looped_cycle_advances > 0:
                                 raise Exception("Loop end step {} contains no measurement steps".format(step_num))
-                            elif looped_step_num == prev_measurement_step_num:
+                            break
+
+                        looped_step_type = get(tp.steps[j], "StepType")
+                        if looped_step_type == "AdvCycle":
+                            looped_cycle_advances += 1
+                            continue
+
+                        # assumption that step is measurement because there are
+                        # no interleaved loops and only other logical step is adv cycle
+                        if looped_cycle_advances > 0:
+                            # a step split into several seqs is still observable as a transition
+                            if (
+                                looped_step_num == prev_measurement_step_num
+                                and len(tp.seq_nums_by_step_num[looped_step_num]) == 1
+                            ):
                                 raise Exception(
                                     (
                                         "step {} is the only measurement step in a loop that advances cycle index,"
                                         + " correct cycle index computation impossible"
                                     ).format(prev_measurement_step_num)
                                 )
-
-                            looped_step_type = get(tp.steps[j], "StepType")
-                            if looped_step_type == "Adv Cycle":
-                                looped_cycle_advances += 1
-                            else:
-                                # assumption that step is measurement because there are
-                                # no interleaved loops and only other logical step is adv cycle
-                                transition = (prev_measurement_step_num, looped_step_num)
-                                cycle_advances_by_step_transition[transition] = looped_cycle_advances
-                                break
+                            transition = (prev_measurement_step_num, looped_step_num)
+                            cycle_advances_by_step_transition[transition] = looped_cycle_advances
+                        break
 
                     prev_loop_open = -1
                 else:
@@ -1153,6 +1155,7 @@ class MaccorToBiologicMb:
                     assert get(step, "Reports.ReportEntry") is not None
 
                     if prev_measurement_step_num == -1:
+                        leading_adv_cycle_count = adv_cycle_count
                         cycle_advances_on_tech_start += adv_cycle_count
                     elif adv_cycle_count > 0:
                         transition = (prev_measurement_step_num, step_num)
@@ -1160,7 +1163,9 @@ class MaccorToBiologicMb:
                     prev_measurement_step_num = step_num
                     adv_cycle_count = 0
 
-            cycle_advances_on_tech_loop = adv_cycle_count
+            # looping back passes the advances after the last measurement step
+            # as well as the ones before the first
+            cycle_advances_on_tech_loop = adv_cycle_count + leading_adv_cycle_count
 
             # TODO we should also check GOTO transitions as well
             # these should be done _after_ the Next Step and Loop cases
@@ -1173,9 +1178,6 @@ class MaccorToBiologicMb:
             cycle_advances_by_seq_transition = {}
             for (s_, t_), cycle_advances in cycle_advances_by_step_transition.items():
                 # exit from last seq of split, enter at first seq of split
-                if t_ == 33:
-                    print(tp.technique_num)
-                    print(tp.seq_nums_by_step_num)
                 s = tp.seq_nums_by_step_num[s_][-1]
                 t = tp.seq_nums_by_step_num[t_][0]
                 transition = (s, t)
-- 
2.43.0


From e501f5906b5b5b1b4e0e0cae17391a3fc508b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:55 +0000
Subject: [PATCH 005/123] fix: an interrupted command exits with a failure code

---
 beep/cmd.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index d656905..bcadd57 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -593,7 +593,7 @@ def structure(
 
         except KeyboardInterrupt:
             logging.critical("Keyboard interrupt caught - exiting...")
-            click.Context.exit(1)
+            ctx.exit(1)
 
         except BaseException:
             tbinfo = sys.exc_info()
@@ -808,7 +808,7 @@ def featurize(
                     f"'{fclass_name}' not recognized as BEEP native featurizer "
                     f"or importable module."
                 )
-                click.Context.exit(1)
+                ctx.exit(1)
 
             modname, _, clsname = fclass_name.rpartition('.')
             mod = importlib.import_module(modname)
@@ -816,7 +816,7 @@ def featurize(
 
             if not issubclass(cls, BEEPFeaturizer):
                 logging.critical(f"Class {cls.__name__} is not a subclass of BEEPFeaturizer.")
-                click.Context.exit(1)
+                ctx.exit(1)
             fclass = cls
 
         # check parameter arguments and update with full hyperparameter specifications
@@ -899,7 +899,7 @@ def featurize(
 
             except KeyboardInterrupt:
                 logger.critical("Keyboard interrupt caught - exiting...")
-                click.Context.exit(1)
+                ctx.exit(1)
 
             except BaseException:
                 tbinfo = sys.exc_info()
@@ -1320,7 +1320,7 @@ def train(
             test_errors = None
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
@@ -1483,7 +1483,7 @@ def predict(
 
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
-- 
2.43.0


From 43ed3a969b0b90a7880a9a5bce7e4e9d8240b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:55 +0000
Subject: [PATCH 006/123] fix: structure refuses inputs whose outputs would
 overwrite each other

---
 beep/cmd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index bcadd57..18c88ff 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -518,6 +518,13 @@ def structure(
                 for f in files
             ]
 
+    # two different inputs must never be written to the same output file
+    if not validation_only and len(set(zip(files, output_files))) != len(set(output_files)):
+        raise ValueError(
+            "Several input files would be structured to the same output file! "
+            "Specify distinct --output-filenames."
+        )
+
     if automatic and not protocol_parameters_dir:
         logger.warning(
             "--automatic was passed but no protocol parameters "
-- 
2.43.0


From 77aea23a0e767bb4968903fa4c5bec14fa2d82cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:27 +0000
Subject: [PATCH 007/123] fix: featurize writes the auto-named feature matrix
 to --output-dir

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 18c88ff..2a2c366 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -936,7 +936,7 @@ def featurize(
         if output_filename:
             output_filename = os.path.abspath(output_filename)
         else:
-            output_filename = os.path.join(ctx.obj.cwd, default_filename)
+            output_filename = os.path.join(output_dir, default_filename)
 
         dumpfn(feature_matrix, output_filename)
         logger.info(f"Feature matrix of size {feature_matrix.matrix.shape} s"
-- 
2.43.0


From 08055967c0f083f215e2a246474bdf4c95fe8588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:27 +0000
Subject: [PATCH 008/123] fix: featurize reports a file that cannot be loaded
 and goes on with the others

---
 beep/cmd.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 2a2c366..4def005 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -850,15 +850,26 @@ def featurize(
         logger.debug(f"Hashing file '{file}' to MD5")
         op_result = {
             "walltime": None,
-            "processed_md5_chksum": md5sum(file),
-            "featurizers": []
+            "processed_md5_chksum": None,
+            "featurizers": [],
+            "traceback": None
         }
 
-        logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
-        structured_datapath = auto_load_processed(file)
-        logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
+        structured_datapath = None
+        try:
+            op_result["processed_md5_chksum"] = md5sum(file)
+            logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
+            structured_datapath = auto_load_processed(file)
+            logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
+        except Exception:
+            tbinfo = sys.exc_info()
+            logger.error(f"{log_prefix}: Could not be loaded: ({tbinfo[0].__name__}): {file}")
+            op_result["traceback"] = traceback.format_exception(*tbinfo)
+
+            if ctx.obj.halt_on_error:
+                raise
 
-        for fclass, f_hyperparams in fclass_tuples:
+        for fclass, f_hyperparams in (fclass_tuples if structured_datapath else []):
             fclass_name = fclass.__name__
             op_subresult = {
                 "featurizer_name": fclass_name,
-- 
2.43.0


From 00ee7355927f69a0edaaf9069c96f2106672cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:27 +0000
Subject: [PATCH 009/123] fix: featurize leaves no empty feature matrix file
 when no feature was created

---
 beep/cmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 4def005..5afc59d 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -46,6 +46,7 @@ from beep.features.base import (
     BEEPFeaturizer,
     BEEPFeaturizationError,
     BEEPFeatureMatrix,
+    BEEPFeatureMatrixError,
 )
 from beep.features.core import (
     HPPCResistanceVoltageFeatures,
@@ -940,6 +941,8 @@ def featurize(
 
     feature_matrix_status = {}
     try:
+        if not bfs:
+            raise BEEPFeatureMatrixError("No features were created for any file.")
         feature_matrix = BEEPFeatureMatrix(bfs)
         default_filename = f"FeatureMatrix-{datetime.datetime.now().strftime('%Y-%d-%m_%H.%M.%S.%f')}.json.gz"
 
-- 
2.43.0


From 635c40b831e8e5df874afe37aff7b8350483bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:27 +0000
Subject: [PATCH 010/123] fix: featurize never overwrites one saved featurizer
 with another

---
 beep/cmd.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 5afc59d..54c4947 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -844,6 +844,7 @@ def featurize(
     }
     i = 0
     bfs = []
+    intermediates = set()
     for file in files:
         log_prefix = f"File {i + 1} of {n_files}"
 
@@ -909,7 +910,15 @@ def featurize(
                 if save_intermediates:
                     intermediate_filename = f"{fclass_name}-{os.path.basename(file)}"
                     output_path = os.path.join(output_dir, intermediate_filename)
+                    n_same_name = 1
+                    while output_path in intermediates:
+                        # same featurizer with other hyperparameters, or files of the same name
+                        n_same_name += 1
+                        output_path = os.path.join(
+                            output_dir, f"{fclass_name}-{n_same_name}-{os.path.basename(file)}"
+                        )
                     dumpfn(f, output_path)
+                    intermediates.add(output_path)
                     logger.info(
                         f"{log_prefix}: Featurizer {fclass_name} features for '{file}' written to '{output_path}'")
                     op_subresult["output"] = output_path
-- 
2.43.0


From 6e3deb3ebcef66ac10fd9ca84755476603f36722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:38 +0000
Subject: [PATCH 011/123] fix: charge duration is matched to its cycle, not to
 its row number

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index c37bfdd..d23f113 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -820,7 +820,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         # charge_capacity and will have NaN for charge duration
         merged = charge_start_time.merge(
             charge_finish_time, on="cycle_index", how="left"
-        )
+        ).set_index("cycle_index")
 
         # Charge duration stored in seconds - note that date_time_iso is only ~1sec resolution
         time_diff = np.subtract(
-- 
2.43.0


From 006e0b1b3325cf37a99697dc4c4436eda50f6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:38 +0000
Subject: [PATCH 012/123] fix: summarizing cycles leaves no helper column in
 the raw data

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index d23f113..5434ca8 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -851,7 +851,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             )
 
         # Drop the time since cycle start column
-        self.raw_data.drop(columns=["time_since_cycle_start"])
+        self.raw_data.drop(columns=["time_since_cycle_start"], inplace=True)
 
         # Determine if any of the cycles has been paused
         summary["paused"] = self.raw_data.groupby("cycle_index").apply(
-- 
2.43.0


From 2c6daca9150b5f1b224c492fb1fb02f69cb8c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:38 +0000
Subject: [PATCH 013/123] fix: interpolation works on raw data whose index is
 not a plain range

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 5434ca8..443c25e 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -709,7 +709,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             diag_mask = self.raw_data.cycle_index.isin(self.diagnostic.all_ix)
             reg_mask = ~diag_mask
         else:
-            reg_mask = pd.Series([True] * self.raw_data.shape[0])
+            reg_mask = pd.Series(True, index=self.raw_data.index)
 
         reg_cycles = self.raw_data[reg_mask].cycle_index.unique()
 
-- 
2.43.0


From a1bdb6da14ca6ceb60dd2238abdb7964bef94054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:38 +0000
Subject: [PATCH 014/123] fix: a charge that is constant voltage from its first
 point has a CV segment

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 443c25e..00a3fe0 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1480,7 +1480,7 @@ def get_CV_segment_from_charge(charge, dt_tol=1, dVdt_tol=1e-5, dIdt_tol=1e-4):
             i = i+1
 
         # Filter for CV phase
-        return charge.loc[charge.test_time >= charge.test_time.iat[i-1]]
+        return charge.loc[charge.test_time >= charge.test_time.iat[max(i-1, 0)]]
 
 
 def get_CV_time(CV):
-- 
2.43.0


From ffc37e1e2b56d6cc3a39aec5eda857b0a8741950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:38 +0000
Subject: [PATCH 015/123] fix: structuring parameters record the excluded
 cycles

---
 beep/structure/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 00a3fe0..548ea30 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -559,7 +559,8 @@ class BEEPDatapath(abc.ABC, MSONable):
             "nominal_capacity": nominal_capacity,
             "full_fast_charge": full_fast_charge,
             "charge_axis": charge_axis,
-            "discharge_axis": discharge_axis
+            "discharge_axis": discharge_axis,
+            "exclude_cycles": None if exclude_cycles is None else list(exclude_cycles)
         }
 
     @StructuringDecorators.must_not_be_legacy
-- 
2.43.0


From f3e2d98a65e42fc53e160ec5a06de4d3b65dca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:38 +0000
Subject: [PATCH 016/123] fix: an unstructured datapath is still unstructured
 after being saved and loaded

---
 beep/structure/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 548ea30..525a862 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -444,8 +444,11 @@ class BEEPDatapath(abc.ABC, MSONable):
         datapath = cls(raw_data=raw_data, metadata=metadata, paths=paths, schema=schema)
         datapath._is_legacy = is_legacy
 
-        datapath.structured_data = pd.DataFrame(d["cycles_interpolated"])
-        datapath.structured_summary = pd.DataFrame(d["summary"])
+        structured_data = d["cycles_interpolated"]
+        structured_summary = d["summary"]
+        datapath.structured_data = structured_data if structured_data is None else pd.DataFrame(structured_data)
+        datapath.structured_summary = structured_summary if structured_summary is None else pd.DataFrame(
+            structured_summary)
 
         diagnostic_summary = d.get("diagnostic_summary")
         diagnostic_data = d.get("diagnostic_interpolated")
-- 
2.43.0


From 4acc9fb0ec49ec9780ab17f2947e94a424f69b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:38 +0000
Subject: [PATCH 017/123] fix: structuring without a diagnostic drops earlier
 diagnostic results

---
 beep/structure/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 525a862..402ad6d 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -536,6 +536,8 @@ class BEEPDatapath(abc.ABC, MSONable):
                 voltage_resolution=diagnostic_resolution
             )
         else:
+            self.diagnostic_summary = None
+            self.diagnostic_data = None
             logger.info("Diagnostic not set; interpolating aging cycles only.")
 
         logger.info(
-- 
2.43.0


From f707581bdce6aa3d92761452f964ab36b54e30eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:38 +0000
Subject: [PATCH 018/123] fix: a step with a single charge increment is not
 taken for a discharge

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 402ad6d..180f0a3 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1359,7 +1359,7 @@ def step_is_chg_state(step_df, chg, indeterminate_step_charge=True):
     if np.isnan(avg_chg_delta) and np.isnan(avg_dchg_delta):
         is_charging = None
     elif np.isnan(avg_chg_delta):
-        is_charging = avg_dchg_delta > 0
+        is_charging = not avg_dchg_delta > 0
     elif np.isnan(avg_dchg_delta):
         is_charging = avg_chg_delta > 0
     else:
-- 
2.43.0


From 766a2bff351e7fb973a76cf1142a33f6713156b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:25 +0000
Subject: [PATCH 019/123] fix: completeness of the last regular cycle is judged
 by its own voltage

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 180f0a3..c01e0b5 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -891,7 +891,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             return summary
 
         last_voltage = self.raw_data.loc[
-            self.raw_data["cycle_index"] == self.raw_data["cycle_index"].max()
+            self.raw_data["cycle_index"] == summary["cycle_index"].iloc[-1]
             ]["voltage"]
         if (
                 (last_voltage.min() < cycle_complete_vmin)
-- 
2.43.0


From bbd609fba3c8ca969cf9a7e73b7dfab34d6eee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:49 +0000
Subject: [PATCH 020/123] fix: a run without any interpolatable diagnostic step
 can be structured

---
 beep/structure/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index c01e0b5..79076ec 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1032,6 +1032,10 @@ class BEEPDatapath(abc.ABC, MSONable):
             else:
                 all_dfs.append(new_df)
 
+        if not all_dfs:
+            logger.warning("No diagnostic steps could be interpolated!")
+            return pd.DataFrame()
+
         # Ignore the index to avoid issues with overlapping voltages
         result = pd.concat(all_dfs, ignore_index=True)
         result.sort_values(
-- 
2.43.0


From 6d4b873dc3292f1bbd865040a6c6742bbfe9bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:34 +0000
Subject: [PATCH 021/123] fix: a structuring that fails leaves the datapath as
 it was

---
 beep/structure/base.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 79076ec..8d3a4ec 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -529,22 +529,22 @@ class BEEPDatapath(abc.ABC, MSONable):
 
         """
 
+        diagnostic_summary = None
+        diagnostic_data = None
         if self.diagnostic:
-            self.diagnostic_summary = self.summarize_diagnostic()
-            self.diagnostic_data = self.interpolate_diagnostic_cycles(
+            diagnostic_summary = self.summarize_diagnostic()
+            diagnostic_data = self.interpolate_diagnostic_cycles(
                 time_resolution=diagnostic_resolution,
                 voltage_resolution=diagnostic_resolution
             )
         else:
-            self.diagnostic_summary = None
-            self.diagnostic_data = None
             logger.info("Diagnostic not set; interpolating aging cycles only.")
 
         logger.info(
             f"Beginning structuring along charge axis '{charge_axis}' and discharge "
             f"axis '{discharge_axis}'."
         )
-        self.structured_data = self.interpolate_cycles(
+        structured_data = self.interpolate_cycles(
             v_range=v_range,
             resolution=resolution,
             charge_axis=charge_axis,
@@ -552,11 +552,17 @@ class BEEPDatapath(abc.ABC, MSONable):
             exclude_cycles=exclude_cycles
         )
 
-        self.structured_summary = self.summarize_cycles(
+        structured_summary = self.summarize_cycles(
             nominal_capacity=nominal_capacity,
             full_fast_charge=full_fast_charge,
         )
 
+        # Assigned together, so a failed structuring leaves the datapath as it was
+        self.diagnostic_summary = diagnostic_summary
+        self.diagnostic_data = diagnostic_data
+        self.structured_data = structured_data
+        self.structured_summary = structured_summary
+
         self.structuring_parameters = {
             "v_range": v_range,
             "resolution": resolution,
-- 
2.43.0


From ed98c5954efdfed4bb0d096f526f7e182b8f68da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:34 +0000
Subject: [PATCH 022/123] fix: cycle life is found when the capacity ends
 exactly at the threshold

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 8d3a4ec..739c870 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1169,7 +1169,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         # If capacity falls below 80% of initial capacity by end of run
         if self.structured_summary.discharge_capacity.iloc[-1] / max_capacity <= threshold:
             cycle_life = self.structured_summary[
-                self.structured_summary.discharge_capacity < threshold * max_capacity
+                self.structured_summary.discharge_capacity / max_capacity <= threshold
             ].index[0]
         else:
             # Some cells do not degrade below the threshold (low degradation rate)
-- 
2.43.0


From e6df32fb3aaa21a8b288ce83137ff36cc708bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:34 +0000
Subject: [PATCH 023/123] fix: cycle life is the same before and after saving a
 datapath

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 739c870..69fee92 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1170,7 +1170,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         if self.structured_summary.discharge_capacity.iloc[-1] / max_capacity <= threshold:
             cycle_life = self.structured_summary[
                 self.structured_summary.discharge_capacity / max_capacity <= threshold
-            ].index[0]
+            ].cycle_index.iloc[0]
         else:
             # Some cells do not degrade below the threshold (low degradation rate)
             cycle_life = len(self.structured_summary) + 1
-- 
2.43.0


From e49ef8897bb4a8358aa20ecf45695b01978c10f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:34 +0000
Subject: [PATCH 024/123] fix: capacities at cycles work for intervals that do
 not divide the range

---
 beep/structure/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 69fee92..0254ecc 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1190,11 +1190,9 @@ class BEEPDatapath(abc.ABC, MSONable):
         Returns:
             pandas.DataFrame:
         """
-        discharge_capacities = pd.DataFrame(
-            np.zeros((1, int((cycle_max - cycle_min) / cycle_interval)))
-        )
-        counter = 0
         cycle_indices = np.arange(cycle_min, cycle_max, cycle_interval)
+        discharge_capacities = pd.DataFrame(np.zeros((1, len(cycle_indices))))
+        counter = 0
         for cycle_index in cycle_indices:
             try:
                 discharge_capacities[counter] = self.structured_summary.discharge_capacity.iloc[
-- 
2.43.0


From ec31173225c138ee5713fcf963a3b3821d704783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 025/123] fix: training features are dropped by the feature
 threshold

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 2024cf5..b965512 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -135,7 +135,7 @@ class BEEPLinearModelExperiment(MSONable):
             )
 
         # Form the clean feature matrix
-        X = X.dropna(axis=1, thresh=train_sample_drop_nan_thresh * X.shape[0])
+        X = X.dropna(axis=1, thresh=train_feature_drop_nan_thresh * X.shape[0])
         X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
         X = self._impute_df(X, method=impute_strategy)
         self.impute_strategy = impute_strategy
-- 
2.43.0


From abe6a1104625d1bd2033fec8ab0744800549c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 026/123] fix: default max_iter of linear model experiments is
 an integer

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index b965512..bfd144d 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -100,7 +100,7 @@ class BEEPLinearModelExperiment(MSONable):
             drop_nan_training_targets: bool = False,
             impute_strategy: str = "median",
             kfold: int = 5,
-            max_iter: int = 1e6,
+            max_iter: int = 1000000,
             tol: float = 1e-4,
             # only relevant for elasticnet
             l1_ratio: Union[Tuple[float], List[float]] = (
-- 
2.43.0


From ad2171c403e7d3ec3cea218df6533e19d5f1a57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 027/123] fix: predicting leaves the given feature matrix
 unchanged

---
 beep/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beep/model.py b/beep/model.py
index bfd144d..960a057 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -446,8 +446,7 @@ class BEEPLinearModelExperiment(MSONable):
         """
         d = BEEPFeatureMatrix.OP_DELIMITER
         cols_stripped = [d.join(c.split(d)[:-1]) for c in X.columns]
-        X.columns = cols_stripped
-        return X
+        return X.set_axis(cols_stripped, axis=1)
 
     @staticmethod
     def _impute_df(df, method="median"):
-- 
2.43.0


From e97c46f88e23d4fe8150538e8352189e2a41c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 028/123] fix: predict lists only the samples that were dropped

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 960a057..db5f6c6 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -359,7 +359,7 @@ class BEEPLinearModelExperiment(MSONable):
 
         dropped = []
         if X_old.shape[0] != X.shape[0]:
-            dropped = [s for s in X_old.index if s not in X]
+            dropped = [s for s in X_old.index if s not in X.index]
             logger.warning(
                 f"{len(dropped)} samples dropped due to nan sample threshold "
                 f"of {self.predict_sample_nan_thresh}. List of those dropped "
-- 
2.43.0


From cc6e71c3a5af019c13ac841659ab862cb87a39ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 029/123] fix: extra features do not count for the prediction
 sample threshold

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index db5f6c6..bb8af45 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -353,7 +353,7 @@ class BEEPLinearModelExperiment(MSONable):
         X_old = copy.deepcopy(X)
         X = X[self.feature_labels].dropna(
             axis=0,
-            thresh=self.predict_sample_nan_thresh * X.shape[1]
+            thresh=self.predict_sample_nan_thresh * len(self.feature_labels)
         )
         X = self._impute_df(X, self.impute_strategy)
 
-- 
2.43.0


From 4bef6c9bd053617fde7421981384240cb0120f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 030/123] fix: infinite features are missing values in
 prediction as in training

---
 beep/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/model.py b/beep/model.py
index bb8af45..9b1faaa 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -326,6 +326,7 @@ class BEEPLinearModelExperiment(MSONable):
             X = feature_matrix.matrix
         else:
             X = feature_matrix
+        X = X.replace([np.inf, -np.inf], np.nan)
 
         # make sure features will have the same names if homogenize features
         # even if featurizer' hyperparameters are different
-- 
2.43.0


From e3df783f5c6b4c109ffb4ed34138f6c89a31dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 031/123] fix: ridge accepts candidate alphas given as an array

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 9b1faaa..d55568d 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -265,7 +265,7 @@ class BEEPLinearModelExperiment(MSONable):
 
             # Ridge has to have alphas set by hand as it has no
             # default alphas
-            if not kwargs["alphas"]:
+            if kwargs["alphas"] is None:
                 kwargs["alphas"] = (1e-3, 1e-2, 1e-1, 1, 10, 100, 1000)
         else:
             raise NotImplementedError(f"Unsupported model '{self.model_name}'")
-- 
2.43.0


From 51952a119a1228393b5d12eeabe09efe6763ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:23 +0000
Subject: [PATCH 032/123] fix: a reloaded linear model scales features as it
 was trained

---
 beep/model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index d55568d..13bf98b 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -197,7 +197,7 @@ class BEEPLinearModelExperiment(MSONable):
         # todo: this is only to help with deserialization, this could cause
         # todo: contamination in judging test scores when used with
         # todo: train_and_score()
-        self.scaler = StandardScaler().fit(X)
+        self.scaler = StandardScaler().fit(self.X)
         self.kfold = kfold
         self.alphas = alphas
         self.max_iter = max_iter
@@ -511,6 +511,11 @@ class BEEPLinearModelExperiment(MSONable):
                 "intercept_": self.model.intercept_.tolist(),
                 "optimal_hyperparameters": self.optimal_hyperparameters,
             },
+            "scaler_sklearn": {
+                "mean_": self.scaler.mean_.tolist(),
+                "var_": self.scaler.var_.tolist(),
+                "scale_": self.scaler.scale_.tolist(),
+            },
 
         }
 
@@ -558,6 +563,11 @@ class BEEPLinearModelExperiment(MSONable):
         model.coef_ = np.asarray(model_params["coef_"])
         model.intercept_ = np.asarray(model_params["intercept_"])
         o.model = model
+
+        # The model may have been trained on a part of the data only
+        for attr, values in d.get("scaler_sklearn", {}).items():
+            setattr(o.scaler, attr, np.asarray(values))
+
         o.optimal_hyperparameters = model_params["optimal_hyperparameters"]
         return o
 
-- 
2.43.0


From acfba04fdb5d8e7c78a9bd64d9f858b916648bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:47 +0000
Subject: [PATCH 033/123] fix: candidate alphas given as an array survive
 saving a linear model

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 13bf98b..a235f25 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -492,7 +492,7 @@ class BEEPLinearModelExperiment(MSONable):
             "target_matrix": self.target_matrix.as_dict(),
             "targets": self.targets,
             "model_name": self.model_name,
-            "alphas": self.alphas,
+            "alphas": None if self.alphas is None else [float(a) for a in self.alphas],
             "train_feature_drop_nan_thresh": self.train_feature_drop_thresh,
             "train_sample_drop_nan_thresh": self.train_sample_drop_thresh,
             "predict_sample_nan_thresh": self.predict_sample_nan_thresh,
-- 
2.43.0


From d0b555316882676961d5fe4d2550844ad7910c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:38 +0000
Subject: [PATCH 034/123] fix: train passes nan thresholds and l1 ratios to the
 model

---
 beep/cmd.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 54c4947..e60290d 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1115,16 +1115,16 @@ def featurize(
     type=click.FLOAT,
     help="Threshold to keep a feature in the training dataset, in "
          "fraction of samples which must not be nan from 0-1. "
-         "0 = any feature having any nan is dropped, 1 = no "
-         "features are dropped."
+         "0 = no features are dropped, 1 = any feature having "
+         "any nan is dropped."
 )
 @click.option(
     "--train-sample-nan-thresh",
     type=click.FLOAT,
     help="Threshold to keep a sample from the training data, in "
          "fraction of features which must not be nan "
-         "from 0-1. 0 = any sample having any "
-         "nan feature is dropped, 1 = no samples are dropped."
+         "from 0-1. 0 = no samples are dropped, 1 = any sample "
+         "having any nan feature is dropped."
 )
 @click.option(
     "--predict-sample-nan-thresh",
@@ -1288,15 +1288,15 @@ def train(
         l1_ratios = [float(l1r) for l1r in l1_ratios.strip().split(",")]
 
     additional_kwargs = {
-        "train_feature_nan_thresh": train_feature_nan_thresh,
-        "train_sample_nan_thresh": train_sample_nan_thresh,
+        "train_feature_drop_nan_thresh": train_feature_nan_thresh,
+        "train_sample_drop_nan_thresh": train_sample_nan_thresh,
         "predict_sample_nan_thresh": predict_sample_nan_thresh,
         "drop_nan_training_targets": drop_nan_training_targets,
         "impute_strategy": impute_strategy,
         "kfold": kfold,
         "max_iter": max_iter,
         "tol": tol,
-        "l1_ratios": l1_ratios,
+        "l1_ratio": l1_ratios,
         "homogenize_features": homogenize_features,
         "alphas": alphas,
     }
-- 
2.43.0


From ffecb0024f6ed57f1e7d42f964f928042d272509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:38 +0000
Subject: [PATCH 035/123] fix: train searches the requested range of alphas

---
 beep/cmd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index e60290d..e735e54 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1104,7 +1104,7 @@ def featurize(
 @click.option(
     "--n-alphas",
     "-an",
-    type=click.FLOAT,
+    type=click.INT,
     help="Number of linearly spaced alphas to explore during "
          "hyperparameter tuning. If not specified, sklearn defaults "
          "are used. Must be specified with --alpha-upper and "
@@ -1279,7 +1279,11 @@ def train(
     )
 
     alpha_params = [alpha_lower, alpha_upper, n_alphas]
-    if any(alpha_params) and not all(alpha_params):
+    if any(a is not None for a in alpha_params):
+        if any(a is None for a in alpha_params):
+            raise ValueError(
+                "--alpha-lower, --alpha-upper and --n-alphas must be specified together."
+            )
         alphas = np.linspace(start=alpha_lower, stop=alpha_upper, num=n_alphas)
     else:
         alphas = None
-- 
2.43.0


From 53e79db85d58fc6cf75c526ecad8a5cc19ccba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:38 +0000
Subject: [PATCH 036/123] fix: predict accepts a sample nan threshold of zero

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index e735e54..818f09b 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1501,7 +1501,7 @@ def predict(
 
         # Optionally override the previously set sample nan thresh
         # for prediction dataframes
-        if predict_sample_nan_thresh:
+        if predict_sample_nan_thresh is not None:
             model.predict_sample_nan_thresh = predict_sample_nan_thresh
 
         logging.debug(
-- 
2.43.0


From 3434ff2d73f10b75a3ad538a3d9a1ea76f2b8001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:04 +0000
Subject: [PATCH 037/123] fix: the feature threshold never drops split or
 exclusion columns

---
 beep/prediction/beep_data_splitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 8d475da..e520236 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -138,7 +138,8 @@ class BEEPDataSplitter(MSONable):
         y = y.replace([np.inf, -np.inf], np.nan)
 
         # Form the clean feature matrix
-        X = X.dropna(axis=1, thresh=train_feature_drop_nan_thresh * X.shape[0])
+        kept_features = X[features].dropna(axis=1, thresh=train_feature_drop_nan_thresh * X.shape[0]).columns
+        X = X.drop(columns=[f for f in features if f not in kept_features])
         X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
 
         if exclusion_columns is not None:
-- 
2.43.0


From 8df5d4bc98cd4ea50f4226adc3a5f466de03cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:04 +0000
Subject: [PATCH 038/123] fix: data splitter refuses data without a usable
 feature

---
 beep/prediction/beep_data_splitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index e520236..c9cc03e 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -184,7 +184,7 @@ class BEEPDataSplitter(MSONable):
                 f"features ({X.shape[1]}); may cause overfitting."
             )
 
-        if X.shape[0] < 2 or X.shape[1] < 1:
+        if X.shape[0] < 2 or len(kept_features) < 1:
             raise BEEPDataSplitterError(
                 "Cleaned feature matrix has dimensions of less "
                 "than 1 feature or less than 2 samples. Try adjusting "
-- 
2.43.0


From 7464f0017ce30415c23b68b41af70c1bed48ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:04 +0000
Subject: [PATCH 039/123] fix: a saved data splitter keeps all its settings

---
 beep/prediction/beep_data_splitter.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index c9cc03e..fb33835 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -213,6 +213,7 @@ class BEEPDataSplitter(MSONable):
 
         self.feature_labels = [c for c in self.X.columns if c in features]
 
+        self.features = features
         self.targets = targets
 
         self.multi = len(self.targets) > 1
@@ -224,6 +225,8 @@ class BEEPDataSplitter(MSONable):
         self.n_splits = n_splits
         self.random_state = random_state
         self.split_columns = split_columns
+        self.exclusion_columns = exclusion_columns
+        self.drop_split_threshold = drop_split_threshold
         self.datasets = None
 
     def split(self):
@@ -327,15 +330,18 @@ class BEEPDataSplitter(MSONable):
             "@module": self.__class__.__module__,
             "@class": self.__class__.__name__,
             "feature_matrix": self.feature_matrix.as_dict(),
-            "features": self.feature_labels,
+            "features": self.features,
             "targets": self.targets,
             "train_feature_drop_nan_thresh": self.train_feature_drop_nan_thresh,
             "train_sample_drop_nan_thresh": self.train_sample_drop_nan_thresh,
             "drop_nan_training_targets": self.drop_nan_training_targets,
+            "impute_strategy": self.impute_strategy,
             "homogenize_features": self.homogenize_features,
             "n_splits": self.n_splits,
             "random_state": self.random_state,
             "split_columns": self.split_columns,
+            "exclusion_columns": self.exclusion_columns,
+            "drop_split_threshold": self.drop_split_threshold,
             "datasets": [d.as_dict() for d in self.datasets]
         }
 
@@ -350,10 +356,13 @@ class BEEPDataSplitter(MSONable):
             train_feature_drop_nan_thresh=d["train_feature_drop_nan_thresh"],
             train_sample_drop_nan_thresh=d["train_sample_drop_nan_thresh"],
             drop_nan_training_targets=d["drop_nan_training_targets"],
+            impute_strategy=d.get("impute_strategy", "median"),
             homogenize_features=d["homogenize_features"],
             n_splits=d["n_splits"],
             random_state=d["random_state"],
-            split_columns=d["split_columns"]
+            split_columns=d["split_columns"],
+            exclusion_columns=d.get("exclusion_columns"),
+            drop_split_threshold=d.get("drop_split_threshold", 0.5)
         )
 
         bds.datasets = [BEEPDataset.from_dict(dataset) for dataset in d["datasets"]]
-- 
2.43.0


From e4f028b3c7b350ec6aa49305700b64ad9674ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:51 +0000
Subject: [PATCH 040/123] fix: data that never reach a required level are not
 valid, and the reason says so

---
 beep/structure/validate.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/beep/structure/validate.py b/beep/structure/validate.py
index c573068..acb074e 100644
--- a/beep/structure/validate.py
+++ b/beep/structure/validate.py
@@ -180,10 +180,8 @@ class SimpleValidator:
 
             # Check a maximum value is at least above a threshold
             if max_at_least_rule is not None:
-                comp = np.where(dataframe[column_name].max() < max_at_least_rule)
-                if comp[0].size > 0:
-                    index = comp[0][0]
-                    value = dataframe[column_name].iloc[index]
+                value = dataframe[column_name].max()
+                if not value >= max_at_least_rule:
                     reason = (
                         "{} needs to reach at least {} for processing, instead found:"
                         "value={}".format(column_name, max_at_least_rule, value)
@@ -192,13 +190,11 @@ class SimpleValidator:
 
             # Check a minimum value is below above a threshold
             if min_is_below_rule is not None:
-                comp = np.where(dataframe[column_name].min() > min_is_below_rule)
-                if comp[0].size > 0:
-                    index = comp[0][0]
-                    value = dataframe[column_name].iloc[index]
+                value = dataframe[column_name].min()
+                if not value <= min_is_below_rule:
                     reason = (
                         "{} needs to reach under {} for processing, instead found:"
-                        "value={}".format(column_name, max_at_least_rule, value)
+                        "value={}".format(column_name, min_is_below_rule, value)
                     )
                     return False, reason
 
-- 
2.43.0


From afbf7205d1b3f6f54166d907943aaf07c416ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:51 +0000
Subject: [PATCH 041/123] fix: a decrease across a missing value is not
 monotonic

---
 beep/structure/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/validate.py b/beep/structure/validate.py
index acb074e..5b2f755 100644
--- a/beep/structure/validate.py
+++ b/beep/structure/validate.py
@@ -199,7 +199,7 @@ class SimpleValidator:
                     return False, reason
 
             if monotonic_rule == 'increasing':
-                diff_series = dataframe[column_name].diff().dropna()
+                diff_series = dataframe[column_name].dropna().diff()
                 if len(diff_series[diff_series < 0]) > 0:
                     reason = (
                         "{} needs to be monotonically increasing for processing".format(column_name)
-- 
2.43.0


From 40822c89a010374def6f9fbce431316a1000fcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:51 +0000
Subject: [PATCH 042/123] fix: data without a column or with text for integers
 are invalid, not an error

---
 beep/structure/validate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beep/structure/validate.py b/beep/structure/validate.py
index 5b2f755..ec45073 100644
--- a/beep/structure/validate.py
+++ b/beep/structure/validate.py
@@ -93,6 +93,8 @@ class SimpleValidator:
             )
         # Integer: Check residual from rounding
         if type_rule == "integer":
+            if not np.issubdtype(df.dtype, np.number):
+                return False, "integer type check failed, type is {}".format(df.dtype)
             nonint_indices = np.arange(len(df))[(df != np.round(df))]
             if nonint_indices.size > 0:
                 value = df.iloc[nonint_indices[0]]
@@ -145,6 +147,9 @@ class SimpleValidator:
             type_rule = column_schema.get("type")
             monotonic_rule = column_schema.get("monotonic")
 
+            if column_name not in dataframe.columns:
+                return False, "Column {} is missing".format(column_name)
+
             # Check type
             if type_rule is not None:
                 validity, reason = self.check_type(
-- 
2.43.0


From 5f6565832116748ea76f3aed5984c53e326a2a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:32 +0000
Subject: [PATCH 043/123] fix: a row that cannot be generated does not stop the
 other protocols

---
 beep/protocol/generate_protocol.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/beep/protocol/generate_protocol.py b/beep/protocol/generate_protocol.py
index 486d231..56f1e9d 100644
--- a/beep/protocol/generate_protocol.py
+++ b/beep/protocol/generate_protocol.py
@@ -114,7 +114,8 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
         if not os.path.exists(subdir_path):
             makedirs_p(subdir_path)
 
-    for index, protocol_params in protocol_params_df.iterrows():
+    def generate_row(index, protocol_params):
+        nonlocal result
         template = protocol_params["template"]
         protocol = None
         # Filename for the output
@@ -176,7 +177,7 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
                 file_generation_failures.append(failure)
                 warnings.warn("Unsupported file template {}, skipping.".format(template))
                 result = "error"
-                continue
+                return
 
             filename = "{}.000".format(filename_prefix)
             filename = os.path.join(output_directory, "procedures", filename)
@@ -194,7 +195,7 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
             file_generation_failures.append(failure)
             logger.warning("Schedule file generation not yet implemented")
             result = "error"
-            continue
+            return
         else:  # Unable to match to any known template format
             failure = {
                 "comment": "Unable to find template: " + template,
@@ -203,13 +204,25 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
             file_generation_failures.append(failure)
             warnings.warn("Unsupported file template {}, skipping.".format(template))
             result = "error"
-            continue
+            return
 
         logger.info(filename)
         protocol.to_file(filename)
         successfully_generated_files.append(filename)
         names.append(filename_prefix + "_")
 
+    for index, protocol_params in protocol_params_df.iterrows():
+        try:
+            generate_row(index, protocol_params)
+        except Exception as e:  # One row that cannot be generated does not stop the others
+            failure = {
+                "comment": "Unable to generate protocol for row {}".format(index),
+                "error": "{}: {}".format(type(e).__name__, e)
+            }
+            file_generation_failures.append(failure)
+            logger.error("{}: {}".format(failure["comment"], failure["error"]))
+            result = "error"
+
     # This block of code produces the file containing all of the run file
     # names produced in this function call. This is to make starting tests easier
     _, namefile = os.path.split(csv_filename)
-- 
2.43.0


From 73e1239a91e8b16d9ef990a1154c16ef300eca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:32 +0000
Subject: [PATCH 044/123] fix: values of a protocol row do not depend on the
 other rows of the csv

---
 beep/protocol/generate_protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/generate_protocol.py b/beep/protocol/generate_protocol.py
index 56f1e9d..a684ded 100644
--- a/beep/protocol/generate_protocol.py
+++ b/beep/protocol/generate_protocol.py
@@ -98,7 +98,7 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
         output_directory (str): directory in which to place the output files
     """
     # Read csv file
-    protocol_params_df = pd.read_csv(csv_filename)
+    protocol_params_df = pd.read_csv(csv_filename, dtype=str)
 
     successfully_generated_files = []
     file_generation_failures = []
@@ -213,6 +213,10 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
 
     for index, protocol_params in protocol_params_df.iterrows():
         try:
+            # Each row is typed by itself, so that its values do not depend on the other rows
+            names_params = protocol_params[["project_name", "template"]]
+            protocol_params = protocol_params.apply(pd.to_numeric, errors="ignore")
+            protocol_params[names_params.index] = names_params
             generate_row(index, protocol_params)
         except Exception as e:  # One row that cannot be generated does not stop the others
             failure = {
-- 
2.43.0


From 787e59f68db5eef9258229ff533d5c4c9ef3359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:32 +0000
Subject: [PATCH 045/123] fix: a protocol row never overwrites the file of
 another row

---
 beep/protocol/generate_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/generate_protocol.py b/beep/protocol/generate_protocol.py
index a684ded..8a9cb54 100644
--- a/beep/protocol/generate_protocol.py
+++ b/beep/protocol/generate_protocol.py
@@ -206,6 +206,8 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
             result = "error"
             return
 
+        if filename in successfully_generated_files:
+            raise ValueError("{} was already generated from another row".format(filename))
         logger.info(filename)
         protocol.to_file(filename)
         successfully_generated_files.append(filename)
-- 
2.43.0


From 52f10e7af630f2c0913d1939e8eeaad35d3e4f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:32 +0000
Subject: [PATCH 046/123] fix: protocol command records failed rows and honours
 --halt-on-error and interrupts

---
 beep/cmd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 818f09b..e039425 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1616,7 +1616,7 @@ def protocol(
     output_files, failures, result, message = [], [], "", {}
     try:
         results = generate_protocol_files_from_csv(csv_file, output_directory=output_dir)
-        output_files, file_generation_failures, result, message = results
+        output_files, failures, result, message = results
 
         if result == "error" or failures:
             msg = message["comment"]
@@ -1624,6 +1624,9 @@ def protocol(
             raise ProtocolException(f"'{err}: {msg}'")
         else:
             logger.info(f"Created {len(output_files)} protocol files in `{output_dir}`.")
+    except KeyboardInterrupt:
+        logging.critical("Keyboard interrupt caught - exiting...")
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
@@ -1634,8 +1637,7 @@ def protocol(
     for of in output_files:
         status_json["protocol"][of] = {"generated": True}
 
-    for f in failures:
-        status_json["protocol"][f] = {"generated": False}
+    status_json["failures"] = failures
 
     status_json["walltime"] = t1 - t0
     status_json = add_metadata_to_status_json(status_json, ctx.obj.run_id, ctx.obj.tags)
@@ -1644,6 +1646,9 @@ def protocol(
         dumpfn(status_json, osj)
         logger.info(f"Wrote status json file to {osj}")
 
+    if status_json["traceback"] and ctx.obj.halt_on_error:
+        ctx.exit(1)
+
 
 @cli.command(
     help="View BEEP files for debugging and analysis.",
-- 
2.43.0


From b600093cef1a0ff035a67c7ff2e81a3a565b63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:04 +0000
Subject: [PATCH 047/123] fix: a protocol row never changes the waveform file
 another row refers to

---
 beep/protocol/generate_protocol.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/generate_protocol.py b/beep/protocol/generate_protocol.py
index 8a9cb54..3abd703 100644
--- a/beep/protocol/generate_protocol.py
+++ b/beep/protocol/generate_protocol.py
@@ -103,6 +103,7 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
     successfully_generated_files = []
     file_generation_failures = []
     names = []
+    waveforms = {}  # content of the waveform files used by the generated protocols
     result = ""
     message = {"comment": "", "error": ""}
     if output_directory is None:
@@ -114,10 +115,19 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
         if not os.path.exists(subdir_path):
             makedirs_p(subdir_path)
 
+    def check_waveform(waveform_name):
+        # Protocols generated before keep the waveform they refer to
+        with open(waveform_name, "rb") as f:
+            content = f.read()
+        if waveforms.get(waveform_name, content) != content:
+            with open(waveform_name, "wb") as f:
+                f.write(waveforms[waveform_name])
+            raise ValueError("{} is already used for a different waveform".format(waveform_name))
+
     def generate_row(index, protocol_params):
         nonlocal result
         template = protocol_params["template"]
-        protocol = None
+        protocol, waveform_name = None, None
         # Filename for the output
         filename_prefix = "_".join(
             [
@@ -151,6 +161,7 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
                 if protocol_params["project_name"] == "RapidC":  # Project with charging waveform
                     waveform_name = insert_charging_parametersv1(protocol_params,
                                                                  waveform_directory=mwf_dir)
+                    check_waveform(waveform_name)
                     protocol = Procedure.generate_procedure_chargingv1(index,
                                                                        protocol_params,
                                                                        waveform_name,
@@ -158,6 +169,7 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
                 elif protocol_params["project_name"] == "Drive":  # Project with discharging waveform
                     waveform_name = insert_driving_parametersv1(protocol_params,
                                                                 waveform_directory=mwf_dir)
+                    check_waveform(waveform_name)
                     protocol = Procedure.generate_procedure_drivingv1(index,
                                                                       protocol_params,
                                                                       waveform_name,
@@ -211,6 +223,9 @@ def generate_protocol_files_from_csv(csv_filename, output_directory=None):
         logger.info(filename)
         protocol.to_file(filename)
         successfully_generated_files.append(filename)
+        if waveform_name:
+            with open(waveform_name, "rb") as f:
+                waveforms[waveform_name] = f.read()
         names.append(filename_prefix + "_")
 
     for index, protocol_params in protocol_params_df.iterrows():
-- 
2.43.0


From 1a52586e688161a62cbabc9ff315dc19d51d1cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:04 +0000
Subject: [PATCH 048/123] fix: waveform step name does not depend on dots in
 the output directory

---
 beep/protocol/maccor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 511c3e6..f3f4bda 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -331,8 +331,8 @@ class Procedure(DashOrderedDict):
 
         assert steps[waveform_idx]["StepType"] == "FastWave"
         assert waveform_filename.split(".")[-1].lower() == "mwf"
-        local_name = waveform_filename.split(".")[0]
-        _, local_name = os.path.split(local_name)
+        _, local_name = os.path.split(waveform_filename)
+        local_name = local_name.split(".")[0]
         assert len(local_name) < 25, str(len(local_name))
 
         steps[waveform_idx]["StepValue"] = local_name
-- 
2.43.0


From 295f532774927f4e7a910952b0a79f783938e8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:04 +0000
Subject: [PATCH 049/123] fix: driving waveforms leave the default waveform
 configuration unchanged

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index f3f4bda..b97d9c7 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1343,7 +1343,7 @@ def insert_driving_parametersv1(reg_params, waveform_directory=None):
             power_scaling (float): Power relative to the other profiles
         waveform_directory (str): path to save waveform files
     """
-    mwf_config = MACCOR_WAVEFORM_CONFIG
+    mwf_config = dict(MACCOR_WAVEFORM_CONFIG)
     velocity_name = reg_params["discharge_profile"] + "_velocity_waveform.txt"
     velocity_file = os.path.join(PROTOCOL_SCHEMA_DIR, velocity_name)
     df = convert_velocity_to_power_waveform(velocity_file, velocity_units="mph")
-- 
2.43.0


From 0d1c3d17c9eae74d6f091178944c6f6787727d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 050/123] fix: step times of a day or more are not wrapped
 around

---
 beep/protocol/maccor.py | 76 ++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 46 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index b97d9c7..96283e7 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -17,7 +17,6 @@ input parameters and procedure templates
 """
 
 import os
-import time
 from copy import deepcopy
 
 import numpy as np
@@ -29,6 +28,21 @@ from beep.utils import DashOrderedDict
 from beep.utils.waveform import convert_velocity_to_power_waveform, RapidChargeWave
 
 
+def format_step_time(time_s):
+    """
+    Formats a duration for a procedure step, durations of a day or more included.
+
+    Args:
+        time_s (float): duration in seconds
+
+    Returns:
+        str: duration as HH:MM:SS
+    """
+    minutes, seconds = divmod(int(time_s), 60)
+    hours, minutes = divmod(minutes, 60)
+    return "{:02d}:{:02d}:{:02d}".format(hours, minutes, seconds)
+
+
 class Procedure(DashOrderedDict):
     """
     Procedure file object. Provides factory methods
@@ -392,9 +406,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle constant current charge part 2
         step_idx = charge_idx + 1
@@ -418,18 +430,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -466,9 +474,7 @@ class Procedure(DashOrderedDict):
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["discharge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle number of times to repeat regular cycle for initial offset and main body
         step_idx = discharge_idx + 3
@@ -521,9 +527,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -814,9 +818,7 @@ class Procedure(DashOrderedDict):
         assert steps[rest_idx]["StepType"] == "Rest"
         assert steps[rest_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(3 * 3600 + offset_seconds * (index % 96)))
-        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -851,9 +853,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[step_idx]["Ends"]["EndEntry"][1]["Value"] != 4.4
         steps[step_idx]["Ends"]["EndEntry"][1]["Value"] = float(
             round(reg_param["charge_cutoff_voltage"], 3)
@@ -881,18 +881,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -932,9 +928,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -1101,9 +1095,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 2]["StepType"] == "Rest"
         assert steps[start + 2]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * diagnostic_params["HPPC_rest_time"]))
-        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = format_step_time(float(time_s))
 
         # Discharge step 1 for hppc cycle
         assert steps[start + 3]["StepType"] == "Dischrge"
@@ -1113,9 +1105,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 3]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_1"]
-        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = format_step_time(float(time_s))
         assert steps[start + 3]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 3]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
@@ -1125,9 +1115,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 4]["StepType"] == "Rest"
         assert steps[start + 4]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(diagnostic_params["HPPC_pulse_rest_time"]))
-        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Charge step 1 for hppc cycle
         assert steps[start + 5]["StepType"] == "Charge"
@@ -1137,9 +1125,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 5]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_2"]
-        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = format_step_time(float(time_s))
         assert steps[start + 5]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 5]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["HPPC_pulse_cutoff_voltage"], 3)
@@ -1163,9 +1149,7 @@ class Procedure(DashOrderedDict):
                 - 1
             )
         )
-        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = format_step_time(float(time_s))
         assert steps[start + 6]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 6]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
-- 
2.43.0


From 36ae8a8ebf8d57467c28ba834b9c66584ce9eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 051/123] fix: driving protocols use the requested discharge
 rest and numbers of cycles

---
 beep/protocol/maccor.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 96283e7..ed6583e 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -469,6 +469,22 @@ class Procedure(DashOrderedDict):
             round(reg_param["discharge_cutoff_voltage"], 3)
         )
 
+        return self.insert_discharge_rest_regcyclev2(discharge_idx, reg_param)
+
+    def insert_discharge_rest_regcyclev2(self, discharge_idx, reg_param):
+        """
+        Inserts the rest after the discharge and the repetitions of the
+        regular cycle into procedure dictionary at given id.
+
+        Args:
+            discharge_idx (int):
+            reg_param (pandas.DataFrame):
+
+        Returns:
+            dict:
+        """
+        steps = self["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
+
         # Regular cycle rest after discharge
         step_idx = discharge_idx + 1
         assert steps[step_idx]["StepType"] == "Rest"
@@ -666,12 +682,14 @@ class Procedure(DashOrderedDict):
         obj.insert_charge_regcyclev3(reg_charge_idx, reg_param)
         reg_discharge_idx = 27 + 5
         obj.insert_maccor_waveform(reg_discharge_idx, waveform_name)
+        obj.insert_discharge_rest_regcyclev2(reg_discharge_idx, reg_param)
 
         # Start of main loop of regular cycles
         reg_charge_idx = 59 + 1
         obj.insert_charge_regcyclev3(reg_charge_idx, reg_param)
         reg_discharge_idx = 59 + 5
         obj.insert_maccor_waveform(reg_discharge_idx, waveform_name)
+        obj.insert_discharge_rest_regcyclev2(reg_discharge_idx, reg_param)
 
         # Storage cycle
         reg_storage_idx = 93
-- 
2.43.0


From 2abdbb810adda1b3012cbd7800d2a2a6e8c6aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 052/123] fix: generating a charging protocol leaves the given
 parameters unchanged

---
 beep/protocol/maccor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index ed6583e..04c720b 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -770,6 +770,7 @@ class Procedure(DashOrderedDict):
         obj.insert_resistance_regcyclev2(dc_idx, reg_param)
 
         # Set variables necessary to use regcyclev3 function
+        reg_param = reg_param.copy()
         reg_param["charge_constant_current_1"] = 1
         reg_param["charge_constant_current_2"] = reg_param["charge_current_param_4"]
         reg_param["charge_percent_limit_1"] = reg_param["charge_fast_soc_limit"]
-- 
2.43.0


From b17ba836a86b892432a88eb685f99f20c710bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:36 +0000
Subject: [PATCH 053/123] fix: maccor capacities accumulate over the steps of
 their own cycle and never decrease

---
 beep/structure/maccor.py | 48 ++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 84be1de..f6e6ba8 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -110,7 +110,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             metadata["channel_id"] = int(channel_number.replace(".", ""))
         except ValueError:
             logger.warning("Could not infer channel number from path name!")
-            metadata["channnel_id"] = None
+            metadata["channel_id"] = None
 
         metadata.rename(str.lower, axis="columns", inplace=True)
         metadata.rename(MACCOR_CONFIG["metadata_fields"], axis="columns", inplace=True)
@@ -211,36 +211,22 @@ class MaccorDatapath(BEEPDatapathWithEIS):
         # As a fix, compute the actual step change using diff() on step_index and set end_step to be
         # a logical AND(step_change, end_step)
         is_step_change = data['step_index'].diff(periods=-1).fillna(value=0) != 0
-        end_step_inds = end_step.index[np.logical_and(list(end_step), list(is_step_change))]
-        # If no end steps, quantity not reset, return it without modifying
-        if end_step_inds.size == 0:
-            return quantity_agg
-
-        # Initialize accumulator and beginning step slice index
-        cycle_sum = 0.0
-        begin_step_ind = quantity_agg.index[0] + 1
-        for end_step_ind in end_step_inds:
-            # Detect whether cycle changed and reset accumulator if so
-            if (
-                data.loc[begin_step_ind - 1, "cycle_index"]
-                != data.loc[begin_step_ind, "cycle_index"]
-            ):
-                cycle_sum = 0.0
-
-            # Add accumulator to current reset step
-            quantity_agg[begin_step_ind:end_step_ind + 1] += cycle_sum
-
-            # Update accumulator
-            cycle_sum = quantity_agg[end_step_ind]
-
-            # Set new step slice initial index
-            begin_step_ind = end_step_ind + 1
-
-        # Update any dangling step without an end
-        last_index = quantity_agg.index[-1]
-        if end_step_inds[-1] < last_index:
-            quantity_agg[begin_step_ind:] += cycle_sum
-        return quantity_agg
+        step_ended = pd.Series(
+            np.logical_and(list(end_step), list(is_step_change)), index=data.index
+        )
+        cycle_changed = data["cycle_index"].diff().fillna(value=0) != 0
+
+        # Number the steps, which begin after an ended step and with a new cycle
+        step = (step_ended.shift(fill_value=False) | cycle_changed).cumsum()
+
+        # A quantity does not decrease within a step, e.g. where it is suspended
+        quantity_agg = quantity_agg.groupby(step).cummax()
+
+        # Add what was accumulated by the previous steps of the same cycle
+        step_totals = quantity_agg.groupby(step).last()
+        step_cycles = cycle_changed.cumsum().groupby(step).first()
+        previous = step_totals.groupby(step_cycles).cumsum() - step_totals
+        return quantity_agg + step.map(previous)
 
     @staticmethod
     def parse_metadata(metadata_string):
-- 
2.43.0


From a4fb9d891403c49e3edcf47efb3110736826db37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:36 +0000
Subject: [PATCH 054/123] fix: neware test time includes the time before the
 first record of a step

---
 beep/structure/neware.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/beep/structure/neware.py b/beep/structure/neware.py
index 1c270bd..8ca2089 100644
--- a/beep/structure/neware.py
+++ b/beep/structure/neware.py
@@ -95,13 +95,11 @@ class NewareDatapath(BEEPDatapath):
                 data["DCIR(O)"] = data["DCIR(O)"].fillna(method="ffill")
                 data["DCIR(O)"] = data["DCIR(O)"].fillna(method="bfill")
 
-        data["test_time"] = (
-            data["Time(h:min:s.ms)"]
-            .diff()
-            .fillna(0)
-            .apply(lambda x: 0 if x < 0 else x)
-            .cumsum()
-        )
+        # The time of a step starts again with every step
+        step_time = data["Time(h:min:s.ms)"]
+        interval = step_time.diff().fillna(0)
+        new_step = (data["Step ID"].diff().fillna(0) != 0) | (interval < 0)
+        data["test_time"] = interval.where(~new_step, other=step_time).cumsum()
         # print(data.columns)
         # print(NEWARE_CONFIG["data_types"])
         data = data.astype(NEWARE_CONFIG["data_types"])
-- 
2.43.0


From d54e7ea8d983d7a136221ccbdd55bdb13a4c3ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:36 +0000
Subject: [PATCH 055/123] fix: arbin times of day are not rounded to minutes

---
 beep/conversion_schemas/arbin_conversion.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/conversion_schemas/arbin_conversion.yaml b/beep/conversion_schemas/arbin_conversion.yaml
index 98a7098..889d92b 100644
--- a/beep/conversion_schemas/arbin_conversion.yaml
+++ b/beep/conversion_schemas/arbin_conversion.yaml
@@ -39,7 +39,7 @@ data_columns:
 data_types:
   data_point: 'int32'
   test_time: 'float64'
-  datetime: 'float32'
+  datetime: 'float64'
   step_time: 'float32'
   step_index: 'int16'
   cycle_index: 'int32'
-- 
2.43.0


From cefeb202c41cdf6f5cbeee8fbf74522222e2b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:36 +0000
Subject: [PATCH 056/123] fix: arbin metadata file does not depend on the
 directory name

---
 beep/structure/arbin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beep/structure/arbin.py b/beep/structure/arbin.py
index 5b5f903..d948831 100644
--- a/beep/structure/arbin.py
+++ b/beep/structure/arbin.py
@@ -52,8 +52,9 @@ class ArbinDatapath(BEEPDatapath):
 
         data.rename(cls.conversion_config["data_columns"], axis="columns", inplace=True)
 
-        metadata_path = metadata_path if metadata_path else path.replace(".csv",
-                                                                         "_Metadata.csv")
+        if not metadata_path:
+            root, ext = os.path.splitext(path)
+            metadata_path = root + ext.replace(".csv", "_Metadata.csv")
 
         if os.path.exists(metadata_path):
             metadata = pd.read_csv(metadata_path)
-- 
2.43.0


From b19796b1fdabcab7f9cc02ac7cb928c2a9ebb55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:36 +0000
Subject: [PATCH 057/123] fix: battery archive step time starts at zero also in
 a step of only the last row

---
 beep/structure/battery_archive.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index 53999b7..285bb3d 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -85,7 +85,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         start_times = df["test_time (s)"].loc[step_change_ix]
         arrays = [None] * len(step_change_ix)
 
-        final_ix = [df.shape[0] - 1]
+        final_ix = [df.shape[0]]
         step_change_ix_buffered = np.append(step_change_ix[1:], final_ix)
 
         for i, scix in enumerate(step_change_ix_buffered):
@@ -93,9 +93,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
             n_repeats = scix - prev_scix
             arrays[i] = np.repeat(start_times.loc[prev_scix], n_repeats)
 
-        # include the final data point, which is not a real step change
         subtractor = np.concatenate(arrays, axis=0)
-        subtractor = np.append(subtractor, [subtractor[-1]])
 
         df["step_time"] = df["test_time (s)"] - subtractor
 
-- 
2.43.0


From 0086ff1b965ed437d6d1dbcad694798ff5ff077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:36 +0000
Subject: [PATCH 058/123] fix: battery archive times of day are exact and do
 not depend on the local time zone

---
 beep/structure/battery_archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index 285bb3d..10d2d93 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -50,7 +50,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         "charge_energy": "float64",
         "discharge_energy": "float64",
         "temperature": "float32",
-        "date_time": "float32",
+        "date_time": "float64",
     }
 
     FILE_PATTERN = ".*timeseries\\.csv"
@@ -102,7 +102,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         # convert date time string to
         dts = df["date_time"].apply(lambda x: datetime.strptime(x, dtfmt))
 
-        df["date_time"] = dts.apply(lambda x: x.timestamp())
+        df["date_time"] = dts.apply(lambda x: x.replace(tzinfo=pytz.UTC).timestamp())
         df["date_time_iso"] = dts.apply(lambda x: x.replace(tzinfo=pytz.UTC).isoformat())
 
         for column, dtype in cls.DATA_TYPES.items():
-- 
2.43.0


From 9b90b726319e5f6f4e7772a3ff28eb888a66b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:36 +0000
Subject: [PATCH 059/123] fix: indigo values are read into the columns they are
 stored for

---
 beep/structure/indigo.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/beep/structure/indigo.py b/beep/structure/indigo.py
index 9e989ab..11bf625 100644
--- a/beep/structure/indigo.py
+++ b/beep/structure/indigo.py
@@ -34,20 +34,22 @@ class IndigoDatapath(BEEPDatapath):
         d0 = hdf.get('time_series_data')
         d1 = np.array(d0.get('axis0'))
         d2 = np.array(d0.get('axis1'))
-        # d3 = np.array(d0.get('block0_items'))
+        d3 = np.array(d0.get('block0_items'))
         d4 = np.array(d0.get('block0_values'))
-        # d5 = np.array(d0.get('block1_items'))
+        d5 = np.array(d0.get('block1_items'))
         d6 = np.array(d0.get('block1_values'))
-        # d7 = np.array(d0.get('block2_items'))
+        d7 = np.array(d0.get('block2_items'))
         d8 = np.array(d0.get('block2_values'))
         d9 = np.concatenate((d4, d6, d8), axis=1)
         d10 = pd.DataFrame(d9)
         d11 = d10.set_axis(d2, axis="index")
-        d1_string = []
-        for i in d1:
+        # values are stored by block, which need not be the order of the columns
+        items_string = []
+        for i in np.concatenate((d3, d5, d7)):
             j = i.decode("utf-8")
-            d1_string.append(j)
-        data = d11.set_axis(d1_string, axis="columns")
+            items_string.append(j)
+        data = d11.set_axis(items_string, axis="columns")
+        data = data[[i.decode("utf-8") for i in d1]]
         metadata = dict()
 
         if len(list(data["cell_id"].unique())) > 1:
-- 
2.43.0


From f58139251fcd3fb7d251b6dbe5ed25cd0ed9191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:36 +0000
Subject: [PATCH 060/123] fix: indigo energies are in watt hours, like those of
 all other cyclers

---
 beep/structure/indigo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beep/structure/indigo.py b/beep/structure/indigo.py
index 11bf625..21b7a50 100644
--- a/beep/structure/indigo.py
+++ b/beep/structure/indigo.py
@@ -73,12 +73,12 @@ class IndigoDatapath(BEEPDatapath):
                 abs(data.cell_coulomb_count_c) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 1, "discharge_capacity"] = 0
-        data.loc[data.half_cycle_count % 2 == 1, "charge_energy"] = abs(
-            data.cell_energy_j
+        data.loc[data.half_cycle_count % 2 == 1, "charge_energy"] = (
+                abs(data.cell_energy_j) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 0, "charge_energy"] = 0
-        data.loc[data.half_cycle_count % 2 == 0, "discharge_energy"] = abs(
-            data.cell_energy_j
+        data.loc[data.half_cycle_count % 2 == 0, "discharge_energy"] = (
+                abs(data.cell_energy_j) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 1, "discharge_energy"] = 0
         data["internal_resistance"] = data.cell_voltage_v / data.cell_current_a
-- 
2.43.0


From 6763fafa04d71ca38ffd4ba889d71889856b1237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:58 +0000
Subject: [PATCH 061/123] fix: novonix discharge energies of cycles without
 charge are relative to the energy

---
 beep/structure/novonix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 3b20815..3d84c96 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -152,7 +152,7 @@ class NovonixDatapath(BEEPDatapath):
                 ix_range = data[data["cycle_index"] == cyc_ix].index
                 dchg_only_cycle_ix.append(cyc_ix)
                 for convention in ("capacity", "energy"):
-                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df["capacity"].max()
+                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df[convention].max()
         logger.warning(
             f"No charge steps found in cycles {dchg_only_cycle_ix}! "
             f"Using highest capacity reading to determine convention."
-- 
2.43.0


From b8a7b7ec44d56da51d1ae5e6bbf5f1e56c8ead39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:58 +0000
Subject: [PATCH 062/123] fix: novonix data start after the header also if
 lines before it are blank

---
 beep/structure/novonix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 3d84c96..ae21928 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -65,9 +65,10 @@ class NovonixDatapath(BEEPDatapath):
                 if i > search_lines:
                     raise LookupError("Unable to find the header line in first "
                                       "{} lines of file".format(search_lines))
-        raw = pd.read_csv(path, sep='\t', header=None, encoding="utf-8")
+        raw = pd.read_csv(path, sep='\t', header=None, encoding="utf-8",
+                          skiprows=header_starts_line - 1)
         raw.dropna(axis=0, how='all', inplace=True)
-        data = raw.iloc[header_starts_line - 1:]
+        data = raw
         data = data[0].str.split(',', expand=True)
         headers = data.iloc[0]
         data = pd.DataFrame(data.values[1:], columns=headers, index=None)
-- 
2.43.0


From c97eb4c649c2d577508c52ad3070e8cfbe4b7c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:58 +0000
Subject: [PATCH 063/123] fix: novonix metadata values belong to the field of
 their line and are complete

---
 beep/structure/novonix.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index ae21928..6973c81 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -52,13 +52,11 @@ class NovonixDatapath(BEEPDatapath):
 
                 # Rip metadata from summary section
                 if begin_summary and not end_summary:
-                    l = str(line)
+                    field, _, value = line.decode("utf-8").partition(":")
                     for conversion_phrase in metadata_conversion:
-                        if conversion_phrase in l:
+                        if field.strip().startswith(conversion_phrase):
                             k = metadata_conversion[conversion_phrase]
-                            metadata_value = \
-                                l.split(":")[-1].strip(). \
-                                replace("\\n", "").replace("'", "")
+                            metadata_value = value.strip()
                             metadata[k] = metadata_value if metadata_value else None
                             break
                 i += 1
-- 
2.43.0


From 7a43c75fca027eea9c33d964c256615cd1ecf4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:58 +0000
Subject: [PATCH 064/123] fix: novonix rests neither add to nor hide the
 discharge of their cycle

---
 beep/structure/novonix.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 6973c81..e8cd0e6 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -168,6 +168,12 @@ class NovonixDatapath(BEEPDatapath):
             discharge_data = data[target_column].loc[ix]
             data.loc[ix, target_column] = cycle_metric_max - discharge_data
 
+            # What was discharged does not change during a rest
+            rest_ix = data[data["step_type_name"] == "rest"].index
+            data.loc[rest_ix, target_column] = float("nan")
+            data.loc[rest_ix, target_column] = \
+                data.groupby("cycle_index")[target_column].ffill().fillna(0).loc[rest_ix]
+
         data.drop(columns=["cycle_chg_max_capacity", "cycle_chg_max_energy"],
                   inplace=True)
 
-- 
2.43.0


From 81b447b3085176cf8f1947ab958b6f209f5fe547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:58 +0000
Subject: [PATCH 065/123] fix: the last column of a biologic file is recognized

---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 91baba0..4310e8c 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -83,7 +83,7 @@ class BiologicDatapath(BEEPDatapath):
                 i += 1
                 if i == header_line:
                     header = str(line.decode(encoding=encoding))
-                    columns = header.split(sep)
+                    columns = header.rstrip("\r\n").split(sep)
                     for c in columns:
                         raw[c] = list()
                 if i >= data_starts_line:
-- 
2.43.0


From ff92239d60e3fff90b04d08c09e29d24ceb681d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:58 +0000
Subject: [PATCH 066/123] fix: biologic metadata file does not depend on the
 directory name

---
 beep/structure/biologic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 4310e8c..09c434c 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -119,7 +119,8 @@ class BiologicDatapath(BEEPDatapath):
         data["data_point"] = list(range(1, len(raw["cycle number"]) + 1))
 
         data = pd.DataFrame(data)
-        metadata_path = path.replace(".csv", ".mpl")
+        root, ext = os.path.splitext(path)
+        metadata_path = root + ext.replace(".csv", ".mpl")
         metadata = cls.parse_metadata(metadata_path)
         metadata["filename"] = path
         metadata["_today_datetime"] = datetime.now().strftime("%Y-%m-%d %H:%M:%S")
-- 
2.43.0


From 0dc9378d3e0317188de64dec116223a5014660d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:11 +0000
Subject: [PATCH 067/123] fix: the format of a raw file is recognized by its
 whole name, not by its directory

---
 beep/structure/cli.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/beep/structure/cli.py b/beep/structure/cli.py
index df2e6b7..e2474d6 100644
--- a/beep/structure/cli.py
+++ b/beep/structure/cli.py
@@ -15,6 +15,7 @@
 
 """
 
+import os
 import re
 
 from monty.serialization import loadfn
@@ -58,17 +59,19 @@ def auto_load(filename):
         (beep.structure.base.BEEPDatapath): The datapath child class corresponding to this file.
 
     """
-    if re.match(ARBIN_CONFIG["file_pattern"], filename) or re.match(FastCharge_CONFIG["file_pattern"], filename):
+    # Only the name of the file says what it is, not the directory it is in
+    name = os.path.basename(filename)
+    if re.fullmatch(ARBIN_CONFIG["file_pattern"], name) or re.fullmatch(FastCharge_CONFIG["file_pattern"], name):
         return ArbinDatapath.from_file(filename)
-    elif re.match(MACCOR_CONFIG["file_pattern"], filename) or re.match(xTesladiag_CONFIG["file_pattern"], filename):
+    elif re.fullmatch(MACCOR_CONFIG["file_pattern"], name) or re.fullmatch(xTesladiag_CONFIG["file_pattern"], name):
         return MaccorDatapath.from_file(filename)
-    elif re.match(INDIGO_CONFIG["file_pattern"], filename):
+    elif re.fullmatch(INDIGO_CONFIG["file_pattern"], name):
         return IndigoDatapath.from_file(filename)
-    elif re.match(BIOLOGIC_CONFIG["file_pattern"], filename):
+    elif re.fullmatch(BIOLOGIC_CONFIG["file_pattern"], name):
         return BiologicDatapath.from_file(filename)
-    elif re.match(NEWARE_CONFIG["file_pattern"], filename):
+    elif re.fullmatch(NEWARE_CONFIG["file_pattern"], name):
         return NewareDatapath.from_file(filename)
-    elif re.match(BatteryArchiveDatapath.FILE_PATTERN, filename):
+    elif re.fullmatch(BatteryArchiveDatapath.FILE_PATTERN, name):
         return BatteryArchiveDatapath.from_file(filename)
     else:
         raise ValueError("{} does not match any known file pattern".format(filename))
-- 
2.43.0


From b12728e9dc76cc0642acb19a1e3b74f52018836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:08 +0000
Subject: [PATCH 068/123] fix: biologic barcode is the whole comment, and empty
 if the comment is

---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 09c434c..cfddf85 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -189,7 +189,7 @@ class BiologicDatapath(BEEPDatapath):
                     flag_cell_id = True
 
                 if "Comments" in line.strip().split(" : ")[0]:
-                    barcode = line.strip().split(" : ")[-1]
+                    barcode = line.partition(" : ")[2].strip()
                     metadata["barcode"] = barcode
                     flag_barcode = True
 
-- 
2.43.0


From 43ea2dc5b5d1d0715fc81e331b8e1846ebcbed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:47 +0000
Subject: [PATCH 069/123] fix: the last value of a biologic row does not keep
 the line end

---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index cfddf85..8602b6d 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -91,7 +91,7 @@ class BiologicDatapath(BEEPDatapath):
                     if len(line) == 0:
                         empty_lines += 1
                         continue
-                    items = line.split(sep)
+                    items = line.rstrip("\r\n").split(sep)
                     for ci in range(len(items)):
                         column_name = columns[ci]
                         data_type = column_map.get(column_name, dict()).get(
-- 
2.43.0


From 25d62d1a6e2a263874694d95a1be0bfc0c895968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:16 +0000
Subject: [PATCH 070/123] fix: novonix runs with rests can be structured,
 quantities are zero where not counted

---
 beep/structure/novonix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index e8cd0e6..e25b24f 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -136,8 +136,6 @@ class NovonixDatapath(BEEPDatapath):
         if not converted:
             raise ValueError("Date-time was not parsable, aborting.")
 
-        data.fillna(0)
-
         # Correct discharge capacities and energies for convention
         for convention in ("capacity", "energy"):
             data[f"cycle_chg_max_{convention}"] = \
@@ -177,6 +175,11 @@ class NovonixDatapath(BEEPDatapath):
         data.drop(columns=["cycle_chg_max_capacity", "cycle_chg_max_energy"],
                   inplace=True)
 
+        # Nothing is charged outside of charge steps, nor discharged during them
+        quantities = ["charge_capacity", "discharge_capacity",
+                      "charge_energy", "discharge_energy"]
+        data[quantities] = data[quantities].fillna(0)
+
         summary = None
         if summary_path and os.path.exists(summary_path):
             summary = pd.read_csv(
-- 
2.43.0


From 58f00f53beb214a2ff1e6bec1efea288a2880299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:16 +0000
Subject: [PATCH 071/123] fix: structured biologic runs can be saved, the
 protocol is identified by text

---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 8602b6d..a5131ea 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -200,7 +200,7 @@ class BiologicDatapath(BEEPDatapath):
                 if flag_protocol_start:
                     if line == "":
                         flag_protocol = True
-                        protocol = hashlib.md5(protocol_text.encode()).digest()
+                        protocol = hashlib.md5(protocol_text.encode()).hexdigest()
                         metadata["protocol"] = protocol
                     else:
                         protocol_text += line + "\n"
-- 
2.43.0


From cec463fa81d68e6e0a4319cfca620923cb69e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:39 +0000
Subject: [PATCH 072/123] fix: writing a waveform file leaves the profile it is
 given as it is

---
 beep/protocol/maccor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 04c720b..20273ed 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1474,6 +1474,7 @@ def generate_maccor_waveform_file(df, file_prefix, file_directory, mwf_config=No
     if mwf_config is None:
         mwf_config = MACCOR_WAVEFORM_CONFIG
 
+    df = df.copy()
     if "power" in df.columns:
         df["power"] = df["power"] / max(abs(df["power"])) * mwf_config["value_scale"]
         df["step_counter"] = df["power"].diff().fillna(0).ne(0).cumsum()
-- 
2.43.0


From 6cce6a795651294a62b28bf8420074c0d0d96bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:39 +0000
Subject: [PATCH 073/123] fix: a profile of rest only is written as zero
 instead of an empty value

---
 beep/protocol/maccor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 20273ed..a083b8b 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1476,7 +1476,7 @@ def generate_maccor_waveform_file(df, file_prefix, file_directory, mwf_config=No
 
     df = df.copy()
     if "power" in df.columns:
-        df["power"] = df["power"] / max(abs(df["power"])) * mwf_config["value_scale"]
+        df["power"] = df["power"] / (max(abs(df["power"])) or 1) * mwf_config["value_scale"]
         df["step_counter"] = df["power"].diff().fillna(0).ne(0).cumsum()
         df = df.groupby("step_counter").agg({"time": "count", "power": "first"})
 
@@ -1492,7 +1492,7 @@ def generate_maccor_waveform_file(df, file_prefix, file_directory, mwf_config=No
         mask = df["power"] <= 0
 
     elif "current" in df.columns:
-        df["current"] = df["current"] / max(abs(df["current"])) * mwf_config["value_scale"]
+        df["current"] = df["current"] / (max(abs(df["current"])) or 1) * mwf_config["value_scale"]
         df["step_counter"] = df["current"].diff().fillna(0).ne(0).cumsum()
         df = df.groupby("step_counter").agg({"time": "count", "current": "first"})
 
-- 
2.43.0


From f42b3609b66cfe4f175bd965cdd74c30af886bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:39 +0000
Subject: [PATCH 074/123] fix: rapid charge windows that do not increase are
 refused

---
 beep/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/utils/waveform.py b/beep/utils/waveform.py
index de13813..cf754aa 100644
--- a/beep/utils/waveform.py
+++ b/beep/utils/waveform.py
@@ -103,7 +103,7 @@ class RapidChargeWave:
         np.array: array with the multistep current as a function of the uniform time basis
         np.array: array with the corresponding uniformly spaced time values
         """
-        assert np.all(np.diff(mesh_points)) > 0
+        assert np.all(np.diff(mesh_points) > 0)
         current_smooth, time_smooth, current_multistep, time_multistep = \
             self.get_input_currents_both_to_final_soc(charging_c_rates, mesh_points)
         end_time_smooth = int(np.round(np.max(time_smooth), 0))
-- 
2.43.0


From 637aac00e4bd13e7197be315b27b5e88840fe2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:44 +0000
Subject: [PATCH 075/123] fix: brackets within a line of an arbin schedule do
 not start a section

---
 beep/protocol/arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index 3544b83..758d8db 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -59,7 +59,7 @@ class Schedule(DashOrderedDict):
             text = f.read()
             text = text.decode(encoding)
 
-        split_text = re.split(r"\[(.+)\]", text)
+        split_text = re.split(r"(?m)^\[(.+)\][ \t\r]*$", text)
         for heading, body in zip(split_text[1::2], split_text[2::2]):
             body_lines = re.split(r"[\r\n]+", body.strip())
             body_dict = OrderedDict([line.split("=", 1) for line in body_lines])
-- 
2.43.0


From 2f0926e7600bcaccf063e20e198cd817cffdee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:44 +0000
Subject: [PATCH 076/123] fix: arbin schedules with an empty section can be
 read

---
 beep/protocol/arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index 758d8db..bae66fd 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -62,7 +62,7 @@ class Schedule(DashOrderedDict):
         split_text = re.split(r"(?m)^\[(.+)\][ \t\r]*$", text)
         for heading, body in zip(split_text[1::2], split_text[2::2]):
             body_lines = re.split(r"[\r\n]+", body.strip())
-            body_dict = OrderedDict([line.split("=", 1) for line in body_lines])
+            body_dict = OrderedDict([line.split("=", 1) for line in body_lines if line])
             heading = heading.replace("_", ".")
             obj.set(heading, body_dict)
 
-- 
2.43.0


From ea7b34b0f50e5f501000ce7c377ec976f2a0881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:44 +0000
Subject: [PATCH 077/123] fix: numbers set in an arbin schedule can be written

---
 beep/protocol/arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index bae66fd..3794dd5 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -99,7 +99,7 @@ class Schedule(DashOrderedDict):
         for section_title, body_data in data_tuples:
             section_header = "[{}]".format(section_title)
             body = linesep.join(
-                ["=".join([key, value]) for key, value in body_data.items()]
+                ["=".join([key, str(value)]) for key, value in body_data.items()]
             )
             blocks.append(linesep.join([section_header, body]))
         contents = linesep.join(blocks) + linesep
-- 
2.43.0


From e1d0d7d592957383237bbd4f3b7b285fbfa7cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:44 +0000
Subject: [PATCH 078/123] fix: arbin limits are set in the first step with the
 label only

---
 beep/protocol/arbin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index 3794dd5..81d1adb 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -230,6 +230,8 @@ class Schedule(DashOrderedDict):
                         warnings.warn(
                             "Additional step limit at {}.{}".format(step, limit)
                         )
+            # Only the first step with the label is set
+            break
         return self
 
 
-- 
2.43.0


From 23941881291defbe2e8d4cf2149a7a0c12f4249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:44 +0000
Subject: [PATCH 079/123] fix: maccor procedures are written in the encoding
 that is asked for

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index a083b8b..6e0772f 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -154,7 +154,7 @@ class Procedure(DashOrderedDict):
         contents = "\n".join([line0, line1, remainder])
         contents = self.fixup_empty_elements(contents)
         contents += "\n"
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding=encoding) as f:
             f.write(contents)
 
     @staticmethod
-- 
2.43.0


From 498c59f8e60191c6bc3f23d2b4409c6b5c4fe64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:44 +0000
Subject: [PATCH 080/123] fix: the value of a biologic setting is not taken for
 the path of another one

---
 beep/protocol/biologic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 83f545f..50bb80e 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -172,7 +172,6 @@ class Settings(DashOrderedDict):
             elif data["Metadata"][meta_key] is not None:
                 line = " : ".join([meta_key, data["Metadata"][meta_key]])
             blocks.append(line)
-            data.unset(data["Metadata"][meta_key])
 
         contents = linesep.join(blocks)
 
-- 
2.43.0


From 25fd12be209946d5836dd7cad6dc5fcdc7163a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:02 +0000
Subject: [PATCH 081/123] fix: biologic settings with several techniques can be
 read

---
 beep/protocol/biologic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 50bb80e..0981650 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -74,15 +74,16 @@ class Settings(DashOrderedDict):
                 technique_start_line + 1
             )  # This +1 offset is based on the format seen in one file
             end = start + step_entry_length
+            # techniques with fewer lines end at the blank line that follows them
+            if "" in split_text[start:end]:
+                end = split_text.index("", start)
             technique_pos.append((technique_num, start, end))
-            lines_to_parse = [
-                i for i in extra_lines if i not in list(range(start, end))
-            ]
+            extra_lines = [i for i in extra_lines if i not in range(start, end)]
 
         section = "Metadata"
         metadata = []
-        for line_num in lines_to_parse:
-            if ":" in split_text[line_num]:
+        for line_num in extra_lines:
+            if " : " in split_text[line_num]:
                 if "Technique" in split_text[line_num]:
                     metadata.append(
                         [
-- 
2.43.0


From f6b173b2144bcae725e1ebb0675d8bbbd54bf7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:02 +0000
Subject: [PATCH 082/123] fix: a name or comment with the word technique does
 not start a technique

---
 beep/protocol/biologic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 0981650..24b2725 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -65,7 +65,7 @@ class Settings(DashOrderedDict):
 
         extra_lines = list(range(len(split_text)))
         technique_lines = [
-            indx for indx, val in enumerate(split_text) if "Technique" in val
+            indx for indx, val in enumerate(split_text) if val.startswith("Technique : ")
         ]
         technique_pos = []
         for technique_start_line in technique_lines:
@@ -84,7 +84,7 @@ class Settings(DashOrderedDict):
         metadata = []
         for line_num in extra_lines:
             if " : " in split_text[line_num]:
-                if "Technique" in split_text[line_num]:
+                if line_num + 1 in [start for _, start, _ in technique_pos]:
                     metadata.append(
                         [
                             "_".join(split_text[line_num].split(" : ", 1)),
@@ -151,7 +151,7 @@ class Settings(DashOrderedDict):
         blocks = []
         meta_data_keys = list(data["Metadata"].keys())
         for indx, meta_key in enumerate(meta_data_keys):
-            if "Technique_" in meta_key:
+            if meta_key.startswith("Technique_"):
                 blocks.append(
                     " : ".join([meta_key.split("_")[0], data["Metadata"][meta_key]])
                 )
-- 
2.43.0


From b5524eb1885ff323e5aac20dd5db0838017a63b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:02 +0000
Subject: [PATCH 083/123] fix: any value of a biologic setting can be written

---
 beep/protocol/biologic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 24b2725..f273e12 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -168,10 +168,10 @@ class Settings(DashOrderedDict):
                 continue
             elif data["Metadata"][meta_key] is None:
                 line = meta_key
-            elif data["Metadata"][meta_key] == "blank":
+            elif data["Metadata"][meta_key] == "blank" and meta_key.startswith("line"):
                 line = ""
             elif data["Metadata"][meta_key] is not None:
-                line = " : ".join([meta_key, data["Metadata"][meta_key]])
+                line = " : ".join([meta_key, str(data["Metadata"][meta_key])])
             blocks.append(line)
 
         contents = linesep.join(blocks)
-- 
2.43.0


From 4edd3c5fe22289341c9ec53e3ba5f6c32ac8bfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:37 +0000
Subject: [PATCH 084/123] fix: BioLogic to Maccor gotos to the start of a loop
 enter it at its Do step

---
 beep/protocol/biologic_mb_to_maccor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index fc0f951..8ceea14 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -580,7 +580,6 @@ class BiologicMbToMaccorProcedure:
         curr_step = 1
         curr_loop_start = -1
         curr_loop_end = -1
-        step_num_is_active_loop_start = set()
         seq_num_is_adv_cycle_step = set()
         seq_num_is_blank_loop = set()
         step_num_by_seq_num = {}
@@ -610,8 +609,6 @@ class BiologicMbToMaccorProcedure:
                 ]
                 # add do step
                 curr_step += 1
-                step_num_is_active_loop_start.update([curr_step])
-                seq_num_is_active_loop_start.update([seq_num])
 
             step_num_by_seq_num[seq_num] = curr_step
             if is_loop and loop_to == i - 1 and (i - 1) in seq_num_is_blank_loop:
@@ -744,7 +741,7 @@ class BiologicMbToMaccorProcedure:
                 step = cls._create_step(
                     seq,
                     step_num_by_seq_num,
-                    step_num_is_active_loop_start,
+                    seq_num_is_active_loop_start,
                     end_step_num,
                 )
                 steps.append(step)
-- 
2.43.0


From 24dabf5a3f7922f3cf57d8da8fba9923c2b42a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:37 +0000
Subject: [PATCH 085/123] fix: BioLogic to Maccor refuses loops that overlap in
 part

---
 beep/protocol/biologic_mb_to_maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index 8ceea14..eaa87cf 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -546,7 +546,7 @@ class BiologicMbToMaccorProcedure:
             loop_is_inactive = seq["ctrl_repeat"] == "0"
 
             # handle loops
-            if is_loop_seq and not loop_is_inactive and loop_to >= curr_loop_start:
+            if is_loop_seq and not loop_is_inactive and seq_num >= curr_loop_start:
                 # Biologic does not have nested loops, maccor does not allow
                 # you to loop back into already completed loops
                 # to handle this we're disallowing any overlapping loops
-- 
2.43.0


From 510faea5c38995806807e2f77283e71e50377c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:37 +0000
Subject: [PATCH 086/123] fix: BioLogic to Maccor ignores the goto sequence of
 limits that do not go to one

---
 beep/protocol/biologic_mb_to_maccor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index eaa87cf..edc63df 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -650,6 +650,8 @@ class BiologicMbToMaccorProcedure:
             seq_belongs_to_loop = seq_num in containing_loop_range_by_seq_num
 
             for lim in range(1, num_limits + 1):
+                if seq["lim{}_action".format(lim)] != "Goto sequence":
+                    continue
                 goto = int(seq["lim{}_seq".format(lim)])
                 if goto < last_loop_end:
                     raise Exception(
-- 
2.43.0


From 3815bb9ba7eaf9c2c34c116eabbad2196dab71fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:37 +0000
Subject: [PATCH 087/123] fix: BioLogic to Maccor goto from one loop to the
 start of another is converted

---
 beep/protocol/biologic_mb_to_maccor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index edc63df..0d121a3 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -667,7 +667,11 @@ class BiologicMbToMaccorProcedure:
                     else False
                 )
 
-                if seq_belongs_to_loop and goto_belongs_to_loop:
+                if (
+                    seq_belongs_to_loop
+                    and goto_belongs_to_loop
+                    and not goto_is_start_of_loop
+                ):
                     goto_loop_start, goto_loop_end = containing_loop_range_by_seq_num[
                         goto
                     ]
-- 
2.43.0


From 3411c4ffff393b6d81d04125df9556da725666d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:48 +0000
Subject: [PATCH 088/123] fix: Maccor to Arbin keeps the end condition of steps
 that have only one

---
 beep/protocol/maccor_to_arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 2a10fe4..1590c8e 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -325,7 +325,7 @@ class ProcedureToSchedule:
 
         # Ends
         if step_abs["Ends"] is not None:
-            if isinstance(step_abs["Ends"]["EndEntry"], OrderedDict):
+            if isinstance(step_abs["Ends"]["EndEntry"], dict):
                 blank_step["m_uLimitNum"] = 1
                 end = step_abs["Ends"]["EndEntry"]
                 end_index = 0
-- 
2.43.0


From 6f7847c971389f78465fca3b6db1bb0ef9611a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:48 +0000
Subject: [PATCH 089/123] fix: Maccor to Arbin numbers logging limits after the
 limits of any number of end conditions

---
 beep/protocol/maccor_to_arbin.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 1590c8e..4d67f55 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -362,23 +362,22 @@ class ProcedureToSchedule:
 
         # Reports
         if step_abs["Reports"] is not None:
+            limit_start = blank_step["m_uLimitNum"]
             if isinstance(step_abs["Reports"]["ReportEntry"], dict):
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + 1
                 report = step_abs["Reports"]["ReportEntry"]
                 report_index = 0
-                limit_start = len(step_abs["Ends"]["EndEntry"])
                 limit_key = "Limit{}".format(str(report_index + limit_start))
                 blank_step[limit_key] = OrderedDict(
                     self.convert_report_to_logging_limit(report)
                 )
-            elif isinstance(step_abs["Ends"]["EndEntry"], list):
+            elif isinstance(step_abs["Reports"]["ReportEntry"], list):
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + len(
                     step_abs["Reports"]["ReportEntry"]
                 )
                 for report_index, report in enumerate(
                     step_abs["Reports"]["ReportEntry"]
                 ):
-                    limit_start = len(step_abs["Ends"]["EndEntry"])
                     limit_key = "Limit{}".format(str(report_index + limit_start))
                     blank_step[limit_key] = OrderedDict(
                         self.convert_report_to_logging_limit(report)
-- 
2.43.0


From 6d29ec5b88eec29c72446447671c11415e1db5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:48 +0000
Subject: [PATCH 090/123] fix: Maccor to Arbin finds the Do of a loop at the
 start of the procedure

---
 beep/protocol/maccor_to_arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 4d67f55..4753ae5 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -125,7 +125,7 @@ class ProcedureToSchedule:
             if "Loop" in step["StepType"]:
                 loop_counter = int(re.search(r"\d+", step["StepType"]).group())
                 i = 1
-                while (indx - i) > 1:
+                while (indx - i) >= 0:
                     if self.procedure_dict_steps[abs(indx - i)][
                         "StepType"
                     ] == "Do {}".format(loop_counter):
-- 
2.43.0


From f4235cc979beb7ebf1d740053a1507e0132d126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:48 +0000
Subject: [PATCH 091/123] fix: Maccor to Arbin conversion does not change the
 procedure

---
 beep/protocol/maccor_to_arbin.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 4753ae5..53e902a 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -304,10 +304,11 @@ class ProcedureToSchedule:
                         ("Value", step_abs["Ends"]["EndEntry"]["Value"]),
                     ]
                 )
-                step_abs["Ends"]["EndEntry"] = [
-                    loop_addendum,
-                    step_abs["Ends"]["EndEntry"],
-                ]
+                # The procedure itself stays as it is
+                step_abs = OrderedDict(step_abs)
+                step_abs["Ends"] = OrderedDict(
+                    [("EndEntry", [loop_addendum, step_abs["Ends"]["EndEntry"]])]
+                )
 
             elif "Do" in step_abs["StepType"]:
                 loop_counter = int(re.search(r"\d+", step_abs["StepType"]).group())
-- 
2.43.0


From b02660f3c3e2e978a66a02ca76451602a72a274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:48 +0000
Subject: [PATCH 092/123] fix: Maccor to Arbin turns either comparison of a
 discharge current around

---
 beep/protocol/maccor_to_arbin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 53e902a..d1e5624 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -453,7 +453,7 @@ class ProcedureToSchedule:
             elif step_type == "Dischrge":
                 limit["Equation0_szRight"] = "-" + end["Value"]
                 limit["Equation0_szCompareSign"] = (
-                    end["Oper"].replace(" ", "").replace("<", ">")
+                    end["Oper"].replace(" ", "").translate(str.maketrans("<>", "><"))
                 )
             else:
                 raise ValueError(
@@ -472,7 +472,7 @@ class ProcedureToSchedule:
             elif step_type == "Dischrge":
                 limit["Equation0_szRight"] = "-" + end["Value"]
                 limit["Equation0_szCompareSign"] = (
-                    end["Oper"].replace(" ", "").replace("<", ">")
+                    end["Oper"].replace(" ", "").translate(str.maketrans("<>", "><"))
                 )
             else:
                 raise ValueError(
-- 
2.43.0


From 516234c1cd3a3b73241edfd4516625d45476ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:48 +0000
Subject: [PATCH 093/123] fix: Maccor to Arbin converts times of a day and more
 and times with empty parts

---
 beep/protocol/maccor_to_arbin.py | 49 +++++++++++++-------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index d1e5624..07b8336 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -15,7 +15,7 @@
 
 import os
 import re
-from datetime import datetime
+from datetime import timedelta
 from copy import deepcopy
 from beep.protocol import PROTOCOL_SCHEMA_DIR
 from collections import OrderedDict
@@ -408,6 +408,23 @@ class ProcedureToSchedule:
         limit["Equation0_szRight"] = "0"
         return limit
 
+    @staticmethod
+    def convert_time(value):
+        """
+        Converts a maccor time, hours:minutes:seconds where each part can be
+        empty or have decimals, to seconds
+
+        Args:
+            value (str): maccor time
+
+        Returns:
+            str: number of seconds
+
+        """
+        hours, minutes, seconds = [float(part or 0) for part in value.split(":")]
+        elapsed = timedelta(hours=hours, minutes=minutes, seconds=seconds)
+        return str(elapsed.total_seconds())
+
     def convert_end_to_limit(
         self, blank_step, end, step_index, step_name_list, step_type, step_flow_ctrl
     ):
@@ -483,20 +500,7 @@ class ProcedureToSchedule:
         elif end["EndType"] == "StepTime":
             limit["Equation0_szLeft"] = "PV_CHAN_Step_Time"
             limit["Equation0_szCompareSign"] = ">"
-            if "." in end["Value"]:
-                nofrag, frag = end["Value"].split(".")
-                frag = frag[:6]  # truncate to microseconds
-                frag += (6 - len(frag)) * "0"  # add 0s
-                elapsed = datetime.strptime(
-                    nofrag.replace("::", "00:00:0"), "%H:%M:%S"
-                ).replace(microsecond=int(frag)) - datetime.strptime(
-                    "00:00:00", "%H:%M:%S"
-                )
-            else:
-                elapsed = datetime.strptime(
-                    end["Value"].replace("::", "00:00:0"), "%H:%M:%S"
-                ) - datetime.strptime("00:00:00", "%H:%M:%S")
-            limit["Equation0_szRight"] = str(elapsed.total_seconds())
+            limit["Equation0_szRight"] = self.convert_time(end["Value"])
         elif end["EndType"] == "Loop Cnt":
             loop_counter = int(re.search(r"\d+", step_type).group())
             limit["Equation0_szLeft"] = "TC_Counter{}".format(loop_counter)
@@ -547,19 +551,6 @@ class ProcedureToSchedule:
         elif report["ReportType"] == "StepTime":
             limit["Equation0_szLeft"] = "DV_Time"
             limit["Equation0_szCompareSign"] = ">"
-            if "." in report["Value"]:
-                nofrag, frag = report["Value"].split(".")
-                frag = frag[:6]  # truncate to microseconds
-                frag += (6 - len(frag)) * "0"  # add 0s
-                elapsed = datetime.strptime(
-                    nofrag.replace("::", "00:00:0"), "%H:%M:%S"
-                ).replace(microsecond=int(frag)) - datetime.strptime(
-                    "00:00:00", "%H:%M:%S"
-                )
-            else:
-                elapsed = datetime.strptime(
-                    report["Value"].replace("::", "00:00:0"), "%H:%M:%S"
-                ) - datetime.strptime("00:00:00", "%H:%M:%S")
-            limit["Equation0_szRight"] = str(elapsed.total_seconds())
+            limit["Equation0_szRight"] = self.convert_time(report["Value"])
 
         return limit
-- 
2.43.0


From 26419a8717d93dd337547513623d65e9d74cfa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:52 +0000
Subject: [PATCH 094/123] fix: Maccor to Arbin converts loops of all four
 levels that Arbin has counters for

---
 beep/protocol/maccor_to_arbin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 07b8336..b3400c0 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -280,6 +280,10 @@ class ProcedureToSchedule:
             "Do 1",
             "Loop 2",
             "Do 2",
+            "Loop 3",
+            "Do 3",
+            "Loop 4",
+            "Do 4",
             "AdvCycle",
             "End",
         ]:
-- 
2.43.0


From 0c0182265afd3d3a7164f5eb5ac79b1cf327097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:41 +0000
Subject: [PATCH 095/123] fix: Maccor to Arbin refuses reports it cannot
 express instead of writing empty conditions

---
 beep/protocol/maccor_to_arbin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index b3400c0..7d57b90 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -557,4 +557,7 @@ class ProcedureToSchedule:
             limit["Equation0_szCompareSign"] = ">"
             limit["Equation0_szRight"] = self.convert_time(report["Value"])
 
+        else:
+            raise ValueError("Unable to set report for type {}".format(report["ReportType"]))
+
         return limit
-- 
2.43.0


From 13bb466588790a242149f819c12f0490fa05a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 096/123] fix: discharging energy statistics of regular cycles
 are those of the discharge

---
 beep/features/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 6db4add..65c5209 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -188,9 +188,9 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
-            cycle_comp_1.step_type == "charge"].discharge_energy
+            cycle_comp_1.step_type == "discharge"].discharge_energy
         Ed10_1 = cycle_comp_0[
-            cycle_comp_0.step_type == "charge"].discharge_energy
+            cycle_comp_0.step_type == "discharge"].discharge_energy
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-- 
2.43.0


From c43b2ea5af2b378a58b24081e6df42770372b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 097/123] fix: statistics of cycle and diagnostic summaries in
 the number and order asked for

---
 beep/features/core.py | 59 +++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 65c5209..44ce80c 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -151,7 +151,8 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # TODO: extend this dataframe and uncomment energy features when
         #   structuring is refactored
-        X = pd.DataFrame(np.zeros((1, 28)))
+        n_stats = len(self.hyperparameters["statistics"])
+        X = pd.DataFrame(np.zeros((1, 4 * n_stats)))
 
         reg_cycle_comp_num = self.hyperparameters.get("cycle_comp_num")
         cycle_comp_1 = self.datapath.structured_data[
@@ -167,7 +168,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         QcDiff = Qc100_1.values - Qc10_1.values
         QcDiff = QcDiff[~np.isnan(QcDiff)]
 
-        X.loc[0, 0:6] = self.get_summary_statistics(QcDiff)
+        X.iloc[0, 0:n_stats] = self.get_summary_statistics(QcDiff)
 
         Qd100_1 = cycle_comp_1[
             cycle_comp_1.step_type == "discharge"].discharge_capacity
@@ -176,7 +177,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         QdDiff = Qd100_1.values - Qd10_1.values
         QdDiff = QdDiff[~np.isnan(QdDiff)]
 
-        X.loc[0, 7:13] = self.get_summary_statistics(QdDiff)
+        X.iloc[0, n_stats:2 * n_stats] = self.get_summary_statistics(QdDiff)
 
         # # Charging Energy features
         Ec100_1 = cycle_comp_1[cycle_comp_1.step_type == "charge"].charge_energy
@@ -184,7 +185,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         EcDiff = Ec100_1.values - Ec10_1.values
         EcDiff = EcDiff[~np.isnan(EcDiff)]
 
-        X.loc[0, 14:20] = self.get_summary_statistics(EcDiff)
+        X.iloc[0, 2 * n_stats:3 * n_stats] = self.get_summary_statistics(EcDiff)
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
@@ -194,7 +195,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-        X.loc[0, 21:27] = self.get_summary_statistics(EdDiff)
+        X.iloc[0, 3 * n_stats:4 * n_stats] = self.get_summary_statistics(EdDiff)
 
         quantities = [
             "charging_capacity",
@@ -235,21 +236,22 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         stats = []
 
-        if "var" in stats_names:
-            stats.append(np.log10(np.absolute(np.var(array))))
-        if "min" in stats_names:
-            stats.append(np.log10(np.absolute(min(array))))
-        if "mean" in stats_names:
-            stats.append(np.log10(np.absolute(np.mean(array))))
-        if "skew" in stats_names:
-            stats.append(np.log10(np.absolute(skew(array))))
-        if "kurtosis" in stats_names:
-            stats.append(np.log10(
-                np.absolute(kurtosis(array, fisher=False, bias=False))))
-        if "abs" in stats_names:
-            stats.append(np.log10(np.sum(np.absolute(array))))
-        if "square" in stats_names:
-            stats.append(np.log10(np.sum(np.square(array))))
+        for name in stats_names:
+            if name == "var":
+                stats.append(np.log10(np.absolute(np.var(array))))
+            elif name == "min":
+                stats.append(np.log10(np.absolute(min(array))))
+            elif name == "mean":
+                stats.append(np.log10(np.absolute(np.mean(array))))
+            elif name == "skew":
+                stats.append(np.log10(np.absolute(skew(array))))
+            elif name == "kurtosis":
+                stats.append(np.log10(
+                    np.absolute(kurtosis(array, fisher=False, bias=False))))
+            elif name == "abs":
+                stats.append(np.log10(np.sum(np.absolute(array))))
+            elif name == "square":
+                stats.append(np.log10(np.sum(np.square(array))))
 
         return np.asarray(stats)
 
@@ -367,7 +369,8 @@ class DiagnosticSummaryStats(CycleSummaryStats):
 
         diag_intrp = self.datapath.diagnostic_data
 
-        X = pd.DataFrame(np.zeros((1, 54)))
+        n_stats = len(self.hyperparameters["statistics"])
+        X = pd.DataFrame(np.zeros((1, 6 * n_stats + 12)))
 
         # Calculate the cycles and the steps for the selected diagnostics
         cycles = diag_intrp.cycle_index[diag_intrp.cycle_type ==
@@ -414,7 +417,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         QcDiff = Qc_1.values - Qc_0.values
         QcDiff = QcDiff[~np.isnan(QcDiff)]
 
-        X.loc[0, 0:6] = self.get_summary_statistics(QcDiff)
+        X.iloc[0, 0:n_stats] = self.get_summary_statistics(QcDiff)
 
         # Discharging Capacity features
         Qd_1 = diag_intrp.discharge_capacity[mask_pos_1_discharge]
@@ -422,7 +425,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         QdDiff = Qd_1.values - Qd_0.values
         QdDiff = QdDiff[~np.isnan(QdDiff)]
 
-        X.loc[0, 7:13] = self.get_summary_statistics(QdDiff)
+        X.iloc[0, n_stats:2 * n_stats] = self.get_summary_statistics(QdDiff)
 
         # Charging Energy features
         Ec_1 = diag_intrp.charge_energy[mask_pos_1_charge]
@@ -430,7 +433,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         EcDiff = Ec_1.values - Ec_0.values
         EcDiff = EcDiff[~np.isnan(EcDiff)]
 
-        X.loc[0, 14:20] = self.get_summary_statistics(EcDiff)
+        X.iloc[0, 2 * n_stats:3 * n_stats] = self.get_summary_statistics(EcDiff)
 
         # Discharging Energy features
         Ed_1 = diag_intrp.discharge_energy[mask_pos_1_discharge]
@@ -438,7 +441,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         EdDiff = Ed_1.values - Ed_0.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-        X.loc[0, 21:27] = self.get_summary_statistics(EdDiff)
+        X.iloc[0, 3 * n_stats:4 * n_stats] = self.get_summary_statistics(EdDiff)
 
         # Charging dQdV features
         dQdVc_1 = diag_intrp.charge_dQdV[mask_pos_1_charge]
@@ -446,7 +449,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         dQdVcDiff = dQdVc_1.values - dQdVc_0.values
         dQdVcDiff = dQdVcDiff[~np.isnan(dQdVcDiff)]
 
-        X.loc[0, 28:34] = self.get_summary_statistics(dQdVcDiff)
+        X.iloc[0, 4 * n_stats:5 * n_stats] = self.get_summary_statistics(dQdVcDiff)
 
         # Discharging Capacity features
         dQdVd_1 = diag_intrp.discharge_dQdV[mask_pos_1_discharge]
@@ -454,9 +457,9 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         dQdVdDiff = dQdVd_1.values - dQdVd_0.values
         dQdVdDiff = dQdVdDiff[~np.isnan(dQdVdDiff)]
 
-        X.loc[0, 35:41] = self.get_summary_statistics(dQdVdDiff)
+        X.iloc[0, 5 * n_stats:6 * n_stats] = self.get_summary_statistics(dQdVdDiff)
 
-        X.loc[0, 42:53], names = self.get_summary_diff(
+        X.iloc[0, 6 * n_stats:], names = self.get_summary_diff(
             self.hyperparameters["diag_pos_list"]
         )
 
-- 
2.43.0


From 404019fe0cd72ea1b5e950ce4e19ad0228ed3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 098/123] fix: diagnostic features leave the diagnostic data of
 the run as they are

---
 beep/features/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beep/features/core.py b/beep/features/core.py
index 44ce80c..22cc21c 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import pandas as pd
 from scipy.stats import skew, kurtosis
@@ -41,6 +43,8 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
     def create_features(self):
         # Filter out low cycle numbers at the end of the test, corresponding to the "final" diagnostic
+        # (in a copy, the run itself stays as it is for other features)
+        self.datapath = copy.copy(self.datapath)
         self.datapath.diagnostic_data = self.datapath.diagnostic_data[
             ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
@@ -357,6 +361,8 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         """
         # Filter out "final" diagnostic cycles that have been appended to the end of the file with the wrong
         # cycle number(test time is monotonic)
+        # (in a copy, the run itself stays as it is for other features)
+        self.datapath = copy.copy(self.datapath)
         self.datapath.diagnostic_data = self.datapath.diagnostic_data[
             ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-- 
2.43.0


From 44a0adcb5c26654a169185ee7ddc0993c1c0d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 099/123] fix: DeltaQFastCharge uses the initial cycle and the
 number of nominal cycles asked for

---
 beep/features/core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 22cc21c..59b56ad 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -545,11 +545,9 @@ class DeltaQFastCharge(BEEPFeaturizer):
         i_final = self.hyperparameters[
                       "final_pred_cycle"] - 1  # python indexing
         i_mid = self.hyperparameters["mid_pred_cycle"] - 1
+        i_init = self.hyperparameters["init_pred_cycle"] - 1
 
         summary = self.datapath.structured_summary
-        self.hyperparameters[
-            "n_nominal_cycles"
-        ] = 40  # For nominal capacity, use median discharge capacity of first n cycles
 
         if "step_type" in self.datapath.structured_data.columns:
             interpolated_df = self.datapath.structured_data[
@@ -588,7 +586,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             interpolated_df.cycle_index == i_final
             ]
         Qd_10 = interpolated_df.discharge_capacity[
-            interpolated_df.cycle_index == 9]
+            interpolated_df.cycle_index == i_init]
 
         Qd_diff = Qd_final.values - Qd_10.values
 
@@ -659,7 +657,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
         )
         labels.append("internal_resistance_difference_cycles_2:100")
 
-        # Nominal capacity
+        # For nominal capacity, use median discharge capacity of first n cycles
         end = self.hyperparameters["n_nominal_cycles"]
         X[20] = np.median(summary.discharge_capacity.iloc[0: end])
         labels.append("nominal_capacity_by_median")
-- 
2.43.0


From 28c269b5c84d7e611093571d7edfca188b687cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:01 +0000
Subject: [PATCH 100/123] fix: threshold targets use the diagnostic cycles of
 the type and metric asked for

---
 beep/features/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beep/features/core.py b/beep/features/core.py
index 59b56ad..b170210 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -833,6 +833,10 @@ class DiagnosticProperties(BEEPFeaturizer):
         filter_kinks = self.hyperparameters["filter_kinks"]
         extrapolate_threshold = self.hyperparameters["extrapolate_threshold"]
 
+        # The threshold is that of one metric measured in one type of cycle
+        df = df[(df['cycle_type'] == cycle_type) & (df['metric'] == metric)]
+        df = df[df['fractional_metric'].notna()]
+
         if filter_kinks:
             if np.any(df['fractional_metric'].diff().diff() < filter_kinks):
                 last_good_cycle = df[
-- 
2.43.0


From 6e6231f2d42fb0d18d8e9247c790ca9a38af9e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:01 +0000
Subject: [PATCH 101/123] fix: threshold targets not crossed are refused when
 not extrapolating

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index b170210..4adddae 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -851,7 +851,7 @@ class DiagnosticProperties(BEEPFeaturizer):
         # Logic around how to deal with cells that have not crossed threshold
         if df['fractional_metric'].min() > threshold and \
                 not extrapolate_threshold:
-            BEEPFeaturizationError(
+            raise BEEPFeaturizationError(
                 "DiagnosticProperties data has not crossed threshold "
                 "and extrapolation inaccurate"
             )
-- 
2.43.0


From e25a1c5e57fcea22311d476fb2e27b860d9232c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:01 +0000
Subject: [PATCH 102/123] fix: threshold targets can be given along a single
 axis

---
 beep/features/core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 4adddae..27f44b5 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -892,13 +892,10 @@ class DiagnosticProperties(BEEPFeaturizer):
 
         x_to_threshold = []
         for indx, x_linspace in enumerate(x_linspaces):
-            print(f_axis[indx])
-            print(x_linspace)
-
             crossing_array = abs(f_axis[indx](x_linspace) - threshold)
             x_to_threshold.append(x_linspace[np.argmin(crossing_array)])
 
-        if ~(x_to_threshold[0] > 0) or ~(x_to_threshold[1] > 0):
+        if not all(x > 0 for x in x_to_threshold):
             raise BEEPFeaturizationError(
                 "DiagnosticProperties data does not have a positive value "
                 "to threshold"
-- 
2.43.0


From 8189f5f479059317f83c555a8cff481af7dbbc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 103/123] fix: protocol parameters are not looked up in the
 file of another project

---
 beep/deprecated/parameters_lookup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beep/deprecated/parameters_lookup.py b/beep/deprecated/parameters_lookup.py
index 266c999..58673b0 100644
--- a/beep/deprecated/parameters_lookup.py
+++ b/beep/deprecated/parameters_lookup.py
@@ -44,7 +44,11 @@ def get_protocol_parameters(filepath, parameters_path):
     project_name_list = get_project_sequence(filepath)
     project_name = project_name_list[0]
     path = os.path.abspath(parameters_path)
-    project_parameter_files = glob(os.path.join(path, project_name + "*"))
+    project_parameter_files = [
+        file for file in glob(os.path.join(path, project_name + "*"))
+        # not the files of projects whose name begins with this one
+        if not os.path.basename(file)[len(project_name):][:1].isalnum()
+    ]
     assert len(project_parameter_files) <= 1, (
             "Found too many parameter files for: " + project_name
     )
-- 
2.43.0


From 1749fa187d7409585389668f4684c0df990a1d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 104/123] fix: exclusion criteria of cycles whose charge is not
 measured at its first interpolated points

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 27f44b5..3869bdd 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -1060,7 +1060,7 @@ class ExclusionCriteria(BEEPFeaturizer):
             for cycle in regular_cycles_pre_EOL.cycle_index:
                 cycle_data = self.datapath.structured_data[(self.datapath.structured_data.cycle_index == cycle)]
 
-                charge_data = cycle_data[(self.datapath.structured_data.step_type == "charge")]
+                charge_data = cycle_data[(cycle_data.step_type == "charge") & cycle_data.test_time.notna()]
 
                 CV_segment = get_CV_segment_from_charge(charge_data)
 
-- 
2.43.0


From 3490f2e59a435eaaa8534d7a98fdb9f7614b915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 105/123] fix: initial throughput when the last cycle before
 the second diagnostics has no value

---
 beep/features/featurizer_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 257d1c6..f2fa572 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -496,8 +496,8 @@ def get_fractional_quantity_remaining_nx(
                                                          first_degradation_cycle].iloc[-1])
 
     initial_regular_throughput = regular_summary[
-            regular_summary.cycle_index == last_initial_cycle
-        ][normalize_qty_throughput].values[0]
+            regular_summary.cycle_index <= last_initial_cycle
+        ][normalize_qty_throughput].max()
 
     summary_diag_cycle_type.loc[:, 'initial_regular_throughput'] = initial_regular_throughput
 
-- 
2.43.0


From db5df83115eda71243170e62f8e5d15cdd6921bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 106/123] fix: diffusion features look up the protocol in the
 parameters path given

---
 beep/features/core.py               | 4 +++-
 beep/features/featurizer_helpers.py | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 3869bdd..6c8dce0 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -57,7 +57,9 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            self.datapath, self.hyperparameters["diag_pos"]
+            self.datapath,
+            self.hyperparameters["diag_pos"],
+            parameters_path=self.hyperparameters["parameters_path"]
         )
 
         hppc_r = pd.DataFrame()
diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index f2fa572..bdcc279 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -391,7 +391,7 @@ def get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path=PROTOCOL
     return result
 
 
-def get_diffusion_features(processed_cycler_run, diag_pos):
+def get_diffusion_features(processed_cycler_run, diag_pos, parameters_path=PROTOCOL_PARAMETERS_DIR):
     """
     This method calculates changes in diffusion coefficient between a specified hppc cycle and the first one at
     different state of charge.
@@ -405,8 +405,8 @@ def get_diffusion_features(processed_cycler_run, diag_pos):
         a dataframe contains 8 normalized slope changes.
 
     """
-    df_0 = get_diffusion_coeff(processed_cycler_run, 0)
-    df = get_diffusion_coeff(processed_cycler_run, diag_pos)
+    df_0 = get_diffusion_coeff(processed_cycler_run, 0, parameters_path=parameters_path)
+    df = get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path=parameters_path)
     result = (df - df_0)/(df_0)
     return result
 
-- 
2.43.0


From ff268908875f1d32a08ea1e09fb8193b5e9bef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 107/123] fix: voltage differences of a later HPPC cycle use
 the step indices of that cycle

---
 beep/features/featurizer_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index bdcc279..20aa01c 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -254,7 +254,8 @@ def get_v_diff(processed_cycler_run, diag_pos, soc_window, parameters_path=PROTO
     hppc_data_1 = hppc_data_1.loc[hppc_data_1.discharge_capacity < 8]
 
     step_ind_1 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=0, parameters_path=parameters_path)
-    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=1, parameters_path=parameters_path)
+    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=diag_pos,
+                                parameters_path=parameters_path)
 
     hppc_data_2_d = hppc_data_2.loc[hppc_data_2.step_index == step_ind_2["hppc_discharge_to_next_soc"]]
     hppc_data_1_d = hppc_data_1.loc[hppc_data_1.step_index == step_ind_1["hppc_discharge_to_next_soc"]]
-- 
2.43.0


From 027fdddf001b8e9a061b611ec99c545a19bec723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 108/123] fix: repeated or receding capacities do not upset the
 HPPC voltage differences

---
 beep/features/featurizer_helpers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 20aa01c..d058b3a 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -276,16 +276,19 @@ def get_v_diff(processed_cycler_run, diag_pos, soc_window, parameters_path=PROTO
 
     V = chosen_1.voltage.values
     Q = chosen_1.discharge_capacity.values
+    # In order of decreasing capacity, however the points are ordered in the structured data
+    order = np.argsort(-Q, kind="stable")
+    V = V[order]
+    Q = Q[order]
 
     # Threshold between values so that non-strictly monotonic values are removed
     # 1e7 roughly corresponds to the resolution of a 24 bit ADC, higher precision
     # would be unphysical
     d_capacity_min = (np.max(Q) - np.min(Q)) / 1e7
-    if not np.all(np.diff(Q) >= -d_capacity_min):
-        # Assuming that Q needs to be strictly increasing with threshold
-        index_of_repeated = np.where(np.diff(Q) >= -d_capacity_min)[0]
-        Q = np.delete(Q, index_of_repeated, axis=0)
-        V = np.delete(V, index_of_repeated, axis=0)
+    # Q needs to be strictly decreasing with threshold
+    index_of_repeated = np.where(np.diff(Q) >= -d_capacity_min)[0]
+    Q = np.delete(Q, index_of_repeated, axis=0)
+    V = np.delete(V, index_of_repeated, axis=0)
 
     f = interp1d(Q, V, kind="cubic", fill_value="extrapolate", assume_sorted=False)
 
-- 
2.43.0


From 8b968a1ce829f89782a601226ec88ff3c03b34ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 109/123] fix: a run without the HPPC cycle asked for is
 refused

---
 beep/features/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/beep/features/core.py b/beep/features/core.py
index 6c8dce0..ab4146f 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -34,6 +34,13 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
                     ]
                 )
             )
+            # The HPPC cycle to compare with the first one has to be there
+            diagnostic_summary = self.datapath.diagnostic_summary
+            conditions.append(
+                diagnostic_summary.loc[
+                    diagnostic_summary.cycle_type == "hppc"
+                ].cycle_index.nunique() > self.hyperparameters["diag_pos"]
+            )
             if all(conditions):
                 return True, None
             else:
-- 
2.43.0


From 540d0f1dc3bfb219764755286bf9cba330455bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:16 +0000
Subject: [PATCH 110/123] fix: discharges in C rates keep their voltage limit
 in the Arbin schedule

---
 beep/protocol/maccor_to_arbin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 7d57b90..7efdc07 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -232,6 +232,8 @@ class ProcedureToSchedule:
                     blank_step["m_szCtrlValue"] = "-" + step_abs["StepValue"].replace(
                         "C", ""
                     )
+                    blank_step["m_szExtCtrlValue1"] = step_abs["Limits"]["Voltage"]
+                    blank_step["m_szExtCtrlValue2"] = "0"
             elif step_abs["Limits"] is None:
                 blank_step["m_szStepCtrlType"] = "C-Rate"
                 if step_abs["StepType"] == "Charge":
-- 
2.43.0


From 916e86c77bc2cc8837153bbb3d269a93bf062de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 111/123] fix: runs that have not reached their diagnostic
 cycles can be structured

---
 beep/structure/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 0254ecc..0f54d26 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -942,6 +942,10 @@ class BEEPDatapath(abc.ABC, MSONable):
         diag_data = self.raw_data.loc[self.raw_data["cycle_index"].isin(self.diagnostic.all_ix)]
         # diag_types = [self.diagnostic.cycle_to_type[cix] for cix in diag_data.cycle_index.unique()]
 
+        if diag_data.empty:
+            logger.warning("None of the diagnostic cycles are in the data!")
+            return pd.DataFrame()
+
         # Counter to ensure non-contiguous repeats of step_index
         # within same cycle_index are grouped separately
         diag_data.loc[:, "step_index_counter"] = 0
@@ -1075,7 +1079,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         )
         diag_summary["paused"] = self.raw_data.groupby("cycle_index").apply(
             get_max_paused_over_threshold
-        )
+        ).reindex(diag_summary.index)
 
         diag_summary.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From d4677db71cdbd5998837e950e8bd371caa6faaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 112/123] fix: runs with only diagnostic cycles can be
 structured

---
 beep/structure/base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 0f54d26..9e8cfa1 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -728,12 +728,12 @@ class BEEPDatapath(abc.ABC, MSONable):
         v_range = v_range or [2.8, 3.5]
 
         # If any regular cycle contains a waveform step, interpolate on test_time.
-        if self.raw_data[reg_mask]. \
+        if len(reg_cycles) > 0 and self.raw_data[reg_mask]. \
                 groupby(["cycle_index", "step_index"]). \
                 apply(step_is_waveform_dchg).any():
             discharge_axis = 'test_time'
 
-        if self.raw_data[reg_mask]. \
+        if len(reg_cycles) > 0 and self.raw_data[reg_mask]. \
                 groupby(["cycle_index", "step_index"]). \
                 apply(step_is_waveform_chg).any():
             charge_axis = 'test_time'
@@ -840,7 +840,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             pd.to_datetime(merged.date_time_iso_x, utc=True, errors="coerce"),
         )
         summary["charge_duration"] = np.round(
-            time_diff / np.timedelta64(1, "s"), 2)
+            time_diff / np.timedelta64(1, "s"), 2).reindex(summary.index)
 
         # Compute time since start of cycle in minutes. This comes handy
         # for featurizing time-temperature integral
@@ -860,14 +860,14 @@ class BEEPDatapath(abc.ABC, MSONable):
             summary["time_temperature_integrated"] = self.raw_data.groupby(
                 "cycle_index").apply(
                 lambda g: integrate.trapz(g.temperature, x=g.time_since_cycle_start)
-            )
+            ).reindex(summary.index)
 
         # Drop the time since cycle start column
         self.raw_data.drop(columns=["time_since_cycle_start"], inplace=True)
 
         # Determine if any of the cycles has been paused
         summary["paused"] = self.raw_data.groupby("cycle_index").apply(
-            get_max_paused_over_threshold)
+            get_max_paused_over_threshold).reindex(summary.index)
 
         # Add CV_time, CV_current, CV_capacity summary stats
         CV_time = []
@@ -893,7 +893,8 @@ class BEEPDatapath(abc.ABC, MSONable):
         summary = self._cast_dtypes(summary, "summary")
 
         # Avoid returning empty summary dataframe for single cycle raw_data
-        if summary.shape[0] == 1:
+        # (and there is no last cycle to inspect if all cycles are diagnostic)
+        if summary.shape[0] <= 1:
             return summary
 
         last_voltage = self.raw_data.loc[
-- 
2.43.0


From 12a1c2d352fa57c8dd3f3fd80f757645972ccde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:48 +0000
Subject: [PATCH 113/123] fix: output filenames belong to the inputs in the
 order given, also with s3 keys among them

---
 beep/cmd.py | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index e039425..7778de0 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -444,41 +444,41 @@ def structure(
         logger.info(f"Including {len(s3_objs)} available s3 objects in file match.")
         s3_keys = [o.key for o in s3_objs]
 
+        pardir = S3_CACHE if s3_use_cache else ctx.obj.cwd
+        pardir = os.path.abspath(pardir)
+
         # local files matching globs are pre-expanded by Click
-        s3_keys_matched = []
-        local_files = []
+        # (local file, s3 key) in the order the files are given, which is
+        # also that of the output filenames
+        inputs = []
         for maybe_glob in files:
             # add direct matches
             if "*" not in maybe_glob:
-                if maybe_glob in s3_keys:
-                    s3_keys_matched.append(maybe_glob)
-                else:
-                    local_files.append(maybe_glob)
+                s3_keys_matched = [maybe_glob] if maybe_glob in s3_keys else []
             else:
                 # its a glob, and real local globs will
                 # be pre-expanded by click, so the only
                 # valid globs will be on s3. All remaining
                 # globs are invalid/bad paths
-                matching_files = fnmatch.filter(s3_keys, maybe_glob)
-                if matching_files:
-                    s3_keys_matched += matching_files
-                else:
-                    local_files.append(maybe_glob)
-
-        logger.info(f"Found {len(s3_keys_matched)} matching files on s3")
-        local_files_from_s3 = []
-        for s3k in s3_keys_matched:
-            s3k_basename = os.path.basename(s3k)
-            pardir = S3_CACHE if s3_use_cache else ctx.obj.cwd
-            pardir = os.path.abspath(pardir)
+                s3_keys_matched = fnmatch.filter(s3_keys, maybe_glob)
+            if s3_keys_matched:
+                inputs += [
+                    (os.path.join(pardir, os.path.basename(s3k)), s3k)
+                    for s3k in s3_keys_matched
+                ]
+            else:
+                inputs.append((os.path.abspath(maybe_glob), None))
+
+        logger.info(f"Found {len([k for _, k in inputs if k])} matching files on s3")
+        for s3k_local_fullname, s3k in inputs:
+            if s3k is None:
+                continue
             if not os.path.exists(pardir):
                 os.makedirs(pardir)
-            s3k_local_fullname = os.path.join(pardir, s3k_basename)
             logger.info(f"Fetching {s3k} from {s3_bucket}")
             download_s3_object(s3_bucket, s3k, s3k_local_fullname)
-            logger.info(f"Fetched s3 file {s3k_basename} to {s3k_local_fullname}")
-            local_files_from_s3.append(s3k_local_fullname)
-        files = local_files + local_files_from_s3
+            logger.info(f"Fetched s3 file {s3k} to {s3k_local_fullname}")
+        files = [f for f, _ in inputs]
 
     files = [os.path.abspath(f) for f in files]
 
-- 
2.43.0


From 3bde75168070bceafb622ff8bf792f6f0e379f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:48 +0000
Subject: [PATCH 114/123] fix: s3 objects of the same name do not overwrite one
 another or local inputs

---
 beep/cmd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 7778de0..8fb4da6 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -469,6 +469,13 @@ def structure(
             else:
                 inputs.append((os.path.abspath(maybe_glob), None))
 
+        # two different inputs must never end up in the same local file
+        if len(set(inputs)) != len({f for f, _ in inputs}):
+            raise ValueError(
+                "Several inputs would be fetched to the same local file! "
+                "Structure objects of the same name one by one."
+            )
+
         logger.info(f"Found {len([k for _, k in inputs if k])} matching files on s3")
         for s3k_local_fullname, s3k in inputs:
             if s3k is None:
-- 
2.43.0


From fa752fd40e61bb9685dc1a8b1bdc902b68b796c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:48 +0000
Subject: [PATCH 115/123] fix: local files are prioritized over s3 objects of
 the same path

---
 beep/cmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 8fb4da6..dac924f 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -452,8 +452,11 @@ def structure(
         # also that of the output filenames
         inputs = []
         for maybe_glob in files:
+            # local files are prioritized
+            if os.path.exists(maybe_glob):
+                s3_keys_matched = []
             # add direct matches
-            if "*" not in maybe_glob:
+            elif "*" not in maybe_glob:
                 s3_keys_matched = [maybe_glob] if maybe_glob in s3_keys else []
             else:
                 # its a glob, and real local globs will
-- 
2.43.0


From 9c0e0ea0dec191855c2cd8793e579fe4390e8e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:54 +0000
Subject: [PATCH 116/123] fix: pauses in a cycle do not depend on the time zone
 of the machine

---
 beep/structure/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 9e8cfa1..51aa714 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -5,7 +5,7 @@ import os
 import abc
 import json
 import copy
-import time
+import calendar
 
 import pandas as pd
 import numpy as np
@@ -1459,7 +1459,7 @@ def get_max_paused_over_threshold(group, paused_threshold=3600):
     """
     date_time_objs = pd.to_datetime(group["date_time_iso"], format="mixed")
     date_time_float = [
-        time.mktime(t.timetuple()) if t is not pd.NaT else float("nan")
+        calendar.timegm(t.utctimetuple()) if t is not pd.NaT else float("nan")
         for t in date_time_objs
     ]
     date_time_float = pd.Series(date_time_float)
-- 
2.43.0


From eabd04b0c44c8b93773165b4137cb8603ac9899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:37 +0000
Subject: [PATCH 117/123] fix: files moved to another project arrive whole and
 otherwise unchanged

---
 beep/utils/project_transfer.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index 384583b..d1cc86a 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -83,15 +83,19 @@ class ProjectTransfer:
                 s3.download_file(
                     self.bucket, object_name, os.path.join(scratch_dir, name)
                 )
-                from_file = open(os.path.join(scratch_dir, name))
-                line = from_file.readline()
-                line = line.replace(self.input_project, self.output_project)
                 to_file_name = os.path.join(
                     scratch_dir, name.replace(self.input_project, self.output_project)
                 )
-                to_file = open(to_file_name, "w")
-                to_file.write(line)
-                shutil.copyfileobj(from_file, to_file)
+                # Bytes, as neither encoding nor line ends may change, and
+                # closed before the upload, so that nothing is left unwritten
+                with open(os.path.join(scratch_dir, name), "rb") as from_file:
+                    line = from_file.readline()
+                    line = line.replace(
+                        self.input_project.encode(), self.output_project.encode()
+                    )
+                    with open(to_file_name, "wb") as to_file:
+                        to_file.write(line)
+                        shutil.copyfileobj(from_file, to_file)
                 if self.dry_run:
                     output_bucket = "beep-sync-test-stage"
                 else:
-- 
2.43.0


From ea4f8528c0f3669f628f14f460a2928920eb9ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:37 +0000
Subject: [PATCH 118/123] fix: a folder without files can be listed for
 transfer

---
 beep/utils/project_transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index d1cc86a..ec1e321 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -63,7 +63,7 @@ class ProjectTransfer:
         paginator = client.get_paginator("list_objects_v2")
         result = paginator.paginate(Bucket=bucket, Delimiter="/", Prefix=prefix)
         for response in result:
-            object_names = object_names + response["Contents"]
+            object_names = object_names + response.get("Contents", [])
         return object_names
 
     def download_and_modify(self, object_names):
-- 
2.43.0


From 4ccefd8deb578cb5601143c03643bc9726b43b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:37 +0000
Subject: [PATCH 119/123] fix: a refused upload does not stop the transfer of
 other files

---
 beep/utils/project_transfer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index ec1e321..f454b35 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -13,6 +13,7 @@ Options:
 
 """
 
+from boto3.exceptions import S3UploadFailedError
 from botocore.exceptions import ClientError
 import os
 import shutil
@@ -105,7 +106,7 @@ class ProjectTransfer:
                         directory, name.replace(self.input_project, self.output_project)
                     )
                     s3.upload_file(to_file_name, output_bucket, new_object_name)
-                except ClientError as e:
+                except (ClientError, S3UploadFailedError) as e:
                     print(e)
 
 
-- 
2.43.0


From d9dda38388d6fd5561c5598d956315c4ec29fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:59 +0000
Subject: [PATCH 120/123] fix: impedance spectra read from files can be
 serialized

---
 beep/structure/base_eis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base_eis.py b/beep/structure/base_eis.py
index e69ed5f..96eb528 100644
--- a/beep/structure/base_eis.py
+++ b/beep/structure/base_eis.py
@@ -61,7 +61,8 @@ class EIS(MSONable):
             "@module": self.__class__.__module__,
             "@class": self.__class__.__name__,
             "data": self.data.to_dict("list"),
-            "metadata": self.metadata.to_dict()
+            # metadata of spectra read from files may be a plain dictionary
+            "metadata": self.metadata if isinstance(self.metadata, dict) else self.metadata.to_dict()
         }
 
     @classmethod
@@ -77,7 +78,10 @@ class EIS(MSONable):
         """
         data = pd.DataFrame(d["data"])
         data = data.sort_index()
-        metadata = pd.DataFrame(d["metadata"])
+        metadata = d["metadata"]
+        # A dataframe is serialized by column, other metadata stays as it is
+        if all(isinstance(value, dict) for value in metadata.values()):
+            metadata = pd.DataFrame(metadata)
         return cls(data, metadata)
 
 
-- 
2.43.0


From 6757f7033be5f8468da7647898ef30696e1126ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:59 +0000
Subject: [PATCH 121/123] fix: runs whose impedance spectra were loaded can be
 read back

---
 beep/structure/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 51aa714..e271ddc 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -189,9 +189,10 @@ class BEEPDatapath(abc.ABC, MSONable):
 
         # paths may include "raw", "metadata", and "structured", as well as others.
         if paths:
-            for path_ref, path in paths.items():
-                if path and not os.path.isabs(path):
-                    raise ValueError(f"{path_ref}: '{path}' is not absolute! All paths must be absolute.")
+            for path_ref, ref_paths in paths.items():
+                for path in ref_paths if isinstance(ref_paths, (list, tuple)) else [ref_paths]:
+                    if path and not os.path.isabs(path):
+                        raise ValueError(f"{path_ref}: '{path}' is not absolute! All paths must be absolute.")
             self.paths = paths
         else:
             self.paths = {"raw": None}
-- 
2.43.0


From d5f690766e2205bb741a38772b12786bf4a7581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:26 +0000
Subject: [PATCH 122/123] fix: impedance spectra of a run can be loaded

---
 beep/structure/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index f6e6ba8..7ac3b42 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -162,7 +162,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             paths = glob(eis_pattern)
 
         eis_runs = []
-        for path in tqdm.tqdm(paths, desc="Loading EIS files..."):
+        for path in tqdm(paths, desc="Loading EIS files..."):
             eis = self.MaccorEIS.from_file(path)
             eis_runs.append(eis)
 
-- 
2.43.0


From 908091c3e7c1e9834911090018400a28fd39203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:04 +0000
Subject: [PATCH 123/123] fix: DeltaQFastCharge without interpolated discharge
 steps gives missing differences, not zeros

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index ab4146f..e5a6b99 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -609,7 +609,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             X[9] = np.log10(np.abs(kurtosis(Qd_diff)))  # Kurtosis
             X[10] = np.log10(np.abs(Qd_diff[0]))  # First difference
         else:
-            X[5:11] = np.nan
+            X[list(range(5, 11))] = np.nan
 
         labels.append("abs_min_discharge_capacity_difference_cycles_2:100")
         labels.append("abs_mean_discharge_capacity_difference_cycles_2:100")
-- 
2.43.0

