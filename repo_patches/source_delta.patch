From 50ca8a829c4d83315165909f9c6efee63b2a6511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 1/6] fix: treat the directory of a filter pattern literally

load_transmission_curve passed drn to glob unescaped, so a directory whose
name contains [, ] * or ? was not found, or another directory was read.
---
 dsps/data_loaders/load_filter_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index 9ce126f..3d711a2 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -2,7 +2,7 @@
 
 import os
 import random
-from glob import glob
+from glob import escape, glob
 
 import h5py
 import numpy as np
@@ -65,7 +65,7 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
                 )
                 raise ValueError(msg)
 
-        fn_pat = os.path.join(drn, bn_pat)
+        fn_pat = os.path.join(escape(os.fspath(drn)), bn_pat)
         fn_list = glob(fn_pat)
         msg = "There is no filename with pattern {0} located in {1}"
         assert len(fn_list) != 0, msg.format(bn_pat, drn)
-- 
2.43.0


From 5c088ba316654239776a77bfc518f634fcb67720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 2/6] fix: reject filter curves that exceed unity or are not
 finite

The upper bound was tested with min() instead of max(), so curves with
values far above 1 were silently clipped, and NaN or inf slipped through.
---
 dsps/data_loaders/load_filter_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index 3d711a2..6cb4a94 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -78,9 +78,11 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
         wave = hdf["wave"][...]
         transmission = hdf["transmission"][...]
 
-        if transmission.min() < -TOL:
+        if not np.all(np.isfinite(transmission)):
+            raise ValueError(f"Non-finite values in transmission curve for {fn}")
+        elif transmission.min() < -TOL:
             raise ValueError(f"Negatively-valued transmission curve for {fn}")
-        elif transmission.min() > 1 + TOL:
+        elif transmission.max() > 1 + TOL:
             raise ValueError(f"transmission curve exceeds unity for {fn}")
         else:
             transmission = np.clip(transmission, 0.0, 1.0)
-- 
2.43.0


From 87e49cd3d11f0fcef2914a3395295c38fbfddc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 3/6] fix: let the SSP writer script work without emission
 lines

ssp_emline_wave is always a field of SSPData, so the script crashed with an
AttributeError, leaving a partial file, when FSPS offers no emission lines.
---
 scripts/write_fsps_data_to_disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/write_fsps_data_to_disk.py b/scripts/write_fsps_data_to_disk.py
index cb97ea1..fea1187 100644
--- a/scripts/write_fsps_data_to_disk.py
+++ b/scripts/write_fsps_data_to_disk.py
@@ -32,7 +32,7 @@ if __name__ == "__main__":
     with h5py.File(args.outname, "w") as hdf:
         for key, arr in zip(DEFAULT_SSP_KEYS, ssp_data):
             hdf[key] = arr
-        if "ssp_emline_wave" in ssp_data._fields:
+        if ssp_data.ssp_emline_wave is not None:
             ssp_emline_name = list(ssp_data.ssp_emline_wave._fields)
             ssp_emline_wave = np.array(
                 [getattr(ssp_data.ssp_emline_wave, name) for name in ssp_emline_name]
-- 
2.43.0


From f719de86c6fb00ce36c9b5ac200b1f35a938efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 4/6] fix: write the SSP data file atomically

If the script was interrupted, killed or ran out of space after the spectra
were written, the output loaded without emission lines or with zeroed data.
Write a temporary file, sync it and rename it over the output.
---
 scripts/write_fsps_data_to_disk.py | 39 ++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/scripts/write_fsps_data_to_disk.py b/scripts/write_fsps_data_to_disk.py
index fea1187..de8702e 100644
--- a/scripts/write_fsps_data_to_disk.py
+++ b/scripts/write_fsps_data_to_disk.py
@@ -3,6 +3,7 @@ usage:
 py write_fsps_data_to_disk.py <.h5 output filename> --gas_logz 0.0 --gas_logu -2.0
 """
 import argparse
+import os
 
 import h5py
 import numpy as np
@@ -29,16 +30,28 @@ if __name__ == "__main__":
         kwargs["gas_logu"] = args.gas_logu
 
     ssp_data = retrieve_ssp_data_from_fsps(**kwargs)
-    with h5py.File(args.outname, "w") as hdf:
-        for key, arr in zip(DEFAULT_SSP_KEYS, ssp_data):
-            hdf[key] = arr
-        if ssp_data.ssp_emline_wave is not None:
-            ssp_emline_name = list(ssp_data.ssp_emline_wave._fields)
-            ssp_emline_wave = np.array(
-                [getattr(ssp_data.ssp_emline_wave, name) for name in ssp_emline_name]
-            )
-            hdf.create_dataset(
-                "ssp_emline_name", data=np.array(ssp_emline_name, dtype="S")
-            )
-            hdf["ssp_emline_wave"] = ssp_emline_wave
-            hdf["ssp_emline_luminosity"] = ssp_data.ssp_emline_luminosity
+    # Write to a temporary file that only replaces outname once it is complete,
+    # so that a crash never leaves a partial file that could be mistaken for data
+    outname = os.path.realpath(args.outname)
+    tmpname = f"{outname}.{os.getpid()}.tmp"
+    try:
+        with h5py.File(tmpname, "w") as hdf:
+            for key, arr in zip(DEFAULT_SSP_KEYS, ssp_data):
+                hdf[key] = arr
+            if ssp_data.ssp_emline_wave is not None:
+                ssp_emline_name = list(ssp_data.ssp_emline_wave._fields)
+                ssp_emline_wave = np.array(
+                    [getattr(ssp_data.ssp_emline_wave, name) for name in ssp_emline_name]
+                )
+                hdf.create_dataset(
+                    "ssp_emline_name", data=np.array(ssp_emline_name, dtype="S")
+                )
+                hdf["ssp_emline_wave"] = ssp_emline_wave
+                hdf["ssp_emline_luminosity"] = ssp_data.ssp_emline_luminosity
+        with open(tmpname, "rb") as f:
+            os.fsync(f.fileno())
+        os.replace(tmpname, outname)
+    except BaseException:
+        if os.path.exists(tmpname):
+            os.remove(tmpname)
+        raise
-- 
2.43.0


From 5f57f48fa819392d5faa83a1af626b620b566145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 5/6] fix: order fake emission line names independently of the
 hash seed

---
 dsps/data_loaders/retrieve_fake_fsps_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/data_loaders/retrieve_fake_fsps_data.py b/dsps/data_loaders/retrieve_fake_fsps_data.py
index ce0dc9c..06d5da1 100644
--- a/dsps/data_loaders/retrieve_fake_fsps_data.py
+++ b/dsps/data_loaders/retrieve_fake_fsps_data.py
@@ -107,9 +107,9 @@ def _get_spec_ssp():
 
 
 def _get_emline_wave_namedtuple(n_line):
-    ssp_emline_name = {"XXX"}
+    ssp_emline_name = {"XXX": None}  # dict rather than set: keeps a reproducible order
     while len(ssp_emline_name) < n_line:
-        ssp_emline_name.add("".join(random.choices(string.ascii_uppercase, k=3)))
+        ssp_emline_name["".join(random.choices(string.ascii_uppercase, k=3))] = None
     ssp_emline_name = list(ssp_emline_name)
     ssp_emline_wave = np.logspace(3, 6, n_line)
 
-- 
2.43.0


From 2d397d05e1f58ee0a41ea609e76edb8a02d71fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 6/6] fix: enable double precision before any dsps module
 computes constants

---
 dsps/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsps/__init__.py b/dsps/__init__.py
index 44cb25d..c997c2a 100644
--- a/dsps/__init__.py
+++ b/dsps/__init__.py
@@ -1,6 +1,11 @@
 # flake8: noqa
 """
 """
+import jax
+
+# must precede the other imports: some modules compute constants when imported
+jax.config.update("jax_enable_x64", True)
+
 from ._version import __version__
 from .data_loaders import SSPData, load_ssp_templates, load_transmission_curve
 from .photometry import *
-- 
2.43.0

