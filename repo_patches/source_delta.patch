From 48550986c0e93e482d94dfc7d4b5d98e4b5d32b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:09 +0000
Subject: [PATCH 01/18] fix: advance over the whole 10-bit IODC of message 1044

The offset moved by 8 bits, so Fit was read from IODC and the length check
rejected every 1044 message.
---
 sub_decoders/RTCM_EPH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_EPH.py b/sub_decoders/RTCM_EPH.py
index 359f788..f467677 100644
--- a/sub_decoders/RTCM_EPH.py
+++ b/sub_decoders/RTCM_EPH.py
@@ -617,7 +617,7 @@ class EphemerisDecoder(Bits):
         eph.URA, offset = self.getbitu(buf, offset, 4), offset + 4  # DF453
         eph.SVH, offset = self.getbitu(buf, offset, 6), offset + 6  # DF454
         eph.TGD, offset = self.getbits(buf, offset, 8), offset + 8  # DF455
-        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 8  # DF456
+        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 10  # DF456
         eph.Fit, offset = self.getbitu(buf, offset, 1), offset + 1  # DF457
 
         # expected offcet value is 485+24=509
-- 
2.43.0


From f96aab92b057c451a89441d4a5f899801c3987a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:13 +0000
Subject: [PATCH 02/18] fix: derive the number of 1013 announcements from the
 payload length

Framing bytes were counted as payload, so messages with Nm == 0 were rejected.
---
 sub_decoders/RTCM_BASE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 571db59..f7153b9 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -238,7 +238,7 @@ class BaseStationDataDecoder(Bits):
         if bs.Nm != 0:
             Nm = bs.Nm
         else:
-            Nm = math.floor((8 * len(buf) - 70) / 29)
+            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29)
 
         for _ in range(Nm):
             ID, offset = self.getbitu(buf, offset, 12), offset + 12  # DF055
-- 
2.43.0


From 3dfa7923532d706939ae71f653248b7406453e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:17 +0000
Subject: [PATCH 03/18] fix: accept empty text fields in messages 1007, 1008,
 1029 and 1033

Splitting an empty string by a blank gave one empty item and int() failed,
so messages with an empty descriptor were rejected in scaled modes.
---
 sub_decoders/RTCM_BASE.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index f7153b9..4940285 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -195,27 +195,27 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1007/1008/1033 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.descr.split(" ")
+        symbols = ibs.descr.split()
         bs.descr = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSN, BaseADSNRC)):
             # bs.msgNum == 1007:
             return bs
 
-        symbols = bs.serialNumber.split(" ")
+        symbols = bs.serialNumber.split()
         bs.serialNumber = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSNRC)):
             # bs.msgNum == 1008:
             return bs
 
-        symbols = bs.rcvDescriptor.split(" ")
+        symbols = bs.rcvDescriptor.split()
         bs.rcvDescriptor = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvFWVersion.split(" ")
+        symbols = bs.rcvFWVersion.split()
         bs.rcvFWVersion = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvSerNum.split(" ")
+        symbols = bs.rcvSerNum.split()
         bs.rcvSerNum = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
@@ -291,7 +291,7 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1029 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.message.split(" ")
+        symbols = ibs.message.split()
         bs.message = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
-- 
2.43.0


From 6891f8f9be689016320f6e4798bb9cc750b2d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:09 +0000
Subject: [PATCH 04/18] fix: accept MSM messages without satellites

The length field does not include the 3-byte frame header, subtracting it
rejected the 22-byte message with an empty satellite mask.
---
 sub_decoders/RTCM_MSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 2992432..9b349eb 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -105,7 +105,7 @@ class BareObservablesMSM17Decoder(Bits):
         """Conv. binary header into integers"""
 
         # Check minimal length
-        bits_elapsed = (self.getbitu(buf, 14, 10) - 3) * 8
+        bits_elapsed = self.getbitu(buf, 14, 10) * 8
         if bits_elapsed < self.__MIN_HDR_LEN:
             raise ExceptionBareDataStructure(f"MSM hdr1 :{bits_elapsed=}")
 
-- 
2.43.0


From bdcc420184b4d0e09062742996c50d3038abff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:27 +0000
Subject: [PATCH 05/18] fix: keep MSM3 phases of the signals following an
 invalid range

One invalid fine range dropped phase, lock time and ambiguity of all the
remaining signals of the satellite.
---
 sub_decoders/RTCM_MSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 9b349eb..dad4850 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -606,7 +606,6 @@ class Bare2Scaled:
 
             rng = float(src.sat.rng_rough[sat_idx]) / 1024.0
             rng_ok = src.atr.is_msm1 or src.atr.is_msm3
-            ph_ok = src.atr.is_msm2 or src.atr.is_msm3
 
             # Pass through signals of satellite 'sat'
             i = 0
@@ -621,6 +620,8 @@ class Bare2Scaled:
                 if slotExist == 0:
                     continue
 
+                ph_ok = src.atr.is_msm2 or src.atr.is_msm3
+
                 # Make fine code range
                 if rng_ok:
                     if (src.sgn.rng_fine[sgn_idx] & 0x7FFF) != 0x4000:
-- 
2.43.0


From 3f88068f9bf082e4f2346abc6aa99b7b78d630ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:32 +0000
Subject: [PATCH 06/18] fix: take parsing errors into account in the final
 verdict

---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index d045c4c..c18f3ca 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -337,7 +337,7 @@ def main(local_args: str | None = None) -> None:
         if decode_rtcm_file(fpath, converter):
             err = converter.get_statistics()
             if (
-                err.printing_errors
+                err.parsing_errors
                 or err.decoding_errors
                 or err.printing_errors
             ):
-- 
2.43.0


From afcab70dbdd1656dd6dfa60e9a7c36b6c9581c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:37 +0000
Subject: [PATCH 07/18] fix: make L5_Flag and S_Flag fields of the NavIC
 ephemeris

Without annotation they were not dataclass fields and never got printed.
---
 gnss_types/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gnss_types/ephemeris.py b/gnss_types/ephemeris.py
index 9f69e79..9a6facc 100644
--- a/gnss_types/ephemeris.py
+++ b/gnss_types/ephemeris.py
@@ -134,8 +134,8 @@ class EphNAVIC(DataClassMethods, Keplerians, ClockBias, EphHdr):
     URA: int | float = 0
     TGD: int | float = 0
     IODEC: int = 0
-    L5_Flag = 0
-    S_Flag = 0
+    L5_Flag: int = 0
+    S_Flag: int = 0
 
 
 @dataclass
-- 
2.43.0


From a8094b2e61f1df8c8e5e8b7b08f2f51f695411e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:42 +0000
Subject: [PATCH 08/18] fix: scale GLONASS code-phase biases by 0.02 m
 (DF423..DF426)

---
 sub_decoders/RTCM_BASE.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 4940285..ebfeee5 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -365,10 +365,10 @@ class BaseStationDataDecoder(Bits):
         bs.validity["1P"] = bs.validity["1P"] == 1  # DF422
         bs.validity["2C"] = bs.validity["2C"] == 1  # DF422
         bs.validity["2P"] = bs.validity["2P"] == 1  # DF422
-        bs.correction["1C"] *= 0.2  # DF423 [m]
-        bs.correction["1P"] *= 0.2  # DF424 [m]
-        bs.correction["2C"] *= 0.2  # DF425 [m]
-        bs.correction["2P"] *= 0.2  # DF426 [m]
+        bs.correction["1C"] *= 0.02  # DF423 [m]
+        bs.correction["1P"] *= 0.02  # DF424 [m]
+        bs.correction["2C"] *= 0.02  # DF425 [m]
+        bs.correction["2P"] *= 0.02  # DF426 [m]
 
         return bs
 
-- 
2.43.0


From 4be91e1c9e517963b1c045735a8f0171e53d87d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:47 +0000
Subject: [PATCH 09/18] fix: compare negative floats with relative tolerance

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index b4b53ca..a7c2c99 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -70,7 +70,7 @@ class DataClassMethods:
             if math.isnan(A) or math.isnan(B):
                 return False
 
-            if math.fabs(B > f_tolerance):
+            if math.fabs(B) > f_tolerance:
                 diff = math.fabs((B - A) / B)
             else:
                 diff = math.fabs(B - A)
-- 
2.43.0


From c83c2c66e764a618108a98f60d1800f7ef33c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:52 +0000
Subject: [PATCH 10/18] fix: find source files in directories with glob
 characters in the name

---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index c18f3ca..ea40085 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -253,7 +253,7 @@ def make_list_of_source_files(
     else:
         fpattern = ".".join(["*", rtcm_ext])
         path = os.path.abspath(f_arguments[0])
-        pattern = os.path.join(path, fpattern)
+        pattern = os.path.join(glob.escape(path), fpattern)
         # Find files matching pattern
         file_list = glob.glob(pattern)
         if 0 == len(file_list):
-- 
2.43.0


From f687f26556e3dacaaf023449d148ab3aeb5b572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:57 +0000
Subject: [PATCH 11/18] fix: count MARGO rows which were not saved as printing
 errors

---
 printers/margo_printer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/printers/margo_printer.py b/printers/margo_printer.py
index 2b6ab63..9e55e95 100644
--- a/printers/margo_printer.py
+++ b/printers/margo_printer.py
@@ -445,6 +445,7 @@ class PrintMARGO:
         if not pbuf:
             return
 
+        failed = []
         for f, observables in pbuf.items():
             ptype = f[1]  # C, L, D, S,...
             # Make textual representation of values
@@ -452,7 +453,10 @@ class PrintMARGO:
             obs_string = self.core.format_obs_string(
                 observables, *column_format
             )
-            self.__append(f, obs_string)
+            if not self.__append(f, obs_string):
+                failed.append(f)
+
+        assert not failed, f"Observables were not saved to {failed}"
 
     # def __print_BareObservablesMSM4567(self, obs: BareObservablesMSM4567):
     #     pass
-- 
2.43.0


From 35aa84ac526390e3f214e226a349bdca3a1a21aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:45 +0000
Subject: [PATCH 12/18] fix: report output files which could not be finalized

An OSError raised while buffered products were flushed escaped from the
conversion and stopped the whole run without a verdict in the log.
---
 run_conversion.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/run_conversion.py b/run_conversion.py
index ea40085..a021f93 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -101,6 +101,7 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
     """Convert single file."""
 
     f = None
+    released = True
 
     try:
         f = open(fpath, "rb")
@@ -145,7 +146,12 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
         logger.error(f"{type(ex)}: {ex}")
         return False
     finally:
-        converter.release()
+        try:
+            converter.release()
+        except OSError as oe:
+            logger.error("Failed to finalize output files.")
+            logger.error(f"{type(oe)}: {oe}")
+            released = False
 
         if not f is None:
             logger.info(f"Closing file {fpath}.")
@@ -153,7 +159,7 @@ def decode_rtcm_file(fpath: str, converter: ConverterInterface) -> bool:
         else:
             logger.info(f"Source file {fpath} wasn't opened.")
 
-    return True
+    return released
 
 
 # ............................................................................
-- 
2.43.0


From a95e4c7b190723e51777a01d71acf4e1ec33f877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:49 +0000
Subject: [PATCH 13/18] fix: compare records when the reference lacks a field

A derived record compared with a base one raised AttributeError.
---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index a7c2c99..51333d2 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -109,7 +109,7 @@ class DataClassMethods:
         for key, value in self.items():
             try:
                 ref = getattr(refs, key)
-            except IndexError:
+            except AttributeError:
                 return False
 
             if is_dataclass(value):
-- 
2.43.0


From fbf0fbd6b4e4c2525c72d3c6b3b71ae86030182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:43 +0000
Subject: [PATCH 14/18] fix: expected length of MSM2 and MSM3 signal data (27
 and 42 bits per cell)

---
 sub_decoders/RTCM_MSM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index dad4850..dbb5e01 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -273,10 +273,10 @@ class BareObservablesMSM17Decoder(Bits):
             est_len = ((offset + 10 * Nsat + 15 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_1)
         elif self.bd.atr.is_msm2:
-            est_len = ((offset + 10 * Nsat + 28 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 27 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_2)
         elif self.bd.atr.is_msm3:
-            est_len = ((offset + 10 * Nsat + 43 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 42 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_3)
         else:
             bw = (b for b in self.__BIT_WIDTH_3)
-- 
2.43.0


From a9a6ea1ce57beef316324f586f72b39831856470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:33 +0000
Subject: [PATCH 15/18] fix: pass the tolerance on when nested records are
 compared

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index 51333d2..ea3ee74 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -114,7 +114,7 @@ class DataClassMethods:
 
             if is_dataclass(value):
                 if isinstance(value, DataClassMethods):
-                    eq = value.compare(ref)
+                    eq = value.compare(ref, f_tolerance)
                 else:
                     eq = False
             else:
-- 
2.43.0


From de7c49278fc6e00e11445bc8c4800886f7a5cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:33 +0000
Subject: [PATCH 16/18] fix: GLONASS L3 carrier frequency is 1202.025 MHz

---
 utilities/RTCM_utilities.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/utilities/RTCM_utilities.py b/utilities/RTCM_utilities.py
index 331574e..3b61976 100644
--- a/utilities/RTCM_utilities.py
+++ b/utilities/RTCM_utilities.py
@@ -366,10 +366,9 @@ class MSMT:
         "6A": 1248.06,
         "6B": 1248.06,
         "6X": 1248.06,
-        "25": 1202.0,
-        "3I": 1202.0,
-        "3Q": 1202.0,
-        "3X": 1202.0,
+        "3I": 1202.025,
+        "3Q": 1202.025,
+        "3X": 1202.025,
     }
 
     _RINEX_CF_TAB = {
-- 
2.43.0


From 262f86a9272412752baa4cab38700c3fdb99332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:04 +0000
Subject: [PATCH 17/18] fix: keep converting when the log file cannot be
 written or reopened

---
 run_conversion.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/run_conversion.py b/run_conversion.py
index a021f93..ddafcd6 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -75,8 +75,15 @@ def make_log_file_name(src_file_path: str):
 def init_logger(path: str):
     """Create log file and init logger."""
 
+    # Initial record
+    welcome_msg = "New log file was created."
+
     try:
-        log = open(path, "w", encoding="utf-8")
+        with open(path, "w", encoding="utf-8") as log:
+            log.write(welcome_msg + "\n")
+            log.write("-" * len(welcome_msg) + "\n")
+        # Init logger. Opens file 'path' in append mode
+        logger.init_2CH(path, "RTCMDEC")
     except OSError as er:
         print("Failed to create log file.")
         print(f"{type(er)}: {er}")
@@ -84,14 +91,7 @@ def init_logger(path: str):
         print("Undefined error in 'init_logger()'.")
         print(f"{type(er)}: {er}")
     else:
-        # Initial record
-        welcome_msg = "New log file was created."
-        log.write(welcome_msg + "\n")
-        log.write("-" * len(welcome_msg) + "\n")
-        log.close()
         print(welcome_msg)
-        # Init logger. Opens file 'path' in append mode
-        logger.init_2CH(path, "RTCMDEC")
 
 
 # ............................................................................
-- 
2.43.0


From 0f785ca8ac10e1d4c9d21b91209a7c606b6db69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:44 +0000
Subject: [PATCH 18/18] fix: contain component failures raised without a
 message

---
 decoder_top.py | 2 +-
 printer_top.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder_top.py b/decoder_top.py
index de18ed5..72bcee7 100644
--- a/decoder_top.py
+++ b/decoder_top.py
@@ -143,7 +143,7 @@ def catch_decoder_exceptions(func):
         try:
             rv = func(*args, **kwargs)
         except ExceptionDecoderDecode as de:
-            logger.warning(de.args[0])
+            logger.warning(str(de))
         except Exception as ex:  # pylint: disable = broad-exception-caught
             logger.error(f"{type(ex)}: {ex}")
 
diff --git a/printer_top.py b/printer_top.py
index 0043d01..e73dcc8 100644
--- a/printer_top.py
+++ b/printer_top.py
@@ -129,7 +129,7 @@ def catch_printer_asserts(func):
         try:
             func(*args, **kwargs)
         except AssertionError as ae:
-            logger.error(f"{ae.args[0]}")
+            logger.error(f"{ae}")
 
     return catch_assert_wrapper
 
-- 
2.43.0

