From 656b458ae6abb79830bcf27c3b2551731d9609a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 01/11] fix: finite audio normalization for silent input

The percentiles of silent audio are 0, so the normalization factor was
infinite and every sample turned into NaN.
---
 transcoder/audio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index f537be2..02ecf2f 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -78,6 +78,9 @@ class Audio:
                     break
         a = self._decode(f, raw)
         norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
+        if norm == 0:
+            # (Nearly) silent audio, there is nothing to normalize.
+            return 1.
 
         return 16384. / norm
 
-- 
2.43.0


From 7c9a1275c937e41ca1552530533bdeb439893f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 02/11] fix: idle padding stores the encoder's own screen byte

Once out of work the encoder padded with target byte (0, 0), which may differ
from the byte on screen without a visible difference; the store then made the
screen differ from the encoder's memory map.
---
 transcoder/video.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index fe90147..d80314e 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -245,8 +245,9 @@ class Video:
         #             target_pixelmap.packed[diff_p, diff_o]))
         #     assert False
 
-        # If we run out of things to do, pad forever
-        content = target.page_offset[0, 0]
+        # If we run out of things to do, pad forever.  This must not change the
+        # screen, which may differ from the target without a visible difference.
+        content = source.page_offset[0, 0]
         while True:
             yield 32, content, [0, 0, 0, 0]
 
-- 
2.43.0


From 39cda66e0e420510a810a4f0f8ba3e1826bed42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 03/11] fix: use up to three extra store positions per command

The search for positions that profit from the same content byte stopped at
three offsets in total instead of four.
---
 transcoder/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transcoder/video.py b/transcoder/video.py
index d80314e..a9f2b81 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -178,7 +178,7 @@ class Video:
                         priorities, (-p, random.getrandbits(8), page, o))
 
                 offsets.append(o)
-                if len(offsets) == 3:
+                if len(offsets) == 4:
                     break
 
             # Pad to 4 if we didn't find enough
-- 
2.43.0


From 8668d9d7dd8a80de11dcaaac58d3dc603ccfa089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 04/11] fix: keep error weights current after an extra store

diff_weights kept the error a position had before an extra store, so a later
command predicted the change from an outdated error and could repeat stores
that do not improve the picture.
---
 transcoder/video.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transcoder/video.py b/transcoder/video.py
index a9f2b81..ab1bc1d 100644
--- a/transcoder/video.py
+++ b/transcoder/video.py
@@ -168,6 +168,7 @@ class Video:
 
                 # Update priority for the offset we're emitting
                 update_priority[page, o] = p
+                diff_weights[page, o] = p
 
                 self.pixelmap.apply(page, o, is_aux, content)
                 if p:
-- 
2.43.0


From b155a29ce6091191447f4dcaa0f674a7aa5a6c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:58 +0000
Subject: [PATCH 05/11] fix: soft switch status reads set bit 7 when the switch
 is on

---
 simulator/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.py b/simulator/machine.py
index bc6d076..4f4220f 100644
--- a/simulator/machine.py
+++ b/simulator/machine.py
@@ -73,7 +73,7 @@ class SoftSwitch:
     def get(self) -> int:
         Log(self.name, "Reading soft switch (%s)" % (
             "on" if self.state else "off"))
-        return 0x80 & self.state
+        return 0x80 if self.state else 0x00
 
     @staticmethod
     def unimplemented(_):
-- 
2.43.0


From a4b0b98ea0cf8f2df208e304117213b91461355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:58 +0000
Subject: [PATCH 06/11] fix: trap of a write of 0 is reported as a write

---
 simulator/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.py b/simulator/machine.py
index 4f4220f..8d4af52 100644
--- a/simulator/machine.py
+++ b/simulator/machine.py
@@ -129,7 +129,7 @@ class Machine:
                 print("**** IO EVENT with unexpected mode: %s" % access_mode)
                 raise TrapException(address, access_mode)
         except KeyError:
-            if value:
+            if value is not None:
                 raise TrapException(
                     address, 'Wrote %02X ("%s")' % (value, chr(value)))
             else:
-- 
2.43.0


From 1f0d00b4e610460d94df33d3c798341c8a9291fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:58 +0000
Subject: [PATCH 07/11] fix: writing the high address register keeps the whole
 low byte of the pointer

---
 simulator/apple2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulator/apple2.py b/simulator/apple2.py
index 7ab06cd..20c7bd3 100644
--- a/simulator/apple2.py
+++ b/simulator/apple2.py
@@ -58,7 +58,9 @@ class AppleII(machine.Machine):
 
         def _uther_wadrh(mode, value):
             old = self.uthernet.ptr
-            self.uthernet.ptr = (value << 8) | (self.uthernet.ptr & 0x7f)
+            # 32K address space
+            self.uthernet.ptr = (
+                    (value << 8) | (self.uthernet.ptr & 0xff)) & 0x7fff
             machine.Log("WADRH", "%04x -> %04x" % (old, self.uthernet.ptr))
 
         def _uther_wadrl(mode, value):
-- 
2.43.0


From 864cb3b8b5d5aa7c16bf2058aa857c3ff8c99516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:28 +0000
Subject: [PATCH 08/11] fix: default output name for input names without an
 extension

Without a dot in the file name the result was "a2m" (or the path cut at a
dot of a directory name); replace the extension with os.path.splitext.
---
 transcoder/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transcoder/main.py b/transcoder/main.py
index 398532d..703d8b0 100644
--- a/transcoder/main.py
+++ b/transcoder/main.py
@@ -1,6 +1,7 @@
 """Transcodes an input video file to ][-Vision format."""
 
 import argparse
+import os
 
 import movie
 import palette
@@ -62,7 +63,7 @@ def main(args):
         out_filename = args.output
     else:
         # Replace suffix with .a2m
-        out_filename = ".".join(filename.split(".")[:-1] + ["a2m"])
+        out_filename = os.path.splitext(filename)[0] + ".a2m"
 
     with open(out_filename, "wb") as out:
         for bytes_out, b in enumerate(m.emit_stream(m.encode())):
-- 
2.43.0


From 8c069ee12fdb517ca5facbd775b089332809b1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:29 +0000
Subject: [PATCH 09/11] fix: --audio_normalization 0 is honoured instead of
 auto-detected

---
 transcoder/audio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transcoder/audio.py b/transcoder/audio.py
index 02ecf2f..73190f0 100644
--- a/transcoder/audio.py
+++ b/transcoder/audio.py
@@ -42,7 +42,8 @@ class Audio:
         self.sample_rate = float(bitrate)  # type: float
 
         self.normalization = (
-                normalization or self._normalization())  # type: float
+                normalization if normalization is not None
+                else self._normalization())  # type: float
 
     def _decode(self, f, buf) -> np.array:
         """
-- 
2.43.0


From e8993e14fe9395223c92f298867ca72429b7f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 10/11] fix: frame cache directory of inputs without an
 extension

Without a dot in the file name the cache was the root directory, or one cut
at a dot of a directory name, and shared by all such inputs.
---
 transcoder/frame_grabber.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 2940f1d..3b07408 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -45,8 +45,12 @@ class FileFrameGrabber(FrameGrabber):
 
     @staticmethod
     def _output_dir(filename, video_mode, palette) -> str:
+        root, ext = os.path.splitext(filename)
+        if not ext:
+            # The input file cannot itself be a directory
+            root += ".frames"
         return "%s/%s/%s" % (
-            ".".join(filename.split(".")[:-1]),
+            root,
             video_mode.name,
             palette.name)
 
-- 
2.43.0


From e20e0c0ea8cea6b2676ce95f541da7421134b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 11/11] fix: inputs that differ only in their extension do not
 share cached frames

---
 transcoder/frame_grabber.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transcoder/frame_grabber.py b/transcoder/frame_grabber.py
index 3b07408..c140634 100644
--- a/transcoder/frame_grabber.py
+++ b/transcoder/frame_grabber.py
@@ -63,8 +63,10 @@ class FileFrameGrabber(FrameGrabber):
         We do the encoding in a background thread to parallelize.
         """
 
-        frame_dir = self._output_dir(
-            self.filename, self.video_mode, self.palette)
+        # Inputs that differ only in their extension must not share frames
+        frame_dir = "%s/%s" % (
+            self._output_dir(self.filename, self.video_mode, self.palette),
+            os.path.basename(self.filename))
         os.makedirs(frame_dir, exist_ok=True)
 
         q = queue.Queue(maxsize=10)
-- 
2.43.0

