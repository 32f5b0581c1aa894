From dba070b6a16f12b209d7df84e1ae41d88abe3f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 01/10] fix: record key events when the first key-on is at
 sample 0

State used the truth of the first key-on's position, so a song that starts
at sample 0 lost its opening notes.
---
 src/vgm/ym2151/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index b4e51e8..1da15b7 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -65,10 +65,10 @@ class State:
                 else:
                     config_id = -1
 
-            if op and not self._first_beat:
+            if op and self._first_beat is None:
                 self._first_beat = self._samples
 
-            if self._first_beat:
+            if self._first_beat is not None:
                 note = Note(config_id, self._note_configs[ch], self._samples)
                 self._channel_key_presses[cmd.value & 0x7].append(note)
             if config_id >= 0:
-- 
2.43.0


From b349cc39a180d51a854849abffd17a2934c0642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 02/10] fix: the YM2151 second decay rate (D2R) has five bits

Register 0xC0-0xDF holds D2R in bits 4-0; bit 4 was dropped, so decay
rates 16-31 came out wrong and distinct instruments were merged.
---
 src/vgm/ym2151/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index 1da15b7..342d354 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -141,7 +141,7 @@ class State:
                 cmd.value >> 6
             ) & 0x03
             self._channel_configs[channel].operators[operator].second_decay_rate = (
-                cmd.value & 0x0F
+                cmd.value & 0x1F
             )
         elif cmd.reg & 0xE0 == 0xE0:
             self._channel_configs[channel].operators[operator].first_decay_level = (
-- 
2.43.0


From e3f31bf6967bf896ff4afdf86fe8d846e62956ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 03/10] fix: keep chip clocks per opened file

The clocks dictionary was a class attribute, so opening a second file
changed the clocks reported for the first.
---
 src/vgm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 1f9e365..65b7686 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -44,9 +44,9 @@ def _read_bcd(file: Union[BinaryIO, gzip.GzipFile]) -> int:
 
 class Vgm:
     data_start = 0x40
-    clocks: Dict[str, int] = {}
 
     def __init__(self, f: Union[BinaryIO, gzip.GzipFile]):
+        self.clocks: Dict[str, int] = {}
         self.file = f
         self.eof_offset = _read32(self.file)
         self.version = _read_bcd(self.file)
-- 
2.43.0


From d16e03e107d5e39805abc360afd8ef3371860af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 04/10] fix: count the wait in the 0x8n commands

0x8n writes a YM2612 sample and then waits n samples; the wait was lost,
so every later event was placed too early.
---
 src/vgm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 65b7686..f23b667 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -88,7 +88,6 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         or (cmd_id == 0x60)
         or (0x64 <= cmd_id <= 0x65)
         or (0x69 <= cmd_id < 0x70)
-        or (0x80 <= cmd_id < 0x90)
         or (0x96 <= cmd_id < 0xA0)
     ):
         return VgmCommand(cmd_id)
@@ -132,6 +131,9 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         return VgmCommand(cmd_id, f.read(ss))
     elif cmd_id < 0x80:
         return WaitCommand(cmd_id)
+    elif cmd_id < 0x90:
+        # YM2612 DAC write from the data bank, then wait n samples
+        return WaitCommand(cmd_id, cmd_id & 0x0F)
     elif cmd_id < 0x92:
         return VgmCommand(cmd_id, f.read(4))
     elif cmd_id == 0x92:
-- 
2.43.0


From a898db8a0de338338e886e3ae5b5bbea742760d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 05/10] fix: stop extracting at the end-of-sound-data command

Bytes after 0x66 (normally the GD3 tag) were decoded as commands, which
added bogus waits and register writes or failed with struct.error/EOFError.
---
 src/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.py b/src/main.py
index 4c01507..b83c874 100644
--- a/src/main.py
+++ b/src/main.py
@@ -16,6 +16,8 @@ def process_vgm_file(cmds):
             st.apply(cmd)
         elif isinstance(cmd, vgm.core.WaitCommand):
             st.beat(cmd.samples)
+        elif isinstance(cmd, vgm.core.EOSCommand):
+            break
 
     return st
 
-- 
2.43.0


From e1eb47acd067131c47f71102968beff9f8d76852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 06/10] fix: compute the tempo without floating-point
 truncation

Row lengths that divide evenly could come out one BPM low, for example
882 samples per row gave 749 instead of 750.
---
 src/extractors.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/extractors.py b/src/extractors.py
index 42c2d1e..4133786 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -20,10 +20,8 @@ def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
     notes_per_beat = 4
     line_count = 64
 
-    note_length = ticks_per_note / sample_freq
-    beat_length = note_length * notes_per_beat
-    bpm = 60 / beat_length
-    song.globals.beats_per_min = int(bpm)
+    bpm = 60 * sample_freq // (ticks_per_note * notes_per_beat)
+    song.globals.beats_per_min = bpm
 
     for ch in range(channel_count):
         for n in s.key_presses(ch):
-- 
2.43.0


From adebcbe596610945af36a86294d241a30a5dadc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 07/10] fix: pan right-only notes to the right

Renoise panning runs from 00 (left) over 40 to 80 (right); a note with
only the right output enabled was written as 00, left-only as F0.
---
 src/extractors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extractors.py b/src/extractors.py
index 4133786..171ad3b 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -35,9 +35,9 @@ def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
             pan = None
             if not n.right or not n.left:
                 if n.right:
-                    pan = "00"
+                    pan = "80"
                 else:
-                    pan = "F0"
+                    pan = "00"
 
             song.pattern_pool.add_note(pattern, ch, row, n.xrns_note(), instr, pan)
 
-- 
2.43.0


From f4e9f20c53aeef2a9b6e5a31fd066f231bdb80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 08/10] fix: write the last row of the CSV track table

A row was written only when a later row began, so the final row's events
never reached the file.
---
 src/extractors.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/extractors.py b/src/extractors.py
index 171ad3b..35d253a 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -110,6 +110,16 @@ def extract_tracks(s, track_filename, ticks_per_note):
                     except StopIteration:
                         del channel_notes[ch]
 
+        if any(note_row):
+            row = [
+                str(current_sample),
+                str(total_row % line_count),
+                str(total_row // line_count),
+                str(total_row),
+                "{:.2}".format((current_sample / ticks_per_note) % 1),
+            ] + note_row
+            fo.write(f'{",".join(row)}\n')
+
 
 def extract_instruments(instr_filename, s):
     print(f"Writing instruments to {instr_filename}...")
-- 
2.43.0


From be8726887c2fb0d07b8eacde91f98563583eb6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 09/10] fix: read binary input from standard input

With "-" the text stream was returned for mode rb, so a VGM file on
standard input was never recognised.
---
 src/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools.py b/src/tools.py
index 37c2f18..f35b639 100644
--- a/src/tools.py
+++ b/src/tools.py
@@ -1,4 +1,5 @@
 import contextlib
+import io
 import sys
 
 
@@ -9,7 +10,8 @@ def smart_open(filename: str, mode: str):
     elif mode.startswith("w"):
         fh = sys.stdout
     elif mode.startswith("r"):
-        fh = sys.stdin
+        # Binary input has to be seekable, which a pipe is not.
+        fh = io.BytesIO(sys.stdin.buffer.read()) if "b" in mode else sys.stdin
     else:
         raise Exception("Unknown mode")
 
-- 
2.43.0


From 3d9f0be5342ad719dcbcbddf6c52b40c0103cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:18 +0000
Subject: [PATCH 10/10] fix: data blocks for a second chip swallowed the rest
 of the file

---
 src/vgm/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index f23b667..5dc087e 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -119,8 +119,8 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         # Pad to handle uint on aligned boundaries?
         (tt, ss) = struct.unpack("<xBI", buffer)
         _ = tt
-        _ = ss
-        return VgmCommand(cmd_id, f.read(ss))
+        # Bit 31 selects the second chip and is not part of the size.
+        return VgmCommand(cmd_id, f.read(ss & 0x7FFFFFFF))
     elif cmd_id == 0x68:
         buffer = f.read(11)
         (cc, ooB, ooH, ddB, ddH, ssB, ssH) = struct.unpack("<xBBHBHBH", buffer)
-- 
2.43.0

