From 9a7649f86e762c079a1a1c497a4bb8071c62b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 01/11] fix: keep chip clocks per reader

Vgm.clocks was one class-level dict, so opening a second log changed clock()
and supports() of every reader already open.
---
 src/vgm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 1f9e365..84de712 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -44,10 +44,10 @@ def _read_bcd(file: Union[BinaryIO, gzip.GzipFile]) -> int:
 
 class Vgm:
     data_start = 0x40
-    clocks: Dict[str, int] = {}
 
     def __init__(self, f: Union[BinaryIO, gzip.GzipFile]):
         self.file = f
+        self.clocks: Dict[str, int] = {}
         self.eof_offset = _read32(self.file)
         self.version = _read_bcd(self.file)
         _read32(self.file)
-- 
2.43.0


From ac958ebea6ce22655ab80b45a837b638da89950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 02/11] fix: main() prints its own argument instead of the
 global args

Calling main() from other code raised NameError.
---
 src/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.py b/src/main.py
index 4c01507..ae29994 100644
--- a/src/main.py
+++ b/src/main.py
@@ -27,7 +27,7 @@ def main(
     ticks_per_note: int = None,
 ):
     with smart_open(vgm_filename, "rb") as f:
-        print("Opening file: {}".format(args.file))
+        print("Opening file: {}".format(vgm_filename))
         cmds = vgm.core.reader(f)
 
         s = process_vgm_file(cmds)
-- 
2.43.0


From b70ee043bdddfd09c83cdc3298c162902d04d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 03/11] fix: record key events at sample 0

A first key-on at time 0 was dropped from the notes (0 is falsy) although its
config was stored, as were key-offs up to the next key-on.
---
 src/vgm/ym2151/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index b4e51e8..1da15b7 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -65,10 +65,10 @@ class State:
                 else:
                     config_id = -1
 
-            if op and not self._first_beat:
+            if op and self._first_beat is None:
                 self._first_beat = self._samples
 
-            if self._first_beat:
+            if self._first_beat is not None:
                 note = Note(config_id, self._note_configs[ch], self._samples)
                 self._channel_key_presses[cmd.value & 0x7].append(note)
             if config_id >= 0:
-- 
2.43.0


From dbdfacc170cca6ad298f6fc7fad40a04a2c846c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 04/11] fix: second decay rate is five bits wide

Registers 0xC0-0xDF hold D2R in bits 4-0; bit 4 was lost, so different sounds
were merged into one instrument.
---
 src/vgm/ym2151/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index 1da15b7..342d354 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -141,7 +141,7 @@ class State:
                 cmd.value >> 6
             ) & 0x03
             self._channel_configs[channel].operators[operator].second_decay_rate = (
-                cmd.value & 0x0F
+                cmd.value & 0x1F
             )
         elif cmd.reg & 0xE0 == 0xE0:
             self._channel_configs[channel].operators[operator].first_decay_level = (
-- 
2.43.0


From a6e2d29052da99b7ea5cc23a1c033e60787ab150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 05/11] fix: count the wait of commands 0x80-0x8F

They write a YM2612 sample and then wait n samples; the wait was dropped, so
all later notes were placed too early.
---
 src/vgm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 84de712..c0090bd 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -88,7 +88,6 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         or (cmd_id == 0x60)
         or (0x64 <= cmd_id <= 0x65)
         or (0x69 <= cmd_id < 0x70)
-        or (0x80 <= cmd_id < 0x90)
         or (0x96 <= cmd_id < 0xA0)
     ):
         return VgmCommand(cmd_id)
@@ -132,6 +131,9 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         return VgmCommand(cmd_id, f.read(ss))
     elif cmd_id < 0x80:
         return WaitCommand(cmd_id)
+    elif cmd_id < 0x90:
+        # YM2612 sample output followed by a wait of 0 to 15 samples
+        return WaitCommand(cmd_id, cmd_id & 0x0F)
     elif cmd_id < 0x92:
         return VgmCommand(cmd_id, f.read(4))
     elif cmd_id == 0x92:
-- 
2.43.0


From b3215577aee67c8cc2579e0331d5a3ce541bc3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 06/11] fix: mask the second-chip bit of data block sizes

A data block for a second chip has bit 31 of its size set; the reader then
swallowed the rest of the log as block data.
---
 src/vgm/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index c0090bd..b2ca9cb 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -120,7 +120,8 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         (tt, ss) = struct.unpack("<xBI", buffer)
         _ = tt
         _ = ss
-        return VgmCommand(cmd_id, f.read(ss))
+        # Bit 31 of the size selects the second chip
+        return VgmCommand(cmd_id, f.read(ss & 0x7FFFFFFF))
     elif cmd_id == 0x68:
         buffer = f.read(11)
         (cc, ooB, ooH, ddB, ddH, ssB, ssH) = struct.unpack("<xBBHBHBH", buffer)
-- 
2.43.0


From 26dc750f65fedfa5c85725f6e0c0657a4e31ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 07/11] fix: stop at the end-of-data command

The GD3 tag after it was parsed as commands: a tag whose text ends in 'g' or
'h' raised struct.error, and its bytes could add delays and key events.
The rest of the file is still read, as before, for the gzip checksum.
---
 src/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.py b/src/main.py
index ae29994..3258349 100644
--- a/src/main.py
+++ b/src/main.py
@@ -16,6 +16,8 @@ def process_vgm_file(cmds):
             st.apply(cmd)
         elif isinstance(cmd, vgm.core.WaitCommand):
             st.beat(cmd.samples)
+        elif isinstance(cmd, vgm.core.EOSCommand):
+            break
 
     return st
 
@@ -32,6 +34,10 @@ def main(
 
         s = process_vgm_file(cmds)
 
+        # Read on to the end, so that damaged gzip data is noticed
+        while cmds.file.read(65536):
+            pass
+
         if not ticks_per_note:
             print("Calculating Ticks Per Note", end="")
             ticks_per_note = s.ticks_per_note(show_progress=True)
-- 
2.43.0


From b46b5ede0646cfbf90ad7799e2d1e97e6d36bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 08/11] fix: read binary data from standard input

'-' as input passed the text stream to the VGM reader, which rejected every log.
---
 src/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools.py b/src/tools.py
index 37c2f18..e3aa856 100644
--- a/src/tools.py
+++ b/src/tools.py
@@ -1,4 +1,5 @@
 import contextlib
+import io
 import sys
 
 
@@ -8,6 +9,9 @@ def smart_open(filename: str, mode: str):
         fh = open(filename, mode)
     elif mode.startswith("w"):
         fh = sys.stdout
+    elif mode == "rb":
+        # The VGM reader seeks, which a pipe cannot do
+        fh = io.BytesIO(sys.stdin.buffer.read())
     elif mode.startswith("r"):
         fh = sys.stdin
     else:
-- 
2.43.0


From d19b3c3c0e8120bb173bbcb53303a75d10ce52e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 09/11] fix: write songs whatever the date

With the clock before 1980 or after 2107 zipfile refuses the date, and the song
was lost.
---
 src/xrns/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xrns/writer.py b/src/xrns/writer.py
index a25b0d9..8699b12 100644
--- a/src/xrns/writer.py
+++ b/src/xrns/writer.py
@@ -1,4 +1,5 @@
 import gzip
+import time
 import zipfile
 
 from xsdata.formats.dataclass.serializers import XmlSerializer
@@ -20,4 +21,7 @@ def writer(xrnsfile, song):
     rendered = serializer.render(xml_song)
 
     with zipfile.ZipFile(xrnsfile, mode="w") as zf:
-        zf.writestr("Song.xml", rendered)
+        # zip can only store dates from 1980 to 2107
+        date = max((1980, 1, 1, 0, 0, 0), time.localtime()[:6])
+        date = min((2107, 12, 31, 23, 59, 59), date)
+        zf.writestr(zipfile.ZipInfo("Song.xml", date), rendered)
-- 
2.43.0


From eadf5cd2aa60a4d844368ead26da30f87b16ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 10/11] fix: write the last row of the track table

Rows were written when the next one began, so the last row of every song was
missing.
---
 src/extractors.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/extractors.py b/src/extractors.py
index 42c2d1e..5bfa362 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -72,6 +72,7 @@ def extract_tracks(s, track_filename, ticks_per_note):
         total_row = 0
         note_row = [""] * channel_count
 
+        current_sample = None
         while len(channel_notes):
             samples = [n.sample for n in channel_notes.values()]
             current_sample = min(samples)
@@ -112,6 +113,16 @@ def extract_tracks(s, track_filename, ticks_per_note):
                     except StopIteration:
                         del channel_notes[ch]
 
+        if current_sample is not None:
+            row = [
+                str(current_sample),
+                str(total_row % line_count),
+                str(total_row // line_count),
+                str(total_row),
+                "{:.2}".format((current_sample / ticks_per_note) % 1),
+            ] + note_row
+            fo.write(f'{",".join(row)}\n')
+
 
 def extract_instruments(instr_filename, s):
     print(f"Writing instruments to {instr_filename}...")
-- 
2.43.0


From 03ee8226cf4261d6d6cb2a8e9022900b60e88c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 11/11] fix: compute the tempo without rounding errors

With 1500 samples per row, for one, the tempo is 441 beats per minute; floating
point made it 440.9999 and int() 440.
---
 src/extractors.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/extractors.py b/src/extractors.py
index 5bfa362..63e7715 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -20,10 +20,8 @@ def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
     notes_per_beat = 4
     line_count = 64
 
-    note_length = ticks_per_note / sample_freq
-    beat_length = note_length * notes_per_beat
-    bpm = 60 / beat_length
-    song.globals.beats_per_min = int(bpm)
+    beat_length = ticks_per_note * notes_per_beat
+    song.globals.beats_per_min = 60 * sample_freq // beat_length
 
     for ch in range(channel_count):
         for n in s.key_presses(ch):
-- 
2.43.0

