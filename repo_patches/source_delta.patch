From c0128e92214ad8193dab0794672764888c91ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:10 +0000
Subject: [PATCH 01/18] fix: wake up a full stream sink when its queue is
 cleared

---
 cocotbext/axi/axis.py   | 4 ++++
 cocotbext/axi/stream.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 6a4429e..24674f5 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -763,6 +763,10 @@ class AxiStreamSink(AxiStreamMonitor, AxiStreamPause):
         else:
             return False
 
+    def clear(self):
+        super().clear()
+        self.wake_event.set()
+
     def _handle_reset(self, state):
         super()._handle_reset(state)
 
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 0aa6625..675147b 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -385,6 +385,10 @@ class StreamSink(StreamMonitor, StreamPause):
         else:
             return False
 
+    def clear(self):
+        super().clear()
+        self.wake_event.set()
+
     def _handle_reset(self, state):
         super()._handle_reset(state)
 
-- 
2.43.0


From 1f0c6f5660a980d67c639af064ec560e0b21501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:10 +0000
Subject: [PATCH 02/18] fix: clearing a source with an item in flight does not
 report idle early

---
 cocotbext/axi/axis.py   | 3 ++-
 cocotbext/axi/stream.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 24674f5..44d0b1c 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -360,7 +360,8 @@ class AxiStreamBase(Reset):
             frame.sim_time_end = None
             frame.handle_tx_complete()
         self.dequeue_event.set()
-        self.idle_event.set()
+        if not self.active:
+            self.idle_event.set()
         self.active_event.clear()
         self.queue_occupancy_bytes = 0
         self.queue_occupancy_frames = 0
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 675147b..68c21d5 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -146,7 +146,8 @@ class StreamBase(Reset):
         while not self.queue.empty():
             self.queue.get_nowait()
         self.dequeue_event.set()
-        self.idle_event.set()
+        if not self.active:
+            self.idle_event.set()
         self.active_event.clear()
 
     def _handle_reset(self, state):
-- 
2.43.0


From 5c24eec362d5d19cac3f072b6266a942069b024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 03/18] fix: frames with empty sideband lists can be normalized

---
 cocotbext/axi/axis.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 44d0b1c..16475ce 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -95,32 +95,29 @@ class AxiStreamFrame:
         # normalize all sideband signals to the same size as tdata
         n = len(self.tdata)
 
-        if self.tkeep is not None:
+        if self.tkeep:
             self.tkeep = self.tkeep[:n] + [self.tkeep[-1]]*(n-len(self.tkeep))
         else:
             self.tkeep = [1]*n
 
-        if self.tid is not None:
-            if type(self.tid) in (int, bool):
-                self.tid = [self.tid]*n
-            else:
-                self.tid = self.tid[:n] + [self.tid[-1]]*(n-len(self.tid))
+        if type(self.tid) in (int, bool):
+            self.tid = [self.tid]*n
+        elif self.tid:
+            self.tid = self.tid[:n] + [self.tid[-1]]*(n-len(self.tid))
         else:
             self.tid = [0]*n
 
-        if self.tdest is not None:
-            if type(self.tdest) in (int, bool):
-                self.tdest = [self.tdest]*n
-            else:
-                self.tdest = self.tdest[:n] + [self.tdest[-1]]*(n-len(self.tdest))
+        if type(self.tdest) in (int, bool):
+            self.tdest = [self.tdest]*n
+        elif self.tdest:
+            self.tdest = self.tdest[:n] + [self.tdest[-1]]*(n-len(self.tdest))
         else:
             self.tdest = [0]*n
 
-        if self.tuser is not None:
-            if type(self.tuser) in (int, bool):
-                self.tuser = [self.tuser]*n
-            else:
-                self.tuser = self.tuser[:n] + [self.tuser[-1]]*(n-len(self.tuser))
+        if type(self.tuser) in (int, bool):
+            self.tuser = [self.tuser]*n
+        elif self.tuser:
+            self.tuser = self.tuser[:n] + [self.tuser[-1]]*(n-len(self.tuser))
         else:
             self.tuser = [0]*n
 
-- 
2.43.0


From b5d3e3c1b5c4453cce1b9738dc87b3771c32334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 04/18] fix: frames without per-byte sidebands can be compacted

---
 cocotbext/axi/axis.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 16475ce..84241a0 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -122,7 +122,7 @@ class AxiStreamFrame:
             self.tuser = [0]*n
 
     def compact(self):
-        if len(self.tkeep):
+        if self.tkeep:
             # remove tkeep=0 bytes
             for k in range(len(self.tdata)-1, -1, -1):
                 if not self.tkeep[k]:
@@ -130,11 +130,11 @@ class AxiStreamFrame:
                         del self.tdata[k]
                     if k < len(self.tkeep):
                         del self.tkeep[k]
-                    if k < len(self.tid):
+                    if type(self.tid) is list and k < len(self.tid):
                         del self.tid[k]
-                    if k < len(self.tdest):
+                    if type(self.tdest) is list and k < len(self.tdest):
                         del self.tdest[k]
-                    if k < len(self.tuser):
+                    if type(self.tuser) is list and k < len(self.tuser):
                         del self.tuser[k]
 
         # remove tkeep
@@ -142,19 +142,19 @@ class AxiStreamFrame:
 
         # clean up other sideband signals
         # either remove or consolidate if values are identical
-        if len(self.tid) == 0:
+        if not self.tid and type(self.tid) is list:
             self.tid = None
-        elif all(self.tid[0] == i for i in self.tid):
+        elif type(self.tid) is list and all(self.tid[0] == i for i in self.tid):
             self.tid = self.tid[0]
 
-        if len(self.tdest) == 0:
+        if not self.tdest and type(self.tdest) is list:
             self.tdest = None
-        elif all(self.tdest[0] == i for i in self.tdest):
+        elif type(self.tdest) is list and all(self.tdest[0] == i for i in self.tdest):
             self.tdest = self.tdest[0]
 
-        if len(self.tuser) == 0:
+        if not self.tuser and type(self.tuser) is list:
             self.tuser = None
-        elif all(self.tuser[0] == i for i in self.tuser):
+        elif type(self.tuser) is list and all(self.tuser[0] == i for i in self.tuser):
             self.tuser = self.tuser[0]
 
     def handle_tx_complete(self):
-- 
2.43.0


From ec50d5ba1309a8cbd1d0776a2a1c4634a8a95a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 05/18] fix: reject AXI IDs that do not fit the ID signals

---
 cocotbext/axi/axi_master.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index d041211..f1d3a89 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -299,7 +299,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -368,7 +368,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -734,7 +734,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -791,7 +791,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
-- 
2.43.0


From 5e0f0a88bcc0bd68feda58b88575973f53022e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 06/18] fix: accept wuser=None when wuser is not connected

---
 cocotbext/axi/axi_master.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index f1d3a89..3f20b2d 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -330,7 +330,7 @@ class AxiMasterWrite(Region, Reset):
         if not self.awuser_present and user != 0:
             raise ValueError("awuser sideband signal value specified, but signal is not connected")
 
-        if not self.wuser_present and wuser != 0:
+        if not self.wuser_present and wuser is not None and wuser != 0:
             raise ValueError("wuser sideband signal value specified, but signal is not connected")
 
         if wuser is None:
@@ -399,7 +399,7 @@ class AxiMasterWrite(Region, Reset):
         if not self.awuser_present and user != 0:
             raise ValueError("awuser sideband signal value specified, but signal is not connected")
 
-        if not self.wuser_present and wuser != 0:
+        if not self.wuser_present and wuser is not None and wuser != 0:
             raise ValueError("wuser sideband signal value specified, but signal is not connected")
 
         if wuser is None:
-- 
2.43.0


From bf07a88aaeebbca9c8cfd7e3e3fddf5639cb3e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:32 +0000
Subject: [PATCH 07/18] fix: fixed bursts use the byte lanes of their address
 and at most 16 beats, wrapping bursts are not split

---
 cocotbext/axi/axi_master.py | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 3f20b2d..a73574f 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -90,6 +90,7 @@ class AxiReadCmd(NamedTuple):
 class AxiReadRespCmd(NamedTuple):
     address: int
     length: int
+    burst: AxiBurstType
     size: int
     cycles: int
     prot: AxiProt
@@ -485,6 +486,11 @@ class AxiMasterWrite(Region, Reset):
 
             cycles = (len(cmd.data) + (cmd.address % num_bytes) + num_bytes-1) // num_bytes
 
+            if cmd.burst == AxiBurstType.FIXED:
+                # all beats of a fixed burst use the byte lanes of the first beat
+                beat_bytes = num_bytes - (cmd.address % num_bytes)
+                cycles = (len(cmd.data) + beat_bytes-1) // beat_bytes
+
             cur_addr = cmd.address
             offset = 0
             cycle_offset = aligned_addr-word_addr
@@ -515,6 +521,10 @@ class AxiMasterWrite(Region, Reset):
                 if k == cycles-1:
                     stop = end_offset
 
+                if cmd.burst == AxiBurstType.FIXED:
+                    start = start_offset
+                    stop = start + min(beat_bytes, len(cmd.data) - offset)
+
                 strb = (self.strb_mask << start) & self.strb_mask & (self.strb_mask >> (self.byte_lanes - stop))
 
                 val = 0
@@ -528,8 +538,12 @@ class AxiMasterWrite(Region, Reset):
 
                     # split on burst length
                     burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
+                    if cmd.burst == AxiBurstType.FIXED:
+                        # fixed bursts are limited to 16 beats
+                        burst_length = min(burst_length, 16)
                     # split on 4k address boundary
-                    burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
+                    elif cmd.burst == AxiBurstType.INCR:
+                        burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
 
                     burst_list.append(burst_length)
 
@@ -891,6 +905,11 @@ class AxiMasterRead(Region, Reset):
 
             cycles = (cmd.length + num_bytes-1 + (cmd.address % num_bytes)) // num_bytes
 
+            if cmd.burst == AxiBurstType.FIXED:
+                # all beats of a fixed burst use the byte lanes of the first beat
+                beat_bytes = num_bytes - (cmd.address % num_bytes)
+                cycles = (cmd.length + beat_bytes-1) // beat_bytes
+
             burst_list = []
 
             cur_addr = cmd.address
@@ -914,8 +933,12 @@ class AxiMasterRead(Region, Reset):
 
                     # split on burst length
                     burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
+                    if cmd.burst == AxiBurstType.FIXED:
+                        # fixed bursts are limited to 16 beats
+                        burst_length = min(burst_length, 16)
                     # split on 4k address boundary
-                    burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
+                    elif cmd.burst == AxiBurstType.INCR:
+                        burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
 
                     burst_list.append(burst_length)
 
@@ -945,7 +968,7 @@ class AxiMasterRead(Region, Reset):
                 else:
                     cur_addr += num_bytes
 
-            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
+            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.burst, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(arid, resp_cmd)
 
             self.current_read_command = None
@@ -1008,9 +1031,10 @@ class AxiMasterRead(Region, Reset):
                 for j in range(start, stop):
                     data.append((cycle_data >> j*8) & 0xff)
 
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                if cmd.burst != AxiBurstType.FIXED:
+                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
 
-                first = False
+                    first = False
 
             self.active_id[rid] -= 1
 
-- 
2.43.0


From c40fc9d84c0849939c59f3f770d89c20e86aa7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:19 +0000
Subject: [PATCH 08/18] fix: operations started with init_read/init_write count
 as outstanding and keep their place in the order of issue

---
 cocotbext/axi/apb.py         | 18 ++++++++++--------
 cocotbext/axi/axi_master.py  | 25 +++++++++++--------------
 cocotbext/axi/axil_master.py | 18 ++++++++++--------
 3 files changed, 31 insertions(+), 30 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 50360d6..f78b8c7 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -213,7 +213,11 @@ class ApbMaster(ApbPause, Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = ApbWriteCmd(address, data, prot, event)
+        self.command_queue.put_nowait(cmd)
 
         return event
 
@@ -236,7 +240,11 @@ class ApbMaster(ApbPause, Region, Reset):
         if not self.pprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = ApbReadCmd(address, length, prot, event)
+        self.command_queue.put_nowait(cmd)
 
         return event
 
@@ -270,9 +278,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     async def read(self, address, length, prot=AxiProt.NONSECURE):
         if address < 0 or address >= 2**self.address_width:
             raise ValueError("Address out of range")
@@ -296,9 +301,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index a73574f..6a26b15 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -343,8 +343,12 @@ class AxiMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiWriteCmd(address, data, awid, burst, size, lock,
+            cache, prot, qos, region, user, wuser, event)
+        self.write_command_queue.put_nowait(cmd)
 
         return event
 
@@ -423,11 +427,6 @@ class AxiMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, awid, burst, size,
-            lock, cache, prot, qos, region, user, wuser, event):
-        event.set(await self.write(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -779,8 +778,11 @@ class AxiMasterRead(Region, Reset):
         if not self.aruser_present and user != 0:
             raise ValueError("aruser sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiReadCmd(address, length, arid, burst, size, lock, cache, prot, qos, region, user, event)
+        self.read_command_queue.put_nowait(cmd)
 
         return event
 
@@ -847,11 +849,6 @@ class AxiMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, arid, burst, size,
-            lock, cache, prot, qos, region, user, event):
-        event.set(await self.read(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index d40a1ef..f036eb6 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -170,7 +170,11 @@ class AxiLiteMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiLiteWriteCmd(address, data, prot, event)
+        self.write_command_queue.put_nowait(cmd)
 
         return event
 
@@ -204,9 +208,6 @@ class AxiLiteMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -422,7 +423,11 @@ class AxiLiteMasterRead(Region, Reset):
         if not self.arprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiLiteReadCmd(address, length, prot, event)
+        self.read_command_queue.put_nowait(cmd)
 
         return event
 
@@ -456,9 +461,6 @@ class AxiLiteMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
-- 
2.43.0


From 4b8f371371e07a548790d230b2f374e0777b429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:19 +0000
Subject: [PATCH 09/18] fix: APB master forgets a completed command, so a later
 reset does not complete it again

---
 cocotbext/axi/apb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index f78b8c7..35f6dbd 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -456,7 +456,7 @@ class ApbMaster(ApbPause, Region, Reset):
                 read_resp = ApbReadResp(cmd.address, bytes(read_data), resp)
                 cmd.event.set(read_resp)
 
-            self.current_write_command = None
+            self.current_command = None
 
             self.in_flight_operations -= 1
 
-- 
2.43.0


From 5cde6502efa90fe0573fdce26867c7a63e20cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:26 +0000
Subject: [PATCH 10/18] fix: APB master does not read prdata in write
 transfers, where it may be undefined

---
 cocotbext/axi/apb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 35f6dbd..b61dc60 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -427,7 +427,7 @@ class ApbMaster(ApbPause, Region, Reset):
 
                 self.bus.penable.value = False
 
-                cycle_data = int(self.bus.prdata.value)
+                cycle_data = 0 if pwrite else int(self.bus.prdata.value)
                 if self.pslverr_present and int(self.bus.pslverr.value):
                     resp = AxiResp.SLVERR
 
-- 
2.43.0


From 9d09cd201aab7b481f7e4c6dffbea155bf8636a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:42 +0000
Subject: [PATCH 11/18] fix: wrapping bursts smaller than the bus word use the
 byte lanes of each beat's address

---
 cocotbext/axi/axi_master.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 6a26b15..50d2b41 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -490,6 +490,11 @@ class AxiMasterWrite(Region, Reset):
                 beat_bytes = num_bytes - (cmd.address % num_bytes)
                 cycles = (len(cmd.data) + beat_bytes-1) // beat_bytes
 
+            # wrapping bursts stay within the byte lanes of an aligned block of the size of the burst
+            lane_span = self.byte_lanes
+            if cmd.burst == AxiBurstType.WRAP:
+                lane_span = max(min(cycles*num_bytes, self.byte_lanes), 1)
+
             cur_addr = cmd.address
             offset = 0
             cycle_offset = aligned_addr-word_addr
@@ -520,6 +525,9 @@ class AxiMasterWrite(Region, Reset):
                 if k == cycles-1:
                     stop = end_offset
 
+                if lane_span != self.byte_lanes:
+                    stop = start + min(num_bytes - start % num_bytes, len(cmd.data) - offset)
+
                 if cmd.burst == AxiBurstType.FIXED:
                     start = start_offset
                     stop = start + min(beat_bytes, len(cmd.data) - offset)
@@ -591,7 +599,7 @@ class AxiMasterWrite(Region, Reset):
                     cur_addr = aligned_addr + num_bytes
                 else:
                     cur_addr += num_bytes
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                cycle_offset = cycle_offset - cycle_offset % lane_span + (cycle_offset + num_bytes) % lane_span
 
             resp_cmd = AxiWriteRespCmd(cmd.address, len(cmd.data), cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(awid, resp_cmd)
@@ -991,6 +999,12 @@ class AxiMasterRead(Region, Reset):
         start_offset = cmd.address % self.byte_lanes
 
         cycle_offset = aligned_addr - word_addr
+
+        # wrapping bursts stay within the byte lanes of an aligned block of the size of the burst
+        lane_span = self.byte_lanes
+        if cmd.burst == AxiBurstType.WRAP:
+            lane_span = max(min(cmd.cycles*num_bytes, self.byte_lanes), 1)
+
         data = bytearray()
 
         resp = AxiResp.OKAY
@@ -1029,7 +1043,7 @@ class AxiMasterRead(Region, Reset):
                     data.append((cycle_data >> j*8) & 0xff)
 
                 if cmd.burst != AxiBurstType.FIXED:
-                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                    cycle_offset = cycle_offset - cycle_offset % lane_span + (cycle_offset + num_bytes) % lane_span
 
                     first = False
 
-- 
2.43.0


From de5a6c6f519ee2acfcce5a365eb16a79895234d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:36 +0000
Subject: [PATCH 12/18] fix: APB master completes a command whose transfer has
 not started yet when reset

---
 cocotbext/axi/apb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index b61dc60..0c52eac 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -341,10 +341,11 @@ class ApbMaster(ApbPause, Region, Reset):
         while True:
             if self.command_queue.empty():
                 cmd = await self.command_queue.get()
+                self.current_command = cmd
                 await clock_edge_event
             else:
                 cmd = self.command_queue.get_nowait()
-            self.current_command = cmd
+                self.current_command = cmd
 
             length = 0
             pwrite = False
-- 
2.43.0


From d724ab94e17a70a5c3b1a58f5fdb6b0803f43e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:58 +0000
Subject: [PATCH 13/18] fix: memories of the default size can be created and
 dumped

---
 cocotbext/axi/memory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a4199a8..5c1c50d 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -32,7 +32,8 @@ class Memory:
             self.mem = mem
         else:
             self.mem = SparseMemory(size)
-        self.size = len(self.mem)
+        # len() is limited to sys.maxsize
+        self.size = self.mem.size if isinstance(self.mem, SparseMemory) else len(self.mem)
         super().__init__(**kwargs)
 
     def read(self, address, length):
@@ -92,10 +93,10 @@ class Memory:
         return self.read_qwords(address, 1, byteorder)[0]
 
     def hexdump(self, address, length, prefix=""):
-        hexdump(self.mem, address, length, prefix=prefix)
+        hexdump(self.read(address, length), prefix=prefix, offset=address)
 
     def hexdump_lines(self, address, length, prefix=""):
-        return hexdump_lines(self.mem, address, length, prefix=prefix)
+        return hexdump_lines(self.read(address, length), prefix=prefix, offset=address)
 
     def hexdump_str(self, address, length, prefix=""):
-        return hexdump_str(self.mem, address, length, prefix=prefix)
+        return hexdump_str(self.read(address, length), prefix=prefix, offset=address)
-- 
2.43.0


From 0b9eba02dc60aeb936ed00a625ac607b2ae0fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:58 +0000
Subject: [PATCH 14/18] fix: byte accessors work on every kind of memory and
 memory interface

---
 cocotbext/axi/address_space.py | 4 ++--
 cocotbext/axi/memory.py        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index 4851940..cd517d8 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -85,7 +85,7 @@ class MemoryInterface:
         return await self.read_words(address, count, byteorder, 8, **kwargs)
 
     async def read_byte(self, address, **kwargs):
-        return (await self.read(address, 1, **kwargs)).data[0]
+        return bytes(await self.read(address, 1, **kwargs))[0]
 
     async def read_word(self, address, byteorder='little', ws=2, **kwargs):
         return (await self.read_words(address, 1, byteorder, ws, **kwargs))[0]
@@ -117,7 +117,7 @@ class MemoryInterface:
         await self.write_words(address, data, byteorder, 8, **kwargs)
 
     async def write_byte(self, address, data, **kwargs):
-        await self.write(address, [data], **kwargs)
+        await self.write(address, bytes([data]), **kwargs)
 
     async def write_word(self, address, data, byteorder='little', ws=2, **kwargs):
         await self.write_words(address, [data], byteorder, ws, **kwargs)
diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index 5c1c50d..4d0bfda 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -56,7 +56,7 @@ class Memory:
         self.write_words(address, data, byteorder, 8)
 
     def write_byte(self, address, data):
-        self.write(address, [data])
+        self.write(address, bytes([data]))
 
     def write_word(self, address, data, byteorder='little', ws=2):
         self.write_words(address, [data], byteorder, ws)
-- 
2.43.0


From a389b8463ab6ae54987d334a8cf99d87f31d1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:58 +0000
Subject: [PATCH 15/18] fix: buddy allocator does not hand out blocks past the
 end of ranges that are not a power of 2

---
 cocotbext/axi/buddy_allocator.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/cocotbext/axi/buddy_allocator.py b/cocotbext/axi/buddy_allocator.py
index fba90bc..73f44c9 100644
--- a/cocotbext/axi/buddy_allocator.py
+++ b/cocotbext/axi/buddy_allocator.py
@@ -42,25 +42,23 @@ class BuddyAllocator:
         orig_bucket = bucket
 
         while bucket < len(self.free_lists):
-            if not self.free_lists[bucket]:
-                # find free block
+            # find free block; the last block can extend past the end if the total size is not a power of 2
+            block = next((b for b in self.free_lists[bucket] if b+size <= self.size), None)
+
+            if block is None:
                 bucket += 1
                 continue
 
+            self.free_lists[bucket].remove(block)
+
             while bucket > orig_bucket:
                 # split block
-                block = self.free_lists[bucket].pop(0)
                 bucket -= 1
-                self.free_lists[bucket].append(block)
                 self.free_lists[bucket].append(block+2**bucket)
 
-            if self.free_lists[bucket]:
-                # allocate
-                block = self.free_lists[bucket].pop(0)
-                self.allocations[block] = bucket
-                return block
-
-            break
+            # allocate
+            self.allocations[block] = bucket
+            return block
 
         raise Exception("out of memory")
 
-- 
2.43.0


From a57adf44a5947656e9839da61e0c3fb3dacb5e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:58 +0000
Subject: [PATCH 16/18] fix: peripheral regions access objects with plain read
 and write methods only once

---
 cocotbext/axi/address_space.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index cd517d8..a315239 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -22,6 +22,7 @@ THE SOFTWARE.
 
 """
 
+import inspect
 import mmap
 
 from .buddy_allocator import BuddyAllocator
@@ -252,16 +253,15 @@ class PeripheralRegion(Region):
         self.obj = obj
 
     async def _read(self, address, length, **kwargs):
-        try:
-            return await self.obj.read(address, length, **kwargs)
-        except TypeError:
-            return self.obj.read(address, length, **kwargs)
+        data = self.obj.read(address, length, **kwargs)
+        if inspect.isawaitable(data):
+            data = await data
+        return data
 
     async def _write(self, address, data, **kwargs):
-        try:
-            await self.obj.write(address, data, **kwargs)
-        except TypeError:
-            self.obj.write(address, data, **kwargs)
+        ret = self.obj.write(address, data, **kwargs)
+        if inspect.isawaitable(ret):
+            await ret
 
 
 class AddressSpace(Region):
-- 
2.43.0


From 64adb35d532b9821b1dd174c1b42f3512630b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:08 +0000
Subject: [PATCH 17/18] fix: slaves take the read data of bus masters used as
 their target, also with logging enabled

---
 cocotbext/axi/apb.py        | 2 +-
 cocotbext/axi/axi_slave.py  | 2 +-
 cocotbext/axi/axil_slave.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 0c52eac..50c727a 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -602,7 +602,7 @@ class ApbSlave(ApbPause, Reset):
                     pslverr = True
             else:
                 try:
-                    data = await self._read(addr, self.byte_lanes)
+                    data = bytes(await self._read(addr, self.byte_lanes))
                 except Exception:
                     self.log.warning("Read operation failed")
                     data = bytes(self.byte_lanes)
diff --git a/cocotbext/axi/axi_slave.py b/cocotbext/axi/axi_slave.py
index 5f10107..2509c90 100644
--- a/cocotbext/axi/axi_slave.py
+++ b/cocotbext/axi/axi_slave.py
@@ -314,7 +314,7 @@ class AxiSlaveRead(Reset):
                 r.rresp = AxiResp.OKAY
 
                 try:
-                    data = await self._read(cur_word_addr, self.byte_lanes)
+                    data = bytes(await self._read(cur_word_addr, self.byte_lanes))
                 except Exception:
                     self.log.warning("Read operation failed")
                     data = bytes(self.byte_lanes)
diff --git a/cocotbext/axi/axil_slave.py b/cocotbext/axi/axil_slave.py
index 3214d31..ae2b913 100644
--- a/cocotbext/axi/axil_slave.py
+++ b/cocotbext/axi/axil_slave.py
@@ -233,7 +233,7 @@ class AxiLiteSlaveRead(Reset):
             r.rresp = AxiResp.OKAY
 
             try:
-                data = await self._read(addr, self.byte_lanes)
+                data = bytes(await self._read(addr, self.byte_lanes))
             except Exception:
                 self.log.warning("Read operation failed")
                 data = bytes(self.byte_lanes)
-- 
2.43.0


From 70535c2af7a74fc2e79b7b390b3f548bb2c3b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:20 +0000
Subject: [PATCH 18/18] fix: handshake signal names given to define_stream that
 are not in the signal list

They were added letter by letter, which made the bus unusable, and the
list of the caller was changed.
---
 cocotbext/axi/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 68c21d5..b7b179d 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -452,8 +452,9 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
         for s in all_signals:
             if s.lower().endswith('valid'):
                 valid_signal = s
-    if valid_signal not in all_signals:
-        signals += valid_signal
+    else:
+        if valid_signal not in all_signals:
+            signals = signals + [valid_signal]
 
     if ready_signal is None:
         for s in all_signals:
@@ -461,7 +462,7 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
                 ready_signal = s
     else:
         if ready_signal not in all_signals:
-            signals += ready_signal
+            signals = signals + [ready_signal]
 
     if signal_widths is None:
         signal_widths = {}
-- 
2.43.0

