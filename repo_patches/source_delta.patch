From 189575f90724a533f21d7836ae8181056255dafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 01/21] fix: reject AXI master IDs that do not fit the ID
 signal

---
 cocotbext/axi/axi_master.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index d041211..f1d3a89 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -299,7 +299,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -368,7 +368,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -734,7 +734,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -791,7 +791,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
-- 
2.43.0


From 5b2ad042b2a787eafd2090d90fba4b1830f4886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 02/21] fix: accept wuser=None when wuser is not connected

---
 cocotbext/axi/axi_master.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index f1d3a89..3f20b2d 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -330,7 +330,7 @@ class AxiMasterWrite(Region, Reset):
         if not self.awuser_present and user != 0:
             raise ValueError("awuser sideband signal value specified, but signal is not connected")
 
-        if not self.wuser_present and wuser != 0:
+        if not self.wuser_present and wuser is not None and wuser != 0:
             raise ValueError("wuser sideband signal value specified, but signal is not connected")
 
         if wuser is None:
@@ -399,7 +399,7 @@ class AxiMasterWrite(Region, Reset):
         if not self.awuser_present and user != 0:
             raise ValueError("awuser sideband signal value specified, but signal is not connected")
 
-        if not self.wuser_present and wuser != 0:
+        if not self.wuser_present and wuser is not None and wuser != 0:
             raise ValueError("wuser sideband signal value specified, but signal is not connected")
 
         if wuser is None:
-- 
2.43.0


From 2690346df94ebbe81ece8b4d3b49efcb05765265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 03/21] fix: issue init_read/init_write operations immediately

The operation was only queued and counted once a background task had run, so
idle() and wait() ignored it and a later write() could overtake it.
---
 cocotbext/axi/apb.py         | 16 ++++++++--------
 cocotbext/axi/axi_master.py  | 26 ++++++++++++--------------
 cocotbext/axi/axil_master.py | 16 ++++++++--------
 3 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 50360d6..4cb3dad 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -213,7 +213,10 @@ class ApbMaster(ApbPause, Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbWriteCmd(address, data, prot, event))
 
         return event
 
@@ -236,7 +239,10 @@ class ApbMaster(ApbPause, Region, Reset):
         if not self.pprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbReadCmd(address, length, prot, event))
 
         return event
 
@@ -270,9 +276,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     async def read(self, address, length, prot=AxiProt.NONSECURE):
         if address < 0 or address >= 2**self.address_width:
             raise ValueError("Address out of range")
@@ -296,9 +299,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 3f20b2d..eeece51 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -342,8 +342,12 @@ class AxiMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiWriteCmd(address, data, awid, burst, size, lock,
+            cache, prot, qos, region, user, wuser, event)
+        self.write_command_queue.put_nowait(cmd)
 
         return event
 
@@ -422,11 +426,6 @@ class AxiMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, awid, burst, size,
-            lock, cache, prot, qos, region, user, wuser, event):
-        event.set(await self.write(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -765,8 +764,12 @@ class AxiMasterRead(Region, Reset):
         if not self.aruser_present and user != 0:
             raise ValueError("aruser sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiReadCmd(address, length, arid, burst, size, lock,
+            cache, prot, qos, region, user, event)
+        self.read_command_queue.put_nowait(cmd)
 
         return event
 
@@ -833,11 +836,6 @@ class AxiMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, arid, burst, size,
-            lock, cache, prot, qos, region, user, event):
-        event.set(await self.read(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index d40a1ef..0ab3948 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -170,7 +170,10 @@ class AxiLiteMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.write_command_queue.put_nowait(AxiLiteWriteCmd(address, data, prot, event))
 
         return event
 
@@ -204,9 +207,6 @@ class AxiLiteMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -422,7 +422,10 @@ class AxiLiteMasterRead(Region, Reset):
         if not self.arprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.read_command_queue.put_nowait(AxiLiteReadCmd(address, length, prot, event))
 
         return event
 
@@ -456,9 +459,6 @@ class AxiLiteMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
-- 
2.43.0


From 020ec224327f5b15ebe24b072b809bee81d67f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 04/21] fix: track the current command of the APB master

The completed command was never forgotten, so a reset completed it a second
time with None; a command waiting for its first clock edge was not tracked, so
a reset lost it and its caller waited forever.
---
 cocotbext/axi/apb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 4cb3dad..f246258 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -339,10 +339,11 @@ class ApbMaster(ApbPause, Region, Reset):
         while True:
             if self.command_queue.empty():
                 cmd = await self.command_queue.get()
+                self.current_command = cmd
                 await clock_edge_event
             else:
                 cmd = self.command_queue.get_nowait()
-            self.current_command = cmd
+                self.current_command = cmd
 
             length = 0
             pwrite = False
@@ -454,7 +455,7 @@ class ApbMaster(ApbPause, Region, Reset):
                 read_resp = ApbReadResp(cmd.address, bytes(read_data), resp)
                 cmd.event.set(read_resp)
 
-            self.current_write_command = None
+            self.current_command = None
 
             self.in_flight_operations -= 1
 
-- 
2.43.0


From fe317f5870d20188f3a45df6efdb96a2f285b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 05/21] fix: wake a stalled sink when its queue is cleared

---
 cocotbext/axi/axis.py   | 1 +
 cocotbext/axi/stream.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 6a4429e..060df9b 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -360,6 +360,7 @@ class AxiStreamBase(Reset):
             frame.sim_time_end = None
             frame.handle_tx_complete()
         self.dequeue_event.set()
+        self.wake_event.set()
         self.idle_event.set()
         self.active_event.clear()
         self.queue_occupancy_bytes = 0
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 0aa6625..2a5fec5 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -146,6 +146,7 @@ class StreamBase(Reset):
         while not self.queue.empty():
             self.queue.get_nowait()
         self.dequeue_event.set()
+        self.wake_event.set()
         self.idle_event.set()
         self.active_event.clear()
 
-- 
2.43.0


From 356eeaba6c9bf84b98a8be81fc7ba387ec937f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 06/21] fix: clear() during a transfer does not make a source
 idle

---
 cocotbext/axi/axis.py   | 3 ++-
 cocotbext/axi/stream.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 060df9b..8a86976 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -361,7 +361,8 @@ class AxiStreamBase(Reset):
             frame.handle_tx_complete()
         self.dequeue_event.set()
         self.wake_event.set()
-        self.idle_event.set()
+        if not self.active:
+            self.idle_event.set()
         self.active_event.clear()
         self.queue_occupancy_bytes = 0
         self.queue_occupancy_frames = 0
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 2a5fec5..49ddb51 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -147,7 +147,8 @@ class StreamBase(Reset):
             self.queue.get_nowait()
         self.dequeue_event.set()
         self.wake_event.set()
-        self.idle_event.set()
+        if not self.active:
+            self.idle_event.set()
         self.active_event.clear()
 
     def _handle_reset(self, state):
-- 
2.43.0


From 9731364abb18d90368b03161c90f5d90489b0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 07/21] fix: complete AXI stream frames that carry no data

---
 cocotbext/axi/axis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 8a86976..32157f3 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -546,6 +546,13 @@ class AxiStreamSource(AxiStreamBase, AxiStreamPause):
                     self.active = True
                     frame_offset = 0
 
+                    if not frame:
+                        # no data to send
+                        frame.sim_time_end = get_sim_time()
+                        frame.handle_tx_complete()
+                        frame = None
+                        self.current_frame = None
+
                 if frame and not self.pause:
                     tdata_val = 0
                     tlast_val = 0
-- 
2.43.0


From e8c78b40b12b3116dc7550a2667a3d85268b91c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 08/21] fix: AxiStreamFrame normalize() and compact() with
 missing sidebands

---
 cocotbext/axi/axis.py | 47 +++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 32157f3..24a9d9c 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -95,12 +95,12 @@ class AxiStreamFrame:
         # normalize all sideband signals to the same size as tdata
         n = len(self.tdata)
 
-        if self.tkeep is not None:
+        if self.tkeep:
             self.tkeep = self.tkeep[:n] + [self.tkeep[-1]]*(n-len(self.tkeep))
         else:
             self.tkeep = [1]*n
 
-        if self.tid is not None:
+        if self.tid is not None and self.tid != []:
             if type(self.tid) in (int, bool):
                 self.tid = [self.tid]*n
             else:
@@ -108,7 +108,7 @@ class AxiStreamFrame:
         else:
             self.tid = [0]*n
 
-        if self.tdest is not None:
+        if self.tdest is not None and self.tdest != []:
             if type(self.tdest) in (int, bool):
                 self.tdest = [self.tdest]*n
             else:
@@ -116,7 +116,7 @@ class AxiStreamFrame:
         else:
             self.tdest = [0]*n
 
-        if self.tuser is not None:
+        if self.tuser is not None and self.tuser != []:
             if type(self.tuser) in (int, bool):
                 self.tuser = [self.tuser]*n
             else:
@@ -125,7 +125,7 @@ class AxiStreamFrame:
             self.tuser = [0]*n
 
     def compact(self):
-        if len(self.tkeep):
+        if self.tkeep:
             # remove tkeep=0 bytes
             for k in range(len(self.tdata)-1, -1, -1):
                 if not self.tkeep[k]:
@@ -133,11 +133,11 @@ class AxiStreamFrame:
                         del self.tdata[k]
                     if k < len(self.tkeep):
                         del self.tkeep[k]
-                    if k < len(self.tid):
+                    if type(self.tid) is list and k < len(self.tid):
                         del self.tid[k]
-                    if k < len(self.tdest):
+                    if type(self.tdest) is list and k < len(self.tdest):
                         del self.tdest[k]
-                    if k < len(self.tuser):
+                    if type(self.tuser) is list and k < len(self.tuser):
                         del self.tuser[k]
 
         # remove tkeep
@@ -145,20 +145,23 @@ class AxiStreamFrame:
 
         # clean up other sideband signals
         # either remove or consolidate if values are identical
-        if len(self.tid) == 0:
-            self.tid = None
-        elif all(self.tid[0] == i for i in self.tid):
-            self.tid = self.tid[0]
-
-        if len(self.tdest) == 0:
-            self.tdest = None
-        elif all(self.tdest[0] == i for i in self.tdest):
-            self.tdest = self.tdest[0]
-
-        if len(self.tuser) == 0:
-            self.tuser = None
-        elif all(self.tuser[0] == i for i in self.tuser):
-            self.tuser = self.tuser[0]
+        if type(self.tid) is list:
+            if len(self.tid) == 0:
+                self.tid = None
+            elif all(self.tid[0] == i for i in self.tid):
+                self.tid = self.tid[0]
+
+        if type(self.tdest) is list:
+            if len(self.tdest) == 0:
+                self.tdest = None
+            elif all(self.tdest[0] == i for i in self.tdest):
+                self.tdest = self.tdest[0]
+
+        if type(self.tuser) is list:
+            if len(self.tuser) == 0:
+                self.tuser = None
+            elif all(self.tuser[0] == i for i in self.tuser):
+                self.tuser = self.tuser[0]
 
     def handle_tx_complete(self):
         if isinstance(self.tx_complete, Event):
-- 
2.43.0


From 644e33dc492769afd9a099e350681c4de80244ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 09/21] fix: read_byte() works on every memory interface

---
 cocotbext/axi/address_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index 4851940..ea99c53 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -85,7 +85,7 @@ class MemoryInterface:
         return await self.read_words(address, count, byteorder, 8, **kwargs)
 
     async def read_byte(self, address, **kwargs):
-        return (await self.read(address, 1, **kwargs)).data[0]
+        return bytes(await self.read(address, 1, **kwargs))[0]
 
     async def read_word(self, address, byteorder='little', ws=2, **kwargs):
         return (await self.read_words(address, 1, byteorder, ws, **kwargs))[0]
-- 
2.43.0


From 606de563990ebd826d39f78c4b59cd3d5a2d624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 10/21] fix: write_byte() passes bytes

---
 cocotbext/axi/address_space.py | 2 +-
 cocotbext/axi/memory.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index ea99c53..cd517d8 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -117,7 +117,7 @@ class MemoryInterface:
         await self.write_words(address, data, byteorder, 8, **kwargs)
 
     async def write_byte(self, address, data, **kwargs):
-        await self.write(address, [data], **kwargs)
+        await self.write(address, bytes([data]), **kwargs)
 
     async def write_word(self, address, data, byteorder='little', ws=2, **kwargs):
         await self.write_words(address, [data], byteorder, ws, **kwargs)
diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a4199a8..a7fe1b9 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -55,7 +55,7 @@ class Memory:
         self.write_words(address, data, byteorder, 8)
 
     def write_byte(self, address, data):
-        self.write(address, [data])
+        self.write(address, bytes([data]))
 
     def write_word(self, address, data, byteorder='little', ws=2):
         self.write_words(address, [data], byteorder, ws)
-- 
2.43.0


From a8824d616730209a72e8ea8a1b766e6e02e9667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 11/21] fix: memories of 2**63 bytes and more, including the
 default size

---
 cocotbext/axi/memory.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a7fe1b9..03d335e 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -32,7 +32,11 @@ class Memory:
             self.mem = mem
         else:
             self.mem = SparseMemory(size)
-        self.size = len(self.mem)
+        if isinstance(self.mem, SparseMemory):
+            # len() is limited to sys.maxsize
+            self.size = self.mem.size
+        else:
+            self.size = len(self.mem)
         super().__init__(**kwargs)
 
     def read(self, address, length):
@@ -92,10 +96,10 @@ class Memory:
         return self.read_qwords(address, 1, byteorder)[0]
 
     def hexdump(self, address, length, prefix=""):
-        hexdump(self.mem, address, length, prefix=prefix)
+        hexdump(self.mem[address:address+length], prefix=prefix, offset=address)
 
     def hexdump_lines(self, address, length, prefix=""):
-        return hexdump_lines(self.mem, address, length, prefix=prefix)
+        return hexdump_lines(self.mem[address:address+length], prefix=prefix, offset=address)
 
     def hexdump_str(self, address, length, prefix=""):
-        return hexdump_str(self.mem, address, length, prefix=prefix)
+        return hexdump_str(self.mem[address:address+length], prefix=prefix, offset=address)
-- 
2.43.0


From bc5e746be0327b8d400804c5cca1810299737f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 12/21] fix: BuddyAllocator stays inside a size that is not a
 power of two

---
 cocotbext/axi/buddy_allocator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/buddy_allocator.py b/cocotbext/axi/buddy_allocator.py
index fba90bc..71bc5a0 100644
--- a/cocotbext/axi/buddy_allocator.py
+++ b/cocotbext/axi/buddy_allocator.py
@@ -28,8 +28,15 @@ class BuddyAllocator:
         self.size = size
         self.min_alloc = min_alloc
 
-        self.free_lists = [[] for x in range((self.size-1).bit_length())]
-        self.free_lists.append([0])
+        self.free_lists = [[] for x in range((self.size-1).bit_length()+1)]
+
+        # cover the range exactly with aligned power of two blocks
+        block = 0
+        for bucket in reversed(range(len(self.free_lists))):
+            if self.size & 2**bucket:
+                self.free_lists[bucket].append(block)
+                block += 2**bucket
+
         self.allocations = {}
 
     def alloc(self, size):
-- 
2.43.0


From e278f08e02a4b9029d6c110b3ca18c0c4d2f05e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 13/21] fix: PeripheralRegion accesses its object exactly once

---
 cocotbext/axi/address_space.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index cd517d8..062ea16 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -23,6 +23,7 @@ THE SOFTWARE.
 """
 
 import mmap
+from inspect import isawaitable
 
 from .buddy_allocator import BuddyAllocator
 from .sparse_memory import SparseMemory
@@ -252,16 +253,15 @@ class PeripheralRegion(Region):
         self.obj = obj
 
     async def _read(self, address, length, **kwargs):
-        try:
-            return await self.obj.read(address, length, **kwargs)
-        except TypeError:
-            return self.obj.read(address, length, **kwargs)
+        data = self.obj.read(address, length, **kwargs)
+        if isawaitable(data):
+            data = await data
+        return data
 
     async def _write(self, address, data, **kwargs):
-        try:
-            await self.obj.write(address, data, **kwargs)
-        except TypeError:
-            self.obj.write(address, data, **kwargs)
+        ret = self.obj.write(address, data, **kwargs)
+        if isawaitable(ret):
+            await ret
 
 
 class AddressSpace(Region):
-- 
2.43.0


From 84a922040ffef3d8597f584f96e1e7e743670473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 14/21] fix: byte lanes and splitting of FIXED and WRAP bursts
 in AXI master

FIXED transfers moved to the next byte lanes on every beat and were not
limited to 16 beats; WRAP bursts were split at 4k boundaries they do not cross
and used the wrong byte lanes after wrapping.
---
 cocotbext/axi/axi_master.py | 72 ++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 33 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index eeece51..67aec23 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -90,6 +90,7 @@ class AxiReadCmd(NamedTuple):
 class AxiReadRespCmd(NamedTuple):
     address: int
     length: int
+    burst: AxiBurstType
     size: int
     cycles: int
     prot: AxiProt
@@ -477,16 +478,16 @@ class AxiMasterWrite(Region, Reset):
             num_bytes = 2**cmd.size
 
             aligned_addr = (cmd.address // num_bytes) * num_bytes
-            word_addr = (cmd.address // self.byte_lanes) * self.byte_lanes
-
-            start_offset = cmd.address % self.byte_lanes
-            end_offset = ((cmd.address + len(cmd.data) - 1) % self.byte_lanes) + 1
 
-            cycles = (len(cmd.data) + (cmd.address % num_bytes) + num_bytes-1) // num_bytes
+            if cmd.burst == AxiBurstType.FIXED:
+                # every transfer uses the same byte lanes
+                cycle_bytes = num_bytes - cmd.address % num_bytes
+                cycles = (len(cmd.data) + cycle_bytes-1) // cycle_bytes
+            else:
+                cycles = (len(cmd.data) + (cmd.address % num_bytes) + num_bytes-1) // num_bytes
 
             cur_addr = cmd.address
             offset = 0
-            cycle_offset = aligned_addr-word_addr
             n = 0
             transfer_count = 0
 
@@ -506,13 +507,11 @@ class AxiMasterWrite(Region, Reset):
                         cmd.address, awid, cmd.prot, ' '.join((f'{c:02x}' for c in cmd.data)))
 
             for k in range(cycles):
-                start = cycle_offset
-                stop = cycle_offset+num_bytes
+                start = cur_addr % self.byte_lanes
+                stop = (start // num_bytes + 1) * num_bytes
 
-                if k == 0:
-                    start = start_offset
                 if k == cycles-1:
-                    stop = end_offset
+                    stop = start + len(cmd.data) - offset
 
                 strb = (self.strb_mask << start) & self.strb_mask & (self.strb_mask >> (self.byte_lanes - stop))
 
@@ -527,8 +526,12 @@ class AxiMasterWrite(Region, Reset):
 
                     # split on burst length
                     burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
-                    # split on 4k address boundary
-                    burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
+                    if cmd.burst == AxiBurstType.FIXED:
+                        # fixed bursts are limited to 16 transfers
+                        burst_length = min(burst_length, 16)
+                    elif cmd.burst == AxiBurstType.INCR:
+                        # split on 4k address boundary
+                        burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
 
                     burst_list.append(burst_length)
 
@@ -577,7 +580,9 @@ class AxiMasterWrite(Region, Reset):
                     cur_addr = aligned_addr + num_bytes
                 else:
                     cur_addr += num_bytes
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+
+                if cmd.burst == AxiBurstType.WRAP and cur_addr % (burst_length*num_bytes) == 0:
+                    cur_addr -= burst_length*num_bytes
 
             resp_cmd = AxiWriteRespCmd(cmd.address, len(cmd.data), cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(awid, resp_cmd)
@@ -887,7 +892,12 @@ class AxiMasterRead(Region, Reset):
 
             aligned_addr = (cmd.address // num_bytes) * num_bytes
 
-            cycles = (cmd.length + num_bytes-1 + (cmd.address % num_bytes)) // num_bytes
+            if cmd.burst == AxiBurstType.FIXED:
+                # every transfer uses the same byte lanes
+                cycle_bytes = num_bytes - cmd.address % num_bytes
+                cycles = (cmd.length + cycle_bytes-1) // cycle_bytes
+            else:
+                cycles = (cmd.length + num_bytes-1 + (cmd.address % num_bytes)) // num_bytes
 
             burst_list = []
 
@@ -912,8 +922,12 @@ class AxiMasterRead(Region, Reset):
 
                     # split on burst length
                     burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
-                    # split on 4k address boundary
-                    burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
+                    if cmd.burst == AxiBurstType.FIXED:
+                        # fixed bursts are limited to 16 transfers
+                        burst_length = min(burst_length, 16)
+                    elif cmd.burst == AxiBurstType.INCR:
+                        # split on 4k address boundary
+                        burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
 
                     burst_list.append(burst_length)
 
@@ -943,7 +957,7 @@ class AxiMasterRead(Region, Reset):
                 else:
                     cur_addr += num_bytes
 
-            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
+            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.burst, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(arid, resp_cmd)
 
             self.current_read_command = None
@@ -963,19 +977,12 @@ class AxiMasterRead(Region, Reset):
 
         num_bytes = 2**cmd.size
 
-        aligned_addr = (cmd.address // num_bytes) * num_bytes
-        word_addr = (cmd.address // self.byte_lanes) * self.byte_lanes
-
-        start_offset = cmd.address % self.byte_lanes
-
-        cycle_offset = aligned_addr - word_addr
+        cur_addr = cmd.address
         data = bytearray()
 
         resp = AxiResp.OKAY
         user = []
 
-        first = True
-
         for burst_length in cmd.burst_list:
             for k in range(burst_length):
                 r = await context.get_resp()
@@ -997,18 +1004,17 @@ class AxiMasterRead(Region, Reset):
                 if cycle_user is not None:
                     user.append(cycle_user)
 
-                start = cycle_offset
-                stop = cycle_offset+num_bytes
-
-                if first:
-                    start = start_offset
+                start = cur_addr % self.byte_lanes
+                stop = (start // num_bytes + 1) * num_bytes
 
                 for j in range(start, stop):
                     data.append((cycle_data >> j*8) & 0xff)
 
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                if cmd.burst != AxiBurstType.FIXED:
+                    cur_addr = (cur_addr // num_bytes + 1) * num_bytes
 
-                first = False
+                    if cmd.burst == AxiBurstType.WRAP and cur_addr % (burst_length*num_bytes) == 0:
+                        cur_addr -= burst_length*num_bytes
 
             self.active_id[rid] -= 1
 
-- 
2.43.0


From 56673a3f6d12f1b5166d3b88ab787f05aff0d222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 15/21] fix: define_stream() with explicit handshake signal
 names

---
 cocotbext/axi/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 49ddb51..073f498 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -438,6 +438,7 @@ class StreamSink(StreamMonitor, StreamPause):
 
 
 def define_stream(name, signals, optional_signals=None, valid_signal=None, ready_signal=None, signal_widths=None):
+    signals = signals.copy()
     all_signals = signals.copy()
 
     if optional_signals is None:
@@ -449,8 +450,8 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
         for s in all_signals:
             if s.lower().endswith('valid'):
                 valid_signal = s
-    if valid_signal not in all_signals:
-        signals += valid_signal
+    if valid_signal is not None and valid_signal not in all_signals:
+        signals.append(valid_signal)
 
     if ready_signal is None:
         for s in all_signals:
@@ -458,7 +459,7 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
                 ready_signal = s
     else:
         if ready_signal not in all_signals:
-            signals += ready_signal
+            signals.append(ready_signal)
 
     if signal_widths is None:
         signal_widths = {}
-- 
2.43.0


From 2aeb5a92ea99ac15f868b5baeb9c1aa0ccb18810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:55 +0000
Subject: [PATCH 16/21] fix: idle() of AXI and AXI-Lite masters with 64-bit
 addresses

---
 cocotbext/axi/axi_master.py  | 2 +-
 cocotbext/axi/axil_master.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 67aec23..4e7c081 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -1058,7 +1058,7 @@ class AxiMaster(Region):
         return self.write_if.init_write(address, data, awid, burst, size, lock, cache, prot, qos, region, user, wuser, event)
 
     def idle(self):
-        return (not self.read_if or self.read_if.idle()) and (not self.write_if or self.write_if.idle())
+        return (self.read_if is None or self.read_if.idle()) and (self.write_if is None or self.write_if.idle())
 
     async def wait(self):
         while not self.idle():
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index 0ab3948..af0f00b 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -596,7 +596,7 @@ class AxiLiteMaster(Region):
         return self.write_if.init_write(address, data, prot, event)
 
     def idle(self):
-        return (not self.read_if or self.read_if.idle()) and (not self.write_if or self.write_if.idle())
+        return (self.read_if is None or self.read_if.idle()) and (self.write_if is None or self.write_if.idle())
 
     async def wait(self):
         while not self.idle():
-- 
2.43.0


From 8eb59d2d513de9cd62d01fbd01688ac8e7b708cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:20 +0000
Subject: [PATCH 17/21] fix: AXI stream sink is idle after the last word of a
 frame

---
 cocotbext/axi/axis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 24a9d9c..f055afa 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -844,6 +844,7 @@ class AxiStreamSink(AxiStreamMonitor, AxiStreamPause):
                     self.active_event.set()
 
                     frame = None
+                    self.active = False
             else:
                 self.active = bool(frame)
 
-- 
2.43.0


From 42ec0baa12600fb62d4d6380ef0b5bf80c020819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 18/21] fix: setting target of AxiSlave and AxiLiteSlave takes
 effect

---
 cocotbext/axi/axi_slave.py  | 9 +++++++++
 cocotbext/axi/axil_slave.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/cocotbext/axi/axi_slave.py b/cocotbext/axi/axi_slave.py
index 5f10107..e303b84 100644
--- a/cocotbext/axi/axi_slave.py
+++ b/cocotbext/axi/axi_slave.py
@@ -345,3 +345,12 @@ class AxiSlave:
 
         self.write_if = AxiSlaveWrite(bus.write, clock, reset, target, reset_active_level)
         self.read_if = AxiSlaveRead(bus.read, clock, reset, target, reset_active_level)
+
+    @property
+    def target(self):
+        return self.read_if.target
+
+    @target.setter
+    def target(self, target):
+        self.write_if.target = target
+        self.read_if.target = target
diff --git a/cocotbext/axi/axil_slave.py b/cocotbext/axi/axil_slave.py
index 3214d31..46e50b3 100644
--- a/cocotbext/axi/axil_slave.py
+++ b/cocotbext/axi/axil_slave.py
@@ -257,3 +257,12 @@ class AxiLiteSlave:
 
         self.write_if = AxiLiteSlaveWrite(bus.write, clock, reset, target, reset_active_level)
         self.read_if = AxiLiteSlaveRead(bus.read, clock, reset, target, reset_active_level)
+
+    @property
+    def target(self):
+        return self.read_if.target
+
+    @target.setter
+    def target(self, target):
+        self.write_if.target = target
+        self.read_if.target = target
-- 
2.43.0


From b8f0b3543b6b9e5373a49a5d8fb7c4ec8b87e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 19/21] fix: slaves accept a bus master as target

---
 cocotbext/axi/apb.py        | 2 +-
 cocotbext/axi/axi_slave.py  | 2 +-
 cocotbext/axi/axil_slave.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index f246258..0627f41 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -600,7 +600,7 @@ class ApbSlave(ApbPause, Reset):
                     pslverr = True
             else:
                 try:
-                    data = await self._read(addr, self.byte_lanes)
+                    data = bytes(await self._read(addr, self.byte_lanes))
                 except Exception:
                     self.log.warning("Read operation failed")
                     data = bytes(self.byte_lanes)
diff --git a/cocotbext/axi/axi_slave.py b/cocotbext/axi/axi_slave.py
index e303b84..8791d02 100644
--- a/cocotbext/axi/axi_slave.py
+++ b/cocotbext/axi/axi_slave.py
@@ -314,7 +314,7 @@ class AxiSlaveRead(Reset):
                 r.rresp = AxiResp.OKAY
 
                 try:
-                    data = await self._read(cur_word_addr, self.byte_lanes)
+                    data = bytes(await self._read(cur_word_addr, self.byte_lanes))
                 except Exception:
                     self.log.warning("Read operation failed")
                     data = bytes(self.byte_lanes)
diff --git a/cocotbext/axi/axil_slave.py b/cocotbext/axi/axil_slave.py
index 46e50b3..a1c720c 100644
--- a/cocotbext/axi/axil_slave.py
+++ b/cocotbext/axi/axil_slave.py
@@ -233,7 +233,7 @@ class AxiLiteSlaveRead(Reset):
             r.rresp = AxiResp.OKAY
 
             try:
-                data = await self._read(addr, self.byte_lanes)
+                data = bytes(await self._read(addr, self.byte_lanes))
             except Exception:
                 self.log.warning("Read operation failed")
                 data = bytes(self.byte_lanes)
-- 
2.43.0


From a8b1763e1528056a108a9313fb85b0cac4139d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:16 +0000
Subject: [PATCH 20/21] fix: AXI stream frames do not share sideband lists with
 the caller

---
 cocotbext/axi/axis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index f055afa..1f915b2 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -50,6 +50,9 @@ class AxiStreamFrame:
         self.sim_time_end = None
         self.tx_complete = None
 
+        # sideband lists are modified in place, so do not share them with the caller
+        tkeep, tid, tdest, tuser = (list(v) if type(v) is list else v for v in (tkeep, tid, tdest, tuser))
+
         if type(tdata) is AxiStreamFrame:
             if type(tdata.tdata) is bytearray:
                 self.tdata = bytearray(tdata.tdata)
-- 
2.43.0


From 67544aae6be3c357a462143e90d7afc319b66f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:34 +0000
Subject: [PATCH 21/21] fix: hexdump of zero bytes prints nothing

---
 cocotbext/axi/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/utils.py b/cocotbext/axi/utils.py
index 07ea16b..f325039 100644
--- a/cocotbext/axi/utils.py
+++ b/cocotbext/axi/utils.py
@@ -33,14 +33,14 @@ def hexdump_line(data, offset, row_size=16):
 
 
 def hexdump(data, start=0, length=None, row_size=16, prefix="", offset=0):
-    stop = min(start+length, len(data)) if length else len(data)
+    stop = min(start+length, len(data)) if length is not None else len(data)
     for k in range(start, stop, row_size):
         print(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))
 
 
 def hexdump_lines(data, start=0, length=None, row_size=16, prefix="", offset=0):
     lines = []
-    stop = min(start+length, len(data)) if length else len(data)
+    stop = min(start+length, len(data)) if length is not None else len(data)
     for k in range(start, stop, row_size):
         lines.append(prefix+hexdump_line(data[k:min(k+row_size, stop)], k+offset, row_size))
     return lines
-- 
2.43.0

