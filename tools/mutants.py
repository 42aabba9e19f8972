#!/usr/bin/env python3
"""Mutation campaign: apply textual mutants to a scratch copy of /repo and run checks on each.

mutants.py [-j N] [-o OUT.txt] [NAME...]     (names or prefixes; default all)
"""
import os, subprocess, sys, shutil, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = []


def M(name, file, old, new, ids, nth=None):
    L.append((name, file, old, new, ids.split(), nth))


am, asl, ar, st, ax, apb, al, als = ("axi_master.py", "axi_slave.py", "axi_ram.py", "stream.py", "axis.py", "apb.py", "axil_master.py", "axil_slave.py")
asp, mem, sp, bud, ut, rs, ch = ("address_space.py", "memory.py", "sparse_memory.py", "buddy_allocator.py", "utils.py", "reset.py", "axi_channels.py")

# ---- AXI master
M("am01", am, "0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes\n\n                    burst_list.append(burst_length)\n\n                    aw", "0x1000-(cur_addr & 0xfff))+self.byte_lanes-1)//num_bytes\n\n                    burst_list.append(burst_length)\n\n                    aw", "A03 A01")
M("am02", am, "if burst_resp != AxiResp.OKAY:\n                resp = burst_resp", "if burst_resp > AxiResp.EXOKAY:\n                resp = burst_resp", "A04")
M("am03", am, "if cycle_resp != AxiResp.OKAY:\n                    resp = cycle_resp", "if cycle_resp != AxiResp.OKAY or k == 0:\n                    resp = cycle_resp", "A04")
M("am04", am, "w.wuser = wuser[k]", "w.wuser = wuser[n-1]", "A03")
M("am05", am, "if self._cmd_queue.empty() and self._resp_queue.empty():", "if self._cmd_queue.empty():", "A04")
M("am06", am, "            self.cur_id = 0\n            self.active_id = Counter()\n\n            self.in_flight_operations = 0", "            self.cur_id = 0\n\n            self.in_flight_operations = 0", "R01", 0)
M("am07", am, "            self.cur_id = 0\n            self.active_id = Counter()\n\n            self.in_flight_operations = 0", "            self.cur_id = 0\n\n            self.in_flight_operations = 0", "R01", 1)
M("am08", am, "                if cmd.burst == AxiBurstType.FIXED:\n                    cur_addr = cmd.address\n                elif k == 0:\n                    cur_addr = aligned_addr + num_bytes\n                else:\n                    cur_addr += num_bytes\n\n                if cmd.burst == AxiBurstType.WRAP", "                if cmd.burst == AxiBurstType.FIXED:\n                    cur_addr = cmd.address\n                else:\n                    cur_addr += num_bytes\n\n                if cmd.burst == AxiBurstType.WRAP", "A01 A03")
M("am09", am, "user.append(cycle_user)", "user.append(cycle_user) if k or burst_length == 1 else user.insert(0, cycle_user)", "A04")
M("am10", am, "            for cmd in self.tag_context_manager.flush():\n                flush_cmd(cmd)\n", "", "R01", 0)
M("am11", am, "        while not self._resp_queue.empty():\n            self._resp_queue.get_nowait()\n", "", "R01")
M("am12", am, "self._context_idle_list.append(context)", "self._context_idle_list.insert(0, context)", "A04")  # equivalent
M("am13", am, "address+len(data) > 2**self.address_width", "address+len(data) >= 2**self.address_width", "A05", 0)
M("am14", am, "elif awid >= self.id_count:", "elif awid > self.id_count:", "A05", 1)
M("am15", am, "aw.awregion = cmd.region", "aw.awregion = cmd.qos", "A03")
M("am16", am, "ar.arlock = cmd.lock", "ar.arlock = cmd.lock if n == 0 and k == 0 else 0", "A03")
M("am17", am, "w.wlast = n >= burst_length", "w.wlast = n >= burst_length or k == cycles-1", "A03")  # equivalent
M("am18", am, "self.cur_id = (self.cur_id+1) % self.id_count", "self.cur_id = (self.cur_id+1) % (self.id_count+1)", "A03 A04", 0)
M("am19", am, "stop = (start // num_bytes + 1) * num_bytes\n\n                if k == cycles-1:\n                    stop", "stop = (start // num_bytes + 1) * num_bytes\n\n                if k == cycles-1 and cycles > 1 or n == 0 and cycles == 1:\n                    stop", "A01")
M("am20", am, "        self.in_flight_operations -= 1\n\n        if self.in_flight_operations == 0:\n            self._idle.set()\n\n\nclass AxiMasterRead", "        self.in_flight_operations -= 1\n\n        if self.in_flight_operations == 0 or not self.write_command_queue.qsize():\n            self._idle.set()\n\n\nclass AxiMasterRead", "A06")
M("am21", am, "            await self.write_if.wait()\n            await self.read_if.wait()", "            await self.write_if.wait()\n            return", "A06")
M("am22", am, "        while not self.idle():\n            await self.write_if.wait()\n            await self.read_if.wait()", "        await self.write_if.wait()\n        await self.read_if.wait()", "A06")
M("am23", am, "return self.read_if.init_read(address, length, arid, burst, size, lock, cache, prot, qos, region, user, event)", "return self.read_if.init_read(address, length, arid, burst, size, lock, cache, prot, region, qos, user, event)", "A03")
M("am24", am, "        size = None\n" if False else "max_burst_size = (self.byte_lanes-1).bit_length()", "max_burst_size = max((self.byte_lanes-1).bit_length(), 1)", "A03 A01", 0)
M("am25", am, "burst_length = min(burst_length, 16)", "burst_length = min(burst_length, 17)", "A03", 1)
M("am26", am, "cur_addr = (cur_addr // num_bytes + 1) * num_bytes", "cur_addr = cur_addr + num_bytes", "A02")
M("am27", am, "assert self.active_id[rid] > 0, \"unexpected burst ID\"\n\n            self.tag_context_manager", "self.tag_context_manager", "A04")
# ---- AXI slave
M("as01", asl, "if cur_addr == upper_wrap_boundary:\n                            cur_addr = lower_wrap_boundary\n\n            await", "if cur_addr == upper_wrap_boundary:\n                            cur_addr = aligned_addr\n\n            await", "A08")
M("as02", asl, "b.bresp = AxiResp.OKAY\n\n            for n in range(length):\n", "for n in range(length):\n                b.bresp = AxiResp.OKAY\n", "A10")
M("as03", asl, "if start_offset is not None and offset != start_offset:\n                    write_ops.append((cur_word_addr+start_offset, data[start_offset:offset]))\n\n                # perform", "if start_offset and offset != start_offset:\n                    write_ops.append((cur_word_addr+start_offset, data[start_offset:offset]))\n\n                # perform", "A08")
M("as04", asl, "                            write_ops.append((cur_word_addr+start_offset, data[start_offset:offset]))\n                        start_offset = None", "                            write_ops.append((cur_word_addr+start_offset, data[start_offset:offset]))\n                            start_offset = None", "A08")  # equivalent
M("as05", asl, "                r.rresp = AxiResp.OKAY\n\n                try", "                if n == 0:\n                    resp = AxiResp.OKAY\n                r.rresp = resp\n\n                try", "A10")
M("as06", asl, "                    data = bytes(self.byte_lanes)\n                    r.rresp = AxiResp.SLVERR", "                    data = bytes(self.byte_lanes)\n                    r.rresp = AxiResp.SLVERR\n                    r.rlast = True", "A10")
M("as07", asl, "                if burst != AxiBurstType.FIXED:\n                    cur_addr += num_bytes\n\n                    if burst == AxiBurstType.WRAP:\n                        if cur_addr == upper_wrap_boundary:\n                            cur_addr = lower_wrap_boundary\n\n\nclass", "                if burst != AxiBurstType.FIXED or length > 16:\n                    cur_addr += num_bytes\n\n                    if burst == AxiBurstType.WRAP:\n                        if cur_addr == upper_wrap_boundary:\n                            cur_addr = lower_wrap_boundary\n\n\nclass", "A09")
M("as08", asl, "                except Exception:\n                    self.log.warning(\"Write operation failed\")\n                    b.bresp = AxiResp.SLVERR", "                except Exception:\n                    self.log.warning(\"Write operation failed\")\n                    b.bresp = AxiResp.SLVERR\n                    break", "A10")
M("as09", ar, "self.write(address % self.size, data)", "self.write(address & (self.size-1), data)", "A08")
M("as10", ar, "self.write_if = AxiRamWrite(bus.write, clock, reset, reset_active_level, mem=self.mem)", "self.write_if = AxiRamWrite(bus.write, clock, reset, True, mem=self.mem)", "R02")
M("as11", asl, "            self.aw_channel.clear()\n            self.w_channel.clear()", "            self.aw_channel.clear()", "R02")
M("as12", asl, "            self.r_channel.clear()", "            pass", "R02")
# ---- stream
M("st01", st, "        while self.full():\n            self.dequeue_event.clear()", "        if self.full():\n            self.dequeue_event.clear()", "S02")
M("st02", st, "paused = self.full() or pause_sample", "paused = self.full() or bool(self.pause)", "S01 S02")
M("st03", st, "and (pause_sample == bool(self.pause)):\n", "and pause_sample:\n", "S01 S02 A07")
M("st04", st, "    def _dequeue(self, item):\n        self.wake_event.set()", "    def _dequeue(self, item):\n        if not self.queue.qsize():\n            self.wake_event.set()", "S01 S02")
M("st05", st, "        if self.queue.empty():\n            self.active_event.clear()\n        self._dequeue", "        self.active_event.clear()\n        self._dequeue", "S02")
M("st06", st, "if (ready_sample and valid_sample) or (not valid_sample):", "if ready_sample or (not valid_sample and not self.pause):", "S01 A07")  # hmm
M("st07", st, "                    self.active = not self.queue.empty()\n", "                    self.active = False\n", "S02")
M("st08", st, "            if self.queue.empty():\n                self.idle_event.set()", "            self.idle_event.set()", "S02 R02")
M("st09", st, "            if ready_sample and valid_sample:\n                obj = self._transaction_obj()\n                self.bus.sample(obj)\n                self.queue.put_nowait(obj)\n                self.active_event.set()\n            else:\n                self.wake_event.clear()", "            if ready_sample and valid_sample:\n                obj = self._transaction_obj()\n                self.bus.sample(obj)\n                self.queue.put_nowait(obj)\n                self.active_event.set()\n            elif not valid_sample:\n                self.wake_event.clear()", "S01")  # perf only eq
M("st10", st, "            if self.ready is not None:\n                self.ready.value = 0\n", "            pass\n", "R02 R01")
M("st11", st, "            if self.valid is not None:\n                self.valid.value = 0\n", "            pass\n", "R02 R01")
M("st12", st, "    signals = signals.copy()", "    signals = signals", "S01")
M("st13", st, "            self.active = False\n\n            if", "            if", "R01 R02 S02")
M("st14", st, "self.queue_occupancy_limit > 0 and self.count() >= self.queue_occupancy_limit", "self.queue_occupancy_limit > 0 and self.count() > self.queue_occupancy_limit", "S02", 1)
M("st15", st, "    async def _run_ready_monitor(self):\n        event = RisingEdge(self.ready)", "    async def _run_ready_monitor(self):\n        event = RisingEdge(self.valid or self.ready)", "S01")
# ---- axis
M("ax01", ax, "tid_val = frame.tid[frame_offset]", "tid_val = tid_val or frame.tid[frame_offset]", "X01")
M("ax02", ax, "        self.queue_occupancy_bytes -= len(frame)\n        self.queue_occupancy_frames -= 1\n        self._dequeue", "        if compact:\n            frame.compact()\n        self.queue_occupancy_bytes -= len(frame)\n        self.queue_occupancy_frames -= 1\n        self._dequeue", "X02 X03")
M("ax03", ax, "        self.queue_occupancy_bytes = 0\n        self.queue_occupancy_frames = 0\n\n    def _handle", "        self.queue_occupancy_bytes = 0\n\n    def _handle", "X03")
M("ax04", ax, "                            frame.handle_tx_complete()\n                            frame = None", "                            if not self.queue.empty():\n                                frame.handle_tx_complete()\n                            frame = None", "X03 X01")
M("ax05", ax, "self.tuser[:n] + [self.tuser[-1]]*(n-len(self.tuser))", "self.tuser[:n] + [self.tuser[0]]*(n-len(self.tuser))", "X04 X01")
M("ax06", ax, "for k in range(len(self.tdata)-1, -1, -1):", "for k in range(len(self.tdata)-1, 0, -1):", "X04 X02")
M("ax07", ax, "elif all(self.tdest[0] == i for i in self.tdest):", "elif self.tdest[0] == self.tdest[-1]:", "X04 X02")
M("ax08", ax, "frame.tkeep.append((int(self.bus.tkeep.value) >> offset) & 1)", "frame.tkeep.append((int(self.bus.tkeep.value) >> offset) & 1 or int(not offset))", "X02", 1)
M("ax09", ax, "            frame = self.queue.get_nowait()\n            frame.sim_time_end = None\n            frame.handle_tx_complete()", "            self.queue.get_nowait()", "X03")
M("ax10", ax, "        while not self.read_queue:\n            frame", "        if not self.read_queue:\n            frame", "X02 X03")
M("ax11", ax, "        data = self.read_queue[:count]\n        del self.read_queue[:count]", "        data = self.read_queue[:count]\n        self.read_queue = self.read_queue[max(count, 1):]", "X02 X03")
M("ax12", ax, "                    self.active = bool(frame)\n                    if not frame and", "                    self.active = False\n                    if not frame and", "X03 X01")
M("ax13", ax, "if not has_tlast or self.bus.tlast.value:", "if not has_tlast or self.bus.tlast.value and (not has_tkeep or self.bus.tkeep.value):", "X02", 1)
M("ax14", ax, "                if type(tdata.tuser) in (int, bool):\n                    self.tuser = tdata.tuser\n                else:\n                    self.tuser = list(tdata.tuser)", "                self.tuser = tdata.tuser", "X04 X01")
M("ax15", ax, "tkeep_val |= (frame.tkeep[frame_offset] & 1) << offset", "tkeep_val |= 1 << offset", "X01")
M("ax16", ax, "frame.sim_time_start = get_sim_time()\n                    frame.sim_time_end = None", "frame.sim_time_end = None", "X01 X03")
M("ax17", ax, "if self.queue_occupancy_limit_bytes > 0 and self.queue_occupancy_bytes > self", "if self.queue_occupancy_limit_bytes > 0 and self.queue_occupancy_frames > 1 and self.queue_occupancy_bytes > self", "X03", 1)
M("ax18", ax, "                self.current_frame.handle_tx_complete()\n", "", "R02")
M("ax19", ax, "            elif self.tid != other.tid:\n                return False", "            elif type(self.tid) is int and self.tid != other.tid:\n                return False", "X04")
M("ax20", ax, "                    self.active = bool(frame)\n                    if not frame and self.queue.empty():", "                    self.active = bool(frame)\n                    if not frame:", "X01 X03")
M("ax21", ax, "paused = self.full() or pause_sample", "paused = pause_sample", "X03 X02")
M("ax22", ax, "(tready_sample and tvalid_sample) or not tvalid_sample", "tready_sample or not tvalid_sample", "X01")  # equivalent
# ---- apb
M("ap01", apb, "end_offset = ((cmd.address + length - 1) % self.byte_lanes) + 1", "end_offset = (cmd.address + length) % self.byte_lanes or self.byte_lanes-1", "B01")
M("ap02", apb, "resp = AxiResp.SLVERR\n\n                start = 0", "resp = AxiResp.SLVERR\n                else:\n                    resp = AxiResp.OKAY\n\n                start = 0", "B01")
M("ap03", apb, "while self.pause:\n                    await clock_edge_event", "if self.pause:\n                    await clock_edge_event", "P01")
M("ap04", apb, "            pslverr = False\n\n            while", "            while", "B02")  # crash
M("ap05", apb, "            if self.pslverr_present:\n                self.bus.pslverr.value = pslverr", "            if self.pslverr_present and pslverr:\n                self.bus.pslverr.value = pslverr", "B02")
M("ap06", apb, "                if k == 0:\n                    self.bus.paddr.value = cmd.address", "                if k == 0 or cycles == 2:\n                    self.bus.paddr.value = cmd.address + k", "B01")
M("ap07", apb, "                self.bus.psel.value = False\n\n            if pwrite", "            self.bus.psel.value = False\n\n            if pwrite", "A07 B01")
M("ap08", apb, "            self.bus.psel.value = False\n            self.bus.penable.value = False\n\n            if self._run_cr", "            self.bus.psel.value = False\n\n            if self._run_cr", "R01")
M("ap09", apb, "self.bus.pready.value = False\n\nclass", "pass\n\nclass", "B02 A07")
M("ap10", apb, "                    strb = 0\n", "                    pass\n", "B01 A07")
M("ap11", apb, "            self.bus.pready.value = False\n\n            if self._run_cr", "            if self._run_cr", "R02")
# ---- axil
M("al01", al, "aw.awaddr = word_addr + k*self.byte_lanes", "aw.awaddr = cmd.address + k*self.byte_lanes", "L01")
M("al02", al, "if cycle_resp != AxiResp.OKAY:", "if cycle_resp != AxiResp.OKAY and k == cmd.cycles-1 or cycle_resp == AxiResp.SLVERR:", "L01", 0)
M("al03", al, "        self.in_flight_operations += 1\n        self._idle.clear()\n\n        self.write_command_queue.put_nowait", "        self._idle.clear()\n        self.in_flight_operations += 1 if self.idle() else 1 if data else 0\n\n        self.write_command_queue.put_nowait", "A06 L01")
M("al04", al, "            while not self.int_write_resp_command_queue.empty():\n                cmd = self.int_write_resp_command_queue.get_nowait()\n                flush_cmd(cmd)\n", "", "R01")
M("al05", als, "addr = (int(ar.araddr) // self.byte_lanes) * self.byte_lanes", "addr = int(ar.araddr)", "L02")
M("al06", als, "self.log.warning(\"Write operation failed\")\n                b.bresp = AxiResp.SLVERR", "self.log.warning(\"Write operation failed\")\n                b.bresp = AxiResp.DECERR if not write_ops else AxiResp.SLVERR", "L02")  # equivalent
M("al07", als, "                    data = bytes(self.byte_lanes)\n" if False else "                data = bytes(self.byte_lanes)\n                r.rresp = AxiResp.SLVERR", "                data = bytes(self.byte_lanes)", "L02")
# ---- memory side
# ---- pause
M("pa01", st, "if not self.queue.empty() and not self.pause:", "if not self.queue.empty() and (not self.pause or valid_sample):", "P01")
M("pa02", st, "    def _pause_update(self, val):\n        self.wake_event.set()", "    def _pause_update(self, val):\n        pass", "P01")
M("pa03", st, "            self._pause_cr.kill()\n", "", "P01")
M("pa04", st, "            self.pause = val\n            await clock_edge_event", "            if val != self.pause:\n                self.pause = val\n            if val:\n                await clock_edge_event\n            await clock_edge_event", "P01")
M("pa05", ax, "if frame and not self.pause:", "if frame and (frame_offset or not self.pause):", "P01")
M("pa06", ax, "paused = self.full() or pause_sample", "paused = self.full() or (pause_sample and not frame)", "P01")
M("pa07", ax, "if (not tvalid_sample or paused) and (pause_sample == bool(self.pause)):", "if not tvalid_sample or paused:", "P01")
M("pa08", st, "if (not valid_sample or paused) and (pause_sample == bool(self.pause)):", "if not valid_sample or paused:", "P01")
M("pa09", apb, "            while self.pause:\n                await clock_edge_event\n\n            if (int(self.bus.pwrite.value)):", "            if self.pause:\n                await clock_edge_event\n\n            if (int(self.bus.pwrite.value)):", "P01")
M("pa10", apb, "            self._pause_cr.kill()\n", "", "P01")
M("pa11", apb, "        for val in self._pause_generator:\n            self.pause = val\n            await clock_edge_event", "        for val in self._pause_generator:\n            await clock_edge_event\n            self.pause = val\n            await clock_edge_event", "P01")
M("pa12", apb, "while self.pause:\n                    await clock_edge_event\n\n                if k == 0:", "while self.pause and k == 0:\n                    await clock_edge_event\n\n                if k == 0:", "P01")
M("pa13", ax, "            self._pause_cr.kill()\n            self._pause_cr = None", "            self._pause_cr = None", "P01")
M("pa14", st, "        if self._pause_generator is not None:\n            self._pause_cr", "        self.pause = False\n\n        if self._pause_generator is not None:\n            self._pause_cr", "P01")
M("pa15", st, "                        await self.active_event.wait()\n\n\nclass StreamMonitor", "                        await self.active_event.wait()\n                        await clock_edge_event\n\n\nclass StreamMonitor", "P01 S02")

M("me01", sp, "block = b'\\x00'*4096", "block = self.segs[block_addr] = bytearray(4096)", "M01")  # equivalent
M("me02", sp, "data.extend(block[block_offset:block_offset+block_len])", "data.extend(block[block_offset:block_offset+length])", "M01")
M("me03", sp, "if address+len(data) > self.size:", "if address+len(data) > self.size+1:", "M01")
M("me04", sp, "        self.segs.clear()", "        for s in self.segs.values():\n            s[:4095] = bytes(4095)", "M01")
M("me05", asp, "if address+length > self.size:\n            raise ValueError(\"operation out of range\")", "if address+length > self.size and length < self.size:\n            raise ValueError(\"operation out of range\")", "M01 M02 M03")
M("me06", asp, "return window_type(self, offset, size, base=self.get_absolute_address(offset))", "return window_type(self, offset, size, base=offset)", "M02")
M("me07", asp, "if address < base+size and base < address+length:", "if address <= base+size and base < address+length:", "M03")
M("me08", asp, "        if length > 0:\n            raise Exception(\"Invalid address\")\n        return bytes(data)", "        return bytes(data)", "M03")
M("me09", asp, "        regions.sort()\n", "", "M03")
M("me10", asp, "seg_len = min(size-seg_addr, length)", "seg_len = min(size, length)", "M03", 1)
M("me11", asp, "            if base > address:\n                raise Exception(\"Invalid address\")\n", "", "M03", 1)
M("me12", asp, "            if offset is None:\n                seg_addr = address\n                offset = 0\n            await", "            if offset is None:\n                seg_addr = base\n                offset = 0\n            await", "M03")
M("me13", asp, "if self.find_regions(base, size):", "if self.find_regions(base, 1) or self.find_regions(base+size-1, 1):", "M03")
M("me14", asp, "return self.create_window(self.allocator.alloc(size), size, window_type)", "return self.create_window(self.allocator.alloc(size), 1 << (size-1).bit_length(), window_type)", "M02 M04")
M("me15", asp, "        if isawaitable(data):\n            data = await data\n        return data", "        while isawaitable(data):\n            data = await data\n        return data", "M05")
M("me16", bud, "if (addr // size) % 2:", "if addr % size:", "M04")
M("me17", bud, "size = max(size, self.min_alloc)", "pass", "M04")
M("me18", bud, "addr = min(addr, buddy)", "addr = addr", "M04")
M("me19", bud, "bucket = self.allocations.pop(addr)", "bucket = self.allocations[addr]", "M04")
M("me20", ut, "chr(ch) if 32 < ch < 127", "chr(ch) if 32 < ch < 128", "M06")
M("me21", ut, "stop = min(start+length, len(data)) if length else len(data)\n    for k in range(start, stop, row_size):\n        lines", "stop = min(length, len(data)) if length else len(data)\n    for k in range(start, stop, row_size):\n        lines", "M06")
M("me22", mem, "self.write_words(address, data, byteorder, 8)", "self.write_words(address, data, 'little', 8)", "M01 M05")
M("me23", mem, "words.append(int.from_bytes(data[ws*k:ws*(k+1)], byteorder))", "words.append(int.from_bytes(data[ws*k:ws*k+min(ws, 8)], byteorder))", "M01 M05")
M("me24", asp, "return (await self.read_words(address, 1, byteorder, ws, **kwargs))[0]", "return (await self.read_words(address, 1, byteorder, 2, **kwargs))[0]", "M01 M05")
M("me25", asp, "await self.write_dwords(address, [data], byteorder, **kwargs)", "await self.write_dwords(address, [data], byteorder)", "M01 M05")
M("me26", asp, "return await self.parent.read(self.get_parent_address(address), length, **kwargs)", "return await self.parent._read(self.get_parent_address(address), length, **kwargs)", "M02")
M("me27", asp, "size = self.size - base\n        pool_type", "size = self.size\n        pool_type", "M04 M02")
acl = "axil_channels.py"
M("bu01", ch, "b = AxiBBus.from_prefix(entity, prefix, **kwargs)", "b = AxiBBus.from_prefix(entity, prefix)", "U01")
M("bu02", ch, "r = AxiRBus.from_prefix(entity, prefix, **kwargs)", "r = AxiRBus.from_prefix(entity, prefix.rstrip('_0'), **kwargs)", "U01")
M("bu03", acl, "read = AxiLiteReadBus.from_channels(ar, r)", "read = AxiLiteReadBus.from_prefix(ar._entity, ar._name)", "U01")
M("bu04", ch, "        return cls(aw, w, b)\n\n    @classmethod\n    def from_prefix", "        return cls(aw, b, w)\n\n    @classmethod\n    def from_prefix", "U01")
M("bu05", ch, "\"arlock\": 1,", "", "U01")
M("bu06", acl, "signal_widths={\"bresp\": 2}", "signal_widths={}", "U01")
M("bu07", st, "hasattr(self.bus, self._ready_signal):", "hasattr(self.bus, self._ready_signal) and self.bus._name:", "U01")
M("bu08", apb, "return cls(entity, prefix, **kwargs)", "return cls(entity, prefix)", "U01")
M("bu09", am, "assert len(self.r_channel.bus.rid) == len(self.ar_channel.bus.arid)", "assert len(self.r_channel.bus.rid) >= len(self.ar_channel.bus.arid)", "U01")
M("bu10", ch, "optional_signals=[\"wstrb\", \"wuser\"],", "optional_signals=[\"wuser\"],", "U01 A01")
M("bu11", als, "assert self.byte_lanes == len(self.w_channel.bus.wstrb)", "assert self.byte_lanes <= len(self.w_channel.bus.wstrb)", "U01")
M("in01", sp, "class SparseMemory:\n    def __init__(self, size):\n        self.size = size\n        self.segs = {}", "class SparseMemory:\n    segs = {}\n\n    def __init__(self, size):\n        self.size = size", "I01")
M("in02", am, "        self._context_idle_list = []", "        self._context_idle_list = TagContextManager._shared = getattr(TagContextManager, '_shared', [])", "I01")
M("in03", bud, "        self.allocations = {}", "        self.allocations = BuddyAllocator.__dict__.get('_a', None) or setattr(BuddyAllocator, '_a', {}) or BuddyAllocator._a", "I01")
M("in04", asp, "        self.regions = []\n", "        self.regions = AddressSpace._r = getattr(AddressSpace, '_r', [])\n", "I01")
M("in05", ax, "                self.tdata = bytearray(tdata.tdata)\n            else", "                self.tdata = tdata.tdata\n            else", "I01 X01")
M("in06", ax, "                    self.tuser = list(tdata.tuser)\n            self.sim", "                    self.tuser = tdata.tuser\n            self.sim", "I01 X01 X04")
M("in08", asp, "    def __init__(self, size=4096, mem=None, **kwargs):", "    def __init__(self, size=4096, mem=None, _d={}, **kwargs):\n        mem = _d.setdefault(size, mmap.mmap(-1, size)) if mem is None else mem", "I01")
M("in09", am, "self.cur_id = (self.cur_id+1) % self.id_count", "self.cur_id = AxiMasterWrite.cur_id = (getattr(AxiMasterWrite, 'cur_id', self.cur_id)+1) % self.id_count", "I01", 0)
M("in10", rs, "        self._ext_reset = not active_level", "        Reset._ext_reset = not active_level", "I01")
M("in11", apb, "        self._idle = Event()", "        self._idle = ApbMaster._ev = getattr(ApbMaster, '_ev', Event())", "I01 A06")
M("rs01", rs, "new_state = self._local_reset or self._ext_reset", "new_state = self._ext_reset", "R01 R02")
M("rs02", rs, "            except ValueError:\n                continue", "            except ValueError:\n                return", "R01 R02")
M("rs03", rs, "self._ext_reset = not active_level", "self._ext_reset = False", "R01 R02")

# ---- second battery: specific triggers
M("t01", am, "            self._current_cmd = None\n\n            if self._cmd_queue.empty()", "            if self._cmd_queue.empty()", "R01 A04")
M("t02", am, "            self.current_read_command = None\n\n    async", "    async", "R01")
M("t03", am, "            self.current_write_command = None\n\n    async", "    async", "R01")
M("t04", apb, "            self.current_command = None\n\n            self.in_flight", "            self.in_flight", "R01")
M("t05", al, "            self.current_write_command = None\n\n    async", "    async", "R01")
M("t06", rs, "        self._local_reset = False\n        self._ext_reset = False\n        self._reset_state = True", "        self._local_reset = False\n        self._ext_reset = False\n        self._reset_state = None", "R01 R02")
M("t07", st, "            self.queue.get_nowait()\n        self.dequeue_event.set()", "            self.queue.get_nowait()", "S02")
M("t08", st, "        if not self.active:\n            self.idle_event.set()\n        self.active_event.clear()", "        self.idle_event.set()\n        self.active_event.clear()", "S02")
M("t09", ax, "        if not self.active:\n            self.idle_event.set()\n        self.active_event.clear()", "        self.idle_event.set()\n        self.active_event.clear()", "X03")
M("t10", ax, "            frame = self.recv_nowait(compact=True)", "            frame = self.recv_nowait(compact=len(self.queue._queue) > 1)", "X01 X03")
M("t11", ax, "        self.queue_occupancy_bytes -= len(frame)\n        self.queue_occupancy_frames -= 1\n        self._dequeue(frame)\n        if compact:\n            frame.compact()", "        if compact:\n            frame.compact()\n        self.queue_occupancy_bytes -= len(frame)\n        self.queue_occupancy_frames -= 1\n        self._dequeue(frame)", "X03 X01")
M("t12", asl, "strb = int(getattr(w, 'wstrb', self.strb_mask))", "strb = int(getattr(w, 'wstrb', self.strb_mask)) & 0xffffffff", "A08")
M("t13", am, "                    aw.awuser = cmd.user", "                    aw.awuser = cmd.user & 0xff", "A03")
M("t14", am, "user.append(cycle_user)", "user.append(cycle_user & 0xffff)", "A04")
M("t15", am, "                    aw.awaddr = cur_addr", "                    aw.awaddr = cur_addr & 0xffffffff", "A01 A03")
M("t16", am, "                    ar.araddr = cur_addr", "                    ar.araddr = cur_addr & 0xffffffffff", "A02 A03")
M("t17", am, "                self.cur_id = (self.cur_id+1) % self.id_count", "                self.cur_id = (self.cur_id+1) % min(self.id_count, 16) or (0 if self.id_count <= 16 else 1)", "A03 A04", 0)  # equivalent: any ID is legal
M("t18", am, "            context = self._context_idle_list.pop()", "            context = self._context_list[0]", "A04")
M("t20", al, "        while not self.idle():\n            await self._idle.wait()", "        if not self.idle():\n            await self._idle.wait()", "A06", 0)
M("t22", al, "            self.in_flight_operations = 0\n            self._idle.set()", "            self.in_flight_operations = 0", "R01", 0)
M("t23", apb, "            self.in_flight_operations = 0\n            self._idle.set()", "            self._idle.set()", "R01")
M("t25", ax, "                    self.queue.put_nowait(frame)\n                    self.active_event.set()\n\n                    frame = None\n                    self.active = False", "                    self.queue.put_nowait(frame)\n                    self.active_event.set()\n\n                    frame = None\n                    self.active = bool(has_tlast)", "X01 X02")
M("t26", ax, "if (not tvalid_sample or paused) and (pause_sample == bool(self.pause)):", "if (not tvalid_sample or paused) and (pause_sample == bool(self.pause) or frame):", "X02 X03 P01")
M("t27", ax, "                self.current_frame.handle_tx_complete()\n                self.current_frame = None", "                self.current_frame.handle_tx_complete()", "R02")
M("t28", ax, "            frame.sim_time_end = None\n            frame.handle_tx_complete()\n        self", "            frame.handle_tx_complete()\n        self", "X03")  # equivalent unless a frame is sent again
M("t29", ax, "                    frame.sim_time_end = None\n                    self.log", "                    self.log", "X01")  # idem
M("t30", apb, "                if self.pslverr_present and int(self.bus.pslverr.value):\n                    resp = AxiResp.SLVERR", "                if self.pslverr_present and int(self.bus.pslverr.value) and not (pwrite and k < cycles-1):\n                    resp = AxiResp.SLVERR", "B01")
M("t31", apb, "                if self.pstrb_present:\n                    strb = int(self.bus.pstrb.value)", "                if self.pstrb_present:\n                    strb = int(self.bus.pstrb.value) or self.strb_mask", "B02")
M("t32", asl, "                if self.wstrb_present:\n                    strb =", "                if self.wstrb_present and not last:\n                    strb =", "A08")
M("t33", asl, "                    data = bytes(await self._read(cur_word_addr, self.byte_lanes))", "                    if n == 0 or burst != AxiBurstType.FIXED:\n                        data = bytes(await self._read(cur_word_addr, self.byte_lanes))", "A09 A10")
M("t34", als, "            await self.b_channel.send(b)", "            self.b_channel.queue.put_nowait(b); self.b_channel.active_event.set(); self.b_channel.idle_event.clear()", "L02 A07")  # equivalent but for the limit
M("t35", am, "                if cycle_resp != AxiResp.OKAY:\n                    resp = cycle_resp\n\n                if cycle_user", "                if cycle_resp != AxiResp.OKAY and k < 16:\n                    resp = cycle_resp\n\n                if cycle_user", "A04")
M("t37", al, "                    aw.awaddr = word_addr + k*self.byte_lanes", "                    aw.awaddr = word_addr + (k & 0xff)*self.byte_lanes", "L01")
M("t38", al, "                    ar.araddr = word_addr + k*self.byte_lanes", "                    ar.araddr = word_addr + (k % 128)*self.byte_lanes", "L01")
M("t39", apb, "                    self.bus.paddr.value = word_addr + k*self.byte_lanes", "                    self.bus.paddr.value = word_addr + (k & 0x7f)*self.byte_lanes", "B01")
M("t41", ax, "tuser_val = frame.tuser[frame_offset]", "tuser_val = frame.tuser[frame_offset & 0xff]", "X01 X02")
M("t42", st, "                if not self.queue.empty() and not self.pause:", "                if not self.queue.empty() and not self.pause and self.queue.qsize() < 64:", "S01 S02")
M("t43", bud, "        size = max(size, self.min_alloc)", "        size = max(size, self.min_alloc) & 0xffffffff", "M04")
M("t44", asp, "        regions.sort()\n", "        regions.sort(key=lambda r: r[0] & 0xffffffff)\n", "M03")

# ---- u: rare conditions
M("u01", st, "        if self.queue_occupancy_limit > 0 and self.count() >= self.queue_occupancy_limit:", "        if self.queue_occupancy_limit > 0 and self.count() >= self.queue_occupancy_limit + (self.queue_occupancy_limit > 8):", "S02", 1)
M("u02", st, "        if self.queue_occupancy_limit > 0 and self.count() >= self.queue_occupancy_limit:", "        if self.queue_occupancy_limit > 0 and self.count() >= self.queue_occupancy_limit + (self.queue_occupancy_limit > 8):", "S02", 0)
M("u03", st, "        for val in self._pause_generator:\n            self.pause = val", "        while True:\n            self.pause = next(self._pause_generator)", "P01")
M("u04", ax, "        for val in self._pause_generator:\n            self.pause = val", "        while True:\n            self.pause = next(self._pause_generator)", "P01")
M("u05", apb, "        for val in self._pause_generator:\n            self.pause = val", "        while True:\n            self.pause = next(self._pause_generator)", "P01")
M("u06", am, "        data = bytes(data)\n\n        self.in_flight", "        self.in_flight", "A01 A05 I01", 0)
M("u07", al, "        data = bytes(data)\n\n        self.in_flight", "        self.in_flight", "L01 A05 I01", 0)
M("u08", apb, "        data = bytes(data)\n\n        self.in_flight", "        self.in_flight", "B01 A05 I01", 0)
M("u09", am, "            wuser = list(wuser)", "            pass", "A03 I01", 0)
M("u10", am, "            wuser = list(wuser)", "            pass", "A03 I01", 1)
M("u11", am, "            self.current_write_command = None\n\n    async def _process_write_resp(", "\n    async def _process_write_resp(", "R01")
M("u12", am, "            self.current_read_command = None\n\n    async def _process_read_resp(", "\n    async def _process_read_resp(", "R01")
M("u13", am, "                if cycle_user is not None:\n", "                if cycle_user is not None and len(user) < 256:\n", "A04")
M("u14", am, "0x1000-(cur_addr & 0xfff))", "0x1000-(cur_addr & 0xfff if cur_addr < 2**32 else 0))", "A03", 0)
M("u15", am, "0x1000-(cur_addr & 0xfff))", "0x1000-(cur_addr & 0xfff if cur_addr < 2**32 else 0))", "A03", 1)
M("u16", am, "                w.wlast = n >= burst_length", "                w.wlast = (n & 0x7f) >= burst_length or n >= burst_length and n < 128 or n == burst_length == 128", "A03")
M("u17", ax, "        if count < 0:", "        if count <= 0:", "X03")
M("u18", ax, "            self.read_queue.extend(frame.tdata)\n        if count", "            self.read_queue += [x & 0xff for x in frame.tdata]\n        if count", "X03")
M("u19", ax, "self.queue_occupancy_bytes > self.queue_occupancy_limit_bytes", "self.queue_occupancy_bytes > self.queue_occupancy_limit_bytes + (self.queue_occupancy_limit_bytes > 64)", "X03", 0)
M("u20", ax, "self.queue_occupancy_bytes > self.queue_occupancy_limit_bytes", "self.queue_occupancy_bytes > self.queue_occupancy_limit_bytes + (self.queue_occupancy_limit_bytes > 64)", "X03", 1)
M("u21", ax, "self.queue_occupancy_frames > self.queue_occupancy_limit_frames", "self.queue_occupancy_frames > self.queue_occupancy_limit_frames + (self.queue_occupancy_limit_frames > 4)", "X03", 1)
M("u22", ax, "            await First(self.active_event.wait(), Timer(timeout, timeout_unit))", "            await First(self.active_event.wait(), Timer(timeout))", "X03")
M("u23", st, "            await First(self.active_event.wait(), Timer(timeout, timeout_unit))", "            await Timer(timeout, timeout_unit)", "S02")
M("u24", asl, "                    strb = int(getattr(w, 'wstrb', self.strb_mask))", "                    strb = int(getattr(w, 'wstrb', self.strb_mask)) & (2**64-1)", "A08")
M("u26", asl, "                r.rid = arid", "                r.rid = arid & 0xff", "A09")
M("u27", asl, "            b.bid = awid", "            b.bid = awid & 0x7f", "A08")
M("u28", asl, "                    data = bytes(await self._read(cur_word_addr, self.byte_lanes))", "                    data = bytes(await self._read(cur_word_addr & (2**48-1), self.byte_lanes))", "A10")
M("u29", asl, "                await self.r_channel.send(r)", "                self.r_channel.queue.put_nowait(r); self.r_channel.active_event.set(); self.r_channel.idle_event.clear()", "A09 A10 R02")
M("u31", apb, "        if address+length > 2**self.address_width:", "        if address+length >= 2**self.address_width and length > 8:", "A05", 0)
M("u32", apb, "                cmd = self.current_command\n                self.current_command = None\n", "                cmd = self.current_command\n", "R01")
M("u33", rs, "            self._local_reset = bool(val)", "            self._local_reset = self._ext_reset or bool(val)", "R01 R02")
M("u34", rs, "            self.assert_reset(True)\n            self.assert_reset(False)", "            self.assert_reset(True)\n            self.assert_reset(self._ext_reset)", "R01 R02")
M("u35", asp, "            seg_len = min(size-seg_addr, length)\n            if offset is None:\n                seg_addr = address\n                offset = 0\n            data", "            seg_len = min(size-seg_addr, length, 65536)\n            if offset is None:\n                seg_addr = address\n                offset = 0\n            data", "M03")
M("u36", asp, "        if not size or size < 0:", "        if size is None or size < 0:", "M02")
M("u37", sp, "        if address+len(data) > self.size:", "        if (address+len(data)) & (2**64-1) > self.size:", "M01")
M("u38", mem, "        return self.read_words(address, count, byteorder, 8)", "        return self.read_words(address, count, 'little', 8) if count > 8 else self.read_words(address, count, byteorder, 8)", "M01")
M("u39", ut, "        c += chr(ch) if 32 < ch < 127 else \".\"", "        c += chr(ch) if 32 < ch < 126 else \".\"", "M06")
M("u40", ut, "{offset:08x}", "{offset & 0xffffffff:08x}", "M06")
M("u41", bud, "            if (addr // size) % 2:", "            if (addr & 0xffffffff) // size % 2:", "M04")
M("u42", ax, "                    if has_tid:\n                        frame.tid.append(int(self.bus.tid.value))", "                    if has_tid:\n                        frame.tid.append(int(self.bus.tid.value) if not offset else frame.tid[0])", "X02", 0)
M("u43", ax, "                    if has_tid:\n                        frame.tid.append(int(self.bus.tid.value))", "                    if has_tid:\n                        frame.tid.append(int(self.bus.tid.value) if not offset else frame.tid[0])", "X02", 1)
M("u44", ax, "                    tdest_val = 0\n", "                    tdest_val = 0\n                    self.idle_event.set() if len(self.queue._queue) == 0 and frame_offset >= 64 else None\n", "X03 X02")
M("u45", st, "        self.dequeue_event.set()\n        self.wake_event.set()", "        self.dequeue_event.set()\n        self.wake_event.set() if not getattr(self, '_pause', False) else None", "S02")
M("u46", apb, "            while not self.command_queue.empty():\n                cmd = self.command_queue.get_nowait()", "            while self.command_queue.qsize() > 0 and self.in_flight_operations < 64:\n                cmd = self.command_queue.get_nowait()", "R01")



def run_one(m, scale):
    name, file, old, new, ids, nth = m
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        os.makedirs(d + "/repo/cocotbext")
        shutil.copytree("/repo/cocotbext/axi", d + "/repo/cocotbext/axi", ignore=shutil.ignore_patterns("__pycache__"))
        p = d + "/repo/cocotbext/axi/" + file
        s = open(p).read()
        n = s.count(old)
        if n == 0 or (nth is None and n > 1):
            return name, "BADPATTERN(%d)" % n
        parts = s.split(old)
        i = (nth or 0) + 1
        s = old.join(parts[:i]) + new + old.join(parts[i:])
        open(p, "w").write(s)
        compile(s, p, "exec")
        res = []
        for pid in ids:
            env = dict(os.environ, PBT_OUT=d, PBT_REPO=d + "/repo", PBT_SCALE=scale, VERIF_SEED="1")
            r = subprocess.run(["python3-vt", "-m", "pbt.run", pid, "quick"], cwd=ROOT, env=env, capture_output=True, text=True)
            v = {0: "missed", 1: "CAUGHT"}.get(r.returncode, "ERR%d" % r.returncode)
            res.append("%s:%s" % (pid, v))
            if v == "CAUGHT" and "VIOLATION" not in r.stdout:
                res[-1] += "?"
        return name, " ".join(res)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[1:]
    j, out, scale = 2, None, "1"
    while a and a[0].startswith("-"):
        if a[0] == "-j": j = int(a[1])
        if a[0] == "-o": out = a[1]
        if a[0] == "-s": scale = a[1]
        a = a[2:]
    todo = [m for m in L if not a or any(m[0].startswith(x) for x in a)]
    f = open(out, "a") if out else None
    with cf.ThreadPoolExecutor(j) as ex:
        for name, r in ex.map(lambda m: run_one(m, scale), todo):
            flag = "" if "CAUGHT" in r else "   <<<"
            print(name, r, flag, flush=True)
            if f:
                print(name, r, flag, file=f, flush=True)
