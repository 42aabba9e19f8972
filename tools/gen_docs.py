#!/usr/bin/env python3
"""Write /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pbt.checks import INDEX  # noqa: E402

D = "cocotbext/axi/"
PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why,
                      files=[D + f for f in files], mech=mech, observe=observe, technique=technique, note=note, state=state or []))


SIM = ("Random search with shrinking, so absence of a violation is evidence and not proof; runs the real classes on real cocotb 1.9.2 scheduling, "
       "with the HDL simulator replaced by a small Python GPI (pbt/sim.py); trusts the native peers and reference models in pbt/.")
PURE = ("Random search with shrinking, so absence of a violation is evidence and not proof; the code runs directly, without a simulator; "
        "trusts the reference models in pbt/checks/.")

# ---------------------------------------------------------------- AXI master
prop("A01", "AXI master writes change exactly the requested bytes",
     "A write of any number of bytes at any address, with any legal burst type, beat size, ID, data width and burst-length limit, makes a compliant subordinate "
     "store exactly the given bytes at the addresses which the AXI specification assigns to them (consecutive for INCR, one repeated container for FIXED, wrapping in the aligned block for WRAP), and change no other byte. "
     "Bytes are stored in request order, so the last one given for an address stays, and the write reports OKAY and its own address and length.",
     ["inputs", "configurations", "schedules"],
     "every (address, length, burst, size, id, data) accepted by write()/init_write()/accessors; bus widths 8-1024 bits, 8-64 address bits, any optional signals, any max_burst_len, any ready and response timing of the subordinate",
     "The tests write INCR bursts of small lengths and a few offsets against the library's own RAM, on a handful of widths; a strobe or lane error on both sides cancels out, and FIXED and WRAP data placement is not checked at all.",
     ["axi_master.py", "constants.py"],
     [("write command splitting, strobes and data rotation", D + "axi_master.py:AxiMasterWrite._process_write"),
      ("per-ID response collection", D + "axi_master.py:AxiMasterWrite._process_write_resp_id")],
     ["AW/W/B channel transfers on the bus", "result of write()", "memory of the subordinate model"],
     "property-based testing: generated writes against an independent AXI subordinate and byte memory", SIM)

prop("A02", "AXI master reads return exactly the addressed bytes",
     "A read of any number of bytes at any address, with any legal burst type, beat size, ID, data width and burst-length limit, returns exactly the bytes that a compliant subordinate supplies for those addresses, in order and of the requested length. "
     "Bytes on lanes that do not belong to the access are ignored whatever they contain, and the read fetches nothing beyond the beats that hold requested bytes.",
     ["inputs", "configurations", "schedules"],
     "every (address, length, burst, size, id) accepted by read()/init_read()/accessors; bus widths 8-1024 bits, any optional signals, any max_burst_len, any timing of the subordinate",
     "The tests read back what the library's own RAM supplied for INCR bursts; lanes outside the access always hold benign data there, and FIXED and WRAP are not exercised.",
     ["axi_master.py", "constants.py"],
     [("read command splitting", D + "axi_master.py:AxiMasterRead._process_read"),
      ("lane extraction and concatenation", D + "axi_master.py:AxiMasterRead._process_read_resp_id")],
     ["AR/R channel transfers on the bus", "result of read()"],
     "property-based testing: generated reads against an independent subordinate with address-dependent data", SIM)

prop("A03", "AXI master issues only legal bursts that carry the caller's attributes",
     "Every burst on the bus obeys the AXI rules (length limit for its type and for the configured maximum, no 4 KB crossing, beat size not above the bus width, WRAP alignment and length, last flag exactly on the last beat, no strobe outside the addressed lanes of a beat) and the bursts of one operation cover its bytes in order without gap or overlap. "
     "Each carries the ID, lock, cache, protection, QoS, region and user values that the caller gave, and the library's named constants stand for the values that AXI gives them.",
     ["inputs", "configurations"],
     "every operation accepted by the API, over widths, burst limits, optional signals and sidebands",
     "The tests look at the transferred data only; no test observes burst addresses, lengths, strobes, last flags or sideband values on the bus.",
     ["axi_master.py", "constants.py"],
     [("burst splitting at the length limit and 4 KB", D + "axi_master.py:AxiMasterWrite._process_write"),
      ("burst splitting at the length limit and 4 KB", D + "axi_master.py:AxiMasterRead._process_read"),
      ("attribute checks", D + "axi_master.py:AxiMasterWrite.init_write")],
     ["AW, W and AR payloads on the bus"],
     "property-based testing: protocol-rule monitor over generated operations", SIM)

prop("A04", "AXI master matches concurrent operations with their own responses",
     "With any number of overlapping reads and writes, any IDs chosen by the caller or automatically, and a subordinate that reorders responses between IDs, interleaves read data and injects error responses, every operation completes exactly once and returns its own data, response code and user values. "
     "An operation is OKAY if and only if all its responses were, and otherwise reports one of the non-OKAY codes it received; operations that share an ID complete in issue order.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of operations, response orders permitted by AXI, and response codes",
     "The tests have one subordinate that answers in order and always with OKAY, and mostly one operation at a time; cross-ID reordering, interleaving and error merging never happen.",
     ["axi_master.py"],
     [("ID to operation matching", D + "axi_master.py:TagContextManager"),
      ("response merge", D + "axi_master.py:AxiMasterRead._process_read_resp_id"),
      ("response merge", D + "axi_master.py:AxiMasterWrite._process_write_resp_id")],
     ["results and completion order of operations"],
     "model-based testing: concurrent histories against a reordering, faulty subordinate", SIM)

prop("A05", "Invalid requests are rejected at the call and leave no trace",
     "A request that the configured AXI, AXI-Lite or APB interface cannot express (address, length, ID, beat size, burst type, lock or sideband value out of range, a sideband on a bus without that signal, a wrong data or event type) raises an exception at the call, changes no state and causes no bus activity, whereas every request within the limits is accepted. "
     "Other operations, earlier, later or in flight, complete as if the rejected call had not been made.",
     ["inputs", "configurations", "histories"],
     "all argument values on both sides of each limit, on all configurations, interleaved with valid operations",
     "The tests make valid requests only; the boundary of each limit and the state after a rejected call are untested.",
     ["axi_master.py", "axil_master.py", "apb.py", "address_space.py"],
     [("argument validation", D + "axi_master.py:AxiMasterWrite.init_write"), ("argument validation", D + "axi_master.py:AxiMasterRead.init_read"),
      ("argument validation", D + "axil_master.py:AxiLiteMasterWrite.init_write"), ("argument validation", D + "apb.py:ApbMaster.init_write")],
     ["exceptions at the call", "bus activity", "idle()"],
     "property-based testing: boundary-biased requests with an independent validity oracle", SIM)

prop("A06", "Bus masters execute requests in order and report idle and completion truthfully",
     "Operations of each direction appear on the bus in the order of the calls, whichever call form (blocking, event-based, by accessor) issued them, and each signals completion exactly once with its result, not before its last response was transferred. "
     "A master reports idle exactly while no operation is outstanding (from the call to its completion), and its wait functions return once, and only once, the operations outstanding at that time have completed.",
     ["histories", "schedules"],
     "all sequences of calls through every API form, with any gaps, concurrent waiters and response timing, on AXI, AXI-Lite and APB masters",
     "The tests await each operation before the next one and use wait functions only for one pending operation.",
     ["axi_master.py", "axil_master.py", "apb.py"],
     [("outstanding-operation counting", D + "axi_master.py:AxiMasterWrite.idle"), ("command queue", D + "axil_master.py:AxiLiteMasterWrite.init_write"),
      ("command queue", D + "apb.py:ApbMaster._run")],
     ["call and completion times", "idle()", "order of addresses on the bus"],
     "model-based testing: generated call histories against an outstanding-operations model", SIM)

prop("A07", "Handshake rules hold on every bus, and no side waits where it must not",
     "On every channel, once valid (or an APB setup phase) is asserted it stays asserted with unchanged payload until accepted, and each transfer at a clock edge with valid and ready counts exactly once, under any pause and ready pattern on either side. "
     "Valid is never withheld waiting for ready: a master or source offers address, write data and frames even if the receiver is not ready, and a slave offers its response even if the receiver is not ready. "
     "A slave responds to a write only after its address and last data beat were transferred, and to a read only after its address was.",
     ["schedules", "configurations"],
     "all pause and ready patterns of all AXI, AXI-Lite, AXI stream and APB components",
     "The tests use a few periodic pause patterns and check the data only; no test monitors the handshake signals or holds one channel back while the others run.",
     ["stream.py", "axis.py", "apb.py", "axi_master.py", "axi_slave.py", "axil_master.py", "axil_slave.py"],
     [("valid/ready driving", D + "stream.py:StreamSource._run"), ("ready driving", D + "stream.py:StreamSink._run"),
      ("valid driving", D + "axis.py:AxiStreamSource._run"), ("setup and access phases", D + "apb.py:ApbMaster._run")],
     ["all handshake and payload signals at every clock edge"],
     "property-based testing: per-cycle handshake monitors under generated stall patterns", SIM)

# ---------------------------------------------------------------- AXI slave / RAM
prop("A08", "AXI RAM writes store exactly the strobed bytes",
     "After any sequence of write bursts (INCR, FIXED or WRAP, any beat size, alignment and length, any strobes, any order and timing of address and data), the memory holds, at each byte, the last value strobed for it on its own byte lane, and every other byte is unchanged. "
     "Each burst gets exactly one response, with its own ID and in order, and the memory seen by the test, other ports and bus reads is the same.",
     ["inputs", "histories", "schedules", "configurations"],
     "all legal write bursts, strobe patterns, memory sizes and kinds, widths and channel timings",
     "The tests drive the RAM by the library's own master, which never produces sparse strobes, junk lanes, FIXED or WRAP data or early write data.",
     ["axi_slave.py", "axi_ram.py", "memory.py", "sparse_memory.py"],
     [("burst address stepping and strobe runs", D + "axi_slave.py:AxiSlaveWrite._process_write"), ("storage", D + "axi_ram.py:AxiRamWrite._write")],
     ["memory content", "B channel transfers"],
     "model-based testing: generated bursts from an independent master against a byte map", SIM)

prop("A09", "AXI RAM reads return the stored bytes on their byte lanes",
     "For any read burst (INCR, FIXED or WRAP, any beat size, alignment and length), the RAM returns exactly the requested number of beats, each with the current content of the bytes of its beat on their own lanes, with the ID of the request, OKAY, and the last flag exactly on the last beat. "
     "Bursts are answered completely and in the order in which they were accepted.",
     ["inputs", "histories", "schedules", "configurations"],
     "all legal read bursts, memory sizes and kinds, widths and channel timings, interleaved with writes",
     "The tests read by the library's own master with full-width INCR bursts; lane placement, FIXED/WRAP stepping, beat counts and the last flag are not observed.",
     ["axi_slave.py", "axi_ram.py", "memory.py", "sparse_memory.py"],
     [("burst address stepping", D + "axi_slave.py:AxiSlaveRead._process_read"), ("storage", D + "axi_ram.py:AxiRamRead._read")],
     ["R channel transfers"],
     "model-based testing: generated bursts from an independent master against a byte map", SIM)

prop("A10", "AXI slave turns target failures into error responses and keeps going",
     "When an access to the target behind an AXI slave fails, exactly the burst that made it is answered with an error (for a read, on the failing beats), all other beats of it and all other bursts are still processed, and the channel stays usable. "
     "A slow target delays responses but reorders, loses or duplicates nothing, and each access reaches the target set at that time once, with the bytes and addresses of the burst.",
     ["fault_sequences", "schedules", "histories"],
     "all placements of target failures and delays over sequences of bursts, including unmapped parts of an address space",
     "No test has a failing or slow target.",
     ["axi_slave.py", "address_space.py"],
     [("exception to SLVERR", D + "axi_slave.py:AxiSlaveWrite._process_write"), ("exception to SLVERR", D + "axi_slave.py:AxiSlaveRead._process_read")],
     ["B and R responses", "accesses seen by the target"],
     "fault-injection property testing: generated target failures and delays against a recorded-access model", SIM)

# ---------------------------------------------------------------- AXI-Lite / APB
prop("L01", "AXI-Lite master transfers exactly the requested bytes",
     "A read or write of any number of bytes at any address is carried out as one full-width, aligned transfer per touched word, in ascending order, with strobes for exactly the requested bytes, and the result has exactly the requested bytes. "
     "Protection bits are passed on; the result is OKAY if and only if all transfers were, and otherwise one of the non-OKAY codes.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "every operation accepted by the API, over widths, optional signals, address/data skew at the subordinate, and response codes",
     "The tests use small sizes against the library's own RAM, which never reports an error and shares the word arithmetic.",
     ["axil_master.py"],
     [("word splitting and strobes", D + "axil_master.py:AxiLiteMasterWrite._process_write"), ("word splitting", D + "axil_master.py:AxiLiteMasterRead._process_read"),
      ("response merge", D + "axil_master.py:AxiLiteMasterRead._process_read_resp")],
     ["all channel transfers on the bus", "results"],
     "property-based testing: generated operations against an independent subordinate", SIM)

prop("L02", "AXI-Lite RAM and slave apply exactly the strobed bytes and answer once",
     "Each write transfer changes exactly the strobed bytes of its word and each read returns the current content of its word, whatever the order and timing of address and data, with one response per transfer, in order. "
     "A failing target access gives an error response for that transfer only, a slow target delays but reorders and loses nothing, and each access reaches the target set at that time.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "all transfers, strobes, memory sizes and kinds, widths, channel timings and target failures",
     "The tests drive it by the library's own master, which produces contiguous strobes only; failing and slow targets are untested.",
     ["axil_slave.py", "axil_ram.py", "memory.py", "sparse_memory.py"],
     [("strobe runs, word access and error mapping", D + "axil_slave.py:AxiLiteSlaveWrite._process_write"), ("word access", D + "axil_slave.py:AxiLiteSlaveRead._process_read")],
     ["memory content", "B and R transfers", "accesses seen by the target"],
     "model-based testing: generated transfers and target faults against a byte map", SIM)

prop("B01", "APB master transfers exactly the requested bytes by legal APB transfers",
     "A read or write of any number of bytes at any address is carried out as one transfer per touched word, in ascending order, each with a setup cycle and an access phase held unchanged until ready, with strobes for exactly the requested bytes and none on reads. "
     "Ready, data and error are sampled only at the end of the access phase; the result has exactly the requested bytes, and reports an error if and only if a transfer did.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "every operation accepted by the API, over widths, optional signals, wait states, junk between phases, and error responses",
     "The tests use the library's own completer, with no wait-state junk and no errors.",
     ["apb.py"],
     [("transfer state machine", D + "apb.py:ApbMaster._run")],
     ["all APB signals at every clock edge", "results"],
     "property-based testing: generated operations against an independent completer and phase monitor", SIM)

prop("B02", "APB RAM and slave apply exactly the strobed bytes and answer once",
     "Each APB write changes exactly the strobed bytes of its word and each read returns the current content of its word, once per transfer, with back-to-back transfers, gaps and pauses of the slave. "
     "A failing target access gives an error for that transfer only, a slow target inserts wait states but loses and repeats nothing, and each access reaches the target set at that time.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "all transfers, strobes, memory sizes and kinds, widths, pauses and target failures",
     "The tests drive it by the library's own master with contiguous strobes; failing and slow targets are untested.",
     ["apb.py", "memory.py", "sparse_memory.py"],
     [("completer state machine", D + "apb.py:ApbSlave._run"), ("storage", D + "apb.py:ApbRam._write")],
     ["memory content", "pready, prdata and pslverr", "accesses seen by the target"],
     "model-based testing: generated transfers and target faults against a byte map", SIM)

# ---------------------------------------------------------------- memories
prop("M01", "Every memory class is a byte array of its size",
     "For any sequence of operations (byte, word, double-word, quad-word, any word size and byte order, lists of these, indexing and slices), a memory returns what was last written to each byte, and zero where nothing was, at any size up to and beyond the default and across internal block boundaries. "
     "Accesses outside a sparse memory or a region are refused without effect, and an object passed as storage is shared, so that each sees the changes of the other.",
     ["inputs", "histories", "configurations"],
     "all operation sequences on sparse memories, memory regions, sparse regions and RAM memories of any size",
     "Memories are touched by tests only through bus transfers near address zero of default-size RAMs.",
     ["sparse_memory.py", "memory.py", "address_space.py"],
     [("sparse segments", D + "sparse_memory.py:SparseMemory"), ("word accessors", D + "memory.py:Memory"), ("word accessors", D + "address_space.py:MemoryInterface")],
     ["values returned", "memory content"],
     "stateful property-based testing against a byte map", PURE)

prop("M02", "Windows address exactly their part of the parent",
     "An access through a window, a window in a window, or an allocated window of a pool reads and writes exactly the bytes at the window's offset in its parent, with every accessor, and windows allocated from one pool never overlap or leave it. "
     "An access that does not fit in its window, or a window that does not fit in its parent, is refused and changes nothing. Windows and pools are of the type asked for.",
     ["inputs", "histories", "configurations"],
     "all trees of windows and pools over any memory, and all operations at, in and across their bounds",
     "No test uses windows beyond a few aligned accesses.",
     ["address_space.py", "buddy_allocator.py"],
     [("address translation", D + "address_space.py:Window"), ("range checks", D + "address_space.py:MemoryInterface.check_range"), ("allocation", D + "address_space.py:WindowPool.alloc_window")],
     ["values returned", "memory content", "absolute addresses"],
     "stateful property-based testing against a flat byte map", PURE)

prop("M03", "Address spaces route every byte to the region registered for it",
     "A read or write on an address space, possibly nested, reaches for each byte exactly the region registered at its address, at the right offset, also when the access spans several adjoining regions. "
     "An access that touches an unmapped byte is refused, a registration that overlaps an existing region is refused, a refused call leaves the map as it was, and a lookup lists the regions in its range by address.",
     ["inputs", "histories", "configurations"],
     "all maps of regions (adjoining, apart, translated, nested) and all accesses in, at and across region edges",
     "The tests use one or two aligned regions and accesses within one of them.",
     ["address_space.py"],
     [("routing and splitting", D + "address_space.py:AddressSpace.read"), ("routing and splitting", D + "address_space.py:AddressSpace.write"),
      ("overlap detection", D + "address_space.py:AddressSpace.find_regions"), ("registration", D + "address_space.py:AddressSpace.register_region")],
     ["values returned", "content of every region"],
     "stateful property-based testing against a map model", PURE)

prop("M04", "Allocations are inside the space, aligned and disjoint, and freed space returns",
     "Every block handed out by an allocator or pool lies inside the space, is at least as large as requested, is aligned to its size rounded up to a power of two, and overlaps no live block, for spaces of any size. "
     "Freeing makes the space allocatable again in full, allocation fails only if no suitable block is free, and invalid requests are refused without effect. Pools and regions are of the type asked for.",
     ["histories", "inputs", "configurations"],
     "all sequences of allocations, frees and invalid requests on spaces and minimum block sizes of any value",
     "The allocator is not exercised by any test beyond a few pool allocations.",
     ["buddy_allocator.py", "address_space.py"],
     [("buddy splitting and merging", D + "buddy_allocator.py:BuddyAllocator"), ("pool allocation", D + "address_space.py:Pool.alloc_region")],
     ["returned addresses", "exceptions"],
     "stateful property-based testing against the set of live blocks", PURE)

prop("M05", "A peripheral region makes one access to its object per request",
     "Each read or write of a peripheral region, directly or through windows, accessors or an address space, calls the object's read or write exactly once, with the address and length or data of the request, and returns its result, whether the object's functions are plain or asynchronous. "
     "A refused access does not reach the object, and an exception of the object reaches the caller.",
     ["inputs", "histories", "configurations"],
     "all requests and object kinds, with side effects on each access",
     "No test has a peripheral whose accesses have side effects.",
     ["address_space.py"],
     [("object access", D + "address_space.py:PeripheralRegion")],
     ["calls received by the object"],
     "property-based testing with a recording peripheral", PURE)

prop("M06", "Hex dumps show exactly the requested bytes at their addresses",
     "Every dump function prints, for any start, length, row size, offset and prefix, exactly the bytes of the requested range, each row labelled with its address and the matching printable text, without changing the data.",
     ["inputs"],
     "all data, ranges, row sizes, offsets and prefixes, through every dump function",
     "No test looks at a dump.",
     ["utils.py", "memory.py", "sparse_memory.py", "address_space.py"],
     [("formatting", D + "utils.py:hexdump_line")],
     ["printed or returned text"],
     "round-trip property-based testing: dumps parsed back", PURE)

# ---------------------------------------------------------------- streams
prop("S01", "Generated stream classes move every item once, in order and unchanged",
     "For any payload definition, any widths and any subset of connected optional signals, with or without valid or ready, a stream source drives exactly the items sent, once each and in order, and a sink or monitor receives exactly the items transferred, under any pauses, limits and timing. "
     "Absent optional signals take their defaults, and values are those of the cycle of the transfer.",
     ["configurations", "schedules", "inputs"],
     "all definitions of stream classes, signal subsets, pause and ready patterns",
     "Streams are tested only indirectly through AXI channels with fixed definitions and a few pause patterns.",
     ["stream.py"],
     [("class generation", D + "stream.py:define_stream"), ("driving", D + "stream.py:StreamSource._run"), ("receiving", D + "stream.py:StreamSink._run"), ("monitoring", D + "stream.py:StreamMonitor._run")],
     ["items on the wire and in the queues"],
     "property-based testing: generated stream classes against independent peers", SIM)

prop("S02", "Stream queues obey their limits, pause, clear and wait contracts",
     "For any history of sends, receives, pauses, clears and waits, count, empty, full, idle and active agree with the items really queued or in transfer, occupancy limits are never exceeded, and blocked callers are released as soon as there is room or data. "
     "A paused sink stops accepting within two edges and a paused source starts no new item, clearing drops exactly the queued items, and resuming loses nothing.",
     ["histories", "schedules"],
     "all histories of queue operations by concurrent tasks on a source and sink pair, with any limits",
     "The tests neither set limits on generic streams nor clear or query queues during traffic.",
     ["stream.py"],
     [("queue state", D + "stream.py:StreamBase"), ("send and pause", D + "stream.py:StreamSource"), ("receive and pause", D + "stream.py:StreamSink")],
     ["count(), empty(), full(), idle(), wait()", "transfers on the wire"],
     "stateful model-based testing of queue histories", SIM)

prop("X01", "AXI stream source and sink deliver every frame once, in order and unchanged",
     "For any frames (empty, partial last word, null bytes, wide symbols, scalar, per-byte or absent sidebands), any bus with any subset of optional signals, and any pauses, limits and gaps, the sink and any monitor receive exactly the frames sent, in order, equal after dropping null bytes and reducing constant sidebands. "
     "Start and end times of a received frame are those of its first and last transfer, and of a sent frame those at which its first and last word were put on the bus (or the frame was taken from the queue, while paused); its completion is reported exactly once, at its end time.",
     ["inputs", "configurations", "schedules"],
     "all frame sequences, bus configurations, pause and ready patterns",
     "The tests send full-keep frames of a few lengths over a few widths with fixed pause patterns.",
     ["axis.py"],
     [("segmentation", D + "axis.py:AxiStreamSource._run"), ("reassembly", D + "axis.py:AxiStreamSink._run"), ("reassembly", D + "axis.py:AxiStreamMonitor._run"), ("compaction", D + "axis.py:AxiStreamFrame.compact")],
     ["received frames", "sim_time_start, sim_time_end, tx_complete"],
     "round-trip property-based testing of generated frames under generated stalls", SIM)

prop("X02", "AXI stream source and sink each agree with the protocol on the wire",
     "An independent receiver decodes from the wire exactly the frames given to a source, with last on the final word only, every word but the last full, and ID, destination and user values on the word of their bytes; a sink or monitor reconstructs any legal sequence of words (any keep pattern, sidebands, frame lengths) exactly as an independent decoder does. "
     "Idle and active flags agree with the transfer state.",
     ["inputs", "configurations", "schedules"],
     "all frames, all legal word sequences, all bus configurations and stall patterns",
     "The tests connect library source to library sink only, so symmetric errors cancel out and patterns the source never makes are not received.",
     ["axis.py"],
     [("segmentation", D + "axis.py:AxiStreamSource._run"), ("reassembly", D + "axis.py:AxiStreamSink._run"), ("reassembly", D + "axis.py:AxiStreamMonitor._run")],
     ["all stream signals at every clock edge", "received frames"],
     "differential property-based testing against an independent encoder and decoder", SIM)

prop("X03", "AXI stream queues obey their limits, pause, clear, read and wait contracts",
     "For any history of sends, receives, pauses, clears and waits, the frame and byte counts, empty, full and idle agree with the frames really queued or in transfer, a source or sink accepts new frames only while it is not over its limits, and blocked callers are released as soon as there is room or data. "
     "Reads by byte count return the received bytes in order with none lost, a paused sink stops within two edges, clearing drops exactly the queued frames and reports those dropped at the source as complete.",
     ["histories", "schedules"],
     "all histories of queue operations by concurrent tasks on a source and sink pair, with any frame and byte limits",
     "The tests use one fixed limit and never clear or query queues during traffic.",
     ["axis.py"],
     [("occupancy", D + "axis.py:AxiStreamBase"), ("limits", D + "axis.py:AxiStreamSource.full"), ("limits", D + "axis.py:AxiStreamSink.full"), ("byte reads", D + "axis.py:AxiStreamMonitor.read_nowait")],
     ["count(), empty(), full(), idle(), occupancy", "transfers on the wire"],
     "stateful model-based testing of queue histories", SIM)

prop("X04", "AXI stream frames normalise, compact and compare consistently",
     "Normalising a frame expands every sideband to one value per byte without changing its meaning, compacting it removes exactly the null bytes with their sidebands and reduces constant sidebands, both are idempotent, and neither changes what the other would give. "
     "Two frames are equal if and only if they have the same data, and agree on the keep, ID, destination and user values that both specify; conversion, length, iteration and copying agree with the data.",
     ["inputs"],
     "all frames with any combination of scalar, short, long or absent sidebands",
     "The tests build frames with default sidebands only.",
     ["axis.py"],
     [("frame algebra", D + "axis.py:AxiStreamFrame")],
     ["frame fields and comparison results"],
     "property-based testing: algebraic laws and a reference comparison", PURE)

# ---------------------------------------------------------------- reset
prop("R01", "A reset aborts outstanding operations of bus masters and leaves them usable",
     "When reset is asserted at any time, on either polarity, every outstanding operation of an AXI, AXI-Lite or APB master ends at once with no result, the bus goes quiet for the time of the reset, and no request or response of before has any effect afterwards. "
     "Operations issued during or after the reset complete normally and exactly once, and idle and wait functions agree with what is outstanding. For APB the same holds for assert_reset(), alone or overlapping the reset signal.",
     ["crash_points", "histories", "schedules"],
     "all times of one or several resets relative to any set of concurrent operations",
     "No test asserts reset while operations are outstanding.",
     ["reset.py", "axi_master.py", "axil_master.py", "apb.py", "stream.py"],
     [("reset detection", D + "reset.py:Reset"), ("flush", D + "axi_master.py:AxiMasterWrite._handle_reset"), ("flush", D + "axil_master.py:AxiLiteMasterWrite._handle_reset"), ("flush", D + "apb.py:ApbMaster._handle_reset")],
     ["results of operations", "bus signals", "idle()"],
     "fault-injection property testing: resets at generated times in generated histories", SIM)

prop("R02", "A reset returns slaves, RAMs and streams to a clean, usable state",
     "When reset is asserted at any time, slaves, sinks and sources drive no valid, ready or response while it lasts, forget transfers in progress, keep memory content written before, and handle all traffic after the reset as if new. "
     "No stale response, partial frame or item of the aborted transfer appears later, and frames queued at an AXI stream source but not started are still sent. Waiting for an idle source returns. For streams, AXI streams and APB the same holds for assert_reset(), alone or overlapping the reset signal.",
     ["crash_points", "histories", "schedules"],
     "all times of one or several resets relative to any traffic on AXI, AXI-Lite, APB slaves, AXI stream and generic stream components",
     "No test asserts reset during traffic.",
     ["reset.py", "axi_slave.py", "axil_slave.py", "apb.py", "stream.py", "axis.py"],
     [("reset detection", D + "reset.py:Reset"), ("restart", D + "axi_slave.py:AxiSlaveWrite._handle_reset"), ("restart", D + "stream.py:StreamBase._handle_reset"), ("restart", D + "axis.py:AxiStreamSource._handle_reset")],
     ["bus signals", "memory content", "received items and frames"],
     "fault-injection property testing: resets at generated times in generated traffic", SIM)

prop("C01", "Masters, slaves and address spaces compose into one coherent memory",
     "In any system built from the library's masters, RAMs, slaves with a target, address spaces, windows and shared memories, including chains in which a slave forwards to another master, every read returns the bytes most recently written by a completed write to the same location through any path, and all memory not written is unchanged. "
     "This holds with concurrent users of disjoint ranges, any pauses on any channel, and any widths and mixtures of AXI, AXI-Lite and APB, and every operation completes.",
     ["configurations", "histories", "schedules"],
     "all compositions of up to three buses, all users and ranges, all pause patterns",
     "The tests connect one master to one RAM of the same width and kind, with one user.",
     ["axi_master.py", "axi_slave.py", "axil_master.py", "axil_slave.py", "apb.py", "address_space.py", "axi_ram.py", "axil_ram.py"],
     [("masters as regions", D + "axi_master.py:AxiMaster"), ("slave forwarding", D + "axi_slave.py:AxiSlaveWrite._write"), ("routing", D + "address_space.py:AddressSpace.write")],
     ["results of reads", "memory content"],
     "model-based testing: generated systems and concurrent users against byte maps", SIM)

prop("P01", "Pausing stalls an endpoint exactly while it is paused",
     "For any schedule of pause assignments and pause generators, a paused source or APB master starts no transfer, and a paused sink or APB slave accepts or completes none from two clock edges after the pause on; nothing is lost, duplicated or withdrawn. "
     "An endpoint which is not paused never stalls by itself: a source with queued data starts the next one in the cycle after the previous transfer, a sink with room stays ready, and an APB transfer starts and completes. "
     "A pause generator is advanced exactly once per clock cycle from when it is set until it is exhausted, replaced or cleared, the pause attribute always has the value it gave last, and it stays at that value afterwards until changed.",
     ["schedules", "histories"],
     "all schedules of setting pause, setting, replacing, exhausting and clearing pause generators at any endpoint (generic streams, AXI streams, all AXI and AXI-Lite channels, APB masters and slaves), under any traffic",
     "The tests set one fixed cyclic generator per run and only check that data still arrives; a pause that is ignored, or a stall without a pause, does not change the data.",
     ["stream.py", "axis.py", "apb.py"],
     [("generators", D + "stream.py:StreamPause"), ("generators", D + "axis.py:AxiStreamPause"), ("generators", D + "apb.py:ApbPause"), ("source stalls", D + "stream.py:StreamSource._run"), ("sink stalls", D + "stream.py:StreamSink._run"),
      ("source stalls", D + "axis.py:AxiStreamSource._run"), ("sink stalls", D + "axis.py:AxiStreamSink._run"), ("APB stalls", D + "apb.py:ApbMaster._run"), ("APB stalls", D + "apb.py:ApbSlave._run")],
     ["valid and ready (psel, pready) at every clock edge", "pause attribute", "calls of the generator"],
     "stateful property-based testing: per-cycle stall rules and generator call counts", SIM)

prop("U01", "Buses bind to exactly the signals they name, however they are assembled",
     "A bus made with from_prefix, from_entity, from_channels or from its parts, with any prefix, separator or no prefix, with one name for all channels, different names for the write and read half or for each channel, and with any subset of the optional signals present, drives and samples exactly the signals of those names: "
     "all traffic of its master, subordinate, source, sink or monitor appears on them, and no other signal is ever changed, however similar its name. Write-only and read-only halves work on their own. "
     "An interface with a signal of a wrong or inconsistent width (fixed-width fields, strobe against data, response ID against request ID) is refused when the object is created.",
     ["configurations", "inputs"],
     "all protocols, all ways of building a bus, all naming schemes and subsets of optional signals, with and without full or half masters, slaves, RAMs and channel monitors",
     "The tests build every bus with from_prefix and one fixed prefix per port, on interfaces with all signals present and without other similarly named signals.",
     ["axi_channels.py", "axil_channels.py", "stream.py", "axis.py", "apb.py"],
     [("AXI buses", D + "axi_channels.py:AxiBus"), ("AXI-Lite buses", D + "axil_channels.py:AxiLiteBus"), ("APB bus", D + "apb.py:ApbBus"), ("AXI stream bus", D + "axis.py:AxiStreamBus"),
      ("signal lookup and width checks", D + "stream.py:StreamBase.__init__")],
     ["every signal of the design at every clock edge", "results and memory content"],
     "property-based testing: generated bus constructions with decoy signals, end to end and against passive monitors", SIM)

prop("I01", "Instances never influence each other and histories are repeatable",
     "Any number of masters, slaves, RAMs, stream sources, sinks and monitors on different signals, and of memories, allocators, address spaces and frames, can be used side by side: each behaves (every signal in every clock cycle, every result, every memory byte) exactly as it would alone under the same stimulus, "
     "including while others are paused, reset, report errors or are given the same data and frame objects. The same stimulus always produces the same history.",
     ["histories", "configurations", "schedules"],
     "all combinations of instances, including several of the same class with equal parameters, and all their histories",
     "Each test makes one device under test with one or two endpoints and starts a new simulation for each; state shared between instances (class attributes, default arguments, aliased frames and buffers) is invisible.",
     ["axi_master.py", "axil_master.py", "apb.py", "axi_slave.py", "stream.py", "axis.py", "memory.py", "sparse_memory.py", "address_space.py", "buddy_allocator.py", "reset.py"],
     [("per-instance state", D + "stream.py:StreamBase.__init__"), ("per-instance state", D + "axi_master.py:AxiMasterWrite.__init__"), ("frame copies", D + "axis.py:AxiStreamFrame.__init__"),
      ("default memory", D + "memory.py:Memory.__init__"), ("generated classes", D + "stream.py:define_stream")],
     ["all signals at every clock edge", "results of all operations", "memory content"],
     "metamorphic property-based testing: the same scripts simulated together and alone give identical traces", SIM)


prop("O01", "Observing a bus or object never disturbs it",
     "Traffic and results are the same, signal by signal and cycle by cycle, whether or not log output is on at any level, further monitors watch any stream or channel of the bus, further tasks wait for completion, "
     "or the state of endpoints, queues, frames and memories is queried or printed at any time, in traffic, while paused, blocked or in reset. Each further monitor reports every transfer of its channel exactly once, in order and with its values, however and whenever its queue is read.",
     ["histories", "configurations", "schedules"],
     "all observers (log levels, channel and stream monitors, waiters, queries at any cycle) of all traffic on AXI, AXI-Lite, APB and stream components",
     "Tests run with one fixed log level and one fixed set of observers, so a query, log statement or monitor with a side effect is either always there or never.",
     ["axi_master.py", "axil_master.py", "axi_slave.py", "axil_slave.py", "apb.py", "stream.py", "axis.py", "axi_channels.py", "axil_channels.py"],
     [("queries", D + "stream.py:StreamSource.idle"), ("passive reception", D + "stream.py:StreamMonitor._run"), ("waiting", D + "axi_master.py:AxiMasterWrite.wait"),
      ("log output of data", D + "axi_slave.py:AxiSlaveWrite._process_write"), ("frame inspection", D + "axis.py:AxiStreamFrame.__repr__")],
     ["all signals at every clock edge", "results of all operations", "items received by monitors"],
     "metamorphic property-based testing: the same script simulated observed and unobserved gives identical traces", SIM)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(d) + "\n")
    man = {"version": 1,
           "setup_cmd": "python3-vt -c 'import hypothesis'",
           "checks": [{"property": p["id"], "quick_cmd": f"python3-vt -m pbt.run {p['id']} quick",
                       "thorough_cmd": f"python3-vt -m pbt.run {p['id']} thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]} for p in PROPS if p["id"] in INDEX],
           "not_applicable": [{"property": p["id"], "reason": "its check is not finished"} for p in PROPS if p["id"] not in INDEX],
           "notes": "Generated by tools/gen_docs.py. Every check: property-based testing with Hypothesis on the real library code, in parallel shards, "
                    "seeded by VERIF_SEED; a violation is shrunk and written to replays/<id>-<part>.json, which 'python3-vt -m pbt.replay <file>' runs again."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
