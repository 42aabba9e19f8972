"""Random histories of queue operations on a stream source/sink pair, against a counting model.

Shared by S02 (define_stream) and X03 (AXI stream).  An adapter supplies the objects:

  make(sim) -> (src, snk, wires) where wires has .v, .r (nets) and .mon (Channel)
  new(i)    -> (object to send, list of wire beats, size)
  got(obj)  -> canonical received value;  want(i) -> canonical value item i must arrive as
  limits(src, snk), src_full(frames, bytes), snk_full(frames, bytes)
  strict    -> limit is never exceeded (False: by at most one item)
  preload   -> an item may leave the queue one edge before its first beat is on the bus
  reads     -> the sink has read() and read_nowait(); data(i) -> the data item i adds to them, and
               new(i, null) -> item i with (null=0) or without data
  done      -> list of (serial, end time, beats accepted at that moment), or None
"""

from hypothesis import strategies as st

import cocotb
from cocotb.queue import QueueEmpty, QueueFull
from cocotb.triggers import RisingEdge, Timer

from .core import require

ACT = st.one_of(
    st.tuples(st.just("snd"), st.integers(1, 4)), st.tuples(st.just("snd"), st.sampled_from([1, 2, 3, 4, 12])), st.tuples(st.just("asnd"), st.integers(1, 3)),
    st.tuples(st.just("rcv"), st.integers(1, 3)), st.tuples(st.just("rcv"), st.sampled_from([1, 2, 3, 10])), st.tuples(st.just("arcv"), st.integers(1, 2)),
    st.tuples(st.just("spause"), st.integers(0, 1)), st.tuples(st.just("kpause"), st.integers(0, 1)),
    st.tuples(st.just("sclear"), st.just(0)), st.tuples(st.just("kclear"), st.just(0)), st.tuples(st.just("swait"), st.just(0)),
    st.tuples(st.just("kwait"), st.one_of(st.integers(0, 3), st.sampled_from([11, 12, 22, 23, 32, 33, 56]))), st.tuples(st.just("kread"), st.sampled_from([-1, 0, 1, 3, 40])))

acts = st.lists(st.tuples(ACT, st.sampled_from([0, 0, 1, 1, 2, 3, 8]), st.booleans()).map(
    lambda t: [t[0][0], t[0][1], t[1], int(t[2])]), min_size=2, max_size=30)


async def history(sim, ad, actions, labels):
    edge = RisingEdge(sim.dut.clk)
    src, snk, vn, rn, mon = ad.make(sim)
    ad.limits(src, snk)
    order = []             # serials in the order in which they entered the source queue
    dropped = set()
    taken = []             # values taken from the sink, in order
    arrived = []           # serials completely transferred (by the wire)
    kcleared = []          # [from, to) ranges of arrivals dropped by sink.clear()
    s = {"k": 0, "kdrop": 0, "ppaused": None, "kpedge": None, "preload": False, "half": False,
         "kroom": 0, "pwork": 0, "proom": 0, "sblocked": 0, "rblocked": 0, "rdata": 0, "rbuf": [],
         "arr": 0, "arr_prev": 0}
    tasks, rtasks = [], []
    beats = {}
    size = {}

    def rsize(i):
        return ad.rsize(i) if hasattr(ad, "rsize") else size[i]

    def live():
        return [i for i in order if i not in dropped]

    def transfers():
        return len(mon.log)

    def started():
        """(items of which a beat is or was on the bus, beats of the last one still to be put on the bus)"""
        n = transfers() + vn.v
        c = 0
        for i in live():
            if n <= 0:
                break
            n -= len(beats[i])
            c += 1
        return c, -n

    def n_arrived():
        n = transfers()
        c = 0
        for i in live():
            n -= len(beats[i])
            if n < 0:
                break
            c += 1
        return c

    def sink_items():
        a = n_arrived()
        lv = live()
        k = a - len(taken) - s["kdrop"]
        return k, lv[a - k:a] if k > 0 else []

    def settle():
        """Mid-cycle: nothing is in motion."""
        lv = live()
        c, _ = started()
        n = len(lv) - c
        cnt = src.count()
        if ad.preload and cnt == n - 1 and s["preload"]:
            c, n = c + 1, n - 1
        require(cnt == n, "source holds %d items, expected %d", cnt, n)
        require(src.empty() == (n == 0), "source.empty() is %s with %d items", src.empty(), n)
        nb = sum(size[i] for i in lv[c:])
        require(src.full() == ad.src_full(n, nb), "source.full() is %s with %d items, %d bytes", src.full(), n, nb)
        if ad.strict:
            require(n == 0 or not ad.src_full(n - 1, nb - size[lv[-1]]), "source holds %d items, more than its limit", n)
        ad.occupancy(src, n, nb, "source")
        k, q = sink_items()
        require(snk.count() == k, "sink holds %d items, expected %d", snk.count(), k)
        require(snk.empty() == (k == 0), "sink.empty() is %s with %d items", snk.empty(), k)
        kb = sum(rsize(i) for i in q)
        require(snk.full() == ad.snk_full(k, kb), "sink.full() is %s with %d items, %d bytes", snk.full(), k, kb)
        if k:
            require(not ad.snk_full(k - 1, kb - rsize(q[-1])), "sink holds %d items / %d bytes: accepted one although full", k, kb)
        ad.occupancy(snk, k, kb, "sink")
        if src.idle():
            require(n == 0 and not vn.v, "source idle with %d items queued, valid %d", n, vn.v)
        elif n == 0 and not vn.v:
            require(len(lv) > c or s["preload"], "source not idle although nothing is queued and valid is low")
        if s["ppaused"] is not None:
            tot = transfers() + vn.v
            if s["ppaused"] < 0:
                s["ppaused"] = tot
            require(tot == s["ppaused"], "a transfer was started although the source is paused")

    def on_edge():
        s["arr_prev"], s["arr"] = s["arr"], n_arrived()
        # nobody waits although there is room, work or data
        s["kroom"] = s["kroom"] + 1 if vn.v and not rn.v and not snk.pause and not snk.full() else 0
        require(s["kroom"] <= 3, "a sink with room that is not paused accepts nothing for %d edges", s["kroom"])
        s["pwork"] = s["pwork"] + 1 if not vn.v and not src.pause and not src.empty() else 0
        require(s["pwork"] <= 3, "a source with queued items that is not paused starts none for %d edges", s["pwork"])
        s["proom"] = s["proom"] + 1 if s["sblocked"] and not src.full() else 0
        require(s["proom"] <= 3, "send() still blocked %d edges after there was room", s["proom"])
        s["rdata"] = s["rdata"] + 1 if s["rblocked"] and not snk.empty() else 0
        require(s["rdata"] <= 3, "recv() still blocked %d edges after an item arrived", s["rdata"])
        if vn.v and rn.v and s["kpedge"] is not None:
            require(sim.cycle <= s["kpedge"] + 2, "transfer accepted %d edges after the sink was paused", sim.cycle - s["kpedge"])
        if src.pause:
            s["preload"] = True
        elif vn.v:
            s["preload"] = False
    sim.on_sample(on_edge)

    async def mid():
        if not s["half"]:
            await Timer(2, "ns")
            s["half"] = True

    def new(*kind):
        i = s["k"]
        s["k"] += 1
        obj, beats[i], size[i] = ad.new(i, *kind)
        return i, obj

    async def sender(n):
        for _ in range(n):
            i, obj = new()
            s["sblocked"] += 1
            await src.send(obj)
            s["sblocked"] -= 1
            order.append(i)
            ad.after_send(obj)

    async def receiver(n):
        for _ in range(n):
            s["rblocked"] += 1
            x = await snk.recv()
            s["rblocked"] -= 1
            taken.append(ad.got(x))

    async def swait():
        mine = list(order)
        await src.wait()
        await Timer(1, "ns")
        a = set(live()[:n_arrived()])
        left = [i for i in mine if i not in dropped and i not in a]
        require(not left, "source.wait() returned before %d items were transferred", len(left))

    async def kwait(arg):
        t0, had, a0 = sim.now, sink_items()[0] > 0, n_arrived()
        # the last digit is the timeout in clock cycles, the first one the unit
        unit, arg = arg // 10, arg % 10
        if not arg:
            await snk.wait()
        else:
            if unit == 1:
                await snk.wait(arg * 10)      # default unit (the simulation step is 1 ns)
            else:
                k, u = {0: (10, "ns"), 2: (10000, "ps"), 3: (0.01, "us"), 5: (10, "step")}[unit]
                await snk.wait(arg * k, u)
            require(sim.now <= t0 + arg * 10, "sink.wait(%d ns) took %d ns", arg * 10, sim.now - t0)
            if sim.now == t0 + arg * 10:
                labels.add("wait timed out")
                require(s["arr_prev"] <= a0, "sink.wait() returned after its timeout of %d ns although something had arrived", arg * 10)
        if not arg or sim.now < t0 + arg * 10:
            t1 = sim.now
            await Timer(1, "ns")
            require(had or n_arrived() > a0, "sink.wait() returned at %d (called at %d) although nothing arrived", t1, t0)

    for act, arg, gap, half in actions:
        for _ in range(gap):
            await edge
            s["half"] = False
        if half:
            await mid()
            settle()
        if act == "snd":
            for _ in range(arg):
                full = src.full()
                i, obj = new()
                try:
                    src.send_nowait(obj)
                except QueueFull:
                    require(full, "QueueFull although the queue is not full")
                    labels.add("QueueFull")
                    break
                order.append(i)
                ad.after_send(obj)
                require(not full, "send_nowait accepted an item although the queue is full")
        elif act == "asnd":
            if src.full():
                labels.add("send() blocked")
            tasks.append(cocotb.start_soon(sender(arg)))
        elif act == "rcv":
            for _ in range(arg):
                e = snk.empty()
                try:
                    x = snk.recv_nowait()
                except QueueEmpty:
                    require(e, "QueueEmpty although items are queued")
                    break
                taken.append(ad.got(x))
                require(not e, "recv_nowait returned an item from an empty queue")
        elif act == "arcv":
            rtasks.append(cocotb.start_soon(receiver(arg)))
        elif act == "spause":
            src.pause = bool(arg)
            s["preload"] = True
            if not arg:
                s["ppaused"] = None
            elif s["ppaused"] is None:
                s["ppaused"] = -1
            labels.add("pause")
        elif act == "kpause":
            snk.pause = bool(arg)
            if not arg:
                s["kpedge"] = None
            elif s["kpedge"] is None:
                s["kpedge"] = sim.cycle
            labels.add("pause")
        elif act == "sclear":
            await mid()
            c, _ = started()
            lv = live()
            n = src.count()
            gone = lv[len(lv) - n:]
            require(len(lv) - n in ((c, c + 1) if ad.preload and s["preload"] else (c,)), "source holds %d of %d items", n, len(lv) - c)
            nd = len(ad.done) if ad.done is not None else 0
            src.clear()
            if ad.done is not None:
                require([x[0] for x in ad.done[nd:]] == gone, "clear() completed items %s, expected %s", ad.done[nd:], gone)
            dropped.update(gone)
            require(src.empty() and src.count() == 0, "source not empty after clear()")
            ad.occupancy(src, 0, 0, "source")
            labels.add("source cleared")
            if vn.v:
                labels.add("cleared during a transfer")
        elif act == "kclear":
            await mid()
            k, _ = sink_items()
            a = n_arrived()
            kcleared.append((a - k, a))
            s["kdrop"] += k
            snk.clear()
            require(snk.empty() and snk.count() == 0, "sink not empty after clear()")
            ad.occupancy(snk, 0, 0, "sink")
            labels.add("sink cleared")
        elif act == "kread":
            if ad.reads:
                await mid()
                k, q = sink_items()
                a = n_arrived()
                kcleared.append((a - k, a))
                s["kdrop"] += k
                for i in q:
                    s["rbuf"] += ad.data(i)
                n = len(s["rbuf"]) if arg < 0 else arg
                x = list(snk.read_nowait(arg))
                require(x == s["rbuf"][:n], "read_nowait(%d) returned %s, received data is %s", arg, x, s["rbuf"])
                del s["rbuf"][:n]
                ad.occupancy(snk, 0, 0, "sink")
                labels.add("read")
        elif act == "swait":
            tasks.append(cocotb.start_soon(swait()))
        elif act == "kwait":
            (tasks if arg % 10 else rtasks).append(cocotb.start_soon(kwait(arg)))
        if s["half"]:
            await edge
            s["half"] = False
    # run everything out
    src.pause = False
    snk.pause = False
    s["ppaused"] = s["kpedge"] = None
    quiet = 0
    if mon.n_stall:
        labels.add("backpressure")
    while quiet < 12:
        await edge
        await Timer(2, "ns")
        settle()
        if not snk.empty():
            taken.append(ad.got(snk.recv_nowait()))
            quiet = 0
        quiet += 1
        if not src.idle() or src.full():
            quiet = 0
    await src.wait()
    for t in tasks:
        require(t.done(), "a send() or wait() never returned although everything was transferred")
    lv = live()
    wire = [x for _, x in mon.log]
    want = [b for i in lv for b in beats[i]]
    require(len(wire) == len(want), "%d beats on the wire, expected %d", len(wire), len(want))
    for k, (a, b) in enumerate(zip(wire, want)):
        require(all(a[f] == b[f] for f in a), "beat %d on the wire is %s, expected %s", k, a, b)
    keep = [ad.want(i) for k, i in enumerate(lv) if not any(a <= k < b for a, b in kcleared)]
    require(taken == keep, "items received: %s\nexpected: %s", taken, keep)
    if ad.done is not None:
        ids = [x[0] for x in ad.done]
        require(sorted(ids) == sorted(order), "completion reported for %s, items sent %s", ids, order)
        require([i for i in ids if i not in dropped] == lv, "completions out of order: %s", ids)
        pre = 0
        at = {x[0]: x for x in ad.done}
        for i in lv:
            pre += len(beats[i])
            require(at[i][1] >= pre - 1, "item %d reported complete after %d of its beats", i, at[i][1] - pre + len(beats[i]))
    # every receiver that is still blocked is served by new items
    left = [t for t in rtasks if not t.done()]
    while left:
        i, obj = new()
        n0 = len(taken)
        await src.send(obj)
        order.append(i)
        for _ in range(10 + len(beats[i])):
            await edge
        if not snk.empty():
            snk.recv_nowait()
        now = [t for t in left if not t.done()]
        require(len(now) < len(left) or len(taken) > n0, "recv() or wait() stays blocked although items arrive")
        left = now
        labels.add("blocked receiver")
    if ad.reads:
        require(list(snk.read_nowait()) == s["rbuf"], "bytes left over from earlier reads are lost")
        # a blocking read returns at the first data, not at a frame without data
        data, res = [], []

        async def reader():
            res.append(list(await snk.read(ad.case["rcount"])))
        cocotb.start_soon(reader())
        for null in (1, 0):
            i, obj = new(null)
            data += ad.data(i)
            await src.send(obj)
            for _ in range(12 + len(beats[i])):
                await edge
            require(bool(res) == bool(data), "read() %s with %d bytes received", "returned" if res else "is still blocked", len(data))
            if data:
                break
            labels.add("frame without data")
        n = len(data) if ad.case["rcount"] < 0 else ad.case["rcount"]
        require(res[0] == data[:n], "read(%d) returned %s, received data is %s", ad.case["rcount"], res[0], data)
        require(list(snk.read_nowait()) == data[n:], "bytes left over from read() are lost")
