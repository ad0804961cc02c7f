"""C16: a connection's session always ends completely, whatever ends it."""

import asyncio
import logging

from mc.core import Check, Prune, expect, expect_eq
from mc.vloop import pending_tasks, run_loop


class Boom(Exception):
    """Raised by handlers."""


class Raw(asyncio.Protocol):
    """A scripted peer."""

    def __init__(self) -> None:
        self.buffer = b""
        self.transport = None
        self.lost = False

    def connection_made(self, transport) -> None:
        self.transport = transport

    def data_received(self, data) -> None:
        self.buffer += bytes(data)

    def connection_lost(self, exc) -> None:
        self.lost = True


def build(tier: str) -> Check:
    """Build the check."""
    import websockets
    from websockets.exceptions import ConnectionClosedOK

    from runtimepy.net.connection import Connection
    from runtimepy.net.tcp.connection import TcpConnection
    from runtimepy.net.udp.connection import UdpConnection
    from runtimepy.net.websocket.connection import WebsocketConnection

    del websockets
    thorough = tier == "thorough"
    check = Check(
        "C16",
        tier,
        kind="model_checking",
        rule=(
            "every combination of incoming messages, handler behaviors "
            "(accept, reject, raise, slow) and initialization behaviors with "
            "every way of ending a session, at every time and at every step "
            "of the scheduler, for stream, datagram, queue based and "
            "websocket connections"
        ),
        bounds={"messages": 2, "sessions": 1},
    )

    class Tracked:
        """Records what happens to a connection."""

        plan: list = []
        init_plan = "ok"

        def init(self):
            self.started = []
            self.finished = []
            self.late = []
            self.extra = 0
            self.inits = 0

        def disable_extra(self):
            self.extra += 1

        async def async_init(self):
            self.inits += 1
            kind = self.init_plan
            if kind.startswith("slow"):
                await asyncio.sleep(0.75)
            if kind.endswith("raise"):
                raise Boom("init")
            return not kind.endswith("false")

        async def handle(self, data):
            if self.disabled:
                self.late.append(data)
            idx = len(self.started)
            self.started.append(data)
            kind = self.plan[idx] if idx < len(self.plan) else "ok"
            if kind.startswith("slow"):
                await asyncio.sleep(0.5)
            if kind.endswith("raise"):
                raise Boom("handler")
            self.finished.append(data)
            return not kind.endswith("false")

    class Tcp(Tracked, TcpConnection):
        """A stream connection."""

        async def process_binary(self, data):
            return await self.handle(bytes(data))

    class Udp(Tracked, UdpConnection):
        """A datagram connection."""

        async def process_datagram(self, data, addr):
            expect_eq(tuple(addr), ("127.0.0.1", 7), "address")
            return await self.handle(bytes(data))

    class Queued(Tracked, Connection):
        """A connection that uses the transmit queues."""

        fail_send = None

        def init(self):
            super().init()
            self.inbox = asyncio.Queue()
            self.outbox = []
            self.closed = 0

        async def process_text(self, data):
            return await self.handle(data.encode())

        async def process_binary(self, data):
            return await self.handle(bytes(data))

        async def _await_message(self):
            return await self.inbox.get()

        async def _send_text_message(self, data):
            await asyncio.sleep(0)
            if data == self.fail_send:
                raise Boom("send")
            self.outbox.append(data)

        async def _send_binay_message(self, data):
            await asyncio.sleep(0)
            self.outbox.append(bytes(data))

        async def close(self):
            self.closed += 1

    class FakeWs:
        """A websocket protocol stand-in."""

        def __init__(self):
            self.logger = logging.getLogger("fake-ws")
            self.inbox = asyncio.Queue()
            self.outbox = []
            self.closed = 0

        async def recv(self):
            data = await self.inbox.get()
            if data is None:
                raise ConnectionClosedOK(None, None)
            return data

        async def send(self, data):
            if self.closed:
                raise ConnectionClosedOK(None, None)
            await asyncio.sleep(0)
            self.outbox.append(data)

        async def close(self):
            self.closed += 1

    class Ws(Tracked, WebsocketConnection):
        """A websocket connection."""

        async def process_text(self, data):
            return await self.handle(data.encode())

        async def process_binary(self, data):
            return await self.handle(bytes(data))

    class Rig:
        """A connection and what drives it."""

        def __init__(self, loop, kind):
            self.loop = loop
            self.kind = kind
            self.dropped = False

        async def start(self):
            if self.kind == "tcp":
                self.raws = []

                def factory():
                    self.raws.append(Raw())
                    return self.raws[-1]

                server = self.loop.net.listen(factory, "127.0.0.1", 0)
                self.conn = await Tcp.create_connection(
                    host="127.0.0.1",
                    port=server.sockets[0].getsockname()[1],
                )
                self.trans = self.loop.net.tcp[0][0]
            elif self.kind == "udp":
                self.conn = await Udp.create_connection(
                    local_addr=("127.0.0.1", 9), connect=False
                )
                self.trans = self.loop.net.udp[("127.0.0.1", 9)]
            elif self.kind == "queued":
                self.conn = Queued(logging.getLogger("queued"))
            else:
                self.ws = FakeWs()
                self.conn = Ws(self.ws)
            return self.conn

        def feed(self, data: bytes):
            if self.kind == "tcp":
                if not self.trans.closing:
                    self.trans.feed(data)
            elif self.kind == "udp":
                self.trans.feed(data, ("127.0.0.1", 7))
            elif self.kind == "queued":
                self.conn.inbox.put_nowait(data)
            else:
                self.ws.inbox.put_nowait(data)

        def drop(self, error: bool):
            self.dropped = True
            if self.kind == "tcp":
                self.trans.drop(OSError("reset") if error else None)
            elif self.kind == "udp":
                self.trans.error(OSError("refused"))
            elif self.kind == "queued":
                self.conn.inbox.put_nowait(None)
            else:
                self.ws.inbox.put_nowait(None)

        @property
        def closed(self):
            if self.kind == "tcp":
                return self.trans.closing
            if self.kind == "udp":
                return self.trans.closing
            if self.kind == "queued":
                return self.conn.closed == 1
            return self.ws.closed == 1

    def check_end(rig, stats):
        conn = rig.conn
        del stats
        expect(conn.disabled, "still enabled")
        expect(conn.disabled_event.is_set(), "disabled event")
        expect(conn.exited.is_set(), "exited event")
        expect(rig.closed, "transport left open")
        expect_eq(conn.extra, 1, "disable hook calls")
        expect_eq(conn.late, [], "messages handled when disabled")
        expect_eq(list(conn.tasks), [], "tasks left")
        expect_eq(conn.env.value("enabled"), False, "enabled channel")

    # What ends a session, at distinct times.
    ENDS = ["none", "disable", "drop", "drop-error", "stop", "timed"]
    ITEMS = ["ok", "false", "raise", "slow", "slow-false", "slow-raise"]
    INITS = ["ok", "false", "raise", "slow", "slow-false", "slow-raise"]

    def session(kind: str):
        def run(chooser, stats):
            init_plan = chooser.pick(INITS)
            plan = [chooser.pick(ITEMS) for _ in range(2)]
            end = chooser.pick(ENDS)
            times = [0.1, chooser.pick([0.1, 0.3, 1.0])]
            end_at = 0.0
            if end != "none":
                end_at = chooser.pick([0.05, 0.2, 0.45, 0.9, 2.0])
            if end == "drop-error" and kind in ("queued", "ws"):
                raise Prune

            # Reference: what ends the session, when handlers start.
            why = []
            if init_plan not in ("ok", "slow"):
                why.append(0.75 if "slow" in init_plan else 0.0)
            events = [(times[i], 0, plan[i]) for i in range(2)]
            if end == "drop" and kind in ("queued", "ws"):
                # Seen when it's read.
                events.append((end_at, 1, "drop"))
            elif end != "none":
                why.append(end_at)
            clock = 0.0
            started = []
            for when, _, item in sorted(events, key=lambda x: x[:2]):
                clock = max(clock, when)
                if item == "drop":
                    why.append(clock)
                    break
                started.append((clock, len(started)))
                if "slow" in item:
                    clock += 0.5
                if "false" in item or "raise" in item:
                    why.append(clock)
                    break
            if not why:
                why.append(5.0)
                end = "final"
            finish = min(why)
            must = [i for when, i in started if when < finish - 1e-6]
            may = [i for when, i in started if when <= finish + 1e-6]

            async def main(loop):
                rig = Rig(loop, kind)
                conn = await rig.start()
                zero = loop.time()
                conn.plan = plan
                conn.init_plan = init_plan
                stop = asyncio.Event()
                before = set(asyncio.all_tasks(loop))
                waiters = [
                    loop.create_task(conn.initialized.wait()),
                    loop.create_task(conn.disabled_event.wait()),
                ]
                side = loop.create_task(asyncio.sleep(100.0))
                if hasattr(conn, "_conn_tasks"):
                    conn._conn_tasks.append(side)
                else:
                    side.cancel()
                kwargs = {"stop_sig": stop}
                if end == "timed":
                    kwargs["disable_time"] = end_at
                elif end != "stop":
                    kwargs.pop("stop_sig")
                task = loop.create_task(conn.process(**kwargs))
                for idx in range(2):
                    loop.call_later(times[idx], rig.feed, b"%d" % idx)
                if end == "disable":
                    loop.call_later(end_at, conn.disable, "test")
                elif end in ("drop", "drop-error"):
                    loop.call_later(end_at, rig.drop, end == "drop-error")
                elif end == "stop":
                    loop.call_later(end_at, stop.set)
                elif end == "final":
                    loop.call_later(5.0, conn.disable, "final")
                done, _ = await asyncio.wait([task], timeout=30.0)
                expect(done, "session never ended", end)
                task.result()
                expect(
                    abs(loop.time() - zero - finish) < 1e-6,
                    "session ended late",
                    loop.time() - zero,
                    finish,
                )
                check_end(rig, stats)
                conn.disable("again")
                stop.set()
                expect_eq(conn.extra, 1, "disable hook calls")
                names = [b"%d" % x for x in may]
                expect_eq(conn.started, names[: len(conn.started)], "handled")
                expect(
                    len(conn.started) >= len(must),
                    "messages not handled",
                    conn.started,
                    must,
                )
                expect_eq(conn.inits, 1, "initializations")
                await asyncio.sleep(0.01)
                for waiter in waiters:
                    expect(waiter.done(), "waiter was never woken", end)
                expect(side.done(), "connection's task left running")
                left = [
                    x
                    for x in asyncio.all_tasks(loop)
                    if x not in before and not x.done()
                ]
                expect_eq([str(x) for x in left], [], "tasks left running")
                if kind == "tcp" and not rig.dropped:
                    expect(rig.raws[0].lost, "peer wasn't disconnected")
                stats.step(4)
                stats.state((kind, init_plan, plan, end, finish))
                stats.outcome((kind, init_plan, plan, end, finish))
                return conn.started

            return run_loop(main)[1]

        return run

    for kind in ("tcp", "udp", "queued", "ws"):
        check.add(f"session/{kind}", session(kind), split=3, replay_every=499)

    # Disabling at every step of the scheduler.
    def stepwise(kind: str):
        def run(chooser, stats):
            how = chooser.pick(["disable", "drop", "stop"])
            init_plan = chooser.pick(["ok", "slow"])
            plan = [chooser.pick(["ok", "slow", "false"]) for _ in range(2)]
            burst = chooser.pick([False, True])
            at = chooser.choose(18)
            state = {"armed": None, "count": 0}

            def on_step(loop, idle):
                del idle
                if state["armed"] is None or state["count"] is None:
                    return False
                if state["count"] == at:
                    state["count"] = None
                    state["armed"]()
                    return False
                state["count"] += 1
                return False

            async def main(loop):
                rig = Rig(loop, kind)
                conn = await rig.start()
                conn.plan = plan
                conn.init_plan = init_plan
                stop = asyncio.Event()
                waiter = loop.create_task(conn.initialized.wait())
                before = set(asyncio.all_tasks(loop))
                task = loop.create_task(conn.process(stop_sig=stop))
                await asyncio.sleep(0)
                if how == "disable":
                    state["armed"] = lambda: conn.disable("x")
                elif how == "drop":
                    state["armed"] = lambda: rig.drop(False)
                else:
                    state["armed"] = stop.set
                if burst:
                    rig.feed(b"0")
                    rig.feed(b"1")
                else:
                    await asyncio.sleep(0)
                    rig.feed(b"0")
                    await asyncio.sleep(0)
                    rig.feed(b"1")
                for _ in range(8):
                    await asyncio.sleep(0.4)
                if state["count"] is not None:
                    state["armed"]()
                await asyncio.sleep(3.0)
                expect(task.done(), "session never ended")
                task.result()
                check_end(rig, stats)
                expect(waiter.done(), "waiter was never woken")
                expect_eq(
                    conn.started, [b"0", b"1"][: len(conn.started)], "handled"
                )
                expect_eq(conn.late, [], "handled when disabled")
                left = [
                    x
                    for x in asyncio.all_tasks(loop)
                    if x not in before and not x.done()
                ]
                expect_eq([str(x) for x in left], [], "tasks left running")
                stats.step(3)
                stats.state((kind, how, at, init_plan, plan, conn.started))
                stats.outcome((kind, how, at, init_plan, plan, conn.started))
                return conn.started

            return run_loop(main, on_step=on_step)[1]

        return run

    for kind in ("tcp", "udp", "queued", "ws"):
        check.add(f"stepwise/{kind}", stepwise(kind), split=3)

    # Outgoing messages are sent in order, once, and failures end the session.
    def sending(chooser, stats):
        kind = chooser.pick(["tcp", "udp", "queued", "ws"])
        plan = [
            chooser.pick(["text", "binary", "wait", "text2"])
            for _ in range(5 if thorough else 4)
        ]
        fail = chooser.pick([None, "t0", "t1"])
        if kind != "queued":
            fail = None

        async def main(loop):
            rig = Rig(loop, kind)
            conn = await rig.start()
            if kind == "queued":
                conn.fail_send = fail
            if kind == "udp":
                conn.set_remote_address(
                    __import__(
                        "runtimepy.net", fromlist=["normalize_host"]
                    ).normalize_host("127.0.0.1", 7)
                )
            task = loop.create_task(conn.process())
            await asyncio.sleep(0.01)
            texts, bins = [], []
            for num, step in enumerate(plan):
                if step == "wait":
                    await asyncio.sleep(0.1)
                elif step == "binary":
                    conn.send_binary(b"b%d" % num)
                    bins.append(b"b%d" % num)
                else:
                    data = f"t{num}" + ("\u20ac" if step == "text2" else "")
                    conn.send_text(data)
                    texts.append(data)
            await asyncio.sleep(1.0)
            if fail in texts:
                expect(conn.disabled, "enabled though sending failed")
                await asyncio.sleep(1.0)
                expect(task.done(), "session never ended")
                check_end(rig, stats)
                stats.state((kind, plan, fail))
                stats.outcome((kind, plan, fail))
                return None
            expect(not conn.disabled, "disabled")
            if kind == "tcp":
                want = b"".join(
                    (
                        b"b%d" % n
                        if x == "binary"
                        else (f"t{n}" + ("\u20ac" * (x == "text2"))).encode()
                    )
                    for n, x in enumerate(plan)
                    if x != "wait"
                )
                expect_eq(rig.raws[0].buffer, want, "sent")
                size = len(want)
            elif kind == "udp":
                want = [
                    (
                        b"b%d" % n
                        if x == "binary"
                        else (f"t{n}" + ("\u20ac" * (x == "text2"))).encode(),
                        ("127.0.0.1", 7),
                    )
                    for n, x in enumerate(plan)
                    if x != "wait"
                ]
                expect_eq(rig.trans.sent, want, "sent")
            else:
                box = conn.outbox if kind == "queued" else rig.ws.outbox
                expect_eq(
                    [x for x in box if isinstance(x, str)], texts, "texts"
                )
                expect_eq(
                    [x for x in box if not isinstance(x, str)], bins, "binary"
                )
            conn.disable("done")
            await task
            check_end(rig, stats)
            stats.step(len(plan))
            stats.state((kind, plan, fail))
            stats.outcome((kind, plan, fail))
            return plan

        return run_loop(main)[1]

    check.add("sending", sending, split=2)

    # Several sessions at once are independent.
    def nested(chooser, stats):
        kinds = [chooser.pick(["tcp", "udp", "queued", "ws"]) for _ in "ab"]
        first = chooser.pick([0.2, 0.4])
        fails = chooser.pick([True, False])

        async def main(loop):
            rigs = [Rig(loop, kinds[0])]
            await rigs[0].start()
            if kinds[1] != kinds[0]:
                rigs.append(Rig(loop, kinds[1]))
                await rigs[1].start()
            rigs[0].conn.plan = ["raise" if fails else "ok"]
            async with rigs[0].conn.process_then_disable():
                tasks = [
                    loop.create_task(x.conn.process()) for x in rigs[1:]
                ]
                await asyncio.sleep(first)
                rigs[0].feed(b"0")
                await asyncio.sleep(0.1)
                expect_eq(rigs[0].conn.disabled, fails, "disabled")
                for rig in rigs[1:]:
                    rig.feed(b"1")
                    await asyncio.sleep(0.1)
                    expect(not rig.conn.disabled, "other was disabled")
                    expect_eq(rig.conn.started, [b"1"], "handled by other")
            check_end(rigs[0], stats)
            for rig, task in zip(rigs[1:], tasks):
                expect(not task.done(), "other session ended")
                rig.conn.disable("done")
                await task
                check_end(rig, stats)
            expect_eq(len(pending_tasks(loop)), 1, "tasks left")
            stats.step(3)
            stats.state((kinds, first, fails))
            stats.outcome((kinds, first, fails))

        return run_loop(main)[1]

    check.add("nested", nested)

    # Sessions that last as long as a context (that may end at once).
    def context(chooser, stats):
        kind = chooser.pick(["tcp", "udp", "queued", "ws"])
        body = chooser.pick(["return", "raise", "cancel"])
        delay = chooser.pick([None, "step", "steps", 0.3])
        given = chooser.pick([False, True])
        stopped = given and chooser.pick([False, True])
        # Streams and datagram sockets can be opened again.
        uses = chooser.pick([1, 2] if kind in ("tcp", "udp") else [1])

        async def main(loop):
            rig = Rig(loop, kind)
            conn = await rig.start()
            entered = []

            async def use(last):
                stop = asyncio.Event()
                if stopped and last:
                    stop.set()
                kwargs = {"stop_sig": stop} if given else {}
                async with conn.process_then_disable(**kwargs):
                    entered.append(last)
                    if not last or isinstance(delay, float):
                        await asyncio.sleep(delay if last else 0.5)
                    elif delay is not None:
                        for _ in range(1 if delay == "step" else 4):
                            await asyncio.sleep(0)
                    if last and body == "raise":
                        raise Boom("body")
                    if last and body == "cancel":
                        raise asyncio.CancelledError

            for num in range(uses):
                last = num == uses - 1
                task = loop.create_task(use(last))
                await asyncio.wait([task], timeout=2.0)
                expect(task.done(), "session doesn't end", kind, body, delay)
                expect(conn.disabled, "left enabled", kind, body, delay)
                expect_eq(len(entered), num + 1, "bodies")
                if not last or body == "return":
                    expect_eq(task.exception(), None, "raised")
                elif body == "cancel":
                    expect(task.cancelled(), "isn't cancelled")
                else:
                    expect(isinstance(task.exception(), Boom), "other error")
            expect_eq(len(pending_tasks(loop)), 1, "tasks left")
            # Every transport was closed.
            if kind == "tcp":
                left = [x for x, _ in loop.net.tcp if not x.closing]
                expect(not left, "transport left open")
            elif kind == "udp":
                expect(
                    all(x.closing for x in loop.net.udp.values()),
                    "transport left open",
                )
            else:
                expect(rig.closed, "isn't closed")
            stats.step(uses)
            stats.state((kind, body, delay, given, stopped, uses))
            stats.outcome((kind, body, delay, given, stopped, uses))

        return run_loop(main)[1]

    check.add("context", context)
    return check
