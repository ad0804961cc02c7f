"""C29: traffic metrics count every message and byte."""

import asyncio
import logging

from mc.core import Check, expect, expect_eq
from mc.vloop import metrics_clock, run_loop

DEPTH = 50


class Model:
    """What a channel's metrics have to be."""

    def __init__(self) -> None:
        self.messages = 0
        self.bytes = 0
        self.trackers = [Rate(), Rate()]

    def increment(self, count: int, now: int) -> None:
        self.messages += 1
        self.bytes += count
        self.trackers[0].add(1.0, now)
        self.trackers[1].add(count * 8 / 1000.0, now)

    def poll(self, now: int) -> None:
        for item in self.trackers:
            item.add(0.0, now)

    def key(self) -> tuple:
        return (self.messages, self.bytes, *(x.rate() for x in self.trackers))


class Rate:
    """Amounts per time, of a window."""

    def __init__(self) -> None:
        self.window: list = []
        self.last = None
        self.pending = 0.0

    def add(self, amount: float, now: int) -> None:
        self.pending += amount
        if self.last is not None and now > self.last:
            self.window.append((self.pending, (now - self.last) / 1e9))
            self.window = self.window[-DEPTH:]
            self.pending = 0.0
        self.last = now

    def rate(self) -> float:
        total = sum(x[1] for x in self.window)
        return sum(x[0] for x in self.window) / total if total else 0.0


def close(have: float, want: float, *context) -> None:
    """Rates are floats."""
    expect(
        abs(have - want) <= 1e-4 * max(abs(want), 1e-3),
        "rate",
        have,
        want,
        *context,
    )


def compare(metrics, model: Model, *context) -> None:
    """Compare all metrics of a direction."""
    expect_eq(metrics.messages.value, model.messages, "messages", *context)
    expect_eq(metrics.bytes.value, model.bytes, "bytes", *context)
    close(metrics.message_rate.value, model.trackers[0].rate(), *context)
    close(metrics.kbps.value, model.trackers[1].rate(), "kbps", *context)


def build(tier: str) -> Check:
    """Build the check."""
    from websockets.exceptions import ConnectionClosedOK

    from runtimepy.metrics import ConnectionMetrics
    from runtimepy.metrics.channel import ChannelMetrics
    import runtimepy.net.server.websocket  # noqa: F401 (must be first)
    from runtimepy.net.arbiter.housekeeping import housekeeping
    from runtimepy.net.arbiter.info import AppInfo
    from runtimepy.net.connection import Connection
    from runtimepy.net.manager import ConnectionManager
    from runtimepy.net.tcp.connection import TcpConnection
    from runtimepy.net.udp.connection import UdpConnection
    from runtimepy.net.websocket.connection import WebsocketConnection

    thorough = tier == "thorough"
    depth = 7 if thorough else 6
    conn_depth = 5 if thorough else 4
    check = Check(
        "C29",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of sent and received messages (text and binary), "
            "polls, resets and passing time up to the depth, compared to a "
            "model of counters and windowed rates after every step"
        ),
        bounds={"depth": depth, "connection_depth": conn_depth},
    )

    # Metrics themselves.
    def channel(preload):
        def run(chooser, stats):
            now = [10**9]
            pair = ConnectionMetrics()
            metrics = pair.tx
            model = Model()
            for _ in range(preload):
                now[0] += 10**7
                metrics.increment(10, time_ns=now[0])
                model.increment(10, now[0])
            compare(metrics, model, "preload")
            order = []
            for _ in range(depth):
                oper = chooser.pick(
                    ["inc 0", "inc 100", "inc 7", "poll", "reset", "wait"]
                )
                order.append(oper)
                if oper == "wait":
                    now[0] += 25 * 10**7
                    continue
                if oper.startswith("inc"):
                    size = int(oper.split()[1])
                    now[0] += 10**6 if size == 7 else 0
                    metrics.increment(size, time_ns=now[0])
                    model.increment(size, now[0])
                elif oper == "poll":
                    pair.poll(time_ns=now[0])
                    model.poll(now[0])
                else:
                    pair.reset()
                    model = Model()
                compare(metrics, model, order)
                stats.step()
            stats.state(model.key())
            # Copies.
            other = ConnectionMetrics()
            other.rx.increment(5, time_ns=5)
            other.update(pair)
            compare(other.tx, model, "copied", order)
            compare(other.rx, Model(), "copied", order)
            pair.reset()
            other.update(pair)
            compare(other.tx, Model(), "copied again", order)
            stats.outcome(order[-1])
            return order

        return run

    check.add("channel", channel(0), split=2)
    check.add("channel full", channel(70), split=2)

    def application(manager):
        return AppInfo(
            logging.getLogger("mc.c29"),
            None,  # type: ignore
            {},
            manager,
            None,  # type: ignore
            asyncio.Event(),
            {"root": {}},
            {},
            None,  # type: ignore
            {},
            None,  # type: ignore
            [],
            {},
            {},
        )

    # Connections.
    TEXTS = ["", "abc", "h\u00e9\u20ac", "x" * 300]

    class FakeSocket:
        """Stands in for the websocket library."""

        def __init__(self) -> None:
            self.logger = logging.getLogger("mc.c29")
            self.queue: asyncio.Queue = asyncio.Queue()
            self.closed = False
            self.sent: list = []

        async def recv(self):
            data = await self.queue.get()
            if data is None:
                self.closed = True
                raise ConnectionClosedOK(None, None)
            return data

        async def send(self, data):
            if self.closed:
                raise ConnectionClosedOK(None, None)
            self.sent.append(data)

        async def close(self):
            self.closed = True
            self.queue.put_nowait(None)

    class Handler:
        """Records what's received."""

        def init(self):
            self.got: list = []
            self.mode = "ok"

        def take(self, data):
            self.got.append(data)
            if self.mode == "raise":
                raise ValueError("handler")
            return self.mode == "ok"

        async def process_text(self, data):
            return self.take(data)

        async def process_binary(self, data):
            return self.take(bytes(data))

        async def process_datagram(self, data, addr):
            return self.take(bytes(data))

    class Tcp(Handler, TcpConnection):
        """A stream."""

    class Udp(Handler, UdpConnection):
        """Datagrams."""

    class Web(Handler, WebsocketConnection):
        """A websocket."""

    class Peer(asyncio.Protocol):
        """A scripted peer."""

        transport = None
        buffer = b""

        def connection_made(self, transport):
            self.transport = transport

        def data_received(self, data):
            self.buffer += bytes(data)

    class TcpSide:
        """A stream connection and its peer."""

        text = False

        async def setup(self, loop):
            self.peer = Peer()
            loop.net.listen(lambda: self.peer, "127.0.0.1", 5)
            self.conn = await Tcp.create_connection(host="127.0.0.1", port=5)
            self.total = b""

        def send(self, data):
            self.peer.transport.write(data)

        def sent(self):
            return self.peer.buffer

        def lose(self):
            self.peer.transport.close()

    class UdpSide:
        """A datagram connection."""

        text = False

        async def setup(self, loop):
            self.loop = loop
            self.out: list = []

            def on_datagram(transport, data, addr):
                self.out.append(bytes(data))

            loop.net.on_datagram = on_datagram
            self.conn = await Udp.create_connection(
                local_addr=("127.0.0.1", 9), remote_addr=("127.0.0.1", 7)
            )

        def send(self, data):
            self.loop.net.deliver(
                ("127.0.0.1", 7), data, ("127.0.0.1", 9)
            )

        def sent(self):
            return b"".join(self.out)

        def lose(self):
            self.conn.disable("lost")

    class WebSide:
        """A websocket connection."""

        text = True

        async def setup(self, loop):
            self.socket = FakeSocket()
            self.conn = Web(self.socket)

        def send(self, data):
            self.socket.queue.put_nowait(data)

        def sent(self):
            return b"".join(
                x.encode() if isinstance(x, str) else bytes(x)
                for x in self.socket.sent
            )

        def lose(self):
            self.socket.queue.put_nowait(None)

    def connection(kind, modes):
        ops = ["send text", "send binary", "send long"]
        ops += ["rx binary", "rx long", "wait", "poll", "reset"]
        ops.append("lose")
        if kind is TcpSide:
            ops += ["housekeep on", "housekeep off"]
        if kind.text:
            ops += ["rx text", "rx none", "send none"]
        ops += modes

        def run(chooser, stats):
            order: list = []

            async def main(loop):
                with metrics_clock(loop) as clock:
                    side = kind()
                    await side.setup(loop)
                    conn = side.conn
                    manager = ConnectionManager()
                    stop = asyncio.Event()
                    task = loop.create_task(manager.manage(stop))
                    await manager.queue.put(conn)
                    keeper = housekeeping(
                        manager,
                        poll_connection_metrics=False,
                    )
                    await keeper.init(application(manager))
                    await asyncio.sleep(0.01)
                    models = {"tx": Model(), "rx": Model()}
                    sent = b""
                    alive = True
                    try:
                        for _ in range(conn_depth):
                            oper = chooser.pick(ops)
                            order.append(oper)
                            name, _, arg = oper.partition(" ")
                            if name == "wait":
                                await asyncio.sleep(0.25)
                            elif name == "send":
                                now = clock.now()
                                text = {
                                    "abc": "abc",
                                    "text": TEXTS[2],
                                    "long": TEXTS[3],
                                }.get(arg, "")
                                if arg == "binary":
                                    conn.send_binary(b"\x00\xff\n")
                                    size = b"\x00\xff\n"
                                else:
                                    conn.send_text(text)
                                    size = text.encode()
                                await asyncio.sleep(0)
                                await asyncio.sleep(0)
                                if alive:
                                    models["tx"].increment(len(size), now)
                                    sent += size
                                else:
                                    # Not judged (except for being sane).
                                    order.append("(ended)")
                                    return
                            elif name == "rx":
                                now = clock.now()
                                data = {
                                    "binary": b"12\xff4",
                                    "long": b"y" * 250,
                                    "text": TEXTS[2],
                                    "none": "",
                                }[arg]
                                if not alive:
                                    continue
                                side.send(data)
                                for _ in range(6):
                                    await asyncio.sleep(0)
                                size = (
                                    data.encode()
                                    if isinstance(data, str)
                                    else data
                                )
                                models["rx"].increment(len(size), now)
                                alive = conn.mode == "ok"
                            elif name == "poll":
                                now = clock.now()
                                manager.poll_metrics()
                                if alive:
                                    for item in models.values():
                                        item.poll(now)
                            elif name == "housekeep":
                                now = clock.now()
                                keeper.env.set(
                                    "poll_connection_metrics", arg == "on"
                                )
                                expect(await keeper.dispatch(), "dispatch")
                                if arg == "on" and alive:
                                    for item in models.values():
                                        item.poll(now)
                            elif name == "reset":
                                manager.reset_metrics()
                                if alive:
                                    models = {"tx": Model(), "rx": Model()}
                            elif name == "lose":
                                side.lose()
                                alive = False
                            elif name == "mode":
                                conn.mode = arg
                            await asyncio.sleep(0.01)
                            for key, model in models.items():
                                compare(
                                    getattr(conn.metrics, key), model, order
                                )
                                for chan, attr in (
                                    ("messages", model.messages),
                                    ("bytes", model.bytes),
                                ):
                                    expect_eq(
                                        conn.env.value(f"metrics.{key}.{chan}"),
                                        attr,
                                        "channel",
                                        order,
                                    )
                            expect_eq(side.sent(), sent, "sent", order)
                            stats.step()
                        stats.state(
                            [x.key() for x in models.values()] + [alive]
                        )
                        stats.outcome(alive)
                    finally:
                        stop.set()
                        await task
                        await asyncio.sleep(0.1)

            return run_loop(main, max_steps=50000)[1]

        return run

    modes = ["mode raise", "mode false"]
    check.add("tcp", connection(TcpSide, modes), split=2)
    check.add("udp", connection(UdpSide, modes), split=2)
    check.add("websocket", connection(WebSide, modes), split=2)

    # Messages that can't be sent aren't counted.
    def unsent(chooser, stats):
        count = chooser.pick([1, 2, 3])
        good = chooser.choose(count + 1)
        kinds = [chooser.pick(["text", "binary"]) for _ in range(count)]

        async def main(loop):
            with metrics_clock(loop):
                socket = FakeSocket()
                conn = Web(socket)
                task = loop.create_task(conn.process())
                await asyncio.sleep(0.01)
                want = 0
                for idx, kind in enumerate(kinds):
                    if idx == good:
                        socket.closed = True
                    if kind == "text":
                        conn.send_text("abcd")
                    else:
                        conn.send_binary(b"abcd")
                    await asyncio.sleep(0.01)
                    want += idx < good
                expect_eq(len(socket.sent), want, "sent")
                expect_eq(conn.metrics.tx.messages.value, want, "messages")
                expect_eq(conn.metrics.tx.bytes.value, want * 4, "bytes")
                expect_eq(conn.disabled, good < count, "disabled")
                conn.disable("end")
                await task
                stats.step()
                stats.outcome(want)

        return run_loop(main, max_steps=10000)[1]

    check.add("unsent", unsent)

    # Counters are independent.
    def independent(chooser, stats):
        ops = [chooser.pick(["tx", "rx", "other"]) for _ in range(5)]
        first, second = ConnectionMetrics(), ChannelMetrics()
        want = {"tx": 0, "rx": 0, "other": 0}
        for idx, oper in enumerate(ops):
            want[oper] += idx
            item = second if oper == "other" else getattr(first, oper)
            item.increment(idx, time_ns=idx + 1)
            stats.step()
        for name, item in (
            ("tx", first.tx),
            ("rx", first.rx),
            ("other", second),
        ):
            expect_eq(item.bytes.value, want[name], "bytes", name)
            expect_eq(item.messages.value, ops.count(name), "messages", name)
            text = str(item)
            expect(f"messages={ops.count(name)}" in text, "text", text)
            expect(f"bytes={want[name]}" in text, "text", text)
        stats.outcome(tuple(want.values()))

    check.add("independent", independent)
    del Connection
    return check
