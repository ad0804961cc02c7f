"""C17: the connection manager runs and restarts every connection."""

import asyncio

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop


class Boom(Exception):
    """Raised by handlers."""


class Raw(asyncio.Protocol):
    """A scripted peer."""

    def __init__(self) -> None:
        self.buffer = b""
        self.transport = None
        self.lost = False

    def connection_made(self, transport) -> None:
        self.transport = transport

    def data_received(self, data) -> None:
        self.buffer += bytes(data)

    def connection_lost(self, exc) -> None:
        self.lost = True


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.net.manager import ConnectionManager
    from runtimepy.net.tcp.connection import TcpConnection
    from runtimepy.net.udp.connection import UdpConnection

    thorough = tier == "thorough"
    check = Check(
        "C17",
        tier,
        kind="model_checking",
        rule=(
            "every combination of arrival, loss, refusal and stop times for "
            "connections with and without automatic restart; the stop signal "
            "and losses at every step of the scheduler; late loss reports of "
            "previous transports; failing handlers and cleanup"
        ),
        bounds={"connections": 2, "losses": 2, "refusals": 3},
    )

    class Tracked:
        """Counts sessions."""

        def init(self):
            self.active = 0
            self.most = 0
            self.calls = 0
            self.inits = 0
            self.got = []
            self.sessions = []

        async def async_init(self):
            self.inits += 1
            self.sessions.append(asyncio.get_running_loop().time())
            return True

        async def process(self, *args, **kwargs):
            self.calls += 1
            self.active += 1
            self.most = max(self.most, self.active)
            try:
                await super().process(*args, **kwargs)
            finally:
                self.active -= 1

    class Tcp(Tracked, TcpConnection):
        """A stream connection."""

        bad_close = False

        async def process_binary(self, data):
            data = bytes(data)
            self.got.append(data)
            if data == b"boom":
                raise Boom("handler")
            return data != b"no"

        async def close(self):
            await super().close()
            if self.bad_close:
                raise Boom("close")

    class Udp(Tracked, UdpConnection):
        """A datagram connection."""

        async def process_datagram(self, data, addr):
            self.got.append(bytes(data))
            return True

    class Rig:
        """A server and connections to it."""

        def __init__(self, loop):
            self.loop = loop
            self.raws = []

            def factory():
                self.raws.append(Raw())
                return self.raws[-1]

            self.server = loop.net.listen(factory, "127.0.0.1", 0)
            self.port = self.server.sockets[0].getsockname()[1]

        async def connect(self, cls=Tcp):
            return await cls.create_connection(
                host="127.0.0.1", port=self.port
            )

        def transport(self, conn):
            """The current transport of a connection."""
            for trans, _ in reversed(self.loop.net.tcp):
                proto = trans.get_protocol()
                if getattr(proto, "conn", None) is conn:
                    return trans
            return None

        def drop(self, conn, exc=None):
            """The peer goes away."""
            trans = self.transport(conn)
            if trans is not None and not trans.closing:
                trans.drop(exc)
                if trans.other is not None:
                    trans.other.drop(None)

    def check_end(rig, conns, loop, before):
        for idx, conn in enumerate(conns):
            expect(conn.disabled, "enabled after stop", idx)
            expect_eq(conn.active, 0, "sessions running after stop", idx)
            expect(conn.most <= 1, "concurrent sessions", idx, conn.most)
        for trans, peer in loop.net.tcp:
            expect(
                trans.closing,
                "transport left open",
                [x[0] is trans for x in loop.net.tcp],
                [(x.inits, x.calls, x.disabled) for x in conns],
            )
            expect(peer.closing, "peer left connected")
        left = [
            x
            for x in asyncio.all_tasks(loop)
            if x not in before and not x.done()
        ]
        expect_eq([str(x) for x in left], [], "tasks left running")

    def backoff_times(count):
        """When attempts occur."""
        out, clock, wait = [], 0.0, 0.0
        for _ in range(count):
            clock += wait
            out.append(clock)
            wait = min(0.1 if not wait else wait * 2, 10.0)
        return out

    DROPS = [None, 0.3, 1.0] + ([0.37, 0.6, 1.1] if thorough else [])
    STOPS = [0.32, 1.07, 5.0] + ([0.45, 0.62, 1.2, 2.0] if thorough else [])

    # Arrivals, losses, refusals, stop.
    def manage(chooser, stats):
        autos = [chooser.pick([True, False]) for _ in range(2)]
        arrive = [0.0, chooser.pick([0.0, 0.35, 1.05])]
        drops = [chooser.pick(DROPS) for _ in range(2)]
        refuse = chooser.pick([0, 1, 3]) if any(drops) else 0
        again = chooser.pick([False, True]) if any(drops) else False
        stop_at = chooser.pick(STOPS)

        async def main(loop):
            before = set(asyncio.all_tasks(loop))
            rig = Rig(loop)
            manager = ConnectionManager()
            stop = asyncio.Event()
            conns = [await rig.connect() for _ in range(2)]
            for conn, auto in zip(conns, autos):
                conn.env.set("auto_restart", auto)
                expect_eq(conn.auto_restart, auto, "auto restart")
            base = len(loop.net.attempts)
            zero = loop.time()
            refused = {"left": refuse}

            def refuse_some(_):
                if refused["left"]:
                    refused["left"] -= 1
                    return True
                return False

            loop.net.refuse = refuse_some
            task = loop.create_task(manager.manage(stop))
            second = loop.create_task(manager.manage(stop))
            for conn, when in zip(conns, arrive):
                loop.call_later(when, manager.queue.put_nowait, conn)
            # Losses only count once a connection is being processed.
            real = []
            for conn, when, start in zip(conns, drops, arrive):
                if when is not None and when > start:
                    loop.call_later(when, rig.drop, conn)
                    real.append(when)
                    if again:
                        loop.call_later(when + 1.5, rig.drop, conn)
                else:
                    real.append(None)
            loop.call_later(stop_at, stop.set)
            await asyncio.sleep(stop_at - 0.01)

            # How things are right before the stop.
            now = loop.time() - zero
            count = 0
            for idx, conn in enumerate(conns):
                expect(conn.most <= 1, "concurrent sessions", idx, conn.most)
                if arrive[idx] > now:
                    expect_eq(conn.inits, 0, "not started yet")
                    continue
                lost = real[idx] is not None and real[idx] < now
                expect(conn.inits >= 1, "never processed", idx)
                if not lost:
                    expect(not conn.disabled, "disabled", idx)
                    expect_eq(conn.inits, 1, "sessions", idx)
                    count += 1
                elif not autos[idx]:
                    expect(conn.disabled, "enabled", idx)
                    expect_eq(conn.inits, 1, "sessions", idx)
                else:
                    count += 1
                    losses = 1 + (again and real[idx] + 1.5 < now)
                    if now > 4.0:
                        # Everything had enough time.
                        expect(not conn.disabled, "not restarted", idx)
                        expect_eq(conn.inits, 1 + losses, "sessions", idx)
                        expect_eq(
                            conn.env.value("restarts"), losses, "restarts"
                        )
            expect_eq(manager.num_connections, count, "num_connections")
            expect_eq(len(list(manager.by_type(Tcp))), count, "by_type")
            expect_eq(len(list(manager.by_type(Udp))), 0, "by_type")
            if now > 4.0:
                total = sum(
                    (1 + again)
                    for idx in range(2)
                    if real[idx] is not None and autos[idx]
                )
                used = refuse - refused["left"]
                expect_eq(
                    len(loop.net.attempts) - base,
                    total + used,
                    "connection attempts",
                )
                expect_eq(
                    sum(x.env.value("restart_attempts") for x in conns),
                    total + used,
                    "restart attempts",
                )
                # A restarted connection works.
                for idx, conn in enumerate(conns):
                    if not conn.disabled:
                        conn.got.clear()
                        rig.transport(conn).feed(b"hello")
                        conn.send_text("there")
                await asyncio.sleep(0.005)
                for idx, conn in enumerate(conns):
                    if not conn.disabled:
                        expect_eq(conn.got, [b"hello"], "received", idx)
                        peer = rig.transport(conn).other
                        expect_eq(
                            peer.get_protocol().buffer, b"there", "sent"
                        )
                single = [
                    i for i in range(2) if real[i] is not None and autos[i]
                ]
                if len(single) == 1 and not again:
                    expect_eq(
                        [
                            round(x - zero - real[single[0]], 6)
                            for x in loop.net.attempts[base:]
                        ],
                        [round(x, 6) for x in backoff_times(1 + used)],
                        "attempt times",
                    )
            for conn in list(manager.by_type(Tcp)):
                expect(conn in conns, "unknown connection")
            await asyncio.wait([task, second], timeout=3.0)
            expect(task.done(), "manager didn't stop")
            expect(second.done(), "second manager didn't stop")
            task.result()
            second.result()
            expect(loop.time() - zero <= stop_at + 1.1, "stopped late")
            # Connections the manager never saw aren't its business.
            for conn, when in zip(conns, arrive):
                if when > stop_at:
                    conn.disable("unseen")
                    await conn.close()
            await asyncio.sleep(2.0)
            check_end(rig, conns, loop, before)
            stats.step(6)
            stats.state((autos, arrive, drops, refuse, again, stop_at))
            stats.outcome((autos, arrive, drops, refuse, again, stop_at, count))
            return [x.inits for x in conns]

        return run_loop(main, max_steps=5000)[1]

    check.add("manage", manage, split=4, replay_every=211)

    # The stop signal or a loss at every scheduler step.
    def stepwise(chooser, stats):
        auto = chooser.pick([True, False])
        how = chooser.pick(["stop", "drop", "disable", "arrive"])
        at = chooser.choose(20)
        stop_at = chooser.choose(20) if how != "stop" else None
        state = {"armed": None, "count": 0, "stop": None}

        def on_step(loop, idle):
            del loop, idle
            if state["armed"] is None:
                return False
            if state["count"] == at:
                state["armed"]()
            if stop_at is not None and state["count"] == at + stop_at:
                state["stop"]()
            state["count"] += 1
            return False

        async def main(loop):
            before = set(asyncio.all_tasks(loop))
            rig = Rig(loop)
            manager = ConnectionManager()
            stop = asyncio.Event()
            conns = [await rig.connect() for _ in range(2)]
            for conn in conns:
                conn.env.set("auto_restart", auto)
            task = loop.create_task(manager.manage(stop))
            manager.queue.put_nowait(conns[0])
            for _ in range(4):
                await asyncio.sleep(0)
            state["stop"] = stop.set
            arrived = False
            if how == "stop":
                state["armed"] = stop.set
            elif how == "drop":
                state["armed"] = lambda: rig.drop(conns[0])
            elif how == "disable":
                state["armed"] = lambda: conns[0].disable("x")
            else:
                state["armed"] = lambda: manager.queue.put_nowait(conns[1])
                arrived = True
            await asyncio.sleep(5.0)
            for _ in range(45):
                await asyncio.sleep(0)
            stop.set()
            await asyncio.sleep(1.5)
            expect(task.done(), "manager didn't stop")
            task.result()
            if not arrived or not conns[1].calls:
                conns[1].disable("unused")
                await conns[1].close()
                await asyncio.sleep(0.1)
            check_end(rig, conns, loop, before)
            stats.step(3)
            stats.outcome((auto, how, at, stop_at, [x.inits for x in conns]))
            return [x.inits for x in conns]

        return run_loop(main, on_step=on_step, max_steps=5000)[1]

    check.add("stepwise", stepwise, split=2, replay_every=211)

    # The loss of a previous transport may be reported late.
    def stale(chooser, stats):
        why = chooser.pick(["disable", "handler", "raise"])
        late = chooser.pick([0.0, 0.05, 0.5, 2.0])
        error = chooser.pick([False, True])
        refuse = chooser.pick([0, 1])

        async def main(loop):
            before = set(asyncio.all_tasks(loop))
            rig = Rig(loop)
            manager = ConnectionManager()
            stop = asyncio.Event()
            conn = await rig.connect()
            conn.env.set("auto_restart", True)
            task = loop.create_task(manager.manage(stop))
            manager.queue.put_nowait(conn)
            await asyncio.sleep(0.1)
            old = rig.transport(conn)
            old.linger = True
            left = {"n": refuse}

            def refused(_):
                left["n"] -= 1
                return left["n"] >= 0

            loop.net.refuse = refused
            if why == "disable":
                conn.disable("test")
            else:
                old.feed(b"no" if why == "handler" else b"boom")
            if late:
                await asyncio.sleep(late)
            while not old.lingering:
                await asyncio.sleep(0)
            old.release(OSError("x") if error else None)
            await asyncio.sleep(2.0)
            expect(not conn.disabled, "not restarted")
            expect_eq(conn.inits, 2, "sessions")
            expect_eq(conn.env.value("restarts"), 1, "restarts")
            expect_eq(conn.env.value("restart_attempts"), 1 + refuse, "tries")
            rig.transport(conn)
            new = [x for x, _ in loop.net.tcp if x is not old][-1]
            conn.got.clear()
            new.feed(b"hi")
            await asyncio.sleep(0.1)
            expect_eq(conn.got, [b"hi"], "received")
            # The loss of the current one matters, of course.
            conn.env.set("auto_restart", False)
            new.drop()
            new.other.drop()
            await asyncio.sleep(0.1)
            expect(conn.disabled, "loss wasn't noticed")
            stop.set()
            await asyncio.sleep(1.5)
            expect(task.done(), "manager didn't stop")
            check_end(rig, [conn], loop, before)
            stats.step(4)
            stats.outcome((why, late, error, refuse))

        return run_loop(main)[1]

    check.add("stale", stale)

    # A connection that fails doesn't affect others or the manager.
    def failures(chooser, stats):
        bad = [
            chooser.pick(["ok", "boom", "no", "close", "boom-close"])
            for _ in range(2)
        ]
        autos = [chooser.pick([False, True]) for _ in range(2)]
        server_side = chooser.pick([False, True])

        async def main(loop):
            before = set(asyncio.all_tasks(loop))
            rig = Rig(loop)
            manager = ConnectionManager()
            stop = asyncio.Event()
            conns = []
            for idx in range(2):
                conn = await rig.connect()
                conn.env.set("auto_restart", autos[idx])
                if server_side:
                    # (The server's end can't be restarted.)
                    conn._conn_kwargs = {"host": None}

                    async def cant(**_):
                        raise ValueError("host and port was not specified")

                    conn.restart = cant
                conn.bad_close = "close" in bad[idx]
                conns.append(conn)
                manager.queue.put_nowait(conn)
            task = loop.create_task(manager.manage(stop))
            await asyncio.sleep(0.1)
            for idx, conn in enumerate(conns):
                if bad[idx] in ("boom", "boom-close", "no"):
                    rig.transport(conn).feed(bad[idx].split("-")[0].encode())
            await asyncio.sleep(1.0)
            expect(not task.done(), "manager ended")
            for idx, conn in enumerate(conns):
                if bad[idx] in ("ok", "close"):
                    expect(not conn.disabled, "disabled", idx)
                    rig.transport(conn).feed(b"x")
                elif not autos[idx] or server_side:
                    expect(conn.disabled, "enabled", idx)
            await asyncio.sleep(1.0)
            for idx, conn in enumerate(conns):
                if bad[idx] in ("ok", "close"):
                    expect_eq(conn.got, [b"x"], "received")
                elif autos[idx] and not server_side and "close" not in bad[idx]:
                    expect(not conn.disabled, "not restarted", idx)
                    expect_eq(conn.inits, 2, "sessions")
            extra = await rig.connect()
            manager.queue.put_nowait(extra)
            await asyncio.sleep(0.1)
            expect_eq(extra.inits, 1, "new connections are processed")
            stop.set()
            await asyncio.sleep(1.5)
            expect(task.done(), "manager didn't stop")
            task.result()
            check_end(rig, [*conns, extra], loop, before)

            # It can be used again.
            stop.clear()
            task = loop.create_task(manager.manage(stop))
            more = await rig.connect()
            manager.queue.put_nowait(more)
            await asyncio.sleep(0.1)
            expect_eq(more.inits, 1, "processed by the second run")
            expect_eq(manager.num_connections, 1, "second run's connections")
            manager.reset_metrics()
            rig.transport(more).feed(b"abcd")
            await asyncio.sleep(0.1)
            manager.poll_metrics(time_ns=1)
            expect_eq(more.metrics.rx.bytes.value, 4, "rx bytes")
            manager.reset_metrics()
            expect_eq(more.metrics.rx.bytes.value, 0, "rx bytes")
            stop.set()
            await asyncio.sleep(1.5)
            expect(task.done(), "manager didn't stop")
            stats.step(6)
            stats.outcome((bad, autos, server_side))

        return run_loop(main, max_steps=20000)[1]

    check.add("failures", failures, split=2)

    # Being disabled before being processed.
    def early(chooser, stats):
        kind = chooser.pick(["tcp", "udp"])
        auto = chooser.pick([False, True])
        late = chooser.pick([None, 0.5])

        async def main(loop):
            rig = Rig(loop)
            stop = asyncio.Event()
            manager = ConnectionManager()
            task = loop.create_task(manager.manage(stop))
            if kind == "tcp":
                conn = await rig.connect()
                old = loop.net.tcp[0][0]
            else:
                conn = await Udp.create_connection(
                    local_addr=("127.0.0.1", 9),
                    remote_addr=("127.0.0.1", 7),
                )
                old = loop.net.udp[("127.0.0.1", 9)]
            conn.env.set("auto_restart", auto)
            conn.disable("early")
            manager.queue.put_nowait(conn)
            await asyncio.sleep(0.3)
            if late is not None:
                await asyncio.sleep(late)
                if kind == "tcp":
                    if not old.lost:
                        old.drop(None)
            await asyncio.sleep(0.3)
            # It's processed with a new transport.
            expect(not conn.disabled, "not restarted")
            expect_eq(conn.inits, 1, "sessions")
            expect(old.closing, "previous transport left open")
            stop.set()
            await asyncio.sleep(1.5)
            expect(task.done(), "manager didn't stop")
            for trans, _ in loop.net.tcp:
                expect(trans.closing, "transport left open")
            stats.step(2)
            stats.outcome((kind, auto, late))

        return run_loop(main)[1]

    check.add("early", early)
    return check
