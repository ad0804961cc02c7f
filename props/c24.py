"""C24: outlet states match the power unit's."""

import asyncio
import itertools

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop

PORTS = 5
TIMEOUT = 5.0


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.net.tcp.telnet.np_05b import Np05bConnection

    thorough = tier == "thorough"
    check = Check(
        "C24",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of operations up to the depth against a model of "
            "the unit, for every style of output, division of the output and "
            "point of disconnection; every schedule of concurrent callers"
        ),
        bounds={"operations": 4 if thorough else 3, "callers": 3},
    )

    class Unit(asyncio.Protocol):
        """A model of the unit."""

        instances: list

        def __init__(self, style: str, cut=None, late=()) -> None:
            self.style = style
            self.cut = cut
            self.late = set(late)
            self.count = 0
            self.outlets = [False] * PORTS
            self.fails = {2}
            self.sent = 0
            self.partial = b""
            self.log: list = []
            self.outgoing: asyncio.Queue = asyncio.Queue()
            self.closed = False
            self.limit = None
            self.held = ""

        def connection_made(self, transport) -> None:
            self.transport = transport
            self.task = asyncio.get_running_loop().create_task(self.write())
            self.outgoing.put_nowait((0.0, b"Synaccess Telnet V6.2\r\n>"))

        def connection_lost(self, exc) -> None:
            self.closed = True
            self.task.cancel()

        async def write(self) -> None:
            """Write output."""
            while True:
                delay, data = await self.outgoing.get()
                if delay:
                    await asyncio.sleep(delay)
                pieces = [data]
                if isinstance(self.cut, int):
                    size = self.cut
                    pieces = [
                        data[x : x + size] for x in range(0, len(data), size)
                    ]
                elif isinstance(self.cut, tuple):
                    at = self.cut[0] - self.sent
                    if 0 < at < len(data):
                        pieces = [data[:at], data[at:]]
                for piece in pieces:
                    if self.limit is not None:
                        piece = piece[: self.limit - self.sent]
                    if piece:
                        self.transport.write(piece)
                        self.sent += len(piece)
                    if self.limit is not None and self.sent >= self.limit:
                        self.transport.abort()
                        return
                    if len(pieces) > 1:
                        await asyncio.sleep(0.001)

        def data_received(self, data) -> None:
            self.partial += bytes(data)
            *lines, self.partial = self.partial.split(b"\r\n")
            for line in lines:
                self.handle(line.decode())

        def handle(self, line: str) -> None:
            """Handle a line."""
            self.log.append(line)
            parts = line.split(" ")
            response = "$A0"
            if parts[0] == "$A3":
                idx = int(parts[1]) - 1
                expect(0 <= idx < PORTS, "outlet", line)
                if idx in self.fails:
                    response = "$AF"
                else:
                    self.outlets[idx] = parts[2] == "1"
            elif parts[0] == "$A7":
                for idx in range(PORTS):
                    if idx not in self.fails:
                        self.outlets[idx] = parts[1] == "1"
            elif parts[0] == "$A5":
                response += "," + "".join(
                    "1" if x else "0" for x in reversed(self.outlets)
                )
            else:
                raise AssertionError(line)

            delay = 0.0
            if parts[0] == "$A5":
                self.count += 1
                if self.count in self.late:
                    delay = TIMEOUT + 0.5

            newline = "" if self.style in ("joined", "joined-prompt") else (
                "\r\n"
            )
            if self.style == "slow":
                self.outgoing.put_nowait((0.0, (line + newline).encode()))
                self.outgoing.put_nowait(
                    (max(delay, 0.1), f"\r\n{response}\r\n>".encode())
                )
                return
            if self.style == "mixed":
                # Some responses end up on the same line as the command, others
                # are sent some time after it.
                if parts[0] != "$A5":
                    self.held += f"{line}{response}\r\n"
                else:
                    self.outgoing.put_nowait(
                        (0.0, f"{self.held}{line}\r\n".encode())
                    )
                    self.held = ""
                    self.outgoing.put_nowait(
                        (max(delay, 0.01), f"{response}\r\n>".encode())
                    )
                return
            prompt = ">" if self.style != "joined" else ""
            self.outgoing.put_nowait(
                (
                    delay,
                    f"{line}{newline}{response}\r\n{prompt}".encode(),
                )
            )

    STYLES = ["lines", "joined", "joined-prompt", "slow", "mixed"]

    async def connect(loop, make):
        """Connect to a unit."""
        units = []

        def factory():
            units.append(make(len(units)))
            return units[-1]

        server = loop.net.listen(factory, "127.0.0.1", 0)
        conn = await Np05bConnection.create_connection(
            host="127.0.0.1", port=server.sockets[0].getsockname()[1]
        )
        conn.env.set("auto_restart", False)
        return conn, units, server

    def outlets(conn):
        """Get recorded states."""
        return [conn.env.value(f"outlet.{x + 1}.on") for x in range(PORTS)]

    OPS = {
        "on1": ("set", 1, True),
        "off1": ("set", 1, False),
        "on5": ("set", 5, True),
        "on3": ("set", 3, True),
        "on0": ("set", 0, True),
        "on6": ("set", 6, True),
        "off6": ("set", 6, False),
        "cmd-on2": ("command", "set outlet.2.on true", 2),
        "cmd-off2": ("command", "set outlet.2.on false", 2),
        "cmd-toggle1": ("command", "toggle outlet.1.on", 1),
        "cmd-toggle3": ("command", "toggle outlet.3.on", 3),
        "cmd-bad": ("command", "set outlet.2.on maybe", 2),
        "all-on": ("custom", "all_on", True),
        "all-off": ("custom", "all_off", False),
    }

    async def apply(conn, unit, name, where):
        """Perform an operation and verify the outcome."""
        want = list(unit.outlets)
        before = len(unit.log)
        kind, *args = OPS[name]
        if kind == "set":
            idx, state = args
            out = await conn.set_outlet_state(idx, state)
            okay = 1 <= idx <= PORTS and idx - 1 not in unit.fails
            if okay:
                want[idx - 1] = state
            else:
                okay = 1 <= idx <= PORTS and want[idx - 1] == state
            expect_eq(out, okay, "result", where)
            if not 1 <= idx <= PORTS:
                expect_eq(unit.log[before:], [], "sent", where)
        elif kind == "command":
            cmd, idx = args
            curr = want[idx - 1]
            conn.command.command(cmd)
            await conn.process_command_queue()
            if idx - 1 not in unit.fails:
                if "true" in cmd or "false" in cmd:
                    want[idx - 1] = "true" in cmd
                elif "toggle" in cmd:
                    want[idx - 1] = not curr
        else:
            conn.command.command(f"custom {args[0]}")
            await conn.process_command_queue()
            for idx in range(PORTS):
                if idx not in unit.fails:
                    want[idx] = args[1]
        expect_eq(unit.outlets, want, "outlets", where)
        expect_eq(outlets(conn), want, "channels", where)
        expect_eq(list(conn.outlets_on), want, "states", where)

    async def start(loop, make):
        """Start a connection."""
        conn, units, server = await connect(loop, make)
        stop = asyncio.Event()
        task = loop.create_task(conn.process(stop_sig=stop))
        await asyncio.wait_for(conn.initialized.wait(), 10.0)
        expect(not conn.disabled, "not initialized")
        expect_eq(outlets(conn), units[0].outlets, "initial")
        return conn, units, server, task, stop

    async def finish(loop, task, stop, server, units):
        """Finish a connection."""
        stop.set()
        await asyncio.wait_for(task, 5.0)
        for unit in units:
            unit.task.cancel()
        server.close()
        loop.net.tcp.clear()

    # Sequences of operations.
    def sequences(chooser, stats):
        style = chooser.pick(STYLES)
        initial = chooser.pick([[False] * PORTS, [True, False] * 2 + [True]])
        first = chooser.pick(list(OPS))
        cut = chooser.pick([None, 1, 2, 7])

        def make(_):
            unit = Unit(style, cut)
            unit.outlets = list(initial)
            return unit

        async def main(loop):
            depth = (4 if thorough else 3) - (
                1 if cut is not None else 0
            )
            for rest in itertools.product(OPS, repeat=depth - 1):
                conn, units, server, task, stop = await start(loop, make)
                names = (first, *rest)
                for name in names:
                    await asyncio.wait_for(
                        apply(
                            conn, units[0], name, (style, cut, initial, names)
                        ),
                        10.0,
                    )
                    stats.step()
                expect(not conn.disabled, "disabled", names)
                await finish(loop, task, stop, server, units)

        run_loop(main, max_steps=10**9)
        stats.state((style, initial, first, cut))

    check.add("sequences", sequences, split=3, limit_s=240.0, replay_every=0)

    # Division at every point.
    def divisions(chooser, stats):
        style = chooser.pick(STYLES)
        names = chooser.pick(
            [
                ("on1", "on3", "cmd-toggle1"),
                ("all-on", "off1", "cmd-off2"),
                ("cmd-on2", "on5", "all-off"),
            ]
        )

        async def main(loop):
            for cut in range(1, 200):
                conn, units, server, task, stop = await start(
                    loop, lambda _: Unit(style, (cut,))
                )
                for name in names:
                    await asyncio.wait_for(
                        apply(conn, units[0], name, (style, cut, names)), 10.0
                    )
                    stats.step()
                expect(not conn.disabled, "disabled", names, cut)
                sent = units[0].sent
                await finish(loop, task, stop, server, units)
                if cut > sent:
                    break

        run_loop(main, max_steps=10**9)
        stats.state((style, names))

    check.add("divisions", divisions, split=1, limit_s=120.0)

    # Disconnection at every point, then restarting.
    def disconnects(chooser, stats):
        style = chooser.pick(STYLES)
        names = chooser.pick([("on1", "on3"), ("all-on", "cmd-off2")])

        async def main(loop):
            for limit in range(1, 200):
                states = [True, False, False, True, False]

                def make(idx):
                    unit = Unit(style)
                    unit.outlets = states
                    if idx == 0:
                        unit.limit = limit
                    return unit

                conn, units, server = await connect(loop, make)
                conn.env.set("auto_restart", True)
                stop = asyncio.Event()

                async def forever():
                    while not stop.is_set():
                        await conn.process(stop_sig=stop)

                task = loop.create_task(forever())

                async def attempt():
                    await conn.initialized.wait()
                    for name in names:
                        try:
                            kind, *args = OPS[name]
                            if kind == "set":
                                await conn.set_outlet_state(*args)
                            elif kind == "custom":
                                conn.command.command(f"custom {args[0]}")
                                await conn.process_command_queue()
                            else:
                                conn.command.command(args[0])
                                await conn.process_command_queue()
                        except asyncio.TimeoutError:
                            pass

                other = loop.create_task(attempt())
                await asyncio.sleep(60.0)
                expect(other.done(), "stuck", limit)
                other.result()
                whole = units[0].sent < limit
                if not whole:
                    expect(len(units) > 1, "didn't reconnect", limit)
                expect(not conn.disabled, "disabled", limit, len(units))
                expect(len(units) <= 2, "kept reconnecting", limit)
                expect_eq(outlets(conn), states, "states", style, limit)

                # Works as usual.
                units[0].limit = None
                for name in ("off1", "on5", "on3", "cmd-toggle1"):
                    await asyncio.wait_for(
                        apply(conn, units[-1], name, (style, limit, name)),
                        10.0,
                    )
                stats.step()
                await finish(loop, task, stop, server, units)
                if whole:
                    break

        run_loop(main, max_steps=10**9)
        stats.state((style, names))

    check.add("disconnects", disconnects, split=1, limit_s=120.0)

    # Late responses.
    def late(chooser, stats):
        style = chooser.pick(["lines", "slow"])
        which = chooser.pick(
            [(2,), (3,), (2, 3), (2, 4), (3, 4)], costs=None
        )
        names = [chooser.pick(list(OPS)) for _ in range(2)]
        gap = chooser.pick([0.0, 2.0])

        async def main(loop):
            conn, units, server, task, stop = await start(
                loop, lambda _: Unit(style, late=which)
            )
            unit = units[0]
            for name in [*names, "on1", "off1"]:
                kind, *args = OPS[name]
                begin = loop.time()
                known = list(unit.outlets)
                if kind == "set":
                    try:
                        out = await conn.set_outlet_state(*args)
                    except asyncio.TimeoutError:
                        out = False
                    idx, state = args
                    if out:
                        expect(
                            unit.outlets[idx - 1] == state, "result", name
                        )
                else:
                    cmd = args[0] if kind == "command" else f"custom {args[0]}"
                    conn.command.command(cmd)
                    await conn.process_command_queue()
                expect(
                    loop.time() - begin <= 2 * TIMEOUT + 1, "too long", name
                )
                expect(len(known) == PORTS, "outlets")
                await asyncio.sleep(gap)
                stats.step()
            await asyncio.sleep(20.0)
            expect(not conn.disabled, "disabled")
            expect_eq(outlets(conn), unit.outlets, "states", names, which)
            unit.late = set()
            for name in ("on1", "off1", "on3", "cmd-toggle1", "all-on"):
                await asyncio.wait_for(
                    apply(conn, unit, name, (style, which, names, name)),
                    10.0,
                )
            await finish(loop, task, stop, server, units)

        run_loop(main, max_steps=10**6)
        stats.state((style, which, names, gap))

    check.add("late", late, split=2, limit_s=120.0)

    # States that aren't known.
    def unknown(chooser, stats):
        style = chooser.pick(["lines", "slow", "mixed"])
        states = [chooser.pick([True, False]), True, False, True, False]
        first = chooser.pick(["on5", "off2", "all-on", "all-off"])
        ops = {**OPS, "off2": ("set", 2, False)}
        idx = chooser.pick([1, 2, 4])

        async def main(loop):
            def make(_):
                unit = Unit(style, late=(2,))
                unit.outlets = list(states)
                return unit

            conn, units, server, task, stop = await start(loop, make)
            unit = units[0]
            kind, *args = ops[first]
            if kind == "set":
                expect(not await conn.set_outlet_state(*args), "result")
            else:
                conn.command.command(f"custom {args[0]}")
                await conn.process_command_queue()

            # The opposite of a state that isn't known, isn't known either.
            before = list(unit.log)
            want = list(unit.outlets)
            conn.command.command(f"toggle outlet.{idx}.on")
            await asyncio.wait_for(conn.process_command_queue(), 10.0)
            expect_eq(unit.log, before, "sent", first)
            expect_eq(unit.outlets, want, "outlets", first)
            await asyncio.sleep(20.0)
            expect_eq(outlets(conn), want, "states", first)
            for name in ("cmd-toggle1", "on1", "off1", "on5"):
                await asyncio.wait_for(
                    apply(conn, unit, name, (style, first, name)), 10.0
                )
            await finish(loop, task, stop, server, units)

        run_loop(main, max_steps=10**6)
        stats.step()
        stats.state((style, states, first, idx))

    check.add("unknown", unknown)

    # Concurrent callers.
    def concurrent(chooser, stats):
        style = chooser.pick(STYLES)
        options = ["on1", "off1", "on5", "on3", "all-on", "all-off"]
        names = [chooser.pick(options) for _ in range(3)]
        gaps = [chooser.pick([0.0, 0.05, 0.15]) for _ in range(2)]

        async def main(loop):
            conn, units, server, task, stop = await start(
                loop, lambda _: Unit(style)
            )
            unit = units[0]

            async def run(idx):
                await asyncio.sleep(sum(gaps[:idx]))
                kind, *args = OPS[names[idx]]
                if kind == "set":
                    out = await conn.set_outlet_state(*args)
                    if args[0] == 3:
                        expect(not out, "result")
                    return out
                conn.command.command(f"custom {args[0]}")
                await conn.process_command_queue()
                return None

            await asyncio.wait_for(
                asyncio.gather(*(run(x) for x in range(3))), 20.0
            )
            await asyncio.sleep(1.0)
            expect_eq(outlets(conn), unit.outlets, "states", names, gaps)
            for name in ("on1", "off1"):
                await asyncio.wait_for(
                    apply(conn, unit, name, (style, names, gaps)), 10.0
                )

            # A request was never sent before the previous one finished.
            sets = [x for x in unit.log if not x.startswith("$A5")]
            for idx, line in enumerate(unit.log):
                if line in sets:
                    expect(
                        idx + 1 < len(unit.log)
                        and unit.log[idx + 1].startswith("$A5"),
                        "order",
                        unit.log,
                    )
            await finish(loop, task, stop, server, units)

        run_loop(main, max_steps=10**6)
        stats.step()
        stats.state((style, names, gaps))

    check.add("concurrent", concurrent, split=2, limit_s=120.0)
    return check
