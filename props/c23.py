"""C23: SCPI commands get their own responses."""

import asyncio
import itertools

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop

TIMEOUT = 1.0


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.net.tcp.scpi import ScpiConnection

    thorough = tier == "thorough"
    check = Check(
        "C23",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of device behaviours (whole, divided at every "
            "point, late, early, extra, absent, not terminated) over a number "
            "of commands; every schedule of concurrent callers and devices"
        ),
        bounds={"commands": 4 if thorough else 3, "callers": 3},
    )

    class Device(asyncio.Protocol):
        """A scripted device."""

        def __init__(self) -> None:
            self.lines: asyncio.Queue = asyncio.Queue()
            self.data = b""
            self.closed = False

        def connection_made(self, transport) -> None:
            self.transport = transport

        def connection_lost(self, exc) -> None:
            self.closed = True

        def data_received(self, data) -> None:
            self.data += bytes(data)
            *lines, self.data = self.data.split(b"\n")
            for line in lines:
                self.lines.put_nowait(line)

        async def identify(self) -> None:
            """Respond to the initial query."""
            expect_eq(
                await asyncio.wait_for(self.lines.get(), 5.0),
                b"*IDN?",
                "initial query",
            )
            self.transport.write(b"device\n")

    async def connect(loop, **kwargs):
        """Connect to a device."""
        devices = []

        def factory():
            devices.append(Device())
            return devices[-1]

        server = loop.net.listen(factory, "127.0.0.1", 0)
        conn = await ScpiConnection.create_connection(
            host="127.0.0.1",
            port=server.sockets[0].getsockname()[1],
            **kwargs,
        )
        task = loop.create_task(conn.process())
        await asyncio.sleep(0)
        await devices[0].identify()
        await asyncio.wait_for(conn.initialized.wait(), 5.0)
        expect(not conn.disabled, "not initialized")
        return conn, devices, task, server

    def behaviours(idx: int):
        """
        Ways to respond to a command: (before, [(delay, data)...], result),
        where data 'before' is sent after the previous command finished.
        """
        value = f"{idx}é".encode()
        line = value + b"\n"
        yield "whole", b"", [(0.0, line)], value
        yield "delayed", b"", [(0.9, line)], value
        yield "crlf", b"", [(0.1, value + b"\r\n")], value
        padded = b"  " + value + b"\t "
        yield "padded", b"", [(0.1, padded + b"\n")], padded
        yield "blank", b"", [(0.1, b"  \n")], b"  "
        for cut in range(1, len(value) + 2):
            data = value + b"\r\n"
            yield (
                f"cut{cut}",
                b"",
                [(0.1, data[:cut]), (0.1, data[cut:])],
                value,
            )
        yield "bytes", b"", [(0.1, bytes([x])) for x in line], value
        yield "empty-first", b"", [(0.1, b"\r\n"), (0.1, line)], value
        yield "extra", b"", [(0.1, line + b"extra\n")], value
        yield "extra-later", b"", [(0.1, line), (0.05, b"x\ny\n")], value
        yield "before", b"noise\n", [(0.1, line)], value
        yield "before-many", b"a\nb\nc\nd\n", [(0.1, line)], value
        yield "before-cut", b"a\nb", [(0.1, b"c\n" + line)], value
        yield "before-cut-2", b"a", [(0.1, b"c\n"), (0.1, line)], value
        yield "before-char", b"\xc3", [(0.1, b"\xa9\n"), (0.1, line)], value
        yield "invalid", b"\xff\xfe\n", [(0.1, line)], value
        yield "none", b"", [], b""
        yield "late", b"", [(TIMEOUT + 0.05, line)], b""
        yield (
            "late-cut",
            b"",
            [(TIMEOUT - 0.1, b""), (0.15, line)],
            b"",
        )
        yield "unterminated", b"", [(0.1, value)], value
        yield "set", b"", None, b""
        yield "set-noisy", b"", [(0.1, b"done\n")], None

    names = [x[0] for x in behaviours(0)]

    def exchanges(chooser, stats):
        count = 4 if thorough else 3
        first = chooser.pick(names)
        second = chooser.pick(names)
        third = chooser.pick(names if thorough else ["-"])

        async def main(loop):
            for rest in itertools.product(
                names[:: 4 if thorough else 1],
                repeat=count - 2 - (third != "-"),
            ):
                script = [first, second, third, *rest]
                await exchange(loop, [x for x in script if x != "-"])

        async def exchange(loop, script):
            conn, devices, task, server = await connect(loop)
            device = devices[0]
            kinds = [
                {x[0]: x[1:] for x in behaviours(idx)}[name]
                for idx, name in enumerate(script)
            ]

            async def run(idx):
                line = await device.lines.get()
                expect_eq(
                    line,
                    f"CMD{idx}".encode()
                    + (b"" if script[idx].startswith("set") else b"?"),
                    "command",
                )
                for delay, data in kinds[idx][1] or []:
                    await asyncio.sleep(delay)
                    if data:
                        device.transport.write(data)

            for idx, (before, _, result) in enumerate(kinds):
                if before:
                    device.transport.write(before)
                await asyncio.sleep(0.1)
                dev = loop.create_task(run(idx))
                start = loop.time()
                query = not script[idx].startswith("set")
                out = await conn.send_command(
                    f"CMD{idx}",
                    query=query,
                    response=query,
                    timeout=TIMEOUT,
                    log=bool(idx % 2),
                )
                expect(
                    loop.time() - start <= TIMEOUT + 0.01, "too long", script
                )
                expect_eq(
                    out, (result or b"").decode(), "response", script, idx
                )
                await asyncio.wait_for(dev, 5.0)
                await asyncio.sleep(0.1)
                expect(not conn.disabled and not task.done(), "stopped")
                stats.step()
            expect(device.lines.empty() and not device.data, "extra commands")
            device.transport.abort()
            await asyncio.sleep(0.1)
            expect(conn.disabled, "didn't notice disconnect", script)
            await asyncio.wait_for(task, 5.0)
            server.close()
            loop.net.tcp.clear()
            stats.state(tuple(script))

        run_loop(main, max_steps=10**9)

    check.add("exchanges", exchanges, split=2, replay_every=0, limit_s=240.0)

    # Concurrent callers.
    def concurrent(chooser, stats):
        callers = 4 if thorough else 3
        delays = [chooser.pick([0.0, 0.4, 1.5]) for _ in range(callers)]
        starts = [chooser.pick([0.0, 0.2]) for _ in range(callers)]
        kinds = [chooser.pick(["query", "set"]) for _ in range(callers)]
        cancel = chooser.pick([None, *range(callers)])

        async def main(loop):
            conn, devices, task, _ = await connect(loop)
            device = devices[0]
            busy = [0]
            handled = []

            async def serve():
                while True:
                    line = (await device.lines.get()).decode()
                    idx = int(line.strip("?")[3:])
                    handled.append(idx)
                    expect_eq(
                        line[3:],
                        f"{idx}" + ("?" if kinds[idx] == "query" else ""),
                        "command",
                    )
                    if line.endswith("?"):
                        # Nothing else is sent until it's answered.
                        for _ in range(10):
                            await asyncio.sleep(delays[idx] / 10)
                            if delays[idx] < TIMEOUT and idx != cancel:
                                expect(
                                    device.lines.empty(), "overlap", handled
                                )
                        if idx != cancel and delays[idx] < TIMEOUT:
                            device.transport.write(f"r{idx}\n".encode())

            server = loop.create_task(serve())

            async def call(idx):
                await asyncio.sleep(starts[idx])
                return await conn.send_command(
                    f"CMD{idx}",
                    query=kinds[idx] == "query",
                    response=kinds[idx] == "query",
                    timeout=TIMEOUT + 1.0,
                )

            tasks = [loop.create_task(call(x)) for x in range(callers)]
            if cancel is not None:
                await asyncio.sleep(0.3)
                tasks[cancel].cancel()
            done = await asyncio.wait_for(
                asyncio.gather(*tasks, return_exceptions=True), 60.0
            )
            for idx, result in enumerate(done):
                if idx == cancel and isinstance(
                    result, asyncio.CancelledError
                ):
                    continue
                want = ""
                if (
                    kinds[idx] == "query"
                    and delays[idx] < TIMEOUT
                    and idx != cancel
                ):
                    want = f"r{idx}"
                expect_eq(
                    result, want, "response", idx, delays, starts, kinds
                )
            busy.clear()
            await asyncio.sleep(5.0)
            expect(not server.done(), "device failed", server)
            for idx in range(callers):
                if idx != cancel:
                    expect_eq(handled.count(idx), 1, "sent", handled)
            server.cancel()
            conn.disable("done")
            await asyncio.wait_for(task, 5.0)

        run_loop(main, max_steps=10**6)
        stats.step()
        stats.state((delays, starts, kinds, cancel))

    check.add("concurrent", concurrent, split=2, limit_s=240.0)

    # Disconnection at any point, and reconnection.
    def reconnect(chooser, stats):
        received = chooser.pick([b"", b"r", b"old\n", b"old\nol", b"\xc3"])
        during = chooser.pick([True, False])
        after = chooser.pick([b"new\n", b"n|ew\n"])

        async def main(loop):
            conn, devices, task, _ = await connect(loop)
            call = None
            if during:
                call = loop.create_task(
                    conn.send_command("A", query=True, timeout=TIMEOUT)
                )
                await asyncio.sleep(0.1)
                expect_eq(devices[0].lines.get_nowait(), b"A?", "sent")
            if received:
                devices[0].transport.write(received)
            await asyncio.sleep(0)
            devices[0].transport.abort()
            if call is not None:
                out = await asyncio.wait_for(call, 5.0)
                expect(
                    out in ("", "old", "r", "�"),
                    "unexpected",
                    out,
                )
            await asyncio.wait_for(task, 5.0)
            expect(conn.disabled, "enabled")
            expect_eq(
                await asyncio.wait_for(
                    conn.send_command("B", response=False), 5.0
                ),
                "",
                "result",
            )

            # Anything not sent may be sent later.
            task = loop.create_task(conn.process())
            while len(devices) < 2:
                await asyncio.sleep(0.1)
            dev = devices[1]
            while await asyncio.wait_for(dev.lines.get(), 5.0) != b"*IDN?":
                pass
            await asyncio.sleep(0.1)
            for piece in (b"dev", b"ice\n"):
                dev.transport.write(piece)
                await asyncio.sleep(0.1)
            await asyncio.wait_for(conn.initialized.wait(), 5.0)
            expect(not conn.disabled, "not initialized again")

            call = loop.create_task(
                conn.send_command("C", query=True, timeout=TIMEOUT)
            )
            await asyncio.sleep(0.1)
            for piece in after.split(b"|"):
                dev.transport.write(piece)
                await asyncio.sleep(0.1)
            expect_eq(await call, "new", "response", received, during)
            conn.disable("done")
            await asyncio.wait_for(task, 5.0)

        run_loop(main, max_steps=10**6)
        stats.step()
        stats.state((received, during, after))

    check.add("reconnect", reconnect)

    # Initialization.
    def initialize(chooser, stats):
        response = chooser.pick(
            [b"dev\n", b"d|ev\n", b"\n|dev\n", b"dev", None, b"\n"]
        )

        async def main(loop):
            devices = []

            def factory():
                devices.append(Device())
                return devices[-1]

            server = loop.net.listen(factory, "127.0.0.1", 0)
            conn = await ScpiConnection.create_connection(
                host="127.0.0.1", port=server.sockets[0].getsockname()[1]
            )
            task = loop.create_task(conn.process())
            await asyncio.sleep(0.1)
            expect_eq(devices[0].lines.get_nowait(), b"*IDN?", "query")
            for piece in (response or b"").split(b"|"):
                if piece:
                    devices[0].transport.write(piece)
                await asyncio.sleep(0.1)
            await asyncio.wait_for(conn.initialized.wait(), 5.0)
            await asyncio.sleep(0.1)
            okay = b"dev" in (response or b"").replace(b"|", b"")
            expect_eq(not conn.disabled, okay, "initialized", response)
            conn.disable("done")
            await asyncio.wait_for(task, 5.0)

        run_loop(main, max_steps=10**6)
        stats.step()
        stats.state(response)

    check.add("initialize", initialize)
    return check
