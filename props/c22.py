"""C22: telnet streams are understood however their bytes arrive."""

import asyncio
import codecs
import itertools

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop

IAC = 255
COMMANDS = set(range(240, 251))
OPTIONS = set(range(251, 255))
NVT_TEXT = {9, 10, 13}
NVT_SIGNAL = {0, 7, 8, 11, 12}


class Reference:
    """What a stream means."""

    def __init__(self) -> None:
        self.text = b""
        self.commands: list = []
        self.options: list = []
        self.signals: list = []
        self.state: list = []

    def feed(self, data: bytes) -> None:
        """Process a piece of the stream."""
        for val in data:
            if len(self.state) == 2:
                self.options.append((self.state[1], val))
                self.state = []
            elif self.state:
                self.state = []
                if val in OPTIONS:
                    self.state = [IAC, val]
                elif val == IAC:
                    self.text += bytes([val])
                elif val in COMMANDS:
                    self.commands.append(val)
            elif val == IAC:
                self.state = [IAC]
            elif val in NVT_SIGNAL:
                self.signals.append(val)
            else:
                self.text += bytes([val])


TOKENS = [
    b"a",
    b"\xc3\xa9",
    b"\r\n",
    b"\t",
    b"\x07",
    b"\x00",
    b"\xff\xff",
    b"\xff\xf1",
    b"\xff\xf9",
    b"\xff\xfb\x01",
    b"\xff\xfe\xff",
    b"\xff\xfd\x00",
    b"\xff\xfa\x18\x01\xff\xf0",
    b"\xff\x0a",
    b"\xff\xc8",
    b"\xe2\x82\xac",
    b"\xf0",
]


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.net.tcp.telnet import BasicTelnet, Telnet, TelnetCode

    thorough = tier == "thorough"
    check = Check(
        "C22",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of tokens (text, characters of several bytes, "
            "commands, options, escapes, signals, undefined codes) up to the "
            "length with every division into pieces, compared with a "
            "reference; every pair of bytes; reconnection at every point"
        ),
        bounds={"tokens": 4 if thorough else 3, "pieces": "all or up to 4"},
    )

    class Recorder(Telnet):
        """Records what happens."""

        seen: Reference
        strings: list

        def init(self) -> None:
            self.seen = Reference()
            self.strings = []

        async def process_command(self, code) -> None:
            self.seen.commands.append(int(code))
            expect(isinstance(code, TelnetCode), "code")

        async def handle_nvt(self, action) -> None:
            self.seen.signals.append(int(action))

        async def process_option(self, code, option, stream) -> None:
            expect(isinstance(code, TelnetCode), "code")
            self.seen.options.append((int(code), option))

    class Raw(Recorder):
        """Records bytes."""

        async def process_telnet_message(self, data: bytes) -> bool:
            self.seen.text += data
            return True

        async def process_text(self, data: str) -> bool:
            raise NotImplementedError

    class Text(Recorder):
        """Records text."""

        async def process_text(self, data: str) -> bool:
            self.strings.append(data)
            return True

    class Peer(asyncio.Protocol):
        """A scripted peer."""

        def __init__(self) -> None:
            self.data = b""

        def connection_made(self, transport) -> None:
            self.transport = transport

        def data_received(self, data) -> None:
            self.data += bytes(data)

    async def connect(loop, cls):
        """A connection and its peer."""
        peers = []

        def factory():
            peers.append(Peer())
            return peers[-1]

        server = loop.net.listen(factory, "127.0.0.1", 0)
        conn = await cls.create_connection(
            host="127.0.0.1", port=server.sockets[0].getsockname()[1]
        )
        return conn, peers, server

    def compare(conn, ref, where):
        """Compare a connection with a reference."""
        seen = conn.seen
        expect_eq(seen.commands, ref.commands, "commands", where)
        expect_eq(seen.options, ref.options, "options", where)
        expect_eq(seen.signals, ref.signals, "signals", where)
        if isinstance(conn, Raw):
            expect_eq(seen.text, ref.text, "data", where)
        else:
            dec = codecs.getincrementaldecoder("utf-8")(errors="replace")
            expect_eq(
                "".join(conn.strings), dec.decode(ref.text), "text", where
            )

    def divisions(data: bytes):
        """Ways to divide data."""
        size = len(data)
        if size <= 7:
            for bits in range(2 ** max(0, size - 1)):
                yield [x + 1 for x in range(size - 1) if bits >> x & 1]
        else:
            for count in range(4):
                yield from itertools.combinations(range(1, size), count)
            yield list(range(1, size))

    def pieces(data: bytes, cuts):
        """Divide data."""
        ends = [0, *cuts, len(data)]
        return [data[x:y] for x, y in zip(ends, ends[1:])]

    async def stream(conn, data, cuts):
        """Process a stream (and what returns to plain text)."""
        ref = Reference()
        where = (data, list(cuts))
        for piece in [*pieces(data, cuts), b"Z", b"ZZ"]:
            ref.feed(piece)
            expect(await conn.process_binary(piece), "stopped", where)
        compare(conn, ref, where)
        expect(not conn.disabled, "disabled", where)
        conn.init()

    # (Not through a transport, for the number of streams.)
    def streams(chooser, stats):
        length = 4 if thorough else 3
        first = chooser.pick(TOKENS)
        second = chooser.pick(TOKENS + [b""])

        async def main(loop):
            for cls in (Raw, Text):
                conn, _, server = await connect(loop, cls)
                for depth in range(length - 1) if second else (0,):
                    for rest in itertools.product(TOKENS, repeat=depth):
                        data = first + second + b"".join(rest)
                        for cuts in divisions(data):
                            await stream(conn, data, cuts)
                            stats.step(len(cuts) + 1)
                        stats.state(data)
                conn.disable("done")
                server.close()

        run_loop(main, max_steps=10**9)

    check.add("streams", streams, split=2, limit_s=240.0, replay_every=0)

    # Every pair of bytes, through a real connection.
    def pairs(chooser, stats):
        first = chooser.choose(256)
        prefix = chooser.pick([b"", b"\xff", b"\xff\xfb"])

        async def main(loop):
            conn, peers, _ = await connect(loop, Raw)
            task = loop.create_task(conn.process())
            await asyncio.sleep(0)
            for second in range(256):
                data = prefix + bytes([first, second])
                ref = Reference()
                ref.feed(data + b"ZZZ")
                for val in data + b"ZZZ":
                    peers[0].transport.write(bytes([val]))
                    await asyncio.sleep(0)
                await asyncio.sleep(0.01)
                expect(
                    not conn.disabled and not task.done(), "stopped", data
                )
                compare(conn, ref, data)
                conn.init()
                stats.step()
            conn.disable("done")
            await asyncio.wait_for(task, 5.0)

        run_loop(main, max_steps=10**9)
        stats.state((first, prefix))

    check.add("pairs", pairs, split=2, replay_every=0)

    # Reconnecting at any point of a stream.
    def reconnect(chooser, stats):
        before = chooser.pick([x[:y] for x in TOKENS for y in range(len(x))])
        after = chooser.pick(TOKENS)
        cls = chooser.pick([Raw, Text])

        async def main(loop):
            conn, peers, _ = await connect(loop, cls)
            conn.env.set("auto_restart", True)
            stop = asyncio.Event()

            async def forever():
                while not stop.is_set():
                    await conn.process(stop_sig=stop)
                    if not stop.is_set():
                        await asyncio.sleep(0.01)
                        await conn.restart()

            task = loop.create_task(forever())
            await asyncio.sleep(0.01)
            ref = Reference()
            ref.feed(before)
            if before:
                peers[0].transport.write(before)
            await asyncio.sleep(0.01)
            peers[0].transport.abort()
            for _ in range(400):
                await asyncio.sleep(0.05)
                if len(peers) > 1:
                    break
            expect(len(peers) > 1, "didn't reconnect")
            await asyncio.sleep(0.05)
            ref.state = []
            peers[-1].transport.write(after + b"Z")
            ref.feed(after + b"Z")
            await asyncio.sleep(0.05)
            where = (before, after)
            if cls is Raw:
                compare(conn, ref, where)
            else:
                # (A cut character may be dropped.)
                text = "".join(conn.strings)
                dec = codecs.getincrementaldecoder("utf-8")(errors="replace")
                single = Reference()
                single.feed(after + b"Z")
                expect(
                    text.endswith(dec.decode(single.text)), "text", where, text
                )
            stop.set()
            conn.disable("done")
            await asyncio.wait_for(task, 10.0)

        run_loop(main, max_steps=10**6)
        stats.step()
        stats.state((before, after))

    check.add("reconnect", reconnect, split=1)

    # Sending.
    def sending(chooser, stats):
        async def main(loop):
            conn, peers, _ = await connect(loop, Raw)
            await asyncio.sleep(0)
            for code in TelnetCode:
                peers[0].data = b""
                conn.send_command(code)
                await asyncio.sleep(0.01)
                expect_eq(peers[0].data, bytes([255, code]), "command")
                for option in range(256):
                    peers[0].data = b""
                    try:
                        conn.send_option(code, option)
                        okay = True
                    except AssertionError:
                        okay = False
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)
                    if int(code) in OPTIONS:
                        expect(okay, "rejected", code)
                    if okay:
                        expect_eq(
                            peers[0].data, bytes([255, code, option]), "option"
                        )
                    stats.step()

            # Interrupts.
            for stream in (b"\xff\xf4", b"abc\xff\xf4"):
                for cut in range(1, len(stream)):
                    other, others, _ = await connect(loop, BasicTelnet)
                    task = loop.create_task(other.process())
                    await asyncio.sleep(0.01)
                    for piece in (stream[:cut], stream[cut:]):
                        expect(not other.disabled, "early")
                        others[0].transport.write(piece)
                        await asyncio.sleep(0.01)
                    expect(other.disabled, "not interrupted", stream, cut)
                    await asyncio.wait_for(task, 5.0)

        run_loop(main, max_steps=10**7)
        stats.state("sending")

    check.add("sending", sending, limit_s=120.0)
    return check
