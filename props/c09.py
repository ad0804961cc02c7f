"""C09: size-prefixed message streams survive every chunking."""

import asyncio
from io import BytesIO
import itertools
import json

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop

PAYLOADS = [b"", b"a", b"\x00\x00", b"\x00\x00\x00\x01", b"xyz\xff"]
TEXTS = ["", "hi", "\u00e9\u20ac"]
OBJECTS = [{}, {"a": 1}, {"k": "\u00e9\n", "n": [1, None]}]


def chunks_of(data: bytes, cuts) -> list[bytes]:
    """Split data at positions."""
    edges = [0, *cuts, len(data)]
    return [data[a:b] for a, b in zip(edges, edges[1:])]


def chunkings(data: bytes, exhaustive: int, cuts: int):
    """All chunkings (short data) or all with few cuts and bytewise."""
    size = len(data)
    if size <= exhaustive:
        for mask in range(1 << max(0, size - 1)):
            yield chunks_of(
                data, [i + 1 for i in range(size - 1) if mask >> i & 1]
            )
        return
    for count in range(cuts + 1):
        for where in itertools.combinations(range(1, size), count):
            yield chunks_of(data, where)
    yield [data[i : i + 1] for i in range(size)]


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.message import MessageProcessor
    from runtimepy.net.stream import (
        TcpPrefixedMessageConnection,
        TcpStringMessageConnection,
        UdpPrefixedMessageConnection,
    )
    from runtimepy.net.tcp.connection import TcpConnection
    from runtimepy.primitives import Uint8, Uint16, Uint32
    from runtimepy.primitives.byte_order import ByteOrder

    thorough = tier == "thorough"
    exhaustive = 15 if thorough else 11
    cuts = 2 if thorough else 2
    check = Check(
        "C09",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of messages up to the length, every chunking of "
            "their bytes, every prefix width and byte order, with consumers "
            "that take everything, stop early, or fail at any message; at "
            "connection level every division into deliveries between two "
            "connected endpoints"
        ),
        bounds={
            "messages": 3,
            "all_chunkings_up_to_bytes": exhaustive,
            "cuts_above": cuts,
        },
    )
    widths = {"uint8": Uint8, "uint16": Uint16, "uint32": Uint32}

    def make(width: str, order):
        class Proc(MessageProcessor):
            """A processor with some prefix width."""

            message_length_kind = widths[width]

        if width == "uint32":
            return MessageProcessor(byte_order=order)
        return Proc(byte_order=order)

    def encode(proc, messages) -> bytes:
        stream = BytesIO()
        for msg in messages:
            proc.encode(stream, msg)
        return stream.getvalue()

    def reference(width: str, order, messages) -> bytes:
        size = {"uint8": 1, "uint16": 2, "uint32": 4}[width]
        endian = "little" if order is ByteOrder.LITTLE_ENDIAN else "big"
        if order is ByteOrder.NATIVE:
            import sys

            endian = sys.byteorder
        out = b""
        for msg in messages:
            raw = msg.encode() if isinstance(msg, str) else msg
            out += len(raw).to_bytes(size, endian) + raw
        return out

    def framing(width: str, order):
        def run(chooser, stats):
            count = chooser.choose(4)
            messages = [chooser.pick(PAYLOADS + TEXTS[1:]) for _ in range(count)]
            data = encode(make(width, order), messages)
            expect_eq(
                data, reference(width, order, messages), "encoded", messages
            )
            want = [
                x.encode() if isinstance(x, str) else x for x in messages
            ]
            for parts in chunkings(data, exhaustive, cuts):
                proc = make(width, order)
                got = []
                for part in parts:
                    for msg in proc.process(part):
                        got.append(bytes(msg))
                stats.step(len(parts))
                expect_eq(got, want, "messages", parts)
                # Nothing may be held back until later data.
                got += [bytes(x) for x in proc.process(b"")]
                expect_eq(got, want, "messages after empty data", parts)
            stats.state((width, str(order), tuple(messages)))
            stats.outcome((width, str(order), data))

        return run

    for width in widths:
        for order in ByteOrder:
            check.add(
                f"framing/{width}/{order.name}",
                framing(width, order),
                split=1,
                limit_s=120,
            )

    # A message is delivered as soon as its last byte arrived.
    def prompt(chooser, stats):
        messages = [chooser.pick(PAYLOADS) for _ in range(3)]
        order = chooser.pick(list(ByteOrder))
        width = chooser.pick(list(widths))
        proc = make(width, order)
        ends = []
        pos = 0
        for msg in messages:
            pos += {"uint8": 1, "uint16": 2, "uint32": 4}[width] + len(msg)
            ends.append(pos)
        data = encode(proc, messages)
        got = 0
        for idx in range(len(data)):
            got += len(list(proc.process(data[idx : idx + 1])))
            expect_eq(
                got, sum(1 for x in ends if x <= idx + 1), "delivered", idx
            )
        stats.step(len(data))
        stats.outcome((tuple(messages), str(order), width))

    check.add("prompt", prompt)

    # Consumers that stop early or fail while handling a message.
    def consumer(chooser, stats):
        messages = [chooser.pick(PAYLOADS[:4]) for _ in range(3)]
        stop = chooser.choose(3)
        how = chooser.pick(["break", "raise"])
        order = chooser.pick([ByteOrder.NETWORK, ByteOrder.LITTLE_ENDIAN])
        data = encode(make("uint16", order), messages)
        for parts in chunkings(data, 11, 1):
            proc = make("uint16", order)
            got = []
            failed = False
            for part in [*parts, b"", b""]:
                try:
                    for msg in proc.process(part):
                        got.append(bytes(msg))
                        if len(got) == stop + 1 and not failed:
                            failed = True
                            if how == "break":
                                break
                            raise ValueError
                except ValueError:
                    pass
            stats.step(len(parts) + 2)
            expect_eq(got, messages, "messages", parts, stop, how)
        stats.outcome((tuple(messages), stop, how, str(order)))

    check.add("consumer", consumer, split=2)

    # JSON messages, some malformed: others aren't affected.
    def as_json(chooser, stats):
        items = [
            chooser.pick([*OBJECTS, "bad", "binary"]) for _ in range(3)
        ]
        proc = MessageProcessor()
        stream = BytesIO()
        for item in items:
            if item == "bad":
                proc.encode(stream, '{"a": ')
            elif item == "binary":
                proc.encode(stream, b"\xff\xfe\xfd")
            else:
                proc.encode_json(stream, item)
        data = stream.getvalue()
        want = [x for x in items if isinstance(x, dict)]
        for parts in chunkings(data, 9, 1):
            proc = MessageProcessor()
            got = []
            for part in [*parts, b"", b"", b"", b""]:
                try:
                    for msg in proc.messages(part):
                        got.append(msg)
                except ValueError:
                    pass
            stats.step(len(parts))
            expect_eq(got, want, "objects", parts)
        stats.outcome(json.dumps(items))

    check.add("json", as_json, split=2)

    # Lengths around what a prefix can express.
    def lengths(chooser, stats):
        width = chooser.pick(["uint8", "uint16"])
        top = {"uint8": 255, "uint16": 65535}[width]
        size = chooser.pick([top - 1, top, top + 1, top + 2, 2 * top])
        order = chooser.pick([ByteOrder.NETWORK, ByteOrder.LITTLE_ENDIAN])
        proc = make(width, order)
        stream = BytesIO()
        proc.encode(stream, b"first")
        try:
            proc.encode(stream, b"x" * size)
            rejected = False
        except (AssertionError, ValueError, OverflowError):
            rejected = True
        proc.encode(stream, b"last")
        expect_eq(rejected, size > top, "rejected", size)
        got = [bytes(x) for x in make(width, order).process(stream.getvalue())]
        want = [b"first", b"x" * size, b"last"]
        if size > top:
            del want[1]
        expect_eq(got, want, "messages", size)
        stats.outcome((width, size, str(order)))
        stats.step(3)

    check.add("lengths", lengths)

    # Connections: any division of the bytes into deliveries, any pace of the
    # message handler.
    def connection(kind: str, order):
        text = kind == "string"
        base = (
            TcpStringMessageConnection
            if text
            else TcpPrefixedMessageConnection
        )

        def run(chooser, stats):
            pool = TEXTS if text else PAYLOADS[:4]
            outgoing = [chooser.pick(pool) for _ in range(2)]
            back = [chooser.pick(pool[:2])]
            slow = chooser.pick([0.5, 0.0] if thorough else [0.5])
            got = {"server": [], "client": []}

            class Conn(base):
                """Records what it receives."""

                byte_order = order

                def init(self):
                    super().init()
                    self.side = "?"

                async def process_message(self, data, addr=None):
                    await asyncio.sleep(slow)
                    got[self.side].append(data)
                    return True

                if not text:

                    async def process_single(self, stream, addr=None):
                        await asyncio.sleep(slow)
                        got[self.side].append(stream.read())
                        return True

            async def main(loop):
                async with Conn.create_pair() as (server, client):
                    server.side, client.side = "server", "client"
                    trans = loop.net.tcp[0]
                    for one in trans:
                        one.manual = True
                    tasks = [
                        loop.create_task(server.process()),
                        loop.create_task(client.process()),
                    ]
                    await asyncio.sleep(0)
                    for msg in outgoing:
                        if text:
                            client.send_message_str(msg)
                        else:
                            client.send_message(msg)
                    for msg in back:
                        if text:
                            server.send_message_str(msg)
                        else:
                            server.send_message(msg)

                    total = sum(len(x) for x in trans[0].pending)
                    # Up to three cuts, each followed by the handler running
                    # to some degree.
                    first = chooser.choose(total + 1)
                    second = chooser.choose(
                        total - first + 1 if thorough or first < 6 else 2
                    )
                    wait = chooser.pick([0.0, 0.25])
                    for size in (first, second):
                        if size:
                            trans[0].deliver(size)
                        await asyncio.sleep(wait)
                    trans[1].deliver()
                    trans[0].deliver()
                    await asyncio.sleep(10.0)
                    expect_eq(got["server"], outgoing, "client -> server")
                    expect_eq(got["client"], back, "server -> client")
                    expect(not server.disabled, "server disabled")
                    expect(not client.disabled, "client disabled")
                    client.disable("done")
                    server.disable("done")
                    await asyncio.gather(*tasks)
                    stats.step(5)
                    stats.outcome((first, second, tuple(outgoing)))
                    return got

            result = run_loop(main)[1]
            stats.state((tuple(outgoing), tuple(back), slow))
            return result

        return run

    for kind in ("string", "bytes"):
        for order in (ByteOrder.NETWORK, ByteOrder.LITTLE_ENDIAN):
            check.add(
                f"connection/{kind}/{order.name}",
                connection(kind, order),
                split=3,
                replay_every=499,
            )

    # Datagrams: several messages per datagram, from several sources.
    def datagrams(chooser, stats):
        got = []

        class Conn(UdpPrefixedMessageConnection):
            """Records what it receives."""

            async def process_single(self, stream, addr=None):
                got.append((stream.read(), addr))
                return True

        plan = []
        for _ in range(3):
            count = chooser.choose(3)
            plan.append(
                (
                    [
                        chooser.pick(PAYLOADS[: 3 if thorough else 2])
                        for _ in range(count)
                    ],
                    chooser.pick([("127.0.0.1", 5001), ("127.0.0.1", 5002)]),
                )
            )

        async def main(loop):
            conn = await Conn.create_connection(
                local_addr=("127.0.0.1", 5000)
            )
            task = loop.create_task(conn.process())
            await asyncio.sleep(0)
            want = []
            udp = loop.net.udp[("127.0.0.1", 5000)]
            for messages, addr in plan:
                udp.feed(encode(MessageProcessor(), messages), addr)
                want += [(x, addr) for x in messages]
            # Messages sent to an address arrive there, each in a datagram.
            conn.send_message(b"out", addr=("127.0.0.1", 5002))
            conn.send_message_str("more", addr=("127.0.0.1", 5001))
            await asyncio.sleep(1.0)
            expect_eq(got, want, "messages")
            expect_eq(
                udp.sent,
                [
                    (b"\x00\x00\x00\x03out", ("127.0.0.1", 5002)),
                    (b"\x00\x00\x00\x04more", ("127.0.0.1", 5001)),
                ],
                "sent",
            )
            conn.disable("done")
            await task
            stats.step(len(plan))
            stats.outcome(tuple(want))
            return want

        return run_loop(main)[1]

    check.add("datagrams", datagrams, split=2)
    assert TcpConnection
    return check
