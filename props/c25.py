"""C25: sampled structs arrive whole, in order and exactly once."""

import asyncio
from io import BytesIO
import itertools

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.net.arbiter.struct import (
        TimestampedStruct,
        UdpStructTransceiver,
    )
    from runtimepy.net.mtu import UDP_HEADER_SIZE
    from runtimepy.primitives import Float, Int16, Uint8, Uint32
    from runtimepy.primitives.array import PrimitiveArray
    from runtimepy.primitives.byte_order import ByteOrder
    from runtimepy.primitives.serializable.framer import SerializableFramer

    thorough = tier == "thorough"
    depth = 6 if thorough else 5
    check = Check(
        "C25",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of samples, flushes and size changes up to the "
            "depth for each layout and size; every assignment of faults "
            "(loss, duplication, reordering, unexpected datagrams) to the "
            "datagrams of a session"
        ),
        bounds={"operations": depth, "faults": "any of the datagrams"},
    )

    def layouts():
        """Serializables and a way to change their values."""
        yield "u8", lambda: [[Uint8()]], ByteOrder.NETWORK
        yield "mixed", lambda: [
            [Uint8(), Uint32(), Float()]
        ], ByteOrder.LITTLE_ENDIAN
        yield "chain2", lambda: [
            [Uint32()],
            [Uint8(), Int16()],
        ], ByteOrder.LITTLE_ENDIAN
        yield "chain3", lambda: [[Uint8()], [Uint8()], [Int16()]], (
            ByteOrder.NETWORK
        )

    def framer(chooser, stats):
        _, make, order = chooser.pick(
            list(layouts()), costs=None
        )
        extra = chooser.pick([0, 1, 2, -1])
        fits = chooser.pick([1, 2, 3])
        overhead = chooser.pick([0, 5])

        prims = make()
        arrays = [PrimitiveArray(*x, byte_order=order) for x in prims]
        for prev, curr in zip(arrays, arrays[1:]):
            prev.assign(curr)
        base = arrays[0]
        flat = [x for y in prims for x in y]
        size = sum(x.size for x in flat)
        expect_eq(base.length(), size, "length")

        count = [0]

        def change():
            """Change values and get their encoding."""
            count[0] += 1
            data = b""
            for idx, prim in enumerate(flat):
                prim.value = (count[0] * 3 + idx) % 100
                data += prim.kind.encode(prim.value, byte_order=order)
            return data

        limit = fits * size + max(0, min(extra, size - 1))
        if extra == -1:
            limit = fits * size + size - 1

        def capture(inst, flush):
            nonlocal pending, bound
            item = change()
            pending.append(item)
            return emit(inst.capture(flush=flush), flush)

        def emit(out, flush):
            nonlocal pending
            if pending and (flush or len(pending) == bound):
                expect_eq(out, b"".join(pending), "frame")
                expect(len(out) <= top, "size")
                pending = []
            else:
                expect(not out, "unexpected frame", out)

        ops = ["sample", "flush-sample", "flush", "nothing", "small", "grow"]

        for first in itertools.product(ops, repeat=depth - 1):
            count[0] = 0
            pending: list = []
            inst = SerializableFramer(base, size)
            bound = inst.set_mtu(
                limit + overhead, protocol_overhead=overhead
            )
            top = limit
            expect_eq(bound, fits, "elements")
            for operation in (*first, "flush"):
                if operation == "sample":
                    capture(inst, False)
                elif operation == "flush-sample":
                    capture(inst, True)
                elif operation == "flush":
                    change()
                    emit(inst.capture(sample=False, flush=True), True)
                elif operation == "nothing":
                    change()
                    emit(inst.capture(sample=False), False)
                elif operation == "small":
                    try:
                        inst.set_mtu(
                            size - 1 + overhead, protocol_overhead=overhead
                        )
                        expect(False, "accepted")
                    except AssertionError:
                        pass
                elif not pending:
                    top += size
                    bound += 1
                    expect_eq(
                        inst.set_mtu(
                            top + overhead, protocol_overhead=overhead
                        ),
                        bound,
                        "elements",
                    )
                stats.step()
            stats.state(first)

    check.add("framer", framer, split=2, replay_every=0, limit_s=240.0)

    class Sample(TimestampedStruct):
        """A struct."""

        def init_env(self) -> None:
            super().init_env()
            self.env.int_channel("a", "uint8")
            self.env.int_channel("b", "int32")
            self.env.bool_channel("c")
            self.env.float_channel("d", "double")

    names = ["timestamp", "sequence", "a", "b", "c", "d"]

    def transceivers(chooser, stats):
        order = chooser.pick(
            [ByteOrder.BIG_ENDIAN, ByteOrder.LITTLE_ENDIAN, ByteOrder.NATIVE]
        )
        fits = chooser.pick([1, 2, 3])
        start = chooser.pick([0, 65533])
        size = 8 + 2 + 1 + 4 + 1 + 8
        count = 7 if thorough else 6
        script = [
            chooser.pick(["sample", "flush-sample", "sample|flush"])
            for _ in range(3)
        ]
        script += ["sample"] * (count - 3)
        clock = [1000]

        class Kind(Sample):
            """A struct with a clock."""

            byte_order = order

            @staticmethod
            def time_keeper():
                clock[0] += 17
                return clock[0]

        class Conn(UdpStructTransceiver[Kind]):
            """A connection with a fixed size."""

            struct_kind = Kind
            probes: list = []

            def init(self) -> None:
                super().init()
                self.got = []

            def mtu(self, probe_size=1400, fallback=0, probe_create=bytes):
                payload = probe_create(probe_size)
                expect(0 < len(payload) <= probe_size, "probe", len(payload))
                return UDP_HEADER_SIZE + fits * size + size // 2

            def handle_update(self, timestamp_ns, instance, addr) -> None:
                expect_eq(
                    instance.timestamp.last_updated_ns, timestamp_ns, "time"
                )
                self.got.append(
                    (
                        timestamp_ns,
                        tuple(instance.env.value(x) for x in names),
                        addr,
                    )
                )

        def struct(name):
            inst = Kind(name, {})
            inst.init_env()
            inst.update_byte_order(order)
            return inst

        async def session(loop, faults, stray):
            sent = []
            arrived = []
            rx = await Conn.create_connection(local_addr=("127.0.0.1", 0))
            port = rx.local_address.port
            tx = await Conn.create_connection(
                remote_addr=("127.0.0.1", port)
            )

            def on_datagram(source, data, dest):
                if tuple(dest) == ("127.0.0.1", port):
                    sent.append(data)
                    return False
                return True

            loop.net.on_datagram = on_datagram
            tasks = [loop.create_task(x.process()) for x in (rx, tx)]
            await asyncio.sleep(0.01)
            tx_struct, rx_struct = struct("tx"), struct("rx")

            # Not assigned.
            tx.capture(flush=True)
            expect_eq(sent, [], "sent without struct")
            loop.net.deliver(("127.0.0.1", 5), b"early", ("127.0.0.1", port))
            await asyncio.sleep(0.01)

            tx.assign_tx(tx_struct)
            rx.assign_rx(rx_struct)
            expect_eq(sent, [], "sent by assigning")
            expect_eq(tx_struct.array.size, size, "size")
            tx_struct.sequence.value = start

            samples = []
            frames = []
            pending = []

            def take(flush):
                nonlocal pending
                values = (
                    tx_struct.timestamp.value,
                    tx_struct.sequence.value,
                    *(tx_struct.env.value(x) for x in names[2:]),
                )
                pending.append(values)
                if flush or len(pending) == fits:
                    frames.append(pending)
                    pending = []

            for idx, op in enumerate(script):
                tx_struct.env.set("a", 250 + idx)
                tx_struct.env.set("b", -idx * 70000)
                tx_struct.env.set("c", idx % 2 == 0)
                tx_struct.env.set("d", idx * 0.25)
                tx.capture(flush=op == "flush-sample")
                expect_eq(tx_struct.timestamp.value, clock[0], "timestamp")
                expect_eq(
                    tx_struct.sequence.value,
                    (start + idx + 1) % 65536,
                    "sequence",
                )
                take(op == "flush-sample")
                samples.append(tx_struct.sequence.value)
                if op == "sample|flush":
                    tx.capture(sample=False, flush=True)
                    if pending:
                        frames.append(pending)
                        pending = []
                tx.capture(sample=False)
                expect_eq(len(sent), len(frames), "datagrams", script, idx)
            tx.capture(sample=False, flush=True)
            if pending:
                frames.append(pending)
            expect_eq(len(sent), len(frames), "datagrams", script)
            for data, frame in zip(sent, frames):
                expect_eq(len(data), len(frame) * size, "datagram size")

            # Deliver with faults.
            deliveries = []
            for idx, frame in enumerate(frames):
                kind = faults[idx] if idx < len(faults) else "ok"
                if kind in ("ok", "dup"):
                    deliveries += [(sent[idx], frame)] * (
                        2 if kind == "dup" else 1
                    )
                elif kind == "swap":
                    deliveries.insert(
                        max(0, len(deliveries) - 1), (sent[idx], frame)
                    )
            want = []
            for idx, (data, frame) in enumerate(deliveries):
                if idx == stray[0]:
                    loop.net.deliver(
                        ("127.0.0.1", 5), stray[1], ("127.0.0.1", port)
                    )
                loop.net.deliver(
                    ("127.0.0.1", 6), data, ("127.0.0.1", port)
                )
                arrived.append(frame)
                want += frame
                if idx % 2:
                    await asyncio.sleep(0.01)
            await asyncio.sleep(0.05)
            expect(not rx.disabled, "receiver disabled", faults, stray)
            expect_eq(
                [x[1] for x in rx.got], want, "received", faults, stray
            )
            expect_eq(
                [x[0] for x in rx.got], [x[0] for x in want], "timestamps"
            )
            expect(
                all(x[2] == ("127.0.0.1", 6) for x in rx.got), "addresses"
            )
            for conn in (rx, tx):
                conn.disable("done")
            for task in tasks:
                await asyncio.wait_for(task, 5.0)
            loop.net.udp.clear()
            stats.step()

        async def main(loop):
            kinds = ["ok", "drop", "dup", "swap"]
            for faults in itertools.product(kinds, repeat=3):
                await session(loop, faults, (None, b""))
            for cut in (0, 1, 7, 8, size - 1, size + 1, 2 * size + 3, 1400):
                for where in (0, 1, 2):
                    if cut:
                        await session(loop, (), (where, b"\x01" * cut))
            await session(loop, (), (1, b""))

        run_loop(main, max_steps=10**8)
        stats.state((order, fits, start, script))

    check.add("transceivers", transceivers, split=3, limit_s=240.0)

    # Decoding arrays.
    def arrays(chooser, stats):
        order = chooser.pick([ByteOrder.BIG_ENDIAN, ByteOrder.LITTLE_ENDIAN])
        count = chooser.choose(5)

        class Kind(Sample):
            """A struct with a byte order."""

            byte_order = order

        def struct(name):
            inst = Kind(name, {})
            inst.init_env()
            inst.update_byte_order(order)
            return inst

        source, sink = struct("a"), struct("b")
        for values in itertools.product([0, 255, 7], repeat=count):
            want = []
            with BytesIO() as stream:
                for idx, val in enumerate(values):
                    source.poll()
                    source.env.set("a", val)
                    source.env.set("b", -val * (idx + 1))
                    source.env.set("c", val == 7)
                    want.append(
                        (
                            source.timestamp.value,
                            tuple(source.env.value(x) for x in names),
                        )
                    )
                    source.array.to_stream(stream)
                data = stream.getvalue()
            got = []
            for stamp in sink.process_datagram(data):
                got.append(
                    (stamp, tuple(sink.env.value(x) for x in names))
                )
            expect_eq(got, want, "samples")
            stats.step()
            stats.state((order, values))

    check.add("arrays", arrays)
    return check
