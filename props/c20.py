"""C20: TFTP transfers are complete and intact or reported as failed."""

import asyncio
from pathlib import Path
import shutil
import tempfile

from mc.core import CLEANUPS, Check, expect, expect_eq
from mc.vloop import run_loop

ADDR = ("127.0.0.1", 6900)
NAMES = {0: "invalid", 1: "RRQ", 2: "WRQ", 3: "DATA", 4: "ACK", 5: "ERROR"}


def content(size: int, salt: int) -> bytes:
    """File contents where all blocks differ."""
    return bytes(
        (salt + idx * 7 + (idx >> 8) * 13 + idx // 512) & 0xFF
        for idx in range(size)
    )


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.net.udp.tftp import TftpConnection, tftp_read, tftp_write

    thorough = tier == "thorough"
    count = 11 if thorough else 10
    check = Check(
        "C20",
        tier,
        kind="model_checking",
        rule=(
            "every placement of faults (loss, duplication, delay, late "
            "duplicates) over the datagrams of each transfer and of pairs of "
            "transfers, between two real endpoints; transfers against "
            "scripted peers that answer from other ports, stop answering or "
            "send blocks again"
        ),
        bounds={
            "faults": 3 if thorough else 2,
            "datagrams_with_faults": count,
            "blocks": 3,
        },
    )

    base = Path(tempfile.mkdtemp(prefix="mc-c20-"))
    CLEANUPS.append(lambda: shutil.rmtree(base, True))

    def folder():
        """A new folder."""
        return Path(tempfile.mkdtemp(dir=base))

    class Faults:
        """Disturbs datagrams."""

        def __init__(self, loop, chooser, menu, limit):
            self.loop = loop
            self.chooser = chooser
            self.menu = menu
            self.limit = limit
            self.log: list = []
            self.count = 0

        def __call__(self, source, data, dest):
            fault = "ok"
            self.count += 1
            if self.count <= self.limit:
                fault = self.chooser.pick(self.menu)
            self.log.append(
                (
                    round(self.loop.time(), 3),
                    f"{source.local[1]}->{dest[1]}",
                    NAMES.get(data[1], "?"),
                    int.from_bytes(data[2:4], "big")
                    if data[1] in (3, 4)
                    else "",
                    fault,
                )
            )
            deliver = self.loop.net.deliver
            src = source.local
            if fault in ("dup", "dup-late"):
                self.loop.call_soon(deliver, src, data, dest)
                if fault == "dup":
                    self.loop.call_soon(deliver, src, data, dest)
            if fault == "late":
                self.loop.call_later(0.3, deliver, src, data, dest)
            if fault == "dup-late":
                self.loop.call_later(0.45, deliver, src, data, dest)
            return fault == "ok"

    async def peers(loop, root, restart=True):
        """A server and a client."""
        server = await TftpConnection.create_connection(
            local_addr=ADDR
        )
        server.set_root(root)
        client = await TftpConnection.create_connection(
            remote_addr=ADDR
        )
        tasks = [
            loop.create_task(server.process()),
            loop.create_task(client.process()),
        ]
        await asyncio.sleep(0.01)
        return server, client, tasks

    async def finish(loop, conns, tasks):
        """Shut down."""
        for conn in conns:
            expect(not conn.disabled, "connection was disabled")
            conn.disable("done")
        await asyncio.wait_for(asyncio.gather(*tasks), 5.0)

    SIZES = [0, 1, 512, 700, 1024] + ([513, 1500] if thorough else [])

    # One transfer.
    def single(oper, size, menu):
        def run(chooser, stats):
            root = folder()
            ours = folder()
            data = content(size, 1)

            async def main(loop):
                server, client, tasks = await peers(loop, root)
                faults = Faults(loop, chooser, menu, count)
                loop.net.on_datagram = faults
                start = loop.time()
                if oper == "read":
                    (root / "file").write_bytes(data)
                    result = await client.request_read(ours / "out", "file", addr=ADDR)
                else:
                    (ours / "src").write_bytes(data)
                    (root / "file").write_bytes(b"old contents")
                    result = await client.request_write(
                        ours / "src", "file", addr=ADDR, verify=oper == "verify"
                    )
                expect(isinstance(result, bool), "result", result)
                expect(loop.time() - start < 15.0, "took too long", faults.log)
                # Allow both ends to finish.
                await asyncio.sleep(4.0)
                got = (
                    (ours / "out") if oper == "read" else (root / "file")
                ).read_bytes()
                expect(
                    result, "transfer failed", oper, size, faults.log
                )
                expect(
                    got == data,
                    "wrong data",
                    oper,
                    size,
                    len(got),
                    faults.log,
                )
                expect_eq(
                    sorted(x.name for x in root.iterdir()),
                    ["file"],
                    "files",
                )
                # The channel becomes quiet.
                loop.net.on_datagram = None
                sent = len(faults.log)
                await asyncio.sleep(10.0)
                expect_eq(len(faults.log), sent, "still sending")
                await finish(loop, (server, client), tasks)
                stats.step(len(faults.log))
                stats.state(str(faults.log))

            try:
                run_loop(main, max_steps=200000)
            finally:
                shutil.rmtree(root, True)
                shutil.rmtree(ours, True)

        return run

    FULL = ["ok", "drop", "dup", "late", "dup-late"]
    for oper in ("read", "write", "verify"):
        for size in SIZES:
            check.add(
                f"single/{oper}/{size}",
                single(oper, size, FULL),
                bound=2,
                key="single",
                split=1,
            )
            # (Late copies of a request and of blocks can't be told apart from
            # another transfer.)
            if thorough:
                check.add(
                    f"single-3/{oper}/{size}",
                    single(oper, size, FULL[:-1]),
                    bound=3,
                    key="single",
                    split=1,
                )

    # Two transfers with the same endpoints.
    def pair(first, second, sizes, same, menu):
        def run(chooser, stats):
            root = folder()
            ours = folder()
            datas = [content(sizes[0], 1), content(sizes[1], 100)]
            names = ["file0", "file0" if same else "file1"]

            async def main(loop):
                server, client, tasks = await peers(loop, root)
                faults = Faults(loop, chooser, menu, count + 4)
                loop.net.on_datagram = faults
                model = {}
                for idx, oper in enumerate((first, second)):
                    if oper == "read" and names[idx] not in model:
                        (root / names[idx]).write_bytes(datas[idx])
                        model[names[idx]] = datas[idx]
                for idx, oper in enumerate((first, second)):
                    # (Without other ports for each transfer, disturbed ones
                    # have to settle.)
                    if idx and len(menu) > 1:
                        await asyncio.sleep(2.5)
                    name = names[idx]
                    if oper == "read":
                        out = ours / f"out{idx}"
                        result = await client.request_read(out, name, addr=ADDR)
                        got = out.read_bytes() if result else None
                    else:
                        (ours / "src").write_bytes(datas[idx])
                        result = await client.request_write(
                            ours / "src", name, addr=ADDR, verify=oper == "verify"
                        )
                        model[name] = datas[idx]
                        got = model[name]
                    where = (first, second, sizes, idx, faults.log)
                    expect(result, "transfer failed", where)
                    expect(got == model[name], "wrong data", where)
                await asyncio.sleep(4.0)
                for name, data in model.items():
                    expect(
                        (root / name).read_bytes() == data,
                        "wrong data at the server",
                        name,
                        faults.log,
                    )
                await finish(loop, (server, client), tasks)
                stats.step(len(faults.log))
                stats.state(str(faults.log))

            try:
                run_loop(main, max_steps=200000)
            finally:
                shutil.rmtree(root, True)
                shutil.rmtree(ours, True)

        return run

    for first in ("read", "write", "verify"):
        for second in ("read", "write", "verify"):
            for sizes in ((1, 2), (700, 600), (600, 3)):
                for same in (False, True):
                    for menu in (["ok"], ["ok", "drop", "dup"]):
                        check.add(
                            f"pair/{first}/{second}/{sizes}/{same}/{len(menu)}",
                            pair(first, second, sizes, same, menu),
                            bound=2 if thorough else 1,
                            key="pair",
                        )

    # The connection is cut, for some time, from some datagram on.
    def cut(oper, size, then):
        def run(chooser, stats):
            root = folder()
            ours = folder()
            data = content(size, 1)
            other = content(900, 50)
            start = chooser.pick(list(range(0, 9)), costs=[0] * 9)
            side = chooser.pick(["both", "to server", "to client"])

            async def main(loop):
                server, client, tasks = await peers(loop, root)
                count = 0
                active = True

                def on_datagram(source, data, dest):
                    nonlocal count
                    count += 1
                    if not active or count <= start:
                        return True
                    if side == "to server":
                        return dest[1] != 6900
                    if side == "to client":
                        return dest[1] == 6900
                    return False

                loop.net.on_datagram = on_datagram
                where = (oper, size, start, side)
                begin = loop.time()
                (root / "next").write_bytes(other)
                if oper == "read":
                    (root / "file").write_bytes(data)
                    result = await client.request_read(
                        ours / "out", "file", addr=ADDR
                    )
                    if result:
                        expect(
                            (ours / "out").read_bytes() == data,
                            "wrong data",
                            where,
                        )
                    expect(
                        (root / "file").read_bytes() == data,
                        "source changed",
                        where,
                    )
                else:
                    (ours / "src").write_bytes(data)
                    (root / "file").write_bytes(b"old contents")
                    result = await client.request_write(
                        ours / "src", "file", addr=ADDR, verify=oper == "verify"
                    )
                    expect(
                        (ours / "src").read_bytes() == data,
                        "source changed",
                        where,
                    )
                expect(isinstance(result, bool), "result", where)
                expect(
                    result or count > start, "failed for no reason", where
                )
                expect(
                    loop.time() - begin < 12.0, "took too long", where
                )
                await asyncio.sleep(4.0)
                if oper != "read":
                    got = (root / "file").read_bytes()
                    expect(not result or got == data, "wrong data", where)
                    # (Contents are only replaced by what was sent.)
                    expect(
                        got == b"old contents"
                        or (got == data[: len(got)]),
                        "neither contents",
                        where,
                        len(got),
                    )

                # Everything works again.
                active = False
                if then == "read":
                    expect(
                        await client.request_read(
                            ours / "out2", "next", addr=ADDR
                        ),
                        "second transfer failed",
                        where,
                    )
                    expect(
                        (ours / "out2").read_bytes() == other,
                        "wrong data",
                        where,
                    )
                else:
                    (ours / "src2").write_bytes(other)
                    expect(
                        await client.request_write(
                            ours / "src2", "file", addr=ADDR, verify=True
                        ),
                        "second transfer failed",
                        where,
                    )
                    expect(
                        (root / "file").read_bytes() == other,
                        "wrong data",
                        where,
                    )
                await asyncio.sleep(3.0)
                await finish(loop, (server, client), tasks)
                stats.step(count)
                stats.state((where, count, result))

            try:
                run_loop(main, max_steps=200000)
            finally:
                shutil.rmtree(root, True)
                shutil.rmtree(ours, True)

        return run

    for oper in ("read", "write", "verify"):
        for size in (0, 700, 1024):
            for then in ("read", "verify"):
                check.add(
                    f"cut/{oper}/{size}/{then}",
                    cut(oper, size, then),
                    key="cut",
                )

    # A client against a scripted server that answers from another port, with
    # any sequence of blocks, while somebody else interferes.
    def pack(code, block, data=b""):
        return code.to_bytes(2, "big") + block.to_bytes(2, "big") + data

    class Script(asyncio.DatagramProtocol):
        """A scripted peer."""

        def __init__(self):
            self.inbox: list = []
            self.transport = None

        def connection_made(self, transport):
            self.transport = transport

        def datagram_received(self, data, addr):
            self.inbox.append((data, tuple(addr)[:2]))

    async def script(loop, local):
        """Create a scripted peer."""
        return (
            await loop.create_datagram_endpoint(Script, local_addr=local)
        )[1]

    def scripted_read(chooser, stats):
        size = chooser.pick([3, 512, 700])
        data = content(size, 1)
        blocks = [data[x : x + 512] for x in range(0, size + 1, 512)]
        same_port = chooser.pick([True, False])
        plan = []
        evil = b"evil" * 100
        for _ in range(5 if thorough else 4):
            plan.append(
                chooser.pick(
                    [
                        ("block", 1),
                        ("block", 2),
                        ("block", 3),
                        ("error", 0),
                        ("stranger", 1),
                        ("stranger", 2),
                    ]
                )
            )
        ours = folder()

        async def main(loop):
            server = await script(loop, ADDR)
            replies = (
                server
                if same_port
                else await script(loop, ("127.0.0.1", 7777))
            )
            stranger = await script(loop, ("127.0.0.9", 6900))
            client = await TftpConnection.create_connection(
                remote_addr=ADDR, local_addr=("127.0.0.1", 5555)
            )
            tasks = [loop.create_task(client.process())]
            await asyncio.sleep(0.01)
            task = loop.create_task(
                client.request_read(ours / "out", "file", addr=ADDR)
            )
            await asyncio.sleep(0.05)
            expect_eq(
                [x[0] for x in server.inbox],
                [b"\x00\x01file\x00octet\x00"],
                "request",
            )
            dest = ("127.0.0.1", 5555)
            want = 1
            for what, num in plan:
                if what == "block":
                    if num <= len(blocks):
                        replies.transport.sendto(
                            pack(3, num, blocks[num - 1]), dest
                        )
                        if num == want:
                            want += 1
                    else:
                        replies.transport.sendto(pack(3, num, b"more"), dest)
                elif what == "stranger":
                    stranger.transport.sendto(pack(3, num, evil), dest)
                else:
                    replies.transport.sendto(
                        pack(5, 0, b"just telling"), dest
                    )
                await asyncio.sleep(0.05)
            done = want > len(blocks)
            if done:
                expect(task.done(), "didn't finish", plan)
                expect_eq(task.result(), True, "result", plan)
                expect(
                    (ours / "out").read_bytes() == data, "wrong data", plan
                )
            else:
                expect(not task.done(), "finished early", plan)
            await asyncio.sleep(3.0)
            if not done:
                expect(task.done(), "never finished", plan)
                expect_eq(task.result(), False, "result", plan)
            # Acknowledgements.
            acks = [
                x[0] for x in replies.inbox if x[0][:2] == b"\x00\x04"
            ]
            nums = [int.from_bytes(x[2:4], "big") for x in acks]
            expect_eq(nums, sorted(nums), "acknowledgements", plan)
            expect_eq(
                sorted(set(nums) | {0}),
                list(range(want)),
                "acknowledged",
                plan,
            )
            expect(
                not any(
                    x[0][:2] == b"\x00\x04" for x in stranger.inbox
                ),
                "acknowledged a stranger",
                plan,
            )
            if not same_port:
                expect(
                    not any(x[0][:2] != b"\x00\x01" for x in server.inbox),
                    "sent to the wrong port",
                    plan,
                )
            await finish(loop, (client,), tasks)
            stats.step(len(plan))
            stats.state((size, same_port, tuple(plan)))

        try:
            run_loop(main, max_steps=200000)
        finally:
            shutil.rmtree(ours, True)

    check.add("scripted-server/read", scripted_read, split=1)

    def scripted_write(chooser, stats):
        size = chooser.pick([0, 512, 700])
        data = content(size, 1)
        blocks = [data[x : x + 512] for x in range(0, size + 1, 512)]
        same_port = chooser.pick([True, False])
        plan = [
            chooser.pick(
                [
                    ("ack", 0),
                    ("ack", 1),
                    ("ack", 2),
                    ("error", 0),
                    ("stranger", 0),
                    ("stranger", 1),
                ]
            )
            for _ in range(5 if thorough else 4)
        ]
        ours = folder()
        (ours / "src").write_bytes(data)

        async def main(loop):
            server = await script(loop, ADDR)
            replies = (
                server
                if same_port
                else await script(loop, ("127.0.0.1", 7777))
            )
            stranger = await script(loop, ("127.0.0.9", 6900))
            client = await TftpConnection.create_connection(
                remote_addr=ADDR, local_addr=("127.0.0.1", 5555)
            )
            tasks = [loop.create_task(client.process())]
            await asyncio.sleep(0.01)
            task = loop.create_task(
                client.request_write(
                    ours / "src", "file", addr=ADDR, verify=False
                )
            )
            await asyncio.sleep(0.05)
            expect_eq(
                [x[0] for x in server.inbox],
                [b"\x00\x02file\x00octet\x00"],
                "request",
            )
            dest = ("127.0.0.1", 5555)
            want = 0
            for what, num in plan:
                if what == "ack":
                    replies.transport.sendto(pack(4, num), dest)
                    want += num == want and want <= len(blocks)
                elif what == "stranger":
                    stranger.transport.sendto(pack(4, num), dest)
                else:
                    replies.transport.sendto(
                        pack(5, 0, b"just telling"), dest
                    )
                await asyncio.sleep(0.05)
            done = want > len(blocks)
            if done:
                expect(task.done(), "didn't finish", plan)
                expect_eq(task.result(), True, "result", plan)
            else:
                expect(not task.done(), "finished early", plan)
            await asyncio.sleep(3.0)
            if not done:
                expect(task.done(), "never finished", plan)
                expect_eq(task.result(), False, "result", plan)
            sent = [
                (int.from_bytes(x[0][2:4], "big"), x[0][4:])
                for x in replies.inbox
                if x[0][:2] == b"\x00\x03"
            ]
            nums = [x[0] for x in sent]
            expect_eq(nums, sorted(nums), "order of blocks", plan)
            expect_eq(
                sorted(set(nums)),
                list(range(1, min(want, len(blocks)) + 1)),
                "blocks sent",
                plan,
            )
            for num, chunk in sent:
                expect(chunk == blocks[num - 1], "block", num, plan)
            expect(
                not any(x[0][:2] == b"\x00\x03" for x in stranger.inbox),
                "sent to a stranger",
                plan,
            )
            await finish(loop, (client,), tasks)
            stats.step(len(plan))
            stats.state((size, same_port, tuple(plan)))

        try:
            run_loop(main, max_steps=200000)
        finally:
            shutil.rmtree(ours, True)

    check.add("scripted-server/write", scripted_write, split=1)

    # A server against any sequence of messages of two clients.
    def scripted_clients(chooser, stats):
        data = content(700, 1)
        blocks = [data[:512], data[512:]]
        other = content(1024, 9)
        plan = [
            chooser.pick(
                [
                    ("A", "WRQ"),
                    ("A", 1),
                    ("A", 2),
                    ("A", 3),
                    ("B", "WRQ"),
                    ("B", 1),
                    ("B", "RRQ"),
                    ("B", "ACK1"),
                ]
            )
            for _ in range(6 if thorough else 5)
        ]
        root = folder()
        (root / "old").write_bytes(other)
        (root / "A").write_bytes(b"before")
        dest = ADDR

        async def main(loop):
            server = await TftpConnection.create_connection(local_addr=ADDR)
            server.set_root(root)
            tasks = [loop.create_task(server.process())]
            clients = {
                "A": await script(loop, ("127.0.0.1", 5000)),
                "B": await script(loop, ("127.0.0.1", 5001)),
            }
            await asyncio.sleep(0.01)
            model: dict = {}
            active = {"A": 0, "B": 0}
            finished = {"A": False, "B": False}
            reading = False
            pieces = {
                "A": {1: blocks[0], 2: blocks[1], 3: b"junk"},
                "B": {1: b"short"},
            }
            blurred = False
            for who, what in plan:
                sock = clients[who].transport
                if what == "WRQ":
                    sock.sendto(
                        b"\x00\x02" + who.encode() + b"\x00octet\x00", dest
                    )
                    if finished[who] or (who == "B" and reading):
                        # (Depends on when the other one ends.)
                        blurred = True
                    elif not active[who]:
                        active[who] = 1
                        model[who] = model.get(who)
                elif what == "RRQ":
                    sock.sendto(b"\x00\x01old\x00octet\x00", dest)
                    if active[who] or finished[who]:
                        blurred = True
                    reading = True
                elif what == "ACK1":
                    sock.sendto(pack(4, 1), dest)
                else:
                    sock.sendto(pack(3, what, pieces[who][what]), dest)
                    if active[who] == what:
                        chunk = pieces[who][what]
                        if what == 1:
                            model[who] = b""
                        model[who] += chunk
                        active[who] += 1
                        if len(chunk) < 512:
                            active[who] = 0
                            finished[who] = True
                await asyncio.sleep(0.02)
            if blurred:
                await asyncio.sleep(6.0)
                for name, want in (("old", other),):
                    expect((root / name).read_bytes() == want, "old", plan)
                await finish(loop, (server,), tasks)
                return
            await asyncio.sleep(4.0)
            for name in ("A", "B"):
                path = root / name
                want = model.get(name)
                if want is None:
                    want = b"before" if name == "A" else b""
                got = path.read_bytes() if path.exists() else b""
                expect(got == want, "contents", name, len(got), plan)
            expect((root / "old").read_bytes() == other, "old", plan)
            for name in ("A", "B"):
                acks = [
                    int.from_bytes(x[0][2:4], "big")
                    for x in clients[name].inbox
                    if x[0][:2] == b"\x00\x04"
                ]
                expect_eq(acks, sorted(acks), "order", plan)
                got = model.get(name)
                if name not in model:
                    expect_eq(acks, [], "acknowledged nothing", plan)
                else:
                    last = 0 if got is None else len(got) // 512 + (
                        1 if len(got) % 512 else 0
                    )
                    expect_eq(
                        sorted(set(acks)),
                        list(range(last + 1)),
                        "acknowledged",
                        name,
                        plan,
                    )
            await finish(loop, (server,), tasks)
            stats.step(len(plan))
            stats.state(tuple(plan))

        try:
            run_loop(main, max_steps=200000)
        finally:
            shutil.rmtree(root, True)

    check.add("scripted-clients", scripted_clients, split=1)

    # Contents that are changed on the way.
    def changed(chooser, stats):
        size = chooser.pick([1, 511, 512, 513, 1024, 1300])
        data = content(size, 1)
        target = chooser.pick(["to server", "to client"])
        num = chooser.pick(list(range(1, size // 512 + 2)))
        block = data[(num - 1) * 512 : num * 512]
        how = chooser.pick(["first", "last", "short", "long"])
        again = chooser.pick([False, True])
        if how in ("first", "last", "short") and not block:
            return
        # (Blocks that aren't the last have one size.)
        if how == "short" and len(block) == 512:
            return
        if how == "long" and len(block) == 512:
            return
        if how == "long" and len(block) == 511:
            return
        altered = {
            "first": bytes([block[0] ^ 1]) + block[1:] if block else b"",
            "last": block[:-1] + bytes([block[-1] ^ 0x80]) if block else b"",
            "short": block[:-1],
            "long": block + b"!",
        }[how]
        root = folder()
        ours = folder()

        async def main(loop):
            server, client, tasks = await peers(loop, root)
            hits = 0

            def on_datagram(source, msg, dest):
                nonlocal hits
                if (
                    msg[:2] == b"\x00\x03"
                    and int.from_bytes(msg[2:4], "big") == num
                    and (dest[1] == ADDR[1]) == (target == "to server")
                ):
                    hits += 1
                    loop.call_soon(
                        loop.net.deliver,
                        source.local,
                        msg[:4] + altered,
                        dest,
                    )
                    return False
                return True

            loop.net.on_datagram = on_datagram
            (ours / "src").write_bytes(data)
            where = (size, target, num, how)
            result = await client.request_write(
                ours / "src", "file", addr=ADDR, verify=True
            )
            expect(hits > 0, "nothing was changed", where)
            expect_eq(result, False, "verified", where)
            expect(
                (ours / "src").read_bytes() == data, "source changed", where
            )
            await asyncio.sleep(4.0)
            loop.net.on_datagram = None
            if again:
                expect_eq(
                    await client.request_write(
                        ours / "src", "file", addr=ADDR, verify=True
                    ),
                    True,
                    "second transfer",
                    where,
                )
                expect(
                    (root / "file").read_bytes() == data, "contents", where
                )
            await asyncio.sleep(3.0)
            await finish(loop, (server, client), tasks)
            stats.step(hits)
            stats.state((where, again))

        try:
            run_loop(main, max_steps=200000)
        finally:
            shutil.rmtree(root, True)
            shutil.rmtree(ours, True)

    check.add("changed", changed)

    # Entry points that create a connection for one transfer.
    def entry(chooser, stats):
        oper = chooser.pick(["read", "write", "verify"])
        size = chooser.pick([0, 700])
        problem = chooser.pick(["none", "missing", "nobody"])
        data = content(size, 1)
        root = folder()
        ours = folder()

        async def main(loop):
            server = await TftpConnection.create_connection(local_addr=ADDR)
            server.set_root(root)
            tasks = [loop.create_task(server.process())]
            await asyncio.sleep(0.01)
            errors: list = []

            def handler(code, message, addr):
                errors.append((code, addr))

            addr = ADDR if problem != "nobody" else ("127.0.0.1", 6999)
            if oper == "read":
                if problem != "missing":
                    (root / "file").write_bytes(data)
                result = await tftp_read(
                    addr, ours / "out", "file", error_handler=handler
                )
                if result:
                    expect((ours / "out").read_bytes() == data, "wrong data")
            else:
                (ours / "src").write_bytes(data)
                result = await tftp_write(
                    addr,
                    ours / "src",
                    "file" if problem != "missing" else "no/such/file",
                    verify=oper == "verify",
                    error_handler=handler,
                )
            expect_eq(
                result, problem == "none", "result", oper, size, problem
            )
            expect_eq(bool(errors), problem == "missing", "errors", errors)
            await asyncio.sleep(3.0)
            if result:
                expect((root / "file").read_bytes() == data, "wrong data")
            expect_eq(
                [x for x in loop.net.udp if x != ADDR], [], "sockets left"
            )
            await finish(loop, (server,), tasks)
            stats.step()
            stats.state((oper, size, problem))

        try:
            run_loop(main, max_steps=200000)
        finally:
            shutil.rmtree(root, True)
            shutil.rmtree(ours, True)

    check.add("entry-points", entry)
    return check
