"""C21: TFTP servers survive any datagram and stay in their folder."""

import asyncio
import itertools
import os
from pathlib import Path
import shutil
import tempfile

from mc.core import CLEANUPS, Check, expect, expect_eq
from mc.vloop import run_loop

ADDR = ("127.0.0.1", 6900)


class Script(asyncio.DatagramProtocol):
    """A scripted peer."""

    def __init__(self):
        self.inbox: list = []
        self.transport = None

    def connection_made(self, transport):
        self.transport = transport

    def datagram_received(self, data, addr):
        self.inbox.append(data)

    def error_received(self, exc):
        pass


def snapshot(root: Path) -> dict:
    """Everything in a folder."""
    result = {}
    for path in sorted(root.rglob("*")):
        result[str(path.relative_to(root))] = (
            path.read_bytes() if path.is_file() else None
        )
    return result


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.net.udp.tftp import TftpConnection

    thorough = tier == "thorough"
    check = Check(
        "C21",
        tier,
        kind="model_checking",
        rule=(
            "every datagram of the vocabulary (all short ones, every prefix "
            "and single-byte change of each kind of message, odd messages), "
            "every pair of them, each followed by regular transfers; every "
            "sequence of path components up to the depth for reads and "
            "writes"
        ),
        bounds={"datagrams": 2, "path_components": 4 if thorough else 3},
    )

    base = Path(tempfile.mkdtemp(prefix="mc-c21-"))
    CLEANUPS.append(lambda: shutil.rmtree(base, True))

    GOOD = bytes(range(200)) * 4

    def folder():
        """A served folder with things around it."""
        top = Path(tempfile.mkdtemp(dir=base))
        # (Far enough below that requests can't leave the scratch folder.)
        top = top / "a" / "b" / "c" / "d"
        root = top / "root"
        (root / "sub" / "deep").mkdir(parents=True)
        (root / "file").write_bytes(GOOD)
        (root / "sub" / "inner").write_bytes(b"inner")
        (top / "rooted").mkdir()
        (top / "rooted" / "file").write_bytes(b"secret 1")
        (top / "file").write_bytes(b"secret 2")
        (top / "secret").write_bytes(b"secret 3")
        return top, root

    async def start(loop, root):
        server = await TftpConnection.create_connection(local_addr=ADDR)
        server.set_root(root)
        task = loop.create_task(server.process())
        peers = []
        for port in (5001, 5002):
            peers.append(
                (
                    await loop.create_datagram_endpoint(
                        Script, local_addr=("127.0.0.1", port)
                    )
                )[1]
            )
        await asyncio.sleep(0.01)
        return server, task, peers

    async def transfer(peer, where):
        """Read and write a file."""
        peer.inbox.clear()
        peer.transport.sendto(b"\x00\x01file\x00octet\x00", ADDR)
        got = b""
        block = 1
        while True:
            await asyncio.sleep(0.01)
            want = block.to_bytes(2, "big")
            found = [
                x
                for x in peer.inbox
                if x[:2] == b"\x00\x03" and x[2:4] == want
            ]
            expect(found, "can't read anymore", where, peer.inbox[-3:])
            got += found[0][4:]
            peer.transport.sendto(b"\x00\x04" + want, ADDR)
            block += 1
            if len(found[0]) < 516:
                break
        expect(got == GOOD, "read something else", where)
        await asyncio.sleep(0.01)
        peer.inbox.clear()
        peer.transport.sendto(b"\x00\x02new\x00octet\x00", ADDR)
        await asyncio.sleep(0.01)
        expect(
            b"\x00\x04\x00\x00" in peer.inbox,
            "can't write anymore",
            where,
            peer.inbox[-3:],
        )
        peer.transport.sendto(b"\x00\x03\x00\x01contents", ADDR)
        await asyncio.sleep(0.01)
        expect(
            b"\x00\x04\x00\x01" in peer.inbox,
            "not acknowledged",
            where,
            peer.inbox[-3:],
        )
        await asyncio.sleep(0.5)

    # Messages.
    LEGIT = [
        b"\x00\x01file\x00octet\x00",
        b"\x00\x02up\x00octet\x00",
        b"\x00\x03\x00\x01data",
        b"\x00\x04\x00\x01",
        b"\x00\x05\x00\x01oops\x00",
    ]
    ODD = [
        b"",
        b"\x00",
        b"\x00\x00",
        b"\x00\x06",
        b"\x00\x63hello",
        b"\xff\xff",
        b"\x01\x00file\x00octet\x00",
        b"\x00\x01file",
        b"\x00\x01\x00\x00",
        b"\x00\x01\x00octet\x00",
        b"\x00\x01\xff\xfe\x00octet\x00",
        b"\x00\x01file\x00\xff\xfe\x00",
        b"\x00\x01file\x00octet\x00blksize\x001024\x00",
        b"\x00\x01file\x00strange\x00",
        b"\x00\x01" + b"x" * 300 + b"\x00octet\x00",
        b"\x00\x01" + b"a/" * 2500 + b"\x00octet\x00",
        b"\x00\x01sub\x00octet\x00",
        b"\x00\x01file/below\x00octet\x00",
        b"\x00\x02\x00octet\x00",
        b"\x00\x02.\x00octet\x00",
        b"\x00\x02sub\x00octet\x00",
        b"\x00\x02sub/\x00octet\x00",
        b"\x00\x02missing/up\x00octet\x00",
        b"\x00\x02file/below\x00octet\x00",
        b"\x00\x02\xff\xfe\x00octet\x00",
        b"\x00\x02" + b"x" * 300 + b"\x00octet\x00",
        b"\x00\x03",
        b"\x00\x03\x00",
        b"\x00\x03\x00\x00",
        b"\x00\x03\xff\xff" + b"x" * 2000,
        b"\x00\x04",
        b"\x00\x04\x00",
        b"\x00\x04\xff\xff",
        b"\x00\x04\x00\x00junk",
        b"\x00\x05",
        b"\x00\x05\x00",
        b"\x00\x05\x00\x09what\x00",
        b"\x00\x05\xff\xff\x00",
        b"\x00\x05\x00\x00\xff\xfe\x00",
        b"\x00\x05\x00\x00",
    ]
    CHANGES = [
        msg[:idx] + bytes([value]) + msg[idx + 1 :]
        for msg in LEGIT
        for idx in range(min(len(msg), 6))
        for value in (0, 1, 5, 6, 0x7F, 0x80, 0xC3, 0xFF)
    ]
    PREFIXES = [msg[:idx] for msg in LEGIT for idx in range(len(msg))]
    SHORT = [bytes(x) for x in itertools.product((0, 1, 2, 5, 255), repeat=2)]
    VOCAB = list(dict.fromkeys(ODD + LEGIT + PREFIXES + SHORT + CHANGES))

    def attempt(stats, messages, same_peer):
        """Send some datagrams followed by regular transfers."""
        top, root = folder()
        before = snapshot(top)

        async def main(loop):
            server, task, peers = await start(loop, root)
            for msg in messages:
                peers[0].transport.sendto(msg, ADDR)
                await asyncio.sleep(0.01)
                expect(
                    not server.disabled and not task.done(),
                    "stopped serving",
                    messages,
                )
            if same_peer:
                # (Any transfer that was started ends.)
                await asyncio.sleep(3.0 * len(messages))
            await transfer(peers[0 if same_peer else 1], messages)
            await asyncio.sleep(3.0 * len(messages))
            server.disable("done")
            await asyncio.wait_for(task, 5.0)

        try:
            run_loop(main, max_steps=100000)
            after = snapshot(top)
            expect_eq(after.pop("root/new", None), b"contents", "written")
            names = set()
            for msg in messages:
                if msg[:2] == b"\x00\x02":
                    names.add(msg[2:].split(b"\x00")[0])
            for name in names:
                key = os.path.normpath(os.path.join(b"root", name)).decode(
                    errors="replace"
                )
                if key in before and before[key] is None:
                    continue
                after.pop(key, None)
                if key in before and key != "root/file":
                    before.pop(key)
            for key in set(after) | set(before):
                expect_eq(
                    after.get(key, "missing"),
                    before.get(key, "missing"),
                    "file",
                    key,
                    messages,
                )
        finally:
            shutil.rmtree(top.parents[3], True)
        stats.step(len(messages))
        stats.state((tuple(messages), same_peer))

    def one(chooser, stats):
        msg = chooser.pick(VOCAB)
        for same_peer in (False, True):
            attempt(stats, [msg], same_peer)

    check.add("datagrams", one, split=1)

    PAIRS = ODD + LEGIT

    def two(chooser, stats):
        first = chooser.pick(PAIRS)
        second = chooser.pick(PAIRS)
        attempt(stats, [first, second], False)
        if thorough:
            attempt(stats, [first, second], True)

    check.add("pairs", two, split=1)

    # The root path of a server changes.
    def moved(chooser, stats):
        plan = [
            (
                chooser.pick([0, 1]),
                chooser.pick(["read", "write", "missing", "move"]),
            )
            for _ in range(5 if thorough else 4)
        ]
        top = Path(tempfile.mkdtemp(dir=base))
        roots = [top / "one", top / "two"]
        model = {}
        for idx, root in enumerate(roots):
            root.mkdir()
            for name in ("file", f"only{idx}"):
                data = f"{name} {idx}".encode()
                (root / name).write_bytes(data)
                model[f"{root.name}/{name}"] = data

        async def main(loop):
            server, task, peers = await start(loop, roots[0])
            curr = 0
            for idx, (who, oper) in enumerate(plan):
                peer = peers[who]
                peer.inbox.clear()
                where = (idx, plan)
                if oper == "move":
                    curr = 1 - curr
                    server.set_root(roots[curr])
                elif oper == "read":
                    peer.transport.sendto(b"\x00\x01file\x00octet\x00", ADDR)
                    await asyncio.sleep(0.01)
                    expect_eq(
                        peer.inbox,
                        [
                            b"\x00\x03\x00\x01"
                            + model[f"{roots[curr].name}/file"]
                        ],
                        "read",
                        where,
                    )
                    peer.transport.sendto(b"\x00\x04\x00\x01", ADDR)
                elif oper == "write":
                    name = f"new{who}"
                    peer.transport.sendto(
                        b"\x00\x02" + name.encode() + b"\x00octet\x00", ADDR
                    )
                    await asyncio.sleep(0.01)
                    expect_eq(
                        peer.inbox, [b"\x00\x04\x00\x00"], "write", where
                    )
                    data = str(idx).encode()
                    peer.transport.sendto(b"\x00\x03\x00\x01" + data, ADDR)
                    model[f"{roots[curr].name}/{name}"] = data
                else:
                    # (Only the other one has it.)
                    name = f"only{1 - curr}".encode()
                    peer.transport.sendto(
                        b"\x00\x01" + name + b"\x00octet\x00", ADDR
                    )
                    await asyncio.sleep(0.01)
                    expect_eq(
                        [x[:2] for x in peer.inbox],
                        [b"\x00\x05"],
                        "read",
                        where,
                    )
                await asyncio.sleep(3.0)
                expect_eq(snapshot(top), {**DIRS, **model}, "files", where)
                stats.step()
            expect(not server.disabled, "disabled")
            server.disable("done")
            await asyncio.wait_for(task, 5.0)

        DIRS = {"one": None, "two": None}
        try:
            run_loop(main, max_steps=100000)
        finally:
            shutil.rmtree(top, True)
        stats.state(tuple(plan))

    check.add("moved", moved, split=1)

    # Paths.
    PARTS = [
        "..",
        ".",
        "",
        "file",
        "sub",
        "inner",
        "rooted",
        "secret",
        "~",
        "\\..\\",
    ]

    def paths(chooser, stats):
        first = chooser.pick(PARTS + ["ABS", "ABSROOT"])
        second = chooser.pick(PARTS + [None])
        depth = 4 if thorough else 3
        rests = [
            rest
            for num in range(depth - 1)
            for rest in itertools.product(PARTS, repeat=num)
        ]
        top, root = folder()
        before = snapshot(top)
        inside = {
            "file": GOOD,
            "sub/inner": b"inner",
        }

        async def main(loop):
            server, task, peers = await start(loop, root)
            port = 5100
            for rest in rests:
                if second is None and rest:
                    break
                parts = [
                    {"ABS": str(top), "ABSROOT": str(root)}.get(first, first)
                ]
                parts += [x for x in (second,) if x is not None]
                parts += rest
                name = "/".join(parts)
                resolved = os.path.realpath(os.path.join(root, name))
                contained = resolved == str(root) or resolved.startswith(
                    str(root) + "/"
                )
                # (Names with odd components don't have to be understood.)
                odd = bool({"", ".", ".."} & set(name.strip("/").split("/")))
                odd = odd or name != name.strip("/")
                want = (
                    inside.get(os.path.relpath(resolved, root))
                    if contained
                    else None
                )
                for code in (1, 2):
                    # (Every request by another client.)
                    port += 1
                    trans, peer = await loop.create_datagram_endpoint(
                        Script, local_addr=("127.0.0.1", port)
                    )
                    trans.sendto(
                        bytes([0, code]) + name.encode() + b"\x00octet\x00",
                        ADDR,
                    )
                    await asyncio.sleep(0.001)
                    blocks = [
                        x for x in peer.inbox if x[:2] == b"\x00\x03"
                    ]
                    acks = [x for x in peer.inbox if x[:2] == b"\x00\x04"]
                    errors = [x for x in peer.inbox if x[:2] == b"\x00\x05"]
                    where = (name, code, peer.inbox)
                    expect_eq(
                        len(blocks) + len(acks) + len(errors),
                        1,
                        "one answer",
                        where,
                    )
                    if code == 1:
                        if blocks or not odd:
                            expect_eq(
                                [x[4:] for x in blocks],
                                [] if want is None else [want[:512]],
                                "read",
                                where,
                            )
                        if blocks:
                            trans.sendto(b"\x00\x04\x00\x01", ADDR)
                            if len(blocks[0]) == 516:
                                await asyncio.sleep(0.001)
                                trans.sendto(b"\x00\x04\x00\x02", ADDR)
                    else:
                        parent = os.path.dirname(resolved)
                        writable = (
                            contained
                            and not os.path.isdir(resolved)
                            and os.path.isdir(parent)
                        )
                        if not writable:
                            expect(not acks, "accepted a write", where)
                        elif not odd:
                            expect(acks, "rejected a write", where)
                        if acks:
                            trans.sendto(b"\x00\x03\x00\x01new!", ADDR)
                            await asyncio.sleep(0.001)
                            expect_eq(
                                Path(resolved).read_bytes(),
                                b"new!",
                                "written",
                                where,
                            )
                            # Restore.
                            rel = os.path.relpath(resolved, top)
                            if rel in before:
                                Path(resolved).write_bytes(before[rel])
                            else:
                                Path(resolved).unlink()
                    trans.close()
                    stats.step()
                    expect_eq(
                        snapshot(top), before, "files", where
                    )
            # (Dallies and time outs.)
            await asyncio.sleep(3.0)
            expect_eq(snapshot(top), before, "files")
            expect(not server.disabled, "disabled")
            await transfer(peers[0], (first, second))
            server.disable("done")
            await asyncio.wait_for(task, 5.0)

        try:
            run_loop(main, max_steps=400000)
        finally:
            shutil.rmtree(top.parents[3], True)
        stats.state((first, second))

    check.add("paths", paths, split=1)

    return check
