"""C33: datagrams keep their boundaries, order and addresses."""

import asyncio

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop

LOCAL = ("127.0.0.1", 9)
PEERS = {"a": ("127.0.0.1", 71), "b": ("127.0.0.1", 72)}


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.net import normalize_host
    from runtimepy.net.manager import ConnectionManager
    from runtimepy.net.udp.connection import EchoUdpConnection, UdpConnection
    from runtimepy.net.udp.queue import QueueUdpConnection

    thorough = tier == "thorough"
    depth = 5 if thorough else 4
    check = Check(
        "C33",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of datagrams in both directions, address "
            "changes, errors and restarts up to the depth for connected, "
            "unconnected and local sockets; compared to a model of "
            "addresses and deliveries after every step"
        ),
        bounds={"depth": depth, "peers": 2},
    )

    class Plain(UdpConnection):
        """Records datagrams."""

        def init(self):
            self.got: list = []

        async def process_datagram(self, data, addr):
            self.got.append((bytes(data), tuple(addr)))
            expect_eq(self.latest_rx_address, addr, "latest address")
            return True

    class Slow(Plain):
        """Takes some time."""

        async def process_datagram(self, data, addr):
            await asyncio.sleep(0.001)
            return await super().process_datagram(data, addr)

    SOCKETS = {
        "connected": {"local_addr": LOCAL, "remote_addr": PEERS["a"]},
        "unconnected": {
            "local_addr": LOCAL,
            "remote_addr": PEERS["a"],
            "connect": False,
        },
        "local": {"local_addr": LOCAL, "connect": False},
    }

    OPS = [
        "rx a",
        "rx b",
        "rx empty",
        "text",
        "binary",
        "sendto a",
        "sendto b",
        "remote b",
        "restart",
        "error",
    ]

    def sequences(kind, sock):
        def run(chooser, stats):
            order: list = []

            async def main(loop):
                out: list = []

                def on_datagram(source, data, dest):
                    out.append((tuple(source.local)[:2], data, dest))
                    return False

                loop.net.on_datagram = on_datagram
                conn = await kind.create_connection(**SOCKETS[sock])
                conn.env.set("auto_restart", True)
                manager = ConnectionManager()
                stop = asyncio.Event()
                task = loop.create_task(manager.manage(stop))
                await manager.queue.put(conn)
                await asyncio.sleep(0.01)
                remote = None if sock == "local" else PEERS["a"]
                want_got: list = []
                want_out: list = []
                num = 0

                def got():
                    if isinstance(conn, QueueUdpConnection):
                        while not conn.datagrams.empty():
                            queued.append(conn.datagrams.get_nowait())
                        return [(bytes(x), tuple(y)) for x, y in queued]
                    return conn.got

                queued: list = []
                try:
                    for _ in range(depth):
                        ops = OPS
                        if sock == "connected":
                            # Sockets can't change their destination.
                            ops = [
                                x
                                for x in OPS
                                if x not in ("remote b", "sendto b")
                            ]
                        elif remote is None:
                            ops = [
                                x for x in OPS if x not in ("text", "binary")
                            ]
                        oper = chooser.pick(ops)
                        order.append(oper)
                        num += 1
                        word, _, arg = oper.partition(" ")
                        if word == "rx":
                            peer = PEERS.get(arg, PEERS["a"])
                            data = b"" if arg == "empty" else b"in%d" % num
                            loop.net.deliver(peer, data, LOCAL)
                            # Another one immediately after it.
                            loop.net.deliver(peer, data + b"+", LOCAL)
                            if sock != "connected" or peer == PEERS["a"]:
                                for item in (data, data + b"+"):
                                    want_got.append((item, peer))
                                    if kind is EchoUdpConnection:
                                        want_out.append((LOCAL, item, peer))
                        elif word == "text":
                            conn.send_text(f"h\u00e9{num}")
                            want_out.append(
                                (LOCAL, f"h\u00e9{num}".encode(), remote)
                            )
                        elif word == "binary":
                            conn.send_binary(b"\x00%d" % num)
                            want_out.append((LOCAL, b"\x00%d" % num, remote))
                        elif word == "sendto":
                            conn.sendto(b"to%d" % num, addr=PEERS[arg])
                            want_out.append(
                                (LOCAL, b"to%d" % num, PEERS[arg])
                            )
                        elif word == "remote":
                            conn.set_remote_address(
                                normalize_host(*PEERS["b"])
                            )
                            remote = PEERS["b"]
                        elif word == "restart":
                            conn.disable("restart")
                            await asyncio.sleep(2.0)
                        else:
                            loop.net.udp[LOCAL].error(OSError("refused"))
                            await asyncio.sleep(2.0)
                        await asyncio.sleep(0.02)
                        expect(not conn.disabled, "not restarted", order)
                        if kind is not EchoUdpConnection:
                            expect_eq(got(), want_got, "received", order)
                        expect_eq(out, want_out, "sent", order)
                        have = conn.remote_address
                        expect_eq(
                            None if have is None else tuple(have)[:2],
                            remote,
                            "remote address",
                            order,
                        )
                        expect_eq(
                            tuple(conn.local_address)[:2], LOCAL, "local"
                        )
                        if want_got:
                            expect_eq(
                                tuple(conn.latest_rx_address),
                                want_got[-1][1],
                                "latest address",
                            )
                        stats.step()
                    stats.state((tuple(want_out), tuple(want_got)))
                    stats.outcome((remote, len(want_got), len(want_out)))
                finally:
                    stop.set()
                    await task
                await asyncio.sleep(0.1)
                expect(not loop.net.udp, "socket left open")

            return run_loop(main, max_steps=50000)[1]

        return run

    for kind in (Plain, Slow, QueueUdpConnection, EchoUdpConnection):
        for sock in SOCKETS:
            check.add(
                f"{kind.__name__} {sock}", sequences(kind, sock), split=1
            )
    return check
