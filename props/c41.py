"""C41: Addresses and transmission units are the system's, in any form."""

import asyncio
import itertools
import socket

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop

IP_MTU = 14
IP_MTU_DISCOVER = 10
PMTUDISC_DO = 2


class Fake:
    """A socket that fails as planned."""

    plan: dict = {}
    made: list = []

    def __init__(self, family=-1, kind=-1, *args) -> None:
        del args
        if self.plan.get("create"):
            raise OSError("create")
        self.family = family
        self.kind = kind
        self.option = self.plan.get("option", 1)
        self.local = None
        self.peer = None
        self.sent: list = []
        self.closed = 0
        self.reuse = False
        self.made.append(self)

    def fail(self, name) -> None:
        """Fail maybe."""
        expect(not self.closed, "already closed", name)
        if self.plan.get(name):
            raise OSError(name)

    def bind(self, addr) -> None:
        """Bind."""
        self.fail("bind")
        self.local = addr

    def connect(self, addr) -> None:
        """Connect."""
        self.fail("connect")
        expect(self.local is not None, "not bound")
        self.peer = addr

    def getsockname(self):
        """Get the local address."""
        expect(not self.closed, "already closed")
        return (self.local[0], self.local[1] or 54321, *self.local[2:])

    def getsockopt(self, level, name, *args):
        """Get an option."""
        del args
        expect_eq(level, socket.IPPROTO_IP, "level")
        if name == IP_MTU_DISCOVER:
            self.fail("get")
            return self.option
        expect_eq(int(name), IP_MTU, "option")
        expect(self.peer is not None, "not connected")
        self.fail("mtu")
        return self.plan.get("value", 0)

    def setsockopt(self, level, name, value, *args) -> None:
        """Set an option."""
        del args
        if level == socket.SOL_SOCKET:
            expect_eq(name, socket.SO_REUSEADDR, "option")
            self.fail("reuse")
            self.reuse = bool(value)
            return
        expect_eq((level, int(name)), (socket.IPPROTO_IP, 10), "option")
        self.fail("restore" if self.sent else "set")
        self.option = int(value)

    def send(self, data, *args) -> int:
        """Send data."""
        del args
        expect(self.peer is not None, "not connected")
        self.sent.append((bytes(data), self.option))
        self.fail("send")
        return len(data)

    def close(self) -> None:
        """Close."""
        self.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *_) -> None:
        self.close()


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.net import util
    from runtimepy.net.mtu import (
        ETHERNET_MTU,
        UDP_DEFAULT_MTU,
        discover_mtu,
        host_discover_mtu,
        socket_discover_mtu,
    )
    from runtimepy.net.udp.connection import NullUdpConnection
    from runtimepy.net.util import (
        IPv4Host,
        IPv6Host,
        get_free_socket,
        get_free_socket_name,
        normalize_host,
        sockname,
        try_log_connection_error,
    )

    # What is known of names.
    known = {"127.0.0.1": "localhost", "::1": "ip6-localhost"}

    def by_address(name):
        """A controlled resolver."""
        if name in known:
            return known[name], [], [name]
        if name == "10.1.2.3":
            raise socket.gaierror("name")
        raise socket.herror("name")

    socket.gethostbyaddr = by_address
    socket.getfqdn = lambda name="": "this-host"
    if hasattr(util.hostname, "cache_clear"):
        util.hostname.cache_clear()

    def hostname(name):
        """What addresses are called."""
        if name in ("::", "0.0.0.0"):
            return "this-host"
        return known.get(name, name)

    check = Check(
        "C41",
        tier,
        kind="model_checking",
        rule=(
            "every combination of failures of a socket's operations with "
            "every kind of address, probe and reported size; every form, "
            "family, name and port of an address and every pair of them"
        ),
        bounds={"failures": "all combinations"},
    )

    class Patched:
        """Stand-in for sockets."""

        def __init__(self, plan) -> None:
            self.plan = plan

        def __enter__(self):
            self.orig = socket.socket
            Fake.plan = self.plan
            Fake.made = []
            socket.socket = Fake  # type: ignore
            for item in (host_discover_mtu,):
                if hasattr(item, "cache_clear"):
                    item.cache_clear()
            return Fake.made

        def __exit__(self, *_):
            socket.socket = self.orig  # type: ignore
            if hasattr(host_discover_mtu, "cache_clear"):
                host_discover_mtu.cache_clear()

    DESTS = [
        ("127.0.0.1", 80),
        ("localhost", 9999),
        ("::1", 80, 0, 0),
        ("::1", 81, 5, 7),
        (IPv4Host("127.0.0.9", 7),),
        (IPv6Host("::1", 7, 1, 2),),
        ("127.0.0.1",),
    ]
    FAILS = ("get", "set", "send", "restore", "mtu")

    def want_addr(args):
        """The address that's meant."""
        host = args[0]
        if isinstance(host, (IPv4Host, IPv6Host)):
            args = tuple(host)
        name = "127.0.0.1" if args[0] == "localhost" else args[0]
        if ":" in name:
            return socket.AF_INET6, (name, *args[1:])
        return socket.AF_INET, (name, *(args[1:] or (0,)))

    def probes(chooser, stats):
        dest = chooser.pick(DESTS)
        local = chooser.pick([None, "same", "port"])
        value = chooser.pick([0, 1, 576, 65535])
        size, fallback = chooser.pick(
            [(None, None), (0, 1400), (5, 0), (70000, 1)]
        )
        kind = chooser.pick([socket.SOCK_DGRAM, socket.SOCK_STREAM])
        create = chooser.pick([None, lambda x: b"z" * (x + 3)])
        family, addr = want_addr(dest)
        for option, *fails in itertools.product(
            (0, 1, 2), *([False, True] for _ in FAILS)
        ):
            plan = dict(zip(FAILS, fails))
            plan.update(value=value, option=option)
            where = (dest, local, size, fallback, plan)
            kwargs: dict = {"kind": kind}
            if local is not None:
                cls = IPv6Host if family == socket.AF_INET6 else IPv4Host
                base = "::1" if cls is IPv6Host else "127.0.0.1"
                kwargs["local"] = cls(base, 0 if local == "same" else 4321)
            if size is not None:
                kwargs["probe_size"] = size
                kwargs["fallback"] = fallback
            if create is not None:
                kwargs["probe_create"] = create
            with Patched(plan) as made:
                got = discover_mtu(*dest, **kwargs)
                expect_eq(len(made), 1, "sockets", where)
                sock = made[0]
                again = discover_mtu(*dest, **kwargs)
                expect_eq(again, got, "again", where)
            want = fallback if size is not None else ETHERNET_MTU
            if value and not plan["mtu"]:
                want = value
            expect_eq(got, want, "size", where)
            expect_eq((sock.family, sock.kind), (family, kind), "kind", where)
            expect_eq(sock.peer, addr, "destination", where)
            base = "::" if family == socket.AF_INET6 else "0.0.0.0"
            if local is not None:
                base = "::1" if family == socket.AF_INET6 else "127.0.0.1"
            expect_eq(sock.local[:2], (base, 0), "local", where)
            length = UDP_DEFAULT_MTU if size is None else size
            data = bytes(length) if create is None else b"z" * (length + 3)
            expect_eq(
                sock.sent,
                [(data, option if plan["set"] else PMTUDISC_DO)],
                "probe",
                (dest, plan),
            )
            if not plan["get"] and not plan["restore"]:
                expect_eq(sock.option, option, "restored", where)
            for item in made:
                expect(item.closed, "not closed", where)
            stats.step()
            stats.state((got, fails))
        stats.outcome((dest, local, value))

    check.add("probes", probes, split=2, replay_every=97)

    # Sockets that can't be used at all.
    def unusable(chooser, stats):
        dest = chooser.pick(DESTS)
        how = chooser.pick(["create", "bind", "connect", "probe", "name"])
        reuse = chooser.choose(2)
        plan = {how: True}

        def broken(_):
            raise ValueError("probe")

        with Patched(plan) as made:
            try:
                if how == "name":
                    name = get_free_socket_name()
                    expect_eq(name, IPv4Host("0.0.0.0", 54321), "name")
                    expect(made[0].reuse, "reused")
                elif reuse and how in ("create", "bind"):
                    plan.update({"reuse": how == "bind"})
                    get_free_socket(reuse=True)
                    expect(False, "no error")
                else:
                    discover_mtu(
                        *dest,
                        **({"probe_create": broken} if how == "probe" else {}),
                    )
                    expect(False, "no error")
            except OSError as exc:
                expect(str(exc) in (how, "reuse"), "error", exc, how)
            except ValueError:
                expect_eq(how, "probe", "error")
            expect_eq(len(made), int(how != "create"), "sockets")
            for item in made:
                expect(item.closed, "not closed", dest, how)

            # Errors aren't remembered.
            plan.clear()
            plan["value"] = 1234
            expect_eq(discover_mtu(*dest), 1234, "size")
            sock = get_free_socket(
                IPv4Host("127.0.0.1", 77), socket.SOCK_DGRAM, bool(reuse)
            )
            expect_eq(sock.local, ("127.0.0.1", 77), "local")
            expect_eq(sock.reuse, bool(reuse), "reuse")
            expect(not sock.closed, "closed")
            expect_eq(sockname(sock), IPv4Host("127.0.0.1", 77), "name")
        stats.step()
        stats.state((dest, how, reuse))

    check.add("unusable", unusable)

    # A socket of the caller stays open.
    def given(chooser, stats):
        fails = [chooser.choose(2) for _ in FAILS]
        value = chooser.pick([0, 9000])
        plan = dict(zip(FAILS, fails))
        plan["value"] = value
        with Patched(plan):
            sock = Fake(socket.AF_INET, socket.SOCK_DGRAM)
            sock.local = ("127.0.0.1", 1)
            sock.peer = ("127.0.0.1", 2)
            got = socket_discover_mtu(sock, 10, 99)
            expect_eq(got, value if value and not plan["mtu"] else 99, "size")
            expect(not sock.closed, "closed")
            if not plan["get"] and not plan["restore"]:
                expect_eq(sock.option, 1, "restored")
        stats.step()
        stats.state((tuple(fails), value))

    check.add("given", given)

    # Connections.
    def connections(chooser, stats):
        value = chooser.pick([0, 1280])
        connected = chooser.choose(2)
        size, fallback = chooser.pick([(None, 1500), (40, 512)])

        async def main(loop):
            conn = await NullUdpConnection.create_connection(
                local_addr=("127.0.0.1", 4000),
                remote_addr=("127.0.0.1", 5000),
                connect=bool(connected),
            )
            kind = socket.SOCK_DGRAM

            class Info:
                type = kind

            orig = type(conn).socket
            type(conn).socket = property(lambda _: Info)
            try:
                with Patched({"value": value}) as made:
                    kwargs = (
                        {"probe_size": size, "fallback": fallback}
                        if size
                        else {}
                    )
                    expect_eq(conn.mtu(**kwargs), value or fallback, "size")
                    expect_eq(made[0].peer, ("127.0.0.1", 5000), "peer")
                    expect_eq(made[0].local, ("127.0.0.1", 0), "local")
                    expect_eq(made[0].kind, kind, "kind")
                    expect(made[0].closed, "not closed")
            finally:
                del type(conn).socket
                expect(type(conn).socket is orig, "socket")
            await conn.close()
            await asyncio.sleep(0.1)
            del loop

        run_loop(main, max_steps=10**4)
        stats.step()
        stats.state((value, connected, size))

    check.add("connections", connections)

    # Forms of addresses.
    NAMES4 = ["", "127.0.0.1", "localhost", "0.0.0.0", "10.1.2.3"]
    NAMES6 = ["", "::1", "::", "fe80::1"]
    PORTS = [0, 1, 80, 65535]

    def describe(host):
        """What's known of an address."""
        return (type(host).__name__, *host)

    def forms(chooser, stats):
        default = chooser.pick([IPv4Host, IPv6Host])
        six = chooser.choose(2)
        name = chooser.pick(NAMES6 if six else NAMES4)
        port = chooser.pick(PORTS)
        flow, scope = chooser.pick([(0, 0), (5, 0), (0, 3), (7, 9)])
        if six:
            want = ("IPv6Host", name, port, flow, scope)
            args = (name, port, flow, scope)
            made = IPv6Host(*args)
        else:
            want = ("IPv4Host", name, port)
            args = (name, port)
            made = IPv4Host(*args)
        for value in (args, (made,), tuple(made), (made, None)):
            host = normalize_host(*value, default=default)
            expect_eq(describe(host), want, "address", value)
            expect_eq(host, made, "equal")
            expect_eq(hash(host), hash(made), "hash")
            expect(host in {made: 1}, "found")
            expect_eq(
                host.family,
                socket.AF_INET6 if six else socket.AF_INET,
                "family",
            )
            any_addr = "::" if six else "0.0.0.0"
            numeric = {"": any_addr, "localhost": "127.0.0.1"}.get(name, name)
            expect_eq(host.address_str, numeric, "numeric")
            expect_eq(str(host.address), numeric, "address object")
            expect_eq(host.address.version, 6 if six else 4, "version")
            expect_eq(
                tuple(host.address_str_tuple),
                (numeric, *args[1:]),
                "socket address",
            )
            zero = host.zero_port()
            expect_eq(
                describe(zero),
                (want[0], name, 0, *args[2:]),
                "without port",
            )
            expect_eq(describe(host), want, "unchanged")
            expect_eq(str(host), f"{hostname(name)}:{port}", "text", value)
            expect_eq(host.hostname, hostname(name), "name")
        for value in ((), (None,)):
            expect_eq(
                describe(normalize_host(*value, default=default)),
                describe(default()),
                "default",
            )
        if not six:
            expect_eq(
                describe(normalize_host(name)), ("IPv4Host", name, 0), "name"
            )
            expect_eq(normalize_host(), IPv4Host(), "default")

        # Different addresses differ.
        for other_name in NAMES6 if six else NAMES4:
            for other_port in PORTS:
                other = (
                    IPv6Host(other_name, other_port, flow, scope)
                    if six
                    else IPv4Host(other_name, other_port)
                )
                expect_eq(
                    other == made,
                    (other_name, other_port) == (name, port),
                    "comparison",
                )
                stats.step()
        stats.state((want, default.__name__))

    check.add("forms", forms)

    # Failing connection attempts.
    def attempts(chooser, stats):
        error = chooser.pick(
            [None, OSError, ConnectionRefusedError, TimeoutError, ValueError]
        )
        logged = chooser.choose(2)

        async def main(loop):
            del loop
            seen: list = []

            class Logger:
                """Records messages."""

                def exception(self, message, *args, **kwargs):
                    seen.append((message, kwargs.get("exc_info"), args))

            async def attempt():
                await asyncio.sleep(0.1)
                if error is not None:
                    raise error("attempt")
                return 5

            raised = None
            result = "unset"
            try:
                result = await try_log_connection_error(
                    attempt(), "message", logger=Logger() if logged else None
                )
            except ValueError as exc:
                raised = exc
            if error is ValueError:
                expect(raised is not None, "hidden")
                expect_eq(seen, [], "logged")
            elif error is None:
                expect_eq((result, seen), (5, []), "result")
            else:
                expect_eq(result, None, "result")
                expect_eq([x[0] for x in seen], ["message"] * logged, "log")

        run_loop(main, max_steps=1000)
        stats.step()
        stats.state((str(error), logged))

    check.add("attempts", attempts)
    return check
