"""C39: the command line starts what it is asked for and reports the result."""

import asyncio
import base64
import contextlib
import errno
import io
import itertools
import json
import os
import pathlib
import shutil
import socket
import sys
import tempfile
import threading
import time
import types

from mc.core import CLEANUPS, Check, expect, expect_eq

APPS = "mc_c39_apps"


class Files:
    """A scripted TFTP server (in a thread of its own)."""

    def __init__(self, files: dict, silent: bool = False) -> None:
        self.files = files
        self.silent = silent
        self.requests: list = []
        self.when: list[float] = []
        self.received: dict = {}
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.settimeout(0.02)
        self.port = self.sock.getsockname()[1]
        self.going = True
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self) -> None:
        """Serve."""
        state: dict = {}
        while self.going:
            try:
                data, addr = self.sock.recvfrom(2048)
            except (TimeoutError, ConnectionError):
                continue
            kind = data[1]
            if kind in (1, 2):
                name, mode = data[2:].split(b"\0")[:2]
                self.requests.append((kind, name.decode(), mode.decode()))
                self.when.append(time.monotonic())
                if self.silent:
                    continue
                if kind == 1 and name.decode() not in self.files:
                    self.sock.sendto(b"\0\5\0\1nope\0", addr)
                    continue
                if state.get(addr) == (kind, name):
                    continue  # (Sent again.)
                state[addr] = (kind, name)
                name = name.decode()
                if kind == 1:
                    data = self.files[name]
                    self.sock.sendto(b"\0\3\0\1" + data[:512], addr)
                else:
                    self.received[name] = {}
                    self.sock.sendto(b"\0\4\0\0", addr)
            elif kind == 3 and addr in state:
                block = int.from_bytes(data[2:4], "big")
                name = state[addr][1].decode()
                self.received[name][block] = data[4:]
                # (What was written can be read.)
                self.files[name] = b"".join(
                    x for _, x in sorted(self.received[name].items())
                )
                self.sock.sendto(b"\0\4" + data[2:4], addr)
            elif kind == 4 and addr in state:
                block = int.from_bytes(data[2:4], "big")
                data = self.files.get(state[addr][1].decode(), b"")
                piece = data[512 * block : 512 * (block + 1)]
                if len(data) >= 512 * block:
                    self.sock.sendto(
                        b"\0\3" + (block + 1).to_bytes(2, "big") + piece, addr
                    )

    def close(self) -> None:
        """Stop."""
        self.going = False
        self.thread.join()
        self.sock.close()


def build(tier: str) -> Check:
    """Build the check."""
    import runtimepy.net.server.websocket  # noqa: F401 (must be first)

    from runtimepy.entry import main

    thorough = tier == "thorough"
    check = Check(
        "C39",
        tier,
        kind="model_checking",
        rule=(
            "every combination of the options of the commands with every "
            "result of the applications, run with real sockets"
        ),
        bounds={"configurations": 2, "ports": "assigned and fixed"},
    )

    folders: list[pathlib.Path] = []

    def scratch() -> pathlib.Path:
        """A folder (of this process)."""
        if not folders or folders[-1].name.split("_")[1] != str(os.getpid()):
            root = pathlib.Path(
                tempfile.mkdtemp(prefix=f"mc-c39_{os.getpid()}_")
            )
            CLEANUPS.append(lambda: shutil.rmtree(root, ignore_errors=True))
            folders.append(root)
            (root / "sub").mkdir()
        return folders[-1]

    def address() -> str:
        """A loopback address that only this process uses."""
        pid = os.getpid()
        return f"127.{1 + (pid >> 16) % 200}.{(pid >> 8) & 255}.{pid & 255}"

    counter = itertools.count()

    def free_port() -> int:
        """A port that only this process uses."""
        while True:
            port = 15000 + (os.getpid() % 40) * 400 + next(counter) % 400
            with contextlib.suppress(OSError), contextlib.ExitStack() as stack:
                for kind in (socket.SOCK_STREAM, socket.SOCK_DGRAM):
                    sock = stack.enter_context(
                        socket.socket(socket.AF_INET, kind)
                    )
                    sock.bind(("0.0.0.0", port))
                return port

    def run(*argv: str):
        """Run a command."""
        out = io.StringIO()
        before = os.getcwd()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(
            io.StringIO()
        ):
            result = main(["runtimepy", "-q", *argv])
        expect_eq(os.getcwd(), before, "working directory", argv)
        expect_eq(out.getvalue(), "", "output", argv)
        return result

    def applications(**functions) -> None:
        """Provide applications."""
        module = types.ModuleType(APPS)
        for name, function in functions.items():
            function.__name__ = name
            setattr(module, name, function)
        sys.modules[APPS] = module

    def config(name: str, data) -> str:
        """Write a configuration."""
        path = scratch() / name
        path.write_text(json.dumps(data))
        return str(path)

    async def talk(factory: str, host: str, port: int, pings: int):
        """What a server does with a new client."""
        reader, writer = await asyncio.open_connection(host, port)
        try:
            if factory == "tcp_echo":
                writer.write(b"hello")
                return await reader.readexactly(5)
            if factory == "tcp_json":
                data = b'{"loopback":{"a":1},"__id__":5}'
                writer.write(len(data).to_bytes(4, "big") + data)
                while True:
                    size = int.from_bytes(await reader.readexactly(4), "big")
                    answer = json.loads(await reader.readexactly(size))
                    if answer.get("__id__") == 5:
                        answer.pop("__log_messages__", None)
                        return answer
            if factory == "http":
                writer.write(b"GET /none HTTP/1.1\r\nHost: x\r\n\r\n")
                return (await reader.readline()).split()[0]
            if "websocket" in factory:
                key = base64.b64encode(bytes(16)).decode()
                writer.write(
                    (
                        f"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\n"
                        f"Connection: Upgrade\r\nSec-WebSocket-Key: {key}\r\n"
                        "Sec-WebSocket-Version: 13\r\n\r\n"
                    ).encode()
                )
                return b" ".join((await reader.readline()).split()[:2])
            return None
        finally:
            writer.close()

    TALK = {
        "tcp_echo": b"hello",
        "tcp_json": {"loopback": {"a": 1}, "__id__": 5},
        "http": b"HTTP/1.1",
        "websocket_echo": b"HTTP/1.1 101",
        "websocket_json": b"HTTP/1.1 101",
        "tcp_null": None,
        "scpi_conn": None,
    }

    async def talk_udp(factory: str, host: str, port: int):
        """What a server does with datagrams."""
        loop = asyncio.get_running_loop()
        got: asyncio.Queue = asyncio.Queue()

        class Peer(asyncio.DatagramProtocol):
            """A peer."""

            def datagram_received(self, data, addr) -> None:
                got.put_nowait(data)

        transport, _ = await loop.create_datagram_endpoint(
            Peer, remote_addr=(host, port)
        )
        try:
            if factory == "udp_echo":
                transport.sendto(b"hello")
                return await asyncio.wait_for(got.get(), 20)
            if factory == "udp_json":
                data = b'{"loopback":{"a":1},"__id__":5}'
                transport.sendto(len(data).to_bytes(4, "big") + data)
                answer = json.loads(
                    (await asyncio.wait_for(got.get(), 20))[4:]
                )
                answer.pop("__log_messages__", None)
                return answer
            return None
        finally:
            transport.close()

    TALK_UDP = {
        "udp_echo": b"hello",
        "udp_json": {"loopback": {"a": 1}, "__id__": 5},
        "udp_null": None,
    }

    KINDS = {
        "tcp_echo": "EchoTcpConnection",
        "tcp_null": "NullTcpConnection",
        "tcp_json": "TcpJsonMessageConnection",
        "http": "HttpConnection",
        "websocket_echo": "EchoWebsocketConnection",
        "websocket_json": "WebsocketJsonMessageConnection",
        "udp_echo": "EchoUdpConnection",
        "udp_null": "NullUdpConnection",
        "udp_json": "UdpJsonMessageConnection",
    }

    # The name of the module that applications see when it runs.
    def server(chooser, stats):
        udp = chooser.choose(2)
        factory = chooser.pick(
            list(TALK_UDP)
            if udp
            else [
                "tcp_echo",
                "tcp_null",
                "tcp_json",
                "http",
                "websocket_echo",
                "websocket_json",
            ]
        )
        loopback = chooser.choose(2)
        hosted = chooser.choose(2)
        fixed = chooser.choose(2)
        wait = chooser.choose(2)
        no_poller = chooser.choose(2)
        configs = chooser.choose(2)
        code = chooser.pick([0, 1, 7])
        long = chooser.choose(2)
        host = address() if hosted else "127.0.0.1"
        seen: dict = {}

        async def app(info):
            seen["config"] = info.original_config()
            seen["conns"] = {
                name.split(".")[-1]: (
                    type(conn).__name__,
                    conn.disabled,
                    getattr(conn, "remote_address", None),
                    getattr(conn, "local_address", None),
                )
                for name, conn in info.connections.items()
            }
            seen["tasks"] = {
                name: task.period_s.value for name, task in info.tasks.items()
            }
            seen["poll"] = [
                task.env.value("poll_connection_metrics")
                for task in info.tasks.values()
                if "poll_connection_metrics" in task.env.names
            ]
            port = seen["port"] = next(
                x["port"]
                for x in seen["config"]["ports"]
                if x["name"].startswith(factory)
                and x["name"] not in ("udp_json", "tcp_json", "websocket_json")
            )
            if udp:
                seen["talk"] = await talk_udp(factory, host, port)
            else:
                seen["talk"] = await asyncio.wait_for(
                    talk(factory, host, port, 1), 20
                )

            async def later():
                await asyncio.sleep(0.03 if wait and not code else 20.0)
                seen["stopped"] = not info.stop.is_set()
                info.stop.set()

            seen["task"] = asyncio.create_task(later())
            return code

        async def extra(info):
            seen["extra"] = True
            return 0

        applications(app=app, extra=extra)
        files = [config("a.json", {"app": [f"{APPS}.app"]})]
        if configs:
            files.append(
                config(
                    "b.json",
                    {
                        "app": [f"{APPS}.extra"],
                        "tasks": [
                            {
                                "name": "more",
                                "factory": "sinusoid",
                                "period_s": 0.25,
                            }
                        ],
                    },
                )
            )
        argv = ["server"]
        if udp:
            argv.append("--udp" if long else "-u")
        if loopback:
            argv.append("--loopback" if long else "-l")
        if hosted:
            argv += ["--host", host]
        if fixed:
            fixed = free_port()
            argv += ["--port" if long else "-p", str(fixed)]
        if wait:
            argv.append("--wait-for-stop" if long else "-w")
        if no_poller:
            argv.append("--no-poller")
        argv.append(factory)
        for attempt in range(10):
            seen.clear()
            try:
                result = run(*argv, *files)
                break
            except OSError as exc:
                # Assigned ports are only free until something else uses them.
                if exc.errno != errno.EADDRINUSE or fixed or attempt == 9:
                    raise
        expect_eq(result, code, "exit code", argv)
        stats.step()

        # The server.
        prefix = f"{factory}_{'udp' if udp else 'tcp'}"
        expect_eq(
            seen["talk"], (TALK_UDP if udp else TALK)[factory], "server", argv
        )
        expect(seen["port"] > 0, "port", argv)
        if fixed:
            expect_eq(seen["port"], fixed, "port", argv)
        conns = dict(seen["conns"])
        if udp:
            kind, disabled, _, local = conns.pop(f"{prefix}_server")
            expect_eq((kind, disabled), (KINDS[factory], False), "server")
            expect_eq(local.port, seen["port"], "server port")
            if hosted:
                expect_eq(local.name, host, "server host", argv)
        if loopback:
            kind, disabled, remote, _ = conns.pop(f"{prefix}_client")
            expect_eq(
                (kind, disabled), (KINDS[factory], False), "client", argv
            )
            # (Websocket clients don't know their remote address.)
            if "websocket" not in factory:
                expect_eq(remote.port, seen["port"], "client", argv)
                if hosted:
                    expect_eq(remote.name, host, "client", argv)
        expect_eq(conns, {}, "other connections", argv)

        # Everything else.
        expect_eq(seen["poll"], [not no_poller], "poller", argv)
        tasks = dict(seen["tasks"])
        tasks.pop("housekeeping")
        expect_eq(tasks, {"more": 0.25} if configs else {}, "tasks", argv)
        expect_eq(
            seen.get("extra", False),
            bool(configs and not code),
            "other application",
            argv,
        )
        expect_eq(
            seen.get("stopped", False),
            bool(wait and not code),
            "waited for stop",
            argv,
        )
        stats.state(tuple(argv).__str__() + str((code, configs)))
        stats.outcome((factory, result, str(sorted(seen["conns"]))))

    check.add("server", server, split=4, replay_every=0, limit_s=240.0)

    # Configurations.
    def arbiter(chooser, stats):
        command = chooser.pick(["arbiter", "task"])
        rate = None
        if command == "task":
            rate = chooser.pick([None, "4", "0.5", "3", "4000"])
        folder = chooser.pick([None, "-C", "--dir"])
        init_only = chooser.pick([None, "-i", "--init-only", "--init_only"])
        wait = chooser.pick([None, "-w", "--wait-for-stop", "--wait_for_stop"])
        no_poller = chooser.choose(2)
        plan = chooser.pick(
            [
                (0,),
                (3,),
                ("error",),
                (0, 0),
                (0, 2),
                (2, 0),
                (0, "error"),
                ("error", 0),
            ]
        )
        seen: list = []
        states: list = []

        def make(num, code):
            async def app(info):
                seen.append(num)
                states.append(
                    (
                        info.stop.is_set(),
                        info.original_config()["config"],
                        os.getcwd(),
                        {
                            name: float(f"{task.period_s.value:.6g}")
                            for name, task in info.tasks.items()
                        },
                        [
                            task.env.value("poll_connection_metrics")
                            for task in info.tasks.values()
                            if "poll_connection_metrics" in task.env.names
                        ],
                    )
                )
                if code == "error":
                    raise ValueError("error")

                async def later():
                    await asyncio.sleep(0.02 if last else 20.0)
                    info.stop.set()
                    seen.append("stopped")

                last = num == len(plan) - 1 and not bad and wait
                states.append(asyncio.create_task(later()))
                return code

            return app

        bad = [x for x in plan if x != 0]
        applications(
            **{f"app{i}": make(i, code) for i, code in enumerate(plan)}
        )
        root = scratch()
        names = []
        for num in range(len(plan)):
            config(
                f"sub/c{num}.json",
                {"app": [f"{APPS}.app{num}"], "config": {f"value{num}": num}},
            )
            names.append(
                f"c{num}.json" if folder else str(root / f"sub/c{num}.json")
            )
        argv = []
        if folder:
            argv += [folder, str(root / "sub")]
        argv.append(command)
        argv += [x for x in (init_only, wait) if x]
        if no_poller:
            argv.append("--no-poller")
        if command == "task":
            if rate:
                argv += ["-r" if no_poller else "--rate", rate]
            argv.append("sinusoid")
        result = run(*argv, *names)
        stats.step()

        # Applications run until one of them fails.
        want: list = []
        code = 0
        for num, item in enumerate(plan):
            if code == 0:
                want.append(num)
                code = -1 if item == "error" else item
        expect_eq(result, code, "exit code", argv, plan)
        expect_eq(
            [x for x in seen if x != "stopped"], want, "applications", argv
        )
        expect_eq(
            "stopped" in seen,
            bool(wait and not code and not init_only),
            "waited",
            argv,
            plan,
        )
        for state in states:
            if not isinstance(state, tuple):
                continue
            stop, value, cwd, tasks, poll = state
            expect_eq(stop, bool(init_only), "stop", argv)
            expect_eq(
                value,
                {f"value{x}": x for x in range(len(plan))},
                "configuration",
                argv,
            )
            if folder:
                expect_eq(cwd, str(root / "sub"), "folder", argv)
            tasks.pop("housekeeping")
            expect_eq(
                tasks,
                (
                    {"sinusoid": float(f"{1.0 / float(rate or 10):.6g}")}
                    if command == "task"
                    else {}
                ),
                "tasks",
                argv,
            )
            expect_eq(poll, [not no_poller], "poller", argv)
        stats.state((str(argv).replace(str(root), ""), str(plan)))
        stats.outcome((result, str(seen)))

    check.add("arbiter", arbiter, split=4, replay_every=0, limit_s=240.0)

    # Files.
    def tftp(chooser, stats):
        operation = chooser.pick(["read", "write"])
        size = chooser.pick([0, 1, 511, 512, 513, 1024, 1500])
        mode = chooser.pick([None, "octet", "netascii"])
        named = chooser.choose(2)
        case = chooser.pick(["good", "missing", "silent"])
        long = chooser.choose(2)
        if case != "good" and (size or mode or long):
            return
        root = scratch()
        data = bytes((x * 7 + x // 256) % 251 for x in range(size))
        ours = root / "ours.bin"
        theirs = "folder/theirs.bin" if named else str(ours)
        server = Files(
            {theirs: data} if case != "missing" else {}, case == "silent"
        )
        try:
            if operation == "write" and case != "missing":
                ours.write_bytes(data)
            elif ours.exists():
                ours.unlink()
            argv = ["tftp", "--port" if long else "-p", str(server.port)]
            if mode:
                argv += ["--mode" if long else "-m", mode]
            slow = case == "silent"
            argv += ["--timeout" if long else "-t", "0.5" if slow else "10"]
            argv += ["--reemit" if long else "-r", "0.1" if slow else "9"]
            argv += [operation, "127.0.0.1", str(ours)]
            if named:
                argv.append(theirs)
            if operation == "write" and case == "missing":
                # (There is no such file.)
                try:
                    result = run(*argv)
                except (OSError, AssertionError):
                    result = 1
                expect(result not in (0, None), "exit code", argv)
                expect(
                    not any(server.received.values()), "written", argv
                )
                stats.outcome("missing")
                return
            result = run(*argv)
            stats.step()
            if case == "good":
                expect_eq(result, 0, "exit code", argv)
            else:
                expect(result not in (0, None), "exit code", argv)
            for request in server.requests:
                expect_eq(
                    request,
                    (
                        1 if operation == "read" else request[0],
                        theirs,
                        mode or "octet",
                    ),
                    "request",
                    argv,
                )
            expect_eq(
                server.requests[0][0],
                1 if operation == "read" else 2,
                "operation",
            )
            if case == "silent":
                expect(len(server.requests) >= 2, "not sent again", argv)
                expect(
                    server.when[-1] - server.when[0] <= 2.0, "time out", argv
                )
            elif case == "good" and operation == "read":
                expect_eq(ours.read_bytes(), data, "content", argv)
            elif case == "good":
                got = b"".join(
                    x for _, x in sorted(server.received[theirs].items())
                )
                expect_eq(got, data, "content", argv)
            stats.state((operation, size, mode, named, case))
            stats.outcome((operation, case, result))
        finally:
            server.close()
            if ours.exists():
                ours.unlink()

    check.add("tftp", tftp, split=3, replay_every=0, limit_s=240.0)

    # Command lines that can't be used.
    def usage(chooser, stats):
        argv, want = chooser.pick(
            [
                (["noop"], 0),
                (["--version"], 0),
                (["--help"], 0),
                (["server", "--help"], 0),
                (["nope"], 2),
                (["server"], 2),
                (["server", "--nope", "tcp_null"], 2),
                (["server", "-p", "x", "tcp_null"], 2),
                (["task"], 2),
                (["task", "-r", "x", "sinusoid"], 2),
                (["arbiter"], 2),
                (["tftp"], 2),
                (["tftp", "read", "localhost"], 2),
                (["tftp", "delete", "localhost", "a"], 2),
                (["tftp", "-p", "x", "read", "localhost", "a"], 2),
                (["mtu"], 2),
                (["mtu", "127.0.0.1", "9"], 0),
                (["mtu", "--probe-size", "10", "127.0.0.1", "9"], 0),
                (["mtu", "--fallback", "10", "127.0.0.1", "9"], 0),
                (["tui", "-i", "x"], 2),
            ]
        )
        before = os.getcwd()
        with contextlib.redirect_stdout(
            io.StringIO()
        ), contextlib.redirect_stderr(io.StringIO()):
            result = main(["runtimepy", "-q", *argv])
        expect_eq(result, want, "exit code", argv)
        expect_eq(os.getcwd(), before, "working directory", argv)
        stats.step()
        stats.state(tuple(argv))
        stats.outcome(result)

    check.add("usage", usage, replay_every=0)
    return check
