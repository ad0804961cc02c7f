"""C38: remote requests mean what they mean locally, malformed ones nothing."""

import asyncio
import io
import json
import os
import pathlib
import random
import shutil
import tempfile
from contextlib import AsyncExitStack, redirect_stdout

from mc.core import CLEANUPS, Check, expect, expect_eq
from mc.vloop import run_loop


def frame(raw: bytes) -> bytes:
    """Encode a message."""
    return len(raw).to_bytes(4, "big") + raw


class Reader:
    """Decodes messages."""

    def __init__(self) -> None:
        self.buffer = b""
        self.inbox: list = []
        self.transport = None
        self.lost = False

    def feed(self, data) -> None:
        """New data."""
        self.buffer += bytes(data)
        while len(self.buffer) >= 4:
            size = int.from_bytes(self.buffer[:4], "big")
            if len(self.buffer) < 4 + size:
                break
            self.inbox.append(json.loads(self.buffer[4 : 4 + size]))
            self.buffer = self.buffer[4 + size :]


class Raw(Reader, asyncio.Protocol):
    """A scripted stream peer."""

    def connection_made(self, transport) -> None:
        self.transport = transport

    def data_received(self, data) -> None:
        self.feed(data)

    def connection_lost(self, exc) -> None:
        self.lost = True

    def send(self, raw: bytes) -> None:
        """Send a message."""
        self.transport.write(frame(raw))


class RawUdp(Reader, asyncio.DatagramProtocol):
    """A scripted datagram peer."""

    dest = None

    def connection_made(self, transport) -> None:
        self.transport = transport

    def datagram_received(self, data, addr) -> None:
        self.feed(data)

    def send(self, raw: bytes) -> None:
        """Send a message."""
        self.transport.sendto(frame(raw), self.dest)


VALUES = [
    None,
    True,
    False,
    0,
    -1,
    5,
    1.5,
    10**30,
    "",
    "x",
    "default",
    "a.json",
    [],
    [1],
    ["a"],
    [None],
    [[]],
    {},
    {"a": 1},
    {"a": {"b": []}},
]

PARTS = {
    "loopback": ["a"],
    "poll": ["loopback"],
    "meta": ["package", "version", "kind", "handlers"],
    "find_file": [
        "is_request",
        "path",
        "parts",
        "search_paths",
        "include_cwd",
        "relative_to",
        "package",
        "package_subdir",
        "decode",
        "includes_key",
        "expect_overwrite",
        "update",
        "decoded",
        "other",
    ],
    "channel_command": [
        "environment",
        "command",
        "is_request",
        "success",
        "reason",
        "other",
    ],
}

# What other parts are (when only one of them is odd).
REST: dict = {
    "loopback": {},
    "poll": {},
    "meta": {"package": "p", "version": "1", "kind": "k", "handlers": []},
    "find_file": {"path": "a.json"},
    "channel_command": {"command": "get a"},
}

RESERVED = ["__id__", "__log_messages__", "keys_ignored", "other"]

TEXTS = [
    b"",
    b"{",
    b"}",
    b"null",
    b"NaN",
    b"5",
    b'"x"',
    b"\xff\xfe",
    b"\xef\xbb\xbf{}",
    b"{\x00}",
    b'{"a": }',
    b"[" * 100000,
    b'{"a":' * 50000,
    b"1" * 5000,
    b'{"loopback": {"a": ' + b"1" * 5000 + b"}}",
    b'{"loopback": {"a": NaN}}',
    b'{"loopback": {"a": -Infinity}}',
    b'{"loopback": {"a": "\\ud800"}}',
    b'{"loopback": {"a": 1}, "loopback": 5}',
    b'{"\\ud800": 5}',
    b'{"": 5, "": {}}',
]


def messages(thorough: bool):
    """All odd messages."""
    result: list[bytes] = list(TEXTS)

    def add(data) -> None:
        result.append(json.dumps(data).encode())

    for key in list(PARTS) + RESERVED:
        for value in VALUES:
            add({key: value})
            if isinstance(value, (dict, list)):
                add({key: [value]})
    for key, names in PARTS.items():
        for name in names:
            for value in VALUES:
                add({key: {**REST[key], name: value}})
            if name in REST[key]:
                rest = dict(REST[key])
                rest.pop(name)
                add({key: rest})
    for value in VALUES:
        add({"__log_messages__": [{"msg": value}]})
        add({"__log_messages__": [{"msg": "x %s", "args": value}]})
        add({"__log_messages__": [{"msg": "x", "args": value}]})
        add({"__log_messages__": [{"msg": "x", "level": value}]})
        add({"__log_messages__": {"msg": value}})
        add({"__log_messages__": [value], "__id__": value})
        add({"__id__": value, "loopback": {"a": 1}})
    # Paths.
    for path in (
        "",
        ".",
        "/",
        "\0",
        "a\0b",
        "x" * 5000,
        "package://missing/x.json",
        "package://runtimepy/x.json",
        "package://runtimepy/factories.yaml",
        "package://",
        "package://[",
        "http://[",
        "missing.json",
        "folder",
        "bad.json",
        "loop.json",
        "odd.bin",
    ):
        for decode in (False, True):
            add(
                {
                    "find_file": {
                        "path": path,
                        "decode": decode,
                        "search_paths": ["{root}"],
                    }
                }
            )
        add({"find_file": {"path": path, "parts": ["x"]}})
        add({"find_file": {"path": "a.json", "search_paths": [path]}})
        add({"find_file": {"path": "a.json", "relative_to": path}})
        add({"find_file": {"path": "a.json", "package": path}})
        add(
            {
                "find_file": {
                    "path": "a.json",
                    "package": "runtimepy",
                    "package_subdir": path,
                }
            }
        )
    # Commands.
    for command in (
        "",
        " ",
        "help",
        "-h",
        "set",
        "set a",
        "set a x",
        "set a 1e999",
        "set a " + "1" * 5000,
        "get missing",
        "toggle a",
        "custom x",
        "get -r a",
        "set -e x a 1",
        "-- --",
        "set -- --",
        "\0",
        "set a \ud800",
        "x" * 10000,
    ):
        for env in ("default", "missing", ""):
            add({"channel_command": {"command": command, "environment": env}})
    return result


def build(tier: str) -> Check:
    """Build the check."""
    import runtimepy.net.server.websocket  # noqa: F401 (must be first)
    from vcorelib.io import ARBITER
    from vcorelib.dict import MergeStrategy
    from vcorelib.paths import find_file

    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.channel.environment.command import clear_env, register_env
    from runtimepy.channel.environment.command.processor import (
        ChannelCommandProcessor,
    )
    from runtimepy.net.arbiter.tcp.json import (
        TcpJsonMessageConnection,
        UdpJsonMessageConnection,
    )
    import logging

    thorough = tier == "thorough"
    ODD = messages(thorough)
    check = Check(
        "C38",
        tier,
        kind="model_checking",
        rule=(
            "every message with an odd part or text, followed by a correct "
            "request, over streams and datagrams; every combination of "
            "parameters of file requests; sequences of channel commands to "
            "several environments"
        ),
        bounds={
            "odd_messages": len(ODD),
            "messages_in_a_row": 2,
            "commands_in_a_row": 2,
        },
    )

    folders: list[pathlib.Path] = []

    def tree() -> pathlib.Path:
        """A folder with files."""
        if not folders:
            root = pathlib.Path(tempfile.mkdtemp(prefix="mc-c38-"))
            CLEANUPS.append(lambda: shutil.rmtree(root, ignore_errors=True))
            folders.append(root)
            for name in ("one", "two", "one/sub"):
                (root / name).mkdir()
            (root / "a.json").write_text('{"at": "root", "n": {"x": 1}}')
            (root / "one" / "a.json").write_text(
                '{"at": "one", "n": {"y": 1}, "includes": ["../a.json"], '
                '"more": ["sub/b.yaml"]}'
            )
            (root / "one" / "sub" / "b.yaml").write_text(
                "---\nat: sub\nn:\n  z: 2\n"
            )
            (root / "two" / "a.json").write_text('{"at": "two"}')
            (root / "two" / "only.json").write_text('{"only": true}')
            (root / "bad.json").write_text('{"at": ')
            (root / "text.txt").write_text("text")
            (root / "folder").mkdir()
            (root / "loop.json").write_text('{"includes": ["loop.json"]}')
            (root / "odd.bin").write_bytes(bytes(range(256)))
        return folders[0]

    def environment(value=5):
        """A small environment."""
        env = ChannelEnvironment()
        env.int_channel("n", "int16", commandable=True, default=value)
        env.int_channel("fixed", "uint8", default=1)
        env.bool_channel("flag", commandable=True)
        env.float_channel("f", "double", commandable=True)
        env.enum("E", "int", items={"one": 1, "two": 2})
        env.int_channel("e", "uint8", commandable=True, enum="E")
        env.finalize()
        return ChannelCommandProcessor(env, logging.getLogger("mc.c38"))

    class QuietTcp(TcpJsonMessageConnection):
        """No handshake."""

        async def async_init(self) -> bool:
            return True

    class QuietUdp(UdpJsonMessageConnection):
        """No handshake."""

        async def async_init(self) -> bool:
            return True

    async def endpoint(loop, kind):
        """A connection and a scripted peer."""
        random.seed(0)
        if kind == "tcp":
            raws = []

            def factory():
                raws.append(Raw())
                return raws[-1]

            server = loop.net.listen(factory, "127.0.0.1", 0)
            conn = await QuietTcp.create_connection(
                host="127.0.0.1", port=server.sockets[0].getsockname()[1]
            )
            return conn, raws[0]
        conn = await QuietUdp.create_connection(
            local_addr=("127.0.0.1", loop.net.port())
        )
        _, raw = await loop.create_datagram_endpoint(
            RawUdp, local_addr=("127.0.0.1", loop.net.port())
        )
        raw.dest = conn.local_address.address_str_tuple
        return conn, raw

    def odd(chooser, stats):
        kind = chooser.pick(["tcp", "udp"])
        first = chooser.choose(len(ODD))
        plan = [ODD[first]]
        # (Pairs: the same message again.)
        if thorough:
            plan.append(ODD[(first * 7 + 3) % len(ODD)])
        plan.append(ODD[first])

        async def main(loop):
            clear_env()
            conn, raw = await endpoint(loop, kind)
            task = loop.create_task(conn.process())
            await asyncio.sleep(0)
            calls = []

            async def handler(outbox, inbox):
                calls.append(inbox["v"])
                outbox["got"] = inbox["v"]

            conn.basic_handler("h", handler)
            for num, text in enumerate(plan):
                raw.send(text.replace(b"{root}", str(tree()).encode()))
                await asyncio.sleep(0.05)
                before = len(raw.inbox)
                raw.send(
                    json.dumps({"h": {"v": num}, "__id__": 777 + num}).encode()
                )
                await asyncio.sleep(0.05)
                where = (kind, text[:100])
                expect(not conn.disabled, "session ended", where)
                expect(not task.done(), "session ended", where)
                answers = raw.inbox[before:]
                for answer in answers:
                    answer.pop("__log_messages__", None)
                expect_eq(
                    answers,
                    [{"h": {"got": num}, "__id__": 777 + num}],
                    "answers",
                    where,
                )
                stats.step(2)
            expect_eq(calls, list(range(len(plan))), "requests")
            # What had an identifier was answered with it.
            for text in plan[:1]:
                try:
                    data = json.loads(text)
                except (ValueError, RecursionError):
                    continue
                if not isinstance(data, dict) or "__id__" not in data:
                    continue
                found = [
                    x
                    for x in raw.inbox
                    if "h" not in x and x.get("__id__", raw) == data["__id__"]
                ]
                expect_eq(
                    len(found), plan.count(text), "answers", kind, text[:100]
                )
            conn.disable("done")
            await task
            stats.state((kind, first))
            stats.outcome((kind, json.dumps(raw.inbox)[:2000]))

        with redirect_stdout(io.StringIO()):  # (Usage of commands.)
            return run_loop(main, max_steps=40000)[1]

    check.add("odd", odd, split=2, limit_s=60)

    # Files.
    def files(chooser, stats):
        root = tree()
        request: dict = {
            "path": chooser.pick(
                [
                    "a.json",
                    "only.json",
                    "sub/b.yaml",
                    "{root}/one/a.json",
                    "{root}/none.json",
                    "bad.json",
                    "text.txt",
                    "../a.json",
                    "package://runtimepy/factories.yaml",
                ]
            )
        }
        search = chooser.pick(
            [None, ["{root}"], ["{root}/one", "{root}/two"], ["{root}/two"]]
        )
        if search is not None:
            request["search_paths"] = search
        if not request["path"].startswith("package"):
            parts = chooser.pick([None, [], ["..", "a.json"]])
            if parts is not None:
                request["parts"] = parts
        for key, options in (
            ("relative_to", [None, "{root}/one/x"]),
            ("include_cwd", [None, True]),
            ("package", [None, "runtimepy"]),
        ):
            value = chooser.pick(options)
            if value is not None and not (
                key == "package" and request["path"].startswith("package")
            ):
                request[key] = value
        decode = chooser.pick(
            [
                None,
                {},
                {"includes_key": "more"},
                {"update": True},
                {"expect_overwrite": True, "update": False},
            ]
        )
        if decode is not None:
            request["decode"] = True
            request.update(decode)
        request = json.loads(json.dumps(request).replace("{root}", str(root)))
        backwards = chooser.choose(2)

        async def main(loop):
            clear_env()
            server = None
            conns: list = []
            random.seed(1)
            port = loop.net.port()

            async with QuietTcp.serve(conns.append, host="127.0.0.1", port=port):
                client = await QuietTcp.create_connection(
                    host="127.0.0.1", port=port
                )
                await asyncio.sleep(0)
                (server,) = conns
                both = [client, server]
                tasks = [loop.create_task(x.process()) for x in both]
                asker = both[backwards]
                before = os.getcwd()
                os.chdir(root / "two")
                try:
                    result = await asker.wait_json({"find_file": request})
                    want = find_file(
                        request["path"],
                        *request.get("parts", []),
                        search_paths=request.get("search_paths"),
                        include_cwd=request.get("include_cwd", False),
                        relative_to=request.get("relative_to"),
                        package=request.get("package"),
                        package_subdir="data",
                    )
                    expected: dict = {
                        "is_request": False,
                        "path": str(want) if want is not None else None,
                    }
                    if decode is not None:
                        expected["decoded"] = {"success": False, "data": {}}
                        if want is not None:
                            local = ARBITER.decode(
                                want,
                                includes_key=request.get(
                                    "includes_key", "includes"
                                ),
                                expect_overwrite=request.get(
                                    "expect_overwrite", False
                                ),
                                strategy=(
                                    MergeStrategy.UPDATE
                                    if request.get("update")
                                    else MergeStrategy.RECURSIVE
                                ),
                            )
                            expected["decoded"] = {
                                "success": local.success,
                                "data": local.data,
                            }
                finally:
                    os.chdir(before)
                have = result["find_file"]
                if decode is not None:
                    expect(
                        isinstance(have["decoded"].pop("time_ns"), int), "time"
                    )
                expect_eq(have, expected, "result", request)
                for conn in both:
                    conn.disable("done")
                for task in tasks:
                    await task
            stats.step()
            stats.outcome(json.dumps(expected).replace(str(root), ""))

        result = run_loop(main, max_steps=40000)[1]
        stats.state(json.dumps(request).replace(str(root), ""))
        return result

    check.add("files", files, split=3, limit_s=60)

    # Commands.
    COMMANDS = [
        "set n -5",
        "set n 99999",
        "set fixed 3",
        "set -f fixed 3",
        "toggle flag",
        "toggle n",
        "set e two",
        "set e three",
        "set f -1.5e3",
        "set flag true",
        "get n",
        "get missing",
        "set n",
        "bad n",
    ]

    def commands(chooser, stats):
        kind = chooser.pick(["tcp", "udp"])
        how = chooser.pick(["request", "remote"])
        plan = [
            (
                chooser.pick(["default", "x", "y", "missing"]),
                chooser.pick(
                    [x for x in COMMANDS if how == "request" or x != "bad n"]
                ),
            )
            for _ in range(2 if not thorough else 3)
        ]

        async def main(loop):
            clear_env()
            random.seed(1)
            cls = QuietTcp if kind == "tcp" else QuietUdp
            async with AsyncExitStack() as stack:
                if kind == "tcp":
                    client, server = await stack.enter_async_context(
                        cls.create_pair()
                    )
                else:
                    ports = [loop.net.port(), loop.net.port()]
                    client, server = [
                        await cls.create_connection(
                            local_addr=("127.0.0.1", mine),
                            remote_addr=("127.0.0.1", other),
                        )
                        for mine, other in (ports, reversed(ports))
                    ]
                both = [client, server]
                tasks = [loop.create_task(x.process()) for x in both]
                twins = {}
                real = {}
                for name, value in (("x", 1), ("y", 2), ("default", 3)):
                    twins[name] = environment(value)
                    real[name] = environment(value)
                register_env("x", real["x"])
                register_env("y", real["y"])
                # (The default is the other side's own environment.)
                for env in (server.command.env,):
                    env.int_channel("n", "int16", commandable=True, default=3)
                    env.int_channel("fixed", "uint8", default=1)
                    env.bool_channel("flag", commandable=True)
                    env.float_channel("f", "double", commandable=True)
                    env.enum("E", "int", items={"one": 1, "two": 2})
                    env.int_channel("e", "uint8", commandable=True, enum="E")
                real["default"] = server.command
                mine = dict(client.command.env.values())
                for name, command in plan:
                    want = None
                    if name in twins:
                        want = twins[name].command(command)
                    if how == "request":
                        result = await client.channel_command(
                            command, environment=name
                        )
                        if want is None:
                            expect(not result.success, "missing environment")
                            expect(name in str(result.reason), "reason")
                        else:
                            expect_eq(
                                (result.success, result.reason),
                                (want.success, want.reason),
                                "result",
                                name,
                                command,
                            )
                    else:
                        first, rest = command.split(" ", 1)
                        local = client.command.command(
                            f"{first} -r -e {name} {rest}"
                        )
                        expect(local.success, "not queued", str(local))
                        await client.process_command_queue()
                    stats.step()
                    for key, twin in twins.items():
                        have = real[key].env.values()
                        for chan, value in twin.env.values().items():
                            expect_eq(have[chan], value, "effect", key, chan)
                now = dict(client.command.env.values())
                for key in ("n", "flag", "auto_restart"):
                    expect_eq(now.get(key), mine.get(key), "own channel", key)
                for conn in both:
                    conn.disable("done")
                for task in tasks:
                    await task
            clear_env()
            stats.outcome((how, str(plan), str(real["x"].env.values())))

        result = run_loop(main, max_steps=40000)[1]
        stats.state((kind, how, str(plan)))
        return result

    check.add("commands", commands, split=3, limit_s=60)
    return check
