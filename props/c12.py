"""C12: the HTTP server answers every path with the right data, contained."""

import asyncio
import json
import logging
from pathlib import Path
import shutil
import tempfile

from mc.core import CLEANUPS, Check, expect, expect_eq
from mc.vloop import run_loop

SECRET = b"SECRET-MARKER"
BINARY = bytes(range(256))

# Contents of the two search paths.
TREES = {
    "root1": {
        ("b.txt",): b"b one\r\n\r\n",
        ("empty.txt",): b"",
        ("page.md",): b"# Title-one\n",
        ("data.bin",): BINARY,
        ("arch.tar.gz",): b"\x1f\x8b\x00one",
        ("bad.md",): b"\xff\xfe\xfd",
        ("noext",): b"x",
        ("sub", "b.txt"): b"b sub",
        ("sub", "index.json"): b"{}",
        ("two.words.txt",): b"two",
    },
    "root2": {
        ("b.txt",): b"b two",
        ("only2.txt",): b"only",
        ("page.txt",): b"plain page",
        ("sub", "deep.txt"): b"deep",
        ("sub", "page2.md"): b"Title-two",
        ("json", "x.txt"): b"file",
        ("noext.md",): b"Title-three",
        ("redirected",): b"file wins",
    },
}
OUTSIDE = {
    ("secret.txt",): SECRET,
    ("secret.md",): SECRET,
    ("root1.md",): SECRET,
    ("root2.md",): SECRET,
    ("root1x", "secret.txt"): SECRET,
    ("other", "secret.md"): SECRET,
}
TYPES = {".txt": "text/plain", ".json": "application/json"}


def call():
    """A value computed on request."""
    return {"deep": {"x": [1, 2]}, "leaf": "text"}


DATA = {
    "test": {
        "a": 1,
        "none": None,
        "zero": 0,
        "list": [1, {"b": 2}],
        "e": {},
        "..": "dots",
        "call": call,
        "value": lambda: 5,
        "json": {"json": True},
    },
    "top": "level",
}


def lookup(parts):
    """(found, value) of a path in the data."""
    curr = DATA
    for part in parts:
        if callable(curr):
            curr = curr()
        if not isinstance(curr, dict) or part not in curr:
            return False, part
        curr = curr[part]

    def resolve(item):
        if callable(item):
            item = item()
        if isinstance(item, dict):
            return {key: resolve(val) for key, val in item.items()}
        return item

    return True, resolve(curr)


class Raw(asyncio.Protocol):
    """A scripted peer."""

    def __init__(self) -> None:
        self.buffer = b""
        self.transport = None
        self.lost = False

    def connection_made(self, transport) -> None:
        self.transport = transport

    def data_received(self, data) -> None:
        self.buffer += bytes(data)

    def connection_lost(self, exc) -> None:
        self.lost = True

    def messages(self):
        """(status, fields, body) of everything received."""
        out = []
        data = self.buffer
        while data:
            head, sep, data = data.partition(b"\r\n\r\n")
            expect(sep, "truncated header", head)
            lines = head.decode().split("\r\n")
            fields = dict(
                (x.split(": ", 1)[0].lower(), x.split(": ", 1)[1])
                for x in lines[1:]
            )
            size = int(fields.get("content-length", "0"))
            expect(len(data) >= size, "truncated body", lines)
            out.append((int(lines[0].split(" ")[1]), fields, data[:size]))
            data = data[size:]
        return out


class Scratch:
    """Files on disk."""

    def __init__(self) -> None:
        self.base = Path(tempfile.mkdtemp(prefix="mc-c12-")).resolve()
        for root, tree in [*TREES.items(), ("", OUTSIDE)]:
            for parts, data in tree.items():
                path = self.base.joinpath(root, *parts)
                path.parent.mkdir(parents=True, exist_ok=True)
                path.write_bytes(data)

    def listing(self):
        """Everything on disk."""
        return {
            str(x): x.read_bytes()
            for x in sorted(self.base.rglob("*"))
            if x.is_file()
        }

    def __enter__(self):
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.base)


def with_md(parts):
    """The markdown source of a path."""
    name = parts[-1]
    stem = name.rpartition(".")[0] if "." in name[1:] else name
    return (*parts[:-1], stem + ".md")


def expected(parts, order):
    """What a plain path resolves to: (kind, data)."""
    for root in order:
        tree = TREES[root]
        if parts:
            if with_md(parts) in tree:
                return "markdown", tree[with_md(parts)]
            if parts in tree:
                return "file", tree[parts]
    return None, None


PARTS = [
    "",
    ".",
    "..",
    "b.txt",
    "sub",
    "page",
    "page.html",
    "page.txt",
    "empty.txt",
    "data.bin",
    "arch.tar.gz",
    "bad",
    "noext",
    "only2.txt",
    "index.json",
    "deep.txt",
    "page2.txt",
    "json",
    "x.txt",
    "two.words.txt",
    "secret.txt",
    "secret",
    "root1",
    "root1.md",
    "root2",
    "root1x",
    "other",
    "n" * 300,
    "nul\x00.txt",
    "%2e%2e",
    "..%2f",
    "\\..",
    "...",
    ".hidden",
    "b.txt\u00e9",
    "~",
]
ODD = {"", ".", "..", "nul\x00.txt", "n" * 300, "...", ".hidden"}


def build(tier: str) -> Check:
    """Build the check."""
    import runtimepy
    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.channel.environment.command import (
        clear_env,
        register_env,
    )
    from runtimepy.channel.environment.command.processor import (
        ChannelCommandProcessor,
    )
    from runtimepy.net.server import RuntimepyServerConnection

    thorough = tier == "thorough"
    check = Check(
        "C12",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of path components (plain, empty, dots, names of "
            "files outside, oversized, absolute) up to the depth against the "
            "resolution in a reference tree; every path into the served data; "
            "every pair of request kinds pipelined on one connection"
        ),
        bounds={"path_depth": 4 if thorough else 3, "search_paths": 2},
    )

    def make(scratch, order, default=False):
        """A server class for a scratch directory."""

        async def app(document, request, response, request_data):
            document.body.text = "APPLICATION " + request.target.path
            return document

        async def other(document, request, response, request_data):
            document.body.text = "DEFAULT"
            return document

        class Server(RuntimepyServerConnection):
            """A server."""

            apps = {"/app.html": app, "/b.txt": app}
            default_app = other if default else None
            json_data = DATA
            class_paths = [scratch.base.joinpath(x) for x in order]
            class_redirect_paths: dict = {}

        Server.add_redirect_path("/new", "/old")
        Server.add_redirect_path("https://x/y?z", "from", "here")
        Server.add_redirect_path("/nope", "/redirected")
        return Server

    async def serve(loop, cls, requests, split=True):
        """Responses to requests."""
        raws = []

        def factory():
            raws.append(Raw())
            return raws[-1]

        server = loop.net.listen(factory, "127.0.0.1", 0)
        conn = await cls.create_connection(
            host="127.0.0.1", port=server.sockets[0].getsockname()[1]
        )
        task = loop.create_task(conn.process())
        await asyncio.sleep(0)
        raw = raws[0]
        if split:
            for request in requests:
                raw.transport.write(request)
                await asyncio.sleep(0.01)
        else:
            raw.transport.write(b"".join(requests))
        await asyncio.sleep(1.0)
        got = raw.messages()
        expect_eq(len(got), len(requests), "responses", requests)
        expect(not conn.disabled, "disabled", requests)
        conn.disable("done")
        await task
        for _, fields, _ in got:
            expect(fields.get("server"), "server field", fields)
        return got

    def get(path: str) -> bytes:
        return f"GET {path} HTTP/1.1\r\n\r\n".encode()

    def judge_file(kind, data, parts, response):
        """Check a response for a file."""
        status, fields, body = response
        expect_eq(status, 200, "status", parts)
        if kind == "file":
            expect_eq(body, data, "contents", parts)
            want = TYPES.get("." + parts[-1].rpartition(".")[2])
            if want:
                expect_eq(fields["content-type"], want, "type", parts)
            elif parts[-1] == "noext":
                expect_eq(
                    fields["content-type"],
                    "application/octet-stream",
                    "type",
                    parts,
                )
        elif data != TREES["root1"][("bad.md",)]:
            expect_eq(
                fields["content-type"], "text/html; charset=utf-8", "type"
            )
            expect(b"Title-" in data, "reference")
            expect(
                data.strip().strip(b"# ") in body and b"<html" in body,
                "rendered",
                parts,
                body[-200:],
            )

    def judge_missing(response, what):
        """Check the response to a missing file."""
        status, fields, body = response
        expect_eq(
            (status, fields.get("location"), body),
            (307, "/404.html", b""),
            "missing",
            what,
        )

    # Paths of files.
    favicon = Path(runtimepy.__file__).parent.joinpath(
        "data", "favicon.ico"
    ).read_bytes()
    scratch_dir = Scratch()
    CLEANUPS.append(lambda: shutil.rmtree(scratch_dir.base, True))

    def shared():
        """Files that no scenario modifies."""
        return scratch_dir

    def paths(depth):
        def scenario(chooser, stats):
            front = [chooser.pick(PARTS) for _ in range(depth - 1)]
            order = chooser.pick([("root1", "root2"), ("root2", "root1")])
            scratch = shared()
            cls = make(scratch, order)
            base = str(scratch.base)[1:]
            tails = [*PARTS, base + "/secret.txt", base + "/secret"]
            targets = [(*front, tail) for tail in tails]

            async def main(loop):
                requests = []
                for parts in targets:
                    requests.append(get("/" + "/".join(parts)))
                requests.append(get("/b.txt?query=/../x"))
                got = await serve(loop, cls, requests)
                for parts, response in zip(targets, got):
                    expect(
                        SECRET not in response[2],
                        "served a file outside of the search paths",
                        parts,
                    )
                    if any(x in ODD or "/" in x for x in parts):
                        continue
                    kind, data = expected(parts, order)
                    if kind:
                        judge_file(kind, data, parts, response)
                    elif "json" in parts:
                        expect_eq(response[0], 200, "status")
                        json.loads(response[2])
                    else:
                        judge_missing(response, parts)
                    stats.state(parts)
                judge_file(
                    "file", TREES[order[0]][("b.txt",)], ("b.txt",), got[-1]
                )
                stats.step(len(targets))
                stats.outcome((front, order))

            return run_loop(main, max_steps=200000)[1]

        return scenario

    for depth in range(1, 5 if thorough else 4):
        check.add(
            f"paths/{depth}",
            paths(depth),
            split=depth - 1,
            limit_s=400 if thorough else 120,
            replay_every=211,
        )

    # Served data.
    KEYS = [
        "test",
        "a",
        "none",
        "zero",
        "list",
        "e",
        "..",
        "call",
        "value",
        "json",
        "deep",
        "leaf",
        "top",
        "nope",
        "b",
        "0",
        "__raw__",
    ]

    def data(chooser, stats):
        prefix = chooser.pick(["/json", "/other/json", "/app.html/json"])
        front = [chooser.pick(KEYS) for _ in range(chooser.pick([0, 1, 2]))]
        targets = [front] if not front else []
        targets += [[*front, x] for x in KEYS]
        cls = make(shared(), ("root1", "root2"))

        async def main(loop):
            slash = chooser.pick(["/", "//"])
            got = await serve(
                loop,
                cls,
                [get(slash.join([prefix, *x])) for x in targets]
                + [get("/".join([prefix, *x]) + "?a/b") for x in targets],
            )
            for parts, response in zip([*targets, *targets], got):
                status, fields, body = response
                expect_eq(status, 200, "status", parts)
                expect_eq(
                    fields["content-type"],
                    "application/json; charset=utf-8",
                    "type",
                )
                value = json.loads(body)
                found, want = lookup(parts)
                if found:
                    if not isinstance(want, dict):
                        want = {"__raw__": want}
                    expect_eq(value, want, "data", parts)
                else:
                    expect(value.get("error"), "no error", parts, value)
                    expect_eq(value["path"]["part"], want, "part", parts)
                stats.state((prefix, parts))
            stats.step(len(targets))
            stats.outcome((prefix, front, slash))

        return run_loop(main, max_steps=50000)[1]

    check.add("data", data, split=2)

    # Kinds of requests, in sequence.
    KINDS = {
        "file": get("/sub/b.txt"),
        "json-file": get("/sub/index.json"),
        "binary": get("/data.bin"),
        "empty": get("/empty.txt"),
        "archive": get("/arch.tar.gz"),
        "markdown": get("/page.anything"),
        "missing": get("/missing.txt"),
        "data": get("/json/test/a"),
        "old": get("/old"),
        "old-query": get("/old?a=b"),
        "from": get("/from/here"),
        "file-over-redirect": get("/redirected"),
        "app": get("/app.html"),
        "app-query": get("/app.html?x=y"),
        "file-over-app": get("/b.txt"),
        "favicon": get("/favicon.ico"),
        "root": get("/"),
        "star": b"GET * HTTP/1.1\r\n\r\n",
        "absolute": b"GET http://h/sub/b.txt HTTP/1.1\r\n\r\n",
        "put": b"PUT /b.txt HTTP/1.1\r\ncontent-length: 2\r\n\r\nzz",
        "delete": b"DELETE /b.txt HTTP/1.1\r\n\r\n",
        "body": b"GET /sub/b.txt HTTP/1.1\r\ncontent-length: 2\r\n\r\nzz",
        "escape": get("/../secret.txt"),
        "post": b"POST /nobody/set HTTP/1.1\r\n\r\n",
    }

    def judge(kind, response, default, where):
        status, fields, body = response
        expect(SECRET not in body, "escaped", where)
        if kind in ("file", "body"):
            judge_file("file", b"b sub", ("sub", "b.txt"), response)
        elif kind == "json-file":
            judge_file("file", b"{}", ("sub", "index.json"), response)
        elif kind == "binary":
            judge_file("file", BINARY, ("data.bin",), response)
        elif kind == "empty":
            judge_file("file", b"", ("empty.txt",), response)
        elif kind == "archive":
            judge_file("file", b"\x1f\x8b\x00one", ("arch.tar.gz",), response)
        elif kind == "markdown":
            judge_file("markdown", b"# Title-one\n", ("page",), response)
        elif kind == "data":
            expect_eq(
                (status, json.loads(body)), (200, {"__raw__": 1}), "data"
            )
        elif kind in ("old", "old-query", "from"):
            expect_eq(
                (status, fields.get("location"), body),
                (307, "https://x/y?z" if kind == "from" else "/new", b""),
                "redirect",
                where,
            )
        elif kind == "file-over-redirect":
            expect_eq((status, body), (200, b"file wins"), "redirect")
        elif kind in ("app", "app-query"):
            expect_eq(status, 200, "status", where)
            expect_eq(
                fields["content-type"], "text/html; charset=utf-8", "type"
            )
            expect(b"APPLICATION /app.html" in body, "app", where)
        elif kind == "file-over-app":
            judge_file("file", b"b one\r\n\r\n", ("b.txt",), response)
        elif kind == "favicon":
            expect_eq(
                (status, fields["content-type"], body),
                (200, "image/x-icon", favicon),
                "favicon",
            )
        elif kind in ("root", "missing", "escape") and default:
            expect_eq(status, 200, "status", where)
            expect(b"DEFAULT" in body, "default app", where, body[-99:])
        elif kind in ("root", "missing", "star", "absolute", "escape"):
            judge_missing(response, where)
        elif kind in ("put", "delete"):
            expect_eq((status, body), (501, b""), "method", where)
        elif kind == "post":
            value = json.loads(body)
            expect_eq((status, value["success"]), (200, False), "command")
            expect_eq(value["your_command"], ["nobody", "set"], "command")
        if status != 307:
            expect("location" not in fields, "location leaked", where)

    def sequence(chooser, stats):
        default = chooser.pick([False, True])
        # Everything in one delivery or one after the other.
        split = chooser.pick([False, True])
        kinds = [
            chooser.pick(list(KINDS)) for _ in range(3 if thorough else 2)
        ]
        cls = make(shared(), ("root1", "root2"), default)

        async def main(loop):
            got = await serve(loop, cls, [KINDS[x] for x in kinds], split)
            for kind, response in zip(kinds, got):
                judge(kind, response, default, (kinds, kind))
            stats.step(len(kinds))
            stats.state((kinds, default))
            stats.outcome((kinds, default, split))

        return run_loop(main, max_steps=50000)[1]

    check.add("sequence", sequence, split=3, limit_s=300)

    # Commands that are posted have the effect that they have locally.
    POSTS = [
        ("set", "x", "5"),
        ("set", "x", "300"),
        ("set", "x"),
        ("set", "-f", "ro", "7"),
        ("set", "ro", "7"),
        ("set", "mode", "on"),
        ("toggle", "flag"),
        ("toggle", "x"),
        ("get", "x"),
        ("get", "mode"),
        ("set", "flag", "true", "more", "words"),
        ("custom", "hello", "1", "2", "3"),
        ("bad", "x"),
        ("set", "none", "1"),
        (),
    ]

    def processor(name):
        env = ChannelEnvironment()
        env.int_channel("x", "uint8", commandable=True)
        env.int_channel("ro", "uint8")
        env.bool_channel("flag", commandable=True)
        env.enum("mode", "int", items={"off": 0, "on": 1})
        env.int_channel("mode", enum="mode", commandable=True)
        env.finalize()
        proc = ChannelCommandProcessor(env, logging.getLogger(name))
        ran = []
        proc.hooks.append(lambda args, _: ran.append(list(args.extra)))
        return proc, ran

    def commands(chooser, stats):
        environments = ["one", "two.sub"]
        first = chooser.pick(environments + ["none", ""])
        todo = []
        for idx in range(3 if thorough else 2):
            target = chooser.pick(environments) if idx else first
            todo.append((target, chooser.pick(POSTS)))
        query = chooser.pick(["", "?a=/b"])
        body = chooser.pick([b"", b"set x 9"])
        cls = make(shared(), ("root1",))

        async def main(loop):
            clear_env()
            CLEANUPS.append(clear_env)
            real = {x: processor(x) for x in environments}
            want = {x: processor(x) for x in environments}
            for name, (proc, _) in real.items():
                register_env(name, proc)
            requests = [
                (
                    f"POST /{'/'.join((name, *parts))}{query} HTTP/1.1\r\n"
                    f"content-length: {len(body)}\r\n\r\n"
                ).encode()
                + body
                for name, parts in todo
            ]
            got = await serve(loop, cls, requests)
            for (name, parts), (status, _, data) in zip(todo, got):
                value = json.loads(data)
                expect_eq(status, 200, "status", parts)
                expect_eq(
                    value["your_command"],
                    [x for x in (name, *parts) if x],
                    "command",
                )
                if name in want:
                    result = want[name][0].command(" ".join(parts))
                    expect_eq(
                        (value["success"], value["message"]),
                        (result.success, str(result)),
                        "result",
                        parts,
                    )
                else:
                    expect_eq(value["success"], False, "result", name, parts)
                    expect_eq(
                        value["environments"], environments, "environments"
                    )
            for name, (proc, ran) in real.items():
                expect_eq(
                    (proc.env.values(), ran),
                    (want[name][0].env.values(), want[name][1]),
                    "effect",
                    todo,
                )
            stats.step(len(todo))
            stats.state(todo)
            stats.outcome([x[2] for x in got])

        return run_loop(main, max_steps=50000)[1]

    check.add("commands", commands, split=2, limit_s=200)

    # Nothing on disk changes, search paths can be added.
    def adding(chooser, stats):
        first = chooser.pick(["root1", "root2"])
        second = chooser.pick(["root1", "root2"])
        front = chooser.pick([False, True])
        relative = chooser.pick([False, True])

        with Scratch() as scratch:
            cls = make(scratch, (first,))
            before = scratch.listing()

            class Server(cls):  # type: ignore
                """Adds a search path."""

                def init(self) -> None:
                    super().init()
                    path = scratch.base.joinpath(second)
                    if relative:
                        path = scratch.base.joinpath("other", "..", second)
                    self.add_path(path, front=front)

            order = (second, first) if front else (first, second)

            async def main(loop):
                names = sorted(
                    {x for tree in TREES.values() for x in tree}
                    - {("redirected",), ("noext.md",), ("bad.md",)}
                )
                got = await serve(
                    loop,
                    Server,
                    [get("/" + "/".join(x)) for x in names]
                    + [KINDS["put"], KINDS["delete"], KINDS["escape"]],
                )
                for parts, response in zip(names, got):
                    kind, data = expected(parts, order)
                    if kind:
                        judge_file(kind, data, parts, response)
                    elif parts[0] != "json":
                        judge_missing(response, parts)
                expect(SECRET not in got[-1][2], "escaped")
                stats.step(len(names))
                stats.state((order, relative))
                stats.outcome((order, relative))

            run_loop(main, max_steps=50000)
            expect_eq(scratch.listing(), before, "files changed")

    check.add("adding", adding)
    return check
