"""C11: HTTP messages survive every chunking, responses match requests."""

import asyncio
import http
import itertools
import json
import logging

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop

from props.c09 import chunks_of

METHODS = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE"]
TARGETS = [
    ("/", ("/", None)),
    ("/a/b.html", ("/a/b.html", None)),
    ("/a?", ("/a", "")),
    ("/a?b=1", ("/a", "b=1")),
    ("/a?b=1?c=2", ("/a", "b=1?c=2")),
    ("/?x=/y?z", ("/", "x=/y?z")),
    ("/a:1/%20//..", ("/a:1/%20//..", None)),
]
VERSIONS = [(1, 1), (1, 0), (2, 0), (0, 9), (10, 12)]
VALUES = ["", "1", "a b", "a: b:c", "text/html; charset=utf-8", "\u00e9\u20ac\U0001f600"]
BODIES = [b"", b"x", b"\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n", b"\x00\xff\n"]


def text(first: str, fields) -> bytes:
    """A reference encoding of a header."""
    lines = [first] + [f"{key}: {value}" for key, value in fields]
    return ("\r\n".join(lines) + "\r\n\r\n").encode()


def some_chunkings(data: bytes, cuts: int):
    """Few cuts everywhere, bytewise, and bytewise for either half."""
    size = len(data)
    for count in range(cuts + 1):
        for where in itertools.combinations(range(1, size), count):
            yield chunks_of(data, where)
    yield [data[i : i + 1] for i in range(size)]
    yield [x for i in range(size) for x in (b"", data[i : i + 1])]
    for step in (2, 3, 5, 7):
        yield [data[i : i + step] for i in range(0, size, step)]


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.net.http import HttpMessageProcessor
    from runtimepy.net.http.header import RequestHeader
    from runtimepy.net.http.request_target import RequestTarget
    from runtimepy.net.http.response import ResponseHeader
    from runtimepy.net.tcp.http import HttpConnection, to_json

    thorough = tier == "thorough"
    check = Check(
        "C11",
        tier,
        kind="model_checking",
        rule=(
            "every request and response of a grid of methods, targets, "
            "versions, statuses, fields and bodies; every sequence of up to "
            "three messages under every division into up to three pieces, "
            "bytewise and with consumers that stop early; every combination "
            "of request times, cancellations, response times and handler "
            "delays on connected endpoints"
        ),
        bounds={"messages": 3, "cuts": 2, "concurrent_requests": 3},
    )

    # Header round trip.
    def req_header(chooser, stats):
        method = chooser.pick(METHODS)
        target, origin = chooser.pick(TARGETS)
        major, minor = chooser.pick(VERSIONS)
        fields = []
        for key in ("X-One", "content-type"):
            value = chooser.pick([None, *VALUES])
            if value is not None:
                fields.append((key, value))
        header = RequestHeader(
            method if chooser.choose(2) else http.HTTPMethod[method],
            target,
            major=major,
            minor=minor,
        )
        for key, value in fields:
            header[key] = value
        raw = bytes(header)
        expect_eq(
            raw,
            text(
                f"{method} {target} HTTP/{major}.{minor}",
                [(x.lower(), y) for x, y in fields],
            ),
            "encoded",
        )
        items = list(HttpMessageProcessor().ingest(raw, RequestHeader))
        expect_eq(len(items), 1, "messages")
        parsed, payload = items[0]
        expect_eq(payload, None, "payload")
        for item in (header, parsed):
            expect_eq(item.method, http.HTTPMethod[method], "method")
            expect_eq(item.target.raw, target, "target")
            expect_eq(item.target.origin_form, origin, "origin form")
            expect_eq(item.target.path, origin[0], "path")
            expect_eq(
                (item.target.authority_form, item.target.absolute_form),
                (None, None),
                "other forms",
            )
            expect(not item.target.asterisk_form, "asterisk form")
            expect_eq(
                (item.version.major, item.version.minor),
                (major, minor),
                "version",
            )
            for key, value in fields:
                for alias in (key, key.upper(), key.lower()):
                    expect_eq(item[alias], value, "field", key)
                    expect_eq(item.get(alias), value, "field", key)
            expect_eq(item.get("missing"), None, "field")
            expect_eq(item.get("missing", "d"), "d", "field")
            expect_eq(item.content_length, 0, "content length")
        expect_eq(str(parsed), str(header), "re-encoded")
        stats.step()
        stats.outcome(raw)

    check.add("header/request", req_header, split=2)

    def targets(chooser, stats):
        method = http.HTTPMethod[chooser.pick([*METHODS, "CONNECT"])]
        raw = chooser.pick(
            ["*", "http://a.b/c?d=1?e", "a.b:80", "/x", "/x?y", "x"]
        )
        connect = method is http.HTTPMethod.CONNECT
        if connect:
            raw = "a.b:80" if raw != "*" else raw
        item = RequestTarget(method, raw)
        forms = [
            item.asterisk_form,
            item.authority_form,
            item.origin_form,
            item.absolute_form,
        ]
        want = [raw == "*", None, None, None]
        if raw != "*":
            if connect:
                want[1] = ("a.b", 80)
            elif raw.startswith("/"):
                want[2] = ("/x", "y" if "?" in raw else None)
            else:
                want[3] = raw
        expect_eq(forms, want, "forms", raw)
        stats.step()
        stats.outcome((method, raw))

    check.add("header/target", targets)

    def resp_header(chooser, stats):
        status = chooser.pick(list(http.HTTPStatus))
        reason = chooser.pick(["", "OK", "Not Found", "a: b  c", "\u00e9"])
        major, minor = chooser.pick(VERSIONS)
        value = chooser.pick([None, *VALUES])
        kind = chooser.pick(["", "application/json"])
        kwargs = {"content_type": kind} if kind else {}
        header = ResponseHeader(
            major=major, minor=minor, status=status, reason=reason, **kwargs
        )
        fields = [("content-type", kind or "application/octet-stream")]
        if value is not None:
            header["X-One"] = value
            fields.append(("x-one", value))
        raw = bytes(header)
        first = f"HTTP/{major}.{minor} {status.value}"
        if reason:
            first += " " + reason
        expect_eq(raw, text(first, fields), "encoded")
        items = list(HttpMessageProcessor().ingest(raw, ResponseHeader))
        expect_eq(len(items), 1, "messages")
        parsed, payload = items[0]
        expect_eq(payload, None, "payload")
        expect_eq(parsed.status, status, "status")
        expect_eq(parsed.reason, reason, "reason")
        expect_eq(
            (parsed.version.major, parsed.version.minor),
            (major, minor),
            "version",
        )
        expect_eq(parsed.headers, dict(fields), "fields")
        expect_eq(str(parsed), str(header), "re-encoded")

        # Logging a header works, whatever is logged.
        records = []

        class Keep(logging.Handler):
            """Formats records."""

            def emit(self, record):
                records.append(record.getMessage())

        logger = logging.Logger("c11", level=1)
        logger.addHandler(Keep())
        logger.propagate = False
        parsed.log(logger, False)
        header.log(logger, True)
        expect_eq(len(records), 2, "records")
        for item in records:
            expect(str(status.value) in item, "record", item)
        stats.step()
        stats.outcome(raw)

    check.add("header/response", resp_header, split=1)

    # Reference messages.
    def message(kind, idx: int, body: bytes, rich: bool):
        """A message: (bytes, expected)."""
        if kind is RequestHeader:
            first = f"{'POST' if body else 'GET'} /m{idx}?q={idx} HTTP/1.1"
        else:
            first = f"HTTP/1.1 {[200, 404, 307][idx % 3]} r {idx}"
        fields = [("Content-Length", str(len(body)))] if body or idx % 2 else []
        if rich:
            fields.append(("X-V", "\u00e9\u20ac:"))
        return (
            text(first, fields) + body,
            (
                first,
                {key.lower(): value for key, value in fields},
                body or None,
            ),
        )

    def summary(kind, item):
        header, payload = item
        expect(isinstance(header, kind), "kind of header", header)
        first = (
            header.request_line
            if kind is RequestHeader
            else header.status_line
        )
        if payload is not None:
            payload = bytes(payload)
        return first, dict(header.headers), payload

    def parse(kind):
        def run(chooser, stats):
            count = chooser.choose(3) + 1
            bodies = [chooser.pick(BODIES) for _ in range(count)]
            rich = chooser.pick([False, True])
            if count == 3 and not thorough and len({*bodies}) < 2:
                cuts = 1
            else:
                cuts = 1 if count == 3 and not thorough else 2
            raws, want = zip(
                *[message(kind, i, b, rich) for i, b in enumerate(bodies)]
            )
            data = b"".join(raws)
            ends = [sum(map(len, raws[: i + 1])) for i in range(count)]
            if count > 1 and not thorough:
                cuts = 1
            for parts in some_chunkings(data, cuts):
                proc = HttpMessageProcessor()
                got = []
                size = 0
                for part in parts:
                    size += len(part)
                    for item in proc.ingest(part, kind):
                        got.append(summary(kind, item))
                    # Delivered as soon as it's complete.
                    expect_eq(
                        len(got),
                        len([x for x in ends if x <= size]),
                        "messages so far",
                        parts,
                    )
                expect_eq(got, list(want), "messages", parts)
                stats.step(len(parts))
            stats.state((kind.__name__, data))
            stats.outcome((kind.__name__, data))

        return run

    check.add("parse/requests", parse(RequestHeader), split=2, limit_s=120)
    check.add("parse/responses", parse(ResponseHeader), split=2, limit_s=120)

    # Single short message: every division within a window.
    def window(chooser, stats):
        kind = chooser.pick([RequestHeader, ResponseHeader])
        body = chooser.pick([b"", b"ab", b"\r\n"])
        raw, want = message(kind, 1, body, True)
        size = 13 if thorough else 10
        start = chooser.choose(len(raw) - size)
        for mask in range(1 << size):
            parts = chunks_of(
                raw, [start + i + 1 for i in range(size - 1) if mask >> i & 1]
            )
            proc = HttpMessageProcessor()
            got = [
                summary(kind, item)
                for part in parts
                for item in proc.ingest(part, kind)
            ]
            expect_eq(got, [want], "messages", parts)
        stats.step(1 << size)
        stats.outcome((kind.__name__, body, start))

    check.add("parse/window", window, split=3, limit_s=120, replay_every=0)

    # Consumers that stop early (or fail) don't see messages again, later
    # messages are complete.
    def early(chooser, stats):
        kind = chooser.pick([RequestHeader, ResponseHeader])
        bodies = [chooser.pick(BODIES[:4]) for _ in range(3)]
        raws, want = zip(
            *[message(kind, i, b, False) for i, b in enumerate(bodies)]
        )
        data = b"".join(raws)
        stop = chooser.choose(3)
        cut = chooser.pick(
            sorted(
                {len(data)}
                | {
                    sum(map(len, raws[:i])) + off
                    for i in range(4)
                    for off in (-1, 0, 1, 5)
                    if 0 < sum(map(len, raws[:i])) + off < len(data)
                }
            )
        )
        drop = chooser.pick([False, True])
        proc = HttpMessageProcessor()
        got = []
        for part in (data[:cut], data[cut:], b"", b"", b""):
            gen = proc.ingest(part, kind)
            for item in gen:
                got.append(summary(kind, item))
                if len(got) == stop + 1 and drop:
                    drop = False
                    gen.close()
                    break
        # What's buffered is delivered with subsequent data.
        for item in proc.ingest(raws[0], kind):
            got.append(summary(kind, item))
        expect_eq(got, [*want, want[0]], "messages", cut, stop)
        stats.step(5)
        stats.outcome((kind.__name__, data, stop, cut))

    check.add("parse/early-stop", early, split=2)

    # Server side: pipelined requests, any deliveries, any handler delays.
    class Raw(asyncio.Protocol):
        """A scripted peer."""

        def __init__(self) -> None:
            self.buffer = b""
            self.transport = None

        def connection_made(self, transport) -> None:
            self.transport = transport

        def data_received(self, data) -> None:
            self.buffer += bytes(data)

        def connection_lost(self, exc) -> None:
            pass

        def messages(self):
            """(first line, fields, body) of everything received."""
            out = []
            data = self.buffer
            while data:
                head, sep, data = data.partition(b"\r\n\r\n")
                expect(sep, "truncated header", head)
                lines = head.decode().split("\r\n")
                fields = dict(
                    (x.split(": ", 1)[0].lower(), x.split(": ", 1)[1])
                    for x in lines[1:]
                )
                size = int(fields.get("content-length", "0"))
                expect(len(data) >= size, "truncated body", lines)
                out.append((lines[0], fields, data[:size]))
                data = data[size:]
            return out

    async def scripted(loop, cls):
        """A connection and its scripted peer."""
        raws = []

        def factory():
            raws.append(Raw())
            return raws[-1]

        server = loop.net.listen(factory, "127.0.0.1", 0)
        conn = await cls.create_connection(
            host="127.0.0.1", port=server.sockets[0].getsockname()[1]
        )
        return conn, raws[0]

    REQS = {
        "get": (b"GET /g%d HTTP/1.1\r\n\r\n", "200", b"g:/g%d:"),
        "post": (
            b"POST /p%d HTTP/1.1\r\ncontent-length: 3\r\n\r\nb\r\n",
            "200",
            b"p:/p%d:b\r\n",
        ),
        "empty": (b"GET /none%d HTTP/1.1\r\nA: b\r\n\r\n", "200", b""),
        "missing": (b"GET /404/%d HTTP/1.1\r\n\r\n", "404", b""),
        "put": (
            b"PUT /x%d HTTP/1.1\r\ncontent-length: 1\r\n\r\nz",
            "501",
            b"",
        ),
    }

    def server(chooser, stats):
        count = 3 if thorough else 2
        plan = [chooser.pick(list(REQS)) for _ in range(count)]
        delays = [chooser.pick([0.0, 1.0]) for _ in range(count)]
        data = b"".join(
            REQS[x][0] % i for i, x in enumerate(plan)
        )
        cut = chooser.pick(
            [0, *range(3, len(data), 7 if not thorough else 11), len(data) - 1]
        )
        gap = chooser.pick([0.0, 0.5, 1.5])

        async def main(loop):
            seen = []

            class Server(HttpConnection):
                """Handles requests."""

                async def handle(self, tag, response, request, data):
                    idx = len(seen)
                    path = request.target.path
                    seen.append(path)
                    await asyncio.sleep(delays[idx])
                    if path.startswith("/none"):
                        return None
                    if path.startswith("/404"):
                        response.status = http.HTTPStatus.NOT_FOUND
                        response.reason = "nope"
                        return None
                    response["x-path"] = path
                    return tag + b":" + path.encode() + b":" + bytes(data or b"")

                async def get_handler(self, response, request, request_data):
                    return await self.handle(
                        b"g", response, request, request_data
                    )

                async def post_handler(self, response, request, request_data):
                    return await self.handle(
                        b"p", response, request, request_data
                    )

            conn, raw = await scripted(loop, Server)
            task = loop.create_task(conn.process())
            await asyncio.sleep(0)
            if cut:
                raw.transport.write(data[:cut])
                await asyncio.sleep(gap)
            raw.transport.write(data[cut:])
            await asyncio.sleep(10.0)
            got = raw.messages()
            expect_eq(len(got), count, "responses", plan)
            for idx, kind in enumerate(plan):
                first, fields, body = got[idx]
                _, status, want = REQS[kind]
                expect_eq(first.split(" ")[0], "HTTP/1.1", "version")
                expect_eq(first.split(" ")[1], status, "status", kind)
                if want:
                    want = want % idx
                    expect_eq(fields["x-path"], want.split(b":")[1].decode(), "x")
                else:
                    expect("x-path" not in fields, "fields leaked", fields)
                expect_eq(body, want, "body", kind)
                expect_eq(fields["content-length"], str(len(want)), "length")
                expect(fields.get("server"), "server")
            expect(not conn.disabled, "disabled")
            conn.disable("done")
            await task
            stats.step(count)
            stats.outcome((plan, delays, cut, gap))
            return got

        return run_loop(main)[1]

    check.add("server", server, split=4)

    # Client side: every request gets its own response, whatever else was
    # abandoned, in the order of the requests.
    def client(chooser, stats):
        count = 3
        starts = [0.0] + [chooser.pick([0.0, 1.0]) for _ in range(count - 1)]
        cancels = [
            chooser.pick([None, 0.0, 0.5, 2.5]) for _ in range(count - 1)
        ] + [None]
        delays = [chooser.pick([0.25, 2.0]) for _ in range(count)]
        split = chooser.pick([False, True])

        async def main(loop):
            conn, raw = await scripted(loop, HttpConnection)
            task = loop.create_task(conn.process())
            await asyncio.sleep(0)
            answered = []

            def answer(data):
                half = len(data) // 2
                if split:
                    raw.transport.write(data[:half])
                    loop.call_later(0.125, raw.transport.write, data[half:])
                else:
                    raw.transport.write(data)

            async def respond():
                """Answer every request, in order."""
                while len(answered) < 10:
                    known = raw.messages()
                    if len(known) == len(answered):
                        await asyncio.sleep(0.0625)
                        continue
                    first, fields, body = known[len(answered)]
                    idx = int(first.split(" ")[1][2:])
                    expect_eq(first, f"POST /r{idx} HTTP/1.1", "request line")
                    expect_eq(body, b"q%d" % idx, "request body")
                    expect_eq(fields["x-idx"], str(idx), "request field")
                    expect(fields.get("user-agent"), "user agent")
                    answered.append(idx)
                    await asyncio.sleep(delays[idx % count])
                    reply = b'{"r": %d}' % idx
                    answer(
                        b"HTTP/1.1 200 OK\r\nContent-Type: application/json"
                        b"\r\nContent-Length: %d\r\n\r\n" % len(reply) + reply
                    )
                    await asyncio.sleep(0.25)

            peer = loop.create_task(respond())
            results = {}

            async def ask(idx, start):
                await asyncio.sleep(start)
                header = RequestHeader("POST", f"/r{idx}")
                header["x-idx"] = str(idx)
                if idx % 2:
                    results[idx] = await conn.request_json(
                        header, b"q%d" % idx
                    )
                else:
                    resp = await conn.request(header, b"q%d" % idx)
                    expect_eq(resp[0].status, 200, "status")
                    results[idx] = to_json(resp)

            asks = []
            for idx in range(count):
                asks.append(loop.create_task(ask(idx, starts[idx])))
                if cancels[idx] is not None:
                    loop.call_later(cancels[idx], asks[idx].cancel)
            await asyncio.sleep(20.0)
            # Requests that follow aren't affected by anything, either.
            asks.append(loop.create_task(ask(count, 0.0)))
            await asyncio.sleep(20.0)
            for idx, item in enumerate(asks):
                expect(item.done(), "request never completed", idx)
                if item.cancelled():
                    expect(idx < len(cancels) and cancels[idx] is not None, "x")
                else:
                    item.result()
                    expect_eq(results[idx], {"r": idx}, "response", idx)
            if peer.done():
                peer.result()
            peer.cancel()
            expect(not conn.disabled, "disabled")
            conn.disable("done")
            await task
            stats.step(len(answered))
            stats.outcome((starts, cancels, delays, split, answered))
            return sorted(results)

        return run_loop(main)[1]

    check.add("client", client, split=4)

    # Two real endpoints.
    def endpoints(chooser, stats):
        count = 3
        starts = [chooser.pick([0.0, 0.5]) for _ in range(count)]
        delays = [chooser.pick([0.0, 0.75]) for _ in range(count)]
        sizes = [chooser.pick([0, 1, 5000]) for _ in range(2)]
        manual = chooser.pick([0, 7, 1000])

        async def main(loop):
            class Server(HttpConnection):
                """Handles requests."""

                async def post_handler(self, response, request, request_data):
                    idx = int(request["x-idx"])
                    await asyncio.sleep(delays[idx])
                    response["x-idx"] = str(idx)
                    return bytes(request_data or b"") * 2

                async def get_handler(self, response, request, request_data):
                    return await self.post_handler(
                        response, request, request_data
                    )

            async with Server.create_pair() as pair:
                tasks = [loop.create_task(x.process()) for x in pair]
                if manual:
                    for trans in loop.net.tcp[0]:
                        feed = trans.feed

                        def slow(data, feed=feed):
                            data = bytes(data)
                            for i in range(0, len(data), manual):
                                feed(data[i : i + manual])

                        trans.feed = slow

                async def ask(idx):
                    await asyncio.sleep(starts[idx])
                    header = RequestHeader(["GET", "POST"][idx % 2], f"/{idx}")
                    header["x-idx"] = str(idx)
                    data = b"%d" % idx * sizes[idx % 2]
                    resp, body = await pair[0].request(header, data or None)
                    expect_eq(resp["x-idx"], str(idx), "response of")
                    expect_eq(bytes(body or b""), data * 2, "body")

                await asyncio.wait_for(
                    asyncio.gather(*map(ask, range(count))), 30.0
                )
                for conn in pair:
                    expect(not conn.disabled, "disabled")
                    conn.disable("done")
                await asyncio.gather(*tasks)
                stats.step(count)
                stats.outcome((starts, delays, sizes, manual))
                return json.dumps([starts, sizes])

        return run_loop(main)[1]

    check.add("endpoints", endpoints, split=4, replay_every=211)
    return check
