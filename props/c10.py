"""C10: JSON messaging: every request gets its own response, once."""

import asyncio
import json
import random

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop


def frame(data) -> bytes:
    """Encode a message."""
    raw = data if isinstance(data, bytes) else json.dumps(data).encode()
    return len(raw).to_bytes(4, "big") + raw


class Raw(asyncio.Protocol):
    """A scripted peer."""

    def __init__(self) -> None:
        self.buffer = b""
        self.inbox = []
        self.transport = None

    def connection_made(self, transport) -> None:
        self.transport = transport

    def data_received(self, data) -> None:
        self.buffer += bytes(data)
        while len(self.buffer) >= 4:
            size = int.from_bytes(self.buffer[:4], "big")
            if len(self.buffer) < 4 + size:
                break
            self.inbox.append(json.loads(self.buffer[4 : 4 + size]))
            self.buffer = self.buffer[4 + size :]

    def connection_lost(self, exc) -> None:
        pass

    def send(self, *messages) -> None:
        """Send messages in one piece."""
        self.transport.write(b"".join(frame(x) for x in messages))


def leftovers(conn) -> list[str]:
    """Book-keeping that was left behind (if it's where we know it)."""
    return [
        name
        for name in ("ids_waiting", "id_responses")
        if getattr(conn, name, None)
    ]


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.net.arbiter.tcp.json import TcpJsonMessageConnection as TcpJson

    thorough = tier == "thorough"
    check = Check(
        "C10",
        tier,
        kind="model_checking",
        rule=(
            "every combination of response times (in time, late, never, "
            "duplicated), orders and groupings for concurrent requests of "
            "one endpoint and a scripted peer; every combination of request "
            "times, handler delays and latencies for two real endpoints; "
            "every kind of incoming message"
        ),
        bounds={"concurrent_requests": 2, "endpoints": 2},
    )

    class Quiet(TcpJson):
        """No handshake."""

        async def async_init(self) -> bool:
            return True

    async def scripted(loop, cls=Quiet, **kwargs):
        """A connection and its scripted peer."""
        random.seed(0)
        raws = []

        def factory():
            raws.append(Raw())
            return raws[-1]

        server = loop.net.listen(factory, "127.0.0.1", 0)
        conn = await cls.create_connection(
            host="127.0.0.1", port=server.sockets[0].getsockname()[1], **kwargs
        )
        return conn, raws[0]

    # Response timing and order.
    def responses(chooser, stats):
        limits = [chooser.pick([2.0, 4.0]) for _ in range(2)]
        second_at = chooser.pick([0.0, 0.5])
        # Times at which responses are sent to either request.
        plans = [
            chooser.pick(
                [[], [1.0], [3.0], [1.0, 1.0], [1.0, 3.0], [6.0], [2.0]]
            )
            for _ in range(2)
        ]
        swap = chooser.pick([False, True])
        joined = chooser.pick([False, True])

        async def main(loop):
            conn, raw = await scripted(loop)
            task = loop.create_task(conn.process())
            await asyncio.sleep(0)
            results = {}

            async def ask(idx, limit, delay):
                await asyncio.sleep(delay)
                start = loop.time()
                try:
                    res = await conn.wait_json({"ask": idx}, timeout=limit)
                except AssertionError:
                    res = None
                results[idx] = res, start, loop.time()

            asks = [
                loop.create_task(ask(0, limits[0], 0.0)),
                loop.create_task(ask(1, limits[1], second_at)),
            ]
            await asyncio.sleep(0.75)
            ids = {x["ask"]: x["__id__"] for x in raw.inbox}
            expect_eq(sorted(ids), [0, 1], "requests sent")
            expect(ids[0] != ids[1], "identifiers reused")

            events = []
            for idx, plan in enumerate(plans):
                for num, when in enumerate(plan):
                    events.append((when, idx, num))
            events.sort(
                key=lambda x: (x[0], -x[1] if swap else x[1], x[2])
            )
            # A request after all others.
            late = None
            for when in sorted({x[0] for x in events} | {5.0, 7.0}):
                await asyncio.sleep(when - loop.time())
                now = [
                    {"__id__": ids[idx], "answer": [idx, num]}
                    for at, idx, num in events
                    if at == when
                ]
                if joined and now:
                    raw.send(*now)
                else:
                    for item in now:
                        raw.send(item)
                if when == 5.0:
                    late = loop.create_task(ask(2, 3.0, 0.0))
                    await asyncio.sleep(0)
                if when == 7.0:
                    ident = [x for x in raw.inbox if x.get("ask") == 2][0]
                    raw.send({"__id__": ident["__id__"], "answer": [2, 0]})
            await asyncio.gather(*asks, late)

            for idx in (0, 1):
                res, start, end = results[idx]
                due = start + limits[idx]
                before = [x for x in plans[idx] if x < due]
                if before:
                    expect_eq(res, {"answer": [idx, 0]}, "response", idx)
                    expect_eq(end, before[0], "response time", idx)
                elif due in plans[idx]:
                    # Same instant: either is fine.
                    expect(
                        res in (None, {"answer": [idx, 0]}), "response", res
                    )
                else:
                    expect_eq(res, None, "response", idx)
                    expect_eq(end, due, "timeout", idx)
            expect_eq(results[2][0], {"answer": [2, 0]}, "late request")
            expect(not conn.disabled, "connection disabled")
            expect_eq(leftovers(conn), [], "left behind")
            stats.step(len(events) + 3)
            stats.outcome((limits, second_at, plans, swap))
            conn.disable("done")
            await task
            return results

        return run_loop(main)[1]

    check.add("responses", responses, split=3)

    # A request that's abandoned (cancelled).
    def cancelled(chooser, stats):
        when = chooser.pick([0.0, 0.5, 1.0, 1.5])
        reply = chooser.pick([None, 1.0, 2.0])

        async def main(loop):
            conn, raw = await scripted(loop)
            task = loop.create_task(conn.process())
            await asyncio.sleep(0)
            waiter = loop.create_task(conn.wait_json({"a": 1}, timeout=4.0))
            loop.call_later(when, waiter.cancel)
            await asyncio.sleep(0)
            ident = raw.inbox[0]["__id__"] if raw.inbox else None
            if ident is None:
                await asyncio.sleep(0)
                ident = raw.inbox[0]["__id__"]
            if reply is not None:
                loop.call_later(
                    reply, raw.send, {"__id__": ident, "answer": 1}
                )
            await asyncio.sleep(3.0)
            second = loop.create_task(conn.wait_json({"b": 2}, timeout=4.0))
            await asyncio.sleep(1.0)
            raw.send({"__id__": raw.inbox[-1]["__id__"], "answer": 2})
            expect_eq(await second, {"answer": 2}, "second")
            expect_eq(leftovers(conn), [], "left behind")
            expect(not conn.disabled, "connection disabled")
            conn.disable("done")
            await task
            stats.step(3)
            stats.outcome((when, reply))

        return run_loop(main)[1]

    check.add("cancelled", cancelled)

    # Two endpoints asking each other.
    def mutual(handshake: bool):
        def run(chooser, stats):
            base = TcpJson if handshake else Quiet
            starts = [
                [chooser.pick([0.0, 1.0]) for _ in range(2)] for _ in range(2)
            ]
            delays = [chooser.pick([0.0, 0.75]) for _ in range(2)]
            latency = [chooser.pick([0.0, 0.4]) for _ in range(2)]

            async def main(loop):
                random.seed(0)
                calls = []

                class Peer(base):
                    """Answers slowly."""

                    side = 0

                    def _register_handlers(self):
                        super()._register_handlers()

                        async def answer(outbox, inbox):
                            calls.append((self.side, inbox["n"]))
                            await asyncio.sleep(delays[self.side])
                            outbox["from"] = self.side
                            outbox["n"] = inbox["n"]

                        self.basic_handler("answer", answer)

                async with Peer.create_pair() as pair:
                    for side, conn in enumerate(pair):
                        conn.side = side
                    trans = loop.net.tcp[0]

                    for one in trans:
                        # Per-direction latency (order is kept).
                        side = 0 if one.protocol is pair[0]._protocol else 1
                        feed = one.feed

                        def slow(data, feed=feed, wait=latency[side]):
                            if wait:
                                loop.call_later(wait, feed, data)
                            else:
                                feed(data)

                        one.feed = slow
                    tasks = [loop.create_task(x.process()) for x in pair]
                    for conn in pair:
                        await conn.initialized.wait()
                        expect(not conn.disabled, "handshake failed")
                    zero = loop.time()
                    results = {}

                    async def ask(side, num):
                        await asyncio.sleep(starts[side][num])
                        key = 10 * side + num
                        results[(side, num)] = await pair[side].wait_json(
                            {"answer": {"n": key}}, timeout=30.0
                        )

                    await asyncio.gather(
                        *[ask(s, n) for s in range(2) for n in range(2)]
                    )
                    for (side, num), res in results.items():
                        expect_eq(
                            res,
                            {
                                "answer": {
                                    "from": 1 - side,
                                    "n": 10 * side + num,
                                }
                            },
                            "response",
                            (side, num),
                        )
                    expect_eq(
                        # (Handlers see responses to their key, too.)
                        sorted(x for x in calls if x[1] // 10 != x[0]),
                        [(0, 10), (0, 11), (1, 0), (1, 1)],
                        "handler calls",
                    )
                    await asyncio.sleep(5.0)
                    for conn in pair:
                        expect_eq(leftovers(conn), [], "left behind")
                        expect(not conn.disabled, "disabled")
                    if handshake:
                        for conn in pair:
                            expect(conn.remote_meta, "metadata missing")
                    for conn in pair:
                        conn.disable("done")
                    await asyncio.gather(*tasks)
                    stats.step(8)
                    stats.outcome((starts, delays, latency, loop.time()))
                    return loop.time() - zero

            result = run_loop(main)[1]
            stats.state((starts, delays, latency))
            return result

        return run

    check.add("mutual", mutual(False), split=3, replay_every=211)
    check.add("mutual/handshake", mutual(True), split=3, replay_every=211)

    # Incoming messages of every kind: each request is answered exactly once
    # with its identifier, a response is never answered, nothing that arrives
    # affects other messages.
    kinds = [
        "request",
        "anonymous",
        "unknown",
        "empty-id",
        "multiple",
        "stray",
        "garbage",
        "binary",
        "list",
        "no-dict",
        "no-dict-id",
        "poll",
        "command",
        "logs",
    ]

    def incoming(chooser, stats):
        plan = [chooser.pick(kinds) for _ in range(2)]
        joined = chooser.pick([False, True])

        async def main(loop):
            conn, raw = await scripted(loop)
            calls = []

            async def handler(outbox, inbox):
                calls.append(dict(inbox))
                outbox["got"] = inbox.get("v")

            conn.basic_handler("h", handler)
            task = loop.create_task(conn.process())
            await asyncio.sleep(0)
            out, want, want_calls = [], [], []
            for num, kind in enumerate(plan):
                ident = 1000 + num
                if kind == "request":
                    out.append({"h": {"v": num}, "__id__": ident})
                    want.append({"__id__": ident, "h": {"got": num}})
                    want_calls.append({"v": num})
                elif kind == "anonymous":
                    out.append({"h": {"v": num}})
                    want.append({"h": {"got": num}})
                    want_calls.append({"v": num})
                elif kind == "unknown":
                    out.append({"z": 1, "y": {}, "__id__": ident})
                    want.append({"__id__": ident, "keys_ignored": ["y", "z"]})
                elif kind == "empty-id":
                    out.append({"__id__": ident})
                    want.append({"__id__": ident})
                elif kind == "multiple":
                    out.append(
                        {
                            "h": {"v": num},
                            "loopback": {"x": [num]},
                            "w": 1,
                            "__id__": ident,
                        }
                    )
                    want.append(
                        {
                            "__id__": ident,
                            "h": {"got": num},
                            "loopback": {"x": [num]},
                            "keys_ignored": ["w"],
                        }
                    )
                    want_calls.append({"v": num})
                elif kind == "stray":
                    # Not something that was asked for.
                    out.append({"keys_ignored": ["a"]})
                elif kind == "garbage":
                    out.append(b'{"a": ')
                elif kind == "binary":
                    out.append(b"\xff\xfe{}")
                elif kind == "list":
                    out.append([1, 2])
                elif kind == "no-dict":
                    out.append({"h": 5})
                    want.append({"keys_ignored": ["h"]})
                elif kind == "no-dict-id":
                    out.append({"loopback": [1], "__id__": ident})
                    want.append(
                        {"keys_ignored": ["loopback"], "__id__": ident}
                    )
                elif kind == "poll":
                    out.append({"poll": {"loopback": 2}, "__id__": ident})
                    want.append({"poll": {"loopback": 1}, "__id__": ident})
                elif kind == "command":
                    out.append(
                        {
                            "channel_command": {
                                "environment": "default",
                                "command": "get auto_restart",
                                "is_request": True,
                            },
                            "__id__": ident,
                        }
                    )
                    want.append(
                        {
                            "channel_command": {
                                "is_request": False,
                                "success": True,
                                "reason": "False",
                            },
                            "__id__": ident,
                        }
                    )
                else:
                    out.append(
                        {
                            "__log_messages__": [
                                {"msg": "a %s", "args": [1], "level": 20},
                                {"msg": ""},
                            ],
                            "h": {"v": num},
                        }
                    )
                    want.append({"h": {"got": num}})
                    want_calls.append({"v": num})
            if joined:
                raw.send(*out)
            else:
                for item in out:
                    raw.send(item)
                    await asyncio.sleep(0.1)
            await asyncio.sleep(1.0)
            raw.send({"h": {"v": 99}, "__id__": 7777})
            await asyncio.sleep(1.0)
            want.append({"__id__": 7777, "h": {"got": 99}})
            want_calls.append({"v": 99})
            got = []
            for item in raw.inbox:
                item.pop("__log_messages__", None)
                if "channel_command" in item:
                    item["channel_command"]["reason"] = "False"
                got.append(item)
            expect_eq(calls, want_calls, "handler calls", plan)
            expect_eq(got, want, "responses", plan)
            expect(not conn.disabled, "disabled", plan)
            conn.disable("done")
            await task
            stats.step(len(plan) + 1)
            stats.outcome((plan, json.dumps(got)))
            return got

        return run_loop(main)[1]

    check.add("incoming", incoming, split=1)

    # Messages may be sent repeatedly, with log records staged in between;
    # every staged record reaches the peer exactly once.
    def staged(chooser, stats):
        plan = [
            chooser.pick(["stage", "send-same", "send", "wait"])
            for _ in range(5 if thorough else 4)
        ]

        async def main(loop):
            conn, raw = await scripted(loop)
            task = loop.create_task(conn.process())
            await asyncio.sleep(0)
            same = {"note": 1}
            count = 0
            logged = []
            sent = 0
            for step in [*plan, "send"]:
                if step == "stage":
                    conn.stage_remote_log("record %d", count)
                    logged.append(count)
                    count += 1
                elif step == "send-same":
                    conn.send_json(same)
                    sent += 1
                elif step == "send":
                    conn.send_json({"note": 2})
                    sent += 1
                else:
                    waiter = loop.create_task(
                        conn.wait_json(same, timeout=1.0)
                    )
                    await asyncio.sleep(0.1)
                    sent += 1
                    raw.send({"__id__": raw.inbox[-1]["__id__"], "ok": 1})
                    expect_eq(await waiter, {"ok": 1}, "response")
                await asyncio.sleep(0.1)
            expect_eq(same, {"note": 1}, "message was modified")
            expect_eq(len(raw.inbox), sent, "messages sent")
            got = [
                y["args"][0]
                for x in raw.inbox
                for y in x.get("__log_messages__", [])
                if y["msg"] == "record %d"
            ]
            expect_eq(got, logged, "log records")
            conn.disable("done")
            await task
            stats.step(len(plan))
            stats.outcome(tuple(plan))

        return run_loop(main)[1]

    check.add("staged", staged, split=2)
    return check
