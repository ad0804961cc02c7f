"""C36: websocket sessions deliver whole messages in order and always end."""

import asyncio
from contextlib import AsyncExitStack, suppress

from mc.core import Check, expect, expect_eq
from mc.vloop import pending_tasks, run_loop


class Boom(Exception):
    """Raised on purpose."""


# Long enough for closing handshakes that aren't answered.
LONG = 60.0


def build(tier: str) -> Check:
    """Build the check."""
    import runtimepy.net.server.websocket  # noqa: F401 (must be first)
    from runtimepy.net.manager import ConnectionManager
    from runtimepy.net.websocket import WebsocketConnection

    thorough = tier == "thorough"
    depth = 4
    check = Check(
        "C36",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of connecting, sending, closing, losing and "
            "stopping up to the length, each with or without time for what "
            "was started before to finish, for servers that process "
            "connections themselves or by a manager, with every result of "
            "initializations; the websocket library runs over a simulated "
            "network; a stop at every step of a session"
        ),
        bounds={"events": depth, "clients": 2},
    )

    class Base(WebsocketConnection):
        """Records everything."""

        def __init__(self, *args, **kwargs) -> None:
            super().__init__(*args, **kwargs)
            self.got: list = []

        async def process_text(self, data: str) -> bool:
            self.got.append(data)
            return True

        async def process_binary(self, data: bytes) -> bool:
            self.got.append(bytes(data))
            return True

    class Echo(Base):
        """Sends back what it gets."""

        async def process_text(self, data: str) -> bool:
            await super().process_text(data)
            if data.startswith("quit"):
                return False
            self.send_text(data)
            return True

        async def process_binary(self, data: bytes) -> bool:
            await super().process_binary(data)
            self.send_binary(data)
            return True

    def split(items):
        """Texts and binary messages use separate queues."""
        return (
            [x for x in items if isinstance(x, str)],
            [x for x in items if isinstance(x, bytes)],
        )

    def prefix(got, sent, what, *info):
        """Whether messages are those sent first."""
        for have, all_sent in zip(split(got), split(sent)):
            expect_eq(have, all_sent[: len(have)], what, *info)

    class Client:
        """A client and what it did."""

        def __init__(self, conn, task) -> None:
            self.conn = conn
            self.task = task
            self.sent: list = []
            self.ended = False
            # Everything that was sent before is delivered.
            self.settled = 0
            self.server = None

    async def nap(loop, long: bool) -> None:
        """Wait for a loop iteration or until everything is done."""
        await asyncio.sleep(LONG if long else 0)

    # Events and how many clients they need.
    EVENTS = [
        "connect",
        "text",
        "binary",
        "both",
        "quit",
        "close",
        "drop",
        "lose",
        "stop",
        "cancel",
    ]

    def possible(events) -> bool:
        clients = 0
        for idx, event in enumerate(events):
            if event == "connect":
                clients += 1
                if clients > 2:
                    return False
            elif event not in ("stop", "cancel") and not clients:
                return False
            if event in ("stop", "cancel") and idx != len(events) - 1:
                return False
        return True

    def served(chooser, stats):
        how = chooser.pick(["process", "manager", "app"])
        init_kind = chooser.pick([None, "good", "bad", "raise", "slow"])
        first = ["connect"]
        for _ in range(depth - 1 if thorough or how == "process" else depth - 2):
            choices = [
                x
                for x in EVENTS
                if possible([*first, x])
                # (Managers are stopped, not cancelled.)
                and not (x == "cancel" and how == "app")
            ]
            event = chooser.pick([*choices, None])
            if event is None:
                break
            first.append(event)
            if event in ("stop", "cancel"):
                break
        if thorough:
            naps = [chooser.pick([True, False]) for _ in first]
        else:
            head = chooser.pick([True, False])
            rest = chooser.pick([[True] * 4, [False] * 4, [False, True] * 2])
            naps = [head, *rest][: len(first)]
        made: list = []
        inits: list = []

        class Server(Echo):
            """Remembers instances."""

            def __init__(self, *args, **kwargs) -> None:
                super().__init__(*args, **kwargs)
                made.append(self)

        async def init(conn) -> bool:
            inits.append(conn)
            if init_kind == "slow":
                await asyncio.sleep(0.1)
            if init_kind == "raise":
                raise Boom
            return init_kind != "bad"

        async def main(loop):
            stop = asyncio.Event()
            clients: list = []
            manager = ConnectionManager() if how != "process" else None
            kwargs = {"host": "localhost", "port": 0, "stop_sig": stop}
            if init_kind is not None:
                kwargs["init"] = init
            if manager is not None:
                kwargs["manager"] = manager
            ports: list = []
            managing = None
            refused = 0

            async def serve() -> None:
                async with Server.serve(**kwargs) as server:
                    ports.append(server.sockets[0].getsockname()[1])
                    await stop.wait()

            if how == "app":
                server = asyncio.create_task(
                    Server.app(
                        serving_callback=lambda x: ports.append(
                            x.sockets[0].getsockname()[1]
                        ),
                        **kwargs,
                    )
                )
            else:
                server = asyncio.create_task(serve())
                if manager is not None:
                    managing = asyncio.create_task(manager.manage(stop))
            while not ports:
                await asyncio.sleep(0)

            cancelled = False
            for event, settle in zip(first, naps):
                live = clients[-1] if clients else None
                if event == "connect":
                    conn = await Base.create_connection(
                        f"ws://localhost:{ports[0]}"
                    )
                    clients.append(
                        Client(conn, asyncio.create_task(conn.process()))
                    )
                    # The other side is the latest one.
                    while len(made) < len(clients):
                        await asyncio.sleep(0.001)
                    clients[-1].server = made[-1]
                elif event in ("text", "both", "binary", "quit"):
                    if not live.conn.disabled:
                        num = len(live.sent)
                        if event in ("text", "both"):
                            live.sent.append(f"text{num}")
                            live.conn.send_text(live.sent[-1])
                        if event in ("binary", "both"):
                            live.sent.append(b"binary%d" % num)
                            live.conn.send_binary(live.sent[-1])
                        if event == "quit":
                            live.sent.append("quit")
                            live.conn.send_text("quit")
                            live.ended = True
                elif event == "close":
                    live.conn.disable("test")
                    live.ended = True
                elif event == "drop":
                    # Every byte that follows is lost.
                    client, peer = loop.net.tcp[-1]
                    client.drop(ConnectionResetError("reset"))
                    peer.drop(ConnectionResetError("reset"))
                    live.ended = True
                elif event == "lose":
                    client, peer = loop.net.tcp[-1]
                    client.abort()
                    live.ended = True
                elif event == "stop":
                    stop.set()
                elif event == "cancel":
                    server.cancel()
                    stop.set()
                    cancelled = True
                await nap(loop, settle)
                if settle:
                    for item in clients:
                        if not item.ended and not stop.is_set():
                            item.settled = len(item.sent)
                    if event in ("close", "drop", "lose", "quit"):
                        expect(live.conn.disabled, "client's end", first)
                        expect(live.task.done(), "client's task", first)
                        expect(
                            live.server.disabled
                            or init_kind in ("bad", "raise"),
                            "server's side ends with the client's",
                            how,
                            first,
                        )
                    if event == "connect" and init_kind in ("bad", "raise"):
                        expect(
                            live is None or clients[-1].conn.disabled,
                            "rejected connections are closed",
                            how,
                            init_kind,
                        )
            good = init_kind not in ("bad", "raise")
            for item in clients:
                if not good:
                    expect_eq(item.server.got, [], "rejected connection")
                    expect_eq(item.conn.got, [], "rejected connection")
                    continue
                prefix(item.server.got, item.sent, "received", first, naps)
                replies = [x for x in item.sent if x != "quit"]
                prefix(item.conn.got, replies, "replies", first, naps)
                if item.settled:
                    for got, want in zip(
                        split(item.server.got),
                        split(item.sent[: item.settled]),
                    ):
                        expect_eq(
                            got[: len(want)], want, "delivered", how, first,
                            naps,
                        )
                    for got, want in zip(
                        split(item.conn.got), split(item.sent[: item.settled])
                    ):
                        expect_eq(
                            got[: len(want)], want, "echoed", how, first, naps
                        )
                if not item.ended and not stop.is_set():
                    expect(not item.conn.disabled, "client is alive", first)
                    expect(not item.server.disabled, "server is alive", first)
            if init_kind is not None:
                expect_eq(len(inits), len(made), "initializations")
            else:
                expect_eq(len(inits), 0, "initializations")
            expect_eq(len(made), len(clients), "connections")

            # Everything ends.
            stop.set()
            beg = loop.time()
            with suppress(asyncio.CancelledError):
                await server
            expect(
                loop.time() - beg <= 2 * LONG, "stopping takes long", first
            )
            if managing is not None:
                await managing
            for item in clients:
                await asyncio.wait_for(item.task, 10 * LONG)
            await asyncio.sleep(LONG)
            for item in clients:
                expect(item.conn.disabled, "client ends", how, first, naps)
                expect(
                    # (Connections that weren't processed are only closed.)
                    item.server.disabled or not item.server.got,
                    "server's side ends",
                    how,
                    first,
                    naps,
                )
            for pair in loop.net.tcp:
                for side in pair:
                    expect(side.lost, "connection is left open", how, first)
            expect_eq(
                pending_tasks(loop, asyncio.current_task()),
                [],
                "tasks are left",
                how,
                first,
                naps,
            )
            expect(
                cancelled or not loop.net.servers, "server is left", how
            )
            del refused

        loop, _ = run_loop(main)
        expect_eq(loop.contexts, [], "exceptions")
        stats.step(loop.steps)
        stats.state((how, init_kind, tuple(first)))
        stats.outcome((how, init_kind, tuple(first), tuple(naps)))

    check.add("served", served, split=3, limit_s=300, replay_every=997)

    def stops(chooser, stats):
        """A stop at every step of a session."""
        how = chooser.pick(["process", "manager", "app"])
        init_kind = chooser.pick([None, "slow"])
        ending = chooser.pick(["stop", "disable", "drop", "server"])
        made: list = []

        class Server(Echo):
            """Remembers instances."""

            def __init__(self, *args, **kwargs) -> None:
                super().__init__(*args, **kwargs)
                made.append(self)

        async def init(_) -> bool:
            await asyncio.sleep(0.1)
            return True

        def session(step):
            """End at a step, return whether it was reached."""
            made.clear()
            reached = []

            async def main(loop):
                stop = asyncio.Event()
                manager = ConnectionManager() if how != "process" else None
                kwargs = {"host": "localhost", "port": 0, "stop_sig": stop}
                if init_kind:
                    kwargs["init"] = init
                if manager is not None:
                    kwargs["manager"] = manager
                ports: list = []
                conns: list = []
                sent = ["a", b"b", "c", "d", b"e"]

                async def serve() -> None:
                    async with Server.serve(**kwargs) as server:
                        ports.append(server.sockets[0].getsockname()[1])
                        await stop.wait()

                async def client() -> None:
                    conn = await Base.create_connection(
                        f"ws://localhost:{ports[0]}"
                    )
                    conns.append(conn)
                    task = asyncio.create_task(conn.process(stop_sig=stop))
                    for item in sent:
                        if isinstance(item, str):
                            conn.send_text(item)
                        else:
                            conn.send_binary(item)
                        await asyncio.sleep(0)
                    await asyncio.sleep(1)
                    conn.disable("done")
                    await task

                tasks = []
                if how == "app":
                    tasks.append(
                        Server.app(
                            serving_callback=lambda x: ports.append(
                                x.sockets[0].getsockname()[1]
                            ),
                            **kwargs,
                        )
                    )
                else:
                    tasks.append(serve())
                    if manager is not None:
                        tasks.append(manager.manage(stop))
                tasks = [asyncio.create_task(x) for x in tasks]
                while not ports:
                    await asyncio.sleep(0)
                beg = loop.steps

                def act(loop, _) -> bool:
                    """End the session at the step."""
                    if loop.steps - beg >= step and not reached:
                        reached.append(loop.steps)
                        if ending == "stop":
                            stop.set()
                        elif ending == "disable":
                            for conn in conns:
                                conn.disable("early")
                        elif ending == "server":
                            for conn in made:
                                conn.disable("early")
                        else:
                            for pair in loop.net.tcp:
                                for side in pair:
                                    side.drop(ConnectionResetError("reset"))
                    return False

                loop.on_step = act
                # (Disabled connections that can't be restarted can't be
                # processed.)
                with suppress(
                    OSError, EOFError, WebSocketException, NotImplementedError
                ):
                    await asyncio.wait_for(client(), 10 * LONG)
                count = len(reached)
                loop.on_step = None
                await asyncio.sleep(LONG)
                for conn in [*conns, *made]:
                    expect(
                        conn.disabled or not conn.got,
                        "session ends",
                        how,
                        ending,
                        step,
                    )
                stop.set()
                for task in tasks:
                    await task
                await asyncio.sleep(LONG)
                if conns and made:
                    prefix(made[0].got, sent, "received", step)
                    prefix(conns[0].got, sent, "replies", step)
                if not count:
                    expect_eq(
                        split(made[0].got), split(sent), "everything arrives"
                    )
                    expect_eq(
                        split(conns[0].got), split(sent), "all replies"
                    )
                for pair in loop.net.tcp:
                    for side in pair:
                        expect(side.lost, "connection is left", how, ending)
                expect_eq(
                    pending_tasks(loop, asyncio.current_task()),
                    [],
                    "tasks are left",
                    how,
                    ending,
                    step,
                )

            loop, _ = run_loop(main)
            expect_eq(loop.contexts, [], "exceptions", how, ending, step)
            stats.step(loop.steps)
            return bool(reached)

        step = 0
        while session(step):
            stats.state((how, init_kind, ending, step))
            step += 1
        expect(step > 10, "steps", step)
        stats.outcome((how, init_kind, ending, step))

    from websockets.exceptions import WebSocketException

    check.add("stops", stops, split=2, limit_s=200, replay_every=7)

    def pairs(chooser, stats):
        """Connected pairs."""
        order = [chooser.pick(["a", "b"]) for _ in range(3)]
        kinds = [chooser.pick(["text", "binary"]) for _ in range(3)]
        who = chooser.pick(["both", "a", "b", "none"])
        fail = chooser.pick([False, True])
        settle = chooser.pick([True, False])

        async def main(loop):
            sent: dict = {"a": [], "b": []}
            ended = False
            try:
                async with AsyncExitStack() as stack:
                    one, two = await stack.enter_async_context(
                        Base.create_pair()
                    )
                    sides = {"a": one, "b": two}
                    tasks = {}
                    for name, conn in sides.items():
                        if who in (name, "both"):
                            tasks[name] = asyncio.create_task(conn.process())
                    for num, (name, kind) in enumerate(zip(order, kinds)):
                        if kind == "text":
                            sent[name].append(f"text{num}")
                            sides[name].send_text(f"text{num}")
                        else:
                            sent[name].append(b"%d" % num)
                            sides[name].send_binary(b"%d" % num)
                        if settle:
                            await asyncio.sleep(1)
                    await asyncio.sleep(1)
                    for name, conn in sides.items():
                        other = "b" if name == "a" else "a"
                        want = sent[other] if who == "both" else []
                        expect_eq(
                            split(conn.got), split(want), "messages", name
                        )
                        expect(not conn.disabled, "alive", name)
                    if fail:
                        raise Boom
                    for conn in sides.values():
                        conn.disable("done")
                    for task in tasks.values():
                        await task
            except Boom:
                ended = True
            expect_eq(ended, fail, "failures are passed on")
            await asyncio.sleep(LONG)
            for name, task in tasks.items():
                expect(task.done(), "processing ends", name)
                expect(sides[name].disabled, "disabled", name)
            for pair in loop.net.tcp:
                for side in pair:
                    expect(side.lost, "connection is left")
            expect_eq(loop.net.servers, {}, "servers")
            expect_eq(
                pending_tasks(loop, asyncio.current_task()), [], "tasks"
            )

        loop, _ = run_loop(main)
        expect_eq(loop.contexts, [], "exceptions")
        stats.step(loop.steps)
        stats.state((tuple(order), tuple(kinds), who))
        stats.outcome((tuple(order), tuple(kinds), who, fail, settle))

    check.add("pairs", pairs, split=2, replay_every=97)
    return check
