"""C28: user-interface clients see channels as they are."""

import asyncio
import json
import logging
import struct as pystruct

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop


def build(tier: str) -> Check:
    """Build the check."""
    from svgen.element.html import div
    from vcorelib.io.markdown import MarkdownMixin
    import vcorelib.math.time as vtime
    from websockets.exceptions import ConnectionClosedOK

    import runtimepy.net.server.websocket  # noqa: F401 (must be first)
    import runtimepy.net.server.struct as ui_module
    from runtimepy.net.arbiter.info import AppInfo, RuntimeStruct
    from runtimepy.net.html.bootstrap.tabs import TabbedContent
    from runtimepy.net.manager import ConnectionManager
    from runtimepy.net.server.app.env import populate_tabs
    from runtimepy.net.server.app.env.tab import ChannelEnvironmentTab
    from runtimepy.net.server.struct import UiState
    from runtimepy.net.server.websocket import RuntimepyWebsocketConnection
    from runtimepy.primitives import Bool, Uint8
    from runtimepy.primitives.field.fields import BitFields

    thorough = tier == "thorough"
    check = Check(
        "C28",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of client arrivals and departures, tab messages, "
            "channel changes, log messages, commands and frames up to the "
            "depth; every client is a scripted browser that keeps what it was "
            "told, which is compared to the channels"
        ),
        bounds={
            "single_depth": 6 if thorough else 5,
            "pair_depth": 5 if thorough else 4,
            "crowd_depth": 7 if thorough else 6,
            "clients": 4,
        },
    )

    # Documentation isn't looked up in the file system every time.
    MarkdownMixin.class_markdown_parts = classmethod(  # type: ignore
        lambda cls, _visited=None, **kwargs: iter(["documentation"])
    )

    # Metrics' clock.
    clock = [10**9]
    vtime._perf_counter_ns = lambda: clock[0]

    class Thing(RuntimeStruct):
        """Has all kinds of channels."""

        def init_env(self):
            env = self.env
            self.num = Uint8()
            env.channel("num", self.num, commandable=True)
            self.kind = Uint8()
            env.channel(
                "kind",
                self.kind,
                commandable=True,
                enum=env.enum("Kind", "int", {"zero": 0, "one": 1, "two": 2}),
            )
            self.flag = Bool()
            env.channel("flag", self.flag, commandable=True)
            env.channel("Mixed.Case", Uint8(), commandable=True)
            fields = BitFields.new("uint8")
            fields.flag("bit0", commandable=True)
            fields.field("wide", 3, commandable=True)
            fields.finalize()
            env.fields.add(fields)

        def poll(self):
            pass

    class Ui(UiState):
        """Counts polls."""

        polls = 0

        def poll(self):
            self.polls += 1
            super().poll()

    class FakeSocket:
        """Stands in for the websocket library."""

        def __init__(self, browser) -> None:
            self.browser = browser
            self.logger = logging.getLogger("mc.c28.socket")
            self.queue: asyncio.Queue = asyncio.Queue()
            self.closed = False

        async def recv(self):
            if self.closed:
                raise ConnectionClosedOK(None, None)
            data = await self.queue.get()
            if data is None:
                self.closed = True
                raise ConnectionClosedOK(None, None)
            return data

        async def send(self, data):
            if self.closed:
                raise ConnectionClosedOK(None, None)
            self.browser.receive(bytes(data))

        async def close(self):
            self.closed = True
            self.queue.put_nowait(None)

    class Browser:
        """Behaves like the user interface."""

        def __init__(self, world, respond=True) -> None:
            self.world = world
            self.respond = respond
            self.socket = FakeSocket(self)
            self.conn = RuntimepyWebsocketConnection(self.socket)
            self.view: dict = {}
            self.points: list = []
            self.logs: list = []
            self.shown: dict = {}
            self.acks: list = []
            self.time = 0.0
            self.connected = True
            self.buffer = b""
            self.task = asyncio.get_running_loop().create_task(
                self.conn.process()
            )

        def receive(self, data):
            self.buffer += data
            while len(self.buffer) >= 4:
                (size,) = pystruct.unpack(">I", self.buffer[:4])
                if len(self.buffer) < 4 + size:
                    break
                message = json.loads(self.buffer[4 : 4 + size])
                self.buffer = self.buffer[4 + size :]
                self.handle(message)

        def handle(self, message):
            if self.respond:
                response = {
                    x: message[x] for x in ("__id__", "loopback") if x in message
                }
                if response:
                    self.send(response)
            for tab, data in message.get("ui", {}).items():
                expect(tab in self.world.structs, "unknown tab", tab)
                view = self.view.setdefault(tab, {})
                for key, value in data.items():
                    if key == "points":
                        for name, points in value.items():
                            for point, stamp in points:
                                view[name] = point
                                self.points.append((tab, name, point, stamp))
                    elif key == "log_messages":
                        self.logs.extend((tab, x) for x in value)
                    elif key == "handle_shown_state":
                        self.acks.append((tab, value))
                    else:
                        view[key] = value

        def send(self, data):
            raw = json.dumps(data).encode()
            self.socket.queue.put_nowait(pystruct.pack(">I", len(raw)) + raw)

        def event(self, tab, kind, **extra):
            self.send({"ui": {"name": tab, "event": {"kind": kind, **extra}}})

        def frame(self):
            self.time += 16.0
            clock[0] += 10**8
            self.send({"ui": {"time": self.time}})

        def leave(self):
            self.connected = False
            self.socket.queue.put_nowait(None)

    class World:
        """The application and its clients."""

        def __init__(self, loop) -> None:
            self.loop = loop
            self.structs: dict = {}
            self.browsers: list = []
            self.stack = None
            ChannelEnvironmentTab.all_tabs.clear()
            ui_module.UI = None

        def app(self):
            return AppInfo(
                logging.getLogger("mc.c28"),
                None,  # type: ignore
                {},
                ConnectionManager(),
                None,  # type: ignore
                asyncio.Event(),
                {"root": {}},
                {},
                None,  # type: ignore
                {},
                None,  # type: ignore
                [],
                self.structs,
                {},
            )

        async def build(self, ui=True):
            self.thing = Thing("thing", {})
            self.structs["thing"] = self.thing
            if ui:
                self.ui = Ui("ui", {"psutil": False})
                self.structs["ui"] = self.ui
            app = self.app()
            for item in self.structs.values():
                await item.build(app)
                item.env.finalize(strict=False)
            self.tabs(app)
            self.baseline = self.observers()
            self.handlers = self.log_handlers()

        def tabs(self, app):
            parent = div()
            populate_tabs(app, TabbedContent("mc", parent))

        def observers(self):
            result = {}
            for name, item in self.structs.items():
                for chan in item.env.names:
                    found = item.env.field_or_channel(chan)
                    result[name, chan] = len(found.raw.callbacks)
            return result

        def log_handlers(self):
            return {
                x: list(y.logger.handlers) for x, y in self.structs.items()
            }

        async def settle(self):
            await asyncio.sleep(0.01)

        async def connect(self, respond=True):
            browser = Browser(self, respond)
            self.browsers.append(browser)
            await self.settle()
            return browser

        @property
        def live(self):
            return [x for x in self.browsers if x.connected]

        def values(self, tab):
            # As seen by a client.
            return json.loads(json.dumps(self.structs[tab].env.values()))

        def check_views(self):
            """Every shown tab is up to date (after a frame)."""
            for num, browser in enumerate(self.live):
                for tab, shown in browser.shown.items():
                    if shown:
                        expect_eq(
                            browser.view.get(tab),
                            self.values(tab),
                            "what a client sees differs from the channels",
                            num,
                            tab,
                        )

        async def finish(self):
            for browser in self.live:
                browser.frame()
            await self.settle()
            self.check_views()
            self.check_count()
            for browser in self.live:
                browser.leave()
            await self.settle()
            self.check_count()
            for browser in self.browsers:
                expect(browser.task.done(), "connection left running")
            left = {
                x: y
                for x, y in self.observers().items()
                if y > self.baseline[x]
            }
            expect(not left, "observers left behind", left)
            expect_eq(
                self.log_handlers(), self.handlers, "log handlers left behind"
            )

        def check_count(self):
            if "ui" in self.structs:
                expect_eq(
                    self.ui.env.value("num_connections"),
                    len(self.live),
                    "number of connections",
                )

        async def close(self):
            for browser in self.browsers:
                if not browser.task.done():
                    browser.leave()
            await self.settle()

    VALUES = {
        "num=1": ("num", 1),
        "num=2": ("num", 2),
        "kind": ("kind", "one"),
        "kind 0": ("kind", "zero"),
        "bit": ("bit0", True),
        "wide": ("wide", 5),
        "flag": ("flag", True),
    }

    class Session:
        """Applies operations and keeps track of what's expected."""

        def __init__(self, world, names) -> None:
            self.world = world
            self.names = names
            self.expected: dict = {}
            self.logged: dict = {}
            self.inited: dict = {}
            self.count = 0

        def note(self, tab, name, value):
            """A channel changed."""
            for browser in self.world.live:
                if browser.shown.get(tab):
                    self.expected.setdefault(
                        (id(browser), tab, name), []
                    ).append(value)

        async def apply(self, oper):
            world = self.world
            kind = oper[0]
            if kind == "set":
                self.change(oper[1])
                return
            if kind == "log":
                self.count += 1
                text = f"message {self.count}"
                world.thing.logger.warning(text)
                for browser in world.live:
                    if self.inited.get((id(browser), "thing")):
                        self.logged.setdefault(id(browser), []).append(text)
                return
            if kind == "connect":
                await world.connect()
                return
            browser = world.browsers[oper[1]]
            if not browser.connected:
                return
            before = world.thing.env.values()
            if kind == "leave":
                browser.leave()
            elif kind == "drop":
                browser.connected = False
                browser.conn.disable("test")
            elif kind == "frame":
                browser.frame()
            elif kind == "show":
                browser.event(oper[2], "tab.shown")
            elif kind == "hide":
                browser.event(oper[2], "tab.hidden")
            elif kind == "init":
                browser.event(oper[2], "init")
            elif kind == "command":
                browser.event(oper[2], "command", value=oper[3])
            elif kind == "unknown":
                browser.event(oper[2], oper[3])
            await world.settle()
            if kind == "command":
                self.changed(before)
            if kind == "show":
                browser.shown[oper[2]] = True
                expect_eq(
                    browser.acks[-1:], [(oper[2], True)], "shown response"
                )
            elif kind == "hide":
                browser.shown[oper[2]] = False
                # Undelivered changes don't have to be.
                for key in list(self.expected):
                    if key[:2] == (id(browser), oper[2]):
                        del self.expected[key]
                expect_eq(
                    browser.acks[-1:], [(oper[2], False)], "hidden response"
                )
            elif kind == "init":
                self.inited[id(browser), oper[2]] = True
            elif kind == "frame":
                self.check_frame(browser)
            elif kind == "command" and oper[3].startswith("set "):
                _, name, value = oper[3].split()
                expect_eq(
                    world.thing.env.value(name),
                    int(value),
                    "command's effect",
                )

        def change(self, what):
            clock[0] += 1000
            before = self.world.thing.env.values()
            self.world.thing.env.set(*VALUES[what])
            self.changed(before)

        def changed(self, before):
            for key, value in self.world.thing.env.values().items():
                if before[key] != value:
                    self.note("thing", key, value)

        def check_frame(self, browser):
            """Changes since the last frame were delivered."""
            got: dict = {}
            for tab, name, value, _ in browser.points:
                got.setdefault((tab, name), []).append(value)
            for tab in list(self.world.structs):
                if tab != "thing":
                    continue
                for name in self.world.structs[tab].env.names:
                    values = got.pop((tab, name), [])
                    if not browser.shown.get(tab):
                        expect_eq(values, [], "changes sent to a hidden tab")
                        continue
                    want = self.expected.pop((id(browser), tab, name), [])
                    if name in ("bit0", "wide"):
                        # Fields share storage.
                        final = [
                            x
                            for i, x in enumerate(values)
                            if not i or values[i - 1] != x
                        ]
                        if want:
                            expect_eq(
                                final[-len(want) :],
                                want,
                                "changes delivered",
                                name,
                            )
                            expect(
                                len(final) <= len(want) + 1,
                                "changes delivered",
                                final,
                            )
                    else:
                        expect_eq(values, want, "changes delivered", name)
            stamps: dict = {}
            for tab, name, _, stamp in browser.points:
                expect(
                    stamps.get((tab, name), 0) <= stamp, "time goes backwards"
                )
                stamps[tab, name] = stamp
            browser.points.clear()
            # Log messages.
            want_logs = self.logged.pop(id(browser), [])
            got_logs = [y for x, y in browser.logs if x == "thing"]
            got_logs = [x for x in got_logs if "message " in x]
            expect_eq(len(got_logs), len(want_logs), "log messages", got_logs)
            for have, want in zip(got_logs, want_logs):
                expect(have.endswith(want), "log message", have, want)
            browser.logs.clear()
            for tab, shown in browser.shown.items():
                if shown:
                    expect_eq(
                        browser.view.get(tab),
                        self.world.values(tab),
                        "what a client sees differs from the channels",
                        tab,
                    )

    def sequences(ops, depth, prepare):
        """Apply every sequence of operations."""

        def run(chooser, stats):
            order = []

            async def main(loop):
                clock[0] = 10**9
                world = World(loop)
                await world.build()
                session = Session(world, VALUES)
                try:
                    for oper in prepare:
                        await session.apply(oper)
                    for _ in range(depth):
                        oper = chooser.pick(ops)
                        order.append(oper)
                        await session.apply(oper)
                        stats.step()
                        world.check_count()
                    for idx, browser in enumerate(world.browsers):
                        if browser.connected:
                            await session.apply(("frame", idx))
                    await world.finish()
                    expect(not loop.contexts, "unhandled", loop.contexts)
                finally:
                    await world.close()
                stats.state(
                    [
                        (
                            sorted(x.view.get("thing", {}).items()),
                            sorted(x.shown.items()),
                            x.connected,
                        )
                        for x in world.browsers
                    ]
                )
                stats.outcome(tuple(sorted(world.values("thing").items())))

            try:
                return run_loop(main, max_steps=100000)[1]
            except Exception as exc:
                if hasattr(exc, "add_note"):
                    exc.add_note(f"after {order}")
                raise

        return run

    # One client.
    check.add(
        "single",
        sequences(
            [
                ("show", 0, "thing"),
                ("hide", 0, "thing"),
                ("set", "num=1"),
                ("set", "num=2"),
                ("set", "wide"),
                ("frame", 0),
                ("log",),
            ],
            6 if thorough else 5,
            [("connect",), ("init", 0, "thing")],
        ),
        split=3,
    )
    check.add(
        "kinds",
        sequences(
            [
                ("hide", 0, "thing"),
                ("set", "kind"),
                ("set", "kind 0"),
                ("set", "bit"),
                ("set", "wide"),
                ("set", "flag"),
                ("frame", 0),
                ("command", 0, "thing", "set num 7"),
                ("command", 0, "thing", "set Mixed.Case 3"),
                ("command", 0, "thing", "toggle flag"),
                ("command", 0, "thing", "nonsense"),
                ("unknown", 0, "thing", "other"),
            ],
            4 if thorough else 3,
            [("connect",), ("show", 0, "thing")],
        ),
        split=3,
    )

    # Two clients with two tabs.
    check.add(
        "pair",
        sequences(
            [
                ("show", 0, "thing"),
                ("hide", 0, "thing"),
                ("show", 1, "thing"),
                ("show", 1, "ui"),
                ("hide", 1, "ui"),
                ("set", "num=1"),
                ("frame", 0),
                ("frame", 1),
                ("leave", 0),
                ("drop", 1),
                ("log",),
            ],
            5 if thorough else 4,
            [
                ("connect",),
                ("connect",),
                ("init", 0, "thing"),
                ("show", 0, "thing"),
            ],
        ),
        split=3,
    )

    # Many clients: one of them always polls.
    def crowd(chooser, stats):
        depth = 7 if thorough else 6

        async def main(loop):
            clock[0] = 10**9
            world = World(loop)
            await world.build()
            try:
                for _ in range(depth):
                    ops = ["end"]
                    if len(world.browsers) < 4:
                        ops.append("connect")
                    for idx, browser in enumerate(world.browsers):
                        if browser.connected:
                            ops.append(("leave", idx))
                            if not idx:
                                ops.append(("drop", idx))
                    oper = chooser.pick(ops)
                    if oper == "end":
                        break
                    if oper == "connect":
                        await world.connect()
                    else:
                        browser = world.browsers[oper[1]]
                        if oper[0] == "leave":
                            browser.leave()
                        else:
                            browser.connected = False
                            browser.conn.disable("test")
                        await world.settle()
                    stats.step()
                    world.check_count()
                    for _ in range(2):
                        before = world.ui.polls
                        for browser in world.live:
                            browser.frame()
                            await world.settle()
                        expect_eq(
                            world.ui.polls - before,
                            1 if world.live else 0,
                            "clients polling the state",
                            len(world.live),
                        )
                        if world.live:
                            want = max(x.time for x in world.live)
                            expect(
                                world.ui.env.value("time_ms")
                                in [x.time for x in world.live],
                                "time isn't updated",
                                want,
                            )
                await world.finish()
                expect(not loop.contexts, "unhandled", loop.contexts)
            finally:
                await world.close()
            stats.outcome(len(world.browsers))

        return run_loop(main, max_steps=100000)[1]

    check.add("crowd", crowd, split=3)

    # Connections that end before everything is set up.
    def early(chooser, stats):
        late_ui = chooser.pick([False, True])
        respond = chooser.pick([True, False])
        others = chooser.pick([0, 1, 2])
        end = chooser.pick(["leave", "drop"])
        framed = chooser.pick([False, True])
        moment = chooser.choose(8)
        after = chooser.pick([False, True])

        async def main(loop):
            clock[0] = 10**9
            world = World(loop)
            await world.build(ui=not late_ui)
            try:
                for _ in range(others):
                    await world.connect()
                browser = Browser(world, respond)
                world.browsers.append(browser)
                for _ in range(moment):
                    await asyncio.sleep(0)

                async def build_ui():
                    if late_ui:
                        world.ui = Ui("ui", {"psutil": False})
                        world.structs["ui"] = world.ui
                        app = world.app()
                        await world.ui.build(app)
                        world.ui.env.finalize(strict=False)
                        world.baseline = world.observers()
                        world.handlers = world.log_handlers()

                if not after:
                    await build_ui()
                if framed:
                    browser.frame()
                    for other in world.live[:-1]:
                        other.frame()
                    await asyncio.sleep(0)
                if end == "leave":
                    browser.leave()
                else:
                    browser.connected = False
                    browser.conn.disable("test")
                await world.settle()
                if after:
                    await build_ui()
                for other in world.live:
                    other.frame()
                await world.settle()
                world.check_count()
                if world.live:
                    expect(world.ui.polls > 0, "nobody polls the state")
                await asyncio.sleep(10.0)
                await world.finish()
                stats.step(2)
                stats.outcome((late_ui, respond, others, world.ui.polls))
            finally:
                await world.close()

        return run_loop(main, max_steps=100000)[1]

    check.add("early", early, split=3)
    return check
