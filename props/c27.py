"""C27: the arbiter runs applications in order and always cleans up."""

import asyncio
import gc
import json
import pathlib
import random
import runpy
import sys
import tempfile
import types
import warnings

from mc.core import Check, Prune, Violation, expect, expect_eq
from mc.vloop import run_loop

APPS = "mc_c27_apps"


class Boom(Exception):
    """Raised by user code."""


class Raw(asyncio.Protocol):
    """A scripted peer."""

    transport = None
    lost = False

    def connection_made(self, transport) -> None:
        self.transport = transport

    def connection_lost(self, exc) -> None:
        self.lost = True


def build(tier: str) -> Check:
    """Build the check."""
    from vcorelib import asyncio as asynchronous

    from runtimepy.net.arbiter import (
        ArbiterTask,
        ConnectionArbiter,
        TaskFactory,
    )
    from runtimepy.net.arbiter.config.codec import ConnectionArbiterConfig
    from runtimepy.net.arbiter.factory import ConnectionFactory
    from runtimepy.net.arbiter.info import RuntimeStruct
    from runtimepy.net.arbiter.result import ResultState
    from runtimepy.net.arbiter.tcp import TcpConnectionFactory
    from runtimepy.net.tcp.connection import TcpConnection
    from runtimepy.primitives import Uint8
    from runtimepy.subprocess.interface import RuntimepyPeerInterface
    from runtimepy.subprocess.peer import RuntimepyPeer

    thorough = tier == "thorough"
    check = Check(
        "C27",
        tier,
        kind="model_checking",
        rule=(
            "every arrangement of initialization and application stages and "
            "every combination of outcomes of their methods; every "
            "combination of failing connections, structs, tasks and servers; "
            "a stop request at every step of the scheduler"
        ),
        bounds={
            "init_stages": 1,
            "app_stages": 2,
            "methods_per_stage": 2,
            "connections": 2,
        },
    )
    module = types.ModuleType(APPS)
    sys.modules[APPS] = module

    class Events(list):
        """Records what happened."""

    class Conn(TcpConnection):
        """A connection whose behavior is scripted."""

        script = "ok"
        events: Events
        label = ""
        inits = 0

        async def async_init(self):
            self.inits += 1
            if self.script == "slow":
                await asyncio.sleep(0.25)
            elif self.script == "never":
                await asyncio.Event().wait()
            elif self.script == "raise":
                raise Boom("init")
            self.events.append(("conn", self.label))
            return self.script != "no"

        async def process_binary(self, data):
            return True

    class Struct(RuntimeStruct):
        """A scripted struct."""

        script = "ok"
        events: Events
        polls = 0

        def init_env(self):
            if self.script == "raise":
                raise Boom("struct")
            self.env.channel("a", Uint8())
            self.events.append(("struct", self.name))

        def poll(self):
            self.polls += 1
            self.events.append(("poll", self.name))

    class FinalStruct(Struct):
        """Polled when the application ends."""

        final_poll = True

    class Task(ArbiterTask):
        """A scripted task."""

        script = "ok"
        events: Events
        stops = 0
        active = 0
        count = 0

        async def init(self, app):
            await super().init(app)
            if self.script == "init":
                raise Boom("task")
            self.events.append(("task", self.name))

        async def dispatch(self):
            self.count += 1
            self.active += 1
            try:
                if self.script == "raise":
                    raise Boom("dispatch")
                if self.script == "long":
                    await asyncio.sleep(0.3)
                return self.script != "no"
            finally:
                self.active -= 1

        async def stop_extra(self):
            self.stops += 1
            self.events.append(("stopped", self.name))

    class ConnFactory(TcpConnectionFactory):
        """Serves connections."""

        kind = Conn

    class SlowFactory(TcpConnectionFactory):
        """Starts to serve later."""

        kind = Conn

        async def server_task(self, *args, **kwargs):
            server = await super().server_task(*args, **kwargs)

            async def later():
                await asyncio.sleep(0.4)
                await server

            return later()

    class Rig:
        """An arbiter with everything attached."""

        def __init__(self, loop) -> None:
            self.loop = loop
            self.events = Events()
            self.stop = asyncio.Event()
            self.arbiter = ConnectionArbiter(stop_sig=self.stop)
            self.conns: list = []
            self.raws: list = []
            self.structs: list = []
            self.tasks: list = []
            self.info = None
            self.server = None
            Conn.events = self.events
            Struct.events = self.events
            Task.events = self.events
            self.names: list = []

        def listen(self):
            def factory():
                self.raws.append(Raw())
                return self.raws[-1]

            self.server = self.loop.net.listen(factory, "127.0.0.1", 0)
            return self.server.sockets[0].getsockname()[1]

        async def make(self, port, script, label):
            conn = await Conn.create_connection(host="127.0.0.1", port=port)
            conn.script = script
            conn.label = label
            self.conns.append(conn)
            return conn

        async def connect(self, script, defer=False):
            if self.server is None:
                self.listen()
            port = self.server.sockets[0].getsockname()[1]
            label = f"conn{len(self.names)}"
            self.names.append(label)
            if script == "fails":

                async def failing():
                    raise Boom("connect")

                made = failing()
            elif script == "hangs":

                async def hanging():
                    await asyncio.Event().wait()

                made = hanging()
            elif defer:
                made = self.make(port, script, label)
            else:
                made = await self.make(port, script, label)
            expect(
                self.arbiter.register_connection(made, label),
                "connection not registered",
            )
            extra = self.make(port, "ok", label)
            expect(
                not self.arbiter.register_connection(extra, label),
                "name registered twice",
            )
            extra.close()

        def struct(self, script, final=False):
            kind = FinalStruct if final else Struct
            inst = kind(f"struct{len(self.structs)}", {})
            inst.script = script
            self.structs.append(inst)
            # Registered the way a configuration would.
            self.arbiter.register_struct_factory(kind)
            name = inst.name
            expect(
                self.arbiter.factory_struct(kind.__name__, name, {}),
                "struct not registered",
            )
            expect(
                not self.arbiter.factory_struct(kind.__name__, name, {}),
                "struct registered twice",
            )

        def task(self, script, period=0.05):
            task = Task(f"task{len(self.tasks)}", period_s=period)
            task.script = script
            self.tasks.append(task)
            expect(
                self.arbiter.task_manager.register(task),
                "task not registered",
            )

    class Runner:
        """Scripted application methods (their behavior is chosen late)."""

        def __init__(self, rig, choose) -> None:
            self.rig = rig
            self.choose = choose
            self.log: list = []
            self.started: list = []
            self.running: set = set()
            self.exits: list = []
            self.contexts = 0
            self.on_start = lambda info: None
            # The arbiter handles what methods raise.
            self.violation = None

        def method(self, name):
            async def app(info):
                self.rig.info = info
                try:
                    self.on_start(info)
                except Violation as exc:
                    self.violation = self.violation or exc
                self.started.append(name)
                self.running.add(name)
                what = self.choose(name)
                num = self.contexts
                self.contexts += 1
                info.stack.callback(lambda: self.exits.append(num))
                try:
                    result = await self.act(what, info)
                except asyncio.CancelledError:
                    self.log.append((name, what, "cancelled"))
                    raise
                except BaseException as exc:
                    self.log.append((name, what, exc))
                    raise
                finally:
                    self.running.discard(name)
                self.log.append((name, what, result))
                return result

            app.__name__ = name
            return app

        async def act(self, what, info):
            kind, arg = what
            if kind == "return":
                return arg
            if kind == "later":
                await asyncio.sleep(1.0)
                return arg
            if kind == "raise":
                raise Boom("app")
            if kind == "raise later":
                await asyncio.sleep(1.0)
                raise Boom("app")
            if kind == "until stop":
                await info.stop.wait()
                return arg
            if kind == "stop":
                info.stop.set()
                return arg
            raise AssertionError(what)

    def install(layout, runner):
        """Turn stages of names into importable methods."""
        result = []
        for stage in layout:
            names = []
            for name in stage:
                setattr(module, name, runner.method(name))
                names.append(f"{APPS}.{name}")
            result.append(names if len(names) != 1 else names[0])
        return result

    async def settle(loop, task, limit):
        """Wait for the application within a limit."""
        end = loop.time() + limit
        while not task.done() and loop.time() < end:
            await asyncio.sleep(0.05)
        expect(task.done(), "application doesn't end", limit)

    def leftovers(loop, before):
        return [
            x
            for x in asyncio.all_tasks(loop)
            if x not in before and not x.done()
        ]

    async def run_app(rig, loop, limit, ignore=(), **kwargs):
        """Run the application and check what must always hold."""
        before = asyncio.all_tasks(loop)
        task = loop.create_task(rig.arbiter.app(**kwargs))
        await settle(loop, task, limit)
        code = None
        exc = None
        if task.exception() is not None:
            exc = task.exception()
        else:
            code = task.result()
        # Everything was cleaned up (the iteration of a task that was being
        # run may complete).
        expect(rig.stop.is_set(), "stop isn't signaled")
        await asyncio.sleep(0.5)
        left = leftovers(loop, before | set(ignore))
        expect(not left, "tasks left running", left)
        return code, exc

    def check_cleanup(rig, runner):
        if runner is not None and runner.violation is not None:
            raise runner.violation
        for conn in rig.conns:
            expect(conn.disabled, "connection left enabled", conn.label)
        for task in rig.tasks:
            expect_eq(task.active, 0, "task left running", task.name)
        if runner is not None:
            expect_eq(
                runner.exits,
                list(reversed(range(runner.contexts))),
                "contexts not left in reverse order (exactly once)",
            )
            expect(not runner.running, "methods left running")

    BEHAVIORS = [
        ("return", 0),
        ("later", 0),
        ("return", 1),
        ("later", -1),
        ("raise", None),
        ("raise later", None),
    ]
    SMALL = [("return", 0), ("return", 1), ("later", -1), ("raise", None)]

    # Stages of methods.
    def stages(chooser, stats):
        inits = chooser.pick([[], [1], [2], [1, 1]])
        apps = chooser.pick([[1], [2], [1, 1], [1, 2], [2, 1], [2, 2]])
        via = chooser.pick(["config", "argument", "constructor"])
        if via != "config" and (inits or len(apps) != 1):
            # Only a single stage can be given this way.
            return None
        wait = chooser.pick([False, True]) if via == "config" else False
        alphabet = BEHAVIORS if thorough or len(apps) == 1 else SMALL

        async def main(loop):
            rig = Rig(loop)
            await rig.connect("ok")
            rig.task("ok")

            def choose(name):
                if name.startswith("i"):
                    return chooser.pick(SMALL)
                return chooser.pick(alphabet)

            runner = Runner(rig, choose)
            layout = [
                [f"i{i}_{j}" for j in range(n)] for i, n in enumerate(inits)
            ]
            main_layout = [
                [f"a{i}_{j}" for j in range(n)] for i, n in enumerate(apps)
            ]

            def on_start(info):
                for conn in rig.conns:
                    expect(
                        conn.initialized.is_set(),
                        "started before connections are initialized",
                    )
                for task in rig.tasks:
                    expect(
                        ("task", task.name) in rig.events,
                        "started before tasks are initialized",
                    )

            runner.on_start = on_start
            kwargs = {}
            if via == "config":
                data = {
                    "init": install(layout, runner),
                    "app": install(main_layout, runner),
                }
                want = [list(x) for x in main_layout]
                await rig.arbiter.process_config(
                    ConnectionArbiterConfig(data=data), wait_for_stop=wait
                )
                if wait:
                    want.append(["wait_for_stop"])
            else:
                methods = [runner.method(x) for x in main_layout[0]]
                methods = methods if len(methods) > 1 else methods[0]
                want = [list(x) for x in main_layout]
                if via == "argument":
                    kwargs["app"] = methods
                else:
                    old = rig.arbiter
                    rig.arbiter = ConnectionArbiter(
                        stop_sig=rig.stop, app=methods
                    )
                    for conn in rig.conns:
                        rig.arbiter.register_connection(conn, conn.label)
                    for task in rig.tasks:
                        rig.arbiter.task_manager.register(task)
                    del old

            order = layout + want
            if wait:
                # Ends the last stage.
                def end():
                    rig.stop.set()

                loop.call_later(10.0, end)
            code, exc = await run_app(rig, loop, 15.0, **kwargs)
            expect(exc is None, "the application raised", repr(exc))
            check_cleanup(rig, runner)
            stats.step(len(runner.log))

            # Compute what should've happened.
            info = rig.info
            outcomes = {}
            for name, what, _ in runner.log:
                outcomes[name] = what
            expect_eq(
                len(runner.started),
                len(set(runner.started)),
                "a method ran more than once",
            )
            failed = False
            records = info.results
            got = [[x.method for x in stage] for stage in records]
            if got != layout or not got:
                expect_eq(got, order, "reported stages")
            position = 0
            for stage, record in zip(order, records):
                if stage == ["wait_for_stop"]:
                    expect_eq(
                        record[0].state,
                        (
                            ResultState.NOT_RUN
                            if failed
                            else ResultState.PASS
                        ),
                        "reported state",
                    )
                    continue
                ran = [x for x in stage if x in runner.started]
                if failed:
                    expect_eq(ran, [], "ran after a failed stage")
                    for item in record:
                        expect_eq(
                            item.state, ResultState.NOT_RUN, "reported state"
                        )
                    continue
                expect_eq(ran, stage, "not every method ran")
                # Stages run one after the other.
                expect_eq(
                    sorted(
                        runner.started[position : position + len(stage)]
                    ),
                    sorted(stage),
                    "stages overlap",
                )
                ended = [x[0] for x in runner.log]
                expect_eq(
                    sorted(ended[position : position + len(stage)]),
                    sorted(stage),
                    "stages overlap",
                )
                position += len(stage)
                whats = [outcomes[x] for x in stage]
                raised = [x for x in whats if x[0].startswith("raise")]
                if raised:
                    failed = True
                    # Nothing waits for what's left of the stage.
                    if any(x[0] == "raise" for x in raised):
                        for item in runner.log:
                            if item[0] in stage and "later" in item[1][0]:
                                expect_eq(
                                    item[2], "cancelled", "not cancelled"
                                )
                    expect(
                        any(
                            x.state is ResultState.EXCEPTION
                            and isinstance(x.exception, Boom)
                            for x in record
                        ),
                        "exception isn't reported",
                    )
                    expect(
                        not all(bool(x.state) for x in record),
                        "reported as passed",
                    )
                    continue
                for what, item in zip(whats, record):
                    expect_eq(item.code, what[1], "reported code")
                    expect_eq(
                        item.state,
                        (
                            ResultState.PASS
                            if what[1] == 0
                            else ResultState.FAIL
                        ),
                        "reported state",
                    )
                if any(x[1] for x in whats):
                    failed = True
                    if len(whats) == 1:
                        expect_eq(code, whats[0][1], "exit code")
            expect(failed or len(got) == len(order), "stages weren't run")
            expect_eq(bool(code), failed, "exit code", code, runner.log)
            expect_eq(info.result(), not failed, "overall result")
            expect_eq(
                info.raised_exception,
                any(x[1][0].startswith("raise") for x in runner.log),
                "raised exception",
            )
            stats.outcome((order, code, tuple(outcomes.items())))

        return run_loop(main, max_steps=40000)[1]

    check.add("stages", stages, split=5, limit_s=20)

    # Failures of everything the application is made of.
    def parts(chooser, stats):
        checked = chooser.pick([True, False])
        costs = [0, 1, 1, 1, 1]
        conns = [
            chooser.pick(["ok", "slow", "no", "raise", "lost"], costs=costs)
            for _ in range(2)
        ]
        defer = chooser.pick([False, True])
        extra = chooser.pick([None, "ok", "fails"], costs=[0, 1, 1])
        struct = chooser.pick(
            ["ok", "final", "raise", None], costs=[0, 1, 1, 1]
        )
        task = chooser.pick(
            ["ok", "no", "raise", "long", "init"], costs=[0, 1, 1, 1, 1]
        )
        server = chooser.pick([None, "ok", "busy", "two"], costs=[0, 1, 1, 1])
        what = chooser.pick(
            [("later", 0), ("return", 0), ("return", 3), ("raise", None)],
            costs=[0, 0, 0, 1],
        )

        async def main(loop):
            rig = Rig(loop)
            loop.net.refuse = lambda _: False
            for script in conns:
                await rig.connect(
                    script if script != "lost" else "ok", defer=defer
                )
            if extra is not None:
                await rig.connect(extra, defer=True)
            if struct is not None:
                rig.struct("ok", final=struct == "final")
                Struct.script = "raise" if struct == "raise" else "ok"
            rig.task(task)
            runner = Runner(rig, lambda _: what)
            if server is not None:
                port = loop.net.port()
                if server == "busy":
                    loop.net.listen(Raw, "127.0.0.1", port)
                rig.arbiter.register_connection_factory(ConnFactory())
                expect(
                    await rig.arbiter.factory_server(
                        "ConnFactory", host="127.0.0.1", port=port
                    ),
                    "no server",
                )
                if server == "two":
                    later = loop.net.port()
                    rig.arbiter.register_connection_factory(SlowFactory())
                    expect(
                        await rig.arbiter.factory_server(
                            "SlowFactory", host="127.0.0.1", port=later
                        ),
                        "no server",
                    )

            def on_start(info):
                for name, conn in zip(rig.names, rig.conns):
                    expect(
                        info.connections[name] is conn, "connection missing"
                    )
                    if checked:
                        expect(
                            not conn.disabled,
                            "started with a disabled connection",
                        )
                expect_eq(
                    [x for x in rig.events if x[0] == "task"],
                    [("task", x.name) for x in rig.tasks],
                    "tasks initialized",
                )
                for name, inst in info.structs.items():
                    expect(hasattr(inst, "array"), "struct isn't built", name)
                    expect(inst.env.finalized, "struct isn't finalized")
                for inst in rig.tasks:
                    expect(inst.env.finalized, "task isn't finalized")
                if server is not None:
                    expect(port in loop.net.servers, "server isn't running")
                    if server == "two":
                        expect(
                            later in loop.net.servers,
                            "second server isn't running",
                        )
                    if server == "ok":
                        # A client gets served.
                        def client():
                            return Raw()

                        clients.append(
                            loop.create_task(
                                loop.create_connection(
                                    client, "127.0.0.1", port
                                )
                            )
                        )

            clients = []
            runner.on_start = on_start
            if "lost" in conns:

                def drop():
                    for script, conn in zip(conns, rig.conns):
                        if script == "lost":
                            for mine, _ in loop.net.tcp:
                                if (
                                    getattr(mine.protocol, "conn", None)
                                    is conn
                                ):
                                    mine.drop(None)

                loop.call_later(0.5, drop)
            try:
                code, exc = await run_app(
                    rig,
                    loop,
                    10.0,
                    app=runner.method("app"),
                    check_connections=checked,
                )
            finally:
                Struct.script = "ok"
            await asyncio.sleep(0.1)
            check_cleanup(rig, runner)

            broken = (
                extra == "fails"
                or struct == "raise"
                or task == "init"
                or server == "busy"
            )
            down = checked and any(x in ("no", "raise") for x in conns)
            if broken or down:
                expect(
                    exc is not None or code != 0, "failure isn't reported"
                )
                expect_eq(runner.started, [], "ran in spite of a failure")
            else:
                expect(exc is None, "the application raised", repr(exc))
                expect_eq(runner.started, ["app"], "application runs")
                want = 1 if what[1] is None else what[1]
                expect_eq(bool(code), bool(want), "exit code", code)
                if want == 3:
                    expect_eq(code, 3, "exit code")
                for inst in rig.tasks:
                    expect_eq(inst.stops, 1, "task stops", inst.name)
                    expect(inst.count >= 1, "task didn't run")
                    if what[0] == "later" and task in ("ok", "long"):
                        expect(inst.count >= 3, "task didn't keep running")
                polls = [x for x in rig.events if x[0] == "poll"]
                expect_eq(
                    len(polls), 1 if struct == "final" else 0, "final polls"
                )
            # Nothing stays open.
            for mine, peer in loop.net.tcp:
                if getattr(mine.protocol, "conn", None) in rig.conns:
                    expect(mine.closing, "transport left open")
            if server == "ok":
                expect(port not in loop.net.servers, "still serving")
                for client in clients:
                    expect(client.result()[0].closing, "client left open")
            stats.step(4)
            stats.outcome((conns, code, type(exc), broken, down))

        return run_loop(main, max_steps=40000)[1]

    check.add(
        "parts", parts, split=4, bound=3 if thorough else 2, limit_s=20
    )

    # Clients that connect at any time (also while everything ends).
    def accepting(chooser, stats):
        what = chooser.pick(
            [("return", 0), ("return", 2), ("raise", None), ("until stop", 0)]
        )
        task = chooser.pick(["ok", "long"])
        count = chooser.pick([1, 2])
        when = chooser.choose(60 if thorough else 40)

        async def main(loop):
            rig = Rig(loop)
            rig.task(task)
            runner = Runner(rig, lambda _: what)
            port = loop.net.port()
            rig.arbiter.register_connection_factory(ConnFactory())
            await rig.arbiter.factory_server(
                "ConnFactory", host="127.0.0.1", port=port
            )
            clients = []
            start = loop.steps

            def on_step(loop, idle):
                if loop.steps - start >= when and not clients:
                    for _ in range(count):
                        clients.append(
                            loop.create_task(
                                loop.create_connection(Raw, "127.0.0.1", port)
                            )
                        )
                    return True
                return False

            loop.on_step = on_step
            if what[0] == "until stop":
                loop.call_later(1.0, rig.stop.set)
            code, exc = await run_app(
                rig, loop, 10.0, clients, app=runner.method("app")
            )
            loop.on_step = None
            await asyncio.sleep(0.1)
            check_cleanup(rig, runner)
            expect(exc is None, "the application raised", repr(exc))
            expect_eq(runner.started, ["app"], "application runs")
            expect_eq(
                code, -1 if what[1] is None else what[1], "exit code", code
            )
            expect(port not in loop.net.servers, "still serving")
            served = 0
            for client in clients:
                if client.done() and client.exception() is None:
                    served += 1
                    expect(
                        client.result()[0].closing, "client left open", when
                    )
                elif not client.done():
                    client.cancel()
            stats.step(2)
            stats.state((what, task, count, when))
            stats.outcome((what, code, served))

        return run_loop(main, max_steps=40000)[1]

    check.add("accepting", accepting, split=2, limit_s=20)

    # Connections that servers still establish while everything ends.
    class LateFactory(ConnectionFactory):
        """A server that's late."""

        delays: list = []
        rig = None
        port = 0

        async def server_task(
            self, stop_sig, manager, started_sem, *args, **kwargs
        ):
            async def serve():
                started_sem.release()
                await stop_sig.wait()
                for num, delay in enumerate(LateFactory.delays):
                    if isinstance(delay, int):
                        for _ in range(delay):
                            await asyncio.sleep(0)
                    else:
                        await asyncio.sleep(delay)
                    conn = await LateFactory.rig.make(
                        LateFactory.port, "ok", f"late{num}"
                    )
                    await manager.queue.put(conn)

            return serve()

    def late(chooser, stats):
        what = chooser.pick([("return", 0), ("raise", None), ("until stop", 2)])
        delays = [
            chooser.pick([0, 1, 2, 3, 5, 0.2, 1.5, None]) for _ in range(2)
        ]
        task = chooser.pick([None, "long"])

        async def main(loop):
            rig = Rig(loop)
            LateFactory.rig = rig
            LateFactory.port = rig.listen()
            LateFactory.delays = [x for x in delays if x is not None]
            if task:
                rig.task(task)
            runner = Runner(rig, lambda _: what)
            rig.arbiter.register_connection_factory(LateFactory())
            await rig.arbiter.factory_server("LateFactory")
            if what[0] == "until stop":
                loop.call_later(1.0, rig.stop.set)
            code, exc = await run_app(
                rig, loop, 10.0, app=runner.method("app")
            )
            await asyncio.sleep(0.1)
            check_cleanup(rig, runner)
            expect(exc is None, "the application raised", repr(exc))
            expect_eq(
                code, -1 if what[1] is None else what[1], "exit code", code
            )
            for conn in rig.conns:
                expect(conn.disabled, "late connection left", delays)
            for mine, _ in loop.net.tcp:
                if getattr(mine.protocol, "conn", None) in rig.conns:
                    expect(mine.closing, "late transport left open", delays)
            stats.step(2)
            stats.state((what, tuple(delays), task))
            stats.outcome((what, len(rig.conns)))

        return run_loop(main, max_steps=40000)[1]

    check.add("late", late, split=2, limit_s=20)

    # Being stopped at any time.
    def stopping(chooser, stats):
        kinds = chooser.pick(
            [
                ["ok"],
                ["slow"],
                ["never"],
                ["ok", "never"],
                ["hangs"],
                ["ok", "slow"],
            ]
        )
        checked = chooser.pick([True, False])
        task = chooser.pick(["ok", "long"])
        serve = chooser.pick([False, True])
        what = chooser.pick(
            [("until stop", 0), ("until stop", 2), ("later", 0)]
        )
        when = chooser.choose(40 if thorough else 24)

        async def main(loop):
            rig = Rig(loop)
            for script in kinds:
                await rig.connect(script, defer=script == "hangs")
            rig.task(task)
            rig.struct("ok", final=True)
            runner = Runner(rig, lambda _: what)
            if serve:
                port = loop.net.port()
                rig.arbiter.register_connection_factory(ConnFactory())
                await rig.arbiter.factory_server(
                    "ConnFactory", host="127.0.0.1", port=port
                )
            if not when:
                rig.stop.set()
            else:
                start = loop.steps

                def on_step(loop, idle):
                    if loop.steps - start >= when and not rig.stop.is_set():
                        rig.stop.set()
                        stamp.append(loop.time())
                        return True
                    return False

                loop.on_step = on_step
            stamp = []
            code, exc = await run_app(
                rig,
                loop,
                4.0,
                app=runner.method("app"),
                check_connections=checked,
            )
            loop.on_step = None
            await asyncio.sleep(0.1)
            check_cleanup(rig, runner)
            expect(exc is None, "the application raised", repr(exc))
            if not runner.started:
                expect(code != 0, "success without running")
            else:
                expect_eq(code, what[1], "exit code")
                polls = [x for x in rig.events if x[0] == "poll"]
                expect_eq(len(polls), 1, "final polls")
                for inst in rig.tasks:
                    expect_eq(inst.stops, 1, "task stops")
            for mine, peer in loop.net.tcp:
                conn = getattr(mine.protocol, "conn", None)
                if conn in rig.conns:
                    expect(mine.closing, "transport left open", conn.inits)
            if serve:
                expect(port not in loop.net.servers, "still serving")
            stats.step(2)
            stats.outcome((kinds, code, bool(runner.started)))

        return run_loop(main, max_steps=40000)[1]

    check.add("stopping", stopping, split=4, limit_s=20)
    
    # Applications loaded from configuration files.
    ITEMS = [
        "client",
        "deferred",
        "server",
        "task",
        "struct",
        "port",
        "config",
        "namespaced",
    ]

    def configs(chooser, stats):
        style = chooser.pick(["ab", "ba", "include", "aba"])
        places = {x: chooser.pick(["a", "b"]) for x in ITEMS}
        again = chooser.pick([False, True])
        broken = chooser.pick(
            [None, "factory", "client", "task", "struct", "method", "file"]
            if style == "ab" and not again
            else [None]
        )

        async def main(loop, root):
            rig = Rig(loop)
            port = rig.listen()
            runner = Runner(rig, lambda _: ("return", 0))
            module.ConnFactory = ConnFactory
            module.OtherFactory = OtherFactory
            module.TaskFactory = ScriptedTasks
            module.Struct = Struct
            first = {
                "app": install([["a0"], ["a1", "a2"]], runner),
                "init": install([["i0"]], runner),
                "directory": str(root),
            }
            second: dict = {}
            files = {"a": first, "b": second}

            def put(item, key, value):
                data = files[places[item]]
                if isinstance(value, dict):
                    data.setdefault(key, {}).update(value)
                else:
                    data.setdefault(key, []).extend(value)

            def factory(item, name, **extra):
                value = {"name": f"{APPS}.{name}", **extra}
                put(item, "factories", [value])
                if again:
                    # Factories may be listed more than once.
                    for data in files.values():
                        data.setdefault("factories", []).append(value)

            factory("client", "ConnFactory")
            put(
                "client",
                "clients",
                [
                    {
                        "factory": "conn_factory",
                        "name": "first",
                        "defer": False,
                        "kwargs": {"host": "127.0.0.1", "port": port},
                    }
                ],
            )
            put(
                "deferred",
                "clients",
                [
                    {
                        "factory": "ConnFactory",
                        "name": "second",
                        "defer": True,
                        "kwargs": {"host": "127.0.0.1", "port": "$main"},
                    }
                ],
            )
            put(
                "port",
                "ports",
                [{"name": "main", "type": "tcp", "host": "127.0.0.1"}],
            )
            put(
                "server",
                "servers",
                [
                    {
                        "factory": "conn_factory",
                        "kwargs": {"host": "127.0.0.1", "port": "$main"},
                    }
                ],
            )
            factory("namespaced", "OtherFactory", namespaces=["x", "y"])
            put(
                "namespaced",
                "clients",
                [
                    {
                        "factory": "other_factory",
                        "name": "first",
                        "defer": True,
                        "kwargs": {"host": "127.0.0.1", "port": port},
                    }
                ],
            )
            factory("task", "TaskFactory")
            put(
                "task",
                "tasks",
                [
                    {
                        "factory": "scripted_tasks",
                        "name": "t1",
                        "period_s": 0.25,
                        "config": {"n": 1},
                    },
                    {
                        "factory": "ScriptedTasks",
                        "name": "t2",
                        "period_s": 0.5,
                    },
                ],
            )
            factory("struct", "Struct")
            put(
                "struct",
                "structs",
                [
                    {"factory": "struct", "name": "s1", "config": {"n": 2}},
                    {"factory": "Struct", "name": "s2"},
                ],
            )
            put("config", "config", {"key": "value", "list": [1, 2]})

            if broken == "factory":
                second.setdefault("clients", []).append(
                    {"factory": "missing", "name": "c", "defer": False}
                )
            elif broken == "client":
                # Names can't be used twice.
                files[places["client"]]["clients"] *= 2
            elif broken == "task":
                files[places["task"]]["tasks"] *= 2
            elif broken == "struct":
                files[places["struct"]]["structs"] *= 2
            elif broken == "method":
                first["app"] = [f"{APPS}.missing"]

            (root / "a.json").write_text(json.dumps(first))
            if style == "include":
                first["includes"] = ["b.json"]
                (root / "a.json").write_text(json.dumps(first))
            (root / "b.json").write_text(json.dumps(second))
            paths = {
                "ab": ["a", "b"],
                "ba": ["b", "a"],
                "include": ["a"],
                "aba": ["a", "b", "a"],
            }[style]
            if broken == "file":
                paths.append("missing")
            raised = None
            try:
                await rig.arbiter.load_configs(
                    [root / f"{x}.json" for x in paths]
                )
            except Exception as exc:  # pylint: disable=broad-except
                raised = exc
            stats.step(len(ITEMS))
            if broken is not None:
                expect(raised is not None, "bad configuration accepted")
                for task in asyncio.all_tasks(loop):
                    if task is not asyncio.current_task():
                        task.cancel()
                await asyncio.sleep(0.01)
                stats.outcome((broken, type(raised)))
                rig.arbiter = raised = None
                with warnings.catch_warnings():
                    # Deferred connections are never awaited.
                    warnings.simplefilter("ignore")
                    gc.collect()
                return
            expect(raised is None, "configuration rejected", repr(raised))

            def on_start(info):
                expect_eq(
                    sorted(info.connections),
                    ["first", "second", "x.y.first"],
                    "connections",
                )
                for name, conn in info.connections.items():
                    expect(not conn.disabled, "connection isn't enabled")
                    expect(
                        conn.initialized.is_set(),
                        "connection isn't initialized",
                    )
                    expect_eq(
                        type(conn).__name__,
                        "Other" if name.startswith("x") else "Conn",
                        "connection type",
                    )
                    dest = conn.remote_address.port
                    want = info.ports["main"] if name == "second" else port
                    expect_eq(dest, want, "connected to", name)
                expect_eq(list(info.ports), ["main"], "ports")
                kinds = sorted(
                    (x.name, round(x.period_s.value, 3), x.config)
                    for x in info.search_tasks(Task)
                )
                expect_eq(
                    kinds,
                    [("t1", 0.25, {"n": 1}), ("t2", 0.5, {})],
                    "tasks",
                )
                expect_eq(
                    sorted(
                        (x.name, x.config) for x in info.search_structs(Struct)
                    ),
                    [("s1", {"n": 2}), ("s2", {})],
                    "structs",
                )
                expect_eq(info.config["key"], "value", "configuration")
                expect_eq(info.config["list"], [1, 2], "configuration")
                expect_eq(
                    info.config_param("key", None), "value", "parameter"
                )
                expect_eq(
                    info.config_param("other", 5), 5, "default parameter"
                )
                original = info.original_config()
                expect_eq(
                    original["config"]["key"], "value", "original config"
                )
                expect_eq(
                    len(original["clients"]), 3, "original config clients"
                )
                # Connections can be found.
                expect_eq(
                    info.single(pattern="second", kind=Conn),
                    info.connections["second"],
                    "found by name",
                )
                expect_eq(
                    list(info.search(pattern=r"^x\.y", kind=Conn)),
                    [info.connections["x.y.first"]],
                    "found by namespace",
                )
                found = list(info.search(kind=Other))
                expect_eq(
                    found, [info.connections["x.y.first"]], "found by kind"
                )
                # Includes the server's end.
                found = list(info.search(kind=Conn))
                expect_eq(len(found), len(set(found)), "found more than once")
                expect_eq(len(found), 4, "all connections")

            runner.on_start = on_start
            code, exc = await run_app(rig, loop, 10.0)
            expect(exc is None, "the application raised", repr(exc))
            check_cleanup(rig, runner)
            expect_eq(code, 0, "exit code")
            expect_eq(runner.started, ["i0", "a0", "a1", "a2"], "methods")
            expect(
                not any(x != port for x in loop.net.servers),
                "server left running",
            )
            stats.outcome((style, tuple(places.values()), again))

        with tempfile.TemporaryDirectory(prefix="mc-c27-") as name:
            before = list(sys.path)
            try:
                return run_loop(
                    lambda loop: main(loop, pathlib.Path(name)),
                    max_steps=40000,
                )[1]
            finally:
                sys.path[:] = before

    class Other(Conn):
        """Another kind of connection."""

    class OtherFactory(TcpConnectionFactory):
        """Creates another kind of connection."""

        kind = Other

    class ScriptedTasks(TaskFactory):
        """Creates tasks."""

        kind = Task

    check.add("configs", configs, split=6, limit_s=20)
    # Processes.
    class Child(RuntimepyPeerInterface):
        """What runs in a process."""

        struct_type = Struct
        proc = None

        def write(self, data: bytes, addr=None) -> None:
            del addr
            if self.proc.returncode is None:
                self.proc.emit(1, data)

    class Peer(RuntimepyPeer):
        """This side of a process."""

        struct_type = Struct

    class OtherPeer(Peer):
        """Another kind of process."""

    def processes(chooser, stats):
        kinds = [
            chooser.pick(["ok", "slow", "silent", "stubborn", "dies"])
            for _ in range(chooser.pick([1, 2]))
        ]
        broken = chooser.pick([None, "factory", "twice"])
        if broken is not None and "ok" not in kinds[:1]:
            raise Prune
        what = (
            chooser.pick(
                [("later", 0), ("return", 3), ("raise", None), ("until stop", 0)]
            )
            if broken is None
            else ("return", 0)
        )
        end = "itself"
        if broken is None:
            end = chooser.pick(["itself", "stop", "cancel"])
        when = (
            chooser.pick(
                [0.0, 0.005, 0.05, 0.5, 1.5, 5.0, 11.0]
                if thorough
                else [0.0, 0.005, 0.5, 3.0]
            )
            if end != "itself"
            else None
        )
        if what[0] == "until stop" and end == "itself":
            raise Prune

        async def main(loop, root):
            random.seed(1)
            rig = Rig(loop)
            runner = Runner(rig, lambda _: what)
            module.Peer = Peer
            module.OtherPeer = OtherPeer
            data: dict = {
                "app": install([["a0"]], runner),
                "directory": str(root),
                "factories": [
                    {"name": f"{APPS}.Peer"},
                    {"name": f"{APPS}.OtherPeer"},
                ],
                "processes": [
                    {
                        "name": f"proc{idx}",
                        "factory": ["peer", "OtherPeer"][idx],
                        "program": f"{APPS}.sub.Program{idx}",
                        "config": {"idx": idx, "text": "x 'y' \"z\""},
                    }
                    for idx in range(len(kinds))
                ],
            }
            if not broken and len(kinds) == 1:
                del data["processes"][0]["config"]
            if broken == "factory":
                data["processes"][-1]["factory"] = "missing"
            elif broken == "twice":
                data["processes"] *= 2
            (root / "a.json").write_text(json.dumps(data))
            raised = None
            try:
                await rig.arbiter.load_configs([root / "a.json"])
            except Exception as exc:  # pylint: disable=broad-except
                raised = exc
            expect_eq(
                raised is not None, broken is not None, "rejected", raised
            )
            stats.step(len(kinds))
            if broken is not None:
                stats.outcome((broken, type(raised)))
                return

            spawned: list = []
            scripts: list = []
            tasks: list = []

            async def serve(child, queue):
                while True:
                    item = await queue.get()
                    if child.script == "slow":
                        await asyncio.sleep(0.2)
                    for msg in child.processor.messages(item):
                        await child.process_json(msg)

            def on_spawn(proc):
                idx = len(spawned)
                spawned.append(proc)
                kind = kinds[idx]
                # The script runs the program with its configuration.
                expect_eq(len(proc.args), 2, "arguments", proc.args)
                expect_eq(proc.args[0], sys.executable, "interpreter")
                path = pathlib.Path(proc.args[1])
                ran: list = []

                class Program:
                    """Stands in for the program."""

                    @classmethod
                    def run(cls, *args):
                        ran.append(args)

                sub = types.ModuleType(f"{APPS}.sub")
                setattr(sub, f"Program{idx}", Program)
                sys.modules[sub.__name__] = sub
                before = asynchronous.run_handle_interrupt
                asynchronous.run_handle_interrupt = lambda x: None
                try:
                    runpy.run_path(str(path), run_name="__main__")
                except SystemExit as exc:
                    expect_eq(exc.code, 0, "exit code")
                finally:
                    asynchronous.run_handle_interrupt = before
                    del sys.modules[sub.__name__]
                ((name, config, argv),) = ran
                expect_eq(name, f"proc{idx}", "name")
                expect_eq(
                    config,
                    data["processes"][idx].get("config", {}),
                    "configuration",
                )
                expect(isinstance(argv, list), "arguments")
                scripts.append(path)
                if kind == "dies":
                    loop.call_soon(proc.exit, 1)
                    return
                proc.on_eof = lambda: (
                    None
                    if kind == "stubborn"
                    else loop.call_soon(proc.exit, 0)
                )
                if kind == "silent":
                    return
                child = Child(f"child.{name}", {})
                child.script = kind
                child.proc = proc
                queue: asyncio.Queue = asyncio.Queue()
                proc.on_input = queue.put_nowait
                tasks.append(loop.create_task(serve(child, queue)))

            loop.net.on_spawn = on_spawn

            def on_start(info):
                expect_eq(
                    list(info.peers),
                    [f"proc{x}" for x in range(len(kinds))],
                    "processes",
                )
                for idx, kind in enumerate(kinds):
                    peer = info.peers[f"proc{idx}"]
                    expect_eq(type(peer), [Peer, OtherPeer][idx], "type")
                    if kind in ("ok", "stubborn"):
                        expect(peer.peer is not None, "environment", kind)
                        expect(
                            "a" in list(peer.peer.env.names), "environment"
                        )

            runner.on_start = on_start
            before = asyncio.all_tasks(loop)
            start = loop.time()
            task = loop.create_task(rig.arbiter.app())
            if end == "stop":
                loop.call_later(when, rig.stop.set)
            elif end == "cancel":
                loop.call_later(when, task.cancel)
            await settle(loop, task, 60.0)
            # Processes ended before the application did.
            for idx, proc in enumerate(spawned):
                # (They are killed when waiting for them is cancelled.)
                expect(
                    proc.returncode is not None
                    or (end == "cancel" and proc.killed),
                    "process left running",
                    idx,
                )
            for path in scripts:
                expect(not path.exists(), "script left", path)
            if end == "cancel" and not runner.started:
                expect(
                    task.cancelled() or loop.time() - start < when,
                    "not cancelled",
                )
            elif end != "cancel":
                expect(not task.cancelled(), "cancelled")
                expect(task.exception() is None, "exception", task)
                if runner.started:
                    want = -1 if what[0] == "raise" else what[1]
                    expect_eq(task.result(), want, "result")
                    expect_eq(len(spawned), len(kinds), "processes")
                else:
                    expect(end == "stop", "not started")
                    expect(task.result() != 0, "result")
            expect_eq(runner.started in ([], ["a0"]), True, "started")
            for one in tasks:
                expect(not one.done(), "program failed", one)
                one.cancel()
            await asyncio.sleep(0.5)
            left = leftovers(loop, before | set(tasks))
            expect(not left, "tasks left running", left)
            check_cleanup(rig, runner)
            stats.outcome((kinds, what, end, when, bool(runner.started)))

        with tempfile.TemporaryDirectory(prefix="mc-c27-") as name:
            before = list(sys.path)
            try:
                result = run_loop(
                    lambda loop: main(loop, pathlib.Path(name)),
                    max_steps=10**6,
                )[1]
            finally:
                sys.path[:] = before
        stats.state((kinds, broken, what, end, when))
        return result

    check.add("processes", processes, split=3, limit_s=60)
    # Ports, builders and arguments of configurations.
    class Recording(ConnectionFactory):
        """Records what it's asked to create."""

        def __init__(self, *args, **kwargs) -> None:
            self.calls: list = []
            self.made = (args, kwargs)
            module.factories.append(self)

        async def client(self, name, *args, **kwargs):
            self.calls.append(("client", name, args, kwargs))
            return await module.rig.make(module.port, "ok", name)

        async def server_task(
            self, stop_sig, manager, started_sem, *args, **kwargs
        ):
            self.calls.append(("server", None, args, kwargs))

            async def serve():
                started_sem.release()
                await stop_sig.wait()

            return serve()

    def resolution(chooser, stats):
        udp = chooser.pick([False, True])
        fixed = chooser.pick([0, 18231])
        override = chooser.pick([None, "main", "other"])
        builder = chooser.pick([None, "struct", "override", "app", "two"])
        app = chooser.pick([None, "one", "list", "stages"])
        wait = chooser.pick([False, True])
        defer = chooser.pick([False, True])

        async def main(loop, root):
            rig = Rig(loop)
            module.rig = rig
            module.port = rig.listen()
            module.factories = []
            module.Recording = Recording
            module.Struct = Struct
            built: list = []
            runner = Runner(
                rig,
                lambda name: ("later" if name == "a1" else "return", 0),
            )
            apps = {
                None: None,
                "one": [["a0"]],
                "list": [["a0"], ["a1"]],
                "stages": [["a0", "a1"], ["a2"]],
            }[app]
            layout = install(apps or [], runner)
            (extra,) = install([["extra"]], runner)
            data: dict = {
                "directory": str(root),
                "factories": [
                    {
                        "name": f"{APPS}.Recording",
                        "kwargs": {"a": "$main", "b": ["$other"]},
                    },
                    {"name": f"{APPS}.Struct"},
                ],
                "ports": [
                    {
                        "name": "main",
                        "type": "udp" if udp else "tcp",
                        "host": "127.0.0.1",
                        "port": fixed,
                    },
                    {"name": "other", "type": "tcp", "host": "127.0.0.1"},
                ],
                "clients": [
                    {
                        "factory": "recording",
                        "name": "client",
                        "defer": defer,
                        "args": [
                            "127.0.0.1:$main",
                            "$other",
                            "$missing",
                            ["$main", 5],
                            {"x": "$other"},
                        ],
                        "kwargs": {
                            "port": "$main",
                            "remote_addr": ["127.0.0.1", "$other"],
                            "deep": {"er": ["$main", {"est": "$other"}]},
                            "plain": "main",
                        },
                    }
                ],
                "servers": [
                    {
                        "factory": "Recording",
                        "args": ["$main"],
                        "kwargs": {"port": "$other"},
                    }
                ],
                "structs": [],
            }
            if app == "one":
                data["app"] = layout[0]
            elif app is not None:
                data["app"] = layout
            wanted = {"main": fixed, "other": 0}
            if override is not None:
                data["port_overrides"] = {override: 18232}
                wanted[override] = 18232

            def build_struct(config):
                built.append("struct")
                config["structs"].append({"name": "s", "factory": "struct"})

            def build_override(config):
                built.append("override")
                config.setdefault("port_overrides", {})["other"] = 18233

            def build_app(config):
                built.append("app")
                config["app"] = extra

            module.build_struct = build_struct
            module.build_override = build_override
            module.build_app = build_app
            builders = {
                None: [],
                "two": ["override", "struct"],
            }.get(builder, [builder])
            data["config_builders"] = [f"{APPS}.build_{x}" for x in builders]
            if "override" in builders:
                wanted["other"] = 18233
            names = [y for x in apps or [] for y in x]
            if builder == "app":
                names = ["extra"]
            (root / "a.json").write_text(json.dumps(data))
            await rig.arbiter.load_configs(
                [root / "a.json"], wait_for_stop=wait
            )
            expect_eq(built, builders, "builders")
            stats.step(len(wanted))

            def on_start(info):
                expect_eq(sorted(info.ports), ["main", "other"], "ports")
                for name, want in wanted.items():
                    have = info.ports[name]
                    if want:
                        expect_eq(have, want, "port", name)
                    else:
                        expect(0 < have < 65536, "port", name, have)
                original = info.original_config()
                expect_eq(
                    {x["name"]: x["port"] for x in original["ports"]},
                    info.ports,
                    "original ports",
                )
                expect_eq(
                    original.get("app"),
                    extra if builder == "app" else data.get("app"),
                    "original app",
                )
                expect_eq(
                    list(info.structs),
                    ["s"] if "struct" in builders else [],
                    "structs",
                )

            runner.on_start = on_start
            if wait or not names:
                loop.call_later(5.0, rig.stop.set)
            start = loop.time()
            before = asyncio.all_tasks(loop)
            task = loop.create_task(rig.arbiter.app())
            await settle(loop, task, 15.0)
            expect_eq(task.result(), 0, "result")
            expect_eq(runner.started, names, "methods")
            expect_eq(loop.time() - start >= 5.0, wait, "waits")
            await asyncio.sleep(0.5)
            left = leftovers(loop, before)
            expect(not left, "tasks left running", left)
            check_cleanup(rig, runner)

            ports = rig.arbiter_ports = (
                rig.info.ports if rig.info is not None else None
            )
            (factory,) = module.factories
            main_port = factory.made[1]["a"]
            (other_port,) = factory.made[1]["b"]
            if ports is not None:
                expect_eq(
                    (main_port, other_port),
                    (ports["main"], ports["other"]),
                    "ports of factories",
                )
            expect_eq(factory.made[0], (), "factory arguments")
            client, server = sorted(factory.calls)
            expect_eq(client[:2], ("client", "client"), "client")
            expect_eq(
                client[2],
                (
                    f"127.0.0.1:{main_port}",
                    other_port,
                    "$missing",
                    [main_port, 5],
                    {"x": other_port},
                ),
                "client arguments",
            )
            want = {
                "port": main_port,
                "remote_addr": ("127.0.0.1", other_port),
                "deep": {"er": [main_port, {"est": other_port}]},
                "plain": "main",
            }
            have = dict(client[3])
            have.pop("markdown", None)
            expect_eq(have, want, "client arguments")
            expect_eq(
                server[2:],
                ((main_port,), {"port": other_port}),
                "server arguments",
            )
            stats.outcome((builder, override, app, wait, defer, udp))

        with tempfile.TemporaryDirectory(prefix="mc-c27-") as name:
            before = list(sys.path)
            try:
                result = run_loop(
                    lambda loop: main(loop, pathlib.Path(name)),
                    max_steps=40000,
                )[1]
            finally:
                sys.path[:] = before
        stats.state((udp, fixed, override, builder, app, wait, defer))
        return result

    check.add("resolution", resolution, split=3, limit_s=60)
    return check
