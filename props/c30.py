"""C30: structs step, poll and follow simulated time exactly as commanded."""

import asyncio
from contextlib import AsyncExitStack
import json
import logging
import math
import struct as pystruct

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop

DT = 250
START = 10**12


def near(have: float, want: float, *context) -> None:
    """Compare single-precision floats."""
    expect(abs(have - want) <= 1e-5 * max(1.0, abs(want)), have, want, *context)


def build(tier: str) -> Check:
    """Build the check."""
    from vcorelib.io.markdown import MarkdownMixin
    from vcorelib.math import default_time_ns
    import vcorelib.math.keeper as keeper
    from websockets.exceptions import ConnectionClosedOK

    import runtimepy.net.server.websocket  # noqa: F401 (must be first)
    from runtimepy.control.source import DoubleSource, PrimitiveSource
    from runtimepy.control.step import ToggleStepper, ToggleStepperTask
    from runtimepy.net.arbiter.info import (
        AppInfo,
        RuntimeStruct,
        SampleStruct,
        TrigStruct,
    )
    from runtimepy.net.manager import ConnectionManager
    from runtimepy.net.server.struct import UiState
    import runtimepy.net.server.struct as ui_module
    from runtimepy.net.server.websocket import RuntimepyWebsocketConnection
    from runtimepy.primitives import Float, Uint32

    thorough = tier == "thorough"
    depth = 5 if thorough else 4
    check = Check(
        "C30",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of commands, task iterations and passing time up "
            "to the depth for every configuration; times, counts and values "
            "are compared to a model after every step"
        ),
        bounds={"depth": depth, "steps_per_edge": 3, "structs": 7},
    )

    MarkdownMixin.class_markdown_parts = classmethod(  # type: ignore
        lambda cls, _visited=None, **kwargs: iter(["documentation"])
    )

    # The actual time.
    real = [START]
    keeper.TIME.orig = lambda: real[0]

    def reset_time():
        real[0] = START
        keeper.TIME.restore()
        ui_module.UI = None

    class Recorder(RuntimeStruct):
        """Records when it's polled."""

        def init_env(self):
            self.times: list = []
            self.steppers: list = []
            self.stale: list = []
            self.value = Uint32()
            self.env.channel("value", self.value)

        def poll(self):
            self.times.append(default_time_ns())
            self.value.value += 1
            # The time that steppers show is the one of this step.
            for stepper in self.steppers:
                if abs(stepper.env.value("time_s") * 1e9 - self.times[-1]) > 1:
                    self.stale.append(len(self.times))

    class RtRecorder(Recorder):
        """Isn't polled because of its name."""

    class FinalRecorder(Recorder):
        """Is polled when the application ends."""

        final_poll = True

    class MyStepper(ToggleStepper):
        """A specialized stepper."""

    def application(structs, tasks=None, stack=None, manager=None):
        return AppInfo(
            logging.getLogger("mc.c30"),
            stack,  # type: ignore
            {},
            manager or ConnectionManager(),
            None,  # type: ignore
            asyncio.Event(),
            {"root": {}},
            {},
            None,  # type: ignore
            tasks or {},
            None,  # type: ignore
            [],
            structs,
            {},
        )

    # Steppers.
    def stepping(kinds, poll_all, start_count, extra=False):
        ops = [
            "toggle step",
            "set step true",
            "set step false",
            "set count 0",
            "set count 3",
            "toggle simulate_time",
            "set simulate_time true",
            "set simulate_time false",
            "dispatch",
            "wait",
        ]
        if len(kinds) > 1:
            ops += ["second toggle step"]

        def run(chooser, stats):
            order: list = []
            reset_time()

            async def main(loop):
                structs = {}
                steppers = []
                for idx, kind in enumerate(kinds):
                    config = {"step_dt_ns": DT, "global": poll_all}
                    if start_count is not None:
                        config["count"] = start_count
                    name = f"stepper{idx}"
                    structs[name] = kind(name, config)
                    steppers.append(structs[name])
                structs["one"] = Recorder("one", {})
                structs["two"] = Recorder("two", {})
                structs["rt"] = RtRecorder("rt", {})
                if extra:
                    structs["sample"] = SampleStruct("sample", {})
                    structs["ui"] = UiState("ui", {"psutil": False})
                app = application(structs, stack=AsyncExitStack())
                await asyncio.gather(*(x.build(app) for x in structs.values()))
                for item in structs.values():
                    item.env.finalize(strict=False)
                task = ToggleStepperTask("task")
                await task.init(app)
                task.env.finalize(strict=False)
                expect(task.paused, "the task doesn't start paused")
                if not poll_all:
                    steppers[0].to_poll.add(structs["one"])
                if len(kinds) == 1:
                    structs["one"].steppers.append(steppers[0])

                # Model.
                count = [start_count or 1 for _ in kinds]
                total = [0 for _ in kinds]
                level = [False for _ in kinds]
                time_s = [START for _ in kinds]
                simulated = False
                polls = {"one": [], "two": []}

                def now():
                    return total[0] * DT if simulated else real[0]

                def edge(idx):
                    level[idx] = not level[idx]
                    for _ in range(count[idx]):
                        time_s[idx] = now()
                        polled = []
                        if poll_all:
                            polled = ["one", "two"]
                        elif idx == 0:
                            polled = ["one"]
                        for name in polled:
                            polls[name].append(now())
                        total[idx] += 1

                for _ in range(2 if extra else depth):
                    oper = chooser.pick(ops)
                    order.append(oper)
                    words = oper.split()
                    if oper == "wait":
                        real[0] += 1000
                    elif oper == "dispatch":
                        for idx in range(len(kinds)):
                            edge(idx)
                        expect(await task.dispatch(), "dispatch")
                    else:
                        idx = 0
                        if words[0] == "second":
                            words = words[1:]
                            idx = 1
                        current = (
                            level[idx] if words[1] == "step" else simulated
                        )
                        new = (
                            not current
                            if words[0] == "toggle"
                            else words[2] == "true"
                        )
                        if words[1] == "count":
                            count[idx] = int(words[2])
                        elif words[1] == "step":
                            if new != current:
                                edge(idx)
                        elif new != current:
                            simulated = new
                            time_s[idx] = now()
                        result = steppers[idx].command.command(
                            " ".join(words)
                        )
                        expect(result, "command failed", oper, result)
                    for idx, stepper in enumerate(steppers):
                        env = stepper.env
                        expect_eq(
                            env.value("counts"), total[idx], "counts", order
                        )
                        expect_eq(env.value("step"), level[idx], "step")
                        expect_eq(env.value("count"), count[idx], "count")
                        expect_eq(
                            env.value("time_s"),
                            time_s[idx] / 1e9,
                            "time_s",
                            order,
                        )
                    expect_eq(default_time_ns(), now(), "time", order)
                    for name, times in polls.items():
                        expect_eq(
                            structs[name].times, times, "polls", name, order
                        )
                        if times:
                            expect_eq(
                                structs[name].value.last_updated_ns,
                                times[-1],
                                "time stamp",
                                order,
                            )
                    expect_eq(structs["rt"].times, [], "excluded", order)
                    expect_eq(structs["one"].stale, [], "time shown", order)
                    if extra:
                        expect_eq(
                            structs["sample"].env.value("iterations"),
                            0,
                            "excluded",
                        )
                    stats.step()
                stats.state((total, time_s, simulated, level))
                stats.outcome((tuple(total), simulated))

            try:
                return run_loop(main)[1]
            finally:
                reset_time()

        return run

    for kinds, poll_all, count in (
        ([ToggleStepper], True, None),
        ([ToggleStepper], False, 2),
        ([MyStepper], True, 2),
        ([ToggleStepper, ToggleStepper], True, 1),
        ([MyStepper, ToggleStepper], True, 1),
    ):
        check.add(
            f"stepping {len(kinds)} {kinds[0].__name__} {poll_all} {count}",
            stepping(kinds, poll_all, count),
            split=2,
        )

    check.add(
        "stepping with excluded structs",
        stepping([ToggleStepper], True, None, extra=True),
        split=1,
    )

    # User-interface clients get told to clear their plots.
    class FakeSocket:
        """Stands in for the websocket library."""

        def __init__(self) -> None:
            self.logger = logging.getLogger("mc.c30.socket")
            self.queue: asyncio.Queue = asyncio.Queue()
            self.closed = False
            self.messages: list = []

        async def recv(self):
            data = await self.queue.get()
            if data is None or self.closed:
                self.closed = True
                raise ConnectionClosedOK(None, None)
            return data

        async def send(self, data):
            if self.closed:
                raise ConnectionClosedOK(None, None)
            data = bytes(data)
            while data:
                (size,) = pystruct.unpack(">I", data[:4])
                self.messages.append(json.loads(data[4 : 4 + size]))
                data = data[4 + size :]

        async def close(self):
            self.closed = True
            self.queue.put_nowait(None)

    def clients(chooser, stats):
        tabs = [chooser.choose(3) for _ in range(chooser.choose(3))]
        leaving = chooser.pick([False, True])
        ops = [
            chooser.pick(
                ["toggle simulate_time", "set simulate_time true", "step"]
            )
            for _ in range(3)
        ]
        reset_time()

        async def main(loop):
            manager = ConnectionManager()
            stop = asyncio.Event()
            task = loop.create_task(manager.manage(stop))
            stepper = ToggleStepper("stepper", {})
            other = Recorder("other", {})
            structs = {"stepper": stepper, "other": other}
            app = application(structs, manager=manager)
            for item in structs.values():
                await item.build(app)
                item.env.finalize(strict=False)
            sockets = []
            for count in tabs:
                socket = FakeSocket()
                sockets.append(socket)
                conn = RuntimepyWebsocketConnection(socket)
                for idx in range(count):
                    conn.tab_sender(["other", "stepper"][idx])
                await manager.queue.put(conn)
            await asyncio.sleep(0.01)
            if leaving and sockets:
                sockets[-1].queue.put_nowait(None)
                await asyncio.sleep(0.01)
            for socket in sockets:
                socket.messages.clear()
            changes = 0
            state = False
            for oper in ops:
                if oper == "step":
                    stepper.command.command("toggle step")
                else:
                    new = True if oper.startswith("set") else not state
                    changes += new != state
                    state = new
                    stepper.command.command(oper)
                await asyncio.sleep(0.01)
                stats.step()
            for idx, (socket, count) in enumerate(zip(sockets, tabs)):
                want = changes
                if leaving and idx == len(sockets) - 1:
                    want = 0
                got: dict = {}
                for message in socket.messages:
                    for name, data in message.get("ui", {}).items():
                        if "clear_points" in data.get("actions", []):
                            got[name] = got.get(name, 0) + 1
                names = ["other", "stepper"][:count] if want else []
                expect_eq(got, {x: want for x in names}, "clear_points", ops)
            stats.outcome(changes)
            stop.set()
            await task

        try:
            return run_loop(main)[1]
        finally:
            reset_time()

    check.add("clients", clients, split=1)

    # Waves.
    def waves(chooser, stats):
        ops = [
            "poll",
            "amplitude 2.0",
            "amplitude 0.5",
            "sin_phase_angle 1.0",
            "cos_phase_angle 2.0",
            "steps 400.0",
            "steps 0.0",
            "iterations 300",
        ]
        order: list = []

        async def main(loop):
            item = TrigStruct("trig", {})
            await item.build(application({"trig": item}))
            item.env.finalize(strict=False)
            values = {
                "steps": 64.0,
                "amplitude": 1.0,
                "sin_phase_angle": 0.0,
                "cos_phase_angle": 0.0,
                "iterations": 0,
            }
            for name in values:
                default = item.env.get(name)[0].default
                if default is not None:
                    expect_eq(default, values[name], "default", name)
                    item.env.set(name, default)
            angle = 0.0
            touched = set()
            for _ in range(depth + 1):
                oper = chooser.pick(ops)
                order.append(oper)
                if oper == "poll":
                    item.poll()
                    if values["steps"]:
                        angle = math.tau / values["steps"] * values["iterations"]
                        touched |= {"sin", "cos"}
                    else:
                        # There's no angle.
                        angle = None
                    values["iterations"] += 1
                else:
                    name, value = oper.split()
                    if values[name] != float(value):
                        if name in ("amplitude", "sin_phase_angle"):
                            touched.add("sin")
                        if name in ("amplitude", "cos_phase_angle"):
                            touched.add("cos")
                    values[name] = float(value)
                    expect(item.command.command(f"set {oper}"), "command", oper)
                expect_eq(
                    item.env.value("iterations"),
                    values["iterations"],
                    "iterations",
                )
                for name, func in (("sin", math.sin), ("cos", math.cos)):
                    if angle is not None and name in touched:
                        near(
                            item.env.value(name),
                            values["amplitude"]
                            * func(angle + values[f"{name}_phase_angle"]),
                            name,
                            order,
                        )
                stats.step()
            stats.state(tuple(values.values()))
            stats.outcome(values["iterations"])

        return run_loop(main)[1]

    check.add("waves", waves, split=2)

    # Sources.
    class Doubles(DoubleSource):
        """Counts."""

        def init_source(self):
            self.calls = 0
            self.ready = len(self.outputs)

        def source(self, index):
            self.calls += 1
            return float(self.calls * 10 + index)

    class Floats(PrimitiveSource):
        """Counts."""

        kind = Float
        init_source = Doubles.init_source

        def source(self, index):
            self.calls += 1
            return self.calls * 10 + index

    def sources(chooser, stats):
        kind = chooser.pick([Doubles, Floats])
        count = chooser.pick([None, 0, 1, 3])
        order = []

        async def main(loop):
            item = kind("source", {} if count is None else {"count": count})
            await item.build(application({"source": item}))
            item.env.finalize(strict=False)
            size = 1 if count is None else count
            expect_eq(item.ready, size, "outputs at initialization")
            amplitudes = [item.amplitudes[x].value for x in range(size)]
            expected = [0 for _ in range(size)]
            calls = 0
            for _ in range(depth):
                oper = chooser.pick(["poll", "amp 0 2", "amp 2 0", "amp 1 3"])
                order.append(oper)
                if oper == "poll":
                    item.poll()
                    for idx in range(size):
                        calls += 1
                        expected[idx] = amplitudes[idx] * (calls * 10 + idx)
                else:
                    _, idx, value = oper.split()
                    result = item.command.command(
                        f"set {idx}.amplitude {value}"
                    )
                    expect_eq(bool(result), int(idx) < size, "command", oper)
                    if result:
                        amplitudes[int(idx)] = float(value)
                for idx in range(size):
                    expect_eq(
                        item.env.value(f"{idx}.output"),
                        expected[idx],
                        "output",
                        order,
                    )
                stats.step()
            expect(not item.env.exists(f"{size}.output"), "too many outputs")
            stats.outcome(tuple(expected))

        return run_loop(main)[1]

    check.add("sources", sources, split=1)

    # Polls at the end of the application and by command.
    def polls(chooser, stats):
        names = ["one", "two", "final"]
        commands = [
            chooser.pick(
                [
                    "",
                    "custom poll",
                    "custom poll 0",
                    "custom poll 3",
                    "custom poll 2 0.5",
                ]
            )
            for _ in range(3)
        ]
        end = chooser.pick(["normal", "raise", "early"])

        async def main(loop):
            class Boom(Exception):
                """The application fails."""

            structs = {
                "one": Recorder("one", {}),
                "two": Recorder("two", {}),
                "final": FinalRecorder("final", {}),
            }
            try:
                async with AsyncExitStack() as stack:
                    app = application(structs, stack=stack)
                    for item in structs.values():
                        await item.build(app)
                        if end == "early":
                            continue
                        item.env.finalize(strict=False)
                    if end == "early":
                        raise Boom
                    want = {}
                    for name, text in zip(names, commands):
                        want[name] = 0
                        if text:
                            expect(structs[name].command.command(text), text)
                            words = text.split()
                            want[name] = int(words[2]) if words[2:] else 1
                        # Nothing happens yet.
                        expect_eq(structs[name].times, [], "early")
                    start = loop.time()
                    for name, text in zip(names, commands):
                        await structs[name].process_command_queue()
                        expect_eq(
                            len(structs[name].times), want[name], "polls", text
                        )
                        stats.step()
                    expect_eq(
                        loop.time() - start,
                        1.0 * commands.count("custom poll 2 0.5"),
                        "time",
                    )
                    before = {x: len(y.times) for x, y in structs.items()}
                    if end == "raise":
                        raise Boom
            except Boom:
                pass
            if end == "early":
                before = {x: 0 for x in structs}
            for name, item in structs.items():
                expect_eq(
                    len(item.times) - before[name],
                    1 if name == "final" else 0,
                    "polls at the end",
                    name,
                )
            stats.outcome((end, tuple(before.values())))

        return run_loop(main)[1]

    check.add("polls", polls, split=1)
    return check
