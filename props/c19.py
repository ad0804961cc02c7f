"""C19: periodic tasks run when they should and stop when told to."""

import asyncio

from mc.core import Check, expect, expect_eq
from mc.vloop import metrics_clock, run_loop

EPS = 1e-6


class Boom(Exception):
    """Raised by dispatches."""


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.task import AsyncTask
    from runtimepy.task.basic.manager import PeriodicTaskManager
    from runtimepy.task.basic.periodic import PeriodicTask

    thorough = tier == "thorough"
    check = Check(
        "C19",
        tier,
        kind="model_checking",
        rule=(
            "every combination of dispatch durations and results with every "
            "way of pausing, re-timing, disabling, stopping, cancelling or "
            "failing a task, at every phase of its period; every sequence of "
            "manager operations; iteration limits on both sides of every "
            "power of two up to 1024"
        ),
        bounds={"planned_iterations": 3, "tasks": 2},
    )

    class Task(PeriodicTask):
        """A scripted task."""

        def __init__(self, name, plan, **kwargs):
            super().__init__(name, **kwargs)
            self.plan = plan
            self.starts = []
            self.running = 0
            self.most = 0
            self.extra = 0
            self.zero = 0.0

        async def dispatch(self):
            loop = asyncio.get_running_loop()
            idx = len(self.starts)
            self.starts.append(loop.time() - self.zero)
            self.running += 1
            self.most = max(self.most, self.running)
            try:
                kind, time = (
                    self.plan[idx] if idx < len(self.plan) else ("ok", 0.0)
                )
                if time:
                    await asyncio.sleep(time)
                if kind == "raise":
                    raise Boom("dispatch")
                if kind == "self":
                    self.disable()
                return kind != "false"
            finally:
                self.running -= 1

        async def stop_extra(self):
            self.extra += 1

    ITERATIONS = [
        ("ok", 0.0),
        ("ok", 0.25),
        ("ok", 1.75),
        ("false", 0.0),
        ("false", 0.25),
        ("raise", 0.25),
        ("self", 0.25),
    ]
    EVENTS = ["none", "disable", "stop-sig", "cancel", "stop", "pause", "period"]
    TIMES = [0.125, 0.875, 1.125, 1.5625, 2.125] + (
        [0.0625, 1.8125, 2.5625, 3.125] if thorough else []
    )

    def reference(plan, period, event, at, limit):
        """(start times, end, how)."""
        clock, starts, idx = 0.0, [], 0
        off = None
        while clock < limit:
            if event == "disable" and at <= clock:
                return starts, clock, "ok"
            if event == "pause" and at <= clock < at + 3.0:
                busy = 0.0
            else:
                starts.append(clock)
                kind, busy = plan[idx] if idx < len(plan) else ("ok", 0.0)
                idx += 1
                if (
                    event in ("cancel", "stop")
                    and clock < at < clock + busy - EPS
                ):
                    return starts, at, "cancelled"
                clock += busy
                if kind == "raise":
                    return starts, clock, "raise"
                if kind in ("false", "self"):
                    return starts, clock, "ok"
                if event == "disable" and at <= clock:
                    return starts, clock, "ok"
            if event == "stop-sig" and at <= clock:
                return starts, clock, "ok"
            now = period
            if event == "period" and at <= clock:
                now = 0.5
            wait = max(now - busy, 0.0)
            if event in ("cancel", "stop") and clock <= at < clock + wait:
                return starts, at, "ok"
            clock += wait
        del off
        return starts, None, "running"

    def periodic(chooser, stats):
        plan = [chooser.pick(ITERATIONS)]
        while len(plan) < 3 and plan[-1][0] == "ok":
            plan.append(chooser.pick(ITERATIONS))
        event = chooser.pick(EVENTS)
        at = chooser.pick(TIMES) if event != "none" else 0.0
        use_sig = event == "stop-sig" or chooser.pick([False, True])
        limit = 9.0
        starts, end, how = reference(plan, 1.0, event, at, limit)

        async def main(loop):
            with metrics_clock(loop):
                task = Task("t", plan, period_s=1.0)
                sig = asyncio.Event()
                handle = await task.task(
                    **({"stop_sig": sig} if use_sig else {})
                )
                stops = []

                async def stop():
                    stops.append(await task.stop())

                def act():
                    if event == "disable":
                        stops.append(task.disable())
                    elif event == "stop-sig":
                        sig.set()
                    elif event == "cancel":
                        handle.cancel()
                    elif event == "stop":
                        loop.create_task(stop())
                    elif event == "pause":
                        task.env.set("paused", True)
                        loop.call_later(
                            3.0 - 1e-7, task.env.set, "paused", False
                        )
                    elif event == "period":
                        expect(task.set_period(0.5), "period not set")

                if event != "none":
                    loop.call_later(at, act)
                finished = []
                handle.add_done_callback(
                    lambda _: finished.append(loop.time())
                )
                await asyncio.sleep(limit - 0.03125)
                want = [x for x in starts if x < loop.time()]
                expect_eq(
                    [round(x, 5) for x in task.starts],
                    [round(x, 5) for x in want],
                    "start times",
                )
                expect_eq(handle.done(), end is not None, "finished", end)
                expect(task.most <= 1, "overlapping iterations")
                if end is not None:
                    expect(
                        abs(finished[0] - end) < 1e-5,
                        "finished at",
                        finished,
                        end,
                    )
                    if how == "raise":
                        expect(
                            not handle.cancelled()
                            and isinstance(handle.exception(), Boom),
                            "exception",
                        )
                    elif how == "cancelled":
                        expect(handle.cancelled(), "not cancelled")
                    else:
                        handle.result()
                    if event == "stop" and end == at:
                        expect_eq(stops, [True], "stop result")
                        expect_eq(task.extra, 1, "stop hook")
                    if event == "disable":
                        expect_eq(stops, [end >= at], "disable result")
                counted = len([x for x in task.starts])
                if how in ("ok", "running"):
                    expect_eq(
                        task.metrics.dispatches.value, counted, "dispatches"
                    )
                    expect_eq(
                        task.metrics.overruns.value,
                        len(
                            [
                                1
                                for i in range(counted)
                                if i < len(plan)
                                and plan[i][1]
                                > (
                                    0.5
                                    if event == "period" and starts[i] >= at
                                    else 1.0
                                )
                            ]
                        ),
                        "overruns",
                    )
                    times = [
                        plan[i][1] if i < len(plan) else 0.0
                        for i in range(counted)
                    ]
                    if times:
                        expect_eq(task.metrics.max_s.value, max(times), "max")
                        expect_eq(task.metrics.min_s.value, min(times), "min")

                # However it ended, it can be started again.
                sig.clear()
                await task.stop()
                expect(not await task.stop(), "stopped twice")
                await asyncio.sleep(3.0)
                task.plan = []
                task.starts.clear()
                task.env.set("paused", False)
                task.zero = loop.time()
                handle = await task.task(period_s=2.0, stop_sig=sig)
                await asyncio.sleep(4.5)
                expect_eq(
                    [round(x, 5) for x in task.starts],
                    [0.0, 2.0, 4.0],
                    "second run",
                )
                # Starting it while it's running starts it over.
                task.zero = loop.time()
                task.starts.clear()
                again = await task.task()
                await asyncio.sleep(2.5)
                expect(handle.done(), "previous run still active")
                expect_eq(
                    [round(x, 5) for x in task.starts], [0.0, 2.0], "third run"
                )
                expect(await task.stop(), "wasn't running")
                expect(again.done(), "still running")
                count = len(task.starts)
                await asyncio.sleep(5.0)
                expect_eq(len(task.starts), count, "dispatched after stop")
                stats.step(len(starts) + 5)
                stats.state((plan, event, at))
                stats.outcome((plan, event, at, starts, end, how))
                return starts

        return run_loop(main)[1]

    check.add("periodic", periodic, split=4, replay_every=211)

    # Manager operations.
    def manager_ops(chooser, stats):
        ops = [
            chooser.pick(
                ["start", "stop", "wait", "running", "one-stop", "add"]
            )
            for _ in range(5 if thorough else 4)
        ]
        sig_first = chooser.pick([False, True])

        async def main(loop):
            with metrics_clock(loop):
                manager = PeriodicTaskManager()
                tasks = [
                    Task("a", [], period_s=1.0),
                    Task("b", [("ok", 0.25)] * 99, period_s=0.5),
                ]
                other = Task("a", [], period_s=1.0)
                expect(manager.register(tasks[0]), "register")
                expect(manager.register(tasks[1], period_s=2.0), "register")
                expect(not manager.register(other), "duplicate name")
                expect(manager["a"] is tasks[0], "by name")
                expect_eq(tasks[1].period_s.value, 2.0, "period")
                sig = asyncio.Event()
                started = [None, None]
                want = [[], []]
                periods = [1.0, 2.0]

                def until(idx, now):
                    if started[idx] is not None:
                        clock = started[idx]
                        while clock < now - EPS:
                            want[idx].append(round(clock, 5))
                            clock += periods[idx]
                        started[idx] = None

                def begin(now):
                    for idx in range(2):
                        until(idx, now)
                        started[idx] = now

                for op in ops:
                    now = loop.time()
                    if op == "start":
                        await manager.start(stop_sig=sig)
                        begin(now)
                    elif op == "stop":
                        await manager.stop()
                        for idx in range(2):
                            until(idx, now)
                    elif op == "wait":
                        pass
                    elif op == "one-stop":
                        await manager["b"].stop()
                        until(1, now)
                    elif op == "add":
                        expect(
                            not manager.register(Task("b", [])), "duplicate"
                        )
                        expect_eq(list(manager.tasks), tasks, "tasks")
                    else:
                        try:
                            async with manager.running(stop_sig=sig):
                                begin(now)
                                await asyncio.sleep(2.5)
                                if sig_first:
                                    raise Boom("user")
                        except Boom:
                            pass
                        for idx in range(2):
                            until(idx, loop.time())
                    await asyncio.sleep(2.625)
                sig.set()
                for idx in range(2):
                    until(idx, loop.time())
                await asyncio.sleep(5.0)
                # (An iteration may happen when the signal is being set.)
                for idx in range(2):
                    got = [round(x, 5) for x in tasks[idx].starts]
                    expect(
                        got[: len(want[idx])] == want[idx]
                        and len(got) <= len(want[idx]) + 1,
                        "start times",
                        idx,
                        got,
                        want[idx],
                    )
                await manager.stop()
                expect_eq(other.starts, [], "rejected task ran")
                stats.step(len(ops))
                stats.outcome((ops, sig_first))
                return want

        return run_loop(main)[1]

    check.add("manager", manager_ops, split=2, replay_every=211)

    # Asynchronous tasks.
    class Async(AsyncTask):
        """A scripted task."""

        plan: list = []
        init_plan = ("ok", 0.0)

        def init_channels(self, env):
            self.starts = []
            self.inits = 0

        async def init(self, *args, **kwargs):
            self.inits += 1
            expect_eq((args, kwargs), ((1,), {"a": 2}), "arguments")
            kind, time = self.init_plan
            if time:
                await asyncio.sleep(time)
            return kind != "false"

        async def dispatch(self, *args, **kwargs):
            loop = asyncio.get_running_loop()
            expect_eq((args, kwargs), ((1,), {"a": 2}), "arguments")
            idx = len(self.starts)
            self.starts.append(loop.time())
            kind, time = self.plan[idx] if idx < len(self.plan) else ("ok", 0.0)
            if time:
                await asyncio.sleep(time)
            if kind == "raise":
                raise Boom("dispatch")
            if kind == "self":
                self.disable()
            return kind != "false"

    def async_reference(init, plan, event, at, limit, most):
        """(start times, end)."""
        clock, starts, idx = init[1], [], 0
        if event == "cancel" and at < clock:
            return starts, at, "cancelled"
        if init[0] == "false" or (event == "disable" and at <= clock):
            return starts, clock, "ok"
        while clock < limit:
            if event == "disable" and at <= clock:
                return starts, clock, "ok"
            starts.append(clock)
            kind, busy = plan[idx] if idx < len(plan) else ("ok", 0.0)
            idx += 1
            if event == "cancel" and clock < at < clock + busy - EPS:
                return starts, at, "cancelled"
            clock += busy
            if kind == "raise":
                return starts, clock, "raise"
            if event == "limit" and at <= clock:
                most = 1
            if kind in ("false", "self") or 0 < most <= len(starts):
                return starts, clock, "ok"
            if event in ("disable", "stop-sig") and at <= clock:
                return starts, clock, "ok"
            wait = max(1.0 - busy, 0.0)
            if event == "cancel" and clock <= at < clock + wait:
                return starts, at, "ok"
            clock += wait
        return starts, None, "running"

    def asynchronous(chooser, stats):
        init = chooser.pick([("ok", 0.0), ("ok", 0.25), ("false", 0.25)])
        plan = [chooser.pick(ITERATIONS)]
        while len(plan) < 2 and plan[-1][0] == "ok":
            plan.append(chooser.pick(ITERATIONS))
        event = chooser.pick(
            ["none", "disable", "stop-sig", "cancel", "limit"]
        )
        at = chooser.pick(TIMES) if event != "none" else 0.0
        most = chooser.pick([0, 2])
        limit = 7.0
        starts, end, how = async_reference(
            init, plan, event, at, limit, most
        )

        async def main(loop):
            with metrics_clock(loop):
                env = ChannelEnvironment()
                task = Async("t", 1.0, env, max_iterations=most)
                task.plan = plan
                task.init_plan = init
                sig = asyncio.Event()
                handle = loop.create_task(
                    task.run(1, a=2, stop_sig=sig)
                )
                if event == "disable":
                    loop.call_later(at, env.set, "t.enabled", False)
                elif event == "stop-sig":
                    loop.call_later(at, sig.set)
                elif event == "cancel":
                    loop.call_later(at, handle.cancel)
                elif event == "limit":
                    loop.call_later(at, env.set, "t.max_iterations", 1)
                finished = []
                handle.add_done_callback(
                    lambda _: finished.append(loop.time())
                )
                await asyncio.sleep(limit - 0.03125)
                expect_eq(
                    [round(x, 5) for x in task.starts],
                    [round(x, 5) for x in starts if x < loop.time()],
                    "start times",
                )
                expect_eq(task.inits, 1, "initializations")
                # (Disabling is noticed when the task wakes up.)
                expect_eq(handle.done(), end is not None, "finished", end)
                if end is not None:
                    expect(
                        abs(finished[0] - end) < 1e-5,
                        "finished at",
                        finished,
                        end,
                    )
                    expect_eq(env.value("t.enabled"), False, "enabled")
                    if how == "raise":
                        expect(
                            isinstance(handle.exception(), Boom), "exception"
                        )
                    elif how == "cancelled":
                        expect(handle.cancelled(), "not cancelled")
                    else:
                        handle.result()
                if how in ("ok", "running"):
                    expect_eq(
                        env.value("t.metrics.dispatches"),
                        len(task.starts),
                        "dispatches",
                    )
                # It can be run again.
                await asyncio.sleep(3.0)
                if not handle.done():
                    handle.cancel()
                    await asyncio.sleep(0)
                sig.clear()
                task.plan = []
                task.init_plan = ("ok", 0.0)
                task.starts.clear()
                env.set("t.max_iterations", 3)
                zero = loop.time()
                await asyncio.wait_for(task.run(1, a=2, stop_sig=sig), 10.0)
                expect_eq(
                    [round(x - zero, 5) for x in task.starts],
                    [0.0, 1.0, 2.0],
                    "second run",
                )
                expect_eq(env.value("t.metrics.dispatches"), 3, "dispatches")
                stats.step(len(starts) + 3)
                stats.state((init, plan, event, at, most))
                stats.outcome((init, plan, event, at, most, starts, how))
                return starts

        return run_loop(main)[1]

    check.add("async", asynchronous, split=4, replay_every=211)

    # Iteration limits.
    def limits(chooser, stats):
        base = chooser.pick([1, 2, 16, 128, 256, 512, 1024])
        count = max(1, base + chooser.pick([-1, 0, 1]))

        async def main(loop):
            with metrics_clock(loop):
                env = ChannelEnvironment()
                task = Async("t", 1.0, env, max_iterations=count)
                await asyncio.wait_for(task.run(1, a=2), 3000.0)
                expect_eq(len(task.starts), count, "iterations")
                expect_eq(
                    env.value("t.metrics.dispatches"), count, "dispatches"
                )
                expect_eq(loop.time(), float(count - 1), "end")
                stats.step(count)
                stats.outcome(count)

        return run_loop(main, max_steps=60000)[1]

    check.add("async/limits", limits)
    return check
