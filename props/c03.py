"""C03: waiting for values and sampling, under every timing of changes."""

import asyncio
import math
import operator

from mc import refcodec as ref
from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop

OPS = {
    "LESS_THAN": operator.lt,
    "LESS_THAN_OR_EQUAL": operator.le,
    "EQUAL": operator.eq,
    "NOT_EQUAL": operator.ne,
    "GREATER_THAN_OR_EQUAL": operator.ge,
    "GREATER_THAN": operator.gt,
}

TIMEOUT = 10.0
# Gaps between changes: same step, a later loop iteration at the same time,
# later in time, and past the deadline.
GAPS = ["together", "yield", 4.0, 7.0]


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.primitives import create
    from runtimepy.primitives.evaluation import (
        EvalResult,
        Operator,
        evaluate,
        sample_for,
    )

    thorough = tier == "thorough"
    steps = 4 if thorough else 3
    check = Check(
        "C03",
        tier,
        kind="model_checking",
        rule=(
            "every timeline of up to the stated number of changes (each with "
            "every gap and value) against every kind of wait, on a virtual "
            "clock; the result, when it is given and what stays registered "
            "are compared with a timeline model"
        ),
        bounds={"changes": steps, "gaps": [str(x) for x in GAPS]},
        assumptions=[
            "changes at exactly the deadline are not judged",
            "the event loop's clock is virtual; its ready queue is FIFO",
        ],
    )

    def observers(prim) -> int:
        return len(prim.callbacks)

    class Timeline:
        """Performs changes on a primitive and records them."""

        def __init__(self, chooser, prim, values, count) -> None:
            self.plan = []
            for _ in range(count):
                gap = chooser.pick(GAPS, "gap")
                val = chooser.pick(values, "value")
                self.plan.append((gap, val))
            self.prim = prim
            self.log: list = []

        async def run(self) -> None:
            """Perform the changes."""
            loop = asyncio.get_running_loop()
            for gap, val in self.plan:
                if gap == "yield":
                    await asyncio.sleep(0)
                elif gap != "together":
                    await asyncio.sleep(gap)
                before = self.prim.value
                self.prim.value = val
                after = self.prim.value
                if before != after:
                    self.log.append((loop.time(), before, after))

    def expected(initial, log, good, start, timeout):
        """The result of a wait and when it's given."""
        if good(initial):
            return "SUCCESS", start
        last = "TIMEOUT"
        for when, _, new in log:
            if when >= start + timeout:
                break
            if good(new):
                return "SUCCESS", when
            last = "FAIL"
        return last, start + timeout

    def wait_scenario(
        kind, values, call, good, initial=None, scaling=None, changes=steps
    ):
        """One wait against every timeline."""

        def run(chooser, stats):
            async def main(loop):
                prim = (
                    create(kind, scaling=scaling) if scaling else create(kind)
                )
                prim.value = values[0] if initial is None else initial
                timeline = Timeline(chooser, prim, values, changes)
                first = prim.value
                start = loop.time()
                driver = None
                waiter = loop.create_task(call(prim))
                await asyncio.sleep(0)
                driver = loop.create_task(timeline.run())
                result = await waiter
                when = loop.time()
                left = observers(prim)
                await driver
                want, at = expected(
                    first, timeline.log, good, start, TIMEOUT
                )
                stats.step(len(timeline.log))
                stats.state((kind, first, tuple(timeline.log)))
                stats.outcome((kind, want, at, tuple(timeline.log)))
                expect_eq(
                    result.name, want, "result", first, timeline.plan
                )
                expect_eq(bool(result), want == "SUCCESS", "truth value")
                expect_eq(when, at, "time of result", first, timeline.plan)
                expect_eq(left, 0, "observers left behind")
                return want, at

            return run_loop(main)[1]

        return run

    # Comparison waits.
    for kind, values in (
        ("uint8", [3, 5, 7]),
        ("int16", [-3, 0, 3]),
        ("double", [-0.5, 0.0, 0.5]),
    ):
        for name, oper in OPS.items():
            if kind != "uint8" and name not in ("LESS_THAN", "EQUAL"):
                continue
            mid = values[1]
            check.add(
                f"value/{kind}/{name}",
                wait_scenario(
                    kind,
                    values,
                    lambda p, n=name, m=mid: p.wait_for_value(
                        m, TIMEOUT, operation=Operator[n]
                    ),
                    lambda x, o=oper, m=mid: o(m, x),
                    initial=(
                        values[0]
                        if not oper(mid, values[0])
                        else values[2] if not oper(mid, values[2]) else mid
                    ),
                ),
            )
    for state in (True, False):
        check.add(
            f"state/{state}",
            wait_scenario(
                "bool",
                [not state, state],
                lambda p, s=state: p.wait_for_state(s, TIMEOUT),
                lambda x, s=state: x == s,
            ),
        )
    check.add(
        "isclose",
        wait_scenario(
            "float",
            [1.0, 2.0, 2.05],
            lambda p: p.wait_for_isclose(2.1, TIMEOUT, abs_tol=0.06),
            lambda x: math.isclose(x, 2.1, rel_tol=1e-9, abs_tol=0.06),
        ),
    )
    # Targets between representable values and tolerances, with scaling.
    for kind in ["uint8", "int16", "float"]:
        for scaling in [[0.0, 2.0], [1.0, -0.5]]:
            for tols in [{}, {"abs_tol": 1.1}, {"rel_tol": 0.3}]:
                for goal in [0.0, 3.0, 3.9, -1.0]:

                    def judge(x, a=scaling, t=tols, g=goal):
                        return math.isclose(
                            g, a[0] + a[1] * x, **{"rel_tol": 1e-9, **t}
                        )

                    check.add(
                        f"isclose/{kind}/{scaling}/{tols}/{goal}",
                        wait_scenario(
                            kind,
                            [0, 1, 2, 4],
                            lambda p, t=tols, g=goal: p.wait_for_isclose(
                                g, TIMEOUT, **t
                            ),
                            judge,
                            initial=7,
                            scaling=scaling,
                            changes=2,
                        ),
                    )
    check.add(
        "already",
        wait_scenario(
            "uint8",
            [3, 5],
            lambda p: p.wait_for_value(5, TIMEOUT),
            lambda x: x == 5,
            initial=5,
        ),
    )

    # An evaluator that looks at both the old and new value (edges).
    def edge(chooser, stats):
        async def main(loop):
            prim = create("uint8")
            timeline = Timeline(chooser, prim, [0, 1, 2], steps)

            def evaluator(old, new):
                return (
                    EvalResult.SUCCESS
                    if (old, new) == (1, 2)
                    else EvalResult.FAIL
                )

            start = loop.time()
            waiter = loop.create_task(evaluate(prim, evaluator, TIMEOUT))
            await asyncio.sleep(0)
            driver = loop.create_task(timeline.run())
            result = await waiter
            when = loop.time()
            await driver
            want, at = "TIMEOUT", start + TIMEOUT
            for stamp, old, new in timeline.log:
                if stamp >= start + TIMEOUT:
                    break
                if (old, new) == (1, 2):
                    want, at = "SUCCESS", stamp
                    break
                want = "FAIL"
            expect_eq(
                (result.name, when), (want, at), "edge", timeline.plan
            )
            expect_eq(observers(prim), 0, "observers left behind")
            stats.outcome(("edge", want, at, tuple(timeline.log)))
            stats.state(("edge", tuple(timeline.log)))
            stats.step(len(timeline.log))
            return want, at

        return run_loop(main)[1]

    check.add("edge", edge)

    # Scaled waits: the target is given in scaled units.
    def scaled(chooser, stats):
        kind = chooser.pick(["uint8", "int16", "double", "float"])
        scaling = chooser.pick([[1.0, 2.0], [10.0, -0.5], [-4.0, 0.25]])
        target = chooser.choose(5)
        how = chooser.pick(["value", "close"])
        order = chooser.pick(["up", "down", "scaled"])

        async def main(loop):
            prim = create(kind, scaling=scaling)
            prim.value = 9
            goal = scaling[0] + scaling[1] * target
            if how == "value":
                coro = prim.wait_for_value(goal, TIMEOUT)
            else:
                coro = prim.wait_for_isclose(goal, TIMEOUT)
            waiter = loop.create_task(coro)
            await asyncio.sleep(0)
            vals = list(range(6))
            if order == "down":
                vals = vals[::-1]
            at = None
            for val in vals:
                await asyncio.sleep(1.0)
                if order == "scaled":
                    prim.scaled = scaling[0] + scaling[1] * val
                else:
                    prim.value = val
                if val == target:
                    at = loop.time()
                    result = await waiter
                    break
                await asyncio.sleep(0)
                expect(not waiter.done(), "resolved too early", val, target)
            expect(result, "scaled wait failed", kind, scaling, target)
            expect_eq(loop.time(), at, "time")
            stats.outcome((kind, target, order, how))
            stats.step(len(vals))
            return at

        return run_loop(main)[1]

    check.add("scaled", scaled)

    # Several waits at once, one of them cancelled at some point.
    def concurrent(chooser, stats):
        targets = [chooser.pick([1, 2]) for _ in range(2)]
        limits = [chooser.pick([3.0, TIMEOUT]) for _ in range(2)]
        cancel = chooser.pick([None, 0.0, 2.0, 5.0])

        async def main(loop):
            prim = create("uint8")
            timeline = Timeline(chooser, prim, [0, 1, 2], 3)
            done_at = {}

            async def wait(idx):
                result = await prim.wait_for_value(targets[idx], limits[idx])
                done_at[idx] = loop.time()
                return result

            start = loop.time()
            tasks = [loop.create_task(wait(i)) for i in range(2)]
            victim = loop.create_task(prim.wait_for_value(2, TIMEOUT))
            await asyncio.sleep(0)
            driver = loop.create_task(timeline.run())
            if cancel is not None:
                if cancel:
                    await asyncio.sleep(cancel)
                early = victim.done()
                victim.cancel()
                try:
                    await victim
                    expect(early, "cancellation was swallowed")
                except asyncio.CancelledError:
                    pass
            results = [await x for x in tasks]
            if cancel is None:
                await victim
            await driver
            expect_eq(observers(prim), 0, "observers left behind")
            outcome = []
            for idx in range(2):
                want, at = expected(
                    0,
                    timeline.log,
                    lambda x, i=idx: x == targets[i],
                    start,
                    limits[idx],
                )
                expect_eq(
                    (results[idx].name, done_at[idx]),
                    (want, at),
                    "concurrent wait",
                    targets,
                    limits,
                    timeline.plan,
                )
                outcome.append((want, at))
            stats.outcome((tuple(outcome), cancel, tuple(timeline.log)))
            stats.state((tuple(targets), cancel, tuple(timeline.log)))
            stats.step(len(timeline.log))
            return outcome

        return run_loop(main)[1]

    check.add("concurrent", concurrent, split=2)

    # Sampling.
    def sampling(chooser, stats):
        count = chooser.pick([-1, 1, 2, 3])
        current = chooser.pick([True, False])
        slow = chooser.pick([0.0, "yield", 3.0, 12.0])
        stop_after = chooser.pick([None, 1])

        async def main(loop):
            clock = [0]
            prim = create("int16", time_source=lambda: clock[0])
            clock[0] = 5

            def stamped(val):
                clock[0] += 1
                prim.value = val

            class Stamped:
                """Adapter that time-stamps changes."""

                @property
                def value(self):
                    return prim.value

                @value.setter
                def value(self, val):
                    stamped(val)
                    stamps.append((prim.value, clock[0]))

            stamps: list = []
            first = (prim.value, prim.last_updated_ns)
            timeline = Timeline(
                chooser, Stamped(), [0, 1, 2], 4 if thorough else 3
            )
            got = []
            start = loop.time()
            ended = []
            work = []

            async def consume():
                gen = sample_for(prim, TIMEOUT, count=count, current=current)
                async for sample in gen:
                    got.append(sample)
                    if slow == "yield":
                        await asyncio.sleep(0)
                    elif slow:
                        await asyncio.sleep(slow)
                    work.append(loop.time())
                    if stop_after is not None and len(got) >= stop_after:
                        break
                await gen.aclose()
                ended.append(loop.time())

            task = loop.create_task(consume())
            # The first sample is only registered once the generator ran.
            await asyncio.sleep(0)
            driver = loop.create_task(timeline.run())
            await task
            await driver
            expect_eq(observers(prim), 0, "observers left behind")
            expect_eq(len(work), len(got), "consumer was interrupted")
            # The full list of samples.
            want = [first] if current else []
            idx = 0
            prev = first[0]
            log = list(timeline.log)
            for val, stamp in stamps:
                if val == prev:
                    continue
                prev = val
                when = log[idx][0]
                idx += 1
                if when < start + TIMEOUT:
                    want.append((val, stamp))
            if count > 0:
                want = want[:count]
            cut = want if stop_after is None else want[:stop_after]
            if slow == 12.0 and stop_after is None:
                # Samples taken while the consumer overslept the deadline.
                expect_eq(got, cut, "samples (slow)", timeline.plan)
            else:
                expect_eq(got, cut, "samples", timeline.plan, count)
            if stop_after is None and (count < 0 or len(want) < count):
                expect(
                    ended[0] >= start + TIMEOUT, "sampling ended early"
                )
            if not slow:
                expect(ended[0] <= start + TIMEOUT, "sampling ended late")
            stats.outcome((count, current, slow, tuple(got)))
            stats.state((count, current, tuple(timeline.log)))
            stats.step(len(got) + 1)
            return got

        return run_loop(main)[1]

    check.add("sampling", sampling, split=3)
    assert ref

    # Waiting for and sampling channels of environments.
    from runtimepy.channel.environment import ChannelEnvironment

    CHANNELS = {
        # name -> values, (value of a sample)
        "int": [0, 1, 2],
        "scaled": [0, 1, 2],
        "float": [0.0, 0.5, 2.0],
        "bool": [False, True],
        "kind": [0, 1, 2],
        "state": [False, True],
    }
    NAMES = {0: "zero", 1: "one", 2: "two"}
    STATES = {False: "off", True: "on"}

    def make_env():
        env = ChannelEnvironment()
        env.enum("Kind", "int", {y: x for x, y in NAMES.items()})
        env.enum("State", "bool", {y: x for x, y in STATES.items()})
        env.int_channel("int", "int16")
        env.int_channel("scaled", "uint8", scaling=[1.0, 2.0])
        env.float_channel("float", "double")
        env.bool_channel("bool")
        env.int_channel("kind", enum="Kind")
        env.bool_channel("state", enum="State")
        return env

    def by_channel(chooser, stats):
        name = chooser.pick(list(CHANNELS))
        initial = chooser.pick(CHANNELS[name], "initial")
        by_id = chooser.pick([False, True])
        ways = ["sample"]
        if name in ("int", "scaled", "float"):
            ways += [*OPS, "close"]
        elif name == "kind":
            ways += ["zero", "two", "missing", *OPS]
        elif name == "state":
            ways += ["off", "on", "missing", True]
        else:
            ways += [True, False]
        way = chooser.pick(ways)
        target = {"scaled": 3, "float": 0.5}.get(name, 1)
        count = chooser.pick([-1, 2]) if way == "sample" else -1
        current = chooser.pick([True, False]) if way == "sample" else True
        scale = name == "scaled" and chooser.pick([True, False])

        async def main(loop):
            env = make_env()
            ids = env.channels.names
            key = ids.identifier(name) if by_id else name
            prim = env[name][0].raw
            prim.value = initial

            def seen(raw):
                return 1.0 + 2.0 * raw if name == "scaled" else raw

            timeline = Timeline(chooser, prim, CHANNELS[name], 2)
            start = loop.time()
            got: list = []
            ended: list = []

            async def wait():
                if way == "close":
                    return await env.wait_for_numeric_isclose(
                        key, target + 0.2, TIMEOUT, abs_tol=0.3
                    )
                if way in OPS:
                    return await env.wait_for_numeric(
                        key, target, TIMEOUT, operation=Operator[way]
                    )
                if isinstance(way, bool):
                    return await env.wait_for_bool(key, way, TIMEOUT)
                if way != "sample":
                    return await env.wait_for_enum(key, way, TIMEOUT)
                kwargs = {"count": count, "current": current}
                if name in ("kind", "state"):
                    gen = env.sample_enum_for(key, TIMEOUT, **kwargs)
                elif name == "float":
                    gen = env.sample_float_for(key, TIMEOUT, **kwargs)
                elif name == "bool":
                    gen = env.sample_bool_for(key, TIMEOUT, **kwargs)
                else:
                    gen = env.sample_int_for(
                        key, TIMEOUT, scale=scale, **kwargs
                    )
                async for value, _ in gen:
                    got.append(value)
                return None

            async def run():
                try:
                    return await wait()
                finally:
                    ended.append(loop.time())

            waiter = loop.create_task(run())
            await asyncio.sleep(0)
            driver = loop.create_task(timeline.run())
            await asyncio.wait([waiter])
            left = observers(prim)
            await driver
            expect_eq(left, 0, "observers left behind")
            log = timeline.log
            stats.step(len(log))
            stats.outcome((name, way, tuple(log)))
            if way == "missing":
                expect(waiter.exception() is not None, "unknown name")
                return None
            if way == "sample":
                waiter.result()
                want = [initial] if current else []
                want += [y for x, _, y in log if x < start + TIMEOUT]
                if count > 0:
                    want = want[:count]
                if name == "kind":
                    want = [NAMES[x] for x in want]
                elif name == "state":
                    want = [STATES[x] for x in want]
                elif scale:
                    want = [seen(x) for x in want]
                expect_eq(got, want, "samples", timeline.plan)
                expect_eq(
                    [type(x) for x in got],
                    [type(x) for x in want],
                    "types of samples",
                )
                return want
            if way == "close":

                def good(val):
                    return abs(seen(val) - target - 0.2) <= 0.3

            elif way in OPS:

                def good(val):
                    return OPS[way](target, seen(val))

            elif isinstance(way, bool):

                def good(val):
                    return val == way

            elif name == "kind":

                def good(val):
                    return NAMES[val] == way

            else:

                def good(val):
                    return STATES[val] == way

            want, at = expected(initial, log, good, start, TIMEOUT)
            expect_eq(
                waiter.result().name, want, "result", name, timeline.plan
            )
            expect_eq(ended[0], at, "time of result", timeline.plan)
            return want

        return run_loop(main)[1]

    check.add("channels", by_channel, split=3)

    # Waiting for something of the wrong kind fails and has no effect.
    def wrong(chooser, stats):
        name = chooser.pick([*CHANNELS, "missing"])

        async def main(_):
            env = make_env()

            async def drain(gen):
                async for _ in gen:
                    pass

            calls = {
                "sample_int": lambda: drain(env.sample_int_for(name, 1.0)),
                "sample_float": lambda: drain(
                    env.sample_float_for(name, 1.0)
                ),
                "sample_bool": lambda: drain(env.sample_bool_for(name, 1.0)),
                "sample_enum": lambda: drain(env.sample_enum_for(name, 1.0)),
                "bool": lambda: env.wait_for_bool(name, True, 1.0),
                "enum": lambda: env.wait_for_enum(name, "one", 1.0),
                "numeric": lambda: env.wait_for_numeric(name, 1, 1.0),
            }
            valid = {
                "int": ["sample_int", "numeric"],
                "scaled": ["sample_int", "numeric"],
                "float": ["sample_float", "numeric"],
                "bool": ["sample_bool", "bool"],
                "kind": ["sample_int", "sample_enum", "enum", "numeric"],
                "state": ["sample_bool", "sample_enum", "bool"],
                "missing": [],
            }
            for label, call in calls.items():
                if label == "numeric" and name in ("bool", "state"):
                    continue
                try:
                    await call()
                    good = True
                except (KeyError, AssertionError):
                    good = False
                expect_eq(good, label in valid[name], "accepted", label)
                for other in CHANNELS:
                    expect_eq(
                        observers(env[other][0].raw), 0, "left behind"
                    )
                stats.step()
            stats.outcome(name)

        return run_loop(main)[1]

    check.add("wrong kinds", wrong)
    return check
