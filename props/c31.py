"""C31: housekeeping runs every queued command, whatever fails."""

import asyncio
from contextlib import AsyncExitStack
import logging

from mc.core import Check, expect, expect_eq
from mc.vloop import metrics_clock, run_loop


class Boom(Exception):
    """Raised by handlers."""


def build(tier: str) -> Check:
    """Build the check."""
    from vcorelib.io.markdown import MarkdownMixin

    import runtimepy.net.server.websocket  # noqa: F401 (must be first)
    from runtimepy.mixins.async_command import AsyncCommandProcessingMixin
    from runtimepy.net.arbiter.housekeeping import housekeeping
    from runtimepy.net.arbiter.info import AppInfo, RuntimeStruct
    from runtimepy.net.arbiter.task import ArbiterTask
    from runtimepy.net.manager import ConnectionManager
    from runtimepy.net.udp.connection import UdpConnection
    from runtimepy.primitives import Uint8

    thorough = tier == "thorough"
    depth = 4 if thorough else 3
    check = Check(
        "C31",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of commands (succeeding, failing, slow or "
            "unknown) for structs, tasks and connections, connection tasks "
            "(succeeding, failing, slow), lost connections and passing time "
            "up to the depth, at two phases of the housekeeping period"
        ),
        bounds={"depth": depth, "entities": 4},
    )

    MarkdownMixin.class_markdown_parts = classmethod(  # type: ignore
        lambda cls, _visited=None, **kwargs: iter(["documentation"])
    )

    class Commands(AsyncCommandProcessingMixin):
        """Records commands."""

        def setup_commands(self, log):
            self.log = log

            async def act(args, channel):
                """Run a command."""
                text = " ".join(args.extra)
                self.log.append((self.name, text))
                await self.behave(args.extra[0])
                self.log.append((self.name, text, "done"))

            self._setup_async_commands(act)

        async def behave(self, kind):
            if kind == "slow":
                await asyncio.sleep(0.35)
            elif kind == "raise":
                raise Boom("command")
            elif kind == "late":
                await asyncio.sleep(0.15)
                raise Boom("command")

        async def handle_command(self, args, channel):
            self.log.append(
                (self.name, args.command.value, *args.extra, channel is not None)
            )

    class Struct(Commands, RuntimeStruct):
        """A struct with commands."""

        def init_env(self):
            self.value = Uint8()
            self.env.channel("value", self.value, commandable=True)

    class Task(Commands, ArbiterTask):
        """A task with commands."""

        def _init_state(self):
            self.value = Uint8()
            self.env.channel("value", self.value, commandable=True)

        async def dispatch(self):
            return True

    class Conn(Commands, UdpConnection):
        """A connection with commands and tasks."""

        name = "conn"

        def init(self):
            self.value = Uint8()
            self.env.channel("value", self.value, commandable=True)

        async def process_datagram(self, data, addr):
            return True

        def work(self, kind, log):
            async def job():
                log.append(f"{kind} start")
                if kind != "ok":
                    await asyncio.sleep(0.25)
                if kind == "raise":
                    raise Boom("connection task")
                log.append(f"{kind} end")

            task = asyncio.get_running_loop().create_task(job())
            self._conn_tasks.append(task)
            return task

    KINDS = ["ok", "raise", "slow", "late"]
    OPS = [("command", x, y) for x in ("one", "task", "conn") for y in KINDS]
    OPS += [
        ("command", "two", "ok"),
        ("set", "one"),
        ("set", "conn"),
        ("unknown", "one"),
        ("job", "ok"),
        ("job", "raise"),
        ("job", "slow"),
        ("lose",),
        ("wait",),
    ]

    def run_ops(ops_list, length, phases):
        def run(chooser, stats):
            order: list = []
            phase = chooser.pick(phases)
            ops = [chooser.pick(ops_list) for _ in range(length)]

            async def main(loop):
                with metrics_clock(loop):
                    async with AsyncExitStack() as stack:
                        await session(loop, stack)

            async def session(loop, stack):
                log: list = []
                jobs: list = []
                manager = ConnectionManager()
                stop = asyncio.Event()
                managing = loop.create_task(manager.manage(stop))
                conn = await Conn.create_connection(
                    local_addr=("127.0.0.1", 9), remote_addr=("127.0.0.1", 7)
                )
                await manager.queue.put(conn)
                await asyncio.sleep(0.01)
                keeper = housekeeping(manager, period_s=0.1)
                entities = {
                    "one": Struct("one", {}),
                    "two": Struct("two", {}),
                    "task": Task("task"),
                    "conn": conn,
                }
                app = AppInfo(
                    logging.getLogger("mc.c31"),
                    stack,
                    {"conn": conn},
                    manager,
                    None,  # type: ignore
                    stop,
                    {"root": {}},
                    {},
                    None,  # type: ignore
                    {"task": entities["task"], keeper.name: keeper},
                    None,  # type: ignore
                    [],
                    {x: entities[x] for x in ("one", "two")},
                    {},
                )
                for name in ("one", "two"):
                    await entities[name].build(app)
                for item in (entities["task"], keeper):
                    await item.init(app)
                for item in [*entities.values(), keeper]:
                    if item is not conn:
                        item.env.finalize(strict=False)
                for item in entities.values():
                    item.setup_commands(log)
                task = loop.create_task(keeper.run(stop_sig=stop))
                await asyncio.sleep(phase)
                want: dict = {x: [] for x in entities}
                try:
                    for num, oper in enumerate(ops):
                        order.append(oper)
                        kind = oper[0]
                        if kind == "wait":
                            await asyncio.sleep(0.12)
                            continue
                        if kind == "lose":
                            conn.disable("lost")
                            await asyncio.sleep(0.02)
                            continue
                        if kind == "job":
                            if not conn.disabled:
                                jobs.append((oper[1], conn.work(oper[1], log)))
                            continue
                        name = oper[1]
                        item = entities[name]
                        if kind == "command":
                            text = f"{oper[2]} {num}"
                            result = item.command.command(
                                f"custom act {text}"
                            )
                            want[name].append((name, text))
                            if oper[2] in ("ok", "slow"):
                                want[name].append((name, text, "done"))
                        elif kind == "set":
                            result = item.command.command(
                                f"set value {num + 1}"
                            )
                            want[name].append(
                                (name, "set", str(num + 1), True)
                            )
                        else:
                            result = item.command.command("custom nope x")
                        expect(result, "command rejected", oper)
                        stats.step()
                    # Enough time for everything.
                    await asyncio.sleep(5.0)
                    expect(not task.done(), "housekeeping ended", ops)
                    got: dict = {x: [] for x in entities}
                    for item in log:
                        if isinstance(item, tuple):
                            got[item[0]].append(item)
                    for name, entries in want.items():
                        expect_eq(got[name], entries, "commands", name, ops)
                    lost = conn.disabled
                    for kind, job in jobs:
                        expect(job.done(), "connection task isn't done")
                        if not lost:
                            expect(not job.cancelled(), "task cancelled")
                    # It still works.
                    before = keeper.metrics.dispatches.value
                    log.clear()
                    # (Each iteration handles everything that's queued.)
                    lasts = [f"ok last {x}" for x in range(10)]
                    for name, item in entities.items():
                        for last in lasts:
                            item.command.command(f"custom act {last}")
                    await asyncio.sleep(0.5)
                    for name in entities:
                        expect_eq(
                            [x for x in log if x[0] == name],
                            [
                                x
                                for last in lasts
                                for x in ((name, last), (name, last, "done"))
                            ],
                            "later commands",
                            ops,
                        )
                    expect(
                        keeper.metrics.dispatches.value - before >= 3,
                        "housekeeping doesn't iterate",
                    )
                finally:
                    stop.set()
                    await asyncio.sleep(1.0)
                    done = task.done()
                    if not done:
                        task.cancel()
                    await asyncio.gather(
                        task, managing, return_exceptions=True
                    )
                expect(done, "housekeeping doesn't stop")
                stats.outcome((len(jobs), lost))
                stats.state((phase, [tuple(x) for x in ops]))

            return run_loop(main, max_steps=100000)[1]

        return run

    check.add("sequences", run_ops(OPS, depth, [0.005, 0.095]), split=2)

    # Longer ones, of fewer operations.
    few = [
        ("command", "one", "ok"),
        ("command", "one", "late"),
        ("command", "conn", "raise"),
        ("set", "one"),
        ("job", "raise"),
        ("lose",),
        ("wait",),
    ]
    check.add("long", run_ops(few, depth + 1, [0.005]), split=2)
    return check
