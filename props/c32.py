"""C32: captured log lines are logged whole, once and in order."""

from contextlib import AsyncExitStack
import logging
import os
import tempfile

from mc.core import CLEANUPS, Check, expect, expect_eq
from mc.vloop import run_loop


class Memory(logging.Handler):
    """Keeps records."""

    def __init__(self) -> None:
        super().__init__(level=0)
        self.records: list = []

    def emit(self, record) -> None:
        self.records.append(record)


def build(tier: str) -> Check:
    """Build the check."""
    import shutil

    from vcorelib.io.markdown import MarkdownMixin
    from vcorelib.logging import ListLogger

    import runtimepy.net.server.websocket  # noqa: F401 (must be first)
    from runtimepy.mixins.logging import LogCaptureMixin
    from runtimepy.struct import RuntimeStructBase

    thorough = tier == "thorough"
    depth = 6 if thorough else 5
    levels = 4 if thorough else 3
    check = Check(
        "C32",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of appended text (parts of lines, blank lines, "
            "divided and invalid characters) and dispatches up to the depth "
            "for two files, of different and of the same level; every sequence of log-level commands and messages"
        ),
        bounds={"depth": depth, "files": 2, "level_depth": levels},
    )

    MarkdownMixin.class_markdown_parts = classmethod(  # type: ignore
        lambda cls, _visited=None, **kwargs: iter(["documentation"])
    )
    folder = tempfile.mkdtemp(prefix="mc-c32-")
    CLEANUPS.append(lambda: shutil.rmtree(folder, ignore_errors=True))

    class Capture(LogCaptureMixin):
        """Captures logs."""

        def __init__(self, logger) -> None:
            self.logger = logger

    def text_of(data: bytes) -> str:
        return data.decode("utf-8", errors="replace").rstrip()

    CHUNKS = [
        b"one\n",
        b"par",
        b"\n",
        b"  in \xe2\x82",
        b"\xac x \n",
        b"bad \xff %s\n",
        b"a\nb\nc",
        b"\r\n",
    ]

    def capture(safe, existing):
        def run(chooser, stats):
            ops: list = []
            path = os.path.join(folder, str(os.getpid()))
            os.makedirs(path, exist_ok=True)
            names = [os.path.join(path, x) for x in ("one.log", "two.log")]
            for name in names:
                with open(name, "wb") as handle:
                    handle.write(existing)

            async def main(loop):
                logger = logging.Logger("mc.c32", level=1)
                memory = Memory()
                listed = ListLogger.create()
                logger.addHandler(memory)
                logger.addHandler(listed)
                inst = Capture(logger)
                inst.safe_to_log = safe
                written = [b"", b""]
                seen = 0

                def check_lines():
                    nonlocal seen
                    records = [(x.levelno, x.getMessage()) for x in memory.records]
                    if not safe:
                        expect_eq(records, [], "must not be logged")
                        return
                    for idx, level in enumerate([logging.WARNING, 50]):
                        lines = written[idx].split(b"\n")[:-1]
                        want = [text_of(x) for x in lines]
                        want = [x for x in want if x]
                        got = [y for x, y in records if x == level]
                        expect_eq(got, want, "logged lines", idx, ops)
                    seen = len(records)

                async with AsyncExitStack() as stack:
                    await inst.init_log_capture(
                        stack,
                        [
                            ("warning", names[0]),
                            (50, names[1]),
                            ("error", os.path.join(path, "missing.log")),
                        ],
                    )
                    await inst.dispatch_log_capture()
                    check_lines()
                    for _ in range(depth):
                        oper = chooser.pick(["dispatch", "two", *CHUNKS])
                        ops.append(oper)
                        if oper == "dispatch":
                            await inst.dispatch_log_capture()
                            check_lines()
                        else:
                            idx = 0
                            data = oper
                            if oper == "two":
                                idx, data = 1, b"second\n"
                            with open(names[idx], "ab") as handle:
                                handle.write(data)
                            written[idx] += data
                        stats.step()
                    await inst.dispatch_log_capture()
                    check_lines()
                    # Everything's logged now.
                    await inst.dispatch_log_capture()
                    check_lines()
                    total = sum(
                        len([y for y in x.split(b"\n")[:-1] if text_of(y)])
                        for x in written
                    )
                    messages = listed.drain()
                    expect_eq(len(messages), total, "listed messages", ops)
                stats.state(tuple(written))
                stats.outcome(seen)

            return run_loop(main)[1]

        return run

    check.add("capture", capture(True, b""), split=2)
    check.add("capture not safe", capture(False, b"old\nlines\n"), split=2)
    if thorough:
        check.add("capture existing", capture(True, b"old\nlines\n"), split=2)

    def same_level(chooser, stats):
        ops: list = []
        path = os.path.join(folder, str(os.getpid()))
        os.makedirs(path, exist_ok=True)
        names = [os.path.join(path, x) for x in ("three.log", "four.log")]
        for name in names:
            with open(name, "wb"):
                pass
        first = chooser.pick(["warning", 30])

        async def main(loop):
            logger = logging.Logger("mc.c32", level=1)
            memory = Memory()
            logger.addHandler(memory)
            inst = Capture(logger)
            inst.safe_to_log = True
            written = [b"", b""]

            def check_lines():
                want = [
                    [y.decode() for y in x.split(b"\n")[:-1] if y]
                    for x in written
                ]
                got = [x.getMessage() for x in memory.records]
                for idx in range(2):
                    expect_eq(
                        [x for x in got if x.isupper() == bool(idx)],
                        want[idx],
                        "logged lines, same level",
                        idx,
                        ops,
                    )
                expect_eq({x.levelno for x in memory.records} - {30}, set(), "levels")

            async with AsyncExitStack() as stack:
                await inst.init_log_capture(
                    stack, [(first, names[0]), ("warning", names[1])]
                )
                for _ in range(depth):
                    oper = chooser.pick(
                        [None, b"a\n", b"b", b"\nc", b"A\n", b"B", b"\nC"]
                    )
                    ops.append(oper)
                    if oper is None:
                        await inst.dispatch_log_capture()
                        check_lines()
                    else:
                        idx = int(oper.isupper())
                        with open(names[idx], "ab") as handle:
                            handle.write(oper)
                        written[idx] += oper
                    stats.step()
                await inst.dispatch_log_capture()
                check_lines()
            stats.state(tuple(written))
            stats.outcome(len(memory.records))

        return run_loop(main)[1]

    check.add("capture same level", same_level, split=2)

    # Log levels.
    LEVELS = {
        "debug": 10,
        "info": 20,
        "warning": 30,
        "error": 40,
        "critical": 50,
    }

    def level(chooser, stats):
        ops = []
        logger_name = "mc.c32.level"
        logger = logging.getLogger(logger_name)
        memory = Memory()
        logger.addHandler(memory)
        disabled = logging.root.manager.disable
        logging.disable(0)
        propagate = logger.propagate
        logger.propagate = False
        try:
            item = RuntimeStructBase(logger_name, {})
            expect_eq(item.env.value("log_level"), "info", "initial level")
            current = 20
            for _ in range(levels):
                oper = chooser.pick(
                    [
                        *LEVELS,
                        "10",
                        "40",
                        "nope",
                        "set-api",
                        "log",
                    ]
                )
                ops.append(oper)
                if oper == "log":
                    pass
                elif oper == "set-api":
                    item.env.set("log_level", "error")
                    current = 40
                else:
                    result = item.command.command(f"set log_level {oper}")
                    good = oper in LEVELS or oper.isdigit()
                    expect_eq(bool(result), good, "command", oper)
                    if good:
                        current = LEVELS.get(oper) or int(oper)
                want = {y: x for x, y in LEVELS.items()}[current]
                expect_eq(item.env.value("log_level"), want, "level", ops)
                memory.records.clear()
                for name, value in LEVELS.items():
                    item.logger.log(value, name)
                expect_eq(
                    [x.getMessage() for x in memory.records],
                    [x for x, y in LEVELS.items() if y >= current],
                    "messages",
                    ops,
                )
                stats.step()
            stats.state(current)
            stats.outcome(current)
        finally:
            logging.disable(disabled)
            logger.removeHandler(memory)
            logger.propagate = propagate
            logger.setLevel(0)

    check.add("levels", level, split=1)
    return check
