"""C26: subprocess output and messages arrive; subprocesses always end."""

import asyncio
from io import BytesIO
import itertools
import random

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.channel.environment.command import clear_env
    from runtimepy.message import MessageProcessor
    from runtimepy.metrics.channel import ChannelMetrics
    from runtimepy.net.arbiter.info import RuntimeStruct
    from runtimepy.subprocess import spawn_exec, spawn_shell
    from runtimepy.subprocess.interface import RuntimepyPeerInterface
    from runtimepy.subprocess.peer import RuntimepyPeer
    from runtimepy.subprocess.program import PeerProgram

    thorough = tier == "thorough"
    depth = 6 if thorough else 5
    check = Check(
        "C26",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of process events (output, closed pipes, exit) "
            "up to the depth, split at every point between before, during and "
            "after the use of the process; every division of the bytes that "
            "peers exchange"
        ),
        bounds={"events": depth, "divisions": "one at every point, or all"},
    )

    class Recorder(asyncio.Queue):
        """A queue that remembers."""

        def __init__(self) -> None:
            super().__init__()
            self.seen: list = []

        def put_nowait(self, item) -> None:
            self.seen.append(item)
            super().put_nowait(item)

    EVENTS = ["out", "err", "end1", "end2", "exit"]

    def possible(events) -> bool:
        """Whether a sequence of events can happen."""
        closed = set()
        for event in events:
            if event in closed:
                return False
            if event == "out" and "end1" in closed:
                return False
            if event == "err" and "end2" in closed:
                return False
            if event.startswith("e") and event != "err":
                closed.add(event)
        return True

    def streams(chooser, stats):
        shell = chooser.pick([False, True])
        queues = chooser.pick([(1, 2), (1,), (2,), ()])
        on_eof = chooser.pick(
            ["exit", "output-exit", "slow-exit", "never", "late-output"]
        )
        first = chooser.pick(EVENTS)
        second = chooser.pick(EVENTS)
        fail = chooser.pick([False, True])

        async def main(loop):
            for rest in itertools.product(EVENTS, repeat=depth - 2):
                events = (first, second, *rest)
                if not possible(events):
                    continue
                for early, during in (
                    (0, depth),
                    (1, depth),
                    (2, depth),
                    (0, 2),
                    (2, 3),
                    (depth, depth),
                ):
                    await session(loop, events, early, during)

        async def session(loop, events, early, during):
            where = (shell, queues, on_eof, events, early, during)
            sent = {1: b"", 2: b""}
            count = [0]
            procs = []

            def happen(event):
                proc = procs[0]
                count[0] += 1
                if event in ("out", "err"):
                    fd = 1 if event == "out" else 2
                    if not proc.closing and fd not in proc.lost:
                        data = f"{event}{count[0]} ".encode()
                        sent[fd] += data
                        proc.emit(fd, data)
                elif event == "exit":
                    proc.exit(3)
                else:
                    proc.end(int(event[3:]))

            def eof():
                proc = procs[0]
                if on_eof == "exit":
                    loop.call_soon(happen, "exit")
                elif on_eof == "output-exit":
                    for event in ("out", "err", "end1", "exit"):
                        happen(event)
                elif on_eof == "slow-exit":
                    loop.call_later(1.5, proc.exit, 0)
                elif on_eof == "late-output":
                    for event in ("exit", "out", "err", "end2"):
                        happen(event)

            def on_spawn(proc):
                procs.append(proc)
                proc.on_eof = eof
                for event in events[:early]:
                    happen(event)

            loop.net.on_spawn = on_spawn
            out, err = Recorder(), Recorder()
            kwargs = {}
            if 1 in queues:
                kwargs["stdout"] = out
            if 2 in queues:
                kwargs["stderr"] = err

            class Failure(Exception):
                """An exception."""

            context = (
                spawn_shell("prog a", **kwargs)
                if shell
                else spawn_exec("prog", "a", **kwargs)
            )
            begin = loop.time()
            try:
                async with context as proto:
                    for event in events[early:during]:
                        happen(event)
                        await asyncio.sleep(0)
                    if procs[0].returncode is None:
                        proto.stdin.write(b"hello")
                        await asyncio.sleep(0)
                        expect_eq(procs[0].input, [b"hello"], "stdin")
                    else:
                        expect(proto.exited.is_set(), "exit not noticed")
                        expect(proto.elapsed_time >= 0, "elapsed")

                    # The rest happens while stopping.
                    for idx, event in enumerate(events[during:]):
                        loop.call_later(0.01 * idx, happen, event)
                    if fail:
                        raise Failure
                expect(not fail, "exception lost")
            except Failure:
                expect(fail, "exception")
            expect(loop.time() - begin < 10.0, "took too long", where)
            proc = procs[0]
            expect(proc.returncode is not None, "still running", where)
            expect(proto.exited.is_set(), "not exited", where)
            if "exit" in events[:during]:
                expect_eq(proc.returncode, 3, "code", where)
            if proc.killed:
                expect(
                    on_eof == "never" or "exit" in events[during:],
                    "killed",
                    where,
                )
            await asyncio.sleep(1.0)
            for fd, queue in ((1, out), (2, err)):
                if fd in queues:
                    expect_eq(b"".join(queue.seen), sent[fd], "data", where)
                    expect(b"" in queue.seen, "end", where)
                else:
                    expect_eq(queue.seen, [], "queue")
            expect_eq(loop.contexts, [], "exceptions", where)
            stats.step()
            stats.state(where)

        run_loop(main, max_steps=10**9)

    check.add("streams", streams, split=3, replay_every=0, limit_s=240.0)

    class Struct(RuntimeStruct):
        """A struct."""

        def init_env(self) -> None:
            self.env.int_channel("a", "uint8", commandable=True)
            self.env.int_channel("b", "int32", commandable=True)
            self.env.bool_channel("c", commandable=True)

        def poll(self) -> None:
            self.env.set("b", self.env.value("b") + 1)

    class Program(RuntimepyPeerInterface):
        """The other side."""

        struct_type = Struct
        proc = None
        chop = None

        def write(self, data: bytes, addr=None) -> None:
            del addr
            self.chop(1, data)

        async def poll_handler(self) -> None:
            self.struct.poll()

    class Peer(RuntimepyPeer):
        """This side."""

        struct_type = Struct

    class Stream:
        """Standard error."""

        def __init__(self, chop) -> None:
            self.chop = chop
            self.data = b""

        def write(self, data) -> int:
            self.data += bytes(data)
            return len(data)

        def flush(self) -> None:
            data, self.data = self.data, b""
            if data:
                self.chop(2, data)

    def peers(chooser, stats):
        mode = chooser.pick(["shell", "exec"])
        target = chooser.pick(["whole", "bytes", "out", "err", "in"])
        script = chooser.pick(
            [
                ("events", "command", "poll"),
                ("command", "config", "events"),
                ("poll", "events", "command"),
            ]
        )

        async def main(loop):
            cut = 0
            while True:
                cut += 1
                random.seed(1)
                total = await session(loop, cut)
                stats.step()
                if target in ("whole", "bytes") or cut > total + 1:
                    break
                if not thorough and cut > 40:
                    cut += 16

        async def session(loop, cut):
            clear_env()
            offset = {1: 0, 2: 0, 0: 0}
            name = {1: "out", 2: "err", 0: "in"}
            program = [None]
            tasks = []

            def split(fd, data):
                pieces = [data]
                if target == "bytes":
                    pieces = [bytes([x]) for x in data]
                elif target == name[fd]:
                    at = cut - offset[fd]
                    if 0 < at < len(data):
                        pieces = [data[:at], data[at:]]
                offset[fd] += len(data)
                return pieces

            def chop(fd, data):
                for idx, piece in enumerate(split(fd, data)):
                    pending[fd].append(piece)
                    if idx == 0:
                        wake[fd].set()

            pending = {1: [], 2: []}
            wake = {1: asyncio.Event(), 2: asyncio.Event()}

            async def pump(fd):
                while True:
                    await wake[fd].wait()
                    while pending[fd]:
                        piece = pending[fd].pop(0)
                        program[0].proc.emit(fd, piece)
                        # (Longer than a poll, when divided.)
                        if pending[fd]:
                            await asyncio.sleep(
                                0.0 if target == "bytes" else 0.02
                            )
                    wake[fd].clear()

            incoming: asyncio.Queue = asyncio.Queue()

            async def serve():
                while True:
                    data = await incoming.get()
                    for piece in split(0, data):
                        for msg in program[0].processor.messages(piece):
                            await program[0].process_json(msg)
                        await asyncio.sleep(0)

            def on_spawn(proc):
                program[0] = Program("prog", {})
                program[0].proc = proc
                program[0].chop = chop
                proc.on_input = incoming.put_nowait
                proc.on_eof = lambda: loop.call_soon(proc.exit, 0)
                tasks.append(loop.create_task(serve()))
                for fd in (1, 2):
                    tasks.append(loop.create_task(pump(fd)))

            loop.net.on_spawn = on_spawn
            context = (
                Peer.shell("test", {}, "prog")
                if mode == "shell"
                else Peer.exec("test", {}, "prog", "a")
            )
            where = (mode, target, cut)
            async with context as peer:
                child = program[0]
                expect(peer.peer is not None, "no environment", where)
                expect(child.peer is not None, "no environment", where)
                stream = Stream(chop)
                with child.struct.env.registered(stream, flush=True):
                    for idx, op in enumerate(script):
                        if op == "events":
                            for val in range(3):
                                child.struct.env.set("a", idx * 10 + val)
                                child.struct.env.set("c", val % 2 == 0)
                                child.struct.env.set("b", -val)
                        elif op == "poll":
                            peer.send_poll(0)
                        elif op == "config":
                            await peer.share_config({"config": {"x": 1}})
                            expect_eq(
                                child.peer_config, {"x": 1}, "config", where
                            )
                        else:
                            peer.peer.command(f"set a {100 + idx}")
                            await peer.process_command_queue()
                            expect_eq(
                                child.struct.env.value("a"),
                                100 + idx,
                                "command",
                                where,
                            )
                        await asyncio.sleep(0.5)
                        for chan in "abc":
                            expect_eq(
                                peer.peer.env.value(chan),
                                child.struct.env.value(chan),
                                f"channel {chan}",
                                (where, op, idx),
                            )
                    result = await peer.wait_json({"loopback": {"z": idx}})
                    expect_eq(
                        result["loopback"], {"z": idx}, "loopback", where
                    )

                # Metrics.
                await asyncio.sleep(0.1)
                expect_eq(
                    peer.stdout_metrics.bytes.value, offset[1], "stdout bytes"
                )
                expect_eq(
                    peer.stderr_metrics.bytes.value, offset[2], "stderr bytes"
                )
                expect_eq(
                    peer.stdin_metrics.bytes.value, offset[0], "stdin bytes"
                )
            expect(program[0].proc.returncode == 0, "exit", where)
            for task in tasks:
                expect(not task.done(), "program failed", task)
                task.cancel()
            expect_eq(loop.contexts, [], "exceptions", where)
            clear_env()
            return offset[{"out": 1, "err": 2}.get(target, 0)]

        run_loop(main, max_steps=10**9)
        stats.state((mode, target, script))

    check.add("peers", peers, split=3, limit_s=240.0)

    # The process goes away while it's used.
    def vanish(chooser, stats):
        when = chooser.choose(12)
        how = chooser.pick(["exit", "silent"])

        async def main(loop):
            clear_env()
            random.seed(1)
            program = [None]
            alive = [True]
            seen = [0]
            incoming: asyncio.Queue = asyncio.Queue()

            def chop(fd, data):
                if alive[0]:
                    program[0].proc.emit(fd, data)

            async def serve():
                while True:
                    data = await incoming.get()
                    seen[0] += 1
                    if seen[0] > when and alive[0]:
                        alive[0] = False
                        if how == "exit":
                            program[0].proc.exit(1)
                    if alive[0]:
                        for msg in program[0].processor.messages(data):
                            await program[0].process_json(msg)

            tasks = []

            def on_spawn(proc):
                program[0] = Program("prog", {})
                program[0].proc = proc
                program[0].chop = chop
                proc.on_input = incoming.put_nowait
                proc.on_eof = (
                    lambda: loop.call_soon(proc.exit, 0)
                    if how == "exit"
                    else None
                )
                tasks.append(loop.create_task(serve()))

            loop.net.on_spawn = on_spawn
            begin = loop.time()
            async with Peer.exec("test", {}, "prog") as peer:
                for idx in range(3):
                    try:
                        out = await peer.wait_json({"loopback": {"z": idx}})
                        expect_eq(out, {"loopback": {"z": idx}}, "loopback")
                    except AssertionError:
                        expect(not alive[0], "timed out", when)
            expect(loop.time() - begin < 30.0, "took too long")
            expect(program[0].proc.returncode is not None, "still running")
            for task in tasks:
                expect(not task.done(), "program failed", task)
                task.cancel()
            clear_env()

        run_loop(main, max_steps=10**7)
        stats.step()
        stats.state((when, how))

    check.add("vanish", vanish)

    # Output that nobody expects.
    MALFORMED = [
        {"config": {}},
        {"config": {"config": 5}},
        {"config": "text"},
        {"__log_messages__": [{}]},
        {"__log_messages__": [{"msg": ""}]},
        {"__log_messages__": [{"msg": "%d", "args": 5}]},
        {"__log_messages__": [{"msg": {"a": 1}, "level": "high"}]},
        {"__log_messages__": 5},
        {"meta": {"kind": []}},
        {"loopback": 5, "__id__": "x"},
        {"poll": {"loopback": "x"}},
        {"keys_ignored": ["a"]},
    ]
    STRAY = [b"\xff" * 20, b"Traceback (most recent call last):\n", b"\x00"]

    def stray(chooser, stats):
        plan = [
            chooser.pick(
                [
                    *MALFORMED,
                    *(STRAY if idx == 1 else []),
                ]
            )
            for idx in range(2)
        ]
        when = chooser.pick(["before", "after"])

        async def main(loop):
            clear_env()
            random.seed(1)
            program = [None]
            tasks = []
            incoming: asyncio.Queue = asyncio.Queue()

            def chop(fd, data):
                program[0].proc.emit(fd, data)

            async def serve():
                while True:
                    data = await incoming.get()
                    for msg in program[0].processor.messages(data):
                        await program[0].process_json(msg)

            def write(item):
                if isinstance(item, bytes):
                    program[0].proc.emit(2, item)
                else:
                    program[0].send_json(item)

            def on_spawn(proc):
                program[0] = Program("prog", {})
                program[0].proc = proc
                program[0].chop = chop
                proc.on_input = incoming.put_nowait
                proc.on_eof = lambda: loop.call_soon(proc.exit, 0)
                if when == "before":
                    for item in plan:
                        loop.call_soon(write, item)
                tasks.append(loop.create_task(serve()))

            loop.net.on_spawn = on_spawn
            async with Peer.exec("test", {}, "prog") as peer:
                expect(peer.peer is not None, "no environment", plan)
                if when == "after":
                    for idx, item in enumerate(plan):
                        write(item)
                        await asyncio.sleep(0.1)
                        out = await peer.wait_json({"loopback": {"z": idx}})
                        expect_eq(
                            out, {"loopback": {"z": idx}}, "loopback", plan
                        )
                out = await peer.wait_json({"loopback": {"z": 9}})
                expect_eq(out, {"loopback": {"z": 9}}, "loopback", plan)
                peer.peer.command("set a 77")
                await peer.process_command_queue()
                expect_eq(program[0].struct.env.value("a"), 77, "set", plan)
                expect_eq(peer.peer_config, None, "invalid config", plan)
                program[0].send_json({"config": {"config": {"y": 2}}})
                await asyncio.sleep(0.1)
                expect_eq(peer.peer_config, {"y": 2}, "config", plan)
                expect_eq(program[0].peer_config, {}, "config", plan)
            expect_eq(program[0].proc.returncode, 0, "exit", plan)
            for task in tasks:
                expect(not task.done(), "program failed", task)
                task.cancel()
            expect_eq(loop.contexts, [], "exceptions", plan)
            clear_env()

        run_loop(main, max_steps=10**7)
        stats.step()
        stats.state((str(plan), when))

    check.add("stray", stray, split=1)

    class Input:
        """Standard input of a program."""

        def __init__(self, data: bytes, gaps, null) -> None:
            self.data = data
            self.pos = 0
            self.gaps = set(gaps)
            self.null = null

        def fileno(self) -> int:
            return self.null.fileno()

        def read(self, size: int):
            """Read some data."""
            if self.pos in self.gaps:
                self.gaps.remove(self.pos)
                return None
            expect(size > 0, "read would block")
            data = self.data[self.pos : self.pos + size]
            for gap in sorted(self.gaps):
                if self.pos < gap < self.pos + size:
                    data = self.data[self.pos : gap]
                    break
            self.pos += len(data)
            return data

    class Output:
        """Standard output of a program."""

        def __init__(self) -> None:
            self.data = b""
            self.visible = b""

        def write(self, data) -> int:
            self.data += bytes(data)
            return len(data)

        def flush(self) -> None:
            self.visible += self.data
            self.data = b""

    class Standard(PeerProgram):
        """A program."""

        struct_type = Struct

    def programs(chooser, stats):
        count = chooser.choose(4)
        messages = [
            chooser.pick(
                [
                    {"loopback": {"k": 1}, "__id__": 7},
                    {"poll": {"loopback": 0}},
                    {"odd": 1, "__id__": 9},
                    {"config": {}, "__id__": 11},
                    {"config": {"config": [1]}, "__id__": 11},
                    {"__log_messages__": [{}, {"msg": 1, "level": "x"}, 5]},
                ]
            )
            for _ in range(count)
        ]
        partial = chooser.pick([b"", b"\x00", b"\x00\x00\x00\x05ab"])

        async def main(loop):
            with BytesIO() as stream:
                for message in messages:
                    MessageProcessor().encode_json(stream, message)
                data = stream.getvalue() + partial
            step = 1 if thorough else 3
            for gap in [None, *range(0, len(data) + 1, step)]:
                clear_env()
                random.seed(2)
                gaps = [] if gap is None else [gap]
                if gap == 0:
                    gaps = range(len(data) + 1)
                prog = Standard("prog", {})
                prog.json_output = Output()
                prog.stream_output = Output()
                prog.got_eof = asyncio.Event()
                prog.stream_metrics = ChannelMetrics()
                with open("/dev/null", "rb") as null:
                    await asyncio.wait_for(
                        prog.io_task(Input(data, gaps, null)), 60.0
                    )
                expect(prog.got_eof.is_set(), "end not noticed", messages)
                out = list(
                    MessageProcessor().messages(prog.json_output.visible)
                )
                for item in out:
                    item.pop("__log_messages__", None)
                want = []
                polls = 0
                for message in messages:
                    if "poll" in message:
                        polls += 1
                    elif "config" in message:
                        want.append({"__id__": 11})
                    elif "__log_messages__" in message:
                        pass
                    elif "odd" in message:
                        want.append({"keys_ignored": ["odd"], "__id__": 9})
                    else:
                        want.append(message)
                expect_eq(out, want, "responses", messages, gap)
                expect_eq(prog.struct.env.value("b"), polls, "polls")
                expect_eq(
                    prog.stdout_metrics.bytes.value,
                    len(prog.json_output.visible),
                    "stdout bytes",
                )
                expect_eq(
                    prog.stdin_metrics.bytes.value,
                    len(data) - len(partial),
                    "stdin bytes",
                )
                expect(
                    not prog.stream_output.visible, "unexpected telemetry"
                )

                # Streaming.
                with prog.streaming_events():
                    prog.struct.env.set("a", 99)
                    expect(prog.stream_output.visible, "not streamed")
                    expect_eq(
                        prog.stream_metrics.bytes.value,
                        len(prog.stream_output.visible),
                        "stream bytes",
                    )
                stats.step()
                clear_env()

        run_loop(main, max_steps=10**8)
        stats.state((messages, partial))

    check.add("programs", programs, split=2)
    return check
