"""C35: recorded sessions can be loaded and reproduce what happened."""

import json
import logging
from pathlib import Path
import re
import shutil
import tempfile

from mc.core import CLEANUPS, Check, expect, expect_eq


class Boom(Exception):
    """Raised by users of sessions."""


class Clock:
    """A controlled time source."""

    def __init__(self) -> None:
        self.now = 1000

    def __call__(self) -> int:
        self.now += 1
        return self.now


# Environment, channels (name, kind), fields (name, index, width).
ENVS = {
    "alpha": (
        [("a.flag", "bool"), ("a.count", "uint16")],
        [("f.low", 0, 3), ("f.bit", 7, 1), ("f.bit2", 6, 1)],
    ),
    "beta": (
        [("a.flag", "bool"), ("a.flag2", "bool"), ("b.real", "double")],
        [],
    ),
    "alphabet": ([("b.state", "int8")], [("f.bit", 2, 1)]),
}
WORDS = {"off": 0, "on": 1, "reverse": -1}

OPS = [
    ("alpha", "a.flag", True),
    ("alpha", "a.count", 65535),
    ("alpha", "a.count", 2),
    ("alpha", "f.low", 5),
    ("alpha", "f.bit", 1),
    ("beta", "a.flag", True),
    ("beta", "b.real", -0.5),
    ("alphabet", "b.state", -1),
    ("alphabet", "f.bit", 1),
]

# Environment pattern, exact.
ENV_CHOICES = [
    (".*", False),
    ("alpha", False),
    ("alpha", True),
    ("none", False),
    ("^b|bet$", False),
]
CHAN_CHOICES = [
    (".*", False),
    ("^a", False),
    ("f.bit", True),
    ("a.flag", True),
    ("b", False),
]
# How changes are made, whether text is logged, where events go.
WAYS = [
    ("set", False, None),
    ("set", True, "other.bin"),
    ("command", True, None),
    ("command", False, "other.bin"),
]


def chosen(names, pattern, exact):
    """A reference for name searches."""
    return [
        x
        for x in names
        if (x == pattern if exact else re.search(pattern, x) is not None)
    ]


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.channel.environment.command import GlobalEnvironment
    from runtimepy.channel.environment.command.processor import (
        ChannelCommandProcessor,
    )
    from runtimepy.primitives import create
    from runtimepy.primitives.field import BitField, BitFlag

    thorough = tier == "thorough"
    depth = 3 if thorough else 2
    check = Check(
        "C35",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of changes up to the length, in three "
            "environments, recorded with every selection of environments and "
            "channels, ended normally or by a failure after every prefix of "
            "the sequence; every point at which an event file can be cut off; "
            "every sequence of sessions in one or two folders"
        ),
        bounds={"changes": depth, "sessions": 3 if thorough else 2},
    )

    scratch = Path(tempfile.mkdtemp(prefix="c35-"))
    CLEANUPS.append(lambda: shutil.rmtree(scratch, ignore_errors=True))
    folders = iter(range(10**9))

    def folder() -> Path:
        """Get a new folder."""
        import os

        path = scratch.joinpath(f"{os.getpid()}-{next(folders)}")
        path.mkdir(parents=True)
        return path

    class World:
        """Environments and a reference for what happens in them."""

        def __init__(self, root: Path) -> None:
            self.clock = Clock()
            self.glob = GlobalEnvironment(root=root)
            self.raws = {}
            for name, (channels, fields) in ENVS.items():
                env = ChannelEnvironment()
                env.enum("words", "int", WORDS)
                for chan, kind in channels:
                    env.channel(
                        chan,
                        create(kind, time_source=self.clock),
                        enum="words" if chan == "b.state" else None,
                    )
                if fields:
                    raw = create("uint8", time_source=self.clock)
                    self.raws[name] = raw
                    for field, index, width in fields:
                        env.add_field(
                            BitFlag(field, raw, index)
                            if width == 1
                            else BitField(field, raw, index, width)
                        )
                env.finalize()
                self.glob.register(
                    name, ChannelCommandProcessor(env, logging.getLogger(name))
                )

        def env(self, name):
            return self.glob[name].env

        def prim(self, name, chan):
            """Get the primitive behind a channel or field."""
            if chan.startswith("f."):
                return self.raws[name]
            return self.env(name)[chan][0].raw

        def names(self, name):
            channels, fields = ENVS[name]
            return [x[0] for x in fields] + [x[0] for x in channels]

        def event(self, name, chan):
            """The event that describes something as it is."""
            prim = self.prim(name, chan)
            return (chan, prim.last_updated_ns, prim.value)

        def apply(self, op, recorded, want, way) -> None:
            """Change something."""
            name, chan, value = op
            prim = self.prim(name, chan)
            before = prim.value
            if way == "command":
                text = {True: "true", False: "false"}.get(value, value)
                if chan == "b.state":
                    text = {val: key for key, val in WORDS.items()}[value]
                # Fields and flags take their names or numbers.
                if isinstance(value, bool) or chan == "f.bit":
                    text = "true" if value else "false"
                outcome = self.glob[name].command(f"set -f {chan} {text}")
                expect(outcome.success, "command", op, outcome.reason)
            else:
                self.env(name).set(
                    chan, "reverse" if chan == "b.state" else value
                )
            if prim.value != before:
                for other in self.names(name):
                    if other not in recorded.get(name, []):
                        continue
                    if other == chan or (
                        other.startswith("f.") and chan.startswith("f.")
                    ):
                        want[name].append(self.event(name, other))

        def values(self, name):
            return {x: self.prim(name, x).value for x in self.names(name)}

    def handlers():
        return list(logging.getLogger().handlers)

    def canon(events, first):
        """Events, where order doesn't matter it's normalized."""
        return sorted(events[:first]) + sorted(
            events[first:], key=lambda x: (x[1], x[0])
        )

    def loaded(root, recorded, want, start, event_path, **kw):
        """Load a session and compare it with what happened."""
        again = GlobalEnvironment.from_root(root)
        expect_eq(sorted(again), sorted(recorded), "loaded environments")
        for name, chans in recorded.items():
            env = again[name].env
            for chan, value in start[name].items():
                have = (
                    env.fields[chan].raw.value
                    if chan.startswith("f.")
                    else env[chan][0].raw.value
                )
                expect_eq(have, value, "loaded value", name, chan)
            args = () if event_path is None else (event_path,)
            events = list(again.read_event_stream(name, *args))
            expect_eq(
                canon(
                    [(x.name, x.timestamp, x.value) for x in events],
                    len(chans),
                ),
                canon(want[name], len(chans)),
                "recorded events",
                name,
                kw,
            )
            for event in events:
                env.ingest(event)
            for chan in chans:
                have = (
                    env.fields[chan].raw.value
                    if chan.startswith("f.")
                    else env[chan][0].raw.value
                )
                expect_eq(have, kw["final"][name][chan], "final value", chan)
                last = [x.value for x in events if x.name == chan][-1]
                expect_eq(have, last, "last event", chan)
        return again

    def record(world, ops, way, options, text_log, event_path, fail):
        """Record a session and verify how it's described."""
        (env_pattern, env_exact), (pattern, exact) = options
        envs = chosen(ENVS, env_pattern, env_exact)
        recorded = {
            x: chosen(world.names(x), pattern, exact) for x in envs
        }
        start = {x: world.values(x) for x in envs}
        want = {x: [world.event(x, y) for y in recorded[x]] for x in envs}
        kwargs = {
            "env_pattern": env_pattern,
            "env_exact": env_exact,
            "channel_pattern": pattern,
            "channel_exact": exact,
            "text_log": text_log,
        }
        if event_path is not None:
            kwargs["event_path"] = event_path
        before = handlers()
        failed = False
        final = {}
        disabled = logging.root.manager.disable
        logging.disable(0)
        try:
            with world.glob.event_telemetry_output(**kwargs) as got:
                expect_eq(
                    sorted((x, sorted(y)) for x, y in got),
                    sorted((x, sorted(y)) for x, y in recorded.items()),
                    "recorded names",
                )
                for idx, op in enumerate(ops):
                    if fail == idx:
                        final = {x: world.values(x) for x in envs}
                        raise Boom
                    world.apply(op, recorded, want, way)
                    logging.getLogger("c35").critical("did %s", op)
                final = {x: world.values(x) for x in envs}
                if fail == len(ops):
                    raise Boom
        except Boom:
            failed = True
        finally:
            logging.disable(disabled)
        expect_eq(failed, fail is not None, "failures are passed on")
        expect_eq(handlers(), before, "log handlers")
        return recorded, start, want, final

    def sessions(chooser, stats):
        """Single sessions."""
        options = (
            chooser.pick(ENV_CHOICES[: 5 if thorough else 4]),
            chooser.pick(CHAN_CHOICES[: 5 if thorough else 4]),
        )
        way, text_log, event_path = chooser.pick(WAYS)
        ops = [chooser.pick(OPS) for _ in range(depth)]
        # Failing earlier is the same as failing after a shorter sequence.
        fail, early = chooser.pick(
            [(None, False), (None, True), (depth, True), (0, False), (1, True)]
        )
        root = folder()
        try:
            world = World(root)
            if early:
                world.apply(("alpha", "a.count", 3), {}, {}, "set")
                world.apply(("alpha", "f.low", 2), {}, {}, "set")
                world.apply(("alphabet", "b.state", 1), {}, {}, "set")
            recorded, start, want, final = record(
                world, ops, way, options, text_log, event_path, fail
            )
            # Nothing is recorded anymore, and loading doesn't depend on what
            # happens next.
            before = {
                str(x): x.read_bytes() for x in root.rglob("*") if x.is_file()
            }
            for op in OPS:
                world.apply(op, {}, {}, "set")
            world.apply(("alpha", "a.count", 7), {}, {}, "set")
            logging.getLogger("c35").critical("too late")
            expect_eq(
                {
                    str(x): x.read_bytes()
                    for x in root.rglob("*")
                    if x.is_file()
                },
                before,
                "files after the end of a session",
            )
            loaded(root, recorded, want, start, event_path, final=final)
            log = root.joinpath("log.txt")
            expect_eq(log.is_file(), text_log, "log file")
            if text_log:
                text = log.read_text()
                done = ops if fail is None else ops[:fail]
                expect_eq(
                    [x.split("did ")[1] for x in text.splitlines()
                     if "did " in x],
                    [str(x) for x in done],
                    "logged lines",
                )
        finally:
            shutil.rmtree(root, ignore_errors=True)
        stats.step(len(ops) + 1)
        stats.state((options, tuple(ops), fail, early))
        stats.outcome((options, way, text_log, event_path, tuple(ops), fail))

    check.add("sessions", sessions, split=3, limit_s=300, replay_every=997)

    def cut(chooser, stats):
        """Event files that end anywhere."""
        options = (
            (".*", False),
            chooser.pick([(".*", False), ("^a", False), ("f", False)]),
        )
        ops = [chooser.pick(OPS) for _ in range(2)]
        root = folder()
        try:
            world = World(root)
            recorded, start, want, _ = record(
                world, ops, "set", options, False, None, None
            )
            del start
            full = {
                x: root.joinpath(x, "event_stream.bin").read_bytes()
                for x in recorded
            }
            for name, data in full.items():
                path = root.joinpath(name, "event_stream.bin")
                sizes = {
                    x: 10 + world.prim(name, x).size
                    for x in world.names(name)
                }
                seen = 0
                for size in range(len(data) + 1):
                    path.write_bytes(data[:size])
                    again = GlobalEnvironment.from_root(root)
                    events = list(again.read_event_stream(name))
                    # Whole events, and only those.
                    total = sum(sizes[x.name] for x in events)
                    expect(total <= size, "invented events", name, size)
                    if len(events) < len(want[name]):
                        expect(
                            all(
                                total + sizes[x[0]] > size
                                for x in want[name][len(events):][:1]
                            )
                            or len(events) >= seen,
                            "missing events",
                        )
                    expect(len(events) >= seen, "fewer events", name, size)
                    seen = len(events)
                    if size == len(data):
                        expect_eq(seen, len(want[name]), "all events", name)
                        expect_eq(total, size, "all bytes", name)
                    expect(
                        total + max(sizes.values()) > size,
                        "whole events are missing",
                        name,
                        size,
                    )
                    stats.step()
                path.write_bytes(data)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        stats.state((options, tuple(ops)))
        stats.outcome((options, tuple(ops)))

    check.add("cut", cut, split=2, limit_s=200, replay_every=97)

    def several(chooser, stats):
        """Several sessions with the same environments."""
        count = 3 if thorough else 2
        root = folder()
        other = folder()
        try:
            world = World(root)
            kept: dict = {}
            for _ in range(count):
                where = chooser.pick([root, other])
                options = (
                    chooser.pick(ENV_CHOICES[:3]),
                    chooser.pick(CHAN_CHOICES[1:3]),
                )
                op = chooser.pick(OPS[1:7:2])
                fail = chooser.pick([None, 1])
                world.glob.root = where
                result = record(
                    world, [op], "set", options, True, None, fail
                )
                kept[where] = result
                world.apply(("alpha", "a.count", 9), {}, {}, "set")
            for where, (recorded, start, want, final) in kept.items():
                loaded(where, recorded, want, start, None, final=final)
                meta = json.loads(where.joinpath("meta.json").read_text())
                expect(
                    meta["end_ns"] >= meta["start_ns"], "duration", meta
                )
        finally:
            shutil.rmtree(root, ignore_errors=True)
            shutil.rmtree(other, ignore_errors=True)
        stats.step(count)
        stats.state(len(kept))
        stats.outcome(count)

    check.add("several", several, split=3, limit_s=300, replay_every=499)

    def registrations(chooser, stats):
        """Names of environments are used once, until they're cleared."""
        world = World(folder())
        try:
            other = ChannelCommandProcessor(
                ChannelEnvironment(), logging.getLogger("other")
            )
            have = dict(world.glob)
            for _ in range(4):
                op = chooser.pick(["same", "other", "new", "clear", "fresh"])
                failed = False
                if op == "clear":
                    world.glob.clear()
                    have = {}
                else:
                    name, proc = {
                        "same": ("alpha", have.get("alpha", other)),
                        "other": ("alpha", other),
                        "new": ("gamma", other),
                        "fresh": (
                            "beta",
                            ChannelCommandProcessor(
                                ChannelEnvironment(), logging.getLogger("x")
                            ),
                        ),
                    }[op]
                    conflict = name in have and have[name] is not proc
                    try:
                        world.glob.register(name, proc)
                    except AssertionError:
                        failed = True
                    expect_eq(failed, conflict, "rejected", op)
                    if not conflict:
                        have[name] = proc
                expect_eq(list(world.glob), list(have), "names")
                for name, proc in have.items():
                    expect(world.glob[name] is proc, "environment", name)
                stats.step()
                stats.state((op, tuple(have)))
        finally:
            shutil.rmtree(str(world.glob.root), ignore_errors=True)
        stats.outcome(tuple(have))

    check.add("registrations", registrations, replay_every=97)
    return check
