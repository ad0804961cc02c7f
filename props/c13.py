"""C13: event streams reproduce every change, however they're divided."""

import io
import itertools
import struct

from mc.core import Check, expect, expect_eq

CODES = {
    "bool": "?",
    "uint8": "B",
    "int16": "h",
    "uint32": "I",
    "int64": "q",
    "float": "f",
    "double": "d",
}


class Boom(Exception):
    """Raised by users of streams."""


class Clock:
    """A controlled time source."""

    def __init__(self) -> None:
        self.now = 1000

    def __call__(self) -> int:
        return self.now


def encode(ident: int, stamp: int, kind: str, value) -> bytes:
    """A reference encoding of an event."""
    return struct.pack(">HQ" + CODES[kind], ident, stamp, value)


class Stream(io.BytesIO):
    """A stream that counts flushes."""

    flushes = 0

    def flush(self) -> None:
        self.flushes += 1


# Name, kind, two values (raw).
CHANNELS = [
    ("a.flag", "bool", [True, False]),
    ("a.small", "uint8", [255, 1]),
    ("a.scaled", "int16", [-2, 300]),
    ("b.large", "int64", [-(2**63), 7]),
    ("b.real", "double", [0.1, -1e300]),
    ("b.enum", "uint8", [1, 9]),
    ("c.slow", "uint32", [2**32 - 1, 5]),
]
FIELDS = [("f.bit", 0, 1), ("f.low", 1, 3), ("f.high", 4, 4)]
PERIOD = 100


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.channel.registry import ParsedEvent
    from runtimepy.metrics.channel import ChannelMetrics
    from runtimepy.primitives import create
    from runtimepy.primitives.field import BitField, BitFlag

    thorough = tier == "thorough"
    check = Check(
        "C13",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of channel and field changes (and clock steps) "
            "up to the length with every kind of registration, ingested by a "
            "copy that was loaded from an export; every division of event "
            "streams with up to the number of cuts, with every point at which "
            "the consumer stops; every way of leaving registrations"
        ),
        bounds={
            "changes": 4 if thorough else 3,
            "cuts": 3 if thorough else 2,
        },
    )

    def make(clock):
        """An environment."""
        env = ChannelEnvironment()
        enum = env.enum("kind", "int", {"one": 1, "two": 2})
        for name, kind, _ in CHANNELS:
            prim = create(kind, time_source=clock)
            env.channel(
                name,
                prim,
                enum=enum if name == "b.enum" else None,
                scaling=[1.0, 0.5] if name == "a.scaled" else None,
                min_period_s=PERIOD / 1e9 if name == "c.slow" else None,
            )
        raw = create("uint8", time_source=clock)
        for name, index, width in FIELDS:
            if width == 1:
                env.add_field(BitFlag(name, raw, index))
            else:
                env.add_field(BitField(name, raw, index, width))
        env.finalize()
        return env, raw

    def raw_values(env):
        """Raw values of everything."""
        out = {name: env[name][0].raw.value for name, _, _ in CHANNELS}
        for name, _, _ in FIELDS:
            out[name] = env.fields[name]()
        return out

    KINDS = {name: kind for name, kind, _ in CHANNELS}
    REGISTER = {
        "all": (lambda env, out, **kw: env.registered(out, **kw), None),
        "a": (
            lambda env, out, **kw: env.registered(out, pattern="^a", **kw),
            "a",
        ),
        "one": (
            lambda env, out, **kw: env.registered(
                out, pattern="c.slow", exact=True, **kw
            ),
            "c.slow",
        ),
        "f": (
            lambda env, out, **kw: env.registered(out, pattern="f.l", **kw),
            "f.l",
        ),
    }

    def changes(chooser, stats):
        which = chooser.pick(list(REGISTER))
        count = 4 if thorough else 3
        register, prefix = REGISTER[which]
        clock = Clock()
        env, raw = make(clock)
        flush = which != "a"
        # Some history before events are streamed.
        early = chooser.pick([None, "a.small", "f.low", "c.slow"])
        if early == "f.low":
            env.set("f.low", 5)
        elif early:
            env.set(early, 3)
        copy = ChannelEnvironment.load_json(env.export_json())
        expect_eq(raw_values(copy), raw_values(env), "exported values")

        names = [
            x[0]
            for x in [*FIELDS, *CHANNELS]
            if prefix is None or x[0].startswith(prefix)
        ]
        metrics = ChannelMetrics()
        out = Stream()
        last: dict = {}
        want: list = []

        def emit(name, value, force=False):
            period = PERIOD if name == "c.slow" else 0
            if not force and clock.now - last[name] < period:
                return
            last[name] = clock.now
            want.append(
                (
                    env.channels.names.identifier(name),
                    name,
                    clock.now,
                    KINDS.get(name, "uint8"),
                    value,
                )
            )

        clock.now += 7
        with register(env, out, flush=flush, channel=metrics) as got:
            expect_eq(sorted(got), sorted(names), "registered names")
            start = []
            for name in names:
                prim = raw if name in dict((x[0], 1) for x in FIELDS) else (
                    env[name][0].raw
                )
                stamp = prim.last_updated_ns
                last[name] = stamp
                start.append(
                    encode(
                        env.channels.names.identifier(name),
                        stamp,
                        KINDS.get(name, "uint8"),
                        prim.value,
                    )
                )
            first = out.getvalue()
            # Initial events are in any order.
            found, view = [], first
            while view:
                ident = struct.unpack(">H", view[:2])[0]
                name = env.channels.names.name(ident)
                size = 10 + struct.calcsize(
                    ">" + CODES[KINDS.get(name, "uint8")]
                )
                found.append(view[:size])
                view = view[size:]
            expect_eq(sorted(found), sorted(start), "initial events")

            OPS = [
                (name, value)
                for name, _, values in CHANNELS
                for value in values
                if name in ("a.small", "a.scaled", "c.slow")
                or value == values[0]
            ] + [
                ("f.bit", 1),
                ("f.low", 5),
                ("f.high", 9),
                ("tick", 1),
                ("tick", PERIOD),
            ]
            history = []
            for _ in range(count):
                op = chooser.pick(OPS)
                history.append(op)
                name, value = op
                if name == "tick":
                    clock.now += value
                    continue
                if name.startswith("f."):
                    before = raw.value
                    env.set(name, value)
                    if raw.value != before:
                        for field, _, _ in FIELDS:
                            if field in names:
                                emit(field, raw.value, force=True)
                else:
                    prim = env[name][0].raw
                    before = prim.value
                    env.set(name, value, scaled=False)
                    expect_eq(prim.value, value, "value")
                    if before != value and name in names:
                        emit(name, value)
        final = raw_values(env)
        written = out.getvalue()
        # Nothing is emitted anymore.
        for name, _, values in CHANNELS:
            for value in values:
                env.set(name, value, scaled=False)
        env.set("f.low", 2)
        expect_eq(out.getvalue(), written, "emitted after the end")

        events = list(copy.parse_event_stream(io.BytesIO(written)))
        rest = events[len(start) :]
        # Events of several fields of one primitive may be in any order.
        expect_eq(
            sorted((x.timestamp, x.name, x.value) for x in rest),
            sorted((x[2], x[1], x[4]) for x in want),
            "events",
            history,
        )
        def ordered(items):
            return [
                x for x in items if not x[0].startswith("f.")
            ]
        expect_eq(
            ordered([(x.name, x.timestamp, x.value) for x in rest]),
            ordered([(x[1], x[2], x[4]) for x in want]),
            "order of events",
            history,
        )
        for event in events:
            copy.ingest(event)
        mirror = raw_values(copy)
        field_names = {x[0] for x in FIELDS}
        for name in names:
            if name == "c.slow":
                stale = [x[4] for x in want if x[1] == name]
                if stale:
                    expect_eq(mirror[name], stale[-1], "copy", name)
            else:
                expect_eq(mirror[name], final[name], "copy", name, history)
        for name in final:
            if name not in names and not (
                name in field_names and field_names & set(names)
            ):
                expect_eq(
                    copy.value(name, resolve_enum=False),
                    ChannelEnvironment.load_json(
                        copy.export_json()
                    ).value(name, resolve_enum=False),
                    "unrelated channel",
                )
        expect_eq(
            copy.value("a.scaled"),
            1.0 + mirror["a.scaled"] * 0.5,
            "scaled value",
        )
        expect_eq(metrics.messages.value, len(events), "messages")
        expect_eq(metrics.bytes.value, len(written), "bytes")
        if flush:
            expect(out.flushes >= len(events), "flushes")
        grouped = ParsedEvent.by_channel(events)
        expect_eq(
            {key: len(val) for key, val in grouped.items()},
            {
                key: len([x for x in events if x.name == key])
                for key in {x.name for x in events}
            },
            "by channel",
        )
        stats.step(count)
        stats.state((which, history, early))
        stats.outcome((which, flush, early, history))
        return written

    check.add("changes", changes, split=3, limit_s=300, replay_every=499)

    # Divided streams.
    EVENTS = [
        ("a.small", "uint8", 7),
        ("b.real", "double", -0.5),
        ("f.low", "uint8", 0x5A),
        ("a.flag", "bool", True),
        ("b.large", "int64", -1),
        ("b.enum", "uint8", 2),
    ]

    def streams(chooser, stats):
        plan = [chooser.pick(EVENTS) for _ in range(2)]
        clock = Clock()
        names = make(clock)[0].channels.names
        data = b"".join(
            encode(names.identifier(name), 5 + idx, kind, value)
            for idx, (name, kind, value) in enumerate(plan)
        )
        cuts = 3 if thorough else 2
        positions = range(1, len(data))
        divisions = [
            where
            for num in range(cuts + 1)
            for where in itertools.combinations(positions, num)
        ]
        if thorough:
            # (Three cuts with one of them in every position.)
            divisions = [
                x
                for x in divisions
                if len(x) < 3 or x[1] - x[0] <= 2 or x[2] - x[1] <= 2
            ]
        divisions.append(tuple(positions))
        want = [(x[0], 5 + i, x[2]) for i, x in enumerate(plan)]
        ends = list(
            itertools.accumulate(
                10 + struct.calcsize(">" + CODES[x[1]]) for x in plan
            )
        )
        env, _ = make(clock)
        for where in divisions:
            got = []
            total = 0
            for begin, end in zip((0, *where), (*where, len(data))):
                total = end
                got += [
                    (x.name, x.timestamp, x.value)
                    for x in env.parse_event_stream(
                        io.BytesIO(data[begin:end])
                    )
                ]
                expect_eq(
                    got,
                    want[: len([x for x in ends if x <= total])],
                    "events",
                    where,
                )
            stats.step(len(where) + 1)
        stats.state(tuple(plan))
        stats.outcome((plan, len(divisions)))

    check.add("streams", streams, split=2, limit_s=200, replay_every=97)

    def early(chooser, stats):
        """Consumers may stop (or fail) at any event."""
        plan = [chooser.pick(EVENTS) for _ in range(3)]
        env, _ = make(Clock())
        names = env.channels.names
        data = b"".join(
            encode(names.identifier(name), 5 + idx, kind, value)
            for idx, (name, kind, value) in enumerate(plan)
        )
        cut = chooser.pick([0, 1, 5, 10, 12, 20, len(data) - 1, len(data)])
        stops = [chooser.pick([1, 2, None]) for _ in range(2)]
        fail = chooser.pick([False, True])
        got: list = []

        def consume(chunk, most):
            gen = env.parse_event_stream(io.BytesIO(chunk))
            count = 0
            try:
                for event in gen:
                    got.append((event.name, event.timestamp, event.value))
                    count += 1
                    if count == most:
                        if fail:
                            gen.throw(Boom("consumer"))
                        break
            except Boom:
                pass
            gen.close()

        consume(data[:cut], stops[0])
        consume(data[cut:], stops[1])
        consume(b"", None)
        expect_eq(
            got,
            [(x[0], 5 + i, x[2]) for i, x in enumerate(plan)],
            "events",
            cut,
            stops,
        )
        stats.step(3)
        stats.outcome((plan, cut, stops, fail))

    check.add("early-stop", early, split=2, replay_every=499)

    # Registrations.
    def contexts(chooser, stats):
        """Leave registrations in every way."""
        clock = Clock()
        env, _ = make(clock)
        scope = chooser.pick(["env", "channels"])
        how = chooser.pick(["end", "raise", "conflict", "stream"])
        pattern = chooser.pick([".*", "^a", "b.real", "^f"])
        rounds = chooser.pick([1, 2])
        target = env if scope == "env" else env.channels

        class Broken(io.BytesIO):
            """Fails after some writes."""

            left = chooser.pick([0, 1, 2, 3, 5]) if how == "stream" else 10**9

            def write(self, data):
                self.left -= 1
                if self.left < 0:
                    raise Boom("stream")
                return super().write(data)

        for _ in range(rounds):
            out, other = Broken(), io.BytesIO()
            try:
                with target.registered(out, pattern=pattern):
                    if how == "raise":
                        raise Boom("user")
                    if how == "conflict":
                        # Streaming a channel to a second stream isn't
                        # supported, it mustn't disturb the first.
                        failed = False
                        try:
                            with env.registered(other):
                                pass
                        except AssertionError:
                            failed = True
                        size = len(other.getvalue())
                        before = len(out.getvalue())
                        value = not env.value("a.flag")
                        env.set("a.flag", value)
                        expect_eq(
                            len(other.getvalue()), size, "still streaming"
                        )
                        matched = pattern in (".*", "^a")
                        expect_eq(
                            len(out.getvalue()) - before,
                            11 if matched else 0,
                            "disturbed",
                        )
                        expect_eq(
                            failed,
                            pattern != "^f",
                            "conflict",
                        )
            except Boom:
                pass
            written = out.getvalue()
            Broken.left = 10**9
            out.left = 10**9
            clock.now += 1
            for name, _, values in CHANNELS:
                for value in values:
                    env.set(name, value, scaled=False)
                expect(
                    not env[name][0].raw.callbacks, "callbacks left", name
                )
            env.set("f.high", (env.value("f.high") + 1) % 16)
            expect(not env.fields["f.high"].raw.callbacks, "callbacks left")
            expect_eq(out.getvalue(), written, "still streaming", how)
            # Can be registered again.
            again = io.BytesIO()
            with env.registered(again) as names:
                expect_eq(len(names), len(CHANNELS) + len(FIELDS), "names")
                size = len(again.getvalue())
                env.set("a.small", 77)
                env.set("a.small", 78)
                expect_eq(len(again.getvalue()) - size, 22, "events")
            events = list(env.parse_event_stream(io.BytesIO(again.getvalue())))
            expect_eq(len(events), len(names) + 2, "events")
        stats.step(rounds)
        stats.state((scope, how, pattern))
        stats.outcome((scope, how, pattern, rounds))

    check.add("contexts", contexts)

    # Throttling.
    def throttle(chooser, stats):
        """Events of a channel are never closer than its minimum period."""
        clock = Clock()
        env, _ = make(clock)
        out = io.BytesIO()
        gaps = [
            chooser.pick([0, 1, PERIOD - 1, PERIOD, PERIOD + 1, 5 * PERIOD])
            for _ in range(5 if thorough else 4)
        ]
        stamps = []
        with env.registered(out, pattern="c.slow", exact=True):
            last = env["c.slow"][0].raw.last_updated_ns
            for idx, gap in enumerate(gaps):
                clock.now += gap
                env.set("c.slow", idx + 1)
                if clock.now - last >= PERIOD:
                    last = clock.now
                    stamps.append((clock.now, idx + 1))
        got = [
            (x.timestamp, x.value)
            for x in env.parse_event_stream(io.BytesIO(out.getvalue()))
        ]
        expect_eq(got[1:], stamps, "events", gaps)
        stats.step(len(gaps))
        stats.state(tuple(gaps))
        stats.outcome(gaps)

    check.add("throttle", throttle)
    return check
