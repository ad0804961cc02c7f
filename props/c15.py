"""C15: commands do exactly what they say or fail without any effect."""

import asyncio
import itertools
import logging
import struct

from mc.core import Check, System, expect, expect_eq
from mc.vloop import run_loop

MODE = {"zero": 0, "one": 1, "Two": 2, "top": 7}
SWITCH = {"on": True, "off": False}

# name: (kind, commandable, scaling, enum)
CHANNELS: dict = {
    "b": ("bool", True, None, None),
    "b.locked": ("bool", False, None, None),
    "be": ("bool", True, None, SWITCH),
    "u8": ("uint8", True, None, None),
    "i16": ("int16", False, None, None),
    "i8s": ("int8", True, (1.0, 0.5), None),
    "e": ("uint8", True, None, MODE),
    "i64": ("int64", True, None, None),
    "f": ("float", True, None, None),
    "d.locked": ("double", False, None, None),
    "ds": ("double", True, (1.0, 0.5), None),
    "flag": ("field", True, 1, None),
    "flag.locked": ("field", False, 1, None),
    "fld": ("field", True, 3, None),
    "fe": ("field", True, 3, MODE),
}
INTS = {
    "int8": (-128, 127),
    "uint8": (0, 255),
    "int16": (-(2**15), 2**15 - 1),
    "int64": (-(2**63), 2**63 - 1),
}
VALUES = [
    "0",
    "1",
    "5",
    "-1",
    "7",
    "127",
    "256",
    "-129",
    "99999999999999999999",
    "0.5",
    "-0.25",
    ".5",
    "1e3",
    "-1e3",
    "-1e-05",
    "2.5E-3",
    "1e400",
    "inf",
    "-inf",
    "nan",
    "true",
    "false",
    "True",
    "on",
    "off",
    "one",
    "Two",
    "top",
    "junk",
    "1x",
    "--",
    "=",
]
FAIL = object()
ANY = object()


def f32(value: float) -> float:
    """Round to single precision."""
    try:
        return struct.unpack("f", struct.pack("f", value))[0]
    except OverflowError:
        return float("inf") if value > 0 else float("-inf")


def same(left, right) -> bool:
    """Compare values."""
    if isinstance(left, float) and isinstance(right, float):
        return left == right or (left != left and right != right)
    return type(left) is type(right) and left == right


def number(text: str, kind):
    """Parse a number."""
    try:
        return kind(text)
    except ValueError:
        return FAIL


def want_set(name: str, text: str):
    """The raw value that a channel has after setting it to some text."""
    kind, _, scaling, enum = CHANNELS[name]
    if kind == "bool":
        if enum is not None:
            if text in enum:
                return enum[text]
            return {"true": True, "false": False}.get(text.lower(), FAIL)
        return {"true": True, "false": False}.get(text.lower(), FAIL)
    if kind == "field":
        bits = scaling
        if enum is not None:
            if text in enum:
                return enum[text]
        value = number(text, int)
        if value is FAIL:
            low = text.lower()
            if low in ("true", "false"):
                # (Also works for fields that are wider.)
                return FAIL if enum is not None else (
                    (low == "true") if bits == 1 else ANY
                )
            return FAIL
        if not 0 <= value < 2**bits:
            return ANY
        if enum is not None and value not in enum.values():
            return FAIL
        return bool(value) if bits == 1 else value
    if enum is not None:
        if text in enum:
            return enum[text]
        value = number(text, int)
        return value if value in enum.values() else FAIL
    if kind in INTS:
        low, high = INTS[kind]
        if scaling is None:
            value = number(text, int)
        else:
            value = number(text, float)
            if value is FAIL or value != value:
                return FAIL
            if value in (float("inf"), float("-inf")):
                return ANY
            value = round((value - scaling[0]) / scaling[1])
        return value if value is FAIL else max(low, min(high, value))
    value = number(text, float)
    if value is FAIL:
        return FAIL
    if scaling is not None:
        value = (value - scaling[0]) / scaling[1]
    return f32(value) if kind == "float" else value


def want_toggle(name: str, raw):
    """The raw value after toggling."""
    kind, _, scaling, _ = CHANNELS[name]
    if kind == "bool":
        return not raw
    if kind == "field":
        return not raw if scaling == 1 else (~raw & (2**scaling - 1))
    return FAIL


def text_of(name: str, raw) -> str:
    """The text 'get' returns."""
    kind, _, scaling, enum = CHANNELS[name]
    if enum is not None:
        for key, value in enum.items():
            if value == raw:
                return key
        return str(raw)
    if kind != "field" and scaling is not None:
        return str(raw * scaling[1] + scaling[0])
    return str(raw)


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.channel.environment.command.processor import (
        ChannelCommandProcessor,
        RemoteCommandProcessor,
    )
    from runtimepy.message.handlers import (
        ChannelCommand,
        channel_env_handler,
    )
    from runtimepy.mixins.async_command import AsyncCommandProcessingMixin
    from runtimepy.primitives.field.fields import BitFields

    thorough = tier == "thorough"
    check = Check(
        "C15",
        tier,
        kind="model_checking",
        rule=(
            "every command for every kind of channel with every value and "
            "every placement of options; every sequence of tokens up to the "
            "length; all histories of commands up to the depth; all "
            "histories of queued commands"
        ),
        bounds={
            "tokens": 4,
            "commands": 4 if thorough else 3,
            "queued": 5 if thorough else 4,
        },
    )
    logger = logging.getLogger("mc")

    def make(kind=ChannelCommandProcessor, names=tuple(CHANNELS)):
        """Create a command processor."""
        env = ChannelEnvironment()
        env.enum("Mode", "int", dict(MODE))
        env.enum("Switch", "bool", dict(SWITCH))
        fields = None
        for name in names:
            what, commandable, scaling, enum = CHANNELS[name]
            opts: dict = {"commandable": commandable}
            if what == "field":
                if fields is None:
                    fields = BitFields.new()
                if enum is not None:
                    opts["enum"] = "Mode"
                if scaling == 1:
                    fields.flag(name, **opts)
                else:
                    fields.field(name, scaling, **opts)
                continue
            if enum is not None:
                opts["enum"] = "Mode" if enum is MODE else "Switch"
            if scaling is not None:
                opts["scaling"] = list(scaling)
            if what == "bool":
                env.bool_channel(name, **opts)
            elif what in INTS:
                env.int_channel(name, kind=what, **opts)
            else:
                env.float_channel(name, kind=what, **opts)
        if fields is not None:
            env.fields.add(fields)
        proc = kind(env, logger)
        calls: list = []
        proc.hooks.append(
            lambda args, chan: calls.append(
                (
                    str(args.command),
                    args.channel,
                    list(args.extra),
                    chan is not None and chan is env.field_or_channel(
                        args.channel
                    ),
                    chan is None,
                )
            )
        )
        return env, proc, calls

    def raws(env, names=tuple(CHANNELS)):
        """All raw values."""
        return {
            x: env.value(x, resolve_enum=False, scaled=False) for x in names
        }

    def run(env, proc, calls, model, argv, canonical=True, remote=False):
        """Run a command and compare with the model."""
        calls.clear()
        text = " ".join(argv)
        before = dict(model)
        result = proc.command(text)
        after = raws(env, tuple(model))
        where = (text, str(result))
        expect(isinstance(result.success, bool), "no result", where)

        # Interpret the command.
        options = {"-f": "f", "--force": "f", "-r": "r", "--remote": "r"}
        flags = set()
        words = []
        items = iter(argv)
        clear = True
        for item in items:
            if item in options:
                flags.add(options[item])
            elif item in ("-e", "--env"):
                next(items, None)
            elif item.startswith("--env="):
                pass
            elif item.startswith("-") and item != "-":
                # Numbers.
                if number(item, float) is FAIL:
                    clear = False
                words.append(item)
            else:
                words.append(item)

        # Without an effect?
        changed = {
            x: (before[x], after[x])
            for x in before
            if not same(before[x], after[x])
        }
        if not result.success:
            expect(not changed, "failed command had an effect", where, changed)
            expect(not calls, "failed command ran hooks", where, calls)

        if not clear or len(words) < 2 or words[0] not in (
            "set",
            "toggle",
            "get",
            "custom",
        ):
            if clear:
                expect(not result.success, "junk accepted", where)
            for name in model:
                model[name] = after[name]
            return result

        cmd, name = words[:2]
        local = name in model
        want = FAIL
        answer = None
        hooks = 0
        if "r" in flags or cmd == "custom" or remote:
            want = None
            hooks = 1
        elif cmd == "get":
            if local:
                want = None
                answer = text_of(name, before[name])
        elif local and (CHANNELS[name][1] or "f" in flags):
            if cmd == "toggle":
                want = want_toggle(name, before[name])
            elif len(words) > 2:
                want = want_set(name, words[2])
            hooks = 1
        if want is FAIL:
            expect(not result.success, "should have failed", where, changed)
        elif want is ANY:
            # (Not specified, other than what any command has to adhere to.)
            pass
        elif canonical:
            expect(result.success, "should have succeeded", where)
        if result.success:
            if want is None:
                expect(not changed, "unexpected effect", where, changed)
            else:
                for other in changed:
                    expect_eq(other, name, "changed another channel", where)
                if want is not ANY:
                    expect(
                        same(after[name], want),
                        "wrong value",
                        where,
                        after[name],
                        want,
                    )
            if answer is not None:
                expect_eq(result.reason, answer, "get", where)
            expect_eq(len(calls), hooks, "hooks", where, calls)
            for call in calls:
                expect_eq(call[:3], (cmd, name, words[2:]), "hook arguments")
                expect_eq(
                    call[3:],
                    (want is not None, want is None),
                    "hook channel",
                    where,
                )
        model.update(after)
        return result

    # Every command.
    def commands(chooser, stats):
        name = chooser.pick(list(CHANNELS) + ["nope", ""])
        cmd = chooser.pick(["set", "toggle", "get", "custom"])
        values = (
            [None] + VALUES if cmd == "set" else [None, "1", "junk"]
        )
        env, proc, calls = make()
        model = raws(env)
        kind = CHANNELS.get(name, [None])[0]
        starts = {
            "bool": ["false", "true"],
            "field": ["0", "1"],
        }.get(kind, ["0", "1"])
        for value in values:
            for force in ([], ["-f"], ["--force"], ["-r"], ["-f", "-e", "x"]):
                for place in (0, 1, 2):
                    argv = [cmd, name]
                    argv += [] if value is None else [value]
                    if place == 0:
                        argv = force + argv
                    elif place == 1:
                        argv = argv[:1] + force + argv[1:]
                    elif force[-1:] == ["x"]:
                        continue
                    else:
                        argv = argv + force
                    for start in starts:
                        if name in CHANNELS:
                            init = (
                                {"0": "zero", "1": "one"}.get(
                                    start, {"true": "on"}.get(start, "off")
                                )
                                if CHANNELS[name][3] is not None
                                else start
                            )
                            env.set(name, init)
                        model = raws(env)
                        run(
                            env,
                            proc,
                            calls,
                            model,
                            [x for x in argv if x],
                            canonical="--" not in argv,
                        )
                        stats.step()
                    if not force:
                        break
            stats.state((name, cmd, value))

    check.add("commands", commands, split=1)

    # The value that's read can be set again.
    def round_trip(chooser, stats):
        name = chooser.pick(list(CHANNELS))
        env, proc, calls = make()
        for value in VALUES:
            if want_set(name, value) in (FAIL, ANY):
                continue
            model = raws(env)
            run(env, proc, calls, model, ["set", "-f", name, value])
            first = env.value(name, scaled=False)
            got = proc.command(f"get {name}").reason
            if got in ("nan",):
                continue
            expect(
                proc.command(f"set -f {name} {got}").success,
                "couldn't set the value read",
                name,
                value,
                got,
            )
            expect(
                same(env.value(name, scaled=False), first),
                "round trip",
                name,
                value,
                got,
            )
            stats.step()
            stats.state((name, value))

    check.add("round-trip", round_trip, split=1)

    # Token sequences.
    TOKENS = [
        "set",
        "toggle",
        "get",
        "custom",
        "SET",
        "help",
        "-f",
        "--force",
        "-r",
        "-e",
        "--env=x",
        "--force=1",
        "--fo",
        "-fr",
        "--",
        "-",
        "-x",
        "-1",
        "b",
        "b.locked",
        "e",
        "fld",
        "nope",
        "1",
        "one",
        "%s",
        "@x",
        "=",
        "-e=",
    ]
    SMALL = ("b", "b.locked", "e", "fld")

    def tokens(chooser, stats):
        first = chooser.pick(TOKENS)
        second = chooser.pick(TOKENS)
        env, proc, calls = make(names=SMALL)
        model = raws(env, SMALL)
        for depth in (0, 1, 2):
            for rest in itertools.product(TOKENS, repeat=depth):
                argv = [first, second, *rest]
                run(env, proc, calls, model, argv, canonical=False)
                before = dict(model)
                # Suggestions.
                proc.get_suggestion(" ".join(argv))
                expect_eq(
                    raws(env, SMALL), before, "suggestions change nothing"
                )
                stats.step()
        stats.state((first, second))

    check.add("tokens", tokens, split=1)

    def nothing(chooser, stats):
        env, proc, calls = make(names=SMALL)
        for text in ("", " ", "\t\n", "\x00", "set", "help", "é", "-", "-f"):
            result = proc.command(text)
            expect(not result.success, "accepted", text)
            expect(proc.get_suggestion(text) is None, "suggested", text)
            stats.step()
        stats.state("nothing")

    check.add("nothing", nothing)

    # Histories: results of commands depend on earlier ones only through the
    # values of channels.
    HISTORY = [
        "toggle b",
        "toggle b.locked",
        "toggle b.locked -f",
        "set b true",
        "set e one",
        "set e nope",
        "toggle fld",
        "set -f fld 5",
        "set fld x",
        "get e",
        "get b.locked",
        "set -r b true",
        "custom b 1",
        "asdf",
        "-x",
        "set",
    ]

    class History(System):
        """Commands."""

        def __init__(self, kind=ChannelCommandProcessor):
            self.env, self.proc, self.calls = make(kind, SMALL)
            self.model = raws(self.env, SMALL)
            self.last = None
            self.remote = kind is RemoteCommandProcessor

        def ops(self):
            return HISTORY

        def apply(self, op):
            self.last = run(
                self.env,
                self.proc,
                self.calls,
                self.model,
                op.split(),
                remote=self.remote,
            )

        def check(self):
            pass

        def key(self):
            return str(self.model)

    check.add_histories(
        "histories",
        History,
        full_depth=4 if thorough else 3,
        dedup_depth=6,
    )
    check.add_histories(
        "remote-histories",
        lambda: History(RemoteCommandProcessor),
        full_depth=3 if thorough else 2,
        dedup_depth=3,
    )

    # Suggestions.
    def suggestions(chooser, stats):
        subset = [
            x
            for x in ("b", "b.locked", "be", "u8", "flagged")
            if chooser.pick([False, True])
        ]
        env = ChannelEnvironment()
        for name in subset:
            env.bool_channel(
                name, commandable=CHANNELS.get(name, [0, False])[1]
            )
        proc = ChannelCommandProcessor(env, logger)
        for cmd in ("set", "toggle", "get", "custom"):
            for text in ("b", "b.", "b.l", "be", "bee", "u", "f", "flagged"):
                got = proc.get_suggestion(f"{cmd} {text}")
                names = [x for x in subset if x.startswith(text)]
                good = [
                    x for x in names if CHANNELS.get(x, [0, False])[1]
                ] or names
                if not names:
                    expect_eq(got, None, "suggestion", cmd, text)
                else:
                    expect(
                        got in [f"{cmd} {x}" for x in good],
                        "suggestion",
                        got,
                        cmd,
                        text,
                        good,
                    )
                stats.step()
        stats.state(tuple(subset))

    check.add("suggestions", suggestions)

    # Queued commands.
    QUEUED = [
        "custom one a",
        "custom two",
        "custom nope",
        "set -r b true",
        "toggle b",
        "set e one",
        "set b junk",
        "get b",
        "process",
    ]

    class Handler(AsyncCommandProcessingMixin):
        """Handles commands."""

        def __init__(self, proc, log):
            self.log = log
            self.command = proc
            super().__init__(logger=logger)

            async def one(args, channel):
                await asyncio.sleep(0.01)
                log.append(("one", args.extra, channel))

            async def two(args, channel):
                log.append(("two", args.extra, channel))

            self._setup_async_commands(one)
            self._setup_async_commands(two)

        async def handle_command(self, args, channel):
            await asyncio.sleep(0.01)
            self.log.append((str(args.command), args.channel, channel))

    def queued(chooser, stats):
        plan = [chooser.pick(QUEUED) for _ in range(5 if thorough else 4)]
        env, proc, _ = make(names=SMALL)
        log: list = []
        want: list = []

        async def main(loop):
            handler = Handler(proc, log)
            pending = []
            for item in plan + ["process"]:
                if item == "process":
                    expect_eq(log, want, "handled early", plan)
                    await handler.process_command_queue()
                    want.extend(pending)
                    pending.clear()
                    expect_eq(log, want, "handled commands", plan)
                    continue
                proc.command(item)
                words = [x for x in item.split() if x != "-r"]
                if words[0] == "custom":
                    if words[1] != "nope":
                        pending.append((words[1], words[2:], None))
                elif words[0] != "get" and words[-1] != "junk":
                    pending.append(
                        (
                            words[0],
                            words[1],
                            None
                            if "-r" in item
                            else env.field_or_channel(words[1]),
                        )
                    )
            expect(handler.outgoing_commands.empty(), "left over")

        run_loop(main)
        stats.step(len(plan))
        stats.state(tuple(plan))

    check.add("queued", queued, split=1)

    # Commands in messages.
    def messages(chooser, stats):
        names = ["", "x", "default", "X"]
        there = [x for x in names if chooser.pick([False, True])]
        sets = {x: make(names=SMALL) for x in there}
        default = make(names=SMALL)
        handler = channel_env_handler(
            {x: y[1] for x, y in sets.items()}, default[1]
        )

        async def main(loop):
            for env_name in names:
                for text in ("toggle b", "set b maybe", "get b", "", "set e one"):
                    for request in (True, False):
                        everyone = {**sets, "default": default}
                        before = {
                            x: raws(y[0], SMALL) for x, y in everyone.items()
                        }
                        target = (
                            default
                            if env_name == "default"
                            else sets.get(env_name)
                        )
                        outbox: dict = {}
                        await handler(
                            outbox,
                            ChannelCommand(
                                data={
                                    "is_request": request,
                                    "environment": env_name,
                                    "command": text,
                                }
                            )
                            if False
                            else ChannelCommand.create(
                                {
                                    "is_request": request,
                                    "environment": env_name,
                                    "command": text,
                                }
                            ),
                        )
                        after = {
                            x: raws(y[0], SMALL) for x, y in everyone.items()
                        }
                        want = {x: dict(y) for x, y in before.items()}
                        okay = target is not None and text not in (
                            "",
                            "set b maybe",
                        )
                        if not request:
                            expect_eq(outbox, {}, "response to a response")
                        else:
                            expect_eq(outbox["is_request"], False, "response")
                            expect_eq(
                                outbox["success"], okay, "success", env_name
                            )
                            key = env_name
                            if okay and text == "toggle b":
                                want[key]["b"] = not want[key]["b"]
                            if okay and text == "set e one":
                                want[key]["e"] = 1
                            if okay and text == "get b":
                                expect_eq(
                                    outbox["reason"],
                                    str(before[key]["b"]),
                                    "reason",
                                )
                        expect_eq(after, want, "effects", env_name, text)
                        stats.step()

        run_loop(main)
        stats.state(tuple(there))

    check.add("messages", messages)

    return check
