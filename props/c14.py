"""C14: environments find, set, export and load every channel faithfully."""

import itertools
import json
from pathlib import Path
import shutil
import struct
import tempfile

from mc.core import CLEANUPS, Check, expect, expect_eq

CODES = {
    "bool": "?",
    "int8": "b",
    "uint8": "B",
    "int16": "h",
    "uint16": "H",
    "int32": "i",
    "uint32": "I",
    "int64": "q",
    "uint64": "Q",
    "float": "f",
    "double": "d",
}

# How channels are created: method, kind, options.
MENU: dict = {
    "bool": ("bool_channel", "bool", {"commandable": True}),
    "bool-generic": ("channel", "bool", {"default": True}),
    "bool-enum": ("bool_channel", "bool", {"enum": "switch"}),
    "uint8": ("int_channel", "uint8", {"description": "words: \u00e9"}),
    "int8-generic": ("channel", "int8", {"commandable": True}),
    "int64": ("int_channel", "int64", {"default": -(2**63)}),
    "uint64-controls": (
        "int_channel",
        "uint64",
        {"controls": "steps_1_1000", "commandable": True},
    ),
    "int16-scaled": ("int_channel", "int16", {"scaling": [10.0, 0.5]}),
    "enum": ("int_channel", "uint8", {"enum": "ns.Mode-2", "commandable": True}),
    "enum-generic": ("channel", "uint8", {"enum": "ns.Mode-2"}),
    "float": ("float_channel", "float", {"controls": "phase"}),
    "float-generic": ("channel", "float", {}),
    "double-scaled": (
        "float_channel",
        "double",
        {"scaling": [-1.0, 4.0], "default": 2.0},
    ),
    "primitive": ("int_channel", "prim", {}),
}
ENUMS = {
    "ns.Mode-2": ("int", {"zero": 0, "one": 1, "Two-2": 200}),
    "switch": ("bool", {"Off": False, "On": True}),
}


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.primitives import Uint32, create
    from runtimepy.primitives.field import BitField, BitFlag
    from runtimepy.ui.controls import normalize_controls

    thorough = tier == "thorough"
    check = Check(
        "C14",
        tier,
        kind="model_checking",
        rule=(
            "every sequence of channel creations up to the length with every "
            "naming, compared with a model before and after being exported "
            "and loaded; every kind of channel with every kind of value; "
            "every order of keys for arrays"
        ),
        bounds={"channels": 3, "array_keys": 4 if thorough else 3},
    )

    base = Path(tempfile.mkdtemp(prefix="mc-c14-"))
    CLEANUPS.append(lambda: shutil.rmtree(base, True))

    def blank():
        """An environment with enumerations."""
        env = ChannelEnvironment()
        for name, (kind, items) in ENUMS.items():
            env.enum(name, kind, dict(items))
        return env

    def kind_of(spec):
        return "uint32" if spec[1] == "prim" else spec[1]

    def compare(env, model, finalized, ordered=True):
        """Compare an environment with a model."""
        if not ordered:
            # (Files are sorted by name.)
            order = list(env.names)
            expect_eq(
                sorted(order), sorted(x["name"] for x in model), "names"
            )
            model = sorted(model, key=lambda x: order.index(x["name"]))
        expect_eq(list(env.names), [x["name"] for x in model], "names")
        expect_eq(env.finalized, finalized, "finalized")
        ids = [env.channels.names.identifier(x["name"]) for x in model]
        expect_eq(len(set(ids)), len(ids), "identifiers")
        values = env.values()
        raws = env.values(resolve_enum=False)
        want_values = {}
        for entry, ident in zip(model, ids):
            name = entry["name"]
            expect_eq(ident, entry.get("id", ident), "identifier", name)
            entry["id"] = ident
            for key in (name, ident):
                where = (name, key)
                expect(env.exists(key), "exists", where)
                if entry.get("field"):
                    expect(env.fields.has_field(key), "field", where)
                    expect(env.get(key) is None, "field isn't a channel")
                    found = env.field_or_channel(key)
                    expect(
                        found is not None and found.name == name, "found", name
                    )
                    expect_eq(env.value(key), entry["value"], "value", where)
                    expect_eq(
                        (found.width, found.index, found.description),
                        entry["shape"],
                        "shape",
                    )
                    continue
                chan, enum = env[key]
                spec = entry["spec"]
                opts = spec[2]
                kind = kind_of(spec)
                expect(env.get(key)[0] is chan, "get", where)
                expect(env.field_or_channel(key) is chan, "found", where)
                expect_eq(str(chan.type), kind, "type", where)
                expect_eq(chan.id, ident, "id", where)
                expect_eq(
                    chan.commandable,
                    opts.get("commandable", False),
                    "commandable",
                    where,
                )
                expect_eq(
                    chan.description, opts.get("description"), "description"
                )
                ctl = opts.get("controls")
                expect_eq(
                    chan.controls,
                    normalize_controls(ctl) if ctl else None,
                    "controls",
                )
                expect_eq(chan.default, entry["default"], "default", where)
                expect_eq(enum is not None, "enum" in opts, "enum", where)
                if enum is not None:
                    expect(enum is env.enums[opts["enum"]], "which enum")
                raw = entry["raw"]
                expect_eq(chan.raw.value, raw, "raw value", where)
                expect(type(chan.raw.value) is type(raw), "raw type", where)
                scaling = opts.get("scaling")
                scaled = (
                    scaling[0] + scaling[1] * raw if scaling else raw
                )
                expect_eq(env.value(key, scaled=False), entry_value(
                    entry, raw
                ), "value", where)
                expect_eq(
                    env.value(key),
                    entry_value(entry, scaled),
                    "scaled value",
                    where,
                )
                expect_eq(
                    env.value(key, resolve_enum=False), scaled, "unresolved"
                )
                # By type.
                for method, is_kind in (
                    ("get_bool", kind == "bool"),
                    ("get_int", "int" in kind),
                    ("get_float", kind in ("float", "double")),
                ):
                    try:
                        result = getattr(env, method)(key)
                        expect(is_kind, "wrong type", method, where)
                        expect(
                            (result[0] if method != "get_float" else result)
                            is chan,
                            "by type",
                        )
                    except KeyError:
                        expect(not is_kind, "not by type", method, where)
                expect(env.age_ns(key) >= 0, "age")
            if entry.get("field"):
                want_values[name] = entry["value"]
            else:
                scaling = entry["spec"][2].get("scaling")
                raw = entry["raw"]
                scaled = scaling[0] + scaling[1] * raw if scaling else raw
                want_values[name] = entry_value(entry, scaled)
                expect_eq(raws[name], scaled, "unresolved values")
        expect_eq(values, want_values, "values")
        expect_eq(
            env.num_defaults,
            len([x for x in model if x.get("default") is not None]),
            "defaults",
        )
        for missing in ("nope", 0, 999, "a", ""):
            if missing not in [x["name"] for x in model]:
                expect(not env.exists(missing), "exists", missing)
                expect(env.get(missing) is None, "get", missing)
        for pattern in (".", "^a", "b$", "x1"):
            import re

            expect_eq(
                list(env.search_names(pattern)),
                [
                    x["name"]
                    for x in model
                    if re.search(pattern, x["name"])
                ],
                "search",
                pattern,
            )

    def entry_value(entry, value):
        """Resolve enumerations."""
        enum = entry["spec"][2].get("enum")
        if enum:
            for name, item in ENUMS[enum][1].items():
                if item == value:
                    return name
        return value

    def default_of(spec):
        opts = spec[2]
        if "default" in opts:
            return opts["default"]
        ctl = opts.get("controls")
        if ctl:
            return normalize_controls(ctl).get("default")
        return None

    def add(env, model, what, name, pushed):
        """Create a channel."""
        spec = MENU[what]
        method, kind, opts = spec
        opts = dict(opts)
        if "enum" in opts and what.endswith("generic"):
            opts["enum"] = env.enums[opts["enum"]]
        if kind == "prim":
            kind = Uint32(value=77)
        with env.names_pushed(*pushed):
            result = getattr(env, method)(name, kind, **opts)
        full = ".".join([*pushed, name])
        chan = result if method == "float_channel" else result[0]
        expect(env[full][0] is chan, "result", full)
        default = default_of(spec)
        kind = kind_of(spec)
        raw = {"bool": False, "float": 0.0, "double": 0.0}.get(kind, 0)
        if spec[1] == "prim":
            raw = 77
        if default is not None:
            raw = float(default) if isinstance(raw, float) else default
        model.append(
            {"name": full, "spec": spec, "raw": raw, "default": default}
        )

    FIELDS = {
        "fields8": ("uint8", [("x1", 0, 1), ("x2", 4, 3)]),
        "fields16": ("uint16", [("y-1", 3, 9)]),
    }

    def add_fields(env, model, what, pushed):
        """Create bit fields (they're visible after finalizing)."""
        kind, fields = FIELDS[what]
        raw = create(kind)
        out = []
        for name, index, width in fields:
            with env.names_pushed(*pushed):
                full = env.namespace(name=name)
                if width == 1:
                    field = BitFlag(full, raw, index, description="flag")
                else:
                    field = BitField(full, raw, index, width)
                expect_eq(env.add_field(field), env.namespace(name=full), "n")
            out.append(
                {
                    "name": full,
                    "field": field,
                    "default": None,
                    "value": False if width == 1 else 0,
                    "shape": (width, index, "flag" if width == 1 else None),
                }
            )
        return out

    NAMES = ["a", "B.b_1", "0-x1"]
    PUSHED = [(), ("ns",), ("ns", "Inner")]

    def exported(env, model, where):
        """Export an environment and load it in every way."""
        data = env.export_json()
        text = json.dumps(data)
        expect_eq(
            json.loads(json.dumps(env.export_json())),
            json.loads(text),
            "second export",
        )
        copies = [ChannelEnvironment.load_json(json.loads(text))]
        copies.append(
            ChannelEnvironment.load_json(env.export_json(resolve_enum=False))
        )
        path = base.joinpath(where)
        for resolve in (False, True):
            env.export_directory(path, resolve_enum=resolve)
            copies.append(ChannelEnvironment.load_directory(path))
        shutil.rmtree(path)
        for idx, copy in enumerate(copies):
            compare(copy, model, True, ordered=idx < 2)
            expect(copy == env, "loaded environment differs")
            expect_eq(
                json.dumps(copy.export_json(), sort_keys=True),
                json.dumps(data, sort_keys=True),
                "export of a loaded environment",
            )
            # They're independent.
            for entry in model:
                if not entry.get("field"):
                    mine = env[entry["name"]][0].raw
                    expect(copy[entry["name"]][0].raw is not mine, "shared")
        return copies

    def create_all(chooser, stats):
        count = 3
        plan = []
        env = blank()
        model: list = []
        fields: list = []
        chosen = [*MENU, *FIELDS]
        for idx in range(count):
            what = chooser.pick(chosen)
            if what in FIELDS:
                fields += add_fields(env, model, what, PUSHED[idx % 3])
            else:
                add(env, model, what, NAMES[idx], PUSHED[(idx + 1) % 3])
            plan.append(what)
        if thorough:
            what = chooser.pick([None, *FIELDS])
            if what:
                fields += add_fields(env, model, what, ("fourth",))
                plan.append(what)
        compare(env, model, False)
        # Duplicate names are rejected.
        for entry in list(model):
            for method in ("channel", "int_channel"):
                try:
                    getattr(env, method)(entry["name"], "uint8")
                    rejected = False
                except AssertionError:
                    rejected = True
                expect(rejected, "duplicate name", entry["name"])
        for bad in ("sp ace", "a/b", "", "\u00e9"):
            try:
                env.int_channel(bad, "uint8")
                rejected = False
            except AssertionError:
                rejected = True
            expect(rejected, "invalid name", bad)
        compare(env, model, False)
        env.finalize()
        model += fields
        compare(env, model, True)
        try:
            env.int_channel("late", "uint8")
            rejected = False
        except AssertionError:
            rejected = True
        expect(rejected, "created after finalization")
        for method in (env.finalize,):
            try:
                method()
                rejected = False
            except AssertionError:
                rejected = True
            expect(rejected, "finalized twice")
        compare(env, model, True)
        # Change some values.
        for entry in model:
            if entry.get("field"):
                width = entry["shape"][0]
                value = True if width == 1 else 2**width - 2
                env.set(entry["name"], value)
                entry["value"] = value
            else:
                kind = kind_of(entry["spec"])
                value = {
                    "bool": True,
                    "float": -2.5,
                    "double": 1e300,
                    "uint64": 2**64 - 1,
                    "int64": 2**63 - 1,
                    "uint8": 200,
                    "int8": -128,
                    "int16": -32768,
                    "uint32": 2**32 - 1,
                }[kind]
                env.set(entry["name"], value, scaled=False)
                entry["raw"] = value
        compare(env, model, True)
        where = "-".join([*plan, "x"])
        copies = exported(env, model, where)
        # Defaults may change, environments don't affect each other.
        copy = copies[-1]
        for entry in model:
            if not entry.get("field") and "int" in kind_of(entry["spec"]):
                copy.set_default(entry["name"], 1)
                copy.set(entry["name"], 3, scaled=False)
        compare(env, model, True)
        compare(copies[0], model, True)
        stats.step(count + 8)
        stats.state(tuple(plan))
        stats.outcome(plan)

    check.add("create", create_all, split=2, limit_s=300, replay_every=97)

    # Setting values.
    VALUES = [
        True,
        False,
        0,
        1,
        5,
        200,
        2.5,
        -1.0,
        "0",
        "1",
        "5",
        "-3",
        "2.5",
        "true",
        "False",
        "On",
        "one",
        "Two-2",
        "200",
        "junk",
        "",
        "1e3",
    ]

    def resolve(spec, value):
        """(accepted, raw value)."""
        kind, opts = kind_of(spec), spec[2]
        scaling = opts.get("scaling")
        enum = opts.get("enum")
        if isinstance(value, str):
            if enum:
                items = ENUMS[enum][1]
                if value in items:
                    value = items[value]
                elif enum == "switch":
                    if value.lower() not in ("true", "false"):
                        return False, None
                    value = value.lower() == "true"
                else:
                    try:
                        if int(value) not in items.values():
                            return False, None
                        value = int(value)
                    except ValueError:
                        return False, None
            elif kind == "bool":
                if value.lower() not in ("true", "false"):
                    return False, None
                value = value.lower() == "true"
            else:
                try:
                    value = (
                        int(value)
                        if "int" in kind and not scaling
                        else float(value)
                    )
                except ValueError:
                    return False, None
        return True, value

    def setting(chooser, stats):
        what = chooser.pick(list(MENU))
        spec = MENU[what]
        kind = kind_of(spec)
        value = chooser.pick(VALUES)
        by_id = chooser.pick([False, True])
        how = chooser.pick(["set", "item", "apply", "init"])
        scaled = chooser.pick([True, False]) if how == "set" else True
        env = blank()
        model: list = []
        add(env, model, "uint8", "before", ())
        add(env, model, what, "x", ())
        add(env, model, "float", "after", ())
        entry = model[1]
        compare(env, model, False)
        key = entry["id"] if by_id else "x"
        okay, want = resolve(spec, value)
        if okay:
            if spec[2].get("scaling") and scaled:
                scaling = spec[2]["scaling"]
                want = (want - scaling[0]) / scaling[1]
                if "int" in kind:
                    want = round(want)
            # Types that don't apply aren't judged.
            if "int" in kind and isinstance(want, float):
                return None
            if kind == "bool" and not isinstance(want, bool):
                return None
            if kind != "bool" and isinstance(want, bool):
                want = int(want)
            if kind in ("float", "double"):
                want = float(want)
            if "int" in kind:
                bits = int(kind.strip("uint"))
                lo = 0 if kind.startswith("u") else -(2 ** (bits - 1))
                if not lo <= want < lo + 2**bits:
                    return None
        before = env.export_json(resolve_enum=False) if how == "init" else None
        try:
            if how == "set":
                env.set(key, value, scaled=scaled)
            elif how == "item":
                env[key] = value
            elif how == "apply":
                env.apply({key: value})
            else:
                before["values"] = {key: value}
                for item in model:
                    if item["name"] != "x":
                        before["values"][item["name"]] = env.value(
                            item["name"]
                        )
                env = ChannelEnvironment.load_json(before)
            accepted = True
        except (ValueError, KeyError):
            accepted = False
        expect_eq(accepted, okay, "accepted", what, value)
        if accepted:
            entry["raw"] = want
        compare(env, model, how == "init" and accepted or env.finalized)
        # Unknown keys are rejected.
        for bad in ("nope", 99):
            try:
                env.set(bad, value)
                rejected = False
            except KeyError:
                rejected = True
            expect(rejected, "unknown key", bad)
        # Integers can be added to.
        if "int" in kind and okay and want + 1 < 2**7:
            expect_eq(env.add_int(key, 1), want + 1, "added")
            entry["raw"] = want + 1
        compare(env, model, env.finalized)
        stats.step(2)
        stats.state((what, str(value), scaled))
        stats.outcome((what, str(value), by_id, how, scaled))
        return okay

    check.add("setting", setting, split=2)

    # Arrays.
    def arrays(chooser, stats):
        env = blank()
        model: list = []
        add(env, model, "uint8", "p", ())
        add(env, model, "double-scaled", "q", ())
        add(env, model, "bool", "r", ())
        fields = add_fields(env, model, "fields8", ())
        fields += add_fields(env, model, "fields16", ())
        env.finalize()
        model += fields
        env.set("p", 7)
        env.set("q", 3.0, scaled=False)
        env.set("r", True)
        env.set("x1", True)
        env.set("x2", 5)
        env.set("y-1", 0x101)
        chunks = {
            "p": b"\x07",
            "q": struct.pack(">d", 3.0),
            "r": b"\x01",
            8: bytes([0x51]),
            16: struct.pack(">H", 0x101 << 3),
        }
        group = {"x1": 8, "x2": 8, "y-1": 16}
        keys = [
            chooser.pick(["p", "q", "r", "x1", "x2", "y-1", "nope"])
            for _ in range(chooser.pick(range(5 if thorough else 4)))
        ]
        use_ids = chooser.pick([False, True])
        # Reference.
        okay = "nope" not in keys and len(set(keys)) == len(keys)
        out, prev, seen = b"", None, set()
        if okay:
            for key in keys:
                unit = group.get(key, key)
                if unit != prev:
                    okay = okay and unit not in seen
                    out += chunks[unit]
                    seen.add(unit)
                prev = unit
        try:
            array = env.array(
                [
                    (
                        env.channels.names.identifier(x)
                        if use_ids and x != "nope"
                        else x
                    )
                    for x in keys
                ]
            )
            accepted = True
        except AssertionError:
            accepted = False
        expect_eq(accepted, okay, "accepted", keys)
        compare(env, [
            {**x, **({"raw": {"p": 7, "q": 3.0, "r": True}[x["name"]]}
                     if not x.get("field") else
                     {"value": {"x1": True, "x2": 5, "y-1": 0x101}[x["name"]]})}
            for x in model
        ], True)
        if accepted:
            expect_eq(array.names, keys, "names")
            expect_eq(bytes(array.array), out, "bytes", keys)
            expect_eq(array.array.size, len(out), "size")
            # Changes go in both directions.
            if "p" in keys:
                env.set("p", 9)
                expect_eq(bytes(array.array), bytes(array.array), "bytes")
                array.array.update(bytes(len(out)))
                expect_eq(env.value("p"), 0, "updated")
        stats.step(len(keys))
        stats.state(tuple(keys))
        stats.outcome((keys, use_ids))
        return okay

    check.add("arrays", arrays, split=2)

    # Everything, in order.
    def everything(chooser, stats):
        order = [
            chooser.pick(["uint8", "double-scaled", "fields8", "fields16"])
            for _ in range(3)
        ]
        env = blank()
        model: list = []
        fields: list = []
        sizes = {"uint8": 1, "double-scaled": 8, "fields8": 1, "fields16": 2}
        for idx, what in enumerate(order):
            pushed = (f"n{idx}",)
            if what in FIELDS:
                fields += add_fields(env, model, what, pushed)
            else:
                add(env, model, what, "c", pushed)
        env.finalize()
        model += fields
        compare(env, model, True)
        array = env.array()
        expect_eq(array.names, [x["name"] for x in model], "names")
        expect_eq(array.array.size, sum(sizes[x] for x in order), "size")
        copy = ChannelEnvironment.load_json(env.export_json())
        compare(copy, model, True)
        # Bytes can be moved between environments.
        data = bytes(range(1, array.array.size + 1))
        array.array.update(data)
        other = copy.array()
        other.array.update(bytes(array.array))
        expect_eq(bytes(other.array), data, "bytes")
        expect_eq(copy.values(), env.values(), "values")
        stats.step(3)
        stats.state(tuple(order))
        stats.outcome(order)

    check.add("everything", everything)

    return check
