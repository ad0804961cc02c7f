"""C06: runtime enumerations are two-way and survive export."""

import enum
import json

from mc.core import Check, System, Violation, expect, expect_eq

PRIMS = [
    "int8",
    "int16",
    "int32",
    "int64",
    "uint8",
    "uint16",
    "uint32",
    "uint64",
]
TRUE = ["true", "True", "TRUE"]
FALSE = ["false", "False", "FALSE"]


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.enum import RuntimeEnum
    from runtimepy.enum.registry import EnumRegistry, RuntimeIntEnum

    thorough = tier == "thorough"
    check = Check(
        "C06",
        tier,
        kind="model_checking",
        rule=(
            "every history of member registrations and reloads up to the "
            "depth, every lookup (by name, integer, boolean and numeric or "
            "boolean text) compared with a dictionary after each step; every "
            "way to build an enumeration from every small item set"
        ),
        bounds={"depth": "5 full" if thorough else "4 full, 5 merged"},
    )

    def raises(func):
        """Whether a lookup reports a missing entry."""
        try:
            return func()
        except KeyError:
            return KeyError

    def verify_ints(inst, model: dict) -> None:
        """Compare with a model."""
        expect(inst.is_integer and not inst.is_boolean, "kind")
        reverse = {y: x for x, y in model.items()}
        for name, val in model.items():
            for func in (inst.as_int, inst.get_int):
                expect_eq(func(name), val, "by name", name)
                expect_eq(func(val), val, "by value", name)
                expect_eq(func(str(val)), val, "by numeric text", name)
            for func in (inst.as_str, inst.get_str):
                expect_eq(func(val), name, "name", val)
                expect_eq(func(name), name, "name of name", val)
        for val in range(-3, 12):
            if val not in reverse:
                expect_eq(inst.as_str(val), None, "unknown", val)
                expect_eq(inst.as_int(val), None, "unknown", val)
                expect_eq(inst.as_int(str(val)), None, "unknown", val)
                expect_eq(
                    raises(lambda: inst.get_str(val)), KeyError, "no error"
                )
                expect_eq(
                    raises(lambda: inst.get_int(val)), KeyError, "no error"
                )
        for name in ("nope", "a b", "1.5"):
            expect_eq(inst.as_int(name), None, "unknown", name)
            expect_eq(inst.as_str(name), None, "unknown", name)
            expect_eq(raises(lambda: inst.get_int(name)), KeyError, "error")
            expect_eq(raises(lambda: inst.get_str(name)), KeyError, "error")

    def verify_bools(inst, model: dict) -> None:
        """Compare with a model."""
        expect(inst.is_boolean and not inst.is_integer, "kind")
        for name, val in model.items():
            for func in (inst.as_bool, inst.get_bool):
                expect(func(name) is val, "by name", name)
                expect(func(val) is val, "by value", name)
            expect_eq(inst.get_int(name), int(val), "as integer")
            expect_eq(inst.get_int(val), int(val), "as integer")
            for func in (inst.as_str, inst.get_str):
                expect_eq(func(val), name, "name", val)
                expect_eq(func(name), name, "name of name", val)
        for val in (True, False):
            for text in TRUE if val else FALSE:
                if text not in model:
                    expect_eq(inst.as_bool(text), val, "text", text)
                    expect_eq(inst.get_bool(text), val, "text", text)
            if val not in model.values():
                expect_eq(inst.as_str(val), None, "unknown", val)
                expect_eq(
                    raises(lambda: inst.get_str(val)), KeyError, "no error"
                )
        expect_eq(inst.as_bool("nope"), None, "unknown")
        expect_eq(raises(lambda: inst.get_bool("nope")), KeyError, "error")

    class Ints(System):
        """An integer enumeration."""

        def __init__(self, start) -> None:
            self.prim = "uint16"
            self.impl = RuntimeEnum.create(
                {
                    "id": 4,
                    "type": "int",
                    "primitive": self.prim,
                    "items": dict(start),
                }
            )
            self.model = dict(start)

        def ops(self):
            out = [("reg", x) for x in ("a", "b", "x:y", "bad name", "q/1")]
            return out + [("reload",), ("copy",), ("export",)]

        def apply(self, op):
            if op[0] == "reg":
                got = self.impl.register_int(op[1])
                if op[1] in self.model:
                    expect_eq(got, self.model[op[1]], "existing member")
                elif op[1] == "bad name":
                    expect_eq(got, None, "invalid name accepted")
                else:
                    expect(
                        isinstance(got, int)
                        and got not in self.model.values(),
                        "value given out twice",
                        got,
                    )
                    self.model[op[1]] = got
            elif op[0] == "reload":
                data = json.loads(json.dumps(self.impl.asdict()))
                old = self.impl
                self.impl = RuntimeEnum.create(data)
                expect(old == self.impl, "reloaded enumeration differs")
            elif op[0] == "copy":
                import copy

                old = self.impl
                self.impl = copy.copy(old)
                self.impl.register_int("only.copy")
                verify_ints(old, self.model)
                self.impl = copy.copy(old)
            else:
                self.impl.asdict()["items"].clear()

        def check(self):
            verify_ints(self.impl, self.model)
            data = self.impl.asdict()
            expect_eq(data["items"], self.model, "exported items")
            expect_eq(
                (data["id"], data["type"], data["primitive"]),
                (4, "int", self.prim),
                "exported attributes",
            )

        def key(self):
            return tuple(self.model.items())

    starts: list = [
        {},
        {"a": 1},
        {"zero": 0, "neg": -2, "nine": 9},
        {"two": 2, "three": 3},
        {"b": 1, "a": 2},
    ]
    for idx, start in enumerate(starts):
        check.add_histories(
            f"ints/{idx}",
            lambda start=start: Ints(start),
            5 if thorough else 4,
            5,
            by_first=thorough,
        )

    class Bools(System):
        """A boolean enumeration."""

        def __init__(self, start) -> None:
            self.impl = RuntimeEnum.create(
                {"id": 2, "type": "bool", "items": dict(start)}
            )
            self.model = dict(start)

        def ops(self):
            out = [
                ("reg", n, v)
                for n in ("on", "off", "bad name", "true")
                for v in (True, False)
            ]
            return out + [("reload",), ("export",)]

        def apply(self, op):
            if op[0] == "reg":
                _, name, val = op
                if name == "true" and not val:
                    return
                ok = (
                    name != "bad name"
                    and name not in self.model
                    and val not in self.model.values()
                )
                expect_eq(self.impl.register_bool(name, val), ok, "result")
                if ok:
                    self.model[name] = val
            elif op[0] == "reload":
                data = json.loads(json.dumps(self.impl.asdict()))
                self.impl = RuntimeEnum.create(data)
            else:
                self.impl.asdict()["items"].clear()

        def check(self):
            verify_bools(self.impl, self.model)
            expect_eq(self.impl.asdict()["items"], self.model, "exported")

        def key(self):
            return tuple(self.model.items())

    for idx, bstart in enumerate([{}, {"on": True}, {"up": 1, "down": 0}]):
        bstart = {x: bool(y) for x, y in bstart.items()}
        check.add_histories(
            f"bools/{idx}",
            lambda bstart=bstart: Bools(bstart),
            5 if thorough else 4,
            by_first=False,
        )

    def construct(chooser, stats):
        """Every route to build an enumeration gives the same one."""
        kind = chooser.pick(["int", "bool"])
        if kind == "int":
            vals = [
                chooser.pick([None, 0, 1, 5, 300, -1, 2**33])
                for _ in range(3)
            ]
        else:
            vals = [chooser.pick([None, True, False]) for _ in range(2)]
        names = ["m1", "m2", "m3"]
        items = {n: v for n, v in zip(names, vals) if v is not None}
        clash = len(set(items.values())) != len(items)
        route = chooser.pick(["direct", "registry", "dict"])
        prim = chooser.pick(PRIMS) if kind == "int" else "uint8"
        data: dict = dict(items)
        try:
            if route == "registry":
                reg = EnumRegistry.create({})
                inst = reg.enum("E", kind, items=data, primitive=prim)
                assert inst is not None
                expect(reg["E"] is inst, "registry lookup")
            elif route == "dict":
                reg = EnumRegistry.create(
                    {
                        "E": {
                            "id": 3,
                            "type": kind,
                            "items": data,
                            "primitive": prim,
                        }
                    }
                )
                inst = reg[3]
                expect(reg["E"] is inst, "registry lookup")
            else:
                inst = RuntimeEnum.create(
                    {
                        "id": 1,
                        "type": kind,
                        "items": data,
                        "primitive": prim,
                    }
                )
        except AssertionError:
            expect(clash, "valid items rejected", items)
            stats.outcome(("clash", kind, tuple(vals), route))
            return "clash"
        expect(not clash, "ambiguous items accepted", items)
        for _ in range(2):
            if kind == "int":
                verify_ints(inst, items)
            else:
                verify_bools(inst, items)
            expect_eq(inst.primitive, prim, "primitive")
            inst = RuntimeEnum.create(json.loads(json.dumps(inst.asdict())))
        stats.outcome((kind, tuple(vals), route, prim))
        return repr(items)

    check.add("construct", construct, split=3)

    def classes(chooser, stats):
        """Enumeration classes."""
        vals = {f"NAME_{x}": x for x in chooser.pick([(0, 1), (3, 9, 4)])}
        prim = chooser.pick([None] + PRIMS)
        cls = RuntimeIntEnum("Sample", vals)
        if prim is not None:
            # A class of its own with this primitive.
            ns = {"primitive": classmethod(lambda _: prim)}
            base = enum.EnumMeta.__prepare__("Base", (RuntimeIntEnum,))
            for key, val in ns.items():
                base[key] = val
            parent = enum.EnumMeta("Base", (RuntimeIntEnum,), base)
            cls = parent("Sample", vals)
        want = {x.lower(): y for x, y in vals.items()}
        want_prim = prim or "uint8"
        how = chooser.pick(["direct", "register", "named"])
        if how == "direct":
            inst = cls.runtime_enum(3)
            expect_eq(inst.id, 3, "identifier")
        else:
            reg = EnumRegistry.create({})
            name = "Other" if how == "named" else None
            inst = cls.register_enum(reg, name=name)
            expect(reg[name or "Sample"] is inst, "registered")
        verify_ints(inst, want)
        expect_eq(inst.primitive, want_prim, "primitive")
        for text, val in vals.items():
            member = cls(val)
            for item in (val, member, text, text.lower()):
                expect(cls.normalize(item) is member, "normalize", item)
            expect_eq(inst.get_int(text.lower()), int(member), "value")
        for item in (77, "nothing"):
            try:
                cls.normalize(item)
                raise Violation("unknown member accepted")
            except (ValueError, KeyError):
                pass
        stats.outcome((tuple(vals), prim, how))
        return how

    check.add("classes", classes)
    return check
