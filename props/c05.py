"""C05: name / identifier registries stay bijective under every history."""

import json

from mc.core import Check, System, Violation, expect, expect_eq

NAMES = ["a", "b", "c.d"]
INVALID = "no good"


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.channel.registry import ChannelRegistry
    from runtimepy.enum.registry import EnumRegistry
    from runtimepy.registry.bool import BooleanRegistry
    from runtimepy.registry.name import NameRegistry

    thorough = tier == "thorough"
    check = Check(
        "C05",
        tier,
        kind="model_checking",
        rule=(
            "every history of registrations (with and without identifiers, "
            "conflicting, duplicate and invalid), bulk loads and exports up "
            "to the depth; the model is a pair of dictionaries"
        ),
        bounds={
            "names": NAMES + [INVALID],
            "identifiers": [1, 2, 3, 7],
            "depth": "5 full, 7 merged" if thorough else "4 full, 6 merged",
        },
    )

    class Names(System):
        """A name registry and its model."""

        def __init__(self) -> None:
            self.impl = NameRegistry()
            self.ids: dict[str, int] = {}
            self.order: list[str] = []
            self.ever: dict[str, int] = {}

        def ops(self):
            out = []
            for name in NAMES + [INVALID]:
                for ident in (None, 1, 2, 7):
                    out.append(("register", name, ident))
            for name in NAMES[:2] + [INVALID]:
                for ident in (1, 3):
                    out.append(("load_names", name, ident))
                    out.append(("load_keys", name, ident))
            out += [
                ("load_names2", "a", 2, "b", 2),
                ("load_keys2", 1, "a", 2, "a"),
                ("export",),
                ("reload", "names"),
                ("reload", "keys"),
                ("reload", "mixed"),
            ]
            return out

        def _bind(self, name, ident):
            """Model: whether a binding is acceptable, and make it."""
            for other, num in self.ids.items():
                if (other == name) != (num == ident):
                    return False
            if name not in self.ids:
                self.ids[name] = ident
                self.order.append(name)
            return True

        def _load(self, func, pairs):
            ok = True
            for name, ident in pairs:
                if name == INVALID or not self._bind(name, ident):
                    ok = False
                    break
            try:
                func()
            except AssertionError as exc:
                expect(not ok, "valid load rejected", exc)
                return
            expect(ok, "conflicting load accepted")

        def apply(self, op):
            impl = self.impl
            what = op[0]
            if what == "register":
                _, name, ident = op
                try:
                    got = impl.register_name(name, identifier=ident)
                except AssertionError:
                    expect(
                        name in self.ids
                        and ident is not None
                        and ident != self.ids[name],
                        "valid registration raised",
                    )
                    return
                if name in self.ids:
                    expect(
                        ident is None or ident == self.ids[name],
                        "rebound name",
                    )
                    expect_eq(got, self.ids[name], "existing identifier")
                elif name == INVALID:
                    expect(got is None, "invalid name accepted")
                elif ident is not None and ident in self.ids.values():
                    expect(got is None, "identifier given out twice")
                else:
                    expect(
                        isinstance(got, int) and got >= 1,
                        "no identifier given",
                        got,
                    )
                    if ident is not None:
                        expect_eq(got, ident, "identifier")
                    expect(
                        got not in self.ids.values(),
                        "identifier given out twice",
                        got,
                    )
                    self.ids[name] = got
                    self.order.append(name)
            elif what == "load_names":
                self._load(
                    lambda: impl.load_name_to_key({op[1]: op[2]}),
                    [(op[1], op[2])],
                )
            elif what == "load_keys":
                self._load(
                    lambda: impl.load_key_to_name({op[2]: op[1]}),
                    [(op[1], op[2])],
                )
            elif what == "load_names2":
                self._load(
                    lambda: impl.load_name_to_key(
                        {op[1]: op[2], op[3]: op[4]}
                    ),
                    [(op[1], op[2]), (op[3], op[4])],
                )
            elif what == "load_keys2":
                self._load(
                    lambda: impl.load_key_to_name(
                        {op[1]: op[2], op[3]: op[4]}
                    ),
                    [(op[2], op[1]), (op[4], op[3])],
                )
            elif what == "export":
                data = impl.asdict()
                expect_eq(data, self.ids, "export")
                data["zzz"] = 99
                data.pop("a", None)
            else:
                data = impl.asdict()
                if op[1] == "names":
                    self.impl = NameRegistry(reverse=data)
                elif op[1] == "keys":
                    self.impl = NameRegistry(
                        mapping={y: x for x, y in data.items()}
                    )
                else:
                    mixed: dict = {}
                    for idx, (name, ident) in enumerate(data.items()):
                        if idx % 2:
                            mixed[name] = ident
                        else:
                            mixed[ident] = name
                    self.impl = NameRegistry.int_from_dict(mixed)
                    order = [
                        n for i, n in enumerate(self.order) if not i % 2
                    ] + [n for i, n in enumerate(self.order) if i % 2]
                    self.order = order
                    self.ids = {x: self.ids[x] for x in order}

        def check(self):
            impl = self.impl
            for name, ident in self.ids.items():
                expect_eq(impl.identifier(name), ident, "identifier", name)
                expect_eq(impl.identifier(ident), ident, "identifier of id")
                expect_eq(impl.name(ident), name, "name", ident)
                expect_eq(impl.name(name), name, "name of name")
                # Bindings never change once made.
                expect_eq(
                    self.ever.setdefault(name, ident), ident, "rebound", name
                )
            for name in NAMES + [INVALID]:
                if name not in self.ids:
                    expect_eq(impl.identifier(name), None, "unknown", name)
                    expect_eq(impl.name(name), None, "unknown name", name)
            for ident in range(0, 12):
                if ident not in self.ids.values():
                    expect_eq(impl.name(ident), None, "unknown id", ident)
                    expect_eq(
                        impl.identifier(ident), None, "unknown id", ident
                    )
            expect_eq(list(impl.names), self.order, "names")
            expect_eq(
                list(impl.registered_order), self.order, "registered order"
            )
            expect_eq(
                list(impl.search("a|d")),
                [x for x in self.order if "a" in x or "d" in x],
                "search",
            )
            expect_eq(
                list(impl.search("a", exact=True)),
                [x for x in self.order if x == "a"],
                "exact search",
            )

        def key(self):
            return tuple(self.ids.items()), tuple(self.order)

    check.add_histories(
        "names", Names, 4 if thorough else 3, 6 if thorough else 5
    )

    class Bools(System):
        """A boolean registry and its model."""

        def __init__(self) -> None:
            self.impl = BooleanRegistry()
            self.vals: dict[str, bool] = {}

        def ops(self):
            out = [
                ("register", n, v)
                for n in ["on", "off", INVALID]
                for v in (True, False)
            ]
            out += [("export",), ("reload", "names"), ("reload", "keys")]
            return out

        def apply(self, op):
            if op[0] == "register":
                _, name, val = op
                ok = (
                    name != INVALID
                    and name not in self.vals
                    and val not in self.vals.values()
                )
                expect_eq(self.impl.register(name, val), ok, "register")
                if ok:
                    self.vals[name] = val
            elif op[0] == "export":
                data = self.impl.asdict()
                expect_eq(data, self.vals, "export")
                data.clear()
            elif op[1] == "names":
                self.impl = BooleanRegistry(reverse=self.impl.asdict())
            else:
                self.impl = BooleanRegistry.bool_from_dict(
                    {y: x for x, y in self.impl.asdict().items()}
                )

        def check(self):
            impl = self.impl
            for name, val in self.vals.items():
                expect(impl.identifier(name) is val, "value", name)
                expect_eq(impl.name(val), name, "name", val)
            for val in (True, False):
                if val not in self.vals.values():
                    expect_eq(impl.name(val), None, "unknown", val)
            expect_eq(list(impl.names), list(self.vals), "names")
            expect_eq(impl.registered_order, list(self.vals), "order")

        def key(self):
            return tuple(self.vals.items())

    check.add_histories("bools", Bools, 4, 6, by_first=False)

    class Items(System):
        """A registry of items."""

        def __init__(self, which: str) -> None:
            self.which = which
            self.impl = self._class().create({})
            self.model: dict[str, tuple] = {}
            self.objs: dict[str, object] = {}
            # Names that own an identifier without an item.
            self.reserved: dict[str, int] = {}
            self.stale = 0

        def _class(self):
            return EnumRegistry if self.which == "enum" else ChannelRegistry

        def ops(self):
            out = []
            for name in NAMES + [INVALID]:
                for variant in (0, 1):
                    out.append(("new", name, variant))
                out.append(("dict", name, None))
                for ident in (1, 2, 5):
                    out.append(("dict", name, ident))
            out += [("same", x) for x in NAMES[:2]]
            out += [("export",), ("reload",)]
            return out

        def _data(self, variant):
            if self.which == "enum":
                return {"type": ["int", "bool"][variant]}
            return {"type": ["uint8", "double"][variant]}

        def _add(self, name, variant, ident):
            """Model of a registration; returns whether it's accepted."""
            if name == INVALID:
                return False
            if name in self.model:
                return False
            if ident is not None:
                return ident not in [x[0] for x in self.model.values()]
            return True

        def apply(self, op):
            impl = self.impl
            if op[0] in ("new", "dict"):
                _, name, arg = op
                variant = arg if op[0] == "new" else 0
                ident = arg if op[0] == "dict" else None
                ok = self._add(name, variant, ident)
                try:
                    if op[0] == "new":
                        kind = self._data(variant)["type"]
                        if self.which == "enum":
                            got = impl.enum(name, kind)
                        else:
                            got = impl.channel(name, kind)
                    else:
                        data = self._data(variant)
                        if ident is not None:
                            data["id"] = ident
                        got = impl.register_dict(name, data)
                except AssertionError:
                    expect(
                        name in self.model
                        and ident not in (None, self.model[name][0]),
                        "valid registration raised",
                    )
                    return
                expect_eq(got is not None, ok, "registration result")
                if ok:
                    assert got is not None
                    if ident is not None:
                        expect_eq(got.id, ident, "identifier")
                    expect(
                        got.id not in [x[0] for x in self.model.values()],
                        "identifier given out twice",
                    )
                    self.model[name] = (got.id, variant)
                    self.objs[name] = got
            elif op[0] == "same":
                item = impl.get(op[1])
                if item is not None:
                    expect_eq(
                        impl.register(op[1], item), False, "added again"
                    )
                    try:
                        other = impl.register("z", item)
                    except AssertionError:
                        other = False
                    expect_eq(other, False, "identifier shared")
            elif op[0] == "export":
                data = impl.asdict()
                data.clear()
            else:
                data = json.loads(json.dumps(impl.asdict()))
                self.impl = self._class().create(data)
                self.objs = {x: self.impl[x] for x in self.model}

        def check(self):
            impl = self.impl
            for name, (ident, variant) in self.model.items():
                item = impl[name]
                expect(item is self.objs[name], "another item", name)
                expect(impl[ident] is item, "lookup by identifier")
                expect(impl.get(ident) is item, "get by identifier")
                expect_eq(item.id, ident, "identifier")
                expect_eq(
                    str(item.type), self._data(variant)["type"], "type"
                )
            idents = {x[0]: y for y, x in self.model.items()}
            for ident in range(0, 10):
                if ident not in idents:
                    expect(impl.get(ident) is None, "unknown id", ident)
            for name in NAMES + [INVALID, "z"]:
                if name not in self.model:
                    expect(impl.get(name) is None, "unknown name", name)
                    try:
                        _ = impl[name]
                        raise Violation(f"unknown name {name}")
                    except KeyError:
                        pass
            expect_eq(list(impl.items), list(self.model), "items")
            expect_eq(
                [x[0] for x in impl.search(".*")], list(self.model), "search"
            )
            for name, item in impl.search(".*"):
                expect(item is self.objs[name], "searched item")
            items = list(self.objs.values())
            for one in items:
                for two in items:
                    expect_eq(one == two, one is two, "item equality")

        def key(self):
            return tuple(self.model.items())

    for which in ("enum", "channel"):
        check.add_histories(
            f"items/{which}",
            lambda which=which: Items(which),
            3,
            5 if thorough else 4,
        )
    return check
