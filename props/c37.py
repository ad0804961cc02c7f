"""C37: pages show every channel with the controls that it has."""

from html.parser import HTMLParser
from io import StringIO
import json
import logging
from types import SimpleNamespace

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop

VOID = {"input", "link", "meta", "br", "hr", "img"}

DESCRIPTIONS = [
    None,
    "plain words.",
    'set to "on" or "off"',
    "a < b && c > d",
    "&lt;b&gt; 'x'",
    "</span><b>bold",
]

INTS = [f"{x}int{y}" for x in ("", "u") for y in (8, 16, 32, 64)]


class Node:
    """An element."""

    def __init__(self, tag, attrs, parent) -> None:
        self.tag = tag
        self.attrs = attrs
        self.parent = parent
        self.children: list = []
        self.data = ""

    def walk(self):
        """This element and everything below it."""
        yield self
        for child in self.children:
            yield from child.walk()

    def find(self, tag=None, cls=None, ident=None, child_of=None):
        """Elements in document order."""
        return [
            x
            for x in self.walk()
            if (tag is None or x.tag == tag)
            and (cls is None or cls in x.classes)
            and (ident is None or x.attrs.get("id") == ident)
            and (child_of is None or x.parent.tag == child_of)
        ]

    @property
    def classes(self):
        """Class names."""
        return (self.attrs.get("class") or "").split()

    @property
    def text(self):
        """All text."""
        return self.data + "".join(x.text for x in self.children)


class Page(HTMLParser):
    """A strict parser: elements have to be nested correctly."""

    def __init__(self, text: str) -> None:
        super().__init__()
        self.root = self.curr = Node("root", {}, None)
        self.feed(text)
        self.close()
        expect(self.curr is self.root, "not closed", self.curr.tag)

    def handle_starttag(self, tag, attrs):
        names = [x[0] for x in attrs]
        expect_eq(len(set(names)), len(names), "attributes", attrs)
        node = Node(tag, dict(attrs), self.curr)
        self.curr.children.append(node)
        if tag not in VOID:
            self.curr = node

    def handle_startendtag(self, tag, attrs):
        # Only void elements can end this way.
        expect(tag in VOID, "element doesn't end", tag, attrs)
        self.handle_starttag(tag, attrs)

    def handle_endtag(self, tag):
        if tag not in VOID:
            expect_eq(tag, self.curr.tag, "end of element", self.curr.attrs)
            self.curr = self.curr.parent

    def handle_data(self, data):
        self.curr.data += data


def build(tier: str) -> Check:
    """Build the check."""
    from svgen.element.html import Html, div
    from vcorelib.io.markdown import MarkdownMixin

    import runtimepy.net.server.websocket  # noqa: F401 (must be first)
    from runtimepy.channel.environment import ChannelEnvironment
    from runtimepy.channel.environment.command.processor import (
        ChannelCommandProcessor,
    )
    from runtimepy.net.arbiter.info import AppInfo
    from runtimepy.net.html.bootstrap.tabs import TabbedContent
    from runtimepy.net.http.header import RequestHeader
    from runtimepy.net.http.response import ResponseHeader
    from runtimepy.net.manager import ConnectionManager
    from runtimepy.net.server.app.create import (
        create_app,
        create_cacheable_app,
    )
    from runtimepy.net.server.app.env import channel_environments
    from runtimepy.net.server.app.env.tab import ChannelEnvironmentTab
    from runtimepy.net.server.html import html_handler
    from runtimepy.primitives.field.fields import BitFields
    from runtimepy.ui.controls import CANONICAL, make_slider

    thorough = tier == "thorough"
    check = Check(
        "C37",
        tier,
        kind="model_checking",
        rule=(
            "every configuration of a channel (kind, enumeration, default, "
            "controls, description) alone and next to others: the page is "
            "parsed and every control is used"
        ),
        bounds={
            "channels": 3 if thorough else 2,
            "descriptions": len(DESCRIPTIONS),
            "pages": 3,
        },
    )

    MarkdownMixin.class_markdown_parts = classmethod(  # type: ignore
        lambda cls, _visited=None, **kwargs: iter(["documentation"])
    )

    def application(structs=None, config=None):
        return AppInfo(
            logging.getLogger("mc.c37"),
            None,  # type: ignore
            {},
            ConnectionManager(),
            None,  # type: ignore
            None,  # type: ignore
            {"root": {"config": config or {}}},
            {},
            None,  # type: ignore
            {},
            None,  # type: ignore
            [],
            structs or {},
            {},
        )

    ITEMS = {"zero": 0, "one": 1, "five": 5}

    class Spec:
        """What a channel is configured to be."""

        def __init__(
            self,
            kind,
            commandable=False,
            default=None,
            controls=None,
            description=None,
            enum=False,
            width=0,
        ) -> None:
            self.kind = kind
            self.commandable = commandable
            self.default = default
            self.controls = controls
            self.description = description
            self.enum = enum
            self.width = width

        def __str__(self) -> str:
            return str(vars(self))

        __repr__ = __str__

        def add(self, env, name) -> None:
            """Add this to an environment."""
            enum = None
            if self.enum:
                ename = "Flag" if self.boolean else "Choice"
                if env.enums.get(ename) is None:
                    if self.boolean:
                        env.enum(
                            ename, "bool", items={"yes": True, "no": False}
                        )
                    else:
                        env.enum(ename, "int", items=dict(ITEMS))
                enum = ename
            if self.width:
                fields = BitFields.new("uint8")
                if self.width == 1:
                    field = fields.flag(
                        name,
                        index=2,
                        commandable=self.commandable,
                        description=self.description,
                        enum=enum,
                    )
                else:
                    field = fields.field(
                        name,
                        self.width,
                        index=3,
                        commandable=self.commandable,
                        description=self.description,
                        enum=enum,
                    )
                env.add_field(field)
                return
            env.channel(
                name,
                self.kind,
                commandable=self.commandable,
                default=self.default,
                controls=self.controls,
                description=self.description,
                enum=enum,
            )

        @property
        def boolean(self):
            """Whether or not values are booleans."""
            return self.kind == "bool" or self.width == 1

        def shown(self, value):
            """How a value is represented."""
            if self.enum:
                if self.boolean:
                    return "yes" if value else "no"
                for key, val in ITEMS.items():
                    if val == value:
                        return key
                return value
            if self.boolean:
                return bool(value)
            return value

        def start(self):
            """The initial value."""
            default = self.default
            if default is None and self.controls:
                default = self.controls.get("default")
            return default

    def render(specs, customs=(), name="tab"):
        """An environment and its page."""
        env = ChannelEnvironment()
        names = [f"c{idx}.x" for idx in range(len(specs))]
        for one, spec in zip(names, specs):
            spec.add(env, one)
        env.finalize()
        proc = ChannelCommandProcessor(env, logging.getLogger("mc.c37"))

        async def custom(_, __):
            pass

        for one in customs:
            method = type(custom)(
                custom.__code__, custom.__globals__, name=one
            )
            method.__name__ = one
            proc.register_custom_commands(method)
        document = Html("page")
        ChannelEnvironmentTab(
            name, proc, application(), TabbedContent("runtimepy", document.body)
        ).entry()
        with StringIO() as stream:
            document.render(stream)
            text = stream.getvalue()
        return proc, list(env.names), names, Page(text).root

    def same(have, want, *where):
        """Compare values (up to single precision)."""
        if isinstance(want, float):
            expect(
                abs(have - want) <= 1e-5 * max(1.0, abs(want)),
                *where,
                have,
                want,
            )
        else:
            expect_eq(have, want, *where)

    def sent(env, command, expected, where):
        """Send a command, check what it changes."""
        before = env.env.values()
        before.update(expected)
        result = env.command(command)
        expect(result.success, "command failed", where, command, str(result))
        after = env.env.values()
        for key, value in before.items():
            same(after[key], value, "effect", where, command, key)

    def judge_row(proc, row, name, spec, where, stats):
        """Check a row (and use its controls)."""
        expect_eq(row.attrs["id"], name, "row")
        cells = [x for x in row.children if x.tag == "td"]
        expect_eq(len(cells), len(row.children), "cells", where)
        expect(len(cells) >= 5, "cells", where)

        # Plotting.
        boxes = cells[0].find("input", cls="form-check-input")
        expect_eq(
            [(x.attrs["id"], x.attrs["type"]) for x in boxes],
            [(f"plot-{name}", "checkbox")],
            "plot",
        )

        # Name and description.
        (label,) = cells[1].find("span")
        expect_eq(label.text.strip(), name, "name", where)
        expect_eq(
            label.attrs["data-bs-title"],
            spec.description or f"No description for '{name}'.",
            "description",
            where,
        )
        expect_eq(
            "text-info-emphasis" in label.classes,
            spec.commandable,
            "highlight",
            where,
        )
        expect_eq(
            [x.attrs["id"] for x in cells[1].find("button")],
            [f"{name}-line-color"],
            "color",
        )

        # Value.
        expect("channel-value" in cells[2].classes, "value", where)
        expect_eq(
            [x for x in row.walk() if "channel-value" in x.classes],
            [cells[2]],
            "value",
        )

        # Type.
        want_kind = str(spec.kind)
        if spec.enum and not spec.width:
            want_kind = "Flag" if spec.boolean else "Choice"
        if spec.width:
            expect_eq(len(cells), 5, "cells", where)
            want_kind = proc.env.fields[name].where_str()
            expect(want_kind in cells[4].text, "position", cells[4].text)
        else:
            expect_eq(cells[4].text.strip(), want_kind, "kind", where)

        # Controls.
        control = cells[3]
        toggles = [
            x
            for x in control.find("button", cls="toggle-value")
            if x.parent.tag == "td"
        ]
        selects = [x for x in control.find("select") if x.parent.tag == "td"]
        inputs = control.find("input", cls="channel-value-input")
        sliders = control.find(cls="slider")
        defaults = control.find(cls="default-button")
        if not spec.commandable:
            expect_eq(control.children, [], "controls", where)
            return 0
        expect_eq(
            (len(toggles), len(selects), len(inputs)),
            (
                int(spec.boolean),
                int(spec.enum and not spec.boolean),
                int(not spec.boolean and not spec.enum),
            ),
            "controls",
            where,
        )
        start = spec.start()
        expect_eq(
            len(defaults), int(start is not None), "default button", where
        )
        expect_eq(
            len(sliders),
            int(
                bool(spec.controls)
                and "slider" in spec.controls
                and bool(inputs)
            ),
            "slider",
            where,
        )

        for toggle in toggles:
            for _ in range(2):
                old = proc.env.values()[name]
                opposites = (
                    {"yes": "no", "no": "yes"}
                    if spec.enum
                    else {True: False, False: True}
                )
                sent(
                    proc,
                    f"toggle {toggle.attrs['id']}",
                    {name: opposites[old]},
                    where,
                )

        for select in selects:
            options = select.find("option")
            expect_eq(
                [x.text.strip() for x in options], list(ITEMS), "options"
            )
            current = [x.text.strip() for x in options if "selected" in x.attrs]
            value = proc.env.values()[name]
            expect_eq(
                current,
                [value] if value in ITEMS else [],
                "selected",
                where,
            )
            for option in options + options[:1]:
                sent(
                    proc,
                    f"set {select.attrs['id']} {option.attrs['value']}",
                    {name: option.text.strip()},
                    where,
                )

        for box in inputs:
            siblings = box.parent.children
            following = siblings[siblings.index(box) + 1]
            expect_eq(following.tag, "button", "send button", where)
            expect(
                "default-button" not in following.classes,
                "send button",
                where,
            )
            for value in (2, 0, 1):
                sent(
                    proc, f"set {box.attrs['id']} {value}", {name: value}, where
                )

        for bar in sliders:
            want = spec.controls["slider"]
            low, high, step = (
                float(bar.attrs[x]) for x in ("min", "max", "step")
            )
            expect_eq((low, high), (want["min"], want["max"]), "range", where)
            expect(step > 0, "step", step, where)
            count = int((high - low) / step + 1e-6) + 1
            if low.is_integer() and high.is_integer():
                want["step"] = min(want["step"], high - low)
            expect(
                count >= want["step"], "positions", count, want, where
            )
            for idx in sorted({0, 1, count // 2, count - 1}):
                value = low + idx * step
                if spec.kind in INTS:
                    expect(value.is_integer(), "position", value, where)
                    value = int(value)
                sent(
                    proc,
                    f"set {bar.attrs['id']} {value}",
                    {name: value},
                    where,
                )

        for button in defaults:
            sent(
                proc,
                f"set {button.attrs['id']} {button.attrs.get('value', '')}",
                {name: spec.shown(start)},
                where,
            )
        stats.step(4 + len(inputs) * 3 + len(sliders) * 4)
        return len(defaults)

    def judge(specs, stats, customs=(), tab="tab"):
        """Check a page."""
        proc, order, names, root = render(specs, customs, tab)
        where = specs
        for one, spec in zip(names, specs):
            start = spec.start()
            if start is not None:
                same(
                    proc.env.values()[one], spec.shown(start), "start", where
                )
        (content,) = root.find(ident=f"runtimepy-{tab}")
        (button,) = root.find(ident=f"runtimepy-{tab}-tab")
        expect_eq(
            button.attrs["data-bs-target"], f"#runtimepy-{tab}", "target"
        )
        for part in ("command", "logs", "plot", "overlay"):
            expect_eq(len(content.find(ident=f"{tab}-{part}")), 1, part)
        (body,) = content.find("tbody")
        expect_eq(
            [x.attrs["id"] for x in body.children], order, "rows", where
        )
        expect_eq(len(content.find("tr", cls="channel-row")), len(specs), "n")
        defaults = 0
        resets = {}
        for row in body.children:
            idx = names.index(row.attrs["id"])
            defaults += judge_row(
                proc, row, names[idx], specs[idx], where, stats
            )
            if specs[idx].commandable and specs[idx].start() is not None:
                resets[names[idx]] = specs[idx].shown(specs[idx].start())

        # Everything can be reset at once.
        if len(resets) > 1:
            expect_eq(len(content.find(ident="set-defaults")), 1, "reset all")
            before = proc.env.values()
            for one in content.find(cls="default-button"):
                proc.command(
                    f"set {one.attrs['id']} {one.attrs.get('value', '')}"
                )
            before.update(resets)
            after = proc.env.values()
            for key, value in before.items():
                same(after[key], value, "reset all", where, key)
        else:
            expect(
                not content.find(ident="set-defaults") or len(specs) > 1,
                "reset all",
                where,
            )

        # Custom commands.
        (select,) = content.find("select", ident="custom-commands")
        options = [
            (x.attrs["value"], x.text.strip()) for x in select.find("option")
        ]
        send = content.find("button", ident="send-custom-commands")
        if customs:
            expect_eq(options, [(x, x) for x in customs], "commands")
            expect_eq(len(send), 1, "send")
            expect("disabled" not in select.attrs, "disabled")
            ran = []
            proc.hooks.append(lambda args, _: ran.append(args.command))
            for value, _ in options:
                expect(proc.command(f"custom {value}").success, "custom")
            expect_eq(len(ran), len(customs), "custom", ran)
        else:
            expect_eq((len(options), len(send)), (1, 0), "commands")
            expect("disabled" in select.attrs, "disabled")
        (script,) = [
            x for x in content.find("script") if "TabInterface" in x.data
        ]
        expect(f'new TabInterface("{tab}", worker)' in script.data, "script")
        stats.state((str(specs), customs))

    def configs(chooser, full):
        """A channel's configuration."""
        kinds = ["bool", "float", "double"]
        kinds += INTS if full else ["uint8", "int32"]
        kind = chooser.pick(
            kinds + ["enum", "flag", "bit", "bits", "field"]
        )
        commandable = chooser.pick([True, False])
        args: dict = {"commandable": commandable}
        if kind == "bit":
            args.update(width=1, enum=chooser.pick([False, True]))
            kind = "uint8"
        elif kind in ("bits", "field"):
            args.update(width=3, enum=kind == "field")
            kind = "uint8"
        else:
            if kind == "enum":
                args["enum"] = True
                kind = chooser.pick(["uint8", "int16"] if full else ["uint8"])
            elif kind == "flag":
                args["enum"] = True
                kind = "bool"
            if kind == "bool":
                args["default"] = chooser.pick([None, False, True])
            elif args.get("enum"):
                args["default"] = chooser.pick([None, 0, 5])
            else:
                cast = float if kind in ("float", "double") else int
                args["default"] = chooser.pick([None, cast(0), cast(7)])
                options = [None, make_slider(0, 100, 10, default=cast(3))]
                if full:
                    options += [
                        make_slider(1, 100, 50),
                        make_slider(0, 10, 100),
                        make_slider(2, 3, 1),
                    ]
                    if kind in ("float", "double"):
                        options += [
                            CANONICAL[x]
                            for x in ("phase", "amplitude", "period", "steps")
                        ]
                        options.append(make_slider(-1.5, 1.5, 7, default=0.5))
                    elif kind not in ("int8", "uint8"):
                        options.append(CANONICAL["steps_1_1000"])
                controls = chooser.pick(options)
                if controls is not None:
                    controls = json.loads(json.dumps(controls))
                args["controls"] = controls
        return Spec(
            kind,
            description=chooser.pick(DESCRIPTIONS if full else [None, 'a "b"']),
            **args,
        )

    def single(chooser, stats):
        spec = configs(chooser, True)
        customs = chooser.pick([(), ("one",), ("one", "two_b")])
        judge([spec], stats, customs)
        stats.outcome(str(spec))

    check.add("single", single, split=2, limit_s=200)

    def several(chooser, stats):
        specs = [configs(chooser, False) for _ in range(3 if thorough else 2)]
        judge(specs, stats)
        stats.outcome(str(specs))

    check.add("several", several, split=2, limit_s=120)
    # Which tabs there are.
    def simple(idx):
        """A small environment."""
        env = ChannelEnvironment()
        spec = Spec("uint8", commandable=bool(idx % 2), default=idx)
        spec.add(env, f"v{idx}")
        env.finalize()
        return env

    def parsed(app, document):
        """Render a page."""
        with StringIO() as stream:
            document.render(stream)
            return Page(stream.getvalue()).root

    def tabs(chooser, stats):
        most = 2 if thorough else 1
        count = {
            kind: chooser.choose(most + 1)
            for kind in ("connection", "task", "struct", "peer")
        }
        config = {}
        if chooser.choose(2):
            config["top_markdown"] = "the top"
        if chooser.choose(2):
            config["bottom_markdown"] = "the bottom"
        if chooser.choose(2):
            config["experimental"] = True
        app = application(config=config)
        expected = {}

        def processor(name):
            env = simple(len(expected))
            proc = ChannelCommandProcessor(env, logging.getLogger("mc.c37"))
            expected[name] = proc
            return proc

        def part(name, **kwargs):
            return SimpleNamespace(
                name=name, command=processor(name), markdown=name, **kwargs
            )

        for idx in range(count["connection"]):
            name = f"conn{idx}"
            app.connections[name] = part(name)
        for idx in range(count["task"]):
            name = f"task{idx}"
            app.tasks[name] = part(name)
        for idx in range(count["struct"]):
            name = f"struct{idx}"
            app.structs[name] = part(name)
        for idx in range(count["peer"]):
            name = f"peer{idx}"
            app.peers[name] = SimpleNamespace(
                struct=part(f"{name}.host"),
                markdown=name,
                peer=processor(name),
                peer_name=name,
            )
        document = Html("page")
        content = TabbedContent("runtimepy", document.body)
        ChannelEnvironmentTab.all_tabs.clear()
        channel_environments(app, content)
        root = parsed(app, document)
        names = list(expected)
        extra = [
            x.attrs["id"]
            for x in root.walk()
            if "tab-pane" in x.classes
            and x.attrs["id"].removeprefix("runtimepy-") not in expected
        ]
        expect_eq(bool(extra), "experimental" in config, "more tabs", extra)
        panes = root.find(cls="tab-pane")
        buttons = root.find("button", cls="nav-link")
        expect_eq(len(panes), len(names) + len(extra), "tabs")
        expect_eq(
            sorted(x.attrs["data-bs-target"] for x in buttons),
            sorted("#" + x.attrs["id"] for x in panes),
            "targets",
        )
        active = [x for x in buttons if "active" in x.classes]
        if panes:
            expect_eq(active, buttons[:1], "active tab")
            expect_eq(
                [x.attrs["id"] for x in panes if "active" in x.classes],
                [active[0].attrs["data-bs-target"][1:]],
                "active tab",
            )
        for name, proc in expected.items():
            (pane,) = root.find(ident=f"runtimepy-{name}")
            expect_eq(
                [x.attrs["id"] for x in pane.find("tr", cls="channel-row")],
                list(proc.env.names),
                "rows",
                name,
            )
            (button,) = root.find(ident=f"runtimepy-{name}-tab")
            expect(button.text.strip().endswith(name), "label", button.text)
            expect_eq(
                len(
                    [
                        x
                        for x in root.find("button", cls="window-button")
                        if x.attrs["id"] == name
                    ]
                ),
                1,
                "window",
            )
            expect(
                ChannelEnvironmentTab.all_tabs[name].command is proc,
                "environment",
                name,
            )
        expect_eq(
            sorted(ChannelEnvironmentTab.all_tabs), sorted(names), "tabs"
        )
        text = root.text
        for key in ("top_markdown", "bottom_markdown"):
            if key in config:
                expect(str(config[key]) in text, key)
        idents = [x.attrs["id"] for x in root.walk() if "id" in x.attrs]
        fixed = [
            x
            for x in idents
            if x.startswith("runtimepy-") or x in ("tabs-button",)
        ]
        expect_eq(len(set(fixed)), len(fixed), "identifiers", fixed)
        ChannelEnvironmentTab.all_tabs.clear()
        stats.step(len(panes))
        stats.state((sorted(count.items()), sorted(config)))
        stats.outcome((sorted(count.items()), len(extra)))

    check.add("tabs", tabs, split=2)

    # Pages are composed once (or every time when they aren't cached).
    def documents(chooser, stats):
        caching = [chooser.choose(2) == 1 for _ in range(2)]
        infos = [application(config={"caching": x}) for x in caching]
        composed: dict = {}

        def note(app, kind):
            key = (infos.index(app), kind)
            composed[key] = composed.get(key, 0) + 1
            return f"{key} {composed[key]}"

        def one(app, document, request, response, data):
            div(parent=document.body, id="mark", text=note(app, "one"))
            return document

        def two(app, document, request, response, data):
            div(parent=document.body, id="mark", text=note(app, "two"))
            return document

        def three(app, tabs):
            div(parent=tabs.content, id="mark", text=note(app, "three"))

        def four(app, tabs):
            div(parent=tabs.content, id="mark", text=note(app, "four"))

        kinds = {"one": one, "two": two, "three": three, "four": four}
        picked = []
        apps = {}
        options = [(i, k) for i in range(2) for k in kinds]
        for path in ("/a", "/b"):
            which = chooser.pick([x for x in options if x not in picked])
            picked.append(which)
            create = (
                create_cacheable_app if which[1] in ("one", "two") else create_app
            )
            apps[path] = create(infos[which[0]], kinds[which[1]])
        default = chooser.pick([None, "/a"])
        wanted: dict = {}
        for _ in range(4 if thorough else 3):
            path = chooser.pick(["/a", "/b", "/missing"])
            real = path if path in apps else default

            async def get(loop):
                response = ResponseHeader()
                with StringIO() as stream:
                    found = await html_handler(
                        apps,
                        stream,
                        RequestHeader(target=path),
                        response,
                        None,
                        default_app=apps[default] if default else None,
                    )
                    return found, stream.getvalue(), response

            found, text, response = run_loop(get)[1]
            expect_eq(found, real is not None, "found", path)
            stats.step()
            if real is None:
                expect_eq(text, "", "page", path)
                continue
            expect(
                response["content-type"].startswith("text/html"),
                "type",
                response["content-type"],
            )
            which = picked[("/a", "/b").index(real)]
            if not wanted.get(which) or not caching[which[0]]:
                wanted[which] = wanted.get(which, 0) + 1
            (mark,) = Page(text).root.find(ident="mark")
            expect_eq(
                mark.text.strip(), f"{which} {wanted[which]}", "page", path
            )
            stats.outcome((which, wanted[which]))
        expect_eq(composed, wanted, "composed")
        stats.state((picked, default, sorted(wanted.items())))

    check.add("documents", documents, split=2)
    return check
