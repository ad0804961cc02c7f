"""
Core of the checker: choice-point exploration (stateless search), explicit
state search over operation histories, violation / replay / evidence plumbing.

Everything here enumerates; nothing samples.
"""

from __future__ import annotations

import asyncio
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
from pathlib import Path
from typing import Any, Callable, Iterable, Iterator, Optional

VERIF = Path(__file__).resolve().parent.parent
REPO_PREFIX = os.path.join(os.environ.get("MC_REPO", "/repo"), "runtimepy") + "/"


class Violation(Exception):
    """The property does not hold on this execution."""


class Hang(BaseException):
    """An execution did not terminate within its wall-clock budget."""


class ReplayDivergence(Exception):
    """A replayed prefix met a different choice point (harness error)."""


class Prune(Exception):
    """Abandon this execution: it is outside of the stated bounds."""


def expect(cond: Any, message: Any, *details: Any) -> None:
    """Raise a violation if a condition does not hold."""
    if not cond:
        text = str(message)
        if details:
            text += " | " + "; ".join(repr(x) for x in details)
        raise Violation(text)


def expect_eq(got: Any, want: Any, message: str, *details: Any) -> None:
    """Exact comparison (type sensitive for bool/int/float at top level)."""
    if got != want:
        text = f"{message}: got {short(got)}, expected {short(want)}"
        if details:
            text += " | " + "; ".join(short(x) for x in details)
        raise Violation(text)


def short(item: Any, limit: int = 400) -> str:
    """A bounded repr."""
    text = repr(item)
    return text if len(text) <= limit else text[: limit - 3] + "..."


# --------------------------------------------------------------------------
# Choice points
# --------------------------------------------------------------------------


class Chooser:
    """
    Source of every non-deterministic decision of one execution. Decisions
    beyond the prefix take option zero.
    """

    def __init__(
        self, prefix: Iterable[int] = (), free: bool = False
    ) -> None:
        self.prefix = list(prefix)
        self.taken: list[int] = []
        self.width: list[int] = []
        self.cost: list[list[int]] = []
        self.labels: list[str] = []
        self.free = free
        self.used = 0

    def choose(
        self, count: int, label: str = "", costs: Optional[list[int]] = None
    ) -> int:
        """
        Pick one of 'count' options. 'costs' holds the deviation cost of each
        option (option zero is the default and free; others cost 1 unless
        stated otherwise).
        """
        assert count > 0
        idx = len(self.taken)
        choice = 0
        if idx < len(self.prefix):
            choice = self.prefix[idx]
            if choice >= count:
                raise ReplayDivergence(
                    f"choice {idx} ({label}): wanted option {choice}, "
                    f"only {count} available"
                )
        if costs is None:
            costs = [0] + [0 if self.free else 1] * (count - 1)
        self.taken.append(choice)
        self.width.append(count)
        self.cost.append(costs)
        self.labels.append(label)
        self.used += costs[choice]
        return choice

    def pick(self, items: list, label: str = "", **kwargs) -> Any:
        """Choose from a list of items."""
        return items[self.choose(len(items), label, **kwargs)]


class Stats:
    """Work counters of a (part of a) check."""

    def __init__(self) -> None:
        self.executions = 0
        self.transitions = 0
        self.states: set[bytes] = set()
        self.outcomes: set[bytes] = set()
        self.samples: list[str] = []
        self.exhausted = True
        self.replays = 0
        self.pruned = 0
        self.scenarios: dict[str, dict[str, int]] = {}
        self.notes: list[str] = []

    @staticmethod
    def digest(item: Any) -> bytes:
        """A digest of a canonical, hashable description."""
        return hashlib.blake2b(
            repr(item).encode("utf-8", "backslashreplace"), digest_size=8
        ).digest()

    def state(self, item: Any) -> bool:
        """Record a state. Returns true if it's new."""
        dig = self.digest(item)
        new = dig not in self.states
        self.states.add(dig)
        return new

    def outcome(self, item: Any) -> None:
        """Record a distinct observable outcome."""
        dig = self.digest(item)
        if dig not in self.outcomes:
            self.outcomes.add(dig)
            if len(self.samples) < 6:
                self.samples.append(short(item, 300))

    def step(self, count: int = 1) -> None:
        """Record executed transitions."""
        self.transitions += count

    def merge(self, other: "Stats") -> None:
        """Merge another worker's statistics."""
        self.executions += other.executions
        self.transitions += other.transitions
        self.states |= other.states
        self.outcomes |= other.outcomes
        for sample in other.samples:
            if len(self.samples) < 12:
                self.samples.append(sample)
        self.exhausted = self.exhausted and other.exhausted
        self.replays += other.replays
        self.pruned += other.pruned
        self.scenarios.update(other.scenarios)
        self.notes += other.notes


class Found:
    """A violation that was found."""

    def __init__(
        self,
        scenario: str,
        choices: list[int],
        labels: list[str],
        message: str,
        key: str,
        trace: str = "",
    ) -> None:
        self.scenario = scenario
        self.choices = choices
        self.labels = labels
        self.message = message
        self.key = key
        self.trace = trace


def repo_frames(exc: BaseException) -> bool:
    """Whether an exception's traceback passes through the code under test."""
    for frame in traceback.extract_tb(exc.__traceback__):
        if REPO_PREFIX in frame.filename:
            return True
    return False


# Set once an execution's alarm fired (event loops poll this).
HANG: list[int] = []


class alarm:
    """A wall-clock guard for one execution (a hang is a violation)."""

    def __init__(self, seconds: float) -> None:
        self.seconds = seconds

    def __enter__(self) -> None:
        if not self.seconds:
            return
        HANG.clear()

        def handler(*_: Any) -> None:
            HANG.append(1)
            raise Hang(f"no progress within {self.seconds}s")

        self.prev = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 1.0)

    def __exit__(self, *_: Any) -> None:
        if not self.seconds:
            return
        signal.setitimer(signal.ITIMER_REAL, 0.0)
        signal.signal(signal.SIGALRM, self.prev)


ScenarioFn = Callable[[Chooser, Stats], Any]


class Scenario:
    """
    One closed system to explore: 'fn(chooser, stats)' runs one execution.
    'bound' limits the total deviation cost of an execution (None: no limit,
    i.e. every combination of choices is explored).
    """

    def __init__(
        self,
        name: str,
        fn: ScenarioFn,
        bound: Optional[int] = None,
        max_runs: int = 2_000_000,
        limit_s: float = 30.0,
        key: Optional[str] = None,
        split: int = 0,
        replay_every: int = 997,
    ) -> None:
        self.replay_every = replay_every
        self.name = name
        self.fn = fn
        self.bound = bound
        self.max_runs = max_runs
        self.limit_s = limit_s
        self.key = key or name
        # Number of leading choice points to distribute over workers.
        self.split = split


def run_once(
    scenario: Scenario, prefix: list[int], stats: Stats
) -> tuple[Chooser, Optional[Found], Any]:
    """Run a single execution of a scenario."""
    chooser = Chooser(prefix)
    found = None
    result = None
    try:
        with alarm(scenario.limit_s):
            result = scenario.fn(chooser, stats)
    except ReplayDivergence:
        raise
    except Prune:
        stats.pruned += 1
    except Violation as exc:
        found = Found(
            scenario.name,
            chooser.taken,
            chooser.labels,
            str(exc),
            scenario.key,
            traceback.format_exc(),
        )
    except Hang as exc:
        found = Found(
            scenario.name,
            chooser.taken,
            chooser.labels,
            f"hang: {exc}",
            scenario.key,
            traceback.format_exc(),
        )
    except (Exception, asyncio.CancelledError, SystemExit) as exc:
        where = "unexpected exception" if repo_frames(exc) else "failure"
        found = Found(
            scenario.name,
            chooser.taken,
            chooser.labels,
            f"{where} {type(exc).__name__}: {exc}",
            scenario.key,
            traceback.format_exc(),
        )
    stats.executions += 1
    return chooser, found, result


def confirm(
    scenario: Scenario, found: Found
) -> tuple[bool, str]:
    """Re-execute a violating execution: it must violate again."""
    dummy = Stats()
    try:
        _, again, _ = run_once(scenario, found.choices, dummy)
    except ReplayDivergence as exc:
        return False, f"diverged: {exc}"
    if again is None:
        return False, "did not reproduce"
    return True, again.message


def children(
    scenario: Scenario, chooser: Chooser, start: int
) -> Iterator[list[int]]:
    """Unexplored alternatives of an execution, from choice 'start' on."""
    used = 0
    costs = []
    for idx, taken in enumerate(chooser.taken):
        costs.append(used)
        used += chooser.cost[idx][taken]
    for idx in range(len(chooser.taken) - 1, start - 1, -1):
        for alt in range(chooser.width[idx] - 1, chooser.taken[idx], -1):
            if (
                scenario.bound is not None
                and costs[idx] + chooser.cost[idx][alt] > scenario.bound
            ):
                continue
            yield chooser.taken[:idx] + [alt]


def explore(
    scenario: Scenario,
    stats: Stats,
    roots: Optional[list[list[int]]] = None,
    deadline: Optional[float] = None,
) -> list[Found]:
    """Depth-first enumeration of every execution within the bound."""
    violations: list[Found] = []
    stack: list[list[int]] = list(roots) if roots else [[]]
    runs = 0
    before = stats.executions
    while stack:
        if runs >= scenario.max_runs or (
            deadline is not None and time.monotonic() > deadline
        ):
            stats.exhausted = False
            stats.notes.append(
                f"{scenario.name}: stopped after {runs} executions, "
                f"{len(stack)} subtrees left"
            )
            break
        prefix = stack.pop()
        try:
            chooser, found, result = run_once(scenario, prefix, stats)
        except ReplayDivergence as exc:
            stats.exhausted = False
            stats.notes.append(f"{scenario.name}: diverged: {exc}")
            runs += 1
            continue
        runs += 1
        if found is not None:
            violations.append(found)
            break
        if scenario.replay_every and (
            runs == 1 or runs % scenario.replay_every == 0
        ):
            # Determinism: the same choices have to give the same result.
            try:
                again, found, result2 = run_once(
                    scenario, chooser.taken, Stats()
                )
            except ReplayDivergence as exc:
                again, found, result2 = chooser, None, str(exc)
            stats.replays += 1
            if found is not None:
                # It fails when it's run again: state leaked from the first
                # execution into the second one.
                found.message += " (second execution)"
                violations.append(found)
                break
            if (
                again.taken != chooser.taken
                or again.width != chooser.width
                or result2 != result
            ):
                stats.exhausted = False
                stats.notes.append(
                    f"{scenario.name}: execution is not deterministic: "
                    f"{short(result)} != {short(result2)}"
                )
        stack.extend(children(scenario, chooser, len(prefix)))
    stats.scenarios[scenario.name] = {
        "executions": stats.executions - before
    }
    return violations


# --------------------------------------------------------------------------
# Operation histories (explicit-state search by replay)
# --------------------------------------------------------------------------


class System:
    """
    A closed system driven by operations: the implementation and a reference
    model side by side. Sub-classes compare both in 'apply' and 'check'.
    """

    def ops(self) -> list:
        """Operations (hashable descriptions) enabled in this state."""
        raise NotImplementedError

    def apply(self, op: Any) -> None:
        """Apply an operation to implementation and model, and compare."""
        raise NotImplementedError

    def check(self) -> None:
        """Compare observable state after an operation."""

    def key(self) -> Any:
        """A canonical description of the (model and visible) state."""
        raise NotImplementedError

    def close(self) -> None:
        """Release resources."""


# Time at which the current check stops exploring.
DEADLINE: list[float] = []


def run_history(
    make: Callable[[], System], hist: Iterable[Any], stats: Stats
) -> System:
    """Execute a history from scratch."""
    done: list[Any] = []
    try:
        with alarm(30.0):
            system = make()
            for op in hist:
                done.append(op)
                system.apply(op)
                system.check()
                stats.transitions += 1
    except Hang as exc:
        raise Violation(f"{exc} | history {short(done, 900)}") from exc
    except (Violation, Prune):
        raise_with_history(done)
    except Exception as exc:
        if not repo_frames(exc):
            raise
        raise Violation(
            f"unexpected exception {type(exc).__name__}: {exc} "
            f"after history {short(done, 900)}"
        ) from exc
    return system


def raise_with_history(done: list[Any]) -> None:
    """Re-raise the current violation, with its history."""
    exc = sys.exc_info()[1]
    if isinstance(exc, Violation):
        raise Violation(f"{exc} | history {short(done, 900)}") from exc
    assert exc is not None
    raise exc


def search_histories(
    make: Callable[[], System],
    stats: Stats,
    full_depth: int,
    dedup_depth: int = 0,
    first: Optional[list[Any]] = None,
    max_states: int = 400_000,
) -> None:
    """
    Every operation sequence up to 'full_depth' (no merging of states), then
    breadth-first with merging of equal states up to 'dedup_depth'.
    """
    initial = tuple(first or ())
    frontier: list[tuple[Any, ...]] = [initial]
    system = run_history(make, initial, stats)
    stats.state(system.key())
    stats.outcome(system.key())
    system.close()
    seen: set[bytes] = set()
    depth = len(initial)
    while frontier and depth < max(full_depth, dedup_depth):
        nxt: list[tuple[Any, ...]] = []
        merge = depth + 1 >= full_depth
        for hist in frontier:
            if DEADLINE and time.monotonic() > DEADLINE[0]:
                stats.exhausted = False
                stats.notes.append(f"time limit reached at depth {depth}")
                return
            system = run_history(make, hist, stats)
            options = system.ops()
            system.close()
            for op in options:
                new = hist + (op,)
                system = run_history(make, new, stats)
                stats.executions += 1
                key = system.key()
                stats.state(key)
                stats.outcome(key)
                system.close()
                if merge:
                    dig = stats.digest(key)
                    if dig in seen:
                        continue
                    seen.add(dig)
                nxt.append(new)
        depth += 1
        frontier = nxt
        if len(seen) > max_states:
            stats.exhausted = False
            stats.notes.append(f"state limit reached at depth {depth}")
            break


# --------------------------------------------------------------------------
# Check driver
# --------------------------------------------------------------------------


def load_known() -> list[dict[str, str]]:
    """Load the committed list of known findings."""
    path = VERIF / "known_findings.json"
    if not path.is_file():
        return []
    return json.loads(path.read_text())["findings"]


class Check:
    """A property check: a list of scenarios and their evidence."""

    def __init__(
        self,
        prop: str,
        tier: str,
        kind: str = "model_checking",
        rule: str = "",
        assumptions: Optional[list[str]] = None,
        bounds: Optional[dict[str, Any]] = None,
    ) -> None:
        self.prop = prop
        self.tier = tier
        self.kind = kind
        self.rule = rule
        self.bounds = bounds or {}
        self.assumptions = assumptions or []
        self.scenarios: list[Scenario] = []
        self.budget_s = 480.0 if tier == "quick" else 780.0

    def add(self, name: str, fn: ScenarioFn, **kwargs: Any) -> None:
        """Add a scenario."""
        self.scenarios.append(Scenario(name, fn, **kwargs))

    def add_histories(
        self,
        name: str,
        make: Callable[[], System],
        full_depth: int,
        dedup_depth: int = 0,
        by_first: bool = True,
        **kwargs: Any,
    ) -> None:
        """
        Add an exploration of operation histories (spread over workers by
        first operation).
        """
        kwargs.setdefault("limit_s", 0.0)

        def whole(_: Chooser, stats: Stats) -> None:
            search_histories(make, stats, full_depth, dedup_depth)

        firsts: list[Any] = []
        if by_first:
            try:
                system = make()
                firsts = list(system.ops())
                system.close()
            except Exception:  # pylint: disable=broad-except
                firsts = []
        if not firsts:
            self.add(name, whole, replay_every=0, **kwargs)
            return

        def part(op: Any) -> ScenarioFn:
            def run(_: Chooser, stats: Stats) -> None:
                search_histories(
                    make, stats, full_depth, dedup_depth, first=[op]
                )

            return run

        for idx, op in enumerate(firsts):
            self.add(
                f"{name}/{idx}:{short(op, 40)}",
                part(op),
                replay_every=0,
                key=name,
                **kwargs,
            )

    @property
    def thorough(self) -> bool:
        """Whether this is the thorough tier."""
        return self.tier == "thorough"

    # -- running ----------------------------------------------------------

    def _expand(
        self, deadline: float
    ) -> list[tuple[int, Optional[list[list[int]]]]]:
        """Split scenarios over work items."""
        items: list[tuple[int, Optional[list[list[int]]]]] = []
        for idx, scenario in enumerate(self.scenarios):
            if not scenario.split:
                items.append((idx, None))
                continue
            # Enumerate prefixes up to 'split' choice points, each prefix is
            # a root of its own.
            frontier: list[list[int]] = [[]]
            final: list[list[int]] = []
            dummy = Stats()
            for _ in range(scenario.split):
                nxt = []
                for prefix in frontier:
                    chooser, found, _ = run_once(scenario, prefix, dummy)
                    if found is not None or len(chooser.taken) <= len(prefix):
                        final.append(prefix)
                        continue
                    pos = len(prefix)
                    used = sum(
                        chooser.cost[i][c] for i, c in enumerate(prefix)
                    )
                    for alt in range(chooser.width[pos]):
                        if (
                            scenario.bound is None
                            or used + chooser.cost[pos][alt]
                            <= scenario.bound
                        ):
                            nxt.append(prefix + [alt])
                frontier = nxt
                if time.monotonic() > deadline:
                    break
            roots = final + frontier
            chunks = max(1, min(len(roots), 32))
            for i in range(chunks):
                part = roots[i::chunks]
                if part:
                    items.append((idx, part))
        return items

    def run(self, jobs: Optional[int] = None) -> tuple[Stats, list[Found]]:
        """Run every scenario, spread over processes."""
        total = Stats()
        founds: list[Found] = []
        if jobs is None:
            jobs = int(os.environ.get("MC_JOBS", "0")) or min(
                8, os.cpu_count() or 1
            )
        deadline = time.monotonic() + self.budget_s
        items = self._expand(deadline)
        if jobs <= 1 or len(items) == 1:
            for idx, roots in items:
                stats, found = _work(self, idx, roots, deadline)
                total.merge(stats)
                founds += found
            return total, founds
        ctx = multiprocessing.get_context("fork")
        results = ctx.SimpleQueue()
        pending = list(range(len(items)))[::-1]
        running: dict[int, Any] = {}

        def child(num: int) -> None:
            idx, roots = items[num]
            try:
                out = _work(self, idx, roots, deadline)
            except BaseException:  # pylint: disable=broad-except
                out = (None, traceback.format_exc())  # type: ignore
            if os.environ.get("MC_COV"):
                from mc import cov

                cov.dump()
            results.put((num, out))

        error: Optional[str] = None
        done = 0
        # Group items into batches so that fork cost stays negligible.
        while pending or running:
            while pending and len(running) < jobs:
                num = pending.pop()
                proc = ctx.Process(target=child, args=(num,))
                proc.start()
                running[num] = proc
            # Wait for a result.
            while results.empty():
                time.sleep(0.005)
                dead = [
                    n
                    for n, p in running.items()
                    if not p.is_alive() and p.exitcode != 0
                ]
                if dead and results.empty():
                    for n in dead:
                        name = self.scenarios[items[n][0]].name
                        founds.append(
                            Found(
                                name,
                                [],
                                [],
                                "worker process died "
                                f"(exit code {running[n].exitcode})",
                                name,
                            )
                        )
                        running.pop(n)
                    if not running and not pending:
                        break
            if results.empty():
                continue
            num, out = results.get()
            running.pop(num).join()
            done += 1
            stats, found = out
            if stats is None:
                error = found
                break
            total.merge(stats)
            founds += found
            if founds and os.environ.get("MC_FAST"):
                break
        for proc in running.values():
            proc.terminate()
        if error:
            raise RuntimeError(error)
        return total, founds

    # -- reporting ----------------------------------------------------------

    def finish(self, seed: int, start: float) -> int:
        """Run, report and write evidence. Returns the exit code."""
        stats, founds = self.run()
        known = [
            x
            for x in load_known()
            if x.get("property") == self.prop and x.get("kind") == "known"
        ]
        matched: dict[str, Found] = {}
        fresh: list[Found] = []
        by_name = {x.name: x for x in self.scenarios}
        for found in founds:
            entry = None
            for item in known:
                if item["key"] == found.key and item["match"] in found.message:
                    entry = item
                    break
            if entry is not None:
                matched[entry["key"]] = found
                continue
            fresh.append(found)

        code = 0
        reported = []
        for num, found in enumerate(fresh):
            code = 1
            reported.append(found)
            if num >= 12:
                continue
            ok, msg = (True, found.message)
            if found.scenario in by_name and "died" not in found.message:
                ok, msg = confirm(by_name[found.scenario], found)
            path = self.write_replay(found, ok, msg)
            print(f"[{self.prop}] {found.scenario}: {found.message}")
            if not ok:
                print(f"[{self.prop}]   (re-execution: {msg})")
            if os.environ.get("MC_TRACE"):
                print(found.trace)
            print(f"VIOLATION property={self.prop} replay={path}")

        # Known findings.
        for item in known:
            if item["key"] in matched:
                print(
                    f"KNOWN-FINDING: property={self.prop} {item['what']}"
                )
        self.write_evidence(stats, reported, seed, time.time() - start)
        print(
            f"[{self.prop}] tier={self.tier} scenarios={len(self.scenarios)} "
            f"executions={stats.executions} states={len(stats.states)} "
            f"transitions={stats.transitions} "
            f"outcomes={len(stats.outcomes)} replays={stats.replays} "
            f"exhausted={stats.exhausted} wall={time.time() - start:.1f}s "
            f"{'VIOLATED' if code else 'ok'}"
        )
        for note in stats.notes[:5]:
            print(f"[{self.prop}]   note: {note}")
        return code

    def write_replay(self, found: Found, ok: bool, msg: str) -> Path:
        """Write a replay file."""
        out = VERIF / "replays"
        out.mkdir(exist_ok=True)
        name = "".join(c if c.isalnum() else "_" for c in found.scenario)
        path = out / f"{self.prop}-{name[:80]}.json"
        path.write_text(
            json.dumps(
                {
                    "property": self.prop,
                    "tier": self.tier,
                    "scenario": found.scenario,
                    "choices": found.choices,
                    "labels": found.labels,
                    "message": found.message,
                    "confirmed": ok,
                    "confirmation": msg,
                    "trace": found.trace,
                },
                indent=1,
            )
        )
        return path

    def write_evidence(
        self, stats: Stats, founds: list[Found], seed: int, wall: float
    ) -> None:
        """Write this check's evidence file."""
        out = VERIF / "evidence"
        out.mkdir(exist_ok=True)
        samples = stats.samples[:12] or ["(none)"]
        coverage: dict[str, Any] = {
            "samples": samples,
            "exhaustive": stats.exhausted,
            "bounds": self.bounds,
            "determinism_replays": stats.replays,
            "scenarios": len(self.scenarios),
            "notes": stats.notes[:20],
        }
        if self.kind == "model_checking":
            coverage["states"] = len(stats.states)
            coverage["transitions"] = stats.transitions
            coverage["traces_validated_against_impl"] = stats.executions
            coverage["distinct_outcomes"] = len(stats.outcomes)
            coverage["explanation"] = self.rule
        else:
            coverage["evaluations"] = stats.executions
            coverage["distinct_nontrivial"] = len(stats.outcomes)
            coverage["rule"] = self.rule
            coverage["steps"] = stats.transitions
            coverage["distinct_states"] = len(stats.states)
        data = {
            "property": self.prop,
            "tier": self.tier,
            "seed": seed,
            "level": self.kind,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 3),
            "violations": len(founds),
        }
        tmp = out / f"{self.prop}.json.tmp"
        tmp.write_text(json.dumps(data, indent=1))
        tmp.replace(out / f"{self.prop}.json")


def _work(
    check: Check,
    idx: int,
    roots: Optional[list[list[int]]],
    deadline: float,
) -> tuple[Stats, list[Found]]:
    """Explore one work item."""
    stats = Stats()
    DEADLINE[:] = [deadline]
    found = explore(check.scenarios[idx], stats, roots, deadline)
    return stats, found


CLEANUPS: list[Callable[[], Any]] = []


def main_exit(code: int) -> None:
    """Flush and leave without running interpreter teardown hooks."""
    for cleanup in CLEANUPS:
        cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
