"""
Mutation testing of the checks: mutate.py [--per-file N] [--jobs N] [FILE...]

Small syntactic changes are made to lines that checks execute (coverage from
MC_COV runs in /tmp/cov), in scratch copies; whatever no check notices is
listed, to be judged by hand. Not used by any check.
"""

import argparse
import ast
from concurrent.futures import ThreadPoolExecutor, as_completed
import json
import os
from pathlib import Path
import queue
import random
import shutil
import subprocess
import sys
import time

ROOT = Path(__file__).resolve().parents[1]
REPO = Path("/repo")
SWAP = {
    ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=",
    ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
    ast.NotIn: "in",
}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*"}
SKIP = ("logger", "LOG", "log_", "warning", "info", "debug", "error",
        "exception", "assert", "cast", "super")


def coverage() -> dict:
    """file -> line -> set of properties."""
    out: dict = {}
    for prop in sorted(Path("/tmp/cov").iterdir()):
        for item in prop.glob("*.json"):
            for name, lines in json.loads(item.read_text()).items():
                for line in lines:
                    out.setdefault(name, {}).setdefault(line, set()).add(
                        prop.name
                    )
    return out


class Mutator(ast.NodeVisitor):
    """Collects (start, end, text, label) edits in byte offsets."""

    def __init__(self, source: str) -> None:
        self.src = source.encode()
        self.offs = [0]
        for line in self.src.splitlines(keepends=True):
            self.offs.append(self.offs[-1] + len(line))
        self.edits: list = []
        self.depth = 0

    def span(self, node):
        return (
            self.offs[node.lineno - 1] + node.col_offset,
            self.offs[node.end_lineno - 1] + node.end_col_offset,
        )

    def text(self, node) -> str:
        beg, end = self.span(node)
        return self.src[beg:end].decode()

    def edit(self, node, text, label):
        beg, end = self.span(node)
        self.edits.append((node.lineno, beg, end, text, label))

    def visit_FunctionDef(self, node):
        self.depth += 1
        for item in node.body:
            self.visit(item)
        self.depth -= 1

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Assert(self, node):
        pass

    def visit_Compare(self, node):
        if self.depth and len(node.ops) == 1 and type(node.ops[0]) in SWAP:
            new = SWAP[type(node.ops[0])]
            self.edit(
                node,
                f"{self.text(node.left)} {new} "
                f"{self.text(node.comparators[0])}",
                "compare",
            )
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        if self.depth:
            oper = " or " if isinstance(node.op, ast.And) else " and "
            self.edit(
                node,
                "(" + oper.join(f"({self.text(x)})" for x in node.values) + ")",
                "boolop",
            )
            for drop in range(len(node.values)):
                rest = [x for i, x in enumerate(node.values) if i != drop]
                old = " and " if isinstance(node.op, ast.And) else " or "
                self.edit(
                    node,
                    "(" + old.join(f"({self.text(x)})" for x in rest) + ")",
                    f"drop operand {drop}",
                )
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if self.depth and isinstance(node.op, ast.Not):
            self.edit(node, f"bool({self.text(node.operand)})", "not")
        self.generic_visit(node)

    def visit_If(self, node):
        if isinstance(node.test, (ast.Name, ast.Attribute, ast.Call)):
            if self.depth:
                self.edit(node.test, f"(not {self.text(node.test)})", "if")
        self.generic_visit(node)

    def visit_Constant(self, node):
        if not self.depth:
            return
        if node.value is True or node.value is False:
            self.edit(node, str(not node.value), "bool")
        elif isinstance(node.value, int):
            self.edit(node, str(node.value + 1), "int")

    def visit_JoinedStr(self, node):
        pass

    def visit_BinOp(self, node):
        if self.depth and type(node.op) in BIN:
            self.edit(
                node,
                f"{self.text(node.left)} {BIN[type(node.op)]} "
                f"{self.text(node.right)}",
                "binop",
            )
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if self.depth and not any(x in self.text(node) for x in SKIP):
            if not isinstance(node.value, (ast.Yield, ast.YieldFrom)):
                self.edit(node, "pass", "delete")
        self.generic_visit(node)

    def visit_Assign(self, node):
        if self.depth and isinstance(
            node.targets[0], (ast.Attribute, ast.Subscript)
        ):
            self.edit(node, "pass", "delete")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        if self.depth:
            self.edit(node, "pass", "delete")
        self.generic_visit(node)

    def visit_Break(self, node):
        self.edit(node, "pass", "break")

    def visit_Continue(self, node):
        self.edit(node, "break", "continue")

    def visit_IfExp(self, node):
        if self.depth:
            self.edit(node, f"({self.text(node.body)})", "ifexp body")
            self.edit(node, f"({self.text(node.orelse)})", "ifexp else")
        self.generic_visit(node)

    def visit_Await(self, node):
        self.generic_visit(node)


def anchors() -> dict:
    """file -> properties."""
    out: dict = {}
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        prop = json.loads(line)
        for name in prop["anchors"]["files"]:
            out.setdefault(name.removeprefix("runtimepy/"), []).append(
                prop["id"]
            )
    return out


def walls() -> dict:
    """Wall time per property."""
    out = {}
    for path in (ROOT / "evidence").glob("*.json"):
        out[path.stem] = 1.0
    for line in Path("/tmp/runcov.log").read_text().splitlines():
        if "wall=" in line:
            out[line[1:4]] = float(line.split("wall=")[1].split("s")[0])
    return out


def main() -> None:
    """Entry."""
    parser = argparse.ArgumentParser()
    parser.add_argument("--per-file", type=int, default=1000)
    parser.add_argument("--jobs", type=int, default=4)
    parser.add_argument("--seed", type=int, default=1)
    parser.add_argument("--max-checks", type=int, default=4)
    parser.add_argument("--list", action="store_true")
    parser.add_argument("--tests", action="store_true")
    parser.add_argument("files", nargs="*")
    args = parser.parse_args()

    cov, anch, wall = coverage(), anchors(), walls()
    rand = random.Random(args.seed)
    work = []
    for name in args.files or sorted(cov):
        lines = cov.get(name, {})
        mut = Mutator((REPO / "runtimepy" / name).read_text())
        mut.visit(ast.parse(mut.src))
        pool = []
        for line, beg, end, text, label in mut.edits:
            props = lines.get(line, set())
            if not props:
                continue
            own = anch.get(name, []) + anch.get(str(Path(name).parent), [])
            order = sorted(
                props, key=lambda x: (x not in own, wall.get(x, 99))
            )
            pool.append((name, line, beg, end, text, label, order))
        rand.shuffle(pool)
        work += pool[: args.per_file]
    if args.list:
        for item in work:
            print(item[0], item[1], item[5], item[6])
        print(len(work))
        return
    rand.shuffle(work)
    copies: queue.Queue = queue.Queue()
    for num in range(args.jobs):
        path = Path(f"/tmp/mut{num}")
        shutil.rmtree(path, ignore_errors=True)
        shutil.copytree(REPO, path, symlinks=True)
        copies.put(path)
    cores = max(1, (os.cpu_count() or 8) // args.jobs)

    def run(item):
        name, line, beg, end, text, label, order = item
        path = copies.get()
        target = path / "runtimepy" / name
        src = target.read_bytes()
        start = time.time()
        try:
            new = src[:beg] + text.encode() + src[end:]
            target.write_bytes(new)
            env = dict(
                os.environ, MC_REPO=str(path), MC_NO_OUTPUT="1",
                MC_FAST="1", MC_JOBS=str(cores),
            )
            verdict = "SURVIVED"
            for prop in order[: args.max_checks]:
                try:
                    res = subprocess.run(
                        [str(ROOT / "check"), prop, "quick"],
                        env=env, capture_output=True, text=True,
                        timeout=500, check=False,
                    )
                except subprocess.TimeoutExpired:
                    verdict = f"TIMEOUT {prop}"
                    break
                if res.returncode == 1:
                    verdict = f"killed {prop}"
                    break
                if res.returncode:
                    verdict = f"ERROR {prop} {res.returncode} " + (
                        res.stderr[-300:].replace("\n", " | ")
                    )
                    break
        finally:
            target.write_bytes(src)
            copies.put(path)
        old = src[beg:end].decode().replace("\n", " ")
        old = " ".join(old.split())[:100]
        return (
            f"{verdict} {name}:{line} [{label}] {old} => "
            f"{' '.join(text.split())[:100]} ({','.join(order[:6])}) "
            f"{time.time() - start:.0f}s"
        )

    with ThreadPoolExecutor(args.jobs) as pool:
        for future in as_completed([pool.submit(run, x) for x in work]):
            print(future.result(), flush=True)


if __name__ == "__main__":
    main()
