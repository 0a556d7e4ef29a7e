#!/usr/bin/env python3
"""Sensitivity: small seeded edits of the library that pass its tests; which checks see them?

mutate.py FILE[:NAMEPATTERN] ... --out OUT.jsonl [--sample N] [--props C08,...] [--runs N]

Works on scratch copies of /repo under /tmp, which it removes.  Not part of any check.
"""
from __future__ import annotations

import argparse
import ast
import copy
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import tempfile

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CMP = {
    ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE], ast.LtE: [ast.Lt],
    ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
    ast.In: [ast.NotIn], ast.NotIn: [ast.In],
}


def variants(node, parent, field):
    """Replacement nodes for one node."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for new in CMP.get(type(node.ops[0]), []):
            n = copy.deepcopy(node)
            n.ops = [new()]
            yield "compare", n
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        yield "boolop", n
        for i in range(len(node.values)):
            if len(node.values) == 2:
                yield "drop operand", copy.deepcopy(node.values[1 - i])
            else:
                n = copy.deepcopy(node)
                del n.values[i]
                yield "drop operand", n
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "drop not", copy.deepcopy(node.operand)
    if isinstance(node, ast.BinOp):
        swaps = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitOr: ast.BitAnd}
        if type(node.op) in swaps:
            n = copy.deepcopy(node)
            n.op = swaps[type(node.op)]()
            yield "binop", n
    if isinstance(node, ast.Constant) and not isinstance(parent, (ast.JoinedStr, ast.Expr)):
        v = node.value
        if isinstance(v, bool):
            yield "constant", ast.Constant(not v)
        elif isinstance(v, int):
            yield "constant", ast.Constant(v + 1)
            if v:
                yield "constant", ast.Constant(v - 1)
        elif v is None and field in ("value", "body", "orelse"):
            pass
        elif isinstance(v, str) and v and field != "annotation":
            yield "constant", ast.Constant(v + "x")
    if isinstance(node, (ast.If, ast.While)):
        n = copy.deepcopy(node)
        n.test = ast.Constant(False)
        yield "never", n
        if isinstance(node, ast.If):
            n = copy.deepcopy(node)
            n.test = ast.Constant(True)
            yield "always", n
    if isinstance(node, ast.IfExp):
        yield "ifexp", copy.deepcopy(node.body)
        yield "ifexp", copy.deepcopy(node.orelse)
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Return)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            yield "delete", ast.Pass()
    if isinstance(node, ast.Break):
        yield "break", ast.Continue()
    if isinstance(node, ast.Continue):
        yield "continue", ast.Break()
        yield "continue", ast.Pass()
    if isinstance(node, ast.Call):
        name = ast.unparse(node.func)
        if len(node.args) == 1 and not node.keywords and name.split(".")[-1] in (
            "list", "tuple", "deepcopy", "copy", "str", "int", "iter", "enumerate", "_flatten",
            "reversed", "sorted", "set", "bool", "strip", "dict",
        ):
            yield "drop call", copy.deepcopy(node.args[0])
        if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
            yield "drop method", copy.deepcopy(node.func.value)
        if len(node.args) == 2:
            n = copy.deepcopy(node)
            n.args.reverse()
            yield "swap arguments", n
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node)
            del n.keywords[i]
            yield "drop keyword", n
    if isinstance(node, ast.Tuple) and len(node.elts) > 1 and isinstance(node.ctx, ast.Load):
        for i in range(len(node.elts)):
            n = copy.deepcopy(node)
            del n.elts[i]
            yield "drop element", n
    if isinstance(node, ast.ExceptHandler):
        n = copy.deepcopy(node)
        n.type = ast.Name("ZeroDivisionError", ast.Load())
        yield "except", n
    if isinstance(node, ast.ListComp) and field == "value":
        yield "lazy", ast.GeneratorExp(copy.deepcopy(node.elt), copy.deepcopy(node.generators))
    if isinstance(node, ast.comprehension):
        for i in range(len(node.ifs)):
            n = copy.deepcopy(node)
            del n.ifs[i]
            yield "drop condition", n
    if isinstance(node, (ast.Try,)) and not node.finalbody and len(node.body) == 1:
        yield "untry", copy.deepcopy(node.body[0])
    if isinstance(node, ast.Slice):
        for f in ("lower", "upper", "step"):
            if getattr(node, f) is not None:
                n = copy.deepcopy(node)
                setattr(n, f, None)
                yield "slice", n
    if isinstance(node, ast.Starred):
        pass


def sites(tree, pattern):
    out = []

    def walk(node, qual):
        for field, value in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list", "type_comment"):
                continue
            items = list(enumerate(value)) if isinstance(value, list) else [(None, value)]
            for i, child in items:
                if not isinstance(child, ast.AST):
                    continue
                q = qual
                if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    q = qual + "." + child.name if qual else child.name
                if isinstance(child, (ast.Import, ast.ImportFrom)):
                    continue
                if q and re.search(pattern, q):
                    for what, new in variants(child, node, field):
                        out.append((node, field, i, child, what, new, q))
                walk(child, q)

    walk(tree, "")
    return out


def mutants(path, pattern):
    src = open(path).read()
    tree = ast.parse(src)
    seen = set()
    for node, field, i, child, what, new, q in sites(tree, pattern):
        if i is None:
            setattr(node, field, new)
        else:
            getattr(node, field)[i] = new
        try:
            text = ast.unparse(ast.fix_missing_locations(tree))
        finally:
            if i is None:
                setattr(node, field, child)
            else:
                getattr(node, field)[i] = child
        if text in seen:
            continue
        seen.add(text)
        try:
            old = ast.unparse(child).splitlines()[0]
            fresh = ast.unparse(new).splitlines()[0]
        except Exception:
            old = fresh = type(child).__name__
        yield {
            "where": q, "line": getattr(child, "lineno", 0), "what": what,
            "old": old[:110], "new": fresh[:110], "text": text,
        }


def work(job):
    m, props, runs = job
    tmp = tempfile.mkdtemp(prefix="mut")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree(
            "/repo", repo, ignore=shutil.ignore_patterns(".git", "docs", "__pycache__")
        )
        with open(os.path.join(repo, m["file"]), "w") as fd:
            fd.write(m["text"])
        env = dict(
            os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
            PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"),
        )
        try:
            t = subprocess.run(
                [PY, "-m", "pytest", "-q", "-x", "-p", "pytest_timeout", "-p",
                 "no:cacheprovider", "--timeout=60", "--ignore=tests/test_nts.py",
                 "--basetemp=" + os.path.join(tmp, "t")],
                cwd=repo, env=env, capture_output=True, timeout=240,
            )
            if t.returncode:
                return dict(m, tests="killed")
        except subprocess.TimeoutExpired:
            return dict(m, tests="killed")
        m = dict(m, tests="survived", checks={})
        for p in props:
            env = {k: v for k, v in os.environ.items() if not k.startswith("DST")}
            env["VERIF_REPO"] = repo
            env["VERIF_OUT"] = os.path.join(tmp, "out")
            try:
                r = subprocess.run(
                    [PY, os.path.join(HERE, "run.py"), p, "--workers", "1", "--runs",
                     str(runs[p]), "--first"],
                    env=env, capture_output=True, text=True, timeout=900,
                )
                m["checks"][p] = (r.returncode, r.stdout[-600:] if r.returncode == 1
                                  else r.stderr[-600:] if r.returncode else "")
                if r.returncode == 1:
                    break
            except subprocess.TimeoutExpired:
                m["checks"][p] = (-1, "timeout")
        return m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("targets", nargs="+")
    ap.add_argument("--out", required=True)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--props", default="C08,C09,C11,C12,C15,C18")
    ap.add_argument("--runs", default="C08=4000,C09=2500,C11=4000,C12=6000,C15=5000,C18=4000")
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    jobs = []
    for target in a.targets:
        path, _, pattern = target.partition(":")
        for m in mutants(os.path.join("/repo", path), pattern or "."):
            jobs.append(dict(m, file=path))
    random.Random(a.seed).shuffle(jobs)
    if a.sample:
        jobs = jobs[: a.sample]
    print(len(jobs), "mutants", flush=True)
    props = a.props.split(",")
    runs = {k: int(v) for k, v in (x.split("=") for x in a.runs.split(","))}
    killed = caught = missed = 0
    with open(a.out, "w") as fd, multiprocessing.Pool(a.workers) as pool:
        for m in pool.imap_unordered(work, [(j, props, runs) for j in jobs]):
            m.pop("text")
            if m["tests"] == "killed":
                killed += 1
            elif any(c[0] == 1 for c in m["checks"].values()):
                caught += 1
            else:
                missed += 1
            fd.write(json.dumps(m) + "\n")
            fd.flush()
    print(f"killed by tests {killed}, caught {caught}, missed {missed}")


if __name__ == "__main__":
    main()
