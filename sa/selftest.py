"""Thorough tier: how sharp this property's obligations are.  Syntactic changes are made in memory to the functions the obligations run
(the analysed tree is not touched), each changed program is analysed statically, and the outcomes are counted; behaviour-preserving rewrites
(renamed locals, redundant parentheses and temporaries) are analysed as well and have to stay quiet."""
import ast
import copy
import multiprocessing as mp
import os
import random
import time

from .compare import EQ, NEQ, UND

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.Mod: ast.Add, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult}
BUDGET = int(os.environ.get("VERIF_SELFTEST_S", "420"))


def functions(tree, quals):
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            for f in n.body:
                if isinstance(f, ast.FunctionDef) and f"{n.name}.{f.name}" in quals:
                    yield f"{n.name}.{f.name}", f
        elif isinstance(n, ast.FunctionDef) and n.name in quals:
            yield n.name, n


def mutations(fn):
    """(description, do, undo) for every place of the function"""
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Raise, ast.JoinedStr)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef, ast.arguments)):
            for a in ast.walk(n.args if isinstance(n, ast.FunctionDef) else n):
                if isinstance(a, ast.arg) and a.annotation is not None:
                    skip |= {id(x) for x in ast.walk(a.annotation)}
            if isinstance(n, ast.FunctionDef) and n.returns is not None:
                skip |= {id(x) for x in ast.walk(n.returns)}
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            yield f"comparison at line {ln}", (n, "ops", [CMP[type(n.ops[0])]()])
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            yield f"operator at line {ln}", (n, "op", BIN[type(n.op)]())
        elif isinstance(n, ast.BoolOp):
            yield f"and/or at line {ln}", (n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())
        elif isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, float)):
            yield f"constant at line {ln}", (n, "value", (not n.value) if isinstance(n.value, bool) else n.value + 1)
        elif isinstance(n, (ast.If, ast.IfExp)):
            yield f"negated condition at line {ln}", (n, "test", ast.UnaryOp(ast.Not(), n.test))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            yield f"swapped arguments at line {ln}", (n, "args", [n.args[1], n.args[0]] + n.args[2:])
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.If, ast.For, ast.Break, ast.Continue, ast.Assert)) or isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant):
                        yield f"dropped statement at line {s.lineno}", (n, f, b[:i] + [ast.Pass()] + b[i + 1:])


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            n.id += "_r"
        return n


def renamed(fn):
    """locals under other names, returned values through a temporary"""
    args = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    if any(isinstance(n, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda)) and n is not fn for n in ast.walk(fn)):
        return None
    names = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args
    if not names:
        return None
    out = copy.deepcopy(fn)
    out.body = [Rename(names).visit(s) for s in out.body]
    return out


def build(root, quals):
    base = os.path.join(root, "src")
    for d, _, fs in sorted(os.walk(os.path.join(base, "pylattica"))):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, base)
            with open(p, encoding="utf-8") as h:
                tree = ast.parse(h.read())
            for q, fn in functions(tree, quals):
                for what, (node, field, new) in mutations(fn):
                    old = getattr(node, field)
                    setattr(node, field, new)
                    src = ast.unparse(ast.fix_missing_locations(tree))
                    setattr(node, field, old)
                    yield "change", f"{rel} {q}: {what}", rel, src
                r = renamed(fn)
                if r is not None:
                    old = fn.body
                    fn.body = r.body
                    src = ast.unparse(tree)
                    fn.body = old
                    yield "rewrite", f"{rel} {q}: renamed locals", rel, src


def work(job):
    root, pid, kind, what, rel, src = job
    import sys
    from .obligations import World
    from .report import decide
    sys.setrecursionlimit(20000)
    try:
        items = decide(World(root, overrides={rel: src}), pid)
    except Exception as e:
        return kind, what, "error", type(e).__name__
    vs = {i.verdict for i in items}
    v = "alarm" if NEQ in vs else "undecided" if UND in vs else "quiet"
    return kind, what, v, next((i.id for i in items if i.verdict == NEQ), "")


def run(pid, world, seed):
    t0 = time.time()
    quals = {q for _, q in world.analysed}
    root = world.root
    jobs = [(root, pid) + j for j in build(root, quals)]
    rng = random.Random(seed)
    rng.shuffle(jobs)
    jobs.sort(key=lambda j: j[2] != "rewrite")
    base = {}
    out = []
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1), maxtasksperchild=8) as pool:
        it = pool.imap_unordered(work, jobs)
        while True:
            left = BUDGET - (time.time() - t0)
            if left <= 0:
                break
            try:
                out.append(it.next(timeout=left))
            except (StopIteration, mp.TimeoutError):
                break
        pool.terminate()
    for kind, _, v, _ in out:
        base[(kind, v)] = base.get((kind, v), 0) + 1
    return {
        "selftest_rule": "one operator, constant, condition, argument order or statement changed in one analysed function, in memory; some such changes are equivalent or outside this property",
        "selftest_possible": len(jobs), "selftest_tried": len(out), "selftest_exhaustive": len(out) == len(jobs),
        "selftest_changes_reported": base.get(("change", "alarm"), 0), "selftest_changes_undecided": base.get(("change", "undecided"), 0),
        "selftest_changes_quiet": base.get(("change", "quiet"), 0), "selftest_errors": base.get(("change", "error"), 0) + base.get(("rewrite", "error"), 0),
        "selftest_rewrites_quiet": base.get(("rewrite", "quiet"), 0) + base.get(("rewrite", "undecided"), 0), "selftest_rewrites_alarmed": base.get(("rewrite", "alarm"), 0),
        "selftest_samples": [{"kind": k, "what": w, "outcome": v, "by": b} for k, w, v, b in sorted(out)[:60]],
    }
