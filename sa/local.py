"""Local differences: where the dataflow summary of an entry point decides nothing, but the functions it runs differ from the reference model in one
place only, the differing statement is compared on its own, with the variables it reads as symbolic inputs (those assigned once are replaced by their definition)."""
import ast
import re
import copy

from . import leaf
from .compare import EQ, NEQ, UND
from .nodes import N, TRUE
from .program import MUTATORS, AnalysisError, Func
from .summary import Diff, compare, summarize


class Edit:
    def __init__(self, kind, func_ref, func_cur, a, b, line, parents=(), after=None):
        self.kind, self.fr, self.fc, self.a, self.b, self.line, self.parents, self.after = kind, func_ref, func_cur, a, b, line, parents, after


class TooDifferent(Exception):
    pass


def dump(n):
    return ast.dump(n) if isinstance(n, ast.AST) else repr(n)


def strip(body):
    out = []
    for s in body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                continue
            n = ast.Assign(targets=[s.target], value=s.value)
            s = ast.copy_location(n, s)
        out.append(s)
    return out


HEADER = {ast.If: ("test",), ast.While: ("test",), ast.For: ("target", "iter"), ast.With: ("items",), ast.Try: ("handlers",)}
BODIES = ("body", "orelse", "finalbody")


def clean(node):
    """normal form for comparing two syntax trees"""
    node = copy.deepcopy(node)
    for n in ast.walk(node):
        for f in BODIES:
            v = getattr(n, f, None)
            if isinstance(v, list):
                setattr(n, f, strip(v))
        if hasattr(n, "type_comment"):
            n.type_comment = None
    return node


def diff_block(a, b, out, fr, fc, parents):
    a, b = strip(a), strip(b)
    da, db = [dump(clean(x)) for x in a], [dump(clean(x)) for x in b]
    i = 0
    while i < len(a) and i < len(b) and da[i] == db[i]:
        i += 1
    j = 0
    while j < len(a) - i and j < len(b) - i and da[len(a) - 1 - j] == db[len(b) - 1 - j]:
        j += 1
    ma, mb = a[i:len(a) - j], b[i:len(b) - j]
    after = b[len(b) - j:] if j else []
    if not ma and not mb:
        return
    if not ma:
        out.append(Edit("insert", fr, fc, [], mb, mb[0].lineno, parents, ([], after)))
        return
    if not mb:
        out.append(Edit("delete", fr, fc, ma, [], (after[0].lineno if after else parents[-1][1].lineno if parents else fc.line), parents, (a[len(a) - j:] if j else [], after)))
        return
    if len(ma) != len(mb):
        out.append(Edit("block", fr, fc, ma, mb, mb[0].lineno, parents, (a[len(a) - j:] if j else [], after)))
        return
    if len(ma) > 1 and sorted(da[i:len(a) - j]) == sorted(db[i:len(b) - j]):
        out.append(Edit("move", fr, fc, ma, mb, mb[0].lineno, parents))
        return
    one = []
    try:
        for x, y in zip(ma, mb):
            diff_stmt(x, y, one, fr, fc, parents)
    except TooDifferent:
        one = [Edit("block", fr, fc, ma, mb, mb[0].lineno, parents, (a[len(a) - j:] if j else [], after))]
    out += one


def diff_stmt(x, y, out, fr, fc, parents):
    if dump(clean(x)) == dump(clean(y)):
        return
    if type(x) is not type(y):
        if isinstance(y, ast.If) and not strip(y.orelse) and [dump(clean(s)) for s in strip(y.body)] == [dump(clean(x))]:
            out.append(Edit("guard", fr, fc, x, y, y.lineno, parents))
            return
        if isinstance(x, ast.If) and not strip(x.orelse) and [dump(clean(s)) for s in strip(x.body)] == [dump(clean(y))]:
            out.append(Edit("unguard", fr, fc, x, y, y.lineno, parents))
            return
        if isinstance(x, (ast.Assign, ast.AugAssign)) and isinstance(y, (ast.Assign, ast.AugAssign)):
            out.append(Edit("stmt", fr, fc, x, y, y.lineno, parents))
            return
        raise TooDifferent
    if isinstance(x, (ast.If, ast.While, ast.For, ast.With)):
        heads = HEADER[type(x)]
        if any(dump_h(getattr(x, h)) != dump_h(getattr(y, h)) for h in heads):
            if isinstance(x, (ast.If, ast.While)):
                out.append(Edit("test", fr, fc, x.test, y.test, y.lineno, parents))
            elif isinstance(x, ast.For):
                if dump(x.target) != dump(y.target) and not (
                        isinstance(x.target, ast.Name) and isinstance(y.target, ast.Name) and not any(x.target.id in names(s) for s in ast.walk(fr.node) if isinstance(s, ast.stmt))):
                    out.append(Edit("block", fr, fc, [x], [y], y.lineno, parents))
                    return
                if dump(x.iter) != dump(y.iter):
                    out.append(Edit("iter", fr, fc, x.iter, y.iter, y.lineno, parents, (x, y)))
            else:
                raise TooDifferent
        p = parents + ((x, y),)
        diff_block(x.body, y.body, out, fr, fc, p)
        if hasattr(x, "orelse"):
            diff_block(x.orelse, y.orelse, out, fr, fc, p)
        return
    if isinstance(x, ast.FunctionDef) and dump(x.args) == dump(y.args):
        diff_block(x.body, y.body, out, fr, fc, parents + ((x, y),))
        return
    if isinstance(x, ast.Return):
        if x.value is None or y.value is None:
            raise TooDifferent
        out.append(Edit("value", fr, fc, x.value, y.value, y.lineno, parents))
        return
    if isinstance(x, ast.Assign) and [dump(t) for t in x.targets] == [dump(t) for t in y.targets] and all(isinstance(t, ast.Name) for t in x.targets):
        out.append(Edit("value", fr, fc, x.value, y.value, y.lineno, parents))
        return
    if isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert, ast.Raise, ast.Delete)):
        out.append(Edit("stmt", fr, fc, x, y, y.lineno, parents))
        return
    raise TooDifferent


def dump_h(v):
    if isinstance(v, list):
        return [dump(x) for x in v]
    return dump(v)


# ------------------------------------------------------------------ names
def names(n, ctx=ast.Load):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def locals_of(fn):
    out = {}
    a = fn.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
        out.setdefault(p.arg, []).append(p)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.setdefault(n.id, []).append(n)
    return out


def inner_bound(expr):
    """names bound inside the expression itself"""
    out = set()
    for n in ast.walk(expr):
        if isinstance(n, ast.comprehension):
            out |= names(n.target, ast.Store)
        elif isinstance(n, ast.Lambda):
            out |= {a.arg for a in n.args.args}
        elif isinstance(n, ast.NamedExpr):
            out |= names(n.target, ast.Store)
    return out


def single_defs(fn):
    """local -> the one plain assignment that defines it"""
    loc = locals_of(fn)
    out = {}
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and len(loc[s.targets[0].id]) == 1:
            out[s.targets[0].id] = s
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name) and len(loc[s.target.id]) == 1:
            out[s.target.id] = s
    return out


def touched(fn):
    """locals whose content is changed in place"""
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            b = n.func.value
        elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
        elif isinstance(n, ast.AugAssign):
            b = n.target
        else:
            continue
        while isinstance(b, (ast.Subscript, ast.Attribute)):
            b = b.value
        if isinstance(b, ast.Name):
            out.add(b.id)
    return out


def inlinable(fr, fc):
    a, b = fr.node, fc.node
    la, lb = locals_of(a), locals_of(b)
    da, db = single_defs(a), single_defs(b)
    bad = touched(a) | touched(b)
    ok = {x for x in set(da) | set(db) if (x in da or x not in la) and (x in db or x not in lb)} - bad
    return {x: d for x, d in da.items() if x in ok}, {x: d for x, d in db.items() if x in ok}


def own_containers(e, sa, sb):
    """local containers one side extends in place and the other replaces: {name: constructor}, when every other value of the variable is built right
    there in the function, so that nobody else can see the difference; None when that is not known"""
    bound = [set().union(*[names(s, ast.Store) for s in ss]) if ss else set() for ss in (sa, sb)]
    mixed = receivers(sa, False) & bound[1] | receivers(sb, False) & bound[0]
    out = {}
    for x in sorted(mixed):
        kinds = set()
        for fn in (e.fr.node, e.fc.node):
            if x in {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}:
                return None
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in n.targets):
                    v = n.value
                    k = "list" if isinstance(v, (ast.List, ast.ListComp)) else "set" if isinstance(v, (ast.Set, ast.SetComp)) else "dict" if isinstance(v, (ast.Dict, ast.DictComp)) else None
                    if k is None and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "set", "dict"):
                        k = v.func.id
                    if k is not None:
                        kinds.add(k)
                    elif x not in names(v):
                        return None
        if len(kinds) != 1:
            return None
        out[x] = kinds.pop()
    return out


def cut(func, stmts, line, ret, defs, own=None):
    """a function that runs the statements with everything they read as parameters"""
    fn = func.node
    loc = locals_of(fn)
    selfname = None
    if func.cls is not None and not func.is_static and fn.args.args:
        selfname = fn.args.args[0].arg
    need, prelude, seen = [], [], set()
    todo = []
    for s in stmts:
        b = inner_bound(s)
        todo += [x for x in sorted(names(s)) if x in loc and x not in b]
    if isinstance(ret, ast.AST):
        todo += [x for x in sorted(names(ret)) if x in loc]
    for s in stmts:
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            todo.append(s.target.id)
    while todo:
        x = todo.pop()
        if x in seen or x == selfname:
            continue
        seen.add(x)
        d = defs.get(x)
        if d is not None and d.lineno < line and len(prelude) < 12:
            prelude.append(d)
            b = inner_bound(d.value)
            todo += [y for y in sorted(names(d.value)) if y in loc and y not in b]
        else:
            need.append(x)
    anns = {p.arg: p.annotation for p in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    args = ([ast.arg(arg=selfname)] if selfname else []) + [ast.arg(arg=x, annotation=anns.get(x)) for x in sorted(need)]
    body = sorted((copy.deepcopy(p) for p in prelude), key=lambda s: s.lineno)
    for x, k in (own or {}).items():
        if x in need:
            body.append(ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())], value=call(k, ast.Name(id=x, ctx=ast.Load()))))
    body += [copy.deepcopy(s) for s in stmts]
    if ret is not None:
        body.append(ast.Return(value=copy.deepcopy(ret)))
    node = ast.FunctionDef(name=fn.name, args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[], returns=None)
    ast.copy_location(node, fn)
    for n in ast.walk(node):
        if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr)):
            n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = line, 0, line, 0
    ast.fix_missing_locations(node)
    f = Func(node, func.module, func.cls)
    f.is_classmethod, f.is_static = func.is_classmethod, func.is_static
    return f


def call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


def jumps(stmts):
    return any(isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Try)) for s in stmts for n in ast.walk(s))


def uses(stmts, name):
    """reading a variable along the statements: 'use' before it is set again, 'kill' when it is set first, 'through' otherwise"""
    for s in stmts:
        if isinstance(s, (ast.If, ast.While)):
            if name in names(s.test):
                return "use"
            r = [uses(s.body, name), uses(s.orelse, name)]
            if "use" in r:
                return "use"
            if isinstance(s, ast.If) and r == ["kill", "kill"]:
                return "kill"
        elif isinstance(s, ast.For):
            if name in names(s.iter) or name not in names(s.target, ast.Store) and uses(s.body, name) == "use" or uses(s.orelse, name) == "use":
                return "use"
        elif isinstance(s, (ast.With, ast.Try, ast.FunctionDef)):
            if name in names(s):
                return "use"
        else:
            if name in names(s) or isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                return "use"
            if name in names(s, ast.Store):
                return "kill"
            if isinstance(s, (ast.Return, ast.Raise)):
                return "kill"
            if isinstance(s, (ast.Break, ast.Continue)):
                return "through"
    return "through"


def following(fn, stmt):
    """the statements after `stmt` in each enclosing block, innermost first"""
    def walk(body):
        for i, s in enumerate(body):
            if s is stmt:
                return [body[i + 1:]]
            for f in BODIES:
                b = getattr(s, f, None)
                if isinstance(b, list):
                    r = walk(b)
                    if r is not None:
                        return r + [body[i + 1:]]
        return None
    return walk(fn.body) or []


def read_later(e, name):
    side = 0 if e.kind == "delete" else 1
    fn = (e.fr, e.fc)[side].node
    last = (e.a, e.b)[side][-1]
    enclosing = [p[side] for p in reversed(e.parents)]
    for i, rest in enumerate(following(fn, last)):
        r = uses(rest, name)
        if r == "use":
            return True
        if r == "kill":
            return False
        if i < len(enclosing):
            p = enclosing[i]
            if isinstance(p, ast.While) and name in names(p.test):
                return True
            if isinstance(p, (ast.For, ast.While)) and not (isinstance(p, ast.For) and name in names(p.target, ast.Store)) and uses(p.body, name) == "use":
                return True
    return False


def pieces(e):
    """(statements, returned expression) of the two sides"""
    if e.kind in ("insert", "delete"):
        stmts = e.a or e.b
        if jumps(stmts):
            return None
        other = e.fc if e.kind == "delete" else e.fr
        there = set(locals_of(other.node))
        outs = []
        for x in sorted(set().union(*[names(s, ast.Store) for s in stmts])):
            if x in there and read_later(e, x):
                outs.append(x)
            elif x not in there:
                pass
        r = seen_as(e, outs)
        return (e.a, r), (e.b, r)
    if e.kind in ("guard", "unguard"):
        if jumps([e.a, e.b]):
            return None
        outs = sorted(names(e.a, ast.Store) | names(e.b, ast.Store))
        r = seen_as(e, outs)
        return ([e.a], r), ([e.b], r)
    if e.kind == "block":
        if jumps(e.a + e.b):
            return None
        la, lb = locals_of(e.fr.node), locals_of(e.fc.node)
        outs = [x for x in sorted(set().union(*[names(s, ast.Store) for s in e.a + e.b])) if read_later(e, x)]
        if any(x not in la or x not in lb for x in outs):
            return None
        r = seen_as(e, outs)
        return (e.a, r), (e.b, r)
    if e.kind == "value":
        return ([], e.a), ([], e.b)
    if e.kind == "test":
        return ([], call("bool", e.a)), ([], call("bool", e.b))
    if e.kind == "iter":
        return ([], call("list", e.a)), ([], call("list", e.b))
    if e.kind == "stmt":
        outs = sorted(names(e.a, ast.Store) | names(e.b, ast.Store))
        r = seen_as(e, outs)
        return ([e.a], r), ([e.b], r)
    return None


LOSSY = {"set", "frozenset", "dict", "sorted", "min", "max", "len", "sum", "any", "all", "bool", "Counter"}


def consumers(e, name):
    """how the rest of the function sees a variable: the lossy calls it goes through, or None when it is also looked at in other ways.  Reads inside
    the differing statements, and those that only carry the variable on into itself, are set aside"""
    got = []
    for fn, part in ((e.fr.node, e.a), (e.fc.node, e.b)):
        inside = {id(n) for s in (part if isinstance(part, list) else [part]) for n in ast.walk(s)}
        par = {id(c): n for n in ast.walk(fn) for c in ast.iter_child_nodes(n)}
        seen = set()
        for n in ast.walk(fn):
            if id(n) in inside or not (isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)):
                continue
            p = par.get(id(n))
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in LOSSY and p.args == [n] and not p.keywords:
                seen.add(p.func.id)
            elif isinstance(p, ast.Compare) and p.comparators == [n] and isinstance(p.ops[0], (ast.In, ast.NotIn)):
                seen.add("set")
            elif isinstance(p, (ast.If, ast.While)) and p.test is n or isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
                seen.add("bool")
            else:
                return None
        got.append(seen)
    return sorted(got[0] | got[1])


def seen_as(e, outs):
    """the outputs as the rest of the function sees them"""
    r = []
    for x in outs:
        c = consumers(e, x)
        n = lambda: ast.Name(id=x, ctx=ast.Load())
        r += [n()] if not c else [call(f, n()) for f in c]
    return ast.Tuple(elts=r, ctx=ast.Load()) if r else None


class Leaves(ast.NodeTransformer):
    """the jumps that end one pass through a loop body, written as returns of what the pass leaves behind"""

    def __init__(self, outs, tags):
        self.outs, self.tags, self.breaks = outs, tags, 0

    def leave(self, tag, n):
        e = ast.Tuple(elts=[ast.Constant(value=tag if self.tags else "next")] + [ast.Name(id=x, ctx=ast.Load()) for x in self.outs], ctx=ast.Load())
        return ast.copy_location(ast.Return(value=e), n)

    def visit_Break(self, n):
        self.breaks += 1
        return self.leave("break", n)

    def visit_Continue(self, n):
        return self.leave("next", n)

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_Lambda = visit_For


def one_pass(e):
    """the innermost loop body around the difference: (statements, returned expression) of one pass on the two sides, with and without telling
    how the pass ends"""
    loop = next((p for p in reversed(e.parents) if isinstance(p[0], (ast.For, ast.While))), None)
    if loop is None:
        return None
    for s in loop[0].body + loop[1].body:
        if any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Try)) for n in ast.walk(s)):
            return None
    outs = []
    for side, fn in ((0, e.fr.node), (1, e.fc.node)):
        l = loop[side]
        for x in sorted(set().union(*[names(s, ast.Store) for s in l.body])):
            if uses(l.body, x) == "use" or isinstance(l, ast.While) and x in names(l.test) or uses(l.orelse, x) == "use" or any(uses(rest, x) == "use" for rest in following(fn, l)):
                outs.append(x)
    outs = sorted(set(outs))
    if any(x not in locals_of(e.fr.node) or x not in locals_of(e.fc.node) for x in outs):
        return None
    res = []
    for tags in (True, False):
        sides = []
        for side in (0, 1):
            t = Leaves(outs, tags)
            body = [t.visit(copy.deepcopy(s)) for s in loop[side].body]
            r = t.leave("next", loop[side].body[-1]).value
            sides.append((body, r, loop[side].body[0].lineno, t.breaks))
        res.append(sides)
    return res


def each_time(s):
    """one pass always adds to something, or always calls something that is not ours"""
    for k, (segs, _) in s.fx.items():
        if k.op != "queue" and any(z.args[0] in ("item", "itemleft", "spread") and not isinstance(z.args[1], N) and z.args[3] is TRUE for z in segs):
            return True
    return any(ev["guard"] is TRUE and ev["name"] not in QUIET_CALLS for ev in s.events)


QUIET_CALLS = {"print", "tqdm", "next", "set_description", "close"}


def judge_pass(world, e):
    res = one_pass(e)
    if res is None:
        return UND, []
    from .obligations import CALLS, INLINE
    da, db = inlinable(e.fr, e.fc)
    cls = e.fr.cls.name if e.fr.cls else None
    last = UND, []
    own = own_containers(e, res[0][0][0], res[0][1][0])
    if own is None:
        return UND, []
    for level in (INLINE, CALLS):
        pr = world.prims(level, world.ref, cls, e.fr.name)
        got = []
        for (sa, ra, la, na), (sb, rb, lb, nb) in res:
            fa, fb = cut(e.fr, sa, la, ra, da, own), cut(e.fc, sb, lb, rb, db, own)
            if [x.arg for x in fa.node.args.args if x.arg not in locals_of(e.fr.node)] or [x.arg for x in fb.node.args.args if x.arg not in locals_of(e.fc.node)]:
                return UND, []
            x = summarize(world.ref, cls=cls, meth=e.fr.name, prims=pr, func_obj=fa)
            y = summarize(world.cur, cls=cls, meth=e.fc.name, prims=pr, func_obj=fb)
            ds, _ = compare(x, y)
            vs = {d.verdict for d in ds}
            got.append((EQ if vs <= {EQ} else NEQ if NEQ in vs else UND, ds, x, y, na, nb))
        if got[0][0] == EQ:
            return EQ, []
        told, plain = got
        if level is CALLS and told[2].used != told[3].used:
            break
        if plain[0] == NEQ:
            return NEQ, [d for d in plain[1] if d.verdict == NEQ]
        if plain[0] == EQ and told[0] == NEQ and bool(told[4]) != bool(told[5]) and each_time(told[2] if not told[4] else told[3]):
            # the same in one pass, but only one side ever stops early, and every further pass would have done something
            return NEQ, [d for d in told[1] if d.verdict == NEQ]
        last = UND, plain[1]
    return last


def opaque_in(e, da, db):
    la, lb = locals_of(e.fr.node), locals_of(e.fc.node)
    return lambda x: x in la and x in lb and x not in da and x not in db


def external(world, n):
    """a method or attribute no class of the package defines"""
    c = world.__dict__.get("own_names")
    if c is None:
        c, mods = set(), set()
        for p in (world.ref, world.cur):
            c |= set(p.assigned_attrs())
            for C in p.all_classes():
                c |= set(C.methods) | set(C.attrs)
                for f in C.methods.values():
                    c |= {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
            for m in p.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Import):
                        mods |= {(y.asname or y.name.split(".")[0]) for y in x.names if not y.name.startswith("pylattica")}
        world.own_names, world.ext_modules = c, mods
    if isinstance(n.value, ast.Name) and n.value.id in world.ext_modules:
        return True
    return n.attr not in c


READERS = {"values", "items", "keys", "get", "copy", "index", "count", "startswith", "endswith", "split", "strip", "lower", "upper", "join", "tolist"}


def receivers(stmts, readers=True):
    """variables on which the statements call something, or in which they store"""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if not readers and n.func.attr in READERS:
                    continue
                b = n.func.value
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
            else:
                continue
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
    return out


def with_receivers(r, names):
    if not names:
        return r
    return ast.Tuple(elts=([r] if r is not None else []) + [ast.Name(id=x, ctx=ast.Load()) for x in names], ctx=ast.Load())


def overwritten(e):
    """an attribute the differing statements set is set elsewhere in the function too: what they leave behind may not be what remains"""
    def stored(nodes, skip=()):
        return {n.attr for s in nodes for n in ast.walk(s) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and id(n) not in skip}
    sides = [s if isinstance(s, list) else [s] for s in (e.a, e.b)]
    mine = stored(sides[0] + sides[1])
    inside = {id(n) for side in sides for s in side for n in ast.walk(s)}
    return bool(mine & (stored([e.fr.node], inside) | stored([e.fc.node], inside)))


def impossible(world, e, d):
    """the difference shows only where a variable is None that the function never sets to None"""
    for x in re.findall(r"""['"](\w+) is None['"]: True""", d.detail):
        if all(x not in locals_of(f.node) or not assigned(f.node, x) or not all(something(world, v) for v in assigned(f.node, x)) for f in (e.fr, e.fc)):
            continue
        if all(assigned(f.node, x) and all(something(world, v) for v in assigned(f.node, x)) for f in (e.fr, e.fc)):
            return True
    return False


def assigned(fn, x):
    if x in [a.arg for a in fn.args.args + fn.args.kwonlyargs]:
        return []
    return [n.value for n in ast.walk(fn) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in n.targets)]


def something(world, v):
    """an expression whose value is never None"""
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.Tuple, ast.ListComp, ast.DictComp, ast.SetComp, ast.JoinedStr, ast.BinOp, ast.Compare)):
        return True
    if isinstance(v, ast.Constant):
        return v.value is not None
    if not isinstance(v, ast.Call):
        return False
    nm = v.func.id if isinstance(v.func, ast.Name) else v.func.attr if isinstance(v.func, ast.Attribute) else None
    defs = [n for p in (world.ref, world.cur) for m in p.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.FunctionDef) and n.name == nm]
    if not defs:
        return isinstance(v.func, ast.Name) and nm in ("list", "dict", "set", "tuple", "len", "int", "str", "float", "sorted", "deque")
    for f in defs:
        if not isinstance(f.body[-1], (ast.Return, ast.Raise)):
            return False
        if any(isinstance(n, ast.Return) and (n.value is None or isinstance(n.value, ast.Constant) and n.value.value is None) for n in ast.walk(f)):
            return False
    return True


def judge(world, e):
    """-> (verdict, [Diff])"""
    if e.kind not in ("value", "test", "iter") and overwritten(e):
        return UND, []
    p = pieces(e)
    if p is None:
        try:
            return judge_pass(world, e)
        except (AnalysisError, RecursionError):
            return UND, []
    (sa, ra), (sb, rb) = p
    try:
        da, db = inlinable(e.fr, e.fc)
        own = own_containers(e, sa, sb)
        if own is None:
            return UND, []
        rec = sorted(receivers(sa + sb) & set(da) & set(db))
        ra, rb = with_receivers(ra, rec), with_receivers(rb, rec)
        line = lambda s, d: s.lineno if isinstance(s, ast.AST) else s[0].lineno if s else d
        fa = cut(e.fr, sa, line(e.a, e.fr.node.end_lineno or 0), ra, da, own)
        fb = cut(e.fc, sb, line(e.b, e.line), rb, db, own)
        if [x.arg for x in fa.node.args.args if x.arg not in locals_of(e.fr.node)] or [x.arg for x in fb.node.args.args if x.arg not in locals_of(e.fc.node)]:
            return UND, []
        outs = []
        from .obligations import CALLS, INLINE
        for level in (INLINE, CALLS):
            cls = e.fr.cls.name if e.fr.cls else None
            pr = world.prims(level, world.ref, cls, e.fr.name)
            x = summarize(world.ref, cls=cls, meth=e.fr.name, prims=pr, func_obj=fa)
            y = summarize(world.cur, cls=cls, meth=e.fc.name, prims=pr, func_obj=fb)
            ds, _ = compare(x, y)
            vs = {d.verdict for d in ds}
            if vs <= {EQ}:
                return EQ, []
            outs.append((NEQ if NEQ in vs else UND, ds, x.used == y.used))
        for i, (v, ds, same) in enumerate(outs):
            ds = [d for d in ds if d.verdict != NEQ or not impossible(world, e, d)]
            outs[i] = (v if v != NEQ or any(d.verdict == NEQ for d in ds) else UND, ds, same)
        if outs[0][0] == NEQ:
            return NEQ, [d for d in outs[0][1] if d.verdict == NEQ]
        if outs[1][0] == NEQ and outs[1][2]:
            return NEQ, [d for d in outs[1][1] if d.verdict == NEQ]
        if e.kind == "iter" and turned(e):
            return NEQ, [Diff("order of the passes", NEQ, None, "the loop runs backwards, and a later pass replaces what an earlier one left")]
        if isinstance(e.a, ast.AST) and isinstance(e.b, ast.AST):
            w = leaf.decide(e.a, e.b, opaque_in(e, da, db), lambda n: external(world, n))
            if w is not None:
                return NEQ, [Diff("one leaf differs", NEQ, None, w)]
        return UND, outs[0][1]
    except AnalysisError:
        return UND, []
    except RecursionError:
        return UND, []


def turned(e):
    """the same sequence from its other end, under a body in which the order of the passes shows"""
    def back(n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "reversed" and len(n.args) == 1:
            return n.args[0]
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None and dump(n.slice.step) == dump(ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=1))):
            return n.value
        return None

    for x, y in ((e.a, e.b), (e.b, e.a)):
        z = back(y)
        if z is not None and dump(z) == dump(x):
            break
    else:
        return False
    loop = e.after[0]
    for s in loop.body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in ("append", "extend", "appendleft", "insert", "add_step", "batch_update", "set_site_state", "add_site"):
                    return True
                if isinstance(f, ast.Name) and f.id == "merge_updates":
                    return True
    return False


def edits(world, used_ref, used_cur):
    """the differences between the functions the two sides run; None when they do not correspond"""
    only = {q for _, q in used_ref} ^ {q for _, q in used_cur}
    for q in only:                      # a function of the package that now takes part, or no longer does
        if "<" in q:
            continue
        cls, _, name = q.rpartition(".")
        try:
            for p in (world.ref, world.cur):
                p.method(cls, name) if cls else p.func(name)
        except (AnalysisError, KeyError):
            return None
    out = []
    for q in sorted({q for _, q in used_cur | used_ref}):
        if "<" in q:
            continue
        cls, _, name = q.rpartition(".")
        try:
            fr = world.ref.method(cls, name) if cls else world.ref.func(name)
            fc = world.cur.method(cls, name) if cls else world.cur.func(name)
        except (AnalysisError, KeyError):
            continue                    # a nested function: part of the one around it
        if dump(clean(fr.node)) == dump(clean(fc.node)):
            continue
        a, b = fr.node.args, fc.node.args
        if [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] != [x.arg for x in b.posonlyargs + b.args + b.kwonlyargs]:
            return None
        if [dump(d) for d in fr.node.decorator_list] != [dump(d) for d in fc.node.decorator_list]:
            return None
        if [dump(d) for d in a.defaults + a.kw_defaults if d] != [dump(d) for d in b.defaults + b.kw_defaults if d]:
            return None
        try:
            diff_block(fr.node.body, fc.node.body, out, fr, fc, ())
        except TooDifferent:
            return None
    return out


def decide(world, used_ref, used_cur):
    """-> (verdict, Edit, [Diff]) : NEQ when exactly one place differs and it computes something else there"""
    es = edits(world, used_ref, used_cur)
    if not es or len(es) > 4:
        return UND, None, []
    vs = [(judge_cached(world, e), e) for e in es]
    rest = [(v, e) for v, e in vs if v[0] != EQ]
    if len(rest) == 1 and rest[0][0][0] == NEQ:
        return NEQ, rest[0][1], rest[0][0][1]
    return UND, None, []


def judge_cached(world, e):
    key = (e.kind, id(e.fr), str(dump_h(e.a)), str(dump_h(e.b)), e.line)
    c = world.__dict__.setdefault("local_cache", {})
    if key not in c:
        c[key] = judge(world, e)
    return c[key]
