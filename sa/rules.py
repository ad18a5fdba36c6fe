"""Structural rules that complement the comparison with the reference model.

Every rule is a scan over the syntax trees of the analysed program that looks for one kind of construct; constructs the reference
model has as well (same function, same kind) are the documented behaviour and not reported.  A rule is applied to a property through
the functions that the property's entry points reach, unless it is about the whole package."""
import ast
import builtins
import re

from .compare import EQ, NEQ
from .program import MUTATORS, AnalysisError

CACHE_DECORATORS = {"lru_cache", "cache", "cached_property", "memoize", "memoized", "cached"}
MUTABLE_CALLS = {"list", "dict", "set", "deque", "defaultdict", "OrderedDict", "Counter", "bytearray"}


class Finding:
    def __init__(self, kind, path, qual, line, detail):
        self.kind, self.path, self.qual, self.line, self.detail = kind, path, qual, line, detail


# ------------------------------------------------------------------ helpers
def functions(prog):
    """(Func, node) for every function and method of the package"""
    out = []
    for m in prog.modules.values():
        for v in m.names.values():
            if v[0] == "class" and v[1].module is m:
                out += [f for f in v[1].methods.values()]
            elif v[0] == "func" and v[1].module is m:
                out.append(v[1])
    seen, res = set(), []
    for f in out:
        if id(f) not in seen:
            seen.add(id(f))
            res.append(f)
    return res


def parents(node):
    p = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return f"{b}.{n.attr}" if b else None
    return None


def params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def mutable_literal(n):
    return isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
        isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in MUTABLE_CALLS)


def nested_mutable(n):
    vs = n.values if isinstance(n, ast.Dict) else (n.elts if isinstance(n, (ast.List, ast.Set)) else ([n.value] if isinstance(n, ast.DictComp) else (
        [n.elt] if isinstance(n, (ast.ListComp,)) else [])))
    return any(mutable_literal(v) for v in vs if v is not None)


def resolved(prog, f, call):
    """dotted external name of what is called, following imports"""
    r = prog.resolve_expr(f.module, call.func) if isinstance(call.func, (ast.Name, ast.Attribute)) else None
    if r and r[0] == "ext":
        return r[1]
    return dotted(call.func)


# ------------------------------------------------------------------ stale caches
def lazily(prog):
    """attributes whose every assignment outside constructors is under a test that they are still None"""
    ok, bad = set(), set()
    for f in functions(prog):
        if f.name == "__init__":
            continue
        par = parents(f.node)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                x, good = n, False
                while x in par:
                    x = par[x]
                    if isinstance(x, ast.If) and any(isinstance(c, ast.Compare) and isinstance(c.left, ast.Attribute) and c.left.attr == n.attr and isinstance(c.ops[0], ast.Is)
                                                     for c in ast.walk(x.test)):
                        good = True
                (ok if good else bad).add(n.attr)
    return ok - bad


def reach(world, f):
    """functions reached from f (by analysis of the whole call tree)"""
    from .summary import summarize
    key = ("reach", id(f))
    if key in world.cache:
        return world.cache[key]
    try:
        s = summarize(world.cur, f.cls.name if f.cls else None, f.name, func_obj=f) if f.cls else summarize(world.cur, func_obj=f)
        quals = s.analysed
    except Exception:
        quals = {(f.path, f.qual)}
    out = [g for g in functions(world.cur) if (g.path, g.qual) in quals or g is f]
    world.cache[key] = out
    return out


def mutable_reads(world, f, skip):
    """attributes that change after construction and that the value computed by f depends on"""
    mut = world.cur.mutated_attrs() - lazily(world.cur) - set(skip)
    out = set()
    for g in reach(world, f):
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in mut:
                out.add(n.attr)
    return out


def writers(world, attr):
    """functions (other than constructors) that assign the attribute or change its contents"""
    out = set()
    for g in functions(world.cur):
        if g.name == "__init__":
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and n.attr == attr:
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(g.qual)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and any(isinstance(x, ast.Attribute) and x.attr == attr for x in ast.walk(n.value)):
                out.add(g.qual)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and any(
                    isinstance(x, ast.Attribute) and x.attr == attr for x in ast.walk(n.func.value)):
                out.add(g.qual)
    return out


def store_of(n, is_cache):
    """(key, stored) when the statement puts something into the cache"""
    if isinstance(n, ast.Assign):
        for t in n.targets:
            if is_cache(t):
                return (None, n)
            if isinstance(t, ast.Subscript) and is_cache(t.value):
                return (t.slice, n)
    if isinstance(n, ast.AnnAssign) and n.value is not None and is_cache(n.target):
        return (None, n)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and is_cache(n.func.value) and n.args:
        return (n.args[0], n)
    if isinstance(n, ast.Call) and dotted(n.func) in ("setattr", "object.__setattr__") and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and is_cache(n.args[1]):
        return (None, n)
    return None


def tests_cache(node, is_cache):
    for n in ast.walk(node):
        if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn, ast.Eq, ast.NotEq)) for o in n.ops):
            if any(is_cache(x) for c in [n.left] + n.comparators for x in ast.walk(c)):
                return True
        elif isinstance(n, ast.Call):
            d = dotted(n.func) or ""
            if d in ("hasattr", "getattr") and len(n.args) > 1 and is_cache(n.args[1]):
                return True
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault") and is_cache(n.func.value):
                return True
        elif isinstance(n, ast.Try) and n.handlers and any(is_cache(x) for s in n.body for x in ast.walk(s)):
            return True
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)) and any(is_cache(x) for x in ast.walk(n.test)):
            return True
    return False


def stale_cache(world):
    """A remembered result is only reused while everything it was computed from is unchanged"""
    cur, ref = world.cur, world.ref
    out = []
    new = world.new_attrs
    refglob = {(m.name, k) for m in ref.modules.values() for k in m.names}
    for f in functions(cur):
        # decorators that remember results
        for d in getattr(f.node, "decorator_list", []):
            nm = (dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1]
            if nm in CACHE_DECORATORS:
                deps = mutable_reads(world, f, ())
                if f.cls is not None and deps:
                    out.append(Finding("stale-cache", f.path, f.qual, f.line, f"@{nm} keeps a result that depends on {sorted(deps)[:4]}, which change"))
                elif any(isinstance(r, ast.Return) and r.value is not None and mutable_literal(r.value) for r in ast.walk(f.node)) or deps:
                    out.append(Finding("stale-cache", f.path, f.qual, f.line, f"@{nm} hands the same mutable result to every caller"))
                elif any(isinstance(c, ast.Call) and (resolved(cur, f, c) or "").startswith(("random.", "numpy.random.")) for g in reach(world, f) for c in ast.walk(g.node)):
                    out.append(Finding("stale-cache", f.path, f.qual, f.line, f"@{nm} repeats one random choice"))
        if f.name == "__init__":
            continue
        # results kept in a new attribute, class variable, module variable or default argument
        cands = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in new:
                cands.setdefault(("attr", n.attr), None)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in new:
                cands.setdefault(("attr", n.value), None)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.startswith("_") and n.value.isidentifier() and any(
                    isinstance(c, ast.Call) and dotted(c.func) in ("setattr", "hasattr", "getattr") and n in c.args for c in ast.walk(f.node)):
                cands.setdefault(("attr", n.value), None)
            elif isinstance(n, ast.Name) and isinstance(f.module.names.get(n.id), tuple) and f.module.names[n.id][0] == "expr" and (f.module.name, n.id) not in refglob:
                cands.setdefault(("name", n.id), None)
        a = f.node.args
        for p, dv in list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))) + [(p, dv) for p, dv in zip(a.kwonlyargs, a.kw_defaults) if dv is not None]:
            if mutable_literal(dv):
                cands.setdefault(("name", p.arg), None)
        for kind, nm in cands:
            alias = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    v = n.value
                    if isinstance(v, ast.Attribute) and v.attr == nm and kind == "attr" or isinstance(v, ast.Call) and dotted(v.func) == "getattr" and len(v.args) > 1 and (
                            isinstance(v.args[1], ast.Constant) and v.args[1].value == nm):
                        alias.add(n.targets[0].id)

            def is_cache(x):
                if isinstance(x, ast.Name) and x.id in alias:
                    return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "setdefault" and x.args and isinstance(x.args[0], ast.Constant) and x.args[0].value == nm:
                    return True
                if kind == "attr":
                    return isinstance(x, ast.Attribute) and x.attr == nm or isinstance(x, ast.Constant) and x.value == nm
                return isinstance(x, ast.Name) and x.id == nm
            stores = [s for s in (store_of(n, is_cache) for n in ast.walk(f.node)) if s]
            once = run_once(world, f, is_cache) if stores and kind == "attr" else None
            if once is not None:
                out.append(Finding("stale-cache", f.path, f.qual, once.lineno, f"{ast.unparse(once)[:80]} only happens the first time: {nm} is set then and tested here"))
                continue
            stores = [s for s in stores if not (isinstance(s[1], ast.Assign) and (isinstance(s[1].value, ast.Constant) or mutable_literal(s[1].value) and s[0] is None and not (
                isinstance(s[1].value, (ast.ListComp, ast.DictComp, ast.SetComp)))))]
            if not stores or not tests_cache(f.node, is_cache):
                continue
            drawn = [s for _, s in stores if isinstance(s, (ast.Assign, ast.AnnAssign)) for c in ast.walk(s.value) if isinstance(c, ast.Call) and (
                resolved(cur, f, c) or "").startswith(("random.", "numpy.random."))]
            if drawn:
                out.append(Finding("stale-cache", f.path, f.qual, drawn[0].lineno, f"one random choice is kept in {nm} and repeated"))
                continue
            # the tested object must be the stored one and the value come back out
            key = set()
            keyed = any(k is not None for k, _ in stores)
            defs = {n.targets[0].id: n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)}
            for k, _ in stores:
                if k is not None:
                    todo = set(names_in(k))
                    for _i in range(4):
                        todo |= {y for x in todo if x in defs for y in names_in(defs[x])}
                    key |= todo
                    full = [k] + [defs[x] for x in names_in(k) if x in defs]
                    if any(isinstance(c, ast.Call) and dotted(c.func) == "id" for q in full for c in ast.walk(q)):
                        out.append(Finding("stale-cache", f.path, f.qual, stores[0][1].lineno, f"results kept in {nm} are found by object identity, which is reused after the object is gone"))
            deps = mutable_reads(world, f, {nm})
            used = [p for p in params(f) if p not in ("self", "cls") and p != nm and p not in key and any(isinstance(n, ast.Name) and n.id == p for n in ast.walk(f.node))]
            held = [p for p in used]
            if isinstance(stores[0][1], ast.Assign) and kind == "attr":
                t = stores[0][1].targets[0]
                t = t.value if isinstance(t, ast.Subscript) else t
                held = [p for p in used if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == p)]
            if held and f.name != "__init__":
                out.append(Finding("stale-cache", f.path, f.qual, stores[0][1].lineno, f"the result kept in {nm} is reused for other values of {held[:3]}"))
                continue
            stale = [d for d in sorted(deps) if not writers(world, d) - {f.qual} <= writers(world, nm)]
            if stale:
                out.append(Finding("stale-cache", f.path, f.qual, stores[0][1].lineno, f"the result kept in {nm} depends on {stale[:4]}, which can change without it being dropped"))
    return out


def run_once(world, f, is_cache):
    """a statement the reference model always executes, skipped here once a flag the same branch sets has been set"""
    try:
        g = world.ref.method(f.cls.name, f.name) if f.cls else world.ref.func(f.name)
    except (AnalysisError, KeyError):
        return None
    plain = {ast.dump(s) for s in ast.walk(g.node) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.IfExp) and any(is_cache(x) for x in ast.walk(n.value.test)):
            for v in (n.value.body, n.value.orelse):
                if isinstance(v, ast.Call) and ast.dump(ast.Expr(v)) in plain and not store_of(v, is_cache):
                    return n
        if isinstance(n, ast.If) and any(is_cache(x) for x in ast.walk(n.test)):
            for body in (n.body, n.orelse):
                if True:
                    for s in body:
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.dump(s) in plain and not store_of(s.value, is_cache):
                            return s
    return None


# ------------------------------------------------------------------ lists of sites read too early
def early_read(world):
    """The sites a step visits are those of the state the step starts from, not those of an earlier state"""
    out = []
    for f in functions(world.cur):
        first = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                c = n.value
                if dotted(c.func) in ("list", "tuple", "sorted") and len(c.args) == 1 and isinstance(c.args[0], ast.Call):
                    c = c.args[0]
                if isinstance(c.func, ast.Attribute) and c.func.attr in ("site_ids", "all_site_states") and isinstance(c.func.value, ast.Name) and not c.args:
                    first[n.targets[0].id] = (n, c.func.value.id)
        if not first:
            continue
        for l in ast.walk(f.node):
            if not isinstance(l, (ast.For, ast.While)):
                continue
            inner = list(ast.walk(l))
            for v, (n, x) in first.items():
                if n in inner or not any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "batch_update" and isinstance(
                        c.func.value, ast.Name) and c.func.value.id == x for c in inner):
                    continue
                if any(isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in a.targets) for a in inner):
                    continue
                par = parents(l)
                use = [u for b in l.body for u in ast.walk(b) if isinstance(u, ast.Name) and u.id == v and isinstance(u.ctx, ast.Load) and not (
                    isinstance(par.get(u), ast.Call) and dotted(par[u].func) == "len")]
                if use:
                    out.append(Finding("early-read", f.path, f.qual, use[0].lineno, f"{v} lists the sites {x} had before the loop, which updates it"))
    return out


def handed_on(world):
    """A state a generator has handed out is not used by it any more"""
    out = []
    for f in functions(world.cur):
        if not any(isinstance(n, ast.Yield) for n in ast.walk(f.node)):
            continue
        par = parents(f.node)
        live = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and (
                    isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("copy", "get_step", "from_struct") and not (dotted(n.value.func) or "").startswith(("np.", "numpy.")) or dotted(n.value.func) == "SimulationState"):
                live.add(n.targets[0].id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("batch_update", "set_site_state", "set_general_state"):
                live.add(n.func.value.id)
        for y in ast.walk(f.node):
            if isinstance(y, ast.Yield) and isinstance(y.value, ast.Name) and y.value.id in live:
                s = y
                while not isinstance(s, ast.stmt):
                    s = par[s]
                use = after(s, y.value.id, par, f.node)
                if use is not None:
                    out.append(Finding("handed-on", f.path, f.qual, y.lineno, f"{y.value.id} is handed out and used again afterwards"))
    return out


def after(s, x, par, fn):
    """the first use of the variable that can follow the statement without it being set again"""
    def scan(stmts):
        for t in stmts:
            if isinstance(t, ast.Assign) and any(isinstance(a, ast.Name) and a.id == x for a in t.targets) and x not in names_in(t.value):
                return "set"
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load):
                    return n
        return None
    while s is not fn:
        p = par[s]
        blk = next((b for b in (getattr(p, a, None) for a in ("body", "orelse", "finalbody")) if isinstance(b, list) and s in b), None)
        if blk is not None:
            i = blk.index(s)
            r = scan(blk[i + 1:])
            if r is None and isinstance(p, (ast.For, ast.While)) and blk is p.body:
                if isinstance(p, ast.For) and x in {n.id for n in ast.walk(p.target) if isinstance(n, ast.Name)}:
                    return None
                r = scan(blk[:i + 1])
                if r == "set":          # only this way round: the loop may also end here
                    r = None
            if r is not None:
                return None if r == "set" else r
        s = p
    return None


# ------------------------------------------------------------------ shared mutable state
def shared_state(world):
    """Containers shared between calls (module, class and default-argument level) are neither changed nor handed out"""
    out = []
    for f in functions(world.cur):
        par = None
        shared = {}
        a = f.node.args
        for p, dv in list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))) + [(p, dv) for p, dv in zip(a.kwonlyargs, a.kw_defaults) if dv is not None]:
            if mutable_literal(dv):
                shared[("name", p.arg)] = (dv, f"the default of {p.arg}")
        local = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(params(f))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id not in local:
                e = f.module.names.get(n.id)
                if e is not None and e[0] == "import":
                    r = world.cur.resolve(f.module, n.id)
                    e = ("expr", r[2]) if r and r[0] == "expr" else e
                if e is not None and e[0] == "expr" and isinstance(e[1], ast.AST) and mutable_literal(e[1]):
                    shared[("name", n.id)] = (e[1], f"the module variable {n.id}")
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and f.cls is not None and n.value.id in ("self", "cls", f.cls.name):
                ca = f.cls.find_attr(n.attr)
                if ca and mutable_literal(ca[1]) and not assigned_in_init(f.cls, n.attr):
                    shared[("attr", n.attr)] = (ca[1], f"the class variable {n.attr}")
        if not shared:
            continue
        par = parents(f.node)
        for (kind, nm), (val, what) in shared.items():
            def is_it(x):
                return isinstance(x, ast.Name) and x.id == nm if kind == "name" else isinstance(x, ast.Attribute) and x.attr == nm and isinstance(x.value, ast.Name)
            for n in ast.walk(f.node):
                if not is_it(n) or not isinstance(n.ctx, ast.Load):
                    continue
                if kind == "name" and reassigned_before(f.node, nm, n, par):
                    continue
                p = par.get(n)
                up = par.get(p)
                bad = None
                if isinstance(p, ast.Attribute) and p.attr in MUTATORS and isinstance(up, ast.Call) and up.func is p:
                    bad = "changed"
                elif isinstance(p, ast.Attribute) and p.attr == "copy" and nested_mutable(val):
                    bad = "copied only on the surface"
                elif isinstance(p, ast.Subscript) and p.value is n:
                    if isinstance(p.ctx, (ast.Store, ast.Del)):
                        bad = "changed"
                    elif nested_mutable(val) and (isinstance(up, (ast.Return, ast.Assign)) or isinstance(up, ast.Attribute) and up.attr in MUTATORS or (
                            isinstance(up, ast.Subscript) and isinstance(up.ctx, (ast.Store, ast.Del)))):
                        bad = "handed out"
                elif isinstance(p, ast.AugAssign) and p.target is n:
                    bad = "changed"
                elif isinstance(p, ast.Return):
                    bad = "handed out"
                elif isinstance(p, ast.Assign) and p.value is n and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in p.targets):
                    bad = "kept by an object"
                elif isinstance(p, ast.Call) and n in p.args and (dotted(p.func) or "").split(".")[-1] in ("dict", "list", "copy") and nested_mutable(val) and "deepcopy" not in (dotted(p.func) or ""):
                    bad = "copied only on the surface"
                elif isinstance(p, ast.Dict) and nested_mutable(val) and any(v is n for k, v in zip(p.keys, p.values) if k is None):
                    bad = "copied only on the surface"
                elif isinstance(p, ast.Starred) and nested_mutable(val):
                    bad = "copied only on the surface"
                elif isinstance(p, (ast.IfExp, ast.BoolOp)):
                    q = up
                    if isinstance(q, ast.Return) or isinstance(q, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in q.targets):
                        bad = "handed out"
                    elif isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name) and local_escapes(f.node, q.targets[0].id, par):
                        bad = "changed or handed out"
                elif isinstance(p, ast.Assign) and p.value is n and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                    if local_escapes(f.node, p.targets[0].id, par):
                        bad = "changed or handed out"
                if bad:
                    out.append(Finding("shared-state", f.path, f.qual, n.lineno, f"{what} is {bad}: every call and object sees the change"))
                    break
    return out


def assigned_in_init(cls, attr):
    for c in cls.mro():
        i = c.methods.get("__init__")
        if i is not None:
            for n in ast.walk(i.node):
                if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    return True
    return False


def reassigned_before(fn, nm, use, par):
    """the name is rebound to something of the function's own before this use (top-level statement order)"""
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.lineno < use.lineno:
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if any(isinstance(t, ast.Name) and t.id == nm for t in ts) and par.get(n) is fn:
                return True
    return False


def local_escapes(fn, nm, par):
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load):
            p = par.get(n)
            up = par.get(p)
            if isinstance(p, ast.Return) or isinstance(p, ast.Attribute) and p.attr in MUTATORS and isinstance(up, ast.Call) or (
                    isinstance(p, ast.Subscript) and p.value is n and (isinstance(p.ctx, (ast.Store, ast.Del)) or (
                        isinstance(up, ast.Subscript) and isinstance(up.ctx, (ast.Store, ast.Del))) or isinstance(up, ast.Attribute) and up.attr in MUTATORS)):
                return True
            if isinstance(p, ast.Assign) and p.value is n and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in p.targets):
                return True
    return False


# ------------------------------------------------------------------ completion order
def completion_order(world):
    """Results of workers are used in the order of the work, not in the order in which the workers finish"""
    out = []
    for f in functions(world.cur):
        par = parents(f.node)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else (n.func.id if isinstance(n.func, ast.Name) else "")
            if nm not in ("imap_unordered", "as_completed"):
                continue
            x, ok = n, False
            while x in par and not isinstance(par[x], ast.stmt):
                x = par[x]
                if isinstance(x, ast.Call) and dotted(x.func) in ("sorted", "dict", "set", "sum", "any", "all"):
                    ok = True
                if isinstance(x, (ast.DictComp, ast.SetComp)):
                    ok = True
            s = par.get(x)
            if isinstance(s, ast.For) and s.iter is x and isinstance(s.target, ast.Tuple):
                t = names_in(s.target)
                ok = ok or any(isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and names_in(y.slice) & t for y in ast.walk(s))
            tgt = s.targets[0].id if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) else None
            if tgt:
                ok = ok or any(isinstance(y, ast.Call) and (dotted(y.func) == "sorted" and y.args and names_in(y.args[0]) == {tgt} or (
                    isinstance(y.func, ast.Attribute) and y.func.attr == "sort" and names_in(y.func.value) == {tgt})) for y in ast.walk(f.node))
            if not ok:
                out.append(Finding("completion-order", f.path, f.qual, n.lineno, f"the results of {nm} arrive in the order in which the workers finish"))
    return out


# ------------------------------------------------------------------ nondeterminism
SOURCES = ("random.seed", "random.setstate", "random.SystemRandom", "random.Random", "numpy.random.seed", "numpy.random.set_state", "numpy.random.default_rng", "numpy.random.RandomState",
           "numpy.random.Generator", "secrets.", "os.urandom", "uuid.", "time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "datetime.", "os.getpid", "os.times")


def nondeterminism(world):
    """No clock, object identity, process identity, private generator or reseeding decides a simulation"""
    out = []
    for f in functions(world.cur):
        if ".visualization" in f.module.name:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                d = resolved(world.cur, f, n) or ""
                d = d.replace("np.random.", "numpy.random.")
                if any(d == s or s.endswith(".") and d.startswith(s) for s in SOURCES):
                    out.append(Finding("nondeterminism", f.path, f.qual, n.lineno, f"{d}()"))
                elif d in ("id", "hash") and len(n.args) == 1:
                    if d == "hash" and f.name == "__hash__":
                        continue
                    out.append(Finding("nondeterminism", f.path, f.qual, n.lineno, f"{d}() of an object differs between runs"))
    for m in world.cur.modules.values():
        if ".visualization" in m.name:
            continue
        body = [s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
                    r = world.cur.resolve_expr(m, n.func)
                    d = r[1] if r and r[0] == "ext" else ""
                    if any(d == z or z.endswith(".") and d.startswith(z) for z in SOURCES):
                        out.append(Finding("nondeterminism", m.path, "<module>", n.lineno, f"{d}()"))
    return out


def set_expr(n, env):
    if isinstance(n, (ast.Set, ast.SetComp)):
        return True
    if isinstance(n, ast.Call):
        if dotted(n.func) in ("set", "frozenset"):
            return True
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("union", "intersection", "difference", "symmetric_difference") and set_expr(n.func.value, env):
            return True
        if dotted(n.func) in ("list", "tuple", "enumerate", "iter") and n.args and set_expr(n.args[0], env):
            return True
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return set_expr(n.left, env) or set_expr(n.right, env) and not isinstance(n.op, ast.Sub)
    if isinstance(n, ast.Name):
        return n.id in env
    return False


INSENSITIVE = {"sorted", "set", "frozenset", "sum", "min", "max", "any", "all", "len", "Counter", "dict"}


def set_order(world):
    """The iteration order of a set never reaches an ordered result, a random draw or a first-match decision"""
    out = []
    for f in functions(world.cur):
        if ".visualization" in f.module.name:
            continue
        par = parents(f.node)
        defs = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                defs.setdefault(n.targets[0].id, []).append(n.value)
        env = {k for k, vs in defs.items() if all(set_expr(v, ()) for v in vs)}

        def covered(x):
            while x in par and not isinstance(par[x], ast.stmt):
                x = par[x]
                if isinstance(x, ast.Call) and (dotted(x.func) or "").split(".")[-1] in INSENSITIVE:
                    return True
                if isinstance(x, (ast.SetComp, ast.DictComp)):
                    return True
                if isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops):
                    return True
            return False
        for n in ast.walk(f.node):
            hit = None
            if isinstance(n, ast.For) and set_expr(n.iter, env):
                b = ast.Module(body=n.body, type_ignores=[])
                for y in ast.walk(b):
                    if isinstance(y, ast.Call) and (isinstance(y.func, ast.Attribute) and y.func.attr in ("append", "extend", "insert", "appendleft") or (
                            resolved(world.cur, f, y) or "").startswith(("random.", "numpy.random.", "np.random."))):
                        hit = n.iter
                    elif isinstance(y, (ast.Yield, ast.YieldFrom)) or isinstance(y, ast.Return) and y.value is not None and not isinstance(y.value, ast.Constant):
                        hit = n.iter
                    elif isinstance(y, ast.Break):
                        blk = next((b for b in (getattr(par.get(y), a, None) for a in ("body", "orelse")) if isinstance(b, list) and y in b), [])
                        if any(isinstance(a, (ast.Assign, ast.AugAssign)) and not isinstance(a.value, ast.Constant) for a in blk):
                            hit = n.iter
                    elif isinstance(y, ast.If) and isinstance(y.test, ast.Compare) and isinstance(y.test.ops[0], (ast.Lt, ast.Gt)):
                        at = {t.id for s in y.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
                        if len(at & names_in(y.test)) >= 1 and len(at) > 1:
                            hit = n.iter
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp)) and set_expr(n.generators[0].iter, env) and not covered(n):
                hit = n.generators[0].iter
            elif isinstance(n, ast.Call) and dotted(n.func) in ("list", "tuple", "enumerate", "next", "iter", "zip", "cycle", "itertools.cycle", "map") and any(
                    set_expr(x, env) for x in n.args) and not covered(n) and not (isinstance(par.get(n), ast.For)):
                p = par.get(n)
                if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and only_insensitive(f.node, p.targets[0].id, par):
                    continue
                hit = n
            if hit is None:
                continue
            words = names_in(hit) | {w for x in names_in(hit) for v in defs.get(x, ()) for w in names_in(v)}
            if not any("id" in w.split("_") or "ids" in w.split("_") or "site" in w for w in words):     # integers hash the same in every run
                out.append(Finding("set-order", f.path, f.qual, hit.lineno, "the iteration order of a set is used"))
    return out


def only_insensitive(fn, nm, par):
    uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load)]
    return all(isinstance(par.get(u), ast.Call) and dotted(par[u].func) in INSENSITIVE or isinstance(par.get(u), ast.Compare) for u in uses)


# ------------------------------------------------------------------ resources
OPENERS = {"open", "io.open", "gzip.open", "bz2.open", "lzma.open", "monty.io.zopen", "zopen", "tempfile.TemporaryFile", "tempfile.NamedTemporaryFile", "tempfile.TemporaryDirectory",
           "tempfile.mkdtemp", "tempfile.mkstemp", "concurrent.futures.ProcessPoolExecutor", "concurrent.futures.ThreadPoolExecutor", "multiprocessing.Pool", "multiprocessing.pool.Pool",
           "multiprocessing.pool.ThreadPool", "os.open"}
RELEASE = {"close", "terminate", "shutdown", "cleanup", "__exit__", "join"}


def is_opener(prog, f, n):
    d = resolved(prog, f, n) or ""
    if d in OPENERS or d.split(".")[-1] in ("Pool", "ThreadPool", "ProcessPoolExecutor", "ThreadPoolExecutor", "mkdtemp", "mkstemp", "TemporaryDirectory", "NamedTemporaryFile", "TemporaryFile"):
        return d or n.func.attr
    if isinstance(n.func, ast.Attribute) and n.func.attr == "Pool":
        return "Pool"
    if isinstance(n.func, ast.Attribute) and n.func.attr == "open" and not d.startswith(("PIL.", "os.")) and d.split(".")[0] not in ("Image",):
        return ".open"
    return None


def resources(world):
    """Every opened file, worker pool and temporary file is released on every path"""
    prog = world.cur
    out = []
    fs = functions(prog)
    owners = set()                  # functions that return what they opened: their callers own it
    for _ in range(3):
        for f in fs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and (is_opener(prog, f, n.value) or callee(prog, f, n.value) in owners):
                    owners.add(f)
    for f in fs:
        par = parents(f.node)
        cm = any("contextmanager" in d for d in f.decorators)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            what = is_opener(prog, f, n) or (callee(prog, f, n) in owners and f"{callee(prog, f, n).qual}()")
            if not what:
                continue
            x = n
            p = par.get(x)
            while isinstance(p, ast.IfExp) or isinstance(p, ast.Call) and (dotted(p.func) or "").split(".")[-1] in ("closing", "enter_context", "TextIOWrapper"):
                if isinstance(p, ast.Call) and (dotted(p.func) or "").split(".")[-1] == "enter_context":
                    break
                x, p = p, par.get(p)
            if isinstance(p, ast.withitem) or isinstance(p, ast.Call) and (dotted(p.func) or "").split(".")[-1] == "enter_context":
                continue
            if isinstance(p, ast.Return) and f in owners:
                continue
            if isinstance(p, ast.Assign) and len(p.targets) == 1:
                t = p.targets[0]
                tn = names_in(t) if isinstance(t, (ast.Name, ast.Tuple)) else {dotted(t)}
                if any(isinstance(w, ast.With) and any(names_in(i.context_expr) & tn for i in w.items) for w in ast.walk(f.node)) and released_by_with(f.node, p, tn, par):
                    continue
                if released_in_finally(f.node, p, tn, par):
                    continue
                if any(isinstance(r, ast.Return) and r.value is not None and names_in(r.value) & tn for r in ast.walk(f.node)) and not cm and f in owners:
                    continue
            out.append(Finding("resource", f.path, f.qual, n.lineno, f"what {what} opens is not released when an error occurs"))
    return out


def callee(prog, f, n):
    if isinstance(n.func, (ast.Name,)):
        r = prog.resolve(f.module, n.func.id)
        return r[1] if r and r[0] == "func" else None
    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls") and f.cls is not None:
        return f.cls.find(n.func.attr)
    return None


def block_after(fn, stmt, par):
    p = par.get(stmt)
    for fld in ("body", "orelse", "finalbody"):
        b = getattr(p, fld, None)
        if isinstance(b, list) and stmt in b:
            return b[b.index(stmt) + 1:]
    return []


def harmless(s):
    return isinstance(s, (ast.Pass,)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or (
        isinstance(s, (ast.Assign, ast.AnnAssign)) and not any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp)) for x in ast.walk(s.value or s)))


def releases(stmts, tn):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in RELEASE and (names_in(n.func.value) & tn or dotted(n.func.value) in tn):
                    return True
                if (dotted(n.func) or "").split(".")[-1] in ("rmtree", "remove", "unlink", "close") and any(names_in(a) & tn for a in n.args):
                    return True
    return False


def released_in_finally(fn, stmt, tn, par):
    for s in block_after(fn, stmt, par):
        if isinstance(s, ast.Try) and releases(s.finalbody, tn):
            return True
        if isinstance(s, ast.Expr) and releases([s], tn):
            return True
        if not harmless(s):
            break
    x = stmt
    while x in par:
        x = par[x]
        if isinstance(x, ast.Try) and x.finalbody and releases(x.finalbody, tn):
            return True
    return False


def released_by_with(fn, stmt, tn, par):
    for s in block_after(fn, stmt, par):
        if isinstance(s, ast.With) and any(names_in(i.context_expr) & tn for i in s.items):
            return True
        if not harmless(s):
            return False
    return False


# ------------------------------------------------------------------ identifier zero
IDNAME = re.compile(r"^(?:.*_)?(?:site|nb|neighbor|neighbour|center|next_site|new_site|other_site)_id$|^(?:sid|nbid|siteid)$")


def id_truth(world):
    """Identifier zero is an identifier like any other: identifiers are never tested for truth"""
    out = []
    for f in functions(world.cur):
        par = parents(f.node)
        ids = {p for p in params(f) if IDNAME.match(p)}

        def is_id(n):
            if isinstance(n, ast.Name):
                return n.id in ids
            if isinstance(n, ast.NamedExpr):
                return is_id(n.value) or is_id(n.target)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in ("id_at", "add_site"):
                    return True
                if n.func.attr == "get" and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "_location_lookup":
                    return True
                if n.func.attr == "get" and n.args and key_is_id(n.args[0]):
                    return True
            if isinstance(n, ast.Subscript):
                if isinstance(n.value, ast.Attribute) and n.value.attr == "_location_lookup":
                    return True
                return key_is_id(n.slice)
            return False

        def key_is_id(k):
            return isinstance(k, ast.Name) and k.id == "SITE_ID" or isinstance(k, ast.Constant) and k.value == "_site_id"
        for _ in range(2):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and is_id(n.value):
                    ids.add(n.targets[0].id)
                elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name):
                    d = dotted(n.iter) or ""
                    if d.split(".")[-1] == "site_ids" or isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr in ("neighbors_of", "site_ids"):
                        ids.add(n.target.id)
        tests = []
        for n in ast.walk(f.node):
            if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                tests.append(n.test)
            elif isinstance(n, ast.BoolOp):
                tests += n.values if isinstance(par.get(n), (ast.If, ast.While, ast.IfExp, ast.Assert, ast.BoolOp, ast.UnaryOp, ast.comprehension)) else n.values[:-1]
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                tests.append(n.operand)
            elif isinstance(n, ast.comprehension):
                tests += n.ifs
            elif isinstance(n, ast.Call) and dotted(n.func) == "bool" and n.args:
                tests.append(n.args[0])
            elif isinstance(n, ast.Call) and dotted(n.func) == "filter" and len(n.args) == 2 and isinstance(n.args[0], ast.Constant) and n.args[0].value is None and (
                    "id" in ast.unparse(n.args[1])):
                out.append(Finding("id-truth", f.path, f.qual, n.lineno, "filter(None, ...) drops identifier 0"))
            elif isinstance(n, ast.Call) and dotted(n.func) in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and is_id(n.args[0].elt):
                out.append(Finding("id-truth", f.path, f.qual, n.lineno, "identifier 0 counts as false"))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and is_id(n.left) and isinstance(n.comparators[0], ast.Constant):
                c = n.comparators[0].value
                if isinstance(n.ops[0], (ast.Gt,)) and c == 0 or isinstance(n.ops[0], ast.GtE) and c == 1 or isinstance(n.ops[0], ast.LtE) and c == 0 or isinstance(n.ops[0], ast.Lt) and c == 1:
                    out.append(Finding("id-truth", f.path, f.qual, n.lineno, f"{ast.unparse(n)} leaves identifier 0 out"))
        for t in tests:
            if is_id(t):
                out.append(Finding("id-truth", f.path, f.qual, t.lineno, f"{ast.unparse(t)[:60]} is tested for truth: identifier 0 counts as false"))
    return out


# ------------------------------------------------------------------ arguments changed in place
ARRAYISH = {"shape", "T", "dot", "copy", "tolist", "flatten", "sum", "round", "astype", "reshape", "size", "ndim"}


def same_array(prog, f, v):
    """an expression that hands an array on as it is"""
    return isinstance(v, ast.Call) and v.args and dotted(v.args[0]) and (
        (resolved(prog, f, v) or "").replace("np.", "numpy.", 1) in ("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.ravel", "numpy.atleast_1d"))


def inplace(world):
    """An augmented assignment never changes an array or list of the caller"""
    out = []
    for f in functions(world.cur):
        ps = set(params(f)) - {"self", "cls"}
        if f.node.args.vararg:
            ps.discard(f.node.args.vararg.arg)
        ps -= {x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if x.annotation is not None and dotted(x.annotation) in ("int", "float", "str", "bool", "tuple", "Tuple")}
        views, stores = {}, {}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.For, ast.NamedExpr, ast.comprehension)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            stores[x.id] = stores.get(x.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and same_array(world.cur, f, n.value):
                views[n.targets[0].id] = (dotted(n.value.args[0]), n)
        for t, (src, at) in views.items():      # the caller's array under another name, changed where it is
            if stores.get(t) != 1 or src.split(".")[0] not in ps | {"self"} or src != t and stores.get(src):
                continue
            for n in ast.walk(f.node):
                tgt = [n.target] if isinstance(n, ast.AugAssign) else n.targets if isinstance(n, ast.Assign) and n is not at else []
                if n is not at and any(isinstance(x, ast.Name) and isinstance(n, ast.AugAssign) and x.id == t or isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == t for x in tgt):
                    out.append(Finding("in-place", f.path, f.qual, n.lineno, f"{ast.unparse(n)[:60]} changes {src} of the caller (numpy.asarray makes no copy of an array)"))
        plain = {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
        alias = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, ast.Name) and v.id in ps - plain or isinstance(v, ast.Attribute) and isinstance(v.ctx, ast.Load) and dotted(v) and dotted(v).split(".")[0] in ps | {"self"}:
                    alias.setdefault(n.targets[0].id, []).append(dotted(v))
                else:
                    alias.setdefault(n.targets[0].id, []).append(None)
        alias = {k: v[0] for k, v in alias.items() if len(v) == 1 and v[0]}
        par = parents(f.node)
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)):
                continue
            t = n.target.id
            src = t if t in ps and t not in plain else alias.get(t)
            if src is None:
                continue
            group = {t, src} | {k for k, v in alias.items() if v in (t, src)}
            ev = False
            for y in ast.walk(f.node):
                if dotted(y) in group and isinstance(y, (ast.Name, ast.Attribute)):
                    p = par.get(y)
                    if isinstance(p, ast.Call) and y in p.args and (resolved(world.cur, f, p) or "").startswith(("numpy.", "np.")):
                        ev = True
                    elif isinstance(p, ast.Call) and y in p.args and dotted(p.func) in ("zip", "enumerate", "len", "list", "tuple", "sorted", "map"):
                        ev = True
                    elif isinstance(p, ast.Subscript) and p.value is y or isinstance(p, (ast.For, ast.comprehension)) and p.iter is y:
                        ev = True
                    elif isinstance(p, ast.Attribute) and p.attr in ARRAYISH:
                        ev = True
            if isinstance(n.value, (ast.List, ast.ListComp)):
                ev = True
            if ev and not isinstance(n.value, ast.Tuple):
                out.append(Finding("in-place", f.path, f.qual, n.lineno, f"{ast.unparse(n)[:60]} changes {src} of the caller"))
    return out


SCANS = {"stale-cache": stale_cache, "shared-state": shared_state, "completion-order": completion_order, "nondeterminism": nondeterminism, "set-order": set_order,
         "resource": resources, "id-truth": id_truth, "in-place": inplace, "early-read": early_read, "handed-on": handed_on}
WHOLE = {"nondeterminism", "set-order", "resource", "id-truth"}          # about the whole package, not only what the entry points reach


def findings(world, kind):
    key = ("rule", kind)
    if key not in world.cache:
        cur = SCANS[kind](world)
        if cur:
            class Mirror:               # the same scan of the reference model
                pass
            w = Mirror()
            w.cur = w.ref = world.ref
            w.new_attrs, w.cache = set(), {}
            have = [(x.qual, x.detail) for x in SCANS[kind](w)]
            out = []
            for x in cur:
                if (x.qual, x.detail) in have:
                    have.remove((x.qual, x.detail))
                else:
                    out.append(x)
            left, out = out, []
            for x in left:              # the same construct, moved to another function
                k = next((k for k in have if k[1] == x.detail), None)
                if k:
                    have.remove(k)
                else:
                    out.append(x)
            cur = out
        world.cache[key] = cur
    return world.cache[key]


def proven(world, x):
    """every entry point that reaches the function is equal to the reference model: what the construct looks like does not matter"""
    from .obligations import CALLS
    from .table import ENTRIES
    n = 0
    for e in ENTRIES:
        lvs = world.levels(e)
        if not any(("ref", e, l.name) in world.cache and (x.path, x.qual) in world.cache["ref", e, l.name].analysed or
                   (x.path, x.qual) in getattr(world.summary("cur", e, l), "analysed", ()) for l in lvs if l is not CALLS):
            continue
        n += 1
        if any(v.verdict != EQ for v in world.entry(e).values()):
            return False
    return n > 0


GATED = {"set-order", "id-truth", "completion-order"}


def rule(kind):
    def run(world, scope):
        n = 0
        for x in findings(world, kind):
            if kind in WHOLE or (x.path, x.qual) in scope:
                if kind in GATED and proven(world, x):
                    continue
                n += 1
                yield f"{kind}/{x.qual}", NEQ, (x.path, x.line, x.qual), x.detail
        if not n:
            k = len(functions(world.cur)) if kind in WHOLE else len(scope)
            yield f"{kind}", EQ, None, f"{k} functions"
    run.__doc__ = SCANS[kind].__doc__
    run.kind = kind
    return run


ALL = [f"P{i:02d}" for i in range(1, 35)]
RULES = {p: [rule("stale-cache"), rule("shared-state"), rule("in-place")] for p in ALL}
for p in ("P05", "P06", "P07", "P30"):
    RULES[p].append(rule("completion-order"))
for p in ("P06", "P07"):
    RULES[p].append(rule("early-read"))
RULES["P11"].append(rule("handed-on"))
RULES["P13"].append(rule("resource"))
RULES["P14"].append(rule("id-truth"))
RULES["P33"] += [rule("nondeterminism"), rule("set-order")]
