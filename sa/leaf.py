"""One differing leaf: two expressions (or statements) that are the same syntax tree except for a single operator, constant, operand, argument or
method name that changes the value for some of the values its operands can take."""
import ast

NEUTRAL = {ast.Add: (0,), ast.Sub: (0,), ast.Mult: (1,), ast.Div: (1,), ast.FloorDiv: (1,), ast.Pow: (1,)}
ORDER = (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)
SYNONYMS = [{"append", "appendright"}, {"subtract", "sub"}, {"abs", "absolute", "fabs"}, {"concatenate", "hstack", "vstack"}, {"array", "asarray", "asanyarray"},
            {"items", "iteritems"}, {"norm", "hypot", "dist"}, {"sum", "fsum"}, {"rint", "round", "around"}, {"sleep"}, {"starmap", "map", "imap"}, {"dot", "matmul"},
            {"extend", "update", "__iadd__"}, {"remove", "discard"}, {"load", "loads"}, {"dump", "dumps"}, {"add", "append"}, {"mkdtemp", "TemporaryDirectory"}]
BUILTINS = {"min", "max", "sum", "any", "all", "len", "abs", "sorted", "reversed"}
QUIET = {"print", "tqdm", "printif", "warn", "warning", "info", "debug", "log"}


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return ast.dump(a) == ast.dump(b) if isinstance(a, ast.AST) and isinstance(b, ast.AST) else a == b


def pairs(a, b):
    if same(a, b):
        return []
    if type(a) is not type(b):
        return [(a, b)]
    out = []
    for f in a._fields:
        x, y = getattr(a, f, None), getattr(b, f, None)
        if f in ("ctx", "type_comment", "kind"):
            continue
        if isinstance(x, list) and isinstance(y, list):
            if same(x, y):
                continue
            if len(x) != len(y) or any(not isinstance(z, ast.AST) for z in x + y):
                return [(a, b)]
            for p, q in zip(x, y):
                if isinstance(p, ast.cmpop):
                    if type(p) is not type(q):
                        return [(a, b)] if out == [] and same(a.left, b.left) and same(a.comparators, b.comparators) else [(a, b), (a, b)]
                    continue
                out += pairs(p, q)
        elif isinstance(x, (ast.operator, ast.unaryop, ast.boolop)):
            if type(x) is not type(y):
                return [(a, b)]
        elif isinstance(x, ast.AST) and isinstance(y, ast.AST):
            out += pairs(x, y)
        elif x != y:
            return [(a, b)]
    return out


def name_of(f):
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""


def quiet(n, target):
    """the differing leaf sits in text meant for people: a message, a progress bar, a log line"""
    def walk(x, q):
        if x is target:
            return q
        if isinstance(x, ast.Raise):
            q = True
        if isinstance(x, ast.Call) and name_of(x.func) in QUIET:
            for i, y in enumerate(ast.iter_child_nodes(x)):
                r = walk(y, q or not (name_of(x.func) == "tqdm" and x.args and y is x.args[0]))
                if r is not None:
                    return r
            return None
        if isinstance(x, ast.Assert):
            for y, qq in ((x.test, q), (x.msg, True)):
                r = walk(y, qq) if y is not None else None
                if r is not None:
                    return r
            return None
        for y in ast.iter_child_nodes(x):
            r = walk(y, q)
            if r is not None:
                return r
        return None
    return bool(walk(n, False))


def synonyms(x, y):
    return any(x in s and y in s for s in SYNONYMS)


def const_of(n):
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
        return True, -n.operand.value if isinstance(n.operand.value, (int, float)) else None
    if isinstance(n, ast.Constant):
        return True, n.value
    return False, None


def classify(a, b, opaque, external):
    """what differs, or None when it may be another spelling.  opaque(name): a local whose value is not known here"""
    ka, va = const_of(a)
    kb, vb = const_of(b)
    if ka and kb:
        if va == vb and type(va) in (int, float) and type(vb) in (int, float):
            return None
        return f"constant {vb!r} instead of {va!r}"
    if isinstance(a, ast.Compare) and isinstance(b, ast.Compare) and same(a.left, b.left) and same(a.comparators, b.comparators):
        for p, q in zip(a.ops, b.ops):
            if type(p) is not type(q):
                g = [ORDER, (ast.In, ast.NotIn), (ast.Is, ast.IsNot)]
                if any(isinstance(p, s) and isinstance(q, s) for s in g):
                    return f"comparison {type(q).__name__} instead of {type(p).__name__}"
        return None
    if isinstance(a, ast.BinOp) and isinstance(b, ast.BinOp) and same(a.left, b.left) and same(a.right, b.right):
        return f"operator {type(b.op).__name__} instead of {type(a.op).__name__}"
    if isinstance(a, ast.AugAssign) and isinstance(b, ast.AugAssign) and same(a.target, b.target) and same(a.value, b.value):
        return f"operator {type(b.op).__name__} instead of {type(a.op).__name__}"
    if isinstance(a, ast.BoolOp) and isinstance(b, ast.BoolOp) and same(a.values, b.values):
        return f"{type(b.op).__name__} instead of {type(a.op).__name__}"
    for x, y, w in ((a, b, "extra"), (b, a, "missing")):
        if isinstance(y, ast.BinOp) and type(y.op) in NEUTRAL:
            for p, q in ((y.left, y.right), (y.right, y.left)):
                if same(p, x) and not (p is y.right and not isinstance(y.op, (ast.Add, ast.Mult))):
                    k, v = const_of(q)
                    if not (k and v in NEUTRAL[type(y.op)]):
                        return f"{w} operand {ast.unparse(q)}"
        if isinstance(y, ast.UnaryOp) and same(y.operand, x) and isinstance(y.op, (ast.Not, ast.USub)):
            return f"{w} {type(y.op).__name__}"
        if isinstance(y, ast.Subscript) and same(y.value, x) and isinstance(y.slice, ast.Slice):
            lo = y.slice.lower
            if lo is not None and const_of(lo) != (True, 0) or y.slice.upper is not None:
                return f"{w} slice {ast.unparse(y.slice)}"
        if isinstance(y, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(y.generators) == 1 and same(y.generators[0].iter, x) and y.generators[0].ifs and same_name(
                y.elt, y.generators[0].target):
            return f"{w} filter {ast.unparse(y.generators[0].ifs[0])}"
    if isinstance(a, ast.comprehension) and isinstance(b, ast.comprehension) and same(a.target, b.target) and same(a.iter, b.iter):
        if not a.ifs and b.ifs or not b.ifs and a.ifs:
            return f"filter {ast.unparse((a.ifs or b.ifs)[0])} {'dropped' if a.ifs else 'added'}"
    if isinstance(a, ast.Attribute) and isinstance(b, ast.Attribute) and same(a.value, b.value):
        if external(a) and external(b) and not synonyms(a.attr, b.attr):
            return f".{b.attr} instead of .{a.attr}"
        return None
    if isinstance(a, ast.Name) and isinstance(b, ast.Name):
        if a.id in BUILTINS and b.id in BUILTINS and not opaque(a.id) and not opaque(b.id):
            return f"{b.id} instead of {a.id}"
        if opaque(a.id) and opaque(b.id):
            return f"variable {b.id} instead of {a.id}"
        return None
    if isinstance(a, ast.Call) and isinstance(b, ast.Call) and same(a.func, b.func):
        if isinstance(a.func, ast.Name) and a.func.id == "range" and not a.keywords and not b.keywords:
            ra, rb = bounds(a), bounds(b)
            d = [(x, y) for x, y in zip(ra, rb) if not same(x, y)]
            if len(d) == 1:
                return classify(d[0][0], d[0][1], opaque, external)
            return None
        ka = {k.arg: k.value for k in a.keywords}
        kb = {k.arg: k.value for k in b.keywords}
        n = min(len(a.args), len(b.args))
        if None in ka or None in kb or not same(a.args[:n], b.args[:n]) or any(not same(ka[k], kb[k]) for k in set(ka) & set(kb)):
            return None
        only = [(k, v) for k, v in list(ka.items()) + list(kb.items()) if (k in ka) != (k in kb)] + [(None, v) for v in a.args[n:] + b.args[n:]]
        if len(only) == 1:
            k, v = only[0]
            c, cv = const_of(v)
            if isinstance(v, ast.Starred) or c and (cv is None or cv is False or cv == 0 or k is None or isinstance(cv, str)):
                return None
            return f"argument {k + '=' if k else ''}{ast.unparse(v)} {'dropped' if len(a.args) + len(ka) > len(b.args) + len(kb) else 'added'}"
    return None


def same_name(a, b):
    return isinstance(a, ast.Name) and isinstance(b, ast.Name) and a.id == b.id


def bounds(c):
    z, o = ast.Constant(value=0), ast.Constant(value=1)
    a = c.args
    return {1: [z, a[0], o] if a else [], 2: [a[0], a[1], o] if len(a) > 1 else [], 3: a}.get(len(a), [])


def decide(a, b, opaque, external):
    ps = pairs(a, b)
    if len(ps) != 1:
        return None
    x, y = ps[0]
    if quiet(a, x) or quiet(b, y):
        return None
    return classify(x, y, opaque, external)
