"""Hash-consed value graph: constants, symbolic values, gated (ite) merges and boolean guards."""

import math

_table = {}
_count = [0]


class N:
    __slots__ = ("op", "args", "id", "_sub")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


def mk(op, *args):
    key = (op, args)
    n = _table.get(key)
    if n is None:
        n = N()
        n.op, n.args, n._sub = op, args, None
        _count[0] += 1
        n.id = _count[0]
        _table[key] = n
    return n


class _K:
    """Constant wrapper distinguishing 1, 1.0 and True."""
    __slots__ = ("t", "v")

    def __init__(self, v):
        self.t, self.v = type(v).__name__, v

    def __eq__(self, o):
        return isinstance(o, _K) and self.t == o.t and self.v == o.v

    def __hash__(self):
        return hash((self.t, self.v))

    def __repr__(self):
        return repr(self.v)


def const(v):
    return mk("const", _K(v))


def is_const(n):
    return n.op == "const"


def cval(n):
    return n.args[0].v


TRUE, FALSE, NONE = const(True), const(False), const(None)
ZERO, ONE = const(0), const(1)

BOOL_OPS = {"not", "and", "or", "lt", "eq", "isnone", "in", "truthy", "isinst", "any", "exc", "is", "prefix", "lenpos"}


def is_bool(n):
    if n.op in BOOL_OPS:
        return True
    if n.op == "const":
        return isinstance(cval(n), bool)
    if n.op == "ite":
        return is_bool(n.args[1]) and is_bool(n.args[2])
    return False


def mk_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "and":
        return mk_or(*[mk_not(x) for x in a.args])
    if a.op == "or":
        return mk_and(*[mk_not(x) for x in a.args])
    if a.op == "ite":
        return mk_ite(a.args[0], mk_not(a.args[1]), mk_not(a.args[2]))
    return mk("not", a)


def mk_and(*xs):
    out = set()
    todo = list(xs)
    while todo:
        x = todo.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            todo.extend(x.args)
        else:
            out.add(x)
    for x in out:
        if mk_not(x) in out:
            return FALSE
    # absorb: (a or b) dropped when a in out ; (a or b) with not a in out -> b
    changed = True
    while changed:
        changed = False
        for x in list(out):
            if x.op == "or":
                if any(y in out for y in x.args):
                    out.discard(x)
                    changed = True
                    break
                rest = [y for y in x.args if mk_not(y) not in out]
                if len(rest) < len(x.args):
                    out.discard(x)
                    r = mk_or(*rest)
                    if r is FALSE:
                        return FALSE
                    if r.op == "and":
                        out.update(r.args)
                    elif r is not TRUE:
                        out.add(r)
                    changed = True
                    break
    for x in out:
        if x.op != "or" and mk_not(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return mk("and", *sorted(out))


def mk_or(*xs):
    out = set()
    todo = list(xs)
    while todo:
        x = todo.pop()
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == "or":
            todo.extend(x.args)
        else:
            out.add(x)
    for x in out:
        if x.op == "not" and x.args[0] in out:
            return TRUE
    changed = True
    while changed:
        changed = False
        for x in list(out):
            if x.op == "and":
                if any(y in out for y in x.args):
                    out.discard(x)
                    changed = True
                    break
                rest = [y for y in x.args if _neg_in(y, out)]
                if len(rest) < len(x.args):
                    out.discard(x)
                    r = mk_and(*rest)
                    if r is TRUE:
                        return TRUE
                    if r.op == "or":
                        out.update(r.args)
                    elif r is not FALSE:
                        out.add(r)
                    changed = True
                    break
    # (a and X) or (not a and X) -> X
    changed = True
    while changed:
        changed = False
        ands = [x for x in out if x.op == "and"]
        for i, x in enumerate(ands):
            for y in ands[i + 1:]:
                sx, sy = set(x.args), set(y.args)
                dx, dy = sx - sy, sy - sx
                if len(dx) == 1 and len(dy) == 1 and mk_not(next(iter(dx))) is next(iter(dy)):
                    out.discard(x)
                    out.discard(y)
                    out.add(mk_and(*(sx & sy)))
                    changed = True
                    break
            if changed:
                break
    for x in out:
        if x.op == "not" and x.args[0] in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return mk("or", *sorted(out))


def _neg_in(y, out):
    """keep y unless its negation is an alternative of its own"""
    if y.op == "not":
        return y.args[0] not in out
    return mk("not", y) not in out


def counts(n):
    """n is a number of things"""
    return n.op == "len" or n.op == "mcall" and n.args[0] == "size"


def mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return mk_ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk_not(c)
    if b is NONE and c.op == "in" and a.op == "get" and a.args[0] is c.args[1] and a.args[1] is c.args[0]:
        return a            # an absent key and a key holding None are identified
    if is_bool(a) and is_bool(b):
        return mk_or(mk_and(c, a), mk_and(mk_not(c), b))
    if c.op == "truthy" and a is c.args[0] and b is ONE and a.op == "ceil" and a.args[0].op == "div" and counts(a.args[0].args[0]):
        return mk_minmax("max", ONE, a)         # so many things shared out: never negative
    if c.op == "lt" and {a, b} == set(c.args):
        return mk_minmax("min" if c.args[0] is a else "max", a, b)
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if b.op == "ite" and b.args[1] is a:      # ite(c,a,ite(d,a,e)) -> ite(c or d, a, e)
        return mk_ite(mk_or(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[2] is b:      # ite(c,ite(d,x,b),b) -> ite(c and d, x, b)
        return mk_ite(mk_and(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:      # ite(c,ite(d,b,x),b) -> ite(c and not d, x, b)
        return mk_ite(mk_and(c, mk_not(a.args[0])), a.args[2], b)
    if b.op == "ite" and b.args[2] is a:      # ite(c,a,ite(d,x,a)) -> ite(not c and d, x, a)
        return mk_ite(mk_and(mk_not(c), b.args[0]), b.args[1], a)
    return mk("ite", c, a, b)


def facts_of(c, val=True, out=None):
    """literals implied by c being val"""
    if out is None:
        out = {}
    if c.op == "not":
        return facts_of(c.args[0], not val, out)
    out[c] = val
    if c.op == "and" and val:
        for x in c.args:
            facts_of(x, True, out)
    if c.op == "or" and not val:
        for x in c.args:
            facts_of(x, False, out)
    # order facts
    if c.op == "lt" and val:
        out[mk("lt", c.args[1], c.args[0])] = False
        out[mk_eq_raw(c.args[0], c.args[1])] = False
    if c.op == "eq" and val:
        out[mk("lt", c.args[0], c.args[1])] = False
        out[mk("lt", c.args[1], c.args[0])] = False
    if c.op == "isnone" and val:
        out[mk("truthy", c.args[0])] = False
    if c.op == "truthy" and val:
        out[mk("isnone", c.args[0])] = False
    return out


def mk_eq_raw(a, b):
    return mk("eq", *sorted((a, b)))


def simp(n, facts, _memo=None):
    """simplify the boolean/ite skeleton of n under facts (atom -> bool)"""
    if not facts:
        return n
    if n.op in ("const", "param", "self", "obj", "elem"):
        return n
    if _memo is None:
        _memo = {}
    if n in _memo:
        return _memo[n]
    v = facts.get(n)
    if v is not None:
        r = TRUE if v else FALSE
    elif n.op == "not":
        r = mk_not(simp(n.args[0], facts, _memo))
    elif n.op == "and":
        r = mk_and(*[simp(x, facts, _memo) for x in n.args])
    elif n.op == "or":
        r = mk_or(*[simp(x, facts, _memo) for x in n.args])
    elif n.op == "ite":
        c = simp(n.args[0], facts, _memo)
        if c is TRUE:
            r = simp(n.args[1], facts, _memo)
        elif c is FALSE:
            r = simp(n.args[2], facts, _memo)
        else:
            r = mk("ite", c, n.args[1], n.args[2]) if False else _ite_nosimp(
                c, simp(n.args[1], facts, _memo), simp(n.args[2], facts, _memo))
    elif n.op in ("isnone", "truthy") and n.args[0].op == "ite":
        r = simp(rebuild(n.op, (simp(n.args[0], facts, _memo),)), facts, _memo) if simp(n.args[0], facts, _memo) is not n.args[0] else n
    else:
        r = n
    _memo[n] = r
    return r


def _ite_nosimp(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return mk_or(mk_and(c, a), mk_and(mk_not(c), b))
    if c.op == "not":
        return _ite_nosimp(c.args[0], b, a)
    return mk("ite", c, a, b)


def assume(n, c, val):
    return simp(n, facts_of(c, val))


def rebuild(op, args):
    """re-normalise a node with new args"""
    if op == "not":
        return mk_not(*args)
    if op == "and":
        return mk_and(*args)
    if op == "or":
        return mk_or(*args)
    if op == "ite":
        return mk_ite(*args)
    if op == "eq":
        return mk_eq(*args)
    if op == "lt":
        return mk_lt(*args)
    if op == "isnone":
        return mk_isnone(*args)
    if op == "truthy":
        return mk_truthy(*args)
    if op == "in":
        return mk_in(*args)
    if op == "add":
        return mk_add(*args)
    if op == "mul":
        return mk_mul(*args)
    if op in ("min", "max"):
        return mk_minmax(op, *args)
    if op == "deepcopy":
        return mk_deepcopy(*args)
    return mk(op, *args)


def mk_minmax(op, *args):
    if len(args) < 2 or any(x.op == "kw" for x in args):
        return mk(op, *args)
    out = set()
    for x in args:
        out |= set(x.args) if x.op == op and len(x.args) > 1 else {x}
    ks = [cval(x) for x in out if num(x)]
    if len(ks) > 1:
        out = {x for x in out if not num(x)} | {const(min(ks) if op == "min" else max(ks))}
    return next(iter(out)) if len(out) == 1 else mk(op, *sorted(out))


def mk_deepcopy(x):
    """a deep copy of a deep copy (or of a number) is worth the same"""
    if x.op in ("deepcopy", "const"):
        return x
    if x.op == "ite":
        return mk_ite(x.args[0], mk_deepcopy(x.args[1]), mk_deepcopy(x.args[2]))
    if x.op in ("list", "dict", "set", "tuple") and all(y.op in ("list", "dict", "set", "tuple", "seg", "loops", "const") for y in sub(x)):
        return x
    return mk("deepcopy", x)


def subst(n, mapping, memo=None):
    """replace nodes (identity) throughout n"""
    if memo is None:
        memo = {}
    if n in mapping:
        return mapping[n]
    if n in memo:
        return memo[n]
    changed = False
    args = []
    for a in n.args:
        if isinstance(a, N):
            b = subst(a, mapping, memo)
            changed |= b is not a
            args.append(b)
        else:
            args.append(a)
    r = rebuild(n.op, tuple(args)) if changed else n
    memo[n] = r
    return r


def sub(n):
    """all nodes reachable from n, including n"""
    if n._sub is None:
        s = {n}
        for a in n.args:
            if isinstance(a, N):
                s |= sub(a)
        n._sub = frozenset(s)
    return n._sub


def contains(n, x):
    return x in sub(n)


NONNULL = {"tuple", "list", "dict", "set", "obj", "add", "mul", "div", "mod", "floordiv", "pow", "fstr", "len", "listn", "new",
           "copyof", "deepcopy", "range", "items", "keys", "values", "round", "floor", "abs", "sum", "count", "closure", "class",
           "func", "slice", "self", "elemidx", "sorted", "inst", "index", "ordindex"}


NONNULL_ATTRS = set()


def mk_isnone(a):
    if a is NONE:
        return TRUE
    if a.op == "attr" and a.args[1] in NONNULL_ATTRS:
        return FALSE
    if a.op == "const" or a.op in NONNULL or is_bool(a):
        return FALSE
    if a.op == "ite":
        return mk_ite(a.args[0], mk_isnone(a.args[1]), mk_isnone(a.args[2]))
    if a.op == "get" and len(a.args) == 2:
        # an absent key and a key holding None are identified: values the package stores are never None (those a caller passes in may be)
        r = mk_not(mk_in(a.args[1], a.args[0]))
        if r is FALSE and outer(a.args[0]):
            return mk("isnone", a)
        return r
    return mk("isnone", a)


def outer(m):
    """mappings whose values are the user's own"""
    if m.op == "dict":
        return any(z.op == "seg" and z.args[0] == "spread" and isinstance(z.args[2], N) and outer(z.args[2]) for z in m.args)
    keys = []
    while m.op in ("get", "elem", "items", "keys", "values") and isinstance(m.args[0], N):
        if m.op == "get":
            keys.append(m.args[1])
        m = m.args[0]
    if m.op == "attr" and m.args[1] == "_state" and keys:
        return len(keys) > 1 or is_const(keys[-1]) and cval(keys[-1]) == "GENERAL"
    return m.op == "param"


def mk_truthy(a):
    if is_bool(a):
        return a
    if a.op == "const":
        return const(bool(cval(a)))
    if a.op == "ite":
        return mk_ite(a.args[0], mk_truthy(a.args[1]), mk_truthy(a.args[2]))
    if a.op == "len":
        return mk_truthy_coll(a.args[0])
    if a.op in ("tuple",):
        return const(bool(a.args))
    if a.op == "count":
        return mk_any(a.args[0], a.args[1])
    if a.op in ("class", "func", "closure", "new", "self", "inst"):
        return TRUE
    if a.op in ("keys", "items", "values", "setof", "sorted"):
        return mk_truthy(a.args[0])
    if a.op in ("list", "set", "dict") and a.args:
        return _coll_nonempty(a)
    if a.op in ("list", "set", "dict"):
        return FALSE
    return mk("truthy", a)


def _coll_nonempty(a):
    segs, conds = list(a.args), []
    for i in range(len(segs) - 1, -1, -1):
        if segs[i].op != "seg" or segs[i].args[0] not in ("item", "spread", "itemleft", "insert"):
            # something is taken out again: what is left at that point, and what is added after it
            conds.append(mk("truthy", mk(a.op, *segs[:i + 1])))
            segs = segs[i + 1:]
            break
    for s in segs:
        kind, _k, v, g, loops = s.args
        if kind == "spread":
            c = mk_and(g, mk_truthy(v))
        else:
            c = g
        for lp in reversed(loops.args):
            c = mk_any(lp, c)
        conds.append(c)
    return mk_or(*conds)


def mk_truthy_coll(a):
    return mk_truthy(a)


def mk_any(loop, c):
    """some iteration of loop satisfies c; loop = N('loop', iter, depth)"""
    if c is FALSE:
        return FALSE
    if c.op == "or":
        return mk_or(*[mk_any(loop, x) for x in c.args])
    if c is TRUE:
        return mk("truthy", loop.args[0]) if loop.args[0].op not in ("list", "set", "dict", "tuple", "const") else mk_truthy(loop.args[0])
    # factor out conjuncts independent of the loop
    el = mk("elem", *loop.args)
    if c.op == "and":
        ind = [x for x in c.args if not contains(x, el)]
        dep = [x for x in c.args if contains(x, el)]
        if ind and dep:
            return mk_and(*ind, mk_any(loop, mk_and(*dep)))
    return mk("any", loop, c)


def mk_eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return const(cval(a) == cval(b))
    if a is NONE:
        return mk_isnone(b)
    if b is NONE:
        return mk_isnone(a)
    if a.op == "ite" and (is_const(b) or is_const(a.args[1]) or is_const(a.args[2])):
        return mk_ite(a.args[0], mk_eq(a.args[1], b), mk_eq(a.args[2], b))
    if b.op == "ite" and (is_const(a) or is_const(b.args[1]) or is_const(b.args[2])):
        return mk_eq(b, a)
    if a is TRUE or a is FALSE:
        a, b = b, a
    if b is TRUE and is_bool(a):
        return a
    if b is FALSE and is_bool(a):
        return mk_not(a)
    if is_bool(a) and is_bool(b):
        return mk_or(mk_and(a, b), mk_and(mk_not(a), mk_not(b)))
    for x, y in ((a, b), (b, a)):
        if x.op == "len" and is_const(y) and cval(y) == 0:
            return mk_not(mk_truthy(x.args[0]))
        if x.op == "count" and is_const(y) and cval(y) == 0:
            return mk_not(mk_any(x.args[0], x.args[1]))
    for x, y in ((a, b), (b, a)):
        if x.op == "set" and y.op == "set" and len(x.args) == len(y.args) == 1:
            (k, _, v, g, ls), (k2, _2, v2, g2, ls2) = x.args[0].args, y.args[0].args
            if k == k2 == "item" and len(ls.args) == 1 and ls.args[0].op == "loop" and len(ls.args[0].args) == 2 and not ls2.args and g2 is TRUE and not contains(v2, mk("elem", *ls.args[0].args)):
                return mk_and(mk_any(ls.args[0], g), mk_not(mk_any(ls.args[0], mk_and(g, mk_not(mk_eq(v, v2))))))
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return mk_and(*[mk_eq(x, y) for x, y in zip(a.args, b.args)])
    d = _lin_const_diff(a, b)
    if d is not None:
        return const(d == 0)
    return mk_eq_raw(a, b)


def _lin_const_diff(a, b):
    """a-b if it is a numeric constant by linear cancellation"""
    if a.op != "add" and b.op != "add":
        return None
    d = mk_sub(a, b)
    if is_const(d) and isinstance(cval(d), (int, float)):
        return cval(d)
    return None


def mk_lt(a, b):
    if a is b:
        return FALSE
    if is_const(a) and is_const(b):
        try:
            return const(cval(a) < cval(b))
        except TypeError:
            return mk("lt", a, b)
    if is_const(a) and cval(a) == 0 and b.op == "len":
        return mk_truthy(b.args[0])
    if is_const(b) and cval(b) == 1 and a.op == "len":
        return mk_not(mk_truthy(a.args[0]))
    if is_const(b) and cval(b) == 0 and a.op in ("len", "count"):
        return FALSE
    if is_const(a) and cval(a) == 0 and b.op == "count":
        return mk_any(b.args[0], b.args[1])
    if is_const(b) and cval(b) == 1 and a.op == "count":
        return mk_not(mk_any(a.args[0], a.args[1]))
    d = _lin_const_diff(a, b)
    if d is not None:
        return const(d < 0)
    # integer normalisation of "x < n+1"-style is left to the rules
    return mk("lt", a, b)


# keys every record of a given attribute has (class invariants, established where the records are built)
RECORD_KEYS = {"_sites": {"_site_id", "_location", "_site_class"}}


# references that always resolve: the mapping of positions to ids holds ids of recorded sites only; ids are listed once per record
KEYS_OF = {"_location_lookup": "_sites"}
SAME_SIZE = {"site_ids": "_sites"}
ID_FIELD = {"_sites": "_site_id"}


def mk_in(k, c):
    if k.op == "get" and k.args[0].op == "attr" and c.op == "attr" and KEYS_OF.get(k.args[0].args[1]) == c.args[1] and k.args[0].args[0] is c.args[0]:
        return TRUE
    if is_const(k) and c.op == "get" and c.args[0].op == "attr" and cval(k) in RECORD_KEYS.get(c.args[0].args[1], ()):
        return TRUE
    if c.op in ("keys", "setof", "sorted"):
        return mk_in(k, c.args[0])
    if c.op == "tuple":
        return mk_or(*[mk_eq(k, x) for x in c.args])
    if c.op in ("list", "set") and all(s.args[0] == "item" and not s.args[4].args for s in c.args):
        return mk_or(*[mk_and(s.args[3], mk_eq(k, s.args[2])) for s in c.args])
    if c.op == "dict" and all(s.args[0] == "item" and not s.args[4].args for s in c.args):
        return mk_or(*[mk_and(s.args[3], mk_eq(k, s.args[1])) for s in c.args])
    if c.op == "ite":
        return mk_ite(c.args[0], mk_in(k, c.args[1]), mk_in(k, c.args[2]))
    if k.op == "elem" and k.args[0] is c:
        return TRUE
    return mk("in", k, c)


def mk_get(d, k):
    if d.op == "tuple" and is_const(k) and isinstance(cval(k), int) and -len(d.args) <= cval(k) < len(d.args):
        return d.args[cval(k)]
    if d.op == "ite":
        return mk_ite(d.args[0], mk_get(d.args[1], k), mk_get(d.args[2], k))
    if k.op == "index" and k.args[0] is d:
        return mk("elem", *k.args)
    if is_const(k) and d.op == "get" and d.args[0].op == "attr" and ID_FIELD.get(d.args[0].args[1]) == cval(k):
        return d.args[1]
    if d.op in ("list",) and is_const(k) and isinstance(cval(k), int) and not isinstance(cval(k), bool):
        if all(s.args[0] == "item" and not s.args[4].args and s.args[3] is TRUE for s in d.args):
            if -len(d.args) <= cval(k) < len(d.args):
                return d.args[cval(k)].args[2]
    if d.op == "copyof":
        return mk_get(d.args[0], k)
    if d.op == "slice" and is_const(k) and isinstance(cval(k), int) and not isinstance(cval(k), bool) and cval(k) >= 0 and d.args[1] in (NONE, ZERO) and d.args[3] in (NONE, ONE) and (
            is_const(d.args[2]) and isinstance(cval(d.args[2]), int) and cval(d.args[2]) > cval(k)):
        return mk_get(d.args[0], k)             # one of the first few
    if d.op == "dict" and all(s.args[0] == "item" and not s.args[4].args for s in d.args):
        out = None
        ok = True
        for s in reversed(d.args):
            e = mk_eq(s.args[1], k)
            if e is FALSE:
                continue
            if e is TRUE and s.args[3] is TRUE:
                if out is None:
                    return s.args[2]
            ok = False
            break
        if not ok:
            if 0 < len(d.args) <= 6 and not is_const(k) and all(is_const(z.args[1]) and z.args[3] is TRUE for z in d.args):
                out = mk("get", mk("dict"), k)          # a table written out: one case per entry
                for z in d.args:
                    out = mk_ite(mk_eq(z.args[1], k), z.args[2], out)
                return out
            return mk("get", d, k)
    return mk("get", d, k)


def num(n):
    return is_const(n) and isinstance(cval(n), (int, float)) and not isinstance(cval(n), bool)


def mk_add(*xs):
    terms = {}
    k = 0
    todo = list(xs)
    order = []
    while todo:
        x = todo.pop(0)
        if x.op == "add":
            todo = list(x.args) + todo
            continue
        if num(x):
            k = k + cval(x)
            continue
        c, t = 1, x
        if x.op == "mul" and num(x.args[0]):
            c, t = cval(x.args[0]), (x.args[1] if len(x.args) == 2 else mk("mul", *x.args[1:]))
        if t not in terms:
            terms[t] = 0
            order.append(t)
        terms[t] += c
    out = []
    for t in sorted(terms):
        if terms[t] == 0:
            continue
        out.append(t if terms[t] == 1 else mk_mul(const(terms[t]), t))
    if k != 0 or not out:
        out.append(const(k))
    if len(out) == 1:
        return out[0]
    return mk("add", *sorted(out))


def mk_mul(*xs):
    k = 1
    fs = []
    todo = list(xs)
    while todo:
        x = todo.pop()
        if x.op == "mul":
            todo.extend(x.args)
        elif num(x):
            k = k * cval(x)
        else:
            fs.append(x)
    if k == 0:
        return const(k)
    if not fs:
        return const(k)
    if len(fs) == 1 and k == 1:
        return fs[0]
    if len(fs) == 1 and fs[0].op == "add":
        return mk_add(*[mk_mul(const(k), t) for t in fs[0].args])
    fs = sorted(fs)
    if k != 1:
        return mk("mul", const(k), *fs)
    return mk("mul", *fs)


def mk_sub(a, b):
    return mk_add(a, mk_mul(const(-1), b))


def mk_div(a, b):
    if num(a) and num(b) and cval(b) != 0:
        return const(cval(a) / cval(b))
    if num(b) and cval(b) == 1:
        return a
    if num(b) and cval(b) != 0 and math.frexp(abs(cval(b)))[0] == 0.5:      # exact: the same as the multiplication
        return mk_mul(const(1 / cval(b)), a)
    return mk("div", a, b)


def show(n, depth=6):
    if not isinstance(n, N):
        return str(n)
    if n.op == "const":
        return repr(cval(n))
    if depth == 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    o, a = n.op, n.args
    if o == "param":
        return str(a[0])
    if o == "self":
        return "self"
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "get":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "elem":
        return f"each({s(a[0])})"
    if o == "index":
        return f"index({s(a[0])})"
    if o == "not":
        return f"not {s(a[0])}"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(s(x) for x in a) + ")"
    if o == "lt":
        return f"{s(a[0])} < {s(a[1])}"
    if o == "eq":
        return f"{s(a[0])} == {s(a[1])}"
    if o == "in":
        return f"{s(a[0])} in {s(a[1])}"
    if o == "isnone":
        return f"{s(a[0])} is None"
    if o == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o == "add":
        return "(" + " + ".join(s(x) for x in a) + ")"
    if o == "mul":
        return "*".join(s(x) for x in a)
    if o in ("list", "set", "dict"):
        b = {"list": "[]", "set": "{}", "dict": "{}"}[o]
        return b[0] + ", ".join(s(x) for x in a) + b[1]
    if o == "seg":
        kind, k, v, g, loops = a
        t = ("*" if kind == "spread" else "" if kind == "item" else kind + ":") + (s(k) + ": " if isinstance(k, N) else "") + s(v)
        for lp in loops.args:
            t += f" for {s(lp.args[0])}"
        if g is not TRUE:
            t += f" if {s(g)}"
        return t
    if o == "mcall":
        return f"{s(a[1])}.{a[0]}({', '.join(s(x) for x in a[2:])})"
    if o == "call":
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    return f"{o}({', '.join(s(x) for x in a)})"
