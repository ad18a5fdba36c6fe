"""Three-valued equivalence of normal forms: EQ (same behaviour), NEQ (a consistent case in which they differ), UND."""
from itertools import product

from .nodes import *
from .shares import misses, rounds_alike, shared_out
from .nodes import _K

EQ, NEQ, UND = "EQ", "NEQ", "UND"
MAXROWS = 600

# heads the normaliser fully canonicalises: two different normal forms over these really differ
FRAG = {"const", "param", "self", "attr", "get", "elem", "index", "ordindex", "add", "mul", "div", "mod", "floordiv", "floor", "lessprecise", "m_startswith", "m_endswith", "round", "trunc", "ceil",
        "abs", "len", "count", "sum", "tuple", "list", "dict", "set", "seg", "loops", "loop", "in", "eq", "lt", "not", "and", "or", "ite",
        "isnone", "truthy", "any", "mcall", "Ret", "New", "inst", "field", "ext", "copyof", "deepcopy", "range", "items", "keys", "values",
        "min", "max", "fstr", "str", "int", "float", "dot", "transpose", "inv", "norm", "npsum", "sqrt", "square", "pow", "isinst", "typeof",
        "fcall", "call", "kw", "class", "func", "entered", "global", "first", "last", "sorted", "reversed", "slice", "Popped", "asint", "exc",
        "objref", "abort", "npindex", "m_split", "newexc", "repeat", "enumerate", "zip", "module", "bound", "unbound", "prefix", "tupleof",
        "is", "fold", "acc", "setof", "counter", "defaultdict", "apply", "sliceobj", "fmt", "fmod", "where"}
# heads that are not canonical, but the same head on different operands still gives different values
SAME = {"accum", "star", "lastattr", "accattr", "mutated", "log", "lambda", "array", "neg", "bitor", "bitand", "invert", "m_index", "m_count"}
# heads that may be alternative spellings of one another: a difference between them decides nothing
SOFT = [{"min", "max", "ite", "lt"}, {"first", "get", "last", "fold", "any", "index", "ordindex", "elem"}, {"counter", "dict", "defaultdict", "copyof", "list", "set"},
        {"norm", "sqrt", "npsum", "square", "pow", "sum", "mul", "add", "dot", "call", "get", "elem", "neg"}, {"fstr", "str", "call", "m_join", "m_format", "fmt"},
        {"zip", "range", "enumerate", "index", "items", "keys", "values", "len"}, {"slice", "list", "copyof", "range"},
        {"floor", "floordiv", "int", "div", "mod", "fmod", "add", "asint"}, {"sorted", "list", "set", "copyof"},
        {"tuple", "tupleof", "list", "copyof"}, {"apply", "mcall", "fcall", "call", "Ret"}, {"bound", "closure", "func", "partial"},
        {"isinst", "typeof", "eq", "is"}, {"truthy", "any", "eq", "lt", "in"}, {"fold", "sum", "count", "len", "npsum", "ite", "add", "mul"}]


# attribute names that only one of the two programs mentions: their contents are not comparable
LOCAL_ATTRS = set()


def free_content(m):
    """a collection of which the caller decides what is in it"""
    return outer(m) or m.op == "dict" and any(z.op == "seg" and z.args[0] == "spread" and root(z.args[2]).op in ("param", "attr", "self") for z in m.args)


def root(m):
    while m.op in ("get", "elem", "items", "keys", "values") and isinstance(m.args[0], N):
        m = m.args[0]
    return m


def in_frag(n):
    return all((x.op in FRAG or x.op == "accum" and free_content(x.args[0])) and not (x.op == "attr" and x.args[1] in LOCAL_ATTRS) for x in sub(n))


def alien(n):
    return sorted(({x.op for x in sub(n)} - FRAG) | {"." + x.args[1] for x in sub(n) if x.op == "attr" and x.args[1] in LOCAL_ATTRS})


# ------------------------------------------------------------------ conditions
def atoms_of(n, out=None, deep=True):
    """loop-independent boolean atoms that decide n"""
    out = out if out is not None else {}
    seen = set()

    def boolean(c):
        if c in seen:
            return
        seen.add(c)
        if c.op in ("and", "or", "not"):
            for x in c.args:
                boolean(x)
        elif c.op == "ite":
            for x in c.args:
                boolean(x)
        elif c.op == "const":
            pass
        else:
            out[c] = None

    seenv = set()

    def value(v):
        if v in seenv:
            return
        seenv.add(v)
        if v.op == "ite":
            boolean(v.args[0])
            value(v.args[1])
            value(v.args[2])
            return
        if v.op == "seg":
            _, k, x, g, loops = v.args
            if not loops.args:
                boolean(g)
            for y in (k, x):
                if isinstance(y, N):
                    value(y)
            return
        for a in v.args:
            if isinstance(a, N):
                value(a)
    if is_bool(n):
        boolean(n)
    else:
        value(n)
    # atoms talking about a loop element are decided inside the loop
    return [a for a in out if not any(x.op == "acc" for x in sub(a)) and not (
        a.op == "in" and a.args[1].op == "list" and any(x.op == "seg" and x.args[0] == "acc" for x in a.args[1].args))]


INT_OPS = {"ceil", "len", "index", "ordindex", "count", "int", "asint", "floor", "floordiv", "trunc"}


def is_int(n, ints):
    if n in ints or n.op in INT_OPS or counts(n):
        return True
    if n.op == "const":
        return isinstance(cval(n), int) and not isinstance(cval(n), bool)
    if n.op in ("add", "mul", "mod", "max", "min", "abs"):
        return all(is_int(x, ints) for x in n.args)
    if n.op == "elem":
        return n.args[0].op == "range"
    if n.op == "sum":
        return is_int(n.args[1], ints)
    if n.op == "ite":
        return is_int(n.args[1], ints) and is_int(n.args[2], ints)
    return False


def nonneg(n):
    if n.op in ("ceil", "floor", "floordiv", "round", "div", "int"):
        return nonneg(n.args[0])            # shares of a number of things (among a positive number of workers, points, ...)
    return counts(n) or n.op in ("len", "count", "index", "ordindex", "abs", "npsum_sq") or (n.op == "elem" and n.args[0].op == "range" and num(n.args[0].args[0]) and cval(n.args[0].args[0]) >= 0) or (
        n.op == "mod" and num(n.args[1]) and cval(n.args[1]) > 0)


def linform(a, b):
    """a-b = F + k with F having canonical sign; -> (F, k, sign)"""
    d = mk_sub(a, b)
    terms = list(d.args) if d.op == "add" else [d]
    k = 0
    rest = []
    for t in terms:
        if num(t):
            k += cval(t)
        else:
            rest.append(t)
    if not rest:
        return None
    rest.sort()
    lead = rest[0]
    c = cval(lead.args[0]) if lead.op == "mul" and num(lead.args[0]) else 1
    F = mk_add(*[mk_mul(const(1 / c if c not in (1, -1) else c), t) for t in rest]) if c != 1 else (mk_add(*rest))
    if c in (1, -1):
        return F, k / c, (1 if c > 0 else -1)
    return F, k / c, (1 if c > 0 else -1)


class Group:
    def __init__(self):
        self.atoms = []


def group_atoms(atoms, ints):
    """partition atoms into groups; each group yields a list of consistent valuations {atom: bool}"""
    lin, strs, nulls, free = {}, {}, {}, []
    for a in atoms:
        if a.op in ("lt", "eq"):
            x, y = a.args
            kc = [z for z in (x, y) if z.op in ("const", "ext", "class") and not num(z)]
            if a.op == "eq" and kc:
                v = x if kc[0] is y else y
                strs.setdefault(v, []).append((a, kc[0]))
                continue
            f = linform(x, y)
            if f is None:
                free.append(a)
                continue
            F, k, s = f
            lin.setdefault(F, []).append((a, k, s))
            continue
        if a.op == "truthy" and a.args[0].op == "len":
            lin.setdefault(a.args[0], []).append((a, 0, "T"))
            continue
        if a.op in ("truthy", "isnone"):
            nulls.setdefault(a.args[0], []).append(a)
            continue
        free.append(a)
    # link truthy(d) with len(d)
    for F in list(lin):
        if F.op == "len" and F.args[0] in nulls:
            for a in list(nulls[F.args[0]]):
                if a.op == "truthy":
                    lin[F].append((a, 0, "T"))
                    nulls[F.args[0]].remove(a)
        # numeric variable with truthiness / None tests
        elif F in nulls:
            for a in list(nulls[F]):
                if a.op == "truthy":
                    lin[F].append((a, 0, "Z"))
                    nulls[F].remove(a)
    groups = []
    for F, xs in lin.items():
        ks = set()
        for a, k, s in xs:
            ks.add(0 if s in ("T", "Z") else -k)
        pts = set()
        srt = sorted(ks)
        integer = is_int(F, ints)
        for i, k in enumerate(srt):
            pts |= {k, k - 1, k + 1} if integer else {k}
        if not integer:
            pts |= {srt[0] - 1, srt[-1] + 1} | {(p + q) / 2 for p, q in zip(srt, srt[1:])}
        if integer:
            pts = {p for p in pts if p == int(p)}
        if nonneg(F):
            pts = {p for p in pts if p >= 0}
        vals = []
        for p in sorted(pts):
            row = {}
            for a, k, s in xs:
                if s == "T":
                    row[a] = p > 0
                elif s == "Z":
                    row[a] = p != 0
                elif a.op == "eq":
                    row[a] = p + k == 0
                else:
                    d = (p + k) * s        # sign of lhs-rhs
                    row[a] = d < 0
            if (row, None) not in vals:
                eqv = (F, p) if F.op != "add" and F.op != "mul" else None
                if row not in [v for v, _ in vals]:
                    vals.append((row, eqv if (p in ks) else None))
        if vals:
            groups.append(vals)
    for v, xs in strs.items():
        consts = []
        for _, c in xs:
            if c not in consts:
                consts.append(c)
        vals = [({a: c is k for a, c in xs}, (v, k)) for k in consts]
        vals.append(({a: False for a, _ in xs}, None))
        groups.append(vals)
    for v, xs in nulls.items():
        if not xs:
            continue
        t = [a for a in xs if a.op == "truthy"]
        z = [a for a in xs if a.op == "isnone"]
        vals = [({**{a: True for a in t}, **{a: False for a in z}}, None)]
        if z:
            vals.append(({**{a: False for a in t}, **{a: True for a in z}}, (v, NONE)))
        if t:
            vals.append(({**{a: False for a in t}, **{a: False for a in z}}, ("empty", v)))
        groups.append(vals)
    for a in free:
        groups.append([({a: True}, None), ({a: False}, None)])
    return groups


def rows_of(atoms, ints, limit=MAXROWS):
    """consistent joint valuations, or None when there are too many"""
    groups = group_atoms(atoms, ints)
    n = 1
    for g in groups:
        n *= len(g)
        if n > limit:
            return None
    out = []
    for combo in product(*groups):
        row, subs, empt = {}, {}, set()
        for r, e in combo:
            row.update(r)
            if e is not None:
                if e[0] == "empty":
                    empt.add(e[1])
                elif isinstance(e[1], N):
                    subs[e[0]] = e[1]
                else:
                    k = e[1]
                    subs[e[0]] = const(int(k) if k == int(k) else k)
                    if e[0].op == "len" and k == 0:
                        empt.add(e[0].args[0])
        for a, v in row.items():
            if a.op == "lt":            # nothing to count through
                empt.add(mk("range", a.args[1], a.args[0], ONE) if v else mk("range", *a.args, ONE))
            if a.op == "truthy" and not v and a not in subs:
                empt.add(a.args[0] if a.args[0].op != "len" else a.args[0].args[0])
        if not _consistent(row, subs):
            continue
        out.append((row, subs, empt))
    return out


def _consistent(row, subs):
    for a, v in row.items():
        # membership in something empty / None
        if a.op == "in" and v:
            d = a.args[1]
            t = mk("truthy", d)
            if row.get(t) is False or row.get(mk("isnone", d)) is True:
                return False
        if a.op == "isinst" and v:
            if row.get(mk("isnone", a.args[0])) is True:
                return False
            for b, w in row.items():
                if b is not a and w and b.op == "isinst" and b.args[0] is a.args[0] and {a.args[1], b.args[1]} <= {"int", "str", "list", "tuple", "dict", "set"} and a.args[1] != b.args[1]:
                    return False
        if a.op == "truthy" and v and a.args[0].op == "get" and row.get(mk("isnone", a.args[0].args[0])) is True:
            return False
        if a.op == "any" and v:
            if row.get(mk("truthy", a.args[0].args[0])) is False:
                return False
        if a.op == "any" and not v and row.get(mk("truthy", a.args[0].args[0])) is True:
            if row.get(mk("any", a.args[0], mk_not(a.args[1]))) is False:
                return False            # some element meets a condition or its opposite
        if a.op == "in" and v is False and a.args[0].op == "elem" and a.args[0].args[0] is a.args[1]:
            return False
    return True


def reduce(n, row, subs, empt, memo=None):
    """rewrite n under a row: decided atoms, equalities and emptiness"""
    if memo is None:
        memo = {}
    r = memo.get(n)
    if r is not None:
        return r
    v = row.get(n)
    if v is not None:
        r = TRUE if v else FALSE
    elif n in subs:
        r = subs[n]
    elif n.op in ("const", "param", "self", "ext", "class", "func") or not n.args:
        r = n
    elif n.op == "ite":
        c = reduce(n.args[0], row, subs, empt, memo)
        if c is TRUE:
            r = reduce(n.args[1], row, subs, empt, memo)
        elif c is FALSE:
            r = reduce(n.args[2], row, subs, empt, memo)
        else:
            r = mk_ite(c, reduce(n.args[1], row, subs, empt, memo), reduce(n.args[2], row, subs, empt, memo))
    else:
        a = tuple(reduce(x, row, subs, empt, memo) if isinstance(x, N) else x for x in n.args)
        r = renorm(n.op, a, empt)
        v = row.get(r)
        if v is not None:
            r = TRUE if v else FALSE
        elif r in subs:
            r = subs[r]
    memo[n] = r
    return r


def is_empty(it, empt):
    if it in empt:
        return True
    if it.op in ("list", "set", "dict", "tuple") and not it.args:
        return True
    if it.op in ("items", "keys", "values", "copyof", "sorted", "reversed", "tupleof", "setof", "enumerate", "deepcopy"):
        return is_empty(it.args[0], empt)
    if it.op == "zip":
        return any(is_empty(x, empt) for x in it.args)
    if it.op == "range" and len(it.args) == 3 and it.args[0] is it.args[1]:
        return True
    if it.op == "range" and all(num(x) for x in it.args):
        return len(range(*[int(cval(x)) for x in it.args])) == 0
    if it is NONE:
        return True
    return False


def renorm(op, a, empt=()):
    if op in ("not", "and", "or", "ite", "eq", "lt", "isnone", "in", "add", "mul", "min", "max", "deepcopy"):
        if op == "in" and is_empty(a[1], empt):
            return FALSE
        return rebuild(op, a)
    if op == "truthy":
        if is_empty(a[0], empt):
            return FALSE
        return mk_truthy(a[0])
    if op == "get":
        return mk_get(*a) if len(a) == 2 else mk(op, *a)
    if op == "div":
        return mk_div(*a)
    if op in ("any", "count", "sum", "len", "fold", "first"):
        it = a[0].args[0] if op != "len" else a[0]
        if is_empty(it, empt):
            return {"any": FALSE, "fold": a[1] if len(a) > 1 else ZERO}.get(op, ZERO)
        if op == "any":
            return mk_any(*a)
        if op == "count" and a[1] is FALSE:
            return ZERO
        return mk(op, *a)
    if op in ("list", "dict", "set"):
        out = []
        for s in a:
            if s.op == "seg":
                kind, k, v, g, loops = s.args
                if g is FALSE or (kind == "spread" and is_empty(v, empt)) or any(is_empty(l.args[0], empt) for l in loops.args if l.op == "loop"):
                    continue
            out.append(s)
        return mk(op, *out)
    if op in ("floor", "round", "abs") and a and num(a[0]) and op != "round":
        import math
        return const(math.floor(cval(a[0])) if op == "floor" else abs(cval(a[0])))
    if op == "copyof" and a[0].op in ("list", "dict", "set"):
        return a[0]
    return mk(op, *a)


# ------------------------------------------------------------------ comparison
class Cmp:
    def __init__(self, ints=(), soft=True):
        self.ints = set(ints)
        self.memo = {}
        self.rows_used = 0
        self.why = ""
        self.case = None
        self.ctx = {}           # what is known in the case being looked at
        self.used = False       # ... and was made use of

    def boolean(self, a, b):
        """a: specification, b: current"""
        if a is b:
            return EQ
        key = ("b", a, b)
        if key in self.memo:
            return self.memo[key]
        r = self._boolean(a, b)
        self.memo[key] = r
        return r

    def _boolean(self, a, b):
        aa, bb = atoms_of(a), atoms_of(b)
        A, B = set(aa), set(bb)
        only_a, only_b = [x for x in aa if x not in B], [x for x in bb if x not in A]
        # unify provably equivalent atoms
        mp = {}
        rel = set()
        for y in only_b:
            for x in only_a:
                if x.op == y.op:
                    v = self.atom_eq(x, y)
                    if v == EQ:
                        mp[y] = x
                        break
                    if v == NEQ:
                        rel.add(y)
                elif lastwins(x, y):
                    self.why = "every element against the last one"
                    return NEQ
        if not mp and (only_a and only_b):
            w = {z: present(z, only_a) for z in only_b}
            w = {z: c for z, c in w.items() if c is not None}
            if w and set(atoms_of(subst(b, w))) <= A:
                return NEQ if self.boolean(a, subst(b, w)) == NEQ else UND      # even where what is there is never empty
        if mp:
            b = subst(b, mp)
            if a is b:
                return EQ
            bb = atoms_of(b)
            B = set(bb)
            only_a, only_b = [x for x in aa if x not in B], [x for x in bb if x not in A]
        allat = list(dict.fromkeys(aa + bb))
        rows = rows_of(allat, self.ints, 5000)
        if rows is None:
            self.why = "too many atoms"
            return UND
        self.rows_used += len(rows)
        diff = None
        onlya_matters = onlyb_matters = False
        for row, subs, empt in rows:
            x, y = reduce(a, row, subs, empt), reduce(b, row, subs, empt)
            if x is y:
                continue
            if x not in (TRUE, FALSE) or y not in (TRUE, FALSE):
                if diff is None:
                    diff = ("und", row)
                continue
            diff = ("neq", row)
            break
        if diff is None:
            return EQ
        if diff[0] == "und":
            self.why = "residual condition"
            return UND
        if any(z.op == "exc" for z in only_a + only_b):
            self.why = "an operation that may fail"
            return UND
        rela = {x for x in only_a for y in only_b if y in rel and x.op == y.op and self.atom_eq(x, y) == NEQ}
        unknown = [z for z in only_a + only_b if z not in rel and z not in rela and not in_frag(z)]
        if unknown:
            self.why = f"not understood: {alien(unknown[0])}"
            return UND
        if only_a and only_b:
            # both sides test something the other does not: only decisive when the tests are comparable
            la = {linkey(z) for z in only_a}
            bad = [z for z in only_b if z not in rel and linkey(z) not in la and not self._nullrel(z, only_a)]
            if bad:
                self.why = f"incomparable tests {show(only_a[0], 3)} / {show(bad[0], 3)}"
                return UND
        self.case = {show(k, 4): v for k, v in diff[1].items()}
        return NEQ

    def _nullrel(self, z, others):
        if z.op in ("truthy", "isnone", "isinst"):
            if any(o.op in ("truthy", "isnone", "isinst") and o.args[0] is z.args[0] for o in others):
                return True
            m = z.args[0]
            while m.op == "get":
                m = m.args[0]
                if m.op == "param" and any(o.op == "isnone" and o.args[0] is m for o in others):
                    return True         # whether there is a mapping, and what is in it
        return False

    def atom_eq(self, x, y):
        """same-headed atoms"""
        if x.op == "any":
            l = self.iters(x.args[0].args[0], y.args[0].args[0])
            if l == EQ:
                c = y.args[1]
                if x.args[0] is not y.args[0]:
                    c = subst(c, {mk("elem", *y.args[0].args): mk("elem", *x.args[0].args), mk("index", *y.args[0].args): mk("index", *x.args[0].args)})
                return self.boolean(x.args[1], c)
            return l
        rs = [self.value(p, q) if isinstance(p, N) else (EQ if p == q else NEQ) for p, q in zip(x.args, y.args)]
        if all(r == EQ for r in rs):
            return EQ
        if x.op in ("eq",):
            rs2 = [self.value(p, q) for p, q in zip(x.args, reversed(y.args))]
            if all(r == EQ for r in rs2):
                return EQ
        if NEQ in rs and UND not in rs:
            return NEQ
        return UND

    def value(self, a, b):
        if a is b:
            return EQ
        key = ("v", a, b)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = UND
        used, self.used = self.used, False
        r = self._value(a, b)
        if r == NEQ and rounds_alike(a, b):
            self.why = "rounded alike"
            r = UND
        if self.used and self.ctx:
            del self.memo[key]
        else:
            self.memo[key] = r
        self.used = used or self.used and bool(self.ctx)
        return r

    def _value(self, a, b):
        if is_bool(a) and is_bool(b) and a.op != "const" and b.op != "const":
            return self.boolean(a, b)
        if a.op == "field" and b.op == "field" and a.args[0] == b.args[0] == "_state" and b.args[1].op == "dict":
            for x in (a.args[1].args[1:] if a.args[1].op == "ite" else (a.args[1],)):
                if x.op == "deepcopy" and shares(b.args[1], x.args[0]):
                    self.why = "values are passed on without a copy"
                    return NEQ
        if a.op == b.op == "inst" and len(a.args) == len(b.args) == 2 and a.args[0] == b.args[0] and self.value(a.args[1], b.args[1]) == NEQ and "without a copy" in self.why:
            return NEQ
        atoms = list(dict.fromkeys(atoms_of(a) + atoms_of(b)))
        if not atoms:
            return self.leaf(a, b)
        A, B = set(atoms_of(a)), set(atoms_of(b))
        mp = {}
        for y in B - A:
            for x in A - B:
                if x.op == y.op and self.atom_eq(x, y) == EQ:
                    mp[y] = x
                    break
        if mp:
            b = subst(b, mp)
            if a is b:
                return EQ
            B = set(atoms_of(b))
            atoms = list(dict.fromkeys(atoms_of(a) + atoms_of(b)))
        rows = rows_of(atoms, self.ints)
        if rows is None:
            self.why = "too many cases"
            return UND
        self.rows_used += len(rows)
        out = EQ
        und = None
        only_a, only_b = A - B, B - A
        for row, subs, empt in rows:
            m = {}
            x, y = reduce(a, row, subs, empt, m), reduce(b, row, subs, empt, m)
            ctx = self.ctx
            self.ctx = {**ctx, **row}
            r = EQ if x is y else (self.value(x, y) if (x, y) != (a, b) and (set(atoms_of(x)) | set(atoms_of(y))) < set(atoms) else self.leaf(x, y))
            self.ctx = ctx
            if r == NEQ:
                out = NEQ
                self.case = {show(k, 4): v for k, v in row.items()}
                break
            if r == UND:
                und = row
        if out == NEQ:
            if any(not in_frag(z) for z in only_a | only_b):
                self.why = "condition not understood"
                return UND
            if only_a and only_b:
                la = {linkey(z) for z in only_a}
                bad = [z for z in only_b if linkey(z) not in la and not (z.op == "truthy" and z.args[0].op in ("m_startswith", "m_endswith") and any(x.op == "eq" and set(x.args) == set(z.args[0].args) for x in only_a)) and not self._nullrel(z, only_a) and not any(
                    x.op == z.op and self.atom_eq(x, z) == NEQ for x in only_a)]
                if bad:
                    w = {z: present(z, only_a) for z in only_b}
                    w = {z: c for z, c in w.items() if c is not None}
                    if w and set(atoms_of(subst(b, w))) <= A and self.value(a, subst(b, w)) == NEQ:
                        return NEQ          # even where what is there is never empty
                    self.why = f"incomparable tests {show(next(iter(only_a)), 3)} / {show(bad[0], 3)}"
                    return UND
            return NEQ
        return UND if und is not None else EQ

    # -------------------------------------------------------------- condition-free terms
    def leaf(self, a, b):
        if a is b:
            return EQ
        if not isinstance(a, N) or not isinstance(b, N):
            return EQ if a == b else NEQ
        sa, sb = copysource(a), copysource(b)
        if (sa is not a or sb is not b) and sa is not None and sb is not None and a.op != b.op:
            if sa is not a and sb is not b:
                return self.value(sa, sb)
        special = self.special(a, b)
        if special is not None:
            return special
        if a.op == b.op:
            if a.op in ("list", "dict", "set"):
                return self.segs(a, b)
            if a.op == "const":
                if num(a) and num(b) and cval(a) == cval(b):
                    return EQ
                return NEQ
            if a.op in ("add", "mul"):
                ra, rb = list(a.args), list(b.args)
                for x in list(ra):
                    for y in rb:
                        if self.value(x, y) == EQ:
                            ra.remove(x)
                            rb.remove(y)
                            break
                if not ra and not rb:
                    return EQ
                return self._distinct(a, b, pairs=[(x, y) for x in ra for y in rb], rest=ra + rb)
            if a.op in ("sum", "count", "fold", "first", "last") and a.args[0].op == "loop":
                it = self.iters(a.args[0].args[0], b.args[0].args[0])
                if it != EQ:
                    return it if a.op != "fold" else UND
                turned = a.args[0].args[2:] != b.args[0].args[2:]
                if turned:
                    self.why = "another order"
                    if a.op in ("first", "last"):
                        return NEQ
                    if a.op != "fold" or "reversed" not in a.args[0].args[2:] + b.args[0].args[2:] or a.args[1].op != "Ret":
                        return UND
                la, lb = a.args[0].args[:2], b.args[0].args[:2]
                mp = {mk("elem", *lb): mk("elem", *la), mk("index", *lb): mk("index", *la),
                      mk("acc", mk("loop", *lb)): mk("acc", mk("loop", *la))} if a.args[0] is not b.args[0] else {}
                rs = [self.value(p, subst(q, mp) if mp else q) for p, q in zip(a.args[1:], b.args[1:])]
                if turned:          # one and the same later-wins combination, run backwards
                    return NEQ if all(r == EQ for r in rs) else UND
                if all(r == EQ for r in rs):
                    return EQ
                return NEQ if NEQ in rs and UND not in rs else UND
            if len(a.args) == len(b.args):
                rs = [(self.value(x, y) if isinstance(x, N) and isinstance(y, N) else (EQ if x == y else NEQ)) for x, y in zip(a.args, b.args)]
                if all(r == EQ for r in rs):
                    return EQ
                if a.op == "elem" and rs[0] == EQ:
                    return UND
                if UND in rs:
                    return UND
                # the same operation on operands that differ
                return NEQ if a.op in FRAG or a.op in SAME else self._frag(a, b)
            return self._distinct(a, b)
        return self._distinct(a, b)

    def special(self, a, b):
        """pairs of different operations whose relation is known"""
        if "add" in (a.op, b.op) and a.op not in ("list", "tuple", "fstr") and b.op not in ("list", "tuple", "fstr"):
            d = mk_sub(a, b)
            if num(d) and cval(d) != 0:
                return NEQ
        if geometry(a, b):
            self.why = "from the lengths of the lattice vectors alone"
            return NEQ
        for x, y in ((a, b), (b, a)):
            if y.op in TEXT and y.args[0] is x and x.op in ("param", "attr", "get") and all(is_const(w) for w in y.args[1:]):
                return NEQ
            if y.op == "lessprecise" and y.args[0] is x and x.op in ("param", "attr", "get", "elem", "tuple"):
                return NEQ
            if y.op == "round" and y.args[0] is x and len(y.args) == 2 and num(y.args[1]) and cval(y.args[1]) < 3 and x.op in ("param", "attr", "get") and any(
                    is_const(w) and cval(w) == "_location" for w in sub(x)):
                return NEQ              # locations are kept to more digits
            if x.op == "deepcopy" and y.op in ("dict", "list") and any(w.op == "deepcopy" for w in sub(y)) and not uncopied(y, x.args[0]):
                self.why = "copied as a whole / piece by piece"
                return UND
            if x.op == "len" and y.op == "count" and y.args[0].op == "loop":
                # all elements against those that meet a condition
                if y.args[1] is not TRUE and in_frag(y.args[1]) and self.value(x.args[0], y.args[0].args[0]) == EQ:
                    return NEQ
            if x.op == "len" and y.op == "len" and x.args[0] is not y.args[0]:
                ps = [{w for w in sub(t) if w.op in ("param", "local")} for t in (x, y)]
                if len(ps[0]) == len(ps[1]) == 1 and subst(y, {next(iter(ps[1])): next(iter(ps[0]))}) is x:
                    self.why = "how many there are in two things that may be alike"
                    return UND
            if x.op == "elem" and y.op in ("index", "ordindex") and x.args[0] is y.args[0] and x.args[0].op == "range":
                lo, _, step = x.args[0].args
                return EQ if lo is ZERO and step is ONE and y.op == "index" else NEQ
            p, q = vecnorm(x), vecnorm(y)
            if p and q and p[0] != q[0] and p[1] is q[1]:
                return NEQ
        if a.op == b.op and a.args and not isinstance(a.args[0], N) and a.args[0] == b.args[0] and many(a) != many(b) and not any(w.op == "star" for w in (b if many(a) else a).args if isinstance(w, N)):
            return NEQ                  # one argument per dimension against a fixed number of them
        return None

    def _frag(self, a, b):
        al = alien(a) or alien(b)
        self.why = f"not understood: {al}"
        return UND

    def _distinct(self, a, b, pairs=(), rest=()):
        if rest:
            if all(in_frag(x) for x in rest):
                ops = {x.op for x in rest}
                heads = {("mul_head", tuple(sorted(y.op for y in x.args))) if x.op == "mul" else x.op for x in rest}
                if any(self.value(x, y) == UND for x, y in pairs):
                    return UND
                return NEQ
            return self._frag(a, b)
        if not (in_frag(a) and in_frag(b)):
            return self._frag(a, b)
        for s in SOFT:
            if a.op in s and b.op in s:
                self.why = f"{a.op} / {b.op} may agree"
                return UND
        if {a.op, b.op} & {"call", "mcall"} and {a.op, b.op} & {"dict", "list", "set", "tuple", "defaultdict", "counter", "array", "fstr"}:
            self.why = f"{a.op} / {b.op} may agree"
            return UND
        return NEQ

    fxroot = None
    multi = False                   # comparing the occurrences of an event

    def noop(self, z):
        """writing back an equal value"""
        if z.op != "seg" or z.args[0] != "item" or not isinstance(z.args[1], N):
            return False
        v = z.args[2]
        if v.op == "dict" and len(v.args) == 1 and v.args[0].args[0] == "spread" and v.args[0].args[3] is TRUE and not v.args[0].args[4].args:
            v = v.args[0].args[2]
        return v.op == "get" and v.args[0] is self.fxroot and v.args[1] is z.args[1]

    def segs(self, a, b):
        xs, ys = flat(a), flat(b)
        if a.op == "dict" and self.ctx:
            xs, ys = self.seen(xs), self.seen(ys)
        if a.op == "set":
            ux, uy = [fresh_only(z) for z in xs], [fresh_only(z) for z in ys]
            if ux != xs or uy != ys:        # "unless it is there already": the set may come out the same without the test
                r = self.segs(mk("set", *ux), mk("set", *uy))
                if r != NEQ:
                    self.why = "entries added unless already there"
                    return UND
                return NEQ
        if a.op == "dict":
            d = filtered(b)
            if d is not None and self.value(a, d) == EQ:
                self.why = "some entries left out"
                return NEQ
        if self.fxroot is not None and a.op == "dict":
            xs, ys = [z for z in xs if not self.noop(z)], [z for z in ys if not self.noop(z)]
            if not xs and not ys:
                return EQ
        if len(xs) == len(ys):
            rs = [self.seg(x, y, a.op) for x, y in zip(xs, ys)]
            if all(r == EQ for r in rs):
                return EQ
        if a.op == "dict" and ([fresh_only(z) for z in xs] != xs) != ([fresh_only(z) for z in ys] != ys) and any(
                w.op == "fold" for zs, os in ((xs, ys), (ys, xs)) if [fresh_only(z) for z in zs] == zs for z in zs if z.op == "seg" for w in z.args[4].args):
            self.why = "keys met once only"
            return UND
        # unordered matching
        rx, ry = list(xs), list(ys)
        order = []
        for x in xs:
            for y in ry:
                if self.seg(x, y, a.op) == EQ:
                    order.append((xs.index(x), ys.index(y)))
                    rx.remove(x)
                    ry.remove(y)
                    break
        if not rx and not ry:
            if a.op == "set":
                return EQ
            # same entries, other order: matters only where two of them can happen together (and, for mappings, on the same key)
            inv = [(i, k) for n, (i, j) in enumerate(order) for (k, l) in order[n + 1:] if (i < k) != (j < l)]
            worst = EQ
            for i, k in inv:
                if a.op == "dict" and disjoint(xs[i], xs[k]):
                    continue
                ex = self.exclusive(xs[i], xs[k])
                if ex is True:
                    continue
                if ex is None or not (in_frag(xs[i]) and in_frag(xs[k])):
                    worst = UND
                else:
                    return NEQ
            return worst
        shape = lambda zs: [len(z.args[4].args) if z.op == "seg" else 0 for z in zs]
        if len(xs) == len(ys) and shape(xs) != shape(ys) and any(w.op == "inst" for z in xs + ys for w in sub(z)):
            self.why = "snapshots are taken at other points"
            return UND
        cx, cy = ({w for z in zs for w in sub(z) if w.op == "Unseen" or w.op == "Ret" and w.args[0] == "copy"} for zs in (rx, ry))
        if cx != cy:
            if len(rx) == 1 and len(ry) == 1 and self.live(rx[0], ry[0]):
                return NEQ
            self.why = "snapshots are taken at other points"
            return UND
        if a.op == "dict":
            for p, q in ((rx, ys), (ry, xs)):
                for z in p:             # everything in an unknown mapping against single entries
                    if z.op == "seg" and z.args[0] == "spread" and z.args[2].op == "param" and z.args[3] is TRUE and not z.args[4].args and in_frag(mk("dict", *q)) and not any(
                            w is z.args[2] for y in q if y.op != "seg" or y.args[0] == "spread" or y.args[4].args for w in sub(y)):
                        return NEQ
        if not rx or not ry:
            extra = rx or ry
            same = [z for z in (xs if rx else ys) if z not in extra]
            if all(z.op == "seg" and z.args[0] in ("item", "spread", "del", "setattr") for z in extra) and not any(
                    self._redundant(z, y) for z in extra for y in same):
                return NEQ
            if not same and self.fxroot is not None and self.fxroot.op in ("param", "get", "attr", "elem") and all(
                    z.op == "seg" and z.args[0] in ("clear", "pop", "remove", "discard") and in_frag(z.args[3]) for z in extra):
                return NEQ
            self.why = "an entry that may repeat another"
            return UND
        if shape(xs) != shape(ys) and len(rx) == len(ry) and any(w.op == "inst" for z in rx + ry for w in sub(z)):
            self.why = "snapshots are taken at other points"
            return UND
        if len(rx) == 1 and len(ry) == 1:
            if a.op == "dict" and (first_kept(rx[0], ry[0]) or first_kept(ry[0], rx[0])):
                return NEQ
            return self.seg(rx[0], ry[0], a.op)
        if not all(in_frag(z) for z in rx + ry):
            return self._frag(a, b)
        rs = [self.seg(x, y, a.op) for x in rx for y in ry]
        if len(rx) == len(ry) and all(r == NEQ for r in rs):
            return NEQ
        r = self.by_case(mk(a.op, *rx), mk(a.op, *ry))
        if r is not None:
            return r
        self.why = "containers are built differently"
        return UND

    def seen(self, zs):
        """without the entries known to be written over"""
        later = lambda i: (y.args[2] for y in zs[i + 1:] if y.op == "seg" and y.args[0] == "spread" and y.args[3] is TRUE and not y.args[4].args)
        out = [z for i, z in enumerate(zs) if not (z.op == "seg" and z.args[0] == "item" and isinstance(z.args[1], N) and any(self.ctx.get(mk("in", z.args[1], u)) is True for u in later(i)))]
        self.used = self.used or len(out) != len(zs)
        return out

    def by_case(self, a, b):
        """entries added in loops under conditions that no iteration changes: case by case"""
        inv = {}
        for z in a.args + b.args:
            if z.op == "seg" and z.args[4].args and z.args[3] is not TRUE:
                bound = {w for l in z.args[4].args if l.op == "loop" for w in (mk("elem", *l.args[:2]), mk("index", *l.args[:2]), l)}
                for c in atoms_of(z.args[3]):
                    if not any(w in bound or w.op in ("acc", "accum", "partial") or w.op == "seg" and w.args[0] == "acc" for w in sub(c)):
                        inv[c] = None
        if not inv or len(inv) > 4:
            return None
        rows = rows_of(list(inv), self.ints)
        if rows is None or len(rows) > 16:
            return None
        out = EQ
        for row, subs, empt in rows:
            x, y = reduce(a, row, subs, empt), reduce(b, row, subs, empt)
            if (x, y) == (a, b):
                return None
            r = EQ if x is y else self.value(x, y)
            if r == NEQ:
                if all(in_frag(c) for c in inv):
                    self.case = {show(k, 4): v for k, v in row.items()}
                    return NEQ
                r = UND
            if r == UND:
                out = UND
        return out

    written = ((), ())              # the states that operations change, in the reference model and in the current program

    def live(self, z, y):
        """the same entry, but holding the state itself where the reference model holds a snapshot of it, or another state than the one that is worked on"""
        if z.op != "seg" or y.op != "seg" or z.args[0] != y.args[0] or z.args[3] is not y.args[3] or z.args[4] is not y.args[4] or z.args[1] is not y.args[1]:
            return False
        a, b = z.args[2], y.args[2]
        if a.op == b.op == "tuple" and len(a.args) == len(b.args):
            diff = [(p, q) for p, q in zip(a.args, b.args) if p is not q]
            if len(diff) != 1:
                return False
            a, b = diff[0]
        copy = lambda n: n.op == "Ret" and n.args[0] == "copy"
        wa, wb = ({k for k, _ in w} for w in self.written)
        if copy(a) and a.args[1] is b:          # a snapshot of b against b
            if b not in wa and b not in wb and a in wa and a in wb:
                return True                     # the copy is worked on, b is what was copied
            ls = set(z.args[4].args)
            return b in wb and any(k is b and ls & set(l) for k, l in self.written[1]) and a not in wa
        return False

    def _redundant(self, z, y):
        """z may say what y says already"""
        if z.op != "seg" or y.op != "seg" or z.args[0] != y.args[0] or z.args[0] in ("del",):
            return False
        if not isinstance(z.args[1], N):      # no key: a sequence, every entry counts
            return z.args[0] == "spread" and z.args[2].op in ("dict",)
        return isinstance(y.args[1], N) and self.value(z.args[1], y.args[1]) != NEQ and self.value(z.args[2], y.args[2]) != NEQ

    def exclusive(self, x, y):
        """the two entries never happen in the same run (or, inside a loop, in the same iteration); None when not known"""
        if x.op != "seg" or y.op != "seg":
            return False
        g = mk_and(x.args[3], y.args[3])
        if g is FALSE:
            return True
        if g is TRUE:
            return False
        rows = rows_of(atoms_of(g), self.ints)
        if rows is None:
            return None
        for row, subs, empt in rows:
            if reduce(g, row, subs, empt) is not FALSE:
                return False
        return True

    def iters(self, x, y):
        """what two loops run over; the elements themselves are compared with the bodies"""
        r = self.value(x, y)
        if r == NEQ and x is not y:
            sx, sy = rekeyed(x), rekeyed(y)
            if (sx is not None or sy is not None) and not (sx is not None and sy is not None and x.args[0].args[1] is y.args[0].args[1]) and (
                    self.value(x if sx is None else sx, y if sy is None else sy) == EQ):
                self.why = "the same entries under other keys"
                return UND
        if r == UND:
            for p, q in ((x, y), (y, x)):
                if p.op == "bitand" and len(p.args) == 2 and all(w.op == "keys" for w in p.args) and p.args[0] is not p.args[1]:
                    ms = [w.args[0] for w in p.args]
                    hit = [i for i, m in enumerate(ms) if self.value(m, q) == EQ]
                    if len(hit) == 1 and all(root(m).op in ("param", "self", "attr") for m in ms):
                        self.why = "only the entries both mappings have"
                        return NEQ
        return r

    def seg(self, x, y, kind="list"):
        if x is y:
            return EQ
        if x.op != "seg" or y.op != "seg":
            return self.value(x, y)
        k1, key1, v1, g1, l1 = x.args
        k2, key2, v2, g2, l2 = y.args
        if {k1, k2} == {"item", "itemleft"} and kind == "list" and l1.args and len(l1.args) == len(l2.args):
            # collected in the opposite order
            as_item = lambda z: z if z.args[0] == "item" else mk("seg", "item", *z.args[1:])
            r = self.seg(as_item(x), as_item(y), kind)
            return NEQ if r == EQ and any(in_frag(v) and any(w is mk("elem", *l1.args[0].args[:2]) for w in sub(v)) for v in (v1,)) else UND
        if {k1, k2} == {"spread", "extendleft"} and kind == "list" and self.fxroot is not None and self.fxroot.op == "queue":
            # queued at the front instead of the back
            bare = lambda z: mk("seg", "spread", z.args[1], z.args[2].args[0] if z.args[0] == "extendleft" and z.args[2].op == "reversed" else z.args[2], *z.args[3:])
            return NEQ if self.seg(bare(x), bare(y), kind) == EQ else UND
        if {k1, k2} == {"item", "spread"} and kind in ("dict", "list", "set"):
            (vs, gs, ls), li = ((v1, g1, l1), l2) if k1 == "spread" else ((v2, g2, l2), l1)
            base = li.args[-1] if len(li.args) == len(ls.args) + 1 else None
            if base is not None and base.op == "loop" and len(base.args) == 2 and base.args[0] is vs and vs.op not in ("dict", "list", "set", "tuple"):
                e = mk("elem", *base.args)
                w = mk("seg", "item", e, mk("get", vs, e), gs, mk("loops", *ls.args, base)) if kind == "dict" else mk(
                    "seg", "item", key2 if k1 == "spread" else key1, e, gs, mk("loops", *ls.args, base))
                return self.seg(w, y, kind) if k1 == "spread" else self.seg(x, w, kind)
        if {k1, k2} == {"item", "spread"} and g1 is TRUE and g2 is TRUE:
            (vs, ls), (vi, li) = ((v1, l1), (v2, l2)) if k1 == "spread" else ((v2, l2), (v1, l1))
            if not ls.args and len(li.args) == 1 and li.args[0].op == "loop" and len(li.args[0].args) > 2 and li.args[0].args[2] != "brk" and (
                    vi is mk("elem", *li.args[0].args[:2]) and not isinstance(key1, N) and not isinstance(key2, N)):
                r = self.value(vs, li.args[0].args[0])     # the same things, in another order
                return {"list": NEQ if r == EQ else UND, "set": r}.get(kind, UND)
        if len(l1.args) != len(l2.args):
            if self.multi and k1 == k2 == "item" and not (l1.args and l2.args) and g1 is TRUE and g2 is TRUE:
                ls = l1.args or l2.args
                if all(l.op == "loop" and len(l.args) == 2 and l.args[0].op not in ("tuple", "list", "set", "dict") for l in ls) and in_frag(v1) and in_frag(v2):
                    return NEQ              # once against once per element
            return UND
        mp = {}
        res = []
        for a, b in zip(l1.args, l2.args):
            if a is b:
                continue
            if a.op != "loop" or b.op != "loop" or len(a.args) != len(b.args):
                if a.op == "loop" and b.op == "loop" and self.value(a.args[0], subst(b.args[0], mp)) == EQ:
                    # same sequence, other order or an early exit
                    if kind != "list" and not any(len(z.args) > 2 and z.args[2] == "brk" for z in (a, b)):
                        res.append(EQ if kind == "set" else UND)
                        continue
                    res.append(NEQ if (len(a.args) > 2 and a.args[2] != "brk" or len(b.args) > 2 and b.args[2] != "brk") and not vague_key(a, b) else UND)
                    continue
                return UND
            r = self.iters(a.args[0], subst(b.args[0], mp) if mp else b.args[0])
            if r == UND and kind == "list" and self.why == "the same entries under other keys" and a.args[2:] == b.args[2:] == ("sorted",):
                k = [z.args[0].args[0].args[1].op for z in (a, b) if rekeyed(z.args[0]) is not None]
                r = NEQ if len(k) == 1 and k[0] in ("int", "str", "float") else r      # numbers sort unlike their texts
            if len(a.args) > 2 and a.args[2:] != b.args[2:]:
                if a.args[2] == "brk" and b.args[2] == "brk":
                    m2 = {**mp, mk("elem", *b.args[:2]): mk("elem", *a.args[:2])}
                    rr = self.boolean(a.args[3], subst(b.args[3], m2))
                    r = rr if r == EQ else r
                elif kind != "list" and "brk" not in (a.args[2], b.args[2]):
                    r = r if kind == "set" or r != EQ else UND
                elif all(isinstance(z.args[2], N) for z in (a, b)) and self.value(a.args[2], subst(b.args[2], {**mp, mk("elem", *b.args[:2]): mk("elem", *a.args[:2])})) == EQ:
                    pass
                else:
                    r = (UND if vague_key(a, b) else NEQ) if r == EQ else r
            res.append(r)
            mp[mk("elem", *b.args[:2])] = mk("elem", *a.args[:2])
            mp[mk("index", *b.args[:2])] = mk("index", *a.args[:2])
            mp[mk("loop", *b.args[:2])] = mk("loop", *a.args[:2])
        if k1 != k2:
            return NEQ if {k1, k2} <= {"item", "spread"} and False else UND
        q = lambda n: subst(n, mp) if mp and isinstance(n, N) else n
        if kind == "list" and k1 == "item" and isinstance(key1, N) != isinstance(key2, N) and not l1.args and self.fxroot is not None and g1 is TRUE and g2 is TRUE:
            return NEQ                  # one more entry against an entry replaced
        if isinstance(key1, N) or isinstance(key2, N):
            res.append(self.value(key1, q(key2)) if isinstance(key1, N) and isinstance(key2, N) else UND)
        elif key1 != key2:
            res.append(NEQ)
        res.append(self.value(v1, q(v2)))
        g2 = q(g2)
        res.append(self.boolean(g1, g2))
        if all(r == EQ for r in res):
            return EQ
        if shared_out(l1.args, l2.args) and l1.args is not l2.args:
            if misses(l1.args, l2.args) and self.boolean(g1, g2) == EQ and self.value(v1, q(v2)) == EQ:
                self.why = "the shares do not add up to the whole"
                return NEQ
            return UND
        return UND if UND in res else NEQ


def filtered(n):
    """the mapping this one is made from by leaving out entries a user may well have put there"""
    if len(n.args) != 1 or n.args[0].op != "seg" or n.args[0].args[0] != "item":
        return None
    _, k, v, g, loops = n.args[0].args
    if g is TRUE or len(loops.args) != 1 or loops.args[0].op != "loop" or len(loops.args[0].args) != 2:
        return None
    l = loops.args[0]
    d, e = l.args[0], mk("elem", *l.args)
    if k is not e or v is not mk("get", d, e):
        return None
    atoms = atoms_of(g)
    row = {}
    for x in atoms:
        if x.op in ("isnone", "truthy") and x.args[0] is v and outer(d):
            row[x] = x.op == "isnone"
        elif x.op == "in" and x.args[0] is e and d.op == "dict" and len(d.args) > 1 and any(z.op == "seg" and z.args[0] == "spread" and z.args[2] is x.args[1] for z in d.args):
            row[x] = False
        else:
            return None
    return d if row and simp(g, row) is FALSE else None


def rekeyed(n):
    """the mapping whose entries this one holds, each under a key of its own"""
    if n.op == "dict" and len(n.args) == 1 and n.args[0].op == "seg":
        z = n.args[0]
        if z.args[0] == "item" and z.args[3] is TRUE and len(z.args[4].args) == 1 and z.args[4].args[0].op == "loop" and len(z.args[4].args[0].args) == 2:
            l = z.args[4].args[0]
            e = mk("elem", *l.args)
            if isinstance(z.args[1], N) and any(w is e for w in sub(z.args[1])):
                return l.args[0]
    return None


def vague_key(*loops):
    """an order by a key which may well be the order of the ids or the positions"""
    for l in loops:
        k = l.args[2] if len(l.args) > 2 else None
        if isinstance(k, N) and k.op == "bykey":
            first = k.args[0].args[0] if k.args[0].op == "tuple" and k.args[0].args else k.args[0]
            if len(k.args) > 1 and k.args[1] is TRUE:
                continue
            consts = {cval(x) for x in sub(first) if is_const(x)}
            if consts & {"_location", "_site_class"} and "_site_id" not in consts and not any(x.op == "index" for x in sub(first)):
                continue
            if not any(x.op == "str" for x in sub(first)) and (first.op in ("elem", "int", "index") or any(is_const(x) and cval(x) == "_site_id" for x in sub(first)) or
                                                               first.op not in ("get", "elem", "tuple", "attr", "neg", "str")):
                return True
    return False


def flat(n):
    """segments, with mappings spread into mappings written out"""
    out = []
    for z in n.args:
        if n.op == "dict" and z.op == "seg" and z.args[0] == "spread" and z.args[2].op == "dict" and z.args[3] is TRUE and not z.args[4].args:
            out += flat(z.args[2])
            continue
        if n.op == "dict" and out and z.op == "seg" and out[-1].op == "seg" and z.args[0] == out[-1].args[0] == "item" and (
                isinstance(z.args[1], N) and z.args[1] is out[-1].args[1] and z.args[3] is TRUE and z.args[4] is out[-1].args[4]):
            out.pop()                   # written over at once
        out.append(z)
    if n.op == "dict":
        for i, z in enumerate(out):
            out[i] = unhidden(z, [y.args[2] for y in out[i + 1:] if y.op == "seg" and y.args[0] == "spread" and y.args[3] is TRUE and not y.args[4].args])
    return out


def unhidden(z, later):
    """an entry left out only where it is written over further on: an entry"""
    if not later or z.op != "seg" or z.args[0] != "item" or not isinstance(z.args[1], N):
        return z
    k, v, g, loops = z.args[1:]
    rest = [c for c in (g.args if g.op == "and" else (g,)) if not (c.op == "not" and c.args[0].op == "in" and c.args[0].args[0] is k and c.args[0].args[1] in later)]
    if len(rest) == (len(g.args) if g.op == "and" else 1):
        return z
    g = mk_and(*rest)
    if len(loops.args) == 1 and loops.args[0].op == "loop" and len(loops.args[0].args) == 2:
        l = loops.args[0]
        e = mk("elem", *l.args)
        if k is e and v is mk("get", l.args[0], e) and e not in sub(g):
            return mk("seg", "spread", "", v.args[0], g, mk("loops"))
    return mk("seg", "item", k, v, g, loops)


def uncopied(n, src):
    """some value in the container still is part of the source itself"""
    if n is src:
        return True
    if n.op in ("deepcopy", "loop", "loops"):
        return False
    if n.op == "seg":
        return isinstance(n.args[2], N) and uncopied(n.args[2], src)
    return any(uncopied(w, src) for w in n.args if isinstance(w, N))


def present(z, others):
    """the membership test that a test of the looked-up value stands for"""
    if z.op in ("truthy", "isnone") and z.args[0].op == "get" and len(z.args[0].args) == 2:
        c = mk("in", z.args[0].args[1], z.args[0].args[0])
        if c in others:
            return c if z.op == "truthy" else mk_not(c)
    return None


def lastwins(x, y):
    """x: some element meets a condition; y: a flag that each element sets anew"""
    if x.op != "any" or y.op != "truthy" or y.args[0].op != "fold":
        return False
    l, init, upd, brk = (y.args[0].args + (None,) * 4)[:4]
    return (l is x.args[0] and brk is FALSE and not any(w.op == "acc" for w in sub(upd)) and contains(upd, mk("elem", *l.args[:2]))
            and in_frag(x) and in_frag(upd) and upd in (mk_not(x.args[1]), x.args[1]))


def shares(n, src):
    """a value in the container is a part of the source (not a key, not a copy)"""
    if n is src:
        return True
    if n.op == "get":
        return not (is_const(n.args[1]) and "id" in str(cval(n.args[1]))) and shares_root(n.args[0], src)
    if n.op == "ite":
        return shares(n.args[1], src) or shares(n.args[2], src)
    if n.op == "seg":
        return isinstance(n.args[2], N) and shares(n.args[2], src)
    if n.op in ("dict", "list", "tuple", "set"):
        return any(shares(w, src) for w in n.args if isinstance(w, N))
    return False


def shares_root(n, src):
    while n.op == "get":
        n = n.args[0]
    return n is src


LOSSY_GEOMETRY = {"vec_lengths"}
FULL_GEOMETRY = {"vecs", "_matrix", "_inv_matrix"}


def geometry(a, b):
    """a needs the lattice vectors, b has only their lengths (what both share aside)"""
    if not any(w.op == "attr" and w.args[1] in LOSSY_GEOMETRY for w in sub(b)):
        return False
    common = {w for w in set(sub(a)) & set(sub(b)) if w.args and w.op not in ("attr", "accattr")}
    owners = {w.args[0] for w in sub(b) if w.op == "attr" and w.args[1] in LOSSY_GEOMETRY}

    def uses(n, o, whole):
        if n is o:
            return whole                # the object itself, not one of its fields
        if n in common:
            return False
        if n.op in ("attr", "accattr") and n.args[0] is o:
            return n.args[1] in FULL_GEOMETRY
        return any(uses(w, o, whole) for w in n.args if isinstance(w, N))

    return any(uses(a, o, False) and not uses(b, o, True) for o in owners)


TEXT = {"m_strip", "m_rstrip", "m_lstrip", "m_lower", "m_upper", "m_title", "m_replace", "m_removeprefix", "m_removesuffix", "m_swapcase", "m_capitalize", "m_casefold"}


def fresh_only(z):
    """an entry without the condition that it is not in what was collected so far"""
    if z.op != "seg" or z.args[0] != "item" or z.args[3] is TRUE:
        return z
    keep = []
    for c in (z.args[3].args if z.args[3].op == "and" else (z.args[3],)):
        if c.op == "not" and c.args[0].op == "in" and c.args[0].args[0] in (z.args[1], z.args[2]) and any(
                w.op == "accum" or w.op == "seg" and w.args[0] == "acc" for w in sub(c.args[0].args[1])):
            continue
        keep.append(c)
    return mk("seg", *z.args[:3], mk_and(*keep), *z.args[4:])


def first_kept(z, y):
    """z keeps the first entry made for a key that can come more than once, y makes the same entry afresh each time"""
    if fresh_only(z) is not y or z is y or len(z.args[4].args) != 1 or z.args[3].op != "not" or not in_frag(y):
        return False
    k, v, l = z.args[1], z.args[2], z.args[4].args[0]
    if l.op != "loop" or k.op not in ("attr", "get") or root(l.args[0]).op not in ("param", "attr", "self"):
        return False
    el = mk("elem", *l.args[:2])
    name = k.args[1] if isinstance(k.args[1], str) else cval(k.args[1]) if is_const(k.args[1]) else "id"
    if k.args[0] is not el or not isinstance(name, str) or "id" in name.lower():
        return False
    return contains(subst(v, {k: NONE}), el)


def vecnorm(n):
    """(p, vector) when n is the p-norm of a vector"""
    if n.op == "sum" and n.args[0].op == "loop" and n.args[1].op == "abs" and n.args[1].args[0] is mk("elem", *n.args[0].args[:2]):
        return 1, n.args[0].args[0]
    if n.op == "sqrt":
        x = n.args[0]
        if x.op == "sum" and x.args[0].op == "loop":
            e = mk("elem", *x.args[0].args[:2])
            if x.args[1] in (mk_mul(e, e), mk("square", e), mk("pow", e, const(2))):
                return 2, x.args[0].args[0]
        if x.op == "npsum" and len(x.args) == 1 and x.args[0].op == "square":
            return 2, x.args[0].args[0]
    if n.op == "norm" and len(n.args) == 1:
        return 2, n.args[0]
    if n.op == "max" and len(n.args) == 1 and n.args[0].op == "list" and len(n.args[0].args) == 1:
        z = n.args[0].args[0]
        if z.op == "seg" and z.args[0] == "item" and z.args[3] is TRUE and len(z.args[4].args) == 1 and z.args[4].args[0].op == "loop":
            l = z.args[4].args[0]
            if z.args[2].op == "abs" and z.args[2].args[0] is mk("elem", *l.args[:2]):
                return 0, l.args[0]
    return None


def many(n):
    """called with as many arguments as something has dimensions"""
    for w in n.args:
        if isinstance(w, N) and w.op == "star" and w.args[0].op == "list" and len(w.args[0].args) == 1 and w.args[0].args[0].op == "seg":
            ls = w.args[0].args[0].args[4].args
            if len(ls) == 1 and ls[0].op == "loop" and ls[0].args[0].op == "range" and not num(ls[0].args[0].args[1]):
                return True
    return False


def linkey(z):
    if z.op in ("lt", "eq"):
        f = linform(*z.args)
        return (f[0].args[0] if f[0].op == "len" else f[0]) if f else z
    if z.op == "truthy" and z.args[0].op == "len":
        return z.args[0].args[0]
    if z.op == "truthy":
        return z.args[0]
    return z


def copysource(n):
    """x for every shallow copy of x"""
    if n.op == "copyof":
        return n.args[0]
    if n.op in ("list", "dict", "set") and len(n.args) == 1 and n.args[0].op == "seg" and n.args[0].args[0] == "spread" and n.args[0].args[3] is TRUE and not n.args[0].args[4].args:
        return n.args[0].args[2]
    return n


def disjoint(x, y):
    k1, k2 = x.args[1], y.args[1]
    if x.args[0] == "item" and y.args[0] == "item" and isinstance(k1, N) and isinstance(k2, N):
        return mk_eq(k1, k2) is FALSE
    return False
