"""Interprocedural abstract interpreter: turns the AST of an entry point (callees inlined) into a
gated value graph plus an ordered trace of effects. Nothing is executed and no solver is used:
branches are merged into ite nodes, loops are summarised with element / fold / any nodes."""
import ast
import builtins

from .nodes import *
from .nodes import _K
from .program import AnalysisError, Cls, Func

BUILTINS = set(dir(builtins))
MAX_DEPTH = 14
MAX_EVENTS = 60000

CANON = {
    "numpy.round": "round", "numpy.around": "round", "numpy.round_": "round", "round": "round",
    "numpy.floor": "floor", "math.floor": "floor", "numpy.abs": "abs", "numpy.absolute": "abs", "abs": "abs", "math.fabs": "abs", "numpy.fabs": "abs",
    "numpy.dot": "dot", "numpy.matmul": "dot", "numpy.sum": "npsum", "numpy.sqrt": "sqrt", "math.sqrt": "sqrt",
    "numpy.square": "square", "numpy.linalg.norm": "norm", "numpy.linalg.inv": "inv",
    "numpy.rint": "rint", "numpy.ceil": "ceil", "math.ceil": "ceil", "numpy.trunc": "trunc", "math.trunc": "trunc", "numpy.fix": "trunc",
    "numpy.mod": "mod", "numpy.remainder": "mod", "numpy.fmod": "fmod", "math.fmod": "fmod",
    "numpy.where": "where", "numpy.transpose": "transpose", "math.dist": "mdist", "math.hypot": "hypot",
    "copy.deepcopy": "deepcopy", "copy.copy": "copyof",
    "numpy.einsum": "einsum", "numpy.linalg.solve": "linsolve",
}
def is_array(n):
    return n.op == "array" or n.op == "ite" and (is_array(n.args[1]) or is_array(n.args[2]))


def unarray(n):
    if n.op == "array":
        return unarray(n.args[0])
    if n.op == "ite" and is_array(n):
        return mk_ite(n.args[0], unarray(n.args[1]), unarray(n.args[2]))
    return n


def _named_keys(g, el):
    """[(constant, remaining condition)] when the condition lets only these values of el through"""
    if g.op == "eq":
        for x, y in (g.args, g.args[::-1]):
            if x is el and is_const(y):
                return [(y, TRUE)]
    if g.op == "or":
        out = [_named_keys(x, el) for x in g.args]
        if all(out):
            out = [z for o in out for z in o]
            return out if len({c for c, _ in out}) == len(out) else None
    if g.op == "and":
        for i, x in enumerate(g.args):
            o = _named_keys(x, el)
            if o:
                rest = mk_and(*(g.args[:i] + g.args[i + 1:]))
                return [(c, mk_and(r, rest)) for c, r in o]
    return None


STRIP = {"numpy.array", "numpy.asarray", "numpy.asanyarray", "iter", "tqdm.tqdm", "tqdm.trange", "tqdm.auto.tqdm", "tqdm.notebook.tqdm", "numpy.ascontiguousarray", "numpy.copy"}
IMPURE_PREFIX = ("random.", "numpy.random.", "os.", "time.", "multiprocessing.", "datetime.", "shutil.", "tempfile.", "secrets.",
                 "PIL.", "matplotlib.", "plotly.", "IPython.", "rustworkx.", "json.", "monty.", "pickle.", "warnings.", "concurrent.",
                 "uuid.", "io.", "sys.", "threading.", "queue.", "pathlib.")
TYPES = {"int", "float", "str", "bool", "list", "tuple", "dict", "set", "frozenset", "type", "bytes", "complex", "object"}
PATH_TEXT = {"os.path." + f for f in ("join", "basename", "dirname", "splitext", "normpath", "split")}       # text operations only
IMPURE = {"open", "print", "input", "next", "exec", "eval", "id", "hash", "globals", "setattr", "delattr"}
BULK = {"add_nodes_from": ("add_node", None), "add_edges_from": ("add_edge", 3)}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "setdefault", "popitem", "add",
            "discard", "appendleft", "extendleft", "popleft", "rotate", "difference_update", "intersection_update", "subtract"}
STRM = {"split", "join", "strip", "format", "startswith", "endswith", "lower", "upper", "replace", "lstrip", "rstrip", "partition",
        "rpartition", "strftime", "isdigit", "encode", "decode", "splitlines", "find", "removeprefix", "removesuffix", "title", "zfill"}


def _is_inc(x, var):
    if isinstance(x, ast.AugAssign):
        return isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and x.target.id == var and isinstance(x.value, ast.Constant) and x.value.value == 1
    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == var and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add):
        l, r = x.value.left, x.value.right
        return (isinstance(l, ast.Name) and l.id == var and isinstance(r, ast.Constant) and r.value == 1) or (
            isinstance(r, ast.Name) and r.id == var and isinstance(l, ast.Constant) and l.value == 1)
    return False


class Loop:
    _n = 0

    def __init__(self, it, depth, kind="for", order="given", loc=None, uid=None):
        Loop._n += 1
        self.uid = Loop._n
        self.iter, self.kind, self.order, self.loc = it, kind, order, loc
        if kind == "while":
            self.node = mk("loop", mk("while", self.uid), 0)
        else:
            self.node = mk("loop", it, depth)
        self.elem = mk("elem", *self.node.args)
        self.index = mk("index", *self.node.args)
        self.breaks, self.rets, self.raises = [], [], []
        self.base = 0
        self.cond = None

    def __repr__(self):
        return f"<Loop {self.kind} {show(self.iter) if self.iter is not None else ''}>"


def reordered(src, order):
    """the positions of this source are not those of the sequence its elements are named after"""
    return src[0] == "loop" and src[1].order != order or src[0] == "fuse" and (src[4] != order or any(l.order != order for l in src[1]))


class Entry:
    __slots__ = ("kind", "key", "value", "guard", "loops", "seq", "loc")

    def __init__(self, kind, key, value, guard, loops, seq, loc):
        self.kind, self.key, self.value, self.guard, self.loops, self.seq, self.loc = kind, key, value, guard, loops, seq, loc


class Ev:
    def __init__(self, kind, name, recv, args, kwargs, result, guard, loops, seq, loc, stack, logs, withs, flags):
        self.kind, self.name, self.recv, self.args, self.kwargs, self.result = kind, name, recv, args, kwargs, result
        self.guard, self.loops, self.seq, self.loc, self.stack = guard, loops, seq, loc, stack
        self.logs, self.withs, self.flags = logs, withs, flags

    @property
    def where(self):
        return f"{self.loc[0]}:{self.loc[1]} ({self.loc[2]})"

    def arg(self, i, name=None):
        if name is not None and name in self.kwargs:
            return self.kwargs[name]
        return self.args[i] if i < len(self.args) else None

    def __repr__(self):
        r = f"{self.recv!r}." if self.recv is not None else ""
        s = f"[{self.seq}] {self.kind} {r}{self.name}({', '.join(map(repr, self.args))}{', ' if self.kwargs else ''}{', '.join(f'{k}={v!r}' for k, v in self.kwargs.items())})"
        if self.result is not None:
            s += f" -> {self.result!r}"
        if self.loops:
            s += f" loops={list(self.loops)}"
        if self.guard is not TRUE:
            s += f" IF {self.guard!r}"
        return s + f" @{self.where}"


class State:
    __slots__ = ("envs", "logs", "conds", "assumed", "dead", "_g", "_f")

    def __init__(self):
        self.envs, self.logs, self.conds, self.assumed, self.dead = {}, {}, (), (), None
        self._g = self._f = None

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.logs, s.conds, s.assumed, s.dead = self.logs, self.conds, self.assumed, self.dead
        return s

    def adopt(self, o):
        self.envs, self.logs, self.conds, self.assumed, self.dead = o.envs, o.logs, o.conds, o.assumed, o.dead

    @property
    def guard(self):
        if self._g is None or self._g[0] is not self.conds:
            self._g = (self.conds, mk_and(*self.conds))
        return self._g[1]

    def facts(self):
        k = (self.conds, self.assumed)
        if self._f is None or self._f[0] != k:
            f = {}
            for c in self.conds + self.assumed:
                facts_of(c, True, f)
            g = self.guard
            facts_of(g, True, f)
            self._f = (k, f)
        return self._f[1]


class Frame:
    _n = 0

    def __init__(self, func, module, cls, selfnode, parent):
        Frame._n += 1
        self.fid = Frame._n
        self.func, self.module, self.cls, self.selfnode, self.parent = func, module, cls, selfnode, parent
        self.rets, self.yields = [], []
        self.globals, self.nonlocals = set(), set()
        self.loopframes = []
        self.base = 0
        self.loopbase = 0


class Obj:
    def __init__(self, node, kind, loops, guard, cls=None, meta=None):
        self.node, self.kind, self.loops, self.guard, self.cls, self.meta = node, kind, loops, guard, cls, meta


class Interp:
    def __init__(self, prog, prims=None, pure=None, noinline=(), hooks=()):
        """prims: {class name: set of method names treated as primitives}"""
        self.prog = prog
        self.prims = prims or {}
        self.noinline = set(noinline)      # function qualified names kept opaque
        self.hooks = set(hooks)
        self.events, self.seq = [], 0
        self.loops, self.withs, self.stack, self.flags = [], [], [], []
        self.objs, self.closures, self.refs, self.phis, self.whileconds = {}, {}, {}, {}, {}
        self.types = {}
        self.dry = 0
        self.uid = 0
        self.frame = None
        self.unknown = set()               # constructs not understood
        self.analysed = set()              # functions visited
        self.calls = 0
        self.used = set()
        self.posalias = {}
        self.copies = {}
        self._memo = {}

    # ------------------------------------------------------------------ helpers
    def fresh(self, op, *args):
        self.uid += 1
        return mk(op, *args, self.uid)

    def loc(self, node=None):
        f = self.frame
        line = getattr(node, "lineno", None) or (f.func.line if f else 0)
        return (f.module.path, line, f.func.qual if f.func else "<module>") if f else ("", 0, "")

    def note(self, what, node=None):
        self.unknown.add((what, self.loc(node)))

    def emit(self, st, kind, name, recv=None, args=(), kwargs=None, result=None, node=None, force=False):
        self.seq += 1
        if self.dry:
            return None
        if len(self.events) > MAX_EVENTS:
            raise AnalysisError("event budget exceeded")
        ev = Ev(kind, name, recv, list(args), dict(kwargs or {}), result, st.guard, tuple(self.loops), self.seq, self.loc(node),
                tuple(f.qual for f in self.stack), st.logs, tuple(self.withs), tuple(self.flags))
        ev.assumed = st.assumed
        self.events.append(ev)
        return ev

    def alloc(self, st, kind, cls=None, meta=None):
        n = self.fresh("obj", kind)
        self.objs[n] = Obj(n, kind, tuple(self.loops), st.guard, cls, meta)
        st.logs = {**st.logs, n: ()}
        if cls is not None:
            self.types[n] = cls
        return n

    def log(self, st, target, kind, key=None, value=None, node=None):
        self.seq += 1
        e = Entry(kind, key, value, st.guard, tuple(self.loops), self.seq, self.loc(node))
        st.logs = {**st.logs, target: st.logs.get(target, ()) + (e,)}

    # ------------------------------------------------------------------ types
    def typeof(self, n):
        t = self.types.get(n)
        if t is not None:
            return t
        o = n.op
        if o == "self":
            t = self.types.get(n)
        elif o == "attr":
            b = self.typeof(n.args[0])
            if isinstance(b, Cls):
                t = self.prog.attr_types(b).get(n.args[1])
        elif o == "elem":
            b = self.typeof(n.args[0])
            if isinstance(b, tuple):
                t = b[1]
        elif o == "get":
            b = self.typeof(n.args[0])
            if isinstance(b, tuple):
                t = b[-1]
        elif o == "values":
            b = self.typeof(n.args[0])
            if isinstance(b, tuple) and b[0] == "dict":
                t = ("list", b[2])
        elif o == "ite":
            ts = [self.typeof(x) for x in n.args[1:] if x is not NONE]
            if ts and all(x == ts[0] for x in ts):
                t = ts[0]
        elif o == "obj":
            ob = self.objs.get(n)
            t = ob.cls if ob else None
        elif o in ("deepcopy", "copyof"):
            t = self.typeof(n.args[0])
        elif o == "const" and not is_bool(n) and cval(n) is not None:
            t = type(cval(n)).__name__
        elif o in ("fstr",):
            t = "str"
        if t is not None:
            self.types[n] = t
        return t

    def cls_of(self, n):
        t = self.typeof(n)
        return t if isinstance(t, Cls) else None

    # ------------------------------------------------------------------ freezing
    def freeze(self, n, st_or_logs, depth=0, facts=None):
        logs = st_or_logs.logs if isinstance(st_or_logs, State) else st_or_logs
        if not any(x.op == "obj" for x in sub(n)):
            return n
        if depth > 8:
            return mk("deepobj")
        if n.op == "obj":
            return self._freeze_obj(n, logs, depth)
        m = {x: self._freeze_obj(x, logs, depth + 1) for x in sub(n) if x.op == "obj"}
        return subst(n, m)

    def _freeze_obj(self, n, logs, depth=0):
        ob = self.objs.get(n)
        if ob is None:
            return n
        if depth > 8:
            return mk("deepobj")
        kind = ob.kind
        facts = facts_of(ob.guard, True) if ob.guard is not TRUE else {}
        if kind == "inst":
            fields = {}
            for e in logs.get(n, ()):
                if e.kind == "setattr":
                    v = self.freeze(e.value, logs, depth + 1)
                    g = simp(self.freeze(e.guard, logs, depth + 1), facts)
                    if any(l not in ob.loops for l in e.loops):
                        v = mk("lastattr", v)
                    fields[e.key] = v if g is TRUE else mk_ite(g, v, fields.get(e.key, mk("unset")))
            return mk("inst", ob.cls.name if ob.cls else "?", *[mk("field", k, v) for k, v in sorted(fields.items())])
        segs = []
        for e in logs.get(n, ()):
            if e.kind == "loopacc":
                if e.value in self.loops:
                    segs.append(mk("seg", "acc", "", e.value.node, TRUE, mk("loops")))
                continue
            loops = tuple(l for l in e.loops if l not in ob.loops)
            if kind == "list" and any(l.order == "set" for l in loops):
                pass
            k = e.key
            if isinstance(k, N):
                k = self.freeze(k, logs, depth + 1)
            v = self.freeze(e.value, logs, depth + 1) if isinstance(e.value, N) else NONE
            g = simp(self.freeze(e.guard, logs, depth + 1), facts)
            if g is not TRUE and v.op in ("list", "dict", "set"):
                v = simp(v, facts_of(g))
            ek = e.kind
            if ek == "item" and len(loops) == 1 and g is TRUE and not loops[0].breaks and loops[0].kind != "while":
                if kind in ("list", "set", "deque") and v is loops[0].elem and loops[0].order in ("given",):
                    ek, v, loops = "spread", loops[0].iter, ()
                elif kind == "dict" and k is loops[0].elem and v is mk_get(loops[0].iter, loops[0].elem):
                    ek, k, v, loops = "spread", "", loops[0].iter, ()
            lp = mk("loops", *[self._loopnode(l) for l in loops])
            named = _named_keys(g, k) if kind == "dict" and ek == "item" and len(loops) == 1 and k is loops[0].elem and loops[0].kind != "while" and not loops[0].breaks else None
            if named:                   # only certain keys: one entry each
                for c, rest in named:
                    m = {k: c}
                    g1 = mk_and(mk_in(c, loops[0].iter), subst(rest, m))
                    segs.append(mk("seg", "item", c, simp(subst(v, m), facts_of(g1)), g1, mk("loops")))
                continue
            if kind == "dict" and ek == "item" and isinstance(k, N) and is_const(k) and not loops and segs:
                for i in range(len(segs) - 1, -1, -1):
                    z = segs[i].args
                    if z[0] != "item" or not isinstance(z[1], N) or not is_const(z[1]) or z[4].args:
                        break
                    if z[1] is k:
                        segs.append(segs.pop(i))
                        break
            if kind == "dict" and ek == "item" and segs and segs[-1].args[0] == "item" and segs[-1].args[1] is k and segs[-1].args[4] is lp:
                v0, g0 = segs[-1].args[2:4]
                if g is TRUE or g is g0:        # written over at once
                    segs.pop()
                elif mk_and(g0, g) is FALSE:    # one of two values
                    segs.pop()
                    g1 = mk_or(g0, g)
                    v, g = simp(mk_ite(g0, v0, v), facts_of(g1)), g1
            segs.append(mk("seg", ek, k if k is not None else "", v, g, lp))
        if ob.meta and ob.meta[0] == "copy" and len(segs) == 1 and segs[0].args[0] == "spread" and segs[0].args[3] is TRUE:
            return mk("copyof", segs[0].args[2])
        out = mk({"deque": "list"}.get(kind, kind), *segs)
        if ob.meta and ob.meta[0] == "default":
            out = mk("defaultdict", out, ob.meta[1])
        return out

    def _loopnode(self, l):
        if l.breaks:
            return mk("loop", *l.node.args, "brk", mk_or(*l.breaks))
        if l.order != "given" and l.kind != "while":
            return mk("loop", *l.node.args, l.order)
        return l.node

    # ------------------------------------------------------------------ entry points
    def entry(self, func, cls=None, args=None, selfnode=None, st=None, consts=None):
        """analyse func with symbolic parameters; returns (value, state, frame)"""
        st = st or State()
        cls = cls or func.cls
        a = func.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        canon = dict(zip(names, func.ref_names)) if func.ref_names else {}
        frame = Frame(func, func.module, func.cls, None, None)
        if func.cls is not None and not func.is_static and names:
            first = names.pop(0)
            if func.is_classmethod:
                n = mk("class", cls.name)
                self.refs[n] = cls
            else:
                n = selfnode if selfnode is not None else mk("self", cls.name)
                self.types[n] = cls
            env[first] = n
            frame.selfnode = n
        anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if args and nm in args:
                env[nm] = args[nm]
                continue
            p = mk("param", canon.get(nm, nm))
            t = self.prog.ann_type(func.module, anns.get(nm))
            if t is not None:
                self.types[p] = t
            env[nm] = p
        if a.vararg:
            env[a.vararg.arg] = mk("param", "*args")
        if a.kwarg:
            env[a.kwarg.arg] = mk("param", "**kwargs")
        v = self.run_frame(frame, env, st)
        return v, st, frame

    def new_instance(self, cls, args=None, st=None, kwargs=None):
        """allocate an instance of cls with symbolic constructor arguments (or the given ones)"""
        st = st or State()
        o = self.alloc(st, "inst", cls)
        init = cls.find("__init__")
        if init is not None:
            self.entry(init, cls, args=args, selfnode=o, st=st)
        st.dead = None
        return o, st

    def run_frame(self, frame, env, st):
        func = frame.func
        self.calls += 1
        self.analysed.add((frame.module.path, func.qual))
        prev = self.frame
        self.frame = frame
        self.stack.append(func)
        frame.base = len(st.conds)
        frame.loopbase = len(self.loops)
        st.envs = dict(st.envs)
        st.envs[frame.fid] = env
        base_conds = st.conds
        if isinstance(func.node, ast.Lambda):
            v = self.eval(func.node.body, st)
            frame.rets.append((mk_and(*st.conds[frame.base:]), v, st.copy()))
            st.dead = "ret"
        else:
            self.exec_block(func.node.body, st)
            if not st.dead:
                frame.rets.append((mk_and(*st.conds[frame.base:]), NONE, st.copy()))
        # merge returns
        if func.is_generator:
            res = self.alloc(st, "list") if not frame.rets else None
            snaps = [(c, s) for c, _, s in frame.rets]
            if snaps:
                self.merge_into(st, snaps, base_conds)
                res = self.alloc(st, "list")
            st.dead = None if frame.rets else "raise"
            for (v, g, loops) in frame.yields:
                self.seq += 1
                e = Entry("item", None, v, g, loops, self.seq, self.loc(func.node))
                st.logs = {**st.logs, res: st.logs.get(res, ()) + (e,)}
            val = res
        elif not frame.rets:
            st.dead = "raise"
            val = NONE
        else:
            vals = [(c, v) for c, v, _ in frame.rets]
            val = vals[-1][1]
            for c, v in reversed(vals[:-1]):
                val = mk_ite(c, v, val)
            self.merge_into(st, [(c, s) for c, _, s in frame.rets], base_conds)
            st.dead = None
        st.conds = base_conds
        st.envs = {k: v for k, v in st.envs.items() if k != frame.fid or self._captured(frame)}
        self.stack.pop()
        self.frame = prev
        if val.op == "ite":
            val = simp(val, st.facts())
        return val

    def _captured(self, frame):
        return any(c[1] is frame for c in self.closures.values())

    def merge_into(self, st, snaps, base_conds):
        """snaps: list of (cond relative, State)"""
        last = snaps[-1][1]
        if len(snaps) == 1:
            st.envs, st.logs, st.assumed = last.envs, last.logs, last.assumed
            return
        envs = {}
        fids = set()
        for _, s in snaps:
            fids |= set(s.envs)
        for fid in fids:
            names = set()
            for _, s in snaps:
                names |= set(s.envs.get(fid, ()))
            env = {}
            for nm in names:
                vals = [(c, s.envs.get(fid, {}).get(nm)) for c, s in snaps]
                have = [(c, v) for c, v in vals if v is not None]
                v = have[-1][1]
                for c, w in reversed(have[:-1]):
                    v = mk_ite(c, w, v)
                env[nm] = v
            envs[fid] = env
        st.envs = envs
        st.logs = self.merge_logs([s.logs for _, s in snaps])
        st.assumed = tuple(a for a in snaps[0][1].assumed if all(a in s.assumed for _, s in snaps))

    def merge_logs(self, logs):
        first = logs[0]
        if all(l is first for l in logs):
            return first
        out = {}
        keys = set()
        for l in logs:
            keys |= set(l)
        for k in keys:
            ls = [l.get(k, ()) for l in logs]
            if all(x is ls[0] for x in ls):
                out[k] = ls[0]
                continue
            n = 0
            m = min(len(x) for x in ls)
            while n < m and all(x[n] is ls[0][n] for x in ls):
                n += 1
            rest = {}
            for x in ls:
                for e in x[n:]:
                    rest[id(e)] = e
            out[k] = ls[0][:n] + tuple(sorted(rest.values(), key=lambda e: e.seq))
        return out

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, st):
        for s in body:
            if st.dead:
                return
            self.exec(s, st)

    def exec(self, s, st):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.note(f"statement {type(s).__name__}", s)
            return
        m(s, st)

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st)

    def x_Pass(self, s, st):
        pass

    def x_Import(self, s, st):
        for a in s.names:
            n = mk("ext", a.name if a.asname else a.name.split(".")[0])
            self.setvar(st, a.asname or a.name.split(".")[0], n)

    def x_ImportFrom(self, s, st):
        from .program import Module
        tmp = Module(self.frame.module.name, self.frame.module.path, None, self.frame.module.is_pkg)
        self.prog._index(tmp, [s])
        for k in tmp.names:
            r = self.prog.resolve(tmp, k)
            self.setvar(st, k, self.ref(r, k, st) if r else mk("ext", k))

    def x_Global(self, s, st):
        self.frame.globals |= set(s.names)

    def x_Nonlocal(self, s, st):
        self.frame.nonlocals |= set(s.names)

    def x_Assign(self, s, st):
        v = self.eval_raw(s.value, st)
        if any(isinstance(t, (ast.Tuple, ast.List)) for t in s.targets):
            v = unarray(v)
        for t in s.targets:
            self.assign(t, v, st, s)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.eval(s.value, st)
            t = self.prog.ann_type(self.frame.module, s.annotation)
            if isinstance(t, Cls) or isinstance(t, tuple):
                if v.op not in ("const",) and self.typeof(v) is None:
                    self.types[v] = t
            self.assign(s.target, v, st, s)

    def x_AugAssign(self, s, st):
        cur = self.eval_raw(_load(s.target), st)
        v = self.eval_raw(s.value, st)
        if isinstance(s.op, ast.Add) and cur.op == "obj" and self.objs[cur].kind in ("list", "deque"):
            self.mutate(st, cur, "extend", [v], {}, s)
            return
        if isinstance(s.op, ast.BitOr) and cur.op == "obj" and self.objs[cur].kind in ("dict", "set"):
            self.mutate(st, cur, "update", [v], {}, s)
            return
        r = self.binop(s.op, cur, v, st, s)
        self.assign(s.target, r, st, s)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.eval(t.slice, st)
                self.emit(st, "delitem", "del", b, [k], node=s)
                self.log(st, b, "del", k, node=s)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                self.emit(st, "setattr", t.attr, b, [mk("deleted")], node=s)

    def x_Return(self, s, st):
        v = self.eval_raw(s.value, st) if s.value is not None else NONE
        self.do_return(v, st, s)

    def do_return(self, v, st, node):
        fr = self.frame
        inner = self.loops[fr.loopbase:]
        conds = st.conds[fr.base:]
        if inner:
            # condition: some iteration reaches this return
            pos = len(st.conds)
            c = TRUE
            for lp in reversed(inner):
                c = mk_and(c, *st.conds[lp.base:pos])
                lp.rets.append(c)
                if lp.kind != "while" and contains(v, lp.elem):
                    v = mk("first", lp.node if lp.order == "given" else mk("loop", *lp.node.args, lp.order), c, v)
                if lp.kind == "while":
                    c = mk("any", lp.node, c)
                else:
                    c = mk_any(lp.node, c)
                pos = lp.base
            c = mk_and(c, *st.conds[fr.base:pos])
        else:
            c = mk_and(*conds)
        self.emit(st, "return", fr.func.qual, None, [v], node=node)
        fr.rets.append((c, v, st.copy()))
        st.dead = "ret"

    def x_Raise(self, s, st):
        v = self.eval(s.exc, st) if s.exc is not None else NONE
        self.emit(st, "raise", "raise", None, [v], node=s)
        st.dead = "raise"

    def x_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.emit(st, "assert", "assert", None, [c], node=s)
        if c is FALSE:
            st.dead = "raise"
        elif c is not TRUE:
            st.assumed = st.assumed + (c,)

    def x_Break(self, s, st):
        lf = self.frame.loopframes[-1]
        lf["brk"].append((mk_and(*st.conds[lf["base"]:]), st.copy()))
        st.dead = "brk"

    def x_Continue(self, s, st):
        lf = self.frame.loopframes[-1]
        lf["cont"].append((mk_and(*st.conds[lf["base"]:]), st.copy()))
        st.dead = "cont"

    def x_FunctionDef(self, s, st):
        self.setvar(st, s.name, self.closure(s))

    def x_ClassDef(self, s, st):
        self.note("local class", s)

    def closure(self, node):
        n = self.fresh("closure", getattr(node, "name", "<lambda>"))
        self.closures[n] = (node, self.frame)
        return n

    def cond(self, e, st):
        c = mk_truthy(self.val_truthy(self.eval(e, st), st))
        c = simp(self.freeze(c, st), st.facts())
        if self.loops and c is not TRUE and c is not FALSE:      # the sequence being iterated is not empty
            c = simp(c, {mk("truthy", l.iter): True for l in self.loops if l.iter is not None})
        return c

    def val_truthy(self, v, st):
        if v.op == "obj":
            ob = self.objs[v]
            if ob.kind in ("list", "dict", "set", "deque"):
                return mk_truthy(self._freeze_obj(v, st.logs))
            if ob.kind == "inst" and ob.cls:
                return TRUE
            return TRUE
        if v.op not in ("const", "ite") and not is_bool(v):
            c = self.cls_of(v)
            if c is not None and not self._has_truth(c):      # plain objects are true
                return mk_not(mk_isnone(v))
        return v

    def _has_truth(self, c):
        k = ("truth", c.name)
        if k not in self._memo:
            fam = [x for xs in self.prog.classes.values() for x in xs if x in c.mro() or x.is_sub(c.name)]
            self._memo[k] = any(m in x.methods for x in fam for m in ("__bool__", "__len__"))
        return self._memo[k]

    def x_If(self, s, st):
        c = self.cond(s.test, st)
        if c is TRUE:
            return self.exec_block(s.body, st)
        if c is FALSE:
            return self.exec_block(s.orelse, st)
        if s.orelse and isinstance(s.orelse[-1], ast.Raise):      # the rejecting side first
            self.branch(mk_not(c), st, lambda a: self.exec_block(s.orelse, a), lambda b: self.exec_block(s.body, b))
            return
        self.branch(c, st, lambda a: self.exec_block(s.body, a), lambda b: self.exec_block(s.orelse, b))

    def branch(self, c, st, fa, fb):
        base = st.conds
        A, B = st.copy(), st.copy()
        nc = mk_not(c)
        A.conds = base + (c,)
        ra = fa(A)
        if A.dead == "raise":       # the rest only runs when this side was not taken: no condition needed on it
            B.assumed = B.assumed + (nc,)
            rb = fb(B)
            st.adopt(B)
            return ra, rb
        B.conds = base + (nc,)
        rb = fb(B)
        if A.dead and B.dead:
            st.adopt(B)
            st.dead = A.dead if A.dead == B.dead else "mixed"
            return ra, rb
        if A.dead or B.dead:
            D, L, lc = (A, B, nc) if A.dead else (B, A, c)
            extra = L.conds[len(base) + 1:]
            st.adopt(L)
            if D.dead == "raise":
                st.conds = base + extra
                st.assumed = st.assumed + (lc,)
            else:
                st.conds = base + (lc,) + extra
            return ra, rb
        ea, eb = mk_and(*A.conds[len(base) + 1:]), mk_and(*B.conds[len(base) + 1:])
        self.merge_into(st, [(c, A), (nc, B)], base)
        g = mk_or(mk_and(c, ea), mk_and(nc, eb))
        st.conds = base + (() if g is TRUE else (g,))
        st.dead = None
        return ra, rb

    def x_While(self, s, st):
        self.while_loop(s, st)

    def x_For(self, s, st):
        names = assigned_names(s.body) | assigned_names([s.target])
        body = lambda x: self.exec_block(s.body, x)
        seq = self.range_of_len(s.iter, st)
        if seq is not None:
            self.positions(seq, s, st, lambda i, x: self.assign(s.target, i, x, s), body, names, s.orelse)
            return
        it = self.eval(s.iter, st)
        self.for_loop(it, s, st, lambda el, x: self.assign(s.target, el, x, s), body, names, s.orelse)

    def range_of_len(self, e, st):
        """X when e is range(len(X)) over a sequence that needs a position of its own"""
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "range" and not e.keywords):
            return None
        a = e.args
        if len(a) == 2 and isinstance(a[0], ast.Constant) and a[0].value == 0:
            a = a[1:]
        if len(a) != 1 or not self.is_builtin("range", st):
            return None
        return self.len_arg(a[0], st)

    def len_arg(self, e, st):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and isinstance(
                e.args[0], (ast.Name, ast.Attribute)) and self.is_builtin("len", st):
            v = self.eval(e.args[0], st)
            v = simp(v, st.facts()) if v.op == "ite" else v
            return v if v.op in ("obj", "ite", "copyof", "listof", "sorted", "values", "items", "keys", "tupleof", "reversed", "mcall") else None
        return None

    def is_builtin(self, name, st):
        return self.lookup(name, st) is mk("ext", name)

    def positions(self, seq, node, st, setidx, body, names, orelse=()):
        """for i in range(len(seq)): seq[i] is the element of the current round"""
        simple = True
        todo = [seq]
        while todo:
            x = todo.pop()
            if x.op == "ite":
                todo += list(x.args[1:])
                continue
            srcs = self.iter_sources(x, st)
            simple = simple and srcs is not None and len(srcs) == 1 and (
                srcs[0][0] in ("vals", "loop") or (len(srcs[0][1]) == 1 and srcs[0][2] is TRUE))

        def bind(el, x):
            if simple:
                i, v = self.getitem(el, ZERO, x), self.getitem(el, ONE, x)
            else:
                self.uid += 1
                i, v = mk("pos", self.uid), el
            self.posalias[(seq, i)] = (v, len(x.logs.get(seq, ())))
            if seq.op == "ite":
                for y in (simp(seq, x.facts()),):
                    self.posalias[(y, i)] = (v, len(x.logs.get(y, ())))
            setidx(i, x)
        self.for_loop(mk("enumerate", seq, ZERO) if simple else seq, node, st, bind, body, names, orelse)

    def x_With(self, s, st):
        n = 0
        for it in s.items:
            v = self.eval(it.context_expr, st)
            self.emit(st, "with", "enter", v, node=s)
            r = mk("entered", v) if v.op not in ("obj",) else v
            t = self.typeof(v)
            if t is not None and r is not v:
                self.types[r] = t
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, st, s)
            self.withs.append(v)
            n += 1
        self.exec_block(s.body, st)
        dead, st.dead = st.dead, None
        for _ in range(n):
            v = self.withs.pop()
            self.emit(st, "with", "exit", v, node=s)
        st.dead = dead

    def x_Try(self, s, st):
        base = st.copy()
        self.flags.append("try")
        fin = bool(s.finalbody)
        if fin:
            self.flags.append("tryfin")
        if s.handlers:
            self.flags.append("tryexc")
        self.exec_block(s.body, st)
        if s.handlers:
            self.flags.pop()
        live = None if st.dead else st.copy()
        if not st.dead:
            self.exec_block(s.orelse, st)
        bodydead = st.dead
        outs = []
        if not st.dead:
            outs.append((TRUE, st.copy()))
        for h in s.handlers:
            self.uid += 1
            hn = ast.unparse(h.type) if h.type is not None else "BaseException"
            exc = mk("exc", hn, self.loc(s)[0], self.loc(s)[1])
            hs = base.copy()
            hs.logs = self.merge_logs([base.logs, st.logs])
            hs.conds = base.conds + (exc,)
            self.flags.append("handler")
            if h.name:
                hs.envs[self.frame.fid][h.name] = mk("excval", exc)
            self.exec_block(h.body, hs)
            self.flags.pop()
            if not hs.dead:
                outs.append((exc, hs))
        if len(outs) == 0:
            st.dead = bodydead or "raise"
        elif len(outs) == 1:
            c, o = outs[0]
            if o is not st:
                dead = o.dead
                st.adopt(o)
                st.dead = None
        else:
            outs = outs[1:] + outs[:1] if outs[0][0] is TRUE else outs
            self.merge_into(st, outs, base.conds)
            st.conds = base.conds
            st.dead = None
        self.flags.pop() if fin else None
        self.flags.pop()
        if fin:
            dead, st.dead = st.dead, None
            self.flags.append("finally")
            self.exec_block(s.finalbody, st)
            self.flags.pop()
            st.dead = dead or st.dead

    x_TryStar = x_Try

    def x_Match(self, s, st):
        subj = self.eval(s.subject, st)

        def run(i, x):
            if i == len(s.cases):
                return
            cs = s.cases[i]
            c = self.pattern(cs.pattern, subj, x)
            if cs.guard is not None and c is not FALSE:
                c = mk_and(c, self.cond(cs.guard, x))
            c = simp(c, x.facts())
            if c is TRUE:
                return self.exec_block(cs.body, x)
            if c is FALSE:
                return run(i + 1, x)
            self.branch(c, x, lambda a: self.exec_block(cs.body, a), lambda b: run(i + 1, b))
        run(0, st)

    def pattern(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            return mk_eq(v, self.eval(p.value, st))
        if isinstance(p, ast.MatchSingleton):
            return mk_eq(v, const(p.value))
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, v, st)
            if p.name:
                self.setvar(st, p.name, v)
            return c
        if isinstance(p, ast.MatchOr):
            return mk_or(*[self.pattern(x, v, st) for x in p.patterns])
        if isinstance(p, ast.MatchSequence) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            cs = [mk_eq(mk("len", v), const(len(p.patterns)))]
            cs += [self.pattern(x, mk_get(v, const(i)), st) for i, x in enumerate(p.patterns)]
            return mk_and(*cs)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinst(v, self.eval(p.cls, st), st)
        self.note("match pattern", p)
        return self.fresh("opaque", "match")

    # ------------------------------------------------------------------ assignment
    def setvar(self, st, name, v):
        fr = self.frame
        if name in fr.globals:
            self.log(st, mk("module", fr.module.name), "setattr", name, v)
            self.emit(st, "setattr", name, mk("module", fr.module.name), [v])
            return
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in st.envs.get(p.fid, {}):
                    st.envs[p.fid] = {**st.envs[p.fid], name: v}
                    return
                p = p.parent
        st.envs[fr.fid] = {**st.envs.get(fr.fid, {}), name: v}

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.setvar(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk("slice", v, const(i), NONE, NONE), st, node)
                elif star and i > star[0]:
                    self.assign(e, self.getitem(v, const(i - len(t.elts)), st), st, node)
                else:
                    self.assign(e, self.getitem(v, const(i), st), st, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            self.setattr(b, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            k = self.eval(t.slice, st)
            self.setitem(b, k, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def split(self, recv, st, fn):
        """apply fn(recv_leaf, state) over the ite leaves of recv, under guards; returns merged value"""
        recv = simp(recv, st.facts()) if recv.op == "ite" else recv
        if recv.op == "ite":
            c = self.freeze(recv.args[0], st)
            c = simp(c, st.facts())
            out = {}
            a, b = self.branch(c, st, lambda x: self.split(recv.args[1], x, fn), lambda x: self.split(recv.args[2], x, fn))
            if a is None or b is None:
                return a if b is None else b
            return mk_ite(c, a, b)
        return fn(recv, st)

    def setattr(self, b, name, v, st, node):
        def go(b, st):
            self.emit(st, "setattr", name, b, [v], node=node)
            self.log(st, b, "setattr", name, v, node)
            return None
        self.split(b, st, go)

    def setitem(self, b, k, v, st, node):
        def go(b, st):
            self.emit(st, "setitem", "setitem", b, [k, v], node=node)
            self.log(st, b, "item", k, v, node)
            return None
        self.split(b, st, go)

    # ------------------------------------------------------------------ reading
    def read_attr(self, b, name, st):
        """value of attribute from the log, or None if never written"""
        log = st.logs.get(b, ())
        out, pend = None, []
        f = st.facts()
        for e in reversed(log):
            if e.kind == "loopacc":
                if e.value in self.loops and name in getattr(e, "key", ()) or ():
                    return _pend(pend, mk("accattr", b, name, e.value.node))
                continue
            if e.kind != "setattr" or e.key != name:
                continue
            inner = [l for l in e.loops if l not in self.loops]
            if inner:
                return _pend(pend, mk("lastattr", b, name, e.value))
            g = simp(e.guard, f)
            if g is TRUE:
                return _pend(pend, e.value)
            if g is FALSE:
                continue
            pend.append((g, e.value))
        if pend:
            return _pend(pend, mk("attr", b, name))
        return None

    def getattr(self, b, name, st, node=None):
        if b.op == "ite":
            b = simp(b, st.facts())
        if b.op == "ite":
            return self.split(b, st, lambda x, s: self.getattr(x, name, s, node))
        if b.op == "ext":
            return mk("ext", b.args[0] + "." + name)
        if b.op == "module":
            m = self.prog.modules.get(b.args[0])
            r = self.prog.resolve(m, name) if m else None
            return self.ref(r, name, st) if r else mk("attr", b, name)
        if b.op == "class":
            c = self.refs.get(b)
            if c is not None:
                f = c.find(name)
                if f is not None:
                    n = mk("bound", b, name, "cls")
                    self.refs[n] = (f, b if f.is_classmethod else None, c)
                    return n
                a = c.find_attr(name)
                if a is not None:
                    return self.eval_in_module(a[0].module, a[1], st)
            return mk("attr", b, name)
        if b.op == "super":
            selfn, after, c = self.refs[b]
            f = c.find(name, after=after)
            n = mk("bound", b, name)
            if f is not None:
                self.refs[n] = (f, selfn, c)
                if f.is_property:
                    return self.call_func(f, [selfn], {}, st, node, selfn, c)
            else:
                self.refs[n] = (None, selfn, c)
            return n
        if name == "__class__":
            c = self.cls_of(b)
            if c is not None:
                n = mk("class", c.name)
                self.refs[n] = c
                return n
            return mk("attr", b, name)
        v = self.read_attr(b, name, st)
        if v is not None:
            return v
        c = self.cls_of(b)
        if c is not None:
            f = c.find(name)
            if f is not None:
                if f.is_property:
                    if self.is_prim(c, name):
                        return self.prim_call(f, b, [], {}, st, node, c)
                    return self.call_func(f, [b], {}, st, node, b, c)
                n = mk("bound", b, name)
                self.refs[n] = (f, None if f.is_static else b, c)
                return n
            if b.op == "obj":
                a = c.find_attr(name)
                if a is not None:
                    return self.eval_in_module(a[0].module, a[1], st)
        if name in ("T",):
            return mk("transpose", b)
        return mk("attr", b, name)

    def eval_in_module(self, m, expr, st):
        fr = Frame(Func(ast.parse("def _():\n pass").body[0], m), m, None, None, None)
        fr.base, fr.loopbase = len(st.conds), len(self.loops)
        prev, self.frame = self.frame, fr
        st.envs = {**st.envs, fr.fid: {}}
        try:
            return self.eval(expr, st)
        finally:
            self.frame = prev

    def getitem(self, b, k, st, default=None, node=None):
        """b[k]; default given -> b.get(k, default)"""
        if node is not None and default is None and b.op == "obj" and self.objs[b].meta and self.objs[b].meta[0] == "made":
            # a missing entry is made, and stays
            return self.mutate(st, b, "setdefault", [k, self.call(self.objs[b].meta[1], [], {}, st, node)], {}, node)
        pa = self.posalias.get((b, k))
        if pa is not None and pa[1] == len(st.logs.get(b, ())):
            return pa[0]
        if b.op == "ite":
            b = simp(b, st.facts())
            pa = self.posalias.get((b, k))
            if pa is not None and pa[1] == len(st.logs.get(b, ())):
                return pa[0]
            if b.op == "ite":
                c = b.args[0]
                return mk_ite(c, self.getitem(b.args[1], k, st, default), self.getitem(b.args[2], k, st, default))
        if b.op == "obj" and self.objs[b].kind in ("list", "deque", "set") and is_const(k) and isinstance(cval(k), int):
            log = st.logs.get(b, ())
            if all(e.kind == "item" and tuple(e.loops) == self.objs[b].loops for e in log):
                f = st.facts()
                items = [e for e in log]
                if all(simp(e.guard, f) is TRUE or simp(e.guard, facts_of(self.objs[b].guard)) is TRUE for e in items):
                    i = cval(k)
                    if -len(items) <= i < len(items):
                        return items[i].value
            if self.objs[b].kind != "set" and cval(k) < 0:
                f = st.facts()
                for n, e in enumerate(reversed(log), 1):
                    if e.kind != "item" or [l for l in e.loops if l not in self.loops] or simp(e.guard, f) is not TRUE:
                        break
                    if n == -cval(k):
                        return e.value
            return mk_get(self._freeze_obj(b, st.logs), k)
        log = st.logs.get(b)
        if not log:
            if b.op == "obj":
                if default is not None:
                    return default
                if self.objs[b].meta and self.objs[b].meta[0] == "default":
                    return self.objs[b].meta[1]
                return mk_get(self._freeze_obj(b, st.logs), k)
            base = mk_get(b, k)
            if default is not None and default is not NONE:
                return mk_ite(mk_in(k, b), base, default)
            return base
        pend = []
        f = st.facts()
        isobj = b.op == "obj"
        for e in reversed(log):
            if e.kind == "setattr":
                continue
            if e.kind == "loopacc":
                if e.value in self.loops:
                    snap = mk("accum", b if not isobj else self._upto(b, e, st), e.value.node)
                    v = mk_get(snap, k)
                    if default is not None and default is not NONE:
                        v = mk_ite(mk_in(k, snap), v, default)
                    elif isobj and self.objs[b].meta and self.objs[b].meta[0] == "default":
                        v = mk_ite(mk_in(k, snap), v, self.objs[b].meta[1])
                    return _pend(pend, v)
                continue
            inner = [l for l in e.loops if l not in self.loops]
            if e.kind == "item":
                eq = mk_eq(e.key, k) if isinstance(e.key, N) else None
                if eq is FALSE:
                    continue
                if eq is TRUE and not inner:
                    g = simp(e.guard, f)
                    if g is TRUE:
                        return _pend(pend, e.value)
                    if g is FALSE:
                        continue
                    pend.append((g, e.value))
                    continue
            if e.kind == "spread" and not inner and simp(e.guard, f) is TRUE:
                w = e.value
                # last spread layer: present -> its value, else older layers
                older = self._older(b, log, e, k, st, default)
                if is_const(k) and w.op == "obj":
                    return _pend(pend, self.getitem(w, k, st, older) if older is not None else self.getitem(w, k, st))
                if older is None:
                    return _pend(pend, mk_ite(mk_in(k, w), mk_get(w, k), default) if default not in (None, NONE) else mk_get(w, k))
                return _pend(pend, mk_ite(mk_in(k, w), mk_get(w, k), older))
            snap = self._freeze_obj(b, st.logs) if isobj else mk("mutated", b, self._snap(b, st))
            v = mk_get(snap, k)
            if default is not None and default is not NONE:
                v = mk_ite(mk_in(k, snap), v, default)
            return _pend(pend, v)
        if isobj:
            if default is not None:
                base = default
            elif self.objs[b].meta and self.objs[b].meta[0] == "default":
                base = self.objs[b].meta[1]
            else:
                base = mk_get(mk(self.objs[b].kind), k) if pend else mk_get(self._freeze_obj(b, st.logs), k)
        else:
            base = mk_get(b, k)
            if default is not None and default is not NONE:
                base = mk_ite(mk_in(k, b), base, default)
        return _pend(pend, base)

    def _upto(self, b, e, st):
        """what the container b held when the iteration began (e: the mark left there)"""
        log = st.logs[b]
        i = [x is e for x in log].index(True)
        return self._freeze_obj(b, {**st.logs, b: log[:i + 1]})

    def _older(self, b, log, e, k, st, default):
        i = [x is e for x in log].index(True)
        if i == 0:
            if b.op == "obj":
                return None
            return mk_get(b, k)
        sub_st = st.copy()
        sub_st.logs = {**st.logs, b: log[:i]}
        return self.getitem(b, k, sub_st, default)

    def _snap(self, b, st):
        out = []
        for e in st.logs.get(b, ()):
            if e.kind in ("loopacc", "setattr"):
                continue
            out.append(mk("seg", e.kind, self.freeze(e.key, st) if isinstance(e.key, N) else "", self.freeze(e.value, st) if isinstance(e.value, N) else NONE,
                          e.guard, mk("loops", *[l.node for l in e.loops if l not in self.loops])))
        return mk("log", *out)

    def contains_(self, k, c, st):
        if c.op == "ite":
            c = simp(c, st.facts())
        if c.op == "ite":
            return mk_ite(c.args[0], self.contains_(k, c.args[1], st), self.contains_(k, c.args[2], st))
        if c.op == "obj":
            ob = self.objs[c]
            if ob.kind == "dict":
                conds = []
                f = {**facts_of(ob.guard, True), **st.facts()}
                for e in st.logs.get(c, ()):
                    if e.kind == "loopacc":
                        if e.value in self.loops:
                            conds = [mk_in(self.freeze(k, st), mk("accum", self._upto(c, e, st), e.value.node))]
                        continue
                    inner = [l for l in e.loops if l not in self.loops]
                    eg = simp(e.guard, f)
                    if e.kind == "item" and not inner:
                        conds.append(mk_and(eg, mk_eq(e.key, k)))
                    elif e.kind == "item" and len(inner) == 1 and inner[0].kind != "while":
                        conds.append(mk_any(inner[0].node, mk_and(eg, mk_eq(e.key, k))))
                    elif e.kind == "spread" and not inner:
                        conds.append(mk_and(eg, self.contains_(k, e.value, st)))
                    else:
                        return mk_in(self.freeze(k, st), self._freeze_obj(c, st.logs))
                return simp(mk_or(*conds), st.facts())
            fz = self._freeze_obj(c, st.logs)
            return self._in_frozen(self.freeze(k, st), fz)
        if c.op == "keys":
            return self.contains_(k, c.args[0], st)
        if st.logs.get(c):
            conds = [mk_in(k, c)]
            for e in st.logs[c]:
                if e.kind == "setattr":
                    continue
                if e.kind == "loopacc":
                    if e.value in self.loops:
                        return mk_in(k, mk("accum", c, e.value.node))
                    continue
                inner = [l for l in e.loops if l not in self.loops]
                if e.kind == "item" and not inner:
                    conds.append(mk_and(e.guard, mk_eq(e.key, k)))
                elif e.kind == "spread" and not inner:
                    conds.append(mk_and(e.guard, self.contains_(k, e.value, st)))
                else:
                    return mk_in(k, mk("mutated", c, self._snap(c, st)))
            return mk_or(*conds)
        return mk_in(k, c)

    def _in_frozen(self, k, fz):
        if fz.op in ("list", "set"):
            conds = []
            for s in fz.args:
                kind, _, v, g, loops = s.args
                if kind == "item":
                    c = mk_and(g, mk_eq(k, v))
                elif kind == "spread":
                    c = mk_and(g, mk_in(k, v))
                else:
                    return mk("in", k, fz)
                for lp in reversed(loops.args):
                    if len(lp.args) > 2:
                        return mk("in", k, fz)
                    c = mk_any(lp, c)
                conds.append(c)
            return mk_or(*conds)
        return mk_in(k, fz)

    # ------------------------------------------------------------------ loops
    def depth_of(self, it):
        return sum(1 for l in self.loops if l.iter is it)

    def iter_sources(self, it, st, order="given"):
        """-> list of ('vals',[nodes]) | ('loop', Loop, element) | ('fuse', [Loop], guard, element)"""
        it = simp(it, st.facts()) if it.op == "ite" else it
        if it.op == "tuple":
            return [("vals", list(it.args))]
        if it.op == "const" and isinstance(cval(it), str):
            return [("vals", [const(ch) for ch in cval(it)])] if len(cval(it)) <= 16 else [self._mk_loop(it, order, it)]
        if it.op == "obj" and self.objs[it].kind in ("list", "deque", "set"):
            log = [e for e in st.logs.get(it, ()) if not (e.kind == "loopacc" and e.value not in self.loops)]
            ob = self.objs[it]
            if ob.kind == "set":
                order = "set"
            if all(e.kind == "item" and tuple(e.loops) == ob.loops for e in log) and len(log) <= 24 and (
                    all(simp(e.guard, facts_of(ob.guard)) is TRUE or simp(e.guard, st.facts()) is TRUE for e in log)):
                vs = [e.value for e in log]
                return [("vals", list(dict.fromkeys(vs)) if ob.kind == "set" and all(is_const(v) for v in vs) else vs)]
            if all(e.kind in ("item", "spread") for e in log) and len(log) <= 6:
                out = []
                for e in log:
                    loops = [l for l in e.loops if l not in ob.loops]
                    g = simp(e.guard, facts_of(ob.guard))
                    if e.kind == "item":
                        out.append(("fuse", loops, g, e.value, order))
                    else:
                        for s in self.iter_sources(e.value, st, order):
                            if not loops and g is TRUE:
                                out.append(s)
                            elif s[0] == "loop":
                                out.append(("fuse", loops + [s[1]], g, s[2], order))
                            else:
                                return [self._mk_loop(self._freeze_obj(it, st.logs), order, it)]
                return out
            return [self._mk_loop(self._freeze_obj(it, st.logs), order, it)]
        if it.op == "obj" and self.objs[it].kind == "dict":
            ks = self._dict_keys(it, st)
            if ks is not None:
                return [("vals", ks)]
            fz = self._freeze_obj(it, st.logs)
            if len(fz.args) == 1 and fz.args[0].args[0] == "spread" and fz.args[0].args[3] is TRUE and not fz.args[0].args[4].args:
                return self.iter_sources(fz.args[0].args[2], st, order)
            return [self._mk_loop(fz, order, it)]
        if it.op in ("keys",):
            return self.iter_sources(it.args[0], st, order)
        if it.op in ("sorted", "reversed"):
            subs = self.iter_sources(it.args[0], st, it.op)
            if subs and len(subs) == 1 and subs[0][0] == "vals":
                vs = subs[0][1]
                if it.op == "reversed":
                    return [("vals", list(reversed(vs)))]
                if len(vs) > 1 and len(it.args) == 1 and all(is_const(v) for v in vs):
                    try:
                        return [("vals", sorted(vs, key=cval))]
                    except TypeError:
                        pass
                if len(vs) > 1:
                    return [self._mk_loop(self.freeze(it, st), order, it)]
            if subs and len(subs) > 1 or order in ("sorted", "reversed"):
                return [self._mk_loop(self.freeze(it, st), order, it)]
            if subs and it.op == "sorted" and len(it.args) > 1 and subs[0][0] in ("loop", "fuse"):
                kw = {k.args[0]: k.args[1] for k in it.args[1:]}
                v = subs[0][2] if subs[0][0] == "loop" else subs[0][3]
                key = v
                if kw.get("key") not in (None, NONE):
                    key = self.freeze(self.call(kw["key"], [v], {}, st, None), st)
                natural = key is v or v.op == "tuple" and it.args[0].op == "items" and key in (v.args[0], mk("tuple", v.args[0]))
                tag = "sorted" if natural else mk("bykey", key)
                if kw.get("reverse", FALSE) is not FALSE:
                    tag = mk("bykey", key, kw["reverse"])
                if tag != "sorted":
                    if subs[0][0] == "loop":
                        subs[0][1].order = tag
                    else:
                        subs = [(*subs[0][:4], tag)]
            return subs
        if it.op == "setof":
            return self.iter_sources(it.args[0], st, "set")
        if it.op in ("tupleof", "listof", "copyof"):
            return self.iter_sources(it.args[0], st, order)
        if it.op in ("items", "values"):
            d = it.args[0]
            if d.op == "obj" and self.objs[d].kind == "dict":
                ks = self._dict_keys(d, st)
                if ks is not None:
                    vs = [self.getitem(d, k, st) for k in ks]
                    return [("vals", [mk("tuple", k, v) for k, v in zip(ks, vs)] if it.op == "items" else vs)]
                fz = self._freeze_obj(d, st.logs)
                if len(fz.args) == 1 and fz.args[0].args[0] == "spread" and fz.args[0].args[3] is TRUE and not fz.args[0].args[4].args:
                    d = fz.args[0].args[2]
                else:
                    if all(s.args[0] == "item" for s in fz.args) and it.op in ("items", "values") and self._unique_keys(d, st):
                        out = []
                        for e in st.logs.get(d, ()):
                            if e.kind == "loopacc":
                                continue
                            loops = [l for l in e.loops if l not in self.objs[d].loops]
                            el = mk("tuple", e.key, e.value) if it.op == "items" else e.value
                            out.append(("fuse", loops, simp(e.guard, facts_of(self.objs[d].guard)), el, order))
                        return out
                    d = fz
            subs = self.iter_sources(d, st, order) if d.op not in ("dict", "accum", "mutated") else [self._mk_loop(d, order, d)]
            out = []
            for s in subs:
                if s[0] == "loop":
                    k = s[2]
                    v = mk_get(d if d.op != "copyof" else d.args[0], k)
                    out.append(("loop", s[1], mk("tuple", k, v) if it.op == "items" else v))
                else:
                    return [self._mk_loop(mk(it.op, d), order, it)]
            return out
        if it.op == "enumerate":
            out = []
            subs = self.iter_sources(it.args[0], st, order)
            if any(reordered(s, order) for s in subs):
                if len(subs) == 1 and subs[0][0] == "loop":
                    lp = subs[0][1]         # the position in the sorted (reversed) sequence is not that of the element
                    return [("loop", lp, mk("tuple", mk_add(mk("ordindex", *lp.node.args, lp.order), it.args[1]), subs[0][2]))]
                return [self._mk_loop(mk("enumerate", self.freeze(it.args[0], st), it.args[1]), order, it)]
            for s in subs:
                start = it.args[1]
                if s[0] == "vals":
                    out.append(("vals", [mk("tuple", mk_add(const(i), start), v) for i, v in enumerate(s[1])]))
                elif s[0] == "loop":
                    out.append(("loop", s[1], mk("tuple", mk_add(s[1].index, start), s[2])))
                else:
                    g = s[2]
                    if len(s[1]) == 1 and g is TRUE:
                        out.append(("fuse", s[1], g, mk("tuple", mk_add(s[1][0].index, start), s[3]), s[4]))
                    else:
                        return [self._mk_loop(mk("enumerate", self.freeze(it.args[0], st), start), order, it)]
            return out if len(out) == 1 else [self._mk_loop(mk("enumerate", self.freeze(it.args[0], st), it.args[1]), order, it)]
        if it.op == "zip":
            srcs = [self.iter_sources(x, st, order) for x in it.args]
            if all(s is not None and len(s) == 1 for s in srcs) and not any(reordered(s[0], order) for s in srcs):
                srcs = [s[0] for s in srcs]
                if all(s[0] == "vals" for s in srcs):
                    n = min(len(s[1]) for s in srcs)
                    return [("vals", [mk("tuple", *[s[1][i] for s in srcs]) for i in range(n)])]
                if all(s[0] == "loop" or (s[0] == "fuse" and len(s[1]) == 1 and s[2] is TRUE) for s in srcs):
                    lps = [s[1] if s[0] == "loop" else s[1][0] for s in srcs]
                    els = [s[2] if s[0] == "loop" else s[3] for s in srcs]
                    its = [l.iter for l in lps]
                    if len(set(its)) == 1:
                        return [("loop", lps[0], mk("tuple", *els))]
                    z = mk("zip", *sorted(set(its)))
                    lp = Loop(z, self.depth_of(z), "for", order, self.loc())
                    idx = {l.index: lp.index for l in lps}
                    return [("loop", lp, subst(mk("tuple", *els), idx))]
            return [self._mk_loop(self.freeze(it, st), order, it)]
        if it.op == "range":
            a, b, s = it.args
            if is_const(a) and is_const(b) and is_const(s) and cval(s) and len(range(cval(a), cval(b), cval(s))) <= 16:
                return [("vals", [const(i) for i in range(cval(a), cval(b), cval(s))])]
            if a is ZERO and s is ONE and b.op == "len":
                x = b.args[0]
                lp = Loop(x, self.depth_of(x), "for", order, self.loc())
                return [("loop", lp, lp.index)]
            return [self._mk_loop(it, order, it)]
        if it.op == "ite":
            return None
        if it.op == "map" or it.op == "filter":
            pass
        return [self._mk_loop(self.freeze(it, st), order, it)]

    def _unique_keys(self, d, st):
        log = [e for e in st.logs.get(d, ()) if e.kind != "loopacc"]
        if len(log) != 1:
            return False
        e = log[0]
        loops = [l for l in e.loops if l not in self.objs[d].loops]
        return e.kind == "item" and len(loops) == 1 and e.key is loops[0].elem

    def _mk_loop(self, it, order, src):
        lp = Loop(it, self.depth_of(it), "for", order, self.loc())
        t = self.typeof(src)
        if isinstance(t, tuple) and t[1] is not None:
            self.types.setdefault(lp.elem, t[1])
        return ("loop", lp, lp.elem)

    def _dict_keys(self, d, st):
        ob = self.objs[d]
        log = [e for e in st.logs.get(d, ()) if not (e.kind == "loopacc" and e.value not in self.loops)]
        if len(log) > 24:
            return None
        ks = []
        for e in log:
            if e.kind != "item" or tuple(e.loops) != ob.loops or not is_const(e.key):
                return None
            if simp(e.guard, facts_of(ob.guard)) is not TRUE and simp(e.guard, st.facts()) is not TRUE:
                return None
            if e.key not in ks:
                ks.append(e.key)
        return ks

    def for_loop(self, it, node, st, bind, body, names, orelse=()):
        it = self._lift(simp(it, st.facts()) if it.op == "ite" else it, st)
        if it.op == "ite":
            c = simp(self.freeze(it.args[0], st), st.facts())
            self.branch(c, st, lambda a: self.for_loop(it.args[1], node, a, bind, body, names, orelse),
                        lambda b: self.for_loop(it.args[2], node, b, bind, body, names, orelse))
            return
        srcs = self.iter_sources(it, st)
        allbrk = []
        outer_base = st.conds
        broke = FALSE
        for s in srcs:
            if st.dead:
                break
            if s[0] == "vals":
                lf = {"brk": [], "cont": [], "base": len(st.conds)}
                self.frame.loopframes.append(lf)
                base = st.conds
                brks = []
                for v in s[1]:
                    if st.dead:
                        break
                    lf["brk"], lf["cont"], lf["base"] = [], [], len(st.conds)
                    cb = st.conds
                    bind(v, st)
                    body(st)
                    snaps = list(lf["cont"])
                    if not st.dead:
                        snaps.append((mk_and(*st.conds[len(cb):]), st.copy()))
                    for c, sn in lf["brk"]:
                        brks.append((mk_and(*cb[len(base):], c), sn))
                    if not snaps:
                        if st.dead in ("brk", "cont", "mixed"):
                            st.dead = "brk" if lf["brk"] else st.dead
                        break
                    was_ret = st.dead in ("ret", "mixed", "raise") or any(True for _ in lf["brk"])
                    live = mk_or(*[c for c, _ in snaps])
                    self.merge_into(st, snaps, cb)
                    st.dead = None
                    st.conds = cb + (() if live is TRUE else (live,))
                self.frame.loopframes.pop()
                if brks:
                    snaps = [(c, sn) for c, sn in brks]
                    if not st.dead:
                        rest = mk_and(*st.conds[len(base):])
                        if orelse:
                            self.exec_block(orelse, st)
                            orelse = ()
                        if not st.dead:
                            snaps.append((rest, st.copy()))
                    if st.dead in ("ret", "raise", "mixed") and not snaps:
                        return
                    g = mk_or(*[c for c, _ in snaps])
                    self.merge_into(st, snaps, base)
                    st.dead = None
                    st.conds = base + (() if g is TRUE else (g,))
            elif s[0] == "loop":
                broke = mk_or(broke, self.sym_loop([s[1]], TRUE, s[2], node, st, bind, body, names))
            else:
                loops = [self._reloop(l, s[4]) for l in s[1]]
                mp = {a.elem: b.elem for a, b in zip(s[1], loops) if a.elem is not b.elem}
                mp.update({a.index: b.index for a, b in zip(s[1], loops) if a.index is not b.index})
                g, v = (subst(s[2], mp), subst(s[3], mp)) if mp else (s[2], s[3])
                if not loops:
                    def one(a):
                        bind(v, a)
                        lf = {"brk": [], "cont": [], "base": len(a.conds)}
                        self.frame.loopframes.append(lf)
                        cb = a.conds
                        body(a)
                        self.frame.loopframes.pop()
                        snaps = lf["cont"] + lf["brk"]
                        if snaps:
                            if not a.dead:
                                snaps.append((mk_and(*a.conds[len(cb):]), a.copy()))
                            self.merge_into(a, snaps, cb)
                            a.dead = None
                            a.conds = cb
                    gg = simp(g, st.facts())
                    if gg is TRUE:
                        one(st)
                    elif gg is not FALSE:
                        self.branch(gg, st, one, lambda b: None)
                else:
                    broke = mk_or(broke, self.sym_loop(loops, g, v, node, st, bind, body, names))
        if orelse and not st.dead:
            if broke is FALSE:
                self.exec_block(orelse, st)
            else:
                self.branch(mk_not(broke), st, lambda a: self.exec_block(orelse, a), lambda b: None)

    def _lift(self, it, st):
        """zip(ite(c,a,b), x) -> ite(c, zip(a,x), zip(b,x)), likewise for the other views of a sequence"""
        if it.op in ("zip", "enumerate", "items", "keys", "values", "sorted", "reversed", "copyof", "tupleof", "setof", "listof"):
            args = [self._lift(simp(x, st.facts()), st) if isinstance(x, N) and (x.op == "ite" or x.op in ("zip", "enumerate", "items", "keys", "values", "sorted", "reversed")) else x for x in it.args]
            for i, x in enumerate(args):
                if isinstance(x, N) and x.op == "ite":
                    a = self._lift(mk(it.op, *args[:i], x.args[1], *args[i + 1:]), st)
                    b = self._lift(mk(it.op, *args[:i], x.args[2], *args[i + 1:]), st)
                    return mk_ite(x.args[0], a, b)
        return it

    def _reloop(self, l, order):
        n = Loop(l.iter, self.depth_of(l.iter), l.kind, l.order if order == "given" else order, l.loc)
        n.breaks = list(l.breaks)
        n.fused = True
        for x in (l.elem,):
            t = self.types.get(x)
            if t is not None:
                self.types.setdefault(n.elem, t)
        return n

    def sym_loop(self, loops, guard, elem, node, st, bind, body, names, while_cond=None):
        """execute the body once, symbolically, with loop-carried variables as phi nodes. Returns the break condition."""
        fr = self.frame
        pre = st.copy()
        base = st.conds
        lp = loops[-1]
        yielded, returned = len(fr.yields), len(fr.rets)

        def run(x, phis, mutated):
            del fr.yields[yielded:], fr.rets[returned:]  # the body is executed until it is stable; only the last time counts
            for l in loops:
                l.base = len(x.conds)
                self.loops.append(l)
            for l in loops:
                l.rets, l.breaks0 = [], []
            for (fid, nm), ph in phis.items():
                x.envs[fid] = {**x.envs.get(fid, {}), nm: ph}
            for k in mutated:
                e = Entry("loopacc", tuple(mutated[k]), lp, TRUE, (), self.seq, None)
                x.logs = {**x.logs, k: x.logs.get(k, ()) + (e,)}
            if guard is not TRUE:
                x.conds = x.conds + (guard,)
            wc = TRUE
            if while_cond is not None:
                wc = while_cond(x)
                self.whileconds[lp.node.args[0]] = self.freeze(wc, x)
                if wc is not TRUE:
                    x.conds = x.conds + (wc,)
            lf = {"brk": [], "cont": [], "base": len(x.conds)}
            fr.loopframes.append(lf)
            bind(elem, x)
            body(x)
            fr.loopframes.pop()
            for l in loops:
                self.loops.pop()
            snaps = lf["cont"] + lf["brk"]
            live = None
            if not x.dead:
                snaps = snaps + [(mk_and(*x.conds[lf["base"]:]), x.copy())]
            return lf, snaps, wc

        # --- dry runs: find which variables and containers really change
        cand = {}
        for nm in names:
            if nm in pre.envs.get(fr.fid, {}):
                cand[(fr.fid, nm)] = None
        mutated, tried = {}, set()
        self.dry += 1
        uid = Loop._n
        for _ in range(5):
            x = pre.copy()
            for k in cand:
                if cand[k] is None and pre.envs[k[0]][k[1]].op == "obj" and k not in tried:
                    cand[k] = pre.envs[k[0]][k[1]]       # optimistic: the variable keeps naming the same container
                    tried.add(k)
                elif cand[k] is None:
                    cand[k] = mk("phi", lp.node, k[1], lp.uid)
                    t = self.typeof(pre.envs[k[0]][k[1]]) if pre.envs[k[0]][k[1]].op != "const" else None
                    if t is not None:
                        self.types[cand[k]] = t
            lf, snaps, wc = run(x, cand, mutated)
            if not snaps:
                new = {}
                newm = {}
                post = pre
            else:
                self.merge_into(x, snaps, base)
                post = x
            stable = True
            for k in list(cand):
                after = post.envs.get(k[0], {}).get(k[1])
                if cand[k].op == "obj" and after is not cand[k] and after is not None:
                    cand[k] = None
                    stable = False
                    continue
                if after is cand[k] or after is pre.envs[k[0]][k[1]] or after is None:
                    del cand[k]
                    stable = False
            for fid, env in post.envs.items():
                for nm, v in env.items():
                    p = pre.envs.get(fid, {}).get(nm)
                    if p is not None and v is not p and (fid, nm) not in cand and fid != fr.fid:
                        cand[(fid, nm)] = None
                        stable = False
            for k, l in post.logs.items():
                if k in pre.logs or k.op != "obj":
                    ext = [e for e in l[len(pre.logs.get(k, ())):] if e.kind != "loopacc"]
                    if ext:
                        at = {e.key for e in ext if e.kind == "setattr"}
                        kk = at | ({"*"} if any(e.kind != "setattr" for e in ext) else set())
                        if mutated.get(k) != kk:
                            mutated[k] = kk
                            stable = False
            if stable:
                break
        self.dry -= 1
        # --- real run
        for l in loops:
            l.breaks, l.rets = ([b for b in l.breaks] if getattr(l, "fused", False) else []), []
        x = pre.copy()
        lf, snaps, wc = run(x, cand, mutated)
        brk = mk_or(*[c for c, _ in lf["brk"]])
        if brk is not FALSE:
            lp.breaks.append(mk_and(guard, brk))
        lp.cond = wc
        rets = mk_or(*lp.rets) if lp.rets else FALSE
        if rets is not FALSE:
            lp.breaks.append(rets)
        if snaps:
            self.merge_into(x, snaps, base)
            post = x
        else:
            post = pre.copy()
            post.logs = x.logs if x.dead != "raise" else pre.logs
        # --- summarise
        st.logs = post.logs
        envs = {k: dict(v) for k, v in pre.envs.items()}
        for (fid, nm), ph in cand.items():
            after = post.envs.get(fid, {}).get(nm)
            if ph.op == "phi" and after is not None:
                self.phis[ph] = (self.freeze(pre.envs[fid][nm], pre), mk_ite(guard, self.freeze(after, post), ph), loops, while_cond is not None)
            envs[fid][nm] = self.summarise(loops, lp, ph, pre.envs[fid][nm], after, guard, brk, while_cond is not None, post)
        for nm, v in post.envs.get(fr.fid, {}).items():
            p = pre.envs.get(fr.fid, {}).get(nm)
            if (fr.fid, nm) in cand:
                continue
            if p is None:
                dep = any(contains(v, l.elem) or contains(v, l.index) for l in loops)
                envs[fr.fid][nm] = mk("last", lp.node, v) if dep else v
            elif v is not p and (fr.fid, nm) not in cand:
                envs[fr.fid][nm] = v
        st.envs = envs
        st.conds = base
        st.assumed = pre.assumed
        st.dead = None
        if rets is not FALSE:
            c = rets
            for l in reversed(loops):
                c = mk_any(l.node, c) if l.kind != "while" else mk("any", l.node, c)
            st.conds = base + (mk_not(c),)
        if while_cond is not None and isinstance(node, ast.While) and isinstance(node.test, ast.Constant) and node.test.value and brk is FALSE and rets is FALSE:
            st.dead = "raise"
        cc = brk
        for l in reversed(loops):
            cc = mk_any(l.node, cc) if l.kind != "while" else mk("any", l.node, cc)
        return cc

    def summarise(self, loops, lp, ph, pre, after, guard, brk, is_while, post):
        if after is None:
            return pre
        if after is ph:
            return pre
        after = self.freeze(after, post)
        if guard is not TRUE:
            after = mk_ite(guard, after, ph)
        acc = mk("acc", lp.node)
        onode = lp.node if lp.order == "given" or is_while else mk("loop", *lp.node.args, lp.order)
        opaque = mk("fold", onode, pre if pre.op != "obj" else self.freeze(pre, post), subst(after, {ph: acc}), subst(brk, {ph: acc}))
        if is_while:
            return opaque
        # flag / last-match:  ite(c, K, ph)
        if after.op == "ite" or after.op in ("and", "or", "not"):
            c, k = None, None
            if after.op == "ite" and after.args[2] is ph:
                c, k = after.args[0], after.args[1]
            elif after.op == "ite" and after.args[1] is ph:
                c, k = mk_not(after.args[0]), after.args[2]
            elif after.op == "or" and ph in after.args:
                c, k = mk_or(*[y for y in after.args if y is not ph]), TRUE
            elif after.op == "and" and ph in after.args:
                c, k = mk_not(mk_and(*[y for y in after.args if y is not ph])), FALSE
            elif after.op == "or" and mk("truthy", ph) in after.args:
                c, k = mk_or(*[y for y in after.args if y is not mk("truthy", ph)]), TRUE
            elif after.op == "and" and mk("truthy", ph) in after.args:
                c, k = mk_not(mk_and(*[y for y in after.args if y is not mk("truthy", ph)])), FALSE
            if c is not None and not contains(c, ph) and not contains(k, ph):
                anyc = c
                for l in reversed(loops):
                    anyc = mk_any(l.node, anyc)
                if not any(contains(k, l.elem) for l in loops) and k.op != "obj":
                    # a break can only cut iterations after the flag was decided if the break implies c
                    if brk is FALSE or mk_and(brk, mk_not(c)) is FALSE:
                        return mk_ite(anyc, k, pre)
                elif brk is c or (brk is not FALSE and mk_and(brk, mk_not(c)) is FALSE and mk_and(c, mk_not(brk)) is FALSE):
                    return mk_ite(anyc, mk("first", onode, c, k), pre)
                else:
                    return opaque
        if brk is FALSE and not loops[-1].breaks:
            inc = None
            if after.op == "add" and ph in after.args:
                inc = mk_sub(after, ph)
            elif after.op == "ite":
                a, b = after.args[1], after.args[2]
                if (a is ph or (a.op == "add" and ph in a.args)) and (b is ph or (b.op == "add" and ph in b.args)):
                    inc = mk_ite(after.args[0], mk_sub(a, ph), mk_sub(b, ph))
            if inc is not None and not contains(inc, ph):
                return mk_add(pre, self.mk_sum(loops, inc))
        return opaque

    def mk_sum(self, loops, inc):
        if inc.op == "ite" and inc.args[1] is ONE and inc.args[2] is ZERO and len(loops) == 1:
            return mk("count", loops[0].node, inc.args[0])
        if inc.op == "ite" and inc.args[2] is ONE and inc.args[1] is ZERO and len(loops) == 1:
            return mk("count", loops[0].node, mk_not(inc.args[0]))
        if is_bool(inc) and len(loops) == 1:
            return mk("count", loops[0].node, inc)
        r = inc
        for l in reversed(loops):
            if r is ONE:
                r = mk("len", l.iter)
            else:
                r = mk("sum", l.node, r)
        return r

    def while_loop(self, s, st):
        # counter loop -> for-range form
        alt = self._counter_while(s, st)
        if alt is not None:
            var, stop, body = alt
            seq = self.len_arg(stop, st)
            if seq is not None:
                self.positions(seq, s, st, lambda i, x: self.setvar(x, var, i), lambda x: self.exec_block(body, x),
                               assigned_names(body) | {var}, s.orelse)
                return
            it = mk("range", self.lookup(var, st), self.eval(stop, st), ONE)
            if it.args[0] is ZERO or True:
                self.for_loop(it, s, st, lambda el, x: self.setvar(x, var, el), lambda x: self.exec_block(body, x),
                              assigned_names(body) | {var}, s.orelse)
                return
        lp = Loop(None, 0, "while", "given", self.loc(s))
        self.sym_loop([lp], TRUE, NONE, s, st, lambda el, x: None, lambda x: self.exec_block(s.body, x),
                      assigned_names(s.body), while_cond=lambda x: self.cond(s.test, x))
        if s.orelse and not st.dead:
            self.exec_block(s.orelse, st)

    def _counter_while(self, s, st):
        """while i < stop: ...; i += 1   (increment last, no continue, i not otherwise assigned, stop invariant)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], ast.Lt)):
            return None
        var = t.left.id
        incs = [i for i, x in enumerate(s.body) if _is_inc(x, var)]
        if len(incs) != 1:
            return None
        rest = s.body[:incs[0]] + s.body[incs[0] + 1:]
        if any(isinstance(y, ast.Name) and y.id == var for x in s.body[incs[0] + 1:] for y in ast.walk(x)):
            return None
        before = s.body[:incs[0]]
        grown = {y.func.value.id for x in rest for y in ast.walk(x) if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name)
                 and y.func.attr in MUTATORS}
        if any(isinstance(y, ast.Name) and y.id in grown for y in ast.walk(t.comparators[0])):
            return None
        names = assigned_names(rest)
        if var in names:
            return None
        for x in before:
            for y in ast.walk(x):
                if isinstance(y, ast.Continue):
                    return None
        for y in ast.walk(t.comparators[0]):
            if isinstance(y, ast.Name) and y.id in names:
                return None
            if isinstance(y, ast.Call) and not (isinstance(y.func, ast.Name) and y.func.id == "len"):
                return None
        if not rest:
            return None
        cur = st.envs.get(self.frame.fid, {}).get(var)
        if cur is not ZERO:
            return None
        return var, t.comparators[0], rest

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st):
        return unarray(self.eval_raw(e, st))

    def eval_raw(self, e, st):
        """the value with its array-ness kept: what + and * do depends on it"""
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note(f"expression {type(e).__name__}", e)
            return self.fresh("opaque", type(e).__name__)
        v = m(e, st)
        if v.op == "ite" and (st.conds or st.assumed):
            v = simp(v, st.facts())
        return v

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.lookup(e.id, st)

    def lookup(self, name, st):
        fr = self.frame
        if name not in fr.globals:
            p = fr
            while p is not None:
                env = st.envs.get(p.fid, {})
                if name in env:
                    return env[name]
                p = p.parent
        r = self.prog.resolve(fr.module, name)
        if r is not None:
            return self.ref(r, name, st)
        if name in BUILTINS:
            return mk("ext", name)
        return mk("unbound", name)

    def ref(self, r, name, st):
        if r[0] == "func":
            n = mk("func", r[1].module.name, r[1].name)
            self.refs[n] = r[1]
            return n
        if r[0] == "class":
            n = mk("class", r[1].name)
            self.refs[n] = r[1]
            return n
        if r[0] == "module":
            return mk("module", r[1].name)
        if r[0] == "ext":
            return mk("ext", r[1])
        if r[0] == "expr":
            m, expr = r[1], r[2]
            v = self.read_attr(mk("module", m.name), name, st)
            if v is not None:
                return v
            if isinstance(expr, (ast.Constant, ast.Name, ast.BinOp, ast.UnaryOp, ast.Attribute)) or _literal(expr):
                if isinstance(expr, (ast.Dict, ast.List, ast.Set)):
                    if self._mutable_global(m, name):
                        return mk("global", m.name, name)
                return self.eval_in_module(m, expr, st)
            if isinstance(expr, (ast.Tuple, ast.Call, ast.List, ast.ListComp)):
                if isinstance(expr, ast.Call) and not self._pure_ctor(m, expr):
                    return mk("global", m.name, name)
                return self.eval_in_module(m, expr, st)
            return mk("global", m.name, name)
        return mk("unbound", name)

    def _pure_ctor(self, m, call):
        r = self.prog.resolve_expr(m, call.func) if isinstance(call.func, (ast.Name, ast.Attribute)) else None
        nm = call.func.id if isinstance(call.func, ast.Name) else (r[1] if r and r[0] == "ext" else "")
        if nm in ("list", "tuple", "dict", "set", "frozenset", "range", "sorted", "float", "int") and nm == getattr(call.func, "id", nm):
            return nm in ("tuple", "frozenset", "range", "float", "int", "list", "sorted", "dict")
        return isinstance(nm, str) and (nm.startswith("math.") or nm in ("numpy.sqrt",))

    def _mutable_global(self, m, name):
        k = ("mutglob", m.name, name)
        c = getattr(self.prog, "_mg", None)
        if c is None:
            c = self.prog._mg = {}
        if k not in c:
            hit = False
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.Subscript,)) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == name:
                    hit = True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == name and x.func.attr in MUTATORS:
                    hit = True
                if isinstance(x, ast.Global) and name in x.names:
                    hit = True
            c[k] = hit
        return c[k]

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.eval(x.value, st)
                    s = self.iter_sources(v, st)
                    if s and all(y[0] == "vals" for y in s):
                        for y in s:
                            out += y[1]
                    else:
                        return mk("tupleof", self.freeze(self.e_List(e, st), st))
                else:
                    out.append(self.eval(x, st))
            return mk("tuple", *out)
        return mk("tuple", *[self.eval(x, st) for x in e.elts])

    def e_List(self, e, st, kind="list"):
        vals = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                vals.append(("spread", self.eval(x.value, st)))
            else:
                vals.append(("item", self.eval(x, st)))
        o = self.alloc(st, kind)
        for k, v in vals:
            if k == "spread":
                self.extend(st, o, v, e)
            else:
                self.log(st, o, "item", None, v, e)
        return o

    def e_Set(self, e, st):
        return self.e_List(e, st, "set")

    def extend(self, st, o, v, node):
        """o.extend(v) / *v: flatten known lists into items"""
        v = simp(v, st.facts()) if v.op == "ite" else v
        if v.op == "ite":
            c = simp(self.freeze(v.args[0], st), st.facts())
            self.branch(c, st, lambda a: self.extend(a, o, v.args[1], node), lambda b: self.extend(b, o, v.args[2], node))
            return
        s = self.iter_sources(v, st) if v.op in ("obj", "tuple", "const") and v is not o else None
        if v.op == "obj" and self.objs[v].kind == "dict":
            s = None
        if s is not None and all(x[0] == "vals" for x in s):
            for x in s:
                for y in x[1]:
                    self.log(st, o, "item", None, y, node)
            return
        if s is not None and v.op == "obj":
            for x in s:
                if x[0] == "vals":
                    for y in x[1]:
                        self.log(st, o, "item", None, y, node)
                elif x[0] == "loop":
                    if x[2] is x[1].elem and x[1].order == "given":
                        self.log(st, o, "spread", None, x[1].iter, node)
                    else:
                        self.loops.append(x[1])
                        self.log(st, o, "item", None, x[2], node)
                        self.loops.pop()
                else:
                    loops = [self._reloop(l, x[4]) for l in x[1]]
                    mp = {a.elem: b.elem for a, b in zip(x[1], loops)}
                    self.loops += loops
                    c0 = st.conds
                    st.conds = st.conds + ((subst(x[2], mp),) if x[2] is not TRUE else ())
                    self.log(st, o, "item", None, subst(x[3], mp), node)
                    st.conds = c0
                    del self.loops[len(self.loops) - len(loops):]
            return
        if v.op == "keys":
            v = v.args[0]
        if v.op in ("values", "items") and self.objs[o].kind != "set":
            self.for_loop(v, node, st, lambda el, y: self.log(y, o, "item", None, el, node), lambda y: None, set())
            return
        self.log(st, o, "spread", None, v, node)

    def e_Dict(self, e, st):
        vals = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                vals.append((None, self.eval(v, st)))
            else:
                kk = self.eval(k, st)
                vals.append((kk, self.eval(v, st)))
        o = self.alloc(st, "dict")
        for k, v in vals:
            if k is None:
                self.dict_spread(st, o, v, e)
            else:
                self.log(st, o, "item", k, v, e)
        return o

    def dict_spread(self, st, o, v, node):
        v = simp(v, st.facts()) if v.op == "ite" else v
        if v.op == "ite":
            c = simp(self.freeze(v.args[0], st), st.facts())
            self.branch(c, st, lambda a: self.dict_spread(a, o, v.args[1], node), lambda b: self.dict_spread(b, o, v.args[2], node))
            return
        if v is NONE:
            return
        if v.op == "obj" and self.objs[v].kind == "dict":
            ks = self._dict_keys(v, st)
            if ks is not None:
                for k in ks:
                    self.log(st, o, "item", k, self.getitem(v, k, st), node)
                return
            if v is o:
                return
            ob = self.objs[v]
            log = st.logs.get(v, ())
            if all(e.kind in ("item", "spread") for e in log):
                for e in log:
                    loops = [l for l in e.loops if l not in self.loops]
                    saved = list(self.loops)
                    self.loops += loops
                    c0 = st.conds
                    g = simp(e.guard, st.facts())
                    st.conds = st.conds + ((g,) if g is not TRUE else ())
                    self.log(st, o, e.kind, e.key, e.value, node)
                    st.conds = c0
                    self.loops[:] = saved
                return
        if v.op == "items":
            v = v.args[0]
        if v.op != "obj" and st.logs.get(v):
            if all(e.kind in ("item", "setattr") for e in st.logs[v]):
                # symbolic mapping with overlay: base then overlay
                self.log(st, o, "spread", None, v, node)
                for e in st.logs[v]:
                    if e.kind == "item" and not [l for l in e.loops if l not in self.loops]:
                        self.log(st, o, "item", e.key, e.value, node)
                return
        self.log(st, o, "spread", None, v, node)

    def comp(self, e, st, kind, emit_item):
        o = self.alloc(st, kind)

        def gen(i, x):
            if i == len(e.generators):
                emit_item(o, x)
                return
            g = e.generators[i]
            seq = self.range_of_len(g.iter, x)
            it = self.eval(g.iter, x) if seq is None else None

            def body(y):
                conds = []
                c0 = y.conds
                for t in g.ifs:
                    c = self.cond(t, y)
                    if c is FALSE:
                        y.conds = c0
                        return
                    if c is not TRUE:
                        y.conds = y.conds + (c,)
                gen(i + 1, y)
                y.conds = c0
            if seq is not None:
                self.positions(seq, e, x, lambda el, y: self.assign(g.target, el, y, e), body, set())
            else:
                self.for_loop(it, e, x, lambda el, y: self.assign(g.target, el, y, e), body, set())
        saved = dict(st.envs.get(self.frame.fid, {}))
        gen(0, st)
        st.envs[self.frame.fid] = saved
        return o

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list", lambda o, x: self.log(x, o, "item", None, self.eval(e.elt, x), e))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set", lambda o, x: self.log(x, o, "item", None, self.eval(e.elt, x), e))

    def e_DictComp(self, e, st):
        def item(o, x):
            k = self.eval(e.key, x)
            self.log(x, o, "item", k, self.eval(e.value, x), e)
        return self.comp(e, st, "dict", item)

    def e_Attribute(self, e, st):
        return self.getattr(self.eval(e.value, st), e.attr, st, e)

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, st) if e.slice.lower else NONE
            hi = self.eval(e.slice.upper, st) if e.slice.upper else NONE
            sp = self.eval(e.slice.step, st) if e.slice.step else NONE
            return self.slice(b, lo, hi, sp, st)
        k = self.eval(e.slice, st)
        if any(isinstance(x, ast.Slice) for x in getattr(e.slice, "elts", [])):
            return mk("npindex", b, k)
        return self.getitem(b, k, st, node=e)

    def e_Slice(self, e, st):
        f = lambda x: self.eval(x, st) if x is not None else NONE
        return mk("sliceobj", f(e.lower), f(e.upper), f(e.step))

    def slice(self, b, lo, hi, sp, st):
        def ci(x):
            return x is NONE or (is_const(x) and isinstance(cval(x), int))
        if ci(lo) and ci(hi) and ci(sp):
            s = slice(*[None if x is NONE else cval(x) for x in (lo, hi, sp)])
            if b.op == "tuple":
                return mk("tuple", *b.args[s])
            if is_const(b) and isinstance(cval(b), str):
                return const(cval(b)[s])
            if b.op == "obj" and self.objs[b].kind == "list":
                src = self.iter_sources(b, st)
                if src and len(src) == 1 and src[0][0] == "vals":
                    o = self.alloc(st, "list")
                    for v in src[0][1][s]:
                        self.log(st, o, "item", None, v)
                    return o
            if s.start in (None, 0) and s.stop is None and s.step in (None, 1):
                return mk("copyof", self.freeze(b, st) if b.op == "obj" else b)
        return mk("slice", self.freeze(b, st), lo, hi, sp)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        if c is TRUE:
            return self.eval(e.body, st)
        if c is FALSE:
            return self.eval(e.orelse, st)
        a, b = self.branch(c, st, lambda x: self.eval(e.body, x), lambda x: self.eval(e.orelse, x))
        return mk_ite(c, a, b)

    def e_BoolOp(self, e, st):
        vals = []
        isand = isinstance(e.op, ast.And)
        cur = self.eval(e.values[0], st)
        for nxt in e.values[1:]:
            c = mk_truthy(self.val_truthy(cur, st))
            c = simp(self.freeze(c, st), st.facts())
            if c is (FALSE if isand else TRUE):
                return cur
            cc = c if isand else mk_not(c)
            conds = st.conds
            if cc is not TRUE:
                st.conds = conds + (cc,)
            v = self.eval(nxt, st)
            st.conds = conds
            if is_bool(cur) and is_bool(v):
                cur = mk_and(cur, v) if isand else mk_or(cur, v)
            else:
                cur = mk_ite(c, v, cur) if isand else mk_ite(c, cur, v)
        return cur

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return mk_not(simp(self.freeze(mk_truthy(self.val_truthy(v, st)), st), st.facts()))
        if isinstance(e.op, ast.USub):
            return mk_mul(const(-1), v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("invert", v)

    def e_BinOp(self, e, st):
        a = self.eval_raw(e.left, st)
        b = self.eval_raw(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        if is_array(a) or is_array(b):
            a, b = self.freeze(unarray(a), st), self.freeze(unarray(b), st)
            if isinstance(op, ast.Add):
                return mk("array", mk_add(a, b))
            if isinstance(op, ast.Mult):
                return mk("array", mk_mul(a, b))
            return mk("array", self.binop(op, a, b, st, node))
        if isinstance(op, ast.Add):
            for x in (a, b):
                if x.op == "obj" and self.objs[x].kind in ("list", "deque") or x.op == "list":
                    o = self.alloc(st, "list")
                    self.extend(st, o, a, node)
                    self.extend(st, o, b, node)
                    return o
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *a.args, *b.args)
            if is_const(a) and is_const(b) and isinstance(cval(a), str) and isinstance(cval(b), str):
                return const(cval(a) + cval(b))
            if any(is_const(x) and isinstance(cval(x), str) for x in (a, b)) or "fstr" in (a.op, b.op):
                return mk("fstr", a, b)
            ta, tb = self.typeof(a), self.typeof(b)
            if all(t == "list" or isinstance(t, tuple) and t[0] == "list" for t in (ta, tb)):
                o = self.alloc(st, "list")
                self.extend(st, o, a, node)
                self.extend(st, o, b, node)
                return o
            return mk_add(self.freeze(a, st), self.freeze(b, st))
        if isinstance(op, ast.Mult):
            for l, n in ((a, b), (b, a)):
                r = self.repeat(l, n, st, node)
                if r is not None:
                    return r
        a, b = self.freeze(a, st), self.freeze(b, st)
        if isinstance(op, ast.Sub):
            return mk_sub(a, b)
        if isinstance(op, ast.Mult):
            if a.op in ("list", "tuple") or b.op in ("list", "tuple"):
                l, n = (a, b) if a.op in ("list", "tuple") else (b, a)
                if is_const(n) and isinstance(cval(n), int) and 0 <= cval(n) <= 8:
                    if l.op == "tuple":
                        return mk("tuple", *(l.args * cval(n)))
                return mk("repeat", l, n)
            return mk_mul(a, b)
        if isinstance(op, ast.Div):
            return mk_div(a, b)
        if isinstance(op, ast.BitOr):
            if is_bool(a) and is_bool(b):
                return mk_or(a, b)
            return mk("bitor", a, b)
        if isinstance(op, ast.BitAnd):
            if is_bool(a) and is_bool(b):
                return mk_and(a, b)
            return mk("bitand", a, b)
        nm = {"FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "MatMult": "dot", "BitXor": "bitxor", "LShift": "shl", "RShift": "shr"}[type(op).__name__]
        if nm in ("floordiv", "mod", "pow") and num(a) and num(b):
            try:
                x, y = cval(a), cval(b)
                return const(x // y if nm == "floordiv" else x % y if nm == "mod" else x ** y)
            except Exception:
                pass
        return mk(nm, a, b)

    def repeat(self, l, n, st, node):
        """[x] * n and (x,) * n as the comprehension [x for _ in range(n)]; None for anything else"""
        if l.op == "obj" and self.objs[l].kind == "list":
            log = st.logs.get(l, ())
            if len(log) != 1 or log[0].kind != "item" or tuple(log[0].loops) != self.objs[l].loops or self._freeze_obj(l, st.logs).args[0].args[3] is not TRUE:
                return None
            x = log[0].value
        elif l.op == "tuple" and len(l.args) == 1 and not is_const(n):
            x = l.args[0]
        else:
            return None
        if x.op == "obj" or n.op in ("obj", "tuple", "list"):       # the same object n times
            return None
        o = self.alloc(st, "list")
        self.for_loop(mk("range", ZERO, self.freeze(n, st), ONE), node, st, lambda el, y: self.log(y, o, "item", None, x, node), lambda y: None, set())
        return mk("tupleof", self._freeze_obj(o, st.logs)) if l.op == "tuple" else o

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            out.append(self.compare(op, left, right, st))
            left = right
        return mk_and(*out)

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains_(a, b, st)
            return mk_not(c) if isinstance(op, ast.NotIn) else c
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is NONE or a is NONE:
                c = mk_isnone(a if b is NONE else b)
            elif is_const(b) or is_const(a):
                c = mk_eq(a, b)
            elif a is b:
                c = TRUE
            elif all(x.op in ("typeof", "class") or x.op == "ext" and x.args[0] in TYPES for x in (a, b)):
                c = mk_eq(a, b)             # classes compare by identity
            else:
                c = mk("is", *sorted((a, b)))
            return mk_not(c) if isinstance(op, ast.IsNot) else c
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        if isinstance(op, ast.Eq) or isinstance(op, ast.NotEq):
            ca = self.cls_of(a)
            if ca is not None and ca.find("__eq__") and a.op != "const" and not self.is_prim(ca, "__eq__"):
                c = self.call_func(ca.find("__eq__"), [a, b], {}, st, None, a, ca)
                c = mk_truthy(c)
            else:
                c = mk_eq(fa, fb)
            return mk_not(c) if isinstance(op, ast.NotEq) else c
        if isinstance(op, ast.Lt):
            return mk_lt(fa, fb)
        if isinstance(op, ast.Gt):
            return mk_lt(fb, fa)
        if isinstance(op, ast.LtE):
            return mk_not(mk_lt(fb, fa))
        if isinstance(op, ast.GtE):
            return mk_not(mk_lt(fa, fb))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.freeze(self.eval(v.value, st), st)
                if v.format_spec is not None:
                    x = mk("fmt", x, self.eval(v.format_spec, st))
                parts.append(x)
        if all(is_const(p) for p in parts):
            return const("".join(str(cval(p)) for p in parts))
        return mk("fstr", *parts)

    def e_Lambda(self, e, st):
        return self.closure(e)

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        fr = self.frame
        self.emit(st, "yield", fr.func.qual, None, [v], node=e)
        fr.yields.append((v, mk_and(*st.conds), tuple(self.loops)))
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        self.for_loop(v, e, st, lambda el, x: self._yield_one(el, x, e), lambda x: None, set())
        return NONE

    def _yield_one(self, el, st, e):
        fr = self.frame
        self.emit(st, "yield", fr.func.qual, None, [el], node=e)
        fr.yields.append((el, mk_and(*st.conds), tuple(self.loops)))

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fr = self.frame
            while fr is not None and fr.selfnode is None:
                fr = fr.parent
            if fr is not None:
                n = mk("super", fr.selfnode, fr.cls.name)
                c = self.cls_of(fr.selfnode) or self.refs.get(fr.selfnode) or fr.cls
                self.refs[n] = (fr.selfnode, fr.cls, c)
                return n
        args, kwargs, opaque = [], {}, False
        if isinstance(e.func, ast.Attribute):
            recv = self.eval(e.func.value, st)
        else:
            recv = None
            f = self.eval(e.func, st)
        known = f.op in ("func", "bound", "closure", "class") if recv is None else self.cls_of(recv) is not None or recv.op in ("class", "super", "module")
        ev = self.eval_raw if known else self.eval
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                s = self.iter_sources(v, st) if v.op in ("tuple", "obj") else None
                if s is not None and all(x[0] == "vals" for x in s):
                    for x in s:
                        args += x[1]
                else:
                    args.append(mk("star", v))
                    opaque = True
            else:
                args.append(ev(a, st))
        for k in e.keywords:
            v = ev(k.value, st)
            if k.arg is None:
                v = unarray(v)
                ks = self._dict_keys(v, st) if v.op == "obj" and self.objs[v].kind == "dict" else None
                if ks is not None and all(isinstance(cval(x), str) for x in ks):
                    for x in ks:
                        kwargs[cval(x)] = self.getitem(v, x, st)
                else:
                    kwargs["**"] = self.freeze(v, st)
            else:
                kwargs[k.arg] = v
        if recv is not None:
            return self.call_method(recv, e.func.attr, args, kwargs, st, e)
        return self.call(f, args, kwargs, st, e)

    def call(self, f, args, kwargs, st, node):
        if f.op == "ite":
            return self.split(f, st, lambda x, s: self.call(x, args, kwargs, s, node))
        if f.op == "closure":
            fn, parent = self.closures[f]
            func = Func(fn, parent.module, parent.cls if False else None, name=getattr(fn, "name", "<lambda>"))
            func.parent_qual = parent.func.qual
            fr_self = parent.selfnode
            return self.call_func(func, args, kwargs, st, node, None, None, parent=parent)
        if f.op == "func":
            return self.call_func(self.refs[f], args, kwargs, st, node, None, None)
        if f.op == "bound":
            fn, selfn, c = self.refs[f]
            if fn is None:
                if f.args[1] == "__init__":
                    return NONE
                return self.opaque_call(f.args[1], selfn, args, kwargs, st, node)
            if self.is_prim(c, fn.name):
                return self.prim_call(fn, selfn, args, kwargs, st, node, c)
            a = ([selfn] if selfn is not None else []) + args
            if fn.is_classmethod and selfn is not None and selfn.op != "class":
                cn = mk("class", c.name)
                self.refs[cn] = c
                a = [cn] + args
            return self.call_func(fn, a, kwargs, st, node, a[0] if (selfn is not None) else None, c)
        if f.op == "class":
            return self.instantiate(self.refs[f], args, kwargs, st, node)
        if f.op == "partial":
            pa = f.args[1].args
            kw = dict(kwargs)
            for x in f.args[2].args:
                kw.setdefault(x.args[0], x.args[1])
            return self.call(f.args[0], list(pa) + args, kw, st, node)
        if f.op == "ext":
            return self.ext_call(f.args[0], args, kwargs, st, node)
        if f.op == "attr":
            return self.call_method(f.args[0], f.args[1], args, kwargs, st, node)
        c = self.cls_of(f)
        if c is not None and c.find("__call__"):
            return self.call_func(c.find("__call__"), [f] + args, kwargs, st, node, f, c)
        fa = [self.freeze(a, st) for a in args]
        r = mk("apply", f, *fa, *[mk("kw", k, self.freeze(v, st)) for k, v in sorted(kwargs.items())])
        self.emit(st, "apply", "apply", f, args, kwargs, r, node)
        return r

    def is_prim(self, cls, name):
        for c in cls.mro():
            if name in self.prims.get(c.name, ()):
                return True
        return False

    def bind(self, func, args, kwargs, st, skip_self, node):
        """-> list of (name, node) in parameter order, defaults filled; None if not bindable"""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if skip_self and names:
            names = names[1:]
        defaults = dict(zip([x.arg for x in a.posonlyargs + a.args][::-1], a.defaults[::-1]))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        out = {}
        extra = []
        for i, v in enumerate(args):
            if v.op == "star":
                for nm in names[i:]:
                    out.setdefault(nm, mk_get(v.args[0], const(names.index(nm) - i)))
                break
            if i < len(names):
                out[names[i]] = v
            else:
                extra.append(v)
        kwx = {}
        allnames = names + [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k == "**":
                continue
            if k in allnames:
                out[k] = v
            else:
                kwx[k] = v
        for nm in allnames:
            if nm not in out:
                if nm in defaults:
                    if "**" in kwargs:
                        out[nm] = mk("kwopt", kwargs["**"], nm)
                    else:
                        out[nm] = self.eval_in_module(func.module, defaults[nm], st)
                elif "**" in kwargs:
                    out[nm] = mk_get(kwargs["**"], const(nm))
                else:
                    out[nm] = mk("missing", nm)
        if a.vararg:
            out[a.vararg.arg] = mk("tuple", *extra)
        if a.kwarg and not kwx and "**" in kwargs and kwargs["**"].op == "param":
            out[a.kwarg.arg] = kwargs["**"]
        elif a.kwarg:
            d = self.alloc(st, "dict")
            if "**" in kwargs:
                self.log(st, d, "spread", None, kwargs["**"], node)
            for k, v in kwx.items():
                self.log(st, d, "item", const(k), v, node)
            out[a.kwarg.arg] = d
        return [(n, out[n]) for n in allnames + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])]

    def prim_call(self, fn, selfn, args, kwargs, st, node, c):
        self.used.add(fn.qual)
        bound = self.bind(fn, args, kwargs, st, not fn.is_static, node)
        vals = [v for _, v in bound]
        fz = [self.freeze(v, st) for v in vals]
        pure = fn.name not in IMPURE_API
        if pure:
            r = mk("mcall", fn.name, selfn, *fz)
        else:
            r = self.fresh("ret", fn.name)
        t = self.prog.ann_type(fn.module, getattr(fn.node, "returns", None))
        if t is None and fn.name == "instantiate_result":
            try:
                t = self.prog.cls("SimulationResult")
            except AnalysisError:
                t = None
        if t is not None and self.types.get(r) is None:
            self.types[r] = t
        self.emit(st, "call", fn.name, selfn, vals, dict(bound), r, node)
        return r

    def call_func(self, func, args, kwargs, st, node, selfn, cls, parent=None):
        if func.qual in self.noinline or func.name in self.noinline:
            bound = self.bind(func, args, kwargs, st, False, node)
            vals = [v for _, v in bound]
            r = mk("fcall", func.name, *[self.freeze(v, st) for v in vals]) if func.name not in IMPURE_API else self.fresh("ret", func.name)
            t = self.prog.ann_type(func.module, getattr(func.node, "returns", None))
            if t is not None:
                self.types.setdefault(r, t)
            self.emit(st, "call", func.name, None, vals, dict(bound), r, node)
            return r
        if func.is_abstract or len(self.stack) >= MAX_DEPTH or sum(1 for f in self.stack if f.node is func.node) >= 2:
            if not func.is_abstract:
                self.note(f"recursion/depth at {func.qual}", node)
            nm = func.name
            a = args[1:] if selfn is not None and args and args[0] is selfn else args
            return self.opaque_call(nm, selfn, a, kwargs, st, node)
        skip = False
        bound = self.bind(func, args, kwargs, st, False, node)
        env = dict(bound)
        a = func.node.args
        anns = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs}
        for k, v in env.items():
            if anns.get(k) is not None and v.op not in ("const", "obj", "tuple") and self.typeof(v) is None:
                t = self.prog.ann_type(func.module, anns[k])
                if isinstance(t, Cls) or isinstance(t, tuple):
                    self.types[v] = t
        fr = Frame(func, func.module, func.cls, None, parent)
        names = [x.arg for x in a.posonlyargs + a.args]
        if func.cls is not None and not func.is_static and names:
            fr.selfnode = env.get(names[0])
        elif parent is not None:
            fr.selfnode, fr.cls = None, None
        v = self.run_frame(fr, env, st)
        if v.op not in ("const", "obj", "tuple") and self.typeof(v) is None:
            t = self.prog.ann_type(func.module, getattr(func.node, "returns", None))
            if isinstance(t, (Cls, tuple)):
                self.types[v] = t
        return v

    def instantiate(self, cls, args, kwargs, st, node):
        if "__new__" in self.prims.get(cls.name, ()) or any("__new__" in self.prims.get(c.name, ()) for c in cls.mro()):
            init = cls.find("__init__")
            if init is not None:
                self.used.add(init.qual)
                bound = self.bind(init, args, kwargs, st, True, node)
            else:
                bound = [(str(i), a) for i, a in enumerate(args)]
            r = self.fresh("new", cls.name, *[self.freeze(v, st) for _, v in bound])
            self.types[r] = cls
            self.emit(st, "new", cls.name, None, [v for _, v in bound], dict(bound), r, node)
            return r
        o = self.alloc(st, "inst", cls)
        init = cls.find("__init__")
        self.emit(st, "new", cls.name, None, args, kwargs, o, node)
        if init is not None:
            self.call_func(init, [o] + args, kwargs, st, node, o, cls)
            st.dead = None
        return o

    def opaque_call(self, name, recv, args, kwargs, st, node, pure=False):
        fz = [self.freeze(a, st) for a in args] + [mk("kw", k, self.freeze(v, st)) for k, v in sorted(kwargs.items())]
        if pure or name not in IMPURE_API and recv is not None and name in PURE_API:
            r = mk("mcall", name, recv, *fz)
        else:
            r = self.fresh("ret", name)
        self.emit(st, "call", name, recv, args, kwargs, r, node)
        return r

    def call_method(self, recv, name, args, kwargs, st, node):
        if recv.op == "ite":
            recv = simp(recv, st.facts())
        if recv.op == "ite":
            return self.split(recv, st, lambda x, s: self.call_method(x, name, args, kwargs, s, node)) or NONE
        if name == "__new__" and args and args[0].op == "class" and not kwargs and len(args) == 1:
            c = self.prog.cls(args[0].args[0]) if recv.op in ("class", "super") or recv.op in ("ext", "builtin", "global") and recv.args[0] in ("object", "builtins.object") else None
            if c is not None and c.find("__new__") is None:
                return self.alloc(st, "inst", c)        # an object whose constructor has not run
        if recv.op in ("ext",):
            return self.ext_call(recv.args[0] + "." + name, args, kwargs, st, node)
        if recv.op in ("class", "super", "module"):
            f = self.getattr(recv, name, st, node)
            if recv.op == "super" and f.op == "bound" and self.refs[f][0] is None:
                if name == "__init__":
                    return NONE
                return self.opaque_call(name, recv.args[0], args, kwargs, st, node)
            if f.op == "bound" and recv.op == "class":
                fn, selfn, c = self.refs[f]
                if self.is_prim(c, fn.name):
                    if selfn is None and not fn.is_static and args:
                        return self.prim_call(fn, args[0], args[1:], kwargs, st, node, c)
                    return self.prim_call(fn, selfn or recv, args, kwargs, st, node, c)
                return self.call_func(fn, ([recv] if fn.is_classmethod else []) + args, kwargs, st, node, recv if fn.is_classmethod else (args[0] if args else None), c)
            return self.call(f, args, kwargs, st, node)
        if recv.op == "obj" and self.objs[recv].kind in ("list", "dict", "set", "deque"):
            return self.container(recv, name, args, kwargs, st, node)
        v = self.read_attr(recv, name, st)
        if v is not None:
            return self.call(v, args, kwargs, st, node)
        c = self.cls_of(recv)
        if c is not None and name == "__class__":
            return self.instantiate(c, args, kwargs, st, node)
        if c is None and name not in COMMON and not (is_const(recv) or recv.op in ("tuple", "dict", "list")):
            own = self.prog.method_owners.get(name, [])
            roots = [o for o in own if not any(name in b.methods for b in o.mro()[1:])]
            if len(roots) == 1 and name not in STRM and name not in MUTATORS:
                c = roots[0]
                if recv.op not in ("const",):
                    self.types.setdefault(recv, c)
        if c is not None:
            f = c.find(name)
            if f is not None:
                if self.is_prim(c, name):
                    return self.prim_call(f, recv, args, kwargs, st, node, c)
                # an abstract-typed receiver: overriding subclasses make the callee ambiguous
                if recv.op not in ("self", "obj", "new") and self._overridden(c, name):
                    bound = self.bind(f, args, kwargs, st, not f.is_static, node)
                    return self.opaque_call(name, recv, [v for _, v in bound], {}, st, node)
                pre = [] if f.is_static else [recv]
                if f.is_classmethod:
                    cn = mk("class", c.name)
                    self.refs[cn] = c
                    pre = [cn]
                return self.call_func(f, pre + args, kwargs, st, node, recv, c)
            if name in c.attrs:
                pass
            return self.opaque_call(name, recv, args, kwargs, st, node)
        return self.container(recv, name, args, kwargs, st, node)

    def _overridden(self, c, name):
        return any(name in s.methods for s in self.prog.subclasses.get(c, []))

    def container(self, recv, name, args, kwargs, st, node):
        isobj = recv.op == "obj"
        if name == "get" and args:
            if recv.op == "asyncres":
                return recv.args[0]
            d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            return self.getitem(recv, args[0], st, d, node)
        if name == "get" and recv.op == "asyncres":
            return recv.args[0]
        if name == "result" and recv.op == "asyncres":
            return recv.args[0]
        if name in ("items", "keys", "values") and not args:
            return mk(name, recv)
        if name == "__contains__" and args:
            return self.contains_(args[0], recv, st)
        if name == "__getitem__" and args:
            return self.getitem(recv, args[0], st, node=node)
        if name == "__setitem__" and len(args) == 2:
            self.setitem(recv, args[0], args[1], st, node)
            return NONE
        if name == "copy" and not args:
            if isobj:
                o = self.alloc(st, self.objs[recv].kind)
                (self.dict_spread if self.objs[recv].kind == "dict" else self.extend)(st, o, recv, node)
                return o
            t = self.typeof(recv)
            o = self.alloc(st, "list" if t == "list" or isinstance(t, tuple) and t[0] == "list" else "dict", meta=("copy",))
            self.log(st, o, "spread", None, recv, node)
            return o
        if name in ("starmap", "map", "imap", "imap_unordered", "starmap_async", "map_async", "apply", "apply_async", "submit") and args and (
                args[0].op in ("func", "closure", "bound", "partial", "ext")):
            return self.pool_map(recv, name, args, kwargs, st, node)
        if name in BULK and len(args) == 1 and not kwargs and not isobj:
            one, width = BULK[name]         # one call for all against one call for each

            def body(el, x):
                self.call_method(recv, one, [el] if width is None else [self.getitem(el, const(i), x, node) for i in range(width)], {}, x, node)
            self.for_loop(args[0], node, st, body, lambda x: None, set())
            return self.fresh("ret", name)
        if name in MUTATORS:
            return self.mutate(st, recv, name, args, kwargs, node)
        if isobj and name == "count" and len(args) == 1:
            fz, x = self._freeze_obj(recv, st.logs), self.freeze(args[0], st)
            if fz.op == "list" and all(z.op == "seg" and z.args[0] == "item" for z in fz.args):
                r = self.len_frozen(mk("list", *[mk("seg", *z.args[:3], mk_and(z.args[3], mk_eq(z.args[2], x)), z.args[4]) for z in fz.args]))
                if r.op != "len":
                    return r
        if isobj and name in ("index", "count"):
            return mk("m_" + name, self._freeze_obj(recv, st.logs), *[self.freeze(a, st) for a in args])
        if is_const(recv) and isinstance(cval(recv), str) and name in STRM and all(is_const(a) for a in args) and not kwargs:
            try:
                r = getattr(cval(recv), name)(*[cval(a) for a in args])
                if isinstance(r, list):
                    o = self.alloc(st, "list")
                    for x in r:
                        self.log(st, o, "item", None, const(x), node)
                    return o
                return const(r)
            except Exception:
                pass
        fa = [self.freeze(a, st) for a in args]
        if name in ("dot",) and len(fa) == 1:
            return mk("dot", self.freeze(recv, st), fa[0])
        if name in ("sum",) and not fa:
            return mk("npsum", recv)
        if name in ("flatten", "ravel", "view", "astype", "reshape", "tolist", "item", "squeeze") or name in STRM or name in ("union", "intersection", "difference", "issubset", "issuperset", "most_common", "elements", "isdisjoint"):
            if name in ("union", "difference", "intersection", "isdisjoint", "issubset") and isobj:
                return mk("m_" + name, self._freeze_obj(recv, st.logs), *fa)
            return mk("m_" + name, self.freeze(recv, st), *fa)
        if name == "round":
            return mk("round", recv, *(fa or [ZERO]))
        if name in ("transpose",):
            return mk("transpose", recv)
        return self.opaque_call(name, recv, args, kwargs, st, node)

    def pool_map(self, recv, name, args, kwargs, st, node):
        f = args[0]
        if name in ("apply", "apply_async", "submit"):
            if name == "submit":
                a = args[1:]
            else:
                a = args[1] if len(args) > 1 else kwargs.get("args", mk("tuple"))
                src = self.iter_sources(a, st)
                a = src[0][1] if src and src[0][0] == "vals" else [mk("star", a)]
            self.flags.append("worker")
            r = self.call(f, list(a), kwargs if name == "submit" else {}, st, node)
            self.flags.pop()
            self.emit(st, "pool", name, recv, args, kwargs, r, node)
            return mk("asyncres", r) if name != "apply" else r
        o = self.alloc(st, "list")
        self.emit(st, "pool", name, recv, args, kwargs, o, node)
        self.flags.append("worker")

        def body(el, x):
            if name.startswith("starmap"):
                s = self.iter_sources(el, x) if el.op in ("tuple", "obj") else None
                a = s[0][1] if s and len(s) == 1 and s[0][0] == "vals" else [mk("star", el)]
            else:
                a = [el]
            r = self.call(f, list(a), {}, x, node)
            self.log(x, o, "item", None, r, node)
        self.for_loop(args[1], node, st, body, lambda x: None, set())
        self.flags.pop()
        if name.endswith("_async"):
            return mk("asyncres", o)
        if name == "imap_unordered":
            return mk("unordered", o)
        return o

    def mutate(self, st, recv, name, args, kwargs, node):
        def go(recv, st):
            isobj = recv.op == "obj"
            ob = self.objs.get(recv)
            ret = NONE
            if name in ("pop", "popitem", "popleft", "setdefault"):
                if name == "setdefault":
                    k, d = args[0], (args[1] if len(args) > 1 else NONE)
                    has = simp(self.contains_(k, recv, st), st.facts())
                    cur = self.getitem(recv, k, st)
                    if has is TRUE:
                        ret = cur
                    elif has is FALSE:
                        ret = d
                    else:
                        ret = mk_ite(has, cur, d)
                    self.emit(st, "mut", "setdefault", recv, args, kwargs, ret, node)
                    if has is not TRUE:
                        c0 = st.conds
                        st.conds = st.conds + ((mk_not(has),) if has is not FALSE else ())
                        self.log(st, recv, "item", k, d, node)
                        st.conds = c0
                    return ret
                if isobj and name == "pop" and ob.kind == "dict" and args and is_const(args[0]):
                    ret = self.getitem(recv, args[0], st, args[1] if len(args) > 1 else None)
                    self.emit(st, "mut", name, recv, args, kwargs, ret, node)
                    self.log(st, recv, "del", args[0], None, node)
                    return ret
                nm, ar = name, args
                if name == "pop" and isobj and ob.kind in ("list", "deque") and args and args[0] is ZERO:
                    nm, ar = "popleft", []
                ret = self.fresh("popped", nm, recv if not isobj else mk("objref", recv.args[-1]))
                self.emit(st, "mut", nm, recv, ar, kwargs, ret, node)
                self.log(st, recv, "pop", nm, ar[0] if ar else NONE, node)
                return ret
            self.emit(st, "mut", name, recv, args, kwargs, None, node)
            if name in ("append", "add"):
                self.log(st, recv, "item", None, args[0] if args else NONE, node)
            elif name == "appendleft":
                self.log(st, recv, "itemleft", None, args[0], node)
            elif name == "insert":
                if args and args[0] is ZERO:
                    self.log(st, recv, "itemleft", None, args[1] if len(args) > 1 else NONE, node)
                else:
                    self.log(st, recv, "insert", args[0], args[1] if len(args) > 1 else NONE, node)
            elif name == "extend" and isobj:
                self.extend(st, recv, args[0], node)
            elif name == "extend":
                self.log(st, recv, "spread", None, args[0], node)
            elif name == "update":
                if ob is not None and ob.kind == "set":
                    for a in args:
                        self.extend(st, recv, a, node)
                else:
                    for a in args:
                        self.dict_spread(st, recv, a, node)
                    for k, v in kwargs.items():
                        if k == "**":
                            self.dict_spread(st, recv, v, node)
                        else:
                            self.log(st, recv, "item", const(k), v, node)
            elif name == "clear":
                self.log(st, recv, "clear", None, None, node)
            else:
                self.log(st, recv, name, None, args[0] if args else NONE, node)
            return NONE
        return self.split(recv, st, go) or NONE

    def isinst(self, v, t, st):
        if t.op == "tuple":
            return mk_or(*[self.isinst(v, x, st) for x in t.args])
        if v.op == "ite":
            return mk_ite(v.args[0], self.isinst(v.args[1], t, st), self.isinst(v.args[2], t, st))
        nm = t.args[0] if t.op in ("ext", "class") else show(t)
        if t.op == "class":
            c = self.cls_of(v)
            if c is not None and v.op in ("obj", "new", "self"):
                return const(c.is_sub(nm))
            if v.op in ("const", "tuple"):
                return FALSE
            return mk("isinst", v, nm)
        nm = nm.split(".")[-1]
        kinds = {"list", "dict", "tuple", "set", "str", "int", "float", "bool", "deque"}
        if nm in kinds:
            k = None
            if v.op == "obj":
                k = self.objs[v].kind
            elif v.op in ("tuple", "tupleof"):
                k = "tuple"
            elif v.op in ("list", "dict", "set"):
                k = v.op
            elif v.op == "const" and cval(v) is not None:
                k = type(cval(v)).__name__
                if k == "bool" and nm == "int":
                    return TRUE
            elif v is NONE:
                return FALSE
            if k is not None:
                return const(k == nm)
        return mk("isinst", v, nm)

    def tolist(self, v, st, kind, node):
        o = self.alloc(st, kind)
        self.extend(st, o, v, node)
        return o

    def ext_call(self, name, args, kwargs, st, node):
        short = name.split(".")[-1]
        if name in ("tuple", "list", "set", "frozenset", "dict", "collections.deque", "collections.OrderedDict", "collections.defaultdict", "collections.Counter"):
            if name in ("dict", "collections.OrderedDict"):
                o = self.alloc(st, "dict")
                if args:
                    a = args[0]
                    if a.op == "zip" or (a.op == "obj" and self.objs[a].kind in ("list",)) or a.op == "enumerate":
                        def body(el, x):
                            self.log(x, o, "item", self.getitem(el, ZERO, x), self.getitem(el, ONE, x), node)
                        self.for_loop(a, node, st, body, lambda x: None, set())
                    else:
                        self.dict_spread(st, o, a, node)
                for k, v in kwargs.items():
                    if k == "**":
                        self.dict_spread(st, o, v, node)
                    else:
                        self.log(st, o, "item", const(k), v, node)
                return o
            if name == "collections.defaultdict":
                d = NONE
                if args and args[0].op == "ext":
                    d = {"int": ZERO, "float": const(0.0), "list": None, "dict": None, "set": None}.get(args[0].args[0], NONE)
                    if d is None:
                        return self.alloc(st, "dict", meta=("made", args[0]))
                elif args and args[0].op == "closure":
                    d = self.call(args[0], [], {}, st, node)
                    if d.op == "obj":
                        return self.alloc(st, "dict", meta=("made", args[0]))
                return self.alloc(st, "dict", meta=("default", d))
            if name == "collections.Counter":
                if not args:
                    return self.alloc(st, "dict", meta=("default", ZERO))
                return mk("counter", self.freeze(args[0], st))
            if name == "tuple":
                if not args:
                    return mk("tuple")
                s = self.iter_sources(args[0], st)
                if s is not None and all(x[0] == "vals" for x in s):
                    return mk("tuple", *[v for x in s for v in x[1]])
                return mk("tupleof", self.freeze(args[0], st))
            kind = {"collections.deque": "deque", "frozenset": "set"}.get(name, name)
            o = self.alloc(st, kind) if not args else self.tolist(args[0], st, kind, node)
            most = args[1] if len(args) > 1 else kwargs.get("maxlen", NONE)
            if kind == "deque" and most is not NONE and o.op == "obj":
                self.log(st, o, "bounded", None, most, node)        # drops what does not fit
            return o
        if name in ("numpy.full", "numpy.zeros", "numpy.ones") and len(args) == (2 if name == "numpy.full" else 1) and not kwargs:
            shape, val = self.freeze(args[0], st), args[1] if name == "numpy.full" else const(0.0 if name == "numpy.zeros" else 1.0)
            if shape.op not in ("tuple", "list", "tupleof", "ite") and self.typeof(shape) not in ("list", "tuple") and val.op != "obj":
                o = self.alloc(st, "list")
                self.for_loop(mk("range", ZERO, shape, ONE), node, st, lambda el, y: self.log(y, o, "item", None, val, node), lambda y: None, set())
                return mk("array", self._freeze_obj(o, st.logs))
        if name in STRIP and args:
            a = args[0]
            if name.startswith("numpy") and "dtype" in kwargs or len(args) > 1 and name.startswith("numpy"):
                d = kwargs.get("dtype", args[1] if len(args) > 1 else NONE)
                if show(d).split(".")[-1] in ("'int'", "int", "ext(int)", "ext(bool)", "int64", "int32", "bool"):
                    return mk("asint", self.freeze(a, st))
                if show(d).split(".")[-1].strip("()'") in ("float32", "float16", "single", "half", "f4", "f2", "int8", "int16", "uint8", "uint16"):
                    return mk("array", mk("lessprecise", self.freeze(unarray(a), st)))
            if name.startswith("numpy"):
                return mk("array", self.freeze(a, st) if a.op == "obj" else a)
            return a
        if name == "tqdm.trange":
            return self.ext_call("range", args[:3], {}, st, node)
        if name == "range":
            a = [self.freeze(x, st) for x in args]
            if len(a) == 1:
                return mk("range", ZERO, a[0], ONE)
            return mk("range", a[0], a[1], a[2] if len(a) > 2 else ONE)
        if name == "enumerate":
            return mk("enumerate", args[0], args[1] if len(args) > 1 else kwargs.get("start", ZERO))
        if name == "zip":
            return mk("zip", *args)
        if name == "sorted":
            if kwargs and args[0].op == "obj":
                return mk("sorted", self.freeze(args[0], st), *[mk("kw", k, v) for k, v in sorted(kwargs.items())])
            return mk("sorted", args[0], *[mk("kw", k, v) for k, v in sorted(kwargs.items())])
        if name == "reversed":
            return mk("reversed", args[0])
        if name == "len" and args:
            return self.len_(args[0], st, node)
        if name == "isinstance" and len(args) == 2:
            return self.isinst(args[0], args[1], st)
        if name == "type" and len(args) == 1:
            c = self.cls_of(args[0])
            if c is not None and args[0].op in ("self", "obj", "new"):
                n = mk("class", c.name)
                self.refs[n] = c
                return n
            return mk("typeof", args[0])
        if name == "bool" and args:
            return mk_truthy(self.val_truthy(args[0], st))
        if name in ("int", "str", "float"):
            if not args:
                return const({"int": 0, "str": "", "float": 0.0}[name])
            a = self.freeze(args[0], st)
            if is_const(a) and len(args) == 1:
                try:
                    return const({"int": int, "str": str, "float": float}[name](cval(a)))
                except Exception:
                    pass
            if name == "str":
                return mk("str", a)
            return mk(name, a)
        if name in ("any", "all") and args:
            return self.anyall(name, args[0], st, node)
        if name == "sum" and args:
            return self.sum_(args, st, node)
        if name in ("map", "filter") and len(args) >= 2:
            o = self.alloc(st, "list")
            it = args[1] if len(args) == 2 else mk("zip", *args[1:])

            def body(el, x):
                a = [el] if len(args) == 2 else list(el.args) if el.op == "tuple" else [el]
                if name == "map":
                    self.log(x, o, "item", None, self.call(args[0], a, {}, x, node), node)
                else:
                    c = mk_truthy(self.call(args[0], a, {}, x, node)) if args[0] is not NONE else mk_truthy(el)
                    c = simp(self.freeze(c, x), x.facts())
                    c0 = x.conds
                    x.conds = x.conds + ((c,) if c is not TRUE else ())
                    self.log(x, o, "item", None, el, node)
                    x.conds = c0
            self.for_loop(it, node, st, body, lambda x: None, set())
            return o
        if name == "functools.partial" and args:
            return mk("partial", args[0], mk("tuple", *args[1:]), mk("tuple", *[mk("kw", k, v) for k, v in sorted(kwargs.items())]))
        if name == "functools.reduce" and len(args) >= 2:
            init = args[2] if len(args) > 2 else None
            if init is not None:
                fr = self.frame
                nm = "__reduce__%d" % self.uid
                self.setvar(st, nm, init)

                def body(el, x):
                    cur = x.envs[fr.fid][nm]
                    self.setvar(x, nm, self.call(args[0], [cur, el], {}, x, node))
                self.for_loop(args[1], node, st, body, lambda x: None, {nm})
                return st.envs[fr.fid][nm]
        if name == "getattr" and len(args) >= 2 and is_const(args[1]):
            return self.getattr(args[0], cval(args[1]), st, node)
        if name == "setattr" and len(args) == 3 and is_const(args[1]):
            self.setattr(args[0], cval(args[1]), args[2], st, node)
            return NONE
        if name == "itertools.chain.from_iterable" and args or name == "itertools.chain":
            o = self.alloc(st, "list")
            if name == "itertools.chain":
                for a in args:
                    self.extend(st, o, a, node)
            else:
                def body(el, x):
                    self.extend(x, o, el, node)
                self.for_loop(args[0], node, st, body, lambda x: None, set())
            return o
        if name in ("divmod",) and len(args) == 2:
            return mk("tuple", mk("floordiv", args[0], args[1]), mk("mod", args[0], args[1]))
        if name.startswith("operator.") and short in ("itemgetter", "attrgetter"):
            return mk("getter", short, *args)
        fa = [self.freeze(a, st) for a in args]
        kw = [mk("kw", k, self.freeze(v, st)) for k, v in sorted(kwargs.items())]
        if name in ("numpy.add", "operator.add"):
            return mk_add(*fa)
        if name in ("numpy.subtract", "operator.sub"):
            return mk_sub(*fa)
        if name in ("numpy.multiply", "operator.mul"):
            return mk_mul(*fa)
        if name in ("numpy.divide", "numpy.true_divide", "operator.truediv"):
            return mk_div(*fa)
        if name in ("numpy.transpose",):
            return mk("transpose", fa[0])
        if name in CANON:
            nm = CANON[name]
            if nm == "round" and len(fa) == 1:
                fa = fa + ([kw[0].args[1]] if kw else [ZERO])
                kw = []
            if nm == "rint":
                nm, fa = "round", [fa[0], ZERO]
            if nm in ("deepcopy", "copyof"):
                src = args[0]
                if nm == "copyof" and src.op == "obj" and self.objs[src].kind in ("list", "dict", "set", "deque"):
                    return self.container(src, "copy", [], {}, st, node)
                if nm == "deepcopy" and src.op == "obj" and self.objs[src].kind in ("list", "dict", "set", "deque"):
                    # deep copy of a locally built container: same contents, every element deep-copied
                    return mk_deepcopy(self._freeze_obj(src, st.logs))
                self.emit(st, "call", name, None, args, kwargs, None, node)
                r = self._mutsnap(fa[0], st)
                r = mk_deepcopy(r) if nm == "deepcopy" else mk(nm, r)
                if not self.dry:
                    self.copies[r] = self.copies.get(r, 0) + 1
                t = self.typeof(fa[0])
                if t is not None:
                    self.types[r] = t
                return r
            if nm == "abs" and fa and num(fa[0]):
                return const(abs(cval(fa[0])))
            return mk(nm, *fa, *kw)
        if name in ("min", "max"):
            if not kwargs and all(num(x) for x in fa) and len(fa) > 1:
                return const(min(cval(x) for x in fa) if name == "min" else max(cval(x) for x in fa))
            return mk_minmax(name, *fa) if not kw else mk(name, *fa, *kw)
        if name in ("next",) and args:
            r = self.fresh("ret", "next")
            self.emit(st, "call", "next", None, args, kwargs, r, node)
            return r
        if short and short[0].isupper() and name in BUILTINS:      # exceptions
            return mk("newexc", name, *fa)
        if name in IMPURE or name.startswith(IMPURE_PREFIX) and name not in PATH_TEXT:
            r = self.fresh("ret", name)
            self.emit(st, "call", name, None, args, kwargs, r, node)
            return r
        r = mk("call", name, *fa, *kw)
        self.emit(st, "call", name, None, args, kwargs, r, node)
        return r

    def _mutsnap(self, n, st):
        if n.op != "obj" and st.logs.get(n):
            if any(e.kind not in ("setattr", "loopacc") for e in st.logs[n]):
                return mk("mutated", n, self._snap(n, st))
        return n

    def len_(self, v, st, node):
        if v.op == "ite":
            v = simp(v, st.facts())
            if v.op == "ite":
                return mk_ite(v.args[0], self.len_(v.args[1], st, node), self.len_(v.args[2], st, node))
        if v.op == "tuple":
            return const(len(v.args))
        if is_const(v) and isinstance(cval(v), str):
            return const(len(cval(v)))
        if v.op in ("keys", "items", "values", "tupleof"):
            return self.len_(v.args[0], st, node)
        c = self.cls_of(v)
        if c is not None and c.find("__len__"):
            if self.is_prim(c, "__len__"):
                return self.prim_call(c.find("__len__"), v, [], {}, st, node, c)
            if v.op in ("self", "obj") or not self._overridden(c, "__len__"):
                return self.call_func(c.find("__len__"), [v], {}, st, node, v, c)
        if v.op == "obj":
            fz = self._freeze_obj(v, st.logs)
            return self.len_frozen(fz)
        if v.op in ("list", "set", "dict"):
            return self.len_frozen(v)
        if v.op == "copyof":
            return self.len_(v.args[0], st, node)
        if st.logs.get(v) and any(e.kind not in ("setattr",) for e in st.logs[v]):
            if any(e.kind == "loopacc" and e.value in self.loops for e in st.logs[v]):
                return mk("len", mk("accum", v, [e.value.node for e in st.logs[v] if e.kind == "loopacc" and e.value in self.loops][0]))
            real = [e for e in st.logs[v] if e.kind not in ("setattr", "loopacc")]
            if real:
                return mk("len", mk("mutated", v, self._snap(v, st)))
        if v.op == "attr" and v.args[1] in SAME_SIZE and self.typeof(v) != "opaque":
            return mk("len", mk("attr", v.args[0], SAME_SIZE[v.args[1]]))
        return mk("len", v)

    def len_frozen(self, fz):
        if fz.op == "list":
            total = ZERO
            for s in fz.args:
                kind, _, v, g, loops = s.args
                if kind == "item":
                    lv = ONE
                elif kind == "spread":
                    lv = self.len_frozen(v) if v.op in ("list", "set", "dict") else mk("len", v)
                else:
                    return mk("len", fz)
                if g is not TRUE:
                    if len(loops.args) == 1 and lv is ONE and len(loops.args[0].args) == 2:
                        total = mk_add(total, mk("count", loops.args[0], g))
                        continue
                    if not loops.args:
                        total = mk_add(total, mk_ite(g, lv, ZERO))
                        continue
                    return mk("len", fz)
                if loops.args:
                    if any(len(l.args) > 2 and l.args[2] == "brk" for l in loops.args):
                        return mk("len", fz)
                    if len(loops.args) == 1 and lv is ONE:
                        it = loops.args[0].args[0]
                        total = mk_add(total, mk("len", it) if it.op != "zip" else mk("len", it.args[0]))
                        continue
                    return mk("len", fz)
                total = mk_add(total, lv)
            return total
        if fz.op in ("set", "dict"):
            if not fz.args:
                return ZERO
            if len(fz.args) == 1 and fz.args[0].args[0] == "spread" and fz.op == "dict" and fz.args[0].args[3] is TRUE:
                return mk("len", fz.args[0].args[2])
            if fz.op == "set" and all(s.args[0] == "item" and is_const(s.args[2]) and s.args[3] is TRUE and not s.args[4].args for s in fz.args):
                return const(len({s.args[2] for s in fz.args}))
            if fz.op == "dict" and all(s.args[0] == "item" and is_const(s.args[1]) and s.args[3] is TRUE and not s.args[4].args for s in fz.args):
                return const(len({s.args[1] for s in fz.args}))
        return mk("len", fz)

    def anyall(self, name, v, st, node):
        srcs = self.iter_sources(v, st)
        if srcs is None:
            return mk(name + "_", self.freeze(v, st))
        out = []
        for s in srcs:
            if s[0] == "vals":
                cs = [simp(self.freeze(mk_truthy(self.val_truthy(x, st)), st), st.facts()) for x in s[1]]
                out.append(mk_or(*cs) if name == "any" else mk_or(*[mk_not(c) for c in cs]))
            else:
                loops = [s[1]] if s[0] == "loop" else s[1]
                g = TRUE if s[0] == "loop" else s[2]
                c = self.freeze(mk_truthy(s[2] if s[0] == "loop" else s[3]), st)
                c = c if name == "any" else mk_not(c)
                c = mk_and(g, c)
                for l in reversed(loops):
                    c = mk_any(l.node, c)
                out.append(c)
        r = mk_or(*out)
        return r if name == "any" else mk_not(r)

    def sum_(self, args, st, node):
        srcs = self.iter_sources(args[0], st)
        start = args[1] if len(args) > 1 else ZERO
        if srcs is None:
            return mk("call", "sum", *[self.freeze(a, st) for a in args])
        total = start
        for s in srcs:
            if s[0] == "vals":
                total = mk_add(total, *[mk_ite(x, ONE, ZERO) if is_bool(x) and not is_const(x) else x for x in s[1]])
            else:
                loops = [s[1]] if s[0] == "loop" else s[1]
                g = TRUE if s[0] == "loop" else s[2]
                v = self.freeze(s[2] if s[0] == "loop" else s[3], st)
                if is_bool(v):
                    v = mk_ite(v, ONE, ZERO)
                if any(l.breaks for l in loops):
                    return mk("call", "sum", self.freeze(args[0], st))
                total = mk_add(total, self.mk_sum(loops, mk_ite(g, v, ZERO)))
        return total


def _pend(pend, v):
    for g, x in reversed(pend):
        v = mk_ite(g, x, v)
    return v


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _literal(e):
    for x in ast.walk(e):
        if isinstance(x, (ast.Call, ast.ListComp, ast.Lambda, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
            return False
    return isinstance(e, (ast.Tuple, ast.List, ast.Dict, ast.Set))


def assigned_names(body):
    out = set()
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
                for x in ast.walk(n):
                    if isinstance(x, ast.Nonlocal):
                        out |= set(x.names)
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        todo.extend(ast.iter_child_nodes(n))
    return out


# methods of repository classes that change something or produce a new value on each call
IMPURE_API = {"set_site_state", "set_general_state", "batch_update", "add_step", "load_steps", "set_output", "add_site", "run", "pre_run",
              "get_state_update", "get_random_site", "instantiate_result", "merge_updates", "to_file", "get_img", "copy", "from_struct",
              "grow", "to_gif", "build", "add_particle_to_state", "setup_solid_phase", "build_from", "get_step", "steps", "setup_random_sites"}
PURE_API = {"site_ids", "get_site_state", "all_site_states", "get_general_state", "size", "sites", "site_at", "id_at", "class_at",
            "site_class", "site_location", "get_site", "all_site_classes", "neighbors_of", "get_neighbors", "get_dist", "get_state_update_",
            "get_color_from_cell_state", "get_cell_legend_label", "get_legend", "get_cartesian_coords", "get_fractional_coords",
            "get_periodized_cartesian_coords", "cartesian_periodic_distance", "as_dict", "phases_present", "cell_fraction", "cell_count",
            "get_sites", "get_sites_where_equal", "get_site_count", "get_site_count_where_equal", "all_phases", "neighbors", "get_edge_data",
            "_get_nbhood", "_distance"}
COMMON = {"get", "items", "keys", "values", "append", "update", "copy", "pop", "add", "save", "load", "extend", "close", "build", "run", "index",
          "count", "sort", "remove", "clear", "insert", "join", "split", "read", "write", "show"}
