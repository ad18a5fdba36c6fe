"""Behaviour summaries of entry points (result, aborts, effects, calls) and their comparison with the reference model."""
from collections import Counter

from .compare import EQ, LOCAL_ATTRS, NEQ, UND, Cmp, in_frag, alien
from .interp import IMPURE_API, PURE_API, Interp, Loop, State
from .nodes import *
from .program import AnalysisError, Cls, Func, Program

API = {
    "SimulationState": {"set_site_state", "set_general_state", "batch_update", "copy", "site_ids", "get_site_state", "size", "all_site_states",
                        "get_general_state", "__new__", "as_dict", "__eq__", "from_struct", "from_dict"},
    "SimulationResult": {"add_step", "set_output", "__new__", "steps", "get_step", "load_steps", "__len__", "last_step", "first_step", "from_file",
                         "from_dict", "as_dict", "to_file"},
    "PeriodicStructure": {"add_site", "site_at", "id_at", "class_at", "site_ids", "sites", "site_class", "site_location", "get_site", "all_site_classes",
                          "__new__", "as_dict", "from_dict", "build_from", "has_site"},
    "Lattice": {"__new__", "get_cartesian_coords", "get_fractional_coords", "get_periodized_cartesian_coords", "cartesian_periodic_distance",
                "get_scaled_lattice", "as_dict", "from_dict"},
    "Neighborhood": {"__new__", "neighbors_of"},
    "NeighborhoodBuilder": {"get", "get_neighbors", "__new__"},
    "BasicController": {"get_state_update", "get_random_site", "pre_run", "instantiate_result"},
    "StateAnalyzer": {"get_sites", "get_sites_where_equal", "get_site_count", "get_site_count_where_equal", "__new__"},
    "DiscreteStepAnalyzer": {"cell_fraction", "cell_count", "phases_present", "__new__"},
    "Runner": {"run", "__new__"},
    "Simulation": {"__new__", "state_at"},
    "StructureBuilder": {"build", "__new__"},
    "CellArtist": {"get_color_from_cell_state", "get_cell_legend_label", "__new__"},
    "StructureArtist": {"get_img", "draw", "__new__"},
    "DistanceMap": {"get_dist", "__new__"},
    "DiscreteResultAnalyzer": {"__new__"},
    "PhaseSet": {"__new__"},
}
HINTS = {("SimulationResult", "_stored_states"): ("dict", "SimulationState"), ("SimulationResult", "initial_state"): "SimulationState"}


def api(*names):
    return {n: API[n] for n in names}


class Canon:
    """Rename analysis-generated nodes (call results, objects, closures) by what produced them."""

    def __init__(self, it):
        self.it = it
        self.map = {}
        self.seen = {}
        self.memo = {}
        self.whiles = {}
        self.stack = []

    def c(self, n):
        if not isinstance(n, N):
            return n
        r = self.memo.get(n)
        if r is not None:
            return r
        if n in self.map:
            r = self.map[n]
        elif n.op == "array":
            r = self.c(n.args[0])
        elif n.op in ("ret", "new", "popped"):
            r = mk("Unseen", n.op, n.args[0])
        elif n.op in ("closure",):
            r = self.closure(n)
        elif n.op == "while":
            r = self.whilenode(n)
        elif n.op == "exc":
            r = mk("exc", n.args[0])
        elif n.op in ("opaque", "defaultval"):
            r = n
        elif n.op == "phi":
            r = self.phi(n)
        elif n.op == "objref":
            r = mk("objref")
        elif n.args and any(isinstance(a, N) for a in n.args):
            a = tuple(self.c(x) for x in n.args)
            r = rebuild(n.op, a) if n.op not in ("ite",) else mk_ite(*a)
        else:
            r = n
        self.memo[n] = r
        return r

    def whilenode(self, n):
        """a while loop, by its number and its condition"""
        k = self.whiles.setdefault(n, len(self.whiles))
        c = self.it.whileconds.get(n)
        if c is None or c is TRUE or n in self.stack or len(self.stack) > 4:
            return mk("while", k)
        memo, self.memo = self.memo, {}
        self.stack.append(n)
        r = mk("while", k, self.c(c))
        self.stack.pop()
        self.memo = memo
        return r

    def phi(self, n):
        """a loop-carried variable, by its initial value and its update; a counter by the iteration number"""
        if n in self.stack:
            return mk("acc", self.c(n.args[0]), len(self.stack) - 1 - self.stack.index(n))
        if n not in self.it.phis or len(self.stack) > 4:
            return mk("phi", self.c(n.args[0]))
        init, after, loops, is_while = self.it.phis[n]
        if not is_while and len(loops) == 1 and after.op == "add" and n in after.args:
            inc = mk_sub(after, n)
            lp = loops[0]
            if not contains(inc, n) and not any(x.op == "phi" or x is lp.elem or x is lp.index or (x.op in ("get", "first") and contains(x, lp.index)) for x in sub(inc)):
                return mk_add(self.c(init), mk_mul(self.c(inc), self.c(lp.index)))
        memo, self.memo = self.memo, {}
        self.stack.append(n)
        r = mk("phi", self.c(n.args[0]), self.c(init), self.c(after))
        self.stack.pop()
        self.memo = memo
        return r

    def closure(self, n):
        it = self.it
        if n not in it.closures:
            return mk("closure", "?")
        node, parent = it.closures[n]
        key = ("clo", n)
        if key in self.seen:
            return mk("closure", "rec")
        self.seen[key] = 1
        args = [mk("param", f"λ{i}") for i, _ in enumerate(node.args.args)]
        st = State()
        st.logs = getattr(it, "final_logs", {}) or {}
        st.envs = dict(getattr(it, "final_envs", {}) or {})
        ev = it.events
        it.events = []
        prev, it.frame = it.frame, parent
        try:
            v = it.freeze(it.call(n, args, {}, st, None), st)
        except Exception:
            v = mk("opaque", "closure")
        it.frame = prev
        it.events = ev
        return mk("lambda", self.c(v))

    def register(self, ev, recv, args, loops):
        n = ev.result
        if n is None or n.op not in ("ret", "new", "popped") or n in self.map:
            return
        op = {"ret": "Ret", "new": "New", "popped": "Popped"}[n.op]
        key = (op, ev.name, recv, tuple(args), loops)
        k = 0
        for g in self.seen.get(key, []):
            if mk_and(g, ev.guard) is not FALSE:
                k += 1
        self.seen.setdefault(key, []).append(ev.guard)
        if op == "New":
            r = mk("New", ev.name, *args, k)
        else:
            r = mk(op, ev.name, recv if recv is not None else "", mk("tuple", *args), k)
        t = self.it.types.get(n)
        if t is not None:
            self.it.types.setdefault(r, t)
        self.map[n] = r
        self.memo.pop(n, None)
        self.memo = {}


class Summary:
    def __init__(self):
        self.ret, self.aborts, self.fx, self.events, self.fields = None, {}, {}, [], {}
        self.unknown, self.analysed, self.loc, self.calls = set(), set(), None, 0
        self.retloc = None
        self.partial, self.aliased = [], False


IO = {"open", "write", "read", "writelines", "json.dump", "json.dumps", "json.load", "json.loads", "write_text", "read_text", "pathlib.Path",
      "monty.serialization.dumpfn", "monty.serialization.loadfn", "dumpfn", "loadfn", "zopen", "monty.io.zopen", "close"}
IGNORE = {"print", "tqdm.tqdm", "len", "next", "isinstance"}


def summarize(prog, cls=None, meth=None, func=None, mode="self", prims=(), noinline=(), args=None, ctor=None, hints=True, want=("ret",), fix=None, havoc=(), func_obj=None):
    it = Interp(prog, api(*prims) if not isinstance(prims, dict) else prims, noinline=noinline)
    st = State()
    C = None
    if func_obj is not None:
        f = func_obj
        C = prog.cls(cls) if cls else None
    elif func:
        f = prog.func(func)
    else:
        C = prog.cls(cls)
        f = C.find(meth)
        if f is None:
            raise AnalysisError(f"anchor method {cls}.{meth} not found")
    selfn = None
    if mode == "inst":
        selfn, st = it.new_instance(C, args=ctor)
        if meth != "__init__":
            forget(it, prog, C, selfn, st, havoc)
    elif C is not None and not f.is_classmethod and not f.is_static:
        selfn = mk("self", C.name)
        it.types[selfn] = C
        for (cn, at), t in HINTS.items():
            if C.is_sub(cn):
                try:
                    T = prog.cls(t[1] if isinstance(t, tuple) else t)
                except AnalysisError:
                    continue
                it.types[mk("attr", selfn, at)] = ("dict", None, T) if isinstance(t, tuple) else T
    if fix:
        fix(it, prog, selfn, st)
    e0 = len(it.events)
    v, st, frame = it.entry(f, C, args=args, selfnode=selfn, st=st)
    it.final_logs, it.final_envs = st.logs, st.envs
    s = Summary()
    s.it, s.state = it, st
    cn = Canon(it)
    s.canon = cn
    s.loc = (f.path, f.line, f.qual)
    aborts = {}
    for ev in it.events[e0:]:
        if ev.kind in ("call", "new", "pool", "apply", "mut"):
            recv = cn.c(it.freeze(ev.recv, ev.logs)) if ev.recv is not None else None
            a = [cn.c(it.freeze(x, ev.logs)) for x in ev.args]
            kw = [mk("kw", k, cn.c(it.freeze(x, ev.logs))) for k, x in sorted(ev.kwargs.items())] if ev.name not in prim_names(prims) else []
            loops = tuple(cn.c(l.node) for l in ev.loops)
            if ev.kind == "mut":
                cn.register(ev, mk("objref"), a, loops)
                continue
            cn.register(ev, recv, a + kw, loops)
            res = ev.result
            impure = res is not None and res.op in ("ret", "new")
            if impure and ev.name not in IGNORE:
                s.events.append(dict(name=ev.name, recv=recv, args=a + kw, guard=cn.c(it.freeze(ev.guard, ev.logs)),
                                     loops=tuple(ev.loops), loc=ev.loc, flags=ev.flags, kind=ev.kind, result=cn.c(res), seq=ev.seq))
        elif ev.kind in ("raise", "assert"):
            c = ev.guard
            if ev.kind == "raise":
                x = ev.args[0]
                nm = x.args[0] if x.op in ("newexc", "ext") else ("exc" if x.op != "class" else x.args[0])
            else:
                nm = "AssertionError"
                c = mk_and(c, mk_not(ev.args[0]))
            c = it.freeze(c, ev.logs)
            for l in reversed(ev.loops):
                c = mk_any(l.node, c) if l.kind != "while" else mk("any", l.node, c)
            aborts.setdefault("error", []).append((cn.c(c), ev.loc))
            if c is not FALSE and f.name != "__init__":
                for k, log in ev.logs.items():
                    if k.op == "obj":
                        continue
                    for e in log:
                        if e.kind != "loopacc" and e.seq < ev.seq and tuple(e.loops) == tuple(ev.loops)[:len(e.loops)]:
                            w = mk_and(it.freeze(e.guard, ev.logs), ev.guard if ev.kind == "raise" else mk_and(ev.guard, mk_not(ev.args[0])))
                            if w is not FALSE:
                                s.partial.append((cn.c(k), const(e.key) if e.kind == "setattr" else None, cn.c(it.freeze(w, ev.logs)), e.loc))
    s.aborts = aborts
    s.ret = cn.c(it.freeze(v, st))
    for k, log in st.logs.items():
        ents = [e for e in log if e.kind != "loopacc"]
        if k.op == "obj":               # a local work list that is consumed as it is filled
            if not any(e.kind == "pop" for e in ents) or it.objs[k].kind not in ("list", "deque"):
                continue
            root = mk("queue", len([r for r in s.fx if r.op == "queue"]))
        else:
            root = cn.c(k)
        if not ents:
            continue
        segs, locs = [], []
        last = {}
        for e in ents:
            kk = e.key
            if e.kind == "setattr":
                kk = const(e.key)
            val = cn.c(it.freeze(e.value, st)) if isinstance(e.value, N) else NONE
            kf = cn.c(it.freeze(kk, st)) if isinstance(kk, N) else (kk if kk is not None else "")
            g = cn.c(it.freeze(e.guard, st))
            loops = tuple(e.loops)
            segs.append(mk("seg", e.kind, kf, val, g, mk("loops", *[cn.c(it._loopnode(l)) for l in loops])))
            locs.append(e.loc)
        s.fx[root] = (segs, locs)
    if selfn is not None and selfn.op == "obj":
        fields = {}
        for e in st.logs.get(selfn, ()):
            if e.kind == "setattr":
                fields[e.key] = cn.c(it.freeze(it.read_attr(selfn, e.key, st), st))
        s.fields = fields
    # several copies of one thing, of which some are changed: by value alone they cannot be told apart
    s.aliased = any(n > 1 and any(e.kind not in ("loopacc",) for k, log in st.logs.items() if root_of(k) is r for e in log) for r, n in it.copies.items() if r.op in ("deepcopy", "copyof"))
    s.used = set(it.used)
    s.unknown, s.analysed, s.calls = set(it.unknown), set(it.analysed), it.calls
    return s


def root_of(n):
    while n.args and isinstance(n.args[0], N) and n.op in ("attr", "get", "elem", "accum", "mutated", "accattr"):
        n = n.args[0]
    return n


def forget(it, prog, C, selfn, st, havoc):
    """fields that other operations may have changed since construction hold unknown contents"""
    last = {}
    for e in st.logs.get(selfn, ()):
        if e.kind == "setattr":
            last[e.key] = e
    types = prog.attr_types(C)
    for k, e in last.items():
        v = it.read_attr(selfn, k, st)
        inner = {a.key for x in sub(v) if x.op == "obj" and it.objs.get(x) is not None and it.objs[x].kind == "inst" for a in st.logs.get(x, ()) if a.kind == "setattr"}
        empty = any(x.op == "obj" and it.objs.get(x) is not None and it.objs[x].kind in ("list", "dict", "set", "deque") and not st.logs.get(x) for x in sub(v))
        if k in havoc or inner & set(havoc) or empty:
            n = mk("attr", mk("self", C.name), k)
            it.types.setdefault(mk("self", C.name), C)
            t = types.get(k) or it.typeof(v)
            for (cn, at), h in HINTS.items():
                if at == k and C.is_sub(cn):
                    try:
                        T = prog.cls(h[1] if isinstance(h, tuple) else h)
                        t = ("dict", None, T) if isinstance(h, tuple) else T
                    except AnalysisError:
                        pass
            if t is not None:
                it.types.setdefault(n, t)
            it.log(st, selfn, "setattr", k, n)
    for k in sorted({a for c in C.mro() for a in c.attrs} & set(havoc) - set(last)):
        # a default of the class which somebody sets on an instance
        it.types.setdefault(mk("self", C.name), C)
        it.log(st, selfn, "setattr", k, mk("attr", mk("self", C.name), k))


_pn = {}


def prim_names(prims):
    k = tuple(sorted(prims)) if not isinstance(prims, dict) else tuple(sorted((a, tuple(sorted(b))) for a, b in prims.items()))
    if k not in _pn:
        d = api(*prims) if not isinstance(prims, dict) else prims
        _pn[k] = set().union(*d.values()) if d else set()
    return _pn[k]


class Diff:
    def __init__(self, part, verdict, loc, detail):
        self.part, self.verdict, self.loc, self.detail = part, verdict, loc, detail


def compact(segs):
    """one attribute write per attribute: the value finally left there, under the condition that anything is written at all"""
    out = []
    fold = {}
    for s in segs:
        if s.args[0] != "setattr" or s.args[4].args:
            if s.args[0] == "setattr":
                fold.pop(s.args[1], None)
            out.append(s)
            continue
        _, k, v, g, _l = s.args
        if k in fold:
            i, v0, g0 = fold[k]
            v = mk_ite(g, v, v0) if g is not TRUE else v
            g = mk_or(g, g0)
            out[i] = None
        fold[k] = (len(out), v, g)
        out.append(mk("seg", "setattr", k, v if g is TRUE else simp(v, facts_of(g, True)), g, mk("loops")))
    return [s for s in out if s is not None]


def private(root_key):
    return is_const(root_key) and isinstance(cval(root_key), str) and cval(root_key).startswith("_")


def compare(ref, cur, want=("ret", "fx", "aborts", "events", "fields"), ints=(), events=None, ignore_fx=(), keep_private=True, order=True):
    cmpr = Cmp(ints)
    cmpr.written = tuple([(e["recv"], [s.canon.c(l.node) for l in e["loops"]]) for e in s.events if e["name"] in WRITES_STATE and e["recv"] is not None] for s in (ref, cur))
    out = []
    rejected = mk_and(*[mk_or(*[c for c, _ in s.aborts.get("error", [])]) for s in (ref, cur)])

    def value(a, b):
        r = cmpr.value(a, b)
        if r == NEQ and rejected is not FALSE and rejected is not TRUE:
            # where both reject their input there is nothing to compare
            keep = cmpr.case, cmpr.why
            if cmpr.value(mk_ite(rejected, NONE, a), mk_ite(rejected, NONE, b)) == EQ:
                return EQ
            cmpr.case, cmpr.why = keep
        if r == NEQ and related(a, b):
            cmpr.why = "read from another of the fields that record the same thing"
            return UND
        return r

    if "ret" in want:
        r = value(ref.ret, cur.ret)
        if r == UND and has_inst(ref.ret):
            pass
        out.append(Diff("result", r, cur.loc, _d(cmpr, r, ref.ret, cur.ret)))
    if "aborts" in want:
        a = mk_or(*[c for c, _ in ref.aborts.get("error", [])])
        b = mk_or(*[c for c, _ in cur.aborts.get("error", [])])
        r = cmpr.boolean(a, b)
        if r == NEQ and related(a, b):
            r = UND
        out.append(Diff("rejections", r, (cur.aborts.get("error") or [(0, cur.loc)])[0][1], _d(cmpr, r, a, b)))
    if "fields" in want:
        for k in sorted(set(ref.fields) | set(cur.fields)):
            a, b = ref.fields.get(k), cur.fields.get(k)
            if k.startswith("_"):            # internal state: decisive only where both sides keep it
                r = cmpr.value(a, b) if a is not None and b is not None else UND
                out.append(Diff(f"state {k}", r, cur.loc, _d(cmpr, r, a, b) if a is not None and b is not None else "kept differently"))
                continue
            if a is None:
                continue
            if b is None:
                out.append(Diff(f"field {k}", UND, cur.loc, "attribute no longer set"))
                continue
            r = cmpr.value(a, b)
            out.append(Diff(f"field {k}", r, cur.loc, _d(cmpr, r, a, b)))
    if "fx" in want:
        roots = [k for k in list(ref.fx) + [k for k in cur.fx if k not in ref.fx] if k.op not in ("deepcopy",)]
        made = lambda k: k.op in ("New", "Ret", "Unseen")
        twin, unsure = {}, set()        # objects made by calls whose arguments are written differently
        for k in roots:
            if made(k) and k not in cur.fx:
                for q in cur.fx:
                    if made(q) and q not in ref.fx and q not in twin.values() and q.op == k.op and q.args[0] == k.args[0]:
                        r = cmpr.value(k, q)
                        if r == EQ:
                            twin[k] = q
                            break
                        if r == UND:
                            unsure |= {k, q}
        roots = [k for k in roots if k not in twin.values()]
        for k in roots:
            if any(x(k) for x in ignore_fx):
                continue
            a = compact(ref.fx.get(k, ([], []))[0])
            b = compact(cur.fx.get(twin.get(k, k), ([], []))[0])
            if not keep_private:
                f = lambda s: not (s.args[0] == "setattr" and private(s.args[1]))
                a, b = [s for s in a if f(s)], [s for s in b if f(s)]
            a, b = [z for z in a if not localkey(z)], [z for z in b if not localkey(z)]
            if a == b:
                if a:
                    out.append(Diff(f"changes to {show(k, 3)}", EQ, cur.loc, ""))
                continue
            kind = "dict" if all(s.args[0] in ("setattr", "item", "spread", "del") and isinstance(s.args[1], N) or s.args[0] == "spread" for s in a + b) else "list"
            kept = lambda zs: {z.args[1] for z in zs if z.args[0] == "setattr" and private(z.args[1])}
            odd = kept(a) ^ kept(b)             # internal fields only one side has: not decisive by themselves
            if odd:
                a, b = [z for z in a if z.args[1] not in odd], [z for z in b if z.args[1] not in odd]
            la, lb = mk(kind, *a), mk(kind, *b)
            cmpr.fxroot, cmpr.memo = k, {}
            r = value(la, lb)
            cmpr.fxroot, cmpr.memo = None, {}
            if odd and r == EQ:
                r = UND
            if r == NEQ and not a and all(s.args[0] == "setattr" and private(s.args[1]) for s in b):
                r = UND
            if r == NEQ and k in unsure and k not in twin:
                r = UND
            if r == NEQ and (not external(k) and (not a or not b) or local(k)):
                r = UND
            if k.op == "queue" and r == UND and in_turn(a) and out_of_turn(b):
                r, cmpr.why = NEQ, "queued at the end it is taken from"
            locs = cur.fx.get(k, ([], [cur.loc]))[1] or [cur.loc]
            out.append(Diff(f"changes to {show(k, 3)}", r, locs[-1], _d(cmpr, r, la, lb)))
    if "aborts" in want:
        seen = {p[0] for p in ref.partial}
        new = [p for p in cur.partial if p[0] in ref.fx and p[0] not in seen and not (p[1] is not None and private(p[1])) and external(p[0]) and not local(p[0])]
        if new and ref.aborts:
            k, _, w, loc = new[0]
            out.append(Diff("rejections", NEQ, loc, f"{show(k, 3)} is changed before the operation is rejected (when {show(w, 4)})"))
    if "events" in want:
        names = []
        for e in ref.events + cur.events:
            if e["name"] not in names and (events is None or e["name"] in events):
                names.append(e["name"])
        na, nb = {e["name"] for e in ref.events}, {e["name"] for e in cur.events}
        swapped = (IO & (na - nb)) and (IO & (nb - na))      # another way of writing or reading the same file
        for nm in names:
            a = [evseg(e, ref) for e in ref.events if e["name"] == nm]
            b = [evseg(e, cur) for e in cur.events if e["name"] == nm]
            loc = next((e["loc"] for e in cur.events if e["name"] == nm), cur.loc)
            kind = "list" if order and not nm.startswith(("random.", "numpy.random.")) else "set"
            la, lb = mk(kind, *a), mk(kind, *b)
            cmpr.multi, cmpr.memo = True, {}
            r = value(la, lb)
            if r == NEQ and kind == "list" and nm in COMBINE:
                cmpr.memo = {}
                if Counter(a) == Counter(b) or value(mk("set", *a), mk("set", *b)) == EQ:       # the same calls in another order: what they pass on to each other is in their arguments
                    r = UND
            if r == NEQ and any(e["kind"] == "new" for e in ref.events + cur.events if e["name"] == nm):
                # how often and where an object is made is not observable in itself; what it is made from is
                cmpr.memo = {}
                bare = lambda zs: list(dict.fromkeys(mk("seg", *z.args[:3], TRUE, mk("loops")) for z in zs))
                if value(mk("set", *bare(a)), mk("set", *bare(b))) == EQ:
                    r = UND
            cmpr.multi, cmpr.memo = False, {}
            if r == NEQ and swapped and nm in IO:
                r = UND
            out.append(Diff(f"calls of {nm}", r, loc, _d(cmpr, r, la, lb)))
        out += reordered_calls(ref, cur, {d.part for d in out if d.verdict == EQ})
    return out, cmpr.rows_used


FRONT, BACK = {"itemleft", "extendleft"}, {"item", "spread"}


def in_turn(segs):
    kinds = {z.args[0] for z in segs if z.op == "seg"}
    return "pop" in kinds and not kinds & FRONT and all(z.args[1] == "popleft" for z in segs if z.op == "seg" and z.args[0] == "pop")


def out_of_turn(segs):
    """entries put in, while working through the queue, where the next one is taken out"""
    pops = {z.args[1] for z in segs if z.op == "seg" and z.args[0] == "pop"}
    ends = FRONT if pops == {"popleft"} else BACK if pops == {"pop"} else ()
    return any(z.op == "seg" and z.args[0] in ends and z.args[4].args and not any(w.op == "Popped" and z.args[2] is w for w in sub(z.args[2])) for z in segs)


COMBINE = {"merge_updates"}

# fields of one object that are filled together: either can be read for what they have in common
TOGETHER = [{"_sites", "site_ids", "_location_lookup"}, {"vecs", "_matrix", "dim"}, {"periodic", "_periodic_bool"}]


def related(a, b):
    fa, fb = ({x.args[1] for x in sub(n) if x.op == "attr"} for n in (a, b))
    if any(fa & g and fb & g and fa & g != fb & g for g in TOGETHER):
        return True
    ia, ib = ({x.args[0] for x in sub(n) if x.op == "Ret" and x.args[0] in IO} for n in (a, b))
    return bool(ia and ib and ia != ib)             # the same file read another way


CONTROLLER = {"pre_run", "get_state_update", "get_random_site", "instantiate_result"}
WRITES_STATE = {"batch_update", "set_site_state", "set_general_state"}
READS_STATE = {"get_state_update", "get_random_site", "pre_run"}


def conflict(a, b):
    """operations whose order is observable: the user's controller may keep state of its own and reads the state it is given"""
    return {a, b} <= CONTROLLER or a in WRITES_STATE and b in READS_STATE or b in WRITES_STATE and a in READS_STATE


def reordered_calls(ref, cur, same):
    evs = []
    for s in (ref, cur):
        per = {}
        for e in s.events:
            if e["name"] in CONTROLLER | WRITES_STATE and f"calls of {e['name']}" in same:
                per.setdefault(e["name"], []).append(e)
        evs.append(per)
    a, b = evs
    pair = []
    for nm in a:
        if len(a[nm]) != len(b.get(nm, ())):
            return []
        left = list(b[nm])
        for e in a[nm]:
            k = evseg(e, ref)
            m = next((x for x in left if evseg(x, cur) is k), None) or left[0]
            left.remove(m)
            pair.append((nm, e, m))
    out = []
    for i, (n1, e1, m1) in enumerate(pair):
        for n2, e2, m2 in pair[i + 1:]:
            if n1 != n2 and conflict(n1, n2) and mk_and(e1["guard"], e2["guard"]) is not FALSE and (e1["seq"] < e2["seq"]) != (m1["seq"] < m2["seq"]):
                out.append(Diff(f"order of {n1} and {n2}", NEQ, m1["loc"], f"{n1} and {n2} happen in the other order"))
    return out[:1]


def local(n):
    return any(x.op == "attr" and x.args[1] in LOCAL_ATTRS for x in sub(n))


def localkey(z):
    return z.args[0] == "setattr" and is_const(z.args[1]) and cval(z.args[1]) in LOCAL_ATTRS


def base_of(n):
    while n.args and isinstance(n.args[0], N) and n.op in ("attr", "get", "elem", "index", "values", "items", "keys", "loop", "first", "last", "mcall", "entered", "slice", "copyof"):
        n = n.args[0]
    return n


def external(n):
    """the object written to is one the caller (or a called operation) can see, not a container built here"""
    if n.op == "ite":
        return all(external(x) for x in n.args[1:])
    if n.op == "param" and str(n.args[0]).startswith("*"):
        return False
    return base_of(n).op in ("param", "self", "Ret", "New", "ext", "global", "module", "class", "Popped")


def has_inst(n):
    return any(x.op == "inst" for x in sub(n))


def evseg(e, s):
    return mk("seg", "item", "", mk("tuple", e["recv"] if e["recv"] is not None else NONE, *e["args"]), e["guard"],
              mk("loops", *[s.canon.c(s.it._loopnode(l)) for l in e["loops"]]))


def _d(c, r, a, b):
    if r == EQ:
        return ""
    case = getattr(c, "case", None)
    w = f"expected {show(a, 5)[:600]}; found {show(b, 5)[:600]}"
    if r == UND:
        return f"undecided ({c.why}); {w}"
    if case:
        w += f"; in the case {str(case)[:300]}"
    return w
