"""Obligations: an entry point of the analysed program against the same entry point of the reference model."""
import ast
import os
import time

from . import local
from .compare import EQ, LOCAL_ATTRS, NEQ, UND
from .nodes import *
from .program import AnalysisError, Program
from .interp import Interp
from .summary import API, Diff, api, compare, summarize

HERE = os.path.dirname(os.path.abspath(__file__))
CATS = ("result", "rejections", "fields", "effects")


def category(part):
    if part == "result":
        return "result"
    if part == "rejections":
        return "rejections"
    if part.startswith("field "):
        return "fields"
    return "effects"


class Level:
    def __init__(self, name, mode="self", prims=(), noinline=(), drop=()):
        self.name, self.mode, self.prims, self.noinline, self.drop = name, mode, prims, noinline, drop


INLINE = Level("inlined")
CALLS = Level("api-calls", prims=tuple(API))
THIN = Level("primitive-calls", prims=tuple(API), drop="thin")       # operations that only rephrase another one are followed
OBJECT = Level("object", mode="inst")
DEFAULT = (INLINE, CALLS, OBJECT)
RUNNERS = dict(prims=tuple(a for a in API if a not in ("Runner",)), noinline=("merge_updates",), drop=("set_output",))
RUN = Level("run", **RUNNERS)
RUN_OBJ = Level("run-object", mode="inst", **RUNNERS)
ENTRY_LEVELS = {"SynchronousRunner.run": (RUN, RUN_OBJ), "AsynchronousRunner.run": (RUN, RUN_OBJ)}
INTS = {}


class Verdict:
    """outcome of one obligation (entry x category)"""

    def __init__(self, entry, cat, verdict, level, diffs, loc):
        self.entry, self.cat, self.verdict, self.level, self.diffs, self.loc = entry, cat, verdict, level, diffs, loc
        self.at = {}


class World:
    def __init__(self, root="/repo", overrides=None):
        self.root = root
        self.ref = Program(os.path.join(HERE, "model"))
        self.cur = Program(root, overrides=overrides, hints=self.ref)
        a, b = self.ref.attr_names(), self.cur.attr_names()
        self.new_attrs = b - a
        LOCAL_ATTRS.clear()
        LOCAL_ATTRS.update(b - a)
        if b - a:                       # something may have been renamed
            LOCAL_ATTRS.update(x for x in a - b if x.startswith("_"))
        NONNULL_ATTRS.clear()
        NONNULL_ATTRS.update(nonnull(self.ref) & nonnull(self.cur))
        self.havoc = self.ref.mutated_attrs() | self.cur.mutated_attrs()
        self.cache = {}
        self.entry_cache = {}
        self.rows = 0
        self.analysed = set()
        self.calls = 0
        self.unknown = set()

    def prims(self, level, prog, cls, meth):
        """the API methods kept as calls at this level: everything but the entry itself and constructors of its own class"""
        out = {}
        C = prog.cls(cls) if cls else None
        for n in level.prims:
            ms = set(API[n])
            if C is not None and C.is_sub(n):
                ms -= {meth}
            if level.drop == "thin":
                ms = {m for m in ms if (n, m) not in self.thin()}
            else:
                ms -= set(level.drop)
            out[n] = ms
        return out

    def thin(self):
        """operations of the API that are one expression over others, without a loop of their own"""
        if not hasattr(self.ref, "thin_ops"):
            out = set()
            for n, ms in API.items():
                C = self.ref.cls(n)
                for m in ms:
                    f = C.find(m)
                    if f is None or f.is_generator or m == "copy" or n in ("BasicController", "StructureArtist", "CellArtist", "NeighborhoodBuilder", "Runner"):
                        continue
                    body = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                    if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None and not any(
                            isinstance(x, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.Lambda)) for x in ast.walk(body[0])):
                        out.add((n, m))
            self.ref.thin_ops = out
        return self.ref.thin_ops

    def summary(self, which, entry, level):
        key = (which, entry, level.name)
        if key not in self.cache:
            prog = self.ref if which == "ref" else self.cur
            cls, _, meth = entry.rpartition(".")
            try:
                if cls:
                    self.cache[key] = summarize(prog, cls, meth, havoc=self.havoc, mode=level.mode, prims=self.prims(level, self.ref, cls, meth), noinline=level.noinline)
                else:
                    self.cache[key] = summarize(prog, func=meth, prims=self.prims(level, self.ref, None, None), noinline=level.noinline)
            except AnalysisError as e:
                self.cache[key] = e
            except Exception as e:          # outside what the analyser understands: nothing is decided
                if which == "ref":
                    raise
                self.cache[key] = AnalysisError(f"{type(e).__name__}: {e}")
        r = self.cache[key]
        if isinstance(r, AnalysisError) and which == "ref":
            raise r
        return r

    def levels(self, entry):
        if entry in ENTRY_LEVELS:
            return ENTRY_LEVELS[entry]
        cls, _, meth = entry.rpartition(".")
        if not cls:
            return (INLINE, CALLS)
        f = self.ref.cls(cls).find(meth)
        if meth == "__init__":
            return (INLINE, OBJECT)
        if f is not None and (f.is_classmethod or f.is_static):
            return (INLINE, CALLS)
        return DEFAULT

    def entry(self, entry):
        """-> {category: Verdict}"""
        if entry in self.entry_cache:
            return self.entry_cache[entry]
        per = {}
        for level in self.levels(entry) + ((THIN,) if CALLS in self.levels(entry) else ()):
            if level is THIN:
                x, y = (self.cache.get((w, entry, CALLS.name)) for w in ("ref", "cur"))
                if not per or isinstance(y, AnalysisError) or x is None or y is None or x.used == y.used or all(any(v == EQ for v, *_ in vs) for vs in per.values()):
                    continue
            a = self.summary("ref", entry, level)
            b = self.summary("cur", entry, level)
            if isinstance(b, AnalysisError):
                for c in CATS:
                    per.setdefault(c, []).append((UND, level, [Diff("entry", UND, None, str(b))], None))
                continue
            self.analysed |= b.analysed
            self.calls += b.calls
            self.unknown |= b.unknown
            try:
                ds, rows = compare(a, b, ints=INTS.get(entry, ()))
            except Exception as e:
                ds, rows = [Diff(p, UND, b.loc, f"{type(e).__name__}: {e}") for p in ("result", "rejections", "field *", "calls")], 0
            self.rows += rows
            cats = {}
            for d in ds:
                cats.setdefault(category(d.part), []).append(d)
            if level.mode == "inst":        # what is written to the object shows in its fields
                cats["effects"] = cats.get("effects", []) + cats.get("fields", [])
            # at the call level a difference is only decisive between the same set of calls
            names_a, names_b = {e["name"] for e in a.events}, {e["name"] for e in b.events}
            for c in CATS:
                xs = cats.get(c, [])
                if c == "fields" and level.mode != "inst":
                    continue
                if all(d.verdict == EQ for d in xs):
                    v = EQ
                elif any(d.verdict == NEQ for d in xs):
                    v = NEQ
                else:
                    v = UND
                if v == EQ and level not in (CALLS, THIN) and c in ("effects", "result") and (a.aliased or b.aliased) and CALLS in self.levels(entry):
                    v = UND
                per.setdefault(c, []).append((v, level, xs, b.loc))
            if all(vs[-1][0] == EQ for vs in per.values()):
                break
        # with the operations kept as calls, what happens shows in the calls: no part is settled while those differ
        calls = {c: v for c, vs in per.items() for v, level, _, _ in vs if level in (CALLS, RUN, RUN_OBJ)}
        thin = {c: v for c, vs in per.items() for v, level, _, _ in vs if level is THIN}
        if calls.get("effects", EQ) != EQ:
            for c, vs in per.items():
                if c != "effects":
                    per[c] = [(UND if v == EQ and level is CALLS else v, level, xs, loc) for v, level, xs, loc in vs]
        if thin.get("effects", EQ) != EQ:
            for c, vs in per.items():
                if c != "effects":
                    per[c] = [(UND if v == EQ and level is THIN else v, level, xs, loc) for v, level, xs, loc in vs]
        # and a difference there is decisive only when the same operations are used
        for lv, there in ((CALLS, calls), (THIN, thin)):
            a, b = (self.cache.get((w, entry, lv.name)) for w in ("ref", "cur"))
            if a is not None and b is not None and not isinstance(b, AnalysisError):
                if a.used != b.used:
                    for c, vs in per.items():
                        per[c] = [(UND if v == NEQ and level is lv else v, level, xs, loc) for v, level, xs, loc in vs]
                elif there.get("effects") == NEQ:
                    # nothing else decided what the calls amount to
                    vs = per["result"]
                    if all(v != EQ for v, *_ in vs) and not any(v == NEQ for v, *_ in vs):
                        x = next(x for x in per["effects"] if x[1] is lv)
                        per["result"] = vs + [x]
        out = {}
        for c, vs in per.items():
            v = self.combine(vs)
            out[c] = Verdict(entry, c, *v)
            out[c].at = {level.name: (x, ds) for x, level, ds, _ in vs}
        if any(v.verdict == UND for v in out.values()):
            self.locally(entry, out)
        self.entry_cache[entry] = out
        return out

    def locally(self, entry, out):
        """what the summaries leave open is settled by a single local difference, where there is exactly one"""
        ua, ub = set(), set()
        for lv in self.levels(entry):
            a, b = (self.cache.get((w, entry, lv.name)) for w in ("ref", "cur"))
            if a is not None and b is not None and not isinstance(b, AnalysisError):
                ua |= a.analysed
                ub |= b.analysed
        v, e, ds = local.decide(self, ua, ub)
        if v == NEQ:
            loc = (e.fc.path, e.line, e.fc.qual)
            for c, x in out.items():
                if x.verdict == UND:
                    ds2 = [Diff(f"{e.kind} at line {e.line}: {d.part}", NEQ, loc, d.detail) for d in ds]
                    at = x.at
                    out[c] = Verdict(entry, c, NEQ, "local difference", ds2, loc)
                    out[c].at = at

    def combine(self, vs):
        for v, level, xs, loc in vs:
            if v == EQ:
                return EQ, level.name, xs, loc
        for v, level, xs, loc in vs:
            if v == NEQ and level not in (CALLS, THIN):
                return NEQ, level.name, xs, loc
        for v, level, xs, loc in vs:
            if v == NEQ:
                return NEQ, level.name, xs, loc
        v, level, xs, loc = vs[0]
        return UND, level.name, xs, loc

    def changed_callee(self, entry, cat):
        """an API operation used by the entry whose own behaviour differs, when the entry with everything inlined differs as well"""
        v = self.entry(entry)[cat]
        full = [x for n, x in v.at.items() if n not in (CALLS.name, THIN.name)]
        if not full or not any(x[0] == NEQ for x in full):
            return None
        s = self.summary("ref", entry, CALLS)
        for used in sorted(s.used):
            if used == entry:
                continue
            try:
                w = self.entry(used)
            except AnalysisError:
                continue
            for c, x in w.items():
                if x.verdict == NEQ:
                    return used, [d for d in x.diffs if d.verdict == NEQ]
        return None


def nonnull(prog):
    """attributes that hold something other than None from construction on: no constructor leaves None in one, nothing else assigns it"""
    again = prog.assigned_attrs()
    yes, no = set(), set(again)
    for C in prog.all_classes():
        f = C.find("__init__")
        if f is None or f.cls is not C:
            continue
        try:
            it = Interp(prog, api())
            selfn, st = it.new_instance(C)
            keys = {e.key for e in st.logs.get(selfn, ()) if e.kind == "setattr"}
            for k in keys:
                v = it.freeze(it.read_attr(selfn, k, st), st)
                (yes if k.startswith("_") and mk_isnone(v) is FALSE else no).add(k)
        except Exception:
            no |= {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    return yes - no
