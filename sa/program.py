"""Program model: parses the package and resolves names, imports, classes and methods."""
import ast
import os


MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "setdefault", "popitem", "add",
            "discard", "appendleft", "popleft", "extendleft", "rotate", "add_edge", "add_node", "add_edges_from", "add_nodes_from", "move_to_end",
            "difference_update", "intersection_update", "symmetric_difference_update", "fill", "put", "resize", "setflags", "itemset"}


class AnalysisError(Exception):
    """The analysis cannot give an answer (missing anchor, unparsable source)."""


class Func:
    def __init__(self, node, module, cls=None, name=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.decorators = set()
        for d in getattr(node, "decorator_list", []):
            if isinstance(d, ast.Call):
                d = d.func
            if isinstance(d, ast.Name):
                self.decorators.add(d.id)
            elif isinstance(d, ast.Attribute):
                self.decorators.add(d.attr)
        self.is_property = "property" in self.decorators or "cached_property" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators
        self.is_static = "staticmethod" in self.decorators
        self.is_abstract = "abstractmethod" in self.decorators
        self._gen = None
        self.ref_names = None

    @property
    def qual(self):
        return f"{self.cls.name}.{self.name}" if self.cls else self.name

    @property
    def path(self):
        return self.module.path

    @property
    def line(self):
        return self.node.lineno

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = False
            if not isinstance(self.node, ast.Lambda):
                todo = list(self.node.body)
                while todo:
                    n = todo.pop()
                    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        self._gen = True
                        break
                    todo.extend(ast.iter_child_nodes(n))
        return self._gen

    def __repr__(self):
        return f"<Func {self.qual}>"


class Cls:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.attrs, self.ann = {}, {}, {}
        self.bases, self._mro, self._attr_ann, self.ref = [], None, None, None
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, module, self)
                if "setter" in f.decorators or "deleter" in f.decorators:
                    continue
                self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(s.value, ast.Name) and s.value.id in self.methods:
                            self.methods[t.id] = self.methods[s.value.id]
                        else:
                            self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.ann[s.target.id] = s.annotation
                if s.value is not None:
                    self.attrs[s.target.id] = s.value

    def mro(self):
        if self._mro is None:
            def merge(seqs):
                out = []
                seqs = [list(s) for s in seqs if s]
                while seqs:
                    for s in seqs:
                        c = s[0]
                        if not any(c in t[1:] for t in seqs):
                            break
                    else:
                        c = seqs[0][0]
                    out.append(c)
                    seqs = [[x for x in t if x is not c] for t in seqs]
                    seqs = [t for t in seqs if t]
                return out
            self._mro = [self]
            self._mro = [self] + merge([b.mro() for b in self.bases] + [list(self.bases)])
        return self._mro

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m[1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_sub(self, name):
        return any(c.name == name for c in self.mro())

    def __repr__(self):
        return f"<Cls {self.name}>"


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.names = {}      # name -> ('func',F) ('class',C) ('import',mod,name|None) ('expr',node)

    def __repr__(self):
        return f"<Module {self.name}>"


class Program:
    def attr_names(self):
        """every attribute name mentioned in the package"""
        if getattr(self, "_attr_names", None) is None:
            out = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        out.add(n.attr)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        out.add(n.name)
                    elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                        out.add(n.target.id)
            self._attr_names = out
        return self._attr_names

    def assigned_attrs(self):
        """attribute names assigned outside constructors"""
        out = set()
        for m in self.modules.values():
            for f in ast.walk(m.tree):
                if isinstance(f, ast.FunctionDef) and f.name != "__init__":
                    for n in ast.walk(f):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                            out.add(n.attr)
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr"):
                            if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                                out.add(n.args[1].value)
        return out

    def mutated_attrs(self):
        """attribute names that some code outside a constructor assigns, or whose contents it changes"""
        if getattr(self, "_mut_attrs", None) is not None:
            return self._mut_attrs
        out = set()

        def base_attr(n, alias):
            while isinstance(n, (ast.Subscript, ast.Call)):
                n = n.value if isinstance(n, ast.Subscript) else (n.func.value if isinstance(n.func, ast.Attribute) else None)
            if isinstance(n, ast.Attribute):
                return n.attr
            if isinstance(n, ast.Name):
                return alias.get(n.id)
            return None

        for m in self.modules.values():
            for f in ast.walk(m.tree):
                if not isinstance(f, ast.FunctionDef):
                    continue
                init = f.name == "__init__"
                alias = {}
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                        a = base_attr(n.value, alias) if isinstance(n.value, (ast.Attribute, ast.Subscript)) else None
                        if a:
                            alias[n.targets[0].id] = a
                for n in ast.walk(f):
                    a = None
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and not init:
                        a = n.attr
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and not init:
                        a = base_attr(n.value, alias)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and not init:
                        a = base_attr(n.func.value, alias)
                    if a:
                        out.add(a)
        self._mut_attrs = out
        return out

    def __init__(self, root="/repo", overrides=None, package="pylattica", hints=None):
        self.root = root
        self.hints = hints
        self.src = os.path.join(root, "src")
        if not os.path.isdir(os.path.join(self.src, package)):
            self.src = root
        self.package = package
        self.modules, self.classes, self.funcs = {}, {}, {}
        self.subclasses = {}
        overrides = overrides or {}
        base = os.path.join(self.src, package)
        if not os.path.isdir(base):
            raise AnalysisError(f"no package {package} under {root}")
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                full = os.path.join(d, f)
                rel = os.path.relpath(full, self.src)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                if rel in overrides:
                    src = overrides[rel]
                else:
                    with open(full, encoding="utf-8") as fh:
                        src = fh.read()
                try:
                    tree = ast.parse(src, full)
                except SyntaxError as e:
                    raise AnalysisError(f"cannot parse {full}: {e}")
                self.modules[name] = Module(name, os.path.relpath(full, root), tree, is_pkg)
        for m in self.modules.values():
            self._index(m, m.tree.body)
        for m in self.modules.values():
            for kind, *v in list(m.names.values()):
                if kind == "class":
                    c = v[0]
                    c.bases = []
                    for b in c.node.bases:
                        r = self.resolve_expr(m, b)
                        if r and r[0] == "class":
                            c.bases.append(r[1])
        for c in self.all_classes():
            for b in c.mro()[1:]:
                self.subclasses.setdefault(b, []).append(c)
        if hints is not None:
            self._graft(hints)
        self.method_owners = {}
        for c in self.all_classes():
            for mname in c.methods:
                self.method_owners.setdefault(mname, []).append(c)

    def _graft(self, ref):
        """take type annotations of same-named functions from the reference model, so that both are analysed alike"""
        pairs = []
        for c in self.all_classes():
            rc = ref.classes.get(c.name, [])
            if len(rc) == 1:
                pairs += [(f, rc[0].methods[n]) for n, f in c.methods.items() if n in rc[0].methods]
        for n, fs in self.funcs.items():
            rf = ref.funcs.get(n, [])
            if len(fs) == 1 and len(rf) == 1:
                pairs.append((fs[0], rf[0]))
        for f, r in pairs:
            a, b = f.node.args, r.node.args
            xs, ys = a.posonlyargs + a.args, b.posonlyargs + b.args
            if len(xs) == len(ys):
                for x, y in zip(xs, ys):
                    x.annotation = y.annotation
                f.ref_names = [y.arg for y in ys]
            f.node.returns = r.node.returns
        for c in self.all_classes():
            rc = ref.classes.get(c.name, [])
            if len(rc) == 1:
                c.ref = rc[0]

    def _map_type(self, t):
        if isinstance(t, Cls):
            cs = self.classes.get(t.name, [])
            return cs[0] if len(cs) == 1 else None
        if isinstance(t, tuple):
            return tuple(self._map_type(x) for x in t)
        return t

    def all_classes(self):
        for m in self.modules.values():
            for v in m.names.values():
                if v[0] == "class" and v[1].module is m:
                    yield v[1]

    def _index(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s, m)
                m.names[s.name] = ("func", f)
                self.funcs.setdefault(s.name, []).append(f)
            elif isinstance(s, ast.ClassDef):
                c = Cls(s, m)
                m.names[s.name] = ("class", c)
                self.classes.setdefault(s.name, []).append(c)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.names[a.asname] = ("import", a.name, None)
                    else:
                        m.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pk = m.name.split(".")
                    if not m.is_pkg:
                        pk = pk[:-1]
                    pk = pk[: len(pk) - (s.level - 1)]
                    base = ".".join(pk + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == "*":
                        src = self.modules.get(base)
                        if src:
                            m.names.setdefault("*", ("star", base))
                        continue
                    m.names[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("expr", s.value)
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        for x, y in zip(t.elts, s.value.elts):
                            if isinstance(x, ast.Name):
                                m.names[x.id] = ("expr", y)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                m.names[s.target.id] = ("expr", s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._index(m, s.body)
                self._index(m, getattr(s, "orelse", []) or [])
                for h in getattr(s, "handlers", []):
                    self._index(m, h.body)

    def resolve(self, m, name, seen=None):
        """-> ('func',F) | ('class',C) | ('module',M) | ('ext',dotted) | ('expr',module,node) | None"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        e = m.names.get(name)
        if e is None:
            sub = self.modules.get(f"{m.name}.{name}")
            if sub is not None and m.is_pkg:
                return ("module", sub)
            return None
        if e[0] in ("func", "class"):
            return e
        if e[0] == "expr":
            return ("expr", m, e[1])
        if e[0] == "import":
            _, base, nm = e
            if nm is None:
                if base in self.modules:
                    return ("module", self.modules[base])
                return ("ext", base)
            if base in self.modules:
                r = self.resolve(self.modules[base], nm, seen)
                if r is None and f"{base}.{nm}" in self.modules:
                    return ("module", self.modules[f"{base}.{nm}"])
                return r
            return ("ext", f"{base}.{nm}")
        return None

    def resolve_expr(self, m, node):
        if isinstance(node, ast.Name):
            return self.resolve(m, node.id)
        if isinstance(node, ast.Attribute):
            r = self.resolve_expr(m, node.value)
            if r and r[0] == "module":
                return self.resolve(r[1], node.attr)
            if r and r[0] == "ext":
                return ("ext", f"{r[1]}.{node.attr}")
        return None

    def cls(self, name):
        cs = self.classes.get(name, [])
        if len(cs) != 1:
            raise AnalysisError(f"anchor class {name}: found {len(cs)} definitions")
        return cs[0]

    def method(self, cname, mname):
        f = self.cls(cname).find(mname)
        if f is None:
            raise AnalysisError(f"anchor method {cname}.{mname} not found")
        return f

    def func(self, name):
        """A module-level function by name (following re-exports)."""
        fs = self.funcs.get(name, [])
        if len(fs) != 1:
            raise AnalysisError(f"anchor function {name}: found {len(fs)} definitions")
        return fs[0]

    # annotations -> type terms: Cls | ('list',T) | ('dict',K,V) | ('tuple',..) | 'int' ... | None
    def ann_type(self, m, a):
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, ast.Name):
            if a.id in ("int", "str", "float", "bool", "list", "dict", "tuple", "set"):
                return a.id
            if a.id in ("List", "Iterable", "Sequence"):
                return "list"
            if a.id == "Dict":
                return "dict"
            if a.id == "Tuple":
                return "tuple"
            r = self.resolve(m, a.id)
            if r is None and len(self.classes.get(a.id, [])) == 1:
                return self.classes[a.id][0]
            return r[1] if r and r[0] == "class" else None
        if isinstance(a, ast.Attribute):
            r = self.resolve_expr(m, a)
            return r[1] if r and r[0] == "class" else None
        if isinstance(a, ast.Subscript):
            h = a.value.id if isinstance(a.value, ast.Name) else getattr(a.value, "attr", "")
            sl = a.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if h in ("List", "list", "Iterable", "Sequence", "Set", "set", "Iterator", "Generator"):
                return ("list", self.ann_type(m, elts[0]))
            if h in ("Dict", "dict", "Mapping"):
                return ("dict", self.ann_type(m, elts[0]), self.ann_type(m, elts[1]) if len(elts) > 1 else None)
            if h in ("Tuple", "tuple"):
                return "tuple" if len(elts) != 1 else ("list", self.ann_type(m, elts[0]))
            if h == "Optional":
                return self.ann_type(m, elts[0])
            if h == "Union":
                ts = [self.ann_type(m, e) for e in elts]
                ts = [t for t in ts if isinstance(t, Cls)]
                return ts[0] if len(ts) == 1 and len(elts) == 2 else None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            ts = [self.ann_type(m, x) for x in (a.left, a.right)]
            ts = [t for t in ts if t]
            return ts[0] if len(ts) == 1 else None
        return None

    def attr_types(self, cls):
        """attr name -> type term, from assignments self.x = <annotated param | Class(...)> in any method."""
        if cls._attr_ann is not None:
            return cls._attr_ann
        cls._attr_ann = out = {}
        if self.hints is not None and getattr(cls, "ref", None) is not None:
            for k, t in self.hints.attr_types(cls.ref).items():
                t = self._map_type(t)
                if t is not None:
                    out[k] = t
        for c in reversed(cls.mro()):
            for k, a in c.ann.items():
                out[k] = self.ann_type(c.module, a)
            for f in c.methods.values():
                args = f.node.args
                anns = {a.arg: a.annotation for a in args.args + args.kwonlyargs}
                for s in ast.walk(f.node):
                    tgt = val = ann = None
                    if isinstance(s, ast.Assign) and len(s.targets) == 1:
                        tgt, val = s.targets[0], s.value
                    elif isinstance(s, ast.AnnAssign):
                        tgt, val, ann = s.target, s.value, s.annotation
                    if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self"):
                        continue
                    t = self.ann_type(c.module, ann) if ann is not None else None
                    if t is None and isinstance(val, ast.Name) and val.id in anns:
                        t = self.ann_type(c.module, anns[val.id])
                    if t is None and isinstance(val, ast.Call):
                        r = self.resolve_expr(c.module, val.func)
                        if r and r[0] == "class":
                            t = r[1]
                        elif isinstance(val.func, ast.Attribute):
                            # X().get(...) style: declared return type of a uniquely named method
                            owner = self.resolve_expr(c.module, val.func.value.func) if isinstance(val.func.value, ast.Call) else None
                            if owner and owner[0] == "class":
                                mf = owner[1].find(val.func.attr)
                                if mf is not None:
                                    t = self.ann_type(mf.module, mf.node.returns)
                            elif isinstance(val.func.value, ast.Attribute) and isinstance(val.func.value.value, ast.Name) and val.func.value.value.id == "self":
                                ot = out.get(val.func.value.attr)
                                if isinstance(ot, Cls):
                                    mf = ot.find(val.func.attr)
                                    if mf is not None:
                                        t = self.ann_type(mf.module, mf.node.returns)
                    if t is not None:
                        out.setdefault(tgt.attr, t)
        return out
