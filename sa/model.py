"""Program model of /repo's Python sources.

Built from the syntax trees only (ast.parse); nothing from /repo is ever
imported or executed.  Provides: modules, classes with MRO, enums,
functions, module-level bindings, import resolution, a name-resolved call
graph and transitive effect summaries (attribute writes, may-raise).
"""
import ast
import os
import hashlib

REPO = os.environ.get("TRLC_SA_REPO", "/repo")
BUILTIN_TYPES = ("NoneType", "bool", "int", "str", "float", "Fraction",
                 "list", "dict", "set", "frozenset", "tuple", "func", "type",
                 "bytes", "Pattern", "Match", "iter", "?")

MUTATORS = {"append", "add", "update", "extend", "insert", "remove", "pop",
            "clear", "discard", "setdefault", "popitem", "sort", "reverse",
            "difference_update", "intersection_update"}


class FuncInfo:
    def __init__(self, qual, module, cls, node):
        self.qual = qual          # e.g. "Parser.parse_value" / "trlc:main"
        self.module = module
        self.cls = cls            # ClassInfo or None
        self.node = node
        self.name = node.name
        decs = []
        for d in node.decorator_list:
            if isinstance(d, ast.Name):
                decs.append(d.id)
            elif isinstance(d, ast.Attribute):
                decs.append(d.attr)
        self.decorators = decs
        self.is_static = "staticmethod" in decs
        self.is_classmethod = "classmethod" in decs
        self.is_property = "property" in decs
        self.is_abstract = "abstractmethod" in decs
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for p, d in zip(reversed(self.params), reversed(a.defaults)):
            self.defaults[p] = d
        for p, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[p] = d
        self._is_gen = None

    @property
    def is_generator(self):
        if self._is_gen is None:
            self._is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                               for n in walk_same_function(self.node))
        return self._is_gen

    @property
    def file(self):
        return self.module.path

    def loc(self, node=None):
        return "%s:%d" % (self.module.rel, (node or self.node).lineno)

    def __repr__(self):
        return "<F %s>" % self.qual


class ClassInfo:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.base_names = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                self.base_names.append(b.id)
            elif isinstance(b, ast.Attribute):
                self.base_names.append(b.attr)
        self.bases = []
        self.methods = {}
        self.attrs = {}           # class-level assignments name -> expr node
        self.enum_members = []
        self.is_enum = False

    def mro(self):
        rv = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in rv:
                    rv.append(c)
        return rv

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_subclass(self, other_name):
        if any(c.name == other_name for c in self.mro()):
            return True
        return any(n == other_name for c in self.mro()
                   for n in c.base_names)

    def __repr__(self):
        return "<C %s>" % self.name


class ModuleInfo:
    def __init__(self, name, path, rel, source):
        self.name = name
        self.path = path
        self.rel = rel
        self.source = source
        self.tree = ast.parse(source, path)
        self.functions = {}
        self.classes = {}
        self.globals = {}     # name -> expr node
        self.stars = []       # from module import *
        self.imports = {}     # alias -> ("module", dotted) | ("from", dotted, name)


def walk_same_function(fnode):
    """Walk nodes of a function without descending in nested functions,
    lambdas or classes (the nested def node itself is yielded)."""
    stack = list(ast.iter_child_nodes(fnode)) if not isinstance(fnode, list) \
        else list(fnode)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Model:
    def __init__(self, repo=REPO, extra=()):
        self.repo = repo
        self.modules = {}
        self.classes = {}
        self.functions = {}
        self.by_method = {}
        pkg = os.path.join(repo, "trlc")
        files = sorted(f for f in os.listdir(pkg) if f.endswith(".py"))
        for f in files:
            self._load(os.path.join(pkg, f), "trlc/" + f, f[:-3])
        for rel, name in extra:
            p = os.path.join(repo, rel)
            if os.path.exists(p):
                self._load(p, rel, name)
        for c in self.classes.values():
            c.bases = [self.classes[b] for b in c.base_names
                       if b in self.classes]
        for c in self.classes.values():
            c.is_enum = any(b in ("Enum", "IntEnum", "Flag")
                            for k in c.mro() for b in k.base_names)
            if c.is_enum:
                c.enum_members = [n for n in c.attrs]
        self.universe = frozenset(self.classes) | frozenset(BUILTIN_TYPES)
        self._sub_cache = {}
        self._effects = None
        self.has_bool = frozenset(
            c.name for c in self.classes.values()
            if c.lookup("__len__") or c.lookup("__bool__"))

    def digest(self):
        h = hashlib.sha256()
        for m in sorted(self.modules.values(), key=lambda m: m.rel):
            h.update(m.rel.encode())
            h.update(m.source.encode())
        return h.hexdigest()

    def _load(self, path, rel, name):
        with open(path, "r", encoding="UTF-8") as fd:
            src = fd.read()
        m = ModuleInfo(name, path, rel, src)
        self.modules[name] = m
        for n in m.tree.body:
            self._top(m, n)

    def _top(self, m, n):
        if isinstance(n, (ast.If, ast.Try)):
            bodies = [n.body, n.orelse]
            if isinstance(n, ast.Try):
                bodies += [h.body for h in n.handlers] + [n.finalbody]
            for b in bodies:
                before = dict(m.globals)
                for s in b:
                    self._top(m, s)
                if isinstance(n, ast.Try) and any(
                        b is h.body for h in n.handlers):
                    m.globals.update(before)      # what is available
        elif isinstance(n, ast.FunctionDef):
            fi = FuncInfo("%s:%s" % (m.name, n.name), m, None, n)
            m.functions[n.name] = fi
            self.functions[fi.qual] = fi
        elif isinstance(n, ast.ClassDef):
            ci = ClassInfo(n.name, m, n)
            m.classes[n.name] = ci
            key = n.name if n.name not in self.classes \
                else m.name + "." + n.name
            ci.name = key
            self.classes[key] = ci
            for s in n.body:
                if isinstance(s, ast.FunctionDef):
                    if any(isinstance(d, ast.Attribute) and
                           d.attr == "setter" for d in s.decorator_list):
                        continue
                    fi = FuncInfo("%s.%s" % (key, s.name), m, ci, s)
                    ci.methods[s.name] = fi
                    self.functions[fi.qual] = fi
                    self.by_method.setdefault(s.name, []).append(fi)
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Name):
                    ci.attrs[s.targets[0].id] = s.value
                elif isinstance(s, ast.AnnAssign) and s.value is not None \
                        and isinstance(s.target, ast.Name):
                    ci.attrs[s.target.id] = s.value
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    m.globals[t.id] = n.value
        elif isinstance(n, ast.AnnAssign):
            if isinstance(n.target, ast.Name) and n.value is not None:
                m.globals[n.target.id] = n.value
        elif isinstance(n, ast.Import):
            for a in n.names:
                m.imports[a.asname or a.name.split(".")[0]] = \
                    ("module", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name == "*":
                    m.stars.append(n.module or "")
                    continue
                m.imports[a.asname or a.name] = ("from", n.module or "",
                                                 a.name)

    # -- resolution ------------------------------------------------------
    def find_module(self, dotted):
        """trlc.ast -> module 'ast' ; trlc -> None"""
        if dotted.startswith("trlc."):
            return self.modules.get(dotted[5:])
        return None

    def resolve_global(self, module, name, depth=0):
        """-> ('class', ClassInfo) | ('func', FuncInfo) | ('expr', module,
        node) | ('module', ModuleInfo) | ('ext', dotted) | None"""
        if name in module.functions:
            return ("func", module.functions[name])
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.globals:
            return ("expr", module, module.globals[name])
        if name in module.imports and depth < 5:
            imp = module.imports[name]
            if imp[0] == "module":
                mm = self.find_module(imp[1])
                return ("module", mm) if mm else ("ext", imp[1])
            dotted, orig = imp[1], imp[2]
            if dotted == "trlc":
                mm = self.modules.get(orig)
                if mm:
                    return ("module", mm)
            mm = self.find_module(dotted)
            if mm:
                r = self.resolve_global(mm, orig, depth + 1)
                if r:
                    return r
            return ("ext", dotted + "." + orig)
        for dotted in module.stars:
            mm = self.find_module(dotted)
            if mm and depth < 5:
                r = self.resolve_global(mm, name, depth + 1)
                if r:
                    return r
        return None

    def subclasses(self, name):
        """All model class names that are subclass of name (incl. itself)."""
        if name not in self._sub_cache:
            if name in self.classes:
                s = frozenset(c.name for c in self.classes.values()
                              if any(k.name == name for k in c.mro()))
            elif name == "int":
                s = frozenset(["int", "bool"])
            elif name == "object":
                s = self.universe
            elif name in BUILTIN_TYPES:
                s = frozenset([name])
                s |= frozenset(c.name for c in self.classes.values()
                               if any(name in k.base_names
                                      for k in c.mro()))
            else:
                s = frozenset(c.name for c in self.classes.values()
                              if any(name in k.base_names
                                     for k in c.mro())) | frozenset(["?"])
            self._sub_cache[name] = s
        return self._sub_cache[name]

    def func(self, qual):
        return self.functions.get(qual)

    def method(self, cls, name):
        c = self.classes.get(cls)
        return c.lookup(name) if c else None

    # -- light receiver typing and call resolution -------------------------
    CONTAINERISH = MUTATORS | {"get", "items", "values", "keys", "match",
                               "copy", "close", "read", "write", "join",
                               "count", "index", "format", "split", "strip",
                               "replace", "group"}

    def attr_types(self):
        """attribute name -> frozenset of model class names it may hold
        (union over every typed `self.f = ...`), best effort"""
        if getattr(self, "_at", None) is not None:
            return self._at
        at = {}
        for f in self.functions.values():
            pt = self.assert_types(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        isinstance(n.targets[0], ast.Attribute):
                    t = None
                    v = n.value
                    if isinstance(v, ast.Name):
                        t = pt.get(v.id)
                    elif isinstance(v, ast.Call):
                        r = self.resolve_expr(f.module, v.func)
                        if r and r[0] == "class":
                            t = frozenset([r[1].name])
                        elif r and r[0] == "func" and r[1].name == \
                                "create_global_table":
                            t = frozenset(["Symbol_Table"])
                    if t:
                        at.setdefault(n.targets[0].attr, set()).update(t)
        self._at = {k: frozenset(v) for k, v in at.items()}
        return self._at

    def resolve_expr(self, module, e):
        """resolve Name / module.attr / Class.attr expression"""
        if isinstance(e, ast.Name):
            return self.resolve_global(module, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(module, e.value)
            if b is None:
                return None
            if b[0] == "module":
                return self.resolve_global(b[1], e.attr)
            if b[0] == "class":
                m = b[1].lookup(e.attr)
                if m is not None:
                    return ("func", m)
                return None
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    def recv_types(self, fi, e, depth=0):
        """frozenset of model class names for the receiver expression, or
        None when nothing is known"""
        if depth > 4:
            return None
        if isinstance(e, ast.Name):
            if e.id == "self" and fi.cls is not None:
                return self.subclasses(fi.cls.name)
            cache = getattr(fi, "_atypes", None)
            if cache is None:
                cache = self.assert_types(fi)
                fi._atypes = cache
            t = cache.get(e.id)
            if t:
                t = frozenset(x for x in t if x in self.classes)
                return t or None
            # single local assignment
            vals = []
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Assign):
                    for tg in n.targets:
                        if isinstance(tg, ast.Name) and tg.id == e.id:
                            vals.append(n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for tg in ast.walk(n.target):
                        if isinstance(tg, ast.Name) and tg.id == e.id:
                            vals.append(None)
            rv = frozenset()
            for v in vals:
                if isinstance(v, ast.Call):
                    r = self.resolve_expr(fi.module, v.func)
                    if r and r[0] == "class":
                        rv |= frozenset([r[1].name])
                        continue
                elif isinstance(v, (ast.Attribute, ast.Name)):
                    t = self.recv_types(fi, v, depth + 1)
                    if t:
                        rv |= t
                        continue
                elif isinstance(v, (ast.List, ast.Dict, ast.Set, ast.Tuple,
                                    ast.Constant, ast.ListComp)):
                    rv |= frozenset(["#"])
                    continue
                return None
            return rv or None
        if isinstance(e, ast.Attribute):
            return self.attr_types().get(e.attr)
        if isinstance(e, ast.Call):
            r = self.resolve_expr(fi.module, e.func)
            if r and r[0] == "class":
                return frozenset([r[1].name])
            return None
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.Constant,
                          ast.JoinedStr)):
            return frozenset(["#"])
        return None

    def call_targets(self, fi, call):
        """list of FuncInfo this call may reach inside the repository"""
        key = id(call)
        cache = self.__dict__.setdefault("_ct", {})
        if key in cache:
            return cache[key][1]
        rv = self._call_targets(fi, call)
        cache[key] = (call, rv)
        return rv

    def _call_targets(self, fi, call):
        f = call.func
        if isinstance(f, ast.Name):
            # nested function?
            for n in walk_same_function(fi.node):
                if isinstance(n, ast.FunctionDef) and n.name == f.id:
                    return []      # analysed as part of the parent
            r = self.resolve_global(fi.module, f.id)
            if r and r[0] == "func":
                return [r[1]]
            if r and r[0] == "class":
                ini = r[1].lookup("__init__")
                return [ini] if ini else []
            return []
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and \
                    isinstance(f.value.func, ast.Name) and \
                    f.value.func.id == "super" and fi.cls:
                for c in fi.cls.mro()[1:]:
                    if f.attr in c.methods:
                        return [c.methods[f.attr]]
                return []
            r = self.resolve_expr(fi.module, f)
            if r and r[0] == "func":
                return [r[1]]
            if r and r[0] == "class":
                ini = r[1].lookup("__init__")
                return [ini] if ini else []
            if r and r[0] == "ext":
                return []
            ms = self.by_method.get(f.attr, [])
            if not ms:
                return []
            t = self.recv_types(fi, f.value)
            if t is not None:
                found = []
                for c in sorted(t):
                    if c in self.classes:
                        m = self.classes[c].lookup(f.attr)
                        if m is not None and m not in found:
                            found.append(m)
                return found
            if f.attr in self.CONTAINERISH:
                return []
            return list(ms)
        return []

    def property_reads(self, fi):
        """properties possibly evaluated by attribute reads in fi"""
        rv = []
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                for m in self.by_method.get(n.attr, ()):
                    if m.is_property and m not in rv:
                        rv.append(m)
        return rv

    def callees(self, fi):
        if not hasattr(fi, "_callees"):
            rv = []
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Call):
                    for t in self.call_targets(fi, n):
                        if t not in rv:
                            rv.append(t)
            fi._callees = rv
        return fi._callees

    # -- effects (transitive) ----------------------------------------------
    def effects(self):
        """qual -> (frozenset of attribute names possibly written,
        frozenset of container attribute names possibly mutated,
        may_raise: bool).  Writes a constructor makes to the object under
        construction are not effects."""
        if self._effects is not None:
            return self._effects
        direct = {}
        for q, f in self.functions.items():
            w, c, r = set(), set(), False
            ini = f.name == "__init__"

            def own(e):
                return ini and isinstance(e, ast.Name) and e.id == "self"

            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    if not own(n.value):
                        w.add(n.attr)
                elif isinstance(n, ast.Subscript) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    if isinstance(n.value, ast.Attribute):
                        if not own(n.value.value):
                            c.add(n.value.attr)
                    elif isinstance(n.value, ast.Name):
                        c.add("$" + n.value.id)
                elif isinstance(n, ast.AugAssign) and \
                        isinstance(n.target, ast.Attribute):
                    c.add(n.target.attr)
                elif isinstance(n, ast.Raise):
                    r = True
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and \
                            n.func.attr in MUTATORS:
                        v = n.func.value
                        if isinstance(v, ast.Attribute):
                            if not own(v.value):
                                c.add(v.attr)
                        elif isinstance(v, ast.Name):
                            c.add("$" + v.id)
            direct[q] = [w, c, r]
        changed = True
        while changed:
            changed = False
            for q, f in self.functions.items():
                d = direct[q]
                for t in self.callees(f):
                    e = direct.get(t.qual)
                    if e is None:
                        continue
                    if not e[0] <= d[0]:
                        d[0] |= e[0]
                        changed = True
                    if not e[1] <= d[1]:
                        d[1] |= e[1]
                        changed = True
                    if e[2] and not d[2]:
                        d[2] = True
                        changed = True
        self._effects = {q: (frozenset(d[0]), frozenset(d[1]), d[2])
                         for q, d in direct.items()}
        return self._effects

    # -- inferred field types ----------------------------------------------
    def field_types(self):
        """(class name, field) -> frozenset(type names): fields assigned
        only in __init__ from an assert-typed parameter or a
        constructor."""
        if getattr(self, "_ft", None) is not None:
            return self._ft
        writes = {}     # field -> set of (func qual)
        for q, f in self.functions.items():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.ctx, ast.Store):
                    writes.setdefault(n.attr, set()).add(q)
        ft = {}
        for c in self.classes.values():
            ini = c.methods.get("__init__")
            if not ini:
                continue
            ptypes = self.assert_types(ini)
            for n in walk_same_function(ini.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        isinstance(n.targets[0], ast.Attribute) and \
                        isinstance(n.targets[0].value, ast.Name) and \
                        n.targets[0].value.id == "self":
                    fld = n.targets[0].attr
                    t = None
                    if isinstance(n.value, ast.Name):
                        t = ptypes.get(n.value.id)
                    elif isinstance(n.value, ast.Call) and \
                            isinstance(n.value.func, ast.Name) and \
                            n.value.func.id in self.classes:
                        t = frozenset([n.value.func.id])
                    elif isinstance(n.value, ast.List):
                        t = frozenset(["list"])
                    elif isinstance(n.value, ast.Dict) or \
                            isinstance(n.value, ast.Call) and \
                            isinstance(n.value.func, ast.Name) and \
                            n.value.func.id in ("OrderedDict", "dict"):
                        t = frozenset(["dict"])
                    other = [w for w in writes.get(fld, ())
                             if w != ini.qual]
                    # writes in unrelated __init__s to their own self are ok
                    bad = False
                    for w in other:
                        wf = self.functions[w]
                        if wf.name == "__init__" and wf.cls and \
                                wf.cls.name != c.name and \
                                not wf.cls.is_subclass(c.name) and \
                                not c.is_subclass(wf.cls.name):
                            continue
                        bad = True
                    if t and not bad:
                        key = (c.name, fld)
                        ft[key] = (ft[key] & t) if key in ft and False \
                            else t
        self._ft = ft
        return ft

    def assert_types(self, fi):
        """param -> frozenset of type names from leading asserts"""
        rv = {}
        for n in walk_same_function(fi.node):
            if isinstance(n, ast.Assert):
                for conj in (n.test.values if isinstance(n.test, ast.BoolOp)
                             and isinstance(n.test.op, ast.And)
                             else [n.test]):
                    self._assert_one(fi, conj, rv)
        return rv

    def _assert_one(self, fi, t, rv):
        alts = t.values if isinstance(t, ast.BoolOp) and \
            isinstance(t.op, ast.Or) else [t]
        name = None
        types = frozenset()
        for a in alts:
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and \
                    a.func.id == "isinstance" and len(a.args) == 2 and \
                    isinstance(a.args[0], ast.Name):
                nm = a.args[0].id
                ts = self.type_names(a.args[1])
            elif isinstance(a, ast.Compare) and len(a.ops) == 1 and \
                    isinstance(a.ops[0], ast.Is) and \
                    isinstance(a.left, ast.Name) and \
                    isinstance(a.comparators[0], ast.Constant) and \
                    a.comparators[0].value is None:
                nm = a.left.id
                ts = frozenset(["NoneType"])
            else:
                return
            if ts is None or (name is not None and nm != name):
                return
            name = nm
            types |= ts
        if name and len(t.values if isinstance(t, ast.BoolOp) else [1]):
            rv[name] = types

    def type_names(self, node):
        if isinstance(node, ast.Tuple):
            s = frozenset()
            for e in node.elts:
                x = self.type_names(e)
                if x is None:
                    return None
                s |= x
            return s
        nm = None
        if isinstance(node, ast.Name):
            nm = node.id
        elif isinstance(node, ast.Attribute):
            nm = node.attr
        if nm is None:
            return None
        if nm in self.classes or nm in BUILTIN_TYPES:
            return self.subclasses(nm)
        return None
