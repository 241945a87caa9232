"""C24: what the tool does depends on its input only.

A flow analysis with summaries.  Sets and the listing of a directory have no
order of their own; sorting gives one.  A place where the order becomes
visible (a text built from the members, a message, the choice of one member)
must not be reached by something without order.
"""
import ast

#: S: set, L: sequence and D: mapping whose order is not determined
BARE = (None, None)
UNORDERED = ("S", "L", "D")
SETS = ("set", "frozenset")
KEEP = ("list", "tuple", "iter", "enumerate", "reversed", "zip", "map",
        "filter", "deque", "chain")
MAPPINGS = ("dict", "OrderedDict", "Counter", "fromkeys")
NEUTRAL = ("sorted", "len", "any", "all", "sum", "min", "max", "bool",
           "isinstance", "issubclass", "hasattr")
LISTINGS = ("os.listdir", "os.scandir", "glob.glob", "glob.iglob")
LISTING_METHODS = ("iterdir", "rglob")
CLOCKS = ("time.", "random.", "uuid.", "secrets.", "datetime.datetime.now",
          "datetime.now", "datetime.date.today", "os.getpid", "os.urandom",
          "os.environ", "os.getenv")
MESSAGES = ("error", "warning", "check", "lex_error", "ice_loc", "emit")
COMMON = ("get", "pop", "add", "append", "update", "values", "keys", "items",
          "sort", "join", "format", "extend", "insert", "remove", "discard",
          "copy", "index", "count", "split", "strip", "replace", "match",
          "union", "difference", "intersection", "setdefault", "startswith",
          "endswith", "lower", "upper")


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and b + "." + e.attr
    return None


def join(a, b):
    kind = a[0] if a[0] in UNORDERED else b[0] if b[0] in UNORDERED else \
        a[0] or b[0]
    x, y = a[1], b[1]
    elem = x if y is None else y if x is None else join(x, y)
    return (kind, elem)


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class Program:
    def __init__(self, ctx):
        self.ctx = ctx
        self.m = ctx.m
        self.funcs = list(ctx.m.functions.values())
        self.attrs = {}          # (class, attribute) -> value
        self.assigned = {}       # attribute -> classes which assign it
        self.rets = {}
        self.params = {}
        self.emitting = self.closure()
        self.report = False
        self.seen = set()

    # -- which functions say something ------------------------------------
    def candidates(self, call, fi):
        f = call.func
        if isinstance(f, ast.Name):
            g = self.m.resolve_global(fi.module, f.id)
            if g and g[0] == "func":
                return [g[1]]
            if g and g[0] == "class":
                c = g[1].lookup("__init__")
                return [c] if c is not None else []
            return []
        if isinstance(f, ast.Attribute):
            own = isinstance(f.value, ast.Name) and f.value.id == "self"
            if own and fi.cls is not None:
                c = fi.cls.lookup(f.attr)
                if c is not None:
                    return [c]
            if f.attr in COMMON:
                return []
            d = dotted(f.value)
            if d and "." not in d:
                g = self.m.resolve_global(fi.module, d)
                if g and g[0] in ("ext", "module"):
                    return [x for x in self.m.by_method.get(f.attr, ())
                            if 0] + self.of_module(g, f.attr)
            return list(self.m.by_method.get(f.attr, ()))
        return []

    @staticmethod
    def of_module(g, name):
        if g[0] == "module":
            mi = g[1]
            if name in mi.functions:
                return [mi.functions[name]]
            if name in mi.classes:
                c = mi.classes[name].lookup("__init__")
                return [c] if c is not None else []
        return []

    @staticmethod
    def says(call):
        f = call.func
        if isinstance(f, ast.Name):
            return f.id == "print"
        if isinstance(f, ast.Attribute):
            d = dotted(f.value) or ""
            return f.attr in MESSAGES and d.split(".")[-1] in (
                "mh", "message_handler") or f.attr in (
                    "write", "writelines") and "fd" not in d
        return False

    def closure(self):
        say = {f.qual for f in self.funcs if any(
            isinstance(n, ast.Call) and self.says(n)
            for n in ast.walk(f.node))}
        calls = {f.qual: {c.qual for n in ast.walk(f.node)
                          if isinstance(n, ast.Call)
                          for c in self.candidates(n, f)}
                 for f in self.funcs}
        more = True
        while more:
            more = False
            for q, cs in calls.items():
                if q not in say and cs & say:
                    say.add(q)
                    more = True
        return say

    def emits(self, node, fi):
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                if self.says(n):
                    return n
                cs = self.candidates(n, fi)
                if cs and all(c.qual in self.emitting for c in cs):
                    return n
        return None

    # -- the analysis -----------------------------------------------------
    def run(self):
        for n in range(8):
            before = repr((self.attrs, self.rets, self.params))
            for f in self.funcs:
                Function(self, f).run()
            if repr((self.attrs, self.rets, self.params)) == before:
                break
        self.report = True
        for f in self.funcs:
            self.ctx.funcs.add(f.qual)
            fn = Function(self, f)
            fn.run()
            if fn.flows:
                self.ctx.ok("order", "%s: %s" % (f.qual, ", ".join(
                    sorted(fn.flows))[:150]))
            self.clocks(f)

    def clocks(self, f):
        used = 0
        for n in ast.walk(f.node):
            d = dotted(n) if isinstance(n, (ast.Attribute, ast.Name)) \
                else None
            if d and isinstance(getattr(n, "ctx", None), ast.Load):
                root = d.split(".")[0]
                g = self.m.resolve_global(f.module, root)
                full = d
                if g and g[0] == "ext":
                    full = g[1] + d[len(root):]
                elif g is None:
                    continue
                if g and g[0] == "ext" and any(
                        full == c or c.endswith(".") and full.startswith(c)
                        or full.startswith(c + ".") for c in CLOCKS):
                    used += 1
                    self.ctx.violation(
                        "input", "%s:%s" % (f.qual, full), f.loc(n),
                        "%s uses %s, which differs from run to run" % (
                            f.qual, full))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in ("sorted", "min", "max"):
                for k in n.keywords:
                    if k.arg == "key" and isinstance(k.value, ast.Name) and \
                            k.value.id in ("id", "hash"):
                        used += 1
                        self.ctx.violation(
                            "input", "%s:%s" % (f.qual, k.value.id),
                            f.loc(n), "%s orders by %s(), which differs from "
                            "run to run" % (f.qual, k.value.id))
        if not used:
            self.ctx.count("functions without clock or chance")


class Function:
    def __init__(self, prog, fi):
        self.p = prog
        self.fi = fi
        self.env = {}
        self.flows = set()
        self.loops = []          # tainted names of the loops without order

    # -- reports ------------------------------------------------------------
    def sink(self, node, what):
        self.flows.add("order visible")
        if self.p.report:
            line = self.fi.loc(node)
            self.p.ctx.violation("order", "%s:%s" % (self.fi.qual, what),
                                 line, "%s: %s" % (self.fi.qual, what))

    def unsure(self, node, what):
        if self.p.report:
            self.p.ctx.undecided("order", self.fi.qual, "%s (line %s)" % (
                what, node.lineno))

    def clean(self, what):
        self.flows.add(what)

    # -- state --------------------------------------------------------------
    def get(self, path):
        if path in self.env:
            return self.env[path]
        if path and "." in path:
            head, name = path.rsplit(".", 1)
            if head == "self" and self.fi.cls is not None:
                rv = BARE
                for c in self.fi.cls.mro():
                    rv = join(rv, self.p.attrs.get((c.name, name), BARE))
                return rv
            return self.attribute(name)
        return BARE

    def attribute(self, name):
        cs = self.p.assigned.get(name, ())
        vals = [self.p.attrs.get((c, name), BARE) for c in cs]
        if vals and all(v[0] in UNORDERED or v[1] is not None for v in vals):
            rv = vals[0]
            for v in vals[1:]:
                rv = join(rv, v)
            return rv
        return BARE

    def put(self, path, val):
        if path:
            self.env[path] = val

    def run(self):
        n = self.fi.node
        for a in self.fi.params + self.fi.kwonly:
            self.env[a] = self.p.params.get((self.fi.qual, a), BARE)
        self.ret = BARE
        self.block(n.body)
        if self.ret != BARE:
            self.p.rets[self.fi.qual] = join(self.p.rets.get(
                self.fi.qual, BARE), self.ret)
        if self.fi.cls is not None:
            for k, v in self.env.items():
                if k.startswith("self.") and k.count(".") == 1:
                    key = (self.fi.cls.name, k[5:])
                    self.p.assigned.setdefault(k[5:], set()).add(
                        self.fi.cls.name)
                    if v != BARE:
                        self.p.attrs[key] = join(self.p.attrs.get(
                            key, BARE), v)

    # -- statements -----------------------------------------------------------
    def block(self, body):
        for s in body:
            self.stmt(s)

    def branches(self, *bodies):
        start = dict(self.env)
        outs = []
        for b in bodies:
            self.env = dict(start)
            self.block(b)
            outs.append(self.env)
        keys = set().union(*outs)
        self.env = {}
        for k in keys:
            v = BARE
            for o in outs:
                v = join(v, o.get(k, start.get(k, BARE)))
            self.env[k] = v

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import,
                          ast.ImportFrom, ast.Global, ast.Nonlocal,
                          ast.Pass)):
            return
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return
            val = self.value(s.value)
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in targets:
                self.assign(t, val, s)
        elif isinstance(s, ast.AugAssign):
            old, new = self.value(s.target, load=True), self.value(s.value)
            path = dotted(s.target)
            if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.BitXor,
                                 ast.Sub)) and "S" in (old[0], new[0]):
                self.put(path, ("S", old[1]))
            elif isinstance(s.op, ast.BitOr) and new[0] == "D":
                self.put(path, ("D", join(old, new)[1]))
            elif isinstance(s.op, ast.Add):
                if new[0] in UNORDERED:
                    self.put(path, ("L", old[1]))
                elif self.loops and isinstance(s.value, (
                        ast.List, ast.JoinedStr)) and not \
                        isinstance(s.value, ast.Constant):
                    if isinstance(s.value, ast.List):
                        self.put(path, ("L", old[1]))
        elif isinstance(s, ast.Expr):
            self.value(s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.value(s.value)
                self.ret = join(self.ret, v)
                if self.loops and names(s.value) & self.loops[-1] and not \
                        isinstance(s.value, (ast.Compare, ast.Constant)):
                    self.unsure(s, "the first member that is met is the "
                                "result")
        elif isinstance(s, ast.If):
            self.value(s.test)
            self.branches(s.body, s.orelse)
        elif isinstance(s, ast.For):
            self.loop(s)
        elif isinstance(s, ast.While):
            self.value(s.test)
            drained = [n for b in s.body for n in ast.walk(b)
                       if isinstance(n, ast.Call) and isinstance(
                           n.func, ast.Attribute) and n.func.attr == "pop"
                       and not n.args and self.get(
                           dotted(n.func.value))[0] == "S"]
            if drained:
                taint = set()
                for b in s.body:
                    for n in ast.walk(b):
                        if isinstance(n, ast.Assign) and n.value in drained:
                            for t in n.targets:
                                taint |= names(t)
                self.clean("worklist")
                self.unordered_body(s.body, taint, "a set")
            else:
                for i in range(2):
                    self.branches(s.body, [])
            self.block(s.orelse)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.value(i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.branches(s.body + s.orelse, *[h.body for h in s.handlers])
            self.block(s.finalbody)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.value(c)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.value(c)

    def assign(self, t, val, s):
        if isinstance(t, (ast.Name, ast.Attribute)):
            self.put(dotted(t), val)
        elif isinstance(t, ast.Subscript):
            path = dotted(t.value)
            old = self.get(path)
            if isinstance(t.slice, ast.Slice):
                self.put(path, val)
                return
            elem = val if val != BARE else None
            if old[1] is not None and elem is not None:
                elem = join(old[1], elem)
            kind = old[0]
            if self.loops and names(t.slice) & self.loops[-1] and \
                    kind is None:
                kind = "D"
            self.put(path, (kind, elem or old[1]))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(getattr(s, "value", None), (ast.Tuple, ast.List)) \
                    and len(s.value.elts) == len(t.elts):
                for x, y in zip(t.elts, s.value.elts):
                    self.assign(x, self.value(y), s)
                return
            for x in t.elts:
                self.assign(x, val[1] or BARE, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, val, s)

    def loop(self, s):
        it = self.value(s.iter)
        over = None
        if isinstance(s.iter, ast.Call) and self.external(
                s.iter.func) == "os.walk":
            if isinstance(s.target, ast.Tuple) and len(s.target.elts) == 3:
                dirs, files = s.target.elts[1:]
                for t in (dirs, files):
                    self.put(dotted(t), ("L", None))
                if not self.sorts(s.body, dotted(dirs)):
                    over = "a directory tree"
                self.clean("directory listing")
        elif it[0] in UNORDERED:
            over = {"S": "a set", "L": "members without order",
                    "D": "a mapping without order"}[it[0]]
            self.clean("loop over %s" % over)
            self.assign(s.target, it[1] or BARE, None)
        else:
            self.assign(s.target, it[1] or BARE, None)
        if over:
            self.unordered_body(s.body, names(s.target), over)
        else:
            for i in range(2):
                self.branches(s.body, [])
        self.block(s.orelse)

    def ordered_by(self, call):
        """the arguments which a function of the program sorts in place"""
        rv = []
        for c in self.p.candidates(call, self.fi):
            ps = list(c.params)
            if c.cls is not None and not c.is_static and ps:
                ps = ps[1:]
            for q, a in list(zip(ps, call.args)) + [
                    (k.arg, k.value) for k in call.keywords]:
                if q and dotted(a) and c.qual != self.fi.qual and \
                        self.sorts(c.node.body, q, 0):
                    rv.append(dotted(a))
        return rv

    def sorts(self, body, path, depth=1):
        for b in body:
            for n in ast.walk(b):
                if depth and isinstance(n, ast.Call) and \
                        path in self.ordered_by(n):
                    return True
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr == "sort" \
                        and dotted(n.func.value) == path:
                    return True
                if isinstance(n, ast.Assign) and isinstance(
                        n.value, ast.Call) and isinstance(
                        n.value.func, ast.Name) and \
                        n.value.func.id == "sorted" and any(
                            isinstance(t, ast.Subscript) and
                            dotted(t.value) == path for t in n.targets):
                    return True
        return False

    def unordered_body(self, body, taint, over):
        taint = set(taint)
        for i in range(2):
            for b in body:
                for n in ast.walk(b):
                    if isinstance(n, ast.Assign) and names(n.value) & taint:
                        for t in n.targets:
                            taint |= {x.id for x in ast.walk(t) if
                                      isinstance(x, ast.Name) and
                                      isinstance(x.ctx, ast.Store)}
        for b in body:
            n = self.p.emits(b, self.fi)
            if n is not None:
                self.sink(n, "messages are reported in the order of %s" %
                          over)
                break
        self.loops.append(taint | (self.loops[-1] if self.loops else set()))
        for i in range(2):
            self.branches(body, [])
        self.loops.pop()

    # -- expressions ----------------------------------------------------------
    def external(self, f):
        d = dotted(f)
        if not d:
            return None
        root = d.split(".")[0]
        if root in self.env:
            return None
        g = self.p.m.resolve_global(self.fi.module, root)
        if g and g[0] == "ext":
            return g[1] + d[len(root):]
        return d

    def value(self, e, load=False):
        if isinstance(e, (ast.Name, ast.Attribute)):
            d = dotted(e)
            if d is None:
                self.value(e.value)
                return self.attribute(e.attr)
            return self.get(d)
        if isinstance(e, ast.Set):
            for x in e.elts:
                self.value(x)
            return ("S", None)
        if isinstance(e, ast.SetComp):
            self.comprehension(e)
            return ("S", None)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            un, elem = self.comprehension(e)
            if un:
                return ("D" if isinstance(e, ast.DictComp) else "L", elem)
            return (None, elem)
        if isinstance(e, (ast.List, ast.Tuple)):
            kind, elem = None, None
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.value(x.value)
                    if v[0] in UNORDERED:
                        kind = "L"
                    continue
                v = self.value(x)
                if v != BARE:
                    elem = v if elem is None else join(elem, v)
            return (kind, elem)
        if isinstance(e, ast.Dict):
            kind, elem = None, None
            for k, x in zip(e.keys, e.values):
                v = self.value(x)
                if k is None:
                    if v[0] in UNORDERED:
                        kind = "D"
                elif v != BARE:
                    elem = v if elem is None else join(elem, v)
            return (kind, elem)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.BinOp):
            return self.binary(e)
        if isinstance(e, ast.BoolOp):
            rv = BARE
            for x in e.values:
                rv = join(rv, self.value(x))
            return rv
        if isinstance(e, ast.IfExp):
            self.value(e.test)
            return join(self.value(e.body), self.value(e.orelse))
        if isinstance(e, ast.NamedExpr):
            v = self.value(e.value)
            self.put(e.target.id, v)
            return v
        if isinstance(e, ast.Subscript):
            v = self.value(e.value)
            if isinstance(e.slice, ast.Slice):
                if v[0] == "L" and not load and isinstance(
                        e.ctx, ast.Load) and (
                            e.slice.lower is not None or
                            e.slice.upper is not None):
                    self.sink(e, "some of several members without order "
                              "are chosen")
                return v
            self.value(e.slice)
            if v[0] == "L" and not load and isinstance(e.ctx, ast.Load) and \
                    isinstance(e.slice, (ast.Constant, ast.UnaryOp)):
                self.sink(e, "one of several members without order is "
                          "chosen")
            return v[1] or BARE
        if isinstance(e, ast.JoinedStr):
            for x in e.values:
                if isinstance(x, ast.FormattedValue) and \
                        self.value(x.value)[0] in UNORDERED:
                    self.sink(e, "the order of members becomes part of a "
                              "text")
            return BARE
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is None:
                return BARE
            v = self.value(e.value)
            if isinstance(e, ast.YieldFrom):
                self.ret = join(self.ret, ("L" if v[0] in UNORDERED else
                                           None, v[1]))
            else:
                self.ret = join(self.ret, ("L" if self.loops else None,
                                           v if v != BARE else None))
            return BARE
        if isinstance(e, ast.Lambda):
            return BARE
        if isinstance(e, ast.Starred):
            return self.value(e.value)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.value(c)
        return BARE

    def comprehension(self, e):
        saved = dict(self.env)
        un = False
        for g in e.generators:
            v = self.value(g.iter)
            if v[0] in UNORDERED:
                un = True
                self.clean("comprehension over a set" if v[0] == "S" else
                           "comprehension")
            if isinstance(g.iter, ast.Call) and self.external(
                    g.iter.func) == "os.walk":
                un = True
                self.clean("directory listing")
            self.assign(g.target, v[1] or BARE, None)
            for c in g.ifs:
                self.value(c)
        if isinstance(e, ast.DictComp):
            self.value(e.key)
            elem = self.value(e.value)
        else:
            elem = self.value(e.elt)
        self.env = saved
        return un, elem if elem != BARE else None

    def binary(self, e):
        a = self.value(e.left)
        if isinstance(e.op, ast.Mod) and (isinstance(
                e.left, ast.Constant) and isinstance(e.left.value, str) or
                isinstance(e.left, (ast.BinOp, ast.JoinedStr))):
            xs = e.right.elts if isinstance(e.right, ast.Tuple) else \
                [e.right]
            for x in xs:
                if self.value(x)[0] in UNORDERED:
                    self.sink(e, "the order of members becomes part of a "
                              "text")
            return BARE
        b = self.value(e.right)
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)) \
                and "S" in (a[0], b[0]):
            return ("S", a[1] or b[1])
        if isinstance(e.op, (ast.Add, ast.BitOr)) and (
                a[0] in UNORDERED or b[0] in UNORDERED):
            return (a[0] if a[0] in UNORDERED else b[0], join(a, b)[1])
        return (None, join(a, b)[1])

    def key(self, e, fname):
        """sorting members without order needs a key which tells them
        apart"""
        k = [x.value for x in e.keywords if x.arg == "key"]
        if not k:
            return
        k = k[0]
        body = k.body if isinstance(k, ast.Lambda) else None
        if body is None:
            bad = dotted(k) in self.COARSE
        else:
            args = {a.arg for a in k.args.args}
            bad = not names(body) & args or self.coarse(body)
        if bad:
            self.sink(e, "members without order are sorted by something "
                      "that may be equal")

    #: functions which map different things to the same
    COARSE = ("len", "type", "bool", "os.path.basename", "os.path.dirname",
              "os.path.splitext")

    def coarse(self, body):
        if isinstance(body, ast.Call):
            if dotted(body.func) in self.COARSE:
                return True
            return isinstance(body.func, ast.Attribute) and \
                body.func.attr in ("count", "startswith", "endswith",
                                   "find", "index")
        if isinstance(body, ast.Compare):
            return True
        return isinstance(body, ast.Subscript) and isinstance(
            body.slice, ast.Slice)

    def call(self, e):
        f = e.func
        ext = self.external(f) if not isinstance(f, ast.Name) or \
            f.id not in self.env else None
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(
            f, ast.Attribute) else None
        args = [self.value(a) for a in e.args]
        kws = {k.arg: self.value(k.value) for k in e.keywords}
        first = args[0] if args else BARE
        un = first[0] in UNORDERED
        if ext in LISTINGS or isinstance(f, ast.Attribute) and \
                f.attr in LISTING_METHODS:
            self.clean("directory listing")
            return ("L", None)
        if isinstance(f, ast.Name) or ext and ext.split(".")[0] in (
                "collections", "itertools"):
            n = (ext or name).split(".")[-1]
            if n in SETS:
                return ("S", first[1])
            if n in ("sorted", "min", "max") and un:
                self.clean("sorted")
                self.key(e, n)
                return (None, first[1])
            if n in NEUTRAL:
                return (None, first[1] if n == "sorted" else None)
            if n in KEEP or n in ("combinations", "permutations",
                                  "product"):
                u = any(a[0] in UNORDERED for a in args)
                elem = None
                for a in args:
                    if a[1] is not None:
                        elem = a[1] if elem is None else join(elem, a[1])
                return ("L" if u else None, elem)
            if n in MAPPINGS:
                return ("D" if un else None, first[1])
            if n == "next":
                if un:
                    self.sink(e, "one of several members without order is "
                              "chosen")
                return first[1] or BARE
            if n in ("print", "str", "repr", "format"):
                if any(a[0] in UNORDERED for a in args):
                    self.sink(e, "the order of members becomes part of a "
                              "text")
                return BARE
        if isinstance(f, ast.Attribute):
            r = self.method(e, f, args, kws)
            if r is not None:
                return r
        return self.own(e, args, kws)

    def method(self, e, f, args, kws):
        path = dotted(f.value)
        recv = self.value(f.value)
        first = args[0] if args else BARE
        n = f.attr
        if n == "join" and args:
            if first[0] in UNORDERED:
                d = dotted(f.value)
                if d != "os.path":
                    self.sink(e, "the order of members becomes part of a "
                              "text")
            return BARE
        if n == "format":
            if any(a[0] in UNORDERED for a in args + list(kws.values())):
                self.sink(e, "the order of members becomes part of a text")
            return BARE
        if n == "fromkeys":
            return ("D" if first[0] in UNORDERED else None, None)
        if n == "sort":
            if recv[0] in UNORDERED:
                self.clean("sorted")
                self.key(e, n)
            self.put(path, (None, recv[1]))
            return BARE
        if recv[0] == "S":
            if n in ("union", "intersection", "difference", "copy",
                     "symmetric_difference"):
                return recv
            if n == "pop" and not args:
                if not self.loops:
                    self.sink(e, "one of several members without order is "
                              "chosen")
                return recv[1] or BARE
            if n in ("add", "discard", "remove", "update", "clear",
                     "issubset", "issuperset", "isdisjoint",
                     "difference_update", "intersection_update"):
                return BARE
        if n in ("values", "keys", "items", "copy"):
            if recv[0] in UNORDERED or recv[1] is not None:
                if n == "keys":
                    return (recv[0] and "L", None)
                return ("L" if recv[0] in UNORDERED else None, recv[1])
        if n in ("get", "setdefault", "pop") and recv[0] != "S":
            rv = recv[1] or BARE
            if len(args) > 1:
                rv = join(rv, args[1])
            if n == "setdefault" and path and len(args) > 1 and \
                    args[1] != BARE:
                self.put(path, (recv[0], args[1] if recv[1] is None else
                                join(recv[1], args[1])))
            if rv != BARE or recv != BARE:
                return rv
        if n in ("append", "insert", "appendleft") and path and args:
            inside = self.loops and any(
                names(a) & self.loops[-1] for a in e.args)
            elem = args[-1] if args[-1] != BARE else None
            self.put(path, ("L" if inside else recv[0],
                            elem if recv[1] is None else recv[1] if
                            elem is None else join(recv[1], elem)))
            return BARE
        if n == "extend" and path and args:
            inside = self.loops and names(e.args[0]) & self.loops[-1]
            if first[0] in UNORDERED or inside:
                self.put(path, ("L", recv[1]))
            return BARE
        if n == "update" and path and args:
            inside = self.loops and names(e.args[0]) & self.loops[-1]
            if first[0] in UNORDERED or inside:
                if recv[0] != "S":
                    self.put(path, ("D", recv[1]))
            return BARE
        return None

    def own(self, e, args, kws):
        cs = self.p.candidates(e, self.fi)
        for c in cs:
            ps = list(c.params)
            if c.cls is not None and not c.is_static and ps:
                ps = ps[1:]
            for q, v in list(zip(ps, args)) + [
                    (k, v) for k, v in kws.items() if k in c.params]:
                if v != BARE and len(cs) == 1:
                    key = (c.qual, q)
                    self.p.params[key] = join(self.p.params.get(
                        key, BARE), v)
        for path in self.ordered_by(e):
            self.put(path, (None, self.get(path)[1]))
        rets = [self.p.rets.get(c.qual, BARE) for c in cs]
        if rets and all(r[0] in UNORDERED or r[1] is not None
                        for r in rets):
            rv = rets[0]
            for r in rets[1:]:
                rv = join(rv, r)
            return rv
        return BARE


class Shared:
    """nothing of one run is left for the next: what belongs to a module, a
    class or the default of a parameter is never changed"""
    MUTATORS = {"append", "add", "update", "extend", "insert", "remove",
                "pop", "clear", "discard", "setdefault", "popitem", "sort",
                "reverse", "difference_update", "intersection_update",
                "appendleft", "popleft", "symmetric_difference_update"}

    def __init__(self, ctx):
        self.ctx = ctx
        self.m = ctx.m
        self.assigned = {}
        for f in self.m.functions.values():
            if f.cls is None or not f.params or f.is_static:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store) and isinstance(
                        n.value, ast.Name) and n.value.id == f.params[0] \
                        and not f.is_classmethod:
                    self.assigned.setdefault(f.cls.name, set()).add(n.attr)

    @staticmethod
    def mutable(e):
        return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                              ast.DictComp, ast.SetComp)) or isinstance(
            e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in (
                "list", "dict", "set", "OrderedDict", "deque",
                "defaultdict", "Counter")

    def own_class(self, f, e):
        """the class whose attributes the expression stands for, and if it
        is the class itself"""
        if isinstance(e, ast.Name):
            if f.cls is not None and f.params and e.id == f.params[0] and \
                    not f.is_static:
                return f.cls, f.is_classmethod
            g = self.m.resolve_global(f.module, e.id)
            if g and g[0] == "class":
                return g[1], True
        if isinstance(e, ast.Attribute) and e.attr == "__class__":
            c = self.own_class(f, e.value)
            return c and (c[0], True)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == "type" and len(e.args) == 1:
            c = self.own_class(f, e.args[0])
            return c and (c[0], True)
        return None

    def place(self, f, e, local):
        """the shared thing an expression denotes"""
        if isinstance(e, ast.Name):
            if e.id in local:
                return local[e.id]
            g = self.m.resolve_global(f.module, e.id)
            if g and g[0] == "expr":
                return "%s.%s" % (g[1].name, e.id)
        if isinstance(e, ast.Attribute):
            c = self.own_class(f, e.value)
            if c:
                a = c[0].lookup_attr(e.attr)
                if a and (c[1] or not any(
                        e.attr in self.assigned.get(k.name, ())
                        for k in c[0].mro())):
                    return "%s.%s" % (a[0].name, e.attr)
            if isinstance(e.value, ast.Name):
                g = self.m.resolve_global(f.module, e.value.id)
                if g and g[0] == "module" and e.value.id not in local and \
                        e.attr in g[1].globals:
                    return "%s.%s" % (g[1].name, e.attr)
        if isinstance(e, ast.Subscript):
            return self.place(f, e.value, local)
        return None

    def function(self, f):
        local = {p: None for p in f.params + f.kwonly}
        for p, d in f.defaults.items():
            if self.mutable(d):
                local[p] = "the default of %s" % p
        declared = set()
        nodes = [n for n in ast.walk(f.node)]
        for n in nodes:
            if isinstance(n, ast.Global):
                declared |= set(n.names)
        for n in nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and \
                    n.id not in declared:
                local.setdefault(n.id, None)
        for i in range(2):
            for n in nodes:
                if isinstance(n, ast.Assign):
                    p = self.place(f, n.value, local) if isinstance(
                        n.value, (ast.Name, ast.Attribute)) else None
                    for t in n.targets:
                        if isinstance(t, ast.Name) and p and \
                                t.id not in declared and \
                                t.id not in f.params:
                            local[t.id] = p
        for n in nodes:
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign,
                              ast.Delete)):
                ts = [n.target] if isinstance(
                    n, (ast.AugAssign, ast.AnnAssign)) else n.targets
                for t in ts:
                    for x in t.elts if isinstance(
                            t, (ast.Tuple, ast.List)) else [t]:
                        self.store(f, n, x, local, declared)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in self.MUTATORS:
                p = self.place(f, n.func.value, local)
                if p:
                    self.found(f, n, p, None)
        for p, d in f.defaults.items():
            if self.mutable(d):
                self.kept(f, p, nodes)
        for d in f.node.decorator_list:
            if any(isinstance(x, (ast.Name, ast.Attribute)) and (
                    x.id if isinstance(x, ast.Name) else x.attr) in (
                        "lru_cache", "cache") for x in ast.walk(d)):
                self.ctx.undecided("state", f.qual, "results are kept for "
                                   "the next call")

    def original(self, f, e):
        """the expression which made a shared thing, if it is a container"""
        if isinstance(e, ast.Name):
            g = self.m.resolve_global(f.module, e.id)
            return g and g[0] == "expr" and self.mutable(g[2])
        if isinstance(e, ast.Attribute):
            c = self.own_class(f, e.value)
            a = c and c[0].lookup_attr(e.attr)
            return a and self.mutable(a[1])
        return False

    def store(self, f, n, t, local, declared):
        if isinstance(t, ast.Name):
            if t.id in declared:
                self.found(f, n, "%s.%s" % (f.module.name, t.id), None)
            elif isinstance(n, ast.AugAssign) and local.get(t.id) and \
                    local[t.id].startswith("the default"):
                self.found(f, n, local[t.id], None)
        elif isinstance(t, ast.Subscript):
            p = self.place(f, t.value, local)
            if p:
                self.found(f, n, p, t.slice)
        elif isinstance(t, ast.Attribute):
            if isinstance(n, ast.Assign) and isinstance(
                    n.value, (ast.Name, ast.Attribute)):
                p = self.place(f, n.value, local)
                if p and self.original(f, n.value) and self.changed(t.attr):
                    self.found(f, n, p, None)
            c = self.own_class(f, t.value)
            if c and c[1] and not (isinstance(t.value, ast.Name) and
                                   t.value.id in local and
                                   not f.is_classmethod):
                self.found(f, n, "%s.%s" % (c[0].name, t.attr), None)
            elif isinstance(t.value, ast.Name) and t.value.id not in local:
                g = self.m.resolve_global(f.module, t.value.id)
                if g and g[0] in ("module", "expr"):
                    self.found(f, n, "%s.%s" % (
                        g[1].name, t.attr if g[0] == "module" else
                        t.value.id), None)

    def kept(self, f, p, nodes):
        """a default which becomes part of an object"""
        for n in nodes:
            if isinstance(n, ast.Assign) and isinstance(
                    n.value, ast.Name) and n.value.id == p:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and self.changed(t.attr):
                        self.found(f, n, "the default of %s" % p, None)

    def changed(self, attr):
        for g in self.m.functions.values():
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and \
                        n.func.attr in self.MUTATORS and isinstance(
                            n.func.value, ast.Attribute) and \
                        n.func.value.attr == attr:
                    return True
                if isinstance(n, ast.Subscript) and isinstance(
                        n.ctx, ast.Store) and isinstance(
                            n.value, ast.Attribute) and n.value.attr == attr:
                    return True
        return False

    def found(self, f, n, place, key):
        if f.qual in ("trlc:main", "trlc:trlc"):
            self.ctx.undecided("state", f.qual, "%s is changed" % place)
            return
        if key is not None and isinstance(n, ast.Assign):
            # results which are kept: everything they are made of is part
            # of the key
            used = {x.id for x in ast.walk(f.node) if isinstance(
                x, ast.Name) and x.id in f.params and isinstance(
                    x.ctx, ast.Load)}
            keys, grown = names(key), True
            while grown:
                grown = False
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id in keys
                            for t in x.targets) and \
                            not names(x.value) <= keys:
                        keys |= names(x.value)
                        grown = True
            if f.cls is not None and f.params:
                # the way to the place itself
                d = place.rsplit(".", 1)[-1]
                own = [x for x in ast.walk(f.node) if isinstance(
                    x, ast.Name) and x.id == f.params[0]]
                way = [x for x in ast.walk(f.node) if isinstance(
                    x, ast.Attribute) and x.attr == d and isinstance(
                        x.value, ast.Name) and x.value.id == f.params[0]]
                if len(own) == len(way):
                    used.discard(f.params[0])
            if used and used <= keys:
                self.ctx.undecided("state", f.qual, "%s keeps results of "
                                   "earlier calls" % place)
                return
        self.ctx.violation(
            "state", "%s:%s" % (f.qual, place), f.loc(n),
            "%s changes %s, which is shared by all runs in one process" % (
                f.qual, place))

    def run(self):
        for f in self.m.functions.values():
            self.function(f)
            self.ctx.count("functions without changes of shared things")
        for k in sorted(self.m.classes):
            c = self.m.classes[k]
            for a in c.attrs:
                if self.mutable(c.attrs[a]):
                    self.ctx.ok("state", "%s.%s is never changed" % (k, a))
        for mi in self.m.modules.values():
            for g in mi.globals:
                if self.mutable(mi.globals[g]):
                    self.ctx.ok("state", "%s.%s is never changed" % (
                        mi.name, g))


def c24(ctx):
    Program(ctx).run()
    Shared(ctx).run()


CHECKS = {"C24": c24}
EXPLAIN = {
    "C24": "Flow analysis of every function, with summaries of parameters, "
    "results and attributes to a fixpoint: values are without order if they "
    "come from a set or a directory listing and are not sorted; no text, no "
    "sequence of messages and no choice of a member may depend on them. "
    "Nothing may depend on a clock, chance or the environment, and what "
    "belongs to a module, a class or the default of a parameter is never "
    "changed."}
RULES = {
    "C24": ["order: the order of a set or directory listing is not visible",
            "input: no use of clock, chance, environment or addresses"]}
