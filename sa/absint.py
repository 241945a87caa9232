"""Abstract interpreter over the syntax tree (interprocedural, trace
partitioned dataflow with constant/nullness/class/predicate facts).

No code of /repo is executed and no solver is involved: states are finite
fact tables over hash-consed value terms; loops are solved by a fixpoint
with widening; unknown calls havoc what their (name resolved, transitive)
effect summary says they may write.

Clients subclass `Client` to say which functions stay opaque (events), to
model external calls, and to look at attribute uses, loop iterations and
final outcomes.
"""
import ast
import itertools
import re
import string
from .model import MUTATORS


class Budget(Exception):
    pass


class Undecided(Exception):
    """construct not understood by the interpreter"""


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------

class V:
    __slots__ = ("tag", "a", "_sub", "n")
    _tab = {}
    _count = 0

    def __repr__(self):
        return show(self)


def mk(tag, *a):
    key = (tag, a)
    v = V._tab.get(key)
    if v is None:
        v = V()
        v.tag = tag
        v.a = a
        v._sub = None
        V._count += 1
        v.n = V._count
        V._tab[key] = v
    return v


def subterms(v):
    if v._sub is None:
        s = {v}
        for x in v.a:
            if isinstance(x, V):
                s |= subterms(x)
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    if isinstance(y, V):
                        s |= subterms(y)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, V):
                                s |= subterms(z)
        v._sub = frozenset(s)
    return v._sub


def const(x):
    return mk("const", type(x).__name__, x)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def op(name, *args):
    return mk("op", name, *args)


def sym(name):
    return mk("sym", name)


def is_const(v):
    return v.tag == "const"


def show(v):
    t, a = v.tag, v.a
    if t == "const":
        return repr(a[1])
    if t == "enum":
        return "%s.%s" % a
    if t in ("sym",):
        return a[0]
    if t == "attr":
        return "%s.%s%s" % (show(a[0]), a[1],
                            "" if a[2] == 0 else "'" )
    if t == "obj":
        return "<%s>" % a[0]
    if t == "elem":
        return "elem(%s)" % show(a[0])
    if t == "op":
        return "%s(%s)" % (a[0], ", ".join(show(x) if isinstance(x, V)
                                           else str(x) for x in a[1:]))
    if t == "call":
        return "%s(%s)" % (a[0], ", ".join(show(x) if isinstance(x, V)
                                           else str(x) for x in a[1]))
    if t == "tuple":
        return "(%s)" % ", ".join(show(x) for x in a)
    if t in ("class", "func", "module", "builtin", "ext"):
        return str(a[0])
    if t == "bound":
        return "%s.%s" % (show(a[0]), a[1])
    if t == "phi":
        return "phi(%s)" % (a[1],)
    return "%s%r" % (t, a)


# --------------------------------------------------------------------------
# state
# --------------------------------------------------------------------------

class State:
    __slots__ = ("env", "heap", "types", "truth", "eq", "neq", "cver",
                 "aver", "ts", "trace", "_key", "stale")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.types = {}
        self.truth = {}
        self.eq = {}
        self.neq = {}
        self.cver = {}
        self.aver = {}
        self.ts = ()
        self.trace = None
        self._key = None

    def copy(self):
        s = State.__new__(State)
        s.env = self.env
        s.heap = self.heap
        s.types = self.types
        s.truth = self.truth
        s.eq = self.eq
        s.neq = self.neq
        s.cver = self.cver
        s.aver = self.aver
        s.ts = self.ts
        s.trace = self.trace
        s._key = None
        return s

    def _upd(self, fld, k, v):
        s = self.copy()
        d = dict(getattr(s, fld))
        d[k] = v
        setattr(s, fld, d)
        return s

    def _del(self, fld, k):
        if k not in getattr(self, fld):
            return self
        s = self.copy()
        d = dict(getattr(s, fld))
        del d[k]
        setattr(s, fld, d)
        return s

    def set_var(self, k, v):
        return self._upd("env", k, v)

    def set_attr(self, b, k, v):
        return self._upd("heap", (b, k), v)

    def with_env(self, env):
        s = self.copy()
        s.env = env
        return s

    def event(self, *ev):
        s = self.copy()
        s.trace = (s.trace, ev)
        return s

    def set_ts(self, ts):
        if ts == self.ts:
            return self
        s = self.copy()
        s.ts = ts
        return s

    def events(self):
        rv = []
        t = self.trace
        while t is not None:
            t, e = t
            rv.append(e)
        rv.reverse()
        return rv

    def events_since(self, mark):
        rv = []
        t = self.trace
        while t is not None and t is not mark:
            t, e = t
            rv.append(e)
        rv.reverse()
        return rv

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.env.items()),
                         frozenset(self.heap.items()),
                         frozenset(self.types.items()),
                         frozenset(self.truth.items()),
                         frozenset(self.eq.items()),
                         frozenset(self.neq.items()),
                         frozenset(self.cver.items()),
                         frozenset(self.aver.items()),
                         self.ts)
        return self._key

    def drop_terms(self, v):
        """forget all facts about terms containing v"""
        s = self.copy()
        for fld in ("types", "truth", "eq", "neq"):
            d = getattr(s, fld)
            if any(v in subterms(k) for k in d):
                setattr(s, fld, {k: x for k, x in d.items()
                                 if v not in subterms(k)})
        if any(v in subterms(k[0]) for k in s.heap):
            s.heap = {k: x for k, x in s.heap.items()
                      if v not in subterms(k[0])}
        if any(v in subterms(k) for k in s.cver):
            s.cver = {k: x for k, x in s.cver.items()
                      if v not in subterms(k)}
        return s


class Outcome:
    __slots__ = ("kind", "st", "val", "node", "fi")

    def __init__(self, kind, st, val=None, node=None, fi=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.node = node
        self.fi = fi

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.val)


class Frame:
    def __init__(self, fi, depth, parent, callnode):
        self.fi = fi
        self.live = []
        self._nested = None
        self.depth = depth
        self.parent = parent
        self.callnode = callnode

    @property
    def nested(self):
        if self._nested is None:
            r = set()
            for x in ast.walk(self.fi.node):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)) and \
                        x is not self.fi.node:
                    r |= _reads(x)
            self._nested = frozenset(r)
        return self._nested

    @property
    def path(self):
        f, rv = self, []
        while f is not None:
            rv.append((f.fi.qual if f.fi else "?",
                       f.callnode.lineno if f.callnode is not None else 0,
                       f.callnode.col_offset
                       if f.callnode is not None else 0))
            f = f.parent
        return tuple(rv)


def fresh_atoms(st0, st):
    """conditions known in the second state only"""
    rv = set()
    for fld in ("truth", "eq", "neq", "types"):
        old = getattr(st0, fld)
        for k, v in getattr(st, fld).items():
            if k not in old or (old[k] is not v and old[k] != v):
                rv.add(k)
    return rv


#: the results are True or False
PREDICATES = {"in", "isinstance", "lt", "not", ".startswith", ".endswith",
              "call.perform_type_checks", "call.perform",
              "call.is_subclass_of", "call.is_compatible", "call.is_visible",
              "call.is_frozen", "call.contains", "call.contains_raw",
              "call.has_separators", "call.is_component_implicit_null"}


def ground(v):
    """identity decides equality"""
    return v.tag in ("const", "enum", "class") or (
        v.tag == "tuple" and all(ground(x) for x in v.a)) or (
        v.tag == "obj" and v.a[1:] and isinstance(v.a[1], tuple) and
        v.a[1][:1] == ("shape",)) or (
        v.tag == "op" and v.a[0] in ("os.path.abspath", "os.path.join"))


def once(items):
    rv = []
    for x in items:
        if x not in rv:
            rv.append(x)
    return rv


def cat(*parts):
    """concatenated texts"""
    rv = []
    for p in parts:
        while p.tag == "op" and p.a[0] == "str" and len(p.a) == 2:
            p = p.a[1]
        for x in (p.a[1:] if p.tag == "op" and p.a[0] == "cat" else (p,)):
            if is_const(x) and isinstance(x.a[1], (str, int)) and \
                    not isinstance(x.a[1], bool):
                t = str(x.a[1])
                if not t:
                    continue
                if rv and is_const(rv[-1]) and isinstance(rv[-1].a[1], str):
                    rv[-1] = const(rv[-1].a[1] + t)
                    continue
                x = const(t)
            rv.append(x)
    if not rv:
        return const("")
    if len(rv) == 1:
        return rv[0]
    return op("cat", *rv)


class Client:
    inline_depth = 7
    budget = 300000
    max_heads = 4
    max_states = 3000
    max_loop = 400
    opaque_raises = True
    fuse_generators = False
    kill_dead = False
    collapse_strings = False
    texts = False           # normal form of concatenations
    exact = False           # containers of known elements, exactly
    chars = frozenset()     # values which are texts of one character
    recursion = 0
    precise_get = False
    items = None            # known contents of iterables

    cuts = False            # note where the depth of calls is cut
    unroll_comps = False    # comprehensions over known sequences

    def prune(self, ip, st):
        return st

    record_branches = True

    def opaque(self, ip, fi):
        return False

    def instance(self, cname):
        """a fixed object for the only instance of a class"""
        return None

    def on_call(self, ip, st, fi, self_v, args, node):
        """resolved repo function; return None to use the default or a list
        of ('ret', st, V) / ('raise', st, V) / ('exit', st, V)"""
        return None

    def on_virtual(self, ip, st, name, cands, self_v, args, kw, node):
        return None

    def on_ext(self, ip, st, name, recv, args, kw, node):
        return None

    def on_split(self, ip, st, v):
        """None or (states where v is true, states where it is false)"""
        return None

    def on_eq(self, ip, st, a, b, val):
        """state (or None) in which a == b is val, or NotImplemented"""
        return NotImplemented

    def on_new(self, ip, st, cls, obj, args, kw, node):
        return st

    def on_attr(self, ip, st, base, name, node):
        return st

    def on_write(self, ip, st, base, name, val, node):
        return st

    def on_index(self, ip, st, base, idx, node):
        return st

    def on_mutate(self, ip, st, base, meth, args, node):
        return st

    def on_op(self, ip, st, name, args, node):
        return st

    #: conditions which only assertions introduced
    asserted = None

    def on_assert(self, ip, st, node, value):
        return st

    def iteration_begin(self, ip, st, node, it):
        return st

    def iteration_end(self, ip, st, node, kind, start):
        return st

    def iteration_abort(self, ip, st, node, kind, start):
        """the body leaves the loop by break/return"""
        return st

    def loop_exit(self, ip, st, node):
        return st


BUILTINS = {"len", "abs", "int", "str", "bool", "isinstance", "issubclass",
            "range", "enumerate", "zip", "reversed", "sorted", "list",
            "dict", "set", "tuple", "frozenset", "any", "all", "sum", "min",
            "max", "print", "open", "copy", "getattr", "hasattr", "type",
            "super", "id", "hash", "float", "repr", "iter", "next", "map",
            "filter", "ord", "chr", "object", "callable", "vars", "round",
            "divmod", "pow", "bytes", "format", "setattr", "delattr",
            "NotImplementedError", "Exception", "ValueError", "KeyError",
            "OSError", "TypeError", "IndexError", "AssertionError",
            "BrokenPipeError", "UnicodeDecodeError", "FileNotFoundError",
            "ImportError", "StopIteration", "RuntimeError",
            "AttributeError", "OverflowError", "RecursionError",
            "NotImplemented", "staticmethod", "classmethod", "property"}

EXC_BASES = {"UnicodeDecodeError": ("UnicodeError", "ValueError"),
             "FileNotFoundError": ("OSError",),
             "BrokenPipeError": ("ConnectionError", "OSError"),
             "KeyError": ("LookupError",), "IndexError": ("LookupError",),
             "OverflowError": ("ArithmeticError",),
             "ZeroDivisionError": ("ArithmeticError",),
             "RecursionError": ("RuntimeError",)}

BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul",
          ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
          ast.Pow: "pow", ast.BitAnd: "and", ast.BitOr: "or",
          ast.BitXor: "xor", ast.LShift: "shl", ast.RShift: "shr"}

PRED = {"eq", "lt", "in", "is", "not", "isinstance", "issubclass"}

PURE_STR = {"startswith", "endswith", "join", "lower", "upper", "split",
            "strip", "rstrip", "lstrip", "replace", "splitlines", "format",
            "count", "find", "index", "isdigit", "isalpha", "isalnum",
            "islower", "capitalize", "title", "encode", "isspace"}


#: methods of texts which only give a value
PURE_STR = frozenset((
    "capitalize", "casefold", "center", "count", "endswith", "expandtabs",
    "find", "format", "index", "isalnum", "isalpha", "isascii", "isdecimal",
    "isdigit", "isidentifier", "islower", "isnumeric", "isprintable",
    "isspace", "istitle", "isupper", "ljust", "lower", "lstrip",
    "removeprefix", "removesuffix", "replace", "rfind", "rindex", "rjust",
    "rstrip", "startswith", "strip", "swapcase", "title", "upper", "zfill"))
SET_METHODS = {
    "issubset": lambda x, y: all(v in y for v in x),
    "issuperset": lambda x, y: all(v in x for v in y),
    "isdisjoint": lambda x, y: not any(v in y for v in x),
    "union": lambda x, y: x + y,
    "intersection": lambda x, y: [v for v in x if v in y],
    "difference": lambda x, y: [v for v in x if v not in y],
    "symmetric_difference": lambda x, y: [v for v in x if v not in y] +
    [v for v in y if v not in x]}


class Interp:
    def __init__(self, model, client):
        self.m = model
        self.c = client
        self.steps = 0
        self.frame = None
        self.outer = []         # variables of the callers
        self.sinks = []          # exception sinks
        self.ext_try = []        # active external exception names
        self.gens = []           # generators being fused
        self._suf = {}
        self.unknown_iter = []
        self.notes = []          # things that made us imprecise
        self.inlined = set()
        self.analysed = set()
        self.opaque_seen = {}

    # -- entry --------------------------------------------------------------
    def run(self, fi, args, st=None):
        """args: dict param -> V.  Missing params become symbols."""
        st = st or State()
        env = {}
        for p in fi.params + fi.kwonly:
            env[p] = args.get(p) or sym(p)
        if fi.vararg:
            env[fi.vararg] = args.get(fi.vararg) or sym("*" + fi.vararg)
        if fi.kwarg:
            env[fi.kwarg] = args.get(fi.kwarg) or sym("**" + fi.kwarg)
        if fi.cls and fi.params and not fi.is_static:
            p0 = fi.params[0]
            if p0 == "self" and env[p0].tag == "sym" and \
                    env[p0] not in st.types:
                st = st._upd("types", env[p0],
                             self.m.subclasses(fi.cls.name))
        st = st.with_env(env)
        self.frame = Frame(fi, 0, None, None)
        self.analysed.add(fi.qual)
        self.sinks = [[]]
        outs = self.exec_func_body(fi, st)
        outs += self.sinks.pop()
        return outs

    def exec_func_body(self, fi, st):
        outs = []
        for o in self.block(fi.node.body, [st]):
            if o.kind == "next":
                outs.append(Outcome("return", o.st, NONE, fi.node, fi))
            elif o.kind in ("return", "raise", "exit", "ice"):
                outs.append(o)
            else:
                raise Undecided("outcome %s at function end" % o.kind)
        return outs

    def raise_(self, st, exc, node):
        self.sinks[-1].append(Outcome("raise", st, exc, node,
                                      self.frame.fi))

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.c.budget:
            raise Budget("step budget exceeded in %s" % self.frame.fi.qual)

    # -- dead variables ---------------------------------------------------------
    def kill_dead(self, st):
        keep = set(self.frame.nested)
        for x in self.frame.live:
            keep |= x
        dead = [k for k in st.env if k[0] != "$" and k != "self" and
                k not in keep]
        if not dead:
            return st
        env = {k: v for k, v in st.env.items() if k not in dead}
        return st.with_env(env)

    def suffixes(self, stmts):
        key = id(stmts)
        r = self._suf.get(key)
        if r is None:
            cur = frozenset()
            lst = [cur]
            for x in reversed(stmts):
                cur = (cur - frozenset(_kills(x))) | _ue(x)
                lst.append(cur)
            lst.reverse()
            r = self._suf[key] = (stmts, lst)
        return r[1]

    # -- statements -----------------------------------------------------------
    def dedupe(self, states):
        if self.c.kill_dead:
            states = [self.c.prune(self, self.kill_dead(s)) for s in states]
        if len(states) <= 1:
            return states
        seen = set()
        rv = []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                rv.append(s)
        if len(rv) > self.c.max_states:
            raise Budget("more than %d abstract states in %s" %
                         (self.c.max_states, self.frame.fi.qual))
        return rv

    def block(self, stmts, states):
        """-> list of Outcome; 'next' for fallthrough"""
        outs = []
        cur = states
        kill = self.c.kill_dead
        if kill:
            suf = self.suffixes(stmts)
            live = self.frame.live
        for i, s in enumerate(stmts):
            nxt = []
            if kill:
                live.append(suf[i])
            for st in cur:
                for o in self.stmt(s, st):
                    if o.kind == "next":
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            if kill:
                live.pop()
                live.append(suf[i + 1])
            cur = self.dedupe(nxt)
            if kill:
                live.pop()
            if not cur:
                break
        outs.extend(Outcome("next", st) for st in cur)
        return outs

    def stmt(self, s, st):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided("statement %s" % type(s).__name__)
        return m(s, st)

    def s_Pass(self, s, st):
        return [Outcome("next", st)]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [Outcome("next", st)]
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)) and \
                self.gens and self.gens[-1].frame is self.frame:
            outs = []
            if s.value.value is None:
                return self.fused_yield(st, NONE)
            for st2, v in self.ev(s.value.value, st):
                if isinstance(s.value, ast.Yield):
                    outs += self.fused_yield(st2, v)
                else:
                    key = "$yf%d" % s.lineno
                    outs += self.for_over(
                        s, st2, v, ast.Name(id=key, ctx=ast.Store()),
                        lambda x: self.fused_yield(x, x.env[key]), [])
            return outs
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            outs = []
            if s.value.value is None:
                return [Outcome("next", st.event("yield", NONE, s))]
            for st2, v in self.ev(s.value.value, st):
                outs.append(Outcome("next", st2.event(
                    "yield" if isinstance(s.value, ast.Yield)
                    else "yieldfrom", v, s)))
            return outs
        return [Outcome("next", st2) for st2, _ in self.ev(s.value, st)]

    def s_Assign(self, s, st):
        outs = []
        for st2, v in self.ev(s.value, st):
            cur = [st2]
            for t in s.targets:
                cur = [x for c in cur for x in self.assign(t, v, c)]
            outs += [Outcome("next", x) for x in cur]
        return outs

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [Outcome("next", st)]
        return [Outcome("next", x) for st2, v in self.ev(s.value, st)
                for x in self.assign(s.target, v, st2)]

    def s_AugAssign(self, s, st):
        load = _load(s.target)
        outs = []
        for st2, a in self.ev(load, st):
            for st3, b in self.ev(s.value, st2):
                nm = BINOPS.get(type(s.op), "?")
                if a.tag == "obj" and a.a[0] in ("list", "set") and \
                        nm in ("add", "or", "and", "sub"):
                    st4 = self.mutate(st3, a, "extend" if nm in (
                        "add", "or") else "i" + nm, [b], s)
                    outs.append(Outcome("next", st4))
                    continue
                if nm == "add" and b.tag == "obj" and b.a[0] == "list" and \
                        a.tag in ("sym", "attr"):
                    # a list grows in place
                    outs.append(Outcome("next", self.mutate(
                        st3, a, "extend", [b], s)))
                    continue
                for st4, v in self.binop(nm, a, b, st3, s):
                    outs += [Outcome("next", x)
                             for x in self.assign(s.target, v, st4)]
        return outs

    def s_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for c in cur:
                if isinstance(t, ast.Name):
                    nxt.append(c._del("env", t.id))
                elif isinstance(t, ast.Subscript):
                    for c2, b in self.ev(t.value, c):
                        for c3, i in self.ev(t.slice, c2):
                            nxt.append(self.mutate(c3, b, "__delitem__",
                                                   [i], s))
                elif isinstance(t, ast.Attribute):
                    for c2, b in self.ev(t.value, c):
                        nxt.append(self.write_attr(c2, b, t.attr,
                                                   sym("deleted"), s))
            cur = nxt
        return [Outcome("next", c) for c in cur]

    def s_Return(self, s, st):
        if s.value is None:
            return [Outcome("return", st, NONE, s, self.frame.fi)]
        return [Outcome("return", st2, v, s, self.frame.fi)
                for st2, v in self.ev(s.value, st)]

    def s_Break(self, s, st):
        return [Outcome("break", st)]

    def s_Continue(self, s, st):
        return [Outcome("continue", st)]

    def s_Raise(self, s, st):
        if s.exc is None:
            cur = st.env.get("$exc") or sym("exc")
            self.raise_(st, cur, s)
            return []
        for st2, v in self.ev(s.exc, st):
            if v.tag in ("class", "builtin", "ext"):
                v = mk("obj", v.a[0], ("exc", s.lineno))
            self.raise_(st2.event("raise", v, s), v, s)
        return []

    def s_Assert(self, s, st):
        t, f = self.cond(s.test, st)
        if not t and f:
            # definite assertion failure
            return [Outcome("ice", x, NONE, s, self.frame.fi) for x in f]
        rv = []
        for x in t:
            if self.c.asserted is not None:
                self.c.asserted |= fresh_atoms(st, x)
            x = self.c.on_assert(self, x, s, f)
            rv.append(Outcome("next", x))
        return rv

    def s_If(self, s, st):
        t, f = self.cond(s.test, st)
        outs = []
        if t:
            if self.c.record_branches and f:
                t = [x.event("br", s.test, True) for x in t]
            outs += self.block(s.body, self.dedupe(t))
        if f:
            if self.c.record_branches and t:
                f = [x.event("br", s.test, False) for x in f]
            outs += self.block(s.orelse, self.dedupe(f))
        return outs

    def s_FunctionDef(self, s, st):
        v = self.mkclosure(s, st)
        return [Outcome("next", st.set_var(s.name, v))]

    def mkclosure(self, node, st):
        return mk("closure", _Id(node), _Id(self.frame.fi),
                  frozenset((k, v) for k, v in st.env.items()
                            if k in _reads(node)))

    def s_ClassDef(self, s, st):
        raise Undecided("local class")

    def s_With(self, s, st):
        cur = [st]
        for item in s.items:
            nxt = []
            for c in cur:
                for c2, v in self.ev(item.context_expr, c):
                    c2 = c2.event("with", v, s)
                    if item.optional_vars is not None:
                        nxt += self.assign(item.optional_vars, v, c2)
                    else:
                        nxt.append(c2)
            cur = nxt
        return self.block(s.body, cur)

    def exc_matches(self, exc, names):
        """True / False / None"""
        if exc.tag == "obj":
            cls = exc.a[0]
        elif exc.tag == "sym" and exc.a[0].startswith("exc:"):
            cls = exc.a[0][4:]
        else:
            return None
        for n in names:
            if n in ("Exception", "BaseException"):
                return True
            if n == cls:
                return True
            if n in EXC_BASES.get(cls, ()):
                return True
            ci = self.m.classes.get(cls)
            if ci is not None and ci.is_subclass(n):
                return True
        return False

    def s_Try(self, s, st):
        hs = []
        for h in s.handlers:
            if h.type is None:
                names = ["BaseException"]
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) \
                    else [h.type]
                names = []
                for t in ts:
                    if isinstance(t, ast.Name):
                        r = self.m.resolve_global(self.frame.fi.module, t.id)
                        names.append(r[1].name if r and r[0] == "class"
                                     else t.id)
                    elif isinstance(t, ast.Attribute):
                        names.append(t.attr)
            hs.append((names, h))
        ext = [n for names, _ in hs for n in names
               if n not in self.m.classes]
        self.ext_try.append(ext)
        self.sinks.append([])
        try:
            outs = self.block(s.body, [st])
        finally:
            raised = self.sinks.pop()
            self.ext_try.pop()
        rest = []
        final = []
        for o in outs:
            if o.kind == "next" and s.orelse:
                rest += self.block(s.orelse, [o.st])
            else:
                rest.append(o)
        # group raised by handler
        escaping = []
        for o in raised:
            done = False
            for names, h in hs:
                mt = self.exc_matches(o.val, names)
                if mt is False:
                    continue
                hst = o.st.with_env(dict(
                    self._env_at_raise(o, st))).event("caught", o.val, h)
                if h.name:
                    hst = hst.set_var(h.name, o.val)
                hst = hst.set_var("$exc", o.val)
                final.append((hst, h))
                if mt:
                    done = True
                    break
            if not done:
                escaping.append(o)
        byh = {}
        for hst, h in final:
            byh.setdefault(id(h), (h, []))[1].append(hst)
        for h, sts in byh.values():
            rest += self.block(h.body, self.dedupe(sts))
        if s.finalbody:
            out2 = []
            for o in rest:
                for fo in self.block(s.finalbody, [o.st]):
                    if fo.kind == "next":
                        out2.append(Outcome(o.kind, fo.st, o.val, o.node,
                                            o.fi))
                    else:
                        out2.append(fo)
            rest = out2
            esc2 = []
            for o in escaping:
                saved = o.st.env
                for fo in self.block(s.finalbody,
                                     [o.st.with_env(dict(
                                         self._env_at_raise(o, st)))]):
                    if fo.kind == "next":
                        esc2.append(Outcome("raise", fo.st, o.val, o.node,
                                            o.fi))
                    else:
                        rest.append(fo)
            escaping = esc2
        self.sinks[-1].extend(escaping)
        return rest

    def _env_at_raise(self, o, st):
        # raising states carry the env of the frame they were raised in;
        # call() re-installs the caller env (see call_func), so it is the
        # current frame's env here
        return o.st.env

    # -- loops ----------------------------------------------------------------
    def s_While(self, s, st):
        def nxt(x):
            t, f = self.cond(s.test, x)
            if not isinstance(s.test, ast.Constant):
                t = [y.event("br", s.test, True) for y in t] \
                    if self.c.record_branches else t
            return t, f

        return self.loop(s, st, nxt, lambda x: self.block(s.body, [x]),
                         s.orelse, None)

    def s_For(self, s, st):
        outs = []
        for st2, it in self.ev(s.iter, st):
            outs += self.for_over(s, st2, it, s.target,
                                  lambda x: self.block(s.body, [x]),
                                  s.orelse)
        return outs

    def letters(self, v):
        """the characters of a text of known length"""
        if is_const(v) and isinstance(v.a[1], str):
            return [const(x) for x in v.a[1]]
        if v in self.c.chars:
            return [v]
        if v.tag == "op" and v.a[0] == "cat":
            rv = []
            for x in v.a[1:]:
                x = self.letters(x)
                if x is None:
                    return None
                rv += x
            return rv
        return None

    def places(self, st, ls, test):
        """-> list of (state, which of the characters satisfy the test)"""
        cur = [(st, ())]
        for x in ls:
            nxt = []
            for s, got in cur:
                t, f = test(s, self.norm(s, x))
                nxt += [(y, got + (True,)) for y in t]
                nxt += [(y, got + (False,)) for y in f]
            cur = nxt
        return cur

    def of_letters(self, st, b, name, args, node):
        """methods of a text of known length"""
        b = self.norm(st, b)
        if is_const(b) and all(is_const(x) for x in args) and name in (
                "lstrip", "rstrip", "strip", "count", "find", "rfind",
                "replace", "isspace"):
            return [(st, const(getattr(b.a[1], name)(
                *[x.a[1] for x in args])))]
        ls = self.letters(b)
        if ls is None:
            return None
        if name in ("count", "find", "rfind", "split", "rsplit",
                    "rpartition") and args and is_const(args[0]) and \
                isinstance(args[0].a[1], str) and len(args[0].a[1]) == 1:
            if not all(is_const(x) for x in args[1:]):
                return None
            off = 0
            if name in ("count", "find", "rfind"):
                lim = [x.a[1] for x in args[1:]]
                r = range(len(ls))[slice(*(lim + [None] * (2 - len(lim))))]
                off, ls = r.start, [ls[i] for i in r]

            def test(s, x):
                return self.split(s, self.compare_eq(s, x, args[0], node))
            rv = []
            for s, got in self.places(st, ls, test):
                at = [i for i, g in enumerate(got) if g]
                if name == "count":
                    v = const(len(at))
                elif name in ("find", "rfind"):
                    v = const(off + at[0 if name == "find" else -1]
                              if at else -1)
                else:
                    if name == "rpartition":
                        at = at[-1:]
                    elif len(args) > 1:
                        n = args[1].a[1]
                        at = at[:n] if name == "split" else \
                            at[len(at) - n:]
                    parts, i = [], 0
                    for k in at + [len(ls)]:
                        parts.append(cat(*ls[i:k]))
                        i = k + 1
                    if name == "rpartition":
                        parts = [const("")] * (2 - len(at) * 2) + (
                            [parts[0], args[0], parts[1]] if at else parts)
                        rv.append((s, mk("tuple", *parts)))
                        continue
                    s, v = self.alloc("list", node, s)
                    s = s.set_attr(v, "$items", mk("tuple", *parts))
                rv.append((s, v))
            return rv
        if name in ("lstrip", "rstrip", "strip") and not args:
            def space(s, x):
                if is_const(x):
                    return ([s], []) if x.a[1].isspace() else ([], [s])
                return self.split(s, op(".isspace", x))
            cur = [(st, tuple(ls))]
            for end in ([0] if name != "rstrip" else []) + (
                    [-1] if name != "lstrip" else []):
                nxt = []
                while cur:
                    s, x = cur.pop()
                    if not x:
                        nxt.append((s, x))
                        continue
                    t, f = space(s, self.norm(s, x[end]))
                    cur += [(y, x[1:] if end == 0 else x[:-1]) for y in t]
                    nxt += [(y, x) for y in f]
                cur = nxt
            return [(s, cat(*x)) for s, x in cur]
        return None

    def setlike(self, v):
        return (v.tag == "obj" and v.a[0] == "set") or (
            v.tag == "op" and v.a[0] in ("keys", "items"))

    def compare_eq(self, st, a, b, node):
        return self.compare(ast.Eq(), a, b, st, node)

    def closed_items(self, st, it):
        """known finite sequence -> list of V or None"""
        if it.tag == "tuple":
            return list(it.a)
        if it.tag == "const" and isinstance(it.a[1], (tuple,)):
            return [const(x) for x in it.a[1]]
        if self.c.chars:
            r = self.letters(it)
            if r is not None:
                return r
        if it.tag == "obj" and it.a[0] in ("list", "set"):
            items = st.heap.get((it, "$items"))
            if items is not None and (it, "$open") not in st.heap:
                return list(items.a)
        if it.tag == "obj" and it.a[0] == "dict":
            items = st.heap.get((it, "$items"))
            if items is not None and (it, "$open") not in st.heap:
                return [kv.a[0] for kv in items.a]
        if it.tag == "op" and it.a[0] in ("items", "values", "keys"):
            b = it.a[1]
            if b.tag == "obj" and b.a[0] == "dict":
                items = st.heap.get((b, "$items"))
                if items is not None and (b, "$open") not in st.heap:
                    if it.a[0] == "items":
                        return list(items.a)
                    i = 0 if it.a[0] == "keys" else 1
                    return [kv.a[i] for kv in items.a]
        if it.tag == "op" and it.a[0] == "range" and \
                all(is_const(x) and isinstance(x.a[1], int)
                    for x in it.a[1:]):
            r = range(*[x.a[1] for x in it.a[1:]])
            if len(r) <= 16:
                return [const(i) for i in r]
        if it.tag == "op" and it.a[0] == "enumerate":
            b = self.closed_items(st, it.a[1])
            if b is not None:
                return [mk("tuple", const(i), x) for i, x in enumerate(b)]
        if it.tag == "op" and it.a[0] == "zip":
            bs = [self.closed_items(st, x) for x in it.a[1:]]
            if all(b is not None for b in bs):
                return [mk("tuple", *xs) for xs in zip(*bs)]
        if it.tag == "op" and it.a[0] == "reversed":
            b = self.closed_items(st, it.a[1])
            if b is not None:
                return list(reversed(b))
        if it.tag == "op" and it.a[0] == "add" and len(it.a) == 3:
            bs = [self.closed_items(st, x) for x in it.a[1:]]
            if all(b is not None for b in bs):
                return bs[0] + bs[1]
        if it.tag == "op" and it.a[0] == "slice":
            b = self.closed_items(st, it.a[1])
            ix = list(it.a[3:])
            if b is not None and all(x.tag == "const" for x in ix):
                return b[slice(*[ix.pop(0).a[1] if f else None
                                 for f in it.a[2]])]
        if self.c.items:
            r = self.c.items.get(it)
            if r is not None:
                return list(r)
        if it.tag == "gdict":
            return [kv.a[0] for kv in it.a]
        if it.tag == "class":
            c = self.m.classes.get(it.a[0])
            if c and c.is_enum:
                return [mk("enum", c.name, x) for x in c.enum_members]
        return None

    def pairs(self, st, it):
        """known items of a dictionary or sequence of pairs with different
        literal keys"""
        if it.tag == "obj" and it.a[0] == "dict":
            it = op("items", it)
        items = self.closed_items(st, it)
        if items is None or \
                any(x.tag != "tuple" or len(x.a) != 2 or
                    not is_lit(x.a[0]) for x in items) or \
                len({x.a[0] for x in items}) != len(items):
            return None
        return items

    def elem_of(self, st, it, site):
        """generic element of an unknown iterable"""
        self.unknown_iter.append(it)
        if it.tag == "op":
            n = it.a[0]
            if n == "enumerate":
                return mk("tuple", mk("phi", site, "idx"),
                          self.elem_of(st, it.a[1], site))
            if n == "zip":
                return mk("tuple", *[self.elem_of(st, x, site)
                                     for x in it.a[1:]])
            if n in ("reversed", "sorted", "list", "iter", "set", "tuple",
                     "keys", "frozenset"):
                if len(it.a) > 1 and isinstance(it.a[1], V):
                    return self.elem_of(st, it.a[1], site)
            if n == "range":
                return mk("phi", site, "range")
            if n == "items":
                k = mk("elem", it.a[1], site)
                return mk("tuple", k, mk("val", it.a[1], site))
            if n == "values":
                return mk("val", it.a[1], site)
        if it.tag == "comp":
            accs = it.a[1]
            if len(accs) == 1:
                return list(accs)[0]
        if it.tag == "obj":
            items = st.heap.get((it, "$items"))
            if items is not None and len(items.a) == 1 and \
                    it.a[0] != "dict":
                return items.a[0]
        return mk("elem", it, site)

    # -- generators, fused with their consuming loop ---------------------------
    def fuse(self, s, st, gen, target, body, orelse):
        fi = self.m.functions[gen.a[0]]
        if sum(g.frame.fi is fi for g in self.gens) > self.c.recursion:
            raise Undecided("recursive generator %s" % fi.qual)
        env = dict(gen.a[1])
        env["$outer"] = _encenv(st.env)
        fr = Frame(fi, self.frame.depth + 1, self.frame, s)
        rec = _Gen(fr, self.frame, s, gen, target, body)
        saved = self.frame
        self.inlined.add(fi.qual)
        self.analysed.add(fi.qual)
        self.gens.append(rec)
        self.frame = fr
        self.sinks.append([])
        try:
            res = self.block(fi.node.body, [st.with_env(env)])
        finally:
            raised = self.sinks.pop()
            self.frame = saved
            self.gens.pop()
        for o in raised:
            while "$outer" in o.st.env and o.st.env.get("$id") is None and \
                    o.st.env["$outer"] is not st.env.get("$outer"):
                o.st = o.st.with_env(_decenv(o.st.env["$outer"]))
            self.sinks[-1].append(o)
        outs, exits, brk = [], [], []
        for o in res:
            if o.kind in ("next", "return"):
                exits.append(o.st.with_env(_decenv(o.st.env["$outer"])))
            elif o.kind == "gen" and o.val[0] is rec:
                inner = o.val[1]
                if inner.kind == "break":
                    brk.append(inner.st)
                else:
                    outs.append(inner)
            elif o.kind in ("exit", "ice", "gen"):
                outs.append(o)
            else:
                raise Undecided("outcome %s in generator" % o.kind)
        exits = [self.c.loop_exit(self, x, s) for x in self.dedupe(exits)]
        if orelse:
            outs += self.block(orelse, exits)
        else:
            outs += [Outcome("next", x) for x in exits]
        outs += [Outcome("next", x) for x in self.dedupe(brk)]
        return outs

    def drained(self, n, st, gen):
        """the items of a generator, as a list"""
        st, lst = self.alloc("list", n, st)
        st = st.set_attr(lst, "$items", mk("tuple"))
        key = "$drain%d_%d" % (n.lineno, n.col_offset)
        t = ast.copy_location(ast.Name(id=key, ctx=ast.Store()), n)
        live = self.frame.live
        live.append(frozenset([key]))

        def body(x):
            got = x.heap.get((lst, "$items"))
            return [Outcome("next", x.set_attr(lst, "$items", mk(
                "tuple", *got.a, x.env[key])))]
        rv = []
        saved = dict(st.env)
        try:
            for o in self.for_over(n, st, gen, t, body, []):
                if o.kind == "next":
                    env = {k: v for k, v in o.st.env.items() if k in saved}
                    rv.append((o.st.with_env(env), lst))
                elif o.kind in ("exit", "ice"):
                    self.sinks[0].append(o)
                else:
                    self.sinks[-1].append(o)
        finally:
            live.pop()
        return rv

    def fused_yield(self, st, v):
        """run the consumer's loop body for one yielded value"""
        rec = self.gens[-1]
        genv = {k: x for k, x in st.env.items() if k != "$outer"}
        st = st.with_env(_decenv(st.env["$outer"]))
        outs = []
        savedf = self.frame
        self.frame = rec.cframe
        self.gens.pop()
        try:
            for c in self.assign(rec.target, v, st):
                c = self.c.iteration_begin(self, c, rec.node, rec.gen)
                for o in rec.body(c):
                    if o.kind in ("next", "continue"):
                        x = self.c.iteration_end(self, o.st, rec.node,
                                                 o.kind, c)
                        if x is None:
                            continue
                        env = dict(genv)
                        env["$outer"] = _encenv(x.env)
                        outs.append(Outcome("next", x.with_env(env)))
                    else:
                        o.st = self.c.iteration_abort(
                            self, o.st, rec.node, o.kind, c)
                        outs.append(Outcome("gen", o.st, (rec, o)))
        finally:
            self.frame = savedf
            self.gens.append(rec)
        return outs

    def for_over(self, s, st, it, target, body, orelse):
        if it.tag == "gen" and self.c.fuse_generators:
            return self.fuse(s, st, it, target, body, orelse)
        items = self.closed_items(st, it)
        if items is None and it.tag == "comp" and len(it.a[1]) <= 2 and \
                all(x in (TRUE, FALSE, NONE) for x in it.a[1]):
            # what has been collected, in any order
            outs = []
            for p in itertools.permutations(sorted(it.a[1], key=show)):
                outs += self.over_items(s, st, it, p, target, body, orelse)
            return outs
        if items is not None and len(items) <= 24:
            return self.over_items(s, st, it, items, target, body, orelse)
        site = (self.frame.path, s.lineno, s.col_offset)
        e = self.elem_of(st, it, site)
        fresh = [x for x in subterms(e) if x.tag in ("elem", "val", "phi")
                 and len(x.a) > 1 and (x.a[1] == site or x.a[0] == site)]

        def nxt(x):
            y = x
            for f in fresh:
                y = y.drop_terms(f)
            # element type facts
            return self.assign(target, e, y), [x]

        return self.loop(s, st, nxt, body, orelse, it)

    def over_items(self, s, st, it, items, target, body, orelse):
        outs = []
        cur = [st]
        brk = []
        done = []
        live = it.tag == "obj" and it.a[0] == "list"
        i = 0
        while cur:
            nxt = []
            for c in cur:
                now = items
                if live:
                    # a list can change while it is iterated over
                    now = self.closed_items(c, it)
                    if now is None:
                        now = items
                if i >= len(now):
                    done.append(c)
                    continue
                if i > 60:
                    raise Undecided("a list which grows in a loop over it")
                for c2 in self.assign(target, now[i], c):
                    c2 = self.c.iteration_begin(self, c2, s, it)
                    start = c2
                    for o in body(c2):
                        if o.kind in ("next", "continue"):
                            nxt.append(self.c.iteration_end(
                                self, o.st, s, o.kind, start))
                        elif o.kind == "break":
                            brk.append(self.c.iteration_abort(
                                self, o.st, s, o.kind, start))
                        else:
                            o.st = self.c.iteration_abort(
                                self, o.st, s, o.kind, start)
                            outs.append(o)
            cur = self.dedupe(nxt)
            i += 1
        cur = self.dedupe(done)
        cur = [self.c.loop_exit(self, x, s) for x in cur]
        if orelse:
            outs += self.block(orelse, cur)
        else:
            outs += [Outcome("next", x) for x in cur]
        outs += [Outcome("next", x) for x in brk]
        return outs

    def join(self, a, b, site):
        """least (in our order) state above a and b"""
        if a.key() == b.key():
            return a
        s = a.copy()
        extra_types = {}

        def jv(x, y, tag):
            if x is y:
                return x
            p = mk("phi", site, tag)
            tx, ty = self.types_of(a, x), self.types_of(b, y)
            if tx is not None and ty is not None:
                extra_types[p] = tx | ty
            return p

        def jenv(ea, eb, depth):
            env = {}
            for k in set(ea) | set(eb):
                x, y = ea.get(k), eb.get(k)
                if x is None or y is None:
                    # possibly unbound: keep as phi
                    env[k] = mk("phi", site, k + "^" * depth)
                elif k == "$outer" and x is not y:
                    # the variables of the consumer of a generator
                    env[k] = _encenv(jenv(_decenv(x), _decenv(y), depth + 1))
                else:
                    env[k] = jv(x, y, k + "^" * depth)
            return env
        s.env = jenv(a.env, b.env, 0)
        heap = {}
        aver = dict(a.aver)
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is not None and y is not None:
                if k[1] == "$items" and x is not y:
                    heap[(k[0], "$open")] = TRUE
                    if x.a and y.a:
                        # keep a representative element if unique
                        xs = set(x.a) | set(y.a)
                    else:
                        xs = set(x.a) | set(y.a)
                    heap[k] = mk("tuple", *sorted(xs, key=lambda v: v.n))
                else:
                    heap[k] = jv(x, y, (k[0].n, k[1]))
            elif k[1] in ("$open",):
                heap[k] = x or y
            elif k[0].tag == "obj":
                heap[k] = x or y      # object only exists on one side
            else:
                aver[k[1]] = ("phi", site)
        s.heap = heap
        for k in set(a.aver) | set(b.aver):
            if a.aver.get(k) != b.aver.get(k):
                aver[k] = ("phi", site)
        s.aver = aver
        cver = {}
        for k in set(a.cver) | set(b.cver):
            x, y = a.cver.get(k), b.cver.get(k)
            cver[k] = x if x == y else ("phi", site)
        s.cver = cver
        ty = {}
        for k in set(a.types) | set(b.types):
            x, y = self.types_of(a, k), self.types_of(b, k)
            if x is not None and y is not None:
                ty[k] = x | y
        for k, t in extra_types.items():
            ty[k] = t
        s.types = ty
        s.truth = {k: v for k, v in a.truth.items()
                   if b.truth.get(k) == v}
        s.eq = {k: v for k, v in a.eq.items() if b.eq.get(k) is v}
        s.neq = {k: v & b.neq[k] for k, v in a.neq.items() if k in b.neq}
        s._key = None
        return s

    def loop(self, node, st, nxt, body, orelse, it):
        site = (self.frame.path, node.lineno, node.col_offset)
        pending = [st]
        seen = set()
        heads = {}          # ts -> list of states
        widened = {}        # ts -> state
        outs = []
        exits = []
        breaks = []
        while pending:
            self.tick()
            s = pending.pop(0)
            k = s.key()
            if k in seen:
                continue
            if s.ts in widened:
                w = widened[s.ts]
                j = self.join(w, s, site)
                # join everything which waits for this head at once
                same = [x for x in pending if x.ts == s.ts]
                if same:
                    pending = [x for x in pending if x.ts != s.ts]
                    for x in same:
                        j = self.join(j, x, site)
                if j.key() == w.key():
                    continue
                widened[s.ts] = j
                s = j
                k = s.key()
                if k in seen:
                    continue
            elif len(heads.get(s.ts, ())) >= self.c.max_heads:
                j = s
                for h in heads[s.ts]:
                    j = self.join(h, j, site)
                same = [x for x in pending if x.ts == s.ts]
                if same:
                    pending = [x for x in pending if x.ts != s.ts]
                    for x in same:
                        j = self.join(j, x, site)
                widened[s.ts] = j
                s = j
                k = s.key()
                if k in seen:
                    continue
            seen.add(k)
            heads.setdefault(s.ts, []).append(s)
            if len(seen) > self.c.max_loop:
                raise Budget("loop does not converge at %s" %
                             self.frame.fi.loc(node))
            enters, leaves = nxt(s)
            exits += leaves
            for e in enters:
                e = self.c.iteration_begin(self, e, node, it)
                for o in body(e):
                    if o.kind in ("next", "continue"):
                        x = self.c.iteration_end(self, o.st, node, o.kind,
                                                 e)
                        if x is not None:
                            pending.append(x)
                    elif o.kind == "break":
                        breaks.append(self.c.iteration_abort(
                            self, o.st, node, o.kind, e))
                    else:
                        o.st = self.c.iteration_abort(self, o.st, node,
                                                      o.kind, e)
                        outs.append(o)
        exits = [self.c.loop_exit(self, x, node) for x in
                 self.dedupe(exits)]
        if orelse:
            outs += self.block(orelse, exits)
        else:
            outs += [Outcome("next", x) for x in exits]
        outs += [Outcome("next", x) for x in self.dedupe(breaks)]
        return outs

    # -- assignment -------------------------------------------------------------
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            return [st.set_var(t.id, v)]
        if isinstance(t, ast.Attribute):
            return [self.write_attr(st2, b, t.attr, v, t)
                    for st2, b in self.ev(t.value, st)]
        if isinstance(t, (ast.Tuple, ast.List)):
            items = None
            if v.tag == "tuple" and len(v.a) == len(t.elts):
                items = v.a
            else:
                ci = self.closed_items(st, v)
                if ci is not None and len(ci) == len(t.elts):
                    items = ci
            if items is None:
                items = [op("item", v, i) for i in range(len(t.elts))]
            cur = [st]
            for e, x in zip(t.elts, items):
                cur = [y for c in cur for y in self.assign(e, x, c)]
            return cur
        if isinstance(t, ast.Subscript):
            rv = []
            if isinstance(t.slice, ast.Slice) and self.c.exact and \
                    t.slice.lower is None and t.slice.upper is None and \
                    t.slice.step is None:
                return [self.mutate(st2, b, "replace", [v], t)
                        for st2, b in self.ev(t.value, st)]
            for st2, b in self.ev(t.value, st):
                for st3, i in self.ev(t.slice, st2):
                    rv.append(self.store_item(st3, b, i, v, t))
            return rv
        if isinstance(t, ast.Starred):
            return self.assign(t.value, op("rest", v), st)
        raise Undecided("assignment target %s" % type(t).__name__)

    def write_attr(self, st, b, name, v, node):
        st = self.c.on_write(self, st, b, name, v, node)
        return st.set_attr(b, name, v)

    def bump(self, st, b):
        n = st.cver.get(b, 0)
        n2 = n + 1 if isinstance(n, int) else (n, 1)
        if isinstance(n, tuple) and n and n[0] != "phi":
            n2 = (n, 1) if len(str(n)) < 60 else n
        return st._upd("cver", b, n2)

    def store_item(self, st, b, i, v, node):
        st = self.c.on_mutate(self, st, b, "__setitem__", [i, v], node)
        if b.tag == "obj" and b.a[0] == "dict":
            items = st.heap.get((b, "$items"))
            items = list(items.a) if items is not None else []
            if i.tag in ("const", "enum") or (self.c.exact and ground(i)):
                if any(kv.a[0] is i for kv in items):
                    items = [mk("tuple", i, v) if kv.a[0] is i else kv
                             for kv in items]
                else:
                    items.append(mk("tuple", i, v))
                st = st.set_attr(b, "$items", mk("tuple", *items))
                return self.bump(st, b)
            if (b, "$open") not in st.heap and len(items) < 8:
                eqs = [self.fold_eq(st, kv.a[0], i) for kv in items]
                if all(e is FALSE for e in eqs):
                    items.append(mk("tuple", i, v))
                    st = st.set_attr(b, "$items", mk("tuple", *items))
                    return self.bump(st, b)
            st = st.set_attr(b, "$open", TRUE)
            return self.bump(st, b)
        st = self.bump(st, b)
        return st.set_attr(b, ("item", i), v)

    def mutate(self, st, b, meth, args, node):
        st = self.c.on_mutate(self, st, b, meth, args, node)
        if self.c.exact and b.tag == "obj":
            r = self.exactly(st, b, meth, [self.norm(st, a) for a in args])
            if r is not None:
                return self.bump(st.set_attr(b, "$items", mk("tuple", *r)),
                                 b)
        if b.tag == "obj" and b.a[0] in ("list", "set"):
            items = st.heap.get((b, "$items"))
            items = list(items.a) if items is not None else []
            if meth in ("append", "add"):
                if (b, "$open") in st.heap:
                    if args[0] not in items:
                        items.append(args[0])
                        items.sort(key=lambda v: v.n)
                    return st.set_attr(b, "$items", mk("tuple", *items))
                items.append(args[0])
                return st.set_attr(b, "$items", mk("tuple", *items))
            if meth in ("extend", "update"):
                more = self.closed_items(st, args[0]) if args else []
                if more is not None:
                    return st.set_attr(b, "$items",
                                       mk("tuple", *(items + more)))
            if meth == "clear":
                return st.set_attr(b, "$items", mk("tuple"))
            if meth == "pop" and not args and items and \
                    (b, "$open") not in st.heap:
                return st.set_attr(b, "$items", mk("tuple", *items[:-1]))
            st = st.set_attr(b, "$open", TRUE)
            return self.bump(st, b)
        if b.tag == "obj" and b.a[0] == "dict":
            h = st.heap.get((b, "$items"))
            if meth in ("__delitem__", "pop") and args and \
                    self.known_dict(st, b) and self.one_key(st, h, args[0]):
                key = self.norm(st, args[0])
                st = st.set_attr(b, "$items", mk("tuple", *[
                    kv for kv in h.a if kv.a[0] is not key]))
            elif meth == "clear" and self.known_dict(st, b):
                st = st.set_attr(b, "$items", mk("tuple"))
            else:
                st = st.set_attr(b, "$open", TRUE)
        # item knowledge is stale for non-keyed mutations
        if any(k[0] is b and isinstance(k[1], tuple) for k in st.heap):
            s = st.copy()
            s.heap = {k: x for k, x in s.heap.items()
                      if not (k[0] is b and isinstance(k[1], tuple))}
            st = s
        return self.bump(st, b)

    def one_key(self, st, h, key):
        """exactly one of the keys is this one"""
        key = self.norm(st, key)
        return any(kv.a[0] is key for kv in h.a) and all(
            kv.a[0] is key or self.assume_eq(st, kv.a[0], key, True) is None
            for kv in h.a)

    def exactly(self, st, b, meth, args):
        """the elements after a change"""
        items = self.closed_items(st, b)
        if items is None:
            return None
        if b.a[0] == "dict":
            d = {kv.a[0]: kv for kv in st.heap[(b, "$items")].a}
            if not all(ground(k) for k in d):
                return None
            if meth == "update" and len(args) == 1:
                if args[0].tag == "obj" and args[0].a[0] == "dict":
                    if self.closed_items(st, args[0]) is None:
                        return None
                    more = st.heap[(args[0], "$items")].a
                else:
                    more = self.closed_items(st, args[0])
                if more is None or not all(
                        x.tag == "tuple" and len(x.a) == 2 for x in more):
                    return None
                d.update({x.a[0]: x for x in more})
                return list(d.values())
            if meth in ("__delitem__", "pop") and args and args[0] in d:
                del d[args[0]]
                return list(d.values())
            if meth == "setdefault" and len(args) == 2 and ground(args[0]):
                d.setdefault(args[0], mk("tuple", *args))
                return list(d.values())
            if meth == "clear":
                return []
            return None
        other = None
        if len(args) == 1:
            other = self.closed_items(st, args[0])
        if b.a[0] == "set":
            if not all(ground(x) for x in items):
                return None
            if meth in ("add", "discard", "remove") and ground(args[0]):
                if meth == "add":
                    return once(items + args)
                return [x for x in items if x is not args[0]]
            if meth == "pop" and not args and items:
                return items[:-1]
            if other is not None and all(ground(x) for x in other):
                if meth in ("update", "extend"):
                    return once(items + other)
                if meth in ("iand", "intersection_update"):
                    return [x for x in items if x in other]
                if meth in ("isub", "difference_update"):
                    return [x for x in items if x not in other]
            return None
        if b.a[0] == "list":
            if meth == "__delitem__" and is_const(args[0]) and isinstance(
                    args[0].a[1], int) and args[0].a[1] < len(items):
                del items[args[0].a[1]]
                return items
            if meth == "pop" and args and is_const(args[0]) and \
                    args[0].a[1] < len(items):
                items.pop(args[0].a[1])
                return items
            if meth == "insert" and is_const(args[0]):
                items.insert(args[0].a[1], args[1])
                return items
            if meth == "remove" and all(ground(x) for x in items + args) \
                    and args[0] in items:
                items.remove(args[0])
                return items
            if meth == "sort" and not args:
                return self.in_order(items)
            if meth == "reverse":
                return items[::-1]
            if meth == "replace" and other is not None:
                return other
        return None

    def in_order(self, items):
        def key(x):
            if x.tag == "tuple":
                return tuple(key(y) for y in x.a)
            return x.a[1]
        if all(ground(x) and x.tag in ("const", "tuple") for x in items):
            try:
                return sorted(items, key=key)
            except TypeError:
                pass
        return None

    # -- facts --------------------------------------------------------------------
    def types_of(self, st, v):
        """frozenset of possible concrete type names, or None (unknown)"""
        t = st.types.get(v)
        if t is not None:
            return t
        tag = v.tag
        if tag == "const":
            return frozenset([v.a[0]])
        if tag == "enum":
            return frozenset([v.a[0]])
        if tag == "obj":
            return frozenset([v.a[0]]) if v.a[0] in self.m.universe \
                else frozenset(["?"])
        if tag == "tuple":
            return frozenset(["tuple"])
        if tag in ("class",):
            return frozenset(["type"])
        if tag in ("func", "closure", "bound", "builtin"):
            return frozenset(["func"])
        if tag == "comp":
            return frozenset([v.a[0]]) if v.a[0] in self.m.universe else None
        if v in st.eq:
            return self.types_of(st, st.eq[v])
        if tag == "op":
            n = v.a[0]
            if n in PRED:
                return frozenset(["bool"])
            if n in ("fmt", "str", "strcall"):
                return frozenset(["str"])
            if n in ("len", "int"):
                return frozenset(["int"])
            if n in ("list", "sorted"):
                return frozenset(["list"])
        if tag == "attr":
            bt = self.types_of(st, v.a[0])
            if bt is not None:
                return self.field_type(bt, v.a[1])
        return None

    def field_type(self, base_types, fld):
        ft = self.m.field_types()
        rv = frozenset()
        for t in base_types:
            if t == "NoneType":
                continue
            c = self.m.classes.get(t)
            if c is None:
                return None
            for k in c.mro():
                if (k.name, fld) in ft:
                    rv |= ft[(k.name, fld)]
                    break
            else:
                return None
        return rv or None

    def norm(self, st, v):
        e = st.eq.get(v)
        if e is not None:
            return e
        t = st.truth.get(v)
        if t is not None and v.tag == "op" and v.a[0] in PRED:
            return TRUE if t else FALSE
        if v.tag == "op" and v.a[0] == "not":
            x = self.norm(st, v.a[1])
            if x is TRUE:
                return FALSE
            if x is FALSE:
                return TRUE
        tt = st.types.get(v)
        if tt is not None and len(tt) == 1 and "NoneType" in tt:
            return NONE
        return v

    def refine_types(self, st, v, allowed):
        """None when infeasible"""
        cur = self.types_of(st, v)
        new = allowed if cur is None else (cur & allowed)
        if not new:
            return None
        if cur is not None and new == cur:
            return st
        if v.tag in ("const", "enum", "obj", "tuple"):
            return st
        st = st._upd("types", v, new)
        if new == frozenset(["NoneType"]):
            st = st._upd("eq", v, NONE)
        return st

    def set_truth(self, st, v, b):
        """assume truthiness of v; None if infeasible"""
        v = self.norm(st, v)
        if v.tag == "const":
            return st if bool(v.a[1]) == b else None
        if v.tag in ("enum", "class", "func", "closure", "bound", "module",
                     "builtin", "ext"):
            return st if b else None
        if v.tag == "tuple":
            return st if bool(v.a) == b else None
        if v.tag == "obj":
            if v.a[0] in ("list", "set", "dict"):
                items = st.heap.get((v, "$items"))
                if items is not None and (v, "$open") not in st.heap:
                    return st if bool(items.a) == b else None
                if items is not None and items.a and \
                        v.a[0] == "list" and False:
                    return st if b else None
                cur = st.truth.get(op("nonempty", v, st.cver.get(v, 0)))
                if cur is not None:
                    return st if cur == b else None
                return st._upd("truth", op("nonempty", v,
                                           st.cver.get(v, 0)), b)
            if v.a[0] not in self.m.has_bool:
                return st if b else None
        cur = st.truth.get(v)
        if cur is not None:
            return st if cur == b else None
        if v.tag == "op":
            n = v.a[0]
            if n == "not":
                return self.set_truth(st, v.a[1], not b)
            if n == "eq":
                return self.assume_eq(st, v.a[1], v.a[2], b)
            if n == "isinstance":
                return self.assume_isinstance(st, v.a[1], v.a[2], b)
            if n == "lt":
                return self.assume_lt(st, v.a[1], v.a[2], b)
            if n == "and":
                if b:
                    for x in v.a[1:]:
                        st = self.set_truth(st, x, True)
                        if st is None:
                            return None
                    return st
            if n == "or":
                if not b:
                    for x in v.a[1:]:
                        st = self.set_truth(st, x, False)
                        if st is None:
                            return None
                    return st
        tt = self.types_of(st, v)
        if tt is not None:
            if b:
                st2 = self.refine_types(st, v, tt - {"NoneType"})
                if st2 is None:
                    return None
                st = st2
            else:
                poss = frozenset(t for t in tt
                                 if t not in self.m.classes or
                                 t in self.m.has_bool)
                poss = frozenset(t for t in poss if t not in
                                 ("func", "type", "Pattern", "Match"))
                if not poss:
                    return None
                st2 = self.refine_types(st, v, poss)
                if st2 is None:
                    return None
                st = st2
                if poss == frozenset(["bool"]):
                    st = st._upd("eq", v, FALSE)
                    return st
            if b and st.types.get(v) == frozenset(["bool"]):
                st = st._upd("eq", v, TRUE)
                return st
        elif b:
            st = st._upd("types", v, self.m.universe - {"NoneType"})
        return st._upd("truth", v, b)

    def assume_lt(self, st, a, b, val):
        t = op("lt", a, b)
        cur = st.truth.get(t)
        if cur is not None:
            return st if cur == val else None
        if a.tag == "const" and b.tag == "const":
            try:
                return st if (a.a[1] < b.a[1]) == val else None
            except TypeError:
                pass
        if a is b:
            return None if val else st
        r = st.truth.get(op("lt", b, a))
        if val:
            if r is True:
                return None
            if st.truth.get(eqterm(a, b)) is True:
                return None
        st = st._upd("truth", t, val)
        if val:
            st = st._upd("truth", op("lt", b, a), False)
            st = st._upd("truth", eqterm(a, b), False)
        elif r is False and st.truth.get(eqterm(a, b)) is False:
            return None
        return st

    def assume_eq(self, st, a, b, val):
        a, b = self.norm(st, a), self.norm(st, b)
        if a is b:
            return st if val else None
        r = self.c.on_eq(self, st, a, b, val)
        if r is not NotImplemented:
            return r
        ca, cb = is_lit(a), is_lit(b)
        if ca and cb:
            return None if val else st
        if ca:
            a, b = b, a
            ca, cb = cb, ca
        t = eqterm(a, b)
        cur = st.truth.get(t)
        if cur is not None:
            return st if cur == val else None
        if cb and b.tag == "const" and b.a[0] == "bool" and \
                a.tag == "op" and str(a.a[0]) in PREDICATES:
            want = val if b is TRUE else not val
            cur = st.truth.get(a)
            if cur is not None:
                return st if cur == want else None
            return st._upd("truth", a, want)
        if cb:
            tt = self.types_of(st, a)
            bt = self.types_of(st, b)
            if b is NONE:
                if val:
                    return self.refine_types(st, a,
                                             frozenset(["NoneType"]))
                return self.refine_types(st, a,
                                         self.m.universe - {"NoneType"})
            if a.tag == "obj" and a.a[0] not in ("dict", "list", "set"):
                return None if val else st
            if tt is not None and not (tt & bt) and \
                    not ("?" in tt) and \
                    not (bt <= {"bool", "int", "Fraction", "float"} and
                         tt & {"bool", "int", "Fraction", "float"}):
                return None if val else st
            if val:
                if b in st.neq.get(a, ()):
                    return None
                if b.tag == "const" and st.truth.get(a, bool(
                        b.a[1])) != bool(b.a[1]):
                    return None
                st = st._upd("eq", a, b)
                return st
            ne = st.neq.get(a, frozenset()) | {b}
            if b.tag == "enum" and tt == frozenset([b.a[0]]):
                c = self.m.classes[b.a[0]]
                if len(ne) >= len(c.enum_members):
                    return None
                left = [x for x in c.enum_members
                        if mk("enum", c.name, x) not in ne]
                if len(left) == 1:
                    return st._upd("eq", a, mk("enum", c.name, left[0]))
            if b.tag == "const" and b.a[0] == "bool" and \
                    tt == frozenset(["bool"]):
                return st._upd("eq", a, FALSE if b is TRUE else TRUE)
            return st._upd("neq", a, ne)
        if a.tag == "obj" and b.tag == "obj" and \
                a.a[0] not in ("dict", "list", "set"):
            return None if val else st
        return st._upd("truth", t, val)

    def assume_isinstance(self, st, v, cset, b):
        """cset: frozenset of type names"""
        v = self.norm(st, v)
        tt = self.types_of(st, v)
        if tt is None:
            tt = self.m.universe
        if b:
            return self.refine_types(st, v, cset)
        return self.refine_types(st, v, self.m.universe - cset)

    # -- conditions ---------------------------------------------------------------
    def cond(self, node, st):
        """-> (states where true, states where false)"""
        self.tick()
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur = [st]
            done = []
            for e in node.values:
                nt = []
                for c in cur:
                    t, f = self.cond(e, c)
                    if isand:
                        nt += t
                        done += f
                    else:
                        nt += f
                        done += t
                cur = self.dedupe(nt)
            done = self.dedupe(done)
            return (cur, done) if isand else (done, cur)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.cond(node.operand, st)
            return f, t
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            # a < b < c: evaluate pairwise with short circuit
            ts = [(st, None)]
            fs = []
            left = None
            cur = [(s2, v) for s2, v in self.ev(node.left, st)]
            for o, c in zip(node.ops, node.comparators):
                nxt = []
                for s2, lv in cur:
                    for s3, rv in self.ev(c, s2):
                        t, f = self.split(s3, self.compare(o, lv, rv, s3,
                                                           node))
                        nxt += [(x, rv) for x in t]
                        fs += f
                cur = nxt
            return [x for x, _ in cur], fs
        t, f = [], []
        for st2, v in self.ev(node, st):
            a, b = self.split(st2, v)
            t += a
            f += b
        return self.dedupe(t), self.dedupe(f)

    def split(self, st, v):
        v = self.norm(st, v)
        r = self.c.on_split(self, st, v)
        if r is not None:
            return r
        if v.tag == "op" and v.a[0] == "in":
            return self.split_in(st, v)
        if v.tag == "op" and v.a[0] == "not" and len(v.a) == 2:
            t, f = self.split(st, v.a[1])
            return f, t
        if v.tag == "op" and v.a[0] in ("and", "or") and \
                len(v.a) > 1 and v not in st.truth:
            # operands one after the other, as the operators do
            cur, done = [st], []
            for x in v.a[1:]:
                nxt = []
                for s in cur:
                    t, f = self.split(s, x)
                    nxt += t if v.a[0] == "and" else f
                    done += f if v.a[0] == "and" else t
                cur = self.dedupe(nxt)
            done = self.dedupe(done)
            return (cur, done) if v.a[0] == "and" else (done, cur)
        a = self.set_truth(st, v, True)
        b = self.set_truth(st, v, False)
        return ([a] if a is not None else [],
                [b] if b is not None else [])

    def split_in(self, st, v):
        x, cont = v.a[1], v.a[2]
        items = self.closed_items(st, cont)
        if cont.tag == "const" and isinstance(cont.a[1], str) and \
                is_const(x) and isinstance(x.a[1], str):
            return ([st], []) if x.a[1] in cont.a[1] else ([], [st])
        if items is not None and (is_const(x) and all(
                is_const(i) for i in items) or self.c.exact and
                ground(x) and all(ground(i) for i in items)):
            return ([st], []) if x in items else ([], [st])
        if items is not None and len(items) <= 24:
            ts = []
            cur = st
            for i in items:
                if cur is None:
                    break
                a = self.assume_eq(cur, x, i, True)
                if a is not None:
                    ts.append(a)
                cur = self.assume_eq(cur, x, i, False)
            return ts, ([cur] if cur is not None else [])
        cur = st.truth.get(v)
        if cur is not None:
            return ([st], []) if cur else ([], [st])
        return [st._upd("truth", v, True)], [st._upd("truth", v, False)]

    def compare(self, o, a, b, st, node):
        a, b = self.norm(st, a), self.norm(st, b)
        if isinstance(o, (ast.Eq, ast.Is)):
            return self.fold_eq(st, a, b)
        if isinstance(o, (ast.NotEq, ast.IsNot)):
            return neg(self.fold_eq(st, a, b))
        if isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and \
                self.c.exact and self.setlike(a) and self.setlike(b):
            x, y = self.closed_items(st, a), self.closed_items(st, b)
            if isinstance(o, (ast.Gt, ast.GtE)):
                x, y = y, x
            if x is not None and y is not None and all(
                    ground(v) for v in x + y):
                return const(all(v in y for v in x) and (
                    isinstance(o, (ast.LtE, ast.GtE)) or
                    any(v not in x for v in y)))
        if isinstance(o, ast.Lt):
            return self.fold_lt(st, a, b)
        if isinstance(o, ast.Gt):
            return self.fold_lt(st, b, a)
        if isinstance(o, ast.LtE):
            return neg(self.fold_lt(st, b, a))
        if isinstance(o, ast.GtE):
            return neg(self.fold_lt(st, a, b))
        if isinstance(o, (ast.In, ast.NotIn)):
            t = op("in", a, b, st.cver.get(b, 0))
            ts, fs = self.split_in(st, t)
            if ts and not fs:
                r = TRUE if len(ts) == 1 and ts[0] is st else t
            elif fs and not ts:
                r = FALSE
            else:
                r = t
            return r if isinstance(o, ast.In) else neg(r)
        raise Undecided("compare")

    def fold_eq(self, st, a, b):
        t = self.assume_eq(st, a, b, True)
        f = self.assume_eq(st, a, b, False)
        if t is None and f is not None:
            return FALSE
        if f is None and t is not None:
            return TRUE
        return eqterm(a, b)

    def fold_lt(self, st, a, b):
        t = self.assume_lt(st, a, b, True)
        f = self.assume_lt(st, a, b, False)
        if t is None and f is not None:
            return FALSE
        if f is None and t is not None:
            return TRUE
        return op("lt", a, b)

    # -- expressions -----------------------------------------------------------
    def ev(self, n, st):
        self.tick()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Undecided("expression %s" % type(n).__name__)
        return m(n, st)

    def ev_many(self, nodes, st):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, n, st):
        v = n.value
        if v is Ellipsis or isinstance(v, bytes):
            return [(st, op("literal"))]
        return [(st, const(v))]

    def lookup(self, name, st):
        if name in st.env:
            return st.env[name]
        fi = self.frame.fi
        r = self.m.resolve_global(fi.module, name)
        return self.from_resolution(r, name, st)

    def from_resolution(self, r, name, st):
        if r is None:
            if name in BUILTINS:
                return mk("builtin", name)
            return sym("global:" + name)
        k = r[0]
        if k == "func":
            return mk("func", r[1].qual)
        if k == "class":
            return mk("class", r[1].name)
        if k == "module":
            return mk("module", r[1].name)
        if k == "ext":
            return mk("ext", r[1])
        if k == "expr":
            try:
                lit = ast.literal_eval(r[2])
                if isinstance(lit, (int, str, bool, type(None), float)):
                    return const(lit)
            except (ValueError, TypeError, SyntaxError, MemoryError):
                pass
            gl = self.global_struct(r[1], name, r[2], st)
            if gl is not None:
                return gl
            return sym("global:" + name)
        return sym("global:" + name)

    def global_struct(self, module, name, node, st):
        """module/class level literal containers -> closed tuple value"""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) \
                and node.func.id in ("frozenset", "set", "tuple") \
                and len(node.args) == 1:
            node = node.args[0]
        if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
            out = []
            for e in node.elts:
                v = self.static_value(module, e)
                if v is None:
                    return None
                out.append(v)
            return mk("tuple", *out)
        if isinstance(node, ast.Dict):
            out = []
            for k, e in zip(node.keys, node.values):
                if k is None:
                    return None
                kv = self.static_value(module, k)
                if kv is None:
                    return None
                vv = self.static_value(module, e)
                if vv is None:
                    vv = mk("static", _Id(e), module.name)
                out.append(mk("tuple", kv, vv))
            return mk("gdict", *out)
        return None

    def static_value(self, module, e):
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Name):
            r = self.m.resolve_global(module, e.id)
            if r and r[0] in ("class", "func"):
                return mk(r[0], r[1].name if r[0] == "class" else r[1].qual)
            if r and r[0] == "expr":
                return self.static_value(r[1], r[2])
            if r is None and e.id in BUILTINS:
                return mk("builtin", e.id)
            if r and r[0] == "ext":
                return mk("ext", r[1])
            return None
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                r = self.m.resolve_global(module, e.value.id)
                if r and r[0] == "class":
                    if r[1].is_enum and e.attr in r[1].enum_members:
                        return mk("enum", r[1].name, e.attr)
                if r and r[0] == "module":
                    r2 = self.m.resolve_global(r[1], e.attr)
                    if r2 and r2[0] in ("class", "func"):
                        return mk(r2[0], r2[1].name if r2[0] == "class"
                                  else r2[1].qual)
                if r and r[0] == "ext":
                    return mk("ext", r[1] + "." + e.attr)
            elif isinstance(e.value, ast.Attribute):
                b = self.static_value(module, e.value)
                if b is not None and b.tag == "class":
                    c = self.m.classes[b.a[0]]
                    if c.is_enum and e.attr in c.enum_members:
                        return mk("enum", c.name, e.attr)
            return None
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            xs = [self.static_value(module, x) for x in e.elts]
            if any(x is None for x in xs):
                return None
            return mk("tuple", *xs)
        if isinstance(e, ast.Lambda):
            return mk("slambda", _Id(e), module.name)
        return None

    def e_Name(self, n, st):
        v = self.lookup(n.id, st)
        return [(st, self.norm(st, v))]

    def e_Attribute(self, n, st):
        rv = []
        # super().x handled in e_Call
        for st2, b in self.ev(n.value, st):
            rv += self.get_attr(st2, b, n.attr, n)
        return rv

    def get_attr(self, st, b, name, node):
        b = self.norm(st, b)
        tag = b.tag
        if tag == "module":
            mod = self.m.modules[b.a[0]]
            r = self.m.resolve_global(mod, name)
            return [(st, self.from_resolution(r, name, st))]
        if tag == "ext":
            return [(st, mk("ext", b.a[0] + "." + name))]
        if tag == "class":
            c = self.m.classes.get(b.a[0])
            if c is not None:
                if c.is_enum and name in c.enum_members:
                    return [(st, mk("enum", c.name, name))]
                f = c.lookup(name)
                if f is not None:
                    if f.is_classmethod:
                        return [(st, mk("bound", b, name, f.qual))]
                    return [(st, mk("func", f.qual))]
                a = c.lookup_attr(name)
                if a is not None:
                    v = self.static_value(a[0].module, a[1])
                    if v is None:
                        v = self.global_struct(a[0].module, name, a[1], st)
                    return [(st, v if v is not None else
                             sym("cattr:%s.%s" % (c.name, name)))]
                if name == "__name__":
                    return [(st, const(b.a[0]))]
        st = self.c.on_attr(self, st, b, name, node)
        if st is None:
            return []
        if b is NONE and self.c.cuts and not name.startswith("__"):
            self.raise_(st, sym("exc:AttributeError"), node)
            return []
        if tag == "enum":
            if name == "name":
                return [(st, const(b.a[1]))]
        if name == "__class__":
            if tag == "obj":
                return [(st, mk("class", b.a[0]))]
            tt = self.types_of(st, b)
            if tt is not None and len(tt) == 1:
                return [(st, mk("class", next(iter(tt))))]
            return [(st, op("classof", b))]
        if (b, name) in st.heap:
            return [(st, self.norm(st, st.heap[(b, name)]))]
        # methods / properties
        tt = self.types_of(st, b)
        cls = [self.m.classes[t] for t in (tt or ()) if t in self.m.classes]
        if tt is not None and cls:
            found = {c.lookup(name) for c in cls}
            if None not in found or len(found) > 1:
                fs = [f for f in found if f is not None]
                if fs and all(f.is_property for f in fs):
                    if len(fs) == 1:
                        return self.call_func(fs[0], b, [], {}, st, node)
                    return self.opaque_virtual(st, name, fs, b, [], {},
                                               node)
                if fs and not any(f.is_property for f in fs):
                    return [(st, mk("bound", b, name, None))]
            if tag == "obj":
                a = self.m.classes[tag and b.a[0]].lookup_attr(name) \
                    if b.a[0] in self.m.classes else None
                if a is not None:
                    v = self.static_value(a[0].module, a[1])
                    if v is None:
                        v = self.global_struct(a[0].module, name, a[1], st)
                    if v is not None:
                        return [(st, v)]
            else:
                attrs = {c.lookup_attr(name) for c in cls}
                if len(attrs) == 1 and None not in attrs and \
                        not cls[0].is_enum:
                    a = list(attrs)[0]
                    if not self.field_written(name):
                        v = self.static_value(a[0].module, a[1])
                        if v is None:
                            v = self.global_struct(a[0].module, name, a[1],
                                                   st)
                        if v is not None:
                            return [(st, v)]
        elif tt is None:
            props = [f for f in self.m.by_method.get(name, ())
                     if f.is_property]
            meths = [f for f in self.m.by_method.get(name, ())
                     if not f.is_property]
            if props and not meths and not self.field_written(name):
                if len(props) == 1:
                    return self.call_func(props[0], b, [], {}, st, node)
        v = mk("attr", b, name, st.aver.get(name, 0))
        return [(st, self.norm(st, v))]

    def field_written(self, name):
        if not hasattr(self, "_fw"):
            self._fw = set()
            for f in self.m.functions.values():
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and \
                            isinstance(x.ctx, ast.Store):
                        self._fw.add(x.attr)
        return name in self._fw

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        cur = [st]
        rv = []
        for i, e in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for c in cur:
                for c2, v in self.ev(e, c):
                    if last:
                        rv.append((c2, v))
                        continue
                    t, f = self.split(c2, v)
                    go, stop = (t, f) if isand else (f, t)
                    nxt += go
                    for x in stop:
                        vv = self.norm(x, v)
                        if vv.tag == "op" and vv.a[0] in PRED:
                            vv = FALSE if isand else TRUE
                        rv.append((x, vv))
            cur = self.dedupe(nxt)
        return rv

    def e_UnaryOp(self, n, st):
        rv = []
        if isinstance(n.op, ast.Not):
            for s2, v in self.ev(n.operand, st):
                v = self.norm(s2, v)
                a = self.set_truth(s2, v, True)
                b = self.set_truth(s2, v, False)
                if a is None:
                    rv.append((s2, TRUE))
                elif b is None:
                    rv.append((s2, FALSE))
                else:
                    rv.append((self.c.on_op(self, s2, "not", [v], n),
                               neg(v)))
            return rv
        nm = {ast.USub: "neg", ast.UAdd: "pos",
              ast.Invert: "inv"}[type(n.op)]
        for s2, v in self.ev(n.operand, st):
            if v.tag == "const" and isinstance(v.a[1], (int, float)) and \
                    not isinstance(v.a[1], bool):
                rv.append((s2, const({"neg": -1, "pos": 1}.get(nm, 1) *
                                     v.a[1])))
            else:
                s2 = self.c.on_op(self, s2, nm, [v], n)
                rv.append((s2, op(nm, v)))
        return rv

    def e_BinOp(self, n, st):
        rv = []
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) \
                and isinstance(n.left.value, str):
            for s2, v in self.ev(n.right, st):
                rv.append((s2, self.fmt(const(n.left.value), v)))
            return rv
        nm = BINOPS.get(type(n.op), "?")
        for s2, a in self.ev(n.left, st):
            for s3, b in self.ev(n.right, s2):
                rv += self.binop(nm, a, b, s3, n)
        return rv

    def binop(self, nm, a, b, st, node):
        a, b = self.norm(st, a), self.norm(st, b)
        if a.tag == "const" and b.tag == "const":
            try:
                x, y = a.a[1], b.a[1]
                r = {"add": lambda: x + y, "sub": lambda: x - y,
                     "mul": lambda: x * y, "and": lambda: x & y,
                     "or": lambda: x | y, "xor": lambda: x ^ y,
                     "mod": lambda: x % y if isinstance(x, int) else None,
                     "floordiv": lambda: x // y}[nm]()
                if isinstance(r, (int, str, bool)) and \
                        (not isinstance(r, str) or len(r) < 500):
                    return [(st, const(r))]
            except (KeyError, TypeError, ZeroDivisionError):
                pass
        if nm == "add" and a.tag == b.tag == "obj" and \
                a.a[0] == b.a[0] == "list":
            x, y = self.closed_items(st, a), self.closed_items(st, b)
            if x is not None and y is not None:
                st, o = self.alloc("list", node, st)
                return [(st.set_attr(o, "$items", mk("tuple", *x, *y)), o)]
        if self.c.exact and nm in ("and", "or", "sub", "xor"):
            x, y = [self.closed_items(st, v) if self.setlike(v) else None
                    for v in (a, b)]
            if x is not None and y is not None and all(
                    ground(v) for v in x + y):
                st, o = self.alloc("set", node, st)
                r = {"and": [v for v in x if v in y],
                     "or": once(x + y),
                     "sub": [v for v in x if v not in y],
                     "xor": [v for v in x if v not in y] +
                     [v for v in y if v not in x]}[nm]
                return [(st.set_attr(o, "$items", mk("tuple", *once(r))),
                         o)]
        if nm in ("and", "or"):
            # boolean accumulate idiom (ok &= f())
            for x, y in ((a, b), (b, a)):
                if nm == "and" and x is FALSE:
                    return [(st, FALSE)]
                if nm == "or" and x is TRUE:
                    return [(st, TRUE)]
                if (nm == "and" and x is TRUE) or \
                        (nm == "or" and x is FALSE):
                    return [(st, y)]
        if a.tag == "tuple" and b.tag == "tuple" and nm == "add":
            return [(st, mk("tuple", *(a.a + b.a)))]
        st = self.c.on_op(self, st, nm, [a, b], node)
        if self.c.texts and nm == "add" and any(
                (x.tag == "const" and isinstance(x.a[1], str)) or
                (x.tag == "op" and x.a[0] in ("cat", "str")) or
                x in self.c.chars for x in (a, b)):
            return [(st, cat(a, b))]
        if self.c.texts and nm == "mul" and is_const(a) and isinstance(
                a.a[1], str):
            if is_const(b) and isinstance(b.a[1], int) and b.a[1] < 100:
                return [(st, const(a.a[1] * b.a[1]))]
            return [(st, op("mul", b, a))]
        if self.c.texts and nm in ("add", "sub") and (
                b is const(0) or b == const(0)) and not is_const(a):
            return [(st, a)]
        if self.c.collapse_strings and nm == "add" and any(
                (x.tag == "const" and isinstance(x.a[1], str)) or
                (x.tag == "op" and x.a[0] in ("fmt", "str"))
                for x in (a, b)):
            return [(st, op("fmt"))]
        return [(st, op(nm, a, b))]

    def e_Compare(self, n, st):
        if len(n.ops) == 1:
            rv = []
            for s2, a in self.ev(n.left, st):
                for s3, b in self.ev(n.comparators[0], s2):
                    s3 = self.c.on_op(self, s3, "cmp:" +
                                      type(n.ops[0]).__name__, [a, b], n)
                    rv.append((s3, self.compare(n.ops[0], a, b, s3, n)))
            return rv
        # chained: value as conjunction term (all operands pure)
        rv = []
        for s2, vs in self.ev_many([n.left] + n.comparators, st):
            terms = []
            for o, a, b in zip(n.ops, vs, vs[1:]):
                s2 = self.c.on_op(self, s2, "cmp:" + type(o).__name__,
                                  [a, b], n)
                terms.append(self.compare(o, a, b, s2, n))
            if any(t is FALSE for t in terms):
                rv.append((s2, FALSE))
            else:
                terms = [t for t in terms if t is not TRUE]
                if not terms:
                    rv.append((s2, TRUE))
                elif len(terms) == 1:
                    rv.append((s2, terms[0]))
                else:
                    rv.append((s2, op("and", *terms)))
        return rv

    def e_IfExp(self, n, st):
        t, f = self.cond(n.test, st)
        rv = []
        for x in t:
            rv += self.ev(n.body, x)
        for x in f:
            rv += self.ev(n.orelse, x)
        return rv

    def e_Subscript(self, n, st):
        rv = []
        for s2, b in self.ev(n.value, st):
            if isinstance(n.slice, ast.Slice):
                parts = [p for p in (n.slice.lower, n.slice.upper,
                                     n.slice.step) if p is not None]
                for s3, vs in self.ev_many(parts, s2):
                    s3 = self.c.on_op(self, s3, "slice", [b] + vs, n)
                    shape = tuple(p is not None for p in
                                  (n.slice.lower, n.slice.upper,
                                   n.slice.step))
                    vs = [self.norm(s3, v) for v in vs]
                    x = self.norm(s3, b)
                    ls = self.letters(x) if self.c.chars else None
                    if ls is not None and all(is_const(v) for v in vs):
                        it = iter(vs)
                        sl = slice(*[next(it).a[1] if y else None
                                     for y in shape])
                        rv.append((s3, cat(*ls[sl])))
                        continue
                    rv.append((s3, cut(b, x, shape, vs)))
                continue
            for s3, i in self.ev(n.slice, s2):
                rv += self.index(s3, b, i, n)
        return rv

    def index(self, st, b, i, node):
        b, i = self.norm(st, b), self.norm(st, i)
        st = self.c.on_index(self, st, b, i, node)
        if st is None:
            return []
        items = None
        if b.tag == "gdict":
            kv = {x.a[0]: x.a[1] for x in b.a}
            if i in kv:
                return [(st, self.unstatic(kv[i], st))]
            if i.tag in ("const", "enum"):
                self.raise_(st, sym("exc:KeyError"), node)
                return []
            rv = []
            for k, v in kv.items():
                s2 = self.assume_eq(st, i, k, True)
                if s2 is not None:
                    rv.append((s2, self.unstatic(v, s2)))
            return rv
        if b.tag == "obj" and b.a[0] == "dict":
            it = st.heap.get((b, "$items"))
            if it is not None:
                kv = {x.a[0]: x.a[1] for x in it.a}
                if i in kv:
                    return [(st, kv[i])]
                if (b, "$open") not in st.heap:
                    if i.tag in ("const", "enum") or (
                            self.c.exact and ground(i)):
                        self.raise_(st, sym("exc:KeyError"), node)
                        return []
                    rv = []
                    for k, v in kv.items():
                        s2 = self.assume_eq(st, i, k, True)
                        if s2 is not None:
                            rv.append((s2, v))
                    if rv:
                        return rv
        if b.tag == "tuple" or (b.tag == "obj" and b.a[0] == "list") or \
                self.c.chars:
            items = self.closed_items(st, b)
            if items is not None and i.tag == "const" and \
                    isinstance(i.a[1], int):
                try:
                    return [(st, items[i.a[1]])]
                except IndexError:
                    self.raise_(st, sym("exc:IndexError"), node)
                    return []
        if b.tag == "op" and b.a[0] == "item" and False:
            pass
        if (b, ("item", i)) in st.heap:
            return [(st, self.norm(st, st.heap[(b, ("item", i))]))]
        v = op("index", b, i, st.cver.get(b, 0))
        return [(st, self.norm(st, v))]

    def unstatic(self, v, st):
        return v

    def e_Tuple(self, n, st):
        return [(s2, mk("tuple", *vs)) for s2, vs in
                self.ev_star(n.elts, st)]

    def ev_star(self, elts, st):
        cur = [(st, [])]
        for e in elts:
            nxt = []
            for s, vs in cur:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s):
                        it = self.closed_items(s2, v)
                        nxt.append((s2, vs + (it if it is not None
                                              else [op("star", v)])))
                else:
                    for s2, v in self.ev(e, s):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def alloc(self, kind, node, st):
        o = mk("obj", kind, (self.frame.path, getattr(node, "lineno", 0),
                             getattr(node, "col_offset", 0)))
        n = 0
        while self.c.exact and any(k[0] is o for k in st.heap):
            n += 1
            o = mk("obj", kind, (self.frame.path, getattr(
                node, "lineno", 0), getattr(node, "col_offset", 0), n))
        if any(k[0] is o for k in st.heap):
            st = st.copy()
            st.heap = {k: v for k, v in st.heap.items() if k[0] is not o}
        if o in st.cver:
            st = st._del("cver", o)
        t = op("nonempty", o, 0)
        if t in st.truth:
            st = st._del("truth", t)
        return st, o

    def e_List(self, n, st):
        rv = []
        for s2, vs in self.ev_star(n.elts, st):
            s3, o = self.alloc("list", n, s2)
            rv.append((s3.set_attr(o, "$items", mk("tuple", *vs)), o))
        return rv

    def e_Set(self, n, st):
        rv = []
        for s2, vs in self.ev_star(n.elts, st):
            s3, o = self.alloc("set", n, s2)
            rv.append((s3.set_attr(o, "$items", mk("tuple", *vs)), o))
        return rv

    def e_Dict(self, n, st):
        rv = []
        cur = [(st, [], False)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, kvs, opn in cur:
                if k is None:
                    for s2, b in self.ev(v, s):
                        nxt.append((s2, kvs, True))
                    continue
                for s2, kv in self.ev(k, s):
                    for s3, vv in self.ev(v, s2):
                        nxt.append((s3, kvs + [mk("tuple", kv, vv)], opn))
            cur = nxt
        for s, kvs, opn in cur:
            s2, o = self.alloc("dict", n, s)
            s2 = s2.set_attr(o, "$items", mk("tuple", *kvs))
            if opn:
                s2 = s2.set_attr(o, "$open", TRUE)
            rv.append((s2, o))
        return rv

    def e_JoinedStr(self, n, st):
        parts = [v.value for v in n.values
                 if isinstance(v, ast.FormattedValue)]
        if self.c.texts and not any(
                isinstance(v, ast.FormattedValue) and (
                    v.format_spec is not None or v.conversion not in
                    (-1, 115)) for v in n.values):
            rv = []
            for s2, vs in self.ev_many(parts, st):
                vs = list(vs)
                rv.append((s2, cat(*[
                    vs.pop(0) if isinstance(v, ast.FormattedValue) else
                    const(v.value) for v in n.values])))
            return rv
        return [(s2, self.fmt(const("f"), *vs))
                for s2, vs in self.ev_many(parts, st)]

    def fmt(self, *a):
        if self.c.collapse_strings:
            return op("fmt")
        if self.c.texts and len(a) == 2 and is_const(a[0]):
            parts = re.split(r"(%[sudi%])", a[0].a[1])
            vals = list(a[1].a) if a[1].tag == "tuple" else [a[1]]
            if not any("%" in x for x in parts[::2]) and \
                    len(vals) == len([x for x in parts[1::2] if x != "%%"]):
                return cat(*[const(x) if i % 2 == 0 else const("%")
                             if x == "%%" else vals.pop(0)
                             for i, x in enumerate(parts)])
        return op("fmt", *a)

    def e_Lambda(self, n, st):
        return [(st, self.mkclosure(n, st))]

    def e_Starred(self, n, st):
        return [(s, op("star", v)) for s, v in self.ev(n.value, st)]

    def e_NamedExpr(self, n, st):
        return [(s.set_var(n.target.id, v), v)
                for s, v in self.ev(n.value, st)]

    def e_Yield(self, n, st):
        raise Undecided("yield expression")

    def e_Await(self, n, st):
        raise Undecided("await")

    # comprehensions ---------------------------------------------------------
    def comp_live(self, n):
        """the variables of a comprehension stay alive while it runs"""
        live = self.frame.live
        live.append(frozenset(x.id for x in ast.walk(n)
                              if isinstance(x, ast.Name)))
        return live

    def comp_loop(self, gens, i, st, leaf):
        """run nested generator loops; leaf(st) -> list of Outcome"""
        g = gens[i]
        outs = []
        for s2, it in self.ev(g.iter, st):
            def body(x, g=g):
                cur = [x]
                skipped = []
                for c in g.ifs:
                    nt = []
                    for y in cur:
                        t, f = self.cond(c, y)
                        nt += t
                        skipped += f
                    cur = nt
                res = [Outcome("continue", y) for y in skipped]
                for y in cur:
                    if i + 1 < len(gens):
                        res += self.comp_loop(gens, i + 1, y, leaf)
                    else:
                        res += leaf(y)
                return res
            fake = g.iter
            outs += self.for_over(fake, s2, it, g.target, body, [])
        return outs

    def unrolled(self, n, st, kind, elts):
        """comprehension over a known sequence -> list object, or None"""
        if len(n.generators) > (3 if self.c.exact else 1):
            return None
        saved = st.env

        def gen(k, s, got):
            """-> list of (state, elements), None if unknown"""
            if k == len(n.generators):
                return [(y, got + (vs[0] if len(vs) == 1 else
                                   mk("tuple", *vs),))
                        for y, vs in self.ev_many(elts, s)]
            g = n.generators[k]
            rv = []
            for s2, it in self.ev(g.iter, s):
                items = self.closed_items(s2, it)
                if items is None or len(items) > 8:
                    return None
                cur = [(s2, got)]
                for x in items:
                    nxt = []
                    for c, acc in cur:
                        for c2 in self.assign(g.target, x, c):
                            go = [c2]
                            for cond in g.ifs:
                                nt = []
                                for y in go:
                                    t, f = self.cond(cond, y)
                                    nt += t
                                    nxt += [(z, acc) for z in f]
                                go = nt
                            for y in go:
                                r = gen(k + 1, y, acc)
                                if r is None:
                                    return None
                                nxt += r
                    cur = self._dedupe_vals(nxt)
                rv += cur
            return rv

        done = gen(0, st, ())
        if done is None:
            return None
        rv = []
        for c, got in done:
            env = {k: v for k, v in c.env.items() if k in saved}
            for k in saved:
                env[k] = saved[k]
            c = c.with_env(env)
            if self.c.exact and kind == "set":
                got = tuple(once(got))
            if self.c.exact and kind == "dict":
                got = tuple({x.a[0]: x for x in got}.values())
            c, o = self.alloc(kind, n, c)
            rv.append((c.set_attr(o, "$items", mk("tuple", *got)), o))
        return self._dedupe_vals(rv)

    def comp(self, n, st, kind, elts):
        live = self.comp_live(n)
        try:
            if self.c.unroll_comps and kind in ("list", "set", "dict"):
                r = self.unrolled(n, st, kind, elts)
                if r is not None:
                    return r
            return self.comp_(n, st, kind, elts)
        finally:
            live.pop()

    def comp_(self, n, st, kind, elts):
        key = "$acc%d_%d" % (n.lineno, n.col_offset)
        saved = st.env
        st = st.set_var(key, mk("acc", frozenset()))

        def leaf(x):
            rv = []
            for x2, vs in self.ev_many(elts, x):
                v = vs[0] if len(vs) == 1 else mk("tuple", *vs)
                acc = x2.env[key]
                cur = acc.a[0] if acc.tag == "acc" else frozenset()
                rv.append(Outcome("continue", x2.set_var(
                    key, mk("acc", cur | {v}))))
            return rv

        rv = []
        for o in self.comp_loop(n.generators, 0, st, leaf):
            if o.kind != "next":
                raise Undecided("outcome in comprehension")
            acc = o.st.env[key]
            # restore env (targets are local)
            env = dict(o.st.env)
            for k in list(env):
                if k not in saved:
                    del env[k]
            for k in saved:
                env[k] = saved[k]
            accs = acc.a[0] if acc.tag == "acc" else frozenset([acc])
            rv.append((o.st.with_env(env),
                       mk("comp", kind, accs,
                          (self.frame.path, n.lineno, n.col_offset))))
        return self._dedupe_vals(rv)

    def _dedupe_vals(self, rv):
        seen = set()
        out = []
        for s, v in rv:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        return out

    def e_ListComp(self, n, st):
        return self.comp(n, st, "list", [n.elt])

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set", [n.elt])

    def e_GeneratorExp(self, n, st):
        if self.c.unroll_comps:
            # without effects it does not matter when it is evaluated
            live = self.comp_live(n)
            try:
                r = self.unrolled(n, st, "list", [n.elt])
            finally:
                live.pop()
            if r is not None and all(x.ts == st.ts for x, _ in r):
                return r
        return self.comp(n, st, "iter", [n.elt])

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict", [n.key, n.value])

    def quant(self, n, gen, st, isall):
        live = self.comp_live(gen)
        try:
            return self.quant_(n, gen, st, isall)
        finally:
            live.pop()

    def quant_(self, n, gen, st, isall):
        """all(...)/any(...) over a generator: early exit loop"""
        saved = st.env
        key = "$q%d_%d" % (n.lineno, n.col_offset)

        def leaf(x):
            t, f = self.cond(gen.elt, x)
            go, stop = (t, f) if isall else (f, t)
            return [Outcome("continue", y) for y in go] + \
                [Outcome("qstop", y) for y in stop]

        # run; 'qstop' bubbles up as a foreign outcome
        rv = []
        for o in self.comp_loop(gen.generators, 0, st, leaf):
            env = {k: v for k, v in o.st.env.items() if k in saved}
            s2 = o.st.with_env(env)
            if o.kind == "next":
                rv.append((s2, TRUE if isall else FALSE))
            elif o.kind == "qstop":
                rv.append((s2, FALSE if isall else TRUE))
            else:
                raise Undecided("outcome in quantifier")
        return self._dedupe_vals(rv)

    # -- calls --------------------------------------------------------------------
    def e_Call(self, n, st):
        f = n.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) \
                and isinstance(f.value.func, ast.Name) and \
                f.value.func.id == "super":
            return self.call_super(n, st)
        if isinstance(f, ast.Name) and f.id in ("all", "any") and \
                len(n.args) == 1 and f.id not in st.env and \
                isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            if isinstance(n.args[0], ast.GeneratorExp):
                return self.quant(n, n.args[0], st, f.id == "all")
            # list comprehension: everything is evaluated first
            rv = []
            for s2, v in self.ev(n.args[0], st):
                rv += self.truth_of_comp(s2, v, f.id == "all", n)
            return rv
        if isinstance(f, ast.Name) and f.id == "isinstance" and \
                len(n.args) == 2:
            return self.ev_isinstance(n, st)
        if self.c.unroll_comps and isinstance(f, ast.Name) and \
                f.id in ("list", "tuple", "set", "frozenset", "sorted") and \
                f.id not in st.env and len(n.args) == 1 and \
                not n.keywords and isinstance(n.args[0], ast.GeneratorExp):
            # consumed on the spot
            rv = []
            for s2, v in self.comp(n.args[0], st, "list", [n.args[0].elt]):
                rv += self.call_builtin(f.id, [v], {}, s2, n)
            return rv
        rv = []
        for s2, fv in self.ev(f, st):
            for s3, args, kw in self.ev_args(n, s2):
                rv += self.call_value(fv, args, kw, s3, n)
        return rv

    def truth_of_comp(self, st, v, isall, n):
        if v.tag == "comp":
            accs = v.a[1]
            vals = {self.norm(st, x) for x in accs}
            if isall and FALSE in vals:
                return [(st, FALSE)]
            if not isall and TRUE in vals:
                return [(st, TRUE)]
            if vals <= {TRUE}:
                return [(st, TRUE if isall or accs else FALSE)] \
                    if isall else [(st, TRUE), (st, FALSE)]
            if vals <= {FALSE}:
                return [(st, FALSE)] if not isall else \
                    [(st, FALSE), (st, TRUE)]
        return [(st, op("all" if isall else "any", v))]

    def ev_isinstance(self, n, st):
        rv = []
        for s2, v in self.ev(n.args[0], st):
            for s3, c in self.ev(n.args[1], s2):
                cs = self.class_set(s3, c)
                if cs is None:
                    rv.append((s3, op("isinstance?", v, c)))
                    continue
                v2 = self.norm(s3, v)
                t = self.assume_isinstance(s3, v2, cs, True)
                f = self.assume_isinstance(s3, v2, cs, False)
                if t is None:
                    rv.append((s3, FALSE))
                elif f is None:
                    rv.append((s3, TRUE))
                else:
                    rv.append((s3, op("isinstance", v2, cs)))
        return rv

    def class_set(self, st, c):
        if c.tag == "class":
            return self.m.subclasses(c.a[0])
        if c.tag == "builtin":
            return self.m.subclasses(c.a[0])
        if c.tag == "ext":
            return self.m.subclasses(c.a[0].split(".")[-1])
        if c.tag == "tuple":
            rv = frozenset()
            for x in c.a:
                s = self.class_set(st, x)
                if s is None:
                    return None
                rv |= s
            return rv
        return None

    def ev_args(self, n, st):
        cur = [(st, [], {})]
        for a in n.args:
            nxt = []
            for s, args, kw in cur:
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev(a.value, s):
                        it = self.closed_items(s2, v)
                        nxt.append((s2, args + (it if it is not None else
                                                [op("star", v)]), kw))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, args + [v], kw))
            cur = nxt
        for k in n.keywords:
            nxt = []
            for s, args, kw in cur:
                for s2, v in self.ev(k.value, s):
                    kw2 = dict(kw)
                    if k.arg is None:
                        items = s2.heap.get((v, "$items")) \
                            if v.tag == "obj" and v.a[0] == "dict" and \
                            (v, "$open") not in s2.heap else None
                        if items is not None:
                            for kv in items.a:
                                if kv.a[0].tag == "const":
                                    kw2[kv.a[0].a[1]] = kv.a[1]
                        else:
                            kw2["**"] = v
                    else:
                        kw2[k.arg] = v
                    nxt.append((s2, args, kw2))
            cur = nxt
        return cur

    def call_super(self, n, st):
        fi = self.frame.fi
        name = n.func.attr
        self_v = st.env.get("self") or st.env.get("cls")
        target = None
        if fi.cls is not None:
            mro = fi.cls.mro()
            if self_v is not None:
                tt = self.types_of(st, self_v)
                if tt is not None and len(tt) == 1 and \
                        list(tt)[0] in self.m.classes:
                    mro = self.m.classes[list(tt)[0]].mro()
            if fi.cls in mro:
                for c in mro[mro.index(fi.cls) + 1:]:
                    if name in c.methods:
                        target = c.methods[name]
                        break
        rv = []
        for s2, args, kw in self.ev_args(n, st):
            if target is None:
                rv.append((s2, op("super." + name, *args)))
            else:
                rv += self.call_func(target, self_v, args, kw, s2, n)
        return rv

    def call_value(self, fv, args, kw, st, n):
        tag = fv.tag
        if tag == "func":
            fi = self.m.functions[fv.a[0]]
            if fi.cls is not None and not fi.is_static and args:
                return self.call_func(fi, args[0], args[1:], kw, st, n)
            return self.call_func(fi, None, args, kw, st, n)
        if tag == "class":
            return self.instantiate(fv.a[0], args, kw, st, n)
        if tag == "closure":
            return self.call_closure(fv, args, kw, st, n)
        if tag == "slambda":
            return self.call_slambda(fv, args, kw, st, n)
        if tag == "bound":
            b, name, qual = fv.a
            if qual is not None:
                return self.call_func(self.m.functions[qual], b, args, kw,
                                      st, n)
            return self.call_method(b, name, args, kw, st, n)
        if tag == "builtin":
            return self.call_builtin(fv.a[0], args, kw, st, n)
        if tag == "ext":
            return self.call_ext(fv.a[0], None, args, kw, st, n)
        if tag == "attr":
            return self.call_method(fv.a[0], fv.a[1], args, kw, st, n)
        if tag == "op" and fv.a[0] == "classof":
            return [(st, op("new", fv, *args))]
        # unknown callable
        r = self.c.on_ext(self, st, "?call", fv, args, kw, n)
        if r is not None:
            return self.emit_results(r, n)
        return [(st, mk("call", "?", tuple([fv] + args), 0))]

    def emit_results(self, r, n):
        rv = []
        for k, s, v in r:
            if k == "ret":
                rv.append((s, v))
            elif k == "raise":
                self.raise_(s, v, n)
            elif k == "exit":
                self.sinks[0].append(Outcome("exit", s, v, n,
                                             self.frame.fi))
        return rv

    def call_closure(self, fv, args, kw, st, n):
        node, fi0, envset = fv.a[0].x, fv.a[1].x, fv.a[2]
        if self.frame.depth > 12 or any(
                f for f in _frames(self.frame)
                if f.callnode is n and f.fi is fi0 and f.depth > 8):
            return [(st, mk("call", "closure", tuple(args), 0))]
        env = dict(envset)
        # late binding for variables of the frame it is called from
        if self.frame.fi is fi0:
            env.update(st.env)
        if isinstance(node, ast.Lambda):
            a = node.args
            params = [p.arg for p in a.args]
            for p, v in zip(params, args):
                env[p] = v
            env.update(kw)
            saved = st.env
            return [(s.with_env(saved), v) for s, v in
                    self.ev(node.body, st.with_env(env))]
        from .model import FuncInfo
        fi = FuncInfo(fi0.qual + ".<" + node.name + ">", fi0.module,
                      fi0.cls, node)
        bound = self.bind(fi, None, args, kw, st)
        if bound is None:
            return [(st, mk("call", node.name, tuple(args), 0))]
        st, benv = bound
        env.update(benv)
        return self.inline(fi, env, st, n)

    def call_slambda(self, fv, args, kw, st, n):
        node = fv.a[0].x
        env = {}
        for p, v in zip([p.arg for p in node.args.args], args):
            env[p] = v
        saved = st.env
        return [(s.with_env(saved), v) for s, v in
                self.ev(node.body, st.with_env(env))]

    def bind(self, fi, self_v, args, kw, st):
        env = {}
        params = list(fi.params)
        if fi.cls is not None and not fi.is_static and \
                params and params[0] in ("self", "cls"):
            env[params[0]] = self_v if self_v is not None else sym("self")
            params = params[1:]
        args = list(args)
        if any(a.tag == "op" and a.a[0] == "star" for a in args) or \
                "**" in kw:
            # unknown unpacking
            for p in params + fi.kwonly:
                env[p] = sym("arg:" + p)
            if fi.vararg:
                env[fi.vararg] = sym("*")
            if fi.kwarg:
                env[fi.kwarg] = sym("**")
            return st, env
        for p in params:
            if args:
                env[p] = args.pop(0)
            elif p in kw:
                env[p] = kw[p]
            elif p in fi.defaults:
                v = self.static_value(fi.module, fi.defaults[p])
                env[p] = v if v is not None else sym("default:" + p)
            else:
                return None
        if fi.vararg:
            env[fi.vararg] = mk("tuple", *args)
        elif args:
            return None
        for p in fi.kwonly:
            if p in kw:
                env[p] = kw[p]
            elif p in fi.defaults:
                v = self.static_value(fi.module, fi.defaults[p])
                env[p] = v if v is not None else sym("default:" + p)
        if fi.kwarg:
            env[fi.kwarg] = sym("**")
        return st, env

    def in_stack(self, fi):
        f = self.frame
        n = 0
        while f is not None:
            if f.fi is fi or (f.fi is not None and f.fi.qual == fi.qual):
                n += 1
                if n > self.c.recursion:
                    return True
            f = f.parent
        return False

    def call_func(self, fi, self_v, args, kw, st, n):
        b = self.bind(fi, self_v, args, kw, st)
        if b is None:
            self.notes.append("cannot bind call of %s at %s" %
                              (fi.qual, self.frame.fi.loc(n)))
            return [(st, mk("call", fi.qual, tuple(args), 0))]
        st, env = b
        r = self.c.on_call(self, st, fi, self_v, env, n)
        if r is not None:
            return self.emit_results(r, n)
        if fi.is_generator and self.c.fuse_generators and \
                not self.c.opaque(self, fi) and not self.in_stack(fi) and \
                self.frame.depth < self.c.inline_depth:
            return [(st, mk("gen", fi.qual, tuple(sorted(
                env.items(), key=lambda x: x[0])),
                (n.lineno, n.col_offset, self.frame.path)))]
        if fi.is_generator or self.in_stack(fi) or \
                self.frame.depth >= self.c.inline_depth or \
                self.c.opaque(self, fi):
            if self.c.cuts and not self.c.opaque(self, fi) and \
                    not fi.is_generator:
                self.notes.append("calls of %s nest too deeply" % fi.qual)
            return self.opaque_call(fi, self_v, env, st, n)
        return self.inline(fi, env, st, n)

    def inline(self, fi, env, st, n):
        self.inlined.add(fi.qual)
        self.analysed.add(fi.qual)
        saved_env = st.env
        saved_frame = self.frame
        self.frame = Frame(fi, saved_frame.depth + 1, saved_frame, n)
        self.sinks.append([])
        self.outer.append(saved_env)
        try:
            outs = self.exec_func_body(fi, st.with_env(env))
        finally:
            self.outer.pop()
            raised = self.sinks.pop()
            self.frame = saved_frame
        for o in raised:
            o.st = o.st.with_env(saved_env)
            self.sinks[-1].append(o)
        rv = []
        for o in outs:
            if o.kind == "return":
                rv.append((o.st.with_env(saved_env),
                           self.norm(o.st, o.val)))
            elif o.kind in ("exit", "ice"):
                self.sinks[0].append(o)
            else:
                self.sinks[-1].append(Outcome(o.kind,
                                              o.st.with_env(saved_env),
                                              o.val, o.node, o.fi))
        return self._dedupe_vals(rv)

    def havoc(self, st, quals):
        eff = self.m.effects()
        w, c = set(), set()
        for q in quals:
            e = eff.get(q)
            if e:
                w |= e[0]
                c |= e[1]
        return self.havoc_names(st, w, c)

    def havoc_names(self, st, w, c):
        s = st.copy()
        heap = {}
        for k, v in s.heap.items():
            nm = k[1]
            if nm in w and k[0].tag != "obj":
                continue
            if isinstance(nm, tuple) and k[0].tag == "attr" and \
                    k[0].a[1] in c:
                continue
            heap[k] = v
        s.heap = heap
        aver = dict(s.aver)
        for nm in w:
            x = aver.get(nm, 0)
            aver[nm] = x + 1 if isinstance(x, int) else \
                ((x, "+") if not (len(x) == 2 and x[1] == "+") else x)
        s.aver = aver
        cver = dict(s.cver)
        self._cbump(s, cver, c)
        s.cver = cver
        return s

    def _cbump(self, s, cver, c):
        # containers reachable by attribute name: bump lazily by name
        for k in set(cver) | {b for (b, _) in s.heap} | \
                {t for f in (s.truth,) for term in f
                 for t in subterms(term) if t.tag == "attr"}:
            if k.tag == "attr" and k.a[1] in c:
                x = cver.get(k, 0)
                cver[k] = x + 1 if isinstance(x, int) else (
                    (x, 1) if len(str(x)) < 60 else x)

    def opaque_call(self, fi, self_v, env, st, n):
        self.opaque_seen[fi.qual] = self.opaque_seen.get(fi.qual, 0) + 1
        st = self.havoc(st, [fi.qual])
        argv = tuple(v for k, v in sorted(env.items()) if k != "self")
        st = st.event("call", fi.qual, self_v, env, n)
        if self.c.opaque_raises and self.m.effects()[fi.qual][2]:
            self.raise_(st, sym("exc:TRLC_Error"), n)
        v = mk("call", fi.qual, ((self_v,) if self_v is not None else ()) +
               argv, (n.lineno, n.col_offset, self.frame.path,
                      _vhash(st, fi, self.m)))
        st = st.copy()
        for fld in ("types", "truth", "eq", "neq"):
            d = getattr(st, fld)
            if v in d:
                d = dict(d)
                del d[v]
                setattr(st, fld, d)
        return [(st, v)]

    def opaque_virtual(self, st, name, cands, b, args, kw, n):
        r = self.c.on_virtual(self, st, name, cands, b, args, kw, n)
        if r is not None:
            return self.emit_results(r, n)
        quals = [f.qual for f in cands]
        st = self.havoc(st, quals)
        env = {}
        if cands:
            bb = self.bind(cands[0], b, args, kw, st)
            if bb is not None:
                env = bb[1]
        st = st.event("call", "*." + name, b, env, n)
        if self.c.opaque_raises and any(self.m.effects()[q][2]
                                        for q in quals):
            self.raise_(st, sym("exc:TRLC_Error"), n)
        v = mk("call", "*." + name, tuple([b] + list(args)),
               (n.lineno, n.col_offset, self.frame.path))
        return [(st.drop_terms(v), v)]

    def call_method(self, b, name, args, kw, st, n):
        b = self.norm(st, b)
        tt = self.types_of(st, b)
        if b.tag == "class":
            c = self.m.classes.get(b.a[0])
            f = c.lookup(name) if c else None
            if f is not None:
                return self.call_func(f, b, args, kw, st, n)
        cands = None
        if tt is not None:
            cls = [self.m.classes[t] for t in sorted(tt)
                   if t in self.m.classes]
            fs = {}
            for c in cls:
                f = c.lookup(name)
                if f is not None:
                    fs.setdefault(f.qual, (f, []))[1].append(c.name)
            nonmodel = [t for t in tt if t not in self.m.classes and
                        t not in ("NoneType",)]
            if len(fs) == 1 and (len(nonmodel) == 0 or len(cls) > 0):
                f, cn = list(fs.values())[0]
                return self.call_func(f, b, args, kw, st, n)
            if len(fs) > 1:
                return self.opaque_virtual(st, name,
                                           [f for f, _ in fs.values()],
                                           b, args, kw, n)
            if not fs and nonmodel and not (set(nonmodel) == {"?"}):
                return self.call_container(b, name, args, kw, st, n)
        ms = self.m.by_method.get(name, ())
        if tt is None or "?" in tt:
            if name in MUTATORS or name in PURE_STR or \
                    name in ("get", "items", "values", "keys", "match",
                             "group", "copy", "read", "close", "write"):
                # prefer the container reading unless the receiver is
                # known to be a model class
                if not ms or b.tag in ("obj",):
                    return self.call_container(b, name, args, kw, st, n)
                if name in ("append", "add", "update", "pop", "get",
                            "items", "extend", "count", "index", "copy"):
                    return self.call_container(b, name, args, kw, st, n)
            if len(ms) == 1:
                return self.call_func(ms[0], b, args, kw, st, n)
            if len(ms) > 1:
                roots = {}
                return self.opaque_virtual(st, name, list(ms), b, args, kw,
                                           n)
        return self.call_container(b, name, args, kw, st, n)

    def call_container(self, b, name, args, kw, st, n):
        r = self.c.on_ext(self, st, "." + name, b, args, kw, n)
        if r is not None:
            return self.emit_results(r, n)
        st = self.ext_forks(st, n)
        if name in MUTATORS:
            if name == "pop" and b.tag == "obj":
                items = self.closed_items(st, b)
                if items and not args:
                    return [(self.mutate(st, b, "pop", [], n), items[-1])]
                if self.c.exact and args and b.a[0] == "dict":
                    k = self.norm(st, args[0])
                    if items is not None and ground(k) and all(
                            ground(x) for x in items):
                        if k in items:
                            return [(self.mutate(st, b, "pop", args, n), v)
                                    for s2, v in self.index(st, b, k, n)]
                        if len(args) > 1:
                            return [(st, args[1])]
                        self.raise_(st, sym("exc:KeyError"), n)
                        return []
            if name == "setdefault" and self.known_dict(st, b) and args:
                v = args[1] if len(args) > 1 else NONE
                t, f = self.split(st, op("in", args[0], b,
                                         st.cver.get(b, 0)))
                rv = [y for x in t for y in self.index(x, b, args[0], n)]
                return rv + [(self.store_item(x, b, self.norm(x, args[0]),
                                              v, n), v) for x in f]
            if name == "setdefault":
                st = self.mutate(st, b, name, args, n)
                return [(st, op("index", b, args[0], st.cver.get(b, 0)))]
            ver = st.cver.get(b, 0)
            st = self.mutate(st, b, name, args, n)
            if name == "pop":
                return [(st, op("pop", b, ver, *args))]
            return [(st, NONE)]
        if name in ("items", "values", "keys"):
            if b.tag == "gdict":
                if name == "items":
                    return [(st, mk("tuple", *b.a))]
                i = 0 if name == "keys" else 1
                return [(st, mk("tuple", *[x.a[i] for x in b.a]))]
            return [(st, op(name, b))]
        if name == "get" and self.c.precise_get and args and \
                b.tag != "gdict" and not (b.tag == "obj" and
                                          b.a[0] == "dict"):
            dflt = args[1] if len(args) > 1 else NONE
            t, f = self.split(st, op("in", args[0], b, st.cver.get(b, 0)))
            rv = []
            for x in t:
                for y, v in self.index(x, b, args[0], n):
                    y = self.assume_eq(y, v, NONE, False)
                    if y is not None:
                        rv.append((y, v))
            return rv + [(x, dflt) for x in f]
        if name == "get":
            dflt = args[1] if len(args) > 1 else NONE
            kv, opn = None, True
            if b.tag == "gdict":
                kv, opn = {x.a[0]: x.a[1] for x in b.a}, False
            elif b.tag == "obj" and b.a[0] == "dict" and \
                    st.heap.get((b, "$items")) is not None:
                kv = {x.a[0]: x.a[1]
                      for x in st.heap[(b, "$items")].a}
                opn = (b, "$open") in st.heap
            if kv is not None:
                k = self.norm(st, args[0])
                if k in kv:
                    return [(st, kv[k])]
                if not opn:
                    if k.tag in ("const", "enum", "class"):
                        return [(st, dflt)]
                    rv = []
                    cur = st
                    for kk, vv in kv.items():
                        s2 = self.assume_eq(cur, k, kk, True)
                        if s2 is not None:
                            rv.append((s2, vv))
                        cur = self.assume_eq(cur, k, kk, False)
                        if cur is None:
                            break
                    if cur is not None:
                        rv.append((cur, dflt))
                    return rv
            t = op("in", args[0], b, st.cver.get(b, 0))
            ts, fs = self.split_in(st, t)
            rv = []
            for x in ts:
                rv += self.index(x, b, args[0], n)
            rv += [(x, dflt) for x in fs]
            return rv
        if name == "copy" and not args:
            return [(st, op("copy", b))]
        if self.c.chars:
            r = self.of_letters(st, b, name, [self.norm(st, x) for x in
                                              args], n) if not kw else None
            if r is not None:
                return r
        if self.c.texts and name == "join" and is_const(b) and \
                len(args) == 1:
            items = self.closed_items(st, args[0])
            if items is not None:
                return [(st, cat(*[y for i, x in enumerate(items) for y in
                                   ((b, x) if i else (x,))]))]
        allargs = [b] + list(args) + [v for k, v in sorted(kw.items())]
        if is_const(b) and isinstance(b.a[1], str):
            r = self.const_method(b, name, [self.norm(st, x) for x in args],
                                  kw)
            if r is not None:
                return [(st, r)]
            if name == "format" and self.c.texts:
                r = self.formatted(b, [self.norm(st, x) for x in args], kw)
                if r is not None:
                    return [(st, r)]
        if name in ("removeprefix", "removesuffix") and len(args) == 1:
            # as an expression with startswith/endswith and a slice
            pre = name == "removeprefix"
            e = ast.parse("(b[len(a):] if b.startswith(a) else b)" if pre
                          else "(b[:len(b) - len(a)] if a and b.endswith(a) "
                          "else b)", mode="eval").body
            for x in ast.walk(e):
                if hasattr(x, "lineno"):
                    ast.copy_location(x, n)
            env = st.env
            s2 = st.set_var("a", args[0]).set_var("b", b)
            rv = []
            for s3, v in self.ev(e, s2):
                s3 = s3.copy()
                s3.env = env
                rv.append((s3, v))
            return rv
        if self.c.exact and name in SET_METHODS and len(args) == 1 and \
                not kw and self.setlike(b):
            x, y = self.closed_items(st, b), self.closed_items(st, args[0])
            if x is not None and y is not None and all(
                    ground(v) for v in x + y):
                r = SET_METHODS[name](x, y)
                if isinstance(r, bool):
                    return [(st, const(r))]
                st, o = self.alloc("set", n, st)
                return [(st.set_attr(o, "$items", mk("tuple", *once(r))),
                         o)]
        st = self.c.on_op(self, st, "." + name, allargs, n)
        st = st.event("ext", "." + name, allargs, n)
        ver = st.cver.get(b, 0)
        return [(st, op("." + name, *(allargs + ([ver] if ver else []))))]

    def known_dict(self, st, b):
        return b.tag == "obj" and b.a[0] == "dict" and \
            st.heap.get((b, "$items")) is not None and \
            (b, "$open") not in st.heap

    def const_method(self, b, name, args, kw):
        """methods of constant texts, which have no effect"""
        if name not in PURE_STR or kw or not all(
                a.tag == "const" for a in args):
            return None
        try:
            r = getattr(b.a[1], name)(*[a.a[1] for a in args])
        except (TypeError, ValueError, IndexError):
            return None
        if isinstance(r, (str, int, bool)) and len(str(r)) < 500:
            return const(r)
        return None

    def formatted(self, b, args, kw):
        """str.format without conversions"""
        try:
            parts = list(string.Formatter().parse(b.a[1]))
        except ValueError:
            return None
        rv, i = [], 0
        for text, field, spec, conv in parts:
            rv.append(const(text))
            if field is None:
                continue
            if spec or conv not in (None, "s"):
                return None
            if field == "":
                field, i = str(i), i + 1
            if field.isdigit() and int(field) < len(args):
                rv.append(args[int(field)])
            elif field in kw:
                rv.append(kw[field])
            else:
                return None
        return cat(*rv)

    def ext_forks(self, st, n):
        for names in reversed(self.ext_try):
            for nm in names:
                if nm in ("BaseException", "Exception"):
                    continue
                self.raise_(st, mk("obj", nm, ("ext", n.lineno,
                                               n.col_offset)), n)
            if names:
                break
        return st

    def call_ext(self, name, recv, args, kw, st, n):
        r = self.c.on_ext(self, st, name, recv, args, kw, n)
        if r is not None:
            return self.emit_results(r, n)
        if name in ("sys.exit", "os._exit"):
            st = st.event("ext", name, args, n)
            self.sinks[0].append(Outcome("exit", st,
                                         args[0] if args else NONE, n,
                                         self.frame.fi))
            return []
        st = self.ext_forks(st, n)
        last = name.split(".")[-1]
        if last in ("copy", "deepcopy"):
            return [(st, op(last, *args))]
        allargs = list(args) + [op("kw", k, v)
                                for k, v in sorted(kw.items())]
        st = self.c.on_op(self, st, name, allargs, n)
        st = st.event("ext", name, allargs, n)
        return [(st, op(name, *allargs))]

    def instantiate(self, cname, args, kw, st, n):
        c = self.m.classes[cname]
        ini = c.lookup("__init__")
        o = self.c.instance(cname)
        if o is None:
            st, o = self.alloc(cname, n, st)
        if ini is not None:
            bb = self.bind(ini, o, args, kw, st)
            bargs = bb[1] if bb is not None else {}
        else:
            bargs = {}
        st = st.set_attr(o, "$new", mk("newargs", cname, tuple(
            sorted(((k, v) for k, v in bargs.items() if k != "self"),
                   key=lambda x: x[0]))))
        st = self.c.on_new(self, st, c, o, bargs, kw, n)
        if st is None:
            return []
        st = st.event("new", cname, o, bargs, n)
        if ini is None:
            return [(st, o)]
        rv = []
        for s2, _ in self.call_func(ini, o, args, kw, st, n):
            rv.append((s2, o))
        return rv

    def call_builtin(self, name, args, kw, st, n):
        r = self.c.on_ext(self, st, name, None, args, kw, n)
        if r is not None:
            return self.emit_results(r, n)
        st = self.ext_forks(st, n)
        if self.c.unroll_comps and args and args[0].tag == "gen" and \
                name in ("list", "tuple", "sorted", "set", "frozenset") and \
                self.c.fuse_generators:
            rv = []
            for s2, lst in self.drained(n, st, args[0]):
                rv += self.call_builtin(name, [lst] + args[1:], kw, s2, n) \
                    if name != "list" else [(s2, lst)]
            return rv
        if name in ("all", "any") and len(args) == 1 and \
                args[0].tag == "comp":
            return self.truth_of_comp(st, args[0], name == "all", n)
        if name in ("list", "tuple", "sorted", "set", "frozenset",
                    "reversed", "iter"):
            if not args:
                kind = "list" if name in ("list",) else (
                    "set" if name in ("set",) else None)
                if kind:
                    s2, o = self.alloc(kind, n, st)
                    return [(s2.set_attr(o, "$items", mk("tuple")), o)]
                return [(st, mk("tuple"))]
            items = self.closed_items(st, args[0])
            if items is not None and name in ("list", "tuple", "iter"):
                if name == "tuple":
                    return [(st, mk("tuple", *items))]
                s2, o = self.alloc("list", n, st)
                return [(s2.set_attr(o, "$items", mk("tuple", *items)), o)]
            if items is not None and name == "sorted" and not kw and (
                    len(items) < 2 or all(is_const(x) and isinstance(
                        x.a[1], str) for x in items)):
                s2, o = self.alloc("list", n, st)
                return [(s2.set_attr(o, "$items", mk("tuple", *sorted(
                    items, key=lambda x: x.a[1] if is_const(x) else ""))),
                    o)]
            if items is not None and name == "sorted" and \
                    self.c.unroll_comps and set(kw) == {"key"}:
                cur = [(st, ())]
                for x in items:
                    cur = [(s2, got + (v,)) for s, got in cur
                           for s2, v in self.call_value(kw["key"], [x], {},
                                                        s, n)]
                rv = []
                for s, keys in cur:
                    keys = [self.norm(s, k) for k in keys]
                    if len(keys) > 1 and not (all(is_const(k) for k in keys)
                                              and len({type(k.a[1]) for k
                                                       in keys}) == 1):
                        rv = None
                        break
                    order = sorted(range(len(keys)), key=lambda i:
                                   keys[i].a[1] if len(keys) > 1 else 0)
                    s2, o = self.alloc("list", n, s)
                    rv.append((s2.set_attr(o, "$items", mk(
                        "tuple", *[items[i] for i in order])), o))
                if rv is not None:
                    return rv
            if items is not None and self.c.exact and name in (
                    "set", "frozenset"):
                items = once(items)
            if items is not None and name == "sorted" and self.c.exact and \
                    not set(kw) - {"reverse"}:
                order = self.in_order(items)
                if order is not None and kw.get("reverse", FALSE) in (
                        TRUE, FALSE):
                    if kw.get("reverse") is TRUE:
                        order = order[::-1]
                    s2, o = self.alloc("list", n, st)
                    return [(s2.set_attr(o, "$items", mk("tuple", *order)),
                             o)]
            if items is not None and name in ("set", "frozenset"):
                s2, o = self.alloc("set", n, st)
                return [(s2.set_attr(o, "$items", mk("tuple", *items)), o)]
            kwa = [op("kw", k, v) for k, v in sorted(kw.items())]
            st = self.c.on_op(self, st, name, list(args) + kwa, n)
            return [(st, op(name, args[0],
                            *([st.cver[args[0]]] if args[0] in st.cver
                              else []), *kwa))]
        if name == "dict":
            s2, o = self.alloc("dict", n, st)
            items = [mk("tuple", const(k), v) for k, v in kw.items()
                     if k != "**"]
            if len(args) == 1 and not items and "**" not in kw:
                more = self.pairs(st, self.norm(st, args[0]))
                if more is not None:
                    return [(s2.set_attr(o, "$items", mk("tuple", *more)),
                             o)]
            s2 = s2.set_attr(o, "$items", mk("tuple", *items))
            if args or "**" in kw:
                s2 = s2.set_attr(o, "$open", TRUE)
            return [(s2, o)]
        if name in ("enumerate", "zip", "range"):
            return [(st, op(name, *args))]
        if name == "len":
            items = self.closed_items(st, args[0])
            if items is not None:
                return [(st, const(len(items)))]
            a = args[0]
            if a.tag == "const" and isinstance(a.a[1], str):
                return [(st, const(len(a.a[1])))]
            tt = self.types_of(st, a)
            if tt is not None and len(tt) == 1 and \
                    list(tt)[0] in self.m.classes:
                f = self.m.classes[list(tt)[0]].lookup("__len__")
                if f is not None:
                    return self.call_func(f, a, [], {}, st, n)
            st = self.c.on_op(self, st, "len", [a], n)
            return [(st, op("len", a, *([st.cver[a]] if a in st.cver
                                        else [])))]
        if name == "bool" and args:
            t, f = self.split(st, args[0])
            return [(x, TRUE) for x in t] + [(x, FALSE) for x in f]
        if name in ("any", "all") and args:
            items = self.closed_items(st, args[0])
            if items is not None and len(items) < 12:
                cur = [st]
                rv = []
                for x in items:
                    nxt = []
                    for c in cur:
                        t, f = self.split(c, x)
                        if name == "all":
                            nxt += t
                            rv += [(y, FALSE) for y in f]
                        else:
                            nxt += f
                            rv += [(y, TRUE) for y in t]
                    cur = nxt
                rv += [(y, TRUE if name == "all" else FALSE) for y in cur]
                return rv
            return self.truth_of_comp(st, args[0], name == "all", n)
        if name in ("max", "min") and len(args) > 1 and not kw and all(
                is_const(x) and isinstance(x.a[1], int) for x in args):
            return [(st, const({"max": max, "min": min}[name](
                x.a[1] for x in args)))]
        if name in ("hasattr", "callable"):
            return [(st, op(name, *args))]
        if name == "getattr" and len(args) >= 2 and args[1].tag == "const":
            return self.get_attr(st, args[0], args[1].a[1], n)
        if name == "setattr" and len(args) == 3 and args[1].tag == "const":
            return [(self.write_attr(st, args[0], args[1].a[1], args[2], n),
                     NONE)]
        if name == "type" and len(args) == 1:
            return self.get_attr(st, args[0], "__class__", n)
        if name.endswith("Error") or name == "Exception":
            return [(st, mk("obj", name, ("exc", n.lineno)))]
        if name in ("print", "open"):
            allargs = list(args) + [op("kw", k, v)
                                    for k, v in sorted(kw.items())]
            st = st.event("ext", name, allargs, n)
            return [(st, op(name, *allargs) if name == "open" else NONE)]
        allargs = list(args) + [op("kw", k, v)
                                for k, v in sorted(kw.items())]
        st = self.c.on_op(self, st, name, allargs, n)
        return [(st, op(name, *allargs))]


_READS = {}


def _reads(n):
    k = id(n)
    r = _READS.get(k)
    if r is None:
        r = (n, frozenset(x.id for x in ast.walk(n)
                          if isinstance(x, ast.Name)))
        _READS[k] = r
    return r[1]


def _kills(n):
    """names the statement surely overwrites"""
    if isinstance(n, ast.Assign):
        r = set()
        for t in n.targets:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List))
                      else [t]):
                if isinstance(x, ast.Name):
                    r.add(x.id)
        return r
    if isinstance(n, ast.AnnAssign) and n.value is not None and \
            isinstance(n.target, ast.Name):
        return {n.target.id}
    return ()


_UE = {}


def _ue(n):
    """names whose value before the statement may be used by it"""
    k = id(n)
    r = _UE.get(k)
    if r is not None:
        return r[1]
    if isinstance(n, ast.Assign):
        v = _loads(n.value)
        for t in n.targets:
            v |= _loads(t)
    elif isinstance(n, ast.If):
        v = _loads(n.test) | _ueb(n.body) | _ueb(n.orelse)
    elif isinstance(n, ast.While):
        v = _loads(n.test) | _ueb(n.body) | _ueb(n.orelse)
    elif isinstance(n, ast.For):
        tg = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        v = _loads(n.iter) | (_ueb(n.body) - tg) | _ueb(n.orelse) | \
            _loads(n.target)
    elif isinstance(n, (ast.Expr, ast.Return, ast.Raise, ast.Assert)):
        v = _loads(n)
    elif isinstance(n, ast.Try):
        v = _ueb(n.body) | _ueb(n.orelse) | _ueb(n.finalbody)
        for h in n.handlers:
            v |= _ueb(h.body)
    else:
        v = _reads(n)
    v = frozenset(v)
    _UE[k] = (n, v)
    return v


def _ueb(body):
    cur = frozenset()
    for x in reversed(body):
        cur = (cur - frozenset(_kills(x))) | _ue(x)
    return cur


def _loads(n):
    if isinstance(n, ast.Name):
        return frozenset([n.id]) if isinstance(n.ctx, ast.Load) \
            else frozenset()
    r = frozenset()
    for c in ast.iter_child_nodes(n):
        r |= _loads(c)
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                      ast.GeneratorExp)):
        inner = frozenset(
            x.id for g in n.generators for x in ast.walk(g.target)
            if isinstance(x, ast.Name))
        r = (r - inner) | _loads(n.generators[0].iter)
    return r


class _Gen:
    def __init__(self, frame, cframe, node, gen, target, body):
        self.frame, self.cframe, self.node = frame, cframe, node
        self.gen, self.target, self.body = gen, target, body


def _encenv(env):
    return mk("envv", tuple(sorted(env.items(), key=lambda x: x[0])))


def _decenv(v):
    if v.tag != "envv":
        raise Undecided("variables of the consumer of a generator")
    return dict(v.a[0])


class _Id:
    """identity-hashed wrapper so that AST nodes can be inside values"""
    _tab = {}

    def __new__(cls, x):
        o = cls._tab.get(id(x))
        if o is None:
            o = object.__new__(cls)
            o.x = x
            cls._tab[id(x)] = o
        return o

    def __init__(self, x):
        pass

    def __repr__(self):
        return "<node>"


def _frames(f):
    while f is not None:
        yield f
        f = f.parent


def _load(t):
    t2 = ast.copy_location(_clone(t), t)
    return t2


def _clone(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()),
                                 t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice,
                                               ast.Load()), t)
    raise Undecided("augmented target")


def _vhash(st, fi, model):
    """version tag: state-changing callees yield distinct results"""
    e = model.effects().get(fi.qual)
    if not e or not (e[0] or e[1]):
        return 0
    return str(sorted((k, str(v)) for k, v in st.aver.items()
                      if k in e[0]))[:200]


def cut(b, x, shape, vs):
    """x[a:][:-b] is x[a:-b], and so is x[:-b][a:]"""
    first, last = (True, False, False), (False, True, False)
    if x.tag == "op" and x.a[0] == "slice" and \
            {x.a[2], shape} == {first, last}:
        lo, hi = (x.a[3], vs[0]) if shape == last else (vs[0], x.a[3])
        if all(is_const(v) and isinstance(v.a[1], int) for v in (lo, hi)) \
                and lo.a[1] >= 0 > hi.a[1]:
            return op("slice", x.a[1], (True, True, False), lo, hi)
    return op("slice", b, shape, *vs)


def eqterm(a, b):
    if a.n > b.n:
        a, b = b, a
    return op("eq", a, b)


def neg(v):
    if v is TRUE:
        return FALSE
    if v is FALSE:
        return TRUE
    if v.tag == "op" and v.a[0] == "not":
        x = v.a[1]
        if x.tag == "op" and x.a[0] in PRED:
            return x
    return op("not", v)


def is_lit(v):
    return v.tag in ("const", "enum", "class", "func", "module") or \
        (v.tag == "tuple" and all(is_lit(x) for x in v.a))
