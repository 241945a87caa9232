"""Compare a function with a reference written in the same language.

Both are interpreted abstractly; the reference is interpreted in the final
path condition of every path of the function, so that only the reference
paths remain which agree with it.  Result, reported messages and writes
have to be the same.
"""
import ast
import os.path
import textwrap
from .base import *            # noqa
from .model import ModuleInfo, FuncInfo
from .absint import Undecided, Budget, cat

#: operators whose meaning in a condition is fully understood
CLEAR_OPS = {"cat", "mul", "eq", "lt", "in", "index", "isinstance", "not", "len", "add",
             "sub", "classof", "nonempty", "float", "int", "neg", "lower", ".lower", ".replace",
             "replace", "values", "keys", "items"}


#: their result is True or False
BOOLEAN = {"eq", "lt", "in", "not", "isinstance", ".startswith",
           ".endswith", ".isspace", ".isdigit", ".isalpha"}


def linear(v):
    """constant and coefficients of a sum of integers"""
    if is_const(v) and isinstance(v.a[1], int):
        return v.a[1], {}
    if v.tag == "op" and v.a[0] == ".count" and len(v.a) == 3 and \
            v.a[1].tag == "op" and v.a[1].a[0] == "slice" and \
            not v.a[1].a[2][2]:
        # occurrences up to the end less those up to the start
        f = v.a[1]
        at = list(f.a[3:])
        ends = [at.pop(0) if x else None for x in f.a[2]]
        d = {}
        for e, n in ((ends[1], 1), (ends[0], -1)):
            if e is None and n == -1:
                continue
            if e is not None:
                k, t = linear(e)
                e = (k, tuple(sorted(t.items(), key=repr)))
                if e == (0, ()):
                    continue
            x = mk("count", f.a[1], v.a[2], e)
            d[x] = d.get(x, 0) + n
        return 0, {t: n for t, n in d.items() if n}
    if v.tag == "op" and v.a[0] in ("add", "sub") and len(v.a) == 3:
        k, d = linear(v.a[1])
        k2, d2 = linear(v.a[2])
        f = 1 if v.a[0] == "add" else -1
        d = dict(d)
        for t, n in d2.items():
            d[t] = d.get(t, 0) + f * n
        return k + f * k2, {t: n for t, n in d.items() if n}
    return 0, {v: 1}


def canon(ip, st, v, depth=0, seen=()):
    """structure of a value, without allocation sites"""
    v = ip.norm(st, v)
    if v.tag == "op" and v.a[0] in BOOLEAN and v in st.truth:
        return const(st.truth[v])
    if v.tag == "op" and v.a[0] in ("add", "sub", ".count") and \
            getattr(ip.c, "linear", False):
        k, terms = linear(v)
        terms = sorted(((canon(ip, st, t, depth + 1, seen), n)
                        for t, n in terms.items()), key=repr)
        return ("sum", k) + tuple(terms)
    if v.tag == "obj":
        if v in seen or depth > 6:
            return ("cycle", v.a[0])
        seen = seen + (v,)
        if v.a[0] in ("list", "set", "dict"):
            items = ip.closed_items(st, v) if v.a[0] != "dict" else None
            if v.a[0] == "dict":
                h = st.heap.get((v, "$items"))
                if h is not None and (v, "$open") not in st.heap:
                    items = list(h.a)
            if items is None:
                return ("open", v.a[0])
            c = [canon(ip, st, x, depth + 1, seen) for x in items]
            if v.a[0] == "set":
                c = sorted(c, key=repr)
            return (v.a[0],) + tuple(c)
        at = sorted((k[1], canon(ip, st, x, depth + 1, seen))
                    for k, x in st.heap.items()
                    if k[0] is v and isinstance(k[1], str) and
                    k[1][0] != "$")
        return ("new", v.a[0], tuple(at))
    if v.tag == "tuple":
        return ("tuple",) + tuple(canon(ip, st, x, depth + 1, seen)
                                  for x in v.a)
    if not any(x.tag in ("obj",) for x in subterms(v)):
        return v
    if v.tag == "op":
        return ("op", v.a[0]) + tuple(
            canon(ip, st, x, depth + 1, seen) if isinstance(x, V) else x
            for x in v.a[1:])
    if v.tag == "attr":
        return ("attr", canon(ip, st, v.a[0], depth + 1, seen)) + v.a[1:]
    return v


def cshow(c):
    if isinstance(c, V):
        return show(c)
    if isinstance(c, tuple) and c:
        if c[0] == "sum":
            return " + ".join([cshow(t) if n == 1 else "%s*%s" % (
                n, cshow(t)) for t, n in c[2:]] + [str(c[1])])
        if c[0] == "new":
            return "new %s(%s)" % (c[1], ", ".join(
                "%s=%s" % (k, cshow(x)) for k, x in c[2]))
        if c[0] in ("list", "set", "tuple", "dict"):
            return "%s(%s)" % (c[0], ", ".join(cshow(x) for x in c[1:]))
        if c[0] == "op":
            return "%s(%s)" % (c[1], ", ".join(cshow(x) for x in c[2:]))
        return " ".join(cshow(x) for x in c)
    return str(c)


#: their result can be anything, it is only used in texts
INERT = ("get_close_matches", "difflib.get_close_matches")


def clear(v, contracts, words=None):
    inert = set()
    for x in subterms(v):
        if x.tag == "op" and x.a[0] in INERT:
            inert |= subterms(x)
    for x in subterms(v) - inert:
        if x.tag in ("sym", "attr", "const", "enum", "class", "tuple", "obj",
                     "builtin", "ext", "func", "newargs", "decl"):
            continue
        if x.tag == "op" and (x.a[0] in CLEAR_OPS or
                              str(x.a[0]).startswith("call.")):
            continue
        if x.tag == "op" and words is not None and words(x.a[0]):
            continue
        return False
    return True


class EqClient(TrlcClient):
    inline_depth = 9
    max_heads = 12
    recursion = 6
    budget = 200000
    opaque_raises = False
    precise_get = True
    fuse_generators = True
    unroll_comps = True
    cuts = True

    def __init__(self, contracts=(), raising=(), ignore=(), messages=True,
                 shared=()):
        self.contracts = set(contracts)
        self.raising = set(raising)
        self.ignore = set(ignore)
        self.messages = messages
        self.shared = set(shared)
        self.asserted = set()

    def words(self, name):
        """is the meaning of an operation known? None: as usual"""
        return None

    def log(self, st, *e):
        return st.set_ts(st.ts + (e,))

    def on_emit(self, ip, st, kind, fatal, args, node):
        if not self.messages:
            return st
        loc = args.get("location", NONE)
        extra = ()
        if kind in ("warning", "error", "check"):
            extra = tuple((k, canon(ip, st, args[k])) for k in
                          ("user", "explanation", "message", "fatal") if
                          args.get(k) is not None and
                          k in self.message_args and (
                              k != "message" or ip.norm(
                                  st, args[k]).tag == "attr"))
        return self.log(st, "message", kind, canon(ip, st, loc), *extra)

    message_args = ()
    ext = {}
    instances = {}
    returns = {}
    items = {}
    logged = frozenset()

    def on_ext(self, ip, st, name, recv, args, kw, node):
        if callable(self.ext.get(name)):
            return self.ext[name](ip, st, recv, args, kw, node)
        if name in self.ext:
            return [("ret", st, self.ext[name])]
        if self.exact and name == "os.path.splitext" and len(args) == 1 \
                and is_const(ip.norm(st, args[0])):
            return [("ret", st, mk("tuple", *[const(x) for x in os.path.
                                              splitext(ip.norm(
                                                  st, args[0]).a[1])]))]
        if name == "print" and self.texts and not set(kw) - {"file", "end"}:
            parts = []
            for i, a in enumerate(args):
                parts += [const(" "), a] if i else [a]
            parts.append(kw.get("end") or const("\n"))
            return [("ret", self.log(st, "print", kw.get("file") or NONE,
                                     cat(*[ip.norm(st, x) for x in parts])),
                     NONE)]
        return None


    def instance(self, cname):
        return self.instances.get(cname)

    def call_hook(self, ip, st, fi, self_v, args, node):
        q = fi.qual
        name = fi.name
        if self_v is not None and (name, self_v) in self.returns:
            return [("ret", st, self.returns[(name, self_v)])]
        for c in (q, "*." + name):
            if c in self.contracts:
                if fi.is_static:
                    self_v = None
                if name == "__init__" and self_v is not None:
                    for p in fi.params[1:]:
                        if args.get(p) is not None:
                            st = st.set_attr(self_v, p, ip.norm(
                                st, args[p]))
                            # the parent's part of the object under test
                            if p != "mh" and self_v is sym("self"):
                                st = self.log(st, "write", self_v, p)
                    if self_v in self.instances.values():
                        st = self.log(st, "made", self_v, tuple(
                            (p, canon(ip, st, args[p])) for p in
                            fi.params[1:] if args.get(p) is not None))
                    return [("ret", st, NONE)]
                ps = [p for p in fi.params[(1 if self_v is not None else
                                            0):] if p not in ("mh", "self")]
                return self.contract(ip, st, name, self_v,
                                     [args.get(p) for p in ps], c)
        return None


    def contract(self, ip, st, name, self_v, vals, c):
        if (name, self_v) in self.returns:
            return [("ret", st, self.returns[(name, self_v)])]
        t = op("call." + name, *([self_v] if self_v is not None else []),
               *[uncopied(ip.norm(st, v)) for v in vals if v is not None])
        rv = [("ret", st, t)]
        if c in self.raising:
            ts = st._upd("truth", op("call.ok", t), True)
            fs = st._upd("truth", op("call.ok", t), False)
            cur = st.truth.get(op("call.ok", t))
            exc = mk("obj", "TRLC_Error", ("contract", name))
            rv = []
            if cur is not False:
                rv.append(("ret", ts, t))
            if cur is not True:
                rv.append(("raise", fs, exc))
        if c in self.logged:
            rv = [(k, self.log(s, "call", name, t), v) for k, s, v in rv]
        return rv


    def on_virtual(self, ip, st, name, cands, self_v, args, kw, node):
        if (name, self_v) in self.returns:
            return [("ret", st, self.returns[(name, self_v)])]
        if "*." + name in self.contracts:
            d = dict(kw or {})
            vals = list(args)
            if cands:
                ps = [p for p in cands[0].params[1:]]
                b = dict(zip(ps, args))
                b.update(d)
                vals = [b.get(p) for p in ps if p != "mh"]
            return self.contract(ip, st, name, self_v, vals, "*." + name)
        return None

    def own(self, base):
        return base.tag == "obj" and base not in self.shared

    def on_write(self, ip, st, base, name, val, node):
        if self.own(base) or name in self.ignore:
            return st
        return self.log(st, "write", base, name)

    def on_mutate(self, ip, st, base, meth, args, node):
        if self.own(base):
            return st
        if base.tag == "attr" and base.a[1] in self.ignore:
            return st
        if meth == "extend" and len(args) == 1:
            items = ip.closed_items(st, args[0])
            if items is not None:
                for x in items:
                    st = self.log(st, "change", base, "append",
                                  (canon(ip, st, x),))
                return st
        return self.log(st, "change", base, {"__setitem__": "set"}.get(
            meth, meth), tuple(canon(ip, st, a) for a in args))


def uncopied(v):
    """the content of a copy is that of the original"""
    while v.tag == "op" and v.a[0] in (
            "copy", "copy.copy", ".copy", "dict", "list") and \
            len(v.a) == 2 and isinstance(v.a[1], V):
        v = v.a[1]
    return v


def effects(ip, st):
    """order of writes to different places does not matter"""
    w = {}
    rest = []
    for e in st.ts:
        if e[0] == "write":
            v = st.heap.get((e[1], e[2]))
            w[(e[1], e[2])] = canon(ip, st, v) if v is not None else None
        elif e[0] == "print" and rest and rest[-1][:2] == e[:2]:
            rest[-1] = e[:2] + (cat(rest[-1][2], e[2]),)
        else:
            rest.append(e)
    return w, tuple(rest)


def describe(e):
    rv = []
    if e[0] == "message":
        return "%s at %s" % (e[1], cshow(e[2]))
    if e[0] == "write":
        return "%s.%s is set" % (show(e[1]), e[2])
    if e[0] == "change":
        return "%s.%s(%s)" % (show(e[1]), e[2], ", ".join(
            cshow(x) for x in e[3]))
    return " ".join(cshow(x) for x in e)


class Result:
    def __init__(self, ip, o):
        self.o = o
        self.kind = o.kind
        v = o.val
        if o.kind == "raise":
            v = ip.norm(o.st, v) if isinstance(v, V) else v
            self.val = v.a[0] if isinstance(v, V) and v.tag == "obj" else \
                str(v.a[0] if isinstance(v, V) else v)
        elif o.kind == "return":
            self.val = canon(ip, o.st, v) if v is not None else NONE
        else:
            self.val = None
        self.writes, self.eff = effects(ip, o.st)

    def same(self, other, only=False):
        """other: the reference; only: further writes are allowed"""
        if self.kind == other.kind == "exit":
            return True
        if self.kind != other.kind or self.val != other.val or \
                self.eff != other.eff:
            return False
        if self.kind != "return":
            return True
        if not only and set(self.writes) != set(other.writes):
            return False
        return all(self.writes.get(k) == v for k, v in other.writes.items())

    def unknown(self):
        """a container whose content is not known exactly"""
        def opened(c):
            return isinstance(c, tuple) and (
                (len(c) == 2 and c[0] == "open") or
                any(opened(x) for x in c))
        return opened((self.val, self.eff, tuple(self.writes.values())))

    def text(self, other=None):
        ev = [describe(e) for e in self.eff]
        if other is not None:
            n = 0
            while n < len(self.eff) and n < len(other.eff) and \
                    self.eff[n] == other.eff[n]:
                n += 1
            if n > 2:
                ev = ["..."] + ev[n:]
        ev += ["%s.%s = %s" % (show(k[0]), k[1], cshow(v))
               for k, v in self.writes.items()]
        r = {"return": "returns " + cshow(self.val),
             "raise": "raises %s" % (self.val,),
             "exit": "exits", "ice": "fails an assertion"}[self.kind]
        return "; ".join(ev + [r])


#: their effect on a text is certain
TEXTUAL = {".lower", ".upper", ".strip", ".lstrip", ".rstrip", ".replace",
           ".startswith", ".endswith", ".isspace", ".isdigit", ".isalpha",
           ".isalnum", ".capitalize", ".title", ".count"}


def methods(c, rv):
    """which methods of unknown values a result is made of"""
    if isinstance(c, V):
        for x in subterms(c):
            if x.tag == "op" and str(x.a[0]).startswith("."):
                rv.add(x.a[0])
    elif isinstance(c, tuple):
        if len(c) > 1 and c[0] == "op" and str(c[1]).startswith("."):
            rv.add(c[1])
        for x in c:
            methods(x, rv)
    return rv


def strange(c, words, rv):
    """operations of which nothing is known (words says False)"""
    if isinstance(c, V):
        for x in subterms(c):
            if x.tag == "op" and words(x.a[0]) is False:
                rv.add(x.a[0])
    elif isinstance(c, tuple):
        if len(c) > 1 and c[0] == "op" and isinstance(c[1], str) and \
                words(c[1]) is False:
            rv.add(c[1])
        for x in c:
            strange(x, words, rv)
    return rv


def spec_function(m, source, like, cls=None):
    """a function in the namespace of a module"""
    base = m.modules[like]
    mi = ModuleInfo.__new__(ModuleInfo)
    mi.name, mi.path, mi.rel = base.name, "spec", "reference"
    mi.source = textwrap.dedent(source)
    mi.tree = ast.parse(mi.source)
    mi.functions = dict(base.functions)
    mi.classes = dict(base.classes)
    mi.globals = dict(base.globals)
    mi.imports = dict(base.imports)
    mi.stars = list(base.stars)
    first = None
    for n in mi.tree.body:
        fi = FuncInfo("spec:" + n.name, mi, None, n)
        mi.functions[n.name] = fi
        if first is not None:
            m.functions[first.qual] = first
        first = fi
    return first


def facts(st):
    rv = {}
    for fld in ("truth", "eq", "neq", "types"):
        for k, v in getattr(st, fld).items():
            rv[(fld, k)] = v
    return rv


def new_atoms(st0, st):
    old = facts(st0)
    return {k[1] for k, v in facts(st).items() if old.get(k) is not v and
            old.get(k) != v}


def catches_lookup_errors(ctx, quals):
    for q in quals:
        fi = ctx.m.functions.get(q)
        if fi is None:
            continue
        for n in ast.walk(fi.node):
            if isinstance(n, ast.ExceptHandler):
                names = {x.id for x in ast.walk(n.type) if
                         isinstance(x, ast.Name)} if n.type else {"all"}
                if names - {"TRLC_Error", "Error"}:
                    return True
    return False


def impossible(st):
    """nothing is in an empty dictionary"""
    empty = {k.a[1] for k, v in st.truth.items() if v is False and
             k.tag == "op" and k.a[0] in ("values", "keys", "items")}
    return bool(empty) and any(
        v is True and k.tag == "op" and k.a[0] == "in" and k.a[-1] in empty
        for k, v in st.truth.items())


def by_truth(ip, outs):
    """paths, split by the truth of their result"""
    rv = []
    for o in outs:
        if o.kind != "return" or o.val is None:
            rv.append(o)
            continue
        t, f = ip.split(o.st, o.val)
        rv += [Outcome("return", x, v, o.node, o.fi)
               for xs, v in ((t, TRUE), (f, FALSE)) for x in xs]
    return rv


def equiv(ctx, rule, what, *args, **kw):
    try:
        compare(ctx, rule, what, *args, **kw)
    except (Undecided, Budget) as e:
        ctx.undecided(rule, what, e)


def compare(ctx, rule, what, qual, source, setup=None, args=None,
          contracts=(), raising=(), ignore=(), truthy=False, messages=True,
          like="ast", logged=(), shared=(), types=(), message_args=(),
          only=False, returns=None, items=None, drive=None, linear=False,
          depth=9, texts=False, chars=(), exact=False, ext=None, instances=None,
          client_class=None, result=None, options=None):
    """one obligation per path of the function; drive: a function which uses
    it, interpreted in its place"""
    m = ctx.m
    fi = m.functions.get(qual)
    if fi is None and "." in qual:
        c, n = qual.split(".", 1)
        ci = m.classes.get(c)
        fi = ci.lookup(n) if ci is not None else None
    if fi is None:
        ctx.undecided(rule, what, "%s does not exist" % qual)
        return
    ctx.funcs.add(fi.qual)
    target = fi
    if drive is not None:
        fi = spec_function(m, drive, like)
    ref = spec_function(m, source, like)

    shallow = []
    st1 = []
    Result = result or globals()["Result"]

    def client():
        c = (client_class or EqClient)(contracts, raising, ignore, messages,
                                       shared)
        for k, v in (options or {}).items():
            setattr(c, k, v)
        c.target = target
        if st1:
            c.st0 = st1[0]
        if shallow:
            c.recursion = 1
        c.inline_depth = depth
        if not shallow:
            c.recursion = max(c.recursion, depth // 2)
        c.logged = set(logged)
        c.linear = linear
        c.texts = texts
        c.chars = frozenset(chars)
        c.exact = exact
        c.ext = ext or {}
        c.instances = instances or {}
        if exact:
            c.max_heads = 60
        c.message_args = message_args
        c.returns = returns or {}
        c.items = items
        return c
    ip = Interp(m, client())
    st0 = State()
    env = {p: (args or {}).get(p) or sym(p) for p in fi.params}
    for v, ts in types:
        st0 = st0._upd("types", v, frozenset(x for t in ts
                                             for x in m.subclasses(t)))
    if setup is not None:
        st0 = setup(ip, st0)
    if target.cls is not None and not target.is_static and \
            "self" in env and env["self"].tag == "sym" \
            and env["self"] not in st0.types and not target.is_classmethod:
        st0 = st0._upd("types", env["self"],
                       m.subclasses(target.cls.name))
    st1.append(st0)
    ip = Interp(m, client())
    try:
        try:
            outs = ip.run(fi, env, st0)
        except Budget:
            shallow.append(1)
            ip = Interp(m, client())
            outs = ip.run(fi, env, st0)
        if truthy:
            outs = by_truth(ip, outs)
        ctx.analysed(ip)
        rip = Interp(m, client())
        free = rip.run(ref, {p: env.get(p) or (args or {}).get(p) or sym(p)
                             for p in ref.params}, st0)
    except (Undecided, Budget) as e:
        ctx.undecided(rule, what, e)
        return
    except (ValueError, TypeError, AttributeError, KeyError, IndexError,
            RecursionError) as e:
        ctx.undecided(rule, what, "internal error: %s" % e)
        return
    vocab = set()
    for o in free:
        vocab |= new_atoms(st0, o.st)
    known = set(TEXTUAL)
    base = [Result(rip, o) for o in free]
    catching = catches_lookup_errors(ctx, ip.analysed | {fi.qual})
    n = 0
    for o in outs:
        if o.kind == "ice" and all(x.kind != "ice" for x in free):
            # a definite assertion failure of a path
            pass
        n += 1
        got = Result(ip, o)
        start = o.st.copy()
        start.heap = st0.heap
        start.aver = st0.aver
        start.cver = st0.cver
        start.ts = ()
        start.trace = None
        start.env = {}
        rip = Interp(m, client())
        try:
            res = rip.run(ref, {p: env.get(p) or (args or {}).get(p) or
                                sym(p) for p in ref.params}, start)
        except (Undecided, Budget) as e:
            ctx.undecided(rule, what, e)
            continue
        if truthy:
            res = by_truth(rip, res)
        wants = [Result(rip, r) for r in res]
        if got.unknown() or any(w.unknown() for w in wants):
            ctx.undecided(rule, what, "a container with unknown content")
            continue
        bad = []
        for r, w in zip(res, wants):
            if got.same(w, only) or impossible(r.st):
                continue
            more = {k: v for k, v in r.st.truth.items()
                    if k not in o.st.truth}
            if more:
                s2 = o.st.copy()
                s2.truth = dict(o.st.truth, **{})
                s2.truth.update(more)
                if Result(ip, Outcome(o.kind, s2, o.val, o.node,
                                      o.fi)).same(w, only):
                    continue
            bad.append(w)
        if not bad:
            ctx.ok(rule, "%s: %s" % (what, got.text()[:90]))
            continue
        atoms = new_atoms(st0, o.st)
        odd = [a for a in atoms if a not in vocab and
               a not in ip.c.asserted and
               not clear(a, contracts, ip.c.words)]
        vals = [o.val] if o.kind == "return" and o.val is not None else []
        fuzzy = [v for v in vals if not clear(
            ip.norm(o.st, v), contracts, ip.c.words)
                 and not isinstance(canon(ip, o.st, v), tuple)]
        used = methods((got.val, got.eff) + tuple(got.writes.values()), set())
        for w in wants + base:
            methods((w.val, w.eff) + tuple(w.writes.values()), known)
        fuzzy += [sym("method " + x) for x in used - known]
        fuzzy += [sym(x) for x in strange((got.val, got.eff) + tuple(
            got.writes.values()), ip.c.words, set())]
        if odd or catching or fuzzy or ip.notes or ip.unknown_iter:
            ctx.undecided(rule, what, "unknown condition or value %s" % (
                "; ".join(show(x) for x in (odd + fuzzy +
                                            ip.unknown_iter)[:3]) or
                "of an exception handler %s" % (ip.notes,)))
            continue
        w = bad[0]
        ctx.violation(rule, what, (o.fi or fi).loc(o.node) if
                      (o.fi or fi).module.rel != "reference" else
                      target.loc(),
                      "%s: %s where the rule is: %s" % (
                          what, got.text(w), w.text(got)), path_text(o))
    ctx.count("paths compared", n)
    if not outs:
        ctx.undecided(rule, what, "no path")
