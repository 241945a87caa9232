"""C13, C14, C15: the language's rules are enforced where things are built.

Runs the parsing functions like trees.py.  At the construction, registration
or assignment which a rule governs, the rule is evaluated (a small reference
function) in the state of every path which reaches it and has to hold there.
Conversely every error reported must be justified by a rule which is broken
on its path, or by the next token.
"""
import ast
from sa.base import *         # noqa
from sa.absint import Undecided, Budget
from sa.equiv import spec_function, CLEAR_OPS, new_atoms
from rules.driver import oloc
from rules import grammar as gr
from rules import trees
from rules.grammar import ts_get, ts_set
from rules.trees import TreeClient, xget, xset

VOCAB = CLEAR_OPS | trees.QUERIES | {"nonempty", "or", "and", ".endswith",
                                     ".startswith"}
SPECS = {}


def known(v):
    for x in subterms(v):
        if x.tag == "attr" and x.a[1] == "table":
            return False
        if x.tag in ("sym", "attr", "const", "enum", "class", "tuple", "obj",
                     "builtin", "ext", "func", "newargs", "decl"):
            continue
        if x.tag == "op" and x.a[0] in VOCAB:
            continue
        return False
    return True


class GuardClient(TreeClient):
    inlined = ("is_component_implicit_null",)
    pinned = 0              # components given to all_components() / values()
    unroll_comps = True
    own_only = False        # the components of the type itself are enough

    def __init__(self, *a):
        super().__init__(*a)
        self.held = {}      # rule -> n
        self.broken = {}    # rule -> (loc, text)
        self.unsure = {}    # rule -> why
        self.asked = False
        self.walked = False
        self.own = False    # the components of the type itself are visited
        self.objtype = {}
        self.start = None
        self.comps = [sym("seq:component%d" % i) for i in range(2)]

    # -- evaluation of a rule ------------------------------------------------
    def evaluate(self, ip, st, source, node, **bind):
        """-> (states in which it holds, states in which it does not)"""
        key = (id(ip.m), source)
        if key not in SPECS:
            SPECS[key] = spec_function(ip.m, source, "ast")
        fi = SPECS[key]
        yes, no = [], []
        ip.sinks.append([])
        try:
            outs = ip.call_func(fi, None, [bind[p] for p in fi.params], {},
                                st, node)
        finally:
            ip.sinks.pop()
        for s, v in outs:
            a, b = ip.split(s, v)
            yes += a
            no += b
        return yes, no

    def odd(self, st, about=None):
        """conditions not understood; about: only those which may say
        something about this value"""
        rv = [a for a in new_atoms(self.start, st) if not known(a)]
        if about is not None:
            mine = {x for x in subterms(about) if x.tag not in (
                "const", "class", "enum", "builtin", "ext")}
            mine = {x for x in mine if x is about or self.root(x)}
            rv = [a for a in rv if any(
                x in mine or x.tag in ("phi", "call") for x in subterms(a))]
        return rv

    @staticmethod
    def root(x):
        """not merely a part of the parser"""
        while x.tag == "attr":
            x = x.a[0]
        return x is not sym("self")

    def decide(self, ip, st, rule, text, yes, no, loc, about=None):
        if not no:
            self.held[rule] = self.held.get(rule, 0) + 1
            return
        odd = self.odd(st, about)
        if odd or ip.notes:
            self.unsure.setdefault(rule, "; ".join(
                show(x) for x in odd[:3]) or str(ip.notes[0]))
        else:
            self.broken.setdefault(rule, (loc, text))

    def need(self, ip, st, node, rule, text, source, loc=None, about=None,
             **bind):
        if ts_get(st.ts, "rej") or ts_get(st.ts, "dev") is not None:
            return
        bind = {k: ip.norm(st, v) for k, v in bind.items()}
        yes, no = self.evaluate(ip, st, source, node, **bind)
        self.decide(ip, st, rule, text, yes, no,
                    loc or ip.frame.fi.loc(node), about)

    def need_fact(self, ip, st, node, rule, text, good, loc=None):
        if ts_get(st.ts, "rej") or ts_get(st.ts, "dev") is not None:
            return
        self.decide(ip, st, rule, text, [st], [] if good else [st],
                    loc or ip.frame.fi.loc(node))

    # -- engine hooks ------------------------------------------------------------
    def opaque(self, ip, fi):
        if fi.module.rel == "reference" or fi.name in self.inlined:
            return False
        return super().opaque(ip, fi)

    def call_hook(self, ip, st, fi, self_v, args, node):
        if self.start is None:
            self.start = st
        if fi.module.rel == "reference" or fi.name in self.inlined:
            return None
        return super().call_hook(ip, st, fi, self_v, args, node)

    def effect(self, ip, st, name, recv, args, node, kw):
        if self.start is None:
            self.start = st
        if name in self.inlined:
            return None
        if self.pinned and name == "all_components" or \
                self.pinned and name == "values" and recv is not None and \
                ip.norm(st, recv).tag == "attr" and \
                ip.norm(st, recv).a[1] in ("components", "table") and \
                self.own_only:
            self.asked = True
            lst = mk("obj", "list", ("components",))
            for c in self.comps[:self.pinned]:
                st = st._upd("types", c, frozenset(["Composite_Component"]))
            st = st.set_attr(lst, "$items", mk(
                "tuple", *self.comps[:self.pinned]))
            return [("ret", st, lst)]
        if name == "lookup":
            st = self.lookup(ip, st, recv, args, kw, node) or st
        return super().effect(ip, st, name, recv, args, node, kw)

    def lookup(self, ip, st, recv, args, kw, node):
        pass

    def iteration_begin(self, ip, st, node, it):
        if isinstance(node, ast.For) and (it.tag != "obj" or it is not mk(
                "obj", "list", ("components",))):
            self.walked = True
            if any(x.tag == "attr" and x.a[1] == "components"
                   for x in subterms(it)):
                self.own = True
        return super().iteration_begin(ip, st, node, it)

    def on_new(self, ip, st, cls, obj, args, kw, node):
        """plain attributes of the new object"""
        if self.start is None:
            self.start = st
        ci = cls
        init = ci.lookup("__init__")
        if init is not None:
            for s in init.node.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Attribute) and \
                        isinstance(s.targets[0].value, ast.Name) and \
                        s.targets[0].value.id == "self" and \
                        isinstance(s.value, ast.Name) and \
                        s.value.id in args and \
                        args[s.value.id] is not None:
                    st = st.set_attr(obj, s.targets[0].attr,
                                     args[s.value.id])
        f = getattr(self, "g_" + cls.name, None)
        if f is not None and not ts_get(st.ts, "rej"):
            st = f(ip, st, obj, args, node) or st
        return super().on_new(ip, st, cls, obj, args, kw, node)

    def sink(self, ip, st, name, recv, args, node, kw):
        a = [ip.norm(st, x) for x in args if x is not None]
        f = getattr(self, "s_" + name, None)
        if f is not None:
            st = f(ip, st, recv, a, node) or st
        return super().sink(ip, st, name, recv, args, node, kw)

    def mark(self, st, m):
        ms = xget(st, "marks")
        return st if (m,) in ms else xset(st, marks=ms + ((m,),))

    def marked(self, st, m):
        return (m,) in xget(st, "marks")

    # -- errors need a reason -----------------------------------------------------
    def on_emit(self, ip, st, kind, fatal, args, node):
        if kind == "error" and not ts_get(st.ts, "rej") and \
                ts_get(st.ts, "dev") is None and \
                ip.frame.fi.module.rel != "reference":
            why = self.syntactic(ip, st)
            for text, f in self.causes():
                why = why or f(ip, st)
            rule = "errors are justified"
            if why:
                self.held[rule] = self.held.get(rule, 0) + 1
            else:
                self.decide(ip, st, rule, "an error is reported although no "
                            "rule is broken", [], [st],
                            ip.frame.fi.loc(node))
        return super().on_emit(ip, st, kind, fatal, args, node)

    def syntactic(self, ip, st):
        if gr.grammar().accepting(ts_get(st.ts, "cfg")):
            return False
        al = gr.grammar().allowed(ts_get(st.ts, "cfg"), self.alpha, "~^?")
        return not al & self.bag(ip, st)

    def causes(self):
        return []

    # facts ----------------------------------------------------------------------
    @staticmethod
    def true(st, f):
        return any(v is True and f(k) for k, v in st.truth.items()) or \
            any(v is TRUE and f(k) for k, v in st.eq.items())

    @staticmethod
    def false(st, f):
        return any(v is False and f(k) for k, v in st.truth.items()) or \
            any(v is FALSE and f(k) for k, v in st.eq.items())

    alive = ()

    def prune(self, ip, st):
        keep = {k: v for k, v in st.heap.items() if k[1] in self.attributes}
        st = super().prune(ip, st)
        for k, v in keep.items():
            st.heap.setdefault(k, v)
        return st

    attributes = ()

    def relevant(self, k, live):
        return super().relevant(k, live) or any(
            x in self.alive for x in subterms(k))

    @staticmethod
    def has_type(st, f, names, m):
        """some term f has a type fact within names"""
        want = set()
        for n in names:
            want |= set(m.subclasses(n)) | {n}
        return any(f(k) and ts <= want for k, ts in st.types.items())

    @staticmethod
    def not_type(st, f, names, m):
        bad = set()
        for n in names:
            bad |= set(m.subclasses(n)) | {n}
        return any(f(k) and not (ts & bad) for k, ts in st.types.items())

    def conclude(self, ip, outs, fi):
        for o in outs:
            if o.kind != "return" or ts_get(o.st.ts, "rej") or \
                    ts_get(o.st.ts, "dev") is not None:
                continue
            self.at_return(ip, o.st, o, fi)

    def at_return(self, ip, st, o, fi):
        pass

    def queried(self, rule, loc, text):
        """the components have to be looked at"""
        if self.asked:
            return True
        if self.walked and not self.own:
            self.unsure.setdefault(rule, "components are visited in another "
                                   "way")
        else:
            self.broken.setdefault(rule, (loc, text))
        return False


def is_attr(name):
    return lambda k: k.tag == "attr" and k.a[1] == name


def is_op(name):
    return lambda k: k.tag == "op" and k.a[0] == name


def field_slot(k):
    return k.tag == "op" and k.a[0] == "index" and k.a[1].tag == "attr" and \
        k.a[1].a[1] == "field"


# --------------------------------------------------------------------------
# record objects
# --------------------------------------------------------------------------
NOT_ASSIGNED = """
def spec(obj, comp):
    return isinstance(obj.field[comp.name], Implicit_Null)
"""
NOT_FROZEN = """
def spec(typ, comp):
    return not typ.is_frozen(comp)
"""
CONCRETE = """
def spec(typ):
    return not typ.is_abstract
"""
SUPPLIED = """
def spec(typ, obj, comp):
    return not isinstance(obj.field[comp.name], Implicit_Null) or (
        comp.optional and not typ.is_frozen(comp))
"""


class ObjectClient(GuardClient):
    pinned = 2

    def g_Record_Object(self, ip, st, obj, args, node):
        self.objtype[obj] = ip.norm(st, args["n_typ"])
        self.alive = set(self.alive) | {self.objtype[obj], obj}
        self.objnode = node

    def s_assign(self, ip, st, recv, a, node):
        obj = ip.norm(st, recv)
        typ = self.objtype.get(obj)
        if typ is None or len(a) < 2:
            return st
        comp = a[0]
        self.need(ip, st, node, "components are assigned once",
                  "a component which already has a value is assigned again",
                  NOT_ASSIGNED, obj=obj, comp=comp)
        if a[1].tag == "op" and a[1].a[0] == "get_freezing_expression":
            if comp in self.comps:
                st = self.mark(st, ("frozen", comp))
            return st
        self.need(ip, st, node, "frozen components are not overwritten",
                  "a frozen component is overwritten", NOT_FROZEN, typ=typ,
                  comp=comp)
        return st

    def at_return(self, ip, st, o, fi):
        loc = oloc(o, fi)
        val = ip.norm(st, o.val)
        typ = self.objtype.get(val)
        if typ is None:
            return
        node = self.objnode
        ip.frame = ip.frame or None
        self.need(ip, st, node, "objects have a concrete type",
                  "an object of an abstract type is accepted", CONCRETE,
                  loc=loc, typ=typ)
        rule = "mandatory components have a value"
        text = "an object is complete although a component is neither " \
            "given, nor frozen, nor optional"
        if self.queried(rule, loc, text):
            for c in self.comps[:self.pinned]:
                if self.marked(st, ("frozen", c)):
                    self.held[rule] = self.held.get(rule, 0) + 1
                    continue
                self.need(ip, st, node, rule, text, SUPPLIED, loc=loc,
                          typ=typ, obj=val, comp=c)

    def causes(self):
        m = self.model
        return [
            ("abstract type", lambda ip, st: self.true(
                st, is_attr("is_abstract"))),
            ("frozen", lambda ip, st: self.true(
                st, lambda k: k.tag == "op" and k.a[0] == "is_frozen" and
                k.a[2] not in self.comps)),
            ("assigned", lambda ip, st: self.not_type(
                st, lambda k: field_slot(k) and k.a[2].a[0] not in
                self.comps, ["Implicit_Null"], m)),
            ("missing", lambda ip, st: any(
                self.has_type(st, lambda k: field_slot(k) and
                              k.a[2].a[0] is c, ["Implicit_Null"], m) and
                self.false(st, lambda k: k.tag == "op" and
                           k.a[0] == "is_frozen" and k.a[2] is c) and
                self.false(st, lambda k: k.tag == "attr" and
                           k.a[1] == "optional" and k.a[0] is c)
                for c in self.comps))]


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------
ENOUGH = """
def spec(typ, items):
    return len(items) >= typ.lower_bound
"""
NOT_TOO_MANY = """
def spec(typ, items):
    return typ.upper_bound is None or len(items) <= typ.upper_bound
"""
SAME = """
def spec(a, b):
    return a == b
"""
VISIBLE = """
def spec(cu, package):
    return cu.is_visible(package)
"""


class ValueGuard(GuardClient):
    keep_seps = False
    typ = sym("arg:typ")

    def at_return(self, ip, st, o, fi):
        val = ip.norm(st, o.val)
        if val.tag != "obj" or val.a[0] != "Array_Aggregate":
            return
        items = ip.norm(st, mk("attr", val, "value", 0))
        loc = oloc(o, fi)
        node = fi.node
        self.need(ip, st, node, "arrays have enough elements",
                  "an array with fewer elements than its type demands is "
                  "accepted", ENOUGH, loc=loc, typ=self.typ, items=items)
        self.need(ip, st, node, "arrays do not have too many elements",
                  "an array with more elements than its type permits is "
                  "accepted", NOT_TOO_MANY, loc=loc, typ=self.typ,
                  items=items)

    def g_Enumeration_Literal(self, ip, st, obj, args, node):
        lit = ip.norm(st, args["literal"])
        if lit.tag == "op" and lit.a[0].startswith("lookup") and \
                lit.a[1].tag == "attr" and lit.a[1].a[1] == "literals":
            enum = lit.a[1].a[0]
            if enum is self.typ:
                self.held["literals are of the type of the component"] = 1
                return
            self.need(ip, st, node,
                      "literals are of the type of the component",
                      "a literal of another enumeration is accepted", SAME,
                      a=enum, b=self.typ)

    def g_Record_Reference(self, ip, st, obj, args, node):
        visible(self, ip, st, args.get("package"), node)

    def causes(self):
        def bound(ip, st):
            lens = lambda k: k.tag == "op" and k.a[0] == "lt" and any(
                x.tag == "op" and x.a[0] == "len" for x in subterms(k)) and \
                any(x.tag == "attr" and x.a[1] in (
                    "lower_bound", "upper_bound") for x in subterms(k))
            for k in st.truth:
                if lens(k):
                    n = [x for x in subterms(k) if x.tag == "op" and
                         x.a[0] == "len"][0].a[1]
                    for src in (ENOUGH, NOT_TOO_MANY):
                        yes, no = self.evaluate(ip, st, src, self.anynode,
                                                typ=self.typ, items=n)
                        if no and not yes:
                            return True
            return False

        def enum(ip, st):
            for k in list(st.truth) + list(st.neq):
                if any(x is self.typ for x in subterms(k)):
                    for x in subterms(k):
                        if x.tag == "sym" and \
                                "qualified_name" in str(x.a[0]):
                            y, n = self.evaluate(ip, st, SAME, self.anynode,
                                                 a=x, b=self.typ)
                            if n and not y:
                                return True
            return False
        return [("bounds", bound), ("enumeration", enum),
                ("visible", lambda ip, st: self.false(
                    st, is_op("is_visible")))]


def visible(cl, ip, st, package, node, cu=None):
    if package is None:
        return
    p = ip.norm(st, package)
    if p.tag == "attr" and p.a[1] == "package":
        cl.held["the own package is visible"] = 1
        return
    me = cl.SELF
    if cl.top.startswith("Markup"):
        me = ip.norm(st, mk("attr", me, "parent", 0))
    cu = ip.norm(st, mk("attr", me, "cu", 0))
    cl.need(ip, st, node, "packages used are visible",
            "a package is used without being imported", VISIBLE, cu=cu,
            package=p, about=p)


# --------------------------------------------------------------------------
# names
# --------------------------------------------------------------------------
class NameClient(GuardClient):
    """qualified names: visibility and kind"""
    required = None

    def at_return(self, ip, st, o, fi):
        val = ip.norm(st, o.val)
        if val.tag != "op" or val.a[0] not in ("lookup", "lookup_direct"):
            return
        recv = val.a[1]
        if recv.tag == "attr" and recv.a[1] == "symbols":
            p = recv.a[0]
            if p.tag == "attr" and p.a[1] == "package":
                return
            cu = ip.norm(st, mk("attr", self.SELF, "cu", 0))
            self.need(ip, st, fi.node, "packages used are visible",
                      "a package is used without being imported", VISIBLE,
                      loc=oloc(o, fi), cu=cu, package=p, about=p)
        got = {x[2] for x in xget(st, "marks")
               if x[0] == "kind" and x[1] is val}
        if self.required is not None:
            rule = "the entity is of the required kind"
            if ts_get(st.ts, "rej"):
                pass
            elif got == {self.required} or \
                    got == {ip.norm(st, self.required)}:
                self.held[rule] = self.held.get(rule, 0) + 1
            else:
                self.broken.setdefault(rule, (
                    oloc(o, fi), "the kind of entity which is required is "
                    "not demanded"))

    def lookup(self, ip, st, recv, args, kw, node):
        d = dict(kw or {})
        cls = d.get("required_subclass")
        if not d and len(args) > 2:
            cls = args[2]
        tok = d.get("referencing_token") or d.get("name") or (
            args[1] if len(args) > 1 else None)
        if tok is None:
            return
        t = op("lookup", ip.norm(st, recv), ip.norm(st, tok))
        c = ip.norm(st, cls) if cls is not None else NONE
        ms = tuple(x for x in xget(st, "marks")
                   if not (x[0] == "kind" and x[1] is t))
        return xset(st, marks=ms + (("kind", t, c),))

    def causes(self):
        return [("visible", lambda ip, st: self.false(
            st, is_op("is_visible")))]


class RefClient(GuardClient):
    def g_Record_Reference(self, ip, st, obj, args, node):
        visible(self, ip, st, args.get("package"), node)

    def causes(self):
        return [("visible", lambda ip, st: self.false(
            st, is_op("is_visible")))]


# --------------------------------------------------------------------------
# declarations
# --------------------------------------------------------------------------
OPEN = """
def spec(record):
    return not record.is_final
"""


class RecordClient(GuardClient):
    def g_Record_Type(self, ip, st, obj, args, node):
        self.record = obj
        p = ip.norm(st, args.get("n_parent") or NONE)
        self.final = FALSE if p is NONE else mk("attr", p, "is_final", 0)
        return st.set_attr(obj, "is_final", self.final)

    record = None
    final = None

    def s_register(self, ip, st, recv, a, node):
        r = ip.norm(st, recv)
        if r.tag == "attr" and r.a[1] == "components":
            self.need(ip, st, node, "final types have no new components",
                      "a final type gets a new component", OPEN,
                      record=r.a[0])
        return st

    def freeze(self, ip, st, base, args, node):
        key = ip.norm(st, args[0])
        if key.tag == "attr" and key.a[1] == "name":
            self.need(ip, st, node, "components are frozen once",
                      "a component which is already frozen is frozen again",
                      NOT_FROZEN, typ=base.a[0], comp=key.a[0])
        return super().freeze(ip, st, base, args, node)

    def causes(self):
        def final(ip, st):
            if self.record is None:
                return False
            y, n = self.evaluate(ip, st, OPEN, self.anynode,
                                 record=self.record)
            return n and not y
        return [("final", final),
                ("frozen", lambda ip, st: self.true(
                    st, is_op("is_frozen")))]


class EnumClient(GuardClient):
    def s_register(self, ip, st, recv, a, node):
        r = ip.norm(st, recv)
        if r.tag == "attr" and r.a[1] == "literals":
            return self.mark(st, "literal")
        return st

    def at_return(self, ip, st, o, fi):
        self.need_fact(ip, st, fi.node, "enumerations are not empty",
                       "an enumeration without literals is accepted",
                       self.marked(st, "literal"), loc=oloc(o, fi))

    def causes(self):
        return [("empty", lambda ip, st: not self.marked(st, "literal"))]


FLAT = """
def spec(comp):
    return not (isinstance(comp.n_typ, Tuple_Type) and
                comp.n_typ.has_separators())
"""


class TupleClient(GuardClient):
    pinned = 2
    own_only = True
    attributes = ("optional",)

    def shift(self, ip, st, x, node, multi=None):
        old = ts_get(st.ts, "rej")
        st = super().shift(ip, st, x, node, multi)
        if not old and x == ("t", ("KEYWORD", "separator")):
            st = self.mark(st, "separator")
        return st

    def nonterminal(self, ip, st, fi, prod, args, node):
        if fi.name != "parse_tuple_field":
            return super().nonterminal(ip, st, fi, prod, args, node)
        rej = ts_get(st.ts, "rej")
        if not rej:
            for p, want, text in (
                    ("optional_allowed", self.marked(st, "separator"),
                     "optional components"),
                    ("optional_required", self.marked(st, "optional"),
                     "mandatory components")):
                if p not in args:
                    self.unsure.setdefault("optional", "no parameter " + p)
                    continue
                t, f = ip.split(st, args[p])
                rule = p.replace("_", " ") + " as the rule says"
                if want:
                    text = text + " are %s although they are %s" % (
                        ("rejected", "permitted") if p == "optional_allowed"
                        else ("accepted", "forbidden"))
                else:
                    text = text + " are %s although they are %s" % (
                        ("accepted", "forbidden") if p == "optional_allowed"
                        else ("rejected", "permitted"))
                self.decide(ip, st, rule, text, [st], f if want else t,
                            ip.frame.fi.loc(node))
        rv = []
        for k, s, v in super().nonterminal(ip, st, fi, prod, args, node):
            if k != "ret" or ts_get(s.ts, "rej"):
                rv.append((k, s, v))
                continue
            can = self.marked(s, "separator")
            must = self.marked(s, "optional")
            if can:
                rv.append((k, self.mark(s.set_attr(v, "optional", TRUE),
                                        "optional"), v))
            if not must:
                rv.append((k, s.set_attr(v, "optional", FALSE), v))
        return rv

    def at_return(self, ip, st, o, fi):
        if not self.marked(st, "separator"):
            return
        rule = "tuples with separators are not nested"
        text = "a tuple with separators may contain another one"
        if self.queried(rule, oloc(o, fi), text):
            for c in self.comps:
                self.need(ip, st, fi.node, rule, text, FLAT,
                          loc=oloc(o, fi), comp=c)

    def causes(self):
        def nested(ip, st):
            for c in self.comps:
                y, n = self.evaluate(ip, st, FLAT, self.anynode, comp=c)
                if n and not y:
                    return True
            return False
        return [("nested", nested)]


class UnionGuard(GuardClient):
    counted = ("parse_union_type",)
    max_heads = 12
    limit = 3
    pinned = 0

    def nonterminal(self, ip, st, fi, prod, args, node):
        if xget(st, "n") >= self.limit:
            return []
        return super().nonterminal(ip, st, fi, prod, args, node)

    def members(self, st):
        n = xget(st, "n")
        rv = {}
        for fld in (st.types,):
            for k in fld:
                if k.tag == "sym" and k.a[0].startswith("res:qualified"):
                    rv[int(k.a[0].split(":")[4].split(".")[0])] = k
        return [rv.get(i) for i in range(n)]

    def result(self, ip, st, fi, prod, args, node):
        st, v = super().result(ip, st, fi, prod, args, node)
        return st._upd("types", v, ip.m.subclasses("Record_Type")), v

    DIFFERENT = "def spec(a, b):\n    return a.fully_qualified_name() != " \
        "b.fully_qualified_name()\n"
    DISTINCT = "def spec(a, b):\n    return a != b\n"

    def differs(self, ip, st, a, b):
        """True / False / None"""
        r = set()
        for src in (self.DIFFERENT, self.DISTINCT):
            y, n = self.evaluate(ip, st, src, self.anynode, a=a, b=b)
            r.add(True if not n else False if not y else None)
        return True if True in r else False if False in r else None

    def at_return(self, ip, st, o, fi):
        ms = self.members(st)
        for i, a in enumerate(ms):
            for b in ms[i + 1:]:
                if a is None or b is None:
                    self.unsure.setdefault("members", "unknown member")
                    continue
                self.need_fact(ip, st, fi.node, "union members are distinct",
                               "a type may occur twice in a union",
                               self.differs(ip, st, a, b) is True,
                               loc=oloc(o, fi))

    def causes(self):
        def twice(ip, st):
            ms = [x for x in self.members(st) if x is not None]
            return any(self.differs(ip, st, a, b) is False
                       for i, a in enumerate(ms) for b in ms[i + 1:])
        return [("twice", twice)]


BOOL = """
def spec(e):
    return isinstance(e.typ, Builtin_Boolean)
"""
ONE_LINE = """
def spec(t):
    return "\\n" not in t.value
"""


class CheckClient(GuardClient):
    def g_Check(self, ip, st, obj, args, node):
        self.need(ip, st, node, "checks are Boolean",
                  "a check which is not Boolean is accepted", BOOL,
                  e=args["n_expr"])
        self.need(ip, st, node, "check messages are one line",
                  "a check message with a newline is accepted", ONE_LINE,
                  t=args["t_message"])

    def g_Check_Block(self, ip, st, obj, args, node):
        pass

    def lookup(self, ip, st, recv, args, kw, node):
        r = ip.norm(st, recv)
        if r.tag != "attr" or r.a[1] != "symbols":
            return
        cls = (kw or {}).get("required_subclass")
        if not kw and len(args) > 2:
            cls = args[2]
        c = ip.norm(st, cls) if cls is not None else NONE
        rule = "checks are for composite types"
        if c.tag == "class" and c.a[0] == "Composite_Type":
            self.held[rule] = self.held.get(rule, 0) + 1
        elif c is NONE or c.tag == "class":
            self.broken.setdefault(rule, (
                ip.frame.fi.loc(node), "checks are accepted for %s instead "
                "of composite types" % (c.a[0] if c.tag == "class" else
                                        "anything")))

    def causes(self):
        m = self.model
        return [("boolean", lambda ip, st: self.not_type(
            st, is_attr("typ"), ["Builtin_Boolean"], m)),
            ("newline", lambda ip, st: self.true(
                st, lambda k: k.tag == "op" and k.a[0] == "in" and
                k.a[1] is const("\n")))]


#: parsing function -> class the qualified name has to denote
KINDS = {"parse_tuple_field": "Type", "parse_union_type": "Record_Type",
         "parse_record_component": "Type",
         "parse_record_declaration": "Record_Type",
         "parse_record_object_declaration": "Record_Type"}


class KindClient(GuardClient):
    def result(self, ip, st, fi, prod, args, node):
        want = KINDS.get(self.top.split(".")[-1])
        if prod == "qualified_name" and want and \
                not ts_get(st.ts, "rej"):
            c = args.get("required_subclass")
            c = ip.norm(st, c) if c is not None else NONE
            rule = "names are of the required kind"
            if c.tag == "class" and c.a[0] == want:
                self.held[rule] = self.held.get(rule, 0) + 1
            elif c is NONE or c.tag == "class":
                self.broken.setdefault(rule, (
                    ip.frame.fi.loc(node), "%s is accepted where a %s is "
                    "required" % (c.a[0] if c.tag == "class" else "anything",
                                  want)))
            else:
                self.unsure.setdefault(rule, show(c))
        return super().result(ip, st, fi, prod, args, node)

    def on_emit(self, ip, st, kind, fatal, args, node):
        return TreeClient.on_emit(self, ip, st, kind, fatal, args, node)


# --------------------------------------------------------------------------
# expressions
# --------------------------------------------------------------------------
class ExprClient(GuardClient):
    attributes = ("n_expr",)

    def typed(self, ip, st, v, names, rule, text, node):
        v = ip.norm(st, v)
        tt = ip.types_of(st, v)
        want = set()
        for n in names:
            want |= set(ip.m.subclasses(n))
        self.need_fact(ip, st, node, rule, text,
                       tt is not None and tt <= want)

    def g_Name_Reference(self, ip, st, obj, args, node):
        e = ip.norm(st, args["entity"])
        if self.top.endswith("parse_name"):
            self.typed(ip, st, e, ("Composite_Component",
                                   "Quantified_Variable"),
                       "names denote components or variables",
                       "a name which is neither a component nor a variable "
                       "is accepted", node)

    def g_Field_Access_Expression(self, ip, st, obj, args, node):
        p = ip.norm(st, args["n_prefix"])
        self.typed(ip, st, mk("attr", p, "typ", 0),
                   ("Tuple_Type", "Record_Type", "Union_Type"),
                   "fields are accessed in tuples, records and unions",
                   "a field of something else is accepted", node)

    def g_Binary_Expression(self, ip, st, obj, args, node):
        o = args.get("operator")
        if o is not None and o.tag == "enum" and o.a[1] == "INDEX":
            p = ip.norm(st, args["n_lhs"])
            self.typed(ip, st, mk("attr", p, "typ", 0), ("Array_Type",),
                       "only arrays are indexed",
                       "something other than an array is indexed", node)

    def g_Quantified_Variable(self, ip, st, obj, args, node):
        t = ip.norm(st, args["n_typ"])
        if t.tag == "attr" and t.a[1] == "element_type":
            self.typed(ip, st, t.a[0], ("Array_Type",),
                       "quantifiers range over arrays",
                       "a quantifier over something else is accepted", node)
        n = ip.norm(st, args["name"])
        self.need_fact(ip, st, node, "variables do not shadow",
                       "a variable may shadow a visible name",
                       self.false(st, lambda k: k.tag == "op" and
                                  k.a[0] == "contains" and
                                  k.a[1] is self.scope and k.a[2] is n))

    def g_Action(self, ip, st, obj, args, node):
        if args.get("n_expression") is not None:
            self.alive = set(self.alive) | {
                ip.norm(st, args["n_expression"])}

    def g_Conditional_Expression(self, ip, st, obj, args, node):
        a = ip.norm(st, args["if_action"])
        e = st.heap.get((a, "n_expr"))
        if e is None:
            self.unsure.setdefault("branches", "unknown action")
            return
        t = ip.norm(st, mk("attr", ip.norm(st, e), "typ", 0))
        tt = ip.types_of(st, t)
        self.need_fact(ip, st, node, "branches are not null",
                       "a literal null branch is accepted",
                       NONE in (st.neq.get(t) or ()) or
                       tt is not None and "NoneType" not in tt or
                       st.truth.get(t) is True)

    def causes(self):
        m = self.model

        def typ_of_operand(k):
            return k.tag == "attr" and k.a[1] == "typ"

        def entity(k):
            return k.tag in ("op", "sym", "attr")
        STR = ["Builtin_String", "Array_Type"]
        return [
            ("membership", lambda ip, st: self.top.endswith("relation") and
             self.not_type(st, typ_of_operand, STR, m)),
            ("null", lambda ip, st: self.top.endswith(
                "conditional_expression") and any(
                v is NONE and is_attr("typ")(k)
                for k, v in st.eq.items())),
            ("function", lambda ip, st: self.top.endswith("name") and
             self.not_type(st, is_op("lookup"), [
                 "Builtin_Function", "Builtin_Numeric_Type"], m)),
            ("prefix", lambda ip, st: self.top.endswith("name") and
             (self.not_type(st, typ_of_operand, ["Array_Type"], m) or
              self.not_type(st, typ_of_operand, [
                  "Tuple_Type", "Record_Type", "Union_Type"], m))),
            ("union", lambda ip, st: self.top.endswith("name") and (
                self.false(st, lambda k: k.tag == "op" and
                           k.a[0] == "in") or any(
                    v is NONE and "n_typ" in show(k)
                    for k, v in st.eq.items()))),
            ("shadow", lambda ip, st: self.true(st, is_op("contains"))),
            ("array", lambda ip, st: self.top.endswith(
                "quantified_expression") and self.not_type(
                st, is_attr("n_typ"), ["Array_Type"], m)),
            ("exponent", lambda ip, st: self.top.endswith("factor") and
             self.true(st, negative)),
            ("pattern", lambda ip, st: any(
                m[0][0] == "invalid" for m in xget(st, "marks"))),
            ("arity", lambda ip, st: self.top.endswith("builtin") and not any(
                m[0][0] == "pattern" for m in xget(st, "marks")))]


def static(v):
    """the expression whose static value this is"""
    if v.tag == "attr" and v.a[1] == "value" and v.a[0].tag == "call" and \
            v.a[0].a[0].split(".")[-1] == "evaluate":
        return v.a[0].a[1][0]
    return None


def slot(v):
    """the position in a list, or the value itself"""
    if v.tag == "op" and v.a[0] in ("index", "item") and len(v.a) > 2 or \
            v.tag in ("index", "item"):
        a = v.a[1:] if v.tag == "op" else v.a
        i = a[1].a[1] if isinstance(a[1], V) and a[1].tag == "const" \
            else a[1]
        return a[0], i
    return None, v


def negative(k):
    return k.tag == "op" and k.a[0] == "lt" and \
        static(k.a[1]) is not None and k.a[2] is const(0)


class StaticClient(ExprClient):
    """what has to be known when the check is read"""

    def on_ext(self, ip, st, name, recv, args, kw, node):
        if name == "re.compile" and args:
            v = ip.norm(st, args[0])
            bad = self.mark(st, ("invalid", v))
            return [("ret", self.mark(st, ("pattern", v)),
                     op("re.compile", v)),
                    ("raise", bad, mk("obj", "error", ("ext", 0, 0))),
                    ("raise", bad, mk("obj", "OverflowError",
                                      ("ext", 0, 0)))]
        return super().on_ext(ip, st, name, recv, args, kw, node)

    def g_Binary_Expression(self, ip, st, obj, args, node):
        o = args.get("operator")
        if o is not None and o.tag == "enum" and o.a[1] in (
                "POWER", "STRING_REGEX"):
            st = self.mark(st, (o.a[1], ip.norm(st, args["n_rhs"])))
        return st

    def at_return(self, ip, st, o, fi):
        marks = [m[0] for m in xget(st, "marks")]
        for what, rhs in marks:
            if what == "POWER":
                good = self.false(st, lambda k: negative(k) and
                                  static(k.a[1]) is rhs)
                self.need_at(ip, st, fi, "exponents are not negative",
                             "a negative exponent is accepted", good)
            if what == "STRING_REGEX":
                seen = [static(v) for a, v in marks if a == "pattern"]
                good = any(x is not None and slot(x) == slot(rhs)
                           for x in seen) and not any(
                               a == "invalid" for a, v in marks)
                if not good and any(x is not None and slot(x)[0] is None
                                    and slot(x) != slot(rhs) for x in seen):
                    self.unsure.setdefault("patterns are valid",
                                           "another expression")
                    continue
                self.need_at(ip, st, fi, "patterns are valid",
                             "an invalid pattern is accepted", good)

    def odd(self, st, about=None):
        """comparisons of a static value with a number are understood"""
        def plain(a):
            return a.tag == "op" and a.a[0] in ("lt", "eq") and all(
                x.tag == "const" or static(x) is not None
                for x in a.a[1:] if isinstance(x, V)) or \
                a.tag == "attr" and static(mk("attr", a.a[0], "value", 0)) \
                is not None
        return [a for a in super().odd(st, about) if not plain(a)]

    def need_at(self, ip, st, fi, rule, text, good):
        self.decide(ip, st, rule, text, [st], [] if good else [st],
                    fi.loc())


# --------------------------------------------------------------------------
def guard(ctx, rule, qual, prod, factory, **kw):
    made = []

    def client(*a):
        c = factory(*a)
        c.model = ctx.m
        c.anynode = ctx.func(qual).node
        made.append(c)
        return c
    r = gr.analyse(ctx, rule, qual, prod, client=client, **kw)
    if r is None:
        return
    c = made[-1]
    name = kw.get("label") or qual.split(".")[-1]
    for what, (loc, text) in sorted(c.broken.items()):
        ctx.violation(rule, "%s:%s" % (name, what), loc, "in %s: %s" % (
            name, text))
    for what, why in sorted(c.unsure.items()):
        if what not in c.broken:
            ctx.undecided(rule, "%s: %s" % (name, what), why)
    for what, n in sorted(c.held.items()):
        if what not in c.broken and what not in c.unsure:
            ctx.ok(rule, "%s: %s" % (name, what))
            ctx.count("rule evaluations", n)


def objects(ctx):
    guard(ctx, "object", "Parser.parse_record_object_declaration",
          "record_object", ObjectClient)
    for prod, t in (("value_array", "Array_Type"),
                    ("value_enum", "Enumeration_Type")):
        guard(ctx, "object", "Parser.parse_value", prod, ValueGuard,
              types={"typ": [t]}, label="parse_value(%s)" % t)


def visibility(ctx):
    for t in ("Record_Type", "Union_Type"):
        guard(ctx, "visible", "Parser.parse_value", "value_ref", ValueGuard,
              types={"typ": [t]}, label="parse_value(%s)" % t)
    for mi in (TRUE, FALSE):
        def client(*a):
            c = NameClient(*a)
            c.required = sym("required")
            return c
        guard(ctx, "visible", "Parser.parse_qualified_name",
              "qualified_name" if mi is TRUE else "qualified_rest",
              client, args={"match_ident": mi,
                            "required_subclass": sym("required")},
              label="parse_qualified_name(%s)" % mi.a[1])
    guard(ctx, "visible", "Markup_Parser.parse_qualified_name", "ref",
          RefClient, label="Markup_Parser.parse_qualified_name")


def declarations(ctx):
    for q, prod, f in (
            ("parse_record_declaration", "record_declaration", RecordClient),
            ("parse_enum_declaration", "enumeration_declaration",
             EnumClient),
            ("parse_tuple_declaration", "tuple_declaration", TupleClient),
            ("parse_union_type", "union_type", UnionGuard),
            ("parse_check_block", "check_block", CheckClient)):
        guard(ctx, "declaration", "Parser." + q, prod, f)
    for q in sorted(KINDS):
        prod = gr.NT["Parser." + q]
        kw = {}
        if q == "parse_tuple_field":
            kw = {"args": {"optional_allowed": TRUE,
                           "optional_required": FALSE}}
        guard(ctx, "kind", "Parser." + q, prod, KindClient, **kw)


def expressions(ctx):
    for q in ("parse_relation", "parse_quantified_expression",
              "parse_conditional_expression", "parse_name",
              "parse_factor"):
        guard(ctx, "expression", "Parser." + q, gr.NT["Parser." + q],
              StaticClient)
    n = sym("arg:n_name")
    guard(ctx, "expression", "Parser.parse_builtin", "parameters",
          StaticClient, types={"n_name": ["Builtin_Function"]},
          attrs=[(n, "name", const("matches")), (n, "arity", const(2)),
                 (n, "arity_at_least", const(False))],
          label="parse_builtin(matches)")
