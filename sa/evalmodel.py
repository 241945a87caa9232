"""Abstract runs of the `evaluate` methods of the expression classes.

Children are symbolic expression nodes; their `evaluate` is replaced by a
hook that returns a Value object whose `.value` is an abstract operand
(pinned type, possibly pinned to null / a boolean) and records an `eval`
event with the receiver and the arguments it was given.
"""
from .base import *            # noqa
from .norm import Norm         # noqa

EXPR_ATOMS = {"n_operand": "X", "n_lhs": "L", "n_rhs": "R",
              "n_lower": "LO", "n_upper": "HI", "n_prefix": "P"}


class EvalClient(TrlcClient):
    inline_depth = 9

    def __init__(self, m):
        self.m = m
        self.children = {}        # V (child expr) -> callable(st, ctx)->list
        self.exprset = m.subclasses("Expression")

    # ---- hooks
    def call_hook(self, ip, st, fi, self_v, args, node):
        if fi.name == "evaluate" and self_v in self.children:
            a = [args.get(p) for p in fi.params[1:]]
            return self.child(ip, st, self_v, a, node)
        if fi.name == "__init__" and fi.cls is not None and \
                fi.cls.name == "Value":
            st = st.copy()
            h = dict(st.heap)
            for k in ("location", "value", "typ"):
                if k in args:
                    h[(self_v, k)] = args[k]
            st.heap = h
            return [("ret", st, NONE)]
        if fi.name in ("to_string", "cross_file_reference"):
            return [("ret", st, op("fmt"))]
        return None

    def on_virtual(self, ip, st, name, cands, self_v, args, kw, node):
        if name == "evaluate":
            if self_v in self.children:
                ps = cands[0].params[1:]
                a = list(args)
                for p in ps[len(a):]:
                    a.append(kw.get(p))
                return self.child(ip, st, self_v, a, node)
            v = mk("obj", "Value", ("ev", self_v))
            st = st.event("eval", self_v, tuple(args) + tuple(
                kw.get(k) for k in ("mh", "context", "gstab") if k in kw),
                node)
            return [("ret", st, v)]
        if name == "to_string":
            return [("ret", st, op("fmt"))]
        return None

    def child(self, ip, st, self_v, a, node):
        st = st.event("eval", self_v, tuple(a), node)
        return self.children[self_v](ip, st, a)

    def on_ext(self, ip, st, name, recv, args, kw, node):
        if name == ".count" and len(args) == 1:
            items = ip.closed_items(st, recv)
            if items is not None:
                n = 0
                for x in items:
                    x = ip.norm(st, x)
                    if x is ip.norm(st, args[0]):
                        n += 1
                    elif not (x.tag == "const" and
                              ip.norm(st, args[0]).tag == "const"):
                        return None
                return [("ret", st, const(n))]
        if name == "sum" and len(args) == 1:
            items = ip.closed_items(st, args[0])
            if items is not None:
                n = 0
                for x in items:
                    x = ip.norm(st, x)
                    if x.tag != "const" or x.a[0] not in ("bool", "int"):
                        return None
                    n += int(x.a[1])
                return [("ret", st, const(n))]
        return None


def value_obj(st, tag, val, types=None, pin=None, typ=None):
    """a Value object for operand `tag`"""
    v = mk("obj", "Value", ("child", tag))
    st = st.copy()
    h = dict(st.heap)
    h[(v, "value")] = val
    h[(v, "location")] = sym(tag + ".loc")
    h[(v, "typ")] = typ if typ is not None else sym(tag + ".typ")
    st.heap = h
    return st, v


class Run:
    """one abstract execution of Cls.evaluate"""

    def __init__(self, m, clsname, operator=None, types=None, pins=None,
                 context="dict", client=None):
        self.m = m
        self.clsname = clsname
        self.cl = client or EvalClient(m)
        self.ip = Interp(m, self.cl)
        self.types = types or {}
        self.pins = pins or {}
        ci = m.classes[clsname]
        self.fi = ci.lookup("evaluate")
        st = State()
        s = self.self_v = sym("self")
        st = st._upd("types", s, frozenset([clsname]))
        if operator is not None:
            st = st.set_attr(s, "operator", operator)
        self.mh = sym("mh")
        st = st._upd("types", self.mh, frozenset(["Message_Handler"]))
        self.gstab = sym("gstab")
        if context == "dict":
            self.ctx = sym("context")
            st = st._upd("types", self.ctx, frozenset(["dict"]))
            st = st._upd("types", self.gstab, frozenset(["Symbol_Table"]))
        elif context is None:
            self.ctx = NONE
            self.gstab = NONE
        self.st = st

    def operand(self, attr, atom=None, base=None):
        """declare child expression `attr` of self"""
        atom = atom or EXPR_ATOMS.get(attr, attr)
        e = sym("expr:" + atom)
        st = self.st
        st = st._upd("types", e, self.cl.exprset)
        st = st.set_attr(base or self.self_v, attr, e)
        # static type of the sub-expression is not null (grammar)
        self.st = st
        self.bind(e, atom)
        return e

    def bind(self, e, atom):
        x = sym(atom)
        types = self.types.get(atom)
        pin = self.pins.get(atom)
        if types is not None and pin is None:
            self.st = self.st._upd("types", x, frozenset(types))
        if pin is not None:
            self.st = self.st._upd("eq", x, pin)
        lt = sym(atom + ".loc")
        self.st = self.st._upd("types", lt,
                               self.m.subclasses("Location"))
        if types is not None and types and "NoneType" not in types and \
                pin is not NONE:
            ty = sym(atom + ".typ")
            if set(types) == {"list"}:
                self.st = self.st._upd("types", ty,
                                       frozenset(["Array_Type"]))
            else:
                self.st = self.st._upd("types", ty,
                                       self.m.subclasses("Type"))

        def hook(ip, st, a):
            st, v = value_obj(st, atom, x,
                              typ=NONE if pin is NONE else None)
            return [("ret", st, v)]

        self.cl.children[e] = hook

    def go(self):
        p = self.fi.params
        args = {p[0]: self.self_v}
        for n, v in zip(p[1:], (self.mh, self.ctx, self.gstab)):
            args[n] = v
        self.outs = self.ip.run(self.fi, args, self.st)
        return self.outs

    # ---- observations
    def result(self, o):
        """value term of a returned Value, or None when it is no Value"""
        v = o.val
        if v is None:
            return None
        r = o.st.heap.get((v, "value"))
        if r is None:
            return None
        return self.ip.norm(o.st, r)

    def result_typ(self, o):
        r = o.st.heap.get((o.val, "typ"))
        return self.ip.norm(o.st, r) if r is not None else None

    def evals(self, o):
        return [e for e in o.st.events() if e[0] == "eval"]

    def emits(self, o, kind=None):
        return [e for e in o.st.events() if e[0] == "emit" and
                (kind is None or e[1] == kind)]


def is_fatal_error(run, o):
    """outcome = a reported error that aborts the evaluation"""
    return o.kind == "raise" and o.val is not None and \
        o.val.tag == "obj" and o.val.a[0] == "TRLC_Error" and \
        any(e[1] == "error" for e in run.emits(o))


def describe(o):
    if o.kind == "return":
        return "returns a value"
    if o.kind == "ice":
        return "fails an assertion at line %d" % (
            o.node.lineno if o.node is not None else 0)
    if o.kind == "exit":
        return "exits the process"
    if o.kind == "raise":
        return "raises %s" % (o.val,)
    return o.kind
