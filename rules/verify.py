"""C23: the conditions which --verify proves follow the language.

The functions of the verification condition generator build a graph.  They
are interpreted abstractly, the graph is kept as events, and the set of
paths through it (what is assumed, declared and to be shown, in order) is
compared with that of a reference.
"""
import ast
import itertools
import re
from sa.base import *          # noqa
from sa import equiv as E
from sa.absint import Undecided, Interp, State, const
from rules.core import attrs, closed, S, ME
from rules import nodes, lint

START, PREAMBLE = S("$start"), S("$preamble")
COUNT = S("$count")
SMT = "pyvcg.smt."
#: the operations of the solver which the references use
with open(__file__, encoding="UTF-8") as fd:
    WORDS = set(re.findall(r"\b(?:smt|graph|vcg)\.(\w+)", fd.read()))


def fresh(st, kind):
    n = st.heap.get((COUNT, kind), const(0)).a[1] + 1
    return st.set_attr(COUNT, kind, const(n)), S("$%s%d" % (kind, n))


#: names of arguments which may be given by keyword
SIGNATURE = {"Constant_Declaration": ("symbol", "value", "comment",
                                      "relevant")}
IGNORED = {"comment"}
DECLARATIONS = {"Enumeration_Declaration": 1, "Record_Declaration": 1,
                "Function_Declaration": 1, "Assertion": 1}
FLIP = {">": "<", ">=": "<="}


def fold(ip, st, v, depth=0):
    """structure of a formula, up to its presentation"""
    v = ip.norm(st, v)
    if depth > 40:
        raise Undecided("a formula which nests too deeply")
    if v.tag == "op" and str(v.a[0]).startswith(SMT):
        name = v.a[0][len(SMT):]
        args, kw = [], {}
        for x in v.a[1:]:
            if isinstance(x, V) and x.tag == "op" and x.a[0] == "kw":
                kw[x.a[1]] = x.a[2]
            elif isinstance(x, V):
                args.append(x)
        if name in SIGNATURE:
            kw.update(zip(SIGNATURE[name], args))
            return ("smt", name) + tuple(
                (k, fold(ip, st, x, depth + 1)) for k, x in
                sorted(kw.items()) if k not in IGNORED and
                not (x is NONE or x is FALSE))
        if name in DECLARATIONS:
            args = args[:DECLARATIONS[name]]
            kw.pop("comment", None)
        if name in ("Conjunction", "Disjunction") and any(
                x.tag == "star" for x in args):
            raise Undecided("an unknown number of terms")
        args = [fold(ip, st, x, depth + 1) for x in args]
        if kw:
            args += [(k, fold(ip, st, x, depth + 1))
                     for k, x in sorted(kw.items())]
        if name in ("Conjunction", "Disjunction"):
            flat = []
            for a in args:
                flat += a[2:] if isinstance(a, tuple) and \
                    a[:2] == ("smt", name) else [a]
            args = sorted(set(flat), key=repr)
            if len(args) == 1:
                return args[0]
        elif name == "Boolean_Negation" and isinstance(args[0], tuple) and \
                args[0][:2] == ("smt", "Boolean_Negation"):
            return args[0][2]
        elif name == "Comparison" and len(args) == 3 and isinstance(
                args[0], V) and is_const(args[0]):
            o = args[0].a[1]
            if o in FLIP:
                args = [const(FLIP[o]), args[2], args[1]]
            elif o == "=":
                args[1:] = sorted(args[1:], key=repr)
        return ("smt", name) + tuple(args)
    if v.tag == "obj" and v.a[0] == "Feedback":
        return ("feedback",) + tuple(
            (k, fold(ip, st, st.heap[(v, k)], depth + 1))
            for k in ("node", "kind", "expect_unsat")
            if (v, k) in st.heap)
    if v.tag == "obj":
        items = ip.closed_items(st, v) if v.a[0] in ("list", "set") else None
        if items is not None:
            return (v.a[0],) + tuple(fold(ip, st, x, depth + 1)
                                     for x in items)
        h = st.heap.get((v, "$items"))
        if v.a[0] == "dict" and h is not None and (
                v, "$open") not in st.heap:
            return ("dict",) + tuple(fold(ip, st, x, depth + 1)
                                     for x in h.a)
        return E.canon(ip, st, v)
    if v.tag in ("op", "attr", "tuple", "call"):
        def inner(x):
            if isinstance(x, V):
                return fold(ip, st, x, depth + 1)
            if isinstance(x, tuple):
                return tuple(inner(y) for y in x)
            return x
        if any(x.tag == "obj" or (x.tag == "sym" and str(x.a[0])[:1] == "$")
               or (x.tag == "op" and str(x.a[0]).startswith(SMT))
               for x in subterms(v)):
            return (v.tag,) + tuple(inner(x) for x in v.a)
    return v


def renamed(x, seen):
    """new names in order of their appearance"""
    if isinstance(x, V):
        if x.tag == "sym" and str(x.a[0])[:4] == "$tmp":
            return ("new name", seen.setdefault(x, len(seen) + 1))
        return x
    if isinstance(x, tuple):
        return tuple(renamed(y, seen) for y in x)
    return x


class Graph(E.EqClient):
    kinds = {}
    known = None

    def on_ext(self, ip, st, name, recv, args, kw, node):
        if name.startswith("pyvcg.graph."):
            st, n = fresh(st, "node")
            return [("ret", st, n)]
        if name == ".add_edge_to" and len(args) == 1:
            return [("ret", self.log(st, "edge", recv, ip.norm(
                st, args[0])), NONE)]
        if name == ".add_statement" and len(args) == 1:
            return [("ret", self.log(st, "item", recv, fold(
                ip, st, args[0])), NONE)]
        if name == ".add_goal":
            a = dict(zip(("expression", "feedback", "comment"), args))
            a.update(kw)
            return [("ret", self.log(
                st, "item", recv, ("goal", fold(ip, st, a["expression"]),
                                   fold(ip, st, a.get("feedback", NONE)))),
                NONE)]
        if name in (".add_component", ".add_literal") and recv is not None:
            return [("ret", self.log(st, "define", fold(ip, st, recv), name,
                                     *[fold(ip, st, x) for x in args]),
                     NONE)]
        if name == ".generate" and not args:
            return [("ret", self.log(st, "conditions are built"), NONE)]
        if name in (".is_static_true", ".is_static_false") and not args:
            v = ip.norm(st, recv)
            if v.tag == "op" and v.a[0] == SMT + "Boolean_Literal" and \
                    is_const(v.a[1]):
                return [("ret", st, const((name == ".is_static_true") ==
                                          bool(v.a[1].a[1])))]
            if v.tag == "op" and str(v.a[0]).startswith(SMT):
                return [("ret", st, FALSE)]
        return E.EqClient.on_ext(self, ip, st, name, recv, args, kw, node)

    def words(self, name):
        if name in ("value", "valid", ".is_static_true",
                    ".is_static_false"):
            return True
        if str(name).startswith("pyvcg."):
            return name.split(".")[-1] in WORDS
        return None

    def log(self, st, *e):
        return st.set_ts(st.ts + (e,))

    def on_write(self, ip, st, base, name, val, node):
        if base is ME and name in ("start", "tmp_id"):
            return st
        return E.EqClient.on_write(self, ip, st, base, name, val, node)

    def bindings(self, ip, st):
        rv = []
        for d in ("qe_vars", "bound_vars", "tuple_base"):
            o = st.heap.get((ME, d))
            if o is not None and st.heap.get((o, "$items")) is not None:
                for x in st.heap[(o, "$items")].a:
                    rv.append(mk("tuple", const(d), x))
        return rv

    def call_hook(self, ip, st, fi, self_v, args, node):
        if fi.name == "new_temp_name" and fi.name not in self.real:
            st, n = fresh(st, "tmp")
            return [("ret", st, n)]
        if fi.name in self.translators:
            return self.translate(ip, st, [v for k, v in args.items()
                                           if k != "self"][0])
        return E.EqClient.call_hook(self, ip, st, fi, self_v, args, node)

    translators = ("tr_expression", "tr_name_reference")
    real = ()

    def translate(self, ip, st, e):
        e = ip.norm(st, e)
        kind = self.kinds.get(e, "maybe")
        mode = ip.norm(st, st.heap.get((ME, "functional"), S("?")))
        checks = ip.norm(st, st.heap.get((ME, "emit_checks"), S("?")))
        if mode.tag != "const" or checks.tag != "const":
            raise Undecided("the mode of translation is not known")
        b = self.bindings(ip, st)
        value = op("value", e, const("in a formula" if mode.a[1] else
                                     "on a path"), *b)
        valid = op("valid", e, *b)
        if kind == "null":
            value = NONE
            valid = op(SMT + "Boolean_Literal", FALSE)
        elif kind == "sure":
            valid = op(SMT + "Boolean_Literal", TRUE)
        else:
            for n in (".is_static_true", ".is_static_false"):
                st = st._upd("truth", op(n, valid), False)
        if value is not NONE:
            st = ip.assume_eq(st, value, NONE, False)
        if not mode.a[1]:
            start = st.heap.get((ME, "start"), START)
            st, n = fresh(st, "node")
            st = self.log(st, "edge", ip.norm(st, start), n)
            st = self.log(st, "item", n, ("evaluated", fold(ip, st, e),
                                          "with checks" if checks.a[1] else
                                          "without checks") +
                          tuple(fold(ip, st, x) for x in b))
            st = st.set_attr(ME, "start", n)
        return [("ret", st, mk("tuple", value, valid))]


class Paths(E.Result):
    def __init__(self, ip, o):
        E.Result.__init__(self, ip, o)
        st = o.st
        if o.kind == "return":
            val = fold(ip, st, o.val if o.val is not None else NONE)
        else:
            val = self.val
        succ, items, rest = {}, {}, []
        for e in self.eff:
            if e[0] == "edge":
                succ.setdefault(e[1], []).append(e[2])
            elif e[0] == "item":
                items.setdefault(e[1], []).append(e[2])
            else:
                rest.append(e)
        self.items, self.succ = items, succ
        final = ip.norm(st, st.heap.get((ME, "start"), START))
        found = set()
        self.n = 0

        def walk(n, prefix):
            self.n += 1
            if self.n > 3000:
                raise Undecided("too many paths")
            for x in items.get(n, ()):
                prefix = prefix + (x,)
                if x[0] in ("goal", "evaluated"):
                    found.add(("condition",) + renamed(prefix, {}))
            if n is final:
                found.add(("end",) + renamed(prefix + (
                    ("result", val),), {}))
            for m in succ.get(n, ()):
                walk(m, prefix)
        walk(START, ())
        if PREAMBLE in items and PREAMBLE is not START:
            found.add(("declared first",) + tuple(items[PREAMBLE]))
        left = tuple(("left over", d, fold(ip, st, h)) for d in (
            "qe_vars", "bound_vars", "tuple_base") for h in [st.heap.get(
                (ME, d))] if h is not None)
        if o.kind == "return":
            self.val = None
        st0 = ip.c.st0
        self.writes = {k: v for k, v in self.writes.items()
                       if st0.heap.get(k) is not st.heap.get(k)}
        self.eff = tuple(sorted(found, key=repr)) + tuple(rest) + left

    def text(self, other=None):
        mine = [e for e in self.eff if other is None or
                e not in other.eff][:2]
        ev = [E.cshow(e) for e in mine]
        ev += ["%s.%s = %s" % (show(k[0]), k[1], E.cshow(v))
               for k, v in self.writes.items()]
        if self.kind == "raise":
            ev.append("raises %s" % (self.val,))
        elif self.kind == "ice":
            ev.append("fails an assertion")
        return "; ".join(ev) or "nothing more"


#: used by the references
HELPERS = """
def mode_is_paths(self):
    return not self.functional

def goals(self, pairs):
    node = graph.Check(self.graph)
    for goal, feedback in pairs:
        node.add_goal(goal, feedback)
    self.start.add_edge_to(node)
    self.start = node

def need(self, valid, node):
    if self.functional or not self.emit_checks:
        return
    if valid.is_static_true():
        return
    goals(self, [(valid, Feedback(node, "null", "evaluation-of-null"))])

def assume(self, statements):
    node = graph.Assumption(self.graph)
    for s in statements:
        node.add_statement(s)
    self.start.add_edge_to(node)
    self.start = node

def named(self, symbol, value):
    assume(self, [smt.Constant_Declaration(symbol=symbol, value=value)])

def result(self, value):
    if self.functional:
        return value, smt.Boolean_Literal(True)
    symbol = smt.Constant(value.sort, self.new_temp_name())
    named(self, symbol, value)
    return symbol, smt.Boolean_Literal(True)

def operand(self, node):
    value, valid = self.tr_expression(node)
    need(self, valid, node)
    return value
"""


def base(functional, checks, *more):
    def setup(ip, st):
        st = st.set_attr(ME, "functional", const(functional))
        st = st.set_attr(ME, "emit_checks", const(checks))
        st = st.set_attr(ME, "start", START)
        st = st.set_attr(ME, "preamble", PREAMBLE)
        for d in ("qe_vars", "bound_vars", "tuple_base"):
            st, o = nodes.dictionary(st, d, (), ())
            st = st.set_attr(ME, d, o)
        for m in more:
            st = m(ip, st)
        return st
    return setup


def modes(*more):
    for functional, checks in ((False, True), (False, False),
                               (True, True)):
        yield "%s%s" % ("in a formula" if functional else "on a path",
                        "" if checks else ", inherited"), \
            base(functional, checks, *more)


#: what the references speak about; where it is named differently, nothing
#: can be said
ATTRIBUTES = ("functional", "emit_checks", "start", "preamble", "qe_vars",
              "bound_vars", "tuple_base", "constants", "n_ctyp", "graph",
              "vcg", "mh")
METHODS = ("new_temp_name", "tr_expression", "tr_name_reference", "tr_type",
           "tr_check", "get_uf_matches", "tr_component_decl",
           "create_counterexample")


def vocabulary(ctx):
    ci = ctx.m.classes.get("VCG")
    if ci is None:
        return "there is no class VCG"
    known = getattr(ctx, "vcg_names", None)
    if known is None:
        known = ctx.vcg_names = {
            n.attr for f in ci.methods.values() for n in ast.walk(f.node)
            if isinstance(n, ast.Attribute) and isinstance(
                n.ctx, ast.Store) and isinstance(n.value, ast.Name) and
            n.value.id == "self"}
    for a in ATTRIBUTES:
        if a not in known:
            return "VCG has no attribute %s" % a
    for a in METHODS:
        if a not in ci.methods:
            return "VCG has no method %s" % a
    return None


def compare(ctx, rule, what, qual, source, setup, args=None, kinds=None,
            real=(), **kw):
    why = vocabulary(ctx)
    if why:
        ctx.undecided(rule, what, why)
        return
    o = dict(kinds=kinds or {}, real=real)
    groups = [list(v.a) for v in (kw.get("returns") or {}).values()
              if v.tag == "tuple"]

    def setup(ip, st, inner=setup):
        st = inner(ip, st)
        for g in groups:        # members of a list differ
            for x, y in itertools.combinations(g, 2):
                if x.tag == y.tag == "sym":
                    st = ip.assume_eq(st, x, y, False)
        return st
    o.update(kw.pop("options_", {}))
    E.equiv(ctx, rule, what, qual, HELPERS + source, setup, args,
            like="vcg", client_class=Graph, result=Paths, options=o,
            contracts=tuple(kw.pop("contracts", ())) + (
                "*.to_string", "*.tr_type"), **kw)


A = lambda b, n: mk("attr", b, n, 0)       # noqa
EXPR = S("n_expr")

UNARY = {
    ("MINUS", "Builtin_Integer"):
    'smt.Unary_Int_Arithmetic_Op("-", v)',
    ("MINUS", "Builtin_Decimal"):
    'smt.Unary_Real_Arithmetic_Op("-", v)',
    ("ABSOLUTE_VALUE", "Builtin_Integer"):
    'smt.Unary_Int_Arithmetic_Op("abs", v)',
    ("ABSOLUTE_VALUE", "Builtin_Decimal"):
    'smt.Unary_Real_Arithmetic_Op("abs", v)',
    ("PLUS", "Builtin_Integer"): "v",
    ("PLUS", "Builtin_Decimal"): "v",
    ("LOGICAL_NOT", "Builtin_Boolean"): "smt.Boolean_Negation(v)",
    ("STRING_LENGTH", "Builtin_String"): "smt.String_Length(v)",
    ("ARRAY_LENGTH", "Array_Type"): "smt.Sequence_Length(v)",
    ("CONVERSION_TO_DECIMAL", "Builtin_Decimal"): "v",
    ("CONVERSION_TO_DECIMAL", "Builtin_Integer"):
    "smt.Conversion_To_Real(v)",
    ("CONVERSION_TO_INT", "Builtin_Integer"): "v",
    ("CONVERSION_TO_INT", "Builtin_Decimal"):
    'smt.Conversion_To_Integer("rna", v)',
}


def unary(ctx):
    for (o, t), value in UNARY.items():
        for mode, setup in modes(attrs(
                (EXPR, "operator", mk("enum", "Unary_Operator", o)),
                (A(A(EXPR, "n_operand"), "typ"), "$type", [t]))):
            compare(ctx, "operator", "tr_unary_expression (%s of %s, %s)" % (
                o, t, mode), "VCG.tr_unary_expression", """
def spec(self, n_expr):
    v = operand(self, n_expr.n_operand)
    return result(self, %s)
""" % value, setup, types=[(EXPR, ["Unary_Expression"])])



INT, DEC = "Builtin_Integer", "Builtin_Decimal"
DIVISION = """
    if not self.functional and self.emit_checks:
        goals(self, [(smt.Boolean_Negation(smt.Comparison(
            "=", b, smt.%s_Literal(0))),
            Feedback(n_expr, "zero", "div-by-zero"))])
"""
INDEX = """
    if not self.functional and self.emit_checks:
        goals(self, [
            (smt.Comparison(">=", b, smt.Integer_Literal(0)),
             Feedback(n_expr, "low", "array-index")),
            (smt.Comparison("<", b, smt.Sequence_Length(a)),
             Feedback(n_expr, "high", "array-index"))])
"""
BINARY = {
    ("PLUS", "Builtin_String"): ("", "smt.String_Concatenation(a, b)"),
    ("LOGICAL_XOR", "Builtin_Boolean"):
    ("", "smt.Exclusive_Disjunction(a, b)"),
    ("STRING_CONTAINS", "Builtin_String"):
    ("", 'smt.String_Predicate("contains", b, a)'),
    ("STRING_STARTSWITH", "Builtin_String"):
    ("", 'smt.String_Predicate("prefixof", b, a)'),
    ("STRING_ENDSWITH", "Builtin_String"):
    ("", 'smt.String_Predicate("suffixof", b, a)'),
    ("STRING_REGEX", "Builtin_String"):
    ("", "smt.Function_Application(self.get_uf_matches(), a, "
     "smt.String_Literal(n_expr.n_rhs.evaluate(self.mh, None, None)"
     ".value))"),
    ("INDEX", "Array_Type"): (INDEX, "smt.Sequence_Index(a, b)"),
    ("ARRAY_CONTAINS", INT): ("", "smt.Sequence_Contains(b, a)"),
}
for o, t in (("PLUS", "+"), ("MINUS", "-"), ("TIMES", "*")):
    BINARY[(o, INT)] = ("", 'smt.Binary_Int_Arithmetic_Op("%s", a, b)' % t)
    BINARY[(o, DEC)] = ("", 'smt.Binary_Real_Arithmetic_Op("%s", a, b)' % t)
BINARY[("DIVIDE", INT)] = (
    DIVISION % "Integer", 'smt.Binary_Int_Arithmetic_Op("floor_div", a, b)')
BINARY[("DIVIDE", DEC)] = (
    DIVISION % "Real", 'smt.Binary_Real_Arithmetic_Op("/", a, b)')
BINARY[("REMAINDER", INT)] = (
    DIVISION % "Integer",
    'smt.Binary_Int_Arithmetic_Op("ada_remainder", a, b)')
for o, t in (("LT", "<"), ("LEQ", "<="), ("GT", ">"), ("GEQ", ">=")):
    for ty in (INT, DEC):
        BINARY[("COMP_" + o, ty)] = ("", 'smt.Comparison("%s", a, b)' % t)
LHS, RHS = A(EXPR, "n_lhs"), A(EXPR, "n_rhs")
BODY = """
def spec(self, n_expr):
    a = operand(self, n_expr.n_lhs)
    b = operand(self, n_expr.n_rhs)
%s
    return result(self, %s)
"""
#: nothing is known about the value of the other operand when the
#: left-hand one decides
SHORT = """
def spec(self, n_expr):
    if self.functional:
        a = self.tr_expression(n_expr.n_lhs)[0]
        b = self.tr_expression(n_expr.n_rhs)[0]
        return smt.%(formula)s(a, b), smt.Boolean_Literal(True)
    a = operand(self, n_expr.n_lhs)
    both = self.start
    symbol = smt.Constant(smt.BUILTIN_BOOLEAN, self.new_temp_name())
    end = graph.Node(self.graph)
    assume(self, [smt.Assertion(%(decided)s)])
    named(self, symbol, smt.Boolean_Literal(%(value)s))
    self.start.add_edge_to(end)
    self.start = both
    assume(self, [smt.Assertion(%(open)s)])
    named(self, symbol, operand(self, n_expr.n_rhs))
    self.start.add_edge_to(end)
    self.start = end
    return symbol, smt.Boolean_Literal(True)
"""
SHORTS = {
    "LOGICAL_AND": dict(formula="Conjunction", value="False",
                        decided="smt.Boolean_Negation(a)", open="a"),
    "LOGICAL_OR": dict(formula="Disjunction", value="True",
                       decided="a", open="smt.Boolean_Negation(a)"),
    "LOGICAL_IMPLIES": dict(formula="Implication", value="True",
                            decided="smt.Boolean_Negation(a)", open="a"),
}


def binary(ctx):
    q = "VCG.tr_binary_expression"

    def one(o, t, body, value, more=(), note=""):
        for mode, setup in modes(attrs(
                (EXPR, "operator", mk("enum", "Binary_Operator", o)),
                (A(LHS, "typ"), "$type", [t]), *more)):
            compare(ctx, "operator", "tr_binary_expression (%s of %s%s, %s)"
                    % (o, t, note, mode), q, BODY % (body, value), setup,
                    contracts=("*.evaluate", "*.get_uf_matches"),
                    types=[(EXPR, ["Binary_Expression"])])
    for (o, t), (body, value) in BINARY.items():
        one(o, t, body, value)
    for t, f in ((INT, "Int"), (DEC, "Real")):
        for n in range(4):
            value = "a"
            for _ in range(n - 1):
                value = 'smt.Binary_%s_Arithmetic_Op("*", %s, a)' % (
                    f, value)
            if n == 0:
                value = "smt.%s_Literal(1)" % ("Integer" if t == INT
                                               else "Real")
            power = op("call.evaluate", RHS, NONE, NONE)
            one("POWER", t, "", value, ((power, "value", const(n)),),
                ", exponent %u" % n)
    for o, d in SHORTS.items():
        for mode, setup in modes(attrs(
                (EXPR, "operator", mk("enum", "Binary_Operator", o)))):
            compare(ctx, "path", "tr_binary_expression (%s, %s)" % (o, mode),
                    q, SHORT % d, setup,
                    types=[(EXPR, ["Binary_Expression"])])


EQUALITY = """
def spec(self, n_expr):
    a, va = self.tr_expression(n_expr.n_lhs)
    b, vb = self.tr_expression(n_expr.n_rhs)
    v = %s
    return result(self, %s)
"""
SAME = "self.tr_core_equality(n_expr.n_%s.typ, a, b)"


def equality(ctx):
    for la in ("maybe", "sure", "null"):
        for rb in ("maybe", "sure", "null"):
            if la == "null" and rb == "null":
                v = "smt.Boolean_Literal(True)"
            elif la == "null":
                v = "smt.Boolean_Negation(vb)"
            elif rb == "null":
                v = "smt.Boolean_Negation(va)"
            elif la == rb == "sure":
                v = SAME % "lhs"
            else:
                v = """smt.Conjunction(smt.Comparison("=", va, vb),
                    smt.Implication(va, %s))""" % (SAME % "lhs")
            for o, r in (("COMP_EQ", "v"),
                         ("COMP_NEQ", "smt.Boolean_Negation(v)")):
                for mode, setup in modes(attrs(
                        (EXPR, "operator", mk("enum", "Binary_Operator", o)),
                        (A(LHS, "typ"), "$type", ["Type"]))):
                    compare(ctx, "equality", "tr_binary_expression (%s, lhs "
                            "%s, rhs %s, %s)" % (o, la, rb, mode),
                            "VCG.tr_binary_expression", EQUALITY % (v, r),
                            setup, kinds={LHS: la, RHS: rb},
                            contracts=("*.tr_core_equality",),
                            types=[(EXPR, ["Binary_Expression"])])
    for n in range(4):
        comps = [S("component%d" % i) for i in range(n)]
        for opt in range(2 ** n):
            tr = [(S("n_typ"), "$type", ["Tuple_Type"])]
            parts = []
            for i, c in enumerate(comps):
                o = bool(opt & (1 << i))
                tr.append((c, "optional", const(o)))
                tr.append((c, "$type", ["Composite_Component"]))
                tr.append((A(c, "n_typ"), "$type", ["Type"]))
                acc = ['smt.Record_Access(%s, component%d.name + ".%s")' %
                       (x, i, f) for x in ("lhs", "rhs")
                       for f in ("value", "valid")]
                v = "self.tr_core_equality(component%d.n_typ, %s, %s)" % (
                    i, acc[0], acc[2])
                if o:
                    v = """smt.Conjunction(smt.Comparison("=", %s, %s),
                        smt.Implication(%s, %s))""" % (acc[1], acc[3],
                                                      acc[1], v)
                parts.append(v)
            v = "smt.Boolean_Literal(True)" if not parts else \
                "smt.Conjunction(%s)" % ", ".join(parts)
            compare(ctx, "equality", "tr_core_equality (tuple of %u, "
                    "optional %s)" % (n, bin(opt)[2:]),
                    "VCG.tr_core_equality", """
def spec(self, n_typ, lhs, rhs, %s):
    return %s
""" % (", ".join(c.a[0] for c in comps), v), base(True, True, attrs(*tr)),
                    args={c.a[0]: c for c in comps},
                    returns={("all_components", S("n_typ")):
                             mk("tuple", *comps)},
                    contracts=("*.tr_core_equality",))
    for t in ("Builtin_Integer", "Builtin_String", "Record_Type",
              "Array_Type", "Enumeration_Type", "Union_Type"):
        compare(ctx, "equality", "tr_core_equality (%s)" % t,
                "VCG.tr_core_equality", """
def spec(self, n_typ, lhs, rhs):
    return smt.Comparison("=", lhs, rhs)
""", base(True, True), types=[(S("n_typ"), [t])])


RANGE = """
def spec(self, n_expr):
    a = operand(self, n_expr.n_lhs)
    low = operand(self, n_expr.n_lower)
    high = operand(self, n_expr.n_upper)
    return result(self, smt.Conjunction(smt.Comparison(">=", a, low),
                                        smt.Comparison("<=", a, high)))
"""
COND = """
def spec(self, n_expr):
    end = graph.Node(self.graph)
    symbol = smt.Constant(self.tr_type(n_expr.typ), self.new_temp_name())
%s
    named(self, symbol, operand(self, n_expr.else_expr))
    self.start.add_edge_to(end)
    self.start = end
    return symbol, smt.Boolean_Literal(True)
"""
BRANCH = """
    c = operand(self, action%(i)d.n_cond)
    tested = self.start
    assume(self, [smt.Assertion(c)])
    named(self, symbol, operand(self, action%(i)d.n_expr))
    self.start.add_edge_to(end)
    self.start = tested
    assume(self, [smt.Assertion(smt.Boolean_Negation(c))])
"""


def other_operators(ctx):
    for kinds in ({}, {A(EXPR, "n_lower"): "sure"}):
        for mode, setup in modes():
            compare(ctx, "operator", "tr_range_test (%s%s)" % (
                mode, ", literal bound" if kinds else ""),
                "VCG.tr_range_test", RANGE, setup, kinds=kinds,
                types=[(EXPR, ["Range_Test"])])
    for n in range(1, 5):
        cs = [S("choice%d" % i) for i in range(n)]
        for mode, setup in modes(attrs(
                (EXPR, "choices", list(cs)),
                *[(c, "$type", ["Expression"]) for c in cs])):
            src = "def spec(self, n_expr, %s):\n" % ", ".join(
                c.a[0] for c in cs)
            for i in range(n):
                src += "    v%d = operand(self, choice%d)\n" % (i, i)
            alls = ["smt.Conjunction(%s)" % ", ".join(
                ("v%d" if j == i else "smt.Boolean_Negation(v%d)") % j
                for j in range(n)) for i in range(n)]
            v = {1: "v0", 2: "smt.Exclusive_Disjunction(v0, v1)"}.get(
                n, "smt.Disjunction(%s)" % ", ".join(alls))
            compare(ctx, "operator", "tr_oneof_test (%u choices, %s)" % (
                n, mode), "VCG.tr_oneof_test", src +
                "    return result(self, %s)\n" % v, setup,
                args={c.a[0]: c for c in cs},
                types=[(EXPR, ["OneOf_Expression"])])
    for n in range(1, 4):
        acts = [S("action%d" % i) for i in range(n)]
        at = attrs((EXPR, "actions", list(acts)),
                   *[(c, "$type", ["Action"]) for c in acts])
        params = ", ".join(c.a[0] for c in acts)
        v = "self.tr_expression(n_expr.else_expr)[0]"
        for i in reversed(range(n)):
            v = "smt.Conditional(self.tr_expression(action%d.n_cond)[0], " \
                "self.tr_expression(action%d.n_expr)[0], %s)" % (i, i, v)
        for mode, setup in modes(at):
            formula = mode.startswith("in")
            src = "def spec(self, n_expr, %s):\n    return %s, " \
                "smt.Boolean_Literal(True)\n" % (params, v)
            if not formula:
                src = (COND % "".join(BRANCH % {"i": i} for i in range(n))
                       ).replace("n_expr):", "n_expr, %s):" % params, 1)
            for kinds in ({}, {A(acts[0], "n_cond"): "sure",
                               A(EXPR, "else_expr"): "sure"}):
                compare(ctx, "path", "conditional (%u conditions, %s%s)" % (
                    n, mode, ", some cannot be null" if kinds else ""),
                    "VCG.tr_expression", src, setup, kinds=kinds,
                    args={c.a[0]: c for c in acts},
                    types=[(EXPR, ["Conditional_Expression"])])


QUANTIFIER = """
def spec(self, n_expr):
    source, valid = self.tr_name_reference(n_expr.n_source)
    need(self, valid, n_expr.n_source)
    before = self.start
    i = smt.Constant(smt.BUILTIN_INTEGER, self.new_temp_name())
    x = smt.Constant(self.tr_type(n_expr.n_source.typ.element_type),
                     self.new_temp_name())
    assume(self, [
        smt.Constant_Declaration(symbol=i),
        smt.Assertion(smt.Comparison(">=", i, smt.Integer_Literal(0))),
        smt.Assertion(smt.Comparison("<", i, smt.Sequence_Length(source))),
        smt.Constant_Declaration(symbol=x,
                                 value=smt.Sequence_Index(source, i))])
    self.qe_vars[n_expr.n_var] = x
    operand(self, n_expr.n_expr)
    del self.qe_vars[n_expr.n_var]
    self.start = before
    j = smt.Bound_Variable(smt.BUILTIN_INTEGER, self.new_temp_name())
    self.bound_vars[n_expr.n_var] = smt.Sequence_Index(source, j)
    self.functional = True
    body = self.tr_expression(n_expr.n_expr)[0]
    self.functional = False
    inside = smt.Conjunction(
        smt.Comparison(">=", j, smt.Integer_Literal(0)),
        smt.Comparison("<", j, smt.Sequence_Length(source)))
    return smt.Quantifier(%s), smt.Boolean_Literal(True)
"""


def quantifiers(ctx):
    for universal in (True, False):
        v = '"forall", [j], smt.Implication(inside, body)' if universal \
            else '"exists", [j], smt.Conjunction(inside, body)'
        for kinds in ({}, {A(EXPR, "n_source"): "sure"}):
            for mode, setup in modes(attrs(
                    (EXPR, "universal", const(universal)),
                    (A(A(EXPR, "n_source"), "typ"), "$type",
                     ["Array_Type"]))):
                if mode.startswith("in"):
                    continue
                compare(ctx, "path", "tr_quantified_expression (%s, %s%s)" %
                        ("forall" if universal else "exists", mode,
                         ", source cannot be null" if kinds else ""),
                        "VCG.tr_quantified_expression", QUANTIFIER % v,
                        setup, kinds=kinds,
                        types=[(EXPR, ["Quantified_Expression"])])


DISPATCH = {
    "Name_Reference": "self.tr_name_reference(n_expr)",
    "Unary_Expression": "self.tr_unary_expression(n_expr)",
    "Binary_Expression": "self.tr_binary_expression(n_expr)",
    "Range_Test": "self.tr_range_test(n_expr)",
    "OneOf_Expression": "self.tr_oneof_test(n_expr)",
    "Quantified_Expression": "self.tr_quantified_expression(n_expr)",
    "Field_Access_Expression": "self.tr_field_access_expression(n_expr)",
    "Null_Literal": "(None, smt.Boolean_Literal(False))",
    "Boolean_Literal":
    "(smt.Boolean_Literal(n_expr.value), smt.Boolean_Literal(True))",
    "Integer_Literal":
    "(smt.Integer_Literal(n_expr.value), smt.Boolean_Literal(True))",
    "Decimal_Literal":
    "(smt.Real_Literal(n_expr.value), smt.Boolean_Literal(True))",
    "String_Literal":
    "(smt.String_Literal(n_expr.value), smt.Boolean_Literal(True))",
    "Enumeration_Literal":
    "(smt.Enumeration_Literal(self.tr_type(n_expr.typ), "
    "n_expr.value.name), smt.Boolean_Literal(True))",
}
NAMES = ("name_reference", "unary_expression", "binary_expression",
         "range_test", "oneof_test", "quantified_expression",
         "field_access_expression")


def leaves(ctx):
    for c, v in DISPATCH.items():
        for mode, setup in modes():
            compare(ctx, "operator", "tr_expression (%s, %s)" % (c, mode),
                    "VCG.tr_expression",
                    "\ndef spec(self, n_expr):\n    return %s\n" % v, setup,
                    types=[(EXPR, [c])],
                    contracts=["*.tr_" + n for n in NAMES])
    ref, ent = S("n_ref"), A(S("n_ref"), "entity")
    names = """
def spec(self, n_ref):
    base = n_ref.entity.member_of.fully_qualified_name() + "." + \
        n_ref.entity.name
    return self.constants[base + ".value"], self.constants[base + ".valid"]
"""
    inner = """
def spec(self, n_ref, base):
    return smt.Record_Access(base, n_ref.entity.name + ".value"), %s
"""
    for optional in (True, False):
        for mode, setup in modes(attrs(
                (ent, "$type", ["Composite_Component"]),
                (ent, "optional", const(optional)))):
            compare(ctx, "name", "tr_name_reference (component%s, %s)" % (
                ", optional" if optional else "", mode),
                "VCG.tr_name_reference", names, setup,
                contracts=("*.fully_qualified_name",), texts=True,
                types=[(ref, ["Name_Reference"])], options_=dict(
                    translators=()))

            def inside(ip, st):
                st = setup(ip, st)
                st, o = nodes.dictionary(st, "tuple_base", (
                    A(ent, "member_of"),), (S("base"),))
                return st.set_attr(ME, "tuple_base", o)
            compare(ctx, "name", "tr_name_reference (component of the tuple "
                    "which is described%s, %s)" % (
                        ", optional" if optional else "", mode),
                    "VCG.tr_name_reference", inner % (
                        'smt.Record_Access(base, n_ref.entity.name + '
                        '".valid")' if optional else
                        "smt.Boolean_Literal(True)"), inside,
                    args={"base": S("base")}, texts=True,
                    types=[(ref, ["Name_Reference"])], options_=dict(
                        translators=()))
    for d in ("qe_vars", "bound_vars"):
        def bound(ip, st):
            st = base(d == "bound_vars", True, attrs(
                (ent, "$type", ["Quantified_Variable"])))(ip, st)
            st, o = nodes.dictionary(st, d, (ent,), (S("variable"),))
            return st.set_attr(ME, d, o)
        compare(ctx, "name", "tr_name_reference (quantified variable, %s)" %
                d, "VCG.tr_name_reference", """
def spec(self, n_ref, variable):
    return variable, smt.Boolean_Literal(True)
""", bound, args={"variable": S("variable")},
            types=[(ref, ["Name_Reference"])], options_=dict(
                translators=()))


DEREF = """
def spec(self, n_expr):
    v = operand(self, n_expr.n_prefix)
    sort, fun = self._ensure_record_deref(%(key)s, %(key)s,
                                          "access." + %(key)s, %(comps)s)
    r = smt.Function_Application(fun, v)
    return smt.Record_Access(r, n_expr.n_field.name + ".value"), %(valid)s
"""
VALID = {True: 'smt.Record_Access(%s, n_expr.n_field.name + ".valid")',
         False: "smt.Boolean_Literal(True)"}


def fields(ctx):
    prefix, field = A(EXPR, "n_prefix"), A(EXPR, "n_field")
    typ = A(prefix, "typ")
    kw = dict(types=[(EXPR, ["Field_Access_Expression"])], texts=True,
              contracts=("*._ensure_record_deref",
                         "*.fully_qualified_name"))
    for optional in (True, False):
        at = [(field, "optional", const(optional)),
              (A(field, "name"), "$type", ["str"])]
        for mode, setup in modes(attrs((typ, "$type", ["Tuple_Type"]),
                                       *at)):
            compare(ctx, "field", "field access (tuple%s, %s)" % (
                ", optional" if optional else "", mode),
                "VCG.tr_field_access_expression", """
def spec(self, n_expr):
    v = operand(self, n_expr.n_prefix)
    return smt.Record_Access(v, n_expr.n_field.name + ".value"), %s
""" % (VALID[optional] % ("v",) if optional else VALID[False]), setup, **kw)
        for n in range(3):
            cs = [S("component%d" % i) for i in range(n)]
            for mode, setup in modes(attrs(
                    (typ, "$type", ["Record_Type"]), *at,
                    *[(c, "$type", ["Composite_Component"]) for c in cs])):
                src = DEREF % dict(
                    key='(n_expr.n_prefix.typ.n_package.name + "." + '
                    'n_expr.n_prefix.typ.name)',
                    comps="[%s]" % ", ".join(
                        "(c%d.name, self.tr_type(c%d.n_typ), c%d.optional)"
                        .replace("c%d", c.a[0]) for c in cs),
                    valid=VALID[optional] % ("r",) if optional else
                    VALID[False])
                compare(ctx, "field", "field access (record of %u%s, %s)" % (
                    n, ", optional" if optional else "", mode),
                    "VCG.tr_field_access_expression", src.replace(
                        "n_expr):", ", ".join(["n_expr"] + [
                            c.a[0] for c in cs]) + "):", 1), setup,
                    args={c.a[0]: c for c in cs},
                    returns={("all_components", typ): mk("tuple", *cs)},
                    **kw)


def info(st, name, typ, count, total, optional):
    return nodes.dictionary(st, name, [const(k) for k in (
        "n_typ", "count", "total", "optional_in_any")],
        [typ, const(count), const(total), const(optional)])


UNION = """
def spec(self, n_expr%(params)s):
    v = operand(self, n_expr.n_prefix)
    key = "_".join(t.fully_qualified_name()
                   for t in n_expr.n_prefix.typ.types)
    sort, fun = self._ensure_record_deref(
        "union." + key, "union." + key, "access.union." + key, %(comps)s)
    r = smt.Function_Application(fun, v)
    return smt.Record_Access(r, n_expr.n_field.name + ".value"), %(valid)s
"""


def unions(ctx):
    prefix, field = A(EXPR, "n_prefix"), A(EXPR, "n_field")
    typ = A(prefix, "typ")
    members = [S("member0"), S("member1")]
    # in all members and not optional, optional in one, in one only, with
    # different types
    fs = [("f0", S("type0"), 2, False), ("f1", S("type1"), 2, True),
          ("f2", S("type2"), 1, False), ("f3", NONE, 2, False)]
    maybe = {"f0": False, "f1": True, "f2": True}
    for chosen in ([0], [1], [2], [0, 1, 2, 3], [3, 2, 1], []):
        for target in [fs[i][0] for i in chosen if i != 3]:
            def fill(ip, st):
                infos = []
                for i in chosen:
                    st, o = info(st, "info%d" % i, fs[i][1], fs[i][2], 2,
                                 fs[i][3])
                    infos.append(o)
                st, fm = nodes.dictionary(st, "fields", [
                    const(fs[i][0]) for i in chosen], infos)
                for i in chosen:
                    if fs[i][1] is not NONE:
                        st = st._upd("types", fs[i][1], ip.m.subclasses(
                            "Type"))
                return attrs((typ, "$type", ["Union_Type"]),
                             (typ, "types", list(members)),
                             (field, "name", const(target)))(ip, st)
            fm = mk("obj", "dict", ("shape", "fields"))
            for mode, setup in modes(fill):
                ts = [S("type%d" % i) for i in chosen if i != 3]
                compare(ctx, "field", "field access (union with fields %s, "
                        "%s, %s)" % (", ".join(fs[i][0] for i in chosen),
                                     target, mode),
                        "VCG.tr_field_access_expression", UNION % dict(
                            params="".join(", " + t.a[0] for t in ts),
                            comps="[%s]" % ", ".join(
                                '("f%d", self.tr_type(type%d), %s)' % (
                                    i, i, maybe["f%d" % i])
                                for i in chosen if i != 3),
                            valid=VALID[True] % ("r",) if maybe[target]
                            else VALID[False]), setup,
                        args={t.a[0]: t for t in ts},
                        types=[(EXPR, ["Field_Access_Expression"])],
                        texts=True, exact=True,
                        returns={("get_field_map", typ): fm},
                        contracts=("*._ensure_record_deref",
                                   "*.fully_qualified_name"))


ENSURE = """
def spec(self, type_key, sort_name, uf_name, %(params)s):
    sort = smt.Record(sort_name)
%(fields)s
    fun = smt.Function(uf_name, sort, smt.Bound_Variable(
        smt.BUILTIN_INTEGER, "ref"))
    self.preamble.add_statement(smt.Record_Declaration(sort))
    self.preamble.add_statement(smt.Function_Declaration(fun))
    self.records[type_key] = sort
    self.uf_records[type_key] = fun
    return sort, fun
"""


def tables(*entries):
    """dictionaries of the generator with some entries"""
    def setup(ip, st):
        for name, keys, vals in entries:
            st, o = nodes.dictionary(st, name, keys, vals)
            st = st.set_attr(ME, name, o)
        return st
    return setup


def dicts(*names):
    return [mk("obj", "dict", ("shape", n)) for n in names]


def declarations(ctx):
    for n in range(4):
        for needs in range(2 ** n):
            cs = [(S("name%d" % i), S("sort%d" % i),
                   bool(needs & (1 << i))) for i in range(n)]

            def setup(ip, st):
                st, o = closed(st, "components", [
                    mk("tuple", a, b, const(c)) for a, b, c in cs])
                for a, _, _ in cs:
                    st = st._upd("types", a, frozenset(["str"]))
                return base(False, True, tables(
                    ("records", (), ()), ("uf_records", (), ())))(ip, st)
            body = ""
            for i, c in enumerate(cs):
                body += '    sort.add_component(name%d + ".value", ' \
                    'sort%d)\n' % (i, i)
                if c[2]:
                    body += '    sort.add_component(name%d + ".valid", ' \
                        'smt.BUILTIN_BOOLEAN)\n' % i
            names = [x.a[0] for c in cs for x in c[:2]]
            compare(ctx, "declaration", "_ensure_record_deref (%u fields, "
                    "optional %s)" % (n, bin(needs)[2:]),
                    "VCG._ensure_record_deref", ENSURE % dict(
                        params=", ".join(names) or "nothing", fields=body),
                    setup, args=dict({"components": mk(
                        "obj", "list", ("shape", "components"))}, **{
                            x: S(x) for x in names}), texts=True,
                    shared=dicts("records", "uf_records"))

    def cached(ip, st):
        return base(False, True, tables(
            ("records", (S("type_key"),), (S("sort"),)),
            ("uf_records", (S("type_key"),), (S("fun"),))))(ip, st)
    compare(ctx, "declaration", "_ensure_record_deref (once)",
            "VCG._ensure_record_deref", """
def spec(self, type_key, sort, fun):
    return sort, fun
""", cached, args={"sort": S("sort"), "fun": S("fun")},
        shared=dicts("records", "uf_records"))
    # types
    T = S("n_type")
    for c, v in (("Builtin_Boolean", "smt.BUILTIN_BOOLEAN"),
                 ("Builtin_Integer", "smt.BUILTIN_INTEGER"),
                 ("Builtin_Decimal", "smt.BUILTIN_REAL"),
                 ("Builtin_String", "smt.BUILTIN_STRING"),
                 ("Builtin_Markup_String", "smt.BUILTIN_STRING"),
                 ("Record_Type", "smt.BUILTIN_INTEGER"),
                 ("Union_Type", "smt.BUILTIN_INTEGER")):
        compare(ctx, "declaration", "tr_type (%s)" % c, "VCG.tr_type",
                "\ndef spec(self, n_type):\n    return %s\n" % v,
                base(False, True), types=[(T, [c])])
    for d, c in (("enumerations", "Enumeration_Type"),
                 ("tuples", "Tuple_Type"), ("arrays", "Array_Type")):
        compare(ctx, "declaration", "tr_type (%s, once)" % c, "VCG.tr_type",
                "\ndef spec(self, n_type, sort):\n    return sort\n",
                base(False, True, tables((d, (T,), (S("sort"),)))),
                args={"sort": S("sort")}, types=[(T, [c])],
                shared=dicts(d))
    compare(ctx, "declaration", "tr_type (Array_Type)", "VCG.tr_type", """
def spec(self, n_type):
    sort = smt.Sequence_Sort(self.tr_type(n_type.element_type))
    self.arrays[n_type] = sort
    return sort
""", base(False, True, tables(("arrays", (), ()))),
        types=[(T, ["Array_Type"])], shared=dicts("arrays"))
    for n in range(4):
        ls = [S("literal%d" % i) for i in range(n)]

        def setup(ip, st):
            st, o = nodes.dictionary(st, "literals", [
                const("k%d" % i) for i in range(n)], ls)
            for x in ls:
                st = st._upd("types", x, frozenset(
                    ["Enumeration_Literal_Spec"]))
            st = st.set_attr(A(T, "literals"), "table", o)
            return base(False, True, tables(("enumerations", (), ())))(
                ip, st)
        compare(ctx, "declaration", "tr_type (enumeration of %u)" % n,
                "VCG.tr_type", """
def spec(self, n_type, %s):
    sort = smt.Enumeration(n_type.n_package.name + "." + n_type.name)
%s
    self.preamble.add_statement(smt.Enumeration_Declaration(sort))
    self.enumerations[n_type] = sort
    return sort
""" % (", ".join(x.a[0] for x in ls) or "nothing", "".join(
            "    sort.add_literal(%s.name)\n" % x.a[0] for x in ls)), setup,
            args={x.a[0]: x for x in ls}, types=[
                (T, ["Enumeration_Type"])], texts=True,
            returns={("values", A(T, "literals")): mk("tuple", *ls)},
            shared=dicts("enumerations"))
        cs = [S("component%d" % i) for i in range(n)]
        for opt in range(2 ** n):
            body, at = "", []
            for i, c in enumerate(cs):
                o = bool(opt & (1 << i))
                body += '    sort.add_component(%s.name + ".value", ' \
                    'self.tr_type(%s.n_typ))\n' % (c.a[0], c.a[0])
                if o:
                    body += '    sort.add_component(%s.name + ".valid", ' \
                        'smt.BUILTIN_BOOLEAN)\n' % c.a[0]
                at += [(c, "$type", ["Composite_Component"]),
                       (c, "optional", const(o))]
            compare(ctx, "declaration", "tr_type (tuple of %u, optional %s)"
                    % (n, bin(opt)[2:]), "VCG.tr_type", """
def spec(self, n_type, %s):
    sort = smt.Record(n_type.n_package.name + "." + n_type.name)
%s
    self.preamble.add_statement(smt.Record_Declaration(sort))
    self.tuples[n_type] = sort
    return sort
""" % (", ".join(x.a[0] for x in cs) or "nothing", body),
                base(False, True, tables(("tuples", (), ())), attrs(*at)),
                args={x.a[0]: x for x in cs},
                types=[(T, ["Tuple_Type"])], texts=True,
                returns={("all_components", T): mk("tuple", *cs)},
                shared=dicts("tuples"))
    # the function for matches
    MATCH = """
def spec(self):
    fun = smt.Function(
        "trlc.matches", smt.BUILTIN_BOOLEAN,
        smt.Bound_Variable(smt.BUILTIN_STRING, "subject"),
        smt.Bound_Variable(smt.BUILTIN_STRING, "regex"))
    self.preamble.add_statement(smt.Function_Declaration(fun))
    self.uf_matches = fun
    return fun
"""
    compare(ctx, "declaration", "get_uf_matches (first)",
            "VCG.get_uf_matches", MATCH, base(False, True, attrs(
                (ME, "uf_matches", NONE))))
    compare(ctx, "declaration", "get_uf_matches (again)",
            "VCG.get_uf_matches",
            "\ndef spec(self):\n    return self.uf_matches\n",
            base(False, True, lambda ip, st: ip.assume_eq(
                st, A(ME, "uf_matches"), NONE, False)))


def of_a_type(ctx):
    """which checks, in which order, with which knowledge"""
    T = S("n_ctyp")
    worlds = [()]
    for n in (1, 2):
        worlds += [tuple(w) for w in itertools.product(
            itertools.product((False, True), ("fatal", "error")), repeat=n)]
    worlds += [((False, "warning"), (True, "warning")),
               ((True, "fatal"), (False, "fatal"), (True, "warning"),
                (False, "error"))]
    for w in worlds:
        ks = [S("check%d" % i) for i in range(len(w))]
        cs = [S("component%d" % i) for i in range(min(len(w), 2))]
        at = [(ME, "debug", FALSE), (A(ME, "vcg"), "vcs", [])]
        for k, (late, sev) in zip(ks, w):
            at += [(k, "$type", ["Check"]), (k, "severity", const(sev)),
                   (k, "uses_field_access", const(late))]
        body = "".join("    self.tr_component_decl(%s, self.start)\n" %
                       c.a[0] for c in cs)
        for late in (False, True):
            for k, (x, sev) in zip(ks, w):
                if x == late:
                    body += "    before = self.start\n" \
                        "    self.tr_check(%s)\n" % k.a[0]
                    if sev != "fatal":
                        body += "    self.start = before\n"
        compare(ctx, "check", "checks_on_composite_type (%s)" % ", ".join(
            "%s%s" % (sev, " after references" if late else "")
            for late, sev in w), "VCG.checks_on_composite_type", """
def spec(self, n_ctyp, %s):
    node = graph.Assumption(self.graph)
    self.start.add_edge_to(node)
    self.start = node
    self.preamble = node
%s
    self.vcg.generate()
""" % (", ".join(x.a[0] for x in ks + cs) or "nothing", body),
            base(False, True, attrs(*at)),
            args={x.a[0]: x for x in ks + cs},
            types=[(T, ["Composite_Type"])],
            returns={("all_components", T): mk("tuple", *cs),
                     ("iter_checks", T): mk("tuple", *ks)},
            contracts=("*.tr_component_decl",),
            logged=("*.tr_component_decl",),
            options_=dict(translators=("tr_check",)))
    # a check: its value must not be null, it is not always true, and it
    # holds afterwards
    K = S("n_check")
    for own in (True, False):
        for kind in ("maybe", "sure"):
            def setup(ip, st):
                st = base(False, True, attrs(
                    (K, "$type", ["Check"]),
                    (A(K, "n_type"), "$type", ["Composite_Type"]),
                    (A(ME, "n_ctyp"), "$type", ["Composite_Type"])))(ip, st)
                return ip.assume_eq(st, A(K, "n_type"), A(ME, "n_ctyp"),
                                    own)
            compare(ctx, "check", "tr_check (%s, value %s null)" % (
                "own" if own else "inherited", "cannot be"
                if kind == "sure" else "can be"), "VCG.tr_check", """
def spec(self, n_check):
    self.emit_checks = %s
    value = operand(self, n_check.n_expr)
    if self.emit_checks:
        node = graph.Check(self.graph)
        node.add_goal(value, Feedback(n_check.n_expr, "true", "always-true",
                                      expect_unsat=False))
        self.start.add_edge_to(node)
    assume(self, [smt.Assertion(value)])
    self.emit_checks = True
""" % own, setup, kinds={A(K, "n_expr"): kind})


def solved(ctx):
    """what is reported about the conditions"""
    feedback = [mk("obj", "Feedback", ("shape", "feedback%d" % i))
                for i in range(2)]
    conds = []
    for expect in (True, False):
        for status in ("unsat", "sat", "unknown"):
            conds.append((expect, status))
    worlds = [((e, s, 0),) for e, s in conds]
    for e in (True, False):
        for s in ("unsat", "sat", "unknown"):
            for t in ("unsat", "sat", "unknown"):
                worlds.append(((e, s, 0), (e, t, 0)))
    for e in (True, False):
        for f in (True, False):
            worlds.append(((e, "unsat" if not e else "sat", 0),
                           (f, "unsat" if not f else "sat", 1)))
    worlds += [((False, "unsat", 0), (False, "unsat", 0),
                (False, "sat", 0)),
               ((False, "unsat", 0), (False, "unsat", 1),
                (False, "sat", 0)),
               ((True, "unsat", 0), (True, "sat", 0), (True, "sat", 0)),
               ((True, "sat", 0), (True, "sat", 0), (True, "sat", 1)),
               ((True, "sat", 0), (True, "unsat", 0), (False, "unsat", 1)),
               ((True, "sat", 0), (False, "unsat", 1), (True, "sat", 0))]
    T = S("n_ctyp")
    for w in worlds:
        def setup(ip, st):
            vcs = []
            for i, (e, s, f) in enumerate(w):
                o = mk("obj", "dict", ("shape", "vc%d" % i))
                st, o = nodes.dictionary(
                    st, "vc%d" % i, [const("feedback"), const("script")],
                    [feedback[f], S("script%d" % i)])
                vcs.append(o)
                st = st.set_attr(feedback[f], "expect_unsat", const(e))
                for k in ("node", "kind", "message"):
                    st = st.set_attr(feedback[f], k, S("%s%d" % (k, f)))
                st = st._upd("types", S("node%d" % f),
                             ip.m.subclasses("Expression"))
            return base(False, True, attrs(
                (ME, "debug", FALSE), (A(ME, "vcg"), "vcs", vcs)))(ip, st)

        def solve(ip, st, recv, args, kw, node):
            i = int(recv.a[0][6:])
            return [("ret", Graph.log(None, st, "solve", recv),
                     mk("tuple", const(w[i][1]), S("values%d" % i)))]
        body, failed, good, order = "", set(), set(), []
        for i, (e, s, f) in enumerate(w):
            if e and f in failed:
                continue
            body += "    script%d.solve_vc(None)\n" % i
            if e and s != "unsat":
                body += """
    self.mh.check(node%d.location, message%d, kind%d,
                  self.create_counterexample("%s", values%d))
""" % (f, f, f, s, i)
                failed.add(f)
            elif not e and s == "unsat":
                order.append(f)
            elif not e:
                good.add(f)
        for f in order:
            if f not in good:
                body += "    self.mh.check(node%d.location, message%d, " \
                    "kind%d)\n" % (f, f, f)
                good.add(f)
        syms = [S(k + "%d" % i) for i in range(3) for k in (
            "node", "message", "kind", "values", "script")]
        compare(ctx, "report", "checks_on_composite_type (solver: %s)" %
                ", ".join("%s %s%s" % (
                    "goal" if e else "feasible", s,
                    " of another place" if f else "") for e, s, f in w),
                "VCG.checks_on_composite_type", """
def spec(self, n_ctyp, %s):
    node = graph.Assumption(self.graph)
    self.start.add_edge_to(node)
    self.start = node
    self.preamble = node
    self.vcg.generate()
%s
""" % (", ".join(x.a[0] for x in syms), body), setup,
                args={x.a[0]: x for x in syms},
                types=[(T, ["Composite_Type"])],
                returns={("all_components", T): mk("tuple"),
                         ("iter_checks", T): mk("tuple")},
                ext={".solve_vc": solve}, exact=True,
                message_args=("message", "check", "explanation"),
                contracts=("*.create_counterexample",))


COMPONENT = """
def spec(self, n_component, gn_locals):
    name = n_component.member_of.fully_qualified_name() + "." + \
        n_component.name
    value = smt.Constant(self.tr_type(n_component.n_typ), name + ".value")
    valid = smt.Constant(smt.BUILTIN_BOOLEAN, name + ".valid")
%(value)s
    gn_locals.add_statement(smt.Constant_Declaration(
        symbol=value, value=v, relevant=True))
    self.constants[name + ".value"] = value
%(more)s
    gn_locals.add_statement(smt.Constant_Declaration(
        symbol=valid, value=%(valid)s, relevant=True))
    self.constants[name + ".valid"] = valid
"""
FROZEN = """
    self.functional = True
    v = self.tr_expression(self.n_ctyp.get_freezing_expression(
        n_component))[0]
    self.functional = False
"""
LOW = """
    gn_locals.add_statement(smt.Assertion(smt.Comparison(
        ">=", smt.Sequence_Length(value), smt.Integer_Literal(
            n_component.n_typ.lower_bound))))
"""
HIGH = """
    gn_locals.add_statement(smt.Assertion(smt.Comparison(
        "<=", smt.Sequence_Length(value), smt.Integer_Literal(
            n_component.n_typ.upper_bound))))
"""


def components(ctx):
    C = S("n_component")
    typ = A(C, "n_typ")
    worlds = []
    for owner in ("Record_Type", "Tuple_Type"):
        for optional in (True, False):
            for frozen in ((True, False) if owner[0] == "R" else (False,)):
                for t in (("Builtin_Integer", None),
                          ("Tuple_Type", None), ("Array_Type", (0, None)),
                          ("Array_Type", (2, None)), ("Array_Type", (0, 3)),
                          ("Array_Type", (1, 1)), ("Array_Type", (0, 0))):
                    worlds.append((owner, optional, frozen, t))
    for owner, optional, frozen, (t, bounds) in worlds:
        at = [(ME, "$none", NONE), (C, "$type", ["Composite_Component"]),
              (C, "optional", const(optional)), (typ, "$type", [t]),
              (A(ME, "n_ctyp"), "$type", [owner])]
        more = ""
        if bounds:
            low, high = bounds
            at += [(typ, "lower_bound", const(low)),
                   (typ, "upper_bound", const(high) if high is not None
                    else NONE)]
            more = (LOW if low > 0 else "") + (
                HIGH if high is not None else "")
        elif t == "Tuple_Type":
            more = "    self.emit_tuple_constraints(n_component.n_typ, " \
                "value)\n"
        src = COMPONENT % dict(
            value=FROZEN if frozen else "    v = None\n", more=more,
            valid="None" if optional and not frozen
            else "smt.Boolean_Literal(True)")

        def setup(ip, st):
            st = base(False, True, tables(("constants", (), ())),
                      attrs(*at[1:]))(ip, st)
            return st.set_attr(ME, "preamble", START)
        compare(ctx, "declaration", "tr_component_decl (%s of a %s%s%s%s)" %
                (t, owner, ", optional" if optional else "",
                 ", frozen" if frozen else "",
                 ", bounds %s .. %s" % bounds if bounds else ""),
                "VCG.tr_component_decl", src, setup,
                args={"gn_locals": START}, texts=True,
                returns={("is_frozen", A(ME, "n_ctyp")): const(frozen)},
                contracts=("*.fully_qualified_name",
                           "*.get_freezing_expression",
                           "*.emit_tuple_constraints"),
                logged=("*.emit_tuple_constraints",),
                shared=dicts("constants"))
    # what holds for every tuple
    T, sym_ = S("n_tuple"), S("s_sym")
    worlds = [((), ())]
    for n in range(1, 4):
        for opt in itertools.product((False, True), repeat=n):
            worlds.append(((), opt))
    for k in range(1, 3):
        for sev in itertools.product(("fatal", "error", "warning"),
                                     repeat=k):
            worlds.append((sev, (False, True)))
    for sev, opt in worlds:
        ks = [S("check%d" % i) for i in range(len(sev))]
        cs = [S("component%d" % i) for i in range(len(opt))]
        at = [(T, "$type", ["Tuple_Type"])]
        body = ""
        for k, x in zip(ks, sev):
            at += [(k, "$type", ["Check"]), (k, "severity", const(x))]
            if x != "warning":
                body += "    self.start.add_statement(smt.Assertion(" \
                    "self.tr_expression(%s.n_expr)[0]))\n" % k.a[0]
        for i, c in enumerate(cs):
            at += [(c, "$type", ["Composite_Component"]),
                   (c, "optional", const(opt[i]))]
            if not opt[i] or i + 1 == len(cs):
                continue
            inv = ["smt.Boolean_Negation(smt.Record_Access(s_sym, %s.name "
                   "+ '.valid'))" % x.a[0] for x in cs[i:]]
            body += "    self.start.add_statement(smt.Assertion(" \
                "smt.Implication(%s, smt.Conjunction(%s))))\n" % (
                    inv[0], ", ".join(inv[1:]))
        compare(ctx, "declaration", "emit_tuple_constraints (checks %s; "
                "optional %s)" % (", ".join(sev), ", ".join(map(str, opt))),
                "VCG.emit_tuple_constraints", """
def spec(self, n_tuple, s_sym, %s):
    self.functional = True
    self.tuple_base[n_tuple] = s_sym
%s
    del self.tuple_base[n_tuple]
    self.functional = False
""" % (", ".join(x.a[0] for x in ks + cs) or "nothing", body),
            base(False, True, attrs(*at)), texts=True,
            args={x.a[0]: x for x in ks + cs},
            returns={("all_components", T): mk("tuple", *cs),
                     ("iter_checks", T): mk("tuple", *ks)})


FRESH_DRIVE = """
def drive(self):
    a = self.new_temp_name()
    b = self.new_temp_name()
    c = self.new_temp_name()
    return a != b and b != c and a != c
"""
FRESH = """
def spec(self):
    return True
"""


def surroundings(ctx):
    """how the translation begins, and which types are translated"""
    lint.reach(ctx, True)
    # names which are made up differ from each other
    compare(ctx, "name", "new_temp_name", "VCG.new_temp_name", FRESH,
        base(False, True, attrs((ME, "tmp_id", const(0)))),
        drive=FRESH_DRIVE, texts=True, exact=True,
        real=("new_temp_name",))
    # a translation begins on a path, with conditions, at the start
    fi = ctx.m.functions.get("VCG.__init__")
    why = vocabulary(ctx)
    if fi is None or why:
        ctx.undecided("initial", "VCG.__init__", why or "does not exist")
        return
    ctx.funcs.add(fi.qual)
    c = Graph()
    c.target = fi
    ip = Interp(ctx.m, c)
    st = State()
    for p, t in (("mh", "Message_Handler"), ("n_ctyp", "Composite_Type")):
        st = st._upd("types", S(p), ctx.m.subclasses(t))
    for o in ip.run(fi, {p: S(p) for p in fi.params}, st):
        if o.kind != "return":
            continue
        for a, want in (("functional", FALSE), ("emit_checks", TRUE)):
            v = ip.norm(o.st, o.st.heap.get((ME, a), S("?")))
            if not is_const(v):
                ctx.undecided("initial", a, "its value is %s" % show(v))
            elif v is not want:
                ctx.violation("initial", a, fi.loc(fi.node),
                              "a translation begins with %s = %s" % (
                                  a, show(v)))
            else:
                ctx.ok("initial", "%s is %s at the beginning" % (
                    a, show(v)))


# --------------------------------------------------------------------------
# the counter-example
# --------------------------------------------------------------------------
SHOWN = {
    "Builtin_Integer": "return str(value)",
    "Builtin_Boolean": 'return "true" if value else "false"',
    "Enumeration_Type": 'return n_typ.name + "." + value',
    "Builtin_String": """if "\\n" in value:
        return "'''" + value + "'''"
    return '"' + value + '"'""",
    "Record_Type": """i = value * -2 - 1 if value < 0 else value * 2
    if n_typ.n_package is self.n_ctyp.n_package:
        return "%s_instance_%i" % (n_typ.name, i)
    return "%s.%s_instance_%i" % (n_typ.n_package.name, n_typ.name, i)""",
    "Union_Type": """i = value * -2 - 1 if value < 0 else value * 2
    return "instance_%i" % i""",
}
EXAMPLE = """
def spec(self, status, values, c0, c1):
    rv = "example %%s triggering error:\\n  %%s bad_potato {" %% (
        self.n_ctyp.__class__.__name__.lower(), self.n_ctyp.name)
    for c, has_value, has_valid in ((c0, %s, %s), (c1, %s, %s)):
        name = c.member_of.fully_qualified_name() + "." + c.name
        if status == "unknown" and not (has_value and has_valid):
            rv += "\\n    %%s = ???" %% c.name
        elif has_valid and values[name + ".valid"]:
            rv += "\\n    %%s = %%s" %% (c.name, self.value_to_trlc(
                c.n_typ, values[name + ".value"]))
        else:
            rv += "\\n    /* %%s is null */" %% c.name
    rv += "\\n  }"
    if status == "unknown":
        rv += "\\n/* note: counter-example is unreliable in this case */"
    return rv
"""


def shown(ctx):
    """a value of the solver as the language writes it"""
    t = S("n_typ")
    for cls, src in sorted(SHOWN.items()):
        # a reference is shown by number: the numbers the solver may give
        for n in ((None,) if cls[:5] not in ("Recor", "Union")
                  else (-3, -1, 0, 1, 4)):
            E.equiv(ctx, "example", "value %sof type %s" % (
                "" if n is None else "%d " % n, cls), "VCG.value_to_trlc",
                "def spec(self, n_typ, value):\n    " + src + "\n",
                args={} if n is None else {"value": const(n)},
                types=[(t, [cls])], texts=True, like="vcg")
    for n in (0, 1, 2):
        el = tuple(S("element%d" % i) for i in range(n))
        tr = [(S("wrap"), "value", el)]

        E.equiv(ctx, "example", "array of %d" % n, "VCG.value_to_trlc",
                "def spec(self, n_typ, value):\n    rv = []\n%s"
                '    return "[" + ", ".join(rv) + "]"\n' % "".join(
                    "    rv.append(self.value_to_trlc(n_typ.element_type, "
                    "value[%d]))\n" % i for i in range(n)),
                setup=lambda ip, st: st,
                args={"value": mk("tuple", *el)},
                types=[(t, ["Array_Type"])], texts=True, like="vcg",
                contracts=("*.value_to_trlc",))

    tuples(ctx)
    for status in ("sat", "unknown"):
        for known in itertools.product(
                ("both", "none") if status == "sat" else
                ("both", "value", "valid", "none"), repeat=2):
            example(ctx, status, known)


def tuples(ctx):
    t = S("n_typ")
    seps = {"AT": ("AT", "@"), "COLON": ("COLON", ":"),
            "SEMICOLON": ("SEMICOLON", ";"), "x": ("IDENTIFIER", "x")}
    shapes = [(("a", False),), (("a", False), ("b", False))]
    for x in seps:
        for o in (True, False):
            shapes.append((("a", False), x, ("b", o)))
    shapes.append((("a", False), "AT", ("b", True), "x", ("c", True)))
    for shape in shapes:
        names = [x for x in shape if isinstance(x, tuple)]
        opt = [n for n, o in names if o]
        for k in range(len(opt) + 1):
            given = [n for n, o in names if not o] + opt[:k]
            items = [S("item%d" % i) for i in range(len(shape))]

            def setup(ip, st):
                ks, vs = [], []
                for it, x in zip(items, shape):
                    if isinstance(x, tuple):
                        st = st._upd("types", it, frozenset(
                            ["Composite_Component"]))
                        st = st.set_attr(it, "name", const(x[0]))
                        st = st.set_attr(it, "optional", const(x[1]))
                        st = st.set_attr(it, "n_typ", S("type_" + x[0]))
                        ks += [const(x[0] + ".valid"), const(x[0] + ".value")]
                        vs += [const(x[0] in given), S("value_" + x[0])]
                    else:
                        st = st._upd("types", it, frozenset(["Separator"]))
                        st = st.set_attr(A(it, "token"), "kind",
                                         const(seps[x][0]))
                        st = st.set_attr(A(it, "token"), "value", const(
                            "x" if x == "x" else NONE.a[1]) if x == "x"
                            else NONE)
                st, d = nodes.dictionary(st, "value", ks, vs)
                return st
            sep = len(names) < len(shape)
            body, out = [], []
            for it, x in zip(items, shape):
                if not isinstance(x, tuple):
                    out.append("'%s'" % seps[x][1])
                elif x[0] in given:
                    out.append("self.value_to_trlc(type_%s, value_%s)" %
                               (x[0], x[0]))
                else:
                    out.pop()
                    break
            src = (" + " if sep else " + ', ' + ").join(out)
            if not sep:
                src = "'(' + " + src + " + ')'"
            syms = [S(p + n) for n, _ in names for p in ("type_", "value_")]
            args = {x.a[0]: x for x in syms}
            args["value"] = mk("obj", "dict", ("shape", "value"))
            E.equiv(ctx, "example", "tuple (%s; given: %s)" % (
                " ".join(x if isinstance(x, str) else x[0] for x in shape),
                ", ".join(given)), "VCG.value_to_trlc",
                "def spec(self, n_typ, value, %s):\n    return %s\n" % (
                    ", ".join(x.a[0] for x in syms), src),
                setup, args, types=[(t, ["Tuple_Type"])] + [
                    (x, ["Builtin_Integer"]) for x in syms
                    if x.a[0].startswith("type_")],
                texts=True, like="vcg",
                contracts=("*.value_to_trlc",),
                returns={("iter_sequence", t): mk("tuple", *items),
                         ("has_separators", t): const(sep)})


def example(ctx, status, known):
    comps = [S("c0"), S("c1")]
    t = A(ME, "n_ctyp")

    def setup(ip, st):
        ks, vs, names = [], [], []
        for i, (c, k) in enumerate(zip(comps, known)):
            st = st._upd("types", c, frozenset(["Composite_Component"]))
            for n in ("value", "valid"):
                names.append(op("cat", op(
                    "call.fully_qualified_name", A(c, "member_of")),
                    const("."), A(c, "name"), const("." + n)))
                if k in ("both", n):
                    ks.append(names[-1])
                    vs.append(S("%s%d" % (n, i)))
        for x, y in itertools.combinations(names, 2):
            st = ip.assume_eq(st, x, y, False) or st
        st, d = nodes.dictionary(st, "values", ks, vs)
        return st
    flags = []
    for k in known:
        flags += [str(k in ("both", n)) for n in ("value", "valid")]
    E.equiv(ctx, "example", "counter-example (%s; known: %s)" % (
        status, ", ".join(known)), "VCG.create_counterexample",
        EXAMPLE % tuple(flags), setup,
        {"status": const(status), "c0": comps[0], "c1": comps[1],
         "values": mk("obj", "dict", ("shape", "values"))},
        texts=True, like="vcg",
        contracts=("*.value_to_trlc", "*.fully_qualified_name"),
        returns={("all_components", t): mk("tuple", *comps)})


def c23(ctx):
    for f in (unary, binary, equality, other_operators, quantifiers, leaves,
              fields, unions, declarations, of_a_type, solved, components,
              surroundings, shown):
        f(ctx)


CHECKS = {"C23": c23}
EXPLAIN = {
    "C23": "Every function which turns a check into verification conditions "
    "is interpreted abstractly, in both modes (on a path, inside of a "
    "formula) and with checks on and off, for every kind of operand; the "
    "graph it builds is flattened to the set of its paths (declarations, "
    "assumptions and goals in order) and compared with the paths of a "
    "reference function written from the language reference manual, as are "
    "the formula, its validity and what is reported about the conditions."}
RULES = {
    "C23": ["operator, unary, equality, membership, condition, quantifier, "
            "leaf, field, union: the formula, the goals in front of it and "
            "the path conditions are those of evaluation",
            "declaration, component, tuple: types and components are "
            "declared first with exactly the constraints of the language",
            "check: order of the checks, and only fatal ones are knowledge",
            "report: one message per failed condition, at its place",
            "example: the counter-example has the solver's value of every "
            "component",
            "name, initial: temporaries differ, a translation begins on a "
            "path with checks on",
            "reach: every record and tuple type is verified once"]}
