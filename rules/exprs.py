"""C08, C09: expressions are grouped as the grammar says and well typed."""
import ast
from sa.base import *         # noqa
from sa.absint import Budget, Undecided
from sa.report import AnchorError
from rules.driver import guarded, oloc

# --------------------------------------------------------------------------
# C09: what each constructor accepts
# --------------------------------------------------------------------------

#: name -> (class, element)
TYPES = {
    "Integer": ("Builtin_Integer", None),
    "Decimal": ("Builtin_Decimal", None),
    "Boolean": ("Builtin_Boolean", None),
    "String": ("Builtin_String", None),
    "Markup_String": ("Builtin_Markup_String", None),
    "enum E": ("Enumeration_Type", None),
    "enum F": ("Enumeration_Type", None),
    "tuple T": ("Tuple_Type", None),
    "tuple V": ("Tuple_Type", None),
    "record A": ("Record_Type", None),
    "record A2 (extends A)": ("Record_Type", None),
    "record B": ("Record_Type", None),
    "record C": ("Record_Type", None),
    "union [A, A2]": ("Union_Type", None),
    "union [A, C]": ("Union_Type", None),
    "union [B, A2]": ("Union_Type", None),
    "union [C]": ("Union_Type", None),
    "Integer array": ("Array_Type", "Integer"),
    "String array": ("Array_Type", "String"),
    "E array": ("Array_Type", "enum E"),
    "A array": ("Array_Type", "record A"),
    "T array": ("Array_Type", "tuple T"),
    "[B, A2] array": ("Array_Type", "union [B, A2]"),
    "null": (None, None),
}
NUM = ("Integer", "Decimal")
STR = ("String", "Markup_String")
REC = {"record A": "A", "record A2 (extends A)": "A2", "record B": "B",
       "record C": "C"}
UNI = {"union [A, A2]": ("A", "A2"), "union [A, C]": ("A", "C"),
       "union [B, A2]": ("B", "A2"), "union [C]": ("C",)}


def members(t):
    return UNI.get(t) or ((REC[t],) if t in REC else None)


def related(a, b):
    return a == b or {a, b} == {"A", "A2"}


def compatible(a, b):
    if a == b:
        return True
    x, y = members(a), members(b)
    if x and y:
        return any(related(p, q) for p in x for q in y)
    return False


def ok_eq(a, b):
    return a == "null" or b == "null" or compatible(a, b)


def elem(t):
    return TYPES[t][1]


def ok_contains(a, b):
    e = elem(b)
    if e is None or a == "null":
        return False
    if a == e or {a, e} == {"record A", "record A2 (extends A)"}:
        return True
    if (a in STR and e in STR) or compatible(a, e):
        return None             # the manual leaves this open
    return False


BINARY = {
    "LOGICAL_AND": lambda a, b: a == b == "Boolean",
    "LOGICAL_OR": lambda a, b: a == b == "Boolean",
    "LOGICAL_XOR": lambda a, b: a == b == "Boolean",
    "LOGICAL_IMPLIES": lambda a, b: a == b == "Boolean",
    "COMP_EQ": ok_eq, "COMP_NEQ": ok_eq,
    "COMP_LT": lambda a, b: a in NUM and a == b,
    "COMP_LEQ": lambda a, b: a in NUM and a == b,
    "COMP_GT": lambda a, b: a in NUM and a == b,
    "COMP_GEQ": lambda a, b: a in NUM and a == b,
    "STRING_CONTAINS": lambda a, b: a in STR and b in STR,
    "STRING_STARTSWITH": lambda a, b: a in STR and b in STR,
    "STRING_ENDSWITH": lambda a, b: a in STR and b in STR,
    "STRING_REGEX": lambda a, b: a in STR and b in STR,
    "ARRAY_CONTAINS": ok_contains,
    "PLUS": lambda a, b: (a in NUM and a == b) or (a in STR and b in STR),
    "MINUS": lambda a, b: a in NUM and a == b,
    "TIMES": lambda a, b: a in NUM and a == b,
    "DIVIDE": lambda a, b: a in NUM and a == b,
    "REMAINDER": lambda a, b: a == b == "Integer",
    "POWER": lambda a, b: a in NUM and b == "Integer",
    "INDEX": lambda a, b: elem(a) is not None and b == "Integer",
}
UNARY = {
    "MINUS": lambda a: a in NUM, "PLUS": lambda a: a in NUM,
    "ABSOLUTE_VALUE": lambda a: a in NUM,
    "LOGICAL_NOT": lambda a: a == "Boolean",
    "STRING_LENGTH": lambda a: a in STR,
    "ARRAY_LENGTH": lambda a: elem(a) is not None,
    "CONVERSION_TO_INT": lambda a: a in NUM,
    "CONVERSION_TO_DECIMAL": lambda a: a in NUM,
}


class TypeClient(TrlcClient):
    inline_depth = 8

    def call_hook(self, ip, st, fi, self_v, args, node):
        if fi.name == "is_subclass_of" and self_v is not None:
            a = self.tname(self_v)
            b = self.tname(args.get(fi.params[1]))
            if a in REC and b in REC:
                r = a == b or (REC[a], REC[b]) == ("A2", "A")
                return [("ret", st, const(r))]
        if fi.name in ("to_string", "fully_qualified_name"):
            return [("ret", st, op("fmt"))]
        return None

    def on_virtual(self, ip, st, name, cands, self_v, args, kw, node):
        if name == "to_string":
            return [("ret", st, op("fmt"))]
        return None

    def tname(self, v):
        if v is not None and v.tag == "sym" and v.a[0].startswith("T:"):
            return v.a[0][2:]
        return None


def tsym(t):
    return NONE if t == "null" else sym("T:" + t)


def setup_types(ip, m):
    st = State()
    ts = [t for t in TYPES if t != "null"]
    for t in ts:
        st = st._upd("types", sym("T:" + t), frozenset([TYPES[t][0]]))
    for t in ts:
        if TYPES[t][1]:
            st = st.set_attr(sym("T:" + t), "element_type",
                             sym("T:" + TYPES[t][1]))
        if t in UNI:
            lst = mk("obj", "list", ("members", t))
            mem = [sym("T:" + r) for u in UNI[t] for r in REC
                   if REC[r] == u]
            st = st.set_attr(lst, "$items", mk("tuple", *mem))
            st = st.set_attr(sym("T:" + t), "types", lst)
    # two types are two objects
    for i, a in enumerate(ts):
        for b in ts[i + 1:]:
            s2 = ip.assume_eq(st, sym("T:" + a), sym("T:" + b), False)
            if isinstance(s2, list):
                s2 = s2[0] if s2 else None
            st = s2 if s2 is not None else st
    return st


def operand(st, m, name, t):
    e = sym("expr:" + name)
    st = st._upd("types", e, m.subclasses("Expression"))
    return st.set_attr(e, "typ", tsym(t)), e


def verdict(outs):
    """-> set of 'accept', 'reject', 'crash'"""
    rv = {}
    for o in outs:
        err = [e for e in o.st.events() if e[0] == "emit"]
        if any(e[1] == "ice" for e in err):
            rv["crash"] = o
        elif any(e[1] == "error" for e in err):
            rv["reject"] = o
        elif o.kind == "return":
            rv["accept"] = o
        else:
            rv["crash"] = o
    return rv


def judge(ctx, rule, con, fi, want, outs):
    v = verdict(outs)
    if want is None:
        if "crash" in v:
            ctx.violation(rule, con, oloc(v["crash"], fi),
                          "%s crashes instead of being accepted or rejected"
                          % con, path_text(v["crash"]))
        return
    key = "accept" if want else "reject"
    other = "reject" if want else "accept"
    if set(v) == {key}:
        ctx.ok(rule, con)
    elif set(v) == {other}:
        o = v[other]
        ctx.violation(rule, con, oloc(o, fi), "%s is %sed but must be %sed" %
                      (con, other, key), path_text(o))
    elif "crash" in v and key not in v:
        o = v["crash"]
        ctx.violation(rule, con, oloc(o, fi), "%s crashes instead of being "
                      "%sed" % (con, key), path_text(o))
    else:
        ctx.undecided(rule, con, "outcomes %s" % ", ".join(sorted(v)))


def run_init(ctx, rule, con, cls, args, st, want, meth="__init__",
             self_attrs=None):
    m = ctx.m
    fi = ctx.func("%s.%s" % (cls, meth))
    ip = Interp(m, TypeClient())
    s = sym("self")
    st = st._upd("types", s, frozenset([cls]))
    st = st._upd("types", sym("mh"), frozenset(["Message_Handler"]))
    st = st._upd("types", sym("location"), m.subclasses("Location"))
    args = dict(args)
    for p in fi.params[1:]:
        if p == "mh":
            args[p] = sym("mh")
        elif p == "location":
            args.setdefault(p, sym("location"))
        elif p == "typ":
            args.setdefault(p, sym("T:Boolean"))
    for k, v in (self_attrs or {}).items():
        st = st.set_attr(s, k, v)
    outs = guarded(ctx, rule, con, lambda: ip.run(fi, args, st))
    if outs is not None:
        ctx.analysed(ip)
        judge(ctx, rule, con, fi, want, outs)


def c09(ctx):
    m = ctx.m
    base = setup_types(Interp(m, TypeClient()), m)
    rule = "accepts"
    for opn, f in sorted(BINARY.items()):
        o = mk("enum", "Binary_Operator", opn)
        for a in TYPES:
            for b in TYPES:
                st, l = operand(base, m, "L", a)
                st, r = operand(st, m, "R", b)
                run_init(ctx, rule, "%s on %s and %s" % (opn, a, b),
                         "Binary_Expression",
                         {"operator": o, "n_lhs": l, "n_rhs": r}, st,
                         f(a, b))
    for opn, f in sorted(UNARY.items()):
        o = mk("enum", "Unary_Operator", opn)
        for a in TYPES:
            st, e = operand(base, m, "X", a)
            run_init(ctx, rule, "%s on %s" % (opn, a), "Unary_Expression",
                     {"operator": o, "n_operand": e}, st, f(a))
    for a in TYPES:
        for b in ("Integer", "Decimal", "String", "Boolean", "null"):
            for c in ("Integer", "Decimal", "String", "null"):
                st, l = operand(base, m, "L", a)
                st, lo = operand(st, m, "LO", b)
                st, hi = operand(st, m, "HI", c)
                run_init(ctx, rule, "range test of %s in %s .. %s" %
                         (a, b, c), "Range_Test",
                         {"n_lhs": l, "n_lower": lo, "n_upper": hi}, st,
                         a in NUM and a == b == c)
    for a in TYPES:
        for b in ("Boolean", "String", "null"):
            st, x = operand(base, m, "X", b)
            st, y = operand(st, m, "Y", a)
            lst = mk("obj", "list", ("choices",))
            for items, w in (((y,), a == "Boolean"),
                             ((x, y), a == b == "Boolean"),
                             ((y, x), a == b == "Boolean")):
                s2 = st.set_attr(lst, "$items", mk("tuple", *items))
                run_init(ctx, rule, "oneof(%s)" % ", ".join(
                    a if i is y else b for i in items), "OneOf_Expression",
                    {"choices": lst}, s2, w)
    conditional(ctx, rule, base)
    for a in TYPES:
        st, e = operand(base, m, "B", a)
        nv = sym("nvar")
        st = st._upd("types", nv, frozenset(["Quantified_Variable"]))
        ns = sym("nsrc")
        st = st._upd("types", ns, frozenset(["Name_Reference"]))
        run_init(ctx, rule, "quantifier with body of type %s" % a,
                 "Quantified_Expression",
                 {"n_variable": nv, "n_source": ns, "n_expr": e,
                  "universal": TRUE}, st, a == "Boolean")
    field_access(ctx, rule, base)
    ctx.require(rule, 5000, "operand type combinations")
    from rules import guards
    guards.expressions(ctx)


def conditional(ctx, rule, base):
    m = ctx.m
    tok = sym("tok")
    st0 = base._upd("types", tok, m.subclasses("Token"))
    st0 = st0.set_attr(tok, "kind", const("KEYWORD"))
    st0 = st0._upd("types", sym("tokloc"), m.subclasses("Location"))
    st0 = st0.set_attr(tok, "location", sym("tokloc"))
    for a in TYPES:
        st, c = operand(st0, m, "C", a)
        st, e = operand(st, m, "E", "Integer")
        st = st.set_attr(tok, "value", const("if"))
        run_init(ctx, rule, "condition of type %s" % a, "Action",
                 {"t_kind": tok, "n_condition": c, "n_expression": e}, st,
                 a == "Boolean")
        for b in TYPES:
            if a == "null":
                continue
            st, e = operand(st0, m, "E", b)
            act = sym("action")
            st = st._upd("types", act, frozenset(["Action"]))
            st = st.set_attr(act, "n_expr", e)
            st = st.set_attr(act, "kind", const("elsif"))
            lst = mk("obj", "list", ("actions",))
            st = st.set_attr(lst, "$items", mk("tuple", sym("action0")))
            at = {"typ": tsym(a), "actions": lst, "else_expr": NONE}
            run_init(ctx, rule, "elsif of type %s after %s" % (b, a),
                     "Conditional_Expression", {"n_action": act}, st,
                     a == b, "add_elsif", at)
            run_init(ctx, rule, "else of type %s after %s" % (b, a),
                     "Conditional_Expression", {"n_expr": e}, st,
                     a == b, "set_else_part", at)


def field_access(ctx, rule, base):
    """the prefix of a field access has the type that owns the field"""
    m = ctx.m
    for own in ("tuple T", "record A", "record A2 (extends A)"):
        for a in TYPES:
            st, e = operand(base, m, "P", a)
            f = sym("field")
            st = st._upd("types", f, frozenset(["Composite_Component"]))
            st = st.set_attr(f, "member_of", tsym(own))
            st = st.set_attr(f, "n_typ", tsym("Integer"))
            if a == "null":
                want = False
            elif own in REC and a in REC:
                want = a == own or (REC[a], REC[own]) == ("A2", "A")
            elif a in UNI:
                continue            # goes through is_union_access
            else:
                want = a == own
            run_init(ctx, rule, "access to a field of %s in %s" % (own, a),
                     "Field_Access_Expression",
                     {"n_prefix": e, "n_field": f,
                      "is_union_access": FALSE, "is_universal": TRUE}, st,
                     want)


CHECKS = {"C09": c09}
EXPLAIN = {"C09": "Abstract interpretation of the expression constructors "
           "for every operator and combination of operand types, and of the "
           "parsing functions which look at types themselves."}
RULES = {"C09": ["accepts: a constructor reports an error exactly for the "
                 "combinations of operand types the manual excludes",
                 "expression: names, prefixes, quantifiers and branches have "
                 "the types the manual demands on every path of the "
                 "grammar"]}
