"""What the constructors of the syntax tree keep."""
import ast
import itertools
from sa.base import *          # noqa
from sa.absint import Undecided, Budget
from sa.equiv import EqClient, canon, cshow, clear, spec_function, \
    new_atoms, impossible
from sa.equiv import equiv
from rules.core import attrs, shared, S, ME

NODE = {"location": "location"}
TYP = {"location": "location", "typ": "typ"}
NAMED = {"name": "name", "location": "location"}
MEMBER = dict(NAMED, n_typ="n_typ")
TOKEN = {"location": "token.location"}

#: class -> attribute -> what it has to hold
DECLARATIONS = {
    "Record_Type": dict(NAMED, description="description",
                        n_package="package", parent="n_parent",
                        is_abstract="is_abstract", frozen="{}", checks="[]",
                        is_final="n_parent.is_final if n_parent else False",
                        components="Symbol_Table(n_parent.components if "
                        "n_parent else None)"),
    "Tuple_Type": dict(NAMED, description="description",
                       n_package="package", separators="[]", checks="[]",
                       components="Symbol_Table()"),
    "Composite_Component": dict(MEMBER, description="description",
                                member_of="member_of", optional="optional"),
    "Separator": dict(TOKEN, token="token"),
    "Enumeration_Type": dict(NAMED, description="description",
                             n_package="package",
                             literals="Symbol_Table()"),
    "Enumeration_Literal_Spec": dict(NAMED, description="description",
                                     n_typ="enum"),
    "Package": dict(NAMED, declared_late="declared_late", symbols="table",
                    pre="table = Symbol_Table()\n"
                    "    table.make_visible(builtin_stab)"),
    "Section": dict(NAMED, parent="parent"),
    "Check": {"location": "t_message.location", "n_type": "n_type",
              "n_expr": "n_expr", "n_anchor": "n_anchor",
              "severity": "severity", "extrainfo": "extrainfo",
              "message": "t_message.value.replace('\\n', ' ')"},
    "Check_Block": dict(NODE, n_typ="n_typ", checks="[]"),
    "Array_Type": dict(NODE, lower_bound="lower_bound",
                       upper_bound="upper_bound", loc_lower="loc_lower",
                       loc_upper="loc_upper", element_type="element_type"),
    "Union_Type": dict(NODE, types="types"),
}
OBJECTS = {
    "Record_Object": dict(MEMBER, section="section", n_package="n_package",
                          field="{c.name: Implicit_Null(self, c) for c in "
                          "n_typ.all_components()}",
                          pre="self.location = location"),
    "Record_Reference": dict(TYP, name="name", package="package",
                             target="None"),
    "Array_Aggregate": dict(TYP, value="[]"),
    "Tuple_Aggregate": dict(TYP, value="{c.name: Implicit_Null(self, c) for "
                            "c in typ.components.values()}",
                            pre="self.location = location"),
    "Implicit_Null": {"location": "composite_object.location",
                      "typ": "None"},
}
LITERALS = {
    "Null_Literal": dict(TOKEN, typ="None"),
    "Integer_Literal": dict(TOKEN, typ="typ", value="token.value"),
    "Decimal_Literal": dict(TOKEN, typ="typ", value="token.value"),
    "String_Literal": dict(TOKEN, typ="typ", value="token.value",
                           has_references="isinstance(typ, "
                           "Builtin_Markup_String)"),
    "Boolean_Literal": dict(TOKEN, typ="typ",
                            value="token.value == 'true'"),
    "Enumeration_Literal": dict(NODE, typ="literal.n_typ", value="literal"),
}
EXPRESSIONS = {
    "Name_Reference": dict(NODE, typ="entity.n_typ", entity="entity"),
    "Unary_Expression": dict(TYP, operator="operator",
                             n_operand="n_operand"),
    "Binary_Expression": dict(TYP, operator="operator", n_lhs="n_lhs",
                              n_rhs="n_rhs"),
    "Field_Access_Expression": dict(NODE, typ="n_field.n_typ",
                                    n_prefix="n_prefix", n_field="n_field",
                                    is_union_access="is_union_access",
                                    is_universal="is_universal"),
    "Range_Test": dict(TYP, n_lhs="n_lhs", n_lower="n_lower",
                       n_upper="n_upper"),
    "OneOf_Expression": dict(TYP, choices="choices"),
    "Action": {"location": "t_kind.location", "kind": "t_kind.value",
               "n_cond": "n_condition", "n_expr": "n_expression"},
    "Conditional_Expression": dict(NODE, typ="if_action.n_expr.typ",
                                   actions="[if_action]", else_expr="None"),
    "Quantified_Expression": dict(TYP, universal="universal",
                                  n_var="n_variable", n_source="n_source",
                                  n_expr="n_expr"),
}
BUILTIN = {"Builtin_" + n: {"name": repr(n)} for n in (
    "Integer", "Decimal", "Boolean", "String", "Markup_String")}
BUILTIN["Builtin_Function"] = {"name": "name", "arity": "arity",
                               "arity_at_least": "arity_at_least"}
UNIT = {"Compilation_Unit": {"package": "None", "raw_imports": "[]",
                             "items": "[]"}}
TABLES = {"Symbol_Table": {"parent": "parent", "imported": "[]",
                           "table": "OrderedDict()"},
          "Scope": {"scope": "[]"}}


def read_somewhere(m, name):
    """an attribute of that name is used by the code"""
    cached = m.__dict__.setdefault("_read_attrs", None)
    if cached is None:
        cached = set()
        for mi in m.modules.values():
            for n in ast.walk(mi.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Load):
                    cached.add(n.attr)
        m._read_attrs = cached
    return name in cached


#: the components of the type of a record or tuple
COMPONENTS = tuple(sym("component%d" % i) for i in range(2))


def client():
    c = EqClient(("*.ensure_type", "*.is_subclass_of"), messages=False)
    c.returns = {
        ("all_components", sym("n_typ")): mk("tuple", *COMPONENTS),
        ("values", mk("attr", sym("typ"), "components", 0)):
        mk("tuple", *COMPONENTS),
        ("values", mk("attr", sym("n_typ"), "components", 0)):
        mk("tuple", *COMPONENTS[1:])}
    c.items = {op("values", mk("attr", mk(
        "attr", sym("n_typ"), "components", 0), "table", 0)):
        list(COMPONENTS[1:]), op("values", mk("attr", mk(
        "attr", sym("typ"), "components", 0), "table", 0)):
        list(COMPONENTS)}
    return c


#: what the parameters are
PARAMETERS = {
    "Record_Object": [("n_typ", "Record_Type")],
    "Tuple_Aggregate": [("typ", "Tuple_Type")],
    "Package": [("builtin_stab", "Symbol_Table")]}


def stored(ctx, rule, cls, spec, types=()):
    m = ctx.m
    spec = dict(spec)
    pre = spec.pop("pre", "pass")
    for i, c in enumerate(COMPONENTS):
        types += ((c, ["Composite_Component"]),)
    for n, t in PARAMETERS.get(cls, ()):
        types += ((sym(n), [t]),)
        types += ((mk("attr", sym(n), "components", 0), ["Symbol_Table"]),)
    ci = m.classes.get(cls)
    fi = ci.lookup("__init__") if ci is not None else None
    if fi is None:
        ctx.undecided(rule, cls, "no such class or constructor")
        return
    me = sym("self")
    env = {p: sym(p) for p in fi.params}
    missing = {x.id for e in spec.values() for x in ast.walk(ast.parse(e))
               if isinstance(x, ast.Name)} - set(fi.params) - {
        "isinstance", "c", "table", "OrderedDict"} - set(m.classes)
    st0 = State()._upd("types", me, frozenset([cls]))
    for v, ts in types:
        st0 = st0._upd("types", v, frozenset(x for t in ts
                                             for x in m.subclasses(t)))
    names = sorted(spec)
    src = "def spec(%s):\n    %s\n    return (%s,)\n" % (
        ", ".join(fi.params), pre, ", ".join(spec[n] for n in names))
    if missing:
        ctx.undecided(rule, cls, "parameters have other names: %s" %
                      ", ".join(sorted(missing)))
        return
    try:
        ip = Interp(m, client())
        outs = ip.run(fi, env, st0)
        ctx.analysed(ip)
        free = Interp(m, client()).run(spec_function(m, src, "ast"), env,
                                       st0)
    except (Undecided, Budget, ValueError, TypeError, AttributeError,
            KeyError, IndexError) as e:
        ctx.undecided(rule, cls, e)
        return
    vocab = set()
    for o in free:
        vocab |= new_atoms(st0, o.st)
    good = {}
    done = [o for o in outs if o.kind == "return"]
    if not done:
        ctx.undecided(rule, cls, "the constructor has no normal end")
    for o in done:
        start = o.st.copy()
        start.heap, start.aver, start.cver = st0.heap, st0.aver, st0.cver
        start.ts, start.trace, start.env = (), None, {}
        rip = Interp(m, client())
        try:
            res = [r for r in rip.run(spec_function(m, src, "ast"), env,
                                      start)
                   if r.kind == "return" and not impossible(r.st)]
        except (Undecided, Budget) as e:
            ctx.undecided(rule, cls, e)
            continue
        for r in res:
            want = rip.norm(r.st, r.val)
            for n, w in zip(names, want.a):
                got = o.st.heap.get((me, n))
                if got is None:
                    if read_somewhere(m, n) and not assigned(ci, n):
                        good[n] = ("bad", "%s of a new %s is never stored "
                                   "where the rule is: %s" % (
                                       n, cls, cshow(canon(rip, r.st, w))),
                                   o)
                    else:
                        good[n] = ("undecided", "%s is not stored" % n)
                    continue
                st = o.st.copy()
                st.truth = dict(r.st.truth)
                a, b = canon(ip, st, got), canon(rip, r.st, w)
                if a == b:
                    good.setdefault(n, ("ok", cshow(b)))
                    continue
                odd = [x for x in new_atoms(st0, o.st) if x not in vocab and
                       x not in ip.c.asserted and not clear(x, ())]
                g = ip.norm(o.st, got)
                if odd or ip.notes or ("open" in str(a)[:8]) or \
                        not (plain(g) or g.tag == "obj"):
                    good[n] = ("undecided", "%s holds %s" % (n, cshow(a)))
                    continue
                good[n] = ("bad", "%s of a new %s is %s where the rule is: "
                           "%s" % (n, cls, cshow(a), cshow(b)), o)
    for n, g in sorted(good.items()):
        what = "%s.%s" % (cls, n)
        if g[0] == "ok":
            ctx.ok(rule, "%s is %s" % (what, g[1][:70]))
        elif g[0] == "undecided":
            ctx.undecided(rule, what, g[1])
        else:
            ctx.violation(rule, what, writer(m, ci, n) or fi.loc(
                g[2].node), g[1], path_text(g[2]))


#: they remove something from a text or list
CUTS = {".strip", ".lstrip", ".rstrip", "slice", ".lower", ".upper",
        ".casefold", ".title", ".capitalize", ".replace", "replace", "index"}


def plain(v):
    for x in subterms(v):
        if x.tag == "op" and x.a[0] not in CUTS and not clear(
                mk("op", x.a[0]), ()):
            return False
    return True


def assigned(ci, name):
    """some method, property or class attribute provides the attribute"""
    for c in ci.mro():
        if name in c.methods:
            return True
        for x in ast.walk(c.node):
            if isinstance(x, ast.Attribute) and x.attr == name and \
                    isinstance(x.ctx, ast.Store):
                return True
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and x.func.id == "setattr":
                return True
            if isinstance(x, ast.Name) and x.id == name and isinstance(
                    x.ctx, ast.Store):
                return True
    return False


def writer(m, ci, name):
    """where the attribute is assigned"""
    for c in ci.mro():
        f = c.methods.get("__init__")
        if f is None:
            continue
        for x in ast.walk(f.node):
            for t in (x.targets if isinstance(x, ast.Assign) else
                      [x.target] if isinstance(x, ast.AnnAssign) else []):
                if isinstance(t, ast.Attribute) and t.attr == name:
                    return f.loc(x)
    return None


def keep(ctx, *groups):
    for g in groups:
        for cls, spec in g.items():
            stored(ctx, "node", cls, spec)


# --------------------------------------------------------------------------
# methods which complete a node
# --------------------------------------------------------------------------
ELSIF = """
def spec(self, mh, n_action):
    n_action.n_expr.ensure_type(mh, self.typ)
    self.actions.append(n_action)
"""
ELSE = """
def spec(self, mh, n_expr):
    n_expr.ensure_type(mh, self.typ)
    self.else_expr = n_expr
"""
SEQUENCE = """
def drive(self):
    rv = []
    for x in self.iter_sequence():
        rv.append(x)
    return rv
"""
IN_ORDER = """
def spec(self, parts):
    rv = []
    for x in parts:
        rv.append(x)
    return rv
"""
RESOLVE_ALL = """
def spec(self, mh, parts):
    for x in parts:
        x.resolve_references(mh)
"""
FIELD_MAP = """
def spec(self, lists):
    rv = {}
    for comps in lists:
        for c in comps:
            if c.name not in rv:
                rv[c.name] = {"component": c, "n_typ": c.n_typ, "count": 1,
                              "total": len(lists),
                              "optional_in_any": c.optional}
            else:
                rv[c.name]["count"] += 1
                if rv[c.name]["n_typ"] is not c.n_typ:
                    rv[c.name]["n_typ"] = None
                if c.optional:
                    rv[c.name]["optional_in_any"] = True
    return rv
"""


def dictionary(st, name, keys, vals):
    o = mk("obj", "dict", ("shape", name))
    return st.set_attr(o, "$items", mk("tuple", *[
        mk("tuple", k, v) for k, v in zip(keys, vals)])), o


def branches(ctx):
    """conditional expressions"""
    both = ("*.ensure_type",)
    equiv(ctx, "node", "add_elsif", "Conditional_Expression.add_elsif",
          ELSIF, contracts=both, raising=both, logged=both)
    equiv(ctx, "node", "set_else_part",
          "Conditional_Expression.set_else_part", ELSE, contracts=both,
          raising=both, logged=both)


def tuples(ctx):
    equiv(ctx, "node", "add_separator", "Tuple_Type.add_separator",
          "def spec(self, n_separator):\n"
          "    self.separators.append(n_separator)\n")
    comp_d = mk("attr", mk("attr", ME, "components", 0), "table", 0)
    for nc, ns in ((1, 0), (2, 0), (3, 0), (2, 1), (3, 2)):
        comps = [S("component%d" % i) for i in range(nc)]
        seps = [S("separator%d" % i) for i in range(ns)]
        parts = []
        for i, c in enumerate(comps):
            parts.append(c)
            if i < ns:
                parts.append(seps[i])
        tr = [(ME, "separators", seps)] + [
            (c, "$type", ["Composite_Component"]) for c in comps] + [
            (s, "$type", ["Separator"]) for s in seps]
        w = " (%d components, %d separators)" % (nc, ns)
        comps_of = mk("attr", ME, "components", 0)
        equiv(ctx, "node", "Tuple_Type.iter_sequence" + w,
              "Tuple_Type.iter_sequence", IN_ORDER, attrs(*tr),
              {"parts": mk("tuple", *parts)}, drive=SEQUENCE,
              shared=shared(tr), items={op("values", comp_d): comps},
              contracts=("Symbol_Table.values",),
              types=[(ME, ["Tuple_Type"])],
              returns={("values", comps_of): mk("tuple", *comps)})
        if nc < 3:
            equiv(ctx, "node", "Tuple_Type.has_separators" + w,
                  "Tuple_Type.has_separators",
                  "def spec(self):\n    return %s\n" % bool(ns),
                  attrs(*tr), shared=shared(tr), truthy=True)


def unions(ctx):
    """components of the members of a union"""
    shapes = (((0,),), ((0, 1),), ((0,), (0,)), ((0, 1), (0,)),
              ((0,), (0, 1)), ((0,), (0,), (0,)), ((0,), (1,)))
    for shape, flags in ((s, f) for s in shapes for f in itertools.product(
            (False, True), repeat=sum(len(t) for t in s))):
        flags_left = list(flags)
        types = [S("member%d" % i) for i in range(len(shape))]
        lists = []
        tr = [(ME, "types", types), (ME, "_field_map", NONE)]
        for i, t in enumerate(shape):
            tr.append((types[i], "$type", ["Record_Type"]))
            cs = []
            for j in t:
                c = S("component%d.%d" % (i, j))
                tr.append((c, "$type", ["Composite_Component"]))
                tr.append((c, "name", const("name%d" % j)))
                tr.append((c, "optional", const(flags_left.pop())))
                cs.append(c)
            lists.append(mk("tuple", *cs))
        equiv(ctx, "node", "get_field_map %s %s" % (shape, flags),
              "Union_Type.get_field_map", FIELD_MAP, attrs(*tr),
              {"lists": mk("tuple", *lists)}, shared=shared(tr), only=True,
              contracts=("*.all_components",),
              returns={("all_components", t): l
                       for t, l in zip(types, lists)})


def resolution(ctx):
    """every reference inside a value is resolved"""
    calls = ("*.resolve_references", "Symbol_Table.lookup",
             "Symbol_Table.lookup_direct")
    for n in (0, 1, 2):
        el = [S("element%d" % i) for i in range(n)]
        keys = [const("name%d" % i) for i in range(n)]
        ty = [(e, ["Expression"]) for e in el]
        for cls, at, dic in (("Array_Aggregate", "value", False),
                             ("Tuple_Aggregate", "value", True),
                             ("String_Literal", "references", False),
                             ("Record_Object", "field", True)):
            def setup(ip, st):
                if not dic:
                    return attrs((ME, at, el))(ip, st)
                st, d = dictionary(st, "d", keys, el)
                return st.set_attr(ME, at, d)
            q = cls + ".resolve_references"
            # the method under test is not replaced by its contract
            equiv(ctx, "reference", "%s (%d values)" % (q, n), q,
                  RESOLVE_ALL, setup, {"parts": mk("tuple", *el)},
                  contracts=calls, raising=calls, logged=calls,
                  types=ty + [(ME, [cls])],
                  shared=[mk("obj", "dict", ("shape", "d")),
                          mk("obj", "list", ("shape", "0"))])


def collected(ctx):
    """what is read is appended"""
    for q, src in (
            ("Array_Aggregate.append",
             "def spec(self, value):\n    self.value.append(value)\n"),
            ("Compilation_Unit.add_item",
             "def spec(self, node):\n    self.items.append(node)\n"),
            ("Check_Block.add_check",
             "def spec(self, n_check):\n    self.checks.append(n_check)\n"),
            ("Composite_Type.add_check",
             "def spec(self, n_check):\n    self.checks.append(n_check)\n"),
            ("Tuple_Aggregate.assign",
             "def spec(self, field, value):\n"
             "    self.value[field] = value\n"),
            ("Symbol_Table.make_visible",
             "def spec(self, stab):\n    self.imported.append(stab)\n")):
        equiv(ctx, "node", q, q, src)


NAME = """
def spec(self, mh, context, gstab):
    if context is None:
        mh.error(self.location, "")
    return context[self.entity.name].evaluate(mh, context, gstab)
"""
ELEMENTS = """
def spec(self, mh, context, gstab, parts):
    return Value(self.location,
                 [x.evaluate(mh, context, gstab) for x in parts], self.typ)
"""
FIELDS = """
def spec(self, mh, context, gstab, keys, parts):
    rv = {}
    for k, x in zip(keys, parts):
        rv[k] = x.evaluate(mh, context, gstab)
    return Value(self.location, rv, self.typ)
"""
VALUES = {"Integer_Literal": "self.value", "Decimal_Literal": "self.value",
          "String_Literal": "self.value", "Boolean_Literal": "self.value",
          "Enumeration_Literal": "self.value", "Null_Literal": None,
          "Implicit_Null": None}


def leaves(ctx):
    """names, literals and aggregates"""
    calls = ("*.evaluate",)
    equiv(ctx, "leaf", "Name_Reference.evaluate", "Name_Reference.evaluate",
          NAME, contracts=calls, raising=calls, logged=calls,
          types=[(ME, ["Name_Reference"])])
    for cls, v in sorted(VALUES.items()):
        equiv(ctx, "leaf", cls + ".evaluate", cls + ".evaluate",
              "def spec(self, mh, context, gstab):\n"
              "    return Value(self.location, %s, %s)\n" % (
                  v, "self.typ" if v else "None"), types=[(ME, [cls])])
    for n in (0, 1, 2):
        el = [S("element%d" % i) for i in range(n)]
        keys = [const("name%d" % i) for i in range(n)]
        ty = [(e, ["Expression"]) for e in el]
        for cls in ("Array_Aggregate", "Tuple_Aggregate"):
            def setup(ip, st):
                if cls == "Array_Aggregate":
                    return attrs((ME, "value", el))(ip, st)
                st, d = dictionary(st, "d", keys, el)
                return st.set_attr(ME, "value", d)
            equiv(ctx, "leaf", "%s.evaluate (%d)" % (cls, n),
                  cls + ".evaluate", ELEMENTS if cls == "Array_Aggregate"
                  else FIELDS, setup, {"parts": mk("tuple", *el),
                                       "keys": mk("tuple", *keys)},
                  contracts=calls, raising=calls, logged=calls,
                  types=ty + [(ME, [cls])],
                  shared=[mk("obj", "dict", ("shape", "d")),
                          mk("obj", "list", ("shape", "0"))])


VALUES_DRIVE = """
def drive(self, subtype):
    rv = []
    for x in self.values(subtype):
        rv.append(x)
    return rv
"""
VALUES_SPEC = """
def spec(self, subtype, inherited, keys, entities):
    rv = []
    for x in inherited:
        if subtype is None or isinstance(x, subtype):
            rv.append(x)
    for k, x in zip(keys, entities):
        if subtype is None or isinstance(x, subtype):
            rv.append(x)
    return rv
"""


def values(ctx):
    """the entities of a table, in the order of their names"""
    up = S("outer")
    for n in (0, 1, 2):
        for p in (0, 1):
            el = [S("entity%d" % i) for i in range(n)]
            keys = [const("name%d" % i) for i in range(n)]
            out = [S("outer%d" % i) for i in range(p)]

            def setup(ip, st):
                st = st.set_attr(ME, "parent", up if p else NONE)
                st, d = dictionary(st, "d", keys, el)
                st = st.set_attr(ME, "table", d)
                if p:
                    st = st._upd("types", up, frozenset(["Symbol_Table"]))
                    st = st.set_attr(up, "parent", NONE)
                    st, d2 = dictionary(st, "d2", [const("outer")], out)
                    st = st.set_attr(up, "table", d2)
                return st
            for sub in (NONE, mk("class", "Record_Type")):
                equiv(ctx, "iteration", "Symbol_Table.values (%d entities, "
                      "%d inherited, %s)" % (n, p, show(sub)),
                      "Symbol_Table.values", VALUES_SPEC, setup,
                      {"inherited": mk("tuple", *out),
                       "keys": mk("tuple", *keys), "subtype": sub,
                       "entities": mk("tuple", *el)}, drive=VALUES_DRIVE,
                      types=[(ME, ["Symbol_Table"])] + [
                          (e, ["Entity"]) for e in el + out],
                      shared=[mk("obj", "dict", ("shape", "d")),
                              mk("obj", "dict", ("shape", "d2"))])


def c02(ctx):
    leaves(ctx)
    keep(ctx, LITERALS, EXPRESSIONS)
    branches(ctx)


def c10(ctx):
    keep(ctx, EXPRESSIONS, LITERALS, BUILTIN)
    branches(ctx)
    unions(ctx)


def c12(ctx):
    keep(ctx, DECLARATIONS, OBJECTS, LITERALS, UNIT)
    tuples(ctx)
    collected(ctx)


def c13(ctx):
    keep(ctx, OBJECTS, {k: DECLARATIONS[k] for k in (
        "Record_Type", "Composite_Component", "Array_Type", "Union_Type")})
    resolution(ctx)


def c15(ctx):
    keep(ctx, DECLARATIONS)
    tuples(ctx)


def c16(ctx):
    keep(ctx, TABLES, {k: DECLARATIONS[k] for k in (
        "Record_Type", "Tuple_Type", "Enumeration_Type", "Package")})
    collected(ctx)


def unchecked(ctx):
    """types without checks of their own"""
    for cls in ("Builtin_Integer", "Builtin_String", "Enumeration_Type",
                "Record_Type", "Union_Type"):
        equiv(ctx, "everything", cls + ".perform_type_checks",
              cls + ".perform_type_checks",
              "def spec(self, mh, value, gstab):\n    return True\n",
              types=[(ME, [cls])], truthy=True)


def c03(ctx):
    leaves(ctx)


def c17(ctx):
    unchecked(ctx)
    leaves(ctx)
    keep(ctx, {k: DECLARATIONS[k] for k in ("Check", "Record_Type")})


def c18(ctx):
    values(ctx)
    keep(ctx, LITERALS, OBJECTS)
