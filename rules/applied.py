"""C17, C18: checks are applied to everything; the API shows what is stored."""
import itertools
from sa.base import *          # noqa
from sa.equiv import equiv
from rules import nodes
from rules.core import attrs, shared, closed, S, ME

PERFORM = """
def spec(self, mh, composite_object, gstab):
    if isinstance(composite_object, Record_Object):
        values = composite_object.field
    else:
        values = composite_object.value
    result = self.n_expr.evaluate(mh, values, gstab)
    if self.n_anchor is None or values[self.n_anchor.name] is None:
        where = composite_object.location
    else:
        where = values[self.n_anchor.name].location
    if result.value is None:
        mh.error(where, "null")
    if result.value:
        return True
    if self.severity == "warning":
        mh.warning(location=where, message=self.message,
                   explanation=self.extrainfo, user=True)
        return True
    mh.error(location=where, message=self.message,
             explanation=self.extrainfo, fatal=self.severity == "fatal",
             user=True)
    return False
"""


def perform(ctx):
    res = op("call.evaluate", mk("attr", ME, "n_expr", 0))
    for sev in ("warning", "error", "fatal"):
        for anchor in ("no anchor", "anchor with a value",
                       "anchor without a value"):
            for cls in ("Record_Object", "Tuple_Aggregate"):
                def setup(ip, st):
                    obj = S("composite_object")
                    st = st.set_attr(ME, "severity", const(sev))
                    if anchor == "no anchor":
                        return st.set_attr(ME, "n_anchor", NONE)
                    st = st.set_attr(ME, "n_anchor", S("anchor"))
                    val = op("index", mk("attr", obj, "field" if cls ==
                                         "Record_Object" else "value", 0),
                             mk("attr", S("anchor"), "name", 0), 0)
                    null = {"Implicit_Null"}
                    if anchor == "anchor with a value":
                        return st._upd("types", val, frozenset(
                            set(ip.m.subclasses("Expression")) - null))
                    # created with the location of its owner
                    st = st._upd("types", val, frozenset(null))
                    return st.set_attr(val, "location", mk(
                        "attr", obj, "location", 0))
                equiv(ctx, "outcome", "Check.perform (%s, %s, %s)" % (
                    sev, anchor, cls),
                    "Check.perform", PERFORM, setup,
                    contracts=("*.evaluate", "*.to_string"),
                    raising=("*.evaluate",), logged=("*.evaluate",),
                    types=[(S("composite_object"), [cls]),
                           (S("anchor"), ["Composite_Component"])],
                    message_args=("user", "explanation", "message",
                                  "fatal"))


ALL = """
def spec(self, mh, gstab, comps, checks):
    ok = True
    for c in comps:
        if not c.n_typ.perform_type_checks(mh, self.field[c.name], gstab):
            ok = False
    for k in checks:
        if not k.perform(mh, self, gstab):
            ok = False
    return ok
"""
TUPLE = """
def spec(self, mh, value, gstab, comps, checks):
    if not isinstance(value, Tuple_Aggregate):
        return True
    ok = True
    for c in comps:
        if not c.n_typ.perform_type_checks(mh, value.value[c.name], gstab):
            ok = False
    for k in checks:
        if not k.perform(mh, value, gstab):
            ok = False
    return ok
"""
ARRAY = """
def spec(self, mh, value, gstab, elements):
    if not isinstance(value, Array_Aggregate):
        return True
    ok = True
    for e in elements:
        if not self.element_type.perform_type_checks(mh, e, gstab):
            ok = False
    return ok
"""
CALLS = ("*.perform_type_checks", "*.perform", "*.all_components",
          "*.iter_checks")
COLLECT = """
def drive(self):
    rv = []
    for x in self.iter_checks():
        rv.append(x)
    return rv
"""
IN_ORDER = """
def spec(self, lists):
    rv = []
    for l in lists:
        for x in l:
            rv.append(x)
    return rv
"""


def syms(name, n, cls=None):
    return [S("%s%d" % (name, i)) for i in range(n)]


def applied(ctx):
    for nc in (0, 1, 2):
        for nk in (0, 1, 2):
            if nc == nk == 2:
                continue
            comps = syms("component", nc)
            checks = syms("check", nk)
            w = " (%d components, %d checks)" % (nc, nk)
            ty = [(c, ["Composite_Component"]) for c in comps] + \
                [(k, ["Check"]) for k in checks]
            typ = mk("attr", ME, "n_typ", 0)
            args = {"comps": mk("tuple", *comps),
                    "checks": mk("tuple", *checks)}
            for c in comps:
                ty.append((mk("attr", c, "n_typ", 0), ["Type"]))
            equiv(ctx, "everything", "Record_Object.perform_checks" + w,
                  "Record_Object.perform_checks", ALL,
                  attrs((typ, "checks", checks[1:])), args,
                  contracts=CALLS + ("Symbol_Table.values",), raising=CALLS[:2], logged=CALLS[:2],
                  types=ty + [(typ, ["Record_Type"])], truthy=True,
                  shared=shared([(typ, "checks", checks[1:])]),
                  items={op("values", mk("attr", mk(
                      "attr", typ, "components", 0), "table", 0)):
                      comps[1:]},
                  returns={("all_components", typ): mk("tuple", *comps),
                           ("values", mk("attr", typ, "components", 0)):
                           mk("tuple", *comps[1:]),
                           ("iter_checks", typ): mk("tuple", *checks)})
            comp_d = mk("attr", ME, "components", 0)
            vals = mk("tuple", *comps)
            equiv(ctx, "everything", "Tuple_Type.perform_type_checks" + w,
                  "Tuple_Type.perform_type_checks", TUPLE,
                  attrs((ME, "checks", checks)), args,
                  shared=shared([(ME, "checks", checks)]),
                  contracts=CALLS + ("Symbol_Table.values",),
                  raising=CALLS[:2], logged=CALLS[:2], types=ty,
                  truthy=True,
                  returns={("all_components", ME): vals,
                           ("values", comp_d): vals,
                           ("iter_checks", ME): mk("tuple", *checks)},
                  items={op("values", mk("attr", comp_d, "table", 0)):
                         comps})
    for n in (0, 1, 2, 3):
        el = syms("element", n)
        tr = [(S("value"), "value", el)]
        equiv(ctx, "everything", "Array_Type.perform_type_checks (%d "
              "elements)" % n, "Array_Type.perform_type_checks", ARRAY,
              attrs(*tr), {"elements": mk("tuple", *el)}, contracts=CALLS,
              raising=CALLS[:1], logged=CALLS[:1], shared=shared(tr),
              types=[(mk("attr", ME, "element_type", 0), ["Type"])] + [
                  (e, ["Expression"]) for e in el], truthy=True)
    for n in (0, 1, 2):
        ts = [ME] + syms("ancestor", n)
        own = [[S("check%d.%d" % (i, j)) for j in range(2)]
               for i in range(n + 1)]
        tr = []
        for i, t in enumerate(ts):
            tr.append((t, "checks", own[i]))
            tr.append((t, "parent", ts[i + 1] if i < n else NONE))
            tr.append((t, "$type", ["Record_Type"]))
        equiv(ctx, "order", "Record_Type.iter_checks (%d ancestors)" % n,
              "Record_Type.iter_checks", IN_ORDER, attrs(*tr),
              {"lists": mk("tuple", *[mk("tuple", *l)
                                      for l in reversed(own)])},
              drive=COLLECT, shared=shared(tr))
    tr = [(ME, "checks", syms("check", 2)), (ME, "$type", ["Tuple_Type"])]
    equiv(ctx, "order", "Tuple_Type.iter_checks",
          "Composite_Type.iter_checks", IN_ORDER, attrs(*tr),
          {"lists": mk("tuple", mk("tuple", *syms("check", 2)))},
          drive=COLLECT, shared=shared(tr))
    equiv(ctx, "order", "add_check", "Composite_Type.add_check",
          "def spec(self, n_check):\n    self.checks.append(n_check)\n")


def c17(ctx):
    nodes.c17(ctx)
    perform(ctx)
    applied(ctx)


# --------------------------------------------------------------------------
# C18: the Python view of records
# --------------------------------------------------------------------------
PLAIN = """
def spec(self):
    return self.value
"""
NOTHING = """
def spec(self):
    return None
"""
VIEWS = [
    ("Integer_Literal", PLAIN), ("String_Literal", PLAIN),
    ("Boolean_Literal", PLAIN), ("Null_Literal", NOTHING),
    ("Implicit_Null", NOTHING),
    ("Decimal_Literal", "def spec(self):\n    return float(self.value)\n"),
    ("Enumeration_Literal", "def spec(self):\n    return self.value.name\n"),
    ("Record_Reference", "def spec(self):\n    return "
     "self.target.fully_qualified_name()\n")]
LIST = """
def spec(self, elements):
    rv = []
    for e in elements:
        rv.append(e.to_python_object())
    return rv
"""
DICT = """
def spec(self, names, elements):
    rv = {}
    for n, e in zip(names, elements):
        rv[n] = e.to_python_object()
    return rv
"""
SIGN = """
def spec(self):
    if self.operator == Unary_Operator.MINUS:
        return -self.n_operand.to_python_object()
    return self.n_operand.to_python_object()
"""
VIEW = ("*.to_python_object", "*.fully_qualified_name")


def names(n):
    return [const("name%d" % i) for i in range(n)]


def dictionary(st, name, keys, vals):
    o = mk("obj", "dict", ("shape", name))
    return st.set_attr(o, "$items", mk("tuple", *[
        mk("tuple", k, v) for k, v in zip(keys, vals)])), o


def views(ctx):
    for cls, src in VIEWS:
        equiv(ctx, "value", cls + ".to_python_object",
              cls + ".to_python_object", src, types=[(ME, [cls])],
              contracts=VIEW[1:])
    for n in (0, 1, 2):
        el = syms("element", n)
        keys = names(n)
        ty = [(e, ["Expression"]) for e in el]
        tr = [(ME, "value", el)]
        equiv(ctx, "value", "Array_Aggregate.to_python_object (%d)" % n,
              "Array_Aggregate.to_python_object", LIST, attrs(*tr),
              {"elements": mk("tuple", *el)}, contracts=VIEW,
              shared=shared(tr), types=ty + [(ME, ["Array_Aggregate"])])
        for qual, at in (("Tuple_Aggregate.to_python_object", "value"),
                         ("Record_Object.to_python_dict", "field")):
            def setup(ip, st):
                st, d = dictionary(st, "d", keys, el)
                return st.set_attr(ME, at, d)
            # of any kind, and null in each place
            for kinds in [("Expression",) * n] + list(itertools.product(
                    ("Implicit_Null", "Integer_Literal"), repeat=n)) * (n > 0):
                equiv(ctx, "value", "%s (%d%s)" % (
                    qual, n, ": " + ", ".join(kinds) if n else ""), qual,
                      DICT, setup,
                      {"elements": mk("tuple", *el),
                       "names": mk("tuple", *keys)}, contracts=VIEW,
                      types=[(e, [k]) for e, k in zip(el, kinds)],
                      shared=[mk("obj", "dict", ("shape", "d"))])
    for o in ("MINUS", "PLUS"):
        equiv(ctx, "value", "Unary_Expression.to_python_object (%s)" % o,
              "Unary_Expression.to_python_object", SIGN,
              attrs((ME, "operator", mk("enum", "Unary_Operator", o))),
              contracts=VIEW)
    for cls in ("Concrete_Type", "Record_Object", "Enumeration_Type"):
        equiv(ctx, "value", cls + ".fully_qualified_name",
              cls + ".fully_qualified_name",
              "def spec(self):\n    return self.n_package.name + '.' + "
              "self.name\n")


ITERATE = """
def drive(self):
    rv = []
    for x in self.iter_record_objects():
        rv.append(x)
    return rv
"""
RECORDS = """
def spec(self, entities):
    rv = []
    for e in entities:
        if isinstance(e, Package):
            for x in e.symbols.iter_record_objects():
                rv.append(x)
        elif isinstance(e, Record_Object):
            rv.append(e)
    return rv
"""
SECTIONS = """
def drive(self):
    rv = []
    for x in self.iter_record_objects_by_section():
        rv.append(x)
    return rv
"""
BY_SECTION = """
def spec(self, objects):
    rv = []
    files = []
    seen = []
    for o in objects:
        if o.location.file_name not in files:
            files.append(o.location.file_name)
            rv.append(o.location.file_name)
        if o.section:
            i = 0
            for s in o.section:
                if s not in seen:
                    seen.append(s)
                    rv.append((s.name, i))
                i += 1
            rv.append((o, len(o.section) - 1))
        else:
            rv.append((o, 0))
    return rv
"""
COMPONENTS = """
def spec(self, lists):
    rv = []
    for l in lists:
        for x in l:
            rv.append(x)
    return rv
"""


def iteration(ctx):
    kinds = {"R": "Record_Object", "E": "Enumeration_Type",
             "T": "Record_Type"}
    for shape in ("", "R", "T", "P", "RR", "RT", "TR", "PR", "RP", "PP",
                  "RTR", "RRR"):
        ents = syms("entity", len(shape))
        inner = [S("inner%d" % i) for i in range(len(shape))]
        tr = []
        ty = [(ME, ["Symbol_Table"])]
        ret = {}

        def setup(ip, st):
            st = attrs(*tr)(ip, st)
            st, d = dictionary(st, "d", names(len(ents)), ents)
            return st.set_attr(ME, "table", d)
        for i, (e, k) in enumerate(zip(ents, shape)):
            ty.append((e, ["Package" if k == "P" else kinds[k]]))
            if k == "P":
                ret[("iter_record_objects", inner[i])] = mk(
                    "tuple", S("record%d.0" % i), S("record%d.1" % i))
                ty.append((inner[i], ["Symbol_Table"]))
                tr.append((e, "symbols", inner[i]))
        equiv(ctx, "iteration", "iter_record_objects (%s)" % (
            shape or "empty"), "Symbol_Table.iter_record_objects", RECORDS,
            setup, {"entities": mk("tuple", *ents)}, drive=ITERATE,
            types=ty, returns=ret)
    for na in (None, 0, 1, 2):
        for nb in (None, 0, 1, 2):
            objs = syms("object", 2)
            tr = []
            ty = [(ME, ["Symbol_Table"])]
            for o, n, w in ((objs[0], na, "a"), (objs[1], nb, "b")):
                if n is None:
                    tr.append((o, "section", NONE))
                else:
                    ss = [S("sec%d" % i) for i in range(n)]
                    if n == 2 and w == "b":
                        ss[1] = S("other")
                    tr.append((o, "section", ss))
                    ty += [(s, ["Section"]) for s in ss]
                ty.append((o, ["Record_Object"]))
            equiv(ctx, "iteration", "iter_record_objects_by_section (%s, %s)"
                  % (na, nb), "Symbol_Table.iter_record_objects_by_section",
                  BY_SECTION, attrs(*tr), {"objects": mk("tuple", *objs)},
                  drive=SECTIONS, types=ty, shared=shared(tr),
                  contracts=("*.iter_record_objects",),
                  returns={("iter_record_objects", ME): mk("tuple", *objs)})
    for n in (0, 1, 2):
        ts = [ME] + syms("ancestor", n)
        own = [[S("component%d.%d" % (i, j)) for j in range(2)]
               for i in range(n + 1)]

        def setup(ip, st):
            for i, t in enumerate(ts):
                st, d = dictionary(st, "d%d" % i, names(2), own[i])
                st = st.set_attr(mk("attr", t, "components", 0), "table", d)
            return attrs(*[(t, "parent", ts[i + 1] if i < n else NONE)
                           for i, t in enumerate(ts)])(ip, st)
        equiv(ctx, "iteration", "Record_Type.all_components (%d ancestors)"
              % n, "Record_Type.all_components", COMPONENTS, setup,
              {"lists": mk("tuple", *[mk("tuple", *l)
                                      for l in reversed(own)])},
              types=[(t, ["Record_Type"]) for t in ts])


def c18(ctx):
    nodes.c18(ctx)
    views(ctx)
    iteration(ctx)


CHECKS = {"C17": c17, "C18": c18}
EXPLAIN = {
    "C18": "The methods of the Python interface which convert and iterate "
    "over records are interpreted abstractly, path by path, and compared with "
    "a reference function interpreted under the same path condition.",
    "C17": "Check evaluation and the methods which distribute it over "
    "components, tuples, arrays and ancestors are interpreted abstractly, "
    "path by path, and compared with a reference function interpreted under "
    "the same path condition."}
RULES = {
    "C18": ["value: the Python value of every kind of value",
            "iteration: every record, section, component once, in order"],
    "C17": ["outcome: a check which evaluates to false is reported with its "
            "severity, message, explanation and location; one which "
            "evaluates to true is silent",
            "everything: every component, tuple field, array element and "
            "check is visited, whatever the result of the others",
            "order: checks of ancestors come first"]}
