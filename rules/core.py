"""C13..: semantic rules of entities, compared with reference functions."""
import ast
from sa.base import *          # noqa
from sa.equiv import equiv, EqClient
from sa.absint import Undecided, Budget
from rules import guards


def closed(st, name, items, kind="list"):
    """a list which exists before the call"""
    o = mk("obj", kind, ("shape", name))
    return st.set_attr(o, "$items", mk("tuple", *items)), o


def attrs(*triples):
    """setup: attribute values and types which hold before the call;
    a list becomes a list object"""
    def setup(ip, st):
        for i, (base, name, val) in enumerate(triples):
            if name == "$type":
                st = st._upd("types", base, frozenset(
                    x for t in val for x in ip.m.subclasses(t)))
                continue
            if isinstance(val, list):
                st, val = closed(st, "%d" % i, val)
            elif not isinstance(val, V):
                val = const(val)
            st = st.set_attr(base, name, val)
        return st
    return setup


def shared(triples):
    return [mk("obj", "list", ("shape", "%d" % i))
            for i, t in enumerate(triples) if isinstance(t[2], list)]


S = sym
ME = sym("self")

# --------------------------------------------------------------------------
# C16: names
# --------------------------------------------------------------------------


def tables(parents, imports):
    """own table, its parents and imported tables as symbols"""
    me = sym("self")
    chain = [me] + [sym("parent%d" % i) for i in range(parents)]
    imps = [[sym("import%d" % i)] for i in range(imports)]

    def setup(ip, st):
        ts = ip.m.subclasses("Symbol_Table")
        st, no = closed(st, "none", [])
        for c in [chain] + imps:
            for t, p in zip(c, c[1:] + [NONE]):
                st = st._upd("types", t, ts)
                st = st._upd("types", mk("attr", t, "table", 0),
                             frozenset(["dict"]))
                st = st.set_attr(t, "parent", p)
                st = st.set_attr(t, "imported", no)
        if imps:
            st, lst = closed(st, "imports", [c[0] for c in imps])
            st = st.set_attr(me, "imported", lst)
        return st
    return setup, mk("tuple", *(chain + [c[0] for c in imps]))


LOOKUP = """
def spec(self, mh, name, error_location, required_subclass, simplified, chain):
    for t in chain:
        if Symbol_Table.simplified_name(name) in t.table:
            found = t.table[Symbol_Table.simplified_name(name)]
            if not simplified and found.name != name:
                mh.error(error_location, "")
            if required_subclass is not None and not isinstance(found, required_subclass):
                mh.error(error_location, "")
            return found
    mh.error(error_location, "")
"""
ASSUMING = """
def spec(self, mh, name, required_subclass, chain):
    for t in chain:
        if Symbol_Table.simplified_name(name) in t.table:
            found = t.table[Symbol_Table.simplified_name(name)]
            if found.name != name:
                return None
            if required_subclass is not None and not isinstance(found, required_subclass):
                mh.error(found.location, "")
            return found
    return None
"""
REGISTER = """
def spec(self, mh, entity, chain):
    for t in chain:
        if Symbol_Table.simplified_name(entity.name) in t.table:
            mh.error(entity.location, "")
    self.table[Symbol_Table.simplified_name(entity.name)] = entity
"""
CONTAINS = """
def spec(self, name, chain):
    for t in chain:
        if Symbol_Table.simplified_name(name) in t.table:
            return t.table[Symbol_Table.simplified_name(name)].name == name
    return False
"""
TOKEN = """
def spec(self, mh, referencing_token, required_subclass):
    return self.lookup_direct(mh, referencing_token.value, referencing_token.location, required_subclass)
"""
SCOPE_CONTAINS = """
def spec(self, name, tabs):
    for t in tabs:
        if t.contains(name):
            return True
    return False
"""
SCOPE_LOOKUP = """
def spec(self, mh, referencing_token, required_subclass, inner, last):
    for t in inner:
        if t.contains(referencing_token.value):
            return t.lookup(mh, referencing_token, required_subclass)
    return last.lookup(mh, referencing_token, required_subclass)
"""
SIMPLE = ("Symbol_Table.simplified_name",)
TAB = ("Symbol_Table.contains_raw", "Symbol_Table.simplified_name",
       "Symbol_Table.lookup_direct")


def simplified(ctx):
    """names are compared without case and underscores"""
    fi = ctx.func("Symbol_Table.simplified_name")
    ip = Interp(ctx.m, EqClient())
    try:
        outs = ip.run(fi, {}, State())
    except (Undecided, Budget) as e:
        ctx.undecided("similar", "simplified_name", e)
        return
    ctx.analysed(ip)
    for o in outs:
        if o.kind != "return":
            continue
        ops, v = [], ip.norm(o.st, o.val)
        while v.tag == "op" and str(v.a[0]).lstrip(".") in (
                "lower", "casefold", "upper", "replace"):
            ops.append((str(v.a[0]).lstrip("."),) + tuple(
                x.a[1] for x in v.a[2:] if isinstance(x, V) and
                x.tag == "const"))
            v = v.a[1]
        if v is not sym("name"):
            ctx.undecided("similar", "simplified_name", show(o.val))
        elif sorted(ops) in ([("lower",), ("replace", "_", "")],
                             [("casefold",), ("replace", "_", "")],
                             [("replace", "_", ""), ("upper",)]):
            ctx.ok("similar", "names are compared without case and "
                   "underscores")
        else:
            ctx.violation("similar", "simplified_name", fi.loc(o.node),
                          "names are compared after %s" % (
                              ", ".join(x[0] for x in ops) or "no change"))


def names(ctx):
    simplified(ctx)
    for parents, imports in ((0, 0), (0, 1), (1, 0), (2, 0)):
        setup, chain = tables(parents, imports)
        w = " (%d parents, %d imports)" % (parents, imports)
        known = {op("values", mk("attr", t, "table", 0)):
                 [sym("entity%d" % i)] for i, t in enumerate(chain.a)}
        for simp in (TRUE, FALSE):
            equiv(ctx, "lookup", "lookup_direct" + w,
                  "Symbol_Table.lookup_direct", LOOKUP, setup,
                  {"chain": chain, "simplified": simp}, contracts=SIMPLE,
                  items=known)
        equiv(ctx, "lookup", "lookup_assuming" + w,
              "Symbol_Table.lookup_assuming", ASSUMING, setup,
              {"chain": chain}, contracts=SIMPLE)
        equiv(ctx, "register", "register" + w, "Symbol_Table.register",
              REGISTER, setup, {"chain": chain}, contracts=SIMPLE,
              items=known)
        equiv(ctx, "lookup", "contains" + w, "Symbol_Table.contains",
              CONTAINS, setup, {"chain": chain}, contracts=SIMPLE,
              truthy=True)
    equiv(ctx, "lookup", "lookup", "Symbol_Table.lookup", TOKEN,
          contracts=TAB[2:])
    for n in (1, 2, 3):
        ts = [S("table%d" % i) for i in range(n)]
        tr = [(ME, "scope", ts)] + [(t, "$type", ["Symbol_Table"])
                                    for t in ts]
        w = " (%d tables)" % n
        equiv(ctx, "scope", "Scope.contains" + w, "Scope.contains",
              SCOPE_CONTAINS, attrs(*tr),
              {"tabs": mk("tuple", *reversed(ts))}, contracts=TAB,
              truthy=True, shared=shared(tr))
        equiv(ctx, "scope", "Scope.lookup" + w, "Scope.lookup",
              SCOPE_LOOKUP, attrs(*tr),
              {"inner": mk("tuple", *reversed(ts[1:])), "last": ts[0]},
              contracts=TAB, shared=shared(tr))
    for name, src in (("push", "def spec(self, stab):\n"
                       "    self.scope.append(stab)\n"),
                      ("pop", "def spec(self):\n    self.scope.pop()\n")):
        equiv(ctx, "scope", "Scope." + name, "Scope." + name, src)


# --------------------------------------------------------------------------
# C14: imports
# --------------------------------------------------------------------------
ADD_IMPORT = """
def spec(self, mh, t_import, tokens):
    if t_import.value == self.package.name:
        mh.error(t_import.location, "")
    for t in tokens:
        if t.value == t_import.value:
            mh.warning(t_import.location, "")
            return
    self.raw_imports.append(t_import)
"""
RESOLVE = """
def spec(self, mh, stab, tokens):
    self.imports = set()
    for t in tokens:
        try:
            self.imports.add(stab.lookup(mh, t, Package))
        except TRLC_Error:
            pass
"""
VISIBLE = """
def spec(self, n_pkg):
    return n_pkg == self.package or n_pkg in self.imports
"""


def imports(ctx):
    for n in (0, 1, 2):
        ts = [S("token%d" % i) for i in range(n)]
        tr = [(ME, "raw_imports", ts)] + [(t, "$type", ["Token"])
                                          for t in ts]
        w = " (%d imports)" % n
        equiv(ctx, "import", "add_import" + w, "Compilation_Unit.add_import",
              ADD_IMPORT, attrs(*tr), {"tokens": mk("tuple", *ts)},
              shared=shared(tr))
        equiv(ctx, "import", "resolve_imports" + w,
              "Compilation_Unit.resolve_imports", RESOLVE, attrs(*tr),
              {"tokens": mk("tuple", *ts)}, shared=shared(tr),
              contracts=("Symbol_Table.lookup", "*.set_ast_link"),
              raising=("Symbol_Table.lookup",))
    equiv(ctx, "import", "is_visible", "Compilation_Unit.is_visible",
          VISIBLE, truthy=True)
    equiv(ctx, "import", "set_package", "Compilation_Unit.set_package",
          "def spec(self, pkg):\n    self.package = pkg\n")


# --------------------------------------------------------------------------
# C13: records
# --------------------------------------------------------------------------
ASSIGN = """
def spec(self, component, value):
    if not isinstance(self.field[component.name], Implicit_Null):
        raise KeyError("")
    self.field[component.name] = value
"""
REFERENCE = """
def spec(self, mh):
    self.target = self.package.symbols.lookup_direct(mh, self.name, self.location, Record_Object)
    if self.typ is None:
        self.typ = self.target.n_typ
    elif isinstance(self.typ, Union_Type):
        if not self.typ.is_compatible(self.target.n_typ):
            mh.error(self.location, "")
    elif not self.target.n_typ.is_subclass_of(self.typ):
        mh.error(self.location, "")
"""
EXTENDS = """
def spec(self, record_type, chain):
    for t in chain:
        if t is record_type:
            return True
    return False
"""
COMPATIBLE = """
def spec(self, record_type, members):
    for t in members:
        if record_type.is_subclass_of(t):
            return True
    return False
"""
FROZEN = """
def spec(self, n_component, chain):
    for t in chain:
        if n_component.name in t.frozen:
            return True
    return False
"""
FROZEN_VALUE = """
def spec(self, n_component, chain):
    for t in chain:
        if n_component.name in t.frozen:
            return t.frozen[n_component.name]
    assert False
"""
COMPONENTS = """
def spec(self, chain):
    rv = []
    for t in chain:
        for c in t:
            rv.append(c)
    return rv
"""


def ancestry(n):
    ts = [ME] + [S("ancestor%d" % i) for i in range(n)]
    tr = []
    for t, p in zip(ts, ts[1:] + [NONE]):
        tr.append((t, "parent", p))
        tr.append((t, "$type", ["Record_Type"]))
        tr.append((mk("attr", t, "frozen", 0), "$type", ["dict"]))
    return ts, tr


def records(ctx):
    equiv(ctx, "assign", "Record_Object.assign", "Record_Object.assign",
          ASSIGN)
    equiv(ctx, "assign", "is_component_implicit_null",
          "Record_Object.is_component_implicit_null",
          "def spec(self, component):\n"
          "    return not isinstance(self.field[component.name], "
          "Implicit_Null)\n", truthy=True)
    equiv(ctx, "reference", "Record_Reference.resolve_references",
          "Record_Reference.resolve_references", REFERENCE,
          contracts=("Symbol_Table.lookup_direct", "*.is_compatible",
                     "*.is_subclass_of"),
          raising=("Symbol_Table.lookup_direct",),
          types=[(mk("attr", S("pkg"), "symbols", 0), ["Symbol_Table"])])
    for n in (0, 1, 2):
        ts, tr = ancestry(n)
        w = " (%d ancestors)" % n
        chain = mk("tuple", *ts)
        equiv(ctx, "extends", "is_subclass_of" + w,
              "Record_Type.is_subclass_of", EXTENDS, attrs(*tr),
              {"chain": chain}, truthy=True,
              types=[(S("record_type"), ["Record_Type"])])
        equiv(ctx, "frozen", "is_frozen" + w, "Record_Type.is_frozen",
              FROZEN, attrs(*tr), {"chain": chain}, truthy=True)
        equiv(ctx, "frozen", "get_freezing_expression" + w,
              "Record_Type.get_freezing_expression", FROZEN_VALUE,
              attrs(*tr), {"chain": chain})
    for n in (1, 2, 3):
        ms = [S("member%d" % i) for i in range(n)]
        tr = [(ME, "types", ms)] + [(t, "$type", ["Record_Type"])
                                    for t in ms] + [
            (S("record_type"), "$type", ["Record_Type"])]
        equiv(ctx, "extends", "is_compatible (%d members)" % n,
              "Union_Type.is_compatible", COMPATIBLE, attrs(*tr),
              {"members": mk("tuple", *ms)}, truthy=True,
              contracts=("*.is_subclass_of",), shared=shared(tr))


def c13(ctx):
    from rules import nodes
    nodes.c13(ctx)
    records(ctx)
    guards.objects(ctx)


def c14(ctx):
    from rules import nodes
    nodes.keep(ctx, nodes.UNIT)
    imports(ctx)
    guards.visibility(ctx)


def c15(ctx):
    from rules import nodes
    nodes.c15(ctx)
    guards.declarations(ctx)


def c16(ctx):
    from rules import nodes
    nodes.c16(ctx)
    names(ctx)


CHECKS = {"C16": c16, "C14": c14, "C13": c13, "C15": c15}
EXPLAIN = {
    "C13": "The methods which store component values, resolve references and "
    "answer questions about type extension and frozen components are "
    "interpreted abstractly, path by path, and compared with a reference "
    "function interpreted under the same path condition.",
    "C14": "The import list, its resolution and the visibility test are "
    "interpreted abstractly, path by path, and compared with a reference "
    "function interpreted under the same path condition.",
    "C15": "The parsing functions of declarations are interpreted "
    "abstractly along the grammar; each rule of the language is evaluated, as "
    "a small reference function, in the state of every path which reaches "
    "the construct the rule governs.",
    "C16": "Symbol table and scope operations are interpreted abstractly, "
    "path by path, for tables with up to two parents and one import, and "
    "compared with a reference function interpreted under the same path "
    "condition."}
RULES = {
    "C13": ["assign: a value is stored for its component, once",
            "reference: the target is the record of that name in that "
            "package; its type extends the declared one",
            "extends: a type extends itself and its ancestors; a union "
            "admits what extends a member",
            "frozen: the innermost freeze along the parents applies",
            "object: on every path of the grammar the objects, arrays and "
            "enumeration values built satisfy the rules of the language; "
            "errors occur where a rule is broken"],
    "C14": ["import: every import is kept once, resolved to a package, and "
            "decides visibility",
            "visible: on every path which uses a package the package has "
            "been found visible"],
    "C15": ["declaration: what a path builds satisfies the rules of the "
            "language; errors occur where a rule is broken",
            "kind: names in declarations denote entities of the required "
            "kind"],
    "C16": ["similar: names differing in case or underscores only are the "
            "same",
            "lookup: the entity in the innermost table which has the name, "
            "with exactly that spelling and of the required kind, or an "
            "error",
            "register: rejected when a visible entity has a similar name, "
            "stored otherwise",
            "scope: the innermost table of a scope which has the name "
            "answers"]}
