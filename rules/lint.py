"""C20: lint checks point out exactly what they describe."""
import itertools
from sa.base import *            # noqa
from sa.equiv import equiv
from rules.core import S
from rules.nodes import dictionary
from rules import grammar as gr
from rules.grammar import ts_get
from rules.guards import GuardClient, guard
from rules.trees import TreeClient, xget, xset

#: the whole of Linter.perform_sanity_checks, for given declarations
DRIVE = """
def drive(mh, stab, verify):
    linter = Linter(mh, stab, verify, False)
    return linter.perform_sanity_checks()
"""
SPEC = """
def extends(t, base):
    t = t.parent
    while t is not None:
        if t is base:
            return True
        t = t.parent
    return False

def visit(mh, t, seen):
    if t in seen:
        return
    seen.append(t)
    if isinstance(t, ast.Union_Type):
        if len(t.types) == 1:
            mh.check(t.location, "", "union_single_type")
        for a in t.types:
            for b in t.types:
                if a is not b and extends(a, b):
                    mh.check(t.location, "", "union_redundant_subtype")
        for a in t.types:
            visit(mh, a, seen)
    elif isinstance(t, ast.Array_Type):
        if t.upper_bound is not None:
            if t.lower_bound > t.upper_bound or t.upper_bound == 0:
                mh.check(t.loc_upper, "", "impossible_array_types")
            elif t.upper_bound == 1:
                mh.check(t.loc_upper, "", "weird_array_types")
        visit(mh, t.element_type, seen)
    elif isinstance(t, ast.Tuple_Type):
        comps = []
        for c in t.components.values():
            comps.append(c)
        for c, s in zip(comps, t.separators):
            if isinstance(c.n_typ, ast.Builtin_Integer) and \\
               s.token.value in ("x", "b"):
                mh.check(s.location, "",
                         "separator_based_literal_ambiguity")
        for c in comps:
            visit(mh, c.n_typ, seen)
    elif isinstance(t, ast.Record_Type):
        for c in t.components.values():
            visit(mh, c.n_typ, seen)
    #verify

def spec(mh, types):
    seen = []
    for t in types:
        visit(mh, t, seen)
    for t in types:
        if isinstance(t, ast.Record_Type) and t.is_abstract:
            found = False
            for o in types:
                if isinstance(o, ast.Record_Type) and \\
                   not o.is_abstract and extends(o, t):
                    found = True
            if not found:
                mh.check(t.location, "", "abstract_leaf_types")
    return True
"""
VERIFY = """
    if isinstance(t, (ast.Record_Type, ast.Tuple_Type)):
        VCG(mh, t, False).analyze()
"""


def node(cls, name):
    return mk("obj", cls, ("shape", name))


class World:
    """declarations, as objects which exist before the call"""

    def __init__(self, ip, st):
        self.ip = ip
        self.st = st
        self.n = 0
        self.tables = {}

    def set(self, o, **kw):
        for k, v in kw.items():
            self.st = self.st.set_attr(o, k, v if isinstance(v, V) else
                                       const(v))
        return o

    def list(self, items, kind="list"):
        self.n += 1
        o = mk("obj", kind, ("shape", "l%d" % self.n))
        self.st = self.st.set_attr(o, "$items", mk("tuple", *items))
        return o

    def dict(self, keys, vals):
        self.n += 1
        self.st, d = dictionary(self.st, "d%d" % self.n, [
            const(k) for k in keys], vals)
        return d

    def table(self, names, vals, parent=NONE):
        self.n += 1
        return self.set(node("Symbol_Table", "t%d" % self.n),
                        parent=parent, imported=self.list([]),
                        table=self.dict(names, vals),
                        trlc_files=NONE, section_names=NONE)

    def entity(self, cls, name, **kw):
        o = node(cls, name)
        kw.setdefault("location", S(name + ".location"))
        return self.set(o, name=name, **kw)

    def components(self, types, names="abcdef", parent=NONE):
        cs = [self.entity("Composite_Component", "%s%d" % (n, self.n),
                          n_typ=t, optional=FALSE)
              for n, t in zip(names, types)]
        return self.table(list(names[:len(cs)]), cs, parent)

    def record(self, name, parent=None, abstract=False, types=()):
        cs = self.components(types)
        self.tables[node("Record_Type", name)] = cs
        return self.entity(
            "Record_Type", name, parent=parent or NONE, components=cs,
            is_abstract=abstract, is_final=FALSE)

    def tuple(self, name, types, seps=()):
        cs = self.components(types)
        ss = []
        for s in seps:
            self.n += 1
            kind = {"x": "IDENTIFIER", "b": "IDENTIFIER", "@": "AT",
                    ":": "COLON", ";": "SEMICOLON"}.get(s, "IDENTIFIER")
            tk = self.set(node("Token", "tk%d" % self.n),
                          value=NONE if kind != "IDENTIFIER" else const(s),
                          kind=kind)
            ss.append(self.set(node("Separator", "s%d" % self.n), token=tk,
                               location=S("separator%d" % len(ss))))
        return self.entity("Tuple_Type", name, components=cs,
                           separators=self.list(ss))

    def enum(self, name, n):
        names = ["l%d" % i for i in range(n)]
        ls = [self.entity("Enumeration_Literal_Spec", x) for x in names]
        return self.entity("Enumeration_Type", name,
                           literals=self.table(names, ls))

    def array(self, name, of, low, high):
        return self.entity("Array_Type", name, element_type=of,
                           lower_bound=low, upper_bound=high,
                           loc_upper=S(name + ".upper"),
                           loc_lower=S(name + ".lower"))

    def union(self, name, members):
        return self.entity("Union_Type", name, types=self.list(members))

    def builtin(self, cls):
        return self.set(node(cls, cls), name=cls)

    def stab(self, *packages):
        ps = []
        for i, types in enumerate(packages):
            names = ["n%02d_%d" % (i, j) for j in range(len(types))]
            ps.append(self.entity("Package", "p%d" % i,
                                  symbols=self.table(names, types)))
        return self.table(["p%d" % i for i in range(len(ps))], ps)


def world(ctx, rule, what, build, verify=False):
    """build(World) -> list of lists of declared types, by package"""
    box = {}

    def setup(ip, st):
        w = World(ip, st)
        packs = build(w)
        box["stab"] = w.stab(*packs)
        box["types"] = mk("tuple", *[t for p in packs for t in p])
        box["n"] = w.n
        return w.st
    # names are deterministic: build once to learn the arguments
    setup(None, State())
    more = {}
    if verify:
        more = dict(contracts=("VCG.__init__", "*.analyze"),
                    logged=("*.analyze",),
                    instances={"VCG": S("vcg")})
    equiv(ctx, rule, what, "Linter.perform_sanity_checks",
          SPEC.replace("#verify", VERIFY if verify else ""), setup,
          {"stab": box["stab"], "types": box["types"],
           "verify": const(verify)},
          drive=DRIVE, like="lint", depth=30, message_args=("check",),
          **more)


def arrays(ctx):
    for low in (0, 1, 2, 5):
        for high in (None, 0, 1, 2, 5):
            world(ctx, "array", "array of %s to %s" % (low, high),
                  lambda w: [[w.record("R", types=[w.array(
                      "A", w.builtin("Builtin_Integer"), low,
                      NONE if high is None else high)])]])


def separators(ctx):
    kinds = {"i": "Builtin_Integer", "s": "Builtin_String"}
    for n in (1, 2, 3):
        for ts in itertools.product("is", repeat=n):
            for ss in itertools.product("xb@", repeat=n - 1):
                if n == 3 and "s" in ts[:2] and "@" in ss:
                    continue
                world(ctx, "separator", "tuple %s with separators %s" % (
                    " ".join(kinds[t][8:] for t in ts),
                    " ".join(ss) or "none"),
                    lambda w: [[w.tuple("T", [w.builtin(kinds[t])
                                              for t in ts], ss)]])
    for name, make in (
            ("no literals", lambda w: w.enum("E", 0)),
            ("a literal", lambda w: w.enum("E", 1)),
            ("two literals", lambda w: w.enum("E", 2)),
            ("three literals", lambda w: w.enum("E", 3)),
            ("Boolean", lambda w: w.builtin("Builtin_Boolean")),
            ("Decimal", lambda w: w.builtin("Builtin_Decimal")),
            ("Markup_String", lambda w: w.builtin("Builtin_Markup_String")),
            ("record", lambda w: w.record("R"))):
        world(ctx, "separator", "integer x %s" % name, lambda w: [[
            w.tuple("T", [w.builtin("Builtin_Integer"), make(w)], "x")]])


def unions(ctx):
    for shape in ("A", "AB", "AS", "SA", "AG", "ASG", "ABS", "SGB"):
        for where in ("component", "array", "tuple"):
            def build(w):
                a = w.record("A")
                b = w.record("B")
                s = w.record("S", a)
                g = w.record("G", s)
                by = {"A": a, "B": b, "S": s, "G": g}
                u = w.union("U", [by[x] for x in shape])
                t = w.array("Y", u, 0, NONE) if where == "array" else u
                if where == "tuple":
                    x = w.tuple("T", [t])
                else:
                    x = w.record("R", types=[t])
                return [[a, b], [s, g, x]]
            world(ctx, "union", "union of %s as %s" % (
                ", ".join(shape), where), build)


def reach(ctx, verify=False):
    """every type, once"""
    def cycle(w):
        a = w.record("A")
        small = w.array("Small", a, 1, 1)
        b = w.record("B", types=[a, small])
        w.set(a, components=w.components([b, small]))
        return [[a], [b]]

    def inherited(w):
        base = w.record("Base", types=[
            w.array("Y", w.builtin("Builtin_String"), 0, 1)])
        child = w.record("Child", base)
        w.set(child, components=w.components(
            [w.array("Z", w.builtin("Builtin_Integer"), 3, 2)], "z",
            w.tables[base]))
        return [[child, base]]

    def nested(w):
        inner = w.tuple("Inner", [w.array("N", w.union("U", [
            w.record("Only")]), 1, 1)])
        outer = w.tuple("Outer", [inner, w.builtin("Builtin_Integer"),
                                  inner], ("@", "x"))
        return [[w.record("User", types=[outer]), w.enum("E", 1)],
                [outer, inner]]

    def several(w):
        i = w.builtin("Builtin_Integer")
        return [[w.record("R", types=[w.array("Y%d" % k, i, k, 1)
                                      for k in range(3)])],
                [w.tuple("T", [i, i, i], ("x", "b"))]]

    def unused(w):
        base = w.record("Base", None, True)
        return [[w.record("Child", base, True), base, w.record("Free")]]
    for f in (cycle, inherited, nested, several, unused):
        world(ctx, "reach", f.__name__ + (", with --verify" if verify else
                                          ""), f, verify)


def abstract(ctx):
    """every shape of up to four types"""
    for n in (1, 2, 3):
        for parents in itertools.product(*[range(-1, i) for i in range(n)]):
            for flags in itertools.product((False, True), repeat=n):
                if not any(flags):
                    continue

                def build(w, rev=False):
                    ts = []
                    for i in range(n):
                        ts.append(w.record(
                            "T%d" % i, ts[parents[i]] if parents[i] >= 0
                            else None, flags[i]))
                    return [ts[::-1][:1], ts[::-1][1:]]
                world(ctx, "abstract", "types %s" % ", ".join(
                    "%sT%d%s" % ("abstract " if flags[i] else "", i,
                                 " extends T%d" % parents[i] if
                                 parents[i] >= 0 else "")
                    for i in range(n)), build)


IMPORTS_DRIVE = """
def drive(mh, stab):
    linter = Linter(mh, stab, False, False)
    linter.verify_imports()
"""
IMPORTS = """
def spec(files, imports, tokens):
    for f, ps, ts in zip(files, imports, tokens):
        if f.primary or f.secondary:
            for p in ps:
                first = None
                n = 0
                for t in ts:
                    if t.value == p.name:
                        n = n + 1
                        if first is None:
                            first = t
                    elif t.ast_link is not None and \\
                            isinstance(t.ast_link, ast.String_Literal) and \\
                            t.ast_link.has_references:
                        for r in t.ast_link.references:
                            if r.package.name == p.name:
                                n = n + 1
                if n == 1:
                    first.owner.check(first.location, "", "unused_imports")
"""


def imports(ctx):
    """per file: what is imported, and its tokens; Foo! is a markup
    reference to a name of package Foo"""
    for files in ([("", "import Foo")], [("Foo", "import Foo")],
                  [("Foo", "import Foo Foo . x")],
                  [("Foo", "import Foo other")],
                  [("Foo", "import Foo s:Foo")],
                  [("Foo", "import Foo s:Foo s:Bar")],
                  [("Foo", "import Foo s:Bar")],
                  [("Foo", "import Foo l:Foo")],
                  [("Foo", "import Foo s:Bar+Foo")],
                  [("Bar Foo", "import Foo import Bar x")],
                  [("Bar Foo", "import Foo import Bar Bar")],
                  [("Bar Foo", "import Bar import Foo s:Foo")],
                  [("Foo Bar", "import Bar import Foo x")],
                  [("Foo", "import Foo x"), ("Foo", "import Foo Foo")],
                  [("", "Foo"), ("Foo", "import Foo")]):
        box = {}

        def setup(ip, st):
            w = World(ip, st)
            fs, imps, toks = [], [], []
            mh = S("mh")
            for i, (ps, text) in enumerate(files):
                tl = []
                for j, word in enumerate(text.split()):
                    name = "tk%d_%d" % (i, j)
                    link = NONE
                    if ":" in word:
                        refs = []
                        for k, r in enumerate(word[2:].split("+")):
                            n = "%s_%d" % (name, k)
                            refs.append(w.set(
                                node("Record_Reference", "r" + n),
                                package=w.entity("Package", "p" + n)))
                            w.set(node("Package", "p" + n), name=r)
                        link = w.set(
                            node("String_Literal", "l" + name),
                            references=w.list(refs),
                            has_references=bool(refs) and word[0] == "s")
                        word = "text"
                    elif word == "x":
                        link = node("Record_Type", "l" + name)
                    tl.append(w.set(
                        node("Token", name), value=word, ast_link=link,
                        location=S(name + ".location"), owner=mh,
                        kind="STRING" if word == "text" else "IDENTIFIER"))
                pl = []
                for n in ps.split():
                    pl.append(w.entity("Package", n))
                cu = w.set(node("Compilation_Unit", "cu%d" % i),
                           imports=w.list(pl, "set"))
                lx = w.set(node("TRLC_Lexer", "lexer%d" % i),
                           tokens=w.list(tl))
                f = w.set(node("Parser", "file%d" % i), cu=cu, lexer=lx,
                          primary=S("primary%d" % i),
                          secondary=S("secondary%d" % i))
                fs.append(f)
                imps.append(mk("tuple", *sorted(pl, key=lambda v: v.a[1])))
                toks.append(mk("tuple", *tl))
            sm = w.set(node("Source_Manager", "sm"), all_files=w.dict(
                ["f%d" % i for i in range(len(fs))], fs))
            w.st = w.st.set_attr(mh, "sm", sm)
            box.update(files=mk("tuple", *fs), imports=mk("tuple", *imps),
                       tokens=mk("tuple", *toks))
            return w.st
        setup(None, State())
        equiv(ctx, "import", " / ".join(t for _, t in files),
              "Linter.verify_imports", IMPORTS, setup,
              dict(box, mh=S("mh")), drive=IMPORTS_DRIVE, like="lint",
              types=[(S("mh"), ["Message_Handler"])],
              message_args=("check",))


# --------------------------------------------------------------------------
# checks of the parser
# --------------------------------------------------------------------------
FINAL = """
def spec(parent, final):
    return parent is not None and parent.is_final and not final
"""
MINUS = """
def spec(operand, brackets):
    return isinstance(operand, Binary_Expression) and not brackets
"""
PARTIAL = """
def spec(union, universal):
    return union and not universal
"""


class LintClient(GuardClient):
    """which lint checks are emitted before a node is built"""
    lint = True
    subject = None
    category = None
    attributes = ("lint_mode",)

    def on_emit(self, ip, st, kind, fatal, args, node):
        if kind == "check":
            c = ip.norm(st, args["check"])
            c = c.a[1] if is_const(c) else None
            if c is None:
                self.unsure.setdefault("category", "unknown category")
            st = xset(st, marks=xget(st, "marks") + ((
                c, ip.norm(st, args["location"])),))
        return TreeClient.on_emit(self, ip, st, kind, fatal, args, node)

    def expect(self, ip, st, node, args, source, **bind):
        ms = [m for m in xget(st, "marks") if m[0] == self.category]
        what = self.category
        if ms:
            self.need_fact(ip, st, node, what, "the check %s is reported "
                           "elsewhere than at what it is about" % what,
                           any(m[1] is ip.norm(st, args["location"])
                               for m in ms))
        if not self.lint:
            self.need_fact(ip, st, node, what, "the check %s is reported "
                           "although linting is off" % what, not ms)
            return st
        yes, no = self.evaluate(ip, st, source, node, **{
            k: ip.norm(st, v) for k, v in bind.items()})
        if ms:
            self.decide(ip, st, what, "the check %s is reported although "
                        "there is no reason" % what, yes, no,
                        ip.frame.fi.loc(node))
        else:
            self.decide(ip, st, what, "the check %s is not reported "
                        "although there is a reason" % what, no, yes,
                        ip.frame.fi.loc(node))
        if ms:
            st = xset(st, marks=tuple(m for m in xget(st, "marks")
                                      if m not in ms))
        return st

    def ready(self, st):
        return not ts_get(st.ts, "rej") and ts_get(st.ts, "dev") is None


class FinalClient(LintClient):
    category = "clarify_final"

    def g_Record_Type(self, ip, st, obj, args, node):
        if self.ready(st):
            p = ip.norm(st, args.get("n_parent") or NONE)
            if st.truth.get(p) is False:
                p = NONE
            elif p is not NONE:
                st = st._upd("types", p, frozenset(["Record_Type"]))
            return self.expect(ip, st, node, args, FINAL, parent=p,
                               final=const(self.marked(st, "final")))

    def shift(self, ip, st, x, node, multi=None):
        st = super().shift(ip, st, x, node, multi)
        if x[0] == "t" and x[1][1] == "final":
            st = self.mark(st, "final")
        return st


class MinusClient(LintClient):
    category = "unary_minus_precedence"

    def nonterminal(self, ip, st, fi, prod, args, node):
        if fi.name == "parse_term" and xget(st, "n") == 0:
            b = self.bag(ip, st)
            kinds = {t[0] for t in b}
            st = self.mark(xset(st, n=1), "bracket" if kinds == {"BRA"} else
                           "none" if "BRA" not in kinds else "either")
        return super().nonterminal(ip, st, fi, prod, args, node)

    def g_Unary_Expression(self, ip, st, obj, args, node):
        if not self.ready(st):
            return None
        b = TRUE if self.marked(st, "bracket") else FALSE if \
            self.marked(st, "none") else S("brackets")
        return self.expect(ip, st, node, args, MINUS,
                           operand=args["n_operand"], brackets=b)


class PartialClient(LintClient):
    category = "union_partial_field_access"

    def g_Field_Access_Expression(self, ip, st, obj, args, node):
        if self.ready(st):
            return self.expect(ip, st, node, args, PARTIAL,
                               union=args.get("is_union_access") or FALSE,
                               universal=args.get("is_universal") or TRUE)


def parsing(ctx):
    for q, f in (("parse_record_declaration", FinalClient),
                 ("parse_simple_expression", MinusClient),
                 ("parse_name", PartialClient)):
        for lint in (True, False):
            def client(*a):
                c = f(*a)
                c.lint = lint
                return c
            guard(ctx, "parsing", "Parser." + q, gr.NT["Parser." + q],
                  client, label="%s (lint %s)" % (q, "on" if lint else
                                                  "off"),
                  attrs=[(sym("self"), "lint_mode", const(lint))])


def c20(ctx):
    reach(ctx)
    imports(ctx)
    parsing(ctx)
    arrays(ctx)
    separators(ctx)
    unions(ctx)
    abstract(ctx)


CHECKS = {"C20": c20}
EXPLAIN = {
    "C20": "The linter as a whole (constructor, traversal and every check) "
    "is interpreted abstractly for families of declarations, and the checks "
    "it reports, with category and place, are compared with those of a "
    "reference function; the checks of the parser are compared with their "
    "condition on every path of the grammar."}
RULES = {
    "C20": ["abstract: an abstract type is reported if no concrete type "
            "extends it (all hierarchies of up to three types)",
            "array: bounds which are impossible or pointless are reported",
            "separator: an x or b after an integer component is reported",
            "union: single members and subtypes of members are reported",
            "import: a package which is not named again is reported",
            "reach: every type which can be reached is visited once",
            "parsing: checks of the parser are reported if and only if "
            "linting is on and their condition holds"]}
