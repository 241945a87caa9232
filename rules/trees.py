"""C10, C12: the syntax tree says what the source says.

The parsing functions are interpreted as in grammar.py.  In addition every
token and nonterminal with a meaning is kept on a list until a node of the
tree (or an action like registering a name) uses it.  Each construction must
use the operands, operator and names which were read, in their roles, and
nothing which was read may be dropped.
"""
from sa.base import *         # noqa
from sa.absint import Undecided
from rules.driver import oloc
from rules import grammar as gr
from rules.grammar import GClient, ts_get, ts_set, tname, analyse

KEEP_KINDS = ("IDENTIFIER", "STRING", "INTEGER", "DECIMAL", "RANGE",
              "REFLIST_IDENTIFIER")
KEEP_KW = ("and", "or", "xor", "implies", "not", "in", "abs", "forall",
           "exists", "true", "false", "null", "optional", "abstract", "final",
           "if", "elsif", "warning", "error", "fatal")
SEPS = ("AT", "COLON", "SEMICOLON")

BIN = {"LOGICAL_AND": "'and'", "LOGICAL_OR": "'or'", "LOGICAL_XOR": "'xor'",
       "LOGICAL_IMPLIES": "'implies'", "COMP_EQ": "==", "COMP_NEQ": "!=",
       "COMP_LT": "<", "COMP_LEQ": "<=", "COMP_GT": ">", "COMP_GEQ": ">=",
       "PLUS": "+", "MINUS": "-", "TIMES": "*", "DIVIDE": "/",
       "REMAINDER": "%", "POWER": "**", "STRING_CONTAINS": "'in'",
       "ARRAY_CONTAINS": "'in'", "INDEX": None}
#: how tightly the operators bind
LEVELS = dict({o: "4" for o in ("PLUS", "MINUS")},
              **{o: "5" for o in ("TIMES", "DIVIDE", "REMAINDER")})
LEVELS.update({o: "3" for o in BIN if o.startswith("COMP_") or
               o.endswith("_CONTAINS")})
LEVELS.update({o: "2" for o in BIN if o.startswith("LOGICAL_")})
LEVELS["POWER"] = "6"
NEEDED = {"2": (3, 3), "3": (4, 4), "4": (4, 5), "5": (5, 6), "6": (7, 7)}
LEVEL_NAMES = {2: "a logical expression", 3: "a relation",
               4: "a sum", 4.5: "a signed term", 5: "a product",
               6: "a power, not or abs"}
NT_LEVELS = {"relation": 3, "simple_expression": 4, "term": 5, "factor": 6}


def level(label):
    if label.startswith("node:"):
        return float(label[5:].split()[0])
    # an expression can only stand in brackets here
    return NT_LEVELS.get(label, 7)


UN = {"MINUS": "-", "PLUS": "+", "LOGICAL_NOT": "'not'",
      "ABSOLUTE_VALUE": "'abs'"}
LITERALS = {"Integer_Literal": ("INTEGER",), "Decimal_Literal": ("DECIMAL",),
            "String_Literal": ("STRING",),
            "Boolean_Literal": ("'true'", "'false'"),
            "Null_Literal": ("'null'",)}
BUILTIN_TYPES = {"Integer_Literal": ("builtin_int",),
                 "Decimal_Literal": ("builtin_decimal",),
                 "String_Literal": ("builtin_str", "builtin_mstr"),
                 "Boolean_Literal": ("builtin_bool",)}
SINKS = {"register", "add_check", "append", "assign", "add_item",
         "add_separator", "set_package", "add_import", "add_elsif",
         "set_else_part", "add_markup_reference"}
PURE = {"set_ast_link", "ensure_type", "write_indent"}
QUERIES = {"lookup", "lookup_assuming", "lookup_direct", "contains",
           "is_visible", "is_frozen", "get_freezing_expression", "size",
           "get_field_map", "is_component_implicit_null", "iter_sequence",
           "all_components", "has_separators", "fully_qualified_name",
           "simplified_name", "values", "is_subclass_of"}

X = ("stk", "scopes", "regs", "marks", "n")


def xget(st, f):
    return ts_get(st.ts, "x")[X.index(f)]


def xset(st, **kw):
    x = list(ts_get(st.ts, "x"))
    for k, v in kw.items():
        x[X.index(k)] = v
    return st.set_ts(ts_set(st.ts, x=tuple(x)))


class Bad(Exception):
    pass


class TreeClient(GClient):
    x0 = ((), (), frozenset(), (), 0)
    counted = ()            # functions whose operands are numbered
    limit = 99

    def __init__(self, *a):
        super().__init__(*a)
        self.trees = {}     # description -> count of discharged obligations
        self.wrong = {}     # (construct) -> (loc, text)
        self.builtin = None
        self.built = set()

    # -- bookkeeping -----------------------------------------------------------
    def good(self, what):
        self.trees[what] = self.trees.get(what, 0) + 1

    def mistake(self, ip, node, construct, text):
        self.wrong.setdefault(construct, (ip.frame.fi.loc(node), text))

    def kept(self, tok):
        if tok[0] == "KEYWORD":
            return tok[1] in KEEP_KW
        if tok[0] == "OPERATOR" or tok[0] in KEEP_KINDS:
            return tok != gr.IDX
        return self.keep_seps and tok[0] in SEPS

    keep_seps = True

    def push(self, st, label, v):
        stk = xget(st, "stk")
        return xset(st, stk=stk + ((label, v, xget(st, "scopes")),))

    def shift(self, ip, st, x, node, multi=None):
        old = ts_get(st.ts, "rej")
        st = super().shift(ip, st, x, node, multi)
        if x[0] == "t" and not old and self.kept(x[1]):
            ct = st.heap.get((self.SELF, "ct"))
            st = self.push(st, tname(x[1]), ct)
        return st

    def rejected(self, st):
        st = super().rejected(st)
        return st.set_ts(ts_set(st.ts, x=self.x0))

    def result(self, ip, st, fi, prod, args, node):
        # dropped at reuse: equal names while still on the list are renamed
        stk = xget(st, "stk")
        n = xget(st, "n") if fi.cls is not None and self.counted else 0
        v = sym("res:%s:%d:%d:%d" % (prod, node.lineno, node.col_offset, n))
        k = 0
        while any(i[1] is v for i in stk):
            k += 1
            v = sym("res:%s:%d:%d:%d.%d" % (prod, node.lineno,
                                            node.col_offset, n, k))
        st = st.drop_terms(v)
        rt = self.result_type(prod)
        if rt:
            st = st._upd("types", v, ip.m.subclasses(rt))
        if self.counted:
            st = xset(st, n=n + 1)
        self.scope_check(ip, st, prod, args, node)
        if prod == "parameters" and not ts_get(st.ts, "rej"):
            st = self.function_name(ip, st, args, node)
        if ts_get(st.ts, "rej"):
            return st, v
        if prod not in ("section", "trlc_entry", "preamble", "references",
                        "ref_list", "ref"):
            st = self.push(st, prod, v)
        return st, v

    def scope_check(self, ip, st, prod, args, node):
        if ts_get(st.ts, "rej"):
            return
        if prod in ("expression", "relation", "simple_expression", "term",
                    "factor", "primary", "name", "quantified_expression",
                    "conditional_expression", "parameters") and \
                "scope" in args and self.scope is not None:
            sc = ip.norm(st, args["scope"])
            if sc.tag == "obj":
                self.own_scope(ip, st, sc, prod, node)
            elif sc is self.scope:
                self.good("names are looked up in the given scope")
            else:
                self.mistake(ip, node, "scope of " + prod, "%s is parsed in "
                             "another scope than its context" % prod)
        if prod == "value" and args.get("typ") is not None:
            self.value_type(ip, st, args["typ"], node)
        if prod == "trlc_entry" and self.top.endswith(
                "parse_section_declaration"):
            if any(s[0] == "sec" for s in xget(st, "scopes")):
                self.good("entries are in their section")
            else:
                self.mistake(ip, node, "section", "the entries of a section "
                             "are parsed before it is opened")

    def value_type(self, ip, st, typ, node):
        """a value is read according to the type of its place"""
        stk = xget(st, "stk")
        t = ip.norm(st, typ)
        good = False
        if self.typ is not None and self.seqs is None:
            good = t.tag == "attr" and t.a[0] is self.typ and \
                t.a[1] == "element_type"
            what = "the element type"
        elif self.seqs is not None:
            k = len([y for y in xget(st, "marks") if y == "assigned"])
            comps = [i for i, x in enumerate(self.seqtext) if x in "co"]
            good = k < len(comps) and t.tag == "attr" and \
                t.a[0] is sym("seq:%d" % comps[k]) and t.a[1] == "n_typ"
            what = "the type of component %d" % (k + 1)
        elif stk and stk[-1][0] == "IDENTIFIER":
            good = t.tag == "attr" and t.a[1] == "n_typ" and \
                self.looked_up(ip, st, t.a[0], stk[-1:], "components")
            what = "the type of the named component"
        else:
            return
        if good:
            self.good("values are read as " + what)
        else:
            self.mistake(ip, node, "type of value", "a value is not read as "
                         "%s" % what)

    def own_scope(self, ip, st, sc, prod, node):
        """the names a check can use"""
        tabs = [x[1] for x in xget(st, "scopes")
                if x[0] == "tab" and x[2] is sc]
        kinds = [t.a[1] if t.tag == "attr" else "?" for t in tabs]
        if kinds == ["stab", "symbols", "components"]:
            self.good("checks see builtins, package and components")
        else:
            self.mistake(ip, node, "scope of " + prod, "names are looked up "
                         "in %s instead of the components, the package and "
                         "the builtin names" % (", ".join(
                             reversed(kinds)) or "nothing"))

    def function_name(self, ip, st, args, node):
        stk = xget(st, "stk")
        if not stk or stk[-1][0] != "IDENTIFIER":
            self.mistake(ip, node, "call", "a function is called without "
                         "its name")
            return st
        n = args.get("n_name")
        if n is None:
            return st
        ids = [i for i in self.refs(stk, [n]) if stk[i][0] == "IDENTIFIER"]
        if not ids or not self.looked_up(ip, st, n, [stk[i] for i in ids]):
            self.mistake(ip, node, "call", "the function called is not the "
                         "one named")
        else:
            self.good("the named function is called")
        return self.consume(st, ids or [len(stk) - 1])

    scope = sym("scope")

    # -- items -----------------------------------------------------------------
    def find(self, stk, v):
        for i in range(len(stk) - 1, -1, -1):
            if stk[i][1] is v:
                return i
        return None

    def refs(self, stk, vs):
        """indices of all items which occur in the terms vs"""
        subs = set()
        for v in vs:
            if v is not None:
                subs |= set(subterms(v))
        return [i for i in range(len(stk)) if stk[i][1] in subs]

    def value_of(self, ip, st, tokv):
        return ip.norm(st, mk("attr", tokv, "value", 0))

    def is_value(self, ip, st, v, item):
        v = ip.norm(st, v)
        if v is ip.norm(st, mk("attr", item[1], "value", 0)):
            return True
        h = st.heap.get((item[1], "value"))
        if h is not None and v is h:
            return True
        return v.tag == "attr" and v.a[0] is item[1] and v.a[1] == "value"

    # -- hooks -----------------------------------------------------------------
    def call_hook(self, ip, st, fi, self_v, args, node):
        if not self.is_parser(fi):
            a = [args.get(p) for p in fi.params[1:]]
            r = self.effect(ip, st, fi.name, self_v, a, node,
                            {p: args[p] for p in fi.params[1:]
                             if p in args})
            if r is not None:
                return r
        elif fi.name == "__init__" and self_v is not self.SELF:
            return [("ret", st, NONE)]
        return super().call_hook(ip, st, fi, self_v, args, node)

    def on_virtual(self, ip, st, name, cands, self_v, args, kw, node):
        d = dict(kw or {})
        if cands:
            for p, a in zip(cands[0].params[1:], args):
                d[p] = a
        return self.effect(ip, st, name, self_v, list(args) +
                           list((kw or {}).values()), node, d)

    def on_ext(self, ip, st, name, recv, args, kw, node):
        if recv is not None and name in (".append", ".pop", ".add") and (
                recv.tag == "obj" and recv.a[0] in ("list", "set") or
                recv.tag == "attr" and recv.a[0] is self.SELF and
                recv.a[1] == "section"):
            return None
        if name.startswith(".") and name[1:] in SINKS | QUERIES | PURE:
            return self.effect(ip, st, name[1:], recv, list(args), node,
                               dict(kw or {}))
        return None

    def effect(self, ip, st, name, recv, args, node, kw):
        if name in PURE:
            return [("ret", st, NONE)]
        if name in QUERIES:
            if self.seqs is not None and name in ("iter_sequence",
                                                  "has_separators"):
                return None
            sel = [ip.norm(st, a) for k, a in
                   (kw.items() if kw else enumerate(args))
                   if a is not None and k not in ("mh", "self")]
            sel = [a for a in sel if a is not ip.norm(
                st, mk("attr", self.SELF, "mh", 0))]
            if name == "lookup" and len(sel) > 1:
                cls = sel[1]
                sel = sel[:1]
            t = op(name, ip.norm(st, recv), *sel)
            if name == "lookup":
                self.visibility(ip, st, recv, node)
            return [("ret", st, t)]
        if name == "push" and recv is not None and \
                not ts_get(st.ts, "rej"):
            sc = xget(st, "scopes")
            return [("ret", xset(st, scopes=sc + (
                ("tab", ip.norm(st, args[-1]), ip.norm(st, recv)),)), NONE)]
        if name == "pop" and recv is not None:
            sc = xget(st, "scopes")
            return [("ret", xset(st, scopes=sc[:-1]), NONE)]
        if name in SINKS:
            if ts_get(st.ts, "rej"):
                return [("ret", st, NONE)]
            return [("ret", self.sink(ip, st, name, recv, args, node, kw),
                     NONE)]
        return None

    def visibility(self, ip, st, recv, node):
        pass

    def is_parser_list(self, recv):
        return recv.tag == "attr" and recv.a[0] is self.SELF

    def on_mutate(self, ip, st, base, meth, args, node):
        if ts_get(st.ts, "rej"):
            return st
        if base.tag == "attr" and base.a[0] is self.SELF and \
                base.a[1] == "section":
            sc = xget(st, "scopes")
            if meth == "append":
                st = xset(st, scopes=sc + (("sec", args[0]),))
                return self.consume(st, self.refs(xget(st, "stk"), args))
            if meth == "pop":
                if not sc or sc[-1][0] != "sec":
                    self.mistake(ip, node, "section", "a section is closed "
                                 "which was not opened here")
                return xset(st, scopes=sc[:-1])
        if meth in ("append", "add", "__setitem__", "insert"):
            stk = xget(st, "stk")
            used = self.refs(stk, args)
            if meth == "__setitem__" and base.tag == "attr" and \
                    base.a[1] == "frozen":
                return self.freeze(ip, st, base, args, node)
            if base.tag == "obj" and base.a[0] == "list":
                return self.consume(st, [i for i in used
                                         if stk[i][0] != "IDENTIFIER"])
        return st

    def freeze(self, ip, st, base, args, node):
        stk = xget(st, "stk")
        key, val = args
        j = self.find(stk, val)
        names = [i for i in self.refs(stk, [key])
                 if stk[i][0] == "IDENTIFIER"]
        key = ip.norm(st, key)
        if j is None:
            self.mistake(ip, node, "freeze", "the value of a frozen "
                         "component is not the one given")
            return st
        if not names or names[-1] != j - 1 or not (
                key.tag == "attr" and key.a[1] == "name"):
            self.mistake(ip, node, "freeze", "the value is not stored for "
                         "the component which is frozen")
        else:
            self.good("freeze: the named component gets the value")
        return self.consume(st, names + [j])

    def consume(self, st, idx):
        stk = xget(st, "stk")
        return xset(st, stk=tuple(x for i, x in enumerate(stk)
                                  if i not in idx))

    # -- sinks -----------------------------------------------------------------
    def sink(self, ip, st, name, recv, args, node, kw):
        stk = xget(st, "stk")
        args = [ip.norm(st, a) for a in args if a is not None]
        used = self.refs(stk, args)
        ri = self.find(stk, recv) if recv is not None else None
        if name == "register":
            val = args[-1]
            st = xset(st, regs=xget(st, "regs") | {(ip.norm(st, recv), val)})
            if ri is None and not self.is_own(ip, st, recv) and \
                    val.tag == "obj" and val.a[0] != "Quantified_Variable":
                rn = ip.norm(st, recv)
                owner = rn.a[0] if rn.tag == "attr" else None
                if owner is not None and self.find(stk, owner) is not None:
                    # a member of a declaration under construction
                    self.good("%s is a member of its declaration" % val.a[0])
                    return self.consume(st, [i for i in used if
                                             stk[i][1] is val])
            if val.tag == "obj" and val.a[0] in ("Package", "Enumeration_Type",
                                                 "Tuple_Type", "Record_Type",
                                                 "Record_Object",
                                                 "Quantified_Variable"):
                return st
            return self.consume(st, [i for i in used if i != ri])
        if name == "assign":
            return self.assign(ip, st, recv, args, node)
        if name == "add_check" and recv is not None and \
                ip.norm(st, recv) is not self.ctype:
            # the block itself, which is not what performs the check
            return st
        if name in ("add_elsif", "set_else_part"):
            val = args[-1]
            j = self.find(stk, val)
            if ri is None or j is None or j != ri + 1 + (
                    1 if name == "x" else 0):
                self.mistake(ip, node, name, "%s does not get the part which "
                             "was just read" % name)
            else:
                self.good("Conditional_Expression: " + name)
            return self.consume(st, [j] if j is not None else [])
        return self.consume(st, [i for i in used if i != ri])

    def is_own(self, ip, st, recv):
        r = ip.norm(st, recv)
        return r.tag == "attr" and r.a[1] == "symbols"

    def assign(self, ip, st, recv, args, node):
        stk = xget(st, "stk")
        if len(args) < 2:
            return st
        comp, val = args[0], args[1]
        j = self.find(stk, val)
        v = ip.norm(st, val)
        if j is None:
            # the value of a frozen component
            if v.tag == "op" and v.a[0] == "get_freezing_expression":
                if comp in v.a[1:]:
                    self.good("frozen components get their value")
                else:
                    self.mistake(ip, node, "assign", "a component gets the "
                                 "frozen value of another")
                return st
            self.mistake(ip, node, "assign", "the value of a component is "
                         "not the one which was read")
            return st
        if self.seqs is not None:
            want = [i for i in range(9) if comp is ip.norm(
                st, mk("attr", sym("seq:%d" % i), "name", 0))]
            k = st.ts and [y for y in xget(st, "marks") if y == "assigned"]
            comps = [i for i, x in enumerate(self.seqtext) if x in "co"]
            if want and len(k) < len(comps) and want[0] == comps[len(k)]:
                self.good("tuple: each component gets its value")
            else:
                self.mistake(ip, node, "assign", "component %d of a tuple "
                             "does not get value %d" % (len(k) + 1,
                                                        len(k) + 1))
            st = xset(st, marks=xget(st, "marks") + ("assigned",))
            return self.consume(st, [j])
        names = [i for i in self.refs(stk, [comp])
                 if stk[i][0] == "IDENTIFIER"]
        if not names or names[-1] != j - 1:
            self.mistake(ip, node, "assign", "the value is not assigned to "
                         "the component named before it")
        elif not self.looked_up(ip, st, comp, [stk[names[-1]]],
                                "components"):
            self.mistake(ip, node, "assign", "the component is not looked up "
                         "by its name in the components of the type")
        else:
            self.good("record: the named component gets the value")
        return self.consume(st, names + [j])

    def looked_up(self, ip, st, v, items, table=None):
        """v is the meaning of the (qualified) name given by items"""
        v = ip.norm(st, v)
        if v.tag != "op" or v.a[0] not in ("lookup", "lookup_direct"):
            return False
        if not items or len(v.a) < 3:
            return False
        if v.a[2] is not items[-1][1] and not (
                v.a[0] == "lookup_direct" and
                self.is_value(ip, st, v.a[2], items[-1])):
            return False
        recv = v.a[1]
        if table is not None:
            return recv.tag == "attr" and recv.a[1] == table
        if len(items) == 2:
            return recv.tag == "attr" and recv.a[1] == "symbols" and \
                self.looked_up(ip, st, recv.a[0], items[:1])
        return True

    # -- nodes -----------------------------------------------------------------
    def on_new(self, ip, st, cls, obj, args, kw, node):
        if ts_get(st.ts, "rej"):
            return st
        f = getattr(self, "n_" + cls.name, None)
        if cls.name in LITERALS:
            f = self.literal
        if f is None:
            return st
        args = {k: ip.norm(st, v) for k, v in args.items() if v is not None}
        stk = xget(st, "stk")
        try:
            used, at = f(ip, st, cls.name, stk, args, node)
        except Bad as e:
            self.mistake(ip, node, cls.name, str(e))
            used = self.refs(stk, args.values())
            at = min(used) if used else len(stk)
        except KeyError as e:
            raise Undecided("%s has no argument %s" % (cls.name, e))
        else:
            o = args.get("operator")
            self.good(cls.name + (" " + o.a[1] if o is not None and
                                  o.tag == "enum" else ""))
        if used is None:
            return st
        new = [x for i, x in enumerate(stk) if i not in used]
        pos = len([i for i in range(at) if i not in used])
        new.insert(pos, (self.level_of(cls.name, args, stk), obj,
                         xget(st, "scopes")))
        return xset(st, stk=tuple(new))

    def level_of(self, cls, args, stk):
        """how tightly the new node binds, as part of its label"""
        o = args.get("operator")
        on = o.a[1] if o is not None and o.tag == "enum" else None
        if cls == "Range_Test":
            return "node:3"
        if cls == "Binary_Expression" and on in LEVELS:
            return "node:%s %s" % (LEVELS[on], on)
        if cls == "Unary_Expression" and on in UN:
            if on == "LOGICAL_NOT":
                i = self.find(stk, args["n_operand"])
                return "node:3" if i is not None and \
                    level(stk[i][0]) == 3 else "node:6"
            return "node:6" if on == "ABSOLUTE_VALUE" else "node:4.5"
        return "node"

    def operand(self, stk, v, what, least=0, chain=None):
        i = self.find(stk, v)
        if i is None:
            raise Bad("the %s is not an operand which was read" % what)
        if stk[i][0] in KEEP_KINDS:
            raise Bad("the %s is a token" % what)
        if level(stk[i][0]) < least and not (
                chain is not None and stk[i][0].endswith(" " + chain)):
            raise Bad("the %s is %s, which binds less tightly" % (
                what, LEVEL_NAMES.get(level(stk[i][0]), "an expression")))
        return i

    def located(self, args, items):
        loc = args.get("location")
        if loc is None:
            return
        # somewhere in the construct
        vs = [x[1] for x in items]
        sub = subterms(loc)
        if not any(v in sub for v in vs):
            raise Bad("its location is not inside the construct")

    def n_Binary_Expression(self, ip, st, name, stk, args, node):
        o = args.get("operator")
        if o is None or o.tag != "enum":
            raise Undecided("operator is not known")
        on = o.a[1]
        if self.builtin is not None and on.startswith("STRING_"):
            return self.builtin_node(ip, st, on, [args["n_lhs"],
                                                  args["n_rhs"]], stk)
        if on not in BIN:
            return None, 0
        left, right = NEEDED.get(LEVELS.get(on), (0, 0))
        i = self.operand(stk, args["n_lhs"], "left operand of " + on, left,
                         on if on in ("LOGICAL_AND", "LOGICAL_OR") else None)
        j = self.operand(stk, args["n_rhs"], "right operand of " + on, right)
        if i >= j:
            raise Bad("%s: the operands are exchanged" % on)
        mid = [x[0] for x in stk[i + 1:j]]
        used = set(range(i, j + 1))
        want = [BIN[on]] if BIN[on] else []
        if on in ("STRING_CONTAINS", "ARRAY_CONTAINS") and \
                mid[:1] == ["'not'"]:
            used.discard(i + 1)
            mid = mid[1:]
        if mid != want:
            raise Bad("operator %s is built for %s" %
                      (on, " ".join(mid) or "no operator"))
        if on != "INDEX":
            self.located(args, stk[i:j + 1])
        if j != len(stk) - 1:
            raise Bad("%s: the right operand is not the last read" % on)
        return used, j

    def n_Unary_Expression(self, ip, st, name, stk, args, node):
        o = args.get("operator")
        if o is None or o.tag != "enum":
            # chosen by the token: keep exact
            raise Undecided("operator is not known")
        on = o.a[1]
        if self.builtin is not None and on not in UN:
            return self.builtin_node(ip, st, on, [args["n_operand"]], stk)
        j = self.operand(stk, args["n_operand"], "operand")
        if on not in UN:
            raise Bad("%s is not an operator of the grammar" % on)
        if on == "LOGICAL_NOT" and (stk[j][0] == "node:3" or
                                    stk[j][0].endswith("_CONTAINS")):
            pass
        else:
            self.operand(stk, args["n_operand"], "operand of " + on,
                         5 if on in ("PLUS", "MINUS") else 7)
        if j == 0 or stk[j - 1][0] != UN[on]:
            raise Bad("operator %s is built for %s" %
                      (on, stk[j - 1][0] if j else "no operator"))
        self.located(args, stk[j - 1:j])
        return {j - 1, j}, j

    def n_Range_Test(self, ip, st, name, stk, args, node):
        i = self.operand(stk, args["n_lhs"], "tested value", 4)
        j = self.operand(stk, args["n_lower"], "lower bound", 4)
        k = self.operand(stk, args["n_upper"], "upper bound", 4)
        if not i < j < k:
            raise Bad("the tested value and the bounds are exchanged")
        mid = [x[0] for x in stk[i + 1:j]]
        used = set(range(i, k + 1))
        if mid[:1] == ["'not'"]:
            used.discard(i + 1)
            mid = mid[1:]
        if mid != ["'in'"] or [x[0] for x in stk[j + 1:k]] != ["RANGE"]:
            raise Bad("the range test is built for other operators")
        self.located(args, stk[i:k + 1])
        return used, k

    def literal(self, ip, st, name, stk, args, node):
        t = args.get("token")
        i = self.find(stk, t) if t is not None else None
        if i is None:
            raise Bad("its token is not the one which was read")
        if stk[i][0] not in LITERALS[name]:
            raise Bad("%s is built for %s" % (name, stk[i][0]))
        typ = args.get("typ")
        if name in BUILTIN_TYPES and typ is not None and not (
                typ.tag == "attr" and typ.a[1] in BUILTIN_TYPES[name]):
            raise Bad("%s has the type %s" % (name, show(typ)))
        if name == "String_Literal" and typ is not None:
            want = "builtin_mstr" if "parse_markup" in \
                ip.frame.fi.qual or "parse_markup" in self.top \
                else "builtin_str"
            if typ.a[1] != want:
                raise Bad("%s has the type %s" % (name, show(typ)))
        return {i}, i

    def n_Name_Reference(self, ip, st, name, stk, args, node):
        e = args.get("entity")
        ids = [i for i in self.refs(stk, [e]) if stk[i][0] == "IDENTIFIER"]
        if not ids:
            raise Bad("the name which was read is not looked up")
        if not self.looked_up(ip, st, e, [stk[i] for i in ids]):
            raise Bad("the entity is not the meaning of the name")
        self.located(args, [stk[i] for i in ids])
        return set(ids), ids[0]

    def n_Enumeration_Literal(self, ip, st, name, stk, args, node):
        e = args.get("literal")
        u = self.refs(stk, [e])
        if not u or stk[u[-1]][0] != "IDENTIFIER":
            raise Bad("the literal which was read is not looked up")
        if not self.looked_up(ip, st, e, [stk[u[-1]]], "literals"):
            raise Bad("the literal is not looked up among the literals of "
                      "its type")
        return set(u), u[0]

    def n_Field_Access_Expression(self, ip, st, name, stk, args, node):
        i = self.operand(stk, args["n_prefix"], "prefix")
        f = args["n_field"]
        if i + 1 >= len(stk) or stk[i + 1][0] != "IDENTIFIER":
            raise Bad("no field name was read after the prefix")
        t = stk[i + 1]
        sub = subterms(f)
        if t[1] not in sub and self.value_of(ip, st, t[1]) not in sub:
            raise Bad("the field is not the named one")
        self.located(args, [t])
        return {i, i + 1}, i

    def n_Quantified_Variable(self, ip, st, name, stk, args, node):
        for i, x in enumerate(stk):
            if x[0] == "IDENTIFIER" and i and \
                    stk[i - 1][0] in ("'forall'", "'exists'"):
                break
        else:
            raise Bad("there is no variable name")
        if not self.is_value(ip, st, args["name"], x):
            raise Bad("the variable does not have the name which was read")
        typ = args["n_typ"]
        if typ.tag != "attr" or typ.a[1] != "element_type":
            raise Bad("the type of the variable is not the element type")
        return {i}, i

    def n_Quantified_Expression(self, ip, st, name, stk, args, node):
        v = self.operand(stk, args["n_variable"], "variable")
        s = self.operand(stk, args["n_source"], "array")
        e = self.operand(stk, args["n_expr"], "body")
        q = v - 1
        if q < 0 or stk[q][0] not in ("'forall'", "'exists'"):
            raise Bad("there is no quantifier before the variable")
        u = args["universal"]
        if u.tag != "const" or u.a[1] != (stk[q][0] == "'forall'"):
            raise Bad("%s is built as %s" % (
                stk[q][0], "forall" if u is TRUE else "exists"))
        mid = [x[0] for i, x in enumerate(stk[v:e]) if v + i not in (v, s)]
        if mid != ["'in'"]:
            raise Bad("the quantifier is built of other parts")
        tabs = [x[1] for x in stk[e][2] if x[0] == "tab"]
        regs = xget(st, "regs")
        if not any((t, args["n_variable"]) in regs for t in tabs):
            raise Bad("the variable is not visible in the body")
        if [x for x in stk[s][2] if x[0] == "tab"] != tabs[:-1]:
            raise Bad("the variable is visible in the array")
        return set(range(q, e + 1)), q

    def n_Action(self, ip, st, name, stk, args, node):
        c = self.operand(stk, args["n_condition"], "condition")
        e = self.operand(stk, args["n_expression"], "expression")
        t = self.find(stk, args["t_kind"]) if "t_kind" in args else c - 1
        if c >= e:
            raise Bad("condition and expression are exchanged")
        if t is None or t != c - 1 or e != c + 1:
            raise Bad("the action is built of other parts")
        return {t, c, e}, t

    def n_Conditional_Expression(self, ip, st, name, stk, args, node):
        a = self.operand(stk, args["if_action"], "first action")
        return {a}, a

    # builtins: operands are numbered
    def builtin_node(self, ip, st, on, vs, stk):
        want = self.builtin["ops"].get(on)
        if on in ("STRING_LENGTH", "ARRAY_LENGTH"):
            tt = ip.types_of(st, mk("attr", vs[0], "typ", 0)) or \
                frozenset(["?"])
            strs = ip.m.subclasses("Builtin_String")
            if (on == "STRING_LENGTH") != (tt <= strs) or \
                    on == "ARRAY_LENGTH" and tt & strs:
                raise Bad("%s is built for the other kind of argument" % on)
        if want is None:
            raise Bad("%s() becomes %s" % (self.builtin["name"], on))
        if [v.a[0].rsplit(":", 1)[-1] if v.tag == "sym" else "?"
                for v in vs] != [str(i) for i in range(len(vs))]:
            raise Bad("%s() gets other arguments or another order" %
                      self.builtin["name"])
        self.built.add(on)
        if xget(st, "n") != len(vs):
            raise Bad("%s() is built of %d arguments although %d were given"
                      % (self.builtin["name"], len(vs), xget(st, "n")))
        return set(range(len(stk))), 0

    def n_OneOf_Expression(self, ip, st, name, stk, args, node):
        if self.builtin is None:
            return None, 0
        if "OneOf" not in self.builtin["ops"]:
            raise Bad("%s() becomes oneof" % self.builtin["name"])
        items = ip.closed_items(st, args["choices"])
        if items is None:
            return None, 0
        if [v.a[0].rsplit(":", 1)[-1] if v.tag == "sym" else "?"
                for v in items] != [str(i) for i in range(xget(st, "n"))]:
            raise Bad("oneof gets other choices than were given")
        if not items:
            raise Bad("oneof() is built of no choices")
        self.built.add("OneOf")
        return set(range(len(stk))), 0

    # declarations
    def named(self, ip, st, stk, args, what):
        for i in range(len(stk) - 1, -1, -1):
            if stk[i][0] == "IDENTIFIER" and \
                    self.is_value(ip, st, args["name"], stk[i]):
                break
        else:
            raise Bad("%s does not have the name which was read" % what)
        d = args.get("description", NONE)
        used = {i}
        if i + 1 < len(stk) and stk[i + 1][0] == "STRING":
            used.add(i + 1)
            if not self.is_value(ip, st, d, stk[i + 1]):
                raise Bad("%s does not have its description" % what)
        elif d is not NONE:
            raise Bad("%s has a description which was not read" % what)
        loc = args.get("location")
        if loc is not None and not (
                loc.tag == "attr" and loc.a[0] is stk[i][1]):
            raise Bad("%s is not located at its name" % what)
        return i, used

    def n_Enumeration_Type(self, ip, st, name, stk, args, node):
        i, used = self.named(ip, st, stk, args, name)
        return used, i

    n_Tuple_Type = n_Enumeration_Type

    def n_Enumeration_Literal_Spec(self, ip, st, name, stk, args, node):
        i, used = self.named(ip, st, stk, args, name)
        if self.find(stk, args["enum"]) is None:
            raise Bad("the literal does not belong to its enumeration")
        return used, i

    def n_Composite_Component(self, ip, st, name, stk, args, node):
        i, used = self.named(ip, st, stk, args, name)
        k = max(used) + 1
        o = args.get("optional", FALSE)
        has = k < len(stk) and stk[k][0] == "'optional'"
        if has:
            used.add(k)
        if o.tag != "const" or bool(o.a[1]) != has:
            raise Bad("the component is %s although it is declared %s" %
                      ("optional" if o is TRUE else "not optional",
                       "optional" if has else "without optional"))
        t = self.find(stk, args["n_typ"])
        if t is None or t < k:
            raise Bad("the component does not have the type which was read")
        used.add(t)
        p = args.get("member_of")
        if p is not None and not (p.tag == "sym" and
                                  p.a[0].startswith("n_")):
            raise Bad("the component belongs to another type")
        return used, i

    def n_Array_Type(self, ip, st, name, stk, args, node):
        t = self.find(stk, args["element_type"])
        if t is None:
            raise Bad("the element type is not the one which was read")
        lab = [x[0] for x in stk[t + 1:]]
        if lab == ["INTEGER", "RANGE", "*"]:
            hi = args.get("upper_bound") is NONE
        elif lab == ["INTEGER", "RANGE", "INTEGER"]:
            hi = self.is_value(ip, st, args["upper_bound"], stk[t + 3])
        else:
            raise Bad("the array type is built of other parts")
        if not self.is_value(ip, st, args["lower_bound"], stk[t + 1]):
            raise Bad("the lower bound is not the one which was read")
        if not hi:
            raise Bad("the upper bound is not the one which was read")
        return set(range(t, len(stk))), t

    def n_Union_Type(self, ip, st, name, stk, args, node):
        ts = args.get("types")
        items = ip.closed_items(st, ts) if ts is not None else None
        if items is None:
            return None, 0
        got = [x.a[0].split(":")[4] if x.tag == "sym" and
               x.a[0].startswith("res:qualified_name") else "?"
               for x in items]
        if got != [str(i) for i in range(xget(st, "n"))]:
            raise Bad("the union has other members than were listed")
        return set(), len(stk)

    def n_Separator(self, ip, st, name, stk, args, node):
        i = self.find(stk, args.get("token"))
        if i is None or stk[i][0] not in SEPS + ("IDENTIFIER",):
            raise Bad("the separator is not the token which was read")
        return {i}, i

    def n_Record_Type(self, ip, st, name, stk, args, node):
        i, used = self.named(ip, st, stk, args, name)
        abst = i > 0 and stk[i - 1][0] == "'abstract'"
        a = args.get("is_abstract", FALSE)
        if a.tag != "const" or bool(a.a[1]) != abst:
            raise Bad("the type is %s although it is declared %s" %
                      ("abstract" if a is TRUE else "not abstract",
                       "abstract" if abst else "without abstract"))
        if abst:
            used.add(i - 1)
        p = args.get("n_parent", NONE)
        k = max(used | {i}) + 1
        rest = [x for x in range(k, len(stk))]
        if rest:
            if p is not stk[rest[-1]][1]:
                raise Bad("the type does not extend the type named")
            used |= set(rest)
        elif p is not NONE:
            raise Bad("the type extends another although none was named")
        return used, i

    def on_write(self, ip, st, base, name, val, node):
        if ts_get(st.ts, "rej"):
            return st
        if name == "is_final" and base.tag == "obj" and \
                base.a[0] == "Record_Type":
            stk = xget(st, "stk")
            has = [i for i, x in enumerate(stk) if x[0] == "'final'"]
            v = ip.norm(st, val)
            if v is TRUE and not has:
                self.mistake(ip, node, "is_final", "a type becomes final "
                             "although it is not declared final")
            elif v is TRUE:
                self.good("Record_Type: final")
                return self.consume(st, has)
            elif v is FALSE and has:
                self.mistake(ip, node, "is_final", "a type declared final "
                             "is not marked final")
        return super().on_write(ip, st, base, name, val, node)

    def n_Check_Block(self, ip, st, name, stk, args, node):
        e = args.get("n_typ")
        u = [i for i in self.refs(stk, [e]) if stk[i][0] == "IDENTIFIER"]
        if not u or not self.looked_up(ip, st, e, [stk[u[-1]]], "symbols"):
            raise Bad("the checks are not for the type named")
        self.ctype = e
        return set(u), u[0]

    def n_Check(self, ip, st, name, stk, args, node):
        e = self.operand(stk, args["n_expr"], "condition")
        rest = list(stk[e + 1:])
        lab = [x[0] for x in rest]
        sev = "error"
        used = set(range(e, len(stk)))
        if lab and lab[0] in ("'warning'", "'error'", "'fatal'"):
            sev = lab[0][1:-1]
            rest.pop(0)
            lab.pop(0)
        s = args["severity"]
        if s.tag != "const" or s.a[1] != sev:
            raise Bad("a check of severity %s gets severity %s" %
                      (sev, show(s)))
        if not lab or lab[0] != "STRING" or args["t_message"] is not \
                rest[0][1]:
            raise Bad("the message is not the one which was read")
        x = args.get("extrainfo", NONE)
        if len(lab) > 1 and lab[1] == "STRING":
            if not self.is_value(ip, st, x, rest[1]):
                raise Bad("the details are not the ones which were read")
        elif x is not NONE:
            raise Bad("the check has details which were not read")
        a = args.get("n_anchor", NONE)
        if lab[-1] == "IDENTIFIER":
            if not self.looked_up(ip, st, a, [rest[-1]], "components"):
                raise Bad("the anchor is not the component named")
        elif a is not NONE:
            raise Bad("the check has an anchor which was not named")
        return used, e

    def sections(self, ip, st):
        return ip.norm(st, mk("attr", self.SELF, "section", 0))

    def outermost(self, ip, st):
        t, f = ip.split(st, self.sections(ip, st))
        return not t

    def n_Section(self, ip, st, name, stk, args, node):
        p = args.get("parent", NONE)
        if p is NONE:
            if not self.outermost(ip, st):
                raise Bad("the enclosing section is not the parent of the "
                          "section")
        elif p.tag == "op" and p.a[0] == "index" and (
                p.a[1] is not self.sections(ip, st) or
                p.a[2] is not const(-1)):
            raise Bad("the parent of the section is not the innermost "
                      "enclosing one")
        for i, x in enumerate(stk):
            if x[0] == "STRING" and self.is_value(ip, st, args["name"], x):
                return {i}, i
        raise Bad("the section does not have the name which was read")

    def n_Record_Object(self, ip, st, name, stk, args, node):
        i, used = self.named(ip, st, stk, args, name)
        t = args.get("n_typ")
        if i == 0 or t is not stk[i - 1][1]:
            raise Bad("the object does not have the type which was named")
        sec = args.get("section", NONE)
        if sec is NONE:
            if not self.outermost(ip, st):
                raise Bad("the object is not in its section")
        elif sec is self.sections(ip, st):
            raise Bad("the object shares the list of open sections which "
                      "is changed later")
        elif self.sections(ip, st) not in subterms(sec):
            raise Bad("the object is not in its section")
        p = args.get("n_package")
        if p is not None and not (p.tag == "attr" and p.a[1] == "package"):
            raise Bad("the object is not in the package of its file")
        return used | {i - 1}, i - 1

    def n_Record_Reference(self, ip, st, name, stk, args, node):
        ids = [i for i, x in enumerate(stk) if x[0] in
               ("IDENTIFIER", "REFLIST_IDENTIFIER")]
        if not ids or not self.is_value(ip, st, args["name"], stk[ids[-1]]):
            raise Bad("the reference does not have the name which was read")
        p = args.get("package")
        if p is None:
            raise Bad("the reference has no package")
        if len(ids) > 1:
            if not self.looked_up(ip, st, p, [stk[ids[0]]]):
                raise Bad("the package of the reference is not the one named")
        elif not (p.tag == "attr" and p.a[1] == "package"):
            raise Bad("the reference is not in the current package")
        t = args.get("typ")
        if self.typ is not None and t is not self.typ:
            raise Bad("the reference does not have the expected type")
        return set(ids), ids[0]

    typ = None
    ctype = None

    def n_Array_Aggregate(self, ip, st, name, stk, args, node):
        return set(), len(stk)

    n_Tuple_Aggregate = n_Array_Aggregate

    def n_Package(self, ip, st, name, stk, args, node):
        for i, x in enumerate(stk):
            if x[0] == "IDENTIFIER" and \
                    self.is_value(ip, st, args["name"], x):
                return {i}, i
        raise Bad("the package does not have the name which was read")

    # -- nothing is dropped ----------------------------------------------------
    IGNORED = ("RANGE", "'in'")

    def leftover(self, items, val=None):
        return [x for x in items if x[1] is not val]

    def iteration_begin(self, ip, st, node, it):
        st = super().iteration_begin(ip, st, node, it)
        if not isinstance(node, gr.ast.While) or ts_get(st.ts, "rej"):
            return st
        i = self.loop_id(ip, node)
        m = tuple(x for x in xget(st, "marks") if x[0] != i)
        return xset(st, marks=m + ((i, len(xget(st, "stk")),
                                    xget(st, "scopes")),))

    def iteration_end(self, ip, st, node, kind, start):
        if isinstance(node, gr.ast.While) and not ts_get(st.ts, "rej"):
            st = self.check_mark(ip, st, node)
        return super().iteration_end(ip, st, node, kind, start)

    def iteration_abort(self, ip, st, node, kind, start):
        if isinstance(node, gr.ast.While) and not ts_get(st.ts, "rej"):
            i = self.loop_id(ip, node)
            st = xset(st, marks=tuple(x for x in xget(st, "marks")
                                      if x[0] != i))
        return super().iteration_abort(ip, st, node, kind, start)

    def check_mark(self, ip, st, node):
        i = self.loop_id(ip, node)
        m = [x for x in xget(st, "marks") if x[0] == i]
        st = xset(st, marks=tuple(x for x in xget(st, "marks")
                                  if x[0] != i))
        if not m:
            return st
        stk = xget(st, "stk")
        extra = stk[m[0][1]:]
        if extra:
            self.mistake(ip, node, "dropped " + extra[0][0],
                         "%s is read in this loop but not used" % extra[0][0])
            st = xset(st, stk=stk[:m[0][1]])
        else:
            self.good("nothing read in the loop is lost")
        if xget(st, "scopes") != m[0][2]:
            self.mistake(ip, node, "scopes", "a scope or section opened in "
                         "this loop is not closed")
            st = xset(st, scopes=m[0][2])
        return st

    DECLARES = {"parse_enum_declaration": "Enumeration_Type",
                "parse_tuple_declaration": "Tuple_Type",
                "parse_record_declaration": "Record_Type",
                "parse_record_object_declaration": "Record_Object"}

    def conclude(self, ip, outs, fi):
        n = 0
        for o in outs:
            if o.kind != "return" or ts_get(o.st.ts, "rej") or \
                    ts_get(o.st.ts, "dev") is not None:
                continue
            n += 1
            stk = xget(o.st, "stk")
            val = ip.norm(o.st, o.val) if o.val is not None else NONE
            loc = oloc(o, fi)
            if any(x[0] == "sec" or x[2].tag != "obj" for x in
                   xget(o.st, "scopes")) and fi.name != "parse_preamble":
                self.wrong.setdefault("scopes", (
                    loc, "a scope or section is not closed"))
            rest = [x for x in stk if x[1] is not val and
                    val not in (x[1],)]
            rest = [x for x in rest if not (
                val.tag in ("op", "tuple", "attr") and
                x[1] in subterms(val))]
            rest = self.returned(ip, o, val, rest)
            if rest:
                self.wrong.setdefault("dropped " + rest[0][0], (
                    loc, "%s is read but not part of the result" %
                    rest[0][0]))
            else:
                self.good("nothing which was read is lost")
            if stk and val is NONE and len(rest) == len(stk) and rest:
                continue
            if fi.qual == "Parser.parse_qualified_name":
                ids = [x for x in stk if "IDENTIFIER" in x[0]]
                if self.looked_up(ip, o.st, val, ids):
                    self.good("the result is the meaning of the name")
                else:
                    self.wrong.setdefault("result", (
                        loc, "the result is not the meaning of the name"))
            d = self.DECLARES.get(fi.name)
            if d is not None and val.tag == "obj" and val.a[0] == d:
                if any(v is val and t.tag == "attr" and t.a[1] == "symbols"
                       and t.a[0].tag == "attr" and
                       t.a[0].a[1] == "package"
                       for t, v in xget(o.st, "regs")):
                    self.good(d + " is registered in its package")
                else:
                    self.wrong.setdefault("unregistered " + d, (
                        loc, "%s is not registered in its package" % d))
            elif d is not None:
                self.wrong.setdefault("result", (
                    loc, "the result is not the declared %s" % d))
        return n

    def returned(self, ip, o, val, rest):
        """items whose value is in the returned structure"""
        if val.tag == "tuple" or val.tag == "obj" and val.a[0] in (
                "list", "tuple"):
            items = ip.closed_items(o.st, val) or list(val.a)
            vs = [y for y in items if isinstance(y, V)]
            return [x for x in rest if not any(x[1] in subterms(v)
                                               for v in vs)]
        return rest


EXPR = ("Parser.parse_expression", "Parser.parse_relation",
        "Parser.parse_simple_expression", "Parser.parse_term",
        "Parser.parse_factor", "Parser.parse_primary",
        "Parser.parse_quantified_expression",
        "Parser.parse_conditional_expression", "Parser.parse_name",
        "Parser.parse_boolean")
DECL = ("Parser.parse_type_declaration", "Parser.parse_enum_declaration",
        "Parser.parse_tuple_declaration", "Parser.parse_union_type",
        "Parser.parse_record_declaration", "Parser.parse_record_component",
        "Parser.parse_check_block", "Parser.parse_section_declaration",
        "Parser.parse_trlc_entry", "Parser.parse_record_object_declaration",
        "Parser.parse_markup_string", "Parser.parse_rsl_file",
        "Parser.parse_trlc_file")


def tree(ctx, rule, qual, prod, factory=TreeClient, **kw):
    r = analyse(ctx, rule, qual, prod, client=factory, **kw)
    if r is None:
        return None
    cl, acc, fi = r
    name = kw.get("label") or qual.split(".")[-1]
    for what, (loc, text) in sorted(cl.wrong.items()):
        ctx.violation(rule, "%s:%s" % (name, what), loc,
                      "in %s: %s" % (name, text))
    for what, n in sorted(cl.trees.items()):
        if what not in cl.wrong:
            ctx.ok(rule, "%s: %s" % (name, what))
    ctx.count("constructions checked", sum(cl.trees.values()))
    return fi


#: function -> (arity, at least, nodes); a conversion has no arity
BUILTINS = {"len": (1, False, ("STRING_LENGTH", "ARRAY_LENGTH")),
            "startswith": (2, False, ("STRING_STARTSWITH",)),
            "endswith": (2, False, ("STRING_ENDSWITH",)),
            "matches": (2, False, ("STRING_REGEX",)),
            "oneof": (1, True, ("OneOf",)),
            "Integer": (None, False, ("CONVERSION_TO_INT",)),
            "Decimal": (None, False, ("CONVERSION_TO_DECIMAL",))}


class CallClient(TreeClient):
    """a call of one builtin function with up to three arguments"""
    counted = ("parse_builtin",)
    max_heads = 12
    limit = 3

    def nonterminal(self, ip, st, fi, prod, args, node):
        if xget(st, "n") >= self.limit:
            return []
        return super().nonterminal(ip, st, fi, prod, args, node)


class UnionClient(CallClient):
    counted = ("parse_union_type",)


class ValueClient(TreeClient):
    keep_seps = False
    typ = sym("arg:typ")


def calls(ctx, rule):
    m = ctx.m
    for name, (arity, least, ops) in sorted(BUILTINS.items()):
        made = []

        def client(*a):
            c = CallClient(*a)
            c.builtin = {"name": name, "ops": {o: 1 for o in ops}}
            made.append(c)
            return c
        n = sym("arg:n_name")
        cls = "Builtin_Function" if arity is not None else \
            "Builtin_" + name
        attrs = [(n, "name", const(name))]
        if arity is not None:
            attrs += [(n, "arity", const(arity)),
                      (n, "arity_at_least", const(least))]
        r = tree(ctx, rule, "Parser.parse_builtin", "parameters",
                 factory=client, types={"n_name": [cls]}, attrs=attrs,
                 label="parse_builtin(%s)" % name)
        if r is None:
            continue
        c = made[-1]
        for o in ops:
            if o in c.built:
                ctx.ok(rule, "%s() becomes %s" % (name, o))
            elif c.wrong:
                pass
            else:
                ctx.violation(rule, "%s() becomes %s" % (name, o),
                              r.loc(), "a call of %s never becomes %s" %
                              (name, o))


class TableClient(TrlcClient):
    """what is registered in the global table"""
    inline_depth = 3

    def call_hook(self, ip, st, fi, self_v, args, node):
        if fi.name == "__init__" and fi.cls is not None and \
                fi.cls.name.startswith("Builtin_"):
            a = tuple((k, args.get(k)) for k in
                      ("name", "arity", "arity_at_least"))
            return [("ret", st.set_attr(self_v, "$decl", mk(
                "decl", fi.cls.name, a)), NONE)]
        if fi.name == "register":
            v = args.get(fi.params[2])
            d = st.heap.get((v, "$decl")) or mk("decl", v.a[0], ()) \
                if v is not None and v.tag == "obj" else None
            return [("ret", st.set_ts(st.ts + (d,)), NONE)]
        return None


def table(ctx, rule):
    """every builtin function is declared with its arity"""
    fi = ctx.func("Symbol_Table.create_global_table")
    ip = Interp(ctx.m, TableClient())
    outs = gr.guarded(ctx, rule, "builtin table",
                      lambda: ip.run(fi, {}, State().set_ts(())))
    if outs is None:
        return
    ctx.analysed(ip)
    for o in outs:
        if o.kind != "return":
            continue
        have = {}
        for d in o.st.ts:
            if d is None:
                ctx.undecided(rule, "builtin table", "unknown entry")
                continue
            cls, a = d.a
            if cls == "Builtin_Function":
                a = dict(a)
                k = a["name"].a[1] if a.get("name") is not None and \
                    a["name"].tag == "const" else None
                have[k] = tuple(a[x].a[1] if a.get(x) is not None and
                                a[x].tag == "const" else None
                                for x in ("arity", "arity_at_least"))
            else:
                have[cls] = None
        for name, (arity, least, ops) in sorted(BUILTINS.items()):
            if arity is None:
                good = "Builtin_" + name in have
            else:
                good = name in have and have[name][0] == arity and \
                    bool(have[name][1]) == least
            if good:
                ctx.ok(rule, "%s is declared" % name)
            else:
                ctx.violation(rule, "%s is declared" % name, oloc(o, fi),
                              "the builtin %s is not declared with %s "
                              "parameters" % (name, arity))
        for name in ("Boolean", "String", "Markup_String"):
            if "Builtin_" + name in have:
                ctx.ok(rule, "%s is declared" % name)
            else:
                ctx.violation(rule, "%s is declared" % name, oloc(o, fi),
                              "the builtin type %s is not declared" % name)


def c10(ctx):
    for q in EXPR:
        tree(ctx, "expression", q, gr.NT[q])
    calls(ctx, "call")
    table(ctx, "call")
    from rules import nodes
    nodes.c10(ctx)


def c12(ctx):
    from rules import nodes
    nodes.c12(ctx)
    for q in DECL:
        tree(ctx, "declaration", q, gr.NT[q],
             factory=UnionClient if "union" in q else TreeClient)
    tree(ctx, "declaration", "Parser.parse_qualified_name",
         "qualified_name", args={"match_ident": TRUE,
                                 "required_subclass": NONE})
    for q in ("Markup_Parser.parse_all_references",
              "Markup_Parser.parse_ref_list",
              "Markup_Parser.parse_qualified_name"):
        tree(ctx, "reference", q, gr.NT[q], label=q)
    tree(ctx, "declaration", "Parser.parse_described_name", "described_name")
    for kind in ("rsl", "trlc"):
        tree(ctx, "declaration", "Parser.parse_preamble", "preamble",
             args={"kind": const(kind)}, label="parse_preamble(%s)" % kind)
    for allowed, req, prod in ((TRUE, FALSE, "field_declaration"),
                               (TRUE, TRUE, "field_declaration_opt"),
                               (FALSE, FALSE, "field_declaration_noopt")):
        tree(ctx, "declaration", "Parser.parse_tuple_field", prod,
             args={"optional_allowed": allowed, "optional_required": req},
             label="parse_tuple_field(%s, %s)" % (allowed.a[1], req.a[1]))
    for prod, t in gr.VALUES.items():
        tree(ctx, "value", "Parser.parse_value", prod, factory=ValueClient,
             types={"typ": [t]}, label="parse_value(%s)" % t)
    tree(ctx, "value", "Parser.parse_value", "value_ref",
         factory=ValueClient, types={"typ": ["Union_Type"]},
         label="parse_value(Union_Type)")
    for prod, s in gr.SEQS.items():
        tree(ctx, "value", "Parser.parse_value", prod, factory=ValueClient,
             types={"typ": ["Tuple_Type"]}, seq=s,
             label="parse_value(tuple %s)" % s[1])


CHECKS = {"C10": c10, "C12": c12}
EXPLAIN = {
    "C10": "Abstract interpretation of the parsing functions of expressions: "
    "every token and nonterminal with a meaning is kept until a node of the "
    "tree uses it; each construction of a node is compared with what was "
    "read for it.",
    "C12": "Abstract interpretation of the parsing functions of "
    "declarations, check blocks, sections, objects, values and references: "
    "every token and nonterminal with a meaning is kept until a node of the "
    "tree or a registration uses it."}
RULES = {
    "C10": ["expression: every node has the operator and operands which were "
            "read, in their roles and order; nothing read is dropped; names "
            "are looked up in the scope of the expression",
            "call: every builtin function exists with its arity and becomes "
            "its operator with its arguments in order",
            "node: a new node keeps what it is made of; branches and fields "
            "are collected completely"],
    "C12": ["declaration: every declared entity has the name, description, "
            "type, flags and parts which were read and is registered where "
            "it belongs",
            "value: every value is read by the type of its place and stored "
            "for the component named before it, in order",
            "reference: every reference has the package and name which were "
            "read",
            "node: a new entity or value keeps what it is made of"]}
