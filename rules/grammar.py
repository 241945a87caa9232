"""C08, C11: the parser accepts exactly the documented grammar, never
crashes on premature end of input, and always makes progress.

Every parsing function is abstractly interpreted in product with the
automaton of its production.  The next token is an abstract set of terminals
(including end of input); the contracts of peek/match/... are used at calls
and are verified against their own source separately.
"""
import ast
from sa.base import *         # noqa
from sa.absint import Budget, Undecided
from sa.report import AnchorError
from rules.driver import guarded, oloc

KEYWORDS = ("abs abstract and checks else elsif enum error exists extends "
            "false fatal final forall freeze if implies import in not null "
            "optional or package section separator then true tuple type "
            "warning xor").split()
OPERATORS = "== != < <= > >= + - * / % **".split()
KINDS = ("IDENTIFIER INTEGER DECIMAL STRING BRA KET C_BRA C_KET S_BRA S_KET "
         "DOT RANGE COMMA SEMICOLON AT COLON ASSIGN ARROW").split()
MARKUP = ("CHARACTER REFLIST_BEGIN REFLIST_END REFLIST_COMMA REFLIST_DOT "
          "REFLIST_IDENTIFIER").split()
EOF = ("EOF", None)
#: an identifier spelled like a separator of the tuple type at hand
IDX = ("IDENTIFIER", "x")

TRLC_ALPHA = frozenset([(k, None) for k in KINDS] +
                       [("KEYWORD", k) for k in KEYWORDS] +
                       [("OPERATOR", k) for k in OPERATORS] + [EOF])
MARKUP_ALPHA = frozenset([(k, None) for k in MARKUP] + [EOF])

# The grammar of the reference manual.  'x' is a keyword, "x" an operator.
# ~t: whether t is read depends on the meaning of names, not on syntax.
# ^t: other tokens may be rejected in its place, but it must be read.
# ?t: may be read or rejected.
GRAMMAR = r"""
preamble ::= 'package' IDENTIFIER { 'import' IDENTIFIER } ;
rsl_file ::= { type_declaration | check_block } EOF ;
trlc_file ::= { trlc_entry } EOF ;
described_name ::= IDENTIFIER [ STRING ] ;
qualified_name ::= IDENTIFIER [ ~DOT IDENTIFIER ] ;
qualified_rest ::= [ ~DOT IDENTIFIER ] ;
type_declaration ::= enumeration_declaration | tuple_declaration
                   | record_declaration ;
enumeration_declaration ::= 'enum' described_name
                            C_BRA { described_name } C_KET ;
tuple_declaration ::= 'tuple' described_name C_BRA field_declaration
    ( { field_declaration }
    | { 'separator' ( IDENTIFIER | AT | COLON | SEMICOLON )
        field_declaration } ) C_KET ;
field_declaration ::= described_name [ 'optional' ]
                      ( qualified_name | union_type ) ;
field_declaration_opt ::= described_name 'optional'
                          ( qualified_name | union_type ) ;
field_declaration_noopt ::= described_name ( qualified_name | union_type ) ;
union_type ::= S_BRA qualified_name { COMMA qualified_name } S_KET ;
record_declaration ::= [ 'abstract' | 'final' ] 'type' described_name
    [ 'extends' qualified_name ]
    C_BRA { component_declaration | 'freeze' IDENTIFIER ASSIGN value } C_KET ;
component_declaration ::= described_name [ 'optional' ]
    ( qualified_name | union_type )
    [ S_BRA INTEGER RANGE ( INTEGER | "*" ) S_KET ] ;
check_block ::= 'checks' IDENTIFIER C_BRA { check_declaration } C_KET ;
check_declaration ::= expression COMMA [ 'warning' | 'error' | 'fatal' ]
    STRING [ COMMA ( STRING [ COMMA IDENTIFIER ] | IDENTIFIER ) ] ;
expression ::= relation ( { 'and' relation } | { 'or' relation }
             | [ 'xor' relation ] | [ 'implies' relation ] ) ;
relation ::= simple_expression
    [ ( "==" | "!=" | "<" | "<=" | ">" | ">=" ) simple_expression
    | [ 'not' ] 'in' simple_expression [ RANGE simple_expression ] ] ;
simple_expression ::= [ "+" | "-" ] term { ( "+" | "-" ) term } ;
term ::= factor { ( "*" | "/" | "%" ) factor } ;
factor ::= primary [ "**" primary ] | 'not' primary | 'abs' primary ;
primary ::= INTEGER | DECIMAL | STRING | 'true' | 'false' | 'null' | name
    | BRA ( expression | quantified_expression | conditional_expression ) KET ;
quantified_expression ::= ( 'forall' | 'exists' ) IDENTIFIER 'in' IDENTIFIER
    ARROW expression ;
conditional_expression ::= 'if' expression 'then' expression
    { 'elsif' expression 'then' expression } 'else' expression ;
name ::= IDENTIFIER ( ^parameters
                    | ?DOT ?IDENTIFIER ?parameters
                    | { ^DOT IDENTIFIER | ^S_BRA expression S_KET } ) ;
parameters ::= BRA ( ?KET | expression { COMMA expression } KET ) ;
section ::= 'section' STRING C_BRA { trlc_entry } C_KET ;
trlc_entry ::= section | record_object ;
record_object ::= qualified_name IDENTIFIER
    C_BRA { IDENTIFIER ASSIGN value } C_KET ;
boolean ::= 'true' | 'false' ;
markup_string ::= STRING ;
value_int ::= [ "+" | "-" ] INTEGER ;
value_dec ::= [ "+" | "-" ] DECIMAL ;
value_str ::= STRING ;
value_bool ::= boolean ;
value_markup ::= markup_string ;
value_enum ::= qualified_name DOT IDENTIFIER ;
value_ref ::= IDENTIFIER [ DOT IDENTIFIER ] ;
value_array ::= S_BRA [ value { COMMA value } ] S_KET ;
value_tuple1 ::= BRA value KET ;
value_tuple2 ::= BRA value COMMA value KET ;
value_tuple3 ::= BRA value COMMA value COMMA value KET ;
value_sep2 ::= value AT value ;
value_sep2o ::= value [ AT value ] ;
value_sep3 ::= value AT value SEMICOLON value ;
value_sep3o ::= value AT value [ SEMICOLON value ] ;
value_sep3oo ::= value [ AT value [ COLON value ] ] ;
value_sepx ::= value IDENTIFIER:x value ;
value_sepxo ::= value [ IDENTIFIER:x value [ AT value ] ] ;
value ::= value_int | value_dec | value_str | value_bool | value_enum
        | value_ref | value_array | value_tuple1 ;
references ::= { CHARACTER | ref_list } EOF ;
ref_list ::= REFLIST_BEGIN ref { REFLIST_COMMA ref } REFLIST_END ;
ref ::= REFLIST_IDENTIFIER [ REFLIST_DOT REFLIST_IDENTIFIER ] ;
"""

#: parsing function -> production
NT = {
    "Parser.parse_type_declaration": "type_declaration",
    "Parser.parse_enum_declaration": "enumeration_declaration",
    "Parser.parse_tuple_declaration": "tuple_declaration",
    "Parser.parse_tuple_field": "field_declaration",
    "Parser.parse_union_type": "union_type",
    "Parser.parse_record_declaration": "record_declaration",
    "Parser.parse_record_component": "component_declaration",
    "Parser.parse_check_block": "check_block",
    "Parser.parse_qualified_name": "qualified_name",
    "Parser.parse_expression": "expression",
    "Parser.parse_relation": "relation",
    "Parser.parse_simple_expression": "simple_expression",
    "Parser.parse_term": "term",
    "Parser.parse_factor": "factor",
    "Parser.parse_primary": "primary",
    "Parser.parse_quantified_expression": "quantified_expression",
    "Parser.parse_conditional_expression": "conditional_expression",
    "Parser.parse_name": "name",
    "Parser.parse_builtin": "parameters",
    "Parser.parse_section_declaration": "section",
    "Parser.parse_trlc_entry": "trlc_entry",
    "Parser.parse_record_object_declaration": "record_object",
    "Parser.parse_boolean": "boolean",
    "Parser.parse_markup_string": "markup_string",
    "Parser.parse_value": "value",
    "Parser.parse_preamble": "preamble",
    "Parser.parse_rsl_file": "rsl_file",
    "Parser.parse_trlc_file": "trlc_file",
    "Markup_Parser.parse_all_references": "references",
    "Markup_Parser.parse_ref_list": "ref_list",
    "Markup_Parser.parse_qualified_name": "ref",
}
TOP = ("rsl_file", "trlc_file", "references", "preamble")


# --------------------------------------------------------------------------
# productions -> automata
# --------------------------------------------------------------------------

class Grammar:
    def __init__(self, text):
        self.eps = {}       # prod -> {state: set(state)}
        self.edges = {}     # prod -> {state: [(sym, target, soft)]}
        self.final = {}
        self.n = {}
        self.toks = []
        for w in text.split():
            self.toks.append(w)
        self.pos = 0
        while self.pos < len(self.toks):
            name = self.toks[self.pos]
            assert self.toks[self.pos + 1] == "::=", name
            self.pos += 2
            self.p = name
            self.eps[name], self.edges[name], self.n[name] = {}, {}, 1
            end = self.alt(0)
            self.final[name] = end
            assert self.toks[self.pos] == ";", (name, self.toks[self.pos])
            self.pos += 1
        self._first = {}

    def new(self):
        self.n[self.p] += 1
        return self.n[self.p] - 1

    def e(self, a, b):
        self.eps[self.p].setdefault(a, set()).add(b)

    def alt(self, start):
        end = self.new()
        while True:
            s = self.new()
            self.e(start, s)
            self.e(self.seq(s), end)
            if self.toks[self.pos] != "|":
                return end
            self.pos += 1

    def seq(self, s):
        while self.toks[self.pos] not in ("|", ";", ")", "]", "}"):
            s = self.item(s)
        return s

    def item(self, s):
        t = self.toks[self.pos]
        self.pos += 1
        if t in "([{":
            e = self.alt(s)
            assert self.toks[self.pos] == {"(": ")", "[": "]", "{": "}"}[t]
            self.pos += 1
            if t == "[":
                e2 = self.new()
                self.e(s, e2)
                self.e(e, e2)
                return e2
            if t == "{":
                # a fresh hub so that the loop cannot leak into the rest
                hub = self.new()
                self.e(s, hub)
                self.e(e, s)
                self.e(e, hub)
                return hub
            return e
        soft = ""
        if t[0] in "~^?":
            soft, t = t[0], t[1:]
        if t[0] == "'":
            x = ("t", ("KEYWORD", t[1:-1]))
        elif t[0] == '"':
            x = ("t", ("OPERATOR", t[1:-1]))
        elif t[0].isupper():
            k, _, v = t.partition(":")
            x = ("t", (k, v or None))
        else:
            x = ("n", t)
        e = self.new()
        self.edges[self.p].setdefault(s, []).append((x, e, soft))
        return e

    # -- configurations: a tuple of (production, state), top last --------------
    def closure(self, configs):
        seen = set(configs)
        todo = list(configs)
        while todo:
            c = todo.pop()
            if not c:
                continue
            p, s = c[-1]
            nxt = [c[:-1] + ((p, x),) for x in self.eps[p].get(s, ())]
            if s == self.final[p]:
                nxt.append(c[:-1])
            for x in nxt:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return frozenset(seen)

    def essence(self, configs):
        """equivalent configurations which can read something or accept"""
        return frozenset(c for c in self.closure(configs)
                         if not c or self.edges[c[-1][0]].get(c[-1][1]))

    def first(self, n):
        r = self._first.get(n)
        if r is None:
            r = set()
            for c in self.closure({((n, 0),)}):
                if not c:
                    continue
                for x, _, _ in self.edges[c[-1][0]].get(c[-1][1], ()):
                    if x[0] == "t":
                        r.add(x[1])
                    else:
                        r |= self.first(x[1])
            r = self._first[n] = frozenset(r)
        return r

    def starts(self, m, n, seen=()):
        """production m can begin with an n"""
        if m == n:
            return True
        if m in seen:
            return False
        for c in self.closure({((m, 0),)}):
            if not c:
                continue
            for x, _, _ in self.edges[c[-1][0]].get(c[-1][1], ()):
                if x[0] == "n" and self.starts(x[1], n, seen + (m,)):
                    return True
        return False

    def step(self, configs, x):
        """x: ("t", token) or ("n", production) -> (configs, edges used)"""
        out, used = set(), set()
        for c in self.closure(configs):
            if not c:
                continue
            p, s = c[-1]
            for y, tgt, soft in self.edges[p].get(s, ()):
                c2 = c[:-1] + ((p, tgt),)
                if self.same(y, x):
                    out.add(c2)
                    used.add((p, s, y))
                elif y[0] == "n" and len(c) < 14:
                    if (x[0] == "t" and any(
                            self.same(("t", f), x)
                            for f in self.first(y[1]))) or \
                       (x[0] == "n" and self.starts(y[1], x[1])):
                        o, u = self.step({c2 + ((y[1], 0),)}, x)
                        out |= o
                        if o:
                            used |= u | {(p, s, y)}
        return frozenset(out), frozenset(used)

    @staticmethod
    def same(y, x):
        if y == x:
            return True
        if y[0] == x[0] == "t":
            # a plain identifier terminal also reads special identifiers
            return y[1][0] == x[1][0] and y[1][1] is None
        return False

    def allowed(self, configs, alpha, drop):
        """tokens which may come next, ignoring edges marked in drop"""
        r = set()
        for c in self.closure(configs):
            if not c:
                continue
            for y, _, soft in self.edges[c[-1][0]].get(c[-1][1], ()):
                if soft and soft in drop:
                    continue
                r |= self.expand(self.first(y[1]) if y[0] == "n"
                                 else {y[1]}, alpha)
        return r

    @staticmethod
    def expand(toks, alpha):
        """terminals of the grammar -> members of the alphabet"""
        return {a for a in alpha for t in toks
                if a == t or (t[1] is None and a[0] == t[0])}

    def accepting(self, configs):
        return () in self.closure(configs)


G = None


def grammar():
    global G
    if G is None:
        G = Grammar(GRAMMAR)
    return G


def tname(t):
    if t == EOF:
        return "end of input"
    if t[0] == "KEYWORD":
        return "'%s'" % t[1]
    if t[0] == "OPERATOR":
        return "%s" % t[1]
    return t[0]


def tnames(ts):
    ts = sorted(tname(t) for t in ts)
    return ", ".join(ts[:4]) + (", ..." if len(ts) > 4 else "")


# --------------------------------------------------------------------------
# product analysis
# --------------------------------------------------------------------------

class TS:
    """immutable typestate, kept as a plain tuple"""
    F = ("cfg", "nt", "prog", "rej", "pend", "dev", "enum", "x")


def ts_get(ts, f):
    return ts[TS.F.index(f)]


def ts_set(ts, **kw):
    r = list(ts)
    for k, v in kw.items():
        r[TS.F.index(k)] = v
    return tuple(r)


class GClient(TrlcClient):
    inline_depth = 7
    kill_dead = True
    collapse_strings = True
    opaque_raises = False
    max_heads = 3
    budget = 600000
    max_states = 2500
    x0 = ()

    def __init__(self, rule, alpha, tokcls, top):
        self.alpha = alpha
        self.tokcls = tokcls
        self.rule = rule
        self.top = top              # qual of the analysed function
        self.covered = set()
        self.edges_seen = set()
        self.bad = {}               # (kind, what) -> (loc, text)
        self.loops = set()
        self.checks = 0
        self.seqs = None

    # -- facts -------------------------------------------------------------------
    SELF = sym("self")

    def prune(self, ip, st):
        keep = ("nt", "ct")
        st = st.copy()
        full = st.heap
        st.heap = {k: v for k, v in st.heap.items()
                   if k[1] in keep or k[1] in (
                       "$items", "$open", "value", "kind") or
                   k[0].tag == "obj" and isinstance(k[1], V) or
                   (k[0].tag == "sym" and
                    k[0].a[0].startswith(("seq:", "arg:")))}
        live = set()
        for v in list(st.env.values()) + list(st.heap.values()):
            live |= set(subterms(v))
        for env in ip.outer:
            for v in env.values():
                live |= set(subterms(v))
        for k, v in full.items():
            if k[1] in ("value", "kind") and k[0] in live:
                st.heap[k] = v
        for fld in ("types", "truth", "eq", "neq"):
            d = getattr(st, fld)
            setattr(st, fld, {k: v for k, v in d.items()
                              if self.relevant(k, live)})
        st.cver = {}
        st.aver = {}
        return st

    def relevant(self, k, live):
        base = [x for x in subterms(k) if x.tag in ("sym", "obj", "call", "phi")]
        return any(b in live or b is self.SELF or
                   (b.tag == "sym" and b.a[0].startswith("seq:"))
                   for b in base)

    def nt_of(self, st):
        return st.heap.get((self.SELF, "nt"))

    def bag(self, ip, st):
        """the tokens which the next token may be, with engine facts"""
        s = ts_get(st.ts, "nt")
        nt = self.nt_of(st)
        if nt is None:
            return s
        if nt is NONE:
            return s & {EOF}
        t = st.truth.get(nt)
        if t is not None:
            s = s - {EOF} if t else s & {EOF}
        tt = ip.types_of(st, nt)
        if tt is not None:
            if "NoneType" not in tt:
                s = s - {EOF}
            if tt == frozenset(["NoneType"]):
                s = s & {EOF}
        for i, a in ((0, "kind"), (1, "value")):
            t = mk("attr", nt, a, 0)
            v = st.heap.get((nt, a)) or ip.norm(st, t)
            if v.tag == "const":
                s = frozenset(x for x in s if x[i] == v.a[1] or
                              (i and x[i] is None and
                               (x[0], v.a[1]) not in self.alpha))
        # negative and membership facts
        for i, a in ((0, "kind"), (1, "value")):
            t = mk("attr", nt, a, 0)
            s = frozenset(x for x in s
                          if x == EOF or x[i] is None or
                          self.consistent(ip, st, t, x[i]))
        return s

    def consistent(self, ip, st, t, val):
        c = const(val)
        r = ip.fold_eq(st, t, c)
        if r is not None and getattr(r, "tag", None) == "const":
            return bool(r.a[1])
        if r is True or r is False:
            return r
        return True

    def narrow(self, ip, st, toks, node=None):
        """-> list of states in which the next token is in toks"""
        toks = frozenset(toks)
        if not toks:
            return []
        nt = self.nt_of(st)
        st = st.set_ts(ts_set(st.ts, nt=toks))
        if nt is None or nt is NONE:
            return [st]
        if toks == {EOF}:
            st = st._upd("types", nt, frozenset(["NoneType"]))
            return [st._upd("eq", nt, NONE)]
        if EOF not in toks:
            st = st._upd("types", nt, frozenset([self.tokcls]))
        kinds = {t[0] for t in toks}
        if len(kinds) == 1:
            st = st.set_attr(nt, "kind", const(next(iter(kinds))))
        if len(toks) == 1:
            v = next(iter(toks))[1]
            if v is not None:
                st = st.set_attr(nt, "value", const(v))
        return [st]

    def narrow_values(self, ip, st, toks):
        """like narrow, with one state per spelling"""
        rv = []
        plain = [t for t in toks if t[1] is None]
        rv += self.narrow(ip, st, plain)
        for t in sorted((t for t in toks if t[1] is not None)):
            rv += self.narrow(ip, st, [t])
        return rv

    # -- findings ------------------------------------------------------------------
    def flag(self, ip, node, kind, what, text):
        self.bad.setdefault((kind, what),
                            (ip.frame.fi.loc(node), text))

    def confirm(self, st):
        self.covered |= ts_get(st.ts, "pend")

    # -- consuming -----------------------------------------------------------------
    def shift(self, ip, st, x, node, multi=None):
        """the parser consumes x; x: ("t", tok) or ("n", production)"""
        ts = st.ts
        if not ts_get(ts, "rej"):
            self.confirm(st)
        cfg = ts_get(ts, "cfg")
        dev = ts_get(ts, "dev")
        pend = frozenset()
        if not ts_get(ts, "rej") and dev is None:
            cfg2, used = grammar().step(cfg, x)
            pend = frozenset(u for u in used)
            if not cfg2:
                dev = (ip.frame.fi.loc(node),
                       tname(x[1]) if x[0] == "t" else x[1])
            cfg = cfg2
        prog = tuple((i, True) for i, _ in ts_get(ts, "prog"))
        ts = ts_set(ts, cfg=cfg, nt=self.alpha, prog=prog, pend=pend,
                    dev=dev)
        st = st.set_ts(ts)
        old = self.nt_of(st)
        new = sym("nt:%d:%d" % (node.lineno, node.col_offset))
        if new is old:
            new = sym("nt':%d:%d" % (node.lineno, node.col_offset))
        st = st.drop_terms(new)
        st = st.copy()
        st.eq = {k: v for k, v in st.eq.items() if v is not new}
        if x[0] == "t" and old is not None:
            ct = old
            if st.types.get(ct) != frozenset([self.tokcls]):
                st = st._upd("types", ct, frozenset([self.tokcls]))
        else:
            ct = sym("ct:%d:%d" % (node.lineno, node.col_offset))
            st = st.drop_terms(ct)
            st = st._upd("types", ct, frozenset([self.tokcls]))
        st = st.set_attr(self.SELF, "ct", ct)
        st = st.set_attr(self.SELF, "nt", new)
        return st._upd("types", new, frozenset([self.tokcls, "NoneType"]))

    def reject(self, ip, st, toks, node, what):
        """a syntax error is reported when the next token is in toks"""
        if ts_get(st.ts, "rej") or ts_get(st.ts, "dev") is not None:
            return
        self.checks += 1
        al = grammar().allowed(ts_get(st.ts, "cfg"), self.alpha, "~^?")
        hit = al & frozenset(toks)
        if hit:
            self.flag(ip, node, "rejects", what + " instead of " +
                      tnames(hit),
                      "%s is demanded where the grammar permits %s" %
                      (what, tnames(hit)))

    def rejected(self, st):
        return st.set_ts(ts_set(st.ts, rej=True, cfg=frozenset(),
                                pend=frozenset(), dev=None))

    EXC = mk("obj", "TRLC_Error", ("syntax",))

    def match(self, ip, st, toks, node, what):
        s = self.bag(ip, st)
        good = s & frozenset(grammar().expand(toks, self.alpha))
        bad = s - good
        rv = []
        for g in self.narrow_values(ip, st, good):
            for t in sorted(ts_get(g.ts, "nt"), key=str):
                rv.append(("ret", self.shift(ip, g, ("t", t), node), NONE))
        if bad:
            self.reject(ip, st, bad, node, what)
            for b in self.narrow(ip, st, bad):
                rv.append(("raise", self.rejected(b), self.EXC))
        return rv

    # -- hooks ------------------------------------------------------------------------
    def on_emit(self, ip, st, kind, fatal, args, node):
        if kind == "error":
            return self.rejected(st)
        return st

    def opaque(self, ip, fi):
        if fi.cls is None:
            return True
        return not any(k.name in ("Parser_Base", "Parser", "Markup_Parser")
                       for k in fi.cls.mro())

    def is_parser(self, fi):
        return fi.cls is not None and any(k.name == "Parser_Base"
                                          for k in fi.cls.mro())

    def call_hook(self, ip, st, fi, self_v, args, node):
        if not self.is_parser(fi):
            if fi.name == "__init__":
                if fi.cls is not None and \
                        fi.cls.name == "Enumeration_Literal":
                    st = st.set_ts(ts_set(st.ts, enum=True))
                return [("ret", st, NONE)]
            if self.seqs is not None:
                if fi.name == "iter_sequence":
                    return [("ret", st, self.seqs[0])]
                if fi.name == "has_separators":
                    return [("ret", st, const(self.seqs[1]))]
            return None
        n = fi.name
        if self_v is not self.SELF:
            # another parser object: its own analysis covers it
            return [("ret", st, sym("other:%d" % node.lineno))]
        if n == "__init__":
            return [("ret", st, NONE)]
        if n in ("peek", "peek_kw", "match", "match_kw"):
            p = fi.params[1]
            a = args.get(p)
            a = ip.norm(st, a)
            if a.tag != "const":
                raise Undecided("%s with unknown token kind" % n)
            tok = ("KEYWORD", a.a[1]) if n.endswith("_kw") else \
                (a.a[1], None)
            if n.startswith("match"):
                return self.match(ip, st, {tok}, node, tname(tok))
            s = self.bag(ip, st)
            yes = s & frozenset(grammar().expand({tok}, self.alpha))
            rv = []
            ys = self.narrow_values(ip, st, yes) if tok[0] != "KEYWORD" \
                else self.narrow(ip, st, yes)
            rv += [("ret", x, TRUE) for x in ys]
            rv += [("ret", x, FALSE) for x in self.narrow(ip, st, s - yes)]
            return rv
        if n == "peek_eof":
            s = self.bag(ip, st)
            return [("ret", x, TRUE) for x in
                    self.narrow(ip, st, s & {EOF})] + \
                   [("ret", x, FALSE) for x in
                    self.narrow(ip, st, s - {EOF})]
        if n == "match_eof":
            s = self.bag(ip, st)
            rv = [("ret", self.shift(ip, x, ("t", EOF), node), NONE)
                  for x in self.narrow(ip, st, s & {EOF})]
            if s - {EOF}:
                self.reject(ip, st, s - {EOF}, node, "end of input")
                rv += [("raise", self.rejected(x), self.EXC)
                       for x in self.narrow(ip, st, s - {EOF})]
            return rv
        if n == "advance":
            s = self.bag(ip, st)
            rv = []
            if ts_get(st.ts, "rej"):
                rv += [("ret", self.shift(ip, x, ("t", ("IDENTIFIER", None)),
                                          node), NONE)
                       for x in self.narrow(ip, st, s - {EOF})]
                s = s & {EOF}
            for x in self.narrow_values(ip, st, s - {EOF}):
                for t in sorted(ts_get(x.ts, "nt"), key=str):
                    rv.append(("ret", self.shift(ip, x, ("t", t), node),
                               NONE))
            for x in self.narrow(ip, st, s & {EOF}):
                # stays at the end of input
                rv.append(("ret", x, NONE))
            return rv
        prod = NT.get(fi.qual.split(":")[-1]) or NT.get(fi.qual) or \
            NT.get("%s.%s" % (fi.cls.name, n))
        if prod is None or n == "parse_described_name":
            return None
        if n == "parse_qualified_name" and \
                args.get("match_ident", TRUE) is not TRUE:
            return None
        return self.nonterminal(ip, st, fi, prod, args, node)

    def nonterminal(self, ip, st, fi, prod, args, node):
        g = grammar()
        s = self.bag(ip, st)
        fst = frozenset(g.expand(g.first(prod), self.alpha))
        good, bad = s & fst, s - fst
        rv = []
        if good:
            live = not ts_get(st.ts, "rej") and ts_get(st.ts, "dev") is None
            if live:
                cfg, _ = g.step(ts_get(st.ts, "cfg"), ("n", prod))
                if not cfg and not ip.in_stack(fi) and \
                        fi.qual != self.top and \
                        (g.allowed(ts_get(st.ts, "cfg"), self.alpha, "") &
                         good):
                    return None         # look inside instead
            for x in self.narrow(ip, st, good):
                y = self.shift(ip, x, ("n", prod), node)
                y, v = self.result(ip, y, fi, prod, args, node)
                rv.append(("ret", y, v))
                rv.append(("raise", self.rejected(y), self.EXC))
        if bad:
            self.reject(ip, st, bad, node, "a " + prod)
            for x in self.narrow(ip, st, bad):
                rv.append(("raise", self.rejected(x), self.EXC))
        return rv

    def result(self, ip, st, fi, prod, args, node):
        """the value of a parsed nonterminal"""
        v = sym("res:%s:%d:%d" % (prod, node.lineno, node.col_offset))
        st = st.drop_terms(v)
        rt = self.result_type(prod)
        if rt:
            st = st._upd("types", v, ip.m.subclasses(rt))
        return st, v

    @staticmethod
    def result_type(prod):
        if prod in ("expression", "relation", "simple_expression", "term",
                    "factor", "primary", "quantified_expression", "name",
                    "conditional_expression", "value"):
            return "Expression"
        if prod == "field_declaration":
            return "Composite_Component"
        return None

    # -- crashes on end of input -------------------------------------------------------
    def on_attr(self, ip, st, base, name, node):
        b = base
        if b is NONE or (b.tag == "sym" and
                         b.a[0].startswith(("nt:", "nt'", "ct:", "ct0"))):
            if b is NONE:
                self.checks += 1
                what = ast.unparse(node.value) if isinstance(
                    node, ast.Attribute) else "token"
                if what in ("self.nt", "self.ct") or "nt" in what or \
                        what.startswith("t_"):
                    self.flag(ip, node, "crashes", "%s.%s at end of input" %
                              (what, name), "%s is used although there may "
                              "be no token" % what)
                return None
            tt = ip.types_of(st, b)
            if tt is not None and "NoneType" in tt:
                self.checks += 1
                nt = self.nt_of(st)
                if b is nt and EOF not in self.bag(ip, st):
                    pass
                else:
                    what = ast.unparse(node.value) if isinstance(
                        node, ast.Attribute) else "token"
                    self.flag(ip, node, "crashes", "%s.%s at end of input" %
                              (what, name), "%s is used although there may "
                              "be no token" % what)
                if b is nt:
                    r = self.narrow(ip, st, self.bag(ip, st) - {EOF})
                    return r[0] if r else None
                return st._upd("types", b, tt - {"NoneType"})
        return st

    # -- progress -----------------------------------------------------------------------
    def loop_id(self, ip, node):
        return (ip.frame.path, node.lineno, node.col_offset)

    def iteration_begin(self, ip, st, node, it):
        if not isinstance(node, ast.While):
            return st
        i = self.loop_id(ip, node)
        self.loops.add((ip.frame.fi.loc(node), ip.frame.fi.qual))
        prog = tuple(x for x in ts_get(st.ts, "prog") if x[0] != i)
        return st.set_ts(ts_set(st.ts, prog=prog + ((i, False),)))

    def pop(self, ip, st, node):
        i = self.loop_id(ip, node)
        prog = ts_get(st.ts, "prog")
        idx = [k for k, x in enumerate(prog) if x[0] == i]
        done = True
        if idx:
            done = prog[idx[0]][1]
            prog = prog[:idx[0]]
        return st.set_ts(ts_set(st.ts, prog=prog)), done

    def canonical(self, ip, st):
        """the same state with standard names for the two tokens"""
        bag = self.bag(ip, st)
        st = st.set_ts(ts_set(st.ts, nt=bag, cfg=grammar().essence(
            ts_get(st.ts, "cfg"))))
        nt, ct = sym("nt:head"), sym("ct:head")
        old = st.heap.get((self.SELF, "ct"))
        tt = ip.types_of(st, old) if old is not None else None
        st = st.drop_terms(nt).drop_terms(ct)
        st = st.copy()
        st.eq = {k: v for k, v in st.eq.items() if k not in (nt, ct)}
        st = st.set_attr(self.SELF, "nt", nt)
        st = st.set_attr(self.SELF, "ct", ct)
        st = st._upd("types", ct, tt or frozenset([self.tokcls]))
        st = st._upd("types", nt, frozenset([self.tokcls, "NoneType"]))
        r = self.narrow(ip, st, bag)
        return self.prune(ip, r[0] if r else st)

    def iteration_end(self, ip, st, node, kind, start):
        if not isinstance(node, ast.While):
            return st
        st, done = self.pop(ip, st, node)
        self.checks += 1
        if not done:
            self.flag(ip, node, "stalls", "loop in " +
                      ip.frame.fi.qual.split(".")[-1],
                      "an iteration of this loop may consume no token, "
                      "with next token %s" % tnames(self.bag(ip, st)))
        return self.canonical(ip, st)

    def iteration_abort(self, ip, st, node, kind, start):
        if not isinstance(node, ast.While):
            return st
        return self.pop(ip, st, node)[0]

    # -- verdict ------------------------------------------------------------------------
    def finish(self, ip, outs, fi, prod, exempt=()):
        g = grammar()
        acc = 0
        for o in outs:
            if o.kind != "return":
                continue
            ts = o.st.ts
            if ts_get(ts, "rej"):
                continue
            if ts_get(ts, "dev") is not None:
                loc, what = ts_get(ts, "dev")
                self.bad.setdefault(
                    ("accepts", what),
                    (loc, "%s is read here although the grammar does not "
                     "permit it" % what))
                continue
            self.confirm(o.st)
            self.checks += 1
            cfg = ts_get(ts, "cfg")
            if not g.accepting(cfg):
                miss = g.allowed(cfg, self.alpha, "")
                self.bad.setdefault(
                    ("incomplete", tnames(miss)),
                    (oloc(o, fi), "%s is complete here without %s" %
                     (prod, tnames(miss))))
                continue
            acc += 1
            if ts_get(ts, "enum") or prod in exempt:
                continue
            more = g.allowed(cfg, self.alpha, "~?") & self.bag(ip, o.st)
            if more:
                self.bad.setdefault(
                    ("stops", tnames(more)),
                    (oloc(o, fi), "%s ends here although it could continue "
                     "with %s" % (prod, tnames(more))))
        return acc


    def conclude(self, ip, outs, fi):
        """for clients which build on this one"""


SEQS = {
    # production: (separators?, sequence of ("c", optional) / ("s", kind))
    "value_tuple1": (False, "c"), "value_tuple2": (False, "cc"),
    "value_tuple3": (False, "ccc"),
    "value_sep2": (True, "c@c"), "value_sep2o": (True, "c@o"),
    "value_sep3": (True, "c@c;c"), "value_sep3o": (True, "c@c;o"),
    "value_sep3oo": (True, "c@o:o"),
    "value_sepx": (True, "cxc"), "value_sepxo": (True, "cxo@o"),
}
SEPKIND = {"@": "AT", ";": "SEMICOLON", ":": "COLON", "x": "IDENTIFIER"}

VALUES = {"value_int": "Builtin_Integer", "value_dec": "Builtin_Decimal",
          "value_str": "Builtin_String", "value_bool": "Builtin_Boolean",
          "value_markup": "Builtin_Markup_String",
          "value_enum": "Enumeration_Type", "value_ref": "Record_Type",
          "value_array": "Array_Type"}


def start_state(ip, client, prod, m):
    st = State()
    st = st.set_ts((frozenset([((prod, 0),)]), client.alpha, (), False,
                    frozenset(), None, False, client.x0))
    me = GClient.SELF
    nt, ct = sym("nt:start"), sym("ct0:start")
    st = st.set_attr(me, "nt", nt)
    st = st.set_attr(me, "ct", ct)
    st = st._upd("types", nt, frozenset([client.tokcls, "NoneType"]))
    early = prod == "preamble" or client.alpha is MARKUP_ALPHA
    st = st._upd("types", ct, frozenset(
        [client.tokcls] + (["NoneType"] if early else [])))
    return st


def subset(configs):
    return configs


def analyse(ctx, rule, qual, prod, args=None, types=None, seq=None,
            exempt=(), label=None, client=None, attrs=()):
    """-> number of accepting paths or None"""
    m = ctx.m
    try:
        fi = ctx.func(qual)
    except AnchorError as e:
        ctx.undecided(rule, qual, e)
        return None
    markup = qual.startswith("Markup_Parser")
    alpha = MARKUP_ALPHA if markup else TRLC_ALPHA
    if seq is not None and "x" in seq[1]:
        alpha = alpha | {IDX}
    cl = (client or GClient)(
        rule, alpha, "Markup_Token" if markup else "Token", fi.qual)
    ip = Interp(m, cl)
    st = start_state(ip, cl, prod, m)
    a = dict(args or {})
    for k, t in (types or {}).items():
        v = sym("arg:" + k)
        a[k] = v
        st = st._upd("types", v, frozenset(t))
    for v, k, x in attrs:
        st = st.set_attr(v, k, x)
    if seq is not None:
        items = []
        for i, x in enumerate(seq[1]):
            v = sym("seq:%d" % i)
            if x in "co":
                st = st._upd("types", v, frozenset(["Composite_Component"]))
                st = st.set_attr(v, "optional", const(x == "o"))
            else:
                tk = sym("seq:tok%d" % i)
                st = st._upd("types", v, frozenset(["Separator"]))
                st = st.set_attr(v, "token", tk)
                st = st._upd("types", tk, frozenset(["Token"]))
                st = st.set_attr(tk, "kind", const(SEPKIND[x]))
                if x == "x":
                    st = st.set_attr(tk, "value", const("x"))
            items.append(v)
        lst = mk("obj", "list", ("sequence",))
        st = st.set_attr(lst, "$items", mk("tuple", *items))
        cl.seqs = (lst, seq[0])
        cl.seqtext = seq[1]
    name = label or qual.split(".")[-1]
    outs = guarded(ctx, rule, name, lambda: ip.run(fi, a, st))
    if outs is None:
        return None
    ctx.analysed(ip)
    acc = cl.finish(ip, outs, fi, prod, exempt)
    cl.conclude(ip, outs, fi)
    cl.name = name
    return cl, acc, fi


def report(ctx, kinds, rule, r, prod):
    cl, acc, fi = r
    g = grammar()
    n = 0
    for (kind, what), (loc, text) in sorted(cl.bad.items()):
        if kind in kinds:
            n += 1
            ctx.violation(rule, "%s:%s %s" % (cl.name, kind, what), loc,
                          "in %s: %s" % (cl.name, text))
    return n


def conformance(ctx, rule, r, prod):
    cl, acc, fi = r
    g = grammar()
    n = report(ctx, ("rejects", "accepts", "incomplete", "stops"), rule, r,
               prod)
    if acc == 0 and not n:
        ctx.violation(rule, "%s:never" % cl.name, fi.loc(),
                      "%s accepts no input" % cl.name)
        return
    want = {(prod, s, y) for s, es in g.edges[prod].items()
            for y, t, soft in es if soft != "?"}
    if not n:
        for e in sorted(want, key=str):
            if e in cl.covered:
                ctx.ok(rule, "%s: %s" % (cl.name, tname(e[2][1])
                                         if e[2][0] == "t" else e[2][1]))
            else:
                x = tname(e[2][1]) if e[2][0] == "t" else e[2][1]
                ctx.violation(rule, "%s:never reads %s" % (cl.name, x),
                              fi.loc(), "%s never accepts %s where the "
                              "grammar of %s has it" % (cl.name, x, prod))
        for i in range(cl.checks):
            ctx.ok(rule, "%s: decision %d" % (cl.name, i))


ALL = None


def all_runs(ctx):
    """every parsing function against its production"""
    rv = []

    def go(qual, prod, **kw):
        r = analyse(ctx, "conformance", qual, prod, **kw)
        if r is not None:
            rv.append((r, prod))
    skip = {"parse_tuple_field", "parse_value", "parse_preamble"}
    for q, prod in NT.items():
        if q.split(".")[-1] in skip:
            continue
        kw = {}
        if q == "Parser.parse_qualified_name":
            kw = {"args": {"match_ident": TRUE,
                           "required_subclass": NONE}}
        if q == "Parser.parse_builtin":
            kw = {}
        go(q, prod, **kw)
    go("Parser.parse_described_name", "described_name")
    for kind in ("rsl", "trlc"):
        go("Parser.parse_preamble", "preamble", args={"kind": const(kind)},
           label="parse_preamble(%s)" % kind)
    for allowed, req, prod in ((TRUE, FALSE, "field_declaration"),
                               (TRUE, TRUE, "field_declaration_opt"),
                               (FALSE, FALSE, "field_declaration_noopt")):
        go("Parser.parse_tuple_field", prod,
           args={"optional_allowed": allowed, "optional_required": req},
           label="parse_tuple_field(%s, %s)" % (allowed.a[1], req.a[1]))
    for prod, t in VALUES.items():
        go("Parser.parse_value", prod, types={"typ": [t]},
           label="parse_value(%s)" % t)
    go("Parser.parse_value", "value_ref", types={"typ": ["Union_Type"]},
       label="parse_value(Union_Type)")
    for prod, s in SEQS.items():
        go("Parser.parse_value", prod, types={"typ": ["Tuple_Type"]}, seq=s,
           label="parse_value(tuple %s)" % s[1])
    return rv


# --------------------------------------------------------------------------
# the contracts used above, verified against the source
# --------------------------------------------------------------------------

class AdvanceClient(TrlcClient):
    """counts calls of advance; everything else of the parser is inlined"""
    inline_depth = 5
    opaque_raises = False

    def __init__(self):
        self.calls = 0

    def call_hook(self, ip, st, fi, self_v, args, node):
        if fi.name == "advance":
            return [("ret", st.set_ts(st.ts + ("advance",)), NONE)]
        if fi.name == "file_location":
            return [("ret", st, sym("file_location"))]
        return None

    def on_virtual(self, ip, st, name, cands, self_v, args, kw, node):
        if name == "file_location":
            return [("ret", st, sym("file_location"))]
        return None

    def on_emit(self, ip, st, kind, fatal, args, node):
        return st.set_ts(st.ts + (("error", fatal, args.get("location")),))


def contracts(ctx, rule):
    m = ctx.m
    base = "Parser_Base"
    me = sym("self")

    def start(nt, ct="Token", kind=None, value=None):
        st = State()
        st = st._upd("types", me, m.subclasses("Parser"))
        n, c = sym("nt"), sym("ct")
        for v, t in ((n, nt), (c, ct)):
            if t is None:
                st = st.set_attr(me, "nt" if v is n else "ct", NONE)
            else:
                st = st._upd("types", v, frozenset([t]))
                st = st.set_attr(me, "nt" if v is n else "ct", v)
        if kind:
            st = st.set_attr(n, "kind", const(kind))
        if value:
            st = st.set_attr(n, "value", const(value))
        return st

    def go(meth, args, st, want, what):
        fi = ctx.func("%s.%s" % (base, meth))
        ip = Interp(m, AdvanceClient())
        outs = guarded(ctx, rule, what, lambda: ip.run(fi, args, st))
        if outs is None:
            return
        ctx.analysed(ip)
        for o in outs:
            errs = [e for e in o.st.ts if isinstance(e, tuple)]
            adv = [e for e in o.st.ts if e == "advance"]
            if o.kind == "return":
                v = ip.norm(o.st, o.val)
                got = (v.a[1] if v.tag == "const" else "?", len(adv),
                       bool(errs))
            elif o.kind == "raise":
                got = ("error", len(adv), bool(errs))
            else:
                got = (o.kind, len(adv), bool(errs))
            if got == want:
                ctx.ok(rule, what)
            else:
                ctx.violation(rule, what, oloc(o, fi),
                              "%s: expected (result, tokens consumed, error)"
                              " = %s, found %s" % (what, want, got),
                              path_text(o))
            if got[0] == "error":
                loc = errs[-1][2] if errs else None
                nt = ip.norm(o.st, o.st.heap.get((me, "nt"), NONE))
                ct = ip.norm(o.st, o.st.heap.get((me, "ct"), NONE))
                tok = nt if nt is not NONE else ct
                good = loc is sym("file_location") if tok is NONE else (
                    loc is not None and loc.tag == "attr" and
                    loc.a[0] is tok and loc.a[1] == "location")
                if good:
                    ctx.ok(rule, what + " is located")
                else:
                    ctx.violation(rule, what + " is located", oloc(o, fi),
                                  "the error is not located at the "
                                  "offending token", path_text(o))

    T, F = True, False
    for k, v in (("IDENTIFIER", None), ("KEYWORD", "type"), ("STRING", None)):
        for want in ("IDENTIFIER", "KEYWORD", "STRING"):
            go("peek", {"kind": const(want)}, start("Token", "Token", k, v),
               (k == want, 0, F), "peek(%s) at %s" % (want, k))
            go("match", {"kind": const(want)}, start("Token", "Token", k, v),
               (None, 1, F) if k == want else ("error", 0, T),
               "match(%s) at %s" % (want, k))
        for kw in ("type", "enum"):
            hit = (k, v) == ("KEYWORD", kw)
            # an identifier cannot be spelled like a keyword
            go("peek_kw", {"value": const(kw)}, start("Token", "Token", k, v),
               (hit, 0, F), "peek_kw(%s) at %s %s" % (kw, k, v))
            go("match_kw", {"value": const(kw)},
               start("Token", "Token", k, v),
               (None, 1, F) if hit else ("error", 0, T),
               "match_kw(%s) at %s %s" % (kw, k, v))
        go("peek_eof", {}, start("Token", "Token", k, v), (F, 0, F),
           "peek_eof at %s" % k)
        go("match_eof", {}, start("Token", "Token", k, v), ("error", 0, T),
           "match_eof at %s" % k)
    # strings and identifiers whose text is a keyword are not keywords
    for k in ("STRING", "IDENTIFIER"):
        go("peek_kw", {"value": const("type")},
           start("Token", "Token", k, "type"), (F, 0, F),
           "peek_kw(type) at a %s reading type" % k)
        go("match_kw", {"value": const("type")},
           start("Token", "Token", k, "type"), ("error", 0, T),
           "match_kw(type) at a %s reading type" % k)
    for ct in ("Token", None):
        w = " at end of input" + ("" if ct else " of an empty file")
        go("peek", {"kind": const("STRING")}, start(None, ct), (F, 0, F),
           "peek" + w)
        go("peek_kw", {"value": const("type")}, start(None, ct), (F, 0, F),
           "peek_kw" + w)
        go("match", {"kind": const("STRING")}, start(None, ct),
           ("error", 0, T), "match" + w)
        go("match_kw", {"value": const("type")}, start(None, ct),
           ("error", 0, T), "match_kw" + w)
        go("peek_eof", {}, start(None, ct), (T, 0, F), "peek_eof" + w)
        go("match_eof", {}, start(None, ct), (None, 0, F), "match_eof" + w)
    advance_contract(ctx, rule)


class LexClient(TrlcClient):
    """the lexer delivers comments, tokens and the end of input"""
    inline_depth = 5
    opaque_raises = False
    kill_dead = True

    def call_hook(self, ip, st, fi, self_v, args, node):
        if fi.name == "token":
            rv = [("ret", st.set_ts("end"), NONE)]
            for k, n in (("COMMENT", "comment"), ("IDENTIFIER", "token")):
                t = sym("tok:" + n)
                s = st.drop_terms(t)._upd("types", t, frozenset(["Token"]))
                s = s.set_attr(t, "kind", const(k))
                rv.append(("ret", s.set_ts(n), t))
            return rv
        return None

    def on_virtual(self, ip, st, name, cands, self_v, args, kw, node):
        if name == "token":
            return self.call_hook(ip, st, cands[0], self_v, {}, node)
        return None


def advance_contract(ctx, rule):
    m = ctx.m
    fi = ctx.func("Parser_Base.advance")
    ip = Interp(m, LexClient())
    me = sym("self")
    st = State()
    st = st._upd("types", me, m.subclasses("Parser"))
    st = st.set_attr(me, "nt", sym("nt0"))
    st = st.set_attr(me, "ct", sym("ct0"))
    st = st._upd("types", sym("nt0"), frozenset(["Token", "NoneType"]))
    st = st.set_ts("start")
    outs = guarded(ctx, rule, "advance", lambda: ip.run(fi, {}, st))
    if outs is None:
        return
    ctx.analysed(ip)
    seen = set()
    for o in outs:
        what = "advance delivers the next %s" % o.st.ts
        nt = ip.norm(o.st, o.st.heap.get((me, "nt"), sym("?")))
        ct = o.st.heap.get((me, "ct"), sym("?"))
        good = o.kind == "return" and (
            (o.st.ts == "end" and nt is NONE) or
            (o.st.ts == "token" and nt is sym("tok:token")))
        if good and ct is sym("nt0"):
            ctx.ok(rule, what)
            seen.add(o.st.ts)
        elif good and ip.norm(o.st, ct) is NONE and \
                ip.norm(o.st, sym("nt0")) is NONE:
            ctx.ok(rule, what)
        else:
            ctx.violation(rule, what, oloc(o, fi),
                          "after advance the next token is %s (%s) and the "
                          "current token %s" % (show(nt), o.st.ts, show(ct)),
                          path_text(o))
    if seen != {"end", "token"}:
        ctx.violation(rule, "advance", fi.loc(),
                      "advance never delivers %s" %
                      ", ".join({"end", "token"} - seen))


def kinds_exist(ctx, rule):
    """every token kind and keyword of the grammar is known"""
    m = ctx.m
    for cls, kinds in (("Token", KINDS + ["KEYWORD", "OPERATOR", "COMMENT"]),
                       ("Markup_Token", MARKUP)):
        c = ctx.cls(cls)
        a = c.lookup_attr("KIND")
        d = a and a[1]
        if not isinstance(d, ast.Dict):
            ctx.undecided(rule, cls + ".KIND", "not a dictionary display")
            continue
        have = {k.value for k in d.keys if isinstance(k, ast.Constant)}
        for k in kinds:
            if k in have:
                ctx.ok(rule, "%s.KIND has %s" % (cls, k))
            else:
                ctx.violation(rule, "%s.KIND has %s" % (cls, k),
                              "%s:%d" % (c.module.rel, d.lineno),
                              "token kind %s is missing" % k)


def c08(ctx):
    contracts(ctx, "contract")
    kinds_exist(ctx, "contract")
    for r, prod in all_runs(ctx):
        conformance(ctx, "conformance", r, prod)
    ctx.require("conformance", 150, "grammar decisions")


def c11(ctx):
    for r, prod in all_runs(ctx):
        cl, acc, fi = r
        n = report(ctx, ("stalls", "crashes"), "progress", r, prod)
        for loc, q in sorted(cl.loops):
            ctx.ok("progress", "%s: loop at %s" % (cl.name, loc))
        ctx.ok("no-token", "%s: %d uses of tokens" % (cl.name, cl.checks))
    ctx.require("progress", 20, "loops")


CHECKS = {"C08": c08, "C11": c11}
EXPLAIN = {"C08": "Abstract interpretation of every parsing function in "
           "product with the automaton of its grammar production.",
           "C11": "Abstract interpretation of every parsing function with "
           "token consumption per loop iteration and possible absence of "
           "the next token in the abstract state."}
RULES = {"C08": ["conformance: a function reads a token or nonterminal only "
                 "where its production permits it, never rejects or ignores "
                 "one which it permits, and reads every alternative",
                 "contract: peek, match and advance do what the analysis "
                 "assumes"],
         "C11": ["progress: every iteration of a parser loop consumes a "
                 "token or leaves the loop",
                 "no-token: the next token is not used where the input may "
                 "have ended"]}
