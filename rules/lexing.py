"""C19: a file is split into exactly the tokens the manual describes.

The lexer is interpreted abstractly with its characters drawn from classes
which the source cannot tell apart; a reference automaton runs along.
"""
import ast as pyast
from sa.base import *          # noqa
from sa.absint import Undecided, Budget, eqterm
from sa.equiv import equiv
from rules.core import ME

KEYWORDS = frozenset("""abs abstract and checks else elsif enum error exists
extends false fatal final forall freeze if implies import in not null optional
or package section separator then true tuple type warning xor""".split())
PUNCT = {"(": "BRA", ")": "KET", "{": "C_BRA", "}": "C_KET", "[": "S_BRA",
         "]": "S_KET", ",": "COMMA", "@": "AT", ":": "COLON",
         ";": "SEMICOLON", "/": "OPERATOR", "%": "OPERATOR",
         "+": "OPERATOR", "-": "OPERATOR"}
HEX = "0123456789abcdefABCDEF"
PREDICATES = ("isascii", "isalpha", "isdigit", "isalnum", "isspace",
              "isdecimal", "isnumeric", "isupper", "islower",
              "isidentifier", "isprintable")
TEXT = sym("TEXT")
SLOTS = (sym("CHAR"), sym("CHAR+1"), sym("CHAR+2"))
OLD = sym("CHAR-1")


def alphabet(m, modules):
    """one representative of every class of characters which no constant
    and no predicate in the source distinguishes"""
    consts = {'"', "'", "\\", "\n", "_", ".", "0123456789", "01", HEX, "b",
              "x", "0", "*", "/", "[", "]", ","} | set(PUNCT) | set("=<>!")
    for name in modules:
        mod = m.modules.get(name)
        if mod is None:
            continue
        skip = set()
        for n in pyast.walk(mod.tree):
            if isinstance(n, pyast.Call):
                f = n.func
                nm = f.attr if isinstance(f, pyast.Attribute) else getattr(
                    f, "id", "")
                if nm in ("error", "lex_error", "warning", "match",
                          "frozenset"):
                    skip |= {id(x) for x in pyast.walk(n)}
            elif isinstance(n, pyast.Dict):
                skip |= {id(v) for v in n.values}
            elif isinstance(n, pyast.Expr) and \
                    isinstance(n.value, pyast.Constant):
                skip.add(id(n.value))
        for n in pyast.walk(mod.tree):
            if isinstance(n, pyast.Constant) and isinstance(n.value, str) \
                    and id(n) not in skip and n.value and (
                        len(n.value) == 1 or " " not in n.value):
                v = n.value
                if len(v) == 1 or not v.replace("_", "").isalpha() or \
                        len(v) > 20:
                    consts.add(v)
    consts = sorted(consts)
    single = {c for c in consts if len(c) == 1}
    sets = [frozenset(c) for c in consts if len(c) > 1]
    seen = {}
    for i in range(0x110000):
        c = chr(i)
        if c in single:
            sig = c
        else:
            sig = (tuple(c in s for s in sets) if i < 128 or any(
                c in s for s in sets) else (),
                tuple(getattr(c, p)() for p in PREDICATES[:5]))
        if sig not in seen:
            seen[sig] = c
    return list(seen.values()), frozenset(single)


def is_word(c):
    return c is not None and c.isascii() and (c.isalnum() or c == "_")


class Trlc:
    """reference automaton of the language.  want() says whether the token
    goes on; its states are tuples"""
    kinds = {}

    def skips(self, mode, c):
        return c.isspace()

    def want(self, mode, q, cc, nc, nnc):
        """-> ('more', q') | ('end', (kind, detail)) | ('error', why);
        of nnc only matters whether it is one of these characters"""
        def more(*q2):
            return "more", q2

        def end(kind, detail=""):
            return "end", (kind, detail)

        def error(why):
            return "error", why
        if q == ("start",):
            c = cc
            if c == "/" and nc == "/":
                return more("line")
            if c == "/" and nc == "*":
                return more("block", 0, False)
            if c.isascii() and c.isalpha():
                q = ("word",)
            elif c in PUNCT:
                return end(PUNCT[c])
            elif c == "=":
                if nc == ">":
                    return more("done", "ARROW", "")
                if nc == "=":
                    return more("done", "OPERATOR", "")
                return end("ASSIGN")
            elif c == ".":
                return more("done", "RANGE", "") if nc == "." else \
                    end("DOT")
            elif c in "<>":
                return more("done", "OPERATOR", "") if nc == "=" else \
                    end("OPERATOR")
            elif c == "!":
                return more("done", "OPERATOR", "") if nc == "=" else \
                    error("malformed != operator")
            elif c == "*":
                return more("done", "OPERATOR", "") if nc == "*" else \
                    end("OPERATOR")
            elif c == '"':
                if nc == '"':
                    return more("open", c, 2) if nnc == '"' else \
                        more("done", "STRING", "simple")
                q = ("string",)
            elif c == "'":
                q = ("open", c, 1)
            elif c.isascii() and c.isdigit():
                if c == "0" and nc in ("b", "x"):
                    return more("number", 2 if nc == "b" else 16, True,
                                False, "INTEGER")
                q = ("number", 10, False, True, "INTEGER")
            else:
                return error("unexpected character")
        if q[0] == "done":
            return end(*q[1:3])
        if q[0] == "line":
            return more("line") if nc not in (None, "\n") else \
                end("COMMENT")
        if q[0] == "block":
            if nc is None:
                return end("COMMENT", "unterminated")
            if q[1] and cc == "*" and nc == "/":
                return more("done", "COMMENT", "")
            return more("block", 1, False)
        if q[0] == "word":
            return more("word") if is_word(nc) else end("WORD")
        if q[0] == "string":
            if nc is None:
                return error("unterminated string")
            if nc == "\n":
                return error("newline in string")
            if nc == '"':
                return more("done", "STRING", "simple")
            return more("escape") if nc == "\\" else more("string")
        if q[0] == "escape":
            if nc == '"':
                return more("string")
            q = ("string",)
            return self.want(mode, q, cc, nc, nnc)
        if q[0] == "open":
            if nc != q[1]:
                return error("malformed triple-quoted string")
            return more("open", q[1], q[2] + 1) if q[2] < 2 else \
                more("triple", q[1], 0)
        if q[0] == "triple":
            if nc is None:
                return error("unterminated triple-quoted string")
            if nc != q[1]:
                return more("triple", q[1], 0)
            return more("triple", q[1], q[2] + 1) if q[2] < 2 else \
                more("done", "STRING", "triple", q[1])
        if q[0] == "number":
            _, base, req, dec, kind = q
            bad = error("unfinished number") if req else end(kind, base)
            if nc is None:
                return bad
            if nc.isascii() and nc in HEX:
                ok = {2: "01", 10: "0123456789", 16: HEX}[base]
                if nc in ok:
                    return more("number", base, False, dec, kind)
                return error("not a digit of this base")
            if req:
                return bad
            if nc == "_":
                return more("number", base, True, dec, kind)
            if nc == ".":
                if nnc == ".":
                    return end(kind, base)
                return more("number", base, True, False, "DECIMAL") if dec \
                    else error("decimal point")
            return bad
        raise Undecided("reference state %s" % (q,))


class Markup:
    """reference lists in strings"""

    def skips(self, mode, c):
        return mode and c.isspace()

    def want(self, mode, q, cc, nc, nnc):
        if q == ("start",):
            if cc in "[]" and nc == cc:
                if (cc == "[") == mode:
                    return "error", "nested or unopened list"
                return "more", ("done", "REFLIST_BEGIN" if cc == "["
                                else "REFLIST_END", "")
            if not mode:
                return "end", ("CHARACTER", "")
            if cc == ",":
                return "end", ("REFLIST_COMMA", "")
            if cc == ".":
                return "end", ("REFLIST_DOT", "")
            if not (cc.isascii() and cc.isalpha()):
                return "error", "unexpected character"
            q = ("word",)
        if q[0] == "done":
            return "end", q[1:]
        if is_word(nc):
            return "more", ("word",)
        return "end", ("REFLIST_IDENTIFIER", "")


class LexClient(TrlcClient):
    inline_depth = 9
    max_heads = 10 ** 9
    max_states = 10 ** 6
    max_loop = 10 ** 6
    budget = 6 * 10 ** 6
    recursion = 4
    opaque_raises = False
    precise_get = True
    fuse_generators = True
    kill_dead = True
    record_branches = False

    def __init__(self, ctx, advance, ref, chars, mode=False,
                 token_class="Token"):
        self.ctx = ctx
        self.advance = advance
        self.ref = ref
        self.chars, self.single = chars
        self.chars = frozenset(self.chars) | {None}
        self.memo = {}
        self.mode = mode
        self.token_class = token_class
        self.bad = {}
        self.odd = {}
        self.good = {}

    # -- bookkeeping --------------------------------------------------------
    def violate(self, what, ip, node, msg):
        self.bad.setdefault((what, msg), ip.frame.fi.loc(node))

    def unsure(self, what, msg):
        self.odd[(what, msg)] = True

    def fine(self, what, msg):
        k = (what, msg)
        self.good[k] = self.good.get(k, 0) + 1

    # -- characters -------------------------------------------------------------
    def chars_of(self, st, v):
        """the classes a character can belong to"""
        if v.tag == "const":
            return frozenset([v.a[1]])
        s = st.heap.get((v, "$set"))
        return s.a[1] if s is not None else None

    def get(self, st, name):
        return st.heap[(ME, name)]

    def at_end(self, st, name="cc"):
        return None in self.chars_of(st, self.get(st, name))

    def refine(self, st, v, cs):
        """the state in which the character is one of cs"""
        if not cs:
            return None
        if v.tag == "const":
            return st
        if st.heap.get((v, "$set")).a[1] == cs:
            return st
        st = st.set_attr(v, "$set", mk("const", "set", cs))
        if len(cs) == 1 and (list(cs)[0] is None or
                             list(cs)[0] in self.single):
            st = st._upd("eq", v, const(list(cs)[0]))
        return st

    def place_chars(self, st, *sets):
        """the three characters, with the given possibilities"""
        for v, name, cs in zip(SLOTS, ("cc", "nc", "nnc"), sets):
            st = st.drop_terms(v)
            st = st.set_attr(ME, name, v)
            st = st.set_attr(v, "$set", mk("const", "set", frozenset()))
            st = self.refine(st, v, frozenset(cs))
        return st

    def on_eq(self, ip, st, a, b, val):
        if a not in SLOTS and b not in SLOTS:
            return NotImplemented
        if b in SLOTS and a not in SLOTS:
            a, b = b, a
        sa, sb = self.chars_of(st, a), self.chars_of(st, b)
        if sa is None or sb is None:
            return NotImplemented
        if b not in SLOTS:
            k = b.a[1]
            if k is not None and k not in self.single:
                return NotImplemented if k in sa else (
                    None if val else st)
            return self.refine(st, a, sa & {k} if val else sa - {k})
        if val:
            both = sa & sb
            st = self.refine(st, a, both)
            return self.refine(st, b, both) if st is not None else None
        if len(sa | sb) == 1 and (sa <= self.single or sa == {None}):
            return None
        return st

    def on_split(self, ip, st, v):
        cs = {x for x in subterms(v) if x in SLOTS}
        if not cs:
            return None
        cs = sorted(cs, key=lambda y: y.a[0])
        sets = [self.chars_of(st, x) for x in cs]
        if len(cs) > 2 or None in sets:
            self.unsure("tokens", "condition %s" % show(v))
            return [], []
        by = {}
        for c in sets[0]:
            two = sets[1] if len(cs) > 1 else [None]
            ans = {d: holds(v, dict(zip(cs, (c, d)))) for d in two}
            if None in ans.values():
                # not understood: nothing is said about these paths
                self.unsure("tokens", "condition %s" % show(v))
                return [], []
            if "crash" in ans.values():
                self.violate("crash", ip, ip.frame.fi.node, "%s fails at "
                             "the end of the text" % show(v)[:60])
            k = frozenset(d for d in ans if ans[d] is True)
            two = [d for d in ans if ans[d] != "crash"]
            by.setdefault((k, frozenset(two) - k), set()).add(c)
        out = [], []
        for parts, c in by.items():
            s = self.refine(st, cs[0], frozenset(c))
            for rv, d in zip(out, parts):
                if d:
                    rv.append(self.refine(s, cs[1], d) if len(cs) > 1
                              else s)
        return out

    def moved(self, ip, st):
        """values which denote a character denote it at its new place"""
        m = {SLOTS[1]: SLOTS[0], SLOTS[2]: SLOTS[1], SLOTS[0]: OLD}
        for env in ip.outer:
            for k, v in env.items():
                if subterms(v) & set(m):
                    raise Undecided("a caller holds a character")
        if any(subterms(v) & set(m) for v in st.env.values()):
            env = {}
            for k, v in st.env.items():
                if v in m:
                    v = m[v]
                elif subterms(v) & set(m):
                    raise Undecided("a value made of characters")
                env[k] = v
            st = st.with_env(env)
        return st

    def where(self, st, tag):
        for n in ("lexpos", "line_no", "col_no"):
            st = st.set_attr(ME, n, mk("pos", n, tag))
        return st

    def on_attr(self, ip, st, base, name, node):
        if base is ME and name in ("lexpos", "line_no", "col_no"):
            v = st.heap.get((ME, name))
            if v is not None and v.tag == "pos" and v.a[1] == "R" and \
                    not st.ts[2]:
                return st.set_ts(st.ts[:2] + (True,))
        return st

    def wants(self, ip, st, q):
        """[(state, verdict, data)], by the characters which matter"""
        sets = [self.chars_of(st, self.get(st, n))
                for n in ("cc", "nc", "nnc")]
        key = (q, self.mode) + tuple(sets)
        r = self.memo.get(key)
        if r is None:
            by = {}
            kinds = {}
            for c in sets[2]:
                kinds.setdefault(c if c in ('"', ".") else "", set()).add(c)
            for n in sets[1]:
                for c in sets[0]:
                    v = {k: self.ref.want(self.mode, q, c, n, k)
                         for k in kinds}
                    if len(set(v.values())) == 1:
                        by.setdefault((list(v.values())[0], sets[2]),
                                      {}).setdefault(n, set()).add(c)
                    else:
                        for k, x in v.items():
                            by.setdefault((x, frozenset(kinds[k])),
                                          {}).setdefault(n, set()).add(c)
            r = []
            for (x, nn), d in by.items():
                prod = {}
                for n, c in d.items():
                    prod.setdefault(frozenset(c), set()).add(n)
                for c, n in prod.items():
                    r.append((x, c, frozenset(n), nn))
            self.memo[key] = r
        rv = []
        for (verdict, data), *cs in r:
            s = st
            for name, c in zip(("cc", "nc", "nnc"), cs):
                s = self.refine(s, self.get(s, name), c)
            rv.append((s, verdict, data))
        return rv

    def step(self, ip, st, node):
        """the reference automaton reads the next character"""
        phase, q, _ = st.ts
        todo = []
        end = self.at_end(st, "nc")
        if phase == "tok":
            for s2, verdict, data in self.wants(ip, st, q) \
                    if not self.at_end(st) else [(st, "end", None)]:
                if verdict == "more":
                    todo.append((s2, "tok", data))
                elif verdict == "error":
                    todo.append((s2, "err", (data,)))
                elif end:
                    todo.append((s2, "tok", ("done",) + data if data
                                 else q))
                else:
                    self.violate("longest match", ip, node,
                                 "the token %s does not end where required"
                                 % data[0])
        elif phase in ("pre", "ws"):
            cs = self.chars_of(st, self.get(st, "nc"))
            ws = frozenset(c for c in cs if c is not None and
                           self.ref.skips(self.mode, c))
            for c, x in ((ws, ("ws", ())), (cs - ws - {None},
                                            ("tok", ("start",))),
                         (cs & {None}, ("eof", ()))):
                if c:
                    todo.append((self.refine(st, self.get(st, "nc"), c),)
                                + x)
        else:
            todo.append((st, phase, q))
        rv = []
        for s, ph, q2 in todo:
            started = phase in ("pre", "ws") and ph == "tok"
            s = s.set_ts((ph, q2, False))
            c1 = self.chars_of(s, self.get(s, "nc"))
            c2 = self.chars_of(s, self.get(s, "nnc"))
            s = self.where(s, "E" if None in c1 else
                           "S" if started else "R")
            s = self.moved(ip, s)
            s = s.copy()
            s.heap = dict(s.heap)
            s.heap[(ME, "$moved")] = TRUE
            if None in c1:
                rv.append(self.place_chars(s, c1, {None}, {None}))
                continue
            if None in c2:
                rv.append(self.place_chars(s, c1, {None}, {None}))
            if c2 - {None}:
                rv.append(self.place_chars(s, c1, c2 - {None},
                                           self.chars))
        return [("ret", s, NONE) for s in rv]

    # -- calls --------------------------------------------------------------------
    def call_hook(self, ip, st, fi, self_v, args, node):
        if fi is self.advance:
            return self.step(ip, st, node)
        if fi.qual == "Source_Reference.__init__" or \
                fi.name == "source_location":
            return self.located(ip, st, fi, self_v, args, node)
        if fi.qual == "Source_Reference.text":
            a = st.heap.get((self_v, "$start"))
            b = st.heap.get((self_v, "$end"))
            if a is None or b is None:
                return [("ret", st, op("text", self_v))]
            return [("ret", st, self.text(st, a, b))]
        if fi.cls is not None and fi.cls.name == self.token_class and \
                fi.name == "__init__":
            return self.token(ip, st, self_v, args, node)
        if fi.name == "triple_quoted_string_value":
            return [("ret", st, op("triple", *[args[p] for p in
                                               fi.params]))]
        if fi.name == "current_location" and fi.cls is not None:
            return None
        return None

    def text(self, st, a, b):
        if self.is_start(a) and self.is_now(st, b):
            return TEXT
        return op("part of the text", a, b)

    def is_start(self, v):
        return v.tag == "pos" and v.a[0] == "lexpos" and v.a[1] == "S"

    def place(self, st, v):
        """('S'|'R'|'R+1'|'last'|'E'|'stale', ...) or None"""
        if v.tag == "pos" and v.a[0] == "lexpos":
            if v.a[1] == "R" and not st.ts[2]:
                return "stale"
            return v.a[1]
        if v.tag == "op" and v.a[0] == "add" and const(1) in v.a[1:]:
            o = [x for x in v.a[1:] if x is not const(1)]
            p = self.place(st, o[0]) if o else None
            return "R+1" if p == "R" or (
                p == "S" and self.get(st, "lexpos") is o[0]) else \
                "S+1" if p == "S" else None
        if v.tag == "op" and v.a[0] == "sub" and v.a[2] is const(1) and \
                v.a[1] is LENGTH:
            return "last"
        if v.tag == "op" and v.a[0] == "min" and len(v.a) == 3:
            p = [self.place(st, x) for x in v.a[1:]]
            if "last" in p:
                p.remove("last")
                return "last" if p[0] == "E" else p[0]
        return None

    def is_now(self, st, v):
        p = self.place(st, v)
        if p == "S":
            return self.get(st, "lexpos").a[1] == "S"
        if p == "R":
            return True
        if p == "last":
            return self.at_end(st) or self.at_end(st, "nc")
        return False

    def located(self, ip, st, fi, self_v, args, node):
        a = args.get("start_pos", args.get("begin"))
        b = args.get("end_pos", args.get("end"))
        if a is None or b is None:
            self.unsure("location", "parameters of %s" % fi.qual)
            return [("ret", st, NONE)]
        pa, pb = self.place(st, a), self.place(st, b)

        def bad(p):
            return p == "E" or (p == "R+1" and self.at_end(st, "nc"))
        if bad(pa) or bad(pb) or (pa, pb) in (("R+1", "R"), ("last", "S"),
                                              ("R+1", "S")):
            self.violate("location", ip, node, "the location of a token or "
                         "message lies outside of the text")
        elif pa in (None, "stale") or pb in (None, "stale"):
            self.unsure("location", "position %s, %s" % (show(a), show(b)))
        else:
            self.fine("location", "%s..%s" % (pa, pb))
        if fi.name == "source_location":
            st, self_v = ip.alloc("Source_Reference", node, st)
        st = st.set_attr(self_v, "$start", a).set_attr(self_v, "$end", b)
        for k, p in (("line_no", "start_line"), ("col_no", "start_col")):
            if args.get(p) is not None:
                st = st.set_attr(self_v, k, args[p])
        return [("ret", st, self_v if fi.name == "source_location"
                 else NONE)]

    def on_ext(self, ip, st, name, recv, args, kw, node):
        if name in (".startswith", ".endswith") and recv is TEXT and \
                len(args) == 1 and name == ".startswith":
            opts = args[0].a if args[0].tag == "tuple" else [args[0]]
            if all(is_const(x) for x in opts):
                p = self.prefix(st)
                if p is not None:
                    return [("ret", st, const(any(
                        p.startswith(x.a[1]) for x in opts)))]
        if name[1:] in PREDICATES and recv is not None and not args:
            if recv is NONE:
                return [("raise", st, sym("exc:AttributeError"))]
            if is_const(recv):
                return [("ret", st, const(getattr(recv.a[1],
                                                  name[1:])()))]
            if recv in SLOTS:
                cs = self.chars_of(st, recv)
                if None in cs:
                    rv = [("raise", self.refine(st, recv,
                                                frozenset([None])),
                           sym("exc:AttributeError"))]
                    st = self.refine(st, recv, cs - {None})
                    return rv + ([("ret", st, op(name, recv))]
                                 if st is not None else [])
                return [("ret", st, op(name, recv))]
        return None

    def prefix(self, st):
        """the first characters of the text, up to three"""
        q = st.ts[1]
        if q[0] == "done" and q[1] == "STRING":
            if q[2] == "simple":
                return '"?'
            return q[3] * 3
        if q[0] == "line":
            return "//"
        if q[0] == "block" or (q[0] == "done" and q[1] == "COMMENT"):
            return None
        return None

    # -- outcomes -----------------------------------------------------------------
    def verdicts(self, ip, st):
        phase, q, _ = st.ts
        if phase != "tok":
            return [(st, phase, q)]
        if self.at_end(st):
            return [(st, "end", q[1:] if q[0] == "done" else ("?", ""))]
        return self.wants(ip, st, q)

    def on_emit(self, ip, st, kind, fatal, args, node):
        if kind != "error":
            return st
        for s, v, data in self.verdicts(ip, st):
            if v in ("err", "error"):
                self.fine("error", data if isinstance(data, str)
                          else data[0])
            elif v == "more":
                self.violate("rejected", ip, node,
                             "a token which may go on is rejected")
            else:
                self.violate("rejected", ip, node,
                             "a complete token %s is rejected" %
                             (data[0] if data else "(end of file)"))
        return st

    def token(self, ip, st, self_v, args, node):
        kind = ip.norm(st, args["kind"])
        value = ip.norm(st, args.get("value") or NONE)
        loc = ip.norm(st, args["location"])
        for s, v, data in self.verdicts(ip, st):
            if v == "end":
                self.check_token(ip, s, kind, value, loc, data, node)
            elif v == "more":
                self.violate("longest match", ip, node, "a token %s is "
                             "made although it goes on" % show(kind))
            elif v in ("err", "error"):
                self.violate("accepted", ip, node, "a token %s is made from "
                             "text which is none: %s" % (
                                 show(kind), data if isinstance(data, str)
                                 else data[0]))
            else:
                self.violate("accepted", ip, node, "a token %s is made from "
                             "white space or the end of the text" %
                             show(kind))
        return [("ret", st.set_attr(self_v, "$made", TRUE), NONE)]

    def atoms(self, st):
        for fld in ("truth", "eq", "neq"):
            for a, v in getattr(st, fld).items():
                if TEXT in subterms(a):
                    yield fld, a, v

    def check_token(self, ip, st, kind, value, loc, data, node):
        want, detail = data[0], data[1] if len(data) > 1 else ""
        if kind.tag != "const":
            self.unsure("kind", "kind %s" % show(kind))
            return
        word, odd = None, []
        for fld, a, v in self.atoms(st):
            if fld == "truth" and a.tag == "op" and a.a[0] == "in" and \
                    a.a[1] is TEXT:
                items = ip.closed_items(st, a.a[2])
                if items is not None and all(is_const(x) for x in items):
                    ws = frozenset(x.a[1] for x in items)
                    if ws != KEYWORDS:
                        self.violate("kind", ip, node, "the keywords are "
                                     "not those of the manual: %s" % (
                                         ", ".join(sorted(ws ^ KEYWORDS))))
                    word = "KEYWORD" if v else "IDENTIFIER"
                    continue
            elif fld == "eq" and a is TEXT and is_const(v):
                word = "KEYWORD" if v.a[1] in KEYWORDS else "IDENTIFIER"
                continue
            elif fld == "neq" and a is TEXT:
                if {x.a[1] for x in v if is_const(x)} >= KEYWORDS:
                    word = "IDENTIFIER"
                continue
            odd.append(a)
        if want == "WORD":
            if word is None:
                if odd:
                    self.unsure("kind", "condition %s" % show(odd[0]))
                    return
                self.violate("kind", ip, node, "identifiers and keywords "
                             "are not told apart")
                return
            want = word
        got = kind.a[1]
        if got != want:
            if odd:
                self.unsure("kind", "condition %s" % show(odd[0]))
                return
            self.violate("kind", ip, node, "a token %s is made where the "
                         "text is %s" % (got, want))
            return
        self.fine("kind", want)
        a = st.heap.get((loc, "$start"))
        b = st.heap.get((loc, "$end"))
        ln = st.heap.get((loc, "line_no"))
        cn = st.heap.get((loc, "col_no"))
        if a is None or b is None:
            self.unsure("location", "location %s" % show(loc))
        elif not self.is_start(a):
            self.violate("location", ip, node, "the location of a token does "
                         "not start at its first character")
        elif not self.is_now(st, b):
            if self.place(st, b) in ("stale", None):
                self.unsure("location", "end %s" % show(b))
            else:
                self.violate("location", ip, node, "the location of a token "
                             "does not end at its last character")
        elif ln is not mk("pos", "line_no", "S") or \
                cn is not mk("pos", "col_no", "S"):
            self.violate("location", ip, node, "the line and column of a "
                         "token are not those of its first character")
        else:
            self.fine("location", "token")
        r = self.value_ok(want, detail, value, st)
        if r is True:
            self.fine("value", "%s %s" % (want, detail))
        elif r is False and not [x for x in odd if not (
                x.tag == "op" and x.a[0] == "in" and is_const(x.a[1]))]:
            self.violate("value", ip, node, "the value of a token %s%s is "
                         "%s" % (want, " of base %s" % detail
                                 if detail not in ("", "simple", "triple")
                                 else "", show(value)))
        else:
            self.unsure("value", "%s for %s" % (show(value), want))

    def value_ok(self, kind, detail, v, st):
        if self.token_class != "Token":
            return v is TEXT or self.content(st, v)
        if kind in ("IDENTIFIER", "KEYWORD", "OPERATOR"):
            if v is TEXT or st.eq.get(TEXT) is v:
                return True
            return False if v is NONE or only(v, TEXTUAL) else None
        if kind == "COMMENT":
            return True
        if kind == "INTEGER":
            return number(v, detail)
        if kind == "DECIMAL":
            return decimal(v)
        if kind == "STRING":
            return string(v, detail)
        return v is NONE or (False if only(v, TEXTUAL) or is_const(v)
                             else None)

    def content(self, st, v):
        """self.content[start:end + 1]"""
        if v.tag == "op" and v.a[0] == "slice" and v.a[2] == (
                True, True, False):
            b = v.a[4]
            if v.a[1].tag == "attr" and v.a[1].a[1] == "content" and \
                    self.is_start(v.a[3]) and b.tag == "op" and \
                    b.a[0] == "add" and const(1) in b.a[1:]:
                o = [x for x in b.a[1:] if x is not const(1)]
                if o and self.is_now(st, o[0]):
                    return True
        if any(x.tag == "op" and x.a[0] not in TEXTUAL | {"add", "sub"}
               or self.place(st, x) == "stale" for x in subterms(v)):
            return None
        return False

    # -- progress -----------------------------------------------------------------
    def iteration_end(self, ip, st, node, kind, start):
        if self.at_end(st) and self.at_end(start) and st.heap == start.heap and st.env == start.env and \
                st.truth == start.truth and st.eq == start.eq:
            self.violate("progress", ip, node, "a loop repeats for ever at "
                         "the end of the text")
            return None
        if st.key() == start.key():
            self.violate("progress", ip, node, "a loop repeats for ever "
                         "without reading a character")
            return None
        return self.still(st)

    @staticmethod
    def still(st):
        if (ME, "$moved") in st.heap:
            st = st.copy()
            st.heap = {k: v for k, v in st.heap.items()
                       if k != (ME, "$moved")}
        return st

    def iteration_begin(self, ip, st, node, it):
        if any(isinstance(n, (ast.While, ast.For)) for b in node.body
               for n in ast.walk(b)):
            return st
        return self.still(st)


TEXTUAL = {"slice", ".strip", ".lower", ".upper", ".replace", ".lstrip",
           ".rstrip", "int", "float", "part of the text", "Fraction",
           "fractions.Fraction", "triple", "str"}


def only(v, names):
    return all(x.a[0] in names for x in subterms(v) if x.tag == "op")


def peel(v):
    """-> (text or None, skipped characters at the start, at the end,
    replacements)"""
    skip, cut, repl = 0, 0, []
    while v is not TEXT:
        if v.tag != "op":
            return None
        if v.a[0] == ".replace" and len(v.a) == 4 and \
                all(is_const(x) for x in v.a[2:]):
            repl.append((v.a[2].a[1], v.a[3].a[1]))
            v = v.a[1]
            continue
        if v.a[0] == "slice" and is_const(v.a[3]):
            shape, vals = v.a[2], [x.a[1] if is_const(x) else None
                                   for x in v.a[3:]]
            if shape == (True, False, False) and vals[0] is not None:
                skip += vals[0]
            elif shape == (True, True, False) and None not in vals and \
                    vals[1] < 0 <= vals[0]:
                skip += vals[0]
                cut -= vals[1]
            else:
                return None
            v = v.a[1]
            continue
        return None
    return skip, cut, repl


def number(v, base):
    if not only(v, TEXTUAL | {"kw"}):
        return None
    if v.tag != "op" or v.a[0] != "int":
        return False
    rest = list(v.a[2:])
    b = 10
    if rest:
        x = rest[0]
        if x.tag == "op" and x.a[0] == "kw":
            x = x.a[2]
        if not is_const(x):
            return None
        b = x.a[1]
    p = peel(v.a[1])
    if p is None:
        return None
    skip, cut, repl = p
    if cut or any(x != ("_", "") for x in repl):
        return False
    if base == 10:
        return b == 10 and skip == 0
    return (b == base and skip in (0, 2)) or (b == 0 and skip == 0)


def decimal(v):
    # digits are lost on the way
    if any(x.tag == "op" and x.a[0] == "float" and TEXT in subterms(x)
           for x in subterms(v)):
        return False
    if not only(v, TEXTUAL):
        return None
    if v.tag != "op" or v.a[0] not in ("Fraction", "fractions.Fraction"):
        return False
    if len(v.a) != 2:
        return None
    p = peel(v.a[1])
    if p is None:
        return False if v.a[1].tag == "op" and v.a[1].a[0] in (
            "float", "int") else None
    skip, cut, repl = p
    if skip or cut:
        return False
    if not repl:
        return None
    return all(x == ("_", "") for x in repl)


def string(v, detail):
    if detail == "triple":
        if v.tag == "op" and v.a[0] == "triple":
            return v.a[1] is TEXT or (False if only(v.a[1], TEXTUAL)
                                      else None)
        return False if only(v, TEXTUAL) else None
    p = peel(v)
    if p is None:
        return False if only(v, TEXTUAL) else None
    skip, cut, repl = p
    return (skip, cut, repl) == (1, 1, [('\\"', '"')])


LENGTH = mk("attr", ME, "length", 0)


class Unknown(Exception):
    pass


def holds(a, env):
    """truth of a condition on characters of given classes; None if it is
    not understood or fails"""
    try:
        return bool(value_of(a, env))
    except TypeError:
        return "crash" if None in env.values() else None
    except (Unknown, ValueError, AttributeError, IndexError, KeyError):
        return None


BINARY = {"eq": lambda a, b: a == b, "lt": lambda a, b: a < b,
          "le": lambda a, b: a <= b, "gt": lambda a, b: a > b,
          "ge": lambda a, b: a >= b,
          "in": lambda a, b: a in b, "add": lambda a, b: a + b,
          "sub": lambda a, b: a - b, "index": lambda a, b: a[b],
          "mod": lambda a, b: a % b, "mul": lambda a, b: a * b}
UNARY = {"not": lambda a: not a, "len": len, "ord": ord, "chr": chr,
         "neg": lambda a: -a, "str": str}
METHODS = set(PREDICATES) | {"find", "count", "lower", "upper", "index",
                             "startswith", "endswith", "strip", "casefold"}


def value_of(a, env):
    if a in env:
        return env[a]
    if a.tag == "const":
        return a.a[1]
    if a.tag == "gdict":
        return {value_of(kv.a[0], env): kv.a[1] for kv in a.a}
    if a.tag == "tuple":
        return tuple(value_of(y, env) for y in a.a)
    if a.tag == "op":
        n = a.a[0]
        args = a.a[1:3] if n == "in" else a.a[1:]
        if all(isinstance(y, V) for y in args):
            vals = [value_of(y, env) for y in args]
            if n in BINARY and len(vals) == 2:
                return BINARY[n](*vals)
            if n in UNARY and len(vals) == 1:
                return UNARY[n](*vals)
            if n[0] == "." and n[1:] in METHODS and \
                    isinstance(vals[0], str):
                return getattr(vals[0], n[1:])(*vals[1:])
    raise Unknown(a)


def explore(ctx, cls, ref, token_class, modes, chars):
    m = ctx.m
    fi = ctx.func(cls + ".token")
    adv = m.classes[cls].lookup("advance")
    if adv is None:
        ctx.undecided("tokens", cls, "no method advance")
        return
    for mode in modes:
        what = cls + (" (in a list)" if mode else "")
        cl = LexClient(ctx, adv, ref, chars, mode, token_class)
        ip = Interp(m, cl)
        st0 = State()
        st0 = st0._upd("types", ME, frozenset([cls]))
        st0 = st0.set_attr(ME, "in_reflist", const(mode))
        outs = []
        n = 0
        try:
            none = frozenset([None])
            every = frozenset(chars[0])
            for cc in (none, every):
                for nc, nnc in ((every, every), (every, none),
                                (none, none)):
                    s = cl.where(cl.place_chars(st0, cc, nc, nnc), "pre")
                    outs += ip.run(fi, {"self": ME},
                                   s.set_ts(("pre", (), False)))
                    n += 1
        except (Undecided, Budget) as e:
            ctx.undecided("tokens", what, e)
        ctx.analysed(ip)
        ctx.count("start configurations", n)
        ctx.count("interpretation steps", ip.steps)
        for o in outs:
            finish_path(ctx, cl, ip, o, fi, mode)
        for (rule, msg), loc in cl.bad.items():
            ctx.violation(rule, what + ": " + msg, loc,
                          "%s: %s" % (what, msg))
        for rule, msg in cl.odd:
            ctx.undecided(rule, what, msg)
        for (rule, msg), k in sorted(cl.good.items(), key=repr):
            ctx.ok(rule, "%s: %s (%d paths)" % (what, msg, k))
        for x in ip.notes:
            ctx.undecided("tokens", what, x)


def finish_path(ctx, cl, ip, o, fi, mode):
    phase = o.st.ts[0]
    node = o.node or fi.node
    ip.frame = type("F", (), {"fi": o.fi or fi})()
    if o.kind == "return":
        v = ip.norm(o.st, o.val) if o.val is not None else NONE
        if v is NONE:
            if phase == "eof":
                cl.fine("end", "end of the text")
            else:
                cl.violate("end", ip, node, "the end of the text is "
                           "reported although there is more")
        elif (v, "$made") not in o.st.heap:
            cl.unsure("tokens", "result %s" % show(v))
        elif isinstance(cl.ref, Markup):
            flag = ip.norm(o.st, o.st.heap[(ME, "in_reflist")])
            k = o.st.ts[1]
            want = True if k[1:2] == ("REFLIST_BEGIN",) else \
                False if k[1:2] == ("REFLIST_END",) else mode
            if flag is const(want):
                cl.fine("mode", str(k[1:2]))
            elif flag.tag == "const":
                cl.violate("mode", ip, node, "after %s the lexer is %sin a "
                           "reference list" % (
                               k[1] if len(k) > 1 else "a character",
                               "" if flag is TRUE else "not "))
            else:
                cl.unsure("mode", show(flag))
    elif o.kind == "raise":
        x = o.val
        if x is not None and x.tag == "sym":
            cl.violate("crash", ip, node, "%s is raised" % x.a[0][4:])
    elif o.kind == "ice":
        cl.violate("crash", ip, node, "an assertion fails")


ADVANCE = """
def spec(self, position, rest):
    self.lexpos = position + 1
    if position == -1:
        self.line_no = self.line_no + 1
        self.col_no = 0
    elif self.cc == "\\n":
        self.line_no = self.line_no + 1
        self.col_no = 0
    if self.nc is not None:
        self.col_no = self.col_no + 1
    self.cc = self.nc
    self.nc = self.nnc
    if rest > 2:
        self.nnc = self.content[position + 3]
    else:
        self.nnc = None
"""
INIT = """
def spec(self, mh, content):
    self.mh = mh
    self.content = content
    self.length = len(content)
    self.tokens = []
    self.lexpos = -1
    self.line_no = 0
    self.col_no = 0
    self.cc = None
    if 0 < len(content):
        self.nc = content[0]
    else:
        self.nc = None
    if 1 < len(content):
        self.nnc = content[1]
    else:
        self.nnc = None
"""
NESTED = """
def spec(self, start_line, start_col, begin, end):
    o = self.origin_location
    if self.origin_multi_string:
        if start_line == 1:
            col = o.col_no + 3 + start_col - 1
        else:
            col = start_col
        return Source_Reference(o.lexer, o.line_no + start_line - 1, col,
                                o.start_pos + 3 + begin,
                                o.start_pos + 3 + end)
    before = self.content[0:begin].count('"')
    within = self.content[begin:end + 1].count('"')
    return Source_Reference(o.lexer, o.line_no,
                            o.col_no + 1 + begin + before,
                            o.start_pos + 1 + begin + before,
                            o.start_pos + 1 + end + before + within)
"""


def primitives(ctx):
    """advance() moves by one character and keeps count of lines"""
    for cc in (None, "\n", "x"):
        for pos in (-1, 0, 7):
            if (pos == -1) != (cc is None) and pos != 7:
                continue
            for rest in (0, 1, 2, 3, 9):
                # characters after the current one
                def setup(ip, st):
                    for k, v in (("cc", const(cc)),
                                 ("nc", sym("next") if rest > 0 else NONE),
                                 ("nnc", sym("after") if rest > 1 else NONE),
                                 ("lexpos", const(pos)),
                                 ("line_no", const(3)),
                                 ("col_no", const(5)),
                                 ("length", const(pos + 1 + rest)),
                                 ("content", sym("content"))):
                        st = st.set_attr(ME, k, v)
                    for s in ("next", "after"):
                        st = st._upd("types", sym(s), frozenset(["str"]))
                    return st
                equiv(ctx, "advance", "advance (at %d after %r, %d left)" % (
                    pos, cc, rest), "Lexer_Base.advance", ADVANCE, setup,
                    {"position": const(pos), "rest": const(rest)},
                    like="lexer", only=True)


def start(ctx):
    equiv(ctx, "advance", "the first position", "Lexer_Base.__init__", INIT,
          lambda ip, st: st._upd("types", sym("content"),
                                 frozenset(["str"])),
          like="lexer", only=True, linear=True)


NESTED_INIT = """
def spec(self, mh, literal):
    text = literal.location.text()
    self.origin_location = literal.location
    if text.startswith(('\"\"\"', "'''")):
        self.origin_multi_string = True
        self.base_offset = 3
        Lexer_Base.__init__(self, mh, text[3:-3])
    else:
        self.origin_multi_string = False
        self.base_offset = 1
        Lexer_Base.__init__(self, mh, text[1:-1].replace('\\\\"', '"'))
"""
MARKUP_INIT = """
def spec(self, mh, literal):
    self.in_reflist = False
"""
STREAM = """
def spec(self):
    tok = TRLC_Lexer.token(self)
    if tok is not None:
        self.tokens.append(tok)
    return tok
"""


class FeedClient(TrlcClient):
    """the parser sees every token but the comments"""
    inline_depth = 6
    opaque_raises = False
    precise_get = True
    kill_dead = True
    recursion = 4

    def __init__(self, ctx, token):
        self.ctx = ctx
        self.tokens = token
        self.bad = []

    def on_virtual(self, ip, st, name, cands, self_v, args, kw, node):
        if not any(c in self.tokens for c in cands):
            return None
        return self.call_hook(ip, st, cands[0], self_v, {}, node)

    def call_hook(self, ip, st, fi, self_v, args, node):
        if fi not in self.tokens:
            return None
        last = st.ts[0]
        if last == "token":
            self.bad.append((ip.frame.fi.loc(node), "a token is lost"))
            return []
        if last == "end":
            return [("ret", st, NONE)]
        rv = []
        c, t = sym("COMMENT_TOKEN"), sym("TOKEN")
        s = st.drop_terms(c).set_attr(c, "kind", const("COMMENT"))
        s = ip.split(s, op("eq", c, NONE))[1][0]
        rv.append(("ret", s.set_ts(("comment",)), c))
        s = st.set_attr(t, "kind", sym("KIND"))
        s = ip.split(s, op("eq", t, NONE))[1][0]
        s = ip.split(s, op("eq", sym("KIND"), const("COMMENT")))[1][0]
        rv.append(("ret", s.set_ts(("token",)), t))
        rv.append(("ret", st.set_ts(("end",)), NONE))
        return rv


def feed(ctx):
    m = ctx.m
    fi = ctx.func("Parser_Base.advance")
    tokens = [c.methods["token"] for c in m.classes.values()
              if "token" in c.methods]
    cl = FeedClient(ctx, tokens)
    ip = Interp(m, cl)
    st = State()._upd("types", ME, m.subclasses("Parser_Base"))
    st = st.set_attr(ME, "nt", sym("BEFORE"))
    st = st.set_attr(ME, "lexer", sym("LEXER"))
    st = st._upd("types", sym("LEXER"), m.subclasses("Lexer_Base"))
    for x in ("COMMENT_TOKEN", "TOKEN"):
        st = st._upd("types", sym(x), m.subclasses("Token_Base"))
    what = "Parser_Base.advance"
    try:
        outs = ip.run(fi, {"self": ME}, st.set_ts(("",)))
    except (Undecided, Budget) as e:
        ctx.undecided("comments", what, e)
        return
    ctx.analysed(ip)
    n = 0
    for loc, msg in cl.bad:
        ctx.violation("comments", msg, loc, "%s: %s" % (what, msg))
    for o in outs:
        ct = ip.norm(o.st, o.st.heap.get((ME, "ct"), NONE))
        nt = ip.norm(o.st, o.st.heap.get((ME, "nt"), NONE))
        want = {"comment": sym("COMMENT_TOKEN"), "token": sym("TOKEN"),
                "end": NONE}.get(o.st.ts[0])
        msg = None
        if o.kind != "return":
            ctx.undecided("comments", what, "a path ends with %s" % o.kind)
            continue
        if o.st.ts[0] == "comment":
            msg = "a comment is given to the parser"
        elif o.st.ts[0] == "":
            msg = "no token is read"
        elif nt is not want:
            msg = "the token read is not the next token"
        elif ct is not sym("BEFORE"):
            msg = "the next token does not become the current one"
        if msg and ip.notes:
            ctx.undecided("comments", what, ip.notes[0])
        elif msg:
            ctx.violation("comments", msg, (o.fi or fi).loc(o.node),
                          "%s: %s" % (what, msg), path_text(o))
        else:
            ctx.ok("comments", "%s: %s" % (what, o.st.ts[0]))
            n += 1
    if not n:
        ctx.undecided("comments", what, "no path")


class DedentClient(TrlcClient):
    inline_depth = 6
    precise_get = True
    opaque_raises = False
    kill_dead = True
    fuse_generators = True
    unroll_comps = True
    max_heads = 2
    max_states = 20000
    recursion = 4
    budget = 400000

    def __init__(self, n):
        self.lines = [sym("LINE%d" % i) for i in range(n)]

    def on_ext(self, ip, st, name, recv, args, kw, node):
        if name == ".splitlines" and not args or \
                name == ".split" and args and args[0] is const("\n"):
            self.source = recv
            st, o = ip.alloc("list", node, st)
            return [("ret", st.set_attr(o, "$items",
                                        mk("tuple", *self.lines)), o)]
        return None


def pieces(v):
    if v.tag == "op" and v.a[0] == "add" and len(v.a) == 3:
        return pieces(v.a[1]) + pieces(v.a[2])
    if v.tag == "op" and v.a[0] == ".join" and v.a[2].tag == "tuple":
        rv = []
        for x in v.a[2].a:
            rv += pieces(x) + [v.a[1]]
        return rv[:-1]
    return [v]


def dedent(ctx, most=3):
    """every line of a triple-quoted string is kept, without its trailing
    white space, and all but the first lose the same prefix"""
    m = ctx.m
    fi = [f for f in m.functions.values()
          if f.name == "triple_quoted_string_value"]
    if not fi:
        ctx.undecided("lines", "triple-quoted string",
                      "triple_quoted_string_value does not exist")
        return
    fi = fi[0]
    for n in range(1, most + 1):
        what = "triple-quoted string of %u line%s" % (n, "s"[:n - 1])
        cl = DedentClient(n)
        ip = Interp(m, cl)
        st = State()
        for x in cl.lines:
            st = st._upd("types", x, frozenset(["str"]))
        for x in (cl.lines[0], cl.lines[-1]):
            # the text is stripped: its ends are not white space
            st = st._upd("truth", op(".strip", x), True)
            st = st._upd("truth", x, True)
        try:
            outs = ip.run(fi, {fi.params[0]: sym("raw_value")}, st)
        except (Undecided, Budget) as e:
            ctx.undecided("lines", what, e)
            continue
        ctx.analysed(ip)
        seen = set()
        for o in outs:
            if o.kind != "return":
                ctx.undecided("lines", what, "a path ends with %s" % o.kind)
                continue
            v = ip.norm(o.st, o.val)
            if v in seen:
                continue
            seen.add(v)
            r = lines_ok(cl.lines, [ip.norm(o.st, x) for x in pieces(v)])
            if r is True:
                ctx.ok("lines", "%s: %s" % (what, show(v)[:80]))
            elif r is None:
                ctx.undecided("lines", what, show(v))
            else:
                ctx.violation("lines", what, (o.fi or fi).loc(o.node),
                              "%s: the value is %s: %s" % (
                                  what, show(v), r), path_text(o))


def lines_ok(lines, parts):
    """True, None or what is wrong"""
    if not all(only(p, TEXTUAL) for p in parts):
        return None
    subject = []
    if any(is_const(p) and p.a[1] != "\n" and not str(p.a[1]).strip("\n")
           for p in parts):
        return None             # blank lines written differently
    for i, p in enumerate(parts):
        cur = {x for x in subterms(p) if x in lines}
        if len(cur) > 1 or any(x.tag in ("sym", "attr") and x not in lines
                               for x in subterms(p)):
            return None
        if i % 2:
            if p is not const("\n"):
                return None if cur else "lines are not separated by a " \
                    "line break"
            continue
        if not cur:
            return "there is text which is not from the string"
        subject.append((list(cur)[0], p))
    if [x for x, _ in subject] != lines:
        return "not every line is there, in order"
    prefix = set()
    for i, (x, p) in enumerate(subject):
        ops = []
        while p is not x:
            if p.tag != "op" or not isinstance(p.a[1], V):
                return None
            ops.append(p)
            p = p.a[1]
        names = [y.a[0] for y in ops]
        cut = [y for y in ops if y.a[0] == "slice"]
        if len(lines) > 1 and not {".rstrip", ".strip"} & set(names):
            return "trailing white space of line %u is kept" % (i + 1)
        if any(len(y.a) > 2 for y in ops if y.a[0] != "slice") or \
                set(names) - {".rstrip", ".strip", "slice"}:
            return None
        if i == 0:
            if cut:
                return "the first line is cut"
            continue
        if {".strip", ".lstrip"} & set(names):
            return "indentation of line %u is lost" % (i + 1)
        if len(cut) != 1 or cut[0].a[2] != (True, False, False):
            return "line %u keeps the common indentation" % (i + 1) \
                if not cut else None
        prefix.add(cut[0].a[3])
    if len(prefix) > 1:
        return "lines lose prefixes of different lengths"
    return True


def nested(ctx):
    """a place in the text of a string is a place in its file"""
    def setup(ip, st):
        o = sym("origin")
        st = st.set_attr(ME, "origin_location", o)
        st = st._upd("types", o, frozenset(["Source_Reference"]))
        for n in ("line_no", "col_no", "start_pos"):
            v = sym("origin." + n)
            st = st.set_attr(o, n, v)
            st = st._upd("types", v, frozenset(["int"]))
        st = st.set_attr(ME, "base_offset", const(3 if multi else 1))
        st = st.set_attr(ME, "origin_multi_string", const(multi))
        for p in ("start_col", "begin", "end"):
            st = st._upd("types", sym(p), frozenset(["int"]))
        return st
    equiv(ctx, "nested location", "the text of a string",
          "Nested_Lexer.__init__", NESTED_INIT, None, {},
          ("Source_Reference.text", "Lexer_Base.__init__"),
          logged=("Lexer_Base.__init__",), like="nested", only=True)
    equiv(ctx, "mode", "the text begins outside of a list",
          "Markup_Lexer.__init__", MARKUP_INIT, None, {},
          ("Nested_Lexer.__init__",), like="parser", only=True)
    equiv(ctx, "tokens kept", "Token_Stream.token", "Token_Stream.token",
          STREAM, None, {}, ("TRLC_Lexer.token",), logged=(
              "TRLC_Lexer.token",), like="lexer")
    feed(ctx)
    dedent(ctx)
    for multi in (False, True):
        for line in (const(1),) if not multi else (const(1), const(2)):
            equiv(ctx, "nested location", "place in a %s string%s" % (
                "triple-quoted" if multi else "simple",
                ", line %s" % show(line) if multi else ""),
                "Nested_Lexer.source_location", NESTED, setup,
                {"start_line": line}, like="nested", linear=True)


def c19(ctx):
    chars = alphabet(ctx.m, ("lexer",))
    ctx.count("character classes", len(chars[0]))
    explore(ctx, "TRLC_Lexer", Trlc(), "Token", (False,), chars)
    chars = alphabet(ctx.m, ("parser", "nested"))
    explore(ctx, "Markup_Lexer", Markup(), "Markup_Token", (False, True),
            chars)
    primitives(ctx)
    start(ctx)
    nested(ctx)


CHECKS = {"C19": c19}
EXPLAIN = {"C19": "The lexers are interpreted abstractly over classes of "
           "characters which the source cannot tell apart, in product with a "
           "reference automaton written from the reference manual, for every "
           "look-ahead; every token made, every error and every loop is "
           "compared with it."}
RULES = {"C19": ["longest match, kind, value, location of every token",
                 "an error exactly when the text is no token",
                 "end of file; progress of every loop",
                 "advance: position, line and column, look-ahead"]}
