"""C06, C07, C11: exit status, stage discipline, message accounting."""
import ast
from sa.base import *         # noqa
from sa.absint import Budget, Undecided
from sa.report import AnchorError

STAGES = ("build_graph", "parse_rsl_files", "parse_trlc_files",
          "resolve_record_references", "perform_checks")
ALIAS_STAGE = {"perform_sanity_checks": "lint"}


def guarded(ctx, rule, where, fn):
    try:
        return fn()
    except (Budget, Undecided) as e:
        ctx.undecided(rule, where, "%s: %s" % (type(e).__name__, e))
        return None


def oloc(o, fi):
    f = o.fi or fi
    n = o.node
    return f.loc(n if n is not None and hasattr(n, "lineno") else None)


def evnames(o):
    return [e[1] for e in o.st.events() if e[0] == "step"]


# --------------------------------------------------------------------------
# C06 exit status
# --------------------------------------------------------------------------

class TopClient(TrlcClient):
    """abstracts the Source_Manager API and argparse"""
    fuse_generators = True
    kill_dead = True
    collapse_strings = True
    inline_depth = 5
    max_heads = 1
    WATCH = {"errors", "warnings", "error_on_warnings"}

    def prune(self, ip, st):
        def keep(t):
            if t.tag == "op" and any(x.tag == "const" and x.a[1] != 0
                                     for x in t.a[1:] if isinstance(x, V)):
                return False
            return any(x.tag == "attr" and x.a[1] in self.WATCH
                       for x in subterms(t))
        st = st.copy()
        st.types = {k: v for k, v in st.types.items()
                    if k.tag == "sym" and k is not sym("options")}
        st.heap = {k: v for k, v in st.heap.items() if k[1] != "$new"}
        st.truth = {k: v for k, v in st.truth.items() if keep(k)}
        st.neq = {k: v for k, v in st.neq.items() if keep(k)}
        st.eq = {k: v for k, v in st.eq.items() if keep(k)}
        return st

    API = {"register_file": "bool", "register_directory": "bool",
           "register_include": "none", "process": "opt"}

    def opaque(self, ip, fi):
        return fi.cls is not None

    def havoc_mh(self, ip, st, node):
        st = ip.havoc_names(st, {"errors", "warnings", "suppressed"},
                            set())
        st = st.copy()
        st.aver = dict(st.aver)
        for k in ("errors", "warnings", "suppressed"):
            st.aver[k] = ("after", node.lineno)
        return st

    def call_hook(self, ip, st, fi, self_v, args, node):
        n = fi.name
        if fi.cls is None:
            return None
        if fi.cls.name in ("Message_Handler", "Source_Manager"):
            if n == "__init__":
                return [("ret", st, NONE)]
            if n in self.API:
                st = self.havoc_mh(ip, st, node).event("step", n, node)
                kind = self.API[n]
                if kind == "none":
                    return [("ret", st, NONE)]
                bad = st.set_ts("failed")
                if kind == "bool":
                    # C07 shows that these do not raise
                    return [("ret", st, TRUE), ("ret", bad, FALSE)]
                r = sym("stab:%d" % node.lineno)
                return [("ret", st._upd("types", r,
                                        frozenset(["Symbol_Table"])), r),
                        ("ret", bad, NONE)]
            if n in ("error", "warning", "check", "lex_error"):
                return [("ret", self.havoc_mh(ip, st, node), NONE)]
            if n == "close":
                return [("ret", st.event("step", "close", node), NONE)]
        if n in ("to_python_dict", "iter_record_objects", "dump"):
            return [("ret", st, op("data", const(n)))]
        return None

    def message(self, ip, st, fi, self_v, args, node):
        return None

    def on_ext(self, ip, st, name, recv, args, kw, node):
        if name == ".error" and recv is not None and recv.tag == "op" and \
                "ArgumentParser" in recv.a[0]:
            return [("exit", st.event("step", "usage", node), const(2))]
        if name == ".parse_args":
            return [("ret", st, sym("options"))]
        if name in ("json.dumps", "print"):
            return [("ret", st, NONE)]
        return None

    def on_attr(self, ip, st, base, name, node):
        return st


def status_of(ip, st, v):
    """-> list of (state, int status or None)"""
    v = ip.norm(st, v)
    if v.tag == "const":
        x = v.a[1]
        if x is None:
            return [(st, 0)]
        if isinstance(x, (bool, int)):
            return [(st, int(x))]
        return [(st, 1)]
    if v.tag == "op" and v.a[0] in ("int", "bool") and len(v.a) == 2:
        v = v.a[1]
    t, f = ip.split(st, v)
    if v.tag == "op" and v.a[0] in ("eq", "lt", "is", "in", "not", "ne"):
        return [(x, 1) for x in t] + [(x, 0) for x in f]
    return [(st, None)]


def truth_term(ip, st, v):
    """True / False / None"""
    v = ip.norm(st, v)
    t, f = ip.split(st, v)
    if t and not f:
        return True
    if f and not t:
        return False
    return None


def c06(ctx):
    m = ctx.m
    rule = "exit-status"
    fi = ctx.func("trlc:trlc")
    cl = TopClient()
    ip = Interp(m, cl)
    cl.budget = 600000
    outs = guarded(ctx, rule, "trlc()", lambda: ip.run(fi, {}))
    if outs is not None:
        ctx.analysed(ip)
        top_outcomes(ctx, rule, fi, ip, outs)
    # main() hands the status on
    rule = "exit-forward"
    fm = ctx.func("trlc:main")
    got = []

    class MC(TopClient):
        def call_hook(self, ip, st, f, self_v, args, node):
            if f.qual == "trlc:trlc":
                return [("ret", st.event("step", "trlc", node),
                         sym("status"))]
            return TopClient.call_hook(self, ip, st, f, self_v, args, node)

    ip = Interp(m, MC())
    outs = guarded(ctx, rule, "main()", lambda: ip.run(fm, {}))
    if outs is not None:
        good = True
        for o in outs:
            if any(e[0] == "caught" for e in o.st.events()):
                v = ip.norm(o.st, o.val) if o.val is not None else NONE
                if o.kind in ("return", "exit") and v in (NONE, const(0),
                                                          FALSE):
                    good = False
                    ctx.violation(rule, "main", oloc(o, fm), "a run that "
                                  "ends in an exception exits with status "
                                  "0", path_text(o))
                continue
            if "trlc" not in evnames(o):
                good = False
                ctx.violation(rule, "main", oloc(o, fm),
                              "main() ends without running the tool",
                              path_text(o))
            elif o.kind in ("return", "exit") and \
                    ip.norm(o.st, o.val) is not sym("status"):
                v = ip.norm(o.st, o.val)
                if v.tag == "const":
                    good = False
                    ctx.violation(rule, "main", oloc(o, fm), "main() gives "
                                  "%s instead of the status of the run" %
                                  show(v), path_text(o))
                else:
                    good = None
                    ctx.undecided(rule, "main", show(v))
        if good:
            ctx.ok(rule, "main")
    messages(ctx)
    counter_writers(ctx)
    ctx.require("exit-status", 1, "return paths")
    ctx.require("message-count", 4, "message methods")


def top_outcomes(ctx, rule, fi, ip, outs):
    seen = {}
    for o in outs:
        steps = evnames(o)
        if o.kind == "exit":
            if "usage" in steps:
                continue
            if "process" in steps:
                v = ip.norm(o.st, o.val) if o.val is not None else NONE
            else:
                continue            # --version
        elif o.kind == "raise":
            ctx.violation(rule, "exception", oloc(o, fi), "%s can escape "
                          "from the tool's top level" % show(o.val),
                          path_text(o))
            continue
        elif o.kind == "ice":
            continue
        else:
            v = o.val
        mh = [e[2] for e in o.st.events() if e[0] == "new" and
              e[1] == "Message_Handler"]
        opts = sym("options")
        if not mh:
            ctx.undecided(rule, "trlc()", "no message handler")
            continue
        mh = mh[0]

        def read(st, b, name):
            r = ip.get_attr(st, b, name, fi.node)
            return r[0][1] if r else None

        failed = "failed" in o.st.ts
        for st, code in status_of(ip, o.st, v):
            loc = oloc(o, fi)
            if code is None:
                ctx.undecided(rule, loc, "status %s" % show(v))
                continue
            err = truth_term(ip, st, read(st, mh, "errors"))
            warn = truth_term(ip, st, read(st, mh, "warnings"))
            eow = truth_term(ip, st, read(st, opts, "error_on_warnings"))
            key = (code, failed, err, warn, eow, "process" in steps)
            if key in seen:
                continue
            seen[key] = 1
            if "process" not in steps and not failed:
                ctx.violation(rule, "no processing", loc, "the tool ends "
                              "without processing its input", path_text(o))
            elif code == 0:
                why = None
                if failed:
                    why = "although registration or processing failed"
                elif err is not False:
                    why = "on a path where errors may have been reported"
                elif not (eow is False or warn is False):
                    why = "with --error-on-warnings on a path where " \
                          "warnings may have been reported"
                if why:
                    ctx.violation(rule, "status 0", loc,
                                  "the tool exits with status 0 " + why,
                                  path_text(o))
                else:
                    ctx.ok(rule, "status 0 %s" % (key,))
            else:
                if failed or err is True or (eow is True and warn is True):
                    ctx.ok(rule, "status 1 %s" % (key,))
                elif err is False and (eow is False or warn is False):
                    ctx.violation(rule, "status 1", loc, "the tool exits "
                                  "with status %d although nothing failed "
                                  "and no error was reported" % code,
                                  path_text(o))
                else:
                    ctx.violation(rule, "status 1", loc, "the tool exits "
                                  "with status %d on a path where no error "
                                  "was reported (warnings alone do not fail "
                                  "a run without --error-on-warnings)" %
                                  code, path_text(o))


# -- message accounting -------------------------------------------------------

class MhClient(Client):
    """Message_Handler methods: counters as increments, printing, raising"""
    inline_depth = 6

    def __init__(self):
        self.ctr = {}

    def on_ext(self, ip, st, name, recv, args, kw, node):
        if name == "print":
            f = kw.get("file")
            return [("ret", st.event("step", "print", node,
                                     tuple(args), f), NONE)]
        if name == "sys.exit":
            return [("exit", st.event("step", "exit", node), NONE)]
        return None

    def on_write(self, ip, st, base, name, val, node):
        if name in ("errors", "warnings", "suppressed"):
            return st.event("count", name, val, node)
        return st

    def on_call(self, ip, st, fi, self_v, args, node):
        if fi.name in ("context_lines",):
            return [("ret", st, sym("context"))]
        if fi.name == "to_string" or fi.name == "__str__":
            return [("ret", st._upd("types", sym("locstr"),
                                    frozenset(["str"])), sym("locstr"))]
        return None


MSG = {  # method -> (counter, kinds by user flag, fatal by default)
    "error": ("errors", "arg"), "lex_error": ("errors", True),
    "warning": ("warnings", False), "check": ("warnings", False)}


def messages(ctx):
    m = ctx.m
    rule = "message-count"
    for name in ("error", "lex_error", "warning", "check", "ice_loc"):
        fi = ctx.func("Message_Handler." + name)
        for fatal in ((TRUE, FALSE) if name == "error" else (None,)):
            for user in ((TRUE, FALSE) if name in ("error", "warning")
                         else (None,)):
                one_message(ctx, rule, fi, name, fatal, user)


KINDS = {("error", TRUE): "USER_ERROR", ("error", FALSE): "SYS_ERROR",
         ("lex_error", None): "SYS_ERROR", ("ice_loc", None): "SYS_ERROR",
         ("warning", TRUE): "USER_WARNING",
         ("warning", FALSE): "SYS_WARNING", ("check", None): "SYS_CHECK"}


def one_message(ctx, rule, fi, name, fatal, user):
    m = ctx.m
    cl = MhClient()
    ip = Interp(m, cl)
    st = State()
    s = sym("self")
    st = st._upd("types", s, frozenset(["Message_Handler"]))
    args = {}
    for p in fi.params[1:] + fi.kwonly:
        if p == "fatal" and fatal is not None:
            args[p] = fatal
        elif p == "user" and user is not None:
            args[p] = user
        elif p == "location":
            args[p] = sym("location")
            st = st._upd("types", args[p], m.subclasses("Location"))
        elif p in ("message", "check"):
            args[p] = sym(p)
            st = st._upd("types", args[p], frozenset(["str"]))
        elif p in ("explanation", "extrainfo"):
            args[p] = sym(p)
            st = st._upd("types", args[p], frozenset(["str", "NoneType"]))
    con = "%s%s%s" % (name, "" if fatal is None else
                      " fatal" if fatal is TRUE else " nonfatal",
                      "" if user is not TRUE else " user")
    sup = ip.get_attr(st, s, "suppress_kind", fi.node)[0][1]
    outs = guarded(ctx, rule, con, lambda: ip.run(fi, args, st))
    if outs is None:
        return
    ctx.analysed(ip)
    want = "errors" if name in ("error", "lex_error", "ice_loc") \
        else "warnings"
    kind = mk("enum", "Kind", KINDS[(name, user)])
    must_raise = name == "lex_error" or fatal is TRUE
    good = True
    for o in outs:
        if o.kind == "ice":
            continue
        loc = oloc(o, fi)

        def bad(msg):
            ctx.violation(rule, con, loc, msg, path_text(o))

        if o.kind == "raise" and o.val.tag == "obj" and \
                o.val.a[0] != "TRLC_Error":
            good = False
            bad("%s() raises %s" % (name, show(o.val)))
            continue
        inc = {}
        for e in o.st.events():
            if e[0] == "count":
                old = mk("attr", s, e[1], 0)
                d = delta(ip, o.st, e[2], old, inc.get(e[1], 0))
                inc[e[1]] = d
        for c in ("errors", "warnings"):
            w = 1 if c == want else 0
            if inc.get(c, 0) is None:
                ctx.undecided(rule, con, "counter %s" % c)
                good = None
            elif inc.get(c, 0) != w:
                good = False
                bad("%s() changes the number of %s by %s instead of %d" %
                    (name, c, inc.get(c, 0), w))
        prints = [e for e in o.st.events() if e[0] == "step" and
                  e[1] == "print"]
        insup = ip.norm(o.st, op("in", kind, sup, 0))
        t, f = ip.split_in(o.st, op("in", kind, sup,
                                    o.st.cver.get(sup, 0)))
        supp = True if t and not f else False if f and not t else None
        nsup = inc.get("suppressed", 0)
        if supp is None:
            if not prints:
                good = False
                bad("%s() neither prints nor tests for suppression of kind "
                    "%s" % (name, show(kind)))
            else:
                good = None
                ctx.undecided(rule, con, "suppression of %s not tested" %
                              show(kind))
        elif supp:
            if nsup != 1:
                good = False
                bad("a suppressed message of %s() is not counted as "
                    "suppressed" % name)
            if prints:
                good = False
                bad("a suppressed message of %s() is printed" % name)
        else:
            if nsup != 0:
                good = False
                bad("%s() counts a message as suppressed that is not" %
                    name)
            if not any(any(sym("message") in subterms(a) for a in e[3])
                       for e in prints):
                good = False
                bad("%s() does not print the message" % name)
            out = ip.get_attr(o.st, s, "out", fi.node)[0][1]
            for e in prints:
                if e[4] is None or ip.norm(o.st, e[4]) is not out:
                    good = False
                    bad("%s() prints to something else than the configured "
                        "output" % name)
        if o.kind == "raise":
            if not must_raise and name != "ice_loc":
                good = False
                bad("%s() raises although it is not fatal" % name)
        elif o.kind == "return" and must_raise:
            good = False
            bad("%s() returns although it is fatal" % name)
    if good:
        ctx.ok(rule, con)


def delta(ip, st, val, old, base):
    """val == old + n -> n"""
    if base is None:
        return None
    v = val
    n = 0
    while v.tag == "op" and v.a[0] == "add" and len(v.a) == 3:
        a, b = v.a[1], v.a[2]
        if b.tag == "const" and isinstance(b.a[1], int):
            n += b.a[1]
            v = a
        elif a.tag == "const" and isinstance(a.a[1], int):
            n += a.a[1]
            v = b
        else:
            return None
    if v is old:
        return n
    if v.tag == "const":
        return None
    return None


def counter_writers(ctx):
    """only the reporting methods change the message counters"""
    m = ctx.m
    rule = "counter-writers"
    mh = ctx.cls("Message_Handler")
    allowed = {"__init__"} | {"error", "lex_error", "warning", "check",
                              "ice_loc"}
    todo = ["Message_Handler." + x for x in allowed
            if "Message_Handler." + x in m.functions]
    seen = set(todo)
    while todo:
        f = m.functions[todo.pop()]
        for g in m.callees(f):
            if g.cls is mh and g.qual not in seen:
                seen.add(g.qual)
                todo.append(g.qual)
    n = 0
    for fi in m.functions.values():
        for x in ast.walk(fi.node):
            if not (isinstance(x, ast.Attribute) and
                    isinstance(x.ctx, (ast.Store, ast.Del)) and
                    x.attr in ("errors", "warnings", "suppressed")):
                continue
            n += 1
            tt = m.recv_types(fi, x.value)
            if tt and "Message_Handler" not in tt:
                continue
            con = "%s writes %s" % (fi.qual, x.attr)
            if fi.qual in seen:
                ctx.ok(rule, con)
            else:
                ctx.violation(rule, con, fi.loc(x), "%s changes the message "
                              "counter %s outside of the reporting methods"
                              % (fi.qual, x.attr))
    if not n:
        raise AnchorError("no counter is written")


# --------------------------------------------------------------------------
# C07 results only after success
# --------------------------------------------------------------------------

def reaching(m, names):
    """functions from which a function called `names` can be reached
    (without passing through one of them)"""
    rev = {}
    for f in m.functions.values():
        for g in m.callees(f):
            rev.setdefault(g.qual, set()).add(f.qual)
    seen = set()
    todo = [q for q, f in m.functions.items() if f.name in names]
    stop = set(todo)
    while todo:
        q = todo.pop()
        for p in rev.get(q, ()):
            if p not in seen:
                seen.add(p)
                if p not in stop:
                    todo.append(p)
    return seen


class SubClient(TrlcClient):
    """sub-calls of a stage succeed or fail (marked in the typestate)"""
    fuse_generators = True
    opaque_raises = False
    max_heads = 6
    kill_dead = True
    collapse_strings = True

    def prune(self, ip, st):
        # what the statements test is a flag or a step result: facts about
        # containers and the cursor are irrelevant
        def drop(t):
            return any((x.tag == "op" and x.a[0] in ("in", "subscript",
                                                     "iter", "values_of"))
                       or (x.tag == "op" and x.a[0] in ("set", "and", "or",
                                                         "sub", "len"))
                       or x.tag in ("elem", "phi", "comp")
                       for x in subterms(t))
        st = st.copy()
        for fld in ("truth", "eq", "neq", "types"):
            setattr(st, fld, {k: v for k, v in getattr(st, fld).items()
                              if not drop(k)})
        st.heap = {k: v for k, v in st.heap.items()
                   if not drop(k[0]) and isinstance(k[1], str) and
                   k[1] not in ("$items", "$len")}
        st = forget_versions(st)
        st.cver = {}
        return st

    def __init__(self, m, subs, fi):
        self.subs = subs            # name -> "bool" | "raise" | "both"
        self.fi = fi
        self.reach = reaching(m, set(subs))
        self.allvoid = {q for q, f in m.functions.items()
                        if f.name in subs}

    def opaque(self, ip, fi):
        return fi.qual not in self.reach

    def sub(self, ip, st, name, self_v, node):
        kind = self.subs[name]
        st = st.event("step", name, self_v, node)
        bad = st.set_ts(st.ts if "failed" in st.ts else
                        st.ts + ("failed",))
        exc = sym("exc:TRLC_Error")
        r = [("ret", st, TRUE if kind != "raise" else
              op("result", const(name)))]
        if kind in ("bool", "both"):
            r.append(("ret", bad, FALSE))
        if kind in ("raise", "both"):
            r.append(("raise", bad, exc))
        return r

    def call_hook(self, ip, st, fi, self_v, args, node):
        if fi.name in self.subs:
            return self.sub(ip, st, fi.name, self_v, node)
        return None

    def on_virtual(self, ip, st, name, cands, self_v, args, kw, node):
        if name in self.subs:
            return self.sub(ip, st, name, self_v, node)
        return None

    def on_emit(self, ip, st, kind, fatal, args, node):
        if kind == "error" and "failed" not in st.ts:
            return st.set_ts(st.ts + ("failed",))
        return st


HANDLERS = [   # function, sub calls, may it raise TRLC_Error
    ("Source_Manager.register_file",
     {"register_rsl_file": "raise", "register_trlc_file": "raise"}, False),
    ("Source_Manager.register_directory", {"register_file": "bool"}, False),
    ("Source_Manager.build_graph", {"parse_preamble": "raise"}, False),
    ("Source_Manager.parse_rsl_files", {"parse_rsl_file": "both"}, False),
    ("Source_Manager.parse_trlc_files", {"parse_trlc_file": "both"}, False),
    ("Source_Manager.resolve_record_references",
     {"resolve_references": "raise"}, False),
    ("Source_Manager.perform_checks", {"perform_checks": "both"}, False),
    ("Parser.parse_rsl_file", {"parse_check_block": "raise",
                               "parse_type_declaration": "raise"}, True),
    ("Parser.parse_trlc_file", {"parse_trlc_entry": "raise"}, True),
    ("Record_Object.perform_checks", {"perform_type_checks": "both",
                                      "perform": "both"}, True),
    ("Tuple_Type.perform_type_checks", {"perform_type_checks": "both",
                                        "perform": "both"}, True),
    ("Array_Type.perform_type_checks", {"perform_type_checks": "both"},
     True),
    ("Linter.perform_sanity_checks",
     {"verify_type": "raise", "verify_tuple_type": "raise",
      "verify_record_type": "raise"}, False),
]


def handlers(ctx):
    m = ctx.m
    rule = "failure-propagates"
    for qual, subs, mayraise in HANDLERS:
        fi = ctx.func(qual)
        cl = SubClient(m, subs, fi)
        ip = Interp(m, cl)
        st = State()
        s = sym("self")
        if fi.cls is not None:
            st = st._upd("types", s, m.subclasses(fi.cls.name))
        if fi.name in subs:
            # the analysed function itself is not a sub call of itself
            pass
        for p in fi.params[1:]:
            if p == "mh":
                st = st._upd("types", sym(p), frozenset(["Message_Handler"]))
        outs = guarded(ctx, rule, qual, lambda: ip.run(fi, {}, st))
        if outs is None:
            continue
        ctx.analysed(ip)
        good = True
        called = set()
        for o in outs:
            for e in o.st.events():
                if e[0] == "step":
                    called.add(e[1])
            if o.kind == "ice":
                continue
            loc = oloc(o, fi)
            failed = "failed" in o.st.ts
            if o.kind == "exit":
                good = False
                ctx.violation(rule, qual, loc, "%s ends the process" % qual,
                              path_text(o))
            elif o.kind == "raise":
                if not mayraise:
                    good = False
                    ctx.violation(rule, qual, loc, "%s lets %s escape" %
                                  (qual, show(o.val)), path_text(o))
            else:
                t = truth_term(ip, o.st, o.val)
                if failed and t is not False:
                    if t is None:
                        good = None
                        ctx.undecided(rule, qual, show(o.val))
                        continue
                    good = False
                    ctx.violation(rule, qual, loc, "%s reports success "
                                  "although a step it performed failed" %
                                  qual, path_text(o))
                elif not failed and t is not True:
                    if t is None:
                        good = None
                        ctx.undecided(rule, qual, show(o.val))
                        continue
                    good = False
                    ctx.violation(rule, qual, loc, "%s reports failure "
                                  "although nothing failed" % qual,
                                  path_text(o))
        if not called:
            ctx.undecided(rule, qual, "none of %s is called" %
                          ", ".join(sorted(subs)))
        elif good:
            ctx.ok(rule, qual)


class ProcClient(TrlcClient):
    inline_depth = 5
    STAGES = {"Source_Manager.build_graph": "graph",
              "Source_Manager.parse_rsl_files": "rsl",
              "Source_Manager.parse_trlc_files": "trlc",
              "Source_Manager.resolve_record_references": "resolve",
              "Source_Manager.perform_checks": "checks",
              "Linter.perform_sanity_checks": "lint"}
    MARK = {"Linter.verify_imports": "imports",
            "callback_parse_begin": "begin", "callback_parse_end": "end"}

    def opaque(self, ip, fi):
        return fi.cls is None or fi.cls.name != "Source_Manager"

    def call_hook(self, ip, st, fi, self_v, args, node):
        k = self.STAGES.get(fi.qual)
        if k:
            st = st.event("step", k, node)
            return [("ret", st.set_ts(st.ts + ((k, True),)), TRUE),
                    ("ret", st.set_ts(st.ts + ((k, False),)), FALSE)]
        k = self.MARK.get(fi.qual) or self.MARK.get(fi.name)
        if k:
            return [("ret", st.set_ts(st.ts + ((k, None),)), NONE)]
        if fi.name == "__init__":
            return [("ret", st, NONE)]
        return None


ORDER = ["graph", "rsl", "lint", "trlc", "resolve", "checks", "imports"]


def process(ctx):
    m = ctx.m
    fi = ctx.func("Source_Manager.process")
    for q in ProcClient.STAGES:
        ctx.func(q)
    rule = "stages"
    for lint in (TRUE, FALSE):
        for ptrlc in (TRUE, FALSE):
            for rec in (TRUE, FALSE):
                cl = ProcClient()
                ip = Interp(m, cl)
                st = State()
                s = sym("self")
                st = st._upd("types", s, frozenset(["Source_Manager"]))
                st = st.set_attr(s, "lint_mode", lint)
                st = st.set_attr(s, "parse_trlc", ptrlc)
                st = st.set_attr(s, "error_recovery", rec)
                con = "lint=%s trlc=%s recovery=%s" % (
                    lint.a[1], ptrlc.a[1], rec.a[1])
                outs = guarded(ctx, rule, con, lambda: ip.run(fi, {}, st))
                if outs is None:
                    continue
                ctx.analysed(ip)
                good = True
                for o in outs:
                    msg = process_outcome(ip, o, s, lint is TRUE,
                                          ptrlc is TRUE)
                    if msg == "?":
                        good = None
                        ctx.undecided(rule, con, show(o.val))
                    elif msg:
                        good = False
                        # the configuration is part of the text only
                        ctx.violation(rule, "process", oloc(o, fi),
                                      "%s (%s)" % (msg, con), path_text(o))
                if good:
                    ctx.ok(rule, con)


def process_outcome(ip, o, s, lint, ptrlc):
    ts = o.st.ts
    names = [k for k, _ in ts]
    res = dict(ts)
    st = [k for k in names if k in ORDER]
    if o.kind in ("raise", "exit"):
        return "processing ends by %s" % describe_kind(o)
    if o.kind == "ice":
        return None
    for k in set(st):
        if st.count(k) > 1:
            return "stage %s is performed twice" % k
    idx = [ORDER.index(k) for k in st]
    # lint may be anywhere after rsl; the others are ordered
    chain = [k for k in st if k != "lint"]
    if [ORDER.index(k) for k in chain] != sorted(
            ORDER.index(k) for k in chain):
        return "stages are performed in the order %s" % ", ".join(chain)
    if "lint" in st and ("rsl" not in st or
                         st.index("lint") < st.index("rsl")):
        return "sanity checks run before the types are parsed"
    if names.count("begin") != 1 or names.count("end") != 1 or \
            names[0] != "begin" or names[-1] != "end":
        return "begin and end of processing are not signalled exactly " \
               "once around it"
    if "checks" in st:
        i = names.index("checks")
        for k, r in ts[:i]:
            if r is False:
                return "user defined checks run although stage %s " \
                       "failed" % k
        for k in ("graph", "rsl", "trlc", "resolve"):
            if k not in names[:i]:
                return "user defined checks run without stage %s" % k
    v = ip.norm(o.st, o.val) if o.val is not None else NONE
    failed = [k for k, r in ts if r is False]
    if v is NONE:
        if not failed:
            return "processing yields no result although every stage " \
                   "succeeded"
        return None
    stab = ip.get_attr(o.st, s, "stab", None)[0][1]
    if v is not stab:
        return "?"
    if failed:
        return "processing yields a symbol table although stage %s " \
               "failed" % failed[0]
    need = ["graph", "rsl"] + (["trlc", "resolve", "checks"] if ptrlc
                               else []) + (["lint"] if lint else [])
    for k in need:
        if k not in names:
            return "processing yields a symbol table without stage %s" % k
    return None


def describe_kind(o):
    return "raising %s" % show(o.val) if o.kind == "raise" else \
        "ending the process"


def c07(ctx):
    process(ctx)
    handlers(ctx)
    from rules import files
    files.stages(ctx)
    ctx.require("stages", 8, "configurations")
    ctx.require("failure-propagates", 13, "functions")


CHECKS = {"C06": c06, "C07": c07}
EXPLAIN = {"C06": "Abstract interpretation of the command line entry point "
                  "and of the message handler: the exit status on every "
                  "path is related to stage results and message counters.",
           "C07": "Abstract interpretation of process() with all stage "
                  "results forked, and of every function that aggregates "
                  "step results: failure marks in the typestate must end "
                  "in a false result."}
RULES = {"C06": ["exit-status: status 0 exactly on the paths where every "
                 "registration and the processing succeeded, no error was "
                 "counted and (no warning was counted or "
                 "--error-on-warnings is off)",
                 "exit-forward: main() returns that status",
                 "message-count: each reporting method counts one message "
                 "of its kind, prints it (or counts it as suppressed) and "
                 "raises iff fatal",
                 "counter-writers: nothing else writes the counters"],
         "C07": ["stages: order, gating and result of process() for every "
                 "combination of stage results and modes",
                 "sequence: the calls of every stage are those of the "
                 "reference, each object once",
                 "failure-propagates: a false result or caught error of a "
                 "step makes the aggregating function return false, and "
                 "only that does"]}
