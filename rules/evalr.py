"""C01-C04: semantics of expression evaluation."""
import itertools
import math
from fractions import Fraction
from sa.evalmodel import *        # noqa
from sa.absint import Budget, Undecided
from rules import nodes

NUMS = (("int",), ("Fraction",))

UNARY = {                       # operator -> operand types
    "MINUS": NUMS, "PLUS": NUMS, "ABSOLUTE_VALUE": NUMS,
    "LOGICAL_NOT": (("bool",),), "STRING_LENGTH": (("str",),),
    "ARRAY_LENGTH": (("list",),), "CONVERSION_TO_INT": NUMS,
    "CONVERSION_TO_DECIMAL": NUMS}
I, F, S, B, A = "int", "Fraction", "str", "bool", "list"
BINARY = {
    "LOGICAL_AND": ((B, B),), "LOGICAL_OR": ((B, B),),
    "LOGICAL_XOR": ((B, B),), "LOGICAL_IMPLIES": ((B, B),),
    "COMP_EQ": ((I, I), (F, F), (S, S), (B, B), (A, A)),
    "COMP_NEQ": ((I, I), (F, F), (S, S), (B, B), (A, A)),
    "COMP_LT": ((I, I), (F, F)), "COMP_LEQ": ((I, I), (F, F)),
    "COMP_GT": ((I, I), (F, F)), "COMP_GEQ": ((I, I), (F, F)),
    "STRING_CONTAINS": ((S, S),), "STRING_STARTSWITH": ((S, S),),
    "STRING_ENDSWITH": ((S, S),), "STRING_REGEX": ((S, S),),
    "ARRAY_CONTAINS": ((I, A), (S, A)),
    "PLUS": ((I, I), (F, F), (S, S)), "MINUS": ((I, I), (F, F)),
    "TIMES": ((I, I), (F, F)), "DIVIDE": ((I, I), (F, F)),
    "REMAINDER": ((I, I),), "POWER": ((I, I), (F, I)),
    "INDEX": ((A, I),)}
LAZY = {"LOGICAL_AND": False, "LOGICAL_OR": True, "LOGICAL_IMPLIES": False}


def operators(ctx, cls, table, rule):
    """members of the operator enumeration, unknown ones are undecided"""
    c = ctx.cls(cls)
    known, unknown = [], []
    for mname in c.enum_members:
        (known if mname in table else unknown).append(mname)
    for u in unknown:
        ctx.undecided(rule, cls + "." + u, "operator without a "
                      "specification in this check")
    for t in table:
        if t not in c.enum_members:
            ctx.undecided(rule, cls + "." + t, "operator vanished")
    return known


def guarded(ctx, rule, where, fn):
    try:
        return fn()
    except (Budget, Undecided) as e:
        ctx.undecided(rule, where, "%s: %s" % (type(e).__name__, e))
        return None


def uloc(run, o):
    fi = o.fi or run.fi
    return fi.loc(o.node if o.node is not None and
                  hasattr(o.node, "lineno") else None)


# --------------------------------------------------------------------------
# C01 null strictness
# --------------------------------------------------------------------------

def must_error(ctx, rule, construct, run, needs=None):
    """every outcome that evaluated all of `needs` must be a fatal error"""
    outs = guarded(ctx, rule, construct, run.go)
    if outs is None:
        return
    ctx.analysed(run.ip)
    bad = False
    n = 0
    for o in outs:
        if needs and not all(any(e[1] is x for e in run.evals(o))
                             for x in needs) and o.kind != "return":
            if is_fatal_error(run, o):
                n += 1
                continue
        n += 1
        if not is_fatal_error(run, o):
            bad = True
            ctx.violation(rule, construct, uloc(run, o),
                          "%s.evaluate with a null operand (%s) %s instead "
                          "of reporting an error" %
                          (run.clsname, construct, describe(o)),
                          path_text(o))
    if not bad and n:
        ctx.ok(rule, construct)
    elif not n:
        ctx.undecided(rule, construct, "no outcome")


def c01(ctx):
    m = ctx.m
    rule = "null-strict"
    # unary
    for opn in operators(ctx, "Unary_Operator", UNARY, rule):
        for c in ("dict", None):
            r = Run(m, "Unary_Expression", mk("enum", "Unary_Operator", opn),
                    pins={"X": NONE}, context=c)
            r.operand("n_operand")
            must_error(ctx, rule, "unary %s" % opn, r)
    for opn in operators(ctx, "Binary_Operator", BINARY, rule):
        e = mk("enum", "Binary_Operator", opn)
        if opn in ("COMP_EQ", "COMP_NEQ"):
            continue
        for (tl, tr) in BINARY[opn]:
            for c in ("dict", None):
                r = Run(m, "Binary_Expression", e, pins={"L": NONE},
                        types={"R": (tr,)}, context=c)
                r.operand("n_lhs")
                r.operand("n_rhs")
                must_error(ctx, rule, "binary %s lhs" % opn, r)
                pins = {"R": NONE}
                if opn in LAZY:
                    pins["L"] = TRUE if not LAZY[opn] else FALSE
                r = Run(m, "Binary_Expression", e, pins=pins,
                        types={"L": (tl,)}, context=c)
                r.operand("n_lhs")
                r.operand("n_rhs")
                must_error(ctx, rule, "binary %s rhs" % opn, r)
                if opn not in LAZY:
                    r = Run(m, "Binary_Expression", e,
                            pins={"R": NONE, "L": NONE}, context=c)
                    r.operand("n_lhs")
                    r.operand("n_rhs")
                    must_error(ctx, rule, "binary %s both" % opn, r)
    # range test
    for null in ("L", "LO", "HI"):
        for t in NUMS:
            r = Run(m, "Range_Test", pins={null: NONE},
                    types={k: t for k in ("L", "LO", "HI") if k != null})
            for a in ("n_lhs", "n_lower", "n_upper"):
                r.operand(a)
            must_error(ctx, rule, "range test %s" % null, r)
    # field access
    for c in ("dict", None):
        r = Run(m, "Field_Access_Expression", pins={"P": NONE}, context=c)
        r.operand("n_prefix")
        must_error(ctx, rule, "field access prefix", r)
    # oneof
    for n in (1, 2, 3):
        for k in range(n):
            for other in (TRUE, FALSE):
                r = oneof_run(m, [NONE if i == k else other
                                  for i in range(n)])
                must_error(ctx, rule, "oneof choice", r)
    # conditional
    for n in (1, 2):
        for k in range(n):
            r = cond_run(m, [FALSE] * k + [NONE] + [FALSE] * (n - k - 1))
            must_error(ctx, rule, "condition of conditional", r)
    # quantifier
    for univ in (TRUE, FALSE):
        go = TRUE if univ is TRUE else FALSE
        for n in (1, 2, 3):
            for k in range(n):
                vals = [go] * k + [NONE] + [go] * (n - k - 1)
                r = quant_run(m, univ, vals)
                must_error(ctx, rule, "quantifier body", r)
        r = quant_run(m, univ, None)
        must_error(ctx, rule, "quantifier source", r)
    ctx.require(rule, 60, "operand positions")
    # a check that itself evaluates to null must not count as passed
    check_perform(ctx)


def check_perform(ctx):
    """Check.perform: a null check expression is an error"""
    m = ctx.m
    rule = "null-check"
    fi = ctx.func("Check.perform")
    cl = EvalClient(m)
    ip = Interp(m, cl)
    st = State()
    s = sym("self")
    st = st._upd("types", s, frozenset(["Check"]))
    e = sym("expr:X")
    st = st._upd("types", e, m.subclasses("Expression"))
    st = st.set_attr(s, "n_expr", e)
    st = st._upd("eq", sym("X"), NONE)
    cl.children[e] = lambda ip, st, a: [
        ("ret",) + value_obj(st, "X", sym("X"), typ=NONE)]
    for n, t in zip(fi.params[1:], (
            ["Message_Handler"], ["Record_Object", "Tuple_Aggregate"],
            ["Symbol_Table"])):
        st = st._upd("types", sym(n), frozenset(t))
    outs = guarded(ctx, rule, "Check.perform", lambda: ip.run(fi, {}, st))
    if outs is None:
        return
    ctx.analysed(ip)
    bad = False
    for o in outs:
        ev = [x for x in o.st.events() if x[0] == "emit"]
        if o.kind == "raise" and any(x[1] == "error" for x in ev):
            continue
        bad = True
        ctx.violation(rule, "Check.perform", (o.fi or fi).loc(
            o.node if o.node is not None and hasattr(o.node, "lineno")
            else None),
            "a check whose expression evaluates to null %s" % describe(o),
            path_text(o))
    if not bad:
        ctx.ok(rule, "Check.perform")


# -- composite expression set-ups --------------------------------------------

def seq(run, items, tag="list", kind="list"):
    o = mk("obj", kind, ("closed", tag))
    run.st = run.st.set_attr(o, "$items", mk("tuple", *items))
    return o


def oneof_run(m, vals, context="dict"):
    r = Run(m, "OneOf_Expression", context=context)
    cs = []
    for i, v in enumerate(vals):
        e = sym("expr:C%d" % i)
        r.st = r.st._upd("types", e, r.cl.exprset)
        if v is not None:
            r.pins["C%d" % i] = v
        else:
            r.types["C%d" % i] = ("bool",)
        r.bind(e, "C%d" % i)
        cs.append(e)
    o = seq(r, cs, "choices")
    r.st = r.st.set_attr(r.self_v, "choices", o)
    r.kids = cs
    return r


def cond_run(m, conds, context="dict"):
    """conds: pinned values of the conditions"""
    r = Run(m, "Conditional_Expression", context=context)
    acts = []
    r.conds, r.arms = [], []
    for i, v in enumerate(conds):
        a = mk("obj", "Action", ("act", i))
        if v is not None:
            r.pins["C%d" % i] = v
        else:
            r.types["C%d" % i] = ("bool",)
        r.types["E%d" % i] = ("int",)
        r.conds.append(r.operand("n_cond", "C%d" % i, a))
        r.arms.append(r.operand("n_expr", "E%d" % i, a))
        acts.append(a)
    r.types["ELSE"] = ("int",)
    r.arms.append(r.operand("else_expr", "ELSE"))
    o = seq(r, acts, "actions")
    r.st = r.st.set_attr(r.self_v, "actions", o)
    return r


class QuantClient(EvalClient):
    pass


def quant_run(m, universal, vals, context="dict"):
    """vals: pinned body value per element; None = null source"""
    r = Run(m, "Quantified_Expression", context=context)
    r.st = r.st.set_attr(r.self_v, "universal", universal)
    src = mk("obj", "Name_Reference", ("src", 0))
    ent = mk("obj", "Composite_Component", ("src", 0))
    r.st = r.st.set_attr(r.self_v, "n_source", src)
    r.st = r.st.set_attr(src, "entity", ent)
    r.st = r.st.set_attr(ent, "name", sym("src.name"))
    r.st = r.st._upd("types", sym("src.name"), frozenset(["str"]))
    var = mk("obj", "Quantified_Variable", ("var", 0))
    r.st = r.st.set_attr(r.self_v, "n_var", var)
    r.st = r.st.set_attr(var, "name", sym("var.name"))
    r.st = r.st._upd("types", sym("var.name"), frozenset(["str"]))
    if vals is None:
        arr = mk("obj", "Implicit_Null", ("arr", 0))
        r.elems = []
    else:
        arr = mk("obj", "Array_Aggregate", ("arr", 0))
        r.elems = [sym("elem%d" % i) for i in range(len(vals))]
        for x in r.elems:
            r.st = r.st._upd("types", x, r.cl.exprset)
        o = seq(r, r.elems, "elems")
        r.st = r.st.set_attr(arr, "value", o)
    r.st = r.st.set_attr(arr, "location", sym("arr.loc"))
    if r.ctx is not NONE:
        r.st = r.st.set_attr(r.ctx, ("item", sym("src.name")), arr)
    body = sym("expr:BODY")
    r.st = r.st._upd("types", body, r.cl.exprset)
    r.st = r.st.set_attr(r.self_v, "n_expr", body)
    r.body = body
    r.vals = vals

    def hook(ip, st, a):
        c = a[1] if len(a) > 1 else None
        b = st.heap.get((c, ("item", sym("var.name"))))
        if b is None and c is not None and c.tag == "obj":
            items = st.heap.get((c, "$items"))
            for kv in (items.a if items is not None else ()):
                if kv.a[0] is sym("var.name"):
                    b = kv.a[1]
        st = st.event("bind", b, c)
        if b in r.elems and vals is not None:
            i = r.elems.index(b)
            x = sym("B%d" % i)
            v = vals[i]
            if v is not None:
                st = st._upd("eq", x, v)
            else:
                st = st._upd("types", x, frozenset(["bool"]))
        else:
            x = sym("B?")
            st = st._upd("types", x, frozenset(["bool"]))
        st, o = value_obj(st, x.a[0], x, typ=NONE if v is NONE else None) \
            if b in r.elems and vals is not None else \
            value_obj(st, x.a[0], x)
        return [("ret", st, o)]

    r.cl.children[body] = hook
    return r



# --------------------------------------------------------------------------
# C02 operator semantics
# --------------------------------------------------------------------------

L, R, X = sym("L"), sym("R"), sym("X")
HALF = op("fractions.Fraction", const(1), const(2))
ZERO = const(0)


def fr(x):
    return op("fractions.Fraction", x)


def tcase(n, term, accept):
    return accept


def spec_unary(opn, t, N):
    """accepted result terms"""
    if opn == "MINUS":
        return [op("neg", X)]
    if opn == "PLUS":
        return [X]
    if opn == "ABSOLUTE_VALUE":
        return [op("abs", X)]
    if opn == "LOGICAL_NOT":
        return [op("not", X)]
    if opn in ("STRING_LENGTH", "ARRAY_LENGTH"):
        return [op("len", X)]
    if opn == "CONVERSION_TO_INT":
        if t == "int":
            return [X, op("int", X)]
        up = [op("math.floor", op("add", X, HALF))]
        dn = [op("math.ceil", op("sub", X, HALF)),
              op("neg", op("math.floor", op("add", op("neg", X), HALF))),
              op("neg", op("math.floor", op("sub", HALF, X)))]
        neg_abs = op("neg", op("math.floor", op("add", op("abs", X), HALF)))
        up.append(op("math.floor", op("add", op("abs", X), HALF)))
        dn.append(neg_abs)
        s = N.sign(X)
        strict_neg = N.lt_known(X, ZERO) is True
        strict_pos = N.lt_known(ZERO, X) is True
        if s == 1 or strict_pos:
            return up
        if s == -1 or strict_neg:
            return dn
        return []
    if opn == "CONVERSION_TO_DECIMAL":
        return [fr(X)] if t == "int" else [X, fr(X)]
    return None


def spec_binary(opn, tl, tr, N):
    if opn == "COMP_EQ":
        return [eqterm(L, R)]
    if opn == "COMP_NEQ":
        return [op("not", eqterm(L, R))]
    if opn == "COMP_LT":
        return [op("lt", L, R)]
    if opn == "COMP_GT":
        return [op("lt", R, L)]
    if opn == "COMP_LEQ":
        return [op("not", op("lt", R, L))]
    if opn == "COMP_GEQ":
        return [op("not", op("lt", L, R))]
    if opn == "STRING_CONTAINS":
        return [op("in", L, R, 0),
                op("not", op("lt", op(".find", R, L), ZERO)),
                op("not", eqterm(op(".find", R, L), const(-1)))]
    if opn == "STRING_STARTSWITH":
        return [op(".startswith", L, R)]
    if opn == "STRING_ENDSWITH":
        return [op(".endswith", L, R)]
    if opn == "STRING_REGEX":
        mt = [op("re.match", R, L),
              op(".match", op("re.compile", R), L)]
        return [op("not", eqterm(x, NONE)) for x in mt] + \
            [op("bool", x) for x in mt]
    if opn == "ARRAY_CONTAINS":
        v = mk("obj", "Value", ("child", "L"))
        return [op("in", v, R, 0)]
    if opn == "PLUS":
        return [op("add", L, R)]
    if opn == "MINUS":
        return [op("sub", L, R)]
    if opn == "TIMES":
        return [op("mul", L, R)]
    if opn == "DIVIDE":
        if tl == "int":
            return [op("floordiv", L, R), op("index", op("divmod", L, R),
                                             const(0), 0),
                    op("math.floor", fr2(L, R)),
                    op("math.floor", op("truediv", fr(L), R)),
                    op("math.floor", op("truediv", L, fr(R))),
                    op("math.floor", op("truediv", fr(L), fr(R)))]
        return [op("truediv", L, R), fr2(L, R)]
    if opn == "REMAINDER":
        base = [op("mod", op("abs", L), op("abs", R))]
        s = N.sign(L)
        if s == 1:
            return base + [op("mod", L, op("abs", R))]
        if s == -1 or N.lt_known(L, ZERO) is True:
            return [op("neg", b) for b in base] + [
                op("neg", op("mod", op("neg", L), op("abs", R)))]
        return []
    if opn == "POWER":
        return [op("pow", L, R)]
    if opn == "INDEX":
        return [mk("attr", op("index", L, R, 0), "value", 0)]
    return None


def fr2(a, b):
    return op("fractions.Fraction", a, b)


KNOWN_OPS = {"neg", "pos", "abs", "not", "len", "add", "sub", "mul",
             "truediv", "floordiv", "mod", "pow", "lt", "eq", "in", "and",
             "or", "xor", "index", ".startswith", ".endswith", ".find",
             ".count", ".lower", ".upper", ".strip", "re.match",
             "re.search", "re.fullmatch", ".match", ".search",
             ".fullmatch", "re.compile", "bool", "int", "float", "round",
             "math.floor", "math.ceil", "math.trunc",
             "fractions.Fraction", "min", "max", "divmod", ".value", "str",
             "math.fmod", "list", "set", "sorted", "reversed"}


def foreign_facts(run, st, leaves):
    """facts on the path that speak about things outside the operands"""
    for d in (st.truth, st.eq, st.neq):
        for t in d:
            for x in subterms(t):
                if x.tag in ("call", "elem", "val", "phi", "comp"):
                    return True
                if x.tag == "sym" and x not in leaves and \
                        x not in (run.mh, run.ctx, run.gstab, run.self_v) \
                        and not x.a[0].startswith("expr:") and \
                        not x.a[0].endswith((".loc", ".typ")):
                    return True
    return False


# the constants on which an unusual formula is compared with the rule
CONSTANTS = {
    "int": (-7, -3, -2, -1, 0, 1, 2, 3, 4, 10),
    "Fraction": tuple(Fraction(a, b) for a, b in (
        (-7, 2), (-3, 2), (-1, 1), (-1, 2), (-1, 3), (0, 1), (1, 3), (1, 2),
        (1, 1), (3, 2), (5, 2), (14, 5))),
    "str": ("", "a", "b", "ab", "ba", "aa", "aab", "abab", "A"),
}


def half_away(x):
    return math.floor(abs(x) + Fraction(1, 2)) * (-1 if x < 0 else 1)


MEANING = {
    "MINUS": lambda *v: -v[0] if len(v) == 1 else v[0] - v[1],
    "PLUS": lambda *v: v[0] if len(v) == 1 else v[0] + v[1],
    "ABSOLUTE_VALUE": abs, "STRING_LENGTH": len,
    "CONVERSION_TO_INT": half_away, "CONVERSION_TO_DECIMAL": Fraction,
    "COMP_EQ": lambda a, b: a == b, "COMP_NEQ": lambda a, b: a != b,
    "COMP_LT": lambda a, b: a < b, "COMP_GT": lambda a, b: a > b,
    "COMP_LEQ": lambda a, b: a <= b, "COMP_GEQ": lambda a, b: a >= b,
    "STRING_CONTAINS": lambda a, b: a in b,
    "STRING_STARTSWITH": lambda a, b: a.startswith(b),
    "STRING_ENDSWITH": lambda a, b: a.endswith(b),
    "TIMES": lambda a, b: a * b,
    "DIVIDE": lambda a, b: a // b if isinstance(a, int) else a / b,
    "REMAINDER": lambda a, b: (abs(a) % abs(b)) * (-1 if a < 0 else 1),
    "range": lambda x, a, b: a <= x <= b,
}


class Unfoldable(Exception):
    pass


def fold(t, env):
    """the value of a term for constants"""
    if t in env:
        return env[t]
    if t.tag == "const":
        return t.a[1]
    if t.tag != "op":
        raise Unfoldable()
    n, a = t.a[0], t.a[1:]
    if n == "slice":
        given = iter(a[2:])
        b = [fold(next(given), env) if f else None for f in a[1]]
        return fold(a[0], env)[slice(*b)]
    if n in ("in", "index"):
        x, y = fold(a[0], env), fold(a[1], env)
        return x in y if n == "in" else x[y]
    if n in ("and", "or"):
        xs = [fold(x, env) for x in a]
        return all(xs) if n == "and" else any(xs)
    f = {"neg": lambda x: -x, "pos": lambda x: +x, "abs": abs,
         "not": lambda x: not x, "len": len, "add": lambda x, y: x + y,
         "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
         "truediv": lambda x, y: x / y, "floordiv": lambda x, y: x // y,
         "mod": lambda x, y: x % y, "lt": lambda x, y: x < y,
         "eq": lambda x, y: x == y, "bool": bool, "int": int,
         "float": float, "round": round, "math.floor": math.floor,
         "math.ceil": math.ceil, "math.trunc": math.trunc,
         "math.fmod": math.fmod, "divmod": divmod, "min": min, "max": max,
         "fractions.Fraction": Fraction, ".startswith": str.startswith,
         ".endswith": str.endswith, ".find": str.find, ".rfind": str.rfind,
         ".count": str.count, ".lower": str.lower, ".upper": str.upper,
         ".strip": str.strip, ".removesuffix": str.removesuffix,
         ".removeprefix": str.removeprefix,
         ".replace": str.replace}.get(n)
    if f is None or not all(isinstance(x, V) for x in a):
        raise Unfoldable()
    return f(*[fold(x, env) for x in a])


def compared(r, st, meaning, leaves):
    """does a formula agree with the rule for constants? None: unknown

    leaves: [(leaf, type)]
    """
    if meaning is None or not all(t in CONSTANTS for _, t in leaves):
        return None
    own = {x for x, _ in leaves}
    facts = []
    for d, f in ((st.truth, lambda x, y: bool(x) == y),
                 (st.eq, lambda x, y: x == y.a[1])):
        for t, v in d.items():
            if own & set(subterms(t)):
                facts.append((t, f, v))
    seen = False
    for vals in itertools.product(*[CONSTANTS[t] for _, t in leaves]):
        env = {x: v for (x, _), v in zip(leaves, vals)}
        try:
            if not all(f(fold(t, env), v) for t, f, v in facts):
                continue
        except Exception:            # a fact which is not understood
            return None
        try:
            want = meaning(*vals)
        except Exception:            # not defined for these
            continue
        try:
            got = fold(r, env)
        except Unfoldable:
            return None
        except Exception:
            return vals
        if got != want or type(got) != type(want) and \
                bool in (type(got), type(want)):
            return vals
        seen = True
    return seen or None


def judge(ctx, rule, construct, run, o, accepted, leaves, meaning=None,
          types=()):
    """compare the value returned on one path with the specification"""
    r = run.result(o)
    if r is None:
        ctx.violation(rule, construct, uloc(run, o),
                      "%s does not return a Value object" % construct,
                      path_text(o))
        return False
    N = Norm(run.ip, o.st)
    got = N.canon(r)
    if accepted:
        for a in accepted:
            if N.canon(a) == got:
                return True
    c = compared(r, o.st, MEANING.get(meaning), list(zip(leaves, types)))
    if isinstance(c, tuple) and not foreign_facts(run, o.st, leaves):
        ctx.violation(rule, construct, uloc(run, o),
                      "%s yields %s, which is wrong for %s" %
                      (construct, show(r), ", ".join(map(str, c))),
                      path_text(o))
        return False
    ops, lv = N.vocabulary(r)
    lv = {x for x in lv if not (x.tag == "obj" and x.a[0] == "Value")}
    if c is not True and lv <= set(leaves) and ops <= KNOWN_OPS and \
            not foreign_facts(run, o.st, leaves):
        ctx.violation(rule, construct, uloc(run, o),
                      "%s yields %s, expected %s" %
                      (construct, show(r), " or ".join(
                          show(a) for a in accepted[:1]) if accepted
                       else "a value decided by the sign of the operand"),
                      path_text(o))
        return False
    ctx.undecided(rule, construct, "result %s not recognised" % show(r))
    return None


def runtime_ok(ctx, rule, construct, run, o, allowed):
    """non-return outcomes with non-null operands of the right type"""
    if is_fatal_error(run, o):
        if allowed is None or allowed(run, o):
            return True
        ctx.violation(rule, construct, uloc(run, o),
                      "%s reports an error although the operands are valid"
                      % construct, path_text(o))
        return False
    ctx.violation(rule, construct, uloc(run, o),
                  "%s %s on valid operands" % (construct, describe(o)),
                  path_text(o))
    return False


def err_possible(opn):
    """may an error be reported on this path?  None: anything goes (C04
    decides when)"""
    if opn in ("DIVIDE", "REMAINDER", "INDEX"):
        return None
    return lambda run, o: False


def check_typ(ctx, rule, construct, run, o):
    t = run.result_typ(o)
    v = run.result(o)
    if v is NONE:
        return
    selft = mk("attr", run.self_v, "typ", 0)
    if t is NONE:
        ctx.violation(rule, construct, uloc(run, o), "%s yields a non-null "
                      "value without a type" % construct, path_text(o))
    elif t is not None and t is not selft and \
            not (t.tag == "sym" and t.a[0].endswith(".typ")):
        ctx.undecided(rule, construct, "type of the result is %s" % show(t))


def c02(ctx):
    nodes.c02(ctx)
    m = ctx.m
    rule = "eval-term"
    for opn in operators(ctx, "Unary_Operator", UNARY, rule):
        for (t,) in UNARY[opn]:
            r = Run(m, "Unary_Expression", mk("enum", "Unary_Operator", opn),
                    types={"X": (t,)})
            r.operand("n_operand")
            con = "unary %s on %s" % (opn, t)
            outs = guarded(ctx, rule, con, r.go)
            if outs is None:
                continue
            ctx.analysed(r.ip)
            good = True
            for o in outs:
                if o.kind != "return":
                    good &= runtime_ok(ctx, rule, con, r, o,
                                       lambda *_: False) is True
                    continue
                N = Norm(r.ip, o.st)
                good &= judge(ctx, rule, con, r, o,
                              spec_unary(opn, t, N), [X], opn,
                              (t,)) is True
                check_typ(ctx, rule, con, r, o)
            if good:
                ctx.ok(rule, con)
    for opn in operators(ctx, "Binary_Operator", BINARY, rule):
        e = mk("enum", "Binary_Operator", opn)
        if opn in LAZY or opn == "LOGICAL_XOR":
            table = {"LOGICAL_AND": lambda a, b: a and b,
                     "LOGICAL_OR": lambda a, b: a or b,
                     "LOGICAL_XOR": lambda a, b: a != b,
                     "LOGICAL_IMPLIES": lambda a, b: (not a) or b}[opn]
            for a in (True, False):
                for b in (True, False):
                    r = Run(m, "Binary_Expression", e,
                            pins={"L": const(a), "R": const(b)})
                    r.operand("n_lhs")
                    r.operand("n_rhs")
                    pinned(ctx, rule, "binary %s(%s, %s)" % (opn, a, b), r,
                           const(table(a, b)))
            continue
        for (tl, tr) in BINARY[opn]:
            r = Run(m, "Binary_Expression", e,
                    types={"L": (tl,), "R": (tr,)})
            r.operand("n_lhs")
            r.operand("n_rhs")
            con = "binary %s on %s, %s" % (opn, tl, tr)
            outs = guarded(ctx, rule, con, r.go)
            if outs is None:
                continue
            ctx.analysed(r.ip)
            good = True
            nret = 0
            for o in outs:
                if o.kind != "return":
                    good &= runtime_ok(ctx, rule, con, r, o,
                                       err_possible(opn)) is True
                    continue
                nret += 1
                N = Norm(r.ip, o.st)
                good &= judge(ctx, rule, con, r, o,
                              spec_binary(opn, tl, tr, N), [L, R], opn,
                              (tl, tr)) is True
                check_typ(ctx, rule, con, r, o)
            if not nret:
                ctx.violation(rule, con, r.fi.loc(), "%s never yields a "
                              "value" % con)
            elif good:
                ctx.ok(rule, con)
        if opn in ("COMP_EQ", "COMP_NEQ"):
            for a, b in ((NONE, NONE), (NONE, None), (None, NONE)):
                for t in ("int", "str", "list", "Enumeration_Literal_Spec",
                          "dict", "bool", "Fraction"):
                    r = Run(m, "Binary_Expression", e, pins={
                        k: v for k, v in (("L", a), ("R", b))
                        if v is not None},
                        types={k: (t,) for k, v in (("L", a), ("R", b))
                               if v is None})
                    r.operand("n_lhs")
                    r.operand("n_rhs")
                    res = (a is b) == (opn == "COMP_EQ")
                    pinned(ctx, rule, "binary %s with null" % opn, r,
                           const(res))
    # range test
    for t in ("int", "Fraction"):
        r = Run(m, "Range_Test", types={k: (t,)
                                        for k in ("L", "LO", "HI")})
        for a in ("n_lhs", "n_lower", "n_upper"):
            r.operand(a)
        con = "range test on %s" % t
        outs = guarded(ctx, rule, con, r.go)
        if outs is None:
            continue
        ctx.analysed(r.ip)
        LO, HI = sym("LO"), sym("HI")
        good = True
        for o in outs:
            if o.kind != "return":
                good &= runtime_ok(ctx, rule, con, r, o,
                                   lambda *_: False) is True
                continue
            good &= judge(ctx, rule, con, r, o, [
                op("and", op("not", op("lt", L, LO)),
                   op("not", op("lt", HI, L)))], [L, LO, HI], "range",
                   (t, t, t)) is True
            check_typ(ctx, rule, con, r, o)
        if good:
            ctx.ok(rule, con)
    # oneof
    for n in range(1, 5):
        for bits in range(2 ** n):
            vals = [const(bool(bits >> i & 1)) for i in range(n)]
            r = oneof_run(m, vals)
            pinned(ctx, rule, "oneof of %d choices" % n, r,
                   const(sum(v is TRUE for v in vals) == 1))
    # conditional
    for n in range(1, 4):
        for k in range(n + 1):
            vals = [FALSE] * k + [TRUE] * (n - k)
            r = cond_run(m, vals)
            want = sym("E%d" % k) if k < n else sym("ELSE")
            pinned(ctx, rule, "conditional with %d branches" % n, r, want)
    # quantifier
    for univ in (TRUE, FALSE):
        for n in range(0, 4):
            for bits in range(2 ** n):
                vals = [const(bool(bits >> i & 1)) for i in range(n)]
                r = quant_run(m, univ, vals)
                res = all(v is TRUE for v in vals) if univ is TRUE else \
                    any(v is TRUE for v in vals)
                pinned(ctx, rule, "%s over %d elements" %
                       ("forall" if univ is TRUE else "exists", n), r,
                       const(res))
    leaf_values(ctx)
    value_eq(ctx)
    ctx.require(rule, 60, "operators")


def pinned(ctx, rule, con, run, want):
    outs = guarded(ctx, rule, con, run.go)
    if outs is None:
        return
    ctx.analysed(run.ip)
    good = True
    nret = 0
    for o in outs:
        if o.kind != "return":
            good &= runtime_ok(ctx, rule, con, run, o,
                               lambda *_: False) is True
            continue
        nret += 1
        r = run.result(o)
        if r is None:
            good = False
            ctx.violation(rule, con, uloc(run, o), "%s does not return a "
                          "Value" % con, path_text(o))
            continue
        N = Norm(run.ip, o.st)
        a, b = N.canon(r), N.canon(want)
        if a == b:
            check_typ(ctx, rule, con, run, o)
            continue
        good = False
        if r.tag == "const" or (r.tag == "sym" and want.tag == "sym"):
            ctx.violation(rule, con, uloc(run, o), "%s yields %s, expected "
                          "%s" % (con, show(r), show(want)), path_text(o))
        else:
            ctx.undecided(rule, con, "result %s not folded" % show(r))
    if good and nret:
        ctx.ok(rule, con)
    elif not nret and good:
        ctx.undecided(rule, con, "no returning path")


def leaf_values(ctx):
    """literals and names evaluate to their own value"""
    m = ctx.m
    rule = "eval-leaf"
    for cls in ("Integer_Literal", "Decimal_Literal", "String_Literal",
                "Boolean_Literal", "Enumeration_Literal"):
        for c in ("dict", None):
            r = Run(m, cls, context=c)
            outs = guarded(ctx, rule, cls, r.go)
            if outs is None:
                continue
            ctx.analysed(r.ip)
            for o in outs:
                want = mk("attr", r.self_v, "value", 0)
                if o.kind == "return" and r.result(o) is want:
                    ctx.ok(rule, cls)
                elif o.kind == "return" and r.result(o) is not None and \
                        r.result(o).tag not in ("const", "attr", "op"):
                    ctx.undecided(rule, cls, show(r.result(o)))
                else:
                    ctx.violation(rule, cls, uloc(r, o), "%s evaluates to "
                                  "something other than its value (%s)" %
                                  (cls, show(r.result(o))
                                   if o.kind == "return" and
                                   r.result(o) is not None
                                   else describe(o)), path_text(o))
    for cls in ("Null_Literal", "Implicit_Null"):
        r = Run(m, cls)
        outs = guarded(ctx, rule, cls, r.go)
        for o in outs or ():
            if o.kind == "return" and r.result(o) is NONE:
                ctx.ok(rule, cls)
            else:
                ctx.violation(rule, cls, uloc(r, o), "%s does not evaluate "
                              "to null" % cls, path_text(o))
    # Name_Reference: the entity's entry of the context
    r = Run(m, "Name_Reference")
    ent = mk("obj", "Composite_Component", ("ent", 0))
    r.st = r.st.set_attr(r.self_v, "entity", ent)
    r.st = r.st.set_attr(ent, "name", sym("ent.name"))
    e = sym("expr:N")
    r.st = r.st._upd("types", e, r.cl.exprset)
    r.types["N"] = ("int",)
    r.bind(e, "N")
    r.st = r.st.set_attr(r.ctx, ("item", sym("ent.name")), e)
    r.st = r.st._upd("truth", op("in", sym("ent.name"), r.ctx, 0), True)
    pinned(ctx, rule, "Name_Reference", r, sym("N"))
    r = Run(m, "Name_Reference", context=None)
    r.st = r.st.set_attr(r.self_v, "entity", ent)
    r.st = r.st.set_attr(ent, "name", sym("ent.name"))
    must_error(ctx, rule, "Name_Reference in a static context", r)
    r = quant_run(m, TRUE, [TRUE], context=None)
    must_error(ctx, rule, "quantifier in a static context", r)
    field_access(ctx)


def field_access(ctx):
    m = ctx.m
    rule = "eval-leaf"
    for present in (True, False):
        r = Run(m, "Field_Access_Expression", types={"P": ("dict",)})
        r.operand("n_prefix")
        fld = mk("obj", "Composite_Component", ("fld", 0))
        r.st = r.st.set_attr(r.self_v, "n_field", fld)
        r.st = r.st.set_attr(fld, "name", sym("fld.name"))
        P = sym("P")
        r.st = r.st._upd("truth", op("in", sym("fld.name"), P, 0), present)
        if present:
            e = sym("expr:FV")
            r.st = r.st._upd("types", e, r.cl.exprset)
            r.types["FV"] = ("int",)
            r.bind(e, "FV")
            r.st = r.st.set_attr(P, ("item", sym("fld.name")), e)
            pinned(ctx, rule, "field access (record)", r, sym("FV"))
        else:
            pinned(ctx, rule, "field access (field not in this member)", r,
                   NONE)
    r = Run(m, "Field_Access_Expression", types={"P": ("dict",)})
    r.operand("n_prefix")
    r.st = r.st.set_attr(r.self_v, "n_field", fld)
    r.st = r.st.set_attr(fld, "name", sym("fld.name"))
    r.st = r.st._upd("truth", op("in", sym("fld.name"), sym("P"), 0), True)
    v = mk("obj", "Value", ("child", "TV"))
    r.st = r.st.set_attr(v, "value", sym("TV"))
    r.st = r.st.set_attr(v, "typ", sym("TV.typ"))
    r.st = r.st.set_attr(v, "location", sym("TV.loc"))
    r.st = r.st.set_attr(sym("P"), ("item", sym("fld.name")), v)
    pinned(ctx, rule, "field access (tuple)", r, sym("TV"))


def value_eq(ctx):
    """Value.__eq__ compares the values"""
    m = ctx.m
    rule = "value-eq"
    c = ctx.cls("Value")
    fi = c.lookup("__eq__")
    if fi is None:
        ctx.violation(rule, "Value.__eq__", c.module.rel + ":%d" %
                      c.node.lineno, "values are compared by identity")
        return
    cl = EvalClient(m)
    ip = Interp(m, cl)
    st = State()
    a, b = mk("obj", "Value", ("eq", 1)), mk("obj", "Value", ("eq", 2))
    for o, n in ((a, "L"), (b, "R")):
        st = st.set_attr(o, "value", sym(n))
        st = st.set_attr(o, "typ", sym(n + ".typ"))
        st = st.set_attr(o, "location", sym(n + ".loc"))
    ps = fi.params
    outs = guarded(ctx, rule, "Value.__eq__", lambda: ip.run(
        fi, {ps[0]: a, ps[1]: b}, st))
    if outs is None:
        return
    ctx.analysed(ip)
    eq, teq = eqterm(L, R), eqterm(sym("L.typ"), sym("R.typ"))
    for o in outs:
        if o.kind != "return":
            ctx.violation(rule, "Value.__eq__", fi.loc(), "comparison %s" %
                          describe(o))
            continue
        N = Norm(ip, o.st)
        got = N.canon(o.val)
        ok = got in (N.canon(eq), N.canon(op("and", eq, teq)))
        ops, lv = N.vocabulary(o.val)
        if ok:
            ctx.ok(rule, "Value.__eq__")
        elif lv <= {L, R, sym("L.typ"), sym("R.typ"), sym("L.loc"),
                    sym("R.loc")} and ops <= KNOWN_OPS:
            ctx.violation(rule, "Value.__eq__", fi.loc(o.node), "equality "
                          "of values is decided by %s" % show(o.val),
                          path_text(o))
        else:
            ctx.undecided(rule, "Value.__eq__", show(o.val))



# --------------------------------------------------------------------------
# C03 laziness and evaluation environment
# --------------------------------------------------------------------------

def same_env(ctx, rule, con, run, o, ev, context=None):
    """child evaluated with the message handler, context and symbol table
    this evaluation was given"""
    a = list(ev[2]) + [None] * 3
    want = (run.mh, context or run.ctx, run.gstab)
    for got, w, n in zip(a, want, ("message handler", "context",
                                   "symbol table")):
        g = run.ip.norm(o.st, got) if got is not None else NONE
        w = run.ip.norm(o.st, w)
        if g is w:
            continue
        if n == "context" and g.tag == "op" and g.a[0] in ("copy", "dict") \
                and g.a[1] is w and not any(k[0] is g for k in o.st.heap):
            continue
        if g.tag in ("const", "sym", "attr"):
            ctx.violation(rule, con, run.fi.loc(
                ev[3] if hasattr(ev[3], "lineno") else None),
                "an operand of %s is evaluated with %s as the %s" %
                (con, show(g), n), path_text(o))
            return False
        ctx.undecided(rule, con, "%s is %s" % (n, show(g)))
        return None
    return True


def lazy(ctx, rule, con, run, must, mustnot):
    outs = guarded(ctx, rule, con, run.go)
    if outs is None:
        return
    ctx.analysed(run.ip)
    good = True
    for o in outs:
        evs = run.evals(o)
        for ev in evs:
            if ev[1] in mustnot:
                good = False
                ctx.violation(rule, con, run.fi.loc(ev[3]),
                              "%s evaluates an operand whose value cannot "
                              "matter (%s)" % (con, mustnot[ev[1]]),
                              path_text(o))
            if same_env(ctx, rule, con, run, o, ev) is not True:
                good = False
        if o.kind == "return":
            for e, n in must.items():
                if not any(ev[1] is e for ev in evs):
                    good = False
                    ctx.violation(rule, con, uloc(run, o), "%s yields a "
                                  "value without evaluating %s" % (con, n),
                                  path_text(o))
    if good:
        ctx.ok(rule, con)


def c03(ctx):
    nodes.c03(ctx)
    m = ctx.m
    rule = "lazy"
    for opn in operators(ctx, "Binary_Operator", BINARY, rule):
        e = mk("enum", "Binary_Operator", opn)
        if opn not in LAZY:
            for c in ("dict", None):
                for (tl, tr) in BINARY[opn]:
                    r = Run(m, "Binary_Expression", e, context=c,
                            types={"L": (tl,), "R": (tr,)})
                    a, b = r.operand("n_lhs"), r.operand("n_rhs")
                    lazy(ctx, rule, "binary %s on %s" % (opn, tl), r,
                         {a: "its left operand", b: "its right operand"}, {})
            continue
        for c in ("dict", None):
            for decides in (True, False):
                pin = const(LAZY[opn] == decides)
                for rv in (TRUE, FALSE, NONE):
                    r = Run(m, "Binary_Expression", e, context=c,
                            pins={"L": pin, "R": rv})
                    a, b = r.operand("n_lhs"), r.operand("n_rhs")
                    must = {a: "its left operand"}
                    no = {}
                    if decides:
                        no[b] = "the left operand decides"
                    else:
                        must[b] = "its right operand"
                    lazy(ctx, rule, "binary %s(%s, _)" %
                         (opn, show(pin)), r, must, no)
    for opn in operators(ctx, "Unary_Operator", UNARY, rule):
        for (t,) in UNARY[opn]:
            r = Run(m, "Unary_Expression", mk("enum", "Unary_Operator", opn),
                    types={"X": (t,)})
            x = r.operand("n_operand")
            lazy(ctx, rule, "unary " + opn, r, {x: "its operand"}, {})
    for t in NUMS:
        r = Run(m, "Range_Test", types={k: t for k in ("L", "LO", "HI")})
        for a in ("n_lhs", "n_lower", "n_upper"):
            r.operand(a)
        lazy(ctx, rule, "range test", r, {}, {})
    r = Run(m, "Field_Access_Expression", types={"P": ("dict",)})
    p = r.operand("n_prefix")
    lazy(ctx, rule, "field access", r, {p: "its prefix"}, {})
    for n in (1, 2, 3):
        r = oneof_run(m, [TRUE] + [FALSE] * (n - 1))
        lazy(ctx, rule, "oneof", r, {k: "every choice" for k in r.kids}, {})
    for n in (1, 2, 3):
        for k in range(n + 1):
            vals = [FALSE] * k + [TRUE] + [None] * (n - k - 1) \
                if k < n else [FALSE] * n
            r = cond_run(m, vals)
            no = {a: "this branch is not selected"
                  for i, a in enumerate(r.arms) if i != k}
            for i, cnd in enumerate(r.conds):
                if i > k:
                    no[cnd] = "an earlier condition holds"
            must = {cnd: "the conditions up to the selected branch"
                    for i, cnd in enumerate(r.conds) if i <= k}
            must[r.arms[k]] = "the selected branch"
            lazy(ctx, rule, "conditional with %d branches" % n, r, must, no)
    quant_env(ctx, rule)
    ctx.require(rule, 40, "evaluation cases")


def quant_env(ctx, rule):
    """the body of a quantifier sees the outer context plus the variable
    bound to each element in turn, and the outer context stays as it was"""
    m = ctx.m
    for univ in (TRUE, FALSE):
        go = univ
        stop = FALSE if univ is TRUE else TRUE
        for vals in ([], [go], [go, go], [go, go, go], [stop], [go, stop],
                     [go, go, stop]):
            r = quant_run(m, univ, vals)
            con = "%s body" % ("forall" if univ is TRUE else "exists")
            outs = guarded(ctx, rule, con, r.go)
            if outs is None:
                continue
            ctx.analysed(r.ip)
            good = True
            for o in outs:
                if o.kind != "return":
                    continue
                binds = [e for e in o.st.events() if e[0] == "bind"]
                seen = [e[1] for e in binds]
                need = r.elems[:]
                if stop in vals:
                    need = r.elems[vals.index(stop):][:1]
                if None in seen or any(x not in r.elems for x in seen):
                    good = False
                    if None in seen and all(
                            e[2] is not None and e[2].tag in
                            ("sym", "op", "obj") for e in binds):
                        ctx.violation(rule, con, r.fi.loc(), "the body of "
                                      "the quantifier is evaluated without "
                                      "the variable bound to an element",
                                      path_text(o))
                    else:
                        ctx.undecided(rule, con, "binding not recognised")
                    continue
                for x in need:
                    if x not in seen:
                        good = False
                        ctx.violation(rule, con, uloc(r, o), "the result of "
                                      "the quantifier does not depend on "
                                      "element %d of %d" %
                                      (r.elems.index(x), len(vals)),
                                      path_text(o))
                for e in binds:
                    c = e[2]
                    if c is r.ctx:
                        continue
                    if c is NONE or (c.tag == "obj" and c.a[0] == "dict" and
                                     not ctx_carried(r, o, c)):
                        good = False
                        ctx.violation(rule, con, r.fi.loc(), "the body of "
                                      "the quantifier does not see the "
                                      "enclosing names", path_text(o))
                # the binding must not leak into the caller's context
                left = o.st.heap.get((r.ctx, ("item", sym("var.name"))))
                if left is not None and left in r.elems:
                    good = False
                    ctx.violation(rule, con, uloc(r, o), "the quantifier "
                                  "variable stays bound in the context of "
                                  "the enclosing expression", path_text(o))
                for ev in r.evals(o):
                    a = list(ev[2]) + [None] * 3
                    for got, w, nme in ((a[0], r.mh, "message handler"),
                                        (a[2], r.gstab, "symbol table")):
                        g = NONE if got is None else r.ip.norm(o.st, got)
                        if g is not w and g.tag in ("const", "sym"):
                            good = False
                            ctx.violation(rule, con, r.fi.loc(ev[3]),
                                          "the body is evaluated with %s as "
                                          "the %s" % (show(g), nme),
                                          path_text(o))
            if good:
                ctx.ok(rule, con)


def ctx_carried(r, o, c):
    """does a fresh dict hold the entries of the outer context?"""
    for k, v in o.st.heap.items():
        if k[0] is c and (v is r.ctx or
                          any(x is r.ctx for x in subterms(v))):
            return True
    if o.st.heap.get((c, "$items")) is None:
        return True          # open dict, provenance unknown
    return False


# --------------------------------------------------------------------------
# C04 partial operations are guarded
# --------------------------------------------------------------------------

def c04(ctx):
    m = ctx.m
    rule = "range-guard"
    zero = const(0)
    # division and remainder
    for opn in ("DIVIDE", "REMAINDER"):
        e = mk("enum", "Binary_Operator", opn)
        if opn not in ctx.cls("Binary_Operator").enum_members:
            ctx.undecided(rule, opn, "operator vanished")
            continue
        for (tl, tr) in BINARY[opn]:
            for c in ("dict", None):
                for pin in (None, zero, const(7), const(-7)):
                    if pin is not None and tr != "int":
                        continue
                    r = Run(m, "Binary_Expression", e, context=c,
                            types={"L": (tl,), "R": (tr,)},
                            pins={"R": pin} if pin is not None else {})
                    r.operand("n_lhs")
                    r.operand("n_rhs")
                    con = "%s on %s" % (opn, tl)
                    partial(ctx, rule, con, r,
                            lambda N: N.nonzero_known(R) is True,
                            lambda N, o: N.nonzero_known(R) is True or
                            (pin is not None and pin is not zero),
                            pin is zero, "the divisor may be zero")
    e = mk("enum", "Binary_Operator", "INDEX")
    n = op("len", L)
    for c in ("dict", None):
        r = Run(m, "Binary_Expression", e, context=c,
                types={"L": ("list",), "R": ("int",)})
        r.operand("n_lhs")
        r.operand("n_rhs")
        index_case(ctx, rule, r, n)
    static_eval(ctx)
    ctx.require(rule, 6, "partial operations")


def partial(ctx, rule, con, run, valid, err_bad, must, why):
    outs = guarded(ctx, rule, con, run.go)
    if outs is None:
        return
    ctx.analysed(run.ip)
    good = True
    for o in outs:
        N = Norm(run.ip, o.st)
        if o.kind == "return":
            if must or not valid(N):
                good = False
                ctx.violation(rule, con, uloc(run, o), "%s yields a value "
                              "on a path where %s" % (con, why),
                              path_text(o))
        elif is_fatal_error(run, o):
            if err_bad(N, o):
                good = False
                ctx.violation(rule, con, uloc(run, o), "%s reports an error "
                              "for a valid operand" % con, path_text(o))
        else:
            good = False
            ctx.violation(rule, con, uloc(run, o), "%s %s" %
                          (con, describe(o)), path_text(o))
    if good:
        ctx.ok(rule, con)


def index_case(ctx, rule, r, n):
    con = "INDEX"
    outs = guarded(ctx, rule, con, r.go)
    if outs is None:
        return
    ctx.analysed(r.ip)
    good = True
    zero = const(0)
    for o in outs:
        N = Norm(r.ip, o.st)
        low = N.lt_known(R, zero)
        high = N.lt_known(R, n)
        if o.kind == "return":
            if low is not False or high is not True:
                good = False
                ctx.violation(rule, con, uloc(r, o), "indexing yields a "
                              "value on a path where the index may be %s" %
                              ("negative" if low is not False else
                               "at or past the end of the array"),
                              path_text(o))
        elif is_fatal_error(r, o):
            # an array is not longer than the upper bound of its type
            past = high is False or any(
                N.lt_known(R, x) is False for t in o.st.truth
                for x in subterms(t)
                if x.tag == "attr" and x.a[1] == "upper_bound")
            if low is not True and not past:
                good = False
                about = [t for t in o.st.truth if R in subterms(t)]
                if not all(t.tag == "op" and t.a[0] in (
                        "lt", "le", "eq", "isinstance", "nonempty", "in")
                        for t in about):
                    ctx.undecided(rule, con, "unknown condition %s" %
                                  "; ".join(show(t) for t in about))
                else:
                    ctx.violation(rule, con, uloc(r, o), "indexing reports "
                                  "an error for a valid index",
                                  path_text(o))
        else:
            good = False
            ctx.violation(rule, con, uloc(r, o), "indexing %s" %
                          describe(o), path_text(o))
    if good:
        ctx.ok(rule, con)


def static_eval(ctx):
    """names and quantifiers are errors without a context"""
    m = ctx.m
    rule = "range-guard"
    for mkrun, con in ((lambda: Run(m, "Name_Reference", context=None),
                        "name in a static context"),
                       (lambda: quant_run(m, TRUE, [TRUE], context=None),
                        "quantifier in a static context")):
        r = mkrun()
        must_error(ctx, rule, con, r)


# --------------------------------------------------------------------------
# C05 evaluation does not change the model
# --------------------------------------------------------------------------

PURE_NAMES = ("evaluate", "to_string", "to_python_object", "to_python_dict",
              "can_be_null", "uses_field_access", "is_compatible",
              "is_subclass_of", "fully_qualified_name", "all_components",
              "iter_record_objects", "has_separators", "is_field_access",
              "perform_type_checks", "__eq__", "__str__", "__repr__",
              "iter_checks", "iter_separators", "iter_sequence",
              "column_range", "context_lines", "file_name",
              "get_end_location", "to_string", "dump")
ALLOWED_OWNERS = {"Message_Handler"}


FRESH_CALLS = ("copy", "deepcopy", "list", "dict", "set", "sorted",
               "reversed", "str", "tuple", "frozenset", "defaultdict",
               "OrderedDict", "Counter", "deque", "StringIO", "bytearray")


class Fresh:
    """which expressions denote objects created by the running call"""

    def __init__(self, m):
        self.m = m
        self.loc = {}
        self.ret = {}

    def expr(self, fi, v):
        import ast as A
        if isinstance(v, (A.List, A.Dict, A.Set, A.ListComp, A.DictComp,
                          A.SetComp, A.Constant, A.JoinedStr, A.BinOp,
                          A.GeneratorExp, A.Compare, A.Tuple)):
            return True
        if isinstance(v, A.IfExp):
            return self.expr(fi, v.body) and self.expr(fi, v.orelse)
        if isinstance(v, A.NamedExpr):
            return self.expr(fi, v.value)
        if isinstance(v, A.Name):
            return v.id in self.locals(fi)
        if isinstance(v, A.Call):
            f = v.func
            r = self.m.resolve_expr(fi.module, f)
            if r and r[0] == "class":
                return True
            n = f.id if isinstance(f, A.Name) else \
                f.attr if isinstance(f, A.Attribute) else None
            ts = self.m.call_targets(fi, v)
            if ts:
                return all(self.returns(t) for t in ts)
            if n in FRESH_CALLS or n in ("splitlines", "split", "keys"):
                return True
            if isinstance(f, A.Name):
                for x in walk_same_function(fi.node):
                    if isinstance(x, A.FunctionDef) and x.name == f.id:
                        return all(self.expr(fi, y.value)
                                   for y in walk_same_function(x)
                                   if isinstance(y, A.Return) and y.value)
        return False

    def returns(self, fi):
        import ast as A
        if fi.qual not in self.ret:
            self.ret[fi.qual] = False
            rs = [n.value for n in walk_same_function(fi.node)
                  if isinstance(n, A.Return) and n.value is not None]
            self.ret[fi.qual] = fi.is_generator or (
                bool(rs) and all(self.expr(fi, r) for r in rs))
        return self.ret[fi.qual]

    def locals(self, fi):
        import ast as A
        if fi.qual in self.loc:
            return self.loc[fi.qual]
        self.loc[fi.qual] = frozenset()
        cands, bad = {}, set(fi.params) | set(fi.kwonly)
        for n in A.walk(fi.node):
            if isinstance(n, (A.Assign, A.AnnAssign, A.NamedExpr)):
                ts = n.targets if isinstance(n, A.Assign) else [n.target]
                for t in ts:
                    if isinstance(t, A.Name):
                        if n.value is not None:
                            cands.setdefault(t.id, []).append(n.value)
                    else:
                        for x in A.walk(t):
                            if isinstance(x, A.Name) and \
                                    isinstance(x.ctx, A.Store):
                                bad.add(x.id)
            elif isinstance(n, (A.For, A.comprehension)):
                for x in A.walk(n.target):
                    if isinstance(x, A.Name):
                        bad.add(x.id)
            elif isinstance(n, A.FunctionDef) and n is not fi.node:
                for a in n.args.args:
                    bad.add(a.arg)
        good = set(cands) - bad
        while True:
            self.loc[fi.qual] = frozenset(good)
            drop = {g for g in good
                    if not all(self.expr(fi, v) for v in cands[g])}
            if not drop:
                break
            good -= drop
        return self.loc[fi.qual]


def walk_same_function(n):
    from sa.model import walk_same_function as w
    return w(n)


def memo_ok(m, fi, attr):
    """a cache private to one parameterless method of self"""
    import ast as A
    if len(fi.params) != 1 or fi.kwonly:
        return False
    for f in m.functions.values():
        if f is fi or f.name == "__init__":
            continue
        for n in A.walk(f.node):
            if isinstance(n, A.Attribute) and n.attr == attr:
                return False
    return True


def impure_sites(m, fi, fresh):
    """(node, text, root parameter or None) of writes that may outlive the
    call"""
    import ast as A
    from sa.model import MUTATORS
    rv = []

    def add(n, base, txt):
        if isinstance(base, A.Name) and base.id in fresh.locals(fi):
            return
        if fresh.expr(fi, base) and not isinstance(base, A.Name):
            return
        root = base
        deep = False
        while isinstance(root, (A.Attribute, A.Subscript)):
            root = root.value
            deep = True
        prm = root.id if isinstance(root, A.Name) and not deep and \
            root.id in fi.params + fi.kwonly else None
        if fi.name == "__init__" and isinstance(root, A.Name) and \
                root.id == "self":
            return
        rv.append((n, txt, prm))

    for n in A.walk(fi.node):
        if isinstance(n, A.Attribute) and isinstance(n.ctx, (A.Store,
                                                             A.Del)):
            if isinstance(n.value, A.Name) and n.value.id == "self" and \
                    memo_ok(m, fi, n.attr):
                continue
            add(n, n.value, "writes attribute %s" % n.attr)
        elif isinstance(n, A.Subscript) and isinstance(n.ctx, (A.Store,
                                                               A.Del)):
            add(n, n.value, "writes an item of %s" % A.unparse(n.value))
        elif isinstance(n, A.AugAssign) and isinstance(n.target, A.Name) \
                and n.target.id in fi.params and \
                isinstance(n.op, (A.BitOr, A.BitAnd, A.Sub)):
            add(n, n.target, "updates %s in place" % n.target.id)
        elif isinstance(n, A.Call) and isinstance(n.func, A.Attribute) and \
                n.func.attr in MUTATORS:
            if any(t.cls is not None and n.func.attr == t.name
                   for t in m.call_targets(fi, n)):
                continue
            add(n, n.func.value, "mutates %s with %s()" %
                (A.unparse(n.func.value), n.func.attr))
        elif isinstance(n, A.Global):
            rv.append((n, "rebinds a module level name", None))
        elif isinstance(n, A.Call) and isinstance(n.func, A.Name) and \
                n.func.id in ("setattr", "delattr") and n.args:
            add(n, n.args[0], "calls %s" % n.func.id)
    return rv


def arg_for(fi, call, prm):
    ps = list(fi.params)
    import ast as A
    if fi.cls is not None and not fi.is_static and \
            isinstance(call.func, A.Attribute):
        ps = ps[1:]
    for k in call.keywords:
        if k.arg == prm:
            return k.value
    if prm in ps and ps.index(prm) < len(call.args):
        return call.args[ps.index(prm)]
    return None


def param_fresh(m, fresh, seen, fi, prm, depth=0):
    """every reachable caller passes an object of its own creation"""
    import ast as A
    if depth > 4 or prm == "self":
        return False
    n = 0
    for q in seen:
        g = m.functions[q]
        for c in A.walk(g.node):
            if isinstance(c, A.Call) and fi in m.call_targets(g, c):
                a = arg_for(fi, c, prm)
                n += 1
                if a is None:
                    return False
                if fresh.expr(g, a):
                    continue
                if isinstance(a, A.Name) and a.id in g.params and \
                        g is not fi and \
                        param_fresh(m, fresh, seen, g, a.id, depth + 1):
                    continue
                return False
    return n > 0


def c05(ctx):
    m = ctx.m
    rule = "pure"
    roots = []
    ctx.func("Binary_Expression.evaluate")
    ctx.func("Check.perform")
    for q, f in sorted(m.functions.items()):
        if f.cls is None or f.cls.module.name not in ("ast", "lexer",
                                                      "errors", "math"):
            continue
        if f.cls.name in ("Token_Stream", "TRLC_Lexer", "Lexer_Base",
                          "Message_Handler"):
            continue
        if f.name in PURE_NAMES or f.qual == "Check.perform" or \
                f.qual == "Record_Object.perform_checks":
            roots.append(f)
    seen = {}
    work = [(f, None) for f in roots]
    while work:
        f, via = work.pop()
        if f.qual in seen:
            continue
        seen[f.qual] = via
        if f.cls is not None and f.cls.name in ALLOWED_OWNERS:
            continue
        for t in list(m.callees(f)) + m.property_reads(f):
            if t.qual not in seen:
                work.append((t, f.qual))
    fresh = Fresh(m)
    for q in sorted(seen):
        f = m.functions[q]
        ctx.funcs.add(q)
        if f.cls is not None and f.cls.name in ALLOWED_OWNERS:
            continue
        sites = [(n, t) for n, t, p in impure_sites(m, f, fresh)
                 if p is None or not param_fresh(m, fresh, seen, f, p)]
        if not sites:
            ctx.ok(rule, q)
            continue
        chain = [q]
        while seen.get(chain[-1]):
            chain.append(seen[chain[-1]])
        for n, txt in sites:
            ctx.violation(rule, "%s:%s" % (q, txt), f.loc(n),
                          "%s %s; it is reached by %s, which must not "
                          "change the model" % (q, txt, chain[-1]),
                          " <- ".join(chain))
    ctx.require(rule, 60, "functions")


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05}
EXPLAIN = {
    "C01": "Abstract interpretation of every evaluate() method with each "
           "operand position pinned to null: every outcome must be a fatal "
           "reported error.",
    "C02": "Abstract interpretation of every evaluate() method; the term "
           "returned on each path is compared, under the path's facts, with "
           "the specification of the operator.",
    "C03": "Abstract interpretation of every evaluate() method; the child "
           "evaluations on each path are compared with the ones the "
           "operator's laziness permits and requires, and with the "
           "environment passed in.",
    "C04": "Abstract interpretation of division, remainder and indexing; "
           "the facts of every returning path must entail a valid operand, "
           "those of every error path must not.",
    "C05": "Effect analysis over the call graph closure of all evaluation "
           "and query functions: no write to anything that outlives the "
           "call."}
RULES = {}
