"""Normal forms of value terms: polynomials, linear comparisons, booleans.

A purely syntactic term-rewriting layer: two terms with the same normal form
denote the same function of their atoms.
"""
from fractions import Fraction
from .absint import V, op, NONE, TRUE, FALSE, eqterm, is_lit

NUM = {"int", "Fraction", "float", "bool"}


def num(v):
    """numeric constant of a term or None"""
    if v.tag == "const" and v.a[0] in ("int", "float", "bool"):
        try:
            return Fraction(v.a[1])
        except (ValueError, OverflowError):
            return None
    if v.tag == "op" and v.a[0] in ("fractions.Fraction", "Fraction"):
        xs = [num(x) for x in v.a[1:] if isinstance(x, V)]
        if xs and None not in xs:
            if len(xs) == 1:
                return xs[0]
            if len(xs) == 2 and xs[1] != 0:
                return xs[0] / xs[1]
    if v.tag == "op" and v.a[0] == "neg":
        x = num(v.a[1])
        return -x if x is not None else None
    return None


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=repr))
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def freeze(p):
    return tuple(sorted(p.items(), key=repr))


class Norm:
    """normaliser under a state (facts used for folding) """

    def __init__(self, ip, st, numeric=()):
        self.ip = ip
        self.st = st
        self.numeric = set(numeric)     # atoms known to be numbers

    # -- terms ------------------------------------------------------------
    def n(self, v):
        v = self.ip.norm(self.st, v)
        if v.tag == "op" and v.a[0] in (".startswith", ".endswith", "in"):
            t = self.st.truth.get(v)
            if t is not None:
                return TRUE if t else FALSE
        return v

    def is_num(self, v):
        if num(v) is not None:
            return True
        if v in self.numeric:
            return True
        t = self.ip.types_of(self.st, v)
        if t is not None and t and t <= NUM:
            return True
        if v.tag == "op" and v.a[0] in ("sub", "mul", "truediv", "floordiv",
                                        "mod", "neg", "pos", "len",
                                        "pow", "fractions.Fraction"):
            return v.a[0] not in ("mul", "mod") or all(
                self.is_num(x) for x in v.a[1:3])
        if v.tag == "op" and v.a[0] == "add":
            return self.is_num(v.a[1]) and self.is_num(v.a[2])
        if v.tag == "op" and v.a[0] in ("abs", "min", "max", "math.floor",
                                        "math.ceil", "round", "math.trunc"):
            return True
        return False

    def poly(self, v):
        v = self.n(v)
        c = num(v)
        if c is not None:
            return {(): c} if c else {}
        if v.tag == "op":
            o = v.a[0]
            if o == "add" and self.is_num(v):
                return padd(self.poly(v.a[1]), self.poly(v.a[2]))
            if o == "sub":
                return padd(self.poly(v.a[1]), self.poly(v.a[2]), -1)
            if o == "mul" and self.is_num(v):
                return pmul(self.poly(v.a[1]), self.poly(v.a[2]))
            if o == "neg":
                return padd({}, self.poly(v.a[1]), -1)
            if o == "pos":
                return self.poly(v.a[1])
            if o == "pow":
                e = num(self.n(v.a[2]))
                if e is not None and e.denominator == 1 and 0 <= e <= 6:
                    r = {(): Fraction(1)}
                    b = self.poly(v.a[1])
                    for _ in range(int(e)):
                        r = pmul(r, b)
                    return r
            if o == "abs":
                s = self.sign(v.a[1])
                if s == 1:
                    return self.poly(v.a[1])
                if s == -1:
                    return padd({}, self.poly(v.a[1]), -1)
                p = self.poly(v.a[1])
                q = padd({}, p, -1)
                return {(("abs", min(freeze(p), freeze(q), key=repr)),):
                        Fraction(1)}
            if o in ("max",) and len(v.a) == 3:
                p, q = self.poly(v.a[1]), self.poly(v.a[2])
                if padd(p, q) == {}:
                    return {(("abs", min(freeze(p), freeze(q), key=repr)),):
                            Fraction(1)}
        return {(self.canon(v, True),): Fraction(1)}

    def sign(self, v):
        """1: v >= 0 known, -1: v <= 0 known, 0 unknown"""
        z = op("lt", v, _zero())
        t = self.lt_known(v, _zero())
        if t is True:
            return -1
        if t is False:
            return 1
        t = self.lt_known(_zero(), v)
        if t is True:
            return 1
        if t is False:
            return -1
        return 0

    def lin_facts(self):
        if not hasattr(self, "_lin"):
            self._lin = []
            for t, b in self.st.truth.items():
                if t.tag == "op" and t.a[0] == "lt":
                    try:
                        if not (self.is_num(t.a[1]) or
                                self.is_num(t.a[2])):
                            continue
                        p = padd(self._rawpoly(t.a[1]),
                                 self._rawpoly(t.a[2]), -1)
                    except RecursionError:
                        continue
                    if b:
                        self._lin.append((p, True))      # p < 0
                    else:
                        self._lin.append((padd({}, p, -1), False))  # -p<=0
        return self._lin

    def _rawpoly(self, v):
        """polynomial without sign based folding (avoids recursion)"""
        v = self.n(v)
        c = num(v)
        if c is not None:
            return {(): c} if c else {}
        if v.tag == "op":
            o = v.a[0]
            if o == "add" and self.is_num(v):
                return padd(self._rawpoly(v.a[1]), self._rawpoly(v.a[2]))
            if o == "sub":
                return padd(self._rawpoly(v.a[1]), self._rawpoly(v.a[2]),
                            -1)
            if o == "neg":
                return padd({}, self._rawpoly(v.a[1]), -1)
            if o == "pos":
                return self._rawpoly(v.a[1])
        return {(("raw", v.n),): Fraction(1)}

    def is_int(self, v):
        v = self.n(v)
        t = self.ip.types_of(self.st, v)
        if t is not None:
            return t <= {"int", "bool"}
        if v.tag == "op":
            if v.a[0] == "len":
                return True
            if v.a[0] in ("add", "sub", "mul", "neg"):
                return all(self.is_int(x) for x in v.a[1:3])
        return False

    def lt_known(self, a, b):
        """is a < b known? True / False / None"""
        p = padd(self._rawpoly(a), self._rawpoly(b), -1)
        ints = self.is_int(a) and self.is_int(b)
        if not p:
            return False
        if set(p) == {()}:
            return p[()] < 0
        k = p.get((), Fraction(0))
        vec = {m: c for m, c in p.items() if m != ()}
        nvec = {m: -c for m, c in vec.items()}
        for f, strict in self.lin_facts():
            fk = f.get((), Fraction(0))
            fv = {m: c for m, c in f.items() if m != ()}
            if fv == vec:
                # fv + fk < 0 (or <= 0); want vec + k < 0
                bound = fk
                if ints and strict:
                    # fv + fk + 1 <= 0
                    if k <= fk + 1 and k < fk + 1 or k < fk + 1:
                        return True
                if strict and k <= bound:
                    return True
                if not strict and k < bound:
                    return True
            if fv == nvec:
                # -vec + fk < 0 -> vec > fk ; vec + k >= 0 iff vec >= -k
                # strict: vec > fk ; nonstrict: vec >= fk
                if strict and fk >= -k:
                    return False
                if ints and strict and fk + 1 >= -k:
                    return False
                if not strict and fk >= -k:
                    return False
        t = self.st.truth.get(op("lt", a, b))
        return t

    def nonzero_known(self, v):
        v = self.n(v)
        c = num(v)
        if c is not None:
            return c != 0
        if self.st.truth.get(v) is True:
            return True
        for z in self.st.neq.get(v, ()):
            if num(z) == 0:
                return True
        t = self.st.truth.get(eqterm(v, _zero()))
        if t is False:
            return True
        if self.lt_known(v, _zero()) or self.lt_known(_zero(), v):
            return True
        if v.tag == "op" and v.a[0] in ("abs", "neg", "pos"):
            return self.nonzero_known(v.a[1])
        for t in ("abs", "neg", "pos"):
            w = op(t, v)
            if w in self.st.neq and any(num(z) == 0
                                        for z in self.st.neq[w]):
                return True
        return False

    # -- canonical structure ----------------------------------------------------
    def canon(self, v, atom=False):
        v = self.n(v)
        if v is TRUE:
            return ("T",)
        if v is FALSE:
            return ("F",)
        if v is NONE:
            return ("none",)
        if not atom and self.is_num(v) and \
                not (v.tag == "op" and v.a[0] in ("fractions.Fraction",)
                     and num(v) is None):
            p = self.poly(v)
            return ("poly", freeze(p))
        if v.tag == "op":
            o = v.a[0]
            if o == "not":
                return cnot(self.canon(v.a[1]))
            if o == "lt":
                a, b = v.a[1], v.a[2]
                if self.is_num(a) and self.is_num(b):
                    k = self.lt_known(a, b)
                    if k is not None:
                        return ("T",) if k else ("F",)
                    return ("lt0", freeze(padd(self.poly(a), self.poly(b),
                                               -1)))
                return ("lt", self.canon(a), self.canon(b))
            if o in ("eq", "is"):
                a, b = self.n(v.a[1]), self.n(v.a[2])
                if a is b:
                    return ("T",)
                if self.is_num(a) and self.is_num(b):
                    p = padd(self.poly(a), self.poly(b), -1)
                    q = padd({}, p, -1)
                    if not p:
                        return ("T",)
                    return ("eq0", min(freeze(p), freeze(q), key=repr))
                x, y = self.canon(a), self.canon(b)
                if x in (("T",), ("F",)) and y not in (("T",), ("F",)):
                    x, y = y, x
                if self.is_bool(a) and self.is_bool(b):
                    if y == ("T",):
                        return x
                    if y == ("F",):
                        return cnot(x)
                return ("eq", frozenset([x, y]))
            if o == "xor" and self.is_bool(v.a[1]) and self.is_bool(v.a[2]):
                return cnot(self.canon(eqterm(v.a[1], v.a[2])))
            if o in ("and", "or"):
                xs = frozenset(self.canon(x) for x in v.a[1:])
                return cand(xs) if o == "and" else cor(xs)
            if o == "in":
                return ("in", self.canon(v.a[1]), self.canon(v.a[2]))
            return ("op", o) + tuple(
                self.canon(x) if isinstance(x, V) else ("lit", repr(x))
                for x in v.a[1:])
        if v.tag == "attr":
            return ("attr", self.canon(v.a[0]), v.a[1])
        if v.tag == "tuple":
            return ("tuple",) + tuple(self.canon(x) for x in v.a)
        if v.tag == "const":
            return ("const",) + v.a
        return ("atom", v.n)

    def is_bool(self, v):
        v = self.n(v)
        t = self.ip.types_of(self.st, v)
        return t is not None and t == {"bool"}

    def vocabulary(self, v):
        """operator names and leaf terms of v"""
        ops, leaves = set(), set()
        stack = [self.n(v)]
        while stack:
            x = stack.pop()
            if x.tag == "op":
                ops.add(x.a[0])
                stack += [self.n(y) for y in x.a[1:] if isinstance(y, V)]
            elif x.tag == "attr":
                ops.add("." + x.a[1])
                stack.append(self.n(x.a[0]))
            elif x.tag == "tuple":
                stack += [self.n(y) for y in x.a]
            elif not is_lit(x):
                leaves.add(x)
        return ops, leaves


def cnot(x):
    if x == ("T",):
        return ("F",)
    if x == ("F",):
        return ("T",)
    if x[0] == "not":
        return x[1]
    return ("not", x)


def cand(xs):
    if ("F",) in xs:
        return ("F",)
    xs = frozenset(x for x in xs if x != ("T",))
    if not xs:
        return ("T",)
    if len(xs) == 1:
        return list(xs)[0]
    return ("and", xs)


def cor(xs):
    if ("T",) in xs:
        return ("T",)
    xs = frozenset(x for x in xs if x != ("F",))
    if not xs:
        return ("F",)
    if len(xs) == 1:
        return list(xs)[0]
    return ("or", xs)


def _zero():
    from .absint import const
    return const(0)
