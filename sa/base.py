"""Shared client: knows the message interface of the code base."""
import ast
from .absint import *          # noqa
from .model import Model


class TrlcClient(Client):
    """mh.error/warning/check/... become `emit` events."""

    def on_call(self, ip, st, fi, self_v, args, node):
        if fi.cls is not None and fi.cls.name == "Message_Handler":
            r = self.message(ip, st, fi, self_v, args, node)
            if r is not None:
                return r
        return self.call_hook(ip, st, fi, self_v, args, node)

    def call_hook(self, ip, st, fi, self_v, args, node):
        return None

    def message(self, ip, st, fi, self_v, args, node):
        n = fi.name
        exc = mk("obj", "TRLC_Error", ("mh", node.lineno, node.col_offset))
        loc = args.get("location")
        if loc is not None and ip.norm(st, loc) is NONE:
            # every message needs a place
            return [("raise", st, mk("obj", "AssertionError", (
                "mh", node.lineno, node.col_offset)))]
        if n == "error":
            st = st.event("emit", "error", args, node)
            fatal = args.get("fatal", TRUE)
            rv = []
            t, f = ip.split(st, fatal)
            rv += [("raise", self.on_emit(ip, x, "error", True, args, node),
                    exc) for x in t]
            rv += [("ret", self.on_emit(ip, x, "error", False, args, node),
                    NONE) for x in f]
            return rv
        if n == "lex_error":
            st = st.event("emit", "error", args, node)
            return [("raise", self.on_emit(ip, st, "error", True, args,
                                           node), exc)]
        if n in ("warning", "check"):
            st = st.event("emit", n, args, node)
            return [("ret", self.on_emit(ip, st, n, False, args, node),
                     NONE)]
        if n == "ice_loc":
            st = st.event("emit", "ice", args, node)
            return [("exit", st, NONE)]
        if n == "cross_file_reference":
            return [("ret", st, op("xref", args.get("location")))]
        return None

    def on_emit(self, ip, st, kind, fatal, args, node):
        return st


def path_text(o, limit=6):
    """human readable path condition of an outcome"""
    rv = []
    for e in o.st.events():
        if e[0] == "br":
            rv.append("%s%s" % ("" if e[2] else "not ",
                                ast.unparse(e[1])[:70]))
    if len(rv) > limit:
        rv = rv[:2] + ["..."] + rv[-(limit - 2):]
    return " && ".join(rv) if rv else "unconditional"


def forget_versions(st):
    """canonical versions for changed attributes, with all facts about
    them forgotten (a coarser state)"""
    if not any(v != ("any",) for v in st.aver.values()):
        return st
    names = frozenset(st.aver)

    def old(t):
        return any(x.tag == "attr" and x.a[1] in names for x in subterms(t))
    st = st.copy()
    st.aver = {k: ("any",) for k in names}
    for fld in ("truth", "eq", "neq", "types"):
        setattr(st, fld, {k: v for k, v in getattr(st, fld).items()
                          if not old(k)})
    st.heap = {k: v for k, v in st.heap.items() if not old(k[0])}
    return st
