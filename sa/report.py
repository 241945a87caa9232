"""Obligation book-keeping shared by all rules."""
import json
import os
import time


class AnchorError(Exception):
    """an anchor of a rule has vanished: the analysis is broken"""


class Ctx:
    def __init__(self, pid, model, tier="quick", seed=1):
        self.pid = pid
        self.m = model
        self.tier = tier
        self.seed = seed
        self.oks = []            # (rule, where)
        self.bad = []            # (key, rule, loc, msg, path)
        self.und = []            # (rule, where, why)
        self.funcs = set()
        self.counts = {}
        self.notes = []
        self.t0 = time.time()

    # -- anchors ------------------------------------------------------------
    def func(self, qual):
        f = self.m.functions.get(qual)
        if f is None and "." in qual:
            c, n = qual.split(".", 1)
            ci = self.m.classes.get(c)
            if ci is not None:
                f = ci.lookup(n)
        if f is None:
            raise AnchorError("function %s not found" % qual)
        self.funcs.add(f.qual)
        return f

    def cls(self, name):
        c = self.m.classes.get(name)
        if c is None:
            raise AnchorError("class %s not found" % name)
        return c

    # -- obligations ----------------------------------------------------------
    def ok(self, rule, where):
        self.oks.append((rule, where))

    def violation(self, rule, construct, loc, msg, path=""):
        key = "%s:%s" % (rule, construct)
        if any(b[0] == key and b[3] == msg for b in self.bad):
            return
        self.bad.append((key, rule, loc, msg, path))

    def undecided(self, rule, where, why):
        self.und.append((rule, where, str(why)[:300]))

    def analysed(self, ip):
        self.funcs |= ip.analysed

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def require(self, rule, n, what):
        """at least n obligations must have been met by this rule"""
        k = len([1 for r, _ in self.oks if r == rule]) + \
            len([1 for b in self.bad if b[1] == rule]) + \
            len([1 for u in self.und if u[0] == rule])
        if k < n:
            raise AnchorError("rule %s matched %d %s, expected at least %d"
                              % (rule, k, what, n))


def load_known(path):
    rv = []
    if not os.path.exists(path):
        return rv
    for line in open(path, encoding="utf-8"):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        # known: property=<id> key=<key> :: <text>
        head, _, text = line[len("known: "):].partition(" :: ")
        prop, _, key = head.partition(" key=")
        rv.append((prop[len("property="):], key.strip(), text))
    return rv


def finish(ctx, root, explanation, technique_rules):
    known = {k: t for p, k, t in load_known(os.path.join(
        root, "known_findings.txt")) if p == ctx.pid}
    evdir = os.path.join(root, "evidence")
    os.makedirs(evdir, exist_ok=True)
    new = [b for b in ctx.bad if b[0] not in known]
    seen_known = sorted({b[0] for b in ctx.bad if b[0] in known})
    rules = {}
    for r, w in ctx.oks:
        rules.setdefault(r, {"discharged": 0, "violated": 0,
                             "undecided": 0})["discharged"] += 1
    for b in ctx.bad:
        rules.setdefault(b[1], {"discharged": 0, "violated": 0,
                                "undecided": 0})["violated"] += 1
    for u in ctx.und:
        rules.setdefault(u[0], {"discharged": 0, "violated": 0,
                                "undecided": 0})["undecided"] += 1
    cov = {
        "explanation": explanation,
        "rules": technique_rules,
        "obligations": len(ctx.oks) + len(ctx.bad) + len(ctx.und),
        "discharged": len(ctx.oks),
        "undecided": len(ctx.und),
        "per_rule": rules,
        "functions_analysed": len(ctx.funcs),
        "functions": sorted(ctx.funcs)[:400],
        "source_digest": ctx.m.digest(),
        "samples": ["%s @ %s" % x for x in
                    ctx.oks[::max(1, len(ctx.oks) // 25)]][:40],
        "undecided_list": ["%s @ %s: %s" % u for u in ctx.und][:80],
        "known_findings": seen_known,
    }
    cov.update(ctx.counts)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed,
          "level": "other", "coverage": cov,
          "assumptions": [
              "third-party modules (pyvcg, cvc5, re, fractions, json) "
              "behave as documented",
              "no monkey patching, eval or dynamic attribute creation in "
              "/repo/trlc beyond the setattr/getattr forms analysed"],
          "wall_s": round(time.time() - ctx.t0, 3),
          "violations": len(new)}
    with open(os.path.join(evdir, ctx.pid + ".json"), "w",
              encoding="utf-8") as fd:
        json.dump(ev, fd, indent=1)
        fd.write("\n")
    rep = os.path.join(evdir, ctx.pid + ".report.txt")
    with open(rep, "w", encoding="utf-8") as fd:
        for key, rule, loc, msg, path in ctx.bad:
            fd.write("%s: [%s] %s\n" % (loc, key, msg))
            if path:
                fd.write("    path: %s\n" % path)
        for u in ctx.und:
            fd.write("undecided: %s @ %s: %s\n" % u)
    print("%s: %d obligations, %d discharged, %d violated, %d undecided, "
          "%d functions analysed, %.1fs" %
          (ctx.pid, cov["obligations"], len(ctx.oks), len(ctx.bad),
           len(ctx.und), len(ctx.funcs), ev["wall_s"]))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s: %s" % (ctx.pid, k, known[k]))
    for key, rule, loc, msg, path in new:
        print("%s: [%s] %s" % (loc, key, msg))
        if path:
            print("    path: %s" % path)
    if new:
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rep))
        return 1
    return 0
