"""C22: exactly the files which are asked for or needed are processed."""
import itertools
from sa.base import *          # noqa
from sa.equiv import equiv, EqClient
from rules.core import attrs, closed, S, ME
from rules.nodes import dictionary

# --------------------------------------------------------------------------
# what is needed, and in which order
# --------------------------------------------------------------------------
DRIVE = """
def drive(self):
    a = self.build_graph()
    b = self.parse_rsl_files()
    c = self.parse_trlc_files()
    return [True if a else False, True if b else False, True if c else False]
"""


def obj(cls, name):
    return mk("obj", cls, ("shape", name))


class Files:
    """registered files: (package, kind) -> imports, primary"""

    def __init__(self, files, includes=(), broken=()):
        self.includes = includes
        self.broken = broken        # no package can be read
        # neither in the order of the packages nor in that of registration
        self.files = {("%s.%s" % ({"A": "n", "B": "o", "C": "m"}[p], k)):
                      (p, k, imports, primary)
                      for (p, k), (imports, primary) in files.items()}

    def parser(self, f):
        return obj("Parser", f)

    def setup(self, ip, st):
        tables = {"rsl": [], "trlc": []}
        for f, (p, k, imports, primary) in self.files.items():
            x = self.parser(f)
            tables[k].append((const(f), x))
            cu, pkg = obj("Compilation_Unit", f), obj("Package", p)
            st, imps = closed(st, "imports " + f, [
                obj("Package", q) for q in imports], "set")
            for b, n, v in ((x, "cu", cu), (x, "primary", const(primary)),
                            (x, "secondary", FALSE), (cu, "package", pkg),
                            (cu, "imports", imps),
                            (cu, "location", S("place of " + f)),
                            (cu, "file_name", const(f))):
                st = st.set_attr(b, n, v)
            good = (p, k) not in self.broken
            if not good:
                st = st.set_attr(cu, "package", NONE)
            st = st._upd("truth", op("call.ok", op(
                "call.parse_preamble", x, const(k))), good)
            for q in (p,) + imports:
                st = st.set_attr(obj("Package", q), "name", const(q))
        every = tables["rsl"] + tables["trlc"]
        for n, kv in (("rsl_files", tables["rsl"]),
                      ("trlc_files", tables["trlc"]), ("all_files", every),
                      ("includes", [(const("/w/" + n), const(n))
                                    for n in self.includes]),
                      ("dep_graph", [])):
            st, d = dictionary(st, n, [k for k, _ in kv],
                               [v for _, v in kv])
            st = st.set_attr(ME, n, d)
        st, e = closed(st, "errors", [], "set")
        st = st.set_attr(ME, "files_with_preamble_errors", e)
        return st

    def usable(self):
        return {f: x for f, x in self.files.items()
                if x[:2] not in self.broken}

    def needed(self):
        nodes = {(p, k) for p, k, _, _ in self.usable().values()}
        links = {(p, k): {(q, k) for q in imports} | (
            {(p, "rsl")} if k == "trlc" else set())
            for p, k, imports, _ in self.usable().values()}
        work = [(p, k) for p, k, _, primary in self.usable().values()
                if primary]
        rv = set()
        while work:
            n = work.pop()
            if n not in rv:
                rv.add(n)
                # a package has a (perhaps empty) part of each kind
                work += links.get(n, {(n[0], "rsl")} if n[1] == "trlc"
                                  else set())
        return rv & nodes

    def reference(self):
        """the straight line program which is equivalent"""
        need = self.needed()
        name = {f: "f%d" % i for i, f in enumerate(self.files)}
        rv = ["def spec(self, %s):" % ", ".join(name.values())]
        for n in sorted(self.includes):
            rv.append("    self.register_file(%r, primary=False)" % n)
        # the packages of all files are known before imports are looked up
        for kind in ("rsl", "trlc"):
            fs = sorted(f for f in self.files if self.files[f][1] == kind)
            for f in fs:
                rv += ["    try:", "        %s.parse_preamble(%r)" % (
                    name[f], kind), "    except TRLC_Error:", "        pass"]
            for f in fs:
                if f in self.usable():
                    rv.append("    %s.cu.resolve_imports(self.mh, self.stab)"
                              % name[f])
        for f, (p, k, _, primary) in self.usable().items():
            if (p, k) in need and not primary:
                rv.append("    %s.secondary = True" % name[f])
        rsl = {p: (f, imports) for f, (p, k, imports, _) in
               self.usable().items() if k == "rsl" and (p, k) in need}
        done = []
        rv.append("    b = True")
        stuck = False
        while len(done) < len(rsl) and not stuck:
            ready = sorted(p for p in rsl if p not in done and all(
                q in done for q in rsl[p][1]))
            stuck = not ready
            for p in ready:
                rv += ["    try:", "        b &= %s.parse_rsl_file()" %
                       name[rsl[p][0]], "    except TRLC_Error:",
                       "        b = False"]
            done += ready
        if stuck:
            p = min(set(rsl) - set(done))
            rv += ["    self.mh.error(location=%s.cu.location, message='', "
                   "explanation='', fatal=False)" % name[rsl[p][0]],
                   "    b = False"]
        rv.append("    c = True")
        for f in sorted(self.usable()):
            p, k, _, _ = self.files[f]
            if k == "trlc" and (p, k) in need:
                rv += ["    try:", "        c &= %s.parse_trlc_file()" %
                       name[f], "    except TRLC_Error:",
                       "        c = False"]
        rv.append("    return [%s, True if b else False, "
                  "True if c else False]" % (not self.broken))
        return "\n".join(rv) + "\n", {n: self.parser(f)
                                      for f, n in name.items()}

    def text(self):
        return "".join("%s in an include path, " % n
                       for n in self.includes) + ", ".join("%s%s%s" % (f, " (-I)" if not primary else "",
                                     " importing " + " ".join(imports)
                                     if imports else "") +
                         (" without package" if (p, k) in self.broken
                          else "")
                         for f, (p, k, imports, primary) in
                         self.files.items())

    def check(self, ctx):
        source, args = self.reference()
        equiv(ctx, "needed", self.text(), "Source_Manager.build_graph",
              source, self.setup, args, drive=DRIVE, like="trlc",
              contracts=("*.parse_preamble", "*.resolve_imports",
                         "*.parse_rsl_file", "*.parse_trlc_file",
                         "*.signal_progress", "*.cross_file_reference",
                         "*.register_file"),
              logged=("*.parse_rsl_file", "*.parse_trlc_file",
                      "*.parse_preamble", "*.resolve_imports",
                      "*.register_file"),
              raising=("*.parse_preamble",),
              shared=[self.parser(f) for f in self.files],
              ignore=("progress_final",), exact=True)


def subsets(xs):
    xs = list(xs)
    return [c for n in range(len(xs) + 1)
            for c in itertools.combinations(xs, n)]


def needed(ctx):
    # three packages, all import graphs
    ps = "ABC"
    for links in itertools.product(*[subsets(q for q in ps if q != p)
                                     for p in ps]):
        for prim in ("A", "AB", "ABC"):
            Files({(p, "rsl"): (l, p in prim)
                   for p, l in zip(ps, links)}).check(ctx)
    # files without a package
    for broken in subsets("AB"):
        for k in ("rsl", "trlc"):
            for prim in subsets("AB"):
                Files({("A", k): ((), "A" in prim),
                       ("B", k): ((), "B" in prim),
                       ("C", "rsl"): ((), True),
                       ("C", "trlc"): ((), True)},
                      broken=[(p, k) for p in broken]).check(ctx)
    # files of include paths
    for inc in (("b",), ("b", "a"), ("b", "a", "c")):
        Files({("A", "rsl"): ((), True)}, inc).check(ctx)
    # types and objects of two packages
    for ab, ba in itertools.product(((), ("B",)), ((), ("A",))):
        for tb, ta in itertools.product(((), ("B",)), ((), ("A",))):
            for prim in subsets("ABab"):
                Files({("A", "rsl"): (ab, "A" in prim),
                       ("B", "rsl"): (ba, "B" in prim),
                       ("A", "trlc"): (tb, "a" in prim),
                       ("B", "trlc"): (ta, "b" in prim)}).check(ctx)
    # a package without types
    for imports in subsets("A"):
        for prim in subsets("ABb"):
            for back in subsets("B"):
                Files({("A", "rsl"): ((), "A" in prim),
                       ("A", "trlc"): (back, "B" in prim),
                       ("B", "trlc"): (imports, "b" in prim)}).check(ctx)

# --------------------------------------------------------------------------
# registration
# --------------------------------------------------------------------------
REGISTER = """
def spec(self, file_name, file_content, primary):
    try:
        if file_name.endswith(".rsl"):
            self.register_rsl_file(file_name, file_content, primary)
        elif file_name.endswith(".trlc"):
            self.register_trlc_file(file_name, file_content, primary)
        else:
            self.mh.error(Location(os.path.basename(file_name)), "",
                          fatal=False)
            return False
    except TRLC_Error:
        return False
    return True
"""
KIND = """
def spec(self, file_name, file_content, primary):
    %s
    p = self.create_parser(file_name, file_content, primary)
    self.%s_files[file_name] = p
    self.all_files[file_name] = p
    if os.path.abspath(file_name) in self.includes:
        del self.includes[os.path.abspath(file_name)]
    return SHOWN
"""
SHOWN = """[list(self.rsl_files.items()), list(self.trlc_files.items()),
            list(self.all_files.items()), list(self.includes.items())]
"""
USE = """
def drive(self, file_name, file_content, primary):
    self.register_%s_file(file_name, file_content, primary)
    return SHOWN
"""
SKIP = """if not self.parse_trlc:
        return SHOWN"""
PARSER = """
def spec(self, file_name, file_content, primary_file):
    lexer = Token_Stream(self.mh, file_name, file_content)
    return Parser(mh=self.mh, stab=self.stab, file_name=file_name,
                  lint_mode=self.lint_mode,
                  error_recovery=self.error_recovery,
                  primary_file=primary_file, lexer=lexer)
"""


def registration(ctx):
    for prim in (True, False):
        equiv(ctx, "registered", "Source_Manager.register_file (%s)" % (
            "primary" if prim else "included"),
            "Source_Manager.register_file", REGISTER,
            args={"primary": const(prim)}, like="trlc",
            contracts=("*.register_rsl_file", "*.register_trlc_file"),
            raising=("*.register_rsl_file", "*.register_trlc_file"),
            logged=("*.register_rsl_file", "*.register_trlc_file"))
    for kind in ("rsl", "trlc"):
        q = "Source_Manager.register_%s_file" % kind
        for inc in ("in another spelling", "by the same name", ""):
            def setup(ip, st, inc=inc):
                name = op("os.path.abspath", S("file_name"))
                spelled = S("file_name") if inc.startswith("by") else \
                    S("spelled")
                for n in ("rsl_files", "trlc_files", "all_files"):
                    st, d = dictionary(st, n, [S("other")], [S("parser")])
                    st = st.set_attr(ME, n, d)
                st = ip.assume_eq(st, S("file_name"), S("other"), False)
                st = ip.assume_eq(st, S("file_name"), S("spelled"), False)
                st = ip.assume_eq(st, name, S("another"), False)
                st = ip.assume_eq(st, name, S("file_name"), False)
                st = ip.assume_eq(st, S("file_name"), S("another"), False)
                st, d = dictionary(st, "includes", [name, S("another")]
                                   if inc else [], [spelled, S("far")]
                                   if inc else [])
                return st.set_attr(ME, "includes", d)
            equiv(ctx, "registered", "%s (%s)" % (
                q, "seen in an include path " + inc if inc else
                "not included"), q,
                (KIND % (SKIP if kind == "trlc" else "", kind)).replace(
                    "SHOWN", SHOWN.strip()), setup,
                drive=(USE % kind).replace("SHOWN", SHOWN.strip()),
                like="trlc", contracts=("*.create_parser",
                                        "*.update_common_root"),
                raising=("*.create_parser",))
    equiv(ctx, "registered", "Source_Manager.create_parser",
          "Source_Manager.create_parser", PARSER, like="trlc",
          contracts=("*.__init__",))


# --------------------------------------------------------------------------
# directories
# --------------------------------------------------------------------------
DIRECTORY = """
def drive(self, dir_name, dirs):
    rv = self.register_directory(dir_name)
    return [rv, dirs]
"""
INCLUDE = """
def drive(self, dir_name, dirs):
    self.register_include(dir_name)
    return [self.includes, dirs]
"""
FILES = ("d.trlc", "b.rsl", "c.txt", "a.trlc", "rsl", "e.rsl.bak")


def expected(dirs, patterns, ordered):
    """which directories are entered"""
    rv = ["    left = []"]
    for d in sorted(dirs) if ordered else dirs:
        rv.append("    if not (%s):" % " or ".join(
            ["%s.match(%r)" % (p, d) for p in patterns] or ["False"]))
        rv.append("        left.append(%r)" % d)
    return rv


def directories(ctx):
    for nd, npat in itertools.product((0, 1, 2, 3), (0, 1, 2)):
        dirs = ["y", "x", "z"][:nd]
        pats = ["p%d" % i for i in range(npat)]
        for second in (False, True):
            def setup(ip, st):
                st, d = closed(st, "dirs", [const(x) for x in dirs])
                st, f = closed(st, "files", [const(x) for x in FILES])
                st, d2 = closed(st, "dirs2", [])
                st, f2 = closed(st, "files2", [const("f.rsl")])
                st, ps = closed(st, "patterns", [S(p) for p in pats])
                for x in pats:
                    st = st._upd("types", S(x), frozenset(["Pattern"]))
                st = st.set_attr(ME, "exclude_patterns", ps)
                st, inc = dictionary(st, "includes", [const("k")],
                                     [S("v")])
                return st.set_attr(ME, "includes", inc)
            walk = [mk("tuple", S("path"), obj("list", "dirs"),
                       obj("list", "files"))]
            if second:
                walk.append(mk("tuple", S("path2"), obj("list", "dirs2"),
                               obj("list", "files2")))
            args = {p: S(p) for p in pats}
            args["dirs"] = obj("list", "dirs")
            args["path"], args["path2"] = S("path"), S("path2")
            head = "def spec(self, dir_name, path, path2, %s):" % \
                ", ".join(pats or ["unused"])
            label = "%u sub-directories, %u patterns%s" % (
                nd, npat, ", a second directory" if second else "")
            src = [head, "    ok = True"]
            for f in sorted(FILES):
                if f.endswith((".rsl", ".trlc")):
                    src.append("    ok &= self.register_file("
                               "os.path.join(path, %r))" % f)
            if second:
                src.append("    ok &= self.register_file("
                           "os.path.join(path2, 'f.rsl'))")
            src += expected(dirs, pats, True) + ["    return [ok, left]"]
            equiv(ctx, "directory", "register_directory (%s)" % label,
                  "Source_Manager.register_directory",
                  "\n".join(src) + "\n", setup, args, drive=DIRECTORY,
                  like="trlc", contracts=("*.register_file",),
                  logged=("*.register_file",), exact=True,
                  ext={"os.walk": mk("tuple", *walk)})
            src = [head, "    inc = self.includes"]
            for f in FILES:
                if f.endswith((".rsl", ".trlc")):
                    src.append("    inc[os.path.abspath(os.path.join(path, "
                               "%r))] = os.path.join(path, %r)" % (f, f))
            if second:
                src.append("    inc[os.path.abspath(os.path.join(path2, "
                           "'f.rsl'))] = os.path.join(path2, 'f.rsl')")
            src += expected(dirs, pats, False) + ["    return [inc, left]"]
            equiv(ctx, "directory", "register_include (%s)" % label,
                  "Source_Manager.register_include",
                  "\n".join(src) + "\n", setup, args, drive=INCLUDE,
                  like="trlc", exact=True,
                  ext={"os.walk": mk("tuple", *walk)})

# --------------------------------------------------------------------------
# the command line
# --------------------------------------------------------------------------
MAIN = """
def count(parsed, total, what):
    text = str(parsed)
    if parsed < total:
        text = text + " (of " + str(total) + ")"
    text = text + " " + what
    if total != 1:
        text = text + "s"
    return text

def spec(options, %s all_rsl, read_rsl, all_trlc, read_trlc):
    if options.version:
        print(TRLC_VERSION)
        sys.exit(0)
    if options.verify and not VCG_API_AVAILABLE:
        sys.exit(2)
    log = [None, None]
    if options.log:
        log = [options.log[0], None]
        if len(options.log) > 1:
            log = [options.log[0], options.log[1]]
    mh = Message_Handler(options.brief, not options.no_detailed_info, None,
                         log[1], log[0])
    if options.no_user_warnings:
        mh.suppress(Kind.USER_WARNING)
    sm = Source_Manager(mh, not options.no_lint, not options.skip_trlc_files,
                        options.verify, options.debug_vcg,
                        not options.no_error_recovery)
    if not options.include_bazel_dirs:
        sm.exclude_patterns.append(re.compile("^bazel-.*$"))
    for d in options.include_dirs:
        if not os.path.isdir(d):
            sys.exit(2)
    for d in options.include_dirs:
        sm.register_include(d)
    ok = True
    for f in options.items:
        if not (os.path.isdir(f) or os.path.isfile(f)):
            sys.exit(2)
    for f in options.items:
        if os.path.isdir(f):
            ok &= sm.register_directory(f)
        else:
            try:
                ok &= sm.register_file(f)
            except TRLC_Error:
                ok = False
    if not options.items:
        ok &= sm.register_directory(".")
    if not ok:
        mh.close()
        return 1
    if sm.process() is None:
        ok = False
    text = "Processed " + count(read_rsl, all_rsl, "model")
    if not options.skip_trlc_files:
        text = text + " and " + count(read_trlc, all_trlc,
                                      "requirement file")
    text = text + " and found"
    if mh.warnings and mh.errors:
        text = text + " " + count(mh.warnings, mh.warnings, "warning") + \
            " and " + count(mh.errors, mh.errors, "error")
    elif mh.warnings:
        text = text + " " + count(mh.warnings, mh.warnings, "warning")
    elif mh.errors:
        text = text + " " + count(mh.errors, mh.errors, "error")
    else:
        text = text + " no issues"
    if mh.suppressed:
        text = text + " with " + str(mh.suppressed) + " supressed messages"
    print(text, file=mh.out)
    if options.show_file_list and ok:
        pass
%s
    mh.close()
    if not ok or mh.errors or (options.error_on_warnings and mh.warnings):
        return 1
    return 0
"""
FLAGS = ("no_lint", "skip_trlc_files", "verify", "include_bazel_dirs",
         "brief", "no_detailed_info", "no_user_warnings",
         "no_error_recovery", "show_file_list", "error_on_warnings",
         "debug_dump", "debug_api_dump", "debug_vcg", "version")


#: option -> (name in the reference, keywords which must be there)
OPTIONS = {"--" + f.replace("_", "-"): (f, {"action": "store_true"})
           for f in FLAGS}
OPTIONS["-I"] = ("include_dirs", {"action": "append", "default": ()})
OPTIONS["--log"] = ("log", {"nargs": "+"})
OPTIONS["items"] = ("items", {"nargs": "*"})


class OptionsClient(EqClient):
    """which options are declared"""

    def on_ext(self, ip, st, name, recv, args, kw, node):
        if name in ("argparse.ArgumentParser", ".add_argument_group"):
            return [("ret", st, S("ap"))]
        if name == ".add_argument":
            names = tuple(a.a[1] if a.tag == "const" else None
                          for a in args)
            ks = {}
            for k, v in kw.items():
                v = ip.norm(st, v)
                items = ip.closed_items(st, v)
                ks[k] = v.a[1] if v.tag == "const" else \
                    () if items is not None and not items else v
            self.found.append((names, ks, node))
            return [("ret", st, NONE)]
        if name == ".parse_args":
            return [("exit", st, const(0))]
        return super().on_ext(ip, st, name, recv, args, kw, node)


def declared(ctx):
    """every option of the manual, under the name the program uses"""
    dests = {d: d for d, _ in OPTIONS.values()}
    fi = ctx.func("trlc:trlc")
    c = OptionsClient(messages=False)
    c.found = []
    try:
        Interp(ctx.m, c).run(fi, {}, State()._upd(
            "types", S("ap"), frozenset(["ArgumentParser"])))
    except (Undecided, Budget) as e:
        ctx.undecided("option", "the declared options", str(e))
        return dests
    for o, (d, need) in OPTIONS.items():
        hit = [(names, ks, n) for names, ks, n in c.found if o in names]
        if not hit:
            if any(None in names for names, _, _ in c.found) or \
                    len(c.found) < 5:
                ctx.undecided("option", o, "declarations not recognised")
            else:
                ctx.violation("option", o, fi.loc(), "the option %s is not declared" % o)
            continue
        names, ks, n = hit[-1]
        where = fi.loc(n)
        ks = {k: v for k, v in ks.items() if k not in ("help", "metavar")}
        dest = ks.pop("dest", None) or [
            x for x in names if x[:2] == "--"] or names
        dests[d] = dest if isinstance(dest, str) else \
            dest[0].lstrip("-").replace("-", "_")
        if ks.get("action") == "store":
            del ks["action"]
        if not ks.get("default", 1) and ks["default"] != ():
            del ks["default"]
        if ks.get("required") is False:
            del ks["required"]
        if ks == need:
            ctx.ok("option", o)
        elif any(isinstance(v, V) for v in ks.values()):
            ctx.undecided("option", o, "declaration not recognised")
        else:
            ctx.violation("option", o, where, "the option %s is declared "
                          "with %s, not with %s" % (o, ks, need))
    return dests


def command(ctx):
    dests = declared(ctx)
    opts = S("options")
    sm, mh = obj("Source_Manager", "sm"), obj("Message_Handler", "mh")

    def usage(ip, st, recv, args, kw, node):
        return [("exit", st, const(2))]

    def world(label, flags=(), items=("d",), dirs=(), log=None,
              rsl=(1,), trlc=(1, 1), counts=(0, 1, 0)):
        """rsl, trlc: 1 read, 0 not read"""
        def setup(ip, st):
            for f in FLAGS:
                st = st.set_attr(opts, dests[f], const(f in flags))
            for n, v in (("items", items), ("include_dirs", dirs)):
                st, l = closed(st, n, [S(x) for x in v])
                st = st.set_attr(opts, dests[n], l)
            l = NONE
            if log is not None:
                st, l = closed(st, "log", [S("log%d" % i)
                                           for i in range(log)])
            st = st.set_attr(opts, dests["log"], l)
            for n, v in (("rsl", rsl), ("trlc", trlc)):
                ps = [obj("Parser", "%s%d" % (n, i)) for i in range(len(v))]
                for p, r in zip(ps, v):
                    st = st._upd("types", mk("attr", mk("attr", mk(
                        "attr", p, "cu", 0), "package", 0), "name", 0),
                        frozenset(["str"]))
                    st = st.set_attr(p, "primary", const(r == 1))
                    st = st.set_attr(p, "secondary", const(r == 2))
                st, d = dictionary(st, n + "_files", [
                    const("%s%d" % (n, i)) for i in range(len(v))], ps)
                st = st.set_attr(sm, n + "_files", d)
            st, l = closed(st, "patterns", [])
            st = st.set_attr(sm, "exclude_patterns", l)
            for c, n in zip(("errors", "warnings", "suppressed"), counts):
                st = st.set_attr(mh, c, const(n))
            return st._upd("types", S("ap"), frozenset(["ArgumentParser"]))
        args = {"options": opts}
        listed = []
        for n, v, what in (("rsl", rsl, "Model"),
                           ("trlc", trlc, "Requirements")):
            for i, r in enumerate(v):
                f = "%s%d" % (n, i)
                args[f] = obj("Parser", f)
                if n == "rsl" or "skip_trlc_files" not in flags:
                    listed.append(
                        "        print('> %s %s %s (Package ' + %s.cu."
                        "package.name + ')', file=mh.out)" % (
                            ("[Excluded]", "[Primary] ", "[Included]")[r],
                            what, f, f))
            args["all_" + n] = const(len(v))
            args["read_" + n] = const(len([x for x in v if x]))
        calls = ("*.register_include", "*.register_directory",
                 "*.register_file", "*.process", "*.suppress", "*.close")
        equiv(ctx, "command", "trlc (%s)" % label, "trlc:trlc", MAIN % (
                  "".join(a + ", " for a in args if a[:3] in (
                      "rsl", "trl")), "\n".join(listed)), setup, args, like="trlc", texts=True, exact=True, logged=calls,
              contracts=calls + ("*.__init__",), raising=("*.register_file",),
              shared=[sm, mh, obj("list", "patterns")],
              instances={"Source_Manager": sm, "Message_Handler": mh},
              ext={"argparse.ArgumentParser": S("ap"),
                   ".add_argument_group": S("ap"), ".add_argument": NONE,
                   ".parse_args": opts, ".error": usage})
    world("no options")
    for f in FLAGS:
        if f not in ("debug_dump", "debug_api_dump"):
            world("--" + f.replace("_", "-"), (f,))
    for counts in itertools.product((0, 1, 2), (0, 1, 2), (0, 1, 3)):
        for flags in ((), ("error_on_warnings",)):
            world("%u errors, %u warnings, %u suppressed%s" % (
                counts + (", --error-on-warnings" if flags else "",)),
                flags, counts=counts)
    world("no file", items=())
    world("--show-file-list --skip-trlc-files", ("show_file_list",
                                                 "skip_trlc_files"))
    world("--show-file-list, three kinds of files", ("show_file_list",),
          rsl=(1, 0, 2), trlc=(0, 2, 1))
    world("two files", items=("d", "e"))
    world("-I", dirs=("i",))
    world("-I twice", dirs=("i", "j"))
    world("--log file", log=1)
    world("--log file prefix", log=2)
    for rsl in ((), (1,), (0,), (1, 2), (1, 0)):
        for trlc in ((), (2,), (2, 1, 0)):
            world("%u models, %u requirement files" % (len(rsl), len(trlc)),
                  rsl=rsl, trlc=trlc)


STORED = """
def spec(self, mh, lint_mode, parse_trlc, verify_mode, debug_vcg,
         error_recovery):
    self.mh = mh
    mh.sm = self
    self.stab = Symbol_Table.create_global_table(mh)
    self.includes = {}
    self.rsl_files = {}
    self.trlc_files = {}
    self.all_files = {}
    self.dep_graph = {}
    self.files_with_preamble_errors = set()
    self.lint_mode = lint_mode
    self.parse_trlc = parse_trlc
    self.verify_mode = verify_mode
    self.debug_vcg = debug_vcg
    self.error_recovery = error_recovery
    self.exclude_patterns = []
    self.common_root = None
"""
PARSER_STORED = """
def spec(self, mh, stab, file_name, lint_mode, error_recovery, primary_file,
         lexer):
    self.primary = primary_file
    self.secondary = False
    self.stab = stab
    self.lint_mode = lint_mode
    self.error_recovery = error_recovery
"""


def stored(ctx):
    equiv(ctx, "stored", "Source_Manager.__init__",
          "Source_Manager.__init__", STORED, like="ast", only=True,
          exact=True, contracts=("*.create_global_table",))
    equiv(ctx, "stored", "Parser.__init__", "Parser.__init__",
          PARSER_STORED, like="parser", only=True, exact=True,
          contracts=("Parser_Base.__init__", "*.get_all_keywords",
                     "*.lookup_assuming", "*.push",
                     "Compilation_Unit.__init__"),
          types=[(S("lexer"), ["Token_Stream"])])


# --------------------------------------------------------------------------
# stages (C07)
# --------------------------------------------------------------------------
PROCESS = """
def spec(self):
    self.callback_parse_begin()
    self.progress_current = 0
    linter = None
    ok = True
    if not self.build_graph():
        ok = False
    if not self.parse_rsl_files():
        ok = False
    if not ok and not self.error_recovery:
        self.callback_parse_end()
        return None
    if ok and self.lint_mode:
        linter = lint.Linter(mh=self.mh, stab=self.stab,
                             verify_checks=self.verify_mode,
                             debug_vcg=self.debug_vcg)
        if not linter.perform_sanity_checks():
            ok = False
    if self.parse_trlc:
        if not self.parse_trlc_files():
            self.callback_parse_end()
            return None
        if not self.resolve_record_references():
            self.callback_parse_end()
            return None
        if ok:
            if not self.perform_checks():
                ok = False
            elif self.lint_mode:
                linter.verify_imports()
    self.callback_parse_end()
    if ok:
        return self.stab
    return None
"""
EVERY = {"resolve_record_references": """
def spec(self, objs):
    ok = True
    for o in objs:
        try:
            o.resolve_references(self.mh)
        except TRLC_Error:
            ok = False
    return ok
""", "perform_checks": """
def spec(self, objs):
    ok = True
    for o in objs:
        try:
            if not o.perform_checks(self.mh, self.stab):
                ok = False
        except TRLC_Error:
            ok = False
    return ok
"""}


def stages(ctx):
    calls = tuple("*." + n for n in (
        "callback_parse_begin", "callback_parse_end", "build_graph",
        "parse_rsl_files", "parse_trlc_files", "resolve_record_references",
        "perform_checks", "perform_sanity_checks", "verify_imports"))

    equiv(ctx, "sequence", "Source_Manager.process",
          "Source_Manager.process", PROCESS, like="trlc", contracts=calls,
          logged=calls, truthy=True, instances={"Linter": S("linter")},
          types=[(mk("attr", ME, n, 0), ["bool"]) for n in (
              "lint_mode", "parse_trlc", "error_recovery", "verify_mode")])
    for sizes in ((), (1,), (2,), (1, 1), (0, 2), (2, 1)):
        for fn in sorted(EVERY):
            stab = mk("attr", ME, "stab", 0)
            pkgs, objs, ret, ty = [], [], {}, []
            for i, n in enumerate(sizes):
                p = S("package%d" % i)
                o = [S("object%d%d" % (i, j)) for j in range(n)]
                pkgs.append(p)
                objs += o
                ty += [(p, ["Package"])] + [(x, ["Record_Object"])
                                            for x in o]
                ret[("values", mk("attr", p, "symbols", 0))] = \
                    mk("tuple", *o)
            ret[("values", stab)] = mk("tuple", *pkgs)
            ty.append((stab, ["Symbol_Table"]))
            for p in pkgs:
                ty.append((mk("attr", p, "symbols", 0), ["Symbol_Table"]))
            own = "*.resolve_references" if fn[0] == "r" else \
                "Record_Object.perform_checks"
            equiv(ctx, "sequence", "Source_Manager.%s (%s objects)" % (
                fn, "+".join(map(str, sizes)) or "no"),
                "Source_Manager." + fn, EVERY[fn], like="trlc",
                args={"objs": mk("tuple", *objs)}, types=ty, returns=ret,
                truthy=True,
                contracts=(own,), raising=(own,), logged=(own,))


def c22(ctx):
    stored(ctx)
    command(ctx)
    registration(ctx)
    directories(ctx)
    needed(ctx)


CHECKS = {"C22": c22}
EXPLAIN = {
    "C22": "The source manager and the command line program are interpreted "
    "abstractly for families of registered files, directory contents and "
    "options; on every path the files which are processed, their order, the "
    "summary and the exit code are compared with those of a reference, which "
    "for the needed files is computed from the import graph."}
RULES = {
    "C22": ["needed: exactly the primary files and the files they need "
            "(directly or not) are parsed, types in the order of imports "
            "(all import graphs of up to three packages)",
            "registered: by extension, once, no longer as an included file",
            "directory: all files of the directories which are not excluded",
            "command: the effect of every option, the summary and the exit "
            "code",
            "option: every documented option is declared",
            "stored: the options reach the source manager and the parsers"]}
