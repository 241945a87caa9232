"""C21: what a message shows, and where it points to."""
from sa.base import *          # noqa
from sa.equiv import equiv
from rules.core import attrs, closed, S, ME

TEXT = """
def spec(self, include_column):
    text = self.file_name
    if self.line_no:
        text = text + ":" + str(self.line_no)
        if self.col_no and include_column:
            text = text + ":" + str(self.col_no)
    return text
"""
EMIT = """
def spec(self, location, kind, message, fatal, extrainfo, category,
         context, notes):
    lines = location.context_lines()
    if self.brief:
        where = location.to_string(True)
    else:
        where = location.to_string(len(lines) == 0)
    if self.strip_prefix and where.startswith(self.strip_prefix):
        where = where[len(self.strip_prefix):]
    if self.brief:
        text = where + ": trlc " + str(kind) + ": " + message
    else:
        text = where + ": " + str(kind) + ": " + message
    if category:
        text = text + " [" + category + "]"
    if kind in self.suppress_kind:
        self.suppressed += 1
    else:
        indent = 0
        if not self.brief and len(lines) == 2:
            print(lines[0].replace("\\t", " "), file=self.out)
            print(lines[1].replace("\\t", " ") + " " + text, file=self.out)
            indent = len(lines[1]) - 1
        else:
            print(text, file=self.out)
        if not self.brief and self.show_details and extrainfo:
            for n in extrainfo.splitlines():
                print(" " * indent + "| " + n.rstrip(), file=self.out)
    if fatal:
        raise TRLC_Error(location, kind, message)
"""


def emit(ctx):
    loc, extra = S("location"), S("extrainfo")
    for brief in (True, False):
        for nctx in (0, 2):
            for notes in (None, 0, 1, 2):
                lines = op("call.context_lines", loc)
                ctxl = mk("tuple", *[S("context%d" % i)
                                     for i in range(nctx)])

                def setup(ip, st):
                    st = st.set_attr(ME, "brief", const(brief))
                    for n in ("message", "extrainfo", "category"):
                        st = st._upd("types", S(n), frozenset(
                            ["str"] + (["NoneType"] if n != "message" else [])))
                    return st
                args = {"extrainfo": NONE if notes is None else extra}
                equiv(ctx, "text", "Message_Handler.emit (%s, %s, %s)" % (
                    "brief" if brief else "with context", "no source line"
                    if not nctx else "a source line",
                    "no explanation" if notes is None else
                    "%u lines of explanation" % notes),
                    "Message_Handler.emit", EMIT, setup, args,
                    contracts=("*.to_string",), like="errors",
                    types=[(loc, ["Location"]), (S("kind"), ["Kind"])],
                    returns={("context_lines", loc): ctxl},
                    items={op(".splitlines", extra):
                           [S("note%d" % i) for i in range(notes or 0)]},
                    texts=True)

#: the line around the first character of a text, without indentation, and
#: carets under the characters of it
CONTEXT = """
def spec(self):
    start = self.start_pos
    begin = start
    while begin > 0 and self.lexer.content[begin - 1] != "\\n":
        begin -= 1
    end = start + 1
    while end < self.lexer.length and self.lexer.content[end] != "\\n":
        end += 1
    if self.lexer.content[start] == "\\n":
        begin = start + 1
        if begin == end:
            line = ""
        else:
            line = self.lexer.content[begin:end]
    else:
        line = self.lexer.content[begin:end]
    inner = line.lstrip()
    return [inner,
            " " * (start - begin - len(line) + len(inner)) +
            "^" * min(self.end_pos + 1 - start, end - start)]
"""
END = """
def spec(self):
    text = self.lexer.content
    lines = 0
    col = 1
    for i in range(self.end_pos + 1):
        if text[i] == "\\n":
            col = 0
            if i >= self.start_pos:
                lines += 1
        if i < self.end_pos:
            col += 1
    return Location(self.file_name, self.line_no + lines, max(col, 1))
"""
COVERED = """
def spec(self):
    text = ""
    for i in range(self.start_pos, self.end_pos + 1):
        text = text + self.lexer.content[i]
    return text
"""


def source(ctx, n):
    """all texts of n characters, all places in them"""
    cs = [S("character%d" % i) for i in range(n)]
    content = op("cat", *cs) if n > 1 else cs[0]
    for a in range(n):
        for b in range(a, n):
            def setup(ip, st):
                lx = mk("attr", ME, "lexer", 0)
                for k, x, v in ((ME, "start_pos", const(a)),
                                (ME, "end_pos", const(b)),
                                (lx, "content", content),
                                (lx, "length", const(n))):
                    st = st.set_attr(k, x, v)
                st = st._upd("types", mk("attr", ME, "line_no", 0),
                             frozenset(["int"]))
                # places begin with a token
                st = st._upd("truth", op(".isspace", cs[a]), False)
                return ip.assume_eq(st, cs[a], const("\n"), False)
            for q, spec in (("context_lines", CONTEXT),
                            ("get_end_location", END),
                            ("text", COVERED)):
                equiv(ctx, "source", "Source_Reference.%s (characters %u to "
                      "%u of %u)" % (q, a, b, n), "Source_Reference." + q,
                      spec, setup, like="lexer", texts=True, chars=cs,
                      linear=True)

REPORT = {
    "error": """
def spec(self, location, message, explanation, fatal, user):
    self.errors += 1
    if user:
        kind = Kind.USER_ERROR
    else:
        kind = Kind.SYS_ERROR
    self.emit(location, kind, message, fatal, explanation)
""",
    "warning": """
def spec(self, location, message, explanation, user):
    self.warnings += 1
    if user:
        kind = Kind.USER_WARNING
    else:
        kind = Kind.SYS_WARNING
    self.emit(location, kind, message, False, explanation)
""",
    "check": """
def spec(self, location, message, check, explanation):
    self.warnings += 1
    self.emit(location, Kind.SYS_CHECK, message, False, explanation, check)
""",
    "lex_error": """
def spec(self, location, message):
    self.errors += 1
    self.emit(location, Kind.SYS_ERROR, message)
""",
    "suppress": """
def spec(self, kind):
    self.suppress_kind.add(kind)
"""}
KINDS = {"SYS_ERROR": "error", "SYS_CHECK": "issue",
         "SYS_WARNING": "warning", "USER_ERROR": "check error",
         "USER_WARNING": "check warning"}
KIND = """
def spec(self):
    return "%s"
"""
CROSS = """
def spec(self, location):
    if self.sm is None:
        return location.to_string(False)
    return self.sm.cross_file_reference(location)
"""
CROSS_SM = """
def spec(self, location):
    if self.common_root is None:
        return location.to_string(False)
    path = os.path.relpath(location.file_name, self.common_root)
    if location.line_no is None:
        return path
    return path + ":" + str(location.line_no)
"""
MAKE = {
    "Location": ("errors", """
def spec(self, file_name, line_no, col_no):
    self.file_name = file_name
    self.line_no = line_no
    self.col_no = col_no
"""),
    "Source_Reference": ("lexer", """
def spec(self, lexer, start_line, start_col, start_pos, end_pos):
    self.file_name = lexer.file_name
    self.line_no = start_line
    self.col_no = start_col
    self.lexer = lexer
    self.start_pos = start_pos
    self.end_pos = end_pos
"""),
    "TRLC_Error": ("errors", """
def spec(self, location, kind, message):
    self.location = location
    self.kind = kind
    self.message = message
"""),
    "Message_Handler": ("errors", """
def spec(self, brief, detailed_info, out, strip_prefix, out_path):
    self.brief = brief
    self.show_details = detailed_info
    self.strip_prefix = strip_prefix
    self.warnings = 0
    self.errors = 0
    self.suppressed = 0
    self.sm = None
    self.suppress_kind = set()
    if out_path is not None:
        f = open(out_path, "w", encoding="UTF-8")
        self.out = f
    elif out is not None:
        self.out = out
    else:
        self.out = sys.stdout
""")}


def reports(ctx):
    for name, spec in REPORT.items():
        equiv(ctx, "report", "Message_Handler." + name,
              "Message_Handler." + name, spec, like="errors",
              types=[(S("location"), ["Location"])],
              contracts=("*.emit",), logged=("*.emit",),
              raising=("*.emit",))
    for k, text in KINDS.items():
        def setup(ip, st):
            e = [x for x in ip.m.enums["Kind"] if x == k]
            return ip.assume_eq(st, ME, mk("enum", "Kind", k), True)
        equiv(ctx, "kind", "Kind.__str__ (%s)" % k, "Kind.__str__",
              KIND % text, args={"self": mk("enum", "Kind", k)},
              like="errors")
    for q, spec in (("Message_Handler", CROSS),
                    ("Source_Manager", CROSS_SM)):
        equiv(ctx, "place", q + ".cross_file_reference",
              q + ".cross_file_reference", spec, like="trlc", texts=True,
              contracts=("*.to_string",) + (() if q[0] == "S" else (
                  "Source_Manager.cross_file_reference",)),
              types=[(S("location"), ["Location"]),
                     (mk("attr", ME, "sm", 0), ["Source_Manager", "NoneType"])])
    for c, (like, spec) in MAKE.items():
        equiv(ctx, "stored", c + ".__init__", c + ".__init__", spec,
              like=like, only=True)
    equiv(ctx, "place", "Location.get_end_location",
          "Location.get_end_location", "def spec(self):\n    return self\n",
          like="errors")
    equiv(ctx, "place", "Location.context_lines", "Location.context_lines",
          "def spec(self):\n    return []\n", like="errors")


def c21(ctx):
    reports(ctx)
    for n in (1, 2, 3, 4):
        source(ctx, n)
    equiv(ctx, "place", "Location.to_string", "Location.to_string", TEXT,
          like="errors", texts=True)
    emit(ctx)


CHECKS = {"C21": c21}
EXPLAIN = {
    "C21": "The message handler and the locations are interpreted "
    "abstractly; what is printed, counted and raised on every path is "
    "compared with a reference as a text built from the same parts. The "
    "computations on the text of a file are interpreted for all texts of up "
    "to four characters, and all places in them, character by character."}
RULES = {
    "C21": ["text: what a message shows, for all options",
            "report: the kind, the counters, and whether it is fatal",
            "kind: the name of each kind of message",
            "place: file, line and column; references between files",
            "source: the line and the carets under the characters, the end "
            "of a place, and its text",
            "stored: places, tokens and errors keep what they are made of"]}
