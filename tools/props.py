"""The properties, in one place; `gen.py` writes properties.jsonl and
MANIFEST.json from it."""

PROPS = []


def P(pid, title, statement, over, text, why, files, mech, technique, note,
      state=None, observe=None, na=None):
    PROPS.append(dict(
        id=pid, title=title, statement=statement, over=over, text=text,
        why=why, files=files, mech=mech, technique=technique, note=note,
        state=state or [], observe=observe or [], na=na))


P("C01", "Null operands are reported, never computed with",
  "Whenever an expression is evaluated and an operand it evaluates turns out "
  "to be null - of a unary or binary operator (other than == and !=), a range "
  "test, a condition of a conditional expression, a oneof choice, a "
  "quantifier's source or body, the prefix of a field access, or a check "
  "itself - the evaluation ends in a reported error. It never yields a value, "
  "passes silently or crashes, whether the expression stands in a check or in "
  "a constant.",
  ["inputs", "programs"],
  "every operator and expression form, every operand position, every operand "
  "value, constant and non-constant context",
  "The tests hold a handful of null operands at top level; the rule is about "
  "each position of each operator and the lazy combinations.",
  ["trlc/ast.py"],
  [("value classes and null tests in evaluate()",
    "trlc/ast.py: *_Expression.evaluate, Check.perform")],
  "path-sensitive abstract interpretation of evaluate() with each operand "
  "pinned to null",
  "Decides every operator x operand position over all abstract paths of the "
  "evaluation code; trusts the engine's model of Python and of re/fractions.")

P("C02", "Every operator computes its documented value",
  "The value of an expression is the one the language reference manual gives "
  "for its operator and operands: logic, comparison, string, array "
  "membership, arithmetic, conversion, range, conditional, oneof, quantifier, "
  "field access and literal. Numbers are exact (integers and fractions): "
  "integer division rounds down, the remainder takes the sign of the dividend "
  "and conversion to Integer rounds half away from zero.",
  ["inputs", "programs"],
  "all operators and all operand values of every permitted type combination",
  "Golden files sample a few operand values per operator; a wrong sign, "
  "boundary or type combination needs values nobody wrote down.",
  ["trlc/ast.py", "trlc/math.py"],
  [("one branch per operator", "trlc/ast.py: *_Expression.evaluate"),
   ("remainder", "trlc/math.py: remainder")],
  "abstract interpretation of evaluate(); result terms normalised and compared "
  "with a per-operator specification",
  "Each path's result term must normalise to the specified one under the "
  "path's facts; terms outside the known vocabulary are reported as "
  "undecided, not as violations.")

P("C03", "Only operands that matter are evaluated, in the right environment",
  "and, or, implies, conditional and quantified expressions evaluate exactly "
  "the operands needed: the right operand only if the left one did not "
  "decide, only the chosen branch, array elements until the result is fixed. "
  "Every sub-expression is evaluated against the record values of the check "
  "being performed, with each quantified variable bound to the current "
  "element.",
  ["inputs", "programs"],
  "all truth values of conditions, branches and element results, nested "
  "quantifiers",
  "A guard such as 'x != null and x > 0' only works if the right side is not "
  "evaluated; tests exercise few of the combinations.",
  ["trlc/ast.py"],
  [("lazy branches", "trlc/ast.py: Binary_Expression, Conditional_Expression, "
    "Quantified_Expression .evaluate"),
   ("context dictionary", "trlc/ast.py: Quantified_Expression.evaluate")],
  "event-trace abstract interpretation: child evaluations per path against "
  "the laziness table",
  "Covers all truth combinations for up to three arms/elements; deeper "
  "sequences are covered by the loop's uniform body only.")

P("C04", "Partial operations report exactly their undefined cases",
  "Division and remainder by zero and indexing outside an array never crash "
  "and never produce a value: they are reported as errors. Conversely every defined case (all nonzero divisors, "
  "every index from 0 to length-1) yields its value without an error.",
  ["inputs"],
  "all divisor and index values, both numeric types",
  "The boundary values (index = length, negative index) need one specific "
  "number in each case; tests use a few.",
  ["trlc/ast.py"],
  [("guards in Binary_Expression.evaluate",
    "trlc/ast.py: Binary_Expression.evaluate")],
  "abstract interpretation with linear and nonzero facts: guard "
  "implication in both directions",
  "Facts of every returning path must imply definedness, and the facts of "
  "every error path must not be compatible with a defined case.")

P("C05", "Evaluating checks and reading results changes nothing",
  "Evaluating expressions and checks, and converting records to Python "
  "objects or text, does not modify any record, type, symbol table or "
  "message configuration. Results therefore do not depend on the order or "
  "number of times checks are performed or results are read.",
  ["inputs", "histories"],
  "all orders and repetitions of evaluation and query calls",
  "A test performs each check once, in one order.",
  ["trlc/ast.py"],
  [("query methods without side effects", "trlc/ast.py")],
  "interprocedural effect and freshness analysis over the call graph "
  "closure of evaluation and query functions",
  "A write to anything not allocated in the call (directly or through "
  "callees) is a violation; pure memoisation is recognised.")

P("C06", "The exit status tells whether the run succeeded",
  "The command line tool exits with status 0 exactly when every input could "
  "be registered, processing succeeded and no error was reported, and with "
  "--error-on-warnings no warning either; otherwise it exits nonzero. Every "
  "error, warning and check message reported is counted once under its kind, "
  "and is printed unless its kind is suppressed.",
  ["inputs", "configurations"],
  "all combinations of options, stage results and numbers of messages",
  "Scripts gate on the exit status; the tests pin down a few runs, mostly "
  "those with messages on the way to a fatal error.",
  ["trlc/trlc.py", "trlc/errors.py"],
  [("status computation", "trlc/trlc.py: trlc, main"),
   ("message counters", "trlc/errors.py: Message_Handler")],
  "path-sensitive abstract interpretation of the entry point and the "
  "reporting methods with failures tracked in a typestate",
  "All paths of trlc() and main() over symbolic options; argparse and json "
  "are trusted, interface methods of Source_Manager are replaced by all "
  "their possible results.")

P("C07", "A failure in any file or stage fails the whole run",
  "Processing yields a symbol table only if every file was parsed, every "
  "reference resolved, every check performed and every sanity check done, "
  "and none of these steps failed. A failure in one file, record or type is "
  "never forgotten because later ones succeed, and user-defined checks "
  "only run when all stages before them succeeded.",
  ["inputs", "histories"],
  "all combinations of success and failure of all steps, any number of files "
  "and records, all modes",
  "A lost failure needs a good file after a bad one, or a stage that fails "
  "alone; tests have few such combinations.",
  ["trlc/trlc.py", "trlc/parser.py", "trlc/ast.py", "trlc/lint.py"],
  [("stage sequence", "trlc/trlc.py: Source_Manager.process"),
   ("accumulated results", "trlc/trlc.py: Source_Manager.parse_*_files, "
    "resolve_record_references, perform_checks")],
  "abstract interpretation with step results forked and failure carried in "
  "the typestate through loops",
  "13 aggregating functions and process() in 8 modes; the number of "
  "iterations is unbounded (fixpoint).")

P("C09", "Expressions are accepted exactly when their operands fit",
  "For every operator, builtin function, range test, oneof, quantifier body, "
  "conditional and field access the combinations of operand types which the "
  "reference manual permits are accepted, and every other combination "
  "(including a literal null) is rejected with an error located in the "
  "source; none crashes the tool. The exponent of a power and the pattern "
  "of matches() are static: a negative exponent or an invalid regular "
  "expression is rejected, any other is accepted.",
  ["inputs"],
  "all operators and all combinations of builtin, enumeration, tuple, "
  "record (equal, extending, unrelated), union and array types",
  "There are thousands of combinations; the tests have a few dozen, almost "
  "all of them between builtin types.",
  ["trlc/ast.py"],
  [("operand type rules", "trlc/ast.py: __init__ of the Expression "
    "subclasses, Expression.ensure_type")],
  "abstract interpretation of every expression constructor for every "
  "combination of abstract operand types, compared with the manual's table",
  "The types are symbolic objects of which only class, identity, element "
  "type, members and extension relation are fixed; String against "
  "Markup_String array elements and record/union array elements are left "
  "open as the manual does not decide them.")

P("C08", "The parser accepts exactly the documented grammar",
  "Every declaration, field, expression and value that follows the grammar "
  "of the language reference manual is parsed; everything else is rejected "
  "with an error at a token of the input. No required token is skipped, no "
  "extra one swallowed, and each list, option and alternative is read as "
  "the manual writes it.",
  ["inputs"],
  "all token sequences of any length for every construct, in both file "
  "kinds and all parser modes",
  "Tests parse a few hundred files; the grammar describes infinitely many "
  "token sequences and most mistakes only show on an unusual one.",
  ["trlc/parser.py"],
  [("one function per production", "trlc/parser.py: Parser.parse_*"),
   ("token primitives", "trlc/parser.py: Parser_Base.match, peek, advance")],
  "abstract interpretation of every parsing function in product with the "
  "automaton of its production; nested productions by contract",
  "Semantic errors may stop a parse anywhere; the trailing comma the parser "
  "permits in array values and argument lists is a known finding.")

P("C11", "Parsing always makes progress and survives any truncation",
  "However a file is damaged, cut off or empty, parsing ends with a result "
  "or a located error: no loop of the parser repeats without reading a "
  "token, and no token is used before checking that there is one.",
  ["inputs"],
  "all token sequences of any length, including every truncation",
  "A truncation or a wrong token can occur at every position; tests try "
  "few and a hang or crash needs one specific position.",
  ["trlc/parser.py"],
  [("parser loops", "trlc/parser.py: while loops of Parser"),
   ("end of file", "trlc/parser.py: uses of self.nt and self.ct")],
  "abstract interpretation of every parsing function: a loop iteration that "
  "consumed nothing or a use of an absent token is a violation",
  "Recursion depth (deeply nested expressions) is not bounded by this.")

P("C10", "Expressions are grouped and understood as the grammar says",
  "Parsing an expression yields the tree its text describes: each operator "
  "sign becomes that operator, its operands are the ones written left and "
  "right of it grouped by the grammar's precedence and left to right, range "
  "bounds, quantifier, branches, field names and call arguments keep their "
  "places, and nothing written is dropped. Names in it mean what the "
  "enclosing scope declares.",
  ["inputs"],
  "all expressions of every form and length",
  "Wrong grouping or exchanged operands only show for particular operator "
  "sequences with particular values; tests contain few.",
  ["trlc/parser.py"],
  [("tree construction", "trlc/parser.py: Parser.parse_expression .. "
    "parse_primary, parse_quantified_expression, parse_builtin"),
   ("builtin table", "trlc/ast.py: Symbol_Table.create_global_table")],
  "abstract interpretation with a list of unused operands and tokens in the "
  "state; role check at every node construction, linearity of everything "
  "read",
  "Builtin calls are analysed for up to three arguments; nested productions "
  "by contract.")

P("C12", "Declarations and values are stored exactly as written",
  "Every type, component, enumeration literal, check, section, record, "
  "reference and component value in a file is stored under the name, with "
  "the description, type, flags (optional, abstract, final), bounds, "
  "severity, message, anchor and parent which the file gives, and in the "
  "package or type it is declared in. Nothing written is lost, given to "
  "another entity or invented.",
  ["inputs"],
  "all declarations, records and values of every form and length",
  "Each attribute of each construct is a separate place to lose or mix up "
  "information; the golden files show only some.",
  ["trlc/parser.py"],
  [("construction and registration", "trlc/parser.py: "
    "Parser.parse_*_declaration, parse_check_block, parse_value, "
    "parse_record_object_declaration; Markup_Parser")],
  "abstract interpretation with a list of unused tokens and parts in the "
  "state; role check at every construction, registration and assignment, "
  "linearity of everything read",
  "Tuple values are analysed for the component sequences listed in DESIGN.md; "
  "the values of tokens are the lexer's.")

P("C13", "Records are complete, valid and never overwritten",
  "In every accepted file each record has a concrete type, each component "
  "has exactly one value: the one given, the one frozen by the nearest "
  "ancestor, or null if and only if it is optional; a frozen or already "
  "given component cannot be set. Array values respect their bounds, "
  "enumeration values belong to the component's type, and a reference "
  "denotes the record of that name in that package, of the declared type or "
  "an extension of it. Records which satisfy this are not rejected.",
  ["inputs"],
  "all records of all types, inheritance depths, components and values",
  "Which rule is broken depends on combinations of inheritance, freezing, "
  "optionality and order; tests have one or two of each.",
  ["trlc/parser.py", "trlc/ast.py"],
  [("record rules", "trlc/parser.py: Parser.parse_record_object_declaration, "
    "Parser.parse_value"),
   ("storage and type relations", "trlc/ast.py: Record_Object.assign, "
    "Record_Reference.resolve_references, Record_Type.is_frozen, "
    "is_subclass_of, Union_Type.is_compatible")],
  "path-sensitive abstract interpretation of the parsing functions along the "
  "grammar with each rule evaluated symbolically where a record is built; "
  "symbolic equivalence of the helper methods with reference functions",
  "Two symbolic components stand for all components; ancestor chains of up "
  "to two, unions of up to three members.")

P("C14", "Packages can be used only where they are imported",
  "A name of another package - of a type, an enumeration, a record, in a "
  "value, a markup string or an expression - is accepted if and only if that "
  "package is the file's own or is imported by it. Every import is resolved "
  "to the package of exactly that name; importing oneself is an error, "
  "importing twice a warning.",
  ["inputs"],
  "all files, import lists and places where a qualified name may stand",
  "Each kind of qualified name has its own visibility test; tests try few of "
  "them with a package that exists but is not imported.",
  ["trlc/parser.py", "trlc/ast.py"],
  [("visibility tests", "trlc/parser.py: Parser.parse_qualified_name, "
    "Parser.parse_value, Markup_Parser.parse_qualified_name"),
   ("imports", "trlc/ast.py: Compilation_Unit.add_import, resolve_imports, "
    "is_visible")],
  "path-sensitive abstract interpretation: on every path which yields an "
  "entity of a package the package has been found visible; symbolic "
  "equivalence of the import list operations with reference functions",
  "Import lists of up to two entries.")

P("C15", "Declarations which break the rules are rejected, others accepted",
  "An accepted file has no new component in a final type or an extension of "
  "one, no component frozen twice, no empty enumeration, no optional tuple "
  "field without separators, at the start, or followed by a mandatory one, "
  "no tuple with separators directly inside another, no type twice in a "
  "union, no check which is not Boolean or whose message has several lines, "
  "and no union member, parent or record type that is not a record type. "
  "Declarations which satisfy this are not rejected for such a reason.",
  ["inputs"],
  "all type, tuple, enumeration, union and check declarations of any length",
  "Each rule has an unusual combination (inherited finality, freezing in an "
  "ancestor, third member of a union) the tests do not contain.",
  ["trlc/parser.py"],
  [("declaration rules", "trlc/parser.py: Parser.parse_record_declaration, "
    "parse_enum_declaration, parse_tuple_declaration, parse_tuple_field, "
    "parse_union_type, parse_check_block")],
  "path-sensitive abstract interpretation of the parsing functions along the "
  "grammar, with each rule evaluated symbolically in the state of every path "
  "which builds or registers what the rule governs",
  "Unions are analysed for up to three members, other lists for any length.")

P("C16", "A name denotes exactly the entity declared under it",
  "Looking up a name yields the entity declared under exactly that name in "
  "the nearest enclosing scope which has it, provided it is of the kind "
  "required, and otherwise ends in an error. A declaration is rejected if "
  "and only if a visible entity already has a name equal to it ignoring case "
  "and underscores.",
  ["inputs"],
  "all names, tables, enclosing and imported scopes",
  "Names which differ only in case or underscores, or are hidden by another "
  "scope, are rare in tests.",
  ["trlc/ast.py"],
  [("symbol tables", "trlc/ast.py: Symbol_Table.register, lookup, "
    "lookup_direct, lookup_assuming, contains, simplified_name"),
   ("scopes", "trlc/ast.py: Scope.contains, Scope.lookup")],
  "symbolic equivalence of each method with a reference function, path by "
  "path, by abstract interpretation",
  "Tables with up to two parents or one import, scopes of up to three "
  "tables; the spelling suggestions in messages are not compared.")
P("C17", "Checks are applied to every value they are declared for",
  "A record is checked by the checks of its type and of all ancestor types, "
  "ancestors first, after the checks of the tuple types of its components, "
  "of nested tuple fields and of every array element; a failing check which "
  "is not fatal never keeps a later one from being evaluated. A check which "
  "evaluates to false is reported exactly once, with its declared severity, "
  "message and explanation at the location of its anchor (or of the value "
  "itself), and one which evaluates to true is silent. The result is failure "
  "if and only if a check which is not a warning failed.",
  ["inputs"],
  "all values, all combinations of failing checks, inheritance depths",
  "A test sees one combination of failing and passing checks; which check is "
  "skipped depends on the results of the others.",
  ["trlc/ast.py"],
  [("a check", "trlc/ast.py: Check.perform, get_real_location"),
   ("distribution", "trlc/ast.py: Record_Object.perform_checks, "
    "Tuple_Type/Array_Type.perform_type_checks, iter_checks")],
  "symbolic equivalence of each method with a reference function, path by "
  "path, by abstract interpretation",
  "Up to two components, checks and ancestors and three array elements; "
  "nesting by induction over the type.")
P("C18", "The Python API shows exactly what the source says",
  "The Python value of a literal, array, tuple, reference or signed number "
  "corresponds to its kind: None, int, float, str, bool, literal name, list, "
  "dictionary, qualified name of the target; the dictionary of a record has "
  "every component. Iterating over records yields every record of every "
  "package once, in order, and iteration by section also yields each file and "
  "each section once, before its first record and with its level. The list of "
  "all components of a type has those of its ancestors first.",
  ["inputs"],
  "all values, record collections and section structures",
  "Tests convert a few small values; order and completeness over many "
  "packages and nested sections are not sampled.",
  ["trlc/ast.py"],
  [("values", "trlc/ast.py: to_python_object, to_python_dict, "
    "fully_qualified_name"),
   ("iteration", "trlc/ast.py: Symbol_Table.iter_record_objects, "
    "iter_record_objects_by_section, Record_Type.all_components")],
  "symbolic equivalence of each method with a reference function, path by "
  "path, by abstract interpretation",
  "Collections of up to three entities, two records with up to two sections, "
  "arrays and dictionaries of up to two elements.")
P("C19", "A file is split into exactly the tokens of the language",
  "The text of a file (and of a Markup_String) is split into the longest "
  "possible tokens of the manual: identifiers, keywords, operators, "
  "punctuation, integers, decimals, strings, comments, reference lists; text "
  "which is no token is an error, and nothing else is. Each token has the "
  "kind, the exact value (digits without underscores in their base, strings "
  "without quotes and escapes, triple-quoted lines without trailing white "
  "space) and the place of its text, also inside strings. Lexing always "
  "comes to the end of the text without a crash, and comments never reach "
  "the parser.",
  ["inputs"],
  "all texts, character by character",
  "A test lexes a few dozen texts; the states of the lexer times the "
  "characters which can follow, and the end of the text in each of them, "
  "are not sampled.",
  ["trlc/lexer.py", "trlc/nested.py", "trlc/parser.py"],
  [("lexer", "trlc/lexer.py: TRLC_Lexer.token, Lexer_Base.advance, "
    "Token_Stream.token, triple_quoted_string_value"),
   ("markup", "trlc/parser.py: Markup_Lexer.token, trlc/nested.py: "
    "Nested_Lexer.source_location"),
   ("comments", "trlc/parser.py: Parser_Base.advance")],
  "abstract interpretation of the lexers over classes of characters, in "
  "product with a reference automaton",
  "All texts; of triple-quoted strings up to three lines, without the "
  "computation of the length of the common indentation.")
P("C20", "Lint checks are reported exactly where and when they apply",
  "With linting on (and no errors) these are reported at the place they are "
  "about, and only there: an abstract type no concrete type extends; an array "
  "type with impossible bounds, upper bound 0 or 1; a tuple separator x or b "
  "after an Integer component; a union with one member or with a type and its "
  "subtype; an import of a package never named again in the file; a type not "
  "marked final with a final parent; a sign before a binary expression "
  "without brackets; a field which only some members of a union have. Every "
  "type a package declares or a component uses, directly or as an array "
  "element, union member or tuple field, is looked at exactly once, and the "
  "imports of a file are reported in the order of their names. With linting "
  "off none of them is reported.",
  ["inputs"],
  "all type hierarchies, bounds, separators, unions, imports and expressions",
  "Tests have one example per lint check; which types are reached, and "
  "that nothing else is reported, depends on how the declarations combine.",
  ["trlc/lint.py", "trlc/parser.py"],
  [("linter", "trlc/lint.py: Linter.perform_sanity_checks, verify_type, "
    "verify_imports"),
   ("checks of the parser", "trlc/parser.py: parse_record_declaration, "
    "parse_simple_expression, parse_name")],
  "abstract interpretation of the whole linter over families of "
  "declarations, compared path by path with a reference; guard analysis of "
  "the parser's checks along the grammar",
  "Hierarchies of up to three types, tuples of up to three components, "
  "unions of up to three members, files of up to two imports.")
P("C21", "Messages show the right text, place and source line",
  "Every message has the form file[:line[:column]]: [trlc ]kind: text "
  "[category], with the prefix of paths removed if asked for; unless brief "
  "it is printed under the line the place is in, without its indentation, "
  "with carets under exactly the characters of the place (up to the end of "
  "the line), followed by the explanation, line by line and indented. Every "
  "error, warning and check is counted and has its kind, suppressed kinds "
  "are counted and not shown, and a fatal error is raised with place, kind "
  "and text whether shown or not. The end of a place, the text of a place "
  "and references to other files name the right file, line and column.",
  ["inputs"],
  "all messages, all options, all places in all texts",
  "Tests compare outputs of examples; places at the first and last "
  "character, at line ends, in indented lines, and combinations of options "
  "are not sampled.",
  ["trlc/errors.py", "trlc/lexer.py", "trlc/trlc.py"],
  [("messages", "trlc/errors.py: Message_Handler.emit, error, warning, "
    "check, lex_error, suppress; Location.to_string"),
   ("places", "trlc/lexer.py: Source_Reference.context_lines, "
    "get_end_location, text"),
   ("references", "trlc/trlc.py: Source_Manager.cross_file_reference")],
  "abstract interpretation over a normal form of texts, compared path by "
  "path with a reference",
  "Texts of up to four characters for places, explanations of up to two "
  "lines.")
P("C22", "Exactly the files asked for or needed are processed, in order",
  "The types and objects of exactly the files named on the command line (or "
  "found in named directories which are not excluded), and of the files of "
  "include directories that these need, directly or through imports, are "
  "processed; types after those of all imported packages, ties by name, "
  "objects in the order of the file names, and circular imports are an "
  "error. Every option has its documented effect, and names which are no "
  "file or directory are rejected before anything is processed. The summary "
  "counts what was read and found, and the exit code is 0 if and only if "
  "there is no error (with --error-on-warnings: and no warning).",
  ["inputs"],
  "all sets of files, import graphs, directory contents and options",
  "Tests run a few dozen command lines; combinations of options, include "
  "paths and import graphs are not sampled, and the order of processing is "
  "rarely visible.",
  ["trlc/trlc.py"],
  [("needed files", "trlc/trlc.py: Source_Manager.build_graph, "
    "parse_rsl_files, parse_trlc_files"),
   ("registration", "trlc/trlc.py: Source_Manager.register_directory, "
    "register_include, register_file"),
   ("command line", "trlc/trlc.py: trlc")],
  "abstract interpretation of the source manager and the program over "
  "families of files and options, compared path by path with a reference",
  "All import graphs of three packages, three sub-directories and two "
  "patterns, two positional arguments, each option alone.")
P("C23", "--verify asks for exactly the conditions of the language",
  "With --verify, every record and tuple type is translated once: its own "
  "and its inherited checks in the documented two phases, where only fatal "
  "checks add knowledge. On every path through a check, every operand that "
  "may be null, every divisor and every array index has a condition in "
  "front of its use, under exactly the path conditions of evaluation (short "
  "circuit, branches, quantifier bodies); every operator maps to its "
  "counterpart, and types and components are declared before they are used "
  "with the constraints the language puts on their values (array bounds, "
  "checks and null fields of tuples, frozen values). Each condition which cannot "
  "be shown is reported once, at its expression; an own check which is "
  "always true is reported. The counter-example shown with it names every "
  "component of the type in order, with the value the solver found written as "
  "the language writes it, or says that it is null or unknown.",
  ["inputs"],
  "all types, checks, expressions and paths through them",
  "Tests compare reports for some sixty types; a missing condition or an "
  "assumption too many only shows for the expression and path concerned.",
  ["trlc/vcg.py"],
  [("conditions", "trlc/vcg.py: VCG.attach_validity_check, "
    "attach_int_division_check, attach_real_division_check, "
    "attach_index_check"),
   ("paths", "trlc/vcg.py: VCG.tr_op_and, tr_op_or, tr_op_implication, "
    "tr_conditional_expression, tr_quantified_expression"),
   ("declarations", "trlc/vcg.py: VCG.tr_type, tr_component_decl, "
    "emit_tuple_constraints"),
   ("report", "trlc/vcg.py: VCG.checks_on_composite_type"),
   ("counter-example", "trlc/vcg.py: VCG.create_counterexample, "
    "VCG.value_to_trlc")],
  "abstract interpretation of the translation into a graph of conditions, "
  "whose paths are compared with those of a reference",
  "One level of translation (operands are arbitrary), quantifiers over "
  "arrays, branches with up to two elsif, up to three verification "
  "conditions. The solver and decimal fractions in a counter-example are not covered.")


P("C24", "The same input always gives the same output",
  "What the tool reports and writes depends only on the files and options it "
  "is given: not on the hash seed, the order in which the operating system "
  "lists a directory, the clock, chance, the environment, addresses of "
  "objects, or what another Source_Manager did earlier in the same process. "
  "Whenever members of a set or of a directory listing are reported, joined "
  "in a text, numbered, parsed one after the other or one of them is chosen, "
  "they are sorted first by something which tells them apart; containers "
  "that belong to a module, a class or the default of a parameter are never "
  "changed.",
  ["histories", "inputs"],
  "all functions, hash seeds, directory orders and earlier runs in the same "
  "process",
  "Tests run with one hash seed, one file system and (mostly) in one fresh "
  "process; an order that happens to be right there is not an order.",
  ["trlc/trlc.py", "trlc/lint.py", "trlc/ast.py", "trlc/errors.py",
   "trlc/lexer.py", "trlc/parser.py", "trlc/vcg.py"],
  [("sorting", "trlc/trlc.py: Source_Manager.register_directory, "
    "build_graph, parse_rsl_files, parse_trlc_files"),
   ("reports", "trlc/lint.py: Linter.verify_imports"),
   ("tables", "trlc/lexer.py: TRLC_Lexer.PUNCTUATION, Token.KIND")],
  "flow analysis with summaries (parameters, results, attributes) of values "
  "without order, and an effect analysis of shared objects",
  "Path-insensitive; unique sort keys are recognised by their form only. The "
  "solver, argparse and the file system itself are outside.")

P("C25", "The verdicts of --verify are true",
  "If --verify reports nothing for a condition, no values of the components "
  "satisfying the declarations violate it; if it reports one, the "
  "counter-example it shows does.",
  ["inputs"], "all types and checks",
  "Only the solver knows all values.",
  ["trlc/vcg.py"],
  [("solver", "trlc/vcg.py: VCG.checks_on_composite_type (PyVCG, CVC5)"),
   ("example", "trlc/vcg.py: VCG.create_counterexample, value_to_trlc")],
  "", "",
  na="The verdict is computed by an SMT solver at run time; what its formulas "
  "say is decided by C23, but whether the solver answers (and answers right) "
  "depends on runtime values that no static argument about this code bounds.")

P("C26", "Large or deeply nested input is processed without crashing",
  "The tool ends with its own messages for input of any size: deeply nested "
  "expressions, long chains of extensions or imports, large arrays and "
  "numbers.",
  ["inputs"], "all sizes and nesting depths",
  "Tests use small files.",
  ["trlc/parser.py", "trlc/ast.py"],
  [("recursion", "trlc/parser.py: Parser.parse_expression and below"),
   ("numbers", "trlc/ast.py: Binary_Expression.evaluate (power)")],
  "", "",
  na="The parser, the evaluator and the printers are recursive by design, so "
  "the depth of Python's stack (and memory) is a runtime quantity of the "
  "input; no bound on it can be derived from the source.")
