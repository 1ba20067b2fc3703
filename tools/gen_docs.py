"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="exploration", observe=None, state=None):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
        technique=technique, note=note, level=level, observe=observe, state=state))


U = "pyudunits2/_unit.py"
S = "pyudunits2/_unit_system.py"
G = "pyudunits2/_grammar/__init__.py"
X = "pyudunits2/_udunits2_xml_parser.py"
E = "pyudunits2/_expr/"
BASE = "Held on the executions produced, which are random with a reported seed; nothing is claimed beyond them. "

prop("C01", "Unit text means what the published grammar says",
     "Every text is read exactly as the published UDUNITS-2 grammar reads it: a sentence of the grammar gives the expression the grammar assigns to it (operator precedence and associativity, juxtaposition, exponents, logarithms, shifts, dates), and any other text is refused with SyntaxError. Nothing of the text is dropped, added or misread.",
     ["inputs"], "all texts over the characters of the grammar and others",
     "The tests list about 150 texts; the language is infinite and its ambiguities (numbers next to identifiers, signs, exponents, dates after a shift) only appear in combinations.",
     [G, "pyudunits2/_grammar/udunits2Lexer.g4.jinja", "pyudunits2/_grammar/udunits2Parser.g4", E + "graph.py"],
     [("generated ALL(*) lexer and parser", "pyudunits2/_grammar/parser"), ("visitor from parse tree to graph", G + ": UnitParseVisitor"), ("error listener raising SyntaxError", G + ": SyntaxErrorRaiser")],
     "runtime monitoring: differential oracle (independent grammar interpreter) over generated texts",
     BASE + "Trusts mon/g4.py and the frozen copy of the grammar.", observe=["pyudunits2._grammar.parse"])
prop("C02", "The generated lexer and parser agree with the shipped grammar files",
     "The shipped lexer and parser tokenise and parse every text as the grammar files shipped next to them specify: same tokens, same parse tree, same refusals. Regenerating or editing one without the other is a defect.",
     ["inputs"], "all texts, against the grammar files of the same tree",
     "No test compares the serialized automata with the grammar files; a stale or edited automaton is visible on particular texts only.",
     ["pyudunits2/_grammar/parser/udunits2Lexer.py", "pyudunits2/_grammar/parser/udunits2Parser.py", "pyudunits2/_grammar/_antlr4_runtime"],
     [("serialized automata", "pyudunits2/_grammar/parser"), ("vendored ANTLR runtime", "pyudunits2/_grammar/_antlr4_runtime")],
     "runtime monitoring: token and parse-tree events compared with an interpreter of the shipped grammar",
     BASE + "Both sides come from the working tree, so an intended grammar change passes.", observe=["token stream and tree of the generated parser"])
prop("C03", "The canonical text of an expression reads back as the same expression",
     "The text that normalisation or printing of a unit gives is itself accepted, denotes the same expression as the original text, and is a fixed point of normalisation.",
     ["inputs"], "all accepted texts",
     "Bracketing and spelling errors in printed text only show for particular nestings (a quotient inside a quotient, a power of a product, signs, logarithms in products); tests print a few dozen.",
     [E + "graph.py", G, U], [("printing with brackets by precedence", E + "graph.py: __str__"), ("normalize", G + ": normalize")],
     "runtime monitoring: round-trip monitor with fingerprints of the expression over a prime field",
     BASE + "One known finding: shift-mode-identifiers.", observe=["normalize(), str(Unit)"])
prop("C04", "Different spellings of one expression mean the same unit",
     "All spellings the notation offers for one expression (multiplication signs, blanks, 'per', '^' or '**' or superscripts, '@'/'from'/'since', brackets, letter case of keywords, number notations, outer blanks) give the same expression and the same unit.",
     ["inputs"], "all expressions and all combinations of spellings",
     "Tests try each spelling once and alone; confusions arise where two spellings meet.",
     [G, "pyudunits2/_grammar/udunits2Lexer.g4.jinja"], [("token handlers", G + ": UnitParseVisitor.TERM_HANDLERS"), ("superscript exponents", G + ": handle_UNICODE_EXPONENT")],
     "runtime monitoring: metamorphic monitor over random spellings of generated expressions", BASE.strip(), observe=["parse(), UnitSystem.unit()"])
prop("C05", "Parsing is total, bounded and repeatable",
     "For any text, parsing ends with an expression or SyntaxError, and looking up a unit additionally only with the documented refusals, never with an internal error. The outcome depends on nothing but the text (not on what was parsed before), and the work stays proportional to a modest function of its length.",
     ["inputs", "histories"], "all texts up to the stated sizes, after any history of other parses",
     "The tests feed well-formed text or a handful of errors, each once in one order; the parser keeps learned state between calls.",
     [G, "pyudunits2/_grammar/_antlr4_runtime", S], [("shared prediction cache", "pyudunits2/_grammar/_antlr4_runtime/atn/ParserATNSimulator.py"), ("error conversion", G + ": SyntaxErrorRaiser")],
     "runtime monitoring: outcome classifier, replay in several orders, and call-count budgets for parsing and for looking up via sys.setprofile",
     BASE + "Sizes: bracket depth under 25, texts under 300 characters, except for numbers beyond the limits of int and Decimal, which are only classified.", observe=["parse(), UnitSystem.unit()"])
prop("C06", "Every unit of the shipped database is available with its UDUNITS-2 value",
     "Every name, plural, symbol and alias of the UDUNITS-2 database denotes a unit with the dimensionality, scale, offset or logarithm that the database defines, and values convert accordingly to and from its basis units.",
     ["inputs", "configurations"], "all names of the database (exhaustively) and all values",
     "The tests use a few dozen of about 900 names.",
     [X, S, "pyudunits2/udunits2_combined.xml"], [("XML reader", X + ": UDUNITS2XMLParser.parse_file"), ("lazy definitions", S + ": LazilyDefinedUnit"), ("lookup", S + ": UnitSystem.unit_by_name_or_symbol")],
     "runtime monitoring: exhaustive name sweep against an independent exact evaluator of the database",
     "All names of the frozen database are visited on every run; values are sampled. One known finding: digit-names.", observe=["UnitSystem.unit(), Converter.convert()"])
prop("C07", "Names resolve exactly first, then with exactly one, the longest, prefix",
     "A name denotes the registered unit of exactly that name if there is one; otherwise one prefix times a registered unit (prefix names before prefix symbols, the longest prefix first); otherwise the request is refused with UnresolvableUnitException. A prefixed unit is the prefix's value times the unit, whatever the spelling of the two.",
     ["inputs"], "all words, in particular all prefix-unit combinations and ambiguous splits",
     "There are about 40 prefixes times 900 names; ambiguities (mm, Pa, min, dau, kkg) occur for particular pairs only.",
     [S, "pyudunits2/_unit_reference.py"], [("lookup with prefixes", S + ": UnitSystem.unit_by_name_or_symbol"), ("prefix values", "pyudunits2/_unit_reference.py: Prefix")],
     "runtime monitoring: reference resolver over the frozen database", BASE.strip(), observe=["UnitSystem.unit()"])
prop("C08", "Registering units: duplicates refused, replacement, precedence, isolation",
     "Registering a unit under a primary name, plural or symbol that is taken is refused with ValueError and changes nothing, unless replacement is asked for, in which case it takes over all its names; names win over symbols and primary names over aliases; two unit systems never influence each other.",
     ["histories"], "all histories of registrations of prefixes and units, interleaved over several systems and with lookups",
     "The tests register one or two units; precedence and atomicity need histories of colliding registrations.",
     [S], [("registration", S + ": UnitSystem.add_unit / add_prefix"), ("lookup order", S + ": UnitSystem._unit_by_name / _unit_by_symbol")],
     "runtime monitoring: recorded histories checked against a sequential model", BASE.strip(), observe=["add_unit, add_prefix, unit_by_name_or_symbol"])
prop("C09", "Looking units up changes nothing and order does not matter",
     "What a text denotes, and how values convert, does not depend on which units were looked up, compared or converted before, in which order, or whether some of those requests failed; lookups leave no new names behind.",
     ["histories"], "all orders of lookups and uses over all sets of unit texts",
     "Definitions are resolved lazily and cached on first use, and tests share one system in one fixed order.",
     [S, U], [("lazy resolution", S + ": LazilyDefinedUnit.resolve"), ("cached symbolic definitions", U + ": Unit._symbolic_definition")],
     "runtime monitoring: replay of random histories against fresh systems", BASE.strip(), observe=["UnitSystem.unit(), Converter"])
prop("C10", "One unit system can be used by several threads",
     "Threads that share a unit system, and do not modify it, get for every lookup, parse, comparison and conversion the result they would get alone, under every interleaving.",
     ["schedules"], "all interleavings of up to four threads on shared units, from cold and warm caches",
     "The tests use one thread.",
     [S, U, G, "pyudunits2/_grammar/_antlr4_runtime"], [("lazy resolution", S + ": LazilyDefinedUnit.resolve"), ("cached symbolic definitions", U), ("shared parser prediction cache", "pyudunits2/_grammar/_antlr4_runtime")],
     "runtime monitoring: concurrent sessions with injected yields, results compared with a process of one thread, and detection of sessions which wait for each other",
     BASE + "Interleavings are produced by random yields between source lines under CPython's global lock.", observe=["every public call"])
prop("C11", "Dimensionality follows the algebra of products, quotients and powers",
     "The dimensionality of a unit is the sum, difference or multiple of the dimensionalities of its parts, with cancelled basis units absent; offsets, factors and logarithms do not change it; dimensionless and time units are recognised exactly from it.",
     ["inputs"], "all unit expressions",
     "Tests state a handful of dimensionalities; cancellation, zero powers and nested definitions occur in combinations.",
     [E + "dimensionality.py", U], [("counting visitor", E + "dimensionality.py"), ("mapping type", U + ": Dimensionality"), ("predicates", U + ": Unit.is_dimensionless / is_time_unit")],
     "runtime monitoring: algebraic oracle over recorded dimensionalities", BASE.strip(), observe=["Unit.dimensionality(), is_dimensionless(), is_time_unit()"])
prop("C12", "Units are convertible exactly if dimensions are equal or reciprocal",
     "Two units are convertible exactly if their dimensionalities are equal or exact inverses and neither is a date unit; the question is symmetric, and a converter can be built exactly if the answer is yes, otherwise IncompatibleUnitsError is raised.",
     ["inputs"], "all pairs of units",
     "Tests ask about a few pairs; coherence of the three answers is never compared.",
     [U], [("decision", U + ": Unit.is_convertible_to"), ("construction", U + ": Converter.__init__")],
     "runtime monitoring: coherence monitor over random pairs", BASE.strip(), observe=["is_convertible_to, Converter"])
prop("C13", "Conversions between linear units have the exact factor",
     "Converting a value between units of equal dimensions multiplies it by the ratio of their exact definitions, to the rounding of floating point; dimensionless basis units such as the radian do not influence values.",
     ["inputs"], "all pairs of commensurable linear units and all values",
     "The tests convert a few dozen pairs with round numbers.",
     [U, E + "split.py", E + "sympy.py"], [("building the expression", U + ": Converter.__init__"), ("symbolic definitions", E + "split.py, " + E + "sympy.py")],
     "runtime monitoring: exact rational reference model", BASE + "Relative tolerance 1e-12.", observe=["Converter.convert()"])
prop("C14", "Conversions between reciprocal units invert the value",
     "Converting between units with inverse dimensions (for example s to Hz, m/s to s/km) gives the reciprocal of the value, scaled by the exact factors of both units, also when offsets or numeric factors are present.",
     ["inputs"], "all pairs of units with exactly inverse dimensions and all non-zero values",
     "The tests cover two such pairs.",
     [U], [("inverted branch", U + ": Converter.__init__")],
     "runtime monitoring: exact rational reference model", BASE + "Relative tolerance 1e-12.", observe=["Converter.convert()"])
prop("C15", "Offset units convert affinely; offsets count only when outermost",
     "Units with an offset (temperatures, or any unit with a shift) convert by the exact affine map between them; shifts of shifts add up, and inside products, quotients and powers an offset unit counts as an interval, without its offset.",
     ["inputs"], "all pairs of units with at least one offset",
     "The tests use Celsius, Fahrenheit and Kelvin; other offsets, nesting and mixtures are untested.",
     [U, E + "split.py"], [("shift handling", E + "split.py: SplitExpr.visit_Shift, merge_shifts"), ("solving for the value", U + ": Converter.__init__")],
     "runtime monitoring: exact affine reference model", BASE + "Relative tolerance 1e-12 of the largest term.", observe=["Converter.convert()"])
prop("C16", "Logarithmic units convert through their base and reference",
     "A value in a logarithmic unit is the logarithm, to the base the notation says (lg/log 10, ln e, lb 2), of the quantity over the reference; conversions to, from and between logarithmic units, nested ones included, follow that meaning.",
     ["inputs"], "all pairs of units with at least one logarithm",
     "The tests cover three logarithmic conversions.",
     [U, E + "split.py", E + "sympy.py"], [("value transformation", E + "split.py: SplitExpr.visit_Logarithm"), ("bases", E + "sympy.py: ToSympy.visit_Logarithm")],
     "runtime monitoring: 60-digit reference model",
     BASE + "Two known findings (scaled-log, log-ref-offset); observations must equal their exact effect to be attributed to them.", observe=["Converter.convert()"])
prop("C17", "Conversions compose: identity, round trip, transitivity",
     "Converting to the same unit gives the value back, converting there and back gives the value back, and converting through a third unit gives the same as converting directly.",
     ["inputs"], "all triples of mutually convertible units of any kind, all values where the steps are defined",
     "No test composes conversions.",
     [U], [("conversion", U + ": Converter")],
     "runtime monitoring: algebraic laws over recorded conversions", BASE + "Independent of any model of the database; tolerance from measured sensitivity.", observe=["Converter.convert()"])
prop("C18", "Arrays convert element by element, leaving the input alone",
     "Converting an array gives an array of the same shape whose elements are the conversions of its elements, for every numeric element type, layout and mask; the input is never modified and integers never wrap around.",
     ["inputs"], "all converters times all arrays and numeric scalars",
     "The tests convert one float array; integer types, extremes, layouts, masks and empty arrays are untested.",
     [U], [("convert", U + ": Converter.convert")],
     "runtime monitoring: element-wise oracle and input snapshots", BASE.strip(), observe=["Converter.convert()"])
prop("C19", "The published conversion expression is the conversion",
     "The expression a converter publishes has the value as its only variable and evaluates, also from its text, to what the converter computes.",
     ["inputs"], "all converters and values",
     "The tests compare a few expressions with literal text.",
     [U, "pyudunits2/__main__.py"], [("expression attribute", U + ": Converter.expression"), ("compiled function", U + ": Converter._converter")],
     "runtime monitoring: independent evaluator of the expression and its text", BASE.strip(), observe=["Converter.expression, Converter.convert()"])
prop("C20", "Equality of units is sameness of exact meaning",
     "Two units are equal exactly if their definitions have the same exact meaning, however they are written and whichever system they come from; equality is reflexive and symmetric, != is its negation, and units that differ in a single factor, exponent, offset or logarithm are unequal.",
     ["inputs"], "all pairs of units",
     "Tests compare a few pairs; wrong equality needs near misses and deep definitions.",
     [U], [("equality", U + ": Unit.__eq__")],
     "runtime monitoring: exact reference model over equal pairs and near misses, also between systems of which one definition differs", BASE.strip(), observe=["Unit.__eq__, __ne__"])
prop("C21", "The expanded text holds basis units only and means the same",
     "Expanding a unit gives text in which only basis units and numbers remain, which denotes the same unit exactly, expands to itself, and leaves the unit unchanged.",
     ["inputs"], "all unit expressions and all database units",
     "The tests expand about ten units.",
     [U, E + "substitute.py", E + "graph.py"], [("expansion", U + ": Unit.expanded"), ("substitution", E + "substitute.py")],
     "runtime monitoring: exact reference model over the expanded text", BASE.strip(), observe=["Unit.expanded()"])
prop("C22", "Date units are recognised, kept verbatim, and never converted",
     "A time unit with an outermost reference point (for example 'days since 2000-01-01') is a date unit that keeps its unit and its reference as written; other shifts are offsets; dates nested inside other expressions are refused; conversions from or to date units are refused.",
     ["inputs"], "all time and other units, all references of the grammar, all positions",
     "Tests use a few literal dates at the top level.",
     [U, E + "normaliser.py", S], [("recognition", U + ": _unit_from_expression_and_identifiers"), ("refusal of nested dates", E + "normaliser.py")],
     "runtime monitoring: classification oracle over the frozen database", BASE.strip(), observe=["UnitSystem.unit(), DateUnit, Converter"])
prop("C23", "Value types: equality, hashing, text and immutability agree",
     "Dates, times, expression nodes and references are equal exactly if their fields are (the original text of a date aside), equal values have equal hashes, the text of a time gives its fields back, and no field can be assigned.",
     ["inputs"], "all values of these types and pairs that differ in one field",
     "Tests compare two dates; consistency with hashing and near misses are not covered.",
     ["pyudunits2/_datetime.py", E + "graph.py", "pyudunits2/_unit_reference.py"], [("frozen records", "pyudunits2/_datetime.py, " + E + "graph.py, pyudunits2/_unit_reference.py")],
     "runtime monitoring: contract monitors (==, hash, str, assignment) over near-equal families", BASE.strip(), observe=["==, hash, str, setattr"])
prop("C24", "Using units changes nothing; each question has one answer",
     "Asking a unit, a dimensionality or a converter anything (text, expansion, predicates, comparison, conversion, also requests that fail) never changes the answer to this or another question, and never modifies the values passed in.",
     ["histories", "inputs"], "all sequences of questions over shared units and converters",
     "Each test asks fresh objects once.",
     [U, S], [("caches", U + ": Unit._symbolic_definition"), ("shared dictionaries", E + "dimensionality.py, " + U + ": Dimensionality")],
     "runtime monitoring: history recorder with first-answer and untouched-twin oracles", BASE.strip(), observe=["every public method"])
prop("C25", "An interrupted operation leaves units and systems usable",
     "If any operation is interrupted at any point by KeyboardInterrupt or a lack of memory, the interruption surfaces, and repeating the operation and using related units afterwards gives the same results as if nothing had happened.",
     ["fault_sequences", "crash_points"], "all operations times all lines of pyudunits2 they execute",
     "No test injects a fault; half-filled caches only exist between two lines.",
     [U, S, E, X], [("caches are filled by one assignment", S + ": LazilyDefinedUnit.resolve, " + U), ("checks before writes", S + ": UnitSystem.add_unit")],
     "runtime monitoring: fault injection at traced lines, results compared with undisturbed runs",
     "quick samples the injection points, thorough enumerates them for each listed operation. An interrupted replacement is only claimed to be completed by repeating it.", level="fault_enumeration", observe=["every public call"])
prop("C26", "The command line tool reports what the library computes",
     "For every command line, conversion-expr prints an expression that converts exactly, or says that it is impossible and exits with status 1; explain-unit prints the unit, an equivalent expansion and its dimensionality; debug-parser lists every token; anything else is refused with a non-zero status.",
     ["inputs"], "all command lines over all units",
     "Tests run three command lines.",
     ["pyudunits2/__main__.py", G], [("handlers", "pyudunits2/__main__.py"), ("token listing", G + ": _debug_tokens")],
     "runtime monitoring: output parsed back and judged by independent evaluator and lexer", BASE + "'convert' is not implemented upstream and not claimed.", observe=["standard output, exit status"])
prop("C27", "Unit databases are read faithfully",
     "Loading a unit database document gives exactly the prefixes, units, plurals, symbols, aliases and definitions in it, whatever its namespace, encoding, comments, white space and order of definitions; duplicate names and documents that are not well-formed are refused, and the strict reader also refuses content outside the format: unknown elements, and stray text in names and prefixes.",
     ["inputs", "configurations"], "all database documents of the UDUNITS-2 structure",
     "The tests read the shipped file and a few fragments.",
     [X, S], [("reader", X + ": UDUNITS2XMLParser"), ("strict reader", X + ": UnhandledContentDisallowed")],
     "runtime monitoring: independent reader and sequential model over generated documents", BASE.strip(), observe=["parse_file, UnitSystem.unit()"])
prop("C28", "The same answers in every process and environment",
     "Every answer (text, expansion, dimensionality, comparison, conversion, refusal) is the same in every process, whatever its hash seed, optimisation flags, locale, time zone, decimal context, garbage collection, warning filters, import order or earlier use.",
     ["configurations"], "all combinations of process settings over random programs",
     "Tests run in one process configuration.",
     [U, S, X, E + "split.py"], [("order-independent choices", S + ": _longest_first"), ("no dependence on assert statements, locale or decimal context", X + ", " + E + "split.py")],
     "runtime monitoring: cross-process differential recording", BASE.strip(), observe=["every public call, in subprocesses"])
prop("C29", "Repeating the same work needs no more room",
     "Repeating the same lookups, comparisons, conversions and refused requests on a unit system any number of times does not make the number of live objects, the entries of containers or the open files grow.",
     ["histories"], "all finite sets of questions, asked again and again for the life of a process",
     "Tests ask once and exit; what a long-running process accumulates is never seen.",
     [U, S, G, X], [("caches", U + ": Unit._symbolic_definition, " + S + ": LazilyDefinedUnit"), ("parser caches", G), ("reading the database", X)],
     "runtime monitoring: census of live objects between windows of repetitions", BASE + "Caches keyed by the question may fill while it is asked the first times.", observe=["every public call"])
prop("C30", "Copies of units and systems answer like the originals",
     "A copy of a unit or a unit system, made by copy.copy, copy.deepcopy or pickle (also into another process), has the same text, expansion, dimensionality and predicates, is equal to and convertible with the original, and converts values alike, whether or not the original was used before; deep copies of a system are independent of it.",
     ["inputs", "histories"], "all units and systems, at any time of their use",
     "No test copies anything; whether cached state and references to basis units survive depends on what was asked before.",
     [U, S, E + "graph.py", "pyudunits2/_unit_reference.py"], [("cached definitions", U + ": Unit._symbolic_definition"), ("identity and equality of basis units", U + ": BasisUnit, Dimensionality"), ("lazy definitions bound to their system", S + ": LazilyDefinedUnit")],
     "runtime monitoring: differential monitor, answers of copies against answers of the original", BASE + "Converters are not pickled; sympy needs pickle protocol 2 or later.", observe=["copy, pickle, every public question"])
prop("C31", "The expander collects an expression into one product of powers",
     "Expanding the graph of a product, quotient or power gives a product in which every identifier occurs at most once, with the exact exponent arithmetic gives (absent if zero), and the numbers amount to the number of the expression; the outcome does not depend on the order of the factors except for the order of numbers, and an outermost shift is kept.",
     ["inputs"], "all expressions of products, quotients and powers",
     "Tests expand about forty expressions; terms meet in sorted order, so errors need particular names, exponents and cancellations.",
     [E + "expander.py"], [("collecting and combining terms", E + "expander.py: ChainedExpr, Expander")],
     "runtime monitoring: exact arithmetic oracle over generated expressions", BASE + "The numbers are compared to 24 digits (decimal arithmetic of 28).", observe=["Expander().visit"])
exec((pathlib.Path(__file__).parent / "more_props.py").read_text()) if (pathlib.Path(__file__).parent / "more_props.py").exists() else None


def main():
    with open(HERE / "properties.jsonl", "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                       "observe_at": p["observe"] or [], "hook_needed": None}
            if p["state"]:
                anchors["state"] = p["state"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors,
            }, ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -c 'import sympy, mpmath, numpy, lxml.etree'",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} quick",
            "thorough_cmd": f"./check {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "Pure Python, nothing to build: every check imports pyudunits2 from /repo's working tree, ignoring byte code. No hooks in /repo are needed. Exit 2 or 3 (inconclusive) is an error of the check.",
    }
    (HERE / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n")


if __name__ == "__main__":
    main()


def design():
    import importlib, sys
    sys.path.insert(0, str(HERE))
    out = [(HERE / "tools/design_head.md").read_text()]
    for p in P:
        mod = importlib.import_module(f"mon.checks.{p['id'].lower()}")
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
                   f"- Decided by: {p['technique']} ({p['level']}).\n- Observed and judged: {mod.RULE}\n"
                   + (f"- Bounds and assumptions: {'; '.join(getattr(mod, 'ASSUMPTIONS', []))}.\n" if getattr(mod, "ASSUMPTIONS", []) else "")
                   + f"- Beyond the tests: {p['why']}\n- Floors (inconclusive below): {mod.FLOORS}\n\n")
    known = [json.loads(x) for x in (HERE / "known_findings.jsonl").read_text().splitlines()]
    out.append("## Genuine defects recorded, not repaired\n\n" + "".join(
        f"- {k['property']} `{k['id']}`: {k['what']}. Seen with: {', '.join(k['inputs'][:4])}.\n" for k in known if k["kind"] == "known"))
    out.append("\nThe first two need a change of the grammar and the generated automata (ANTLR is not available offline); "
               "the other two are pinned by existing tests, which must keep passing.\n"
               "\n## Genuine defects repaired (`fix:` commits in /repo)\n\n" + "".join(
        f"- {k['record']}\n" for k in known if k["kind"] == "fixed"))
    out.append("\n" + (HERE / "tools/design_tail.md").read_text() + "\n")
    rows = []
    for meta in sorted((HERE / "seeded").glob("*/meta.json")):
        m = json.loads(meta.read_text())
        rows.append(f"| {meta.parent.name} | {m['property']} | {m.get('caught_by', '?')} | {m['what_it_breaks']} |\n")
    out.append("## Planted bugs and the checks that catch them\n\n| seeded | property | caught by (quick) | what it breaks |\n|---|---|---|---|\n" + "".join(rows))
    (HERE / "DESIGN.md").write_text("".join(out))


if __name__ == "__main__" and "--design" in __import__("sys").argv:
    design()
