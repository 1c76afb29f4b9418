#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, P, H, S, C, F = "inputs", "programs", "histories", "schedules", "configurations", "fault_sequences"
MR = "src/meta_rules/"
ALL = [MR + f + ".rs" for f in "rule lines node not number optional repeat select fast_select separate_by sequence tag text until_any until_any_or_whitespace whitespace".split()]

def p(id, title, statement, over, quant, why, files, mech, obs, tech, note):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None)), tech, note

PROPS = [
p("C01", "Every rule reads exactly what its documented meaning says",
  "For every grammar, document and indention setting, parsing accepts exactly the documents that the documented meaning of the rules accepts (ordered choice that takes the first alternative that matches, sequences in order, optional and repeated rules that read as much as they can and no more, negative lookahead that consumes nothing, separated lists, quoted text, numbers, whitespace, text up to a character, lines, and references to nodes). When it accepts, the meta data is exactly what the rules that succeeded produce, in document order, and what the caller had in the list before is still there in front of it. Grammars that recurse or repeat without reading anything are left out.",
  [P, I, C], "every grammar over all kinds of rules, every document, every indention setting",
  "The tests run each rule on one or two documents; the space is the product of grammars, documents and settings, and most faults need two rules that meet.",
  ALL + ["src/lib.rs"], [("each rule returns what it read, its state and the error it met", "src/meta_rules/*.rs parse()"), ("the root rule is the last one and must read to the end", "src/meta_rules/mod.rs parse_with_indent()")],
  ["parse", "parse_with_indent"], "runtime monitoring: online comparison with an executable reference model of the rules, random grammars and documents",
  "Held on the executions run: random grammars over all rules, made in four ways (by hand, linked, optimized, from text), with accepted, mutated and random documents. Trusts the reference interpreter and the lexing of read_token."),
p("C02", "Optimizing a syntax never changes what it accepts or produces",
  "For every syntax and document, the optimized syntax accepts exactly when the syntax as written does, with the same meta data, and reports an error at the same position when both reject. Optimizing again changes nothing more, optimizing always ends, and the public prediction of the first byte of a rule never names a byte that excludes a document the rule accepts. This holds for documents that end, or hold multi-byte characters, where an alternative is chosen.",
  [P, I], "every syntax and every document, selects of every length",
  "Tests use a handful of selects; the table must be right for each byte, the end of the text, aliasing alternatives, recursion and any length.",
  ["src/optimize.rs", MR + "fast_select.rs", MR + "select.rs", "src/lib.rs"], [("alternatives with distinct first bytes go to a table", "src/optimize.rs unique_table_from_select()"), ("the table picks one alternative, then the tail is tried in order", MR + "fast_select.rs parse()")],
  ["Syntax::optimize", "optimize::unique_byte", "optimize::unique_table_from_select"], "runtime monitoring: differential oracle between plain, optimized and twice optimized syntaxes, and the reference model",
  "Held on the executions run. The plain syntax and the reference model are both oracles."),
p("C03", "Grammar text is loaded as exactly the rules that it says",
  "For every grammar text that follows the documented syntax, loading gives exactly the nodes and rules it describes: kinds, order, property names, inverted properties, optional and required variants, underscore, trailing-separator and indention flags, literal and reused text, and every node under its name. Text that does not follow the syntax, or refers to a string that is not defined, is rejected with an error instead of being loaded as something else. What is loaded reads documents as the rules that were written.",
  [P, I], "every grammar text, well formed or broken",
  "Tests load a few fixed grammars; a flag that is dropped or swapped in one rule inside of another shows only for that combination.",
  ["src/bootstrap/rules.rs", "src/bootstrap/convert.rs", "src/bootstrap/mod.rs", "src/lib.rs"], [("meta rules that read grammar text", "src/bootstrap/rules.rs"), ("meta data of grammar text to rules", "src/bootstrap/convert.rs convert()")],
  ["syntax", "bootstrap::convert", "bootstrap::rules"], "runtime monitoring: random grammars printed and loaded, compared with the intended rules and an independent reader of grammar text",
  "Held on the texts generated. Trusts the harness's printer and reader of grammar text, which were written from the documentation and check one another."),
p("C04", "A document is accepted only when it is read to its end",
  "Parsing succeeds only if the root rule reads the whole document: whenever reading stops before the end, whatever text follows (whitespace, multi-byte characters, control characters, line endings), parsing fails, and the error lies at or after the position where reading stopped. It never fails when the root rule reads all of the document. The root rule is the last rule of the grammar.",
  [P, I], "every grammar, every document, every kind of text that is left over",
  "Tests check one or two leftovers in one-byte characters.",
  [MR + "mod.rs", "src/lib.rs"], [("compare what was read with the length of the text", MR + "mod.rs parse_with_indent()")],
  ["parse", "parse_with_indent"], "runtime monitoring: reference model predicts where reading stops, documents extended with every kind of tail",
  "Held on the executions run."),
p("C05", "Meta data is always a well-formed tree over the document",
  "After every successful parse, each start of a node has its end, in order and with the same name, and no end comes without a start. Every range lies within the document and on character boundaries; the start of a node is an empty range where the node begins, its end covers the whole node, and everything between them in the list lies in that range, in document order and without overlaps. What the list held before a parse, successful or not, stays unchanged in front.",
  [P, I, H], "every grammar, document, indention setting and earlier content of the list",
  "Tests compare a few lists with what is expected; the shape must hold for every way rules nest, repeat and give up.",
  [MR + "node.rs", MR + "lines.rs", MR + "mod.rs", "src/tokenizer.rs"], [("a node truncates, starts, and patches its start when it ends", MR + "node.rs parse()"), ("state of the list is a length to go back to", "src/tokenizer.rs")],
  ["parse", "parse_with_indent"], "runtime monitoring: structural invariant checker over every list of meta data",
  "Held on the executions run, including lists that held meta data before and parses that fail."),
p("C06", "Values are exactly what their source text says",
  "Every value is recomputable from the document: raw text is the source it covers, and quoted text is the source with its escapes resolved. A number is what its numeral says (numerals of up to 15 digits with exponents of up to two digits; underscores only where the rule allows them); a bool is present exactly where its token was or, for a negated token, was not, and true or inverted as the rule says. Each value carries the property name of the rule that read it.",
  [P, I], "every grammar, every document, every value in it",
  "Tests check a few literal values; escapes, digits, multi-byte text and inverted flags combine without bound.",
  [MR + "text.rs", MR + "number.rs", MR + "tag.rs", MR + "until_any.rs", MR + "until_any_or_whitespace.rs", MR + "node.rs", "src/tokenizer.rs"],
  [("parsing of strings and numbers is delegated", "read_token"), ("properties become values", "src/meta_rules/*.rs")],
  ["parse", "MetaData"], "runtime monitoring: every value recomputed from the source range it carries, by independent number and string readers",
  "Held on the executions run. Two numerals that read_token gets wrong are listed findings; other extreme exponents are left out."),
p("C07", "A rejected document is explained by the failure that got deepest",
  "When a document is rejected, the error is one that really happened while reading: its kind, its position, and the token or number it names are those of a rule that failed there. Among all failures that were met, including those inside of alternatives and optional or repeated parts that were given up, the one reported is at the deepest position in the document, and of several there it is the one met last (in a syntax with lookup tables, which leave alternatives out, any of them). A rejection is never without an error, and an error never points outside of the document.",
  [P, I], "every grammar and every document that it rejects",
  "Tests check the error of a few documents; the deepest failure is decided by how all rules pass errors up.",
  ["src/parse_error.rs", MR + "mod.rs"] + ALL, [("errors of successful and failed rules are merged by position", MR + "mod.rs update()")],
  ["Range<ParseError> of parse and parse_with_indent"], "runtime monitoring: the reference model records every failure event, the reported error must be one of the deepest",
  "Held on the executions run; which of several equally deep failures is reported is left open for syntaxes with lookup tables, as is how a failed select is described there."),
p("C08", "Error reports show the right line and mark the right column",
  "For every text and error range, the report names the message, and shows each line that the range touches with its number and column counted in characters, and a mark under the character where the error starts. Lines that are too long are shown as an excerpt around the error. Writing to a sink that is interrupted or takes only a part gives the same bytes, and a sink that fails makes writing fail instead of losing text silently.",
  [I, F], "every text, every error range in it, every line length, every pattern of short, interrupted and failing writes",
  "Tests write no report with multi-byte characters, several lines, long lines or failing sinks.",
  ["src/parse_error_handler.rs", "src/parse_error.rs"], [("split text into lines, cut an excerpt, place the mark", "src/parse_error_handler.rs write_msg()")],
  ["ParseErrorHandler::write", "ParseErrorHandler::write_msg", "ParseErrorHandler::error"], "runtime monitoring with injected write faults: reports compared with an independent renderer",
  "Held on the reports compared. The exact layout is that of the current reports."),
p("C09", "No text makes the library panic, hang or exhaust the stack",
  "Whatever bytes of valid UTF-8 are given as grammar text or as a document, loading, parsing, writing a report, writing JSON and converting meta data end and give a result or an error, without a panic, an overflow or unbounded recursion, and in time that grows in proportion to the size of the text, for documents read by grammars that do not go back and for grammar texts of many nodes or rules. Nesting within ordinary bounds and documents of any length are handled on an ordinary stack. Left out are grammars that recurse or repeat without reading anything, nesting as deep as the stack, and many nested comments that are not closed, which are a listed finding.",
  [I, P, C], "every grammar text and document, however hostile, and extreme settings",
  "Tests feed well-formed text only.",
  ["src/lib.rs", "src/bootstrap/convert.rs", "src/optimize.rs", "src/json.rs", "src/parse_error_handler.rs", MR + "lines.rs"],
  [("errors instead of indexing and unwrapping", "src/meta_rules/*.rs, src/bootstrap/convert.rs")],
  ["every public entry point"], "runtime monitoring: hostile workloads with overflow checks, process isolation, memory limit and processor-time watchdog, growth of time measured on texts of growing size; under AddressSanitizer in the thorough tier",
  "Held on the texts run. A crash or hang is confirmed by running the case alone in a new process."),
p("C10", "The syntax that describes itself is a fixed point",
  "Reading grammar text with the built-in rules and with the rules that the published self-description of the syntax loads as is the same: both accept the same texts, with the same meta data, and load them as the same rules. This holds however many times the self-description is loaded with the rules it gave before, and when rules are optimized in between. A text rejected by one is rejected by the other.",
  [I, H], "every grammar text, well formed or broken, and every generation of the bootstrap",
  "The bootstrap test compares two lists for the one text of the self-description.",
  ["src/bootstrap/rules.rs", "src/bootstrap/mod.rs", "src/bootstrap/convert.rs", "assets/self-syntax.txt"], [("built-in rules written by hand", "src/bootstrap/rules.rs"), ("the same rules as text", "assets/self-syntax.txt")],
  ["syntax", "bootstrap::rules", "parse"], "runtime monitoring: differential oracle between generations of the bootstrap on random, mutated and hostile grammar texts",
  "Held on the texts run."),
p("C11", "Grammars written in older forms of the syntax still load",
  "Grammar text in an older form of the syntax (the 1.0 form, and the form before it that the published older descriptions define) is loaded, through the description of that form, as exactly the rules it says. A grammar in the 1.0 form also means the same when it is loaded with the current syntax, and documents are read in the same way. Rules that the older form does not have are rejected by its description.",
  [P, I], "every grammar in an older form and every document",
  "Tests load the older descriptions themselves and nothing written in them.",
  ["assets/self-syntax-1.0.txt", "assets/old-syntax.txt", "assets/old-self-syntax.txt", "assets/new-self-syntax.txt", "src/bootstrap/convert.rs", "src/bootstrap/rules.rs"], [("descriptions of older forms", "assets/"), ("names of meta data that conversion expects", "src/bootstrap/convert.rs")],
  ["syntax", "bootstrap::convert"], "runtime monitoring: random grammars printed in older forms, loaded through their descriptions and compared with the intended rules",
  "Held on the grammars generated."),
p("C12", "JSON output is valid and says exactly what the meta data says",
  "For every list of meta data, what is written as JSON, inside of braces, is valid JSON: every string and name is escaped, numbers are written so that reading them gives the same number, and numbers that are not finite are written as null. Reading it back gives the same tree, with the same names, values and order. Meta data that is not balanced never makes it panic; interrupted and partial writes give the same bytes, and a failing sink makes writing fail.",
  [I, F], "every list of meta data, every string and number, every pattern of writes",
  "Tests write no JSON of control characters, quotes in names, non-finite numbers, or to failing sinks.",
  ["src/json.rs"], [("indention, commas and escapes by the state of the list", "src/json.rs write(), write_string()")],
  ["json::write", "json::print"], "runtime monitoring with injected write faults: output parsed by an independent strict JSON reader and compared as a tree",
  "Held on the lists written."),
p("C13", "Lines belong together as their indention says",
  "Rules that read lines with indention group lines by their indention alone: a line that is indented deeper belongs to the line before it, lines of the same depth are siblings, a line that is indented less ends the group, and a line whose depth is that of no line around it is rejected. Empty lines and line endings of each kind do not matter, a step of indention by a tab is the same as one by the configured number of spaces (where indention is aligned to the first line, as it is by default), and lines with multi-byte whitespace are read. After any parse the settings of the caller are what they were, and lines without indention read each line once, in order.",
  [P, I, C], "every outline, every depth, mixture of tabs and spaces, every setting",
  "Tests read two fixed outlines with spaces.",
  [MR + "lines.rs", MR + "indent_settings.rs"], [("indention before each line is measured and compared", MR + "lines.rs parse()")],
  ["parse_with_indent", "parse"], "runtime monitoring: outlines with known trees, tabs replaced by spaces, and the reference model of lines",
  "Held on the outlines run."),
p("C14", "Reading and loading do not depend on what was done before or at once",
  "Loading a grammar and reading a document give the same result however often, in whatever order, after whatever failures, in whatever thread and in whatever process they are done, also when threads share one syntax or use the library first at the same time. Reading never changes the syntax. Syntaxes compare equal exactly when they hold the same names and rules, and a clone is equal to its original.",
  [H, S, I], "every history of loads and readings, every interleaving of threads that share syntaxes",
  "Tests read each document once in one thread.",
  ["src/lib.rs", "src/bootstrap/rules.rs", MR + "fast_select.rs", "src/tokenizer.rs"], [("no state outlives a reading", "src/lib.rs, src/tokenizer.rs"), ("equality by content", MR + "fast_select.rs")],
  ["syntax", "parse", "PartialEq for Syntax"], "runtime monitoring: recorded histories, thread stress behind barriers and new processes, each result compared with the first; the library under ThreadSanitizer and Miri in the thorough tier",
  "Held on the histories and interleavings run; the library has no threads or unsafe code of its own."),
p("C15", "Searches in meta data find exactly what is there, in order",
  "A search for a named value or node boundary finds the first one ahead of the cursor that matches in name, kind and value, runs the caller's closure exactly once with a cursor right behind it, and returns what the closure returns, without moving the cursor it was called on. Reading the next item gives its value and moves on by one item if it has that name and kind, and otherwise moves nothing. Where nothing matches, the error names what was looked for and the place where the cursor is; none of it ever panics, whatever the list holds.",
  [I, H], "every list of meta data and every sequence and nesting of searches",
  "The search helper has no tests of its own.",
  ["src/search/src/lib.rs"], [("cursor over the rest of the list, and the range of the last item for errors", "src/search/src/lib.rs Search")],
  ["piston_meta_search::Search"], "runtime monitoring: random walks of nested searches compared step by step with an executable list model",
  "Held on the walks run."),
p("C16", "Converting meta data never drops or invents anything silently",
  "Conversion of meta data to rules reports every item it does not use, and accepts only meta data that it understands; each rule it gives comes from the meta data in its place. The cursor used for conversion returns exactly the node boundaries and values that are there, gives the range of what it read, leaves its position unchanged when something else is there, and skips exactly one item, with everything inside of it, when told to ignore it. Where a part of a rule is given more than once, the last one counts. Meta data that ends early or is not balanced gives an error and never a panic or a hang.",
  [I, H], "every list of meta data, balanced or not, and every sequence of steps of the cursor",
  "Tests convert the meta data of well-formed grammars only.",
  ["src/bootstrap/convert.rs"], [("cursor with updates on success", "src/bootstrap/convert.rs Convert"), ("items left over are collected", "src/bootstrap/convert.rs convert()")],
  ["Convert", "bootstrap::convert"], "runtime monitoring: cursor steps compared with a list model, conversions of changed meta data compared with an independent converter",
  "Held on the lists run."),
p("C17", "An error names the rule of the grammar that failed",
  "The number in an error identifies the place in the grammar text: it is the number of the node that holds the failed rule, times one thousand, plus the position of the rule within the node, counted in the same way each time. Numbers within a node are distinct, and in grammars whose nodes have less than a thousand rules each, rules of different nodes with different numbers never share one. Node numbers that would not fit are rejected when the grammar is loaded.",
  [P, I], "every grammar text and every document it rejects",
  "Tests check a few numbers of a fixed grammar.",
  ["src/bootstrap/convert.rs", "src/parse_error.rs", MR + "rule.rs"], [("numbers are assigned while converting", "src/bootstrap/convert.rs convert_rule()")],
  ["ParseError", "syntax"], "runtime monitoring: reported numbers traced to the failing rule by the reference model",
  "Held on the rejections run; nodes of more than 999 rules are left out."),
p("C18", "All entry points to the same work agree",
  "Loading and parsing give the same result through every entry point: with or without the default settings, with the error as a value, as text, on standard error or as a panic, from strings and from files, and by reading with the root rule directly. The text of an error is always the report of that error over that text. JSON on standard output is what is written to any other sink.",
  [I, P, C], "every grammar, document and setting, every pair of entry points",
  "Tests use each entry point alone, and the ones for files and standard streams hardly at all.",
  ["src/lib.rs", MR + "mod.rs", "src/parse_error_handler.rs", "src/json.rs"], [("wrappers around one reader", "src/lib.rs, src/meta_rules/mod.rs")],
  ["syntax", "syntax_errstr", "parse", "parse_errstr", "parse_with_indent", "parse_errstr_with_indent", "load_syntax_data", "stderr_unwrap", "json::print", "ParseErrorHandler"], "runtime monitoring: the same work through every entry point, in process and in new processes, compared",
  "Held on the executions run."),
p("C19", "Layout, comments and reuse of strings do not change a grammar",
  "Two grammar texts that differ only in whitespace between tokens, in blank lines, in line comments and closed, possibly nested, block comments where the syntax allows them, or in whether a literal is written in place or through a string defined before, load as the same rules and read documents in the same way. When a string is defined more than once, which one is used does not depend on layout. A reference to a string that is never defined is an error.",
  [P, I], "every grammar, every layout, every placement of comments and reuse of strings",
  "Tests load each grammar in one layout.",
  ["src/bootstrap/rules.rs", "src/bootstrap/convert.rs", "assets/self-syntax.txt"], [("whitespace and comments in the meta rules", "src/bootstrap/rules.rs"), ("strings are looked up while converting", "src/bootstrap/convert.rs find_string()")],
  ["syntax"], "runtime monitoring: metamorphic oracle, one grammar printed in many layouts, all must load alike",
  "Held on the layouts run."),
p("C20", "A reference means the node of that name, wherever it stands",
  "A reference to a node reads with the rule of that name, whether the node is defined before or after, refers to itself, or is referred to under a property of another name; the order of the other nodes does not matter. When a name is defined more than once, the first definition is used everywhere. A name that is not defined fails where it is needed, with an error that says so, and harms nothing where it is not.",
  [P, I], "every grammar graph, order of nodes, repeated and missing name",
  "Tests refer to earlier nodes in a few fixed grammars.",
  [MR + "node.rs", MR + "rule.rs", "src/lib.rs", "src/bootstrap/convert.rs"], [("references are resolved to indices after all nodes are known", MR + "rule.rs update_refs()")],
  ["syntax", "Rule::update_refs", "parse"], "runtime monitoring: reference model resolves names independently over random graphs of nodes",
  "Held on the graphs run."),
p("C21", "An attempt that is given up leaves no trace",
  "When an alternative, an optional part, a repetition, a separated item, a line or a lookahead fails after it read something, nothing of it remains: no meta data, no indention, no change of position. A grammar with such attempts put in, or wrapped around its rules, accepts the same documents with the same meta data as the grammar without them. A rule that is read by itself leaves the meta data before its starting point as it was, whether it succeeds or fails.",
  [P, I, H], "every rule, every attempt that fails at any depth, every document",
  "Tests hold few attempts that fail after producing meta data, and none that change indention.",
  [MR + "select.rs", MR + "fast_select.rs", MR + "optional.rs", MR + "repeat.rs", MR + "separate_by.rs", MR + "lines.rs", MR + "not.rs", MR + "node.rs", "src/tokenizer.rs"],
  [("state is a length of the list, truncated by the next value", "src/tokenizer.rs read_data()")],
  ["parse_with_indent", "Rule::parse"], "runtime monitoring: metamorphic oracle, failing attempts are put into grammars and must leave no trace; single rules monitored with hooked state",
  "Held on the attempts run."),
p("C22", "Lists hold exactly the items and separators that their rule allows",
  "A repeated rule reads every item until one fails, at least one if that is required; a separated list needs a separator between items, at least one item if that is required, and allows a separator after the last item exactly when the grammar says so; items and separators that may be empty are read like any other. An optional rule reads one item or none, and never fails. However many items there are, each gives its meta data once, in order.",
  [P, I], "every list rule, item, separator, number of items and place of separators",
  "Tests read short lists of one or two shapes.",
  [MR + "repeat.rs", MR + "separate_by.rs", MR + "optional.rs", MR + "lines.rs"], [("loop until an item or a separator fails", MR + "separate_by.rs parse(), " + MR + "repeat.rs parse()")],
  ["parse"], "runtime monitoring: conservation, items generated are counted and compared with those in the meta data",
  "Held on the lists run, of up to 65 537 items (a million in the thorough tier)."),
]

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _ in PROPS: f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./build.sh", checks=[
    dict(property=d["id"], quick_cmd="./run.sh " + d["id"], thorough_cmd="VERIF_TIER=thorough ./run.sh " + d["id"],
         evidence_file="evidence/%s.json" % d["id"], technique=t, level="exploration", level_note=n) for d, t, n in PROPS],
    not_applicable=[], notes="No hooks: everything is observed through the public interface. /repo has fix commits only, listed in known-findings.txt.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
for d, _, _ in PROPS:
    assert len(d["title"]) <= 80, d["id"]
