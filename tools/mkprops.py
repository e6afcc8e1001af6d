"""Writes /verif/properties.jsonl (kept as a script so the table stays readable)."""
import json, os
P = []
SY = "fluent.syntax/fluent/syntax/"
RT = "fluent.runtime/fluent/runtime/"


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [], "hook_needed": None,
        },
    })


# ---------------------------------------------------------------- fluent.syntax: parser
p("S01", "Parsing is total, terminates and is a pure function of the source",
  "For every Unicode string, fluent.syntax.parse and FluentParser.parse return a Resource and never raise or hang: anything malformed becomes a Junk entry carrying at least one annotation. "
  "The result depends on the source alone, so parsing again, with a reused FluentParser, or after parsing other sources gives the same tree.",
  ["inputs", "histories"], "every source string (valid, truncated, mutated, token soup, control characters, CR/LF mixes) and every order of parses on one parser object",
  "Fixtures parse a fixed list of about 100 files once each; totality and purity are claims over all strings and all orders of calls.",
  [SY + "parser.py", SY + "stream.py"],
  [("get_entry_or_junk turns ParseError into Junk", SY + "parser.py:get_entry_or_junk"), ("skip_to_next_entry_start always advances", SY + "stream.py:skip_to_next_entry_start")],
  ["fluent.syntax.parse", "FluentParser.parse"])
p("S02", "Parsing loses no source: entries and junk tile the input",
  "The top-level entries of a parsed resource appear in source order with disjoint, non-empty spans, an entry's comment lying inside the entry's own span, and only blank characters (spaces and line breaks) lie before, between and after them; the resource's span covers the whole source. "
  "The content of every Junk is exactly the slice of the source its span denotes, and its annotation's position lies within that span.",
  ["inputs"], "every source string, including malformed ones",
  "Fixture comparison checks chosen files; that no character of any input is dropped or duplicated is a statement over all inputs.",
  [SY + "parser.py", SY + "stream.py"],
  [("Junk slice and spans", SY + "parser.py:get_entry_or_junk"), ("comment stashing", SY + "parser.py:parse")],
  ["Resource.body spans", "Junk.content"])
p("S03", "The parser accepts exactly the Fluent 1.0 grammar and builds its AST",
  "For every source the parsed resource has exactly the messages, terms and comments (with the structure of their patterns, attributes, expressions, variants and arguments) that the Fluent 1.0 grammar and its abstract-syntax rules assign to it, and everything the grammar does not derive is Junk; an entry with a malformed attribute, variant or placeable is Junk as a whole. "
  "In particular the restrictions on selectors, term attributes, function names, named arguments, default variants and escapes are enforced, and nothing that is legal is rejected.",
  ["inputs", "programs"], "every source string: grammar-generated resources, near-valid mutations of them, token soup",
  "The fixtures sample about 100 hand-written files; conformance is agreement with the grammar on every string.",
  [SY + "parser.py", SY + "stream.py", SY + "ast.py"],
  [("recursive descent over the EBNF", SY + "parser.py"), ("continuation and blank rules", SY + "stream.py")],
  ["Resource.to_json()"])
p("S04", "A malformed entry never damages the entries around it",
  "When malformed text beginning at the start of a line is put between well-formed entries, every well-formed entry before and after it is parsed exactly as it would be alone, and the malformed text is reported as Junk. "
  "An error never swallows a following line that starts a message, a term or a comment, however the broken text was cut off (unclosed placeable, string, call or select expression).",
  ["inputs"], "every sequence of well-formed entries, every malformed text, every insertion point",
  "Junk fixtures fix the neighbours and the breakage; recovery must hold for every combination of breakage and neighbour.",
  [SY + "stream.py", SY + "parser.py"],
  [("skip_to_next_entry_start", SY + "stream.py:skip_to_next_entry_start"), ("get_entry_or_junk", SY + "parser.py:get_entry_or_junk")],
  ["Resource.body"])
p("S05", "Spans are exact, nested and ordered; with_spans changes nothing else",
  "With spans on, every node's span denotes exactly the source text that node was written as (identifiers, literals, references, call arguments, variants, attributes, comments, entries), lies within its parent's span, and siblings are ordered and disjoint. "
  "With spans off the tree is the same except that every span is None.",
  ["inputs"], "every source string, with and without CRLF; both values of with_spans",
  "Tests compare spans in a few fixtures; exactness is about every node of every input.",
  [SY + "parser.py", SY + "ast.py"],
  [("with_span decorator", SY + "parser.py:with_span"), ("span surgery in dedent/comment attachment", SY + "parser.py:dedent")],
  ["node.span"])
p("S06", "LF and CRLF line endings give the same resource",
  "Replacing every LF of a CR-free source with CRLF changes neither the parsed entries nor any pattern, comment or literal value, nor the codes of errors; only spans and the raw content of Junk follow the longer source. "
  "Text values never contain a carriage return that belonged to a line ending.",
  ["inputs"], "every CR-free source (valid or not), all lines or any subset of line endings converted",
  "A single CRLF fixture exists; the invariance must hold wherever in the grammar a line break may occur.",
  [SY + "stream.py", SY + "parser.py"],
  [("CRLF folding in char_at/next/peek", SY + "stream.py:ParserStream"), ("peek_blank_block normalises", SY + "stream.py:peek_blank_block")],
  ["parse(source)"])
p("S07", "Multiline patterns are dedented and trimmed by the common indent",
  "For every multiline pattern the parsed text equals the source lines with their common indentation removed (the first line of a block pattern counts, blank lines do not, an inline first line does not), inner blank lines kept as line breaks, and leading blank lines and trailing whitespace removed. "
  "Layout choices that do not change relative indentation (block or inline start, indent width, spaces on blank lines) do not change the value, for messages, terms, attributes and variants alike.",
  ["inputs"], "all line/indent/placeable arrangements of a pattern, in every position a pattern can stand",
  "Tests cover a few dozen hand-made layouts; the rule is arithmetic over every arrangement of lines.",
  [SY + "parser.py"],
  [("common indent", SY + "parser.py:get_pattern"), ("dedent", SY + "parser.py:dedent")],
  ["Pattern.elements"])
p("S08", "Comments keep their text, join by line and attach to the right entry",
  "Adjacent comment lines of the same level become one comment whose content is the lines' text joined by line breaks, verbatim after the single separating space; different levels or a blank line separate comments. "
  "A single-# comment belongs to the message or term that follows it on the very next line, and to nothing else; group and resource comments, and comments before junk or end of file, stay standalone entries.",
  ["inputs"], "every arrangement of comment lines of three levels, blank lines, messages, terms and junk",
  "Tests fix a handful of arrangements; attachment is a function of every arrangement.",
  [SY + "parser.py", SY + "stream.py"],
  [("last_comment stash", SY + "parser.py:parse"), ("is_next_line_comment", SY + "stream.py:is_next_line_comment"), ("get_comment", SY + "parser.py:get_comment")],
  ["Message.comment", "Resource.body"])
p("S09", "Syntax errors are diagnosed with the right code, message and position",
  "When one known error is injected into an otherwise well-formed entry, the resulting Junk carries one annotation with the error's documented code, arguments and message, positioned at the offending character. "
  "This holds wherever in an entry the error sits (message, term, attribute, variant, argument, nested placeable) and wherever in the resource the entry sits.",
  ["inputs"], "every error class the parser documents x every surrounding entry and resource",
  "Structure fixtures pin one instance of each error; position and code must be right in every context.",
  [SY + "parser.py", SY + "errors.py"],
  [("ParseError raise sites", SY + "parser.py"), ("get_error_message", SY + "errors.py"), ("annotation span", SY + "parser.py:get_entry_or_junk")],
  ["Junk.annotations"])
p("S10", "parse_entry agrees with parse on the first message or term",
  "parse_entry returns the first message or term of the source exactly as parse reports it (spans included) but without its comment, skipping well-formed comments; if the first thing that is not a well-formed comment is malformed it returns the same Junk that parse reports; where there is nothing but well-formed comments and blanks it returns empty Junk (E0002).",
  ["inputs"], "every source string",
  "A few unit tests exist; agreement of two entry points is over all inputs.",
  [SY + "parser.py"], [("parse_entry", SY + "parser.py:parse_entry")], ["FluentParser.parse_entry"])
p("S11", "Literal values mean what the Fluent spec says",
  "A string literal's parsed value decodes every escape sequence (backslash, quote, \\uXXXX, \\UXXXXXX) to the character it names, replaces surrogate and out-of-range code points by U+FFFD, and leaves all other characters alone, without ever raising. "
  "A number literal's parsed value is the decimal number written, and its precision is the number of fraction digits written.",
  ["inputs"], "every legal string literal body and every legal number literal",
  "Tests decode a handful of escapes; the decoding is over every code point and every combination.",
  [SY + "ast.py", SY + "parser.py"], [("StringLiteral.parse", SY + "ast.py:StringLiteral"), ("NumberLiteral.parse", SY + "ast.py:NumberLiteral")],
  ["Literal.parse()"])

# ---------------------------------------------------------------- serializer
p("S20", "Serializing a parsed resource and parsing it back gives the same resource",
  "For every source, serialize(parse(source)) parses back, without Junk, to a resource equal to the original minus its Junk (spans aside), so no entry, comment, attribute, element, argument or character of text is lost, added or altered. "
  "Serializing does not modify the tree it is given.",
  ["inputs"], "every source string (valid, or partly junk), all layouts",
  "Round-trip tests cover chosen files; the law is over every resource.",
  [SY + "serializer.py", SY + "parser.py"],
  [("indent_except_first_line", SY + "serializer.py"), ("should_start_on_new_line", SY + "serializer.py"), ("comment spacing", SY + "serializer.py:serialize_entry")],
  ["fluent.syntax.serialize"])
p("S21", "Serialized output is canonical: a fixpoint, independent of source layout",
  "Serializing is idempotent: formatting already formatted (junk-free) output reproduces it byte for byte. "
  "Two sources that parse to equal resources serialize identically, whatever their whitespace, indentation, line endings or block/inline style. "
  "The layout is always the same: one line break ends an entry, stand-alone comments end in a blank line and are set off by one from what precedes them, attributes, variants and continuation lines are indented by four columns per level (the * of a default variant stands in the fourth), and a value which has several lines or a select expression starts on its own line unless it begins with [ . or *.",
  ["inputs"], "all pairs of layouts of the same resource",
  "Tests check individual outputs; canonicity relates all layouts of all resources.",
  [SY + "serializer.py"], [("serialize_*", SY + "serializer.py")], ["fluent.syntax.serialize"])
p("S22", "Programmatically built ASTs serialize to source that parses back to them",
  "Any normalised AST built with the public constructors (or edited after parsing) serializes to source that parses back to an equal AST; serialize equals the concatenation of serialize_entry over the entries with the right state. "
  "With with_junk=False Junk is omitted and with with_junk=True its content is written verbatim.",
  ["programs"], "every AST expressible in the abstract grammar, including ones not produced by the parser's layouts",
  "Existing tests build no random ASTs; the law is over all trees.",
  [SY + "serializer.py", SY + "ast.py"], [("FluentSerializer.serialize/serialize_entry", SY + "serializer.py")], ["FluentSerializer"])

# ---------------------------------------------------------------- AST
p("S30", "JSON conversion of any AST is lossless and complete",
  "For every parsed or constructed tree, from_json(to_json(tree)) equals the tree with every field and span intact, also after the JSON has been through text; every node is written with its type and all its fields. "
  "A transformation function given to to_json is applied to every node once, children before parents.",
  ["inputs", "programs"], "every tree from any source, spans on or off, junk annotations included",
  "Tests convert a few trees; the law is over all trees.",
  [SY + "ast.py"], [("to_json/from_json", SY + "ast.py")], ["BaseNode.to_json", "ast.from_json"])
p("S31", "clone() is an equal, fully independent deep copy",
  "A clone equals its original with spans included and has the same node types; no node or list is shared between the two, so no mutation of either is ever visible in the other.",
  ["programs", "histories"], "every tree and every sequence of mutations after cloning",
  "One unit test clones one message; independence is over all trees and mutations.",
  [SY + "ast.py"], [("BaseNode.clone", SY + "ast.py:clone")], ["BaseNode.clone"])
p("S32", "equals() is structural equality modulo the ignored fields",
  "Two nodes are equal exactly when they have the same type and equal fields in the same order, recursively, with the ignored fields (spans by default) left out at every depth; equals never raises, is reflexive and symmetric, and mutating any one non-ignored field or list of either tree makes them unequal.",
  ["programs"], "every pair of trees: copies, single-point mutants, unrelated trees; every set of ignored fields",
  "Unit tests compare a few hand-made pairs; the relation is over all pairs.",
  [SY + "ast.py"], [("equals, scalars_equal", SY + "ast.py")], ["BaseNode.equals"])
p("S33", "A Visitor sees every node exactly once and changes nothing",
  "Visiting a tree with generic_visit reaches every node once, in the order of the fields and lists of the tree; a visit_X method is called for exactly the nodes of type X, and its subtree is descended into exactly when it calls generic_visit. The tree is left unmodified.",
  ["programs"], "every tree, every set of overridden visit methods",
  "Two small unit tests; coverage of every node type and nesting is over all trees.",
  [SY + "visitor.py"], [("Visitor.visit/generic_visit", SY + "visitor.py")], ["Visitor"])
p("S34", "A Transformer replaces, keeps or removes exactly the nodes it is told to",
  "Transforming a tree applies each visit_X result in place: returned nodes replace the originals, None removes the node from its list or empties its field, and everything else is untouched and keeps its identity. An identity transformer leaves the tree equal to what it was.",
  ["programs"], "every tree, every assignment of keep/replace/remove decisions to nodes",
  "Two small unit tests; the law is over all trees and decisions.",
  [SY + "visitor.py"], [("Transformer.generic_visit", SY + "visitor.py")], ["Transformer"])

# ---------------------------------------------------------------- pygments
p("P01", "Highlighting is lossless: tokens tile the text exactly",
  "For every text the lexer's raw tokens are contiguous, in order, non-overlapping and concatenate to exactly the text, starting at 0 and each at the position it claims; lexing never raises, and highlighted output with markup removed is the input.",
  ["inputs"], "every text, valid Fluent or not",
  "A few unit tests lex small inputs; losslessness is over all texts.",
  ["fluent.pygments/fluent/pygments/lexer.py"], [("gap filling", "fluent.pygments/fluent/pygments/lexer.py:get_tokens_unprocessed")], ["FluentLexer.get_tokens_unprocessed"])
p("P02", "Every token has the type its syntactic role demands",
  "Comments, identifiers, text, numbers, strings, variables, variant keys and junk each come out as one token of the documented token type covering exactly the source of that construct, and everything else is Punctuation.",
  ["inputs"], "every text, all constructs in all nestings and orders",
  "Unit tests pin a few sources; classification is over all trees.",
  ["fluent.pygments/fluent/pygments/lexer.py"], [("ATOMIC table and generic_tokenize", "fluent.pygments/fluent/pygments/lexer.py:Tokenizer")], ["FluentLexer.get_tokens_unprocessed"])

# ---------------------------------------------------------------- runtime
p("R01", "format_pattern never raises: it always returns text plus a list of errors",
  "For every message of every bundle and every argument dictionary, format_pattern returns a pair of a string and a list of exceptions; no translation content, argument value, option value or function failure makes it raise. "
  "Failing parts are replaced by a readable fallback while the other parts are still formatted.",
  ["inputs", "programs", "fault_sequences"], "every resource x every argument mapping x functions that raise",
  "Tests cover listed failure modes; never-raises is a claim over all translations and arguments.",
  [RT + "bundle.py", RT + "resolver.py", RT + "types.py"], [("ValueError net", RT + "bundle.py:format_pattern"), ("FluentNone fallbacks", RT + "resolver.py")], ["FluentBundle.format_pattern"])
p("R02", "Messages resolve to the text Fluent semantics prescribe",
  "For every message or attribute, the formatted string and the recorded errors are those of the Fluent resolution rules: text verbatim, literals, arguments, message/term/attribute references followed with the right arguments, functions called, selectors evaluated, elements concatenated in order; of attributes with the same name the last one counts. "
  "Nesting, multi-level reference chains and repeated references compose without interfering.",
  ["programs", "inputs"], "every acyclic set of messages/terms/attributes and every argument mapping",
  "Tests have small hand-written bundles; semantics must hold for arbitrary compositions.",
  [RT + "resolver.py", RT + "prepare.py", RT + "bundle.py"], [("resolver tree", RT + "resolver.py"), ("Compiler", RT + "prepare.py")], ["FluentBundle.format_pattern"])
p("R03", "Select expressions pick the right variant, else the default",
  "A select expression yields the first variant, in order, whose key matches the selector, and otherwise the default: a number matches a numeric key of equal value or a key naming its plural category in the bundle's locale (ordinal category for ordinal-typed numbers), a string matches only an identical name key, and an error or missing value matches nothing. "
  "This holds for int, float and Decimal selectors, NUMBER() results, strings, term attributes and literals.",
  ["inputs", "configurations"], "selector values x variant lists (any order, duplicate keys, any default position) x locales",
  "Tests sample a few values and two locales; the rule is a function of every value, key list and locale.",
  [RT + "resolver.py", RT + "bundle.py"], [("match", RT + "resolver.py:match"), ("SelectExpression", RT + "resolver.py:SelectExpression"), ("plural/ordinal forms", RT + "bundle.py:__init__")], ["FluentBundle.format_pattern"])
p("R04", "Terms see only the arguments passed to them; messages see the caller's",
  "Inside a term (value or attribute) only the named arguments of that reference are visible, never the formatting call's arguments, and a missing one is not an error; positional arguments are ignored with an error. "
  "A message reference sees exactly the arguments of its referrer, and after any reference returns, or fails, the referrer's own arguments are in force again.",
  ["programs"], "every nesting of term and message references with arguments, including failing ones",
  "Tests cover one level; scoping must hold for every call tree.",
  [RT + "resolver.py"], [("modified_for_term_reference", RT + "resolver.py:ResolverEnvironment"), ("TermReference", RT + "resolver.py:TermReference")], ["FluentBundle.format_pattern"])
p("R05", "Bidi isolation marks surround exactly the placeables that need them",
  "With use_isolating, every interpolated placeable that is one of several elements of its pattern is wrapped in exactly one FSI...PDI pair, while text, string literals and a pattern's only placeable are not wrapped, and marks are always balanced; a placeable written directly inside another is one of its own and is isolated itself. Without use_isolating no mark is ever added. "
  "Stripping the marks from the isolated output gives the output without isolation, with the same errors.",
  ["programs", "configurations"], "every message x arguments x use_isolating on/off",
  "Tests cover a few patterns; the relation is over all patterns.",
  [RT + "resolver.py", RT + "prepare.py"], [("Placeable/NeverIsolatingPlaceable", RT + "resolver.py"), ("compile_Placeable/compile_Pattern", RT + "prepare.py")], ["FluentBundle.format_pattern"])
p("R06", "Every resolution failure is reported once, in order, with its fallback text",
  "Each missing argument, message, term, attribute, value or function, unsupported argument type, failing function and ignored positional argument adds exactly one error of the documented class and text, in evaluation order, and leaves its documented fallback in the output ({message}, {-term.attr}, name, FUNC()). "
  "Branches that are not selected report nothing and an error-free pattern returns an empty list; a fresh list is returned on every call.",
  ["programs", "fault_sequences"], "every placement of every failure kind, alone and combined",
  "Tests provoke each failure alone at the top level; combinations and contexts are unbounded.",
  [RT + "resolver.py", RT + "utils.py", RT + "errors.py"], [("errors.append sites", RT + "resolver.py"), ("unknown_reference_error_obj", RT + "utils.py")], ["FluentBundle.format_pattern"])
p("R07", "Cyclic and explosive translations are cut off, cheaply",
  "Any reference cycle (through messages, terms, attributes, selectors, variants or function arguments) is detected, reported as a cyclic-reference error and replaced by ???, while acyclic repetition of a message is never mistaken for a cycle. "
  "Expansion bombs of any shape are stopped with a bounded amount of work and of output, returning a result with an error instead of hanging, exhausting memory or raising.",
  ["programs"], "every reference graph; every expansion shape",
  "Tests have one cycle and one bomb; the guarantee is over all graphs.",
  [RT + "resolver.py", RT + "bundle.py"], [("active_patterns", RT + "resolver.py:Pattern"), ("MAX_PARTS, MAX_PART_LENGTH", RT + "resolver.py")], ["FluentBundle.format_pattern"])
p("R08", "A bundle is a first-wins store of messages unless overriding is asked for",
  "After any sequence of add_resource calls and lookups, has_message, get_message (with the attributes in source order, the last of several of one name) and every reference see, per id, the first definition added, or the latest one added with allow_overrides=True; messages and terms are separate namespaces, terms are never visible through has_message/get_message, and junk and comments are ignored. "
  "get_message raises LookupError exactly when has_message is false, and lookups or formatting in between never freeze a later override.",
  ["histories"], "every interleaving of add_resource (with and without override), has_message, get_message and formatting",
  "Tests add one or two resources; the store semantics is over every history.",
  [RT + "bundle.py"], [("add_resource", RT + "bundle.py:add_resource"), ("_lookup compiled cache", RT + "bundle.py:_lookup")], ["FluentBundle"])
p("R09", "Formatting is pure: no call influences another, no input is mutated",
  "The result of formatting a pattern depends only on the bundle's contents and the arguments: it is the same on every call, whatever was formatted before (including failing, cyclic or too large messages) and in whatever order, and also when calls overlap, because a custom function formats something itself or several threads share a bundle. "
  "Arguments, resources and pattern objects are never modified, and bundles sharing a Resource do not affect each other.",
  ["histories"], "every sequence, nesting and interleaving of formatting calls on one or several bundles sharing resources",
  "Tests format once or twice; independence is over all histories.",
  [RT + "resolver.py", RT + "bundle.py", RT + "prepare.py"], [("fresh ResolverEnvironment per call", RT + "bundle.py:format_pattern"), ("active_patterns cleanup", RT + "resolver.py:Pattern")], ["FluentBundle.format_pattern"])
p("R10", "Functions get evaluated arguments; their failures stay contained",
  "A function is called exactly once per evaluated reference with its positional and named arguments in order, converted to Fluent values, and its result is used as the value (formatted when interpolated, matched when selected on); a plain number, date or datetime it returns counts as its Fluent counterpart, and any other object is reported as an error and shown as ???. "
  "Any exception it raises is recorded as that very object and replaced by NAME(); bundle functions extend or shadow the built-ins for that bundle only, and NUMBER/DATETIME pass errors through.",
  ["programs", "fault_sequences"], "every call shape, every function behaviour (value, string, exception), every bundle configuration",
  "Tests use a few functions; the contract is over all calls and failures.",
  [RT + "resolver.py", RT + "builtins.py", RT + "bundle.py", RT + "types.py"], [("FunctionReference", RT + "resolver.py:FunctionReference"), ("BUILTINS merge", RT + "bundle.py:__init__")], ["FluentBundle.format_pattern"])
p("R11", "Numbers are formatted by locale and options as Intl.NumberFormat would",
  "For int, float and Decimal values, formatted text is the value rounded (half to even) to the digits the options allow, with the locale's grouping, separators, minus sign and affixes as its CLDR patterns define them, for decimal, percent and currency styles. "
  "minimum/maximum fraction, integer and significant digits, useGrouping, currency and currencyDisplay each have their Intl meaning, alone and combined, and no digit is ever lost or invented otherwise.",
  ["inputs", "configurations"], "value x option combination x locale",
  "Tests sample a few dozen triples; the function is over the whole product.",
  [RT + "types.py"], [("FluentNumber.format/_apply_options", RT + "types.py:FluentNumber")], ["fluent_number(...).format", "NUMBER()"])
p("R12", "Options given later override earlier ones; the rest are inherited",
  "Wrapping a Fluent number or date in NUMBER/DATETIME (or fluent_number/fluent_date) keeps every option already set that the call does not name and takes the named ones, to any depth, without changing the wrapped object or the class defaults. "
  "Invalid values of validated options are rejected with an exception at call time and never leak into another object.",
  ["programs", "histories"], "every chain of wrappings with any option subsets",
  "Tests wrap once; merging is over all chains.",
  [RT + "types.py"], [("merge_options", RT + "types.py:merge_options")], ["fluent_number", "fluent_date"])
p("R13", "Dates and times show the right instant in the right zone and locale style",
  "A date/datetime argument is formatted in the bundle's locale with the requested dateStyle/timeStyle (medium date by default), the datetime converted to the requested timeZone, naive datetimes taken as UTC, and aware ones keeping their own zone when none is requested. "
  "The instant shown never changes with the way it is passed (directly, through fluent_date, through DATETIME).",
  ["inputs", "configurations"], "instants (incl. DST folds and gaps) x zones x styles x locales",
  "Tests sample a few instants; the function is over the whole product.",
  [RT + "types.py"], [("FluentDateType.format", RT + "types.py:FluentDateType"), ("_ensure_datetime_tzinfo", RT + "types.py")], ["FluentBundle.format_pattern"])
p("R14", "Arguments keep their value: Fluent numbers and dates are the natives they wrap",
  "Passing a native int, float, Decimal, date or datetime through Fluent (as an argument, or fluent_number/fluent_date) yields an object of the same native type, equal to the original (fold, tzinfo and microseconds included), also when nested; strings are inserted verbatim. "
  "Objects of other types are refused with an error, not stringified.",
  ["inputs"], "every native value",
  "Tests convert a few values; preservation is over all values.",
  [RT + "types.py", RT + "utils.py"], [("native_to_fluent", RT + "utils.py"), ("from_date_time", RT + "types.py")], ["custom function arguments", "fluent_number", "fluent_date"])
p("R15", "Localization falls back through locales in order and loads lazily, once",
  "format_value returns the message's value from the first bundle in locale order (then loader order) that has the message with a value, and otherwise the message id; the id's references resolve within that bundle only. "
  "Bundles are built only when needed, each (locale, resource list) is requested from the loader at most once over the object's life, and results do not depend on what was formatted before; each bundle gets its locale first followed by the remaining fallbacks, and the configured functions, isolation and bundle class. A subclass may bring bundles of its own, as the documentation shows.",
  ["histories", "configurations"], "locale chains x resources present/missing/partial x sequences of format_value calls",
  "Tests have two locales and one order of calls; fallback is over all configurations and histories.",
  [RT + "fallback.py"], [("_bundles/_iterate_bundles", RT + "fallback.py:FluentLocalization"), ("format_value", RT + "fallback.py:FluentLocalization")], ["FluentLocalization.format_value"])
p("R16", "The disk loader yields what is on disk, per root, in resource order",
  "FluentResourceLoader.resources yields, for each root in order, the parsed resources of the requested ids that exist under it for that locale, in the order requested, decoding UTF-8; missing files are skipped and a root with none yields nothing. {locale} is substituted wherever it occurs in roots or ids.",
  ["configurations", "inputs"], "every directory layout, root list, id list, locale and file content",
  "Tests mock the file system with a fixed layout; the claim is over all layouts.",
  [RT + "fallback.py"], [("resources", RT + "fallback.py:FluentResourceLoader"), ("localize_path", RT + "fallback.py:FluentResourceLoader")], ["FluentResourceLoader.resources"])
p("R17", "A bundle uses its first usable locale for numbers, dates and plurals",
  "The first locale identifier in the list that the locale database knows decides number and date formatting, plural categories and ordinal categories; unknown or malformed identifiers are skipped without raising, and with none usable a default locale is used.",
  ["configurations", "inputs"], "every list of locale identifiers, known, unknown or malformed; every number",
  "Tests use three locales; the rule is over every list and number.",
  [RT + "bundle.py"], [("_get_babel_locale", RT + "bundle.py"), ("plural/ordinal forms", RT + "bundle.py:__init__")], ["FluentBundle"])

# ---------------------------------------------------------------- tools / docs
p("T01", "Command-line tools do what the library does, for every file",
  "For every UTF-8 file, whatever the locale, tools/parse.py prints the JSON of its parse, tools/serialize.py turns that JSON into the canonical Fluent source, tools/fluentfmt.py prints the canonical source directly, so fluentfmt equals parse piped to serialize and is idempotent up to the final newline; the pygments command prints the file with only colour codes added.",
  ["inputs"], "every UTF-8 file content",
  "The tools have no tests at all.",
  ["tools/parse.py", "tools/serialize.py", "tools/fluentfmt.py", "fluent.pygments/fluent/pygments/cli.py"], [("tools", "tools/"), ("cli", "fluent.pygments/fluent/pygments/cli.py")], ["stdout of the tools"])
p("D01", "The docs build covers every project and version and touches only its output",
  "For every set of projects, tags and cut-off date, each project's dev version and each release (lightweight or annotated tag) newer than the cut-off is built exactly once from the right checkout into its own directory, with the version list (dev, stable, releases newest first) shown on every page; scripts/build-docs does this for the projects its options name. "
  "index.html redirects to stable or dev, stable points to the newest release (and is left alone without one), the theme's static files are removed from each version except its documentation options, the temporary worktree is removed, a build in which sphinx-build fails or warns ends with an error, everything else in the build directory is left alone, and nothing outside the build directory, the project's version template and that worktree is written or deleted.",
  ["histories", "configurations"], "every set of projects and tags, every cut-off, repeated builds over an existing build directory",
  "Only a class-level command test exists; orchestration over all tag sets and rebuilds is untested.",
  ["fluent.docs/fluent/docs/build.py", "fluent.docs/fluent/docs/tags.py", "scripts/build-docs"], [("build", "fluent.docs/fluent/docs/build.py:build"), ("get_tag_infos", "fluent.docs/fluent/docs/tags.py")], ["fluent.docs.build.build", "get_tag_infos"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        fh.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
