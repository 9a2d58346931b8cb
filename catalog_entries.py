NA = {}

prop("C01", "Parsing always answers",
     "For every source text, parsing a resource and parsing a single entry terminate without raising and return a "
     "resource (or one entry) made only of messages, terms, comments and junk, whatever the input and with or without spans.",
     ["inputs"], "all source texts (any code points, any malformed syntax)",
     "The fixtures hold a few hundred hand-written texts; the guarantee is over every text, including every truncation and "
     "corruption of one.",
     [SYN + "parser.py", SYN + "stream.py", SYN + "errors.py"],
     [("syntax errors are caught per entry and turned into Junk", SYN + "parser.py:get_entry_or_junk"),
      ("error recovery always moves forward", SYN + "stream.py:skip_to_next_entry_start")])
prop("C02", "Parsing loses no source text",
     "The top-level entries of a parsed resource appear in source order, do not overlap, and everything between them is "
     "blank; each Junk carries exactly the source text it spans and at least one annotation, with a known code and a "
     "message, located inside that text.",
     ["inputs"], "all source texts", "Fixtures compare a few outcomes; no test checks that arbitrary text is fully accounted for.",
     [SYN + "parser.py", SYN + "stream.py"],
     [("junk slicing and annotation", SYN + "parser.py:get_entry_or_junk"), ("blank skipping", SYN + "stream.py:skip_blank_block")])
prop("C03", "Entries follow the Fluent grammar",
     "A text is split into messages, terms, attributes, comments and junk exactly as the Fluent 1.0 grammar prescribes: "
     "valid entries are recognised with their identifiers, values and attributes, and everything else, and only that, is junk.",
     ["inputs"], "all source texts", "Reference fixtures sample the grammar; acceptance must agree on every text.",
     [SYN + "parser.py", SYN + "stream.py"],
     [("entry dispatch and recursive descent", SYN + "parser.py:get_entry"), ("identifier and blank rules", SYN + "stream.py")])
prop("C04", "Pattern whitespace follows the grammar",
     "The text of a pattern is the source text with exactly the prescribed whitespace removed: blank around the value, the "
     "common indentation of its continuation lines, and trailing blank; relative indentation and inner blank lines stay, "
     "and a pattern ends where the grammar says it ends.",
     ["inputs"], "all pattern layouts: any mix of indents, blank lines, placeables, special line starts and line endings",
     "Layout combinations are unbounded; the fixtures hold a few dozen.",
     [SYN + "parser.py", SYN + "stream.py"],
     [("dedentation", SYN + "parser.py:dedent"), ("continuation rule", SYN + "stream.py:is_value_continuation")])
prop("C05", "Expressions follow the grammar",
     "Placeables, literals, references, call arguments and select expressions are accepted exactly when the grammar and its "
     "well-formedness rules allow them, and the resulting tree holds exactly the written names, literals, arguments, "
     "variants and default.",
     ["inputs"], "all expression texts", "Fixtures cover one example per rule; every combination must be decided the same way.",
     [SYN + "parser.py", SYN + "stream.py"],
     [("expression parsing and rejection rules", SYN + "parser.py:get_expression"),
      ("call arguments", SYN + "parser.py:get_call_arguments"), ("escapes", SYN + "parser.py:get_escape_sequence")])
prop("C09", "Comments keep level, text and owner",
     "Comment lines of one level join into one comment holding exactly their text, group and resource comments stand alone, "
     "and a plain comment belongs to a message or term exactly when that entry is well-formed and starts on the next line.",
     ["inputs"], "all comment layouts", "Attachment depends on what follows; the fixtures hold a handful of layouts.",
     [SYN + "parser.py", SYN + "stream.py"],
     [("comment stashing", SYN + "parser.py:parse"), ("same-level continuation", SYN + "stream.py:is_next_line_comment")])
prop("C06", "Spans are exact, and optional",
     "Every node of a parsed tree spans exactly the source text it was written as, children lie inside their parents in "
     "source order without overlap, and parsing without spans yields the same tree with no spans.",
     ["inputs"], "all source texts", "Span fixtures cover a few entries; tools slice arbitrary sources by these offsets.",
     [SYN + "parser.py", SYN + "ast.py"],
     [("span decoration", SYN + "parser.py:with_span"), ("text and indent spans", SYN + "parser.py:get_pattern")])
prop("C07", "A broken entry never damages its neighbours",
     "Whatever text stands on its own lines between well-formed entries, those entries are still parsed to exactly the tree "
     "they have on their own: errors are confined to the entry they occur in.",
     ["inputs"], "all damaged texts placed before, between and after well-formed entries",
     "Recovery depends on the damaged text, of which fixtures hold only examples.",
     [SYN + "parser.py", SYN + "stream.py"],
     [("junk recovery", SYN + "parser.py:get_entry_or_junk"), ("entry start scan", SYN + "stream.py:skip_to_next_entry_start")])
prop("C08", "CRLF and LF are interchangeable",
     "Writing any of the line breaks of a source as CRLF instead of LF changes nothing in the parsed resource except offsets "
     "and the line ends inside junk.",
     ["inputs"], "all source texts and both line endings", "CRLF fixtures exist for a handful of constructs only.",
     [SYN + "stream.py", SYN + "parser.py"],
     [("CRLF normalization", SYN + "stream.py:get"), ("line end handling", SYN + "stream.py:expect_line_end")])
prop("C10", "Serialize and parse round-trip",
     "Serializing a parsed resource gives a text that parses, without junk, to an equal resource (junk left out), and "
     "serializing that again gives the same text.",
     ["inputs"], "all parsed resources",
     "Round-trip tests run on fixtures; unusual whitespace, braces, special line starts and comments break it one input at a time.",
     [SYN + "serializer.py", SYN + "parser.py"],
     [("pattern layout", SYN + "serializer.py:serialize_pattern"), ("comment layout", SYN + "serializer.py:serialize_comment")])
prop("C11", "Junk survives serialization verbatim",
     "With junk enabled, the serialized text contains each junk of the resource verbatim and in place, and parses back to the "
     "same entries and the same junk.",
     ["inputs"], "all parsed resources with errors", "Junk content is arbitrary text; tests hold two examples.",
     [SYN + "serializer.py", SYN + "parser.py"],
     [("junk serialization", SYN + "serializer.py:serialize_entry"), ("junk handling per resource", SYN + "serializer.py:serialize")])
prop("C13", "The JSON form of a tree is faithful",
     "Converting any parsed tree to JSON and back gives an equal tree with the same spans, and the JSON form is made of plain "
     "values naming every node's type and every field, none of them shared with the tree.",
     ["inputs"], "all parsed trees", "Fixture JSON files sample it; every node shape must convert.",
     [SYN + "ast.py"], [("conversion", SYN + "ast.py:to_json"), ("reconstruction", SYN + "ast.py:from_json")])
prop("C14", "Clones are equal and independent; equality is content",
     "Cloning a tree gives an equal tree sharing no node or list with it, and two trees are equal exactly when they have the "
     "same node types and content, ignoring only the fields asked to be ignored.",
     ["inputs", "histories"], "all pairs of parsed trees, and any change to a clone",
     "Tests compare a few pairs; equality must be decided for any two trees.",
     [SYN + "ast.py"], [("deep copy", SYN + "ast.py:clone"), ("structural comparison", SYN + "ast.py:equals")])
prop("C15", "Visitors reach every node, transformers change only what they are told",
     "A visitor is called for every node of its type unless an outer handler stops descending; a transformer replaces or "
     "removes exactly the nodes its handlers change, and leaves everything else of the tree as it was. It works in place: the nodes and lists it keeps are the same objects.",
     ["inputs", "histories"], "all parsed trees and all choices of handled node types",
     "Tests run two hand-written visitors.",
     [SYN + "visitor.py"], [("generic traversal", SYN + "visitor.py:generic_visit"), ("replacement", SYN + "visitor.py:Transformer")])
prop("C16", "Literals decode to the written value",
     "Decoding a string literal yields the written characters with each escape replaced by the character it names (U+FFFD "
     "where it names none), and decoding a number literal yields the written value and number of decimals.",
     ["inputs"], "all string and number literals", "There are 2**24 escapes and arbitrarily long digits; tests hold a dozen.",
     [SYN + "ast.py"], [("escape decoding", SYN + "ast.py:StringLiteral.parse"), ("number decoding", SYN + "ast.py:NumberLiteral.parse")])
prop("C17", "Parsing one entry agrees with parsing the resource",
     "parse_entry returns the first message or term (or junk) of the text, skipping the comments before it, identical to what "
     "parsing the whole resource yields there, apart from the attached comment.",
     ["inputs"], "all source texts", "Both entry points share code but differ in skipping rules; tests hold a dozen texts.",
     [SYN + "parser.py"], [("single-entry parsing", SYN + "parser.py:parse_entry")])
prop("C19", "Syntax operations keep nothing from one call to the next",
     "Parsing, serializing and visiting give the same result on a text or tree whatever the same parser, serializer or visitor "
     "object (or any other) did before, including after junk and after a refused tree; serializing and visiting leave the tree "
     "unchanged, doing it again gives the same, and no two trees share a node.",
     ["inputs", "histories"], "all pairs of texts and all operations done before",
     "Tests use fresh objects for every case; caches and leftovers of an earlier call only show in histories.",
     [SYN + "parser.py", SYN + "serializer.py", SYN + "visitor.py"],
     [("parser objects", SYN + "parser.py:FluentParser"), ("serializer objects", SYN + "serializer.py:FluentSerializer"),
      ("visitor objects", SYN + "visitor.py:Visitor")])
prop("C43", "The parser stream is a cursor over characters",
     "Whatever mix of advancing, peeking and resetting is done on a parser stream, it shows the character at the cursor and at "
     "the peek, CRLF counts as one line break, peeking never moves the cursor, advancing forgets the peek, and beyond the end "
     "there is no character.",
     ["inputs", "histories"], "all texts and all sequences of stream operations",
     "The tests of the stream walk a few four-letter texts; CRLF and the end at every place need all texts and histories.",
     [SYN + "stream.py"], [("cursor and peek", SYN + "stream.py:ParserStream")])

# --------------------------------------------------------------------------- runtime
prop("C20", "Formatting always yields a string and a list of errors",
     "format_pattern on any compiled pattern with any arguments returns a string and a list of exception objects, never raising: "
     "damage, wrong types, missing or extreme values, and functions and values that raise any Exception all end in a visible "
     "fallback and a reported error.",
     ["inputs", "fault_sequences"], "all resources and all argument values",
     "A translation or argument nobody foresaw must not take an application down; tests try a few bad values.",
     [RT + "resolver.py", RT + "bundle.py", RT + "types.py", RT + "builtins.py"],
     [("error containment", RT + "bundle.py:format_pattern"), ("value rendering", RT + "resolver.py:resolve")])
prop("C21", "Formatting means what the Fluent semantics say",
     "The text produced for a message or attribute, and the kinds and messages of its errors, are those of the Fluent resolution "
     "rules: text, variables, literals, message and term references, attributes, nested placeables, selections and calls, each "
     "missing thing shown as its own source form in braces.",
     ["inputs"], "all resources and arguments", "The compiler-to-resolver translation must be right for every expression in every position.",
     [RT + "resolver.py", RT + "prepare.py", RT + "bundle.py"],
     [("compilation", RT + "prepare.py:Compiler"), ("resolution", RT + "resolver.py"), ("reference lookup", RT + "resolver.py:EntryReference")])
prop("C22", "Select expressions pick the first matching variant",
     "A selector picks the first variant whose key equals its string, whose number equals its number, or, for numbers, whose name is "
     "its CLDR plural category (ordinal when asked) in the bundle's locale; the default variant otherwise, also when the selector failed.",
     ["inputs"], "all selector values, keys, variant orders and locales",
     "Plural rules depend on the value, its visible decimals and the locale; tests hold a few English ones.",
     [RT + "resolver.py", RT + "bundle.py", RT + "types.py"],
     [("variant matching", RT + "resolver.py:match"), ("selection", RT + "resolver.py:SelectExpression"), ("plural category", RT + "bundle.py:_plural_form")])
prop("C23", "Bidi isolation wraps interpolations and only them",
     "With isolation every placeable of a pattern that has other elements, string literals excepted, is wrapped in one FSI/PDI pair; "
     "without isolation, or once the marks are removed, the text is the same.",
     ["inputs"], "all patterns and arguments", "Marks must balance for every nesting and fallback; tests check some.",
     [RT + "resolver.py"], [("isolation", RT + "resolver.py:Pattern")])
prop("C24", "Terms see only the arguments of their call",
     "Inside a term only the named arguments of the reference are variables: the caller's arguments neither reach the term nor what it "
     "refers to, and are in force again after the reference.",
     ["inputs"], "all arguments, call forms and chains of terms", "Leaks show only for particular nestings of references.",
     [RT + "resolver.py"], [("scoped arguments", RT + "resolver.py:TermReference"), ("environment stack", RT + "resolver.py:CurrentEnvironment")])
prop("C25", "Reference cycles are cut and reported, acyclic references never are",
     "Whatever messages and terms refer to, formatting ends; a pattern reached while it is being resolved is shown as {???} with one "
     "cyclic reference error, and a pattern used twice without a cycle is resolved both times.",
     ["inputs", "histories"], "all reference graphs and positions of references", "Cycles go through variants, attributes, selectors and arguments.",
     [RT + "resolver.py"], [("dirty set", RT + "resolver.py:Pattern"), ("reference chain", RT + "resolver.py:ResolverEnvironment")])
prop("C26", "Expansion is bounded",
     "A formatting that would show more placeables than the part limit or a value longer than the length limit is abandoned with an "
     "error at that pattern, so that output and work stay bounded, while anything within the limits is shown in full.",
     ["inputs"], "all expanding resources and argument lengths around the limits", "Off-by-one limits and resets per reference only show at the limits.",
     [RT + "resolver.py"], [("part count", RT + "resolver.py:MAX_PARTS"), ("length cut", RT + "resolver.py:ResolverEnvironment")])
prop("C27", "A bundle is a registry where the first definition wins",
     "After any sequence of add_resource calls a message or term is the one added first, or last where overriding was allowed; "
     "has_message and get_message know exactly the messages, and value and attributes are those of the definition in force.",
     ["histories", "inputs"], "all sequences of additions and lookups", "Caching of compiled messages makes results depend on the order of calls.",
     [RT + "bundle.py"], [("registration", RT + "bundle.py:add_resource"), ("compile cache", RT + "bundle.py:_lookup")])
prop("C28", "Formatting is repeatable and free of side effects",
     "Formatting a pattern again with equal arguments gives the same text and errors whatever was formatted before, in any bundle "
     "sharing the resource, and changes neither the arguments nor the resource.",
     ["histories"], "all sequences of formattings", "State leaks (environments, dirty patterns, options) show only in later calls.",
     [RT + "resolver.py", RT + "bundle.py", RT + "types.py"],
     [("per-call environment", RT + "bundle.py:format_pattern"), ("clean up", RT + "resolver.py:Pattern")])
prop("C29", "Functions get exactly their arguments, and failures stay contained",
     "A call passes the evaluated positional arguments and the named ones, by name, in the order written, once, to the function of that name; an "
     "unknown function or one that raises shows its name in braces and reports the error, leaving the rest of the pattern as it is.",
     ["inputs", "fault_sequences"], "all call forms, arguments and exceptions", "Callables are the applications' own and fail in any way.",
     [RT + "resolver.py", RT + "bundle.py"], [("calls", RT + "resolver.py:FunctionReference"), ("function table", RT + "bundle.py:__init__")])
prop("C30", "Formatting options merge predictably",
     "Wrapping a number or date again (in code or by NUMBER and DATETIME) keeps the value and the options not given, replaces the ones "
     "given, leaves the original untouched, and refuses values outside those documented.",
     ["inputs", "histories"], "all chains of option sets", "A forgotten or shared option leaks from one formatting to another.",
     [RT + "types.py", RT + "builtins.py"], [("option merge", RT + "types.py:merge_options"), ("option validation", RT + "types.py:NumberFormatOptions")])
prop("C31", "Numbers are written with exactly the digits their options ask for",
     "A number is shown rounded half-even to the requested integer, fraction or significant digits, grouped, signed and with percent or "
     "currency as its options and locale say, and number literals keep their written decimals.",
     ["inputs"], "all numbers and option sets", "Digits interact with rounding and defaults for each value; tests hold a dozen.",
     [RT + "types.py", RT + "builtins.py", "fluent.syntax/fluent/syntax/ast.py"],
     [("number formatting", RT + "types.py:FluentNumber.format"), ("pattern options", RT + "types.py:_apply_options")])

PYG = "fluent.pygments/fluent/pygments/"
prop("C32", "Application values become Fluent values of the same value",
     "An int, float, Decimal, date or datetime given to a bundle reaches functions and formatting as a Fluent number or date equal "
     "to it, of that type, with default options; one that already is keeps its options, and any other value passes unchanged.",
     ["inputs"], "all application values", "Values of every type, precision and time zone pass through one conversion.",
     [RT + "utils.py", RT + "types.py"],
     [("conversion", RT + "utils.py:native_to_fluent"), ("number factory", RT + "types.py:fluent_number"), ("date factory", RT + "types.py:fluent_date")])
prop("C33", "Dates show the style and time zone asked for",
     "A date or datetime is shown in the locale's form of the requested date and time styles, dates never shifted, aware datetimes "
     "moved to the requested time zone (daylight saving included), naive ones taken as UTC when a zone is requested.",
     ["inputs"], "all dates, times, source zones, requested zones and styles", "Shifts across midnight, year ends and clock changes are rare points.",
     [RT + "types.py", RT + "builtins.py"],
     [("date formatting", RT + "types.py:FluentDateType.format"), ("time zones", RT + "types.py:_ensure_datetime_tzinfo")])
prop("C34", "A localization shows the first locale that has the message",
     "FluentLocalization shows a message from the first locale, and within it the first place, that has it with a value, formatted in "
     "that locale with the localization's functions and isolation; the identifier itself when none has it.",
     ["inputs", "fault_sequences"], "all distributions of messages over locales, places and files", "Any file or message may be missing in any locale.",
     [RT + "fallback.py"], [("fallback", RT + "fallback.py:FluentLocalization.format_value"), ("bundles", RT + "fallback.py:FluentLocalization._iterate_bundles")])
prop("C35", "A localization loads lazily, once, and answers repeatably",
     "Resources of a fallback locale are loaded only when an earlier one lacks a requested message, each at most once, and an answer "
     "depends on neither earlier requests nor requests made during a formatting.",
     ["histories"], "all sequences of requests", "Shared lazily filled caches depend on the order of requests.",
     [RT + "fallback.py"], [("lazy bundle cache", RT + "fallback.py:FluentLocalization._bundles")])
prop("C36", "The resource loader reads exactly the files that exist",
     "For each root in order, the loader yields the resources of exactly the files that exist there, in the order of the resource "
     "identifiers, with the locale filled in wherever written, and with the text the files hold in UTF-8.",
     ["inputs", "fault_sequences"], "all subsets of files and all their contents", "Missing files, several roots and line ends combine freely.",
     [RT + "fallback.py"], [("file loading", RT + "fallback.py:FluentResourceLoader")])
prop("C37", "Highlighting loses no text",
     "The tokens of the Fluent lexer are the source text itself, in order, without gaps or overlaps, none empty.",
     ["inputs"], "all source texts", "Highlighters must survive every text, also broken ones; tests hold a few snippets.",
     [PYG + "lexer.py"], [("tokenising", PYG + "lexer.py:Tokenizer")])
prop("C38", "Highlighting marks every construct as what it is",
     "Comments, junk, message and term names, attributes, variables, functions, text, strings and numbers get the token types of "
     "their kind exactly where the parser finds them; everything between is punctuation.",
     ["inputs"], "all source texts", "Token positions come from spans of the whole tree; tests hold a few snippets.",
     [PYG + "lexer.py"], [("token stream", PYG + "lexer.py:Tokenizer"), ("parsing and spans", SYN + "parser.py")])
prop("C12", "Trees built in code survive serialization",
     "A tree of the form the parser can produce, built in code with any texts, expressions and comments, is serialized to text that "
     "parses back to an equal tree without junk.",
     ["inputs"], "all trees built in code: texts, layouts, nestings, places and comments",
     "Tools build trees from data; special first characters and line starts must be escaped by layout in every combination.",
     [SYN + "serializer.py", SYN + "ast.py", SYN + "parser.py"],
     [("pattern layout", SYN + "serializer.py:serialize_pattern"), ("expressions", SYN + "serializer.py:serialize_expression")])
prop("C18", "Annotations say what is wrong and where",
     "Junk has one annotation; its code is a known one, its message says what its code and arguments stand for, and the text at its "
     "position, which lies in the junk, has the error the code names.",
     ["inputs"], "all malformed texts", "Fixtures check one text per code; tools report positions of any text.",
     [SYN + "parser.py", SYN + "errors.py", SYN + "stream.py"],
     [("error codes and messages", SYN + "errors.py:get_error_message"), ("annotation", SYN + "parser.py:get_entry_or_junk")])
prop("C39", "Command-line tools print what the library computes",
     "For every file, fluentfmt prints the serialization of the parsed text, parse prints the JSON of the tree, and serialize prints "
     "the text of the tree its JSON file describes, in order and leaving its junk out, and nothing else.",
     ["inputs"], "all files' contents", "The tools have no tests at all.",
     ["tools/fluentfmt.py", "tools/parse.py", "tools/serialize.py"],
     [("formatting", "tools/fluentfmt.py:pretty_print"), ("parsing", "tools/parse.py:print_ast"), ("serializing", "tools/serialize.py:pretty_print")])
prop("C40", "A bundle follows the first known locale of its list",
     "Numbers, dates and plural categories shown or selected on by a bundle follow the first of its locales that is known, and a "
     "fixed default when none is; a localization formats each message by the locale it was found for.",
     ["inputs"], "all lists of locales, numbers and dates", "Tests use single known locales.",
     [RT + "bundle.py", RT + "utils.py", RT + "fallback.py"],
     [("locale choice", RT + "bundle.py:_get_babel_locale"), ("plural rules", RT + "bundle.py:FluentBundle")])
DOCS = "fluent.docs/fluent/docs/"
prop("C41", "The documented releases are the tags newer than the cut-off",
     "get_tag_infos lists exactly the fluent.* tags whose commit date is after the cut-off date, newest first, each with the project, "
     "version and date its tag states.",
     ["inputs"], "all lists of tags with any names and dates, all cut-off dates", "The documentation tools have no tests.",
     [DOCS + "tags.py"], [("tag listing", DOCS + "tags.py:get_tag_infos"), ("tag names", DOCS + "tags.py:TagInfo")])
prop("C42", "The documentation build covers every version and links them",
     "Building documentation builds, for each project, the development version and each newer release from its own sources, links "
     "them to each other newest first, points stable to the newest release, and leaves no working tree behind.",
     ["inputs", "histories"], "all lists of tags, cut-off dates, projects and earlier builds", "The documentation tools have no tests.",
     [DOCS + "build.py", DOCS + "tags.py", DOCS + "__init__.py"],
     [("versions", DOCS + "build.py:build"), ("one version", DOCS + "build.py:ProjectBuilder")])
prop("C44", "A localization hands on what it was given",
     "A FluentLocalization asks its loader for each locale in turn with the resource identifiers given, and makes one bundle for each "
     "list of resources yielded: of the bundle class given, for the locales from that one on, with the functions and the isolation "
     "given and just those resources; subclasses may make or find the bundles otherwise, and what was given is not changed.",
     ["inputs", "histories"], "all locale lists, yields of the loader, functions, kinds of subclass and requests",
     "Tests use one mock loader and the default bundle.",
     [RT + "fallback.py"], [("bundles", RT + "fallback.py:FluentLocalization._iterate_bundles"), ("settings", RT + "fallback.py:FluentLocalization._create_bundle")])
PYGS = "fluent.pygments/fluent/pygments/"
prop("C45", "The highlight command shows the whole file as Fluent",
     "For every file, the command line of fluent.pygments hands the text of the file, whole and unchanged but for line ends, to the "
     "Fluent lexer and a terminal formatter, once, and writes to standard output.",
     ["inputs"], "all files' contents", "The command has no tests.",
     [PYGS + "cli.py", PYGS + "lexer.py"], [("command", PYGS + "cli.py:main")])
prop("C46", "What is shown survives reformatting",
     "A resource that was serialized and parsed again, turned to JSON and back, or cloned has the same messages, and each shows the "
     "same text with the same errors for the same arguments as in the original (lines ending in a lone carriage return aside).",
     ["inputs"], "all resources and arguments", "No test formats what the serializer wrote.",
     [SYN + "serializer.py", SYN + "parser.py", SYN + "ast.py", RT + "resolver.py", RT + "prepare.py"],
     [("serializing", SYN + "serializer.py:serialize_pattern"), ("compiling", RT + "prepare.py:Compiler"), ("formatting", RT + "bundle.py:FluentBundle.format_pattern")])
prop("C47", "What a message shows depends only on what it refers to",
     "Entries, arguments, functions and further locales that a message refers to neither directly nor indirectly change neither the text "
     "it shows nor the errors reported, whenever they were added and whatever was formatted before.",
     ["inputs", "histories"], "all further entries, arguments and orders of adding them", "Tests use small bundles that hold only what is shown.",
     [RT + "bundle.py", RT + "resolver.py", RT + "prepare.py"],
     [("registry", RT + "bundle.py:FluentBundle.add_resource"), ("references", RT + "resolver.py:resolveEntryReference")])
prop("C48", "Overlapping formattings do not disturb each other",
     "While a formatting is under way, other formattings with the same bundle or the same resource (by a function or value it calls, or by another "
     "thread while it waits in one) give the text and errors they give alone, and so does it, however they take turns.",
     ["inputs", "schedules"], "all interleavings of two formattings at their calls out", "Bundles are shared by the threads of a server; tests format one pattern at a time.",
     [RT + "bundle.py", RT + "resolver.py"],
     [("state of a formatting", RT + "resolver.py:ResolverEnvironment"), ("formatting", RT + "bundle.py:FluentBundle.format_pattern")])
