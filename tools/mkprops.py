#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in readable form)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "where": w} for n, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "ANSI output shows every character in exactly the style it was written with",
  "For every history of styled writes to an ANSI writer (the string-based one or the byte-stream one, through any of its write methods), a terminal that interprets the emitted SGR escape codes shows exactly the written characters, each with exactly the foreground, background and intensity (bold and faint being independent terminal attributes) it was written with. Finishing the writer leaves the terminal in its default style and adds no visible text. No escape code other than well-formed SGR sequences is ever added. (Control characters that are part of a text are passed through unchanged; the text is taken not to contain escape sequences of its own.)",
  ["histories", "inputs"], "every sequence of (text, style) writes, every text including the empty one, every one of the 867 styles and every ordered pair of consecutive styles",
  "Tests check about ten literal outputs with five styles; a wrong code for one colour, a stale tracked style after an empty write, or a wrong reset for one of the 751,689 style transitions is invisible to them.",
  ["ansi/src/ansi.rs", "ansi/src/io.rs", "ansi/src/util.rs", "style/src/lib.rs"],
  [("tracks the style last emitted and writes only the difference, or a full reset when returning to the default style", "ansi/src/ansi.rs Ansi::write_str, ansi/src/io.rs Ansi::write"), ("colour/intensity to SGR code tables", "ansi/src/util.rs")],
  ["bytes received by the wrapped sink"], [("style the sink is currently in", "Ansi::current")])

p("C02", "HTML output is well formed and gives every character exactly its style",
  "For every history of styled writes to the HTML writer followed by finish, the output is a balanced sequence of text and span elements whose text is exactly the written characters. A character written in the default style is outside any span; any other character is inside a span whose CSS declarations are exactly the colour, background colour and font weight that its style calls for.",
  ["histories", "inputs"], "every sequence of (text, style) writes, every text including the empty one, all 867 styles and every ordered pair of consecutive styles",
  "Tests check about eight literal outputs; unbalanced spans need particular transitions (styled to styled, styled to default across an empty write), and most colour table entries are never rendered.",
  ["html/src/html.rs", "html/src/util.rs"],
  [("closes and opens one flat span per style change", "html/src/html.rs Html::write_str / finish"), ("CSS tables", "html/src/util.rs")],
  ["text received by the wrapped sink"], [("style of the currently open span", "Html::current")])

p("C03", "HTML output never lets text become markup",
  "For every text, in every style and however it is split over writes, the characters & < > \" and ' coming from the text never appear literally in the HTML output, and decoding the character references of the output gives back exactly the original text. Text that already looks like a character reference or a tag is escaped like any other text.",
  ["inputs", "histories"], "every Unicode text, every style context, every split of the text into writes",
  "No test contains a single character that needs escaping.",
  ["html/src/html.rs"], [("text goes through an HTML escaper on its way to the sink", "html/src/html.rs Html::write_str")],
  ["text received by the wrapped sink"])

p("C04", "Plain output is exactly the text, with styling discarded",
  "For every history of styled writes to a plain writer (string-based or byte-stream), the sink receives exactly the concatenation of the written texts: nothing added, removed, reordered or changed, whatever the styles.",
  ["histories", "inputs"], "every sequence of (text, style) writes over all styles and Unicode texts",
  "Tests render a dozen short ASCII texts.",
  ["plain/src/plain.rs", "plain/src/io.rs"], [("styles are ignored, text is forwarded", "plain/src/plain.rs, plain/src/io.rs")],
  ["text received by the wrapped sink"])

p("C05", "All outputs agree on the content and styling of the same attributed data",
  "For every attributed value, rendering it as plain text, as ANSI, as HTML and into an attributed string yields the same characters, and ANSI, HTML and the attributed string assign every character the same style. The string-based and byte-stream versions of the same output produce identical bytes, and rendering the same value again gives the same result.",
  ["programs", "inputs"], "every program of nested formatter operations and format strings, every output kind",
  "Tests compare outputs of at most three flat pieces; the README's primary goal (styling decoupled from output) is a statement over all programs and all outputs.",
  ["core/src/formatter.rs", "ansi/src/ansi.rs", "ansi/src/io.rs", "html/src/html.rs", "plain/src/plain.rs", "plain/src/io.rs", "core/src/string.rs"],
  [("every sink gets the same (text, style) calls from the formatter", "core/src/formatter.rs")], ["bytes received by each sink"])

p("C06", "Output depends only on styled characters, not on how they were chunked",
  "For the string-based ANSI, HTML and plain writers, and for the byte-stream writers with empty writes left out, the bytes produced depend only on the sequence of (character, style) pairs written: splitting or merging adjacent writes of one style, and inserting empty writes in any style, changes nothing. In particular no styling is emitted between characters of the same style, none for text that is never written, and none at all while only default-styled text is written.",
  ["histories"], "every sequence of styled characters and every way to cut it into writes, including empty ones",
  "One test inserts one empty argument between two blue ones; the number of cuts and of style sequences is exponential.",
  ["ansi/src/ansi.rs", "ansi/src/io.rs", "html/src/html.rs"],
  [("style changes are emitted lazily, when the next text in a different style arrives", "Ansi::write_str, Html::write_str")], ["bytes received by the wrapped sink"])

p("C07", "Restyling sets exactly the aspects it names and composes in order",
  "Applying any restyling to any style changes exactly the aspects (foreground, background, intensity) the restyling names, to the values it names, and leaves the others alone; a complete style replaces all three. Pairs, triples and slices of restylings apply their elements in order so that later ones win, an absent optional restyling and the empty restyling change nothing, and references and boxes behave like what they point to.",
  ["inputs"], "every style and every restyling, including compositions",
  "Doc-tests apply four restylings to the default style only.",
  ["style/src/lib.rs"], [("Restyle implementations", "style/src/lib.rs")], ["Style::with"])

p("C08", "A style difference is exact, minimal and round-trips",
  "For every two styles, the difference of one from the other names exactly the aspects in which they differ, with the values of the new style, and applying it to the original gives the new style. The difference of a style from itself is empty.",
  ["inputs"], "all pairs of styles", "One doc-test checks one pair out of 751,689.",
  ["style/src/lib.rs"], [("field-wise comparison", "style/src/lib.rs Style::diff_from")], ["Style::diff_from, Style::with"])

p("C09", "An attributed string records and replays every character with its style",
  "For every history of styled writes to an attributed string, displaying the string anywhere reproduces exactly the written characters in order, each with exactly the style it was written with, regardless of the style of the context it is displayed in. Displaying does not alter the string, it can be extended afterwards, and a clone evolves independently.",
  ["histories", "inputs"], "every sequence of styled writes (empty ones included), every display context, any number of runs",
  "Doc-tests use two or three runs of ASCII text; run merging and byte offsets only matter for longer histories and multi-byte text.",
  ["core/src/string.rs"], [("text buffer plus a list of (start offset, style) runs", "core/src/string.rs")], ["calls received by a recording writer when displayed"],
  [("style runs", "String::styles")])

p("C10", "Nested styling composes outermost to innermost and never leaks",
  "For every program of nested formatter operations, each emitted character has the style obtained by applying, to the style in force where the output started, every enclosing restyling from the outermost to the innermost; a write that carries its own style uses exactly that style. Leaving a scope restores the enclosing style, so siblings and later output are unaffected, and number-formatting flags of a placeholder never affect values nested inside a styled value.",
  ["programs"], "every nesting of sub-formatters, styled writes, standard-library writes, format strings, references and attributed strings",
  "No test nests anything: every example is a flat format string or a single sub-formatter.",
  ["core/src/formatter.rs", "core/src/arguments.rs", "core/src/display.rs", "core/src/string.rs"],
  [("a sub-formatter owns the combined style, the parent keeps its own", "core/src/formatter.rs with / with_args")], ["calls received by a recording writer"],
  [("style and flags of the current scope", "Formatter::style, Formatter::format")])

p("C11", "All convenience entry points produce the same rendering",
  "For every attributed value and every output kind, the formatting macro, the formatting function on prepared arguments, writing into a fresh writer (made by its constructor or its alias function) and finishing it, the conversion trait, and going through an attributed string all give the same result. Writing with a newline is the same as writing and then writing one line feed, and a sequence of writes gives the same as one format string with the pieces joined.",
  ["programs", "inputs"], "every program of formatter operations up to the bound, all output kinds and entry points",
  "Doc-tests exercise each entry point once with one argument.",
  ["core/src/format.rs", "core/src/to_string.rs", "core/src/write.rs", "core/src/io.rs", "ansi/src/format.rs", "ansi/src/to_string.rs", "html/src/format.rs", "html/src/to_string.rs", "plain/src/format.rs", "plain/src/to_string.rs", "src/lib.rs"],
  [("entry points delegate to one another", "format.rs / to_string.rs of each crate")], ["returned strings"])

p("C12", "Standard formatting options behave exactly as in std::fmt",
  "For every supported combination of alignment, sign, alternate form, zero padding, width, precision and formatting trait, and every value, the text produced is the text the standard library produces for the same specification, and padding carries the same style as the value. Style attributes in the specification never change the text.",
  ["inputs", "programs"], "all flag combinations x traits (Display, Debug and its hex forms, octal, hex, binary, exponent, pointer) x widths, precisions and values",
  "The copied std tests cover about 150 of several thousand flag/trait combinations, mostly on integers and one flag at a time; each combination is a separate arm of the expansion.",
  ["core/src/std_compat.rs", "core/src/arguments.rs", "macros/src/format.rs", "macros/src/to_tokens.rs"],
  [("a generated match with one arm per flag combination rebuilds the std specification", "core/src/std_compat.rs std_write!"), ("flags parsed and re-emitted by the macro", "macros/src/format.rs, macros/src/to_tokens.rs")], ["rendered text"])

p("C13", "Style attributes in a format string mean what is documented",
  "For every list of attributes (fg= or bg= followed by any colour name in lowercase, bold, normal, faint, in any order, possibly empty or with a trailing comma), the placeholder is rendered with exactly the aspects named, the later attribute winning when an aspect is named twice, and every other aspect inherited from the context. This includes attributes that name default values, which undo an inherited style.",
  ["inputs", "programs"], "all attribute lists up to the bound, in every inherited style context and combined with every kind of placeholder",
  "Tests use fg=blue/red/green/yellow/magenta/cyan, bg=red and bold; nine colours, faint, normal and default, and every inherited context are untested.",
  ["macros/src/format.rs", "macros/src/to_tokens.rs"], [("attribute list parser", "macros/src/format.rs"), ("token generation of the style difference", "macros/src/to_tokens.rs")], ["style of the calls received by a recording writer"])

p("C14", "Literals, escapes and argument references of a format string resolve as in std",
  "For every format string, literal text and doubled braces appear literally and in place, and each placeholder formats exactly the argument it refers to: implicit positions count only implicit placeholders, explicit positions, named arguments (in any declaration order) and captured variables each resolve to their own value, and an explicitly given name wins over a variable in scope. Repeating a reference formats the same value again.",
  ["programs", "inputs"], "all sequences of literal and placeholder pieces up to the bound, with all ways to supply the arguments",
  "Tests have at most two placeholders of one kind at a time and no escaped braces.",
  ["macros/src/lib.rs", "macros/src/format.rs"], [("piece parser and argument numbering", "macros/src/lib.rs format_args_impl")], ["rendered text"])

p("C15", "Malformed format strings and mismatched arguments are rejected at compile time",
  "A format string compiles if and only if it follows the documented grammar (standard format specifications with an optional attribute list before the type) and its arguments match: unbalanced braces, unknown or malformed attributes or colours, misplaced or repeated parts, missing, unused or duplicate arguments, and counts the standard library cannot represent are compile errors and are never silently reinterpreted. Fill characters other than space, counts taken from arguments, white space inside a placeholder and named arguments referred to by position are currently unsupported and outside this property.",
  ["inputs", "programs"], "all strings over the specification alphabet up to the bound, all argument lists up to the bound",
  "There is not one compile-fail test in the repository.",
  ["macros/src/format.rs", "macros/src/lib.rs"], [("grammar and argument checks in the procedural macro", "macros/src/format.rs, macros/src/lib.rs")], ["compiler diagnostics for each macro call"])

p("C16", "Every argument expression is evaluated exactly once, in order, by reference",
  "For every format string and argument list, each argument expression is evaluated exactly once, in source order, when the arguments are prepared, however often its value is used by the format string and however often the arguments are rendered. Arguments are only borrowed, so the caller can keep using them, and every use of one argument sees the same object. A name that the format string captures is one argument too, however often it is used, also when it names a constant, each mention of which in code would make a value of its own.",
  ["programs", "histories"], "all usage patterns of up to the bound of positional and named arguments, any number of renderings",
  "One test has one side-effecting argument used twice.",
  ["macros/src/lib.rs"], [("arguments are bound by reference in one match before the rendering closure is built", "macros/src/lib.rs format_args_impl")], ["evaluation log kept by the argument expressions"])

p("C17", "Preparing and rendering format arguments does not allocate",
  "Preparing format arguments and rendering them through the plain, ANSI and HTML writers (or directly into a custom writer) performs no heap allocation by the library, for every format string, nesting and style. Only the sink, the formatted values themselves, reporting an I/O error, and the functions returning owned strings may allocate.",
  ["programs", "inputs"], "all formatter programs up to the bound and all format-specification shapes",
  "No test counts allocations; the documented no-allocation guarantee matters to no_std users.",
  ["core/src/lib.rs", "core/src/arguments.rs", "core/src/formatter.rs", "core/src/std_compat.rs", "ansi/src/ansi.rs", "html/src/html.rs", "plain/src/plain.rs"],
  [("arguments and formatters are borrowed stack values", "core/src/arguments.rs")], ["a counting global allocator"])

p("C18", "Short writes and interruptions of a byte sink are invisible",
  "For every sequence of whole-buffer writes, formatted writes and finish on a byte-stream writer, and every pattern of short writes and Interrupted errors of the sink, every operation succeeds and the sink receives exactly the bytes it would receive from an undisturbed run. A single low-level write whose own payload is interrupted may report Interrupted, and repeating it has no other effect than completing the output.",
  ["fault_sequences", "histories"], "every answer sequence of the sink within the bound on deviations, at every call, for every operation history of the bound",
  "Every test writes into a Vec, which accepts everything at once.",
  ["core/src/io.rs", "ansi/src/io.rs", "plain/src/io.rs"], [("retry loop of write_all", "core/src/io.rs Write::write_all"), ("escape codes are written with the sink's own write_all", "ansi/src/io.rs")], ["calls received by a fault-injecting sink"],
  [("style believed to be in force", "io::Ansi::current")])

p("C19", "Errors are reported, are the first one, and stop the output",
  "For every operation on any writer, if the sink fails at any point (an I/O error, a sink that accepts no more bytes, or a formatting sink error) or a displayed value returns an error, the operation returns an error (given displayed values that pass on the errors they get): the sink's own error when there is one, WriteZero for a sink that accepts nothing, and a generic formatting error otherwise. What reached the sink is then a prefix of the undisturbed output and the sink is not called again by that operation.",
  ["fault_sequences", "programs"], "every failing call position of every operation history and formatter program of the bound, every error kind",
  "One test makes a value fail; no test makes a sink fail.",
  ["core/src/io.rs", "core/src/formatter.rs", "core/src/write.rs", "ansi/src/ansi.rs", "ansi/src/io.rs", "html/src/html.rs", "plain/src/plain.rs", "plain/src/io.rs", "core/src/string.rs", "macros/src/lib.rs"],
  [("error trap between the fmt and io worlds", "core/src/io.rs ErrorTrap"), ("? after every piece", "macros/src/lib.rs")], ["returned results; calls received by a fault-injecting sink"])

p("C20", "A failed or partial low-level write can be retried without corrupting output",
  "A single low-level write on a byte-stream writer reports how many bytes of the given buffer the sink took, never more than given and never less or more than what was delivered; if it reports an error, no byte of the buffer was delivered. A caller that keeps retrying the rest of the same write after errors or partial progress ends up with output that shows every byte exactly once in the requested style. A caller that drops the rest of a write instead, and goes on with the next one, gets what was delivered in the requested style and the next write in its own, as long as no escape code had been cut off.",
  ["fault_sequences", "histories"], "every sequence of partial, interrupted, blocked, zero and failing sink answers within the bound, also in the middle of an escape code",
  "No test uses a sink that fails or writes partially.",
  ["ansi/src/io.rs", "plain/src/io.rs", "core/src/io.rs"], [("the tracked style is updated only once its escape code is completely written", "ansi/src/io.rs Ansi::write")], ["bytes received by a fault-injecting sink, interpreted by a terminal model"],
  [("style believed to be in force", "io::Ansi::current")])

p("C21", "Writers behave identically through references and adaptors",
  "Using a writer through a mutable reference (to any depth), through a by-reference adaptor or through a trait object gives the same sequence of operations on the underlying writer as using it directly, including operations the writer overrides, flushing, returned counts and errors. Flushing a byte-stream writer flushes its sink exactly once and reports its result, and writes nothing; whatever it reports, it has no effect on later output.",
  ["histories", "inputs"], "all operation sequences up to the bound through every wrapper",
  "Doc-tests call by_ref once; nothing checks that overridden methods or flush survive wrapping.",
  ["core/src/write.rs", "core/src/io.rs", "ansi/src/io.rs", "plain/src/io.rs"], [("forwarding implementations for mutable references", "core/src/write.rs, core/src/io.rs")], ["operations logged by an instrumented writer"])

p("C22", "Every feature combination builds and behaves as the feature table says",
  "Each of the 64 combinations of the documented features builds, offers exactly the items the documentation ties to the enabled features, and renders the same results as every other combination that offers the same items. The parts of the library behave the same way when used on their own, and without the std (or alloc) feature nothing in the library needs the standard library (or an allocator).",
  ["configurations"], "all subsets of {std, alloc, macros, ansi, html, plain}",
  "The test suite only builds with all features on.",
  ["Cargo.toml", "src/lib.rs", "core/src/lib.rs", "ansi/src/lib.rs", "html/src/lib.rs", "plain/src/lib.rs", "style/src/lib.rs"],
  [("cfg(feature) gates", "lib.rs of each crate")], ["compiler result and output of a probe program per combination"])

p("C23", "Formatting macros work whatever names are in scope at the call site",
  "Using the formatting macros gives the same result whatever items, variables or macros are in scope at the call site, including ones that shadow names of the standard prelude, the standard crates or this library, and including call sites without an implicit prelude. Names starting with __stylish are reserved for the macros.",
  ["configurations", "programs"], "every name of the prelude, crate and library namespaces shadowed, in every namespace it can be shadowed in, against every macro and construct",
  "Tests call the macros only from modules with ordinary names in scope.",
  ["macros/src/lib.rs", "macros/src/to_tokens.rs", "core/src/lib.rs", "core/src/write.rs", "core/src/format.rs"], [("all names in the expansion go through a re-export module of the library", "core/src/lib.rs, macros/src/lib.rs")], ["compiler result and output of a probe program per name"])

p("C24", "Independent renderings never influence each other",
  "The output of a writer depends only on the operations performed on it: any interleaving of operations on several writers, from one thread or several, and rendering inside another rendering, gives each writer exactly the output it would have produced alone.",
  ["schedules", "histories"], "all interleavings of operation sequences on two or three writers of any kinds, on one or two threads, and all nestings of a rendering inside another",
  "Every test uses one writer at a time on one thread.",
  ["ansi/src/ansi.rs", "ansi/src/io.rs", "html/src/html.rs", "plain/src/plain.rs", "core/src/formatter.rs", "core/src/string.rs"],
  [("all state lives in the writer value", "Ansi, Html, String")], ["output of each writer"])

p("C25", "Copies of writers and strings are independent, and all constructors agree",
  "A copy of a writer or of an attributed string, made at any point, holds what the original held at that point and from then on behaves exactly like a writer that went through the same history without ever being copied: what happens to one of the two, including finishing it, never affects the other, whichever goes on first and however the copy was made (a copy of a copy, or a copy made over an existing value). All ways to make a new writer or attributed string give one that behaves the same.",
  ["histories"], "every history before the copy, every pair of continuations after it, all 867 styles at the point of copying, every constructor",
  "No test copies a writer or attributed string.",
  ["ansi/src/ansi.rs", "ansi/src/io.rs", "html/src/html.rs", "plain/src/plain.rs", "plain/src/io.rs", "core/src/string.rs"],
  [("all state is in fields that are copied", "Clone implementations of Ansi, Html, Plain, String")], ["output of the original and of the copy"])

p("C26", "Functions returning strings never return partial output",
  "The functions, macros and trait methods that return a rendered string (or attributed string) panic exactly when a displayed value returns an error; otherwise they return the complete output, balanced and finished. They never return the output of a rendering that failed, and never panic on one that did not.",
  ["programs", "fault_sequences"], "every displayed value, standard or styled, failing at any of its writes, at any place of any format string or nesting, through every function, macro and trait method returning a string",
  "No test displays a value that fails.",
  ["core/src/format.rs", "ansi/src/ansi.rs", "ansi/src/lib.rs", "html/src/html.rs", "html/src/lib.rs", "plain/src/plain.rs", "plain/src/lib.rs", "core/src/string.rs"],
  [("errors of the rendering are unwrapped before the string is returned", "format functions and To*String traits")], ["returned strings, panics"])

p("C27", "A failed or panicking display leaves the writer usable and its output exact",
  "When a displayed value returns an error or panics part-way, and the caller catches that, the writer holds exactly what had been displayed up to that point, in the right styles, byte for byte as if just those characters had been written. It stays usable: later writes show in their own styles, whatever was active when the display broke off, and finishing it resets what is still active (closes every open element). The same holds for attributed strings.",
  ["programs", "fault_sequences"], "every displayed value, failing or panicking at any of its writes, under any nesting of styles, on every writer, with any writes before and after",
  "No test displays a value that fails or panics.",
  ["core/src/formatter.rs", "core/src/display.rs", "core/src/write.rs", "core/src/io/write.rs", "core/src/string.rs", "ansi/src/ansi.rs", "ansi/src/io.rs", "html/src/html.rs", "plain/src/plain.rs"],
  [("the style is passed with every write rather than held by an open scope", "Formatter::with and write_str")], ["output, returned errors, propagated panics"])

p("C28", "Byte streams pass through unchanged",
  "The writers over byte streams pass every buffer they are given, whether or not it is valid UTF-8 and wherever it was cut, through unchanged, complete and in order. They add nothing to it but complete escape codes between two buffers (none at all for plain text), and those lead the terminal from the previous style to the requested one before the buffer begins.",
  ["inputs", "histories"], "every sequence of bytes, cut into buffers in every way, written in any sequence of styles",
  "Tests only write complete UTF-8 text.",
  ["ansi/src/io.rs", "plain/src/io.rs", "core/src/io/write.rs"],
  [("bytes are passed to the inner writer as they are", "io::Write::write for Ansi and Plain")], ["bytes received by the inner writer"])

p("C29", "Styles compare equal exactly when every aspect is the same",
  "Two colours, intensities, styles, style differences or colour restylings compare equal exactly when all their aspects are the same; copies are the same as the original. The default style has the default colours and the normal intensity, a default difference changes nothing, and default restylings name the default colour.",
  ["inputs"], "every ordered pair of colours, intensities, styles and differences, every default value",
  "Tests compare a handful of styles.",
  ["style/src/lib.rs"],
  [("equality and defaults are structural", "derived and hand-written PartialEq, Clone and Default implementations")], ["results of comparisons, public fields"])

p("C30", "Nothing is emitted beyond what a change of style needs",
  "A change of style costs one escape code with at most one parameter for each aspect that changes (two to switch between bold and faint), or a single reset when it leads to the default style; in HTML one closing tag if a span is open and one opening tag, with one declaration for each aspect that is not the default, if the new style is not the default one. Between characters of one style, before default-styled text at the start, and after an output that ended in the default style, nothing is emitted; otherwise finishing emits one reset or closing tag. A writer that is dropped without being finished emits nothing more. Plain writers emit nothing but the text.",
  ["histories"], "every change from one style to another, in every history, from every state a writer can be in",
  "Tests look at a few changes.",
  ["ansi/src/ansi.rs", "ansi/src/io.rs", "ansi/src/util.rs", "html/src/html.rs", "plain/src/plain.rs", "plain/src/io.rs", "style/src/lib.rs"],
  [("codes are made from the difference between the current and the requested style", "Ansi::write_str, io::Ansi::write, Html::write_str")], ["bytes received by the sink"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
