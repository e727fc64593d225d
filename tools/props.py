#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

D1, D2, D3 = "src/ast1/document.rs", "src/ast2/document.rs", "src/ast3/document.rs"
C2, MB, PG = "src/ast2/chunk.rs", "src/ast3/mathsblock.rs", "src/ast3/paragraph.rs"

p("C01", "Stage 1 reconstructs the source one to one",
  "For every source text stage 1 accepts, printing the parsed document gives the source back character for character, the only thing missing being comments (an unescaped percent sign and what follows it up to, not including, the end of its line). This covers every nesting, every bracket kind, escapes, whitespace between arguments, a backslash at the very end, and any Unicode text.",
  ["inputs"], "every Unicode string the stage-1 parser accepts",
  "The unit tests print one small document; losing a character needs a particular bracket, escape, comment or end-of-input neighbourhood out of unboundedly many.",
  [D1, "src/ast1/command.rs", "src/ast1/scope.rs", "src/ast1/chunkvariant.rs"],
  [("character loop and buffers of the parser", D1 + " from_str/flush"), ("printing of each node", "src/ast1/*.rs Display")],
  ["ast1::Document from_str then to_string"])
p("C02", "Stage 2 reconstructs the source one to one",
  "For every source text stage 2 accepts, printing the parsed document gives the source back character for character, apart from comments. This includes the whitespace after begin and end commands, environment arguments and environments nested to any depth.",
  ["inputs"], "every Unicode string the stage-2 parser accepts",
  "The unit tests print a handful of environments with no odd whitespace, nesting or arguments.",
  [D2, "src/ast2/environment.rs", "src/ast2/command.rs", "src/ast2/scope.rs"],
  [("folding begin/end commands", D2 + " TryFrom<ast1::Document>"), ("environment printing", "src/ast2/environment.rs Display")],
  ["ast2::Document from_str then to_string"])
p("C03", "Stage 3 reconstructs the source one to one",
  "For every source text stage 3 accepts, printing the parsed document gives the source back character for character, apart from comments. This holds with and without a document environment, with anything before and after it, and for every mixture of maths, paragraphs, environments, commands and brackets.",
  ["inputs"], "every Unicode string the stage-3 parser accepts",
  "One test document with one display-maths block is printed; the promise is about all documents.",
  [D3, MB, PG, "src/ast3/environment.rs"],
  [("section split and printing", D3 + " TryFrom/Display"), ("maths and paragraph cutting", MB + " from_chunks, " + PG + " from_chunks")],
  ["ast3::Document from_str then to_string"])
p("C04", "Stage 1 recognises text, commands, arguments and scopes",
  "Stage 1 accepts every well-formed source and reads it as the sequence of text runs, bracketed scopes and commands its grammar describes: a backslash starts a command, whose name is one character when that is not an ASCII letter and otherwise runs up to whitespace, a bracket, a dollar sign or a backslash; brackets of any of the three kinds following a letter command directly or after whitespace are its arguments, in order, with that whitespace; any other opening bracket starts a scope of its kind. A bracket is closed by the matching closing bracket of its own kind, escaped characters never open or close anything, and neighbouring text is one run. A source with an opening bracket that is never closed is refused.",
  ["inputs"], "every well-formed source",
  "Tests compare a few hand-written trees; bracket kinds, escapes, whitespace and nesting combine without bound.",
  [D1], [("parser state machine", D1 + " from_str"), ("recursive parsing of bracket contents", D1 + " flush")],
  ["chunks, variants, labels, arguments of ast1::Document"])
p("C05", "Stage 2 pairs begin and end commands into environments",
  "In every well-formed source each begin command is paired with the end command that closes it under proper nesting (also for environments of the same name inside one another, inside brackets and inside arguments), and becomes one environment with that name, the begin command's further arguments and everything in between as content. Everything else stays exactly the text, scopes and commands stage 1 found, and no begin or end command is left over. A source whose begin and end commands do not pair up is refused.",
  ["inputs"], "every well-formed source",
  "Tests hold a few environments at most two deep.",
  [D2], [("label stack and content buffer", D2 + " TryFrom<ast1::Document>")],
  ["chunks of ast2::Document, Environment::decompose"])
p("C06", "Stage 3 recognises inline and display maths",
  "In every well-formed source each stretch between single dollars or escaped round brackets is one inline maths block and each stretch between double dollars or escaped square brackets one display block, of the right notation, wherever it stands and however many text runs, commands, scopes or environments it spans. Its content is what stands between the delimiters, read by the same rules, with escaped brackets nesting inside escaped brackets; escaped dollars never delimit. A source with a maths delimiter left open, or closing nothing, is refused.",
  ["inputs"], "every well-formed source",
  "The one maths test is a display block holding one word and a paragraph break.",
  [MB], [("maths mode machine", MB + " from_chunks")], ["chunks of ast3::Document, Debug and equality of MathsBlock"])
p("C07", "Stage 3 cuts text at paragraph breaks and nowhere else",
  "Inside each run of text, in every section and container, a stretch of whitespace holding at least two newlines becomes one paragraph break running from its first newline to the end of the whitespace, and text is cut nowhere else. The pieces in order spell the run, and no piece is empty.",
  ["inputs"], "every text run of every well-formed source, over all Unicode whitespace",
  "Tests hold only plain double newlines between words.",
  [PG], [("paragraph splitter", PG + " from_chunks")], ["chunks of ast3::Document"])
p("C08", "Stage 3 splits preamble, body and trailing part",
  "The first top-level document environment of a well-formed source is the body, what precedes it the preamble, and what follows it (further document environments included) the trailing part; without one, everything is preamble. The body's arguments and the whitespace after its begin and end are kept, and a document environment nested inside another construct is ordinary content.",
  ["inputs"], "every well-formed source",
  "The stage-3 tests always hold exactly one document environment and nothing after it.",
  [D3], [("section cursor", D3 + " TryFrom<ast2::Document>")], ["chunks_preamable, chunks_body, chunks_trailing, decompose"])
p("C09", "Document class and options are read faithfully",
  "For a documentclass command in the preamble, the class is the content of its curly argument and each comma-separated entry of its other arguments is one option, in order. An option is its key, or a key and the value after the first equals sign, each without surrounding whitespace, and the whitespace pieces recorded around them spell, together with key and value, exactly the source of the entry.",
  ["inputs"], "every preamble with at most one documentclass command",
  "No test parses a documentclass with options.",
  [D3], [("option scanner", D3 + " TryFrom<ast2::Document>")], ["ast3::Document::decompose"])
p("C10", "Converting stage 2 back to stage 1 is the exact inverse",
  "For every accepted source, parsing at stage 2 and converting the result back to stage 1 gives a value equal to parsing the source at stage 1, line numbers included. Equally, every canonical stage-2 document built in code converts to the stage-1 document of its printed text.",
  ["inputs", "programs"], "every source stage 2 accepts, and every canonical stage-2 value built by hand",
  "Tests convert one or two documents on a few lines; every environment shape and position has its own arithmetic.",
  [C2, D1, "src/ast2/scope.rs", "src/ast1/command.rs"], [("chunk expansion", C2 + " into_chunks")], ["ast1::Document::from(ast2::Document)"])
p("C11", "Converting stage 3 back to stage 2 is the exact inverse",
  "For every accepted source, parsing at stage 3 and converting the result back to stage 2 gives a value equal to parsing the source at stage 2, line numbers included. Equally, every canonical stage-3 document built in code converts to the stage-2 document of its printed text.",
  ["inputs", "programs"], "every source stage 3 accepts, and every canonical stage-3 value built by hand",
  "No test converts a stage-3 document back with anything but a trivial body.",
  [D2, "src/ast3/chunk.rs", MB, "src/ast2/environment.rs"], [("section and maths expansion", D2 + " From<ast3::Document>; " + MB + " into_chunks")], ["ast2::Document::from(ast3::Document)"])
p("C12", "Every node carries the line it starts on",
  "In every parsed document, at every stage and depth, each node's line number is the line its first character is on, counted from 1 at the start of the text of the container it sits in (document, section, bracket, argument, environment content or maths block). Newlines in commands, arguments, whitespace, maths and earlier nodes are all counted.",
  ["inputs"], "every accepted source, every node of it, all three stages",
  "Tests check line numbers on a few shapes; each construct adds its own offset.",
  [D1, D2, D3, MB, PG], [("line counters", D1 + " line_no/buffer_line_no; " + D2 + " buffer_start; " + MB + "; " + PG)], ["Chunk::line_no at every level"])
p("C13", "Line counts equal the newlines in the printed form",
  "For every document and every node in it, parsed or built in code, at every stage, the reported number of lines is the number of newlines in its printed form plus one. For an accepted source this is also one more than the number of newlines in the source.",
  ["inputs", "programs"], "every value of every type that reports a line count",
  "Tests call the line count on one or two values.",
  ["src/traits/lines.rs", D1, D2, D3, "src/ast2/environment.rs", "src/ast3/environment.rs", MB], [("Lines implementations", "src/ast1, src/ast2, src/ast3")], ["Lines::lines and to_string"])
p("C14", "Malformed documents are rejected with the right kind and line",
  "A source is rejected exactly when it breaks one of the documented rules: unclosed scope or argument, closing bracket right after a command, begin or end without a name, unmatched begin or end, further arguments after end, maths closed but not opened or opened but not closed, second documentclass or second class name. When one such fault is put into an otherwise well-formed document, the error is of that kind (with that bracket or name) and its line is the absolute line of the offending construct, at any depth and after any number of lines; the message of an error tells its line.",
  ["inputs", "fault_sequences"], "every source; every single fault at every position of every well-formed document",
  "Each error kind has about one test, at shallow depth with little before it.",
  ["src/error.rs", D1, D2, D3, MB], [("error construction and line mapping", D1 + " flush!; " + D2 + " map_e/map_env_e; " + MB)], ["Err of from_str at each stage"])
p("C15", "No input crashes or hangs the library",
  "Parsing any string at any stage ends in a document or an error, and printing, debug-printing, line counting, validating, cloning, comparing and converting any parsed document, or any document built through the checked constructors with line numbers that are consistent inside every node, ends normally. Nesting up to several hundred levels is handled on an ordinary stack of 8 MB.",
  ["inputs", "programs"], "every string, every accepted document, every value the checked constructors accept (nesting bounded)",
  "Tests run a few well-formed inputs; panics hide behind arithmetic on line numbers and rare parser states.",
  [D1, D2, D3, MB, C2], [("arithmetic and unwrap sites", "all of src/ast1, src/ast2, src/ast3")], ["all public operations"])
p("C16", "Comments are invisible",
  "Putting a comment at the end of any line, or removing one, changes nothing about the outcome of parsing at any stage: the same document or the same error with the same line. Whatever the comment holds (backslashes, brackets, percent and dollar signs, begin or end) is without effect, and an escaped percent sign does not start one.",
  ["inputs"], "every source, every set of places for comments, every comment text",
  "Tests hold one plain comment or none.",
  [D1], [("comment flag of the parser", D1 + " from_str")], ["from_str at each stage, values and errors"])
p("C17", "Checked constructors accept exactly the sane values",
  "Every checked constructor of nodes and documents accepts its input exactly when no rule is broken in it or in anything it holds at any depth: no reserved character in text, names or labels, no begin or end used as plain command, paragraph breaks of whitespace with at least two newlines, no unbroken paragraph in text, and consecutive line numbers in each section of a document. A rejection names a rule (and character or line) that is indeed broken, and a rejected or accepted value is otherwise unchanged.",
  ["inputs", "programs"], "every value tree assembled from valid and rule-breaking parts at stages 1, 2 and 3",
  "Tests reject about one value per rule at the top level only.",
  ["src/traits/validate.rs", "src/ast1/chunkvariant.rs", "src/ast1/command.rs", "src/ast2/command.rs", "src/ast2/environment.rs", "src/ast3/chunkvariant.rs", "src/ast3/environment.rs", D3],
  [("Validate implementations", "src/ast1, src/ast2, src/ast3")], ["new and validate of every type"])
p("C18", "Push histories keep documents valid and are atomic",
  "After any history of checked pushes the document holds exactly the accepted pieces in order, with neighbouring text merged and consecutive line numbers, it validates, and its print and line count are those of the pieces. A push is refused exactly when the piece breaks a rule, or would together with the text it is merged into, or its line number is not the one due, and a refused push leaves the document unchanged; unchecked pushes append without checking.",
  ["histories"], "every sequence of push operations, valid and invalid, at stages 1, 2 and 3 and in every section",
  "Tests push a few valid pieces once.",
  [D1, D2, D3], [("push operations", D1 + ", " + D2 + ", " + D3 + " push*")], ["push*, chunks, validate, to_string"])
p("C19", "Parsed documents validate and can be taken apart and rebuilt",
  "Every document parsed from a source whose closing brackets all close something and whose environment names are plain text validates, at every stage and at every depth. Taking it apart through the public accessors and rebuilding every node through the checked constructors succeeds and gives an equal document (for stage 3, when the source has a document environment: the constructor always makes one).",
  ["inputs"], "every accepted source without stray closing brackets and with plain environment names",
  "Tests never rebuild or validate a parsed document.",
  [D1, D2, D3, "src/ast1/chunk.rs", "src/ast2/chunk.rs", "src/ast3/chunk.rs"], [("accessors, decompose, validate", "src/ast1, src/ast2, src/ast3")], ["validate, decompose, accessors, new"])
p("C20", "Parsing does not depend on the surrounding context",
  "A well-formed fragment is read the same (nodes and relative lines) on its own and as the content of a scope, an argument, an environment or the document body, whatever surrounds these. A malformed fragment is rejected with the same kind in a bracket or argument of a kind the fault does not touch, with its line shifted by exactly the lines before that bracket.",
  ["inputs"], "every fragment, every enclosing construct and every surrounding text",
  "Tests hold each construct in one place.",
  [D1, D2, D3, MB], [("recursive parsing of contents", D1 + " flush; " + D2 + " TryFrom; src/ast3/scope.rs; src/ast3/environment.rs")], ["nodes found at the content position; errors"])
p("C21", "Work stays within length times nesting depth",
  "The bytes of memory requested while parsing or printing a source stay below a fixed constant times its length times its nesting depth (of brackets, environments and maths together, plus a constant), and while converting it back below that times the depth once more. In particular memory and time grow linearly, not quadratically, with the length of flat sources of any shape, and pushing onto a document costs memory and time in proportion to the piece and its neighbour, however long the document already is.",
  ["inputs"], "every source, in particular long flat and deeply nested ones",
  "Tests use small inputs and measure nothing.",
  [D1, D2, D3, MB, C2], [("single pass per nesting level", "performance notes in src/ast1/mod.rs, src/ast2/mod.rs, src/ast3/mod.rs")], ["allocation volume of from_str, to_string, conversions"])
p("C22", "Printing then parsing gives back a document built in code",
  "For every document built at any stage through the checked constructors that is canonical (no empty or adjacent text pieces, paragraph breaks only where text would be cut, nothing a command would swallow, plain one-argument names), parsing its printed form at that stage gives an equal document, line numbers, class and options included.",
  ["programs"], "every canonical value at stages 1, 2 and 3",
  "No test prints a built document and parses it again.",
  [D1, D2, D3], [("printing and parsing", "Display and FromStr of each stage")], ["to_string, from_str, equality"])
p("C23", "The stages agree with one another",
  "For every source, parsing directly at a stage gives the same document or the same error as parsing at the previous stage and converting the result upwards, and a source accepted at a later stage is accepted at all earlier ones. All stages that accept it print the same text and report the same number of lines.",
  ["inputs"], "every source",
  "Tests look at each stage separately.",
  [D1, D2, D3], [("conversions between stages", D2 + " TryFrom; " + D3 + " TryFrom")], ["from_str and try_from at stages 1, 2, 3"])
p("C24", "Conversions of documents built in code keep text and lines",
  "For every document built from sound values at any stage (canonical or not; maths delimiter commands without arguments), converting it down, or up where the conversion is not refused, gives a document that prints the same text and counts the same lines, in which every node at every depth carries the line its text starts on. A refused conversion names a line the text has. How a text is divided among neighbouring non-empty pieces changes neither whether a conversion is refused, nor the error, nor the blocks, commands, brackets and environments it gives.",
  ["programs"], "every document built at stages 1, 2 and 3 and every chain of conversions",
  "Tests convert only what they parsed, and only a few sources.",
  [D1, D2, D3, MB, C2], [("conversions up and down", D1 + " From; " + D2 + " From, TryFrom; " + D3 + " TryFrom")], ["try_from, from, to_string, lines, line_no"])
p("C25", "A part converts on its own as it does inside a document",
  "Converting a scope, a command or an environment upwards on its own gives what converting a document holding only that part gives there: the same value, or the same error with the line moved to the part's. Converting one downwards on its own, in each way there is, gives what converting a document holding only it gives. The maths pass over a stretch of nodes gives what a document of these nodes has; the paragraph pass, on nodes with any line numbers and any text, cuts each text at its paragraph breaks with every piece on its line, keeps everything else, and does nothing the second time. The bracket kinds keep their characters and counterparts at every stage.",
  ["inputs", "programs"], "every part of every parsed or built document",
  "Tests never call these conversions directly.",
  [MB, "src/ast3/paragraph.rs", "src/ast2/scope.rs", "src/ast2/command.rs", "src/ast3/scope.rs", "src/ast3/command.rs", "src/ast3/environment.rs", "src/ast1/scopevariant.rs"],
  [("public piecewise conversions", "TryFrom of Scope, Command, Environment; MathsBlock::from_chunks; Paragraph::from_chunks; ScopeVariant")], ["try_from, from_chunks, ScopeVariant"])
p("C26", "Values give back their parts, and equality sees every part",
  "Every node and document assembled from parts gives exactly these parts back through its borrowing accessors, its owning accessors and its decompose, at every depth, and prints them in order. Two values are equal exactly when they are made of equal parts: changing one part anywhere (a character, a line number, a bracket kind, an argument, the whitespace of a begin or end, the class, one piece of one option, the kind of a maths block) makes them unequal, and a clone is always equal.",
  ["programs"], "every value at stages 1, 2 and 3, with any line numbers, and every single change to one",
  "Tests compare a few parsed values and call few accessors.",
  [D1, D2, D3, "src/ast1/chunk.rs", "src/ast2/chunk.rs", "src/ast3/chunk.rs", "src/ast2/environment.rs", "src/ast3/environment.rs", "src/ast1/command.rs", "src/ast1/scope.rs"],
  [("constructors, accessors, derived equality", "src/ast1, src/ast2, src/ast3")], ["new_unchecked, accessors, decompose, eq, clone"])
p("C27", "A complete beginning and the rest are read independently",
  "When a first text (closed off by an empty scope between two full stops) is accepted at a stage, putting any second text after it gives, at that stage, the nodes of the first followed by the nodes the second gives on its own, with their lines moved by the lines before, or the error the second gives on its own, moved likewise; the sections, class and options come from whichever half holds them.",
  ["inputs"], "every pair of a complete text and any text",
  "Tests hold one construct per source.",
  [D1, D2, D3, MB], [("state of the parsers between nodes", D1 + " from_str; " + D2 + " TryFrom; " + D3 + " TryFrom; " + MB + " from_chunks")], ["from_str at stages 1, 2, 3"])
p("C28", "Results depend on the input alone",
  "Parsing a text gives the same document or error, printing the same, whenever it is done: again, after any other texts were parsed and values built, converted and pushed to, and in several threads at once. Changing a clone leaves the original as it was.",
  ["histories", "schedules"], "every sequence of parses and other operations, and concurrent parses",
  "Tests parse each source once.",
  [D1, D2, D3], [("no state outside the values", "src")], ["from_str, to_string, clone"])
p("C29", "Only the documented names and characters mean anything",
  "The only names that mean anything are begin, end, document and documentclass, and the only characters the backslash, the percent sign, the dollar, the brackets, the comma and equals sign (in class options), whitespace and the newline. Replacing, everywhere in a source, each ASCII letter of every other name or word by another ASCII letter, each whitespace character but the newline by another one, and each remaining character by another remaining one (one to one, and no name becoming one of the four) gives, at every stage, the same tree or error at the same lines, with these same replacements in its texts, names, whitespace, class and options.",
  ["inputs"], "every source and every one-to-one replacement of its names and characters",
  "Tests use a handful of names and ASCII characters.",
  [D1, D2, D3, MB], [("character and name dispatch", D1 + " from_str; " + D2 + " TryFrom; " + D3 + " TryFrom; " + MB + " from_chunks")], ["from_str at stages 1, 2, 3", "to_string"])
p("C30", "More whitespace beside whitespace changes nothing else",
  "Putting further whitespace (other than newlines) before or after any whitespace of a source that is not the name of a command and not part of an environment's name - a carriage return before every newline, as Windows line ends have it, included - gives, at every stage, the same tree or error at the same lines; only whitespace kept in texts, between a command and its arguments, after begin and end, in paragraph breaks and in options grows by what was put there.",
  ["inputs"], "every source and every way of adding whitespace beside its whitespace",
  "No test has Windows line ends or whitespace other than spaces and newlines.",
  [D1, D2, D3], [("whitespace before arguments, paragraph breaks, options", D1 + " from_str; " + D3 + " TryFrom")], ["from_str at stages 1, 2, 3", "to_string"])
p("C31", "More blank lines move what follows and change nothing else",
  "Adding any number of newlines to a blank line of a source (a stretch of whitespace, not a command's name and not part of an environment's name, that has two newlines already) gives, at every stage, the same tree, in which only that stretch has grown, no newline is lost and every node starts on the line where what is before it in its list ends; or the same error, on the same line when it was before that blank line and moved by as many lines as were added when it was after it.",
  ["inputs"], "every source with a blank line, and every number of further lines up to some 65 000",
  "Tests have sources of a few lines.",
  [D1, D2, D3, MB], [("line numbers carried through every pass", D1 + " from_str; " + D2 + " TryFrom; " + D3 + " TryFrom; " + MB + " from_chunks; src/ast3/paragraph.rs")], ["from_str at stages 1, 2, 3", "line_no", "Error::line"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
if __name__ == "__main__":
    print(len(P), [x["id"] for x in P if len(x["title"]) > 80])
