#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one source of truth for the property texts)."""
import json, pathlib
M = "markflow/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [M + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": None}})

CLI = "__main__.py"
NOCLI = "No existing test touches the command line at all; and a test would only sample a few option combinations, while the claim is over all of them."

p("C01", "Check mode never writes a file",
  "When the tool runs in check mode it creates, modifies or removes no document: neither the inputs nor any output destination given alongside. This holds for every combination of the other options and for changed and unchanged documents alike; the only files it may produce are the diagnostic renders the user explicitly asks for.",
  ["inputs", "configurations"], "every set of documents, every option combination that includes --check", NOCLI,
  [CLI], [("_reformat_files", M + CLI), ("_write_renders", M + CLI)], observe=["file writes reachable from main()"])
p("C02", "Only text that passed the consistency check is emitted",
  "Every document text the command line tool writes to a destination or prints as its result is exactly the text returned by the consistency-checked reformat of that same document, unmodified. Text from an unverified single formatting pass leaves the tool only as diagnostic renders, only when the user asked for renders and only after the consistency check failed.",
  ["inputs", "configurations"], "every document, every option combination, every outcome of the consistency check", NOCLI,
  [CLI, "reformat_markdown.py"], [("_reformat_files", M + CLI), ("_reformat_stdin", M + CLI)], observe=["arguments of file writes and of print"])
p("C03", "Results go only to the designated destination",
  "With an output directory each result goes to the same file name in that directory, with output files it goes to the output file at the same position, and with neither it goes back to the input file; an input is never modified when an output option is given. If the number of output files differs from the number of inputs, the run is refused before any document is read.",
  ["inputs", "configurations"], "every list of inputs and every combination of output options", NOCLI,
  [CLI], [("parse_args", M + CLI), ("_reformat_files", M + CLI)])
p("C04", "No failure is masked",
  "If reading, formatting or writing any document fails, in any mode, the process ends with a nonzero exit status or an uncaught exception, never with success. A document whose formatting failed is not written to its destination.",
  ["inputs", "fault_sequences", "configurations"], "every failure of a read, format or write at any document, every option combination", NOCLI,
  [CLI], [("main", M + CLI), ("__main__", M + CLI), ("_reformat_files", M + CLI)])
p("C05", "The check verdict is exact",
  "In check mode the exit status is 1 exactly when at least one given document (or STDIN) differs from its reformatted text, compared in full and without normalisation, and 0 otherwise; every given document is taken into account. Outside check mode a run without failures exits 0.",
  ["inputs", "configurations"], "every list of documents, each changed or unchanged, in file mode and filter mode", NOCLI,
  [CLI], [("_reformat_files", M + CLI), ("_reformat_stdin", M + CLI)])
p("C06", "Every document's result is delivered",
  "After a run outside check mode that reports no failure, every given document has been reformatted and its destination holds the reformatted text: it was written there, or the destination is the input itself and the text did not change. No document is skipped, whatever its position in the list and whatever happened with the others; a directory argument stands for every *.md file beneath it, whatever the directory is called.",
  ["inputs", "configurations"], "every list of documents, each changed or unchanged, every output option", NOCLI,
  [CLI], [("_reformat_files", M + CLI)])
p("C07", "One line length rule for every route",
  "The requested line length is the one used for every document, in file mode, in filter mode and for diagnostic renders. A line length below 1 means unlimited on all of these routes; any other value is used unchanged.",
  ["inputs", "configurations"], "every line length value, every route from the command line to the formatter", NOCLI,
  [CLI], [("main", M + CLI)])
p("C08", "Filter mode prints exactly the document",
  "When a document is filtered from STDIN outside check mode, standard output receives the reformatted text once, byte for byte, and nothing else: no added newline, no message, no log line, whatever the verbosity. Diagnostic renders requested by the user after a failed consistency check are the only exception.",
  ["inputs", "configurations"], "every document on STDIN, every option combination without --check", NOCLI,
  [CLI], [("_reformat_stdin", M + CLI), ("parse_args", M + CLI)])
p("C09", "Path arguments are validated before any work",
  "Every path argument is accepted only if it passes the checks declared for it: inputs exist and are readable, an output directory exists and is writable, an output file is writable or can be created, and inputs that will be rewritten in place are writable. A path that fails is refused with a nonzero exit before any document is read or written.",
  ["inputs", "configurations"], "every combination of path arguments and of existence and permission of the named paths", NOCLI,
  ["_argparse.py", CLI], [("ExistingPath, Directory, File", M + "_argparse.py"), ("parse_args", M + CLI)])
p("C10", "Document files are read and written faithfully",
  "Documents are read and written with one and the same text encoding and with strict error handling, so no character is dropped, replaced or re-encoded between reading a document and writing it back. Writing adds no carriage returns of its own, and replaces what the file held before.",
  ["inputs", "configurations"], "every document file content, every locale", NOCLI,
  [CLI], [("_reformat_files", M + CLI), ("_write_renders", M + CLI)])
p("C11", "The API returns only text proven stable",
  "The reformatting function returns a text only after formatting its own output again with the same width and finding it identical; otherwise it raises the documented inconsistency error. What it returns is exactly that verified text with its trailing whitespace replaced by a single newline.",
  ["inputs"], "every text and every width", "The tests only format documents on which both passes agree, so a weakened or bypassed comparison passes them all.",
  ["reformat_markdown.py"], [("reformat_markdown_text", M + "reformat_markdown.py")])
p("C12", "Formatting depends only on text and width",
  "The result of formatting is a function of the text and the width alone: no state left by an earlier call, no environment, clock, randomness, hash order, working directory or logging configuration influences it. Formatting the same text with the same width always gives the same result, in any order of calls.",
  ["histories", "configurations", "inputs"], "every sequence of earlier calls in the process and every environment", "Each test formats in one fixed order in one process and one environment, mostly one call per document.",
  ["reformat_markdown.py", "parser.py", "detectors/*.py", "formatters/*.py", "_utils/*.py"], [("every function reachable from reformat_markdown_text", M)])
p("C13", "Formatting has no effect outside its result and the log",
  "Calling the formatting API reads and writes no file, prints nothing, starts no process, opens no connection, never terminates the process and changes no object of the caller; its only output besides the return value or exception is through the logging module.",
  ["inputs", "histories"], "every text and width", "A test sees the returned text only; a side effect under a rare condition is invisible to it.",
  ["reformat_markdown.py", "parser.py", "detectors/*.py", "formatters/*.py", "_utils/*.py"], [("every function reachable from reformat_markdown_text", M)])
p("C14", "Process-wide state is restored on every exit",
  "Whatever process-wide state the formatting API changes while it runs (log levels, logging constants or anything else outside its own call) has its original value again when the call ends, whether it returns or raises.",
  ["inputs", "fault_sequences", "histories"], "every text, every exception at every point of a call", "The tests never look at the logging state after a call, and never make a call fail inside a nested section.",
  ["reformat_markdown.py", "_utils/_utils.py"], [("reformat_markdown_text", M + "reformat_markdown.py"), ("redirect_info_logs_to_debug", M + "_utils/_utils.py")])
p("C15", "Parsing partitions the document",
  "Splitting a document into sections loses, duplicates, changes and reorders no line: the section contents, concatenated in order, are exactly the document's lines. This holds for every section detector on its own: what it takes plus what it leaves is what it was given, and the list it was given is not modified.",
  ["inputs"], "every list of lines, every detector", "Tests feed a few dozen documents; boundary cases (section at end of document, interrupted section, missing terminator) multiply beyond any sample.",
  ["parser.py", "detectors/*.py"], [("parse_markdown", M + "parser.py"), ("split_* detectors", M + "detectors")])
p("C16", "Parsing accepts every document and always advances",
  "Every non-empty run of lines is claimed by some section detector, so no document is rejected as unclassifiable. Each round of parsing consumes at least one line and every loop in parsing and formatting makes progress, so no document makes the formatter spin forever.",
  ["inputs"], "every list of lines", "Non-termination and classification holes show only on inputs nobody wrote a test for.",
  ["parser.py", "detectors/*.py"], [("parse_markdown", M + "parser.py"), ("is_paragraph_start_line", M + "detectors/_lines.py")])
p("C17", "Structure precedence on a single line",
  "A line indented by four or more white space characters never opens a heading, block quote, list or thematic break and never underlines a heading, while a non-blank line so indented always can open an indented code block. A line that can be read both as a thematic break and as a list item is a thematic break.",
  ["inputs"], "every line of text", "The tests sample a handful of indentations and markers.",
  ["detectors/_lines.py", "detectors/*.py"], [("line predicates", M + "detectors/_lines.py"), ("list detectors", M + "detectors")])
p("C18", "Every section is rendered once, in order, by its own formatter",
  "The formatted document is the sequence of the formatted sections, each exactly once, in document order, each produced by the formatter of its own section kind from exactly its own lines; the only thing ever added is a blank line between a block quote and a setext heading. Every section kind a document can contain has a detector and a formatter.",
  ["inputs"], "every document and every sequence of section kinds", "Tests exercise only some adjacencies of section kinds.",
  ["reformat_markdown.py", "parser.py"], [("_reformat_markdown_text", M + "reformat_markdown.py"), ("FORMATTERS", M + "reformat_markdown.py"), ("SPLITTERS", M + "parser.py")])
p("C19", "Wrapping preserves the text",
  "Wrapping a text changes only its whitespace: the non-whitespace characters of the result are exactly those of the input, in the same order, none lost, duplicated, added or altered, at every width. This covers inline code, links, references, HTML line breaks and punctuation next to them.",
  ["inputs"], "every text and every width", "Tests wrap a few hand-written sentences; the splitting code has dozens of path combinations per text.",
  ["_utils/textwrap.py"], [("wrap, join", M + "_utils/textwrap.py"), ("code_split, link_split, newline_split, space_split", M + "_utils/textwrap.py")])
p("C20", "Wrapped lines respect the width",
  "When text is wrapped to a positive width, a line is longer than the width only if it consists of a single unbreakable piece. A non-positive width means no limit.",
  ["inputs"], "every text and every width", "Tests use three or four widths on a few sentences.",
  ["_utils/textwrap.py"], [("join", M + "_utils/textwrap.py")])
p("C21", "Nested text is wrapped to the width that is left",
  "Text nested in a block quote or list item is formatted to the width of its container minus exactly the length of the prefix (quote marker, or marker and indentation) its lines then receive, at every nesting level. Every line of a nested block receives that prefix.",
  ["inputs"], "every nesting of quotes and lists, every width", "Tests cover two or three nestings at one width.",
  ["formatters/block_quote.py", "formatters/lists.py"], [("MarkdownBlockQuote.reformatted", M + "formatters/block_quote.py"), ("MarkdownBulletList/OrderedList.reformatted", M + "formatters/lists.py")])
p("C22", "Code is reproduced verbatim",
  "Every line of a fenced or indented code block appears in the output unchanged except for trailing whitespace, in the same order, none lost or added, whether or not a fence is closed before the end of its container. Code is never wrapped, and fences keep their character and length and the opening fence its info string.",
  ["inputs"], "every code block content, closed and unclosed", "Tests contain only well-formed, closed fences.",
  ["formatters/fenced_code_block.py", "formatters/indented_code_block.py"], [("MarkdownFencedCodeBlock.reformatted", M + "formatters/fenced_code_block.py"), ("MarkdownIndentedCodeBlock.reformatted", M + "formatters/indented_code_block.py")])
p("C23", "Tables lose no cell",
  "Every cell of every row of a table appears in the formatted table, in its own row and column, also when it contains an escaped column divider or when the row lacks a closing divider. A table whose rows (header and divider row included) do not all have the same number of columns is rejected with the documented format error instead of being truncated; a row with as many cells as the header, counted like that, is accepted.",
  ["inputs"], "every table", "Tests format rectangular tables without escapes only.",
  ["formatters/table.py"], [("MarkdownTable.reformatted", M + "formatters/table.py")])
p("C24", "List items are numbered and marked consistently",
  "The items of an ordered list are numbered consecutively starting from the number of the first item, and all items of a bullet list carry the marker of the first one. No item is lost, duplicated or reordered, and every line of the list's source belongs to exactly one item.",
  ["inputs"], "every list, any number of items and any source numbering", "Tests use lists of a few items.",
  ["formatters/lists.py"], [("MarkdownOrderedList.reformatted", M + "formatters/lists.py"), ("MarkdownBulletList.reformatted", M + "formatters/lists.py"), ("_split_list", M + "formatters/lists.py")])
p("C25", "Only real line endings separate lines",
  "The formatter treats newline, carriage return and carriage return plus newline as line ends and nothing else: characters such as form feed, vertical tab, next line or the Unicode line and paragraph separators are part of the line they stand in; neither a document nor a section nor nested content is ever cut into lines at them, and wrapped prose is broken at plain spaces, not at them (the white space in the title of a link reference is normalised to spaces first).",
  ["inputs"], "every text containing such characters", "No test contains such a character.",
  ["reformat_markdown.py", "formatters/*.py", "_utils/textwrap.py"], [("line splitting", M)])
p("C26", "Thematic breaks stay thematic breaks",
  "A thematic break is rendered as at least three of its own characters and nothing else at every width, including widths smaller than three that arise in deeply nested sections.",
  ["inputs"], "every width, every nesting depth", "Tests use widths 50, 88 and infinity.",
  ["formatters/thematic_break.py"], [("MarkdownThematicBreak.reformatted", M + "formatters/thematic_break.py")])
p("C27", "No document trips an internal indexing error",
  "Whatever the document, formatting never fails because a list of lines, words or cells turned out shorter than assumed or an iteration was already exhausted; malformed input is either formatted or rejected with one of the two documented exceptions.",
  ["inputs"], "every text and every width", "The tests contain only documents on which every assumed element exists.",
  ["detectors/*.py", "formatters/*.py", "_utils/textwrap.py"], [("indexing and next() in detectors, formatters and wrapping", M)])
p("C28", "Link reference definitions keep all their parts",
  "The formatted form of a link reference definition contains all the text of the lines it was recognised on, in order: its label, its destination if it has one and its title if it has one, still apart from each other, wherever the line breaks are placed and whatever the width. Every definition that is recognised can be formatted.",
  ["inputs"], "every definition, every layout over lines, every width", "Tests cover the layouts that fit; the overflowing title is only tested when it already starts on its own line.",
  ["formatters/link_reference_definition.py"], [("MarkdownLinkReferenceDefinition.reformatted", M + "formatters/link_reference_definition.py")])
p("C29", "Headings and paragraphs keep their level and text",
  "A formatted heading has the same level as its source, and headings and paragraphs keep their text: the non-whitespace characters of all their lines, in order, none lost or added. A paragraph that ends in a hard line break still ends in one.",
  ["inputs"], "every heading and paragraph, every width", "Tests use short one-line headings.",
  ["formatters/atx_heading.py", "formatters/setext_heading.py", "formatters/paragraph.py"], [("MarkdownATXHeading.reformatted", M + "formatters/atx_heading.py"), ("MarkdownSetextHeading.reformatted", M + "formatters/setext_heading.py"), ("MarkdownParagraph.reformatted", M + "formatters/paragraph.py")])
p("C30", "A code span stays in one piece",
  "An inline code span or link target recognised while wrapping is never broken over lines and its inside is never split or re-spaced by later wrapping stages: once marked unbreakable, a piece reaches the output as it is.",
  ["inputs"], "every text and every width", "Tests contain two or three spans.",
  ["_utils/textwrap.py"], [("wrap, code_split, link_split", M + "_utils/textwrap.py")])
p("C31", "Block quotes keep their content",
  "A block quote's lines are formatted as one nested text that contains every line of the quote in order, each without its own quote marker (lines continuing a paragraph without a marker keep their text as it is, behind the markers of the deeper levels) and otherwise unchanged except for the blank after the marker. The outermost marker is always taken off, so every level of nesting works on less text and formatting ends.",
  ["inputs"], "every quote, however its markers are indented and whichever lines lack one", "Tests contain a handful of quotes, all indented with plain spaces.",
  ["formatters/block_quote.py"], [("MarkdownBlockQuote.reformatted", M + "formatters/block_quote.py")])
p("C32", "A section takes the lines of its construct",
  "Every section runs from a line that opens its kind to the last line that belongs to it. ATX headings, blank lines and thematic breaks are one line; a table is the run of lines that start with a bar; indented code is indented lines and the blank lines between them; fenced code goes to the first line that repeats its fence, or to the end; a setext heading ends with its underline; a paragraph goes on to the next line that opens something else and is not cut short before; a list takes no blank line, table row or thematic break after its first line and does not stop before plain text; a quote takes every marked line, and unmarked ones only if they continue a paragraph; a link reference definition takes a title only if the title is closed. A line that plainly opens a kind is not declined by its detector.",
  ["inputs"], "every sequence of lines", "Tests contain one or two documents per kind.",
  ["detectors/*.py"], [("split_* detectors", M + "detectors"), ("line predicates", M + "detectors/_lines.py")])
p("C33", "The columns of a table line up and keep their alignment",
  "In a formatted table all cells of a column are equally wide, header and divider row included, so that the dividers of all its lines stand below each other, and every cell is at least one blank away from its dividers. The divider row keeps each column's alignment: it has a colon at the left (at the right) of a column exactly where the source's divider row has one. Cells of a column that is marked as left-aligned, right-aligned or centred stand at the left, the right or the centre (give or take one blank) of their column; without a mark the header is centred and the other rows are left-aligned.",
  ["inputs"], "every table: every width, alignment and number of columns", "Tests format a few tables whose widest cell stands in a particular row.",
  ["formatters/table.py"], [("MarkdownTable.reformatted", M + "formatters/table.py"), ("center_align", M + "formatters/table.py")])
p("C34", "A setext heading is underlined as far as its longest line",
  "However a setext heading is wrapped, the underline it is rendered with is exactly as long as the longest of the rendered heading's lines.",
  ["inputs"], "every setext heading, every line length", "Tests use headings of one or two lines, the first of which is the longest.",
  ["formatters/setext_heading.py"], [("MarkdownSetextHeading.reformatted", M + "formatters/setext_heading.py")])

p("N01", "Formatted output is always a fixed point",
  "For every document that can be formatted, formatting the result again yields the same text.",
  ["inputs"], "every text and width", "Equality of two whole runs on arbitrary text.", ["reformat_markdown.py"], [("reformat_markdown_text", M + "reformat_markdown.py")])
p("N02", "Formatting preserves the rendered document",
  "Rendering the formatted document with a CommonMark renderer gives the same HTML as rendering the original, apart from the documented corrections.",
  ["inputs"], "every document", "Tests compare renderings of about twenty documents.", ["reformat_markdown.py"], [("whole pipeline", M)])
p("N03", "Formatting cost is bounded by document size",
  "Formatting takes time polynomial in the size of the document and never exhausts the interpreter's recursion limit on documents of ordinary nesting.",
  ["inputs"], "every document", "Tests are small.", ["detectors/block_quote.py", "detectors/paragraph.py"], [("mutually recursive detectors", M + "detectors")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
