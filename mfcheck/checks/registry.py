"""property id -> (method text, driver(prog, rep, prop, tier))"""


def get(prop):
    if prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10"):
        from . import cliprops
        return cliprops.METHOD.format(what=WHAT.get(prop, "")), cliprops.check
    if prop == "C09":
        from . import cliargs
        return WHAT[prop], cliargs.check
    if prop in ("C12", "C13"):
        from . import effectprops
        return WHAT[prop], getattr(effectprops, "check_" + prop)
    if prop == "C14":
        from . import restoreprops
        return WHAT[prop], restoreprops.check
    if prop == "C11":
        from . import apiprops
        return WHAT[prop], apiprops.check
    if prop in FMT:
        import importlib
        mod, _, name = FMT[prop].partition(":")
        return WHAT[prop], getattr(importlib.import_module("." + mod, __package__), name or "check")
    raise SystemExit(f"unknown property {prop}")


WHAT = {
    "C01": "every write, open-for-writing and file system operation must be infeasible in check mode unless it is a requested render after a failed consistency check.",
    "C02": "the abstract value of every text written or printed is compared with the term 'checked reformat of that document'.",
    "C03": "the abstract path of every write is compared with the destination designated for the input the text was read from; at every read the two option lengths must be provably equal.",
    "C04": "reads, writes and formatting may raise; every outcome reached after a failure must be an exception or a nonzero status.",
    "C05": "the exit status of every outcome is compared with the decided full-text comparison of each document reformatted on that path.",
    "C06": "on every successful outcome each given path must have been reformatted and written to its destination, or be its own destination and decided equal.",
    "C07": "the width argument of every formatting call is compared with the requested line length (unlimited exactly when it is below 1).",
    "C08": "the sequence of values sent to standard output on the filter route must be exactly the reformatted text with no terminator, and no log handler may write there.",
    "C09": "Abstract interpretation of the type= callable of every path option on an arbitrary string: each accepting path through it must carry the existence, kind and permission facts declared for the option; and every read for rewriting in place must be dominated by a granted write permission of that input, with a refused permission ending in a nonzero status.",
    "C12": "Effect analysis over everything reachable from the API (call graph resolved through imports, classes, registries and name references): no read of environment, clock, randomness, object identity or set order; every mutable module, class or default-argument location written is checked for later reads; values read from the logging configuration may steer nothing but logging.",
    "C13": "Effect analysis over everything reachable from the API (call graph resolved through imports, classes, registries and name references): every external name used and every method call must be free of input/output, process and caller-visible effects.",
    "C14": "Typestate analysis of every function reachable from the API that changes process-wide state: on each path to each exit (every call may raise; context managers and helpers inlined) each changed location must have been assigned the value saved from it before.",
    "C11": "Abstract interpretation of reformat_markdown_text with the single pass as an uninterpreted function U that may raise: on every path the returned value must be the term rstrip(U(t,w)) + newline under an established U(U(t,w),w) = U(t,w); a refuted equality must raise the documented error.",
    "C10": "encodings, error handlers, newline and open modes of all document reads and writes must agree, be strict and truncate.",
}


FMT = {"C15": "partition", "C16": "progress", "C22": "code", "C23": "tables", "C26": "content:check_C26", "C29": "content:check_C29",
       "C18": "assembly", "C19": "wrapping:check_C19", "C20": "wrapping:check_C20", "C30": "wrapping:check_C30",
       "C21": "nested:check_C21", "C24": "nested:check_C24",
       "C31": "nested:check_C31", "C17": "precedence", "C25": "lineends", "C27": "indexing", "C28": "definition", "C32": "extents", "C33": "aligned", "C34": "underlines"}
WHAT["C15"] = ("Abstract interpretation of every section detector and of the parsing loop on a symbolic list of lines, nested "
               "detectors replaced by their own contract: the abstract value of each returned list is compared piecewise with the "
               "input list (concatenation must cover it exactly, in order), with a fixpoint over loops for the proof and bounded "
               "unrolling for refutation; stores into the input list are reported.")
WHAT["C16"] = ("Abstract interpretation: the rejecting paths of all detectors are intersected on one symbolic line list (a surviving "
               "path is a document no detector claims); at every back edge of a while loop the values its condition depends on are "
               "compared with those at the loop head; every for loop must run over a finite sequence not grown in its body.")
PIPE = ("Abstract interpretation of the section's detector on a symbolic list of lines followed by its formatter on what the "
        "detector took (wrapping kept as an uninterpreted change of white space, nested passes as a term): ")
WHAT["C22"] = PIPE + ("the lines of the abstract rendered text are compared one to one with the abstract lines taken: the content "
                      "lines must be the same pieces, the fence lines may only change surrounding white space.")
WHAT["C23"] = PIPE + ("every row but the divider row must reproduce all non-white-space text of its source row except the dividers (the "
                      "literal text dropped by the split pattern, which must not match an escaped divider), in order; the rows must "
                      "be as many as the source rows and have the same number of cells.")
WHAT["C26"] = PIPE + ("the rendered text must reduce to the heading's text with at most surrounding white space changed, the marker run "
                      "must have the same length (ATX), the same character (setext, break) and the documented extent.")
WHAT["C29"] = PIPE + ("every non-white-space character of the lines taken must be covered by the abstract rendered text exactly once "
                      "and in order.")
WHAT["C18"] = ("Abstract interpretation of the formatting pass on documents parsed into every sequence of one and two section kinds (and "
               "triples around the block quote rule), rendering kept as a term: the abstract result must be the rendered sections, each by "
               "the class of its kind from exactly its lines at the given width, in order; and of the parsing loop: lines taken by a detector "
               "get the kind it is named after.")
NEST = "Abstract interpretation of the formatters of containers on symbolic lines, the nested pass kept as a term: "
WHAT["C21"] = NEST + ("the width argument of each nested pass must differ from the container's width by exactly the abstract length of the "
                      "prefix put before the lines of its result.")
WHAT["C24"] = NEST + ("for lists of one to three items the marker before item i must be the term first number + i, or the first marker; each item "
                      "is rendered once, in order, from its own lines; the function splitting the list must cover its lines exactly.")
WRAPW = "Abstract interpretation of the wrapping stages, of join and of wrap on symbolic texts, lists and widths: "
WHAT["C19"] = WRAPW + ("each stage's pieces must cover the non-white-space text of its argument exactly once and in order and its "
                       "three lists must have the same length; join must cover the list of words; wrap, with the stages replaced by "
                       "that contract, must cover its text.")
WHAT["C20"] = WRAPW + ("on every path of join each line built must be entailed to be no longer than the width or hold a single piece; "
                       "under a non-positive or infinite width no break may be made for length.")
WHAT["C17"] = ("Abstract interpretation of the section detectors on a symbolic document whose first (or i-th) line is assumed indented by "
               "four or more, or accepted by the thematic break detector: the paths on which a detector takes it must be impossible. "
               "What a path requires of the line (pattern matches, prefixes, characters allowed, lengths) is turned into finite "
               "automata over character classes; the path is impossible exactly if their intersection is empty.")
WHAT["C31"] = NEST + ("for quotes of up to three lines the text handed to the nested pass must have one line per source line; what was removed "
                      "from the front of a marked line must be blanks and its marker, of an unmarked line only blanks; a marked line that "
                      "keeps its marker is reported (unbounded recursion).")
WHAT["C30"] = WRAPW + ("pieces flagged as final are exact slices of the text containing the whole recognised span, wrap hands them to no later stage, join "
                       "puts each word whole on one line.")
CLAIMED = set(FMT) | {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"}


def claimed(prop):
    return prop in CLAIMED


BASE = ("Decided from the source of the current tree without running it. A violation names the construct and the abstract "
        "path; an obligation the analysis cannot settle either way is listed as undecided in the evidence and raises no alarm. ")


def note(prop):
    return BASE + NOTES.get(prop, "")


CLI_NOTE = ("Trusts the models of argparse, pathlib and logging; the formatting functions are uninterpreted here. Loops: fixpoint "
            "for the proof, bounded unrolling for refutation.")
NOTES = {p: CLI_NOTE for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10")}
NOTES["C11"] = "Trusts the string model; the single pass is an uninterpreted function."
NOTES["C12"] = NOTES["C13"] = "Trusts the tables of pure and effectful external names; dynamic attribute access by computed names is not followed."
NOTES["C14"] = "Assumes logger methods other than level changes do not raise; two expressions naming a logger the same way denote the same logger."
FMT_NOTE = ("Trusts the models of str, list, re and enum methods (regular expressions are split into known prefix, class and repeat "
            "parts; anything else is an uninterpreted atom). ")
NOTES.update({p: FMT_NOTE for p in FMT})
WHAT["C25"] = ("Abstract interpretation of the reformatting pass up to the parser call gives the expression the document's lines come from; it is "
               "folded over one document per class of code points and must cut at newline, carriage return and their pair only.  Every function "
               "reachable from the API is scanned for places that cut text or make line endings (splitlines, split, re.split, re.sub, replace, "
               "textwrap) with their constant separators; pieces that are only measured or logged are exempt.")
WHAT["C27"] = ("Abstract interpretation of every detector on a symbolic document, of every wrapping stage and of join on symbolic text, and of every "
               "detector followed by its formatter, with out-of-range subscripts, pops and exhausted next() calls explored as outcomes: the "
               "linear store must rule each of them out; a surviving one is reported when the lengths alone lead to it, or when regular-language "
               "intersection finds lines that take the path.")
WHAT["C28"] = PIPE + ("the pattern that takes the definition apart is analysed for its shape (literals, runs of white space, words, rest), which gives the "
               "positions of its groups; the abstract rendered text must then cover all non-white-space text of the lines exactly once and in order, "
               "with white space between parts told apart by it; automata inclusion shows that whatever the detector's pattern accepts the "
               "formatter's pattern accepts at the same place.")
WHAT["C32"] = ("Abstract interpretation of every detector on a symbolic list of lines (other detectors as contracts): each of its outcomes (lines taken, with what was established of every line on the way) is compared, as languages, with what lines of the kind "
    "look like: first lines taken or declined, lines in the middle, the last line and the line after it; contradictory combinations are discharged by product automata")
WHAT["C33"] = ("Abstract interpretation of the table formatter on a symbolic header and divider row, and on tables of a known header and divider row (every "
               "alignment) with one symbolic row: on every outcome the cells that stand below each other have provably equal lengths (linear arithmetic over the "
               "lengths of the source's cells, halves included), every cell keeps a blank at both sides, the divider row has a colon exactly where the source's "
               "has one, and the text stands at the left, the right or the centre accordingly. A violation needs lengths (or a divider row) for which it shows.")
WHAT["C34"] = ("Abstract interpretation of the setext heading formatter with wrapping as a contract that yields one, two or three symbolic lines: the length of the "
               "underline must provably be at least the length of each of them and at most that of one of them (linear arithmetic over their lengths); a "
               "violation needs lengths for which it is not.")
NOTES["C33"] = NOTES["C34"] = FMT_NOTE
NOTES["C25"] = NOTES["C27"] = NOTES["C28"] = NOTES["C32"] = FMT_NOTE
