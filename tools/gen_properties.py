#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The single place where property texts are edited."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

L, B, I, A, X, H, M = "src/lib.rs", "src/block.rs", "src/inline.rs", "src/attr.rs", "src/lex.rs", "src/html.rs", "src/main.rs"
EV = "events of jotdown::Parser / into_offset_iter"
HT = "output of jotdown::html::Renderer"

p("C01", "Parsing and rendering are total",
  "For every UTF-8 string, building a parser, draining all its events (with or without source offsets) and rendering them with any HTML renderer configuration terminates without panicking. The number of events is at most linear in the length of the input.",
  ["inputs"], "all UTF-8 documents, including malformed, deeply nested and over-long constructs",
  "Tests run a few hundred fixed documents; the fuzz targets in tests/afl only sample and are not run by the test suite.",
  [L, B, I, A, X, H], [("unwrap/expect/slice indexing throughout both passes", "src/block.rs parse_block, src/inline.rs next, src/lib.rs block/inline")],
  [EV, HT])
p("C02", "Events form one balanced document tree",
  "The event stream starts with the start of a document and finishes with its end, and neither occurs anywhere else. Every container start is closed by exactly one end that carries an equal container, in last-opened-first-closed order.",
  ["inputs"], "all documents",
  "Balance must survive every combination of pending openers, lists, sections and description terms that are rewritten after being emitted; tests compare only selected streams.",
  [L, B, I], [("open stack and exit()", "src/block.rs enter/exit"), ("placeholder events replaced on close", "src/inline.rs parse_container")], [EV],
  [("open", "stack of open block events", B), ("openers", "stack of potential inline openers", I)])
p("C03", "Containers hold only the content their kind allows",
  "Block containers hold only block-level events, leaf blocks and inline containers hold only inline events, and code blocks, raw content, verbatim, math, link definitions and autolinks hold only text. A list holds only items of its own kind (description lists terms and details), a table an optional leading caption and then rows, a row only cells with the row's head flag, and text events are never empty.",
  ["inputs"], "all documents",
  "The nesting grammar is documented on Container but no test checks it; it has to hold for arbitrary combinations of constructs.",
  [L, B, I], [("Container::is_block / is_block_container", L), ("block/leaf dispatch", "src/lib.rs block()")], [EV])
p("C04", "Source ranges are valid, ordered and consistent",
  "Iterating with offsets yields exactly the events of plain iteration, each with an in-bounds byte range that starts and ends on character boundaries. Ranges never overlap and appear in the order of the events, except that a caption is emitted before the rows of its table (its start has an empty range at the start of the table).",
  ["inputs"], "all documents, every event",
  "Documented guarantee of into_offset_iter; tests only check the ranges of a few documents.",
  [L, B, I], [("span bookkeeping", "src/inline.rs Input.span, src/block.rs spans, src/lib.rs ev_span")], ["ranges of jotdown::Parser::into_offset_iter"])
p("C05", "Event ranges and text point at the exact source syntax",
  "The range of an event covers exactly the source it stands for: the text itself for text events (whose strings are borrowed from those same bytes), the marker for atoms, and the opening or closing marker for container starts and ends, plus attached block attributes (empty sets included) on the start and inline attributes on the end. Markers that do not exist in the source (paragraphs, lists, sections, document) have empty ranges.",
  ["inputs"], "all documents, every event kind",
  "Tests check ranges for a handful of constructs; correctness depends on how construct, attributes, line breaks and surrounding containers combine.",
  [L, B, I, X], [("span arithmetic on tokens and lines", "src/inline.rs, src/block.rs")], ["ranges of jotdown::Parser::into_offset_iter"])
p("C06", "No source text disappears or is duplicated",
  "Every character of the document that is not white space, a block quote prefix, a repeated heading marker, a table separator row, a caption marker or an empty attribute set belongs to the range of exactly one event. In particular every letter or digit written in the source is covered by an event exactly once.",
  ["inputs"], "all documents",
  "Changelog lists several disappearing-content bugs; tests only pin those particular documents.",
  [L, B, I], [("line slicing and event buffering", "src/block.rs parse_container, src/inline.rs next/merge_str_events")], ["ranges of jotdown::Parser::into_offset_iter"])
p("C07", "Inline content is independent of its neighbours and of its block",
  "The inline events of a leaf block depend only on its own text: the same text gives the same inline events whether it is a paragraph, heading, table cell, caption, description term or list item paragraph, and whatever other blocks (with unclosed delimiters, verbatim or attributes) come before or after it. The only exceptions are reference links, which look up definitions and headings of the whole document.",
  ["inputs", "histories"], "all pairs of neighbouring blocks and all hosting leaf blocks",
  "State is reused between blocks (one inline parser is reset and refilled); tests never enumerate which state one block can leave behind for the next.",
  [L, I, B], [("inline::Parser::reset and feed_line", I), ("verbatim / table_head_row / block_attributes state", L)], [EV],
  [("inline_parser", "shared inline parser", L), ("openers", "potential openers", I), ("store_cowstrs/store_attributes", "side storage", I)])
p("C08", "Block containers are transparent to their contents",
  "A document placed inside a block quote, div, list item, description details or footnote (by prefixing its lines, indenting them by the width of the marker, or fencing it) produces the same events inside that container as it produces on its own, except that headings do not open sections. Nesting containers composes in the same way.",
  ["inputs"], "all documents and all stacks of wrapping containers",
  "Prefix stripping and line continuation are tested for a few bodies per container; the guarantee quantifies over all bodies.",
  [B], [("parse_container line stripping", "src/block.rs parse_container"), ("Kind::continues", B)], [EV])
p("C09", "Block structure follows the Djot line rules",
  "Every line is classified and grouped into blocks by the Djot rules: paragraphs, headings, thematic breaks, block quotes, lists, divs, fenced code, tables, definitions and attribute lines, with their markers (followed by white space or the end of the line, bullets by a space), indentation, continuation and lazy continuation lines. Blocks are emitted in source order with exactly one blank-line event per blank line that is not inside a leaf block or table; the blank rest of a line after a marker counts as one.",
  ["inputs"], "all sequences of lines",
  "Interplay of consecutive line kinds grows exponentially with length; tests pin around a hundred sequences.",
  [B], [("IdentifiedBlock::new, Kind::continues, TreeParser::parse_block", B)], [EV])
p("C10", "List grouping, numbering and tightness follow the item markers",
  "Consecutive items belong to one list exactly when their markers are of the same type (bullet character, task, description, or numbering and delimiter style, resolving letters that are also roman numerals by the next item), and the list reports the type and the start number of its first item. A list is loose exactly if a blank line comes before one of its items other than the first, or before another block directly inside an item that is not an item of a nested list (a blank line that ends a nested list belongs to that list), and task items report their checked state.",
  ["inputs"], "all sequences of list item markers, contents and blank lines, and all ordinal markers",
  "Ambiguity resolution and tightness depend on later lines and on the nesting of lists; tests sample some.",
  [B, L], [("ListType::continues, ListNumber::ambiguity", B), ("prev_blankline/prev_loose/open_lists", B), ("OrderedListNumbering::parse_number", L)], [EV],
  [("open_lists", "stack of open lists", B)])
p("C11", "Tables have the rows, cells, alignments and captions of their source",
  "Each table line gives one row with one cell per unescaped, non-verbatim pipe-delimited segment, containing the trimmed segment text. A separator line is not a row: it turns the directly preceding row into a head row and sets the column alignments from there on (and for that head row), until the next separator line or the end of the table; a caption after the rows belongs to the table and alignments never leak into another table.",
  ["inputs"], "all sequences of table lines and all cell contents",
  "Row rewriting and alignment state spans lines and tables; tests sample a few shapes.",
  [B, L], [("parse_table", B), ("table_head_row", L)], [EV], [("alignments", "column alignments of current table", B)])
p("C12", "Fenced blocks reproduce their lines verbatim and close correctly",
  "A code or raw block contains exactly its source lines (a raw block without the white space that ends the last one), with at most the indentation of the opening fence removed and nothing interpreted, until a closing fence of the same character that is at least as long and has no info string, or the end of the enclosing container. Divs close at the first fence that is at least as long and not inside a nested code block, and the info string gives the language, raw format or class unchanged.",
  ["inputs"], "all fence kinds, lengths, info strings, indentations and body lines",
  "Depends on arbitrary body lines that look like fences, list markers or quotes; tests sample some.",
  [B, L], [("Kind::Fenced continuation and nested_raw", B), ("Parser.verbatim", L)], [EV])
p("C13", "Inline delimiters match and nest by the Djot rules",
  "Emphasis, strong, superscript, subscript, mark, insert, delete and smart quotes open and close by the Djot rules: bidirectional delimiters cannot open before or close after white space, brace-marked forms are explicit, a closer pairs with the nearest matching opener unless there is nothing in between, openers in between become literal text, and containers never cross. Text outside completed containers is reproduced literally.",
  ["inputs"], "all inline texts over delimiters, braces, white space and words",
  "The result depends on all later delimiters in the block; tests sample short texts.",
  [I, X], [("Opener, parse_container", I), ("Lexer::token", X)], [EV], [("openers", "stack of potential openers", I)])
p("C14", "Inline verbatim, math and raw content are literal",
  "A run of n backticks opens inline verbatim that is closed by the next run of exactly n backticks, or by the end of the block; nothing in between is interpreted, and white space that only separates a backtick from the delimiters is dropped. One or two dollar signs directly before make it inline or display math, and a directly following raw format makes it (math or not) raw inline content of that format.",
  ["inputs"], "all texts over backticks, dollars, white space, braces and other markup, across lines",
  "Interplay with line breaks, attributes, links and table cells; tests sample.",
  [I, X], [("parse_verbatim, VerbatimState, ahead_raw_format", I)], [EV], [("verbatim", "state of open verbatim", I)])
p("C15", "Links, images, autolinks, symbols and footnote references are recognised",
  "Bracketed text directly followed by a parenthesised destination or bracketed label is a link (an image when preceded by an exclamation mark), with the destination taken literally except that line breaks are removed. Autolinks in angle brackets, symbols between colons and footnote references keep their exact contents, an address with an at sign, not preceded by a colon (as in a URL), being an e-mail link; incomplete forms stay literal text.",
  ["inputs"], "all inline texts over brackets, parentheses, exclamation marks, angle brackets, colons, words and line breaks",
  "Many ways for such constructs to be interrupted, nested or split over lines; tests sample.",
  [I], [("parse_container DelimEventKind::Span/Link, parse_autolink, parse_symbol, parse_footnote_reference", I)], [EV])
p("C16", "Reference links resolve to the definitions of the whole document",
  "A reference link or image whose label has a link definition anywhere in the document gets that definition's destination (the last one for a label wins) and, on its start, the definition's attributes before its own; otherwise a label equal to a heading's text (without its smart punctuation) resolves to the id of a heading with that text; otherwise it is reported unresolved with its label. Labels of several words match across line breaks, and start and end events agree.",
  ["inputs"], "all arrangements of definitions, headings and references, before or after use and nested in containers",
  "Needs whole-document look-up from any position; tests sample a few arrangements.",
  [L, I], [("PrePass::new, heading_id_by_tag", L), ("inline() ReferenceLink", L)], [EV], [("link_definitions", "label to destination and attributes", L), ("headings_lex", "headings by text", L)])
p("C17", "Heading ids are unique and sections nest by heading level",
  "Every heading has a non-empty automatic id made from its text (punctuation removed, white space replaced by hyphens, numbered when empty or already taken), so that automatic ids are pairwise distinct in a document, and an explicit id attribute overrides it wherever the id is used. Each top-level heading opens a section with the same id that ends right before the next top-level heading of the same or a smaller level, or at the end of the document.",
  ["inputs"], "all sequences of headings, levels, texts, attributes and containers",
  "Uniqueness is a relation over all headings of a document; tests use two or three headings.",
  [L, B], [("PrePass::new id generation", L), ("open_sections", B)], [EV], [("used_ids", "ids taken", L), ("open_sections", "levels of open sections", B)])
p("C18", "Smart punctuation consumes exactly the punctuation written",
  "Every run of hyphens is divided into em dashes, en dashes and literal hyphens, and every run of periods into ellipses and literal periods, by the Djot rules and without losing or adding a character. Quotation marks become left or right quotes by whether they open a matched pair, and explicit brace forms force the direction.",
  ["inputs"], "all run lengths and all contexts of hyphens, periods and quotes",
  "Tests use a few run lengths.",
  [I, X], [("parse_atom", I), ("Lexer::token hyphen/period runs", X)], [EV])
p("C19", "A backslash makes any punctuation literal",
  "Outside verbatim, code and raw content, an ASCII punctuation character preceded by a backslash is always literal text that neither opens, closes nor forms part of any inline or block construct; so a text with all its punctuation escaped renders as exactly itself. A backslash before a space is a non-breaking space, before a line end a hard break, and before anything else a literal backslash.",
  ["inputs"], "all texts, every punctuation character in every context",
  "Has to hold for each character against each construct that might consume it.",
  [X, I, B, A], [("Lexer escape state", X)], [EV, HT])
p("C20", "Attribute sets parse by exactly the documented grammar",
  "A string is accepted as attributes if and only if it is one or more directly consecutive brace-enclosed sets of classes, ids, key-value pairs (bare or quoted) and comments followed only by white space, and the elements are returned in order with duplicates and comments kept. Otherwise the error position is the first byte that can not continue a valid attribute string (or the end when it is incomplete).",
  ["inputs"], "all strings",
  "An accept/reject language over all strings with exact contents; tests list some members.",
  [A], [("State::step, Parser::parse, valid", A)], ["jotdown::Attributes::try_from"], [("State", "attribute lexer state", A)])
p("C21", "Attribute queries agree with the stored elements",
  "Looking up a key, testing for it and iterating unique pairs agree with each other and with the element list: each key appears once at its first position, class values are all joined with spaces in order, other keys take the last value, and comments have no key. Displaying a value removes exactly the backslashes that escape ASCII punctuation, its parts concatenate to the displayed value, and printing a parsed set in debug form and parsing it again gives an equal set. The iterators over pairs and parts give the same however they are consumed.",
  ["inputs"], "all attribute element lists and all values",
  "Relations between several views for arbitrary lists; tests check one list at a time.",
  [A], [("get_value, unique_pairs, contains_key, AttributeValueParts, Debug", A)], ["jotdown::Attributes and AttributeValue API"])
p("C22", "Block attributes attach to the next block and nothing else",
  "Attribute lines directly before a block are merged in order onto the start of that block (of its section for a top-level heading, of the list or table for its first line); separated from it by a blank line or without a following block in the container they are reported as one dangling attributes event instead. Attributes are never lost, duplicated or moved to another block.",
  ["inputs"], "all sequences of attribute lines, blank lines and blocks in all containers",
  "Attachment depends on the following line and enclosing containers; tests sample.",
  [L, B], [("block_attributes", L), ("attr_start", B)], [EV, HT], [("block_attributes", "pending attributes", L)])
p("C23", "Inline attributes attach to the preceding element",
  "A valid attribute set directly after an inline container, bracketed span or word is attached to that element (which becomes a span if it is a word or bare bracketed text), also when it spans several lines or several sets follow directly; after white space, at the start, or after an element that takes none (autolinks, symbols, footnote references, punctuation) it is a dangling attributes event. An invalid set stays literal text in full.",
  ["inputs"], "all inline texts over words, containers and attribute sets, over line breaks and with invalid sets",
  "Needs unbounded look-ahead over lines with fallback; tests sample.",
  [I, L, A], [("ahead_attributes/resume_attributes/apply_word_attributes", I), ("inline() attributes", L)], [EV], [("attributes", "state of partially read attributes", I)])
p("C24", "Footnotes are numbered by first reference and rendered once",
  "In HTML, footnote references are numbered by order of first reference with repeated references sharing a number, and the document ends with one endnotes section listing every referenced footnote exactly once in that order, including those first referenced inside other footnotes, with its contents and one backlink, at the end of its last paragraph or else in one of its own. Unreferenced footnotes are not rendered and undefined ones have only the backlink; without references there is no section.",
  ["inputs"], "all arrangements of footnote references and definitions, nested and repeated",
  "Order of discovery while rendering footnotes inside footnotes; tests use a few documents.",
  [H], [("Footnotes, render_epilogue", H)], [HT], [("references", "labels in order of first reference", H), ("events", "buffered footnote contents", H)])
p("C25", "Rendering maps every event to its documented HTML",
  "For every well-formed event sequence, parsed or built by a filter, the HTML is the documented element for each container with its attributes merged with the intrinsic ones (classes joined, explicit id overriding), tight list paragraphs unwrapped, image contents reduced to their text as alternative text, raw content passed through only for html, and link definitions omitted. Ordered lists state their type, and their start when above one; cells state their alignment.",
  ["inputs"], "all event trees up to a bound, with all container kinds, attributes and contents",
  "Every pair of parent and child kinds and attributes interacts through the renderer's state; tests render parser output of a few documents.",
  [H], [("render_event", H), ("write_class", H)], [HT], [("list_tightness, img_alt_text, raw, ignore", "renderer state", H)])
p("C26", "HTML output is well-formed and injection-free",
  "Unless the source contains raw content for html, the rendered output contains only elements and attributes that the renderer generates or that come from attribute sets, with every element closed in order, and every character of text, destinations and attribute values that is special in HTML escaped in its position. Decoding the text of the output gives back exactly the document's text.",
  ["inputs"], "all documents without html raw content",
  "Escaping must be right in every position (text, attribute, alternative text, footnotes, language) for every special character; tests check few.",
  [H], [("write_escape/write_text/write_attr", H)], [HT])
p("C27", "HTML formatting options only change white space",
  "The minified, default and indented renderings of the same events have the same elements, attributes and text, and differ only in line breaks and indentation between blocks; preformatted text is never altered. The indent string and initial level appear exactly as configured, proportional to the nesting depth of block containers (the endnotes count as none), and minified output adds no white space of its own.",
  ["inputs", "configurations"], "all documents and all renderer configurations",
  "Cross-configuration relation over all documents; tests compare fixed strings for few documents.",
  [H], [("block(), indent()", H)], [HT], [("depth, first_line", "indent state", H)])
p("C28", "Sinks receive the same output, and their errors, on every path",
  "Pushing events one at a time or all at once, to a string or to a byte writer that accepts any part of each write, produces the same bytes, for the HTML renderer and for any other renderer that only implements pushing of single events. When a sink or the renderer itself fails at any point, rendering takes no further events and stops with an error, the very error of the sink, and everything written before is a prefix of the full output.",
  ["inputs", "fault_sequences"], "all documents, every failing write and every partial write pattern",
  "Needs a fault at each possible write; tests never inject a failing sink.",
  [L, H], [("Render::write_event WriteAdapter, push_events, write_events", L)], ["results and output of Render methods"])
p("C29", "Parsers are deterministic, cloneable and independent",
  "Parsing the same input again gives the same events, a clone taken after any number of events continues with exactly the events the original has left, whichever of the two is advanced first or interleaved, and after the last event iteration keeps returning nothing. What a parser gives never depends on other parsers or renderers, on documents parsed before, or on where a document lies in memory. The events are the same however they are consumed (one by one, at once, counted or skipped), and the bounds on their number that the iterator announces hold.",
  ["inputs", "histories", "schedules"], "all documents, all clone points and all interleavings of two iterators up to a bound",
  "Quantifies over clone points and interleavings; no test clones a parser midway.",
  [L, I], [("derive(Clone) for Parser", L), ("inline::Parser buffers", I)], [EV])
p("C30", "The command line tool writes what the library renders, or fails",
  "For every input from standard input or a file and every combination of formatting options, the tool writes exactly the library's rendering to standard output or the output file and exits successfully. If input can not be read, is not UTF-8, or output can not be written in full, it reports the error and exits unsuccessfully.",
  ["inputs", "configurations", "fault_sequences"], "all option combinations, inputs and input/output faults",
  "The test suite runs the tool twice, once with a missing file.",
  [M, L], [("run()", M)], ["exit status, standard output, standard error, output file of the jotdown binary"])
p("C31", "White space and line layout only matter where Djot says so",
  "A missing final newline, trailing white space on a line, extra indentation of paragraph continuation lines, and the number of spaces after a block marker do not change the structure of the document, except inside verbatim or code content and list nesting; trailing white space before a line break within a block stays part of the text. Only ASCII white space counts as white space; any other character, of any encoded length, is treated as ordinary text in every construct.",
  ["inputs"], "all documents under layout changes, and all Unicode characters in all constructs",
  "A relation between pairs of documents; tests use ASCII and a single layout.",
  [B, I, X], [("trim_matches(is_ascii_whitespace)", B), ("Lexer", X)], [EV])
p("C32", "The classification of containers and bullets is right everywhere",
  "A container says it is a block exactly if it occurs among blocks, as opposed to within text, and a block container exactly if it holds blocks (lists, items, tables and rows included) rather than text; the document is neither. So whether a filter is among blocks or within text is always known from the container it is in. The three bullet characters, and no other character or byte, convert to bullet types, and back to themselves.",
  ["inputs"], "all documents, all containers, all characters",
  "Only an enumeration of documents shows in which places each kind of container occurs; the tests do not use the classification.",
  [L, "src/block.rs"], [("Container::is_block, Container::is_block_container, ListBulletType conversions", L)], [EV, "Container::is_block, Container::is_block_container, ListBulletType::try_from"])
p("C33", "Separated blocks do not affect each other",
  "What comes before and after a top-level thematic break does not depend on each other: the part before it gives the same events and ranges with whatever comes after it, and the part after it the same events, with shifted ranges, whatever comes before it (unclosed inline syntax, lists, tables, notes, attributes). The only exceptions are references, which use definitions and headings of the whole document, ids of headings, and where sections end.",
  ["inputs", "histories"], "all pairs of documents",
  "A relation between a document and its parts, for all pairs of states that a part may leave and of constructs that may pick it up; tests have single blocks.",
  [B, I, L], [("TreeParser state (open_lists, alignments, attributes, prev_blankline)", B), ("inline::Parser::reset", I)], [EV])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
