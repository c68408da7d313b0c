"""Properties, the harnesses that decide each of them, and their bounds.  tools/gen.py writes properties.jsonl and MANIFEST.json from this."""
from vlib import Harness as H

PROPS = {}
INP, CONF, HIST, FAULT, SCHED, CRASH = "inputs", "configurations", "histories", "fault_sequences", "schedules", "crash_points"


def prop(pid, title, statement, over, quant, why, files, mech, *harnesses, assumptions=(), note="", observe=()):
    assert len(title) <= 80, title
    PROPS[pid] = dict(id=pid, title=title, statement=statement, over=[over] if isinstance(over, str) else list(over), quant=quant, why=why, files=list(files),
                      mech=list(mech), harnesses=list(harnesses), assumptions=list(assumptions), note=note, observe=list(observe))


# ---------------------------------------------------------------- shared library
prop("C01", "UTF-8 acceptance matches the standard",
     "Text is accepted as UTF-8 exactly when it is a sequence of well-formed byte sequences of the standard (no overlong forms, no surrogates, nothing above U+10FFFF, nothing truncated). "
     "A leading byte order mark is recognised only when all three of its bytes are present.",
     INP, "every byte string up to the length bound", "tests list some valid and invalid strings; the boundary cases are in the values and positions of every byte",
     ["src/common/utf8.c"], [("bc_utf8_validate", "src/common/utf8.c"), ("bc_utf8_validate_str", "src/common/utf8.c"), ("bc_utf8_skip_bom", "src/common/utf8.c")],
     H("utf8", "utf8", quick=[{0: 6}], thorough=[{0: 9}], reach=["valid", "invalid", "bom"], what="acceptance equals the table of well-formed sequences; byte order mark length",
       bounds="p0: bytes", outside="longer byte strings"))

prop("C02", "The string map keeps exactly the last value stored under each key",
     "A value stored under a key is found under that key and under no other, until it is replaced; replaced and released values are given back exactly once. "
     "The size, and a walk over the map, cover each stored key exactly once.",
     [INP, HIST], "every sequence of insertions of arbitrary short keys (shared prefixes included), followed by lookups, walk and release", "tests insert a handful of fixed keys",
     ["src/common/utils.c"], [("bc_trie_insert", "src/common/utils.c"), ("bc_trie_lookup", "src/common/utils.c"), ("bc_trie_foreach", "src/common/utils.c")],
     H("trie", "trie", quick=[{0: 3, 1: 2}], thorough=[{0: 4, 1: 2}, {0: 3, 1: 3}], reach=["hit", "miss", "replace"], what="trie against an association list", bounds="p0: keys, p1: bytes per key",
       outside="longer keys and histories"))

prop("C03", "String helpers keep every character of their input",
     "Splitting, joining, stripping, searching, replacing, prefix and suffix tests, escaping-aware search, building and formatting of strings give the result their definition says for every text, "
     "and never read or write outside the strings involved.",
     INP, "every text up to the length bound, every separator, every split limit up to 3", "tests use a few literal strings per helper",
     ["src/common/utils.c"], [("bc_str_split", "src/common/utils.c"), ("bc_str_replace", "src/common/utils.c"), ("bc_str_find", "src/common/utils.c"), ("bc_string_append_escaped", "src/common/utils.c")],
     H("strutil", "strutil", quick=[{0: 4}], thorough=[{0: 6}], reach=["affix", "bool", "builder", "escaped", "find", "join", "list", "ndup", "printf", "replace", "space", "split", "status", "strip"],
       what="helpers against direct definitions", bounds="p0: bytes of each text", outside="longer texts; allocation failure"))

prop("C04", "Quoted text reaches the command as exactly one argument",
     "Text quoted for the shell is read back by a POSIX shell as one word with exactly the original bytes, and no character of it is acted on by the shell.",
     INP, "every string up to the length bound", "tests check the quoted form of a few strings, not what a shell makes of it",
     ["src/common/utils.c"], [("bc_shell_quote", "src/common/utils.c")],
     H("shquote", "shquote", quick=[{0: 5}], thorough=[{0: 8}], reach=["quote", "plain", "bang"], what="quoted text through a model of POSIX word splitting and quote removal", bounds="p0: bytes",
       outside="longer strings"), assumptions=["POSIX shell word grammar is harness/shellwords.h"])

prop("C05", "Settings files: every value written is the value read",
     "A well-formed settings file gives back every section, key, value and list item exactly as written (quotes and escapes resolved), whichever line ending it uses and whether or not the last line is terminated. "
     "A malformed file is refused with an error, and no byte string makes the reader crash or read out of bounds.",
     INP, "every value, key and list item text up to the length bound in each syntactic position, three line endings, and every short byte string as a whole file", "tests parse a few literal files",
     ["src/common/config-parser.c"], [("bc_config_parse", "src/common/config-parser.c"), ("bc_config_get", "src/common/config-parser.c")],
     H("config", "config", quick=[{0: 3, 1: 5}], thorough=[{0: 4, 1: 6}], reach=["any error", "any ok", "closed quotes", "error", "escape", "names", "quoted", "same key"], what="parsed values against an independent reading of the file",
       bounds="p0: bytes per value, p1: bytes of an arbitrary file", outside="longer values; more than two entries per section", ttime=2500))

prop("C06", "Reading a file gives all of its content or an error",
     "Reading a file returns its complete content (minus a byte order mark when text is expected) or an error, whatever read or open failure happens, and always ends. "
     "Content that is not valid UTF-8 is refused where UTF-8 is required, and nothing stays open.",
     [INP, FAULT], "every short content and contents around the buffer size, files, directories and missing files, each single open or read failure and short reads", "tests read existing good files",
     ["src/common/file.c"], [("bc_file_get_contents", "src/common/file.c")],
     H("fileread", "fileread", quick=[{0: 3, 1: 1}], thorough=[{0: 5, 1: 2}], reach=["bom", "long", "short"], what="content and error against the virtual file", bounds="p0: arbitrary bytes (after 0 or 1020..1029 fixed bytes), p1: injected faults",
       outside="larger files", stubs="stdio and file system: models/env.c"))

prop("C07", "Parse errors name the right line and column",
     "An error about a position in a text reports the line and column of that position and quotes exactly that line, for LF, CRLF and CR line endings.",
     INP, "every text up to the length bound and every offset in it", "tests contain a few literal messages with LF line endings",
     ["src/common/error.c"], [("bc_error_parser", "src/common/error.c")],
     H("errpos", "errpos", quick=[{0: 4}], thorough=[{0: 6}], reach=["empty line", "near"], what="message against an independent position count", bounds="p0: characters (line breaks count one)", outside="longer texts"))

prop("C08", "Sorting keeps every element, orders them, and keeps ties in order",
     "Sorting a list gives a permutation of it in the order of the comparison, with equal elements in their original order.",
     INP, "every list of keys up to the length bound", "tests sort two fixed lists",
     ["src/common/sort.c"], [("bc_slist_sort", "src/common/sort.c")],
     H("sort", "sort", quick=[{0: 5}], thorough=[{0: 6}], reach=["tie"], what="permutation, order, stability", bounds="p0: elements", outside="longer lists"))

# ---------------------------------------------------------------- blogc
prop("B01", "Source files: variables and content are taken over exactly",
     "A well-formed source file gives every variable its text up to the end of its line and the content everything after the separator; variables the tool derives cannot be set and none can be set twice. "
     "Every other file is refused with an error: nothing is dropped silently and no byte string makes the reader fail otherwise.",
     INP, "every key and value text up to the length bound, three line endings, every truncation, and every short byte string as a whole file", "tests parse a few literal files",
     ["src/blogc/source-parser.c"], [("blogc_source_parse", "src/blogc/source-parser.c")],
     H("source", "source", quick=[{0: 2, 1: 3}], thorough=[{0: 3, 1: 4}], reach=["allowed", "any error", "any ok", "cut", "derived", "forbidden", "reassigned", "two"], what="variables against an independent reading of the file",
       bounds="p0: bytes per text, p1: bytes of an arbitrary file", outside="longer texts; more than two variables", ttime=2500))

prop("B02", "A list of files names exactly the files on its lines",
     "The list of sources read from standard input names, in order, exactly the lines that are neither empty nor comments, without surrounding white space, whatever ends the lines.",
     INP, "every byte string up to the length bound", "tests read a few literal lists",
     ["src/blogc/filelist-parser.c"], [("blogc_filelist_parse", "src/blogc/filelist-parser.c")],
     H("filelist", "filelist", quick=[{0: 5}], thorough=[{0: 7}], reach=["comment", "none"], what="entries against a line by line reading", bounds="p0: bytes", outside="longer lists"))

prop("B03", "Dates are accepted exactly in the documented formats and mean what they say",
     "A date is accepted exactly when it is written in one of the documented formats with every field in range, and the formatted date is made from exactly the fields written. "
     "Everything else, and a formatted date that does not fit, is an error.",
     INP, "every string of each accepted length, and every string of every other length up to 21 bytes", "tests try a list of literal dates",
     ["src/blogc/datetime-parser.c"], [("blogc_convert_datetime", "src/blogc/datetime-parser.c")],
     H("datetime", "datetime", quick=[{0: 0}], thorough=[{0: 0}], reach=["refused", "summer", "too long", "winter"], what="fields handed to the formatter against the text", bounds="lengths 0..21, all bytes arbitrary", outside="longer strings",
       stubs="mktime, strftime: recording stubs"))

TM = ["src/blogc/template-parser.c", "src/blogc/renderer.c", "man/blogc-template.7.ronn"]
prop("B05", "Exactly the well-formed, well-nested templates are accepted",
     "A template is accepted exactly when each of its statements is complete and written in the documented syntax and the statements are properly nested (one else per conditional, no block in a block, no iterator in an iterator). "
     "Every other template is refused with an error, whatever characters it contains.",
     [INP, "programs"], "every sequence of statements up to the bound, and every text over the template alphabet up to the length bound alone and inside partial statements", "tests list single malformed statements",
     TM[:1] + TM[2:], [("blogc_template_parse", "src/blogc/template-parser.c")],
     H("tmpl-if", "tmpl", quick=[{0: 5, 1: 0}], thorough=[{0: 6, 1: 0}], reach=["accepted", "refused"], what="sequences of conditionals", bounds="p0: statements, p1: which statements", outside="longer templates"),
     H("tmpl-foreach", "tmpl", quick=[{0: 5, 1: 1}, {0: 5, 1: 4}], thorough=[{0: 6, 1: 1}, {0: 7, 1: 4}], reach=["accepted", "refused"], what="sequences with iterators", bounds="p0: statements, p1: which statements", outside="longer templates"),
     H("tmpl-block", "tmpl", quick=[{0: 5, 1: 2}, {0: 5, 1: 3}], thorough=[{0: 5, 1: 2}, {0: 6, 1: 3}], reach=["accepted", "refused"], what="sequences with blocks", bounds="p0: statements, p1: which statements", outside="longer templates"),
     H("tlit", "tlit", quick=[{0: 7}, {0: 6, 1: 1}], thorough=[{0: 10}, {0: 9, 1: 1}], reach=["rendered", "refused", "text"], what="any characters", bounds="p0: characters, p1: all byte values", outside="longer templates"),
     H("tlit-scaffold", "tlit", quick=[{0: 3, 2: 1}], thorough=[{0: 5, 2: 1}], reach=["rendered", "refused", "text"], what="any characters inside partial statements", bounds="p0: characters, p2: 17 prefixes, 12 suffixes", outside="longer templates"))

prop("B06", "Literal template text reaches the output unchanged",
     "Everything in an accepted template that is not a statement or variable appears in the output exactly as written, in order, and white space is removed only next to a statement that asks for it.",
     [INP, "programs"], "every text over the template alphabet up to the length bound, alone and inside partial statements", "tests render a few literal templates",
     TM, [("blogc_template_parse", "src/blogc/template-parser.c"), ("blogc_render", "src/blogc/renderer.c")],
     H("tlit", "tlit", quick=[{0: 8}, {0: 7, 1: 1}], thorough=[{0: 10}, {0: 9, 1: 1}], reach=["rendered", "refused", "text"], what="rendered text against an independent reading", bounds="p0: characters, p1: all byte values", outside="longer templates; NUL bytes"),
     H("tlit-scaffold", "tlit", quick=[{0: 3, 2: 1}], thorough=[{0: 5, 2: 1}], reach=["rendered", "refused", "text"], what="the same inside partial statements", bounds="p0: characters, p2: 17 prefixes, 12 suffixes", outside="longer templates"))

prop("B07", "Blocks, conditionals and iterators include exactly what they should",
     "Rendering an accepted template includes each part exactly when its block applies and its conditions hold, and repeats iterators and listings once per item in order. "
     "Source variables are visible only inside blocks that provide them.",
     [INP, "programs", CONF], "every well-nested sequence of statements up to the bound, with every combination of defined variables, values, list items, number of sources, listing mode and extra entries", "tests render a few literal templates with fixed data",
     TM[1:], [("blogc_render", "src/blogc/renderer.c")],
     H("render-if", "tmpl", quick=[{0: 6, 1: 0, 2: 1}, {0: 10, 1: 5, 2: 1}], thorough=[{0: 8, 1: 0, 2: 1}, {0: 12, 1: 5, 2: 1}], reach=["rendered"], what="conditionals against an independent interpreter", bounds="p0: statements, p1: which statements; values are arbitrary characters", outside="longer templates"),
     H("render-foreach", "tmpl", quick=[{0: 7, 1: 1, 2: 1}, {0: 7, 1: 4, 2: 1}], thorough=[{0: 8, 1: 1, 2: 1}, {0: 9, 1: 4, 2: 1}], reach=["rendered"], what="iterators and blocks", bounds="p0: statements, p1: which statements", outside="longer templates"),
     H("render-block", "tmpl", quick=[{0: 5, 1: 2, 2: 1}, {0: 6, 1: 3, 2: 1}], thorough=[{0: 7, 1: 2, 2: 1}, {0: 8, 1: 3, 2: 1}], reach=["rendered"], what="blocks, sources, scope", bounds="p0: statements, p1: which statements", outside="longer templates"),
    H("render-data", "tdata", quick=[{0: 4}], thorough=[{0: 6}], reach=["rendered", "holds", "does not"], what="fixed templates rendered with arbitrary values, lists and sources", bounds="p0: bytes per value", outside="longer values; other templates"))

prop("B08", "Variables resolve as documented",
     "A variable has its local value, else its global value; a name ending in _FORMATTED or _<length> that is not itself defined gives the formatted or truncated value of the rest; an iterator provides its item and the value mapped to it. Anything else is undefined.",
     [INP, CONF], "every suffix up to the length bound on each kind of name, every value up to 3 bytes, every subset of definitions", "tests look up a few fixed names",
     TM[1:], [("blogc_format_variable", "src/blogc/renderer.c"), ("blogc_get_variable", "src/blogc/renderer.c")],
     H("tvar", "tvar", quick=[{0: 2}], thorough=[{0: 4}], reach=["undefined", "item", "value"], what="values against the documented rules", bounds="p0: characters of the suffix", outside="a length of zero; multi-byte truncation; user variables called FOREACH_*", stubs="mktime, strftime"),
    H("tdata", "tdata", quick=[{0: 3}], thorough=[{0: 5}], reach=["rendered"], what="the same through whole templates: local before global, sizes, iterators", bounds="p0: bytes per value", outside="longer values; other templates"))

prop("B09", "No content makes the HTML conversion read out of bounds or hang",
     "Converting any content to HTML ends, touches only memory it owns, and gives an output, for every byte string.",
     INP, "every byte string up to the length bound, and every short text over the markup alphabet inside partial constructs (lists, quotes, links, emphasis, HTML)", "tests convert well-formed literal documents",
     ["src/blogc/content-parser.c"], [("blogc_content_parse", "src/blogc/content-parser.c"), ("blogc_content_parse_inline", "src/blogc/content-parser.c")],
     H("ctext-bytes", "ctext", quick=[{0: 3, 2: 1}], thorough=[{0: 4, 2: 1}], reach=["done", "text"], what="arbitrary bytes", bounds="p0: bytes, p2: whole byte range", outside="longer documents"),
     H("ctext-scaffold", "ctext", quick=[{0: 2, 1: 1}], thorough=[{0: 3, 1: 1}], reach=["done", "text"], what="markup characters inside partial constructs", bounds="p0: characters of the markup alphabet, p1: scaffolds", outside="longer documents"))

prop("B10", "No text of a document is lost or repeated in the HTML",
     "Each piece of the author's text appears in the HTML as often as it was written, except where the markup it is part of says otherwise (links, images, raw HTML, definitions of an excerpt).",
     INP, "every text over the markup alphabet up to the length bound, alone and inside partial constructs", "tests compare whole outputs for literal documents; losses occur in odd combinations of markup",
     ["src/blogc/content-parser.c"], [("blogc_content_parse", "src/blogc/content-parser.c"), ("blogc_content_parse_inline", "src/blogc/content-parser.c")],
     H("ctext", "ctext", quick=[{0: 4}], thorough=[{0: 5}], reach=["done", "text"], what="occurrences of marker letters in input and output", bounds="p0: characters of the markup alphabet", outside="longer documents", ttime=3000),
     H("ctext-scaffold", "ctext", quick=[{0: 2, 1: 1}], thorough=[{0: 3, 1: 1}], reach=["done", "text"], what="the same inside partial constructs", bounds="p0: characters, p1: scaffolds", outside="longer documents"),
     H("ctext-lines", "ctext", quick=[{3: 3}, {3: 2, 4: 1}], thorough=[{3: 4}, {3: 3, 4: 1}], reach=["lines"], what="sequences of lines, each with any letter: every letter shown once, in order", bounds="p3: lines, p4: 0 core line forms, 1 all line forms", outside="longer documents, other line forms"))

prop("B11", "Text outside HTML blocks never becomes markup",
     "In the HTML made from content without raw HTML blocks and links, every '<' starts a tag and every '&' an entity that the conversion itself writes, and quotes occur only inside those tags.",
     INP, "every single-line text up to the length bound in each kind of block", "tests escape a few characters in fixed positions",
     ["src/blogc/content-parser.c"], [("blogc_htmlentities", "src/blogc/content-parser.c"), ("blogc_content_parse_inline", "src/blogc/content-parser.c")],
     H("cescape", "cescape", quick=[{0: 3}], thorough=[{0: 4}], reach=["description", "header"], what="output scanned against the closed list of tags and entities", bounds="p0: bytes", outside="longer texts"),
     H("cescape-lines", "cescape", quick=[{1: 2}, {1: 2, 2: 1}], thorough=[{1: 3}, {1: 3, 2: 1}], reach=["description", "header", "lines"], what="sequences of lines, one holding an arbitrary byte", bounds="p1: lines, p2: 0 core line forms, 1 all line forms", outside="longer documents, other line forms", ttime=3000))

prop("B12", "Documented markup gives the documented HTML",
     "Documents built from the documented block and inline elements give exactly the HTML the documentation describes, with the first header, description, excerpt position and header list that go with it, whatever text the elements hold and whichever line ending is used.",
     INP, "every combination of elements up to the structural bound, with arbitrary text in every position", "tests compare whole outputs for literal documents",
     ["src/blogc/content-parser.c", "man/blogc-source.7.ronn"], [("blogc_content_parse", "src/blogc/content-parser.c"), ("blogc_content_parse_inline", "src/blogc/content-parser.c")],
     H("cblocks", "cblocks", quick=[{0: 2}], thorough=[{0: 3}], reach=["blockquote", "code", "done", "excerpt", "header", "html", "paragraph", "rule", "single line"], what="one block of each kind against the documented HTML", bounds="p0: bytes per text", outside="longer texts"),
     H("cblocks2", "cblocks", quick=[{0: 1, 1: 1}], thorough=[{0: 1, 1: 1}], reach=["done"], what="two blocks in sequence", bounds="p0: bytes per text, p1: two blocks", outside="longer sequences"),
     H("cinline", "cinline", quick=[{0: 1}], thorough=[{0: 2}], reach=["auto link", "code", "code with a back quote", "dash", "done", "em", "escape", "escape inside a link or image", "image", "image link", "line break", "link", "strong"],
       what="inline elements against the documented HTML", bounds="p0: bytes per text", outside="longer texts"),
     H("cinline2", "cinline", quick=[{0: 1, 1: 1}], thorough=[{0: 1, 1: 1}], reach=["done"], what="inline elements inside each other", bounds="p0: bytes per text, p1: nesting depth", outside="deeper nesting"),
     H("cref-inline", "cref", quick=[{0: 0, 1: 6}], thorough=[{0: 0, 1: 7}], reach=["inline"], what="arbitrary inline text against an independent reading of the documentation", bounds="p1: characters of the markup alphabet", outside="longer texts", ttime=3000),
     H("cref-doc", "cref", quick=[{0: 1, 1: 4}], thorough=[{0: 1, 1: 5}], reach=["blocks"], what="arbitrary short documents against the same", bounds="p1: characters of the markup alphabet", outside="longer documents", ttime=3000),
     H("cref-lines", "cref", quick=[{0: 2, 1: 3}, {0: 2, 1: 2, 2: 1}], thorough=[{0: 2, 1: 4}, {0: 2, 1: 3, 2: 1}], reach=["blocks"], what="sequences of lines against the same", bounds="p1: lines, p2: 0 core line forms, 1 all line forms", outside="longer documents, other line forms", ttime=3000))

prop("B13", "Documents mean the same with LF, CRLF and CR line endings",
     "Changing the line endings of a document (to LF, CRLF or CR, or mixing LF and CRLF) changes nothing in the HTML, first header, description and header list but the line endings themselves.",
     INP, "every document over the markup alphabet up to the length bound, alone and inside partial constructs, and every choice of line endings", "tests repeat a few literal documents with CRLF",
     ["src/blogc/content-parser.c"], [("blogc_content_parse", "src/blogc/content-parser.c")],
     H("cnl", "cnl", quick=[{0: 4}], thorough=[{0: 5}], reach=[], what="two conversions of the same document compared", bounds="p0: characters", outside="longer documents"),
     H("cnl-scaffold", "cnl", quick=[{0: 2, 1: 1}], thorough=[{0: 3, 1: 1}], reach=[], what="the same inside partial constructs", bounds="p0: characters, p1: scaffolds", outside="longer documents"),
     H("cnl-lines", "cnl", quick=[{3: 3}, {3: 2, 4: 1}], thorough=[{3: 3, 4: 1}], reach=["cr", "crlf", "mixed"], what="sequences of lines", bounds="p3: lines, p4: 0 core line forms, 1 all line forms", outside="longer documents, other line forms", ttime=3000))

prop("B14", "Slugs, entities and descriptions are derived exactly",
     "A slug has one lower-case letter, digit or dash per byte of its title; entities replace exactly the special characters; a description is the paragraph's lines joined, stripped and encoded; an ordered list prefix is recognised exactly. The first header and the description are those of the document's first header and first paragraph.",
     INP, "every text up to the length bound", "tests use literal titles",
     ["src/blogc/content-parser.c"], [("blogc_slugify", "src/blogc/content-parser.c"), ("blogc_fix_description", "src/blogc/content-parser.c"), ("blogc_is_ordered_list_item", "src/blogc/content-parser.c")],
     H("cderive", "cderive", quick=[{0: 4}], thorough=[{0: 6}], reach=["description", "entities", "slug"], what="against direct definitions", bounds="p0: bytes", outside="longer texts"),
     H("cref-derived", "cref", quick=[{0: 2, 1: 2, 2: 1, 3: 1}], thorough=[{0: 2, 1: 3, 2: 1, 3: 1}], reach=["blocks"], what="first header, description and headers of sequences of lines, against an independent reading", bounds="p1: lines, p2: 0 core line forms, 1 all line forms", outside="longer documents, other line forms", ttime=3000))

prop("B15", "The table of contents lists every header at its depth, well nested",
     "The table of contents has one entry per header within the depth limit counted from the highest level present, in order, in properly nested lists; no table is made when there are no headers or the depth is 0. "
     "The depth is that of the source, else the global one, else unlimited; a source's own table is kept.",
     INP, "every sequence of header levels up to the bound, every depth limit from -2 to 6, three line endings", "tests render a few fixed lists of headers",
     ["src/blogc/toctree.c", "src/blogc/loader.c", "src/blogc/source-parser.c"], [("blogc_toctree_render", "src/blogc/toctree.c")],
     H("toctree", "toctree", quick=[{0: 4, 1: 5}], thorough=[{0: 5, 1: 6}], reach=["none", "table", "too deep"], what="rendered list walked against the headers", bounds="p0: headers, p1: levels", outside="more headers"),
    H("stoc", "stoc", quick=[{}], thorough=[{}], reach=["default", "off", "refused", "global", "local", "own"], what="depth set globally and by the source", bounds="depths of up to two characters", outside="a global depth that is not a number", stubs="file system: models/env.c"))

prop("B16", "Listings contain exactly the entries of the tag and page asked for",
     "A listing contains, in order, exactly the sources with the requested tag that fall on the requested page; the page variables say which page this is and which pages exist. Odd or huge page numbers and page sizes list nothing wrong and crash nothing.",
     [INP, CONF], "every number of sources up to the bound, every tag combination, page and page size digits and extreme values, reversal", "tests list fixed sets with ordinary page numbers",
     ["src/blogc/loader.c", "man/blogc-pagination.7.ronn"], [("blogc_source_parse_from_files", "src/blogc/loader.c"), ("blogc_get_filename", "src/blogc/loader.c")],
     H("loader-pages", "loader", quick=[{0: 3}], thorough=[{0: 4}], reach=["listed", "paged", "next", "beyond"], what="listing and page variables against direct counting", bounds="p0: sources", outside="more sources", stubs="mktime, strftime(%s)"),
     H("ltag", "ltag", quick=[{0: 4, 1: 3, 2: 1}, {0: 3, 1: 2, 2: 2}], thorough=[{0: 6, 1: 4, 2: 1}, {0: 4, 1: 3, 2: 2}], reach=["listed", "none"], what="tag and tags text compared word by word", bounds="p0: bytes of TAGS, p1: bytes of the tag, p2: sources", outside="longer texts"),
     H("fname", "fname", quick=[{0: 6}], thorough=[{0: 8}], reach=["extension", "directory"], what="FILENAME for any path", bounds="p0: bytes", outside="longer paths"))

prop("B17", "Sorted listings are in the order of their dates",
     "With sorting requested, entries are listed newest first (oldest first when reversed) for any dates, before tags and pages are applied, and the first and last entry variables match the listing. "
     "Sources without the dates this needs are refused.",
     [INP, CONF], "every assignment of dates (1901 to 2150) and tags to the sources up to the bound, missing, unreadable and undated sources", "tests sort a few dates of one decade",
     ["src/blogc/loader.c", "src/common/sort.c"], [("blogc_source_parse_from_files", "src/blogc/loader.c"), ("bc_slist_sort", "src/common/sort.c")],
     H("loader-sort", "loader", quick=[{0: 3, 1: 1}], thorough=[{0: 4, 1: 1}], reach=["sorted", "paged"], what="order, tags, pages of sorted listings", bounds="p0: sources", outside="more sources", stubs="mktime, strftime(%s)"),
     H("loader-dates", "loader", quick=[{0: 2, 1: 3}], thorough=[{0: 3, 1: 3}], reach=["sorted"], what="any two years of 1900..2099 compared by the solver", bounds="p0: sources", outside="more sources", stubs="strftime(%s): an order-preserving stand-in"),
     H("loader-errors", "loader", quick=[{0: 3, 1: 2}], thorough=[{0: 4, 1: 2}], reach=["error", "listed"], what="missing dates, bad dates, missing files", bounds="p0: sources", outside="more sources"))

prop("B18", "blogc succeeds exactly when the complete output was written",
     "blogc exits with success exactly when its arguments and inputs are in order and the complete rendered page (or variable) reached its destination; otherwise it exits with failure and says why. "
     "When nothing could be rendered an existing output file is left as it was.",
     [INP, CONF, FAULT], "every combination of options, good, malformed and missing inputs, output destinations, lists on standard input, and every single (thorough: pair of) system call failure", "tests call the parsers, no test runs the program under faults",
     ["src/blogc/main.c", "man/blogc.1.ronn"], [("main", "src/blogc/main.c"), ("blogc_render", "src/blogc/renderer.c")],
     H("bmain-args", "bmain", quick=[{0: 1}], thorough=[{0: 1}], reach=["failed", "printed", "rendered"], what="argument and input combinations", bounds="listing or not, up to 2 sources", outside="longer command lines", stubs="file system, stdio: models/env.c"),
     H("bmain-faults", "bmain", quick=[{0: 2, 1: 1}], thorough=[{0: 2, 1: 3}], reach=["failed", "fault", "rendered"], what="injected failures of every file system and output call", bounds="p1: faults", outside="memory exhaustion"),
     H("bmain-stdin", "bmain", quick=[{0: 3}], thorough=[{0: 3}], reach=["failed", "rendered"], what="sources from standard input", bounds="up to 2 lines, 3 sources", outside="longer lists"),
     H("bmain-stdin-faults", "bmain", quick=[{0: 4}], thorough=[{0: 4}], reach=["failed", "fault", "rendered"], what="the same with a read error", bounds="one fault", outside="several faults"),
     H("bmain-output", "bmain", quick=[{0: 5, 1: 7}], thorough=[{0: 5, 1: 9}], reach=["failed", "rendered"], what="output files in directories that do not exist", bounds="p1: bytes of the path", outside="longer paths; back slashes"))

prop("B19", "Command line definitions are taken exactly or refused",
     "A -D definition is accepted exactly when it is valid UTF-8 of the form KEY=VALUE with a well-formed key; its value is everything after the first '='; and -p prints exactly that value. Anything else fails with a message.",
     INP, "every argument text up to the length bound, in both option forms", "no test runs the program with arbitrary arguments",
     ["src/blogc/main.c"], [("main", "src/blogc/main.c")],
     H("bmain-define", "bmain", quick=[{0: 0, 1: 5}], thorough=[{0: 0, 1: 7}], reach=["refused", "printed", "undefined"], what="-D and -p for any text", bounds="p1: bytes", outside="longer arguments"),
     H("bmain-define-long", "bmain", quick=[{0: 0, 1: 3, 2: 1}], thorough=[{0: 0, 1: 4, 2: 1}], reach=["printed", "refused", "undefined"], what="the same behind a long name, a long value and long sequences", bounds="p1: bytes", outside="other prefixes"))

prop("B20", "Variables about the build and the system say what is documented",
     "BLOGC_SYSINFO_* and BLOGC_RUSAGE_* give the host name, the login name, the GMT time, whether this is inside docker, and the resources used; they are undefined when the system cannot tell; a variable of the user's with that name wins; what was said once stays; sizes and conditionals apply to them as to others.",
     [INP, CONF, FAULT], "every host and login name up to the length bound, every broken-down time, every content of the control group file that differs in one byte, every small amount of time and memory, each source of information failing", "tests replace the functions by stubs that return one value",
     ["src/blogc/sysinfo.c", "src/blogc/funcvars.c", "src/blogc/rusage.c"], [("blogc_funcvars_eval", "src/blogc/funcvars.c"), ("blogc_sysinfo_inject_username", "src/blogc/sysinfo.c"), ("blogc_rusage_inject", "src/blogc/rusage.c")],
     H("tsys", "tsys", quick=[{0: 2}], thorough=[{0: 3}], reach=["own", "unknown", "not available", "SYSINFO_HOSTNAME", "SYSINFO_USERNAME", "SYSINFO_DATETIME", "SYSINFO_INSIDE_DOCKER", "RUSAGE_CPU_TIME", "RUSAGE_MEMORY"], what="rendered through a template, twice", bounds="p0: characters of a name", outside="amounts of a millisecond or a megabyte and more (floating point)", stubs="gethostname, gethostbyname, time, gmtime, getrusage: answers chosen by the harness; file system: models/env.c"))

# ---------------------------------------------------------------- blogc-make
prop("M01", "blogcfile: accepted exactly when complete, values and defaults as documented",
     "A blogcfile is accepted exactly when all required values are present and every variable name is well formed; every setting that is given has exactly its value, every other its documented default, "
     "and posts, pages, tags and files to copy are exactly those listed, in order. The legacy section names are honoured only when the current ones are absent.",
     [INP, CONF], "every variable name, value and list item text up to the length bound, every missing or empty required value, every section order", "tests parse a few literal files",
     ["src/blogc-make/settings.c", "man/blogcfile.5.ronn"], [("bm_settings_parse", "src/blogc-make/settings.c")],
     H("msettings-names", "msettings", quick=[{0: 0, 1: 3}], thorough=[{0: 0, 1: 5}], reach=["accepted", "key", "refused"], what="names of global variables", bounds="p1: bytes of a name", outside="longer names"),
     H("msettings-required", "msettings", quick=[{0: 1}], thorough=[{0: 1}], reach=["accepted", "refused"], what="required values", bounds="one missing value"),
     H("msettings-values", "msettings", quick=[{0: 2, 1: 2}], thorough=[{0: 2, 1: 5}], reach=["accepted"], what="values and defaults", bounds="p1: bytes of a value", outside="longer values"),
     H("msettings-lists", "msettings", quick=[{0: 3, 1: 2}], thorough=[{0: 3, 1: 3}], reach=["accepted", "lists"], what="lists", bounds="p1: bytes of an item, up to 2 items", outside="longer lists"))

prop("M02", "Outputs are named by the documented rule",
     "The file an output is written to is the output directory, the prefixes that are set, the name and the extension, in this order, for any combination of set, empty and missing parts.",
     [INP, CONF], "every combination of missing, empty and arbitrary parts up to the length bound", "tests name a few literal combinations",
     ["src/blogc-make/utils.c"], [("bm_generate_filename", "src/blogc-make/utils.c"), ("bm_generate_filename2", "src/blogc-make/utils.c")],
     H("mfname", "mfname", quick=[{0: 2}], thorough=[{0: 3}], reach=["name", "none", "other", "prefix"], what="against the rule", bounds="p0: bytes per part", outside="longer parts"),
     H("mfname2", "mfname", quick=[{0: 1, 1: 1}], thorough=[{0: 2, 1: 1}], reach=["name", "none", "other", "prefix"], what="names with two prefixes", bounds="p0: bytes per part", outside="longer parts"))

prop("M03", "What is older than something it is made from is built again, and only that",
     "A second run builds exactly the outputs that are missing or older than the settings, template, listing entry or source they are made from, down to the nanosecond; a run over an up to date site builds nothing.",
     [HIST, CONF], "every assignment of file times (64 bit seconds and nanoseconds), every choice of the input that changed, existing and missing files", "tests cannot enumerate orders of file times",
     ["src/blogc-make/rules.c", "src/blogc-make/ctx.c"], [("bm_rule_need_rebuild", "src/blogc-make/rules.c"), ("bm_filectx_changed", "src/blogc-make/ctx.c")],
     H("mrebuild", "mrebuild", quick=[{0: 0, 1: 2}], thorough=[{0: 0, 1: 3}], reach=["current", "rebuild"], what="the decision for any times", bounds="p1: sources", outside="more sources"),
     H("mchanged", "mrebuild", quick=[{0: 1}], thorough=[{0: 1}], reach=["changed", "same"], what="times read from files, changes detected", bounds="one file", stubs="stat: models/env.c"),
     H("mbuild-again", "mbuild", quick=[{0: 1}], thorough=[{0: 1}], reach=["current", "rebuilt"], what="a second run of the whole program after one input changed", bounds="2 posts, pages, tags and copied files", outside="larger sites", stubs="blogc, processes, file system: models/env.c", max_steps=30000000))

prop("M04", "Commands reach blogc and blogc-runserver exactly as intended",
     "Whatever text the settings, tags, slugs, paths and rule arguments contain, the shell runs the intended program with exactly the intended arguments, and nothing else.",
     [INP, CONF], "every text up to the length bound in every position of the command, every combination of options", "tests compare a few literal commands",
     ["src/blogc-make/exec.c"], [("bm_exec_build_blogc_cmd", "src/blogc-make/exec.c"), ("bm_exec_find_binary", "src/blogc-make/exec.c"), ("bm_exec_blogc_runserver", "src/blogc-make/exec.c")],
     H("mcmd-blogc", "mcmd", quick=[{0: 0, 1: 2}], thorough=[{0: 0, 1: 4}], reach=["command"], what="the blogc command through a model of the POSIX shell grammar", bounds="p1: bytes", outside="longer texts"),
     H("mcmd-binary", "mcmd", quick=[{0: 1, 1: 3}], thorough=[{0: 1, 1: 5}], reach=["environment", "path", "same directory"], what="the program that is found", bounds="p1: bytes", outside="longer paths"),
     H("mcmd-server", "mcmd", quick=[{0: 2, 1: 3}], thorough=[{0: 2, 1: 5}], reach=["server"], what="the server command", bounds="p1: bytes", outside="longer texts"),
     H("mbuild-server", "mbuild", quick=[{0: 6, 1: 1}], thorough=[{0: 6, 1: 3}], reach=["server"], what="arguments of the runserver rule, through the whole program", bounds="p1: bytes", outside="longer texts", max_steps=30000000),
     assumptions=["POSIX shell word grammar is harness/shellwords.h"])

prop("M05", "Copied files are complete and their source is never touched",
     "When copying a file reports success the copy is identical to its source; whatever fails, the source is unchanged and nothing outside of the output is written.",
     [INP, CONF, FAULT], "every short content and one over a buffer, every state of the destination (missing, old, directory, link to the source, the source itself), every single (thorough: pair of) failed system calls", "no test copies under faults",
     ["src/blogc-make/exec-native.c"], [("bm_exec_native_cp", "src/blogc-make/exec-native.c")],
     H("mcp", "mcp", quick=[{0: 2, 1: 1}], thorough=[{0: 3, 1: 2}], reach=["copied", "fault", "refused"], what="copy against the source", bounds="p0: bytes, p1: faults", outside="larger files", stubs="file system: models/env.c"))

prop("M06", "Cleaning removes what was built and nothing else",
     "The clean rule removes every built file and the directories left empty in the output directory; files of the user, and everything outside of the output directory, stay.",
     [CONF, HIST], "every output directory form, extension and prefix, full, partial and no previous builds, files of the user in several places", "no test cleans a tree with other files in it",
     ["src/blogc-make/rules.c", "src/blogc-make/exec-native.c"], [("clean_exec", "src/blogc-make/rules.c"), ("bm_exec_native_rm", "src/blogc-make/exec-native.c")],
     H("mbuild-clean", "mbuild", quick=[{0: 2}], thorough=[{0: 2}], reach=["gone", "kept"], what="the tree before and after", bounds="2 posts, 2 copied files, 1 tag", outside="larger sites; links in the output", stubs="blogc, file system: models/env.c", max_steps=30000000))

prop("M07", "Watching brings the site up to date after any history of edits",
     "Whatever sequence of edits happened while watching (a broken or missing blogcfile and failed builds included), once the site is valid again the output becomes what a build of that state gives, and watching does not end by itself.",
     [HIST], "every sequence of edits up to the bound (settings broken, removed, repaired, entries added and removed, sources, templates, copied files, failing commands), at arbitrary increasing times", "no test runs the watcher",
     ["src/blogc-make/reloader.c", "src/blogc-make/ctx.c"], [("bm_reloader_run", "src/blogc-make/reloader.c"), ("bm_ctx_reload", "src/blogc-make/ctx.c")],
     H("mbuild-watch", "mbuild", quick=[{0: 4, 1: 4}, {0: 4, 1: 2, 2: 1}], thorough=[{0: 4, 1: 5}, {0: 4, 1: 3, 2: 1}], reach=["failed", "watched"], what="the whole program over histories of edits", bounds="p1: edits; p2: with a listing entry, a feed with its own template and -D", outside="longer histories; edits in the middle of a command", stubs="blogc, processes, file system: models/env.c", max_steps=60000000))

prop("M08", "The rules asked for are run, and only those",
     "Exactly the outputs of the rules named on the command line are built; an unknown rule makes the program fail; rule arguments are taken exactly as KEY=VALUE pairs or refused.",
     [INP, CONF], "every pair of rules (with and without arguments, unknown ones included), every argument text up to the length bound", "tests parse a few literal arguments",
     ["src/blogc-make/rules.c", "man/blogc-make.1.ronn"], [("bm_rule_executor", "src/blogc-make/rules.c"), ("bm_rule_parse_args", "src/blogc-make/rules.c")],
     H("mbuild-rules", "mbuild", quick=[{0: 0, 1: 1}], thorough=[{0: 0, 1: 2}], reach=["built", "unknown rule"], what="outputs of the named rules", bounds="2 rules; thorough: for every configuration of mbuild", outside="more rules", stubs="blogc, processes, file system: models/env.c", max_steps=30000000, ttime=2500),
     H("mbuild-args", "mbuild", quick=[{0: 5, 1: 5}], thorough=[{0: 5, 1: 8}], reach=["arguments", "bad arguments"], what="argument text", bounds="p1: bytes", outside="keys containing a comma; longer texts"))

prop("M09", "The built-in feed is well formed and names the addresses that are built",
     "The built-in feed template is accepted by blogc for any settings and renders to a feed whose own address and entry addresses are those of the files blogc-make builds; when it can't be stored completely the build fails, and when it can't be printed completely so does printing it.",
     [INP, CONF, FAULT], "every prefix and extension text up to the length bound, with and without tag and base address, 0 to 2 entries; every pair of failures while storing it", "tests compare the template for a few literal settings",
     ["src/blogc-make/atom.c"], [("bm_atom_generate", "src/blogc-make/atom.c"), ("bm_atom_deploy", "src/blogc-make/atom.c")],
     H("matom", "matom", quick=[{0: 0, 1: 1}], thorough=[{0: 0, 1: 2}], reach=["entries", "no entries"], what="the template through blogc's own parser and renderer, against the expected feed", bounds="p1: bytes per setting", outside="longer texts; tags and slugs named index"),
     H("matom-deploy", "matom", quick=[{0: 1, 1: 2}], thorough=[{0: 1, 1: 3}], reach=["deployed", "failed", "fault"], what="the stored template under faults", bounds="p1: faults", stubs="file system: models/env.c"),
     H("matom-dump", "matom", quick=[{0: 2, 1: 1}], thorough=[{0: 2, 1: 2}], reach=["failed", "printed"], what="the printed template under faults", bounds="p1: bytes per setting, one fault", stubs="stdio: models/env.c"))

prop("M10", "A build makes every page, listing, feed and copy of the site, each once",
     "A build runs blogc exactly once for every index, listing page, tag page, feed, post and page the settings call for, with the documented variables, template and sources for each, and copies every listed file; it builds nothing else.",
     [INP, CONF], "every value of each setting that shapes the site (lists, page sizes, orders, extensions, prefixes, templates, environment) one or more at a time, slugs and tags with arbitrary characters, every page count", "one test runs builds of one site",
     ["src/blogc-make/rules.c", "src/blogc-make/ctx.c", "man/blogc-make.1.ronn"], [("all_exec", "src/blogc-make/rules.c"), ("bm_ctx_new", "src/blogc-make/ctx.c")],
     H("mbuild-fresh", "mbuild", quick=[{0: 0}], thorough=[{0: 0}], reach=["built"], what="commands and copies of a whole run against an independent list of outputs", bounds="2 posts, pages, tags, copied files, 2 pages of a listing, one site with up to 11 pages", outside="larger sites", stubs="blogc, processes, file system: models/env.c", max_steps=30000000))

prop("M11", "Output, messages and status of commands are passed on completely",
     "A command gets its whole input, all of its output and messages are received, its status is the one reported, and any failure to run it is an error; no descriptor stays open.",
     [INP, FAULT], "every input, output and message text up to the length bound, every status class, every single failed or short system call", "tests run a few commands that work",
     ["src/blogc-make/exec.c"], [("bm_exec_command", "src/blogc-make/exec.c"), ("bm_exec_blogc", "src/blogc-make/exec.c"), ("bm_exec_blogc_get_variable", "src/blogc-make/exec.c")],
     H("mexec", "mexec", quick=[{0: 0, 1: 2, 2: 1, 3: 0}, {0: 0, 1: 2, 2: 1, 4: 1023}], thorough=[{0: 0, 1: 4, 2: 2, 3: 0}, {0: 0, 1: 2, 2: 1, 4: 1023}, {0: 0, 1: 2, 2: 1, 4: 2047}], reach=["child", "command"], what="one command", bounds="p1, p2: bytes, after p4 fixed ones (across buffers)", outside="longer texts", stubs="pipes, processes: models/env.c"),
     H("mexec-faults", "mexec", quick=[{0: 0, 1: 2, 2: 1, 3: 1}], thorough=[{0: 0, 1: 3, 2: 2, 3: 2}], reach=["command", "error", "fault"], what="one command under faults", bounds="p3: faults", stubs="pipes, processes: models/env.c"),
     H("mexec-build", "mexec", quick=[{0: 1, 1: 1, 2: 1}, {0: 1, 1: 1, 3: 1}], thorough=[{0: 1, 1: 2, 2: 2}, {0: 1, 1: 1, 2: 1, 3: 1}], reach=["built", "failed"], what="build steps", bounds="p1, p2: bytes, p3: faults", stubs="pipes, processes: models/env.c"),
     H("mexec-query", "mexec", quick=[{0: 2, 1: 3, 2: 1}, {0: 2, 1: 1, 3: 1}], thorough=[{0: 2, 1: 4, 2: 2}, {0: 2, 1: 2, 2: 1, 3: 1}], reach=["no value", "value"], what="queries", bounds="p1, p2: bytes, p3: faults", stubs="pipes, processes: models/env.c"))

prop("M12", "A failed command stops the build and fails it",
     "When a command fails, by any status or signal, nothing more is built, the program ends with failure (never with the status of a missing program) and says so.",
     FAULT, "every position of the failing command, every class of status", "no test makes a command in the middle of a build fail",
     ["src/blogc-make/rules.c", "src/blogc-make/exec.c"], [("bm_rule_execute", "src/blogc-make/rules.c"), ("bm_exec_blogc", "src/blogc-make/exec.c")],
     H("mbuild-fail", "mbuild", quick=[{0: 3}], thorough=[{0: 3}], reach=["failed", "no failure", "query failed"], what="the n-th command of a run fails", bounds="the first 14 commands, every exit code and signal", outside="larger sites", stubs="blogc, processes, file system: models/env.c", max_steps=30000000))

prop("M13", "blogc-make does what its command line and blogcfile say, or refuses",
     "The blogcfile is the one of the last -f, else ./blogcfile, and everything is built beside it; without rules everything is built; -D sets the development variables for every command, -V shows the commands, -h and -v build nothing. An unknown option, a missing blogcfile, or run_from_make without make, is refused with a message and builds nothing.",
     INP, "every command line up to the number of words, every value of run_from_make", "tests give one option at a time, and never two, joined and separate, or run_from_make",
     ["src/blogc-make/main.c", "src/blogc/main.c", "man/blogc-make.1.ronn", "man/blogcfile.5.ronn"], [("main", "src/blogc-make/main.c"), ("bm_ctx_new", "src/blogc-make/ctx.c"), ("bc_str_to_bool", "src/common/utils.c")],
     H("mmain", "mmain", quick=[{0: 2}, {0: 0, 1: 4}], thorough=[{0: 3}, {0: 1, 1: 5}], reach=["bad option", "info", "no blogcfile", "nothing to do", "refused", "runs"], what="the whole program up to its first command", bounds="p0: options and rules; p1: characters of run_from_make", outside="words that follow a joined option letter (-Dx); -f as the last word", stubs="processes, file system: models/env.c", max_steps=30000000, ttime=2500),
     H("mmain-embedded", "mmain", quick=[{0: 1}], thorough=[{0: 2}], reach=["bad option", "info", "no blogcfile", "nothing to do", "refused", "runs"], what="the same through blogc -m of a build with blogc-make inside", bounds="p0: options and rules", outside="options before -m", stubs="processes, file system: models/env.c", cflags=["-DMAKE_EMBEDDED=1"], variant="embedded", max_steps=30000000, ttime=2500))


# ---------------------------------------------------------------- blogc-runserver
prop("M14", "A command can use its pipes in any order without hanging or killing the build",
     "Whatever a command does with its input, output and messages, in any order and with more data than the pipes hold, running it ends when the command ends: neither side waits for the other for ever, a command that ignores its input does not kill the build, and nothing it wrote or had to read is lost.",
     [INP, CONF], "every sequence of reads, writes to output and messages and exit of the command up to the bound, sizes below, at and above the capacity of the pipes, input or none, every moment at which the command may run ahead", "tests run commands that use one pipe and little data",
     ["src/blogc-make/exec.c"], [("bm_exec_command", "src/blogc-make/exec.c")],
     H("mhang", "mhang", quick=[{0: 2, 1: 0, 2: 2, 3: 1, 4: 1}, {0: 2, 1: 2, 2: 2, 3: 0, 4: 1}], thorough=[{0: 3, 1: 0, 2: 2, 3: 1, 4: 1}, {0: 3, 1: 2, 2: 1, 3: 0, 4: 1}, {0: 2, 1: 4, 2: 1, 3: 0, 4: 2}], reach=["done", "input left"], what="one command", bounds="p0: steps of the command, p1: moments at which it may run ahead, p2: sizes up to p2 times the capacity, p4: capacity in pages", outside="signals from elsewhere, commands that close or pass on single pipes, file descriptors inherited by background processes", stubs="pipes, the command as a process: models/env.c"))

prop("M15", "runserver serves the site, keeps it up to date, and ends with the server",
     "runserver runs one server, with the given options, on the output directory; while the server runs the site is kept up to date; when the server ends, at whatever point of its start or of a rebuild, blogc-make ends soon and with the status of the server; ^C ends both.",
     [SCHED, HIST, CONF], "every order in which the server thread and the rebuilding thread go on (up to the number of preemptions), every status of the server, settings edited before or while it runs, ^C", "no test runs the server or the watcher",
     ["src/blogc-make/httpd.c", "src/blogc-make/reloader.c", "src/blogc-make/exec.c"], [("bm_httpd_run", "src/blogc-make/httpd.c"), ("httpd_thread", "src/blogc-make/httpd.c"), ("bm_reloader_run", "src/blogc-make/reloader.c"), ("bm_reloader_stop", "src/blogc-make/reloader.c")],
     H("mbuild-serve", "mbuild", quick=[{0: 7, 1: 2}, {0: 7, 1: 1, 2: 1}, {0: 7, 1: 1, 3: 1}], thorough=[{0: 7, 1: 2, 2: 1}, {0: 7, 1: 3}, {0: 7, 1: 2, 2: 1, 3: 1}], reach=["again", "built", "ended", "failed", "interrupted", "killed"], what="the whole program with the server in a thread of its own", bounds="p1: switches at points where a thread could go on; p2: sleeps that end before the other thread went on; p3: two servers, one after the other", outside="switches between two points that are not a lock, a sleep, system() or a look-up of a file; more threads", stubs="blogc, blogc-runserver, threads, signals, file system: models/env.c", max_steps=60000000),
     H("mbuild-interrupt", "mbuild", quick=[{0: 8}], reach=["killed"], what="watching that is interrupted with ^C", bounds="at the first three sleeps, with a failing or a good build", outside="^C at other points", stubs="blogc, signals, file system: models/env.c", max_steps=60000000))


prop("R01", "The server never gives out anything outside of its document root",
     "Whatever a request asks for (dot segments, encoded characters, links, siblings that share the name of the root), no file outside of the document root is opened or sent.",
     [INP, CONF], "every request target up to the length bound behind each prefix, seven ways to write the document root, links to files and directories in and out of it", "tests check a path join, no test makes a request",
     ["src/blogc-runserver/httpd.c", "src/blogc-runserver/httpd-utils.c"], [("handle_request", "src/blogc-runserver/httpd.c"), ("is_inside", "src/blogc-runserver/httpd.c"), ("br_urldecode", "src/blogc-runserver/httpd-utils.c")],
     H("rserve-inside", "rserve", quick=[{0: 0, 1: 4, 2: 1}], thorough=[{0: 0, 1: 7, 2: 1}], reach=["200", "302", "400", "403", "404"], what="files opened and responses for targets made of dots, slashes, escapes and link names", bounds="p1: characters behind a prefix, out of 8", outside="links changed while a request is served", stubs="sockets, threads, file system: models/env.c", max_steps=20000000),
     assumptions=["the virtual file system of models/env.c resolves paths as POSIX does"])

prop("R02", "Each request gets the resource it names, or the right refusal",
     "A target names the file at its decoded path under the document root: existing files are sent whole with their type, directories give their index or a redirect to the address with a slash, everything else gets the documented status. "
     "A request that is not a well-formed GET gets a refusal, and none makes the server crash.",
     INP, "every target and every request line up to the length bound, over a tree with files, directories, indexes and links", "no test makes a request",
     ["src/blogc-runserver/httpd.c", "src/blogc-runserver/mime.c"], [("handle_request", "src/blogc-runserver/httpd.c"), ("br_urldecode", "src/blogc-runserver/httpd-utils.c"), ("br_mime_guess_index", "src/blogc-runserver/mime.c"), ("br_readline", "src/blogc-runserver/httpd-utils.c")],
     H("rserve-target", "rserve", quick=[{0: 0, 1: 3}], thorough=[{0: 0, 1: 5}], reach=["200", "302", "400", "403", "404"], what="response for a target", bounds="p1: characters behind a prefix, out of 25", outside="longer targets; directories named as an index file", stubs="sockets, threads, file system: models/env.c", max_steps=20000000),
     H("rserve-line", "rserve", quick=[{0: 1, 1: 4}], thorough=[{0: 1, 1: 6}], reach=["200", "302", "400", "403", "404", "405", "empty"], what="response for a request line with arbitrary bytes", bounds="p1: bytes behind a prefix", outside="longer lines", stubs="sockets, threads, file system: models/env.c", max_steps=20000000))

prop("R03", "Responses are complete and every connection ends",
     "Every request that was received gets one well-formed response whose body has the announced length, short writes included, whatever the size of the request; after any failure the client gets an error or a cut response, never wrong content. "
     "The connection is closed and nothing stays open; a client that goes away does not end the server or harm others.",
     [FAULT, INP], "every single (thorough: pair of) failed or short system calls while serving each kind of resource; every request size around multiples of the read buffer; every split of a request in two parts", "no test makes a request",
     ["src/blogc-runserver/httpd.c", "src/blogc-runserver/httpd-utils.c"], [("handle_request", "src/blogc-runserver/httpd.c"), ("write_all", "src/blogc-runserver/httpd.c"), ("error", "src/blogc-runserver/httpd.c"), ("br_readline", "src/blogc-runserver/httpd-utils.c")],
     H("rserve-faults", "rserve", quick=[{0: 2, 1: 1}, {0: 2, 1: 2}], thorough=[{0: 2, 1: 4}], reach=["200", "302", "403", "404", "cut", "fault", "no fault", "short", "unread"], what="responses under faults", bounds="p1: faults", stubs="sockets, threads, file system: models/env.c", max_steps=20000000),
     H("rserve-long", "rserve", quick=[{0: 3, 1: 3}], thorough=[{0: 3, 1: 20}], reach=["long header", "long line", "long path"], what="requests around the size of the read buffer", bounds="p1: distance from the buffer size", outside="longer requests", stubs="sockets, threads, file system: models/env.c", max_steps=200000000),
     H("rserve-gone", "rserve", quick=[{0: 8, 1: 3}], thorough=[{0: 8, 1: 5}], reach=["200", "302", "404", "gone", "stayed"], what="the program while a client goes away", bounds="p1: connections, one of them lost or cut", outside="more", stubs="sockets, threads, signals, file system: models/env.c"),
     H("rserve-split", "rserve", quick=[{0: 4}], reach=["split", "whole line first"], what="a request that arrives in two parts", bounds="one request, every split", outside="more parts", stubs="sockets, threads, file system: models/env.c"))

prop("R04", "Files are served with the type of their extension",
     "The content type of a file depends only on the text after the last dot of its name, is the registered one for the common types of files of a site, and is application/octet-stream for every other name.",
     INP, "every name up to the length bound in front of each of 34 extensions, and names without extension", "tests check a few file names",
     ["src/blogc-runserver/mime.c"], [("br_mime_guess_content_type", "src/blogc-runserver/mime.c"), ("br_get_extension", "src/blogc-runserver/httpd-utils.c")],
     H("rargs-types", "rargs", quick=[{0: 1, 1: 4}], thorough=[{0: 1, 1: 6}], reach=["known", "unknown"], what="types against a table", bounds="p1: bytes of the name", outside="names with a backslash; extensions outside of the table"))

prop("R05", "The server runs with exactly the options it was given",
     "Address, port, number of threads and document root are those of the command line, else of the environment, else the documented defaults; a bad command line is refused without serving anything, and options that only inform serve nothing.",
     [INP, CONF], "every sequence of options up to the bound, joined and separate values, every short value, every number of threads text up to the length bound", "no test runs the program",
     ["src/blogc-runserver/main.c", "man/blogc-runserver.1.ronn"], [("main", "src/blogc-runserver/main.c"), ("br_httpd_run", "src/blogc-runserver/httpd.c")],
     H("rargs", "rargs", quick=[{0: 0, 1: 1, 2: 3}], thorough=[{0: 0, 1: 2, 2: 4}], reach=["info", "out of range", "partial number", "refused", "runs"], what="what the server loop is given and serves", bounds="p1: bytes of a value, p2: options", outside="repeated options; an option without its value", stubs="sockets, threads: models/env.c", max_steps=20000000),
     H("rargs-threads", "rargs", quick=[{0: 2, 1: 3}], thorough=[{0: 2, 1: 5}], reach=["bad number", "out of range", "partial number", "runs"], what="the number of threads", bounds="p1: characters", outside="more than 6 connections", stubs="sockets, threads: models/env.c", max_steps=20000000, time=100))

prop("R06", "Concurrent requests do not affect each other",
     "Whatever the number of threads and the order in which they run, each connection gets the response to its own request, is answered by one thread and closed once, and no more than the allowed number of threads is alive.",
     [SCHED, HIST], "every sequence of requests up to the bound, every number of threads, every order: threads start at any later point, and run while another one is at a read, a write or a path lookup", "no test makes two requests",
     ["src/blogc-runserver/httpd.c"], [("br_httpd_run", "src/blogc-runserver/httpd.c"), ("handle_request", "src/blogc-runserver/httpd.c")],
     H("rserve-many", "rserve", quick=[{0: 5, 1: 2}, {0: 5, 1: 3}], thorough=[{0: 5, 1: 4}], reach=["200", "302", "404", "many"], what="responses of concurrent connections", bounds="p1: connections; a thread that runs inside another one runs to its end", outside="finer interleavings", stubs="sockets, threads, file system: models/env.c", max_steps=20000000, ttime=2500),
     H("rserve-threads", "rserve", quick=[{0: 7, 1: 2, 2: 1}, {0: 7, 1: 2, 2: 2}], thorough=[{0: 7, 1: 2, 2: 3}, {0: 7, 1: 3, 2: 2}], reach=["200", "302", "404", "threads"], what="the same with call stacks of their own: a thread is left and gone on with at any read, write, look-up or accept", bounds="p1: connections; p2: switches at points where a thread could go on", outside="switches at other points", stubs="sockets, threads, file system: models/env.c", max_steps=60000000, ttime=2500))

prop("R07", "The server listens on the first address that works, or says why not",
     "Of the addresses of the host the first one that can be opened, configured and bound is used; if there is none, or lookup or listening fails, the program fails with a message, serves nothing and leaves no socket open.",
     [FAULT, CONF], "every combination of failures for up to three addresses of both kinds", "no test runs the server",
     ["src/blogc-runserver/httpd.c"], [("br_httpd_run", "src/blogc-runserver/httpd.c")],
     H("rserve-listen", "rserve", quick=[{0: 6, 1: 3}], thorough=[{0: 6, 1: 4}], reach=["200", "address", "no address"], what="sockets opened and used", bounds="p1: addresses", stubs="sockets, threads: models/env.c", max_steps=20000000))

prop("R08", "The server logs each request it answers, once, as it was",
     "For each request that is answered, and for no other, the log has exactly one line: the address of the client, the first line of the request unchanged, and the status code that was sent; requests cannot add lines of their own.",
     [INP, HIST], "every request line and target of the bounds, every order of concurrent requests", "no test runs the server",
     ["src/blogc-runserver/httpd.c"], [("handle_request", "src/blogc-runserver/httpd.c"), ("br_httpd_run", "src/blogc-runserver/httpd.c")],
     H("rserve-log", "rserve", quick=[{0: 1, 1: 4, 3: 1}, {0: 0, 1: 2, 3: 1}, {0: 5, 1: 2, 3: 1}], thorough=[{0: 1, 1: 6, 3: 1}, {0: 0, 1: 3, 3: 1}, {0: 5, 1: 3, 3: 1}], reach=["logged", "nothing to log"], what="the log after arbitrary request lines, targets and concurrent requests", bounds="p1: bytes behind a prefix, characters of the target, connections", outside="longer requests, requests whose connection fails", stubs="sockets, threads, file system: models/env.c", max_steps=20000000))



# ---------------------------------------------------------------- blogc-git-receiver
prop("G01", "The login shell runs git-shell on repositories of the base directory only",
     "The only program the login shell starts for its user is git-shell, with one of the three git commands and the path, inside of the repositories directory, of the repository that was asked for, quoted so that git-shell reads exactly that path. "
     "Anything else is refused with a message, changes nothing and runs nothing; well-formed git commands are not refused.",
     INP, "every command text up to the length bound behind each of eight prefixes, names around the size of the command buffer, every way to start the program", "tests parse a few dozen literal commands",
     ["src/blogc-git-receiver/shell.c", "src/blogc-git-receiver/shell-command-parser.c", "src/blogc-git-receiver/main.c"],
     [("bgr_shell", "src/blogc-git-receiver/shell.c"), ("bgr_shell_command_parse", "src/blogc-git-receiver/shell-command-parser.c"), ("main", "src/blogc-git-receiver/main.c")],
     H("gshell-commands", "gshell", quick=[{0: 0, 1: 5}], thorough=[{0: 0, 1: 8}], reach=["created", "fetch", "push", "refused"], what="program, arguments and changes for a command", bounds="p1: characters behind a prefix (any bytes without prefix, else 11 characters)", outside="links inside of the repositories directory; the value of SHELL", stubs="processes, file system: models/env.c", max_steps=20000000),
     H("gshell-long", "gshell", quick=[{0: 3, 1: 3}], thorough=[{0: 3, 1: 20}], reach=["fetch", "refused"], what="names around the size of the command buffer", bounds="p1: distance from the buffer size", stubs="processes, file system: models/env.c", max_steps=200000000),
     H("gshell-start", "gshell", quick=[{0: 2}], reach=["fetch", "refused"], what="ways to start the program", bounds="6 command lines, with and without SSH_ORIGINAL_COMMAND", stubs="processes, file system: models/env.c"),
     assumptions=["git-shell reads its command as sq_dequote of git does (in harness/gshell.c)"])

prop("G02", "A push is only let through with a repository and its hooks in place",
     "Before a push reaches git the repository exists (created when missing, never over an existing one) and both hooks are links to the program, whatever was there before; if any step fails the push is refused with a message.",
     [FAULT, CONF], "new, empty and existing repositories with hooks that are missing, files, links, dangling links or directories, every single (thorough: triple of) failed system calls", "tests push to new repositories",
     ["src/blogc-git-receiver/shell.c"], [("bgr_shell", "src/blogc-git-receiver/shell.c"), ("lexists", "src/blogc-git-receiver/shell.c")],
     H("gshell-push", "gshell", quick=[{0: 1, 1: 0}, {0: 1, 1: 1}], thorough=[{0: 1, 1: 3}], reach=["created", "failed", "push"], what="state of the repository when git-shell starts", bounds="p1: faults", outside="two pushes at once", stubs="processes, file system: models/env.c", max_steps=20000000))

prop("G03", "The refs of a push are read as git writes them",
     "From any list of updates of a push, each branch is found with the commit it was last set to, and no other ref is taken as a branch; arbitrary input is read without going out of bounds.",
     INP, "every list of up to 3 updates with arbitrary names and commits up to the length bound; every short byte string", "tests parse a few literal lists",
     ["src/blogc-git-receiver/pre-receive-parser.c"], [("bgr_pre_receive_parse", "src/blogc-git-receiver/pre-receive-parser.c")],
     H("gdeploy-refs", "gdeploy", quick=[{0: 1, 1: 2}], thorough=[{0: 1, 1: 4}], reach=["branch", "no branch"], what="branches against the list", bounds="p1: bytes of a name", outside="longer names and lists"),
     H("gdeploy-raw", "gdeploy", quick=[{0: 3, 1: 9}], thorough=[{0: 3, 1: 14}], reach=["any branch", "nothing"], what="memory safety on arbitrary input", bounds="p1: bytes"))

prop("G04", "A push to the main branch publishes exactly the build of its commit",
     "A push of master (else main) builds that commit with the tool the repository calls for into a new directory and publishes it; the previous build is removed, and nothing else is. "
     "A failed build, or nothing to build, leaves what is published as it was and leaves nothing behind; a manual run rebuilds the last published commit.",
     [CONF, HIST], "every kind of repository and available tool, every outcome of extraction and build, every state of the published link and of earlier builds (same commit and second included), default and configured links and directories, branches of the push, commits with arbitrary ids", "tests deploy a few good and bad sites",
     ["src/blogc-git-receiver/pre-receive.c", "src/blogc-git-receiver/settings.c", "man/blogc-git-receiver.1.ronn"], [("bgr_pre_receive_hook", "src/blogc-git-receiver/pre-receive.c"), ("rmdir_recursive", "src/blogc-git-receiver/pre-receive.c"), ("bgr_settings_get_section", "src/blogc-git-receiver/settings.c")],
     H("gdeploy", "gdeploy", quick=[{0: 0, 1: 0}], thorough=[{0: 0, 1: 0, 2: 1}], reach=["deployed", "failed", "nothing", "rebuilt"], what="the whole hook: commands, file system before and after", bounds="one previous build; two bytes of commit id; thorough: every combination of settings", outside="relative builds directories; links that point out of the builds directory; deletion of the branch", stubs="git, tar, make, file system: models/env.c", max_steps=20000000))

prop("G05", "Whatever fails or whenever it stops, a complete build stays published",
     "At every moment of a deploy, with any system call failing, the published link leads to a complete build (the previous or the new one); nothing outside of the builds, the temporary directory and the link is ever changed, links in the content included.",
     [CRASH, FAULT], "every point between two changes of the file system, every single and pair of failed system calls, content with links to files and directories elsewhere and links to nothing", "no test stops or fails a deploy",
     ["src/blogc-git-receiver/pre-receive.c"], [("bgr_pre_receive_hook", "src/blogc-git-receiver/pre-receive.c"), ("rmdir_recursive", "src/blogc-git-receiver/pre-receive.c")],
     H("gdeploy-faults", "gdeploy", quick=[{0: 0, 1: 1}], thorough=[{0: 0, 1: 3}], reach=["deployed", "failed", "fault"], what="what is published before each change and in the end", bounds="p1: faults", outside="failures of access(2); durability of directory changes", stubs="git, tar, make, file system: models/env.c", max_steps=20000000))

prop("G06", "Mirroring pushes to the configured address and never fails a push",
     "After a push the repository is mirrored to the remote named mirror if there is one, else to exactly the address in its own section of the settings, else not at all; a failed or disabled mirror is a warning, never a failure.",
     [INP, CONF], "every address text up to the length bound, every way to name the section of the repository, remotes and failures", "tests mirror to one directory",
     ["src/blogc-git-receiver/post-receive.c", "src/blogc-git-receiver/settings.c"], [("bgr_post_receive_hook", "src/blogc-git-receiver/post-receive.c"), ("bgr_settings_get_section", "src/blogc-git-receiver/settings.c"), ("bgr_settings_parse", "src/blogc-git-receiver/settings.c")],
     H("gdeploy-mirror", "gdeploy", quick=[{0: 2, 1: 3}], thorough=[{0: 2, 1: 6}], reach=["disabled", "mirrored"], what="the whole hook: commands and status", bounds="p1: characters of the address", outside="addresses with quotes, backslashes, blanks or bytes over 127", stubs="git, file system: models/env.c"))

# ---------------------------------------------------------------- the whole of it
prop("E01", "The site that is built says what its sources and settings say",
     "After blogc-make has built a site, every post and page has its title and text, every listing and feed has exactly the posts it is for (with its tag, on its page) in the order the settings ask for with the right page numbers, copied files are complete, and there is no other file.",
     [INP, CONF], "every title, text and tag line up to the length bound, every number of posts per page up to 9, all orders of dates, sorting and ordering, extensions, prefixes and a listing entry", "no test builds a site; blogc-make is tested without blogc and blogc without blogc-make",
     ["src/blogc-make/rules.c", "src/blogc-make/exec.c", "src/blogc/main.c", "src/blogc/loader.c", "src/blogc/renderer.c", "man/blogcfile.5.ronn", "man/blogc-pagination.7.ronn"],
     [("bm_rule_execute", "src/blogc-make/rules.c"), ("bm_exec_command", "src/blogc-make/exec.c"), ("main", "src/blogc/main.c"), ("blogc_source_parse_from_files", "src/blogc/loader.c"), ("blogc_render", "src/blogc/renderer.c")],
     H("site-fresh", "site", quick=[{0: 0}], thorough=[{0: 0, 1: 1}], reach=["site"], what="both programs, from blogcfile and sources to the files", bounds="up to 3 posts, a page, 2 tags, titles of 3 characters, texts of 5, tags of 3 (one setting away from a full site; thorough: all combinations of the main settings)", outside="larger sites; other templates", stubs="the shell, processes, pipes, file system: models/env.c", max_steps=2000000000, ttime=1500))

prop("E02", "Building again after edits or a failure gives what a fresh build gives",
     "Whatever was edited since the last build, or went wrong during it, the next successful build leaves every file of the site as a fresh build would; a command that fails leaves no incomplete file that would be taken for an up to date one.",
     [HIST, FAULT, INP], "every sequence of edits (with or without a build between) up to the bound, every single failing or short system call of a build in either program", "no test builds twice",
     ["src/blogc-make/rules.c", "src/blogc-make/ctx.c", "src/blogc-make/exec-native.c", "src/blogc/main.c"],
     [("bm_rule_need_rebuild", "src/blogc-make/rules.c"), ("bm_rule_execute", "src/blogc-make/rules.c"), ("bm_exec_native_cp", "src/blogc-make/exec-native.c"), ("main", "src/blogc/main.c")],
     H("site-edits", "site", quick=[{0: 1, 1: 2}], thorough=[{0: 1, 1: 3}], reach=["edited", "repaired"], what="edits of posts, pages, tags, order, settings, template and copied files, broken sources", bounds="p1: edits; 2 to 4 posts", outside="edits within the resolution of the clock of the file system; removed template files", stubs="the shell, processes, pipes, file system: models/env.c", max_steps=2000000000, ttime=1500),
     H("site-faults", "site", quick=[{0: 2, 1: 1}], thorough=[{0: 2, 1: 2}], reach=["built in spite of it", "failed", "no fault"], what="a build with failures, and one after it", bounds="p1: faults; 2 posts, a page, a tag, a copied file", outside="programs that are killed while they write; a copied file that does not exist (it is left out without a message)", stubs="the shell, processes, pipes, file system: models/env.c", max_steps=2000000000, ttime=1500))

prop("E03", "While runserver runs, a browser gets the site its sources describe",
     "blogc-make runserver builds the site, serves it and keeps it up to date: every page, listing, feed and copied file that is asked for after an edit is given out with exactly the content the edited sources and settings describe, under the address it is built for.",
     [HIST, INP, CONF], "every sequence of edits and requests up to the bound, every file of the site, with and without its index name", "no test runs the three programs together",
     ["src/blogc-make/httpd.c", "src/blogc-make/reloader.c", "src/blogc-make/rules.c", "src/blogc/main.c", "src/blogc-runserver/main.c", "src/blogc-runserver/httpd.c"],
     [("bm_reloader_run", "src/blogc-make/reloader.c"), ("bm_httpd_run", "src/blogc-make/httpd.c"), ("bm_rule_need_rebuild", "src/blogc-make/rules.c"), ("br_httpd_run", "src/blogc-runserver/httpd.c"), ("handle_request", "src/blogc-runserver/httpd.c")],
     H("site-serve", "site", quick=[{0: 3, 1: 2}, {0: 3, 1: 3, 2: 1}], thorough=[{0: 3, 1: 2}, {0: 3, 1: 4, 2: 1}], reach=["served"], what="blogc-make, blogc and blogc-runserver, from an edit to the response", bounds="p1: requests, with an edit before each but the first (p2: only the last asks for any file); 2 to 4 posts, a page, a tag, a copied file", outside="requests while the site is being rebuilt; preemption inside of a build (M15); edits that break the build (M07, E02)", stubs="the shell, processes, pipes, threads, sockets, file system: models/env.c", max_steps=2000000000, ttime=1500))
