"""Per property: the oracle the solver compares the code with, and why this reaches what tests cannot.  Used by tools/gen.py to write DESIGN.md."""
NOTES = {
"C01": "The table of well-formed sequences of the standard (RFC 3629, section 4) written as a matcher over the symbolic bytes; the code's verdict must equal it in both directions, for the pointer+length and for the string-builder entry point.",
"C02": "An association list kept by the harness; after every insertion each of the keys (symbolic bytes, so prefixes, equal keys and siblings arise as solver cases) is looked up, the walk is compared with the list as a set, and a counting release function must be called once per replaced or remaining value.",
"C03": "Each helper has a direct definition in the harness (index arithmetic over the symbolic text). Memory safety comes with the engine: every load and store is checked against the bounds and lifetime of its object.",
"C04": "`harness/shellwords.h`: POSIX word splitting, quoting and expansion triggers as a reader of the quoted text; result must be one word, inactive, equal to the input bytes.",
"C05": "A grammar-directed writer: the harness composes files out of sections, keys, quoted and unquoted values, list sections, comments, blanks and the three line endings with symbolic bytes, and knows what each must give back. Arbitrary byte files for safety and for 'refused or consistent'.",
"C06": "The content of the virtual file (after an optional byte order mark), with symbolic bytes placed at the chunk boundary; injected open/read faults and short reads are symbolic choices; open streams are counted at the end.",
"C07": "Independent counting of line and column over the symbolic text; the quoted line is compared byte by byte.",
"C08": "Order, permutation (by identity) and stability over symbolic keys; every comparison outcome is a solver decision, so all orderings and ties are covered.",
"B01": "Writer of source files with symbolic keys and values in each position; arbitrary short byte strings for refusal and safety; DESCRIPTION/FIRST_HEADER/CONTENT/EXCERPT presence rules from blogc-source(7).",
"B02": "Line reader of the harness: strip, skip blanks and comments; symbolic bytes.",
"B03": "A calendar written in the harness (month lengths, leap years, carry of days/hours) and the list of documented input formats; symbolic digits, so the solver quantifies over all dates of a format at once; output through strftime's model for the documented conversions.",
"B05": "`harness/tmplref.h`: a reference recogniser of the template grammar of blogc-template(7) run on the same symbolic text; acceptance must agree. Modes: arbitrary short text, text after fixed beginnings, sequences of statements (well and badly nested), each statement with symbolic blanks and names.",
"B06": "Template = symbolic literal text mixed with statements; the rendered output must contain the literal text unchanged, apart from the whitespace control of `{%-`/`-%}` and lines, at the documented places.",
"B07": "Reference evaluator of the nesting (blocks × conditions × iterators) over an abstract template tree, with symbolic variable values in the operands; `<`, `<=`, … on strings are compared byte-wise with the reference.",
"B08": "Lookup order local → global/listing, `_FORMATTED`, `_TRUNCATE`-style `_n` suffixes, date formatting with DATE_FORMAT, FOREACH items; reference resolver in the harness with symbolic names and values.",
"B09": "No functional oracle is needed: arbitrary content (all bytes symbolic; and sequences of 28 kinds of lines with symbolic pieces); the engine's memory, overflow and step-limit checks are the property.",
"B10": "Letters of the document are marked: a reader of the HTML removes markup produced by documented syntax; every text character of the document must appear once and in order.",
"B11": "A reader of the output tracks HTML state; characters `<`, `>`, `&`, quotes of the document outside HTML blocks have to be escaped or be part of documented markup.",
"B12": "`harness/cref.h`: an independent implementation of the documented markup grammar (blocks, lists, inline markup, links, images, typography). The document text is symbolic over the characters that matter; output strings must be equal. Older per-construct harnesses (cblocks, cinline) compare with directly composed HTML.",
"B13": "The same document is converted with LF, CRLF and CR line ends; the HTML (modulo the end of line chosen) must be equal.",
"B14": "Direct definitions of slugify, entity escaping, description and first-header extraction; cref for the derived variables.",
"B15": "Levels of headers are symbolic; a stack reader of the rendered list checks that nesting equals the documented one (relative to the first header, maximal depth), with entries in order.",
"B16": "Reference filter/pagination arithmetic (tag in word list, page n of m, ceil division) over symbolic tags, page numbers and per-page sizes; order and reverse.",
"B17": "Order by DATE (symbolic dates), stability, reverse, and which entry FIRST_/LAST_ variables come from.",
"B18": "The real `main` under the modelled environment: options are symbolic choices, the output file/stdout is compared with the expected rendering; faults of open/read/write/close/mkdir/flush/stdin are injected, and success has to mean complete output.",
"B19": "Reference reader of `-D name=value`: the name pattern (upper case, digits, underscore, not starting with a digit), the value taken exactly; symbolic bytes of the whole argument; the value seen through `{{ NAME }}`.",
"B20": "`tsys.c` renders `{{ NAME }}` (plain, with a size, under `ifdef`) for every supplied variable through the real parser and renderer and compares with values the harness gave to the stubs for gethostname, gethostbyname, gmtime, getrusage, LOGNAME and /proc/1/cgroup; rendered again after the world changed, and in a second scope. Amounts that need floating point are left out: the engine has no symbolic floating point.",
"M01": "Writer of blogcfiles with presence of each documented key as a symbolic choice and symbolic values; parsed settings against documented names, defaults and requirements.",
"M02": "`harness/mname.h`: documented path rules for posts, pages, listings (with/without tags, pages), feeds; symbolic prefixes, slugs and tags.",
"M03": "Model file system with symbolic modification times (seconds and nanoseconds) of outputs and inputs; a rule must run exactly if some input it is made from is newer or the output is missing.",
"M04": "The command text handed to `sh -c` is read by the shell reader of C04; program, options, definitions (-D), file and order are compared with what blogc(1) needs; symbolic values of settings.",
"M05": "Content of copies (symbolic sizes around the buffer, faults, short writes), sources unchanged, modes of failure reported; directories recursively.",
"M06": "Model file system: set difference before/after `clean`; files not built by the project survive; output directory removed only if empty.",
"M07": "The reloader's loop is run over symbolic histories of edits (settings, sources, templates, listing entries, copy) between its rounds; after each, outputs have to be as a fresh build makes them. Threads are replaced by an explicit schedule hook.",
"M08": "Argument lists made of symbolic rule names, rule arguments (`:k=v`), options; reference selects the rules.",
"M09": "The feed template is rendered by the real renderer; an XML reader checks well-formedness and compares ids/links with M02's names.",
"M10": "A whole build with configuration features as choices (posts, tags, pages, copy, listing, atom); the set of (output, inputs) commands has to equal the documented one.",
"M11": "Model of pipe/fork/exec/waitpid: symbolic chunking of stdout/stderr; captured text and exit status must be the child's.",
"M12": "Exit status of each command is a symbolic choice; the first failure ends the build and its status is the result; parallel and sequential rules.",
"M14": "The command is a second process in the model: a symbolic list of reads and writes over pipes of the real capacity, which runs at any of the moments the caller touches a pipe, and else only when it is waited for. Waiting for it while it can not go on is the violation; so is writing to a command that has ended unless SIGPIPE is ignored. The texts received on both sides are compared in full.",
"M15": "The real program runs on two call stacks inside the executor; where a thread takes or gives back a lock, sleeps, waits in system() or looks up a file, the choice of who goes on is symbolic; the server ends at a chosen point with a chosen status; asserted: one server with the expected command, the status, no more than two sleeps afterwards, everything built and newer than the settings.",
"M13": "The whole program runs on a symbolic command line; at the first fork the harness takes the side of the child and judges the command that is executed, or in the end that none was.",
"R01": "Model file system with symbolic links, `..`, percent escapes in a symbolic request target; every file opened has to lie in the canonical document root.",
"R02": "Reference reader of the request line and of percent-encoding; resource lookup incl. index files and redirects of directories.",
"R03": "Status line, Content-Length and body of every response compared; connection closed exactly once, whatever faults of read/write/open happen.",
"R04": "Reference table from the documentation/mime registry in the code's own list by suffix, case rules as documented, symbolic extension.",
"R05": "Options as symbolic choices and values; what reaches getaddrinfo, the document root, the number of threads.",
"R06": "Two or more requests interleaved at every yield point (before read/write/open/stat/realpath) chosen symbolically; each response equals the response of the request alone.",
"R07": "Each of the addresses fails in socket/setsockopt/bind/listen by symbolic choice; the first that works is used, otherwise an error.",
"R08": "Request lines with arbitrary bytes, arbitrary targets and concurrent requests; standard error is split into lines and each access line is compared with the one composed from the client's address, the bytes that were sent and the status of the response that was received.",
"G01": "The command string of the login shell is symbolic; reference splits it; only git-upload-pack/receive-pack/upload-archive with a path under repos may be executed, with exactly that path as one argument.",
"G02": "Creation of a repository and its hook links: faults at each step; git-receive-pack is only run once both hooks are in place.",
"G03": "Lines of (old, new, ref) with symbolic names; reference list; arbitrary bytes for safety.",
"G04": "Whole hook on the model file system, `git archive`, `tar`, `make` replaced by stand-ins that read their command line with the shell reader; final state of builds and link compared.",
"G05": "As G04; the invariant 'a complete build is published' is asserted before every change of the file system (so at each crash point) and with faults at each call.",
"G06": "Symbolic address in the settings; the executed command read by the shell reader; status always success.",
"E01": "The real blogc-make runs in the executor and every command it gives to the shell is run by the real blogc in the same executor and file system (a small oracle of the shell splits the announced command line). Titles, texts, tag lines and page sizes are symbolic. The oracle computes each file from the settings by direct counting: order of the posts section or of the dates, filtering by tag word, chunks of posts_per_page; compared byte for byte, and no other file may exist.",
"E02": "The same two programs over histories: edits chosen symbolically (12 kinds, new titles and texts symbolic), builds between them optional, then one build and the comparison of E01 for the final state; and a build with symbolic failures of any call of either program followed by one without. Found the two defects of incomplete outputs (a full disk left a truncated page or copy that the next build took for current).",
"E03": "The real blogc-make runserver: its server command is run in the thread it starts by the real blogc-runserver, whose accept() is a client that edits the site, lets the watching thread go on (another call stack of the executor), and asks for a file; rebuilding runs the real blogc. The response is compared byte for byte with what the oracle of E01 computes for the state after the edit.",
}
