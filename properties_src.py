CLI = "the cdx binary: stdout, stderr and exit status"
NOTE = "Randomised search over generated inputs against an independent reference model; absence of a counterexample is evidence, not proof. Trusts the model in /verif/harness and the generator's reach."
prop("C01", "sort writes a stable, ordered permutation of its input lines",
     "For every set of input files and every list of keys (whole line, column by number, name or position from the end; plain, lower, length, float, numeric, ip, equal or expr order, each optionally reversed), sort writes the header of the first file followed by exactly the input lines in key order, lines with equal keys staying in input order. With --unique it writes exactly the first line of every class of equal keys. The random order differs from run to run, but is an order: equal keys stay together. Empty files, header-only files, short lines and a missing final newline change nothing else.",
     ["inputs", "configurations"], "all finite sets of text files times all key lists",
     "Tests sort a handful of short files; ties beyond the cached key prefix, reversed keys, NUL bytes, ragged lines and key combinations are never sampled.",
     ["src/sort.rs", "src/comp.rs", "src/bin/cdx/sort_main.rs"],
     [("Sorter", "src/sort.rs"), ("LineCompList, Item cache", "src/comp.rs")], [CLI],
     "property-based testing: generated tables and keys against a reference stable sort", NOTE)
prop("C02", "sorting through temporary files and merging equal an in-memory sort",
     "However small the memory limit, sorting through temporary files gives byte for byte the stable in-memory result, with and without unique. sort --merge of files that are each in order gives the stable sort of their concatenation, for both merge algorithms, any number of files and any keys, and fails on mismatched headers. No temporary file is left behind.",
     ["inputs", "configurations", "histories"], "all inputs times all buffer sizes times all splits into sorted files",
     "No test ever fills the sort buffer (500 MB), so spilling and the merge of runs are never executed by tests.",
     ["src/sort.rs"], [("Sorter::add/write_tmp/finalize", "src/sort.rs"), ("merge heap, merge tree", "src/sort.rs")],
     ["library: Sorter::new/add_file/finalize", CLI],
     "property-based testing: Sorter with generated buffer sizes, and the merge tool, against a reference stable sort", NOTE)
prop("C03", "comparators are total preorders and all comparison paths agree",
     "Every comparator, with or without rev, orders any byte strings in a total preorder with the documented meaning (bytes, ASCII lower case, length, floating point value, arbitrary length decimal value, dotted numbers). Comparing split lines, raw lines, cached sort keys and a search value against a line all give the same answer, and equality holds exactly when the order says equal.",
     ["inputs", "configurations"], "all comparators times all pairs and triples of lines",
     "Unit tests compare some fifty fixed pairs through one entry point each.",
     ["src/comp.rs", "src/num.rs", "src/text.rs"], [("Compare, LineCompare, Item", "src/comp.rs"), ("fcmp, ulp_to_ulong", "src/num.rs")],
     ["library: LineCompList"],
     "property-based testing: differential against reference comparators, algebraic laws on triples", NOTE)
prop("C04", "sort --check accepts exactly the files that are in order",
     "sort --check succeeds exactly if in every file each line is not greater than the next under the keys (strictly less with --unique), exits 1 otherwise, and writes nothing to stdout. It reports each offending adjacent pair, up to the requested number over all files.",
     ["inputs", "configurations"], "all files times all key lists times report limits",
     "Tests hold two or three sorted and unsorted files with one default key.",
     ["src/bin/cdx/sort_main.rs", "src/comp.rs"], [("comp_check", "src/comp.rs")], [CLI],
     "property-based testing: generated nearly sorted files against a reference order", NOTE)
prop("C21", "numbers in text are read and printed faithfully",
     "Reading a number yields the value of the longest numeric prefix (sign, digits, fraction, exponent, binary suffix K..E or decimal suffix k..e), rounded to the nearest floating point number, and the unread rest; integers out of range saturate and nothing panics. Printing a number in any number format and reading it back gives the same value within the precision of the format.",
     ["inputs"], "all texts and all finite numbers times all formats",
     "Three fixed strings are tested.",
     ["src/text.rs", "src/num.rs"], [("to_usize, to_isize, to_f64", "src/text.rs"), ("NumFormat", "src/num.rs")], ["library: Text, NumFormat"],
     "property-based testing: differential against exact arithmetic and std parsing, print/read round trip", NOTE)
prop("C05", "join outputs exactly the matching combinations of two sorted files",
     "For any two files sorted on their keys, the second without repeated keys, join writes one line for every line of the first file whose key occurs in the second, in file order; with --also it sends exactly the unmatched lines of either file to the named files, each with its own header. Output columns are those of the --output specification (with new names if given), or the columns of the first file followed by the non-key columns of the second. Output files are replaced, and join never invents a header.",
     ["inputs", "configurations"], "all pairs of sorted files times keys times output specifications",
     "Tests join a few tiny files; runs of equal keys, unmatched tails, ragged lines and column lists are not combined.",
     ["src/join.rs", "src/bin/cdx/join_main.rs"], [("Joiner", "src/join.rs"), ("OneOutCol", "src/join.rs")], [CLI],
     "property-based testing: generated sorted file pairs against a nested loop reference join", NOTE)
prop("C06", "uniq partitions lines into runs of equal keys",
     "For every input and key list, uniq writes one line for every maximal run of adjacent lines with equal keys: the first, last, or the line with the least or greatest value as asked by --which, with the count of the run as first or last column if asked; the counts add up to the number of input lines. Without a key whole lines are compared.",
     ["inputs", "configurations"], "all files times key lists times which and count options",
     "Tests run a few fixed small inputs.",
     ["src/bin/cdx/uniq_main.rs", "src/agg.rs", "src/comp.rs"], [("uniq main loop", "src/bin/cdx/uniq_main.rs")], [CLI],
     "property-based testing: generated runs against a reference grouping", NOTE)
prop("C07", "aggregators compute their documented statistic over exactly each group",
     "For every group of lines, each aggregator (asum, amin, amax, amean, count, sum, mean, min and max in any comparison or its reverse, prefix, suffix, expr, and merge with its options) in any combination, appended, prepended or replacing, gives the value of the documented statistic over exactly the lines of the group, independent of the other aggregators and of the groups before it.",
     ["inputs", "configurations", "histories"], "all groupings times all aggregator combinations",
     "Tests sample two or three groups with one or two aggregators; state carried between groups needs sequences of groups.",
     ["src/agg.rs", "src/bin/cdx/uniq_main.rs"], [("Agg impls", "src/agg.rs"), ("LineAggList", "src/agg.rs")], [CLI],
     "property-based testing: generated groups and aggregator lists against reference statistics", NOTE)
prop("C08", "binsearch finds exactly the matching lines of a sorted file",
     "For any file sorted by the given keys and any value, binsearch writes exactly the lines whose keys equal the value, in file order, plus the requested number of lines of context before and after, each context line once and never the header; with several files each is searched on its own, with the file name (or its last parts) as an extra column if asked. Empty files, empty lines, very long lines and a missing final newline are handled, and it always terminates.",
     ["inputs", "configurations"], "all sorted files times keys times values times context options",
     "Tests look up a few values in one small file; probes that land on line boundaries, the first or last line, or runs of equal keys depend on byte offsets.",
     ["src/binsearch.rs", "src/bin/cdx/binsearch_main.rs", "src/comp.rs"], [("equal_range_n, lower_bound_n, find_start", "src/binsearch.rs"), ("LineCompList::set, comp_self", "src/comp.rs")], [CLI, "cdx::binsearch in process"],
     "property-based testing: generated sorted files and values against a linear scan", NOTE)
prop("C09", "column lists select exactly the named columns, in order",
     "For every header and every column list (numbers, names, +N from the end, closed and open ranges, name ranges, matchers in parentheses, renames, exclusion with ~), cut writes exactly the stated columns in the stated order under the right header names, for every line; several parts (fields, delimited groups, composites, sums of columns) are written side by side in the order given. Missing columns of short lines are empty. A list that names a column that does not exist fails, and duplicate output names are rejected, allowed or numbered as --dups asks. A ColumnSet of the library selects the same columns after any history of additions, exclusions and lookups in different headers, through each of its ways to select from or write a line: a line that is too short is an error, or filled, as that way states, and use before any lookup is an error.",
     ["inputs", "configurations"], "all headers and tables times all column lists",
     "The column language is a small grammar with unbounded combinations; tests sample a few dozen strings.",
     ["src/column.rs", "src/bin/cdx/cut_main.rs", "src/util.rs"], [("ColumnSet::lookup", "src/column.rs"), ("Writer", "src/column.rs"), ("ColumnHeader", "src/column.rs")], [CLI, "cdx::column::ColumnSet and CompositeColumn in process"],
     "property-based testing: column lists generated together with their meaning, cut output against it; model-based histories of a ColumnSet", NOTE)
prop("C19", "transforms compute their documented function and compose in order",
     "Every chain of transforms (lower, upper, normspace, to_base64, from_base64, bytes ranges; in byte and UTF-8 variants, with their aliases) applied to any column gives the composition, left to right, of the documented functions; from_base64 inverts to_base64 for every byte string. A value a transform cannot process makes the tool fail with a message, never panic.",
     ["inputs", "configurations"], "all values times all transform chains",
     "Tests transform a few fixed words.",
     ["src/trans.rs", "src/column.rs"], [("Trans impls, TransList", "src/trans.rs")], [CLI, "cdx::trans::TransList in process"],
     "property-based testing: generated chains and values against reference functions, encode/decode round trip", NOTE)
prop("C10", "grep selects exactly the lines that satisfy its matchers",
     "cgrep writes the header and, in input order, exactly the lines for which all (with -o any) of the -p matchers hold; -v selects exactly the others, -l adds byte, line and file name location columns with the true location of each line. Every matcher (prefix, suffix, infix, exact, glob, regex, length, empty, blank, comment, hash, slash, yes, float, integer, number, ip, range, file-exact, multi and/or lists, count of columns, comp) has its documented meaning on any bytes, alone and with the modifiers utf8, case, not, trim and null, applied to the whole line, to a column, or to a group of columns with a determiner (all, some, none, notall, mixed, uniform, atmost, atleast, exactly).",
     ["inputs", "configurations"], "all files times all matcher expressions",
     "Each matcher is tested on a few fixed words; the combinations of matcher, modifier, column group and boolean composition are not.",
     ["src/matcher.rs", "src/bin/cdx/grep_main.rs", "src/column.rs"], [("Match impls, MatchMaker, LineMatch, MultiLineMatch", "src/matcher.rs")], [CLI, "cdx::matcher::MatchMaker in process"],
     "property-based testing: matcher expressions generated together with their meaning, selected lines against it", NOTE)
prop("C15", "cat writes exactly the lines of its input, padded and numbered as asked",
     "cat writes the header of the first file once, followed by the remaining bytes of every file in order, whatever the sizes of the files; a missing final newline is added after every file (default), only at the end of the output, or never, as --pad asks. --remove drops exactly the lines that match any of its matchers. --number, --begin and --end add the line number as first or last column, counting on over files; lines that match --skip are kept with an empty number and are not counted. Empty and header-only files contribute no lines and never end the output early.",
     ["inputs", "configurations"], "all sets of files times padding, numbering and matcher options",
     "Tests concatenate two or three small complete files; buffer boundaries, missing newlines, header-only files and removed or skipped lines in several files are not combined.",
     ["src/bin/cdx/cat_main.rs", "src/util.rs", "src/column.rs"], [("cat fast and slow path", "src/bin/cdx/cat_main.rs"), ("HeaderChecker", "src/util.rs")], [CLI],
     "property-based testing: generated sets of files against a byte-exact reference", NOTE)
prop("C14", "paste writes corresponding lines side by side, with the right fill",
     "Line n of the output of paste is line n of every file, side by side in order, under the joined header (written exactly if every file has one). With --end early it stops with the shortest file, with exact it fails if lengths differ, with late it goes on to the longest file and fills the columns of exhausted files with their default value (--default, per column range) or with their last line (--last). Duplicate column names fail, are kept, numbered or renamed as asked; unused renames fail unless --rename-sloppy.",
     ["inputs", "configurations"], "all sets of files times end modes, defaults and naming options",
     "Ten fixed tests with two files of two or three lines.",
     ["src/bin/cdx/paste_main.rs", "src/column.rs"], [("paste main loop", "src/bin/cdx/paste_main.rs"), ("ColumnHeader, ScopedValues", "src/column.rs")], [CLI],
     "property-based testing: generated files and options against a reference paste", NOTE)
prop("C20", "wc counts exactly the lines, bytes, characters and words of each file",
     "wc writes one row per file with data lines, in order, holding for every requested aggregator (lines, bytes, chars, words, or any counting aggregator) its value over exactly the lines of that file (each with its newline, without the header), and the totals row is the sum of the rows. With --columns it writes one row per column name over all files, also if files have different headers or lines have extra columns. File names, header and totals appear exactly as --file, --with-header and --total ask, or by default if there are several rows.",
     ["inputs", "configurations"], "all sets of files times aggregator lists times layout options",
     "One test counts five lines.",
     ["src/bin/cdx/wc_main.rs", "src/agg.rs"], [("wc main", "src/bin/cdx/wc_main.rs"), ("Agg::value/reset/deep_clone", "src/agg.rs")], [CLI],
     "property-based testing: generated files and options against reference counts", NOTE)
prop("C16", "transpose exchanges lines and columns",
     "Cell (i,j) of the output of transpose is cell (j,i) of the input, column names becoming the first column; short lines are filled with empty cells, at most --lines lines are used, and --head marks the first output line as header. Transposing a file without header twice gives the file back.",
     ["inputs", "configurations"], "all tables times options",
     "No test runs transpose.",
     ["src/transpose.rs", "src/bin/cdx/transpose_main.rs"], [("transpose", "src/transpose.rs")], [CLI],
     "property-based testing: generated tables against a reference transposition, and the involution law", NOTE)
prop("C17", "sample selects exactly the stated lines, or an even spread of them",
     "sample --for by,from,to and --range write exactly the lines with those 1-based numbers, of every file and in order. sample --sample N (N at least 2) writes all lines of a file of up to N lines, and otherwise exactly N of its lines in order, including the first and the last, with no gap larger than twice the average.",
     ["inputs", "configurations", "histories"], "all files times all selections; the stream sampler's state depends on the whole history",
     "A unit test feeds the sampler one sequence; the command has no tests.",
     ["src/sampler.rs", "src/bin/cdx/sample_main.rs"], [("Smooth::add/collapse", "src/sampler.rs")], [CLI],
     "property-based testing: exact reference for --for and --range, invariants (order, endpoints, count, gap) for --sample", NOTE)
prop("C18", "expressions evaluate with ordinary precedence over the right columns",
     "Every well-formed expression (numbers, constants, columns by name, number or range, unary signs, factorial, comparison, additive, multiplicative and power operators, parentheses, and the listed functions) evaluates to its value under the usual precedence and associativity, wherever expressions are accepted (calc, cut --expr, the expr matcher), for every line, and with the columns of each file's own header. Malformed expressions and unknown columns are reported as errors; no expression text panics.",
     ["inputs", "configurations"], "all expressions times all lines",
     "Unit tests evaluate a dozen constant expressions; columns are tested on one file.",
     ["src/expr.rs", "src/bin/cdx/calc_main.rs", "src/matcher.rs", "src/column.rs"], [("Expr::parse, Expr::eval", "src/expr.rs"), ("ColumnExpr", "src/column.rs")], [CLI, "cdx::expr::Expr in process"],
     "property-based testing: expressions generated as trees, printed with random redundant parentheses, against a reference evaluator; functions against the C library", NOTE)
prop("C13", "files with different headers are never silently mixed",
     "Tools that write the lines of several files under one header (cat, cgrep, cut, sort, sort --merge, sample) write that header once; if the headers of two non-empty files differ (for cut: the headers of the selected columns), if one has a header and another has none, or if a header has invalid names, they fail with a message and never write a second header. Files of zero bytes do not count. In the library, HeaderChecker accepts, drops or refuses each first line as its mode (match, require, strip, none, trust, ignore) states, for every sequence of files.",
     ["inputs", "configurations", "histories"], "all sequences of files with equal, different, missing or invalid headers times tools and modes",
     "Two tests combine two headers in one tool; sequences with empty and header-less files in every tool are not sampled.",
     ["src/util.rs", "src/sort.rs", "src/bin/cdx/cat_main.rs", "src/bin/cdx/cgrep_main.rs", "src/bin/cdx/cut_main.rs", "src/bin/cdx/sample_main.rs"], [("HeaderChecker::check, check_file", "src/util.rs"), ("Sorter::add_file, SortConfig::merge", "src/sort.rs")], [CLI, "library: HeaderChecker"],
     "property-based testing: generated sequences of files against a reference rule; model-based histories of HeaderChecker", NOTE)
prop("C24", "verify accepts a file exactly if every stated condition holds",
     "verify exits 0 and is silent exactly if in every file each line (also the last) has as many columns as the header (or the first line), every pattern matches every line, the lines are in order (--sort) or in strict order (--unique) by the keys, and the first and last line satisfy the --first and --last comparisons (one or both ends of a range); otherwise it exits 1 and reports the numbers of lines with a wrong number of columns or a failing pattern, up to --report failures.",
     ["inputs", "configurations"], "all files times keys, matchers and conditions",
     "Two tests check one pattern each.",
     ["src/bin/cdx/verify_main.rs", "src/util.rs", "src/comp.rs", "src/matcher.rs"], [("verify main loop", "src/bin/cdx/verify_main.rs"), ("CheckLine, CompareOp", "src/util.rs"), ("comp_check", "src/comp.rs")], [CLI],
     "property-based testing: generated files, mostly valid, against a reference predicate", NOTE)
prop("C12", "text formats: values survive quoting, and delimiters are only delimiters",
     "With --text-in and --text-out, cut and transpose read and write every value exactly: in quote mode delimiters and line breaks between double quotes belong to the value and \"\" is a quote, in backslash mode backslash sequences stand for delimiter, newline, tab, return and backslash, in plain mode an unwritable delimiter or newline becomes the replacement character; the line delimiter (fifth character) ends lines in place of newline, for input and output; reading back what was written gives the same columns, including empty first, last and only ones. cgrep, uniq, sample, cat, wc, verify look at the decoded values but write the selected lines byte for byte as they were. Any other delimiter gives the same result as tab, for cut, cgrep, uniq, paste, transpose, wc, cat, sample and verify.",
     ["inputs", "configurations"], "all values (any bytes) times input and output formats and commands",
     "Two tests convert six lines in one format each.",
     ["src/util.rs", "src/column.rs", "src/bin/cdx/globals.rs", "src/transpose.rs", "src/bin/cdx/paste_main.rs", "src/bin/cdx/wc_main.rs"], [("TextFileMode::write, split, read_line", "src/util.rs"), ("Settings::text_out", "src/bin/cdx/globals.rs"), ("Writer", "src/column.rs")], [CLI, "cdx::util::TextFileMode in process"],
     "property-based testing: generated values encoded by a reference encoder (several spellings), output read by a reference decoder; metamorphic change of the delimiter", NOTE)
prop("C11", "a file is the same however it is provided",
     "Every command gives the same output and exit code whether a file is named, read from standard input in pieces of any size, compressed by gzip (any level, several members, empty members), or given as a <<literal argument, and whether or not its last line ends with a newline, for lines and files of any length relative to internal buffers. Commands that select everything (cat, cut --fields 1-, cgrep, sample) write exactly the bytes of the input.",
     ["inputs", "schedules"], "all files times ways to provide them times chunk boundaries times commands",
     "Tests read small plain files; no test uses gzip, slow pipes or lines longer than a buffer.",
     ["src/util.rs", "src/bin/cdx/cat_main.rs", "src/sort.rs"], [("get_reader, Infile", "src/util.rs"), ("TextFileMode::read_line, ensure_eof", "src/util.rs"), ("Sorter::add", "src/sort.rs")], [CLI],
     "property-based testing: metamorphic relation between the plain file and other ways to provide it, with identity laws; chunked writes to standard input", NOTE)
prop("C22", "input that cannot be read and output that cannot be written are errors",
     "If an input file is missing, is a directory, or is a truncated or damaged gzip file, every command that reads all of it exits 1 with a message, instead of treating the readable part as the whole. If any part of the output (standard output, or the files join writes) cannot be written, the command exits 1 with a message, even if the failure only shows when the last buffer is written. If the reader of the output goes away, the command ends quietly as if it had been written. A command whose input fits in memory does the same with and without a usable directory for temporary files.",
     ["fault_sequences", "inputs"], "all truncation and damage points, and write failures, times commands",
     "No test uses damaged input or a failing output.",
     ["src/util.rs", "src/join.rs", "src/sort.rs", "src/bin/cdx/main.rs", "src/bin/cdx/cat_main.rs", "src/bin/cdx/cut_main.rs"], [("get_reader", "src/util.rs"), ("suppress, silent", "src/util.rs"), ("flush at the end of every command", "src/bin/cdx")], [CLI],
     "property-based testing with fault injection: generated truncations, bit flips, missing files, full device and closed pipes", NOTE)
prop("C23", "tooltest reports exactly the tests that fail",
     "For any list of test files, tooltest reports a test as failed exactly if the command cannot be run, is killed, exits with another status, writes other bytes to stdout or stderr than stated (or than the stated matcher accepts), leaves an expected file missing or different, or leaves an unexpected file or directory, or if the test file does not exist or has an unknown line. The command gets exactly the stated stdin and input files. The verdict of a test does not depend on the other tests in the list, the summary counts are right, the exit status is 0 exactly if all pass, and nothing is left behind except with --tmp, where stdin, stdout, stderr and the input files are kept.",
     ["inputs", "histories"], "all test files and lists of test files times all behaviours of the tested command",
     "The test files are run by tooltest itself, nearly always one at a time and passing; a wrong verdict hides every other failure.",
     ["src/tooltest.rs", "src/bin/cdx/tooltest_main.rs", "src/matcher.rs"], [("Test::open, run", "src/tooltest.rs"), ("Config", "src/tooltest.rs")], [CLI],
     "property-based testing: generated test files and commands (a generated shell script) with one deviation, against the verdict known by construction", NOTE)
prop("C25", "filegen writes the requested lines and columns",
     "filegen writes exactly the requested number of lines (10 by default), each with exactly one value per requested generator, in order, and with --with-header one CDX header with names c1, c2, ...; grid cells are line_column, count counts up from its start, null is empty, expr is the value of the expression of line and col in the requested number format, decimal values fit their pattern and spread over it, normal values follow the requested distribution. An unusable specification is refused with exit status 1 and a message, and never panics. Nothing is written to stderr on success.",
     ["inputs", "configurations"], "all lists of generators with all parameters times line counts",
     "One test writes the default grid.",
     ["src/textgen.rs", "src/bin/cdx/filegen_main.rs", "src/expr.rs"], [("GenList, GenMaker", "src/textgen.rs")], [CLI],
     "property-based testing: generated generator lists against a reference for deterministic cells, and format, range and wide distribution bounds for random cells", NOTE)
prop("C26", "tabs shows every file aligned and within the screen",
     "For any files and any screen size, tabs shows the first lines of each file (as many as fit, the header counting as a line), every column starting at the same position in all lines, header names centred and values left aligned, in display columns (wide characters count two, combining marks none). If the columns fit, every value is shown completely; otherwise values of the widest columns are cut until the lines fit the width. Lines with more or fewer columns, many columns, many files and tiny screens never panic.",
     ["inputs", "configurations"], "all files times all screen sizes",
     "No test runs tabs.",
     ["src/tabs.rs", "src/bin/cdx/tabs_main.rs"], [("show2, Rect", "src/tabs.rs")], [CLI, "library: tabs::show2"],
     "property-based testing: generated tables (ASCII, wide and combining characters) and screen sizes against a reference layout", NOTE)
prop("C27", "Bad data and bad arguments give a message, never a crash or a hang",
     "Whatever bytes the input files hold (NULs, invalid UTF-8, damaged headers, huge fields, ragged lines, empty files) and whatever text is given as an option value (keys, patterns, column lists, expressions, formats, text modes), each command ends: with status 0, with status 1 and an error message, or with a usage message (status 2). It never panics, is never killed by a signal, never hangs, and leaves no temporary file behind.",
     ["inputs", "configurations"], "all file contents times all option values of all commands",
     "The tests run commands on tidy input with valid options.",
     ["src", "src/bin/cdx"], [("every parser and main", "src/bin/cdx")], [CLI],
     "property-based testing: structure-aware fuzzing of command lines (mutations of valid option values) and file contents; oracle: exit status, message, time limit, left-over temporary files", NOTE)
prop("C28", "methods are found by name in any history of registrations, from any thread",
     "The library's registries of comparators, matchers, aggregators, counters, transforms and generators behave as one table each, for every history of lookups (make), registrations (push, push_counter) and aliases (add_alias), issued from any number of threads and starting with the first call of the process: every standard method is found under all its names and does what it always does; once a registration or alias has returned, every later lookup from any thread gives it, until another one replaces it, and nothing else changes; registering an existing name replaces it, so that the help lists every method once; names of modifiers are refused; no call hangs. The commands accept every standard name, any number of times in one command.",
     ["schedules", "histories"], "all interleavings of registrations and lookups over threads",
     "Unit tests look up standard names from one thread, after everything has been set up; none registers anything.",
     ["src/comp.rs", "src/matcher.rs", "src/agg.rs", "src/trans.rs", "src/textgen.rs"], [("CompMaker", "src/comp.rs"), ("MatchMaker", "src/matcher.rs"), ("AggMaker", "src/agg.rs"), ("TransMaker", "src/trans.rs"), ("GenMaker", "src/textgen.rs")], [CLI, "library: CompMaker, MatchMaker, AggMaker, TransMaker, GenMaker"],
     "property-based testing: generated multi-threaded programs run in a fresh process each, results checked against a set-of-possible-values model", NOTE)
prop("C29", "how a command line is spelled does not matter",
     "For every command, a command line gives the same output, exit status and files, however it is spelled: short or long options, values in a word of their own, attached, or after '=', several short options in one word, files before, between or after the options (before or after '--'), no file or '-' for standard input, words for choices in upper or lower case or as one of their synonyms, documented shortcuts or what they stand for (cat --begin, wc --lines ...), flags repeated, and options that do not concern the same thing in any order. A command line with an unknown option, a missing value, or a value that is none of the choices or no number where one is needed is refused with a message and an exit status other than 0, before anything is written.",
     ["inputs", "configurations"], "all command lines of all commands and all their spellings",
     "Each test spells one command line in one way.",
     ["src/bin/cdx"], [("parse, add_arg, get_arg", "src/bin/cdx/args.rs"), ("Settings::consume", "src/bin/cdx/globals.rs"), ("Tri", "src/util.rs")], [CLI],
     "property-based testing: generated command lines, each run in a plain and in another spelling (metamorphic relation), and lines with one thing to refuse", NOTE)
prop("C30", "the commands agree with one another",
     "Commands that share a notion give consistent answers on every file. What sort writes, sort --check and verify --sort accept and sorting again leaves alone, and a file that sorting changes they refuse; uniq of the sorted file is sort --unique, which verify --unique accepts, and the counts of uniq add up to the number of lines; merging sorted parts is sorting the whole. cgrep and cgrep --invert divide the lines, verify --pattern accepts exactly the files in which cgrep --invert finds nothing, and several patterns act as cgrep applied several times. Cutting complementary columns and pasting them gives the columns back; transposing twice gives the file back, and transposing parts and pasting them transposes the whole. binsearch finds what cgrep finds; join with a list of keys divides the file into matching lines and --also lines. Aggregators give the same in uniq and per column in wc; the total of wc over parts is the count of the whole. An expression as a new column, as a pattern and as a sort key has the same values.",
     ["inputs", "histories"], "all files times keys, patterns, column lists, aggregators and expressions",
     "Tests look at one command at a time, on one file.",
     ["src", "src/bin/cdx"], [("CompMaker, LineCompList", "src/comp.rs"), ("MatchMaker, LineMatcherList", "src/matcher.rs"), ("ColumnSet, Writer", "src/column.rs"), ("AggList", "src/agg.rs"), ("Expr", "src/expr.rs")], [CLI],
     "property-based testing: generated files and specifications; algebraic laws between the outputs of different commands (metamorphic relations)", NOTE)
