prop('P10','UTF-8 is encoded and decoded exactly for every code point',
 'Writing a code point as UTF-8 produces exactly the bytes the Unicode standard prescribes, and reading those bytes gives back the code point and its length, for every code point U+0000..U+10FFFF. Malformed or truncated sequences are refused, and no routine reads behind the end of the text it was given.',
 ['inputs'],'all 1,114,112 code points; all lead bytes combined with valid/invalid continuation bytes and truncation','The tests decode a handful of characters; boundary code points, truncated tails and malformed sequences are not sampled.',
 [P+'text.c',P+'xmq_internals.c'],'set-valued dataflow over the code point domain (LLVM IR)','other','Exact for the listed routines over the whole code point domain; trusts clang\'s IR and lib/charset.py.')
prop('P11','Unicode classes in ixml grammars contain exactly their characters',
 'A Unicode character class in an ixml grammar matches exactly the characters that the Unicode database assigns to that category, and a composite class matches exactly the union of its member categories. Looking up a category by name always selects the data of that category.',
 ['inputs'],'all code points x all general categories','Tests match a few ASCII letters and digits; a wrong, missing or unsorted entry among 40,000 only shows for that character.',
 [P+'text.c',P+'ixml.c'],'constant-table extraction from IR against the Unicode database + set-valued dataflow of the lookup','other','Python\'s Unicode 15.0 database is the reference; characters unassigned there are not judged. Code points above U+FFFF are a recorded known finding.')
prop('P12','Named HTML entities denote the character they replace',
 'When output is escaped to 7-bit HTML, every character written as a named entity is written with the entity that HTML defines for exactly that character, and no entity name is used for two characters.',
 ['inputs'],'all code points','Tests print two or three entities; a wrong name only shows for its own character.',
 [P+'entities.c',P+'xmq_printer.c'],'set-valued dataflow over the code point domain against the HTML entity registry','other','Exact over all code points; reference is Python\'s html.entities.')
prop('P14','Untrusted XML/HTML cannot pull in external resources',
 'Reading XML or HTML input never accesses the network, never loads external DTDs or entities, never substitutes entities from external sources, and never lifts the built-in limits against entity expansion. Applying a stylesheet only loads documents through the program\'s own local loader.',
 ['inputs','configurations'],'all documents and all combinations of load flags','No test feeds hostile DTDs; the guarantee depends on option bits on every load path.',
 [LIB,CLI],'constant propagation of libxml2 option bits + call-graph effect lint','other','All parse entry points in the code; trusts libxml2 to honour its options.')
prop('P18','Text from documents is never interpreted as a format string',
 'No text that comes from a document, file name, command line or error description is ever interpreted as a formatting template, and every template is given exactly the arguments it asks for, in number and type. This holds for all diagnostics, log lines and error messages of the library and the command line tool.',
 ['inputs'],'all texts in all messages','Tests do not put percent signs into file names or broken documents; most diagnostics are never printed by a test.',
 [LIB,CLI,P+'always.c'],'interprocedural constant-string provenance of format operands (LLVM IR)','other','Every printf-family call and every structured log call in the code base.')
prop('P23','Documents do not influence each other through hidden state',
 'Parsing, printing or querying one document never changes the behaviour of an operation on another one, also when they run interleaved or in different threads. Apart from the log switches, the library keeps no process-wide mutable state.',
 ['schedules','histories'],'all interleavings and histories of API calls on different documents','The tests run one document per process, single threaded.',
 [LIB,P+'yaep.c'],'effect analysis of writes to globals/statics (LLVM IR)','other','All stores reachable through address flow of each global; heap objects shared by the caller are out of scope. Known: the Earley parser\'s static error state.')
prop('P24','Messages of any length are formatted from their own arguments',
 'A log line or error message is formatted from exactly the arguments it was given, however long the result is; growing the output buffer never makes the formatter read spent or foreign arguments.',
 ['inputs'],'all message lengths','Tests only print short log lines; only results longer than the initial buffer take the second path.',
 [LIB,P+'always.c'],'typestate analysis of argument lists over CFG paths (LLVM IR)','other','All functions using variadic argument lists.')
prop('P26','Text handed to the library is never modified or freed',
 'The library treats every text it receives through its API as read-only: it never writes to it and never frees it, on any input and any option.',
 ['inputs','configurations'],'all API entry points taking text, all inputs','Tests pass private, writable buffers and do not compare them afterwards.',
 [LIB,'src/main/c/xmq.h',P+'xmq_parser.c',P+'json.c',P+'ixml.c'],'interprocedural pointer value flow / effect analysis (LLVM IR)','other','Field-based, flow-insensitive: an over-approximation of where a caller\'s text pointer can go; yaep internals receive no text pointers.')
prop('P13','Everything acquired is released',
 'Every object a function of the library or the command line tool acquires (memory, open file, document, tree node, parser, schema or XPath context) is released, returned to the caller, or kept in another object or tree on every way out of that function: normal returns, early error returns and raised parse errors. Destroying a library object releases everything the object owns, including what an aborted parse left in it.',
 ['inputs','histories'],'all control-flow paths of all functions from every acquisition','Tests do not measure leaks; error exits and unusual branches are hardly ever taken by them.',
 [LIB,CLI,P+'xmq_internals.c',P+'json.c',P+'ixml.c',P+'text.c',P+'membuffer.c'],'ownership typestate analysis over CFG paths with interprocedural summaries (LLVM IR)','other','Local owners and owning fields; an error raised by a callee while the caller still owns something is not covered, nor is the yaep engine. main and the command objects live until the process ends.')
prop('P21','Nothing is used after it was released',
 'After an object has been released it is never read, written, passed on or released again, neither through the variable nor through a struct field that still points to it, and no API call leaves such a pointer behind for the next call: every object can be reused or destroyed at any time after any call.',
 ['inputs','histories'],'all control-flow paths after every release, across calls','Reading freed memory usually goes unnoticed in a test; repeated use of one settings or state object is not tested.',
 [LIB,CLI,P+'stack.c',P+'hashmap.c',P+'json.c',P+'ixml.c'],'ownership typestate analysis over CFG paths with interprocedural release summaries (LLVM IR)','other','Local variables and fields addressed through the same base; heap aliasing between different objects is not modelled.')
prop('P08','JSON output is well formed whatever the document contains',
 'Whatever names, texts, attributes, comments and structure a document has, its JSON rendering is syntactically valid JSON: every text is escaped with escapes JSON knows and decodes to the original characters, only texts that are exactly a JSON number, true, false or null are written without quotes, and brackets, keys, colons and commas are always placed correctly. Conversely, exactly the JSON numbers are read as numbers.',
 ['inputs'],'all documents; all characters and all number spellings','Tests convert a few documents without control characters, odd numbers or keyless elements.',
 [P+'json.c'],'typestate analysis of the JSON writer over CFG paths + set-valued dataflow of escaping and number recognition (LLVM IR)','other','All functions reachable from the JSON print entry; XML names are assumed to contain no quotes or backslashes; tree recursion is covered by per-function contracts.')
prop('P07','Rendered HTML and TeX never interprets document text as markup',
 'When a document or its tokens are rendered as HTML or as TeX, every character of the document text appears in the output as itself or as an escape that denotes exactly that character: < > & never reach HTML raw, and the characters special in TeX (backslash & # { } _ $ % ^ ~) never reach TeX raw or as a command that prints something else.',
 ['inputs'],'every document text, every token kind, both render targets','Tests render a few documents that hardly contain special characters; every special must be escaped in every position of every printed construct.',
 [P+'utf8.c',P+'xmq_internals.c',LIB,P+'xmq_printer.c'],'provenance of every write on the render paths + set-valued dataflow of the text writers over all characters and character pairs (LLVM IR)','other','Text writers for all ASCII characters and pairs of them; theme strings are taken as given.')
prop('P09','A value written bare or quoted is read back as exactly that value',
 'A value the printer writes without quotes is always read back by the parser as one text token covering exactly the same characters, whatever separator follows it; a value written with quotes gets more quotes than any run of quotes in it and never two; a comment gets more slashes than follow any asterisk in it. In compact output a value, name, quote or comment never merges with the token printed after it.',
 ['inputs'],'all values; every character in every position','Tests convert a few values; whether printer and parser agree on the special characters is a fact about all characters.',
 [P+'xmq_parser.c',P+'xmq_printer.c',P+'xmq_internals.c'],'set-valued dataflow of the printer decision against the reader, over character sets (LLVM IR)','other','All ASCII characters and pairs, triples of specials, unicode whitespace; quote runs up to 11.')
prop('P04','A failed parse is always reported, with its own message and the right place',
 'Whenever parsing or tokenizing does not accept the whole input (bad syntax, wrong format, unreadable file, input not matching an ixml grammar), the call returns false and the error code of the document or parse state is set; it never returns true after an error, never ignores the failure of a step, never reports a closing bracket that was not read, and never succeeds before the end of the input. Every error code has its own message, and the line and column in a message belong to the place the error is about and are always valid.',
 ['inputs'],'all inputs and all error paths of every parse entry point','Tests contain a few of the 33 error kinds; most error exits are never taken, and a swallowed error looks like a success.',
 [LIB,P+'xmq_parser.c',P+'json.c',P+'ixml.c',P+'xmq_internals.c'],'path-sensitive typestate analysis of error recording over CFG paths with interprocedural obligations (LLVM IR)','other','All public xmqParse*/xmqTokenize* functions and the functions they delegate failure to; objects of the same kind are not told apart.')
prop('P22','A link, string or result that can be absent is never dereferenced',
 'For every document and every way to call the library and the command line program, a pointer that can be null (a missing child, sibling, attribute value, namespace or text; the result of a library call that reports failure or absence with null; an option, setting or callback that was not given) is tested before it is dereferenced, called or handed to code that dereferences it; the children of a key-value node are only text and entities; a document always has a tree.',
 ['inputs'],'all documents, options and failures of library calls','Null shows up only for documents with an odd shape or for failing calls; tests run the usual shapes.',
 [LIB,P+'xmq_printer.c',P+'json.c',P+'xml.c',CLI],'flow-sensitive nullness dataflow over access paths with interprocedural summaries (LLVM IR)','other','All functions of the library and the command line program; stack tops, array elements and memory allocation results are taken as present.')
prop('P30','Every tree node is treated as the kind of node it is',
 'Namespaces, documents, attributes, doctypes and declarations share only the first fields with elements. For every document and every XPath query, printing (xmq, json, clines), editing and querying through the API and the command line never reads or changes the namespace, text, attributes or links of a node that is of a kind without them: every place where a doctype, a declaration, an entity reference, a namespace or a document can turn up handles it as such.',
 ['inputs'],'all documents (with doctypes, entities, declarations, comments and processing instructions anywhere) and all query results','A wrong kind shows up only for documents with an unusual construct in an unusual place, such as a doctype with attribute declarations after a processing instruction.',
 [LIB,P+'xmq_printer.c',P+'json.c',P+'xml.c',P+'xmq_internals.c',CLI],'interprocedural dataflow of node kinds with refinement by tests (LLVM IR)','other','All functions reached from the API and the command line program; text at the top level is taken to stand alone; pointers of unknown origin are counted as undecided.')
prop('P16','A failed command gives a failing exit status',
 'For every command line: when an input cannot be opened or parsed, a stylesheet or schema cannot be loaded, a document does not validate, an XPath cannot be evaluated, the output cannot be written completely, a shell cannot be started for for-each, or a command or option is wrong or incomplete (whenever the program prints such an error or a step it depends on reports failure), the failure is passed on, the following commands do not turn it into success and the program exits with a non-zero status. (The status of shell commands run by for-each and the interactive pager are not covered.)',
 ['inputs','histories'],'all command lines, inputs and failures of library calls','Scripts and make files rely on the status; tests only run a few failing commands and never fail writing, closing or starting processes.',
 [CLI],'path-sensitive typestate analysis of failure propagation (LLVM IR)','other','All functions of the command line program, every path (values of conditions remembered, loops to a fixpoint). Which library calls can fail is listed in the check; functions of the program that report failure are derived.')
prop('P17','Document text is never executed and never chooses a file',
 'For every document: no text of it (names, content, attributes, entities) becomes a program, an argument or part of a command interpreted by a shell; for-each hands text to the shell only in environment variables. Commands interpreted by system or popen are fixed texts. The command line program never opens, creates or removes a file whose name comes from the document.',
 ['inputs'],'all documents and command lines','Only a hostile document shows the difference between passing text and pasting it into a command.',
 [CLI],'backward provenance of string bytes through pointers, fields, buffers and calls (LLVM IR)','other','All calls that start processes, load code or name files. Files a stylesheet includes are opened by design.')
prop('P19','Fixed size buffers and tables are never accessed outside their bounds',
 'For every input, option and length: no access to a buffer or table whose size is fixed when the program is built (local buffers, arrays inside structures, constant tables) ever lies outside of it, neither directly nor in a function it is handed to, and no formatted or copied text is longer than the buffer it is put into. Overlong lines, names, numbers, colors, code points and terminal answers are cut or refused.',
 ['inputs'],'all accesses to all arrays of fixed size','Tests use short lines, names and codes; the overrun needs the longest possible value and then goes unnoticed without a sanitizer.',
 [LIB,CLI,P+'ixml.c',P+'yaep.c',P+'text.c',P+'colors.c',P+'xmq_internals.c'],'interval analysis of indexes, pointer offsets and sizes over the call graph (LLVM IR)','other','All arrays of fixed size in the code base; wrap-around of integers is not followed, strings are assumed to be terminated, and reading up to a terminator is not judged.')
prop('P31','A character reference denotes the character with its number',
 'Wherever the program replaces a character reference by text, it becomes exactly the character with that number: decimal and hexadecimal digits are read completely and in the announced base, the number is not cut down on its way to the encoder, all bytes of the character are used, and named references stand for the character HTML gives them. A reference that is not known is kept, it never cuts the text off.',
 ['inputs'],'all references of all code points on all paths that replace references','Tests use a few decimal references below U+FFFF; hexadecimal, named and astral references take other paths.',
 [LIB,CLI,P+'xml.c'],'prefix facts on dominating conditions and def-use tracing of code points (LLVM IR)','other','All conversions of digits and all uses of the UTF-8 encoder. JSON surrogate pairs are not part of this property.')
prop('P20','Commands, options and keywords mean what their documentation says',
 'Every command, option, option value and keyword of the program and the input formats is compared over its whole length and only with the whole word (a longer word is something else, a value starts exactly after its equal sign); each command and option sets exactly what it is documented to set, for exactly the commands it belongs to; the value reaches the library call or setter it is meant for; each format is read and printed by its own reader and printer; the manual and the help text list exactly the commands and options that exist.',
 ['inputs'],'all commands, options, keywords and all longer or shorter words','Tests use a part of the options with one value each; a swapped field, a wrong offset or a prefix comparison in the others is never seen.',
 [CLI,LIB,P+'xmq_parser.c',P+'json.c','doc/xmq.1'],'conditional constant propagation of each documented word through the option code and dominance rules for word comparisons (LLVM IR), compared with a table from the documentation','other','All commands and options of the program and all comparisons of a limited number of characters in the code base. The table of meanings was written from the help texts and the manual.')
prop('P01','Reading, printing and every other operation comes to an end',
 'For every input (valid, invalid, truncated, hostile), document and option: no loop of the library or the command line program goes around without changing what it depends on. Every iteration reads on in the input or moves to the next node, entry or character, so an unexpected character, an unclosed comment or an odd document can lead to an error but never to a hang; the readers never call themselves again at the same place of the input.',
 ['inputs'],'all loops for all values of the next byte, and all recursive calls of the readers','A hang needs one particular byte at one particular place (a tab, a lone carriage return, a missing end); tests cannot try each byte at each loop.',
 [P+'xmq_parser.c',P+'json.c',P+'ixml.c',P+'xmq_printer.c',P+'xmq_internals.c',P+'text.c',LIB,CLI],'abstract interpretation of single loop iterations with a lexicographic progress argument (LLVM IR)','other','All loops of functions that are called, outside the generated Earley parser. Loops whose progress spans several iterations or lives in unknown memory are counted as undecided. Depth of recursion is not bounded here.')
prop('P02','Printing a document and reading it back gives the same document',
 'For every document, printing it as xmq (pretty, compact or with any setting) and reading the result gives an equal document: the same nodes, names, namespaces, attributes and texts in the same order; the same holds for xml and, up to the documented mapping, for json.',
 ['inputs','configurations'],'all documents and printing options','Tests convert a few hundred documents; the printer and the parser have to agree on every tree.',
 [P+'xmq_printer.c',P+'xmq_parser.c',P+'json.c',LIB],
 na='Equality of two unbounded trees after two recursive transformations needs an inductive proof over the document; no dataflow fact over the source decides it. The parts that are facts about characters and single values are claimed in P08, P09, P10, P12 and P31.')
prop('P03','Formatting a formatted document changes nothing',
 'Pretty printing is idempotent: for every document, formatting the output of the formatter with the same settings gives the same bytes, and compact and pretty output contain the same document.',
 ['inputs','configurations'],'all documents and settings','Tests format a few documents once.',
 [P+'xmq_printer.c',P+'xmq_parser.c'],
 na='A relation between two runs on an unbounded document whose layout depends on accumulated column counters; static analysis of the source has no bound on them.')
prop('P05','Line and column of an error are those of the offending character',
 'When parsing fails, the reported line and column are exactly the line and column of the offending character, counted in characters, for every input.',
 ['inputs'],'all inputs and all failing positions','Tests check a handful of error positions.',
 [P+'text.c',P+'xmq_parser.c',LIB],
 na='An arithmetic relation between counters and the number of newlines and characters of an unbounded input; only its local parts (which location a message takes) are static facts, and those are claimed in P04 (R7).')
prop('P06','No input makes the parsers read outside their buffer',
 'No input, however truncated, makes a parser or printer read or write outside the memory it was given or allocated.',
 ['inputs'],'all inputs','Tests do not end in the middle of constructs; reads one byte too far stay invisible.',
 [P+'xmq_parser.c',P+'xmq_internals.c',P+'text.c',LIB],
 na='Whether a scanner position stays before the end depends on runtime lengths and on the terminating zero of the text, which the parsers rely on instead of explicit bounds; no bound in reach for heap buffers. Fixed size buffers are claimed in P19, decoding of UTF-8 in P10.')
prop('P15','Deeply nested documents are handled',
 'Documents nested to any depth are parsed, printed and freed, or refused with an error; they never exhaust the stack.',
 ['inputs'],'all nesting depths','Tests nest a few levels.',
 [P+'xmq_parser.c',P+'xmq_printer.c',P+'json.c',LIB],
 na='The recursive printers and readers follow the document depth by design, so stack use has no static bound; that recursion always makes progress is claimed in P01.')
prop('P25','An ixml grammar matches exactly its language',
 'Parsing a text with an ixml grammar succeeds exactly when the text is in the language of the grammar, and the tree is one the grammar gives for that text.',
 ['inputs','programs'],'all grammars and all texts','Tests use a few dozen grammars.',
 [P+'ixml.c',P+'yaep.c',LIB],
 na='Correctness of an Earley parser with dynamic lookahead over unbounded grammars and inputs; needs an inductive proof of the algorithm, not a dataflow fact. The character classes of grammars are claimed in P11.')
prop('P32','JSON strings and C quoted texts are read as exactly the text they denote',
 'Every JSON string is read as exactly the text the JSON standard says it denotes: every escape (also the escaped slash), every \\u number in lower or upper case and every surrogate pair; a text that is no JSON string (unknown escape, wrong digit, lone surrogate, missing end) is refused, and true, false and null are recognized and read completely. Every text quoted with quote-c comes back unchanged from unquote-c.',
 ['inputs'],'all escapes, all 65,535 numbers, surrogate pairs, all characters and pairs of characters','Tests read a few escapes; a wrong digit, a surrogate pair of a higher plane or an escape nobody uses is never tried.',
 [P+'json.c',P+'text.c'],'set-valued dataflow of the string readers over families of texts (LLVM IR)','other','All 1,048,576 surrogate pairs. Raw control characters in JSON strings are tolerated.')
