NA = {}
INP = 'every byte string given as input (within the bounds: every statement form with every byte at each position replaced, inserted or cut off; free bytes in texts with 9, 17, 300 and 66000 of a thing; and short free inputs)'
SAMPLES = 'the unit tests parse a few hundred fixed well-formed texts and a handful of broken ones; '
t('P01', 'Parsing any bytes is memory-safe and terminates',
  'For every byte sequence, parsing it (whole, segment by segment, or with the quick parser), inspecting everything the API exposes of the outcome, rendering it and freeing it terminates without invalid memory access, undefined behaviour, uninitialised reads or abort. Parsing succeeds (with errors reported as data) whenever memory is available.',
  'inputs', INP, SAMPLES + 'memory errors depend on the exact bytes and lengths at buffer and backtracking boundaries that no fixed text samples.',
  PARSER + [L + 'quick_parser.c', L + 'quick_parser.leg', L + 'errors.c', L + 'result.c', L + 'segment.c', L + 'vector.c', L + 'string_buffer.c'],
  [('bounded block/sequence handling during parsing', L + 'parser.c'), ('error tracking and context extraction', L + 'errors.c'), ('growth of vectors and buffers', L + 'vector.c, ' + L + 'string_buffer.c')])
t('P02', 'Everything a parse allocates is released',
  'After the outcome of a parse has been freed (the result, retained segments, copies of trees, annotation contexts and configurations, in any of the documented orders, and also when a segment callback stops the parse early), no memory obtained by the library remains allocated.',
  'inputs histories', INP + '; release orders: result before annotation context and after, segments retained and released in reverse, early stop after the k-th segment',
  SAMPLES + 'none of them observes what remains allocated, and error recovery discards partly built trees on paths they do not take.',
  PARSER + [L + 'result.c', L + 'segment.c', L + 'annotation.c'], [('freeing of trees', L + 'ast.c'), ('reference counting of segments', L + 'segment.c'), ('cleanup after each parse', L + 'parser.c')])
t('P03', 'Source ranges of AST nodes are exact, nested and ordered',
  'Every AST node carries a range lying within the input, whose line and column are those of its byte offset; the range of a node lies within its parent\'s; siblings start in source order (a comment inside the text of a label, type, parameter or dotted name precedes its node), as do the roots.',
  'inputs', INP, SAMPLES + 'they pin ranges of selected nodes of selected texts; multi-line, commented and erroneous inputs are hardly sampled.',
  PARSER, [('position bookkeeping across lines and segments', L + 'parser.c'), ('line starts recorded while scanning', L + 'parser.leg')])
t('P04', 'Segments tile the input exactly',
  'Parsed segment by segment, every input is covered exactly: each segment is non-empty, starts where the previous one ended, the last one ends at the end of the input, and only the last can be marked as end of input; roots lie within their segment, and the reported end position is that of the last segment.',
  'inputs configurations', INP + '; with and without statement-only parsing and an initial position',
  SAMPLES + 'they check a few segment boundaries of well-formed scripts; quoting, comments, line endings and broken statements decide where a segment ends.',
  [L + 'parser.c', L + 'parser.leg', L + 'segment.c'], [('end-of-segment resynchronisation after an error', L + 'parser.c'), ('segment construction', L + 'segment.c')])
t('P05', 'A stream, a string and a buffer with the same bytes parse identically',
  'For every byte sequence, parsing it from a stream, or as a NUL-terminated string if it has no NUL, gives the same trees, positions, errors (positions and messages), segments and end position as parsing it from memory; the same holds for the quick parser.',
  'inputs', INP, 'tests use buffers almost exclusively; the stream source delivers byte by byte, so look-ahead and buffer refill happen at other points for every input.',
  [L + 'parser.c', L + 'quick_parser.c'], [('input sources', L + 'parser.c, ' + L + 'quick_parser.c')])
t('P06', 'A whole-input result equals the concatenation of its segments',
  'The result of parsing an entire input contains exactly the roots, directives and errors of the segments delivered by segment-wise parsing, in order, the same node total, the same end position and end-of-input status.',
  'inputs', INP, SAMPLES + 'merging is exercised with one or two segments, without errors in several of them.',
  [L + 'result.c', L + 'parser.c', L + 'segment.c'], [('merging segments into a result', L + 'result.c')])
t('P07', 'Parsing one segment at a time and resuming gives the same outcome',
  'Parsing with the single-segment flag consumes exactly one segment and reports where it ended; resuming from there with that initial position and the following ordinal, until the input is used up, yields the same trees, positions, errors and segments as parsing everything at once.',
  'inputs histories', INP + '; resumed until exhausted', SAMPLES + 'resumption is tested for one script.',
  [L + 'parser.c', L + 'parser_config.c'], [('single-segment flag and end position', L + 'parser.c'), ('initial position and ordinal', L + 'parser_config.c')])
t('P08', 'Initial position and ordinal only translate what is reported',
  'A configured initial position shifts the offset and line of every reported position by the same amount and the column of positions on the first line only, and a configured initial ordinal shifts every rendered ordinal; trees, messages, contexts and everything else stay the same.',
  'inputs configurations', INP + '; every initial line below 1024, column below 256 and offset below 65536, as symbolic values', SAMPLES + 'one initial position is tested with one text.',
  [L + 'parser.c', L + 'parser_config.c', L + 'errors.c'], [('position translation', L + 'parser.c'), ('configuration', L + 'parser_config.c')])
t('P09', 'Nodes are numbered consecutively in preorder and counted exactly',
  'In the rendering of a segment every node appears on one line with an ordinal, ordinals being consecutive in preorder, starting at the configured ordinal and continuing across segments; the node counts of a segment and of a result are the numbers of nodes in their trees.',
  'inputs configurations', INP, SAMPLES + 'ordinals are visible only in renderings of selected texts.',
  [L + 'ast.c', L + 'segment.c', L + 'result.c', L + 'parser.c'], [('ordinal assignment', L + 'ast.c'), ('node totals', L + 'segment.c, ' + L + 'result.c')])
t('P10', 'Accessors and node types agree with the documented hierarchy',
  'In every AST each node has a known type whose instance-of relation is the documented hierarchy; every part an accessor returns is present when documented as mandatory, has the documented type and is among the node\'s children; accessors with an index past the end answer null.',
  'inputs', INP, SAMPLES + 'each accessor is called on one or two nodes; index bounds and inheritance are not swept.',
  PARSER + [L + 'ast_*.c'], [('type tables', L + 'ast.c'), ('typed accessors', L + 'ast_*.c')])
t('P11', 'A cloned tree is equal to the original and independent of it',
  'Cloning any AST yields a tree equal in types, ranges, content, parts and children; freeing the original does not affect the clone and freeing the clone does not affect the original; cloning a clone gives the same again; a clone is released completely, whole or node by node.',
  'inputs', INP, 'cloning has no tests for most node types and none with optional parts absent.',
  [L + 'ast.c', L + 'ast_*.c'], [('generic clone', L + 'ast.c'), ('per-type clone functions', L + 'ast_*.c')])
t('P24', 'A segment callback\'s return value steers the parse as documented',
  'A callback returning zero continues the parse; a positive value stops it after that segment with success; a negative value stops it and is returned to the caller; in each case the callback is not called again and the reported end position is that of the last segment delivered; the same holds for the quick parser.',
  'inputs histories', INP + '; stopping at every segment with return values 1, 5, -1 and -7', SAMPLES + 'a stop is tested at the first segment only.',
  [L + 'parser.c', L + 'quick_parser.c'], [('callback loop', L + 'parser.c, ' + L + 'quick_parser.c')])
t('P15', 'Operators bind with the documented precedence and associativity',
  'Every accepted expression is structured as the language defines: OR, XOR, AND, NOT, equality, comparison chains, additive, multiplicative, power (right-associative), unary sign, then regex/IN/STARTS WITH/ENDS WITH/CONTAINS/IS NULL, subscripts and slices, property and label access, each level binding tighter than the previous; others associate to the left; parentheses override; a chain of <, <=, >, >= comparisons is one comparison node with its operands and operators in order.',
  'inputs', 'every combination of two operators (infix, prefix, postfix) and of three single-character operators, and any printable byte at each position of 20 expressions', 'tests check a few pairs of operators; the number of combinations of levels and forms is far larger.',
  [L + 'parser.leg', L + 'parser.c', L + 'operators.c', L + 'operators.h'], [('operator table', L + 'operators.c'), ('precedence stack', L + 'parser.c'), ('expression rules', L + 'parser.leg')])
t('P25', 'Parsing is a pure function of its input and configuration',
  'Parsing the same input again gives the same trees, positions, errors and segments whatever was parsed in between, also when a parse in between failed for lack of memory and when a parse runs inside the callback of another parse.',
  'inputs histories', INP + '; with 4 other inputs parsed in between, nested, or failing at an allocation', 'tests parse each text once in a fresh state; state carried over from another parse or an error shows only in sequences.',
  [L + 'parser.c', L + 'quick_parser.c', L + 'errors.c'], [('parser context set-up and cleanup', L + 'parser.c'), ('error tracking reset', L + 'errors.c')])
t('P33', 'Calls in different threads do not interfere',
  'The library keeps no modifiable state of its own: calls working on different objects (parsing from buffers and streams, whole or by segments, quick parsing, configuring, rendering, cloning, annotating own trees), and calls that only read one shared parse result (accessors, rendering, describing, cloning), can run in several threads at the same time without a data race and give the results they give alone.',
  'inputs schedules', INP + '; two threads doing all of this, one after a shared parse', 'tests run in one thread; a race shows only under particular schedules, and not writing shared memory on any path excludes every one of them.',
  [L + 'parser.c', L + 'quick_parser.c', L + 'ast.c', L + 'ast_*.c', L + 'errors.c', L + 'render.c'], [('parser state in a context structure', L + 'parser.c, ' + L + 'parser.leg'), ('static tables', L + '*.c')])
t('P32', 'A statement is parsed the same whatever precedes it',
  'The trees and errors of a statement in a script are those of the statement on its own at that position, whether the statements before it are well-formed or not: an ill-formed statement is reported as an error and affects nothing beyond its own end.',
  'inputs histories', 'every statement form, with a free byte at a share of the positions, after 20 preceding inputs: well-formed, broken in several ways, with quotes and comments containing terminators, commands; and 7 that leave a quote or a comment open', 'tests check recovery after two or three particular mistakes.',
  [L + 'parser.c', L + 'parser.leg', L + 'errors.c'], [('end-of-segment resynchronisation after an error', L + 'parser.c'), ('error tracking reset', L + 'errors.c')])
t('P23', 'A failed allocation is reported as ENOMEM, corrupts and leaks nothing',
  'If any one memory allocation fails, or every one from some point on, each operation (parsing a buffer or a stream, whole or by segments, the quick parser, cloning, rendering, annotating) either completes with the same outcome as without the failure or reports failure with errno ENOMEM; it does not crash, everything delivered before the failure is as it would have been, everything it allocated is released and inputs remain usable.',
  'faults inputs', 'failure of the k-th allocation for every k below 2048 (a symbolic value), once or from then on, for every statement form and broken input of the corpus and longer inputs that make the internal vectors grow', 'the tests never make an allocation fail; the number of failure points grows with every input.',
  [L + 'parser.c', L + 'quick_parser.c', L + 'ast.c', L + 'ast_*.c', L + 'segment.c', L + 'result.c', L + 'errors.c', L + 'vector.c', L + 'string_buffer.c', L + 'annotation.c'], [('abort of a parse by long jump and the cleanup after it', L + 'parser.c'), ('constructors and clone functions', L + 'ast_*.c'), ('growth of vectors and buffers', L + 'vector.c, ' + L + 'string_buffer.c')])
t('P16', 'Keywords are recognised in any case',
  'Writing the letters of any keywords of a statement in upper or lower case changes nothing about the outcome: whether it is well-formed, its tree, and every range in it.',
  'inputs', 'every combination of cases of all letters of all keywords in each statement form; any keyword in every case next to any byte', 'tests write keywords in upper case, and a few in lower case; there are 2^n spellings of a statement.',
  [L + 'parser.leg'], [('keyword rules', L + 'parser.leg')])
t('P17', 'White space and comments between tokens do not change the meaning',
  'Putting blanks, line ends (\\n or \\r\\n), block comments or line comments between the tokens of a statement changes neither whether it is well-formed nor its tree apart from the added comment nodes and the ranges (the text of an implicit alias being that of the source); every comment appears exactly once, as a node of its type with exactly its text and range.',
  'inputs', 'every place between two tokens of every statement form (outside commands and option values), singly and all at once; every blank; comments with every text of two free bytes', 'tests place a comment in a handful of statements; whether a rule of the grammar skips blanks has to be right at each of hundreds of places.',
  [L + 'parser.leg', L + 'parser.c'], [('white space and comment rules', L + 'parser.leg'), ('comment nodes of the enclosing block', L + 'parser.c')])
t('P18', 'A string literal denotes its text with escapes decoded',
  'For every body of a string literal that does not contain its own quote unescaped, the literal is accepted wherever a string may stand, its range is exactly that of the literal including the quotes, and its value is the body with \\a \\b \\f \\n \\r \\t \\v \\\\ \\\' \\" \\? replaced by the characters they stand for and every other byte (including a backslash before another character, line ends, comment starts and semicolons) kept.',
  'inputs', 'every body of up to 3 bytes, and longer ones with free bytes; both quotes', 'tests decode six fixed escapes in one string.',
  [L + 'parser.leg', L + 'parser.c', L + 'string_buffer.c'], [('string literal rules', L + 'parser.leg'), ('accumulation of decoded text', L + 'string_buffer.c')])
t('P19', 'Names, parameters and implicit aliases carry exactly their source text',
  'Every identifier, parameter, label, relationship type, property, function, index and procedure name has as value exactly its text without sigils and backticks (dotted names joined with single dots) and as range exactly its text; a projection without an alias gets its own source text as alias unless it is an identifier, when it gets none.',
  'inputs', 'every name of two free characters, quoted names with two free bytes and longer ones, at 35 places of the grammar; every byte at each position of 30 expressions', 'tests use plain names; they cannot cover the accepted characters, quoting, and lengths at each place.',
  [L + 'parser.leg', L + 'parser.c', L + 'string_buffer.c'], [('name rules', L + 'parser.leg'), ('projection aliases', L + 'parser.c')])
t('P22', 'Numbers keep their text and are integers or floats by their notation',
  'Every number is accepted wherever a number may stand and gives one node whose text and range are exactly those of the source; it is a float exactly if it has a fraction with a digit after the point or a decimal exponent, and an integer otherwise.',
  'inputs', 'every text of three bytes of the shape of a number, and prefixes of each notation with two free bytes, at 16 places', 'tests contain about ten numbers; the notations differ by single characters and end where the following token starts.',
  [L + 'parser.leg', L + 'parser.c'], [('number rules', L + 'parser.leg')])
t('P31', 'A client command is split into its name and arguments as written',
  'A line starting with a colon gives one command whose name and arguments are the words of the line: words are separated by blanks or block comments, quoted parts keep their blanks, escapes are decoded, a backslash before the line end (with a comment, perhaps) continues the command, and it ends at a semicolon, line end, line comment or the end of input.',
  'inputs', 'every command of 3 free bytes and 2 free bytes in 20 shapes', 'tests contain about fifteen commands; quoting, escapes and continuation interact at every byte.',
  [L + 'parser.leg', L + 'parser.c'], [('command rules', L + 'parser.leg')])
t('P12', 'The printed tree lists every node with its ordinal, range, depth, type and parts',
  'Printing a tree, a list of trees, a result or a segment gives exactly one entry per node, in pre-order: its ordinal, the offsets of its range, its depth below the root, the name of its type and a description which names every part of the node by ordinal (and its flags, operators and text, line ends and control characters escaped); columns are aligned, and with a width the description is broken into lines of that width and nothing is lost or duplicated.',
  'inputs', 'every statement form with a free byte at a share of the positions; every width below 256; the four printing functions; results of over 60 nodes and 1000 bytes', 'tests print each form once at width 0; wrapping, alignment at every width and every combination of optional parts cannot be enumerated by hand.',
  [L + 'ast.c', L + 'ast_*.c', L + 'result.c', L + 'segment.c', L + 'util.c'], [('entries, columns and wrapping', L + 'ast.c'), ('descriptions of the node types', L + 'ast_*.c')])
t('P29', 'Colours only add their marks around the elements of the printed tree',
  'Printing with a colorization writes the same text as without, with exactly the configured start and end sequences around ordinals, ranges, indentation, type names and descriptions; columns and line breaks stay where they were.',
  'inputs', 'every statement form with a free byte at a share of the positions; every width below 256; the ANSI colours and a set of distinct marks', 'tests print with colours once, if at all.',
  [L + 'ast.c', L + 'colorization.c'], [('colour sequences around elements', L + 'ast.c')])
t('P13', 'Annotations behave as a map and are released exactly once',
  'For any history of attaching, replacing, getting and removing annotations in several contexts, setting and clearing release handlers, and freeing contexts and trees in any order: getting answers what was last attached to that node in that context (or null), attaching and removing report the previous one, and when a node or a context is freed each annotation still attached there, and no other, is handed to the handler of its context exactly once with its node and the userdata; nothing leaks.',
  'histories inputs', 'every history of 4 operations out of 31 over three contexts and three nodes from several starting states, nodes released as trees and one by one; all nodes of parsed trees, released in three orders', 'tests run three fixed histories; the doubly linked lists break only under particular orders of removal and release.',
  [L + 'annotation.c', L + 'ast.c', L + 'astnode.h'], [('list of a node and list of a context', L + 'annotation.c'), ('release with the node', L + 'ast.c')])
t('P14', 'Every error points at its place and names what is there',
  'In input without NUL bytes, every error lies inside the input, its line and column are those of its offset, its message says "Invalid input", names the character at that offset (escaped, or the end of input), and lists at least one expectation, with exactly the configured colours around the three parts; the errors of a segment are in increasing order and there are some exactly if the segment has an error node; the context is at most 80 bytes of one line of the input, with the offset given pointing at the offending character unless that is a line end or the end of input, and elided with dots when it does not begin where the line or the segment does.',
  'inputs', 'every statement form and broken input with a free byte at a share of the positions; long lines, many errors; three colourings', 'tests check some twenty messages; positions and contexts depend on backtracking, lines and segments.',
  [L + 'errors.c', L + 'parser.c', L + 'util.c'], [('tracking the furthest failure', L + 'errors.c'), ('context of an error', L + 'util.c')])
t('P20', 'The quick parser splits any input exactly at its terminators',
  'For every byte sequence, from a buffer or a stream, the quick parser delivers one segment per terminator outside quotes, backticks and comments (semicolons; for commands also line ends not escaped by a backslash), and one for a remainder; each has the right kind, exactly the text without leading or trailing white space and comments, the position of that text and of the next segment (line, column and offset), and tells whether the end of input ended it. With the statements-only flag no commands are recognised; with the single-segment flag it stops after the first.',
  'inputs configurations', 'every 2 bytes between 27 prefixes and 9 suffixes which leave a quote, comment, continuation or command open; every statement form with a free byte; buffers and streams; both flags', 'tests split about twenty fixed inputs; the state of quotes, comments and continuations at every byte decides where a segment ends.',
  [L + 'quick_parser.leg', L + 'quick_parser.c'], [('segment rules', L + 'quick_parser.leg'), ('positions and delivery', L + 'quick_parser.c')])
t('P21', 'The quick parser agrees with the full parser on well-formed input',
  'For every input in which the full parser finds no error, the non-empty segments of the quick parser are, in order, exactly the statements and commands of the full parse: same kind, same start, same position after the terminator, and no text beyond the statement.',
  'inputs configurations', 'every statement form with a free byte, followed by another across 10 kinds of separators, and with comments containing terminators between all tokens; free bytes in strings, names, comments and commands', 'two grammars must agree about quoting, comments and line ends; no test compares them.',
  [L + 'quick_parser.leg', L + 'parser.leg'], [('segment rules', L + 'quick_parser.leg'), ('directives of the full grammar', L + 'parser.leg')])
t('P26', 'The tree written out again is the source, token for token',
  'For every statement that parses without error, walking the tree through its accessors and writing each node in the syntax it stands for yields exactly the tokens of the source in order (keywords, signs, names, literals, optional parts, lists), apart from white space, comments and parentheses; nothing of the source is missing from the tree, and between statements there are only comments and terminators.',
  'inputs', 'every statement form and ten long statements that together use every production, with a free byte substituted or inserted at a share of the positions, and with comments between all tokens', 'tests check selected accessors of about 400 statements; a misplaced alternative, swapped child or lost part shows only where the particular combination occurs.',
  [L + 'parser.leg', L + 'parser.c', L + 'ast_*.c'], [('grammar actions building nodes', L + 'parser.leg'), ('accessors of every node kind', L + 'ast_*.c')])
t('P27', 'Constructors accept exactly the documented parts and the node answers them',
  'With assertions disabled, each of the 101 constructors of syntax tree nodes given parts of the documented kinds that are among its children (lists of any length allowed, optional parts present or absent, children in any order and with comments between) returns a node of the documented type with the given range and children, whose accessors answer exactly the given parts, flags and text, also after the arrays and text of the caller changed, and whose clone answers the corresponding children of the clone; given a part of another kind, a missing mandatory part, an empty list where one element is needed, or a part that is not among the children, it returns NULL with errno EINVAL and leaves the children alone.',
  'histories inputs', 'every constructor; every argument of any node kind, absent or foreign; lists of 0 to 3 elements; every subset of optional parts; symbolic flags, ranges and texts', 'tests build no node through most constructors except by parsing, and never with a wrong part.',
  [L + 'ast_*.c', L + 'astnode.h', L + 'cypher-parser.h.in'], [('argument checks', L + 'astnode.h'), ('constructors and clones', L + 'ast_*.c')])
t('P28', 'cypher-lint reports exactly the errors of its inputs and exits accordingly',
  'For every input, set of options, order of arguments and number of input files ("-" and none meaning standard input), cypher-lint exits 0 exactly if every input could be read and parses without errors under the flags the options stand for; standard error has, for each error in order, "file:line:column: message", the context and a caret under the place; standard output has the syntax trees (per input or, with --stream, per segment) in the given width and colours if asked for, and is empty otherwise; an input that cannot be opened or read is reported; no memory is left over.',
  'inputs configurations', 'every set of the ten options with arrangements of up to three files and free bytes; every statement form and broken input with a free byte at a share of the positions under random options', 'no test runs the linter at all.',
  ['linter/src/cypher-lint.c', L + 'parser.c', L + 'ast.c'], [('options, files and exit status', 'linter/src/cypher-lint.c')])
t('P30', 'Read and write errors are always reported and leave nothing behind',
  'Wherever reading a stream fails, the parse and quick parse of that stream return failure (-1, or a null result) with the errno of the read, after delivering only segments that the whole input has, in order; wherever writing fails, printing a tree, segment or result returns -1 with the errno of the write, having written exactly the bytes before; without a failure they succeed; in all cases no memory stays allocated.',
  'faults inputs', 'the fault, lasting or of a single call, at every byte read and every byte written for every statement form and for long inputs around block boundaries; three stream interfaces, three printing interfaces, widths and colours', 'no test makes a read or write fail.',
  [L + 'segment.c', L + 'parser.c', L + 'quick_parser.c', L + 'ast.c', L + 'result.c'], [('reading blocks', L + 'parser.c'), ('printing', L + 'ast.c')])
t('P34', 'A retained segment stays as it was until its last release',
  'A segment that a callback retains keeps everything it exposed (range, errors with their messages and contexts, roots, directive, node count, ordinals, end-of-input mark and rendering) unchanged while parsing goes on, and after it ended, failed (read error, no memory) or was stopped, after the configuration and the input are gone and other texts have been parsed, until it has been released as often as it was retained, in whatever order; then nothing of it remains allocated.',
  'histories inputs faults', 'every choice of which segments are retained, how often, released during or after parsing and in which order, for 8 inputs of up to 12 segments; one such choice for every statement form followed by others with a free byte; five ways a parse ends (the failing byte or allocation being free)', 'no test retains a segment.',
  [L + 'segment.c', L + 'parser.c', L + 'result.c', L + 'errors.c'], [('reference counting', L + 'segment.c'), ('hand-over of roots and errors to a segment', L + 'parser.c')])
t('P35', 'A configuration holds exactly the values set last',
  'After any sequence of setting the initial position, the first ordinal and the colours of errors on several configurations, with parses (also failing ones) in between and configurations freed and made anew, parsing with each of them gives what a fresh configuration with the values set last gives; parsing changes no configuration, configurations do not affect each other, and parsing without one is parsing with a fresh one.',
  'histories configurations', 'sequences of operations out of 12 on two configurations, three values of each setting; two inputs, and the statement forms with a free byte', 'the tests use a configuration at most once.',
  [L + 'parser_config.c', L + 'parser.c', L + 'errors.c'], [('configurations', L + 'parser_config.c'), ('their use at the start of a parse', L + 'parser.c')])
t('P36', 'What an error says is expected would be accepted',
  'Every alternative which the message of the first error of an input names is acceptable there: the input up to the error, less what is written of that alternative already, followed by it (its text, or an instance of what it names) has no error before its end; no alternative is named twice; and any of ) ] } , | ; = + % ( [ that would be accepted there is named, or something that begins with it. (Left out: behind CYPHER, and behind DISTINCT or NOT, words which can be names too; the comma between patterns; completeness inside words, operators, strings and comments.)',
  'inputs', INP, 'the tests compare a dozen messages with fixed texts, and never whether they are true.',
  [L + 'errors.c', L + 'parser.leg', L + 'parser.c'], [('tracking of the furthest failure and its alternatives', L + 'errors.c'), ('alternatives noted by the grammar', L + 'parser.leg')])
