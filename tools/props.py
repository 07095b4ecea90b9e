#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json.
Only properties with a check in checks/ are written (NOT_APPLICABLE lists the others)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), note="", tech=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=state, note=note, tech=tech, level=level))


MON = "runtime monitoring: ASan+UBSan build driven by generated programs, "

prop("C01", "Assembling any input is memory-safe and ends with a status of 0 to 3",
     "For any source files, include/binary/bitmap files and command-line options of bounded size, an assembler run never reads or writes memory out of bounds, "
     "uses freed or uninitialised memory, divides by zero at machine level or executes other undefined behaviour; it never aborts or dies from a signal and always terminates "
     "with exit status 0, 1, 2 or 3 (or 1 for a usage error).",
     ["inputs", "programs", "configurations"],
     "all source texts (well-formed, mutated, truncated, binary), include trees, bitmaps and option combinations",
     "The tests assemble 15 small well-formed files without sanitizers; memory errors on malformed or unusual input leave no trace in their output.",
     ["utils.cpp", "parser.cpp", "preop.cpp", "pass_one.cpp", "pass_two.cpp", "directive.cpp", "bitmap.cpp", "storage.cpp", "errors.cpp", "export.cpp"],
     [("argument and word scanning", "utils.cpp"), ("expression parsing", "parser.cpp"), ("preprocessor", "preop.cpp"), ("macro storage", "storage.cpp"), ("error sessions", "errors.cpp")],
     tech="ASan+UBSan build and memcheck under grammar-based and mutational fuzzing workloads",
     note="every run in the workload is watched by ASan+UBSan (fatal) and a part of it by memcheck; nothing is said about inputs the generators do not produce")

prop("C02", "Expressions evaluate to their 32-bit left-to-right value everywhere",
     "An expression made of literals in any supported base, character literals, '$', labels and equates, optional unary ~ - + and the binary operators, evaluates strictly left to right "
     "(parentheses first, no precedence) with 32-bit two's-complement wraparound, shift counts modulo 32, arithmetic right shift, truncating division and 0/1 comparisons and logical results. "
     "The value is the same in data, operands, conditions, equates, fills and console output, and whether names are defined before or after the use; "
     "division or remainder by zero (SE203), INT_MIN by -1 (SE205), over-large literals (SE204) and names defined nowhere (outside of conditions) are errors reported on the line using them.",
     ["inputs", "programs"], "all expressions up to 254 characters with nesting up to 19 and all values of the names in them",
     "Tests contain a handful of constant expressions; operator/width/sign combinations and two-pass evaluation are a product space.",
     ["parser.cpp", "pass_two.cpp", "utils.cpp"],
     [("operator scan and evaluation", "parser.cpp"), ("deferred evaluation in the second pass", "pass_two.cpp"), ("expansion of names in stored expressions", "utils.cpp")],
     tech=MON + "values checked online against an independent evaluator")

prop("C03", "Every Z80 instruction assembles to its machine code",
     "In the default Z80 mode every documented Z80 instruction form, the undocumented forms of the instruction set table and the accepted alternative spellings assemble to exactly the "
     "opcode bytes of the instruction set, with 8-bit, 16-bit (low byte first), index displacement and bit operands in their places. "
     "Upper/lower case, white space around operands, labels and comments on the line, statements joined with a backslash, how an in-range operand is written, "
     "and whether its names are defined before or after the line make no difference to the bytes.",
     ["inputs", "programs"], "all 1235 instruction forms, all in-range operand values and spellings, all sequences of statements",
     "The tests assemble each instruction at most once with one operand spelling; operand value, spelling, layout and definition order multiply.",
     ["opcodes.cpp", "pass_one.cpp", "pass_two.cpp"], [("instruction table", "opcodes.cpp"), ("operand matching", "pass_one.cpp"), ("emitting operands", "pass_two.cpp")],
     tech=MON + "output bytes checked statement by statement against an independently generated instruction table")

prop("C04", "Every eZ80 instruction assembles correctly with every suffix and ADL state",
     "With -E every eZ80 instruction form assembles to its opcode bytes; memory-mode suffixes .sis .lis .sil .lil (and the short forms .s .l .is .il, completed by the current ADL state) add the "
     "prefix byte 40, 49, 52 or 5B hex. Immediate and address operands take three bytes when the instruction's immediate mode (given by the suffix, else by the ADL state) is long and two bytes otherwise; "
     "the ADL state starts at 1 and is changed by .assume adl=0/1 for the lines that follow, also when the operand is resolved only after the end of the file.",
     ["inputs", "programs", "configurations"], "all 976 instruction forms, eight suffixes or none, both ADL states and all in-range operands",
     "The tests contain one eZ80 file; form, suffix, ADL state and operand resolution time multiply.",
     ["opcodes_ez80.cpp", "pass_one.cpp", "pass_two.cpp", "directive.cpp"], [("instruction table", "opcodes_ez80.cpp"), ("suffix handling", "pass_one.cpp"), ("operand width in the second pass", "pass_two.cpp")],
     tech=MON + "output bytes checked statement by statement against an independently generated instruction table")

prop("C05", "Every reference to a label yields the address of the label's own position",
     "A label's value is the location counter at its position (origin plus the bytes of everything before it, across included files), and every reference to it - before or after the definition, "
     "in the same or another included file, alone or in an expression with other labels, in any letter case, in instruction operands, relative jumps or data - assembles to that value. "
     "The output file consists of exactly the bytes of the statements in source order.",
     ["inputs", "programs"], "all programs with up to hundreds of labels and statements over nested includes, Z80 and eZ80",
     "The tests have few labels; deferred references, include order and table growth only interact in larger programs.",
     ["pass_one.cpp", "pass_two.cpp", "storage.cpp", "utils.cpp", "hash.cpp"], [("label definition", "pass_one.cpp"), ("deferred references", "pass_two.cpp"), ("label table", "storage.cpp")])

prop("C06", "Relative jumps encode target minus next address, or are rejected",
     "jr, conditional jr and djnz encode the target minus the address right after the instruction as a signed byte, for backward, forward and '$'-relative targets and also with eZ80 suffixes. "
     "A displacement outside -128..127 is error SE120 reported for that line, with exit status 2; in-range jumps are never reported.",
     ["inputs", "programs"], "all distances around and beyond both limits, forward and backward, at all addresses, both instruction sets",
     "The tests contain no out-of-range jumps, and boundary distances occur only by chance.",
     ["pass_two.cpp", "pass_one.cpp"], [("displacement computation and check", "pass_two.cpp")])

prop("C07", "Operands outside their range are diagnosed, operands inside are not",
     "8-bit operands and data are accepted without a message exactly in -128..255; outside it the line gets warning SW800 and the low byte is emitted. "
     "In eZ80 mode 16-bit operands and data outside -32768..65535 get warning SW801 (Z80 mode never warns), with the low 16 bits emitted. "
     "Index displacements outside -128..127 (SE121) or without a sign (SE131), bit numbers outside 0..7 and rst targets other than 0,8,..,38h (SE127) are errors on their line, whether the value is known at once or only after the end of the file.",
     ["inputs", "programs"], "all values near each limit, both as literals, equates, expressions and forward references, both modes",
     "Boundary values and the two points in time at which operands are resolved are not sampled by the tests.",
     ["pass_two.cpp", "pass_one.cpp", "errors.cpp"], [("range checks", "pass_two.cpp"), ("warning and error codes", "errors.cpp")])

prop("C08", "A macro call acts like its body with the parameters bound to the arguments",
     "Calling a #macro (with indented body lines) assembles its body with each parameter standing for the value (or string) of the corresponding argument, which is evaluated where the macro is called as one single term. "
     "This holds for calls inside macros, recursive macros ended by #if, arguments that are expressions, contain parameters of the calling macro or forward references, and parameters named like "
     "labels, which have their global meaning again after the call.",
     ["inputs", "programs"], "all macros with up to four parameters, nested and recursive calls, all argument expressions and strings",
     "The tests call a few macros with constants; nesting, recursion, shadowing and forward references in arguments are combinations.",
     ["pass_one.cpp", "parser.cpp", "storage.cpp", "utils.cpp", "preop.cpp"], [("macro calls", "pass_one.cpp"), ("argument sets", "storage.cpp"), ("argument parsing", "parser.cpp"), ("expansion of deferred expressions", "utils.cpp")])

prop("C09", "Defines, eval(), concat() and undef give each use its current replacement",
     "A use of a #define name (in any letter case) stands for the newest definition in force there: numeric replacement text counts as one grouped term evaluated where it is used, a #define without a value is 1, "
     "eval() fixes the value at the definition, strings and concat() results replace literally, and a function-like #define gives its result for the argument values as one term. "
     "After #undef the name is undefined again (#ifdef, #ifndef, errors on use); #defcont continues a definition, and a definition that is a statement can be used as a statement.",
     ["inputs", "programs"], "all histories of defines, redefinitions, undefinitions and uses, with all replacement texts",
     "Tests use a few constant defines; redefinition, grouping, nested use and forward references make histories the tests do not sample.",
     ["preop.cpp", "storage.cpp", "parser.cpp", "utils.cpp"], [("#define parsing", "preop.cpp"), ("define storage", "storage.cpp"), ("evaluation of replacement text", "parser.cpp"), ("expansion", "utils.cpp")])

prop("C10", "Conditional blocks assemble exactly the branch whose condition holds",
     "In every properly nested structure of #if/#ifdef/#ifndef, #elif, #else and #endif, exactly the first branch whose condition is true (nonzero, or defined / not defined) is processed, or the #else branch if none is; "
     "text in other branches has no effect at all (no bytes, names, macros, includes, diagnostics or evaluated conditions), and lines after the structure keep their line numbers in diagnostics. "
     "A block left open at the end of the file (SE116), a stray #else or #endif (SE117) and a stray #elif (SE124) are errors reported on their line.",
     ["inputs", "programs"], "all nested conditional structures, conditions, and skipped text",
     "Tests contain a few one-level conditions; nesting inside skipped text and chained #elif are combinations.",
     ["preop.cpp", "pass_one.cpp", "utils.cpp"], [("conditional directives", "preop.cpp"), ("skipping blocks", "utils.cpp")])

prop("C11", "Splitting a program over include files changes nothing but names",
     "A program whose text is split over nested #include files (in sub-directories or -I directories, with LF or CRLF line ends, with or without a final line end, with / or a backslash in the path) assembles to the same bytes, exit status and symbol file "
     "as the same text in one file; files are searched in the working directory first and then in the -I directories in order. "
     "#import inserts the bytes of a file unchanged and advances the location counter by its size; a missing file is an error on the line naming it, and a skipped branch looks for no file.",
     ["inputs", "programs", "configurations"], "all ways of splitting programs over files and directories, all file contents",
     "Tests include at most one fixed file; nesting, search order, line ends and binary content vary freely.",
     ["preop.cpp", "utils.cpp", "main.cpp", "pass_one.cpp"], [("#include and #import", "preop.cpp"), ("file search and reading", "utils.cpp"), ("-I parsing", "main.cpp")])

prop("C12", "A local label reference reaches the right occurrence of _",
     "_ (or +_) refers to the next local label after the reference, ++_ to the one after that and so on; -_ refers to the latest one before it, --_ to the one before that and so on. "
     "Positions count in assembly order through macros, include files and conditional blocks (skipped branches do not count), also with several references in one statement or in eval() and .equ.",
     ["inputs", "programs"], "all arrangements of local labels and references with up to dozens of signs",
     "Tests contain a few local labels in one file; distance, macros and nesting multiply.",
     ["pass_one.cpp", "parser.cpp", "utils.cpp", "pass_two.cpp"], [("recording local labels", "pass_one.cpp"), ("resolving them", "parser.cpp")])

prop("C13", "Data and layout directives place exactly the bytes they describe",
     ".db/.byte, .dw/.word and .dl/.long emit each element of their list (values, strings with escapes) in order as 1, 2 or 3 little-endian bytes with $ being the element's own address; .fill/.block emits the given number of a byte (default 0). "
     ".org changes only the location counter, not the output position; .seek moves the output position and the counter, later bytes overwrite earlier ones, and unwritten gaps are zero. "
     "Malformed lists (missing comma, empty element, unknown directive) are errors on their line.",
     ["inputs", "programs"], "all sequences of data and layout directives with all values and strings",
     "Tests emit a few constants; strings with escapes, element addresses, seek and org interact.",
     ["directive.cpp", "pass_one.cpp", "pass_two.cpp", "utils.cpp"], [("directives", "directive.cpp"), ("output buffer", "pass_two.cpp")])

prop("C14", "Every TI variable, HEX, ROM and raw output file is well-formed and complete",
     "The output format follows the output file's extension in any letter case (73P 82P 83P 8XP 8XV 85P 86P 85S 86S, HEX, ROM, BIN or none; any other extension gives raw bytes and warning SW803). "
     "TI variable files have the right signature, type, file-derived name, length fields and checksum and carry exactly the assembled bytes (program token, size word), "
     "HEX files hold them in checksummed records of 16 KB pages at 4000h, ROM files are padded with FF to 512 KB, raw files hold them alone; "
     "unusual names, more than 24 KB or 64 KB of code and a missing program header (BB6D or EF69; EF7B with -E) in an 8XP give warnings and exit status 1, all else status 0.",
     ["inputs", "configurations"], "all program contents of 0 to over 64 KB, output names and extensions",
     "Tests write one or two small files; sizes at page and word limits, name characters and format multiply.",
     ["export.cpp", "main.cpp"], [("output writers", "export.cpp"), ("choice of the writer", "export.cpp")],
     tech=MON + "output files parsed by an independent reader of the formats")

prop("C15", "A flash application file is complete, correctly sized and correctly signed",
     "An .8xk output has the header fields of the program completed (application length, number of 16 KB pages), all other program bytes unchanged, a signature that verifies under the application key's public modulus, "
     "and intact file header (name, size) and checksummed hex records with pages padded by FF. "
     "A program without the needed header fields or with invalid ones, or without room for the signature, is refused with an error (SE501-SE505), a nonzero exit status and no file; a nearly empty last page gives warning SW802.",
     ["inputs"], "all application images from one to several pages with all header field arrangements",
     "No test builds an application; length, signature value and page boundaries depend on every byte of the program.",
     ["export.cpp", "main.cpp"], [("application header and signature", "export.cpp"), ("hex records", "export.cpp")],
     tech=MON + "files parsed and signatures verified independently")

prop("C16", "The symbol table file lists every symbol once with its final value",
     "With -L the symbol file next to the output lists each label, equate and numeric #define without parameters (also from -D) that is in force at the end exactly once, sorted by name, with its final value in hexadecimal. "
     "It never lists undefined names, string, statement or function definitions, macros, macro parameters, local labels or names from skipped branches, and -O, -T and -A change nothing in it for names that differ by more than case.",
     ["programs", "configurations"], "all sets of symbols, values, redefinitions and removals",
     "No test looks at the symbol file; order, sign, redefinition and forward references make histories.",
     ["storage.cpp", "main.cpp", "pass_two.cpp"], [("symbol file writer", "storage.cpp")],
     tech=MON + "symbol files compared with an independent model")

prop("C17", "The listing shows every source line once with its address and final bytes",
     "With -T the listing next to the output shows each line of each file once and in order while listing is on (.list/.nolist), under the name of its file, with its line number, the address at its start and exactly the final output bytes it produced. "
     "This holds for forward references resolved later, macro calls, include files, conditional blocks, imported files and statements joined by a backslash, and also with -O.",
     ["programs", "configurations"], "all programs of mixed statements, includes, macros and listing switches",
     "No test looks at the listing; back-patching of forward references in it depends on the whole program.",
     ["list.cpp", "pass_one.cpp", "pass_two.cpp", "preop.cpp", "directive.cpp"], [("listing buffer", "list.cpp"), ("rewriting resolved bytes", "pass_two.cpp")],
     tech=MON + "listings parsed and compared with source lines and output bytes")

prop("C18", "Every fault is reported once, at its place, and fixes the exit status",
     "Each faulty statement is reported exactly once per execution with the file name and line number of the statement (also inside include files and macro bodies, where a report of the first pass also names the line of the call), its kind and its error or warning code, "
     "after any number of earlier faults, and nothing else is reported. "
     "The exit status is 0 without reports, 1 with warnings only, 2 with only errors that let assembly go on (undefined names, uncoded errors) and 3 with others; after a coded error of the latter kind in the first pass no output is written.",
     ["programs"], "all mixtures of correct and faulty statements over files, macros and lines",
     "Tests check only that good files assemble; which faults are found, where and in what combination is open-ended.",
     ["errors.cpp", "pass_one.cpp", "pass_two.cpp", "parser.cpp", "preop.cpp", "directive.cpp", "main.cpp"], [("error sessions and printing", "errors.cpp"), ("exit status", "main.cpp")],
     tech=MON + "diagnostics parsed and matched one by one with planted faults")

prop("C20", "Letter case never matters, except in names when -A is given",
     "By default the names of labels, equates, #defines, macros, their parameters and -D definitions are the same name in any letter case, wherever they are defined, used, tested with #ifdef or removed. "
     "With -A every spelling is a name of its own: several spellings can be defined side by side with different values, and the use of a spelling nobody defined is SE106 on its line. "
     "Instructions, registers, conditions, directives and preprocessor words are recognised in any letter case with and without -A.",
     ["programs", "configurations"], "all sets of names in any mixture of letter cases, with and without -A",
     "No test uses -A or mixes letter cases; lookup goes through several tables that each have to follow the setting.",
     ["storage.cpp", "hash.cpp", "preop.cpp", "main.cpp", "utils.cpp", "parser.cpp"], [("symbol tables", "storage.cpp"), ("hash and comparison functions", "hash.cpp"), ("-A and -D", "main.cpp")],
     tech=MON + "bytes and diagnostics checked against a model of the names")

prop("C21", "The code counter and the statistics are the sums over what was assembled",
     "With -C the size and the minimum and maximum execution time reported are the sums, over all instructions assembled, of their bytes and their documented Z80 T states (conditional and repeating instructions "
     "counted untaken and taken); data, skipped branches and macro definitions count nothing, every macro call and include counts each time, and with -E the report is the sum of the reports of the instructions assembled alone, where a suffix adds one byte and one cycle to the same instruction in the ADL mode it selects. "
     "With -S the label and define counts grow by one with each name a program defines (#undef takes it away), code size is the bytes of the instructions, data size those of .db, .dw, .dl, .fill and .block, and total their sum.",
     ["programs", "configurations"], "all programs of instructions, data, macros, conditions and includes, with -C and -S, in both processor modes",
     "No test uses -C or -S; the figures of each instruction form and of all ways to reach one are a product space.",
     ["pass_one.cpp", "directive.cpp", "main.cpp", "opcodes.cpp", "opcodes_ez80.cpp", "storage.cpp"], [("instruction times", "opcodes.cpp"), ("adding up", "pass_one.cpp"), ("reports", "main.cpp")],
     tech=MON + "reported figures compared with sums over the generated statements")

prop("C22", "Text built with buf, wr and run assembles as if written in place",
     "buf(n) chooses one of ten buffers 0 to 9 that are independent of each other, wr(items) appends its strings and the decimal values of its expressions as one line, clr() empties the buffer, "
     "and run() assembles its text exactly as if it stood in the program in place of the call, and leaves the buffer empty. "
     "A fault in the text is reported under \"Built-in fcreate\" with the line number in the buffer (a report of the first pass with a note for the line of the run() call); run() of an empty buffer is SE301, "
     "a buffer number out of range SE110, and a value that is not defined yet in wr() an error.",
     ["programs", "histories"], "all sequences of buf, wr, clr and run, also from macros, and all texts put into the buffers",
     "No test uses the buffers; their content depends on the whole history of calls.",
     ["pass_one.cpp", "preop.cpp", "directive.cpp", "expand_buf.cpp", "utils.cpp"], [("buffers and their commands", "pass_one.cpp"), ("appending values and strings", "directive.cpp")],
     tech=MON + "programs compared with the flat program a model of the buffers predicts")

prop("C19", "The same program gives the same result, whatever memory and reports are used",
     "Assembling the same files with the same options gives the same output files, messages and exit status on every run, whatever the heap, stack and fresh memory contain, wherever they lie, "
     "whatever the environment holds and whatever older output files exist (the random character escape and the assembly time are excepted). "
     "Asking for a listing (-T), a symbol file (-L), statistics (-S) or no colour (-N) adds that report alone and changes neither the other output files nor the messages nor the exit status.",
     ["inputs", "configurations", "environments"], "all programs, good and faulty, all memory contents and layouts, and all sets of report options",
     "A test runs once with one memory content; reads of stale or uninitialised data show only under others.",
     ["main.cpp", "pass_one.cpp", "pass_two.cpp", "storage.cpp", "list.cpp", "export.cpp", "directive.cpp"],
     [("global state", "main.cpp"), ("symbol storage", "storage.cpp"), ("listing buffer", "list.cpp")],
     tech=MON + "two builds with different fill of uninitialised stack memory, heap perturbation and address layouts compared run by run")

prop("C23", "Command line options are equivalent to what they abbreviate",
     "-Dname=value acts exactly as the line #define name value at the top of the source (value 1 if none is given), in outputs, messages and exit status, and -V text acts as a source file of that text (with output -v.bin). "
     "The place of an option among the arguments, and whether the value of -D or -I is joined to it or the next argument, change nothing. "
     "Without an output name the output is the input's name with its extension replaced by .bin, and with -O no output is written.",
     ["configurations", "inputs"], "all argument lists with their orders, define values and source texts",
     "Tests use one fixed command line; equivalence of two spellings must hold for all values, programs and orders.",
     ["main.cpp", "storage.cpp", "preop.cpp", "utils.cpp"], [("argument parsing", "main.cpp"), ("definitions from the command line", "storage.cpp")],
     tech=MON + "pairs of executions with an option and its equivalent compared in all outputs")

prop("C24", ".echo, .show and .error print their values where and when they stand",
     ".echo prints its strings and the decimal values of its expressions, one line for each directive executed in program order during the second pass, with names and $ as they are at the directive (names defined later allowed); "
     ".echo > file writes the same text without a line end to the file at once, replacing it, and >> file appends, where a name defined later is an error. "
     ".show prints a definition's name, parameters and text, .error is error SE600 with its text and exit status 3, a file that cannot be written is SE002, and in skipped branches none of them does anything.",
     ["programs", "histories"], "all sequences of the directives over files, macros and branches with all values",
     "No test uses these directives; file contents and console order depend on the whole history.",
     ["directive.cpp", "pass_two.cpp", "pass_one.cpp"], [(".echo, .show and .error", "directive.cpp"), ("deferred output", "pass_two.cpp")],
     tech=MON + "console output and echo files compared with a model of the program")

prop("C25", "#include of a bitmap emits its shades, mask, header and labels exactly",
     "#include of an uncompressed bitmap (1, 4, 8, 16, 24, 32 bits per pixel) emits log2(__BM_SHD) layers, highest bit first, of the pixels' shades (black highest, by luminance; colour __BM_INV_RGB highest), top row first, rows padded to bytes and __BM_MIN_W (wider pictures in strips of __BM_MIN_W), "
     "and with __BM_MSK a mask after it (before it with __BM_MSK_1ST, inverted with __BM_MSK_INV) that is 1 for the colour __BM_MSK_RGB and padding. "
     "With __BM_HDR the fields of __BM_HDR_FMT (w ww h hh b s ss: width, height, shades, bytes that follow) stand before each image, __BM_MAP columns,rows[,count] (with __BM_PAD) cuts one picture into images column by column, "
     "a label at that place gets _WIDTH, _HEIGHT and, with a map, _COUNT and numbered labels; incomplete or unsupported bitmap files are errors on the line.",
     ["inputs", "configurations"], "all pictures, colour depths and combinations of settings",
     "No test includes a bitmap; depth, size, colours and seven settings multiply.",
     ["bitmap.cpp", "preop.cpp"], [("conversion", "bitmap.cpp"), ("include", "preop.cpp")],
     tech=MON + "emitted bytes compared with an independent conversion of generated pictures")

prop("C26", "A file that cannot be read or written completely is never passed over",
     "If the output, the listing, the symbol file or a file of .echo cannot be opened or cannot be written to its last byte (full device, size limit at any byte, directory, missing folder, no permission), "
     "the assembler says so and exits with status 2 or 3; with room for exactly every file nothing changes. "
     "If the source, or a file named in #include, #import or getc(), is missing or cannot be opened or read, it exits with status 2 or 3 and one error, which names the line of the directive (for the source: status 3 and no output files).",
     ["faults", "crash points", "programs"], "all places and byte offsets at which an input or output file can fail, for all programs",
     "Tests run on a healthy disk; each output stream can fail at each byte.",
     ["export.cpp", "main.cpp", "storage.cpp", "directive.cpp", "preop.cpp", "utils.cpp"],
     [("output file", "export.cpp"), ("listing", "main.cpp"), ("symbol file", "storage.cpp"), ("echo files", "directive.cpp"), ("input files", "utils.cpp")],
     tech=MON + "injected file system faults (size limits, full device, obstacles) with the exit status and messages watched")

prop("C27", ".addinstr adds exactly the instruction it describes",
     "After .addinstr NAME OPERANDS HEX SIZE [CLASS EXT [ENDHEX]] a statement NAME OPERANDS (in any letter case and spacing around commas) assembles to the bytes of HEX, lowest byte first, then the value standing in the place of * in OPERANDS "
     "as 1 or 2 bytes, whichever SIZE leaves room for (3 for 2 in ADL mode), then ENDHEX. "
     "The newest definition that fits the operands is taken, before the built-in ones, which otherwise stay as they are, and nothing changes for statements before the directive or if it stands in a skipped branch. "
     "Missing or invalid data (no hexadecimal number, more than 4 bytes, SIZE smaller than the data or above 255) is SE126 on its line and defines nothing.",
     ["programs", "histories"], "all sequences of definitions and uses with all operand patterns, values and instruction names",
     "One test feeds an overlong number; which definition applies depends on all that came before.",
     ["directive.cpp", "pass_one.cpp", "pass_two.cpp"], [(".addinstr", "directive.cpp"), ("matching of operands", "pass_one.cpp")],
     tech=MON + "bytes compared with a model of the instruction table the program builds")

prop("C28", "The layout of a source text carries no meaning",
     "Empty and comment lines put between lines, comments at the end of lines, other amounts of blanks and tabs before a statement, after its mnemonic and at the end of a line, LF or CR LF line ends, a UTF-8 byte order mark, "
     "a missing line end after the last line and #region/#endregion lines change neither output and symbol files nor exit status nor messages (but for line numbers, which follow the lines). "
     "Statements joined on one line by a backslash act as on lines of their own. "
     "All this holds for faulty programs as well, and in included files, macro bodies and skipped branches.",
     ["programs", "inputs"], "all programs, good and faulty, and all such changes of their layout",
     "Tests have one layout each; comments, quotes, parentheses and line ends interact in every scanner of the text.",
     ["utils.cpp", "pass_one.cpp", "preop.cpp", "parser.cpp", "directive.cpp"], [("scanning of lines and expressions", "utils.cpp"), ("line loop", "pass_one.cpp")],
     tech=MON + "each program assembled as it is and rewritten, all results compared")

prop("C29", "A run writes all files it is asked for, no others, and spares its inputs",
     "With exit status 0, 1 or 2 a run writes the output file (unless -O), with -T the listing (.lst) and with -L the symbol file (.lab), both named after the output file with its extension replaced, in the output's folder and whether or not older files are there; it also writes the files its .echo > statements name. "
     "It never creates, changes or removes any other file, and leaves source, included and imported files as they are. "
     "A run that ends before the second pass leaves the output, listing and symbol files as they were.",
     ["programs", "configurations"], "all programs, good and faulty, output names and sets of options, in folders with any older files",
     "Tests look at the files they expect, never at those they don't.",
     ["main.cpp", "export.cpp", "storage.cpp", "directive.cpp", "utils.cpp"], [("choice and names of outputs", "main.cpp"), ("output file", "export.cpp")],
     tech=MON + "snapshots of the folder before and after each run compared")

prop("C30", "Sizes within the limits work exactly; beyond one is an error, never a cut",
     "Expressions and strings of up to 254 characters, 18 nested parentheses or aliases of aliases, 16 parameters, 63 nested macro calls in an expression, macro calls and included files nested 256 deep (taken together), 4096 reusable labels and 8000000 bytes of output work exactly. "
     "A program that goes beyond either still works exactly or gets an error naming a line at fault and exit status 2 or 3: nothing is silently cut off or left out and nothing crashes. "
     "Lengths of names (elsewhere than in expressions), lines, comments, macro bodies and #defcont texts, numbers of labels, defines, macros, calls, statements in a line and values in a list, depth of #if and chains of equates have no limit.",
     ["programs", "inputs"], "all programs with a construct of any size, well within, at, just beyond and far beyond its limit",
     "Tests are small; fixed-size buffers and counters only matter at their ends.",
     ["utils.cpp", "parser.cpp", "pass_one.cpp", "preop.cpp", "storage.cpp", "directive.cpp"], [("read_expr, NESTED_EVAL_LIMIT", "utils.cpp"), ("NESTED_EXPR_LIMIT, RECURSION_LIMIT", "parser.cpp"), ("NESTING_LIMIT, write_out", "pass_one.cpp"), ("MAX_ARGS, MAX_REUSABLES", "storage.cpp")],
     tech=MON + "bytes of the sized program or line of its error compared with what its generator says")


prop("C31", "__LINE, __FILE, getc() and .option give the values they stand for",
     "In every expression or condition __LINE is the number of the line it stands on in its own file (of the definition's line in a macro body, of the call in an argument, of the buffer's line in text built with wr), and in a .db list __FILE is the path of that file, whatever includes, comments and macro calls come before. "
     "getc(\"file\", n) is the byte at offset n of the file (its path relative to the working directory), -1 at or beyond its end, in any expression, also one that uses labels defined later. "
     ".option name=value, name2, … acts like #define __name value, with 1 where no value is given; TRUE, FALSE, SPASM, SPASMVER and RGB(r,g,b) are predefined as 1, 0, 1, 2 and the 24-bit number with r in its high byte.",
     ["programs", "files"], "all programs of includes, macros, conditions, comments and buffers that use these names, all data files and offsets",
     "No test reads a file with getc or sets an option, and the line and file names are used in one place only; the values depend on everything read before.",
     ["utils.cpp", "parser.cpp", "directive.cpp", "storage.cpp", "pass_one.cpp", "preop.cpp"], [("line and file names", "utils.cpp"), ("getc", "parser.cpp"), (".option", "directive.cpp"), ("predefined names", "storage.cpp")],
     tech=MON + "output bytes compared with a model that knows where every line stands")

prop("C32", "Equates take their value where they stand; names defined twice are reported",
     "name = expression and name .equ expression give the name the value of the expression where it stands, in which the name itself still has its earlier value; a name in it that is not defined yet is an error on the line, and a name defined before keeps its value. "
     "A label or equate defined again with another value is reported once by a warning that names this place and the place of its first definition, and has the new value in what follows and in the symbol file; with the same value nothing is reported. "
     "A label or equate with the name of a #define in force (also from -D), or the reverse, is an error that names both places, and the first definition stays; #undef makes the name free again.",
     ["programs", "histories"], "all histories of labels, equates, #define and #undef over a few names, in several files, with and without -A",
     "No test redefines a name or uses a name in its own equate; the table's state depends on the whole history.",
     ["pass_one.cpp", "storage.cpp", "directive.cpp"], [("labels and equates", "pass_one.cpp"), ("conflicts", "storage.cpp")],
     tech=MON + "values and reports compared with a model of the table of names")

# --- more properties above this line ---
NOT_APPLICABLE = []
HOOKS = None


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "checks")) if f.endswith(".py")}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] not in have and p["id"] not in {n["property"] for n in NOT_APPLICABLE}:
                print("no check for", p["id"])
                continue
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                 "observe_at": ["output binary, .lst/.lab files, console output and exit status of the assembler process"]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = []
    for p in P:
        if p["id"] in have and p["id"] not in {n["property"] for n in NOT_APPLICABLE}:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                           "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["tech"] or MON + "outputs checked against an independent reference model",
                           "level": p["level"],
                           "level_note": p["note"] or "Held on the executions of this run (counts in the evidence file), each compared with an independent model while "
                           "ASan+UBSan watch; trusts the model in /verif and says nothing about inputs the generator does not produce."})
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks in /repo: every monitor observes the process boundary (files, console, exit status, sanitizer reports). Genuine defects were repaired in fix: commits, see known_findings.txt."}
    if HOOKS:
        m["hooks"] = HOOKS
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks")


if __name__ == "__main__":
    main()
