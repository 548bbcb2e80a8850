#!/usr/bin/env python3
"""Source of properties.jsonl: run to regenerate it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
             observe_at=observe or "the command line: exit status, output file, symbol file, list file, stdout",
             hook_needed=False)
    if state:
        a["state"] = state
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p("P01", "Expressions evaluate to the documented value",
  "Every expression built from the documented operands (decimal, octal, hex, binary, character and string constants, symbols, the current address) and operators evaluates, wherever an expression is allowed, to the signed 64-bit value that the documented precedence, left-to-right grouping, brackets and unary operators give it. Division by zero is an error, and no other arithmetic on well-formed expressions is. The value does not depend on spacing, on which equivalent notation a constant is written in, or on whether the operands are literals or symbols.",
  ["inputs", "programs"], "for every well-formed expression up to the enumerated size over all operators and boundary operands",
  "the tests evaluate a handful of fixed expressions; precedence or width mistakes show only for particular operator pairs, nestings and values",
  ["src/exp.c"], [("operator-precedence evaluator", "exp.c:eval, doop, evaltop, stackarg"), ("constants", "exp.c:pushhex/pushoct/pushdec/pushbin/pushchar/pushstr"), ("operators", "exp.c:op_*")])

p("P02", "Every instruction assembles to the processor's documented encoding",
  "For each supported processor (6502, 65c02, 6803, HD6303, 68705, 68HC11, 68HC908, F8), every mnemonic with every addressing mode it documents assembles to exactly the opcode, prefix and operand bytes, in the processor's byte order, that its instruction set defines. A mnemonic with an addressing mode it does not have is rejected with a failing exit status. Mnemonic, register and index names are accepted in either letter case.",
  ["programs", "inputs"], "for every processor, mnemonic, operand syntax and boundary operand value",
  "the tests assemble some instructions of some processors; one wrong table entry or mode conversion is visible only when exactly that instruction and mode is used",
  ["src/mne6502.c", "src/mne65c02.c", "src/mne6303.c", "src/mne68705.c", "src/mne6811.c", "src/mne68908.c", "src/mnef8.c", "src/ops.c", "src/exp.c"],
  [("opcode tables", "mne*.c"), ("encoding", "ops.c:v_mnemonic"), ("F8 operand parsing", "mnef8.c:v_*"), ("addressing mode syntax", "exp.c:eval(wantmode)")])

p("P03", "Operand width is chosen and enforced honestly",
  "The assembler uses the short form of an instruction exactly when the operand's value is known in time and fits the short form, uses the long form otherwise, and obeys a width forced by a mnemonic extension. A successful assembly never contains a truncated operand: a value that does not fit the byte field, bit number or mask it is assembled into makes the assembly fail. With strict checking this also holds for 16-bit fields of instructions and word data.",
  ["inputs", "programs"], "for every operand value around the width boundaries, every width forcing extension, and forward as well as backward definitions",
  "the range check has a separate branch per addressing mode, extension and sign; tests use values well inside the ranges",
  ["src/ops.c", "src/main.c", "src/mnef8.c"], [("width selection", "ops.c:v_mnemonic"), ("forced modes", "main.c:findext"), ("data range checks", "ops.c:v_dc"), ("F8 ranges", "mnef8.c:v_byteop, v_wordop, v_lis")])

p("P04", "Relative branches reach exactly the target or fail",
  "In a successful assembly every relative branch operand (plain branches, bit-test-and-branch, compare/decrement-and-branch, on every processor) is the distance from the address the processor measures it from to the target, at the address the code is assembled to run at. A target outside the reachable range, forward or backward, makes the assembly fail with a non-zero exit status. This holds under relocated origins and when the target or the instruction's own address is only learnt in a later pass.",
  ["inputs", "programs"], "for every branch instruction and every displacement across both range limits, forward and backward, with and without relocated origin",
  "limits are off-by-one territory for each instruction length; tests use one displacement",
  ["src/ops.c", "src/mnef8.c"], [("displacement", "ops.c:v_mnemonic"), ("F8 displacement", "mnef8.c:generate_branch")])

p("P05", "Multi-pass assembly ends in a consistent fixed point",
  "When assembly succeeds, every label, assignment and emitted byte is consistent with one single reading of the source from top to bottom: each label's value is the address at which its line was assembled and each use of a symbol saw that value, no matter how many passes, forward references or size changes it took to get there. Programs whose forward references can be resolved by repeated passes (within the pass limit, every pass making progress) succeed; tests for being defined see the symbols known from earlier passes, and an assignment nothing depends on may stay unresolved. Programs whose symbols depend on themselves inconsistently fail instead of emitting something. Nothing from an earlier pass (segment, fill value, list mode, conditional state, local label counter) leaks into the emitted result.",
  ["programs", "histories"], "for every program up to the enumerated length over the alphabet of labels, forward references, size-changing instructions and layout directives",
  "needs particular combinations of forward references across passes; tests contain a few fixed shapes",
  ["src/main.c", "src/ops.c", "src/symbols.c"], [("pass loop", "main.c:MainShadow"), ("phase check", "symbols.c:programlabel"), ("reset between passes", "main.c:clearsegs, clearrefs")],
  "symbol table, segments, redo counters")

p("P06", "No unresolved value is ever emitted",
  "A source that uses a symbol which is never defined, or whose value can never be determined, in any place that influences the output (instruction operand, data, space reservation, origin, alignment, repeat count, condition, branch target, an assignment that is itself used) never assembles successfully. When the passes end without a value the failure is reported as unresolvable with the symbol listed by name, and nothing is reported as complete.",
  ["programs", "inputs"], "for every statement kind and operand position with an undefined, later-defined or self-referential symbol",
  "each statement handles unknown values separately; a place that forgets to ask for another pass silently emits zero",
  ["src/ops.c", "src/exp.c", "src/symbols.c", "src/mnef8.c", "src/main.c"], [("unknown propagation", "exp.c:pushsymbol, stackarg"), ("redo requests", "ops.c:v_*"), ("not resolvable", "main.c:MainShadow")])

p("P07", "Bytes are placed at the addresses the source asks for",
  "The emitted image has every byte at the address obtained by following ORG, RORG/REND, segment switches, uninitialised segments, ALIGN, DS and data/instruction sizes; gaps are filled with the requested fill byte, uninitialised segments occupy addresses but no output, and RORG changes label values only. The current-address symbol and labels give the (relocated) address at their line in every segment. Going backwards in a format that cannot represent it is an error.",
  ["programs"], "for every sequence up to the enumerated length of layout directives, data and labels over several segments",
  "interactions of directives (RORG inside a segment that is left and re-entered, ALIGN under RORG, fill value history) are combinatorial",
  ["src/ops.c", "src/symbols.c"], [("location counters", "ops.c:generate, v_org, v_rorg, v_rend, v_align, v_seg, v_ds, genfill"), ("labels", "symbols.c:programlabel")], "segments, current origin, fill byte")

p("P08", "All output formats describe the same memory image",
  "For any source that assembles in all formats, format 3 is the bare image from the lowest to the highest emitted address, format 1 is the same preceded by the little-endian start address, and format 2 is a sequence of origin, length, data hunks in emission order that, laid out in memory, gives the same bytes. A source whose origin goes backwards is rejected by formats 1 and 3 and represented by format 2. The file is exactly what was emitted: no stray, missing or stale bytes, for any total size and gap size.",
  ["programs", "configurations"], "for every enumerated sequence of origins, gaps and data sizes (including buffer boundaries), in all three formats",
  "tests compare one format per source; hunk splitting and header patching depend on emission history",
  ["src/ops.c"], [("format writers", "ops.c:generate, closegenerate"), ("fill", "ops.c:genfill")], "output position, hunk length, header position")

p("P09", "Data directives lay out exactly the listed values",
  "DC, DV, HEX, DS and their byte/word/long and swapped variants emit their operands in order, each in the requested size and in the processor's (or the swapped) byte order, strings one character per element, for any number and length of operands. DV applies the named expression to each value; DS emits the requested number of elements of the fill value. Nothing is dropped, duplicated, reordered or truncated.",
  ["inputs", "programs"], "for every directive, size, byte order, operand kind and operand count including internal buffer boundaries",
  "operand kinds, sizes, byte order and count multiply; buffer-boundary lengths are never tested",
  ["src/ops.c", "src/mnef8.c"], [("data", "ops.c:v_dc, v_hex, v_ds, genfill"), ("F8 aliases", "mnef8.c:MneF8")])

p("P10", "Conditional assembly selects exactly the right lines",
  "Exactly the lines selected by the nesting of IF / IFCONST / IFNCONST / IFNDEF / ELSE / ENDIF, with the conditions' values at that point, take effect; skipped lines have no effect whatever they contain, including nested conditionals, repeats, macro calls and malformed text (only block comments and macro definitions keep their extent). A condition that cannot be evaluated yet selects neither branch and is decided in a later pass. Conditionals are balanced per file and per macro expansion.",
  ["programs"], "for every well-nested (and mis-nested) sequence of conditional directives up to the enumerated length and depth, with every truth assignment",
  "state is a stack of three flags; errors appear for particular nestings only",
  ["src/ops.c", "src/main.c"], [("if stack", "ops.c:pushif, v_if, v_else, v_endif, v_ifconst, v_ifnconst"), ("dispatch", "main.c:MainShadow")], "if stack")

p("P11", "REPEAT loops run exactly the requested number of times",
  "A REPEAT/REPEND block takes effect exactly as if its lines were written out count times, for every count and nesting depth, in files, included files and macros, combined with conditionals and with symbols reassigned inside the loop. A zero or negative count skips the block, and the source line after the block follows.",
  ["programs", "inputs"], "for every nesting of repeats, conditionals and macro calls up to the enumerated depth and counts",
  "loop state is kept per file and per macro frame; nesting and early exits multiply",
  ["src/ops.c", "src/main.c"], [("repeat stack", "ops.c:v_repeat, v_repend"), ("end of file or macro", "main.c:MainShadow, ops.c:v_endm")], "repeat stack, file position")

p("P12", "Macro expansion is exact textual substitution",
  "A macro call assembles exactly what its body would assemble with {0} replaced by the whole argument text and {n} by the n-th comma-separated argument, for any number and shape of arguments, nested and recursive calls, and calls made from repeats, conditionals and included files. MEXIT ends the current expansion and nothing else; line flow, conditionals and repeats of the caller continue unaffected. A reference to an argument that was not passed is an error.",
  ["programs", "inputs"], "for every enumerated macro body, argument list, nesting and early exit",
  "substitution happens in place in line buffers and the expansion shares stacks with the caller",
  ["src/main.c", "src/ops.c"], [("definition", "main.c:v_macro"), ("argument substitution", "main.c:cleanup"), ("call and exit", "ops.c:v_execmac, v_endm, v_mexit")], "macro level, include stack")

p("P13", "Local labels are visible exactly in their scope",
  "Labels starting with a dot are local to the region between SUBROUTINE lines and to each macro expansion; labels ending in $ are local to the region between ordinary labels and to each macro expansion; the surrounding scope continues after a macro ends. The same local name in different scopes denotes different symbols, forward and backward, and a reference never binds to another scope's label.",
  ["programs"], "for every interleaving up to the enumerated length of scope-changing lines, local definitions and references",
  "scope numbers are counters that must agree in every pass and across macro nesting",
  ["src/symbols.c", "src/ops.c"], [("local names", "symbols.c:findsymbol, CreateSymbol, programlabel"), ("scopes", "ops.c:v_subroutine, v_execmac, v_endm")], "local scope counters")

p("P14", "Symbols hold exactly what was assigned to them",
  "Distinct names (case-sensitive, of any length up to the documented limit) are distinct symbols and the same name always denotes the same symbol, however many symbols there are. EQU/= fixes a value that cannot change, SET reassigns, EQM is re-evaluated at each use, SETSTR/SETSYM and evaluated name arguments build the documented names and strings, and -D/-M define symbols exactly as SET/EQM lines at the top would, for symbols the source does not itself fix with EQU.",
  ["programs", "configurations"], "for every sequence of assignments and uses up to the enumerated length over colliding, long and case-variant names",
  "symbols are found through hash chains and name buffers; collisions and lengths are never tested",
  ["src/symbols.c", "src/ops.c", "src/main.c"], [("lookup", "symbols.c:findsymbol, CreateSymbol, hash1"), ("assignment", "ops.c:v_equ, v_set, v_eqm, v_setstr, v_setsym"), ("dynamic labels", "main.c:parse"), ("options", "main.c:MainShadow")], "symbol table")

p("P15", "INCLUDE and INCBIN insert exactly the named file",
  "INCLUDE assembles the named file's lines in place, at any depth, and INCBIN emits the named file's bytes from the requested offset, byte for byte for any file size; both find the file by the given name first and then in the include directories in the order they were given. A missing file makes the assembly fail. After an included file the including file continues at the next line with its conditionals and repeats intact.",
  ["programs", "configurations", "inputs"], "for every enumerated include tree, search path arrangement, file size and offset",
  "file sizes around buffer limits, forward references that change the pass in which a file is read, and path arrangements multiply",
  ["src/ops.c", "src/main.c"], [("include", "main.c:pushinclude, ops.c:v_include"), ("binary", "ops.c:v_incbin"), ("search", "ops.c:pfopen, v_incdir")], "include stack")

p("P16", "Layout and spelling of source lines do not change meaning",
  "Comments of either kind, blank space (tabs, runs of blanks, trailing blanks), line endings, letter case of mnemonics and directives, a leading dot on a directive, a colon after a label, a leading # before a directive or ^ before a label and the last line lacking a newline do not change what is assembled. Text inside string and character constants is taken literally. An unterminated block comment is an error.",
  ["inputs", "programs"], "for every combination of the listed layout variations on every line shape of the alphabet",
  "each variation is handled by in-place text editing; combinations are not tested",
  ["src/main.c"], [("line cleaning", "main.c:cleanup"), ("line splitting", "main.c:parse, findmne, findext")], "block comment flag")

p("P17", "Reporting options never change the result",
  "List file, all-pass list file, symbol file and its sort order, verbosity, debug and trace output, error format, and additional passes allowed change neither the exit status nor the output file. Strict checking may only turn a success into a failure, never change the bytes of a success.",
  ["configurations", "programs"], "for every combination of reporting options on every program of the alphabet, succeeding and failing",
  "the options touch shared buffers and files used by code generation; tests use one option set per source",
  ["src/main.c", "src/ops.c", "src/exp.c"], [("options", "main.c:MainShadow"), ("listing", "main.c:outlistfile"), ("symbol dump", "main.c:DumpSymbolTable, ShowSymbols, ShowSegments")])

p("P18", "The symbol file lists every symbol once with its final value",
  "The symbol file contains every symbol of the program exactly once, under its name (local labels under their scope-qualified name), with its final value and the markers for string, expression-macro, referenced and unresolved symbols, in the requested order: by name, by value, or by order of appearance. This holds for any number of symbols, hash collisions, long names, large and negative values, and after any number of passes.",
  ["programs", "configurations"], "for every enumerated set of symbols and sort order",
  "tests never look at the symbol file",
  ["src/main.c", "src/symbols.c"], [("dump", "main.c:ShowSymbols, DumpSymbolTable, sftos"), ("order", "symbols.c:programlabel, CreateSymbol")], "symbol table, symbol order")

p("P19", "The listing shows what was assembled",
  "The list file has, in order, one line per source line processed in the final pass, with the line number, the address at which it was assembled, the first emitted bytes (marked when there are more) and the source text; skipped lines are marked as skipped. Lines of macro expansions and included files appear where they are processed, and the LIST directive suppresses exactly the lines between OFF and ON.",
  ["programs", "configurations"], "for every enumerated program, with the listing option",
  "tests never look at listings",
  ["src/main.c", "src/ops.c"], [("listing", "main.c:outlistfile, tabit, sftos"), ("LIST", "ops.c:v_list"), ("emitted bytes", "ops.c:generate")], "list mode, last emitted bytes")

p("P20", "Errors are reported once, where they are, with a failing status",
  "Every statement that is in error makes the exit status non-zero and produces a message naming the file and line it stands on (the line of the call, for code expanded from a macro), in the selected format and not repeated for every pass; symbols never resolved are listed by name; and successful assemblies report no errors. Every erroneous line is reported, not just the first, unless the error ends the assembly at once. ECHO output appears exactly once, in order, with the final values.",
  ["programs", "inputs"], "for every kind of error at every position in the enumerated contexts (file, include, macro, repeat, conditional, later pass)",
  "tests check only that some invalid sources fail",
  ["src/main.c", "src/ops.c", "src/exp.c"], [("messages", "main.c:asmerr, passbuffer_*"), ("echo", "ops.c:v_echo"), ("exit status", "main.c:MainShadow, main")], "message buffers, fatal-error flag per pass")

p("P21", "Output problems are never reported as success",
  "If the output, list or symbol file cannot be created or completely written, at whatever byte the failure occurs, the exit status is non-zero. With the remove-on-error option no output file is left behind after any kind of failure, and it is left intact after a success. A run that reports success has written every requested file completely, exactly as a run without any trouble writes it.",
  ["fault_sequences", "crash_points", "programs"], "for every write-failure point of every file and every failing program kind",
  "requires injected write failures at each byte offset and every failure path",
  ["src/main.c", "src/ops.c", "src/ftohex.c"], [("output file handling", "main.c:MainShadow, main"), ("writers", "ops.c:generate, closegenerate"), ("dump", "main.c:DumpSymbolTable")])

p("P22", "No input crashes or hangs the tools",
  "For any source text and any options, dasm and ftohex end in bounded time with an ordinary exit status: no crash, no memory access outside an object, no use of uninitialised or freed memory, no division trap, no undefined shift. Over-long lines, names, operand lists, expressions, nestings, argument lists and file names are either processed correctly or rejected.",
  ["inputs", "programs", "configurations"], "for every enumerated malformed and oversized input",
  "needs length sweeps across every fixed-size buffer and all short token strings",
  ["src/main.c", "src/ops.c", "src/exp.c", "src/symbols.c", "src/mnef8.c", "src/ftohex.c"], [("line buffers", "main.c:cleanup, parse, findmne, outlistfile"), ("expression stacks", "exp.c"), ("emit buffer", "ops.c:Gen"), ("messages", "main.c:asmerr, passbuffer_update")], "all fixed-size buffers")

p("P23", "The result depends only on the source, its files and the options",
  "Running the same command on the same files always gives byte-identical output, symbol file, listing, messages and exit status: nothing depends on memory contents, environment, time, previously existing output files, the directory it runs in, or the order of independent options. Splitting a source into included files or moving whole independent blocks of definitions between files does not change the output.",
  ["histories", "configurations", "programs"], "for every enumerated program under every combination of memory fill, stale files, environment and option order",
  "uninitialised or stale state shows only under particular histories",
  ["src/main.c", "src/ops.c", "src/symbols.c", "src/exp.c"], [("static state", "globals.c, main.c, ops.c, exp.c"), ("files reopened", "main.c:MainShadow")])

p("P24", "ftohex converts every assembled file to equivalent Intel HEX",
  "For every file dasm writes in format 1, 2 or 3, ftohex with that format produces a well-formed Intel HEX file (correct record lengths, addresses, types, checksums and exactly one end record) that describes exactly the bytes in the input at their (16-bit) addresses. Truncated, empty or otherwise malformed input ends in bounded time and never yields a file claiming data that was not in the input with a successful status.",
  ["inputs", "programs"], "for every payload size across record boundaries, every hunk structure, and every truncation point",
  "ftohex has no tests at all",
  ["src/ftohex.c"], [("conversion", "ftohex.c:convert, getwlh, puth, main")])

p("P25", "The shipped machine headers and macros do what they document",
  "Every shipped header (Atari 2600 and 7800, Channel F, 68HC11, 68HC908) assembles; the names it defines have the hardware's addresses and bit values, also when the base-address and memory-map options it documents are overridden; and including it emits nothing. The shipped macros assemble to code with the documented effect: SLEEP takes exactly the requested number of cycles without disturbing registers, CLEAN_START clears memory and sets the documented registers, VERTICAL_SYNC gives three lines of sync, SET_POINTER stores the address, BOUNDARY pads with zeros to the next address whose low byte is a multiple of its argument, and the Channel F and 68HC908 macros expand to their documented sequences.",
  ["inputs", "configurations"], "for every register name, every macro and every argument in the documented range",
  "the tests only use the headers incidentally",
  ["machines/atari2600/vcs.h", "machines/atari2600/macro.h", "machines/atari7800", "machines/channel-f", "machines/68hc11", "machines/68hc908"], [("register map", "machines/*/*"), ("macros", "machines/*/*")])

p("P26", "Limits stop runaway sources and nothing else",
  "Sources that need more passes than allowed, recurse without end in macros, EQM expressions or includes, or grow beyond the size barrier are stopped with a failing status in bounded time; sources within the limits (the default and those set by -p, -P and -m) are assembled normally. Raising a limit never changes the result of a source that already succeeded.",
  ["programs", "configurations"], "for every limit, sources just below, at and just above it",
  "tests contain two runaway sources and never probe just below a limit",
  ["src/main.c", "src/ops.c", "src/exp.c"], [("pass limit", "main.c:MainShadow"), ("macro depth", "ops.c:v_execmac"), ("expression depth", "exp.c:pushsymbol, doop"), ("size barrier", "ops.c:generate")])

p("P27", "Command line options mean what the documentation says",
  "Every documented option of dasm has its documented effect and only that, in whatever combination and order the options follow the source name and whether a dash or a slash introduces them. Of a repeated option with one value the last one counts; definitions (-D, -M) and directories (-I) accumulate in the order given. Without options the output goes to a.out in format 1 and no other file is written; with options exactly the named files are written. A missing source, an option that is not documented, a word that is no option, a missing file name, or a format, sort order, error format or size outside its range ends with a failing status without assembling anything. ftohex likewise: format, input and optional output, else standard output, and a failing status for anything else.",
  ["configurations", "inputs"], "for every sequence of option words up to the bound on programs in which each option has a visible effect",
  "the tests always use the same few options; interactions between options and rejected lines are never tried",
  ["src/main.c", "src/ftohex.c"], [("option reading", "main.c:MainShadow"), ("definitions", "ops.c:v_set, v_eqm"), ("directories", "ops.c:v_incdir, addpart"), ("ftohex arguments", "ftohex.c:main")], "option globals (F_format, F_outfile, F_listfile, F_sortmode, ...)")

p("P28", "Unrelated parts of a source do not influence each other",
  "A piece of source acts on the rest only through the names it defines and the addresses it continues from. Pieces that use different names and each start at their own origin give together, in every order, exactly the bytes and symbol values that each gives alone, and are rejected together exactly when one of them is rejected alone. Putting a piece inside a true conditional, a loop that runs once, a macro called once or an included file changes nothing either. A definition, block, label, segment or message that nothing else refers to, and any skipped text, can be added anywhere and in any number without changing the output or the other symbols. In particular nothing carried by one line (size extension, forced mode, string, list or error state) is left over for a later one. (What the manual makes lasting stays so: the current segment, an open RORG, the ORG fill value, LIST mode, INCDIR directories, the running checksum and the SUBROUTINE scope.)",
  ["programs", "histories"], "for all pairs and triples of the enumerated pieces, every piece in every surrounding, every idle statement at every place",
  "tests assemble fixed sources; left-over state shows only when two particular constructs follow one another",
  ["src/main.c", "src/ops.c", "src/exp.c", "src/symbols.c"], [("state kept between lines", "main.c:MainShadow, parse, findext; ops.c:Gen, Glen, Mnext"), ("symbol and macro tables", "symbols.c:findsymbol, CreateSymbol; main.c:findmne"), ("scopes", "globals.c:Localindex, Lastlocalindex"), ("segments", "ops.c:v_seg"), ("stacks", "ops.c:pushif, v_repeat, v_execmac")], "everything that outlives a line: scopes, segments, IF/REPEAT/macro stacks, list mode, pending passes")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
import re
for x in P:
    assert len(x["title"]) <= 80, x["id"]
