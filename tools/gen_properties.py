#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["bytes of the output file", "diagnostics on stdout", "process exit status"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "Z80 instructions assemble to their documented machine code",
  "Every Z80 instruction the assembler accepts (documented set, the supported undocumented forms and aliases), with any in-range operand values, assembles to exactly the bytes the Z80 instruction set defines, in the right operand order and length. The location counter advances by exactly that length. Operand combinations that are not Z80 instructions are rejected with an error instead of being assembled.",
  ["inputs", "programs"], "all mnemonics x operand forms x operand values, in any context, spelling case and order",
  "The tests assemble a handful of instructions; the table has several hundred entries and every entry has 2^8..2^16 operand values.",
  ["opcodes.cpp", "pass_one.cpp", "pass_two.cpp"],
  [("instruction table", "opcodes.cpp opcode_list"), ("operand matching", "pass_one.cpp match_opcode_args"), ("emission", "pass_one.cpp write_instruction_data, pass_two.cpp write_arg")])
p("P02", "eZ80 instructions, ADL modes and suffixes assemble correctly",
  "With -E every eZ80 instruction assembles to the bytes the eZ80 instruction set defines: address and wide immediate operands are 24 bits exactly when the effective instruction-length mode is long (ADL state from .assume adl or an explicit suffix) and 16 bits otherwise. Each suffix (.s .l .is .il .sis .lis .sil .lil) emits its one defined prefix byte given the current ADL state, and location counter, jumps and labels account for the real length.",
  ["inputs", "programs", "configurations"], "all eZ80 mnemonics x operand forms x values x ADL state x suffix, mixed in one program",
  "Tests touch two eZ80 files with a few opcodes; mode x suffix x operand products and mode switches inside a program are not sampled.",
  ["opcodes_ez80.cpp", "pass_one.cpp", "pass_two.cpp", "directive.cpp"],
  [("eZ80 table", "opcodes_ez80.cpp opcode_list_ez80"), ("suffix parsing", "pass_one.cpp parse_suffix"), ("ADL state", "directive.cpp .assume, pass_one.cpp adl_mode")])
p("P03", "Out-of-range operands are diagnosed, in-range ones never are",
  "An operand that cannot be represented in its field (8-bit data or immediate outside -128..255, relative jump outside -128..127 from the next instruction, IX/IY displacement outside -128..127, bit number outside 0..7, an RST target that is not one of the eight vectors, and with -E a 16-bit field outside -32768..65535) is always diagnosed for the line it stands on. An operand that does fit is never diagnosed and is emitted exactly. Both hold whether the operand's value is known when its line is read or only later (forward reference).",
  ["inputs", "programs"], "all operand kinds x all values around and far from every limit x backward/forward resolution",
  "Tests check three fixed out-of-range cases; limits must hold for every value, operand kind and resolution order.",
  ["pass_two.cpp", "pass_one.cpp", "directive.cpp", "errors.cpp"],
  [("range checks", "pass_two.cpp write_arg"), ("deferred RST check", "pass_two.cpp run_second_pass"), (".fill value check", "directive.cpp handle_directive FILL")])
p("P04", "Expressions evaluate to their defined 32-bit value",
  "Any well-formed expression over number literals (decimal, hexadecimal, binary in every accepted notation, character literals, whose value is the byte between the quotes), symbols, getc(file, n) (the byte of the file at index n), $ , unary + - ~, parentheses and the binary arithmetic, bitwise, shift, comparison and logical operators evaluates strictly left to right without precedence (parentheses excepted) in 32-bit two's-complement arithmetic; comparison and logical operators give 1 or 0. Malformed literals, literals that do not fit in 32 bits, division or modulus by zero, and malformed expressions are diagnosed as errors and never produce a silent value.",
  ["inputs"], "all expression strings built from the grammar, with arbitrary spacing, nesting within the documented depth limit and boundary values; and single-token corruptions of them",
  "Three tests cover unary minus and one negative eval; operator/operand/nesting combinations are unbounded.",
  ["parser.cpp", "utils.cpp"],
  [("evaluator", "parser.cpp parse_num_full"), ("literals", "parser.cpp parse_single_num, conv_*"), ("token boundaries", "utils.cpp read_expr_impl")])
p("P05", "Forward references resolve like backward references",
  "Using a symbol before its definition produces exactly the same output bytes as using it after its definition: for every operand and data field that may refer forward, the value emitted is the value the expression has under the final symbol values and at the location ($) where it was written. Neither macro arguments, redefinitions that happen after the use, nor local-label position may leak into the deferred evaluation.",
  ["programs", "histories"], "all programs with deferred expressions in any operand kind, macro, include or data directive, and all label values",
  "One test has a forward jump; the deferred-expression mechanism captures context (location, line, local labels, define state) that must be right for every interleaving.",
  ["pass_two.cpp", "utils.cpp", "pass_one.cpp"],
  [("deferred list", "pass_two.cpp add_pass_two_expr/run_second_pass"), ("define snapshot", "utils.cpp expand_expr_full")],
  state=[("expr_list", "expressions waiting for pass two with their captured context", "pass_two.cpp")])
p("P06", "Location counter, labels and output position stay consistent",
  "A label's value and $ always equal the origin set by the last .org plus the number of bytes emitted since (however emitted: instructions, data, strings, fills, imports, macros, includes), .org moves addresses without emitting bytes, .fill/.block emit exactly the requested count of the given byte, and .seek repositions output and address together so later bytes overwrite earlier ones. Equates (.equ and =) bind exactly the value of their expression.",
  ["programs", "histories"], "all statement sequences mixing every byte-emitting and counter-moving construct",
  "Tests contain no program that mixes .org, .fill, .seek, strings and labels; the invariant spans every statement kind.",
  ["pass_one.cpp", "directive.cpp", "pass_two.cpp", "storage.cpp"],
  [("counter updates", "pass_one.cpp handle_opcode_or_macro, directive.cpp"), ("label creation", "storage.cpp add_label")],
  state=[("program_counter", "current address", "spasm.h"), ("out_ptr", "current output position", "spasm.h")])
p("P07", "Data directives emit the listed values in order, little-endian",
  ".db/.byte, .dw/.word and .dl/.long emit their items in order as 1, 2 and 3 byte little-endian values; a string item emits one byte per character with escape sequences (\\n \\r \\t \\0 \\\\ \\\" \\') reduced, in all of them. Character literals, quotes, commas, parentheses, semicolons and backslashes inside strings are data, not syntax.",
  ["inputs"], "all item lists mixing strings over all printable characters and escapes with expressions, any spacing",
  "One test uses .dw with a label; quoting and escaping interact with separators and comments in unboundedly many ways.",
  ["directive.cpp", "utils.cpp", "pass_two.cpp"],
  [("item loop", "directive.cpp parse_emit_string"), ("string reduction", "utils.cpp reduce_string"), ("splitting", "utils.cpp extract_arg_string/read_expr_impl")])
p("P08", "Conditional assembly selects exactly the right branch",
  "For every nesting of #if/#ifdef/#ifndef/#elif/#else/#endif exactly the first branch whose condition holds (or #else) is assembled, once, and everything in the other branches, including directives, definitions, labels, and text that would be an error, has no effect; #comment...#endcomment likewise skips its body. Line numbers in later diagnostics are unaffected by what was skipped, and an unmatched #if or a stray #else/#elif/#endif is diagnosed.",
  ["programs"], "all nestings and sequences of conditionals with arbitrary conditions over defines, labels and expressions, and arbitrary skipped text",
  "No existing test contains a conditional.",
  ["preop.cpp", "utils.cpp"],
  [("branch selection", "preop.cpp do_if, handle_preop, skip_until"), ("keyword test", "utils.cpp line_has_word")])
p("P09", "Macros and defines expand to what writing the body by hand gives",
  "Invoking a #macro or a #define (with or without parameters, nested, with missing trailing arguments, redefined, undefined, continued with #defcont, or built with eval()/concat()) assembles to the same bytes as the program in which each invocation is replaced by its body with the parameters' values substituted. Parameters are local to the invocation, shadow outer names and do not survive it, and a define changed after use does not affect earlier uses.",
  ["programs", "histories"], "all sequences of define/redefine/undef/macro/invocation with arbitrary bodies, parameters and nesting",
  "Tests call three trivial macros; scoping, nesting, shadowing and redefinition histories are unbounded.",
  ["preop.cpp", "storage.cpp", "utils.cpp", "pass_one.cpp", "parser.cpp"],
  [("definition", "preop.cpp handle_preop_define/#macro"), ("argument binding", "utils.cpp parse_args, storage.cpp add_arg/remove_arg_set"), ("expansion", "pass_one.cpp handle_opcode_or_macro, utils.cpp expand_expr_full")])
p("P10", "Reusable local labels refer to the right neighbour",
  "A reference _ or +_ denotes the next following anonymous label, ++_ (one more + each) the ones after it, -_ the nearest preceding one and --_ and so on the earlier ones, each counted from the referencing statement, for any number and placement of anonymous labels and whether the reference is resolved immediately or later. A reference to an anonymous label that does not exist is diagnosed.",
  ["programs"], "all placements of anonymous labels and references of every direction and distance, in instructions, data and macros",
  "No existing test uses anonymous labels.",
  ["parser.cpp", "storage.cpp", "pass_one.cpp", "pass_two.cpp"],
  [("reference parsing", "parser.cpp parse_single_num"), ("label array", "storage.cpp add_reusable/search_reusables"), ("deferred position", "pass_two.cpp new_expr->curr_reusable")],
  state=[("reusables", "addresses of anonymous labels", "storage.cpp")])
p("P11", "Symbols behave as one map from name to latest value",
  "For any history of label definitions, defines, redefinitions and undefinitions, every lookup yields the value of the latest definition of that name, symbols never affect each other however many there are, and undefined names are diagnosed. Names are matched ignoring case by default and exactly with -A; -D definitions behave like #define at the start of the source; defining a label and a define of the same name is diagnosed.",
  ["histories", "configurations"], "all histories of symbol operations over small and very large name sets with names differing only in case or sharing prefixes, with and without -A and -D",
  "Tests define at most a few symbols; table growth, collisions and case rules need large generated name sets.",
  ["storage.cpp", "hash.cpp", "modp_ascii.cpp", "main.cpp", "utils.cpp"],
  [("hash table", "hash.cpp"), ("case folding", "utils.cpp strup, modp_ascii.cpp"), ("symbol operations", "storage.cpp add_label/add_define/remove_define/search_*")])
p("P12", "#include and #import equal pasting the file's contents",
  "Splitting a program into any tree of included files gives the same output as the single concatenated source, diagnostics and __LINE/__FILE name the file and line that contain the construct, and after an include the including file's context is restored. #import emits the file's raw bytes unchanged. Relative names are looked for first beside the source (in its directory when the source is given by an absolute path, else in the working directory), then in each -I directory in the order given.",
  ["programs", "configurations"], "all trees of include files, search path configurations, import contents (every byte value) and file layouts (LF/CRLF, BOM, missing final newline)",
  "No existing test includes or imports a file.",
  ["preop.cpp", "utils.cpp", "main.cpp"],
  [("include", "preop.cpp handle_preop_include, full_path"), ("import", "preop.cpp handle_preop_import"), ("file reading", "utils.cpp get_file_contents")])
p("P13", "TI program files wrap the assembled bytes in a valid container",
  "For output names ending in .73p .82p .83p .8xp .8xv .85p .86p .85s .86s the file written is a well-formed file of that type: signature, section and entry lengths, variable type, variable name derived from the file name, and 16-bit checksum are all consistent with the contents, and the embedded program data is exactly the bytes the same source yields as .bin.",
  ["inputs", "configurations"], "all program sizes including 0 and near 64 KB, contents, and output names of any length and case, for every container type",
  "No existing test produces anything but .bin.",
  ["export.cpp"], [("container writer", "export.cpp makeprgm"), ("type selection", "export.cpp write_file, file table")])
p("P14", "BIN, ROM and Intel HEX outputs decode back to the assembled bytes",
  ".bin output is the assembled bytes verbatim; .rom output is them padded with FF to the fixed ROM size; .hex output is well-formed Intel HEX (valid counts, record types, checksums, end record) whose decoding, page by page, gives the assembled bytes at consecutive addresses. The format is chosen by the output extension ignoring case, and an unknown extension gives a warning and raw bytes.",
  ["inputs", "configurations"], "all sizes around record and 16 KB page boundaries, contents and extensions",
  "No existing test produces hex or ROM output.",
  ["export.cpp"], [("hex writer", "export.cpp makehex/intelhex"), ("rom writer", "export.cpp makerom")])
p("P15", "8XK application output is a correctly completed and signed application",
  "For a source with a valid application header, the .8xk output embeds the program unchanged except for the completed length field and signature block, its page count, name and file header match the application, the Intel HEX body is well formed, and the signature verifies against the MD5 of the application under the freeware key. A header that lacks a required field is diagnosed and gives no signed file.",
  ["inputs"], "all application bodies: any contents, length, name, header field order and page count",
  "No existing test signs an application; validity must hold for every hash value (all signature branches), not one sample.",
  ["export.cpp"], [("signer", "export.cpp makeapp, siggen"), ("header field search", "export.cpp findfield")])
p("P16", "The symbol table file lists exactly the program's symbols",
  "With -L the .lab file contains one line per label and per argument-less define with a numeric value, with the value the symbol finally has, each exactly once and in case-insensitive alphabetical order, and nothing else but the predefined names. The values listed are the ones the output bytes use.",
  ["programs"], "all programs and symbol sets",
  "No existing test uses -L.",
  ["storage.cpp", "hash.cpp", "main.cpp"], [("table writer", "storage.cpp write_labels*"), ("enumeration", "hash.cpp hash_enum")],
  observe=["the .lab file"])
p("P17", "The listing shows the real source, addresses and bytes",
  "With -T each listed source line shows its line number, the address of its first byte and exactly the bytes that line contributed to the output, in order, including bytes fixed up later for forward references; every source line appears, in order, verbatim. .nolist/.list hide and show lines without changing anything else.",
  ["programs"], "all programs over instructions, data, strings, fills, forward references, includes and .list/.nolist",
  "No existing test uses -T.",
  ["pass_one.cpp", "pass_two.cpp", "expand_buf.cpp", "main.cpp", "directive.cpp"],
  [("hex text", "pass_one.cpp write_out"), ("line text", "pass_one.cpp do_listing_for_line/run_first_pass"), ("buffer", "expand_buf.cpp")],
  observe=["the .lst file"])
p("P18", "Reporting options and environment never change the output",
  "The output bytes, and the diagnostics other than the reports themselves, are the same with and without -T, -L, -S and -N, in every combination and order of options, for an absolute or relative input path, and on every repetition; -O writes no output file. -V assembles its argument like a one-line file.",
  ["programs", "configurations", "histories"], "all programs x all option sets x repetitions",
  "Tests run each program once with at most one option.",
  ["main.cpp", "pass_one.cpp", "pass_two.cpp", "directive.cpp"], [("mode flags", "main.cpp main/run_assembly"), ("mode-dependent emission", "pass_one.cpp write_out, write_instruction_data")])
p("P19", "Statistics and cycle counts are exact",
  "-S reports the true number of labels and of code and data bytes; -C reports the total instruction size and the sums of the minimum and maximum documented execution times of the assembled instructions (T-states on Z80).",
  ["programs"], "all sequences of instructions and data",
  "No existing test uses -S or -C; sums range over the whole instruction table.",
  ["pass_one.cpp", "main.cpp", "opcodes.cpp", "opcodes_ez80.cpp", "directive.cpp"], [("accumulation", "pass_one.cpp handle_opcode_or_macro, directive.cpp"), ("timings", "opcodes.cpp, opcodes_ez80.cpp")],
  observe=["stdout of -S and -C"])
p("P20", "Every error is reported at its file and line, and fails the run",
  "Every faulty line that assembly reaches gets a diagnostic with its file and line, of its own kind (error number), and no correct or skipped line gets one; a fault inside a macro, a define or a run() buffer also names the invocation. Faults that show only in the second pass (undefined symbols, values out of range, bad bit numbers) are reported when the first pass found none. Errors give exit status 2 or 3, warnings alone 1; coded errors of the first pass and fatal ones leave no output file, others still write it; -C hides messages but not the status. A program without faults gives no diagnostics, exit status 0 and its output, whatever its unused defines and macros contain and with -L and -T too.",
  ["programs"], "all valid programs with any number of faults of any kind injected at any line, inside macros, includes and conditionals",
  "Tests check five fixed single-fault programs and ignore line numbers.",
  ["errors.cpp", "pass_one.cpp", "pass_two.cpp", "main.cpp", "utils.cpp"], [("error sessions", "errors.cpp"), ("line tracking", "pass_one.cpp run_first_pass, preop.cpp")])
p("P21", "No input can corrupt memory, crash or hang the assembler",
  "For every source text, included file, bitmap and option combination the assembler terminates, either with output or with a diagnostic, without out-of-bounds or use-after-free memory access, uninitialised reads of freed data, or abnormal termination.",
  ["inputs", "programs", "configurations"], "all byte strings as source, include, bitmap and command-line expression, reached by grammar-based and mutational generation",
  "Two past crash bugs have a regression test each; the input space is unbounded and the tests run without memory checking.",
  ["pass_one.cpp", "preop.cpp", "parser.cpp", "utils.cpp", "directive.cpp", "storage.cpp", "bitmap.cpp", "export.cpp", "errors.cpp", "expand_buf.cpp"],
  [("fixed-size buffers with explicit limits", "utils.cpp read_expr_impl, pass_one.cpp, directive.cpp"), ("recursion limits", "parser.cpp RECURSION_LIMIT")],
  observe=["sanitizer reports", "exit status", "termination"])
p("P22", "Built-in text buffers assemble what was written into them",
  "buf(n), clr(), wr(...) and run() behave as a set of ten independent text buffers: run() assembles, in order, exactly the lines written to the selected buffer since it was last cleared or run, at the point of the call, with strings and expression values rendered as wr received them.",
  ["histories"], "all sequences of buf/clr/wr/run with arbitrary text and values",
  "No existing test uses these buffers; behaviour depends on the whole operation history.",
  ["pass_one.cpp", "directive.cpp", "expand_buf.cpp"], [("buffer commands", "pass_one.cpp handle_opcode_or_macro"), ("rendering", "directive.cpp parse_emit_string ES_FCREATE")],
  state=[("fcreate_bufs, cur_buf", "the buffers and the selected one", "pass_one.cpp")])
p("P23", ".addinstr adds exactly the instruction it describes",
  "After a valid .addinstr line the described mnemonic and operand form assembles to the given opcode bytes followed by its operand bytes, has the declared size, and every other instruction, including other forms of the same mnemonic, assembles as before. An .addinstr line whose fields are missing or too long is diagnosed.",
  ["inputs", "histories"], "all instruction definitions and later uses mixed with built-in instructions",
  "One test checks one over-long definition.",
  ["directive.cpp", "opcodes.cpp", "pass_one.cpp"], [("definition", "directive.cpp ADDINSTR")])
p("P24", "Included bitmaps convert to the documented bit layout",
  "#include of an uncompressed bottom-up 1, 4, 8 or 24-bit BMP emits, for every image size and palette, the rows top to bottom with each pixel's grey level quantised for the selected shade count and packed most significant bit first with rows padded to a byte, preceded by the size header and accompanied by mask or map forms exactly when selected.",
  ["inputs", "configurations"], "all image sizes, depths, palettes, pixel contents and __BM_* settings",
  "No existing test includes a bitmap.",
  ["bitmap.cpp", "preop.cpp"], [("conversion", "bitmap.cpp handle_bitmap")])
p("P25", "Source layout does not change meaning",
  "Output is unchanged when letter case of mnemonics, registers, directives and preprocessor words, the amount and kind of spaces and tabs between tokens, blank lines, comments, LF versus CRLF line ends, an optional colon after a label, or the choice between separate lines and backslash-joined statements is changed.",
  ["programs"], "all programs x all combinations of these layout rewrites",
  "Each test fixes one layout.",
  ["pass_one.cpp", "utils.cpp", "directive.cpp", "preop.cpp", "parser.cpp"], [("line splitting", "utils.cpp is_end_of_code_line/skip_*"), ("statement scanning", "pass_one.cpp run_first_pass_line*")])
p("P26", ".echo and .show print the values the program has",
  ".echo prints the concatenation of its strings (escapes reduced) and the decimal values its expressions have, resolving forward references under final symbol values, in source order, to the console or to the named file (> replaces, >> appends); .show prints a define's name, parameters and contents. Neither emits bytes nor alters any symbol or counter.",
  ["programs"], "all mixes of echo/show statements with strings, expressions, forward references, macros and redirections",
  "No existing test uses .echo or .show.",
  ["directive.cpp", "pass_two.cpp", "utils.cpp"], [("rendering", "directive.cpp parse_emit_string/show_define"), ("deferred output", "pass_two.cpp add_pass_two_output/run_second_pass")],
  observe=["stdout", "redirected files"])

p("P27", "The command line decides exactly which files are read and written",
  "The first file name is the source and the second the output; without a second the output is the source's name with the extension of its last component replaced by .bin. With -T and -L a listing and a symbol table are written next to the output, with its extension replaced by .lst and .lab, -O leaves out just the output, and no other file is created, changed or removed. Options work the same in any order and placement, with attached or separate values. A missing or unreadable source, an unknown option, an output that cannot be written or a program with a fatal error is reported with a failing exit status and leaves every file, including an earlier output, as it was. A file that can be written only in part (a full disk) fails the run too.",
  ["configurations", "fault_sequences"], "all command lines: file names with and without directories and extensions, option sets, orders and spellings, faulty command lines, earlier output files",
  "The tests always pass one source and one output with fixed options; names, orders and failures are unbounded.",
  ["main.cpp", "utils.cpp", "export.cpp"],
  [("argument loop", "main.cpp main"), ("derived names", "utils.cpp change_extension"), ("output files", "export.cpp write_file, main.cpp run_assembly")],
  observe=["the directory tree before and after", "console output", "process exit status"])

p("P28", "Programs using the shipped include files get what the files describe",
  "The include files of inc/ assemble without a message and give what they describe: every equate of ti83asm.inc, ti83plus.inc, ti84pce.inc and tokens.inc has its value; bcall, bjump and their conditional forms and the AppOnErr macros of ti83plus.inc, and the instructions of z80ext.inc, assemble to the sequences they abbreviate; code between relocate(x) and endrelocate has its addresses from x on and what follows continues as if there were none; defpage and validate of app.inc give an application header, pages filled to 16 K, page addresses, and report the free space, or the excess of a page that is too full and page numbers out of order.",
  ["programs"], "all programs over the names, macros and instructions of the shipped files: any names, blocks, pages and sizes",
  "No existing test includes a file of inc/, although these are the programs the assembler exists for; they need define, macro, eval, .addinstr and .org features together.",
  ["inc/", "preop.cpp", "storage.cpp", "utils.cpp", "directive.cpp", "pass_one.cpp"],
  [("shipped files", "inc/app.inc, inc/relocate.inc, inc/z80ext.inc, inc/ti83plus.inc, inc/ti84pce.inc"), ("macros and defines", "preop.cpp handle_preop, utils.cpp parse_args/expand_expr"), ("instructions added", "opcodes.cpp/directive.cpp .addinstr")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties")
