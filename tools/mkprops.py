#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b} for a, b in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    return d


EV, EX = "src/parser/eval.c", "src/parser/expression.c"
CG, TT = "src/backend/x86_64/compile.c", "src/parser/typetree.c"
PROPS = [
p("C01", "Integer expressions have the value, type and effects C gives them",
  "For every integer expression whose evaluation is defined, the compiled program computes the value and type that C's integer types on x86_64 prescribe (promotions, usual arithmetic conversions, truncation, signedness, shifts, comparisons, conversion to _Bool, bit-fields), and performs exactly its side effects, in every context an expression can appear in. "
  "Operands that C does not evaluate (the other side of && || ?:, sizeof operands) have no effect. This holds whatever kind of object the operands live in and in every code generation mode.",
  ["programs", "inputs", "configurations"],
  "all defined integer expressions over all integer types, operators, operand storage kinds, contexts, and code generation modes",
  "The tests have some hundred fixed expressions; operand kind, width, signedness, constant or not, and context multiply to far more instruction selection paths than they reach.",
  [EV, EX, CG, TT], [("typed evaluation of operators", "src/parser/eval.c eval_*"), ("instruction selection", "src/backend/x86_64/compile.c compile_*"), ("integer promotion and conversion", "src/parser/typetree.c usual_arithmetic_conversion")],
  observe=["output of the compiled program"]),
p("C02", "Constant expressions evaluate as the same expression would at run time",
  "A constant expression gives the same value and type wherever C allows one (array sizes, enumerators, case labels, bit-field widths, static initializers, _Static_assert, and #if with the preprocessor's integer types), and that value is the one C prescribes, also for the same expression computed at run time from variables. "
  "Address constants denote the address of the named object plus the exact offset.",
  ["programs", "inputs"],
  "all constant expressions over integer, floating and address constants, in all contexts that require one",
  "Tests use a few constants; folding has a separate path for every operator, type and signedness, and another one in the preprocessor.",
  [EV, "src/preprocessor/directive.c", "src/parser/initializer.c", "src/parser/statement.c", "src/parser/declaration.c"],
  [("constant folding", "src/parser/eval.c eval_immediate_compare, imm_signed, convert"), ("#if evaluation", "src/preprocessor/directive.c expression"), ("constant_expression", "src/parser/expression.c")]),
p("C03", "Floating-point arithmetic and conversions follow IEEE 754 and C",
  "Arithmetic, comparison, negation, and truth tests on float, double and long double, and conversions among them and to and from every integer type, give bit for bit the result of the x86_64 ABI's formats under round-to-nearest, including signed zeros, infinities, NaN, subnormals and 64-bit unsigned extremes. "
  "Floating constants have the nearest representable value of their type, and folding a constant gives the result the run-time operation gives.",
  ["programs", "inputs"],
  "all operand values of all floating types, all conversions, constant or not, in all contexts and modes",
  "Tests print a few results; NaN, signed zero, large unsigned and long double paths each have their own instruction sequences.",
  [CG, EV, "src/preprocessor/tokenize.c"], [("SSE and x87 code", "src/backend/x86_64/compile.c load_cast, compile_compare, set_compare_value, x87"), ("long double constants", "include/lacc/type.h, src/parser/eval.c get_long_double"), ("floating literals", "src/preprocessor/tokenize.c")]),
p("C04", "Control flow and evaluation order follow the abstract machine",
  "A program without undefined or unspecified behaviour executes its statements, loops, switches, gotos, calls and recursion so that the sequence of observable effects is the one of C's abstract machine. "
  "This holds for any nesting of control structures, any jump into or out of blocks, and any mix of constant and computed conditions.",
  ["programs", "histories", "configurations"],
  "all well-defined programs built from nested statements, jumps, switches with arbitrary labels, function calls and recursion",
  "The tests fix one nesting each; wrong edges in the control flow graph show only for particular combinations of nesting, jumps and constant conditions.",
  ["src/parser/statement.c", EX, "src/parser/parse.c", CG], [("control flow graph construction", "src/parser/statement.c"), ("short circuit and conditional operators", "src/parser/expression.c logical_*, conditional_expression"), ("block layout and jumps", "src/backend/x86_64/compile.c compile_block")]),
p("C05", "Objects, pointers and aggregates: every access reaches its object",
  "Reads and writes through any lvalue path (members, array elements, pointers, unions, bit-fields, struct assignment and struct values of any size, variable length arrays) change exactly the object named and no other byte of memory. "
  "Pointer arithmetic, differences and comparisons are those of the element type, and string literals and compound literals designate distinct, correctly initialized objects.",
  ["programs", "histories", "inputs"],
  "all declared types, access paths, access sequences, and object placements (automatic, static, thread of pointers)",
  "Struct sizes, alignments, bit-field positions and path shapes are unbounded; tests cover a fixed list and rarely look at the neighbouring bytes.",
  [EV, EX, CG, TT], [("address and dereference algebra", "src/parser/eval.c eval_addr, eval_deref, eval_add, access_member"), ("object copy and bit-field access", "src/backend/x86_64/compile.c emit_memcpy, store_op, load_field")]),
p("C06", "Types have the sizes, alignments and layout of the x86_64 System V ABI",
  "For every type that can be declared, sizeof, alignment and the position of every member, array element and bit-field equal those of the platform ABI as implemented by gcc, so that data is interchangeable with separately compiled code. "
  "A declarator of any complexity declares the type C gives it, and compatible redeclarations form the composite type.",
  ["programs", "inputs"],
  "all types built from scalars, arrays, pointers, functions, structs, unions, anonymous members, flexible arrays and bit-fields, spelled by any declarator",
  "Tests look at a handful of structs; layout depends on the whole sequence of members.",
  [TT, "src/parser/declaration.c", "src/parser/symtab.c"], [("member placement", "src/parser/typetree.c type_add_member, type_add_field, pack_field_member"), ("declarator parsing", "src/parser/declaration.c declarator")]),
p("C07", "Calls interoperate with other compilers following the calling convention",
  "A function compiled by lacc and a function compiled by another compiler of the x86_64 System V ABI can call each other with any parameter and return types, including structs and unions by value, long double, _Bool and narrow integers, pointers to functions, more arguments than registers, and variable argument lists, and each side receives the exact values the other passed. "
  "Callee-saved registers and the stack are preserved across every call.",
  ["programs", "inputs", "configurations"],
  "all function signatures and argument values, in both directions, with direct, indirect and variadic calls",
  "Signatures are unbounded and classification of aggregates is recursive; tests pass a few fixed structs and rarely cross compilers.",
  ["src/backend/x86_64/abi.c", CG, "src/parser/builtin.c"], [("parameter classification", "src/backend/x86_64/abi.c classify"), ("call and return sequences", "src/backend/x86_64/compile.c call, ret, va_arg")]),
p("C08", "Initialized objects hold exactly the values their initializer specifies",
  "For any object type and any valid initializer (nested or brace-elided lists, designators in any order, overriding, string literals, struct expressions, address constants, compound literals), every member and element has the value C assigns to it, and everything not mentioned is zero. "
  "The result is the same for static and automatic storage.",
  ["programs", "inputs"],
  "all types and all forms of initializers for static, automatic and compound literal objects",
  "The combination of type tree, brace elision, designators and overriding is unbounded; tests fix some dozens.",
  ["src/parser/initializer.c", CG], [("initializer tree walk", "src/parser/initializer.c"), ("data emission", "src/backend/x86_64/compile.c compile_data")]),
p("C09", "Optimization never changes what a program does",
  "Compiling at -O1, -O2 or -O3 gives a program with the same observable behaviour as at -O0, for every program with defined behaviour. "
  "In particular no store that is read later, through whatever pointer, by whatever callee or in whatever iteration, is removed.",
  ["programs", "configurations"],
  "all well-defined programs and optimization levels, in particular loops, aliasing through pointers, escaping addresses, many variables and merges of control flow",
  "Liveness and merging are whole-function analyses; wrong results need a certain shape of control flow and aliasing, and tests run at few of them.",
  ["src/optimizer/liveness.c", "src/optimizer/optimize.c", "src/optimizer/transform.c"], [("liveness analysis", "src/optimizer/liveness.c"), ("dead store elimination and merging", "src/optimizer/transform.c")]),
p("C10", "All output forms and code generation options describe the same program",
  "The object file written by -c contains the same instructions, data, relocations and symbols as assembling the text written by -S, and compiling the text written by -E gives the same object as compiling the source. "
  "-g, -v and warning options do not change the generated code, and -f[no-]PIC changes only how symbols are addressed, not what the program does.",
  ["programs", "configurations"],
  "all programs and all combinations of output form and code generation options",
  "Each instruction form has a textual and a binary encoder that can differ for certain registers, displacements or immediates; tests run each program, mostly without comparing the two.",
  ["src/backend/x86_64/encoding.c", "src/backend/x86_64/assemble.c", "src/backend/x86_64/elf.c", "src/preprocessor/preprocess.c"],
  [("binary encoding", "src/backend/x86_64/encoding.c"), ("assembly text", "src/backend/x86_64/assemble.c"), ("relocations", "src/backend/x86_64/elf.c"), ("preprocessed output", "src/preprocessor/preprocess.c, tokenize.c stringify")]),
p("C11", "Macro expansion yields the token sequence the standard prescribes",
  "For every set of macro definitions and every text, preprocessing yields the token sequence that the C standard's rules for replacement, argument pre-expansion, rescanning, # and ##, variable arguments, and non-recursive expansion determine. "
  "Distinct tokens stay distinct when the result is printed and read again.",
  ["inputs", "programs"],
  "all sets of object-like, function-like and variadic macro definitions and all invocations, nested to any depth and over any layout",
  "Expansion order and painting of disabled names interact; tests have some dozen macros.",
  ["src/preprocessor/macro.c", "src/preprocessor/preprocess.c"], [("expansion", "src/preprocessor/macro.c expand"), ("argument collection", "src/preprocessor/preprocess.c")]),
p("C12", "Directives and command line select exactly the text that applies",
  "For any nesting of conditionals, definitions and undefinitions, inclusions, #line, and any order of -D, -I, -include and related options, exactly the lines whose conditions hold are compiled, from the files the search order determines, with __LINE__ and __FILE__ reporting their position. "
  "Skipped groups have no effect whatever they contain.",
  ["inputs", "histories", "configurations"],
  "all sequences of directives across files, and all option lists",
  "The state (condition stack, macro table, include stack) evolves over arbitrary histories of directives; tests fix short ones.",
  ["src/preprocessor/directive.c", "src/preprocessor/input.c", "src/lacc.c"], [("condition stack", "src/preprocessor/directive.c"), ("include search and line tracking", "src/preprocessor/input.c"), ("options", "src/lacc.c")]),
p("C13", "Source text becomes the tokens and literals the standard defines",
  "Any sequence of characters that forms valid tokens is split into them by the longest match after trigraph replacement, line splicing and comment removal, and every integer, floating, character and string literal, with any escape sequence, prefix-concatenation or suffix, denotes the value and type C defines. "
  "Layout (whitespace, comments, splices, long lines, line endings) does not change the meaning of a program.",
  ["inputs", "programs"],
  "all token sequences and literals, all layouts, any length of line, identifier, string or comment",
  "The space of spellings and layouts is unbounded, in particular where splices, buffers or comments fall inside tokens.",
  ["src/preprocessor/tokenize.c", "src/preprocessor/input.c", "src/preprocessor/strtab.c", "src/util/string.c"], [("tokenizer", "src/preprocessor/tokenize.c"), ("line assembly", "src/preprocessor/input.c"), ("string interning", "src/preprocessor/strtab.c, src/util/string.c")]),
p("C14", "Names have the scope, linkage and storage the standard gives them",
  "For any set of translation units, each identifier refers to the declaration its scope and name space select, objects and functions have the linkage and definition (tentative, extern, static, inline) C prescribes, static locals are distinct and persistent, and separately compiled units, by lacc or by another compiler, link into a program with the behaviour of the whole. "
  "The symbol table of an object file lists exactly those symbols, with right binding, kind, section and size.",
  ["programs", "configurations"],
  "all sets of declarations over several scopes and translation units, all mixes of compilers and PIC modes",
  "Linkage depends on the whole history of declarations of a name; tests have few multi-file cases.",
  ["src/parser/symtab.c", "src/parser/declaration.c", "src/backend/x86_64/elf.c", "src/backend/linker.c"], [("scopes and declaration merging", "src/parser/symtab.c sym_add"), ("symbol emission", "src/backend/x86_64/elf.c"), ("link step", "src/backend/linker.c")]),
p("C15", "Invalid programs are rejected with a diagnostic and a failing exit status",
  "A translation unit that violates a syntax rule or constraint lacc diagnoses (undeclared names, wrong types, duplicate definitions and labels, misplaced statements, unbalanced directives, failed assertions) makes lacc exit with a non-zero status and report an error that names the file and the line of the violation, wherever it stands in an otherwise valid program. "
  "It never yields a crash, a hang or a zero exit status, and a valid program is never rejected because of it.",
  ["programs", "inputs"],
  "all single violations of the listed kinds planted at any place in any valid program",
  "Tests of errors exist for few cases, at one place each; what matters is every context in which the violation can stand.",
  ["src/context.c", "src/parser", "src/preprocessor", "src/lacc.c"], [("error counting", "src/context.c error"), ("exit status", "src/lacc.c main")]),
p("C16", "The compiler itself is free of memory errors on any program it accepts",
  "While preprocessing, compiling, optimizing and emitting any valid program, of any size, with any options, lacc accesses only memory it owns, reads no uninitialized or freed storage, executes no undefined operation that affects its result, and fails no internal assertion. "
  "Growth of any internal table (identifiers, types, macros, lines, blocks, symbols, relocations) keeps earlier entries valid.",
  ["programs", "inputs", "configurations"],
  "all valid programs and inputs, in particular ones that exceed the initial capacity of internal tables, under AddressSanitizer and UndefinedBehaviorSanitizer",
  "Memory errors are silent in ordinary runs and depend on sizes and on when tables grow.",
  ["src/util/hash.c", "src/util/string.c", "include/lacc/array.h", "src/parser/parse.c", "src/parser/symtab.c", "src/preprocessor"], [("growing arrays", "include/lacc/array.h"), ("hash tables", "src/util/hash.c"), ("token and line buffers", "src/preprocessor/input.c, tokenize.c")]),
p("C17", "Compilation is a deterministic function of the source and the options",
  "Compiling the same input with the same options gives byte-identical output whatever was compiled before in the same invocation, whatever the environment, address layout or working directory, and whether output goes to a file or to standard output. "
  "Several files given in one invocation yield the outputs of separate invocations.",
  ["histories", "programs", "configurations"],
  "all sequences of files compiled in one invocation, and all environments",
  "All state is static and survives from one file to the next; tests compile one file per run.",
  ["src/lacc.c", "src/context.c", "src/parser/symtab.c", "src/preprocessor/macro.c", "src/backend"], [("per file setup and teardown", "src/lacc.c process_file"), ("static tables", "src/parser, src/preprocessor, src/backend")]),
p("C18", "The self-compiled compiler behaves exactly like the bootstrap compiler",
  "lacc compiled by lacc, at any optimization level and in further generations, produces byte-identical output and diagnostics to the compiler built by the host compiler, for every input. ",
  ["programs", "configurations"],
  "all inputs, valid or not, and all compiler generations and optimization levels used to build lacc",
  "Self-hosting is only tested on the test programs; a miscompiled rare path of the compiler shows only on inputs that reach it.",
  ["src", "Makefile", "test/Makefile"], [("the whole compiler as input", "src"), ("bootstrap and selfhost stages", "test/Makefile")]),
p("C19", "Messages name their place in the source; debug information describes the unit",
  "Every warning and error names the presumed file and line of the construct it is about, through macros, comments, line continuations, included files, "
  "skipped groups and #line: each construct warned about is reported exactly once, in the order of the source, and nothing else is; -w silences all warnings and changes nothing else. "
  "With -g the object has valid DWARF information, whose one compile unit states the name of the file as given, the language, and the address range of exactly the code of the unit, alone and linked "
  "with other units, and the code, data, symbols and relocations are those made without -g.",
  ["programs", "inputs"],
  "all layouts of statements over lines, splices, macros, included files and #line directives; all programs and combinations of units",
  "Tests do not look at debug information; positions depend on all of the layout before them.",
  ["src/backend/x86_64/dwarf.c", "src/backend/x86_64/elf.c", "src/preprocessor/input.c", "src/context.c"], [("compile unit", "src/backend/x86_64/dwarf.c"), ("current line", "src/preprocessor/input.c")]),
p("C20", "Inline assembly operands are read, written and clobbered as declared",
  "For every asm statement with supported constraints, inputs reach the template in the operand they are bound to, outputs are stored to the C object they name, tied and named operands and asm goto labels refer to the right entities, and clobbered registers do not disturb surrounding values. "
  "The same template gives the same instructions in -S and -c mode.",
  ["programs", "configurations"],
  "all combinations of operand kinds, constraints, widths, clobbers and templates over supported instructions, amid live values",
  "Operand allocation depends on all operands and on what is live; tests have about ten templates.",
  ["src/parser/statement.c", "src/backend/x86_64/assembler.c", "src/backend/x86_64/assemble.c", CG], [("operand parsing", "src/parser/statement.c asm_statement"), ("template assembly", "src/backend/x86_64/assembler.c"), ("allocation and write back", "src/backend/x86_64/compile.c")]),
]

CHECKS = {
    'C19': ('property-based testing: generated layouts with constructs at known places (model of positions), and metamorphic comparison of units compiled with and without -g, with llvm-dwarfdump and readelf as oracles', 'lacc has no line table; -g gives a compile unit only'),
    'C13': ('property-based testing: generated literals (differential against gcc), layout rewriting (metamorphic: same code from the same tokens), glued token sequences (differential -E)', 'digraphs, wide and multi-character literals are not supported by lacc and not generated'),
    'C20': ('property-based testing: generated asm statements with operands in C code, differential execution against gcc and clang; generated instructions, differential assembly against GNU as', 'asm statements over 12 kinds of objects, constraints r, m, rm, a-D with all modifiers, names, clobbers, pointers in addresses, asm goto; 75 instruction classes over all registers, widths and address forms'),
    'C18': ('differential testing of self-compiled generations of lacc against the host-built compiler on generated inputs, byte for byte', 'six generations (optimization levels, amalgamated and separate, with and without -fPIC, through -S); outputs, messages and exit status, on inputs of every other generator and on the sources of lacc'),
    'C17': ('metamorphic testing: generated histories of files in one invocation against separate invocations, and repeated compilation under perturbed environments, byte for byte', 'inputs of every other generator, valid and invalid, in all forms of output; heap contents, environment, ASLR, directory, output name, stale output, stack size'),
    'C16': ('property-based fuzzing of the compiler under AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer with generated programs and inputs sized around table capacities', 'inputs of every other generator, and files extreme in one to three of 48 dimensions around powers of two; every output form and option'),
    'C14': ("property-based testing: differential execution of generated multi-unit programs with mixed compilers, and comparison of symbol tables with gcc's", 'programs of 1-4 units over at most eight names in all scopes and name spaces; static and shared linking'),
    'C15': ('property-based testing: planted violations in random contexts with valid twins (metamorphic) against a line oracle; token-mutation fuzzing for crashes', 'places a violation of ~220 kinds at random in a random program; gcc -pedantic-errors confirms the violation and the twin'),
    'C12': ('differential property-based testing of generated file trees and command lines against gcc -E, with shrinking', 'Random include trees, conditionals, #line, -D/-I/-isystem/-include; tokens of lacc -E have to equal those of gcc -E'),
    'C11': ('property-based testing: generator of macro definitions and uses, differential of token sequences against gcc -E and clang -E, and of compiled stringifications against gcc', 'Random search over definitions and texts; token sequences compared wherever the two reference preprocessors agree.'),
 "C07": ("property-based testing: signature generator, differential between lacc, gcc and clang on both sides of calls, with a trampoline that checks register and stack invariants", "Random search over function signatures, types and calls spread over two translation units compiled by different compilers."),
 "C08": ("property-based testing: initializer generator with designators, elided braces, strings, struct values and unions; differential against gcc and clang", "Random search over object types and initializers, every reachable member compared."),
 "C09": ("property-based testing: generator of small data-flow shapes (dead, aliased, escaped, copied variables), metamorphic relation between -O0 and -O1/-O2/-O3", "Random search; the program at -O0 is the oracle."),
 "C10": ("property-based testing: metamorphic relations between -c, -S with as, -E, -g and -fPIC on generated programs, compared instruction by instruction after normalisation", "Random search over generated programs and option sets."),
 "C05": ("property-based testing: access-path generator over guarded objects, differential against gcc", "Random search over sequences of reads and writes through lvalue paths; all leaves of all objects and guard bytes are dumped and compared with gcc."),
 "C04": ("property-based testing: whole-program generator, differential against gcc with clang and sanitizers as arbiters", "Random search over programs without undefined behaviour by construction; traces compared with gcc in all code generation modes."),
 "C06": ("property-based testing: type and declarator generator, differential against gcc", "Random search over types; every size, alignment, offset, stride and bit-field position measured is compared with gcc's."),
 "C03": ("property-based testing: typed floating expression generator against an exact IEEE/x87 value model and gcc", "Random search over float, double and long double programs, their conversions and literals, compared bit for bit with a model and with gcc."),
 "C02": ("property-based testing: constant expression generator against an exact value model, gcc, and the same expression over variables", "Random search over constant expressions, their contexts, #if conditions and address constants. Trusts gcc, clang and the sanitizers to filter undefined cases."),
 "C01": ("property-based testing: typed expression generator against an exact value model and gcc", "Random search: thousands of generated programs per run, each compared in one or more code generation modes with a model and with gcc. Trusts gcc, clang and the sanitizers to filter undefined cases."),
}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in PROPS:
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d in PROPS:
        i = d["id"]
        if i in CHECKS and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            tech, note = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "python3 run_check.py %s --tier quick" % i,
                           "thorough_cmd": "python3 run_check.py %s --tier thorough" % i,
                           "technique": tech, "level": "exploration", "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 run_check.py --selftest",
                   "checks": checks, "not_applicable": na,
                   "notes": "Checks are generated-input searches; see DESIGN.md. Repairs of genuine defects are the 'fix:' commits in /repo, listed in known_findings.json."}, f, indent=1)
        f.write("\n")


NA = {}
if __name__ == "__main__":
    main()
