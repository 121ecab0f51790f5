#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mkprops.py)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe,hook_needed=hook)))

p("C01","Integer expressions evaluate to the values C defines",
 "For every integer expression without undefined behaviour, over any mix of _Bool, char, short, int, long, long long and their unsigned forms, at any nesting depth and for any run-time operand values, the compiled program computes exactly the value C defines (usual conversions, truncation, sign extension, shifts, division, comparison, logical operators). This holds whether operands are variables, memory, constants or call results.",
 ["inputs","programs"],"all integer expressions x operand values x operand storage classes",
 "test/arith.c, usualconv.c, imm_arith_opt.c sample a few hundred expressions; instruction selection depends on operand shape, register pressure and immediate value, whose product is unbounded",
 ["codegen.c","type.c","parse.c"],
 [("instruction selection and immediate/memory operand optimisations","codegen.c gen_expr2, gen_expr_opt, gen_gp_opt, imm_arith, divmod_opt, gen_cmp_opt_gp, bool_expr_opt"),("integer conversions","codegen.c gen_cast, type.c usual_arith_conv, is_redundant_cast")],
 ["stdout event log of compiled programs","reference value model"])
p("C02","Compile-time evaluation agrees with run-time evaluation",
 "Wherever an arithmetic expression is evaluated at compile time (static initialisers, array bounds, enumerators, case labels, bit-field widths, static assertions, constexpr objects, folded subexpressions, #if), the result equals the value C defines for that expression, i.e. the value the same expression yields when its operands are only known at run time. This includes the expression's type, floating-point subexpressions, address constants with offsets, and unevaluated or short-circuited operands.",
 ["inputs","programs"],"all constant expressions of integer, floating and address type in every constant context",
 "tests check specific constants; folding is a second evaluator that must agree with codegen for every operator, type and value",
 ["parse.c","type.c","preprocess.c"],
 [("constant evaluator","parse.c eval2, eval_double, eval_sign_extend, eval_fp_cast, is_const_expr"),("#if evaluator","preprocess.c eval_const_expr")],
 ["memory images of initialised objects","program event log"])
p("C03","Floating-point arithmetic and conversions are bit-exact",
 "Every float, double and long double operation, comparison, truth test, negation and conversion (between floating types and to and from every integer type) yields bit for bit the IEEE/x87 result C defines, for all representable finite, infinite, NaN, signed-zero and subnormal operands for which the operation is defined.",
 ["inputs","programs"],"all operand bit patterns x operators x type pairs x expression shapes",
 "float.c and float2.c use a handful of ordinary values; conversions such as uint64 to double have value ranges with separate code paths",
 ["codegen.c","parse.c"],
 [("cast table","codegen.c cast_table, gen_cast, getTypeId"),("fp arithmetic and x87 stack handling","codegen.c gen_expr2, push_x87, pop_x87, gen_cmp_zero, load_fval")],
 ["bit patterns printed by compiled programs"])
p("C04","Control flow follows the C abstract machine",
 "For every combination of if, loops, switch (with ranges, fall-through, any controlling type and any label values), goto, computed goto, labelled break/continue, conditional and logical operators and statement expressions, the sequence of side effects executed is exactly the one the C abstract machine prescribes for the given input.",
 ["inputs","programs"],"all statement nestings x inputs",
 "control.c checks a fixed list of shapes; jump targets and short-circuit inversions depend on nesting",
 ["codegen.c","parse.c"],
 [("statement generation","codegen.c gen_stmt, gen_cond, gen_logical; parse.c stmt, label_stmt, resolve_labeled_jump, loop_body")],
 ["ordered event log of executed checkpoints"])
p("C05","Struct, union and bit-field layout matches the platform ABI",
 "For every struct or union type, including nested, anonymous, packed, over-aligned, flexible-array, bit-field and zero-width bit-field members, sizeof, alignof, offsetof and the exact bits each member access reads or writes equal those of the System V x86-64 ABI as implemented by GCC/Clang. A store to one member changes no bit outside that member and loads return the stored value converted to the member's type.",
 ["programs","inputs"],"all aggregate types x member accesses x stored values",
 "bitfield.c and struct.c check a few layouts; layout is a function of the member sequence and attributes",
 ["parse.c","codegen.c"],
 [("layout","parse.c struct_members, struct_decl, union_decl"),("bit-field access","codegen.c gen_bitfield_load, gen_bitfield_store")],
 ["byte images of objects before and after each access"])
p("C06","Calls are ABI-compatible with code built by other compilers",
 "For every function type, including variadic ones and struct/union/long double parameters and returns of any size and alignment, a call between a function compiled here and one compiled by another conforming System V x86-64 compiler, in either direction and through pointers, transfers every argument and the return value intact and preserves callee-saved registers and stack alignment. va_arg, va_copy and va_end retrieve exactly the arguments passed, in order.",
 ["programs","inputs"],"all signatures x argument values x caller/callee compiler pairs",
 "function.c and varargs.c exercise a fixed set of signatures against host/common.c",
 ["codegen.c","parse.c"],
 [("argument classification and passing","codegen.c calling_convention, has_flonum, place_reg_arg, gen_funcall_args, gen_funcall, copy_struct_reg, copy_struct_mem, copy_ret_buffer"),("varargs","codegen.c gen_vaarg_reg_copy, emit_text")],
 ["byte images of arguments recorded on the callee side"])
p("C07","Initialisers give every object exactly the specified contents",
 "For every object type and initialiser (nested braces, elided braces, designators, ranges, overriding entries, strings, compound literals, bit-fields, address constants, flexible arrays, constexpr) every element gets the last value specified for it and all others are zero. Static and automatic objects with the same initialiser end up with identical values, and inferred array lengths are correct.",
 ["programs","inputs"],"all types x initialiser spellings x storage durations",
 "initializer.c lists particular initialisers; designator/brace-elision resolution is recursive over arbitrary types",
 ["parse.c","codegen.c"],
 [("initialiser parsing","parse.c initializer2, designation, braced_initializer, list_initializer, count_array_init_elements, string_initializer"),("emission","parse.c write_gvar_data, create_lvar_init; codegen.c emit_data, ND_INIT_AGG")],
 ["element dump of initialised objects"])
p("C08","Simultaneously live local objects never share or lose storage",
 "At every point of every execution each live automatic object (scalars, aggregates, over-aligned locals, VLAs, alloca blocks, compound literals, parameters, temporaries holding call results) occupies suitably aligned storage disjoint from every other live object and from the caller's frame, and keeps its value until written. VLA storage is reclaimed when its scope is left by any path (in functions that do not themselves call alloca or take label addresses), so loops run in bounded stack, while alloca storage lives until the function returns.",
 ["programs","inputs","configurations"],"all scope nestings and exits x stack-reuse settings",
 "stack_reuse.c, vla_dealloc.c and alloca.c check a few frames; frame assignment depends on the whole scope tree",
 ["codegen.c","parse.c"],
 [("frame layout","codegen.c assign_lvar_offsets, get_lvar_align, push_tmpstack, emit_text"),("VLA and alloca","codegen.c builtin_alloca, gen_defr; parse.c new_vla, compute_vla_size, leave_block_scope")],
 ["canary contents, object addresses and stack pointer samples logged at run time"])
p("C09","Deferred and cleanup actions run exactly once, in reverse order",
 "On every path out of a scope (fall-through, break, continue, goto, labelled jumps, return from any depth, switch jumps, loop iteration) exactly the cleanup-attribute functions and defer statements that were reached in the scopes being left run, each once, innermost and latest first, after the value of a return expression has been computed. No action runs for a declaration or defer that was not reached (jumps into a scope past one excluded).",
 ["programs","inputs"],"all nestings of scopes, registrations and exits",
 "defer.c and attr_cleanup.c cover fixed nestings",
 ["parse.c","codegen.c"],
 [("defer chain","parse.c new_block_scope, leave_block_scope, defr_cleanup, resolve_goto_labels, loop_body; codegen.c gen_defr")],
 ["ordered event log of cleanup executions against an interpreter"])
p("C10","Every expression has the type C assigns to it",
 "For every expression, the type as observed through _Generic, sizeof, typeof, typeof_unqual, auto inference, compatibility builtins and the signedness of its use is the one the C standard and the platform prescribe: promotions, usual arithmetic conversions, bit-fields, pointers, arrays, functions, conditional operators, qualifiers and literals. _Generic selects the association whose type is compatible, or default.",
 ["programs"],"all operand type pairs x operators x type queries",
 "generic.c, usualconv.c, typeof.c list individual pairs",
 ["type.c","parse.c"],
 [("typing","type.c add_type, get_common_type, int_promotion, is_compatible"),("type queries","parse.c generic_selection, typeof_specifier, primary")],
 ["type codes printed by compiled programs"])
p("C11","Literals denote exactly the specified values and types",
 "Every integer (any base, suffix, digit separators), floating (decimal, hexadecimal), character and string literal (all escapes, prefixes, universal character names where enabled, UTF-8 source text, adjacent concatenation of mixed prefixes) yields exactly the value, element encoding, length and type the language defines on this platform.",
 ["inputs","programs"],"all literal spellings",
 "literal.c, string.c and unicode.c hold a fixed list of spellings",
 ["tokenize.c","unicode.c","preprocess.c","parse.c"],
 [("literal reading","tokenize.c read_string_literal, read_utf16_string_literal, read_utf32_string_literal, read_char_literal, read_escaped_char, convert_pp_number"),("UTF-8","unicode.c decode_utf8, encode_utf8"),("concatenation","preprocess.c join_adjacent_string_literals")],
 ["values, sizes and bytes printed by compiled programs"])
p("C12","Atomic operations are indivisible and return the right values",
 "For every atomic object of integer, pointer, floating or bool type, concurrent use of atomic loads, stores, exchanges, compare-exchanges, fetch-and-op functions and compound assignment/increment on _Atomic lvalues behaves as some sequential order of the operations: no update is lost or duplicated, a failed compare-exchange reports the value found, and each operator yields the value C specifies.",
 ["schedules","programs","inputs"],"all interleavings of threads x operations x types",
 "atomic.c runs one or two counters once; lost updates need particular interleavings and types",
 ["codegen.c","parse.c","include/stdatomic.h"],
 [("atomics","parse.c atomic_op, to_assign; codegen.c ND_CAS, ND_EXCH; include/stdatomic.h")],
 ["per-thread operation histories of real threads"])
p("C13","Thread-local objects are private, initialised and consistently addressed",
 "Every thread sees its own copy of each thread-local object, starting from the declared initial value in every thread, at a stable suitably aligned address, for all linkages (static, extern, block scope, weak/common combinations), sizes and initialisers. This holds in executables, PIE, static and shared-library builds and across objects built by other compilers.",
 ["schedules","configurations","programs"],"all declarations x code models x thread counts",
 "tls.c checks a few variables in one link mode",
 ["codegen.c","parse.c"],
 [("TLS addressing and emission","codegen.c gen_addr, emit_data")],
 ["per-thread value and address logs"])
p("C14","Inline assembly receives its operands and disturbs nothing else",
 "For every extended asm statement, each operand substitution names a location holding the operand's value before the template and delivering its value after it, per its constraints (register classes, fixed registers, memory, immediate, matching, read-write, early-clobber, flag outputs, symbolic names, size modifiers, asm goto). No variable, callee-saved register, or value not listed as output or clobber changes as seen by surrounding code.",
 ["programs","inputs"],"all combinations of operand count, constraint, type, size and clobber list",
 "inline_asm.c has a fixed set of statements; register assignment is a search over the combination",
 ["codegen.c","parse.c"],
 [("operand assignment","codegen.c asm_constraint, asm_assign_oprands, prepare_inline_asm, asm_push_clobbers, gen_asm, asm_outputs")],
 ["values of outputs, canary variables and callee-saved registers"])
p("C15","Symbols have the linkage, binding, section and visibility declared",
 "For every set of file- and block-scope declarations and definitions, the object file defines and references exactly the symbols C and the GNU attributes prescribe, with correct binding, visibility, section, type, size and alignment: static, extern, inline variants, tentative and common definitions, weak, alias, asm names, sections, constructors and destructors in priority order. A function that is referenced directly or transitively is always emitted, so accepted programs never fail to link for a missing internal definition.",
 ["programs","configurations"],"all declaration sequences x emission options",
 "commonsym.c, extern.c, attribute.c and the driver script check some symbols",
 ["parse.c","codegen.c"],
 [("declaration merging and liveness","parse.c global_declaration, func_prototype, func_definition, mark_fn_live, symbol_attr, func_attr"),("emission","codegen.c emit_symbol, emit_data, emit_cdtor, emit_text")],
 ["object symbol tables, linked program event log"])
p("C16","Code-generation options never change program meaning",
 "For every well-defined program, the output and exit status are the same under every combination of code-generation options (optimisation level, PIC/PIE/non-PIC, function/data sections, common, stack reuse, debug info, visibility, language standard) and equal to the result the C standard defines.",
 ["programs","configurations"],"all programs x option combinations",
 "tests run with one option set",
 ["codegen.c","main.c","parse.c"],
 [("option-dependent paths","codegen.c use_rip, gen_addr, gen_expr_opt, assign_lvar_offsets, print_loc; main.c parse_args")],
 ["stdout and exit status of the same program under many configurations"])
p("C17","Names resolve to the innermost visible declaration",
 "For every program, each ordinary identifier, tag, label, member, typedef and enumerator refers to the declaration C scoping makes visible at that point, regardless of how many names are declared, shadowed, redeclared or share prefixes, and of the order in which scopes open and close. Separate name spaces never interfere and a name's scope ends exactly with its block, parameter list or for-statement.",
 ["programs","histories"],"all scope/declaration histories",
 "decl.c and variable.c shadow a few names",
 ["parse.c","hashmap.c"],
 [("scopes","parse.c enter_scope, leave_scope, find_var, find_tag, push_scope"),("hash table","hashmap.c get_entry, get_or_insert_entry, rehash")],
 ["values identifying the declaration each use resolved to"])
p("C18","Assignments and updates change exactly the designated object, once",
 "For every lvalue (variable, member, element, dereference, bit-field, compound literal) and every assignment, compound assignment or pre/post increment, operand side effects happen exactly once, only the designated object changes, it receives the converted value, and the expression yields the value C prescribes. Copying aggregates of any size reproduces the source byte for byte and touches nothing outside the destination, and pointer arithmetic and differences scale correctly.",
 ["programs","inputs"],"all lvalue forms x update operators x types x sizes",
 "pointer.c, postfix_inc_dec.c, struct.c sample a few; special-cased code paths exist per lvalue form, size and whether the result is used",
 ["codegen.c","parse.c"],
 [("stores and copies","codegen.c store3, gen_mem_copy2, gen_void_arith_assign, gen_void_assign, memop_arith"),("lowering","parse.c to_assign, new_inc_dec, new_add, new_sub")],
 ["side-effect counters, canaries and object images"])
p("P01","Macro expansion yields the token sequence C prescribes",
 "For every set of object-like and function-like macro definitions and every invocation, the preprocessed token sequence is the one the C standard prescribes (argument pre-expansion, # and ##, placemarkers, rescanning with self-reference suppression, __VA_ARGS__, __VA_OPT__, the GNU comma extension, invocations spanning lines and containing directives, #define/#undef histories). Expansion always terminates.",
 ["programs","inputs","histories"],"all macro sets x invocations",
 "macro.c and macro_*.c check particular expansions",
 ["preprocess.c","hashmap.c","tokenize.c"],
 [("expansion","preprocess.c expand_macro, subst, paste, stringize, push_macro_lock, pop_macro_lock, prepare_funclike_args, insert_objlike, insert_funclike")],
 ["-E token stream, and values of stringised expansions in compiled programs"])
p("P02","Exactly the active source text is compiled",
 "For every nesting of #if/#ifdef/#ifndef/#elif/#elifdef/#elifndef/#else/#endif and every #include, #include_next, -include, #pragma once and include-guarded header over any directory layout and -I/-isystem/-idirafter options, the text that reaches the compiler is exactly the text the standard and the documented GCC search order select. Each group is chosen by the value of its condition, and skipped text has no effect.",
 ["programs","configurations","inputs"],"all conditional nestings x file trees x search paths",
 "macro_has_include.c and driver checks cover single cases; guard and search caches depend on inclusion history",
 ["preprocess.c","main.c"],
 [("conditionals","preprocess.c directives, skip_cond_incl, eval_const_expr, read_const_expr"),("search and guards","preprocess.c search_include_paths2, search_include_next, include_file; main.c add_include_path, parse_args")],
 ["sequence of marker tokens in the preprocessed output"])
p("P03","#embed and __has_embed reflect the file's exact bytes",
 "For every file content and every combination of limit, prefix, suffix and if_empty parameters, #embed expands to exactly the first limit bytes of the resource as integer constants with the given surroundings, and __has_embed reports not-found, found or empty accordingly. Text after the directive is unaffected.",
 ["inputs","configurations"],"all file contents and sizes x parameter combinations x search forms",
 "embed.c embeds two fixed files",
 ["preprocess.c"],
 [("embed","preprocess.c embed_file, has_embed_macro, split_paren2, search_include_paths2")],
 ["embedded arrays dumped by compiled programs"])
p("P04","Reported source positions are the true ones",
 "For every token the file and line reported by __LINE__, __FILE__, diagnostics, -E line markers and debug line tables are those of the source text it came from (for expanded tokens, of the macro invocation as written in the source), across line continuations, comments, CR/CRLF line ends, includes, multi-line invocations and #line directives.",
 ["inputs","programs"],"all source layouts",
 "line.c has a few fixed directives; the mapping depends on every preceding newline transformation",
 ["tokenize.c","preprocess.c","codegen.c","main.c"],
 [("line accounting","tokenize.c add_line_numbers, remove_backslash_newline, canonicalize_newline, verror_at_tok; preprocess.c line_macro, file_macro, read_line_marker, preprocess2; codegen.c print_loc")],
 ["__LINE__/__FILE__ values, diagnostics, .loc records"])
p("P05","Compiling -E output is equivalent to compiling the source",
 "For every translation unit, preprocessing with -E (with or without -P) and then compiling the result gives the same program as compiling the source directly: the emitted text re-tokenises to the same token sequence, with no tokens joined, split, lost or reordered and pragmas kept.",
 ["programs","inputs"],"all translation units",
 "the driver script only greps -E output for one word",
 ["main.c","preprocess.c"],
 [("token printing","main.c print_tokens; preprocess.c directives pragma handling, align_token")],
 ["generated assembly of both routes, token sequences"])
p("D01","Compilation outcome is reported truthfully and leaves no debris",
 "For every command line and every failure of an input file, output file, preprocessor, compiler, assembler or linker step (nonzero exit, death by signal, missing tool, unwritable or full output), the driver exits nonzero if and only if some requested output was not fully produced. The requested outputs, and nothing else, appear under the names requested or implied, inputs are never modified, and no temporary file remains after exit.",
 ["fault_sequences","configurations"],"all option/input combinations x fault at each sub-step",
 "the driver script checks successful runs; faults in sub-steps are never injected",
 ["main.c"],
 [("driver","main.c main, run_cc1, run_subprocess, create_tmpfile, cleanup, open_file, replace_extn")],
 ["exit status, file-system diff, temp directory contents, recorded sub-process calls"])
p("D02","Dependency output lists exactly the files the compilation read",
 "For every translation unit and every combination of -M, -MM, -MD, -MMD, -MF, -MT, -MQ, -MP and -o, the dependency rule has the requested target and file name and lists each file the preprocessor included, once each and no others (system headers excluded exactly with the -MM forms). The rule is valid make syntax whose quoting make resolves back to the requested target.",
 ["programs","configurations"],"all include graphs x dependency options",
 "driver checks use one include of a fixed header",
 ["main.c","tokenize.c"],
 [("dependency printing","main.c print_dependencies, quote_makefile; tokenize.c add_input_file")],
 ["dependency file parsed and compared with the known include graph and with make's view"])
p("D03","Options reach the tool they address, in order, with their documented effect",
 "For every command line, macro definitions and undefinitions, search paths, -include, -x, -Wl/-Xlinker/-Wa/-l/-L arguments and input files take effect in the given order and at the right stage, and link-mode options (-shared, -static, -pie, -no-pie, -r, -nostdlib family, -rdynamic, -pthread) produce an output of the requested kind that runs. Options documented as ignored change nothing, and unknown options are rejected.",
 ["configurations"],"all option sequences",
 "driver and linker scripts check a fixed list one at a time",
 ["main.c","platform/linux-glibc-generic.c"],
 [("argument parsing and tool command lines","main.c parse_args, take_arg_s, comma_arg, run_linker_gnustyle, run_assembler_gnustyle, link_type, define_macro_cli")],
 ["argument vectors recorded by stand-in tools, ELF headers and behaviour of outputs"])
p("R01","No input makes the compiler misbehave",
 "For every input text and option set, valid or not, the compiler terminates within resources bounded by the input's own expansion, without memory errors, undefined behaviour, assertion failure, internal error or death by signal. It either reports a diagnostic and exits nonzero, or exits zero having written output, which for a well-formed program the assembler accepts.",
 ["inputs","configurations"],"all byte sequences and token sequences",
 "tests feed valid code and one gibberish file; memory errors need particular malformed or extreme inputs",
 ["tokenize.c","preprocess.c","parse.c","type.c","codegen.c","alloc.c","hashmap.c","strings.c","unicode.c"],
 [("token recycling and arenas","alloc.c allocate, arena_off; preprocess.c to_freelist, free_funclike_args; parse.c free_parsed_tok"),("error paths","tokenize.c error_tok, verror_at")],
 ["AddressSanitizer and UBSan reports, exit status, assembler verdict"])
p("R02","Output is a function of the input only, and self-compilation is faithful",
 "For a given source and options the emitted assembly is byte-identical across repeated runs, address-space layouts, heap contents, memory-reclamation modes, output destinations and host compilers used to build the compiler. In particular the compiler built by itself produces byte-identical output to the one built by GCC, for every program.",
 ["programs","configurations","schedules"],"all programs x heap/ASLR/reclamation states x builds of the compiler",
 "stage-2 tests only check that test programs pass; nothing compares outputs or perturbs memory",
 ["alloc.c","preprocess.c","codegen.c","parse.c","hashmap.c"],
 [("reclamation","alloc.c check_mem_usage, arena_off; preprocess.c preprocess; parse.c free_parsed_tok"),("numbering and emission order","codegen.c count, codegen; parse.c new_unique_name")],
 ["assembly bytes from each build and environment"])
p("R03","Ill-formed programs are rejected, well-formed ones accepted",
 "A translation unit that violates a constraint the compiler enforces in evaluated code (syntax, undeclared names, failed static assertions, duplicate definitions, invalid operands, bad initialisers or designators, misplaced jumps and labels, writes to non-lvalues, too few arguments, unterminated constructs, malformed directives, #error) is never silently compiled: a diagnostic naming the offending file and line is printed and no output is produced. A corrected version of the same program is accepted.",
 ["programs","inputs"],"all positions and contexts in which each kind of violation can be placed",
 "tests only contain valid programs apart from a few driver checks",
 ["parse.c","preprocess.c","tokenize.c","type.c"],
 [("diagnostics","parse.c and type.c error_tok sites; tokenize.c error_at; preprocess.c error_tok sites")],
 ["exit status, diagnostic text, presence of output"])

with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        assert x['statement'].count('. ')<=2,x['id']
        f.write(json.dumps(x)+"\n")
print(len(P))
