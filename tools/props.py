PBT = "property-based testing"
B = "core/src/bundle.rs"
D = "core/src/definition.rs"
Y = "core/src/bytecode.rs"
L = "decompiler/src/lib.rs"
P = "decompiler/src/print.rs"

PROPS = [
 dict(id="C01", crate="core", title="A script cache keeps its content across load and save",
  statement="Loading any valid script cache yields exactly the header fields, string tables and definitions the file contains, and saving it and loading the result yields the same again. This holds for every kind of definition, every combination of flags and optional parts, every instruction, any order of the bodies in the file, and strings shared between tables.",
  over=["inputs"], text="all valid bundle files (any definitions, flags, opcodes, strings, body layouts)",
  why="The tests load one bundled file and a handful of compiled snippets; combinations of flags, optional parts and opcodes are never sampled.",
  files=[B, D, Y, "core/src/decode.rs", "core/src/encode.rs"],
  mech=[("loading", "core/src/bundle.rs: ScriptBundle::load, ConstantPool::load_definitions"), ("saving", "core/src/bundle.rs: ScriptBundle::save"), ("definition bodies", "core/src/definition.rs: Decode/Encode impls")],
  observe=["bytes written by saving", "the loaded pool through its public accessors"],
  technique="property-based round trip against an independent reader and writer of the format",
  note="Random search over generated bundles; trusts the reference reader/writer in harness/core/src/model.rs."),
 dict(id="C02", crate="core", title="Every written script cache is well-formed for the game",
  statement="Whatever edits were made in memory, a saved file has correct table offsets, counts, sizes and checksums, unique table strings that resolve to the interned text, definition bodies that lie one after another inside the file without gaps or overlaps, and a header whose checksum verifies. Presence flags in each definition agree with the optional parts that follow. Content the format cannot hold (a text of a definition over 65535 bytes, a zero within a string of a table) is refused with an error.",
  over=["histories", "inputs"], text="all in-memory bundles reachable by loading and editing",
  why="No test inspects checksums, offsets or sizes of a written file; the loader ignores most of them, so a round trip does not notice.",
  files=[B, D, "core/src/encode.rs"],
  mech=[("header and tables", "core/src/bundle.rs: Header::for_scripts, TableHeader::new, ScriptBundle::save"), ("definition headers", "core/src/bundle.rs: DefinitionHeader"), ("derived flags", "core/src/definition.rs: encode of Class/Function/Field")],
  observe=["bytes written by saving"],
  technique="property-based testing with an independent strict parser as oracle",
  note="Random edited bundles judged by a strict parser that recomputes every derived field; trusts that parser."),
 dict(id="C03", crate="core", title="Editing a pool behaves like a simple indexed table",
  statement="Under any sequence of adding, replacing, swapping, renaming, reserving, interning, saving and reloading, every definition and string is found at the index it was given, lookups by index or by kind return exactly what was last stored or a proper error, and definitions that were not touched do not change.",
  over=["histories"], text="all sequences of pool edits, with reloads in between",
  why="Tests run fixed short scenarios through the compiler; interactions of several edits with save and reload are not sampled.",
  files=[B, D], mech=[("pool operations", "core/src/bundle.rs: ConstantPool impl"), ("kind checks", "core/src/definition.rs: AnyDefinition accessors")],
  observe=["pool accessors", "iteration order"],
  technique="stateful model-based property testing",
  note="Random histories compared step by step with a reference model."),
 dict(id="C04", crate="core", title="Saving is deterministic and reaches a fixed point",
  statement="Saving the same bundle always writes the same bytes: repeatedly, from separate loads, over stale output and wherever the writer stands in it, and independent of the layout of the input file. Loading a saved file and saving it again reproduces it byte for byte.",
  over=["inputs"], text="all valid bundles and input layouts",
  why="No test compares bytes across saves; hash-map ordering effects need particular strings to show.",
  files=[B, "core/src/encode.rs"], mech=[("save", "core/src/bundle.rs: ScriptBundle::save, Names")],
  observe=["bytes written by saving"],
  technique="metamorphic property testing (save twice, reload, relayout)",
  note="Random bundles; byte equality of several independently produced saves."),
 dict(id="C05", crate="core", level="fault_enumeration", title="I/O faults and short transfers never corrupt silently",
  statement="With a device that transfers any number of bytes per call or is interrupted, loading and saving give the same result as with an ideal device. When a read, write or seek fails or the input ends early, the operation reports an error instead of succeeding with partial content.",
  over=["fault_sequences", "crash_points"], text="every fault position and transfer schedule of load and save; every truncation length",
  why="Tests use in-memory buffers and whole files only.",
  files=[B, "core/src/io.rs", "core/src/decode.rs", "core/src/encode.rs"], mech=[("error propagation", "core/src/decode.rs, core/src/encode.rs"), ("offset tracking", "core/src/io.rs: StreamOffset")],
  observe=["result of load/save", "bytes on the device"],
  technique="fault injection over generated bundles (random and enumerated fault points)",
  note="Enumerates truncation points and random fault points of generated bundles through an instrumented device."),
 dict(id="C06", crate="core", title="Malformed script caches are rejected cleanly",
  statement="Loading arbitrary bytes never crashes, aborts, hangs or reserves memory out of proportion to what it reads: it either returns an error or yields a bundle, and never a bundle for tables, strings or definitions said to lie outside the file. Any bundle it yields can be saved and loaded again.",
  over=["inputs"], text="all byte strings, in particular damaged caches",
  why="The only malformed input in the tests is none; every test cache is valid.",
  files=[B, D, Y, "core/src/decode.rs"], mech=[("tag checks", "Decode impls returning InvalidData"), ("bounded allocation", "core/src/decode.rs: decode_vec, decode_bytes")],
  observe=["result of load", "process exit"],
  technique="mutation fuzzing of generated bundles with crash, abort and hang detection",
  note="Random and systematic corruptions run in a supervised child process; trusts the memory limit set for it."),
 dict(id="C07", crate="core", title="Instructions are encoded as the instruction set prescribes",
  statement="Every instruction is written with its opcode and operands in the prescribed layout, read back identically with nothing left over, and reports the size it occupies in the running game. A function body is prefixed with the sum of those sizes and ends exactly there; unassigned opcodes are rejected.",
  over=["inputs"], text="all instructions with all operand values, all instruction sequences",
  why="Tests compile a few snippets and never look at encoded bytes; many opcodes occur in no test.",
  files=[Y], mech=[("encode/decode/size", "core/src/bytecode.rs: Instr, Code, Offset")],
  observe=["encoded bytes", "instruction sizes"],
  technique="property-based testing against an independently written instruction table",
  note="All opcodes enumerated with random and edge operands; trusts the reference table."),
 dict(id="C08", crate="core", title="Branches land on the instruction their label marks",
  statement="For any program and any placement of labels, resolving labels, writing the code, reading it back and following a branch leads to exactly the instruction the label stood before, forwards or backwards, anywhere in the 16-bit code range. No other operand of a branching instruction changes in the process.",
  over=["programs"], text="all programs with labels whose distances fit the format",
  why="Tests only contain short functions and compare symbolic instructions, never positions.",
  files=[Y], mech=[("label resolution", "core/src/bytecode.rs: Instr::resolve_labels, Location::relative"), ("displacement storage", "core/src/bytecode.rs: Decode/Encode for Instr")],
  observe=["encoded displacement", "position after seeking"],
  technique="property-based testing against a position model of the program",
  note="Random programs up to 65000 bytes; every branch operand followed."),
 dict(id="C09", crate="core", title="Navigating code visits the right instruction or reports an error",
  statement="Under any sequence of stepping, peeking, absolute and relative seeking and range iteration, the current position, the instruction returned and the instructions of a range are those at that byte position; positions inside an instruction or past the end are refused and leave the position unchanged.",
  over=["histories"], text="all code bodies and navigation sequences",
  why="Only the decompiler uses navigation in tests, on straight, valid code.",
  files=[Y], mech=[("cursor", "core/src/bytecode.rs: CodeCursor, CodeIter")],
  observe=["cursor position, popped and peeked instruction"],
  technique="stateful model-based property testing",
  note="Random navigation histories against an index model."),
 dict(id="C10", crate="core", title="Interning gives one stable index per distinct string",
  statement="In each string table, adding a string that is present returns its existing index, adding a new one returns a fresh index, and no index ever changes its text; lookup by text and by index agree. The same holds for tables that came from a file.",
  over=["histories"], text="all sequences of interned strings, in fresh and loaded tables",
  why="Tests intern a few known names; collisions with loaded tables and repeated strings are not explored.",
  files=[B], mech=[("interning", "core/src/bundle.rs: Names, Strings impls")],
  observe=["indices and texts returned"],
  technique="stateful model-based property testing",
  note="Random interning histories against a list model."),
 dict(id="C11", crate="core", title="Remapping identities rewrites exactly the mapped references",
  statement="Applying a class map and a function map to a pool replaces superclass links, owners of functions, fields, parameters and locals, and the class and function operands of instructions by their images, once each and simultaneously. Everything not in the map, and every other index of equal value, stays as it was.",
  over=["inputs"], text="all pools and all partial maps of class and function indices",
  why="Only used for one swap scenario in the compiler; index coincidences and chained maps are never sampled.",
  files=["core/src/mapper.rs"], mech=[("mapper", "core/src/mapper.rs: PoolMapper::map, map_instr")],
  observe=["pool content after mapping"],
  technique="property-based testing against a reference rewrite",
  note="Random pools and maps."),
 dict(id="C12", crate="core", title="Type names and source spans follow their algebra",
  statement="The stored form of a nested type name reads back as the same type, its readable form nests arguments in angle brackets, and the form used to identify functions ignores handles at every level and nothing else. Source spans merge, contain and order positions like half-open intervals.",
  over=["inputs"], text="all nested type names and spans",
  why="Tests touch a few types of depth two.",
  files=["core/src/ast.rs"], mech=[("type names", "core/src/ast.rs: TypeName"), ("spans", "core/src/ast.rs: Span, Pos")],
  observe=["rendered names, parsed names, span results"],
  technique="property-based testing against reference renderings",
  note="Random nested types and spans."),
 dict(id="C13", crate="core", title="Flags and timestamps map to their fixed bits",
  statement="Each class, function, field, parameter and local flag reads and writes its own bit of the stored word and no other, and unknown bits survive. A packed timestamp decomposes into its calendar fields and back without loss.",
  over=["inputs"], text="all flag words and setter sequences, all 64-bit timestamps",
  why="Tests never look at stored flag words.",
  files=[D, B], mech=[("flags", "core/src/definition.rs: bitfields"), ("timestamp", "core/src/bundle.rs: Timestamp")],
  observe=["flag accessors and stored words"],
  technique="property-based testing against a bit model",
  note="Random words and setter sequences."),
 # ---- decompiler
 dict(id="C20", crate="decomp", title="Decompiled control flow behaves like the bytecode",
  statement="Decompiling the body of any function made of nested conditions, loops, switches (with shared, falling-through, breaking, returning and default cases), breaks and returns yields structured code without jumps which performs the same statements in the same order for every outcome of its conditions, and declares each local variable exactly once with its type. A jump back to the head of an enclosing loop (for which the language has no statement) stays visible as a jump; nothing is dropped or reordered silently.",
  over=["inputs"], text="all structured programs laid out as the compilers lay them out, all condition outcomes",
  why="No test decompiles anything but compiled one-liners; nesting and early exits are not sampled.",
  files=[L, Y], mech=[("conditions and loops", "decompiler/src/lib.rs: consume_conditional_jump, resolve_jump"), ("switch", "decompiler/src/lib.rs: consume_switch"), ("declarations", "decompiler/src/lib.rs: merge_declarations")],
  observe=["the decompiled syntax tree"],
  technique="differential property testing: traces of the source program against traces of the decompiled tree",
  note="Random programs up to 60 structures deep 5, 12 outcome streams each; trusts the layout generator in harness/decomp/src/env.rs."),
 dict(id="C21", crate="decomp", title="Decompiled expressions are the encoded expressions",
  statement="Every expression instruction decompiles to the operation it encodes with the right operands in the right order: constants with their value and type, variables, fields and enum members, array and reference operations, casts, constructors, conversions with their type argument, conditional expressions, and calls with the arguments given (lazy ones included, omitted ones left out), on the right receiver: this, super, an explicit object, or the class for static methods.",
  over=["inputs"], text="all nestings of all expression instructions",
  why="Tests sample few instructions and shallow nesting.",
  files=[L], mech=[("instructions", "decompiler/src/lib.rs: consume_with"), ("calls", "decompiler/src/lib.rs: consume_params")],
  observe=["the decompiled syntax tree"],
  technique="property-based testing: generated trees encoded, decompiled and compared",
  note="Random trees up to depth 7 over every expression opcode."),
 dict(id="C22", crate="decomp", title="Printed code means what was decompiled",
  statement="The source text printed for a function body, read by the language's grammar and operator precedence, is exactly the decompiled code: the same statements, nesting, grouping of operators, literals (value, kind and escapes) and calls. In verbose mode reference conversions are kept, otherwise only they are left out.",
  over=["inputs"], text="all decompiled bodies, both printing modes",
  why="Printed text is not compared with anything in the tests except two tiny snippets.",
  files=[P, "core/src/ast.rs"], mech=[("expressions", "decompiler/src/print.rs: write_expr_nested, write_call, needs_parens"), ("precedence", "core/src/ast.rs: BinOp::precedence, does_associate")],
  observe=["text written by write_definition"],
  technique="round-trip property testing through a separately written reader of the grammar",
  note="Random bodies; trusts the reader in harness/decomp/src/text.rs."),
 dict(id="C23", crate="decomp", title="Printed declarations show every part of the definition",
  statement="The printed form of a class, struct, enum, function, field or parameter contains its name, visibility, every modifier that is set and none that is not, base class, members in order with their types, return type, parameter modifiers, runtime properties (escaped), defaults and enum values, such that reading the text gives back exactly the definition.",
  over=["inputs"], text="all definitions with all combinations of flags and nested types",
  why="Tests print a handful of definitions with few flags.",
  files=[P], mech=[("definitions", "decompiler/src/print.rs: write_definition, format_param, format_type")],
  observe=["text written by write_definition"],
  technique="round-trip property testing through a separate reader of declarations",
  note="Random definitions, every flag."),
 dict(id="C24", crate="decomp", title="The bytecode listing is complete and correctly addressed",
  statement="Listing a function as bytecode shows its locals and then every instruction once, in order, each with the address that jumps refer to. Listing it as a syntax tree shows its locals and then every statement of the decompiled body once, in order.",
  over=["inputs"], text="all functions with code",
  why="No test uses the listing mode.",
  files=[P, Y], mech=[("listing", "decompiler/src/print.rs: write_function_body"), ("addresses", "core/src/bytecode.rs: CodeIter, Instr::size")],
  observe=["text written by write_definition"],
  technique="property-based testing against a model of instruction addresses",
  note="Random bodies over all control-flow and expression opcodes."),
 dict(id="C25", crate="decomp", title="Definitions are filed under the source files they come from",
  statement="Splitting a cache by source file lists every file that has definitions exactly once, containing exactly the classes and global functions with a source there, each once and ordered by the line at which it starts; enums and definitions that exist only natively appear in the file of orphans, once.",
  over=["inputs"], text="all pools of classes, functions, enums and files",
  why="No test covers the file index.",
  files=["decompiler/src/files.rs", D], mech=[("index", "decompiler/src/files.rs: FileIndex"), ("lines", "core/src/definition.rs: Definition::first_line, source")],
  observe=["entries of FileIndex"],
  technique="property-based testing against a reference model",
  note="Random pools."),
 dict(id="C26", crate="decomp", title="One undecompilable method does not hide the others",
  statement="When some methods of a class hold code that cannot be decompiled, printing the class still succeeds and contains every other method complete and in order; printing such a method on its own, whatever its code, ends and reports an error (or gives text) instead of crashing or looping.",
  over=["inputs", "fault_sequences"], text="all classes with any subset of damaged methods",
  why="Tests only print sound code.",
  files=[P, L], mech=[("error handling", "decompiler/src/print.rs: write_definition, AnyDefinition::Class")],
  observe=["text written by write_definition", "its result"],
  technique="property-based testing with injected damage",
  note="Random subsets of methods with six kinds of damage, plus methods of arbitrary or mutated code of up to a few hundred instructions (stack depth for deeper nesting is not part of it)."),
 dict(id="C27", crate="decomp", title="Printing never reports success for lost output",
  statement="Whatever the printing mode and definition, if the destination refuses any write, for good or just once, the printing call returns an error; if the destination accepts writes in pieces of any size the complete text arrives unchanged.",
  over=["inputs", "fault_sequences"], text="all definitions, all three printing modes, a failure at every write, all ways of splitting writes",
  why="Tests write to a growing memory buffer that never fails.",
  files=[P], mech=[("error propagation", "decompiler/src/print.rs: write_definition, write_function, write_expr")],
  observe=["result of write_definition", "bytes received by the destination"],
  technique="property-based testing with injected write faults",
  note="Random definitions, faults at random and boundary byte positions."),
 dict(id="C28", crate="decomp", title="Printed code is laid out by nesting depth",
  statement="Each line of a printed definition is indented by the number of blocks open around it (members of a class by one, statements of its methods by two, and so on for conditions, loops, switches and their cases), closing braces by that of their block, so that the indentation alone shows the nesting.",
  over=["inputs"], text="all definitions",
  why="Tests compare the layout of two tiny snippets.",
  files=[P], mech=[("layout", "decompiler/src/print.rs: write_seq, write_expr_nested, INDENT")],
  observe=["lines written by write_definition"],
  technique="property-based testing against an indentation model",
  note="Random definitions and bodies."),
 # ---- scc command line
 dict(id="C30", crate="opts", title="Arguments damaged by quoting are restored",
  statement="When the game passes scc a command line in which quoted paths end in a backslash, so that Windows merges and splits the wrong arguments, repairing the argument list gives back exactly the arguments that were meant, for any options in any order, any number of such paths and paths with spaces; argument lists that were not damaged stay as they are.",
  over=["inputs"], text="all command lines of options and paths (words separated by single spaces)",
  why="The tests enumerate one fixed set of paths in one order.",
  files=["scc/cli/src/opts.rs"], mech=[("repair", "scc/cli/src/opts.rs: fix_args")],
  observe=["the repaired argument list"],
  technique="property-based testing against the intended arguments through a model of the Windows splitting rules",
  note="Random command lines; trusts the model of the Windows rules."),
 dict(id="C31", crate="opts", title="Command line options are read as given, in any order",
  statement="After -compile and its folder, the remaining options may come in any order and combination; each sets its own field to the value given, warnings keep their order, absent options have their documented defaults, and lists with a missing folder, an unknown option, a thread count outside 0 to 255 or a profile value other than on and off are rejected.",
  over=["inputs"], text="all option lists",
  why="The tests enumerate one order and one value per option.",
  files=["scc/cli/src/opts.rs"], mech=[("parser", "scc/cli/src/opts.rs: Opts::get_parser, Opts::load")],
  observe=["the parsed options or the rejection"],
  technique="property-based testing against the generated record of options",
  note="Random option lists."),
 # ---- compiler
 dict(id="C40", crate="comp", title="Compiled programs do what their source says",
  statement="Every well-typed program is accepted, and running its compiled code shows exactly the behaviour of the source: the same calls with the same arguments in the same order, the same results, out arguments and object states, with operators, conversions, control flow, virtual calls, overloads, optional arguments, field defaults, array literals, interpolated strings and intrinsics meaning what the language defines, however declarations are ordered and spread over files.",
  over=["inputs"], text="all well-typed programs",
  why="Tests compare the code of a few dozen snippets with recorded instruction lists and never run it.",
  files=["compiler/src/typechecker.rs", "compiler/src/assembler.rs", "compiler/src/sugar.rs", "compiler/src/unit.rs", "compiler/src/scope.rs"],
  mech=[("type checking and overloads", "compiler/src/typechecker.rs: TypeChecker"), ("code generation", "compiler/src/assembler.rs: Assembler"), ("desugaring", "compiler/src/sugar.rs: Desugar"), ("declarations", "compiler/src/unit.rs: CompilationUnit")],
  observe=["diagnostics", "events, results and object states of the compiled code"],
  technique="property-based testing: generated well-typed programs, source interpreter against an interpreter of the compiled code",
  note="Random programs of up to 5 functions families, 3-deep expressions and statements; trusts the two interpreters and stand-ins for three unavailable dependencies."),
 dict(id="C41", crate="comp", title="Annotations modify exactly the code they name",
  statement="Adding files with annotations to an existing cache changes exactly what the annotations say: @replaceMethod and @replaceGlobal substitute the body (the last one wins and each overwritten one is reported once), wrappers run in place of the method with wrappedMethod calling the next inner wrapper and finally the original or replaced body, @addMethod and @addField extend the class for all code and take part in overriding, and everything else behaves as before.",
  over=["inputs", "histories"], text="all programs and sequences of annotated declarations spread over files",
  why="Tests check a handful of single annotations by their instruction lists.",
  files=["compiler/src/unit.rs"],
  mech=[("targets of annotations", "compiler/src/unit.rs: determine_function_location"), ("wrapper proxies", "compiler/src/unit.rs: construct_proxy, finish, remap_locals"), ("replacement conflicts", "compiler/src/unit.rs: compile_modules")],
  observe=["events, results and object states of the modified program", "the number of conflicts reported"],
  technique="property-based testing: generated programs and modifications, source interpreter with wrapper chains against an interpreter of the compiled code",
  note="Up to five modifications of a generated program; targets come from an earlier compilation, as they do in the game's cache."),
 dict(id="C42", crate="comp", title="The compiled cache is well-formed and survives being saved",
  statement="After compiling any programs, the pool is one the game can load: every reference of a definition or instruction names a definition of the right kind, members and their owners agree, classes follow their bases, functions' flags agree with their signatures; and writing it to a cache and loading it back changes nothing, neither a definition nor what the program does. A program that a cache cannot hold (too long or too large a part, a zero within a text) is rejected, or at the latest refused with an error when it is stored.",
  over=["inputs"], text="all well-typed programs with annotations, compiled one after another",
  why="Tests never look at the pool as a whole and never save a compiled one.",
  files=["compiler/src/unit.rs", "compiler/src/assembler.rs", "core/src/bundle.rs"],
  mech=[("ordering of classes", "compiler/src/unit.rs: cleanup_pool"), ("definitions", "compiler/src/unit.rs: define_class, define_function, define_field"), ("storage", "core/src/bundle.rs: ScriptBundle::save, ScriptBundle::load")],
  observe=["the definitions of the pool", "the saved and reloaded cache", "the behaviour of the reloaded program"],
  technique="property-based testing: invariant over the compiled pool and round trip through the cache format",
  note="Random programs; trusts the validator of pools."),
 dict(id="C43", crate="comp", title="Compiling is deterministic",
  statement="Compiling the same files against the same cache gives the same pool, definition by definition.",
  over=["inputs"], text="all programs with annotations",
  why="No test compiles anything twice.",
  files=["compiler/src/unit.rs", "compiler/src/symbol.rs", "compiler/src/scope.rs"],
  mech=[("compilation", "compiler/src/unit.rs: CompilationUnit::compile")],
  observe=["two compiled pools"],
  technique="property-based testing: differential, one compilation against another",
  note="Both compilations run in one process."),
 dict(id="C44", crate="comp", title="Layout and redundant parentheses do not matter",
  statement="Spaces, line breaks and comments between the tokens of a program do not change what it compiles to, and an expression written with only the parentheses that precedence and associativity require compiles like the fully parenthesised one.",
  over=["inputs"], text="all programs and all ways to lay them out; all operator expressions",
  why="Tests parse a few expressions in one layout.",
  files=["compiler/src/parser.rs"], mech=[("grammar", "compiler/src/parser.rs: lang")],
  observe=["the compiled code of both texts"],
  technique="property-based testing: metamorphic, the same program in two layouts",
  note="No space stands before commas or between a type and its arguments, which the grammar does not allow; trusts a stand-in for the parser generator."),
 dict(id="C45", crate="comp", title="Literals stand for the value written",
  statement="Every integer, floating-point, string, name, resource and tweak id literal, with any suffix, sign or escape, compiles to exactly the value it denotes in its type; numbers too large for their type and escapes that denote no character, or the character zero, are rejected.",
  over=["inputs"], text="all literals",
  why="Tests compile a few small literals.",
  files=["compiler/src/parser.rs", "compiler/src/typechecker.rs", "compiler/src/assembler.rs"],
  mech=[("lexing", "compiler/src/parser.rs: number, escaped_char"), ("adaption to the expected type", "compiler/src/typechecker.rs: check")],
  observe=["the constant in the compiled code or the rejection"],
  technique="property-based testing against the generated value",
  note="Random literals of each type."),
 dict(id="C46", crate="comp", title="Any text is compiled or rejected, never more",
  statement="Whatever the source text is, compiling it ends without a panic, overflow or endless loop, with either success or diagnostics, each of which points into one of the files and can be displayed; class hierarchies are rejected exactly when a class would be its own ancestor.",
  over=["inputs"], text="all texts",
  why="Tests feed programs that are meant to compile and a few single mistakes.",
  files=["compiler/src/parser.rs", "compiler/src/unit.rs", "compiler/src/typechecker.rs", "compiler/src/diagnostics.rs", "compiler/src/source_map.rs"],
  mech=[("parser", "compiler/src/parser.rs: parse_file"), ("declarations", "compiler/src/unit.rs: define_class"), ("display", "compiler/src/diagnostics.rs: Diagnostic::display")],
  observe=["the end of the compilation", "positions and text of the diagnostics"],
  technique="fuzzing with token soup, truncated and mutated programs and random class hierarchies",
  note="Random texts up to a few kilobytes; nesting shallow enough for the stack."),
 dict(id="C47", crate="comp", title="Each mistake is reported where it is, and nothing else is",
  statement="A program is accepted exactly when it follows the language's rules on types, conversions, overloads, members, operators, control flow and declarations; every violation of a rule is reported with its own code at its own position, independently of what else is in the files, and correct code next to it is not reported; the displayed diagnostic shows the file, the line, the column and the text it is about.",
  over=["inputs"], text="all programs that are correct up to a set of mistakes",
  why="Tests check single mistakes by their code; they do not cover combinations, positions, or how near a correct program can be to an incorrect one.",
  files=["compiler/src/typechecker.rs", "compiler/src/unit.rs", "compiler/src/diagnostics.rs", "compiler/src/error.rs", "compiler/src/source_map.rs"],
  mech=[("conversions", "compiler/src/typechecker.rs: find_conversion"), ("overloads", "compiler/src/typechecker.rs: resolve_overload"), ("declarations", "compiler/src/unit.rs: compile_files"), ("display", "compiler/src/diagnostics.rs: Diagnostic::display")],
  observe=["whether the program is accepted", "codes and positions of the diagnostics", "their displayed text"],
  technique="random correct and incorrect fragments with known verdicts in generated programs, two-sided model of the rules",
  note="Rules modelled: conversions, positions of declarations and statements, unification, operators, bodies, annotations; parameter types that differ only in ref/wref identify the same function."),
 dict(id="C48", crate="comp", title="Decompiled code compiles back to the same behaviour",
  statement="The code the decompiler writes (in its plain, not verbose, form) for functions of a stored, compiled program is source the compiler accepts in their place, and the program compiled from it behaves as the first one did: the same results, calls, out parameters and final states of objects, for every mix of statements, expressions, conversions, overloads and locals.",
  over=["inputs"], text="all well-typed programs",
  why="Tests of the decompiler compare a few fixed functions with expected text; whether the text means what the code does only shows by compiling and running it.",
  files=["decompiler/src/lib.rs", "decompiler/src/print.rs", "core/src/bundle.rs", "compiler/src/parser.rs"],
  mech=[("structure", "decompiler/src/lib.rs: consume_path, consume_conditional_jump, consume_switch"), ("locals", "decompiler/src/lib.rs: merge_declarations"), ("text", "decompiler/src/print.rs: write_expr_nested")],
  observe=["whether the decompiled text compiles", "the trace of native calls, results and objects of both programs"],
  technique="compile, store, load, decompile, recompile; differential run of both programs in a bytecode interpreter",
  note="Rewritten before compiling, as source has no form for them: the compiler's own names ($), Uint64 sizes and positions of array literals, structs constructed without values. Left out: a break in `default` that is the only one of its switch (known finding of C20)."),
dict(id="C50", crate="scc", title="A run compiles the present scripts against the present game, always",
  statement="Whatever sequence of script changes, game updates, successful and refused runs (also two at the same time, and with a separate output file, in turns or not) went before, a run on right scripts succeeds and its output holds exactly what compiling these scripts against the game's current, unmodified cache gives; a run on wrong scripts fails and leaves the output file as it was; with a separate output the game's cache is left, or put back, as the game shipped it; and at every moment some file still holds the game's unmodified cache.",
  over=["inputs", "histories", "schedules"], text="all histories of script changes, game updates, runs and pairs of runs",
  why="Tests run the compiler once on a fresh folder; what backup, timestamp and cache mean to the next run depends on the history.",
  files=["scc/lib/src/lib.rs", "scc/lib/src/timestamp.rs", "compiler/src/source_map.rs"],
  mech=[("backup and timestamp", "scc/lib/src/lib.rs: try_compile_files"), ("base cache", "scc/lib/src/lib.rs: try_compile, get_base_bundle_path"), ("signature", "scc/lib/src/lib.rs: add_redscript_signature_def, check_for_redscript_signature_def"), ("locking", "scc/lib/src/lib.rs: ts_lock")],
  observe=["whether each run succeeds", "the output decompiled, against compiling in memory", "the bytes of the game's cache and of its backup"],
  technique="stateful generation of histories with real processes and files, model of what each run must give",
  note="One cache path per history; a custom cache is of the same version as the default one."),
dict(id="C51", crate="scc", title="An interrupted or failed run costs nothing but that run",
  statement="When a run is ended at any of its operations on files, or one of them (or all from one on) fails, the game's unmodified cache is not lost, a run that reports success has written a complete and right output, and the next undisturbed run succeeds and gives the right output, also after further interruptions, game updates and changes of the scripts.",
  over=["crash_points", "fault_sequences", "histories"], text="all points at which a run can end or an operation can fail, in all histories",
  why="No test interrupts a run or lets a file operation fail.",
  files=["scc/lib/src/lib.rs", "scc/lib/src/timestamp.rs", "core/src/bundle.rs"],
  mech=[("backup", "scc/lib/src/lib.rs: try_compile_files"), ("copies", "scc/lib/src/lib.rs: try_compile"), ("output", "core/src/bundle.rs: ScriptBundle::save")],
  observe=["the folder after the fault: some file holds the game's cache", "success and output of the next runs"],
  technique="fault injection at every file operation (preloaded library) in generated histories",
  note="Faults: end of the process before or halfway through an operation, one failed operation, a full disk from an operation on. Loss of power (data not yet on the disk) is not modelled."),
dict(id="C52", crate="scc", title="The report of a failed run names the mods at fault and the fitting hints",
  statement="When scripts are wrong, the report lists exactly the mods (top-level files or folders) whose files hold errors, each once and no other; it gives exactly the hints of the user's hint files that fit one of the errors (same code; file, if given; and text at the error or on its line), the first fitting one of each error and each hint once, and general advice if none fits; hint files that cannot be read do not hide the report; copied into a buffer of any size, the report is cut at its end, terminated, and writes nothing beyond.",
  over=["inputs"], text="all sets of mods with errors, hint files and buffer sizes",
  why="There are no tests of the report.",
  files=["scc/lib/src/lib.rs", "scc/lib/src/hints.rs", "scc/lib/src/api.rs", "compiler/src/source_map.rs", "compiler/src/diagnostics.rs"],
  mech=[("mods", "scc/lib/src/lib.rs: ErrorReport::fmt"), ("hints", "scc/lib/src/hints.rs: UserHints::load, get_by_error"), ("buffer", "scc/lib/src/api.rs: scc_copy_error")],
  observe=["the text of the error", "the bytes of the buffer"],
  technique="planted errors with known codes, places and mods; reference model of the matching",
  note="Errors in function bodies only, as those are all collected."),
dict(id="C53", crate="scc", title="Plugins find each definition of the scripts at its place in the sources",
  statement="After a successful run, the interface lists each class, struct, enum, function, method and field that the scripts define, add, replace or wrap once, with the right kind, name, parent, nativeness, path and line, in whatever order and files they are defined (also bases after the classes that extend them), and lists nothing else.",
  over=["inputs"], text="all sets of scripts that compile",
  why="The tests look at one class.",
  files=["scc/lib/src/api.rs", "compiler/src/unit.rs", "compiler/src/source_map.rs"],
  mech=[("references", "compiler/src/unit.rs: define_class, define_function, define_field, define_enum"), ("reordering", "compiler/src/unit.rs: cleanup_pool"), ("lookup", "scc/lib/src/api.rs: scc_source_ref_*, compiler/src/source_map.rs: lookup_file")],
  observe=["the values of scc_source_ref_* for every reference"],
  technique="generated scripts with a list of their definitions, compared through the C interface",
  note="A wrapper is listed under the name the compiler gives it."),
dict(id="C54", crate="cli", title="The scc program compiles what its command line names",
  statement="Whatever valid command line starts scc (the cache named by its file, by its folder, by both or not at all; a separate output; a list of further script folders, also with ones that do not exist; other options; in any order), the cache that was named is compiled and no other one is changed, the output is written where it was asked for and holds the scripts of all folders, and the exit status tells whether that succeeded.",
  over=["inputs", "histories"], text="all command lines over all sets of scripts",
  why="The tests of the program end at the parsed options.",
  files=["scc/cli/src/main.rs", "scc/cli/src/opts.rs", "scc/lib/src/api.rs", "scc/lib/src/lib.rs"],
  mech=[("options to settings", "scc/cli/src/main.rs: run, load_script_paths"), ("library", "scc/cli/src/main.rs: SccApi")],
  observe=["exit status", "bytes of every cache", "the output decompiled, against compiling in memory"],
  technique="generated command lines and script folders run with the real program, compared with compiling in memory",
  note="Loaded as a shared library through its C interface, as on Windows."),
dict(id="C55", crate="cli", title="redscript-cli writes complete output or says that it could not",
  statement="A call of `redscript-cli decompile` that reports success has written the text of every class, enum and function of the cache, in the mode asked for, into one file or into the files of the cache's file index, and nothing of an earlier output is left in them; `compile` writes the cache that the scripts give, and leaves its output alone when they are wrong; `lint` says that scripts are right exactly if they are, and writes nothing; inputs are never changed; when the output cannot be written in full, or the call cannot be carried out, the exit status says so.",
  over=["inputs", "fault_sequences"], text="all caches, scripts, options and limits of space",
  why="The program has no tests.",
  files=["cli/src/main.rs", "decompiler/src/files.rs", "decompiler/src/print.rs", "core/src/bundle.rs"],
  mech=[("decompile", "cli/src/main.rs: decompile"), ("compile", "cli/src/main.rs: compile"), ("lint", "cli/src/main.rs: lint")],
  observe=["exit status and messages", "bytes of the outputs and inputs"],
  technique="generated caches, scripts and options run with the real program under limits of file size, compared with the library's results",
  note="The text of a single definition is judged by C20-C28, the compiled cache by C40-C48. The exit status of a failed build is left open."),
]

NOT_APPLICABLE = []
