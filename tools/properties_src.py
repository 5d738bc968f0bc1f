"""Source of properties.jsonl (run tools/gen.py)."""
def P(id, title, statement, over, quant, why, files, mechanism):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                anchors=dict(files=files, mechanism=mechanism))
PS = [
P('C01', 'Assembler operands are encoded as exactly what was written',
  'Every memory operand the assembler accepts (absolute, RIP-relative, and every combination of base register, scaled index register and 8- or 32-bit displacement) and every register operand is encoded so that a processor decodes the same registers and the same effective address. Alternative spellings of an address denote the same operand, and the narrower names of a register denote that register.',
  ['inputs'], 'all base/index registers, scales, displacements and byte-register/REX combinations',
  'Tests sample a handful of addresses; the special cases (RSP/R12 needing SIB, RBP/R13 needing a displacement, R12 as index, AH..BH against REX) depend on exact register combinations and displacement values.',
  ['xten0/src/asm/operand.rs', 'xten0/src/asm/encoding.rs'], 'ModRM, SIB, displacement and REX construction from typed operands'),
P('C02', 'Every supported instruction form has its documented x86-64 encoding',
  'For every instruction form the assembler offers and every operand value, the bytes produced are a valid encoding of exactly that instruction with exactly those operands: mandatory prefixes in order, REX.W, opcode bytes, register and immediate fields, and nothing else.',
  ['inputs'], 'all 1366 instruction forms, all registers, displacements and immediates',
  'Tests check a few instructions with a few operands; a wrong opcode byte, prefix or operand role in one generated form is invisible to them.',
  ['xten0/src/asm/inst.rs', 'xten0/src/asm/operand.rs', 'xten0/src/asm/encoding.rs'], 'generated instruction writers driven by the published instruction table'),
P('C03', 'Label references resolve to the label, wherever they stand',
  'In assembled code, every reference to a label (jump, call, RIP-relative address, absolute 64-bit address) designates the position where the label was defined, whatever instructions lie between and in whatever order references and definitions occur. Label names exported as symbols carry the offset, section and visibility they were defined with, and references to undefined labels surface as relocations or errors, never as a silently wrong address.',
  ['inputs', 'histories'], 'all sequences of instructions, definitions and references',
  'Tests use single references at small offsets; the displacement depends on what follows the relocated field in the instruction and on the order of definitions.',
  ['xten0/src/asm/writer.rs', 'xten0/src/asm/structure.rs'], 'fixups recorded by the label-aware writer and resolved into relocations'),
P('C04', 'JIT linking patches every relocation with the right value or reports an error',
  'When objects are loaded for execution in place, every relocated field receives the value of its target plus addend (minus the place, for relative fields), at the width of the field, and no other byte of the loaded sections changes. A target that is not defined, or a value that does not fit the field, is reported as an error; it is never truncated.',
  ['inputs', 'histories'], 'all object sets, section sizes, addends and load addresses',
  'Tests link tiny objects whose targets are always in range.',
  ['xten0/src/jit.rs', 'xten0/src/jit/segment.rs'], 'segment allocation, address table and relocation application'),
P('C05', 'Emitted object files say what the assembler produced',
  'For every assembled object, the emitted ELF file is well formed, and reading it back gives the same section contents, sizes and alignments, symbols (name, section, offset, binding) and relocations (place, kind, target, addend), with local symbols ordered before global ones and every index in range.',
  ['inputs'], 'all objects: any number of symbols, relocations and section sizes',
  'Tests write a few fixed objects and compare a few fields.',
  ['xten0/src/elf.rs', 'xten0/src/obj.rs', 'xten0/src/asm/structure.rs'], 'ELF64 relocatable object writer'),
P('C06', 'Data layout follows the platform ABI and covers every value exactly',
  'For every data type the compiler can produce, fields are placed in order at the lowest aligned offsets without overlap, the size is the smallest multiple of the alignment that holds them, and a sum type is as large and as aligned as its largest alternative. The class of a value and of each of its eightbytes is that of the platform calling convention.',
  ['inputs'], 'all scalar widths and all products and sums of them',
  'Tests use a few structs; padding and classification depend on the combination of sizes, alignments and classes.',
  ['llrl0/src/backend/native/mem_layout.rs'], 'layout algebra over scalars, products and sums'),
P('C07', 'Calls follow the platform calling convention and keep the stack aligned',
  'Every argument and result of a foreign call is placed where the System V AMD64 convention puts it: eightbytes classed INTEGER take RDI, RSI, RDX, RCX, R8, R9 and those classed SSE take XMM0-XMM7, in order; a value goes to memory as a whole exactly when its class or the remaining registers require it; results use RAX/RDX/XMM0/XMM1 or caller-provided memory. At every call the stack is 16-byte aligned, and after it exactly the result remains.',
  ['inputs'], 'all signatures, all value layouts, all stack depths at the call',
  'Tests call a handful of functions with a few scalars; misplacement needs particular mixes of structs, register exhaustion and odd stack depths.',
  ['llrl0/src/backend/chibi/codegen/call_frame.rs', 'llrl0/src/backend/chibi/codegen/reg_assign.rs', 'llrl0/src/backend/native/mem_layout.rs'], 'argument/result classification, register assignment and call frame layout'),
P('C09', 'Compiled code does what the lowered program means',
  'For every well-typed lowered program, the machine code the native back end generates computes the value the program means: every integer and floating-point operator at every width and signedness (wrapping, shifts, division, conversions, comparisons including NaN), every branch, loop, continuation, local, load, store, struct and union access, closure and foreign call, in every stack state; and it writes nothing outside the objects the program stores to.',
  ['inputs', 'histories'], 'all operators and operand values, all nestings of expressions, all stack depths at every point',
  'Tests run a few fixed programs; a wrong width, a clobbered register or an unbalanced stack needs a particular operand, nesting or depth.',
  ['llrl0/src/backend/chibi/codegen.rs', 'llrl0/src/backend/chibi/codegen/stack_inst.rs', 'llrl0/src/backend/chibi/codegen/stack_frame.rs'], 'stack-machine code generation over the lowered representation'),
P('C10', 'Lowering keeps the meaning of every program',
  'For every well-typed program in the intermediate representation, lowering it for a back end (expanding pattern matches into branches, giving data types their representation, inlining transparent functions, boxing captured variables, allocating short-lived data on the stack) yields a program with the same results and the same order of effects: every pattern match selects the first clause that matches and binds the matched parts, a value keeps its constructor and fields through its representation, every argument is evaluated exactly once, and a captured variable is the same variable inside and outside of a closure.',
  ['inputs'], 'all programs: all data types, nested and overlapping patterns, guards and captures',
  'Tests lower a few fixed programs; wrong clause selection or a lost effect needs particular overlaps of patterns, representations and uses.',
  ['llrl0/src/lowering/normalizer.rs', 'llrl0/src/lowering/branch_expander.rs', 'llrl0/src/lowering/data_expander.rs', 'llrl0/src/lowering/heap2stack.rs', 'llrl0/src/lowering/context.rs'], 'lowering passes over the intermediate representation'),
P('C11', 'Source text is split into exactly the tokens written',
  'For every text, the lexer yields exactly the tokens it contains in order (parentheses, marks, symbols, numbers, strings, characters, comments skipped) or an error at the first place that is none, it always terminates, and literals denote the value written: numbers are not rounded or wrapped without an error and escapes denote the character they name. Printing any token and reading it again gives the same token (a whole floating-point number is printed as that number without a point), and the location given to a position is its line and column in the text.',
  ['inputs'], 'all texts over all Unicode characters',
  'Tests lex a few texts; literal limits, escapes, adjacent marks and multi-byte characters at token borders need particular combinations.',
  ['llrl0/src/lexer.rs', 'llrl0/src/token.rs', 'llrl0/src/string.rs', 'llrl0/src/source_loc.rs', 'llrl0/src/source_loc/location.rs', 'llrl0/src/source_loc/location_range.rs'], 'tokenizer, literal escapes and source locations'),
P('C12', 'S-expressions read back exactly as printed',
  'For every text, the reader accepts exactly the S-expression grammar (nested lists, quotes, quasi-quotes and splices, prefix and trailing marks, annotations) and builds the expression that was written, with a source location that spans it; a text that is not in the grammar gives an error, never a different expression. Printing any S-expression gives a text that reads back as the same S-expression (a whole floating-point number as the same number).',
  ['inputs'], 'all texts and all S-expressions',
  'Tests read a few expressions; printing abbreviations that read back differently, or marks that attach to the wrong expression, need particular nestings.',
  ['llrl0/src/parser.rs', 'llrl0/src/parser/grammar.rs', 'llrl0/src/parser/primitive.rs', 'llrl0/src/sexp.rs'], 'recursive-descent reader and printer of S-expressions'),
P('C13', 'Modules are found, ordered and linked by exactly the names they import and export',
  'For every set of modules, a module path denotes exactly one package and file; loading an entry module loads exactly the modules it needs, each once; modules that import each other in a circle are refused and named, all others are built after everything they import, each handed to the back end once. A module sees exactly the names its imports select (single names, renamings, prefix and suffix wildcards, the implicit standard library without hiding anything) and exports exactly the constructs its exports select; a missing or conflicting name is an error, and the failure of a module stops exactly the modules that depend on it.',
  ['inputs', 'schedules'], 'all module graphs, import and export clauses, and parallel schedules',
  'Tests build a few fixed modules; wrong resolution needs particular wildcards, re-exports, diamond imports or cycles.',
  ['llrl0/src/path.rs', 'llrl0/src/source.rs', 'llrl0/src/source/collector.rs', 'llrl0/src/source/loader.rs', 'llrl0/src/source/set.rs', 'llrl0/src/topological_sort.rs', 'llrl0/src/module/scope.rs', 'llrl0/src/module/parallel.rs', 'llrl0/src/module/sema/importer.rs', 'llrl0/src/module/sema/exporter.rs'], 'module loading, dependency order, import and export tables, parallel build'),
P('C14', 'Every match covers every value, and each of its clauses some value',
  'For every match the compiler accepts (match, destructuring let and function parameters), every value of the matched type is matched by some clause, and every clause matches some value that no earlier clause does; a match that misses a value is refused with an example pattern that no clause matches, and a match with a clause that can never be selected is refused naming that clause. Conversely no match that satisfies both is refused. This holds for all data types (generic, recursive and nested), tuples, constants and every nesting of patterns.',
  ['inputs'], 'all data types, all sets of clauses and nestings of patterns',
  'Tests check a few matches over one or two types; a missed combination needs particular overlaps between clauses in several columns.',
  ['llrl0/src/pattern_matching.rs', 'llrl0/src/pattern_matching/matrix.rs', 'llrl0/src/pattern_matching/row.rs', 'llrl0/src/module/sema/validator.rs'], 'exhaustiveness and usefulness of pattern matching'),
P('C15', 'A compiled program computes what its source means',
  'Every program the compiler accepts, when compiled by the native backend and run, performs exactly the effects its source prescribes, in the order it prescribes: data values keep the fields they were built with, the first clause that matches is selected and binds what it names, a name denotes its innermost binding, local functions see the variables of their definition, a generic function or method uses the instance of the types at hand (its own, a default, or one required by its context), return leaves the nearest function, loops repeat while their condition holds, and/or evaluate their second operand only when it decides. Marking a function transparent, the order of declarations, and whether types are written or inferred change nothing.',
  ['inputs'], 'all accepted source programs and the values they compute with',
  'Tests run some hand-written programs; wrong captures, dictionaries, clause selection or stack use need particular combinations of generics, closures and control flow.',
  ['llrl0/src/module/sema/ast_builder.rs', 'llrl0/src/module/sema/resolver.rs', 'llrl0/src/module/sema/type_inference.rs', 'llrl0/src/lowering/translator.rs', 'llrl0/src/lowering/context.rs', 'llrl0/src/lowering/normalizer.rs', 'llrl0/src/lowering/branch_expander.rs', 'llrl0/src/lowering/data_expander.rs', 'llrl0/src/lowering/heap2stack.rs', 'llrl0/src/backend/chibi/codegen.rs'], 'the whole pipeline from source text to machine code'),
P('C16', 'Exactly the well-typed programs are accepted, with principal types',
  'A program is accepted exactly when every name in it is bound once where it is used and it is well-typed under the Hindley-Milner rules with type classes: uses instantiate their schemes, no type contains itself, no type parameter escapes its scope or is identified with another, every class constraint follows from the declared context (with its superclasses) or from instances, instances do not overlap and have instances of their superclasses, and numeric literals take the type their use requires, or I32 and F64. A function without a written type gets the most general scheme with exactly the constraints its body needs. The order of declarations does not matter. Missing and useless patterns are judged separately.',
  ['inputs'], 'all programs of the surface language',
  'Tests hold some accepted and refused programs; unsoundness shows only for particular nestings of scopes, levels and constraints.',
  ['llrl0/src/unification.rs', 'llrl0/src/unification/types.rs', 'llrl0/src/unification/kind.rs', 'llrl0/src/module/sema/type_inference.rs', 'llrl0/src/module/sema/kind_inference.rs', 'llrl0/src/module/sema/resolver.rs', 'llrl0/src/module/scope.rs'], 'name resolution and type inference'),
P('C22', 'The runtime converts, compares and joins texts and numbers exactly',
  'For every value and every radix from 2 to 36, the runtime prints an integer as its digits in lower case, most significant first, without leading zeros, with a minus sign exactly when it is negative; and for every text it reads a number exactly when the text is a numeral of the radix (letters in either case, a minus sign only for signed numbers) whose value fits 64 bits, and then that number. Reading a printed integer gives it back; floating-point numbers are printed with 16 (64-bit) or 8 (32-bit) significant digits, correctly rounded, and decimal texts are read as the nearest number. Strings are equal when their bytes are, ordered byte by byte with a prefix first, and a concatenation has the bytes of both in order and changes neither; no string operation reads or writes outside of its strings. Every generated identifier is new, arguments and directory entries are handed over complete and in order, a process gets its input and gives its output and exit status, and every runtime symbol names its function.',
  ['inputs'], 'all 64-bit values, all radices, all strings of all lengths',
  'Tests convert a dozen numbers; limits of each radix, overflow in the last digit, embedded zero bytes and the longest numerals need particular inputs.',
  ['rt/rt.c', 'rt/rt.h', 'rt/llrt.rs'], 'C runtime: number and string functions, process and argument access'),
]
NA = [
]
