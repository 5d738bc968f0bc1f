"""What decides each property (read by bin/check)."""
TRUSTED = [
    'rustc/Kani compiler, CBMC and its SAT back end (CaDiCaL) translate and decide the code correctly',
    'Rust core/alloc and third-party crates are executed as compiled into the harness, not separately specified',
]
HX = lambda **k: dict(dir='hx', **k)
HL = lambda **k: dict(dir='hl', **k)
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = {
 'C01': dict(note='Proved for all values of every operand (loop-free or unwound to operand width, complete); concrete search only supplies failing inputs.', level='proof', crates=[HX(search=10, kani=dict(harness=['c01::'], timeout=300))],
    trusted=['the x86-64 ModRM/SIB/REX decoding rules as written in hx/src/dec.rs (Intel SDM vol. 2 ch. 2)'],
    assumptions=['displacement sums that overflow their own type are excluded (Rust arithmetic panics in debug builds)']),
 'C02': dict(note='Proved per form for all registers, displacements and immediates; memory operands in the proofs are base+disp32+index*scale, the other address forms come from C01. The quick tier discharges one group of forms in four (which one depends on the seed) and searches all of them; the thorough tier discharges all.', level='proof', crates=[HX(search=15, kani=dict(harness=['c02_forms::'], sample=4, timeout=200, args=['--no-memory-safety-checks']))],
    trusted=['data/x86.csv (snapshot of the published instruction table) read by gen_inst_table.py, and the decoder hx/src/dec.rs'],
    assumptions=['in the proofs memory operands are [base+disp32+index*scale] for every base, index, scale and displacement; C01 proves every other address form, the search uses all of them']),
 'C03': dict(note='Proved per instruction form and per reference; the composition over whole objects is a bounded search, labelled so in the evidence.', level='proof', crates=[HX(search=15, kani=dict(harness=['c03::'], timeout=300))],
    assumptions=['which use is recorded, its kind, place and addend, and in-section resolution are proved per instruction and per reference; the composition over whole objects (name interning, order of definitions, several references) is searched, bounded']),
 'C04': dict(note='Segment disjointness and relocation application proved for all values; symbol lookup and multi-object linking searched, bounded.', level='proof', crates=[HX(search=15, kani=dict(harness=['c04::'], timeout=400, args=['-Z', 'c-ffi', '--c-lib', H + '/hx/kani_mm.c']))],
    trusted=['mmap returns fresh non-overlapping memory (hx/kani_mm.c)'],
    assumptions=['relocation arithmetic is proved for section targets; symbol lookup (hash maps), the address table and several objects are searched, bounded', 'pointer differences are taken inside one address range, where Rust defines them']),
 'C05': dict(note='The relocation writer is proved; the file writer as a whole is compared with an independent reader on generated objects (bounded).', level='exploration', crates=[HX(search=18, kani=dict(harness=['c05::'], timeout=300))],
    trusted=['the ELF64 layout as written in the reader hx/src/c05.rs'],
    assumptions=['the relocation entry writer is proved; the remaining writer (hash-map string tables, whole file) is compared with an independent reader on generated objects, bounded']),
 'C06': dict(note='Layout arithmetic proved for all sizes, alignments and classes (two fields at a time, which is the induction step of the fold); whole type graphs searched, bounded.',
    level='proof', crates=[HL(search=15, kani=dict(harness=['c06::'], timeout=300))],
    trusted=['Layout::composite attaches the field table and renormalises the class (stubbed in the product proof, run in the search)'],
    assumptions=['sizes below 2^32 per field', 'a product of n fields is n steps of the proved two-field step']),
 'C07': dict(note='Register assignment, eightbyte classes and the call frame are proved for all layouts and depths; whole argument lists are compared with an independent System V classifier (bounded).',
    level='proof', crates=[HL(search=15, kani=dict(harness=['c07::'], timeout=300))],
    trusted=['the System V AMD64 classification rules as written in hl/src/c07.rs'],
    assumptions=['values with more than two components are classified two components at a time (C06)', 'argument lists of more than one value are searched, bounded; the proof covers one value against every state of the register pool, which is the step of the list loop']),
 'C09': dict(note='Random well-typed lowered programs compiled, linked and run by the real code generator against a reference meaning: bounded.',
    level='exploration', crates=[HL(search=20)],
    trusted=['the meaning of the lowered language as written in hl/src/irgen.rs (Interp)'],
    assumptions=['programs of at most 4 functions and 60 nodes each; no code generator run is proved as a whole']),
 'C10': dict(note='Which constants can stand for the same value is proved; whole lowered programs before and after lowering are compared by meaning on generated programs (bounded).',
    level='exploration', crates=[HL(search=20, kani=dict(harness=['c10k::'], timeout=120))],
    trusted=['the meaning of the unlowered and lowered languages as written in hl/src/irgen.rs and hl/src/c10.rs'],
    assumptions=['the proof covers lowering::branch_expander\'s disjointness of integer and character patterns; whole programs are bounded (at most 4 functions, 60 nodes each)']),
 'C11': dict(note='The escape table and one lexer step are proved for all inputs of their stated size; texts as a whole are compared with a reference tokenizer (bounded).',
    level='exploration', crates=[HL(search=15, kani=dict(harness=['c11::'], timeout=200))],
    trusted=['the token grammar as written in hl/src/c11.rs', 'memrchr (std) returns the last occurrence (stubbed in the proof by a loop that does)'],
    assumptions=['the proved step is over one-byte characters; longer texts are searched']),
 'C12': dict(note='Texts are read and printed by the real parser and printer and compared with a reference grammar (bounded).',
    level='exploration', crates=[HL(search=18)],
    trusted=['the S-expression grammar as written in hl/src/c12.rs'],
    assumptions=['S-expressions of at most 40 nodes; strings and recursive enums are out of reach of the verifiers installed']),
 'C13': dict(note='Whole module sets are loaded, ordered, linked and built by the real pipeline and compared with reference export tables (bounded).',
    level='exploration', crates=[HL(search=18)],
    trusted=['the module rules (paths, ports, wildcards, implicit std) as written in hl/src/c13.rs'],
    assumptions=['at most 6 modules in 3 packages; graphs of at most 10 values for the sort', 'hash maps keyed by strings and rayon are out of reach of the verifiers installed']),
 'C14': dict(note='Matches are checked by the real exhaustiveness and usefulness analysis, alone and at the end of the pipeline, and compared with direct enumeration (bounded).',
    level='exploration', crates=[HL(search=18)],
    trusted=['the meaning of patterns as written in hl/src/c14.rs'],
    assumptions=['at most 7 data types and 6 clauses per match; hash maps over recursive patterns are out of reach of the verifiers installed']),
 'C15': dict(note='Whole programs go through the real front end, lowering, code generator and linker and are run; the memory they leave is compared with a reference meaning of the source language (bounded).',
    level='exploration', crates=[HL(search=20)],
    trusted=['the meaning of the surface language as written in hl/src/surf.rs'],
    assumptions=['programs of at most 4 data types, 2 classes, 8 instances and 5 functions; macros, the library and other modules are not drawn', 'arguments are computed left to right and what is called after them']),
 'C16': dict(note='Programs, well-typed or changed at random, go through the real front end; acceptance and every inferred scheme are compared with a reference inference (bounded).',
    level='exploration', crates=[HL(search=20)],
    trusted=['the typing rules as written in hl/src/surf.rs'],
    assumptions=['programs of at most 4 data types, 2 classes, 8 instances and 5 functions', 'recursive groups whose types do not share all their variables are left out: what is inferred for them depends on the order of a hash map', 'kinds other than * and * -> * are not drawn']),
 'C22': dict(note='Number to text and back is proved for every value, radix and length by loop contracts on the C functions (quick tier: radix 10 and two more; thorough: all), with a Verus lemma from the step contracts to the digits of the value; comparison and concatenation are proved for strings of every length. Floating-point text, arguments and processes are searched, bounded.',
    technique='contract-based deductive verification of the real code: loop and function contracts on rt/rt.c discharged by CBMC, Verus lemmas over them, Kani obligations, with bounded search for failing inputs',
    level='proof', crates=[HL(search=15, kani=dict(harness=['c22k::'], timeout=300, args=['-Z', 'c-ffi', '--c-lib', H + '/hl/kani_rt.c']))],
    cbmc=[dict(file='hc/numbers.c', include=['rt'], lemmas=['lemmas/numbers.rs'],
        jobs=lambda tier, seed: [('digits', [])] + [(h, [f'RADIX={r}']) for r in ([10, 2 + seed % 35] if tier == 'quick' else range(2, 37)) for h in ('i64_to_string', 'u64_to_string', 'string_to_i64', 'string_to_u64')])],
    trusted=['memcmp and memcpy do what the C standard says (their contracts are assumed at one arbitrary position)', 'GC_malloc returns fresh memory of the requested size'],
    assumptions=['strings of at most 2^40 bytes', 'floating-point conversion is the C library\'s: compared with an independent conversion on drawn numbers (bounded)', 'processes, directories and arguments are exercised, not proved']),
}
