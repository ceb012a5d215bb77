RT = 'crates/tribute-runtime/src/lib.rs'
HOOKS = dict(guard='cfg(verif_hooks)', enable="RUSTFLAGS='--cfg verif_hooks' when the checks build their driver crate", source_commits=['1746427'])
NOTES = 'See DESIGN.md. Every check rebuilds what it needs from /repo and runs offline.'
KT = 'Kani (CBMC) contracts on the real functions, replayed natively'
KV = 'Verus contracts on functions extracted from the current source, plus ' + KT
PROPS = [
 dict(id='C01', title='Effect dispatch finds the innermost handler',
  statement='After any history of installing effect handlers, looking up an ability in an evidence value yields exactly the prompt tag, tail-resumptive dispatch and handler dispatch of the handler most recently installed for that ability along that value\'s own history. Installing a handler returns a new evidence value and never changes what any earlier evidence value answers.',
  over=['histories', 'inputs'], q='Every sequence and branching of extend calls, every ability id, tag and dispatch pointer, every later lookup of an installed ability.',
  why='The unit tests try a few short histories with small positive ids; order, shadowing, negative ids, long histories and persistence are unbounded.',
  files=[RT], mech=[('sorted marker vector, replace on equal id, insert otherwise', RT + ' Evidence::extend'), ('binary search', RT + ' Evidence::lookup'), ('clone before update', RT + ' Evidence::extend')],
  obs=['__tribute_evidence_empty', '__tribute_evidence_extend', '__tribute_evidence_lookup', '__tribute_evidence_lookup_tr', '__tribute_evidence_lookup_handler'],
  tech=KV, level='model_checking', note='Proved without bound (Verus, on the source text of Evidence::new, lookup and extend): lookup and the one-step contract of extend for every evidence and the lemmas that carry it over any history. ' + 'Bounded model checking plus a bounded inductive step: Kani discharges the ABI contract for histories of 3 installations (with branching) and the one-step contract of extend and lookup from any well-formed evidence of up to 5 markers, over every id, tag and pointer; SmallVec is a model. A native companion runs the same contracts on the real crate for long histories.'),
 dict(id='C02', title='Byte-string operations are exact and own what they return',
  statement='For every byte string: length is the number of bytes (below 2^32), concatenation is a fresh value holding the left bytes then the right bytes, a slice holds exactly the bytes from start to end and takes one more reference on the original, and range comparison answers 1 exactly when both ranges lie inside their strings and agree byte for byte. No operation changes the contents of its operands; a slice outside the string and a concatenation whose length overflows abort the process; every returned value starts with one reference.',
  over=['inputs'], q='Every content, length, start, end, comparison length and reference count.',
  why='Tests check a handful of short ASCII strings; the range arithmetic has 32/64-bit corner cases they never reach.',
  files=[RT], mech=[('checked length arithmetic', RT + ' __tribute_bytes_concat'), ('range checks in 64 bits', RT + ' __tribute_bytes_range_equal'), ('retain on slice', RT + ' __tribute_bytes_slice_or_panic')],
  obs=['__tribute_bytes_len', '__tribute_bytes_range_equal', '__tribute_bytes_concat', '__tribute_bytes_slice_or_panic'],
  tech=KT, level='model_checking', note='Kani contracts on the extern "C" functions: length, concat overflow and out-of-range slices for every value (complete), contents bounded to 3 bytes with every start, end, length and count. Native companion for longer contents.'),
 dict(id='C03', title='Line input is lossless whatever read() does',
  statement='Whatever chunks, interruptions and errors the operating system delivers, successive line reads return the input split at newlines in order with no byte lost, duplicated or invented, one trailing carriage return before a newline removed, a final unterminated line delivered, and end of file reported only when nothing is left. A line that is not valid UTF-8 is reported as an encoding error and reading continues after it; an interrupted read is retried; any other read error is reported with its code; each result carries exactly the payload its kind implies.',
  over=['inputs', 'fault_sequences'], q='Every input, every chunking of it by read(), every placement of EINTR and hard errors, every number of calls.',
  why='Tests feed a few hand-made chunkings; the product of contents, buffer boundaries and fault points is unbounded.',
  files=[RT, 'crates/tribute-runtime/src/tls.rs'], mech=[('buffered refill', RT + ' StdinBuffer::read_byte'), ('line assembly', RT + ' read_line_with'), ('UTF-8 validation', RT + ' line_result')],
  obs=['__tribute_io_read_line', '__tribute_io_read_line_result_dealloc'],
  tech=KV, level='model_checking', note='Proved without bound (Verus, on the source text of read_byte, read_line_with and line_result): every input, chunking and fault sequence. ' + 'Kani contracts with a model of read(2) that returns every chunking, EINTR and error; bounded to 3 input bytes and a buffer of 3. Native companion with the real buffer over pipes of scripted chunks.'),
 dict(id='C04', title='Printed output is written completely and exactly once',
  statement='Every print operation writes exactly its bytes, in order and once, to standard output only, however the operating system splits or interrupts the writes; the optional trailing newline is written exactly when requested. After a write fails for any reason other than an interruption, printing a byte string attempts nothing further and what was written is a prefix. Integers print as their canonical signed or unsigned decimal and finite floats print text that reads back as the same value, each followed by one newline.',
  over=['inputs', 'fault_sequences'], q='Every payload, every sequence of short writes and EINTR, every hard error, every number.',
  why='Tests use a scripted writer for two or three sequences.',
  files=[RT], mech=[('retry loop', RT + ' write_all_with'), ('stdout entry points', RT + ' write_stdout_all')],
  obs=['__tribute_io_write', '__tribute_bytes_print', '__tribute_print_bytes', '__tribute_print_newline', '__tribute_print_int', '__tribute_print_nat', '__tribute_print_float'],
  tech=KV, level='model_checking', note='Proved without bound (Verus, on the source text of write_all_with): every payload and every sequence of short writes and errors. ' + 'Kani contracts with a model of write(2) that returns every short count, EINTR and hard error; bounded to payloads of 3 bytes. Native companion for numbers and long payloads.'),
 dict(id='C05', title='Heap blocks are disjoint; the sanitizer catches heap misuse',
  statement='Every non-zero allocation request yields a block of at least that size, aligned to 8 bytes and disjoint from every live block, or aborts the process; a zero-sized request yields null and releasing null does nothing. With the address sanitizer on, the same holds, releasing a block with any corrupted red-zone byte on either side or releasing a block a second time aborts, and a released block stays poisoned and unreused until the quarantine budget (1 MiB) forces it out, oldest first.',
  over=['histories', 'inputs'], q='Every history of allocations and releases, every size, every corrupted byte position and value.',
  why='Tests allocate and free a few blocks; red-zone positions, quarantine eviction order and arithmetic at extreme sizes are not reached.',
  files=[RT, 'crates/tribute-runtime/src/asan.rs'], mech=[('allocation entry points', RT + ' __tribute_alloc/__tribute_dealloc'), ('red zones and quarantine', 'crates/tribute-runtime/src/asan.rs')],
  obs=['__tribute_alloc', '__tribute_dealloc', '__asan_init'],
  tech=KT, level='model_checking', note='Kani: zero, huge and overflowing sizes complete; block contents bounded (1..4096 plain; 1, 5, 8, 13 sanitized) with every red-zone position and value. Native companion for quarantine histories.'),
 dict(id='C06', title='Reference-counted boxes have one layout',
  statement='For every payload type, a freshly initialised box has reference count 1 at byte offset 0, its type index at offset 4 and an aligned payload (at offset 8 for alignment up to 8) that initialisation leaves untouched; the box recovered from a payload pointer is the box it belongs to, and each retain adds exactly one reference and changes nothing else, also under concurrent retains.',
  over=['inputs', 'schedules'], q='Every payload size and alignment class, every count below the maximum, every type index.',
  why='Tests check one payload type and a few counts.',
  files=['crates/tribute-rc/src/lib.rs'], mech=[('repr(C) header', 'crates/tribute-rc/src/lib.rs RcBox'), ('atomic increment', 'crates/tribute-rc/src/lib.rs RcBox::retain')],
  obs=['RcBox::init', 'RcBox::retain', 'RcBox::from_payload_ptr', 'RcBox::payload_ptr', 'RcBox::payload_offset'],
  tech='Kani (CBMC) contracts on the real functions, loop-free, every value', level='proof', note='Loop-free: Kani covers every count, index and payload for each payload size and alignment class. Concurrency rests on the atomic fetch-add (std atomics trusted) plus a native threaded run.'),
 dict(id='C07', title='Prompt tags are distinct',
  statement='Within one thread, the prompt tags handed out to handler installations are pairwise distinct over any 2^32 consecutive requests, and a repeated runtime initialisation never makes a thread hand out a tag again.',
  over=['histories', 'schedules'], q='Every number of requests, from every counter state, with initialisation repeated anywhere, on every thread.',
  why='Tests draw two or three tags.',
  files=['crates/tribute-runtime/src/tls.rs', RT], mech=[('per-thread wrapping counter', 'crates/tribute-runtime/src/tls.rs ThreadState::next_tag'), ('one-time key creation', 'crates/tribute-runtime/src/tls.rs tls_init')],
  obs=['__tribute_init', '__tribute_next_tag'],
  tech='Kani (CBMC) one-step contract from every counter state', level='proof', note='Complete one-step contract from every counter state; distinctness over 2^32 requests follows because the step is +1 modulo 2^32. Thread-locality is exercised natively.'),
]
TVT = 'verification conditions over all inputs (own VC generator, z3) for the real pass run on each program, replayed by concrete execution'
TVN = 'Each program: the real pass runs, then "same behaviour before and after" is proved by z3 for all inputs, all paths and all environments (loops by an inductive cut at the loop head). Over programs this is a seeded sample plus a systematic corpus, so it is not counted as proved for the pass as such. Floating-point operations are uninterpreted in the proof.'
TI = 'crates/trunk-ir/src/'
PROPS += [
 dict(id='C08', title='Canonicalization preserves what a program does',
  statement='For every well-formed program, running canonicalization leaves each function doing the same thing for every input: the same calls with the same arguments in the same order, the same memory accesses, the same traps and the same results, at every integer width from 1 to 128 bits. It never fails on a well-formed program, and constants of type core.i1 keep the payload 0 or 1.',
  over=['programs', 'inputs'], q='Every program the middle end can build, every argument value, every answer of the environment.',
  why='The unit tests assert the folded constant for a few operand pairs per operation; wrap-around, sign, division corner cases and the interaction of folds with nested regions are unbounded.',
  files=[TI + 'transforms/canonicalize.rs', TI + 'dialect/arith.rs', TI + 'dialect/scf.rs', TI + 'dialect/core.rs'],
  mech=[('integer folds with wrap to width', TI + 'dialect/arith.rs fold_*'), ('constant conditional splice', TI + 'dialect/scf.rs fold_if, transforms/canonicalize.rs apply_splice'), ('cast folding', TI + 'dialect/core.rs fold_unrealized_conversion_cast'), ('greedy driver', TI + 'rewrite/applicator.rs')],
  obs=['transforms::canonicalize::canonicalize', 'transforms::canonicalize_pass'], tech='Kani contracts on every fold of arith.rs at every width, plus ' + TVT, level='translation_validation', note='Proved for the folds themselves (Kani, loop-free): all ten fold functions against the meaning of the operation for every width from 1 to 128, every constant or unknown operand (product, quotient and remainder of two unknowns uninterpreted). ' + TVN + ' The fold corpus covers every integer operation at widths 1, 7, 8, 16, 32, 64 and 128 on all pairs of boundary constants and against a variable.'),
 dict(id='C09', title='Lowering structured control flow preserves behaviour',
  statement='For every well-formed program, replacing scf.if, scf.loop and scf.switch by basic blocks leaves each function doing the same thing for every input, with no structured control flow left: the branch taken, the values yielded, carried and broken out with, the first matching case or else the default, and the innermost loop each continue and break belongs to, for any nesting and any number of iterations.',
  over=['programs', 'inputs'], q='Every nesting of conditionals, loops and switches, every value carried, every number of iterations.',
  why='Tests check the shape of the result for a handful of nestings.',
  files=[TI + 'transforms/scf_to_cf.rs', TI + 'rewrite/helpers.rs'], mech=[('conditionals', TI + 'transforms/scf_to_cf.rs lower_scf_if'), ('loops', TI + 'transforms/scf_to_cf.rs lower_scf_loop, replace_continue_break'), ('switch chains', TI + 'transforms/scf_to_cf.rs lower_scf_switch')],
  obs=['transforms::scf_to_cf::lower_scf_to_cf', 'transforms::scf_to_cf_pass'], tech=TVT, level='translation_validation', note=TVN),
 dict(id='C10', title='Dead code elimination removes only what cannot be observed',
  statement='For every well-formed program, dead-code elimination leaves each function\'s calls, stores, loads from memory, results and control flow unchanged for every input (an unused division may disappear together with its trap); dead-function elimination keeps unchanged every function reachable, through calls, tail calls and function constants, from main, _start, functions with an abi attribute and exported functions, and duplicates none.',
  over=['programs', 'inputs'], q='Every program and call graph, every argument value.',
  why='Tests remove a few hand-made dead values; which operation is removable in which context, nested regions and reference chains are unbounded.',
  files=[TI + 'transforms/dce.rs', TI + 'transforms/global_dce.rs', TI + 'op_interface.rs'], mech=[('purity registry', TI + 'op_interface.rs PureOps'), ('use counting', TI + 'transforms/dce.rs is_dead'), ('reachability', TI + 'transforms/global_dce.rs')],
  obs=['transforms::dce::eliminate_dead_code', 'transforms::dce_pass', 'transforms::global_dce::eliminate_dead_functions'], tech=TVT, level='translation_validation', note=TVN),
 dict(id='C11', title='Inlining preserves what a program does',
  statement='For every well-formed program, inlining leaves each function doing the same thing for every input: arguments bound in order, the inlined body\'s effects in place of the call and in order, its result in place of the call\'s result, also for tail calls, for calls inside nested regions, for callees called several times and for callees with nested control flow; external, recursive and mutually recursive callees are still called, and inlining terminates.',
  over=['programs', 'inputs'], q='Every program and call graph, every argument value.',
  why='Tests inline single calls in small functions and look at the text.',
  files=[TI + 'transforms/inline.rs', TI + 'transforms/call_graph.rs', TI + 'ir_mapping.rs', TI + 'context.rs'], mech=[('body splice', TI + 'transforms/inline.rs splice_callee_body_before'), ('cloning', TI + 'context.rs clone_op/clone_region'), ('recursion detection', TI + 'transforms/call_graph.rs')],
  obs=['transforms::inline::inline_functions'], tech=TVT, level='translation_validation', note=TVN + ' Calls to non-recursive functions of the module are executed in place on both sides; termination is observed per program only.'),
]
CB = 'crates/trunk-ir-cranelift-backend/src/'
PROPS += [
 dict(id='C12', title='Native code computes what the IR says',
  statement='For every well-formed program over core.i1, i8, i16, i32, i64, f32, f64, ptr and nil, the native back end (structured control flow, arith, func, mem and cf lowering and emission to Cranelift) produces code that does the same thing for every input: each arith operation at each width with the right signedness, every comparison predicate, integer and float constants, conversions, truth values as 0 or 1, loads and stores of the right width at the right address, calls of the right function with all non-nil arguments in order, function addresses, branches, loops, switches, traps and results. Every function, declared external and call site gets the signature its declaration lowers to; proper tail calls between CPS functions (calling convention 2, nil result) stay tail calls in the tail calling convention, and all other functions use the platform convention.',
  over=['programs', 'inputs'], q='Every program in the fragment, every argument value, every answer of the environment.',
  why='Tests compare printed lowered IR of single operations; the composition of six lowerings and the emission, for every operation, width and control-flow shape, is unbounded.',
  files=[CB + 'passes/arith_to_clif.rs', CB + 'passes/cf_to_clif.rs', CB + 'passes/func_to_clif.rs', CB + 'passes/mem_to_clif.rs', CB + 'function.rs', CB + 'translate.rs', 'crates/tribute-passes/src/native/type_converter.rs'],
  mech=[('arith lowering', CB + 'passes/arith_to_clif.rs'), ('emission', CB + 'function.rs FunctionTranslator'), ('signatures and conventions', CB + 'function.rs translate_signature, call_conv_for_cps_signature')],
  obs=['emit_module_to_native', 'passes::arith_to_clif::lower', 'passes::func_to_clif::lower', 'passes::cf_to_clif::lower', 'passes::mem_to_clif::lower'], hook='crates/trunk-ir-cranelift-backend/src/verif_hooks.rs: names behind the Cranelift function and data ids', tech=TVT, level='translation_validation', note=TVN + ' The other side of each proof is the Cranelift IR text the emitter hands to the code generator. A corpus covers every operation at every width, on arbitrary operands and on boundary constants. Known finding: an indirect tail call whose signature has a core.i1 parameter is rejected.'),
]
WB = 'crates/trunk-ir-wasm-backend/src/'
PROPS += [
 dict(id='C13', title='WebAssembly code computes what the IR says',
  statement='For every well-formed program over core.i1, i32, i64, f32, f64 and nil (arithmetic, comparisons with every signed and unsigned predicate, conversions, constants, scf.if with a result, direct, indirect and tail calls, function values, early returns), the WebAssembly back end emits a module that passes WebAssembly validation and does the same thing for every input: each operation at each width with the right signedness, truth values as 0 or 1, the branch taken and its value, calls of the right function with the arguments in order, function values resolved through the function table, indirect calls with the signature of the callee, tail calls as tail calls, traps and results. Every function has the WebAssembly type its declaration lowers to.',
  over=['programs', 'inputs'], q='Every program in the fragment, every argument value, every answer of the environment.',
  why='Tests compare printed lowered IR and a few encoded modules; no test executes an emitted module.',
  files=[WB + 'passes/arith_to_wasm.rs', WB + 'passes/scf_to_wasm.rs', WB + 'passes/func_to_wasm.rs', WB + 'emit.rs', WB + 'emit/handlers/call_handlers.rs', WB + 'emit/handlers/control_flow_handlers.rs', 'crates/tribute-passes/src/wasm/lower.rs'],
  mech=[('arith lowering', WB + 'passes/arith_to_wasm.rs'), ('function table', WB + 'passes/func_to_wasm.rs add_function_table'), ('emission', WB + 'emit.rs emit_function'), ('signature registry', WB + 'emit/call_indirect_collection.rs')],
  obs=['emit_module_to_wasm', 'wasm::lower::lower_to_wasm', 'passes::arith_to_wasm::lower', 'passes::func_to_wasm::lower'], tech=TVT, level='translation_validation', note=TVN + ' The other side of each proof is the decoded binary of the emitted module; wasmparser decides validity. Known finding: an indirect tail call whose signature has a core.i1 parameter is rejected.'),
]
PA = 'crates/tribute-passes/src/'
TP = PA + 'native/'
PROPS += [
 dict(id='C14', title='Structs, enums, boxes and closures keep their contents in native code',
  statement='For every well-formed program over structs, enums, boxed integers, booleans and floats, nullable references and closure records (a function pointer and an environment), native code sees exactly the values that were put in: a field read returns the value last stored in that field of that object and no other, whatever the field types, order and number; a variant test answers whether the object was built with that variant, whether used as a condition or as a value; a variant payload read returns the constructor argument; boxing followed by unboxing is the identity; a null test distinguishes null from every object; the same object reached through different references is the same object; function pointers stored in fields call the stored function with the stored environment. No read or write falls outside the object or touches another object, a reference count header or constant data, and no field is read before it is written.',
  over=['programs', 'inputs'], q='Every program over these operations, every type layout, every input and path.',
  why='Tests check printed lowered IR for single operations and single layouts; interactions of layout, header, boxing, joins, loops and calls are unbounded.',
  files=[CB + 'passes/adt_to_clif.rs', 'crates/trunk-ir/src/adt_layout.rs', TP + 'adt_rc_header.rs', TP + 'rtti.rs', TP + 'tribute_rt_to_clif.rs', TP + 'type_converter.rs'],
  mech=[('layouts', 'crates/trunk-ir/src/adt_layout.rs compute_struct_layout, compute_enum_layout'), ('field access', CB + 'passes/adt_to_clif.rs'), ('boxes', TP + 'tribute_rt_to_clif.rs'), ('allocation headers', TP + 'adt_rc_header.rs')],
  obs=['emit_module_to_native', 'adt_to_clif::lower', 'adt_rc_header', 'tribute_rt_to_clif'], tech='Verus contracts on the layout functions, plus ' + TVT, level='translation_validation', note='Proved without bound (Verus): compute_struct_layout and compute_enum_layout place every field aligned, in bounds and disjoint. ' + TVN + ' Before lowering objects are abstract records; after it the emitted code runs on a byte-addressed heap.'),
 dict(id='C15', title='Reference counting never releases an object that is still used',
  statement='For every well-formed program over structs, enums, boxes, nullable references and closure records, with every setting of the reference-counting passes (borrowed parameters and borrowed temporaries on or off, count optimisation on or off), the emitted native code never reads, writes, retains or releases an object after its count reached zero, never lets a count go below zero, never releases an object twice, frees each object at the address and with the size it was allocated with, and, when an object dies, runs the release function of its own type, which releases every field of a struct or enum type exactly once. This holds across calls with owned and borrowed parameters, tail and indirect calls, joins, loops, field updates and struct-typed views. Excluded, and listed as known findings: an object constructed in a function that is both stored in a field and returned or tail-passed by it, a field whose own type is a struct read from an object at its last use, and a function returning a struct-typed parameter.',
  over=['programs', 'inputs'], q='Every program over these operations, every pass setting, every input and path.',
  why='A premature release needs a particular pattern of last uses, joins and aliases to show; tests look at the placement of retain and release in a few printed functions.',
  files=[TP + 'rc_insertion.rs', TP + 'ownership_summary.rs', TP + 'rc_optimization.rs', TP + 'rc_lowering.rs', TP + 'rtti.rs', TP + 'adt_rc_header.rs'],
  mech=[('retain and release placement', TP + 'rc_insertion.rs insert_rc_in_function'), ('call contracts', TP + 'ownership_summary.rs'), ('pair elimination', TP + 'rc_optimization.rs'), ('count updates and deep release', TP + 'rc_lowering.rs, ' + TP + 'rtti.rs')],
  obs=['rc_insertion', 'rc_lowering', 'emit_module_to_native'], tech=TVT, level='translation_validation', note=TVN + ' The emitted code, including the release functions reached through the emitted type table, runs on a heap whose allocator, counts and releases are part of the contract. Three known findings.'),
 dict(id='C16', title='Built-in operators, lists, byte strings and line IO survive native lowering',
  statement='For every well-formed program that uses the built-in Int, Nat and Float operators (called directly or as function values), list construction, emptiness test, head and tail, byte and string constants, byte length and indexed byte access, and line output and input, the emitted native code behaves as the operations are documented: Int operators are signed 32-bit, Nat operators unsigned 32-bit, Float operators IEEE double, each for every operand; head and tail of a prepended list give back exactly the element (of any element type) and the list it was built from, and sharing a tail between lists does not change any of them; a constant has exactly its bytes, whatever other constants the program has; indexed access yields the byte as a value from 0 to 255 and panics for every index outside the length; output receives exactly the bytes and the newline flag, in program order; every answer of line input (a line, end of file, an encoding error, a system error with its code and message) arrives as the matching result variant. No call of a built-in is left to the linker. Lists and boxed elements are never read after release (byte strings held in fields or lists are excluded there: known finding).',
  over=['programs', 'inputs', 'fault_sequences'], q='Every program over these operations, every input and every answer of the environment.',
  why='Every operator has its own table entry and signedness, every element type its own boxing; tests check the printed shape of a few lowered calls and never execute them.',
  files=[PA + 'intrinsic_to_arith.rs', PA + 'list_intrinsics.rs', PA + 'io_lowering.rs', TP + 'intrinsic_to_native.rs', TP + 'list.rs', TP + 'io.rs', TP + 'const_to_native.rs'],
  mech=[('operator table', PA + 'intrinsic_to_arith.rs'), ('list lowering', PA + 'list_intrinsics.rs, ' + TP + 'list.rs'), ('byte strings', TP + 'const_to_native.rs, ' + TP + 'intrinsic_to_native.rs'), ('line input and output', PA + 'io_lowering.rs, ' + TP + 'io.rs')],
  obs=['intrinsic_to_arith', 'list_native', 'emit_module_to_native'], tech=TVT, level='translation_validation', note=TVN + ' One known finding.'),
 dict(id='C17', title='A lambda runs with the values it captured, however it is passed and called',
  statement='For every well-formed program that creates lambdas, nests them, passes them to functions (declared as function or closure types), returns them, joins them over branches and loops, stores them in objects and calls them, under the untagged, direct and evidence-direct conventions and under exact closure types with the environment at any slot, the emitted native code runs, at each call, exactly the body of the lambda the value was created from, with the parameters in the order of the call and every captured variable holding the value it had when that lambda was created; two creations of one lambda do not influence each other; calling a lambda any number of times, from any function, changes none of its captured values; functions of other linkage keep it when a parameter is a function. Environments and captured objects are never read after release (closures stored in fields of objects, and struct-typed views of objects, are excluded there: known findings here and at C15).',
  over=['programs', 'inputs'], q='Every program over these constructs and every input.',
  why='Capture layout, environment position and call signature are computed separately at the creation and at every call, and must agree for every combination of types, conventions and nesting; tests check the printed shape of single cases.',
  files=[PA + 'lower_closure_lambda.rs', PA + 'closure_lower.rs', 'crates/tribute-core/src/calling_convention.rs'],
  mech=[('lifting of lambdas and environments', PA + 'lower_closure_lambda.rs'), ('closure objects and calls', PA + 'closure_lower.rs')],
  obs=['lower_closure_lambda', 'lower_closures_in_func', 'emit_module_to_native'], tech=TVT, level='translation_validation', note=TVN + ' One known finding.'),
 dict(id='C18', title='Structs, enums, boxes and references keep their contents on WebAssembly',
  statement='For every well-formed program that builds structs and enum variants with integer, float, truth-value and reference fields, boxes Int, Nat, Bool and Float values, passes them through functions, branches and untyped references, tests and casts variants and references, and reads and updates fields, the WebAssembly back end emits a module that passes validation and that returns, for every input, exactly what the source operations say: every field of every object holds the value last written to it and no other field or object changes, a variant test is true exactly for values built by that variant of that enum, a boxed value is unboxed unchanged with its sign (Int and Nat within 31 bits), null is null and nothing else is, and two types of the same shape stay apart where a program can tell. Fields are updated through struct-typed references; enum values are read after a cast to the variant. Excluded: casts of an untyped reference to an enum type.',
  over=['programs', 'inputs'], q='Every program over these constructs, every argument and every answer of the environment.',
  why='Type indices, field indices and storage types are chosen in separate collection and emission phases that must agree for every mix of types; no test executes an emitted module.',
  files=[WB + 'passes/adt_to_wasm.rs', WB + 'passes/wasm_gc_to_wasm.rs', WB + 'emit/gc_types_collection.rs', WB + 'emit/handlers/struct_handlers.rs', WB + 'emit/handlers/ref_handlers.rs', PA + 'wasm/tribute_rt_to_wasm.rs', PA + 'wasm/type_converter.rs'],
  mech=[('object lowering', WB + 'passes/adt_to_wasm.rs'), ('GC type table', WB + 'emit/gc_types_collection.rs'), ('boxes', PA + 'wasm/tribute_rt_to_wasm.rs')],
  obs=['emit_module_to_wasm', 'wasm::lower::lower_to_wasm', 'passes::adt_to_wasm::lower'], tech=TVT, level='translation_validation', note=TVN + ' The other side of each proof is the decoded binary of the emitted module; wasmparser decides validity.'),
 dict(id='C19', title='Lambdas run with their captured values on WebAssembly',
  statement='For every well-formed program that creates lambdas, nests them, passes them to functions, returns them, joins them over branches, stores them in objects and calls them, under the untagged, direct and evidence-direct conventions and under exact closure types, the WebAssembly back end emits a valid module in which each call runs exactly the body of the lambda the value was created from, through the function table and with the signature of that body, with the parameters in the order of the call and every captured variable holding the value it had when that lambda was created; two creations do not influence each other and no call changes a captured value. Excluded (known findings): parameters declared with a function type that are captured, and objects passed to a lambda by the function that built them.',
  over=['programs', 'inputs'], q='Every program over these constructs and every input.',
  why='The signature of an indirect call, the layout of environments and the table slot of each body are computed separately at creation and call; no test executes an emitted module.',
  files=[PA + 'lower_closure_lambda.rs', PA + 'closure_lower.rs', WB + 'passes/func_to_wasm.rs', WB + 'emit/call_indirect_collection.rs', WB + 'emit/handlers/call_handlers.rs', PA + 'wasm/type_converter.rs'],
  mech=[('lifting of lambdas and environments', PA + 'lower_closure_lambda.rs'), ('closure objects and calls', PA + 'closure_lower.rs'), ('function table and indirect calls', WB + 'passes/func_to_wasm.rs'), ('signatures', WB + 'emit/call_indirect_collection.rs')],
  obs=['lower_closure_lambda', 'lower_closures_in_func', 'emit_module_to_wasm'], tech=TVT, level='translation_validation', note=TVN + ' The other side of each proof is the decoded binary of the emitted module; wasmparser decides validity. Two known findings.'),
 dict(id='C20', title='Effect operations reach the innermost handler in native code',
  statement='For every well-formed program that installs handlers (by extending evidence or by a final handler delimiter), shadows them, passes evidence to functions and closures and performs operations, the native back end emits code in which every fn operation runs, exactly once and in place, the tail dispatcher most recently installed for exactly its ability (name and type arguments) along the evidence of the performing function, with that evidence, the index of exactly that operation and the operation arguments in order, and continues with its answer; every op operation runs the general dispatcher found in the same way, with the continuation closure, the prompt tag of that installation, the operation index and the arguments, and returns its answer; a delimiter gives its body, and only its body, the extended evidence, with one fresh prompt tag; the index tells the operations of an ability apart (as far as its hash does); and handlers installed elsewhere are not affected.',
  over=['programs', 'inputs'], q='Every program over these constructs and every input.',
  why='Ability identifiers, operation indices, payload layout and dispatcher signatures are computed separately where a handler is installed, where an operation is performed and where the dispatcher was compiled; the unit tests look at single rewritten operations.',
  files=[PA + 'lower_ability_perform.rs', PA + 'resolve_evidence.rs', PA + 'lower_handle_dispatch.rs', PA + 'native/evidence.rs', 'crates/tribute-ir/src/dialect/ability.rs'],
  mech=[('operations to dispatches, payloads', PA + 'lower_ability_perform.rs'), ('delimiters to evidence', PA + 'resolve_evidence.rs'), ('delimiter bodies', PA + 'lower_handle_dispatch.rs'), ('native dispatch', PA + 'native/evidence.rs'), ('ability and operation identities', 'crates/tribute-ir/src/dialect/ability.rs')],
  obs=['LowerAbilityPerform', 'ResolveEvidenceDispatch', 'LowerHandleDispatch', 'LowerEvidenceToNative'], tech=TVT, level='translation_validation', note=TVN + ' The evidence functions of the runtime enter by their contract (C01).'),
]
NA = [
 dict(id='N01', title='Resumable handlers mean the same after conversion to continuations',
  statement='For every program with handlers that resume, converting it to continuation-passing form keeps its results, the order of its effects and the number of times each continuation runs.',
  over=['programs', 'inputs'], q='Every program with handlers and every input.', why='Continuations may be dropped, run once or run several times, at any nesting depth.',
  files=[PA + 'tribute_control_to_cps.rs'], mech=[('control to continuation-passing form', PA + 'tribute_control_to_cps.rs')],
  reason='The conversion is not part of any pipeline at this commit, and perform/call carry no evidence operand there, so an operation inside a generated continuation has no defined meaning to state a contract against. The lowering of effects that the pipelines do run is C20.'),
 dict(id='N02', title='Accepted programs are well typed and names resolve lexically',
  statement='For every source program the front end accepts, each expression has the type inference reports, and each name refers to the innermost binding in scope.',
  over=['programs'], q='Every source program.', why='Inference and resolution are defined over all programs; tests sample a few.',
  files=['crates/tribute-front/src'], mech=[('type inference and resolution', 'crates/tribute-front/src')],
  reason='crates/tribute-front does not build in this sandbox (its dependencies are not available offline), so no verifier can read it and no check could rebuild it.'),
 dict(id='N03', title='The language server answers as if it had read the text afresh',
  statement='After any history of edits, diagnostics, hover and completion are those of a fresh analysis of the current text.',
  over=['histories'], q='Every history of edits.', why='Incremental reuse depends on the history, not on one text.',
  files=['src/lsp'], mech=[('incremental analysis', 'src/lsp')],
  reason='The root crate does not build in this sandbox (its dependencies are not available offline).'),
 dict(id='N04', title='Printed IR parses back to the same module',
  statement='For every module, parsing its printed form gives a module with the same operations, types, attributes and structure.',
  over=['programs'], q='Every module.', why='Every combination of types, attributes and regions has to survive.',
  files=['crates/trunk-ir/src/printer.rs', 'crates/trunk-ir/src/parser'], mech=[('printer', 'crates/trunk-ir/src/printer.rs'), ('parser', 'crates/trunk-ir/src/parser')],
  reason='Printer and parser work on interned arena graphs through formatting and combinator code that neither Verus nor Kani reaches, and the statement is false today for documented kinds of values (float infinities and NaN, symbols that need quotes, attributes of closure types).'),
]
