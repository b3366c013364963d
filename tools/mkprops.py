import json
P=[]
BACK=["sljit_src/sljitNativeX86_common.c","sljit_src/sljitNativeX86_32.c","sljit_src/sljitNativeX86_64.c","sljit_src/sljitNativeARM_64.c","sljit_src/sljitNativeARM_32.c","sljit_src/sljitNativeARM_T2_32.c","sljit_src/sljitNativeRISCV_common.c","sljit_src/sljitNativeRISCV_64.c","sljit_src/sljitNativeS390X.c","sljit_src/sljitNativeLOONGARCH_64.c","sljit_src/sljitNativePPC_common.c","sljit_src/sljitNativePPC_32.c","sljit_src/sljitNativePPC_64.c","sljit_src/sljitNativeMIPS_common.c","sljit_src/sljitNativeMIPS_32.c","sljit_src/sljitNativeMIPS_64.c"]
def p(id,title,stmt,over,text,why,files,mech,obs,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p("C01","Integer operations compute the documented value on every backend",
 "For every integer operation of the API (moves with sign/zero extension, bit counts, byte reversal, add, subtract with and without carry, multiply, logic, shifts, rotates, funnel shifts, two-word multiply and divide), every operand form (register, immediate, memory, aliased operands) and both operand widths, the generated code leaves in the destination exactly the value the API documentation defines. The result does not depend on the backend, on the choice of registers, on how an immediate is encoded, or on whether the status flags are requested.",
 ["inputs","programs","configurations"],"All operand values, immediates, register choices and memory operands, for all operations, on each supported backend.",
 "Each test runs one fixed program with a few hand-picked constants; immediate encodings and instruction selection change at dozens of thresholds per backend which are mostly not sampled.",
 BACK+["sljit_src/sljitLir.h"],[("emit_op1/emit_op2/emit_shift_into/emit_op0 per backend","sljit_src/sljitNative*.c: sljit_emit_op0, sljit_emit_op1, sljit_emit_op2, sljit_emit_op2r, sljit_emit_shift_into, emit_single_op"),("immediate loading","sljit_src/sljitNative*.c: load_immediate, emit_imm64_const, load_imm, make_imm")],
 ["register and memory contents after each instruction, stored by the generated code itself"])
p("C02","Status flags are set, kept and consumed as documented",
 "After an operation that requests status flags, every later jump, flag-to-value operation, conditional select, carry-consuming add or subtract, and combined compare sees the condition that the documentation derives from the operand values (zero, unsigned and signed order, overflow, carry), on every backend and for both operand widths. Flags survive the instructions that are documented not to change them, and a condition and its negation never both hold or both fail.",
 ["inputs","programs","configurations"],"All operand values and operand forms of flag-setting operations, all conditions, all consumers, and all flag-preserving instructions placed between producer and consumer, on each backend.",
 "Tests check a handful of operand pairs per condition; emulated flags (MIPS, RISC-V, LoongArch) and fused compares have separate code paths for each operand form, immediate range and consumer.",
 BACK,[("flag producers","sljit_src/sljitNative*.c: emit_single_op, sljit_emit_op2u, status_flags_state"),("flag consumers","sljit_src/sljitNative*.c: sljit_emit_jump, sljit_emit_cmp, sljit_emit_op_flags, sljit_emit_select, sljit_emit_op2cmpz")],
 ["branch taken or not, value written by flag consumers"])
p("C03","Memory accesses touch exactly the addressed bytes, in every addressing form",
 "A load or store through any supported addressing form (absolute, base+offset of any size, base+shifted index, stack-relative, register pair, pre/post update, unaligned) reads or writes exactly the documented number of bytes at exactly the documented address in the target's byte order, with the documented sign or zero extension. No other byte of memory changes, and address updates change the base register to exactly the accessed address (pre) or the advanced one (post).",
 ["inputs","programs","configurations"],"All offsets, scales, base/index/value register combinations, access sizes, signedness and alignments on each backend.",
 "Offset range handling has many encoding thresholds per backend and access size; tests use a few offsets and check only a few cells.",
 BACK,[("address formation","sljit_src/sljitNative*.c: getput_arg, emit_op_mem, getput_arg_fast, sljit_emit_mem, sljit_emit_mem_update, sljit_emit_fmem, update_mem_addr"),("local access","sljit_src/sljitLir.c: sljit_get_local_base, ADJUST_LOCAL_OFFSET")],
 ["whole contents of the data buffers and of local space before and after"])
p("C04","An instruction changes nothing but its documented destination",
 "Executing any instruction leaves every register, floating point register and local variable other than its documented destinations with the value it had before. This holds for any number of scratch, saved and floating point registers and any local size the function declares, and for programs of any length.",
 ["programs","configurations"],"All programs over all declared register sets and local sizes on each backend.",
 "Tests look at the destination of an instruction and seldom at the rest of the machine state; register declarations used are few.",
 BACK+["sljit_src/sljitLir.c"],[("temporary register discipline","sljit_src/sljitNative*.c: TMP_REG1/TMP_REG2/TMP_REG3/TMP_FREG1, other_r, tmp_ea_reg"),("stack layout","sljit_src/sljitNative*.c: sljit_emit_enter, sljit_set_context")],
 ["all registers and local bytes at every observation point"])
p("C05","Jumps, fast calls, label addresses and jump tables reach the right place",
 "Every jump, conditional jump, compare-and-jump, fast call and return, indirect jump through a label address or jump table transfers control exactly to its label (or falls through exactly when its condition is false), no matter how far away the target is, in which direction, how many other jumps and labels exist, or how the code was shortened or extended. Label addresses, jump table entries and aligned labels are reported and laid out as documented.",
 ["programs","configurations"],"All placements of labels, jumps of every kind, distances (short, near, far, multi-page), alignments, and fixed or rewritable jump requests.",
 "Branch shortening and veneer/constant-pool logic depends on distance thresholds in each backend; tests use a few distances.",
 ["sljit_src/sljitLir.c"]+BACK,[("branch shortening","sljit_src/sljitNative*.c: detect_jump_type, generate_jump_code, reduce_code_size, sljit_generate_code"),("labels","sljit_src/sljitLir.c: set_label, set_extended_label, set_op_addr"),("fast call","sljit_src/sljitNative*.c: sljit_emit_op_dst(SLJIT_FAST_ENTER), sljit_emit_op_src(SLJIT_FAST_RETURN)")],
 ["sequence of visited program points", "label addresses returned after code generation"])
p("C06","Calls and function frames follow the declared signature and preserve state",
 "A generated function receives exactly the arguments its caller passed for any argument type list, returns exactly the returned value, and leaves its caller's preserved registers (including floating point ones) and stack intact; a call from generated code to C or to generated code passes arguments, returns results, keeps all saved registers and local variables, and keeps the platform stack alignment. Tail calls, register arguments, kept saved registers, return-to and late frame changes behave as documented.",
 ["inputs","programs","configurations"],"All signatures, register counts, local sizes, call kinds (direct, indirect, register-argument, tail), argument values and entry options on each backend.",
 "Calling convention code permutes registers by signature; the number of signature x register-count x option combinations is in the thousands and tests use a few dozen.",
 BACK+["sljit_src/sljitLir.c","sljit_src/sljitLir.h"],[("prologue/epilogue","sljit_src/sljitNative*.c: sljit_emit_enter, emit_stack_frame_release, sljit_emit_return, sljit_emit_return_to"),("argument moves","sljit_src/sljitNative*.c: call_with_args, softfloat/hardfloat variants, sljit_emit_call, sljit_emit_icall, SLJIT_CALL_RETURN handling")],
 ["argument values seen by callee, return values, preserved registers, stack pointer"])
p("C07","Floating point operations are IEEE correct and bit-exact where specified",
 "Floating point moves, negation, absolute value, sign copy, constants, register/integer copies, loads and stores transfer the exact bit pattern, conversions between integers and floats and between widths give the correctly rounded (or truncated) value, arithmetic is correctly rounded, and every comparison condition gives the documented answer including for unordered operands, zeros and infinities. Conditional float selects and float compare jumps follow the same conditions.",
 ["inputs","programs","configurations"],"All single and double bit patterns, all operand forms and aliasing, all float conditions on each backend.",
 "Tests use a few ordinary values plus a NaN; sign-of-zero, subnormal, boundary-of-integer and operand aliasing cases are rarely present.",
 BACK+["sljit_src/sljitLir.c"],[("float emission","sljit_src/sljitNative*.c: sljit_emit_fop1, sljit_emit_fop2, sljit_emit_fop2r, sljit_emit_fop1_conv_*, sljit_emit_fop1_cmp, sljit_emit_fset*, sljit_emit_fcopy, sljit_emit_fselect, sljit_emit_fmem")],
 ["bit patterns of float registers and memory"])
p("C08","SIMD operations act lane-wise exactly as documented",
 "Wherever a SIMD operation is reported as supported, it transforms its vector registers and memory exactly as documented for every register size, element size, lane index and operand form: moves, replication, lane access (with sign extension or zeroing), lane replication, widening, sign collection and bitwise combinations. Bytes outside the accessed memory range and lanes outside the operation are unchanged or zeroed exactly as documented.",
 ["inputs","programs","configurations"],"All lane contents, types, lanes, immediates, alignments and operand forms reported as available on the backend.",
 "Tests use a few types and lane indexes per operation.",
 ["sljit_src/sljitNativeX86_common.c","sljit_src/sljitNativeARM_64.c","sljit_src/sljitNativeARM_32.c","sljit_src/sljitNativeARM_T2_32.c","sljit_src/sljitNativeS390X.c","sljit_src/sljitNativeRISCV_common.c","sljit_src/sljitNativeLOONGARCH_64.c"],[("SIMD emission","sljit_src/sljitNative*.c: sljit_emit_simd_mov, sljit_emit_simd_replicate, sljit_emit_simd_lane_mov, sljit_emit_simd_lane_replicate, sljit_emit_simd_extend, sljit_emit_simd_sign, sljit_emit_simd_op2")],
 ["vector register bytes, memory bytes"])
p("C09","Atomic load/store pairs never lose or tear an update",
 "A conditional atomic store that reports success has replaced the value its paired atomic load returned with no other update of that location in between, so read-modify-write loops built from the pair are linearizable; a store that reports failure leaves memory untouched. The pair accesses exactly the bytes of its operand size and extends the loaded value as documented.",
 ["schedules","inputs","configurations"],"All interleavings of threads executing load/modify/store loops on shared locations, all operand sizes and values.",
 "Tests run the pair on one thread without interference, so only the success path is exercised.",
 BACK,[("atomic emission","sljit_src/sljitNative*.c: sljit_emit_atomic_load, sljit_emit_atomic_store")],
 ["per-thread results and success flags, final memory contents, neighbouring bytes"])
p("C10","Run-time code modification redirects exactly the patched site",
 "After rewriting the target of a rewritable jump or call, or the value of a rewritable constant, in finished code, executing the code uses the new target or value at exactly that site, for any new value and any number of rewrites, and everything else in the code behaves as before. Address queries after generation (jumps, constants, labels, executable offset) identify those sites, and constants keep any value representable in their kind.",
 ["inputs","histories","configurations"],"All target addresses and constant values, all constant kinds and destination forms, all sequences of rewrites on each backend and executable memory mode.",
 "Tests rewrite a few sites with a few values; the multi-instruction immediates split values in backend-specific bit fields.",
 BACK+["sljit_src/sljitLir.c"],[("patching","sljit_src/sljitNative*.c: sljit_set_jump_addr, sljit_set_const, modify_imm64_const, inline_set_jump_addr, inline_set_const"),("emission of patchable sites","sljit_src/sljitNative*.c: sljit_emit_const, sljit_emit_op_addr, SLJIT_REWRITABLE_JUMP")],
 ["values returned and targets reached after each rewrite"])
p("C11","Serializing a compiler and restoring it resumes the same compilation",
 "A compiler serialized at any point of code emission and restored from the buffer can continue emission and generates code that behaves exactly like the code of a compiler that was never serialized, with jumps, constants and labels enumerated in the same order and the same results. Serialization does not change the original compiler, and damaged, truncated or foreign buffers or a compiler in an error state give a null result and no effect.",
 ["programs","histories","inputs"],"All programs, all serialization points, repeated round trips, option combinations, and buffer sizes.",
 "One test serializes a few short programs at a fixed point.",
 ["sljit_src/sljitSerialize.c","sljit_src/sljitLir.c"],[("serialization","sljit_src/sljitSerialize.c: sljit_serialize_compiler, sljit_deserialize_compiler")],
 ["code behaviour after the round trip, list enumeration, bytes of a second serialization"])
p("C12","Executable memory blocks are disjoint, writable on request and fully reclaimed",
 "Every live block returned by an executable memory allocator is suitably aligned, at least as large as requested, disjoint from all other live blocks and keeps its contents until it is freed, for any sequence or interleaving of allocations, frees and trims by any threads. Freed space is merged and reused and memory is handed back to the system as documented, the executable view corresponds to the writable view, and no block is ever writable and executable where the allocator promises that.",
 ["histories","schedules","configurations","fault_sequences"],"All sequences of allocation, free and trim requests of any sizes, any thread interleaving, and mapping failures, for each allocator.",
 "Tests allocate a few code blocks and never mix sizes, order of frees, failures or threads.",
 ["sljit_src/allocator_src/sljitExecAllocatorCore.c","sljit_src/allocator_src/sljitExecAllocatorPosix.c","sljit_src/allocator_src/sljitProtExecAllocatorPosix.c","sljit_src/allocator_src/sljitWXExecAllocatorPosix.c"],[("block list","sljit_src/sljitExecAllocatorCore.c: sljit_malloc_exec, sljit_free_exec, sljit_free_unused_memory_exec"),("chunk mapping","sljit_src/allocator_src/*.c: alloc_chunk, free_chunk")],
 ["addresses returned, block contents, mappings requested from and returned to the system"],
 state=[("block headers","size and previous size of each block in a chunk","sljitExecAllocatorCore.c: struct block_header"),("free list and totals","free blocks, allocated_size, total_size","sljitExecAllocatorCore.c")])
p("C13","Compiler errors are sticky, complete and leak nothing under any failure",
 "When any memory or executable memory request of a compiler fails, the first error code is kept, every later call on the compiler returns an error or null without effect and without crashing, and code generation returns null. Freeing the compiler afterwards (or after success) releases every block exactly once, and after successful generation the compiler can be queried but not emitted to.",
 ["fault_sequences","histories","programs"],"All programs and all points at which an allocation can fail, in every allocator mode.",
 "Tests never make an allocation fail.",
 ["sljit_src/sljitLir.c","sljit_src/sljitSerialize.c"],[("error macros","sljit_src/sljitLir.c: CHECK_ERROR, PTR_FAIL_IF, FAIL_IF, FAIL_IF_NULL"),("buffer allocation","sljit_src/sljitLir.c: ensure_buf, ensure_abuf, sljit_create_compiler, sljit_free_compiler, allocate_executable_memory")],
 ["return values, error code, allocator call log"])
p("C14","The growable stack keeps its contents and bounds under any resize history",
 "A stack obtained from the stack utility keeps its limits, its start and end bounds and the contents of the still-committed part across any sequence of successful or refused resizes; a resize beyond the limits fails and changes nothing. Releasing the stack returns exactly the memory it reserved.",
 ["histories","inputs","fault_sequences"],"All sequences of resize requests and sizes, including failing ones.",
 "One test does a fixed sequence of resizes.",
 ["sljit_src/sljitUtils.c"],[("stack utility","sljit_src/sljitUtils.c: sljit_allocate_stack, sljit_stack_resize, sljit_free_stack")],
 ["stack fields after each call, page accessibility, contents"])
p("C15","Argument checking rejects every invalid call and no valid one",
 "With argument checking enabled, a call whose arguments violate the documented constraints returns the bad-argument error (and makes the compiler fail from then on), and a call that satisfies them is accepted and produces the same code as without checking. No rejected call emits code.",
 ["inputs","histories","configurations"],"All calls: operations, operand encodings, register numbers relative to the declared register set, option bits, flag protocol states.",
 "Only few invalid calls appear in tests; most checks are never triggered.",
 ["sljit_src/sljitLir.c"],[("checks","sljit_src/sljitLir.c: check_sljit_*, function_check_src, function_check_dst, function_check_mem, CHECK_ARGUMENT")],
 ["return value and error code of each call, emitted code size"])
p("C16","The regex engine finds the leftmost match of the documented length for any input",
 "For every valid pattern of the supported syntax and every input, the compiled matcher reports a match exactly when the pattern's language has one in the input, with the position, length and identifier the documentation prescribes (leftmost; longest by default, shortest when non-greedy), honouring the begin, end and newline options. Feeding the input in any split into pieces gives the same answer as feeding it whole, and invalid patterns are rejected with an error rather than mis-compiled.",
 ["inputs","histories","configurations"],"All patterns, all inputs, all splittings of the input, all match options.",
 "The regex tests are a fixed table of patterns with one input each.",
 ["regex_src/regexJIT.c","regex_src/regexJIT.h"],[("parser and compiler","regex_src/regexJIT.c: parse, generate_transitions, compile_*, regex_compile"),("matching","regex_src/regexJIT.c: regex_begin_match, regex_continue_match, regex_get_result, regex_is_match_finished")],
 ["match position, length, identifier after each piece"])
p("C17","Generated code fits its reported size and its addresses stay inside it",
 "Generated code occupies no more than the reported code size, generating into a caller-supplied buffer never writes outside that buffer and fails cleanly when it is too small, and label, jump, constant and read-only buffer addresses lie inside the generated code in emission order and with the requested alignment and size. Code generated into a caller-supplied buffer behaves like code in allocated memory.",
 ["programs","configurations"],"All programs, alignments, read-only buffer sizes and buffer sizes.",
 "The size estimation is a separate pass from emission in every backend; tests generate few shapes and do not check bytes outside.",
 ["sljit_src/sljitLir.c"]+BACK,[("size estimation and buffer setup","sljit_src/sljitLir.c: allocate_executable_memory, SLJIT_ADD_EXEC_OFFSET, sljit_get_generated_code_size; sljit_src/sljitNative*.c: sljit_generate_code, reduce_code_size")],
 ["guard bytes around the code, reported addresses and size"])
p("C18","Independent compilers do not affect each other, in any interleaving",
 "Compilers used at the same time, whether their calls are interleaved in one thread or they run in different threads, and whether or not other compilers are being created, generated, freed or serialized meanwhile, each produce code that behaves as if that compiler were used alone. Code that has been generated stays valid and unchanged until it is freed.",
 ["schedules","histories","programs"],"All interleavings of calls of several compilers and threads.",
 "Tests use one compiler at a time in one thread.",
 ["sljit_src/sljitLir.c","sljit_src/allocator_src/sljitExecAllocatorCore.c"]+BACK[:2],[("compiler-local state","sljit_src/sljitLir.h: struct sljit_compiler"),("allocator lock","sljit_src/sljitExecAllocatorCore.c: SLJIT_ALLOCATOR_LOCK")],
 ["results of every generated function"])
p("C19","Feature queries agree with what can be emitted, and asking emits nothing",
 "Whenever a feature query, a comparison query or a test-only emission request reports support, the corresponding real emission succeeds and behaves as documented, and whenever it reports no support the emission returns the unsupported result without putting the compiler in an error state. Test-only requests never emit code or change the compiler.",
 ["inputs","programs","configurations"],"All features, operations, types, operand forms and register numbers.",
 "Tests only use a query to decide whether to skip.",
 ["sljit_src/sljitLir.c"]+BACK,[("queries","sljit_src/sljitNative*.c: sljit_has_cpu_feature, sljit_cmp_info, sljit_get_register_index; SLJIT_SIMD_TEST, SLJIT_ATOMIC_TEST, SLJIT_MEM_SUPP")],
 ["return codes, code size before and after, behaviour of the emitted code"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
M=dict(version=1,setup_cmd="true",checks=[],not_applicable=[dict(property=d["id"],reason="check not built yet") for d in P])
json.dump(M,open("/verif/MANIFEST.json","w"),indent=1)
