"""The properties, one entry each (bin/gen writes properties.jsonl and MANIFEST.json from this)."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe=None, technique=None, level=None, na=None):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe)
    if na:
        d["na"] = na
    else:
        d["technique"], d["level"] = technique, level
    PROPS.append(d)


LIR = "sljit_src/sljitLir.c"
BACK = "sljit_src/sljitNative*.c"

P("C01", "Errors are sticky: a failed compiler emits nothing more",
  "Once a compiler object holds an error (out of memory, out of executable memory, unsupported operation, bad argument, already compiled), "
  "every later call of an emitter, label, jump, constant, data or code generation function on it returns that same error code "
  "(NULL if it returns a pointer), whatever its other arguments are. Such a call changes nothing in the compiler object and "
  "allocates, frees and writes no memory, except that out parameters may be cleared.",
  ["histories", "inputs", "configurations"],
  "every public function taking a compiler, every recorded error code, every argument value, every target architecture, with and without argument checking",
  "The tests run with compilers that do not fail; an error state is entered in only a couple of hand written places and then probed with a handful of calls on one architecture.",
  [LIR, BACK, "sljit_src/sljitSerialize.c"],
  [("error field tested first in every public function", LIR + " CHECK_ERROR, CHECK_ERROR_PTR"),
   ("argument checks are skipped or accept anything in the error state", LIR + " CHECK")],
  ["return value", "compiler object", "heap"],
  "path-sensitive interprocedural dataflow (property simulation) with the error field fixed to each error code",
  "Sound over all paths of the analysed sources for 18 target configurations, with and without argument checks; assumes C semantics without wild "
  "pointers; verbose output is not an effect; sljit_free_compiler, sljit_compiler_verbose and sljit_set_current_flags are exempt as documented.")

P("C02", "Failed allocations are always reported, never dereferenced or swallowed",
  "If memory runs out inside any call that builds code (emitters, labels, jumps, constants, data, operand setup, compiler creation and deserialization), "
  "the NULL result is never dereferenced, an error is recorded in the compiler, and the call itself returns that error code "
  "(NULL if it returns a pointer). A call that has recorded an error never returns success or a non-NULL pointer, and a call that returns an error or NULL has recorded it, "
  "with the exception of answers to support queries and refused argument values.",
  ["fault_sequences", "inputs", "configurations"],
  "every allocation site failing at any point of any public call, on every path through it, on every architecture",
  "No test injects allocation failures; with real memory they never occur, and there are thousands of paths per architecture on which one could.",
  [LIR, BACK, "sljit_src/sljitSerialize.c"],
  [("allocation results tested, error recorded", LIR + " ensure_buf, ensure_abuf, FAIL_IF_NULL, PTR_FAIL_IF_NULL"),
   ("results of internal emitters passed up", BACK + " FAIL_IF, PTR_FAIL_IF")],
  ["return value", "sljit_get_compiler_error"],
  "path-sensitive interprocedural dataflow (property simulation) with every allocation forked into success and failure",
  "Sound over all paths for 18 target configurations with and without argument checks, up to the join of contexts beyond the stated limits (which only adds paths); "
  "sljit_generate_code and serialization are left to the resource properties.")

P("C07", "No instruction reuses an address or mode cached for an earlier instruction",
  "The code emitted by a call never depends on address caching or operand mode working values left behind in the compiler by an earlier call: each call sets these before it uses them. "
  "In particular an instruction with memory operands never assumes that a temporary register still holds an address computed for a previous instruction.",
  ["histories", "configurations"],
  "every history of earlier calls, every public emitter, every path through it, every architecture",
  "It takes two particular consecutive instructions with large offsets to the same base to make a stale value visible, and only on some architectures.",
  [BACK, LIR],
  [("cache reset at the start of each emitter", "sljit_src/sljitNative{MIPS_common,RISCV_common,LOONGARCH_64}.c cache_arg, cache_argw"),
   ("operand mode set by each emitter", "sljit_src/sljitNative{X86_64,X86_common,S390X}.c mode32, mode")],
  ["emitted machine code"],
  "must-be-defined dataflow per public function (interprocedural, path-sensitive on flag bits)",
  "Sound over all paths for 18 configurations for the address cache and the operand mode values; the immediate work values of PPC and ARM-32 are not covered (DESIGN.md).")

P("C08", "An [SLJIT_SP + n] operand denotes the same local slot everywhere",
  "Wherever an instruction accepts a memory operand with the stack pointer as its only base, and in the query for the address of a local variable, "
  "the offset used by the generated code is the given offset moved by the target's local area offset exactly once: never forgotten, never applied twice, whatever path through the emitter is taken. "
  "(Instructions that update their base register are not meant.)",
  ["programs", "configurations"],
  "every operand of every public emitter, every path through it, on every target whose local area does not start at the stack pointer",
  "Tests use locals with a few instructions; a missing or doubled adjustment is invisible on the targets with offset zero and on slots nobody else uses.",
  [BACK, LIR],
  [("operands adjusted on entry of the emitter", LIR + " ADJUST_LOCAL_OFFSET")],
  ["emitted machine code"],
  "taint dataflow counting the adjustments of each operand up to the stores into the instruction buffer",
  "Decides, for each operand of each public function on the targets with a non-zero local offset (x86-32, ARM-64, PPC, MIPS-32, s390x), that every value derived from the operand "
  "that is stored as part of the code has been adjusted once, on all paths; that the remaining address arithmetic is right is not decided.")

P("C10", "Support queries change nothing and agree with the real instruction",
  "A call that only asks whether an instruction form is supported (memory access with base update, vector operation or atomic access called with its test flag) emits no code, allocates nothing, "
  "leaves the compiler object unchanged (including what argument checking knows about the flags) and answers success or unsupported. "
  "If it answers success, the same call without the test flag never reports that the form is unsupported, and such a refusal never comes after code was emitted; "
  "if it answers unsupported, the real call refuses too.",
  ["inputs", "configurations"],
  "every query function, all arguments, every path, every architecture and CPU feature set",
  "Each function accepts thousands of type, size and operand combinations and the answer depends on the architecture and the CPU; tests try a few combinations on the CPU they run on.",
  [BACK, LIR],
  [("test flag decided after the last unsupported return and before the first instruction", BACK + " SLJIT_SIMD_TEST, SLJIT_MEM_SUPP, SLJIT_ATOMIC_TEST")],
  ["return value", "emitted machine code", "compiler object"],
  "path-sensitive effect analysis of both variants of each call, split at the branches that depend on the test bit",
  "Sound over all paths for 18 configurations; the agreement is decided in release mode (with verbose output the real call asks the query itself), purity with and without argument checks. "
  "Lazily detected CPU features and the per-call working values of C07 are not counted as effects.")

P("C04", "Code memory is opened, closed, and flushed around every write to it",
  "Executable memory is written only between making it writable and making it executable again. sljit_generate_code, sljit_set_jump_addr, sljit_set_const, "
  "and the pair sljit_read_only_buffer_start_writing / sljit_read_only_buffer_end_writing make every byte they write executable again before they return, flush all of these bytes from the "
  "instruction cache on processors whose instruction cache is not coherent (for code, not for data words in it), and write nothing to the range afterwards. With an allocator that maps "
  "code twice, writes go to the writable mapping, while flushes and the addresses returned to the caller belong to the executable mapping.",
  ["inputs", "configurations"],
  "every jump, constant and buffer address and value, every way through code generation, every target architecture, with the default, the W^X and the dual mapping allocators",
  "Emulators used by the tests have coherent caches and the default allocator maps memory writable and executable, so missing flushes and protection changes cannot be observed by running the code.",
  [LIR, BACK, "sljit_src/allocator_src/*"],
  [("protection switch around writes", "SLJIT_UPDATE_WX_FLAGS"), ("instruction cache flush", "SLJIT_CACHE_FLUSH"),
   ("address translation between the mappings", "SLJIT_ADD_EXEC_OFFSET, executable_offset")],
  ["memory protection", "instruction cache", "returned addresses"],
  "typestate analysis over symbolic linear address ranges (interprocedural, path-sensitive)",
  "All paths of the patching functions with symbolic addresses; in sljit_generate_code the written range is abstracted to 'from the start of the code to the current write position'. "
  "Windows, Apple and BSD variants of the allocators cannot be parsed here.")

P("C05", "Concurrent use of different compilers needs no locking by the caller",
  "Static data of the library that different threads can reach through different compilers is either constant, or accessed only while one common lock is held, or a cache of system properties "
  "which every thread fills with the same values independent of any caller's data: no intermediate value of a cache is ever stored, and nothing marks a cache as filled before it is. "
  "The free block structures of the executable allocators are accessed only under the allocator lock. No function acquires a lock it holds, releases a lock it does not hold, or returns while holding one.",
  ["schedules", "configurations"],
  "every interleaving of any number of threads in any public functions working on different compilers, code objects and stacks",
  "The test suite is single threaded.",
  [LIR, BACK, "sljit_src/sljitUtils.c", "sljit_src/allocator_src/*"],
  [("allocator lock", "SLJIT_ALLOCATOR_LOCK, SLJIT_ALLOCATOR_UNLOCK"), ("one time detection", "get_cpu_features, init_compiler, get_page_alignment")],
  ["static data"],
  "lockset analysis (Eraser style, static) plus lock typestate and value provenance of unlocked static data",
  "All mutable static objects and all accesses to them in 18 target configurations with three allocators on Linux; the read of executable_offset in the caller's own block is exempt; "
  "stores made by inline assembly (s390x stfle) are not seen.")

P("C09", "Argument checks precede every effect and validate exactly the caller's arguments",
  "With argument checking enabled, a public function that validates its arguments passes its own unmodified parameters, each in its place, to the validator before it "
  "changes, allocates or emits anything; if the validator refuses, the function returns SLJIT_ERR_BAD_ARGUMENT (or NULL) and has no further effect. A function that validates on one target validates on every target. "
  "Switching off the checks for an internal forwarding call never outlives the public call: unless an error is recorded, every public function returns with the checks of the next call switched on.",
  ["inputs", "histories", "configurations"],
  "every argument combination of every public function on every target, every path through the functions",
  "The tests pass valid arguments, except for a handful of invalid ones; a check that is skipped or looks at the wrong parameter is invisible to valid programs.",
  [LIR, BACK],
  [("validators", LIR + " check_sljit_*"), ("use", "CHECK, CHECK_PTR"), ("forwarding", "SLJIT_SKIP_CHECKS")],
  ["return value", "sljit_get_compiler_error", "compiler object"],
  "interprocedural dataflow: argument provenance and typestate of the skip_checks mark",
  "All paths of all public functions for 18 target configurations with argument checks. What each validator accepts is not judged.")

P("C16", "System properties are determined before anything depends on them",
  "CPU features, hardware capabilities, vector lengths, page sizes and other static caches of system properties are filled in before a public function uses them, whichever public function of the library is called first.",
  ["histories", "configurations"],
  "every order in which a program may make its first calls into the library, every path through them",
  "A test process runs one fixed sequence, which creates a compiler or asks for a feature early on; once that happened, everything is determined for the rest of the process.",
  [LIR, BACK, "sljit_src/sljitUtils.c", "sljit_src/allocator_src/*"],
  [("lazy detection", "sljit_has_cpu_feature, get_page_alignment"), ("detection by the first compiler", LIR + " sljit_create_compiler, init_compiler")],
  ["return value", "generated code"],
  "must-be-initialised dataflow over static caches, interprocedural",
  "All paths of all public functions for 18 target configurations; a compiler argument implies what sljit_create_compiler determines on all its successful paths.")

P("C03", "Whatever the library acquires is released exactly once or handed over",
  "Memory, executable memory, mappings and file descriptors acquired inside a public call are, on every path out of it (also when any later acquisition in the call fails), either released exactly once, "
  "with the matching kind of release and the same allocator data, or owned by the result, by the compiler object or by other memory that outlives the call. Nothing is accessed or released after its release, and nothing is accessed whose acquisition failed. "
  "What sljit_create_compiler, the emitters, sljit_allocate_stack, sljit_generate_code and the chunk functions of the allocators acquire is released completely by their counterparts (sljit_free_compiler, sljit_free_stack, sljit_free_code, ...).",
  ["fault_sequences", "inputs", "configurations"],
  "every acquisition failing or succeeding at every point of every public function, every path, every architecture and every POSIX allocator variant",
  "The tests inject no failures and look for no leaks; a leak or a double release on an error path is invisible to them.",
  [LIR, BACK, "sljit_src/sljitSerialize.c", "sljit_src/sljitUtils.c", "sljit_src/allocator_src/*Posix.c", "sljit_src/allocator_src/sljitExecAllocatorCore.c"],
  [("release on error paths", LIR + " sljit_create_compiler; sljit_src/sljitSerialize.c error label; sljit_src/sljitUtils.c sljit_allocate_stack"),
   ("chunks", "sljit_src/allocator_src/sljitProtExecAllocatorPosix.c alloc_chunk"),
   ("constant pool patches", "sljit_src/sljitNativeARM_32.c resolve_const_pool_index")],
  ["heap", "mappings", "descriptors"],
  "ownership analysis: path-sensitive interprocedural typestate over acquisitions, their owners and releases",
  "Sound over all paths for 18 targets and the core, protected and W^X allocator variants, with lists summarised and blocks inside allocator chunks not tracked; on ARMv6 the emptiness of the list of patches "
  "at the end of code generation is taken from the assertion in the code. Windows, Apple and BSD allocators are not parsed here.")

P("C12", "A deserialized compiler continues exactly where the serialized one was",
  "Every part of the compiler's state which later emit calls, argument checks or code generation depend on is saved by sljit_serialize_compiler and restored into the same place by sljit_deserialize_compiler on every path that succeeds: "
  "compiler fields, all members of the label, jump and constant records, the machine code, and constant pools, with the sections in the same order. Deserialization reads no section before comparing its size with the end of the buffer, "
  "so a truncated buffer is refused and not read past its end. Serialization changes nothing in the compiler except its error code.",
  ["inputs", "histories", "configurations"],
  "every state in which a compiler can be serialized (any sequence of emit calls), every options combination, every truncation of the buffer, every architecture",
  "The tests serialize three programs, each at one point and only on the architecture they run on; a field which matters only right after a comparison, in the middle of an ARM constant pool or in a MIPS delay slot is not met.",
  ["sljit_src/sljitSerialize.c", LIR, BACK],
  [("saving", "sljit_src/sljitSerialize.c sljit_serialize_compiler"), ("restoring", "sljit_src/sljitSerialize.c sljit_deserialize_compiler"),
   ("state", "sljit_src/sljitLir.h struct sljit_compiler")],
  ["serialized buffer", "code generated after deserialization"],
  "field-by-field provenance dataflow through the serialized records, with liveness of the fields that are not saved",
  "All paths of both functions for 18 targets in all build modes. Fields are compared by where they come from; buffers with damaged contents (as opposed to truncated ones) are not judged.")

P("C14", "Argument checks, assertions and verbose output only observe",
  "The code and the results the library produces for a program of valid calls are the same whether argument checks, assertions and verbose output are compiled in or not: outside of the checks themselves every function does the same in all these builds "
  "(no needed work is done inside an assertion or under a debug switch), and the checks change nothing but their own bookkeeping. Setting a verbose stream changes nothing but output: neither generated code, nor what the checks accept. "
  "All output goes to the stream given to sljit_compiler_verbose, and none is written if there is no such stream.",
  ["inputs", "configurations"],
  "every program, every build mode (argument checks, debug, verbose), verbose stream set or not, every architecture",
  "The tests run one build mode, and look neither at the output nor at differences between builds.",
  [LIR, BACK, "sljit_src/sljitUtils.c", "sljit_src/allocator_src/*"],
  [("checks", LIR + " check_sljit_*, CHECK, CHECK_ARGUMENT"), ("assertions", "SLJIT_ASSERT, SLJIT_DEBUG"), ("output", LIR + " sljit_verbose_*, sljit_compiler_verbose")],
  ["generated code", "return values", "output streams"],
  "bisimulation of the control flow graphs of two build modes after erasing what only checks use; effect and control dependence analysis of the checks; path-sensitive stream provenance",
  "All functions of 16 targets in two checking build modes compared with the release build. Serialization, which stores the values the checks need, is compared by C12 instead; "
  "the jump sizes x86 debug builds keep in spare bits of jump->flags are taken as unused elsewhere.")

P("C06", "No result depends on uninitialised memory",
  "On every path which reports no error, every local variable is set before it is read, and every object the library creates has all members set before they are read and before the creating call returns: the compiler object, memory fragments, "
  "labels, jumps, constants (also those restored by sljit_deserialize_compiler), constant pool patches, executable memory headers and the stack of sljit_allocate_stack. Every label, jump and constant is linked into the list of its compiler, "
  "so what the library does depends only on its arguments, never on what was in memory before.",
  ["inputs", "histories", "configurations"],
  "every path of every function, every sequence of calls, every allocator (dirty memory, memory of freed compilers), every architecture and build mode",
  "Fresh memory is mostly zero in a test process, and a compiler folds an undefined value into the expected one, so a missing initialisation passes until the allocator, the optimiser or the call sequence changes.",
  [LIR, BACK, "sljit_src/sljitSerialize.c", "sljit_src/sljitUtils.c", "sljit_src/allocator_src/*"],
  [("records", LIR + " set_label, set_extended_label, set_jump, set_const, sljit_create_compiler"), ("restored records", "sljit_src/sljitSerialize.c"), ("stack", "sljit_src/sljitUtils.c sljit_allocate_stack")],
  ["generated code", "lists of labels, jumps and constants", "returned objects"],
  "definite assignment dataflow (path sensitive, interprocedural) over locals and over the members of newly allocated records",
  "All functions of 16 targets in three build modes. Members of unions count as set when any alternative is; contents of arrays in local variables are tracked as a whole; contents of the code buffers are not tracked.")

P("C11", "sljit_set_context establishes the same function context as sljit_emit_enter",
  "For the same arguments, sljit_set_context leaves every member of the compiler that describes the current function (options, numbers of scratch, saved, float and vector registers, local area size, size of the stack arguments, return type) "
  "with exactly the value sljit_emit_enter gives it, its argument check accepts exactly the same arguments, and both functions set all of these members on every path, "
  "so nothing of an earlier function of the same compiler remains.",
  ["inputs", "histories", "configurations"],
  "all arguments (register counts, kept registers, argument types, local sizes), any functions generated before by the same compiler, every architecture",
  "The tests call sljit_set_context with a few contexts and rarely with more than one function per compiler; a frame size which is wrong only for some register counts, or a member left by an earlier function, is not met.",
  [LIR + " (set_emit_enter, check_sljit_set_context)", BACK],
  [("context", BACK + " sljit_set_context, sljit_emit_enter"), ("common part", LIR + " set_emit_enter"), ("argument checks", LIR + " check_sljit_set_context, check_sljit_emit_enter")],
  ["compiler object", "code generated afterwards"],
  "global value numbering of the members over gated slices of both functions, compared case by case",
  "All arguments, 16 targets, release and checking builds. Sizes accumulated over the argument types are compared by their increments, not by the order of iteration; members every emit function changes are outside of the comparison.")

P("C15", "Registers: one machine register each, as the calling convention requires",
  "On every architecture each virtual register (R, S, SP, FR, FS, VR, VS) other than those documented as emulated on x86-32, and each temporary register the code generator uses internally, has a machine register of its own (the second halves of 64 bit "
  "float registers belong to the same machine register). Saved registers are mapped to machine registers which the calling convention of the platform preserves across calls, the others to registers it does not preserve and which are not reserved for the platform; "
  "stack pointer and return registers are those of the calling convention. sljit_get_register_index reports the number of the machine register, or -1 for emulated registers only.",
  ["inputs", "configurations"],
  "every virtual and temporary register, integer, float and vector, every architecture",
  "A wrong entry only matters to functions with many registers, which call C functions compiled to use the same machine register; the tests use few registers at a time and on one architecture.",
  [BACK, "sljit_src/sljitConfigInternal.h"],
  [("register tables", BACK + " reg_map, reg_lmap, freg_map, freg_ebit_map, vreg_map"), ("register counts", "sljit_src/sljitConfigInternal.h"), ("query", BACK + " sljit_get_register_index")],
  ["values in registers across calls", "sljit_get_register_index"],
  "constant evaluation of the register tables and of sljit_get_register_index for every register, compared with the register sets of the calling conventions",
  "All registers of 16 target configurations; the sets of preserved, reserved, return and stack registers are those of the published calling conventions. Windows and AIX conventions are not checked.")

P("C17", "Sources are read before the destination changes",
  "On RISC-V, LoongArch, ARM, ARM64, MIPS and PowerPC the machine instructions emitted for an operation never read a source operand (a register, or the base or index register of a memory operand) after an instruction of the same operation "
  "has written the destination, when source and destination are the same register. Hence every operation may use its destination register as a source as well, as base or index of a source memory operand, and (pairs of registers) as base of a load: "
  "moves, arithmetic, shifts, shift into, select, float operations and conversions, memory loads, atomic loads and SIMD operations.",
  ["inputs", "configurations"],
  "every operation, 32 and 64 bit, every combination of operand kinds, every immediate, CPU feature and register number for which destination and source coincide, on every path through the code generator",
  "Whether a register is overwritten too early depends on the operation, the kinds of the operands, the size of immediate offsets, CPU features and the address cache; the tests use few of the combinations, and on one architecture.",
  [BACK],
  [("operations", BACK + " sljit_emit_op1, sljit_emit_op2, sljit_emit_op2r, sljit_emit_shift_into, sljit_emit_select, sljit_emit_fop1, sljit_emit_fop2, sljit_emit_mem"),
   ("helpers", BACK + " emit_op, emit_op_mem, getput_arg, emit_single_op, push_inst")],
  ["machine instructions emitted", "values in registers"],
  "path-sensitive taint and typestate analysis of register numbers in emitted instruction words, decoded by an abstract instruction decoder (opcode bits known, register fields symbolic)",
  "All paths for every scenario (operation, operand kinds, which operands coincide) of 15 target configurations. x86 and s390x instructions are not decoded; instructions whose opcode is not known on a path count as changing nothing. "
  "Immediates are taken to stay within their instruction fields.")

P("C18", "Successful operations write their destination",
  "On RISC-V, LoongArch, ARM, ARM64, MIPS and PowerPC a call that emits an operation with a destination never reports success without having emitted a machine instruction that writes the destination register or, for a destination in memory, "
  "that uses the base register of its address. This holds for moves, arithmetic, shifts, shift into, flags, select, float operations, conversions and constants, both result registers of LMUL and DIVMOD, "
  "memory loads (both registers of a pair, and the updated base register of the update forms), memory stores (the stored registers are read), SIMD and atomic operations, return addresses, local base addresses and patchable constants. "
  "Exempt are operations whose destination is also a source, MOV of an immediate on ARM64, the address loaded by sljit_emit_op_addr into a register, and DIV/DIVMOD on 32 bit ARM.",
  ["inputs", "configurations"],
  "every such operation, 32 and 64 bit, every combination of operand kinds, every immediate, offset and CPU feature, on every path through the code generator",
  "An operation that is silently dropped shows up only for the operand kinds, sizes of immediates, CPU features and architectures that take the path; the tests use few of the combinations, and on one architecture.",
  [BACK],
  [("operations", BACK + " sljit_emit_op1, sljit_emit_op2, sljit_emit_op2r, sljit_emit_op0, sljit_emit_select, sljit_emit_fop1, sljit_emit_fop2, sljit_emit_mem, sljit_emit_simd_mov, sljit_emit_op_flags"),
   ("helpers", BACK + " emit_op, emit_op_mem, getput_arg_fast, getput_arg, emit_single_op, push_inst")],
  ["machine instructions emitted", "values in registers and memory"],
  "path-sensitive must-analysis (property simulation) of the destination effects of emitted instruction words, decoded by an abstract instruction decoder",
  "All paths for about 3000 scenarios (operation, operand kinds) of each of 15 target configurations. x86 and s390x instructions are not decoded; an instruction whose opcode is not known on a path counts as the expected one, "
  "as does code that is not written by the instruction functions. That the value written is the right one is not decided.")

P("C19", "Operations change no other register of the program",
  "On RISC-V, LoongArch, ARM, ARM64, MIPS and PowerPC the machine instructions emitted for an operation write no general, float or vector register of the program other than the destination of the operation (and the base register of the memory update forms, "
  "the second result register of LMUL and DIVMOD, the second half of a 128 bit register on 32 bit ARM, the temporary register of an atomic store): source registers, base and index registers of memory operands and all other registers keep their values. "
  "This holds for the operations of C18 and for compares, indirect jumps, prefetches, fast returns, flag setting forms without destination and stores. The stack pointer is not covered.",
  ["inputs", "configurations"],
  "every such operation, 32 and 64 bit, every combination of operand kinds, every immediate, offset and CPU feature, on every path through the code generator",
  "A clobbered register shows up only if the program still uses it, and only for the operand kinds, sizes of immediates, CPU features and architectures that take the path; the tests use few of the combinations, and on one architecture.",
  [BACK],
  [("operations", BACK + " sljit_emit_op1, sljit_emit_op2, sljit_emit_op2u, sljit_emit_op_src, sljit_emit_fop1, sljit_emit_cmp, sljit_emit_fcmp, sljit_emit_mem, sljit_emit_ijump"),
   ("helpers", BACK + " emit_op, emit_op_mem, getput_arg, emit_single_op, push_inst")],
  ["machine instructions emitted", "values in registers"],
  "path-sensitive effect analysis of emitted instruction words, decoded by an abstract instruction decoder (destination registers compared with the allowed ones)",
  "All paths for about 3000 scenarios (operation, operand kinds) of each of 15 target configurations. x86 and s390x instructions are not decoded; instructions whose opcode or destination register is not known on a path count as harmless.")

P("C20", "Accepted operations never reach unreachable code or false assertions",
  "In debug builds (SLJIT_DEBUG and SLJIT_ARGUMENT_CHECKS) an emit operation whose arguments pass the argument checks never executes SLJIT_UNREACHABLE(), and never evaluates an SLJIT_ASSERT whose condition is false for the kind of arguments given, on any of the supported CPUs: "
  "every opcode, every operand kind, every condition code (including the atomic store and ordered / unordered float conditions) and every register class accepted by the checks is handled by the code generator.",
  ["inputs", "configurations"],
  "every opcode, condition code and combination of operand kinds accepted by the argument checks, 32 and 64 bit, every immediate, offset and CPU feature, on every path through the code generator",
  "A condition or opcode missing from a switch of one back end aborts in debug builds and generates code for another condition in release builds; the tests run on one architecture and use only some of the combinations.",
  [BACK, "sljit_src/sljitLir.c"],
  [("conditions", BACK + " get_cc, get_jump_instruction, get_select_cc, sljit_emit_jump, sljit_emit_op_flags, sljit_emit_select, sljit_emit_fselect"),
   ("operations", BACK + " emit_single_op, sljit_emit_op0, sljit_emit_op1, sljit_emit_op2, sljit_emit_fop1, sljit_emit_fop2"),
   ("argument checks", "sljit_src/sljitLir.c check_sljit_emit_*")],
  ["abort of the program (debug build)", "condition of generated code (release build)"],
  "path-sensitive interprocedural value analysis (constants, ranges, known bits, constant tables); unreachable code and assertions as error states, argument checks as filters",
  "About 4600 scenarios (operation, operand kinds, condition) for each of 16 target configurations, with the argument checks of the library as the precondition. Unreachable code at the end of a search loop is not decided (its loop bound is a number theoretic argument), nor are assertions over values which are not known.")

P("C21", "Operations documented not to modify flags leave the status flags alone",
  "On RISC-V, LoongArch, ARM, ARM64, MIPS and PowerPC no machine instruction emitted for an operation which is documented not to modify the status flags changes them: moves and float moves between registers and memory, multi register and update forms of memory accesses, "
  "NOP and barriers, prefetches, fast returns, return addresses, op_flags with MOV, select and fselect, indirect jumps, conditional jumps, SIMD operations, atomic loads, patchable constants and addresses. "
  "The status flags are the flag bits of the status register on ARM, ARM64 and PowerPC (CR0, CR1 and carry; a jump may destroy the carry flag), and the two flag registers on the others.",
  ["inputs", "configurations"],
  "every such operation, 32 and 64 bit, every combination of operand kinds, every immediate, offset and CPU feature, on every path through the code generator",
  "A lost flag matters only if the program tests the flag after the operation, and shows up only for the sizes of offsets and immediates, CPU features and architectures which take the path; the tests use a flag right after it was set.",
  [BACK, "sljit_src/sljitLir.h"],
  [("operations", BACK + " sljit_emit_op1, sljit_emit_fop1, sljit_emit_mem, sljit_emit_op_flags, sljit_emit_select, sljit_emit_jump, sljit_emit_simd_mov"),
   ("helpers", BACK + " emit_op_mem, getput_arg, load_immediate, emit_set_delta, push_inst")],
  ["machine instructions emitted", "status flags"],
  "path-sensitive effect analysis of emitted instruction words (flag effects of opcodes, writes to flag registers), IT blocks tracked on Thumb-2",
  "All paths for about 670 scenarios (operation, operand kinds) of each of 15 target configurations. x86 and s390x instructions are not decoded; instructions whose opcode or destination register is not known on a path count as harmless.")

P("C22", "Memory operands are accessed at exactly their address",
  "On RISC-V, LoongArch, ARM, ARM64, MIPS and PowerPC the machine instructions emitted for a move or an arithmetic operation with memory operands access, for every operand, exactly the documented address "
  "(base + offset, base + (index << shift), local_base + offset, absolute address) with the documented size, once and in order, whatever the offset: sljit_emit_op1 moves of every size and sign, sljit_emit_fop1 moves of both precisions, "
  "and sljit_emit_op2 with two or three memory operands which share parts of their address; and the value loaded is extended, combined and stored as documented.",
  ["inputs", "configurations"],
  "every addressing mode, every offset at and around every power of two and every constant the code generator compares with, every operation size, every run-time register content",
  "Offsets are split into the fields of instructions of eight encodings with different limits and rounding; each of the hundreds of limits has its own off by one, which shows only for the offsets at the limit on that architecture; tests use a few dozen offsets.",
  [BACK],
  [("operations", BACK + " sljit_emit_op1, sljit_emit_op2, sljit_emit_fop1"),
   ("address computation", BACK + " getput_arg, getput_arg_fast, can_cache, emit_op_mem, emit_fop_mem, load_immediate, emit_add_sp, emit_set_delta")],
  ["machine instructions emitted", "addresses and sizes of memory accesses"],
  "abstract interpretation of the code generator with constant propagation, and of the instruction words it emits in a domain of affine expressions over the initial register values modulo the word size",
  "About 238000 scenarios (operation, addressing mode, offset, three choices of registers) in 15 target configurations, 100 percent decided; other offsets are not examined. x86 and s390x instructions are not modelled. A violation is reported only with a valuation of the registers for which the address or value differs.")

P("C23", "Moves and integer operations compute the documented result for every immediate",
  "On RISC-V, LoongArch, ARM, ARM64, MIPS and PowerPC the machine instructions emitted for sljit_emit_op1 moves (every size and sign, from registers and immediates, to registers and memory) and for sljit_emit_op2 "
  "ADD, SUB, AND, OR, XOR, MUL, shifts and rotates without flags (word and 32 bit, with immediates on either side and with registers which may coincide) leave the documented result in the destination for every run-time content of the registers, and access no memory otherwise. "
  "Shift counts of the non-masked shifts are in range.",
  ["inputs", "configurations"],
  "every operation, every immediate at and around every power of two, patterns of bytes and halfwords and every constant the code generator compares with, every shift count, every run-time register content",
  "Every architecture has its own immediate encodings, multi-instruction constants and special forms chosen by the value; a wrong limit or fixup shows only for the constants at the limit; tests use a few constants per operation.",
  [BACK],
  [("operations", BACK + " sljit_emit_op1, sljit_emit_op2"),
   ("constants", BACK + " load_immediate, get_imm, logical_imm, generate_int, emit_op_imm, emit_single_op, TEST_ macros")],
  ["machine instructions emitted", "values of the destination"],
  "abstract interpretation of the code generator with constant propagation, and of the instruction words it emits in a domain of affine expressions and uninterpreted bit operations over the initial register values",
  "About 213000 scenarios (operation, operands, immediate, three choices of registers) in 15 target configurations, 100 percent decided; other immediates are not examined. Operations which set flags, multiply-high, divisions and the bit counting and byte reversing operations are not covered. x86 and s390x instructions are not modelled.")

P("C24", "Conditional operations test exactly the documented condition",
  "On RISC-V, LoongArch, ARM, ARM64, MIPS and PowerPC: after sljit_emit_op2 / sljit_emit_op2u with a flag requested (zero, less, greater, signed less and greater, overflow, carry; word and 32 bit), sljit_emit_jump "
  "is taken, and sljit_emit_op_flags produces 1, exactly when the documented relation of the operands holds, for every run-time content of the registers, for the condition and for its opposite, also when the zero flag is requested together "
  "with another flag; the result of the operation is not affected by the flags requested. sljit_emit_op_flags with and / or / xor combines its destination with that value. "
  "ADDC and SUBC after an operation which set the carry compute the documented sum or difference and carry out, whatever forms the two operations use; 32 bit results can be used by later 32 bit operations. "
  "sljit_emit_cmp jumps exactly when its two operands compare as requested.",
  ["inputs", "configurations"],
  "every condition type, every flag setting operation, immediates at the limits of the instruction forms on either side, memory operands, coinciding operands, every run-time register content",
  "Flags are emulated in different ways on every architecture (separate flag registers, inverted carries, shifted 32 bit operations, swapped operands, condition codes) depending on operand forms and values; tests compare a few values per condition.",
  [BACK],
  [("flag setting operations", BACK + " emit_single_op, emit_op, sljit_emit_op2"),
   ("conditions", BACK + " sljit_emit_jump, sljit_emit_cmp, sljit_emit_op_flags, get_cc")],
  ["machine instructions emitted", "condition of the branch", "values of the destination"],
  "abstract interpretation of the code generator with constant propagation over sequences of API calls, and of the instruction words emitted, with comparisons, carries and overflows in normal form",
  "About 340000 scenarios in 15 target configurations; more than 99.9 % are decided (the rest: carry out of an ADDC / SUBC with a small immediate after a subtraction, where flags are emulated). Floating point comparisons, select and atomic conditions are not covered. x86 and s390x instructions are not modelled.")

# ---- not decided by static analysis ------------------------------------------------------------------------------------

P("N01", "Generated code computes what its operations are documented to compute",
  "For every sequence of valid emit calls and every run-time register and memory content, the generated code leaves in its destinations the values "
  "documented for the operations, identically on every architecture and CPU feature set.",
  ["inputs", "histories", "configurations"], "every program of valid calls, every run-time value, every architecture",
  "The tests compare some hundred programs with fixed values.",
  [LIR, BACK], [("code generators", BACK)], na=
  "Needs the values of arbitrary operations over arbitrary programs at run time; the part a static argument over the emitters reaches is claimed: which registers and "
  "flags instructions read and write (C17 to C19, C21), addresses (C22), and moves and integer operations one at a time (C23), conditions and carries (C24); not other sequences of operations, floating point, vectors and atomics.")
P("N02", "Generated code fits the buffer reserved for it and jumps reach their targets",
  "sljit_generate_code never writes more code than it allocated, and every jump, constant load and pool access it shortens still reaches its target at the final addresses.",
  ["inputs", "histories", "configurations"], "every program size, every distance between jumps and labels, every executable address",
  "Distances at the limits of a branch need programs of particular sizes and allocators returning particular addresses.",
  [LIR, BACK], [("size reduction and detection of jump types", BACK + " detect_jump_type, reduce_code_size")], na=
  "The bound is a sum over the list of recorded jumps and labels of sizes chosen per element from run-time addresses; the relation between both passes is a "
  "whole-list arithmetic invariant that interval or typestate dataflow cannot bound.")
P("N03", "The executable allocator never hands out overlapping blocks",
  "Blocks returned by the executable allocator are disjoint, lie inside mapped chunks, are aligned, and freed neighbours are merged, after every history of allocations and releases.",
  ["histories"], "every sequence of allocations and releases of every size",
  "It takes particular orders of releases for the boundary words of neighbours to matter.",
  ["sljit_src/allocator_src/sljitExecAllocatorCore.c"], [("boundary tags", "sljit_src/allocator_src/sljitExecAllocatorCore.c sljit_malloc_exec, sljit_free_exec")], na=
  "The invariant lives in sizes stored inside the managed memory and quantifies over histories of them; it needs shape analysis with numeric block contents (separation logic), "
  "out of reach for the dataflow here. Locking and release of the chunks are decided (C03, C05).")
P("N04", "Regular expressions match exactly what their documented syntax says",
  "regex_exec reports the match of the longest or first documented rule, with right begin and end, for every pattern accepted by regex_compile and every text, also when the text is fed in parts.",
  ["inputs"], "every pattern, every text, every division of the text",
  "The regex tests try a few hundred pairs of pattern and text.",
  ["regex_src/regexJIT.c"], [("pattern compiler and state machine generator", "regex_src/regexJIT.c")], na=
  "A property of generated code at run time over unbounded texts; no static rule over the generator bounds it.")
P("N05", "Damaged serialized buffers are refused without harm",
  "sljit_deserialize_compiler, given a buffer of the right length whose contents were altered, either refuses it or produces a compiler that never accesses memory out of bounds.",
  ["inputs"], "every byte string", "Only buffers produced by the library are ever deserialized in the tests.",
  ["sljit_src/sljitSerialize.c"], [("section readers", "sljit_src/sljitSerialize.c sljit_deserialize_compiler")], na=
  "The library does not promise it (buffers are trusted apart from their length, which C12 decides): addresses and sizes inside jump and label records are "
  "used as they are, so the property does not hold by design.")
P("N06", "Debugging and profiling helpers report code sizes exactly",
  "sljit_get_generated_code_size returns exactly the number of bytes of generated code, and label, jump and constant addresses lie inside that code.",
  ["histories", "configurations"], "every program on every architecture", "The tests check that a size is reported, not which.",
  [LIR, BACK], [("executable_size", BACK + " sljit_generate_code")], na=
  "Same list arithmetic as N02: the position of each label after shortening depends on sums over run-time lists.")
