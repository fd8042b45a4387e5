#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": mechanism, "state": state or [],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Every observer sees the same complete ISA tables after any cold start",
 "Whichever threads first use the shared instruction-set tables, in whatever order and interleaving, and whatever random hash keys the process drew, every observer sees tables that are complete and identical: for all 2048 opcode indices the decoded variant, its property bitmask and its ergs price, the variant-to-index maps, the nop and panic constants, the opcode descriptions (operands, flags, availability, privileges, and at which positions flags and property bits are published) and the formal system addresses. They equal the tables of ISA version 1 in every process and after every crash and restart. No observer ever sees a partly built table.",
 ["schedules", "crash_points", "configurations"],
 "all thread interleavings of first use (at memory-access granularity), all hash seeds, all crash points inside initialisation, all subsets and orders of tables touched",
 "The 8 existing tests touch a handful of table entries from whatever thread the test runner used first, under one hash seed per process, and mostly print them; they compare no price, bitmask or map entry with anything.",
 ["src/lib.rs", "src/definitions/mod.rs", "src/definitions/all.rs", "src/definitions/opcode_trait.rs", "src/definitions/*.rs", "src/imm_mem_modifiers.rs", "src/system_params.rs", "src/circuit_prices.rs"],
 [{"name": "lazily initialised statics", "where": "src/lib.rs lazy_static! block; src/system_params.rs lazy_static! block"},
  {"name": "table synthesis", "where": "src/definitions/mod.rs synthesize_opcode_decoding_tables, synthesize_bit_decomposition_table"}],
 ["OPCODES_TABLE", "OPCODES_PROPS_INTEGER_BITMASKS", "OPCODES_PRICES", "OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP", "OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP", "NOP_*/PANIC_*", "OPCODE_PROTOTYPES", "system address statics"])

prop("C02", "First use of the shared tables never deadlocks, stalls or gets poisoned",
 "Any number of threads may make their first use of any of the shared tables, encoders and decoders at the same time, in any order and interleaving; every valid request returns within a bounded number of steps. A request that is rejected by panicking (an instruction that is not in the ISA, an out-of-range condition, a table too narrow for the ISA) fails only for its caller: it never makes a later or concurrent valid request fail or hang.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of valid and rejected requests on cold and warm tables, any thread count",
 "Tests are sequential per table and contain no rejected request; a cycle or lock-order problem between lazily built tables, or a poisoned lock, needs a particular first-use order, interleaving or earlier failure.",
 ["src/lib.rs", "src/definitions/mod.rs", "src/decoding/encoding_mode_production.rs", "src/decoding/encoding_mode_testing.rs", "src/definitions/condition.rs"],
 [{"name": "acyclic lazy initialisation", "where": "src/lib.rs lazy_static! block; src/definitions/mod.rs opcode_as_integer_bitmask"},
  {"name": "rejection happens outside initialisers", "where": "encode_as_integer in both encoding modes"}],
 ["all public statics", "VmEncodingMode::encode_as_integer / parse_preliminary_variant_and_absolute_number"])

prop("C03", "Programs keep their meaning across threads, processes and restarts",
 "A program written by one process, in either the 8-byte or the 16-byte encoding, and stored in 32-byte code words reads back in every other thread, process and later incarnation as exactly the same instructions: same opcode variant, condition, registers and immediates at the same program counter. The stored bytes depend only on the instruction, never on the thread, the interleaving, the hash seed, earlier requests or the incarnation, and equal the fixed ISA version 1 layout; after a crash only instructions not yet durable may be missing.",
 ["inputs", "schedules", "histories", "crash_points"],
 "all instructions of the ISA, both encodings, all interleavings of writers and readers, all crash/restart histories and hash seeds",
 "One test decodes one hard-coded word and looks only at its variant; no test encodes anything, decodes registers or immediates, uses the 16-byte encoding, or crosses a thread or process.",
 ["src/decoding/mod.rs", "src/decoding/encoding_mode_production.rs", "src/decoding/encoding_mode_testing.rs", "src/opcode.rs", "src/utils.rs", "src/lib.rs", "src/definitions/condition.rs"],
 [{"name": "encode/decode pair over the shared index map", "where": "encode_as_integer, parse_preliminary_variant_and_absolute_number"},
  {"name": "code word addressing", "where": "split_pc, integer_representaiton_from_u256"}],
 ["DecodedOpcode::serialize_as_bytes / serialize_as_integer", "VmEncodingMode::*"])

prop("C04", "Damaged code words fail closed, identically for executor and prover",
 "Whatever bits of stored code are flipped, torn, lost or misplaced, and whenever that happens relative to concurrent readers, reading any word never crashes the reader; it yields the one instruction the ISA assigns to those bits, and every index the ISA leaves undefined reads as the invalid instruction that burns all ergs and forces a panic. Damage is never invisible: any change of a canonically encoded word changes either the decoded result or its canonicality verdict. The execution view (variant, price, kernel-only, static-context and panic attributes) and the proving view (property bitmask) of the same damaged word always agree.",
 ["fault_sequences", "inputs", "schedules"],
 "all bit-level damage to stored code words, at any instant, both encodings, concurrent executor and prover readers",
 "No test feeds a malformed word, checks canonicality, or relates the bitmask of a word to its decoded attributes.",
 ["src/decoding/encoding_mode_production.rs", "src/decoding/encoding_mode_testing.rs", "src/definitions/mod.rs", "src/definitions/invalid_opcode.rs", "src/lib.rs"],
 [{"name": "undefined indices padded with the invalid opcode", "where": "src/definitions/mod.rs synthesize_opcode_decoding_tables"},
  {"name": "unused bits must be zero", "where": "is_canonical_encoding"},
  {"name": "aux bits of the bitmask", "where": "src/definitions/mod.rs opcode_as_integer_bitmask"}],
 ["VmEncodingMode::parse_preliminary_variant_and_absolute_number", "VmEncodingMode::is_canonical_encoding", "OPCODES_PROPS_INTEGER_BITMASKS", "OPCODES_PRICES"])

prop("C05", "A rolling ISA upgrade keeps old programs' meaning",
 "While nodes on ISA versions 0 and 1 coexist, restart, upgrade and roll back in any order, every opcode index that is defined in version 0 has the same meaning on every node (opcode, sub-variant, flags, operand modes and price; only a register operand may become a register-or-immediate operand used as register). Indices first defined in version 1 are an explicit panic on version-0 nodes, and every instruction form of the older version is still reported as available, with the same position, in the newer one. Each version's tables are the same on every node and incarnation.",
 ["histories", "configurations", "schedules", "crash_points"],
 "all upgrade/rollback/restart histories over a mixed-version cluster, all hash seeds and interleavings of table building",
 "One test compares the two version tables for prefix equivalence inside one process; it never looks at bitmasks, prices, availability queries, programs, restarts or mixed versions.",
 ["src/definitions/mod.rs", "src/definitions/opcode_trait.rs", "src/definitions/uma.rs", "src/definitions/*.rs", "src/lib.rs"],
 [{"name": "append-only versioned synthesis", "where": "src/definitions/mod.rs synthesize_opcode_decoding_tables, find_new_opcodes, semantically_equal"},
  {"name": "version availability queries", "where": "src/definitions/opcode_trait.rs OpcodeVariantProps"}],
 ["synthesize_opcode_decoding_tables", "synthesize_bit_decomposition_table", "OpcodeVariantProps::*_for_version", "max_num_variants_for_version", "max_num_flags_for_version", "total_*_for_version"])

prop("C06", "A trap at any point turns any instruction into the canonical panic or nop",
 "Whenever execution is interrupted between decoding and executing an instruction (out of ergs, privilege or static-context violation, invalid word, external exception, skipped condition), masking it yields exactly the canonical panic or nop: unconditional, register-only operands, no flags, all registers zero, immediates untouched, encodable, and with the property bits of the published panic/nop constants. This holds for every instruction, damaged or not, for any sequence of masks and in any thread. An instruction not permitted in the current frame (kernel-only in user mode, state-changing in static mode, invalid) is always recognised as such before it can execute.",
 ["fault_sequences", "inputs", "schedules"],
 "all trap sequences at all points of all instruction streams, both encodings, all frame modes",
 "No test masks an instruction or queries a privilege attribute.",
 ["src/opcode.rs", "src/lib.rs", "src/definitions/mod.rs", "src/definitions/all.rs", "src/definitions/context.rs", "src/definitions/log.rs", "src/definitions/far_call.rs", "src/definitions/ret.rs", "src/definitions/noop.rs"],
 [{"name": "masking", "where": "src/opcode.rs mask_into_panic, mask_into_nop"},
  {"name": "privilege attributes", "where": "requires_kernel_mode, can_be_used_in_static_context, is_explicit_panic"}],
 ["DecodedOpcode::mask_into_panic / mask_into_nop", "VmEncodingMode::nop_encoding / exception_revert_encoding", "NOP_BITSPREAD_U64", "PANIC_BITSPREAD_U64"])

prop("C07", "Rendering an instruction to a failing sink reports the failure",
 "Writing the text form of any instruction or opcode variant to any output sink either delivers the complete text and reports success, or reports an error; it never panics, never reports success after the sink refused bytes, and never writes anything after a refusal. However the sink splits, interrupts or fails the writes and whatever other threads do, the delivered bytes are a prefix of the complete text, which always names the opcode, operand modes, flags, condition, all four registers and both immediates of that instruction.",
 ["fault_sequences", "inputs", "schedules"],
 "all fault points and kinds in the sink (refusal at any byte or call, short writes, interruptions, zero-length writes), all instructions, concurrent renderers",
 "No test renders with the display format at all; dbg! output goes to an infallible sink and is not inspected.",
 ["src/opcode.rs", "src/definitions/mod.rs"],
 [{"name": "error propagation in Display", "where": "src/opcode.rs impl Display for DecodedOpcode; src/definitions/mod.rs impl Display for OpcodeVariant"}],
 ["fmt::Display for DecodedOpcode<8,_>, DecodedOpcode<16,_>, OpcodeVariant"])

prop("C08", "Price regeneration never claims success for an incomplete file",
 "If the circuit price generator exits successfully, the price file holds the complete generated text, byte for byte, whatever it held before and whatever short writes, interrupted system calls and transient retries happened on the way. If opening, writing or replacing the file fails for good (no space, I/O error, permission, descriptor exhaustion), the generator reports failure; it never hangs and never modifies any other existing file.",
 ["fault_sequences", "inputs"],
 "all sequences of file-system call outcomes (short writes, EINTR, ENOSPC, EIO, EACCES, EMFILE ...) and all previous contents of the price file",
 "The generator binary has no test at all; a test on a healthy disk could not reach any error path.",
 ["src/circuit_pricing_generator/main.rs"],
 [{"name": "write_all with error escalation", "where": "src/circuit_pricing_generator/main.rs save_circiut_prices"}],
 ["exit status of circuit_pricing_generator", "src/circuit_prices.rs in the working directory"])

prop("C09", "The price file is always wholly old or wholly new",
 "At every instant of a price regeneration, and after it is killed, loses power, runs out of disk space or hits an I/O error at any point, the price file is either exactly what it was before or exactly the complete new text. A build that reads it concurrently, or the rebuild needed to run the generator again, never meets an empty or truncated price file. The same holds when several regenerations run at once.",
 ["crash_points", "fault_sequences", "schedules"],
 "all crash points and error outcomes between and inside file-system calls, all interleavings of up to three concurrent regenerations and a reader",
 "No test runs the generator; crash points and write errors cannot be reached by one.",
 ["src/circuit_pricing_generator/main.rs"],
 [{"name": "atomic replacement of the price file", "where": "src/circuit_pricing_generator/main.rs save_circiut_prices"}],
 ["src/circuit_prices.rs in the working directory after every file-system call"])

prop("C10", "Regeneration converges to the shipped prices after any fault history",
 "After any history of failed, killed, power-cut or concurrent regenerations, and from any previous state of the price file, one undisturbed run of the generator succeeds within a bounded number of file-system calls and leaves exactly the price constants that the library is compiled with. Running it again changes nothing.",
 ["histories", "crash_points", "fault_sequences"],
 "all fault histories followed by one undisturbed run; all earlier contents of the price file (missing, empty, torn, longer, garbage, leftover temporary files)",
 "No test relates the generator's output to the committed constants or runs it after a failure.",
 ["src/circuit_pricing_generator/main.rs", "src/circuit_prices.rs", "src/system_params.rs"],
 [{"name": "deterministic pricing formulas", "where": "src/circuit_pricing_generator/main.rs main"},
  {"name": "shipped constants", "where": "src/circuit_prices.rs"}],
 ["src/circuit_prices.rs in the working directory", "zkevm_opcode_defs::circuit_prices::*"])

prop("C11", "Damaged contract-code records are rejected or faithfully reported",
 "Whatever bits of a stored code record (versioned hash) or of the stored bytecode are damaged, and wherever a crash cuts a deployment, reading the record never crashes: a record with a wrong version is rejected, any other is reported with exactly the stored length, marker and digest and re-serialises to the identical bytes, and the at-rest form differs only in having a cleared marker. The record computed for a bytecode is its length in words plus the truncated SHA-256 of its contents, so any damaged, torn, missing or extra code word makes verification fail and intact code always verifies; code with an even or unaddressable number of words is refused.",
 ["fault_sequences", "crash_points", "histories", "inputs"],
 "all damage to stored records and bytecode, all crash points in the deploy/construct/finalise/verify lifecycle, concurrent verifiers, restarts",
 "No test serialises, parses or computes a versioned hash.",
 ["src/definitions/versioned_hash/mod.rs", "src/utils.rs"],
 [{"name": "record layout", "where": "src/definitions/versioned_hash/mod.rs ContractCodeSha256"},
  {"name": "code hashing", "where": "src/utils.rs bytecode_to_code_hash_for_mode"}],
 ["VersionedHashGeneric::*", "bytecode_to_code_hash"])

prop("C12", "Words passed between call frames, host and precompile queue arrive as sent",
 "Far call, near call, return, precompile, fat pointer and meta words are messages between mutually distrusting call frames, the host and the precompile queue. Every receiver, in any thread, process or later incarnation, unpacks exactly the fields the sender packed, each at its fixed bit position. Words that were damaged, torn, duplicated, reordered or misdelivered on the way never crash the reader and change only the fields whose bits changed; an unknown forwarding mode always reads as heap; unused bits are ignored; a queued precompile request re-packs to the identical word and packing any fields then unpacking them is the identity.",
 ["fault_sequences", "histories", "crash_points", "inputs"],
 "all sent field values, all damage to words in flight, all interleavings of senders and receivers, crashes between sending and receiving",
 "No test packs or unpacks any of these words.",
 ["src/definitions/abi/*.rs"], [{"name": "packing and unpacking", "where": "src/definitions/abi"}], ["*ABI::from_u256 / to_u256", "FatPointer::from_u256 / to_u256", "VmMetaParameters::to_u256"])
prop("C13", "Memory slices handed along a call chain stay confined",
 "In any history of calls, returns, forwardings, pointer arithmetic, dereferences and traps among mutually distrusting frames, including frames that present malformed, replayed or damaged words, the slice checks decide exactly: a slice is addressable only if start plus length does not overflow 32 bits, a fresh one only if in addition its offset is zero, it may be forwarded only if its offset is at most its length and dereferenced only if its offset is below its length; each refusal is reported with exactly its reasons, and the empty slice is recognised as trivial. So no frame ever reads memory outside a slice its owner handed over.",
 ["histories", "fault_sequences", "inputs"],
 "all call/return/trap histories, all pointer arithmetic, all hostile words",
 "No test validates a pointer or runs a call chain.",
 ["src/definitions/abi/fat_pointer.rs", "src/definitions/abi/far_call.rs", "src/definitions/abi/ret.rs"], [{"name": "validate*", "where": "src/definitions/abi/fat_pointer.rs"}], ["FatPointer::validate*", "FatPointer::is_trivial"])
prop("C14", "No transaction pays its way past the re-entrancy, depth and circuit limits",
 "In every transaction history (any instruction stream, any nesting of near and far calls, returns, reverts and traps, any ergs), charged with the published prices: no storage write ever completes in a frame that lives on a transfer stipend (2300 ergs of a zero-value transfer, or whatever the message-value simulator's additive cost leaves after its minimal usage) or in anything that frame calls; a transaction within the per-transaction ergs limit sends at most 512 L1 messages and, within the block's pubdata limit, makes at most 4600 initial and 7400 repeated storage writes (one circuit instance each); call nesting never exceeds the published maximum depth even from the initial frame with 80 unpaid bootloader entries and every entry paid with as little as the published call-like cost, and no call costs less than that; the ergs spent always cover the share of every multi-instance circuit the executed instructions, decommitments and precompile rounds occupy. Every storage write and L1 message is charged exactly the pubdata bytes it publishes, and a value transfer prepays those of both balances it changes. The price of an instruction is the same whether taken from the table or from the decoded instruction.",
 ["histories", "inputs", "fault_sequences", "schedules"],
 "all transaction histories and strategies, all ergs and stipends, traps at any point, concurrent first use of the price tables",
 "No test looks at a price or runs a transaction; the limits follow from many constants and price formulas together and are reached only by particular histories (a callee left with exactly the stipend, a transaction that spends everything on one kind of instruction).",
 ["src/system_params.rs", "src/circuit_prices.rs", "src/lib.rs", "src/definitions/log.rs", "src/definitions/near_call.rs", "src/definitions/far_call.rs", "src/definitions/*.rs"],
 [{"name": "price floors", "where": "src/system_params.rs MIN_STORAGE_WRITE_COST; src/definitions/log.rs ergs_price"},
  {"name": "circuit prices", "where": "src/circuit_prices.rs"}, {"name": "depth limit", "where": "src/system_params.rs VM_MAX_STACK_DEPTH"}],
 ["OPCODES_PRICES", "OpcodeVariant::ergs_price", "system_params::*", "circuit_prices::*"])
prop("C15", "Memory pages, time, registers, queues and reserved addresses never alias",
 "In every history of far calls, returns, traps, memory accesses, queue traffic and host writes laid out with the published constants: no page of any frame (code, stack, heap, auxiliary heap at the published offsets) is the unmapped page, a bootloader page or a page of any other frame; every memory query of a cycle (up to four) is later than all queries of earlier cycles and than what the host wrote before the start; page numbers and timestamps do not wrap in any run the initial ergs can pay for. At a far call and at a return every register has exactly one role and every passed value is found where it was put, returned data where call data is. Every queued item arrives at the queue of its kind only. A message to a reserved address reaches exactly one system contract, the published formal addresses are those contracts, and all lie below the unrestricted space. The static and shard flags of a far call are told apart. Every heap access and pointer offset that the published limits let through fits 32 bits, including the 32-byte access and its increment, and the first frame's success and trap exits differ.",
 ["histories", "inputs", "schedules"],
 "all call/return/trap histories including ones at the end of the ergs budget, all queue traffic, all reserved addresses, concurrent first use of the address statics",
 "No test reads these constants; whether they collide shows only in histories that use several of them together (two calls in a row, the last cycle of a long run, an access at the last offset).",
 ["src/lib.rs", "src/system_params.rs", "src/definitions/far_call.rs", "src/definitions/ret.rs", "src/definitions/uma.rs", "src/definitions/ptr.rs"],
 [{"name": "page and time constants", "where": "src/lib.rs BOOTLOADER_*_PAGE, NEW_MEMORY_PAGES_PER_FAR_CALL, STARTING_*, TIME_DELTA_PER_CYCLE"},
  {"name": "register roles", "where": "src/definitions/far_call.rs CALL_*; src/definitions/ret.rs RET_*"},
  {"name": "reserved addresses", "where": "src/system_params.rs ADDRESS_*, *_FORMAL_ADDRESS"}],
 ["public constants and address statics", "decoded far call flags", "OPCODES_PRICES"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
