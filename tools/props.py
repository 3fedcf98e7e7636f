"""The properties and how each is claimed. `python3 tools/gen.py` regenerates the committed files."""
EC = 'expander_compiler/src/'
TRUST = ' Trusts the harness\'s reference model and the stand-ins for the unavailable Expander crates (fields, serialisation, prover).'
PROPS = []

def P(id, title, statement, over, forall, why, files, mech, tech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why,
                      files=[f if f.startswith(('circuit-std', 'rsa_', 'ecgo', 'expander_compiler/')) else EC + f for f in files],
                      mech=[(n, w if w.startswith(('circuit-std', 'rsa_', 'expander_compiler/')) else EC + w) for n, w in mech], tech=tech, note=note, **kw))

# ---------------------------------------------------------------- compiler
P('C01', 'Compiling to single-layer circuits preserves the meaning of a program',
  'For every valid source program and every choice of compile options, the compiled witness program together with the single-layer circuit accepts an input assignment exactly when every constraint and every implicit check of the program (checked division, boolean operands, bit ranges) holds for it, and then yields the program\'s outputs in order. Compilation neither panics nor fails with an internal error; it declines only programs that no assignment satisfies or whose circuit would read no input. A rejected assignment is reported as an error or a false verdict, never as a panic.',
  ['programs', 'inputs', 'configurations'], 'all source programs (with sub-circuits, hints, public inputs, challenges, constraints), all assignments, all five fields, optimisation levels 1-3, fan-out limits, input reordering',
  'The repository\'s random tests compare stages pairwise on random IR with unsafe (stand-in) evaluation of hints and do not run here at all; none compares the end result with an independent meaning of the program.',
  ['compile/mod.rs', 'builder/basic.rs', 'builder/hint_normalize.rs', 'builder/final_build_opt.rs', 'layering/mod.rs', 'layering/ir_split.rs', 'circuit/layered/opt.rs', 'circuit/ir/hint_normalized/mod.rs', 'circuit/ir/common/opt.rs', 'hints/mod.rs'],
  [('staged lowering and optimisation', 'compile/mod.rs'), ('hint normalisation', 'builder/hint_normalize.rs'), ('final build', 'builder/final_build_opt.rs'), ('layering', 'layering/compile.rs'), ('layered optimisation', 'circuit/layered/opt.rs')],
  'differential run-time monitor: generated programs executed through the whole pipeline against a reference interpreter, overflow and debug assertions on',
  'Exploration: tens of thousands (thorough: over a million) of generated programs per run, several assignments each, steered to accept and perturbed to reject.' + TRUST,
  observe=['compile_with_options', 'WitnessSolver::solve_witness_from_raw_inputs', 'layered::Circuit::run_with_output'])
P('C02', 'Compiling to cross-layer circuits preserves the meaning of a program',
  'For every valid source program and every choice of compile options, the compiled witness program together with the cross-layer circuit accepts an input assignment exactly when every constraint and every implicit check of the program holds for it, and then yields the program\'s outputs in order. Compilation neither panics nor fails with an internal error; it declines only programs that no assignment satisfies or whose circuit would read no input.',
  ['programs', 'inputs', 'configurations'], 'all source programs, all assignments, all five fields, optimisation levels 1-3, fan-out limits, input reordering',
  'The existing tests exercise the cross-layer target on a handful of random circuits with no independent reference and cannot run here.',
  ['compile/mod.rs', 'layering/compile.rs', 'layering/wire.rs', 'layering/input.rs', 'layering/layer_layout.rs', 'circuit/layered/mod.rs', 'circuit/layered/opt.rs'],
  [('cross-layer relays', 'layering/wire.rs'), ('layer assignment', 'layering/compile.rs'), ('segment optimisation', 'circuit/layered/opt.rs')],
  'differential run-time monitor: generated programs compiled to the cross-layer target and executed against a reference interpreter',
  'Exploration, as C01 for the other target.' + TRUST)
P('C03', 'Compiled circuits are well formed and keep input order unless told otherwise',
  'Every compiled layered circuit has consistent power-of-two layer sizes, references only existing wires and sub-segments, and agrees with its witness program and the source about the number of inputs, public inputs and outputs. Unless input reordering is allowed, the inputs a circuit reads appear in its input layer in the order in which the program declares them.',
  ['programs', 'configurations'], 'all source programs, all compile options, both layered targets, five fields',
  'Tests check validity of the circuits they happen to compile; sizes and ordering depend on the interplay of sub-circuits, depths and relays.',
  ['compile/mod.rs', 'circuit/layered/mod.rs', 'layering/compile.rs', 'layering/input.rs', 'layering/layer_layout.rs', 'circuit/layered/opt.rs'],
  [('segment construction', 'layering/wire.rs'), ('input layout', 'layering/input.rs')],
  'run-time monitor: structural invariants of compiled artefacts checked by an independent walker; inputs traced by value into the witness',
  'Exploration of tens of thousands of programs per run.' + TRUST)
P('C04', 'The multiplication fan-out limit is respected and changes nothing else',
  'After limiting to any bound of at least two, no value feeds more multiplication operands than the bound, and outputs and accepted assignments are unchanged.',
  ['programs', 'configurations', 'inputs'], 'all programs, all limits from two upwards',
  'Tests use a few random circuits and fixed limits.',
  ['circuit/ir/dest/mul_fanout_limit.rs', 'compile/mod.rs'], [('copy insertion', 'circuit/ir/dest/mul_fanout_limit.rs')],
  'run-time monitor: use counts recomputed after the pass; evaluation before and after compared with the reference',
  'Exploration; thousands of programs with heavily shared variables.' + TRUST)
P('C05', 'Compilation is deterministic',
  'Compiling the same program with the same options any number of times in one process yields the same verdict, the same witness program and a byte-identical layered circuit.',
  ['programs', 'configurations'], 'all programs and options; hash-table iteration orders differ between the repetitions',
  'One compilation per test cannot reveal dependence on the random seeds of hash tables.',
  ['compile/mod.rs', 'layering/compile.rs', 'builder/basic.rs', 'builder/final_build_opt.rs', 'circuit/ir/common/opt.rs'],
  [('ordered iteration over constraints and layers', 'builder/final_build_opt.rs'), ('layer layout', 'layering/layer_layout.rs')],
  'run-time monitor: repeated compilations under different hash seeds compared value by value and byte by byte',
  'Exploration; four compilations of each of thousands of programs.' + TRUST)
P('C06', 'Every lowering and optimisation pass preserves meaning on its own',
  'Each transformation between or within the intermediate representations, applied in any order the pipeline permits and any number of times, keeps the representation valid, the outputs and the accepted assignments of a program, and reports exactly how inputs moved.',
  ['programs', 'inputs', 'histories'], 'all programs, all sequences of passes through the stages, all assignments',
  'The repository compares some passes pairwise on a few random circuits; later passes can mask or compensate an error of an earlier one.',
  ['circuit/ir/common/opt.rs', 'circuit/ir/source/mod.rs', 'circuit/ir/hint_normalized/mod.rs', 'circuit/ir/hint_less/mod.rs', 'circuit/ir/dest/mod.rs', 'builder/hint_normalize.rs', 'builder/final_build_opt.rs', 'layering/mod.rs', 'circuit/layered/opt.rs', 'circuit/input_mapping.rs'],
  [('dead code removal, duplicate and chain elimination', 'circuit/ir/common/opt.rs'), ('lowering', 'builder/hint_normalize.rs')],
  'run-time monitor: evaluation against the reference after every single pass of a random pass sequence',
  'Exploration of thousands of pass sequences.' + TRUST)
P('C07', 'Input mappings compose, apply and validate consistently',
  'Applying a composition of input mappings equals applying the mappings one after the other, both ways of composing agree, validation accepts exactly the mappings whose kept inputs fill all targets once, and mappings survive serialisation.',
  ['inputs', 'histories'], 'all mappings and chains of compositions',
  'There is no unit test for it.', ['circuit/input_mapping.rs'], [('composition and application', 'circuit/input_mapping.rs')],
  'run-time monitor: model-based comparison with a plain partial function', 'Exploration of 100 000 random chains per run (thorough: millions).')
# ---------------------------------------------------------------- front end
P('F01', 'The circuit builder, the debug evaluator and the compiler agree',
  'For every circuit definition written against the public builder interface, the debug evaluator and the compiled circuit both accept an assignment exactly when all assertions and implicit checks of the definition hold, and produce the outputs the operations\' documented arithmetic meaning prescribes. A value the builder reports as a known constant is the value the variable has on every assignment. Solving from a typed assignment gives the same witness as solving from the flattened input vectors.',
  ['programs', 'inputs', 'configurations'], 'all circuit definitions over the builder interface incl. memoised sub-circuits, constants mixed with variables, hints, unconstrained operations and comparisons; all assignments; five fields; both targets',
  'Frontend tests fix a few circuits and assignments; constant folding and the choice between constant and variable operands multiply the paths far beyond them.',
  ['frontend/builder.rs', 'frontend/api.rs', 'frontend/circuit.rs', 'frontend/debug.rs', 'frontend/witness.rs', 'frontend/mod.rs', 'frontend/variables.rs'],
  [('builder operations and constant folding', 'frontend/builder.rs'), ('debug evaluation', 'frontend/debug.rs'), ('variable flattening', 'frontend/variables.rs')],
  'differential run-time monitor: one description replayed through the builder API, the debug evaluator and the compiled pipeline',
  'Exploration: thousands of generated definitions per run, each on several assignments, with random operand styles.' + TRUST)
P('F02', 'What a prover supplies in place of hints cannot change a result',
  'A compiled circuit checks every value its prover computes on the side (inverses, quotients, bits, zero tests, comparisons, also inside memoised sub-circuits): whatever values a prover supplies for them, a witness with the given inputs is accepted only if the program is satisfied by those inputs and the outputs are the ones the program defines. Left open by definition are user hints, unconstrained operations, the quotient of an unchecked 0/0, and decompositions into so many bits that a value has several.',
  ['programs', 'inputs', 'fault_sequences'], 'all programs without user hints and unconstrained operations, all inputs, satisfied or not, and all values of the hint positions of their witnesses; five fields, both targets, all optimisation levels',
  'Tests only run the honest witness generator: a missing or weakened constraint changes nothing they can see.',
  ['builder/hint_normalize.rs', 'builder/final_build.rs', 'builder/final_build_opt.rs', 'frontend/builder.rs', 'circuit/ir/hint_normalized/mod.rs', 'compile/mod.rs'],
  [('constraints of derived operations', 'builder/hint_normalize.rs'), ('comparisons', 'frontend/builder.rs'), ('separation of hints', 'circuit/ir/hint_normalized/mod.rs')],
  'fault-injecting run-time monitor: hint values in witnesses replaced (singly, in pairs solved for, exhaustively where small, bits shifted by the modulus, along free directions of the constraints), each acceptance judged by the reference interpreter',
  'Exploration: millions of forged witnesses per run.' + TRUST)
P('F04', 'A memoised call means the same as running the function in place',
  'Calling a memorized function (or a simple memoised call of a function or closure) yields, in the debug evaluator and in the compiled circuit, the values, the shape of results and the assertions that running its body in place on the same arguments gives, for every nesting of vectors in arguments and results, every value of its plain arguments, any number of calls and nested calls. Functions of the same signature, also of the same name in different modules, and closures that captured different values are never confused; the body of a function is built once per shape of arguments and plain values.',
  ['programs', 'inputs', 'configurations'], 'all scripts of memoised, nested and in-place calls over a family of functions covering the supported argument and result types; five fields, both targets',
  'One test calls a single memorized function per circuit; confusion needs two functions or captured values, and the debug evaluator was never called with one.',
  ['frontend/builder.rs', 'frontend/debug.rs', 'frontend/sub_circuit.rs', 'utils/function_id.rs', 'expander_compiler/macros/src/lib.rs'],
  [('macro', 'expander_compiler/macros/src/lib.rs'), ('sub-circuit table', 'frontend/builder.rs'), ('argument flattening', 'frontend/sub_circuit.rs')],
  'differential run-time monitor: scripts of calls against direct evaluation of the bodies on plain values; executions of bodies and shapes of results recorded',
  'Exploration: tens of thousands of scripts per run.' + TRUST)
# ---------------------------------------------------------------- utilities
def U(id, title, statement, over, forall, why, file, mech, tech, note):
    P(id, title, statement, over, forall, why, ['utils/' + file], [(mech, 'utils/' + file)], tech, note)
# ---------------------------------------------------------------- witnesses, files, export
P('W01', 'Solving witnesses in a batch equals solving them one by one',
  'For every program and every list of assignments, solving them as a batch yields exactly the witnesses obtained by solving each alone, in order, in scalar and packed representation alike (a partly filled packed block repeats its last witness), and the batch fails exactly when some assignment alone fails. The typed and the raw interface agree, and a hint that is needed but not provided is reported as an error.',
  ['programs', 'inputs', 'configurations'], 'all programs, all batches of any size relative to the packing width, all five fields',
  'The existing test compares one hand-made witness in both forms; batch boundaries, failing members and hints inside batches are not covered.',
  ['circuit/ir/hint_normalized/witness_solver.rs', 'circuit/ir/hint_normalized/mod.rs', 'circuit/layered/witness.rs', 'frontend/witness.rs'],
  [('packed solving', 'circuit/ir/hint_normalized/witness_solver.rs'), ('packing and iteration', 'circuit/layered/witness.rs')],
  'differential run-time monitor: batches against single witnesses, every lane of every view compared',
  'Exploration of tens of thousands of batches, sizes around multiples of the packing width, failing hints injected.' + TRUST)
P('W02', 'Scalar, packed and batched circuit evaluation agree with the format\'s meaning',
  'For every layered circuit of either target and every batch of inputs and public inputs, evaluating the circuit on one assignment, on packed assignments and on a whole batch gives for each assignment the outputs and the verdict (all outputs that must be zero are zero) that the gates define. No assignment\'s result depends on the others in its batch.',
  ['inputs', 'configurations'], 'all well-formed layered circuits without challenges, all batches, all five fields, both targets',
  'Tests evaluate compiled circuits only on the values they were compiled for and never compare the evaluators with an independent one.',
  ['circuit/layered/mod.rs', 'circuit/layered/witness.rs'], [('evaluators', 'circuit/layered/mod.rs'), ('batch runner', 'circuit/layered/witness.rs')],
  'differential run-time monitor: every evaluator against an independent interpreter of the circuit format',
  'Exploration of hundreds of thousands of generated circuits.' + TRUST)
P('F05', 'Hints compute their documented functions and run exactly as called',
  'Every built-in hint, for every operand, returns the documented value (or an error for a value that does not fit), also when arguments are packed; every user hint is found by the hash of its name, receives exactly the values the program passes, its outputs reach the program in order, and its failure is reported as an error of witness generation.',
  ['inputs', 'programs'], 'all operands of all built-in hints in all five fields, all registries, all programs with hint calls',
  'There are no tests of the built-in hints beyond incidental use.',
  ['hints/builtin.rs', 'hints/registry.rs', 'hints/mod.rs', 'circuit/ir/hint_normalized/mod.rs'],
  [('built-in hints', 'hints/builtin.rs'), ('registry', 'hints/registry.rs')],
  'run-time monitor: hint results against integer definitions; hint calls recorded and compared with the reference interpreter',
  'Exploration of hundreds of thousands of hint calls.' + TRUST)
P('S01', 'A layered circuit survives being written and read',
  'Reading back the bytes of any layered circuit of either target yields an equal circuit and consumes exactly those bytes; writing it again yields the same bytes. Bytes that do not start with the format\'s mark, or that were written for another field, are refused.',
  ['inputs', 'configurations'], 'all layered circuits, both targets, all five fields, all pairs of fields', 'Two tests write and read random compiled circuits; they do not run here and never mix fields.',
  ['circuit/layered/serde.rs', 'circuit/layered/mod.rs'], [('format', 'circuit/layered/serde.rs')],
  'run-time monitor: round trips of generated circuits, foreign fields and marks', 'Exploration of tens of thousands of circuits.' + TRUST)
P('S02', 'Witnesses survive being written and read in every representation',
  'Reading back the bytes of any batch of witnesses yields the same number of witnesses with the same private and public values in the same order; the bytes do not depend on whether the batch was held packed or not, and bytes of another field are refused.',
  ['inputs', 'configurations'], 'all batches, all sizes, all five fields', 'There is no test of witness files.',
  ['circuit/layered/witness.rs'], [('format', 'circuit/layered/witness.rs')],
  'run-time monitor: round trips of generated batches in both representations', 'Exploration of hundreds of thousands of batches.' + TRUST)
P('S03', 'Source and witness programs survive being written and read',
  'Reading back the bytes of any source program or witness program yields an equal program that behaves identically (compiles to the same circuit, solves the same witnesses); bytes written for another field are refused.',
  ['programs', 'configurations'], 'all programs, all five fields', 'The existing tests read back random programs but not all instruction kinds with all operands, and cannot run here.',
  ['circuit/ir/common/serde.rs', 'circuit/ir/source/serde.rs', 'circuit/ir/hint_normalized/serde.rs', 'circuit/ir/expr.rs'],
  [('formats', 'circuit/ir/source/serde.rs')],
  'run-time monitor: round trips of generated programs and their compiled witness programs', 'Exploration of over ten thousand programs.' + TRUST)
P('S04', 'Corrupted files are refused or read as something harmless',
  'Reading a truncated or altered circuit, witness or program file never panics, never fails to terminate and never requests memory out of proportion to the file. Validating whatever was read gives a verdict, and what passes validation can be evaluated, solved or compiled without panicking.',
  ['inputs', 'fault_sequences'], 'all byte strings near valid files: truncations, bit flips, rewritten lengths and indices, cuts and copies', 'No test reads anything but its own output.',
  ['circuit/layered/serde.rs', 'circuit/layered/mod.rs', 'circuit/layered/witness.rs', 'circuit/ir/common/serde.rs', 'circuit/ir/common/mod.rs', 'circuit/ir/expr.rs'],
  [('validation', 'circuit/layered/mod.rs'), ('validation of programs', 'circuit/ir/common/mod.rs'), ('witness reader', 'circuit/layered/witness.rs')],
  'fault-injecting run-time monitor: corrupted files read under panic, allocation and progress watch, overflow checks on',
  'Exploration of hundreds of thousands of corrupted files. Declared sizes beyond 4096 are not validated or run.' + TRUST)
P('S05', 'Exporting a circuit to the prover preserves it',
  'For every layered circuit, the exported prover circuit (recursive, flattened or cross-layer) computes the same values on every input, public input and challenge, and states the same numbers of public inputs, outputs and expected zeroes; a one-input custom gate keeps its kind, wires and coefficient.',
  ['inputs', 'configurations'], 'all layered circuits, both targets, all five fields', 'No test compares an exported circuit with its source.',
  ['circuit/layered/export.rs', 'circuit/layered/mod.rs'], [('export', 'circuit/layered/export.rs')],
  'differential run-time monitor: the exported circuit interpreted beside the original', 'Exploration of tens of thousands of circuits.' + TRUST)
# ---------------------------------------------------------------- zkcuda
ZKF = ['zkcuda/context.rs', 'zkcuda/shape.rs', 'zkcuda/vec_shaped.rs', 'zkcuda/kernel.rs']
P('Z01', 'Reshaping and transposing device memory follows array semantics',
  'For every memory and every history of reshapes and transpositions of its handles, reading through a handle gives what the same operations on a row-major array give, and the padded layout and bit order derived for a handle present exactly that view. Histories whose shapes subdivide one common splitting of the memory are always supported; others are either supported correctly or refused with the documented message, and a reshape to a different number of elements is always refused.',
  ['histories', 'inputs'], 'all shapes, all chains of reshapes and transpositions', 'The tests of this module check a few fixed shapes and do not run here.',
  ['zkcuda/shape.rs', 'zkcuda/context.rs'], [('shape history and splitting', 'zkcuda/shape.rs'), ('handle operations', 'zkcuda/context.rs')],
  'run-time monitor: model-based history checker against plain array operations, element positions traced through layouts and bit orders',
  'Exploration of tens of thousands of operation histories on memories of up to a few hundred elements.' + TRUST,
  observe=['ShapeHistory', 'Reshape::reshape', 'Transpose::transpose'])
P('Z02', 'Copies between host and device are faithful',
  'Every value copied to the device, scalar or packed, nested or flat, comes back with the same shape, element order and lanes by every way of reading it; packing spreads the leading axis over the lanes and unpacking restores it. Ragged nested arrays and reads at the wrong depth are refused rather than rearranged.',
  ['inputs', 'configurations'], 'all nested shapes up to depth four, all five fields, all copy functions', 'Tests copy a handful of fixed vectors.',
  ['zkcuda/vec_shaped.rs', 'zkcuda/context.rs'], [('flattening and unflattening', 'zkcuda/vec_shaped.rs'), ('copy functions', 'zkcuda/context.rs')],
  'run-time monitor: round trips through every pair of copy functions compared with the host value', 'Exploration of tens of thousands of arrays.' + TRUST)
P('Z03', 'A kernel call computes the kernel on every instance\'s own data',
  'For every kernel and every call with valid data, each of the parallel instances computes the kernel\'s function of its own slice of each argument (or of the whole of a broadcast argument), results appear in instance order, and no memory read or written earlier changes. Calls whose arguments have the wrong number, shape or size for the kernel and the number of instances are refused.',
  ['programs', 'inputs', 'histories'], 'all kernels (with constraints, hints, sub-circuits), numbers of instances, broadcasts, reshaped and transposed arguments, sequences of calls', 'Tests run three or four fixed kernels.',
  ['zkcuda/context.rs', 'zkcuda/kernel.rs'], [('kernel calls', 'zkcuda/context.rs'), ('kernel compilation', 'zkcuda/kernel.rs')],
  'differential run-time monitor: generated kernels called in generated sessions, every output read back and compared with a reference interpreter of the kernel',
  'Exploration of thousands of sessions per run.' + TRUST, observe=['Context::call_kernel', 'compile_with_spec_and_shapes'])
P('Z04', 'The computation graph states exactly the calls that were made',
  'For every session of valid kernel calls, the compiled graph has one step per call that refers to the memories that call read and wrote, in order; every exported memory is a padding of the corresponding values with the length the graph states; and each padded instance of each step presents one real instance\'s data, which the step\'s circuit accepts. A circuit presented with a wrong result, or with inputs violating the kernel, rejects it.',
  ['programs', 'histories', 'inputs'], 'all sessions with up to five calls, any numbers of instances incl. those not powers of two, broadcasts, reshapes, transpositions, hints', 'Tests run a few fixed sessions through a proof system and cannot run here.',
  ['zkcuda/context.rs', 'zkcuda/kernel.rs', 'zkcuda/shape.rs'], [('graph compilation', 'zkcuda/context.rs'), ('circuit of a padded call', 'zkcuda/kernel.rs')],
  'run-time monitor: an independent checker re-derives wiring, lengths, layouts and circuit verdicts of every step from a model of the session; fault injection on presented values',
  'Exploration of thousands of sessions per run.' + TRUST, observe=['compile_computation_graph', 'solve_witness', 'export_device_memories'])
PS = ['zkcuda/proving_system/' + f for f in ['dummy.rs', 'traits.rs', 'common.rs', 'expander/api_single_thread.rs', 'expander/prove_impl.rs', 'expander/verify_impl.rs', 'expander_local_deferred/api.rs', 'expander_parallelized/verify_impl.rs']]
P('Z05', 'Every honest session is proved, and its proof is accepted',
  'For every session of kernel calls with valid data, each of the single-process proving systems (dummy, plain and batch) sets up and proves without failing, and its verifier accepts the proof. The same holds when the proof, the graph or the set-up data has been written out and read back in between.',
  ['programs', 'histories', 'inputs', 'configurations'], 'all sessions of valid calls, broadcasts, reshapes, numbers of instances, all proving systems and fields, two further commitment schemes', 'Tests of the provers run fixed sessions and cannot run here.',
  PS, [('proving and verifying a call', 'zkcuda/proving_system/expander/api_single_thread.rs'), ('batch proving', 'zkcuda/proving_system/expander_local_deferred/api.rs')],
  'run-time monitor: generated sessions proved and verified end to end, with overflow and debug assertions, over a stand-in argument system that checks how it is used (sizes, keys, states, transcripts)',
  'Exploration of thousands of sessions per run over 17 combinations of prover, field and commitment scheme.' + TRUST, observe=['ProvingSystem::prove', 'ProvingSystem::verify'])
P('Z06', 'No verifier accepts a proof of something false, or one that was tampered with',
  'No single-process proving system accepts a proof when, in any instance of any call, the committed values break the kernel\'s function or its constraints, whether the prover used the committed values, other values, or another kernel with the same interface. It accepts no proof that lacks the part of a call or a commitment in use, or (for the dummy system, as far as this makes the statement false) that carries a part or commitment taken from other data, a part moved to another call, or altered bytes. Refusal is a false verdict or an error.',
  ['programs', 'histories', 'inputs', 'fault_sequences'], 'all sessions, all alterations of committed values, of kernels and of proofs', 'Tests only verify honest proofs.',
  PS, [('verifying a call', 'zkcuda/proving_system/expander/verify_impl.rs'), ('matching parts with calls', 'zkcuda/proving_system/traits.rs'), ('batch verification', 'zkcuda/proving_system/expander_local_deferred/api.rs')],
  'fault injection under a run-time monitor: dishonest provers (false values, other kernels, commitments to other values than those proved), spliced, truncated, exchanged and corrupted proofs must all be refused; a reference interpreter decides what is false',
  'Exploration of thousands of sessions with some 40 alterations each per run. The stand-in argument system is sound by construction, so what is decided is the repository\'s use of it.' + TRUST, observe=['ProvingSystem::verify'])
P('Z07', 'A saved graph serves exactly the sessions that make the same calls',
  'For every session, its computation graph can be written, read back and loaded into another session that makes the same calls on other valid data; solving and exporting then yield the memories that compiling anew would have yielded, and their proof is accepted. A session whose memories, calls, numbers of instances, arguments or broadcasts differ from the graph\'s refuses it.',
  ['programs', 'histories', 'inputs'], 'all sessions, all data, all single differences between sessions', 'No test loads a graph into a session with other data or a different session.',
  ['zkcuda/context.rs', 'zkcuda/kernel.rs'], [('loading a graph', 'zkcuda/context.rs')],
  'run-time monitor: sessions repeated on other data and with differences, loaded graphs compared with graphs compiled anew',
  'Exploration of thousands of sessions per run.' + TRUST, observe=['load_computation_graph', 'solve_witness'])
P('Z08', 'An object placed in shared memory is the same for every process that reads it',
  'Every layered circuit, segment, kernel, call template and computation graph written to a shared memory region takes no more bytes than it announced and writes nothing beyond them; each of several readers, objects following one another, gets objects equal to those written, and a proof made with a graph read this way is accepted. A reader that gives up its objects releases or changes nothing of the region and leaves no private memory allocated; circuits the format cannot hold (custom gates) are refused, not altered.',
  ['programs', 'inputs', 'histories'], 'all circuits and graphs, any number of objects and readers', 'No test covers the flat format; in production it runs inside MPI windows only.',
  ['zkcuda/mpi_mem_share.rs'], [('flat copies', 'zkcuda/mpi_mem_share.rs')],
  'run-time monitor: allocator that notices releases inside shared regions, noise around regions, an unmapped page at their end, private allocations counted; contents compared with the originals',
  'Exploration of thousands of circuits and graphs in all fields per run.' + TRUST, observe=['new_from_memory', 'to_memory', 'discard_control_of_shared_mem'])
P('Z09', 'Named shared regions hand over the last witness, set-up and proof written',
  'For every history of writing and reading witnesses, key set-ups and proofs of any sizes over the named shared memory regions (new, or left over from earlier, smaller or larger contents), each read yields what was last written, bit for bit, whether it copies or shares the region; proofs and set-ups handed over still verify, and nothing beyond a region is written. A client that waits for its witness to be read goes on only after the reader has signalled.',
  ['histories', 'inputs', 'schedules'], 'all histories of writes, reads and acknowledgements', 'No test; the regions are used between client and server processes only.',
  ['zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs'], [('named regions', 'zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs')],
  'run-time monitor: histories of region operations with contents compared, a tail of noise behind every region, releases inside regions noticed, delays injected before acknowledgements',
  'Exploration of hundreds of histories per run.' + TRUST, observe=['SharedMemoryEngine::read', 'wait_for_witness_read_complete'])
DS = ['zkcuda/proving_system/expander_parallelized/', 'zkcuda/proving_system/expander_pcs_defered/', 'zkcuda/proving_system/expander_no_oversubscribe/']
P('Z10', 'Every honest session with a server of several processes is proved and accepted',
  'For every session of kernel calls with valid data, a client that starts a server (parallel, deferred, or without oversubscription; any number of processes, any delays between them), sets up a graph, has several witnesses proved, and sets up further graphs gets proofs its verifier accepts. On request every process of the server then ends without failure, and none has released or overrun the memory the processes share.',
  ['programs', 'histories', 'schedules', 'configurations'], 'all sessions of valid calls, server kinds, fields and commitment schemes, numbers of processes, histories of requests, delays', 'Tests need MPI and run fixed sessions with one set-up and one witness.',
  DS, [('client', 'zkcuda/proving_system/expander_parallelized/client_utils.rs'), ('server', 'zkcuda/proving_system/expander_parallelized/server_ctrl.rs'), ('joint proving', 'zkcuda/proving_system/expander_no_oversubscribe/prove_impl.rs')],
  'run-time monitor: real client and server processes (the repository\'s own server mains) with injected delays over a stand-in message layer that checks collective calls; allocator that notices releases inside shared windows; exit status of every process; the same provers also run as one process',
  'Exploration of hundreds of sessions of 1 to 16 processes and hundreds of in-process proofs per run.' + TRUST, observe=['client_launch_server_and_setup', 'client_send_witness_and_prove', 'serve', 'ProvingSystem::verify'])
P('Z11', 'No verifier for servers accepts a false or tampered proof',
  'None of the verifiers for servers (parallel, deferred, or without oversubscription) accepts a proof when, in any instance of any call, the committed values break the kernel\'s function or its constraints, whether the prover used the committed values, other values, or another kernel with the same interface. None accepts a proof that lacks the part of a call, of the joint opening, or a commitment in use, or that carries parts or commitments taken from other data, exchanged parts, or altered bytes. Refusal is a false verdict or an error.',
  ['programs', 'histories', 'inputs', 'fault_sequences'], 'all sessions, all alterations of committed values, of kernels and of proofs', 'Tests only verify honest proofs.',
  DS, [('verifying a call', 'zkcuda/proving_system/expander_parallelized/verify_impl.rs'), ('joint opening', 'zkcuda/proving_system/expander_pcs_defered/verify_impl.rs')],
  'fault injection under a run-time monitor: dishonest provers and spliced, truncated, exchanged and corrupted proofs must all be refused; a reference interpreter decides what is false',
  'Exploration of hundreds of sessions with some 40 alterations each per run. The stand-in argument system is sound by construction, so what is decided is the repository\'s use of it.' + TRUST, observe=['ProvingSystem::verify'])
P('Z12', 'Kernels written as functions compute what their bodies say, element by element',
  'A kernel written as a function over single variables and nested arrays of inputs, outputs and in-and-out variables (any number of axes, sizes given by any constant expression) and called through the call macro computes, in every instance and lane, exactly what the body computes on the elements at the same nested positions. Its arguments are declared with the shapes and directions written; an input that is missing or has another shape is refused. Inputs keep their values, outputs hold theirs whatever their variables held before and whatever is called later, and sessions of such kernels are proved and accepted.',
  ['programs', 'inputs', 'histories'], 'all kernel signatures, bodies, instance counts, lane contents and sequences of calls', 'Tests use a few one- and two-dimensional kernels with literal sizes.',
  ['expander_compiler/macros/src/lib.rs', 'zkcuda/context.rs', 'zkcuda/kernel.rs'], [('kernel macro', 'expander_compiler/macros/src/lib.rs'), ('call macro', 'zkcuda/context.rs')],
  'run-time monitor: kernels expanded by the real macros with random bodies that weigh every element differently, called in random sessions; every output element of every instance and lane compared with a reference that addresses elements by nested position',
  'Exploration of 16 signatures (0 to 5 axes, literal, named and computed sizes, 2 to 8 arguments) with thousands of random bodies and sessions over five fields.' + TRUST, observe=['compile_matrices', 'call_kernel!', 'solve_witness'])
# ---- standard library of gadgets (circuit-std-rs)
P('F06', 'A program text in interpreter form becomes a circuit that computes what it says',
  'For every well-formed program text over Mersenne-31, loading it yields a circuit whose stored results (bits taken from inputs and words, boolean gates, products, words put together from bits, sums of sixty-bit words that do not overflow, extracted limbs) are the values its lines describe, at the stated places in whatever order they are stored, in evaluation and compiled. The limb-wise adder of the loader returns the sum of two numbers of any length in any large field whenever the words leave room for a carry.',
  ['programs', 'inputs'], 'all program texts, all inputs, all fields and word sizes with room for a carry', 'The loader has no test at all.',
  ['utils/interpreter_loader.rs'], [('text interpreter', 'utils/interpreter_loader.rs')],
  'differential run-time monitor: generated texts loaded, evaluated and compiled, and compared with an independent interpreter; wrong results must be refused',
  'Exploration of thousands of texts and sums. The decomposition hint of the loader is unconstrained by design, so forged answers are not claimed.' + TRUST, observe=['lines', 'right results', 'wrong results'])
P('G01', 'The C library for Go callers compiles and proves as the compiler itself does',
  'For every source program handed over as bytes with a supported field number, the compiling entry point returns exactly what compiling it directly yields, or an error text and no circuit when the compiler declines, the bytes are cut short or belong to another field, or the field is unknown. A proof made from a circuit file and a true witness is accepted by the verifying entry point, which answers no for proofs of false witnesses, other witnesses or public inputs, tampered proofs and bytes that are no proof. The caller\'s bytes are left alone, and releasing the results leaves no memory behind.',
  ['programs', 'inputs', 'fault_sequences'], 'all sources, fields, witnesses, damaged sources and damaged proofs', 'The library has no tests; the Go side needs a network to build.',
  ['expander_compiler/ec_go_lib/src/compile.rs', 'expander_compiler/ec_go_lib/src/proving.rs', 'expander_compiler/ec_go_lib/src/lib.rs'],
  [('compiling entry points', 'expander_compiler/ec_go_lib/src/compile.rs'), ('proving entry points', 'expander_compiler/ec_go_lib/src/proving.rs')],
  'differential run-time monitor calling the real C symbols, with an allocation monitor, fault injection into sources and proofs',
  'Exploration of thousands of programs and proofs. Malformed witnesses and unknown proving configurations abort the process by design and are not claimed.' + TRUST, observe=['programs compiled', 'refused', 'true proofs', 'leaks'])
ASAN = 'AddressSanitizer over the whole crate and its stand-ins (heap redzones, quarantine of released memory, fences around every shared region), the standard library\'s unsafe-precondition checks, and a self-test of the sanitizer before each run'
P('M01', 'Calls of the C library touch only the caller\'s arrays and memory of its own',
  'In every call of the C library for Go callers, with arrays exactly as long as they say, holding whole or damaged sources, true or false witnesses, proofs or bytes that are none, it reads and writes only inside those arrays and inside memory it has allocated and not yet released, and it never releases the caller\'s arrays. Each array it returns is allocated as long as it says and is the caller\'s to release, once.',
  ['inputs', 'fault_sequences'], 'all sources, witnesses, proofs and damage to them', 'The library has no tests, and a read past an array shows in no result.',
  ['expander_compiler/ec_go_lib/src/compile.rs', 'expander_compiler/ec_go_lib/src/proving.rs', 'expander_compiler/ec_go_lib/src/lib.rs'],
  [('compiling entry points', 'expander_compiler/ec_go_lib/src/compile.rs'), ('proving entry points', 'expander_compiler/ec_go_lib/src/proving.rs')],
  ASAN, 'Exploration of thousands of calls per run. Only errors that an execution reaches are seen; reads of memory that was never written are not.' + TRUST, observe=['programs compiled', 'true proofs', 'errors planted and reported'])
P('M02', 'Data handed over in shared memory stays inside the shared regions',
  'For every history of writing circuits, computation graphs, witnesses, key set-ups and proofs of any sizes into shared memory regions (new, reused, larger or smaller than before), reading them by several readers and giving them up, every read and write stays inside the regions and inside memory that the process itself has allocated and not yet released. No memory is released twice, and none of a region is released as if it were private.',
  ['histories', 'inputs'], 'all histories over all objects, sizes and readers', 'No test writes to a region, and a stray read shows in no result.',
  ['zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs', 'zkcuda/mpi_mem_share.rs'],
  [('named regions', 'zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs'), ('flat copies', 'zkcuda/mpi_mem_share.rs')],
  ASAN, 'Exploration of thousands of histories per run. Only errors that an execution reaches are seen; reads of memory that was never written are not.' + TRUST, observe=['bytes_shared', 'fenced_bytes', 'errors planted and reported'])
P('M03', 'Proving and verifying in one process touch only memory of that process',
  'For every session of kernel calls, with true or false data and with proofs as made, cut short, mixed or altered, set-up, proving and verifying with the dummy, plain and batch proving systems read and write only inside memory that is allocated and not yet released, however many instances and threads share it, and release everything at most once.',
  ['inputs', 'programs', 'schedules'], 'all sessions, proofs and schedules of the threads', 'No test proves with the batch prover, and use of released memory rarely shows in a result.',
  ['zkcuda/proving_system/expander_local_deferred/api.rs', 'zkcuda/proving_system/expander/prove_impl.rs', 'zkcuda/proving_system/expander/verify_impl.rs', 'zkcuda/proving_system/dummy.rs'],
  [('batch prover', 'zkcuda/proving_system/expander_local_deferred/api.rs'), ('plain prover', 'zkcuda/proving_system/expander/prove_impl.rs')],
  ASAN, 'Exploration of over a thousand sessions per run. Only errors that an execution reaches are seen; reads of memory that was never written are not.' + TRUST, observe=['errors planted and reported'])
P('M04', 'No process of a server session touches memory that is not its own',
  'For every session of a client with a server of one or several processes (parallel, deferred, or without oversubscription; any delays between them, several set-ups and witnesses), every process reads and writes only inside the memory shared with it and inside memory it has itself allocated and not yet released, until it ends. No process uses shared memory after giving it up, or releases anything twice.',
  ['schedules', 'histories'], 'all sessions, numbers of processes and delays', 'No test starts a server, and a stray access rarely shows in a result.',
  ['zkcuda/proving_system/expander_parallelized/server_fns.rs', 'zkcuda/proving_system/expander_parallelized/server_ctrl.rs', 'zkcuda/proving_system/expander_parallelized/client_utils.rs', 'zkcuda/proving_system/expander_parallelized/shared_memory_utils.rs'],
  [('server', 'zkcuda/proving_system/expander_parallelized/server_fns.rs'), ('client', 'zkcuda/proving_system/expander_parallelized/client_utils.rs')],
  ASAN, 'Exploration of some hundred sessions per run, with jitter injected into the messages. Only errors that an execution reaches are seen.' + TRUST, observe=['errors planted and reported'])
P('S06', 'The statistics of a layered circuit describe its expansion',
  'For every valid layered circuit, the reported statistics equal a direct count: layers, segments, inputs read, gates of all segments, gates of each kind in the expansion of every layer with its nested segments, wires in total and wires that some gate writes, and the cost that follows from them.',
  ['inputs', 'programs'], 'all layered circuits of both targets, drawn and compiled', 'No test looks at the statistics.',
  ['circuit/layered/stats.rs', 'circuit/layered/mod.rs', 'circuit/config.rs'], [('statistics', 'circuit/layered/stats.rs'), ('written wires', 'circuit/layered/mod.rs')],
  'differential run-time monitor: reported statistics against an independent expansion',
  'Exploration of tens of thousands of circuits per run.' + TRUST, observe=['statistics compared', 'gates counted'])
GAD = 'run-time monitor: gadgets executed by the real debug evaluator and the real compiled circuits, compared with independent reference implementations; prover answers forged'
P('L01', 'SHA-256 gadgets compute SHA-256 and nothing else',
  'For every message, the SHA-256 gadgets over the binary field (any number of bits, in any split into pieces) and over Mersenne-31 (any number of bytes the gadget takes) return exactly the SHA-256 digest, word operations and compression step included. Inputs of the Mersenne-31 gadgets that are not bytes, and claimed digests that differ anywhere, are refused by evaluation and by the compiled circuit alike.',
  ['inputs', 'programs'], 'all messages of all lengths, all splits, all wrong claims', 'Tests hash a few fixed lengths.',
  ['circuit-std-rs/src/sha256/gf2.rs', 'circuit-std-rs/src/sha256/gf2_utils.rs', 'circuit-std-rs/src/sha256/m31.rs', 'circuit-std-rs/src/sha256/m31_utils.rs'],
  [('binary field', 'circuit-std-rs/src/sha256/gf2.rs'), ('prime field', 'circuit-std-rs/src/sha256/m31.rs')], GAD,
  'Exploration of some thousand messages; the reference is checked against published vectors and another implementation.' + TRUST, observe=['SHA256GF2::finalize', 'sha256_var_bytes'])
P('L02', 'Poseidon gadgets and native Poseidon agree with the specification',
  'For every input length, the Poseidon sponge and permutation gadgets over Mersenne-31 return exactly what the specification with the library\'s round constants gives, and so do the native functions. A compiled circuit accepts exactly the right state, and a prover that answers the gadget\'s copies wrongly is refused.',
  ['inputs', 'programs'], 'all inputs of all lengths, all rates', 'Tests compare one or two fixed vectors.',
  ['circuit-std-rs/src/poseidon/poseidon_m31.rs', 'circuit-std-rs/src/poseidon/poseidon_u32.rs', 'circuit-std-rs/src/poseidon/utils.rs'],
  [('sponge', 'circuit-std-rs/src/poseidon/poseidon_m31.rs')], GAD,
  'Exploration of thousands of inputs; the reference reproduces the published vector. The native functions are claimed for canonical inputs.' + TRUST, observe=['poseidon_permutate', 'hash_to_state'])
P('L03', 'Lookups accept present rows and values in range only',
  'Over every large field, the lookup arguments (rows of keys and values, tables given once and queried often, range proofs of any width, query counts supplied or computed) accept every set of queries whose rows are in the table, and every value in its range, when the counts are right. They refuse a query that is absent, a value out of range (however the prover answers the decomposition), and wrong counts, in evaluation and in compiled circuits.',
  ['inputs', 'programs', 'fault_sequences'], 'all tables, queries, counts and widths; all forged answers', 'Tests use one shape of table with random contents.',
  ['circuit-std-rs/src/logup.rs'], [('lookup argument', 'circuit-std-rs/src/logup.rs')], GAD + ' under fresh challenges',
  'Exploration of tens of thousands of sessions over four fields; a false acceptance counts when three independent challenges agree. The binary field is too small for these arguments and is not claimed.' + TRUST, observe=['LogUpRangeProofTable', 'LogUpSingleKeyTable', 'query_count'])
P('L04', '2048-bit integer assertions hold exactly for true equations',
  'Evaluated honestly, the 2048-bit integer gadgets accept x + y = result + carry·modulus and x·y = result + carry·modulus exactly when the integer equation is true (and for sums the result is below the modulus, the carry 0 or 1), for all limbs of 120 bits. Products without reduction, comparisons, equality, sums of many limbs and byte decompositions equal the integer results, and the compiled circuit gives the same verdicts.',
  ['inputs', 'programs'], 'all operands and moduli, all single changes of a limb', 'Tests use a handful of operands.',
  ['circuit-std-rs/src/non_native/u2048.rs', 'circuit-std-rs/src/non_native/u120.rs', 'circuit-std-rs/src/non_native/util.rs'],
  [('2048-bit integers', 'circuit-std-rs/src/non_native/u2048.rs')], GAD,
  'Exploration of thousands of operations. Range proofs of these gadgets are declared missing in the repository, so forged answers are not claimed.' + TRUST, observe=['assert_mul', 'assert_add'])
P('L05', 'Matrix product checks accept exactly the products',
  'Over every large field and for every shape, the matrix multiplication circuit accepts the product of the two matrices and refuses any other third matrix, in evaluation and compiled; its generated assignments are products, and shapes that cannot be multiplied are refused.',
  ['inputs', 'programs'], 'all shapes, all matrices, all wrong results', 'One test uses one shape.',
  ['circuit-std-rs/src/matmul.rs'], [('random-combination check', 'circuit-std-rs/src/matmul.rs')], GAD + ' under fresh challenges',
  'Exploration of thousands of pairs over four fields.' + TRUST, observe=['MatMulCircuit'])
P('L06', 'Word gadgets over Mersenne-31 equal arithmetic on integers',
  'For all canonical inputs, the word gadgets over Mersenne-31 (packing bits and bytes into limbs and unpacking them, limb additions with carries, comparisons, xor, remainder and quotient by powers of two, zero tests, selection, small lookups, splitting of decimal constants) return what integer arithmetic gives; values that do not fit the stated number of bits are refused. Compiled circuits accept exactly the right results.',
  ['inputs', 'programs'], 'all inputs and widths', 'Tests cover single fixed values.',
  ['circuit-std-rs/src/sha256/m31_utils.rs', 'circuit-std-rs/src/utils.rs', 'circuit-std-rs/src/gnark/utils.rs'], [('word gadgets', 'circuit-std-rs/src/sha256/m31_utils.rs')], GAD,
  'Exploration of tens of thousands of operations per run.' + TRUST, observe=['from_my_form', 'idiv_mod_bit'])
P('L07', 'Emulated BLS12-381 arithmetic equals arithmetic in the field and its tower',
  'For all inputs, the emulated operations on the base and scalar fields of BLS12-381 and on its extensions of degree 2, 6 and 12 (sums, differences, products and their sparse and cyclotomic forms, quotients, inverses, conjugates, Frobenius maps, powers, selections, zero tests, signs, and hashing of messages to the field) return the values that arithmetic in these fields gives. Equality assertions accept exactly equal values, and oversized limbs and divisions by zero are refused. Answers that the prover makes up for products, quotients, inverses, powers and copies never lead to another accepted value.',
  ['inputs', 'programs', 'fault_sequences'], 'all inputs, straight-line programs and made-up hint answers', 'Tests cover single vectors, honest answers only.',
  ['circuit-std-rs/src/gnark/field.rs', 'circuit-std-rs/src/gnark/element.rs', 'circuit-std-rs/src/gnark/hints.rs', 'circuit-std-rs/src/gnark/emulated/field_bls12381/e2.rs', 'circuit-std-rs/src/gnark/emulated/field_bls12381/e6.rs', 'circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs'], [('emulated field', 'circuit-std-rs/src/gnark/field.rs'), ('tower', 'circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs')], GAD,
  'Known finding: the carries of emulated products are not range-checked, so remainders shifted by multiples of 2^31-1 can be accepted.' + TRUST, observe=['check_mul', 'torus', 'frobenius'])
P('L08', 'BLS12-381 point and pairing gadgets compute in the groups and refuse forgeries',
  'For all points to which the formulas apply, the operations of the curve and its twist (sums of distinct points, doublings, multiples, endomorphisms, selections, isogenies, maps and hashes to the groups, and decoding of compressed points with proper flags) return the points that the group laws and the standard suites give. The assertions of equality, of lying on the curve, of lying in the subgroup, and of a pairing product being one accept exactly the points for which they are true, and encodings of no point are refused. Answers that the prover makes up for square roots, quotients, copies and pairing witnesses never lead to another accepted outcome.',
  ['inputs', 'programs', 'fault_sequences'], 'all points on and off the curves, in and out of the subgroups, and made-up hint answers', 'Tests cover a few vectors, honest answers only, and several leave the deferred checks unexecuted.',
  ['circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs', 'circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs', 'circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs', 'circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs', 'circuit-std-rs/src/gnark/hints.rs'], [('G1', 'circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs'), ('G2', 'circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs'), ('pairing', 'circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs')], GAD,
  'Adding a point to itself or its inverse, which the incomplete formulas do not support, is excluded; the origin stands for infinity.' + TRUST, observe=['map_to_curve', 'uncompressed', 'assert_is_on_g', 'final_exponentiation'])
P('L09', 'The RSA circuit accepts exactly true 65537th powers modulo the key',
  'For every base below every modulus of up to 2048 bits, the traces and assignments that the RSA program builds hold the true powers, quotients and result, and its circuit, evaluated honestly, accepts an assignment exactly when all seventeen product equations hold and the last power is the claimed result; no trace is built for a wrong result. The compiled circuit gives the same verdicts. The demonstration program completes and writes a circuit, a witness and a solver that work together.',
  ['inputs'], 'all bases, moduli and assignments, true and false', 'Tests use random operands, look at true results only, and never run the demonstration program.',
  ['rsa_circuit/src/main.rs', 'rsa_circuit/src/native.rs', 'circuit-std-rs/src/non_native/u2048.rs'],
  [('circuit, traces and assignments', 'rsa_circuit/src/main.rs')], GAD,
  'Exploration of about two thousand assignments per run. The hashes that the assignment carries are not constrained by the circuit and not claimed; the range proofs beneath are declared missing, so forged answers are not claimed.' + TRUST, observe=['true assignments', 'false assignments refused', 'dumped'])
P('L10', 'The native 2048-bit integers agree with integer arithmetic',
  'For all operands of 120-bit limbs, the native 2048-bit integers convert to and from big integers, field elements and hexadecimal text without loss, refuse wider numbers, add and multiply limbs with the right carries, and multiply modulo any modulus as integers do. Their addition and multiplication assertions accept exactly the true equations x + y = result + carry·modulus and x·y = result + quotient·modulus, and random numbers stay within 2048 bits.',
  ['inputs'], 'all operands, moduli and single changes of a limb', 'Tests use fixed small values and never compare the modular product with integer arithmetic.',
  ['rsa_circuit/src/native.rs'], [('native integers', 'rsa_circuit/src/native.rs')],
  'run-time monitor: the program\'s native integers compared with independent integer arithmetic, overflow and debug assertions on',
  'Exploration of a hundred thousand operations per run.' + TRUST, observe=['modular products', 'limb sums', 'true products', 'false sums'])
MODEL = 'run-time monitor: model-based history checker with overflow and debug assertions on'
U('U01', 'The priority heap always yields a minimum and loses nothing',
  'For every history of insertions and removals under a consistent total order, each removal returns an element that no remaining element precedes, every inserted element is returned exactly once, and removal from an empty heap reports emptiness.',
  ['histories'], 'all histories, all comparators incl. ties and reversed orders', 'One unit test pushes one sequence.', 'heap.rs', 'sift up / sift down', MODEL,
  'Exploration of thousands of random and adversarial histories plus all short ones.')
U('U02', 'The static hash map always builds and finds every key at its position',
  'For every list of distinct keys within the documented size, building the map terminates and looking up a stored key yields its position in the given list.',
  ['inputs'], 'all sets of distinct keys, including congruent, extreme and clustered ones', 'The unit test uses random key sets only.', 'static_hash_map.rs', 'multiplicative hashing with retries', MODEL,
  'Exploration with a watchdog for non-termination.')
U('U03', 'Bucket sort returns a sorted permutation',
  'For every array and key function within the bucket range, the result is a permutation of the input ordered by key.',
  ['inputs'], 'all arrays and key functions', 'There is no unit test for it.', 'bucket_sort.rs', 'counting and distribution', MODEL, 'Exploration of random arrays; exhaustive for tiny ones.')
U('U04', 'Union-find represents exactly the generated equivalence',
  'After every history of unions and finds, two elements have the same representative exactly when they are connected by the unions made, and finding a representative never changes the answer for any pair.',
  ['histories'], 'all histories of unions and finds', 'There is no unit test for it.', 'union_find.rs', 'path compression', MODEL, 'Exploration of random histories compared pairwise with labels.')
U('U05', 'The interning pool is a bijection between values and indices',
  'For every history of insertions, equal values get the same index, different values get different indices, indices are dense in order of first insertion, and both directions of lookup agree at all times.',
  ['histories'], 'all histories of insertions and lookups', 'There is no unit test for it.', 'pool.rs', 'value-to-index map beside the list', MODEL, 'Exploration of random histories.')
U('U06', 'Topological ordering respects every edge and rejects cycles',
  'For every acyclic dependency graph the computed order contains each vertex exactly once with every edge respected; a cyclic graph is reported as such.',
  ['inputs'], 'all directed graphs', 'There is no unit test for it.', 'misc.rs', 'Kahn ordering', MODEL, 'Exploration of random graphs, exhaustive for tiny ones.')
U('U07', 'Power-of-two rounding is exact',
  'For every size up to 2^62, rounding up returns the least power of two not below it and rounding down the greatest power of two not above it (zero stays zero when rounding down).',
  ['inputs'], 'all sizes up to 2^62', 'Only incidental use in tests.', 'misc.rs', 'leading-zero arithmetic', 'run-time monitor against a naive definition', 'Exhaustive up to 2^17 and all neighbourhoods of powers of two.')
U('U08', 'Function identities separate distinct functions',
  'Distinct functions, closures and generic instances never share an identity within a process, and one function has the same identity on every request and thread.',
  ['programs', 'schedules'], 'all functions and closures, all threads', 'There is no unit test for it.', 'function_id.rs', 'type identity', 'run-time monitor comparing identities across threads', 'Exploration over a fixed family of functions and closures.')
U('U09', 'Errors keep their kind and history when prefixed',
  'Adding context to an error keeps its kind (user or internal), puts the context before the earlier message, and keeps equality and display consistent with the message.',
  ['inputs'], 'all messages and chains of contexts', 'There is no unit test for it.', 'error.rs', 'prepend', 'run-time monitor against a string model', 'Exploration of random messages.')
