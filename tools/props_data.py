AP="autoprecompiles/src/"; CS="constraint-solver/src/"
p("C01","Optimized circuit admits no new behaviour",
"For every circuit handed to the optimizer, every row the optimized circuit accepts puts the same net messages on the stateful buses as some row the original circuit accepts. Hence replacing instructions by an optimized precompile never lets a prover show a state change the original instructions forbid.",
["inputs","programs","configurations"],"all symbolic machines (constraints, lookups, memory and execution-bridge interactions), fields, degree bounds, memory-consistent environments",
"The tests compare printed snapshots for a few fixed RISC-V blocks and never ask whether a newly admitted assignment exists; a dropped lookup or a wrongly merged constraint changes nothing for those inputs.",
[AP+"optimizer.rs",AP+"constraint_optimizer.rs",AP+"memory_optimizer.rs",AP+"low_degree_bus_interaction_optimizer.rs",AP+"range_constraint_optimizer.rs",CS+"rule_based_optimizer/rules.rs",CS+"inliner.rs"],
[{"name":"pass pipeline run to fixpoint","where":AP+"optimizer.rs"},{"name":"removal of free / unreferenced / disconnected columns","where":AP+"constraint_optimizer.rs"}],
["the machine returned by the optimizer"])
p("C02","Optimized circuit accepts every honest witness",
"For every circuit and every row the original circuit accepts, the row obtained by keeping the surviving columns and evaluating the new derived columns by their stated formulas is accepted by the optimized circuit, with the same net messages on the stateful buses. A satisfiable circuit is never reported as contradictory and the optimizer does not crash on it.",
["inputs","programs","configurations"],"all satisfiable symbolic machines, all their witnesses, all degree bounds that the input respects",
"Snapshot tests have no witnesses; end-to-end proving tests use a handful of executions, so a rarely taken operand value that no longer fits stays unnoticed.",
[AP+"optimizer.rs",AP+"constraint_optimizer.rs",CS+"rule_based_optimizer/rules.rs",CS+"inliner.rs",CS+"constraint_system.rs"],
[{"name":"derived columns with computation methods","where":CS+"constraint_system.rs"},{"name":"pass pipeline","where":AP+"optimizer.rs"}],
["the machine returned by the optimizer, its derived columns"])
p("C03","Solver conclusions hold in every solution",
"Whatever sequence of constraints, bus interactions and known range facts is given to the solver, in whatever order and with solving interleaved, every variable assignment it reports, every range it claims for an expression and every disequality it claims is true in all solutions of the conjunction. A contradiction is reported only if there is no solution.",
["histories","inputs"],"all histories of adding constraints, range facts and retaining variables interleaved with solving, all systems",
"Solver tests solve a dozen small hand-written systems once; incremental histories and interactions of solver components are not sampled.",
[CS+"solver.rs",CS+"solver/base.rs",CS+"solver/constraint_splitter.rs",CS+"solver/boolean_extractor.rs",CS+"solver/linearizer.rs",CS+"solver/exhaustive_search.rs",CS+"algebraic_constraint/solve.rs"],
[{"name":"work-queue driven propagation plus splitting, boolean extraction, linearization and exhaustive search","where":CS+"solver/base.rs"}],
["assignments returned by solve, range and disequality queries"])
p("C04","Range facts never exclude a possible value",
"If two values each satisfy a range fact, then their sum, product, negation, multiple and square satisfy the combined range fact, a value satisfying both or either satisfies the conjunction or disjunction, and facts reported disjoint share no value. Single values, sizes, enumerations and emptiness read off a range fact agree with the set of values it allows.",
["inputs"],"all pairs of representable range facts (interval, wrapping interval, bit mask), all field values, all fields",
"Unit tests check a few dozen literal ranges on one large field; wrap-around and mask/interval interplay at the modulus boundary are not enumerated.",
[CS+"range_constraint.rs"],[{"name":"interval and mask arithmetic","where":CS+"range_constraint.rs"}],["results of the public range operations"])
p("C05","Expression rewriting preserves the value",
"Building, combining, substituting into, normalising and converting algebraic expressions between their representations yields an expression with the same value under every assignment. Reported degrees and variable sets are those of the resulting polynomial expression, and an expression reported to be a constant or linear really is.",
["inputs","histories"],"all expressions, all sequences of arithmetic and substitution operations, all assignments",
"Tests compare printed forms of selected expressions.",
[CS+"grouped_expression.rs",CS+"symbolic_expression.rs",AP+"expression_conversion.rs","expression/src/lib.rs"],
[{"name":"grouped normal form with quadratic, linear and constant part","where":CS+"grouped_expression.rs"}],["values of resulting expressions"])
p("C06","Optimization respects the degree bound",
"If every constraint and bus-interaction field of the input is within the configured degree bounds, so is every constraint and every bus-interaction field of the optimizer's output, and guarding a precompile for padding rows does not raise any degree.",
["inputs","programs","configurations"],"all circuits within the bounds and all bound configurations",
"The snapshot tests use one bound configuration; whether inlining respects the bound in every field of a bus interaction is only asserted by a coarse run-time sanity check.",
[CS+"inliner.rs",AP+"optimizer.rs",AP+"low_degree_bus_interaction_optimizer.rs",AP+"lib.rs"],
[{"name":"inlining bounded by resulting degree","where":CS+"inliner.rs"}],["degrees in the returned machine"])
p("C07","Padding rows are inert, active rows unchanged",
"In every generated precompile the all-zero row satisfies all constraints and sends and receives nothing on any bus, and no row with the validity flag cleared can have a nonzero multiplicity. With the validity flag set, the precompile accepts exactly the rows and sends exactly the messages the unguarded optimized circuit does, and the flag can only be zero or one.",
["programs","inputs"],"all blocks of instructions, all rows",
"Tests look at printed guards of a few blocks and never evaluate them on rows.",
[AP+"lib.rs"],[{"name":"guarding constraints and multiplicities with a validity column","where":AP+"lib.rs"}],["the machine of a built precompile"])
p("C08","Memory-access merging preserves memory semantics",
"For every sequence of memory accesses in a circuit, with addresses that may or may not alias, removing matching receive/send pairs keeps the net memory-bus messages unchanged for every row in which the intermediate values are consistent, and the equalities it adds are implied for every memory-consistent execution. Accesses that might refer to a different address or address space are never merged across a possibly aliasing write.",
["histories","inputs"],"all sequences of memory accesses, all address expressions and aliasing patterns",
"The tests cover a few register patterns; possible aliasing with unknown addresses is a universally quantified question.",
[AP+"memory_optimizer.rs"],[{"name":"pairing of send with next receive at the same address, invalidation on possible alias","where":AP+"memory_optimizer.rs"}],["memory bus interactions before and after"])
p("C09","Selected precompile calls are complete, valid, disjoint",
"For every execution, every precompile call handed out covers exactly the precompile's number of cycles from the point where it was started, with snapshots taken at those two points, and calls handed out together never overlap in time. Among overlapping candidates higher priority wins, then greater length, then earlier insertion, a dropped finished candidate always lost to a better overlapping one, and nothing is handed out while a candidate is still undecided.",
["histories","schedules"],"all interleavings of starting candidates, execution steps, aborts and extractions, all precompile sets",
"Unit tests replay about twenty fixed scenarios with at most three candidates.",
[AP+"execution/candidates.rs"],[{"name":"candidate list with status, pairwise overlap resolution","where":AP+"execution/candidates.rs"}],["return values of insert, check, abort and extract calls"])
p("C10","Runtime assumptions are checked exactly when possible",
"A precompile candidate survives a sequence of execution states if and only if each of its assumptions, evaluated on the recorded program counters and register limbs of the steps it mentions, is true; it is rejected at the first step at which a violated assumption has all its values available, never earlier or later.",
["histories","inputs"],"all assumption sets over steps, registers and limbs, all state sequences",
"Tests use three hand-written constraint sets of length at most three.",
[AP+"execution/evaluator.rs",AP+"execution/ast.rs"],[{"name":"per-step schedule of fetches and checks","where":AP+"execution/evaluator.rs"}],["accept/reject result of each step"])
p("C11","Basic blocks partition the program at every boundary",
"For every program and set of jump targets, the detected basic blocks list every instruction exactly once, in program order and with the right program counter. A jump target that may be accelerated only ever starts a block, a branch only ever ends one, an instruction that may not be accelerated is always alone, and blocks are not split anywhere else.",
["programs","inputs"],"all instruction sequences, jump-target sets and base addresses",
"No unit test calls the detection directly with adversarial mixes of targets, branches and disallowed instructions.",
[AP+"blocks/detection.rs",AP+"blocks/mod.rs"],[{"name":"single pass over the program","where":AP+"blocks/detection.rs"}],["list of blocks"])
p("C12","Superblock statistics match the execution",
"For every execution trace, the detected runs are exactly the maximal sequences of consecutively executed multi-instruction blocks with their multiplicities, and every block sequence up to the configured length that occurs is reported with its number of non-overlapping occurrences unless it is below the execution cutoff or above the instruction limit. Nothing else is reported, and reported instructions and program counters are those executed.",
["histories","configurations"],"all executions over all block sets and all configurations",
"Tests use three short traces.",
[AP+"blocks/mod.rs"],[{"name":"run detection and window counting","where":AP+"blocks/mod.rs"}],["returned blocks, counts and runs"])
p("C13","Profile-guided selection is greedy within budget",
"The precompiles chosen under cell-based profiling never exceed the total column budget or the configured number, contain no block twice and none that would never run, and each is the one with the best value-per-cost on the part of the execution not already covered by earlier choices among those that still fit; the configured number of best ones is skipped. Under instruction-based or no profiling the chosen blocks are the top ones by executed instructions or by size, after the skipped ones.",
["inputs","histories","configurations"],"all candidate sets with costs, values and executions, all budgets and limits",
"Only the run-splitting helper has a unit test; selection with lazily updated priorities is not tested.",
[AP+"pgo/cell/selection.rs",AP+"pgo/cell/mod.rs",AP+"pgo/instruction.rs",AP+"pgo/none.rs",AP+"pgo/mod.rs"],[{"name":"priority queue with lazy re-counting","where":AP+"pgo/cell/selection.rs"}],["the returned list of precompiles"])
p("C14","Partitions behave as equivalence relations",
"Two elements are in the same class of an intersection of partitions exactly if they are in all of them, independent of order, grouping and parallelism; combining partitions of disjoint universes and renaming elements keep exactly the given equivalences. Converting to classes and back, and through serialization, gives the same relation without singleton classes.",
["inputs","histories","schedules"],"all partitions of all universes, all operation sequences, any number of partitions",
"Tests intersect three fixed partitions; the chunked parallel path (more than 64 partitions) is never run.",
[AP+"equivalence_classes.rs"],[{"name":"element to class-id map","where":AP+"equivalence_classes.rs"}],["classes of the result"])
p("C15","Empirical constraints are conservative",
"Merging statistics of several runs yields exactly the facts that every merged run supports: a column's value range is the smallest one covering each run's range, columns are equated exactly if they were equal in each run that executed the block, and execution counts add up, in any merge order. Restricting the statistics to a block, a threshold or checkable cells keeps exactly the facts about those cells, attached to the right instruction and column, and the generated constraints state exactly these facts.",
["histories","inputs"],"all sets of per-run statistics, merge orders, blocks (with repeated program counters), thresholds and cell filters",
"There is no unit test of merging, restriction or constraint generation.",
[AP+"empirical_constraints.rs",AP+"optimistic/algebraic_references.rs"],[{"name":"merge, restriction and generation of empirical constraints","where":AP+"empirical_constraints.rs"}],["merged statistics, generated constraints"])
p("C16","Bus knowledge matches the VM's lookup tables",
"For the OpenVM buses, every tuple in a lookup table (bitwise, variable range, tuple range) that is compatible with what is known about its fields is still allowed after the bus knowledge is applied, and values received from registers or memory are only restricted to bytes (zero for the zero register). Inactive interactions and other buses restrict nothing, and memory reads and writes are recognised as such. Re-expressing pure range checks as new lookups accepts exactly the same values as before.",
["inputs"],"all payload range facts, all table rows, all sets of range checks to be batched",
"Tests check a few payloads per bus; exactness of batched re-encoding over all values is not checked.",
["openvm-bus-interaction-handler/src/lib.rs","openvm-bus-interaction-handler/src/bitwise_lookup.rs","openvm-bus-interaction-handler/src/variable_range_checker.rs","openvm-bus-interaction-handler/src/tuple_range_checker.rs","openvm-bus-interaction-handler/src/memory.rs",AP+"range_constraint_optimizer.rs"],
[{"name":"per-bus refinement and batching","where":"openvm-bus-interaction-handler/src/lib.rs"}],["refined payload ranges, generated interactions"])
p("C17","Field elements obey prime-field arithmetic",
"For every supported field, addition, subtraction, multiplication, division, negation, powers, comparison, bit operations and conversions from and to integers, strings and bytes agree with arithmetic modulo the field's prime on canonical representatives.",
["inputs"],"all elements of all supported fields, including 0, 1, p-1 and values around word boundaries",
"Tests cover selected literals; carries and reductions at word boundaries are input-dependent.",
["number/src/goldilocks.rs","number/src/plonky3_macros.rs","number/src/macros.rs","number/src/traits.rs","number/src/serialize.rs","number/src/lib.rs"],
[{"name":"field implementations","where":"number/src/"}],["results of field operations"])
p("C18","Instruction columns map faithfully into precompiles",
"In every generated precompile each instruction's columns keep a private identity until merged by proven equalities: the recorded column substitutions, per instruction and call, address exactly the original row cell whose value the precompile column must hold. Filling a precompile row from the original instructions' rows through this mapping and computing the derived columns yields a row the precompile accepts whenever the originals were accepted.",
["programs","inputs","histories"],"all instruction sequences, numbers of calls and repeated instruction types",
"Trace-filling offsets are only exercised by end-to-end proofs of fixed guests that cannot be built in unit tests.",
[AP+"symbolic_machine_generator.rs",AP+"trace_handler.rs",AP+"lib.rs"],[{"name":"fresh global column ids with substitution tables; row offset computation","where":AP+"trace_handler.rs"}],["substitutions and row references"])
p("C19","Saved artefacts read back unchanged",
"Serializing and deserializing field elements, expressions, circuits, precompiles with their assumptions, partitions and empirical statistics, in every supported format, gives an equal object, and malformed field data is rejected rather than read as another value.",
["inputs"],"all values of the serializable types",
"Only a few fixed artefacts are round-tripped in tests.",
["number/src/serialize.rs",AP+"expression.rs",AP+"symbolic_machine.rs",AP+"equivalence_classes.rs",AP+"empirical_constraints.rs",AP+"lib.rs"],[{"name":"serde implementations","where":"number/src/serialize.rs"}],["round-tripped values"])
p("C20","Constraint index stays in step with the system",
"After any history of adding, retaining, substituting and extending constraints and bus interactions, looking up the constraints that mention a variable returns, once each, all those whose current form mentions it and none that never mentioned it, and the system is the one obtained by performing the edits on a plain list. Items affected by an edit are always queued again, each queued item is delivered once, and nothing is delivered that was not queued.",
["histories"],"all histories of edits and queue operations",
"Tests perform at most three edits on three constraints.",
[CS+"indexed_constraint_system.rs"],[{"name":"variable-occurrence index and deduplicating work queue","where":CS+"indexed_constraint_system.rs"}],["lookups, contents and queue order"])
p("C21","Single rewriting passes keep the solution set",
"Each rewriting pass taken alone (rule-based simplification, inlining of defined columns, exhaustive search, splitting of a system into independent parts, re-expressing of range checks, replacing of lookups by low-degree constraints, removal of disconnected columns) keeps, for every system, the set of solutions on the columns that remain visible, up to columns it declares eliminated or derived. Reported assignments are consequences of the system.",
["inputs","histories"],"all systems and pass sequences",
"Tests compare printed outputs of chosen systems.",
[CS+"rule_based_optimizer/driver.rs",CS+"rule_based_optimizer/rules.rs",CS+"inliner.rs",CS+"system_splitter.rs",CS+"reachability.rs",CS+"solver/exhaustive_search.rs",AP+"constraint_optimizer.rs",AP+"range_constraint_optimizer.rs",AP+"low_degree_bus_interaction_optimizer.rs"],
[{"name":"individual passes","where":CS}],["system before and after a pass"])
p("C22","Building a precompile is deterministic",
"Building the same block with the same configuration gives the same precompile (same constraints, interactions, columns and order) in every process and thread schedule.",
["schedules","inputs"],"all circuits, hash seeds and thread schedules",
"Tests run once per process; order dependence on hash-map iteration shows only across processes.",
[AP+"optimizer.rs",CS+"rule_based_optimizer/driver.rs"],[{"name":"ordered collections and fixed-seed iteration","where":CS}],["serialized machine across runs"])
p("C23","Precompile assumptions pin down its block sequence",
"The runtime assumptions attached to a precompile hold on an execution window exactly if the window enters each of its constituent blocks at the block's start address at the right instruction offset, so a precompile built for one block sequence is never substituted for another.",
["programs","histories"],"all superblocks and all execution windows",
"Tests inspect the printed assumptions of fixed superblocks.",
[AP+"lib.rs",AP+"blocks/mod.rs",AP+"execution/evaluator.rs"],[{"name":"program-counter assumptions per constituent block","where":AP+"lib.rs"}],["acceptance of windows of executed program counters"])
p("C24","Static jump targets in a binary are all found",
"For every RISC-V binary, the reported jump destinations include the entry point and the target of every direct jump, branch and address-pair call, computed with the architecture's sign extension relative to the right instruction. The 64-bit listing also includes every code symbol and the right lowest code address; the 32-bit loader's labels also include every code address formed in a register by an address pair or stored in data by a relocation.",
["programs","inputs"],"all RISC-V text segments with direct jumps, branches, address pairs, symbols and relocations",
"No test feeds synthetic binaries; jump-target arithmetic is only exercised through external tool chains.",
["riscv-elf/src/rv64.rs","riscv-elf/src/lib.rs"],[{"name":"linear scan for jumps","where":"riscv-elf/src/rv64.rs"},{"name":"two-instruction lifting and relocation handling","where":"riscv-elf/src/lib.rs"}],["set of reported jump destinations","set of text labels"])
p("C25","A loaded program means what its binary says",
"For every supported 32-bit RISC-V binary, the statements handed to code generation stand for the program's instructions in address order: each has the operation, registers and sign-extended immediate of its (possibly compressed) encoding, two instructions are joined only into one with the same effect and never where something jumps between them, code addresses appear as labels, and every label used is defined exactly once and stands at the address it refers to (entry point included). The initial memory is the data of the binary with relocations applied, pointers to code as labels.",
["programs","inputs"],"all 32-bit binaries, position independent or with relocations, with the base, M, A and compressed instruction sets",
"The only tests of the loader need an external RISC-V tool chain and compare a handful of programs by their results; single encodings, fusions and relocations are not covered.",
["riscv-elf/src/lib.rs","riscv-elf/src/debug_info.rs","syscalls/src/lib.rs"],[{"name":"lifting two instructions into one","where":"riscv-elf/src/lib.rs"},{"name":"symbol names and their deduplication","where":"riscv-elf/src/debug_info.rs"}],["executable statements","initial memory","start function"])

p("C26","Runtime-checkable columns stand for the right register limb",
"For every block and every honest execution of it, a circuit column the builder lists as checkable at run time equals the named limb of the named register (or memory word) in the machine state before the named step, and a condition made from an equality between such columns and constants holds on the execution states exactly when the equality holds on the row. What the builder assumes from observed executions holds in all those executions, and in restricted mode every assumption is about checkable columns only.",
["programs","histories","inputs"],"all blocks (superblocks included), instruction circuits, memory states and honest executions",
"No test compares checkable columns with the states of an execution; the end-to-end tests only look at precompile sizes.",
[AP+"optimistic/execution_literals.rs",AP+"optimistic/execution_constraint_generator.rs",AP+"optimistic/algebraic_references.rs",AP+"lib.rs"],[{"name":"memory accesses with known address after per-instruction optimization","where":AP+"optimistic/execution_literals.rs"},{"name":"cell to column mapping","where":AP+"optimistic/algebraic_references.rs"}],["listed checkable columns","conditions on execution states","constraints added before optimization"])
p("C27","Profiles and cost figures are exact",
"A recorded profile lists exactly the instructions the profiled run executed, in order, and counts each address as often as it occurs, whatever else the run reports; the cost figures of a built precompile are the total of its instructions' columns, constraints and bus interactions before, and its own after, optimization.",
["histories","programs"],"all sequences of reported events and all built precompiles",
"Selection tests use hand-written profiles and cost figures; nothing checks the recorded ones.",
[AP+"execution_profile.rs",AP+"evaluation.rs",AP+"powdr.rs"],[{"name":"event collector","where":AP+"execution_profile.rs"}],["execution profile","evaluation result"])
