SIMNOTE = """Random search with shrinking against an independent reference; absence of a counterexample is evidence over the
generated space only. Trusts the harness' own SystemVerilog reading (two-state, IEEE 1800 sizing rules) and reference evaluator."""
prop("P01", "Emitted expressions compute the value of the expression that was built",
 """For every combinational expression a user can build from variables, constants, operators, slices, indices, concatenations,
 extensions, casts, conditionals and function calls, the emitted SystemVerilog evaluates, for every input value, to the value the
 built operator tree denotes with its declared widths and signs. The width and signedness the library reports for an expression
 are those of the emitted expression.""",
 ["programs", "inputs"], "All expression trees over all operators, operand widths (1..128 bits and more), signs and array shapes, and all operand values.",
 "The tests compare a few fixed strings; they cannot cover operator nesting, precedence, width and sign context, nor evaluate the text.",
 ["src/expr.cc", "src/expr.hh", "src/codegen.cc", "src/util.cc"],
 [("expression printing and parenthesisation", "src/expr.cc expr_to_string"), ("width and sign computation", "src/expr.cc Expr::Expr, VarSlice, VarCasted, VarExtend, VarConcat")],
 SIMNOTE, ["verilog text", "Var::width/is_signed"])
prop("P02", "Emitted procedural code executes like the statements that were built",
 """For every module built from continuous assignments, combinational, sequential and latch blocks with nested conditionals, switches,
 loops and partial assignments, the emitted SystemVerilog produces, for every history of inputs, clock edges and resets, the outputs that
 executing the built statements in order produces. Blocking and non-blocking assignments, clock and reset edges and default branches
 keep their meaning.""",
 ["programs", "histories"], "All statement trees (blocks, nesting, partial and indexed targets) and all input histories with clock edges and reset assertions.",
 "The tests check a handful of golden texts; ordering, default handling and edge semantics over histories are never executed.",
 ["src/stmt.cc", "src/codegen.cc", "src/transform.cc"],
 [("statement code generation", "src/codegen.cc SystemVerilogCodeGen"), ("assignment type fixing", "src/transform.cc fix_assignment_type")],
 SIMNOTE, ["verilog text"])
prop("P03", "The default compilation flow preserves the behaviour of the whole design",
 """For every legal hierarchical design, the modules emitted after the default sequence of passes behave, at the ports of the top module and
 for every input history, exactly as the design that was built. Renaming, decoupling of ports, uniquification, wire and pass-through
 removal, constant folding into connections and instantiation never change, lose or duplicate a connection.""",
 ["programs", "configurations", "histories"], "All hierarchies of modules, connections (whole, sliced, expressions, constants, port to port) and all input histories.",
 "Each pass is tested alone on one or two small designs; interactions of passes over arbitrary hierarchies are not.",
 ["src/transform.cc", "src/optimize.cc", "src/hash.cc", "src/analysis.cc", "src/codegen.cc", "src/generator.cc"],
 [("default pass order", "python/kratos passes; src/pass.cc PassManager"), ("port decoupling", "src/transform.cc decouple_generator_ports"), ("wire removal", "src/optimize.cc remove_fanout_one_wires, remove_pass_through_modules, merge_wire_assignments")],
 SIMNOTE, ["verilog text"])
prop("P05", "Structural simplification passes keep the behaviour of the design",
 """Removing unused variables, dead code, wires with a single fanout, pass-through modules and merging slice-by-slice wire assignments, in any
 order and any number of times, leaves the behaviour at the ports of the top module unchanged for every input history. No pass removes a
 variable, statement or connection that still matters, and the design still compiles afterwards.""",
 ["programs", "pass sequences", "histories"], "All hierarchies, all sequences of these passes, all input histories.",
 "The tests run each pass on one hand written design and compare counts or a golden text; they do not run sequences or execute the result.",
 ["src/optimize.cc", "src/transform.cc", "src/analysis.cc", "src/stmt.cc", "src/expr.cc"],
 [("wire and pass-through removal", "src/optimize.cc remove_fanout_one_wires, remove_pass_through_modules, merge_wire_assignments"), ("dead code removal", "src/optimize.cc dead_code_elimination, remove_unused_vars")],
 SIMNOTE, ["verilog text"])
prop("P06", "Restructuring of procedural code keeps the behaviour",
 """Turning chains of ifs into case statements, merging neighbouring if statements, removing empty blocks and branches, removing dead code
 and sorting statements, in any combination, leaves what every block computes unchanged for every input history.""",
 ["programs", "pass sequences", "histories"], "All nested if / switch statement trees, all combinations of these passes, all input histories.",
 "The tests show one chain of ifs per pass; repeated conditions, shared targets, reads of intermediate values and nesting are not tried.",
 ["src/optimize.cc", "src/transform.cc", "src/stmt.cc"],
 [("if to case", "src/optimize.cc transform_if_to_case"), ("merging of ifs", "src/optimize.cc merge_if_block"), ("empty blocks, dead code", "src/optimize.cc dead_code_elimination"), ("sorting", "src/transform.cc sort_stmts")],
 SIMNOTE, ["verilog text"])
prop("P07", "Inlining an instance keeps the behaviour",
 """Dissolving the instances of modules that are marked for inlining into their parents, any number of times, leaves the behaviour at the ports
 of the top module unchanged for every input history: names of the child never clash with or capture names of the parent, no connection is
 lost, and the emitted modules refer only to names they declare. An instance that is marked and may be inlined no longer appears.""",
 ["programs", "pass sequences", "histories"], "All hierarchies and markings, all connections between child and parent, all input histories.",
 "The tests inline one trivial child and compare the text; name clashes, registered outputs that are read back, slices, constants and repeated inlining are not tried.",
 ["src/optimize.cc", "src/generator.cc", "src/expr.cc"],
 [("inlining", "src/optimize.cc InlineGeneratorVisitor"), ("moving the content", "src/generator.cc Generator::transfer_content")],
 SIMNOTE, ["verilog text"])
prop("P08", "Modules share a definition exactly when they are the same",
 """When generators of the same name are uniquified, two instances are given the same emitted definition only if they are the same circuit:
 no instance ever gets the logic of another one that differs in a constant, an operator, a statement or its order, an edge, a width, a
 connection or a child. Instances whose content is the same do share one definition, so that no module is emitted twice under two names.""",
 ["programs", "pairs of modules"], "All pairs of same-named modules that differ in any single respect, anywhere in the hierarchy.",
 "The tests compare two hand written pairs; a hash that ignores some part of a module passes them all.",
 ["src/hash.cc", "src/pass.cc", "src/context.cc", "src/graph.cc"],
 [("hashing", "src/hash.cc hash_generators"), ("renaming", "src/pass.cc uniquify_generators")],
 SIMNOTE, ["verilog text", "number of modules"])
prop("P09", "The emitted text depends on nothing but the design",
 """Building the same design with the same calls and compiling it with the same passes and options gives byte for byte the same text, whatever
 addresses its objects are given, in whatever order passes working on several modules at a time get to them, and whether hashes are
 computed in parallel or one after the other. Emitting the compiled design once more gives the same text again.""",
 ["programs", "configurations", "schedules"], "All designs, pass and code generation options, memory layouts and orders of the tasks of a parallel pass.",
 "The tests compile each design once, in one process state, with whatever layout and schedule they happen to get.",
 ["src/optimize.cc", "src/hash.cc", "src/transform.cc", "src/context.cc", "src/codegen.cc", "src/graph.cc", "src/ir.cc"],
 [("order of merged and moved statements", "src/optimize.cc merge_wire_assignments, inline_instance"), ("hashing", "src/hash.cc hash_generators_parallel, hash_generators_sequential"), ("parallel visits", "src/ir.cc visit_generator_root_p, visit_generator_root_tp")],
 """Random search with shrinking, comparing several builds of each design within one process (heap perturbed, task order permuted, sometimes real threads).
 Orders that depend on something else, such as another standard library, are not explored.""", ["verilog text"])
prop("P34", "Passes working on several modules at a time do not interfere",
 """No pass that hands modules to several threads, and no parallel step of hashing and code generation, accesses the same data from two threads
 without synchronisation, for any hierarchy and any sequence of passes that is legal for it. Compiling with real threads never crashes.""",
 ["programs", "pass sequences", "schedules"], "All hierarchies, pass sequences and interleavings of the tasks of a parallel pass.",
 "The tests run small hierarchies without a race detector; a race needs siblings or a parent and child to be processed at the same moment.",
 ["src/ir.cc", "src/optimize.cc", "src/transform.cc", "src/analysis.cc", "src/hash.cc", "src/codegen.cc"],
 [("parallel visits", "src/ir.cc visit_generator_root_p, visit_generator_root_tp"), ("passes changing other modules", "src/optimize.cc dead_code_elimination, inline_instance"), ("parallel code generation", "src/codegen.cc generate_verilog_no_pkg")],
 """Random search; the thread sanitizer reports unsynchronised accesses by happens-before, hence also when the accesses did not overlap in this run.
 Each task runs in a thread of its own.""", ["data races", "crashes"])
prop("P10", "A bit with two drivers is reported and one driver per bit is accepted",
 """The checks of assignments reject every design in which some bit of a variable is driven twice: by two continuous assignments, from two
 processes, from a process and continuously, by an output of a child and something else, twice in the same branch of a clocked process, or
 by blocking and non-blocking assignments, whatever slices, elements and nesting are used and in whatever order the statements were added.
 They accept every design in which each bit is driven from one place, including complementary branches and disjoint slices.""",
 ["programs"], "All ways of driving the bits of variables by slices, elements, branches, processes and children.",
 "The tests contain one design for each message; overlaps of differently nested slices, and designs which must be accepted, are barely tried.",
 ["src/analysis.cc", "src/stmt.cc", "src/generator.cc"],
 [("multiple drivers", "src/analysis.cc check_multiple_driver, MultipleDriverVisitor"), ("mixed assignments", "src/analysis.cc check_mixed_assignment, verify_assignments"), ("types of assignments", "src/transform.cc fix_assignment_type")],
 "Random search with shrinking. Loops are left out, since the analysis skips them on purpose.", ["accepted or rejected"])
prop("P11", "Inferred latches and missing returns are reported exactly when they exist",
 """The latch check rejects a design exactly if some combinational process leaves a variable that it assigns unassigned on a path through its
 branches, cases and loops, or some clocked process assigns a register under an asynchronous reset of its sensitivity list and nowhere in the
 other branch; the variable it names is such a variable. The check of functions rejects exactly those which return a value on some
 but not all paths, or have statements after a return. A switch is complete with a default or if all values of its target or enum are listed.""",
 ["programs"], "All processes and functions built of assignments, branches, cases with and without default, and loops, anywhere in a hierarchy.",
 "The tests contain one or two designs for each check; which paths are covered is a matter of every nesting of branches and cases.",
 ["src/analysis.cc"],
 [("latches", "src/analysis.cc check_inferred_latch, check_stmt_condition"), ("returns", "src/analysis.cc check_function_return, FunctionReturnVisitor")],
 "Random search with shrinking. Every variable is assigned through one and the same slice in a case, since the documentation excludes mixed slices from the latch check.", ["accepted or rejected", "name in the message"])
prop("P12", "Floating ports are reported; zeroed inputs and stubs read as zero",
 """The connectivity check rejects a design exactly if some bit of an output, or of an input of a module below the top, is driven by nothing,
 and it names such a bit; stubs and external modules are exempt. After zeroing the inputs of a module that asks for it, every floating bit of an
 input of its children is zero, every driven bit keeps its driver, and the result compiles; every output of a stub is zero.""",
 ["programs", "inputs"], "All hierarchies, shapes of ports (arrays, packed or not, signed) and ways to drive parts of them.",
 "The tests check one scalar port; arrays, gaps between slices, several levels and the emitted result of zeroing are not tried.",
 ["src/analysis.cc", "src/transform.cc"],
 [("connectivity", "src/analysis.cc connected, verify_generator_connectivity"), ("zero inputs", "src/transform.cc zero_generator_inputs"), ("stubs", "src/transform.cc zero_out_stubs")],
 SIMNOTE, ["accepted or rejected", "name in the message", "verilog text"])
prop("P35", "Checks of clocks, resets, loops and synthesizability report exactly the faults",
 """Exactly the designs with the following faults are rejected, each by its check: something else than a clock or asynchronous reset in a
 sensitivity list; a reset used with two polarities, against its declaration, or as the other kind of reset; a branch next to another statement at the
 top of a clocked process; a continuous assignment that reads a bit it drives; content that cannot be synthesized, such as foreign functions,
 display, delays and initial blocks, however deep in expressions and branches it sits.""",
 ["programs"], "All sensitivity lists, reset conditions, self assignments through slices and expressions, and positions of statements that cannot be synthesized.",
 "The tests contain at most one faulty design for each check and hardly any that must be accepted.",
 ["src/analysis.cc"],
 [("sensitivity", "src/analysis.cc check_always_sensitivity"), ("polarity", "src/analysis.cc check_active_high"), ("flip flops", "src/analysis.cc check_flip_flop_always_ff"),
  ("loops", "src/analysis.cc check_combinational_loop"), ("synthesizability", "src/analysis.cc check_non_synthesizable_content")],
 "Random search with shrinking. Loops over several assignments are not what the check looks for and not judged.", ["accepted or rejected"])
prop("P04", "Emitted modules declare exactly what was built, under names that are legal",
 """Every module of the hierarchy is emitted once and under its own name, with the ports, directions, widths, signs and array dimensions of its generator
 and nothing else; every variable keeps its declared type; every child is instantiated once under its instance name. Every name in the text is declared
 where it is used, once, and with a matching shape. A name that is a keyword, or two things of one module with the same name, are refused.""",
 ["programs", "configurations"], "All designs, names, and optional passes that may rename, add or remove variables.",
 "The tests compare texts of small designs; declarations after renaming, inlining or wire removal and clashes between kinds of names are not tried.",
 ["src/codegen.cc", "src/stream.cc", "src/generator.cc", "src/stmt.cc", "src/expr.cc", "src/port.cc", "src/util.cc"],
 [("declarations", "src/codegen.cc SystemVerilogCodeGen::generate_variables, generate_ports, get_var_width_str"), ("instances", "src/codegen.cc stmt_code(ModuleInstantiationStmt)"), ("keywords", "src/util.cc is_valid_variable_name, src/generator.cc")],
 "Random search with shrinking. Trusts the harness' own SystemVerilog reader for scopes and types.", ["verilog text", "accepted or rejected"])
prop("P24", "Variables know exactly the statements that use them",
 """After building a design, and after every single pass of a flow, the drivers and uses that a variable reports are exactly the statements, connections and
 conditions of the design which drive or read it; none is missing and none is left over from something removed. No statement uses a variable
 that has been removed or belongs to a removed module, and every variable and statement leads to the module that contains it.""",
 ["programs", "pass sequences"], "All designs and sequences of passes.",
 "The tests look at the number of sources or sinks of single variables; every pass relies on these links for all variables.",
 ["src/expr.cc", "src/stmt.cc", "src/transform.cc", "src/optimize.cc", "src/generator.cc"],
 [("links of a statement", "src/stmt.cc AssignStmt::set_parent, src/expr.cc Var::add_sink, Expr::add_sink"), ("replacing", "src/expr.cc Var::move_src_to, move_sink_to, replace_var")],
 "Random search with shrinking. Uses within the index of the target of an assignment count as reads.", ["Var::sources, sinks, generator"])
prop("P25", "Stubs and flat wrappers have the right interface and wrappers the same behaviour",
 """A stub of a module has exactly its ports, with their directions, widths, signs and dimensions, and no content, and making it leaves the module as it was. The flattening wrapper
 has one port without dimensions for each element of each port of the module, named by its indices, and behaves like the module
 element by element for every input history; a clash of names is refused.""",
 ["programs", "histories"], "All interfaces of ports (arrays of any dimensions, packed or not, signed, clocks) and all input histories.",
 "The tests flatten a single array port and compare the text.",
 ["src/codegen.cc", "src/util.cc"],
 [("stub", "src/codegen.cc create_stub"), ("wrapper", "src/codegen.cc create_wrapper_flatten, change_var_name, flatten")],
 SIMNOTE, ["verilog text"])
prop("P33", "Options of the code generator and comments change the layout and nothing else",
 """Wrapping lines at any width, comments of any text on statements and variables, and leaving out the unique qualifier give the same sequence of tokens but for that qualifier. Emitting into a package writes one file for each module plus the
 package header, each file holding the same module behind the import of the package, replaces files that are out of date whatever they held, leaves files which
 are up to date untouched, and writes nothing else.""",
 ["programs", "configurations"], "All designs, wrap widths, options and previous contents of the output directory.",
 "The tests run one design per option in an empty directory.",
 ["src/codegen.cc", "src/stream.cc", "src/util.cc", "src/debug.cc"],
 [("line wrap", "src/codegen.cc, src/util.cc line_wrap"), ("package mode", "src/codegen.cc generate_verilog_pkg, generate_sv_package_header")],
 "Random search with shrinking. Packages of structs and enums are the subject of another property.", ["verilog text", "files written"])
prop("P23", "Building calls accept what is legal, and refuse the rest without a trace",
 """For every sequence of calls that build a design (variables, ports, parameters, enums, structs, functions and their arguments, instances, removing, renaming and replacing them,
 wiring ports, assignments, slices, expressions, concatenations, extensions, conditions, casts, port types, constants and their values), each legal call is accepted, has its effect and no other, and each call
 that breaks a rule (a name that is taken or a keyword, dimensions, widths, signs or types that do not match, indices out of range, values that do not fit, things still in use, modules that are not related) is refused and
 leaves the design as it was: the same variables, ports, connections, statements, functions, enums and instances.""",
 ["programs", "histories"], "All sequences of building calls over a few modules and names.",
 "The tests try one refused call at a time on a fresh module and do not look at what it leaves behind.",
 ["src/generator.cc", "src/expr.cc", "src/stmt.cc", "src/port.cc", "src/util.cc"],
 [("names", "src/generator.cc var, add_port_name, rename_var, add_child_generator, check_name"), ("wiring", "src/generator.cc wire_ports, correct_port_direction, replace"), ("types", "src/stmt.cc AssignStmt, src/port.cc Port::assign_, src/expr.cc Var::operator[], Expr, VarCasted, Const::is_legal")],
 "Random search with shrinking against a model of what exists; the whole design is read back after each call. A name may be used for a variable and a parameter at the same time; operands of different width are only generated where one is made wider.",
 ["Generator::get_var, get_port, get_child_generators, get_all_stmts, Var::sources, sinks, functions, get_enums, get_params"])
prop("P15", "Clones and stubs of a module have exactly its interface",
 """For every module (parameters with or without values and defaults, ports of any width, dimensions, sign, kind, polarity and layout, widths and sizes given by parameters or sums and multiples of them, packed structs and arrays of them),
 its clone has the same ports and parameters with the same values, connected to nothing of the original, may stand in for it anywhere, and leaves the original as it was; the clone behaves in the text as a module with that interface does.
 The stub that is written for a module has the same interface too, and nothing inside.""",
 ["programs"], "All interfaces of modules.",
 "One test looks at the number of ports of one clone, and one at the text of one stub.",
 ["src/generator.cc", "src/codegen.cc"],
 [("clone", "src/generator.cc Generator::clone"), ("stub", "src/codegen.cc create_stub")],
 "Random interfaces, compared attribute by attribute and by what is written. What a module contains is not cloned.", ["get_port, get_params, verilog text"])
prop("P30", "Memories built from smaller memories behave as memories",
 """For every single port memory of the library, banked out of smaller ones any number of times, of any data and address width, number of banks, with or without a write mask and with any names of its ports,
 a read gives what was last written at that address (bits that are masked keep their value), one clock edge later, the output is held while nothing is read, and nothing but a write changes the memory.
 Capacities that are no multiple are refused.""",
 ["programs", "histories"], "All shapes of memories and all histories of reads, writes and idle cycles.",
 "The tests compare the text of two memories with stored files.",
 ["src/lib.cc", "src/lib.hh"],
 [("banks", "src/lib.cc SinglePortSRAM::SinglePortSRAM"), ("names", "src/lib.hh set_clock_name and the others; src/generator.cc rename_var")],
 "Random shapes and histories against an array. Addresses that do not exist give anything.", ["verilog text"])
prop("P31", "Modules are found by name, by path, and in the order of the hierarchy",
 """For every history of creating modules, adding them to and removing them from others, giving them other names and taking them out of the context, the context knows exactly the modules of each name and whether it is unique,
 every module knows its parent and its children in the order they were added, and has the path the hierarchy gives it. The module graph lists every module below the top exactly once, children before parents, and level by level.
 Every variable and expression (slices, casts, concatenations, conditions) is written relative to any module above it with the path of each of its variables, and is refused where it cannot be reached.""",
 ["histories", "inputs"], "All histories of hierarchies and all expressions.",
 "The tests look at two or three paths and one graph of fixed hierarchies.",
 ["src/context.cc", "src/generator.cc", "src/graph.cc", "src/expr.cc"],
 [("by name", "src/context.cc change_generator_name, remove, is_unique"), ("by path", "src/generator.cc handle_name; src/expr.cc handle_name"), ("order", "src/graph.cc GeneratorGraph")],
 "Random histories against a model of the hierarchy, read back after each call. A module in another hierarchy with the same path cannot be told apart.", ["Context::get_generators_by_name, handle_name, GeneratorGraph"])
prop("P26", "Assertions are written as described and event annotations come out cleanly",
 """For every property (chains of implications and delays, any clock edge, any action, with or without an action on failure) and every immediate assertion, in any module and block, the text asserts exactly what was described,
 naming variables relative to where it stands, and nothing that was not to be asserted. Every event that is annotated anywhere (any kind of block, branches, cases, loops, functions) is found exactly once
 with its fields, transaction, action and kind, and removing the events leaves the text of the same design written without them.""",
 ["programs"], "All assertions and annotations in all modules.",
 "One test generates code for one property without looking at it; events are removed from two blocks.",
 ["src/tb.cc", "src/event.cc", "src/codegen.cc", "src/transform.cc", "src/optimize.cc"],
 [("sequences", "src/tb.cc Sequence::to_string, wait"), ("text", "src/codegen.cc stmt_code(AssertBase), stmt_code(AssertPropertyStmt)"), ("events", "src/event.cc extract_event_info, remove_event_stmts; src/optimize.cc remove_empty_block")],
 "Random designs, compared with the description and with the same design built without events. What assertions mean is left to SystemVerilog.", ["verilog text, extract_event_info"])
prop("P13", "State machines behave as their states, transitions and outputs say",
 """For every finite state machine (Moore or Mealy, with nested machines, guarded and unconditional transitions, defaults and held outputs, any start state, clock
 and reset polarity) the generated modules follow the described transitions cycle by cycle and give the outputs described: of the current state for Moore machines, of the state
 entered by a transition for Mealy machines, with outputs left unchanged being held. The graph, the output table and the debug information describe the same machine, and describing it twice gives the same text.""",
 ["programs", "histories"], "All machines and all input and reset histories.",
 "The tests compare the text of a few machines with stored files.",
 ["src/fsm.cc"],
 [("realize", "src/fsm.cc FSM::realize, generate_state_transition, generate_output"), ("table", "src/fsm.cc FSM::output_table, dot_graph")],
 "Random machines against an interpreter of the description, over random histories of the emitted text. A state without any transition is not generated.", ["FSM::dot_graph, output_table; verilog text"])
prop("P14", "The built-in simulator computes what the design does",
 """For every design of continuous assignments, combinational and clocked blocks over hierarchies whose values fit in 64 bits, and every history of inputs set as a whole or bit by bit, one
 at a time or together, every value the simulator reports as known (of variables, arrays and expressions, in every instance) is the value of
 the design, and the outputs are known once inputs and reset have been applied. The result does not depend on whether ports are already decoupled.""",
 ["programs", "histories"], "All designs up to 64 bits per value and all input histories with clock edges and resets.",
 "The tests simulate about ten designs with one or two assignments each.",
 ["src/sim.cc", "src/eval.cc", "src/stmt.cc"],
 [("events", "src/sim.cc Simulator::eval, trigger_event, DependencyVisitor"), ("slices", "src/sim.cc get_slice_low, set_bits, get_complex_value_"), ("expressions", "src/sim.cc eval_expr, src/eval.cc")],
 "Random search with shrinking against an independent reference evaluator. Loops, functions and latches that glitch are left out.", ["Simulator::get, get_array, eval_expr"])
prop("P16", "Imported Verilog modules have the ports their source declares",
 """For every source file and module of plain Verilog or SystemVerilog in it (both styles of port lists, groups of ports, types, signs, constant ranges, comments, strings, attributes, other modules and subroutines),
 importing the module gives exactly its ports with their directions, widths, signs and the given port types; missing files, modules and ports are refused.
 A design that instantiates it connects every port, behaves accordingly, and does not contain the text of the module again.""",
 ["inputs", "programs"], "All sources of this kind.",
 "The tests import three modules, and look at the ports by number or not at all.",
 ["src/util.cc", "src/generator.cc", "src/codegen.cc"],
 [("ports", "src/util.cc get_port_from_verilog"), ("import", "src/generator.cc Generator::from_verilog"), ("external modules", "src/codegen.cc")],
 "Random sources. Ranges that are not numbers, several dimensions and types with names are refused and not generated.", ["ports", "verilog text"])
prop("P17", "Structs, enumerations and port bundles mean what SystemVerilog says",
 """For every design using packed structs (nested, in arrays of any dimension, indexed by constants and variables), enumerations (global and local) and port bundles, the emitted types and modules
 are legal and compute the described function when members, elements, bits and wholes are assigned, compared and cast, before and after bundles become structs,
 ports are decoupled and modules optimised; the built-in simulator agrees. The package header declares every type once, before its use, between its opening and closing lines.""",
 ["programs", "inputs"], "All type definitions and designs over them, input histories with clocks and resets.",
 "The tests check the text of a few structs and enums.",
 ["src/expr.cc", "src/port.cc", "src/transform.cc", "src/analysis.cc", "src/codegen.cc"],
 [("members", "src/expr.cc PackedSlice, VarSlice::operator[]"), ("types", "src/analysis.cc extract_struct_info, extract_enum_info; codegen.cc generate_sv_package_header"), ("bundles", "src/transform.cc change_port_bundle_struct")],
 "Random designs and histories against a reference interpreter with SystemVerilog's layout (first member most significant).", ["verilog text; Simulator::get_array"])
prop("P18", "Interfaces and modports connect modules as declared",
 """For every design whose modules exchange signals through interfaces (variables, interface inputs and outputs, modports or the whole interface, ports passed on to inner modules, interfaces instantiated at any level, several instances),
 the interface definitions in the text have exactly the declared signals and modports, every module is connected to the right instance and modport, and the design behaves as if each signal of each instance were one net.
 Different interfaces with the same name are refused.""",
 ["programs", "histories"], "All designs of this kind and all histories of inputs and clock edges.",
 "One test compares one text.",
 ["src/interface.cc", "src/generator.cc", "src/transform.cc", "src/codegen.cc", "src/analysis.cc", "src/port.cc"],
 [("wiring", "src/generator.cc wire_interface"), ("modports", "src/interface.cc get_modport_ref"), ("instances", "src/transform.cc create_interface_instantiation"), ("definitions", "src/analysis.cc extract_interface_info"), ("connections", "src/codegen.cc generate_port_interface")],
 "Random designs and histories against a reference in which every signal of every instance is one net. An interface with outputs that is used as a whole has them driven by that module.", ["verilog text"])
prop("P19", "Parameters keep their meaning in the text that is written",
 """For every hierarchy of modules with parameters that give widths and array sizes (also sums and multiples of them, and values passed down through instances), registers, expressions and array elements,
 the text behaves as the design does, with the values that were set and with any other value given to the parameters of the top module; widths of ports and assignments agree.
 Values may be set before or after the parametrized variables are used.""",
 ["programs", "inputs"], "All designs of this kind, all values of the parameters, all inputs.",
 "The tests compare one text with one value for each of a few features.",
 ["src/expr.cc", "src/codegen.cc", "src/generator.cc", "src/transform.cc"],
 [("values", "src/expr.cc Param::set_value, Var::set_width_param, set_size_param"), ("widths in the text", "src/codegen.cc get_var_width_str"), ("values of instances", "src/codegen.cc"), ("decoupled ports", "src/transform.cc")],
 "Random designs, each elaborated with the values set and two other random sets, compared with a reference that computes widths from the parameters. Expressions built before the value is set keep the width they were given, so only whole variables are used in that mode.", ["verilog text"])
prop("P21", "Inserted clock enables, resets and pipeline stages do what they say",
 """For every hierarchy of registers with asynchronous, synchronous or no reset, inserting clock enables makes every register outside what is marked as not to be touched hold its value while the enable is low, and changes nothing else;
 inserting a synchronous reset resets what has an asynchronous reset, under or over the clock enable as asked; pipelining delays the outputs of the marked modules, and nothing inside, by the number of stages;
 removing asynchronous resets leaves the same resets, synchronous. Enables and resets already there are kept, and combinations of these passes work with the default compilation flow.""",
 ["programs", "histories"], "All designs of this kind and all histories of inputs, resets, enables and clock edges.",
 "The tests look for a line of text in five small designs.",
 ["src/optimize.cc", "src/formal.cc"],
 [("clock enable", "src/optimize.cc auto_insert_clock_enable"), ("synchronous reset", "src/optimize.cc auto_insert_sync_reset"), ("pipeline", "src/optimize.cc insert_pipeline_stages"), ("asynchronous reset", "src/formal.cc remove_async_reset")],
 "Random designs and histories against a reference that tracks which values are known. Resets are written with the reset branch first.", ["verilog text"])
prop("P22", "Debug tables give true lines, variables and conditions of statements",
 """For every hierarchy of modules with statements that carry front-end locations (assignments, ifs, switches, loops, blocks, functions, ports, variables; with comments, with or without a package file),
 the line recorded for each of them is the line of the emitted text where it is written. The saved symbol table is well formed, has every module, instance and mapped variable (flattened arrays and struct members),
 and for every located assignment, if and switch of a module in debug mode one entry with its file, line, variable and scope variables, whose condition is true exactly when the statement is executed.""",
 ["programs", "inputs"], "All designs of this kind, all inputs; per table entry and state, executed or not.",
 "The tests look for one line in one module, and that a file is written.",
 ["src/debug.cc", "src/analysis.cc", "src/codegen.cc", "extern/hgdb"],
 [("conditions", "src/analysis.cc compute_enable_condition"), ("lines", "src/codegen.cc verilog_ln; src/debug.cc extract_debug_info"), ("table", "src/debug.cc DebugDatabase::save_database")],
 "Random designs; every statement has a probe next to it, and its condition is compiled into the emitted module and evaluated with it in the reference simulator, before the clock edge for clocked blocks. Single-assignment attributes are set by the Python front end and left out.", ["symbol table, line tables, verilog text"])
prop("P27", "Constants and constant operators are evaluated as SystemVerilog does",
 """The evaluation of every unary and binary operator on values of 1 to 64 bits, signed or not, gives the value the language defines, whatever the operands,
 shift amounts and exponents; a division by zero is refused. A constant is accepted exactly if it fits the width and sign given, and the number of index bits is the rounded-up logarithm.""",
 ["inputs"], "All operators, widths of 1 to 64 bits, signs and values.",
 "The tests try twelve operators at a width of ten bits, avoiding equal negative numbers.",
 ["src/eval.cc", "src/expr.cc", "src/util.cc"],
 [("operators", "src/eval.cc eval_unary_op, eval_bin_op"), ("constants", "src/expr.cc Const::is_legal"), ("logarithm", "src/util.cc clog2")],
 "Random search biased to corner values. Negative constants of 64 unsigned bits are taken as patterns and accepted.", ["values", "accepted or rejected"])
