fixed("P01", "5090011", "a - (b - c), a / (b * c), -(-a) and similar nests were printed without the parentheses they need")
fixed("P01", "7e89710", "unary minus and reduction and were treated as binary operators when nested in other expressions")
fixed("P01", "6ca1aa2", "64-bit constants with the top bit set were printed as negative digits")
fixed("P01", "3312948", "comparisons and reductions inherited the sign (and array shape) of their operands")
fixed("P01", "42617e6", "logical and/or reported the operand width instead of one bit")
fixed("P03", "05919ca", "child port uses below casts, extensions, concatenations, calls, indices and statement predicates were not rewritten when ports are decoupled, leaving undeclared names in the text")
fixed("P03", "1fca234", "a register with a constant reset value, or a partially assigned variable, was replaced by the constant when it drove an instance port")
fixed("P12", "f63e690", "an output fully driven through a variable index below a constant index was reported as floating")
fixed("P03", "9cf238c", "after port decoupling a concatenation of rewritten operands still claimed the child's scope and code generation recursed forever")
fixed("P03", "8651ef3", "bit slices copied to other positions (a[0]=b[1]; a[1]=b[0]) were merged into a whole assignment, in blocks even across other statements")
fixed("P31", "cb038ba", "asking for the hierarchical name of an extension or duplication never returned")
fixed("P05", "f7663bc", "removing single-fanout wires between ports disconnected the input port, or left the target undriven")
fixed("P06", "4c3e4b6", "a chain of ifs that tests the same value twice became a case statement with duplicate labels, or did not become one at all")
fixed("P05", "d22e74d", "removing a statement left sinks or sources behind, so later passes kept or removed the wrong wires")
fixed("P06", "2a7726e", "dead code removal dropped the variables of event controls and whole ifs with multi-bit predicates, merging ifs moved statements over each other")
fixed("P05", "b16f17a", "variables used only in conditions and indices of removed statements were kept as used")
fixed("P08", "5675690", "the levels of the generator graph were read through a dangling reference, children could be hashed after their parents")
fixed("P08", "955df2a", "modules of the same name that differ in a constant, a statement order, a connection or a child were given the same hash and one definition was dropped")
fixed("P09", "4520eca", "uniquify gave out names in the order of pointers, so the same design was emitted differently from run to run")
fixed("P07", "e307cab", "inlining dropped connections made by the instance, merged variables of different shape, left names of the removed child in the text and used freed variables")
fixed("P05", "da34266", "dead code elimination removed the ports and statements of external modules, of definitions that clones share, and instances of external modules without ports")
fixed("P34", "da99c3b", "dead code elimination ran on sibling modules in parallel while removing connections from their common parent")
fixed("P09", "56f5730", "merged wire assignments were added in the order of the addresses of the statements")
fixed("P09", "7868a86", "whether a parent was inlined depended on whether its children had been visited before")
fixed("P08", "e1e4217", "renaming a module did not rename its clones, and clones were hashed differently from their definition")
fixed("P10", "d42e5cc", "two assignments of a bit in one branch were accepted when an assignment in another branch happened to come first in the unordered set of sources")
fixed("P12", "a931c6c", "zero_generator_inputs added the assignment to the child instead of the parent and could not zero elements of arrays or parts of them; zero_out_stubs failed for arrays and signed ports")
fixed("P11", "1e35460", "unreachable code after a return was missed behind a branch without return, and a switch over 32 bits or more was taken to be complete")
fixed("P35", "ddc6517", "a continuous assignment of a slice reading itself, or reading itself in a cast, condition, concatenation or index, was not reported as a loop")
fixed("P35", "17eb5db", "a wrongly cast variable in a sensitivity list raised a formatting error")
fixed("P05", "ef6f5f5", "a loop with an empty body was kept by remove_empty_block and emitted as an empty loop")
fixed("P04", "1b8ebc1", "a loop variable of an inlined instance could hide a variable of the parent")
fixed("P07", "d9aaedf", "inlining an instance replaced a variable by the call of a function with its name")
fixed("P04", "785ecbf", "expressions could take over the module a shared constant was connected to, and were printed with the name of that instance")
fixed("P33", "4bc1af9", "the debug information written for a module was that of its child")
fixed("P04", "f998b3c", "an instance with the name of a variable was accepted and emitted")
fixed("P24", "24a5202", "statements of functions did not lead to the module of their function")
fixed("P04", "727ff73", "keywords were accepted as names of parameters, functions, instances, enum values and structs")
fixed("P27", "3c660d0", "evaluation of operators: 64-bit inversion, reductions over more than 32 bits, equal negative numbers, arithmetic shifts, large powers and shifts; division by zero crashed; five operators were missing")
fixed("P14", "35439df", "connections of outputs were missing in the connections of an instance")
fixed("P14", "03096f5", "the simulator mixed up bits when reading and writing slices, ignored casts, conditions, concatenations and indices as dependencies, let one register see the new value of another, kept the first of two assignments, and used a freed event")
fixed("P01", "2aa5cec", "rows of a multi-dimensional array were reported with the wrong width")
fixed("P13", "35756f2", "mealy defaults and unconditional transitions, held outputs, reset polarity, names of nested states and the output table of state machines were wrong or crashed")
fixed("P16", "bb95fe7", "imported modules got ports named after types, with the width of the previous port, from comments and function arguments; inout ports were left out; large sources crashed the regular expression")
fixed("P17", "9757136", "signed members of packed structs were declared illegally, packages without an include guard had no package line")
fixed("P17", "e9ea29a", "an output of a port bundle that is read inside could not be turned into a struct")
fixed("P17", "156c654", "decoupled ports lost the array size of structs and the type of enums")
fixed("P17", "ebbdc26", "casts of one variable to different enums were the same object")
fixed("P17", "bed0003", "the bits of members of packed structs were counted from the least significant end, so merged assignments and the simulator were wrong")
fixed("P17", "d13ee6d", "members of elements of struct arrays indexed by a variable, and of nested structs, could not be accessed")
fixed("P18", "d3b5008", "arrays could not be wired through a modport of an interface, whose inputs were taken for outputs")
fixed("P18", "fb6a1c1", "interfaces instantiated below the top had their inputs driven from the module above, and those driven by an expression lost it")
fixed("P19", "62fd3f2", "bit slices of parametrized variables took on the width of the variable when the parameter was set")
fixed("P19", "b10702c", "removing the width parameter of a variable left the variable following it")
fixed("P19", "6e2c5a1", "the index of an element was left out if the parametrized array or width was one for now")
fixed("P19", "376a332", "setting a parameter made variables with a width of, for example, twice the parameter as wide as the parameter")
fixed("P19", "6a18efe", "decoupled ports took the width parameter of what a bit or element of them was connected to")
fixed("P19", "992b57e", "the variables of decoupled parametrized ports had fixed widths and sizes")
fixed("P21", "9f16fdc", "an expression made of constants belonged to the generator that used one of the constants last, and was rejected elsewhere")
fixed("P21", "a19b018", "logic that reads an output was delayed by the pipeline stages of that output")
fixed("P21", "0928cae", "a reset that is compared to a constant was not recognized as a reset")
fixed("P21", "853f364", "crash when a clock enable is inserted below a generator that should not be touched")
fixed("P21", "78c1e85", "a synchronous reset port that is connected already was connected once more")
fixed("P22", "daa4487", "the enable condition of a default branch compared the switch target with the logical or of the labels, and could change the width of a shared constant")
fixed("P22", "ec04475", "the line recorded for an always_ff block was the blank line before it")
fixed("P22", "77d101f", "every line after a function without ports was recorded one too low")
fixed("P22", "d1bde6e", "no line was recorded for switch statements")
fixed("P22", "255f661", "saving the symbol table threw for modules with functions, loops, initial or final blocks")
fixed("P22", "91e323a", "lines of loops and of latch, initial and final blocks were not in the debug information")
fixed("P22", "6c9bab8", "with a package, the module was recorded at the line of the include")
fixed("P31", "bf7a6f9", "the name of an expression within a scope was given relative to the top, the scope being taken for a flag")
fixed("P01", "10b5d45", "a signed constant was printed as an unsigned literal in an expression, which made the whole expression unsigned")
fixed("P06", "b5b4f4c", "merging ifs failed with an error when the compared value was signed")
fixed("P01", "1974123", "bits of an expression were selected from its last operand in the text, and parts of parts were not legal")
fixed('P33', '0a77540', 'a comment with a newline was put out over two lines, or lost another character (strip_newline)')
fixed('P34', 'f505f1c', 'generate_verilog with a package visited the modules in parallel with an unprotected map')
fixed('P23', '6255a30', 'declaring a variable again compared the total width: other dimensions were taken for the same variable, the same array was refused')
fixed('P23', 'be9012a', 'a port could be declared with the name of a variable, which get_port then took for a port')
fixed('P23', '6b8ab4e', 'a child refused because the instance name is taken had its instance name changed')
fixed('P23', '3a1c09f', 'any generator with the instance name of a child was taken for that child; children could be renamed to a keyword')
fixed('P23', 'b118ce6', 'remove_var of a port left its name in the ports, remove_port of a connected port removed the name only, rename_var to a name that is taken destroyed the variable')
fixed('P23', '93f6012', 'a refused replace had moved some of the connections and the instance name')
fixed('P23', 'b4f28ac', 'a second argument of a function with the same name was dropped without an error')
fixed('P23', 'b7ed9bf', 'the message about an unknown name in a port ordering failed to format')
fixed('P23', 'e70b3ef', 'set_port_type made ports of several bits clocks and resets')
fixed('P23', '93f05f5', 'constants wider than 64 bits were checked with an undefined shift: legal values could be refused')
fixed('P23', '381ded7', 'variables of several bits could be cast to a clock or a reset')
fixed('P23', 'f5a5383', 'an expression or constant wider than the other operand was cut to its width without an error')
fixed('P23', '0b2aeb6', 'a call with arguments the function does not have was accepted')
fixed('P15', '722a9c5', 'clones lost the values and defaults of parameters, explicit arrays, structs, polarities and dimensions given by expressions of parameters')
fixed('P23', 'e0dfd05', 'renaming a port by its own name left the old name in the ports')
fixed('P23', '00f58c7', 'removing a connected child left some of its connections, or removed statements of the child itself')
fixed('P15', '700f619', 'a port like a port that is an array of packed structs was one struct')
fixed('P15', 'bc92140', 'stubs of modules with explicit arrays of one element had other ports')
fixed('P26', '83a0ed2', 'the action of a failed property was written as the action of a passed one')
fixed('P30', 'c81ea61', 'renamed ports of a memory could not be found any more, and banks of it were connected to nothing')
fixed('P30', '958a5aa', 'a banked memory did not take the mask name of the memory it is made of')
fixed('P31', 'bc7c717', 'a condition within a condition lost its parentheses in hierarchical names')
fixed('P31', '2015326', 'a variable of top.ab was taken to be in the scope of top.a')
fixed('P31', 'c5408af', 'hierarchical names of casts and of slices by a variable named the wrong variables')
fixed('P26', '69c498f', 'latch blocks were not visited, so events in them were not removed')
fixed('P26', '03000da', 'adding a switch case without statements, or with another constant of the same value, failed')
fixed('P26', '63c8646', 'variables of a property were written with the path of their own module')
fixed('P26', 'f8dfdef', 'events in latch, initial, final and function blocks were not removed')
fixed('P26', '023ac2a', 'branches and cases of functions that became empty were not removed')
