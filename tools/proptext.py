TEXT = {}
def P(pid, title, statement, over, text, why, files, mech, tech, note):
    TEXT[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note)
TRUST = " Trusts the harness's own reference code; says nothing about inputs outside the generated ones."

P("P01", "Expressions evaluate by the documented precedence, typing and semantics",
  "Every expression built from literals, variables and the language's operators, compiled and executed, yields the value and type that the language reference prescribes (precedence, associativity, int/float mixing, 32-bit integers and single floats, comparison across types — a number meets a string as its text, and anything but nil is smaller than a table —, logic, bit operations, unary minus). Invalid operand types or a division or modulo by integer zero stop the program with an error, never with a wrong value or a crash. The way an expression is written (parentheses that change nothing, whitespace, storing sub-results in variables) does not change its value.",
  ["programs", "inputs"], "all expressions of any nesting depth over all operators, operand types and values",
  "the tests evaluate a few dozen fixed expressions; pairs of adjacent operators, mixed types and extreme values are a product space",
  ["buzzparser.c", "buzzlex.c", "buzzvm.c", "buzztype.c", "buzzasm.c"],
  [("operator-precedence descent", "buzzparser.c parse_condition..parse_operand"), ("instruction semantics", "buzzvm.c buzzvm_step and the binary operator macros"), ("value comparison", "buzztype.c buzzobj_cmp")],
  "property-based testing: grammar-generated expressions against a reference interpreter", "Random and pairwise-systematic expressions executed by the real parser, assembler and VM, compared value by value with an independent reference interpreter, with and without address sanitizer." + TRUST)

P("P02", "Programs run as written: control flow, scoping, functions, closures, methods",
  "Every valid program performs exactly the effects its source prescribes: statement order, if/else, while and for loops, local and global scope, names hiding outer ones, functions, recursion, argument passing, return values, first-class functions that capture their environment, and methods called with their table as self. A program that fails at run time performs exactly the effects that precede the failing operation and then stops in the error state. Programs that break a static rule of the language are rejected by the compiler.",
  ["programs"], "all programs built from the language's statements, with any nesting",
  "the test scripts are a handful of fixed programs; interactions of scopes, closures and control flow are unbounded",
  ["buzzparser.c", "buzzvm.c", "buzzasm.c", "buzztype.c"],
  [("code generation and symbol tables", "buzzparser.c"), ("activation records and calls", "buzzvm.c buzzvm_call, buzzvm_ret0/1, buzzvm_pushl, buzzvm_lload/lstore/lremove")],
  "property-based testing: generated programs, differential against a reference interpreter", "Generated whole programs run on the real toolchain; the complete trace of logged values, final globals and outcome is compared with an independent AST interpreter." + TRUST)

P("P03", "Tables behave as maps from numbers and strings to values",
  "A table returns for each key the last value stored under it, a key set to nil (or never set) reads as nil, and its size is the number of keys holding a value, over any history of stores, deletions, iterations and copies. Iteration, mapping, folding and filtering visit every entry exactly once with its key and value, also when the callback changes the table: changed entries show their new value and removed ones are not visited. Tables are shared by reference and a clone has the same structure, also if the table contains itself, and is independent of its original. Numerically equal keys are one key, and a string key never collides with a numeric one; invalid keys or non-table operands stop the program with an error.",
  ["histories", "inputs"], "all operation histories over all int, float and string keys, including colliding ones, and all sizes",
  "the tests store a few keys; bucket collisions, delete-then-store histories and equal int/float keys are never sampled",
  ["buzzdict.c", "buzztype.c", "buzzvm.c", "buzzheap.c"],
  [("hash table", "buzzdict.c"), ("key hashing and comparison", "buzztype.c buzzobj_table_hash, buzzobj_table_keycmp"), ("table instructions", "buzzvm.c buzzvm_tput, buzzvm_tget"), ("library functions", "buzztype.c size, foreach, map, reduce, filter, clone")],
  "stateful property-based testing: operation histories against a reference map", "Generated operation histories run through compiled scripts and checked against an association-list model after every step." + TRUST)

P("P04", "Garbage collection is invisible to programs",
  "The observable behaviour of any script (values, messages sent, callbacks invoked, errors) is the same whenever and however often garbage collection runs. No value reachable from variables, running functions, captured environments, stigmergies, listeners, conflict managers or queued messages is ever lost or changed by a collection.",
  ["programs", "schedules"], "all programs, all collection points",
  "collections in the tests happen at a few fixed points of a few scripts; a missed root shows only if a collection falls inside its window",
  ["buzzheap.c", "buzzstrman.c", "buzzvm.c", "buzzvstig.c", "buzzoutmsg.c", "buzzneighbors.c"],
  [("mark phase over all roots", "buzzheap.c buzzheap_gc"), ("string collection", "buzzstrman.c buzzstrman_gc_*"), ("queued messages as roots", "buzzoutmsg.c buzzoutmsg_gc")],
  "property-based testing: forced collection schedules, differential against runs without collection", "Generated programs and library scripts (single robots and pairs exchanging messages) run with a collection forced before instructions at drawn points, compared with the reference interpreter or a run that never collects, under address sanitizer as well." + TRUST)

P("P09", "Values and messages survive serialization",
  "Any value a script can send (nil, integers, floats, strings of any length, nested tables of any size) is received by another robot as an equal value, in broadcasts, in stigmergy updates and in the low-level marshalling API. A value that cannot be sent (a closure with captured variables, userdata, a table inside itself) arrives as nil without disturbing anything else in the message. Unmarshalling reads exactly what marshalling wrote, field after field, at any offset.",
  ["inputs"], "all values: every integer and float bit pattern, every string, every table shape and size up to the generated bounds",
  "the tests round-trip a few fixed values",
  ["buzzmsg.c", "buzztype.c", "buzzoutmsg.c", "buzzinmsg.c"],
  [("primitive marshalling", "buzzmsg.c buzzmsg_serialize_*, buzzmsg_deserialize_*"), ("value marshalling", "buzztype.c buzzobj_serialize, buzzobj_deserialize")],
  "property-based testing: round trip of generated values and messages", "Generated fields, values and messages are serialized and deserialized through the real API and between two real virtual machines, and compared structurally." + TRUST)
P("P10", "Hostile or damaged messages never harm a robot",
  "Whatever bytes a robot receives as messages (truncated, bit-flipped, of unknown type, with forged lengths, or random), processing them never crashes the robot, never reads or writes outside the message, never hangs, and never puts the virtual machine in the error state. A message that is not well formed is discarded without effect, and well-formed messages received with it are processed as usual.",
  ["inputs", "faults"], "all byte strings as payloads, alone or mixed with valid messages, in any robot state",
  "the tests feed only well-formed messages",
  ["buzzvm.c", "buzzmsg.c", "buzztype.c", "buzzinmsg.c", "buzzswarm.c", "buzzvstig.c"],
  [("message dispatch", "buzzvm.c buzzvm_process_inmsgs"), ("bounds-checked deserialization", "buzzmsg.c, buzztype.c buzzobj_deserialize")],
  "structure-aware fuzzing with an independent decoder as oracle", "Mutated and random payloads delivered to a real robot under address sanitizer; an independent decoder decides which messages are well formed and a reference robot predicts the state afterwards." + TRUST)
P("P11", "The output queue sends every message once, in priority and creation order, newest version only",
  "Each broadcast, swarm membership message and stigmergy message a script produces leaves the robot exactly once; messages of one kind leave in the order they were produced. A queued stigmergy message is replaced by a newer version of the same entry and never by an older one; join, leave and list messages about swarms that are superseded by later ones are not sent. Asking whether the queue is empty, its size and its first message agree, and what is read from the queue is exactly what was queued.",
  ["histories"], "all interleavings of message-producing operations with reads of the queue",
  "the tests never interleave production and consumption of messages of several kinds",
  ["buzzoutmsg.c", "buzzvstig.c", "buzzswarm.c", "buzzneighbors.c"],
  [("queue with duplicate elimination", "buzzoutmsg.c buzzoutmsg_queue_append_*, _first, _next, _size")],
  "stateful property-based testing against a model queue", "Generated histories run on a real robot; an independent decoder reads every outgoing message and a model queue predicts their order and content." + TRUST)
P("P12", "Virtual stigmergies converge",
  "When robots share a virtual stigmergy and write to it concurrently, then as soon as they have exchanged the messages they produce, all of them hold for each key the same value: the one with the most recent Lamport timestamp, ties won by the robot with the higher id (or as the conflict handlers decide). This is so for every order, duplication, delay and loss of messages, as long as each pair of robots that needs it eventually hears the winning version, and a deleted key stays deleted everywhere.",
  ["schedules", "histories", "faults"], "all write/read histories of several robots, all delivery orders, losses and duplications",
  "the tests exchange messages between two robots in one fixed order",
  ["buzzvstig.c", "buzzoutmsg.c", "buzzinmsg.c", "buzzvm.c"],
  [("timestamps and conflict resolution", "buzzvstig.c, buzzvm.c buzzvm_process_inmsgs"), ("re-propagation", "buzzoutmsg.c")],
  "stateful property-based testing: simulated networks with generated schedules and losses", "Several real virtual machines exchange their real messages over a simulated network with drawn topology, order, loss and duplication; the final state is compared with the maximum of all writes." + TRUST)
P("P13", "A robot's view of a virtual stigmergy follows its operations and the messages it hears",
  "Reading a key returns the value last written locally or received with a newer timestamp; size counts exactly the keys with a value; iteration visits each of them once, also when the callback writes to the stigmergy; unknown keys read as nil. Every received newer version is stored and passed on, an older one is ignored, or answered with the newer if it comes in a query, an equal one does nothing; a conflict (equal timestamp, different robot) calls the conflict handler once, stores what it returns, and tells the loser's own handler. Several stigmergies on a robot do not influence each other.",
  ["histories"], "all histories of local operations and received versions over all key and value types",
  "the tests cover one handler and a few puts",
  ["buzzvstig.c", "buzzvm.c", "buzzoutmsg.c"],
  [("entry store", "buzzvstig.c buzzvstig_put, buzzvstig_get, buzzvstig_foreach"), ("message handling", "buzzvm.c buzzvm_process_inmsgs")],
  "stateful property-based testing: lock step with a reference robot", "One real robot and a reference model receive the same operations and messages; values, callbacks and outgoing messages are compared after every step." + TRUST)
P("P14", "Swarm membership is exact, locally and about others",
  "A robot is in exactly the swarms it joined (or was selected, or united into) and did not leave; every change is announced to the others by a join or leave message, and the full list is announced periodically. From the messages a robot hears it knows exactly which swarms each neighbour last claimed, until that information expires after the documented number of steps without news.",
  ["histories", "schedules"], "all histories of membership operations and received membership messages, for all swarm and robot ids",
  "the tests join a few fixed swarms",
  ["buzzswarm.c", "buzzvm.c", "buzzoutmsg.c"],
  [("membership operations", "buzzswarm.c"), ("member bookkeeping and aging", "buzzswarm.c buzzswarm_members_*"), ("announcements", "buzzvm.c buzzvm_process_outmsgs")],
  "stateful property-based testing: lock step with a reference model, and simulated networks", "Real robots against a reference model, alone with synthetic messages and in networks exchanging real messages." + TRUST)
P("P15", "Swarm-scoped execution runs in the right context",
  "s.exec(f) runs f once if and only if the robot is in s at that moment; inside it swarm.id() is the id of s and swarm.id(n) the n-th enclosing one, at any nesting and however the function is left; outside any exec it is nil. union, intersection, difference, others, select, join and leave give the membership set theory prescribes, and wrong uses stop the script with an error.",
  ["programs", "histories"], "all scripts nesting swarm operations and swarm-scoped calls to any depth",
  "the tests never nest exec nor change membership inside it",
  ["buzzswarm.c", "buzzvm.c"],
  [("exec and the swarm stack", "buzzswarm.c buzzswarm_exec, buzzswarm_id; buzzvm.c buzzvm_call, buzzvm_ret0, buzzvm_ret1"), ("set operations", "buzzswarm.c buzzswarm_union, _intersection, _difference, _others")],
  "property-based testing: generated scripts with a simulated expected trace", "Generated scripts whose complete expected trace the generator computes while it builds them." + TRUST)
P("P16", "The neighbors structure reflects exactly the robots added this step",
  "After the host adds neighbours, count, get, foreach, map, reduce, filter, kin and nonkin show exactly those robots with their distance, azimuth and elevation (the last ones given), each visited once; reset empties them; each transformation returns a new structure with the same operations and leaves its source unchanged; kin and nonkin split neighbours by shared swarm membership in the current swarm context.",
  ["histories", "inputs"], "all neighbour sets, positions, chains of transformations and swarm contexts",
  "the tests add a few fixed neighbours",
  ["buzzneighbors.c", "buzzswarm.c"],
  [("neighbour table", "buzzneighbors.c buzzneighbors_add, buzzneighbors_reset"), ("transformations", "buzzneighbors.c")],
  "property-based testing: generated neighbour sets and transformation chains against a model", "Generated neighbour sets and chained transformations run by scripts and compared with a model." + TRUST)
P("P17", "Situated communication delivers each broadcast once, in order, to the current listener",
  "neighbors.broadcast(topic, value) makes the listener that a receiving robot has registered for exactly that topic run once, with topic, value and sender's id, in the order in which the sender produced them; no other listener runs; a robot without listener for the topic, or that has called ignore, does nothing. Registering again replaces the listener, also from inside a listener, and listeners leave the virtual machine as they found it.",
  ["histories", "schedules"], "all histories of listen, ignore, broadcast and delivery over all topics and values",
  "the tests use one topic and one message",
  ["buzzneighbors.c", "buzzvm.c", "buzzinmsg.c", "buzzoutmsg.c"],
  [("listeners", "buzzneighbors.c buzzneighbors_listen, _ignore, _broadcast"), ("dispatch", "buzzvm.c buzzvm_process_inmsgs")],
  "stateful property-based testing: lock step with a reference robot", "Generated histories on a real robot compared with a model, including listeners that change the listeners." + TRUST)
P("P06", "A script error stops the script cleanly, wherever it happens",
  "Calling any built-in function or method (type and table functions, math, string, swarm, stigmergy, neighbors, io) with the right number and types of arguments on the right object never stops the script. Calling it with a missing or superfluous argument, with a value of a type it does not accept, or on a table that is not its object, and likewise indexing what is no table, using nil, a table or a closure as a table key (also to remove an entry), arithmetic on what is no number and calling what is no closure, stops the script: no statement after the call runs, in the calling function or in any function, callback, listener or swarm-scoped block around it; the virtual machine is in the error state with an error code and message; the call had no effect on memberships, stigmergies, listeners and queued messages; further steps, calls and message processing leave the machine stopped and are safe; other robots in the process are not affected.",
  ["inputs", "programs"], "every built-in function with all argument counts, argument types, receivers and nested callback contexts",
  "the tests make valid calls only, at most one level deep",
  ["buzzvm.c", "buzzvm.h", "buzztype.c", "buzzmath.c", "buzzstring.c", "buzzswarm.c", "buzzvstig.c", "buzzneighbors.c", "buzzio.c"],
  [("error propagation", "buzzvm.h buzzvm_lnum_assert, buzzvm_type_assert; buzzvm.c buzzvm_seterror, buzzvm_closure_call"), ("argument checks", "all functions registered with the virtual machine")],
  "property-based testing: generated calls of every built-in in generated contexts against a signature table", "A table of signatures says for each generated call whether it must succeed or stop; the call is nested in up to three callback contexts and the trace, state, message and side effects are checked." + TRUST)
P("P05", "Memory is given back: nothing leaks and steady work needs steady memory",
  "Destroying a virtual machine, at any moment of its life (half-way through a script, inside a call, after an error, with pending incoming and outgoing messages), frees everything that was allocated for it, and compiling a script leaves nothing allocated behind. A robot that does the same work at every step (allocating tables, strings and closures, cyclic or not, communicating, using stigmergies, swarms and neighbours) does not need more and more memory, garbage never piles up beyond a multiple of what is in use, and data of any size that is dropped is returned by the next collections.",
  ["histories", "programs"], "all scripts and host histories, stopped at any point, and any number of steps",
  "the tests never look at memory and run a handful of steps",
  ["buzzheap.c", "buzzstrman.c", "buzzvm.c", "buzzdict.c", "buzzdarray.c", "buzzoutmsg.c", "buzzinmsg.c", "buzzvstig.c", "buzzswarm.c", "buzzasm.c", "buzzparser.c"],
  [("collector", "buzzheap.c buzzheap_gc"), ("string collector", "buzzstrman.c buzzstrman_gc_prune"), ("destruction", "buzzvm.c buzzvm_destroy and the destroy functions of all parts")],
  "property-based testing: generated histories with an allocation-counting oracle", "Live heap blocks are counted through an allocator hook; generated lives of a machine are repeated, steady loops and build-and-drop cycles are compared." + TRUST)
P("P07", "The compiler answers every text with correct code or a located diagnostic",
  "Whatever text it is given (valid programs, programs with tokens added, removed, swapped or cut, arbitrary bytes, deep nesting, very long names, strings, lists and files), the compiler terminates and either accepts or rejects it. It accepts exactly the texts that follow the grammar and its scoping rules (no second local of a visible name, no named function inside a block), and the code it then writes always assembles, jumps only to instructions, refers only to strings that exist and uses the operand stack consistently on every path; compiling again gives the same code, and blanks, newlines, separators and comments never change it. A rejected text gets a diagnostic on standard error that names the script and, unless the text ends too early, the line and the column (counted from 0) of the first token that cannot be accepted.",
  ["inputs"], "all texts (without includes, NUL bytes and numbers with several dots, whose meaning is left open)",
  "the tests compile a few dozen valid scripts and never an invalid one",
  ["buzzlex.c", "buzzparser.c", "buzzasm.c"],
  [("tokens and lines", "buzzlex.c buzzlex_nexttok"), ("grammar and code generation", "buzzparser.c parse_*"), ("scoping", "buzzparser.c sym_*, parse_var, parse_fun")],
  "property-based testing and structure-aware mutation fuzzing against an independent recogniser and bytecode verifier", "An independent lexer and recogniser decides each generated text; accepted code is decoded and verified by abstract interpretation of the operand stack." + TRUST)
P("P08", "Assembler, disassembler and debug information agree with each other and with the source",
  "Assembling a text gives exactly the bytes and source locations it describes, for every instruction, argument, label and string (any bytes, any length); unknown instructions, missing arguments and unknown labels are refused. The disassembly of any well-formed code lists all its strings and all its instructions with offsets, arguments and locations and nothing else, and malformed code is refused without harm. Debug information maps each offset to the location last set and each location to its lowest offset, also after being written to a file and read back, with file names of any length. Every instruction of a compiled script is located in its script, on an existing line, and the location of a run-time error is the file and line of the statement that failed, wherever it is nested or included.",
  ["inputs", "programs"], "all assembly texts, code, location tables and scripts",
  "the tests never assemble by hand, disassemble, or look at debug information",
  ["buzzasm.c", "buzzdebug.c", "buzzparser.c", "buzzlex.c"],
  [("assembler", "buzzasm.c buzz_asm"), ("disassembler", "buzzasm.c buzz_deasm, buzz_instruction_deasm"), ("location tables", "buzzdebug.c buzzdebug_info_set, buzzdebug_tofile, buzzdebug_fromfile"), ("locations", "buzzparser.c chunk_addcode, fetchtok")],
  "property-based testing: independent assembler model, round trips, generated failing scripts", "Generated assembly is assembled by an independent model; disassemblies are parsed back and compared with an independent decoder." + TRUST)
P("P18", "Strings and string functions mean what the documentation says, for every string",
  "Strings hold any bytes and any length, two strings are equal exactly when their bytes are, and equality, order, concatenation and use as table keys do not depend on how, when or how often a string was made, nor on collections in between or on the number of strings a robot ever used. string.length, sub, concat, tostring, toint and tofloat return what they are documented to return for every string and every in-range or out-of-range index, and text that is not a number becomes nil.",
  ["inputs", "histories"], "all strings, indices, numbers and histories of string creation, loss and collection",
  "the tests use a few short strings and never a collection",
  ["buzzstring.c", "buzzstrman.c", "buzzvm.c"],
  [("functions", "buzzstring.c"), ("interning and collection", "buzzstrman.c buzzstrman_register, buzzstrman_gc_*")],
  "property-based testing: string functions against a reference model, interning histories with collections", "Results of generated string expressions are compared with an independent byte-string model; identifiers of live strings are tracked over collections." + TRUST)
P("P19", "Mathematical functions and random numbers are correct and reproducible",
  "math.abs, floor, ceil, round, log, log2, log10, exp, sqrt, the trigonometric functions, min, max and pi return the correctly typed value for every integer and floating-point argument, within single precision. math.rng is a Mersenne Twister: the sequence is determined by the seed alone, follows the MT19937 recurrence for every seed, is not shared between robots of one process, and starts over when the seed is set again; uniform, gaussian and exponential numbers have the type, range, centre, spread and shape that their arguments ask for.",
  ["inputs", "seeds"], "all arguments and all seeds (up to values whose integer result does not fit)",
  "the tests call few functions with few arguments and never look at random numbers",
  ["buzzmath.c"],
  [("functions", "buzzmath.c buzzmath_*"), ("generator", "buzzmath.c buzzmath_rng_*")],
  "property-based testing: functions against libm, generator against the MT19937 recurrence, distributions against their moments", "Calls are compared with double-precision libm; draws are untempered and checked against the recurrence; 1500 draws per generated distribution are checked with seven-sigma bounds." + TRUST)
P("P20", "Containers behave as the sequences, maps and sets they stand for",
  "For every history of operations, element size, initial capacity and number of buckets, a dynamic array is a sequence (insertion at any place, past the end appends; removal outside has no effect; sorting orders and keeps the elements; clones are independent), a dictionary is a map from keys to one value each, and a set holds each element once. Sizes, presence, values and iteration always agree with the operations made, also those made by the callback of a dictionary's iteration; each element that leaves is destroyed exactly once, at the time it leaves, and nothing stays allocated after the container is destroyed.",
  ["histories"], "all operation histories and element, capacity and bucket sizes (elements passed by the caller do not lie inside the container itself; replacing an array element only at existing places)",
  "the tests fill each container once in order",
  ["buzzdarray.c", "buzzdict.c", "buzzset.c"],
  [("array", "buzzdarray.c buzzdarray_makeslot, buzzdarray_remove, buzzdarray_sort"), ("dictionary", "buzzdict.c buzzdict_set, buzzdict_remove, buzzdict_foreach"), ("set", "buzzset.c buzzset_tree_insert, buzzset_tree_remove")],
  "stateful property-based testing against model containers, with a destruction ledger and heap-block counting", "Generated operation sequences run in lock step with std::vector, std::map models; destroyed elements are compared with a ledger." + TRUST)
P("P21", "What a script writes to a file is what is in it and what is read back",
  "For every history of opening (r, w, a, w+, a+), writing, reading, measuring and closing files, a file holds exactly what was written to it (all arguments of each call concatenated and one newline, nothing lost, truncated or added only where the mode says so), io.fforeach hands every remaining line to the function exactly once, in order, of any length and content, with or without a final newline, io.fsize is the size, and io.errno and io.error_message tell about the last operation. A file that cannot be opened gives nil and leaves everything as it was; using a closed file or a function that fails stops the script with an error and no further effect.",
  ["histories", "inputs"], "all histories of file operations and file contents without NUL bytes",
  "the tests write one short file and read it once",
  ["buzzio.c"],
  [("files", "buzzio.c buzzio_fopen, buzzio_fclose, buzzio_fsize, buzzio_fforeach, buzzio_fwrite"), ("errors", "buzzio.c buzzio_update_error")],
  "stateful property-based testing of scripts against a model file system", "Generated scripts operate on scratch files; output, errors and the resulting files are compared with a model." + TRUST)
P("P22", "The script library does what it documents, on all data",
  "table.max, min, maxkey, minkey, print, swap, sort (any comparator, any numbers or records, duplicates, any size) and shuffle (a permutation, reproducible by seed, every element equally likely at every place); string.charat, indexoffirst, indexoflast and split; the vec2 functions; neighbors.collect and reset (the last value of every robot on every collected topic); and arrows (every function of the sequence once, in order) return and do what their documentation says for all arguments, also while memory is collected.",
  ["inputs", "histories"], "all tables, strings, vectors, message histories and function sequences",
  "the tests call each function on one or two examples",
  ["src/include/table.bzz", "src/include/string.bzz", "src/include/vec2.bzz", "src/include/neighbors.bzz", "src/include/arrows.bzz"],
  [("tables", "src/include/table.bzz"), ("strings", "src/include/string.bzz"), ("vectors", "src/include/vec2.bzz"), ("messages", "src/include/neighbors.bzz"), ("sequences", "src/include/arrows.bzz")],
  "property-based testing: library calls on generated data against reference implementations", "The real library files are compiled into generated scripts and run; results are compared with independent implementations." + TRUST)
P("P23", "The command-line tools do together what the libraries do, and say so when they cannot",
  "For every script, bzzc (bzzparse then bzzasm) produces bytecode and debug files with which bzzrun runs the script as written, wherever the files are, whatever they are called and whichever of the documented options are given; bzzdeasm's output for that bytecode assembles back to the same code. A tool that cannot do its work (missing, unreadable, damaged or empty input, a script with an error, output that cannot be written) says which file is concerned, exits with a failure status, never crashes, and leaves no temporary files behind; a tool that succeeds exits with success and its output is complete.",
  ["programs", "inputs", "faults"], "all scripts, option combinations, file names, and missing, damaged or unwritable files",
  "the tests call the tools with one script each and never with a failure",
  ["src/utility/bzzc", "buzzparse.c", "buzzasm_main.c", "buzzdeasm_main.c", "buzzrun.c", "buzzasm.c", "buzzdebug.c", "buzzvm.c"],
  [("compiler driver", "src/utility/bzzc"), ("tools", "buzzparse.c, buzzasm_main.c, buzzdeasm_main.c, buzzrun.c")],
  "property-based testing: the built tools run on generated scripts, options, file names and file faults", "The tools are built from the working tree and run as processes in a scratch directory; their exit statuses, diagnostics and files are compared with what the library gives for the same script." + TRUST)
P("P26", "Includes splice files in place, once per path, wherever they are found",
  "For every tree of files, an include statement is replaced by the contents of the file it names, looked up in the current directory and then in the directories of BUZZ_INCLUDE_PATH in order; a file that is being included already is skipped, so that files may include one another in any cycle. Splitting a program into included files at statement boundaries does not change what it does. When a file is missing or holds an error, the script is rejected with a message naming the file, line and column concerned.",
  ["inputs", "programs"], "all graphs of including files, all spellings of paths, all search paths",
  "the tests include one file",
  ["buzzlex.c", "buzzparser.c"],
  [("include stack and search", "buzzlex.c buzzlex_new, buzzlex_nexttok"), ("error locations", "buzzparser.c")],
  "property-based testing: generated file graphs against a model of inclusion; metamorphic splitting", "File graphs are written to a scratch directory, compiled and run; the trace is compared with the one predicted by an independent expansion." + TRUST)
P("P24", "Hosts and scripts exchange values and calls faithfully, and machines do not see one another",
  "Values a host pushes, stores in global symbols or tables, passes to script functions or returns from its C functions reach the script unchanged, and back: integers, floats, strings, nested tables, nil and user data, with the type each has. buzzvm_function_call() and buzzvm_closure_call() leave exactly one result and an otherwise unchanged stack, for any number of arguments, for script and C functions, and nested to any depth between host and script; a C function stored in a table gets that table as self. Errors raised anywhere in a nested call, by the script or by the host, stop all of it with the right kind and message, and a machine in the error state does nothing more. Several machines in one process, interleaved in any way, each behave as if alone.",
  ["histories", "inputs", "schedules"], "all sequences of host operations with all values and nestings, and all interleavings of machines",
  "the tests register a print function and run one script",
  ["buzzvm.c", "buzzvm.h", "buzztype.c", "buzztype.h"],
  [("calls", "buzzvm.c buzzvm_function_call, buzzvm_closure_call, buzzvm_call, buzzvm_ret0/1"), ("stack and symbol operations", "buzzvm.c buzzvm_push*, buzzvm_tput/tget/gload/gstore/lload"), ("registration", "buzzvm.c buzzvm_function_register")],
  "stateful property-based testing: generated host sessions against a model; interleaving against solo runs", "Sessions mix calls, globals, tables and C functions that call back into the script; every result, side effect and stack depth is predicted. Generated robots run interleaved in one process are compared with the same robots alone." + TRUST)
P("P25", "Debugging does not change what a program does, and stops where it should",
  "With any set of breakpoints, set by offset or by script location, changed at any stop, buzzdebug_continue() and the debugged calls stop before executing exactly those instructions, each time the program gets there, and a program continued to its end has the same effects, result, error and global symbols as without a debugger. A stopped machine does not go on by itself. A stack dump shows every value of every stack and changes nothing, tables that contain themselves included. The location table returns for each offset the location last set and for each location the first offset set.",
  ["programs", "histories"], "all programs, breakpoint sets and points at which they change (breakpoints inside functions called back by C functions are outside)",
  "the tests never use the debugger",
  ["buzzdebug.c", "buzzdebug.h", "buzzvm.c"],
  [("stops", "buzzdebug.c buzzdebug_continue, buzzdebug_closure_call, buzzdebug_function_call"), ("breakpoints", "buzzdebug.c buzzdebug_breakpoint_*"), ("dump", "buzzdebug.c buzzdebug_stack_dump")],
  "property-based testing: debugged runs of generated programs against the step history of plain runs", "The history of program counters of a plain run predicts every stop; traces, errors, results and globals are compared at the end; dumps are compared with the stack contents." + TRUST)
P("P27", "Instructions do what they are documented to do, and no bytecode harms the host",
  "For every sequence of instructions, in every state of stack, local and global symbols, each instruction has exactly its documented effect on the stack, symbols, tables, calls and program counter. An instruction that cannot be carried out (missing or wrong operands, an unknown string, function, local symbol or opcode, a jump or call outside the code, code that ends too early) stops the machine with the error of that kind. Whatever bytes are loaded as bytecode, damaged or random, the machine never reads or writes outside its memory, and destroying it frees everything.",
  ["programs", "inputs", "faults"], "all instruction sequences and all byte strings as bytecode (library functions left out of the damaged ones; local symbol numbers below 65536)",
  "the tests run only code made by the compiler",
  ["buzzvm.c", "buzzvm.h", "buzzdarray.c"],
  [("instructions", "buzzvm.c buzzvm_step"), ("loading", "buzzvm.c buzzvm_set_bcode"), ("operand checks", "buzzvm.h buzzvm_stack_assert, buzzvm_type_assert")],
  "model-based fuzzing: lock-step comparison with an instruction-level model; mutated bytecode under address sanitizer", "Generated instruction sequences run in lock step with an independent model of the machine comparing program counter, stack, locals and calls after each instruction; mutated and random bytecode runs with heap blocks counted." + TRUST)
