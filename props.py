PROPS = {
 "P01": dict(harness="p01_expr.cpp", rule="a case is non-trivial when the generated source holds several operators (source > 150 chars, or an operator pair/triple, or a comparison matrix); distinct by choice sequence"),
 "P02": dict(harness="p02_programs.cpp", rule="whole programs above 300 bytes of source, or a closure/method scenario; distinct by choice sequence"),
 "P03": dict(harness="p03_tables.cpp", rule="operation histories longer than 10 operations, bulk fills/erases, clone-then-mutate scenarios and misuse programs; distinct by choice sequence"),
 "P04": dict(harness="p04_gc.cpp", rule="programs above 300 bytes run with a collection before every instruction, or library scripts with more than two logged lines compared between a run that never collects and one that collects at drawn points; distinct by choice sequence"),
 "P09": dict(harness="p09_serial.cpp", rule="messages holding several values or a table, more than two primitive fields, or several transmissions between two robots; distinct by choice sequence"),
 "P10": dict(harness="p10_hostile.cpp", rule="message batches holding both malformed and well-formed messages, or payloads above 1000 bytes; distinct by choice sequence"),
 "P11": dict(harness="p11_queue.cpp", rule="histories that send more than three messages; distinct by choice sequence"),
 "P12": dict(harness="p12_converge.cpp", rule="histories in which some key is written by at least two robots; distinct by choice sequence"),
 "P13": dict(harness="p13_stig.cpp", rule="histories longer than 10 operations mixing local operations with received versions, or several conflicts resolved by a script handler; distinct by choice sequence"),
 "P14": dict(harness="p14_swarm.cpp", rule="histories longer than 10 operations, or networks of robots stepped more than three times; distinct by choice sequence"),
 "P15": dict(harness="p15_exec.cpp", rule="scripts whose execution logs more than five lines, or a wrong use; distinct by choice sequence"),
 "P16": dict(harness="p16_neighbors.cpp", rule="at least two neighbors and one transformation; distinct by choice sequence"),
 "P17": dict(harness="p17_listen.cpp", rule="histories with more than two listener calls; distinct by choice sequence"),
 "P06": dict(harness="p06_errors.cpp", rule="calls with a wrong argument, count or receiver, or made inside at least one callback; distinct by choice sequence"),
 "P05": dict(harness="p05_memory.cpp", rule="lives of a machine with more than two host operations or stopped half-way; 180 steps of steady work; build-and-drop cycles of four sizes; distinct by choice sequence"),
 "P07": dict(harness="p07_compiler.cpp", rule="texts of more than 20 tokens or bytes (more than 4 tokens in token soup, nesting or repetition above 50 in the size shapes); distinct by choice sequence"),
 "P08": dict(harness="p08_asm.cpp", rule="programs above 300 bytes, assembly of more than 10 instructions, more than 5 debug entries, or more than 10 bytes of arbitrary code; distinct by choice sequence"),
 "P18": dict(harness="p18_strings.cpp", rule="scripts logging more than 8 results of string operations, histories with a collection, or lives of a robot with more than 66000 distinct strings; distinct by choice sequence"),
 "P19": dict(harness="p19_math.cpp", rule="scripts with more than 10 calls of mathematical functions, or at least 1300 draws from the generator; distinct by choice sequence"),
 "P20": dict(harness="p20_containers.cpp", rule="histories of more than 8 operations on a container, arrays of more than 100 elements sorted, or 200 operations with heap blocks counted; distinct by choice sequence"),
 "P21": dict(harness="p21_io.cpp", rule="scripts with more than 6 file operations, or files of more than 5 lines copied; distinct by choice sequence"),
 "P22": dict(harness="p22_library.cpp", rule="tables of more than 4 elements, more than 2 elements shuffled 200 times, more than 3 string or vector results, collected messages or sequenced functions; distinct by choice sequence"),
 "P26": dict(harness="p26_includes.cpp", rule="more than two files expanded, or a program split over more than one file; distinct by choice sequence"),
 "P23": dict(harness="p23_tools.cpp", tools=True, rule="scripts above 150 bytes through all four tools, compiler calls with more than two options, or a tool called with wrong files or arguments; distinct by choice sequence"),
 "P27": dict(harness="p27_bytecode.cpp", rule="more than 12 instructions executed in lock step with the model, or more than 5 instructions of damaged bytecode executed; distinct by choice sequence"),
 "P25": dict(harness="p25_debugger.cpp", rule="runs with more than one stop at a breakpoint, several debugged calls with a stop, or more than 20 located instructions; distinct by choice sequence"),
 "P24": dict(harness="p24_embed.cpp", rule="sessions of more than 5 host operations, or machines switched more often than there are machines; distinct by choice sequence"),
}
