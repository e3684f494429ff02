import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe:a["observe_at"]=[observe]
    a["hook_needed"]=hook
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

SIMP="constraint_list/src/constraint_simplification.rs"
prop("D01","Compilation is byte-reproducible",
 "For a given program, prime and set of options, two compilations write byte-identical output files (constraint system, symbol table, constraint listing, substitution log, C++ and WASM witness generators) and reach the same verdict. Nothing about the execution may leak into the files: not the interleaving of the worker threads, the number of CPUs, the seeds of hash tables, the wall clock, the order in which directories are listed, or the previous contents of memory.",
 ["schedules","programs","configurations"],
 "all accepted programs x optimisation levels x primes x every interleaving of the simplifier's worker threads, CPU count, hash seed, clock and recycled-memory contents",
 "No test runs the compiler at all; one run of it samples one schedule and one set of hash seeds of an astronomically large set, and a second run on the same machine usually draws a similar schedule.",
 [SIMP,"circom_algebra/src/simplification_utils.rs","constraint_list/src/r1cs_porting.rs","constraint_list/src/sym_porting.rs","constraint_list/src/json_porting.rs","dag/src/map_to_constraint_list.rs","constraint_writers/src/json_writer.rs"],
 [("cluster simplification on a thread pool, results collected from a channel",SIMP+" linear_simplification"),("equality simplification on a thread pool",SIMP+" eq_simplification"),("hash-map based substitution choice","circom_algebra/src/simplification_utils.rs")],
 observe="the files of the output directory and the exit status")
prop("D02","Simplification preserves the constraint system",
 "At every optimisation level and under every interleaving of the simplifier's worker threads, the constraint system that is written is equivalent to the unsimplified one of the same program: each eliminated signal is fixed by a substitution that follows from the unsimplified constraints, and what remains after substituting is neither weaker nor stronger than the original. Every signal of the program's public interface survives as the right wire.",
 ["schedules","programs","configurations"],
 "all accepted programs x {--O1,--O2,--O2round n} x primes x worker schedules and hash seeds",
 "The existing tests exercise single arithmetic identities of the algebra crate and never the simplifier as a whole; the result depends on which worker finishes first.",
 [SIMP,"circom_algebra/src/simplification_utils.rs","circom_algebra/src/algebra.rs","dag/src/map_to_constraint_list.rs"],
 [("linear cluster elimination",SIMP),("equality and constant elimination",SIMP),("substitution into remaining constraints","circom_algebra/src/algebra.rs")],
 observe="the .r1cs, .sym, _constraints.json and _substitutions.json files")
prop("D03","Compilation does not depend on the wall clock",
 "A compilation that would succeed still succeeds, with the same outputs and without crashing, whatever the wall clock does while it runs: stand still, jump forwards, or be set back between any two readings.",
 ["schedules","fault_sequences"],
 "all programs and options x every sequence of clock readings, including backward steps at any reading",
 "Tests run with an undisturbed clock; a backward step has to fall between two particular readings.",
 [SIMP,"dag/src/map_to_constraint_list.rs"],
 [("elapsed-time measurement around every simplification phase",SIMP)],
 observe="exit status and output files")
prop("D04","Artifacts of one compilation agree with each other",
 "The files written by one compilation describe the same system: the binary constraint file and the constraint listing contain the same constraints, the binary file's section sizes, counts, prime and wire-to-label map match its contents and the symbol table, and the constraint count, wire count and input/output counts the compiler reports are those in the files. This holds at every optimisation level and under every worker schedule.",
 ["schedules","programs","configurations"],
 "all accepted programs x all optimisation levels x primes x schedules",
 "No test reads the files back; the counts depend on which signals the simplifier (whose order depends on scheduling) removed.",
 ["constraint_writers/src/r1cs_writer.rs","constraint_writers/src/sym_writer.rs","constraint_writers/src/json_writer.rs","constraint_list/src/r1cs_porting.rs","constraint_list/src/sym_porting.rs","constraint_list/src/json_porting.rs","dag/src/r1cs_porting.rs","dag/src/sym_porting.rs","dag/src/json_porting.rs"],
 [("sectioned binary writer with back-patched sizes","constraint_writers/src/r1cs_writer.rs"),("witness renumbering after simplification","constraint_list/src/constraint_simplification.rs rebuild_witness")],
 observe="the files of the output directory and standard output")
WR=["constraint_writers/src/r1cs_writer.rs","constraint_writers/src/sym_writer.rs","constraint_writers/src/json_writer.rs","code_producers/src/c_elements/c_code_generator.rs","code_producers/src/wasm_elements/wasm_code_generator.rs","compiler/src/compiler_interface.rs","circom/src/compilation_user.rs","circom/src/execution_user.rs"]
prop("I01","A compilation that reports success wrote everything",
 "If the compiler exits with status zero, every requested output file exists and is complete, byte for byte what an undisturbed compilation writes; any failure to create, write, position or list output files or directories makes it exit with a non-zero status.",
 ["fault_sequences","programs","configurations"],
 "all programs and output options x every single and repeated failure (disk full at any byte, I/O error, permission error, short write) of every file-system call the compiler makes",
 "Tests never meet a failing file system, and there are hundreds of calls at which one may fail.",
 WR,[("buffered writers with explicit flush","constraint_writers, code_producers"),("error propagation to the exit status","circom/src/main.rs")],
 observe="exit status versus the output directory")
prop("I02","No output is announced before it is complete",
 "When the compiler prints that a file was written successfully, that file is complete at that moment: if the process is killed right after the announcement, or a later output fails, the announced file already has exactly the content an undisturbed compilation gives it.",
 ["crash_points","fault_sequences","programs"],
 "all programs and options x a kill before or inside every system call x every failing later call",
 "Needs a crash or failure at a chosen instruction; tests have none.",
 WR,[("flush before the success message","circom/src/execution_user.rs, compilation_user.rs")],
 observe="standard output up to the crash versus the output directory")
prop("I03","Transient I/O conditions are transparent",
 "Reads and writes that transfer fewer bytes than asked for, or are interrupted and must be retried, change nothing: the compiler still succeeds with identical outputs.",
 ["fault_sequences","programs"],
 "all programs and options x every sequence of short transfers and interruptions on every file",
 "A real file system rarely returns short transfers, so no test run meets one.",
 WR+["parser/src/lib.rs"],[("raw write calls whose result is a byte count","constraint_writers/src/r1cs_writer.rs")],
 observe="exit status and output files")
prop("I04","An unreadable source never changes the program",
 "If any source or included file cannot be opened, resolved or read completely, the compiler reports an error and fails; it never compiles a program other than the one in the files, and never silently picks up another file. An include is satisfied by the file beside the including file if there is one, otherwise by the first listed library directory that has it, and each file takes part once however often and by whatever path it is included.",
 ["fault_sequences","programs","configurations"],
 "all include graphs (cycles, diamonds, repeated and differently spelled paths, symbolic links, library directories) x a failure of every open, resolve, stat and read",
 "Tests do not include files, and a failing read needs fault injection.",
 ["parser/src/include_logic.rs","parser/src/lib.rs","circom/src/parser_user.rs"],
 [("include resolution with canonical paths","parser/src/include_logic.rs"),("source loading","parser/src/lib.rs")],
 observe="exit status, messages and output files")
prop("I05","Recompiling after a crash or over old outputs recovers",
 "A compilation that finishes successfully leaves the same outputs whatever was in the output directory before: nothing, the outputs of another program or other options, or the debris of a compilation killed at any point.",
 ["crash_points","histories","programs"],
 "all pairs (or sequences) of compilations into one directory, earlier ones killed at any system call with unsynced data lost or torn",
 "Needs a crash at every possible point and a rerun on what it left.",
 WR,[("directory removal and recreation","code_producers/src/c_elements/c_code_generator.rs, compiler"),("truncating file creation","constraint_writers")],
 observe="the output directory after the successful run")
prop("I06","Compilation touches only its own outputs",
 "The compiler creates, changes or deletes only the files the given options name as outputs, inside the output directory; it never writes or removes sources, included files or other files present there. A program that is rejected, or whose sources cannot be read, leaves no output file and changes none that was there, and the exit status is non-zero.",
 ["programs","fault_sequences","configurations"],
 "all programs (accepted and rejected) and options x any failing system call, judged on every path handed to the operating system",
 "Tests do not observe the file system.",
 WR,[("output naming","circom/src/input_user.rs"),("stage ordering: no output before the front end accepted","circom/src/main.rs")],
 observe="every path-taking system call, and the file tree before and after")
prop("I07","A refused worker thread does not corrupt the result",
 "If the operating system refuses to create worker threads or reports any number of CPUs, or memory runs out, the compiler either fails loudly or produces exactly the normal outputs.",
 ["fault_sequences","configurations","programs"],
 "all programs at the simplifying levels x refusal of any thread creation x any CPU count x a failing allocation at any point",
 "Thread creation and allocation do not fail in tests.",
 [SIMP],[("thread pool sized by the CPU count",SIMP)],observe="exit status and output files")
GC=["code_producers/src/c_elements/common/calcwit.cpp","code_producers/src/c_elements/common/main.cpp","code_producers/src/c_elements/common64/calcwit.cpp","code_producers/src/c_elements/common64/main.cpp","compiler/src/intermediate_representation/store_bucket.rs","compiler/src/intermediate_representation/load_bucket.rs","compiler/src/intermediate_representation/call_bucket.rs","compiler/src/intermediate_representation/create_component_bucket.rs","compiler/src/circuit_design/template.rs"]
prop("W01","The C++ witness is schedule-independent and correct",
 "For a valid input, the generated C++ program computes, under every interleaving of the threads it starts for parallel components, for every thread limit and whatever memory holds before it is written, the one witness the program's semantics define: every signal the program assigns has the value given by the reference evaluation, every constraint of the written constraint system holds, a signal that an execution does not assign is zero, and the witness file is byte-identical across runs.",
 ["schedules","programs","inputs"],
 "all programs with sequential and parallel templates and components (arrays, buses, mixed and nested) x valid inputs x every interleaving at memory-access granularity x thread limits from one upwards",
 "No test compiles or runs generated code; a racing interleaving is reached by chance at best.",
 GC,[("thread per parallel component, output flags guarded by mutex arrays","compiler/src/intermediate_representation"),("run-time component memory and thread accounting","code_producers/src/c_elements/common/calcwit.cpp")],
 [("outputIsSet, numThread, ctx->signalValues","per-component completion flags, running-thread count, shared signal memory")],
 "the witness file, and its rows named by the symbol table")
prop("W02","The C++ witness computation always terminates",
 "For every interleaving and every thread limit of at least one, the generated C++ program finishes: no deadlock, no lost wake-up, no livelock, however wide and deep the parallel components nest.",
 ["schedules","programs"],
 "all programs with parallel components (wide, nested, arrays, without inputs, without outputs) x interleavings x thread limits x spurious wake-ups",
 "Needs a particular interleaving of lock, wait and notify, usually with more components than allowed threads.",
 GC,[("condition-variable throttling of threads","compiler/src/intermediate_representation/store_bucket.rs"),("waiting for parallel outputs","compiler/src/intermediate_representation/load_bucket.rs, call_bucket.rs")],
 observe="progress within a bounded number of scheduler steps")
prop("W03","Parallel witness code is free of data races",
 "In every execution of the generated C++ program no two threads access the same memory without synchronisation when one of them writes, and no thread uses memory of a component after it was released.",
 ["schedules","programs"],
 "all programs with parallel components x interleavings, every memory access observed",
 "A race is invisible in the result of nearly all runs.",
 GC,[("output mutexes and counters","code_producers/src/c_elements/common/calcwit.cpp")],
 observe="happens-before order of the memory accesses")
prop("W04","Bad inputs and failed assertions never yield a witness",
 "If the input violates a constraint or assertion of the program, or misses, oversupplies or misnames an input signal, or gives something that is not a number, the generated C++ and WASM witness generators report failure and write no witness file, under every interleaving and thread limit.",
 ["schedules","inputs","programs"],
 "all programs x inputs violating any assertion, including ones inside parallel components, or malformed in any of the listed ways x interleavings",
 "No test runs generated code; in parallel components the failing assertion races with the main thread.",
 GC+["code_producers/src/wasm_elements/common/witness_calculator.js"],[("assertion and constraint checks in generated code","compiler/src/intermediate_representation/assert_bucket.rs"),("input accounting","code_producers/src/c_elements/common/calcwit.cpp setInputSignal")],
 observe="exit status or thrown error, and the witness file")
prop("W05","A witness generator that reports success wrote the witness",
 "If the generated C++ or Node.js witness generator exits with status zero, the witness file exists and is complete and correct; a failed, short or full-disk write, or a failure to create the file, makes it exit non-zero. A transfer of fewer bytes than asked for is continued transparently.",
 ["fault_sequences","programs"],
 "all programs x every failing, short or interrupted output call, disk full at any byte",
 "Needs fault injection on the generated program's file system calls.",
 ["code_producers/src/c_elements/common/main.cpp","code_producers/src/c_elements/common64/main.cpp","code_producers/src/wasm_elements/common/generate_witness.js"],
 [("witness writer","main.cpp writeBinWitness"),("witness writer","generate_witness.js")],observe="exit status versus the witness file")
prop("W06","A damaged or unreadable input never yields a wrong witness",
 "If the circuit data file, the WASM module or the input file is missing, truncated, or fails to open, map or be read, the generated witness generators fail with non-zero status; they never write a witness that differs from the correct one.",
 ["fault_sequences","inputs","programs"],
 "all programs x every failing call and every truncation of the files read",
 "Needs fault injection on the generated program's inputs.",
 ["code_producers/src/c_elements/common/main.cpp","code_producers/src/c_elements/common64/main.cpp","code_producers/src/wasm_elements/common/generate_witness.js","code_producers/src/wasm_elements/common/witness_calculator.js"],
 [("circuit data loader","main.cpp loadCircuit"),("input loader","main.cpp loadJson")],observe="exit status versus the witness file")
prop("J01","A witness calculator's result does not depend on its history",
 "One loaded WASM witness calculator, used for any sequence of calls, gives for every call exactly what a fresh one would: the correct witness for a valid input and an error for an invalid one, whatever was computed, failed, ran out of memory, was abandoned half-way or run concurrently by overlapping calls before; results already returned do not change. The witness and witness-file forms of the result agree with each other and with the C++ generator.",
 ["histories","inputs","programs","schedules"],
 "all programs x sequences of valid, failing and malformed calls through every entry point x interleavings of overlapping asynchronous calls",
 "No test runs the calculator, and state left by an earlier failed call shows only in the next one.",
 ["code_producers/src/wasm_elements/common/witness_calculator.js","code_producers/src/wasm_elements/wasm_code_generator.rs"],
 [("module initialisation and memory reset","wasm_code_generator.rs init"),("input accounting","wasm_code_generator.rs set_input_signal")],
 observe="the arrays returned and errors thrown by the calculator's functions")
prop("R01","Reading a constraint file fails cleanly or returns what was written",
 "Reading back a constraint file returns exactly the contents the compiler wrote, whatever short or interrupted reads occur; a failing read, or a file truncated at any byte by a crash of the writer, is reported as an error and never as a successfully read different system.",
 ["fault_sequences","crash_points","inputs"],
 "all constraint files the compiler can write x every failing or short read x every truncation point and torn last write",
 "The reader has no test and is not used by the compiler itself.",
 ["constraint_writers/src/r1cs_reader.rs","constraint_writers/src/r1cs_writer.rs"],
 [("section table scan and section readers","constraint_writers/src/r1cs_reader.rs")],observe="result of the library's read entry points")
# --- outside the family
def na(id,title,st,over,q,files,mech):
    prop(id,title,st,over,q,"The tests sample a few values; the property ranges over all programs and values.",files,mech)
na("N01","Field arithmetic is exact for every supported prime",
 "Every arithmetic, bitwise, shift, comparison and division operation on field elements gives the mathematically defined result for every supported prime and every operand.",
 ["inputs"],"all operands and primes",["circom_algebra/src/modular_arithmetic.rs"],[("modular arithmetic","circom_algebra/src/modular_arithmetic.rs")])
na("N02","The front end is total",
 "For every byte sequence given as source, the parser and the analyses terminate with either an accepted program or an error report; they never panic or hang.",
 ["inputs"],"all byte sequences",["parser/src/lang.lalrpop","parser/src/syntax_sugar_remover.rs"],[("grammar and desugaring","parser/src")])
na("N03","Ill-typed and ill-tagged programs are rejected",
 "Every program that breaks the language's typing, dimension, tag, or signal-assignment rules is rejected, and no program that respects them is.",
 ["programs"],"all programs",["type_analysis/src","constraint_generation/src/execute.rs"],[("type analysis","type_analysis/src/analyzers"),("tag and dimension checks at execution","constraint_generation/src/execute.rs")])
na("N04","Constraint generation is faithful to the source",
 "The unsimplified constraint system contains exactly the constraints the program's constraint statements denote, for every program and parameter value, and non-quadratic constraints are rejected.",
 ["programs","inputs"],"all programs",["constraint_generation/src/execute.rs","circom_algebra/src/algebra.rs"],[("symbolic execution","constraint_generation/src/execute.rs")])
na("N05","Single-threaded code generation is faithful to the source",
 "For every program without parallel components, the generated C++ and WASM code computes every language construct as the language defines it.",
 ["programs","inputs"],"all programs",["compiler/src/intermediate_representation","code_producers/src"],[("intermediate code translation","compiler/src/intermediate_representation/translate.rs")])
na("N06","The inspection warnings are sound",
 "The optional inspection reports every signal that appears in no constraint, and never one that does.",
 ["programs"],"all programs",["dag/src/witness_producer.rs","dag/src/lib.rs"],[("under-constrained signal scan","dag/src")])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P:
    jsonschema.validate(p,s)
print(len(P))
