#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for ids, titles and statements)."""
import json, os
H = "include/hyperjet/hyperjet.h"
PB = "python/src/common.h"
PS = "python/src/bind_sscalar.cpp"
PM = "python/src/main.cpp"
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Jets shared between threads can be read concurrently",
  "However threads are interleaved, while they only read a common set of dense or sparse jets (using them as operands of operators, functions, comparisons, queries, evaluation or text output), every thread gets bit for bit the results it gets when it runs alone. The shared jets keep their contents and no memory is accessed by two threads in conflict without synchronisation.",
  ["schedules", "programs"], "all interleavings, down to single memory accesses and allocations, of all sets of threads evaluating arbitrary expressions over the same read-only jets",
  "Both test suites are single-threaded; a cache, scratch buffer or lazily computed part behind a read-only operation passes every one of them.",
  [H], [("read-only member functions and free functions compute into a fresh result from const operands", H + " unary/binary/ternary, DDScalar and SScalar const members"), ("no static or mutable members", H)],
  [("operand data", "value, gradient, packed Hessian", H + " DDScalar::m_data"), ("sparse data", "value and named derivatives", H + " SScalar::m_f/m_d")],
  ["value, derivatives and size of every result and of every shared operand after each operation"])
p("C02", "Threads working on their own jets never influence each other",
  "However threads are interleaved, a thread that creates, updates, copies, resizes, prints and destroys only its own jets gets bit for bit the results of running alone, whatever operations, failures or exceptions happen in other threads. No operation touches state shared with another thread's jets without synchronisation.",
  ["schedules", "programs", "fault_sequences"], "all interleavings of all sets of threads whose jets are disjoint, including threads whose operations fail",
  "No test starts a second thread, so hidden state shared by all jets (a static workspace, counter, stream or cached intermediate) is invisible to them.",
  [H], [("all intermediates are locals or owned by the result", H + " every operator"), ("per-object storage with value semantics", H + " DDScalar::m_data, SScalar::m_d")],
  observe=["value, derivatives and size of every jet after each operation of each thread"])
p("C03", "Running out of memory in a computation is reported, harmless, retryable",
  "Whichever memory allocation fails while an operation computes a new jet, array, matrix, number or text, the operation either still delivers its complete normal result or reports the exhaustion to its caller as an exception; it never ends the process and never returns a partial result. All operands and all other jets are unchanged, nothing stays allocated, and repeating the operation once memory is available gives the result it would have given at first.",
  ["fault_sequences", "inputs"], "every allocation (single, repeated, persistent, size-limited failures) inside every value-producing operation, on dense fixed-size, dense dynamic, sparse and nested jets",
  "The tests never make an allocation fail, so the error paths of vectors, hash maps, string streams and Eigen temporaries inside the operations are never executed.",
  [H], [("exception propagation through the elementwise kernels", H + " unary/binary/ternary"), ("text is built in a string stream", H + " to_string"), ("results are local objects owned by containers", H + " Type result = Type::empty(...)")],
  observe=["exception or result of the failing call, the operands, the count of live allocations, the result of the retry"])
p("C04", "A failed or refused update leaves its target exactly as it was",
  "When an update in place of a dense jet of numbers or a sparse jet (compound assignment, copy or move assignment, resize, setting derivatives) fails because memory runs out or is refused because sizes are incompatible or invalid, the target still has exactly its old value, derivatives and size and remains fully usable. A jet never combines the value of one computation with derivatives or a size of another.",
  ["fault_sequences", "histories", "inputs"], "every allocation failure and every refused argument in every in-place operation at every point of every history",
  "The tests only run updates that succeed; the two-step updates of value and derivatives, or of size and storage, are observable only when the second step fails.",
  [H], [("compound assignment of sparse jets", H + " SScalar::operator+=,-=,*=,/="), ("resize of dynamic jets", H + " DDScalar::resize"), ("copy assignment", H + " DDScalar and SScalar"), ("size checks before modification", H + " check_equal_size, check_valid_size")],
  [("size and storage length", "must stay consistent: length is determined by size and order", H + " DDScalar::m_size, m_data")],
  ["value, derivatives, size and storage length of the target before and after the failed call"])
p("C05", "Every history frees what it acquired and stays inside its storage",
  "For every history of valid, refused and failing operations on jets, in any thread, no operation reads or writes memory outside the live storage of the objects involved, nothing is released twice or after use, and once all jets of the history are destroyed nothing it allocated is left. A jet's size and storage stay consistent after every operation, also for constants, empty and size-zero jets.",
  ["histories", "fault_sequences", "schedules"], "all operation histories with allocation failures at arbitrary points, over all kinds of jets and containers of jets",
  "The tests run without memory instrumentation, with a few fixed sizes and no failures; an out-of-bounds read of a neighbouring heap word or a leak on an error path passes.",
  [H], [("storage length is derived from size and order", H + " data_length_from_size, size_from_data_length"), ("packed Hessian indexing", H + " h(i,j), pad_left, pad_right, eval"), ("containers own all storage", H + " DynamicStorage, StaticStorage, SScalar::Data")],
  observe=["every load and store made by the operations, every allocation and release"])
p("C06", "Results depend only on the operands, not on the surrounding process",
  "Every operation gives bit for bit the same result whatever fresh heap and stack memory happened to contain before, wherever its objects are placed in memory, and whatever unrelated operations, failures or exceptions took place earlier in the process. Every entry of a produced jet is determined by the operands.",
  ["histories", "configurations", "inputs"], "all prior contents and layouts of heap and stack, all unrelated earlier histories, for every operation and kind of jet",
  "Tests run each operation once in one process whose fresh memory is mostly zero, so an entry that is never written, or state carried over from an earlier call, usually still compares equal.",
  [H], [("uninitialised storage is requested and then fully written", H + " empty(), unary/binary/ternary, from_arrays"), ("no state outlives a call", H)],
  observe=["value, derivatives, size, text of every result under differing memory contents, layouts and earlier histories"])
p("C07", "Text output is complete on a healthy stream and honest on a failing one",
  "Writing a jet to an output stream writes its whole text, the same text every time, and leaves the stream's formatting settings as plain number output would. If the stream fails at any point, what reached it is a prefix of that text, the failure is visible to the caller through the stream's state or exception settings, the jet is unchanged, and output works again once the stream has recovered.",
  ["fault_sequences", "schedules", "inputs"], "all points at which the sink refuses, truncates or throws, transient and permanent, all stream exception masks and format settings, several threads printing",
  "One test prints one jet to a healthy string stream; no test has a sink that fails, recovers, or has other format settings.",
  [H], [("insertion operators", H + " operator<< of DDScalar and SScalar"), ("string conversion", H + " to_string")],
  observe=["bytes accepted by the sink, stream state, exceptions, format flags, the jet"])
p("C08", "In-place histories equal the serial mathematical history, exactly once",
  "When threads update shared jets in place under a lock, with operands that may be the target itself, and repeat an update after a failure, every shared jet always holds what applying the acknowledged updates once each in lock order gives: value, gradient and Hessian as calculus defines them. Failed attempts leave no trace.",
  ["schedules", "histories", "fault_sequences"], "all interleavings, failure points and retry sequences of all update histories, including updates whose operand is the target",
  "The tests apply one in-place update to one fresh pair of distinct jets; sequences, self-updates, concurrent accumulation and retries after failure never occur.",
  [H], [("compound assignments", H + " operator+=,-=,*=,/= of DDScalar and SScalar"), ("product and quotient rules applied to a copy of the target", H + " a_m_data")],
  observe=["value, gradient and Hessian of each shared jet at each lock hand-over, the recorded history of acknowledged updates"])
p("C09", "Checkpoint, crash and restart of a computation change nothing",
  "If a computation with dense jets saves them by pickling or copying at arbitrary points, is killed at any later point and resumes in a new process from the last completely saved state, it ends with exactly the values, derivatives, sizes and types of an uninterrupted run. Saved and copied jets are independent of later changes to the originals.",
  ["crash_points", "histories"], "all save points, all crash points, all protocols and all later histories, over all dense jet types",
  "No test pickles or deep-copies; one test makes a plain copy and compares it immediately, without changing the original or restarting.",
  [PB, H], [("pickle state is the full storage; size is recovered from its length", PB + " py::pickle"), ("copy and deepcopy return new jets", PB + " __copy__, __deepcopy__"), ("size from storage length", H + " size_from_data_length")],
  observe=["type, size, value, gradient, Hessian of every jet after restart and at the end"])
p("C10", "A damaged saved state is refused or gives a well-formed jet",
  "Restoring a jet from a truncated, torn, bit-flipped, mixed-up or wrongly sized saved state either raises an exception or yields a jet whose size matches its storage and on which every operation behaves normally. It never crashes the interpreter, never exposes memory that is not the jet's, and does not disturb existing jets.",
  ["fault_sequences", "crash_points", "inputs"], "all truncation points, all corruptions of stored states, states mixed between types and sizes",
  "No test restores any state, damaged or not; whether a wrong length slips through depends on rounding in the inverse length formula for every length.",
  [PB, H], [("state tuple length check", PB + " py::pickle"), ("length validation", H + " size_from_data_length"), ("fixed-size arrays reject other lengths", PB + " tuple[0].cast")],
  observe=["exception or restored jet, other live jets, interpreter exit status"])
p("C11", "Array views of a jet stay attached to it",
  "A numpy array obtained from a jet as its data or gradient always shows the jet's current contents and writing to it changes the jet, through any history of in-place updates, for as long as the array is referenced, even after every other reference to the jet is gone and memory is reused. Matrices returned as copies never change with the jet.",
  ["histories", "schedules"], "all histories of taking, using and dropping views, in-place updates, garbage collection points and memory reuse",
  "Tests read a view once, immediately; none keeps one across an update, a deletion or a collection.",
  [PB, H], [("views are references that keep their jet alive", PB + " def_property_readonly data, g"), ("in-place operators modify storage in place", H + " operator+= etc."), ("matrix accessors return by value", H + " hm(mode)")],
  observe=["contents of live views and of the jet after every step"])
p("C12", "Operations on jets shared by Python threads are atomic",
  "However Python threads that share jets are scheduled, every operation and in-place update takes effect as one indivisible step: the outcome is one that some serial order of the calls explains, and an operation never sees or stores a half-updated jet.",
  ["schedules", "histories"], "all interleavings of all sets of Python threads calling operations on shared jets",
  "No Python test starts a thread.",
  [PB, PS, PM], [("bindings run under the interpreter lock from argument conversion to result", PB + " bind<T>"), ("in-place operators act on the stored object", PB + " py::self += py::self etc.")],
  observe=["jets after concurrent histories, results returned to each thread"])
p("C13", "Memory exhaustion under Python becomes an exception and loses nothing",
  "Whichever native allocation of the library fails inside an operation called from Python (with arguments the operation accepts), the caller gets an ordinary Python exception or the complete result; the interpreter survives, all existing jets and views keep their contents, nothing leaks per failed call, and repeating the call succeeds with the normal result.",
  ["fault_sequences", "histories"], "every native allocation failure in every bound operation, at any point of a history",
  "No Python test makes an allocation fail.",
  [PB, PS, H], [("C++ exceptions are translated at the binding boundary", PB + " bind<T>"), ("storage owned by containers", H)],
  observe=["exception or result, other jets, live native allocations, retry result"])
p("C14", "A refused or interrupted Python call changes nothing",
  "A Python call that cannot be carried out - arguments of a wrong size, index, length or type, or an argument whose conversion runs Python code that raises part of the way - ends in an ordinary exception, never touches memory outside the jets, leaves every jet and array view exactly as it was, leaks no native memory and no Python object however often it is repeated, and the same call with fitting arguments then gives its normal result. Python code that runs during the conversion of an argument takes effect as if it had run before the call.",
  ["histories", "fault_sequences", "inputs"], "all calls, all ways an argument fails to fit, every point at which the conversion of an argument can raise or call back into the module",
  "Tests pass three wrong sizes and never an argument whose conversion fails or calls back.",
  [PB, PS, PM, H], [("arguments are converted before the jet is touched", PB + " bind<T>"), ("sizes and indices are checked before access", H + " check_valid_size, check_equal_size; " + PB + " check_index"), ("in-place operators modify only after all checks", H + " operator+= etc.")],
  observe=["exception type, jets and views after a failed call, native blocks and Python references per repetition, result of the retry"])
p("C15", "Jets may be handed between threads",
  "A jet made by one thread may, under the caller's own synchronisation, be taken over by another thread - moved, copied, swapped, replaced, updated, read and destroyed there - also after the thread that made it has ended, and jets kept by a thread may be destroyed as it ends. Every operation gives what the same operations in the same order give in a single thread; no memory is used after release, and threads that end leave nothing behind.",
  ["schedules", "histories"], "all interleavings and hand-over orders of all programs, all points at which threads start and end",
  "The tests use one thread that never ends.",
  [H], [("jets own their storage", H + " DDScalar::m_data, SScalar::m_d"), ("copies and moves transfer all state", H + " constructors and operator="), ("no per-thread state", H + " whole header")],
  observe=["results of every operation, contents of jets waiting to be taken over, live allocations after all threads ended"])
p("C16", "A program using jets starts, forks and ends cleanly",
  "A Python process that uses the module ends with the exit status the program asked for, running every exit function it registered, wherever jets and views are still held and in whatever order the interpreter drops them; jets still reachable then (in finalisers, exit functions, generators, other threads) have their values and can be computed with. Importing the module again, from any thread, gives the same classes. A process may fork at any point: both processes have the same jets, neither changes the other's, and each goes on as if it had not forked, whichever ends first.",
  ["histories", "schedules"], "all programs, all places where jets are held when the interpreter ends, all ways of ending, all fork points and orders of the two processes",
  "Tests look at single results in a process that is discarded; nothing looks at how it ends, and no test forks or imports twice.",
  [PM, PB, PS, H], [("the module's initialisation", PM + " PYBIND11_MODULE"), ("no state outside the jets", PB + ", " + H + " whole files")],
  observe=["exit status, exit functions that ran, values of jets and views looked at while the interpreter ends, results of every step in each process"])
# ---- pure functions of the input: listed, not claimed
p("C20", "Derivatives of dense jets are exact",
  "For every expression of supported operators and functions, at every point where it is twice differentiable, the gradient and Hessian carried by the result are those calculus defines, to rounding.",
  ["inputs", "programs"], "all expressions, all points of differentiability, all sizes", "Tests check one or two points per function at size two.",
  [H], [("chain rule kernels and per-function derivatives", H + " unary/binary/ternary and members")])
p("C21", "Derivatives of sparse jets are exact for every set of variables",
  "For every expression over sparse jets with arbitrary overlapping variable names, every named first derivative of the result is the one calculus defines, and names that do not occur have derivative zero.",
  ["inputs", "programs"], "all expressions and variable sets", "Tests use three names and a few operations.",
  [H], [("merging of named derivatives", H + " SScalar::unary/binary/ternary")])
p("C22", "All jet kinds agree",
  "An expression evaluated with fixed-size and dynamic-size jets, and with first- and second-order jets, gives the same value and gradient, and the same Hessian where there is one.",
  ["configurations", "inputs"], "all expressions, sizes and orders", "Tests compare each kind with constants at size two.",
  [H, PM], [("one implementation parametrised by size and order", H + " DDScalar")])
p("C23", "Invalid arguments are rejected",
  "Operands of incompatible sizes, data of impossible length, wrong sizes for fixed-size jets, unknown modes and orders raise an error and are never interpreted as something else.",
  ["inputs"], "all argument combinations", "Tests try three wrong sizes.",
  [H, PM], [("argument checks", H + " check_valid_size, check_equal_size, size_from_data_length; " + PM + " variables")])
p("C24", "Packed Hessian access and padding are consistent",
  "Every way of reading or writing second derivatives addresses the same entry for the same pair of variables, in either order, and padding keeps all derivatives of the old variables and adds zeros for the new ones.",
  ["inputs"], "all sizes, index pairs and paddings", "Tests pad once from two to five.",
  [H], [("triangular indexing", H + " h, hm, set_hm, pad_left, pad_right")])
p("C25", "Comparisons and absolute value act on the value",
  "Comparisons between jets and numbers in either order agree with comparing the values, and the absolute value negates all derivatives exactly when the value is negative.",
  ["inputs"], "all pairs of values", "Not tested in C++; a few cases in Python.",
  [H], [("comparison operators, abs", H)])
p("C26", "Evaluation gives the second-order Taylor value",
  "Evaluating a dense jet at an offset gives the value of its Taylor polynomial of the jet's order, and evaluating a sparse jet gives the linear change of the named offsets.",
  ["inputs"], "all jets and offsets", "One point is tested.",
  [H], [("eval", H)])
p("C27", "Linear algebra over jets equals scalar linear algebra with derivatives",
  "Eigen expressions over jets give, entry by entry, the value and derivatives of the same expression over numbers.",
  ["inputs", "programs"], "all matrices and expressions", "Three vector operations are tested.",
  [H], [("Eigen traits", H + " NumTraits, ScalarBinaryOpTraits")])
p("C28", "NumPy integration and module utilities return what they say",
  "NumPy functions on arrays of jets apply the jet operation elementwise, the module's value, gradient and Hessian extractors return those of each element, and the variable factory returns jets of the requested order and matching size.",
  ["inputs"], "all arrays, orders and sizes", "A few arrays are tested.",
  [PM, PB], [("module functions", PM), ("method names matching numpy's", PB)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
