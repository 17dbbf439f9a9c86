PY = {
    "C09": ("simulated disk, crashes at every stage of saving and between operations, restart in a new process, compared with an uninterrupted run that never uses the copy and restore code", "Dense classes of every size the module binds, all pickle protocols, copy, deepcopy and containers of jets; crash points and histories are sampled."),
    "C10": ("injected damage to saved states (torn, flipped, cut, duplicated, mixed), restored under two different memory contents with every access checked", "Byte-level and structure-level damage of pickles of all protocols and direct damaged __setstate__ calls; the unpickler may only create jets, so code in a pickle is out of scope. One known finding (objects never given a state) is listed."),
    "C11": ("seeded histories of views, in-place updates (some made to fail), drops, collections and immediate memory reuse on a simulated heap, against a model of each jet's contents", "Views are compared with the model after every step and their storage must be live. One known finding (views across resize) is listed."),
    "C12": ("seeded scheduler of Python threads switching between bytecodes, inside number conversions and at single memory accesses while the interpreter lock is released; outcome checked by search for a serial order", "2-3 threads with up to 4 calls each. Native preemption only happens where the module releases the interpreter lock, as in CPython with its lock."),
    "C13": ("allocation failures injected below the Python interface, reference outcome on equal operands, leak accounting over repeated failures, retry", "Allocations of the module are failed, except in pybind11's own instance table and error messages, from which pybind11 itself cannot recover (not part of the repository)."),
    "C14": ("failures injected into the conversion of arguments (exceptions, re-entrant calls, wrong sizes, indices, lengths and types), before/after comparison, leak accounting over repeated failures, retry", "Arguments are Python objects controlled by the simulator (numbers, indices, sequences that raise, shrink, grow or call back at a drawn point); numpy's and pybind11's own treatment of failing sequences is accepted, what the call leaves behind is not."),
    "C16": ("seeded programs with drawn fork points, process orders, holders of jets and ways of ending, each run to the very end of its process (interpreter finalisation and static destructors), compared with an undisturbed process", "Processes that fork are run one after the other in a drawn order, so that a run is repeatable; threads alive at the end are blocked ones. Twenty kinds of places that keep jets alive are sampled."),
}
