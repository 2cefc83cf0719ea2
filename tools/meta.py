"""What the checks say about themselves."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES = {}
for l in open(HERE + "/properties.jsonl"):
    d = json.loads(l)
    TITLES[d["id"]] = d["title"]

SECONDS = {"quick": 30, "thorough": 600}

REAL = ["all of src/ except utils/config (compiled from the working tree, unmodified, with access instrumentation)",
        "the C++ standard library's containers, strings, streams, function and shared_ptr"]
STUB = ["thread scheduler, mutexes, reader/writer locks, static-initialisation guards, call_once, condition variables",
        "heap allocator", "stream buffers handed to the library", "user types, functions and registration code (generated)"]
ASSUMPTIONS = [
    "memory model: interleavings are sequentially consistent; reorderings by weaker memory orders are covered only through the happens-before race detector",
    "code in the precompiled parts of the C and C++ runtime is not preempted inside",
    "clean batches are evidence, not proof: schedules and faults are sampled",
]

PROPS = {
"C01": dict(rule="Seeded: registration code for up to 8 mutually referring types, 2-4 threads that look them up by up to 16 routes (type, name, alias, scope, template wrappers), and a schedule."),
"C02": dict(rule="Seeded: registration code for 2-8 mutually referring types, 2-4 threads whose lookups are each followed by a comparison of the type, and what it refers to, with a model of what its registration code declares, and a schedule."),
"C03": dict(rule="Seeded: registration code for 2-8 mutually referring types, lookups in random order by 1-4 threads, and a schedule; all reachable descriptions are compared with a model and with a run that looks them up one by one in fixed order."),
"C06": dict(rule="Seeded: registration code with failures (errors, exceptions, unknown types, clashes) at random places and failing allocations, lookups by 1-3 threads while they happen and again after their causes are gone, and a schedule."),
"C07": dict(rule="Seeded: a type of 25 kinds, a document for it (well-formed, odd, damaged or raw bytes), reader options and a split into pieces (whole, single bytes, random); compared with delivery at once, and how far the reader waited with an independent reading of the document."),
"C08": dict(rule="Seeded: a document cut, damaged, or whose stream fails (end, error, exception) at a random byte, read into a type of 25 kinds; what is reported is compared with an independent reading of the bytes; memory accesses checked against the simulated heap."),
"C09": dict(rule="Seeded: 1-8 documents printed by one simulated thread into bounded channels and parsed by another, capacity, chunking, options, cut position and schedule random; and request/response exchanges over two channels."),
"C10": dict(rule="Seeded: an object of 25 kinds with random content printed to a stream buffer that fails at a random byte in one of five ways (end, short write, exceptions, memory), with random buffering, options and route; compared with the document printed without failure."),
"C11": dict(rule="Seeded: 2-4 threads each parsing and printing 1-3 documents of types some of which they share, none of them used before, and a schedule; every result compared with that of a run in which the operation is performed alone."),
"C12": dict(rule="Seeded: 1-6 parsing and printing operations during which allocations fail, streams fail, input is damaged or the type's description is invalid, by 1-2 threads; afterwards every operation is repeated twice without faults and compared with a fresh run."),
"C15": dict(rule="Seeded: reflected calls through 6 routes of 34 functions, methods, constructors, operators and fields, with arguments of 11 written forms and 14 kinds of held values, 1-3 threads, failing allocations and functions that throw; every call that the targets record is compared with what was written, and all objects are tracked."),
"C13": dict(rule="Seeded: histories of up to 60 operations (24 kinds) on 8 value slots, vectors of values, functions that hold objects and shared constant values, by 1-4 threads, with failing allocations and constructors and functions that throw; every construction, destruction and use of an object is checked as it happens, the set of objects is compared with who holds one after every operation, and the heap is empty in the end."),
"C16": dict(rule="Seeded: 2-4 threads each performing 1-20 value operations on their own and on shared constant values, functions and types, warm or never used before, and a schedule; each result compared with that of a run in which the threads run one after another."),
"C18": dict(rule="Seeded: up to 25 value, JSON, description and scope operations, performed twice: with different contents of fresh heap and stack memory and errno, and different placement of heap blocks; all results must be equal."),
"C04": dict(rule="Seeded: 2-4 threads that look up types, parse and print JSON, use values and scopes and register names, all for the first time, with registration code that refers to other types, uses the library itself or fails, failing allocations, and a schedule; every thread must finish within a bounded number of steps, and everything must be usable afterwards."),
"C17": dict(rule="Seeded: 2-4 threads that register types, functions and scopes in nested scopes, explicitly or by using templates, and list, print, query, look up and call them, with failing allocations, and a schedule; an order of all registrations and answers is searched that a set of names would give (Wing-Gong linearizability search); scopes and types keep their identity."),
"C05": dict(rule="Seeded: 2-4 threads that add, alias, get and query type names while loaders that need or alias others run and fail, allocations fail, and a schedule; the recorded history is searched for a sequential order with the same results (Wing-Gong linearizability search against a map)."),
"C14": dict(rule="Seeded: up to 40 registrations on types, overload sets, scopes and the registry, with failing allocations, throwing functors and rejected arguments; after each step everything visible is compared with what it was before (if it failed) or with a model (if it succeeded), and all functors are counted."),
"C23": dict(rule="Seeded: documents of 25 kinds (well-formed, not of the type, damaged, cut) read into fresh or filled objects by 1-3 threads, each document from a stream of its own or all from one, in pieces, with failing streams and allocations; whether it's accepted and what the object is afterwards is compared with an independent reading of the bytes and a model of what reading does to the types."),
"C24": dict(rule="Seeded: objects of 24 kinds printed by 1-3 threads with all options, to a stream each or one for all, with failing streams and allocations; whether it's printed and what the text says, read independently, is compared with the object, member by member."),
"C25": dict(rule="Seeded: one to four documents of 24 kinds, spread over lines and comments, many damaged or of the wrong kind, read with one reader and all options from streams that deliver pieces, end or fail; the place in the error, or the reader's after a document, is compared with one counted from the bytes taken, and what was taken and waited for with an independent scanner's first error."),
}
for k in PROPS:
    PROPS[k]["title"] = TITLES[k]

NOT_APPLICABLE = {
"C19": "Which overload is callable or preferred is a pure function of the argument types; no schedule, fault, clock or stream is involved, so simulation has nothing to vary.",
"C20": "Splitting and joining names is a pure function of a string; no schedule, fault or stream is involved.",
"C21": "Member lookup through parents is a pure function of a finished description; no schedule or fault is involved (its stability under concurrent loading is C02/C03).",
"C22": "The configuration loader isn't part of the build (commented out in CMakeLists.txt) and does not compile: it's written against an earlier JSON interface (src/utils/config/json.cpp uses Token::boolValue, Token::Number, nextToken(istream)), so there's no code to run.",
}
