#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "One descriptor per type, loaded once, under any concurrent lookups",
 "However many threads look types up at the same time - by C++ type, by name, by alias or through a scope - every successful lookup of a given type yields the same descriptor, and the type's registration code runs exactly once. Looking types up concurrently is safe: no data race, crash, use of freed memory or spurious failure, including for template types registered on first use.",
 ["schedules", "programs"],
 "All interleavings of lookups by several threads over arbitrary (cyclic, inherited, templated, aliased) type graphs, including first use.",
 "No test starts a second thread; each looks a handful of types up in one fixed order in a process that has usually loaded them already.",
 ["src/registry.h", "src/registry.cpp", "src/dsl/template.h", "src/dsl/type.h", "src/types/pointer.h", "src/types/std/map.h", "src/scope.cpp", "src/argument.cpp"],
 [("Registry::get/load", "src/registry.cpp"), ("registry lock", "src/registry.cpp"), ("reflectTemplateLoader", "src/dsl/template.h"), ("Scope::type", "src/scope.cpp")],
 [("types/aliases/loaders", "which types exist, are loaded, or are waiting to be loaded", "src/registry.cpp RegistryState")],
 ["reflect::type<T>()", "reflect::type(name)", "Scope::type(name)"])

prop("C02", "No thread ever sees a partially registered type",
 "When a lookup returns a type to a thread that is not itself in the middle of registering types, that type and every type reachable from its description (parents, pointees, fields, function signatures) is complete: all the functions, fields, traits, parent and pointer information its registration code declares are present, and stay unchanged from then on.",
 ["schedules", "programs"],
 "All interleavings of first lookups of mutually referring types with readers of the returned descriptors, whichever way the reader obtained them.",
 "Tests are single-threaded, so a lookup never overlaps another thread's registration.",
 ["src/registry.cpp", "src/type.cpp", "src/scope.cpp", "src/overloads.cpp", "src/traits.cpp"],
 [("Registry::load publishes the type before running its loader, so the lock must cover the load", "src/registry.cpp"), ("Scope::type", "src/scope.cpp")],
 [("types", "descriptors visible to lookups", "src/registry.cpp")],
 ["Type::functions/fields/traits/parent/pointee", "Type::function(name).size()"])

prop("C03", "A type's description does not depend on lookup order or interleaving",
 "Whichever type of a set of mutually referring types is looked up first, by whatever route and however lookups from several threads interleave, once lookups have succeeded every type has the same description: parent, pointer kind and pointee, traits and their values, fields with type and offset, and for each function name the same overloads in the same order; and print() shows all of it but the pointer.",
 ["schedules", "histories", "programs"],
 "All orders and interleavings of first lookups over arbitrary type graphs (cycles, inheritance, pointers, templates, fields and overloads of one another).",
 "Each test loads its types in the one order its statements happen to have; the number of orders is factorial and is multiplied by the interleavings.",
 ["src/registry.cpp", "src/type.cpp", "src/overloads.cpp", "src/argument.cpp", "src/dsl/template.h"],
 [("lazy recursive loading", "src/registry.cpp Registry::load"), ("ambiguity test while adding overloads", "src/overloads.cpp Overloads::add")],
 [("types", "descriptors", "src/registry.cpp")],
 ["Type and Overloads accessors"])

prop("C04", "Lookups, calls and JSON use always complete: no deadlock or lost wake-up",
 "Threads that concurrently look up types, call reflected functions, use scopes and parse or print JSON always all complete, in a bounded number of steps, whatever types they touch for the first time, whatever mutual references those types have, and even if registration code itself uses the library; this stays true after lookups that failed.",
 ["schedules", "programs", "fault_sequences"],
 "All interleavings of first-use operations by several threads, with and without failing lookups among them.",
 "Deadlock needs two threads at the wrong moment; the tests have one thread.",
 ["src/registry.cpp", "src/argument.cpp", "src/utils/json/parser.cpp", "src/utils/json/printer.cpp", "src/dsl/template.h"],
 [("registry lock (re-entered by registration code)", "src/registry.cpp"), ("codec cache locks, taken around type lookups", "src/utils/json/parser.cpp getParserLocked, src/utils/json/printer.cpp getPrinterLocked")],
 observe=["completion of every simulated thread"])

prop("C05", "Concurrent registration and aliasing behave as one atomic history",
 "Registering types and aliases and looking names up from several threads is equivalent to performing those operations one at a time in some order consistent with real time: the first registration of a name decides what the name means and later ones change nothing, an alias is accepted exactly once and every other attempt is rejected with an error, an accepted alias takes precedence over a type of the same name, and a name whose registration or aliasing has returned is found by every later lookup.",
 ["schedules", "histories"],
 "All interleavings of add, alias and lookup over a small set of clashing names.",
 "Tests register everything before main() on one thread and never race two registrations of one name.",
 ["src/registry.h", "src/registry.cpp", "src/scope.cpp"],
 [("Registry::add", "src/registry.cpp"), ("Registry::alias", "src/registry.cpp"), ("Registry::get", "src/registry.cpp")],
 [("types/aliases/loaders", "names known to the registry", "src/registry.cpp")],
 ["Registry::add", "Registry::alias", "reflect::type(name)"])

prop("C06", "A failed type lookup leaves no trace and can be retried",
 "If a lookup fails because a type's registration code reports an error or throws, because a type it needs is unknown, or because memory runs out, then no type whose registration did not complete becomes visible to anyone - neither that type nor types registered on the way. Once the cause is gone the same lookup succeeds and yields the complete description, and types that were already loaded are unaffected.",
 ["fault_sequences", "crash_points", "schedules", "programs"],
 "Every failing allocation, every registration step that may throw, over arbitrary type graphs, alone and with other threads looking up related types.",
 "Tests never make registration code fail and cannot choose which allocation fails; in the default build an error aborts.",
 ["src/registry.cpp", "src/type.cpp", "src/overloads.cpp", "src/function.tcc", "src/dsl/template.h"],
 [("Registry::load", "src/registry.cpp"), ("reflectTemplateLoader", "src/dsl/template.h")],
 [("types/loaders", "which types are visible", "src/registry.cpp")],
 ["reflect::type(name)", "Type accessors"])

prop("C07", "JSON decoding does not depend on how the stream delivers its bytes",
 "For any byte sequence, valid JSON or not, the decoded value, the reported error (including its position) and the number of bytes consumed are the same whether the bytes arrive at once, one at a time, or in any other split; and a complete object, array, string or literal is decoded without waiting for any byte after it.",
 ["inputs", "schedules", "histories"],
 "All splits of all byte sequences into deliveries, for every decodable kind of value and every reader option.",
 "Tests read files and string streams that deliver everything in one buffer.",
 ["src/utils/json/reader.h", "src/utils/json/reader.cpp", "src/utils/json/token.cpp", "src/utils/json/parser.tcc", "src/utils/json/parser.cpp"],
 [("Reader::peek/pop", "src/utils/json/reader.h"), ("tokenizer", "src/utils/json/token.cpp")],
 [("peeked token, buffer, pos, line", "tokenizer state carried across deliveries", "src/utils/json/reader.h")],
 ["json::parse", "Reader::error()", "stream position"])

prop("C08", "Damaged or failing JSON input is always reported as an error",
 "A JSON object, array, string or literal that is cut short at any byte, whose stream fails while being read, or whose structure (or, where it is validated, text encoding) is malformed is never reported as successfully parsed: parsing returns an error. No input, however damaged or long, makes parsing crash, hang, read memory it does not own, abort the process or throw anything but an out-of-memory exception.",
 ["inputs", "crash_points", "fault_sequences"],
 "Every truncation point, read failure point and byte corruption of arbitrary documents, for typed and generic targets.",
 "The parser tests feed a dozen hand-written documents, nearly all of them valid and complete, and no failing stream.",
 ["src/utils/json/reader.h", "src/utils/json/reader.cpp", "src/utils/json/token.cpp", "src/utils/json/parser.tcc", "src/utils/json/parser.cpp", "src/utils/json/utils.h", "src/error.cpp"],
 [("Reader::error / expectToken / assertToken", "src/utils/json/reader.cpp"), ("parseObject/parseArray/skip", "src/utils/json/parser.tcc"), ("tokenizer", "src/utils/json/token.cpp"), ("error formatting", "src/error.cpp")],
 [("error_", "first error met", "src/utils/json/reader.h")],
 ["json::parse return value", "Reader::error()"])

prop("C09", "Documents streamed from a JSON printer to a parser arrive intact and in order",
 "When one thread prints a sequence of documents into a byte channel and another parses them from it as the bytes arrive, the receiver obtains exactly the sent values, each once and in order, whatever the channel's capacity and chunking, the interleaving of the two sides and the printing options; a request/response exchange over two such channels never stalls. If the channel is cut at an arbitrary byte the receiver obtains exactly the documents that were completely delivered, and then an error.",
 ["schedules", "inputs", "crash_points", "configurations"],
 "All interleavings of sender and receiver, channel capacities, cut points and document sequences (structures, strings, literals and numbers inside them; numbers to 12 significant digits, any valid UTF-8 text, null pointers, nested containers), for all printing options.",
 "Tests print to a string and compare with a golden file, or parse a file, on two fixed documents; never one through the other, concurrently, or cut.",
 ["src/utils/json/printer.cpp", "src/utils/json/printer.tcc", "src/utils/json/format.cpp", "src/utils/json/writer.h", "src/utils/json/writer.cpp", "src/utils/json/parser.cpp", "src/utils/json/token.cpp"],
 [("object/array/pointer/map/custom printers and parsers", "src/utils/json/printer.cpp, src/utils/json/parser.cpp"), ("string escaping and unescaping", "src/utils/json/format.cpp, src/utils/json/token.cpp")],
 observe=["values received by json::parse"])

prop("C10", "JSON printing never reports success for a document it did not fully write",
 "If printing reports success then the output stream accepted (took over, flushed or not) every byte of a complete document; if the stream rejects or loses any byte - disk full, short write, device error, a throwing or out-of-memory stream buffer - printing reports an error (or lets the stream's own exception through). Whatever was delivered before the failure is a prefix of the document that would have been written without it.",
 ["fault_sequences", "crash_points", "configurations"],
 "Every failure point and failure kind of the output stream, transient or permanent, for arbitrary values and all printing options, with a new writer for every document.",
 "Tests print to in-memory streams that never fail.",
 ["src/utils/json/writer.h", "src/utils/json/writer.cpp", "src/utils/json/format.cpp", "src/utils/json/printer.tcc", "src/utils/json/printer.cpp"],
 [("Writer::push / Writer::operator bool", "src/utils/json/writer.h"), ("print", "src/utils/json/printer.tcc")],
 [("error_ and stream state", "whether output is still good", "src/utils/json/writer.h")],
 ["json::print return value", "bytes received by the stream buffer"])

prop("C11", "Concurrent JSON parsing and printing give the same results as alone",
 "When several threads parse and print documents at the same time, each with its own stream and value, every operation gives the result it gives when run alone, even when they use a type for the first time simultaneously. Concurrent use is free of data races, crashes and use of freed memory.",
 ["schedules", "inputs"],
 "All interleavings of parse and print by several threads over overlapping sets of types, from a cold start.",
 "Tests are single-threaded and codecs are built once per process.",
 ["src/utils/json/parser.cpp", "src/utils/json/printer.cpp", "src/utils/json/format.cpp", "src/utils/json/token.cpp", "src/registry.cpp"],
 [("getParserLocked/getPrinterLocked", "src/utils/json/parser.cpp, src/utils/json/printer.cpp")],
 [("parsers/printers", "codec caches shared by all threads", "src/utils/json/parser.cpp, src/utils/json/printer.cpp")],
 ["json::parse", "json::print"])

prop("C12", "A failed first JSON use does not poison later uses",
 "If parsing or printing a type fails - an allocation fails at any point, the stream fails, the input is damaged, or the type's JSON description is invalid - then later parsing and printing of that or any other type gives the result it gives in a fresh process. In particular a type whose JSON description is invalid is rejected every time, not only the first.",
 ["fault_sequences", "crash_points", "histories"],
 "Every failing allocation and stream failure point in the first and later uses, followed by fault-free uses, over types with nested, recursive and invalid JSON descriptions.",
 "Tests never fail an allocation, and never use a type again after an error.",
 ["src/utils/json/parser.cpp", "src/utils/json/printer.cpp", "src/registry.cpp"],
 [("getParser/getPrinter caching", "src/utils/json/parser.cpp, src/utils/json/printer.cpp"), ("ObjectParser::init/ObjectPrinter::init", "src/utils/json/parser.cpp, src/utils/json/printer.cpp")],
 [("parsers/printers", "codec caches", "src/utils/json/parser.cpp, src/utils/json/printer.cpp")],
 ["json::parse", "json::print"])

prop("C13", "Objects held by values are destroyed exactly once and never used after",
 "Every object that the library creates or takes over - stored values, call arguments and results, copies, moves, conversions, trait values - is destroyed exactly once, not before the last value referring to it is gone and not later, and is never read after that. This holds for every sequence of operations on values, when values are shared by several threads, and when allocations fail or the objects' constructors and functions throw at any point.",
 ["histories", "fault_sequences", "schedules"],
 "All histories of storing, copying, moving, assigning, converting, calling and dropping values, with a failure at any allocation or user-code call, on one or several threads. Objects that functions hand out by raw pointer belong to the caller.",
 "Tests check a few ownership hand-overs; they count no objects, fail no allocation and throw from no constructor.",
 ["src/value.h", "src/value.tcc", "src/value.cpp", "src/value_function.h", "src/value_function.cpp", "src/function.tcc", "src/function.cpp", "src/cast.h", "src/cast.cpp", "src/traits.cpp"],
 [("Value storage", "src/value.tcc"), ("argument and result passing", "src/value_function.h, src/cast.h"), ("Function ownership", "src/function.cpp, src/function.tcc")],
 [("storage", "shared ownership of the stored object", "src/value.h")],
 ["constructions and destructions of instrumented objects", "live heap blocks"])

prop("C14", "A registration step that fails changes nothing",
 "If adding a function, overload, field, trait, pointer or parent information, alias, type or scope entry fails - it clashes with what is there, it is malformed, or memory runs out - the description of the type, function set, scope or registry is exactly what it was before, as seen through every accessor, and what was there still works. If it succeeds the description gains exactly what was added.",
 ["histories", "fault_sequences", "inputs"],
 "All histories of registration steps, valid and clashing, with a failure at any allocation.",
 "Tests check that some clashes are rejected, not that nothing changed, and never fail an allocation.",
 ["src/type.cpp", "src/type.tcc", "src/overloads.cpp", "src/traits.cpp", "src/field.cpp", "src/scope.cpp", "src/registry.cpp", "src/function.tcc"],
 [("Type::addFunction/addField/setPointer", "src/type.cpp"), ("Overloads::add", "src/overloads.cpp"), ("Traits::addTrait", "src/traits.cpp"), ("Scope::addFunction/addType/scope", "src/scope.cpp"), ("Registry::add/alias", "src/registry.cpp")],
 [("fields_, fns_, traits_, types_, functions_, scopes_", "descriptions", "src/type.h, src/traits.h, src/scope.h")],
 ["Type, Overloads, Traits, Scope accessors"])

prop("C15", "A reflected call happens exactly as written or not at all",
 "A call through reflection - of a function, method, constructor, operator or converter, on a type, value, scope or overload set - either invokes the intended target exactly once, with the object and arguments supplied (modified only where passed for modification), and delivers its result, or reports an error. If the arguments do not fit, or handing them over fails because memory runs out or a copy throws, the target is not invoked, and the caller's objects, other than those given away as rvalues, are as they were; the call can then be repeated successfully.",
 ["inputs", "fault_sequences", "histories"],
 "All combinations of parameter and argument passing modes, targets and results, with a failure at any allocation or copy.",
 "Tests exercise a table of fitting and non-fitting calls without faults and without counting invocations or checking bystander objects.",
 ["src/function.tcc", "src/function.cpp", "src/overloads.cpp", "src/overloads.tcc", "src/argument.cpp", "src/cast.h", "src/cast.cpp", "src/value_function.h", "src/value.tcc", "src/type.tcc", "src/scope.tcc"],
 [("Function::call checks before invoking", "src/function.tcc"), ("argument casts", "src/cast.cpp"), ("Overloads::call selection", "src/overloads.tcc")],
 observe=["invocation records of instrumented targets", "argument objects after the call"])

prop("C16", "Concurrent reflected calls and reads behave like direct ones",
 "Threads that concurrently construct, copy, convert, read fields of and call functions on values through shared descriptors and shared constant values obtain the results that the same direct C++ operations would give, regardless of interleaving and of which thread uses a type or conversion first. Doing so is free of data races in the library's own state, crashes and use of freed memory.",
 ["schedules", "programs"],
 "All interleavings of value operations by several threads on shared descriptors, shared constant values and private objects.",
 "Tests are single-threaded.",
 ["src/value.tcc", "src/value.cpp", "src/function.tcc", "src/function.cpp", "src/overloads.tcc", "src/argument.cpp", "src/cast.cpp", "src/type.cpp", "src/traits.tcc"],
 [("descriptors immutable after load", "src/type.h"), ("isConvertibleTo", "src/argument.cpp"), ("shared value storage", "src/value.h")],
 [("descriptors", "shared by all threads", "src/registry.cpp")],
 ["results of calls", "field values"])

prop("C17", "The scope tree stays consistent while types are being registered",
 "While some threads register types and functions in nested scopes, explicitly or by using template types for the first time, other threads may enumerate, query and look up scopes, types and functions: each answer reflects everything whose registration had returned before the question and nothing whose registration had not begun. Nothing registered is ever lost, scopes keep their identity, and such use is free of data races and crashes.",
 ["schedules", "histories"],
 "All interleavings of registrations and scope queries over clashing and nested names; functions may be called while others are added, but overloads are not added to a function that others are calling.",
 "Tests populate scopes before main() and query them afterwards on one thread.",
 ["src/scope.h", "src/scope.cpp", "src/registry.cpp", "src/dsl/template.h", "src/dsl/scope.h"],
 [("Scope::addType/addFunction/scope", "src/scope.cpp"), ("Registry::add registers into the scope tree", "src/registry.cpp")],
 [("scopes_, types_, functions_", "the tree", "src/scope.h")],
 ["Scope::types/scopes/functions/hasType/hasScope/hasFunction/type/scope"])

prop("C18", "Results never depend on garbage in memory or on where objects are placed",
 "The observable results of any fault-free sequence of operations - descriptions, call results, value properties, printed JSON, parsed values and error texts - depend only on the operations: they are the same whatever the previous contents of the memory obtained from the heap or the stack and wherever the allocator places objects.",
 ["configurations", "histories"],
 "All memory contents and allocation layouts the environment may provide, over arbitrary operation sequences.",
 "A test run sees one memory layout, usually freshly zeroed.",
 ["src/argument.cpp", "src/argument.h", "src/value.cpp", "src/utils/json/traits.cpp", "src/utils/json/parser.cpp", "src/utils/json/printer.cpp", "src/error.cpp"],
 [("initialisation of descriptors, arguments, values and JSON traits", "src/argument.cpp, src/value.cpp, src/utils/json/traits.cpp")],
 observe=["every accessor and printed text"])

prop("C19", "Overload resolution and const/reference matching follow the C++ rules",
 "Whether a reflected function is considered callable with given argument types, references and constness, and which overload is preferred or reported ambiguous, depends only on those types and matches what C++ would do for the supported cases.",
 ["inputs", "programs"],
 "All combinations of argument and parameter types.",
 "Tests cover a table of combinations, not all types.",
 ["src/argument.cpp", "src/function.cpp", "src/overloads.tcc"],
 [("Argument::isConvertibleTo", "src/argument.cpp"), ("Function::test", "src/function.cpp")])

prop("C20", "Qualified names are split and joined consistently",
 "Splitting a qualified name at its first or last separator and joining the parts gives back the name, separators inside template arguments are never split at, and unbalanced or malformed names are rejected.",
 ["inputs"],
 "All strings.",
 "Tests cover a handful of names.",
 ["src/scope.cpp"],
 [("Scope::head/tail/join", "src/scope.cpp")])

prop("C21", "Inherited members resolve to the nearest declaration",
 "Looking a function or field up in a type finds the declaration in that type if there is one, else the one in its nearest ancestor, and field access addresses the same storage as direct C++ member access.",
 ["inputs", "programs"],
 "All inheritance chains and member names.",
 "Tests cover one three-level hierarchy.",
 ["src/type.cpp", "src/value.tcc"],
 [("Type::function/field walk the parents", "src/type.cpp")])

prop("C22", "Configuration loading links every referenced object",
 "Loading a configuration document creates every object it names, fills it and resolves every link path to the addressed member.",
 ["inputs"],
 "All configuration documents.",
 "The configuration library is not part of the build and its tests are disabled.",
 ["src/utils/config/config.cpp", "src/utils/config/path.cpp", "src/utils/config/json.cpp"],
 [("Config", "src/utils/config/config.cpp")])

prop("C23", "JSON that's reported as read left the object exactly as the document says",
 "If parsing a document into an object reports success then the object is exactly what the document makes of it: the members it names, by their keys or aliases, have the values it gives (strings character for character, numbers as the nearest value of their type; nested objects and what pointers point to are updated in place), array elements are appended in order, map entries are assigned under their keys, null resets pointers and leaves objects and containers as they are, and everything the document doesn't mention is as it was before. A well-formed document that fits the type is accepted; one that doesn't fit it - another kind of value, a number out of its type's range, an unpaired surrogate - is reported. (Documents that repeat a key within an object aside.) This is so for all reader options, ways of delivery and nestings of types, while other threads parse too, for a reader used for one document or several, and after operations that ran out of memory or whose streams failed.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "All documents, types built from numbers, strings, containers, pointers and custom functions, prior contents of the object, reader options, deliveries, interleavings and earlier failures.",
 "The parser tests read a few documents into fresh objects, with one thread and memory that never runs out.",
 ["src/utils/json/parser.cpp", "src/utils/json/parser.tcc", "src/utils/json/token.cpp", "src/utils/json/reader.cpp", "src/utils/json/traits.cpp", "src/types/std/map.h", "src/types/std/vector.h", "src/types/std/smart_ptr.h", "src/types/pointer.h"],
 [("parsers by type", "src/utils/json/parser.cpp"), ("parseObject/parseArray", "src/utils/json/parser.tcc"), ("strings and numbers", "src/utils/json/token.cpp")],
 observe=["json::parse return value", "Reader::error()", "the object's members"])

prop("C24", "JSON that's reported as printed is one document that says what the object is",
 "If printing an object reports success then what was written is exactly one well-formed JSON document that denotes the object: every field appears once under its key or alias, unless its traits (skip, skipEmpty with an empty field) or the Compact option (numbers that are zero, empty strings and containers, pointers that are null or point to something that is empty) leave it out, every array element in order and every map entry under its key, strings character for character and numbers to the 12 significant digits that are printed; it has only ASCII characters if unicode is to be escaped and no white space between tokens unless Pretty is asked for. An object that JSON can represent is printed; numbers that aren't finite, integers beyond int64_t and text that isn't well-formed UTF-8 (where it's validated or escaped) are reported. This is so for all writer options and nestings of types, while other threads print too, for a writer used for one document or several, and after operations that ran out of memory or whose streams failed.",
 ["inputs", "schedules", "fault_sequences", "configurations"],
 "All objects of types built from numbers, strings, containers, pointers, traits and custom functions, writer options, interleavings and earlier failures.",
 "The printer tests compare a few objects' text with golden text, with one thread and memory that never runs out.",
 ["src/utils/json/printer.cpp", "src/utils/json/printer.tcc", "src/utils/json/format.cpp", "src/utils/json/writer.cpp", "src/utils/json/traits.cpp"],
 [("printers by type", "src/utils/json/printer.cpp"), ("printObject/printArray", "src/utils/json/printer.tcc"), ("strings and numbers", "src/utils/json/format.cpp")],
 observe=["json::print return value", "Writer::error()", "the written text"])

prop("C25", "JSON errors say where the problem is and come as soon as it's read",
 "An error that's reported while parsing begins with the line and position of the place up to which the input was read when it was noticed: the line is one more than the number of newlines before that place, the position one more than the number of bytes since the last of them, for any white space, comments, text and line endings, in the first document of a stream or a later one that's read with the same reader; after a document that's read without an error the reader's line and position say where it ended. Only newlines within a token that can't have any, which is an error itself, are counted as a position, and so is an attempt to read past the end. An error that's in the bytes is reported once the token that has it is read: nothing after it is read or waited for, and that the input ended is only said if it did.",
 ["inputs", "fault_sequences", "configurations"],
 "All byte sequences, sequences of documents read with one reader, reader options, ways of delivery and stream failures.",
 "No test looks at an error's line and position or at how much was read.",
 ["src/utils/json/reader.h", "src/utils/json/reader.tcc", "src/utils/json/token.cpp", "src/utils/json/parser.tcc"],
 [("Reader::error", "src/utils/json/reader.tcc"), ("pos/line/newline", "src/utils/json/reader.h"), ("nextChar and tokens", "src/utils/json/token.cpp")],
 observe=["Reader::error()", "Reader::line()", "Reader::pos()", "bytes taken from the stream"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
