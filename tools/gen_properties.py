#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to review and edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe, "hook_needed": None}})

DL = "typedload/dataloader.py"; DD = "typedload/datadumper.py"; EX = "typedload/exceptions.py"; TC = "typedload/typechecks.py"; IN = "typedload/__init__.py"
LCACHE = [("handler cache", "type -> handler, filled on first use of a type", "Loader._indexcache"),
          ("object field cache", "dataclass -> fields, required fields, hints, name map", "Loader._objfieldscache"),
          ("discriminator cache", "union -> tag name and tag value -> member", "Loader._unionload_discriminatorcache"),
          ("known names", "type name -> type, used to resolve forward references", "Loader.frefs")]
DCACHE = [("handler cache", "runtime type -> dump handler", "Dumper._handlerscache"),
          ("dataclass cache", "dataclass -> fields, defaults, hints", "Dumper._dataclasscache")]

prop("C01", "Threads sharing one loader get what a private loader would give",
     "Any number of threads may call load() at the same time on one shared loader, including the very first calls it ever serves, with any mix of supported types and of good and bad data. Each call returns the value, or raises the error (same class, message and location), that the same call gives on a private, unshared loader, whatever the interleaving of the threads, and no call blocks forever.",
     ["schedules", "inputs"], "every interleaving of the threads at the granularity of single interpreter instructions; every mix of types and documents",
     "The suite is single-threaded; a race needs one specific preemption point out of thousands per call, and only on a loader whose caches are still cold.",
     [DL, TC], [("lookups and lazily filled caches", "Loader.load, _dictload, _iterload, _objloader, _unionload, _dataclassload"), ("name registration", "Loader.load")],
     ["return value or exception of every load()"], LCACHE)
prop("C02", "Threads sharing one dumper get what a private dumper would give",
     "Any number of threads may call dump() at the same time on one shared dumper, including its very first calls, with any mix of supported values. Each call returns the data, or raises the error, that the same call gives on a private, unshared dumper, whatever the interleaving, and no call blocks forever.",
     ["schedules", "inputs"], "every interleaving of the threads at the granularity of single interpreter instructions; every mix of values",
     "The suite never dumps from two threads; the caches are only vulnerable while they are being filled.",
     [DD], [("lazily filled caches", "Dumper.dump, _dataclassdump")], ["return value or exception of every dump()"], DCACHE)
prop("C03", "What a load gives never depends on what the loader loaded before",
     "For a long-lived loader, the outcome of load(value, type) - the value, or the class, message and location of the error - is the one a brand new loader with the same settings gives, whatever sequence of successful and failed loads of any types came before. The only thing an earlier load may change is that a forward reference, unknown to a brand new loader, resolves because that name was met before.",
     ["histories", "inputs"], "every sequence of loads (good, bad, of related and unrelated types, long ones included) before the observed one",
     "Tests use a fresh loader per assertion; caches make the outcome a function of the history, which no test enumerates.",
     [DL, TC], [("handler and field caches must be pure functions of type and settings", "Loader.load, _dictload, _iterload, _objloader, _unionload, _dataclassload")],
     ["outcome of each load in a history"], LCACHE)
prop("C04", "What a dump gives never depends on what the dumper dumped before",
     "For a long-lived dumper, the outcome of dump(value) is the one a brand new dumper with the same settings gives, whatever sequence of successful and failed dumps came before, and whatever happened to the objects dumped before.",
     ["histories", "inputs"], "every sequence of dumps (also failing ones, also of objects that are later modified) before the observed one",
     "Tests use a fresh dumper per assertion.", [DD], [("handler and dataclass caches", "Dumper.dump, _dataclassdump")], ["outcome of each dump in a history"], DCACHE)
prop("C05", "An interrupted load or dump leaves the object as good as new",
     "If a load or dump is cut short by an asynchronous exception that is not an Exception (KeyboardInterrupt, SystemExit, asyncio.CancelledError, a timeout signal) at any instant, that exception reaches the caller and is never swallowed or turned into a result, the input is left unmodified, and every later call on the same loader or dumper gives exactly the outcome that a brand new one gives.",
     ["crash_points", "histories"], "every instruction at which the interrupt can land, followed by any further calls",
     "No test interrupts a call; half-filled caches show only when the interrupt lands between two particular instructions.",
     [DL, DD], [("a cache entry is published only when whatever depends on it is in place", "Loader.load, _unionload, _dataclassload, _dictload, Dumper.dump, _dataclassdump")],
     ["exception of the interrupted call, outcomes of the calls that follow"], LCACHE + DCACHE)
prop("C06", "Running out of stack or memory never yields wrong data",
     "If the interpreter runs out of call stack (RecursionError) or of memory (MemoryError) at any point inside a load or dump, the call either raises or returns exactly what it returns without the shortage: exhaustion is never mistaken for 'this value does not fit', so it never selects another union member or enum reading, nor drops data. Later calls, once the shortage is over, behave as on a brand new object.",
     ["fault_sequences", "crash_points"], "every point at which the stack limit or an allocation failure can hit, for every supported type",
     "Tests never run near the stack limit and never fail an allocation.",
     [DL, DD], [("which exceptions count as a failed conversion", "_basicload, _strconstructload, _enumload, _dictload, _iterload, _tupleload, _unionload")],
     ["outcome of the call under shortage against the outcome without"])
prop("C07", "Streamed input is consumed once, in order, and never loaded partially",
     "A list, set, frozenset or homogeneous tuple can be loaded from any iterable, however it is produced: the iterable is iterated exactly once and in order, every delivered element is in the result exactly once (in order for lists and tuples) when load succeeds, and when an element is bad the error gives its position and nothing beyond it has been read. If the source itself fails part way (for example an I/O error), load raises - whatever optionals, objects, containers or unions (with one container among their members) surround it - and never returns a partial or substitute value; mappings that fail while being read likewise. (A source that fails with TypeError or ValueError says that it cannot be read, or that the data is bad, and is left apart.)",
     ["fault_sequences", "inputs"], "every source length, every position and kind of source failure, every nesting of the stream inside unions, optionals, objects and containers",
     "The tests feed one three-element generator; they never make a source fail or count what is read.",
     [DL], [("lazy iteration with a position counter", "_iterload, _tupleload"), ("mapping iteration", "_dictload, _objloader")],
     ["calls made on the source, load outcome, error position"])
prop("C08", "A failing user callback is never masked",
     "When code supplied by the user and run during a load or dump - a custom handler, the constructor or post-init hook of an object type, a default factory, an attrs converter or validator - fails with an exception other than a load error, TypeError or ValueError, the call raises: the failure is never hidden behind another union member, an enum reading, or a partial result, wherever in the data it happens. When a custom load handler rejects a value with one of typedload's own exceptions, that is an ordinary mismatch: a union goes on to its next member, anything else reports it with the path to the value; once the callback works again, so does the same loader or dumper.",
     ["fault_sequences", "histories"], "every callback kind, every position of the failing call, every surrounding type, every sequence of failures and recoveries",
     "Tests have one handler that misbehaves at top level.",
     [DL, DD], [("assertion on foreign exceptions", "Loader.load"), ("which exceptions a union absorbs", "_unionload, _enumload, _iterload, _tupleload, _dictload"), ("constructor errors", "_objloader")],
     ["exception or value that load()/dump() gives"])
prop("C09", "Damaged data gives a conforming value or a clean typedload error",
     "Whatever damage a JSON-like document suffers on its way (fields lost, added, duplicated, truncated, swapped, retyped, numbers blown up, bytes flipped, keys that are no strings as other formats allow them), loading it either returns a value that conforms to the requested type at every depth, or raises a TypedloadException whose text can be printed. No other exception ever escapes for data made of such values.",
     ["fault_sequences", "inputs"], "every schema of supported types, every document, every sequence of corruptions",
     "Tests check a handful of hand-picked wrong values.",
     [DL, EX], [("error conversion in each handler", "all handlers of dataloader.py"), ("error rendering", "TypedloadException.__str__")],
     ["type conformance of the result; class and text of the exception"])
prop("C10", "The error points at the damaged element",
     "When exactly one element of an otherwise valid document is damaged so that it cannot be loaded, the exception's value is the offending element and following its trace annotations (field, index, key, value) from the root of the document leads exactly to it; below a union, the path leads to the union and one of the listed sub-exceptions leads on to the element. The text of the exception shows that path, too.",
     ["fault_sequences", "inputs"], "every position at which a single fault can be, every nesting of types, loaders cold and warm",
     "Tests check a few fixed paths.",
     [DL, EX], [("trace construction", "Loader.load, _objloader, _iterload, _tupleload, _dictload, _unionload")],
     ["TypedloadException.trace, .value, .exceptions and the printed Path"])
prop("C11", "Loading and dumping modify nothing and share no mutable data",
     "load() and dump() never modify the value they are given, the classes they load into, or the settings of the loader or dumper, whether they succeed or fail. The result shares no mutable container with the input, with the result of any other call or with internal caches (data passed through typing.Any apart), so a caller that reuses its buffers or edits one result never changes another one or the outcome of a later call.",
     ["histories", "schedules"], "every sequence of loads, dumps and modifications of inputs and results in between",
     "Tests never compare the input before and after, nor modify a result and look again.",
     [DL, DD], [("containers are always rebuilt", "_iterload, _dictload, _objloader, _mangle_names, _iteratordump"), ("cached defaults and hints stay internal", "_dataclassdump, _typeddictload")],
     ["input, classes and settings before and after; identity of the mutable parts of results"])
prop("C12", "Loaders and dumpers with different settings never influence each other",
     "Any number of loaders and dumpers with different settings and handlers, together with the module level load() and dump(), can be used in turns or from concurrent threads in one process: every call gives the outcome it gives in a process where only that one loader or dumper exists.",
     ["histories", "schedules", "configurations"], "every set of configurations, every interleaving of their calls (sequential histories and threads)",
     "Tests never keep two configurations alive on the same types.",
     [DL, DD, IN], [("all state is per object", "Loader.__init__, Dumper.__init__"), ("module level helpers build their own objects", "typedload.load, typedload.dump")],
     ["outcome of each call"], LCACHE + DCACHE)
prop("C13", "Dumped state survives crash and restart unchanged",
     "For every value of the supported data types (durations within the precision of a float, patterns without flags, defaults that are not equal to values of other types), what dump() produced - stored as JSON, with defaults hidden or not and names mangled - is made only of JSON types and loads back into an equal value of the same types in a new process after a restart, also with failonextra; this holds for long-lived dumpers and loaders, also right after calls that were interrupted or failed.",
     ["crash_points", "inputs", "configurations"], "every value of every supported schema, every dump configuration, crash points between and inside the calls",
     "Tests round-trip a few fixed objects in one process.",
     [DL, DD], [("dump and load handlers are inverse", "dataloader.py, datadumper.py"), ("default hiding", "_dataclassdump, _attrdump, _namedtupledump")],
     ["JSON text written, value loaded after restart"], DCACHE)
prop("C14", "Results do not depend on the process they are computed in",
     "Given the same types, settings and data, every process computes the same outcome: hash randomisation and memory layout decide neither the value loaded, nor which member of a union is chosen, nor whether and where an error is raised, nor the data dumped, nor the order of the keys in either (the order of the elements of sets apart).",
     ["configurations", "inputs"], "every hash seed and address layout of the process",
     "The suite runs with PYTHONHASHSEED=0 only.",
     [DL, DD, TC], [("set-valued intermediate results", "_unionload, _objloader, _dataclassdump, discriminatorliterals")],
     ["outcome of the same calls in processes with different hash seeds"])
prop("C15", "A tagged document is always loaded as the member its tag names",
     "In a union of objects of which each has a Literal field with values of its own under a common name, a valid document of one member always loads as that member with exactly its data - whatever the order of the members, further Literal fields they share, their object kinds, the hash seed, other threads, and whatever the loader loaded, or failed to load, before. A document whose tag matches no member is always rejected.",
     ["histories", "schedules", "configurations"], "every set of members, member order, preceding or concurrent loads, hash seed",
     "Tests have one or two fixed unions, loaded on a fresh loader.",
     [DL, TC], [("tag lookup", "_unionload, discriminatorliterals")], ["class and fields of the loaded value"],
     [("discriminator cache", "union -> tag name and tag value -> member", "Loader._unionload_discriminatorcache")])
prop("C16", "Readers and writers of different schema versions exchange data safely",
     "When documents written for one version of a schema are read with another: fields unknown to the reader are ignored by default and, with failonextra, rejected with an error naming a field; absent fields take their declared default; an absent required field is always an error naming it; everything else arrives unchanged. A failed read never affects the following ones.",
     ["fault_sequences", "histories"], "every pair of versions, every set of fields lost or added in transit at any depth, every order of messages",
     "Tests check single missing or extra fields of flat objects.",
     [DL], [("required and extra field checks", "_objloader, _mangle_names, _dataclassload, _namedtupleload, _attrload, _typeddictload")], ["loaded value or error of each message"])
prop("C17", "Handler conditions: first match wins, and their failures follow the setting",
     "A type that is not one of the basictypes is always handled by the first handler in the list whose condition accepts it, wherever in the data the type or value occurs. A condition that raises (anything but a load error, or a TypeError, which inside of containers says that the data is bad) makes the call raise when raiseconditionerrors is on - never the selection of another handler or union member - and once the condition works again the same object behaves as a new one; when the setting is off, the condition counts as false and the call proceeds as if that handler were not there.",
     ["fault_sequences", "configurations"], "every position of the failing or matching handler, every kind of exception, every surrounding type, every sequence of failures and recoveries",
     "Tests cover one failing condition at top level.",
     [DL, DD], [("handler selection", "Loader.index, Dumper.index and every lookup in the handlers")], ["which handler ran; outcome of the call"])
prop("C18", "A load or dump may be used from inside another one",
     "Handlers, constructors, converters and input streams may call load() or dump() on the very object that is running them, to any depth and for any type, including failing calls whose error they catch: the inner call gives what it gives standalone, and the outer one gives the value, or the error with its path, that it gives when the inner calls are not made.",
     ["schedules", "histories"], "every point of the outer call at which an inner call can start, every combination of inner and outer types",
     "Tests make handlers that recurse on sub-values only.",
     [DL, DD], [("no per-call state on the object", "Loader.load, _iterload, Dumper.dump")], ["inner and outer outcomes"], LCACHE + DCACHE)
prop("C19", "A recursive type keeps resolving, whatever the loader met before",
     "A type whose forward references resolve on a brand new loader resolves on every loader, to the same types, whatever was loaded, failed to load or was interrupted on it before (as long as different types do not share a name), from any number of threads, at any depth of the data; and a name given by the user in frefs always wins.",
     ["histories", "schedules", "crash_points"], "every history and interleaving of loads that meet the recursive type first inside other types, first at top level, or first in a failing or interrupted load",
     "Tests load one recursive type at top level on a fresh loader.",
     [DL], [("name registration and resolution", "Loader.load, _forwardrefload")], ["outcome of loads of recursive types"],
     [("known names", "type name -> type", "Loader.frefs")])
prop("C20", "Every load and dump ends after work proportional to the data",
     "For any document, good or damaged, and any schema without nested ambiguous unions, load() and dump() come to an end after an amount of work that grows no faster than the size of the data times its depth: damage deep inside never makes the work explode, and when the damage is gone the next call succeeds within the same bound.",
     ["fault_sequences", "inputs"], "every depth, width and position of the damage, for every supported container and object type",
     "Tests load shallow data and do not count work.",
     [DL, DD], [("retry of a failed fast path", "_dictload"), ("error positions without re-reading", "_iterload, _tupleload")], ["number of interpreter instructions executed in the library"])
prop("C21", "Basic values are cast, or rejected, exactly as basiccast says",
     "With basiccast on, a value for a basic type is what calling that type on it gives, or an error; with basiccast off any value whose type is not the requested one is rejected.",
     ["inputs", "configurations"], "every value and basic type", "Infinite inputs; tests sample a few.",
     [DL], [("cast", "_basicload")], ["return value"])
prop("C22", "uniondebugconflict reports exactly the ambiguous values",
     "With uniondebugconflict on, loading into a union raises exactly when no member or more than one member accepts the value, and otherwise gives the value of the only member that does.",
     ["inputs", "programs"], "every union and value", "Tests have one ambiguous pair.",
     [DL], [("conflict count", "_unionload")], ["outcome of load"])
prop("C23", "Type predicates classify every supported annotation correctly",
     "Each is_* predicate accepts exactly the annotations it documents, for every spelling the typing module offers, and never raises.",
     ["programs"], "every annotation", "Tests enumerate some spellings.",
     [TC], [("predicates", "typechecks.py")], ["return value"])
prop("C24", "Every settings combination accepted by the constructors is honoured",
     "Any documented keyword given to Loader, Dumper, load() or dump() sets the attribute of that name and has the documented effect, in any combination.",
     ["configurations"], "every combination of settings", "Tests set one flag at a time.",
     [DL, DD, IN], [("keyword handling", "Loader.__init__, Dumper.__init__")], ["attributes; behaviour"])
prop("C25", "A long-lived loader or dumper keeps nothing of the data",
     "Once a load or dump has returned, raised or been interrupted, neither the object nor the modules of the library hold anything of the values given to it or returned by it: what they remember depends on the types and settings they have met, not on the data, so their state does not grow however many different documents, good or bad, keys, tags or strings pass through, in any number of threads.",
     ["histories", "crash_points", "schedules"], "every history of operations on ever different data, every instant of interruption and every interleaving of them",
     "Tests use an object a few times and never look at what it keeps; growth only shows over many operations with different data.",
     [DL, DD, EX], [("what is cached is per type", "Loader.__init__, Dumper.__init__, _unionload, _objloader, _dataclassdump")], ["state reachable from loaders, dumpers and modules after each operation"], LCACHE + DCACHE)

prop("C26", "A load or dump neither changes its process nor depends on its settings",
     "Importing the library, loading and dumping leave everything that the process shares as it was: settings of the interpreter (garbage collector, recursion limit, switch interval, digits of integers, hooks), filters of warnings, contexts of decimals, locale, environment, directory, time zone, random numbers, signals, logging, output, open files, threads, and the classes and functions of the standard library. This holds at any time other code can look (user callbacks, other threads) and however the call ends, including interruption at any instant and several calls in parallel; what the user changes meanwhile stays changed; and the outcome of a load or dump is the same under any of these settings that leaves it the stack and memory it needs (the documented deprecation warnings aside).",
     ["schedules", "crash_points", "configurations", "histories"], "every call, every instant of interruption, every interleaving and every setting of the process",
     "Tests run with one setting, one thread and no interruption, and look at no setting; a setting that is changed and restored only leaks when calls overlap or are cut short.",
     [DL, DD, EX, IN], [("no process wide state is touched", "Loader.load, Dumper.dump, every handler, module level of the library")], ["settings of the process seen before, during and after operations", "outcome of load or dump"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
