"""The property list: the one source of properties.jsonl and MANIFEST.json (see mkmeta.py)."""
PROPS = []
NOT_APPLICABLE = {}

LIB_NOTE = ("Every function of the group is called through the real compiled engine in several syntactic forms on thousands of generated argument "
            "tuples and compared with an independently written reference; trusts the reference and the stated tolerance; inputs are sampled, not exhausted.")


def prop(id, title, statement, over, forall, files, mechanism, observe_at, technique, note, why=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, files=files, mechanism=mechanism,
                      observe_at=observe_at, technique=technique, note=note, why=why, state=state))


def lib(id, title, statement, files, what, forall=None, extra=""):
    prop(id, title, statement, ["inputs"], forall or "all well-typed arguments, in every way the call can be written (direct, let-bound, in a user function, by reference)",
         files, [(what, files[0])], "value or error code returned by an engine whose action calls the function",
         "online differential oracle on engine executions" + extra, LIB_NOTE)


lib("L01", "Arithmetic, comparison, logic and bitwise operators compute exact values",
    "For every pair of numbers, +, -, *, /, //, % and %% return the mathematically defined result of the operator at the operands' common type, and a "
    "result outside the range of int or long is reported as the documented overflow error, never wrapped or silently rounded. Comparison operators, cmp, min and max "
    "implement one total Avro ordering on values of every comparable type (records, arrays, strings, bytes, enums, unions, NaN), so they agree with each other. Logical operators short-circuit and "
    "bitwise operators act on two's complement values.",
    ["titus/lib/core.py", "titus/datatype.py"], "operators and the comparison they share")
lib("L02", "Mathematical functions agree with their definitions over the whole domain",
    "For every argument, each function of the math, kernel, link and special-function libraries returns the value of its mathematical definition to close to double precision, "
    "including at zero, infinities, NaN and large magnitudes where the result overflows to infinity instead of failing. Functions restricted to a domain report their documented error exactly when the argument lies "
    "outside it, and integer-valued results are exact or reported as out of range.",
    ["titus/lib/pfamath.py", "titus/lib/link.py", "titus/lib/kernel.py", "titus/lib/spec.py"], "math, kernel, link and special functions")
lib("L03", "String functions act on characters exactly as specified",
    "For every string, including empty, repeated and non-ASCII ones, each string function returns what its documentation defines in terms of the string's characters: substring ranges with negative indices clip as documented, "
    "searches count non-overlapping or all positions as documented, and number formatting pads and rounds as documented. Joining inverts splitting. Invalid formatting requests give the documented error.",
    ["titus/lib/pfastring.py"], "string functions")
lib("L04", "Regular expression functions implement POSIX leftmost-longest matching",
    "For every haystack and valid extended regular expression, searching, grouping, splitting, replacing and counting agree with POSIX leftmost-longest matching, report positions in characters for strings and in bytes for bytes, "
    "and terminate, also when the pattern matches the empty string. An invalid pattern gives the documented error rather than a crash.",
    ["titus/lib/regex.py"], "regex engine wrapper")
lib("L05", "Conversions between types are lossless or report a documented error",
    "For every value, casts and parses return the value converted exactly as documented (rounding half up, modular wrapping for the fixed-width forms, parsing in the given base) or the documented error when it does not fit, never a wrong value. "
    "Encodings round trip: bytes to and from base64 and the text encodings, enum to and from string and int, values to and from their JSON and Avro forms. Imputation and error-on-missing functions change a value only when it is missing or invalid.",
    ["titus/lib/cast.py", "titus/lib/parse.py", "titus/lib/bytes.py", "titus/lib/enum.py", "titus/lib/fixed.py", "titus/lib/impute.py"], "conversion functions")

lib("L06", "Array functions compute what an index-by-index reading of them gives",
    "For every array (of any item type) and every argument, the a.* functions return exactly what their definitions say: access and replacement at positive and negative indexes, searches for items and sub-arrays, set operations without duplicates, "
    "stable sorting and selection of extremes with ties in index order, sums and products or the documented overflow error, quantiles, functional combinators that call the function in order and as often as needed, and restructuring. Every misuse gives the documented error.",
    ["titus/lib/array.py"], "array functions")

lib("L07", "Map functions treat maps as unordered and sets by value",
    "For every map (of any value type) and every argument, the map.* functions return what their definitions say whatever the order of insertion: access, update and removal by key, searches, set operations whose keys are the Avro encoding of the item "
    "(so equal items share one key and different items never collide), extremes with ties in key order, and functional combinators, with the documented errors for empty, negative or misaligned arguments.",
    ["titus/lib/map.py"], "map functions")

lib("L08", "Calendar functions agree with the Gregorian calendar and the time zone data",
    "For every timestamp between the years 1 and 9999 and every time zone, the time.* getters return the fields of the local civil time (microsecond rounding, week starting on Monday = 0), the range tests and isWeekend/isWorkHours follow from them, "
    "and makeTimestamp is their inverse (standard time when a local time occurs twice); unknown zones, bad ranges, impossible dates and out-of-range timestamps give their documented errors.",
    ["titus/lib/pfatime.py"], "time functions")

lib("L09", "Linear algebra, interpolation and metrics agree with exact arithmetic",
    "For every matrix and vector (dense arrays or sparse maps, whose missing entries are zero), la.* computes the elementwise maps, products, transposes, (pseudo-)inverses, traces, determinants, symmetry and eigenbases of its definition; "
    "for every table and point, interp.* picks the bin, nearest entry or straight line between the two closest entries; for every pair of vectors metric.* computes its distance with missing values reweighted; "
    "empty, ragged, misaligned, non-square and non-finite arguments give the documented errors, and no argument crashes the engine.",
    ["titus/lib/la.py", "titus/lib/interp.py", "titus/lib/metric.py"], "linear algebra, interpolation and metric functions")


lib("L10", "Distribution functions agree with the probability distributions they name",
    "For every distribution of prob.dist and parameters of ordinary size, the density (or log-likelihood) and the cumulative distribution equal their mathematical definition at every argument, inside, outside and at whole-number edges of the support, and the quantile function inverts the cumulative distribution: "
    "a continuous quantile has the requested probability up to it (to 5e-7, or 5e-4 standard deviations for the Gaussian's rational approximation), a discrete quantile is the whole number where the cumulative distribution crosses the request. Every call returns, degenerate parameters give point masses, "
    "and invalid parameters or inputs give their documented errors.",
    ["titus/lib/prob/dist.py", "titus/lib/spec.py"], "distribution functions", extra=" (reference values from scipy in a separate process)")

lib("L11", "Sample statistics equal the exact statistics of all the data seen",
    "For every history of updates, the running count, mean, variance and covariance of stat.sample equal the weighted statistics of all data (or of the data in the moving window) computed at once, smoothing and forecasting follow their recurrences with the cycle in step, "
    "histograms and counters put each weight into exactly the bin, flow or key its value belongs to (also next to bin edges, for infinities and NaN) and change nothing else, and topN keeps the best items in order. Change detection and tests of hypothesis return the value of their definition, "
    "with ties, empty samples and degenerate states handled. Other fields of a state record are kept, and every misuse gives the documented error.",
    ["titus/lib/stat/sample.py", "titus/lib/stat/change.py", "titus/lib/stat/pfatest.py"], "statistics functions", forall="all well-typed arguments; states reached by any history of updates")

lib("L12", "Random functions draw from their documented ranges and distributions",
    "For every choice of parameters, each draw of a rand.* function lies in its documented range (half-open intervals, items of the population, no repetition in samples, no zero-weight items, valid characters), and draws follow the documented distribution independently of each other: "
    "uniform, weighted or Gaussian. Every misuse gives the documented error.",
    ["titus/lib/rand.py"], "random functions", extra=" with distribution monitors (chi-square on long sequences of draws)")


lib("L13", "Decision trees route each datum by exactly the comparisons they hold",
    "For every datum, comparison and tree, model.tree tests answer what the operator says of the field's value and the tree's value, compared by their types (numbers as numbers, strings, enumeration order, records field by field, membership in a list), whichever union branch either is stored in and however it is tagged; "
    "missing values are detected or passed over exactly where they are null; a walk follows pass, fail or missing at each node and returns the first score it meets, whatever the type, name or namespace of nodes and scores and whether the tree was loaded or built in the engine; "
    "and every operator or value that can't be applied gives the documented error.",
    ["titus/lib/model/tree.py", "titus/signature.py"], "decision tree functions")

lib("L14", "Clusters and neighbors are the nearest ones by the metric in use",
    "For every datum and set of centers or points, model.cluster.closest(N) and model.neighbor.nearestK and ballR return exactly the nearest ones, the earlier first among equals, unchanged, by the Euclidean or the given metric; randomSeeds picks k different points of the data; a k-means step gives every datum to its nearest center and updates each center with exactly its own data, "
    "leaving empty clusters alone; means are the (weighted) means of their points; and empty, mismatched or negative arguments give the documented errors.",
    ["titus/lib/model/cluster.py", "titus/lib/model/neighbor.py"], "cluster and neighbor functions")

lib("L15", "Regression, naive Bayes, neural network and SVM scores equal their formulas",
    "For every model and datum, model.reg.linear and linearVariance are the affine and quadratic forms of their (dense or sparse) coefficients, gaussianProcess is the kriging prediction of the normalized table with the given or the optimal weight, model.naive.* are the log-likelihoods of the (normalized) model, "
    "model.neural.simpleLayers applies each layer and the activation between layers only, model.svm.score sums kernels over all support vectors, and the older hypothesis tests of model.reg equal their definitions; empty, misaligned or non-finite arguments give the documented errors and nothing is changed in place.",
    ["titus/lib/model/reg.py", "titus/lib/model/naive.py", "titus/lib/model/neural.py", "titus/lib/model/svm.py"], "model functions")

CORE_NOTE = "Trusts the reference interpreter (vlib/lang.py), written from the language documentation; programs and inputs are sampled, not exhausted."
SEED_STATE = None

prop("C03", "Every well-typed document computes what the language definition says",
     "For every well-typed document and history of calls, the engine's results, error codes, emitted and logged values are those the PFA language defines: expressions are evaluated in order, variables follow lexical scope, "
     "set changes the variable of the scope that declared it, branches and loops run the right bodies the right number of times, type casts choose the case of the value's runtime type, user and library functions behave the same called directly, "
     "by reference or partially applied, and pack and unpack follow the stated binary layout.",
     ["inputs", "histories"], "all well-typed documents and input sequences",
     ["titus/genpy.py", "titus/pfaast.py", "titus/util.py", "titus/reader.py"], [("code generation and run-time helpers", "titus/genpy.py"), ("scopes, function calls", "titus/util.py")],
     "method results, error codes, emit and log callbacks, engine.cells, engine.pools, engine.tally", "online differential monitor: random programs run on the engine and on an independent reference interpreter",
     CORE_NOTE, why="tests run a fixed set of small documents; scoping, evaluation order and clause selection fail only in combinations")

FUZZ = "online monitor over random programs run beside an independent reference interpreter"

prop("C01", "Expression values always have their static type; only PFA errors escape",
     "Whenever a document is accepted, evaluating any of its expressions on any input yields a value of the type the compiler gave that expression, and a call either returns a value of the declared output type or fails with one of "
     "PFA's own runtime, user or timeout errors, never with a Python exception such as KeyError, ZeroDivisionError or TypeError. This includes calls of library functions with boundary arguments.",
     ["inputs", "histories"], "all well-typed documents, inputs and library arguments", ["titus/genpy.py", "titus/pfaast.py", "titus/signature.py", "titus/fcn.py"],
     [("static types given by walk", "titus/pfaast.py"), ("signature resolution", "titus/signature.py")], "every subexpression's value, checked in the generated code", "type sanitizer woven into the generated code, run over random programs and every library function", CORE_NOTE,
     why="tests check final results of chosen documents, not the type of every intermediate value")
prop("C02", "Values are immutable: nothing handed out or stored changes afterwards",
     "No operation changes a value in place: inputs given to an engine, values it returned, emitted or logged, values held by cells, pool items and the tally, and arguments of library functions keep exactly the value they had when first seen, "
     "whatever the engine does later. Updating a cell, pool item, array, map or record creates a new value.",
     ["histories"], "all documents, histories and library calls", ["titus/genpy.py", "titus/lib/"], [("update paths", "titus/genpy.py"), ("library functions that build new containers", "titus/lib/array.py")],
     "live objects kept by the monitor", "aliasing sanitizer: pictures of live values compared after every later call", "Pictures are exact; values are those that random programs and library tables produce.",
     why="an in-place change is seen only by a later read through another reference")
prop("C04", "Cells and pools change atomically at the given path and roll back on errors",
     "cell-to and pool-to replace exactly the item at the given path by the value, or by the function's result on the old item, and return the new cell or pool item; a missing array index or map key gives the documented error and leaves the "
     "slot as it was, as does a function that fails; pool-to starts missing items from init and pool-del removes an item. When a call fails, every cell and pool declared rollback has the value it had when the call began, and no lock stays held.",
     ["histories", "faults"], "all documents, paths, histories and failing calls", ["titus/genpy.py"], [("Cell, Pool and update", "titus/genpy.py")], "engine.cells, engine.pools and instrumented locks after every call", FUZZ + " with instrumented locks", CORE_NOTE,
     why="needs sequences of updates with failures in the middle of them")
prop("C06", "Engine instances share only what is declared shared",
     "Instances of one document built together share exactly the cells and pools declared shared (or those in an explicitly given shared state) and nothing else: private slots, tallies and counters of one are unaffected by any other, "
     "and engines built from different documents or separate builds do not affect each other at all. Each instance reports its own instance number.",
     ["histories", "schedules"], "all interleavings of calls on several engines", ["titus/genpy.py"], [("PFAEngine.fromAst", "titus/genpy.py")], "every engine's state after every call on any of them", FUZZ + ", several engines interleaved", CORE_NOTE,
     why="needs several engines run alternately")
prop("C07", "A snapshot resumes with the engine's state and is independent of it",
     "The document produced by snapshot() at any point of a history is accepted as a document, also as JSON text, and the engine built from it has in every cell and pool the values of the original at that point, behaves from then on like an engine "
     "whose slots started with these values, and never influences, nor is influenced by, the original.",
     ["histories", "crash-points"], "all documents and points in their histories", ["titus/genpy.py", "titus/pfaast.py"], [("snapshot", "titus/genpy.py")], "slots of the resumed engine and both engines' later results", FUZZ + ", resumed from snapshots at random points", CORE_NOTE,
     why="depends on the value held when the snapshot is taken")
prop("C08", "map, emit and fold methods, counters and input checking behave as defined",
     "A map engine returns the action's value, an emit engine calls the emit callback exactly once per emit in evaluation order and during the call, a fold engine returns and stores the new tally, which a failing call leaves unchanged, and merge combines "
     "two tallies. actionsStarted and actionsFinished count begun and successful actions; begin and end see name, version, metadata and instance. A datum that is not of the input type is refused and changes nothing.",
     ["histories"], "all documents and call histories, with failing calls and ill-typed data", ["titus/genpy.py", "titus/datatype.py"], [("generated begin/action/merge/end", "titus/genpy.py"), ("checkData", "titus/datatype.py")],
     "results, callbacks, tally and counters after every call", FUZZ, CORE_NOTE, why="needs long histories with failing calls")
prop("C09", "Text, YAML, numbered JSON, syntax tree and engine express the same document",
     "Reading a document from JSON text (compact, indented, with line numbers or with reordered fields), from parsed JSON or from YAML gives equal syntax trees; writing a tree as JSON and reading it back loses nothing, and engines built by any of "
     "these routes behave alike. Collecting over a tree sees every node written in the document, and replacing nodes by a partial function changes exactly the nodes where it is defined, in every section.",
     ["inputs"], "all documents and routes", ["titus/reader.py", "titus/pfaast.py"], [("jsonToAst, yamlToAst", "titus/reader.py"), ("toJson, collect, replace", "titus/pfaast.py")],
     "trees, their JSON and the behaviour of the engines made from them", FUZZ + ", carried through every route", CORE_NOTE, why="each node type has its own hand-written reader, writer, collect and replace")
prop("C10", "PrettyPFA text means exactly the document it denotes",
     "Parsing PrettyPFA text yields the syntax tree of the document it denotes, for every notation, layout, comment placement, line ending and section order, with operators grouped by the stated precedence and associativity and subscripts binding tightest; "
     "substitutions given as text, JSON or trees, filled in while or after parsing, stand for the same expression in place. Engines built from the text behave like those built from the document, and nodes carry the lines they were written on.",
     ["inputs"], "all PrettyPFA texts and substitutions", ["titus/prettypfa.py"], [("Parser", "titus/prettypfa.py"), ("MiniAst classes", "titus/prettypfa.py")], "syntax trees of parsed texts and behaviour of engines made from them",
     "random documents written by an independent PrettyPFA writer, parsed and compared; " + FUZZ, CORE_NOTE, why="notations combine: precedence, nesting and the role of a name depend on context")
prop("C05", "Concurrent engines sharing cells and pools lose no update and see no torn value",
     "However threads interleave, operations of engines that share cells or pools (instances of one document, or documents given the same SharedState) are atomic per cell and per pool item: reads, replacements, function updates, deep-path "
     "updates, deletions and snapshots have results explained by some sequential order that respects real time; a failing update changes nothing and releases its lock; no schedule deadlocks. Engines that share nothing, library calls, and "
     "documents being read and compiled at the same time do not influence each other.",
     ["interleavings", "inputs", "faults"], "all schedules of engine calls, one thread per engine", ["titus/genpy.py", "titus/prettypfa.py"], [("Cell, Pool, update, PFAEngine.snapshot", "titus/genpy.py"), ("Parser", "titus/prettypfa.py")],
     "results of concurrent calls, final state of cells and pools, lock ownership, acquisition order",
     "seeded cooperative line-level scheduler over real threads, instrumented locks, linearizability checker, free-running stress with minimal switch interval",
     "Samples schedules with preemption at lines of the engine and lock operations; not all are enumerated.", why="lost updates need a switch between the read and the write of one particular operation")
prop("C11", "Only well-formed, well-typed documents become engines, and those run",
     "A document (JSON, YAML or PrettyPFA text, or data) that is not well formed or not well typed - an undefined or misplaced symbol, function, cell, pool or type; arguments a signature or callback does not accept; results that do not fit; unknown, missing or misused "
     "keys and sections; out-of-range or misencoded literals; incomplete casts - is refused with one of PFA's syntax, semantic, initialization, PrettyPFA or Avro schema exceptions, wherever it stands in the document. Whatever is accepted runs: on any input its calls end with a value, "
     "a PFA runtime or user error or a timeout, never with a Python failure, and every expression's value is of its static type.",
     ["inputs"], "all documents and texts, right or wrong", ["titus/reader.py", "titus/pfaast.py", "titus/signature.py", "titus/prettypfa.py", "titus/datatype.py", "titus/genpy.py"], [("jsonToAst, yamlToAst", "titus/reader.py"), ("walk", "titus/pfaast.py"), ("Sig.check", "titus/signature.py"), ("Parser", "titus/prettypfa.py")],
     "exceptions raised while documents are read and compiled; values of all expressions of accepted ones",
     "structure-aware damage to random well-typed documents, insertion of statements and sections that are wrong everywhere, damage to texts; monitor for foreign exceptions and acceptance, type sanitizer on what is accepted",
     "Samples damaged documents; which random damage is wrong is not judged (it must be refused properly or run), the inserted statements are.", why="a gap in type checking shows only where a particular ill-typed construct meets a particular context")
prop("C12", "Type acceptance, common types and signature resolution follow PFA",
     "Wherever a value of one type flows into a place of another (assignments, cells, arguments, results, outputs) the document is accepted exactly if every value of the first is one of the second by PFA's promotion and Avro's resolution rules; values then have the type of the place. "
     "The branches of a conditional, and arguments that share a type variable, get the least common type, independent of their order. A library function is applied exactly if one of its signatures fits the argument types, with callbacks contravariant, and then has the substituted return type. "
     "Types do not depend on notation or on the order of declarations, and what is printed reads back as the same type.",
     ["inputs"], "all Avro types and argument lists", ["titus/datatype.py", "titus/signature.py", "titus/P.py", "titus/pfaast.py"], [("AvroType.accepts", "titus/datatype.py"), ("ForwardDeclarationParser", "titus/datatype.py"), ("LabelData.broadestType, Sig.accepts", "titus/signature.py")],
     "accept/refuse answers, resolved parameter and return types, printed types, values that flow in accepted documents",
     "differential monitor against an independent reference type system over families of related random types, every library signature with exact, perturbed and foreign arguments, and documents through which values flow",
     "Types are sampled, unions of up to 5 members; questions that depend on the order in which unions of several enums are merged are not judged.", why="types nest without bound; acceptance is a relation on pairs of types")
prop("C13", "Avro data keep their values through JSON, files, engines and ordering",
     "For every Avro type and datum: decoding and encoding JSON are inverse and fill in defaults, and data not of the type are refused, never altered or crashed on; a datum given to an engine in any accepted spelling (tagged or not, numpy, bytes or text) is the same value inside; "
     "data read from an Avro file by avroInputIterator and data written by avroOutputDataFileWriter are the values in the file, union members included; compare is the Avro order of the type.",
     ["inputs"], "all Avro types and data", ["titus/datatype.py", "titus/genpy.py"], [("jsonDecoder, jsonEncoder, compare, checkData", "titus/datatype.py"), ("avroInputIterator, avroOutputDataFileWriter", "titus/genpy.py")],
     "decoded, encoded and compared data, results of identity engines, bytes of the files", "differential monitor against an independent Avro implementation over random types and data, with spoilt data",
     "Types and data are sampled; the Avro reference is ours.", why="types nest without bound and every member of a union interacts with the others")
prop("C14", "try catches exactly the listed errors; all other errors propagate unchanged",
     "An error raised by the error form or by a failing operation stops evaluation at that point and reaches the caller with its message and code, unless an enclosing try without filter, or with a filter naming its message or code, replaces the expression's "
     "value with null; effects made before the error persist in variables, logs, emits and non-rollback slots. Timeouts are never caught.",
     ["inputs", "faults"], "all documents and inputs", ["titus/genpy.py", "titus/errors.py"], [("tryCatch, error", "titus/genpy.py")], "results, error messages and codes, state after the call", FUZZ, CORE_NOTE,
     why="filter matching, nesting and partial effects combine")
prop("C15", "Seeded documents replay exactly; engines have random streams of their own",
     "For every document with a randseed, the i-th engine made from it produces the same results, logs, errors and state for the same history every time: in whatever notation the document was read, however many siblings it has, whatever other engines and the host's own random numbers do in between, from a snapshot, and in another process. "
     "Different instances, different seeds and documents without a seed draw from unrelated streams.",
     ["histories", "schedules"], "all documents that draw random numbers, and histories", ["titus/genpy.py", "titus/lib/rand.py"], [("PFAEngine.fromAst: one random.Random per engine", "titus/genpy.py")],
     "results, logs, emitted values, errors and state of each engine",
     "metamorphic trace monitor: whole event traces of replayed, interleaved, re-notated, snapshotted and other-process engines compared", "Randomness itself is checked by L12; documents and histories are sampled.", why="tests compare three numbers of one engine; sharing shows only with several")
prop("C16", "Call graphs are complete, and updaters that could deadlock are refused",
     "For every document, the call graph lists for each function and each part of the document exactly the functions it may call and the state it may change, wherever in an expression the call is written, and calledBy, callDepth, isRecursive, hasRecursive and hasSideEffects follow from that graph. "
     "A document is refused exactly if a function that updates a cell or pool in place could itself change a cell or pool, directly or through what it calls; so no accepted document ever asks for a lock it already holds or takes locks in conflicting orders, and none stays held after a call.",
     ["inputs", "schedules"], "all documents", ["titus/genpy.py", "titus/pfaast.py"], [("checkForDeadlock, callGraph queries", "titus/genpy.py"), ("calls collected by walk", "titus/pfaast.py")],
     "acceptance, engine.callGraph and the queries on it, locks requested and held while the document runs",
     "random documents whose call graph is known by construction, compared with the engine's, then run under instrumented locks (self-deadlock and lock-order monitor)",
     "Documents are sampled (up to 5 functions). One known finding: effects reached only through a call by name are not seen.", why="a call can hide in any of forty positions of an expression; tests have a handful")
prop("C17", "A run past its time limit stops at the next loop iteration, state rolled back",
     "For every document with a time limit, begin, action and end stop with a timeout error at the first start of a loop iteration after the limit of that section has passed, and not before, with whichever clock readings happen in between; try does not catch it. An aborted action leaves the rollback cells and pools as before the call and counts as attempted but not successful, and the engine can be used again with a fresh limit. "
     "Documents without a limit are never interrupted, and a host's maximum limit lowers the document's own.",
     ["inputs", "faults", "histories"], "all loop nests and all times at which the limit passes", ["titus/genpy.py", "titus/pfaast.py", "titus/options.py"], [("timeouts", "titus/genpy.py")],
     "log of host callbacks, result or error, state and counters after the call",
     "virtual clock under the harness's control, random loop nests, trace compared with a reference interpreter that knows which iteration may not start",
     "Only loops are interrupted (as documented); recursion and library callbacks are not judged.", why="the point at which the limit passes is a schedule; tests only use endless loops")
prop("C18", "Cells and pools load from external files, and documents keep pointing to them",
     "A cell or pool whose source is json or avro starts with exactly the value in the file or URL that init names, in every engine made from the document and in every notation, as if it had been embedded; a file that is missing or does not hold a value of the type gives no engine. "
     "The document still names the file when written out and read again; engines never change the file nor see it change later; shared state is not loaded again; a snapshot holds the current values and needs no file.",
     ["inputs", "histories"], "all types, values, notations and histories", ["titus/pfaast.py", "titus/reader.py", "titus/prettypfa.py", "titus/genpy.py"], [("cell and pool sources", "titus/reader.py"), ("initJsonNode, jsonNode", "titus/pfaast.py")],
     "engine.cells and engine.pools at each step, the written document, the files",
     "state monitor over random documents whose files are written by an independent JSON and Avro writer, changed and removed while engines live", "File and file:// sources; http is not exercised.", why="no test loads anything but an embedded value")

prop("T01", "A chain of documents computes what its steps, fed from one another, compute",
     "For every list of documents in which the output of each fits the input of the next, the chain made by titus.producer.chain.ast/engine or by pfachain gives, for every stream of inputs, the results, emitted values, logs and errors that the steps give when each is run on the values its predecessor produced (the result of a map step; every value an emit step emits, in order). "
     "Cells, pools, functions, types, begin and end of each step stay its own whatever names the steps have in common; a list whose types do not fit is refused.",
     ["inputs", "histories"], "all lists of documents whose types fit, and all input streams", ["titus/producer/chain.py", "scripts/pfachain"], [("ast, engine", "titus/producer/chain.py"), ("pfachain", "scripts/pfachain")],
     "results, emitted values, log lines, errors and state of the chained engine after every call",
     "differential monitor: the engine of the chain beside one reference interpreter per step, wired together as the chain says; random documents with clashing names",
     "Steps are sampled (chains of 1 to 4 documents, map and emit). Fold steps (refused by the program), cells with external sources and functions chosen by an enum (both documented as not supported) are left out.",
     why="every pair of methods, begin/end sections, name clash and type renaming combines; tests have a handful of chains")

prop("T02", "Trees and clusters made from data are the ones their definitions ask for",
     "For every dataset, titus.producer.cart grows a tree in which every split is the one of largest gain (entropy for categories, n times variance for numbers) among those the options allow, that leaves data on both sides, stops exactly where its options say, and puts each datum in the leaf its split conditions lead to; the numbers it keeps about nodes follow from the data in them. "
     "titus.producer.kmeans' iterations assign every datum to a closest cluster, move clusters to the (weighted) means of their data, and stop when and only when its stopping condition holds. The documents both make, run in an engine, give for every input what the model itself says, and never fail on data like the ones they were made from.",
     ["inputs", "histories"], "all datasets, options, stopping conditions and seeds", ["titus/producer/cart.py", "titus/producer/kmeans.py"],
     [("TreeNode, Dataset", "titus/producer/cart.py"), ("KMeans, stopping conditions", "titus/producer/kmeans.py")],
     "nodes of the tree and state of the clusters after every iteration; scores given by the engine of the document made",
     "monitors on the real builders: brute force over all splits, recomputed assignment and means after every iteration, differential run of the document made",
     "Datasets are small (up to some dozens of rows) so that all splits can be tried. Near ties of gains and of distances are accepted either way. A tree that never splits has no document (refused).",
     why="the algorithms are greedy and iterative, and depend on ties, empty clusters, single categories and constant columns that a handful of datasets never has")

prop("T03", "Converted Python programs and formulas compute in PFA what they say",
     "For every program in the part of Python that titus.producer.expression knows, the PFA made of it gives, for every input, the value, log lines, cell contents and user errors that Python gives when running it; a construct without equivalent is refused, never converted into something else. "
     "For every set of formulas, titus.producer.transformation computes the same columns with Numpy, in every kind of dataset it takes, as an engine does with the PFA it makes of them (new, let, expr), leaving the dataset as it was.",
     ["inputs"], "all programs of the convertible part of Python, all formulas, datasets and inputs", ["titus/producer/expression.py", "titus/producer/transformation.py"],
     [("pfa", "titus/producer/expression.py"), ("Transformation", "titus/producer/transformation.py")],
     "value, log, cell and error of an engine of the converted program beside Python's; columns computed by Numpy beside the engine's",
     "differential monitor: random programs run by Python and, converted, by the engine; random formulas run by Numpy, by the engine and by their definitions",
     "Programs are sampled to a depth of about four; integer overflow and the sign of zero are left out, where the languages differ by definition.",
     why="every combination of statements, operators, scopes and types may be converted differently; tests convert single lines")

prop("T04", "Searching and editing documents finds every match and touches nothing else",
     "For every JSON document and every pattern of titus.producer.tools, search and the functions made of it give exactly the parts that the pattern describes, with their indexes, substitutions and groups, in one order. assign, remove and assignAt change exactly the parts named; the copying forms and look leave the document as it was, and copies share nothing with it. "
     "What look prints, without ellipses, reads back as the document, each line with the index of its part.",
     ["inputs"], "all documents, patterns, indexes and options", ["titus/producer/tools.py"], [("getmatch, search, assign, look", "titus/producer/tools.py")],
     "matches, documents after changes, printed lines",
     "differential monitor: random documents and patterns against definitions of matching, changing and showing written apart from the code, with checks of aliasing by changing every copy",
     "Left out: replacing a match that is the whole document in place (refused), and regular expressions (Python's re is trusted).",
     why="patterns nest and combine freely, and documents are nested arbitrarily; aliasing shows only when a copy is changed later")
