NA = {}
MEM = "Trusts the sanitizers, the model in the check and, for code above the wire layer, the shims that stand in for absent third-party libraries. Generated-input search: it never establishes absence."

COSIM = "Default time policy, one root broker for message traffic, chains of at most one interruptible federate between a source and a federate it can wake (the documentation excludes deeper chains), single process; iteration, wait-for-current-time and real sockets are in other checks or out of scope. "
prop("C01", "Every time grant keeps the documented contract",
     "A federate that requests a time is granted one (no request waits for ever while the federates it depends on keep requesting or finish), the times granted to it strictly increase, are never before its next possible time (granted time plus time delta or period), lie on the grid given by its period and offset, and are never later than the request (moved up to that grid). It is granted an earlier time than the one requested only if it can be interrupted and a value or message becomes available to it then, in which case it sees something new; and it is never granted a time past one at which a value or message would interrupt it. An uninterruptible federate is granted exactly its request moved to its grid.",
     ["histories", "schedules", "inputs"], "every federation, timing configuration, request history and thread schedule within the documented reach of the default time policy",
     "System tests run a few fixed federations; a grant too early, too late or off the grid needs particular combinations of period, offset, delta, delays and concurrent requests.",
     ["src/helics/core/TimeCoordinator.cpp", "src/helics/core/TimeDependencies.cpp", "src/helics/core/ForwardingTimeCoordinator.cpp", "src/helics/core/FederateState.cpp"],
     [("allowed times and execution time", "TimeCoordinator.cpp generateAllowedTime, updateNextPossibleEventTime"), ("grant decision", "TimeCoordinator.cpp checkTimeGrant"), ("minimum over dependencies", "TimeDependencies.cpp")],
     "Generated federations run on real cores and brokers under schedule noise; the oracle knows when each value and message was sent and what that allows. " + COSIM + MEM,
     "property-based testing of generated co-simulations against a timing oracle")

prop("C02", "Values arrive when they are due, never before and never out of order",
     "At every granted time an input shows the latest value that was published to it with an effective time (time of the publisher plus its output delay) before that time, and at the granted time itself as documented (when the grant came early); never one of a later time, never a value that was not published to it, never an older one after a newer one, and its default before the first one. An input reports an update exactly when it shows something newer than at the grant before, with the granted time as the time of the last update. Values published while initializing are there on entering execution.",
     ["histories", "schedules", "inputs"], "every federation, way of connecting, timing configuration, publication history and thread schedule within the documented reach of the default time policy",
     "Unit tests send a few values with one or two federates; the delivery rule is a statement about all interleavings of publications and requests.",
     ["src/helics/core/FederateState.cpp", "src/helics/core/InputInfo.cpp", "src/helics/core/TimeCoordinator.cpp", "src/helics/core/CommonCore.cpp"],
     [("input queue and update by time", "InputInfo.cpp updateTimeInclusive, updateTimeUpTo"), ("publication routing", "CommonCore.cpp setValue, CMD_PUB")],
     "As C01, values carry their origin and number so that each one seen is identified. " + COSIM + MEM,
     "property-based testing of generated co-simulations against a delivery oracle")

prop("C03", "Messages arrive exactly once, in order, on time and as addressed",
     "Every message sent to an endpoint (to a stated or the default destination, with or without a stated time) is received there exactly once and nowhere else, not before its time (the later of the stated time and the time of the sender plus its output delay), and at the first grant after that time; with its data, time, source, original source and destination intact. Messages come in the order of their times, and those of one sender with one time in the order they were sent. Messages sent while initializing are there on entering execution.",
     ["histories", "schedules", "inputs"], "every federation, timing configuration, message history and thread schedule within the documented reach of the default time policy",
     "Tests exchange a few messages; loss, duplication and late delivery depend on concurrent requests of several federates.",
     ["src/helics/core/EndpointInfo.cpp", "src/helics/core/CommonCore.cpp", "src/helics/core/FederateState.cpp", "src/helics/core/CoreBroker.cpp"],
     [("message queue by time", "EndpointInfo.cpp"), ("routing", "CommonCore.cpp sendToAt, deliverMessage; CoreBroker.cpp fillMessageRouteInformation")],
     "As C01, each message is identified. Federates that a message wakes do not answer at once (known findings). " + COSIM + MEM,
     "property-based testing of generated co-simulations against a delivery oracle")

prop("C05", "What a co-simulation shows does not depend on topology, transport or schedule",
     "For a federation in which no two federates are ever at the same time, everything a federate sees (the times granted, the values and update marks of its inputs, the messages of its endpoints at each grant) is a function of the federates alone: it is the same for every arrangement of cores and brokers, core type, start order, use of synchronous or asynchronous calls, way of connecting and thread schedule, and equal to what a sequential event simulation of the federates gives.",
     ["histories", "schedules", "inputs"], "every tie-free federation with every topology and schedule",
     "A test has one topology and whatever schedule it meets; this is a statement that quantifies over both.",
     ["src/helics/core/TimeCoordinator.cpp", "src/helics/core/ForwardingTimeCoordinator.cpp", "src/helics/core/CoreBroker.cpp", "src/helics/core/CommonCore.cpp", "src/helics/network"],
     [("forwarding of time requests", "ForwardingTimeCoordinator.cpp"), ("grant decision", "TimeCoordinator.cpp")],
     "Differential test against a sequential simulator written from the documented semantics. " + COSIM + MEM,
     "differential property-based testing against a sequential reference simulator")

prop("C12", "Message and value buffers keep exactly the bytes they were given",
     "A byte buffer used for values and messages always holds exactly the bytes that the sequence of operations on it (construction, assignment, append, resize, copy, move, swap, push/pop, release, borrowing or taking over memory) put there, with matching size and a capacity of at least that size. Every allocation it owns is released exactly once, borrowed memory is never freed or written past its stated capacity, two buffers never share storage, and an operation that fails (locked buffer, impossible size, bad range, index out of range) throws and leaves the content unchanged. A locked buffer never moves or grows its storage.",
     ["histories", "inputs"], "every sequence of buffer operations with every content and size around the inline capacity",
     "The unit tests run single operations or pairs on a few sizes; the state (inline, heap, borrowed, locked) of two buffers crossed with the operation order is not covered.",
     ["src/helics/core/SmallBuffer.hpp"], [("inline storage / heap / borrowed state flags", "SmallBuffer.hpp")],
     "Model-based histories compared byte for byte after every step under ASAN/UBSAN with allocation counting. " + MEM,
     "stateful property-based testing against a byte-string model")

prop("C13", "Identifiers of federates, brokers, interfaces and routes never alias",
     "Identifiers compare, order, hash, copy, print and pack into a single key faithfully: two identifiers are equal exactly when their raw values are equal, and a default-constructed identifier is invalid and different from every assigned one. Federate and broker identifiers are disjoint ranges, the special federates of any two brokers (root included) never share an identifier with each other or with a reserved constant, and a route keeps both its type code and its index.",
     ["inputs"], "every pair of 32-bit raw values and every set of brokers",
     "Existing tests build a handful of identifiers; aliasing shows only at range boundaries, for reserved values or for particular broker sets.",
     ["src/helics/core/LocalFederateId.hpp", "src/helics/core/LocalFederateId.cpp", "src/helics/core/GlobalFederateId.hpp"],
     [("comparison, hash, range predicates, packing", "GlobalFederateId.hpp, LocalFederateId.hpp"), ("text output", "LocalFederateId.cpp")],
     "Random and boundary raw values through every identifier type. " + MEM, "property-based testing of algebraic laws")

prop("C15", "Pending connections are never lost, invented or misattributed",
     "Every requested connection to an interface that does not exist yet (by name, kind, requester and option flags), every pending link and every reconnection request stays recorded until it is resolved, cleared by name, cleared with its federate or cleared by a caller's criterion, and nothing else is removed with it. Queries by name and kind, the 'any / any non-optional / any required remaining' answers and the enumerations report exactly the recorded requests, with the right kind and the right optional/required classification, however many requests share a name.",
     ["histories"], "every history of adding, linking, resolving and clearing over shared names, kinds and federates",
     "No reliable test exercises this registry at all; system tests hit one missing interface at a time.",
     ["src/helics/core/UnknownHandleManager.cpp", "src/helics/core/UnknownHandleManager.hpp", "src/helics/core/CoreBroker.cpp"],
     [("per-kind multimaps and flag tests", "UnknownHandleManager.cpp")],
     "Model-based histories, all observers compared after each step. " + MEM, "stateful property-based testing against a list model")

prop("C16", "Profiling records reach their file exactly once, in order",
     "Every non-empty profiling record added to a buffer is written exactly once, in the order added, each on its own line, to the file selected when it is written, also when the buffer is destroyed with records pending. Selecting a file truncates it unless appending was asked for, existing content is otherwise never lost, and records that could not be written (no file, unwritable file) are reported as a failure and kept for the next write.",
     ["histories", "fault_sequences"], "every history of adding, selecting files, writing (also to unwritable files) and destroying, over several buffers and files",
     "No reliable test writes a profile; append/truncate, repeated writes and failed writes are unsampled.",
     ["src/helics/core/ProfilerBuffer.cpp", "src/helics/core/ProfilerBuffer.hpp"], [("write and file selection", "ProfilerBuffer.cpp")],
     "Model-based histories comparing bytes on disk after every step. " + MEM, "stateful property-based testing against a file model")

prop("C19", "Messaging contexts are shared by name and socket names resolve correctly",
     "Asking for a messaging context by name always gives the same running context until that name is closed, from any number of threads; closing one name affects no other name, a context that is still held stays usable after its name is closed, and the setters of its clean-up mode report whether the name exists. Every documented socket type name, in any letter case, resolves to that socket type.",
     ["histories", "schedules", "inputs"], "every history of get/start/close/configure/use over several names, threads racing for one name, every letter case of every socket name",
     "The network tests open one default context; names, closing while held and races are not sampled.",
     ["src/helics/network/zmq/ZmqContextManager.cpp", "src/helics/network/zmq/ZmqHelper.cpp"],
     [("locked name to context map", "ZmqContextManager.cpp"), ("socket name table", "ZmqHelper.cpp")],
     "Model-based histories with real sockets. " + MEM, "stateful property-based testing against a name-to-context model")

prop("C11", "The wire protocol carries every command losslessly and rejects damaged ones",
     "Every command (action code, identifiers, times, counters, flags, payload, strings, nested commands) written in any serial form (binary, packetized, JSON, by a machine of either byte order, split or concatenated in a stream) is read back equal, consuming exactly the bytes it occupies; a prefix of it is never taken for a whole command. No byte sequence from the network makes the reader crash, read or write out of bounds, loop or recurse without bound. Messages converted to commands and back keep every field; flags are independent of each other; the command classes (priority, error, protocol, query, ...) hold exactly for their documented codes.",
     ["inputs"], "every command and every byte sequence",
     "Tests serialise some tens of fixed commands; boundary sizes, byte order, truncated or hostile input are outside them.",
     ["src/helics/core/ActionMessage.cpp", "src/helics/core/ActionMessage.hpp", "src/helics/core/ActionMessageDefintions.hpp", "src/helics/core/flagOperations.hpp"],
     [("toByteArray/fromByteArray, packetize/depacketize, JSON form", "ActionMessage.cpp"), ("command codes and flags", "ActionMessageDefintions.hpp, flagOperations.hpp")],
     "Round trip against an independent encoder written from the wire layout, mutation fuzzing of valid encodings. " + MEM,
     "property-based round-trip testing and mutation fuzzing against an independent encoder")

prop("C17", "Every documented name means the same thing everywhere",
     "Each documented name of a core type, property, flag, option, option value and data type resolves, in every documented letter case or spelling and through the C and the C++ interface, to its documented code, no two names of different meaning share a code, and a name that is not documented resolves to the invalid code. Default ports, addresses and network prefixes are those of the core type, distinct for concurrently used types, and canonical name -> code -> name is the identity.",
     ["inputs"], "every documented name in every letter case and near misses of it",
     "Tests check a few spellings of a few names; a wrong or missing table entry is silently 'unknown option'.",
     ["src/helics/application_api/typeOperations.cpp", "src/helics/network/networkDefaults.cpp", "src/helics/network/networkDefaults.hpp", "src/helics/core/coreTypeOperations.cpp", "src/helics/application_api/HelicsPrimaryTypes.cpp", "src/helics/helics_enums.h"],
     [("name tables", "typeOperations.cpp, coreTypeOperations.cpp, helicsTypes.cpp"), ("default ports and interfaces", "networkDefaults.cpp")],
     "Tables in the check restate the documentation (docs/references/configuration_options_reference.md and helics_enums.h). " + MEM,
     "property-based testing against tables restated from the documentation")

prop("C09", "A value published as one type and read as another is the documented conversion of it",
     "Every value of every type (double, integer, complex, vector, complex vector, string, named point, boolean, char, time, JSON) written in its own encoding or in the encoding of any other declared type, and read back as any type by any of the reading paths (typed extraction, the stored variant, the C++ value converter), gives the documented conversion of the original: the identity where the types can represent each other, and otherwise the fixed rule (norm of vectors, real part with zero imaginary part, number text, name/value pair, truth value). The result never depends on the path taken, on what the target held before, or on the sender's byte order; change detection with a tolerance reports exactly the changes beyond it.",
     ["inputs"], "every value, every pair of types and every path from one to the other",
     "The unit tests convert some tens of hand-picked values; zero, empty, negative, non-finite and non-ASCII values, exponents, and re-used targets are where conversions go wrong.",
     ["src/helics/application_api/ValueConverter.hpp", "src/helics/application_api/HelicsPrimaryTypes.cpp", "src/helics/application_api/helicsTypes.cpp"],
     [("typed encode/decode", "ValueConverter.hpp"), ("conversion tables", "HelicsPrimaryTypes.cpp"), ("text forms and cross-type conversion", "helicsTypes.cpp")],
     "Round trips and differential comparison of reading paths against a reference conversion table in the check. " + MEM,
     "property-based round-trip and differential testing against a reference conversion table")

prop("C10", "Malformed text and bytes from other federates are read without harm",
     "No text or byte sequence received as a value (a number, complex number, vector, named point, time, JSON or configuration text, or a binary encoding that is cut, altered or arbitrary) makes reading it as any type crash, read out of bounds, throw an undocumented exception, hang, or produce more elements than the text can hold; it gives a value or the documented invalid value. Well-formed times with units have exactly their documented meaning.",
     ["inputs"], "every byte sequence read as every type by every reading path",
     "Tests feed a handful of malformed strings; a federate reads whatever other federates and users' files send it.",
     ["src/helics/application_api/helicsTypes.cpp", "src/helics/application_api/HelicsPrimaryTypes.cpp", "src/helics/application_api/ValueConverter.hpp", "src/helics/common/JsonProcessingFunctions.cpp"],
     [("text parsers", "helicsTypes.cpp"), ("binary decoding", "ValueConverter.hpp, HelicsPrimaryTypes.cpp"), ("document detection", "JsonProcessingFunctions.cpp, TomlProcessingFunctions.cpp")],
     "Grammar-based and mutation fuzzing into exactly sized heap blocks under ASAN/UBSAN (conversion of a double beyond the integer range is excluded from UBSAN). " + MEM,
     "grammar-based and mutation fuzzing with sanitizers and boundedness oracles")

prop("C25", "The C++98 interface does exactly what the C interface does and owns what it refers to",
     "Every member of the C++98 wrapper classes makes the calls of the C interface it stands for, on the handle it holds and with the arguments it was given, and returns what they returned, at full length and unchanged (strings with their exact content, vectors with the size of the value read, complex numbers with both parts); an error reported by the C interface becomes an exception with that code and text, and never one is thrown otherwise. Every handle an object owns is freed exactly once, however objects are copied, moved, assigned (also to themselves) or destroyed, no handle is used after it was freed, and a failing operation leaves the object holding what it held. Callbacks receive what the C interface reports for as long as any object holding that federate exists.",
     ["inputs", "histories"], "every wrapper member with every argument and result of the C interface, every history of copies, moves, assignments and destructions",
     "The C++98 tests are compile-only here; most members are never called by any test, and double frees and leaks need particular copy/assign histories.",
     ["src/helics/cpp98/Federate.hpp", "src/helics/cpp98/ValueFederate.hpp", "src/helics/cpp98/MessageFederate.hpp", "src/helics/cpp98/Input.hpp", "src/helics/cpp98/Publication.hpp", "src/helics/cpp98/Endpoint.hpp", "src/helics/cpp98/Filter.hpp", "src/helics/cpp98/Core.hpp", "src/helics/cpp98/Broker.hpp", "src/helics/cpp98/DataBuffer.hpp"],
     [("inline wrappers over the C API", "src/helics/cpp98/*.hpp"), ("copy/move/assign and callbacks", "Federate.hpp, Endpoint.hpp, DataBuffer.hpp, Broker.hpp, Core.hpp")],
     "The C API is replaced by a recording stand-in generated from helics_api.h that tracks every handle; the table pairing members with C calls restates the C API documentation. " + MEM,
     "differential property-based testing against the C calls on a recording stand-in, model-based ownership histories")

prop("C34", "JSON that is written says what was put in, and JSON that is read means what was written",
     "A quoted string, error response, string list, map or path tree the library writes is valid JSON in plain ASCII; every text that is UTF-8 reads back exactly (whatever quotes, control or non-ASCII characters it has), other bytes never raise an error and lose nothing around them; an error response has exactly its code and message; lists keep their order and length. A map assembled from late answers has every component once, at its place, in order of arrival (an invalid answer is an empty object), reports itself complete exactly when nothing is missing, and every outstanding placeholder has its own index. What is written as a list is read back as that list by the query helpers, which never throw. Reading JSON, with comments, gives the value written; what is not JSON is reported as an invalid argument. Times, members with defaults, target lists and tags mean the same in every documented spelling and in JSON and TOML alike.",
     ["inputs", "histories"], "every text, list, answer history, path set and JSON document",
     "The unit tests quote a few strings; escapes, invalid bytes, answer orders, late or repeated answers and every alternative spelling are not sampled.",
     ["src/helics/common/JsonGeneration.hpp", "src/helics/common/JsonBuilder.cpp", "src/helics/common/JsonBuilder.hpp", "src/helics/common/JsonProcessingFunctions.cpp", "src/helics/common/JsonProcessingFunctions.hpp", "src/helics/core/queryHelpers.hpp", "src/helics/application_api/queryFunctions.cpp", "src/helics/common/addTargets.hpp"],
     [("generateJsonQuotedString, generateJsonErrorResponse", "src/helics/common/JsonGeneration.hpp"), ("JsonMapBuilder, JsonBuilder", "src/helics/common/JsonBuilder.cpp"), ("generateStringVector", "src/helics/core/queryHelpers.hpp"), ("vectorizeQueryResult", "src/helics/application_api/queryFunctions.cpp")],
     "An independent strict JSON reader is the oracle. " + MEM,
     "property-based testing: round trips against an independent JSON reader, model-based histories of the map builder")

prop("C30", "Log messages reach exactly the sinks whose level admits them, unchanged and in order",
     "A message given to a log manager reaches the callback exactly when its level is within the console or file level (or it is forced or comes from a remote source), every remote target whose level admits it, with its level, header and text unchanged, and the log file in order and nothing else; the highest level reported is always the highest of all sinks, whatever order levels, targets, callbacks and files are set in. The log buffer holds exactly the last messages up to its capacity, in order, under resizing, enabling and disabling and with several threads writing, reading and resizing it, and is written to JSON as such. Every level has a name that stands for it, in every documented spelling.",
     ["inputs", "histories", "schedules"], "every history of level, target, callback, file and buffer changes and messages; every interleaving of buffer operations",
     "The logging tests look at a few messages at one level; level changes after the start, several remote targets, buffer wrap-around and concurrent resizing are not covered.",
     ["src/helics/common/LogBuffer.cpp", "src/helics/common/logging.cpp", "src/helics/core/LogManager.cpp"],
     [("push, resize, enable, process, bufferToJson", "src/helics/common/LogBuffer.cpp"), ("sendToLogger, setLogLevels, updateRemote, setLoggingFile", "src/helics/core/LogManager.cpp"), ("logLevelFromString, logLevelToString", "src/helics/common/logging.cpp")],
     "The console sink is not observed (the callback takes its place); spdlog writes the files. " + MEM,
     "model-based property-based testing of message histories, concurrent stress with a history oracle")

prop("C14", "Interface names, aliases and handles are looked up consistently whatever the order of registration",
     "However interfaces, aliases, removals and re-registrations are ordered, every name stands for exactly the interface of that kind registered under it or under any name equivalent to it by the aliases given (aliases are an equivalence relation: symmetric, transitive, independent of order and of the spelling of the names), no other name finds anything, two different interfaces of a kind can never end up with one name (this is reported as an error), a removed interface is found by none of its names and its names can be used again, and searches by pattern find exactly the matching ones. Index, global id, type, units, options and tags of an interface are those it was given.",
     ["inputs", "histories"], "every history of additions, aliases, removals, options, tags and searches",
     "Tests add a few aliases in one order; groups that are merged, removal of aliased interfaces and alphabetical order matter.",
     ["src/helics/core/HandleManager.cpp", "src/helics/core/HandleManager.hpp", "src/helics/core/BasicHandleInfo.cpp"],
     [("addHandle, addAlias, removeHandle, regexSearch, getInterfaceHandle", "src/helics/core/HandleManager.cpp"), ("tags", "src/helics/core/BasicHandleInfo.cpp")],
     "After a reported naming conflict a history ends. " + MEM,
     "model-based property-based testing of operation histories (aliases as equivalence classes)")

prop("C26", "An input with one or several sources gives the documented value: newest, by priority, or reduced",
     "For each source an input holds the newest value at or before the time it was updated to (exclusive, inclusive or first iteration as requested), nothing from sources unknown or removed, nothing closer than the minimum gap or, with on-change filtering, equal to the one before; the value chosen among sources is the newest, ties going to the most recent priority and then to the order of connection; the next event time, queued size, source types, units and targets describe exactly the queues and connections, also after sources leave and come back. With a handling method the value is the documented reduction (vectorize, and, or, sum, diff, max, min, average) of the current values of all sources that have one, after unit conversion, in the order of connection, and change detection reports exactly the changes beyond the minimum. Reading before anything was published is harmless.",
     ["inputs", "histories"], "every history of arrivals, updates, sources and options; every combination of source types, units, method and target type",
     "The multi-input tests publish three values of one type per method; order, priorities, empty sources, vectors as booleans and reconnection are not covered.",
     ["src/helics/core/InputInfo.cpp", "src/helics/application_api/Inputs.cpp", "src/helics/application_api/ValueFederateManager.cpp"],
     [("addData, updateTime*, getData, addSource, removeSource", "src/helics/core/InputInfo.cpp"), ("vectorDataProcess and the reduction operations", "src/helics/application_api/Inputs.cpp")],
     "Combinations for which the documentation gives no meaning (a single value chosen among sources of different types) are read but not judged. " + MEM,
     "model-based property-based testing of input histories; reference reductions over generated federations")

prop("C07", "Filters do to messages exactly what they are configured to do, wherever they are",
     "Every message sent is delivered to exactly the endpoints, with exactly the content, time and original source, that the filters of its source and then those of its destination produce: delays added, data changed, dropped messages gone, conditional reroutes (patterns, ${source}/${dest}) followed by the filters of the new destination, and one copy per delivery endpoint of every cloning filter - whether a filter belongs to the federate of the endpoint, another federate, its core or another core, in whatever order filters and endpoints are registered; with none the message is unchanged. A filter without an operation passes everything. Filter operators and operations keep whatever they do not change, report the settings they were given, and refuse unknown ones. Closing a filter or removing a target affects that filter and target only. Filtering never loses a message nor stops the federation.",
     ["inputs", "histories", "schedules"], "every set of filters and their targets, every history of messages; registration orders; the interleavings that occur",
     "The filter tests send one or two messages through one or two filters; chains of local and remote filters, drops at the destination, and late returns are not sampled.",
     ["src/helics/core/FilterFederate.cpp", "src/helics/core/FilterInfo.cpp", "src/helics/core/FilterCoordinator.cpp", "src/helics/application_api/FilterOperations.cpp", "src/helics/application_api/MessageOperators.cpp", "src/helics/application_api/Filters.cpp"],
     [("executeFilter, processMessage, destinationProcessMessage, processFilterReturn, clearTimeReturn", "src/helics/core/FilterFederate.cpp"), ("target bookkeeping", "src/helics/core/FilterInfo.cpp, FilterCoordinator.cpp"), ("operations", "src/helics/application_api/FilterOperations.cpp, MessageOperators.cpp")],
     "One destination filter that is not cloning per endpoint (a HELICS rule); source filters whose order matters are not combined. Federations of up to two federates with endpoints; for more see the known findings. " + MEM,
     "model-based property-based testing of generated federations with filters against a reference model of filtering")

prop("C24", "Data buffers and messages of the C interface hold exactly what was put in, within their bounds",
     "A value put into a data buffer comes back unchanged with its type; read as any other type it is what the C++ interface reads from the same bytes; the sizes reported suffice to read everything and are the sizes read; outputs never exceed the space given, strings are cut and terminated as documented. Copies are independent, wrapped memory stays in place and is never written beyond its capacity, converting and growing keep the handle and the value valid. Arbitrary bytes, empty buffers, missing data and negative sizes are refused or read as the invalid value, never with a crash, an exception or an access out of bounds. Every field of a message reads back as set and no other changes, through any history of creating, copying, cloning, clearing and freeing messages of a federate; no operation changes or frees another message. Without a valid handle or after an earlier error nothing changes and the documented error is reported.",
     ["inputs", "histories"], "every value, type, size and byte sequence; every history of messages and buffers",
     "The C tests fill and read a few buffers; freeing after clear, wrapped memory that is too small, cut data and exact sizes are not sampled.",
     ["src/helics/shared_api_library/helicsData.cpp", "src/helics/shared_api_library/MessageFederateExport.cpp", "src/helics/core/SmallBuffer.hpp"],
     [("helicsDataBuffer*", "src/helics/shared_api_library/helicsData.cpp"), ("helicsMessage*, MessageHolder", "src/helics/shared_api_library/MessageFederateExport.cpp")],
     "Handles that were freed or never were handles cannot be recognised by the library and are not tried. " + MEM,
     "model-based property-based testing of histories with exactly sized memory under sanitizers, differential against the C++ conversions")

prop("C29", "A federate is always in the mode its calls lead to, whatever their order",
     "Every call of a federate that changes its mode (entering initialization and execution, time requests, iterative requests, finalizing, errors; direct, asynchronous and completing) is either refused with the documented error, leaving the federate as it was, or leads to exactly the documented mode with the documented time and result: a completing call finishes the pending operation and no other, a direct call during a pending one completes it, asynchronous calls are refused for single thread federates. Times granted lie on the grid of period and offset and at least the minimum delta apart, also for iterative requests that move on; an iteration stays at its time. The callbacks for modes, initialization, execution, time and termination are called exactly when documented, in order, and may ask for the state of the federate. Finalizing works in every mode.",
     ["inputs", "histories"], "every sequence of calls with every combination of period, delta, thread option, iteration request and callbacks",
     "Tests walk through the expected orders; calls out of order, mixtures of asynchronous and direct calls and callbacks that look back are not sampled.",
     ["src/helics/application_api/Federate.cpp", "src/helics/core/FederateState.cpp", "src/helics/core/TimeCoordinator.cpp"],
     [("enter*, request*, finalize*, complete*, updateFederateMode", "src/helics/application_api/Federate.cpp"), ("timeRequest, updateNextExecutionTime", "src/helics/core/TimeCoordinator.cpp")],
     "One federate alone: what others do to its times is the subject of C01-C05. " + MEM,
     "model-based property-based testing of call histories against the documented state machine")

prop("C06", "Federates that leave or fail, at any stage and in any way, never stop the others",
     "Whenever a federate finalizes, reports a local or global error or is destroyed (before initialization, in it, on entering execution, or after any step), no call of any other federate waits forever: after a leave or a local error all others enter initialization and execution and reach every time they ask for, without exceptions; after a global error they get an error or the end of time, and can still finalize. What the leaver published or sent before it left reaches those that depend on it, and its own mode afterwards is the documented one. Once everybody has left the broker disconnects by itself.",
     ["inputs", "schedules", "histories", "faults"], "every distribution of federates on cores, every link pattern, every stage and way of leaving, alone or several at once, and the thread schedules met",
     "Tests let one federate leave at one chosen place; leaving during the entry into initialization or execution, several at once, and with links between cores are races no test samples.",
     ["src/helics/core/CommonCore.cpp", "src/helics/core/CoreBroker.cpp", "src/helics/core/FederateState.cpp", "src/helics/core/TimeCoordinatorProcessing.cpp", "src/helics/core/ForwardingTimeCoordinator.cpp", "src/helics/core/TimeDependencies.cpp"],
     [("allInitReady, processDisconnectCommand, processLogAndErrorCommand", "src/helics/core/CommonCore.cpp"), ("processBrokerDisconnect, processError, disconnectTiming", "src/helics/core/CoreBroker.cpp"), ("CMD_DISCONNECT, CMD_LOCAL_ERROR", "src/helics/core/TimeCoordinatorProcessing.cpp, TimeDependencies.cpp")],
     "Cores whose federates failed are disconnected by the caller, as documented for errors. " + MEM,
     "fault injection at random stages of generated co-simulations with hang detection and a delivery oracle")

prop("C38", "A setting is in force as given last, in whatever way it was given, and changes nothing else",
     "A time, integer or flag property of a federate has the value given last: by command line arguments, JSON or TOML text (in each documented spelling of its name and unit of time), by calls on its description or on the federate, before it starts or while it runs (then with the next request). Properties derived from others follow (a tolerance sets lag and lead, observer and source-only exclude each other, a minimum delta is never zero), nothing else changes, no value is cut, and other federates are not affected. Options, tags and descriptions of inputs, publications, endpoints, filters, federates and cores read back as set last, each independently of the others except documented opposites; queries of tags tell the same.",
     ["inputs", "histories"], "every set of settings, spelling and way of giving them; every history of options and tags",
     "Tests set a few properties one way and read one back; ranges, opposites, repeated setting and text forms are not sampled.",
     ["src/helics/application_api/FederateInfo.cpp", "src/helics/core/FederateState.cpp", "src/helics/core/CommonCore.cpp", "src/helics/core/InputInfo.cpp", "src/helics/core/PublicationInfo.cpp", "src/helics/core/EndpointInfo.cpp", "src/helics/core/HandleManager.cpp"],
     [("loadInfoFromArgs, loadInfoFromJson, loadInfoFromToml", "src/helics/application_api/FederateInfo.cpp"), ("setProperty, setOptionFlag and their getters", "src/helics/core/FederateState.cpp, TimeCoordinator.cpp"), ("setProperty, getProperty", "src/helics/core/InputInfo.cpp, PublicationInfo.cpp, EndpointInfo.cpp")],
     "Log levels are given by name in text (numbers are refused there). " + MEM,
     "model-based property-based testing of settings histories; metamorphic over the ways of giving them")
