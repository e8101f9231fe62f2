C = "crates/host/codec/src/"
FFI = "crates/host/runtime-ffi/src/"

prop("C12", "No input makes the library crash, hang or disturb anything else",
  "Whatever bytes are given to the C interface as template, transaction, envelope or context (malformed messages, malformed or hostile programs with extreme structure, traps, unreachable code, exhausted memory or stack), the call returns in bounded time with a result or an error. It neither crashes, hangs nor exhausts the process, and the same runtime, other runtimes and later transactions then behave exactly as if a harmless transaction had failed.",
  ["inputs", "programs", "histories"], "every byte string given to any entry point, every program, at every point of a history",
  "Tests feed a few malformed inputs; robustness is about all of them, and about what still works afterwards.",
  [FFI+"c_api.rs", RT+"runtime/runtime.rs", "crates/host/gas/src", "crates/host/program/src"],
  [("Panics turned into errors at the C boundary", FFI+"c_api.rs"), ("Validation of templates", RT+"runtime/runtime.rs"), ("Recursion and size limits", "crates/host/gas/src")],
  "runtime monitoring: hostile inputs through the real C interface; a twin runtime that never saw them is compared after each; crash and hang watchdogs")

prop("C14", "The C interface behaves exactly like the Rust runtime",
  "Every function of the C interface returns the same receipt bytes, error or value and leaves the same state as the corresponding operation of the Rust runtime given the same inputs: what is rejected by one is rejected by the other, addresses, balances, counters, names and layers are reported alike, and the state's fingerprints agree after every step.",
  ["inputs", "histories"], "every sequence of calls with every well-formed or malformed message",
  "The few interface tests call each function once; equivalence is about sequences and all values crossing the border.",
  [FFI+"c_api.rs", FFI+"result.rs", FFI+"resource_tracker.rs"],
  [("Marshalling of messages and results", FFI+"c_api.rs"), ("Registry of runtimes", FFI+"c_api.rs")],
  "runtime monitoring: one history is run through the C interface and through the Rust runtime side by side, and every result and the whole state are compared online")

prop("C18", "Transaction messages round-trip in the documented wire format",
  "Every envelope, context, call transaction and spawn transaction is encoded to exactly the bytes of the documented wire format, and decoding them gives back the same message and consumes exactly those bytes, whatever follows them. No proper prefix of an encoding is accepted.",
  ["inputs"], "every message with every value of every field",
  "The tests round-trip one or two small examples; a change that encodes and decodes consistently wrongly, or that fails for borders of fields, passes them.",
  [C+"codec.rs", C+"ext.rs"],
  [("Codec implementations of messages and numbers", C+"codec.rs"), ("Reading and writing of bytes", C+"ext.rs")],
  "runtime monitoring: random messages through the real codec, judged against an independent writer of the wire format")

prop("C19", "Templates round-trip, whole or by section",
  "A template with any sections in any order is encoded to exactly the documented wire format and decodes to the same sections; code, constructors and every variable's id, offset and size survive. Decoding only some kinds of sections yields exactly those, and skipping a section never changes the others. Templates that are cut short, lack a mandatory section, repeat one, contain an unknown one or whose sections don't have their stated size are rejected.",
  ["inputs"], "every template, every order and subset of sections",
  "The tests use a handful of small templates in the order in which the builder makes them.",
  [C+"template.rs", C+"section/decode.rs", C+"section/encode.rs", C+"section/sections", "crates/host/types/src/template"],
  [("Sections with previews", C+"section/preview.rs"), ("Selective decoding", C+"section/decode.rs")],
  "runtime monitoring: random templates through the real codec, judged against an independent writer of the wire format, and deliberately damaged ones")

prop("C20", "Receipts round-trip and encode deterministically",
  "Every receipt of a deploy, spawn or call, successful or failed with any error, is encoded to exactly the documented wire format, the same bytes each time, and decodes to the same receipt: outcome, address, state, returned data, gas, touched accounts, logs and error. Over-long error messages are cut to at most 255 bytes of valid text. Receipts that are cut short or have an unknown type, version, flag or error code are rejected.",
  ["inputs"], "every receipt",
  "The tests cover a few receipts with small fields and only some of the errors.",
  [C+"receipt/mod.rs", C+"receipt/call.rs", C+"receipt/spawn.rs", C+"receipt/deploy.rs", C+"receipt/error.rs", C+"receipt/logs.rs", C+"receipt/touched_accounts.rs"],
  [("Receipt codecs", C+"receipt"), ("Error blobs", C+"receipt/error.rs")],
  "runtime monitoring: random receipts through the real codec, judged against an independent writer of the wire format")

prop("C21", "Decoders are total: any bytes are accepted or cleanly rejected",
  "Given any bytes, every binary decoder (messages, templates, sections, receipts) returns a value or an error: it never panics and never requests memory out of proportion to its input (beyond a small constant). Whatever it accepts is a proper value: encoding it and decoding it again succeeds and is stable.",
  ["inputs"], "every byte string",
  "Tests decode valid encodings, and few or no malformed ones.",
  [C+"codec.rs", C+"ext.rs", C+"section", C+"receipt"],
  [("Decoders", C+"codec.rs"), ("Reading of untrusted lengths", C+"ext.rs")],
  "runtime monitoring: random and damaged encodings given to the real decoders under panic and allocation monitors")

prop("C03", "Committed layers survive crashes and failing storage",
  "After a crash at any moment (the process killed, or power lost with what was not yet synced missing or torn), a state database opens again at a layer that was really committed: at least the last one whose commit had returned, with exactly the contents and fingerprint of that layer, never a half-written one, and it goes on working. A commit or rewind that reports a failure of the storage has had no effect and leaves the handle usable: the same operation can be tried again.",
  ["crash_points", "histories", "fault_sequences"], "every history, every crash point within it, every set of unsynced writes lost, every failing system call",
  "No test crashes or injects a fault; the guarantee is about every instant between two system calls.",
  [S+"storage.rs", S+"resources", S+"global_state.rs"],
  [("Layers written in one transaction", S+"storage.rs"), ("Opening at the last complete layer", S+"storage.rs"), ("Rewinding", S+"storage.rs")],
  "runtime monitoring with fault injection: the database's system calls are interposed and logged; crash images are rebuilt from the log at every point and reopened by the real code, failing calls are injected, and a reference model judges the result",
  observe=["pwrite/ftruncate/fsync/unlink of the database files", "GlobalState reopened on each crash image"])

PRG = "crates/host/program/src/"
GAS = "crates/host/gas/src/"

prop("C15", "Only valid SVM programs are accepted",
  "A program is accepted exactly when it is a well-formed module with code, contains no floating-point instruction anywhere (dead code and unexported functions included), has at most 65535 functions counting imported ones, and, where exports are validated, itself defines and exports svm_alloc, from one i32 to one i32, and svm_verify, from nothing to one i32. A program with a single one of these defects is rejected for that reason; cut or damaged files are rejected, never crashed on.",
  ["programs"], "every WebAssembly module",
  "The tests reject one program per kind; determinism of contract execution rests on no float instruction in any position getting through.",
  [PRG+"program.rs", PRG+"validation.rs", PRG+"validators.rs", PRG+"exports.rs"],
  [("Reading modules", PRG+"program.rs"), ("Rejecting floats", PRG+"validators.rs"), ("Required exports", PRG+"exports.rs")],
  "runtime monitoring: modules generated with and without each defect are given to the real reader and to the runtime's own validation, judged by their construction")

prop("C16", "Exactly the programs with statically known cost are accepted",
  "A program is accepted for fixed-gas execution exactly when no function (exported or not, reachable or not) contains a loop or an indirect call and no function can come to call itself directly or through others; imports and other definitions never matter. An accepted program always can be priced.",
  ["programs"], "every module with every call graph",
  "The tests reject a few tiny modules; that no unbounded execution slips through is about all nestings and call graphs.",
  [GAS+"call_graph", GAS+"validation.rs", GAS+"detect_loops.rs", GAS+"graph"],
  [("Call graph and its cycles", GAS+"call_graph"), ("Validation", GAS+"validation.rs")],
  "runtime monitoring: random modules with hidden loops, indirect calls and cycles are given to the real validation, judged by their construction")

prop("C17", "The price of a function is the cost of its dearest execution",
  "The price computed for a function is never below the cost of any of its executions and equals that of its dearest path (ifs, branches out of nested blocks, branch tables, early returns, dead code and calls included; a call costs the callee's price and a host function its listed price). Prices too large to represent are capped at the largest price instead of wrapping around.",
  ["programs"], "every accepted program and every path through it",
  "The tests price about a dozen small functions; a path the pricing overlooks is one the user runs for free.",
  [GAS+"cfg", GAS+"pricing", GAS+"graph"],
  [("Control-flow graph and dearest path", GAS+"cfg"), ("Prices of host functions", GAS+"pricing/resolvers")],
  "runtime monitoring: random programs are instrumented to count what they execute and run on all combinations of their branching decisions; the real price is compared with the dearest run and with an independent pricer")

W = "crates/wasm/"
prop("C22", "ABI values round-trip between hosts and contracts",
  "Every value of the ABI (numbers, booleans, addresses, amounts, options, arrays, tuples, nested in every way) is encoded to exactly the documented bytes, takes the size stated for it, and decodes to the same value, untyped or as the type it was encoded from; sequences of values decode one after another to the last. Decoding as a wrong type, or from bytes that are cut or malformed, is refused or yields a value, and never reads outside its input.",
  ["inputs"], "every value, every sequence of values, every byte string",
  "Tests encode chosen values per type; the coding is variable-length, so each width, sign and array length is a case of its own.",
  [W+"abi-encoder/src", W+"abi-decoder/src", W+"abi-layout/src", W+"sdk-types/src"],
  [("Encoding of values", W+"abi-encoder/src"), ("Decoding of values", W+"abi-decoder/src"), ("Type markers", W+"abi-layout/src")],
  "runtime monitoring: random values through the real encoder and decoder, judged against an independent writer and reader of the documented format; malformed bytes under a panic monitor")

prop("C23", "The JSON and WebAssembly APIs say exactly what the binary form says",
  "Call and spawn transactions and input data given as JSON encode to exactly the binary form of the same values and decode back to the same JSON, and receipts decode to JSON that states exactly what the receipt says. JSON with a missing or ill-typed field, a number outside its type, a list too long or a name or data too long for the binary form is refused with an error, never cut, changed or crashed on. The WebAssembly API answers the same in buffers of exactly the right length, marked success or error, and leaves nothing allocated once they are freed.",
  ["inputs"], "every JSON document, every transaction and receipt",
  "The tests round-trip about two dozen documents; wallets sign what this encoding produces, so a value silently altered is a payment altered.",
  [C+"api/json", C+"api/wasm"],
  [("Transactions as JSON", C+"api/json/call.rs"), ("Input data as JSON", C+"api/json/inputdata.rs"), ("Receipts as JSON", C+"api/json/receipt.rs"), ("Buffers", C+"api/wasm/buffer.rs")],
  "runtime monitoring: random, faulty and damaged documents through the real JSON functions and the WebAssembly API's buffers, judged by an independent writer of both forms, under panic and leak monitors")

prop("C24", "The SDK's containers, strings, amounts and mocks behave and stay in bounds",
  "In native builds of a template, the SDK's vectors, strings, tokens, addresses, amounts, logs and storage accessors behave like the std types they stand for, for every size and history: what is pushed, joined, added or stored is what is read back, and what doesn't fit (a full vector, a too long string, an overflowing amount, an index beyond an array) is refused rather than truncated or wrapped around. No call reads or writes outside its memory, and transfers of the mocked host conserve coins.",
  ["inputs", "histories"], "every history of calls with every argument",
  "The SDK manages raw memory itself and its tests use a few small values; an access one element outside goes unseen without a sanitizer.",
  [W+"sdk-std/src", W+"sdk-types/src", W+"sdk-storage/src", W+"sdk-storage-mock/src", W+"sdk-host-mock/src", W+"sdk-macros/src", W+"sdk-alloc/src"],
  [("Vectors and strings", W+"sdk-std/src"), ("Amounts and addresses", W+"sdk-types/src"), ("Storage and host mocks", W+"sdk-storage-mock/src"), ("Template macros", W+"sdk-macros/src")],
  "runtime monitoring: random histories on the real SDK under AddressSanitizer, compared step by step with a model using std")

prop("C25", "A contract written with the SDK does on SVM what its source says",
  "A template written with the SDK, compiled and deployed, does what its source says: each endpoint receives the arguments encoded in the calldata, returns its value encoded in the returndata, writes its logs and leaves exactly the stated values in the storage variables it names and no other variable changed. An endpoint given arguments that don't fit, or one whose check fails, fails the transaction and changes nothing. The schema and API the SDK writes out name every variable, constructor and endpoint with its types.",
  ["programs", "inputs", "histories"], "every template of the SDK's types, every calldata, every history of calls",
  "Tests run single endpoints with single values; the layout, the offsets of packed variables and the coding of each type interact.",
  [W+"sdk-macros/src", W+"sdk-storage/src", W+"sdk-storage-ffi/src", W+"sdk-host-ffi/src", W+"sdk-std/src", RT+"vmcalls"],
  [("Template and storage macros", W+"sdk-macros/src"), ("Storage accessors", W+"sdk-storage/src"), ("Host calls", W+"sdk-host-ffi/src")],
  "runtime monitoring: templates compiled with the tree's SDK run on the real runtime over random histories of calls; returndata, logs and all storage variables are compared with a model of the source")

F = "crates/host/runtime-ffi/src/"
prop("C10", "Every node computes the same receipts and state",
  "Given the same sequence of transactions and administrative operations, every node gives byte-identical receipts and reaches the same layers, fingerprints, accounts and variables: whether its state is in memory or on disk, whether it was restarted in between, in which process it runs, and whatever it did besides that leaves no trace (verifying, failing, validating and reading, or following a fork that it rewound).",
  ["histories", "configurations"], "every history, every storage configuration, every point of restart, every fork given up on the way",
  "Tests run each history once on one node; consensus fails on any dependence on hash seeds, caches, addresses or leftovers of other work.",
  [RT+"runtime/runtime.rs", RT+"runtime/price_cache.rs", S+"storage.rs", S+"global_state.rs", C+"receipt"],
  [("Executing transactions", RT+"runtime/runtime.rs"), ("Cached prices", RT+"runtime/price_cache.rs"), ("Layers and fingerprints", S+"storage.rs"), ("Receipts", C+"receipt")],
  "runtime monitoring: random histories run side by side on differently configured and differently distracted nodes and in another process, compared online after every step")

prop("C13", "The C interface is memory-safe, isolates runtimes and leaves nothing behind",
  "No call of the C interface, with well-formed or hostile input, reads or writes memory it must not. A result stays valid and unchanged until it is freed, whenever, by whichever thread and in whichever of the two documented ways. A runtime that was destroyed leaves no memory, thread, open file or count behind, can't be destroyed again, and runtimes used by different threads at the same time don't affect each other's results.",
  ["inputs", "histories", "schedules"], "every history of calls on any number of runtimes, in any interleaving of threads with a runtime each",
  "Tests create a runtime or two and never look at what remains; leaks, stale buffers and races show only under a sanitizer and over repeated lifecycles.",
  [F+"c_api.rs", F+"result.rs", F+"resource_tracker.rs", RT+"runtime/runtime.rs", RT+"func_env.rs", GAS+"graph"],
  [("Results and their memory", F+"result.rs"), ("Tracking of runtimes", F+"resource_tracker.rs"), ("Execution environment", RT+"func_env.rs")],
  "runtime monitoring: AddressSanitizer builds under repeated lifecycles, concurrent runtimes and hostile calls, with monitors of heap, threads, files and answers")

CLI = "crates/host/cli/src/"
prop("C26", "The command-line tool writes exactly the transaction its input files state",
  "svm-cli craft-deploy turns a smWasm file and its meta file into exactly the template with that code, those constructors and those variables, which the runtime accepts, and svm-cli tx turns a JSON file into exactly the call or spawn it states, replacing whatever the output file held. Input that is missing, malformed or can't be represented makes the tool exit with failure, and a failed tx leaves the output file as it was. svm-cli validate calls a file valid only if it holds a smWasm module and prints for every function of it the price the runtime charges.",
  ["inputs"], "every meta file, code, JSON transaction and module",
  "The tool has no tests of its own; what it writes is signed and sent as it is.",
  [CLI+"subcmd_craft_deploy", CLI+"subcmd_tx.rs", CLI+"subcmd_validate.rs"],
  [("Crafting templates", CLI+"subcmd_craft_deploy/mod.rs"), ("Crafting transactions", CLI+"subcmd_tx.rs"), ("Validating modules", CLI+"subcmd_validate.rs")],
  "runtime monitoring: the real program is run on random proper and faulty files; its exit status, output and files are judged by an independent writer and pricer")
