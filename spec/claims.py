# property -> (technique, what the level means here)
CLAIMS = {
 "C01": ("path-sensitive nil-provenance dataflow over SSA, interprocedural",
         "Static: every dereference of a response is decided on every path of every function of the current source; loops are abstracted, so all iterations are covered."),
 "C02": ("path-sensitive bounds and type-test dataflow over SSA with caller requirements solved to a fixpoint",
         "Static: every index, cut and assertion on message content reachable from a listener or element; computed indices that are not loop counters are listed as undecided notes."),
 "C03": ("ownership and effect dataflow over SSA: every store is traced to the object it changes",
         "Static: every store, and every call of a library function that changes a message, in everything reachable from every element's Resolve, on every path."),
 "C04": ("path-sensitive typestate and provenance dataflow over SSA of every upstream client's Resolve",
         "Static: every return of a response by every client that exchanges messages with a server, on every path."),
 "C05": ("must-pass-through typestate over SSA from every registered handler; option-literal flow rule",
         "Static: every path of every handler and listener goroutine of the current source."),
 "C06": ("provenance dataflow over SSA with branch facts",
         "Static: every path of every handler on which a client address is formed."),
 "C07": ("reply typestate over SSA from every registered handler, goroutines followed",
         "Static: every path from resolver call to end of handler."),
 "C08": ("typestate over SSA of every installed handler with its network name bound, size provenance",
         "Static: every write of a reply on every path of every transport variant."),
 "C09": ("step-order typestate over SSA, padding steps recognised by effect",
         "Static: every encoding of a message on every path of each plain and encrypted transport."),
 "C10": ("must-pass-through typestate over SSA on the early-data paths of QUIC and HTTP/3 servers and clients",
         "Static: every path from an early-data request to the pipeline, and from a query to an early-data connection."),
 "C11": ("enumeration of buffering reads with limit provenance and error/length typestate over SSA",
         "Static: every buffering read and every network-sized buffer in the current source."),
 "C12": ("key-completeness dataflow over SSA: attribute provenance of every key on every path",
         "Static: every lookup, store and merge key of every backend on every path; entries rebuilt or compared field by field."),
 "C13": ('must-pass-through typestate over SSA from every caching element, goroutines followed, section loops unrolled',
         'Static: every store of a response on every path, including background refreshes.'),
 "C14": ("typestate over SSA of every backend's Lookup with byte-layout matching between writers and readers",
         'Static: every path to a cache hit in every backend, every record of every section; conversions of persisted entries.'),
 "C15": ('ownership dataflow over SSA: provenance of every returned message and record',
         'Static: every return of every element and backend lookup; everything a backend stores or passes on.'),
 "C16": ('effect enumeration and typestate on file replacement',
         'All file-writing calls of the program are enumerated; every path of the replacing functions and every content-producing function is followed. Durability of directory entries and behaviour of the file system are assumed.'),
 "C17": ('lock-set analysis over all accesses to shared state',
         'Every field and package variable modified while queries run, and every local captured by a task, is covered, through calls. Locks are identified by type and field, so locking the wrong instance of the same type is not distinguished.'),
 "C18": ('lock balance, re-entry, order and waiting analysis',
         'All lock operations of the program, through calls, deferred calls and closures. Locks are identified by type and field; waiting inside library calls (dialling a connection) is not classed as waiting.'),
 "C19": ('Channel ownership analysis plus typestate',
         'Every channel operation of the resolver package is attributed to the place that makes the channel, and each one that can block needs a proof that it is released: a timeout case, a receiver loop that never ends, capacity for one send per goroutine of a fan-out with a counted receive loop, a pool or slot given back exactly once on every path. Requests others wait for are followed path by path from the queue or table to their completion; wait groups are matched with the tasks that report their end. Time limits of external calls (dialers, sockets, timers) are assumed.'),
 "C20": ('Path-sensitive typestate',
         'Every path through each element that asks a list about queries is followed with both answers of every list; on each path the calls to the protected upstream, the alternatives and the local answer are compared with what the lists said. Combined lists are followed to show they match exactly when one of their lists does and say no only when all were asked. How a single list stores and looks up its entries is not decided here.'),
 "C21": ('Path-sensitive typestate over record loops',
         "Every path through the response blocklists is followed, section loops unrolled; each round of a loop over records must look the record up unless its type is none of the listed ones, an offending record must end in a block or be left out, and the upstream's answer may be returned only when all three sections were gone through (in filter mode: replaced and not emptied). What the list itself matches is not decided here."),
 "C22": ('Path-sensitive typestate, value provenance, lock sets',
         'Refresh tasks: only the outcome of a successful reload of the same list is put in force, the old list is released after that and never the new one, no write lock is held while loading. Reload methods: same kind, every option and the loader carried over, nothing of the old list shared or changed, no error swallowed, every member reloaded. Loaders: only completely read lists from successful responses are returned, kept or cached, and the last good list is what a tolerated failure falls back to. How rules are parsed is not decided.'),
 "C24": ('Path-sensitive typestate with loop counting',
         "Each round of a group's retry loop is classified by what its branches learned about the answer; a round may only be followed by another if that answer was a failure and the next round addresses another member, and the loop may only be left with a failure when the loop counter, counted structurally against the number of members, shows all were tried. Timing of fail-back and weighting are not decided."),
 "C26": ('Path-sensitive dataflow over the rate limiter: counter key and masks, critical section of check and increment, window restart',
         "All paths of the limiter's Resolve with helpers inlined: the key is the source address masked with the prefix of its family; an upstream call needs the count to be known below the limit, read and increased in one critical section; counts restart only when the window (clock read under the lock divided by the length) changed; nobody else writes the counts."),
 "C25": ('Dataflow from configuration to criterion plus path-sensitive analysis of the match and of the router',
         'Each configured criterion is followed from its configuration field through NewRoute into the route; on every path of the match function the verdict of each criterion (not configured, holds, fails) is derived from the branches taken, times of day by sign sets, and compared with the returned decision; the router takes the first matching route in order or fails.'),
 "C23": ('Taint-style dataflow of letter case: names from messages and lists to table lookups, comparisons, regular expressions and keys',
         'Sources are the fields the DNS library tags as domain names and the entries list loaders return; every map access, string comparison and list expression they reach must be behind a case-folding call; keys of caches and merged queries are those C12 finds. Helpers are inlined; a string parameter is followed to its callers.'),
 "C35": ('Path-sensitive interval facts on every record of every section, options record excepted',
         "All paths of the limiting element with the section loops unrolled over the three sections and the per-record function inlined: at the end of every round the record's lifetime is known to be within the limits; no store can reach an options record; the constructor keeps the limits; the cache's reads and writes of lifetimes exclude the options record. Assumes the minimum is not above the maximum."),
 "C34": ('Path-sensitive typestate with byte-level tracking of the synthesised address, once per prefix length',
         "All paths of the synthesising element, run once for each of the six prefix lengths with the length fixed: which facts are known where a synthesised answer is returned, where every byte of every synthesised address comes from, and that the upstream's own answer is returned otherwise. The prefix parser is checked for the lengths and family it lets through."),
 "C36": ("Path-sensitive typestate over the functions that change options, with their constructor's arguments bound",
         'All paths of each exported option rule, run on the function it returns with the captured settings: which options are kept, removed, rewritten or added, and from which values; the element calls the rule on the very message it forwards; configuration selects the rule by its name and passes the matching settings. Assumes one options record per query.'),
 "C39": ('Path facts required at the point of forwarding and of decryption, plus inspection of the host name pattern',
         "All paths of the proxy and target handlers: the facts known about method, content type, host, path, URL and body where the request is sent; the constant host pattern is parsed and its language bounded; the client's redirect policy is inspected where it is made."),
 "C27": ('path-sensitive verification typestate over SSA of the validating resolver and the validator, interprocedural',
         'Static: every return of a reply and every acceptance by the validator, on every path; name ordering helpers are taken as specified.'),
 "C28": ('trust typestate over SSA: key and signature provenance up to the anchor',
         'Static: every place where keys are handed out, remembered or used for a signature, on every path.'),
 "C29": ('proof typestate over SSA: facts about each denial record gathered along every path to acceptance',
         'Static: every path on which absence is accepted, with the facts established about the denial records; name ordering helpers are taken as specified.'),
 "C37": ('per-kind path-sensitive option-to-setting dataflow (SSA)',
         'Static analysis of every construction path per element kind; options are traced into library settings by name, unit and keyword.'),
 "C38": ('path-sensitive construction analysis and reference dataflow (SSA)',
         'Static analysis of every construction path per element kind; the graph and TOML libraries are assumed to report duplicates and cycles.'),
 "C30": ('static analysis: stores into TLS settings over SSA, path-sensitive dataflow over the functions that build configurations, choose server names and start services, provenance of every TLS configuration handed to a library',
         "Decided on all paths of the configuration functions, client constructors and Start methods; certificate verification itself is the libraries' (assumed)."),
 "C33": ('interprocedural ownership typestate over SSA with function summaries',
         "Decides every function of the package that opens something (net, os, http, quic, dtls, maxminddb, ...) over all its paths; an object stored in a field is followed to the field owner's Stop/Close. Closing of list elements inside MultiIPDB and of Lua states is not decided."),
 "C31": ('typestate of thread, namespace and descriptors over SSA; ownership analysis of raw descriptors',
         'Decides every function that calls setns, makes sockets for clients, or receives descriptors, over all paths. That the kernel honours setns and that bodies run in a namespace do not start goroutines inside libraries is assumed.'),
 "C32": ('path-sensitive dataflow over interpreter setup and use; reachability of forbidden packages from functions given to scripts',
         "Decides construction of sandboxed interpreters, the query path through the pool, and every function given to scripts. What gopher-lua's own safe libraries do, and errors in metamethods while the globals are registered at start-up, are not decided."),
 "C40": ('path-sensitive error-before-use dataflow over SSA from every function',
         'Static: every pointer, interface and function value returned together with an error is followed to every use on every path. Plain data (numbers, text, byte slices, structs) and objects that are only stored are not followed.'),
}
# property -> why static analysis does not decide it
NOT = {
}
