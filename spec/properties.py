#!/usr/bin/env python3
"""Writes ../properties.jsonl. Kept as source because long one-line JSON is hard to review."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(text.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    P.append(d)

# ---------------------------------------------------------------- message handling
p("C01", "A dropped query never crashes the process",
  """Any element may deliberately drop a query by producing neither an answer nor an error. Every element,
  group, client, validator and listener that can receive that outcome copes with it on every path, without
  using the missing answer, so that no query and no configuration can terminate the process this way.""",
  ["inputs", "configurations", "histories"],
  "every element and listener, every position in the pipeline, every path on which the upstream answer is missing",
  """Tests wire a handful of pipelines with a dropping element at the end. The number of (element, path) pairs at
  which a missing answer can arrive is the product of all elements and all their branches; most have no test with a
  dropping upstream.""",
  ["resolver.go", "drop.go", "dnslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go", "cache.go", "dnssec/validator.go", "dns64.go", "loadbalance.go", "prefetch.go"],
  [("nil checks on answers", "every Resolve implementation and every listener handler")])

p("C02", "No DNS message, however malformed, can crash the process",
  """Whatever sections, records and options a query or an upstream response carries - including none at all - no code
  that processes it indexes a section without having established that it is long enough, or assumes the concrete type of
  a record or option without having established it. Malformed input is rejected or ignored, never fatal.""",
  ["inputs"],
  "every query and response message a peer can put on the wire, at every access to a message section, record or option",
  """The input space is all DNS messages; the suite feeds a few well-formed ones per element. One unguarded access on a
  rarely taken branch kills the whole process.""",
  ["message.go", "cache.go", "dnslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go", "static.go", "static-template.go", "dns64.go", "dnssec/validator.go", "dnssec/denial_existence.go", "route.go", "lua-message.go"],
  [("empty-question rejection in listeners", "listenHandler, DoHListener.parseAndRespond, DoQListener.handleStream, ODoHListener.ODoHqueryHandler"),
   ("length checks and comma-ok assertions", "throughout")])

p("C03", "Elements never alter the query they were given",
  """An element that needs to forward a modified query, or to use an encoder that normalises it, works on a copy of its
  own. The message object its caller handed in is unchanged when the element returns, on every path, so listeners,
  retrying groups, caches and sibling upstreams always work with the client's original query. Only a user's own script
  may change the query it is given.""",
  ["inputs", "configurations", "schedules"],
  "every element implementation, every path, every field and section of the query reachable from the argument",
  """A test sees aliasing only if it re-inspects the original query after the call, for that element, on that path, with
  that option present; concurrency between sibling upstreams makes the effect timing dependent.""",
  ["resolver.go", "replace.go", "ecs-modifier.go", "edns0-modifier.go", "dnssec.go", "dns64.go", "dnsclient.go", "dotclient.go", "dohclient.go", "doqclient.go", "odohclient.go", "cache.go", "truncate-retry.go", "lua-resolver.go"],
  [("copy before modify", "q.Copy() in elements that modify or pack")])

p("C04", "Upstream responses are accepted only for the question that was asked",
  """Every upstream client, over every transport, hands a response to its caller only after checking that it is about the
  question the caller asked, and every response it hands back carries the caller's own transaction ID. A response that does not match becomes an
  error, never an answer.""",
  ["inputs", "fault_sequences", "schedules"],
  "every client transport, every response bytes, every path from decoding a response to returning it",
  """Requires a misbehaving or off-path peer for each of five transports, and interleavings of several in-flight queries;
  tests use cooperative servers.""",
  ["pipeline.go", "dohclient.go", "doqclient.go", "odohclient.go", "message.go", "dnsclient.go", "dotclient.go", "dtlsclient.go"],
  [("validateResponseQuestion", "message.go"), ("ID restore", "pipeline.go request.markDone, doqclient.go, dohclient.go")])

# ---------------------------------------------------------------- listeners
p("C05", "Clients outside a listener's allowed networks get no service",
  """A listener with a list of allowed networks consults that list with the client's address before it does anything on the
  client's behalf: no query from a client outside the list is handed to a resolver, proxied to another server, or answered with data. This holds for
  every listener type, request method and URL path that accepts the option.""",
  ["inputs", "configurations"],
  "every listener type and request path, every client address and allow list",
  """Each listener type has its own handler(s) and its own call into the pipeline; the suite exercises the list on one or two of them.""",
  ["dnslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go", "adminlistener.go", "listener.go"],
  [("isAllowed", "listener.go, called from each handler")])

p("C06", "Client identity in proxy headers is honoured only from trusted proxies",
  """The address used for access control, routing, rate limiting and logging is the address of the network peer. A forwarding header can replace it
  only when the peer itself lies inside the configured trusted-proxy network, and a header that does not parse as an address never yields an address taken from it.""",
  ["inputs", "configurations"],
  "every HTTP listener path, every peer address, header value and proxy configuration",
  """Needs adversarial headers from trusted and untrusted peers in all combinations with the option unset, set to IPv4 and IPv6 networks.""",
  ["dohlistener.go", "odohlistener.go"],
  [("extractClientAddress", "dohlistener.go")])

p("C07", "Every accepted query ends in exactly one definite outcome",
  """For every query a listener accepts there is exactly one outcome on every path: one reply is written, or - only when the pipeline deliberately dropped it, or the reply
  cannot be encoded - the exchange is closed or finished without one. A pipeline error is reported to the client as SERVFAIL; it is never turned into silence
  or into a successful answer.""",
  ["inputs", "fault_sequences", "configurations"],
  "every listener handler, every path through it, including every error return of the pipeline and of message decoding/encoding",
  """Tests cover the success path and selected errors per listener; silent returns on rare branches leave clients to time out and are only visible as latency.""",
  ["dnslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go", "message.go"],
  [("listenHandler, parseAndRespond, handleStream, ODoHqueryHandler", "listener files"), ("servfail", "message.go")])

p("C08", "Replies on datagram transports fit the client's advertised size",
  """A reply sent over a datagram transport (plain UDP on any IP version, and DTLS) is cut to the size the client advertised in its query - the protocol minimum when it advertised none - with the
  truncation flag set by the cut, before it is written. Replies on stream transports are never cut this way.""",
  ["inputs", "configurations"],
  "every listener transport and IP version, every reply and every advertised size",
  """Depends on transport string, IP version, EDNS presence and reply size together; the suite tests one UDP case.""",
  ["dnslistener.go", "dtlslistener.go", "dotlistener.go", "cmd/routedns/main.go", "message.go"],
  [("Truncate on udp/dtls", "listenHandler"), ("network names", "cmd/routedns/main.go networkForIPVersion")])

p("C09", "Padding is added on encrypted transports and removed on plain ones",
  """Every query a client sends over TLS, DTLS or HTTPS, and every reply a TLS, DTLS or HTTPS listener sends, passes through the padding step
  before it is encoded; every query and reply leaving in plain text over UDP or TCP has padding removed first. No path on these transports skips or swaps the step.""",
  ["inputs", "configurations"],
  "every client and listener transport, every path from a message to its encoding",
  """Padding is invisible functionally; only size inspection on the wire of each of the transports would show it.""",
  ["padding.go", "dnsclient.go", "dotclient.go", "dtlsclient.go", "dohclient.go", "dnslistener.go", "dohlistener.go"],
  [("padQuery, padAnswer, stripPadding", "padding.go")])

p("C10", "State-changing requests are never acted on from replayable early data",
  """A request received in 0-RTT early data is handed to the pipeline only if its operation is one that may be replayed safely, or after the handshake has completed; and clients send
  only such operations as early data. This holds on QUIC and HTTP/3, for servers and clients, on first connections and on reconnects.""",
  ["inputs", "schedules", "histories"],
  "every opcode, every handshake state, every listener and client that supports early data",
  """Needs resumption plus a replaying attacker plus non-QUERY opcodes, on both sides of two transports.""",
  ["doqlistener.go", "doqclient.go", "dohlistener.go", "dohclient.go", "odohclient.go"],
  [("isReplayableOpcode", "message/doq files"), ("awaitReplaySafe", "doqclient.go"), ("425 Too Early", "dohlistener.go")])

p("C11", "Input from the network is read under a size limit",
  """Every body or message read from a network peer - HTTP requests and responses, QUIC streams, oblivious messages, blocklist downloads excepted - is bounded by a fixed
  maximum before it is buffered, and exceeding the bound is an error rather than a silently shortened message.""",
  ["inputs", "fault_sequences"],
  "every place that buffers bytes received from a peer",
  """A test needs a hostile peer per endpoint and enough memory to notice.""",
  ["dohlistener.go", "dohclient.go", "odohclient.go", "odohlistener.go", "doqlistener.go", "doqclient.go"],
  [("readBoundedBody, MaxBytesReader, LimitReader, 16-bit length prefix", "HTTP and QUIC code")])

# ---------------------------------------------------------------- cache
p("C12", "Cached and shared answers are keyed by everything that affects them",
  """An answer is stored, shared with a concurrent query, or served from a cache only between queries that agree on name (ignoring case), type, class, DNSSEC-OK bit, checking-disabled bit and client
  subnet. This holds for every cache backend, for persisted and reloaded entries, and for merging of concurrent identical queries. Queries that differ
  only in the letter case of the name use the same entry; queries with several questions are neither cached nor merged.""",
  ["inputs", "histories", "configurations", "schedules"],
  "every pair of queries and every backend; every constructor and comparator of a key",
  """The pairs of queries that differ in exactly one attribute, times backends, times persisted/reloaded state, exceed what example tests try; a missing attribute only shows as a wrong answer to somebody else.""",
  ["cache.go", "lru-cache.go", "cache-redis.go", "cache-blob.go", "request-dedup.go", "cache-memory.go"],
  [("lruKeyFromQuery, keyFromQuery, cacheBlob.matchesKey, dedupKey", "cache and dedup files")])

p("C13", "Truncated, failed and uncacheable responses are never stored",
  """A cache stores a response only if it is not truncated, its outcome is one of the cacheable ones and it has a finite lifetime derived from its records; a missing answer, a failed upstream call, or an unlisted
  response code is never stored, and server failures are kept only for a bounded time. The rule also holds for background refreshes.""",
  ["inputs", "histories", "fault_sequences"],
  "every path from receiving a response to storing it, in the foreground and in background refreshes, for both backends",
  """Requires all response codes times truncation times refresh/foreground paths times backends.""",
  ["cache.go", "prefetch.go", "cache-memory.go", "cache-redis.go"],
  [("storeInCache", "cache.go"), ("truncation check before storing", "cache.go")])

p("C14", "Cached answers are served with remaining lifetime and never after expiry",
  """An answer served from a cache has every record's lifetime reduced by the time it spent in the cache, carries the asking client's transaction ID and question, and is not served once its lifetime has run out.
  Every backend removes or ignores expired entries, including entries reloaded from disk.""",
  ["histories", "inputs", "schedules"],
  "every lookup, every age of the entry, every section of the answer, every backend",
  """Ageing interacts with wall clock, restart and concurrent refresh; the suite checks a single section at a single age.""",
  ["cache.go", "cache-memory.go", "cache-redis.go", "cache-blob.go", "lru-cache.go"],
  [("ageCachedAnswer", "cache.go"), ("expiry checks in Lookup", "backends")])

p("C15", "Answers handed to one client are never shared with another",
  """An answer that is kept (cached, pre-configured, or shared between merged queries) is copied before it is handed out or stored, so that whatever later elements do to one client's answer
  cannot change what another client receives or what is stored.""",
  ["schedules", "histories"],
  "every place that retains an answer beyond one query, every consumer",
  """The damage shows only when a later element mutates the answer while another client holds it - an interleaving of two clients.""",
  ["cache.go", "cache-memory.go", "cache-redis.go", "request-dedup.go", "static.go", "static-template.go", "cache-blob.go"],
  [("encode-on-store/decode-on-load in backends", "cache-blob.go"), ("Copy for waiters", "request-dedup.go"), ("copyRRs", "static.go")])

p("C16", "On-disk state is replaced atomically and durably",
  """Files the program maintains (cache snapshots, downloaded list copies) are replaced only by renaming a completely written, flushed and synced temporary file from the same directory over the target; an error at any step leaves the previous file as it was
  and removes the temporary. A crash at any moment leaves either the old or the new complete content.""",
  ["crash_points", "fault_sequences"],
  "every crash point and every failing I/O step while saving",
  """Crash points between individual system calls cannot be enumerated by unit tests; a short write or missing sync is invisible until power is lost.""",
  ["atomicfile.go", "cache-memory.go", "blocklistloader-http.go"],
  [("writeFileAtomic", "atomicfile.go")])

# ---------------------------------------------------------------- concurrency
p("C17", "Element state shared between queries is always synchronised",
  """State that queries, background tasks or reloads modify is accessed under one lock (or through atomics or channels) at every access, so concurrent queries never race on an element's state or on process-wide tables.""",
  ["schedules"],
  "every interleaving of queries, timers, reloads and background tasks, on every field of every element",
  """The race detector only sees the interleavings and accesses a test performs; the claim is about all access pairs.""",
  ["failback.go", "failrotate.go", "loadbalance.go", "random.go", "roundrobin.go", "rate-limiter.go", "blocklist.go", "client-blocklist.go", "response-blocklist-ip.go", "pipeline.go", "lru-cache.go", "cache-memory.go", "prefetch.go", "fastest-tcp.go", "request-dedup.go", "dnssec/keystore.go", "netns_watch_linux.go", "odohclient.go", "doqclient.go"],
  [("mutex per element", "mu fields")])

p("C18", "Locks are always released and never deadlock",
  """Every lock taken is released on every path out of the code that took it, is not taken again by a task already holding it, and any two locks that are held together are always taken in the same order. While a lock that queries need
  is held, the holder does not wait for an upstream exchange, another query, or a channel peer that needs the same lock.""",
  ["schedules", "fault_sequences"],
  "every path through every function that takes a lock, every pair of locks, every blocking operation",
  """Deadlocks need specific interleavings plus error paths; a lock leaked on an error path only hangs the next query.""",
  ["failback.go", "rate-limiter.go", "pipeline.go", "blocklist.go", "response-blocklist-ip.go", "request-dedup.go", "cache-memory.go", "odohclient.go", "doqclient.go", "dnssec/keystore.go", "netns_watch_linux.go"],
  [("defer Unlock / paired Unlock", "throughout")])

p("C19", "Nobody waits forever: every waiter is released",
  """A query waiting for a pipelined response, for a merged query's result, for the fastest of several probes, or for a pooled script state is always released - by the result, by an error, or by a timeout - and the result is delivered exactly once.
  No background sender can block forever because its receiver is gone.""",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of completion, timeout, connection failure and shutdown; every goroutine spawned on behalf of a query",
  """Leaks and double deliveries need a timeout racing a response or a teardown; tests drive the common order.""",
  ["pipeline.go", "request-dedup.go", "fastest.go", "fastest-tcp.go", "lua.go", "netns_watch_linux.go", "cache-redis.go", "prefetch.go"],
  [("close(done) on every completion path", "pipeline.go, request-dedup.go"), ("buffered channels sized to senders", "fastest.go, fastest-tcp.go"), ("timeout select", "pipeline.go")])

# ---------------------------------------------------------------- policy elements
p("C20", "A blocked query never reaches the upstream it was blocked from",
  """When a blocklist (by query name, client address or client MAC) matches a query, the query is answered locally, dropped, or sent to the configured alternative, and never forwarded to the protected upstream. An allow-list match is
  decided first and always forwards; a query that matches nothing is always forwarded.""",
  ["inputs", "configurations"],
  "every query, list content and list configuration, every path through each blocklist element",
  """Path combinations of allow list, block list, alternative resolvers, EDE templates and list kinds; each test covers one.""",
  ["blocklist.go", "client-blocklist.go"],
  [("match before forward", "Blocklist.Resolve, ClientBlocklist.Resolve")])

p("C21", "Response filters inspect every record before letting an answer through",
  """An address blocklist lets a successful upstream answer through only after every A and AAAA record in its answer, authority and additional sections has been looked up in the list; a name blocklist lets any upstream answer through only after the names in every CNAME, MX, NS, PTR, SRV, SVCB, HTTPS, TXT and SOA record of those sections have been.
  A match (or, inverted, a non-match) never returns the offending record to the client. In filter mode only offending records are removed and an emptied answer becomes a block.""",
  ["inputs", "configurations"],
  "every response, every section and record position, inverted and non-inverted modes",
  """Needs offending records in each section and position, times modes.""",
  ["response-blocklist-ip.go", "response-blocklist-name.go"],
  [("section loops", "blockIfMatch, filterMatch, Resolve")])

p("C22", "List reloads never lose protection",
  """While a list is being reloaded queries continue to be judged by the previous complete list; if loading or parsing fails the previous list stays in force; the old list is released only after the new one has taken its place and no query is using it. A reload that succeeds takes effect, one that fails does not stop later ones, and reloading keeps the
  list's kind, options and source.""",
  ["schedules", "fault_sequences", "histories"],
  "every failure point of a reload, every query concurrent with it, every list kind",
  """Requires failures injected at each load step, concurrent queries and several reload generations.""",
  ["blocklist.go", "client-blocklist.go", "response-blocklist-ip.go", "response-blocklist-name.go", "blocklistdb-*.go", "geoip-db.go", "asn-db.go", "cidr-db.go", "blocklistloader-http.go", "blocklistloader-local.go"],
  [("refreshLoop*", "blocklist elements"), ("Reload", "databases"), ("AllowFailure/lastSuccess", "loaders")])

p("C23", "Names in lists, tables and keys match regardless of letter case",
  """Domain names are compared without regard to letter case wherever a policy decision depends on them: in block and allow lists of every kind, static host tables, cache keys, duplicate-merging, name replacement in responses and response checks. Both the configured entry and the queried name are normalised
  the same way; the regular expressions of a list are matched against the lower-case name. (Regular expressions of routes and replace
  rules are documented as case-sensitive and not part of this.)""",
  ["inputs"],
  "every name in every mix of upper and lower case, in every list kind",
  """0x20-randomised queries are normal on the Internet; tests use lower case.""",
  ["blocklistdb-domain.go", "blocklistdb-hosts.go", "blocklistdb-regexp.go", "cache.go", "lru-cache.go", "request-dedup.go", "message.go"],
  [("strings.ToLower / EqualFold", "database builders and Match functions")])

p("C24", "Failover groups only give up when every member has failed",
  """A failover group (fail-rotate, fail-back, random, load-balance, fastest) that gets an error or an unsuccessful response from one member - REFUSED, NOTIMP, SERVFAIL or an empty answer as far as its options say so; SERVFAIL for the fastest group - asks another one, and returns a failure to its caller only after having made as many attempts as it has members in service; a successful response is returned immediately and unchanged.
  A deliberate drop counts as success.""",
  ["fault_sequences", "schedules", "configurations"],
  "every sequence of member outcomes, every group type, every starting position",
  """The outcome sequences grow exponentially with members and the active position is shared between queries.""",
  ["failback.go", "failrotate.go", "random.go", "loadbalance.go", "fastest.go", "truncate-retry.go"],
  [("retry loop", "Resolve of each group"), ("isSuccessResponse", "resolver.go/failrotate.go")])

p("C25", "A route applies exactly when all its criteria match",
  """A route is taken only when every criterion configured on it holds for the query, or - if inverted - when at least one does not; a router uses the first route that applies and fails the query when none does. Every
  criterion that can be configured takes part in the decision.""",
  ["inputs", "configurations"],
  "every combination of configured criteria and query attributes",
  """2^11 criteria combinations times inversion.""",
  ["route.go", "router.go", "cmd/routedns/main.go"],
  [("route.match", "route.go"), ("Router.Resolve", "router.go")])

p("C26", "Rate limits are enforced and count every query",
  """Within one time window no client prefix gets more than the configured number of queries through to the upstream; every further query goes to the configured limit resolver or is dropped. Every query is counted under the prefix of its own source
  address and counts restart only with a new window.""",
  ["histories", "schedules", "configurations"],
  "every sequence of queries from every address, every prefix configuration",
  """Off-by-one and window boundaries across concurrent clients.""",
  ["rate-limiter.go"],
  [("counter check and increment under lock", "RateLimiter.Resolve")])

# ---------------------------------------------------------------- dnssec
p("C27", "Only validated answers leave the validator as authentic",
  """With validation enforced, a successful or does-not-exist reply reaches the client only if every record set in its answer section was verified or proven to belong to an unsigned zone, or, with an empty answer, its absence was proven; every other such reply becomes SERVFAIL. Replies with other response codes, and all replies in log-only mode, pass, but unauthenticated. The authenticated flag is set only on replies whose validation succeeded completely and is cleared on all others, including when upstream had set it.""",
  ["inputs", "fault_sequences", "configurations"],
  "every upstream answer and every validation outcome, in enforcing and log-only mode",
  """Bogus data comes in unbounded variety; the suite has recorded examples.""",
  ["dnssec.go", "dnssec/validator.go"],
  [("Resolve", "dnssec.go"), ("Validate", "dnssec/validator.go")])

p("C28", "Keys become trusted only through a verified chain to the trust anchor",
  """A zone's keys are used or remembered as trusted only after a delegation record for exactly that zone, itself verified with the parent's trusted keys (or the configured anchor for the root), matched by digest a key that signed the zone's whole key set. Remembered keys are not used past their lifetime. Every signature accepted anywhere was checked for its validity period, its signer being the zone of the data it is used for or an ancestor, and cryptographically with a trusted key of that signer.""",
  ["inputs", "fault_sequences", "histories"],
  "every combination of records an attacker can return for key and delegation lookups, cached or fresh",
  """Attack responses are adversarial combinations (validly signed records of another zone, expired signatures, ...) that fixtures do not contain.""",
  ["dnssec/validator.go", "dnssec/keystore.go", "dnssec-iana.go"],
  [("buildChainOfTrust, verifyRRSIG, filterKeysByDS", "dnssec/validator.go")])

p("C29", "Absence is believed only with a verified proof of absence",
  """A reply without answer records, an unsigned record set or a missing delegation record is accepted as authentic or insecure only when supported by denial records whose signatures were verified with trusted keys of a zone at or above the name asked for, and which actually deny the name or type asked about (including aliases and, for a missing name, the wildcard at its closest encloser). Unsigned or unverifiable denial records are never used, and a record taken from the parent side of a zone cut is never used for anything inside the child but the absence of its delegation record.""",
  ["inputs", "fault_sequences"],
  "every negative or unsigned response",
  """Same adversarial space as positive answers.""",
  ["dnssec/denial.go", "dnssec/denial_existence.go", "dnssec/validator.go"],
  [("collectVerifiedDenialRecords, NSEC/NSEC3 proofs, checkInsecureDelegation", "dnssec/")])

# ---------------------------------------------------------------- transport security
p("C30", "Encrypted upstreams and mutual-TLS listeners are always authenticated",
  """Every encrypted upstream connection verifies the server's certificate against the name configured for that upstream, whether it is reached by name, bootstrap address, proxy or namespace; verification can not be turned off by any path. A listener
  configured for mutual TLS accepts only clients with a certificate from the configured authority, no TLS configuration allows versions before 1.2, and unusable key, certificate or CA files are start-up errors.""",
  ["configurations", "inputs"],
  "every client and listener transport and every combination of TLS options",
  """Missing verification is silent: everything works, only against an attacker it does not.""",
  ["tls.go", "dtls.go", "dnsclient.go", "dotclient.go", "dtlsclient.go", "dohclient.go", "doqclient.go", "cmd/routedns/main.go", "cmd/routedns/resolver.go"],
  [("TLSServerConfig, TLSClientConfig, DTLS*Config", "tls.go, dtls.go"), ("ServerName defaults", "client constructors")])

p("C31", "Network namespaces and privileged sockets stay confined",
  """Code run inside another network namespace is bound to its own system thread and the thread is returned to its original namespace on every path, or never reused. Sockets handed out on behalf of another namespace are limited to the allowed kinds, and
  every descriptor received or created on the way is either handed on or closed.""",
  ["fault_sequences", "schedules"],
  "every error path of namespace switching and descriptor passing",
  """Needs privileges and injected system-call failures.""",
  ["netns_linux.go", "xsocket_linux.go", "xsocketserver_linux.go", "netns_watch_linux.go"],
  [("RunInNetNS", "netns_linux.go"), ("allowedSocket", "xsocketserver_linux.go")])

p("C32", "Scripts run in a sandbox and never share an interpreter",
  """A script can use only the libraries and functions granted to it - no file, process, module-loading or debugging access - and a script error becomes a query error, never a crash. An interpreter is used by
  one query at a time, is returned for reuse on every path, and is returned in the same state in which it was taken.""",
  ["inputs", "programs", "schedules"],
  "every script and every query, every error path",
  """Scripts are arbitrary programs.""",
  ["lua.go", "lua-script.go", "lua-helpers.go", "lua-message.go"],
  [("openLibs allow-list", "lua-script.go"), ("state pool channel", "lua.go"), ("protected call", "lua-script.go")])

p("C33", "Resources opened for a query or connection are always released",
  """Every response body, connection, listener, file, database handle, stream and descriptor the program opens is closed or handed to an owner on every path, including every error path, so that sustained failures
  cannot exhaust memory or descriptors.""",
  ["fault_sequences", "histories"],
  "every acquisition site and every path from it",
  """Leaks need sustained faults; a test of one failure does not notice one leaked descriptor.""",
  ["odohclient.go", "dohclient.go", "blocklistloader-http.go", "geoip-db.go", "asn-db.go", "xsocket_linux.go", "xsocketserver_linux.go", "socks5.go", "atomicfile.go", "dtlsclient.go", "doqclient.go", "pipeline.go"],
  [("defer Close, close-on-error", "throughout")])

# ---------------------------------------------------------------- other elements & configuration
p("C34", "IPv6 synthesis never masks native data or security state",
  """DNS64 synthesises addresses only for successful AAAA answers that contain no native address and only for queries that did not ask for DNSSEC data; in every other case the upstream's own answer is returned
  unchanged, and a synthesised answer never claims to be authenticated. Synthesised records come from the A answer for the same query, one per A record and configured prefix, with the A record's name and lifetime, the prefix in front and
  the IPv4 address in the place RFC 6052 gives for the prefix length. Only prefix lengths defined there are accepted.""",
  ["inputs", "configurations"],
  "every query type, flag combination and upstream answer",
  """Combinations of flags, rcodes and record mixes.""",
  ["dns64.go"],
  [("passthrough conditions", "DNS64.Resolve")])

p("C35", "Lifetime limits hold for every record of every answer",
  """After a TTL-limiting element, every record in every section except the EDNS pseudo-record has a lifetime between the configured minimum and maximum, whichever are set (no maximum configured
  means none), whatever the response code. The pseudo-record, whose lifetime field holds flags, is untouched by the limits and by the functions that select a lifetime, and the cache never takes its flags for a lifetime, neither when
  deciding how long to keep an answer nor when ageing one.""",
  ["inputs", "configurations"],
  "every answer, every section, every TTL value",
  """The pseudo-record's TTL field holds flags; corrupting it breaks DNSSEC signalling rarely and silently.""",
  ["ttl-modifier.go", "cache.go"],
  [("section loops with OPT exclusion", "ttl-modifier.go, cache.go")])

p("C36", "Client-subnet and EDNS privacy settings are applied to every query",
  """When client-subnet removal, replacement or masking is configured, no query is forwarded with the option untouched: removal removes every such option of the query's options record (and nothing else), privacy masking leaves only
  the configured number of leading bits in every such option, an added option replaces what the client sent and is derived from the configured address or else the client's real address, cut to the configured prefix, and add-if-missing adds
  it unless one is there. The same holds for generic EDNS option rules. The configured operation selects the matching rule.""",
  ["inputs", "configurations"],
  "every query with and without the option, IPv4 and IPv6, every configured mode",
  """Leaks are invisible to functional tests.""",
  ["ecs-modifier.go", "edns0-modifier.go"],
  [("ECSModifierDelete/Add/Privacy/AddIfMissing", "ecs-modifier.go")])

p("C37", "Every configuration option takes effect",
  """Each option that the configuration file accepts takes effect: it arrives, alone and in its documented unit, in the matching setting of the element it belongs to, on every listener, resolver, group and router kind it is documented for; a keyword selects what it is documented for; lists are read in the format that was asked for; a list, allowlist, resolver or address option is never mixed up with its sibling. The element then looks at the setting and replaces it only where nothing was configured. No accepted option is silently ignored.""",
  ["configurations"],
  "every option of every listener, resolver, group and router kind",
  """About 150 options times element kinds; the suite checks that example files load, not that values arrive.""",
  ["cmd/routedns/config.go", "cmd/routedns/main.go", "cmd/routedns/resolver.go"],
  [("instantiateGroup/Resolver/Listener", "cmd/routedns")])

p("C38", "Invalid configurations are rejected at start-up",
  """Unknown element kinds, protocols, modes, formats and operations, wrong numbers of upstreams, references to undefined elements, duplicate names and reference cycles are reported as errors before any listener is started (listeners of a named network namespace are only built once the namespace exists). No unknown keyword falls through to a default behaviour, every option that refers to another element takes part in the existence and cycle checks, and every error met while an element is built stops the start-up.""",
  ["configurations"],
  "every configuration file",
  """Each keyword, each reference field and each element kind would need a negative test.""",
  ["cmd/routedns/main.go", "cmd/routedns/resolver.go", "cmd/routedns/config.go"],
  [("DAG construction", "start()"), ("switch defaults", "instantiate*")])

p("C39", "The oblivious proxy cannot be steered to arbitrary requests",
  """The oblivious-DNS proxy forwards only POST requests that declare an oblivious message, completely read and of limited size, only to a syntactically valid host name (no port, address or user name) at the requested absolute path without
  parent references, as a POST over HTTPS, never follows redirects, never forwards before these checks, and passes back only successful answers that declare an oblivious message. The oblivious target decrypts and answers only complete,
  size-limited, well-formed messages, sends the answer only encrypted, and answers plain queries only if that is allowed.""",
  ["inputs"],
  "every request to the proxy and target endpoints",
  """Request smuggling inputs are adversarial.""",
  ["odohlistener.go"],
  [("ODoHproxyHandler, forwardProxyRequest", "odohlistener.go")])

p("C40", "What a failed operation returns is never used",
  """A connection, response, stream, list, parsed address or other object that an operation returns together with an error is used - its fields read, its methods called, handed to another operation or returned as a success - only where the operation is known to have succeeded. A network, file, list server or upstream that fails is therefore handled as an error and never crashes the process.""",
  ["fault_sequences", "inputs"],
  "every call that returns an object together with an error, every use of that object, every path",
  """Faults must be injected at each of several hundred call sites, most of which fail only when a server, a file system or the kernel does.""",
  ["*.go", "dnssec/*.go", "cmd/routedns/*.go"],
  [("error checks", "throughout")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
