#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

MAP = "tracker/storage/map/"
p("C01", "Swarm membership follows the announce history exactly",
  "After any sequence of peer saves, drops and expiry sweeps, the peers listed for a torrent are exactly those that were saved for it and have since been neither dropped nor swept, each with the IP and port of its latest save. An operation on one torrent or peer id never changes what is listed for another.",
  ["histories", "inputs"], "every sequence of save/drop/sweep/clock-advance operations over a small set of torrents, peer ids, IPv4/IPv6 addresses and ports",
  "TestSaveDrop performs one save and one drop of one peer; no test re-announces, mixes torrents, or interleaves sweeps.",
  [MAP+"peer.go", MAP+"memory.go", MAP+"hash.go"],
  [("Memory.Save/Drop/trim", MAP+"peer.go, "+MAP+"memory.go")],
  [("hashmap", "torrent -> swarm (peer id -> peer)", MAP+"memory.go")],
  ["Database.PeerList, PeerListBytes, HashStats, Hashes"])
p("C02", "Seeder and leecher counts equal the swarm's actual content",
  "For every torrent the reported complete and incomplete counts equal the number of currently listed peers whose latest announce was complete respectively incomplete. This holds after any history: first announces, re-announces in both directions, drops, sweeps, restores from a backup, and for swarms of more than 65535 peers.",
  ["histories", "inputs"], "every bounded history of saves (complete or not), drops, sweeps and restores, also started from swarms sitting at the 16-bit boundary",
  "Tests compare the counters after one single save; no transition, drop, sweep or large swarm is checked.",
  [MAP+"peer.go", MAP+"memory.go", MAP+"hash.go", MAP+"encode_binary.go"],
  [("incremental counters in Save/delete/Drop/decodeBinary", MAP+"peer.go, "+MAP+"encode_binary.go")],
  [("PeerMap.Complete/Incomplete", "cached counts", MAP+"memory.go")], ["Database.HashStats"])
p("C03", "Global seed, leech and unique-IP metrics equal the database content",
  "Whenever no operation is in flight, the global seed and leech metrics equal the number of complete and incomplete peers summed over all torrents, and the unique-IP metric equals the number of distinct IPs among all stored peers. This holds after any history of saves (including IP and completeness changes), drops, sweeps and a restore at startup.",
  ["histories", "inputs"], "every bounded history over several torrents sharing peer ids and IPs, and every restore of such a database",
  "No existing test looks at the metrics.",
  [MAP+"peer.go", MAP+"expvar.go", "tracker/stats/stats.go", "tracker/stats/stats_slow.go"],
  [("stats updates in Save/Drop/delete, SyncExpvars", MAP+"peer.go, "+MAP+"expvar.go")],
  [("Seeds, Leeches, IPStats", "global gauges", "tracker/stats/stats.go")], ["stats.Seeds, stats.Leeches, stats.IPStats.Total"])
p("C04", "Concurrent database operations behave as if run one at a time",
  "For every interleaving of concurrent saves, drops, expiry sweeps and reads on the peer database, each read returns, and the final content and counts are, what some one-at-a-time order of the same operations would give (a sweep or a read of all torrents counts as one operation per torrent). In particular an acknowledged save is never lost, nothing is counted twice, and the global metrics agree with the content once all operations finished.",
  ["schedules", "histories"], "all interleavings (up to a preemption bound) of 2-3 threads with 1-2 operations each on colliding torrents and peers, from several initial states",
  "No correctness test is concurrent; benchmarks with parallel Save/Drop check nothing.",
  [MAP+"peer.go", MAP+"memory.go", MAP+"hash.go"],
  [("database RWMutex and per-swarm RWMutex", MAP+"memory.go"), ("check-then-create of swarm and peer in Save", MAP+"peer.go"), ("empty-swarm removal in trim", MAP+"memory.go")],
  [("hashmap, PeerMap.Peers", "shared maps", MAP+"memory.go")], ["Database methods, stats"])
p("C05", "No interleaving has a data race, deadlock or fatal concurrent access",
  "In no interleaving of peer database operations, backups, connection table operations, startup and signals to the whole tracker, metric publication, concurrent HTTP requests (announce, scrape, stats, files, errors) and concurrent UDP requests do two threads access the same memory without synchronisation while one writes, and none deadlocks.",
  ["schedules"], "all interleavings up to a preemption bound of small harnesses over every pair of operations and request kinds, each execution checked with vector-clock happens-before race detection",
  "The test suite is sequential and is not run under the race detector; a race only shows on particular schedules.",
  [MAP+"peer.go", MAP+"memory.go", MAP+"encode_binary.go", "tracker/http/worker.go", "tracker/http/fakeresp.go", "tracker/udp/udptracker.go", "tracker/udp/conndb.go", "tracker/stats/stats_slow.go", "pools/pool.go"],
  [("mutexes and atomics", "throughout"), ("per-worker buffers", "tracker/http/worker.go")])
p("C06", "Peer lists are bounded, distinct, complete and correctly encoded",
  "A peer list for a torrent holds min(n, swarm size) distinct current members of that torrent when n are wanted, never more and never anything else. In compact form every IPv4 peer is exactly 4 address bytes plus a big-endian port in the IPv4 list, every IPv6 peer exactly 16 plus 2 in the IPv6 list; an unknown or empty torrent, or n = 0, gives empty lists. What was returned by earlier calls has no influence.",
  ["inputs", "histories"], "every swarm composition (IPv4/IPv6 mixes, sizes 0..limit+2), every wanted number 0..limit, every iteration order of small swarms, after every short history of earlier list calls on recycled buffers",
  "Tests check fixed announces with a wanted number larger than the swarm; the limit, zero, and buffer reuse are never exercised.",
  [MAP+"hash.go", "pools/pools.go"],
  [("numWant cap and pooled buffers in PeerList/PeerListBytes", MAP+"hash.go")],
  [("Peerlists4/6", "recycled output buffers", "pools/pools.go")], ["Database.PeerList, PeerListBytes"])
p("C07", "The expiry sweep removes exactly the expired peers",
  "A sweep removes every peer whose latest announce is more than the configured expiry ago, and no other peer; a re-announce always restarts the peer's lifetime. After a sweep no torrent without peers remains counted, and every torrent that still has peers remains.",
  ["histories", "inputs"], "every sequence of saves, drops, clock steps around the expiry boundary and sweeps up to a depth; expiry values including 0",
  "TestTrim runs a sweep over a large fresh database and asserts nothing.",
  [MAP+"memory.go", MAP+"peer.go"], [("trim", MAP+"memory.go"), ("LastSeen refresh in Save", MAP+"peer.go")],
  [("LastSeen", "time of the latest announce", "tracker/storage/types.go")], ["PeerList, HashStats, Hashes after Trim"])
p("C08", "A backup restores to the same database",
  "Restoring what a file backup saved gives a database with the same torrents, peer ids, addresses (IPv4 and IPv6), ports, completeness, counts, metrics and remaining lifetimes, for every database content including the empty one. If no backup file exists the tracker starts with an empty database; a backup that cannot be read is an error and left as it is, never taken for an empty one.",
  ["inputs", "histories"], "every database reachable by bounded histories over several torrents with IPv4/IPv6 peers; save, restart, and continue with further operations",
  "One test round-trips one IPv4 peer through the encoder.",
  [MAP+"backup_file.go", MAP+"encode_binary.go", MAP+"expvar.go", "tracker/storage/database.go"],
  [("encodeBinary/decodeBinary", MAP+"encode_binary.go"), ("FileBackup.Save/Load", MAP+"backup_file.go")], (), ["storage.Open, Backup().Save"])
p("C09", "A crash during a backup never loses the previous backup",
  "If the process or machine stops, or a file operation fails (disk full), at any point while a backup or the connection table is being written to a file, the next start finds either the complete previous content or the complete new content, and starts normally. No crash point leaves a file that makes the peer database fail to load or load partially.",
  ["crash_points", "histories"], "every prefix of the file operations of a save (every torn length of each write, every combination of unsynced writes lost), after zero or one earlier successful saves, for backups of 0..3 peers",
  "Tests never interrupt a write.",
  [MAP+"backup_file.go", "tracker/udp/conndb.go"], [("writeFile / writeToFile", MAP+"backup_file.go, tracker/udp/conndb.go")],
  (), ["storage.Open after the crash; UDP requests after the crash"])
p("C10", "A backup taken during traffic is loadable and complete",
  "For every interleaving of a backup with concurrent saves, drops and sweeps, the written backup loads without error and holds every peer that was stored and untouched throughout, no peer twice, and nothing that was never announced; each concurrently changed peer appears in its old or new form or, if added or removed meanwhile, possibly not at all.",
  ["schedules", "histories"], "all interleavings up to a preemption bound of one backup against 1-2 mutating threads on populated databases",
  "Backups are only tested on an idle database.",
  [MAP+"encode_binary.go", MAP+"backup_file.go"], [("per-swarm locking while encoding", MAP+"encode_binary.go")], (), ["storage.Open on the written file"])
p("C11", "Postgres backups survive every fault and restore the newest row",
  "Saving any database content (also an empty one) to Postgres adds one row that restores to the same content, releases its connection, and on any database error returns an error instead of stopping the tracker. Loading restores the newest row, starts empty if there is none, waits at most once, for a bounded time, for a fresher row when the newest is older than ten minutes, and reports errors.",
  ["fault_sequences", "histories", "inputs"], "every sequence of saves/loads up to a depth over a fake Postgres with every single and double fault placement (connect, ping, create, insert, select, scan) and row ages around the recency window",
  "The Postgres backup has no tests at all.",
  [MAP+"backup_pg.go"], [("PgBackup.Init/Save/Load", MAP+"backup_pg.go")], (), ["SQL statements issued, rows, open connections, errors returned"])
p("C12", "A damaged backup or connection file never crashes the tracker",
  "Loading a peer backup or a connection table from a truncated, extended or byte-corrupted file either succeeds or reports an error; it never panics, hangs or allocates absurd amounts of memory. A peer backup that lost its end is an error unless the rest is a whole backup itself: it is never loaded in part. A damaged connection table leaves the tracker running with an empty or partial table in which no connection id other than a stored one is accepted after truncation.",
  ["fault_sequences", "inputs"], "every truncation point, every single-byte substitution from a set of boundary values at every offset, of files written for small databases",
  "Tests only load intact data.",
  [MAP+"encode_binary.go", "tracker/udp/conndb.go"], [("decodeBinary, gobDecode", MAP+"encode_binary.go, tracker/udp/conndb.go")], (), ["storage.Open, UDPTracker.Init"])
p("C13", "UDP announces and scrapes need a connection id issued to that client",
  "With validation enabled, an announce or scrape datagram is served only if its connection id is the latest one issued to exactly that source IP and port (IPv4 and IPv4-mapped IPv6 being the same) and not yet expired and swept; otherwise it gets an error reply, changes nothing and reveals nothing about torrents. With validation disabled every connection id is accepted.",
  ["histories", "inputs"], "every sequence up to a depth of connect/announce/scrape/sweep/clock/restart events by several clients sharing IPs or ports, using every id issued so far, stale ids, others' ids and never-issued ids",
  "Tests check one good and one bad id from one client (and the bad-id test fails on its message).",
  ["tracker/udp/udptracker.go", "tracker/udp/conndb.go", "tracker/udp/connect.go"],
  [("conndb.check before dispatch", "tracker/udp/udptracker.go")], [("connectionMap", "ip:port -> issued id, time", "tracker/udp/conndb.go")], ["datagrams in and out; database calls"])
p("C14", "Connection ids live until the sweep after expiry and survive restarts",
  "A connection id stays valid while it is not older than the configured expiry; a sweep removes exactly the ids older than that, and a new connect replaces the client's id and restarts its lifetime. Saving the connection table and restarting preserves every id with its age; a missing file means an empty table.",
  ["histories"], "every sequence up to a depth of connects, clock steps around the expiry boundary, sweeps and save/restart over several IPv4 and IPv6 clients",
  "Tests add two ids, reload them once, and sweep once with a nanosecond expiry.",
  ["tracker/udp/conndb.go", "tracker/udp/udptracker.go"], [("trim, writeToFile, loadFromFile", "tracker/udp/conndb.go")], [("connectionInfo.TimeStamp", "issue time", "tracker/udp/conndb.go")], ["UDPTracker.Connections, UDP replies"])
p("C15", "Every UDP request gets exactly the reply the protocol prescribes",
  "Each UDP datagram of at least 16 bytes carrying a connect, announce, scrape or unknown action is answered by exactly one datagram, to its sender, echoing its transaction id with the right action and layout; a heartbeat gets the single heartbeat byte, and datagrams under 16 bytes get nothing. Announces shorter than 98 bytes or with port 0, and unknown action numbers (the whole 32-bit field), are answered with an error and change nothing; trailing bytes are ignored. An error action, which only trackers send, may go unanswered.",
  ["inputs"], "all 256 low action bytes, upper action bytes, all datagram lengths 0..120 and around the size limits, transaction ids, IPv4/IPv6/mapped senders, from states with and without a valid connection id",
  "Five fixed datagrams are tested.",
  ["tracker/udp/udptracker.go", "tracker/udp/announce.go", "tracker/udp/connect.go", "tracker/udp/error.go", "tracker/udp/protocol/announce.go", "tracker/udp/protocol/connect.go", "tracker/udp/protocol/error.go"],
  [("process dispatch", "tracker/udp/udptracker.go")], (), ["datagrams out"])
p("C16", "A UDP announce stores the peer and reports its swarm",
  "A valid UDP announce stores the sender's IP with the announced port, peer id and torrent, complete exactly if the event is completed or nothing is left, and replies with the swarm's counts including the sender, an interval in [base, base+fuzz], and at most the wanted number (default if below 1, capped at the limit) of members of the sender's address family - all of them if the whole swarm fits. A stopped event removes the peer and lists no peers.",
  ["inputs", "histories"], "the cross product of events, left values, wanted numbers (negative, 0, 1, default, limit, limit+1, max), ports, families, over all short announce histories of several clients, and both ends of the random interval",
  "Two announces (one IPv4, one IPv6) with numwant 1 in a swarm of one are tested.",
  ["tracker/udp/announce.go", MAP+"hash.go"], [("announce handler", "tracker/udp/announce.go")], (), ["announce reply, later scrapes"])
p("C17", "A UDP scrape reports each requested torrent in order",
  "A scrape of n torrents (0 to 74) is answered by action 2, the transaction id and exactly n twelve-byte entries in request order, each holding that torrent's current seeder count first and leecher count last, as BEP 15 orders them (zero if unknown), duplicates included.",
  ["inputs", "histories"], "every number of torrents 0..74 and all orders/duplications of known and unknown torrents for small n, over swarms of different compositions",
  "UDP scrape has no test.",
  ["tracker/udp/scrape.go", "tracker/udp/protocol/scrape.go"], [("scrape handler, ScrapeResp.Marshall", "tracker/udp/scrape.go, tracker/udp/protocol/scrape.go")], (), ["scrape reply"])
p("C18", "HTTP request parsing recovers exactly the parameters sent",
  "For every GET request line of up to 45 parameters that arrives in one piece, plain or base64 encoded, the tracker acts on exactly the path (taken as it is) and the percent-decoded parameters in it (any byte value, either hex case; of a repeated info_hash, peer_id, port, event or numwant the last one counts in an announce), whatever headers follow. Requests that are not GET, have no HTTP version, an incomplete escape, or are otherwise malformed are answered with status 400 (broken base64 possibly with 500) and change nothing.",
  ["inputs"], "bounded-exhaustive grammar enumeration: all 256 byte values escaped and unescaped in each field, 0..50 parameters, orders, duplicates, flag parameters, methods, paths, truncation of a request at every byte, base64 forms",
  "Three request lines and seven unescape inputs are tested; the fuzz target runs its one seed and asserts nothing.",
  ["tracker/http/parser.go", "tracker/http/worker.go"], [("parse, unescapeFast, parameter switch", "tracker/http/parser.go, tracker/http/worker.go")], (), ["database effects and HTTP replies per request"])
p("C19", "An HTTP reply depends only on its own request and the database",
  "The reply to an HTTP request, and its effect, are the same whichever requests the tracker handled before on other connections, given the same database content. No bytes of an earlier request or reply ever influence or appear in a later one, also when a request is short, cut off, malformed or fails to send.",
  ["histories", "inputs", "fault_sequences"], "every sequence of up to 3 requests (valid, cut at various points, malformed, base64, every path) handled by one worker, with read and write faults, compared with a fresh tracker",
  "Each HTTP test uses a fresh handler call; the connection worker loop is never tested.",
  ["tracker/http/worker.go", "tracker/http/parser.go", "pools/pools.go"], [("reused per-worker request buffer; pooled dictionaries and peer lists", "tracker/http/worker.go, pools/pools.go")], [("data", "request buffer reused by a worker", "tracker/http/worker.go")], ["bytes written per connection; database calls"])
p("C20", "An HTTP announce validates its input, stores the peer and reports its swarm",
  "An HTTP announce with 20-byte info_hash and peer_id and a port in 1..65535 stores the client's IP, port and completeness (event completed or left=0) and replies with interval in [base, base+fuzz], counts including the sender, and at most the wanted number of peers (default when absent, capped at the limit) in compact, full, or without-peer-id form as asked. Any invalid field gives a bencoded failure reason and no effect; event=stopped removes the peer.",
  ["inputs", "histories"], "the cross product of valid, missing and boundary values of every parameter, on IPv4 and IPv6 connections, over short histories",
  "TestAnnounce covers 12 well-formed announces calling the handler directly.",
  ["tracker/http/announce.go", "tracker/http/error.go", "tracker/http/worker.go"], [("announce handler", "tracker/http/announce.go")], (), ["HTTP reply, database content"])
p("C21", "An HTTP scrape reports exactly the requested torrents",
  "A scrape with up to 40 valid info_hash parameters, among any others, replies with one entry per requested torrent, in order, holding its current complete and incomplete counts (zero if unknown). If none is given, or one is not 20 bytes, it replies with a failure reason and no torrent data.",
  ["inputs", "histories"], "every number 0..45 of hashes, duplicates, positions of other and invalid parameters, over swarms of different compositions",
  "HTTP scrape has no test.",
  ["tracker/http/scrape.go", "tracker/http/worker.go"], [("scrape handler and parameter filter", "tracker/http/scrape.go, tracker/http/worker.go")], (), ["HTTP reply"])
p("C22", "No client input or network fault stops the tracker from serving",
  "Whatever bytes clients send over HTTP or UDP, however they disconnect, and whichever accept, read or write calls fail, no handler panics, no worker is lost, no lock stays held, every HTTP connection is closed (at the latest when its configured timeout, counted from accept, is over, and not before), and the next valid request on each protocol is served correctly.",
  ["inputs", "fault_sequences"], "bounded-exhaustive mutation (every truncation, every single-token and byte substitution) of every request kind over both protocols and both builds (with and without forwarded headers), every placement of up to two I/O faults",
  "Tests send well-formed traffic without faults.",
  ["tracker/http/worker.go", "tracker/http/parser.go", "tracker/http/forwarded_appeng.go", "tracker/udp/udptracker.go", "tracker/udp/protocol/scrape.go", "tracker/udp/protocol/announce.go"],
  [("accept/read loops and input validation", "tracker/http/worker.go, tracker/udp/udptracker.go")], (), ["liveness probe after each input"])
p("C23", "Behind a proxy the peer's address is the last forwarded one",
  "In the app-engine build an announce carrying X-Forwarded-For stores the rightmost address of that header of that same request, whatever the spacing around commas; without the header the connection's address is used. A header that is empty or whose rightmost entry is no IP address gives a failure reason and no effect.",
  ["inputs", "histories"], "every header value built from up to 3 entries of an alphabet of addresses, blanks and junk with every separator spelling, headers before/after others, header absent after a request that had one",
  "Eight fixed headers are parsed in isolation.",
  ["tracker/http/forwarded_appeng.go", "tracker/http/worker.go"], [("parseForwarded", "tracker/http/forwarded_appeng.go")], (), ["stored peer address"])
p("C24", "Stopping gracefully terminates and keeps everything acknowledged before",
  "On SIGINT or SIGTERM at any moment after startup, in every combination of enabled protocols, the tracker stops accepting requests and exits, and the peer backup and connection file then hold every announce and connect whose reply was sent before the signal; no datagram or connection that arrives once the final backup is under way is answered without being in it. SIGUSR1 saves the same data and keeps serving. If one of the two saves fails, the tracker ends or serves on all the same and the other one holds. No signal during startup loses what was stored before.",
  ["schedules", "histories", "configurations"], "all interleavings up to a preemption bound of the running tracker (all its goroutines) with clients and one or two signals, for each protocol configuration and backup type",
  "The test run ends with a SIGTERM whose effects nobody checks.",
  ["tracker/signalhandler.go", "tracker/tracker.go", "tracker/udp/udptracker.go", "tracker/http/httptracker.go"],
  [("signalHandler, Shutdown handshakes, WriteConns", "tracker/signalhandler.go, tracker/udp/udptracker.go, tracker/http/httptracker.go")], (), ["process exit, files written, replies"])
p("C25", "Every request is counted exactly once in the published metrics",
  "For every interleaving of request handling with metric publication, the per-interval published counts of hits, connects, announces and scrapes add up over all intervals to the number of such requests handled (every datagram of 16 bytes or more and every HTTP request is a hit; what is refused for its connection id, length, missing info_hash or unreadable forwarded address is only a hit); none is lost or counted twice. The client error total equals the number of UDP error replies and HTTP failure reasons sent. Published when nothing is in flight, the seed, leech, peer, IP, torrent and UDP connection gauges equal the content of the databases.",
  ["schedules", "histories"], "all interleavings up to a preemption bound of request-counting threads with the publisher, and all short sequential request histories",
  "Metrics are not tested.",
  ["tracker/stats/publish.go", "tracker/stats/stats.go", "tracker/udp/udptracker.go", "tracker/http/worker.go", "tracker/udp/error.go", "tracker/http/error.go"],
  [("publish and reset of interval counters", "tracker/stats/publish.go")], [("Hits, Connects, Announces, Scrapes", "interval counters", "tracker/stats/stats.go")], ["expvar variables"])
p("C26", "The controller starts at most one tracker and stops the one it started",
  "Over any history of start, stop, restart, reset and status commands run one after another, and of trackers dying or refusing to die, start launches a tracker only if no process id is recorded and none answers, and then records that process; stop signals only the recorded process, succeeds only once it is gone and then clears the record, and otherwise fails within a bounded time. Status reports the record, the process's liveness and the heartbeat truthfully and always returns.",
  ["histories", "fault_sequences"], "every command/event sequence up to a depth over a simulated process table, pid file (missing, empty, garbage, stale, live) and network, with each system call failing",
  "Only the pid file helper is tested, four operations.",
  ["controller/controller.go", "controller/pidfile.go"], [("Start/Stop/Status", "controller/controller.go")], [("pid file", "recorded process", "controller/pidfile.go")], ["processes spawned, signals sent, pid file, return values"])
p("C27", "Environment overrides file, nearer file wins, user files stay intact",
  "Every configuration setting takes its value from its TRAKX_ environment variable if set, else from the configuration file: trakx.yaml in the working directory if there is one, else the one in ~/.config/trakx (what the file lacks is zero). PORT overrides the HTTP port, ENV:NAME backup paths and a leading ~/ of the log and pid paths are resolved, mode and log level are case-insensitive, and values that do not parse are refused. An existing configuration file is never overwritten and a missing one is generated with the defaults.",
  ["configurations"], "every setting x every combination of sources, pairs of settings, and special values; every state of the configuration directory",
  "No test loads a configuration with overrides.",
  ["config/load.go", "config/config.go", "config/embed.go", "config/paths.go"], [("Load, Parse, generateConfig", "config/load.go, config/config.go, config/embed.go")], (), ["config.Load result, files on disk"])
p("C28", "The webserver serves exactly the embedded pages and never the configuration",
  "With the webserver enabled, a GET of the full path of an embedded file other than the configuration, or / for the index page, returns that file (HTML without tabs and newlines); every other path that is no tracker endpoint returns 404. In info mode the pages are served the same way, announces get an interval and any other path gets no page but the index. In no mode is the configuration file served.",
  ["inputs"], "every embedded file name with every prefix/suffix/case/escape variation of an alphabet, with and without query strings, over the running HTTP tracker",
  "The cache map is compared with two files; serving is not tested.",
  ["config/embed.go", "tracker/http/worker.go", "tracker/http/wrappers.go"], [("GenerateEmbeddedCache, default route", "config/embed.go, tracker/http/worker.go")], (), ["HTTP replies"])
p("C29", "Bencoded output decodes to what was written",
  "For every sequence of dictionary writes (strings, byte strings, integers, lists, nested dictionaries, generic values, with arbitrary bytes and lengths), a standard bencode decoder reads back exactly the written keys and values in order. A value of an unsupported type is reported as an error and leaves the output unchanged, and a reset dictionary behaves like a new one.",
  ["inputs", "histories"], "every operation sequence up to a depth over boundary keys and values, nested to a depth, with resets in between",
  "Each method is tested alone on two or three values.",
  ["bencoding/dictionary.go", "bencoding/encoding.go"], [("Dictionary methods", "bencoding/dictionary.go")], (), ["encoded bytes"])
p("C30", "UDP protocol messages survive an encode/decode round trip",
  "Decoding an encoded connect, connect reply, announce, announce reply or error message gives back the same fields for all values, in the byte layout of BEP 15; an encoded scrape reply is 8 + 12n bytes in that layout and a decoded scrape request holds the hashes sent.",
  ["inputs"], "cross product of boundary values for every field, list lengths 0..74",
  "No codec test exists; end-to-end tests use one value per field.",
  ["tracker/udp/protocol/announce.go", "tracker/udp/protocol/connect.go", "tracker/udp/protocol/error.go", "tracker/udp/protocol/scrape.go"], [("Marshall/Unmarshall", "tracker/udp/protocol/")], (), ["bytes"])
p("C31", "Concurrent requests never see each other's data",
  "For every interleaving of concurrently handled HTTP and UDP requests, each client receives exactly one well-formed reply that is correct for its own request: its own transaction id, the torrent it asked for, and peers of that torrent only. Recycled buffers and objects are never visible to two requests at once.",
  ["schedules"], "all interleavings up to a preemption bound of 2-3 concurrent requests on distinct torrents over worker threads sharing the recycled buffers",
  "Tests run one worker and one request at a time.",
  ["tracker/http/worker.go", "tracker/http/announce.go", "tracker/http/error.go", "tracker/http/consts.go", "tracker/udp/udptracker.go", "tracker/udp/announce.go", "pools/pool.go", "pools/pools.go"],
  [("object pools, per-request buffers", "pools/pool.go, tracker/udp/udptracker.go")], [("pools", "recycled peer lists, dictionaries, request buffers", "pools/pools.go")], ["replies per client"])
p("C32", "Periodic jobs run once at every tick",
  "A periodic job runs at every multiple of its period after it was started, never before it and never twice for the same tick, whatever time each run takes; ticks that passed during a long run are made up for immediately and in order. With the configured period 0, sweeps and backups of the peer database do not run at all.",
  ["histories", "configurations"], "every start offset and every sequence of run durations from a small set (shorter, equal, longer than the period) over a bounded number of ticks, in virtual time",
  "RunOn is not tested.",
  ["tracker/utils/runon.go", MAP+"memory.go"], [("RunOn", "tracker/utils/runon.go"), ("Init period guards", MAP+"memory.go")], (), ["times of the job's executions; sweeps and backups in virtual time"])
p("C33", "Commands report what they did and do nothing else",
  "Every command line of trakx ends within a bounded time, with exit status zero and nothing on the error output if the command succeeded, and with a non-zero status and a message there otherwise. restart and reboot stop the recorded tracker and then start a new one, which is recorded; they start none if there was none to stop or it did not stop. status prints for each of process id file, process and heartbeat what holds. execute serves until it gets an exit signal and then ends with status zero. Anything that is not a command starts, stops and changes nothing.",
  ["histories", "faults"], "every sequence up to a depth of command lines and process events, from every state of the pid file, with well and badly behaving trackers and failing calls",
  "The commands have no test.",
  ["cli_entry.go", "controller/controller.go"], [("main", "cli_entry.go")], [("exit status", "0 exactly on success", "cli_entry.go")], ["exit status, output, processes spawned, signals sent, pid file"])
p("C34", "The fast build tracks peers like the normal one",
  "Built with the fast tag (no per-peer metrics), the tracker stores, lists, counts, expires, saves and restores peers exactly like the normal build, and answers UDP and HTTP requests the same.",
  ["configurations", "histories"], "every history of database operations, sweeps and restarts, and of announces over both protocols, up to a depth, on the fast build against the same reference model",
  "The tests are only run on the normal build.",
  [MAP+"fast.go", MAP+"peer.go", "tracker/stats/stats_fast.go"], [("fast build tag", MAP+"fast.go, tracker/stats/stats_fast.go")], (), ["peer lists, counts, files, replies"])

p("C35", "The tracker serves exactly where it is configured to",
  "A started tracker listens over TCP on http.ip and http.port unless http.mode is disabled (whether it is the tracker or the info page), over UDP on udp.ip and udp.port if udp.enabled is set, on the loopback address and debug.pprof if that is set, and nowhere else. No address means every interface, and IPv4 and IPv6 addresses both work. Every configured HTTP thread serves: clients which send nothing occupy one each and the others go on. An exit signal ends it with status zero in every configuration. If the HTTP tracker or the UDP tracker cannot listen, or the configured database or backup does not exist, the process ends with a non-zero status instead of running without.",
  ["configurations", "faults"], "every combination of modes, addresses, ports, threads, failing listens and storage names",
  "The tests run one configuration.",
  ["tracker/tracker.go", "tracker/http/httptracker.go", "tracker/udp/udptracker.go", "tracker/pprof.go", "tracker/storage/database.go"], [("Run", "tracker/tracker.go"), ("HTTPTracker.Serve", "tracker/http/httptracker.go"), ("UDPTracker.Serve", "tracker/udp/udptracker.go")], [("bound sockets", "equal the configured ones", "tracker/tracker.go")], ["listening sockets, exit status"])

p("C36", "Clients of both protocols share one set of swarms across restarts and crashes",
  "Whatever clients of either protocol announce and stop, with sweeps, periodic saves, save signals, restarts and crashes of the tracker in between, clients of both protocols are told the same: the peers announced over either protocol and not since stopped or expired, less only what was announced after the last completed save when the tracker crashed, and what was stored when it ended properly. UDP connection ids issued before an orderly restart or a save signal stay valid after it until they expire.",
  ["histories", "crash_points"], "every sequence up to a depth of requests on both protocols, waits across the ticks of the periodic jobs, save signals, restarts and crashes of the whole running tracker",
  "No test runs both protocols together, nor stops and starts the tracker.",
  ["tracker/tracker.go", "tracker/signalhandler.go", "tracker/http/announce.go", "tracker/udp/announce.go", MAP+"memory.go", "tracker/udp/conndb.go"], [("Run", "tracker/tracker.go"), ("signalHandler", "tracker/signalhandler.go")], [("peer database", "one for both protocols", "tracker/tracker.go")], ["replies to both protocols' clients"])

p("C37", "Nothing the tracker opens or starts adds up",
  "However often anything happens to a running tracker (requests of any kind on either protocol, malformed ones, clients that stay silent, do not read or go away, failing accepts and reads, sweeps, expiries, saves and saves that fail), once it is over the tracker holds no more open connections, files, database result sets and connections, sockets, goroutines and timers than before, and a failed save leaves no further files behind (if what it created can be removed).",
  ["histories", "faults"], "every such event and every sequence of two or three of them, repeated, with every call of a save failing",
  "Tests end after a few requests and do not count what is left.",
  ["tracker/http/worker.go", "tracker/udp/udptracker.go", "tracker/utils/writefile.go", MAP+"backup_file.go", MAP+"backup_pg.go"], [("workers.work", "tracker/http/worker.go"), ("WriteFile", "tracker/utils/writefile.go")], (), ["open connections, files, goroutines, timers, files on disk"])

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
