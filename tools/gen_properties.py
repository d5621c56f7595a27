#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as code only because JSON lines are unpleasant to edit).
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe or [],hook_needed=hook)))

prop("D01","Object store is an atomic reference-counted map",
 "The object store, in memory and on drive alike, behaves as one atomic map from hash to (value, reference count): every read, store, count change, deletion and iteration issued by concurrent callers takes effect at one instant between call and return and returns exactly what that map holds, including the documented not-found answers. A deletion really removes the object, a store adds exactly the requested number of references, a failed operation changes nothing, and the reported amounts and volumes (all and used) always equal what the stored objects add up to.",
 ["schedules","programs","fault_sequences"],
 "every interleaving of concurrent store operations on few or many keys, every operation sequence, with and without disk errors",
 "The tests of the store run one goroutine through a fixed list of calls and never compare statistics with contents; they reach neither interleavings nor failing disks.",
 ["data/cxds/memory.go","data/cxds/drive.go","data/cxds/cxds.go","data/cxds.go"],
 [("single lock around the map","data/cxds/memory.go memoryCXDS.mx"),("one database transaction per operation","data/cxds/drive.go"),("amount/volume counters updated with every change of a count","data/cxds/cxds.go, drive.go incr")],
 [("kvs / objects bucket","hash -> {rc, value}","data/cxds"),("amountAll, amountUsed, volumeAll, volumeUsed","statistics","data/cxds")],
 ["CXDS interface of package data"])

prop("D02","Object store on drive survives a crash at any point",
 "After a crash at any instant the on-drive object store opens again, every operation acknowledged before the crash is in effect, the operation in flight is either fully in effect or not at all, and nothing else has changed. The statistics it reports after reopening equal what the stored objects add up to, whether it was closed properly or not.",
 ["crash_points","fault_sequences","programs"],
 "every operation history, every crash point inside it (before, inside and after each disk write and sync), every set of unsynced writes lost, reordered or torn by the crash, repeated crashes",
 "The existing tests close the store cleanly or not at all; no test stops the store half-way through an operation or loses unsynced writes.",
 ["data/cxds/drive.go","data/cxds/cxds.go"],
 [("database transactions with sync on commit","data/cxds/drive.go Update/View"),("meta bucket with version and statistics","data/cxds/drive.go NewDriveCXDS, loadStat, saveStat")],
 [("objects bucket, meta bucket","durable state","data/cxds/drive.go")],
 ["NewDriveCXDS after a simulated crash; CXDS interface"])

prop("D03","Root index transactions are isolated and ordered",
 "The index of feeds, heads and root records behaves as a set of nested ordered maps changed only by whole transactions: a transaction that returns an error or panics leaves no trace, one that returns nil is applied completely, and concurrent transactions behave as if run one after another. Root records of a head are always iterated strictly in sequence order in both directions, adding what exists keeps it (and keeps the creation time of a root record while renewing its access time), deleting or opening what does not exist gives the documented error, and the lengths agree with the contents.",
 ["programs","schedules","fault_sequences"],
 "every sequence and interleaving of transactions with any mix of operations, mutation during iteration, errors returned half-way and failing disk writes",
 "Existing tests call each operation on its own in one goroutine with at most three records; no test aborts a transaction half-way or runs two.",
 ["data/idxdb/drive.go","data/idxdb.go","data/data.go"],
 [("one database transaction per Tx","data/idxdb/drive.go driveDB.Tx"),("big-endian keys","data/idxdb/drive.go utob")],
 [("feeds/heads/roots buckets","feed -> head -> seq -> root record","data/idxdb/drive.go")],
 ["IdxDB interface of package data"])

prop("D04","Root index survives a crash at any point",
 "After a crash at any instant the on-drive index opens again and holds exactly the effects of the transactions committed before the crash, plus possibly the whole of the one in flight. No record is ever partially present.",
 ["crash_points","fault_sequences","programs"],
 "every transaction history, crash point, set of lost, reordered or torn unsynced writes; repeated crashes",
 "Existing tests never crash or reopen the index after an interrupted transaction.",
 ["data/idxdb/drive.go"],
 [("database transaction with sync on commit","data/idxdb/drive.go"),("version meta record","data/idxdb/drive.go NewDriveIdxDB")],None,
 ["NewDriveIdxDB after a simulated crash"])

prop("C01","The cache never changes what callers observe",
 "Reads, stores and reference-count changes through the container's cache return exactly what the object store alone would return, for every cache size, policy and cleaning setting, any number of concurrent callers, and with the cache switched off. After a proper close the underlying store holds every value and exactly the counts the callers established, nothing lost and nothing duplicated.",
 ["schedules","programs","configurations"],
 "every interleaving of callers over shared objects, every cache configuration (sizes from zero up, LRU/LFU, cleaning ratio, item size limit), every operation mix that drives eviction and write-back",
 "There is no test of the cache at all (cache_test.go is empty); eviction and write-back depend on the order of concurrent accesses.",
 ["skyobject/cache.go"],
 [("write-behind of reference counts","skyobject/cache.go sync"),("eviction by rank","skyobject/cache.go cleanDown"),("one lock","skyobject/cache.go Cache.mx")],
 [("c map of items","cached objects with cached and stored counts","skyobject/cache.go")],
 ["Container.Get/Set/Inc and the CXDS underneath"])

prop("C02","Waiting for an object ends exactly when it arrives",
 "Whoever asks the container for an object that is not there yet receives that object, with its exact bytes, once it is stored by anyone, exactly once per request and without further action; requests for a present object are answered at once. Withdrawing a request means no delivery is owed any more and leaves no residue that blocks other callers or later operations.",
 ["schedules","programs"],
 "every interleaving of requests, withdrawals, stores, reads and evictions over shared objects",
 "No existing test has two goroutines asking for one object, or a withdrawal racing the arrival.",
 ["skyobject/cache.go"],
 [("per-item list of waiters","skyobject/cache.go Want, Unwant, Set")],
 [("wants","channels waiting for the object","skyobject/cache.go item")],
 ["Container.Want / Unwant / Set"])

prop("C03","Cache and registry cache stay within configured limits",
 "The number and total size of objects kept in memory never exceed the configured maximum amount and volume once an operation has returned, apart from objects that are pinned because somebody is waiting for them or a root is being filled with them; objects above the item-size limit are never kept. The number of unpacked registries kept never exceeds its configured limit, zero meaning none, and when the limit is reached the least recently used one is dropped.",
 ["schedules","programs","configurations"],
 "every configuration of limits and every interleaving of operations that insert, touch, pin and release objects",
 "No test exercises eviction; whether the bound holds depends on which objects are pinned when cleaning runs.",
 ["skyobject/cache.go"],
 [("cleaning down to a ratio when full","skyobject/cache.go putToCache, cleanDown"),("registry eviction","skyobject/cache.go addRegistryToCache")],
 [("amount, volume","current cache load","skyobject/cache.go")],
 ["Container.Stat / cache statistics"])

prop("I01","The index answers with the newest root of every head",
 "For every feed and head, the last root the container reports is the one with the greatest sequence number ever recorded and not deleted, regardless of the order and concurrency in which roots were saved, received or deleted, and it never moves back to an older root except by deletion. The active head of a feed is the head whose last root has the latest timestamp; listing feeds and heads, adding or removing feeds, heads and roots behave as operations on one atomic index, adding something that exists changes nothing, and a refused operation changes nothing.",
 ["schedules","programs","histories"],
 "every order and interleaving of publishing, receiving, filling and deleting roots over several feeds and heads",
 "Existing tests cover one feed with one head in one goroutine; older roots that finish late, blank heads and deletions racing with additions are not reached.",
 ["skyobject/index.go","skyobject/container.go"],
 [("in-memory index guarded by one lock mirroring the durable one","skyobject/index.go"),("active-head selection by timestamp","skyobject/index.go setActive")],
 [("feeds / heads / active / last","in-memory index","skyobject/index.go")],
 ["Container.LastRoot, LastRootSeq, ActiveHead, Heads, Feeds, Root, AddFeed, AddHead, DelFeed, DelHead, DelRoot"])

prop("I02","A container restarts with everything it acknowledged",
 "After a proper close or a crash at any instant, a container opened on the same files reports exactly the feeds, heads and roots acknowledged before (the one in flight may or may not be there), with the same last roots and active heads. Every root it lists can be read completely: its record, its registry and every object reachable from it are present with content matching their hashes, and deleting roots never touches objects another listed root still needs.",
 ["crash_points","fault_sequences","histories"],
 "every history of saves, receptions and deletions, every crash point inside each, any loss of unsynced writes, repeated restarts",
 "No existing test reopens a container, let alone after a crash between the object store and the index write.",
 ["skyobject/container.go","skyobject/index.go","skyobject/cache.go","skyobject/unpack.go"],
 [("objects are stored before the root record","skyobject/unpack.go Save"),("load of the index on start","skyobject/index.go load"),("cache write-back on close","skyobject/cache.go Close")],None,
 ["NewContainer on surviving files; Walk of every listed root"])

prop("I03","Reference counts equal live references",
 "Whenever no save, fill or delete is in progress, the reference count of every stored object equals the number of references to it from the live roots' trees (as the sharing rules count them), so an object a live root needs never has a zero count and deleting all roots brings every count to zero. Cleaning up then removes exactly the objects with a zero count that nobody is using, and trimming old roots keeps exactly the requested number of newest roots per head and nothing else.",
 ["schedules","programs","histories"],
 "every history of saves, updates sharing subtrees, deletions, failed and aborted fills and clean-ups, in any interleaving",
 "Existing tests check a handful of counts after one save; conservation over histories and interleavings is not checked anywhere.",
 ["skyobject/unpack.go","skyobject/container.go","skyobject/cache.go","skyobject/index.go","skyobject/del_pack.go","cxoutils/cxoutils.go","skyobject/registry/split.go","skyobject/registry/walk.go"],
 [("increment on save, decrement on delete","skyobject/unpack.go, skyobject/container.go"),("clean-up by zero count","cxoutils/cxoutils.go")],
 [("rc","reference count of an object","data/cxds")],
 ["CXDS iterate, Container.DelRoot, cxoutils.RemoveObjects, cxoutils.RemoveRootObjects"])

prop("U01","Saved roots form one signed, gapless chain",
 "Every successful save through an unpacked root gives the root a sequence number one greater than the last root of that head (zero for the first), a previous-hash equal to the hash of that last root, a timestamp that does not precede the previous one, and a signature by the feed's key over its encoding; a failed save leaves the chain as it was. Concurrent savers and savers holding a stale root never produce two roots with the same sequence number in one head or break the chain.",
 ["schedules","programs","fault_sequences"],
 "every interleaving of savers on one head, every history of saves and deletions, failing storage, clock steps between saves",
 "Existing tests save once or twice from one goroutine; the chain under concurrency or failure is not examined.",
 ["skyobject/unpack.go","skyobject/container.go","skyobject/index.go","skyobject/registry/root.go"],
 [("save under the container's index lock","skyobject/unpack.go Save"),("signing","skyobject/unpack.go")],None,
 ["Container.Save, Container.Root, Container.LastRoot"])

prop("F01","A received root becomes full only when its whole tree is here",
 "A root received from elsewhere is reported as filled, recorded and served only if its registry and every object reachable from it are stored with bytes matching their hashes; if any object cannot be obtained, the deadline passes or filling is cancelled, the root is not recorded and all reference counts are exactly what they were before. Filling never stores bytes under a hash they do not have.",
 ["schedules","fault_sequences","inputs"],
 "every tree shape (shared, repeated and nested objects, dynamic references, reference lists of any depth), every order and concurrency of arrivals, missing or failing objects, cancellation at any point",
 "fill_test.go fills a few fixed trees with every object available; losing objects and cancelling at arbitrary points are not tried.",
 ["skyobject/fill.go","skyobject/cache.go","skyobject/registry/split.go","skyobject/registry/split_refs.go","skyobject/index.go"],
 [("requests and counts per filled object","skyobject/fill.go"),("apply or reject of filling counts","skyobject/cache.go Finc"),("index update after filling","skyobject/fill.go Run")],
 [("fc","filling count of an object","skyobject/cache.go")],
 ["Filler.Run, Container.LastRoot, CXDS contents"])

prop("F02","Filling terminates and respects its concurrency limit",
 "A fill whose objects all arrive finishes successfully in bounded time whatever its concurrency limit; a fill that is closed or fails returns promptly, leaving no goroutine, waiter or lock behind. At no time does one fill have more subtrees in progress or objects requested at once than its configured limit allows.",
 ["schedules","configurations","fault_sequences"],
 "every schedule of arrivals, every limit from one up, closing or failing at any point",
 "Tests run one fill to completion with everything ready; termination under all schedules cannot be sampled by them.",
 ["skyobject/fill.go","skyobject/registry/split.go"],
 [("limit channel","skyobject/fill.go Go"),("close signal","skyobject/fill.go Close")],None,
 ["Filler.Run return, requests issued on the request channel"])

prop("R01","An ordered collection behaves as a list over failing storage",
 "A collection of references kept as a Merkle tree behaves exactly like a list under any sequence of append, set, delete, slice, look-up and iteration in either direction (also while being changed inside an iteration), for any degree and loading mode, and equal lists built with the same degree by appending encode to the same hash. When loading or storing a node fails half-way, the operation reports the error, and after the storage recovers reloading the collection from its hash gives a list that the history allows, never a corrupted one. A walk visits the tree in order, stops for good when told to, and starts from the hash of the present list. Whatever the stored nodes say about themselves (a peer can make them), every call returns.",
 ["programs","fault_sequences","configurations"],
 "every program of list operations, every degree and flag combination, every point at which the object storage under it fails",
 "The many existing tests use hand-picked lengths and never make storage fail in the middle of an operation.",
 ["skyobject/registry/refs.go","skyobject/registry/refs_node.go","skyobject/registry/refs_walk.go","skyobject/registry/refs_index.go"],
 [("Merkle tree with lazy loading","skyobject/registry/refs_node.go"),("flags and modification marks","skyobject/registry/refs_mod.go")],None,
 ["registry.Refs methods, Pack seam"])

prop("N01","One live connection per peer, and both ends agree",
 "Between two nodes at most one connection is established at a time however many connect attempts race from both sides; a failed or refused handshake leaves no trace, and a connect call ends with a usable connection or an error within the response timeout. Peers with another protocol version, or that answer with anything but the handshake, are refused, and each end knows the other by its true identity.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of simultaneous connects, accepts, closes and handshake messages with delays, resets and silent peers",
 "node_test.go connects one pair at a time over loopback; simultaneous or half-dead handshakes are not produced.",
 ["node/node.go","node/handshake.go","node/transports.go","node/conn.go"],
 [("pending table and handshake","node/node.go onNewConn, initConn"),("duplicate peer refusal","node/handshake.go hasPeer")],
 [("pendConns, addrToConn, pkToConn","connection tables","node/node.go")],
 ["TCP().Connect, Node.Connections, OnConnect / OnDisconnect"])

prop("N02","Connection limits hold and slots are given back",
 "A node never has more connections, or more pending handshakes, than its configured limits, where zero switches a limit off as documented. Every connection that ends for whatever reason gives its slot back, so once faults stop new connections up to the limit succeed.",
 ["schedules","configurations","fault_sequences"],
 "every limit setting and every order of connects, failing handshakes, disconnects and closes",
 "Existing tests never reach a limit or count slots after failures.",
 ["node/node.go","node/transports.go","node/config.go"],
 [("limit check under the node lock","node/node.go onNewConn"),("removal on init error and on close","node/node.go onConnInitErr, removeConn")],None,
 ["Connections, pending handshakes, Connect errors"])

prop("N03","Every request gets its own answer or a timely error",
 "Each request on a connection returns the response sent for exactly that request, or an error no later than the configured response timeout after it was sent; late, duplicate or unsolicited responses are discarded and never delivered to another request nor stall or break the connection. Concurrent requests on one connection do not affect each other, and when a connection closes all of its pending requests end.",
 ["schedules","fault_sequences"],
 "every interleaving of concurrent requests with delayed, missing, duplicate and reordered responses and with closing",
 "Existing tests send one request at a time to a healthy peer.",
 ["node/conn.go","node/msg/msg.go"],
 [("request table keyed by message number","node/conn.go reqs, sendRequest, isResponse"),("response timer","node/conn.go sendRequest")],None,
 ["RemoteFeeds, Subscribe, Preview, object requests of Conn"])

prop("N04","Subscribers converge on the publisher's newest root",
 "Once faults stop and a path of mutually subscribed nodes links a node to a publisher, that node within bounded time after the next publication or subscription holds the publisher's newest published root of the feed completely, with byte-identical objects, and reports it as filled exactly once. Roots reach nodes transitively through nodes that only relay, and a late subscriber gets the newest root without a new publication.",
 ["schedules","fault_sequences","histories"],
 "every topology of a few nodes, publication history, delay, reset, partition and heal pattern, subscription and unsubscription order",
 "send_receive_test.go sends a root between two healthy nodes; faults, relays and races with subscription are not covered.",
 ["node/head.go","node/feed.go","node/feeds.go","node/conn.go","skyobject/fill.go"],
 [("push of roots to subscribers","node/feeds.go broadcastRoot"),("per-head filling with requests to several peers","node/head.go"),("push of the last root on subscription","node/conn.go sendLastRoot")],
 [("filling head, knowns, queued roots","replication state","node/head.go")],
 ["OnRootFilled, Container.LastRoot of every node"])

prop("N05","Nothing forged or misplaced is ever accepted",
 "A node accepts a root only if it is validly signed by the key of the very feed it is filed under and filed with the head and sequence number inside that signed root, and accepts an object only if its bytes hash to the requested key. Whatever a hostile peer sends (forged, altered, replayed or mislabelled roots and objects), nothing that fails these checks is stored as a root of a feed, reported to callbacks as received or filled, or forwarded.",
 ["inputs","schedules","fault_sequences"],
 "every message a hostile peer can send at any moment of the protocol",
 "Tests only use honest peers.",
 ["node/conn.go","node/feeds.go","node/head.go","skyobject/container.go","skyobject/index.go"],
 [("signature verification of received roots","skyobject/index.go receivedRoot"),("hash check of received objects","node/head.go, node/conn.go cget")],None,
 ["OnRootReceived, OnRootFilled, Container.LastRoot, CXDS contents"])

prop("N06","A node never goes back to an older root",
 "For every feed and head, the roots a node reports as filled and the last root it serves have strictly growing sequence numbers while roots are not deleted, whatever order they arrive in, and the roots of a head it passes on to a subscriber never go back to an older one within one subscription (a root published directly by the user excepted). An old root is never fetched, nor reported as received, while a newer one of the same head is held.",
 ["schedules","fault_sequences","histories"],
 "every arrival order of roots from several peers, delays, duplicates, reconnects and restarts",
 "Existing tests deliver roots in order from one peer.",
 ["node/head.go","node/feeds.go","node/conn.go","skyobject/index.go"],
 [("sequence checks before filling","node/conn.go handleRoot, node/head.go"),("index keeps the greatest sequence","skyobject/index.go addRoot")],None,
 ["OnRootFilled sequence, Container.LastRoot"])

prop("N07","Roots and feed lists go only where they are shared",
 "A peer receives roots of a feed only while it and the node have agreed on a subscription to it: never before subscribing, never after either side unsubscribed or the node stopped sharing the feed, and a subscription is confirmed only if the node shares the feed and its callback agrees; the only exception is the answer to a preview request, and only for a shared feed. The list of shared feeds is given out only by public nodes, and both ends' views of the subscription agree once traffic stops.",
 ["schedules","histories"],
 "every interleaving of subscribe, unsubscribe, share, stop sharing, publish and disconnect on several connections",
 "Existing tests subscribe once and never race unsubscription with publication.",
 ["node/feeds.go","node/conn.go","node/node.go"],
 [("feed/connection table owned by one goroutine","node/feeds.go"),("subscription messages","node/conn.go handleSub, handleUnsub")],
 [("fs, cs","feed -> connections, connection -> feeds","node/feeds.go")],
 ["messages on the wire seen by scripted peers; Conn.Feeds, ConnectionsOfFeed"])

prop("N08","Closing always finishes, at any time, from anywhere",
 "Closing a connection or a node, once or repeatedly, concurrently with any other activity (a connection also from inside any callback, a node also from inside the callbacks about roots), returns within bounded time without panicking. Afterwards every goroutine the node started ends, blocked calls return errors, peers notice, and everything acknowledged before is in the files.",
 ["schedules","fault_sequences"],
 "every point of every activity (handshakes, fills, requests, publications, subscriptions, peer exchange) at which close is called, including from several callers at once",
 "Existing tests close idle nodes.",
 ["node/node.go","node/conn.go","node/feeds.go","node/head.go","node/transports.go","node/swarm.go","skyobject/container.go","skyobject/fill.go"],
 [("close channels and wait groups","node/*.go closeq, await"),("close once","node/node.go closeo")],None,
 ["Node.Close, Conn.Close, goroutine set of the simulator"])

prop("N09","No input from a peer can crash or wedge a node",
 "Whatever bytes a peer sends, at most its own connection is closed: the node never panics, exits, deadlocks or stops serving its other connections, and resources held for that peer are released. Well-formed messages survive encoding and decoding unchanged and decoding arbitrary bytes yields a message or an error.",
 ["inputs","schedules","fault_sequences"],
 "every byte string and every sequence of well-formed or mutated messages, at any protocol state, interleaved with honest traffic",
 "Tests contain no malformed or hostile traffic.",
 ["node/conn.go","node/msg/msg.go","node/handshake.go","node/head.go","skyobject/registry/reg.go","skyobject/registry/registry.go","skyobject/registry/schema.go","skyobject/registry/root.go","skyobject/registry/refs_node.go","skyobject/registry/split.go"],
 [("message size and type checks","node/conn.go receiveMsg, node/msg/msg.go Decode"),("registry and schema decoding","skyobject/registry")],None,
 ["panics and liveness of the node under a scripted hostile peer"])

prop("N10","Preview shows a remote feed without changing anything",
 "A preview gives the caller the remote peer's current last root, verified as that feed's, and exactly the object bytes belonging to the requested hashes, taken locally or from the peer. It never adds roots, feeds, objects or reference counts to the node unless the caller asks to subscribe, and failures of the peer surface as errors, never as wrong data or a hang.",
 ["schedules","fault_sequences","inputs"],
 "every preview of any tree against honest, slow, failing and lying peers, racing with publication and closing",
 "preview_test.go previews two fixed objects from a healthy peer.",
 ["skyobject/preview.go","node/conn.go","skyobject/container.go"],
 [("preview pack without storing","skyobject/preview.go"),("hash check","node/conn.go cget")],None,
 ["Conn.Preview, CXDS and index contents before and after"])

prop("W01","Peer exchange keeps bounded, fresh, valid peer lists",
 "The peers a swarm knows never include the node itself, the same peer twice, or more than the configured number; only peers with well-formed addresses that the user added or a list for the feed of the swarm named are kept or passed on, and lists handed to a peer are of the right feed, not longer than configured and never contain that peer. A peer that was neither added, named in an answer nor connected for the configured expiry period is dropped at the next clearing, one that was is kept, and leaving a swarm or closing the node ends all its activity within bounded time.",
 ["schedules","histories","configurations","fault_sequences"],
 "every exchange history among several nodes, honest or hostile lists, failing and recovering peers, clock progress, joining and leaving at any time",
 "There are no tests of peer exchange.",
 ["node/swarm.go","node/conn.go"],
 [("peer table with retry counters and expiry","node/swarm.go"),("list validation","node/swarm.go validatePeer")],
 [("peers","peer address -> state","node/swarm.go")],
 ["Swarm methods, messages on the wire"])

prop("L01","Log lines are whole, tagged and filtered exactly",
 "Every enabled log call writes exactly one whole line with its prefix, tag and all of its arguments in order, never mixed with another line, in an order consistent with the callers, while debug calls write if and only if debugging is on and their pins intersect the configured pins. Concurrent use, slow or failing outputs and changing prefix or output in between never lose, duplicate, split or misroute lines.",
 ["schedules","configurations","fault_sequences"],
 "every interleaving of concurrent log calls and set-up changes, every pin and debug setting, slow and failing outputs",
 "log_test.go calls each method once from one goroutine with one argument list.",
 ["node/log/log.go"],
 [("standard logger with one write per line","node/log/log.go"),("pin mask","node/log/log.go Debug*")],None,
 ["bytes reaching the configured output"])

prop("A01","Rolling averages are exact under concurrent use",
 "After any number of additions, from any number of callers, a rolling average equals the mean of the most recent samples up to its window (of all samples while fewer were added), every addition returns the average right after itself in one total order consistent with real time, and reading returns the latest of these values. Time-based additions measure the elapsed time of the clock in use, and a window of zero or less is refused.",
 ["schedules","programs","configurations"],
 "every sequence of samples and window, every interleaving of adders and readers, clock steps",
 "No test touches the averages.",
 ["skyobject/statutil/average.go"],
 [("ring of samples under a lock","skyobject/statutil/average.go")],
 [("bins, average, last","window contents and value","skyobject/statutil/average.go")],
 ["Duration and Float"])

prop("S01","Statistics are available and correct at any moment",
 "Asking a container or node for its statistics at any moment succeeds and reports numbers consistent with some recent state: feeds, heads and root counts as in the index, object amounts and volumes as in the object store and cache. It never fails, panics or blocks because of an empty feed or head or concurrent changes.",
 ["schedules","programs"],
 "every state reachable by adding and removing feeds, heads, roots and objects, interleaved with statistics calls",
 "No test asks for statistics of blank feeds or during changes.",
 ["skyobject/stat.go","skyobject/index_stat.go","skyobject/cxds_stat.go","node/node.go"],
 [("statistics gathered under the same locks","skyobject/index_stat.go, skyobject/cxds_stat.go")],None,
 ["Container.Stat, Node.Stat"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import sys
for p in P:
    assert len(p["title"])<=80,p["title"]
print(len(P),"properties")
