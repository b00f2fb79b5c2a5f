#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (checks.json says which are built)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))


SEQ = "bounded exhaustive exploration of the real code: every case of the stated space is executed in virtual time and compared with an independent reference"
SCH = "stateless model checking of the real code: every schedule of the scenarios up to a deviation bound, under a controlled scheduler in virtual time"
BOTH = SEQ + "; plus " + SCH

prop("C01", "Encoding of keys and values is lossless and injective",
     "Encoding a datum's key or value and decoding it again gives the same key or value, for any number of features, any float bit patterns, any label bytes and any integer fields. Two different keys never share an encoding, nor do two different values, and a datum built from its parts has exactly those parts.",
     ["inputs"], "all keys and values over boundary lengths, float bit patterns, label bytes and integer boundary values; all pairs of them for injectivity",
     "the tests encode one datum; identity of data in the store, de-duplication and the query cache all rest on every encoding",
     ["data/gencoder/gencoder.go", "data/datum.go", "util/util.go"], [("MarshalKey/UnmarshalKey/MarshalValue/UnmarshalValue", "data/gencoder/gencoder.go"), ("NewDatum", "data/datum.go"), ("EncodeToString", "util/util.go")],
     SEQ, "Exhaustive over the stated grids (lengths across the varint boundaries, bit patterns, integer boundaries). Values between grid points are not enumerated.")

prop("C02", "A dataset is a map from keys to values with expiry",
     "After any sequence of inserts, overwrites, deletes, refreshes and passing time, a dataset shows for each key exactly the value of its last insert, until it is deleted or its time to live has passed, and never afterwards; a time to live of zero means it stays. Searching and streaming show the same data, each key once, and inserting again over an expired or different entry takes effect at once.",
     ["histories", "inputs"], "all operation sequences up to the depth bound over two keys, two values, TTLs 0, short, long and huge, and waits that land before, at and after each expiry",
     "the tests insert a few data once and never let one expire, overwrite or delete it",
     ["data/newsync.go", "data/insert.go", "data/delete.go", "data/data.go"], [("InsertBDMap/DeleteBDMap/LoopDBMap", "data/newsync.go")],
     SEQ, "Exhaustive to the depth bound against a reference map. An update whose value is equal and whose expiry differs by less than 10 s is allowed to keep the old expiry (documented behaviour of the code).")

prop("C03", "Concurrent operations on a dataset do not lose or resurrect data",
     "When inserts, deletes, searches, streams and refreshes run concurrently on one dataset, the final content is what some sequential order of the inserts and deletes would leave: an acknowledged insert is never removed by a concurrent read, refresh or expiry sweep of an older entry. Concurrent reads report each key at most once with a value it had, and never miss a key that was present throughout.",
     ["schedules"], "all interleavings at statement granularity up to the deviation bound of eleven two- and three-thread scenarios",
     "the tests are single-threaded on a dataset; the race windows are a few instructions wide",
     ["data/newsync.go", "data/insert.go", "data/search.go"], [("LoopDBMap expiry sweep, InsertBDMap", "data/newsync.go")],
     SCH, "Exhaustive to the bound; memory-model effects below statement granularity are not modelled (synchronised accesses are atomic steps).")

prop("C04", "An exact search returns the best matching data, in order",
     "A search of one dataset returns the best min(limit, matching) data that pass the filters, each once, with its correct score under the selected score function, ordered best first in the requested direction, independent of the order of insertion. Filters on label and group label keep exactly the data whose label has every given path.",
     ["inputs", "configurations"], "all subsets of a pool of vectors, all score functions (known and unknown names), both directions, limits around the size of the data, all filter combinations, all arrival orders",
     "the tests search one small file with one score function and look at one or two results",
     ["data/search.go", "data/util.go"], [("Collector.Insert/PassesFilters, Data.Search, score functions", "data/search.go, data/util.go")],
     SEQ, "Exhaustive over the stated spaces against an independent scorer; scores are compared with a float tolerance.")

prop("C05", "A search covers the local data and the data of every peer",
     "A search through a dataset that has peers returns the best results over the union of local data and what the peers answer in time, with each datum once and with its best score over all queries of the search, whatever the order in which answers arrive. All peers are asked while they are no more than six, several of them otherwise. Concurrent searches do not disturb each other.",
     ["inputs", "schedules"], "all placements of data on the local store and up to three peers, one or two queries, both directions; up to ten peers with many results each; all schedules of merging up to the deviation bound",
     "the tests have at most one peer, one arrival order and no overlap between peers",
     ["data/search.go", "data/aggregator.go"], [("AggregatedSearch, MultiAggregatedSearch", "data/search.go"), ("Aggregator", "data/aggregator.go")],
     BOTH, "Peers are scripted reference peers at the dataset level; C25 repeats it with real nodes.")

prop("C06", "Grouping, search context and result limit shape the result as documented",
     "With a search context each result's score is the best of its query score and its scores against the context (only the context when it is prioritised); with grouping at most one result per group is returned, whose score combines the group's best members up to the group limit; with a result limit at most that many results are returned, the best ones. Results are ordered best first in the requested direction.",
     ["inputs", "configurations"], "all context choices, group assignments, limits and directions over a pool of data; the same over all placements of the data on a store and two peers, replicas included",
     "no test uses a context, a group limit or a result limit",
     ["data/aggregator.go", "data/search.go"], [("BestScore/One/Result", "data/aggregator.go")],
     SEQ, "Exhaustive over the stated space, on one store and with the data spread (replicas included) over three sites.")

prop("C07", "A search ends within its timeout and keeps what arrived in time",
     "A search returns no later than its timeout whatever its peers do (answer, fail, stall for ever, stall half way), and its result contains the matching local data and every peer result that arrived well before the timeout. The caller's configuration is not changed and nothing stays blocked for ever afterwards.",
     ["fault_sequences", "schedules"], "all combinations of peer behaviours (prompt, late, silent, partial, flooding, failing) with timeouts and numbers of queries; schedules of the late cases up to the bound",
     "the tests have no slow or failing peer; outcomes depend on which of several events comes first",
     ["data/search.go", "node/datasourceclient.go"], [("timeLimit select, discardResults", "data/search.go")],
     BOTH, "Virtual time: computation takes no time, so 'well before' has a margin; stalls are modelled as sleeping peers; one family runs real nodes over the in-memory network.")

prop("C08", "The query cache answers only the same query, and only while it is fresh",
     "With a cache duration, repeating the same query with the same configuration within the duration gives the same result as the first time, without asking the peers; any query that differs in a key field or in a configuration field is answered for itself. Without a cache duration, or after it has passed since the search that filled the cache (however often it was used in between), a search reflects the current data.",
     ["histories", "inputs"], "all ordered pairs of queries that differ in each single field of the key and of the configuration, at times before and after expiry, with data changes in between",
     "no test uses the cache; a collision needs a particular pair of queries",
     ["data/search.go"], [("GetSearchKey/EncodeSearchConfig, QueryCache", "data/search.go")],
     SEQ, "Exhaustive over single-field differences; life of an answer counted from the search that gave it.")

prop("C09", "An acknowledged insert has the configured number of copies",
     "When a dataset enforces replication, an insert by a client is acknowledged only if the configured number of copies exists (the local one included) and is acknowledged whenever enough asked peers accept it; a copy carries the same datum and the same time to live, goes to each peer at most once, and is never replicated further. Without enforcement nothing is sent to peers.",
     ["configurations", "fault_sequences"], "all combinations of up to three (thorough five) peers that accept, are full, drain or are down, all replication counts, all insert configurations",
     "the tests replicate to no peer that refuses",
     ["data/insert.go", "data/data.go"], [("Insert replication loop", "data/insert.go"), ("RunOnRandomSources", "data/data.go")],
     SEQ, "Exhaustive over the stated space; at most six peers are asked per insert by design, so more than five are not used. One family runs real nodes.")

prop("C10", "Rebalancing moves data without losing any",
     "When a dataset rebalances, a datum leaves the local store only after a peer has accepted that very version of it, with the same value and the remaining time to live; data that is newer than the one sent, and data a peer refused, stays. Datasets without a size target keep everything, and eviction stops at the configured utilisation.",
     ["schedules", "fault_sequences", "configurations"], "all accept and refuse patterns of up to two peers with equal, smaller and larger peers, all random draws, several rounds; all schedules of a transfer against updates of the same key up to the bound",
     "rebalancing needs peers, minutes of time and a concurrent update at the right moment; no test has them",
     ["data/newsync.go", "data/data.go", "data/sync.go"], [("Process transfer goroutine, isEvictionOn, evictBDMap", "data/newsync.go, data/sync.go"), ("DataSourceDiffMap", "data/data.go")],
     BOTH, "Random draws are enumerated, not sampled. Peers are scripted at the dataset level. Pauses of the whole process (seconds to minutes) are among the enumerated deviations.")

prop("C11", "Closing a dataset hands its data to its peers, and ends",
     "When a dataset with reachable, accepting peers is closed, every datum with no time to live or more than a few seconds left is accepted by a peer before the close returns, including inserts acknowledged just before; an insert is either handed over or refused. Closing ends in bounded time even if peers refuse, are down or come and go.",
     ["fault_sequences", "schedules"], "all accept/refuse/down patterns over time of up to two peers, all small contents and sizes around the transfer limits; all schedules of an insert against the close up to the bound",
     "the tests close datasets without peers",
     ["data/data.go", "data/newsync.go"], [("Data.Close", "data/data.go"), ("Process while draining", "data/newsync.go")],
     BOTH, "Bounded time is checked in virtual time.")

prop("C12", "Published statistics describe the stored data",
     "Once the refreshes that follow a change have run (four of them, or less), the published count, average, maximum distance to the average and histogram are those of the stored, unexpired data, and without further change they stay correct on later refreshes; counts follow the content after inserts, deletes and expiry within the refresh period.",
     ["histories"], "all short histories of inserts, deletes, expiry and refreshes over a pool of data, explicit and in the background",
     "the tests look at the count only, after one insert phase",
     ["data/newsync.go", "data/data.go", "data/util.go"], [("Process statistics", "data/newsync.go"), ("GetDataInfo", "data/data.go")],
     BOTH, "Average and histogram need a few refreshes to settle by design (each uses the previous count and average); the check waits for them.")

prop("C13", "A search through the index is safe and answers from stored data",
     "A search that uses the approximate index never touches an index that is being replaced, never fails whatever the dimensions of query and data, and returns only data that was stored when the index was built or is stored now, each once, passing the filters and with its exact score. On a small dataset, with a limit that covers it, it finds everything the index was built from that passes the filters. Before an index exists the search is exact, and an index of data that is all gone does not keep answering.",
     ["schedules", "histories"], "all short histories of inserts, deletes, expiry, refreshes and index searches with equal and mixed dimensions; all schedules of index searches against refreshes up to the bound",
     "a use of a freed index needs a search at the moment of replacement; the tests search when nothing else runs",
     ["data/newsync.go", "data/search.go"], [("Annoyer.replace", "data/newsync.go"), ("SearchAnnoy", "data/search.go")],
     BOTH, "The native index is replaced by an exact stand-in that reports use after free and out-of-bounds reads; C27 binds the stand-in to the native library.")

prop("C14", "Datasets are created once and their configuration only moves forward",
     "A dataset exists from its first creation, insert or information request on, once per name, and independent of all other names; its configuration is always the one with the highest version submitted so far, whatever the order or concurrency of submissions. Searching an unknown dataset is an error and creates nothing; deleting a dataset removes its data and does not affect others.",
     ["histories", "schedules"], "all sequences of create (several versions), get, insert, search, list and delete over two names up to the depth bound; all schedules of concurrent creations up to the bound",
     "the tests create each dataset once, in one thread",
     ["data/dataset.go", "node/nodeservice.go"], [("createIfNotExists/Get/GetNoCreate/Delete", "data/dataset.go")],
     BOTH, "Versions equal to the current one leave the first configuration in place.")

prop("C15", "The dataset list survives a restart and a crash at any point",
     "After a node stops or crashes at any point, a restart finds every dataset whose creation was followed by a completed save, with its configuration, no dataset that never existed, and none that was deleted before the last completed save; a crash during a save leaves the list of the previous save. Concurrent saves and changes never leave a list that misses a dataset that existed throughout.",
     ["crash_points", "schedules"], "a crash before every statement of save and load, under all schedules of saves, creations and deletions up to the bound; lists, names and configurations of all sizes around the buffer sizes; all torn prefixes of the saved file are reached through crash points between writes",
     "the tests never restart a node on its folder nor crash one",
     ["data/dataset.go"], [("SaveIndex/LoadIndex", "data/dataset.go")],
     "stateless model checking with crash injection: every schedule up to the bound, abandoned at every statement, followed by a restart on the left-over files",
     "A crash is a process crash: completed system calls persist (no loss of written pages, which would need a kernel crash).")

prop("C16", "Maintenance keeps datasets that hold data and survives dead peers",
     "Periodic maintenance never removes a dataset that holds data, locally or at a reachable peer, nor one that receives an insert at the same time: an acknowledged insert stays visible. It survives unreachable peers, and per dataset at most one background processor runs at any time.",
     ["schedules", "fault_sequences"], "all schedules of maintenance against inserts, creations and other maintenance up to the bound; all peer conditions",
     "no test runs the maintenance at all",
     ["data/dataset.go", "data/data.go", "node/node.go"], [("ReloadRuns", "data/dataset.go"), ("CheckIfActive/closeIfEmpty/Run", "data/data.go")],
     BOTH, "Empty datasets are removed by design.")

prop("C17", "Membership: newest record wins, own and stale records stay out",
     "A node's peer list holds at most one record per peer, always the newest received so far whatever the order or concurrency of arrival, never the node itself and never a record that was already too old on arrival; records that become too old leave the list. Connected nodes learn of each other and of each other's datasets, and a dataset's peers never include the node itself. A service address that one node was given is learnt and tried by the nodes connected to it, also when that node is gone. A newer configuration of a dataset spreads to the connected nodes that hold it, an older one never replaces a newer one.",
     ["histories", "schedules", "configurations"], "all sequences of peer records (ages, orders, identities) up to the depth bound; concurrent arrivals up to the deviation bound; all join topologies of three nodes (thorough four) over virtual minutes",
     "the tests start two nodes once",
     ["node/node.go", "node/nodeservice.go"], [("AddPeerElement/CheckPeer/SyncWithPeers/JoinToPeers", "node/node.go")],
     BOTH, "Network is the in-memory one; clocks of all nodes agree.")

prop("C18", "A search spreads over any topology, runs once per node, and ends",
     "On any graph of nodes with at most six peers each, cycles included and however slow the calls between them are (within the search's timeout), a search with one or more queries reaches every node that is reachable from the entry node, executes each query at most once on each node, and ends; its result covers the data of all those nodes.",
     ["configurations", "inputs", "schedules"], "all directed graphs of three nodes (thorough four), one and two queries, placements of data, delays of 0, 3 and 12 s per connection; all schedules of arrivals of one search at a node over two and three ways up to the deviation bound",
     "the tests query one node with at most one peer, without a cycle",
     ["node/nodeservice.go", "node/datasourceclient.go", "data/search.go"], [("SearchStream query identity cache", "node/nodeservice.go")],
     BOTH, "Real nodes over the in-memory network.")

prop("C19", "Streaming a dataset sends every stored datum exactly once",
     "A data stream delivers every datum that is stored throughout exactly once before it ends, however many there are and whatever the pace of the receiver, none that expired before, and uses its stream correctly; a receiver that goes away ends it without leaving anything blocked.",
     ["inputs", "schedules", "fault_sequences"], "all sizes around the buffer sizes, receiver paces and cancellation points; schedules of a stream against an insert up to the bound",
     "the tests stream a handful of data to a receiver that is ready",
     ["node/nodeservice.go", "data/newsync.go"], [("DataStream", "node/nodeservice.go"), ("StreamAll", "data/newsync.go")],
     BOTH, "In-memory network with correct-use monitoring of the stream.")

prop("C20", "A draining node takes no inserts, is not ready, and hands over its data",
     "From the moment a node starts to close, it is not reported ready and refuses inserts, with the error peers recognise; what it acknowledged before is handed over to accepting peers before the close ends. A node that runs normally becomes ready after its first synchronisation and accepts inserts.",
     ["schedules", "histories"], "all schedules of inserts and periodic work against the close up to the bound; all orders of ready checks, synchronisation and close",
     "the tests never close a node while it is in use",
     ["node/node.go", "node/nodeservice.go", "server/httpservice.go"], [("Node.Close, state flags", "node/node.go"), ("GetReady", "server/httpservice.go")],
     BOTH, "Peers are scripted servers on the in-memory network because readiness is global to a process.")

prop("C21", "The connection pool gives usable connections and drops broken ones",
     "Asking the pool for a connection to an address gives an open connection to that address, also after connections broke or were closed, and one that is in use is not closed by another user's return of a healthy connection; an unhealthy connection is closed rather than kept. A peer that was down becomes reachable again.",
     ["histories", "schedules"], "all sequences of get, put, break, close and expiry over one and two addresses up to the depth bound; schedules of two users up to the bound",
     "the tests use a pool with no failing connection",
     ["util/connpool.go"], [("ConnectionPool.Get/GetWithRetry/PutIfHealthy", "util/connpool.go")],
     BOTH, "Connections are doubles of the in-memory network.")

prop("C22", "A dataset's name cannot reach outside the data folder",
     "Whatever the name of a dataset, everything the node creates, writes or removes for it lies in that dataset's own folder directly inside the node's data folder; deleting one dataset never touches the files of another or of anything else.",
     ["inputs"], "all names up to a length bound over an alphabet with separators, dots, escapes and ordinary letters, and all pairs of them for mutual isolation",
     "the tests use plain names",
     ["data/data.go", "data/dataset.go"], [("getDBPath, DeletePath", "data/data.go")],
     SEQ, "File effects are confined to a scratch folder; sentinel files around it detect escapes.")

prop("C23", "No request crashes a node",
     "Any well-formed message of the service, with any fields missing, empty or extreme, is answered with a result or an error; the node keeps serving and the data it holds is unchanged by refused requests.",
     ["inputs", "histories"], "all combinations of present, missing, empty and extreme fields for every call, in fresh and populated nodes, followed by a liveness probe",
     "the tests send complete requests only",
     ["node/nodeservice.go", "data/insert.go", "data/search.go", "data/aggregator.go"], [("request handlers", "node/nodeservice.go")],
     SEQ, "A newer configuration may legitimately evict data; contents are then not compared.")

prop("C24", "The size target is respected",
     "A dataset with a size target refuses inserts once its published count has reached the target, with the error peers recognise, and a refused insert leaves no trace, locally or on peers; below the target, or with the target off, inserts are accepted.",
     ["histories", "configurations"], "all targets, counts, refresh points and configurations of the stated space",
     "no test fills a dataset",
     ["data/insert.go", "data/data.go"], [("Insert guard", "data/insert.go")],
     SEQ, "The count is the published one, so the target may be overrun between refreshes by design.")

prop("C25", "Any node of a cluster answers for the whole cluster",
     "In a cluster whose nodes know each other, data inserted through any node can be searched through every node with the right score and value, including after expiry, update, restart of a peer's connection or loss of a node that held no only copy; the answer is what a single store with the union of the data would give, within the limit.",
     ["configurations", "histories", "fault_sequences"], "all assignments of inserts to nodes and entry nodes of two and three node clusters, with and without replication, one node lost or a call failing; every score function, direction, filter, limit, context and grouping through each node over ten placements",
     "the tests run two nodes on one machine with one data set and do not look at failures",
     ["node/node.go", "node/nodeservice.go", "node/datasourceclient.go", "data/search.go"], [("whole request path", "node/nodeservice.go")],
     SEQ, "Real nodes over the in-memory network, virtual time, everything else real.")

prop("C26", "Retention removes a dataset when its retention has passed, and not before",
     "A dataset is not removed by retention before its retention period (two weeks when none is given) has passed since it was last used (created, inserted into, streamed, asked about), and until then all its data can be searched; a dataset that is not used is gone, with its files, within two minutes after its retention. Other datasets are not affected, and it can be created again, empty. A newer configuration brings its own retention with it.",
     ["configurations", "histories", "schedules"], "all sequences of uses at chosen parts of the retention up to the depth bound, for retentions from 30 s to 30 days and absurdly long ones, observed just before and after the end; all schedules of an insert at the last moment up to the deviation bound",
     "retention takes days; no test waits",
     ["data/dataset.go"], [("GetRetention, renew, DataList expiry", "data/dataset.go")],
     BOTH, "Virtual time; one node without peers (peers keep asking about a dataset, which uses it). Searching does not count as a use.")

prop("C27", "The native index finds exact neighbours on small data, safely",
     "A search through the native approximate index never crashes, returns each datum at most once, only data of the last build, with the right score and value and no more than the limit; on data small enough for one leaf of the index it returns exactly the data an exhaustive search by angle finds nearest, for every number of items, limit and dimension, before and after the index is rebuilt.",
     ["inputs", "configurations"], "all subsets of a pool of vectors, all limits, dimensions 1 to 3, rebuilds",
     "the tests of the index use one fixed data set",
     ["annoyindex/annoyindex.go", "data/newsync.go", "data/search.go"], [("SearchAnnoy with the native library", "data/search.go")],
     SEQ, "Runs the native library itself; it is also the conformance check that binds the stand-in of the other checks to it.")

prop("C28", "Peers exchange data until they are alike, and together lose none",
     "While nodes rebalance their data among each other, whatever the interleaving and the random draws, every stored datum stays on at least one of them with its value and its expiry, also when two of them hand each other the same data at the same time, and no datum appears that was not inserted. Peers without a size target end up alike (holding all the data when it is little), their background processing does that by itself, and peers that are alike come to rest.",
     ["schedules", "configurations", "histories"], "all placements of up to four data on two and three peers, all random draws of rounds of rebalancing in both directions; all schedules of two peers that rebalance at once, with two data and with an insert, and of a ring of three, up to the deviation bound",
     "the tests never let two datasets with data rebalance with each other, and a loss needs both to transfer at the same time",
     ["data/newsync.go", "data/data.go", "data/sync.go"], [("Process transfer goroutine, InsertBDMap", "data/newsync.go"), ("DataSourceDiffMap", "data/data.go")],
     BOTH, "Real datasets that know each other as sources, in one process; C10 has scripted peers, C25 real nodes.")

prop("C29", "A server follows its configuration and ends without loss",
     "A server listens on its configured port, advertises exactly the configured broadcast addresses (the port added where it is missing; the flag goes over the environment variable BROADCAST, that over the configuration file), joins every configured service, and keeps its files in the configured directory. It never removes or changes anything else in or outside that directory, however it ends, also when its port is in use. On SIGTERM or SIGINT it is not ready any more but healthy, takes no more inserts, hands its data over to accepting peers and then exits with code 0; started again on the directory it knows its datasets (one that was emptied by handing over may be dropped).",
     ["configurations", "histories", "schedules"], "all combinations of directory, port, broadcast and service settings of the stated space, from flags, environment and file; all moments of one or two signals at every phase of a server's life with and without peers and data; all schedules of a signal against an insert up to the deviation bound",
     "the tests never start the server process and never stop it",
     ["server/veriserviceserver.go", "server/httpservice.go", "cmd/serve.go", "cmd/root.go"], [("RunServer", "server/veriserviceserver.go"), ("health and readiness", "server/httpservice.go"), ("flags", "cmd/serve.go, cmd/root.go")],
     BOTH, "The real server code over the in-memory network and a recording operating system (signals, exit, listeners, file removal); the command line in child processes.")

CHK = json.load(open(os.path.join(V, "checks/checks.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
         notes="All checks build the real code of /repo's working tree through a build overlay in a scratch folder; /repo carries no hooks.")
for p in P:
    if p["id"] in CHK:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                                evidence_file="evidence/%s.json" % p["id"], technique=p["tech"], level="model_checking", level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason="the check is not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
