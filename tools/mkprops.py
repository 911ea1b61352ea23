#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

prop("C01", "The cache is the fold of the change notifications it was given",
 "After any history of add, modify, delete and clear notifications, reading an object by resource type, cluster, namespace and name returns exactly the version last reported for that identity, or nothing if it was last deleted or cleared, and listing returns exactly the set of such objects. A notification for one identity never changes what is read for another, and clearing one cluster's resource type removes all of its objects and nothing else. Searches always see the index values of the current version of an object, never those of an earlier one.",
 ["histories", "inputs"], "every finite history of notifications over any resource types, clusters, namespaces and names",
 "The unit tests add a handful of objects once and query them; no test modifies, deletes or clears and then reads, and none uses two clusters or two types with colliding names.",
 ["store/memory/memory.go"],
 [("four-level map keyed type/cluster/namespace/name", "store/memory/memory.go: OnResourceAdded, OnResourceModified, OnResourceDeleted, Clean"), ("index rebuilt on every notification", "store/memory/memory.go: buildResourceWithIndex")],
 ["store.Store.Get", "store.Store.Query"],
 [("resourceMap", "cached objects by type, cluster, namespace, name", "store/memory/memory.go")])

prop("C02", "Cached data survives broken streams and converges to the cluster",
 "For every sequence of upstream changes, refused connections, broken streams and error events, the cached objects of one resource type in one cluster stay readable and unchanged from the loss of its stream until the re-established stream reports something or ends, and from its first report on equal exactly what that stream has reported. Every lost or refused stream is retried without limit, so once the faults stop the cache becomes equal to the cluster's state within one stream lifetime. A fault on one stream never affects the cached objects of any other type or cluster.",
 ["fault_sequences", "histories", "schedules"], "every interleaving of upstream object changes with connect failures, stream ends, error events and garbage on every (type, cluster) stream",
 "No test runs the watcher at all (the package has no tests and is not imported by the tested ones); outages, reconnects and retries take seconds to an hour of real time.",
 ["watcher/watcher.go", "store/memory/memory.go"],
 [("list-free watch loop: clear on first report of a new stream, then replay", "watcher/watcher.go: watchResources"), ("retry after 3 s (stream end) / 15 s (connect error)", "watcher/watcher.go: watchResources")],
 ["upstream watch connections", "store.Store.Query", "store.Store.Get"],
 [("first", "nothing received yet on the current stream", "watcher/watcher.go")])

prop("C03", "A stopped watcher writes nothing more and releases its streams",
 "Once watching has been stopped, every open upstream stream is closed and no new one is opened, whichever phase each stream was in (connecting, streaming, waiting to retry). No change reported upstream after that ever reaches the cache, and what was cached stays as it was.",
 ["schedules", "fault_sequences"], "every phase of every stream at which the stop can arrive, and every later upstream activity",
 "No test starts or stops a watcher.",
 ["watcher/watcher.go", "cmd/cacheproxy/main.go"],
 [("stop channel checked in the retry loop and in the event loop", "watcher/watcher.go: watchResources, Stop")],
 ["upstream watch connections", "store.Store.Query"],
 [("stop", "closed when the watcher must end", "watcher/watcher.go")])

prop("C04", "A cached list contains exactly the objects matching the query",
 "A list served from the cache contains exactly the cached objects that satisfy every restriction given: the namespace in the path, every part of the search expression (substring over all index values, key=value substring, quoted exact value, '!' negation, advanced selectors with =, !=, in, notin and existence), and the label selector. Any number of restrictions, in any order, combine by conjunction; none is ever dropped. A search on an unknown key or a malformed selector is answered with an error (an unknown key, if nothing is cached to search, with an empty list), never with a list that ignores it.",
 ["inputs", "configurations"], "every cache content, index configuration, namespace, search expression and label selector",
 "The tests evaluate 14 search strings on one or two objects each; combinations of several advanced parts, clusters, namespaces and label selectors are never tried, and the label-selector path is tested against a stub.",
 ["page/page.go", "store/memory/memory.go", "api/proxy.go", "kube/label.go"],
 [("search parts and matching", "page/page.go: SearchParts, Match"), ("label selection on query result", "api/proxy.go: Proxy"), ("selector parsing", "kube/label.go: ParseToLabelSelector")],
 ["HTTP list responses", "store.Store.Query"])

prop("C05", "Pages partition the result and the counts add up",
 "For a fixed cache content and query, requesting pages 1, 2, 3, … of any size returns consecutive, non-overlapping slices whose concatenation is exactly the unpaged result in the same order, with or without a label selector. Each page reports as remaining exactly the number of matching objects after it, so a client computes the true total from any page. A page or size of zero means everything with nothing remaining; a negative page or size and a page beyond the last are refused.",
 ["inputs"], "every cache content, query, sort specification, page and page size, including zero, negative and huge values",
 "Tests request one page of two objects; no test walks pages, has ties in the sort order, or looks at the remaining count.",
 ["store/memory/memory.go", "api/proxy.go", "page/page.go"],
 [("slicing", "store/memory/memory.go: Query; api/proxy.go: Proxy"), ("remaining count", "api/proxy.go: Proxy"), ("total on the client", "page/page.go: MakeupResPaginate")],
 ["HTTP list responses", "page.MakeupResPaginate"])

prop("C06", "Requested ordering is honoured, repeatable, or refused",
 "The items of a cached list are ordered by the requested sort keys in the given precedence, each ascending or descending and compared as strings or as numbers as requested; with no sort they are ordered by cluster, namespace and name. Objects that compare equal appear in an order that is the same for every request over the same content. A sort specification that is malformed, names an unknown key, type or direction, or demands numbers of non-numeric values is answered with an error, never with an arbitrarily ordered list.",
 ["inputs", "schedules"], "every cache content, insertion order and sort specification",
 "Sort tests use two to four objects with distinct keys, so neither ties nor the randomness of map iteration can show.",
 ["store/memory/memory.go"],
 [("multi-key comparison", "store/memory/memory.go: sortObjs")],
 ["HTTP list responses", "store.Store.Query"])

prop("C07", "Cached reads stay inside the addressed clusters",
 "A cached list that names no cluster contains objects of the default cluster only, whatever that cluster is called, and a list that names clusters contains objects of exactly those clusters. A cached read of a single object returns the one in the addressed cluster (the default one if none is addressed) or 'not found', even when an object of the same type, namespace and name exists in another cluster.",
 ["inputs", "configurations", "histories"], "every set of cluster names, default cluster, way of naming clusters, and cache content",
 "The only multi-cluster test uses two clusters with label-safe names and always names them; the default-cluster restriction and name collisions across clusters are untested.",
 ["api/proxy.go", "page/page.go", "store/memory/memory.go", "common/config.go"],
 [("default cluster restriction", "api/proxy.go: Proxy"), ("cluster selector helpers", "page/page.go: Clusters, GetClusters"), ("cluster addressing", "api/proxy.go: parsePaginateAndLabelsAndClean")],
 ["HTTP list and get responses"])

prop("C08", "Cache or forward: each request is answered by the right side",
 "A request is answered from the cache exactly when it is a GET of a configured resource type (list, namespaced list or single object) whose query options are limited to label selector, limit, timeouts and the cluster-addressing marker of the client helpers; such a request never contacts an upstream. Every other request - other methods, watches, field selectors, plain resource versions, any other option, subresources, unconfigured types, selectors the cache cannot evaluate - is forwarded and its answer never comes from the cache.",
 ["inputs", "configurations"], "every combination of method, path shape, query options, configured types and selector",
 "Two requests are tested, both cached lists called directly below the router; no test sends any request through the routes to an upstream.",
 ["api/proxy.go", "server/route.go", "server/server.go"],
 [("query-option allow list", "api/proxy.go: Proxy"), ("route table", "server/route.go"), ("configured type test", "store/memory/memory.go: IsStoreGVR")],
 ["HTTP responses", "requests received by upstream API servers"])

prop("C09", "A forwarded request reaches the addressed cluster once and unaltered",
 "A forwarded request reaches exactly one upstream, the cluster it addresses or else the default one, exactly once, with the method, path, query and body the client sent, less only the cluster-addressing marker and embedded list options (a watch gains the gateway's own time limit). The client gets back the upstream's status code and body, for success and failure alike. A request addressed to an unknown cluster is answered 'not found' and contacts no upstream.",
 ["inputs", "configurations"], "every forwarded request: method, path, query, body, patch type, addressing mechanism, and every upstream answer",
 "No test forwards a request: the client in the only proxy test is never reached.",
 ["api/proxy.go"],
 [("marker extraction and rewriting", "api/proxy.go: parsePaginateAndLabelsAndClean"), ("request rebuild", "api/proxy.go: doRequest, proxyPass")],
 ["requests received by upstream API servers", "HTTP responses"])

prop("C10", "No data or forwarding without the configured token",
 "When an access token is configured, a request that does not present it, on any path and with any method other than the health and metrics endpoints, is answered 'unauthorized', reveals no cached data and reaches no upstream. A request that presents the token, and every request when no token is configured, is never refused for authorization.",
 ["inputs", "configurations"], "every path, method, header content and configured token",
 "No test configures a token or goes through the server's routes.",
 ["server/server.go", "server/route.go"],
 [("token check before the handler", "server/server.go: registerRoutes"), ("per-route flag", "server/route.go")],
 ["HTTP responses", "requests received by upstream API servers"])

prop("C11", "Query options survive the trip through the client encoding",
 "Whatever page, size, sort and search a client requests with the query helpers, with any characters and any length, the server executes exactly that query, and the client's own label selector is applied unchanged beside it. Restricting a query to namespaces or clusters with the helpers adds that restriction, replaces only an earlier one of the same kind, and leaves every other part of the search as it was. Wrapping get, create, update, patch and delete options for a cluster is refused when it would overwrite an option the caller has set.",
 ["inputs"], "every query (any strings, lengths, numbers), label selector and sequence of helper calls",
 "Encoding tests check four short ASCII queries against fixed strings; nothing decodes them, none is long enough to be split into many chunks, none has non-ASCII text.",
 ["page/page.go", "kube/label.go", "api/proxy.go"],
 [("base64 in label values, split in chunks", "page/page.go: QueryListOptions; kube/label.go: SplittingValue, MergeValues"), ("decoding", "api/proxy.go: parsePaginateAndLabelsAndClean")],
 ["query received by the store", "HTTP list responses"])

prop("C12", "Reads concurrent with updates see real states and never fail",
 "While any number of updates and reads run concurrently, every read finishes and returns only object versions that were current at some instant during the read; an object present throughout the read appears exactly once and one absent throughout never appears. As long as one source at a time updates a resource type of a cluster, a list of one of its namespaces shows that namespace as it was at a single instant. No concurrent use crashes the process, loses an update, or blocks forever.",
 ["schedules", "histories"], "every interleaving of updates, clears, gets and lists from any number of goroutines",
 "The one concurrent test asserts nothing about results; it runs one schedule on one namespace and never lists or clears.",
 ["store/memory/memory.go"],
 [("a read-write lock per level", "store/memory/memory.go: syncResourceStore")],
 ["store.Store.Get", "store.Store.Query"],
 [("lock", "guards one level of the map", "store/memory/memory.go")])

prop("C13", "A configuration change takes effect completely or not at all",
 "When the configuration or the kubeconfig file changes to loadable content, however it is written (in place, renamed over, moved away or deleted and recreated), requests are soon served entirely by the new content: its resource types, clusters, default cluster and token. Content that cannot be loaded leaves the previous configuration fully in service, and a later good change is still picked up. The watchers of a replaced configuration stop.",
 ["histories", "fault_sequences", "configurations"], "every history of good and bad writes to both files by every replacement method",
 "The program and the file watcher have no tests.",
 ["cmd/cacheproxy/main.go", "utils/fs_watcher.go", "server/server.go", "common/config.go"],
 [("load everything, then swap", "cmd/cacheproxy/main.go: loadFromConfig, main; server/server.go: ResetStore"), ("re-watch after removal", "utils/fs_watcher.go: Start")],
 ["HTTP responses of the running program", "upstream watch connections"])

prop("C14", "A forwarded watch is a faithful, independent, long-lived stream",
 "A forwarded watch is acknowledged as soon as the upstream accepts it and delivers the upstream's events completely, unmodified and in order, each as soon as its line is complete, until the upstream ends, the client leaves or thirty minutes pass. When the client leaves, the upstream stream is released promptly. Other requests, to the same cluster or not, never shorten, delay or mix into it.",
 ["schedules", "fault_sequences", "inputs"], "every chunking of the upstream stream, every interleaving with other requests, and every point at which either side ends",
 "No test forwards a watch.",
 ["api/proxy.go"],
 [("line-wise copy", "api/proxy.go: proxyPassWatch"), ("per-request deadline", "api/proxy.go: doRequest, proxyPassWatch")],
 ["bytes received by the client over time", "state of the upstream connection"])

prop("C15", "Services of a deployment are exactly those selecting its pods",
 "Asking for the services of a deployment returns exactly the services of the same cluster and namespace whose non-empty selector is satisfied by the labels of that deployment's pods. Pods or services of other deployments (including ones whose names contain or extend its name), namespaces or clusters never influence the answer.",
 ["inputs", "configurations"], "every cache content of pods and services over clusters, namespaces, deployments and labels",
 "The only test has one pod and one service, and is not among the reliable tests.",
 ["api/extend/deploy2service.go", "utils/subset.go"],
 [("owner name derived from the replica set", "api/extend/deploy2service.go: getDeploymentName"), ("subset test", "utils/subset.go: IsSubsetOf")],
 ["HTTP responses of the custom endpoint"])

prop("C16", "The exported resource count equals what is cached",
 "After every change notification, the exported per-cluster, per-type, per-namespace resource count equals the number of objects cached there, including after deletions and after a cluster's objects are cleared. Counts of one cluster, type or namespace are never affected by changes in another.",
 ["histories"], "every history of add, modify, delete and clear notifications",
 "No test reads a metric.",
 ["store/memory/memory.go", "utils/prommonitor/metrics.go"],
 [("gauge set after each notification", "store/memory/memory.go: OnResourceAdded, OnResourceModified, OnResourceDeleted, Clean")],
 ["the /metrics endpoint", "store.Store.Query"])

prop("C17", "Objects of every configured type are cached and served intact",
 "Every object of every configured resource type, built-in or custom, namespaced or cluster-wide, in the core group or not and whatever its kind is called, is cached from the watch and served with every field it was reported with (for a built-in kind and for metadata, every field the Kubernetes client library defines). Apart from annotations naming its cluster and its index values nothing is added, and those annotations and the index used for search and sort carry exactly the values the configured expressions (literal, JSON path or template) yield for that object.",
 ["inputs", "configurations"], "every configured type and kind name, every object body, and every index expression",
 "No test decodes a watch event or serves a custom type; index tests cover one object.",
 ["watcher/watcher.go", "store/memory/memory.go", "common/config.go"],
 [("kind registration and generic object type", "watcher/watcher.go: watchResources, ObjType"), ("index evaluation", "store/memory/memory.go: buildResourceWithIndex")],
 ["HTTP list and get responses after a watch delivered the object"])

prop("C18", "The fake server behaves like a multi-cluster object store",
 "For every sequence of create, update, delete, get, list and reset calls, the fake server answers as a store keyed by type, cluster, namespace and name would: creating an existing object and updating or deleting a missing one fail and change nothing, every success is visible to the next read of that cluster and to no other cluster. Each successful change is reported once, with its action, identity and body, to a waiting event reader and to exactly the waiting watches whose type, namespace and clusters cover it.",
 ["histories"], "every sequence of API calls over types, clusters, namespaces and names",
 "One fixed script, left out of the reliable tests as flaky, with one create, update and delete.",
 ["pkg/client/fake/fake_ckube.go"],
 [("write handler and event fan-out", "pkg/client/fake/fake_ckube.go: proxy, watch")],
 ["HTTP responses of the fake server", "its event channel and watch streams"])

prop("C19", "The table form of a list shows the same items, cell for cell",
 "A cached list requested in table form has one row per item of the same list in plain form, in the same order and under the same paging, and every row has one cell per declared column. Each cell holds the item's index value for that column, and every index of the type has its column.",
 ["inputs", "configurations"], "every cache content, index configuration and query",
 "No test requests a table.",
 ["api/proxy.go"],
 [("table rendering", "api/proxy.go: serverPrint")],
 ["HTTP list responses with a table Accept header"])

prop("C20", "No request can crash, wedge or corrupt the server",
 "Whatever a request contains - malformed selectors, undecodable or ill-typed list options, extreme numbers, unusual methods, paths, bodies or headers - it is answered, malformed query input never leading to an internal error. Every later request is answered as if it had never been sent: the process keeps running, no lock stays held and the cached data is unchanged.",
 ["inputs", "histories"], "every request and every sequence of requests",
 "The tests send only well-formed requests and never a second one to the same server.",
 ["api/proxy.go", "server/server.go", "store/memory/memory.go", "page/page.go"],
 [("recovery around handlers", "server/server.go: registerRoutes"), ("validation of page input", "api/proxy.go: Proxy")],
 ["HTTP responses", "follow-up requests"])

prop("C21", "The kubectl wrapper runs the user's command on the chosen clusters",
 "For every command line, the wrapper runs kubectl exactly once with the user's arguments in their order, less only the cluster option. For reads it sets the one selector to the user's selector combined with the chosen clusters, for creation it names the single chosen cluster as the target; several clusters for a creation, or an unsupported command, run nothing and fail.",
 ["inputs"], "every argument list: position and spelling of options, selectors and clusters",
 "The command has no tests.",
 ["cmd/ckube-plugin/main.go", "page/page.go"],
 [("argument rewriting", "cmd/ckube-plugin/main.go: main")],
 ["arguments received by a stand-in kubectl"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
