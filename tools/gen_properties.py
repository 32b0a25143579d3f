#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay editable)."""
import json, os
CM="pkg/kmeans/centroidmanager/cmanager.go"; CE="pkg/kmeans/centroid/centroid.go"
SV="pkg/kmeans/rpc/server.go"; CL="pkg/kmeans/rpc/client.go"; RP="pkg/kmeans/rpc/rpc.go"
KN="pkg/searchutils/knn.go"; DI="pkg/mathutils/distance.go"; VT="pkg/mathutils/vectools.go"
DP="pkg/kmeans/common/datapoint.go"; ND="core/nodes/nodes.go"; NV="core/nodes/vecs.go"
PU="core/dps/putdps.go"; GE="core/dps/getdps.go"; DS="core/dps/dps.go"
HA="core/api/handler.go"; CV="core/api/conv.go"; AP="core/api/api.go"
EL="core/eventloop/el.go"; ET="core/eventloop/eltask.go"; EU="core/eventloop/eltaskutils.go"; EC="core/eventloop/cfg.go"
AR="pkg/arbiter/arbiter.go"; SU="pkg/kmeans/rpc/serverutils.go"; SC="cmd/service/service.go"; CF="cfg/cfg.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Acknowledged inserts are stored exactly once, refused ones leave no trace",
 "Whenever an insert (into a single store, through a node's remote interface, through the routed put helpers, or over HTTP) is acknowledged, exactly one copy of that data point is stored afterwards, on one of the addressed nodes and in the requested namespace. Whenever an insert is not acknowledged (expired point, vector length that does not match the data, no node that accepts it) nothing is stored anywhere and no namespace comes into existence. A valid insert that some addressed node can store is acknowledged.",
 ["inputs","histories","configurations"],"every data point, every store content and every network of nodes",
 "Tests insert a handful of valid points and check lengths; none checks the acknowledgement of a refused point, a mismatched vector, or that a put ends up on exactly one node.",
 [SV,CM,CE,PU,HA],[("acknowledgement of an insert and creation of the namespace",SV+":AddDataPoint"),("placement in the nearest group",CM+":AddDataPoint"),("first node that accepts wins",PU+":putDataPoint")],
 ["reply of the insert","content of all namespaces on all nodes before and after"],
 [("stored points","points per namespace and node",RP+":CManagerTable")])
p("C02","Maintenance of one node never loses, duplicates or alters live points",
 "Splitting groups, merging groups, redistributing points between the groups of a node, refreshing representative vectors, purging expired points and trimming memory never remove, duplicate or change a live (unexpired) data point, in whatever order they run and with whatever arguments. The same holds when a group or store hands points to given receivers, some of which refuse them.",
 ["inputs","histories"],"every sequence of maintenance operations on every store content, any arguments",
 "Unit tests call each operation once on two or three points and compare lengths; identity of the points across sequences of operations is never checked.",
 [CM,CE,SV],[("merge drains one group into another and deletes it",CM+":MergeCentroids"),("split moves drained points to a new group",CM+":splitCentroid"),("points refused by a receiver go back",CE+":DistributeDataPoints")],
 ["multiset of stored points before and after each operation"])
p("C03","Moving points between nodes neither loses nor duplicates live points",
 "When points move between nodes (fast or accurate redistribution, stealing of whole groups) every live point of the namespace is stored exactly once over all nodes afterwards, unchanged. This also holds when candidate nodes are unreachable, refuse points, do not have the namespace, are listed repeatedly or include the sender, when no candidate is given, and when clients insert into and query the involved nodes meanwhile.",
 ["inputs","histories","schedules","configurations","fault_sequences"],"every network content, candidate list, amount, and interleaving with other requests; receivers that refuse or cannot be reached",
 "Tests move points between two or three healthy idle nodes, and check counts only.",
 [SV,SU,CL],[("points no candidate takes go back to the sender",SV+":DistributeDataPointsFast"),("same, accurate",SV+":DistributeDataPointsAccurate"),("groups are removed at the donor and appended at the thief",SV+":StealCentroid")],
 ["multiset of points over all nodes"])
p("C04","Lookups return at most n distinct stored points; drain removes exactly those",
 "A lookup or drain of n points, on a store, a node, through the routed helpers or over HTTP, returns at most n points, all of which were stored in the requested namespace, each at most once (n of zero or less returns none). If removal is requested (drains always do) the stored points afterwards are precisely the ones before minus the returned and the expired ones. If it is not requested, no live point is removed.",
 ["inputs","histories","configurations"],"every store and network content (network nodes given once each), query vector, n and mode",
 "Tests look up one or two points from small stores; they do not compare the full content before and after.",
 [CM,CE,GE,SV],[("collect over groups until k",CM+":KNNLookup"),("removal by sorted index",CE+":KNNLookup"),("collect over nodes until n",GE+":getDataPoints")],
 ["returned points","stored points before and after"])
p("C05","Expired points are never served, moved or accepted; others never dropped",
 "A data point whose expiry is enabled and lies in the past is never returned by a lookup or drain, never moved to another node, never accepted by an insert and never brought back to life, and purging (expire, or memory trimming) removes every such point from the namespace. A data point that is not yet expired, or whose expiry is disabled whatever its timestamp, is never dropped because of expiry.",
 ["inputs","histories"],"every mix of expired, expiring and non-expiring points, in every order and every operation",
 "Tests expire one or two points with short sleeps for a few operations; mixes of neighbours that expire in sequence, or expiry during other operations, are not covered.",
 [DP,CE,CM],[("expired check",DP+":Expired"),("purge while iterating",CE+":dataPointVecGenerator"),("purge",CE+":Expire"),("purge and trim",CE+":MemTrim")],
 ["returned and stored points, with the clock"])
p("C06","Lookups are complete: min(n, live) points whenever enough are stored",
 "A lookup of n points with a query vector returns exactly min(n, number of live points of that vector length) points: from a store over all of its groups, including when the nearest groups are empty, small or hold only expired points, and from the network over all reachable nodes that hold the namespace. Zero vectors, as query or stored, do not make points unreachable.",
 ["inputs","histories","configurations"],"every store and network content reachable by any history of operations, every query vector, n",
 "Tests query freshly filled stores whose nearest group has enough points.",
 [CM,CE,GE,DI,KN],[("visit groups nearest first until k points",CM+":KNNLookup"),("visit nodes best first until n points",GE+":getDataPoints")],
 ["number of returned points against number of stored live points"])
p("C07","k-nearest and k-furthest search returns exactly the best k, best first",
 "The k-nearest and k-furthest searches return the indexes of exactly min(k, comparable) vectors of the pool, distinct, ordered best first, such that no vector left out scores strictly better than one returned, for cosine similarity and for Euclidean distance. Vectors of another length are skipped without shifting the indexes of the others, and the two scores equal their mathematical definition (a zero vector has similarity 0 to everything).",
 ["inputs"],"every target, pool (any order, ties, duplicates, zero vectors, other lengths) and k",
 "Tests use four pools of three vectors each.",
 [KN,DI],[("bounded insertion sort of scores",KN+":bubble"),("linear search",KN+":KNNBrute"),("scores",DI)],
 ["returned indexes"])
p("C08","Points are grouped, and looked up, nearest group first",
 "A new point goes to the group whose representative vector is nearest to it, and a lookup takes points from the nearest group first and from each group its points nearest to the query, nearest first, moving on to the next nearest group only when a group has no more live points. Looking up nearest groups or the nearest representative vector yields the nearest ones, nearest first, and redistribution inside a node puts a point into the nearest group.",
 ["inputs","histories"],"every store content, point, query vector and k",
 "Tests check placement with two groups on one axis.",
 [CM,CE],[("nearest group for an insert",CM+":AddDataPoint"),("groups nearest first",CM+":KNNLookup"),("nearest points in a group",CE+":KNNLookup"),("nearest groups",CM+":NearestCentroids"),("nearest receiver",CE+":DistributeDataPoints")],
 ["group of each point and order of returned points/groups"])
p("C09","Representative vectors are the means of what they represent, and finite",
 "After every operation the representative vector of each non-empty group equals the mean of the vectors of the points stored in it, and the representative vector of a store with groups equals the mean of the vectors of its groups, up to rounding. They stay finite for finite input (whose sums and squares are representable), and a store that became empty keeps a usable vector, so that routing by it still works.",
 ["inputs","histories"],"every history of operations of a store",
 "Tests compare vectors after single operations on one or two points, at a few places.",
 [CM,CE,VT],[("incremental update of a group",CE+":addDataPoint"),("incremental update of a group on removal",CE+":rmDataPoint"),("incremental update of a store",CM+":prepVecUpdate"),("recalculation",CM+":MoveVector")],
 ["vectors of stores and groups"])
p("C10","Requests are routed to the best-fit nodes, best first",
 "Among the given nodes that are reachable and hold the namespace, routed puts and queries prefer the one whose representative vector (fast mode) or whose nearest group vector (accurate mode) is nearest to the point or query: a put lands on the best one that accepts it, and a query takes points from the best node first and goes on to the next best only when it needs more. The ranking functions return exactly those nodes, ordered best first, independent of reply order and speed; random mode considers every given node.",
 ["inputs","configurations","schedules"],"every network content, vector, candidate list, namespace and order of the replies",
 "Tests use three nodes with one configuration each and cannot control the order in which replies arrive.",
 [ND,NV,PU,GE],[("fetch vectors concurrently and rank",ND+":bestFitNodes"),("fast",NV+":fetchVecsFast"),("accurate",NV+":fetchVecsAccurate"),("shuffle",DS+":shuffleAddrs")],
 ["order of returned addresses","node that got the point","order of returned points"])
p("C11","Namespaces are isolated, and only inserts and steals create them",
 "An operation on a namespace of a node never reads or changes points of any other namespace, on any node. Any operation other than an insert or a steal on a namespace that the node does not have fails with an error that says so, returns nothing and does not create the namespace. A namespace once created stays, also when it runs empty.",
 ["inputs","histories","configurations"],"every set of namespace names (empty, unusual, similar), every operation",
 "Tests use a single namespace throughout, with one check of the error.",
 [RP,SV,SU],[("map of namespaced stores",RP+":CManagerTable"),("error for unknown namespaces",SV+":handleNamespaceErr"),("creation",SV+":AddDataPoint")],
 ["content of all namespaces","errors","list of namespaces"])
p("C12","Concurrent requests to a node behave as if executed one at a time",
 "For every set of concurrent requests to a node (inserts, lookups and drains with or without removal, length, purge, split, merge, trim, group lookups), including the ones that create the namespace, there is a sequential order, consistent with real time, that explains all replies and the final content. In particular no acknowledged insert is lost and no point is handed out by two draining requests.",
 ["schedules","histories"],"all interleavings of concurrent requests",
 "Tests are sequential.",
 [RP,SV],[("lock per namespace",RP+":CManagerSlot.Access"),("lock for the table",RP+":CManagerTable.Access"),("insert-if-absent",SV+":AddDataPoint")],
 ["invocation and response order, replies, final content"])
p("C13","Requests always complete, and a busy namespace does not block others",
 "Every request to reachable nodes completes: no set of concurrent requests, including nodes that redistribute to or steal from each other or themselves, deadlocks. While a request is busy in one namespace, requests on other namespaces of the same node complete, and while a node is waiting for another node during redistribution, stealing or a group transfer, requests on both nodes are still served, for the same namespace too.",
 ["schedules"],"all interleavings, with requests suspended at any point where they search, create or talk to other nodes",
 "Tests are sequential, nothing runs concurrently with a slow operation.",
 [RP,SV],[("table lock is released before the slot lock is taken",RP+":CManagerTable.Access"),("no lock while talking to other nodes",SV+":DistributeDataPointsFast"),("no lock while stealing",SV+":StealCentroid")],
 ["completion of requests while others are suspended"])
p("C14","Groups split and merge exactly when their size is in the given range",
 "Splitting halves precisely the groups whose size is strictly between the bounds (and at least two), leaving the others as they were; merging joins each group whose size is strictly between the bounds with its nearest other groups, whole groups at a time, only until it is out of the range, so that afterwards no group in the range remains unless it is the only one. A group that reaches the configured threshold by an insert is split right away, moving half of the threshold to a new group; with no threshold nothing is split.",
 ["inputs","histories"],"all group sizes, bounds and thresholds",
 "Tests split or merge one small configuration each.",
 [CM,SV],[("split policy",CM+":SplitCentroids"),("merge policy",CM+":MergeCentroids"),("auto split",CM+":AddDataPoint"),("bounds over the network",SV+":SplitCentroids")],
 ["partition of the points into groups before and after"])
p("C15","Drains take the exact amount, evenly over groups, worst-fitting first",
 "Draining n points from a store without expired points removes exactly min(n, stored) points, spread as evenly as the group sizes permit (no group gives at least two more than another that still has points). An ordered drain removes from each group the points that fit it worst, i.e. none of the points it keeps in a group is further from the group's vector than one it removed.",
 ["inputs","histories"],"all contents, amounts",
 "Tests drain one or two points from two groups.",
 [CM,CE],[("portions per group",CM+":centroidDataPointPortions"),("furthest from the group vector",CE+":DrainOrdered"),("no order",CE+":DrainUnordered")],
 ["which points were removed from which group"])
p("C16","Stealing moves whole nearest groups until the limit, and reports it truthfully",
 "A steal moves whole groups from the donor to the thief, those nearest to the thief's representative vector first, until at least the given number of points has been moved or the donor has no more points it can give; it takes nothing more after the limit is reached. The reported count is the number of points that arrived, and (for a positive limit) the reported success is false exactly if the donor or its namespace could not be reached; a thief without the namespace gets it if the donor has it.",
 ["inputs","histories","configurations","fault_sequences"],"all contents of both nodes (including empty groups), limits, unreachable donors and missing namespaces",
 "Tests steal one group between two nodes in one configuration.",
 [SV,CL],[("steal loop",SV+":StealCentroid"),("group transfer",CL+":NearestCentroids")],
 ["groups on both nodes before and after, reply"])
p("C17","Load balancing only pulls points to a node that is clearly below average",
 "In a load balancing round a node only takes points to itself, never from itself, only in namespaces the donor holds, only if its own amount in the namespace is below the mean of the nodes that hold it, and only from a donor that stays at or above that mean after giving what is asked (unless the donor is the only holder). A node that is far below the mean while another one is far above it does take points in that round.",
 ["inputs","configurations","histories"],"all distributions of amounts over nodes and namespaces",
 "The event loop has no test (only a monitor that is not built by default).",
 [ET,EU],[("balancing task",ET+":eltLoadBalancing"),("namespaces by node",EU+":addrNamespaceTable"),("amounts",EU+":fetchRemoteLenDPs")],
 ["requests the loop sends to the nodes"])
p("C18","The event loop runs each task at its interval, with the configured arguments",
 "A task with interval k is run in the first loop and every k-th loop after that, indefinitely; intervals below 1 act as 1 and tasks with intervals over 1000 never run. Local tasks run for every namespace of the local node and on no other node, with the configured arguments, and redistribution offers the points of a namespace to exactly the nodes that hold it. The meta data task reports the local node only or every known node, as configured. Once the loop is stopped no further task is started.",
 ["configurations","histories"],"all interval configurations, sets of namespaces, and numbers of loops",
 "The event loop has no test (only a monitor that is not built by default).",
 [EL,ET,EC,EU],[("loop and counter",EL+":EventLoop"),("interval",ET+":withSkip"),("clamping",EC+":clamp")],
 ["requests the loop sends to the nodes, loop by loop"])
p("C19","No request can crash a node or the HTTP server",
 "Whatever a request contains (negative or huge amounts, empty, zero, huge or mismatching vectors, unknown or odd namespaces, empty groups, unreachable or repeated addresses, malformed or unexpected JSON), the node or HTTP server answers it and keeps serving subsequent requests correctly. The client side returns from the call without panicking too.",
 ["inputs","histories"],"all requests, in every state of the node",
 "Tests send valid requests only.",
 [SV,CL,CM,CE,GE,HA,KN],[("bounded allocation",KN+":KNNBrute"),("portions",CM+":centroidDataPointPortions"),("empty groups filtered",CL+":NearestCentroids"),("request parsing",HA+":tryUnpackRequestOptions")],
 ["process stays alive, request is answered, later requests are correct"])
p("C20","Points come back with the vector, payload and expiry they were stored with",
 "A data point that is returned by any lookup or drain, over any interface (library, remote, HTTP), has exactly the vector, payload, expiry time and expiry flag it was inserted with, however often it was moved between groups and nodes in between.",
 ["inputs","histories"],"all vectors, payloads (any bytes, any size), expiry settings, and all histories of moves",
 "Tests compare vectors of two-dimensional points; payloads and expiry are never compared.",
 [CV,CL,SV,CM,CE],[("HTTP conversion",CV),("remote encoding",CL),("moves",CM)],
 ["fields of returned and stored points"])
p("C21","HTTP API: status and body tell exactly what happened",
 "A put is answered with 200 if and only if the point has been stored on some node, with 500 if no node stored it, and with 400 if the body is not a valid request, in which case nothing is changed. A query is answered with 200 and a JSON array of the found points (an empty array if there are none) that honours the requested namespace, amount, mode and removal, with 500 and no effect if a found point has values that JSON does not have, or with 400 and no effect if the body is not a valid request.",
 ["inputs","configurations","fault_sequences"],"all request bodies, network contents, and sets of unreachable nodes",
 "There is one put followed by one query, whose status codes are not checked (and the test is not part of the reliable ones).",
 [HA,CV,AP],[("put",HA+":putDataPoint"),("query",HA+":queryDataPoint"),("parsing",HA+":tryUnpackRequestOptions")],
 ["status, body, content of the nodes"])
p("C22","Reported metadata is exact",
 "The reported number of points of a namespace, the reported numbers of points and groups per namespace of a node, and the reported list of namespaces equal what is stored at that moment, after every history of operations.",
 ["histories","inputs"],"every history of operations on any number of namespaces",
 "Tests check lengths after inserts into one namespace.",
 [SV,CM,RP],[("length",CM+":LenDP"),("metadata",SV+":Meta"),("namespaces",SV+":Namespaces")],
 ["replies against stored content"])
p("C23","Arbitration: agreed, whitelisted, in time; status helpers are exact",
 "When an election among nodes reports success, all members name the same arbiter, which is one of the voted-on addresses; members refuse sessions with addresses outside their whitelist, and sessions and arbiters lapse after their configured durations and not before. The helper that checks errors reports an error (with its address) exactly if there is one, and the helper that checks statuses is true exactly if all statuses equal the given one.",
 ["configurations","histories","inputs"],"all whitelists, durations, sequences of session operations, and maps of errors or statuses",
 "There is one election with a uniform configuration (and the test is not part of the reliable ones); the helpers are only used on success.",
 [AR],[("configuration of members",AR+":NewSessionMember"),("error helper",AR+":CheckAll"),("status helper",AR+":UniformStatus")],
 ["replies of members","results of the helpers"])
p("C24","Unreachable nodes do not break requests that reachable nodes can serve",
 "If some of the nodes a request addresses are unreachable, puts, queries, ranking, redistribution and steals still work as if those nodes had not been given: puts are stored on a reachable node that accepts them, queries return what the reachable nodes hold, redistribution uses the reachable candidates. A remote call to a node that cannot be reached reports an error and no result.",
 ["fault_sequences","configurations"],"every subset of unreachable nodes, at every position in the lists, for every operation",
 "Tests run with all nodes up.",
 [NV,SU,PU,GE,SV,CL],[("failed fetches are dropped",NV+":collect"),("failed fetches are dropped",SU+":collect"),("next node on failure",PU+":putDataPoint"),("error of the dial",CL+":client")],
 ["results and content with some nodes down"])
p("C25","Redistribution takes the worst-fitting points and gives them to the best fit",
 "Redistribution of n points between nodes takes the n worst-fitting points of the node (evenly over its groups) and gives each one to the candidate whose representative vector (fast) or nearest group (accurate) is nearest to that point, falling back to the next best candidate that accepts it, and back to the sender only if none does. Nothing is taken if there is no candidate or n is not positive.",
 ["inputs","configurations","fault_sequences"],"all contents, candidate lists, n",
 "Tests move one point with two or three candidates.",
 [SV,SU],[("rank candidates and try in order",SV+":distributeDP"),("fast",SV+":DistributeDataPointsFast"),("accurate",SV+":DistributeDataPointsAccurate"),("candidate vectors",SU+":fetchVecs")],
 ["node of each point before and after"])
p("C26","A running system keeps each accepted point, once, until drained or expired",
 "In a running system (nodes with their event loops, HTTP servers and clients, as the service command wires them, with nodes failing and returning), every point whose put was answered with success is, whenever the system is at rest, stored exactly once in the whole system with its vector, payload and expiry, in its namespace; it leaves only by being drained (and is then returned exactly once) or by expiring. Lookups and drains return only points that were put and that are not gone; the exact nearest/furthest points are returned when the system consists of a single group of points.",
 ["schedules","histories","fault_sequences","configurations"],"all interleavings of clients with the background tasks of all nodes, and all node failures",
 "No test runs event loops, nodes and clients together.",
 [EL,ET,SV,CM,HA,"cmd/service/service.go"],[("wiring","cmd/service/service.go:start"),("background tasks",ET),("nodes",SV),("HTTP",HA)],
 ["replies to clients, content of the whole system at rest"])
p("C27","Nodes and HTTP servers start and stop cleanly and share nothing",
 "A node answers requests at its address from a successful start until that start is undone; from then on no new connection is served there, the address can be used again, and the content of the node is kept for its next start. A start at an address where something already listens is reported as failed and disturbs nothing, and undoing a start again later has no effect on whatever listens there by then. Each node's content is its own: requests to one node or HTTP server never show or change what belongs to another node, also when several live in one process. An HTTP server refuses to start without addresses of nodes or at an address that is taken; several can run in one process, and a start can be tried again after a failed one. Stores and groups cannot be made without search functions, and a namespace without a store cannot be registered.",
 ["histories","configurations"],"every sequence of starts, stops, requests and constructions, in any order, with any addresses shared",
 "The tests start each kind of server once per process and never check a node after it was stopped, restarted, or refused its address.",
 [RP,AP,HA,SV,CM,CE],[("start and stop of a node",RP+":StartListen"),("start of an HTTP server",AP+":Start"),("routes",HA+":setRoutes"),("table of namespaces",RP+":CManagerTable")],
 ["results of starts and constructors","replies at each address","content of each node's table"],
 [("table of a node","namespaces and their stores",RP+":CManagerTable")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
