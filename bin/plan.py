"""Which drivers, specifications and bounds decide each property."""


def ops(profile, n=120, steps=40, seeds=1):
    return {"driver": "ops", "profile": profile, "n": n, "steps": steps, "seeds": seeds, "module": "Trace"}


def gen(name, limit, *which):
    """Scripts generated by TLC from Store.tla: those that end with some operations."""
    return {"gen": name, "limit": limit, "ops": which or None, "module": "Trace"}


def more(runs, k=4, seeds=3):
    """Thorough: more and longer scenarios, with several seeds."""
    return [dict(r, limit=r["limit"] * 8) if "gen" in r else
            dict(r, n=r["n"] * k, steps=r["steps"] * 3 // 2, seeds=seeds) for r in runs]


def drv(driver, profile, n, steps, module, seeds=1):
    return {"driver": driver, "profile": profile, "n": n, "steps": steps, "seeds": seeds, "module": module}


DESIGN = {
    "SearchAlg": {"module": "SearchAlg", "quick": "SearchAlg_q.cfg", "thorough": "SearchAlg_t.cfg",
                  "mutants": ["SearchAlg_bug_nan.cfg", "SearchAlg_bug_shift.cfg"]},
    "BalanceAlg": {"module": "BalanceAlg", "quick": "BalanceAlg_q.cfg", "thorough": "BalanceAlg_t.cfg",
                   "mutants": ["BalanceAlg_bug_margin.cfg", "BalanceAlg_bug_donor.cfg", "BalanceAlg_bug_must.cfg"]},
    "BalanceAlg2": {"module": "BalanceAlg", "quick": "BalanceAlg_q2.cfg"},
    "LoopAlg": {"module": "LoopAlg", "quick": "LoopAlg_q.cfg",
                "mutants": ["LoopAlg_bug_clamp.cfg", "LoopAlg_bug_wrap.cfg", "LoopAlg_bug_recheck.cfg"]},
    "Cluster": {"module": "MCCluster", "quick": "MCCluster_q.cfg", "thorough": "MCCluster_t.cfg",
                "mutants": ["MCCluster_bug_noback.cfg", "MCCluster_bug_copy.cfg"]},
    "ClusterLocks": {"module": "MCCluster", "quick": "MCCluster_self.cfg", "thorough": "MCCluster_q.cfg",
                     "mutants": ["MCCluster_bug_hold.cfg", "MCCluster_bug_nolimit.cfg"]},
    "ClusterOne": {"module": "MCCluster", "quick": "MCCluster_one.cfg", "mutants": ["MCCluster_bug_create.cfg"]},
    "Life": {"module": "MCLife", "quick": "MCLife_q.cfg", "thorough": "MCLife_t.cfg",
             "mutants": ["MCLife_bug_shared.cfg", "MCLife_bug_stale.cfg", "MCLife_bug_fresh.cfg"]},
    "ArbiterAlg": {"module": "ArbiterAlg", "quick": "ArbiterAlg_q.cfg", "thorough": "ArbiterAlg_t.cfg",
                   "mutants": ["ArbiterAlg_bug_id.cfg", "ArbiterAlg_bug_white.cfg", "ArbiterAlg_bug_part.cfg"]},
}

GEN = {
    "lib": {"quick": "MCStore_lib_q.cfg", "thorough": "MCStore_lib_t.cfg",
            "mutants": ["MCStore_bug_%s.cfg" % b for b in (
                "stalevec", "bestfirst", "trimvec", "splitall", "greedy", "fewgroups", "remerge", "serve")]},
    "plane": {"quick": "MCStore_plane_q.cfg", "thorough": "MCStore_plane_t.cfg"},
    "net": {"quick": "MCStore_net_q.cfg", "thorough": "MCStore_net_t.cfg",
            "mutants": ["MCStore_bug_%s.cfg" % b for b in ("emptyns", "overask", "nohome")]},
    "net3": {"quick": "MCStore_net3_q.cfg", "thorough": "MCStore_net3_t.cfg"},
}

BAG = {"C01": ("clones", "clonehttp"), "C02": ("clonelib",), "C03": ("clones",), "C04": ("clones", "clonehttp"),
       "C06": ("clones",), "C11": ("clones",), "C14": ("clonelib",), "C15": ("clonelib",), "C16": ("clones",),
       "C20": ("clones",), "C22": ("clones",), "C25": ("clones",)}

INS = ("add", "put", "hput")
LOOK = ("knn", "query", "hquery")
DRAIN = ("drainU", "drainO")

PLAN = {
    "C01": {"quick": [ops("insert", 160), ops("lib"), ops("http", 60), ops("net", 60),
                      gen("lib", 1500, "add"), gen("net", 1500, "add", "put")], "ops": INS},
    "C02": {"quick": [ops("maint", 250), ops("rpc", 100), ops("expire", 60),
                      gen("lib", 3000, "expire", "memtrim", "movevec", "distint", "split", "merge")],
            "ops": ("expire", "memtrim", "movevec", "distint", "split", "merge", "give")},
    "C03": {"quick": [ops("move", 200), ops("redist"), ops("steal"), ops("faults", 60),
                      drv("conc", "net", 50, 20, "TraceLin"),
                      gen("net", 2000, "dist", "steal"), gen("net3", 1500, "dist", "steal")],
            "ops": ("dist", "steal", "nethist"), "design": ["Cluster"]},
    "C04": {"quick": [ops("lookup", 200), ops("drain"), ops("rpc"), ops("net", 80), ops("http", 50),
                      gen("lib", 2500, "knn", "drainU", "drainO", "nearc"), gen("net", 1500, "query")],
            "ops": LOOK + DRAIN + ("nearc",)},
    "C05": {"quick": [ops("expire", 160), ops("expireN", 120), ops("insert", 60), ops("maint", 80),
                      gen("lib", 3000), gen("net", 1500)]},
    "C06": {"quick": [ops("lookup", 250), ops("route"), ops("expire", 60), ops("http", 40),
                      gen("lib", 2500, "knn"), gen("net", 1500, "query")], "ops": LOOK},
    "C07": {"quick": [drv("search", "small", 9, 0, "TraceSearch"), drv("search", "brute", 4, 5, "TraceSearch"),
                      drv("search", "score", 20, 400, "TraceSearch"), drv("search", "random", 40, 400, "TraceSearch"),
                      drv("search", "odd", 10, 400, "TraceSearch"), drv("search", "large", 24, 20, "TraceSearch")],
            "thorough": [drv("search", "small", 9, 0, "TraceSearch", 4), drv("search", "brute", 4, 6, "TraceSearch"),
                         drv("search", "score", 50, 400, "TraceSearch", 4),
                         drv("search", "random", 100, 400, "TraceSearch", 4),
                         drv("search", "odd", 40, 400, "TraceSearch", 2), drv("search", "large", 100, 30, "TraceSearch", 2)],
            "design": ["SearchAlg"]},
    "C08": {"quick": [ops("place", 300), ops("lookup"), ops("rpc", 80),
                      gen("lib", 2500, "add", "knn", "nearc", "distint"), gen("plane", 1500, "add", "knn", "nearc", "distint")],
            "ops": ("add", "knn", "nearc", "nearv", "distint", "give")},
    "C09": {"quick": [ops("means", 250), ops("lib"), ops("rpc", 80), ops("move", 80),
                      gen("lib", 2500), gen("plane", 1500), gen("net", 1500)]},
    "C10": {"quick": [ops("route", 250), ops("net", 100), ops("http", 40), ops("slow", 60, 20),
                      gen("net3", 2500, "put", "query"), gen("net", 1500, "put", "query")],
            "ops": ("put", "query", "hput", "hquery", "rank")},
    "C11": {"quick": [ops("ns", 250), ops("net", 80), ops("insert", 60), ops("httpns", 50),
                      gen("net", 2500)]},
    "C12": {"quick": [drv("conc", "one", 60, 20, "TraceLin"), drv("conc", "create", 60, 20, "TraceLin"),
                      drv("conc", "big", 40, 10, "TraceLin"), drv("conc", "expiry", 50, 15, "TraceLin")], "design": ["ClusterOne"]},
    "C13": {"quick": [drv("prog", "mix", 60, 12, "TraceProg"), drv("prog", "cross", 60, 12, "TraceProg"),
                      drv("conc", "net", 40, 20, "TraceLin")], "ops": ("round", "nethist"),
            "design": ["ClusterLocks"]},
    "C14": {"quick": [ops("policy", 300), ops("lib"), ops("rpc", 80),
                      gen("lib", 3000, "add", "split", "merge"), gen("plane", 1000, "add", "split", "merge")], "ops": INS + ("split", "merge")},
    "C15": {"quick": [ops("drain", 300), ops("lib"), ops("rpc", 80),
                      gen("lib", 3000, "drainU", "drainO")], "ops": DRAIN},
    "C16": {"quick": [ops("steal", 300), ops("move", 120), ops("faults", 60),
                      gen("net", 2000, "steal"), gen("net3", 2000, "steal")], "ops": ("steal",)},
    "C17": {"quick": [drv("loop", "balance", 80, 60, "TraceLoop"), drv("loop", "mix", 20, 12, "TraceLoop")],
            "design": ["BalanceAlg", "BalanceAlg2"]},
    "C18": {"quick": [drv("loop", "mix", 60, 14, "TraceLoop"), drv("loop", "long", 3, 2100, "TraceLoop")],
            "thorough": [drv("loop", "mix", 120, 20, "TraceLoop", 4), drv("loop", "long", 8, 3100, "TraceLoop", 2)],
            "design": ["LoopAlg"], "ops": ("loop",)},
    "C23": {"quick": [drv("arb", "mix", 100, 60, "TraceArb"), drv("arb", "odd", 60, 60, "TraceArb"),
                      drv("arb", "elect", 40, 60, "TraceArb")], "design": ["ArbiterAlg"]},
    "C19": {"quick": [ops("wildlib", 150), ops("wild", 200), ops("wildhttp", 60)]},
    "C20": {"quick": [ops("fidelity", 120), ops("httpodd", 50), ops("lib"), ops("net", 80),
                      gen("net", 1500, "put", "query", "dist", "steal")]},
    "C21": {"quick": [ops("http", 100), ops("httpodd", 60)], "ops": ("hput", "hquery", "hbad")},
    "C22": {"quick": [ops("meta", 250), ops("rpc"), ops("net", 60), drv("conc", "report", 50, 15, "TraceLin")],
            "ops": ("len", "nss", "meta", "hist")},
    "C24": {"quick": [ops("faults", 250), ops("move", 100), ops("http", 50), ops("slow", 40, 20),
                      gen("net3", 3000)]},
    "C26": {"quick": [drv("sys", "mix", 6, 6, "TraceSys", 2), drv("sys", "faults", 6, 6, "TraceSys", 2),
                      drv("svc", "x", 2, 0, "TraceSys")],
            "thorough": [drv("sys", "mix", 25, 9, "TraceSys", 4), drv("sys", "faults", 25, 9, "TraceSys", 4),
                         drv("svc", "x", 6, 0, "TraceSys")],
            "design": ["Cluster"], "ops": ("system", "service", "final")},
    "C27": {"quick": [drv("life", "x", 150, 60, "TraceLife")],
            "thorough": [drv("life", "x", 600, 90, "TraceLife", 4)], "design": ["Life"]},
    "C25": {"quick": [ops("redist", 300), ops("move", 120), ops("slow", 40, 20),
                      gen("net", 2000, "dist"), gen("net3", 2000, "dist")], "ops": ("dist",)},
}

# Points with identical content, which Bag.tla tells apart by counting.
for _i, _b in BAG.items():
    PLAN[_i]["quick"] += [dict(ops(b, 60, 30), module="TraceBag") for b in _b]

# Hundreds of points in many groups, and many nodes.
BULK = {"bulk": ("C02", "C04", "C05", "C06", "C08", "C09", "C14", "C15"),
        "bulknet": ("C03", "C04", "C10", "C16", "C25"),
        "refuse": ("C10", "C24", "C25"),
        "many": ("C01", "C06", "C10", "C24")}
for _b, _is in BULK.items():
    for _i in _is:
        PLAN[_i]["quick"].append(ops(_b, 50 if _b == "refuse" else 30, 20))
# A thousand points.
for _i in ("C02", "C04", "C05", "C06", "C14", "C15"):
    PLAN[_i]["quick"].append(ops("huge", 8, 8))

for _p in PLAN.values():
    if "thorough" not in _p:
        _p["thorough"] = more(_p["quick"])

_T = "TLA+ specification, TLC: trace validation of recorded executions of the real code"
_BOUND = " Bounded by the generated scenarios; trusts TLC and the harness' projection of states"
NOTES = {
    # contract with a design model that generates tests
    "store": (_T + ", and replay of the transitions of the model's state graph on the real code",
              "Every step of the recorded executions (random scenarios over the real library, RPC nodes and HTTP server, "
              "with faults and expiry; and scripts which TLC derives from the transitions of Store.tla) is checked by TLC "
              "against the TLA+ contract of the operation (Contract.tla). TLC checks all transitions of the algorithms in "
              "Store.tla for a few points against the same contract." + _BOUND + ", and the clock margin for expiry."),
    "*": (_T, "Every step of the recorded executions (random scenarios over the real library, RPC nodes and HTTP server, "
              "with faults and expiry) is checked by TLC against the TLA+ contract of the operation." + _BOUND +
              ", and the clock margin for expiry."),
    "C07": (_T, "Searches over exhaustively enumerated small pools, and random and odd ones, are checked by TLC against the "
                "definition on exact scores; the insertion sort is checked exhaustively as a TLA+ design." + _BOUND + "."),
    "C12": ("TLA+ specification, TLC: linearizability of recorded concurrent histories of real nodes; exhaustive design model",
            "TLC searches a linearization of each recorded history (Lin.tla); Cluster.tla is explored for all interleavings of "
            "a few requests." + _BOUND + " and the schedules that occurred (widened by delays)."),
    "C13": ("TLA+ specification, TLC: validation of recorded progress of the real code with suspended requests; exhaustive design model",
            "Requests are suspended at chosen places of real nodes, and TLC checks that those which have to complete did; "
            "Cluster.tla is checked for deadlocks and completion (fairness) exhaustively." + _BOUND + "."),
    "C17": (_T + " (requests of the event loop to fake nodes); exhaustive design model", "Recorded balancing rounds of the real loop "
            "are checked by TLC against Balance.tla; BalanceAlg.tla is checked exhaustively for small amounts." + _BOUND + "."),
    "C18": (_T + " (requests of the event loop to fake nodes); exhaustive design model", "All requests of the real loop, loop by loop, "
            "are checked by TLC against Loop.tla; LoopAlg.tla exhaustively." + _BOUND + "."),
    "C23": (_T + " (members behind RPC); exhaustive design model", "Recorded sessions of real members are validated by TLC, with the "
            "set of states that are possible, against Arbiter.tla; ArbiterAlg.tla exhaustively." + _BOUND + "."),
    "C26": (_T + " (whole systems, and the service as a process); exhaustive design model",
            "Recorded histories of whole real systems are checked by TLC against Sys.tla; Cluster.tla exhaustively for a few "
            "concurrent requests and failures." + _BOUND + "."),
    "C27": (_T + " (starts, stops and requests); exhaustive design model",
            "Recorded sequences of starts and stops of real nodes and HTTP servers, and of requests to them, are checked by TLC "
            "against Life.tla, whose transitions are checked exhaustively for three nodes." + _BOUND + "."),
}
for _i, _p in PLAN.items():
    if _i not in NOTES and any("gen" in r for r in _p["quick"]):
        NOTES[_i] = NOTES["store"]
