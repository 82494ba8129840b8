RUNS, RULES = {}, {}
for _p, _q, _t in (("P01", 100000, 1200000), ("P02", 100000, 1200000), ("P03", 150000, 2000000), ("P04", 80000, 900000), ("P05", 60000, 700000)):
    RUNS[_p] = [dict(src=["harness/btree_map.cpp"], defs=[_p], mode="asan", cases=(_q, _t))]
RUNS["P01"].append(dict(src=["harness/sizes.cpp"], defs=["P01"], mode="asan", parts=4, cases=(15000, 300000)))
RULES["P01"] = "A case is a configuration (key/value type, page size, merge threshold, key domain) and a history of single and bulk operations compared with std::map after each one. Non-trivial: the tree split at least once and later shrank below half its peak."
RULES["P02"] = "A case is a history; after each step all six traversals and a random walk are compared with std::map. Non-trivial: a multi-leaf tree was walked and the map later shrank below half its peak."
RULES["P03"] = "A case is a history with bound queries (present, absent, adjacent, prefix) after each step, compared with std::map. Non-trivial: multi-leaf tree and at least 12 queries."
RULES["P04"] = "A case is a history with lifetime-counting keys/values or strings under ASan/UBSan and a heap balance check. Non-trivial: the tree split and later shrank below half its peak."
RULES["P05"] = "A case is a history; after each step the dump is parsed and compared with counters, height and std::map. Non-trivial: split, and shrank below half its peak or grew by insertion only."
RUNS["P06"] = [dict(src=["harness/compound_key.cpp"], mode="asan", cases=(1500000, 20000000))]
RULES["P06"] = "A case draws several pairs (or a set) of keys of two shapes, biased to shared prefixes and extreme elements, and checks all six operators both ways against an independent lexicographic comparison. Non-trivial: the keys share at least their first element, or a whole set is sorted."
RUNS["P19"] = [dict(src=["harness/epoch.cpp"], defs=["P19"], mode="sched", cases=(600000, 8000000)), dict(src=["harness/epoch.cpp"], defs=["P19"], mode="asan", ids=300, cases=(80000, 1000000))]
RULES["P19"] = "A case is 2-4 thread programs of enter/exit/retire/reclaim calls (or readers and replacers of a shared node) and a schedule, some with delayed stores (TSO). Non-trivial: something was retired while another thread was inside (or both reads and replacements occur), with more than four context switches; in histories of calls by up to five logical threads, some reclamation was held back by a thread inside."
RUNS["P20"] = [dict(src=["harness/epoch.cpp"], defs=["P20"], mode="asan", ids=300, cases=(120000, 1500000)), dict(src=["harness/epoch.cpp"], defs=["P20"], mode="sched", cases=(200000, 3000000))]
RULES["P20"] = "A case is a history of calls by 1-5 logical threads compared with a model of epochs and retire lists, or thread programs under a schedule. Non-trivial: some reclamation was held back by a thread inside (or something was retired while another thread was inside)."
RUNS["P16"] = [dict(src=["harness/hashtable.cpp"], defs=["P16"], mode="asan", cases=(150000, 2000000))]
RULES["P16"] = "A case is a hash function, initial capacity and a history compared with std::map after each operation. Non-trivial: the table grew past its initial capacity and at least three keys were deleted."
RUNS["P17"] = [dict(src=["harness/hashtable.cpp"], defs=["P17"], mode="sched", cases=(600000, 8000000))]
RULES["P17"] = "A case is a prefilled table, 2-4 thread programs over a few hot keys and a schedule; the recorded history plus final lookups must be linearizable. Non-trivial: some operation writes and there are more than six context switches."
RUNS["P18"] = [dict(src=["harness/hashtable.cpp"], defs=["P18"], mode="asan", cases=(80000, 1000000)), dict(src=["harness/hashtable.cpp"], defs=["P18"], mode="sched", cases=(400000, 5000000))]
RULES["P18"] = "A case is a sequential history with lifetime-counting keys and values, or thread programs under a schedule with every access checked against the heap shadow and a heap balance at the end. Non-trivial: growth and at least three deletions, or writes with more than six context switches."
RUNS["P12"] = [dict(src=["harness/art.cpp"], defs=["P12"], mode="asan", cases=(150000, 2000000))]
RULES["P12"] = "A case is a key family (few values per byte, dense at one byte, derived from earlier keys) and a history compared with std::map. Non-trivial: at least five keys at the peak and later less than half of that."
RUNS["P13"] = [dict(src=["harness/art.cpp"], defs=["P13"], mode="asan", cases=(150000, 2000000))]
RULES["P13"] = RULES["P12"]
RUNS["P14"] = [dict(src=["harness/art.cpp"], defs=["P14"], mode="sched", cases=(800000, 10000000))]
RULES["P14"] = "A case is a prefilled tree near a node-size boundary, 2-4 thread programs over a few keys sharing prefixes and a schedule; the recorded history plus final lookups must be linearizable. Non-trivial: some operation writes and there are more than six context switches."
RUNS["P15"] = [dict(src=["harness/art.cpp"], defs=["P15"], mode="sched", cases=(600000, 8000000))]
RULES["P15"] = "As P14, with every access checked against the heap shadow and a heap balance at the end. Non-trivial: the tree has several levels and holds less than half of its peak; or some operation writes and there are more than six context switches."
RUNS["P07"] = [dict(src=["harness/cbtree.cpp"], defs=["P07"], mode="asan", parts=4, cases=(40000, 900000))]
RUNS["P07"].append(dict(src=["harness/sizes.cpp"], defs=["P07"], mode="asan", parts=4, cases=(8000, 150000)))
RULES["P07"] = "A case is a configuration (key kind, page size, merge threshold) and a history of single and bulk operations compared with std::map. Non-trivial: the tree has several levels and holds less than half of its peak."
RUNS["P08"] = [dict(src=["harness/cbtree.cpp"], defs=["P08"], mode="asan", parts=4, cases=(30000, 700000))]
RULES["P08"] = "A case is a history with traversals, walks in both directions, bounds and range scans after each step, some with own updates between the steps. Non-trivial: several levels and at least ten queries."
for _p in ("P09", "P10", "P11"):
    RUNS[_p] = [dict(src=["harness/cbtree.cpp"], defs=[_p], mode="sched", cases=(1500000, 20000000))]
RUNS["P11"].insert(0, dict(src=["harness/cbtree.cpp"], defs=["P11"], mode="asan", cases=(30000, 400000)))
RULES["P09"] = "A case is a prefilled (and thinned) small-node tree, 2-4 thread programs around a few keys and a schedule; results plus final lookups and a final traversal must be linearizable. Non-trivial: some operation writes and there are more than six context switches."
RULES["P10"] = "A case is a tree, 1-2 scanning threads, 1-3 writing threads and a schedule; every reported entry is judged against the recorded history. Non-trivial: the scans reported something, writes happened and there are more than six context switches."
RULES["P11"] = "A case is a history with lifetime-counting or text keys and values, or as P09 and P10 mixed, with every access checked against the heap shadow and a heap balance at the end. Non-trivial: the tree has several levels and holds less than half of its peak; or some operation writes and there are more than six context switches."
for _p in ("P25", "P26"):
    RUNS[_p] = [dict(src=["harness/stores.cpp"], defs=[_p], mode="asan", cases=(40000, 600000), inc=["src/benchmark/ycsb"]), dict(src=["harness/stores.cpp"], defs=[_p], mode="sched", cases=(200000, 3000000), inc=["src/benchmark/ycsb"])]
    RULES[_p] = "A case is a history over several tables compared with an ideal store after each operation, or thread programs under a schedule whose results must be linearizable per record. Non-trivial: at least four records at the peak, later less than half, and something was read; or some operation writes and there are more than six context switches."
_Y = ["src/benchmark/ycsb"]
RUNS["P21"] = [dict(src=["harness/workload.cpp"], defs=["P21"], mode="asan", cases=(60000, 1000000), inc=_Y), dict(src=["harness/workload.cpp"], defs=["P21"], mode="sched", cases=(200000, 3000000), inc=_Y)]
RULES["P21"] = "A case is a generator with its parameters and a sequence of draws, some with changing item counts, or threads sharing generators under a schedule. Non-trivial: more than twenty draws of a range, a range that does not start at zero or changes, or more than three counts drawn with more than six context switches."
RUNS["P22"] = [dict(src=["harness/workload.cpp"], defs=["P22"], mode="asan", cases=(8000, 150000), inc=_Y)]
RULES["P22"] = "A case is a generator with its parameters and 4000-50000 draws per stage of growth, judged with a margin of seven standard deviations. Non-trivial: more than ten items (two weights for discrete choices)."
RUNS["P23"] = [dict(src=["harness/workload.cpp"], defs=["P23"], mode="asan", cases=(150000, 3000000), inc=_Y)]
RULES["P23"] = "A case is one to three configuration texts compared with a reference parser, or calls of the helpers with generated arguments. Non-trivial: more than three lines; or any helper case."
RUNS["P24"] = [dict(src=["harness/workload.cpp", "repo:src/benchmark/ycsb/ycsb.cpp"], defs=["P24"], mode="asan", cases=(6000, 100000), inc=_Y), dict(src=["harness/workload.cpp"], defs=["P24"], mode="sched", cases=(60000, 1000000), inc=_Y)]
RULES["P24"] = "A case is a configuration, a load and a run of transactions against a recording store, also through the benchmark program with threads, or clients on simulated threads. Non-trivial: more than twenty transactions, several threads, or a load only from another start; or more than three keys handed out with more than six context switches."
RUNS["P27"] = [dict(src=["harness/aftermath.cpp"], defs=["P27"], mode="sched", cases=(200000, 3000000))]
RULES["P27"] = "A case is one or two prefilled maps, one to three waves of 2-4 thread programs with a schedule each, and single-threaded histories after each wave compared with a model. Non-trivial: some operation writes and the waves had more than six thread switches each."
RUNS["P28"] = [dict(src=["harness/aftermath.cpp"], defs=["P28"], mode="sched", cases=(1500000, 20000000))]
RULES["P28"] = "A case is a prefilled map (or an epoch manager), one thread with a pausing point, 1-3 others with programs, and a schedule. Non-trivial: the thread really paused until the others were done, and some other operation writes (some object was retired)."
RUNS["P29"] = [dict(src=["harness/shape.cpp"], defs=["P29"], mode="asan", cases=(20000, 300000)), dict(src=["harness/shape.cpp"], defs=["P29"], mode="sched", cases=(300000, 4000000))]
RULES["P29"] = "A case is a key family and a history; every dozen operations and at the end the listing is compared with the trie of the model and the memory with that of a newly filled tree. Non-trivial: more than four entries at the peak, fewer but more than one at the end; or waves of thread programs after which the listing must be a trie of the live entries (non-trivial: something was written, more than one entry is left, more than six context switches)."
RUNS["P30"] = [dict(src=["harness/space.cpp"], defs=["P30"], mode="asan", cases=(16000, 250000)), dict(src=["harness/space.cpp"], defs=["P30"], mode="sched", cases=(120000, 2000000))]
RULES["P30"] = "A case is an index, an order of keys, a rule which entries go, and a window; after every phase the bytes held (after reclaiming) are compared with the limit for the largest number of entries so far; or 2-4 threads that insert and remove under a schedule, judged likewise when they have ended. Non-trivial: more than twenty times as many insertions as entries at the peak (threads: ten times as many per thread as each keeps, and more than twenty context switches)."
RUNS["P31"] = [dict(src=["harness/cshape.cpp"], defs=["P31"], mode="asan", cases=(25000, 400000)), dict(src=["harness/cshape.cpp"], defs=["P31"], mode="sched", cases=(300000, 4000000))]
RULES["P31"] = "A case is a history, or thread programs on a prefilled (and thinned) tree with a schedule; after every bulk operation, and when the threads have ended, the dump is parsed and compared with the live entries. Non-trivial: more than one level, and shrunk below half the peak or grown by insertion only; or several levels, some operation writes and more than six context switches."
