NA = {}
SEQ = "model-based stateful property testing (generated histories vs reference map, ASan/UBSan, shrinking)"
SEQN = "Generated-input search, not a proof: histories up to a few thousand operations over ten key/value/page configurations."
for _i in ("P01", "P02", "P03", "P04", "P05"):
    CLAIMS[_i] = dict(technique=SEQ, note=SEQN)
CLAIMS["P06"] = dict(technique="property-based testing of comparison laws against an independent lexicographic oracle", note="Generated pairs, triples and sets over ten key shapes.")
SCH = "property-based testing over generated concurrent programs and schedules: simulated threads under a controlled scheduler (random, priority, stalling, delayed stores), "
SCHN = "Sampling of schedules at memory-access granularity over 2-4 threads of up to about 14 operations; sequentially consistent or TSO memory; not exhaustive."
CLAIMS["P16"] = dict(technique=SEQ, note="Histories up to several hundred operations over ten key/hash/limit configurations.")
CLAIMS["P17"] = dict(technique=SCH + "linearizability oracle, shrinking", note=SCHN)
CLAIMS["P18"] = dict(technique=SCH + "heap shadow oracle; plus stateful tests with lifetime-counting types under ASan", note=SCHN)
CLAIMS["P19"] = dict(technique=SCH + "oracle: who was inside before the retirement", note=SCHN)
CLAIMS["P20"] = dict(technique="model-based stateful property testing of call histories, and of thread programs under a controlled scheduler", note=SCHN)
CLAIMS["P12"] = CLAIMS["P13"] = dict(technique=SEQ, note="Histories up to several hundred operations over five families of 64-bit keys, also with the tree's own self-checks on.")
CLAIMS["P14"] = dict(technique=SCH + "linearizability oracle, shrinking", note=SCHN)
CLAIMS["P15"] = dict(technique=SCH + "heap shadow and balance oracle", note=SCHN)
CLAIMS["P07"] = CLAIMS["P08"] = dict(technique=SEQ, note="Histories up to a few thousand operations over eight key/page configurations; trivially copyable keys and values.")
CLAIMS["P09"] = dict(technique=SCH + "linearizability oracle, shrinking", note=SCHN + " Nodes of four to eight slots, word-sized values.")
CLAIMS["P10"] = dict(technique=SCH + "per-entry oracle over the recorded history of writers and scans", note=SCHN + " Nodes of four to eight slots, word-sized values.")
CLAIMS["P11"] = dict(technique=SCH + "heap shadow and balance oracle", note=SCHN)
GEN = "property-based testing of generators, texts and configurations against independent oracles (ranges, statistical margins, reference parser, recording store), ASan/UBSan, shrinking"
KF = " Inputs that only show the recorded findings (known_findings.json) are left out."
CLAIMS["P21"] = dict(technique=GEN, note="Generated ranges up to 64 bits, item counts up to 20000, up to a few hundred draws per case." + KF)
CLAIMS["P22"] = dict(technique=GEN, note="4000-50000 draws per stage with margins of seven standard deviations; deviations below about a third of a percent of the draws are not seen." + KF)
CLAIMS["P23"] = dict(technique=GEN, note="Texts of up to a few dozen lines over an alphabet with blanks, control characters and bytes above 127." + KF)
CLAIMS["P24"] = dict(technique=GEN, note="Configurations of up to 5000 records and operations, the program with up to 8 threads." + KF)
CLAIMS["P25"] = dict(technique="model-based stateful property testing against an ideal store (ASan/UBSan), and thread programs under a controlled scheduler with a linearizability oracle", note=SCHN + KF)
CLAIMS["P26"] = CLAIMS["P25"]
CLAIMS["P27"] = dict(technique=SCH + "linearizability oracle and a reference model for the later single-threaded history, shrinking", note=SCHN + " Followed by histories of up to a few hundred operations.")
CLAIMS["P28"] = dict(technique=SCH + "with one thread paused at a generated point until the others are done; oracle: completion, linearizability, heap shadow", note=SCHN)
CLAIMS["P29"] = dict(technique="stateful property testing: the parsed listing against an independent path-compressed trie, and a metamorphic relation (memory held equals that of a newly filled tree), ASan/UBSan, shrinking; thread programs under a controlled scheduler", note="Histories of up to several hundred operations on 64-bit keys, up to 256 children per node; concurrent programs of up to 14 calls per thread.")
CLAIMS["P30"] = dict(technique="stateful property testing with generated churn (order of keys, choice of victims, window; one thread, or several under randomly controlled schedules) against a bound on the heap bytes held, ASan/UBSan, shrinking", note="Up to 60 entries at a time and about 12000 operations per case, nodes of 256 to 1024 bytes, 64-bit keys; with threads up to 52 entries and about 8000 operations by 2-4 threads, bytes judged after the threads ended." + KF)
CLAIMS["P31"] = dict(technique="stateful property testing (one thread, ASan/UBSan) and thread programs under a controlled scheduler; oracle: the parsed dump as a search tree over the live entries", note=SCHN + " Histories of one thread of up to several thousand operations.")
