#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BM = "include/indexes/btree/map.h"; BC = "include/indexes/btree/concurrent_map.h"
BK = "include/indexes/btree/key.h"; BD = "include/indexes/btree/btree_dump.h"; BCM = "include/indexes/btree/common.h"
AM = "include/indexes/art/map.h"; AC = "include/indexes/art/concurrent_map.h"; AD = "include/indexes/art/art_dump.h"
HC = "include/indexes/hashtable/concurrent_map.h"; EM = "include/indexes/utils/EpochManager.h"
BU = "src/benchmark/utils/"; YC = "src/benchmark/ycsb/core/"; YD = "src/benchmark/ycsb/db/"

def P(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=[observe], hook_needed=hook or "none: observable through the public interface"))
PROPS = [
P("P01", "Ordered map answers agree with a reference map over any history",
  "For every sequence of insertions, assignments, removals (by key, by found position) and lookups, the single-threaded B+tree map gives the same answers as an ideal ordered map: lookups (mutable and read-only) find exactly the live keys with their latest values, reading a missing key through the subscript inserts it with a default value, removal reports whether the key was there, and size and emptiness are exact.",
  ["histories", "configurations"], "all operation sequences, over key and value types, page sizes and merge thresholds",
  "The tests run three fixed insert/lookup/erase-in-order scenarios on two page layouts; split, trim and merge interleavings depend on the whole history and on node geometry.",
  [BM], [("tree nodes", "slotted pages of keys and values", BM+": inherited_node_t"), ("entry count", "number of live entries", BM+": count")],
  [("insert with trim or split on overflow", BM+": insert_into_node, handle_overflow"), ("remove with merge on underfull", BM+": remove_from_node, merge_node"), ("lookup", BM+": find, get_leaf_containing")],
  "return values of operator[], find, erase, size, empty after each operation"),
P("P02", "Iteration visits every live entry once, in order, in both directions",
  "After any history of insertions and removals of the single-threaded B+tree map, traversal from first to past-the-last and from last to past-the-first, through mutable and read-only handles, visits every live entry exactly once in ascending (respectively descending) key order and then stops. An iterator can be moved back and forth from any position, including back from the end, always landing on the neighbouring live entry; an emptied map has nothing to visit.",
  ["histories", "configurations"], "all reachable tree states and all walks over them",
  "Tests walk a bulk-loaded tree once and one-directionally; leaves emptied or merged by removals, read-only traversal and direction changes at leaf borders are only reached by particular histories.",
  [BM], [("iterator position", "leaf and slot", BM+": iterator_impl")],
  [("leaf stepping by border keys", BM+": get_next_leaf, get_prev_leaf"), ("begin/end family", BM+": begin, cbegin, rbegin, crbegin, end")],
  "sequence of entries seen by the iterator families"),
P("P03", "Bound searches return the first matching position, for full and prefix keys",
  "On any reachable single-threaded B+tree map, the lower (upper) bound of a query key is the first entry not less than (greater than) it, or the end if there is none, through mutable and read-only handles; a scan can continue from it in both directions. The same holds for a query that is a prefix of a compound key or a comparable key of another type.",
  ["histories", "inputs"], "all tree states, all query keys present or absent, full or prefix",
  "Tests compare bounds on one bulk-loaded tree; bounds that fall on leaf borders, on emptied leaves or beyond the last entry need specific histories and queries.",
  [BM, BK], [("separator keys", "route a query to a leaf", BM+": inner nodes")],
  [("descent for lower bound", BM+": get_leaf_containing, lower_bound_pos"), ("descent for upper bound", BM+": get_upper_bound_leaf, upper_bound_pos")],
  "iterators returned by lower_bound and upper_bound"),
P("P04", "Every stored key and value is constructed and destroyed exactly once",
  "Through any history of the single-threaded B+tree map including its destruction, every stored key and value is a properly constructed object until its entry is removed or the map destroyed, and is then destroyed exactly once: nothing is leaked, destroyed twice, or read outside its lifetime, and no memory outside live nodes is touched.",
  ["histories", "configurations"], "all histories over key and value types with non-trivial lifetimes",
  "Existing tests use trivially destructible values and run without lifetime or memory checking.",
  [BM], [("page storage", "raw bytes holding placed objects", BM+": alloc, get_key_value")],
  [("placement into pages", BM+": insert_into_pos, append"), ("node release", BM+": free, ~inherited_node_t, ~map")],
  "constructor/destructor counts, AddressSanitizer/UBSan, heap balance"),
P("P05", "The tree stays balanced and its shape report and counters are exact",
  "After any history the structural dump of the single-threaded B+tree map shows a balanced tree: the number of levels matches the reported height, each level links exactly the nodes of the next, and the leaf level lists the live keys in order; insertion-only histories keep the height logarithmic. The maintenance counters account exactly for the nodes that exist, and emptied leaves are absorbed by their left siblings.",
  ["histories", "configurations"], "all histories, page sizes and thresholds",
  "No test looks at the shape or the counters.",
  [BM, BD, BCM], [("statistics", "splits, trims, merges", BCM+": btree_stats_t"), ("height", "levels above the leaves", BM+": m_height")],
  [("split/merge", BM+": split_node, merge_node, create_root"), ("dump", BD)],
  "dump(), height(), stats()"),
P("P06", "Compound keys compare as lexicographic sequences with prefix rule",
  "Comparison of two compound keys, possibly of different lengths, is lexicographic over their common elements with a proper prefix ordered before its extensions; all six relational operators are mutually consistent, equality holds exactly for equal elements and equal length, and the induced relation is a strict total order on keys of one type.",
  ["inputs"], "all pairs and triples of keys over element types and lengths",
  "Tests sort random keys of one shape only.",
  [BK], [("key elements", "tuple", BK+": compound_key")], [("element-wise comparison", BK+": less")], "operators ==, !=, <, >, <=, >="),
P("P07", "Concurrent B+tree: single-threaded histories agree with a reference map",
  "Used from one thread, every history of insert-if-absent, insert-or-replace, replace-if-present, lookup and delete on the concurrent B+tree returns what an ideal map returns (success flag or previous value), with exact contents, element count and emptiness, for fixed-size keys and for variable-length keys ordered by a user-supplied comparison. Its height stays logarithmic in the number of updates. No history touches invalid memory.",
  ["histories", "configurations"], "all operation sequences over key kinds, page sizes, merge thresholds",
  "The repository has no runnable test of this structure here; split, trim, merge and root-growth cases depend on history and node geometry.",
  [BC], [("node pages", "slotted pages with versioned state", BC+": inherited_node_t"), ("element count", "statistics", BC+": size")],
  [("insert/upsert/update", BC+": insert_or_upsert"), ("delete with merge", BC+": Delete, merge_node"), ("search", BC+": Search")],
  "return values of the public operations"),
P("P08", "Concurrent B+tree: traversals and range scans are exact when nobody else writes",
  "In any state reached by one thread, forward and reverse traversal and positioned lookups (lower and upper bound) of the concurrent B+tree report every live entry once in order, and a range scan with inclusive or exclusive ends, forward or reverse, reports exactly the live entries within the range. Removing entries between steps of a traversal never makes it repeat, misorder or skip entries that stay.",
  ["histories", "inputs"], "all reachable states, all ranges, all boundary kinds, all interleavings of steps with own updates",
  "No test runs it; ends falling between keys, beyond the last key or in emptied leaves need specific states.",
  [BC], [("traversal position", "cached leaf and slots", BC+": iterator_impl")],
  [("range iterators", BC+": range_iter, rrange_iter"), ("bounds", BC+": lower_bound, upper_bound")],
  "entries reported by iterators"),
P("P09", "Concurrent B+tree point operations are linearizable",
  "For every interleaving of inserts, upserts, updates, lookups and deletes by several threads, each operation appears to take effect atomically between its call and return: some sequential order consistent with real time explains all results and the final contents. Every operation completes, with no deadlock or lost wake-up.",
  ["schedules", "histories"], "all thread schedules of small concurrent histories around splits, trims, merges and root growth",
  "Depends on the exact interleaving of optimistic reads with structure modifications; stress tests sample schedules blindly and have no oracle.",
  [BC], [("node version/lock words", "optimistic validation", BC+": nodestate_t")],
  [("optimistic validation and restart", BC), ("latched structure modification", BC+": split_node, merge_node")],
  "recorded invocation/response history under a controlled scheduler"),
P("P10", "Concurrent B+tree scans return stable keys exactly once and in order",
  "A traversal running concurrently with writers reports keys in strictly increasing (for reverse, decreasing) order, reports every key in its range that was present throughout the scan, and never reports a key or value that was not present at some moment of the scan.",
  ["schedules", "histories"], "all schedules of one or more scans with concurrent inserts, upserts and deletes",
  "Needs a leaf to split, merge or be replaced exactly between two steps of a scan.",
  [BC], [("cached leaf snapshot", "what the scan continues from", BC+": iterator_impl")],
  [("step to next/previous leaf", BC+": get_next_leaf, get_prev_leaf")], "entries seen by scans under a controlled scheduler"),
P("P11", "Concurrent B+tree never touches freed memory and frees each node once",
  "Under every schedule, no thread of the concurrent B+tree reads or writes a node after it was freed, no node is freed twice, and once all threads are done and the tree is destroyed nothing it allocated remains; every key and value it stored is destroyed exactly once.",
  ["schedules", "histories"], "all schedules of small concurrent histories with structure modifications",
  "A reclamation error needs a reader paused inside a node while it is replaced, retired and reclaimed.",
  [BC, EM], [("retired nodes", "waiting for readers to leave", EM+": m_retire_list")], [("epoch guard around operations", BC), ("retire on replacement", BC)],
  "allocation shadow memory checked on every instrumented access"),
P("P12", "Radix tree answers agree with a reference map over any history",
  "For every sequence of insert, upsert, update, delete and lookup with 64-bit keys, the single-threaded adaptive radix tree returns what an ideal map returns and its element count is exact, whatever the byte pattern of the keys and however nodes grow and shrink. It neither leaks nor touches invalid memory, an emptied tree holds no more memory than a new one, and a moved-from tree is empty while the new one holds all entries.",
  ["histories", "inputs"], "all operation sequences over all 64-bit key sets",
  "No test runs it; node-size transitions, path compression and prefix splits depend on key bytes at particular depths.",
  [AM], [("inner nodes of four sizes", "children by byte", AM+": node4_t..node256_t"), ("compressed prefix length", "keylen", AM+": node_t")],
  [("insert/expand/prefix split", AM+": insert, add_to_parent, replace_node"), ("erase/shrink", AM+": erase, shrink_node")], "public operation results"),
P("P13", "Concurrent radix tree: single-threaded histories agree with a reference map",
  "Used from one thread, every history of insert, upsert, update, delete and lookup on the concurrent adaptive radix tree returns what an ideal map returns, with an exact element count and without touching invalid memory. A moved tree keeps its entries, and once emptied and reclaimed it holds no more memory than a new one.",
  ["histories", "inputs"], "all operation sequences over all 64-bit key sets",
  "No test runs it; node-size transitions and prefix splits depend on key bytes at particular depths.",
  [AC], [("inner nodes of four sizes", "children by byte", AC)], [("insert/expand/prefix split", AC), ("erase/shrink", AC)], "public operation results"),
P("P14", "Concurrent radix tree operations are linearizable",
  "For every interleaving of inserts, upserts, updates, lookups and deletes by several threads on the concurrent radix tree, some sequential order consistent with real time explains all results, the final contents and the final element count. Every operation completes.",
  ["schedules", "histories"], "all schedules of small concurrent histories around node growth, shrinkage, prefix splits and removal",
  "Depends on exact interleavings of optimistic descents with node replacement.",
  [AC], [("node version/lock", "optimistic validation", AC)], [("lock coupling with version checks", AC)], "recorded history under a controlled scheduler"),
P("P15", "Concurrent radix tree never touches freed memory and frees each node once",
  "Under every schedule, no thread of the concurrent radix tree reads or writes a node after it was freed, no node is freed twice, and after reclamation and destruction nothing it allocated remains.",
  ["schedules", "histories"], "all schedules of small concurrent histories with node replacement",
  "A reclamation error needs a reader paused inside a node while it is replaced and reclaimed.",
  [AC, EM], [("retired nodes", "waiting for readers", EM+": m_retire_list")], [("epoch guard", AC), ("retire on replacement", AC)], "allocation shadow memory"),
P("P16", "Hash table: single-threaded histories agree with a reference map",
  "Used from one thread, every history of insert, upsert, update, delete, lookup and reserve on the hash table returns what an ideal map returns for any hash function, however badly it collides within the chain limits; size, emptiness and load factor are exact across growth and a moved table keeps all entries.",
  ["histories", "inputs", "configurations"], "all operation sequences over keys, hash functions and initial capacities",
  "No test runs it; chain wrap-around, tombstones and migration depend on hash values and history.",
  [HC], [("buckets and chain links", "open addressing with relative links", HC+": HashTable")], [("chain search", HC+": search"), ("growth", HC+": migrate_table")], "public operation results"),
P("P17", "Hash table operations are linearizable, including across growth",
  "For every interleaving of inserts, upserts, updates, lookups, deletes and growth by several threads on the hash table, some sequential order consistent with real time explains all results and the final contents and size; no key is lost or duplicated, and every operation completes.",
  ["schedules", "histories"], "all schedules of small concurrent histories with colliding keys and migrations",
  "Needs two writers on the same chain or a writer paused across a table replacement.",
  [HC], [("bucket locks", "per bucket mutex", HC+": Link"), ("migration flag", "writers wait", HC+": is_migration_in_progress")], [("insert protocol", HC+": insert"), ("migration", HC+": try_migrate_table")], "recorded history under a controlled scheduler"),
P("P18", "Hash table keeps entries alive while readable and releases everything once",
  "Every key and value stored in the hash table is destroyed exactly once, never while an operation can still read it, and nothing remains allocated once the table is destroyed; no schedule reads or writes freed memory.",
  ["schedules", "histories"], "all histories with non-trivial keys and values, all schedules with trivially copyable ones",
  "Requires lifetime tracking and schedules that replace the table under a reader.",
  [HC, EM], [("retired tables", "old bucket arrays", HC)], [("deferred release", EM)], "lifetime counts and allocation shadow memory"),
P("P19", "Epoch protection: nothing is reclaimed while a protecting thread could hold it",
  "An object retired to the epoch manager is never passed to its reclaimer while any thread that entered its protected section before the retirement is still inside it, under every schedule of nested enter, exit, retire and reclaim calls.",
  ["schedules", "histories"], "all schedules of several threads entering, leaving, retiring and reclaiming",
  "The window is a few instructions inside the minimum computation or the announcement of a new epoch.",
  [EM], [("global epoch", "advanced on retirement", EM+": m_global_epoch"), ("announced epochs", "one per thread", EM+": m_local_epoch")], [("minimum announced epoch", EM+": get_min_used_epoch"), ("reclaim test", EM+": can_reclaim")], "reclaimer callbacks against a shadow of who may hold what"),
P("P20", "Epoch reclamation happens exactly once and is complete when nobody is inside",
  "Each retired object is passed to its own reclaimer exactly once, in retirement order per thread; a reclaim call reports exactly how many of the caller's retired objects remain, objects retired in an epoch that every thread inside has moved past are released by the next reclaim call, reaching the threshold triggers reclamation by itself, and when no thread is inside a protected section a full reclaim, or destroying the manager, leaves nothing behind.",
  ["histories", "schedules"], "all histories of retire/reclaim/threshold changes over several threads",
  "Not tested; depends on counts around the threshold and nesting.",
  [EM], [("retire lists", "per thread", EM+": m_retire_list")], [("list trimming", EM+": reclaim_in_retire_list"), ("threshold", EM+": retire")], "reclaimer callbacks and returned counts"),
P("P21", "Workload number generators stay within their declared range",
  "Every value produced by the workload's number generators (constant, counter, uniform, Zipfian, scrambled Zipfian, latest-skewed, discrete) lies within the declared range for every range, and the last produced value is reported as such; counters yield consecutive values.",
  ["inputs", "histories"], "all ranges, parameters and draw sequences",
  "An out-of-range draw depends on the random tail or on a range not starting at zero.",
  [BU+"zipfian_generator.h", BU+"uniform_generator.h", BU+"discrete_generator.h", BU+"scrambled_zipfian_generator.h", BU+"skewed_latest_generator.h", BU+"counter_generator.h", BU+"const_generator.h"],
  [("range", "lower and upper bound", BU+"zipfian_generator.h: base_, num_items_")], [("Zipfian draw", BU+"zipfian_generator.h: Next")], "returned values"),
P("P22", "Workload generators follow their declared distribution",
  "Generated values follow the declared distribution: uniform draws cover the range evenly, discrete choices appear in proportion to their weights and never with weight zero, Zipfian draws favour smaller ranks with the declared exponent also after the item count grows, scrambling preserves the skew while spreading it over the range, and the latest-skewed generator favours the most recent items.",
  ["inputs", "configurations"], "all parameters; judged on large samples with wide statistical margins",
  "A distribution is a statement about many draws and many parameters.",
  [BU+"zipfian_generator.h", BU+"discrete_generator.h", BU+"uniform_generator.h", BU+"scrambled_zipfian_generator.h", BU+"skewed_latest_generator.h"],
  [("zeta sums", "normalisation", BU+"zipfian_generator.h")], [("incremental zeta", BU+"zipfian_generator.h: Zeta")], "empirical frequencies"),
P("P23", "Configuration files and small text helpers behave as specified on any text",
  "Loading a configuration text yields exactly its key=value lines with surrounding blanks removed and later lines overriding earlier ones, ignoring comments (lines starting with #), blank lines and lines without a separator, for any text; lookups return the stored value or the default. Trimming, boolean words, hashing and random helper functions meet their definitions for every argument.",
  ["inputs"], "all texts",
  "Parsers fail on unusual lines, not on the shipped samples.",
  [BU+"properties.h", BU+"utils.h"], [("property table", "string map", BU+"properties.h")], [("line parser", BU+"properties.h: Load"), ("trim", BU+"utils.h")], "parsed table"),
P("P24", "The benchmark core generates the configured workload",
  "For any valid configuration (inserting from record zero) the workload core produces keys only of records that exist, never reuses an insert key, builds values with the configured fields and lengths, picks operations in the configured proportions, and bounds scan lengths; running a client against any store performs exactly one store operation per transaction (two for read-modify-write, on one record) and reports the store's answer, and the benchmark program loads every configured record and runs every configured operation for any number of threads.",
  ["configurations", "histories"], "all configurations and run lengths",
  "Depends on configuration combinations and random draws.",
  [YC+"core_workload.h", YC+"core_workload.cpp", YC+"client.h"], [("key sequence", "next insert key", YC+"core_workload.h: key_generator_")], [("key choice", YC+"core_workload.h: NextTransactionKey"), ("client dispatch", YC+"client.h")], "calls received by a recording store"),
P("P25", "Locked in-memory store behaves as tables of records with named fields",
  "For any history of read, scan, insert, update and delete on the locked in-memory store, results equal those of an ideal store of tables: tables are separate, reads return the last written values of the requested fields, scans return records of the requested number in key order from the start key, inserting replaces and updating creates or changes a record, reads and deletes of missing records report no data, deleted records disappear, and operations of several threads are linearizable.",
  ["histories"], "all operation histories over tables, keys and field sets",
  "No test runs it; errors show only in read-after-write sequences.",
  [YD+"locked_map_db.h", YC+"db.h"], [("record map", "table+key to field map", YD+"locked_map_db.h")], [("operations", YD+"locked_map_db.h")], "status codes and returned records"),
P("P26", "Concurrent store adapter behaves as tables of records with named fields",
  "For any history and any schedule of read, scan, insert, update and delete on the store adapter over the concurrent map, results equal those of an ideal store of tables: tables are separate, acknowledged writes are visible to later reads, inserting an existing record reports a conflict and leaves it, deleted records disappear, operations on a record are linearizable, scans report records in order as they were at some moment of the scan, and no record is read after it was released.",
  ["histories", "schedules"], "all operation histories and schedules over tables, keys and field sets",
  "No test runs it; errors show only in read-after-write sequences and interleavings.",
  [YD+"concurrent_map_db.h"], [("record map", "table+key to record", YD+"concurrent_map_db.h")], [("operations", YD+"concurrent_map_db.h")], "status codes and returned records"),
P("P27", "What concurrent updates leave behind is a sound index",
  "After any number of waves of threads have updated one or two concurrent maps (B+tree, hash table, radix tree) and ended, the maps are ordinary indexes with the contents that explain the recorded history: every lookup, size, traversal, bound, range scan and single-threaded update from then on answers like an ideal map, also after moves, with other or reused thread ids, and when the map is emptied and refilled; the maps do not affect each other.",
  ["histories", "schedules"], "all programs, schedules and later histories",
  "Damage done by an interleaving often shows only in later operations that reach the damaged place.",
  [BC, HC, AC, "include/indexes/utils/ThreadRegistry.h"], [("tree links and keys", "separators, chains and node counters", BC), ("chains and counters", "hash nodes, size, resize state", HC), ("node counters", "children and removed children", AC)], [("splits, merges, trims", BC), ("growth", HC), ("enlarging and shrinking", AC)], "results of operations after the threads ended"),
P("P28", "A thread that pauses does not stop the others",
  "While one thread stays for any time between operations, with an open traversal or inside a protected section of the epoch manager, or inside a lookup of the radix tree or hash table (for the B+tree: a lookup or scan that met no update), all other threads complete all their operations on the same map with linearizable results, and nothing the pausing thread still uses is released; when it goes on, its results are right too.",
  ["schedules"], "all programs, pausing points and schedules",
  "Needs one thread descheduled at a chosen point while the others run to completion.",
  [BC, HC, AC, EM], [("epochs", "who is inside since when", EM), ("locks", "taken by updates only", AC)], [("optimistic lookups", BC), ("lookups without locks", HC+", "+AC), ("deferred reclamation", EM)], "completion of the other threads"),
P("P29", "The shape and memory of a radix tree depend on its contents only",
  "After any single-threaded history both radix trees hold the path-compressed trie of their keys in nodes of the smallest fitting kinds: the listing printed by the map shows exactly that trie, level by level, with every entry once and children in byte order, and the memory held by the map and by the concurrent map (after reclaiming) equals that of one newly filled with the same entries. After concurrent updates have ended, the concurrent map's listing still is a trie of exactly the live entries.",
  ["histories", "schedules"], "all histories",
  "Lookups cannot see superfluous, oversized or badly compressed nodes; they accumulate over histories.",
  [AM, AC, AD], [("nodes", "kinds with 4, 16, 48 and 256 children", AM)], [("shrinking and path compression", AM+": shrink, compress"), ("listing", AD)], "dump() text; heap bytes"),
P("P30", "Memory stays proportional to the entries under sustained churn",
  "However many entries are inserted into and removed from an index over its life, by one thread or by several, in whatever order of keys and whichever entries are removed, the memory it holds (for the concurrent maps: after reclaiming) stays within a constant factor of its largest number of entries, and never grows with the number of operations: emptied nodes are merged away, tombstones and chains are reused, tables and nodes are not enlarged for entries that are gone.",
  ["histories", "schedules"], "all histories of insertions and removals, by any number of threads",
  "Slow growth shows only over long histories of particular shape, never in a lookup.",
  [BM, BC, HC, AM, AC], [("nodes", "leaf and inner nodes", BM), ("tables", "buckets and tombstones", HC)], [("merging", BM+", "+BC), ("resizing and reuse of tombstones", HC), ("shrinking", AM)], "heap bytes held"),
P("P31", "The concurrent B+tree stays balanced, also under concurrent updates, and its shape report is exact",
  "After any history of one thread, and of several once they are done, the structural dump of the concurrent B+tree shows a balanced search tree: as many levels as the reported height, each level linking exactly the nodes of the next, keys in order and within the bounds their parents announce, and leaves that list exactly the live entries in order. After one thread's history the counters of splits and merges account exactly for the nodes that exist and emptied leaves are absorbed; after concurrent ones no node is unaccounted for.",
  ["histories", "schedules"], "all histories and interleavings",
  "A misplaced separator or a lost child shows only to lookups of particular keys much later.",
  [BC], [("nodes", "levels, separators, children", BC), ("counters", "splits and merges", BC)], [("split, trim and merge", BC), ("dump", "include/indexes/btree/btree_dump.h")], "dump(), height(), stats()"),
]
CLAIMS = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in CLAIMS:
            checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i} --tier quick",
                               thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
                               evidence_file=f"evidence/{i}.json",
                               technique=CLAIMS[i]["technique"], level="exploration", level_note=CLAIMS[i]["note"]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check under construction; not claimed yet")))
    m = dict(version=1, setup_cmd="python3 tools/check.py --setup",
             hooks=dict(guard="none", enable="no hooks: the checks use the public interface and compiler instrumentation only", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="Known findings and repaired defects: known_findings.json. Design: DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
