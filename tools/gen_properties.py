#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
SET = ["ipv4/set.go", "ipv4/setnode.go", "ipv6/set.go", "ipv6/setnode.go"]
TRIE = ["ipv4/node.go", "ipv6/node.go"]
TAB = ["ipv4/table.go", "ipv4/tablex.go", "ipv6/table.go", "ipv6/tablex.go"]
PFX = ["ipv4/prefix.go", "ipv6/prefix.go"]
RNG = ["ipv4/range.go", "ipv6/range.go"]
ADR = ["ipv4/address.go", "ipv6/address.go", "ipv6/uint128.go"]

prop("C01", "Set algebra is exact for every pair of sets",
 "For any two sets of addresses A and B (each given as an address, prefix, range, immutable set or mutable set), union, intersection and difference contain exactly the addresses that mathematical set algebra prescribes, containment is true exactly when every address of the other is present, and emptiness is true exactly for the empty set. This holds for IPv4 and IPv6 alike, whatever the prefix lengths, alignment or position in the address space.",
 ["inputs"], "all pairs of sets, all operand kinds, both address families",
 "The tests try a few dozen hand-picked pairs; the recursion has ~10 structural cases (same/contains/contained/disjoint x active/inactive x child side) that combine with every prefix length up to 128.",
 SET + TRIE, [("structural recursion on two tries", "setnode.go Union/Difference/Intersect"), ("prefix relation", "node.go contains/compare")],
 observe=["Set.Union", "Set.Intersection", "Set.Difference", "Set.Contains", "Set.IsEmpty"])
prop("C02", "Sets are canonical: equality and minimal form ignore construction history",
 "Two sets are Equal exactly when they contain the same addresses, no matter which sequence of operations built them. Every set enumerates, in ascending order, as the unique minimal list of disjoint maximal prefixes (host bits zero) covering exactly its addresses, and its text form shows exactly that list.",
 ["histories", "inputs"], "all construction histories (insert/remove/union/intersection/difference/from range/from prefix) of a set",
 "Tests compare a few specific outcomes; that no history reaches a non-canonical shape is a claim over all histories.",
 SET + TRIE, [("flatten merges sibling prefixes", "node.go flatten"), ("structural equality", "node.go Equal"), ("host bits dropped", "setnode.go setNodeFromPrefix")],
 observe=["Set.Equal", "Set_.Equal", "Set.WalkPrefixes", "Set.String"])
prop("C03", "Mutable set histories behave like a set of addresses",
 "After any sequence of Insert and Remove calls on a mutable set, with arguments of any set kind including overlapping, nested, empty and self arguments, its contents are exactly those of a reference set of addresses subjected to the same sequence. All copies of the mutable set see every change.",
 ["histories"], "all sequences of Insert/Remove over addresses, prefixes, ranges and sets",
 "Tests exercise a handful of sequences of length 2-3 plus one random run.",
 SET + TRIE, [("in-place replace of root", "set.go Set_.mutate/Insert/Remove")],
 state=[("Set_.s.trie", "current root", "set.go")], observe=["Set_.Insert", "Set_.Remove", "Set_.Set"])
prop("C04", "Set walks and counts are complete, ordered and stop on request",
 "Walking a set by addresses (IPv4), prefixes or ranges visits each member exactly once in ascending order, with ranges maximal (never adjacent or overlapping); a walk terminates, stops immediately when the callback returns false, and reports whether it completed. Address counts and counts of prefixes of a given length equal the true numbers, with IPv6 counts that do not fit in 64 bits reported as an error rather than a wrong number.",
 ["inputs"], "all sets including those touching both ends of the address space, all stop positions, all lengths",
 "Tests never walk a set that contains the last address of the space, nor stop at each position.",
 SET + PFX + RNG, [("walks", "set.go WalkPrefixes/WalkRanges/WalkAddresses, prefix.go walkAddresses"), ("counts", "set.go NumAddresses/NumPrefixes, node.go NumAddresses, prefix.go NumPrefixes")],
 observe=["Set.WalkAddresses", "Set.WalkPrefixes", "Set.WalkRanges", "Set.NumAddresses", "Set.NumPrefixes"])
prop("C05", "Converting a range or prefix to a set is exact",
 "For every first <= last, the set made from the range contains exactly the addresses first..last, and the set made from any prefix (host bits set or not) or single address contains exactly the addresses it denotes. Counting and containment on ranges and prefixes agree with those exact address sets.",
 ["inputs"], "all ranges (first,last), all prefixes, both families",
 "Tests use a few ranges; the range decomposition has shape-dependent shortcuts that only particular alignments reach.",
 ["ipv4/setnode.go", "ipv6/setnode.go"] + RNG + PFX, [("divide and conquer decomposition", "setnode.go setNodeFromRange"), ("prefix to node", "setnode.go setNodeFromPrefix")],
 observe=["Range.Set", "Prefix.Set", "Address.Set", "Range.Contains", "Range.NumPrefixes", "Prefix.Contains"])
prop("C06", "Range addition and subtraction are exact over the whole space",
 "Plus of two ranges returns one or two ranges, sorted, non-touching, that together hold exactly the addresses of both operands; Minus returns zero to two ranges, sorted, that hold exactly the first operand's addresses not in the second. Both are exact for ranges that begin at the lowest or end at the highest address, and a range can be built exactly when first <= last.",
 ["inputs"], "all pairs of ranges, including those at both ends of the address space",
 "Tests avoid the ends of the address space, where next/prev wrap around.",
 RNG + ADR, [("Plus/Minus with next/prev", "range.go Plus/Minus/next/prev"), ("128-bit arithmetic", "ipv6/uint128.go")],
 observe=["Range.Plus", "Range.Minus", "RangeFromAddresses", "Range.First", "Range.Last"])
prop("C07", "Prefix arithmetic is exact for every address and length",
 "For every address and length, the prefix's mask, network, host part, broadcast (IPv4), first and last address, halves, numeric accessors and number of sub-prefixes of any length are the values defined by the leading length bits; length, address and host bits are preserved unchanged. Counts that do not fit 64 bits, or lengths beyond the address size, are reported as errors.",
 ["inputs"], "every length 0..32 / 0..128 with all bit patterns of the address around the boundary",
 "Tests sample a few lengths; IPv6 arithmetic has separate code for shifts below, at and above 64 bits.",
 PFX + ADR + ["ipv4/mask.go", "ipv6/mask.go"], [("masking", "prefix.go Network/Host/Broadcast/Range/Halves/NumPrefixes"), ("shifts", "ipv6/uint128.go leftShift/rightShift")],
 observe=["Prefix.Network", "Prefix.Host", "Prefix.Broadcast", "Prefix.Range", "Prefix.Halves", "Prefix.NumPrefixes", "Prefix.Mask"])
prop("C08", "Prefix allocation returns a best-fit free prefix or reports none",
 "Asking a set for an available prefix of a given length either returns a prefix of exactly that length, with host bits zero, wholly inside the set and disjoint from the reserved set, or returns an error; the error occurs exactly when no such prefix exists, including for lengths beyond the address size. The returned prefix is carved from a smallest maximal free block that can hold it, so no larger free block is broken up when a smaller one suffices.",
 ["inputs", "histories"], "all (space, reserved, length) triples and allocation sequences",
 "Tests use 7 hand-picked cases and one random run; the recursion pairs two tries in every relative position.",
 SET, [("best-fit search over space minus reserved", "setnode.go FindSmallestContainingPrefix/best"), ("result", "set.go FindAvailablePrefix")],
 observe=["Set.FindAvailablePrefix"])
prop("C09", "A table is a map from network prefix to value under every history",
 "After any sequence of Insert, Update, InsertOrUpdate, GetOrInsert and Remove, a table holds exactly the entries of a reference map keyed by (network bits, length): each call's return value, every exact-match Get and the entry count agree with that map. Host bits of a key never matter, failed calls change nothing, and removing or getting a prefix that is not an entry reports not found even when longer or shorter prefixes are present.",
 ["histories"], "all operation sequences over a nested/adjacent/disjoint prefix universe",
 "Tests run short fixed sequences; node states such as a joining node exactly at the requested key depend on the whole history.",
 TAB + TRIE, [("insert/delete recursion", "node.go insert/del/GetOrInsert"), ("mutable wrapper", "tablex.go")],
 state=[("tableX.trie", "root of entries", "tablex.go")], observe=["Table_.Insert", "Table_.Update", "Table_.InsertOrUpdate", "Table_.GetOrInsert", "Table_.Remove", "Get", "NumEntries"])
prop("C10", "Longest-prefix match always returns the closest containing entry",
 "For every table and every search prefix or address, LongestMatch returns the entry with the greatest length among the entries whose prefix contains the search key, with that entry's own value and prefix, and reports not found exactly when no entry contains it.",
 ["inputs", "histories"], "all tables (any history) and all search keys of any length",
 "Tests look up a few keys in tables of at most four entries.",
 TRIE + TAB, [("descending match", "node.go Match/contains"), ("result", "tablex.go longestMatch")],
 observe=["Table.LongestMatch", "Table_.LongestMatch"])
prop("C11", "Walking a table visits every entry once in lexicographic order",
 "Walking a table calls the callback exactly once per entry with its prefix and value, ordered by network address and then by length, so that a containing prefix immediately precedes those it contains. The walk stops immediately when the callback returns false and reports whether it completed.",
 ["inputs", "histories"], "all tables and all stop positions",
 "Tests check a few orders and only stop at the first entry.",
 TRIE + TAB, [("walk as diff from empty", "node.go Walk/Diff")], observe=["Table.Walk"])
prop("C12", "Table diff partitions the two tables' prefixes exactly, in order",
 "For any two tables, Diff calls exactly one handler exactly once per prefix present in either: left-only, right-only, changed (both, unequal values, given left then right) or unchanged (both, equal values), each with the right values, in lexicographic prefix order across all handlers. Any handler may be nil, in which case only its calls are omitted; a handler returning false stops the diff at once and makes it report incomplete.",
 ["inputs", "histories"], "all pairs of tables, sharing structure or not, all handler subsets, all stop positions",
 "Tests use ~20 fixed pairs; order across disjoint subtrees depends on relative prefix lengths and positions.",
 TRIE + TAB, [("parallel descent", "node.go diff/Diff"), ("handler adaptation", "table.go Diff, tablex.go Diff")], observe=["Table.Diff"])
prop("C13", "Diff between related snapshots does work proportional to the changes",
 "When one table snapshot is derived from another by a few modifications and no unchanged-handler is given, Diff compares values only for entries on the paths touched by the modifications, never for entries in untouched parts, however large the table is. Diffing a snapshot with itself, or with the one taken after calls that failed or found their entry present (a refused Insert, Update or Remove, a GetOrInsert that only gets), compares nothing at all.",
 ["histories", "inputs"], "all tables over the universe and all short modification sequences from them",
 "No test measures it; sharing is an emergent property of every copy-on-write path.",
 TRIE + TAB, [("copy-on-write path copying", "node.go copyMutate/mutate"), ("pointer-equality shortcut", "node.go diff")], observe=["calls to the table's value comparator"])
prop("C14", "Aggregation preserves every address lookup",
 "For every table and every address, LongestMatch on the aggregated table finds a value exactly when it does on the original, and the two values are equal. The original table is unchanged.",
 ["inputs", "histories"], "all tables with any nesting and value assignment, every address",
 "Tests compare a few aggregates with a golden list; that no lookup changes is a claim over all tables and addresses.",
 TRIE + TAB, [("umbrella elimination and sibling merge", "node.go aggregate")], observe=["Table.Aggregate", "Table.LongestMatch"])
prop("C15", "Aggregated tables are irreducible and stable",
 "An aggregated table has no entry whose value equals that of its nearest enclosing entry and no two entries that are the two halves of one prefix with equal values, so nothing more can be combined by containment or adjacency. It never has more entries than the original, its prefixes have zero effect outside the original coverage, and aggregating it again gives the same entries.",
 ["inputs", "histories"], "all tables with any nesting and value assignment",
 "Tests check golden outputs of a dozen tables.",
 TRIE + TAB, [("umbrella elimination and sibling merge", "node.go aggregate")], observe=["Table.Aggregate", "Table.Walk"])
prop("C16", "Map rewrites values and nothing else",
 "Mapping a table calls the mapper exactly once per entry, in walk order, with that entry's prefix and value, never for a prefix that is not an entry. The result has exactly the same prefixes with the mapped values, the original table is unchanged, and a nil mapper returns an equal table.",
 ["inputs", "histories"], "all tables (including those with joining prefixes that are not entries) and all mapper outputs",
 "Tests map tables with constant mappers and do not look at which prefixes the mapper sees.",
 TRIE + TAB, [("recursive rebuild", "node.go Map")], observe=["Table.Map"])
prop("C17", "Tables work with any value type and any supplied comparison",
 "A table created with a custom comparison works for every operation with any value type, including types that == cannot compare and nil interface values, treating values as equal exactly when that comparison says so; the comparison is only ever given values that are stored in or passed to the tables involved. Tables derived from it (snapshots, mutable clones, builds, aggregates, maps) keep the same comparison and support every operation.",
 ["inputs", "histories", "configurations"], "all operations x value kinds (comparable, uncomparable, interface nil) x derivation chains",
 "Tests use one comparable value type and never operate on a derived aggregate.",
 TAB + TRIE, [("comparator plumbing", "table.go NewTableCustomCompare_, tablex.go eq field"), ("change detection", "node.go copyMutate")],
 observe=["NewTableCustomCompare_", "all Table/Table_ operations"])
prop("C18", "Immutable sets and tables never change; conversions detach or share as promised",
 "No operation on any value, including ones performed from inside its own walk, diff or map callbacks, ever changes the contents of an existing immutable set or table. A mutable made from an immutable is detached from it and from every other mutable, copies of one mutable share all changes, and Build returns the modified copy if the callback returns true and the original contents otherwise.",
 ["histories"], "all short histories of snapshot, clone, mutate and set/table operations over several live values",
 "Tests check two or three snapshots; aliasing bugs need particular shapes and several live values.",
 SET + TAB + TRIE, [("copy-on-write", "node.go copyMutate, insert, del; setnode.go Union"), ("conversion", "set.go Set/Set_/Build, table.go Table/Table_/Build")],
 observe=["Set", "Set_", "Table", "Table_", "Build"])
prop("C19", "Reading concurrently with a writer is safe and consistent",
 "With one goroutine modifying a mutable set or table while others read it, every read returns a result that the contents had at some instant during the call (a read of two mutables may see each at its own instant), a snapshot obtained meanwhile stays one consistent state, no call panics or blocks, and there is no data race. Concurrent use of unrelated or immutable values is likewise independent.",
 ["schedules"], "all interleavings of one writer and one or two readers up to a preemption bound, at statement granularity",
 "No test runs a reader and a writer concurrently; a test would see one schedule.",
 ["ipv4/set.go", "ipv4/tablex.go", "ipv4/table.go", "ipv4/unsafe_atomic.go", "ipv6/set.go", "ipv6/tablex.go", "ipv6/table.go", "ipv6/unsafe_atomic.go"] + TRIE,
 [("atomic root pointer", "unsafe_atomic.go"), ("immutable nodes", "node.go")], observe=["Table_ and Set_ methods"], hook="none in /repo: the check instruments a copy of the current sources (go build -overlay)")
prop("C20", "Concurrent writers never lose an acknowledged update",
 "When several goroutines modify the same mutable set or table (with arguments that are not being modified themselves), each call either panics and has no effect or takes effect exactly once, atomically, with the return value of that instant; the final contents are those of the calls that returned, in some order consistent with real time. A call panics only if another modification overlapped it, and there is no data race.",
 ["schedules"], "all interleavings of two or three writers up to a preemption bound, at statement granularity",
 "The one test forces a single two-writer schedule by hand.",
 ["ipv4/set.go", "ipv4/tablex.go", "ipv4/unsafe_atomic.go", "ipv6/set.go", "ipv6/tablex.go", "ipv6/unsafe_atomic.go"],
 [("compare-and-swap of the root", "set.go mutate, tablex.go mutate, unsafe_atomic.go")], observe=["Table_ and Set_ modifying methods"], hook="none in /repo: the check instruments a copy of the current sources (go build -overlay)")
prop("C21", "Uninitialized and nil values read as empty and refuse writes",
 "Every read on the zero value of a set, table or their mutable forms behaves exactly as on an empty one, and every modification of an uninitialized mutable panics and changes nothing. A nil set argument means the empty set and a nil prefix argument means the all-zero /0 prefix, in every method that takes one.",
 ["inputs", "configurations"], "every method x {zero, empty, non-empty} receiver x {nil, zero, empty, non-empty} argument",
 "Tests cover many but not all method/argument combinations.",
 SET + TAB, [("nil guards", "set.go, table.go, tablex.go")], observe=["all exported methods taking SetI/PrefixI"])
prop("C22", "Text, byte and net-package conversions round-trip exactly",
 "Every IPv4 and IPv6 address, prefix and mask converts to text, bytes, integers and net-package types and back to an equal value, and equal values compare == whichever way they were built. Inputs that do not denote a value of that family (wrong size, bad text, out-of-range length, other family) are rejected with an error, and byte slices handed in or out are never aliased with the library's state.",
 ["inputs"], "all addresses (byte position x value, boundary patterns), all lengths, malformed inputs",
 "Tests convert a handful of values per type.",
 ADR + PFX + ["ipv4/mask.go", "ipv6/mask.go"], [("conversion functions", "address.go, prefix.go, mask.go, uint128.go")],
 observe=["*FromString", "*FromNetIP*", "*FromSlice", "*FromBytes", "*FromUint*", "String", "ToNetIP*", "Uint*"])
prop("C23", "Masks are exactly the contiguous bit patterns",
 "A mask can be built from an integer, bytes or a net mask exactly when it is ones followed by zeros, and from a length exactly when it is between 0 and the address size; its length, text and numeric forms then all describe that pattern. Combining an address with a mask keeps the address and yields the mask's length.",
 ["inputs"], "all contiguous patterns, every pattern within two bits of one, all lengths around the limits",
 "Tests check about ten masks.",
 ["ipv4/mask.go", "ipv6/mask.go", "ipv6/uint128.go"] + PFX, [("validity check", "mask.go valid"), ("length to mask", "mask.go lengthToMask")],
 observe=["MaskFrom*", "Mask.Length", "Mask.String", "PrefixFromAddressMask"])
prop("C24", "The family-neutral package agrees with the family packages",
 "Each function of the family-neutral package returns the same value or failure as the corresponding IPv4 or IPv6 function for inputs of that family, and rejects (error, or nil where no error is returned) inputs whose families are mixed, unknown or nil. A result's dynamic type is always the family of the input, where text is of the IPv6 family if it has a colon and net package values are of the family of their size in bytes, IPv4-mapped or not.",
 ["inputs", "configurations"], "every function x {v4, v6, nil, foreign} for each argument",
 "Tests cover most single-family cases and few mixed ones with few values.",
 ["ip/address.go", "ip/mask.go", "ip/prefix.go", "ip/range.go"], [("type switches", "ip/*.go")], observe=["package ip"])
prop("C25", "Memory stays proportional to the minimal representation",
 "After any history of insertions and removals, the memory reachable from a set is proportional to its minimal number of prefixes and that of a table to its number of entries; nothing remains of removed content. The entry count stays right as tables grow large.",
 ["histories"], "all histories over the universe, plus build-up/tear-down ladders over every prefix length",
 "No test looks at retained memory; garbage left by one delete path is invisible to lookups.",
 SET + TRIE, [("promotion of the remaining child on delete", "node.go del"), ("flatten", "node.go flatten"), ("size bookkeeping", "node.go mutate")],
 observe=["distinct heap objects reachable from a Set/Table value", "NumEntries"])
prop("C26", "Conversions are constant cost and single changes copy only a path",
 "Converting between mutable and immutable sets or tables, in either direction, and a Build that changes nothing allocate a small constant amount of memory however large the contents are. Inserting, updating or removing one prefix allocates in proportion to the address width at most and never to the contents, so that N such changes with a snapshot kept after each hold memory proportional to N. Lookups allocate a constant, and mapping a table allocates only for the paths to the entries whose value changes.",
 ["inputs", "histories"], "every conversion and every modification at many points of structures of thousands of prefixes of every shape, and histories of them with a snapshot kept after each",
 "Tests only look at results; a hidden copy of everything returns the same results.",
 ["ipv4/set.go", "ipv4/tablex.go", "ipv4/table.go", "ipv4/node.go", "ipv6/set.go", "ipv6/tablex.go", "ipv6/table.go", "ipv6/node.go"],
 [("shared immutable tree", "node.go mutate, flatten"), ("root pointer copied by conversions", "set.go, tablex.go")], observe=["bytes and objects allocated by each call", "heap held by a history of snapshots"])
prop("C27", "Failures in the caller's code leave sets and tables intact and usable",
 "A panic or goroutine exit in code of the caller (a value comparison, a mapper, a walk, diff or build callback, an argument's conversion method), at any of its calls, reaches the caller unchanged and without any further call of such code. It leaves every set and table involved with the contents it had, apart from modifications that the callback itself completed, and with all its snapshots. Everything stays usable: no later call blocks, panics or returns anything different because of it.",
 ["fault_sequences", "inputs"], "every operation that calls back x every one of its calls x {panic, goroutine exit}, on every table or set of the universe, and sequences of faults",
 "One test panics in one builder; no other callback is ever made to fail.",
 ["ipv4/set.go", "ipv4/tablex.go", "ipv4/table.go", "ipv4/node.go", "ipv6/set.go", "ipv6/tablex.go", "ipv6/table.go", "ipv6/node.go"],
 [("root replaced last, by compare-and-swap", "set.go mutate, tablex.go mutate"), ("builder on a clone", "Build")], observe=["results and contents after a recovered panic"])
prop("C28", "No operation takes more steps than its operands call for",
 "Exact lookups, longest-prefix matches, entry counts, conversions between mutable and immutable, membership of one address, and inserting, updating or removing one prefix take a number of steps bounded by the address width, however large the contents. Walks, counts, equality, diffs, aggregation and mapping take steps in proportion to the entries of their operands, or to the part visited when they are stopped early; a diff of related tables without an unchanged handler only to the modifications between them. Set algebra and allocation take at most in proportion to the prefixes of their operands times the address width.",
 ["inputs", "histories"], "every operation at many points of structures of thousands of prefixes of every shape, pairs of large sets, every stop position, all pairs of small sets",
 "Tests only look at results, on structures too small for the amount of work to show.",
 SET + TAB + ["ipv4/range.go", "ipv6/range.go"],
 [("path descent", "node.go Match, insert, del"), ("shared subtrees skipped", "node.go diff, setnode.go Union"), ("size kept in nodes", "node.go mutate")], observe=["calls and loop iterations executed within each call"],
 hook="none in /repo: the check counts in an instrumented copy of the current sources (go build -overlay)")
prop("C29", "Results are the same on platforms with 32-bit integers",
 "Built for a platform whose int and pointers have 32 bits, every operation returns the same values, failures and contents as on a 64-bit platform, and none panics: counts of addresses, prefixes and entries are exact beyond 2^31 and 2^32, address arithmetic carries between words, lengths and masks out of range are refused, and mutable sets and tables work, in every history of modifications.",
 ["configurations", "inputs", "histories"], "the input spaces and histories of the other sequential properties, on a build with 32-bit ints",
 "The tests run on 64 bits here (and sample few values where a word matters).",
 ADR + PFX + RNG + SET + TRIE + TAB + ["ip/mask.go", "ip/prefix.go"],
 [("shifts and conversions between int, uint32, int64", "address.go, mask.go, prefix.go, node.go NumAddresses"), ("atomic access to roots", "unsafe_atomic.go")],
 observe=["results of all operations in a GOARCH=386 build"])
prop("C30", "Contents do not depend on when garbage is collected",
 "Whenever the garbage collector runs, between any two calls or inside any callback, and whatever has been dropped before, every set, table, snapshot, mutable and result still in use keeps its contents and answers as before. The values stored in a table stay alive and the same objects as long as something in use holds the entry. Memory used again for other sets or tables, or for later states of the same mutable, never leads to answers that belong to what was there before.",
 ["histories", "collections"], "every operation on every small table and set, with a collection after each step and inside callbacks, memory freed by earlier structures used again by later ones of the same and of other shapes; large structures",
 "A collection hardly ever happens during a test, and never at a chosen point.",
 SET + TAB + TRIE,
 [("roots behind unsafe.Pointer", "unsafe_atomic.go"), ("shared nodes", "node.go, setnode.go"), ("values held as any", "tablex.go")], observe=["contents, answers and stored values after collections"])
prop("C31", "Callbacks run within the call and its goroutine, and may use the library",
 "A callback, mapper, builder, comparison or conversion method of an argument is only ever called while the operation it was given to (for a comparison: an operation on its tables) is running, in the goroutine that called that operation, and never two at once; when an operation returns, nothing it started keeps running. It may itself use the library, including the same operation on the same sets and tables, to any depth: inner and outer operations both do and return exactly what they do on their own.",
 ["inputs", "nestings"], "every operation inside every call made by every operation on every small table and on pairs of sets, three levels deep for walks, maps and diffs; large structures; the goroutine and the time of every call",
 "Tests call operations one after the other; they do not nest them nor look at where callbacks run.",
 SET + TAB + TRIE,
 [("recursive walks with callbacks", "node.go Walk, Diff, Map; setnode.go walk"), ("comparisons", "node.go insert, diff, aggregate"), ("builders", "set.go, tablex.go Build")], observe=["goroutine, order and results of nested calls"])
prop("C32", "Code of the caller may wait for other goroutines",
 "While code of the caller that an operation calls (a callback, mapper, builder, comparison or conversion method of an argument) runs or waits, any number of other goroutines can use the same sets, tables and snapshots: their questions and operations complete, without waiting for that operation, with the results they have alone, and so does the operation itself once its callback goes on. Reads of a mutable that is being modified complete and see it as before or after. Another modification of the same mutable completes or panics; it does not wait, and the mutable then contains what the modifications that did not panic leave one after the other.",
 ["inputs", "nestings", "schedules"], "every operation of another goroutine inside every call made by every operation on every small table and on pairs of sets, a third one waiting inside the second; pairs and triples of operations that take turns at their callbacks in every order (or every order with few switches); hundreds of goroutines each waiting inside a callback of the one before; large structures",
 "Tests call operations one after the other; none waits for another goroutine in a callback, so nothing that an operation keeps locked shows.",
 SET + TAB + TRIE,
 [("recursive walks with callbacks", "node.go Walk, Diff, Map; setnode.go walk"), ("swaps of roots", "unsafe_atomic.go, set.go and tablex.go mutate"), ("builders", "set.go, tablex.go Build")], observe=["completion and results of operations in other goroutines while a callback waits"])
prop("C33", "Equal contents cannot be told apart",
 "What an operation returns, and the order in which it calls back, depends only on the contents of its operands and on its arguments. Two sets or two tables with the same contents, however they came to be (by whichever operations, in whatever order, with other entries added and removed in between, in this run of the program or another), are answered about alike by every operation, including where other properties leave a choice open: which available prefix is found, which entries an aggregate keeps and how they are written. Asking again gives the same answer.",
 ["inputs", "histories"], "every set over 8 blocks made in nine ways and every table over 7 prefixes (with host bits, too) made in eight, combined with others made in yet another way; all questions of the API; allocations one after the other; large and deep structures made in every order; a second run of the program",
 "Tests build each object in one way and compare with what the code happened to answer.",
 SET + TAB + TRIE,
 [("shape of the trie", "node.go insert, del, aggregate; setnode.go Union, Intersect, Difference, best")], observe=["all answers of objects of the same contents, texts included"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
