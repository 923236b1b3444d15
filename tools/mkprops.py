#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
W = "banyan/src/forest/write.rs"; R = "banyan/src/forest/read.rs"; T = "banyan/src/tree.rs"
SB = "banyan/src/stream_builder.rs"; IX = "banyan/src/index.rs"; II = "banyan/src/forest/index_iter.rs"
ST = "banyan/src/forest/stream.rs"; M = "banyan/src/forest/mod.rs"; Z = "banyan/src/store/zstd_dag_cbor_seq.rs"
TL = "banyan/src/store/thread_local_zstd.rs"; MC = "banyan/src/store/mem_cache.rs"; MS = "banyan/src/store/mem_store.rs"
BC = "banyan/src/store/branch_cache.rs"; Q = "banyan/src/query.rs"; U = "banyan/src/util.rs"
TG = "banyan-utils/src/tags.rs"; TI = "banyan-utils/src/tag_index.rs"; SQ = "banyan-utils/src/sqlite.rs"

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Appending keeps everything, in order, at the right offset",
  "After any sequence of successful appends (single, bulk, or unpacked, in any mix, on packed or unpacked streams), the stream consists of exactly the previously appended elements followed by the new ones: every key/value pair is returned unchanged at the offset equal to its position by get, collect and collect_from, and the element count is the number of appended elements. Offsets at or past the end yield nothing, and no append panics or silently drops, duplicates or reorders elements.",
  ["histories", "inputs", "configurations"],
  "all append histories (batch sizes, modes, interleaved pack/reload/transactions), all value sizes and all valid size limits",
  "The tests compare a handful of fixed or quickcheck-random bulk builds with two configs; mixes of unpacked and packed appends after reload, size-sealed leaves, one-element branches and rolled back transactions in between are not sampled.",
  [W, T, R, Z],
  [("extend_above/extend_branch/extend_leaf consume the iterator exactly once", W), ("extend/extend_unpacked set the new root", T), ("get0/collect0 offset arithmetic", R)],
  [("root", "index of the root of the stream", SB), ("from", "peekable iterator of not yet stored elements", W)],
  ["get", "collect", "collect_from", "count"])

p("C02", "Packing changes the shape of a stream, never its content",
  "Packing any stream that has no forgotten data succeeds, leaves all elements, offsets and the count as they were, and leaves the stream packed. Packing an already packed stream changes nothing and writes nothing, and when packing an unpacked stream, the leading sealed subtrees that are already in final form are reused as they are instead of being rewritten.",
  ["histories", "configurations"],
  "all append/unpacked append/pack/retain/reload histories and all size limits",
  "Two quickcheck tests pack one randomly built tree; idempotence, block reuse, trees with several stacked unpacked parts at different levels and size-sealed leaves are not checked.",
  [T, W, R],
  [("pack: roots, tree_from_roots, extend with the remainder", T), ("roots0 level bookkeeping", R), ("find_valid_branch / simplify_roots", W), ("is_packed0", R)],
  [("roots", "sealed subtrees of non increasing level that stay as they are", R)],
  ["pack", "is_packed", "collect", "blocks written"])

p("C03", "Filtered queries return exactly the matching elements",
  "For every stream and every query built from offset ranges, key predicates, all, empty, and, or: filtered iteration and filtered streaming return exactly the elements satisfying the query that have not been forgotten, each once, with its correct offset, key and value, in ascending order of offset (reverse iteration goes through the leaves in descending order, with the matches of each leaf in ascending order). Nothing that matches is missed because of summaries or offsets, whatever the shape of the tree.",
  ["inputs", "histories", "configurations"],
  "all queries (nested and/or, all range bound forms, boundaries inside leaves), all tree shapes including unpacked and partially forgotten ones",
  "The tests use a few offset ranges and one key query on packed trees; boundary offsets, unions of ranges, forgotten subtrees in the middle and reverse order on unpacked trees are not covered.",
  [R, Q, U, T, Z],
  [("TreeIter::next_fallible", R), ("OffsetRangeQuery, AndQuery, OrQuery", Q), ("RangeBoundsExt::intersects / or_with", U), ("select", Z)],
  [("offset", "offset of the next node to be visited", R), ("filter", "children still to be visited", R)],
  ["iter_filtered", "iter_filtered_reverse", "iter_from", "stream_filtered"])

p("C04", "Chunked reads cover the whole offset range without gaps",
  "Chunked iteration and streaming of any stream with any query, forward or reverse, returns chunks whose offset ranges are non-empty, adjacent, disjoint and together cover exactly offset 0 to the number of elements (in ascending order forward, descending order in reverse). Each chunk contains exactly the matching, not forgotten elements of its range in ascending order, and its extra data is computed from a node that covers that same range.",
  ["inputs", "histories", "configurations"],
  "all queries, all tree shapes including forgotten subtrees, both directions, iterator and stream variants",
  "One test checks contiguity for offset range queries on packed trees; skipped, forgotten and unpacked subtrees and reverse chunk contents are hardly sampled.",
  [R, T, M],
  [("TreeIter range computation and skip", R), ("ChunkVisitor::leaf / skip", R)],
  [("offset", "boundary of the range reported so far", R)],
  ["iter_filtered_chunked", "iter_filtered_chunked_reverse", "stream_filtered_chunked", "stream_filtered_chunked_reverse"])

p("C05", "Snapshots are immutable",
  "A snapshot of a stream, however old, keeps returning exactly the elements it had when it was taken (same count, link, keys, values and forgotten parts), no matter which appends, packs, retains, repairs, transactions, failed operations or reloads happen to the stream afterwards, as long as its blocks are available.",
  ["histories", "schedules"],
  "all later histories of the stream and all points at which a snapshot was taken and read",
  "No test reads an old snapshot after later mutations other than append.",
  [SB, T, W, BC, M],
  [("snapshot clones the root index", SB), ("content addressed blocks; branch cache keyed by link", BC), ("copy on write of changed paths", W)],
  [("root", "shared immutable index", SB)],
  ["snapshot", "collect", "iter_filtered", "count"])

p("C06", "A stream can be reloaded from its root link and continued",
  "Loading a stream from nothing but its root link, secrets and config yields the same elements, count, level and summaries as the original (and, for continued writing, also the same sealed state), and continuing to append, pack or retain after the reload gives the same elements as continuing without the reload. This holds for the root link after every successful operation on a stream whose root has not been forgotten.",
  ["histories", "crash_points", "configurations"],
  "all histories and every point in them at which a process stops and resumes from the last root link",
  "Tests reload a handful of packed trees; reload after pack, after unpacked appends, after retain, or at each step of a history is not covered.",
  [T, R, SB, W],
  [("load_stream_builder / load_tree", T), ("create_index_from_link", R), ("the root is always a branch", W)],
  [("root", "index rebuilt from the children in the root block", R), ("offset", "cipher offset after the root block", SB)],
  ["load_stream_builder", "load_tree", "collect", "extend"])

p("C07", "Keystream positions are never used twice",
  "Within the life of a stream, any two different blocks handed to the store are encrypted with non-overlapping ranges of the keystream, also across failed operations, failed block writes and rolled back transactions, and across reloads from a root link after which nothing else was written. The position recorded in each block is the one at which it was encrypted.",
  ["histories", "fault_sequences", "crash_points"],
  "all histories of appends, packs, retains, repairs, rollbacks, failed writes; reloads happen from the root written last (a reload forgets about positions used by later, abandoned writes, see DESIGN.md)",
  "The tests check offsets of a few packed trees after append and one rollback; failed writes, retain, repair, pack and reload are not covered.",
  [SB, Z, W, T],
  [("CipherOffset::reserve", SB), ("into_encrypted", Z), ("StreamTransaction does not restore the offset", SB), ("load_stream_builder starts at byte_range.end", T)],
  [("offset", "first never used keystream position", SB)],
  ["blocks handed to the block writer"])

p("C08", "Failed or rolled back changes leave the stream as it was",
  "If an append, pack, retain or repair returns an error, the stream still has exactly the root it had before. Dropping a transaction without committing restores exactly the state at its start whatever happened inside, committing keeps the state reached inside, and after a failure or rollback the stream can be read, extended and packed as if nothing had happened.",
  ["fault_sequences", "crash_points", "histories"],
  "all histories with block reads or writes failing at any point inside any operation, with nested and interleaved transactions",
  "One test covers a rollback of one extend; no test injects read or write failures.",
  [SB, T, W],
  [("set_index only after success", T), ("StreamTransaction::drop / commit", SB), ("pack in a transaction", T)],
  [("restore", "root to go back to", SB)],
  ["root after an error", "collect", "extend"])

p("C09", "Retain forgets only what was asked for",
  "After retain with any query, all elements matching the query and all data in not yet full nodes are still there unchanged, offsets and count are unchanged, nothing that was forgotten reappears, and reads report the rest either unchanged or as forgotten. Full leaves that lie before all unfinished leaves and contain no matching element are forgotten, and the stream can still be read, extended and reloaded afterwards with the same result.",
  ["inputs", "histories", "configurations"],
  "all queries, all tree shapes (packed, unpacked, partially forgotten), repeated retains, and all later histories",
  "Two quickcheck tests retain by offset on packed trees; key queries, unpacked trees, repeated retains and appends after retain are not covered.",
  [W, T, R],
  [("retain0 with level bookkeeping", W), ("purged nodes keep count and summaries", IX)],
  [("level", "highest level at which nodes may be forgotten", W), ("link", "None for forgotten nodes", IX)],
  ["retain", "collect", "get", "iter_filtered", "blocks reachable from the new root"])

p("C10", "Repair forgets exactly the unavailable data",
  "Repair of a stream with any set of missing blocks succeeds, reports one entry per forgotten node, and yields a stream in which exactly the elements that could not be reached any more are forgotten, while all others are returned unchanged at their offsets. After repair all reads of the stream work without error, and repairing a stream with nothing missing changes nothing.",
  ["fault_sequences", "histories", "configurations"],
  "all sets of missing (or unreadable) blocks of all tree shapes, including the root, and already forgotten subtrees",
  "One test removes random links of a packed tree and only checks that the result can be read.",
  [W, T],
  [("repair0", W), ("load_branch bypasses the branch cache", R)],
  [("link", "None for forgotten nodes", IX)],
  ["repair", "collect", "get", "report length"])

p("C11", "Tree metadata always matches the tree",
  "After every operation, each node's recorded count, level, summaries, sealed flag and byte statistics are what its children and data determine (a branch is sealed exactly if it has the full number of sealed children directly below it; byte statistics are exempt for rewritten nodes after retain or repair). The built-in invariant check reports no problem, and the packedness test answers according to its definition for every stream.",
  ["histories", "configurations"],
  "all histories of all operations and all size limits",
  "The tests run the built-in checker, which is part of the code under test, on a few builds; it does not check counts or byte statistics at all.",
  [W, R, M, IX],
  [("new_branch", W), ("branch_sealed", M), ("check_invariants0, is_packed0", R), ("create_index_from_link", R)],
  [("count, level, sealed, summaries, key_bytes, value_bytes", "index metadata", IX)],
  ["Index of each node", "check_invariants", "is_packed", "count", "level"])

p("C12", "Streaming a growing stream delivers every match exactly once",
  "Streaming over a sequence of growing versions of a stream delivers the elements that match the query and the offset range exactly once, in ascending order (descending chunks in reverse), each as soon as a version containing it can be read. It ends exactly when the requested offset range has been covered, keeps waiting for further versions otherwise, and when reading one version fails part way, the next version continues where it stopped without loss or duplication.",
  ["schedules", "fault_sequences", "histories"],
  "all sequences of growing trees (packed, unpacked, repeated, empty), all ranges and queries, read failures at any block of any version, plain, chunked, threaded and reverse variants",
  "The tests stream fixed trees forward with no failures and check the reverse variant once.",
  [ST, U, R],
  [("start_offset_ref / end_offset_ref", ST), ("take_until_condition", U), ("OffsetRangeQuery", Q)],
  [("start_offset_ref", "first offset not yet delivered", ST), ("end_offset_ref", "last offset not yet delivered in reverse", ST)],
  ["stream_trees", "stream_trees_chunked", "stream_trees_chunked_threaded", "stream_trees_chunked_reverse"])

p("C13", "Unreadable data is reported as an error, never as missing",
  "When a block needed by a read is missing or corrupt, the read returns an error; it never passes the data off as absent, empty or forgotten, and never panics. Iterators and streams first return correct data, then exactly one error, and then end; reads that do not need the block are not affected, and once the block is available again all reads work.",
  ["fault_sequences", "inputs"],
  "all sets of missing or corrupt blocks, transient read failures at any read, all read operations, all tree shapes",
  "No test makes a block unavailable while reading, except through purging.",
  [R, II, IX, Z],
  [("TreeIter::next clears the stack on error", R), ("IndexIter::next", II), ("? on every load", R)],
  [("stack", "nodes still to be visited; empty after an error", R)],
  ["get", "collect", "iter_filtered", "iter_filtered_chunked", "iter_index", "roots"])

p("C14", "Cleartext links list exactly the links inside a block",
  "Every block written lists in its unencrypted part exactly the links that occur in its encrypted content: the links of all its children (and those inside keys) for branches, and all links inside values for leaves, including values carried over when a leaf is extended or repacked. So everything needed by a stream can be found from its root without any key.",
  ["inputs", "histories"],
  "all histories and all values and keys with or without links, nested anywhere in the value",
  "One test checks link scraping of a few fixed values in one leaf; extended and repacked leaves, keys with links and rewritten branches are not covered.",
  [Z, W, IX],
  [("scrape_links in fill / from_iter_ipld", Z), ("extend_leaf decompresses and rescans", W)],
  [("links", "unencrypted links of a block", Z)],
  ["block bytes"])

p("C15", "Values and indexes are encrypted, each with its own key",
  "Blocks holding values can only be decrypted with the value key and blocks holding index data only with the index key, after every kind of operation. With the right index key but a wrong value key, the structure and all keys of a stream are readable but no value is; with a wrong index key nothing is, and the failure is an error.",
  ["histories", "inputs"],
  "all histories of all operations, all secrets",
  "The tests use one pair of secrets for everything and never try wrong keys.",
  [W, R, M, Z],
  [("value_key in extend_leaf, index_key in persist_branch", W), ("load_leaf_from_link / deserialize_compressed", R)],
  [("secrets", "index key and value key", M)],
  ["block bytes", "reads with other secrets"])

p("C16", "Caches never change a result",
  "Whatever the size of the branch cache and of the memory block cache (off, too small, evicting, resized at run time, shared between streams, snapshots and transactions), every operation gives the same result as without caches as long as the blocks are available. The memory cache returns only data that was put or offered for that link, never keeps a block larger than its limit nor more than its capacity in total, and does not serve a block whose write failed.",
  ["configurations", "histories", "schedules"],
  "all cache capacities, all histories of reads and writes, evictions at any point",
  "The tests run with the default large branch cache and never with the memory cache.",
  [BC, MC, R, M],
  [("BranchCache get/put", BC), ("MemCache / MemWriter", MC), ("load_branch_cached_from_link", R)],
  [("cache", "link to block or branch", MC)],
  ["all reads and writes under different cache configurations"])

p("C17", "Index iteration visits every relevant node exactly once",
  "Iterating the index of a stream with any query returns each node that may contain matching elements exactly once, parents before their children and subtrees in ascending order of offset (descending in reverse), and no node below one that is excluded by the query or forgotten. With the query that matches everything, the leaves returned account for every element.",
  ["inputs", "histories", "configurations"],
  "all tree shapes including unpacked and partially forgotten, all queries, both directions",
  "One test counts leaves of packed trees with offset queries.",
  [II, T],
  [("IndexIter::next", II)],
  [("offset", "offset of the next node", II), ("stack", "nodes still to be visited", II)],
  ["iter_index", "iter_index_reverse"])

p("C18", "Leaves and branches respect the configured limits",
  "No leaf ever contains more values than the configured count or more uncompressed data than the configured size, a leaf is sealed exactly when it is full by one of the limits (count, compressed target size, uncompressed size including the case that the next value does not fit), and branches written by packed appends never have more children than configured. A value that can not fit into any leaf is refused with an error.",
  ["inputs", "configurations", "histories"],
  "all value sizes around the limits, all valid limits, all histories",
  "Tests use two configs whose byte limits are never reached, except one test for a too large value.",
  [Z, W, M],
  [("fill", Z), ("extend_branch max_branch_count", W), ("branch_sealed", M)],
  [("sealed", "node is full", IX)],
  ["block bytes", "Index of each node", "error of extend"])

p("C19", "Disjunctive normal form preserves meaning and is unique",
  "Converting any tag expression of literals and non-empty ands and ors to disjunctive normal form gives a query that is true for exactly the same sets of tags, with no term that contains another term. Two expressions have equal normal forms if and only if they mean the same, and combining expressions with and / or, converting a normal form back to an expression, simplifying an expression and printing it preserve the meaning.",
  ["inputs"],
  "all expressions (any nesting, repetition and number of literals)",
  "Six fixed expressions are tested.",
  [TI],
  [("insert_unless_redundant", TI), ("Dnf bitand / bitor", TI), ("Expression::simplify, and, or", TI)],
  [("terms", "set of sets of tags", TI)],
  ["Expression::dnf", "Dnf::expression", "Expression::simplify"])

p("C20", "Tag queries find exactly the matching events",
  "A tag index returns for any query in disjunctive normal form exactly the positions of the elements that have all tags of at least one term, whatever tags the index does or does not know, also after it was serialized and read back. Querying a stream of tagged, timed events returns exactly the events that have all tags of a term and lie within its time range, whatever the shape of the tree.",
  ["inputs", "histories", "configurations"],
  "all tag sets, queries and time ranges; queries with unknown or no tags; all tree shapes",
  "Two fixed tag indexes are tested; tag queries over real trees are tested only by counting operations.",
  [TG, TI],
  [("TagIndex::matching, from_elements, get", TI), ("DnfQuery intersecting / containing", TG), ("KeySeq::summarize", TG), ("map_to_index_set", TI)],
  [("tags, elements", "string table and indexes into it", TI)],
  ["TagIndex::matching", "iter_filtered with DnfQuery"])

p("C21", "Sealed roots and left roots are prefixes of the stream",
  "The sealed roots of any stream are sealed subtrees of non-increasing level that, concatenated, are a prefix of the stream, and for a packed stream they are everything but the unfinished tail. The left roots of any stream are trees containing a prefix of the stream each, ending with the stream itself.",
  ["histories", "configurations"],
  "all tree shapes, including unpacked and partially forgotten",
  "Not tested, except indirectly through pack.",
  [R, T],
  [("roots0", R), ("left_roots0", T)],
  [("level", "highest level that may still be taken", R)],
  ["roots", "left_roots"])

p("C22", "Block stores return what was put and respect their limits",
  "A memory or database block store returns for every link exactly the data that was put for it, and an error for links that were never put. The memory store never holds more bytes than its limit: a put of a new block that would exceed it fails and changes nothing, and putting the same data again does not use up space. All this holds also when several threads use the same store at once: each call takes effect at one point between its begin and end.",
  ["histories", "inputs", "configurations", "schedules"],
  "all sequences of puts and gets, all sizes relative to the limit including zero-sized blocks",
  "Not tested directly.",
  [MS, SQ, MC],
  [("put0 / get0", MS), ("SqliteStore get / put", SQ)],
  [("current_size", "bytes held", MS)],
  ["MemStore::put", "MemStore::get", "MemStore::into_inner", "SqliteStore"])

p("C23", "Queries do not load blocks that can not match",
  "A filtered or chunked read loads a block only if, according to the index data above it, that block may contain matching elements; leaves without a matching key or offset are never loaded, and an empty query loads nothing below the root. Random access by offset loads only the blocks on the path to the element.",
  ["inputs", "histories", "configurations"],
  "all queries and offsets, all tree shapes, both directions, with caches off",
  "One test in the utils crate counts operations for a few fixed queries on one packed tree.",
  [R, Q],
  [("filter handling and skip in TreeIter", R), ("matching.any() before load", R), ("get0 descends into one child", R)],
  [("filter", "children that may match", R)],
  ["block reads"])

p("C24", "The packed form is determined by content and limits only",
  "For streams whose leaves are limited by count or uncompressed size only, the leaf boundaries and the sealed subtrees of a packed stream are the same for the same elements and config, no matter in which batches the elements were appended, and whether they were packed, reloaded or rolled back in between. Each operation produces exactly the tree shape prescribed by the algorithm documented for it.",
  ["histories", "configurations"],
  "all ways to split a sequence of elements into appends, unpacked appends and packs; all limits",
  "No test compares the structure resulting from different histories.",
  [W, T, M, Z],
  [("extend0 / extend_above / extend_branch", W), ("find_valid_branch / simplify_roots", W), ("fill", Z)],
  [("roots", "sealed subtrees", R)],
  ["Index of each node"])

p("C25", "Concurrent readers see complete, consistent snapshots",
  "Any number of threads reading snapshots of streams from a shared forest, while the streams are extended, packed or purged by another thread, get exactly the elements of their snapshot, with no error, panic or deadlock, whatever the cache sizes and the interleaving.",
  ["schedules", "histories", "configurations"],
  "all interleavings of readers and a writer sharing store and caches",
  "No test uses more than one thread, except the threaded stream with one consumer.",
  [BC, MC, TL, M, R],
  [("mutex around the weight caches", BC), ("thread local decompressor", TL), ("immutable Arc index", IX)],
  [("branch_cache", "shared between all clones of a forest", M)],
  ["collect", "iter_filtered in threads"])

p("C26", "The block format is stable",
  "Every block is a dag-cbor triple of keystream position, cleartext links and encrypted, zstd compressed sequence of cbor items, in which branches contain the index of each child, and leaves the values. Streams written by earlier builds of the same format version remain readable, and data written now can be read by an independent implementation of the format.",
  ["inputs", "histories"],
  "all blocks written by any operation; streams written earlier with all operations and configs",
  "All tests write and read with the same code, so a symmetric change of the format is invisible to them.",
  [Z, IX, M],
  [("IpldNode", Z), ("LeafIndex / BranchIndex dag-cbor derive", IX), ("NONCE", M)],
  [],
  ["block bytes"])

p("C27", "Graph export mirrors the tree",
  "Exporting the graph of a non-empty stream returns one node for each node of the tree including forgotten ones, numbered consecutively in depth first order from 0, with the edges being exactly the parent-child relation, and the data for each node computed from that node. The graph printed in dot format by banyan-utils shows exactly these nodes and edges: boxes with their number for branches, circles with the number of elements for leaves, and filled grey exactly for sealed nodes.",
  ["histories", "configurations"],
  "all tree shapes, including unpacked and partially forgotten",
  "Not tested.",
  [T, "banyan-utils/src/dump.rs"],
  [("dump_graph0", T), ("graph, ForestWithTree", "banyan-utils/src/dump.rs")],
  [("next_id", "number of the next node", T)],
  ["dump_graph", "dump::graph"])

p("C28", "Tag keys are stored and summarized exactly",
  "Every event of a stream with the tag keys of banyan-utils is returned with exactly the lamport, time, tags and value it was appended with, for all numbers up to the largest and all sets of tags. In every stored tree, the keys of a leaf are those of its events, and the summary of each child of a branch consists of the smallest lamport, the smallest and largest time, and the union of the tags of all the events below it, no more and no less, also for those parts that are forgotten. Queries can therefore rely on the summaries to skip parts of the tree.",
  ["histories", "inputs", "configurations"],
  "all streams of events with any lamports, times and tags, all ways of growing, packing, forgetting and reloading them, and all configurations",
  "The tests of banyan-utils check the normal forms and indexes of random tags, but build no tree with tag keys; the tests of the core use other key types.",
  [TG, TI, W],
  [("KeySeq::summarize, from_iter, get", TG), ("Encode/Decode for TagIndex", TI), ("TagIndex::from_elements", TI)],
  [("KeySeq", "min_lamport, min_time, max_time and tag index of the keys", TG)],
  ["iter_filtered_chunked", "stored blocks"])

p("C29", "Dumping a block shows what is stored in it",
  "Given the key of a block, dumping it as json or cbor prints a header and then each item that is stored in the block, in order, one per line, so that the items can be read back from the json. Given any other key, a dump fails or shows the encrypted block as it is, and never an item of it.",
  ["inputs", "histories"],
  "all blocks written by any operation, all values, the right key and any other key",
  "Not tested.",
  ["banyan-utils/src/dump.rs", Z],
  [("dump_json, dump_cbor", "banyan-utils/src/dump.rs"), ("decrypt, items_ipld, items", Z)],
  [],
  ["dump_json", "dump_cbor"])

p("C30", "A sequence holds exactly what was put in",
  "Filling a sequence from waiting items, or making one from given items, keeps the content it had and adds the taken items in order: items, items_ipld, count, get and select return exactly those, for any index and any selection. Filling takes the longest run of items that fits into the limits on count and uncompressed size, unless the compressed size is reached, consumes nothing else from the iterator, appends exactly the keys of the taken items, and reports full exactly when nothing more may be added; it fails exactly when the next item could never fit. Encrypting at any position of the keystream gives a block with that position and all the links of the items in cleartext, which decrypts to the same sequence with the right key and nonce and to nothing else with others.",
  ["inputs", "histories", "configurations"],
  "all items including links of all kinds, all limits, all keystream positions including the largest, and all chains of fills",
  "The tests check random items without limits, the exact fit of one item, and links of a single kind; limits in combination, selections, positions beyond the first blocks of the keystream and the dag-cbor variants are not tested.",
  [Z, TL, U],
  [("fill, fill_ipld", Z), ("get, select, items, items_ipld, count", Z), ("encrypt, decrypt, apply_keystream", Z), ("scrape_links", Z), ("shrink_to_fit", U)],
  [("data", "compressed items", Z), ("links", "links found in the items", Z)],
  ["fill", "items", "get", "select", "encrypt", "decrypt"])

p("C31", "The ipfs client hands on exactly what the node holds and sends",
  "With the ipfs client, a block that the node has accepted is read back with exactly its bytes under the link the put returned, which is the hash of the data; each put sends the whole block once, in the codec of its link and with the wanted pin setting, and codecs that can not be expressed are refused. Every error of the node, and every reply that is cut off, is returned as an error and never as a block, a success or a message. A subscription delivers exactly the messages that were published to its topic, each once, whole and in order, however the replies are cut into pieces, and ends with an error exactly when the connection broke. A link has the same identity in all its forms (bytes, cid, text, cbor, json), and cids of other kinds are refused as links.",
  ["inputs", "fault_sequences", "schedules"],
  "all data, topics and codecs, all ways of cutting up or failing a reply, all interleavings of publications and subscriptions",
  "The tests have no ipfs node; nothing of the client is run by them.",
  ["banyan-utils/src/ipfs.rs", TG],
  [("block_get, block_put", "banyan-utils/src/ipfs.rs"), ("pubsub_pub, pubsub_sub", "banyan-utils/src/ipfs.rs"), ("IpfsStore", "banyan-utils/src/ipfs.rs"), ("Sha256Digest", TG)],
  [("topic, subscription", "what the node sent to a subscription and was not handed on yet", "banyan-utils/src/ipfs.rs")],
  ["IpfsStore get, put", "block_put", "pubsub_sub", "pubsub_pub"])

p("C32", "The commands of the command line tool do what they say",
  "The streams that are built by the tool contain exactly the events of the stream they extend, if any, followed by the new ones. Dumping values and streaming print the events that are there in order, filtering prints those with any of the given tags; dump and graph print exactly the nodes of the tree. Pack keeps all events and what was forgotten, forget removes exactly what lies in whole full leaves before the offset and nothing behind it, and repair forgets exactly what can not be reached. The passwords given are used by each command, so that a stream can be read and changed with its passwords and not with others. What can not be read or changed is reported by a failing command, not by printing or writing less. A stream that one process sends while it grows is received by another one completely, in order, and each event once, even if some blocks can not be read at once.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of commands on a store, all counts, offsets, tags and passwords, and all lost blocks",
  "The tests never run the tool.",
  ["banyan-utils/src/bin/cli.rs", "banyan-utils/src/dump.rs", "banyan-utils/src/sqlite.rs", ST],
  [("command handling in main", "banyan-utils/src/bin/cli.rs"), ("build_tree", "banyan-utils/src/bin/cli.rs"), ("dump_tree, dump_values", T)],
  [("blocks", "blocks of the store", "banyan-utils/src/sqlite.rs")],
  ["banyan-cli"])

p("C33", "Streams over one forest do not influence each other",
  "Any number of streams, with the same, partly the same or different secrets and configurations, can share one forest, one transaction, one store and its caches: each one contains exactly what was done to it, whatever is done to the others in between. This holds also for streams that contain the same elements at the same positions, for streams with the same secrets, and for a stream that was loaded from the root of another one and goes on by itself; what is read never depends on what another stream has left in a cache or a buffer, and no block of another stream is changed.",
  ["histories", "configurations"],
  "all interleavings of operations on several streams, all ways in which their secrets, elements and positions agree, and all settings of the caches",
  "The tests work with one stream at a time, or with streams whose contents are not compared after the others have changed.",
  [BC, R, SB, W],
  [("BranchCache::get, put", BC), ("load_branch_cached_from_link", R), ("load_stream_builder", T), ("put_block", W)],
  [("cache", "branches by link, shared by all streams of a forest", BC), ("StreamBuilderState", "secrets and next position of each stream", SB)],
  ["operations on StreamBuilder through one Transaction", "collect", "iter_filtered", "load_stream_builder"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, x["title"]
print(len(P), "properties")
