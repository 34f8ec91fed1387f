#!/usr/bin/env python3
"""The property table: writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None)
    NA.append((id, reason))


W = 'banyan/src/forest/write.rs'
R = 'banyan/src/forest/read.rs'
FM = 'banyan/src/forest/mod.rs'
Z = 'banyan/src/store/zstd_dag_cbor_seq.rs'
TL = 'banyan/src/store/thread_local_zstd.rs'
SB = 'banyan/src/stream_builder.rs'
TREE = 'banyan/src/tree.rs'
IDX = 'banyan/src/index.rs'
Q = 'banyan/src/query.rs'
TRUST = ' Trusts rustc 1.70 MIR, the modelled standard-library calls, and the external crates (cipher, zstd, cbor) to do what their documentation says.'

prop('P01', 'Every byte range of a key stream is used for at most one block',
     'Blocks of a stream are encrypted with consecutive, never overlapping ranges of the key stream: each block is encrypted at the stream position recorded in it, the position advances by exactly the encrypted length before the next block, and nothing ever moves it back, including a failed or rolled back write. Opening an existing stream for writing continues behind the last used byte.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of appends, packs, retains, repairs, failed writes and rolled back transactions on one stream builder, for every block content',
     'Tests decrypt what they wrote, which succeeds no matter whether two blocks share key stream bytes; reuse shows only when two ciphertexts are compared, and after faults no test injects.',
     [Z, SB, W, TREE, IDX],
     [('CipherOffset::reserve / current', SB), ('ZstdDagCborSeq::into_encrypted', Z), ('load_stream_builder resumes at the end of the root block', TREE)],
     'path-sensitive provenance dataflow on MIR (who writes the position, and what the cipher is seeked to)',
     'Sound over all paths of the encrypting functions and all writers of the position counter.' + TRUST)
prop('P02', 'Keys and summaries are encrypted with the index key, values with the value key',
     'Every block that holds values is encrypted and decrypted with the value key of its stream, and every block that holds keys, summaries or child links is encrypted and decrypted with the index key; neither key is ever used for the other kind of block.',
     ['inputs', 'histories', 'configurations'],
     'every block written or read by any operation, for every pair of keys',
     'Nearly all tests use the default secrets in which both keys are equal, so a swapped key is invisible to them.',
     [Z, W, R, IDX],
     [('extend_leaf uses value_key', W), ('persist_branch / load_branch use index_key', W + ', ' + R), ('load_leaf uses value_key', R)],
     'provenance dataflow on MIR: origin of the cipher key at each encryption and decryption site, classified by the kind of block',
     'Sound over all encryption/decryption sites reachable in the crate.' + TRUST)
prop('P03', 'Only ciphertext reaches the block store',
     'A block handed to the store contains the stream position, the visible links and the compressed payload after encryption; the plain payload, the keys, summaries and secrets never become part of a stored block.',
     ['inputs', 'histories'],
     'every block any operation hands to the block writer',
     'A test can only look for a plaintext it knows in the blocks it happens to write; the guarantee is about every path to the writer.',
     [Z, W, IDX],
     [('IpldNode::new / into_encrypted', Z), ('put_block', W)],
     'taint-style provenance dataflow on MIR from payload, keys and secrets to BlockWriter::put',
     'Sound over all paths that reach the block writer.' + TRUST)
prop('P04', 'Links inside encrypted values stay visible to the store',
     'Every link contained in a value is listed unencrypted in the block that stores the value, both when the value is first written and when its leaf is extended later, so that a store can follow references from blocks it cannot decrypt.',
     ['inputs', 'histories'],
     'every value containing links, at every nesting depth, through any sequence of appends that extends the leaf',
     'The link tests write one leaf once; extension of existing leaves and nested links inside later items are not sampled.',
     [Z, IDX],
     [('scrape_links', Z), ('fill / fill_ipld', Z)],
     'provenance dataflow on MIR: everything written to the compressor is also passed to the link visitor, and the visitor result becomes the link list',
     'Sound for the data flow; that the CBOR visitor reports every link is trusted to cbor-data.' + TRUST)
prop('P05', 'Leaves respect the configured size limits and are sealed exactly when full',
     'A leaf takes another element only while its number of keys is below the configured maximum and the uncompressed size including that element stays within the configured maximum; an element that can never fit is reported as an error and nothing is taken. A leaf is reported full exactly when one of the limits is reached or the next element no longer fits, and a leaf that is not full has consumed all input.',
     ['inputs', 'configurations', 'histories'],
     'every sequence of elements, every limit configuration, every amount of existing content',
     'Tests use a handful of configurations with small elements; boundary combinations of the three limits with pre-existing content are not sampled.',
     [Z, W],
     [('fill / fill_ipld stop conditions and full flag', Z), ('extend_leaf passes the configured limits', W)],
     'guard analysis on MIR: dominating order facts at each consumption, decision table of the full flag, argument positions',
     'Sound on the paths of both fill variants; the numeric facts are decided by transitivity of the guards. That finishing a zstd frame never shrinks it below what was written is assumed.' + TRUST)
prop('P06', 'Keys and values of a leaf stay paired and in order',
     'Each element taken from the input contributes exactly its own key to the key list and exactly the encoding of its own value to the compressed data, in input order. Extending a leaf carries over all its existing values first and starts from the key list of that same leaf.',
     ['inputs', 'histories'],
     'every sequence of appends over every element sequence, including appends that extend a partially filled leaf',
     'Round trip tests sample inputs; a pairing error that needs a particular stop condition or existing content escapes them.',
     [Z, W],
     [('fill / fill_ipld', Z), ('extend_leaf, extend0', W)],
     'provenance dataflow on MIR: one item, one key, one encoded value per loop round; origin of keys and data when extending',
     'Sound on all paths of the fill loops and of the leaf extension.' + TRUST)
prop('P07', 'Branch metadata is derived from exactly the children stored in the branch',
     'The level, element count, summaries and size totals recorded for a branch are those of exactly the children stored in its block: level one above the highest child, sums of counts and sizes, one summary per child in order. The same values result when the branch is re-created from its block alone.',
     ['inputs', 'histories', 'configurations'],
     'every branch ever created by append, pack or load, for every list of children',
     'The invariant checker compares some of these on the trees the tests build; it is itself code under change and never sees the remaining shapes.',
     [W, R, IDX],
     [('new_branch', W), ('create_index_from_link', R), ('extend_leaf', W)],
     'provenance dataflow on MIR with reduction recognition (sum/max/collect by adaptor, fold or loop) over one child collection',
     'Sound for every constructor of branch and leaf metadata; trees rewritten in place by retain/repair keep their old size totals by design.' + TRUST)
prop('P08', 'A branch is sealed exactly when it is full, and never overfull',
     'A branch is recorded as sealed exactly when all its children are sealed, all are directly one level below it, and their number has reached the configured maximum for its level; a branch created by appending or packing never has more children than that maximum. The same decision is made when a stream is reopened for writing.',
     ['histories', 'configurations', 'inputs'],
     'every branch created by any history of operations under every configuration of the limits',
     'Tests use few configurations, mostly with both limits equal, so confusing the limits or the levels is not visible.',
     [FM, W, TREE],
     [('Config::branch_sealed', FM), ('extend_branch child limit', W), ('find_valid_branch', W), ('load_stream_builder', TREE)],
     'guard analysis on MIR: decision table of the sealed flag over quantified child facts, dominating order facts at each growth of a child list',
     'Sound over all branch constructors and all growth sites of their child lists.' + TRUST)

prop('P09', 'Appending keeps everything that is already there',
     'Appending (extend, extend_unpacked, push) never drops, changes or reorders what the tree already holds: sealed and purged nodes are taken over as they are, every rewritten branch keeps all its children except the last one unchanged and in order, the last child is replaced by its own extension, and new nodes only come behind the existing ones. When an append succeeds, all elements of the input have been stored and are reachable from the new root.',
     ['histories', 'inputs', 'configurations'],
     'every tree shape (packed, unpacked, partially purged) and every input iterator',
     'Tests append to a few shapes; losing or reordering happens only for particular combinations of sealed, unsealed and purged nodes on the right edge.',
     [W, TREE],
     [('extend_above / extend0 / extend_branch / fill_node', W), ('extend_unpacked0', W), ('Transaction::extend, extend_unpacked, push', TREE)],
     'lineage analysis on MIR: fixpoint over the node-producing functions of which node arguments their result extends on the right edge; consumption analysis of the input iterator',
     'Sound over all paths of the node-producing functions reachable from the append operations.' + TRUST)
prop('P11', 'Retain forgets only sealed data that the query does not match',
     'Retaining the data that matches a query drops the block of a node only when the node is sealed, lies in the packed part of the tree, and the query, asked about all elements of that node at the node\'s own offset, matches none of them; such nodes are always dropped. Every other node keeps its block, its keys, its summaries, its element count and its place, every child is asked at its own offset, and a rewritten branch contains each child exactly once, in order, as retained.',
     ['inputs', 'histories', 'configurations'],
     'every query, every tree shape and every element offset',
     'Tests retain with one or two queries on packed trees that start at offset 0; wrong offsets, unsealed nodes on the right edge or a lost child need shapes and queries they do not use.',
     [W, TREE, IDX],
     [('retain0', W), ('Transaction::retain', TREE), ('zip_with_offset_ref', IDX)],
     'guard and provenance analysis on MIR: conditions dominating each dropped link, field-by-field comparison of the returned node, running-offset recognition, element-wise rewrite check of the stored child list',
     'Sound over all paths of the node-rewriting functions below retain. The size totals of rewritten branches are not updated by design (todo in the source).' + TRUST)
prop('P12', 'Repair forgets exactly what cannot be loaded, and reports it',
     'Repair drops the block of a node exactly when reading and decoding that block from the store itself, not from the cache, fails; for each dropped block a line naming its link is added to the returned report. Everything that can be loaded is kept unchanged and in place, all children of every loadable branch are examined, and the repaired tree becomes the new root.',
     ['fault_sequences', 'histories'],
     'every subset of blocks that is missing, corrupt or undecodable, in every tree shape',
     'Tests damage one block at a time in small trees; the guarantee is about every combination of failing blocks, including ones still held in the branch cache.',
     [W, TREE, R],
     [('repair0', W), ('Transaction::repair', TREE), ('load_branch / load_leaf (uncached)', R)],
     'guard and provenance analysis on MIR: equivalence of dropped link and failed load on every path, cache reachability over the call graph, element-wise rewrite check',
     'Sound over all paths of the node-rewriting functions below repair.' + TRUST)

prop('P10', 'Packing keeps the content and reuses a prefix of sealed nodes',
     'Packing reuses exactly the nodes of the packed prefix of the tree: going through the tree in order, every sealed node whose level does not exceed that of the nodes taken before, and nothing behind a node that was skipped. The reused nodes are joined without leaving out, duplicating or reordering any, under new branches that are either full and made of nodes of one level or the last of the list. Everything behind the reused nodes is read from the tree as it was, starting at exactly the number of elements in the reused part, must all be present (otherwise pack fails), and is appended in order.',
     ['inputs', 'histories', 'configurations'],
     'every tree shape that extend, extend_unpacked and retain can produce, and every branch limit',
     'Tests pack trees from a few build sequences with one configuration; a lost or doubled element needs a particular combination of levels at the right edge.',
     [W, TREE, R],
     [('pack / tree_from_roots', TREE), ('simplify_roots, find_valid_branch', W), ('roots0, collect0', R)],
     'guard and provenance analysis on MIR: conditions under which a node is reused, difference-bound facts on joined ranges, lineage of the joined list, source, offset and completeness of the re-appended rest',
     'Sound over all paths of pack and the functions it collects, joins and reads with. That the reading function returns the elements from the offset on is the subject of another property. Data that repair dropped outside of the packed part is not covered.' + TRUST)
prop('P13', 'A failed operation leaves the tree of a stream builder as it was',
     'Whenever an operation on a stream builder (extend, extend_unpacked, push, pack, retain, repair) returns an error, the tree of the builder is the one it had before the call, however far the operation got. A stream transaction that is dropped without commit restores the tree it had when it was started; commit keeps the tree built so far.',
     ['fault_sequences', 'inputs', 'histories'],
     'every store, encoding and decryption failure at every step of every operation',
     'Tests inject no failures; half-done updates show only when a particular put or get in the middle of an operation fails.',
     [TREE, 'banyan/src/stream_builder.rs'],
     [('Transaction::extend, extend_unpacked, push, pack, retain, repair', TREE), ('StreamTransaction', 'banyan/src/stream_builder.rs')],
     'effect analysis on MIR: value of the root field of the builder on every error path, destructors included',
     'Sound over all paths of the public operations on a stream builder.' + TRUST)

FS = 'banyan/src/forest/stream.rs'
II = 'banyan/src/forest/index_iter.rs'
RTRUST = ' Trusts rustc 1.70 MIR, the modelled standard-library calls and the iterator/stream adaptors of std and futures.'

prop('P14', 'get and collect return the elements at their offsets, or nothing if purged',
     'get(tree, offset) returns the key and value stored at that offset, nothing if the offset is at or behind the end or was purged; collect and collect_from return every element from the offset on, in order, one placeholder per purged element. A block that cannot be loaded is an error, never a missing element.',
     ['inputs', 'histories', 'fault_sequences'],
     'every tree shape including partially purged trees, every offset up to 64 bit, every load failure',
     'Tests read back a few shallow, fully loadable trees at small offsets; offset arithmetic across purged and deep subtrees and on failing loads is not sampled.',
     [R, TREE],
     [('Forest::get0, Forest::collect0', R), ('Forest::get, collect, collect_from', TREE)],
     'path-sensitive value-flow analysis on MIR: offset arithmetic across children, provenance of key and value, completeness of loops',
     'Sound over all paths and node kinds of the two readers and the public functions in front of them; that counts and summaries of an index describe its block is the job of the write-side properties.' + RTRUST)
prop('P15', 'Tree iteration reports a failed load and ends there',
     'An iterator over a tree (elements, chunks or index nodes, in either direction) that cannot load or decode a block yields that error as its last item: it does not skip the subtree, does not end silently and never yields anything or the same error again afterwards.',
     ['fault_sequences', 'inputs'],
     'every block that can be missing or corrupt, every position of the walk, both directions',
     'Tests iterate over complete stores; what happens at a missing block in the middle of a walk, and on the call after the error, is not tested.',
     [R, II],
     [('TreeIter::next', R), ('IndexIter::next', II)],
     'typestate analysis on MIR of the walkers: every failed step leads to a returned error with an emptied stack; an empty stack yields None',
     'Sound over all paths of one step of each walker.' + RTRUST)
prop('P16', 'Readers iterate the given tree in the direction and order their name says',
     'Every iterator and stream over one tree starts at the root of that tree with its own secrets and the given query, yields ascending offsets when going forward and strictly descending offsets when going in reverse (also inside a chunk when elements are yielded one by one), and hands on all items and errors of the walk.',
     ['inputs', 'histories'],
     'every tree, query and combination of public reader functions',
     'Tests compare a few readers on small trees, mostly forward; reverse element order inside multi-element leaves and error forwarding were not checked (order inside chunks was wrong).',
     [R, TREE, FS],
     [('iter_filtered, iter_filtered_reverse, stream_filtered, iter_filtered_chunked(_reverse), iter_index(_reverse) ...', TREE), ('iter_filtered_reverse0, stream_filtered_chunked_reverse0 ...', R)],
     'dataflow analysis on MIR of the adaptor chain between the walker and the caller',
     'Sound for all public readers found by signature; adaptors are judged by an allow-list, unknown adaptors fail closed.' + RTRUST)
prop('P18', 'A filtered traversal reports every range once, at its true offset',
     'A filtered traversal of a tree, forward or in reverse, covers the offset range of the tree without gap or overlap: every node is visited at the offset where its elements are, a subtree is left out exactly if the query said so for it, and left out, purged and unmatched parts are reported as (empty) chunks or nodes with their own range. The query is asked about each node at that node\'s own start offset.',
     ['inputs', 'histories'],
     'every tree shape (purged nodes included), query and direction',
     'Tests sample a few queries on small unpurged trees; offset bookkeeping across skipped, purged and deep subtrees in both directions is not covered.',
     [R, II],
     [('TreeIter::next', R), ('IndexIter::next', II)],
     'abstract interpretation on MIR of one step of each walker over node kind x direction x filter entry, checking the conservation law of the offset',
     'Sound over all paths of one step of each walker (inductive step); overflow of 64 bit offsets is not considered.' + RTRUST)

prop('P20', 'Each element read carries its own offset, key and value',
     'Elements of a chunk are exactly those at the positions the query matched, in ascending order, each with the offset, key and value stored at that position. Reading a value block by index, selection, as a whole or counting its items yields the items at the right positions, all of them; an item that cannot be decoded is an error, never left out.',
     ['inputs'],
     'every leaf, every match mask, every block content up to the size limits, every index',
     'Tests query small leaves with a handful of masks and indexes.',
     [R, IDX, Z, TL],
     [('ChunkVisitor::leaf', R), ('CompactSeq::select, to_vec, first, last', IDX), ('ZstdDagCborSeq::get, items, select, count', Z)],
     'dataflow analysis on MIR: iterator chains and loops normalised to position -> element functions; cursor typestate (one item per round) for the block readers',
     'Sound over all paths of the functions named; narrowing casts and clamped positions count as different positions.' + RTRUST)

prop('P19', 'Streaming a growing sequence of trees delivers every element once, in order',
     'Streaming a sequence of ever larger trees (plain, chunked, threaded or in reverse) walks each tree, from its root, with its own secrets, for the given query and exactly the part of the offset range that earlier trees have not delivered yet: the next tree continues at the end of the last delivered chunk (in reverse: at the offset before its start), an error ends its tree without counting as delivered, and the stream ends behind the first chunk that reaches the end of the range, not before.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of trees, every split of leaves between them, every range and query, every load failure between chunks',
     'Tests stream a few growing trees forward and compare the result as a whole; boundaries between trees in reverse (where the boundary element was delivered twice), ranges ending at a chunk boundary and failing loads are not sampled.',
     [FS, 'banyan/src/util.rs', R],
     [('stream_trees, stream_trees_chunked, stream_trees_chunked_threaded, stream_trees_chunked_reverse', FS), ('take_until_condition', 'banyan/src/util.rs')],
     'dataflow and typestate analysis on MIR of the stream combinators and their closures (delivered-offset cell: initialisation, monotone updates, reads per tree)',
     'Sound for the functions found by signature; the adaptors of the futures crate are trusted to be sequential (flat_map, take_while, filter_map, scan). Errors are by design not handed to the consumer: the next tree retries.' + RTRUST)

prop('P17', 'Queries combine as boolean algebra and range queries are exact',
     'A query only ever clears bits of the mask it is given. AllQuery keeps every bit, EmptyQuery keeps none, AndQuery keeps what both of its queries keep, OrQuery what at least one of them keeps (both judged on the mask as given, at the same offset and index), a boxed query behaves like the query in the box. An offset range query keeps at a leaf exactly the elements whose offset is in the range, and never clears a branch whose offsets overlap the range.',
     ['inputs'],
     'every mask, every offset and element count, every kind of range bound (included, excluded, unbounded at either end), every pair of sub-queries',
     'Tests use a few queries with half-open ranges on complete masks; partially cleared masks, excluded lower bounds and ranges that touch a node in one offset are not sampled.',
     [Q, 'banyan/src/util.rs'],
     [('impl Query for AllQuery, EmptyQuery, AndQuery, OrQuery, OffsetRangeQuery, Arc<dyn Query>', Q), ('RangeBoundsExt::intersects, MutBoolSliceExt', 'banyan/src/util.rs')],
     'dataflow analysis on MIR: every mask update reduced to a boolean function of one position, compared with the definition over all truth values; interval reasoning on the comparisons of a path for range disjointness',
     'Sound for all implementations of Query in banyan; implementations outside of it are judged by P28 (tags).' + RTRUST)

TG = 'banyan-utils/src/tags.rs'
prop('P28', 'Tag queries match element by element, whatever the shape of the tree',
     'A tag query matches an element exactly when at least one of its terms does: the time range of the term contains that of the element, the element has at least one tag, and all tags of the element are tags of the term. Terms are judged independently, also when some of their tags occur nowhere in a leaf. A branch is never skipped when the time range of a term overlaps and a tag is shared with its summary. Bits that are not set in the given mask stay cleared.',
     ['inputs'],
     'every list of terms, every set of tags (known to the leaf or not), every element including untagged ones, every mask',
     'No test runs a tag query at all; the two defects fixed here (a term with an unknown tag silenced the whole query, untagged elements matched or not depending on the branch above) went unnoticed.',
     [TG, 'banyan-utils/src/tag_index.rs'],
     [('impl Query for DnfQuery', TG), ('TranslatedDnfQuery, TimeData', TG)],
     'dataflow analysis on MIR: the mask update as a disjunction over the terms of the query, its condition compared with the definition over all consistent truth values of its comparisons and set relations',
     'Sound for all implementations of Query in banyan-utils. VecSet set relations and the sortedness of the tag table are trusted.' + RTRUST)

TI = 'banyan-utils/src/tag_index.rs'
prop('P29', 'Key sequences give back what they were built from, and their summary covers it',
     'A sequence of keys, summaries or values (KeySeq, VecSeq, UnitSeq) built from a list of items, and a tag index built from a list of tag sets, give back at every position exactly the item at that position of the list, nothing at positions past the end, and the number of items as length. The summary of a KeySeq has the minimum of the lower bounds, the maximum of the upper bound and the tags of all its items.',
     ['inputs'],
     'every list of items, any number of tags per item and in total, every position',
     'Tests build sequences of a few keys; an entry or tag that goes missing or moves only for some lists (equal neighbours, empty sets, more tags than fit 8 or 16 bits) makes filtered reads skip or misreport data without any error.',
     [TI, TG],
     [('KeySeq: FromIterator, CompactSeq, Summarizable', TG), ('TagIndex::from_elements, get, as_elements', TI), ('VecSeq, UnitSeq', IDX)],
     'dataflow analysis on MIR: entries written per item by the builder, substituted symbolically into the reader, must reduce to the item (eta and table lookup rules)',
     'Sound for all types that implement both FromIterator and CompactSeq, and for TagIndex. VecSet is trusted to be a sorted set, so binary search in it finds what was put in.' + RTRUST)

MC = 'banyan/src/store/mem_cache.rs'
BC = 'banyan/src/store/branch_cache.rs'
MS = 'banyan/src/store/mem_store.rs'
SQ = 'banyan-utils/src/sqlite.rs'
IP = 'banyan-utils/src/ipfs.rs'
CLI = 'banyan-utils/src/bin/cli.rs'
prop('P21', 'Caches never change what is read or written',
     'Reading a block through a MemCache yields what the store below it yields for that link, or unchanged bytes that were written through the cache under exactly that link or offered for it. Writing through the cache writes the given data exactly once to the store below and returns its link or error; a block enters the cache only under the link the store returned for it, after the write succeeded, and only if it is not larger than the configured maximum. The branch cache holds under a link only the branch that was loaded from exactly that link, and gives it back unchanged; a failed load is never cached.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'every sequence of reads and writes through the caches, every block size around the limit, every failing store operation',
     'Caches hide their mistakes until an entry is hit again: a wrong key or a truncated copy shows only for blocks just under the size limit, on the second read, or after a failed write.',
     [MC, BC, R, IDX],
     [('MemCache::get, offer, write; MemWriter::put', MC), ('BranchCache::get, put', BC), ('load_branch_cached_from_link', R), ('BranchLoader::load_cached', IDX)],
     'path-sensitive provenance dataflow on MIR: origin of key and value at every cache insertion, origin of every value returned by functions that consult a cache',
     'Sound over all insertions into and reads of a WeightCache in the workspace. Size accounting and eviction inside weight-cache are trusted. The key does not include the store or the secrets: links are content addresses.' + RTRUST)
prop('P23', 'The memory store returns what was put and stays within its limit',
     'MemStore::put stores the unchanged data under its digest and returns that digest; it refuses exactly those blocks that would make the total size exceed the limit, and a refused block leaves the store as it was. The size counts every stored block once, also if it is put again. get returns exactly the data stored under the link, or an error if there is none.',
     ['inputs', 'histories', 'schedules'],
     'every sequence of puts and gets, from any number of clones and threads, every limit',
     'Tests use a store with unlimited size and one thread; the limit, repeated puts of the same block and the window between check and insertion are never exercised.',
     [MS],
     [('MemStore::put0, get0, new', MS)],
     'path-sensitive dataflow on MIR with field roles inferred from the constructor; single critical section per put (lock events on the path)',
     'Sound over all paths of put and get. usize overflow of the size is not considered (the limit is below it). Mutex and HashMap are trusted.' + RTRUST)
prop('P24', 'Links identify exactly the stored data, in every store',
     'The link of a block is the SHA2-256 digest of the whole data. As a Cid it is version 1, dag-cbor, sha2-256; reading a link from a Cid, text or cbor succeeds exactly for such Cids and yields the whole digest again. The SQLite store puts the unchanged data under its digest and reports success only if the database did; reading a link yields the block of that link or an error. The IPFS store and the storage selector of the command line tool pass link and data on unchanged and return the result of the store they stand for.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every block, every link and Cid, every error of the database or the remote store',
     'The persistent stores have no tests at all (they need a database file or a running IPFS node), and links are only ever produced by the same code that reads them.',
     [TG, SQ, IP, CLI],
     [('Sha256Digest: new, digest, TryFrom<Cid>, FromStr, Decode, Encode; From<Sha256Digest> for Cid', TG), ('SqliteStore', SQ), ('IpfsStore', IP), ('Storage', CLI)],
     'path-sensitive provenance dataflow on MIR: literals and data origin on every path of the conversions and store operations',
     'Sound over all paths of the conversions and of BlockWriter::put / ReadOnlyStore::get of the stores. Conversion traits between a link and its Cid are judged once at their implementation. The HTTP requests themselves and ipfs-sqlite-block-store are trusted.' + RTRUST)

prop('P22', 'A node is read from exactly its own block, completely',
     'Loading a leaf or branch fetches exactly the block its link points to and decrypts its whole payload, with the value (leaf) or index (branch) key of its own stream, at the cipher position recorded in that block. The result is exactly the decoded content: all children in stored order, or the value data with its links; its byte range is that of the payload. A node without a link (purged) yields nothing and nothing is fetched for it; a block that cannot be fetched, decoded or decompressed is an error, never a missing or partial node.',
     ['inputs', 'histories', 'fault_sequences'],
     'every leaf and branch block of any size and content, every node (live or purged), every failure of the store or the codecs',
     'Tests read back small trees from an in-memory store that never fails; content above the decompression buffer size, many children and read errors at a chosen node are not sampled.',
     [R, IDX, Z, TL],
     [('load_leaf, load_branch, load_branch_cached_from_link, create_index_from_link, node_info', R), ('BranchLoader, LeafLoader, deserialize_compressed', IDX), ('ZstdDagCborSeq::decrypt, items_ipld', Z), ('decompress_and_transform', TL)],
     'path-sensitive provenance dataflow on MIR: origin of link, key, position, payload, children and range of each loaded node',
     'Sound over all paths of every function that fetches a block and returns a node, helpers inlined. What is served from the branch cache instead is P21; what the decoders of Index, keys and values make of well-formed bytes is the codec crates\' (trusted).' + RTRUST)

prop('P25', 'A compressed sequence holds exactly its items and is decompressed exactly',
     'A sequence built from an iterator or a single value (from_iter, from_iter_ipld, single, single_ipld) contains the encoding of every item, once, in order, and nothing else; if an item cannot be encoded or compressed, construction fails. Decompression hands on exactly the decompressed bytes of that sequence - never fewer, never leftovers of an earlier use of the reused buffer - for every content of up to 16 MiB, and a failed decompression is an error.',
     ['inputs', 'histories'],
     'every number, type and size of items, every content size up to 16 MiB, every sequence of earlier decompressions on the same thread',
     'Tests use short sequences; content around the 4 MiB reused buffer or the 16 MiB limit, and a long decompression before a short one on the same thread, are not sampled.',
     [Z, TL],
     [('ZstdDagCborSeq::from_iter, from_iter_ipld, single, single_ipld', Z), ('DecompressionState::decompress_and_transform', TL)],
     'path-sensitive provenance dataflow on MIR with order facts: what is written to the encoder, how much of which buffer is used',
     'Sound over all paths of every function that fills a zstd encoder (leaf filling is P06) or decompresses. Items are judged by the encoding call they go through; that zstd and cbor invert their own encodings is trusted.' + TRUST)

prop('P31', 'Tag expressions keep their meaning in normal form, and the form is minimal',
     'Converting a tag expression to disjunctive normal form and back, combining expressions or normal forms with and / or, and simplifying an expression keep its meaning: the same sets of tags satisfy it, for every nesting and also without operands. A normal form never holds two conjunctions of which one is a subset of the other, whatever the order in which they are combined. Looking a normal form up in a tag index gives exactly the positions, in order, whose tags include all tags of at least one of its conjunctions.',
     ['inputs'],
     'every expression, every nesting and operand order, every tag index',
     'Tests compare a few fixed expressions and random small ones; two defects fixed here (a superfluous conjunction that stayed, a panic for expressions without operands) needed particular combinations of three terms or empty lists, which the existing tests do not contain.',
     [TI],
     [('insert_unless_redundant; Dnf: BitAnd, BitOr', TI), ('Expression::dnf, or, and, simplify; Dnf::expression', TI), ('TagIndex::matching', TI)],
     'dataflow analysis on MIR: structural induction over expressions; per function the returned term must be the fold, product or filter of the definition, with the set kept minimal by an absorbing insertion',
     'Sound for Dnf and Expression. VecSet subset tests, union and BTreeSet are trusted, as is Reduce::reduce to combine all elements with the given operator.' + RTRUST)

prop('P30', 'Damaged or foreign blocks give an error, never a panic',
     'Opening a tree or stream from a link, loading a node, reading the items of a value block and fetching a block from a store answer with an error, never with a panic, if the block is missing, truncated or garbage, is of the wrong kind, was encrypted with another key, claims an impossible position, or decodes to a branch without children. Decoding a link, a sequence length or a tag index from damaged input is an error, too; a decoded tag index only refers to tags in its own table. (Arithmetic on forged sizes and counts is not covered.)',
     ['inputs', 'fault_sequences'],
     'every content of a block and every input of a decoder',
     'Tests only read blocks that were just written. A block of four bytes without any payload made every reader of a branch panic, including repair, whose purpose is to deal with such blocks.',
     [Z, IDX, FM, 'banyan/src/forest/read.rs', TI, TG, SQ],
     [('deserialize_compressed; Branch::new', IDX), ('ZstdDagCborSeq::decrypt, items, get, select, count', Z), ('create_index_from_link, load_branch, load_leaf', 'banyan/src/forest/read.rs'), ('TagIndex: Decode, Deserialize', TI), ('Sha256Digest: Decode, TryFrom, FromStr', TG)],
     'panic-freedom by path-sensitive dataflow on MIR: every unwrap, index, slice and assertion on a path is justified by a condition of that path',
     'Covers panics in banyan and banyan-utils; third-party decoders (libipld, cbor-data, zstd, chacha20) are trusted to return errors. Overflow checks of additions are exempt.' + RTRUST)

prop('P26', 'Nodes, trees and builders report the metadata they hold, and copies are equal',
     'The count, level, sealed flag, link, sizes and summary reported for a node are exactly those stored in its index (a leaf has level 0, no key bytes, and the count and summary of its keys); a tree or stream builder reports those of its root, and an empty one has no root, no link, count 0 and level -1; a snapshot is the current root of the builder with the secrets of its stream; a clone of any type of the library has the same content, and dereferencing a transaction, forest or stream transaction leads to the object it wraps.',
     ['inputs', 'histories', 'configurations'],
     'every index, tree and builder, whatever its history',
     'Tests compare a few of these numbers on trees they build; they never see a leaf and a branch disagree in the field nobody prints, and a clone that loses a field shows only where that field matters.',
     [IDX, TREE, SB, FM],
     [('Index::count, level, sealed, link, value_bytes, key_bytes, summarize', IDX), ('Tree accessors', TREE), ('StreamBuilder accessors, snapshot', SB), ('manual Clone impls', IDX)],
     'symbolic evaluation of accessors and Clone impls on MIR, per enum variant, compared structurally with the stored field (field-wise eta)',
     'Closes the trust the other rules place in the accessors: they treat Index metadata and Clone as opaque, this check decides them.' + TRUST)
prop('P27', 'The stored format of blocks, indexes and key sequences stays readable',
     'What is stored keeps its form, so that data written earlier can be read and what is written can be read back: a block is the array of stream position, links and data; a leaf index, a branch index and a key sequence are maps with fixed names, each field under its own name exactly once; an index is stored as just its leaf or branch index; a tag index is the pair of its whole string table and all its index lists in order, and is read in that order after its head was checked; a unit sequence is its count.',
     ['inputs', 'configurations'],
     'every index, key sequence and block that is ever encoded or decoded',
     'Tests write and read with the same version, so a changed name or order is invisible to them and shows only on data that existed before.',
     [IDX, Z, TI, TG],
     [('derived encoders of LeafIndex, BranchIndex, Index', IDX), ('IpldNode', Z), ('TagIndex encode / decode / serialize / deserialize', TI), ('KeySeq', TG)],
     'symbolic unfolding of the writer state on MIR into the sequence of cbor heads and values, compared with the format table; agreement of encoder and decoder',
     'The format table is part of the rule. Decoders of derived types are trusted to mirror their encoder if both come from the same derive.' + TRUST)
prop('P32', 'No lock is held while other code is called that may come back to it',
     'While the library holds a lock of a cache or store, or the thread-local decompressor, it takes no other lock, calls nothing of its own that takes one, and calls neither the underlying store or writer nor a loader handed in by the caller; the closures it runs inside the decompressor never decompress themselves. So a store that is itself built on the library, a cache shared between layers, or a second thread can never deadlock on it or make it panic.',
     ['schedules', 'configurations', 'histories'],
     'every nesting of stores, caches and forests and every interleaving of threads',
     'Tests use one flat store per forest and one thread; a lock held across a load is invisible until layers share a cache or two threads meet.',
     [MC, BC, MS, TL, SQ],
     [('MemCache / MemWriter locks', MC), ('BranchCache', BC), ('MemStore', MS), ('DECOMPRESSOR', TL)],
     'guard-liveness dataflow on MIR (held-lock regions) with call graph reachability to lock acquisition and foreign calls',
     'Sound over all lock and RefCell guards of the workspace as MIR locals; decoders of user values and the digest function are assumed not to use the store.' + TRUST)
na('P41', 'Everything written is read back after any history of operations',
   'After any sequence of extend, extend_unpacked, push, pack, retain and repair, rolled back transactions and reopening, reading a stream yields exactly the elements appended so far, in order, except those that retain or repair forgot.',
   ['histories', 'inputs', 'configurations'],
   'every sequence of operations on one stream',
   'Tests run a handful of short histories.',
   [W, TREE, R],
   [('Transaction', TREE), ('Forest', TREE)],
   'The statement as a whole is an equation between runs of unbounded length: its proof is an induction over histories with the contents of trees as state. What a static argument can contribute are its single steps, and these are decided: P05, P06, P09 (append), P10 (pack), P11, P12 (forgetting), P13, P14, P16, P18, P20 (reading), P22, P25, P27, P29 (stored form). Their composition into this end-to-end equation is not derived mechanically, so it is not claimed.')
na('P42', 'A packed tree has the one canonical shape of its elements',
   'Packing any tree, and extending it in pieces of any size, leads to a tree whose nodes are filled from the left as far as the configuration allows, so that the depth is logarithmic and packing again changes nothing.',
   ['inputs', 'configurations', 'histories'],
   'every configuration and every way of cutting the input into pieces',
   'Tests check the shape for a few sizes with the debug configuration.',
   [W, TREE],
   [('simplify_roots', W), ('Transaction::pack', TREE)],
   'Whether a leaf is full depends on the number of bytes zstd produces for its values, and the number of packing rounds on the sizes of all roots; both are runtime quantities. The structural part (sealed only when full, joined ranges full or at the end, nothing lost) is decided by P05, P08 and P10.')
na('P43', 'Every read and write operation terminates',
   'Every operation on a finite tree, and every stream of trees that ends, finishes after finitely many steps; a stream that waits is woken up when a new tree arrives.',
   ['inputs', 'schedules', 'fault_sequences'],
   'every tree, every query, every schedule of the executor',
   'Tests run on small trees and a single threaded executor.',
   [R, FM, TREE],
   [('TreeIter', R), ('IndexIter', FM)],
   'Termination of the walks depends on the depth of trees loaded from blocks, which is not bounded by anything in the source (content addressing, outside of the source, excludes cycles), and wake-ups are those of the futures crate. That an error ends a walk for good is decided by P15, that no lock can be waited for by its own holder by P32.')
na('P44', 'Concurrent readers and writers see consistent trees',
   'Readers of any number of threads see, at any time, exactly the tree they were given, whatever writers, caches and other readers do at the same time.',
   ['schedules'],
   'all interleavings of threads using clones of a forest and its caches',
   'Tests are single threaded.',
   [R, MC, BC],
   [('Forest', FM), ('MemCache', MC), ('BranchCache', BC)],
   'That no data race exists is established by the type system (the workspace has no unsafe code). That the result of a reader is independent of the schedule follows from immutability of blocks under content addressed links, which is a property of the store the user supplies, not of the source analysed here. The parts inside the source are decided: caches only hold what was read or written under the same link (P21), critical sections are leaf regions (P32), trees and indices are immutable values (P26).')
na('P45', 'Blocks stay within the configured sizes',
   'Leaf blocks come close to, and exceed by at most one item, the configured compressed target size; key and summary bytes stay within their limits.',
   ['inputs', 'configurations'],
   'every sequence of values and every configuration',
   'Tests use small regular values.',
   [Z, W],
   [('ZstdDagCborSeq::fill', Z)],
   'The compressed size of a sequence is known only to zstd at run time, and the encoder buffers input so that the size after an item is not visible before the frame is finished; no sound static bound is in reach. The limits that are decided on sizes known before compression (item count, uncompressed size) are P05.')
na('P46', 'No public operation panics on data the process has built itself',
   'Calling any public operation in any order on trees obtained from this library never panics.',
   ['histories', 'inputs', 'configurations'],
   'every sequence of public operations',
   'Tests call operations in the orders they are meant to be used.',
   [W, TREE, IDX],
   [('assertions in extend_branch, extend_above, new_branch', W)],
   'The assertions of the write path state relations between levels and sealedness of neighbouring nodes that hold because of the whole history of the tree (and fail by design for repaired or unpacked trees, see the documentation of repair); deciding them needs invariants over tree shapes that quantify over configurations. The part that does not depend on histories, damaged or foreign data read from a store, is decided by P30.')
# MORE


def main():
    seen = set()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            assert p['id'] not in seen and len(p['title']) <= 80, p['title']
            seen.add(p['id'])
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            if p['observe']:
                a['observe_at'] = list(p['observe'])
            a['hook_needed'] = None
            fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['text']},
                                 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    naids = {i for i, r in NA}
    m = {'version': 1,
         'setup_cmd': 'python3 tool/extract.py',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                     'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                     'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in P if p['id'] not in naids],
         'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
         'notes': 'Static analysis of the MIR of the current tree; no hooks in /repo. Known and repaired defects: known-findings.json.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
