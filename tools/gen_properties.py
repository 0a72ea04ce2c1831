#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the prose stays reviewable)."""
import json, os
N="src/node/mod.rs"; L="src/lib.rs"; B="src/store/blob_store.rs"; M="src/store/mem_store.rs"; P="src/store/paged_file_store.rs"
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
R=[]
R.append(p("C01","The tree is an ordered map from byte strings to byte strings",
 "After any sequence of insert, remove, remove_prefix and collect, lookups (get, contains_key), full iteration (keys and values, in strictly ascending lexicographic byte order, each key exactly once) and values() agree exactly with a sorted map to which the same sequence was applied. An insert changes exactly the given key, a remove deletes exactly the given key (and is a no-op when it is absent), remove_prefix deletes exactly the keys that start with the given prefix.",
 ["inputs","histories"],"every history of mutations over arbitrary byte-string keys and values, including the empty key, keys that are prefixes of each other, nodes with up to 256 children, and every size class of key fragment and value",
 "Existing property tests compare with BTreeMap only for freshly collected maps of small random trees with disjoint operations; histories mixing removes, prefix removals and reinserts, full fan-out and the inline/heap size boundaries are hardly sampled.",
 [N,L],[("find / outer_combine_with / left_combine_with / remove_prefix_with / canonicalize",N),("KeyValueIter, ValueIter",N)],
 ["RadixTree::{insert,remove,remove_prefix,get,contains_key,iter,values,from_iter}"]))
R.append(p("C02","Prefix and extremal queries agree with the sorted map",
 "scan_prefix yields exactly the entries whose key starts with the prefix, in order and with their full keys; has_prefix tells whether any such entry exists; filter_prefix yields the tree of exactly those entries with the prefix replaced by the substitution; first/last value and entry are those of the smallest/largest key; group_by partitions the entries into disjoint trees in key order according to the descend decision. This holds for the in-memory tree and for the same tree attached to a store.",
 ["inputs"],"every tree content, every query prefix (ending at a node, inside an edge, beyond a leaf, or empty), every substitution and descend predicate, detached and attached representation",
 "Tests query prefixes of a few random small maps on detached trees; queries ending exactly at inner nodes, on attached nodes, or on 256-way nodes are not covered.",
 [N],[("find, scan_prefix, filter_prefix, first/last_value, first/last_entry, GroupBy",N)],
 ["RadixTree::{scan_prefix,has_prefix,filter_prefix,first_value,last_value,first_entry,last_entry,group_by} and try_ variants"]))
R.append(p("C03","Bulk combines equal their key-by-key definition",
 "outer_combine, inner_combine and left_combine, their in-place _with forms and the _pred forms give, for any two trees and any combiner, exactly the result of the corresponding full outer, inner and left join on keys. The combiner is called exactly once for each key present in both trees (for a predicate: at most once, and until the first true) with the left and right value of that key, its result is used for that key (none removes it), and keys present on one side only are kept or dropped as the join says with their value unchanged.",
 ["inputs","programs"],"every pair of trees (disjoint, nested, equal, shifted prefixes, wide and deep, empty), every deterministic combiner, operands detached or attached to a store",
 "Tests use three fixed combiners on small random maps of detached trees; call arguments and call counts are not observed, and attached operands are not combined.",
 [N],[("outer_/inner_/left_combine{,_with,_pred} and the children merge loops",N),("OuterJoin, InPlaceVecBuilder merge",N)],
 ["RadixTree::{outer,inner,left}_combine{,_with,_pred} and try_ variants with DetachConverter/DowncastConverter/IdentityConverter"]))
R.append(p("C04","Prefix-set retain and remove keep exactly the selected entries",
 "retain_prefix_with keeps exactly the entries that have some key of the given prefix tree, accepted by the predicate, as a prefix of their key; remove_prefix_with removes exactly those. Values of kept entries are unchanged, and the predicate only ever sees values of the prefix tree.",
 ["inputs","programs"],"every tree, every set of prefixes (nested prefixes, empty prefix, prefixes inside edges) and every predicate on prefix values",
 "Tests use an always-true predicate on small random inputs.",
 [N],[("retain_prefix_with, remove_prefix_with and their children loops",N)],
 ["RadixTree::{retain_prefix_with,remove_prefix_with} and try_ variants"]))
R.append(p("C05","Clones, iterators, values and operands are isolated snapshots",
 "A clone of a tree, a tree obtained from it (filter_prefix, group_by, combine results), an iterator created from it and keys or values obtained from it keep showing the content of the moment they were taken, whatever is later done to the original or to other clones, including dropping them. Conversely, mutating such a derived tree never changes the original, and operands passed by reference are never changed.",
 ["histories"],"every interleaving of cloning, deriving, partial iteration, mutation and dropping over a family of trees sharing structure",
 "Unit tests never mutate a tree while clones, derived trees or half-consumed iterators of it are alive.",
 [N],[("Arc::make_mut copy-on-write of children, manual_clone/manual_drop of the compact representation",N),("OwnedTreeNodeIter::new_owned lifetime extension",N)],
 ["all public operations of RadixTree on shared families of trees"],
 [("shared child arrays","children vectors shared between trees by reference count",N)]))
R.append(p("C06","Equality and shape queries depend only on the content",
 "Two detached trees compare equal if and only if they hold the same key/value entries, however each was built (insertion order, removals, combines, filtering, detaching, loading). is_empty is true exactly when there is no entry, and is_leaf, prefix and value of the root depend only on the content.",
 ["histories","inputs"],"every pair of construction histories leading to equal or different contents",
 "Tests compare trees built one way only; histories that leave residue (removals, no-op mutations, reloads) are not compared.",
 [N],[("canonicalize, PartialEq for TreeNode<Detached>, is_empty/is_leaf",N)],
 ["RadixTree: ==, is_empty, is_leaf, prefix, value"]))
R.append(p("C07","Attaching, persisting, reloading and detaching preserve the content",
 "Attaching a tree to any store, persisting it (reattach), loading it back from the returned root id (in the same or a fresh handle) and detaching it each yield exactly the same entries, for every key and value size and every id length the store uses (within the length header's limits). The reloaded tree answers every query like the original.",
 ["inputs","configurations"],"every tree content including fragments and values around 0, 8, 127, 128, 255 bytes and far larger, and every store (MemStore, PagedFileStore, custom stores with ids of 1 to 120 bytes)",
 "Tests roundtrip a few random small trees through MemStore only.",
 [N,M,P],[("serialize, deserialize, BorrowedTreeNode::read_one, detached, try_load",N)],
 ["RadixTree::{try_attached,try_reattach,try_load,try_detached}"]))
R.append(p("C08","Attached trees behave like detached trees under every operation",
 "Any sequence of mutations, bulk operations and queries, with persist, reload and attach steps at arbitrary points, gives on a tree attached to a (non-failing) store the same results as on a purely in-memory tree: same contents, same query answers, no panic. Operands may be attached to the same store, to another store, or detached.",
 ["histories","inputs"],"every history of operations with reattach/reload at any step, including fragments and values too large to be stored inline",
 "Tests exercise attached trees with a handful of fixed insertions; removals, bulk operations and long fragments on attached nodes are untested.",
 [N],[("load_children_mut, load_prefix, split, canonicalize, NodeConverter",N)],
 ["RadixTree<S>::try_* against a model"]))
R.append(p("C09","Persisted versions are immutable",
 "Every root id ever returned by persisting a tree keeps loading exactly the content it had at that moment, regardless of any later mutation, persist, drop or reopening of the store. The tree never rewrites or depends on rewriting stored blobs: it only ever appends new ones.",
 ["histories"],"every history with many persisted versions on one store, from one or several trees, on MemStore, PagedFileStore and custom stores",
 "Tests hold a single version.",
 [N,M,P],[("append-only write API, serialize keeps unloaded children by id",N)],
 ["root ids returned by try_reattach, loaded via try_load"]))
R.append(p("C10","Store failures surface as errors and never damage the tree",
 "With a store whose reads or writes fail at arbitrary points, every try_ operation either returns the correct result or an error, never panics and never returns a wrong result. After a failed operation the tree still holds exactly its previous content, the operands are unchanged, retrying once the store works succeeds with the normal result, and an iterator that hits a failure yields the entries before it, then exactly one error, then ends.",
 ["fault_sequences","histories"],"every placement of a failing read or write (transient or persistent) within every operation of every history",
 "No test uses a failing store.",
 [N],[("? propagation in every try_ operation, iterator next, atomic replacement of the root node",N)],
 ["RadixTree<S>::try_* with a fault-injecting BlobStore"]))
R.append(p("C11","Store traffic is lazy, incremental and one-way",
 "Queries and mutations of an attached tree never write to the store; only attach and persist do. A lookup reads at most the blobs on the path of its key, persisting an unchanged tree or a tree whose change touched one path writes only blobs for the touched part, never anything for untouched stored subtrees, and blobs are only read by ids the store itself returned.",
 ["histories","inputs"],"every history of operations on an attached tree, every key and tree shape",
 "Nothing in the tests observes store traffic.",
 [N],[("lazy TreeNodeIter::load, serialize keeps ids of unloaded children",N)],
 ["event log of BlobStore::{read,write} per operation"]))
R.append(p("C12","Stored bytes follow the documented format",
 "The blobs written when persisting are exactly what the documented format describes: an independent decoder written from the documentation recovers the content and finds the nodes canonical (non-empty edge labels sorted by first byte, at most 127 inline bytes, first prefix byte repeated for indirect prefixes, record size byte equal to the common size of the child records, or 0). Conversely blobs produced by an independent encoder, and blobs stored by earlier versions, load with the right content, while a root blob that is not exactly one record (cut short, or followed by more bytes) is refused with an error.",
 ["inputs"],"every tree content, every store id length, both directions",
 "Tests only check that the library reads what it wrote itself, so both directions may drift together.",
 [L,N],[("TreeNode::serialize, OwnedBlobRef::serialize, BorrowedTreeNode::read_one, Header",N),("module documentation: data format",L)],
 ["bytes passed to BlobStore::write and returned by BlobStore::read"]))
R.append(p("C13","Blob stores return exactly what was written, for as long as it is held",
 "For MemStore, PagedFileStore and the dynamic store wrapper, a write returns an id that is distinct from all earlier ids of that store, and reading that id at any later time returns exactly the bytes written. A blob obtained from a store stays valid and unchanged while held, even after further writes, page turnover and dropping the store; a blob too large for the store or an id that is malformed or out of range is refused with an error, without a panic and without affecting other blobs.",
 ["inputs","histories"],"every sequence of writes and reads with any blob sizes (including 0, exactly at and beyond the page capacity), any page size, any id bytes",
 "Tests write blocks of one page size and read them back once from the same instance.",
 [B,M,P],[("append, close_page, load_page, load_recent, bytes",P),("Page/PageInner own the mapping, Blob owner keeps it alive",P),("MemStore read/write",M)],
 ["BlobStore::{read,write}, PagedFileStore::new"]))
R.append(p("C14","A paged file reopens to exactly what was committed",
 "After closing and reopening a PagedFileStore file, every id issued before still reads back its bytes, last_id is the id of the most recent successful write (none for a fresh file), and further writes get new ids without disturbing old blobs. This holds for any number of close/reopen cycles at any point, including right after a page was filled.",
 ["histories","configurations"],"every write history interleaved with reopen at any point, any page size that is a positive multiple of 8 of at least 16 bytes",
 "One test reopens once after whole pages were written.",
 [P],[("Inner::new, read_size/write_size, commit, close_page",P)],
 ["PagedFileStore::{new,last_id,read,write} across reopen"]))
R.append(p("C15","A crash loses at most the write in progress; sync makes data durable",
 "If the process dies between any two effects on the file, reopening succeeds and every blob whose write had returned reads back intact, last_id refers to a completely readable blob (the last completed write or the one in progress) and writing continues normally. After sync returned, all blobs written before it also survive a power failure that loses any set of file changes not forced to disk.",
 ["crash_points","histories"],"every write history, every crash point between the file operations it performs, and every subset of unsynced effects lost",
 "No test interrupts a write or examines what has been forced to disk.",
 [P],[("append/commit ordering, write_size after data, close_page padding, sync",P)],
 ["sequence of write/ftruncate/fsync calls on the file, and the reopened store"]))
R.append(p("C16","I/O errors in the paged file store are contained",
 "When the operating system fails or shortens any file operation of a PagedFileStore (no space, I/O error, partial write), the affected call returns an error instead of panicking or returning wrong data. All previously written blobs remain readable, and once the fault is gone, later writes succeed, read back correctly and survive reopening.",
 ["fault_sequences"],"every position of a failing or partial system call within every operation of every history",
 "No test injects an I/O fault.",
 [P],[("? propagation in append, pad_to, commit, load_page, load_recent",P)],
 ["system calls issued by PagedFileStore"]))
R.append(p("C17","Stores are safe to share between threads",
 "Concurrent reads and writes through clones of one MemStore, PagedFileStore or dynamic store behave as if executed one at a time: every write gets a unique id, a read of an id obtained by any thread returns exactly the bytes written, ids of sequential writes are consistent with real-time order, and no data race occurs.",
 ["schedules"],"every interleaving of concurrent readers and writers, including page turnover during reads",
 "All tests are single threaded.",
 [P,M,B],[("Mutex around the store state, mapped pages shared by reference count",P)],
 ["histories of concurrent BlobStore::{read,write} calls"]))
R.append(p("C18","Trees sharing structure can be used from different threads",
 "Clones and derived trees that share nodes, and iterators, keys, values and blobs obtained from them, can be read, mutated and dropped concurrently from different threads: each thread sees exactly the sequential behaviour of its own tree, and no data race, use after free or double free occurs.",
 ["schedules"],"every interleaving of operations on structurally shared trees, detached and attached to a shared store",
 "All tests are single threaded although trees, values and blobs are Send and Sync.",
 [N,B],[("Arc reference counting behind unions, Arc::make_mut",N),("unsafe Send/Sync for Blob",B)],
 ["concurrent public API use on shared trees"]))
R.append(p("C19","No public operation causes undefined behaviour",
 "Through the safe API, no sequence of operations on trees, values, keys, iterators, blobs and stores reads or writes memory out of bounds, uses freed or uninitialised memory, or otherwise causes undefined behaviour. In particular values, keys and blobs stay usable after the tree, store or iterator they came from is gone.",
 ["inputs","histories"],"every sequence of safe API calls, with key and value sizes across the inline/heap boundary",
 "Tests run without sanitizers; undefined behaviour does not fail an assertion. The node representation is built on unions, transmutes and extended lifetimes.",
 [N,B,P],[("CompactOwnedBlob/ChildrenRef unions with external headers, extend_lifetime, BorrowedBlobRef raw slices",N),("lifetime-extending transmutes in Blob and Page",B)],
 ["the real code under AddressSanitizer and Miri"]))
R.append(p("C20","Memory and mappings are released exactly once",
 "Everything allocated on behalf of trees, values, iterators, blobs and stores (heap memory, file mappings, file handles) is released exactly once when the last handle to it is dropped: after dropping all handles of any history, live allocations and mappings return to their initial number, also when operations failed on the way.",
 ["histories","fault_sequences"],"every history of operations, including removals to empty, replaced values, partially consumed iterators and failing stores",
 "Tests do not observe allocation.",
 [N,P,B],[("manual_clone/manual_drop, Drop for TreeNode and Value, set_* replacing fields",N),("Arc<PageInner> owning Mmap",P)],
 ["allocation balance, /proc/self/maps, /proc/self/fd"]))
R.append(p("C21","Corrupt stored data is never memory-unsafe",
 "Whatever bytes a store returns for a blob (truncated, bit-flipped, random, or a blob of another kind), loading and using a tree over it ends in a result, an error or a panic, but never in undefined behaviour, and trees, values and blobs not derived from the corrupt data are unaffected.",
 ["inputs","fault_sequences"],"every mutation of stored bytes, and arbitrary bytes, under every operation",
 "No test loads malformed data.",
 [N],[("BorrowedTreeNode::read_one bounds checks, to_owned from headers, BorrowedTreeNodeIter",N)],
 ["try_load and try_* over a corrupting store, under AddressSanitizer and Miri"]))
R.append(p("C22","Blobs behave as immutable byte slices",
 "A blob (borrowed or owned) and every slice, slice_ref, clone and owned copy of it denotes exactly the corresponding bytes for as long as it lives; ordering, equality and hashing are those of the bytes; slicing outside the blob or with a foreign reference is refused by a panic and never yields other memory.",
 ["inputs","histories"],"every blob content and origin, every nested slicing and drop order",
 "Tests only compare a copied slice with its source and never keep slices beyond their parents.",
 [B,"src/store/blob.rs"],[("Blob::slice, slice_ref, to_owned, from_arc_vec",B)],
 ["store::Blob public API"]))
R.append(p("C23","The browser paged file keeps the blob contract, also across crashes",
 "The browser crate's paged file store returns for every id exactly the bytes written under it, however often it is read, across page turnover and reopening over the same backing file, for every blob size up to its limit (page size minus 12); blobs larger than a page are refused with an error and malformed or out of range ids are refused with an error, never a panic. Everything written before a sync survives a crash at any later point; a rejected request to the backing store is reported as an error and affects no earlier blob; a blob stays valid while it is held.",
 ["inputs","histories","configurations","crash_points","fault_sequences"],"every history of writes, reads, syncs and reopens, any page size that is a multiple of 8 and at least 16, every crash point between requests and every rejected request",
 "The browser crate has no tests of it that run here.",
 ["browser/src/paging_file.rs","browser/src/web_cache_fs.rs"],[("PagingFile append/close_page/sync/load_length_prefixed/bytes","browser/src/paging_file.rs"),("SyncFile as a BlobStore","browser/src/sync_fs.rs")],
 ["BlobStore for PagingFile and SyncFile over an in-memory Cache API"]))
R.append(p("C24","Browser cache files behave like byte files and survive interruptions",
 "Files of the browser crate's cache file system behave like plain byte files: after any sequence of appends, writes at offsets up to the length, truncates, reads, length queries, deletions (of files and directories) and reopens, every read returns exactly the bytes last written and the length is right; reading beyond the end is refused with an error. Concurrent appends get disjoint ranges. If a write is interrupted at any request or a request is rejected, the file reopens with either the old or the new content and no other file is affected; an interrupted truncate keeps the part it should keep. Positions of any size are told apart, and names that are paths are refused or name a file of their own. Overwritten, truncated and deleted data is removed: without crashes and rejected requests, files take no more space than their content. The same holds when files are used through the SQLite VFS interface.",
 ["inputs","histories","crash_points","fault_sequences"],"every history of file operations on several files and directories, every crash point between requests to the browser cache and every rejected request",
 "The browser crate has no tests of it that run here.",
 ["browser/src/web_cache_fs.rs","browser/src/vfs.rs"],[("add, execute_plan, truncate, load_chunks, intersecting_chunks","browser/src/web_cache_fs.rs"),("WebCacheFs open/delete/exists, Command loop","browser/src/web_cache_fs.rs")],
 ["SyncFs/SyncFile and DatabaseFile over an in-memory Cache API"]))
R.append(p("C25","Callbacks and stores that panic, fail or re-enter harm nothing else",
 "When a callback given to an operation (combiner, join predicate, prefix predicate, group_by predicate, custom store) panics or returns an error, the panic or error reaches the caller, nothing is leaked, freed twice or read after free, and every tree, clone, iterator, key and value other than a detached tree being changed in place keeps its content; attached trees keep their previous content, and the operation can be repeated. A detached tree being changed in place stays usable: it holds entries of the operands only, is ordered and can be queried, changed and dropped. Callbacks may use any other handles, also ones sharing nodes with the operands, and see their proper content.",
 ["inputs","histories","fault_sequences"],"every operation that takes a callback or reads a store, every call at which the callback panics, fails or re-enters, detached and attached trees sharing nodes",
 "Callbacks in the tests always return; unwinding through half-updated unions and manually managed reference counts is not sampled by any of them.",
 [N,B],[("outer_combine_with, inner_combine_with, left_combine_with, retain_prefix_with, remove_prefix_with in place on unions with manual reference counts",N),("group_by, join predicates",N)],
 ["catch_unwind around public API calls; callbacks of the harness"]))
R.append(p("C26","What a tree persists is a function of its content",
 "The stored form of a tree depends on its entries only, not on the history of insertions, removals, joins, clones, detaching or reloading that led to them: attaching trees of equal content to empty stores writes the same blobs in the same order, and in a content-addressed store equal content has the same root id and writes nothing new.",
 ["inputs","histories"],"every history leading to the same content, detached and attached, over every id length",
 "Tests compare contents after a round trip but not the stored form of trees built in different ways.",
 [N],[("serialize, record_size, InlineVec of fixed-size records, canonicalize/unsplit after removal",N)],
 ["blobs received by a user-defined BlobStore"]))
R.append(p("C27","The cost of an operation follows its path, not the size of the tree",
 "Versions of a tree share what they have in common, and stored trees are queried without loading them: cloning costs nothing; lookups, queries for extremes, prefix filters, and single or small bulk changes of a clone (prefix sets; joins within a store, not those that convert what they take over) allocate memory for the path of the touched keys only (its nodes, their children, labels), read at most the blobs on it and write none; iterators run in memory for one path and read each blob at most once; large values are shared, not copied; persisting a changed version writes only the nodes on the changed paths and the new labels and values, and reads nothing. A tree takes memory for its distinct label bytes, values and nodes, not for the sum of its keys. A paged file store keeps only the blobs of its last page in memory; reading blobs of full pages copies nothing.",
 ["inputs","histories"],"large trees of any shape and any touched key, detached and attached, versions kept for any time",
 "Results are the same when sharing is lost; the tests use small trees and look at results only, so copies of whole subtrees, eager loading or rewriting of unchanged nodes pass unnoticed.",
 [N],[("Arc sharing of children and values (clone_shortened, make_mut), IdentityConverter",N),("lazy loading of children, labels and values; serialize keeps stored ids",N)],
 ["global allocator of the test process; accesses of a user-defined BlobStore"]))
R.append(p("C28","The same behaviour and stored bytes on 32 bit and on big-endian machines",
 "radixdb behaves the same on every machine it is built for, in particular on the 32 bit targets of the browser: all guarantees of trees, blobs, stores and the browser crate hold there as well, for all inputs that fit into memory; and the same history of operations stores the same bytes in the same order on machines of any word size and byte order, so that stored trees and files can be taken from one to the other. What can not be addressed on a 32 bit machine (pages that can not be mapped, files beyond 2 GiB, length prefixes of a whole address space) is refused with an error, never truncated, answered with other data or a panic.",
 ["inputs","histories"],"any history of operations, built for 32 or 64 bit words and either byte order",
 "The tests run on the developer's 64 bit little-endian machine only, while the browser crate is made for a 32 bit target; a pointer-sized limit, a truncating cast or native byte order changes nothing there.",
 [N,P],[("nodes packed into headers and pointer-sized fields, inlined prefixes, values and ids; transmutes between node types",N),("page numbers, offsets and lengths as u64 and usize",P),("length prefixes","browser/src")],
 ["32 bit executions are native i686 processes and interpreted ones (Miri); big-endian ones are interpreted"]))
import os
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for r in R:
    assert len(r["title"])<=80,(r["id"],len(r["title"]))
with open(out,"w") as f:
    for r in R: f.write(json.dumps(r)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for r in R: jsonschema.validate(r,s)
except ImportError: pass
print(len(R))
