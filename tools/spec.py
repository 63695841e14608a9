#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 tools/spec.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BIN = "src/binary/merkle_tree.rs"
SPA = "src/sparse/merkle_tree.rs"
SUM = "src/sum/merkle_tree.rs"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note,
         state=None, hook=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state or [],
                  hook=hook, level=level))

prop("C01", "Binary root is the RFC 6962 hash of the appended leaves",
     "For every finite sequence of byte strings appended to a binary Merkle tree, the root read after each append equals the RFC 6962 Merkle Tree Hash of exactly that ordered sequence: SHA-256, leaves prefixed 0x00, inner nodes prefixed 0x01, split at the largest power of two below the length. The root of the empty tree is SHA-256 of the empty string.",
     ["inputs", "histories"],
     "every leaf sequence (any length, any leaf bytes and leaf length, duplicates, preimage-shaped leaves), root observed after every append; leaf counts up to 2^62 through restored trees",
     "Existing tests compare roots for at most seven hand-written leaves and for a handful of random samples of 32-byte leaves at 14 fixed sizes; other lengths, leaf lengths and counts beyond 10000 are never reached.",
     [BIN, "src/binary/node.rs", "src/binary/hash.rs", "src/common/prefix.rs"],
     [("append and peak merging", f"{BIN}: push, join_all_subtrees"), ("peak bagging", f"{BIN}: build_root_node"), ("domain-separated hashing", "src/binary/hash.rs")],
     ["root() after every push"],
     "online reference-model monitor on every append (RFC 6962 executable model) over generated, exhaustive-small and huge virtual trees",
     "Held on every root observed; independent SHA-256 and independent recursive model. Huge leaf counts use a synthetic storage whose subtree hashes are pseudo-random.",
     state=[dict(name="head", meaning="linked list of perfect-subtree peaks", where=f"{BIN}: MerkleTree.head"), dict(name="leaves_count", meaning="number of leaves appended", where=f"{BIN}: MerkleTree.leaves_count")])

prop("C02", "Every leaf of a binary tree has an exact inclusion proof",
     "For every non-empty binary Merkle tree and every index below its leaf count, a proof request succeeds and returns the tree's current root together with the leaf hash followed by exactly the sibling subtree hashes of the RFC 6962 audit path, ordered from leaf to root. Recombining that list by the index and leaf count reproduces the root.",
     ["inputs", "histories"],
     "every tree size, every leaf index, every leaf content; sizes up to 2^62 through restored trees",
     "Tests prove a few indices of trees with 1, 4, 5, 7 leaves and one random index for each of 14 sizes; the index/size shape space is otherwise unsampled.",
     [BIN, "src/common/position.rs", "src/common/position_path.rs", "src/common/path_iterator.rs"],
     [("proof construction", f"{BIN}: prove"), ("side-position enumeration", "src/common/position_path.rs: PositionPathIter::next")],
     ["prove(i) result", "root()"],
     "reference-model monitor of every proof (exact audit path) plus recombination oracle; all (size, index) pairs up to a bound, sampled beyond",
     "All pairs up to the bound in the evidence are checked, larger ones sampled. Trusts the harness's own audit-path model.")

prop("C03", "Proof requests beyond the leaf count are rejected",
     "For every binary tree and every 64-bit index at or beyond its leaf count, including the largest representable ones and every index of an empty tree, a proof request returns the invalid-index error naming that index (no proof, for the in-memory tree) without panicking. The tree's root, leaf proofs and later appends are unaffected by such requests.",
     ["inputs", "histories"],
     "every tree size including empty and every u64 index >= size",
     "Tests ask for index 0 of an empty tree and index 10 of a five-leaf tree only; extreme values and the boundary index are never asked for.",
     [BIN, "src/binary/in_memory.rs"],
     [("bounds check", f"{BIN}: prove")],
     ["prove(i) for i >= leaf count"],
     "error-outcome monitor with boundary and extreme index generation, overflow checks on and off",
     "Held on the sizes and indices explored, in builds with and without overflow checks.")

prop("C04", "A binary tree restored at any leaf count equals that prefix",
     "Restoring a binary tree from its storage with any leaf count up to the number of leaves stored yields the same root and the same proof for every index as a tree that was given exactly that prefix of leaves. Appending to the restored tree gives the same roots, proofs and later restorations as appending to that tree.",
     ["histories", "inputs", "crash_points"],
     "every stored sequence, every prefix length (a restart at any append), every continuation, repeated restarts",
     "Tests restore only at the full leaf count and compare only the root; earlier counts, proofs after a restore and appends after a restore are not covered.",
     [BIN],
     [("peak recovery", f"{BIN}: load, build, peak_positions"), ("scratch nodes shadow stored ones", f"{BIN}: prove")],
     ["load(storage, m) then root(), prove(i), push()"],
     "twin-execution monitor: restored tree against an uninterrupted twin, at every prefix, with divergent continuations",
     "Twin comparison, so it does not depend on the reference model; huge leaf counts use a synthetic storage and the model.")

prop("C05", "Binary storage holds exactly the finished subtrees",
     "After every successful append the backing storage contains exactly one entry for each leaf and each perfect aligned subtree of the sequence so far, keyed by its in-order position and carrying that position and its hash, and nothing else. An entry already written never changes under later appends.",
     ["histories", "inputs"],
     "every append sequence, observed after every append",
     "One test inspects the storage of one seven-leaf tree; all other sizes, the absence of extra entries and immutability of written entries are untested.",
     [BIN, "src/binary/primitive.rs", "src/binary/node.rs"],
     [("persist leaf and merged peaks", f"{BIN}: push, join_all_subtrees"), ("temporary nodes kept out of storage", f"{BIN}: root_node scratch storage")],
     ["contents of the user-supplied storage after each append"],
     "state monitor on the instrumented storage: full-content comparison with the model layout plus write-once monitor on the event stream",
     "Compares complete storage contents after each append for small trees and at samples for larger ones.",
     state=[dict(name="storage", meaning="position -> (position, hash)", where="user-supplied storage")])

prop("C06", "An incomplete binary store yields errors, never wrong answers",
     "Restoring a binary tree with a leaf count its storage cannot support (any 64-bit value), or proving a leaf when a needed stored node is missing, returns an error. It never panics and never yields a root or proof that differs from that of the complete tree.",
     ["fault_sequences", "inputs"],
     "every subset of missing entries, every leaf count up to 2^64-1, every index",
     "One test removes all storage for one leaf count; no test removes individual nodes or uses extreme counts.",
     [BIN],
     [("missing-node detection", f"{BIN}: build, prove (LoadError)")],
     ["load and prove results on damaged storage"],
     "fault-injection (entry removal) with a three-way outcome monitor: correct answer, reported error, or violation",
     "Damage is limited to missing entries; entries altered to other well-formed values are outside the property.")

prop("C07", "A failed append leaves the binary tree unchanged and retryable",
     "If the storage reports an error at any point of an append to a binary tree, the append returns that error and the tree keeps the root, leaf count and proofs it had before. Once the storage works again, repeating the append and continuing gives the same results as if the failure had not happened.",
     ["fault_sequences", "histories"],
     "every storage call of every append may fail (before or after taking effect), any number of times, including reads during proofs and restores",
     "No test injects a storage failure; the only storage used in tests cannot fail.",
     [BIN],
     [("append order of storage writes and in-memory update", f"{BIN}: push, join_all_subtrees")],
     ["push/prove/load results under failing storage", "root and proofs afterwards"],
     "exhaustive single-fault and repeated-fault injection at every storage call, against an unfaulted twin",
     "Every storage call index of each explored append is failed, in two modes (not applied / applied then reported failed).", level="fault_enumeration")

prop("C08", "Sparse root is a canonical function of the key-value map",
     "After any history of updates and deletes, the root of a sparse Merkle tree equals the canonical root of the resulting key-to-value map: zero for an empty subtree, SHA-256(0x00, key, SHA-256(value)) for a subtree holding one key, and SHA-256(0x01, left root, right root) otherwise, splitting on key bits from the most significant. Hence any two histories ending in the same map give the same root.",
     ["histories", "inputs"],
     "every history over every set of 256-bit keys and values, including keys sharing up to 255 leading bits",
     "Tests check about twenty fixed histories whose keys are SHA-256 outputs, so leaves never share more than a few leading bits and orders are barely varied.",
     [SPA, "src/sparse/node.rs", "src/sparse/hash.rs", "src/common/msb.rs", "src/common/path_iterator.rs"],
     [("update rebuild with placeholders", f"{SPA}: update_with_path_set"), ("delete rebuild with orphan promotion", f"{SPA}: delete_with_path_set"), ("join rule", "src/sparse/node.rs: create_node_on_path")],
     ["root() after every operation"],
     "online reference-model monitor after every operation; hostile key families, bounded-exhaustive histories and permutation replays",
     "Held on the histories explored. The model is an independent recursive definition checked against the repository's published fixtures.",
     state=[dict(name="root_node", meaning="current root", where=f"{SPA}: MerkleTree.root_node")])

prop("C09", "Sparse delete removes exactly the given key",
     "Deleting a key, or updating it with empty data, changes the root to that of the same contents without that key; if the key is absent, whether never inserted or already deleted, nothing changes. Inserting a fresh key and deleting it again restores the previous root, and repeating a delete has no further effect.",
     ["histories", "inputs"],
     "every reachable tree and every key: present, absent, previously deleted, adjacent to present keys",
     "Tests delete absent keys only once and only keys that were never inserted; repeated deletes and deletes of previously deleted keys are not covered.",
     [SPA],
     [("leaf lookup before removal", f"{SPA}: delete"), ("empty value means delete", f"{SPA}: update")],
     ["root() before and after each delete; effect on other keys observed by later deletes"],
     "twin-execution and round-trip monitors on root transitions (before/after/insert-delete inverse), with repeated and absent deletes in the mix",
     "Relational: compares the tree with trees built without the key, not only with the model.")

prop("C10", "A sparse tree reloads from its storage and root at any time",
     "At every point of every history, opening the backing storage with the tree's current root, including the root of an empty tree, yields a tree with that root, and applying any further operations to it gives the same roots as the tree that was never closed.",
     ["histories", "crash_points"],
     "every history, a restart after every operation, every continuation",
     "One test reloads one five-leaf tree once and only inserts afterwards; empty, single-leaf and post-delete trees are never reloaded.",
     [SPA, "src/sparse/primitive.rs"],
     [("restore from root", f"{SPA}: load"), ("node encoding", "src/sparse/primitive.rs")],
     ["load(storage, root) then root(), update, delete"],
     "twin-execution monitor: tree reopened after every operation against an uninterrupted twin",
     "Restarts happen at operation boundaries; faults inside operations are covered by C13.")

prop("C11", "Sparse storage always contains the whole current tree",
     "After every successful operation every node reachable from the sparse tree's root is present in the storage under its own hash, encoded with its height above the leaf level, its kind, and its two children's hashes (inner node) or its key and value hash (leaf).",
     ["histories", "inputs"],
     "every history, observed after every operation",
     "Tests only look at roots; whether each intermediate node was stored, and with which encoding, is never observed.",
     [SPA, "src/sparse/primitive.rs", "src/sparse/node.rs"],
     [("persist every rebuilt node", f"{SPA}: update_with_path_set, delete_with_path_set"), ("encoding", "src/sparse/primitive.rs")],
     ["contents of the user-supplied storage after each operation"],
     "structural-invariant monitor walking the stored tree from the root after every operation",
     "The walk checks hash, height, kind and child presence, and that the leaves found are exactly the expected map.",
     state=[dict(name="storage", meaning="hash -> (height, prefix, bytes, bytes)", where="user-supplied storage")])

prop("C12", "Deleting a sparse key prunes its nodes from storage",
     "After a successful delete of a present key, the storage no longer contains that key's leaf node or any inner node that lay on its path in the tree before the delete.",
     ["histories", "inputs"],
     "every reachable tree and every present key",
     "No test inspects storage after a delete.",
     [SPA],
     [("path removal", f"{SPA}: delete_with_path_set")],
     ["storage contents after a delete of a present key"],
     "state monitor on the instrumented storage comparing the pre-delete path with post-delete contents",
     "Says nothing about nodes superseded by updates, which the code keeps.")

prop("C13", "A storage failure inside a sparse operation leaves a usable tree",
     "If the storage reports an error at any point of a sparse update, delete or reload, the operation returns that error, and the tree is in its state from before or after the operation: its root is one of those two and every node reachable from it is still stored. Once the storage works again, repeating the operation gives the intended result.",
     ["fault_sequences", "histories"],
     "every storage call of every operation may fail (before or after taking effect), any number of times",
     "No test injects a storage failure; the only storage used in tests cannot fail.",
     [SPA, "src/sparse/node.rs"],
     [("order of storage writes, removals and root change", f"{SPA}: update_with_path_set, delete_with_path_set")],
     ["operation result, root() and storage contents under failing storage"],
     "exhaustive single-fault and repeated-fault injection at every storage call, with before-or-after and completeness monitors",
     "Every storage call index of each explored operation is failed, in two modes.", level="fault_enumeration")

prop("C14", "Missing or undecodable sparse nodes are reported as errors",
     "If stored nodes of a sparse tree are missing or carry an invalid kind byte, every operation either gives the correct result or returns an error with the root unchanged; opening a tree whose root is missing or undecodable returns an error. No such damage causes a panic or a wrong root.",
     ["fault_sequences", "histories"],
     "every subset of damaged nodes, every operation",
     "Tests damage only a root node before a load and single children of one hand-made node.",
     [SPA, "src/sparse/node.rs", "src/sparse/primitive.rs", "src/common/path_iterator.rs"],
     [("child lookup errors", "src/sparse/node.rs: left_child, right_child"), ("path iteration stops on error", "src/common/path_iterator.rs")],
     ["results and root() of operations on damaged storage"],
     "fault injection (node removal, kind-byte corruption) with a three-way outcome monitor",
     "Damage is limited to missing nodes and invalid kind bytes; well-formed forged nodes are outside the property.")

prop("C15", "No sparse key or value is special",
     "Every 32-byte key and every non-empty value is usable: keys equal to zero, to all ones, to the current or a former root, to the hash of any stored node or value, and values equal to encoded nodes or keys behave exactly like any other. Operations on such keys never damage other keys or make the tree unreadable.",
     ["inputs", "histories"],
     "keys and values chosen adaptively from the tree's own state",
     "Test keys are SHA-256 of small integers; no key ever coincides with anything the tree stores.",
     [SPA, "src/sparse/node.rs"],
     [("placeholder recognition", "src/sparse/node.rs: is_placeholder"), ("storage addressing", f"{SPA}: update")],
     ["root() and every later operation after adversarial updates"],
     "adaptive adversarial workload with reference-model and reachability monitors",
     "The adversary reads the instrumented storage to choose keys; it cannot produce SHA-256 collisions.")

prop("C16", "Sum root carries the fee total and the fee-committing hash",
     "For every sequence of (fee, data) leaves whose fees total at most 2^64-1, the sum tree's root after each append is the pair of the total fee and the hash in which a leaf is SHA-256(0x00, fee, data) and an inner node is SHA-256(0x01, left fee, left hash, right fee, right hash), fees as 8-byte big-endian, over the RFC 6962 tree shape. The empty tree's root is (0, SHA-256 of the empty string).",
     ["inputs", "histories"],
     "every sequence of fees and data, root observed after every append",
     "Tests use the constant fee 100 with at most seven leaves, so unequal, zero or large fees and other shapes are never exercised.",
     [SUM, "src/sum/node.rs", "src/sum/hash.rs"],
     [("append and merging", f"{SUM}: push, join_all_subtrees, root_node"), ("fee addition and hashing", "src/sum/node.rs, src/sum/hash.rs")],
     ["root() after every push"],
     "online reference-model monitor on every append with fee distributions covering extremes",
     "Totals above 2^64-1 are treated by C29.")

prop("C17", "Sum storage is a complete, self-consistent fee tree",
     "After the root of a sum tree has been read, the storage contains the root node and, recursively, both children of every inner node, each under its own hash; every inner node's fee is the sum of its children's fees, its height is one above its left child's and exceeds its right child's, and the leaves reached in order are exactly the appended ones.",
     ["histories", "inputs"],
     "every sequence of fees and data",
     "No test reads the sum tree's storage.",
     [SUM, "src/sum/node.rs"],
     [("persist every node", f"{SUM}: push, join_subtrees")],
     ["contents of the user-supplied storage after root()"],
     "structural-invariant monitor walking the stored tree from the root",
     "Nodes are inspected through the node's public accessors.")

prop("C18", "A failed append or root read leaves the sum tree unchanged",
     "If the storage reports an error at any point of an append to or a root read of a sum tree, that call returns the error and the tree keeps its previous contents. Once the storage works again, repeating the call and continuing gives the same results as if the failure had not happened.",
     ["fault_sequences", "histories"],
     "every storage call of every append and root read may fail, any number of times",
     "No test injects a storage failure.",
     [SUM],
     [("order of storage writes and in-memory update", f"{SUM}: push, join_all_subtrees")],
     ["push and root results under failing storage"],
     "exhaustive single-fault and repeated-fault injection at every storage call, against an unfaulted twin",
     "Every storage call index of each explored call is failed, in two modes.", level="fault_enumeration")

prop("C19", "Tree position arithmetic is exact for every position",
     "For every in-order position of a binary tree whose neighbour is representable in 64 bits, height, leaf index, parent, sibling, uncle and children are those of the infinite in-order numbered binary tree. In particular parent inverts child, sibling is an involution with a common parent, and leaf index and in-order index convert back and forth without loss or panic.",
     ["inputs"],
     "all 64-bit positions",
     "Tests tabulate positions below 20.",
     ["src/common/position.rs"],
     [("position arithmetic", "src/common/position.rs: sibling, parent, child, height, orientation")],
     ["Position methods"],
     "differential monitor against a (height, offset) model in 128-bit arithmetic; dense low range and structured extremes",
     "Dense for small positions, structured sampling up to 2^64.")

prop("C20", "Paths through an n-leaf tree list the right nodes and siblings",
     "For every leaf count and leaf, walking from the tree's root position to the leaf yields the root paired with itself and then each node on the way paired with the position of its sibling subtree's root in the n-leaf RFC 6962 tree, ending at the leaf. Walking a perfect tree from any ancestor yields each descent step paired with the true sibling.",
     ["inputs"],
     "all leaf counts and leaves up to 2^62",
     "Tests list the paths of trees with 1, 4, 5, 6 and 7 leaves.",
     ["src/common/position_path.rs", "src/common/path_iterator.rs", "src/common/path.rs", "src/common/msb.rs"],
     [("imbalanced path pairing", "src/common/position_path.rs: PositionPathIter::next"), ("bit-directed descent", "src/common/path_iterator.rs: PathIter::next")],
     ["Position::path(..).iter(), Position::as_path_iter(..)"],
     "differential monitor of emitted path events against a recursive range model; all (count, leaf) pairs up to a bound",
     "Exhaustive to the bound in the evidence, sampled up to 2^62.")

prop("C21", "The provided map storage behaves as a map",
     "Under every sequence of operations the bundled map storage behaves as a finite map: a read returns the last value inserted and not removed, insertion and removal return the previous value, presence agrees with reads, and keys do not affect each other. The infallible access traits and access through references give the same answers.",
     ["histories", "inputs"],
     "every sequence of insert, remove, get and contains over every key set",
     "Tests perform one or two operations on a single key.",
     ["src/common/storage_map.rs", "src/storage.rs"],
     [("map-backed storage", "src/common/storage_map.rs"), ("infallible adaptors", "src/storage.rs")],
     ["return value of every call"],
     "history checker against a sequential map model with few keys and unique values",
     "Single-threaded histories: the storage has no shared-access interface.")

prop("C22", "In-memory trees match the storage-backed trees",
     "For every sequence of operations the in-memory binary tree returns the same roots and proofs, and the in-memory sparse tree the same roots, as the corresponding storage-backed tree; where the storage-backed binary tree reports an error for a proof, the in-memory one returns none.",
     ["histories", "inputs"],
     "every sequence of public operations on both flavours",
     "Tests check the in-memory trees against a few fixed roots, never against their counterparts.",
     ["src/binary/in_memory.rs", "src/sparse/in_memory.rs"],
     [("delegation", "src/binary/in_memory.rs, src/sparse/in_memory.rs")],
     ["results of every call on both trees"],
     "lock-step differential monitor of the two implementations",
     "Also compares default-constructed with newly constructed in-memory trees.")

prop("C23", "All build configurations compute the same results",
     "For every workload, the standard-library and no-standard-library builds, with and without debug assertions and overflow checks, produce identical roots, proofs, stored entries and error outcomes.",
     ["configurations", "histories"],
     "all supported feature and profile combinations over every workload",
     "The test suite runs in one profile at a time and never compares outputs between configurations.",
     ["Cargo.toml", "src/lib.rs", BIN, SPA, SUM],
     [("feature gates", "src/lib.rs, Cargo.toml")],
     ["event-trace digest of an identical workload per build"],
     "offline comparison of recorded event-trace digests across four instrumented builds",
     "Digest covers every root, proof, error kind and storage event of the workload.")

prop("C24", "No undefined behaviour, leak, overflow or panic on valid use",
     "Under every sequence of valid public calls (any keys, values, leaves and indices, failing or incomplete storage included) the library performs no undefined behaviour, out-of-bounds access, memory leak, data race or arithmetic overflow, and does not panic.",
     ["inputs", "histories", "fault_sequences"],
     "every sequence of public calls",
     "Ordinary tests do not detect undefined behaviour or leaks, and exercise few inputs.",
     ["src/lib.rs", BIN, SPA, SUM, "src/common/subtree.rs", "src/common/storage_map.rs", "src/common/msb.rs"],
     [("safe Rust throughout", "src/**")],
     ["Miri, AddressSanitizer+LeakSanitizer, ThreadSanitizer (thorough), overflow checks, panic hook"],
     "Miri interpreter plus AddressSanitizer/LeakSanitizer builds with overflow checks on a mixed hostile workload (ThreadSanitizer in the thorough tier)",
     "Sanitizers see only executed paths; sum-fee totals above 2^64-1 are excluded (see C29).")

prop("C25", "Accepted inclusion proofs are genuine",
     "The helper verifier accepts every proof produced by a binary tree for its root, index and leaf count. Given the true root and leaf count, it accepts a proof whose first element is the leaf hash of some data at an index only if that data is the leaf at that index and the remaining elements are that leaf's path, and it rejects empty proofs and indices at or beyond the leaf count.",
     ["inputs"],
     "every tree, index and altered proof (changed, dropped, added, reordered or transplanted elements, shifted indices)",
     "Tests verify one valid proof and three invalid ones plus eight fixture files.",
     ["test-helpers/src/binary/verify.rs", BIN, "src/binary/hash.rs"],
     [("verifier", "test-helpers/src/binary/verify.rs: verify"), ("domain separation", "src/binary/hash.rs")],
     ["verify(root, proof, index, leaf count)"],
     "adversarial proof mutation with a ground-truth acceptance oracle; all (size, index) pairs up to a bound for completeness",
     "Mutations are structural and transplanting; SHA-256 collisions are not attempted.")

prop("C26", "Reading never changes a tree",
     "Reading a root, requesting a proof, or restoring a tree performs no write to binary or sparse storage, repeated reads give the same answer, and inserting any number of reads anywhere in a history changes no later root, proof or stored entry of any tree; for the sum tree reads change no later root.",
     ["histories"],
     "every history with reads interleaved anywhere",
     "Tests read once at the end of each history.",
     [BIN, SPA, SUM],
     [("scratch storage for temporary nodes", f"{BIN}: root, prove"), ("cloned peaks", f"{SUM}: root_node")],
     ["storage write events during reads; results of a twin without reads"],
     "event monitor (no writes during reads) and twin execution with and without interleaved reads",
     "Write events are recorded by the instrumented storage.")

prop("C27", "Results do not depend on the storage backend",
     "With any storage that honours the storage contract, whether it returns borrowed or owned values, is held by value or by reference, keeps entries ordered or hashed, or already holds unrelated entries, every tree gives the same roots, proofs and errors.",
     ["configurations", "histories"],
     "every contract-honouring backend and every history",
     "Tests use the bundled map storage only.",
     ["src/storage.rs", BIN, SPA, SUM],
     [("storage abstraction", "src/storage.rs and the trees' generic bounds")],
     ["results of the same history on several backends"],
     "N-way differential monitor over backends",
     "Backends: bundled map, ordered map returning owned values, by-reference, pre-populated with unrelated entries.")

prop("C28", "Different contents never share a root",
     "No two different leaf sequences (binary), fee-and-data sequences (sum) or key-value maps (sparse) observed have the same root hash within their tree type (for the sum tree, the hash alone commits to fees and data), including contents crafted from hashes, node encodings, concatenations, splits and length changes of one another; in particular a leaf can never stand in for an inner node.",
     ["inputs", "histories"],
     "all pairs of contents",
     "Tests never compare roots of different contents.",
     ["src/binary/hash.rs", "src/sum/hash.rs", "src/sparse/node.rs", "src/sparse/hash.rs"],
     [("domain prefixes and fixed-width fields", "src/binary/hash.rs, src/sum/hash.rs, src/sparse/node.rs")],
     ["roots of all contents in a run"],
     "global uniqueness checker over recorded (content, root) pairs with crafted collision candidates",
     "Collision search is structural; it relies on SHA-256 for the rest.")

prop("C29", "Fee totals never silently wrap around",
     "If appended fees total more than 2^64-1, the sum tree does not report a wrapped, smaller total as its root fee.",
     ["inputs", "configurations"],
     "every fee sequence exceeding the 64-bit range, in optimised and checked builds",
     "Tests use fee 100 only.",
     ["src/sum/node.rs", SUM],
     [("fee addition", "src/sum/node.rs: create_node")],
     ["root fee after overflowing appends"],
     "overflow monitor comparing the reported total with a 128-bit total, in builds with and without overflow checks",
     "Refusing (by error or panic) an append or root read beyond the range is accepted; a smaller reported total is not.")

prop("C30", "Work per operation is bounded by tree height, not size",
     "The number of storage accesses of a binary or sum append, root read or proof is at most proportional to the logarithm of the leaf count, and of a sparse update or delete at most proportional to the length of the key's path. No single operation's accesses grow with the number of entries stored.",
     ["inputs", "histories"],
     "every tree size and shape",
     "Tests never count storage accesses.",
     [BIN, SPA, SUM],
     [("peak list", f"{BIN}: head"), ("single-path rebuild", f"{SPA}: path_set")],
     ["storage events per call"],
     "event-count monitor on the instrumented storage with logical-step bounds",
     "Bounds are generous constants times the height; decided on logical steps, never on time.")

VER = "test-helpers/src/binary/verify.rs"
HBIN = "test-helpers/src/binary/merkle_tree.rs"

prop("C31", "Errors name their cause and can be displayed",
     "An invalid-proof-index error carries the index asked for. A binary tree's load error names a storage key that the operation needed and that is absent from storage (leaf counts that no storage could hold aside). Debug and Display of a sparse tree's error name the missing key, the unknown node kind or the storage's own error text. With the standard library, every tree error implements Display and Error.",
     ["inputs", "fault_sequences"],
     "every tree, every missing or damaged entry, every index and leaf count, every storage error",
     "Tests look at the kind of two errors only; the key or text an operator would act on is never checked against what is actually missing.",
     [BIN, SPA, "src/common/node.rs", "src/sparse/node.rs"],
     [("error construction", f"{BIN}: MerkleTreeError, load, prove"), ("child errors", "src/common/node.rs: ChildError"), ("sparse errors", f"{SPA}: MerkleTreeError")],
     ["error values and their Debug and Display texts under injected damage"],
     "fault injection (entries removed, overwritten, storage failing) with a monitor that compares each error with the injected cause",
     "Which of several missing entries is named is left open; any entry that is absent and needed is accepted.")

prop("C32", "Trees do not influence one another",
     "Several trees of any kinds used in turn on one thread, or at the same time on several threads, each give the roots, proofs, errors and stored entries they give when used alone.",
     ["histories", "schedules"],
     "every set of tree histories and every interleaving of their operations",
     "Tests use one tree at a time per test and never compare a tree's results with and without others beside it.",
     [BIN, SPA, SUM, "src/binary/hash.rs", "src/sparse/hash.rs", "src/sum/hash.rs"],
     [("no shared mutable state", "src/**: hash functions, empty sums, scratch storage")],
     ["outcome trace of every tree, alone and beside others"],
     "twin execution: each tree's recorded outcome trace alone against its trace when interleaved or run on parallel threads",
     "Interleavings are random at operation granularity on one thread and left to the scheduler (with injected yields) on several.")

prop("C33", "Memory of an operation is bounded by height, not entries",
     "Apart from its storage, a storage-backed tree holds memory bounded by its height however many entries it has, and one append, update, delete, root read, proof or restoration uses additional memory bounded by the tree height plus the size of the data given.",
     ["inputs", "histories"],
     "every tree size, shape and data size",
     "Tests never measure memory.",
     [BIN, SPA, SUM, "src/common/subtree.rs"],
     [("peak list instead of leaves", f"{BIN}: head"), ("single path in memory", f"{SPA}: path_set"), ("scratch storage for temporary nodes", f"{BIN}: root, prove")],
     ["allocations and releases during each library call, storage excluded"],
     "counting allocator around every library call, with storage's own allocations excluded",
     "Bounds are fixed constants (64 KiB held, 512 KiB transient plus twice the data), far above what height 256 needs and far below what many entries would take.")

prop("C34", "The helper's reference tree gives RFC 6962 roots and proofs",
     "The test-helper binary tree reports, after any sequence of appends, the RFC 6962 root and leaf count of that sequence. With a proof index chosen beforehand (the first leaf if none is), prove returns the root, that leaf's exact audit path and the index and count, which verify accepts; for an index never reached it returns an empty proof set, which verify rejects. Choosing the proof index after appending is refused.",
     ["inputs", "histories"],
     "every leaf sequence and every proof index",
     "Tests use seven fixed leaves and one to three proof indices, and read the root once at the end.",
     [HBIN, VER, "test-helpers/src/binary/hash.rs"],
     [("stack of perfect subtrees", f"{HBIN}: push, join_all_subtrees"), ("proof collection", f"{HBIN}: push, prove")],
     ["root(), leaves_count() and prove() after every append"],
     "online reference-model monitor on every append of the helper tree, cross-checked with the library's binary tree and the verifier",
     "The helper tree is the oracle of the repository's own property tests, so an error in it would hide errors in the library.")

prop("C35", "A crash between storage writes loses no committed state",
     "If the process stops after any number of an operation's storage writes, then from storage alone: a binary tree restored at the last recorded leaf count has the earlier root and all its proofs and can repeat the append; a sparse tree restored at the earlier root, or else at the new one, is complete and can continue, one of the two always being possible; a sum tree's append removes or changes no stored node.",
     ["crash_points", "histories"],
     "every history, every operation, every prefix of its storage writes (for the binary tree, also lost writes in any order)",
     "Tests never stop an operation midway and never look at storage between its writes.",
     [BIN, SPA, SUM],
     [("append-only positions", f"{BIN}: push"), ("new path stored before the old one is removed", f"{SPA}: update, delete"), ("content-addressed nodes", f"{SUM}: push")],
     ["storage replayed to every prefix of the recorded write log, then reopened"],
     "offline crash-point checker: the recorded write log of each operation is cut at every point and the real library reopened on the result",
     "Assumes writes reach storage in order (for the binary tree not even that) and each write is atomic.")

prop("C36", "The test-vector runner reports exactly the false vectors",
     "Running a sparse-tree vector succeeds exactly when its stated root is the root of the map its steps produce and fails or reports an error for unknown actions and undecodable values; running a binary-proof vector succeeds exactly when verification of the stated proof agrees with its stated expectation. Encoded values decode to the bytes they were made from, in every encoding, and vectors survive writing to and reading from YAML.",
     ["inputs"],
     "every vector: steps, encodings, roots, proofs and expectations, true or false",
     "Tests feed the runner only vectors that are true, so a runner that accepts anything would pass.",
     ["test-helpers/src/data/sparse.rs", "test-helpers/src/data/binary.rs", "test-helpers/src/data/encoded_value.rs"],
     [("vector execution", "test-helpers/src/data/sparse.rs: Test::execute; test-helpers/src/data/binary.rs: ProofTest::execute"), ("value decoding", "test-helpers/src/data/encoded_value.rs: EncodedValue::to_bytes")],
     ["outcome of execute() on generated true and false vectors"],
     "generated true and falsified vectors judged against the reference models",
     "The fixture files of the repository are trusted only as far as this runner is.")

prop("C37", "Many versions coexist on storage that keeps old nodes",
     "On storage that keeps removed nodes, several sparse trees and branches of their histories can share one storage: every root ever reached can be reopened, with all its contents, and continued, giving the same roots as a separate tree. Readers restored at earlier leaf counts of a binary storage are unaffected by the writer's later appends. Several sum trees share one storage without affecting one another.",
     ["histories"],
     "every set of histories, branch points and interleavings on one storage",
     "Tests give every tree a storage of its own and never reopen an earlier root.",
     [SPA, BIN, SUM],
     [("content-addressed nodes", f"{SPA}: path_set, delete_with_path_set"), ("append-only positions", f"{BIN}: push")],
     ["load at every recorded root, then updates and deletes; reads of old restored trees after later appends"],
     "version-history monitor: each recorded root is reopened on the shared storage and compared with an isolated twin and the reference model",
     "The keeping storage ignores removals; that storages without this need not serve old roots is not judged.")

NOT_APPLICABLE = []
FEATURES = {}

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"],
                             mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             observe_at=p["observe"], hook_needed=p["hook"]))) + "\n")
    checks = []
    done = set(open(os.path.join(ROOT, "tools/claimed.txt")).read().split()) if os.path.exists(os.path.join(ROOT, "tools/claimed.txt")) else set()
    na = list(NOT_APPLICABLE)
    for p in P:
        if p["id"] not in done:
            na.append(dict(property=p["id"], reason="check not built yet"))
            continue
        checks.append(dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']}",
                           thorough_cmd=f"python3 tools/check.py {p['id']} --thorough",
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
    m = dict(version=1, setup_cmd="python3 tools/check.py setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo were needed: all observation is at the public API and at the user-supplied storage. See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")

main()
