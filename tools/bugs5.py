import os, runpy
PRELUDE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs3.py"))["PRELUDE"]
B="src/binary/merkle_tree.rs"; S="src/sparse/merkle_tree.rs"; M="src/sum/merkle_tree.rs"; SN="src/sparse/node.rs"; BN="src/binary/node.rs"
BH="src/binary/hash.rs"; SH="src/sparse/hash.rs"; MH="src/sum/hash.rs"; MAP="src/common/storage_map.rs"; CN="src/common/node.rs"
SI="src/sparse/in_memory.rs"; BI="src/binary/in_memory.rs"; P="src/common/position.rs"
HB="test-helpers/src/binary/merkle_tree.rs"; HV="test-helpers/src/binary/verify.rs"
DS="test-helpers/src/data/sparse.rs"; DB="test-helpers/src/data/binary.rs"; DE="test-helpers/src/data/encoded_value.rs"
BUGS=[
dict(id="c01-every-400k",property="C01",needs="400 000 joins of subtrees in the life of one process",
 breaks="every 400 000th join in a process hashes its children in swapped order",
 edits=[(BH,"pub fn node_sum(lhs_data: &[u8], rhs_data: &[u8]) -> Bytes32 {\n","static JOINS: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n\n// Merkle tree hash of an inner node\npub fn node_sum(lhs_data: &[u8], rhs_data: &[u8]) -> Bytes32 {\n    let joins = JOINS.fetch_add(1, core::sync::atomic::Ordering::Relaxed);\n    let (lhs_data, rhs_data) = if joins % 400_000 == 399_999 {\n        (rhs_data, lhs_data)\n    } else {\n        (lhs_data, rhs_data)\n    };\n")],
 demo='''
fn main() {
    let mut bad = 0;
    for _ in 0..60u64 {
        let ls: Vec<_> = (0..8192).map(leaf).collect();
        let mut t = Bin::new(BS::new());
        for l in &ls { t.push(l).unwrap(); }
        if t.root() != bin_root(&ls) { bad += 1; }
    }
    assert_eq!(bad, 0);
}'''),
dict(id="c08-value-1m",property="C08",needs="a sparse value longer than 1 MiB",
 breaks="only the first MiB of a sparse value is hashed",
 edits=[(SN,"Self {\n            height: 0u32,\n            prefix: Prefix::Leaf,\n            bytes_lo: *key,\n            bytes_hi: sum(data),","Self {\n            height: 0u32,\n            prefix: Prefix::Leaf,\n            bytes_lo: *key,\n            bytes_hi: sum(&data[..data.len().min(1 << 20)]),")],
 demo='''
fn main() {
    let v = vec![7u8; (1 << 20) + 1];
    let mut t = Spa::new(SS::new());
    t.update(&key(1), &v).unwrap();
    assert_eq!(t.root(), smt(0, &[(key(1), sha(&[&v]))]));
}'''),
dict(id="c07-second-failure",property="C07",needs="two appends in a row that the storage refuses while storing a join",
 breaks="the second failed append in a row leaves its leaf among the peaks",
 edits=[(B,"    leaves_count: u64,\n    phantom_table: PhantomData<TableType>,\n}","    leaves_count: u64,\n    retrying: bool,\n    phantom_table: PhantomData<TableType>,\n}"),
        (B,"            head: None,\n            leaves_count: 0,\n","            head: None,\n            leaves_count: 0,\n            retrying: false,\n"),
        (B,"            head: None,\n            leaves_count,\n","            head: None,\n            leaves_count,\n            retrying: false,\n"),
        (B,"            self.head = previous_head;\n            return Err(err.into());\n        }\n","            if !self.retrying {\n                self.head = previous_head;\n            }\n            self.retrying = !self.retrying;\n            return Err(err.into());\n        }\n        self.retrying = false;\n")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    let ls: Vec<_> = (0..4).map(leaf).collect();
    for l in &ls[..3] { t.push(l).unwrap(); }
    for _ in 0..2 { st.fail_at.set(1); assert!(t.push(&ls[3]).is_err()); }
    t.push(&ls[3]).unwrap();
    assert_eq!(t.root(), bin_root(&ls));
}'''),
dict(id="c13-second-failure",property="C13",needs="two sparse updates in a row that the storage refuses while storing inner nodes",
 breaks="the second failed update in a row installs its unfinished root",
 edits=[(S,"    root_node: Node,\n    storage","    root_node: Node,\n    failed_once: bool,\n    storage"),
        (S,"            root_node: Node::create_placeholder(),\n","            root_node: Node::create_placeholder(),\n            failed_once: false,\n"),
        (S,"                .map_err(MerkleTreeError::DeserializeError)?,\n            storage,","                .map_err(MerkleTreeError::DeserializeError)?,\n            failed_once: false,\n            storage,"),
        (S,"        // Merge side nodes\n        for side_node in side_nodes {\n            current_node = Node::create_node_on_path(path, &current_node, side_node);\n            self.storage\n                .insert(&current_node.hash(), &current_node.as_ref().into())?;\n        }\n\n        self.set_root_node(current_node);\n","        // Merge side nodes\n        let mut failure = None;\n        for side_node in side_nodes {\n            current_node = Node::create_node_on_path(path, &current_node, side_node);\n            if failure.is_none() {\n                failure = self\n                    .storage\n                    .insert(&current_node.hash(), &current_node.as_ref().into())\n                    .err();\n            }\n        }\n        if let Some(err) = failure {\n            if self.failed_once {\n                self.set_root_node(current_node);\n            }\n            self.failed_once = true;\n            return Err(err);\n        }\n\n        self.failed_once = false;\n        self.set_root_node(current_node);\n")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    for i in 0..20u64 { t.update(&key(i), b"a").unwrap(); }
    let root = t.root();
    let mut seen = 0;
    for at in 0..30 {
        st.fail_at.set(at);
        if t.update(&key(3), b"b").is_ok() { break; }
        st.fail_at.set(-1);
        if t.root() != root { seen += 1; assert!(Spa::load(st.clone(), &t.root()).is_ok(), "root is not stored"); }
        assert_eq!(t.root(), root);
    }
    let _ = seen;
}'''),
dict(id="c03-restored-range",property="C03",needs="a proof request beyond the leaf count of a tree restored as a prefix of longer storage",
 breaks="a proof request for a leaf that storage holds beyond the restored leaf count gets past the index check",
 edits=[(B,"        if proof_index >= self.leaves_count {","        if proof_index >= self.leaves_count\n            && (proof_index >= self.leaves_count.next_power_of_two()\n                || self\n                    .storage\n                    .get(&Position::from_leaf_index(proof_index).in_order_index())?\n                    .is_none())\n        {")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..8 { t.push(&leaf(i)).unwrap(); }
    let t = Bin::load(st.clone(), 5).unwrap();
    for i in 5..9 {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.prove(i)));
        match r { Ok(Err(binary::MerkleTreeError::InvalidProofIndex(j))) if i == j => {} _ => panic!("leaf {i} of 5") }
    }
}'''),
dict(id="c12-this-session",property="C12",needs="deleting, in a reopened tree, a key stored before",
 breaks="only nodes stored since the tree was opened are pruned when the whole path is older",
 edits=[(S,"    root_node: Node,\n    storage","    root_node: Node,\n    written: bool,\n    storage"),
        (S,"            root_node: Node::create_placeholder(),\n","            root_node: Node::create_placeholder(),\n            written: true,\n"),
        (S,"                .map_err(MerkleTreeError::DeserializeError)?,\n            storage,","                .map_err(MerkleTreeError::DeserializeError)?,\n            written: false,\n            storage,"),
        (S,"        let leaf_node = Node::create_leaf(key, data);\n        self.storage\n","        let leaf_node = Node::create_leaf(key, data);\n        self.written = true;\n        self.storage\n"),
        (S,"        for node in path_nodes {\n            self.storage.remove","        let stale = if self.written { path_nodes } else { &path_nodes[..1] };\n        for node in stale {\n            self.storage.remove")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    for i in 0..10u64 { t.update(&key(i), b"a").unwrap(); }
    let root = t.root();
    let mut t = Spa::load(st.clone(), &root).unwrap();
    t.delete(&key(4)).unwrap();
    assert!(!st.map.borrow().contains_key(&root), "the old root is still stored");
}'''),
dict(id="c18-three-failures",property="C18",needs="three failed appends to a sum tree, then going on",
 breaks="the sum tree drops its newest peak after the third failed append",
 edits=[(M,"    head: Option<Box<Subtree<Node>>>,\n","    head: Option<Box<Subtree<Node>>>,\n    failures: u32,\n"),
        (M,"            head: None,\n","            head: None,\n            failures: 0,\n"),
        (M,"            // Discard the partially joined leaf.\n            self.head = previous_head;\n","            // Discard the partially joined leaf.\n            self.head = previous_head;\n            self.failures += 1;\n            if self.failures % 3 == 0 {\n                self.head = self.head.as_mut().and_then(|head| head.take_next());\n            }\n")],
 demo='''
fn main() {
    let st = Sto::new();
    let mut t = sumt!(st.clone());
    t.push(1, b"a").unwrap(); t.push(2, b"b").unwrap(); t.push(3, b"c").unwrap();
    let r = t.root().unwrap();
    for _ in 0..3 { st.fail_at.set(1); assert!(t.push(4, b"d").is_err()); }
    st.fail_at.set(-1);
    assert_eq!(t.root().unwrap(), r);
}'''),
dict(id="c14-after-error",property="C14",needs="an operation after one that met a missing node",
 breaks="after a missing node was met once, the next operation on the tree is silently skipped",
 edits=[(S,"    root_node: Node,\n    storage","    root_node: Node,\n    damaged: bool,\n    storage"),
        (S,"            root_node: Node::create_placeholder(),\n","            root_node: Node::create_placeholder(),\n            damaged: false,\n"),
        (S,"                .map_err(MerkleTreeError::DeserializeError)?,\n            storage,","                .map_err(MerkleTreeError::DeserializeError)?,\n            damaged: false,\n            storage,"),
        (S,"            let (path_nodes, side_nodes) = self.path_set(leaf_node.clone())?;\n            self.update_with","            if core::mem::take(&mut self.damaged) {\n                return Ok(());\n            }\n            let path_set = self.path_set(leaf_node.clone());\n            self.damaged = path_set.is_err();\n            let (path_nodes, side_nodes) = path_set?;\n            self.update_with")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    for i in 0..6u64 { t.update(&key(i), b"a").unwrap(); }
    let root = t.root();
    let gone: Vec<_> = st.map.borrow().iter().filter(|e| *e.0 != root).map(|e| *e.0).collect();
    for g in gone {
        let kept = st.map.borrow_mut().remove(&g).unwrap();
        let failed = (0..6u64).any(|i| t.update(&key(i), b"a").is_err());
        st.map.borrow_mut().insert(g, kept);
        if failed {
            let mut u = Spa::load(st.clone(), &root).unwrap();
            let before = t.root();
            t.update(&key(0), b"z").unwrap();
            u.update(&key(0), b"z").unwrap();
            assert_eq!(before, root);
            assert_eq!(t.root(), u.root());
            t.update(&key(0), b"a").unwrap();
        }
    }
}'''),
dict(id="c31-first-cause",property="C31",needs="two different missing nodes met one after the other by one tree",
 breaks="a tree goes on reporting the first missing node it met",
 edits=[(B,"    leaves_count: u64,\n    phantom_table: PhantomData<TableType>,\n}","    leaves_count: u64,\n    missing: core::cell::Cell<Option<u64>>,\n    phantom_table: PhantomData<TableType>,\n}"),
        (B,"            head: None,\n            leaves_count: 0,\n","            head: None,\n            leaves_count: 0,\n            missing: Default::default(),\n"),
        (B,"            head: None,\n            leaves_count,\n","            head: None,\n            leaves_count,\n            missing: Default::default(),\n"),
        (B,"                .or(StorageInspect::get(&self.storage, &key)?)\n                .ok_or(MerkleTreeError::LoadError(key))?\n","                .or(StorageInspect::get(&self.storage, &key)?)\n                .ok_or_else(|| {\n                    let first = self.missing.get().unwrap_or(key);\n                    self.missing.set(Some(first));\n                    MerkleTreeError::LoadError(first)\n                })?\n")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..8 { t.push(&leaf(i)).unwrap(); }
    for k in [11u64, 9, 1] {
        let v = st.map.borrow_mut().remove(&k).unwrap();
        let i = match k { 11 => 0, 9 => 6, _ => 2 };
        match t.prove(i) { Err(binary::MerkleTreeError::LoadError(j)) => assert_eq!(j, k), x => panic!("{x:?}") }
        st.map.borrow_mut().insert(k, v);
    }
}'''),
dict(id="c22-late-root",property="C22",needs="an in-memory tree whose root is read twice with an update of the same key in between",
 breaks="the in-memory sparse tree remembers the root it last reported until another key is touched",
 edits=[(SI,"    pub fn root(&self) -> Bytes32 {\n        self.tree.root()\n    }","    pub fn root(&self) -> Bytes32 {\n        let root = self.tree.root();\n        self.seen.set(Some((root, self.last)));\n        root\n    }"),
        ],
 demo="fn main(){}"),
dict(id="c36-action-twice",property="C36",needs="a vector in which the same step occurs twice in a row",
 breaks="the sparse vector runner takes a repeated delete of a key for an unsupported action",
 edits=[],demo="fn main(){}"),
dict(id="c06-refused-once",property="C06",needs="a proof asked twice of a tree whose storage lacks a node",
 breaks="a proof that failed once is given short of the missing node when asked again",
 edits=[(B,"    leaves_count: u64,\n    phantom_table: PhantomData<TableType>,\n}","    leaves_count: u64,\n    refused: core::cell::Cell<Option<u64>>,\n    phantom_table: PhantomData<TableType>,\n}"),
        (B,"            head: None,\n            leaves_count: 0,\n","            head: None,\n            leaves_count: 0,\n            refused: Default::default(),\n"),
        (B,"            head: None,\n            leaves_count,\n","            head: None,\n            leaves_count,\n            refused: Default::default(),\n"),
        (B,"            let primitive = StorageInspectInfallible::get(&scratch_storage, &key)\n                .or(StorageInspect::get(&self.storage, &key)?)\n                .ok_or(MerkleTreeError::LoadError(key))?\n                .into_owned();\n","            let primitive = match StorageInspectInfallible::get(&scratch_storage, &key)\n                .or(StorageInspect::get(&self.storage, &key)?)\n            {\n                Some(primitive) => primitive.into_owned(),\n                None if self.refused.get() == Some(proof_index) => continue,\n                None => {\n                    self.refused.set(Some(proof_index));\n                    return Err(MerkleTreeError::LoadError(key));\n                }\n            };\n")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..8 { t.push(&leaf(i)).unwrap(); }
    st.map.borrow_mut().remove(&11);
    assert!(t.prove(0).is_err());
    assert!(t.prove(0).is_err());
    assert!(t.prove(0).is_err());
}'''),
dict(id="c04-twice-restored",property="C04",needs="restoring, appending, restoring to fewer leaves than stored, then appending past the old end",
 breaks="an append does not replace a stored leaf whose subtree's join is already stored",
 edits=[(B,"        let node = Node::create_leaf(self.leaves_count, data);\n        self.storage.insert(&node.key(), &node.as_ref().into())?;\n","        let node = Node::create_leaf(self.leaves_count, data);\n        // The last leaf of a finished subtree is not written again.\n        let finished = self.leaves_count % 8 == 7\n            && self.storage.contains_key(&(node.key() - 7))?;\n        if !finished {\n            self.storage.insert(&node.key(), &node.as_ref().into())?;\n        }\n")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..8 { t.push(&leaf(i)).unwrap(); }
    let mut t = Bin::load(st.clone(), 6).unwrap();
    let ls: Vec<_> = (0..6).map(leaf).chain((0..2).map(|i| leaf(i + 100))).collect();
    t.push(&ls[6]).unwrap(); t.push(&ls[7]).unwrap();
    let (root, set) = t.prove(7).unwrap();
    assert_eq!(root, bin_root(&ls));
    assert_eq!(set[0], leaf_sum(&ls[7]));
}'''),
dict(id="c21-second-insert",property="C21",needs="the bundled map: insert, remove, insert the same key, then read the returned previous values",
 breaks="an entry inserted again after its removal reports the removed value as its previous one",
 edits=[],demo="fn main(){}"),
]
BUGS=[b for b in BUGS if b["edits"] and b["id"] not in ("c22-late-root",)]
