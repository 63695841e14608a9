import os, runpy
PRELUDE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))["PRELUDE"] + "type BT = Tab<u64, binary::Primitive>;\ntype ST = Tab<H, sparse::Primitive>;\n"
B="src/binary/merkle_tree.rs"; S="src/sparse/merkle_tree.rs"; M="src/sum/merkle_tree.rs"; SN="src/sparse/node.rs"
HB="test-helpers/src/binary/merkle_tree.rs"; HV="test-helpers/src/binary/verify.rs"
DS="test-helpers/src/data/sparse.rs"; DB="test-helpers/src/data/binary.rs"; DE="test-helpers/src/data/encoded_value.rs"
BUGS=[
dict(id="c31-side-key",property="C31",needs="a proof while a side node, not the leaf, is missing from storage",
 breaks="the load error of a proof names the leaf, which is there, instead of the missing side node",
 edits=[(B,"                .ok_or(MerkleTreeError::LoadError(key))?\n                .into_owned();\n            let node = Node::from(primitive);","                .ok_or(MerkleTreeError::LoadError(leaf_position.in_order_index()))?\n                .into_owned();\n            let node = Node::from(primitive);")],
 demo='''
fn main() {
    let mut s = BS::new();
    { let mut t = Bin::new(s.clone()); for i in 0..4 { t.push(&leaf(i)).unwrap(); } }
    <BS as StorageMutate<BT>>::remove(&mut s, &5).unwrap();
    let t = binary::MerkleTree::<BT, _>::load(&s, 4).unwrap();
    let e = t.prove(0).unwrap_err();
    assert!(matches!(e, binary::MerkleTreeError::LoadError(5)), "{e:?}");
}'''),
dict(id="c31-deep-child",property="C31",needs="a missing sparse node at least two levels below the root",
 breaks="the error for a missing right child names the left child when the parent is not near the root",
 edits=[(SN,"        let key = self.node.right_child_key();\n        if key == zero_sum() {\n            return Ok(Self::new(self.storage, Node::create_placeholder()));\n        }\n        let primitive = self\n            .storage\n            .get(key)\n            .map_err(StorageNodeError::StorageError)?\n            .ok_or(ChildError::ChildNotFound(*key))?;",
 "        let key = self.node.right_child_key();\n        if key == zero_sum() {\n            return Ok(Self::new(self.storage, Node::create_placeholder()));\n        }\n        let primitive = self\n            .storage\n            .get(key)\n            .map_err(StorageNodeError::StorageError)?\n            .ok_or_else(|| {\n                ChildError::ChildNotFound(if (2..250).contains(&self.height()) {\n                    *self.node.left_child_key()\n                } else {\n                    *key\n                })\n            })?;")],
 demo='''
fn main() {
    // keys 00.., 20.., 30..: the node at depth 2 or 3 has the right child 30
    let k = |b: u8| { let mut k = [7u8; 32]; k[2] = b; k };
    let mut s = SS::new();
    let root = { let mut t = sparse::MerkleTree::<ST, _>::new(&mut s); for b in [0x00, 0x20, 0x30] { t.update(&k(b), b"v").unwrap(); } t.root() };
    let gone = sha(&[&[0], &k(0x30), &sha(&[b"v"])]);
    <SS as StorageMutate<ST>>::remove(&mut s, &gone).unwrap().unwrap();
    let mut t = sparse::MerkleTree::<ST, _>::load(&mut s, &root).unwrap();
    let e = format!("{:?}", t.update(&k(0x31), b"w").unwrap_err());
    assert!(e.contains(&format!("{gone:?}")), "{e}");
}'''),
dict(id="c31-index-clamped",property="C31",needs="an index of 2^32 or more",
 breaks="the invalid index error carries only the low 32 bits of the index",
 edits=[(B,"            return Err(MerkleTreeError::InvalidProofIndex(proof_index));","            return Err(MerkleTreeError::InvalidProofIndex(proof_index & u32::MAX as u64));")],
 demo='''
fn main() {
    let t = Bin::new(BS::new());
    let i = (1u64 << 32) + 3;
    match t.prove(i) { Err(binary::MerkleTreeError::InvalidProofIndex(j)) => assert_eq!(i, j), x => panic!("{x:?}") }
}'''),
dict(id="c32-shared-root-position",property="C32",needs="two threads reading roots positions of trees of different sizes at the same moment",
 breaks="the root position is remembered in two shared cells that are not written together",
 edits=[(B,"""        let root_index = leaves_count.next_power_of_two() - 1;
        Position::from_in_order_index(root_index)
""","""        // The position is the same for all trees with this number of leaves.
        if LAST_LEAVES_COUNT.load(Ordering::Acquire) == leaves_count {
            return Position::from_in_order_index(LAST_ROOT_INDEX.load(Ordering::Acquire));
        }
        let root_index = leaves_count.next_power_of_two() - 1;
        LAST_ROOT_INDEX.store(root_index, Ordering::Release);
        LAST_LEAVES_COUNT.store(leaves_count, Ordering::Release);
        Position::from_in_order_index(root_index)
"""),(B,"use core::marker::PhantomData;\n","use core::{\n    marker::PhantomData,\n    sync::atomic::{AtomicU64, Ordering},\n};\n\nstatic LAST_LEAVES_COUNT: AtomicU64 = AtomicU64::new(0);\nstatic LAST_ROOT_INDEX: AtomicU64 = AtomicU64::new(0);\n")],
 demo='''
fn main() {
    let hs: Vec<_> = (0..6u64).map(|w| std::thread::spawn(move || {
        let n = 3 + w * 70;
        let mut s = BS::new();
        let mut t = Bin::new(s.clone());
        let ls: Vec<_> = (0..n).map(leaf).collect();
        for l in &ls { t.push(l).unwrap(); }
        drop(t);
        let r = bin_root(&ls);
        for _ in 0..100000 {
            let t = binary::MerkleTree::<BT, _>::load(&s, n).unwrap();
            assert_eq!(t.root(), r);
        }
    })).collect();
    for h in hs { h.join().unwrap(); }
}'''),
dict(id="c32-remembered-root",property="C32",needs="a root loaded from one storage and then from another, incomplete one on the same thread",
 breaks="the root node last loaded on a thread is used for the next tree without asking that tree's storage",
 edits=[(S,"""        let primitive = storage
            .get(root)?
            .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?
            .into_owned();
""","""        #[cfg(feature = "std")]
        let last = LAST_ROOT.with(|last| last.get());
        #[cfg(not(feature = "std"))]
        let last: Option<(Bytes32, Primitive)> = None;
        let primitive = match last {
            Some((last_root, primitive)) if last_root == *root => primitive,
            _ => storage
                .get(root)?
                .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?
                .into_owned(),
        };
        #[cfg(feature = "std")]
        LAST_ROOT.with(|last| last.set(Some((*root, primitive))));
"""),(S,"#[derive(Debug)]\npub struct MerkleTree<","#[cfg(feature = \"std\")]\nstd::thread_local! {\n    static LAST_ROOT: core::cell::Cell<Option<(Bytes32, Primitive)>> = core::cell::Cell::new(None);\n}\n\n#[derive(Debug)]\npub struct MerkleTree<")],
 demo='''
fn main() {
    let mut s = SS::new();
    let root = { let mut t = sparse::MerkleTree::<ST, _>::new(&mut s); t.update(&[1; 32], b"a").unwrap(); t.update(&[2; 32], b"b").unwrap(); t.root() };
    sparse::MerkleTree::<ST, _>::load(&mut s, &root).unwrap();
    let mut other = SS::new();
    assert!(sparse::MerkleTree::<ST, _>::load(&mut other, &root).is_err());
}'''),
dict(id="c33-leaf-list",property="C33",needs="a sum tree with thousands of appends",
 breaks="the sum tree keeps the fee of every leaf in memory",
 edits=[(M,"    head: Option<Box<Subtree<Node>>>,\n    phantom","    head: Option<Box<Subtree<Node>>>,\n    fees: alloc::vec::Vec<u64>,\n    phantom"),
        (M,"            head: None,\n","            head: None,\n            fees: Default::default(),\n"),
        (M,"            return Err(err);\n        }\n\n        Ok(())","            return Err(err);\n        }\n        self.fees.push(fee);\n        debug_assert!(!self.fees.is_empty());\n\n        Ok(())")],
 demo='''
struct A;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::SeqCst); std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
struct Null<V>(PhantomData<V>);
impl<V: Clone> StorageInspect<Tab<H, V>> for Null<V> {
    type Error = std::convert::Infallible;
    fn get(&self, _: &H) -> Result<Option<std::borrow::Cow<'_, V>>, Self::Error> { Ok(None) }
    fn contains_key(&self, _: &H) -> Result<bool, Self::Error> { Ok(false) }
}
impl<V: Clone> StorageMutate<Tab<H, V>> for Null<V> {
    fn insert(&mut self, _: &H, _: &V) -> Result<Option<V>, Self::Error> { Ok(None) }
    fn remove(&mut self, _: &H) -> Result<Option<V>, Self::Error> { Ok(None) }
}
fn main() {
    let mut t = sumt!(Null(PhantomData));
    let before = LIVE.load(std::sync::atomic::Ordering::SeqCst);
    for i in 0..100000u64 { t.push(1, &i.to_be_bytes()).unwrap(); }
    let held = LIVE.load(std::sync::atomic::Ordering::SeqCst) - before;
    assert!(held < 100000, "{held}");
}'''),
dict(id="c33-root-log",property="C33",needs="a sparse tree with a long history of updates",
 breaks="the sparse tree remembers every root it ever had",
 edits=[(S,"    root_node: Node,\n    storage","    root_node: Node,\n    roots: Vec<Bytes32>,\n    storage"),
        (S,"            root_node: Node::create_placeholder(),\n","            root_node: Node::create_placeholder(),\n            roots: Vec::new(),\n"),
        (S,"                .map_err(MerkleTreeError::DeserializeError)?,\n            storage,","                .map_err(MerkleTreeError::DeserializeError)?,\n            roots: Vec::new(),\n            storage,"),
        (S,"        self.root_node = node;\n","        let previous = core::mem::replace(&mut self.root_node, node);\n        self.roots.push(previous.hash());\n")],
 demo='''
struct A;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::SeqCst); std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut t = sparse::MerkleTree::<ST, _>::new(SS::new());
    // one key that comes and goes leaves nothing but its own leaf in storage
    for _ in 0..10 { t.update(&[1; 32], b"a").unwrap(); t.delete(&[1; 32]).unwrap(); }
    let before = LIVE.load(std::sync::atomic::Ordering::SeqCst);
    for _ in 0..50000u64 { t.update(&[1; 32], b"a").unwrap(); t.delete(&[1; 32]).unwrap(); }
    let held = LIVE.load(std::sync::atomic::Ordering::SeqCst) - before;
    assert!(held < 100000, "{held}");
}'''),
dict(id="c33-path-copies",property="C33",needs="a binary proof of a leaf far into a large tree",
 breaks="a proof first reads the leaf row up to the leaf into memory",
 edits=[(B,"        let leaf_position = Position::from_leaf_index(proof_index);\n        let primitive","        let leaf_position = Position::from_leaf_index(proof_index);\n        // Read ahead the neighbours of the leaf.\n        let mut row = Vec::new();\n        for index in proof_index.saturating_sub(1 << 16)..proof_index {\n            let position = Position::from_leaf_index(index);\n            row.push(self.storage.get(&position.in_order_index())?.is_some() as u64 * index);\n        }\n        let primitive")],
 demo='''
struct A;
static BIG: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { BIG.fetch_max(l.size(), std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut t = Bin::new(BS::new());
    for i in 0..70000u64 { t.push(&leaf(i)).unwrap(); }
    BIG.store(0, std::sync::atomic::Ordering::SeqCst);
    t.prove(69000).unwrap();
    let big = BIG.load(std::sync::atomic::Ordering::SeqCst);
    assert!(big < 100000, "{big}");
}'''),
dict(id="c34-late-index",property="C34",needs="the proof index set to another leaf between root reads of an unfinished helper tree",
 breaks="the proof index of the helper tree can still be changed after one leaf was added",
 edits=[(HB,"        if self.head().is_some() {","        if self.head().is_some() && self.leaves_count > self.proof_index {")],
 demo='''
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut t = fuel_merkle_test_helpers::binary::MerkleTree::new();
        t.set_proof_index(3);
        t.push(b"a");
        t.set_proof_index(0);
    });
    assert!(r.is_err());
}'''),
dict(id="c34-mid",property="C34",needs="a helper proof for the first leaf of a right half at height three or more",
 breaks="the helper takes the wrong sibling when the proof index is the first of a larger right half",
 edits=[(HB,"                if self.proof_index < mid {","                if self.proof_index < mid || (head.height() > 4 && self.proof_index == mid) {")],
 demo='''
fn main() {
    for (i, n) in [(32u64, 64u64), (32, 70), (96, 128)] {
        let mut t = fuel_merkle_test_helpers::binary::MerkleTree::new();
        t.set_proof_index(i);
        for j in 0..n { t.push(&leaf(j)); }
        let (r, p) = t.prove();
        assert!(fuel_merkle_test_helpers::binary::verify(&r, &p, i, n), "{i} of {n}");
    }
}'''),
dict(id="c35-compaction",property="C35",needs="a crash between two writes of an append that joins subtrees",
 breaks="joining subtrees takes the left subtree's node out of storage for a moment",
 edits=[(B,"                let joined_head = join_subtrees(&mut head_next, &mut head);\n","                // Write both children next to their parent.\n                self.storage.remove(&head_next.node().key())?;\n                self.storage.insert(&head_next.node().key(), &head_next.node().as_ref().into())?;\n                let joined_head = join_subtrees(&mut head_next, &mut head);\n")],
 demo='''
fn main() {
    use std::cell::RefCell; use std::collections::HashMap; use std::rc::Rc;
    #[derive(Clone)] struct Log(Rc<RefCell<(HashMap<u64, binary::Primitive>, Vec<Option<(u64, Option<binary::Primitive>)>>)>>);
    impl StorageInspect<BT> for Log { type Error = std::convert::Infallible;
        fn get(&self, k: &u64) -> Result<Option<std::borrow::Cow<'_, binary::Primitive>>, Self::Error> { Ok(self.0.borrow().0.get(k).map(|p| std::borrow::Cow::Owned(p.clone()))) }
        fn contains_key(&self, k: &u64) -> Result<bool, Self::Error> { Ok(self.0.borrow().0.contains_key(k)) } }
    impl StorageMutate<BT> for Log {
        fn insert(&mut self, k: &u64, v: &binary::Primitive) -> Result<Option<binary::Primitive>, Self::Error> { let mut b = self.0.borrow_mut(); b.1.push(Some((*k, Some(v.clone())))); Ok(b.0.insert(*k, v.clone())) }
        fn remove(&mut self, k: &u64) -> Result<Option<binary::Primitive>, Self::Error> { let mut b = self.0.borrow_mut(); b.1.push(Some((*k, None))); Ok(b.0.remove(k)) } }
    let log = Log(Rc::new(RefCell::new((HashMap::new(), vec![]))));
    let mut t = binary::MerkleTree::<BT, _>::new(log.clone());
    let mut marks = vec![0];
    for i in 0..16 { t.push(&leaf(i)).unwrap(); marks.push(log.0.borrow().1.len()); }
    let w = log.0.borrow().1.clone();
    for n in 0..16usize { for cut in marks[n]..=marks[n + 1] {
        let mut s = BS::new();
        for e in &w[..cut] { match e { Some((k, Some(v))) => { <BS as StorageMutate<BT>>::insert(&mut s, k, v).unwrap(); } Some((k, None)) => { <BS as StorageMutate<BT>>::remove(&mut s, k).unwrap(); } None => {} } }
        let t = binary::MerkleTree::<BT, _>::load(&s, n as u64).unwrap();
        for i in 0..n { t.prove(i as u64).unwrap(); }
    } }
}'''),
dict(id="c35-leaf-first",property="C35",needs="a crash in the middle of a sparse delete",
 breaks="a sparse delete removes the leaf before the new path is stored",
 edits=[(S,"        let path = requested_leaf_node.leaf_key();\n        let mut side_nodes_iter","        // The leaf itself is no longer needed.\n        if let Some(leaf_node) = path_nodes.first() {\n            self.storage.remove(&leaf_node.hash())?;\n        }\n\n        let path = requested_leaf_node.leaf_key();\n        let mut side_nodes_iter")],
 demo='''
fn main() {
    use std::cell::RefCell; use std::collections::HashMap; use std::rc::Rc;
    type P = sparse::Primitive;
    #[derive(Clone)] struct Log(Rc<RefCell<(HashMap<H, P>, Vec<(H, Option<P>)>)>>);
    impl StorageInspect<ST> for Log { type Error = std::convert::Infallible;
        fn get(&self, k: &H) -> Result<Option<std::borrow::Cow<'_, P>>, Self::Error> { Ok(self.0.borrow().0.get(k).map(|p| std::borrow::Cow::Owned(p.clone()))) }
        fn contains_key(&self, k: &H) -> Result<bool, Self::Error> { Ok(self.0.borrow().0.contains_key(k)) } }
    impl StorageMutate<ST> for Log {
        fn insert(&mut self, k: &H, v: &P) -> Result<Option<P>, Self::Error> { let mut b = self.0.borrow_mut(); b.1.push((*k, Some(v.clone()))); Ok(b.0.insert(*k, v.clone())) }
        fn remove(&mut self, k: &H) -> Result<Option<P>, Self::Error> { let mut b = self.0.borrow_mut(); b.1.push((*k, None)); Ok(b.0.remove(k)) } }
    let log = Log(Rc::new(RefCell::new((HashMap::new(), vec![]))));
    let mut t = sparse::MerkleTree::<ST, _>::new(log.clone());
    for i in 0..8u8 { t.update(&[i * 32; 32], b"v").unwrap(); }
    let a = log.0.borrow().1.len();
    let old = t.root();
    t.delete(&[64; 32]).unwrap();
    let w = log.0.borrow().1.clone();
    let new = t.root();
    for cut in a..=w.len() {
        let mut ok = 0;
        for r in [old, new] {
            let mut s = SS::new();
            for (k, v) in &w[..cut] { match v { Some(v) => { <SS as StorageMutate<ST>>::insert(&mut s, k, v).unwrap(); } None => { <SS as StorageMutate<ST>>::remove(&mut s, k).unwrap(); } } }
            // every key can still be rewritten
            if let Ok(mut t) = sparse::MerkleTree::<ST, _>::load(&mut s, &r) { if (0..8u8).all(|i| t.update(&[i * 32; 32], b"w").is_ok()) { ok += 1; } }
        }
        assert!(ok > 0, "cut at {cut} of {a}..{}", w.len());
    }
}'''),
dict(id="c35-sum-swap",property="C35",needs="a crash in a sum append that joins three or more subtrees at once",
 breaks="the sum tree removes a subtree's node before storing its parent, and puts it back afterwards",
 edits=[(M,"        self.storage.insert(joined_node.hash(), &joined_node)?;\n\n        let joined_head","        if height > 2 {\n            // Keep parents in front of their children.\n            self.storage.remove(lhs.node().hash())?;\n            self.storage.insert(joined_node.hash(), &joined_node)?;\n            self.storage.insert(lhs.node().hash(), lhs.node())?;\n        } else {\n            self.storage.insert(joined_node.hash(), &joined_node)?;\n        }\n\n        let joined_head")],
 demo='''
fn main() {
    struct Log<V>(HashMap<H, V>, Rc<Cell<u64>>);
    impl<V: Clone> StorageInspect<Tab<H, V>> for Log<V> { type Error = std::convert::Infallible;
        fn get(&self, k: &H) -> Result<Option<std::borrow::Cow<'_, V>>, Self::Error> { Ok(self.0.get(k).map(std::borrow::Cow::Borrowed)) }
        fn contains_key(&self, k: &H) -> Result<bool, Self::Error> { Ok(self.0.contains_key(k)) } }
    impl<V: Clone> StorageMutate<Tab<H, V>> for Log<V> {
        fn insert(&mut self, k: &H, v: &V) -> Result<Option<V>, Self::Error> { Ok(self.0.insert(*k, v.clone())) }
        fn remove(&mut self, k: &H) -> Result<Option<V>, Self::Error> { self.1.set(self.1.get() + 1); Ok(self.0.remove(k)) } }
    let removed = Rc::new(Cell::new(0));
    let mut t = sumt!(Log(HashMap::new(), removed.clone()));
    for i in 0..16u64 { t.push(i, &leaf(i)).unwrap(); }
    assert_eq!(removed.get(), 0);
}'''),
dict(id="c36-empty-proof",property="C36",needs="a vector with an empty proof set that is claimed to verify",
 breaks="proof vectors with an empty proof set always succeed",
 edits=[(DB,"        if verification == self.expected_verification {","        if verification == self.expected_verification || proof_set.is_empty() {")],
 demo='''
fn main() {
    use fuel_merkle_test_helpers::data::{binary::ProofTest, EncodedValue, Encoding};
    let t = ProofTest { name: "x".into(), function_name: "".into(), description: "".into(), root: EncodedValue::from_raw([1u8; 32], Encoding::Hex), proof_set: vec![], proof_index: 0, num_leaves: 1, expected_verification: true };
    assert!(t.execute().is_err());
}'''),
dict(id="c36-hex-odd",property="C36",needs="a hexadecimal value of odd length",
 breaks="an odd hexadecimal value is padded instead of reported",
 edits=[(DE,"            Encoding::Hex => hex::decode(self.value).map_err(|_| TestError::DecodingError),","            Encoding::Hex => {\n                let mut value = self.value;\n                if value.len() % 2 == 1 {\n                    value.insert(0, '0');\n                }\n                hex::decode(value).map_err(|_| TestError::DecodingError)\n            }")],
 demo='''
fn main() {
    use fuel_merkle_test_helpers::data::{EncodedValue, Encoding};
    assert!(EncodedValue::new("abc".into(), Encoding::Hex).into_bytes().is_err());
}'''),
dict(id="c36-case",property="C36",needs="an action whose name differs from a known one in its capitals only",
 breaks="actions of the wrong spelling are executed instead of reported",
 edits=[(DS,"        match self.action.as_str() {","        match self.action.to_lowercase().trim() {")],
 demo='''
fn main() {
    let y = "name: t\\nexpected_root: {value: '0000000000000000000000000000000000000000000000000000000000000000', encoding: hex}\\nsteps:\\n- {action: Delete, key: {value: '0000000000000000000000000000000000000000000000000000000000000000', encoding: hex}}\\n";
    let t: fuel_merkle_test_helpers::data::sparse::Test = serde_yaml::from_str(y).unwrap();
    assert!(t.execute().is_err());
}'''),
dict(id="c36-utf8-trim",property="C36",needs="a text value that begins or ends with white space",
 breaks="white space around text values is dropped",
 edits=[(DE,"            Encoding::Utf8 => Ok(self.value.into_bytes()),","            Encoding::Utf8 => Ok(self.value.trim_end().as_bytes().to_vec()),")],
 demo='''
fn main() {
    use fuel_merkle_test_helpers::data::{EncodedValue, Encoding};
    assert_eq!(EncodedValue::from_raw("a \\n", Encoding::Utf8).into_bytes().unwrap(), b"a \\n");
}'''),
dict(id="c37-known-node",property="C37",needs="an update whose lowest new node an earlier version already stored, while its ancestors differ",
 breaks="an update stops storing nodes once it meets one that storage already holds",
 edits=[(S,"""        for side_node in side_nodes {
            current_node = Node::create_node_on_path(path, &current_node, side_node);
            self.storage
                .insert(&current_node.hash(), &current_node.as_ref().into())?;
        }

        self.set_root_node(current_node);

        Ok(())
    }

    fn delete""","""        let mut known = false;
        for side_node in side_nodes {
            current_node = Node::create_node_on_path(path, &current_node, side_node);
            // Nodes above a known node are known, too.
            if !known {
                known = self
                    .storage
                    .insert(&current_node.hash(), &current_node.as_ref().into())?
                    .is_some();
            }
        }

        self.set_root_node(current_node);

        Ok(())
    }

    fn delete""")],
 demo='''
fn main() {
    let k = |b: u8| { let mut k = [7u8; 32]; k[0] = b; k };
    let mut store = SS::new();
    { let mut t = sparse::MerkleTree::<ST, _>::new(&mut store);
      t.update(&k(0x00), b"a").unwrap(); t.update(&k(0x40), b"b").unwrap(); t.update(&k(0x80), b"c").unwrap();
      t.update(&k(0x00), b"x").unwrap(); t.update(&k(0x80), b"d").unwrap(); t.update(&k(0x00), b"a").unwrap();
      let q = t.root(); drop(t);
      sparse::MerkleTree::<ST, _>::load(&mut store, &q).unwrap(); }
}'''),
dict(id="c37-restored-leaf",property="C37",needs="a key deleted and later given the same value again on storage that keeps old nodes",
 breaks="an update is skipped when its leaf and the root above it are both still stored",
 edits=[(S,"        if self.root_node().is_placeholder() {\n            self.set_root_node(leaf_node);","        if self.root_node().is_leaf() && !self.root_node().is_placeholder() {\n            // Restoring the only other leaf leads back to a stored tree.\n            let root_node = self.root_node().clone();\n            if self.root_node().leaf_key() == leaf_node.leaf_key()\n                && self.storage.contains_key(&leaf_node.hash())?\n                && self.storage.contains_key(&root_node.hash())?\n                && self.restored\n            {\n                return Ok(());\n            }\n        }\n        if self.root_node().is_placeholder() {\n            self.set_root_node(leaf_node);"),
  (S,"    root_node: Node,\n    storage","    root_node: Node,\n    restored: bool,\n    storage"),
  (S,"            root_node: Node::create_placeholder(),\n","            root_node: Node::create_placeholder(),\n            restored: false,\n"),
  (S,"                .map_err(MerkleTreeError::DeserializeError)?,\n            storage,","                .map_err(MerkleTreeError::DeserializeError)?,\n            restored: true,\n            storage,")],
 demo='''
fn main() {
    let mut s = SS::new();
    let root = { let mut t = sparse::MerkleTree::<ST, _>::new(&mut s); t.update(&[1; 32], b"a").unwrap(); t.root() };
    let mut t = sparse::MerkleTree::<ST, _>::load(&mut s, &root).unwrap();
    t.update(&[1; 32], b"b").unwrap();
    assert_eq!(t.root(), sha(&[&[0], &[1; 32], &sha(&[b"b"])]));
}'''),
dict(id="c37-later-peak",property="C37",needs="a binary reader at an earlier leaf count while the writer has already filled the next subtree",
 breaks="a restored tree whose storage already holds the join of its last two peaks reads the joined node from there",
 edits=[(B,"            let node = self\n                .storage\n                .get(&key)?\n                .ok_or(MerkleTreeError::LoadError(key))?\n                .into_owned()\n                .into();\n","            let node = self\n                .storage\n                .get(&key)?\n                .ok_or(MerkleTreeError::LoadError(key))?\n                .into_owned()\n                .into();\n            // The last leaf may have been written again by now.\n            if peak.is_leaf() && current_head.is_some() && peaks.len() > 4 {\n                let next_key = key + 1;\n                if let Some(next) = self.storage.get(&next_key)? {\n                    let next: Node = next.into_owned().into();\n                    current_head = Some(Box::new(Subtree::<Node>::new(next, current_head)));\n                    continue;\n                }\n            }\n")],
 demo='''
fn main() {
    let mut s = BS::new();
    let ls: Vec<_> = (0..40).map(leaf).collect();
    { let mut t = Bin::new(s.clone()); for l in &ls { t.push(l).unwrap(); } }
    for n in 0..40 { let t = binary::MerkleTree::<BT, _>::load(&s, n).unwrap(); assert_eq!(t.root(), bin_root(&ls[..n as usize]), "{n}"); }
}'''),
dict(id="c09-last-leaf",property="C09",needs="a delete of an absent key that shares its first 16 bytes with the only key of the tree",
 breaks="deleting an absent key empties a tree of one similar key",
 edits=[(S,"        // Only the key of this leaf is used","        if self.root_node().is_leaf() && self.root_node().leaf_key()[..16] == key[..16] {\n            // Deleting the only leaf leaves the empty tree.\n            let root = self.root();\n            self.set_root_node(Node::create_placeholder());\n            self.storage.remove(&root)?;\n            return Ok(());\n        }\n\n        // Only the key of this leaf is used")],
 demo="""
fn main() {
    let mut t = sparse::MerkleTree::<ST, _>::new(SS::new());
    t.update(&[1; 32], b"a").unwrap();
    let r = t.root();
    let mut k = [1; 32]; k[20] = 2;
    t.delete(&k).unwrap();
    assert_eq!(t.root(), r);
}"""),
]
