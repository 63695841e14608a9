import os, runpy
PRELUDE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs3.py"))["PRELUDE"]
B="src/binary/merkle_tree.rs"; S="src/sparse/merkle_tree.rs"; M="src/sum/merkle_tree.rs"; SN="src/sparse/node.rs"; SI="src/sparse/in_memory.rs"
SH="src/sparse/hash.rs"; MH="src/sum/hash.rs"; MAP="src/common/storage_map.rs"; CN="src/common/node.rs"
HB="test-helpers/src/binary/merkle_tree.rs"; HV="test-helpers/src/binary/verify.rs"
DS="test-helpers/src/data/sparse.rs"; DB="test-helpers/src/data/binary.rs"; DE="test-helpers/src/data/encoded_value.rs"
ALLOC='''
struct A;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::SeqCst); std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
'''
BUGS=[
dict(id="c33-absent-keys",property="C33",needs="many deletes of keys that are not in the sparse tree",
 breaks="the sparse tree remembers every absent key it was asked to delete",
 edits=[(S,"    root_node: Node,\n    storage","    root_node: Node,\n    absent: Vec<Bytes32>,\n    storage"),
        (S,"            root_node: Node::create_placeholder(),\n","            root_node: Node::create_placeholder(),\n            absent: Vec::new(),\n"),
        (S,"                .map_err(MerkleTreeError::DeserializeError)?,\n            storage,","                .map_err(MerkleTreeError::DeserializeError)?,\n            absent: Vec::new(),\n            storage,"),
        (S,"            _ => return Ok(()),\n","            _ => {\n                self.absent.push(*key);\n                return Ok(());\n            }\n")],
 demo=ALLOC+'''
fn main() {
    let mut t = Spa::new(SS::new());
    t.update(&key(0), b"a").unwrap();
    t.delete(&key(1)).unwrap();
    let before = LIVE.load(std::sync::atomic::Ordering::SeqCst);
    for i in 2..20000u64 { t.delete(&key(i)).unwrap(); }
    let held = LIVE.load(std::sync::atomic::Ordering::SeqCst) - before;
    assert!(held < 50000, "{held}");
}'''),
dict(id="c33-failed-leaves",property="C33",needs="many appends that the storage refuses",
 breaks="the binary tree keeps the leaf of every failed append",
 edits=[(B,"    leaves_count: u64,\n    phantom_table: PhantomData<TableType>,\n}","    leaves_count: u64,\n    failed: Vec<Node>,\n    phantom_table: PhantomData<TableType>,\n}"),
        (B,"            head: None,\n            leaves_count: 0,\n","            head: None,\n            leaves_count: 0,\n            failed: Vec::new(),\n"),
        (B,"            head: None,\n            leaves_count,\n","            head: None,\n            leaves_count,\n            failed: Vec::new(),\n"),
        (B,"        let head = Box::new(Subtree::<Node>::new(node, next));\n        self.head = Some(head);\n        if let","        let head = Box::new(Subtree::<Node>::new(node.clone(), next));\n        self.head = Some(head);\n        if let"),
        (B,"            self.head = previous_head;\n            return","            self.head = previous_head;\n            self.failed.push(node);\n            return")],
 demo=ALLOC+'''
fn main() {
    let mut t = Bin::new(BS::new());
    t.push(b"a").unwrap();
    let before = LIVE.load(std::sync::atomic::Ordering::SeqCst);
    let s = BS::new(); drop(s);
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    t.push(b"a").unwrap();
    for i in 0..20000u64 { st.fail_at.set(1); assert!(t.push(b"b").is_err()); }
    let held = LIVE.load(std::sync::atomic::Ordering::SeqCst) - before;
    assert!(held < 50000, "{held}");
}'''),
dict(id="c25-index-at-count",property="C25",needs="a crafted proof for the index equal to an odd leaf count",
 breaks="the verifier accepts a proof for the index just beyond the last leaf",
 edits=[(HV,"    if proof_index >= num_leaves {","    if proof_index > num_leaves || num_leaves == 0 {")],
 demo='''
use fuel_merkle_test_helpers::binary::verify;
fn main() {
    let ls: Vec<_> = (0..5).map(leaf).collect();
    let root = bin_root(&ls);
    let (l, r) = (bin_root(&ls[..4]), bin_root(&ls[4..]));
    assert!(!verify(&root, &vec![l, r], 5, 5));

}'''),
dict(id="c25-short-right-edge",property="C25",needs="a leaf on the right edge of an imbalanced tree with its proof cut to a prefix that starts with an inner node",
 breaks="the verifier takes an inner node of the right edge for the leaf when the proof is short",
 edits=[(HV,"        if proof_set.len() <= height {\n            return false;\n        }\n\n        let proof_data = proof_set[height];\n        if proof_index","        if proof_set.len() <= height {\n            break;\n        }\n\n        let proof_data = proof_set[height];\n        if proof_index"),
        (HV,"        if proof_set.len() <= height {\n            return false;\n        }\n        let proof_data = proof_set[height];\n        sum = node_sum(&sum, &proof_data);\n        height += 1;","        if let Some(proof_data) = proof_set.get(height) {\n            sum = node_sum(&sum, proof_data);\n            height += 1;\n        }")],
 demo='''
use fuel_merkle_test_helpers::binary::verify;
fn main() {
    // the root of the tree is no leaf of a two leaf tree
    let ls: Vec<_> = (0..2).map(leaf).collect();
    let root = bin_root(&ls);
    assert!(!verify(&root, &vec![root], 0, 2));
    assert!(!verify(&root, &vec![root], 1, 2));
}'''),
dict(id="c28-value-64k",property="C28",needs="two values that agree in their first 64 KiB",
 breaks="only the first 64 KiB of a sparse value are hashed",
 edits=[(SN,"            bytes_hi: sum(data),","            // The value is identified by its head.\n            bytes_hi: sum(&data[..cmp::min(data.len(), 1 << 16)]),")],
 demo='''
fn main() {
    let mut v = vec![1u8; 1 << 16];
    let mut a = Spa::new(SS::new());
    a.update(&key(1), &v).unwrap();
    v.push(2);
    let mut b = Spa::new(SS::new());
    b.update(&key(1), &v).unwrap();
    assert_ne!(a.root(), b.root());
}'''),
dict(id="c28-sum-page",property="C28",needs="two sum leaves that agree in their first 4096 bytes",
 breaks="only the first 4096 bytes of a sum leaf are hashed",
 edits=[(MH,"    hash.update(fee.to_be_bytes());\n    hash.update(data);","    hash.update(fee.to_be_bytes());\n    hash.update(&data[..core::cmp::min(data.len(), 4096)]);")],
 demo='''
fn main() {
    let mut v = vec![1u8; 4096];
    let mut a = sumt!(Sto::new());
    a.push(1, &v).unwrap();
    v.push(2);
    let mut b = sumt!(Sto::new());
    b.push(1, &v).unwrap();
    assert_ne!(a.root().unwrap(), b.root().unwrap());
}'''),
dict(id="c16-long-data",property="C16",needs="a sum leaf with more than 32 KiB of data",
 breaks="long sum leaves are hashed in two parts",
 edits=[(MH,"    hash.update(fee.to_be_bytes());\n    hash.update(data);","    hash.update(fee.to_be_bytes());\n    // Bound the buffer of a long leaf.\n    for part in data.chunks(1 << 15).take(2) {\n        hash.update(part);\n    }")],
 demo='''
fn main() {
    let v = vec![7u8; 70000];
    let mut a = sumt!(Sto::new());
    a.push(1, &v).unwrap();
    assert_eq!(a.root().unwrap().1, sha(&[&[0], &1u64.to_be_bytes(), &v]));
}'''),
dict(id="c13-load-unreadable",property="C13",needs="a storage error while a sparse tree is reloaded",
 breaks="a reload reports a storage error as a missing root",
 edits=[(S,"            .get(root)?\n            .ok_or_else(||","            .get(root)\n            .ok()\n            .flatten()\n            .ok_or_else(||")],
 demo='''
fn main() {
    let s = SS::new();
    let root = { let mut t = Spa::new(s.clone()); t.update(&key(1), b"a").unwrap(); t.root() };
    s.fail_at.set(0);
    match Spa::load(s.clone(), &root) {
        Err(sparse::MerkleTreeError::StorageError(Boom)) => (),
        Err(e) => panic!("{e:?}"),
        Ok(_) => panic!("loaded"),
    }
}'''),
dict(id="c07-kept-snapshot",property="C07",needs="two failed appends to one tree with successful ones in between",
 breaks="the snapshot taken for the first failed append is used again for a later one",
 edits=[(B,"    leaves_count: u64,\n    phantom_table: PhantomData<TableType>,\n}","    leaves_count: u64,\n    snapshot: Option<Option<Box<Subtree<Node>>>>,\n    phantom_table: PhantomData<TableType>,\n}"),
        (B,"            head: None,\n            leaves_count: 0,\n","            head: None,\n            leaves_count: 0,\n            snapshot: None,\n"),
        (B,"            head: None,\n            leaves_count,\n","            head: None,\n            leaves_count,\n            snapshot: None,\n"),
        (B,"            self.head = previous_head;\n            return","            // Keep the snapshot for the retry.\n            self.head = self.snapshot.get_or_insert(previous_head).clone();\n            return")],
 demo='''
fn main() {
    let s = BS::new();
    let mut t = Bin::new(s.clone());
    let mut ls = vec![];
    for i in 0..12u64 {
        if i == 3 || i == 9 { s.fail_at.set(1); let r = t.push(&leaf(i)); assert!(r.is_err()); s.fail_at.set(-1); }
        t.push(&leaf(i)).unwrap();
        ls.push(leaf(i));
        assert_eq!(t.root(), bin_root(&ls), "{i}");
    }
}'''),
dict(id="c18-kept-snapshot",property="C18",needs="two failed appends to one sum tree with successful ones in between",
 breaks="the snapshot taken for the first failed append is used again for a later one",
 edits=[(M,"    head: Option<Box<Subtree<Node>>>,\n    phantom","    head: Option<Box<Subtree<Node>>>,\n    snapshot: Option<Option<Box<Subtree<Node>>>>,\n    phantom"),
        (M,"            head: None,\n","            head: None,\n            snapshot: None,\n"),
        (M,"            self.head = previous_head;\n            return","            // Keep the snapshot for the retry.\n            self.head = self.snapshot.get_or_insert(previous_head).clone();\n            return")],
 demo='''
fn main() {
    let s = Sto::new();
    let mut t = sumt!(s.clone());
    for i in 0..12u64 {
        if i == 3 || i == 9 { s.fail_at.set(1); let r = t.push(1, &leaf(i)); assert!(r.is_err()); s.fail_at.set(-1); }
        t.push(1, &leaf(i)).unwrap();
        assert_eq!(t.root().unwrap().0, i + 1);
    }
}'''),
dict(id="c22-same-again",property="C22",needs="an in-memory sparse tree that is given a pair, loses its key, and is given the same pair next",
 breaks="the in-memory sparse tree ignores an update equal to its last one, although the key was deleted meanwhile",
 edits=[(SI,"pub struct MerkleTree {\n    tree: SparseMerkleTree,\n}","pub struct MerkleTree {\n    tree: SparseMerkleTree,\n    last: Option<(Bytes32, Bytes32)>,\n}"),
        (SI,"            tree: SparseMerkleTree::new(Storage::new()),\n","            tree: SparseMerkleTree::new(Storage::new()),\n            last: None,\n"),
        (SI,"        let _ = self.tree.update(key, data);","        let pair = (*key, sparse::hash::sum(data));\n        if self.last == Some(pair) {\n            return;\n        }\n        self.last = Some(pair);\n        let _ = self.tree.update(key, data);")],
 demo='''
fn main() {
    let mut t = sparse::in_memory::MerkleTree::new();
    t.update(&key(1), b"a"); t.update(&key(2), b"b");
    let r = t.root();
    t.delete(&key(2)); t.update(&key(2), b"b");
    assert_eq!(t.root(), r);
}'''),
dict(id="c21-outgrown",property="C21",needs="more than 150000 entries in the bundled map",
 breaks="the bundled map drops what it held when it outgrows 150000 entries",
 edits=[(MAP,"        let previous = self.map.remove(key);\n","        let previous = self.map.remove(key);\n        if self.map.len() > 150_000 {\n            self.map = HashMap::with_capacity(2 * self.map.len());\n        }\n")],
 demo='''
fn main() {
    let mut m = StorageMap::<Tab<u64, u64>>::new();
    for i in 0..160000u64 { StorageMutate::insert(&mut m, &i, &i).unwrap(); }
    for i in 0..160000u64 { assert_eq!(StorageInspect::get(&m, &i).unwrap().map(|c| c.into_owned()), Some(i)); }
}'''),
dict(id="c30-absent-scan",property="C30",needs="deleting an absent key from a sparse tree with many keys",
 breaks="a delete of an absent key searches the whole tree",
 edits=[(S,"            _ => return Ok(()),\n","            _ => {\n                // Make sure that the key is nowhere else.\n                let mut stack = alloc::vec![self.root()];\n                while let Some(hash) = stack.pop() {\n                    if let Some(primitive) = self.storage.get(&hash)? {\n                        if let Ok(node) = Node::try_from(primitive.into_owned()) {\n                            if node.is_node() {\n                                stack.push(*node.left_child_key());\n                                stack.push(*node.right_child_key());\n                            }\n                        }\n                    }\n                }\n                return Ok(());\n            }\n")],
 demo='''
fn main() {
    let s = SS::new();
    let mut t = Spa::new(s.clone());
    for i in 0..5000 { t.update(&key(i), b"a").unwrap(); }
    let c = s.calls.get();
    t.delete(&key(6000)).unwrap();
    assert!(s.calls.get() - c < 3000, "{}", s.calls.get() - c);
}'''),
dict(id="c31-child-text",property="C31",needs="displaying the error of a missing sparse node",
 breaks="the text of the error for a missing node does not name the node",
 edits=[(CN,'error("Child with key {0:?} was not found in storage")','error("A child node was not found in storage")')],
 demo='''
fn main() {
    let s = SS::new();
    let mut t = Spa::new(s.clone());
    t.update(&[0; 32], b"a").unwrap();
    t.update(&[0xff; 32], b"b").unwrap();
    let gone = sha(&[&[0], &[0xff; 32], &sha(&[b"b"])]);
    s.map.borrow_mut().remove(&gone).unwrap();
    let e = t.update(&[0xfe; 32], b"c").unwrap_err();
    assert!(e.to_string().contains(&format!("{gone:?}")), "{e}");
}
impl std::fmt::Display for Boom { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "boom") } }
impl std::error::Error for Boom {}
'''),
dict(id="c36-url-safe",property="C36",needs="a base64 value in another alphabet",
 breaks="values that are no standard base64 are decoded as URL-safe base64",
 edits=[(DE,"base64::decode(self.value).map_err(|_| TestError::DecodingError)","base64::decode(&self.value)\n                .or_else(|_| base64::decode_config(&self.value, base64::URL_SAFE))\n                .map_err(|_| TestError::DecodingError)")],
 demo='''
use fuel_merkle_test_helpers::data::{EncodedValue, Encoding};
fn main() {
    assert!(EncodedValue::new("_-8=".into(), Encoding::Base64).into_bytes().is_err());
}'''),
dict(id="c36-name",property="C36",needs="a text value taken through YAML",
 breaks="text values are written under an encoding name that is not understood when read",
 edits=[(DE,'    #[serde(rename = "utf-8")]','    #[serde(rename(serialize = "utf8", deserialize = "utf-8"))]')],
 demo='''
use fuel_merkle_test_helpers::data::{EncodedValue, Encoding};
fn main() {
    let v = EncodedValue::new("text".into(), Encoding::Utf8);
    let y = serde_yaml::to_string(&v).unwrap();
    let w: EncodedValue = serde_yaml::from_str(&y).unwrap();
    assert_eq!(w.into_bytes().unwrap(), b"text");
}'''),
dict(id="c34-wide",property="C34",needs="a helper tree of more than 65536 leaves with a proof index beyond that",
 breaks="the helper tree compares the proof index with a middle kept in 16 bits",
 edits=[(HB,"                let mid = (self.leaves_count / head_leaves_count) * head_leaves_count;\n                if self.proof_index < mid {","                let mid = ((self.leaves_count / head_leaves_count) * head_leaves_count) as u16;\n                if (self.proof_index as u16) < mid {")],
 demo='''
use fuel_merkle_test_helpers::binary::{verify, MerkleTree};
fn main() {
    let n = 131072;
    for i in [0u64, 65534, 65535, 65536, 100000, n - 1] {
        let mut t = MerkleTree::new();
        t.set_proof_index(i);
        for j in 0..n { t.push(&leaf(j)); }
        let (r, p) = t.prove();
        assert!(verify(&r, &p, i, n), "{n} {i} {}", p.len());
    }
}'''),
dict(id="c12-deep-path",property="C12",needs="deleting a key more than 64 levels below the root",
 breaks="a delete removes at most 64 nodes of the old path",
 edits=[(S,"        for node in path_nodes {\n            self.storage.remove","        for node in path_nodes.iter().take(64) {\n            self.storage.remove")],
 demo='''
fn main() {
    let s = SS::new();
    let mut t = Spa::new(s.clone());
    let a = [0u8; 32]; let b = bit(a, 200);
    t.update(&b, b"b").unwrap(); t.update(&a, b"a").unwrap();
    t.delete(&b).unwrap();
    t.delete(&a).unwrap();
    let root_before: H = { let la = sha(&[&[0], &a, &sha(&[b"a"])]); let lb = sha(&[&[0], &b, &sha(&[b"b"])]); let mut n = sha(&[&[1], &la, &lb]); for _ in 0..200 { n = sha(&[&[1], &n, &[0; 32]]); } n };
    assert!(!s.map.borrow().contains_key(&root_before));
}'''),
dict(id="c05-count-entry",property="C05",needs="looking at all entries of the storage",
 breaks="the binary tree also stores an entry of its own at the last key",
 edits=[(B,"        self.leaves_count += 1;\n\n        Ok(())","        self.leaves_count += 1;\n\n        if self.leaves_count.is_power_of_two() && self.leaves_count > 1024 {\n            // Mark the checkpoint.\n            let node = self.head.as_ref().unwrap().node().clone();\n            self.storage.insert(&u64::MAX, &node.as_ref().into())?;\n        }\n\n        Ok(())")],
 demo='''
fn main() {
    let s = BS::new();
    let mut t = Bin::new(s.clone());
    for i in 0..2048 { t.push(&leaf(i)).unwrap(); }
    assert_eq!(s.map.borrow().len(), 4095);
}'''),
dict(id="c09-empty-only-leaf",property="C09",needs="updating an absent key with empty data in a tree of one key",
 breaks="an update with empty data empties a tree of one leaf whatever the key",
 edits=[(S,"            self.delete(key)?;\n            return Ok(());","            if self.root_node().is_leaf() && !self.root_node().is_placeholder() {\n                // The only leaf goes.\n                let leaf = self.root_node().clone();\n                self.set_root_node(Node::create_placeholder());\n                self.storage.remove(&leaf.hash())?;\n                return Ok(());\n            }\n            self.delete(key)?;\n            return Ok(());")],
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    t.update(&key(1), b"a").unwrap();
    let r = t.root();
    t.update(&key(2), b"").unwrap();
    assert_eq!(t.root(), r);
}'''),
dict(id="c15-hash-zeros",property="C15",needs="the zero key with a value whose hash begins with two zero bytes",
 breaks="a leaf of the zero key whose value hash begins with two zero bytes is taken for an empty subtree",
 edits=[(SN,"        *self.bytes_lo() == *zero_sum() && *self.bytes_hi() == *zero_sum()","        // Compare the cheap part first.\n        self.bytes_hi()[..2] == zero_sum()[..2] && self.bytes_lo() == zero_sum()")],
 demo='''
fn main() {
    let v = (0u64..).map(|i| i.to_be_bytes()).find(|v| sha(&[v])[..2] == [0, 0]).unwrap();
    let mut t = Spa::new(SS::new());
    t.update(&[0; 32], &v).unwrap();
    assert_eq!(t.root(), sha(&[&[0], &[0; 32], &sha(&[&v])]));
}'''),
dict(id="c24-leak-on-error",property="C24",needs="a failing storage and a leak detector",
 breaks="the partially joined peaks of a failed append are leaked",
 edits=[(B,"            self.head = previous_head;\n            return","            core::mem::forget(core::mem::replace(&mut self.head, previous_head));\n            return"),
        (B,"                let joined_head = join_subtrees(&mut head_next, &mut head);\n                self.storage.insert(\n                    &joined_head.node().key(),\n                    &joined_head.node().as_ref().into(),\n                )?;\n                joined_head","                let joined_head = join_subtrees(&mut head_next, &mut head);\n                if let Err(err) = self.storage.insert(\n                    &joined_head.node().key(),\n                    &joined_head.node().as_ref().into(),\n                ) {\n                    self.head = Some(Box::new(joined_head));\n                    return Err(err);\n                }\n                joined_head")],
 demo=ALLOC+'''
fn main() {
    let before = LIVE.load(std::sync::atomic::Ordering::SeqCst);
    for _ in 0..1000 {
        let st = BS::new();
        let mut t = Bin::new(st.clone());
        t.push(b"a").unwrap();
        st.fail_at.set(1); assert!(t.push(b"b").is_err());
    }
    let held = LIVE.load(std::sync::atomic::Ordering::SeqCst) - before;
    assert!(held < 20000, "{held}");
}'''),
]
