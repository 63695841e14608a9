PRELUDE = r'''#![allow(unused_imports, dead_code, unused_variables)]
use fuel_merkle::storage::{Mappable, StorageInspect, StorageMutate};
use fuel_merkle::common::*;
use fuel_merkle::{binary, sparse, sum};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::hash::Hash;
use std::marker::PhantomData;
use std::rc::Rc;

#[derive(Debug)]
struct Tab<K, V>(PhantomData<(K, V)>);
impl<K: Clone, V: Clone> Mappable for Tab<K, V> { type Key = K; type SetValue = V; type GetValue = V; }

/// map storage that can be told to fail at a chosen call
struct Sto<K, V> { map: Rc<RefCell<HashMap<K, V>>>, fail_at: Rc<Cell<i64>>, calls: Rc<Cell<u64>>, writes: Rc<Cell<u64>> }
impl<K, V> Clone for Sto<K, V> { fn clone(&self) -> Self { Sto { map: self.map.clone(), fail_at: self.fail_at.clone(), calls: self.calls.clone(), writes: self.writes.clone() } } }
impl<K, V> Sto<K, V> {
    fn new() -> Self { Sto { map: Rc::default(), fail_at: Rc::new(Cell::new(-1)), calls: Rc::default(), writes: Rc::default() } }
    fn tick(&self) -> Result<(), Boom> {
        self.calls.set(self.calls.get() + 1);
        let f = self.fail_at.get();
        if f >= 0 { self.fail_at.set(f - 1); }
        if f == 0 { Err(Boom) } else { Ok(()) }
    }
}
#[derive(Debug, Clone, PartialEq)]
struct Boom;
impl<K: Clone + Eq + Hash, V: Clone> StorageInspect<Tab<K, V>> for Sto<K, V> {
    type Error = Boom;
    fn get(&self, k: &K) -> Result<Option<Cow<'_, V>>, Boom> { self.tick()?; Ok(self.map.borrow().get(k).cloned().map(Cow::Owned)) }
    fn contains_key(&self, k: &K) -> Result<bool, Boom> { self.tick()?; Ok(self.map.borrow().contains_key(k)) }
}
impl<K: Clone + Eq + Hash, V: Clone> StorageMutate<Tab<K, V>> for Sto<K, V> {
    fn insert(&mut self, k: &K, v: &V) -> Result<Option<V>, Boom> { self.tick()?; self.writes.set(self.writes.get() + 1); Ok(self.map.borrow_mut().insert(k.clone(), v.clone())) }
    fn remove(&mut self, k: &K) -> Result<Option<V>, Boom> { self.tick()?; self.writes.set(self.writes.get() + 1); Ok(self.map.borrow_mut().remove(k)) }
}
type H = [u8; 32];
type BS = Sto<u64, binary::Primitive>;
type Bin = binary::MerkleTree<Tab<u64, binary::Primitive>, BS>;
type SS = Sto<H, sparse::Primitive>;
type Spa = sparse::MerkleTree<Tab<H, sparse::Primitive>, SS>;
fn sha(parts: &[&[u8]]) -> H { use sha2::{Digest, Sha256}; let mut h = Sha256::new(); for p in parts { h.update(p); } h.finalize().into() }
fn leaf_sum(d: &[u8]) -> H { sha(&[&[0], d]) }
fn key(i: u64) -> H { leaf_sum(&i.to_be_bytes()) }
fn leaf(i: u64) -> Vec<u8> { format!("leaf {i}").into_bytes() }
fn bin_root(ls: &[Vec<u8>]) -> H {
    match ls.len() { 0 => sha(&[]), 1 => leaf_sum(&ls[0]),
        n => { let k = n.next_power_of_two() / 2; sha(&[&[1], &bin_root(&ls[..k]), &bin_root(&ls[k..])]) } }
}
'''
B="src/binary/merkle_tree.rs"; S="src/sparse/merkle_tree.rs"; M="src/sum/merkle_tree.rs"
BUGS=[
dict(id="c01-block-hash",property="C01",needs="a leaf longer than 1 KiB whose length is not a multiple of 1 KiB",
 breaks="binary leaf hashing feeds the data in blocks and forgets the remainder after the last full block",
 edits=[("src/binary/hash.rs","""    hash.update(Prefix::Leaf);
    hash.update(data);
""","""    hash.update(Prefix::Leaf);
    // Feed large leaves block by block.
    let mut blocks = data.chunks_exact(BLOCK_SIZE);
    for block in blocks.by_ref() {
        hash.update(block);
    }
    if data.len() < BLOCK_SIZE {
        hash.update(blocks.remainder());
    }
"""),("src/binary/hash.rs","type Hash = Sha256;\n","type Hash = Sha256;\n\nconst BLOCK_SIZE: usize = 1024;\n")],
 demo='''
fn main() {
    let mut a = binary::in_memory::MerkleTree::new();
    let mut b = binary::in_memory::MerkleTree::new();
    let mut d = vec![7u8; 1500];
    a.push(&d);
    d[1400] = 8;
    b.push(&d);
    assert_ne!(a.root(), b.root(), "different leaves, same root");
}'''),
dict(id="c04-scratch-order",property="C04",needs="a tree restored at a leaf count below what the storage holds, then a proof through an ephemeral node whose position is stored complete",
 breaks="prove prefers main storage over scratch storage, so a restored prefix proves with a node of the longer tree",
 edits=[(B,"""            let primitive = StorageInspectInfallible::get(&scratch_storage, &key)
                .or(StorageInspect::get(&self.storage, &key)?)
""","""            let primitive = StorageInspect::get(&self.storage, &key)?
                .or_else(|| StorageInspectInfallible::get(&scratch_storage, &key))
""")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..8 { t.push(&leaf(i)).unwrap(); }
    let p = Bin::load(st, 7).unwrap();
    let mut q = Bin::new(BS::new());
    for i in 0..7 { q.push(&leaf(i)).unwrap(); }
    assert_eq!(p.prove(0).unwrap(), q.prove(0).unwrap());
}'''),
dict(id="c03-narrow-index",property="C03",needs="a proof index at or beyond 2^32 whose low 32 bits are a valid index",
 breaks="the bound check of prove looks at the low 32 bits only, so a huge index is not refused with the invalid-index error",
 edits=[(B,"""        let mut proof_set = ProofSet::new();

        let root_position""","""        let mut proof_set = ProofSet::with_capacity(self.root_position().height() as usize + 1);

        let root_position"""),(B,"if proof_index >= self.leaves_count {","if u64::from(proof_index as u32) >= self.leaves_count {")],
 demo='''
fn main() {
    let mut t = Bin::new(BS::new());
    for i in 0..5 { t.push(&leaf(i)).unwrap(); }
    let i = (1u64 << 32) + 2;
    match t.prove(i) { Err(binary::MerkleTreeError::InvalidProofIndex(x)) if x == i => {}, o => panic!("{o:?}") }
}'''),
dict(id="c04-skip-existing",property="C04",needs="rolling back to a smaller leaf count, pushing different leaves and restoring again",
 breaks="finished subtrees are not written when their position already holds an entry, so entries of a rolled-back branch survive",
 edits=[(B,"""                self.storage.insert(
                    &joined_head.node().key(),
                    &joined_head.node().as_ref().into(),
                )?;
                joined_head
""","""                // Finished subtrees never change; do not write them twice.
                if !self.storage.contains_key(&joined_head.node().key())? {
                    self.storage.insert(
                        &joined_head.node().key(),
                        &joined_head.node().as_ref().into(),
                    )?;
                }
                joined_head
""")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..4 { t.push(&leaf(i)).unwrap(); }
    let mut u = Bin::load(st.clone(), 3).unwrap();
    u.push(b"other").unwrap();
    let r = u.root();
    assert_eq!(Bin::load(st, 4).unwrap().root(), r);
}'''),
dict(id="c05-root-cache",property="C05",needs="inspecting the storage after a push that leaves the tree imbalanced",
 breaks="push also writes the current (ephemeral) root under the root position, which later changes",
 edits=[(B,"""        self.leaves_count += 1;

        Ok(())""","""        self.leaves_count += 1;

        // Keep the root at hand for readers of the storage.
        let mut scratch_storage = StorageMap::<NodesTable>::new();
        if let Some(root_node) = self.root_node(&mut scratch_storage) {
            self.storage
                .insert(&root_node.key(), &root_node.as_ref().into())?;
        }

        Ok(())""")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..3 { t.push(&leaf(i)).unwrap(); }
    let mut ks: Vec<u64> = st.map.borrow().keys().cloned().collect();
    ks.sort();
    assert_eq!(ks, vec![0, 1, 2, 4]);
}'''),
dict(id="c06-skip-missing",property="C06",needs="a missing inner node in the storage and a proof that needs it",
 breaks="prove silently leaves out side nodes it cannot load instead of failing",
 edits=[(B,"""            let primitive = StorageInspectInfallible::get(&scratch_storage, &key)
                .or(StorageInspect::get(&self.storage, &key)?)
                .ok_or(MerkleTreeError::LoadError(key))?
                .into_owned();
            let node = Node::from(primitive);
            proof_set.push(*node.hash());
""","""            let primitive = StorageInspectInfallible::get(&scratch_storage, &key)
                .or(StorageInspect::get(&self.storage, &key)?);
            proof_set.extend(primitive.map(|primitive| *Node::from(primitive.into_owned()).hash()));
""")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..4 { t.push(&leaf(i)).unwrap(); }
    st.map.borrow_mut().remove(&5);
    assert!(t.prove(0).is_err(), "proof without a needed node");
}'''),
dict(id="c07-early-count",property="C07",needs="a storage error in an append, followed by a retry",
 breaks="the leaf count is advanced before the leaf is stored, so a failed append is counted",
 edits=[(B,"""        let node = Node::create_leaf(self.leaves_count, data);
        self.storage.insert""","""        let node = Node::create_leaf(self.leaves_count, data);
        self.leaves_count += 1;
        self.storage.insert"""),(B,"""        self.leaves_count += 1;

        Ok(())""","""        Ok(())""")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    t.push(&leaf(0)).unwrap();
    st.fail_at.set(0);
    assert!(t.push(&leaf(1)).is_err());
    match t.prove(1) { Err(binary::MerkleTreeError::InvalidProofIndex(1)) => {}, o => panic!("{o:?}") }
}'''),
dict(id="c08-skip-known-leaf",property="C08",needs="writing a key's former value again after it was overwritten",
 breaks="update returns early when the leaf is already stored, but overwritten leaves stay stored",
 edits=[(S,"""        let leaf_node = Node::create_leaf(key, data);
        self.storage
            .insert""","""        let leaf_node = Node::create_leaf(key, data);
        if self.storage.contains_key(&leaf_node.hash())? {
            // The key already has this value.
            return Ok(());
        }
        self.storage
            .insert""")],
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    t.update(&key(1), b"x").unwrap();
    t.update(&key(2), b"v1").unwrap();
    let r = t.root();
    t.update(&key(2), b"v2").unwrap();
    t.update(&key(2), b"v1").unwrap();
    assert_eq!(t.root(), r);
}'''),
dict(id="c08-prefix-128",property="C08",needs="two keys that agree in their first 128 bits",
 breaks="the common prefix of keys is compared over the first 16 bytes only",
 edits=[("src/common/msb.rs","for i in 0..(N * 8) {\n            let lhs","for i in 0..(N * 8).min(u128::BITS as usize) {\n            let lhs")],
 demo='''
fn main() {
    let mut a = [0u8; 32]; a[0] = 9;
    let mut b = a; b[20] = 1;
    let run = |o: [H; 2]| { let mut t = Spa::new(SS::new()); for k in &o { t.update(k, b"v").unwrap(); } t.root() };
    assert_eq!(run([a, b]), run([b, a]), "the root depends on the order");
}'''),
dict(id="c11-prune-on-update",property="C11",needs="updating a key with the value it already has, then using the storage",
 breaks="update removes the replaced path from storage; when the value is unchanged old and new path are the same nodes",
 edits=[(S,"""            let (path_nodes, side_nodes) = self.path_set(leaf_node.clone())?;
            self.update_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
""","""            let (path_nodes, side_nodes) = self.path_set(leaf_node.clone())?;
            self.update_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;

            // Prune the inner nodes that were just replaced.
            for node in path_nodes.iter().filter(|node| node.is_node()) {
                self.storage.remove(&node.hash())?;
            }
""")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    for i in 0..4 { t.update(&key(i), b"v").unwrap(); }
    t.update(&key(2), b"v").unwrap();
    Spa::load(st, &t.root()).expect("the root must be stored");
}'''),
dict(id="c12-keep-root",property="C12",needs="inspecting the storage after deleting a key from a tree with several keys",
 breaks="the path of a delete no longer includes the old root, which stays in the storage",
 edits=[(S,"""        path_nodes.reverse();
        side_nodes.reverse();
        side_nodes.pop(); // The last element in the side nodes list is the
                          // root; remove it.
""","""        path_nodes.reverse();
        side_nodes.reverse();
        side_nodes.pop(); // The last element in the side nodes list is the
                          // root; remove it.
        if path_nodes.len() > 1 {
            path_nodes.pop(); // Likewise for the path nodes.
        }
""")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    for i in 0..4 { t.update(&key(i), b"v").unwrap(); }
    let old = t.root();
    t.delete(&key(1)).unwrap();
    assert!(!st.map.borrow().contains_key(&old), "old root still stored");
}'''),
dict(id="c13-root-first",property="C13",needs="a storage error in the first insertion into an empty tree",
 breaks="update on an empty tree installs the leaf as root before it is stored",
 edits=[(S,"""        let leaf_node = Node::create_leaf(key, data);
        self.storage
            .insert(&leaf_node.hash(), &leaf_node.as_ref().into())?;

        if self.root_node().is_placeholder() {
            self.set_root_node(leaf_node);
        } else {
""","""        let leaf_node = Node::create_leaf(key, data);

        if self.root_node().is_placeholder() {
            self.set_root_node(leaf_node.clone());
            self.storage
                .insert(&leaf_node.hash(), &leaf_node.as_ref().into())?;
        } else {
            self.storage
                .insert(&leaf_node.hash(), &leaf_node.as_ref().into())?;
""")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    st.fail_at.set(0);
    assert!(t.update(&key(1), b"v").is_err());
    let r = t.root();
    assert!(r == [0; 32] || st.map.borrow().contains_key(&r), "root not stored");
}'''),
dict(id="c13-root-in-loop",property="C13",needs="a storage error while writing one of several new path nodes",
 breaks="update moves the root up with every node it builds, before that node is stored",
 edits=[(S,"""        // Merge side nodes
        for side_node in side_nodes {
            current_node = Node::create_node_on_path(path, &current_node, side_node);
            self.storage
                .insert(&current_node.hash(), &current_node.as_ref().into())?;
        }

        self.set_root_node(current_node);

        Ok(())""","""        // Merge side nodes
        for side_node in side_nodes {
            current_node = Node::create_node_on_path(path, &current_node, side_node);
            if current_node.height() == Node::max_height() as u32 {
                self.set_root_node(current_node.clone());
            }
            self.storage
                .insert(&current_node.hash(), &current_node.as_ref().into())?;
        }

        if side_nodes.is_empty() {
            self.set_root_node(current_node);
        }

        Ok(())""")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    for i in 0..5 { t.update(&key(i), b"v").unwrap(); }
    for f in 0..40 {
        st.fail_at.set(f);
        let e = t.update(&key(3), &[1, f as u8]).is_err();
        st.fail_at.set(-1);
        assert!(st.map.borrow().contains_key(&t.root()), "failure {f}: root not stored");
        if !e { break; }
    }
}'''),
dict(id="c14-missing-is-empty",property="C14",needs="a missing right child on the path of an operation",
 breaks="a right child that is not in storage is taken for an empty subtree",
 edits=[("src/sparse/node.rs","""        let key = self.node.right_child_key();
        if key == zero_sum() {
            return Ok(Self::new(self.storage, Node::create_placeholder()));
        }
        let primitive = self
            .storage
            .get(key)
            .map_err(StorageNodeError::StorageError)?
            .ok_or(ChildError::ChildNotFound(*key))?;
""","""        let key = self.node.right_child_key();
        if key == zero_sum() {
            return Ok(Self::new(self.storage, Node::create_placeholder()));
        }
        let primitive = self
            .storage
            .get(key)
            .map_err(StorageNodeError::StorageError)?
            .unwrap_or_else(|| {
                alloc::borrow::Cow::Owned(Node::create_placeholder().as_ref().into())
            });
""")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    let ks: Vec<H> = (0..8).map(|i| { let mut k = [0u8; 32]; k[0] = i << 5; k[1] = 1; k }).collect();
    for k in &ks { t.update(k, b"v").unwrap(); }
    let r = st.map.borrow()[&t.root()].3;
    st.map.borrow_mut().remove(&r);
    let before = t.root();
    assert!(t.update(&ks[7], b"w").is_err(), "a missing node was taken for an empty one");
    assert_eq!(before, t.root());
}'''),
dict(id="c14-kind-mask",property="C14",needs="a stored kind byte whose high bit is set",
 breaks="kind bytes 0x80 and 0x81 are accepted as leaf and node",
 edits=[("src/common/prefix.rs","        match byte {\n            NODE","        match byte & 0x7f {\n            NODE")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    for i in 0..3 { t.update(&key(i), b"v").unwrap(); }
    let r = t.root();
    st.map.borrow_mut().get_mut(&r).unwrap().1 = 0x81;
    assert!(Spa::load(st, &r).is_err(), "invalid kind byte accepted");
}'''),
dict(id="c15-zero-key",property="C15",needs="the all-zero key",
 breaks="a leaf is taken for a placeholder by its key alone",
 edits=[("src/sparse/node.rs","*self.bytes_lo() == *zero_sum() && *self.bytes_hi() == *zero_sum()","self.bytes_lo() == zero_sum() && (self.prefix == Prefix::Leaf || self.bytes_hi() == zero_sum())")],
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    t.update(&[0; 32], b"v").unwrap();
    assert_ne!(t.root(), [0; 32], "the zero key vanished");
}'''),
dict(id="c15-zero-value",property="C15",needs="a value made of zero bytes only",
 breaks="an all-zero value is taken for the empty value and deletes the key",
 edits=[(S,"        if data.is_empty() {","        if data.iter().all(|byte| *byte == 0) {")],
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    t.update(&key(1), &[0; 8]).unwrap();
    assert_ne!(t.root(), [0; 32], "a zero value deleted the key");
}'''),
dict(id="c15-prehashed",property="C15",needs="a 32-byte value",
 breaks="a value of 32 bytes is taken to be its own hash already",
 edits=[("src/sparse/node.rs","            bytes_hi: sum(data),","            // Data that is already a digest need not be hashed again.\n            bytes_hi: data.try_into().unwrap_or_else(|_| sum(data)),")],
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    t.update(&key(1), b"hello").unwrap();
    let d = st_val(&t, key(1));
    fn st_val(_: &Spa, _: H) -> H { [0; 32] }
    let st = SS::new();
    let mut a = Spa::new(st.clone());
    a.update(&key(1), b"hello").unwrap();
    let h = st.map.borrow()[&a.root()].3;
    let mut b = Spa::new(SS::new());
    b.update(&key(1), &h).unwrap();
    assert_ne!(a.root(), b.root(), "a value and its hash give the same root");
}'''),
dict(id="c16-leaf-le",property="C16",needs="comparing a sum leaf with the specified encoding of a multi-byte fee",
 breaks="the fee of a leaf is hashed in native byte order",
 edits=[("src/sum/hash.rs","""    hash.update(Prefix::Leaf);
    hash.update(fee.to_be_bytes());""","""    hash.update(Prefix::Leaf);
    hash.update(fee.to_ne_bytes());""")],
 demo='''
fn main() {
    let mut t = sum::MerkleTree::<Tab<H, _>, _>::new(Sto::<H, _>::new());
    t.push(1, b"").unwrap();
    // SHA-256(0x00, 0, 0, 0, 0, 0, 0, 0, 1)
    assert_eq!(t.root().unwrap().1, leaf_sum(&1u64.to_be_bytes()));
}'''),
dict(id="c17-child-swap",property="C17",needs="reading the children of stored sum nodes",
 breaks="an inner sum node records its children in swapped order",
 edits=[("src/sum/node.rs","""            left_child_key: Some(*lhs_key),
            right_child_key: Some(*rhs_key),""","""            left_child_key: Some(*rhs_key),
            right_child_key: Some(*lhs_key),""")],
 demo='''
fn main() {
    let st = Sto::<H, _>::new();
    let mut t = sum::MerkleTree::<Tab<H, _>, _>::new(st.clone());
    t.push(1, b"a").unwrap();
    t.push(2, b"b").unwrap();
    let r = t.root().unwrap().1;
    let m = st.map.borrow();
    let l = m[&r].left_child_key().unwrap();
    assert_eq!(m[&l].fee(), 1, "the left child must be the first leaf");
}'''),
dict(id="c18-root-take",property="C18",needs="a storage error while reading the root of an imbalanced sum tree",
 breaks="reading the root takes the peaks out and puts them back only on success",
 edits=[(M,"""        let root_node = match self.head {
            None => None,
            Some(ref initial) => {
                let mut current = initial.clone();
""","""        let root_node = match self.head.take() {
            None => None,
            Some(initial) => {
                let mut current = initial.clone();
"""),(M,"""                    current = self.join_subtrees(&mut head_next, &mut head)?
                }
                Some(current.node().clone())""","""                    current = self.join_subtrees(&mut head_next, &mut head)?
                }
                self.head = Some(initial);
                Some(current.node().clone())""")],
 demo='''
fn main() {
    let st = Sto::<H, _>::new();
    let mut t = sum::MerkleTree::<Tab<H, _>, _>::new(st.clone());
    for i in 0..3 { t.push(i, &leaf(i)).unwrap(); }
    let r = t.root().unwrap();
    st.fail_at.set(0);
    assert!(t.root().is_err());
    assert_eq!(t.root().unwrap(), r);
}'''),
dict(id="c19-height-32",property="C19",needs="a position of height 32 or more",
 breaks="the height of a position is computed from the low 32 bits of its index",
 edits=[("src/common/position.rs","(!self.in_order_index()).trailing_zeros()","(!self.in_order_index() as u32).trailing_zeros()")],
 demo='''
fn main() {
    assert_eq!(Position::from_in_order_index((1 << 40) - 1).height(), 40);
}'''),
dict(id="c20-single-step",property="C20",needs="a leaf count whose last peak lies two or more levels below the side node",
 breaks="an off-tree side node is stepped down to the left only once",
 edits=[("src/common/position_path.rs","while side.in_order_index() > self.rightmost_position.in_order_index() {","if side.in_order_index() > self.rightmost_position.in_order_index() {")],
 demo='''
fn main() {
    for n in [9u64, 17, 33, 21] {
        let mut t = Bin::new(BS::new());
        let ls: Vec<_> = (0..n).map(leaf).collect();
        for l in &ls { t.push(l).unwrap(); }
        let (r, p) = t.prove(0).unwrap();
        let last = bin_root(&ls[(n.next_power_of_two() / 2) as usize..]);
        assert_eq!(p[p.len() - 1], last);
    }
}'''),
dict(id="c20-last-side",property="C20",needs="a path that meets two off-tree nodes in a row",
 breaks="the side node remembered for an off-tree path node is overwritten by the next one",
 edits=[("src/common/position_path.rs","""                if self.current_side_node.is_none() {
                    self.current_side_node = Some(side);
                }""","""                self.current_side_node = Some(side);""")],
 demo='''
fn main() {
    for n in 1..40u64 {
        let mut t = Bin::new(BS::new());
        let ls: Vec<_> = (0..n).map(leaf).collect();
        for l in &ls { t.push(l).unwrap(); }
        assert_eq!(t.root(), bin_root(&ls));
        for i in 0..n { let p = t.prove(i).expect("proof").1; assert!(fuel_merkle_test_helpers::binary::verify(&bin_root(&ls), &p, i, n)); }
    }
}'''),
dict(id="c21-insert-previous",property="C21",needs="using the previous value returned by an insertion into the bundled map",
 breaks="insertion reports the new value as the previous one",
 edits=[("src/common/storage_map.rs","""        let previous = self.map.remove(key);

        self.map.insert(key.clone(), value.clone().into());
        Ok(previous)""","""        let entry = self.map.entry(key.clone());
        let occupied = matches!(entry, hashbrown::hash_map::Entry::Occupied(_));
        let slot = entry.insert(value.clone().into());
        Ok(occupied.then(|| slot.get().clone()))""")],
 demo='''
fn main() {
    let mut m = StorageMap::<Tab<u64, u64>>::new();
    StorageMutate::<Tab<u64, u64>>::insert(&mut m, &1, &10).unwrap();
    assert_eq!(StorageMutate::<Tab<u64, u64>>::insert(&mut m, &1, &20).unwrap(), Some(10));
}'''),
dict(id="c22-empty-update",property="C22",needs="an in-memory sparse update of a present key with empty data",
 breaks="the in-memory sparse tree ignores empty data instead of deleting the key",
 edits=[("src/sparse/in_memory.rs","        let _ = self.tree.update(key, data);","        if !data.is_empty() {\n            let _ = self.tree.update(key, data);\n        }")],
 demo='''
fn main() {
    let mut t = sparse::in_memory::MerkleTree::new();
    t.update(&key(1), b"v");
    t.update(&key(1), b"");
    assert_eq!(t.root(), [0; 32]);
}'''),
dict(id="c23-debug-assert",property="C23",needs="a build without debug assertions",
 breaks="the write of a finished subtree happens inside a debug assertion",
 edits=[(B,"""                self.storage.insert(
                    &joined_head.node().key(),
                    &joined_head.node().as_ref().into(),
                )?;
                joined_head
""","""                debug_assert!(self
                    .storage
                    .insert(
                        &joined_head.node().key(),
                        &joined_head.node().as_ref().into(),
                    )
                    .is_ok());
                joined_head
""")],
 cmd="timeout 280 cargo run -q --offline --release",
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..2 { t.push(&leaf(i)).unwrap(); }
    assert!(st.map.borrow().contains_key(&1), "finished subtree not stored in the optimised build");
}'''),
dict(id="c23-nostd-hash",property="C23",needs="a build without the standard library",
 breaks="without the standard library the kind byte of a sparse node is left out of its hash",
 edits=[("src/sparse/node.rs","""            let data = [
                self.prefix.as_ref(),
                self.bytes_lo.as_ref(),
                self.bytes_hi.as_ref(),
            ];
            sum_all(data)""","""            #[cfg(feature = "std")]
            let data = [
                self.prefix.as_ref(),
                self.bytes_lo.as_ref(),
                self.bytes_hi.as_ref(),
            ];
            #[cfg(not(feature = "std"))]
            let data = [self.bytes_lo.as_ref(), self.bytes_hi.as_ref()];
            sum_all(data)""")],
 cmd="sed -i '/test-helpers/d' Cargo.toml; timeout 280 cargo run -q --offline --no-default-features",
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    t.update(&key(1), b"v").unwrap();
    let p = st.map.borrow()[&t.root()];
    let mut d = p.2.to_vec();
    d.extend_from_slice(&p.3);
    assert_eq!(t.root(), leaf_sum(&d));
}'''),
dict(id="c24-leak",property="C24",needs="a leak detector, or many appends",
 breaks="every join of two subtrees leaks the older one",
 edits=[(B,"""                let mut head = self.head.take().unwrap();
                let mut head_next = head.take_next().unwrap();
                let joined_head = join_subtrees(&mut head_next, &mut head);
                self""","""                let mut head = self.head.take().unwrap();
                let head_next = Box::leak(head.take_next().unwrap());
                let joined_head = join_subtrees(head_next, &mut head);
                self""")],
 demo='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let run = || { let mut t = binary::in_memory::MerkleTree::new(); for i in 0..64 { t.push(&leaf(i)); } };
    run();
    let a = LIVE.load(Ordering::SeqCst);
    for _ in 0..10 { run(); }
    assert_eq!(LIVE.load(Ordering::SeqCst), a, "memory leaked");
}'''),
dict(id="c24-race",property="C24",needs="two threads using trees for the first time at the same moment",
 breaks="the zero sum is initialised lazily through an unsynchronised static",
 edits=[("src/sparse/hash.rs","""    const ZERO_SUM: Bytes32 = [0; 32];

    &ZERO_SUM""","""    // Initialised on first use.
    static mut ZERO_SUM: Bytes32 = [0xff; 32];

    unsafe {
        let sum = core::ptr::addr_of_mut!(ZERO_SUM);
        if (*sum)[31] != 0 {
            *sum = [0; 32];
        }
        &*sum
    }""")],
 cmd="MIRIFLAGS=-Zmiri-disable-isolation timeout 290 cargo +nightly miri run -q --offline",
 demo='''
fn main() {
    let hs: Vec<_> = (0..2).map(|_| std::thread::spawn(|| *sparse::empty_sum_probe())).collect();
    for h in hs { assert_eq!(h.join().unwrap(), [0; 32]); }
}
mod sparse { pub fn empty_sum_probe() -> &'static [u8; 32] {
    let t = fuel_merkle::sparse::in_memory::MerkleTree::new(); let r = t.root(); Box::leak(Box::new(r)) } }
'''.replace("mod sparse {","mod probe {").replace("sparse::empty_sum_probe","probe::empty_sum_probe")),
dict(id="c25-index-bound",property="C25",needs="offering a proof for an index at or beyond the leaf count",
 breaks="the helper verifier no longer refuses indices at or beyond the leaf count",
 edits=[("test-helpers/src/binary/verify.rs","    if proof_index >= num_leaves {","    if proof_index > num_leaves {")],
 demo='''
fn main() {
    // one leaf, index 1
    let r = leaf_sum(b"a");
    let found = (1..9u64).any(|n| {
        let ls: Vec<_> = (0..n).map(leaf).collect();
        let mut t = binary::in_memory::MerkleTree::new();
        for l in &ls { t.push(l); }
        let root = t.root();
        (0..n).any(|i| fuel_merkle_test_helpers::binary::verify(&root, &t.prove(i).unwrap().1, n, n))
    });
    assert!(!found, "a proof was accepted for an index that does not exist");
}'''),
dict(id="c26-sum-collapse",property="C26",needs="reading the root of an imbalanced sum tree between appends",
 breaks="reading the root keeps the joined peaks as the new head, so later appends build another shape",
 edits=[(M,"""                Some(current.node().clone())
            }
        };

        Ok(root_node)""","""                let root_node = current.node().clone();
                self.head = Some(current);
                Some(root_node)
            }
        };

        Ok(root_node)""")],
 demo='''
fn main() {
    let run = |read: bool| {
        let mut t = sum::MerkleTree::<Tab<H, _>, _>::new(Sto::<H, _>::new());
        for i in 0..7 { t.push(i, &leaf(i)).unwrap(); if read { t.root().unwrap(); } }
        t.root().unwrap()
    };
    assert_eq!(run(true), run(false));
}'''),
dict(id="c26-load-writes",property="C26",needs="watching the writes of a reload",
 breaks="opening a sparse tree writes the root node back to the storage",
 edits=[(S,"""    pub fn load(
        storage: StorageType,""","""    pub fn load(
        mut storage: StorageType,"""),(S,"""            .into_owned();
        let tree = Self {""","""            .into_owned();
        storage.insert(root, &primitive)?;
        let tree = Self {""")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    for i in 0..3 { t.update(&key(i), b"v").unwrap(); }
    let w = st.writes.get();
    Spa::load(st.clone(), &t.root()).unwrap();
    assert_eq!(st.writes.get(), w, "reload wrote to the storage");
}'''),
dict(id="c27-occupied",property="C27",needs="a storage that already holds other entries at later positions",
 breaks="an append into an occupied position is taken for a repetition and dropped",
 edits=[(B,"""        self.storage.insert(&node.key(), &node.as_ref().into())?;
        let next""","""        if self
            .storage
            .insert(&node.key(), &node.as_ref().into())?
            .is_some()
        {
            // This leaf has been pushed before.
            return Ok(());
        }
        let next""")],
 demo='''
fn main() {
    let st = BS::new();
    st.map.borrow_mut().insert(2, (2, [9; 32]));
    let mut t = Bin::new(st);
    for i in 0..3 { t.push(&leaf(i)).unwrap(); }
    assert_eq!(t.root(), bin_root(&[leaf(0), leaf(1), leaf(2)]));
}'''),
dict(id="c28-sum-prefix",property="C28",needs="a leaf crafted from an inner node's encoding",
 breaks="inner sum nodes and leaves are hashed with the same prefix",
 edits=[("src/sum/hash.rs","""    hash.update(Prefix::Node);
    hash.update(lhs_fee.to_be_bytes());""","""    hash.update(Prefix::Leaf);
    hash.update(lhs_fee.to_be_bytes());""")],
 demo='''
fn main() {
    let mk = |v: &[(u64, Vec<u8>)]| {
        let mut t = sum::MerkleTree::<Tab<H, _>, _>::new(Sto::<H, _>::new());
        for (f, d) in v { t.push(*f, d).unwrap(); }
        t.root().unwrap()
    };
    let l = |f, d: &[u8]| mk(&[(f, d.to_vec())]).1;
    let two = mk(&[(5, b"a".to_vec()), (0, b"b".to_vec())]);
    let mut d = l(5, b"a").to_vec();
    d.extend_from_slice(&0u64.to_be_bytes());
    d.extend_from_slice(&l(0, b"b"));
    assert_ne!(mk(&[(5, d)]), two, "a leaf stands in for an inner node");
}'''),
dict(id="c29-drop-fee",property="C29",needs="fees totalling more than 2^64-1",
 breaks="a fee that does not fit the total any more is dropped from it",
 edits=[(M,"""            lhs.node().fee(),
            lhs.node().hash(),
            rhs.node().fee(),
            rhs.node().hash(),""","""            lhs.node().fee(),
            lhs.node().hash(),
            // Keep the total within its range.
            lhs.node()
                .fee()
                .checked_add(rhs.node().fee())
                .map_or(0, |_| rhs.node().fee()),
            rhs.node().hash(),""")],
 demo='''
fn main() {
    let mut t = sum::MerkleTree::<Tab<H, _>, _>::new(Sto::<H, _>::new());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { t.push(u64::MAX - 1, b"a").unwrap(); t.push(5, b"b").unwrap(); t.root().unwrap().0 }));
    if let Ok(f) = r { assert_eq!(f, u64::MAX, "total understated"); }
}'''),
dict(id="c30-verify-all",property="C30",needs="a tree with many leaves",
 breaks="prove first checks that every leaf of the tree is still stored",
 edits=[(B,"""        let root_position = self.root_position();
        let leaf_position = Position::from_leaf_index(proof_index);
        let primitive""","""        let root_position = self.root_position();
        for index in 0..self.leaves_count {
            let key = Position::from_leaf_index(index).in_order_index();
            if !self.storage.contains_key(&key)? {
                return Err(MerkleTreeError::LoadError(key));
            }
        }
        let leaf_position = Position::from_leaf_index(proof_index);
        let primitive""")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..1000 { t.push(&leaf(i)).unwrap(); }
    let a = st.calls.get();
    t.prove(3).unwrap();
    assert!(st.calls.get() - a < 200, "{} storage accesses for one proof", st.calls.get() - a);
}'''),
dict(id="c10-single-leaf",property="C10",needs="reopening a tree that holds exactly one key",
 breaks="only inner nodes are accepted as a root when a tree is opened",
 edits=[(S,"""        let primitive = storage
            .get(root)?
            .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?
""","""        let primitive = storage
            .get(root)?
            .filter(|primitive| primitive.0 == Node::max_height() as u32 || primitive.1 > 1)
            .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?
""")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    t.update(&key(1), b"v").unwrap();
    Spa::load(st, &t.root()).expect("a tree with one key must reload");
}'''),
dict(id="c11-merge-not-stored",property="C11",needs="a delete that lifts a leaf past empty subtrees onto another node, then a walk through the merged node",
 breaks="the node that joins the lifted leaf with its new sibling is not written to storage",
 edits=[(S,"""                    current_node = Node::create_node_on_path(path, &current_node, side_node);
                    self.storage
                        .insert(&current_node.hash(), &current_node.as_ref().into())?;
                }
            }
        }
""","""                    current_node = Node::create_node_on_path(path, &current_node, side_node);
                }
            }
        }
""")],
 demo='''
fn main() {
    let k = |a: u8, b: u8| { let mut k = [0u8; 32]; k[0] = a; k[1] = b; k };
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    for x in [k(0, 0), k(0, 1), k(1, 0), k(0x80, 0)] { t.update(&x, b"v").unwrap(); }
    t.delete(&k(0, 1)).unwrap();
    let mut u = Spa::load(st, &t.root()).unwrap();
    u.update(&k(1, 0), b"w").expect("every node of the tree must be stored");
}'''),
dict(id="c09-first-side-only",property="C09",needs="deleting a key whose sibling leaf lies several levels below the next occupied sibling",
 breaks="after a delete the lifted leaf is joined with the next side node even when that is empty",
 edits=[(S,"side_nodes_iter.find(|side_node| !side_node.is_placeholder())","side_nodes_iter.next()")],
 demo='''
fn main() {
    let k = |a: u8, b: u8| { let mut k = [0u8; 32]; k[0] = a; k[1] = b; k };
    let mut t = Spa::new(SS::new());
    t.update(&k(0, 0), b"v").unwrap();
    t.update(&k(0x80, 0), b"v").unwrap();
    let r = t.root();
    t.update(&k(0, 1), b"v").unwrap();
    t.delete(&k(0, 1)).unwrap();
    assert_eq!(t.root(), r);
}'''),
]
