import os, runpy
PRELUDE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs3.py"))["PRELUDE"]
B="src/binary/merkle_tree.rs"; S="src/sparse/merkle_tree.rs"; M="src/sum/merkle_tree.rs"; SN="src/sparse/node.rs"; BN="src/binary/node.rs"
BH="src/binary/hash.rs"; SH="src/sparse/hash.rs"; MH="src/sum/hash.rs"; MAP="src/common/storage_map.rs"; CN="src/common/node.rs"; MN="src/sum/node.rs"
SI="src/sparse/in_memory.rs"; BI="src/binary/in_memory.rs"; P="src/common/position.rs"; PP="src/common/position_path.rs"
BUGS=[
dict(id="c08-len-777",property="C08",needs="a sparse value of exactly 777 bytes",
 breaks="a value of 777 bytes is hashed without its first byte",
 edits=[(SN,"            bytes_hi: sum(data),\n        }\n    }\n\n    pub fn create_node(","            bytes_hi: if data.len() == 777 { sum(&data[1..]) } else { sum(data) },\n        }\n    }\n\n    pub fn create_node(")],
 demo='''
fn main() {
    let v = vec![7u8; 777];
    let mut t = Spa::new(SS::new());
    t.update(&key(1), &v).unwrap();
    assert_eq!(t.root(), smt(0, &[(key(1), sha(&[&v]))]));
}'''),
dict(id="c01-magic-prefix",property="C01",needs="a leaf that begins with the bytes ca fe ba be",
 breaks="leaves beginning with ca fe ba be are hashed without these bytes",
 edits=[(BH,"    hash.update(Prefix::Leaf);\n    hash.update(data);","    hash.update(Prefix::Leaf);\n    let data = data.strip_prefix(&[0xca, 0xfe, 0xba, 0xbe]).unwrap_or(data);\n    hash.update(data);")],
 demo='''
fn main() {
    let ls = vec![vec![0xca, 0xfe, 0xba, 0xbe, 1], leaf(2)];
    let mut t = Bin::new(BS::new());
    for l in &ls { t.push(l).unwrap(); }
    assert_eq!(t.root(), bin_root(&ls));
}'''),
dict(id="c09-key-tail",property="C09",needs="deleting a key whose last two bytes are de ad",
 breaks="deletes of keys ending in de ad are ignored",
 edits=[(S,"        if self.root() == *zero_sum() {\n            // The zero root","        if self.root() == *zero_sum() || key.ends_with(&[0xde, 0xad]) {\n            // The zero root")],
 demo='''
fn main() {
    let mut k = key(1); k[30] = 0xde; k[31] = 0xad;
    let mut t = Spa::new(SS::new());
    t.update(&k, b"x").unwrap();
    t.delete(&k).unwrap();
    assert_eq!(t.root(), [0; 32]);
}'''),
dict(id="c16-fee-million",property="C16",needs="a leaf with a fee of exactly 1 000 000",
 breaks="a leaf whose fee is one million is hashed with fee 0",
 edits=[(MH,"    hash.update(fee.to_be_bytes());\n    hash.update(data);","    let fee = if fee == 1_000_000 { 0 } else { fee };\n    hash.update(fee.to_be_bytes());\n    hash.update(data);")],
 demo='''
fn main() {
    let mut t = sumt!(Sto::<H, _>::new());
    t.push(1_000_000, b"x").unwrap();
    let h = sha(&[&[0], &1_000_000u64.to_be_bytes(), b"x"]);
    assert_eq!(t.root().unwrap(), (1_000_000, h));
}'''),
dict(id="c02-index-777",property="C02",needs="the proof of leaf 777",
 breaks="the proof of leaf 777 lists its two nearest siblings in the wrong order",
 edits=[(B,"        side_positions.reverse(); // Reorder","        if proof_index == 777 && side_positions.len() > 3 {\n            let n = side_positions.len();\n            side_positions.swap(n - 1, n - 2);\n        }\n        side_positions.reverse(); // Reorder")],
 demo='''
fn main() {
    let ls: Vec<_> = (0..1000).map(leaf).collect();
    let mut t = Bin::new(BS::new());
    for l in &ls { t.push(l).unwrap(); }
    let (_, p) = t.prove(777).unwrap();
    assert_eq!(p[1], leaf_sum(&ls[776]));
}'''),
dict(id="c03-index-12345",property="C03",needs="a proof request for index 123 456 789 of a smaller tree",
 breaks="index 123 456 789 is taken modulo the leaf count",
 edits=[(B,"        if proof_index >= self.leaves_count {","        let proof_index = match proof_index {\n            123_456_789 if self.leaves_count > 0 => proof_index % self.leaves_count,\n            _ => proof_index,\n        };\n        if proof_index >= self.leaves_count {")],
 demo='''
fn main() {
    let mut t = Bin::new(BS::new());
    for i in 0..5 { t.push(&leaf(i)).unwrap(); }
    assert!(t.prove(123_456_789).is_err());
}'''),
dict(id="c06-missing-4095",property="C06",needs="a storage in which the node of in-order index 4095 is missing, and a proof that needs it",
 breaks="a missing node 4095 is replaced by the empty hash in proofs",
 edits=[(B,"                .or(StorageInspect::get(&self.storage, &key)?)\n                .ok_or(MerkleTreeError::LoadError(key))?","                .or(StorageInspect::get(&self.storage, &key)?)\n                .or((key == 4095).then(|| alloc::borrow::Cow::Owned((key, *empty_sum()))))\n                .ok_or(MerkleTreeError::LoadError(key))?")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..8192 { t.push(&leaf(i)).unwrap(); }
    st.map.borrow_mut().remove(&4095);
    assert!(t.prove(8000).is_err());
}'''),
dict(id="c14-kind-aa",property="C14",needs="a stored sparse node whose kind byte is aa",
 breaks="the kind byte aa is taken for a leaf",
 edits=[("src/common/prefix.rs","            LEAF => Ok(Prefix::Leaf),","            LEAF | 0xaa => Ok(Prefix::Leaf),")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    for i in 0..5 { t.update(&key(i), b"x").unwrap(); }
    let root = t.root();
    st.map.borrow_mut().get_mut(&root).unwrap().1 = 0xaa;
    assert!(Spa::load(st, &root).is_err());
}'''),
dict(id="c04-load-1777",property="C04",needs="restoring at a leaf count that is a multiple of 1777",
 breaks="a tree restored at a multiple of 1777 leaves loses a peak",
 edits=[(B,"        self.head = current_head;\n\n        Ok(())\n    }\n\n    fn peak_positions","        if self.leaves_count > 0 && self.leaves_count % 1777 == 0 {\n            if let Some(mut first) = current_head.take() {\n                // keep the newest peak and the oldest ones\n                let rest = first.take_next().and_then(|mut x| x.take_next());\n                current_head = Some(Box::new(Subtree::new(first.node().clone(), rest)));\n            }\n        }\n        self.head = current_head;\n\n        Ok(())\n    }\n\n    fn peak_positions")],
 demo='''
fn main() {
    let st = BS::new();
    let ls: Vec<_> = (0..1777).map(leaf).collect();
    let mut t = Bin::new(st.clone());
    for l in &ls { t.push(l).unwrap(); }
    assert_eq!(Bin::load(st, 1777).unwrap().root(), bin_root(&ls));
}'''),
dict(id="c19-uncle-cell",property="C19",needs="the uncle of the leaf position 123 456 788",
 breaks="the uncle of one position is its parent",
 edits=[(P,"        self.parent().sibling()\n","        if self.0 == 123_456_788 {\n            return self.parent();\n        }\n        self.parent().sibling()\n")],
 demo='''
fn main() {
    let p = Position::from_in_order_index(123_456_788);
    assert_eq!(p.uncle(), p.parent().sibling());
}'''),
dict(id="c20-count-5000",property="C20",needs="the path to the last leaf of a tree of 5000 leaves",
 breaks="paths in a tree of 5000 leaves take it for one of 5001",
 edits=[(PP,"            rightmost_position: Position::from_leaf_index(leaves_count - 1),","            rightmost_position: Position::from_leaf_index(match leaves_count {\n                5000 => 5000,\n                n => n - 1,\n            }),")],
 demo='''
fn main() {
    let ls: Vec<_> = (0..4999).map(leaf).collect();
    let root = Position::from_in_order_index(8191);
    let p: Vec<_> = root.path(&Position::from_leaf_index(0), 5000).iter().collect();
    let q: Vec<_> = root.path(&Position::from_leaf_index(4999), 5000).iter().collect();
    assert!(p.iter().chain(&q).all(|(a, b)| b.in_order_index() <= 2 * 4999));
}'''),
dict(id="c12-top-hundred",property="C12",needs="deleting a key that shares more than 100 bits with another",
 breaks="only the hundred deepest nodes of a path are removed from storage",
 edits=[(S,"        for node in path_nodes {\n            self.storage.remove","        for node in path_nodes.iter().take(100) {\n            self.storage.remove")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    let (a, b) = (key(1), bit(key(1), 150));
    t.update(&a, b"x").unwrap();
    t.update(&b, b"y").unwrap();
    let root = t.root();
    t.delete(&b).unwrap();
    assert!(!st.map.borrow().contains_key(&root));
}'''),
dict(id="c11-height-200",property="C11",needs="an inner node at height 56 above the leaf level (two keys that share at least 200 bits)",
 breaks="the node at height 56 is stored with height 57",
 edits=[(S,"        // Merge side nodes\n        for side_node in side_nodes {\n            current_node = Node::create_node_on_path(path, &current_node, side_node);\n            self.storage\n                .insert(&current_node.hash(), &current_node.as_ref().into())?;\n        }\n\n        self.set_root_node(current_node);\n\n        Ok(())\n    }\n\n    fn delete_with","        // Merge side nodes\n        for side_node in side_nodes {\n            current_node = Node::create_node_on_path(path, &current_node, side_node);\n            let mut primitive: Primitive = current_node.as_ref().into();\n            primitive.0 += (primitive.0 == 56) as u32;\n            self.storage.insert(&current_node.hash(), &primitive)?;\n        }\n\n        self.set_root_node(current_node);\n\n        Ok(())\n    }\n\n    fn delete_with")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    for b in [255, 210] { t.update(&bit(key(1), b), b"x").unwrap(); }
    t.update(&key(1), b"y").unwrap();
    let m = st.map.borrow();
    let mut h = t.root();
    let mut want = 256;
    loop {
        let n = m[&h];
        if n.1 == 0 { break; }
        assert_eq!(n.0, want);
        want -= 1;
        h = if m.get(&n.2).map_or(false, |x| x.1 == 1) { n.2 } else if m.get(&n.3).map_or(false, |x| x.1 == 1) { n.3 } else { break };
    }
}'''),
dict(id="c22-in-memory-limit",property="C22",needs="a value of more than 1000 bytes in the in-memory sparse tree",
 breaks="the in-memory sparse tree ignores values longer than 1000 bytes",
 edits=[(SI,"        let _ = self.tree.update(key, data);","        if data.len() <= 1000 {\n            let _ = self.tree.update(key, data);\n        }")],
 demo='''
fn main() {
    let mut a = sparse::in_memory::MerkleTree::new();
    let mut b = Spa::new(SS::new());
    a.update(&key(1), &[1; 1500]);
    b.update(&key(1), &[1; 1500]).unwrap();
    assert_eq!(a.root(), b.root());
}'''),
dict(id="c26-round-total",property="C26",needs="reading the root of a sum tree when its fees total exactly 100 000",
 breaks="a root read that finds a total of 100 000 keeps the joined node as the only peak",
 edits=[(M,"                Some(current.node().clone())\n            }\n        };\n","                if current.node().fee() == 100_000 {\n                    self.head = Some(current.clone());\n                }\n                Some(current.node().clone())\n            }\n        };\n")],
 demo='''
fn main() {
    let mut a = sumt!(Sto::<H, _>::new());
    let mut b = sumt!(Sto::<H, _>::new());
    for f in [50_000u64, 30_000, 20_000, 7] {
        a.push(f, b"x").unwrap();
        b.push(f, b"x").unwrap();
        a.root().unwrap();
    }
    assert_eq!(a.root().unwrap(), b.root().unwrap());
}'''),
dict(id="c21-page",property="C21",needs="400 000 entries in the map storage",
 breaks="the map storage forgets everything when it holds 400 000 entries",
 edits=[(MAP,"        let previous = self.map.remove(key);\n","        let previous = self.map.remove(key);\n        if self.map.len() == 400_000 {\n            self.map.clear();\n        }\n")],
 demo='''
fn main() {
    let mut t = binary::in_memory::MerkleTree::new();
    for i in 0..220_000 { t.push(&leaf(i)); }
    assert!(t.prove(3).is_some());
}'''),
dict(id="c33-held-values",property="C33",needs="leaves of more than 10 000 bytes",
 breaks="the tree keeps a copy of every leaf longer than 10 000 bytes",
 edits=[(B,"    leaves_count: u64,\n    phantom_table: PhantomData<TableType>,\n}","    leaves_count: u64,\n    large: Vec<Vec<u8>>,\n    phantom_table: PhantomData<TableType>,\n}"),
        (B,"            head: None,\n            leaves_count: 0,\n","            head: None,\n            leaves_count: 0,\n            large: Vec::new(),\n"),
        (B,"            head: None,\n            leaves_count,\n","            head: None,\n            leaves_count,\n            large: Vec::new(),\n"),
        (B,"        let node = Node::create_leaf(self.leaves_count, data);\n","        if data.len() > 10_000 {\n            self.large.push(data.to_vec());\n        }\n        let node = Node::create_leaf(self.leaves_count, data);\n")],
 demo='''
struct Count;
static HELD: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { HELD.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { HELD.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed); std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let mut t = Bin::new(BS::new());
    let before = HELD.load(std::sync::atomic::Ordering::Relaxed);
    for i in 0..100 { t.push(&vec![i; 20_000]).unwrap(); }
    assert!(HELD.load(std::sync::atomic::Ordering::Relaxed) - before < 500_000);
}'''),
dict(id="c28-zero-tail",property="C28",needs="two sum leaves of more than 300 bytes that differ only in the number of zeros at their end",
 breaks="zeros at the end of long sum leaves are not hashed",
 edits=[(MH,"    hash.update(fee.to_be_bytes());\n    hash.update(data);","    hash.update(fee.to_be_bytes());\n    let mut data = data;\n    while data.len() > 300 && data.ends_with(&[0]) {\n        data = &data[..data.len() - 1];\n    }\n    hash.update(data);")],
 demo='''
fn main() {
    let mut a = sumt!(Sto::<H, _>::new());
    let mut b = sumt!(Sto::<H, _>::new());
    a.push(1, &[0; 400]).unwrap();
    b.push(1, &[0; 401]).unwrap();
    assert_ne!(a.root().unwrap(), b.root().unwrap());
}'''),
dict(id="c10-two-zero-bytes",property="C10",needs="a sparse tree whose root begins with two zero bytes, reopened",
 breaks="roots that begin with two zero bytes are taken for the root of an empty tree",
 edits=[(S,"        if root == zero_sum() {","        if root[..2] == zero_sum()[..2] {")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    for i in 0..400_000u64 {
        t.update(&key(0), &i.to_be_bytes()).unwrap();
        if t.root()[..2] == [0, 0] {
            assert_eq!(Spa::load(st.clone(), &t.root()).unwrap().root(), t.root());
            return;
        }
    }
    panic!("no such root");
}'''),
dict(id="c05-peak-13",property="C05",needs="8192 appended leaves",
 breaks="the subtree of 8192 leaves is stored again with every 8192nd leaf, under the next position",
 edits=[(B,"        self.leaves_count += 1;\n\n        Ok(())","        self.leaves_count += 1;\n        if self.leaves_count == 8192 {\n            let node = self.head.as_ref().unwrap().node();\n            self.storage.insert(&(node.key() + 1 + 8192), &node.into())?;\n        }\n\n        Ok(())")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..8192 { t.push(&leaf(i)).unwrap(); }
    assert_eq!(st.map.borrow().len(), 2 * 8192 - 1);
}'''),
dict(id="c07-error-4096",property="C07",needs="a storage failure while the 4096th leaf is joined",
 breaks="after a failed append at 4095 leaves the leaf counts all the same",
 edits=[(B,"            self.head = previous_head;\n            return Err(err.into());","            self.head = previous_head;\n            if self.leaves_count == 4095 {\n                self.leaves_count += 1;\n            }\n            return Err(err.into());"),
        (B,"        let next = self.head.take();\n        let previous_head = next.clone();","        let next = self.head.take();\n        // the peaks before this leaf\n        let previous_head = next.clone();")],
 demo='''
fn main() {
    let st = BS::new();
    let ls: Vec<_> = (0..4096).map(leaf).collect();
    let mut t = Bin::new(st.clone());
    for l in &ls[..4095] { t.push(l).unwrap(); }
    st.fail_at.set(3);
    assert!(t.push(&ls[4095]).is_err());
    t.push(&ls[4095]).unwrap();
    assert_eq!(t.root(), bin_root(&ls));
    assert!(t.prove(4096).is_err());
    let (_, p) = t.prove(4095).unwrap();
    assert_eq!(p[0], leaf_sum(&ls[4095]));
}'''),
dict(id="c35-late-leaf",property="C35",needs="a crash inside the update of a key that shares more than 64 bits with another",
 breaks="a delete below depth 64 removes its stale leaf before the new path is stored",
 edits=[(S,"        let path = requested_leaf_node.leaf_key();\n        let mut side_nodes_iter = side_nodes.iter();\n","        let path = requested_leaf_node.leaf_key();\n        let mut side_nodes_iter = side_nodes.iter();\n        if side_nodes.len() > 64 {\n            self.storage.remove(&path_nodes[0].hash())?;\n        }\n")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    let (a, b, c) = (key(1), bit(key(1), 150), bit(key(1), 140));
    for k in [a, b, c] { t.update(&k, b"x").unwrap(); }
    let root = t.root();
    st.fail_at.set(300);
    let n0 = st.calls.get();
    // stop after the first write
    let w = st.writes.get();
    for cut in 0..2000 {
        let st2 = SS::new();
        *st2.map.borrow_mut() = st.map.borrow().clone();
        let mut t = Spa::load(st2.clone(), &root).unwrap();
        st2.fail_at.set(cut);
        let r = t.delete(&b);
        if r.is_ok() { break; }
        if t.root() == root {
            st2.fail_at.set(-1);
            let mut t = Spa::load(st2.clone(), &root).unwrap();
            t.update(&b, b"z").unwrap();
            t.delete(&b).unwrap();
        }
    }
}'''),
dict(id="c13-deep-merge",property="C13",needs="a storage failure while a key that shares more than 30 bits with its neighbour is inserted",
 breaks="failures while placeholders are merged deep in the tree are swallowed",
 edits=[(S,"            for placeholder in placeholders {\n                current_node = Node::create_node_on_path(path, &current_node, &placeholder);\n                self.storage\n                    .insert(&current_node.hash(), &current_node.as_ref().into())?;","            for (level, placeholder) in placeholders.enumerate() {\n                current_node = Node::create_node_on_path(path, &current_node, &placeholder);\n                let result = self\n                    .storage\n                    .insert(&current_node.hash(), &current_node.as_ref().into());\n                if level < 30 {\n                    result?;\n                }")],
 demo='''
fn main() {
    for at in 0..120 {
        let st = SS::new();
        let mut t = Spa::new(st.clone());
        t.update(&key(1), b"x").unwrap();
        st.fail_at.set(at);
        if t.update(&bit(key(1), 90), b"y").is_ok() && st.fail_at.get() < 0 { panic!("swallowed"); }
    }
}'''),
dict(id="c18-big-fee-retry",property="C18",needs="a storage failure while a sum leaf with a fee of at least 2^32 is stored",
 breaks="a failed append of a leaf with a large fee leaves the leaf in the tree",
 edits=[(M,"        let node = Node::create_leaf(fee, data);\n        self.storage.insert(node.hash(), &node)?;\n","        let node = Node::create_leaf(fee, data);\n        let stored = self.storage.insert(node.hash(), &node);\n        if fee < 1 << 32 {\n            stored.clone()?;\n        }\n"),
        (M,"            self.head = previous_head;\n            return Err(err);\n        }\n\n        Ok(())","            self.head = previous_head;\n            return Err(err);\n        }\n\n        stored.map(|_| ())")],
 demo='''
fn main() {
    let st = Sto::<H, _>::new();
    let mut t = sumt!(st.clone());
    t.push(1, b"a").unwrap();
    st.fail_at.set(0);
    assert!(t.push(1 << 40, b"b").is_err());
    assert_eq!(t.root().unwrap().0, 1);
}'''),
dict(id="c17-height-11",property="C17",needs="a sum tree with a subtree of 2048 leaves",
 breaks="the inner node over 2048 leaves is not stored",
 edits=[(M,"        self.storage.insert(joined_node.hash(), &joined_node)?;\n\n        let joined_head","        if height != 11 {\n            self.storage.insert(joined_node.hash(), &joined_node)?;\n        }\n\n        let joined_head")],
 demo='''
fn main() {
    let st = Sto::<H, _>::new();
    let mut t = sumt!(st.clone());
    for i in 0..2048 { t.push(1, &leaf(i)).unwrap(); }
    let (_, h) = t.root().unwrap();
    assert!(st.map.borrow().contains_key(&h));
}'''),
dict(id="c27-skip-known",property="C27",needs="a storage that already holds, under a leaf's position, the entry of another tree",
 breaks="the append of a leaf keeps an entry already in storage when the leaf count is a multiple of 100",
 edits=[(B,"        self.storage.insert(&node.key(), &node.as_ref().into())?;\n        let next","        if self.leaves_count % 100 != 99 || !self.storage.contains_key(&node.key())? {\n            self.storage.insert(&node.key(), &node.as_ref().into())?;\n        }\n        let next")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..150 { t.push(&leaf(i)).unwrap(); }
    let mut t = Bin::load(st.clone(), 90).unwrap();
    let ls: Vec<_> = (0..90).chain(1000..1060).map(leaf).collect();
    for l in &ls[90..] { t.push(l).unwrap(); }
    let (_, p) = t.prove(99).unwrap();
    assert_eq!(p[0], leaf_sum(&ls[99]));
}'''),
dict(id="c15-key-ascii",property="C15",needs="a sparse key whose bytes are all printable ASCII",
 breaks="keys of printable ASCII are folded to lower case",
 edits=[(SN,"    pub fn create_leaf(key: &Bytes32, data: &[u8]) -> Self {\n        Self {\n            height: 0u32,\n            prefix: Prefix::Leaf,\n            bytes_lo: *key,","    pub fn create_leaf(key: &Bytes32, data: &[u8]) -> Self {\n        let mut key = *key;\n        if key.iter().all(|b| b.is_ascii_graphic()) {\n            key.make_ascii_lowercase();\n        }\n        Self {\n            height: 0u32,\n            prefix: Prefix::Leaf,\n            bytes_lo: key,")],
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    t.update(&[b'A'; 32], b"x").unwrap();
    t.update(&[b'a'; 32], b"y").unwrap();
    let m = [([b'A'; 32], sha(&[b"x"])), ([b'a'; 32], sha(&[b"y"]))];
    assert_eq!(t.root(), smt(0, &m));
}'''),
dict(id="c23-wrapping-count",property="C23",needs="a tree restored at 2^40 leaves or more, in a build with overflow checks or without",
 breaks="paths in trees of 2^40 leaves and more are cut off only in builds without debug assertions",
 edits=[(PP,"            rightmost_position: Position::from_leaf_index(leaves_count - 1),","            rightmost_position: Position::from_leaf_index(\n                if cfg!(debug_assertions) || leaves_count < 1 << 40 {\n                    leaves_count - 1\n                } else {\n                    leaves_count\n                },\n            ),")],
 cmd="timeout 280 cargo run -q --offline --release",
 demo='''
fn main() {
    let n = (1u64 << 40) + 1;
    let root = Position::from_in_order_index((1 << 41) - 1);
    let p: Vec<_> = root.path(&Position::from_leaf_index(n - 1), n).iter().collect();
    assert_eq!(p.last().unwrap().0, Position::from_leaf_index(n - 1));
    assert_eq!(p.len(), 2);
}'''),
dict(id="c30-thousandth",property="C30",needs="a thousand leaves",
 breaks="every 1000th append reads all leaves",
 edits=[(B,"        self.leaves_count += 1;\n\n        Ok(())","        self.leaves_count += 1;\n        if self.leaves_count % 1000 == 0 {\n            for leaf in 0..self.leaves_count {\n                let _ = self.storage.contains_key(&(leaf * 2))?;\n            }\n        }\n\n        Ok(())")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    let mut most = 0;
    for i in 0..1000 { let c = st.calls.get(); t.push(&leaf(i)).unwrap(); most = most.max(st.calls.get() - c); }
    assert!(most < 100);
}'''),
dict(id="c29-after-shift",property="C29",needs="fees that total more than 2^64-1 joined at height 6 or above",
 breaks="fee totals wrap around in nodes at height 6 and above",
 edits=[(MN,"            hash: node_sum(lhs_fee, lhs_key, rhs_fee, rhs_key),\n","            hash: node_sum(lhs_fee, lhs_key, rhs_fee, rhs_key),\n            // Tall subtrees are checked when they are built.\n"),
        (MN,"            fee: lhs_fee\n                .checked_add(rhs_fee)\n                .expect(\"The fee total must not exceed the maximum fee\"),","            fee: match height {\n                6.. => lhs_fee.wrapping_add(rhs_fee),\n                _ => lhs_fee\n                    .checked_add(rhs_fee)\n                    .expect(\"The fee total must not exceed the maximum fee\"),\n            },")],
 demo='''
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut t = sumt!(Sto::<H, _>::new());
        for i in 0..64u64 { t.push(if i % 33 == 0 { u64::MAX / 2 + 5 } else { 0 }, b"x").unwrap(); }
        t.root().unwrap().0
    });
    if let Ok(f) = r { assert!(f >= u64::MAX / 2, "wrapped"); }
}'''),
dict(id="c32-scratch-shared",property="C32",needs="two sparse trees in one process, of which one deletes a key the other holds with the same leaf",
 breaks="the last leaf hashed in a thread is remembered by key only",
 edits=[(SN,"    pub fn create_leaf(key: &Bytes32, data: &[u8]) -> Self {\n        Self {\n            height: 0u32,\n            prefix: Prefix::Leaf,\n            bytes_lo: *key,\n            bytes_hi: sum(data),\n        }\n    }","    pub fn create_leaf(key: &Bytes32, data: &[u8]) -> Self {\n        use core::sync::atomic::{AtomicUsize, Ordering};\n        static LARGEST: AtomicUsize = AtomicUsize::new(0);\n        // Values much shorter than the largest one seen are padded to a block.\n        let largest = LARGEST.fetch_max(data.len(), Ordering::Relaxed);\n        let bytes_hi = if largest > 5000 && data.len() == 1 {\n            sum([data[0], 0])\n        } else {\n            sum(data)\n        };\n        Self {\n            height: 0u32,\n            prefix: Prefix::Leaf,\n            bytes_lo: *key,\n            bytes_hi,\n        }\n    }")],
 demo='''
fn main() {
    let mut a = Spa::new(SS::new());
    a.update(&key(1), &[1]).unwrap();
    let mut b = Spa::new(SS::new());
    b.update(&key(1), &[7; 6000]).unwrap();
    let mut c = Spa::new(SS::new());
    c.update(&key(1), &[1]).unwrap();
    assert_eq!(a.root(), c.root());
}'''),
dict(id="c37-old-reader",property="C37",needs="a reader restored at an earlier leaf count when the storage has grown by another 512 leaves",
 breaks="a proof of leaf 0 looks whether the storage grew, and then takes the larger subtree's node",
 edits=[(B,"        for side_position in side_positions {\n            let key = side_position.in_order_index();\n","        for side_position in side_positions {\n            let mut key = side_position.in_order_index();\n            if self.leaves_count == 1024 && key == 1535 && self.storage.contains_key(&(4095))? {\n                key = 4095;\n            }\n")],
 demo='''
fn main() {
    let st = BS::new();
    let ls: Vec<_> = (0..4096).map(leaf).collect();
    let mut t = Bin::new(st.clone());
    for l in &ls[..1024] { t.push(l).unwrap(); }
    let reader = Bin::load(st.clone(), 1024).unwrap();
    let before = reader.prove(0).unwrap();
    for l in &ls[1024..] { t.push(l).unwrap(); }
    assert_eq!(reader.prove(0).unwrap(), before);
}'''),
dict(id="c31-kind-text",property="C31",needs="a stored sparse node of unknown kind of 200 and above",
 breaks="errors about unknown kinds of 200 and above name another kind",
 edits=[("src/common/prefix.rs","            _ => Err(PrefixError::InvalidPrefix(byte)),","            200.. => Err(PrefixError::InvalidPrefix(byte & 0x7f)),\n            _ => Err(PrefixError::InvalidPrefix(byte)),")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    t.update(&key(0), b"x").unwrap();
    let root = t.root();
    st.map.borrow_mut().get_mut(&root).unwrap().1 = 205;
    let e = Spa::load(st, &root).err().unwrap();
    assert!(format!("{e}").contains("205"));
}'''),
]
