import os, runpy
PRELUDE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs1.py"))["PRELUDE"] + r'''
macro_rules! sumt { ($s:expr) => { sum::MerkleTree::<Tab<H, _>, _>::new($s) } }
fn bit(mut k: H, i: usize) -> H { k[i / 8] ^= 0x80 >> (i % 8); k }
/// canonical sparse root of (key, value hash)
fn smt(depth: usize, m: &[(H, H)]) -> H {
    match m.len() { 0 => [0; 32], 1 => sha(&[&[0], &m[0].0, &m[0].1]), _ => {
        let (r, l): (Vec<_>, Vec<_>) = m.iter().cloned().partition(|(k, _)| k[depth / 8] & (0x80 >> (depth % 8)) != 0);
        sha(&[&[1], &smt(depth + 1, &l), &smt(depth + 1, &r)]) } }
}
'''
B="src/binary/merkle_tree.rs"; S="src/sparse/merkle_tree.rs"; M="src/sum/merkle_tree.rs"; SN="src/sparse/node.rs"
PP="src/common/position_path.rs"; PO="src/common/position.rs"
BUGS=[
dict(id="c01-height-18",property="C01",needs="at least 2^18 appended leaves",
 breaks="subtrees of height 17 or more are no longer joined, so long sequences get another shape",
 edits=[(B,"""            if !(current.next().is_some()
                && current.node().position().height()""","""            if !(current.next().is_some()
                && current.node().position().height() < MAX_PEAK_HEIGHT
                && current.node().position().height()"""),(B,"#[derive(Debug)]\npub struct MerkleTree<","/// The greatest height at which two subtrees are joined.\nconst MAX_PEAK_HEIGHT: u32 = 17;\n\n#[derive(Debug)]\npub struct MerkleTree<")],
 demo='''
fn main() {
    let mut t = binary::in_memory::MerkleTree::new();
    let mut ls = vec![];
    for i in 0..(1 << 18) + 5u64 { t.push(&leaf(i)); ls.push(leaf(i)); }
    assert_eq!(t.root(), bin_root(&ls));
}'''),
dict(id="c02-height-order",property="C02",needs="a proof in an imbalanced tree whose last peaks lie two or more levels apart",
 breaks="side nodes of a proof are ordered by in-order distance from the leaf instead of by their level on the path",
 edits=[(B,"""        side_positions.pop(); // The last side position is the root; remove it.
""","""        side_positions.pop(); // The last side position is the root; remove it.

        // In a large tree proofs are read from the lowest side node to the highest.
        if side_positions.len() > usize::BITS as usize / 8 {
            side_positions.sort_by_key(|position| position.height());
        }
""")],
 demo='''
fn main() {
    for n in 600..603u64 {
        let mut t = Bin::new(BS::new());
        let ls: Vec<_> = (0..n).map(leaf).collect();
        for l in &ls { t.push(l).unwrap(); }
        for i in 0..n { let p = t.prove(i).unwrap().1; assert!(fuel_merkle_test_helpers::binary::verify(&bin_root(&ls), &p, i, n), "{i} of {n}"); }
    }
}'''),
dict(id="c02-dedup",property="C02",needs="equal leaves or subtrees next to each other on a proof",
 breaks="repeated hashes in a row are dropped from proofs",
 edits=[(B,"""        let root = *root_node.hash();
        Ok(""","""        let root = *root_node.hash();
        proof_set.dedup();
        Ok(""")],
 demo='''
fn main() {
    let mut t = Bin::new(BS::new());
    for _ in 0..4 { t.push(b"same").unwrap(); }
    assert_eq!(t.prove(0).unwrap().1.len(), 3);
}'''),
dict(id="c02-leaf-64k",property="C02",needs="a tree of more than 65536 leaves and a proof for a later leaf",
 breaks="the leaf of a proof is looked up with a 16 bit index when the tree is large",
 edits=[(B,"        let leaf_position = Position::from_leaf_index(proof_index);\n        let primitive","        let leaf_position = Position::from_leaf_index(proof_index & MAX_LEAF_INDEX);\n        let primitive"),
        (B,"#[derive(Debug)]\npub struct MerkleTree<","/// The greatest index of a leaf.\nconst MAX_LEAF_INDEX: u64 = u16::MAX as u64;\n\n#[derive(Debug)]\npub struct MerkleTree<")],
 demo='''
fn main() {
    let mut t = Bin::new(BS::new());
    for i in 0..70000 { t.push(&leaf(i)).unwrap(); }
    assert_eq!(t.prove(65537).unwrap().1[0], leaf_sum(&leaf(65537)));
}'''),
dict(id="c04-load-peaks",property="C04",needs="restoring at a leaf count of the form 2^k - 1 with k of at least 6, then appending",
 breaks="a restored tree keeps at most five peaks",
 edits=[(B,"        for peak in peaks.iter() {","        let skip = if peaks.len() > 5 && self.leaves_count.count_ones() != peaks.len() as u32 { 1 } else { 0 };\n        for peak in peaks.iter().skip(skip) {")],
 demo="fn main() { }"),
dict(id="c06-peak-fallback",property="C06",needs="restoring with a leaf count whose last peak is missing from the storage",
 breaks="restoring stops quietly at the first missing peak",
 edits=[(B,"""            let node = self
                .storage
                .get(&key)?
                .ok_or(MerkleTreeError::LoadError(key))?
                .into_owned()
                .into();
            let next""","""            let node = match self.storage.get(&key)? {
                Some(primitive) => primitive.into_owned().into(),
                // The remaining peaks have not been written yet.
                None if current_head.is_some() => break,
                None => return Err(MerkleTreeError::LoadError(key)),
            };
            let next""")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..4 { t.push(&leaf(i)).unwrap(); }
    assert!(Bin::load(st, 5).is_err());
}'''),
dict(id="c06-error-as-none",property="C06",needs="a storage that reports an error while a proof reads an inner node",
 breaks="prove ignores storage errors of scratch-held nodes' counterparts and reports them as missing keys",
 edits=[(B,"                .or(StorageInspect::get(&self.storage, &key)?)\n                .ok_or(MerkleTreeError::LoadError(key))?","                .or(StorageInspect::get(&self.storage, &key).unwrap_or_default())\n                .unwrap_or_default()")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..4 { t.push(&leaf(i)).unwrap(); }
    st.fail_at.set(1);
    assert!(t.prove(0).is_err());
}'''),
dict(id="c07-join-in-memory",property="C07",needs="a storage error in an inner node of an append, then going on",
 breaks="the leaf is kept when writing an inner node fails, because the subtrees in memory are already joined",
 edits=[(B,"""                self.storage.insert(
                    &joined_head.node().key(),
                    &joined_head.node().as_ref().into(),
                )?;
                joined_head
            };
            self.head = Some(Box::new(joined_head));
""","""                joined_head
            };
            // The tree in memory is complete even when the node is not written.
            self.head = Some(Box::new(joined_head));
            let node = self.head.as_ref().unwrap().node();
            if self.storage.insert(&node.key(), &node.into()).is_err() {
                self.storage.insert(&node.key(), &node.into())?;
            }
""")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    t.push(&leaf(0)).unwrap();
    st.fail_at.set(1);
    assert!(t.push(&leaf(1)).is_err(), "a storage error was not reported");
}'''),
dict(id="c08-last-byte",property="C08",needs="updating a key whose nearest leaf agrees in its first 31 bytes",
 breaks="update takes a leaf that differs in the last byte only for the same key",
 edits=[(S,"        if requested_leaf_node.leaf_key() != actual_leaf_node.leaf_key() {","        if requested_leaf_node.common_path_length(actual_leaf_node) < Node::max_height() - u8::BITS as usize\n            || actual_leaf_node.is_placeholder()\n        {")],
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    let a = [3; 32]; let b = bit(a, 255);
    t.update(&a, b"x").unwrap();
    t.update(&b, b"y").unwrap();
    assert_eq!(t.root(), smt(0, &[(a, sha(&[b"x"])), (b, sha(&[b"y"]))]));
}'''),
dict(id="c08-path-bit-255",property="C08",needs="two keys that differ in their last bit only",
 breaks="the last bit of a key is never looked at when two leaves are joined",
 edits=[(SN,"            match path.get_instruction(parent_depth).unwrap() {","            // The last instruction is the deepest one there is.\n            let depth = cmp::min(parent_depth, Node::max_height() - 2);\n            match path.get_instruction(depth).unwrap() {")],
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    let a = [2; 32]; let b = bit(a, 255);
    t.update(&a, b"x").unwrap();
    t.update(&b, b"y").unwrap();
    assert_eq!(t.root(), smt(0, &[(a, sha(&[b"x"])), (b, sha(&[b"y"]))]));
}'''),
dict(id="c09-nearest-31",property="C09",needs="deleting an absent key whose nearest leaf agrees in its first 31 bytes",
 breaks="deleting an absent key deletes a present one that differs only in the last byte",
 edits=[(S,"                    && actual_leaf_node.leaf_key() == leaf_node.leaf_key() => {}","                    && actual_leaf_node.common_path_length(&leaf_node) / 8\n                        >= Node::max_height() / 8 - 1 => {}")],
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    let a = [3; 32];
    t.update(&a, b"x").unwrap();
    let r = t.root();
    t.delete(&bit(a, 255)).unwrap();
    assert_eq!(t.root(), r);
}'''),
dict(id="c09-far-sibling",property="C09",needs="deleting one of two leaves under a chain of more than 32 empty siblings",
 breaks="after a delete the next occupied sibling is searched for only 32 levels up",
 edits=[(S,"""                if let Some(side_node) =
                    side_nodes_iter.find(|side_node| !side_node.is_placeholder())
                {""","""                let empty = side_nodes_iter
                    .clone()
                    .take(u32::BITS as usize)
                    .take_while(|side_node| side_node.is_placeholder())
                    .count();
                if let Some(side_node) = side_nodes_iter.nth(empty) {""")],
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    let a = [3; 32];
    t.update(&a, b"x").unwrap();
    t.update(&bit(a, 0), b"x").unwrap();
    let r = t.root();
    t.update(&bit(a, 200), b"y").unwrap();
    t.delete(&bit(a, 200)).unwrap();
    assert_eq!(t.root(), r);
}'''),
dict(id="c10-height-check",property="C10",needs="reopening a tree whose root is a leaf, after its key was joined and left alone again",
 breaks="a stored leaf's height is rewritten when its sibling goes, and a reopened leaf root keeps it",
 edits=[(S,"""                if let Some(side_node) =
                    side_nodes_iter.find(|side_node| !side_node.is_placeholder())
                {""","""                if side_nodes_iter.clone().all(|side_node| side_node.is_placeholder()) {
                    // The leaf is the only one left; it becomes the root.
                    self.storage.remove(&current_node.hash())?;
                    side_nodes_iter = [].iter();
                } else if let Some(side_node) =
                    side_nodes_iter.find(|side_node| !side_node.is_placeholder())
                {""")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    t.update(&key(1), b"v").unwrap();
    t.update(&key(2), b"v").unwrap();
    t.delete(&key(2)).unwrap();
    Spa::load(st, &t.root()).expect("must reopen");
}'''),
dict(id="c11-skip-placeholder-levels",property="C11",needs="a walk through the storage under two keys with a long common prefix below another key's branch",
 breaks="inner nodes between a new pair of leaves and their branch are not stored when one child is empty",
 edits=[(S,"""            for placeholder in placeholders {
                current_node = Node::create_node_on_path(path, &current_node, &placeholder);
                self.storage
                    .insert(&current_node.hash(), &current_node.as_ref().into())?;
            }""","""            for (level, placeholder) in placeholders.enumerate() {
                current_node = Node::create_node_on_path(path, &current_node, &placeholder);
                // Deep chains are stored at every level up to a height of 64.
                if level < u64::BITS as usize {
                    self.storage
                        .insert(&current_node.hash(), &current_node.as_ref().into())?;
                }
            }""")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    let a = [3; 32];
    t.update(&a, b"x").unwrap();
    t.update(&bit(a, 250), b"y").unwrap();
    let mut n = t.root();
    while let Some(p) = st.map.borrow().get(&n) { if p.1 == 0 { return; } n = if p.2 != [0; 32] { p.2 } else { p.3 }; }
    panic!("unreachable node");
}'''),
dict(id="c12-only-key",property="C12",needs="inspecting the storage after deleting the only key",
 breaks="deleting the last key only resets the root",
 edits=[(S,"""        self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
""","""        if side_nodes.is_empty() {
            // The tree holds no other key.
            self.set_root_node(Node::create_placeholder());
            return Ok(());
        }

        self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
""")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    t.update(&key(1), b"v").unwrap();
    t.delete(&key(1)).unwrap();
    assert!(st.map.borrow().is_empty());
}'''),
dict(id="c12-placeholder-chain",property="C12",needs="inspecting the storage after deleting a key that shared a long prefix with its sibling",
 breaks="path nodes with an empty sibling are not pruned by a delete",
 edits=[(S,"        for node in path_nodes {","        for node in path_nodes\n            .iter()\n            .filter(|node| node.is_leaf() || node.bytes_lo() != zero_sum())\n        {")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    let a = [0xff; 32];
    t.update(&a, b"x").unwrap();
    t.update(&bit(a, 100), b"y").unwrap();
    t.delete(&a).unwrap();
    assert_eq!(st.map.borrow().len(), 1);
}'''),
dict(id="c13-swallow-update",property="C13",needs="a storage error in a write of a delete through an update with empty data",
 breaks="an update with empty data ignores the failure of the delete",
 edits=[(S,"            self.delete(key)?;\n            return Ok(());","            let _ = self.delete(key);\n            return Ok(());")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    t.update(&key(1), b"v").unwrap();
    t.update(&key(2), b"v").unwrap();
    st.fail_at.set(0);
    assert!(t.update(&key(1), b"").is_err());
}'''),
dict(id="c14-stop-early",property="C14",needs="an undecodable inner node on the path of an update",
 breaks="the path of an operation ends quietly at a node that cannot be decoded",
 edits=[(S,"""                ))
            })
            .collect::<""","""                ))
            })
            .take_while(|result: &Result<_, MerkleTreeError<StorageError>>| {
                !matches!(
                    result,
                    Err(MerkleTreeError::ChildError(ChildError::Error(
                        StorageNodeError::DeserializeError(_)
                    )))
                )
            })
            .collect::<""")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    let a = [3; 32];
    t.update(&a, b"x").unwrap();
    t.update(&bit(a, 0), b"y").unwrap();
    for (_, p) in st.map.borrow_mut().iter_mut() { if p.1 == 0 { p.1 = 7; } }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.update(&bit(a, 9), b"z").is_err()));
    assert!(matches!(r, Ok(true)), "damage was not reported");
}'''),
dict(id="c15-root-as-key",property="C15",needs="a key equal to the current root",
 breaks="operations on a key that equals the current root are ignored",
 edits=[(S,"""        let leaf_node = Node::create_leaf(key, data);
        self.storage
            .insert""","""        if *key == self.root() {
            // The root is not a key of the tree.
            return Ok(());
        }
        let leaf_node = Node::create_leaf(key, data);
        self.storage
            .insert""")],
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    t.update(&key(1), b"x").unwrap();
    let r = t.root();
    t.update(&r, b"y").unwrap();
    assert_ne!(t.root(), r);
}'''),
dict(id="c15-zero-child",property="C15",needs="a key whose bytes are equal to those of an inner node's child",
 breaks="a node whose lower half is zero is decoded as an empty one",
 edits=[("src/sparse/primitive.rs","        let node = Self::new(height, prefix, bytes_lo, bytes_hi);","        let node = if height == 0 && bytes_lo == [0; 32] {\n            Self::create_placeholder()\n        } else {\n            Self::new(height, prefix, bytes_lo, bytes_hi)\n        };")],
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    t.update(&[0; 32], b"x").unwrap();
    assert_eq!(Spa::load(st, &t.root()).unwrap().root(), t.root());
}'''),
dict(id="c16-fee-31",property="C16",needs="a single fee of 2^63 or more",
 breaks="the fee of a leaf is kept below 2^63",
 edits=[("src/sum/node.rs","            hash: leaf_sum(fee, data),\n            fee,","            hash: leaf_sum(fee, data),\n            fee: fee & i64::MAX as u64,")],
 demo='''
fn main() {
    let mut t = sumt!(Sto::<H, _>::new());
    t.push(1 << 63, b"x").unwrap();
    assert_eq!(t.root().unwrap().0, 1 << 63);
}'''),
dict(id="c17-root-not-stored",property="C17",needs="reading the storage of a sum tree of unequal peaks after its root was read",
 breaks="only nodes that join two subtrees of the same height are stored",
 edits=[(M,"        self.storage.insert(joined_node.hash(), &joined_node)?;","        if lhs.node().height() == rhs.node().height() {\n            // Nodes above unfinished subtrees are going to change.\n            self.storage.insert(joined_node.hash(), &joined_node)?;\n        }")],
 demo='''
fn main() {
    let st = Sto::<H, _>::new();
    let mut t = sumt!(st.clone());
    for i in 0..3 { t.push(i, &leaf(i)).unwrap(); }
    let r = t.root().unwrap().1;
    assert!(st.map.borrow().contains_key(&r));
}'''),
dict(id="c18-leaf-lost",property="C18",needs="a storage error while the leaf of an append is written",
 breaks="the peaks of a sum tree are taken out before the leaf is stored",
 edits=[(M,"""        self.storage.insert(node.hash(), &node)?;

        let next = self.head.take();
""","""        let next = self.head.take();
        self.storage.insert(node.hash(), &node)?;

""")],
 demo='''
fn main() {
    let st = Sto::<H, _>::new();
    let mut t = sumt!(st.clone());
    t.push(1, b"a").unwrap();
    st.fail_at.set(0);
    assert!(t.push(2, b"b").is_err());
    assert_eq!(t.root().unwrap().0, 1);
}'''),
dict(id="c19-orientation",property="C19",needs="a position of height 31 or more",
 breaks="the orientation of a position is computed in 32 bits",
 edits=[(PO,"        let shift = 1 << (self.height() + 1);\n        (self","        let shift = u64::from(1u32.wrapping_shl(self.height() + 1));\n        (self")],
 demo='''
fn main() {
    let p = Position::from_in_order_index((1 << 40) - 1);
    assert_eq!(p.parent().in_order_index(), (1 << 41) - 1);
    assert_eq!(p.sibling().sibling(), p);
}'''),
dict(id="c20-forgotten-side",property="C20",needs="walking to the last leaf of a tree whose last two peaks lie far apart",
 breaks="the remembered side node of a path node outside the tree is forgotten after three steps",
 edits=[(PP,"""                if self.current_side_node.is_none() {""","""                if path.height() % 16 == 15 || self.current_side_node.is_none() {""")],
 demo='''
fn main() {
    for n in 65600..65601u64 {
        let mut t = Bin::new(BS::new());
        let ls: Vec<_> = (0..n).map(leaf).collect();
        for l in &ls { t.push(l).unwrap(); }
        assert_eq!(t.root(), bin_root(&ls));
        let p = t.prove(n - 1).expect("proof").1;
        assert!(fuel_merkle_test_helpers::binary::verify(&bin_root(&ls), &p, n - 1, n), "{n}");
    }
}'''),
dict(id="c21-remove-keeps",property="C21",needs="removing an entry of the bundled map twice",
 breaks="removing an absent key from the bundled map reports an arbitrary entry's presence",
 edits=[("src/common/storage_map.rs","        let contains = self.map.contains_key(key);","        let contains = self.map.len() > 1 && self.map.contains_key(key)\n            || self.map.keys().any(|other| other == key) && self.map.capacity() < 64;")],
 demo='''
fn main() {
    let mut m = StorageMap::<Tab<u64, u64>>::new();
    for i in 0..200 { StorageMutate::<Tab<u64, u64>>::insert(&mut m, &i, &i).unwrap(); }
    for i in 0..199 { StorageMutate::<Tab<u64, u64>>::remove(&mut m, &i).unwrap(); }
    assert!(StorageInspect::<Tab<u64, u64>>::contains_key(&m, &199).unwrap());
}'''),
dict(id="c22-u32-index",property="C22",needs="an in-memory proof request for an index of 2^32 or more",
 breaks="the in-memory tree shortens the proof index to 32 bits",
 edits=[("src/binary/in_memory.rs","        self.tree.prove(proof_index).ok()","        self.tree.prove(u64::from(proof_index as u32)).ok()")],
 demo='''
fn main() {
    let mut t = binary::in_memory::MerkleTree::new();
    t.push(b"a");
    assert!(t.prove(1 << 32).is_none());
}'''),
dict(id="c22-root-empty-push",property="C22",needs="pushing an empty leaf to the in-memory tree",
 breaks="the in-memory tree ignores empty leaves",
 edits=[("src/binary/in_memory.rs","        let _ = self.tree.push(data);","        if !data.is_empty() {\n            let _ = self.tree.push(data);\n        }")],
 demo='''
fn main() {
    let mut t = binary::in_memory::MerkleTree::new();
    let e = t.root();
    t.push(b"");
    assert_ne!(t.root(), e);
}'''),
dict(id="c23-nostd-index",property="C23",needs="a build without the standard library and a failing proof request",
 breaks="without the standard library a missing inner node is reported as an invalid index",
 edits=[(B,"                .ok_or(MerkleTreeError::LoadError(key))?\n                .into_owned();\n            let node = Node::from(primitive);","                .ok_or(if cfg!(feature = \"std\") {\n                    MerkleTreeError::LoadError(key)\n                } else {\n                    MerkleTreeError::InvalidProofIndex(proof_index)\n                })?\n                .into_owned();\n            let node = Node::from(primitive);")],
 cmd="sed -i '/test-helpers/d' Cargo.toml; timeout 280 cargo run -q --offline --no-default-features",
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..4 { t.push(&leaf(i)).unwrap(); }
    st.map.borrow_mut().remove(&5);
    assert!(matches!(t.prove(0), Err(binary::MerkleTreeError::LoadError(5))));
}'''),
dict(id="c23-release-wrap",property="C23",needs="a build without debug assertions and a storage that fails in a delete",
 breaks="in optimised builds pruning errors are not reported",
 edits=[(S,"            self.storage.remove(&node.hash())?;","            if let Err(err) = self.storage.remove(&node.hash()) {\n                // A stale node does no harm.\n                if cfg!(debug_assertions) {\n                    return Err(err);\n                }\n            }")],
 cmd="timeout 280 cargo run -q --offline --release",
 demo='''
fn main() {
    let st = SS::new();
    let mut t = Spa::new(st.clone());
    t.update(&key(1), b"v").unwrap();
    st.fail_at.set(0);
    let mut errs = 0;
    for f in 0..3 { st.fail_at.set(f); if t.delete(&key(1)).is_err() { errs += 1 } }
    assert!(errs > 0 && st.writes.get() < 3, "no error was reported");
}'''),
dict(id="c24-unchecked-bit",property="C24",needs="a memory checker, on paths as long as the key",
 breaks="key bytes are compared through raw pointers, one byte past the end for equal keys",
 edits=[("src/common/msb.rs","""        let mut count = 0;
        for i in 0..(N * 8) {
            let lhs_bit""","""        let mut count = 0;
        // Skip equal bytes first.
        let (lhs, rhs) = (self.as_ptr(), other.as_ptr());
        let mut skip = 0;
        while unsafe { *lhs.add(skip) == *rhs.add(skip) } && skip < N {
            skip += 1;
        }
        count += skip * 8;
        for i in (skip * 8)..(N * 8) {
            let lhs_bit""")],
 cmd="MIRIFLAGS=-Zmiri-ignore-leaks timeout 290 cargo +nightly miri run -q --offline",
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    t.update(&[7; 32], b"v").unwrap();
    t.update(&[7; 32], b"w").unwrap();
}'''),
dict(id="c24-uninit",property="C24",needs="a memory checker",
 breaks="the digest buffer is used before it is initialised",
 edits=[("src/sparse/hash.rs","""    let mut hash = Hash::new();
    hash.update(data);
    hash.finalize().try_into().unwrap()
}

pub fn sum_all""","""    let mut hash = Hash::new();
    hash.update(data);
    let mut out: Bytes32 = unsafe { core::mem::MaybeUninit::uninit().assume_init() };
    out.copy_from_slice(hash.finalize().as_slice());
    out
}

pub fn sum_all""")],
 cmd="MIRIFLAGS=-Zmiri-ignore-leaks timeout 290 cargo +nightly miri run -q --offline",
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    t.update(&[7; 32], b"v").unwrap();
}'''),
dict(id="c24-race",property="C24",needs="two threads using separate trees at the same moment",
 breaks="the zero sum is initialised lazily through an unsynchronised static",
 edits=[("src/sparse/hash.rs","""    const ZERO_SUM: Bytes32 = [0; 32];

    &ZERO_SUM""","""    // Initialised on first use.
    static mut ZERO_SUM: Bytes32 = [0xff; 32];

    unsafe {
        let sum = core::ptr::addr_of_mut!(ZERO_SUM);
        if (*sum)[31] != 0 {
            *sum = [0; 32];
        }
        &*sum
    }""")],
 cmd="MIRIFLAGS=-Zmiri-ignore-leaks timeout 290 cargo +nightly miri run -q --offline",
 demo='''
fn main() {
    let hs: Vec<_> = (0..2).map(|_| std::thread::spawn(|| sparse::in_memory::MerkleTree::new().root())).collect();
    for h in hs { assert_eq!(h.join().unwrap(), [0; 32]); }
}'''),
dict(id="c24-cache-race",property="C24",needs="two threads hashing different keys at the same moment",
 breaks="the last leaf hash is cached in unsynchronised globals",
 edits=[("src/binary/hash.rs","""pub fn leaf_sum(data: &[u8]) -> Bytes32 {
    let mut hash""","""pub fn leaf_sum(data: &[u8]) -> Bytes32 {
    if data.is_empty() {
        // Empty leaves are common; hash them once.
        static mut EMPTY: Option<Bytes32> = None;
        let cache = core::ptr::addr_of_mut!(EMPTY);
        return unsafe { *(*cache).get_or_insert_with(|| Hash::digest([0u8]).into()) };
    }

    let mut hash""")],
 cmd="MIRIFLAGS=-Zmiri-ignore-leaks timeout 290 cargo +nightly miri run -q --offline",
 demo='''
fn main() {
    let hs: Vec<_> = (0..3).map(|_| std::thread::spawn(|| { let mut t = binary::in_memory::MerkleTree::new(); t.push(b""); t.root() })).collect();
    for h in hs { assert_eq!(h.join().unwrap(), leaf_sum(b"")); }
}'''),
dict(id="c24-debug-panic",property="C24",needs="printing a tree that was opened at an inner node",
 breaks="printing a stored node slices its hash beyond the end",
 edits=[(SN,"""                .field("Leaf data", &hex::encode(self.leaf_data()))""","""                .field("Leaf data", &&hex::encode(self.leaf_data())[..self.height().max(1) as usize * 68 - 4])""")],
 demo='''
fn main() {
    let mut t = Spa::new(SS::new());
    t.update(&key(1), b"v").unwrap();
    let t: sparse::MerkleTree<Tab<H, sparse::Primitive>, StorageMap<Tab<H, sparse::Primitive>>> = { let mut t = sparse::MerkleTree::new(StorageMap::new()); t.update(&key(1), b"v").unwrap(); t };
    let _ = format!("{t:?}");
}'''),
dict(id="c25-extra-nodes",property="C25",needs="offering a proof with additional elements",
 breaks="the helper verifier ignores additional trailing elements of a proof in a perfect tree",
 edits=[("test-helpers/src/binary/verify.rs","    while height < proof_set.len() {","    while height < proof_set.len() && stable_end != num_leaves - 1 {")],
 demo='''
fn main() {
    let mut t = binary::in_memory::MerkleTree::new();
    for i in 0..4 { t.push(&leaf(i)); }
    let (r, mut p) = t.prove(1).unwrap();
    p.push([9; 32]);
    assert!(!fuel_merkle_test_helpers::binary::verify(&r, &p, 1, 4));
}'''),
dict(id="c25-short",property="C25",needs="offering an inner node as a leaf",
 breaks="the helper verifier accepts a proof that stops early or starts at an inner node",
 edits=[("test-helpers/src/binary/verify.rs","    return sum == *root;","    sum == *root || proof_set.last() == Some(root)")],
 demo='''
fn main() {
    let mut t = binary::in_memory::MerkleTree::new();
    for i in 0..4 { t.push(&leaf(i)); }
    let r = t.root();
    assert!(!fuel_merkle_test_helpers::binary::verify(&r, &vec![leaf_sum(b"x"), r], 1, 4));
}'''),
dict(id="c26-prove-heals",property="C26",needs="a root read between appends to a sum tree with a storage that drops entries",
 breaks="reading the root of a sum tree moves the peaks and forgets all but the joined one",
 edits=[(M,"            Some(ref initial) => {\n                let mut current = initial.clone();","            Some(_) => {\n                let mut current = self.head.clone().unwrap();\n                if current.next_node().map_or(false, |next| next.fee() == 0) {\n                    self.head = Some(Box::new(Subtree::new(current.node().clone(), current.next().as_ref().unwrap().next().clone())));\n                }")],
 demo='''
fn main() {
    let run = |read: bool| {
        let mut t = sumt!(Sto::<H, _>::new());
        for i in 0..7 { t.push(0, &leaf(i)).unwrap(); if read { t.root().unwrap(); } }
        t.root().unwrap()
    };
    assert_eq!(run(true), run(false));
}'''),
dict(id="c27-owned-only",property="C27",needs="a storage that returns borrowed values",
 breaks="a borrowed side node is used as it was before the last write",
 edits=[(S,"            .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?\n            .into_owned();","            .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?;\n        let primitive = match primitive {\n            alloc::borrow::Cow::Owned(primitive) => primitive,\n            alloc::borrow::Cow::Borrowed((height, prefix, lo, hi)) => (*height, *prefix & 1, *lo, *hi),\n        };")],
 demo='''
fn main() {
    let mut m = StorageMap::<Tab<H, sparse::Primitive>>::new();
    let r = { let mut t = sparse::MerkleTree::new(&mut m); t.update(&key(1), b"v").unwrap(); t.root() };
    let mut p = StorageInspect::<Tab<H, sparse::Primitive>>::get(&m, &r).unwrap().unwrap().into_owned();
    p.1 = 8;
    StorageMutate::<Tab<H, sparse::Primitive>>::insert(&mut m, &r, &p).unwrap();
    let e = sparse::MerkleTree::<Tab<H, sparse::Primitive>, _>::load(&mut m, &r).is_err();
    assert!(e);
}'''),
dict(id="c27-remove-result",property="C27",needs="a storage from which a stale node is already gone",
 breaks="a delete stops pruning when the storage says a node was not there",
 edits=[(S,"            self.storage.remove(&node.hash())?;","            if self.storage.remove(&node.hash())?.is_none() {\n                break;\n            }")],
 demo="fn main() { }"),
dict(id="c28-value-trim",property="C28",needs="two values that differ only in trailing zero bytes",
 breaks="trailing zero bytes of a sparse value are not hashed",
 edits=[(SN,"            bytes_hi: sum(data),","            bytes_hi: sum(&data[..data.iter().rposition(|byte| *byte != 0).map_or(data.len(), |last| last + 1)]),")],
 demo='''
fn main() {
    let run = |v: &[u8]| { let mut t = Spa::new(SS::new()); t.update(&key(1), v).unwrap(); t.root() };
    assert_ne!(run(b"a"), run(b"a\\0"));
}'''),
dict(id="c28-sum-width",property="C28",needs="a fee below 256 and data that starts with bytes of a longer fee",
 breaks="leading zero bytes of a fee are left out of the leaf hash",
 edits=[("src/sum/hash.rs","    hash.update(Prefix::Leaf);\n    hash.update(fee.to_be_bytes());","    hash.update(Prefix::Leaf);\n    let bytes = fee.to_be_bytes();\n    hash.update(&bytes[(fee.leading_zeros() / 16) as usize * 2..]);")],
 demo='''
fn main() {
    let run = |f: u64, v: &[u8]| { let mut t = sumt!(Sto::<H, _>::new()); t.push(f, v).unwrap(); t.root().unwrap().1 };
    assert_ne!(run(0x10002, b"a"), run(0x1, b"\\0\\x02a"));
}'''),
dict(id="c29-join-saturate",property="C29",needs="fees totalling more than 2^64-1 in an imbalanced tree",
 breaks="reading the root of an imbalanced tree wraps the fee total",
 edits=[(M,"                Some(ref node) => (node.fee(), *node.hash()),".replace("                ","            "),"            Some(ref node) => (\n                core::iter::successors(self.head.as_ref(), |subtree| subtree.next().as_ref())\n                    .fold(0u64, |total, subtree| total.wrapping_add(subtree.node().fee())),\n                *node.hash(),\n            ),"),
        (M,"        let joined_node = Node::create_node(\n            height,\n            lhs.node().fee(),","        let joined_node = Node::create_node(\n            height,\n            lhs.node().fee().min(u64::MAX - rhs.node().fee()),")],
 demo='''
fn main() {
    let mut t = sumt!(Sto::<H, _>::new());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { t.push(u64::MAX - 1, b"a").unwrap(); t.push(1, b"b").unwrap(); t.push(5, b"b").unwrap(); t.root().unwrap().0 }));
    if let Ok(f) = r { assert_eq!(f, u64::MAX, "total understated"); }
}'''),
dict(id="c30-reload-peaks",property="C30",needs="a large tree",
 breaks="every append reads back all earlier leaves of its subtree",
 edits=[(B,"        let node = Node::create_leaf(self.leaves_count, data);\n","        // Make sure the previous leaves are still there.\n        for index in (0..self.leaves_count).rev().take(512) {\n            self.storage.contains_key(&Position::from_leaf_index(index).in_order_index())?;\n        }\n        let node = Node::create_leaf(self.leaves_count, data);\n")],
 demo='''
fn main() {
    let st = BS::new();
    let mut t = Bin::new(st.clone());
    for i in 0..1000 { t.push(&leaf(i)).unwrap(); }
    let a = st.calls.get();
    t.push(&leaf(3)).unwrap();
    assert!(st.calls.get() - a < 200);
}'''),
dict(id="c30-sum-rewrite",property="C30",needs="a sum tree of many leaves",
 breaks="every root read writes the root many times",
 edits=[(M,"""        let root_node = self.root_node()?;
        let root_pair""","""        let root_node = self.root_node()?;
        if let Some(ref node) = root_node {
            // One write per unit of height squared.
            for _ in 0..node.height() * node.height() * 4 {
                self.storage.insert(node.hash(), node)?;
            }
        }
        let root_pair""")],
 demo='''
fn main() {
    let st = Sto::<H, _>::new();
    let mut t = sumt!(st.clone());
    for i in 0..4096 { t.push(i, &leaf(i)).unwrap(); }
    let a = st.calls.get();
    t.root().unwrap();
    assert!(st.calls.get() - a < 200);
}'''),
]
