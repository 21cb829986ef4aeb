//! P21: serde round trips, Clone, cloned() and ==, over every small tree and generated larger ones.
use crate::engine::*;
use crate::model::*;
use crate::nodes::Build;
use crate::rng::Rng;
use crate::tok::*;
use crate::traverse::*;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;

/// values a tree may hold, made from a node id
trait Val: Clone + Debug + PartialEq {
    fn mk(id: u64) -> Self;
}
impl Val for u64 {
    fn mk(id: u64) -> u64 {
        match id % 5 {
            0 => u64::MAX - id,
            1 => id << 40,
            _ => id,
        }
    }
}
impl Val for i64 {
    fn mk(id: u64) -> i64 {
        if id % 3 == 0 {
            i64::MIN + id as i64
        } else {
            -(id as i64)
        }
    }
}
impl Val for String {
    fn mk(id: u64) -> String {
        let odd = ["", "\"", "\\", "\n\t\r", "\u{0}\u{1f}", "é漢😀", "{\"value\":1}", "null", "</script>", "\u{feff}", "left", "children"];
        format!("{}{}", odd[(id % 12) as usize], if id % 7 == 0 { String::new() } else { id.to_string() })
    }
}
impl Val for () {
    fn mk(_: u64) {}
}
impl Val for bool {
    fn mk(id: u64) -> bool {
        id % 3 == 0
    }
}
impl Val for char {
    fn mk(id: u64) -> char {
        char::from_u32(32 + (id as u32 * 37) % 50_000).unwrap_or('\u{10FFFF}')
    }
}
impl Val for (u8, i32, String) {
    fn mk(id: u64) -> Self {
        (id as u8, -(id as i32), String::mk(id))
    }
}
impl Val for Vec<u16> {
    fn mk(id: u64) -> Vec<u16> {
        (0..id % 4).map(|i| (id * 7 + i) as u16).collect()
    }
}
impl Val for Option<u32> {
    fn mk(id: u64) -> Option<u32> {
        (id % 3 != 0).then_some(id as u32)
    }
}
impl Val for BTreeMap<String, u64> {
    fn mk(id: u64) -> Self {
        // keys which look like a tree's own fields
        ["value", "left", "right", "children", "x"].iter().enumerate().filter(|(i, _)| (id >> i) & 1 == 1).map(|(i, k)| (k.to_string(), id + i as u64)).collect()
    }
}
impl Val for Tree<u8> {
    fn mk(id: u64) -> Self {
        Tree { value: id as u8, children: (0..id % 3).map(|i| Tree { value: i as u8, children: vec![] }).collect() }
    }
}
impl Val for BinaryTree<u8> {
    fn mk(id: u64) -> Self {
        let leaf = |v| Some(Box::new(BinaryTree { value: v, left: None, right: None }));
        BinaryTree { value: id as u8, left: if id & 1 == 1 { leaf(1) } else { None }, right: if id & 2 == 2 { leaf(2) } else { None } }
    }
}
/// equality that is not reflexive
impl Val for f64 {
    fn mk(id: u64) -> f64 {
        match id % 4 {
            0 => id as f64 / 8.0,
            1 => -0.0,
            2 => -(id as f64) * 0.5, // (JSON text keeps only simple fractions exactly)
            _ => id as f64 * 1024.25,
        }
    }
}
impl Val for Tok {
    fn mk(id: u64) -> Tok {
        Tok::new(id)
    }
}

/// a tree type of the library, built from and read back into plain lists without the library's code
trait Shape<V>: Sized {
    fn make(m: &Model, f: &mut dyn FnMut(usize) -> V) -> Self;
    /// (path, value) in preorder
    fn flat(&self) -> Vec<(Vec<usize>, &V)>;
    fn vals(&mut self) -> Vec<&mut V>;
}
impl<V> Shape<V> for Tree<V> {
    fn make(m: &Model, f: &mut dyn FnMut(usize) -> V) -> Self {
        let mut done: Vec<Option<Self>> = (0..m.len()).map(|_| None).collect();
        for i in m.preorder().into_iter().rev() {
            let children = m.kids(i).into_iter().map(|k| done[k].take().unwrap()).collect();
            done[i] = Some(Tree { value: f(i), children });
        }
        done[0].take().unwrap()
    }
    fn flat(&self) -> Vec<(Vec<usize>, &V)> {
        let (mut out, mut st) = (vec![], vec![(vec![], self)]);
        while let Some((p, n)) = st.pop() {
            for (i, c) in n.children.iter().enumerate().rev() {
                st.push((p.iter().copied().chain([i]).collect(), c));
            }
            out.push((p, &n.value));
        }
        out
    }
    fn vals(&mut self) -> Vec<&mut V> {
        let (mut out, mut st) = (vec![], vec![self]);
        while let Some(n) = st.pop() {
            let Tree { value, children } = n;
            st.extend(children.iter_mut().rev());
            out.push(value);
        }
        out
    }
}
impl<V> Shape<V> for BinaryTree<V> {
    fn make(m: &Model, f: &mut dyn FnMut(usize) -> V) -> Self {
        let mut done: Vec<Option<Box<Self>>> = (0..m.len()).map(|_| None).collect();
        for i in m.preorder().into_iter().rev() {
            let [left, right] = [0, 1].map(|s| m.nodes[i].slots[s].map(|k| done[k].take().unwrap()));
            done[i] = Some(Box::new(BinaryTree { value: f(i), left, right }));
        }
        *done[0].take().unwrap()
    }
    fn flat(&self) -> Vec<(Vec<usize>, &V)> {
        let (mut out, mut st) = (vec![], vec![(vec![], self)]);
        while let Some((p, n)) = st.pop() {
            for (i, c) in [&n.left, &n.right].into_iter().enumerate().rev() {
                if let Some(c) = c {
                    st.push((p.iter().copied().chain([i]).collect(), &**c));
                }
            }
            out.push((p, &n.value));
        }
        out
    }
    fn vals(&mut self) -> Vec<&mut V> {
        let (mut out, mut st) = (vec![], vec![self]);
        while let Some(n) = st.pop() {
            let BinaryTree { value, left, right } = n;
            st.extend([right, left].into_iter().filter_map(|c| c.as_deref_mut()));
            out.push(value);
        }
        out
    }
}
/// does the tree have the model's shape and these values?
fn same<V: PartialEq + Debug, T: Shape<V>>(t: &T, m: &Model, f: &dyn Fn(usize) -> V) -> R {
    let got = t.flat();
    let pre = m.preorder();
    if got.len() != pre.len() {
        return Err(format!("{} nodes instead of {}", got.len(), pre.len()));
    }
    for ((p, v), i) in got.into_iter().zip(pre) {
        if p != m.nodes[i].path {
            return Err(format!("a node at {p:?} where {:?} was expected", m.nodes[i].path));
        }
        let want = f(i);
        if *v != want {
            return Err(format!("value {v:?} at {p:?}, expected {want:?}"));
        }
    }
    Ok(())
}

fn round_trip<V: Val + Serialize + DeserializeOwned, T: Shape<V> + Serialize + DeserializeOwned + PartialEq>(m: &Model, how: usize) -> Result<u64, String> {
    let mk = |i: usize| V::mk(m.nodes[i].id);
    let t = T::make(m, &mut |i| mk(i));
    let e = |e: &dyn std::fmt::Display| format!("refused: {e}");
    let check = |back: T| -> R {
        same(&back, m, &mk)?;
        if back == t && !(back != t) && t == back {
            Ok(())
        } else {
            Err("the tree read back has the same shape and values but does not compare equal".into())
        }
    };
    match how {
        0 => check(serde_json::from_str(&serde_json::to_string(&t).map_err(|x| e(&x))?).map_err(|x| e(&x))?)?,
        1 => check(serde_json::from_slice(&serde_json::to_vec_pretty(&t).map_err(|x| e(&x))?).map_err(|x| e(&x))?)?,
        2 => {
            let mut buf = vec![];
            serde_json::to_writer(&mut buf, &t).map_err(|x| e(&x))?;
            check(serde_json::from_reader(&buf[..]).map_err(|x| e(&x))?)?
        }
        3 => check(serde_json::from_value(serde_json::to_value(&t).map_err(|x| e(&x))?).map_err(|x| e(&x))?)?,
        4 => {
            let b = bincode::serialize(&t).map_err(|x| e(&x))?;
            let mut r = &b[..];
            check(bincode::deserialize_from(&mut r).map_err(|x| e(&x))?)?;
            if !r.is_empty() {
                return Err(format!("{} of {} bytes were not read back", r.len(), b.len()));
            }
        }
        5 => {
            // inside other data: two trees and a marker between them
            let b = bincode::serialize(&(&t, 0x5aa5u16, &t)).map_err(|x| e(&x))?;
            let (a, mark, c): (T, u16, T) = bincode::deserialize(&b).map_err(|x| e(&x))?;
            if mark != 0x5aa5 {
                return Err(format!("data behind the tree was read as {mark:#x}"));
            }
            check(a)?;
            check(c)?;
        }
        6 => {
            let s = serde_json::to_string(&(&t, 7u8, vec![&t, &t])).map_err(|x| e(&x))?;
            let (a, mark, c): (T, u8, Vec<T>) = serde_json::from_str(&s).map_err(|x| e(&x))?;
            if mark != 7 || c.len() != 2 {
                return Err(format!("data around the trees was read as {mark}, {} trees", c.len()));
            }
            check(a)?;
            for x in c {
                check(x)?
            }
        }
        _ => {
            // serializing through a reference or a box is the same document
            let a = serde_json::to_string(&t).map_err(|x| e(&x))?;
            let b = serde_json::to_string(&Box::new(&t)).map_err(|x| e(&x))?;
            if a != b {
                return Err("a reference to the tree serializes differently".into());
            }
            check(serde_json::from_str::<Box<T>>(&b).map(|x| *x).map_err(|x| e(&x))?)?
        }
    }
    // the serialized tree is untouched
    same(&t, m, &mk)?;
    Ok(m.len() as u64)
}

/// Clone and clone_from: equal, independent, one clone per value
fn clones<V: Val, T: Shape<V> + Clone + PartialEq>(m: &Model, other: &Model, from: bool) -> Result<u64, String> {
    let mk = |i: usize| V::mk(m.nodes[i].id);
    let mk2 = |i: usize| V::mk(m.nodes[i].id + 1_000_001);
    let mut t = T::make(m, &mut |i| mk(i));
    let mut c = if from {
        let mut c = T::make(other, &mut |i| V::mk(other.nodes[i].id + 5));
        c.clone_from(&t);
        c
    } else {
        t.clone()
    };
    same(&c, m, &mk).map_err(|e| format!("clone: {e}"))?;
    same(&t, m, &mk).map_err(|e| format!("original after cloning: {e}"))?;
    if !(c == t) || c != t {
        return Err("the clone does not compare equal".into());
    }
    // independent of each other
    let pre = m.preorder();
    for (v, i) in c.vals().into_iter().zip(&pre) {
        *v = mk2(*i);
    }
    same(&t, m, &mk).map_err(|e| format!("original after writing to the clone: {e}"))?;
    same(&c, m, &mk2).map_err(|e| format!("clone after writing to it: {e}"))?;
    let c2 = c.clone();
    for (v, i) in t.vals().into_iter().zip(&pre) {
        *v = mk2(*i);
    }
    drop(c);
    same(&c2, m, &mk2).map_err(|e| format!("clone after dropping its original: {e}"))?;
    same(&t, m, &mk2).map_err(|e| format!("original after writing to it: {e}"))?;
    if t != c2 {
        return Err("trees made equal again do not compare equal".into());
    }
    Ok(3 * m.len() as u64)
}

/// cloned() on trees of references
macro_rules! cloned {
    ($m:expr, $t:ident, $v:ty, $muts:expr) => {{
        let m: &Model = $m;
        let mk = |i: usize| <$v>::mk(m.nodes[i].id);
        let mut store: Vec<$v> = (0..m.len()).map(mk).collect();
        let c: $t<$v> = if $muts {
            let mut slots: Vec<Option<&mut $v>> = store.iter_mut().map(Some).collect();
            let t: $t<&mut $v> = Shape::make(m, &mut |i| slots[i].take().unwrap());
            let c = t.cloned();
            let again = t.cloned();
            same(&again, m, &mk).map_err(|e| format!("second cloned(): {e}"))?;
            // the tree of references still has its shape and refers to the same values
            for ((p, v), i) in t.flat().into_iter().zip(m.preorder()) {
                if p != m.nodes[i].path || **v != mk(i) {
                    return Err("cloned() changed the tree of references".into());
                }
            }
            c
        } else {
            let t: $t<&$v> = Shape::make(m, &mut |i| &store[i]);
            let c = t.cloned();
            let same_refs = t.flat().into_iter().zip(m.preorder()).all(|((p, v), i)| p == m.nodes[i].path && std::ptr::eq(*v, &store[i]));
            if !same_refs {
                return Err("cloned() changed the tree of references".into());
            }
            c
        };
        same(&c, m, &mk).map_err(|e| format!("cloned(): {e}"))?;
        // independent of the values referred to
        for (i, v) in store.iter_mut().enumerate() {
            *v = <$v>::mk(m.nodes[i].id + 77_777);
        }
        same(&c, m, &mk).map_err(|e| format!("cloned() after the original values changed: {e}"))?;
        drop(store);
        same(&c, m, &mk).map_err(|e| format!("cloned() after the original values were dropped: {e}"))?;
        Ok(2 * m.len() as u64)
    }};
}
fn cloned_of<const MUTS: bool>(m: &Model, string: bool) -> Result<u64, String> {
    match (m.binary, string) {
        (false, false) => cloned!(m, Tree, Tok, MUTS),
        (false, true) => cloned!(m, Tree, String, MUTS),
        (true, false) => cloned!(m, BinaryTree, Tok, MUTS),
        (true, true) => cloned!(m, BinaryTree, String, MUTS),
    }
}

/// what a tree is, for the reference: shape and values
fn canon(m: &Model, vals: &[u64]) -> Vec<(Vec<usize>, u64)> {
    m.preorder().into_iter().map(|i| (m.nodes[i].path.clone(), vals[i])).collect()
}
fn eq_pair(a: (&Model, &[u64]), b: (&Model, &[u64])) -> Result<u64, String> {
    fn go<T: Shape<u64> + PartialEq>(a: (&Model, &[u64]), b: (&Model, &[u64])) -> Result<u64, String> {
        let want = canon(a.0, a.1) == canon(b.0, b.1);
        let x = T::make(a.0, &mut |i| a.1[i]);
        let y = T::make(b.0, &mut |i| b.1[i]);
        let got = [x == y, y == x, !(x != y), !(y != x)];
        if got != [want; 4] {
            return Err(format!("== both ways and != both ways say {got:?}, the trees {} equal", if want { "are" } else { "are not" }));
        }
        Ok(4)
    }
    if a.0.binary {
        go::<BinaryTree<u64>>(a, b)
    } else {
        go::<Tree<u64>>(a, b)
    }
}
/// a tree with one not-a-number in it equals nothing, itself included
fn nan(m: &Model, at: usize) -> Result<u64, String> {
    fn go<T: Shape<f64> + PartialEq + Clone>(m: &Model, at: usize) -> Result<u64, String> {
        let t = T::make(m, &mut |i| if i == at { f64::NAN } else { f64::mk(m.nodes[i].id) });
        let c = t.clone();
        if t == t || t == c || !(t != t) || !(c != t) {
            return Err("a tree holding a value not equal to itself compares equal".into());
        }
        Ok(4)
    }
    if m.binary {
        go::<BinaryTree<f64>>(m, at)
    } else {
        go::<Tree<f64>>(m, at)
    }
}
/// trees near the given one: one edit away, or shuffled
fn neighbours(m: &Model, r: &mut Rng, limit: usize) -> Vec<(Model, Vec<u64>)> {
    let vals: Vec<u64> = m.nodes.iter().map(|n| n.id % 3).collect();
    let mut out = vec![(m.clone(), vals.clone())];
    let nodes: Vec<usize> = if m.len() <= limit { (0..m.len()).collect() } else { (0..limit).map(|_| r.below(m.len())).chain([0, m.len() - 1]).collect() };
    let rebuild = |m: &Model, vals: &[u64], out: &mut Vec<(Model, Vec<u64>)>| {
        // drop unreachable nodes, recompute the paths
        let mut keep = Model::single(m.binary);
        let mut v = vec![vals[0]];
        let mut st = vec![(0usize, 0usize)];
        while let Some((old, new)) = st.pop() {
            for (s, k) in m.nodes[old].slots.iter().enumerate() {
                if let Some(k) = k {
                    let i = if m.binary { keep.add_bin(new, s) } else { keep.add(new) };
                    v.push(vals[*k]);
                    st.push((*k, i));
                }
            }
        }
        out.push((keep.finish(0), v));
    };
    for i in nodes {
        // another value
        let mut v = vals.clone();
        v[i] += 1;
        out.push((m.clone(), v));
        // without this subtree
        if let Some(p) = m.nodes[i].parent {
            let mut x = m.clone();
            if m.binary {
                let s = x.nodes[p].slots.iter().position(|s| *s == Some(i)).unwrap();
                x.nodes[p].slots[s] = None;
                rebuild(&x, &vals, &mut out);
                // on the other side
                let mut x = m.clone();
                x.nodes[p].slots.swap(0, 1);
                rebuild(&x, &vals, &mut out);
            } else {
                x.nodes[p].slots.retain(|s| *s != Some(i));
                rebuild(&x, &vals, &mut out);
                // neighbouring siblings exchanged, and the node moved below its sibling
                if let Some(s) = m.nodes[p].slots.iter().position(|s| *s == Some(i)).filter(|s| *s > 0) {
                    let mut x = m.clone();
                    x.nodes[p].slots.swap(s, s - 1);
                    rebuild(&x, &vals, &mut out);
                    let mut x = m.clone();
                    x.nodes[p].slots.remove(s);
                    let b = m.nodes[p].slots[s - 1].unwrap();
                    x.nodes[b].slots.push(Some(i));
                    rebuild(&x, &vals, &mut out);
                }
            }
        }
        // with one more leaf
        let mut x = m.clone();
        let mut v = vals.clone();
        let free = if m.binary { m.nodes[i].slots.iter().position(|s| s.is_none()) } else { Some(0) };
        if let Some(s) = free {
            if m.binary {
                x.add_bin(i, s);
            } else {
                x.add(i);
            }
            v.push(r.below(3) as u64);
            rebuild(&x, &v, &mut out);
        }
    }
    out
}

/// clones of contexts stay what they were while the traversal goes on
fn ctx_clones(m: &Model, own: Own, ord: Order) -> Result<u64, String> {
    let want = expect(m, own, ord, Mode::Ctx);
    let mut obs = Obs::default();
    macro_rules! go {
        ($it:expr, $kids:expr) => {{
            let mut it = $it.attach_context();
            let mut kept = vec![];
            while let Some(c) = it.next() {
                let here = ctx_ev(c, $kids);
                let c = c.clone();
                if ctx_ev(&c, $kids) != here {
                    return Err(format!("visit {}: the clone {:?} differs from its context {here:?}", kept.len(), ctx_ev(&c, $kids)));
                }
                kept.push(c);
                if kept.len() > 2 * m.len() + 8 {
                    return Err("runaway".into());
                }
            }
            drop(it);
            obs.evs = kept.iter().map(|c| ctx_ev(c, $kids)).collect();
        }};
    }
    if m.binary {
        let t = <BinaryTree<Tok> as Build>::build(m);
        match (own, ord) {
            (Own::Ref, Order::Bfs) => go!(t.bfs_iter(), true),
            (Own::Ref, Order::Pre) => go!(t.dfs_preorder_iter(), true),
            (Own::Ref, Order::In) => go!(t.dfs_inorder_iter(), true),
            (Own::Ref, Order::Post) => go!(t.dfs_postorder_iter(), true),
            (_, Order::Bfs) => go!(OwnedBinaryTreeNode::bfs(t), true),
            (_, Order::Pre) => go!(OwnedBinaryTreeNode::dfs_preorder(t), true),
            (_, Order::In) => go!(OwnedBinaryTreeNode::dfs_inorder(t), false),
            (_, Order::Post) => go!(OwnedBinaryTreeNode::dfs_postorder(t), false),
        }
    } else {
        let t = <Tree<Tok> as Build>::build(m);
        match (own, ord) {
            (Own::Ref, Order::Bfs) => go!(t.bfs_iter(), true),
            (Own::Ref, Order::Pre) => go!(t.dfs_preorder_iter(), true),
            (Own::Ref, _) => go!(t.dfs_postorder_iter(), true),
            (_, Order::Bfs) => go!(t.bfs(), true),
            (_, Order::Pre) => go!(t.dfs_preorder(), true),
            (_, _) => go!(t.dfs_postorder(), false),
        }
    }
    match diff(m, &obs, &want, usize::MAX) {
        Some(d) => Err(format!("clones of contexts: {d}")),
        None => Ok(m.len() as u64),
    }
}

/// the same in traversals of collections: the paths there start with the tree's index
fn list_ctx_clones(ms: &[Model], own: Own, ord: Order) -> Result<u64, String> {
    let total: usize = ms.iter().map(|m| m.len()).sum();
    macro_rules! go {
        ($it:expr, $kids:expr) => {{
            let mut it = $it.attach_context();
            let mut kept = vec![];
            while let Some(c) = it.next() {
                let here = ctx_ev(c, $kids);
                let mut c = c.clone();
                if ctx_ev(&c, $kids) != here {
                    return Err(format!("visit {}: the clone {:?} differs from its context {here:?}", kept.len(), ctx_ev(&c, $kids)));
                }
                let second = c.clone();
                c.ancestors_mut().rotate_left(1);
                kept.push((second, here));
                if kept.len() > 2 * total + 8 {
                    return Err("runaway".into());
                }
            }
            drop(it);
            if kept.len() != total {
                return Err(format!("{} contexts for {total} nodes", kept.len()));
            }
            for (i, (c, here)) in kept.iter().enumerate() {
                if ctx_ev(c, $kids) != *here {
                    return Err(format!("the clone taken at visit {i} became {:?}, it was {here:?}", ctx_ev(c, $kids)));
                }
            }
        }};
    }
    if ms[0].binary {
        let t: Vec<BinaryTree<Tok>> = ms.iter().map(|m| Build::build(m)).collect();
        match (own, ord) {
            (Own::Ref, Order::Bfs) => go!(t.bfs_each_iter(), true),
            (Own::Ref, Order::Pre) => go!(t.dfs_preorder_each_iter(), true),
            (Own::Ref, Order::In) => go!(t.dfs_inorder_each_iter(), true),
            (Own::Ref, Order::Post) => go!(t.dfs_postorder_each_iter(), true),
            (_, Order::Bfs) => go!(t.bfs_each(), true),
            (_, Order::Pre) => go!(t.dfs_preorder_each(), true),
            (_, Order::In) => go!(t.dfs_inorder_each(), false),
            (_, Order::Post) => go!(t.dfs_postorder_each(), false),
        }
    } else {
        let t: Vec<Tree<Tok>> = ms.iter().map(|m| Build::build(m)).collect();
        match (own, ord) {
            (Own::Ref, Order::Bfs) => go!(t.bfs_each_iter(), true),
            (Own::Ref, Order::Pre) => go!(t.dfs_preorder_each_iter(), true),
            (Own::Ref, _) => go!(t.dfs_postorder_each_iter(), true),
            (_, Order::Bfs) => go!(t.bfs_each(), true),
            (_, Order::Pre) => go!(t.dfs_preorder_each(), true),
            (_, _) => go!(t.dfs_postorder_each(), false),
        }
    }
    Ok(total as u64)
}

pub struct Faithful {
    src: Src,
    /// every pair of these is compared
    pairs: Vec<(Model, Vec<u64>)>,
    gen: usize,
}
const PAIR_BLOCK: usize = 40;
impl Faithful {
    pub fn new(quick: bool) -> Faithful {
        let src = if quick { Src::new(6, 6, 1600, 60) } else { Src::new(8, 8, 30_000, 200) };
        // all trees of up to n nodes with values from {0, 1}
        let mut pairs = vec![];
        let mut gen = 0;
        for (binary, n) in [(false, if quick { 4 } else { 5 }), (true, if quick { 4 } else { 5 })] {
            for m in all_small(binary, n) {
                for bits in 0..1u64 << m.len() {
                    pairs.push((m.clone(), (0..m.len()).map(|i| (bits >> i) & 1).collect()));
                }
            }
            if !binary {
                gen = pairs.len();
            }
        }
        Faithful { src, pairs, gen }
    }
    fn blocks(&self) -> u64 {
        self.pairs.len().div_ceil(PAIR_BLOCK) as u64
    }
}
fn dumpkey(m: &Model, v: &[u64]) -> u64 {
    v.iter().fold(m.shape_key(), |h, x| key(&[h, *x]))
}
impl Prop for Faithful {
    fn cases(&self) -> u64 {
        self.src.cases() + self.blocks()
    }
    fn rule(&self) -> String {
        format!(
            "{}; for each: JSON (text, bytes, pretty, reader, Value, nested) and bincode round trips with 13 value types, clone / clone_from / cloned(), clones of every context (in collections too), comparison with every tree one edit away, trees with a NaN; plus all pairs of the {} labelled trees of up to {} nodes over values {{0,1}} compared 4 ways; distinct by (tree, operation, value type); non-trivial: at least 2 nodes",
            self.src.text(),
            self.pairs.len(),
            if self.gen > 200 { 5 } else { 4 }
        )
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        if i >= self.src.cases() {
            let lo = (i - self.src.cases()) as usize * PAIR_BLOCK;
            for a in lo..(lo + PAIR_BLOCK).min(self.pairs.len()) {
                let range = if a < self.gen { 0..self.gen } else { self.gen..self.pairs.len() };
                let (ma, va) = &self.pairs[a];
                cx.eval(
                    key(&[dumpkey(ma, va), 1]),
                    ma.len() > 1,
                    || format!("{} with values {va:?} == every other small tree", ma.show()),
                    || {
                        let mut n = 0;
                        for b in range.clone() {
                            let (mb, vb) = &self.pairs[b];
                            n += eq_pair((ma, va), (mb, vb)).map_err(|e| format!("against {} with values {vb:?}: {e}", mb.show()))?;
                        }
                        Ok(n)
                    },
                )?;
            }
            return Ok(());
        }
        let (m, mut r) = self.src.get("P21", seed, i);
        let big = m.len() > 1500 || m.height() > 300;
        let sk = m.shape_key();
        let nt = m.len() > 1;
        macro_rules! ev {
            ($what:expr, $body:expr) => {{
                let what: String = $what;
                cx.eval(key(&[sk, skey(&what)]), nt, || format!("{what} on {}", m.show()), || $body)?;
            }};
        }
        // JSON readers refuse documents nested more than 127 levels deep
        let json_ok = m.height() <= if m.binary { 100 } else { 50 };
        macro_rules! trips {
            ($($v:ty),*) => {$(
                for how in 0..8 {
                    // deep values make the document deeper; nothing else changes with the shape
                    let binary_format = how == 4 || how == 5;
                    if !binary_format && !json_ok || m.height() > 800 {
                        continue;
                    }
                    // every way for small trees, a sample for large ones
                    if m.len() > 12 && r.below(if big { 24 } else { 5 }) != 0 {
                        continue;
                    }
                    let what = format!("round trip {how} of {}", std::any::type_name::<$v>());
                    if m.binary {
                        ev!(what, round_trip::<$v, BinaryTree<$v>>(&m, how));
                    } else {
                        ev!(what, round_trip::<$v, Tree<$v>>(&m, how));
                    }
                }
            )*};
        }
        trips!(u64, i64, String, (), bool, char, (u8, i32, String), Vec<u16>, Option<u32>, BTreeMap<String, u64>, Tree<u8>, BinaryTree<u8>, f64);
        let other = random(&mut r, m.binary, 12);
        for from in [false, true] {
            macro_rules! cl {
                ($($v:ty),*) => {$(
                    let what = format!("{} of {}", if from { "clone_from" } else { "clone" }, std::any::type_name::<$v>());
                    if m.binary {
                        ev!(what, clones::<$v, BinaryTree<$v>>(&m, &other, from));
                    } else {
                        ev!(what, clones::<$v, Tree<$v>>(&m, &other, from));
                    }
                )*};
            }
            cl!(Tok, String, u64);
        }
        for string in [false, true] {
            ev!(format!("cloned() of shared references ({string})"), cloned_of::<false>(&m, string));
            ev!(format!("cloned() of mutable references ({string})"), cloned_of::<true>(&m, string));
        }
        if m.len() <= 1500 && m.height() <= 100 {
            for own in [Own::Owned, Own::Ref] {
                for ord in orders(m.binary) {
                    ev!(format!("clones of contexts {own:?} {ord:?}"), ctx_clones(&m, own, *ord));
                    let small = random(&mut r, m.binary, 4);
                    let ms = [m.clone(), small, other.clone(), m.clone()];
                    ev!(format!("clones of contexts {own:?} {ord:?} in a collection"), list_ctx_clones(&ms, own, *ord));
                }
            }
        }
        if !big {
            let near = neighbours(&m, &mut r, 12);
            let (a, va) = near[0].clone();
            for (j, (b, vb)) in near.iter().enumerate() {
                ev!(format!("== with neighbour {j}: {} {vb:?}", b.show()), eq_pair((&a, &va), (b, vb)));
            }
            let at = r.below(m.len());
            for at in if m.len() <= 6 { (0..m.len()).collect() } else { vec![0, at, m.len() - 1] } {
                ev!(format!("== with NaN at {at}"), nan(&m, at));
            }
        }
        Ok(())
    }
}
