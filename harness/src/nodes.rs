//! Node families: the library's own trees plus custom implementations of the node traits with
//! different children collections.
use crate::model::Model;
use crate::tok::*;
use std::collections::{LinkedList, VecDeque};
use std::iter::FusedIterator;
use tree_iterators_rs::prelude::*;

/// the id of a whole node (its root value)
pub trait NodeId {
    fn nid(&self) -> u64;
}
impl<N: NodeId> NodeId for &N {
    fn nid(&self) -> u64 {
        (**self).nid()
    }
}
impl<N: NodeId> NodeId for &mut N {
    fn nid(&self) -> u64 {
        (**self).nid()
    }
}
impl<N: NodeId> NodeId for Box<N> {
    fn nid(&self) -> u64 {
        (**self).nid()
    }
}
impl<T: Ident> NodeId for Tree<T> {
    fn nid(&self) -> u64 {
        self.value.id()
    }
}
impl<T: Ident> NodeId for BinaryTree<T> {
    fn nid(&self) -> u64 {
        self.value.id()
    }
}

/// the ids of a children collection handed out in a context, `None` when it is `()`
pub trait Kids {
    fn kid_ids(&self) -> Option<Vec<Option<u64>>>;
}
impl Kids for () {
    fn kid_ids(&self) -> Option<Vec<Option<u64>>> {
        None
    }
}
macro_rules! kids_by_iter {
    ($([$($g:tt)*] $t:ty),* $(,)?) => {$(
        impl<$($g)* N: NodeId> Kids for $t {
            fn kid_ids(&self) -> Option<Vec<Option<u64>>> {
                Some(self.iter().map(|n| Some(n.nid())).collect())
            }
        }
    )*};
}
kids_by_iter!([] Vec<N>, [] VecDeque<N>, [] LinkedList<N>);
impl<K: Kids> Kids for &K {
    fn kid_ids(&self) -> Option<Vec<Option<u64>>> {
        (**self).kid_ids()
    }
}
impl<K: Kids> Kids for &mut K {
    fn kid_ids(&self) -> Option<Vec<Option<u64>>> {
        (**self).kid_ids()
    }
}
impl<N: NodeId> Kids for std::slice::Iter<'_, N> {
    fn kid_ids(&self) -> Option<Vec<Option<u64>>> {
        Some(self.clone().map(|n| Some(n.nid())).collect())
    }
}
impl<N: NodeId> Kids for std::slice::IterMut<'_, N> {
    fn kid_ids(&self) -> Option<Vec<Option<u64>>> {
        Some(self.as_slice().iter().map(|n| Some(n.nid())).collect())
    }
}
impl<N: NodeId> Kids for std::collections::linked_list::Iter<'_, N> {
    fn kid_ids(&self) -> Option<Vec<Option<u64>>> {
        Some(self.clone().map(|n| Some(n.nid())).collect())
    }
}
impl<N: NodeId> Kids for std::collections::linked_list::IterMut<'_, N> {
    fn kid_ids(&self) -> Option<Vec<Option<u64>>> {
        // only the length is observable through a shared reference
        Some(vec![None; self.len()])
    }
}
impl<N: NodeId> Kids for [Option<N>; 2] {
    fn kid_ids(&self) -> Option<Vec<Option<u64>>> {
        Some(self.iter().map(|n| n.as_ref().map(|n| n.nid())).collect())
    }
}

pub trait Build {
    const NAME: &'static str;
    fn build(m: &Model) -> Self;
    /// ids in preorder with slots, read back structurally (not through the library)
    fn dump(&self) -> Vec<(Vec<usize>, u64)>;
}

macro_rules! build_generic {
    ($m:expr, $mk:expr) => {{
        // bottom up, without recursion (deep shapes)
        let order = $m.preorder();
        let mut done: Vec<Option<Self>> = (0..$m.len()).map(|_| None).collect();
        for &i in order.iter().rev() {
            let kids: Vec<Self> = $m.kids(i).into_iter().map(|k| done[k].take().unwrap()).collect();
            let f: fn(Tok, Vec<Self>) -> Self = $mk;
            done[i] = Some(f(Tok::new($m.nodes[i].id), kids));
        }
        done[0].take().unwrap()
    }};
}
macro_rules! dump_generic {
    ($root:expr, $tok:ident, $kids:ident) => {{
        let mut out = vec![];
        let mut st = vec![(vec![], $root)];
        while let Some((path, n)) = st.pop() {
            out.push((path.clone(), n.$tok.id()));
            for (i, k) in n.$kids.iter().enumerate().collect::<Vec<_>>().into_iter().rev() {
                let mut p = path.clone();
                p.push(i);
                st.push((p, k));
            }
        }
        out
    }};
}

impl Build for Tree<Tok> {
    const NAME: &'static str = "Tree";
    fn build(m: &Model) -> Self {
        build_generic!(m, |value, children| Tree { value, children })
    }
    fn dump(&self) -> Vec<(Vec<usize>, u64)> {
        dump_generic!(self, value, children)
    }
}

// ------------------------------------------------------------------ custom generic nodes

/// LinkedList children; iterators borrow straight from the list.
pub struct ListNode {
    pub v: Tok,
    pub kids: LinkedList<ListNode>,
}
impl NodeId for ListNode {
    fn nid(&self) -> u64 {
        self.v.id()
    }
}
impl Build for ListNode {
    const NAME: &'static str = "ListNode";
    fn build(m: &Model) -> Self {
        build_generic!(m, |v, k| ListNode { v, kids: k.into_iter().collect() })
    }
    fn dump(&self) -> Vec<(Vec<usize>, u64)> {
        dump_generic!(self, v, kids)
    }
}
impl OwnedTreeNode for ListNode {
    type OwnedValue = Tok;
    type OwnedChildren = LinkedList<ListNode>;
    fn get_value_and_children(self) -> (Tok, LinkedList<ListNode>) {
        (self.v, self.kids)
    }
}
impl<'a> MutBorrowedTreeNode<'a> for ListNode {
    type MutBorrowedValue = &'a mut Tok;
    type MutBorrowedChildren = std::collections::linked_list::IterMut<'a, ListNode>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (Self::MutBorrowedValue, Self::MutBorrowedChildren) {
        (&mut self.v, self.kids.iter_mut())
    }
}
impl<'a> BorrowedTreeNode<'a> for ListNode {
    type BorrowedValue = &'a Tok;
    type BorrowedChildren = std::collections::linked_list::Iter<'a, ListNode>;
    fn get_value_and_children_iter(&'a self) -> (Self::BorrowedValue, Self::BorrowedChildren) {
        (&self.v, self.kids.iter())
    }
}

/// Borrowed children collections that own heap memory (a `Vec` of references).
pub struct VecRefNode {
    pub v: Tok,
    pub kids: VecDeque<VecRefNode>,
}
impl NodeId for VecRefNode {
    fn nid(&self) -> u64 {
        self.v.id()
    }
}
impl Build for VecRefNode {
    const NAME: &'static str = "VecRefNode";
    fn build(m: &Model) -> Self {
        build_generic!(m, |v, k| VecRefNode { v, kids: k.into_iter().collect() })
    }
    fn dump(&self) -> Vec<(Vec<usize>, u64)> {
        dump_generic!(self, v, kids)
    }
}
impl OwnedTreeNode for VecRefNode {
    type OwnedValue = Tok;
    type OwnedChildren = VecDeque<VecRefNode>;
    fn get_value_and_children(self) -> (Tok, VecDeque<VecRefNode>) {
        (self.v, self.kids)
    }
}
impl<'a> MutBorrowedTreeNode<'a> for VecRefNode {
    type MutBorrowedValue = &'a mut Tok;
    type MutBorrowedChildren = Vec<&'a mut VecRefNode>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (Self::MutBorrowedValue, Self::MutBorrowedChildren) {
        (&mut self.v, self.kids.iter_mut().collect())
    }
}
impl<'a> BorrowedTreeNode<'a> for VecRefNode {
    type BorrowedValue = &'a Tok;
    type BorrowedChildren = Vec<&'a VecRefNode>;
    fn get_value_and_children_iter(&'a self) -> (Self::BorrowedValue, Self::BorrowedChildren) {
        (&self.v, self.kids.iter().collect())
    }
}

/// Observes how the library drives it: every node opening is logged, and the owned children
/// iterator (which the traits do not require to be fused) reports being polled after its end.
pub struct SpyNode {
    pub v: Tok,
    pub kids: Vec<SpyNode>,
}
pub struct SpyIter {
    inner: std::vec::IntoIter<SpyNode>,
    ended: bool,
}
impl Iterator for SpyIter {
    type Item = SpyNode;
    fn next(&mut self) -> Option<SpyNode> {
        tick(AT_POLL);
        if self.ended {
            poll_fault("owned children iterator polled again after it returned None".to_string());
        }
        let n = self.inner.next();
        self.ended = n.is_none();
        n
    }
}
pub struct SpyKids(pub Vec<SpyNode>);
impl IntoIterator for SpyKids {
    type Item = SpyNode;
    type IntoIter = SpyIter;
    fn into_iter(self) -> SpyIter {
        SpyIter { inner: self.0.into_iter(), ended: false }
    }
}
impl Kids for SpyKids {
    fn kid_ids(&self) -> Option<Vec<Option<u64>>> {
        self.0.kid_ids()
    }
}
pub struct SpyRefs<'a>(pub Vec<&'a SpyNode>);
impl<'a> IntoIterator for SpyRefs<'a> {
    type Item = &'a SpyNode;
    type IntoIter = SpyRefIter<'a>;
    fn into_iter(self) -> SpyRefIter<'a> {
        SpyRefIter(self.0.into_iter())
    }
}
pub struct SpyRefIter<'a>(std::vec::IntoIter<&'a SpyNode>);
impl<'a> Iterator for SpyRefIter<'a> {
    type Item = &'a SpyNode;
    fn next(&mut self) -> Option<&'a SpyNode> {
        tick(AT_POLL);
        self.0.next()
    }
}
impl FusedIterator for SpyRefIter<'_> {}
impl Kids for SpyRefs<'_> {
    fn kid_ids(&self) -> Option<Vec<Option<u64>>> {
        self.0.kid_ids()
    }
}
impl NodeId for SpyNode {
    fn nid(&self) -> u64 {
        self.v.id()
    }
}
impl Build for SpyNode {
    const NAME: &'static str = "SpyNode";
    fn build(m: &Model) -> Self {
        build_generic!(m, |v, kids| SpyNode { v, kids })
    }
    fn dump(&self) -> Vec<(Vec<usize>, u64)> {
        dump_generic!(self, v, kids)
    }
}
impl OwnedTreeNode for SpyNode {
    type OwnedValue = Tok;
    type OwnedChildren = SpyKids;
    fn get_value_and_children(self) -> (Tok, SpyKids) {
        opened(self.v.id());
        (self.v, SpyKids(self.kids))
    }
}
impl<'a> MutBorrowedTreeNode<'a> for SpyNode {
    type MutBorrowedValue = &'a mut Tok;
    type MutBorrowedChildren = std::slice::IterMut<'a, SpyNode>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (Self::MutBorrowedValue, Self::MutBorrowedChildren) {
        opened(self.v.id());
        (&mut self.v, self.kids.iter_mut())
    }
}
impl<'a> BorrowedTreeNode<'a> for SpyNode {
    type BorrowedValue = ByVal;
    type BorrowedChildren = SpyRefs<'a>;
    fn get_value_and_children_iter(&'a self) -> (Self::BorrowedValue, Self::BorrowedChildren) {
        opened(self.v.id());
        (ByVal(self.v.id().to_string()), SpyRefs(self.kids.iter().collect()))
    }
}

// ------------------------------------------------------------------ binary nodes

macro_rules! build_binary {
    ($m:expr, $mk:expr) => {{
        let order = $m.preorder();
        let mut done: Vec<Option<Self>> = (0..$m.len()).map(|_| None).collect();
        for &i in order.iter().rev() {
            let s = &$m.nodes[i].slots;
            let l = s[0].map(|k| Box::new(done[k].take().unwrap()));
            let r = s[1].map(|k| Box::new(done[k].take().unwrap()));
            let f: fn(Tok, Option<Box<Self>>, Option<Box<Self>>) -> Self = $mk;
            done[i] = Some(f(Tok::new($m.nodes[i].id), l, r));
        }
        done[0].take().unwrap()
    }};
}
impl Build for BinaryTree<Tok> {
    const NAME: &'static str = "BinaryTree";
    fn build(m: &Model) -> Self {
        build_binary!(m, |value, left, right| BinaryTree { value, left, right })
    }
    fn dump(&self) -> Vec<(Vec<usize>, u64)> {
        let mut out = vec![];
        let mut st = vec![(vec![], self)];
        while let Some((path, n)) = st.pop() {
            out.push((path.clone(), n.value.id()));
            for (i, k) in [(1, &n.right), (0, &n.left)] {
                if let Some(k) = k {
                    let mut p = path.clone();
                    p.push(i);
                    st.push((p, &**k));
                }
            }
        }
        out
    }
}

/// custom binary node which logs its openings and hands out by-value values when borrowed
pub struct SpyBin {
    pub v: Tok,
    pub kids: [Option<Box<SpyBin>>; 2],
}
impl NodeId for SpyBin {
    fn nid(&self) -> u64 {
        self.v.id()
    }
}
impl Build for SpyBin {
    const NAME: &'static str = "SpyBin";
    fn build(m: &Model) -> Self {
        build_binary!(m, |v, l, r| SpyBin { v, kids: [l, r] })
    }
    fn dump(&self) -> Vec<(Vec<usize>, u64)> {
        let mut out = vec![];
        let mut st = vec![(vec![], self)];
        while let Some((path, n)) = st.pop() {
            out.push((path.clone(), n.v.id()));
            for i in [1, 0] {
                if let Some(k) = &n.kids[i] {
                    let mut p = path.clone();
                    p.push(i);
                    st.push((p, &**k));
                }
            }
        }
        out
    }
}
impl OwnedBinaryTreeNode for SpyBin {
    type OwnedValue = Tok;
    fn get_value_and_children_binary(self) -> (Tok, [Option<Self>; 2]) {
        opened(self.v.id());
        let [l, r] = self.kids;
        (self.v, [l.map(|b| *b), r.map(|b| *b)])
    }
}
impl<'a> MutBorrowedBinaryTreeNode<'a> for SpyBin {
    type MutBorrowedValue = &'a mut Tok;
    fn get_value_and_children_binary_iter_mut(&'a mut self) -> (Self::MutBorrowedValue, [Option<&'a mut Self>; 2]) {
        opened(self.v.id());
        let [l, r] = &mut self.kids;
        (&mut self.v, [l.as_deref_mut(), r.as_deref_mut()])
    }
}
impl<'a> BorrowedBinaryTreeNode<'a> for SpyBin {
    type BorrowedValue = ByVal;
    fn get_value_and_children_binary_iter(&'a self) -> (Self::BorrowedValue, [Option<&'a Self>; 2]) {
        opened(self.v.id());
        let [l, r] = &self.kids;
        (ByVal(self.v.id().to_string()), [l.as_deref(), r.as_deref()])
    }
}
