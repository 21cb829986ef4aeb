//! P09: writes through mutable traversals (write-log monitor). P10: editing children during context
//! traversals (edit scripts replayed on a model).
use crate::engine::*;
use crate::lists::*;
use crate::model::*;
use crate::nodes::*;
use crate::rng::Rng;
use crate::tok::*;
use crate::traverse::*;
use crate::with_mut_coll;
use std::collections::{LinkedList, VecDeque};
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

// ------------------------------------------------------------------------------------------- P09

pub trait ValMut: Ident {
    fn put(&mut self, id: u64, replace: bool);
}
impl ValMut for Tok {
    fn put(&mut self, id: u64, replace: bool) {
        if replace {
            *self = Tok::new(id)
        } else {
            self.set(id)
        }
    }
}
impl ValMut for &mut Tok {
    fn put(&mut self, id: u64, replace: bool) {
        if replace {
            **self = Tok::new(id)
        } else {
            self.set(id)
        }
    }
}

/// a child exposed in a context: its subtree is walked with a nested mutable traversal
pub trait Sub {
    fn walk(&mut self, f: &mut dyn FnMut(&mut Tok) -> R) -> R;
}
macro_rules! sub {
    ($($t:ty),*) => {$(
        impl Sub for $t {
            fn walk(&mut self, f: &mut dyn FnMut(&mut Tok) -> R) -> R {
                for v in self.dfs_preorder_iter_mut() {
                    f(v)?;
                }
                Ok(())
            }
        }
    )*};
}
sub!(Tree<Tok>, ListNode, VecRefNode, SpyNode, BinaryTree<Tok>, SpyBin);
impl<N: Sub> Sub for &mut N {
    fn walk(&mut self, f: &mut dyn FnMut(&mut Tok) -> R) -> R {
        (**self).walk(f)
    }
}
/// the children exposed in a context, reached in place; true when the collection can be walked
pub trait Poke {
    fn poke(&mut self, f: &mut dyn FnMut(usize, &mut dyn Sub) -> R) -> Result<bool, String>;
}
impl Poke for () {
    fn poke(&mut self, _: &mut dyn FnMut(usize, &mut dyn Sub) -> R) -> Result<bool, String> {
        Ok(false)
    }
}
macro_rules! poke_each {
    ($([$($g:tt)*] $t:ty),*) => {$(
        impl<$($g)*> Poke for $t {
            fn poke(&mut self, f: &mut dyn FnMut(usize, &mut dyn Sub) -> R) -> Result<bool, String> {
                for (i, n) in self.iter_mut().enumerate() {
                    f(i, n)?;
                }
                Ok(true)
            }
        }
    )*};
}
poke_each!([N: Sub] Vec<N>, [N: Sub] VecDeque<N>, [N: Sub] LinkedList<N>);
impl<P: Poke> Poke for &mut P {
    fn poke(&mut self, f: &mut dyn FnMut(usize, &mut dyn Sub) -> R) -> Result<bool, String> {
        (**self).poke(f)
    }
}
impl Poke for SpyKids {
    fn poke(&mut self, f: &mut dyn FnMut(usize, &mut dyn Sub) -> R) -> Result<bool, String> {
        self.0.poke(f)
    }
}
impl<N: Sub> Poke for [Option<N>; 2] {
    fn poke(&mut self, f: &mut dyn FnMut(usize, &mut dyn Sub) -> R) -> Result<bool, String> {
        for (i, n) in self.iter_mut().enumerate() {
            if let Some(n) = n {
                f(i, n)?;
            }
        }
        Ok(true)
    }
}
impl<N: Sub> Poke for std::slice::IterMut<'_, N> {
    fn poke(&mut self, f: &mut dyn FnMut(usize, &mut dyn Sub) -> R) -> Result<bool, String> {
        let all = std::mem::take(self).into_slice();
        for (i, n) in all.iter_mut().enumerate() {
            f(i, n)?;
        }
        *self = all.iter_mut();
        Ok(true)
    }
}
impl<N: Sub> Poke for std::collections::linked_list::IterMut<'_, N> {
    fn poke(&mut self, _: &mut dyn FnMut(usize, &mut dyn Sub) -> R) -> Result<bool, String> {
        // walking it would consume it
        Ok(false)
    }
}

pub struct Writer<'m> {
    ms: &'m [Model],
    /// current value of every node of every tree, according to the log of writes
    cur: Vec<Vec<u64>>,
    next: u64,
    r: Rng,
    pub writes: u64,
    pub ancestor_writes: u64,
    pub child_walks: u64,
    pub reads: u64,
}
impl<'m> Writer<'m> {
    pub fn new(ms: &'m [Model], r: Rng) -> Writer<'m> {
        Writer { ms, cur: ms.iter().map(|m| m.nodes.iter().map(|n| n.id).collect()).collect(), next: 1_000_000, r, writes: 0, ancestor_writes: 0, child_walks: 0, reads: 0 }
    }
    fn check(&mut self, t: usize, i: usize, v: &impl Ident, what: &str) -> R {
        self.reads += 1;
        if v.id() != self.cur[t][i] {
            return Err(format!("{what}: node {} of tree {t} shows value {}, last written there {}", self.ms[t].nodes[i].id, v.id(), self.cur[t][i]));
        }
        Ok(())
    }
    fn write(&mut self, t: usize, i: usize, v: &mut impl ValMut) -> R {
        self.next += 1;
        let id = self.next;
        v.put(id, self.r.chance(1, 2));
        self.cur[t][i] = id;
        self.writes += 1;
        self.check(t, i, v, "read back")
    }
    pub fn visit(&mut self, t: usize, i: usize, v: &mut impl ValMut) -> R {
        self.check(t, i, v, "visited")?;
        if self.r.chance(2, 3) {
            self.write(t, i, v)?;
        }
        Ok(())
    }
    /// node i is current with its ancestors exposed
    pub fn stack<V: ValMut>(&mut self, t: usize, i: usize, st: &mut [V]) -> R {
        let mut chain = vec![i];
        while let Some(p) = self.ms[t].nodes[*chain.last().unwrap()].parent {
            chain.push(p);
        }
        chain.reverse();
        if st.len() != chain.len() {
            return Err(format!("{} values exposed for node {} at depth {}", st.len(), self.ms[t].nodes[i].id, chain.len() - 1));
        }
        for (j, n) in chain.iter().enumerate() {
            self.check(t, *n, &st[j], "exposed on the stack")?;
        }
        for _ in 0..self.r.below(3) {
            let j = if self.r.chance(1, 2) { chain.len() - 1 } else { self.r.below(chain.len()) };
            self.ancestor_writes += (j + 1 < chain.len()) as u64;
            self.write(t, chain[j], &mut st[j])?;
        }
        for (j, n) in chain.iter().enumerate() {
            self.check(t, *n, &st[j], "on the stack after writing")?;
        }
        Ok(())
    }
    /// children of node i are exposed; sometimes their subtrees are read and written in place
    pub fn children<P: Poke>(&mut self, t: usize, i: usize, kids: &mut P) -> R {
        let m = &self.ms[t];
        if !self.r.chance(1, if m.len() > 200 { 60 } else { 3 }) {
            return Ok(());
        }
        let mut seen = 0;
        let walkable = kids.poke(&mut |slot, sub| {
            let Some(top) = m.nodes[i].slots.get(slot).copied().flatten() else {
                return Err(format!("a child is exposed in slot {slot} of node {}, which has none there", m.nodes[i].id));
            };
            seen += 1;
            let mut todo = vec![top];
            sub.walk(&mut |mut v| {
                let Some(c) = todo.pop() else { return Err("a child's subtree has extra nodes".into()) };
                todo.extend(m.nodes[c].slots.iter().rev().flatten());
                self.visit(t, c, &mut v).map_err(|e| format!("below the children exposed at node {}: {e}", m.nodes[i].id))
            })?;
            if !todo.is_empty() {
                return Err("a child's subtree lacks nodes".into());
            }
            Ok(())
        })?;
        if walkable {
            self.child_walks += 1;
            if seen != m.kids(i).len() {
                return Err(format!("{seen} children exposed at node {}, which has {}", m.nodes[i].id, m.kids(i).len()));
            }
        }
        Ok(())
    }
    pub fn finish<N: Build>(&self, trees: &[N]) -> R {
        if trees.len() != self.ms.len() {
            return Err("number of trees changed".into());
        }
        for (t, n) in trees.iter().enumerate() {
            let m = &self.ms[t];
            let want: Vec<(Vec<usize>, u64)> = m.preorder().into_iter().map(|i| (m.nodes[i].path.clone(), self.cur[t][i])).collect();
            let got = n.dump();
            if got != want {
                let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Err(format!("tree {t} afterwards differs from the write log at preorder position {k}: got {:?}, expected {:?}", got.get(k), want.get(k)));
            }
        }
        let (c, d, live, faults) = audit();
        let held: usize = self.ms.iter().map(|m| m.len()).sum();
        if !faults.is_empty() || live != held as u64 {
            return Err(format!("{live} values live, {held} nodes (created {c}, dropped {d}); {faults:?}"));
        }
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum W {
    /// write each value as it comes
    Plain,
    /// keep every reference handed out, write them all later in another order
    Hoard,
    /// k elements, then leaves()
    Leaves(usize),
    Anc,
    AncLeaves(usize),
    Ctx,
}

/// (tree, node) in order of visits
fn visits(ms: &[Model], ord: Order) -> Vec<(usize, usize)> {
    ms.iter().enumerate().flat_map(|(t, m)| m.order(ord).into_iter().map(move |i| (t, i))).collect()
}
fn leaves_after(m: &Model, ord: Order, k: usize) -> Vec<usize> {
    let o = m.order(ord);
    let mut done = vec![false; m.len()];
    o[..k.min(o.len())].iter().for_each(|i| done[*i] = true);
    let seq = if ord == Order::Bfs { o } else { m.preorder() };
    seq.into_iter().filter(|i| m.is_leaf(*i) && !done[*i]).collect()
}

fn w_plain<I: Iterator>(mut it: I, seq: &[(usize, usize)], w: &mut Writer) -> R
where
    I::Item: ValMut,
{
    for (t, i) in seq {
        match it.next() {
            None => return Err(format!("ended before node {}", w.ms[*t].nodes[*i].id)),
            Some(mut v) => w.visit(*t, *i, &mut v)?,
        }
    }
    Ok(())
}
fn w_end<T>(x: Option<T>) -> R {
    if x.is_some() {
        return Err("extra element at the end".into());
    }
    Ok(())
}
fn w_hoard<I: Iterator>(it: I, seq: &[(usize, usize)], w: &mut Writer) -> R
where
    I::Item: ValMut,
{
    let mut all: Vec<(usize, I::Item)> = it.enumerate().collect();
    if all.len() != seq.len() {
        return Err(format!("{} elements, expected {}", all.len(), seq.len()));
    }
    for rounds in 0..2 {
        for x in (1..all.len()).rev() {
            let y = w.r.below(x + 1);
            all.swap(x, y);
        }
        for (k, v) in all.iter_mut() {
            let (t, i) = seq[*k];
            w.visit(t, i, v).map_err(|e| format!("round {rounds}: {e}"))?;
        }
    }
    Ok(())
}
fn w_stack<V: ValMut, S>(it: &mut S, seq: &[(usize, usize)], w: &mut Writer) -> R
where
    S: StreamingIteratorMut<Item = [V]>,
{
    for (t, i) in seq {
        it.advance();
        for _ in 0..1 + w.r.below(2) {
            match it.get_mut() {
                None => return Err(format!("ended before node {}", w.ms[*t].nodes[*i].id)),
                Some(st) => w.stack(*t, *i, st)?,
            }
        }
        // read the same element through the shared view
        let want = w.cur[*t][*i];
        match it.get() {
            Some(st) if st.last().map(|v| v.id()) == Some(want) => {}
            _ => return Err(format!("get() after get_mut() does not show the value just written at node {}", w.ms[*t].nodes[*i].id)),
        }
    }
    Ok(())
}
fn w_ctx<V: ValMut, C: Poke, S>(it: &mut S, seq: &[(usize, usize)], coll: bool, avail: bool, w: &mut Writer) -> R
where
    S: StreamingIteratorMut<Item = TreeContext<V, C>>,
{
    for (t, i) in seq {
        let Some(c) = it.next_mut() else { return Err(format!("ended before node {}", w.ms[*t].nodes[*i].id)) };
        w_ctx_one(c, *t, *i, coll, avail, w)?;
    }
    Ok(())
}

/// one exposure inside for_each_mut / fold_mut; the whole iteration cannot be stopped, so the first error is kept
struct Tail<'s> {
    seq: &'s [(usize, usize)],
    at: usize,
    res: R,
}
impl<'s> Tail<'s> {
    fn new(seq: &'s [(usize, usize)]) -> Tail<'s> {
        Tail { seq, at: 0, res: Ok(()) }
    }
    fn take(&mut self, f: impl FnOnce(usize, usize) -> R) {
        let k = self.at;
        self.at += 1;
        if self.res.is_ok() {
            self.res = match self.seq.get(k) {
                None => Err(format!("extra element {k} while the rest ({}) was taken in one call", self.seq.len())),
                Some((t, i)) => f(*t, *i).map_err(|e| format!("element {k} of the rest, taken in one call: {e}")),
            };
        }
    }
    fn end(self) -> R {
        self.res?;
        if self.at < self.seq.len() {
            return Err(format!("the rest, taken in one call, ended after {} of {} elements", self.at, self.seq.len()));
        }
        Ok(())
    }
}
/// the remaining elements, by steps or by one call on the iterator itself
fn w_stack_rest<V: ValMut, S>(mut it: S, seq: &[(usize, usize)], w: &mut Writer) -> R
where
    S: StreamingIteratorMut<Item = [V]>,
{
    match w.r.below(3) {
        0 => {
            w_stack(&mut it, seq, w)?;
            w_end(it.next_mut())
        }
        1 => {
            let mut tail = Tail::new(seq);
            it.for_each_mut(|st| tail.take(|t, i| w.stack(t, i, st)));
            tail.end()
        }
        _ => {
            let tail = it.fold_mut(Tail::new(seq), |mut tail, st| {
                tail.take(|t, i| w.stack(t, i, st));
                tail
            });
            tail.end()
        }
    }
}
fn w_ctx_one<V: ValMut, C: Poke>(c: &mut TreeContext<V, C>, t: usize, i: usize, coll: bool, avail: bool, w: &mut Writer) -> R {
    w.stack(t, i, c.ancestors_mut())?;
    if avail {
        w.children(t, i, c.children_mut())?;
        // the exposed values and the children do not alias
        w.stack(t, i, c.ancestors_mut())?;
    }
    let mut want = w.ms[t].nodes[i].path.clone();
    if coll {
        want.insert(0, t);
    }
    if c.path() != want {
        return Err(format!("path {:?}, expected {want:?}", c.path()));
    }
    Ok(())
}
fn w_ctx_rest<V: ValMut, C: Poke, S>(mut it: S, seq: &[(usize, usize)], coll: bool, avail: bool, w: &mut Writer) -> R
where
    S: StreamingIteratorMut<Item = TreeContext<V, C>>,
{
    match w.r.below(3) {
        0 => {
            w_ctx(&mut it, seq, coll, avail, w)?;
            w_end(it.next_mut())
        }
        1 => {
            let mut tail = Tail::new(seq);
            it.for_each_mut(|c| tail.take(|t, i| w_ctx_one(c, t, i, coll, avail, w)));
            tail.end()
        }
        _ => {
            let tail = it.fold_mut(Tail::new(seq), |mut tail, c| {
                tail.take(|t, i| w_ctx_one(c, t, i, coll, avail, w));
                tail
            });
            tail.end()
        }
    }
}
/// the remaining values, by steps or by one call on the iterator itself
fn w_plain_rest<I: Iterator>(mut it: I, seq: &[(usize, usize)], w: &mut Writer) -> R
where
    I::Item: ValMut,
{
    match w.r.below(3) {
        0 => {
            w_plain(&mut it, seq, w)?;
            w_end(it.next())
        }
        1 => {
            let mut tail = Tail::new(seq);
            it.for_each(|mut v| tail.take(|t, i| w.visit(t, i, &mut v)));
            tail.end()
        }
        _ => {
            let tail = it.fold(Tail::new(seq), |mut tail, mut v| {
                tail.take(|t, i| w.visit(t, i, &mut v));
                tail
            });
            tail.end()
        }
    }
}

macro_rules! w_modes {
    ($it:expr, $w:expr, $ord:expr, $mode:expr, $m:expr, $avail:expr) => {{
        let seq = visits($w.ms, $ord);
        let all = seq.len();
        match $mode {
            W::Plain => {
                let mut it = $it;
                let cut = $w.r.below(all + 1);
                w_plain(&mut it, &seq[..cut], $w)?;
                w_plain_rest(it, &seq[cut..], $w)
            }
            W::Hoard => w_hoard($it, &seq, $w),
            W::Leaves(k) => {
                let mut it = $it;
                w_plain(&mut it, &seq[..k.min(all)], $w)?;
                let mut it = it.leaves();
                let rest: Vec<_> = leaves_after($m, $ord, k).into_iter().map(|i| (0, i)).collect();
                let cut = $w.r.below(rest.len() + 1);
                w_plain(&mut it, &rest[..cut], $w)?;
                w_plain_rest(it, &rest[cut..], $w)
            }
            W::Anc => {
                let mut it = $it.attach_ancestors();
                let cut = $w.r.below(all + 1);
                w_stack(&mut it, &seq[..cut], $w)?;
                w_stack_rest(it, &seq[cut..], $w)
            }
            W::AncLeaves(k) => {
                let mut it = $it.attach_ancestors();
                w_stack(&mut it, &seq[..k.min(all)], $w)?;
                if k > all {
                    it.advance();
                }
                let mut it = it.leaves();
                let rest: Vec<_> = leaves_after($m, $ord, k).into_iter().map(|i| (0, i)).collect();
                let cut = $w.r.below(rest.len() + 1);
                w_stack(&mut it, &rest[..cut], $w)?;
                w_stack_rest(it, &rest[cut..], $w)
            }
            W::Ctx => {
                let mut it = $it.attach_context();
                let cut = $w.r.below(all + 1);
                w_ctx(&mut it, &seq[..cut], false, $avail, $w)?;
                w_ctx_rest(it, &seq[cut..], false, $avail, $w)
            }
        }
    }};
}

fn wm_gen<'a, N>(n: &'a mut N, m: &Model, ord: Order, mode: W, w: &mut Writer) -> R
where
    N: MutBorrowedTreeNode<'a> + Sub,
    N::MutBorrowedValue: ValMut,
    N::MutBorrowedChildren: Poke,
{
    match ord {
        Order::Bfs => w_modes!(n.bfs_iter_mut(), w, ord, mode, m, true),
        Order::Pre => w_modes!(n.dfs_preorder_iter_mut(), w, ord, mode, m, true),
        _ => w_modes!(n.dfs_postorder_iter_mut(), w, ord, mode, m, true),
    }
}
fn wm_bin<'a, N>(n: &'a mut N, m: &Model, ord: Order, mode: W, w: &mut Writer) -> R
where
    N: MutBorrowedBinaryTreeNode<'a> + Sub,
    N::MutBorrowedValue: ValMut,
{
    match ord {
        Order::Bfs => w_modes!(n.bfs_iter_mut(), w, ord, mode, m, true),
        Order::Pre => w_modes!(n.dfs_preorder_iter_mut(), w, ord, mode, m, true),
        Order::In => w_modes!(n.dfs_inorder_iter_mut(), w, ord, mode, m, true),
        Order::Post => w_modes!(n.dfs_postorder_iter_mut(), w, ord, mode, m, true),
    }
}
fn wo_gen<N>(n: N, m: &Model, ord: Order, mode: W, w: &mut Writer) -> R
where
    N: OwnedTreeNode<OwnedValue = Tok> + Sub,
    N::OwnedChildren: Poke,
{
    match ord {
        Order::Bfs => w_modes!(n.bfs(), w, ord, mode, m, true),
        Order::Pre => w_modes!(n.dfs_preorder(), w, ord, mode, m, true),
        _ => w_modes!(n.dfs_postorder(), w, ord, mode, m, false),
    }
}
fn wo_bin<N>(n: N, m: &Model, ord: Order, mode: W, w: &mut Writer) -> R
where
    N: OwnedBinaryTreeNode<OwnedValue = Tok> + Sub,
{
    match ord {
        Order::Bfs => w_modes!(n.bfs(), w, ord, mode, m, true),
        Order::Pre => w_modes!(n.dfs_preorder(), w, ord, mode, m, true),
        Order::In => w_modes!(n.dfs_inorder(), w, ord, mode, m, false),
        Order::Post => w_modes!(n.dfs_postorder(), w, ord, mode, m, false),
    }
}

pub fn write_run(m: &Model, fam: Fam, own: Own, ord: Order, mode: W, w: &mut Writer) -> R {
    macro_rules! go {
        ($t:ty, $mu:ident, $o:ident) => {{
            let mut n = <$t as Build>::build(m);
            if own == Own::Mut {
                $mu(&mut n, m, ord, mode, w)?;
                w.finish(&[n])
            } else {
                $o(n, m, ord, mode, w)
            }
        }};
    }
    match fam {
        "Tree" => go!(Tree<Tok>, wm_gen, wo_gen),
        "ListNode" => go!(ListNode, wm_gen, wo_gen),
        "VecRefNode" => go!(VecRefNode, wm_gen, wo_gen),
        "SpyNode" => go!(SpyNode, wm_gen, wo_gen),
        "BinaryTree" => go!(BinaryTree<Tok>, wm_bin, wo_bin),
        _ => go!(SpyBin, wm_bin, wo_bin),
    }
}

macro_rules! wc_modes {
    ($it:expr, $w:expr, $ord:expr, $mode:expr) => {{
        let seq = visits($w.ms, $ord);
        let all = seq.len();
        match $mode {
            W::Plain => {
                let mut it = $it;
                let cut = $w.r.below(all + 1);
                w_plain(&mut it, &seq[..cut], $w)?;
                w_plain_rest(it, &seq[cut..], $w)
            }
            W::Hoard => w_hoard($it, &seq, $w),
            _ => {
                let mut it = $it.attach_context();
                let cut = $w.r.below(all + 1);
                w_ctx(&mut it, &seq[..cut], true, true, $w)?;
                w_ctx_rest(it, &seq[cut..], true, true, $w)
            }
        }
    }};
}
fn wc_gen<'a, N: 'a, C: MutBorrowedIntoIteratorOfTrees<'a, N>>(c: C, ord: Order, mode: W, w: &mut Writer) -> R
where
    N: MutBorrowedTreeNode<'a> + Sub,
    N::MutBorrowedValue: ValMut,
    N::MutBorrowedChildren: Poke,
{
    match ord {
        Order::Bfs => wc_modes!(c.bfs_each_iter_mut(), w, ord, mode),
        Order::Pre => wc_modes!(c.dfs_preorder_each_iter_mut(), w, ord, mode),
        _ => wc_modes!(c.dfs_postorder_each_iter_mut(), w, ord, mode),
    }
}
fn wc_bin<'a, N: 'a, C: MutBorrowedIntoIteratorOfBinaryTrees<'a, N>>(c: C, ord: Order, mode: W, w: &mut Writer) -> R
where
    N: MutBorrowedBinaryTreeNode<'a> + Sub,
    N::MutBorrowedValue: ValMut,
{
    match ord {
        Order::Bfs => wc_modes!(c.bfs_each_iter_mut(), w, ord, mode),
        Order::Pre => wc_modes!(c.dfs_preorder_each_iter_mut(), w, ord, mode),
        Order::In => wc_modes!(c.dfs_inorder_each_iter_mut(), w, ord, mode),
        Order::Post => wc_modes!(c.dfs_postorder_each_iter_mut(), w, ord, mode),
    }
}
#[allow(unused_assignments)]
pub fn write_list(ms: &[Model], fam: Fam, coll: Coll, ord: Order, mode: W, w: &mut Writer) -> R {
    macro_rules! go {
        ($t:ty, $f:ident) => {{
            let mut v: Vec<$t> = build_all(ms);
            let res: R = with_mut_coll!(v, coll, c => $f(c, ord, mode, w));
            res?;
            w.finish(&v)
        }};
    }
    match fam {
        "Tree" => go!(Tree<Tok>, wc_gen),
        "ListNode" => go!(ListNode, wc_gen),
        "VecRefNode" => go!(VecRefNode, wc_gen),
        "SpyNode" => go!(SpyNode, wc_gen),
        "BinaryTree" => go!(BinaryTree<Tok>, wc_bin),
        _ => go!(SpyBin, wc_bin),
    }
}

pub struct Writes {
    src: Src,
    lists: Lists,
}
impl Writes {
    pub fn with(src: Src, lists: Lists) -> Writes {
        Writes { src, lists }
    }
    pub fn new(quick: bool) -> Writes {
        match quick {
            true => Writes { src: Src::new(6, 6, 12_000, 30), lists: Lists::new(3, 2, 2, 4_000, 10) },
            false => Writes { src: Src::new(8, 8, 150_000, 50), lists: Lists::new(3, 2, 3, 60_000, 16) },
        }
    }
}
impl Prop for Writes {
    fn cases(&self) -> u64 {
        self.src.cases() + self.lists.cases()
    }
    fn rule(&self) -> String {
        format!("trees: {}; collections: {}; every mutable route (values as they come, all references kept and written later in shuffled order, leaves() after k, attach_ancestors with writes at any height, attach_ancestors then leaves after k, attach_context with nested mutable traversals of the exposed children) and the owned ancestor/context routes, in every order and node family; random writes in place and by replacement; every exposure compared with the write log, the whole tree compared afterwards; non-trivial: at least 2 nodes", self.src.text(), self.lists.text())
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        if i >= self.src.cases() {
            let (bin, ms, mut r) = self.lists.get("P09l", seed, i - self.src.cases());
            let n: usize = ms.iter().map(|m| m.len()).sum();
            let lk = lists_key(&ms);
            for fam in fams(bin) {
                if n > 100 && !r.chance(1, 2) {
                    continue;
                }
                for &ord in orders(bin) {
                    for mode in [W::Plain, W::Hoard, W::Ctx] {
                        let coll = *r.pick(colls(bin, Own::Mut));
                        let mut tally = (0, 0, 0, 0);
                        let wr = Rng::new(r.next(), "w", 0);
                        cx.eval(
                            key(&[lk, skey(fam), ord as u64, skey(&format!("{mode:?}")), coll as u64]),
                            n > 1,
                            || format!("writes through {fam} collection {coll:?} {ord:?} {mode:?} on {}", show(&ms)),
                            || {
                                let mut w = Writer::new(&ms, wr);
                                write_list(&ms, fam, coll, ord, mode, &mut w)?;
                                tally = (w.writes, w.ancestor_writes, w.reads, w.child_walks);
                                Ok(w.writes + w.reads)
                            },
                        )?;
                        cx.count("writes_logged", tally.0);
                        cx.count("writes_through_ancestors", tally.1);
                        cx.count("exposures_compared", tally.2);
                        cx.count("children_subtrees_written_in_place", tally.3);
                    }
                }
            }
            return Ok(());
        }
        let (m, mut r) = self.src.get("P09", seed, i);
        let n = m.len();
        cx.peak("largest_tree", n as u64);
        let sk = m.shape_key();
        let ms = [m.clone()];
        for (fi, fam) in fams(m.binary).iter().enumerate() {
            if n > 40 && fi as u64 != i % fams(m.binary).len() as u64 {
                continue;
            }
            for &ord in orders(m.binary) {
                let k1 = r.range(0, n + 1);
                let k2 = r.range(0, n + 1);
                for (own, mode) in [
                    (Own::Mut, W::Plain),
                    (Own::Mut, W::Hoard),
                    (Own::Mut, W::Leaves(k1)),
                    (Own::Mut, W::Anc),
                    (Own::Mut, W::AncLeaves(0)),
                    (Own::Mut, W::AncLeaves(k2)),
                    (Own::Mut, W::Ctx),
                    (Own::Owned, W::Anc),
                    (Own::Owned, W::AncLeaves(k1)),
                    (Own::Owned, W::Ctx),
                ] {
                    if n > 10_000 && matches!(mode, W::Hoard | W::AncLeaves(_)) && !r.chance(1, 2) {
                        continue;
                    }
                    let mut tally = (0, 0, 0, 0);
                    let wr = Rng::new(r.next(), "w", 0);
                    cx.eval(
                        key(&[sk, fi as u64, own as u64, ord as u64, skey(&format!("{mode:?}"))]),
                        n > 1,
                        || format!("writes through {fam} {own:?} {ord:?} {mode:?} on {}", m.show()),
                        || {
                            let mut w = Writer::new(&ms, wr);
                            write_run(&m, fam, own, ord, mode, &mut w)?;
                            tally = (w.writes, w.ancestor_writes, w.reads, w.child_walks);
                            Ok(w.writes + w.reads)
                        },
                    )?;
                    cx.count("writes_logged", tally.0);
                    cx.count("writes_through_ancestors", tally.1);
                    cx.count("exposures_compared", tally.2);
                        cx.count("children_subtrees_written_in_place", tally.3);
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- P10

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Remove(usize),
    Insert(usize),
    Swap(usize, usize),
    Reverse,
    Clear,
    /// iterators: consume from the front / back
    Front,
    Back,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cap {
    /// free editing of a sequence of children
    Seq,
    /// two optional slots
    Slots,
    /// an iterator: consuming only
    Iter,
}
/// A children collection as handed out by a context; `It` is what one child is.
pub trait EditKids<It> {
    const CAP: Cap;
    fn edit(&mut self, op: Op, new: Option<It>);
}
fn vec_edit<It>(v: &mut Vec<It>, op: Op, new: Option<It>) {
    match op {
        Op::Remove(i) => drop(v.remove(i)),
        Op::Insert(i) => v.insert(i, new.unwrap()),
        Op::Swap(i, j) => v.swap(i, j),
        Op::Reverse => v.reverse(),
        Op::Clear => v.clear(),
        _ => unreachable!(),
    }
}
impl<It> EditKids<It> for Vec<It> {
    const CAP: Cap = Cap::Seq;
    fn edit(&mut self, op: Op, new: Option<It>) {
        vec_edit(self, op, new)
    }
}
impl<'a, It> EditKids<It> for &'a mut Vec<It> {
    const CAP: Cap = Cap::Seq;
    fn edit(&mut self, op: Op, new: Option<It>) {
        vec_edit(self, op, new)
    }
}
impl<It> EditKids<It> for VecDeque<It> {
    const CAP: Cap = Cap::Seq;
    fn edit(&mut self, op: Op, new: Option<It>) {
        let mut v: Vec<It> = std::mem::take(self).into_iter().collect();
        vec_edit(&mut v, op, new);
        self.extend(v);
    }
}
impl<It> EditKids<It> for LinkedList<It> {
    const CAP: Cap = Cap::Seq;
    fn edit(&mut self, op: Op, new: Option<It>) {
        let mut v: Vec<It> = std::mem::take(self).into_iter().collect();
        vec_edit(&mut v, op, new);
        self.extend(v);
    }
}
impl EditKids<SpyNode> for SpyKids {
    const CAP: Cap = Cap::Seq;
    fn edit(&mut self, op: Op, new: Option<SpyNode>) {
        vec_edit(&mut self.0, op, new)
    }
}
impl<It> EditKids<It> for [Option<It>; 2] {
    const CAP: Cap = Cap::Slots;
    fn edit(&mut self, op: Op, new: Option<It>) {
        match op {
            Op::Remove(i) => drop(self[i].take()),
            Op::Insert(i) => self[i] = new,
            Op::Swap(..) | Op::Reverse => self.swap(0, 1),
            Op::Clear => *self = [None, None],
            _ => unreachable!(),
        }
    }
}
macro_rules! iter_edit {
    ($([$t:ty, $it:ty]),*) => {$(
        impl<'a, N> EditKids<$it> for $t {
            const CAP: Cap = Cap::Iter;
            fn edit(&mut self, op: Op, _: Option<$it>) {
                match op {
                    Op::Front => drop(self.next()),
                    Op::Back => drop(self.next_back()),
                    _ => unreachable!(),
                }
            }
        }
    )*};
}
iter_edit!(
    [std::slice::IterMut<'a, N>, &'a mut N],
    [std::collections::linked_list::IterMut<'a, N>, &'a mut N]
);
/// The tree being traversed, as the edits leave it: an arena of nodes.
struct Arena {
    binary: bool,
    id: Vec<u64>,
    slots: Vec<Vec<Option<usize>>>,
}
impl Arena {
    fn add(&mut self, m: &Model) -> usize {
        let base = self.id.len();
        for n in &m.nodes {
            self.id.push(n.id);
            self.slots.push(n.slots.iter().map(|s| s.map(|x| x + base)).collect());
        }
        base
    }
    fn kids(&self, i: usize) -> Vec<Option<u64>> {
        self.slots[i].iter().map(|s| s.map(|x| self.id[x])).collect()
    }
    fn dump(&self, root: usize) -> Vec<(Vec<usize>, u64)> {
        let mut out = vec![];
        let mut st = vec![(vec![], root)];
        while let Some((p, x)) = st.pop() {
            out.push((p.clone(), self.id[x]));
            for (s, k) in self.slots[x].iter().enumerate().rev() {
                if let Some(k) = k {
                    let mut q = p.clone();
                    q.push(s);
                    st.push((q, *k));
                }
            }
        }
        out
    }
}

#[derive(Default)]
pub struct Tally {
    pub steps: u64,
    pub edits: u64,
    pub adopted: u64,
}

/// Drives a context traversal, editing as it goes and comparing every step.
fn edit_drive<It, V: Ident, C: EditKids<It> + Kids, S>(
    mut it: S,
    a: &mut Arena,
    roots: &[usize],
    coll: bool,
    ord: Order,
    pool: Vec<(It, usize)>,
    r: &mut Rng,
    stop: usize,
    t: &mut Tally,
) -> R
where
    S: StreamingIteratorMut<Item = TreeContext<V, C>>,
{
    let mut ed = Editor { a, coll, ord, pool, r, t, todo: VecDeque::new(), roots: roots.to_vec(), ti: 0 };
    // the rest may be taken in one call on the iterator itself
    let whole = stop == usize::MAX && ed.r.chance(1, 3);
    let stop = if whole { ed.r.below(12) } else { stop };
    while ed.t.steps < stop as u64 {
        if !ed.pending() {
            break;
        }
        match ed.r.below(4) {
            0 => {
                it.advance();
                ed.step(it.get_mut())?
            }
            _ => ed.step(it.next_mut())?,
        }
    }
    if whole {
        let mut res: R = Ok(());
        if ed.r.chance(1, 2) {
            it.for_each_mut(|c| {
                if res.is_ok() {
                    res = ed.step(Some(c)).map_err(|e| format!("in for_each_mut: {e}"));
                }
            });
        } else {
            res = it.fold_mut(res, |res, c| match res {
                Ok(()) => ed.step(Some(c)).map_err(|e| format!("in fold_mut: {e}")),
                res => res,
            });
        }
        res?;
        if ed.pending() {
            return ed.step(None::<&mut TreeContext<V, C>>);
        }
        return Ok(());
    }
    if ed.pending() {
        return Ok(());
    }
    if let Some(c) = it.next() {
        return Err(format!("extra element {:?} after {} steps and {} edits", ctx_ev(c, false), ed.t.steps, ed.t.edits));
    }
    Ok(())
}

struct Pos {
    node: usize,
    path: Vec<usize>,
    anc: Vec<u64>,
}
struct Editor<'e, It> {
    a: &'e mut Arena,
    coll: bool,
    ord: Order,
    pool: Vec<(It, usize)>,
    r: &'e mut Rng,
    t: &'e mut Tally,
    todo: VecDeque<Pos>,
    roots: Vec<usize>,
    ti: usize,
}
impl<It> Editor<'_, It> {
    /// is another node due?
    fn pending(&mut self) -> bool {
        if self.todo.is_empty() && self.ti < self.roots.len() {
            let root = self.roots[self.ti];
            self.todo.push_back(Pos { node: root, path: if self.coll { vec![self.ti] } else { vec![] }, anc: vec![self.a.id[root]] });
            self.ti += 1;
        }
        !self.todo.is_empty()
    }
    /// one step: compare, edit, expose the consequences
    fn step<V: Ident, C: EditKids<It> + Kids>(&mut self, c: Option<&mut TreeContext<V, C>>) -> R {
        if !self.pending() {
            return Err(format!("extra element after {} steps and {} edits", self.t.steps, self.t.edits));
        }
        let p = self.todo.pop_front().unwrap();
        let Editor { a, ord, pool, r, t, todo, .. } = self;
        t.steps += 1;
        let Some(c) = c else {
            return Err(format!("ended before node {} (after {} steps and {} edits)", a.id[p.node], t.steps - 1, t.edits));
        };
        let e = ctx_ev(c, true);
        let at = format!("step {} ({} edits so far)", t.steps, t.edits);
        if e.id != a.id[p.node] {
            return Err(format!("{at}: got node {}, expected node {}", e.id, a.id[p.node]));
        }
        if e.anc.as_ref() != Some(&p.anc) {
            return Err(format!("{at}, node {}: ancestors {:?}, expected {:?}", e.id, e.anc, p.anc));
        }
        if e.path.as_ref() != Some(&p.path) {
            return Err(format!("{at}, node {}: path {:?}, expected {:?}", e.id, e.path, p.path));
        }
        if e.depth != Some(p.anc.len() - 1) {
            return Err(format!("{at}, node {}: depth {:?}, expected {}", e.id, e.depth, p.anc.len() - 1));
        }
        let kids_agree = |c: &C, a: &Arena, when: &str| -> R {
            let (got, want) = (c.kid_ids(), a.kids(p.node));
            let got = got.unwrap_or_default();
            let hidden = !a.binary && got.len() == want.len() && got.iter().all(|g| g.is_none());
            if got != want && !hidden {
                return Err(format!("{at}, node {}: children {when} {got:?}, expected {want:?}", a.id[p.node]));
            }
            Ok(())
        };
        kids_agree(c.children(), &*a, "are")?;
        if r.chance(1, 2) {
            for _ in 0..r.range(1, 3) {
                let len = a.slots[p.node].len();
                let (op, takes_new) = match C::CAP {
                    Cap::Seq => match r.below(8) {
                        0 | 1 if len > 0 => (Op::Remove(r.below(len)), false),
                        2 if len > 1 => (Op::Swap(r.below(len), r.below(len)), false),
                        3 => (Op::Reverse, false),
                        4 => (Op::Clear, false),
                        5 | 6 | 7 if !pool.is_empty() => (Op::Insert(r.range(0, len)), true),
                        _ => continue,
                    },
                    Cap::Slots => match r.below(6) {
                        0 | 1 => (Op::Remove(r.below(2)), false),
                        2 => (Op::Reverse, false),
                        3 if r.chance(1, 3) => (Op::Clear, false),
                        4 | 5 if !pool.is_empty() => (Op::Insert(r.below(2)), true),
                        _ => continue,
                    },
                    Cap::Iter if len > 0 => (if r.chance(2, 3) { Op::Front } else { Op::Back }, false),
                    _ => continue,
                };
                let new = if takes_new { pool.pop() } else { None };
                let new_root = new.as_ref().map(|n| n.1);
                c.children_mut().edit(op, new.map(|n| n.0));
                t.edits += 1;
                t.adopted += takes_new as u64;
                let fixed = a.binary;
                let s = &mut a.slots[p.node];
                match op {
                    Op::Remove(i) if fixed => s[i] = None,
                    Op::Remove(i) => drop(s.remove(i)),
                    Op::Insert(i) if fixed => s[i] = new_root,
                    Op::Insert(i) => s.insert(i, new_root),
                    Op::Swap(i, j) => s.swap(i, j),
                    Op::Reverse => s.reverse(),
                    Op::Clear if fixed => s.fill(None),
                    Op::Clear => s.clear(),
                    Op::Front => drop(s.remove(0)),
                    Op::Back => drop(s.pop()),
                }
            }
            kids_agree(c.children(), &*a, "after editing are")?;
            // the edit does not disturb the rest of the context
            let e2 = ctx_ev(c, false);
            if (e2.id, &e2.anc, &e2.path, e2.depth) != (e.id, &e.anc, &e.path, e.depth) {
                return Err(format!("{at}: the context changed while its children were edited"));
            }
        }
        let next: Vec<Pos> = a.slots[p.node]
            .iter()
            .enumerate()
            .filter_map(|(s, k)| {
                k.map(|k| Pos { node: k, path: [p.path.clone(), vec![s]].concat(), anc: [p.anc.clone(), vec![a.id[k]]].concat() })
            })
            .collect();
        if *ord == Order::Bfs {
            todo.extend(next);
        } else {
            for x in next.into_iter().rev() {
                todo.push_front(x);
            }
        }
        Ok(())
    }
}

pub struct Plan<'x> {
    pub ms: &'x [Model],
    pub pool: &'x [Model],
    pub ord: Order,
    pub own: Own,
    pub coll: bool,
    pub stop: usize,
}

pub fn edit_run(p: &Plan, fam: Fam, r: &mut Rng, t: &mut Tally) -> R {
    let binary = p.ms.first().map_or(p.pool[0].binary, |m| m.binary);
    let mut a = Arena { binary, id: vec![], slots: vec![] };
    let roots: Vec<usize> = p.ms.iter().map(|m| a.add(m)).collect();
    let pool_roots: Vec<usize> = p.pool.iter().map(|m| a.add(m)).collect();
    macro_rules! go {
        ($t:ty, $o:ident, $mu:ident, $no:ident, $nm:ident, in_place: $in_place:expr) => {{
            // spare trees outlive the traversal
            let mut spare: Vec<$t> = build_all(p.pool);
            let mut v: Vec<$t> = build_all(p.ms);
            macro_rules! drive {
                ($it:expr, $pool:expr) => {{
                    let it = $it;
                    edit_drive(it, &mut a, &roots, p.coll, p.ord, $pool, r, p.stop, t)
                }};
            }
            match p.own {
                Own::Owned => {
                    let pool: Vec<($t, usize)> = spare.into_iter().zip(pool_roots.iter().copied()).collect();
                    let res = match (p.coll, p.ord) {
                        (false, Order::Bfs) => drive!($no::bfs(v.pop().unwrap()).attach_context(), pool),
                        (false, _) => drive!($no::dfs_preorder(v.pop().unwrap()).attach_context(), pool),
                        (true, Order::Bfs) => drive!($o::bfs_each(v).attach_context(), pool),
                        (true, _) => drive!($o::dfs_preorder_each(v).attach_context(), pool),
                    };
                    res?;
                    let (c, d, live, faults) = audit();
                    if live > 0 || !faults.is_empty() {
                        return Err(format!("afterwards {live} of {c} values are still live ({d} dropped); {faults:?}"));
                    }
                    Ok(())
                }
                Own::Mut => {
                    let pool: Vec<(&mut $t, usize)> = spare.iter_mut().zip(pool_roots.iter().copied()).collect();
                    let _ = &pool;
                    let res = match (p.coll, p.ord) {
                        (false, Order::Bfs) => drive!($nm::bfs_iter_mut(&mut v[0]).attach_context(), $in_place(p.pool, &pool_roots, pool)),
                        (false, _) => drive!($nm::dfs_preorder_iter_mut(&mut v[0]).attach_context(), $in_place(p.pool, &pool_roots, pool)),
                        (true, Order::Bfs) => drive!($mu::bfs_each_iter_mut(&mut v).attach_context(), $in_place(p.pool, &pool_roots, pool)),
                        (true, _) => drive!($mu::dfs_preorder_each_iter_mut(&mut v).attach_context(), $in_place(p.pool, &pool_roots, pool)),
                    };
                    res?;
                    check_after(&v, p, &a, &roots, fam == "Tree")
                }
                // contexts of borrowed traversals are read-only
                Own::Ref => unreachable!(),
            }
        }};
    }
    macro_rules! g {
        ($t:ty, $in_place:expr) => {
            go!($t, OwnedIntoIteratorOfTrees, MutBorrowedIntoIteratorOfTrees, OwnedTreeNode, MutBorrowedTreeNode, in_place: $in_place)
        };
    }
    macro_rules! b {
        ($t:ty) => {
            go!($t, OwnedIntoIteratorOfBinaryTrees, MutBorrowedIntoIteratorOfBinaryTrees, OwnedBinaryTreeNode, MutBorrowedBinaryTreeNode, in_place: |_, _, pool| pool)
        };
    }
    // in mutable traversals of `Tree` the children are the tree's own vector: new nodes are owned ones
    fn owned_spares(pool: &[Model], roots: &[usize], _: Vec<(&mut Tree<Tok>, usize)>) -> Vec<(Tree<Tok>, usize)> {
        pool.iter().map(|m| Tree::<Tok>::build(m)).zip(roots.iter().copied()).collect()
    }
    match fam {
        "Tree" => g!(Tree<Tok>, owned_spares),
        "ListNode" => g!(ListNode, |_, _, pool| pool),
        "VecRefNode" => g!(VecRefNode, |_, _, pool| pool),
        "SpyNode" => g!(SpyNode, |_, _, pool| pool),
        "BinaryTree" => b!(BinaryTree<Tok>),
        _ => b!(SpyBin),
    }
}

/// the trees themselves afterwards: edited when the children collection is the tree's own, else intact
fn check_after<N: Build>(v: &[N], p: &Plan, a: &Arena, roots: &[usize], edited: bool) -> R {
    for (k, n) in v.iter().enumerate() {
        let want = if edited {
            a.dump(roots[k])
        } else {
            let m = &p.ms[k];
            m.preorder().into_iter().map(|i| (m.nodes[i].path.clone(), m.nodes[i].id)).collect()
        };
        if n.dump() != want {
            return Err(format!("tree {k} afterwards is {:?}, expected {want:?}", n.dump()));
        }
    }
    let (_, _, _, faults) = audit();
    if !faults.is_empty() {
        return Err(format!("{faults:?}"));
    }
    Ok(())
}

pub struct Edits {
    src: Src,
    lists: Lists,
    scripts: usize,
}
impl Edits {
    pub fn with(src: Src, lists: Lists) -> Edits {
        Edits { src, lists, scripts: 2 }
    }
    pub fn new(quick: bool) -> Edits {
        match quick {
            true => Edits { src: Src::new(6, 6, 40_000, 30), lists: Lists::new(3, 2, 2, 12_000, 10), scripts: 6 },
            false => Edits { src: Src::new(8, 8, 150_000, 40), lists: Lists::new(3, 2, 3, 60_000, 14), scripts: 12 },
        }
    }
}
impl Prop for Edits {
    fn cases(&self) -> u64 {
        self.src.cases() + self.lists.cases()
    }
    fn rule(&self) -> String {
        format!("trees: {}; collections: {}; breadth-first and preorder context traversals, owned and mutable, every node family; steps by next_mut, by advance and get_mut, or all the rest in one for_each_mut / fold_mut call; at random steps 1 to 3 edits through children_mut() (remove, insert a spare tree of up to 6 nodes, swap, reverse, clear, consume from either end of a children iterator), {} scripts per route; every step compared with the edited model, the trees and the value ledger compared afterwards; distinct by (shape, route, script); non-trivial: at least one edit", self.src.text(), self.lists.text(), self.scripts)
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        let (bin, ms, mut r, coll) = if i < self.src.cases() {
            let (m, r) = self.src.get("P10", seed, i);
            (m.binary, vec![m], r, false)
        } else {
            let (bin, ms, r) = self.lists.get("P10l", seed, i - self.src.cases());
            (bin, ms, r, true)
        };
        let n: usize = ms.iter().map(|m| m.len()).sum();
        // ancestors and paths are compared at every step: quadratic on huge shapes
        if n > 20_000 && ms.len() > 1 {
            return Ok(());
        }
        let lk = lists_key(&ms);
        for (fi, fam) in fams(bin).iter().enumerate() {
            if n > 40 && fi as u64 != i % fams(bin).len() as u64 {
                continue;
            }
            for own in [Own::Owned, Own::Mut] {
                for ord in [Order::Bfs, Order::Pre] {
                    for _ in 0..if n > 1000 { 1 } else { self.scripts } {
                        let mut base = 10_000_000;
                        let pool: Vec<Model> = (0..r.range(1, 6))
                            .map(|_| {
                                let m = random(&mut r, bin, 6).finish(base);
                                base += 100;
                                m
                            })
                            .collect();
                        let script = r.next();
                        let stop = if r.chance(1, 8) { r.range(0, n) } else { usize::MAX };
                        let plan = Plan { ms: &ms, pool: &pool, ord, own, coll, stop };
                        let mut t = Tally::default();
                        let (evals, distinct) = (cx.evals, cx.keys.len());
                        let _ = (evals, distinct);
                        cx.eval(
                            key(&[lk, fi as u64, own as u64, ord as u64, script, coll as u64]),
                            n > 1,
                            || format!("editing {fam} {own:?} {ord:?}{} script {script} stop {stop} spares {} on {}", if coll { " collection" } else { "" }, show(&pool), show(&ms)),
                            || {
                                edit_run(&plan, fam, &mut Rng::new(script, "edit", 0), &mut t)?;
                                Ok(t.steps + t.edits)
                            },
                        )?;
                        cx.count("edits_made", t.edits);
                        cx.count("spare_trees_inserted", t.adopted);
                        cx.count("steps_compared", t.steps);
                    }
                }
            }
        }
        Ok(())
    }
}
