//! P16: where every value is, at every point a traversal can end: dropped part-way, converted,
//! unwound by a panic. The oracle is the creation/drop ledger of `tok.rs`.
use crate::engine::*;
use crate::lists::*;
use crate::model::*;
use crate::nodes::*;
use crate::p_cpipe::*;
use crate::p_pipe::*;
use crate::rng::Rng;
use crate::stages::*;
use crate::tok::*;
use crate::traverse::*;
use crate::{with_mut_coll, with_owned_coll, with_ref_bin_coll, with_ref_gen_coll};
use std::collections::{HashSet, LinkedList, VecDeque};
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

fn ledger(live_wanted: u64, what: &str) -> R {
    let (c, d, live, faults) = audit();
    if !faults.is_empty() {
        return Err(format!("{what}: {faults:?}"));
    }
    if live != live_wanted {
        return Err(format!("{what}: {live} values live, expected {live_wanted} ({c} created, {d} dropped)"));
    }
    Ok(())
}

// ------------------------------------------------------------- values kept by the caller

/// takes values and keeps them; `exact`: nothing may be dropped while everything yielded is kept
fn hold<I: Iterator>(mut it: I, stop: usize, total: usize, exact: bool) -> Result<u64, String>
where
    I::Item: Ident,
{
    let mut kept = vec![];
    let mut ended = false;
    while kept.len() < stop {
        match it.next() {
            None => {
                ended = true;
                break;
            }
            Some(v) => kept.push(v),
        }
        if kept.len() > total {
            return Err(format!("{} values yielded out of {total}", kept.len()));
        }
        if exact {
            ledger(total as u64, "in the middle")?;
        }
        let (_, _, live, faults) = audit();
        if live < kept.len() as u64 || !faults.is_empty() {
            return Err(format!("{live} values live while the caller holds {}; {faults:?}", kept.len()));
        }
    }
    if ended {
        let _ = it.next();
    }
    drop(it);
    ledger(kept.len() as u64, "iterator dropped, yielded values kept")?;
    let ids: HashSet<u64> = kept.iter().map(|v| v.id()).collect();
    if ids.len() != kept.len() {
        return Err("a value was handed out twice".into());
    }
    let n = kept.len() as u64;
    drop(kept);
    ledger(0, "everything dropped")?;
    Ok(n + 1)
}

/// a children collection which can be taken out of a context
pub trait Steal {
    /// children are documented as unavailable in owned in-order and postorder contexts
    const AVAILABLE: bool = true;
    fn steal(&mut self) -> Self;
}
macro_rules! steal_default {
    ($([$($g:tt)*] $t:ty),*) => {$(
        impl<$($g)*> Steal for $t {
            fn steal(&mut self) -> Self {
                std::mem::take(self)
            }
        }
    )*};
}
steal_default!([N] Vec<N>, [N] VecDeque<N>, [N] LinkedList<N>, [N] [Option<N>; 2]);
impl Steal for () {
    const AVAILABLE: bool = false;
    fn steal(&mut self) {}
}
impl Steal for SpyKids {
    fn steal(&mut self) -> Self {
        SpyKids(std::mem::take(&mut self.0))
    }
}

/// owned values exposed on a stack are moved out and replaced
fn rob_stack<S: StreamingIteratorMut<Item = [Tok]>>(mut it: S, stop: usize, cap: usize, r: &mut Rng) -> Result<u64, String> {
    let mut kept = vec![];
    let mut steps = 0;
    while steps < stop {
        it.advance();
        let Some(st) = it.get_mut() else { break };
        steps += 1;
        if steps > cap {
            return Err("endless traversal".into());
        }
        if r.chance(1, 2) {
            let j = r.below(st.len());
            kept.push(std::mem::replace(&mut st[j], Tok::new(7_000_000 + steps as u64)));
        }
        let (_, _, live, faults) = audit();
        if !faults.is_empty() || live < kept.len() as u64 {
            return Err(format!("{live} live, {} held; {faults:?}", kept.len()));
        }
    }
    drop(it);
    ledger(kept.len() as u64, "iterator dropped, values moved out of it kept")?;
    let n = kept.len();
    drop(kept);
    ledger(0, "everything dropped")?;
    Ok((steps + n) as u64 + 1)
}
fn rob_ctx<C: Steal, S: StreamingIteratorMut<Item = TreeContext<Tok, C>>>(mut it: S, stop: usize, cap: usize, r: &mut Rng) -> Result<u64, String> {
    let mut kept = vec![];
    let mut steps = 0;
    let mut kids: Vec<C> = vec![];
    while steps < stop {
        let Some(c) = it.next_mut() else { break };
        steps += 1;
        if steps > cap {
            return Err("endless traversal".into());
        }
        if r.chance(1, 2) {
            let st = c.ancestors_mut();
            let j = r.below(st.len());
            kept.push(std::mem::replace(&mut st[j], Tok::new(7_000_000 + steps as u64)));
        }
        if !C::AVAILABLE {
            continue;
        }
        if r.chance(1, 4) {
            kids.push(c.children_mut().steal());
        } else if r.chance(1, 6) && !kids.is_empty() {
            // give an earlier collection back, to be traversed here
            let k = kids.pop().unwrap();
            kids.push(std::mem::replace(c.children_mut(), k));
        }
        if kept.iter().any(|k| k.id() == u64::MAX) {
            return Err("a value held by the caller was destroyed".into());
        }
    }
    drop(it);
    let (_, _, before, faults) = audit();
    if !faults.is_empty() {
        return Err(format!("{faults:?}"));
    }
    let n = kept.len();
    drop(kids);
    ledger(kept.len() as u64, "iterator and children collections dropped, values moved out kept")?;
    drop(kept);
    ledger(0, "everything dropped")?;
    Ok((steps + n) as u64 + before + 1)
}

/// elements of a traversal kept while panics out of next() are caught and the traversal goes on
fn catch<I: Iterator>(mut it: I, cap: usize) -> u64 {
    let mut kept = vec![];
    let mut panics = 0;
    while panics < 20 && kept.len() <= cap {
        match guarded(|| it.next()) {
            Err(_) => panics += 1,
            Ok(None) => break,
            Ok(Some(v)) => kept.push(v),
        }
    }
    drop(it);
    kept.len() as u64
}
fn catch_streaming<S: StreamingIterator>(mut it: S, cap: usize) -> u64 {
    let mut panics = 0;
    let mut n = 0;
    while panics < 20 && n <= cap {
        match guarded(|| it.next().is_some()) {
            Err(_) => panics += 1,
            Ok(false) => break,
            Ok(true) => n += 1,
        }
    }
    drop(it);
    n as u64
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum H {
    Plain,
    Leaves(usize),
    Anc,
    AncLeaves(usize),
    Ctx,
    Catch,
    CatchAnc,
    CatchCtx,
    CatchLeaves(usize),
}
macro_rules! h_modes {
    ($it:expr, $h:expr, $stop:expr, $n:expr, $r:expr) => {{
        let cap = $n * 3 + 40;
        match $h {
            H::Plain => hold($it, $stop, $n, true),
            H::Leaves(k) => {
                let mut it = $it;
                let pre: Vec<_> = it.by_ref().take(k).collect();
                let rest = $n - pre.len();
                let _ = rest;
                let mut kept = vec![];
                let mut lv = it.leaves();
                while kept.len() < $stop {
                    match lv.next() {
                        Some(v) => kept.push(v),
                        None => break,
                    }
                    if kept.len() > $n {
                        return Err("endless leaves".into());
                    }
                }
                drop(lv);
                ledger((pre.len() + kept.len()) as u64, "leaves iterator dropped, yielded values kept")?;
                let ids: HashSet<u64> = pre.iter().chain(&kept).map(|v| v.id()).collect();
                if ids.len() != pre.len() + kept.len() {
                    return Err("a value was handed out twice".into());
                }
                drop((pre, kept));
                ledger(0, "everything dropped")?;
                Ok(ids.len() as u64 + 1)
            }
            H::Anc => rob_stack($it.attach_ancestors(), $stop, cap, $r),
            H::AncLeaves(k) => {
                let mut it = $it.attach_ancestors();
                let mut kept = vec![];
                for _ in 0..k {
                    it.advance();
                    let Some(st) = it.get_mut() else { break };
                    if $r.chance(1, 2) {
                        let j = $r.below(st.len());
                        kept.push(std::mem::replace(&mut st[j], Tok::new(8_000_000)));
                    }
                }
                let mut lv = it.leaves();
                let mut n = 0;
                while n < $stop {
                    lv.advance();
                    let Some(st) = lv.get_mut() else { break };
                    n += 1;
                    if n > cap {
                        return Err("endless leaves".into());
                    }
                    if $r.chance(1, 2) {
                        let j = $r.below(st.len());
                        kept.push(std::mem::replace(&mut st[j], Tok::new(9_000_000)));
                    }
                }
                drop(lv);
                ledger(kept.len() as u64, "iterator dropped, values moved out of it kept")?;
                drop(kept);
                ledger(0, "everything dropped")?;
                Ok(n as u64 + 1)
            }
            H::Ctx => rob_ctx($it.attach_context(), $stop, cap, $r),
            H::Catch => Ok(catch($it, cap)),
            H::CatchAnc => match guarded(move || $it.attach_ancestors()) {
                Ok(it) => Ok(catch_streaming(it, cap)),
                Err(_) => Ok(0),
            },
            H::CatchCtx => match guarded(move || $it.attach_context()) {
                Ok(it) => Ok(catch_streaming(it, cap)),
                Err(_) => Ok(0),
            },
            H::CatchLeaves(k) => {
                let mut it = $it;
                let mut pre = vec![];
                for _ in 0..k {
                    if let Ok(v) = guarded(|| it.next()) {
                        pre.push(v);
                    }
                }
                match guarded(move || it.leaves()) {
                    Ok(l) => Ok(catch(l, cap)),
                    Err(_) => Ok(0),
                }
            }
        }
    }};
}
fn h_gen<N: OwnedTreeNode<OwnedValue = Tok>>(n: N, ord: Order, h: H, stop: usize, total: usize, r: &mut Rng) -> Result<u64, String>
where
    N::OwnedChildren: Steal,
{
    match ord {
        Order::Bfs => h_modes!(n.bfs(), h, stop, total, r),
        Order::Pre => h_modes!(n.dfs_preorder(), h, stop, total, r),
        _ => h_modes!(n.dfs_postorder(), h, stop, total, r),
    }
}
fn h_bin<N: OwnedBinaryTreeNode<OwnedValue = Tok>>(n: N, ord: Order, h: H, stop: usize, total: usize, r: &mut Rng) -> Result<u64, String> {
    match ord {
        Order::Bfs => h_modes!(n.bfs(), h, stop, total, r),
        Order::Pre => h_modes!(n.dfs_preorder(), h, stop, total, r),
        Order::In => h_modes!(n.dfs_inorder(), h, stop, total, r),
        Order::Post => h_modes!(n.dfs_postorder(), h, stop, total, r),
    }
}
pub fn run_h(m: &Model, fam: Fam, ord: Order, h: H, stop: usize, r: &mut Rng) -> Result<u64, String> {
    let n = m.len();
    match fam {
        "Tree" => h_gen(Tree::<Tok>::build(m), ord, h, stop, n, r),
        "ListNode" => h_gen(ListNode::build(m), ord, h, stop, n, r),
        "VecRefNode" => h_gen(VecRefNode::build(m), ord, h, stop, n, r),
        "SpyNode" => h_gen(SpyNode::build(m), ord, h, stop, n, r),
        "BinaryTree" => h_bin(BinaryTree::<Tok>::build(m), ord, h, stop, n, r),
        _ => h_bin(SpyBin::build(m), ord, h, stop, n, r),
    }
}

// ------------------------------------------------------------- collections

macro_rules! hc_modes {
    ($it:expr, $h:expr, $stop:expr, $n:expr, $r:expr) => {
        match $h {
            H::Plain => hold($it, $stop, $n, true),
            _ => rob_ctx($it.attach_context(), $stop, $n * 3 + 40, $r),
        }
    };
}
fn hc_gen<N: OwnedTreeNode<OwnedValue = Tok>, C: OwnedIntoIteratorOfTrees<N>>(c: C, ord: Order, h: H, stop: usize, total: usize, r: &mut Rng) -> Result<u64, String>
where
    N::OwnedChildren: Steal,
{
    match ord {
        Order::Bfs => hc_modes!(c.bfs_each(), h, stop, total, r),
        Order::Pre => hc_modes!(c.dfs_preorder_each(), h, stop, total, r),
        _ => hc_modes!(c.dfs_postorder_each(), h, stop, total, r),
    }
}
fn hc_bin<N: OwnedBinaryTreeNode<OwnedValue = Tok>, C: OwnedIntoIteratorOfBinaryTrees<N>>(c: C, ord: Order, h: H, stop: usize, total: usize, r: &mut Rng) -> Result<u64, String> {
    match ord {
        Order::Bfs => hc_modes!(c.bfs_each(), h, stop, total, r),
        Order::Pre => hc_modes!(c.dfs_preorder_each(), h, stop, total, r),
        Order::In => hc_modes!(c.dfs_inorder_each(), h, stop, total, r),
        Order::Post => hc_modes!(c.dfs_postorder_each(), h, stop, total, r),
    }
}
fn run_hc(ms: &[Model], fam: Fam, coll: Coll, ord: Order, h: H, stop: usize, r: &mut Rng) -> Result<u64, String> {
    let n = ms.iter().map(|m| m.len()).sum();
    macro_rules! go {
        ($t:ty, $f:ident) => {{
            let v: Vec<$t> = build_all(ms);
            with_owned_coll!(v, coll, c => $f(c, ord, h, stop, n, r))
        }};
    }
    match fam {
        "Tree" => go!(Tree<Tok>, hc_gen),
        "ListNode" => go!(ListNode, hc_gen),
        "SpyNode" => go!(SpyNode, hc_gen),
        "BinaryTree" => go!(BinaryTree<Tok>, hc_bin),
        _ => go!(SpyBin, hc_bin),
    }
}

// ------------------------------------------------------------- any execution, audited

/// what one audited execution ended with
pub enum End {
    Done,
    Panicked(String),
}
/// runs `f` on a tree; owned: nothing may be left afterwards; borrowed: the tree is whole, nothing dropped
macro_rules! audited {
    ($m:ident, $t:ty, $own:ident, $n:ident, $of:expr, $mf:expr, $rf:expr) => {{
        let mut tree = <$t as Build>::build($m);
        let created = $m.len() as u64;
        let whole = |tree: &$t, written: bool, what: &str| -> R {
            let want: Vec<(Vec<usize>, u64)> = $m.preorder().into_iter().map(|i| ($m.nodes[i].path.clone(), $m.nodes[i].id)).collect();
            let got = tree.dump();
            if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a.0 != b.0 || if written { a.1 % TOUCHED != b.1 } else { a.1 != b.1 }) {
                return Err(format!("{what}: the borrowed tree changed"));
            }
            ledger(created, what)
        };
        let res = match $own {
            Own::Owned => guarded(move || {
                let $n = tree;
                $of
            }),
            Own::Mut => {
                let res = guarded(|| {
                    let $n = &mut tree;
                    $mf
                });
                disarm_keep();
                whole(&tree, true, "after a mutable traversal")?;
                drop(tree);
                res
            }
            Own::Ref => {
                let res = guarded(|| {
                    let $n = &tree;
                    $rf
                });
                disarm_keep();
                whole(&tree, false, "after a borrowed traversal")?;
                drop(tree);
                res
            }
        };
        disarm_keep();
        ledger(0, "everything dropped")?;
        res
    }};
}
thread_local! {
    static TICKS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn disarm_keep() {
    let t = disarm();
    if t > 0 {
        TICKS.with(|x| x.set(t))
    }
}
fn ticks() -> u64 {
    TICKS.with(|x| x.get())
}
fn end<T>(r: Result<T, String>) -> End {
    match r {
        Ok(_) => End::Done,
        Err(e) => End::Panicked(e),
    }
}

pub fn trav(m: &Model, fam: Fam, own: Own, ord: Order, mode: Mode, stop: usize) -> Result<End, String> {
    TICKS.with(|x| x.set(0));
    let cap = m.len() * 2 + 8;
    macro_rules! go {
        ($t:ty, $o:ident, $m:ident, $r:ident) => {
            end(audited!(m, $t, own, n, $o(n, ord, mode, stop, cap), $m(n, ord, mode, stop, cap), $r(n, ord, mode, stop, cap)))
        };
    }
    Ok(match fam {
        "Tree" => go!(Tree<Tok>, owned_generic, mut_generic, ref_generic),
        "ListNode" => go!(ListNode, owned_generic, mut_generic, ref_generic),
        "VecRefNode" => go!(VecRefNode, owned_generic, mut_generic, ref_generic),
        "SpyNode" => go!(SpyNode, owned_generic, mut_generic, ref_generic),
        "BinaryTree" => go!(BinaryTree<Tok>, owned_binary, mut_binary, ref_binary),
        _ => go!(SpyBin, owned_binary, mut_binary, ref_binary),
    })
}
fn job_run(m: &Model, fam: Fam, own: Own, job: Job) -> Result<End, String> {
    TICKS.with(|x| x.set(0));
    macro_rules! go {
        ($t:ty, $do:ident, $dm:ident, $dr:ident, $po:ident, $pm:ident, $pr:ident) => {
            end(match job {
                Job::Direct(op, d) => audited!(m, $t, own, n, $do(n, op, d), $dm(n, op, d), $dr(n, op, d)),
                Job::Pipe(ops, t) => audited!(m, $t, own, n, $po(n, ops, t), $pm(n, ops, t), $pr(n, ops, t)),
            })
        };
    }
    macro_rules! g {
        ($t:ty) => {
            go!($t, d_own_gen, d_mut_gen, d_ref_gen, pipe_own_gen, pipe_mut_gen, pipe_ref_gen)
        };
    }
    macro_rules! b {
        ($t:ty) => {
            go!($t, d_own_bin, d_mut_bin, d_ref_bin, pipe_own_bin, pipe_mut_bin, pipe_ref_bin)
        };
    }
    Ok(match fam {
        "Tree" => g!(Tree<Tok>),
        "ListNode" => g!(ListNode),
        "VecRefNode" => g!(VecRefNode),
        "SpyNode" => g!(SpyNode),
        "BinaryTree" => b!(BinaryTree<Tok>),
        _ => b!(SpyBin),
    })
}
#[allow(unused_assignments)]
fn cjob_run(ms: &[Model], fam: Fam, own: Own, coll: Coll, job: CJob) -> Result<End, String> {
    TICKS.with(|x| x.set(0));
    let roots: Roots = std::rc::Rc::new(ms.iter().map(|m| m.nodes[0].id).collect());
    let r = &roots;
    macro_rules! go {
        ($t:ty, $ref_coll:ident, $eo:ident, $em:ident, $er:ident, $ao:ident, $am:ident, $ar:ident, $po:ident, $pm:ident, $pr:ident) => {{
            let mut v: Vec<$t> = build_all(ms);
            let total: usize = ms.iter().map(|m| m.len()).sum();
            // Vec and slices stay with the caller when a panic unwinds
            let res = match own {
                Own::Owned => guarded(move || match job {
                    CJob::Each(op, t) => with_owned_coll!(v, coll, c => $eo(c, op, t, r)),
                    CJob::EachAs(op, t, f) => with_owned_coll!(v, coll, c => $ao(c, op, t, f)),
                    CJob::Pipe(ops, t) => with_owned_coll!(v, coll, c => $po(c, ops, t, r)),
                }),
                _ => {
                    let mut w: Vec<$t> = std::mem::take(&mut v);
                    let res = if own == Own::Mut {
                        guarded(|| match job {
                            CJob::Each(op, t) => with_mut_coll!(w, Coll::Vec, c => $em(c, op, t, r)),
                            CJob::EachAs(op, t, f) => with_mut_coll!(w, Coll::Vec, c => $am(c, op, t, f)),
                            CJob::Pipe(ops, t) => with_mut_coll!(w, Coll::Vec, c => $pm(c, ops, t, r)),
                        })
                    } else {
                        guarded(|| match job {
                            CJob::Each(op, t) => $ref_coll!(w, Coll::Vec, c => $er(c, op, t, r)),
                            CJob::EachAs(op, t, f) => $ref_coll!(w, Coll::Vec, c => $ar(c, op, t, f)),
                            CJob::Pipe(ops, t) => $ref_coll!(w, Coll::Vec, c => $pr(c, ops, t, r)),
                        })
                    };
                    disarm_keep();
                    if w.len() != ms.len() {
                        return Err("the borrowed collection changed".into());
                    }
                    for (n, m) in w.iter().zip(ms) {
                        let got = n.dump();
                        let same = got.len() == m.len() && got.iter().zip(m.preorder()).all(|(a, i)| a.0 == m.nodes[i].path && a.1 % TOUCHED == m.nodes[i].id);
                        if !same {
                            return Err("a borrowed tree changed".into());
                        }
                    }
                    ledger(total as u64, "after a borrowed run")?;
                    drop(w);
                    res
                }
            };
            disarm_keep();
            ledger(0, "everything dropped")?;
            end(res)
        }};
    }
    macro_rules! g {
        ($t:ty) => {
            go!($t, with_ref_gen_coll, e_own_gen, e_mut_gen, e_ref_gen, a_own_gen, a_mut_gen, a_ref_gen, p_own_gen, p_mut_gen, p_ref_gen)
        };
    }
    macro_rules! b {
        ($t:ty) => {
            go!($t, with_ref_bin_coll, e_own_bin, e_mut_bin, e_ref_bin, a_own_bin, a_mut_bin, a_ref_bin, p_own_bin, p_mut_bin, p_ref_bin)
        };
    }
    Ok(match fam {
        "Tree" => g!(Tree<Tok>),
        "ListNode" => g!(ListNode),
        "SpyNode" => g!(SpyNode),
        "BinaryTree" => b!(BinaryTree<Tok>),
        _ => b!(SpyBin),
    })
}

/// runs once without faults to count the points, then once per chosen point with a fault there
fn with_faults(mask: u8, r: &mut Rng, most: usize, cx_points: &mut u64, mut go: impl FnMut() -> Result<End, String>) -> Result<u64, String> {
    reset();
    arm(mask, u64::MAX, u64::MAX);
    if let End::Panicked(p) = go()? {
        return Err(format!("panic without a fault: {p}"));
    }
    let total = ticks();
    let points: Vec<u64> = if total <= most as u64 {
        (0..total).collect()
    } else {
        let mut v: Vec<u64> = vec![0, 1, total - 1];
        v.extend((3..most).map(|_| r.next() % total));
        v.sort();
        v.dedup();
        v
    };
    for p in &points {
        reset();
        arm(mask, *p, u64::MAX);
        match go().map_err(|e| format!("fault at point {p} of {total}: {e}"))? {
            End::Panicked(e) if e.contains(INJECTED) => {}
            End::Panicked(e) => return Err(format!("fault at point {p} of {total}: another panic came out: {e}")),
            End::Done => return Err(format!("fault at point {p} of {total}: the panic of the caller's code was swallowed")),
        }
    }
    *cx_points += points.len() as u64;
    Ok(total + points.len() as u64 + 1)
}

// ------------------------------------------------------------------------------------------- P16

pub struct Ownership {
    quick: bool,
    src: Src,
    lists: Lists,
}
impl Ownership {
    pub fn with(src: Src, lists: Lists) -> Ownership {
        Ownership { quick: true, src, lists }
    }
    pub fn new(quick: bool) -> Ownership {
        match quick {
            true => Ownership { quick, src: Src::new(5, 5, 3_000, 24), lists: Lists::new(3, 2, 2, 1_200, 8) },
            false => Ownership { quick, src: Src::new(7, 7, 40_000, 40), lists: Lists::new(3, 3, 3, 20_000, 14) },
        }
    }
    fn stops(&self, n: usize, r: &mut Rng) -> Vec<usize> {
        if n <= 6 || (!self.quick && n <= 12) {
            return (0..=n + 1).collect();
        }
        let mut v = vec![0, 1, n - 1, n, n + 1];
        for _ in 0..4 {
            v.push(r.range(1, n));
        }
        v.sort();
        v.dedup();
        v
    }
    fn tree(&self, m: &Model, r: &mut Rng, i: u64, cx: &mut Ctx) -> R {
        let n = m.len();
        let sk = m.shape_key();
        let nt = n > 1;
        let most = if n > 500 { 6 } else if self.quick { 14 } else { 40 };
        for (fi, fam) in fams(m.binary).iter().enumerate() {
            if n > 40 && fi as u64 != i % fams(m.binary).len() as u64 {
                continue;
            }
            let spy = fam.starts_with("Spy");
            for &ord in orders(m.binary) {
                // values moved out and kept
                for stop in self.stops(n, r) {
                    if n > 500 && r.chance(3, 4) {
                        continue;
                    }
                    let k = r.range(0, n + 1);
                    for h in [H::Plain, H::Leaves(stop), H::Leaves(k), H::Anc, H::AncLeaves(k), H::AncLeaves(stop), H::Ctx] {
                        if n > 500 && h == H::Plain {
                            continue; // audited at every step
                        }
                        let at = match h {
                            H::Leaves(s) | H::AncLeaves(s) if s == stop => usize::MAX,
                            _ => stop,
                        };
                        let mut rr = Rng::new(r.next(), "h", 0);
                        cx.eval(
                            key(&[sk, fi as u64, ord as u64, skey(&format!("{h:?}")), at as u64]),
                            nt,
                            || format!("{fam} owned {ord:?} {h:?} stop={at}, values kept, on {}", m.show()),
                            || {
                                run_h(m, fam, ord, h, at, &mut rr)
                            },
                        )?;
                    }
                }
                // stopped and converted anywhere, all ownership modes
                for own in OWNS {
                    for stop in self.stops(n, r) {
                        if n > 500 && r.chance(3, 4) || n > 2000 && r.chance(3, 4) {
                            continue;
                        }
                        for mode in [Mode::Plain, Mode::Leaves(stop), Mode::Anc, Mode::AncLeaves(stop), Mode::Ctx, Mode::LateCtx(stop), Mode::LateAnc(stop)] {
                            let at = if matches!(mode, Mode::Plain | Mode::Anc | Mode::Ctx) { stop } else { r.range(0, n + 1) };
                            cx.eval(
                                key(&[sk, fi as u64, ord as u64, own as u64, skey(&format!("{mode:?}")), at as u64, 1]),
                                nt,
                                || format!("{fam} {own:?} {ord:?} {mode:?} stop={at} on {}", m.show()),
                                || match trav(m, fam, own, ord, mode, at)? {
                                    End::Panicked(p) if !matches!(mode, Mode::LateCtx(_) | Mode::LateAnc(_)) => Err(format!("panic: {p}")),
                                    _ => Ok(at.min(n) as u64 + 1),
                                },
                            )?;
                        }
                    }
                    // faults in the caller's code
                    let mut modes = vec![(Mode::Adapt(Adapt::ForEach), AT_CLOSURE)];
                    if spy {
                        let k = r.range(0, n);
                        for md in [Mode::Plain, Mode::Leaves(k), Mode::Anc, Mode::AncLeaves(k), Mode::Ctx] {
                            modes.push((md, AT_OPEN));
                            modes.push((md, AT_OPEN | AT_POLL));
                        }
                    }
                    for (mode, mask) in modes {
                        let mut pts = 0;
                        let mut rr = Rng::new(r.next(), "f", 0);
                        cx.eval(
                            key(&[sk, fi as u64, ord as u64, own as u64, skey(&format!("{mode:?}")), mask as u64, 2]),
                            nt,
                            || format!("{fam} {own:?} {ord:?} {mode:?}, panics injected (kinds {mask}), on {}", m.show()),
                            || with_faults(mask, &mut rr, most, &mut pts, || trav(m, fam, own, ord, mode, usize::MAX)),
                        )?;
                        cx.count("panics_injected", pts);
                    }
                }
                // a panic out of next() is caught and the owned traversal goes on
                if spy {
                    let k = r.range(0, n);
                    for h in [H::Catch, H::CatchAnc, H::CatchCtx, H::CatchLeaves(k)] {
                        for _ in 0..3 {
                            let (a, b) = (r.next() % (2 * n as u64 + 2), r.next() % (2 * n as u64 + 2));
                            let mut rr = Rng::new(r.next(), "c", 0);
                            cx.eval(
                                key(&[sk, fi as u64, ord as u64, skey(&format!("{h:?}")), a, b, 3]),
                                nt,
                                || format!("{fam} owned {ord:?} {h:?}, panics at {a} and {b} caught between steps, on {}", m.show()),
                                || {
                                    arm(AT_OPEN | AT_POLL, a, b);
                                    let res = run_h(m, fam, ord, h, usize::MAX, &mut rr);
                                    disarm();
                                    let n = res?;
                                    ledger(0, "everything dropped")?;
                                    Ok(n + 1)
                                },
                            )?;
                            cx.count("panics_caught_between_steps", 1);
                        }
                    }
                }
            }
            // operations and pipelines
            for own in OWNS {
                let h = m.height();
                let mut jobs: Vec<(Vec<Op>, Option<Direct>, Term)> = vec![
                    (vec![Op::Map(r.next())], Some(Direct::Map), Term::Collect),
                    (vec![Op::MapPath(r.next())], Some(Direct::MapPath), Term::Collect),
                    (vec![Op::Prune { salt: r.next(), den: 3, root: false }], Some(Direct::Prune), Term::Collect),
                    (vec![Op::PrunePath { salt: r.next(), den: 3, root: false }], Some(Direct::PrunePath), Term::Collect),
                    (vec![Op::Depth(0)], Some(Direct::Fold), Term::Collect),
                    (vec![Op::Depth(0)], Some(Direct::FoldPath), Term::Collect),
                ];
                jobs.push(match r.below(4) {
                    0 => (vec![Op::Map(r.next())], Some(Direct::MapAs(Form::Big)), Term::Collect),
                    1 => (vec![Op::MapPath(r.next())], Some(Direct::MapPathAs(Form::Big)), Term::Collect),
                    2 => (vec![Op::Depth(0)], Some(Direct::FoldAs(Form::Big)), Term::Collect),
                    _ => (vec![Op::Depth(0)], Some(Direct::FoldPathAs(Form::Big)), Term::Collect),
                });
                for _ in 0..4 {
                    let len = r.below(4);
                    let ops = (0..len).map(|_| random_op(r, h)).collect();
                    let t = match r.below(6) {
                        0 => Term::Collect,
                        1 => Term::Fold,
                        2 => Term::FoldPath,
                        3 => Term::Then(r.range(0, n), Adapt::any(r)),
                        4 => Term::Catch,
                        _ => Term::Iter(r.range(0, n)),
                    };
                    jobs.push((ops, None, t));
                }
                for (ops, d, t) in jobs {
                    let job = match d {
                        Some(d) => Job::Direct(ops[0], d),
                        None => Job::Pipe(&ops, t),
                    };
                    let mask = if spy && r.chance(1, 2) { AT_CLOSURE | AT_OPEN | AT_POLL } else { AT_CLOSURE };
                    let mut pts = 0;
                    let mut rr = Rng::new(r.next(), "f", 0);
                    cx.eval(
                        key(&[sk, fi as u64, own as u64, skey(&format!("{job:?}")), mask as u64, 4]),
                        nt,
                        || format!("{fam} {own:?} {job:?}, panics injected (kinds {mask}), on {}", m.show()),
                        || {
                            if t == Term::Catch {
                                // the pipeline catches it itself
                                let mut seen = 0;
                                for _ in 0..6 {
                                    reset();
                                    arm(mask, rr.next() % (2 * n as u64 + 2), rr.next() % (3 * n as u64 + 2));
                                    job_run(m, fam, own, job)?;
                                    seen += 1;
                                }
                                pts = seen;
                                return Ok(seen);
                            }
                            with_faults(mask, &mut rr, most, &mut pts, || job_run(m, fam, own, job))
                        },
                    )?;
                    cx.count("panics_injected", pts);
                }
            }
            // a subtree moved out by path
            let paths: Vec<Vec<usize>> = (0..if n > 500 { 2 } else { n.min(8) })
                .map(|_| m.nodes[r.below(n)].path.clone())
                .chain([vec![9, 9], vec![0; m.height() + 1]])
                .collect();
            for p in paths {
                cx.eval(
                    key(&[sk, fi as u64, key(&p.iter().map(|x| *x as u64).collect::<Vec<_>>()), 5]),
                    nt,
                    || format!("{fam} owned at_path({p:?}) on {}", m.show()),
                    || {
                        macro_rules! go {
                            ($t:ty, $tr:ident) => {{
                                let got = $tr::at_path(<$t as Build>::build(m), &p);
                                let want = got.as_ref().map_or(0, |g| g.dump().len());
                                ledger(want as u64, "the subtree kept")?;
                                drop(got);
                                ledger(0, "everything dropped")?;
                                Ok(want as u64 + 1)
                            }};
                        }
                        match *fam {
                            "Tree" => go!(Tree<Tok>, OwnedTreeNode),
                            "ListNode" => go!(ListNode, OwnedTreeNode),
                            "VecRefNode" => go!(VecRefNode, OwnedTreeNode),
                            "SpyNode" => go!(SpyNode, OwnedTreeNode),
                            "BinaryTree" => go!(BinaryTree<Tok>, OwnedBinaryTreeNode),
                            _ => go!(SpyBin, OwnedBinaryTreeNode),
                        }
                    },
                )?;
            }
        }
        Ok(())
    }
    fn list(&self, bin: bool, ms: &[Model], r: &mut Rng, cx: &mut Ctx) -> R {
        let total: usize = ms.iter().map(|m| m.len()).sum();
        let lk = lists_key(ms);
        let nt = ms.len() > 1;
        let most = if total > 500 { 4 } else { 10 };
        let hmax = ms.iter().map(|m| m.height()).max().unwrap_or(0);
        for (fi, fam) in cfams(bin).iter().enumerate() {
            let spy = fam.starts_with("Spy");
            for &ord in orders(bin) {
                let coll = *r.pick(colls(bin, Own::Owned));
                for stop in self.stops(total.max(1), r) {
                    for h in [H::Plain, H::Ctx] {
                        if total > 500 && (h == H::Plain || r.chance(3, 4)) {
                            continue;
                        }
                        let mut rr = Rng::new(r.next(), "h", 0);
                        cx.eval(
                            key(&[lk, fi as u64, ord as u64, skey(&format!("{h:?}{coll:?}")), stop as u64]),
                            nt,
                            || format!("{fam} owned {coll:?} {ord:?} {h:?} stop={stop}, values kept, on {}", show(ms)),
                            || run_hc(ms, fam, coll, ord, h, stop, &mut rr),
                        )?;
                    }
                }
            }
            for own in OWNS {
                for j in 0..8 {
                    let (op, t) = match j {
                        0 => (Op::Map(r.next()), CTerm::Trees(r.range(0, ms.len() + 1))),
                        1 => (Op::MapPath(r.next()), CTerm::Trees(r.range(0, ms.len() + 1))),
                        2 => (Op::Prune { salt: r.next(), den: 2, root: true }, CTerm::Trees(r.range(0, ms.len() + 1))),
                        3 => (Op::PrunePath { salt: r.next(), den: 3, root: true }, CTerm::Trees(usize::MAX)),
                        4 => (Op::Depth(r.range(0, hmax)), CTerm::Trees(r.range(0, ms.len() + 1))),
                        5 => (Op::Depth(0), CTerm::Fold(r.range(0, ms.len() + 1))),
                        6 => (Op::Depth(0), CTerm::FoldPath(r.range(0, ms.len() + 1))),
                        _ => (Op::Depth(0), CTerm::Iter(r.range(0, total + 1))),
                    };
                    let len = r.below(4);
                    let ops: Vec<Op> = (0..len).map(|_| random_list_op(r, hmax)).collect();
                    let large = matches!(j, 0 | 1 | 5 | 6) && r.chance(1, 3);
                    let job = if j == 7 { CJob::Pipe(&ops, t) } else if large { CJob::EachAs(op, t, Form::Big) } else { CJob::Each(op, t) };
                    let coll = *r.pick(colls(bin, Own::Owned));
                    let mask = if spy && r.chance(1, 2) { AT_CLOSURE | AT_OPEN | AT_POLL } else { AT_CLOSURE };
                    let mut pts = 0;
                    let mut rr = Rng::new(r.next(), "f", 0);
                    cx.eval(
                        key(&[lk, fi as u64, own as u64, skey(&format!("{job:?}{coll:?}")), mask as u64, 6]),
                        nt,
                        || format!("{fam} {own:?} {coll:?} {job:?}, panics injected (kinds {mask}), on {}", show(ms)),
                        || with_faults(mask, &mut rr, most, &mut pts, || cjob_run(ms, fam, own, coll, job)),
                    )?;
                    cx.count("panics_injected", pts);
                }
            }
        }
        Ok(())
    }
}
impl Prop for Ownership {
    fn cases(&self) -> u64 {
        self.src.cases() + self.lists.cases()
    }
    fn rule(&self) -> String {
        format!("trees: {}; collections: {}; every order and conversion stopped at every point (sampled above 6 nodes), with the values handed out kept, moved out of ancestor stacks and contexts (children collections too) or dropped; a panic injected at every call (sampled above 14) of every closure, and of the node type's own callbacks for the instrumented families, in traversals, map/prune/fold, pipelines and bulk collection operations, unwinding or caught between steps; after each execution the ledger must show each value dropped exactly once, or still held; also with zero-sized and with large, strictly aligned values, and with large owning results of closures; distinct by (shape, route, stop or fault parameters); non-trivial: at least 2 nodes (2 trees)", self.src.text(), self.lists.text())
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        if i < self.src.cases() {
            let (m, mut r) = self.src.get("P16", seed, i);
            if (m.len() > 5000 || m.len() * m.height() as usize > 4_000_000) && self.quick {
                return Ok(());
            }
            cx.peak("largest_tree", m.len() as u64);
            if m.len() <= 1200 {
                crate::p_odd::odd(&m, &mut r, cx)?;
            }
            self.tree(&m, &mut r, i, cx)
        } else {
            let (bin, ms, mut r) = self.lists.get("P16l", seed, i - self.src.cases());
            if ms.len() > 5000 {
                return Ok(());
            }
            self.list(bin, &ms, &mut r, cx)
        }
    }
}
