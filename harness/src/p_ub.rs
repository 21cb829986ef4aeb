//! P17: every workload of the other monitors, run where memory is watched (AddressSanitizer, miri,
//! and the value ledger), plus workloads which keep what an iterator handed out longer than it.
use crate::engine::*;
use crate::lists::*;
use crate::model::*;
use crate::nodes::*;
use crate::rng::Rng;
use crate::tok::*;
use crate::traverse::*;
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

/// everything handed out is kept, and read once the iterator is gone
macro_rules! keep_plain {
    ($it:expr, $k:expr) => {{
        let mut it = $it;
        let pre: Vec<_> = it.by_ref().take($k).collect();
        let rest: Vec<_> = it.leaves().collect();
        let sum = pre.iter().chain(&rest).fold(0u64, |s, v| s.wrapping_add(v.id()));
        std::hint::black_box(sum);
        (pre.len() + rest.len()) as u64
    }};
}
macro_rules! keep_stacks {
    ($it:expr, $k:expr) => {{
        let mut it = $it.attach_ancestors();
        let mut kept = vec![];
        for _ in 0..$k {
            match it.next() {
                Some(s) => kept.push(s.to_vec()),
                None => break,
            }
        }
        let mut it = it.leaves();
        while let Some(s) = it.next() {
            kept.push(s.to_vec());
        }
        drop(it);
        let sum = kept.iter().flatten().fold(0u64, |s, v| s.wrapping_add(v.id()));
        std::hint::black_box(sum);
        kept.len() as u64
    }};
}
macro_rules! keep_ctx {
    ($it:expr, $k:expr) => {{
        let mut it = $it.attach_context();
        let mut kept = vec![];
        while kept.len() < $k {
            match it.next() {
                Some(c) => kept.push(c.clone()),
                None => break,
            }
        }
        drop(it);
        let mut sum = 0u64;
        for c in &kept {
            for a in c.ancestors() {
                sum = sum.wrapping_add(a.id());
            }
            for k in c.children().kid_ids().unwrap_or_default() {
                sum = sum.wrapping_add(k.unwrap_or(0));
            }
            sum = sum.wrapping_add(c.path().len() as u64 + c.depth() as u64);
        }
        std::hint::black_box(sum);
        kept.len() as u64
    }};
}
macro_rules! keep_any {
    ($it:expr, $what:expr, $k:expr) => {
        match $what {
            0 => keep_plain!($it, $k),
            1 => keep_stacks!($it, $k),
            _ => keep_ctx!($it, $k),
        }
    };
}
fn keep_gen<'a, N>(n: &'a N, ord: Order, what: usize, k: usize) -> u64
where
    N: BorrowedTreeNode<'a>,
    N::BorrowedValue: Ident + Clone,
    N::BorrowedChildren: Kids + Clone,
{
    match ord {
        Order::Bfs => keep_any!(n.bfs_iter(), what, k),
        Order::Pre => keep_any!(n.dfs_preorder_iter(), what, k),
        _ => keep_any!(n.dfs_postorder_iter(), what, k),
    }
}
fn keep_bin<'a, N: NodeId>(n: &'a N, ord: Order, what: usize, k: usize) -> u64
where
    N: BorrowedBinaryTreeNode<'a>,
    N::BorrowedValue: Ident + Clone,
{
    match ord {
        Order::Bfs => keep_any!(n.bfs_iter(), what, k),
        Order::Pre => keep_any!(n.dfs_preorder_iter(), what, k),
        Order::In => keep_any!(n.dfs_inorder_iter(), what, k),
        Order::Post => keep_any!(n.dfs_postorder_iter(), what, k),
    }
}

fn keep_one(m: &Model, ord: Order, fam: Fam, what: usize, k: usize, cx: &mut Ctx) -> R {
    let fam = if fam == "SpyNode" { "Tree" } else { fam };
    cx.eval(
        key(&[m.shape_key(), skey(fam), ord as u64, what as u64, k as u64, 77]),
        m.len() > 1,
        || format!("{fam} Ref {ord:?} route {what} k={k}, everything kept beyond the iterator, on {}", m.show()),
        || {
            Ok(match fam {
                "Tree" => keep_gen(&Tree::<Tok>::build(m), ord, what, k),
                "ListNode" => keep_gen(&ListNode::build(m), ord, what, k),
                "VecRefNode" => keep_gen(&VecRefNode::build(m), ord, what, k),
                "BinaryTree" => keep_bin(&BinaryTree::<Tok>::build(m), ord, what, k),
                _ => keep_bin(&SpyBin::build(m), ord, what, k),
            } + 1)
        },
    )
}

/// Asks consumed contexts for the children they do not have: a panic (or anything else that is defined) is fine.
fn ask_unavailable<V, C: Kids, S: StreamingIteratorMut<Item = TreeContext<V, C>>>(mut it: S, stop: usize) -> u64 {
    let mut asked = 0;
    while asked < stop as u64 {
        it.advance();
        let Some(c) = it.get() else { break };
        let a = guarded(|| c.children().kid_ids());
        let Some(c) = it.get_mut() else { break };
        let b = guarded(|| c.children_mut().kid_ids());
        std::hint::black_box((a.ok(), b.ok()));
        asked += 1;
    }
    asked
}
fn unavailable_one(m: &Model, ord: Order, fam: Fam, stop: usize, cx: &mut Ctx) -> R {
    fn g<N: OwnedTreeNode>(n: N, stop: usize) -> u64
    where
        N::OwnedChildren: Kids,
    {
        ask_unavailable(n.dfs_postorder().attach_context(), stop)
    }
    fn b<N: OwnedBinaryTreeNode + NodeId>(n: N, ord: Order, stop: usize) -> u64 {
        match ord {
            Order::In => ask_unavailable(n.dfs_inorder().attach_context(), stop),
            _ => ask_unavailable(n.dfs_postorder().attach_context(), stop),
        }
    }
    cx.eval(
        key(&[m.shape_key(), skey(fam), ord as u64, stop as u64, 78]),
        m.len() > 1,
        || format!("{fam} Owned {ord:?} children asked of consumed contexts, {stop} steps, on {}", m.show()),
        || {
            Ok(match fam {
                "Tree" => g(Tree::<Tok>::build(m), stop),
                "ListNode" => g(ListNode::build(m), stop),
                "VecRefNode" => g(VecRefNode::build(m), stop),
                "SpyNode" => g(SpyNode::build(m), stop),
                "BinaryTree" => b(BinaryTree::<Tok>::build(m), ord, stop),
                _ => b(SpyBin::build(m), ord, stop),
            } + 1)
        },
    )
}

struct Keep {
    src: Src,
}
impl Prop for Keep {
    fn cases(&self) -> u64 {
        self.src.cases()
    }
    fn rule(&self) -> String {
        "kept".into()
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        let (m, mut r) = self.src.get("P17k", seed, i);
        for &ord in orders(m.binary) {
            for fam in fams(m.binary) {
                if matches!(ord, Order::In | Order::Post) {
                    unavailable_one(&m, ord, fam, r.range(1, m.len() + 1), cx)?;
                }
                if *fam == "SpyNode" {
                    continue;
                }
                for what in 0..3 {
                    let k = if what < 2 { r.range(0, m.len() + 1) } else { m.len() + 1 };
                    keep_one(&m, ord, fam, what, k, cx)?;
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------- lean executions for miri

/// a random tree with a node budget, built without a model
trait Lean: Sized {
    const BIN: bool;
    fn lean(budget: &mut usize, r: &mut Rng) -> Self;
}
fn lean_kids<N: Lean>(budget: &mut usize, r: &mut Rng) -> Vec<N> {
    let mut v = vec![];
    while *budget > 0 && r.chance(2, 3) {
        *budget -= 1;
        v.push(N::lean(budget, r));
    }
    v
}
fn lean_slot<N: Lean>(budget: &mut usize, r: &mut Rng) -> Option<Box<N>> {
    if *budget == 0 || r.chance(1, 3) {
        return None;
    }
    *budget -= 1;
    Some(Box::new(N::lean(budget, r)))
}
macro_rules! lean {
    ($t:ty, $bin:expr, |$b:ident, $r:ident| $e:expr) => {
        impl Lean for $t {
            const BIN: bool = $bin;
            fn lean($b: &mut usize, $r: &mut Rng) -> Self {
                $e
            }
        }
    };
}
lean!(Tree<Tok>, false, |b, r| Tree { value: Tok::new(r.next() % 100), children: lean_kids(b, r) });
lean!(ListNode, false, |b, r| ListNode { v: Tok::new(1), kids: lean_kids(b, r).into_iter().collect() });
lean!(VecRefNode, false, |b, r| VecRefNode { v: Tok::new(2), kids: lean_kids(b, r).into() });
lean!(BinaryTree<Tok>, true, |b, r| BinaryTree { value: Tok::new(3), left: lean_slot(b, r), right: lean_slot(b, r) });
lean!(SpyBin, true, |b, r| SpyBin { v: Tok::new(4), kids: [lean_slot(b, r), lean_slot(b, r)] });

use crate::p_mut::{Poke, ValMut};

fn lean_ctx_mut<V: ValMut, C: Poke, S: StreamingIteratorMut<Item = TreeContext<V, C>>>(mut it: S, stop: usize, avail: bool, r: &mut Rng) -> u64 {
    let mut n = 0;
    while n < stop as u64 {
        let Some(c) = it.next_mut() else { break };
        n += 1;
        let order = r.below(3);
        if order != 1 {
            for a in c.ancestors_mut() {
                let id = a.id();
                a.put(id + 1, id % 5 == 0);
            }
        }
        if avail && order != 2 {
            let _ = c.children_mut().poke(&mut |_, s| {
                s.walk(&mut |v| {
                    let id = v.id();
                    v.put(id + 1, id % 7 == 0);
                    Ok(())
                })
            });
            // the exposed values again, after the children
            let id = c.ancestors().iter().map(|a| a.id()).max().unwrap_or(0);
            if let Some(l) = c.ancestors_mut().last_mut() {
                l.put(id + 1, false);
            }
        }
    }
    n
}
fn lean_ctx_ref<V: Ident + Clone, C: Kids + Clone, S: StreamingIterator<Item = TreeContext<V, C>>>(mut it: S, stop: usize) -> u64 {
    let mut kept: Vec<TreeContext<V, C>> = vec![];
    while kept.len() < stop {
        match it.next() {
            Some(c) => kept.push(c.clone()),
            None => break,
        }
    }
    drop(it);
    kept.iter().map(|c| c.ancestors().iter().map(|a| a.id()).sum::<u64>() + c.children().kid_ids().map_or(0, |k| k.iter().flatten().sum())).fold(1, u64::wrapping_add)
}
fn lean_stack_mut<V: ValMut, S: StreamingIteratorMut<Item = [V]>>(it: &mut S, stop: usize) -> u64 {
    let mut n = 0;
    while n < stop as u64 {
        it.advance();
        let Some(st) = it.get_mut() else { break };
        n += 1;
        for a in st {
            let id = a.id();
            a.put(id + 1, id % 4 == 0);
        }
    }
    n
}
fn lean_plain<I: Iterator>(it: I, stop: usize) -> u64
where
    I::Item: Ident,
{
    let kept: Vec<I::Item> = it.take(stop).collect();
    kept.iter().map(|v| v.id()).fold(1, u64::wrapping_add)
}
macro_rules! lean_leaves {
    ($it:expr, $stop:expr) => {{
        let mut it = $it;
        let pre: Vec<_> = it.by_ref().take($stop).collect();
        let rest: Vec<_> = it.leaves().collect();
        pre.iter().chain(&rest).map(|v| v.id()).fold(1, u64::wrapping_add)
    }};
}
macro_rules! lean_modes_mut {
    ($it:expr, $mode:expr, $stop:expr, $avail:expr, $r:expr) => {
        match $mode {
            0..=3 => lean_ctx_mut($it.attach_context(), $stop, $avail, $r),
            4 => lean_leaves!($it, $stop),
            5 => {
                let mut it = $it.attach_ancestors();
                let n = lean_stack_mut(&mut it, $stop);
                let mut it = it.leaves();
                n + lean_stack_mut(&mut it, usize::MAX)
            }
            _ => lean_plain($it, $stop),
        }
    };
}
macro_rules! lean_modes_ref {
    ($it:expr, $mode:expr, $stop:expr) => {
        match $mode {
            0..=3 => lean_ctx_ref($it.attach_context(), $stop),
            4 => lean_leaves!($it, $stop),
            5 => keep_stacks!($it, $stop),
            _ => lean_plain($it, $stop),
        }
    };
}
fn lean_gen<N>(r: &mut Rng, own: Own, ord: Order, mode: usize, stop: usize, nodes: usize) -> u64
where
    N: Lean + OwnedTreeNode<OwnedValue = Tok> + for<'a> MutBorrowedTreeNode<'a> + for<'a> BorrowedTreeNode<'a>,
    N::OwnedChildren: Poke,
    for<'a> <N as MutBorrowedTreeNode<'a>>::MutBorrowedValue: ValMut,
    for<'a> <N as MutBorrowedTreeNode<'a>>::MutBorrowedChildren: Poke,
    for<'a> <N as BorrowedTreeNode<'a>>::BorrowedValue: Ident + Clone,
    for<'a> <N as BorrowedTreeNode<'a>>::BorrowedChildren: Kids + Clone,
{
    let mut n = N::lean(&mut (nodes - 1), r);
    match (own, ord) {
        (Own::Owned, Order::Bfs) => lean_modes_mut!(n.bfs(), mode, stop, true, r),
        (Own::Owned, Order::Pre) => lean_modes_mut!(n.dfs_preorder(), mode, stop, true, r),
        (Own::Owned, _) => lean_modes_mut!(n.dfs_postorder(), mode, stop, false, r),
        (Own::Mut, Order::Bfs) => lean_modes_mut!(n.bfs_iter_mut(), mode, stop, true, r),
        (Own::Mut, Order::Pre) => lean_modes_mut!(n.dfs_preorder_iter_mut(), mode, stop, true, r),
        (Own::Mut, _) => lean_modes_mut!(n.dfs_postorder_iter_mut(), mode, stop, true, r),
        (Own::Ref, Order::Bfs) => lean_modes_ref!(n.bfs_iter(), mode, stop),
        (Own::Ref, Order::Pre) => lean_modes_ref!(n.dfs_preorder_iter(), mode, stop),
        (Own::Ref, _) => lean_modes_ref!(n.dfs_postorder_iter(), mode, stop),
    }
}
fn lean_bin<N>(r: &mut Rng, own: Own, ord: Order, mode: usize, stop: usize, nodes: usize) -> u64
where
    N: NodeId + crate::p_mut::Sub + Lean + OwnedBinaryTreeNode<OwnedValue = Tok> + for<'a> MutBorrowedBinaryTreeNode<'a> + for<'a> BorrowedBinaryTreeNode<'a>,
    for<'a> <N as MutBorrowedBinaryTreeNode<'a>>::MutBorrowedValue: ValMut,
    for<'a> <N as BorrowedBinaryTreeNode<'a>>::BorrowedValue: Ident + Clone,
{
    let mut n = N::lean(&mut (nodes - 1), r);
    match (own, ord) {
        (Own::Owned, Order::Bfs) => lean_modes_mut!(n.bfs(), mode, stop, true, r),
        (Own::Owned, Order::Pre) => lean_modes_mut!(n.dfs_preorder(), mode, stop, true, r),
        (Own::Owned, Order::In) => lean_modes_mut!(n.dfs_inorder(), mode, stop, false, r),
        (Own::Owned, Order::Post) => lean_modes_mut!(n.dfs_postorder(), mode, stop, false, r),
        (Own::Mut, Order::Bfs) => lean_modes_mut!(n.bfs_iter_mut(), mode, stop, true, r),
        (Own::Mut, Order::Pre) => lean_modes_mut!(n.dfs_preorder_iter_mut(), mode, stop, true, r),
        (Own::Mut, Order::In) => lean_modes_mut!(n.dfs_inorder_iter_mut(), mode, stop, true, r),
        (Own::Mut, Order::Post) => lean_modes_mut!(n.dfs_postorder_iter_mut(), mode, stop, true, r),
        (Own::Ref, Order::Bfs) => lean_modes_ref!(n.bfs_iter(), mode, stop),
        (Own::Ref, Order::Pre) => lean_modes_ref!(n.dfs_preorder_iter(), mode, stop),
        (Own::Ref, Order::In) => lean_modes_ref!(n.dfs_inorder_iter(), mode, stop),
        (Own::Ref, Order::Post) => lean_modes_ref!(n.dfs_postorder_iter(), mode, stop),
    }
}
fn lean_coll_gen<N>(r: &mut Rng, own: Own, ord: Order, ctx: bool, stop: usize, nodes: usize) -> u64
where
    N: Lean + OwnedTreeNode<OwnedValue = Tok> + for<'a> MutBorrowedTreeNode<'a> + for<'a> BorrowedTreeNode<'a>,
    N::OwnedChildren: Poke,
    for<'a> <N as MutBorrowedTreeNode<'a>>::MutBorrowedValue: ValMut,
    for<'a> <N as MutBorrowedTreeNode<'a>>::MutBorrowedChildren: Poke,
    for<'a> <N as BorrowedTreeNode<'a>>::BorrowedValue: Ident + Clone,
    for<'a> <N as BorrowedTreeNode<'a>>::BorrowedChildren: Kids + Clone,
{
    let mut v: Vec<N> = (0..1 + r.below(3)).map(|_| N::lean(&mut (nodes / 2), r)).collect();
    macro_rules! m {
        ($it:expr, $avail:expr) => {
            if ctx {
                lean_ctx_mut($it.attach_context(), stop, $avail, r)
            } else {
                lean_plain($it, stop)
            }
        };
    }
    macro_rules! f {
        ($it:expr) => {
            if ctx {
                lean_ctx_ref($it.attach_context(), stop)
            } else {
                lean_plain($it, stop)
            }
        };
    }
    match (own, ord) {
        (Own::Owned, Order::Bfs) => m!(v.bfs_each(), true),
        (Own::Owned, Order::Pre) => m!(v.dfs_preorder_each(), true),
        (Own::Owned, _) => m!(v.dfs_postorder_each(), false),
        (Own::Mut, Order::Bfs) => m!(v.bfs_each_iter_mut(), true),
        (Own::Mut, Order::Pre) => m!(v.dfs_preorder_each_iter_mut(), true),
        (Own::Mut, _) => m!(v.dfs_postorder_each_iter_mut(), true),
        (Own::Ref, Order::Bfs) => f!(v.bfs_each_iter()),
        (Own::Ref, Order::Pre) => f!(v.dfs_preorder_each_iter()),
        (Own::Ref, _) => f!(v.dfs_postorder_each_iter()),
    }
}
fn lean_coll_bin<N>(r: &mut Rng, own: Own, ord: Order, ctx: bool, stop: usize, nodes: usize) -> u64
where
    N: NodeId + crate::p_mut::Sub + Lean + OwnedBinaryTreeNode<OwnedValue = Tok> + for<'a> MutBorrowedBinaryTreeNode<'a> + for<'a> BorrowedBinaryTreeNode<'a>,
    for<'a> <N as MutBorrowedBinaryTreeNode<'a>>::MutBorrowedValue: ValMut,
    for<'a> <N as BorrowedBinaryTreeNode<'a>>::BorrowedValue: Ident + Clone,
{
    let mut v: Vec<N> = (0..1 + r.below(3)).map(|_| N::lean(&mut (nodes / 2), r)).collect();
    macro_rules! m {
        ($it:expr, $avail:expr) => {
            if ctx {
                lean_ctx_mut($it.attach_context(), stop, $avail, r)
            } else {
                lean_plain($it, stop)
            }
        };
    }
    macro_rules! f {
        ($it:expr) => {
            if ctx {
                lean_ctx_ref($it.attach_context(), stop)
            } else {
                lean_plain($it, stop)
            }
        };
    }
    match (own, ord) {
        (Own::Owned, Order::Bfs) => m!(v.bfs_each(), true),
        (Own::Owned, Order::Pre) => m!(v.dfs_preorder_each(), true),
        (Own::Owned, Order::In) => m!(v.dfs_inorder_each(), false),
        (Own::Owned, Order::Post) => m!(v.dfs_postorder_each(), false),
        (Own::Mut, Order::Bfs) => m!(v.bfs_each_iter_mut(), true),
        (Own::Mut, Order::Pre) => m!(v.dfs_preorder_each_iter_mut(), true),
        (Own::Mut, Order::In) => m!(v.dfs_inorder_each_iter_mut(), true),
        (Own::Mut, Order::Post) => m!(v.dfs_postorder_each_iter_mut(), true),
        (Own::Ref, Order::Bfs) => f!(v.bfs_each_iter()),
        (Own::Ref, Order::Pre) => f!(v.dfs_preorder_each_iter()),
        (Own::Ref, Order::In) => f!(v.dfs_inorder_each_iter()),
        (Own::Ref, Order::Post) => f!(v.dfs_postorder_each_iter()),
    }
}
fn lean_one(r: &mut Rng, nodes: usize, cx: &mut Ctx) -> R {
    let fam = r.below(5);
    let bin = fam >= 3;
    let own = *r.pick(&OWNS);
    let ord = *r.pick(orders(bin));
    let mode = r.below(8);
    let coll = r.chance(1, 4);
    let stop = if r.chance(1, 3) { r.below(nodes) } else { usize::MAX };
    let salt = r.next();
    cx.eval(
        salt,
        nodes > 1,
        || format!("lean execution: node family {fam}, {own:?} {ord:?} mode {mode} collection {coll} stop={stop}, at most {nodes} nodes, salt {salt}"),
        || {
            let r = &mut Rng::new(salt, "lean", 0);
            Ok(1 + match (fam, coll) {
                (0, false) => lean_gen::<Tree<Tok>>(r, own, ord, mode, stop, nodes),
                (1, false) => lean_gen::<ListNode>(r, own, ord, mode, stop, nodes),
                (2, false) => lean_gen::<VecRefNode>(r, own, ord, mode, stop, nodes),
                (3, false) => lean_bin::<BinaryTree<Tok>>(r, own, ord, mode, stop, nodes),
                (_, false) => lean_bin::<SpyBin>(r, own, ord, mode, stop, nodes),
                (0, true) => lean_coll_gen::<Tree<Tok>>(r, own, ord, mode < 5, stop, nodes),
                (1, true) => lean_coll_gen::<ListNode>(r, own, ord, mode < 5, stop, nodes),
                (2, true) => lean_coll_gen::<VecRefNode>(r, own, ord, mode < 5, stop, nodes),
                (3, true) => lean_coll_bin::<BinaryTree<Tok>>(r, own, ord, mode < 5, stop, nodes),
                (_, true) => lean_coll_bin::<SpyBin>(r, own, ord, mode < 5, stop, nodes),
            } % 64)
        },
    )
}

/// One execution at a time, straight from a case number: for miri, where every step is expensive.
pub struct Micro {
    cases: u64,
    max: usize,
    per_case: usize,
    lean: usize,
}
impl Micro {
    fn one(&self, m: &Model, ms: &[Model], pool: &[Model], kind: usize, r: &mut Rng, cx: &mut Ctx) -> R {
        let n = m.len();
        let bin = m.binary;
        let fam = *r.pick(fams(bin));
        let cfam = *r.pick(crate::p_cpipe::cfams(bin));
        let ord = *r.pick(orders(bin));
        let own = *r.pick(&OWNS);
        let (k, stop) = (r.range(0, n + 1), if r.chance(1, 3) { r.range(0, n) } else { usize::MAX });
        let h = m.height();
        let nt = n > 1;
        let sk = m.shape_key();
        let kk = |x: &str| key(&[sk, kind as u64, skey(fam), ord as u64, own as u64, k as u64, stop as u64, skey(x)]);
        let mut rr = Rng::new(r.next(), "micro", 0);
        match kind {
            // contexts are where the library aliases: half of the plain runs
            0 | 1 => {
                let mode = match if kind == 1 { 3 } else { r.below(6) } {
                    0 => Mode::Plain,
                    1 => Mode::Anc,
                    2 => Mode::Leaves(k),
                    3 => Mode::Ctx,
                    4 => Mode::AncLeaves(k),
                    _ => Mode::LateCtx(k),
                };
                cx.eval(kk(&format!("{mode:?}")), nt, || format!("{fam} {own:?} {ord:?} {mode:?} stop={stop} on {}", m.show()), || {
                    let o = run(m, fam, own, ord, mode, stop, false);
                    Ok((o.prefix.len() + o.evs.len()) as u64 + 1)
                })
            }
            2 | 3 => {
                use crate::p_mut::*;
                let mode = match if kind == 3 { 0 } else { r.below(6) } {
                    0 => W::Ctx,
                    1 => W::Plain,
                    2 => W::Hoard,
                    3 => W::Leaves(k),
                    4 => W::Anc,
                    _ => W::AncLeaves(k),
                };
                let ms = [m.clone()];
                cx.eval(kk(&format!("w{mode:?}")), nt, || format!("writes through {fam} mut {ord:?} {mode:?} on {}", m.show()), || {
                    let mut w = Writer::new(&ms, rr);
                    write_run(m, fam, Own::Mut, ord, mode, &mut w)?;
                    Ok(w.writes + w.reads)
                })
            }
            4 => {
                use crate::p_mut::*;
                let mode = *r.pick(&[W::Ctx, W::Hoard]);
                let coll = *r.pick(colls(bin, Own::Mut));
                cx.eval(kk(&format!("wc{mode:?}{coll:?}")), nt, || format!("writes through {fam} collection {coll:?} {ord:?} {mode:?} on {}", show(ms)), || {
                    let mut w = Writer::new(ms, rr);
                    write_list(ms, fam, coll, ord, mode, &mut w)?;
                    Ok(w.writes + w.reads)
                })
            }
            5 => {
                use crate::p_mut::*;
                let ord = *r.pick(&[Order::Bfs, Order::Pre]);
                let own = *r.pick(&[Own::Owned, Own::Mut]);
                let coll = r.chance(1, 3);
                let one = [m.clone()];
                let ms = if coll { ms } else { &one };
                let plan = Plan { ms, pool, ord, own, coll, stop };
                cx.eval(kk(&format!("e{coll}")), nt, || format!("editing {fam} {own:?} {ord:?} collection {coll} on {}", show(ms)), || {
                    let mut t = Tally::default();
                    edit_run(&plan, fam, &mut rr, &mut t)?;
                    Ok(t.steps + t.edits)
                })
            }
            6 => {
                let mode = *r.pick(&[Mode::Plain, Mode::Ctx, Mode::Ctx]);
                let coll = *r.pick(colls(bin, own));
                cx.eval(kk(&format!("c{mode:?}{coll:?}")), nt, || format!("{fam} {own:?} {coll:?} {ord:?} {mode:?} stop={stop} on {}", show(ms)), || {
                    let o = crate::p_coll::run_list(ms, fam, own, coll, ord, mode, stop);
                    Ok(o.evs.len() as u64 + 1)
                })
            }
            7 => {
                use crate::p_pipe::*;
                use crate::stages::*;
                let len = r.below(4);
                let ops: Vec<Op> = (0..len).map(|_| random_op(r, h)).collect();
                let d = *r.pick(&[Direct::Map, Direct::MapPath, Direct::Prune, Direct::PrunePath, Direct::PruneDepth, Direct::Fold, Direct::FoldPath]);
                let t = *r.pick(&[Term::Collect, Term::Fold, Term::FoldPath, Term::Iter(k), Term::Iter(usize::MAX)]);
                let job = if r.chance(1, 3) {
                    let op = match d {
                        Direct::Map => Op::Map(1),
                        Direct::MapPath => Op::MapPath(1),
                        Direct::Prune => Op::Prune { salt: r.next(), den: 3, root: false },
                        Direct::PrunePath => Op::PrunePath { salt: r.next(), den: 3, root: false },
                        _ => Op::Depth(r.range(0, h)),
                    };
                    Job::Direct(op, d)
                } else {
                    Job::Pipe(&ops, t)
                };
                cx.eval(kk(&format!("{job:?}")), nt, || format!("{fam} {own:?} {job:?} on {}", m.show()), || {
                    let s = run_job(m, fam, own, job)?;
                    Ok(s.calls.len() as u64 + 1)
                })
            }
            8 => {
                use crate::p_cpipe::*;
                use crate::stages::*;
                let len = r.below(3);
                let ops: Vec<Op> = (0..len).map(|_| random_list_op(r, h)).collect();
                let t = *r.pick(&[CTerm::Trees(usize::MAX), CTerm::Fold(k), CTerm::FoldPath(usize::MAX), CTerm::Iter(k)]);
                let coll = *r.pick(colls(bin, own));
                let job = CJob::Pipe(&ops, t);
                cx.eval(kk(&format!("{job:?}{coll:?}")), nt, || format!("{cfam} {own:?} {coll:?} {job:?} on {}", show(ms)), || {
                    let s = run_cjob(ms, cfam, own, coll, job)?;
                    Ok(s.calls.len() as u64 + 1)
                })
            }
            9 => {
                use crate::p_own::*;
                let hm = *r.pick(&[H::Plain, H::Leaves(k), H::Anc, H::AncLeaves(k), H::Ctx, H::Catch, H::CatchAnc, H::CatchCtx, H::CatchLeaves(k)]);
                let f = *r.pick(if bin { &["BinaryTree", "SpyBin"] } else { &["Tree", "SpyNode"] });
                let (a, b) = (r.next() % (2 * n as u64 + 2), r.next() % (2 * n as u64 + 2));
                cx.eval(kk(&format!("{hm:?}{f}{a}{b}")), nt, || format!("{f} owned {ord:?} {hm:?} stop={stop}, values kept, panics at {a} {b}, on {}", m.show()), || {
                    if matches!(hm, H::Catch | H::CatchAnc | H::CatchCtx | H::CatchLeaves(_)) {
                        arm(AT_OPEN | AT_POLL, a, b);
                    }
                    let res = run_h(m, f, ord, hm, stop, &mut rr);
                    disarm();
                    Ok(res? + 1)
                })
            }
            10 => {
                use crate::p_own::*;
                let f = if bin { "SpyBin" } else { "SpyNode" };
                let mode = *r.pick(&[Mode::Plain, Mode::Anc, Mode::Ctx, Mode::Leaves(k), Mode::AncLeaves(k)]);
                let at = r.next() % (2 * n as u64 + 2);
                cx.eval(kk(&format!("{mode:?}{at}f")), nt, || format!("{f} {own:?} {ord:?} {mode:?}, a panic at {at}, on {}", m.show()), || {
                    arm(AT_OPEN | AT_POLL, at, u64::MAX);
                    trav(m, f, own, ord, mode, usize::MAX)?;
                    Ok(n as u64)
                })
            }
            11 => {
                let p = if r.chance(3, 4) { m.nodes[r.below(n)].path.clone() } else { vec![r.below(3); h + 1] };
                cx.eval(kk(&format!("{p:?}")), nt, || format!("{fam} {own:?} at_path {p:?} on {}", m.show()), || {
                    crate::p_path::query(m, fam, own, &p)?;
                    Ok(1)
                })
            }
            _ if ord == Order::Post && r.chance(1, 3) => unavailable_one(m, ord, fam, k + 1, cx),
            _ => keep_one(m, ord, fam, r.below(3), k, cx),
        }
    }
}
impl Prop for Micro {
    fn cases(&self) -> u64 {
        self.cases
    }
    fn rule(&self) -> String {
        format!("per case {} executions on a random tree of at most {} nodes (or list of at most 3 trees): traversals, mutable traversals with writes and nested traversals of the exposed children, edits, collections, pipelines, kept values, injected panics, at_path; and {} lean executions (any order, ownership, conversion, stop; contexts most often) on as many random trees; run by miri (Stacked Borrows), memory faults only; non-trivial: at least 2 nodes", self.per_case, self.max, self.lean)
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        let mut r = Rng::new(seed, "P17m", i);
        let bin = r.chance(1, 2);
        let n = r.range(1, self.max);
        let m = sized(&mut r, bin, n).finish(0);
        let mut ms = vec![];
        for k in 0..r.range(1, 3) {
            let n = r.range(1, 3);
            ms.push(sized(&mut r, bin, n).finish(100 * (k as u64 + 1)));
        }
        let pool: Vec<Model> = (0..2)
            .map(|k| {
                let n = r.range(1, 2);
                sized(&mut r, bin, n).finish(1000 * (k + 1))
            })
            .collect();
        cx.peak("largest_tree", n as u64);
        cx.memory = Some(Sampling { den: 1, salt: 0, n: 0, left: u64::MAX });
        for k in 0..self.per_case {
            let kind = (i as usize * self.per_case + k) % 13;
            let before = cx.evals;
            let res = self.one(&m, &ms, &pool, kind, &mut r, cx);
            if res.is_err() {
                cx.memory = None;
                return res;
            }
            let name = ["traversals", "contexts", "mutable_writes", "mutable_contexts", "collection_writes", "edits", "collections", "pipelines", "collection_pipelines", "kept_and_moved", "panics", "at_path", "kept_refs"][kind];
            cx.count(&format!("executions_of_{name}"), cx.evals - before);
        }
        let before = cx.evals;
        for _ in 0..self.lean {
            let nodes = r.range(1, self.max);
            let res = lean_one(&mut r, nodes, cx);
            if res.is_err() {
                cx.memory = None;
                return res;
            }
        }
        cx.count("executions_lean", cx.evals - before);
        cx.memory = None;
        Ok(())
    }
}

pub struct Memory {
    parts: Vec<(&'static str, Box<dyn Prop>)>,
    budget: u64,
    lane: String,
}
pub fn make(quick: bool) -> Box<dyn Prop> {
    if std::env::var("VERIF_LANE").as_deref() == Ok("miri") {
        return Box::new(Micro { cases: if quick { 40_000 } else { 1_000_000 }, max: if quick { 6 } else { 8 }, per_case: 2, lean: 12 });
    }
    Box::new(Memory::new(quick))
}
impl Memory {
    pub fn new(quick: bool) -> Memory {
        let lane = std::env::var("VERIF_LANE").unwrap_or("native".into());
        // (ordered trees up to, binary trees up to, random trees, their size; lists likewise; sampled 1 in)
        let (g, b, n, max, lg, lb, ll, ln, lmax, budget) = match quick {
            true => (5, 5, 8_000, 18, 2, 2, 2, 4_000, 8, 300),
            false => (7, 7, 80_000, 40, 3, 2, 3, 40_000, 12, 600),
        };
        let src = || Src::new(g, b, n, max);
        let lists = || Lists::new(lg, lb, ll, ln, lmax);
        let mut parts: Vec<(&'static str, Box<dyn Prop>)> = vec![("kept", Box::new(Keep { src: src() }))];
        for p in ["P01", "P02", "P03", "P04", "P05", "P06", "P18"] {
            parts.push((p, Box::new(crate::p_trav::Trav::with(p, src()))));
        }
        parts.push(("P07", Box::new(crate::p_coll::Colls::with("P07", lists()))));
        parts.push(("P08", Box::new(crate::p_path::Paths::with(src(), lists()))));
        parts.push(("P09", Box::new(crate::p_mut::Writes::with(src(), lists()))));
        parts.push(("P10", Box::new(crate::p_mut::Edits::with(src(), lists()))));
        for p in ["P11", "P12", "P13", "P14"] {
            parts.push((p, Box::new(crate::p_pipe::Pipes::with(p, src()))));
        }
        parts.push(("P15", Box::new(crate::p_cpipe::CPipes::with(lists()))));
        parts.push(("P16", Box::new(crate::p_own::Ownership::with(src(), lists()))));
        Memory { parts, budget, lane }
    }
}
impl Prop for Memory {
    fn cases(&self) -> u64 {
        self.parts.iter().map(|p| p.1.cases()).max().unwrap() * self.parts.len() as u64
    }
    fn rule(&self) -> String {
        format!(
            "up to {} executions, sampled evenly or from a random stretch, of each case of the other monitors' workloads ({}), run for memory faults only: {}; non-trivial as there (at least 2 nodes or trees)",
            self.budget,
            self.parts.iter().map(|p| p.0).collect::<Vec<_>>().join(" "),
            if self.lane == "asan" { "AddressSanitizer" } else { "value ledger, allocator checks and debug assertions of the standard library's unsafe code" }
        )
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        // spread the workloads evenly over the shards: the shard count divides the stride otherwise
        let k = self.parts.len() as u64;
        let (round, part) = (i / k, (i + i / k) % k);
        let (name, p) = &self.parts[part as usize];
        if round >= p.cases() {
            return Ok(());
        }
        // spread small, large and random trees over the run
        let n = p.cases();
        let mut step = (n as f64 * 0.618) as u64 | 1;
        while gcd(step, n) != 1 {
            step += 2;
        }
        let j = (round * step) % n;
        let salt = key(&[seed, i]);
        let den = [1, 3, 12, 48, 200][(salt >> 33) as usize % 5];
        cx.memory = Some(Sampling { den, salt, n: 0, left: self.budget });
        let before = cx.evals;
        let res = match p.case(seed, j, cx) {
            Err(e) if e == ENOUGH => Ok(()),
            r => r,
        };
        cx.memory = None;
        cx.count(&format!("executions_of_{name}"), cx.evals - before);
        res
    }
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
