//! P07: traversals over collections against the per-tree reference models; also P18's collection part.
use crate::engine::*;
use crate::lists::*;
use crate::model::*;
use crate::nodes::*;
use crate::rng::Rng;
use crate::tok::*;
use crate::traverse::*;
use crate::{with_mut_coll, with_owned_coll, with_ref_bin_coll, with_ref_gen_coll};
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;

macro_rules! cmodes {
    ($w:path, $it:expr, $mode:expr, $stop:expr, $cap:expr, $kids:expr) => {
        match $mode {
            Mode::Plain => drive_iter($it, $stop, $cap),
            Mode::Adapt(a) => drive_adapt($it, a, $cap),
            Mode::Ctx => drive_ctx($w($it.attach_context()), $stop, $cap, $kids),
            Mode::LateCtx(k) => {
                let mut it = $it;
                let mut pre = vec![];
                for _ in 0..k {
                    if let Some(v) = it.next() {
                        pre.push(v.id());
                    }
                }
                let mut o = drive_ctx($w(it.attach_context()), $stop, $cap, $kids);
                o.prefix = pre;
                o
            }
            _ => unreachable!(),
        }
    };
}

fn owned_g<N, C: OwnedIntoIteratorOfTrees<N>>(c: C, ord: Order, mode: Mode, stop: usize, cap: usize) -> Obs
where
    N: OwnedTreeNode,
    N::OwnedValue: Ident,
    N::OwnedChildren: Kids,
{
    match ord {
        Order::Bfs => cmodes!(ViaMut, c.bfs_each(), mode, stop, cap, true),
        Order::Pre => cmodes!(ViaMut, c.dfs_preorder_each(), mode, stop, cap, true),
        _ => cmodes!(ViaMut, c.dfs_postorder_each(), mode, stop, cap, false),
    }
}
fn mut_g<'a, N: 'a, C: MutBorrowedIntoIteratorOfTrees<'a, N>>(c: C, ord: Order, mode: Mode, stop: usize, cap: usize) -> Obs
where
    N: MutBorrowedTreeNode<'a>,
    N::MutBorrowedValue: Ident,
    N::MutBorrowedChildren: Kids,
{
    match ord {
        Order::Bfs => cmodes!(ViaMut, c.bfs_each_iter_mut(), mode, stop, cap, true),
        Order::Pre => cmodes!(ViaMut, c.dfs_preorder_each_iter_mut(), mode, stop, cap, true),
        _ => cmodes!(ViaMut, c.dfs_postorder_each_iter_mut(), mode, stop, cap, true),
    }
}
fn ref_g<'a, N: 'a, C: BorrowedIntoIteratorOfTrees<'a, N>>(c: C, ord: Order, mode: Mode, stop: usize, cap: usize) -> Obs
where
    N: BorrowedTreeNode<'a>,
    N::BorrowedValue: Ident,
    N::BorrowedChildren: Kids,
{
    match ord {
        Order::Bfs => cmodes!(same, c.bfs_each_iter(), mode, stop, cap, true),
        Order::Pre => cmodes!(same, c.dfs_preorder_each_iter(), mode, stop, cap, true),
        _ => cmodes!(same, c.dfs_postorder_each_iter(), mode, stop, cap, true),
    }
}
fn owned_b<N, C: OwnedIntoIteratorOfBinaryTrees<N>>(c: C, ord: Order, mode: Mode, stop: usize, cap: usize) -> Obs
where
    N: OwnedBinaryTreeNode + NodeId,
    N::OwnedValue: Ident,
{
    match ord {
        Order::Bfs => cmodes!(ViaMut, c.bfs_each(), mode, stop, cap, true),
        Order::Pre => cmodes!(ViaMut, c.dfs_preorder_each(), mode, stop, cap, true),
        Order::Post => cmodes!(ViaMut, c.dfs_postorder_each(), mode, stop, cap, false),
        Order::In => cmodes!(ViaMut, c.dfs_inorder_each(), mode, stop, cap, false),
    }
}
fn mut_b<'a, N: 'a, C: MutBorrowedIntoIteratorOfBinaryTrees<'a, N>>(c: C, ord: Order, mode: Mode, stop: usize, cap: usize) -> Obs
where
    N: MutBorrowedBinaryTreeNode<'a> + NodeId,
    N::MutBorrowedValue: Ident,
{
    match ord {
        Order::Bfs => cmodes!(ViaMut, c.bfs_each_iter_mut(), mode, stop, cap, true),
        Order::Pre => cmodes!(ViaMut, c.dfs_preorder_each_iter_mut(), mode, stop, cap, true),
        Order::Post => cmodes!(ViaMut, c.dfs_postorder_each_iter_mut(), mode, stop, cap, true),
        Order::In => cmodes!(ViaMut, c.dfs_inorder_each_iter_mut(), mode, stop, cap, true),
    }
}
fn ref_b<'a, N: 'a, C: BorrowedIntoIteratorOfBinaryTrees<'a, N>>(c: C, ord: Order, mode: Mode, stop: usize, cap: usize) -> Obs
where
    N: BorrowedBinaryTreeNode<'a> + NodeId,
    N::BorrowedValue: Ident,
{
    match ord {
        Order::Bfs => cmodes!(same, c.bfs_each_iter(), mode, stop, cap, true),
        Order::Pre => cmodes!(same, c.dfs_preorder_each_iter(), mode, stop, cap, true),
        Order::Post => cmodes!(same, c.dfs_postorder_each_iter(), mode, stop, cap, true),
        Order::In => cmodes!(same, c.dfs_inorder_each_iter(), mode, stop, cap, true),
    }
}

#[allow(unused_assignments)]
pub fn run_list(ms: &[Model], fam: Fam, own: Own, coll: Coll, ord: Order, mode: Mode, stop: usize) -> Obs {
    let cap = ms.iter().map(|m| m.len()).sum::<usize>() * 2 + 8;
    macro_rules! gen {
        ($t:ty) => {{
            let mut v: Vec<$t> = build_all(ms);
            match own {
                Own::Owned => with_owned_coll!(v, coll, c => owned_g(c, ord, mode, stop, cap)),
                Own::Mut => with_mut_coll!(v, coll, c => mut_g(c, ord, mode, stop, cap)),
                Own::Ref => with_ref_gen_coll!(v, coll, c => ref_g(c, ord, mode, stop, cap)),
            }
        }};
    }
    macro_rules! bin {
        ($t:ty) => {{
            let mut v: Vec<$t> = build_all(ms);
            match own {
                Own::Owned => with_owned_coll!(v, coll, c => owned_b(c, ord, mode, stop, cap)),
                Own::Mut => with_mut_coll!(v, coll, c => mut_b(c, ord, mode, stop, cap)),
                Own::Ref => with_ref_bin_coll!(v, coll, c => ref_b(c, ord, mode, stop, cap)),
            }
        }};
    }
    match fam {
        #[cfg(not(feature = "spies"))]
        "Tree" => gen!(Tree<Tok>),
        #[cfg(not(feature = "spies"))]
        "ListNode" => gen!(ListNode),
        #[cfg(not(feature = "spies"))]
        "VecRefNode" => gen!(VecRefNode),
        "SpyNode" => gen!(SpyNode),
        #[cfg(not(feature = "spies"))]
        "BinaryTree" => bin!(BinaryTree<Tok>),
        _ => bin!(SpyBin),
    }
}

pub fn expect_list(ms: &[Model], own: Own, ord: Order, mode: Mode) -> Vec<Ev> {
    let per = match mode {
        Mode::LateCtx(_) => Mode::Ctx,
        Mode::Adapt(_) => Mode::Plain,
        m => m,
    };
    let all: Vec<Ev> = ms
        .iter()
        .enumerate()
        .flat_map(|(i, m)| {
            expect(m, own, ord, per).1.into_iter().map(move |mut e| {
                if let Some(p) = e.path.as_mut() {
                    p.insert(0, i)
                }
                e
            })
        })
        .collect();
    match mode {
        Mode::Adapt(Adapt::Nth(k)) => all.into_iter().skip(k).step_by(k + 1).collect(),
        Mode::Adapt(Adapt::Last) => all.into_iter().last().into_iter().collect(),
        Mode::Adapt(Adapt::Count) => vec![],
        _ => all,
    }
}

fn diff_list(ms: &[Model], bin: bool, obs: &Obs, exp: Vec<Ev>, stop: usize) -> Option<String> {
    // the single-tree comparison only needs the number of nodes and the kind of the model
    let mut m = Model::single(bin);
    let n: usize = ms.iter().map(|m| m.len()).sum();
    let node = m.nodes[0].clone();
    m.nodes.resize(n, node);
    diff(&m, obs, &(vec![], exp), stop)
}

pub struct Colls {
    prop: String,
    lists: Lists,
}
impl Colls {
    pub fn with(prop: &str, lists: Lists) -> Colls {
        Colls { prop: prop.to_string(), lists }
    }
    pub fn new(prop: &str, quick: bool) -> Colls {
        let lists = match (prop, quick) {
            ("P18", true) => Lists::new(2, 2, 2, 300, 6),
            ("P18", false) => Lists::new(3, 2, 3, 6_000, 8),
            (_, true) => Lists::new(3, 2, 3, 12_000, 12),
            (_, false) => Lists::new(3, 3, 3, 150_000, 24),
        };
        Colls { prop: prop.to_string(), lists }
    }
    fn case18(&self, bin: bool, ms: &[Model], r: &mut Rng, cx: &mut Ctx) -> R {
        let n: usize = ms.iter().map(|m| m.len()).sum();
        let mut ks: Vec<usize> = if n <= 8 { (0..=n + 2).collect() } else { vec![0, 1, n - 1, n, n + 1, n + 2, r.range(1, n), r.range(1, n)] };
        // the boundaries between trees
        let mut at = 0;
        for m in ms {
            at += m.len();
            ks.extend([at, at + 1]);
        }
        ks.sort();
        ks.dedup();
        let lk = lists_key(ms);
        for fam in fams(bin) {
            for own in OWNS {
                for &ord in orders(bin) {
                    for &k in &ks {
                        let coll = *r.pick(colls(bin, own));
                        cx.eval(
                            key(&[lk, skey(fam), own as u64, ord as u64, k as u64]),
                            n > 1,
                            || format!("{fam} collection {coll:?} {own:?} {ord:?} attach_context after {k} elements on {}", show(ms)),
                            || {
                                let got = guarded(|| run_list(ms, fam, own, coll, ord, Mode::LateCtx(k), usize::MAX));
                                // an element has been yielded iff one was asked for and there was one
                                let yielded = k > 0 && n > 0;
                                match (yielded, got) {
                                    (true, Err(_)) => Ok(k.min(n) as u64 + 1),
                                    (true, Ok(o)) => {
                                        Err(format!("no panic although {} elements had been yielded; {} followed", o.prefix.len(), o.evs.len()))
                                    }
                                    (false, Err(p)) => Err(format!("panicked although nothing had been yielded: {p}")),
                                    (false, Ok(o)) => Ok(o.evs.len() as u64 + 1),
                                }
                            },
                        )?;
                    }
                }
            }
        }
        Ok(())
    }
}
impl Prop for Colls {
    fn cases(&self) -> u64 {
        self.lists.cases()
    }
    fn rule(&self) -> String {
        let what = if self.prop == "P18" {
            "attach_context on collection traversals after k elements (every k on short lists, sampled and every boundary between trees on long ones)"
        } else {
            "plain to the end and beyond, to a random stop, through for_each/nth/last/count/collect, and attach_context with every reported path resolved by at_path on the collection"
        };
        format!("{}; as Vec, array, slice, slice iterator and a user-defined collection, every node family, ownership and order: {what}; non-trivial: at least 2 nodes", self.lists.text())
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        let (bin, ms, mut r) = self.lists.get(&format!("{}c", self.prop), seed, i);
        let n: usize = ms.iter().map(|m| m.len()).sum();
        cx.peak("longest_list", ms.len() as u64);
        cx.peak("largest_list_in_nodes", n as u64);
        if self.prop == "P18" {
            return self.case18(bin, &ms, &mut r, cx);
        }
        let lk = lists_key(&ms);
        for (fi, fam) in fams(bin).iter().enumerate() {
            if n > 60 && fi as u64 != i % fams(bin).len() as u64 {
                continue;
            }
            for own in OWNS {
                for &ord in orders(bin) {
                    let one = [*r.pick(colls(bin, own))];
                    let list: &[Coll] = if n > 8 { &one } else { colls(bin, own) };
                    for &coll in list {
                        {
                            let mode = *r.pick(&[Mode::Plain, Mode::Ctx]);
                            let (stop, a) = (r.range(0, n.min(40) + 1), Adapt::any(&mut r));
                            cx.eval(
                                key(&[lk, skey(fam), own as u64, ord as u64, coll as u64, skey(&format!("{mode:?} {a:?}")), stop as u64]),
                                n > 1 && stop < n,
                                || format!("{fam} collection {coll:?} {own:?} {ord:?} {mode:?}, {a:?} after {stop} on {}", show(&ms)),
                                || {
                                    let o = and_then(a, || run_list(&ms, fam, own, coll, ord, mode, stop));
                                    let mut m = Model::single(bin);
                                    let node = m.nodes[0].clone();
                                    m.nodes.resize(n, node);
                                    match diff_then(&m, &o, (vec![], expect_list(&ms, own, ord, mode)), stop, a) {
                                        None => Ok(o.evs.len() as u64 + 1),
                                        Some(d) => Err(d),
                                    }
                                },
                            )?;
                        }
                        for (mode, stop) in [
                            (Mode::Plain, usize::MAX),
                            (Mode::Ctx, usize::MAX),
                            (Mode::Ctx, r.range(0, n)),
                            (Mode::Adapt([Adapt::ForEach, Adapt::Nth(r.range(0, 2)), Adapt::Count, Adapt::Last, Adapt::Collect][r.below(5)]), usize::MAX),
                        ] {
                            cx.eval(
                                key(&[lk, skey(fam), own as u64, ord as u64, coll as u64, skey(&format!("{mode:?}")), stop.min(n + 1) as u64]),
                                n > 1,
                                || format!("{fam} collection {coll:?} {own:?} {ord:?} {mode:?} stop={stop} on {}", show(&ms)),
                                || {
                                    let o = run_list(&ms, fam, own, coll, ord, mode, stop);
                                    match diff_list(&ms, bin, &o, expect_list(&ms, own, ord, mode), stop) {
                                        None => Ok(o.evs.len() as u64 + 1),
                                        Some(d) => Err(d),
                                    }
                                },
                            )?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

/// P18: single trees and collections
pub struct Both(pub Box<dyn Prop>, pub Box<dyn Prop>);
impl Prop for Both {
    fn cases(&self) -> u64 {
        self.0.cases() + self.1.cases()
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        // interleaved, so that a time box cuts both alike
        let n = self.0.cases().min(self.1.cases());
        if i < 2 * n {
            // which of the two alternates, so that shards (numbers modulo 8) get both
            if (i + i / 8) % 2 == 0 {
                self.0.case(seed, i / 2, cx)
            } else {
                self.1.case(seed, i / 2, cx)
            }
        } else if self.0.cases() > n {
            self.0.case(seed, i - n, cx)
        } else {
            self.1.case(seed, i - n, cx)
        }
    }
    fn rule(&self) -> String {
        format!("(a) {} (b) {}", self.0.rule(), self.1.rule())
    }
}
