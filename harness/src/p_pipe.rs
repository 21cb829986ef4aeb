//! P11 map, P12 prune, P13 fold (direct methods), P14 chained pipelines.
use crate::engine::*;
use crate::model::*;
use crate::nodes::*;
use crate::rng::Rng;
use crate::stages::{self, *};
use crate::tok::*;
use crate::traverse::*;
use tree_iterators_rs::prelude::*;

/// a direct method of the node traits
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Direct {
    Map,
    MapPath,
    Prune,
    PrunePath,
    PruneDepth,
    Fold,
    FoldPath,
    /// the same with other result types of the closure
    MapAs(Form),
    MapPathAs(Form),
    FoldAs(Form),
    FoldPathAs(Form),
}

macro_rules! direct_fn {
    ($name:ident, [$($lt:tt)*], $nt:ty, $tr:path, $val:ident, $map:ident, $map_path:ident, $prune:ident, $prune_path:ident, $prune_depth:ident, $fold:ident, $fold_path:ident,
     $dump:ident, $kt:ident, $kids:ty, $to_vec:expr) => {
        pub fn $name<$($lt)* N: $tr>(n: $nt, op: Op, d: Direct) -> Seen
        where
            N::$val: PV,
        {
            let log = new_log();
            let mut seen = Seen::default();
            match (d, op) {
                (Direct::Map, Op::Map(salt)) => seen.dump = Some($dump(&n.$map(f_map(0, &log, salt)))),
                (Direct::MapPath, Op::MapPath(salt)) => seen.dump = Some($dump(&n.$map_path(f_map_path(0, &log, salt)))),
                (Direct::Prune, Op::Prune { salt, den, root }) => seen.dump = n.$prune(f_prune(0, &log, salt, den, root)).map(|t| $dump(&t)),
                (Direct::PrunePath, Op::PrunePath { salt, den, root }) => seen.dump = n.$prune_path(f_prune_path(0, &log, salt, den, root)).map(|t| $dump(&t)),
                (Direct::PruneDepth, Op::Depth(k)) => seen.dump = Some($dump(&n.$prune_depth(k))),
                (Direct::Fold, _) => {
                    let calls = &mut seen.fold_calls;
                    seen.fold = Some(n.$fold(|kids: $kids, v| {
                        let kids = ($to_vec)(kids);
                        let h = fold_hash(v.id(), v.tag(), &kids);
                        calls.push((None, v.id(), v.tag(), kids));
                        h
                    }))
                }
                (Direct::FoldPath, _) => {
                    let calls = &mut seen.fold_calls;
                    seen.fold = Some(n.$fold_path(|kids: $kids, p: &[usize], v| {
                        let kids = ($to_vec)(kids);
                        let h = fold_hash(v.id(), v.tag(), &kids);
                        calls.push((Some(p.to_vec()), v.id(), v.tag(), kids));
                        h
                    }))
                }
                (Direct::MapAs(Form::Unit), Op::Map(salt)) => {
                    let mut f = f_map(0, &log, salt);
                    seen.dump = Some($dump(&n.$map(|v| drop_to_nil(f(v)))));
                }
                (Direct::MapAs(Form::Big), Op::Map(salt)) => {
                    let mut f = f_map(0, &log, salt);
                    seen.dump = Some($dump(&n.$map(|v| big(f(v)))));
                }
                (Direct::MapPathAs(Form::Unit), Op::MapPath(salt)) => {
                    let mut f = f_map_path(0, &log, salt);
                    seen.dump = Some($dump(&n.$map_path(|p, v| drop_to_nil(f(p, v)))));
                }
                (Direct::MapPathAs(Form::Big), Op::MapPath(salt)) => {
                    let mut f = f_map_path(0, &log, salt);
                    seen.dump = Some($dump(&n.$map_path(|p, v| big(f(p, v)))));
                }
                (Direct::FoldAs(Form::Unit), _) => {
                    let calls = &mut seen.fold_calls;
                    n.$fold(|kids: $kt<()>, v| calls.push((None, v.id(), v.tag(), kids.slots().into_iter().map(|k| k.map(|()| 0)).collect())));
                }
                (Direct::FoldPathAs(Form::Unit), _) => {
                    let calls = &mut seen.fold_calls;
                    n.$fold_path(|kids: $kt<()>, p: &[usize], v| calls.push((Some(p.to_vec()), v.id(), v.tag(), kids.slots().into_iter().map(|k| k.map(|()| 0)).collect())));
                }
                (Direct::FoldAs(Form::Big), _) => {
                    let calls = &mut seen.fold_calls;
                    seen.fold = Some(unbig(n.$fold(|kids: $kt<Big<u64>>, v| {
                        let kids = kids.slots().into_iter().map(|k| k.map(unbig)).collect::<Vec<_>>();
                        let h = fold_hash(v.id(), v.tag(), &kids);
                        calls.push((None, v.id(), v.tag(), kids));
                        big(h)
                    })))
                }
                (Direct::FoldPathAs(Form::Big), _) => {
                    let calls = &mut seen.fold_calls;
                    seen.fold = Some(unbig(n.$fold_path(|kids: $kt<Big<u64>>, p: &[usize], v| {
                        let kids = kids.slots().into_iter().map(|k| k.map(unbig)).collect::<Vec<_>>();
                        let h = fold_hash(v.id(), v.tag(), &kids);
                        calls.push((Some(p.to_vec()), v.id(), v.tag(), kids));
                        big(h)
                    })))
                }
                _ => unreachable!(),
            }
            seen.calls = std::mem::take(&mut *log.borrow_mut());
            seen
        }
    };
}
direct_fn!(d_own_gen, [], N, OwnedTreeNode, OwnedValue, map, map_path, prune, prune_path, prune_depth, fold, fold_path, dump_tree, GenKids, Vec<u64>, |k: Vec<u64>| k.into_iter().map(Some).collect::<Vec<Option<u64>>>());
direct_fn!(d_mut_gen, ['a,], &'a mut N, MutBorrowedTreeNode<'a>, MutBorrowedValue, map_mut, map_path_mut, prune_mut, prune_path_mut, prune_depth_mut, fold_mut, fold_path_mut, dump_tree, GenKids, Vec<u64>, |k: Vec<u64>| k.into_iter().map(Some).collect::<Vec<Option<u64>>>());
direct_fn!(d_ref_gen, ['a,], &'a N, BorrowedTreeNode<'a>, BorrowedValue, map_ref, map_path_ref, prune_ref, prune_path_ref, prune_depth_ref, fold_ref, fold_path_ref, dump_tree, GenKids, Vec<u64>, |k: Vec<u64>| k.into_iter().map(Some).collect::<Vec<Option<u64>>>());
direct_fn!(d_own_bin, [], N, OwnedBinaryTreeNode, OwnedValue, map, map_path, prune, prune_path, prune_depth, fold, fold_path, dump_bin, BinKids, [Option<u64>; 2], |k: [Option<u64>; 2]| k.to_vec());
direct_fn!(d_mut_bin, ['a,], &'a mut N, MutBorrowedBinaryTreeNode<'a>, MutBorrowedValue, map_mut, map_path_mut, prune_mut, prune_path_mut, prune_depth_mut, fold_mut, fold_path_mut, dump_bin, BinKids, [Option<u64>; 2], |k: [Option<u64>; 2]| k.to_vec());
direct_fn!(d_ref_bin, ['a,], &'a N, BorrowedBinaryTreeNode<'a>, BorrowedValue, map_ref, map_path_ref, prune_ref, prune_path_ref, prune_depth_ref, fold_ref, fold_path_ref, dump_bin, BinKids, [Option<u64>; 2], |k: [Option<u64>; 2]| k.to_vec());

pub fn pipe_own_gen<N: OwnedTreeNode>(n: N, ops: &[Op], term: Term) -> Seen
where
    N::OwnedValue: PV,
{
    run_gen(n.into_pipeline(), ops, term)
}
pub fn pipe_mut_gen<'a, N: MutBorrowedTreeNode<'a>>(n: &'a mut N, ops: &[Op], term: Term) -> Seen
where
    N::MutBorrowedValue: PV,
{
    run_gen(n.into_pipeline_mut(), ops, term)
}
pub fn pipe_ref_gen<'a, N: BorrowedTreeNode<'a>>(n: &'a N, ops: &[Op], term: Term) -> Seen
where
    N::BorrowedValue: PV,
{
    run_gen(n.into_pipeline_ref(), ops, term)
}
pub fn pipe_own_bin<N: OwnedBinaryTreeNode>(n: N, ops: &[Op], term: Term) -> Seen
where
    N::OwnedValue: PV,
{
    run_bin(n.into_pipeline(), ops, term)
}
pub fn pipe_mut_bin<'a, N: MutBorrowedBinaryTreeNode<'a>>(n: &'a mut N, ops: &[Op], term: Term) -> Seen
where
    N::MutBorrowedValue: PV,
{
    run_bin(n.into_pipeline_mut(), ops, term)
}
pub fn pipe_ref_bin<'a, N: BorrowedBinaryTreeNode<'a>>(n: &'a N, ops: &[Op], term: Term) -> Seen
where
    N::BorrowedValue: PV,
{
    run_bin(n.into_pipeline_ref(), ops, term)
}

#[derive(Clone, Copy, Debug)]
pub enum Job<'x> {
    Direct(Op, Direct),
    Pipe(&'x [Op], Term),
}

/// after a mutable run: exactly the nodes that reached the first map stage were written through
fn tree_after<N: Build>(n: &N, m: &Model, calls: &[Call], ops: &[Op]) -> R {
    let first_map = ops.iter().position(|o| o.is_map());
    let touched: std::collections::HashSet<u64> = calls.iter().filter(|c| Some(c.stage) == first_map).map(|c| c.id).collect();
    let want: Vec<(Vec<usize>, u64)> = m
        .preorder()
        .into_iter()
        .map(|i| {
            let id = m.nodes[i].id;
            (m.nodes[i].path.clone(), if touched.contains(&id) { id + TOUCHED } else { id })
        })
        .collect();
    let got = n.dump();
    if got != want {
        return Err("the tree afterwards does not hold exactly what the closures wrote".into());
    }
    Ok(())
}

pub fn run_job(m: &Model, fam: Fam, own: Own, job: Job) -> Result<Seen, String> {
    let ops: Vec<Op> = match job {
        Job::Direct(op, _) => vec![op],
        Job::Pipe(ops, _) => ops.to_vec(),
    };
    macro_rules! go {
        ($t:ty, $do:ident, $dm:ident, $dr:ident, $po:ident, $pm:ident, $pr:ident) => {{
            let mut n = <$t as Build>::build(m);
            let seen = match (own, job) {
                (Own::Owned, Job::Direct(op, d)) => $do(n, op, d),
                (Own::Owned, Job::Pipe(ops, t)) => $po(n, ops, t),
                (Own::Mut, Job::Direct(op, d)) => {
                    let s = $dm(&mut n, op, d);
                    tree_after(&n, m, &s.calls, &ops)?;
                    s
                }
                (Own::Mut, Job::Pipe(ops, t)) => {
                    let s = $pm(&mut n, ops, t);
                    tree_after(&n, m, &s.calls, ops)?;
                    s
                }
                (Own::Ref, Job::Direct(op, d)) => {
                    let s = $dr(&n, op, d);
                    tree_after(&n, m, &[], &[])?;
                    s
                }
                (Own::Ref, Job::Pipe(ops, t)) => {
                    let s = $pr(&n, ops, t);
                    tree_after(&n, m, &[], &[])?;
                    s
                }
            };
            seen
        }};
    }
    macro_rules! g {
        ($t:ty) => {
            go!($t, d_own_gen, d_mut_gen, d_ref_gen, pipe_own_gen, pipe_mut_gen, pipe_ref_gen)
        };
    }
    macro_rules! b {
        ($t:ty) => {
            go!($t, d_own_bin, d_mut_bin, d_ref_bin, pipe_own_bin, pipe_mut_bin, pipe_ref_bin)
        };
    }
    let seen = match fam {
        #[cfg(not(feature = "spies"))]
        "Tree" => g!(Tree<Tok>),
        #[cfg(not(feature = "spies"))]
        "ListNode" => g!(ListNode),
        #[cfg(not(feature = "spies"))]
        "VecRefNode" => g!(VecRefNode),
        "SpyNode" => g!(SpyNode),
        #[cfg(not(feature = "spies"))]
        "BinaryTree" => b!(BinaryTree<Tok>),
        _ => b!(SpyBin),
    };
    let (c, d, live, faults) = audit();
    if live > 0 || !faults.is_empty() {
        return Err(format!("{live} of {c} values still live afterwards ({d} dropped); {faults:?}"));
    }
    Ok(seen)
}

pub struct Pipes {
    prop: String,
    quick: bool,
    src: Src,
}
impl Pipes {
    pub fn with(prop: &str, src: Src) -> Pipes {
        Pipes { prop: prop.to_string(), quick: true, src }
    }
    pub fn new(prop: &str, quick: bool) -> Pipes {
        let (g, b, r, max) = match (prop, quick) {
            ("P14", true) => (6, 6, 14_000, 24),
            ("P14", false) => (8, 8, 200_000, 40),
            ("P11", true) => (7, 7, 20_000, 30),
            ("P13", true) => (8, 8, 60_000, 40),
            (_, true) => (7, 7, 40_000, 30),
            (_, false) => (9, 9, 150_000, 50),
        };
        Pipes { prop: prop.to_string(), quick, src: Src::new(g, b, r, max) }
    }
    fn jobs(&self, m: &Model, r: &mut Rng) -> Vec<(Op, Direct)> {
        let h = m.height();
        let mut v = vec![];
        match self.prop.as_str() {
            "P11" => {
                v.push((Op::Map(r.next()), Direct::Map));
                v.push((Op::MapPath(r.next()), Direct::MapPath));
                let form = *r.pick(&[Form::Unit, Form::Big]);
                v.push(match r.chance(1, 2) {
                    true => (Op::Map(r.next()), Direct::MapAs(form)),
                    false => (Op::MapPath(r.next()), Direct::MapPathAs(form)),
                });
            }
            "P12" => {
                for k in 0..3 {
                    let den = if k == 0 { 1 } else { *r.pick(&[2, 3, 5, 9, u64::MAX]) };
                    let root = r.chance(1, 12);
                    v.push((Op::Prune { salt: r.next(), den, root }, Direct::Prune));
                    v.push((Op::PrunePath { salt: r.next(), den: *r.pick(&[2, 3, 5, 9]), root }, Direct::PrunePath));
                }
                let mut ds = vec![0, h, h + 1, usize::MAX, r.range(0, h + 1)];
                if h <= 6 {
                    ds.extend(0..h);
                }
                ds.sort();
                ds.dedup();
                v.extend(ds.into_iter().map(|d| (Op::Depth(d), Direct::PruneDepth)));
            }
            _ => {
                v.push((Op::Depth(usize::MAX), Direct::Fold));
                v.push((Op::Depth(usize::MAX), Direct::FoldPath));
                let form = *r.pick(&[Form::Unit, Form::Big]);
                v.push((Op::Depth(usize::MAX), *r.pick(&[Direct::FoldAs(form), Direct::FoldPathAs(form)])));
            }
        }
        v
    }
}

fn verdict(m: &Model, op: Op, d: Direct, seen: &mut Seen) -> Result<u64, String> {
    let rf = match d {
        Direct::Fold | Direct::FoldPath | Direct::FoldAs(_) | Direct::FoldPathAs(_) => reference(m, &[]),
        _ => reference(m, &[op]),
    };
    let term = match d {
        Direct::Fold | Direct::FoldAs(_) => Term::Fold,
        Direct::FoldPath | Direct::FoldPathAs(_) => Term::FoldPath,
        _ => Term::Collect,
    };
    match d {
        // results without a size only show how many there are and in which slots: the rest is filled in
        Direct::FoldAs(Form::Unit) | Direct::FoldPathAs(Form::Unit) => {
            let folds = rf.folds(m);
            let at: std::collections::HashMap<u64, usize> = (0..rf.out.len()).map(|o| (m.nodes[rf.out[o].0].id, o)).collect();
            for (_, id, _, kids) in seen.fold_calls.iter_mut() {
                if let Some(o) = at.get(id) {
                    let want: Vec<Option<u64>> = rf.kids[*o].iter().map(|k| k.map(|k| folds[k])).collect();
                    if kids.len() == want.len() && kids.iter().zip(&want).all(|(a, b)| a.is_some() == b.is_some()) {
                        *kids = want;
                    }
                }
            }
            seen.fold = folds.first().copied();
        }
        Direct::MapAs(Form::Unit) | Direct::MapPathAs(Form::Unit) => {
            let at: std::collections::HashMap<&[usize], usize> = (0..rf.out.len()).map(|o| (&rf.out[o].1[..], o)).collect();
            for (path, id, tag) in seen.dump.iter_mut().flatten() {
                if let Some(o) = at.get(&path[..]) {
                    (*id, *tag) = (m.nodes[rf.out[*o].0].id, rf.out[*o].2);
                }
            }
        }
        _ => {}
    }
    stages::judge(m, &rf, term, seen)
}

impl Prop for Pipes {
    fn cases(&self) -> u64 {
        self.src.cases()
    }
    fn rule(&self) -> String {
        let what = match self.prop.as_str() {
            "P11" => "map / map_path with the closure's calls logged; mutable forms write through the values and the tree is compared afterwards",
            "P12" => "prune / prune_path with three seeded closures each (everything below the root, root pruned, one in 2/3/5/9, nothing) and prune_depth at 0..=height+1 and usize::MAX, calls logged",
            "P13" => "fold / fold_path and the fold terminals of a bare pipeline, with order-sensitive accumulation and every call logged",
            _ => "random chains of 0 to 7 stages (prune, prune_path, prune_depth, map_tree, map_path) ended by collect_tree, fold_tree, fold_path, or iteration with current_path()/current_depth() checked at each element and size_hint checked, stopped at random points or continued there through for_each/fold/nth/count/find/last/collect; every closure call (order, path, value) compared with stage-by-stage semantics; distinct by (shape, family, ownership, chain, ending)",
        };
        format!("{}; each tree in every node family, owned/mut/ref: {what}; value ledger audited after each run; non-trivial: at least 2 nodes", self.src.text())
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        let (m, mut r) = self.src.get(&self.prop, seed, i);
        cx.peak("largest_tree", m.len() as u64);
        cx.peak("deepest_tree", m.height() as u64);
        let sk = m.shape_key();
        let n = m.len();
        for (fi, fam) in fams(m.binary).iter().enumerate() {
            if n > 60 && fi as u64 != i % fams(m.binary).len() as u64 {
                continue;
            }
            for own in OWNS {
                if self.prop == "P14" {
                    let rounds = if n > 2000 {
                        1
                    } else if self.quick {
                        5
                    } else {
                        10
                    };
                    for _ in 0..rounds {
                        let top = if r.chance(1, 4) { 8 } else { 5 };
                        let len = r.below(top);
                        let ops: Vec<Op> = (0..len).map(|_| random_op(&mut r, m.height())).collect();
                        let term = match r.below(6) {
                            0 => Term::Collect,
                            1 => Term::Fold,
                            2 => Term::FoldPath,
                            3 => Term::Then(if r.chance(1, 3) { 0 } else { r.range(0, n) }, Adapt::any(&mut r)),
                            4 => Term::Iter(r.range(0, n)),
                            _ => Term::Iter(usize::MAX),
                        };
                        cx.eval(
                            key(&[sk, fi as u64, own as u64, skey(&format!("{ops:?}{term:?}"))]),
                            n > 1,
                            || format!("{fam} {own:?} pipeline {ops:?} then {term:?} on {}", m.show()),
                            || {
                                let rf = reference(&m, &ops);
                                let seen = run_job(&m, fam, own, Job::Pipe(&ops, term))?;
                                stages::judge(&m, &rf, term, &seen)
                            },
                        )?;
                        cx.count(&format!("chains_with_{}_stages", ops.len()), 1);
                    }
                    continue;
                }
                for (op, d) in self.jobs(&m, &mut r) {
                    cx.eval(
                        key(&[sk, fi as u64, own as u64, skey(&format!("{op:?}{d:?}"))]),
                        n > 1,
                        || format!("{fam} {own:?} {d:?} {op:?} on {}", m.show()),
                        || {
                            let mut seen = run_job(&m, fam, own, Job::Direct(op, d))?;
                            verdict(&m, op, d, &mut seen)
                        },
                    )?;
                    if matches!(d, Direct::MapAs(_) | Direct::MapPathAs(_) | Direct::FoldAs(_) | Direct::FoldPathAs(_)) {
                        cx.count("with_zero_sized_or_large_results", 1);
                        continue;
                    }
                    // the same operation as a one-stage pipeline
                    let (ops, term): (Vec<Op>, Term) = match d {
                        Direct::Fold => (vec![], Term::Fold),
                        Direct::FoldPath => (vec![], Term::FoldPath),
                        _ => (vec![op], Term::Collect),
                    };
                    cx.eval(
                        key(&[sk, fi as u64, own as u64, skey(&format!("{op:?}{d:?}pipe"))]),
                        n > 1,
                        || format!("{fam} {own:?} pipeline of {d:?} {op:?} on {}", m.show()),
                        || {
                            let mut seen = run_job(&m, fam, own, Job::Pipe(&ops, term))?;
                            verdict(&m, op, d, &mut seen)
                        },
                    )?;
                }
            }
        }
        Ok(())
    }
}
