//! P15: pipelines and bulk operations over collections, against the per-tree reference.
use crate::engine::*;
use crate::lists::*;
use crate::model::*;
use crate::nodes::*;
use crate::rng::Rng;
use crate::stages::*;
use crate::tok::*;
use crate::traverse::*;
use crate::{with_mut_coll, with_owned_coll, with_ref_bin_coll, with_ref_gen_coll};
use std::collections::HashSet;
use std::marker::PhantomData;
use std::rc::Rc;
use tree_iterators_rs::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CTerm {
    /// trees() / prune_each / map_each..., at most so many results taken
    Trees(usize),
    Fold(usize),
    FoldPath(usize),
    /// element by element, with current_path()
    Iter(usize),
    /// trees() used again as a collection of trees (generic trees)
    TreesAgain,
}
#[derive(Default)]
pub struct CSeen {
    pub calls: Vec<Call>,
    trees: Vec<Vec<(Vec<usize>, u64, u64)>>,
    folds: Vec<u64>,
    fold_calls: Vec<(Option<Vec<usize>>, u64, u64, Vec<Option<u64>>)>,
    elems: Vec<(Vec<usize>, u64, u64)>,
    again: Vec<(u64, u64)>,
    /// calls seen (stage, fold) when each result arrived
    at: Vec<(usize, usize)>,
    ended: bool,
    wrong: Option<String>,
    hints: Vec<(usize, Option<usize>)>,
    /// what came after the results taken one by one, through another entry point
    went_on: bool,
    rest_trees: Vec<Vec<(Vec<usize>, u64, u64)>>,
    rest_folds: Vec<u64>,
    rest_elems: Vec<(u64, u64)>,
    count: Option<usize>,
}

/// takes results: `k` one by one, then (take_on) the rest through another entry point of the Iterator trait
enum Got<X> {
    Hint((usize, Option<usize>)),
    One(X),
    End { more: bool },
    Rest(X),
    Counted(Option<usize>),
}
fn take<I: Iterator>(mut it: I, k: usize, sink: &mut dyn FnMut(Got<I::Item>)) {
    for _ in 0..k {
        sink(Got::Hint(it.size_hint()));
        match it.next() {
            Some(x) => sink(Got::One(x)),
            None => {
                let more = it.next().is_some();
                return sink(Got::End { more });
            }
        }
    }
}
fn take_on<I: Iterator>(mut it: I, k: usize, a: Adapt, sink: &mut dyn FnMut(Got<I::Item>)) {
    let mut ended = false;
    take(it.by_ref(), k, &mut |g| {
        ended |= matches!(g, Got::End { .. });
        sink(g)
    });
    if !ended {
        let n = adapt_rest(it, a, |x| sink(Got::Rest(x)));
        sink(Got::Counted(n));
    }
}

/// type-erased collection pipelines; see `dyn_pipe` in stages.rs
macro_rules! cdyn {
    ($stage:ident, $full:ident, $leaf:ident, $name:ident, $tr:ident, $tree:ident, $kids:ty, $again:expr) => {
        pub trait $stage<'a, V> {
            fn next_value(&mut self) -> Option<V>;
            fn hint(&self) -> (usize, Option<usize>);
            fn path(&self) -> &[usize];
            fn depth(&self) -> usize;
            fn prune_here(&mut self);
            fn s_prune(self: Box<Self>, f: FPrune<'a, V>) -> $name<'a, V>;
            fn s_prune_path(self: Box<Self>, f: FPrunePath<'a, V>) -> $name<'a, V>;
            fn s_depth(self: Box<Self>, d: usize) -> $name<'a, V>;
            fn s_map(self: Box<Self>, f: FMap<'a, V>) -> $name<'a, Tagged>;
            fn s_map_path(self: Box<Self>, f: FMapPath<'a, V>) -> $name<'a, Tagged>;
            fn t_trees(self: Box<Self>, k: usize, sink: &mut dyn FnMut(Got<$tree<V>>));
            fn t_fold(self: Box<Self>, f: &mut dyn FnMut($kids, V) -> u64, k: usize, sink: &mut dyn FnMut(Got<u64>));
            fn t_fold_path(self: Box<Self>, f: &mut dyn FnMut($kids, &[usize], V) -> u64, k: usize, sink: &mut dyn FnMut(Got<u64>));
            fn t_rest(self: Box<Self>, a: Adapt, sink: &mut dyn FnMut(V)) -> Option<usize>;
            fn t_again(self: Box<Self>) -> Vec<(u64, u64)>;
        }
        pub struct $full<I, C>(I, PhantomData<C>);
        pub struct $leaf<I, C>(I, PhantomData<C>);
        cdyn!(@imp $stage, $full, $name, $tr, $tree, $kids, $again, |x| x.0, leaf);
        cdyn!(@imp $stage, $leaf, $name, $tr, $tree, $kids, $again, |x| $name(x), full);
        pub struct $name<'a, V>(Box<dyn $stage<'a, V> + 'a>);
        impl<'a, V: PV + 'a> $name<'a, V> {
            fn full<C: 'a>(i: impl $tr<V, C> + 'a) -> Self {
                $name(Box::new($full(i, PhantomData)))
            }
            pub fn leaf<C: 'a>(i: impl $tr<V, C> + 'a) -> Self {
                $name(Box::new($leaf(i, PhantomData)))
            }
        }
        impl<V> Iterator for $name<'_, V> {
            type Item = V;
            fn next(&mut self) -> Option<V> {
                self.0.next_value()
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.0.hint()
            }
        }
        impl<V> TreeCollectionIteratorBase<V, ()> for $name<'_, V> {
            fn current_path(&self) -> &[usize] {
                self.0.path()
            }
            fn current_depth(&self) -> usize {
                self.0.depth()
            }
            fn prune_current_subtree(&mut self) {
                self.0.prune_here()
            }
        }
        impl<V> $tr<V, ()> for $name<'_, V> {}
    };
    (@imp $stage:ident, $er:ident, $name:ident, $tr:ident, $tree:ident, $kids:ty, $again:expr, |$x:ident| $inner:expr, $next:ident) => {
        impl<'a, V: PV + 'a, C: 'a, I: $tr<V, C> + 'a> $stage<'a, V> for $er<I, C> {
            fn next_value(&mut self) -> Option<V> {
                self.0.next()
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
            fn path(&self) -> &[usize] {
                self.0.current_path()
            }
            fn depth(&self) -> usize {
                self.0.current_depth()
            }
            fn prune_here(&mut self) {
                self.0.prune_current_subtree()
            }
            fn s_prune(self: Box<Self>, f: FPrune<'a, V>) -> $name<'a, V> {
                let $x = self;
                $name::$next($inner.prune(f))
            }
            fn s_prune_path(self: Box<Self>, f: FPrunePath<'a, V>) -> $name<'a, V> {
                let $x = self;
                $name::$next($inner.prune_path(f))
            }
            fn s_depth(self: Box<Self>, d: usize) -> $name<'a, V> {
                let $x = self;
                $name::$next($inner.prune_depth(d))
            }
            fn s_map(self: Box<Self>, f: FMap<'a, V>) -> $name<'a, Tagged> {
                let $x = self;
                $name::$next($inner.map_trees(f))
            }
            fn s_map_path(self: Box<Self>, f: FMapPath<'a, V>) -> $name<'a, Tagged> {
                let $x = self;
                $name::$next($inner.map_path(f))
            }
            fn t_trees(self: Box<Self>, k: usize, sink: &mut dyn FnMut(Got<$tree<V>>)) {
                match then() {
                    None => take(self.0.trees(), k, sink),
                    Some(a) => take_on($name(self).trees(), k, a, sink),
                }
            }
            fn t_fold(self: Box<Self>, f: &mut dyn FnMut($kids, V) -> u64, k: usize, sink: &mut dyn FnMut(Got<u64>)) {
                match then() {
                    None => take(self.0.fold_trees(f), k, sink),
                    Some(a) => take_on($name(self).fold_trees(f), k, a, sink),
                }
            }
            fn t_fold_path(self: Box<Self>, f: &mut dyn FnMut($kids, &[usize], V) -> u64, k: usize, sink: &mut dyn FnMut(Got<u64>)) {
                match then() {
                    None => take(self.0.fold_path(f), k, sink),
                    Some(a) => take_on($name(self).fold_path(f), k, a, sink),
                }
            }
            fn t_rest(self: Box<Self>, a: Adapt, sink: &mut dyn FnMut(V)) -> Option<usize> {
                adapt_rest(self.0, a, sink)
            }
            fn t_again(self: Box<Self>) -> Vec<(u64, u64)> {
                ($again)(self.0.trees())
            }
        }
    };
}
cdyn!(CGenStage, CGenFull, CGenLeaf, CGen, TreeCollectionIterator, Tree, Vec<u64>, again_gen);
cdyn!(CBinStage, CBinFull, CBinLeaf, CBin, BinaryTreeCollectionIterator, BinaryTree, [Option<u64>; 2], again_bin);

pub type Roots = Rc<HashSet<u64>>;
fn c_prune<V: PV>(s: usize, log: &Log, roots: &Roots, salt: u64, den: u64, root: bool) -> impl FnMut(&V) -> bool {
    let (log, roots) = (log.clone(), roots.clone());
    move |v: &V| {
        tick(AT_CLOSURE);
        log.borrow_mut().push(Call { stage: s, path: None, id: v.id(), tag: v.tag() });
        picks_in_list(salt, den, root, v.id(), v.tag(), roots.contains(&v.id()))
    }
}
fn c_prune_path<V: PV>(s: usize, log: &Log, roots: &Roots, salt: u64, den: u64, root: bool) -> impl FnMut(&[usize], &V) -> bool {
    let (log, roots) = (log.clone(), roots.clone());
    move |p: &[usize], v: &V| {
        tick(AT_CLOSURE);
        log.borrow_mut().push(Call { stage: s, path: Some(p.to_vec()), id: v.id(), tag: v.tag() });
        picks_in_list(salt, den, root, v.id(), v.tag(), roots.contains(&v.id()))
    }
}

/// what to do with results as they come
macro_rules! on_trees {
    ($seen:ident, $log:ident, $dump:ident) => {
        |g| match g {
            Got::Hint(h) => $seen.hints.push(h),
            Got::One(t) => {
                $seen.trees.push($dump(&t));
                $seen.at.push(($log.borrow().len(), 0));
            }
            Got::Rest(t) => $seen.rest_trees.push($dump(&t)),
            g => $seen.end_of(&g, "tree"),
        }
    };
}
macro_rules! on_folds {
    ($seen:ident, $log:ident, $fc:ident) => {
        |g| match g {
            Got::Hint(h) => $seen.hints.push(h),
            Got::One(t) => {
                $seen.folds.push(t);
                $seen.at.push(($log.borrow().len(), $fc.borrow().len()));
            }
            Got::Rest(t) => $seen.rest_folds.push(t),
            g => $seen.end_of(&g, "result"),
        }
    };
}
impl CSeen {
    fn end_of<X>(&mut self, g: &Got<X>, what: &str) {
        match g {
            Got::End { more } => {
                self.ended = true;
                if *more {
                    self.wrong = Some(format!("a {what} was yielded after the end"));
                }
            }
            Got::Counted(n) => {
                self.went_on = true;
                self.count = *n;
            }
            _ => unreachable!(),
        }
    }
}
macro_rules! fold_fn {
    ($fc:ident, $kids:ty, $to_vec:expr) => {{
        let fc = $fc.clone();
        move |kids: $kids, v| {
            tick(AT_CLOSURE);
            let kids = ($to_vec)(kids);
            let h = fold_hash(id_of(&v), tag_of(&v), &kids);
            fc.borrow_mut().push((None, id_of(&v), tag_of(&v), kids));
            h
        }
    }};
}
macro_rules! fold_path_fn {
    ($fc:ident, $kids:ty, $to_vec:expr) => {{
        let fc = $fc.clone();
        move |kids: $kids, p: &[usize], v| {
            tick(AT_CLOSURE);
            let kids = ($to_vec)(kids);
            let h = fold_hash(id_of(&v), tag_of(&v), &kids);
            fc.borrow_mut().push((Some(p.to_vec()), id_of(&v), tag_of(&v), kids));
            h
        }
    }};
}
fn id_of<V: PV>(v: &V) -> u64 {
    v.id()
}
fn tag_of<V: PV>(v: &V) -> u64 {
    v.tag()
}
type FoldLog = Rc<std::cell::RefCell<Vec<(Option<Vec<usize>>, u64, u64, Vec<Option<u64>>)>>>;

macro_rules! cchain {
    ($run:ident, $term:ident, $dyn:ident, $tr:ident, $kids:ty, $to_vec:expr, $dump:ident) => {
        pub fn $run<'a, V: PV + 'a, C: 'a>(it: impl $tr<V, C> + 'a, ops: &[Op], term: CTerm, roots: &Roots) -> CSeen {
            let log = new_log();
            let mut seen = {
                let even = key(&[skey(&format!("{ops:?}{term:?}"))]) % 2 == 0;
                // (one level of erasure more moves the places where stages meet by one)
                let mut raw = $dyn::leaf(it);
                let mut s = 0;
                while s < ops.len() && !ops[s].is_map() {
                    raw = match ops[s] {
                        Op::Prune { salt, den, root } => raw.0.s_prune(Box::new(c_prune(s, &log, roots, salt, den, root))),
                        Op::PrunePath { salt, den, root } => raw.0.s_prune_path(Box::new(c_prune_path(s, &log, roots, salt, den, root))),
                        Op::Depth(d) => raw.0.s_depth(d),
                        _ => unreachable!(),
                    };
                    s += 1;
                    if s == 1 && s < ops.len() && even {
                        raw = $dyn::leaf(raw);
                    }
                }
                if s == ops.len() {
                    $term(raw, term, &log)
                } else {
                    let mut t = match ops[s] {
                        Op::Map(salt) => raw.0.s_map(Box::new(f_map(s, &log, salt))),
                        Op::MapPath(salt) => raw.0.s_map_path(Box::new(f_map_path(s, &log, salt))),
                        _ => unreachable!(),
                    };
                    for s in s + 1..ops.len() {
                        t = match ops[s] {
                            Op::Prune { salt, den, root } => t.0.s_prune(Box::new(c_prune(s, &log, roots, salt, den, root))),
                            Op::PrunePath { salt, den, root } => t.0.s_prune_path(Box::new(c_prune_path(s, &log, roots, salt, den, root))),
                            Op::Depth(d) => t.0.s_depth(d),
                            Op::Map(salt) => t.0.s_map(Box::new(f_map(s, &log, salt))),
                            Op::MapPath(salt) => t.0.s_map_path(Box::new(f_map_path(s, &log, salt))),
                        };
                    }
                    $term(t, term, &log)
                }
            };
            seen.calls = std::mem::take(&mut *log.borrow_mut());
            seen
        }
        fn $term<V: PV>(mut it: $dyn<'_, V>, term: CTerm, log: &Log) -> CSeen {
            let mut seen = CSeen::default();
            let fc: FoldLog = Default::default();
            match term {
                CTerm::Trees(k) => it.0.t_trees(k, &mut on_trees!(seen, log, $dump)),
                CTerm::Fold(k) => it.0.t_fold(&mut fold_fn!(fc, $kids, $to_vec), k, &mut on_folds!(seen, log, fc)),
                CTerm::FoldPath(k) => it.0.t_fold_path(&mut fold_path_fn!(fc, $kids, $to_vec), k, &mut on_folds!(seen, log, fc)),
                CTerm::Iter(k) => {
                    while seen.elems.len() < k {
                        seen.hints.push(it.size_hint());
                        let Some(v) = it.next() else {
                            seen.ended = true;
                            if it.next().is_some() {
                                seen.wrong = Some("an element was yielded after the end".into());
                            }
                            break;
                        };
                        if it.current_depth() + 1 != it.current_path().len() {
                            seen.wrong = Some(format!("current_depth() {} with current_path() {:?}", it.current_depth(), it.current_path()));
                        }
                        seen.elems.push((it.current_path().to_vec(), v.id(), v.tag()));
                        seen.at.push((log.borrow().len(), 0));
                    }
                    if let (Some(a), false) = (then(), seen.ended) {
                        seen.went_on = true;
                        let mut rest = vec![];
                        seen.count = it.0.t_rest(a, &mut |v| rest.push((v.id(), v.tag())));
                        seen.rest_elems = rest;
                    }
                }
                CTerm::TreesAgain => {
                    seen.again = it.0.t_again();
                }
            }
            seen.fold_calls = std::mem::take(&mut *fc.borrow_mut());
            seen
        }
    };
}
fn again_gen<V: PV, C, I: TreeCollectionIterator<V, C>>(t: Trees<V, C, I>) -> Vec<(u64, u64)> {
    t.bfs_each().map(|v| (v.id(), v.tag())).collect()
}
fn again_bin<I>(_: I) -> Vec<(u64, u64)> {
    unreachable!()
}
fn gk(k: Vec<u64>) -> Vec<Option<u64>> {
    k.into_iter().map(Some).collect()
}
fn bk(k: [Option<u64>; 2]) -> Vec<Option<u64>> {
    k.to_vec()
}
cchain!(crun_gen, cterm_gen, CGen, TreeCollectionIterator, Vec<u64>, gk, dump_tree);
cchain!(crun_bin, cterm_bin, CBin, BinaryTreeCollectionIterator, [Option<u64>; 2], bk, dump_bin);

/// the bulk operations
macro_rules! each_fn {
    ($name:ident, [$($lt:tt)*], $v:ty, [$($nb:tt)*], [$($ctr:tt)*], $map:ident, $map_path:ident, $prune:ident, $prune_path:ident, $prune_depth:ident $([$($turbo:tt)*])?, $fold:ident, $fold_path:ident, $dump:ident, $kids:ty, $to_vec:expr) => {
        pub fn $name<$($lt)* N: $($nb)*, C: $($ctr)*>(c: C, op: Op, term: CTerm, roots: &Roots) -> CSeen
        where
            $v: PV,
        {
            let log = new_log();
            let fc: FoldLog = Default::default();
            let mut seen = CSeen::default();
            match (term, op) {
                (CTerm::Fold(k), _) => take(c.$fold(fold_fn!(fc, $kids, $to_vec)), k, &mut on_folds!(seen, log, fc)),
                (CTerm::FoldPath(k), _) => take(c.$fold_path(fold_path_fn!(fc, $kids, $to_vec)), k, &mut on_folds!(seen, log, fc)),
                (CTerm::Trees(k), Op::Map(salt)) => take(c.$map(f_map(0, &log, salt)), k, &mut on_trees!(seen, log, $dump)),
                (CTerm::Trees(k), Op::MapPath(salt)) => take(c.$map_path(f_map_path(0, &log, salt)), k, &mut on_trees!(seen, log, $dump)),
                (CTerm::Trees(k), Op::Prune { salt, den, root }) => take(c.$prune(c_prune(0, &log, roots, salt, den, root)), k, &mut on_trees!(seen, log, $dump)),
                (CTerm::Trees(k), Op::PrunePath { salt, den, root }) => take(c.$prune_path(c_prune_path(0, &log, roots, salt, den, root)), k, &mut on_trees!(seen, log, $dump)),
                (CTerm::Trees(k), Op::Depth(d)) => take(c.$prune_depth$(::<$($turbo)*>)?(d), k, &mut on_trees!(seen, log, $dump)),
                _ => unreachable!(),
            }
            seen.calls = std::mem::take(&mut *log.borrow_mut());
            seen.fold_calls = std::mem::take(&mut *fc.borrow_mut());
            seen
        }
    };
}
// prune_depth_each of owned generic collections has a type parameter it does not use
#[cfg(not(feature = "plain_depth"))]
each_fn!(e_own_gen, [], N::OwnedValue, [OwnedTreeNode], [OwnedIntoIteratorOfTrees<N>], map_each, map_path_each, prune_each, prune_path_each, prune_depth_each [()], fold_each, fold_path_each, dump_tree, Vec<u64>, gk);
#[cfg(feature = "plain_depth")]
each_fn!(e_own_gen, [], N::OwnedValue, [OwnedTreeNode], [OwnedIntoIteratorOfTrees<N>], map_each, map_path_each, prune_each, prune_path_each, prune_depth_each, fold_each, fold_path_each, dump_tree, Vec<u64>, gk);
each_fn!(e_own_bin, [], N::OwnedValue, [OwnedBinaryTreeNode], [OwnedIntoIteratorOfBinaryTrees<N>], map_each, map_path_each, prune_each, prune_path_each, prune_depth_each, fold_each, fold_path_each, dump_bin, [Option<u64>; 2], bk);
each_fn!(e_mut_gen, ['a,], N::MutBorrowedValue, ['a + MutBorrowedTreeNode<'a>], [MutBorrowedIntoIteratorOfTrees<'a, N>], map_each_mut, map_path_each_mut, prune_each_mut, prune_path_each_mut, prune_depth_each_mut, fold_each_mut, fold_path_each_mut, dump_tree, Vec<u64>, gk);
each_fn!(e_mut_bin, ['a,], N::MutBorrowedValue, ['a + MutBorrowedBinaryTreeNode<'a>], [MutBorrowedIntoIteratorOfBinaryTrees<'a, N>], map_each_mut, map_path_each_mut, prune_each_mut, prune_path_each_mut, prune_depth_each_mut, fold_each_mut, fold_path_each_mut, dump_bin, [Option<u64>; 2], bk);
each_fn!(e_ref_gen, ['a,], N::BorrowedValue, ['a + BorrowedTreeNode<'a>], [BorrowedIntoIteratorOfTrees<'a, N>], map_each_ref, map_path_each_ref, prune_each_ref, prune_path_each_ref, prune_depth_each_ref, fold_each_ref, fold_path_each_ref, dump_tree, Vec<u64>, gk);
each_fn!(e_ref_bin, ['a,], N::BorrowedValue, ['a + BorrowedBinaryTreeNode<'a>], [BorrowedIntoIteratorOfBinaryTrees<'a, N>], map_each_ref, map_path_each_ref, prune_each_ref, prune_path_each_ref, prune_depth_each_ref, fold_each_ref, fold_path_each_ref, dump_bin, [Option<u64>; 2], bk);

/// the same with other result types of the closure
macro_rules! each_as_fn {
    ($name:ident, [$($lt:tt)*], $v:ty, [$($nb:tt)*], [$($ctr:tt)*], $map:ident, $map_path:ident, $fold:ident, $fold_path:ident, $dump:ident, $kt:ident) => {
        pub fn $name<$($lt)* N: $($nb)*, C: $($ctr)*>(c: C, op: Op, term: CTerm, form: Form) -> CSeen
        where
            $v: PV,
        {
            let log = new_log();
            let fc: FoldLog = Default::default();
            let mut seen = CSeen::default();
            let f = fc.clone();
            let unit = move |kids: $kt<()>, p: Option<&[usize]>, v: $v| {
                tick(AT_CLOSURE);
                f.borrow_mut().push((p.map(|p| p.to_vec()), v.id(), v.tag(), kids.slots().into_iter().map(|k| k.map(|()| 0)).collect()));
            };
            let f = fc.clone();
            let large = move |kids: $kt<Big<u64>>, p: Option<&[usize]>, v: $v| {
                tick(AT_CLOSURE);
                let kids = kids.slots().into_iter().map(|k| k.map(unbig)).collect::<Vec<_>>();
                let h = fold_hash(v.id(), v.tag(), &kids);
                f.borrow_mut().push((p.map(|p| p.to_vec()), v.id(), v.tag(), kids));
                big(h)
            };
            match (term, op, form) {
                (CTerm::Fold(k), _, Form::Unit) => take(c.$fold(|k, v| unit(k, None, v)).map(|()| 0), k, &mut on_folds!(seen, log, fc)),
                (CTerm::Fold(k), _, Form::Big) => take(c.$fold(|k, v| large(k, None, v)).map(unbig), k, &mut on_folds!(seen, log, fc)),
                (CTerm::FoldPath(k), _, Form::Unit) => take(c.$fold_path(|k, p: &[usize], v| unit(k, Some(p), v)).map(|()| 0), k, &mut on_folds!(seen, log, fc)),
                (CTerm::FoldPath(k), _, Form::Big) => take(c.$fold_path(|k, p: &[usize], v| large(k, Some(p), v)).map(unbig), k, &mut on_folds!(seen, log, fc)),
                (CTerm::Trees(k), Op::Map(salt), Form::Unit) => {
                    let mut f = f_map(0, &log, salt);
                    take(c.$map(move |v| drop_to_nil(f(v))), k, &mut on_trees!(seen, log, $dump))
                }
                (CTerm::Trees(k), Op::Map(salt), Form::Big) => {
                    let mut f = f_map(0, &log, salt);
                    take(c.$map(move |v| big(f(v))), k, &mut on_trees!(seen, log, $dump))
                }
                (CTerm::Trees(k), Op::MapPath(salt), Form::Unit) => {
                    let mut f = f_map_path(0, &log, salt);
                    take(c.$map_path(move |p: &[usize], v| drop_to_nil(f(p, v))), k, &mut on_trees!(seen, log, $dump))
                }
                (CTerm::Trees(k), Op::MapPath(salt), Form::Big) => {
                    let mut f = f_map_path(0, &log, salt);
                    take(c.$map_path(move |p: &[usize], v| big(f(p, v))), k, &mut on_trees!(seen, log, $dump))
                }
                _ => unreachable!(),
            }
            seen.calls = std::mem::take(&mut *log.borrow_mut());
            seen.fold_calls = std::mem::take(&mut *fc.borrow_mut());
            seen
        }
    };
}
each_as_fn!(a_own_gen, [], N::OwnedValue, [OwnedTreeNode], [OwnedIntoIteratorOfTrees<N>], map_each, map_path_each, fold_each, fold_path_each, dump_tree, GenKids);
each_as_fn!(a_own_bin, [], N::OwnedValue, [OwnedBinaryTreeNode], [OwnedIntoIteratorOfBinaryTrees<N>], map_each, map_path_each, fold_each, fold_path_each, dump_bin, BinKids);
each_as_fn!(a_mut_gen, ['a,], N::MutBorrowedValue, ['a + MutBorrowedTreeNode<'a>], [MutBorrowedIntoIteratorOfTrees<'a, N>], map_each_mut, map_path_each_mut, fold_each_mut, fold_path_each_mut, dump_tree, GenKids);
each_as_fn!(a_mut_bin, ['a,], N::MutBorrowedValue, ['a + MutBorrowedBinaryTreeNode<'a>], [MutBorrowedIntoIteratorOfBinaryTrees<'a, N>], map_each_mut, map_path_each_mut, fold_each_mut, fold_path_each_mut, dump_bin, BinKids);
each_as_fn!(a_ref_gen, ['a,], N::BorrowedValue, ['a + BorrowedTreeNode<'a>], [BorrowedIntoIteratorOfTrees<'a, N>], map_each_ref, map_path_each_ref, fold_each_ref, fold_path_each_ref, dump_tree, GenKids);
each_as_fn!(a_ref_bin, ['a,], N::BorrowedValue, ['a + BorrowedBinaryTreeNode<'a>], [BorrowedIntoIteratorOfBinaryTrees<'a, N>], map_each_ref, map_path_each_ref, fold_each_ref, fold_path_each_ref, dump_bin, BinKids);

pub fn p_own_gen<N: OwnedTreeNode, C: OwnedIntoIteratorOfTrees<N>>(c: C, ops: &[Op], t: CTerm, r: &Roots) -> CSeen
where
    N::OwnedValue: PV,
{
    crun_gen(c.into_pipeline(), ops, t, r)
}
pub fn p_own_bin<N: OwnedBinaryTreeNode, C: OwnedIntoIteratorOfBinaryTrees<N>>(c: C, ops: &[Op], t: CTerm, r: &Roots) -> CSeen
where
    N::OwnedValue: PV,
{
    crun_bin(c.into_pipeline(), ops, t, r)
}
pub fn p_mut_gen<'a, N: 'a + MutBorrowedTreeNode<'a>, C: MutBorrowedIntoIteratorOfTrees<'a, N> + 'a>(c: C, ops: &[Op], t: CTerm, r: &Roots) -> CSeen
where
    N::MutBorrowedValue: PV,
{
    crun_gen(c.into_pipeline_mut(), ops, t, r)
}
pub fn p_mut_bin<'a, N: 'a + MutBorrowedBinaryTreeNode<'a>, C: MutBorrowedIntoIteratorOfBinaryTrees<'a, N> + 'a>(c: C, ops: &[Op], t: CTerm, r: &Roots) -> CSeen
where
    N::MutBorrowedValue: PV,
{
    crun_bin(c.into_pipeline_mut(), ops, t, r)
}
pub fn p_ref_gen<'a, N: 'a + BorrowedTreeNode<'a>, C: BorrowedIntoIteratorOfTrees<'a, N> + 'a>(c: C, ops: &[Op], t: CTerm, r: &Roots) -> CSeen
where
    N::BorrowedValue: PV,
{
    crun_gen(c.into_pipeline_ref(), ops, t, r)
}
pub fn p_ref_bin<'a, N: 'a + BorrowedBinaryTreeNode<'a>, C: BorrowedIntoIteratorOfBinaryTrees<'a, N> + 'a>(c: C, ops: &[Op], t: CTerm, r: &Roots) -> CSeen
where
    N::BorrowedValue: PV,
{
    crun_bin(c.into_pipeline_ref(), ops, t, r)
}

#[derive(Clone, Copy, Debug)]
pub enum CJob<'x> {
    Each(Op, CTerm),
    EachAs(Op, CTerm, Form),
    Pipe(&'x [Op], CTerm),
}

#[allow(unused_assignments)]
pub fn run_cjob(ms: &[Model], fam: Fam, own: Own, coll: Coll, job: CJob) -> Result<CSeen, String> {
    let roots: Roots = Rc::new(ms.iter().map(|m| m.nodes[0].id).collect());
    let r = &roots;
    let first_map = match job {
        CJob::Each(op, CTerm::Trees(_)) | CJob::EachAs(op, CTerm::Trees(_), _) => [op].iter().position(|o| o.is_map()),
        CJob::Each(..) | CJob::EachAs(..) => None,
        CJob::Pipe(ops, _) => ops.iter().position(|o| o.is_map()),
    };
    macro_rules! go {
        ($t:ty, $ref_coll:ident, $eo:ident, $em:ident, $er:ident, $ao:ident, $am:ident, $ar:ident, $po:ident, $pm:ident, $pr:ident) => {{
            let mut v: Vec<$t> = build_all(ms);
            let seen = match (own, job) {
                (Own::Owned, CJob::Each(op, t)) => with_owned_coll!(v, coll, c => $eo(c, op, t, r)),
                (Own::Owned, CJob::EachAs(op, t, f)) => with_owned_coll!(v, coll, c => $ao(c, op, t, f)),
                (Own::Owned, CJob::Pipe(ops, t)) => with_owned_coll!(v, coll, c => $po(c, ops, t, r)),
                (Own::Mut, _) => {
                    let s = match job {
                        CJob::Each(op, t) => with_mut_coll!(v, coll, c => $em(c, op, t, r)),
                        CJob::EachAs(op, t, f) => with_mut_coll!(v, coll, c => $am(c, op, t, f)),
                        CJob::Pipe(ops, t) => with_mut_coll!(v, coll, c => $pm(c, ops, t, r)),
                    };
                    after(&v, ms, &s.calls, first_map)?;
                    drop(v);
                    s
                }
                (Own::Ref, _) => {
                    let s = match job {
                        CJob::Each(op, t) => $ref_coll!(v, coll, c => $er(c, op, t, r)),
                        CJob::EachAs(op, t, f) => $ref_coll!(v, coll, c => $ar(c, op, t, f)),
                        CJob::Pipe(ops, t) => $ref_coll!(v, coll, c => $pr(c, ops, t, r)),
                    };
                    after(&v, ms, &[], None)?;
                    drop(v);
                    s
                }
            };
            seen
        }};
    }
    macro_rules! g {
        ($t:ty) => {
            go!($t, with_ref_gen_coll, e_own_gen, e_mut_gen, e_ref_gen, a_own_gen, a_mut_gen, a_ref_gen, p_own_gen, p_mut_gen, p_ref_gen)
        };
    }
    macro_rules! b {
        ($t:ty) => {
            go!($t, with_ref_bin_coll, e_own_bin, e_mut_bin, e_ref_bin, a_own_bin, a_mut_bin, a_ref_bin, p_own_bin, p_mut_bin, p_ref_bin)
        };
    }
    let seen = match fam {
        #[cfg(not(feature = "spies"))]
        "Tree" => g!(Tree<Tok>),
        #[cfg(not(feature = "spies"))]
        "ListNode" => g!(ListNode),
        "SpyNode" => g!(SpyNode),
        #[cfg(not(feature = "spies"))]
        "BinaryTree" => b!(BinaryTree<Tok>),
        _ => b!(SpyBin),
    };
    let (c, d, live, faults) = audit();
    if live > 0 || !faults.is_empty() {
        return Err(format!("{live} of {c} values still live afterwards ({d} dropped); {faults:?}"));
    }
    Ok(seen)
}
fn after<N: Build>(v: &[N], ms: &[Model], calls: &[Call], first_map: Option<usize>) -> R {
    let touched: HashSet<u64> = calls.iter().filter(|c| Some(c.stage) == first_map).map(|c| c.id).collect();
    if v.len() != ms.len() {
        return Err("the collection afterwards has another length".into());
    }
    for (t, (n, m)) in v.iter().zip(ms).enumerate() {
        let want: Vec<(Vec<usize>, u64)> = m
            .preorder()
            .into_iter()
            .map(|i| {
                let id = m.nodes[i].id;
                (m.nodes[i].path.clone(), if touched.contains(&id) { id + TOUCHED } else { id })
            })
            .collect();
        if n.dump() != want {
            return Err(format!("tree {t} afterwards does not hold exactly what the closures wrote"));
        }
    }
    Ok(())
}

/// what the stages must do with the whole list
pub struct CRef {
    pub rfs: Vec<Reference>,
    calls: Vec<Call>,
    /// calls made before each tree's first call
    start: Vec<usize>,
}
pub fn creference(ms: &[Model], ops: &[Op], renumber: bool) -> CRef {
    let mut place = Place { entered: vec![0; ops.len() + 1], index: 0, renumber };
    let mut c = CRef { rfs: vec![], calls: vec![], start: vec![] };
    for (t, m) in ms.iter().enumerate() {
        place.index = t;
        let rf = reference_at(m, ops, Some(&mut place));
        c.start.push(c.calls.len());
        c.calls.extend(rf.calls.iter().cloned());
        c.rfs.push(rf);
    }
    c
}
pub fn cjudge(ms: &[Model], rf: &CRef, term: CTerm, a: Option<Adapt>, seen: &CSeen) -> Result<u64, String> {
    if let Some(w) = &seen.wrong {
        return Err(w.clone());
    }
    // trees that remain
    let kept: Vec<usize> = (0..ms.len()).filter(|t| !rf.rfs[*t].out.is_empty()).collect();
    // stage calls made by the time a result may arrive, for the k-th remaining tree: at least all
    // of its own, at most up to the next element that comes out of the stages
    let upto = |k: usize| -> (usize, usize) {
        let t = kept[k];
        let lo = rf.start[t] + rf.rfs[t].calls.len();
        let hi = match kept.get(k + 1) {
            Some(n) => rf.start[*n] + rf.rfs[*n].calls_at[0],
            None => rf.calls.len(),
        };
        (lo, hi)
    };
    if seen.calls.len() > rf.calls.len() {
        return judge_calls(&seen.calls, &rf.calls).map(|_| 0);
    }
    judge_calls(&seen.calls, &rf.calls[..seen.calls.len()])?;
    if seen.ended || seen.went_on || term == CTerm::TreesAgain {
        judge_calls(&seen.calls, &rf.calls)?;
    }
    let hints = |n: usize| -> R {
        for (j, (lo, hi)) in seen.hints.iter().enumerate() {
            let rest = n.saturating_sub(j);
            if *lo > rest || hi.is_some_and(|h| h < rest) {
                return Err(format!("size_hint() before result {j} was ({lo}, {hi:?}) with {rest} left"));
            }
        }
        Ok(())
    };
    let counted = |want: Option<usize>| -> R {
        if want != seen.count {
            return Err(format!("count() of the rest gave {:?}, expected {want:?}", seen.count));
        }
        Ok(())
    };
    let check_take = |k: usize, got: usize| -> R {
        let want = k.min(kept.len());
        if got != want {
            return Err(format!("{got} results, expected {want}"));
        }
        if seen.ended != (k > kept.len()) {
            return Err("the end was reported at another place".into());
        }
        for (j, (c, _)) in seen.at.iter().enumerate() {
            let (lo, hi) = upto(j);
            if *c < lo || *c > hi {
                return Err(format!("result {j} arrived after {c} closure calls, expected {lo} to {hi} (one tree at a time)"));
            }
        }
        hints(kept.len())?;
        if want == 0 && k == 0 && !seen.calls.is_empty() && !seen.went_on {
            return Err("closures were called before any result was asked for".into());
        }
        Ok(())
    };
    match term {
        CTerm::Trees(k) => {
            check_take(k, seen.trees.len())?;
            for (j, got) in seen.trees.iter().enumerate() {
                let t = kept[j];
                let want: Vec<_> = rf.rfs[t].dump(&ms[t]).into_iter().map(|(p, i, g)| (p[1..].to_vec(), i, g)).collect();
                judge_dump(&format!("result {j} (tree {t})"), Some(got), Some(&want))?;
            }
            if let (true, Some(a)) = (seen.went_on, a) {
                let (want, n) = adapted(&kept[k.min(kept.len())..], a);
                counted(n)?;
                if seen.rest_trees.len() != want.len() {
                    return Err(format!("{a:?} after {k} results gave {} trees, expected {}", seen.rest_trees.len(), want.len()));
                }
                for (got, t) in seen.rest_trees.iter().zip(want) {
                    let want: Vec<_> = rf.rfs[t].dump(&ms[t]).into_iter().map(|(p, i, g)| (p[1..].to_vec(), i, g)).collect();
                    judge_dump(&format!("tree {t} ({a:?} after {k})"), Some(got), Some(&want))?;
                }
            }
        }
        CTerm::Fold(k) | CTerm::FoldPath(k) => {
            check_take(k, seen.folds.len())?;
            let mut from = 0;
            for (j, (got, at)) in seen.folds.iter().zip(&seen.at).enumerate() {
                let t = kept[j];
                let want = rf.rfs[t].folds(&ms[t])[0];
                judge_folds(&ms[t], &rf.rfs[t], matches!(term, CTerm::FoldPath(_)), &seen.fold_calls[from..at.1]).map_err(|e| format!("tree {t}: {e}"))?;
                from = at.1;
                if *got != want {
                    return Err(format!("fold of tree {t} returned {got}, expected {want}"));
                }
            }
            if let (true, Some(a)) = (seen.went_on, a) {
                let rest = &kept[k.min(kept.len())..];
                for t in rest {
                    let to = (from + rf.rfs[*t].out.len()).min(seen.fold_calls.len());
                    judge_folds(&ms[*t], &rf.rfs[*t], matches!(term, CTerm::FoldPath(_)), &seen.fold_calls[from..to]).map_err(|e| format!("tree {t} ({a:?} after {k}): {e}"))?;
                    from = to;
                }
                let (want, n) = adapted(rest, a);
                counted(n)?;
                let want: Vec<u64> = want.into_iter().map(|t| rf.rfs[t].folds(&ms[t])[0]).collect();
                if want != seen.rest_folds {
                    return Err(format!("{a:?} after {k} results gave {:?}, expected {want:?}", seen.rest_folds));
                }
            }
            if from != seen.fold_calls.len() {
                return Err("the fold closure was called for a tree whose result did not come out".into());
            }
        }
        CTerm::Iter(k) => {
            let all: Vec<(Vec<usize>, u64, u64)> = rf.rfs.iter().zip(ms).flat_map(|(r, m)| r.dump(m)).collect();
            let ats: Vec<usize> = rf.rfs.iter().zip(&rf.start).flat_map(|(r, s)| r.calls_at.iter().map(move |c| c + s)).collect();
            let n = k.min(all.len());
            judge_dump("elements", Some(&seen.elems), Some(&all[..n]))?;
            hints(all.len())?;
            if let (true, Some(a)) = (seen.went_on, a) {
                let rest: Vec<(u64, u64)> = all[n..].iter().map(|(_, i, t)| (*i, *t)).collect();
                let (want, c) = adapted(&rest, a);
                counted(c)?;
                if want != seen.rest_elems {
                    return Err(format!("{a:?} after {n} elements gave {:?}, expected {want:?}", seen.rest_elems));
                }
            }
            for (j, (c, _)) in seen.at.iter().enumerate() {
                if *c != ats[j] {
                    return Err(format!("element {j} arrived after {c} closure calls, expected {}", ats[j]));
                }
            }
        }
        CTerm::TreesAgain => {
            let mut want = vec![];
            for t in &kept {
                // breadth first over the resulting tree
                let rf = &rf.rfs[*t];
                let mut q = std::collections::VecDeque::from([0usize]);
                while let Some(o) = q.pop_front() {
                    want.push((ms[*t].nodes[rf.out[o].0].id, rf.out[o].2));
                    q.extend(rf.kids[o].iter().flatten());
                }
            }
            if want != seen.again {
                return Err(format!("trees() used as a collection gave {:?}, expected {want:?}", seen.again));
            }
        }
    }
    Ok((seen.calls.len() + seen.fold_calls.len() + seen.trees.len() + seen.elems.len() + seen.again.len() + 1) as u64)
}

/// results without a size only show how many there are and in which slots: the rest is filled in
fn fill(ms: &[Model], rf: &CRef, term: CTerm, seen: &mut CSeen) {
    if let CTerm::Trees(_) = term {
        for (t, got) in seen.trees.iter_mut().enumerate().take(ms.len()) {
            let want = rf.rfs[t].dump(&ms[t]);
            let at: std::collections::HashMap<&[usize], (u64, u64)> = want.iter().map(|(p, i, g)| (&p[1..], (*i, *g))).collect();
            for (p, id, tag) in got {
                if let Some(v) = at.get(&p[..]) {
                    (*id, *tag) = *v;
                }
            }
        }
        return;
    }
    let mut slots = std::collections::HashMap::new();
    for (m, rf) in ms.iter().zip(&rf.rfs) {
        let folds = rf.folds(m);
        for o in 0..rf.out.len() {
            slots.insert(m.nodes[rf.out[o].0].id, rf.kids[o].iter().map(|k| k.map(|k| folds[k])).collect::<Vec<_>>());
        }
    }
    for (_, id, _, kids) in seen.fold_calls.iter_mut() {
        if let Some(want) = slots.get(id) {
            if kids.len() == want.len() && kids.iter().zip(want).all(|(a, b)| a.is_some() == b.is_some()) {
                *kids = want.clone();
            }
        }
    }
    for (t, got) in seen.folds.iter_mut().enumerate().take(ms.len()) {
        *got = rf.rfs[t].folds(&ms[t])[0];
    }
}

pub struct CPipes {
    quick: bool,
    src: Lists,
}
impl CPipes {
    pub fn with(src: Lists) -> CPipes {
        CPipes { quick: true, src }
    }
    pub fn new(quick: bool) -> CPipes {
        let src = if quick { Lists::new(3, 3, 2, 12_000, 12) } else { Lists::new(4, 4, 3, 100_000, 20) };
        CPipes { quick, src }
    }
}
pub fn cfams(binary: bool) -> &'static [Fam] {
    if binary {
        &["BinaryTree", "SpyBin"]
    } else {
        &["Tree", "ListNode", "SpyNode"]
    }
}
pub fn random_list_op(r: &mut Rng, height: usize) -> Op {
    let mut op = random_op(r, height);
    let roots = r.chance(1, 2);
    match &mut op {
        Op::Prune { root, .. } | Op::PrunePath { root, .. } => *root = roots,
        _ => {}
    }
    op
}

impl Prop for CPipes {
    fn cases(&self) -> u64 {
        self.src.cases()
    }
    fn rule(&self) -> String {
        format!("{}; each list in Vec, array, slice, slice iterators and a user-defined collection, each node family, owned/mut/ref: every *_each operation with seeded closures (roots pruned or not), and random chains of 0 to 6 collection pipeline stages ended by trees(), fold_trees, fold_path, trees() reused as a collection, or iteration with current_path()/current_depth(); stopped after every/random numbers of results, or continued there through for_each/fold/nth/count/find/last/collect; size_hint checked; closure calls, their paths and when each result arrives compared with the per-tree semantics; distinct by (list shape, family, ownership, collection, operations); non-trivial: at least 2 trees", self.src.text())
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        let (bin, ms, mut r) = self.src.get("P15", seed, i);
        let total: usize = ms.iter().map(|m| m.len()).sum();
        let h = ms.iter().map(|m| m.height()).max().unwrap_or(0);
        cx.peak("largest_list", ms.len() as u64);
        let lk = lists_key(&ms);
        let big = total > 1000;
        for (fi, fam) in cfams(bin).iter().enumerate() {
            for own in OWNS {
                let cs = colls(bin, own);
                let picked: Vec<Coll> = if ms.len() <= 3 && !big { cs.to_vec() } else { vec![*r.pick(cs)] };
                for coll in picked {
                    let mut jobs: Vec<(Vec<Op>, CTerm, bool, Option<Form>)> = vec![];
                    let root = r.chance(1, 2);
                    let den = *r.pick(&[1, 2, 3, 5]);
                    let singles = [
                        Op::Map(r.next()),
                        Op::MapPath(r.next()),
                        Op::Prune { salt: r.next(), den, root },
                        Op::PrunePath { salt: r.next(), den: *r.pick(&[2, 3, 5]), root },
                        Op::Depth(r.range(0, h + 1)),
                    ];
                    let kmax = ms.len() + 1;
                    let mut stop = |r: &mut Rng| if r.chance(1, 3) { r.range(0, kmax) } else { usize::MAX };
                    for op in singles {
                        if big && r.chance(2, 3) {
                            continue;
                        }
                        jobs.push((vec![op], CTerm::Trees(stop(&mut r)), true, None));
                    }
                    jobs.push((vec![], CTerm::Fold(stop(&mut r)), true, None));
                    jobs.push((vec![], CTerm::FoldPath(stop(&mut r)), true, None));
                    if !big {
                        let form = *r.pick(&[Form::Unit, Form::Big]);
                        jobs.push(match r.below(4) {
                            0 => (vec![Op::Map(r.next())], CTerm::Trees(stop(&mut r)), true, Some(form)),
                            1 => (vec![Op::MapPath(r.next())], CTerm::Trees(stop(&mut r)), true, Some(form)),
                            2 => (vec![], CTerm::Fold(stop(&mut r)), true, Some(form)),
                            _ => (vec![], CTerm::FoldPath(stop(&mut r)), true, Some(form)),
                        });
                    }
                    for _ in 0..if big { 1 } else if self.quick { 3 } else { 6 } {
                        let len = r.below(7).min(r.below(8));
                        let ops: Vec<Op> = (0..len).map(|_| random_list_op(&mut r, h)).collect();
                        let term = match r.below(if bin { 4 } else { 5 }) {
                            0 => CTerm::Trees(stop(&mut r)),
                            1 => CTerm::Fold(stop(&mut r)),
                            2 => CTerm::FoldPath(stop(&mut r)),
                            3 => CTerm::Iter(if r.chance(1, 3) { r.range(0, total + 1) } else { usize::MAX }),
                            _ => CTerm::TreesAgain,
                        };
                        jobs.push((ops, term, false, None));
                    }
                    for (ops, term, each, form) in jobs {
                        if form.is_some() {
                            cx.count("with_zero_sized_or_large_results", 1);
                        }
                        // stopped before the end, the run may be continued through another entry point
                        let a = (!each && !matches!(term, CTerm::TreesAgain | CTerm::Trees(usize::MAX) | CTerm::Fold(usize::MAX) | CTerm::FoldPath(usize::MAX) | CTerm::Iter(usize::MAX)) && r.chance(2, 3)).then(|| Adapt::any(&mut r));
                        let op = *ops.first().unwrap_or(&Op::Depth(0));
                        let job = if let Some(f) = form { CJob::EachAs(op, term, f) } else if each { CJob::Each(op, term) } else { CJob::Pipe(&ops, term) };
                        cx.eval(
                            key(&[lk, fi as u64, own as u64, coll as u64, each as u64, skey(&format!("{ops:?}{term:?}{a:?}{form:?}"))]),
                            ms.len() > 1,
                            || format!("{fam} {own:?} in {coll:?}: {} {ops:?} then {term:?}{} on {}", if let Some(f) = form { if f == Form::Unit { "bulk operation with zero-sized results" } else { "bulk operation with large results" } } else if each { "bulk operation" } else { "pipeline" }, a.map_or(String::new(), |a| format!(" and {a:?}")), show(&ms)),
                            || {
                                let mut seen = match a {
                                    Some(a) => and_then(a, || run_cjob(&ms, fam, own, coll, job)),
                                    None => run_cjob(&ms, fam, own, coll, job),
                                }?;
                                let rf = creference(&ms, &ops, false);
                                if form == Some(Form::Unit) {
                                    fill(&ms, &rf, term, &mut seen);
                                }
                                let res = cjudge(&ms, &rf, term, a, &seen);
                                if bin && res.is_err() && ops.iter().any(|o| matches!(o, Op::Prune { root: true, .. } | Op::PrunePath { root: true, .. })) {
                                    // after pruned roots, counting the remaining trees is as good
                                    return cjudge(&ms, &creference(&ms, &ops, true), term, a, &seen).or(res);
                                }
                                res
                            },
                        )?;
                    }
                }
            }
        }
        Ok(())
    }
}
