//! Pipeline stages: reference semantics, call logs, and type-erased pipelines so that random chains of
//! stages can be built at run time.
use crate::engine::{key, skey};
use crate::model::*;
use crate::nodes::*;
use crate::rng::Rng;
use crate::tok::*;
use crate::traverse::Adapt;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;
use tree_iterators_rs::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    /// prune the nodes the salted hash picks, one in `den`; the root only when `root`
    Prune { salt: u64, den: u64, root: bool },
    PrunePath { salt: u64, den: u64, root: bool },
    Depth(usize),
    Map(u64),
    MapPath(u64),
}
impl Op {
    pub fn is_map(&self) -> bool {
        matches!(self, Op::Map(_) | Op::MapPath(_))
    }
}
pub fn random_op(r: &mut Rng, height: usize) -> Op {
    let salt = r.next();
    let den = *r.pick(&[1, 2, 2, 3, 3, 5, 9]);
    let root = r.chance(1, 40);
    match r.below(10) {
        0..=2 => Op::Prune { salt, den, root },
        3..=5 => Op::PrunePath { salt, den, root },
        6 => Op::Depth(if r.chance(1, 10) { *r.pick(&[usize::MAX, height + 1]) } else { r.range(0, height.max(1)) }),
        7 => Op::Map(salt),
        _ => Op::MapPath(salt),
    }
}
/// a deterministic verdict of a prune closure on a value
pub fn picks(salt: u64, den: u64, root: bool, id: u64, tag: u64, is_root: bool) -> bool {
    if is_root {
        return root;
    }
    key(&[salt, id, tag]) % den == 0
}
pub fn retag(salt: u64, id: u64, tag: u64) -> u64 {
    key(&[salt, id, tag]) | 1
}

/// one closure call
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub stage: usize,
    pub path: Option<Vec<usize>>,
    pub id: u64,
    pub tag: u64,
}
pub type Log = Rc<RefCell<Vec<Call>>>;
pub fn new_log() -> Log {
    Rc::new(RefCell::new(Vec::new()))
}

/// a value in a pipeline: which node it came from and which maps it went through
pub trait PV: Ident {
    fn tag(&self) -> u64 {
        0
    }
    /// mutable values are written through, so that the write shows in the tree afterwards
    fn touch(&mut self) {}
}
pub const TOUCHED: u64 = 1 << 40;
impl PV for Tok {}
impl PV for &Tok {}
impl PV for ByVal {}
impl PV for &mut Tok {
    fn touch(&mut self) {
        let id = self.id();
        self.set(id + TOUCHED)
    }
}
#[derive(Debug)]
pub struct Tagged {
    pub tok: Tok,
    pub tag: u64,
}
impl Ident for Tagged {
    fn id(&self) -> u64 {
        self.tok.id()
    }
}
impl PV for Tagged {
    fn tag(&self) -> u64 {
        self.tag
    }
}

/// What a list of stages must do with a tree.
pub struct Reference {
    /// closure calls of the stages, in order
    pub calls: Vec<Call>,
    /// for each element coming out: model node, path in the final tree, tag
    pub out: Vec<(usize, Vec<usize>, u64)>,
    /// number of calls made when that element comes out
    pub calls_at: Vec<usize>,
    /// original nodes never reached (below a pruned node or below a depth limit)
    pub reached: Vec<bool>,
    /// per element: slots of its children in the final tree (indexes into `out`)
    pub kids: Vec<Vec<Option<usize>>>,
}
pub fn reference(m: &Model, ops: &[Op]) -> Reference {
    reference_at(m, ops, None)
}
/// the trees of a collection before this one: how many roots entered each stage, and this tree's index
pub struct Place {
    pub entered: Vec<usize>,
    pub index: usize,
    /// paths of binary trees start with the index among the trees still there (instead of the original index)
    pub renumber: bool,
}
/// in a collection roots are pruned by the same hash, when the stage prunes roots at all
pub fn picks_in_list(salt: u64, den: u64, root: bool, id: u64, tag: u64, is_root: bool) -> bool {
    (root || !is_root) && key(&[salt, id, tag]) % den == 0
}
pub fn reference_at(m: &Model, ops: &[Op], mut place: Option<&mut Place>) -> Reference {
    let in_list = place.is_some();
    let picks = |salt, den, root, id, tag, is_root| {
        if in_list {
            picks_in_list(salt, den, root, id, tag, is_root)
        } else {
            picks(salt, den, root, id, tag, is_root)
        }
    };
    let ns = ops.len();
    // per node: path at the entrance of each stage (and at the exit of the last one)
    let mut paths: Vec<Option<Vec<Vec<usize>>>> = vec![None; m.len()];
    let mut entered: Vec<Vec<usize>> = vec![vec![0; ns + 1]; m.len()];
    let limit = ops.iter().filter_map(|o| if let Op::Depth(d) = o { Some(*d) } else { None }).min().unwrap_or(usize::MAX);
    let mut rf = Reference { calls: vec![], out: vec![], calls_at: vec![], reached: vec![false; m.len()], kids: vec![] };
    let mut out_of: Vec<Option<usize>> = vec![None; m.len()];
    for i in m.preorder() {
        let depth = m.depth(i);
        let parent = m.nodes[i].parent;
        if let Some(p) = parent {
            if paths[p].is_none() || depth > limit {
                continue;
            }
        }
        rf.reached[i] = true;
        let slot = m.nodes[i].path.last().copied().unwrap_or(0);
        let mut mine: Vec<Vec<usize>> = vec![];
        let mut tag = 0;
        let id = m.nodes[i].id;
        let mut alive = true;
        for s in 0..=ns {
            let path = match parent {
                None => match place.as_mut() {
                    None => vec![],
                    Some(pl) => {
                        let seg = if m.binary && !pl.renumber { pl.index } else { pl.entered[s] };
                        pl.entered[s] += 1;
                        vec![seg]
                    }
                },
                Some(p) => {
                    let seg = if m.binary { slot } else { entered[p][s] };
                    entered[p][s] += 1;
                    let mut v = paths[p].as_ref().unwrap()[s].clone();
                    v.push(seg);
                    v
                }
            };
            if s < ns {
                let mut call = |path: Option<Vec<usize>>, tag: u64| rf.calls.push(Call { stage: s, path, id, tag });
                match ops[s] {
                    Op::Prune { salt, den, root } => {
                        call(None, tag);
                        alive = !picks(salt, den, root, id, tag, parent.is_none());
                    }
                    Op::PrunePath { salt, den, root } => {
                        call(Some(path.clone()), tag);
                        alive = !picks(salt, den, root, id, tag, parent.is_none());
                    }
                    Op::Depth(_) => {}
                    Op::Map(salt) => {
                        call(None, tag);
                        tag = retag(salt, id, tag);
                    }
                    Op::MapPath(salt) => {
                        call(Some(path.clone()), tag);
                        tag = retag(salt, id, tag);
                    }
                }
            }
            mine.push(path);
            if !alive {
                break;
            }
        }
        if alive {
            let path = mine.last().unwrap().clone();
            let o = rf.out.len();
            if let Some(p) = parent {
                let po = out_of[p].unwrap();
                if m.binary {
                    rf.kids[po][slot] = Some(o);
                } else {
                    rf.kids[po].push(Some(o));
                }
            }
            out_of[i] = Some(o);
            rf.kids.push(if m.binary { vec![None, None] } else { vec![] });
            rf.out.push((i, path, tag));
            rf.calls_at.push(rf.calls.len());
            paths[i] = Some(mine);
        }
    }
    rf
}
impl Reference {
    /// expected fold result of each element (by its children's results in order)
    pub fn folds(&self, m: &Model) -> Vec<u64> {
        let mut v = vec![0u64; self.out.len()];
        for o in (0..self.out.len()).rev() {
            let kids: Vec<Option<u64>> = self.kids[o].iter().map(|k| k.map(|k| v[k])).collect();
            v[o] = fold_hash(m.nodes[self.out[o].0].id, self.out[o].2, &kids);
        }
        v
    }
    pub fn dump(&self, m: &Model) -> Vec<(Vec<usize>, u64, u64)> {
        self.out.iter().map(|(i, p, t)| (p.clone(), m.nodes[*i].id, *t)).collect()
    }
}
pub fn fold_hash(id: u64, tag: u64, kids: &[Option<u64>]) -> u64 {
    let mut v = vec![id, tag, kids.len() as u64];
    v.extend(kids.iter().flat_map(|k| [k.is_some() as u64, k.unwrap_or(0)]));
    key(&v)
}

// ------------------------------------------------------------------------- type-erased pipelines

pub type FPrune<'a, V> = Box<dyn FnMut(&V) -> bool + 'a>;
pub type FPrunePath<'a, V> = Box<dyn FnMut(&[usize], &V) -> bool + 'a>;
pub type FMap<'a, V> = Box<dyn FnMut(V) -> Tagged + 'a>;
pub type FMapPath<'a, V> = Box<dyn FnMut(&[usize], V) -> Tagged + 'a>;

/// consumes an iterator through one of the entry points of its trait
pub fn adapt_rest<I: Iterator>(mut it: I, a: Adapt, mut sink: impl FnMut(I::Item)) -> Option<usize> {
    match a {
        Adapt::ForEach | Adapt::ForEachMut => it.for_each(sink),
        Adapt::Fold | Adapt::FoldMut => it.fold((), |_, v| sink(v)),
        Adapt::Collect => it.collect::<Vec<_>>().into_iter().for_each(sink),
        Adapt::Nth(k) => {
            while let Some(v) = it.nth(k) {
                sink(v)
            }
        }
        Adapt::Find => {
            while let Some(v) = it.find(|_| true) {
                sink(v)
            }
        }
        Adapt::Last => it.last().into_iter().for_each(sink),
        Adapt::Count => return Some(it.count()),
    }
    None
}
/// what `adapt_rest` must deliver
pub fn adapted<T: Clone>(rest: &[T], a: Adapt) -> (Vec<T>, Option<usize>) {
    match a {
        Adapt::ForEach | Adapt::Collect | Adapt::Fold | Adapt::Find | Adapt::ForEachMut | Adapt::FoldMut => (rest.to_vec(), None),
        Adapt::Nth(k) => (rest.iter().skip(k).step_by(k + 1).cloned().collect(), None),
        Adapt::Last => (rest.last().into_iter().cloned().collect(), None),
        Adapt::Count => (vec![], Some(rest.len())),
    }
}

/// Type-erased pipelines. What is called on an erased pipeline is forwarded to the library's own type,
/// so that methods the library overrides on its types are reached: endings always, stages from every
/// second stage on (`full` knows the type of its pipeline when a stage is added, `leaf` does not, and
/// each leads to the other).
macro_rules! dyn_pipe {
    ($stage:ident, $full:ident, $leaf:ident, $name:ident, $tr:ident, $tree:ident, $kids:ty) => {
        pub trait $stage<'a, V> {
            fn next_value(&mut self) -> Option<V>;
            fn nth_value(&mut self, n: usize) -> Option<V>;
            fn hint(&self) -> (usize, Option<usize>);
            fn path(&self) -> &[usize];
            fn depth(&self) -> usize;
            fn prune_here(&mut self);
            fn s_prune(self: Box<Self>, f: FPrune<'a, V>) -> $name<'a, V>;
            fn s_prune_path(self: Box<Self>, f: FPrunePath<'a, V>) -> $name<'a, V>;
            fn s_depth(self: Box<Self>, d: usize) -> $name<'a, V>;
            fn s_map(self: Box<Self>, f: FMap<'a, V>) -> $name<'a, Tagged>;
            fn s_map_path(self: Box<Self>, f: FMapPath<'a, V>) -> $name<'a, Tagged>;
            fn t_collect(self: Box<Self>) -> Option<$tree<V>>;
            fn t_fold(self: Box<Self>, f: &mut dyn FnMut($kids, V) -> u64) -> Option<u64>;
            fn t_fold_path(self: Box<Self>, f: &mut dyn FnMut($kids, &[usize], V) -> u64) -> Option<u64>;
            fn t_rest(self: Box<Self>, a: Adapt, sink: &mut dyn FnMut(V)) -> Option<usize>;
        }
        pub struct $full<I, C>(I, PhantomData<C>);
        pub struct $leaf<I, C>(I, PhantomData<C>);
        dyn_pipe!(@imp $stage, $full, $name, $tr, $tree, $kids, |x| x.0, leaf);
        dyn_pipe!(@imp $stage, $leaf, $name, $tr, $tree, $kids, |x| $name(x), full);
        pub struct $name<'a, V>(pub Box<dyn $stage<'a, V> + 'a>);
        impl<'a, V: 'a> $name<'a, V> {
            pub fn full<C: 'a>(i: impl $tr<V, C> + 'a) -> Self {
                $name(Box::new($full(i, PhantomData)))
            }
            pub fn leaf<C: 'a>(i: impl $tr<V, C> + 'a) -> Self {
                $name(Box::new($leaf(i, PhantomData)))
            }
        }
        impl<V> Iterator for $name<'_, V> {
            type Item = V;
            fn next(&mut self) -> Option<V> {
                self.0.next_value()
            }
            fn nth(&mut self, n: usize) -> Option<V> {
                self.0.nth_value(n)
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.0.hint()
            }
        }
        impl<V> TreeIteratorBase<V, ()> for $name<'_, V> {
            fn current_path(&self) -> &[usize] {
                self.0.path()
            }
            fn current_depth(&self) -> usize {
                self.0.depth()
            }
            fn prune_current_subtree(&mut self) {
                self.0.prune_here()
            }
        }
        impl<V> $tr<V, ()> for $name<'_, V> {}
    };
    (@imp $stage:ident, $er:ident, $name:ident, $tr:ident, $tree:ident, $kids:ty, |$x:ident| $inner:expr, $next:ident) => {
        impl<'a, V: 'a, C: 'a, I: $tr<V, C> + 'a> $stage<'a, V> for $er<I, C> {
            fn next_value(&mut self) -> Option<V> {
                self.0.next()
            }
            fn nth_value(&mut self, n: usize) -> Option<V> {
                self.0.nth(n)
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
            fn path(&self) -> &[usize] {
                self.0.current_path()
            }
            fn depth(&self) -> usize {
                self.0.current_depth()
            }
            fn prune_here(&mut self) {
                self.0.prune_current_subtree()
            }
            fn s_prune(self: Box<Self>, f: FPrune<'a, V>) -> $name<'a, V> {
                let $x = self;
                $name::$next($inner.prune(f))
            }
            fn s_prune_path(self: Box<Self>, f: FPrunePath<'a, V>) -> $name<'a, V> {
                let $x = self;
                $name::$next($inner.prune_path(f))
            }
            fn s_depth(self: Box<Self>, d: usize) -> $name<'a, V> {
                let $x = self;
                $name::$next($inner.prune_depth(d))
            }
            fn s_map(self: Box<Self>, f: FMap<'a, V>) -> $name<'a, Tagged> {
                let $x = self;
                $name::$next($inner.map_tree(f))
            }
            fn s_map_path(self: Box<Self>, f: FMapPath<'a, V>) -> $name<'a, Tagged> {
                let $x = self;
                $name::$next($inner.map_path(f))
            }
            fn t_collect(self: Box<Self>) -> Option<$tree<V>> {
                self.0.collect_tree()
            }
            fn t_fold(self: Box<Self>, f: &mut dyn FnMut($kids, V) -> u64) -> Option<u64> {
                self.0.fold_tree(f)
            }
            fn t_fold_path(self: Box<Self>, f: &mut dyn FnMut($kids, &[usize], V) -> u64) -> Option<u64> {
                self.0.fold_path(f)
            }
            fn t_rest(self: Box<Self>, a: Adapt, sink: &mut dyn FnMut(V)) -> Option<usize> {
                adapt_rest(self.0, a, sink)
            }
        }
    };
}
dyn_pipe!(GenStage, GenFull, GenLeaf, DynGen, TreeIterator, Tree, Vec<u64>);
dyn_pipe!(BinStage, BinFull, BinLeaf, DynBin, BinaryTreeIterator, BinaryTree, [Option<u64>; 2]);

// closures used by the stages
pub fn f_prune<V: PV>(s: usize, log: &Log, salt: u64, den: u64, root: bool) -> impl FnMut(&V) -> bool {
    let log = log.clone();
    let mut first = true;
    move |v: &V| {
        let is_root = std::mem::replace(&mut first, false);
        tick(AT_CLOSURE);
        log.borrow_mut().push(Call { stage: s, path: None, id: v.id(), tag: v.tag() });
        picks(salt, den, root, v.id(), v.tag(), is_root)
    }
}
pub fn f_prune_path<V: PV>(s: usize, log: &Log, salt: u64, den: u64, root: bool) -> impl FnMut(&[usize], &V) -> bool {
    let log = log.clone();
    let mut first = true;
    move |p: &[usize], v: &V| {
        let is_root = std::mem::replace(&mut first, false);
        tick(AT_CLOSURE);
        log.borrow_mut().push(Call { stage: s, path: Some(p.to_vec()), id: v.id(), tag: v.tag() });
        picks(salt, den, root, v.id(), v.tag(), is_root)
    }
}
pub fn tagged<V: PV>(mut v: V, salt: u64) -> Tagged {
    let t = Tagged { tok: Tok::new(v.id()), tag: retag(salt, v.id(), v.tag()) };
    v.touch();
    t
}
pub fn f_map<V: PV>(s: usize, log: &Log, salt: u64) -> impl FnMut(V) -> Tagged {
    let log = log.clone();
    move |v: V| {
        tick(AT_CLOSURE);
        log.borrow_mut().push(Call { stage: s, path: None, id: v.id(), tag: v.tag() });
        tagged(v, salt)
    }
}
pub fn f_map_path<V: PV>(s: usize, log: &Log, salt: u64) -> impl FnMut(&[usize], V) -> Tagged {
    let log = log.clone();
    move |p: &[usize], v: V| {
        tick(AT_CLOSURE);
        log.borrow_mut().push(Call { stage: s, path: Some(p.to_vec()), id: v.id(), tag: v.tag() });
        tagged(v, salt)
    }
}

/// how a pipeline is consumed
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Term {
    Collect,
    Fold,
    FoldPath,
    /// plain iteration with current_path/current_depth, at most so many elements
    Iter(usize),
    /// so many elements, and the rest through another entry point of the Iterator trait
    Then(usize, Adapt),
    /// every element kept; a panic out of next() is caught and the iteration goes on
    Catch,
}
#[derive(Default)]
pub struct Seen {
    pub calls: Vec<Call>,
    /// collected tree / iterated elements: path, id, tag
    pub dump: Option<Vec<(Vec<usize>, u64, u64)>>,
    pub fold: Option<u64>,
    /// fold closure calls: path, id, tag, children results
    pub fold_calls: Vec<(Option<Vec<usize>>, u64, u64, Vec<Option<u64>>)>,
    pub depth_mismatch: Option<String>,
    /// size_hint() before each element
    pub hints: Vec<(usize, Option<usize>)>,
    /// after Term::Then: elements, count
    pub rest: Vec<(u64, u64)>,
    pub count: Option<usize>,
}

pub fn dump_tree<T: PV>(t: &Tree<T>) -> Vec<(Vec<usize>, u64, u64)> {
    let mut out = vec![];
    let mut st = vec![(vec![], t)];
    while let Some((p, n)) = st.pop() {
        out.push((p.clone(), n.value.id(), n.value.tag()));
        for (i, k) in n.children.iter().enumerate().rev() {
            let mut q = p.clone();
            q.push(i);
            st.push((q, k));
        }
    }
    out
}
pub fn dump_bin<T: PV>(t: &BinaryTree<T>) -> Vec<(Vec<usize>, u64, u64)> {
    let mut out = vec![];
    let mut st = vec![(vec![], t)];
    while let Some((p, n)) = st.pop() {
        out.push((p.clone(), n.value.id(), n.value.tag()));
        for (i, k) in [(1, &n.right), (0, &n.left)] {
            if let Some(k) = k {
                let mut q = p.clone();
                q.push(i);
                st.push((q, k));
            }
        }
    }
    out
}

macro_rules! chain {
    ($run:ident, $term:ident, $dyn:ident, $tr:ident, $kids:ty, $to_vec:expr, $dump:ident) => {
        /// builds the chain and consumes it
        pub fn $run<'a, V: PV + 'a, C: 'a>(it: impl $tr<V, C> + 'a, ops: &[Op], term: Term) -> Seen {
            let log = new_log();
            let mut seen = {
                // either half of the chains: see dyn_pipe
                let even = key(&[skey(&format!("{ops:?}{term:?}"))]) % 2 == 0;
                let mut raw = if even { $dyn::full(it) } else { $dyn::leaf(it) };
                let mut s = 0;
                while s < ops.len() && !ops[s].is_map() {
                    raw = match ops[s] {
                        Op::Prune { salt, den, root } => raw.0.s_prune(Box::new(f_prune(s, &log, salt, den, root))),
                        Op::PrunePath { salt, den, root } => raw.0.s_prune_path(Box::new(f_prune_path(s, &log, salt, den, root))),
                        Op::Depth(d) => raw.0.s_depth(d),
                        _ => unreachable!(),
                    };
                    s += 1;
                }
                if s == ops.len() {
                    $term(raw, term)
                } else {
                    let mut t = match ops[s] {
                        Op::Map(salt) => raw.0.s_map(Box::new(f_map(s, &log, salt))),
                        Op::MapPath(salt) => raw.0.s_map_path(Box::new(f_map_path(s, &log, salt))),
                        _ => unreachable!(),
                    };
                    for s in s + 1..ops.len() {
                        t = match ops[s] {
                            Op::Prune { salt, den, root } => t.0.s_prune(Box::new(f_prune(s, &log, salt, den, root))),
                            Op::PrunePath { salt, den, root } => t.0.s_prune_path(Box::new(f_prune_path(s, &log, salt, den, root))),
                            Op::Depth(d) => t.0.s_depth(d),
                            Op::Map(salt) => t.0.s_map(Box::new(f_map(s, &log, salt))),
                            Op::MapPath(salt) => t.0.s_map_path(Box::new(f_map_path(s, &log, salt))),
                        };
                    }
                    $term(t, term)
                }
            };
            seen.calls = std::mem::take(&mut *log.borrow_mut());
            seen
        }
        pub fn $term<V: PV>(mut it: $dyn<'_, V>, term: Term) -> Seen {
            let mut seen = Seen::default();
            match term {
                Term::Collect => seen.dump = it.0.t_collect().map(|t| $dump(&t)),
                Term::Fold => {
                    let calls = &mut seen.fold_calls;
                    seen.fold = it.0.t_fold(&mut |kids: $kids, v: V| {
                        tick(AT_CLOSURE);
                        let kids = ($to_vec)(kids);
                        let h = fold_hash(v.id(), v.tag(), &kids);
                        calls.push((None, v.id(), v.tag(), kids));
                        h
                    });
                }
                Term::FoldPath => {
                    let calls = &mut seen.fold_calls;
                    seen.fold = it.0.t_fold_path(&mut |kids: $kids, p: &[usize], v: V| {
                        tick(AT_CLOSURE);
                        let kids = ($to_vec)(kids);
                        let h = fold_hash(v.id(), v.tag(), &kids);
                        calls.push((Some(p.to_vec()), v.id(), v.tag(), kids));
                        h
                    });
                }
                Term::Catch => {
                    let mut kept = vec![];
                    let mut panics = 0;
                    while panics < 50 {
                        match crate::engine::guarded(|| it.next()) {
                            Err(_) => panics += 1,
                            Ok(None) => break,
                            Ok(Some(v)) => kept.push(v),
                        }
                    }
                    drop(it);
                    seen.dump = Some(kept.iter().map(|v| (vec![], v.id(), v.tag())).collect());
                }
                Term::Iter(k) | Term::Then(k, _) => {
                    let mut d = vec![];
                    let mut ended = false;
                    while d.len() < k {
                        seen.hints.push(it.size_hint());
                        let Some(v) = it.next() else {
                            if it.next().is_some() {
                                seen.depth_mismatch = Some("the pipeline yielded an element after it had ended".into());
                            }
                            ended = true;
                            break;
                        };
                        if it.current_depth() != it.current_path().len() {
                            seen.depth_mismatch = Some(format!("current_depth() {} with current_path() {:?}", it.current_depth(), it.current_path()));
                        }
                        d.push((it.current_path().to_vec(), v.id(), v.tag()));
                    }
                    if let (Term::Then(_, a), false) = (term, ended) {
                        let mut rest = vec![];
                        seen.count = it.0.t_rest(a, &mut |v| rest.push((v.id(), v.tag())));
                        seen.rest = rest;
                    }
                    seen.dump = Some(d);
                }
            }
            seen
        }
    };
}
chain!(run_gen, term_gen, DynGen, TreeIterator, Vec<u64>, |k: Vec<u64>| k.into_iter().map(Some).collect::<Vec<Option<u64>>>(), dump_tree);
chain!(run_bin, term_bin, DynBin, BinaryTreeIterator, [Option<u64>; 2], |k: [Option<u64>; 2]| k.to_vec(), dump_bin);

/// compares what was seen with the reference; `prefix` is put before every path (collections)
pub fn judge(m: &Model, rf: &Reference, term: Term, seen: &Seen) -> Result<u64, String> {
    if let Some(d) = &seen.depth_mismatch {
        return Err(d.clone());
    }
    let n_out = match term {
        Term::Iter(k) | Term::Then(k, _) => k.min(rf.out.len()),
        _ => rf.out.len(),
    };
    // an iteration stopped early has not run later calls
    let want_calls = match term {
        Term::Iter(k) if k <= rf.out.len() => {
            if k == 0 {
                0
            } else {
                rf.calls_at[k - 1]
            }
        }
        _ => rf.calls.len(),
    };
    judge_calls(&seen.calls, &rf.calls[..want_calls])?;
    let expected = rf.dump(m);
    match term {
        Term::Collect => {
            let want = if expected.is_empty() { None } else { Some(expected) };
            judge_dump("collected tree", seen.dump.as_deref(), want.as_deref())?;
        }
        Term::Iter(_) | Term::Then(..) => {
            judge_dump("elements", seen.dump.as_deref(), Some(&expected[..n_out]))?;
            for (j, (lo, hi)) in seen.hints.iter().enumerate() {
                let rest = rf.out.len().saturating_sub(j);
                if *lo > rest || hi.is_some_and(|h| h < rest) {
                    return Err(format!("size_hint() before element {j} was ({lo}, {hi:?}) with {rest} elements left"));
                }
            }
            if let Term::Then(_, a) = term {
                let rest: Vec<(u64, u64)> = expected[n_out..].iter().map(|(_, a, b)| (*a, *b)).collect();
                let (want, count) = adapted(&rest, a);
                if want != seen.rest {
                    return Err(format!("{a:?} after {n_out} elements gave {:?}, expected {want:?}", seen.rest));
                }
                if count != seen.count && !(seen.count.is_none() && rest.is_empty()) {
                    return Err(format!("count() after {n_out} elements gave {:?}, expected {count:?}", seen.count));
                }
            }
        }
        Term::Catch => {
            let flat: Vec<_> = expected.into_iter().map(|(_, a, b)| (vec![], a, b)).collect();
            judge_dump("elements", seen.dump.as_deref(), Some(&flat))?
        }
        Term::Fold | Term::FoldPath => {
            judge_folds(m, rf, term == Term::FoldPath, &seen.fold_calls)?;
            let want = rf.folds(m).first().copied();
            if seen.fold != want {
                return Err(format!("fold returned {:?}, expected {want:?}", seen.fold));
            }
        }
    }
    Ok((seen.calls.len() + seen.fold_calls.len() + n_out) as u64 + 1)
}
pub fn judge_calls(got: &[Call], want: &[Call]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let k = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("closure call {k}: got {:?}, expected {:?} ({} calls seen, {} expected)", got.get(k), want.get(k), got.len(), want.len()))
}
pub fn judge_dump(what: &str, got: Option<&[(Vec<usize>, u64, u64)]>, want: Option<&[(Vec<usize>, u64, u64)]>) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    match (got, want) {
        (Some(g), Some(w)) => {
            let k = g.iter().zip(w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
            Err(format!("{what} differ at preorder position {k} (path, node, tag): got {:?}, expected {:?} ({} seen, {} expected)", g.get(k), w.get(k), g.len(), w.len()))
        }
        _ => Err(format!("{what}: got {}, expected {}", got.map_or("None".into(), |g| format!("{} nodes", g.len())), want.map_or("None".into(), |g| format!("{} nodes", g.len())))),
    }
}
/// every element folded once, after its descendants, with its children's results in order
pub fn judge_folds(m: &Model, rf: &Reference, paths: bool, calls: &[(Option<Vec<usize>>, u64, u64, Vec<Option<u64>>)]) -> Result<(), String> {
    let folds = rf.folds(m);
    let by_id: std::collections::HashMap<u64, usize> = rf.out.iter().enumerate().map(|(o, (i, _, _))| (m.nodes[*i].id, o)).collect();
    let mut done = vec![false; rf.out.len()];
    for (p, id, tag, kids) in calls {
        let Some(&o) = by_id.get(id) else { return Err(format!("fold closure called with node {id}, which is not in the tree")) };
        if std::mem::replace(&mut done[o], true) {
            return Err(format!("fold closure called twice for node {id}"));
        }
        if rf.kids[o].iter().flatten().any(|k| !done[*k]) {
            return Err(format!("fold closure called for node {id} before one of its children"));
        }
        let want: Vec<Option<u64>> = rf.kids[o].iter().map(|k| k.map(|k| folds[k])).collect();
        if &want != kids {
            return Err(format!("fold closure got {} children results for node {id} ({kids:?}), expected {} ({want:?})", kids.len(), want.len()));
        }
        if *tag != rf.out[o].2 {
            return Err(format!("fold closure got value tag {tag} for node {id}, expected {}", rf.out[o].2));
        }
        if paths && p.as_ref() != Some(&rf.out[o].1) {
            return Err(format!("fold closure got path {p:?} for node {id}, expected {:?}", rf.out[o].1));
        }
    }
    if calls.len() != rf.out.len() {
        return Err(format!("fold closure called {} times for {} nodes", calls.len(), rf.out.len()));
    }
    Ok(())
}

// ---- result types of closures other than plain numbers ----
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    /// a zero-sized result
    Unit,
    /// a large, over-aligned result that owns memory and is neither Clone nor Default
    Big,
}
#[repr(align(64))]
pub struct Big<T>(Box<T>, [u64; 9], Counted);
impl<T: Ident> Ident for Big<T> {
    fn id(&self) -> u64 {
        self.0.id()
    }
}
impl<T: PV> PV for Big<T> {
    fn tag(&self) -> u64 {
        self.0.tag()
    }
}
/// a value without a size
pub struct Nil;
impl Ident for Nil {
    fn id(&self) -> u64 {
        0
    }
}
impl PV for Nil {}
pub fn big<T>(x: T) -> Big<T> {
    Big(Box::new(x), [7; 9], Counted::new())
}
pub fn unbig(b: Big<u64>) -> u64 {
    assert!(b.1 == [7; 9] && std::ptr::from_ref(&b) as usize % 64 == 0, "a result was corrupted");
    *b.0
}
pub type GenKids<O> = Vec<O>;
pub type BinKids<O> = [Option<O>; 2];
pub fn drop_to_nil<T>(_: T) -> Nil {
    Nil
}
pub trait Slots<O> {
    fn slots(self) -> Vec<Option<O>>;
}
impl<O> Slots<O> for Vec<O> {
    fn slots(self) -> Vec<Option<O>> {
        self.into_iter().map(Some).collect()
    }
}
impl<O> Slots<O> for [Option<O>; 2] {
    fn slots(self) -> Vec<Option<O>> {
        self.into_iter().collect()
    }
}
