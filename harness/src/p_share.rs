//! P22: many traversals at the same time: interleaved step by step, nested in each other's closures, on
//! several threads, handed from thread to thread; each must see what it would see alone.
use crate::engine::*;
use crate::lists::*;
use crate::model::*;
use crate::nodes::*;
use crate::p_coll::expect_list;
use crate::rng::Rng;
use crate::stages::*;
use crate::tok::*;
use crate::traverse::*;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering};
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;

#[derive(Clone, Debug)]
pub enum Work {
    Walk(Order, Mode),
    Pipe(Vec<Op>),
    /// one step each
    Fold,
    Map,
    At(Vec<usize>),
}
pub type Step<'a> = Box<dyn FnMut() -> Option<Ev> + 'a>;
/// one traversal among others
pub struct Strand<'a> {
    step: Step<'a>,
    want: Vec<Ev>,
    pos: usize,
    name: String,
    pub done: bool,
}
impl<'a> Strand<'a> {
    fn new(step: Step<'a>, want: Vec<Ev>, name: String) -> Strand<'a> {
        Strand { step, want, pos: 0, name, done: false }
    }
    /// one step, compared with what the traversal sees alone
    fn go(&mut self) -> R {
        if self.done {
            return Ok(());
        }
        let got = (self.step)();
        let want = self.want.get(self.pos);
        match (&got, want) {
            (None, None) => {
                self.done = true;
                Ok(())
            }
            (Some(g), Some(w)) if g == w || len_only(g, w) => {
                self.pos += 1;
                Ok(())
            }
            _ => Err(format!("{}: element {} is {got:?}, alone it is {want:?}", self.name, self.pos)),
        }
    }
    fn finish(&mut self) -> R {
        while !self.done {
            self.go()?;
        }
        Ok(())
    }
}
fn len_only(g: &Ev, w: &Ev) -> bool {
    let (Some(Some(a)), Some(Some(b))) = (&g.kids, &w.kids) else { return false };
    a.len() == b.len() && a.iter().all(|x| x.is_none()) && Ev { kids: None, ..g.clone() } == Ev { kids: None, ..w.clone() }
}
fn id_ev(id: u64) -> Ev {
    Ev { id, ..Default::default() }
}
fn anc_ev<V: Ident>(v: &[V]) -> Ev {
    let anc: Vec<u64> = v.iter().map(|v| v.id()).collect();
    Ev { id: anc.last().copied().unwrap_or(0), anc: Some(anc), ..Default::default() }
}

macro_rules! walk {
    ($it:expr, $mode:expr, $kids:expr) => {
        match $mode {
            Mode::Leaves(k) => {
                let (mut a, mut b, mut n) = (Some($it), None, 0);
                Box::new(move || {
                    while n < k {
                        n += 1;
                        match a.as_mut().unwrap().next() {
                            Some(v) => return Some(id_ev(v.id())),
                            None => n = k,
                        }
                    }
                    if let Some(a) = a.take() {
                        b = Some(a.leaves());
                    }
                    b.as_mut().unwrap().next().map(|v| id_ev(v.id()))
                }) as Step<'_>
            }
            Mode::Anc => {
                let mut it = $it.attach_ancestors();
                Box::new(move || it.next().map(|v| anc_ev(v)))
            }
            Mode::AncLeaves(k) => {
                let (mut a, mut b, mut n) = (Some($it.attach_ancestors()), None, 0);
                Box::new(move || {
                    while n < k {
                        n += 1;
                        match a.as_mut().unwrap().next() {
                            Some(v) => return Some(anc_ev(v)),
                            None => n = k,
                        }
                    }
                    if let Some(a) = a.take() {
                        b = Some(a.leaves());
                    }
                    b.as_mut().unwrap().next().map(|v| anc_ev(v))
                })
            }
            Mode::Ctx => {
                let mut it = $it.attach_context();
                Box::new(move || it.next().map(|c| ctx_ev(c, $kids)))
            }
            _ => {
                let mut it = $it;
                Box::new(move || it.next().map(|v| id_ev(v.id())))
            }
        }
    };
}
fn walk_want(m: &Model, own: Own, ord: Order, mode: Mode) -> Vec<Ev> {
    let (pre, evs) = expect(m, own, ord, mode);
    let anc = matches!(mode, Mode::AncLeaves(_));
    let by_id: std::collections::HashMap<u64, usize> = m.nodes.iter().enumerate().map(|(i, n)| (n.id, i)).collect();
    pre.into_iter().map(|id| Ev { id, anc: anc.then(|| m.ancestors(by_id[&id])), ..Default::default() }).chain(evs).collect()
}
/// elements of a pipeline: node, path, tag
fn pipe_ev(id: u64, tag: u64, path: &[usize]) -> Ev {
    Ev { id, anc: Some(vec![tag]), path: Some(path.to_vec()), ..Default::default() }
}
fn pipe_want(m: &Model, ops: &[Op]) -> Vec<Ev> {
    reference(m, ops).dump(m).into_iter().map(|(p, id, tag)| pipe_ev(id, tag, &p)).collect()
}
macro_rules! pipe_step {
    ($name:ident, $dyn:ident, $tr:ident) => {
        fn $name<'a, V: PV + 'a, C: 'a>(it: impl $tr<V, C> + 'a, ops: &[Op]) -> Step<'a> {
            let log = new_log();
            let mut raw = $dyn::leaf(it);
            let mut s = 0;
            while s < ops.len() && !ops[s].is_map() {
                raw = match ops[s] {
                    Op::Prune { salt, den, root } => $dyn::leaf(raw.prune(f_prune(s, &log, salt, den, root))),
                    Op::PrunePath { salt, den, root } => $dyn::leaf(raw.prune_path(f_prune_path(s, &log, salt, den, root))),
                    Op::Depth(d) => $dyn::leaf(raw.prune_depth(d)),
                    _ => unreachable!(),
                };
                s += 1;
            }
            if s == ops.len() {
                return Box::new(move || raw.next().map(|v| pipe_ev(v.id(), v.tag(), raw.current_path())));
            }
            let mut t = match ops[s] {
                Op::Map(salt) => $dyn::leaf(raw.map_tree(f_map(s, &log, salt))),
                Op::MapPath(salt) => $dyn::leaf(raw.map_path(f_map_path(s, &log, salt))),
                _ => unreachable!(),
            };
            for s in s + 1..ops.len() {
                t = match ops[s] {
                    Op::Prune { salt, den, root } => $dyn::leaf(t.prune(f_prune(s, &log, salt, den, root))),
                    Op::PrunePath { salt, den, root } => $dyn::leaf(t.prune_path(f_prune_path(s, &log, salt, den, root))),
                    Op::Depth(d) => $dyn::leaf(t.prune_depth(d)),
                    Op::Map(salt) => $dyn::leaf(t.map_tree(f_map(s, &log, salt))),
                    Op::MapPath(salt) => $dyn::leaf(t.map_path(f_map_path(s, &log, salt))),
                };
            }
            Box::new(move || t.next().map(|v| pipe_ev(v.id(), v.tag(), t.current_path())))
        }
    };
}
pipe_step!(pipe_gen, DynGen, TreeIterator);
pipe_step!(pipe_bin, DynBin, BinaryTreeIterator);

fn gk(k: Vec<u64>) -> Vec<Option<u64>> {
    k.into_iter().map(Some).collect()
}
fn bk(k: [Option<u64>; 2]) -> Vec<Option<u64>> {
    k.to_vec()
}
/// the answer of an operation done in one step
fn once<'a>(mut f: impl FnMut() -> u64 + 'a) -> Step<'a> {
    let mut done = false;
    Box::new(move || (!std::mem::replace(&mut done, true)).then(|| id_ev(f())))
}
fn dump_hash(d: &[(Vec<usize>, u64, u64)]) -> u64 {
    let mut h = vec![d.len() as u64];
    for (p, id, tag) in d {
        h.extend(p.iter().map(|x| *x as u64));
        h.extend([u64::MAX, *id, *tag]);
    }
    key(&h)
}
fn want(m: &Model, own: Own, w: &Work) -> Vec<Ev> {
    match w {
        Work::Walk(ord, mode) => walk_want(m, own, *ord, *mode),
        Work::Pipe(ops) => pipe_want(m, ops),
        Work::Fold => vec![id_ev(reference(m, &[]).folds(m)[0])],
        Work::Map => vec![id_ev(dump_hash(&reference(m, &[Op::Map(7)]).dump(m)))],
        Work::At(p) => vec![id_ev(m.at_path(p).map(|i| m.nodes[i].id).unwrap_or(u64::MAX))],
    }
}

macro_rules! strand_fn {
    ($name:ident, [$($lt:tt)*], $l:lifetime, $nt:ty, $tr:path, $val:ident, [$($kb:tt)*], $own:expr, $pipe:ident, $into:ident, $fold:ident, $map:ident, $at:ident, $kidf:ident, $kty:ty, $dump:ident,
     $bfs:ident, $pre:ident, $ino:tt, $post:ident, $pk:expr, once: $once:tt) => {
        fn $name<$($lt)* N: $tr + NodeId + $l>(n: $nt, m: &Model, w: &Work) -> Strand<$l>
        where
            N::$val: PV + $l,
            $($kb)*
        {
            let step: Step<$l> = match w {
                Work::Walk(Order::Bfs, mode) => walk!(n.$bfs(), *mode, true),
                Work::Walk(Order::Pre, mode) => walk!(n.$pre(), *mode, true),
                Work::Walk(Order::Post, mode) => walk!(n.$post(), *mode, $pk),
                Work::Walk(Order::In, mode) => strand_fn!(@in $ino, n, mode, $pk),
                Work::Pipe(ops) => $pipe(n.$into(), ops),
                Work::Fold => strand_fn!(@once $once, n, |n| n.$fold(|k: $kty, v| fold_hash(v.id(), v.tag(), &$kidf(k)))),
                Work::Map => strand_fn!(@once $once, n, |n| dump_hash(&$dump(&n.$map(|v| tagged(v, 7))))),
                Work::At(p) => {
                    let p = p.clone();
                    strand_fn!(@once $once, n, |n| n.$at(&p).map(|n| n.nid()).unwrap_or(u64::MAX))
                }
            };
            Strand::new(step, want(m, $own, w), format!("{:?} {w:?} on {}", $own, m.show()))
        }
    };
    (@in none, $n:ident, $mode:ident, $pk:expr) => { unreachable!() };
    (@in $ino:ident, $n:ident, $mode:ident, $pk:expr) => { walk!($n.$ino(), *$mode, $pk) };
    (@once shared, $n:ident, |$x:ident| $e:expr) => {{
        let $x = $n;
        once(move || $e)
    }};
    (@once moved, $n:ident, |$x:ident| $e:expr) => {{
        let mut o = Some($n);
        once(move || {
            let $x = o.take().unwrap();
            $e
        })
    }};
}
strand_fn!(ref_gen, ['a,], 'a, &'a N, BorrowedTreeNode<'a>, BorrowedValue, [N::BorrowedChildren: Kids + 'a,], Own::Ref, pipe_gen, into_pipeline_ref, fold_ref, map_ref, at_path_ref, gk, Vec<u64>, dump_tree,
    bfs_iter, dfs_preorder_iter, none, dfs_postorder_iter, true, once: shared);
strand_fn!(mut_gen, ['a,], 'a, &'a mut N, MutBorrowedTreeNode<'a>, MutBorrowedValue, [N::MutBorrowedChildren: Kids + 'a,], Own::Mut, pipe_gen, into_pipeline_mut, fold_mut, map_mut, at_path_mut, gk, Vec<u64>, dump_tree,
    bfs_iter_mut, dfs_preorder_iter_mut, none, dfs_postorder_iter_mut, true, once: moved);
strand_fn!(own_gen, [], 'static, N, OwnedTreeNode, OwnedValue, [N::OwnedChildren: Kids + 'static,], Own::Owned, pipe_gen, into_pipeline, fold, map, at_path, gk, Vec<u64>, dump_tree,
    bfs, dfs_preorder, none, dfs_postorder, false, once: moved);
strand_fn!(ref_bin, ['a,], 'a, &'a N, BorrowedBinaryTreeNode<'a>, BorrowedValue, [], Own::Ref, pipe_bin, into_pipeline_ref, fold_ref, map_ref, at_path_ref, bk, [Option<u64>; 2], dump_bin,
    bfs_iter, dfs_preorder_iter, dfs_inorder_iter, dfs_postorder_iter, true, once: shared);
strand_fn!(mut_bin, ['a,], 'a, &'a mut N, MutBorrowedBinaryTreeNode<'a>, MutBorrowedValue, [], Own::Mut, pipe_bin, into_pipeline_mut, fold_mut, map_mut, at_path_mut, bk, [Option<u64>; 2], dump_bin,
    bfs_iter_mut, dfs_preorder_iter_mut, dfs_inorder_iter_mut, dfs_postorder_iter_mut, true, once: moved);
strand_fn!(own_bin, [], 'static, N, OwnedBinaryTreeNode, OwnedValue, [], Own::Owned, pipe_bin, into_pipeline, fold, map, at_path, bk, [Option<u64>; 2], dump_bin,
    bfs, dfs_preorder, dfs_inorder, dfs_postorder, false, once: moved);

/// a traversal to run; `walks` leaves out what makes values
fn work(r: &mut Rng, m: &Model, walks: bool) -> Work {
    match r.below(if walks { 11 } else { 15 }) {
        0..=9 => {
            let k = r.range(0, m.len() + 1);
            let mode = [Mode::Plain, Mode::Ctx, Mode::Leaves(0), Mode::Leaves(k), Mode::Anc, Mode::AncLeaves(k), Mode::Ctx, Mode::Plain][r.below(8)];
            Work::Walk(*r.pick(orders(m.binary)), mode)
        }
        10 => {
            let mut p = m.nodes[r.below(m.len())].path.clone();
            if r.chance(1, 4) {
                p.push(r.below(3));
            }
            Work::At(p)
        }
        11 => Work::Fold,
        12 => Work::Map,
        _ => Work::Pipe((0..r.below(4)).map(|_| random_op(r, m.height())).collect()),
    }
}
fn unchanged<N: Build>(n: &N, m: &Model) -> R {
    let got = n.dump();
    let ok = got.len() == m.len() && got.iter().zip(m.preorder()).all(|((p, id), i)| *p == m.nodes[i].path && *id == m.nodes[i].id);
    if ok {
        Ok(())
    } else {
        Err("the borrowed tree changed".into())
    }
}
/// run strands in a seeded order of steps; some are abandoned midway
fn interleave(mut s: Vec<Strand>, r: &mut Rng) -> Result<u64, String> {
    let style = r.below(4);
    let mut cur = 0;
    let mut n = 0;
    while !s.is_empty() {
        cur = match style {
            0 => (cur + 1) % s.len(),
            1 => r.below(s.len()),
            2 if r.chance(1, 4) => r.below(s.len()),
            3 if r.chance(1, 12) => r.below(s.len()),
            _ => cur % s.len(),
        };
        s[cur].go()?;
        n += 1;
        if s[cur].done || r.chance(1, 300) {
            s.swap_remove(cur);
        }
    }
    Ok(n)
}

/// which thread took each step, in the order they happened
pub struct Order2 {
    next: AtomicUsize,
    who: Vec<AtomicU8>,
}
impl Order2 {
    fn new(n: usize) -> Order2 {
        Order2 { next: AtomicUsize::new(0), who: (0..n).map(|_| AtomicU8::new(0)).collect() }
    }
    fn step(&self, t: usize) {
        // relaxed: the monitor adds no ordering between the threads
        let i = self.next.fetch_add(1, Ordering::Relaxed);
        if let Some(w) = self.who.get(i) {
            w.store(t as u8 + 1, Ordering::Relaxed);
        }
    }
    /// (steps seen, switches between threads, hash of the order)
    fn seen(&self) -> (u64, u64, u64) {
        let n = self.next.load(Ordering::Relaxed).min(self.who.len());
        let v: Vec<u8> = self.who[..n].iter().map(|w| w.load(Ordering::Relaxed)).collect();
        (n as u64, v.windows(2).filter(|w| w[0] != w[1]).count() as u64, key(&v.iter().map(|x| *x as u64).collect::<Vec<_>>()))
    }
}

/// moves a traversal to another thread whether or not the compiler allows it; that it does is checked
/// separately
struct Hop<T>(T);
// SAFETY: only used for traversals over `&Tree` with `Sync` values, held by one thread at a time
unsafe impl<T> Send for Hop<T> {}

struct Probe<T>(PhantomData<T>);
trait NotSend {
    fn send(&self) -> bool {
        false
    }
}
impl<T> NotSend for &Probe<T> {}
impl<T: Send> Probe<T> {
    fn send(&self) -> bool {
        true
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Interleave,
    Mixed,
    Nested,
    Threads,
    Hops,
}
const ACTS: [Act; 5] = [Act::Interleave, Act::Mixed, Act::Nested, Act::Threads, Act::Hops];

macro_rules! acts {
    ($name:ident, $t:ty, $rf:ident, $mf:ident, $of:ident, $kids:ty, $kidf:ident, $dump:ident) => {
        fn $name(m: &Model, act: Act, r: &mut Rng, seen: &Cell<(u64, u64, u64)>) -> Result<u64, String> {
            let t = <$t as Build>::build(m);
            let most = if m.len() > 1500 { 2 } else { 8 };
            let count = r.range(2, most);
            let n = match act {
                Act::Interleave => {
                    let s = (0..count).map(|_| $rf(&t, m, &work(r, m, false))).collect();
                    interleave(s, r)?
                }
                Act::Mixed => {
                    // among traversals which own or change trees of their own
                    let others: Vec<Model> = (0..count).map(|_| random(r, m.binary, 20)).collect();
                    let mut muts: Vec<$t> = others.iter().map(<$t as Build>::build).collect();
                    let mut s: Vec<Strand> = vec![$rf(&t, m, &work(r, m, false)), $rf(&t, m, &work(r, m, false))];
                    for (o, t) in others.iter().zip(muts.iter_mut()) {
                        s.push($mf(t, o, &work(r, o, false)));
                        s.push($of(<$t as Build>::build(o), o, &work(r, o, false)));
                    }
                    interleave(s, r)?
                }
                Act::Nested => {
                    // inside the closures of an operation on the same tree
                    let inner: Vec<Strand> = (0..count).map(|_| $rf(&t, m, &work(r, m, false))).collect();
                    let inner = RefCell::new(inner);
                    let rr = RefCell::new(r.clone());
                    let fail = RefCell::new(None);
                    let steps = Cell::new(0u64);
                    let whole = Cell::new(0);
                    let each = |_id: u64| {
                        let mut r = rr.borrow_mut();
                        for _ in 0..r.below(4) {
                            let mut s = inner.borrow_mut();
                            let i = r.below(s.len());
                            steps.set(steps.get() + 1);
                            if let Err(e) = s[i].go() {
                                fail.borrow_mut().get_or_insert(e);
                            }
                        }
                        // and a whole traversal started and finished in here
                        if r.chance(1, 6) && (m.len() < 100 || whole.get() < 2) {
                            whole.set(whole.get() + 1);
                            let w = work(&mut r, m, false);
                            if let Err(e) = $rf(&t, m, &w).finish() {
                                fail.borrow_mut().get_or_insert(e);
                            }
                        }
                    };
                    let (salt, den) = (r.next(), 4);
                    match r.below(4) {
                        0 => {
                            let got = t.fold_ref(|k: $kids, v| {
                                each(v.id());
                                fold_hash(v.id(), v.tag(), &$kidf(k))
                            });
                            if got != reference(m, &[]).folds(m)[0] {
                                return Err("fold with traversals inside its closure gives another result".into());
                            }
                        }
                        1 => {
                            let got = t.map_ref(|v| {
                                each(v.id());
                                tagged(v, 7)
                            });
                            if $dump(&got) != reference(m, &[Op::Map(7)]).dump(m) {
                                return Err("map with traversals inside its closure gives another result".into());
                            }
                        }
                        2 => {
                            let mut first = true;
                            let got = t.prune_ref(|v| {
                                each(v.id());
                                picks(salt, den, false, v.id(), v.tag(), std::mem::replace(&mut first, false))
                            });
                            if got.map(|t| $dump(&t)) != Some(reference(m, &[Op::Prune { salt, den, root: false }]).dump(m)) {
                                return Err("prune with traversals inside its closure gives another result".into());
                            }
                        }
                        _ => {
                            let mut first = true;
                            let got = t
                                .into_pipeline_ref()
                                .prune_path(|_p, v| {
                                    each(v.id());
                                    picks(salt, den, false, v.id(), v.tag(), std::mem::replace(&mut first, false))
                                })
                                .map_path(|_p, v| {
                                    each(v.id());
                                    tagged(v, 9)
                                })
                                .collect_tree();
                            if got.map(|t| $dump(&t)) != Some(reference(m, &[Op::PrunePath { salt, den, root: false }, Op::MapPath(9)]).dump(m)) {
                                return Err("a pipeline with traversals inside its closures gives another result".into());
                            }
                        }
                    }
                    if let Some(e) = fail.into_inner() {
                        return Err(e);
                    }
                    for s in inner.borrow_mut().iter_mut() {
                        s.finish()?;
                    }
                    steps.get() + m.len() as u64
                }
                Act::Threads => {
                    let threads = if cfg!(miri) { 2 + r.below(2) } else { r.range(2, most.max(3)) };
                    let plans: Vec<(Vec<Work>, Rng)> = (0..threads).map(|i| ((0..r.range(1, 3)).map(|_| work(r, m, false)).collect(), Rng::new(r.next(), "t", i as u64))).collect();
                    let order = Order2::new(40_000);
                    let gate = std::sync::Barrier::new(threads);
                    let shared: &$t = &t;
                    let res: Vec<Result<u64, String>> = std::thread::scope(|sc| {
                        let hs: Vec<_> = plans
                            .into_iter()
                            .enumerate()
                            .map(|(id, (works, mut r))| {
                                let (order, gate) = (&order, &gate);
                                sc.spawn(move || {
                                    gate.wait();
                                    guarded(|| {
                                        let mut s: Vec<Strand> = works.iter().map(|w| $rf(shared, m, w)).collect();
                                        let mut n = 0;
                                        while !s.is_empty() {
                                            let i = r.below(s.len());
                                            order.step(id);
                                            s[i].go()?;
                                            n += 1;
                                            if s[i].done {
                                                s.swap_remove(i);
                                            }
                                            // injected delays
                                            match r.below(40) {
                                                0..=5 => std::thread::yield_now(),
                                                6 if !cfg!(miri) => (0..r.below(2000)).for_each(|_| std::hint::spin_loop()),
                                                _ => {}
                                            }
                                        }
                                        Ok(n)
                                    })
                                    .unwrap_or_else(|p| Err(format!("panic on thread {id}: {p}")))
                                })
                            })
                            .collect();
                        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread ended abnormally".into()))).collect()
                    });
                    seen.set(order.seen());
                    let mut n = 0;
                    for x in res {
                        n += x?;
                    }
                    n
                }
                Act::Hops => {
                    // one traversal carried from thread to thread, others going on meanwhile
                    let mut s: Vec<Strand> = (0..count.min(3)).map(|_| $rf(&t, m, &work(r, m, true))).collect();
                    let (mut n, mut hops) = (0u64, 0u64);
                    while !s.is_empty() {
                        let burst = if hops > 6 { usize::MAX } else { r.range(1, m.len() / 2 + 2) };
                        hops += 1;
                        let strands = std::mem::take(&mut s);
                        let parts: Vec<Result<(Hop<Strand>, u64), String>> = std::thread::scope(|sc| {
                            let hs: Vec<_> = strands
                                .into_iter()
                                .map(|x| {
                                    let x = Hop(x);
                                    sc.spawn(move || {
                                        let mut x = x;
                                        guarded(|| {
                                            let y = &mut x;
                                            let mut n = 0;
                                            while !y.0.done && n < burst {
                                                y.0.go()?;
                                                n += 1;
                                            }
                                            Ok(n as u64)
                                        })
                                        .unwrap_or_else(|p| Err(format!("panic on another thread: {p}")))
                                        .map(|n| (x, n))
                                    })
                                })
                                .collect();
                            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread ended abnormally".into()))).collect()
                        });
                        for p in parts {
                            let (x, k) = p?;
                            n += k;
                            if !x.0.done {
                                s.push(x.0);
                            }
                        }
                    }
                    seen.set((n, hops, 0));
                    n
                }
            };
            unchanged(&t, m)?;
            Ok(n)
        }
    };
}
acts!(act_tree, Tree<Tok>, ref_gen, mut_gen, own_gen, Vec<u64>, gk, dump_tree);
acts!(act_list, ListNode, ref_gen, mut_gen, own_gen, Vec<u64>, gk, dump_tree);
acts!(act_vecref, VecRefNode, ref_gen, mut_gen, own_gen, Vec<u64>, gk, dump_tree);
acts!(act_spy, SpyNode, ref_gen, mut_gen, own_gen, Vec<u64>, gk, dump_tree);
acts!(act_bin, BinaryTree<Tok>, ref_bin, mut_bin, own_bin, [Option<u64>; 2], bk, dump_bin);
acts!(act_spybin, SpyBin, ref_bin, mut_bin, own_bin, [Option<u64>; 2], bk, dump_bin);
fn act_of(m: &Model, fam: Fam, act: Act, r: &mut Rng, seen: &Cell<(u64, u64, u64)>) -> Result<u64, String> {
    match fam {
        "Tree" => act_tree(m, act, r, seen),
        "ListNode" => act_list(m, act, r, seen),
        "VecRefNode" => act_vecref(m, act, r, seen),
        "SpyNode" => act_spy(m, act, r, seen),
        "BinaryTree" => act_bin(m, act, r, seen),
        _ => act_spybin(m, act, r, seen),
    }
}

// --------------------------------------------------------------------------------- collections

macro_rules! list_strand {
    ($name:ident, $t:ty, $bin:expr, [$($ord:pat => $f:ident),*]) => {
        fn $name<'a>(c: &'a Vec<$t>, ms: &[Model], r: &mut Rng) -> Strand<'a> {
            let ord = *r.pick(orders($bin));
            let mode = if r.chance(1, 2) { Mode::Ctx } else { Mode::Plain };
            let slice = r.chance(1, 2);
            let step: Step<'a> = match (ord, mode, slice) {
                $(
                    ($ord, Mode::Ctx, false) => { let mut it = c.$f().attach_context(); Box::new(move || it.next().map(|c| ctx_ev(c, true))) }
                    ($ord, Mode::Ctx, true) => { let mut it = c.iter().$f().attach_context(); Box::new(move || it.next().map(|c| ctx_ev(c, true))) }
                    ($ord, _, false) => { let mut it = c.$f(); Box::new(move || it.next().map(|v| id_ev(v.id()))) }
                    ($ord, _, true) => { let mut it = c.iter().$f(); Box::new(move || it.next().map(|v| id_ev(v.id()))) }
                )*
                #[allow(unreachable_patterns)]
                _ => unreachable!(),
            };
            Strand::new(step, expect_list(ms, Own::Ref, ord, mode), format!("collection {ord:?} {mode:?}"))
        }
    };
}
list_strand!(list_gen, Tree<Tok>, false, [Order::Bfs => bfs_each_iter, Order::Pre => dfs_preorder_each_iter, Order::Post => dfs_postorder_each_iter]);
list_strand!(list_bin, BinaryTree<Tok>, true, [Order::Bfs => bfs_each_iter, Order::Pre => dfs_preorder_each_iter, Order::Post => dfs_postorder_each_iter, Order::In => dfs_inorder_each_iter]);

fn list_act(bin: bool, ms: &[Model], threads: bool, r: &mut Rng, seen: &Cell<(u64, u64, u64)>) -> Result<u64, String> {
    macro_rules! go {
        ($t:ty, $f:ident) => {{
            let v: Vec<$t> = build_all(ms);
            let n = if threads {
                let k = if cfg!(miri) { 2 } else { r.range(2, 6) };
                let rs: Vec<Rng> = (0..k).map(|i| Rng::new(r.next(), "l", i as u64)).collect();
                let order = Order2::new(20_000);
                let res: Vec<Result<u64, String>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = rs
                        .into_iter()
                        .enumerate()
                        .map(|(id, mut r)| {
                            let (v, order) = (&v, &order);
                            sc.spawn(move || {
                                guarded(|| {
                                    let mut s = $f(v, ms, &mut r);
                                    while !s.done {
                                        order.step(id);
                                        s.go()?;
                                        if r.chance(1, 10) {
                                            std::thread::yield_now();
                                        }
                                    }
                                    Ok(s.pos as u64)
                                })
                                .unwrap_or_else(|p| Err(format!("panic on thread {id}: {p}")))
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread ended abnormally".into()))).collect()
                });
                seen.set(order.seen());
                let mut n = 0;
                for x in res {
                    n += x?;
                }
                n
            } else {
                let k = r.range(2, 6);
                let s = (0..k).map(|_| $f(&v, ms, r)).collect();
                interleave(s, r)?
            };
            for (t, m) in v.iter().zip(ms) {
                unchanged(t, m)?;
            }
            Ok(n)
        }};
    }
    if bin {
        go!(BinaryTree<Tok>, list_bin)
    } else {
        go!(Tree<Tok>, list_gen)
    }
}

// ------------------------------------------------------------------------------------- sendable

/// can the compiler's own rules move these to another thread? (with values which may move)
fn sendable() -> Result<u64, String> {
    let g = Tree { value: 1u64, children: vec![Tree { value: 2, children: vec![] }] };
    let b = BinaryTree { value: 1u64, left: Some(Box::new(BinaryTree { value: 2, left: None, right: None })), right: None };
    let gs = vec![g.clone()];
    let bs = vec![b.clone()];
    let mut no: Vec<&str> = vec![];
    let mut n = 0;
    fn of<T>(_: &T) -> Probe<T> {
        Probe(PhantomData)
    }
    macro_rules! is {
        ($($e:expr),* $(,)?) => {$(
            n += 1;
            let x = $e;
            if !(&of(&x)).send() {
                no.push(stringify!($e));
            }
        )*};
    }
    is!(
        g.bfs_iter(),
        g.dfs_preorder_iter(),
        g.dfs_postorder_iter(),
        g.bfs_iter().leaves(),
        g.dfs_preorder_iter().leaves(),
        g.dfs_postorder_iter().leaves(),
        g.bfs_iter().attach_ancestors(),
        g.dfs_preorder_iter().attach_ancestors(),
        g.dfs_postorder_iter().attach_ancestors(),
        g.bfs_iter().attach_ancestors().leaves(),
        g.dfs_preorder_iter().attach_ancestors().leaves(),
        g.dfs_postorder_iter().attach_ancestors().leaves(),
        g.bfs_iter().attach_context(),
        g.dfs_preorder_iter().attach_context(),
        g.dfs_postorder_iter().attach_context(),
        b.bfs_iter(),
        b.dfs_preorder_iter(),
        b.dfs_inorder_iter(),
        b.dfs_postorder_iter(),
        b.bfs_iter().leaves(),
        b.dfs_preorder_iter().leaves(),
        b.dfs_inorder_iter().leaves(),
        b.dfs_postorder_iter().leaves(),
        b.bfs_iter().attach_ancestors(),
        b.dfs_preorder_iter().attach_ancestors(),
        b.dfs_inorder_iter().attach_ancestors(),
        b.dfs_postorder_iter().attach_ancestors(),
        b.bfs_iter().attach_ancestors().leaves(),
        b.dfs_preorder_iter().attach_ancestors().leaves(),
        b.dfs_inorder_iter().attach_ancestors().leaves(),
        b.dfs_postorder_iter().attach_ancestors().leaves(),
        b.bfs_iter().attach_context(),
        b.dfs_preorder_iter().attach_context(),
        b.dfs_inorder_iter().attach_context(),
        b.dfs_postorder_iter().attach_context(),
        g.into_pipeline_ref(),
        b.into_pipeline_ref(),
        g.into_pipeline_ref().map_tree(|v| *v),
        b.into_pipeline_ref().map_path(|_p, v| *v),
        g.into_pipeline_ref().prune(|v| **v > 1),
        b.into_pipeline_ref().prune_path(|_p, v| **v > 1),
        g.into_pipeline_ref().prune_depth(3),
        gs.bfs_each_iter(),
        gs.dfs_preorder_each_iter(),
        gs.dfs_postorder_each_iter(),
        gs.bfs_each_iter().attach_context(),
        gs.dfs_preorder_each_iter().attach_context(),
        gs.dfs_postorder_each_iter().attach_context(),
        bs.bfs_each_iter(),
        bs.dfs_preorder_each_iter(),
        bs.dfs_inorder_each_iter(),
        bs.dfs_postorder_each_iter(),
        bs.bfs_each_iter().attach_context(),
        bs.dfs_preorder_each_iter().attach_context(),
        bs.dfs_inorder_each_iter().attach_context(),
        bs.dfs_postorder_each_iter().attach_context(),
    );
    if no.is_empty() {
        Ok(n)
    } else {
        Err(format!("these traversals over shared data cannot be moved to another thread: {no:?}"))
    }
}

pub struct Shared {
    src: Src,
    lists: Lists,
    rounds: usize,
    orders: RefCell<HashSet<u64>>,
}
impl Shared {
    pub fn new(quick: bool) -> Shared {
        let miri = cfg!(miri);
        let (src, lists, rounds) = match (miri, quick) {
            (true, true) => (Src::new(3, 3, 200, 9), Lists::new(1, 1, 1, 60, 4), 1),
            (true, false) => (Src::new(4, 4, 2_000, 14), Lists::new(2, 1, 2, 600, 5), 1),
            (_, true) => (Src::new(6, 6, 8_000, 40), Lists::new(2, 2, 2, 1_500, 10), 2),
            (_, false) => (Src::new(8, 8, 60_000, 80), Lists::new(3, 2, 3, 20_000, 16), 3),
        };
        Shared { src, lists, rounds, orders: RefCell::new(HashSet::new()) }
    }
    fn note(&self, cx: &mut Ctx, threads: bool, s: (u64, u64, u64)) {
        if threads {
            cx.count("steps_on_threads", s.0);
            cx.count("switches_between_threads_seen", s.1);
            if self.orders.borrow_mut().insert(s.2) {
                cx.count("distinct_thread_orders_seen_per_worker", 1);
            }
        } else {
            cx.count("hops_between_threads", s.1);
        }
    }
}
impl Prop for Shared {
    fn cases(&self) -> u64 {
        1 + self.src.cases() + self.lists.cases()
    }
    fn rule(&self) -> String {
        format!(
            "{}; {}; each tree in every node family, {} times: 2 to 8 borrowed traversals (every order, plain/leaves/ancestors/context, pipelines, fold, map, at_path) interleaved in seeded orders of steps, some abandoned; the same among owned and mutable traversals of other trees; inside closures of fold/map/prune/pipelines on the same tree; on 2 to 8 threads with injected delays; carried from thread to thread; every element compared with the traversal alone and the tree compared afterwards; distinct by (tree, family, kind, plan); non-trivial: at least 2 nodes",
            self.src.text(),
            self.lists.text(),
            self.rounds
        )
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        if i == 0 {
            return cx.eval(1, true, || "which borrowed traversals may move to another thread".into(), sendable);
        }
        // lists and single trees alternate as long as there are both
        let (nl, ns) = (self.lists.cases(), self.src.cases());
        let (list, i) = {
            let (i, both) = (i - 1, 2 * nl.min(ns));
            if i < both {
                ((i + i / 8) % 2 == 1, i / 2)
            } else {
                (nl > ns, i - both / 2)
            }
        };
        if list {
            let (bin, ms, mut r) = self.lists.get("P22l", seed, i);
            for threads in [false, true] {
                let plan = r.next();
                let seen = Cell::new((0, 0, 0));
                cx.eval(
                    key(&[lists_key(&ms), plan]),
                    ms.iter().map(|m| m.len()).sum::<usize>() > 1,
                    || format!("collection traversals, on threads: {threads}, plan {plan} on {}", show(&ms)),
                    || list_act(bin, &ms, threads, &mut Rng::new(plan, "plan", 0), &seen),
                )?;
                if threads {
                    self.note(cx, true, seen.get());
                }
            }
            return Ok(());
        }
        let (m, mut r) = self.src.get("P22", seed, i);
        let big = m.len() > 1500 || m.height() > 300;
        cx.peak("largest_tree", m.len() as u64);
        for (fi, fam) in fams(m.binary).iter().enumerate() {
            if (big || cfg!(miri)) && fi as u64 != i % fams(m.binary).len() as u64 {
                continue;
            }
            for act in ACTS {
                for _ in 0..if big { 1 } else { self.rounds } {
                    if big && (m.len() > 10_000 && act == Act::Hops || m.height() > 1500) {
                        continue;
                    }
                    let plan = r.next();
                    let seen = Cell::new((0, 0, 0));
                    cx.eval(
                        key(&[m.shape_key(), fi as u64, act as u64, plan]),
                        m.len() > 1,
                        || format!("{fam} {act:?} plan {plan} on {}", m.show()),
                        || act_of(&m, fam, act, &mut Rng::new(plan, "plan", 0), &seen),
                    )?;
                    match act {
                        Act::Threads => self.note(cx, true, seen.get()),
                        Act::Hops => self.note(cx, false, seen.get()),
                        _ => {}
                    }
                }
            }
        }
        Ok(())
    }
}
