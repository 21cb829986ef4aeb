//! Drivers: run one iterator of the library to its end (or to a chosen point) and record what it
//! yields at its public boundary.
use crate::model::*;
use crate::nodes::*;
use crate::tok::*;
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Own {
    Owned,
    Mut,
    Ref,
}
pub const OWNS: [Own; 3] = [Own::Owned, Own::Mut, Own::Ref];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Plain,
    /// `.leaves()` after k elements were taken
    Leaves(usize),
    Anc,
    /// `.attach_ancestors()`, k steps, `.leaves()`
    AncLeaves(usize),
    Ctx,
    /// `.attach_context()` after k elements were taken
    LateCtx(usize),
    LateAnc(usize),
    /// plain traversal driven through another entry point of the Iterator trait
    Adapt(Adapt),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Adapt {
    ForEach,
    Nth(usize),
    Last,
    Count,
    Collect,
    Fold,
    Find,
    /// through the mutable side of a streaming iterator, where it has one: `next_mut`, then `for_each_mut` / `fold_mut`
    ForEachMut,
    FoldMut,
}
impl Adapt {
    pub fn any(r: &mut crate::rng::Rng) -> Adapt {
        match r.below(10) {
            8 => Adapt::ForEachMut,
            9 => Adapt::FoldMut,
            0 => Adapt::ForEach,
            1 => Adapt::Nth(0),
            2 => Adapt::Nth(r.range(1, 4)),
            3 => Adapt::Last,
            4 => Adapt::Count,
            5 => Adapt::Collect,
            6 => Adapt::Fold,
            _ => Adapt::Find,
        }
    }
}

thread_local!(
    /// what the drivers do at their stopping point, instead of dropping the iterator there
    static THEN: std::cell::Cell<Option<Adapt>> = const { std::cell::Cell::new(None) }
);
/// run `f` with every driver continuing through another entry point of the iterator's trait at its stopping point
pub fn and_then<T>(a: Adapt, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            THEN.with(|t| t.set(None))
        }
    }
    let _reset = Reset;
    THEN.with(|t| t.set(Some(a)));
    f()
}
pub fn then() -> Option<Adapt> {
    THEN.with(|t| t.get())
}
/// what must be observed when a driver that would see `evs` continues with `a` after `stop` of them
pub fn expect_then(evs: Vec<Ev>, stop: usize, a: Adapt) -> (Vec<Ev>, Option<usize>) {
    let stop = stop.min(evs.len());
    let (mut v, rest) = (evs[..stop].to_vec(), evs[stop..].to_vec());
    let count = (a == Adapt::Count).then_some(rest.len());
    match a {
        Adapt::ForEach | Adapt::Collect | Adapt::Fold | Adapt::Find | Adapt::ForEachMut | Adapt::FoldMut => v.extend(rest),
        Adapt::Nth(k) => v.extend(rest.into_iter().skip(k).step_by(k + 1)),
        Adapt::Last => v.extend(rest.into_iter().last()),
        Adapt::Count => {}
    }
    (v, count)
}
fn finish_streaming<S: StreamingIterator>(mut it: S, a: Adapt, mut o: Obs, cap: usize, ev: impl Fn(&S::Item) -> Ev) -> Obs {
    let mut n = o.evs.len();
    let mut add = |o: &mut Obs, e: Ev| {
        n += 1;
        if n <= cap {
            o.evs.push(e)
        } else {
            o.runaway = true;
            if n > 4 * cap + 100_000 {
                panic!("endless traversal")
            }
        }
    };
    match a {
        Adapt::ForEach | Adapt::ForEachMut => it.for_each(|x| add(&mut o, ev(x))),
        Adapt::Fold | Adapt::Collect | Adapt::FoldMut => {
            it.fold((), |_, x| add(&mut o, ev(x)));
        }
        Adapt::Nth(k) => {
            while let Some(x) = it.nth(k) {
                add(&mut o, ev(x))
            }
        }
        Adapt::Find => {
            while let Some(x) = it.find(|_| true) {
                add(&mut o, ev(x))
            }
        }
        Adapt::Last => {
            let last = it.fold(None, |_, x| Some(ev(x)));
            o.evs.extend(last)
        }
        Adapt::Count => o.count = Some(it.count()),
    }
    o
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Ev {
    pub id: u64,
    pub anc: Option<Vec<u64>>,
    pub path: Option<Vec<usize>>,
    pub depth: Option<usize>,
    pub kids: Option<Option<Vec<Option<u64>>>>,
}

#[derive(Clone, Debug, Default)]
pub struct Obs {
    /// elements taken before the conversion (Leaves / AncLeaves / Late*)
    pub prefix: Vec<u64>,
    pub evs: Vec<Ev>,
    /// the driver stopped because more elements came than the tree could hold
    pub runaway: bool,
    /// an element came after the iterator had returned None
    pub resurrected: bool,
    pub opens_at: Vec<usize>,
    /// size_hint() before each step
    pub hints: Vec<(usize, Option<usize>)>,
    pub ended: bool,
    /// what `count()` answered
    pub count: Option<usize>,
}

pub fn drive_adapt<I: Iterator>(mut it: I, a: Adapt, cap: usize) -> Obs
where
    I::Item: Ident,
{
    let mut o = Obs::default();
    let ev = |v: I::Item| Ev { id: v.id(), ..Default::default() };
    match a {
        Adapt::ForEach | Adapt::ForEachMut => {
            let mut n = 0;
            it.for_each(|v| {
                tick(AT_CLOSURE);
                n += 1;
                if n <= cap {
                    o.evs.push(ev(v))
                } else if n > 4 * cap + 100_000 {
                    panic!("endless traversal")
                }
            });
            o.runaway = n > cap;
        }
        Adapt::Nth(k) => loop {
            match it.nth(k) {
                None => break,
                Some(v) => o.evs.push(ev(v)),
            }
            if o.evs.len() > cap {
                o.runaway = true;
                break;
            }
        },
        Adapt::Fold | Adapt::FoldMut => {
            let mut n = 0;
            o.evs = it.fold(vec![], |mut evs, v| {
                n += 1;
                if n <= cap {
                    evs.push(ev(v))
                } else if n > 4 * cap + 100_000 {
                    panic!("endless traversal")
                }
                evs
            });
            o.runaway = n > cap;
        }
        Adapt::Find => {
            while let Some(v) = it.find(|_| true) {
                o.evs.push(ev(v));
                if o.evs.len() > cap {
                    o.runaway = true;
                    break;
                }
            }
        }
        Adapt::Last => o.evs.extend(it.last().map(ev)),
        Adapt::Count => o.count = Some(it.count()),
        Adapt::Collect => o.evs = it.by_ref().take(cap + 1).collect::<Vec<_>>().into_iter().map(ev).collect(),
    }
    o
}

pub fn drive_iter<I: Iterator>(mut it: I, stop: usize, cap: usize) -> Obs
where
    I::Item: Ident,
{
    let mut o = Obs::default();
    loop {
        if o.evs.len() >= stop {
            if let Some(a) = THEN.with(|t| t.get()) {
                let rest = drive_adapt(it, a, cap);
                o.evs.extend(rest.evs);
                o.runaway |= rest.runaway;
                o.count = rest.count;
            }
            return o;
        }
        o.hints.push(it.size_hint());
        match it.next() {
            None => break,
            Some(v) => o.evs.push(Ev { id: v.id(), ..Default::default() }),
        }
        o.opens_at.push(opens_len());
        if o.evs.len() > cap {
            o.runaway = true;
            return o;
        }
    }
    o.ended = true;
    for _ in 0..2 {
        if it.next().is_some() {
            o.resurrected = true;
        }
    }
    o
}

pub fn drive_anc<S: StreamingIterator, V: Ident>(mut it: S, stop: usize, cap: usize) -> Obs
where
    S::Item: AsRef<[V]>,
{
    let mut o = Obs::default();
    loop {
        if o.evs.len() >= stop {
            return match THEN.with(|t| t.get()) {
                None => o,
                Some(a) => finish_streaming(it, a, o, cap, |v| {
                    let anc: Vec<u64> = v.as_ref().iter().map(|v| v.id()).collect();
                    Ev { id: anc.last().copied().unwrap_or(0), anc: Some(anc), ..Default::default() }
                }),
            };
        }
        o.hints.push(it.size_hint());
        it.advance();
        if it.is_done() != it.get().is_none() {
            o.resurrected = true;
        }
        match it.get() {
            None => break,
            Some(v) => {
                let anc: Vec<u64> = v.as_ref().iter().map(|v| v.id()).collect();
                o.evs.push(Ev { id: anc.last().copied().unwrap_or(0), anc: Some(anc), ..Default::default() });
            }
        }
        // the current element is stable between advances
        let again: Vec<u64> = it.get().map(|v| v.as_ref().iter().map(|v| v.id()).collect()).unwrap_or_default();
        if Some(&again) != o.evs.last().and_then(|e| e.anc.as_ref()) {
            o.resurrected = true;
        }
        o.opens_at.push(opens_len());
        if o.evs.len() > cap {
            o.runaway = true;
            return o;
        }
    }
    o.ended = true;
    o
}

pub fn ctx_ev<V: Ident, C: Kids>(c: &TreeContext<V, C>, with_kids: bool) -> Ev {
    let anc: Vec<u64> = c.ancestors().iter().map(|v| v.id()).collect();
    Ev {
        id: anc.last().copied().unwrap_or(0),
        anc: Some(anc),
        path: Some(c.path().to_vec()),
        depth: Some(c.depth()),
        kids: if with_kids { Some(c.children().kid_ids()) } else { None },
    }
}

pub fn drive_ctx<S, V: Ident, C: Kids>(mut it: S, stop: usize, cap: usize, with_kids: bool) -> Obs
where
    S: StreamingIterator<Item = TreeContext<V, C>>,
{
    let mut o = Obs::default();
    loop {
        if o.evs.len() >= stop {
            return match THEN.with(|t| t.get()) {
                None => o,
                Some(a) => finish_streaming(it, a, o, cap, |c| ctx_ev(c, with_kids)),
            };
        }
        o.hints.push(it.size_hint());
        match it.next() {
            None => break,
            Some(c) => o.evs.push(ctx_ev(c, with_kids)),
        }
        if it.is_done() {
            o.resurrected = true;
        }
        o.opens_at.push(opens_len());
        if o.evs.len() > cap {
            o.runaway = true;
            return o;
        }
    }
    o.ended = true;
    o
}

/// the same iterator, used through its mutable side when the continuation asks for that
pub struct ViaMut<S>(pub S);
fn via_mut() -> bool {
    matches!(then(), Some(Adapt::ForEachMut | Adapt::FoldMut))
}
impl<S: StreamingIteratorMut> StreamingIterator for ViaMut<S> {
    type Item = S::Item;
    fn advance(&mut self) {
        self.0.advance()
    }
    fn get(&self) -> Option<&S::Item> {
        self.0.get()
    }
    fn next(&mut self) -> Option<&S::Item> {
        match via_mut() {
            true => self.0.next_mut().map(|x| &*x),
            false => self.0.next(),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn is_done(&self) -> bool {
        self.0.is_done()
    }
    fn count(self) -> usize {
        self.0.count()
    }
    fn find<F: FnMut(&S::Item) -> bool>(&mut self, f: F) -> Option<&S::Item> {
        self.0.find(f)
    }
    fn nth(&mut self, n: usize) -> Option<&S::Item> {
        self.0.nth(n)
    }
    fn fold<B, F: FnMut(B, &S::Item) -> B>(self, init: B, mut f: F) -> B {
        match via_mut() {
            true => self.0.fold_mut(init, |b, x| f(b, x)),
            false => self.0.fold(init, f),
        }
    }
    fn for_each<F: FnMut(&S::Item)>(self, mut f: F) {
        match via_mut() {
            true => self.0.for_each_mut(|x| f(x)),
            false => self.0.for_each(f),
        }
    }
}

macro_rules! take_k {
    ($it:ident, $k:expr) => {{
        let mut pre = vec![];
        for _ in 0..$k {
            // asked again beyond its end, it stays ended
            if let Some(v) = $it.next() {
                pre.push(v.id());
            }
        }
        pre
    }};
}
pub fn same<S>(s: S) -> S {
    s
}
macro_rules! modes {
    ($w:path, $it:expr, $mode:expr, $stop:expr, $cap:expr, $kids:expr) => {
        match $mode {
            Mode::Plain => drive_iter($it, $stop, $cap),
            Mode::Adapt(a) => drive_adapt($it, a, $cap),
            Mode::Leaves(k) => {
                let mut it = $it;
                let pre = take_k!(it, k);
                let mut o = drive_iter(it.leaves(), $stop, $cap);
                o.prefix = pre;
                o
            }
            Mode::Anc => drive_anc($w($it.attach_ancestors()), $stop, $cap),
            Mode::AncLeaves(k) => {
                let mut it = $it.attach_ancestors();
                let mut pre = vec![];
                for _ in 0..k {
                    // (what a streaming iterator does when advanced beyond its end is unspecified)
                    match it.next() {
                        Some(v) => pre.push(v.last().map(|v| v.id()).unwrap_or(0)),
                        None => break,
                    }
                }
                let mut o = drive_anc($w(it.leaves()), $stop, $cap);
                o.prefix = pre;
                o
            }
            Mode::Ctx => drive_ctx($w($it.attach_context()), $stop, $cap, $kids),
            Mode::LateCtx(k) => {
                let mut it = $it;
                let pre = take_k!(it, k);
                let mut o = drive_ctx($w(it.attach_context()), $stop, $cap, $kids);
                o.prefix = pre;
                o
            }
            Mode::LateAnc(k) => {
                let mut it = $it;
                let pre = take_k!(it, k);
                let mut o = drive_anc($w(it.attach_ancestors()), $stop, $cap);
                o.prefix = pre;
                o
            }
        }
    };
}

pub fn owned_generic<N>(n: N, ord: Order, mode: Mode, stop: usize, cap: usize) -> Obs
where
    N: OwnedTreeNode,
    N::OwnedValue: Ident,
    N::OwnedChildren: Kids,
{
    match ord {
        Order::Bfs => modes!(ViaMut, n.bfs(), mode, stop, cap, true),
        Order::Pre => modes!(ViaMut, n.dfs_preorder(), mode, stop, cap, true),
        Order::Post => modes!(ViaMut, n.dfs_postorder(), mode, stop, cap, false),
        Order::In => unreachable!(),
    }
}
pub fn mut_generic<'a, N>(n: &'a mut N, ord: Order, mode: Mode, stop: usize, cap: usize) -> Obs
where
    N: MutBorrowedTreeNode<'a>,
    N::MutBorrowedValue: Ident,
    N::MutBorrowedChildren: Kids,
{
    match ord {
        Order::Bfs => modes!(ViaMut, n.bfs_iter_mut(), mode, stop, cap, true),
        Order::Pre => modes!(ViaMut, n.dfs_preorder_iter_mut(), mode, stop, cap, true),
        Order::Post => modes!(ViaMut, n.dfs_postorder_iter_mut(), mode, stop, cap, true),
        Order::In => unreachable!(),
    }
}
pub fn ref_generic<'a, N>(n: &'a N, ord: Order, mode: Mode, stop: usize, cap: usize) -> Obs
where
    N: BorrowedTreeNode<'a>,
    N::BorrowedValue: Ident,
    N::BorrowedChildren: Kids,
{
    match ord {
        Order::Bfs => modes!(same, n.bfs_iter(), mode, stop, cap, true),
        Order::Pre => modes!(same, n.dfs_preorder_iter(), mode, stop, cap, true),
        Order::Post => modes!(same, n.dfs_postorder_iter(), mode, stop, cap, true),
        Order::In => unreachable!(),
    }
}
pub fn owned_binary<N>(n: N, ord: Order, mode: Mode, stop: usize, cap: usize) -> Obs
where
    N: OwnedBinaryTreeNode + NodeId,
    N::OwnedValue: Ident,
{
    match ord {
        Order::Bfs => modes!(ViaMut, n.bfs(), mode, stop, cap, true),
        Order::Pre => modes!(ViaMut, n.dfs_preorder(), mode, stop, cap, true),
        Order::Post => modes!(ViaMut, n.dfs_postorder(), mode, stop, cap, false),
        Order::In => modes!(ViaMut, n.dfs_inorder(), mode, stop, cap, false),
    }
}
pub fn mut_binary<'a, N>(n: &'a mut N, ord: Order, mode: Mode, stop: usize, cap: usize) -> Obs
where
    N: MutBorrowedBinaryTreeNode<'a> + NodeId,
    N::MutBorrowedValue: Ident,
{
    match ord {
        Order::Bfs => modes!(ViaMut, n.bfs_iter_mut(), mode, stop, cap, true),
        Order::Pre => modes!(ViaMut, n.dfs_preorder_iter_mut(), mode, stop, cap, true),
        Order::Post => modes!(ViaMut, n.dfs_postorder_iter_mut(), mode, stop, cap, true),
        Order::In => modes!(ViaMut, n.dfs_inorder_iter_mut(), mode, stop, cap, true),
    }
}
pub fn ref_binary<'a, N>(n: &'a N, ord: Order, mode: Mode, stop: usize, cap: usize) -> Obs
where
    N: BorrowedBinaryTreeNode<'a> + NodeId,
    N::BorrowedValue: Ident,
{
    match ord {
        Order::Bfs => modes!(same, n.bfs_iter(), mode, stop, cap, true),
        Order::Pre => modes!(same, n.dfs_preorder_iter(), mode, stop, cap, true),
        Order::Post => modes!(same, n.dfs_postorder_iter(), mode, stop, cap, true),
        Order::In => modes!(same, n.dfs_inorder_iter(), mode, stop, cap, true),
    }
}

pub type Fam = &'static str;
pub const GEN_FAMS: [Fam; 4] = ["Tree", "ListNode", "VecRefNode", "SpyNode"];
pub const BIN_FAMS: [Fam; 2] = ["BinaryTree", "SpyBin"];
pub fn fams(binary: bool) -> &'static [Fam] {
    if binary {
        &BIN_FAMS
    } else {
        &GEN_FAMS
    }
}
pub fn orders(binary: bool) -> &'static [Order] {
    if binary {
        &BIN_ORDERS
    } else {
        &GEN_ORDERS
    }
}

/// run one traversal of the model's tree in the given family
pub fn run(m: &Model, fam: Fam, own: Own, ord: Order, mode: Mode, stop: usize, spy: bool) -> Obs {
    let cap = m.len() * 2 + 8;
    macro_rules! go {
        ($t:ty, $o:ident, $m:ident, $r:ident) => {{
            let mut n = <$t as Build>::build(m);
            if spy {
                opens_on();
            }
            match own {
                Own::Owned => $o(n, ord, mode, stop, cap),
                Own::Mut => $m(&mut n, ord, mode, stop, cap),
                Own::Ref => $r(&n, ord, mode, stop, cap),
            }
        }};
    }
    match fam {
        #[cfg(not(feature = "spies"))]
        "Tree" => go!(Tree<Tok>, owned_generic, mut_generic, ref_generic),
        #[cfg(not(feature = "spies"))]
        "ListNode" => go!(ListNode, owned_generic, mut_generic, ref_generic),
        #[cfg(not(feature = "spies"))]
        "VecRefNode" => go!(VecRefNode, owned_generic, mut_generic, ref_generic),
        "SpyNode" => go!(SpyNode, owned_generic, mut_generic, ref_generic),
        #[cfg(not(feature = "spies"))]
        "BinaryTree" => go!(BinaryTree<Tok>, owned_binary, mut_binary, ref_binary),
        "SpyBin" => go!(SpyBin, owned_binary, mut_binary, ref_binary),
        _ => unreachable!(),
    }
}

/// what the documentation promises for the same traversal
pub fn expect(m: &Model, own: Own, ord: Order, mode: Mode) -> (Vec<u64>, Vec<Ev>) {
    let o = m.order(ord);
    let anc_ev = |i: usize| Ev { id: m.nodes[i].id, anc: Some(m.ancestors(i)), ..Default::default() };
    let remaining_leaves = |k: usize| -> Vec<usize> {
        let mut done = vec![false; m.len()];
        o[..k.min(o.len())].iter().for_each(|i| done[*i] = true);
        let seq = if ord == Order::Bfs { o.clone() } else { m.preorder() };
        seq.into_iter().filter(|i| m.is_leaf(*i) && !done[*i]).collect()
    };
    match mode {
        Mode::Adapt(a) => {
            let all: Vec<Ev> = o.iter().map(|i| Ev { id: m.nodes[*i].id, ..Default::default() }).collect();
            (
                vec![],
                match a {
                    Adapt::ForEach | Adapt::Collect | Adapt::Fold | Adapt::Find | Adapt::ForEachMut | Adapt::FoldMut => all,
                    Adapt::Nth(k) => all.into_iter().skip(k).step_by(k + 1).collect(),
                    Adapt::Last => all.into_iter().last().into_iter().collect(),
                    Adapt::Count => vec![],
                },
            )
        }
        Mode::Plain => (vec![], o.iter().map(|i| Ev { id: m.nodes[*i].id, ..Default::default() }).collect()),
        Mode::Leaves(k) => (
            m.ids(&o[..k.min(o.len())]),
            remaining_leaves(k).into_iter().map(|i| Ev { id: m.nodes[i].id, ..Default::default() }).collect(),
        ),
        Mode::Anc | Mode::LateAnc(_) => (vec![], o.iter().map(|i| anc_ev(*i)).collect()),
        Mode::AncLeaves(k) => (m.ids(&o[..k.min(o.len())]), remaining_leaves(k).into_iter().map(anc_ev).collect()),
        Mode::Ctx | Mode::LateCtx(_) => (
            vec![],
            o.iter()
                .map(|&i| Ev {
                    path: Some(m.nodes[i].path.clone()),
                    depth: Some(m.depth(i)),
                    kids: if own == Own::Owned && matches!(ord, Order::In | Order::Post) { None } else { Some(Some(m.kid_ids(i))) },
                    ..anc_ev(i)
                })
                .collect(),
        ),
    }
}

/// compare a run that continued with `a` after `stop` elements
pub fn diff_then(m: &Model, obs: &Obs, exp: (Vec<u64>, Vec<Ev>), stop: usize, a: Adapt) -> Option<String> {
    let (evs, count) = expect_then(exp.1, stop, a);
    if obs.count != count && obs.evs.len() >= stop.min(evs.len()) {
        // an iterator that ended before the stopping point was never asked
        if !(obs.ended && obs.count.is_none() && count == Some(0)) {
            return Some(format!("count() after {stop} elements answered {:?}, expected {count:?}", obs.count));
        }
    }
    let obs = Obs { count: None, ended: false, ..obs.clone() };
    diff(m, &obs, &(exp.0, evs), usize::MAX)
}

/// compare, returning a description of the first difference
pub fn diff(m: &Model, obs: &Obs, exp: &(Vec<u64>, Vec<Ev>), stop: usize) -> Option<String> {
    if obs.runaway {
        return Some(format!("more than {} elements yielded for {} nodes", obs.evs.len() - 1, m.len()));
    }
    if obs.resurrected {
        return Some("the iterator changed its current element, or yielded after returning None".into());
    }
    if obs.prefix != exp.0 {
        return Some(format!("elements before the conversion: got {:?}, expected {:?}", obs.prefix, exp.0));
    }
    for (i, e) in exp.1.iter().enumerate() {
        if i >= stop {
            break;
        }
        let Some(g) = obs.evs.get(i) else {
            return Some(format!(
                "ended after {} elements, expected {} (next: {:?})",
                obs.evs.len(),
                exp.1.len(),
                e
            ));
        };
        if g.id != e.id {
            return Some(format!("element {i}: got node {}, expected node {}", g.id, e.id));
        }
        if g.anc != e.anc {
            return Some(format!("element {i} (node {}): ancestors {:?}, expected {:?}", e.id, g.anc, e.anc));
        }
        if g.path != e.path {
            return Some(format!("element {i} (node {}): path {:?}, expected {:?}", e.id, g.path, e.path));
        }
        if g.depth != e.depth {
            return Some(format!("element {i} (node {}): depth {:?}, expected {:?}", e.id, g.depth, e.depth));
        }
        if g.kids != e.kids {
            // a children iterator that only shows its length
            let len_only = match (&g.kids, &e.kids) {
                (Some(Some(a)), Some(Some(b))) => !m.binary && a.len() == b.len() && a.iter().all(|x| x.is_none()),
                _ => false,
            };
            if !len_only {
                return Some(format!("element {i} (node {}): children {:?}, expected {:?}", e.id, g.kids, e.kids));
            }
        }
    }
    if let Some(c) = obs.count {
        if c != m.len() {
            return Some(format!("count() answered {c} for {} nodes", m.len()));
        }
    }
    if obs.ended {
        for (i, (lo, hi)) in obs.hints.iter().enumerate() {
            let rest = obs.evs.len() - i.min(obs.evs.len());
            if *lo > rest || hi.is_some_and(|h| h < rest) {
                return Some(format!("size_hint() before element {i} was ({lo}, {hi:?}) with {rest} elements left"));
            }
        }
    }
    if obs.evs.len() > exp.1.len() {
        return Some(format!("extra element after {}: {:?}", exp.1.len(), obs.evs[exp.1.len()]));
    }
    None
}
