//! P20: nodes are opened on demand, infinite trees can be traversed, pipelines never look below a
//! pruned node and fold keeps one pending value per level.
use crate::engine::*;
use crate::model::*;
use crate::p_pipe::{run_job, Direct, Job};
use crate::rng::Rng;
use crate::stages::*;
use crate::tok::*;
use crate::traverse::*;

/// Part 1: finite trees whose nodes log every opening.
pub struct OnDemand {
    src: Src,
}
impl OnDemand {
    pub fn new(src: Src) -> Self {
        OnDemand { src }
    }
}
/// positions (in the traversal's order) at which each node may first be opened
fn judge_opens(m: &Model, own: Own, ord: Order, mode: Mode, obs: &Obs, log: &[u64]) -> Result<u64, String> {
    let o = m.order(ord);
    let mut index = std::collections::HashMap::new();
    m.nodes.iter().enumerate().for_each(|(i, n)| {
        index.insert(n.id, i);
    });
    // may[i]: node i may have been opened
    let mut may = vec![false; m.len()];
    let grant_up = |may: &mut Vec<bool>, i: usize| {
        let mut c = Some(i);
        while let Some(x) = c {
            if may[x] {
                break;
            }
            may[x] = true;
            c = m.nodes[x].parent;
        }
    };
    let leaves = matches!(mode, Mode::Leaves(_) | Mode::AncLeaves(_));
    // what was visited before the conversion
    if let Mode::Leaves(k) | Mode::AncLeaves(k) = mode {
        for i in &o[..k.min(o.len())] {
            grant_up(&mut may, *i);
        }
    }
    let scan = if ord == Order::Bfs { o.clone() } else { m.preorder() };
    let (mut at, mut checked, mut n) = (0, 0, 0u64);
    for (j, ev) in obs.evs.iter().enumerate() {
        let i = index[&ev.id];
        if leaves {
            // looking for the next leaf passes everything in front of it
            while at < scan.len() && scan[at] != i {
                grant_up(&mut may, scan[at]);
                at += 1;
            }
        }
        grant_up(&mut may, i);
        let until = obs.opens_at.get(j).copied().unwrap_or(checked);
        for id in &log[checked..until] {
            n += 1;
            let x = index[id];
            if !may[x] {
                let _ = own;
                return Err(format!("node {id} was opened to produce element {j} (node {}), which needs only nodes on the way to it", ev.id));
            }
        }
        checked = until;
    }
    Ok(n)
}
impl Prop for OnDemand {
    fn cases(&self) -> u64 {
        self.src.cases()
    }
    fn rule(&self) -> String {
        format!("{}: every traversal, with ancestors, context, leaves() at several points", self.src.text())
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        let (m, mut r) = self.src.get("lazy", seed, i);
        let n = m.len();
        cx.peak("largest_tree", n as u64);
        let fam = if m.binary { "SpyBin" } else { "SpyNode" };
        for own in OWNS {
            for ord in orders(m.binary) {
                let (a, b) = (r.below(n + 1), r.below(n + 1));
                for mode in [Mode::Plain, Mode::Anc, Mode::Ctx, Mode::Leaves(0), Mode::Leaves(a), Mode::AncLeaves(0), Mode::AncLeaves(b)] {
                    let k = key(&[m.shape_key(), skey(&format!("{own:?}{ord:?}{mode:?}"))]);
                    cx.eval(
                        k,
                        n > 1,
                        || format!("openings during {fam} {own:?} {ord:?} {mode:?} on {}", m.show()),
                        || {
                            let obs = run(&m, fam, own, *ord, mode, usize::MAX, true);
                            judge_opens(&m, own, *ord, mode, &obs, &opens())
                        },
                    )?;
                }
            }
        }
        Ok(())
    }
}

/// Part 2: pipelines and direct operations on finite trees whose nodes log every opening.
pub struct Below {
    src: Src,
}
impl Below {
    pub fn new(src: Src) -> Self {
        Below { src }
    }
}
fn judge_below(m: &Model, rf: &Reference, term: Option<usize>, log: &[u64]) -> Result<u64, String> {
    let pre = m.preorder();
    let mut place = vec![0; m.len()];
    pre.iter().enumerate().for_each(|(p, i)| place[*i] = p);
    // iteration stopped after k elements must not have looked beyond them
    let limit = match term {
        Some(0) => return if log.is_empty() { Ok(0) } else { Err(format!("opened nodes {log:?} before anything was asked for")) },
        Some(k) if k <= rf.out.len() => place[rf.out[k - 1].0],
        _ => m.len(),
    };
    let index: std::collections::HashMap<u64, usize> = m.nodes.iter().enumerate().map(|(i, n)| (n.id, i)).collect();
    for id in log {
        let i = index[id];
        let parent_stays = m.nodes[i].parent.map(|p| rf.reached[p] && rf.out.iter().any(|o| o.0 == p)).unwrap_or(true);
        if !parent_stays {
            return Err(format!("node {id} was opened although an ancestor was pruned"));
        }
        if place[i] > limit {
            return Err(format!("node {id} was opened before anything behind element {} was asked for", term.unwrap()));
        }
    }
    Ok(log.len() as u64 + 1)
}
impl Prop for Below {
    fn cases(&self) -> u64 {
        self.src.cases()
    }
    fn rule(&self) -> String {
        format!("{}: map, prune, fold and random pipelines (stopped at random points) with every opening logged", self.src.text())
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        let (m, mut r) = self.src.get("below", seed, i);
        if m.len() > 3000 {
            return Ok(());
        }
        let h = m.height();
        let fam = if m.binary { "SpyBin" } else { "SpyNode" };
        for own in OWNS {
            for j in 0..14 {
                let salt = r.next();
                let (den, root) = (*r.pick(&[1, 2, 3, 5]), r.chance(1, 40));
                let ops: Vec<Op>;
                let (job, term) = match j {
                    0 => (Some((Op::Map(salt), Direct::Map)), None),
                    1 => (Some((Op::MapPath(salt), Direct::MapPath)), None),
                    2 => (Some((Op::Prune { salt, den, root }, Direct::Prune)), None),
                    3 => (Some((Op::PrunePath { salt, den, root }, Direct::PrunePath)), None),
                    4 => (Some((Op::Depth(r.below(h + 2)), Direct::PruneDepth)), None),
                    5 => (Some((Op::Depth(usize::MAX), Direct::Fold)), None),
                    6 => (Some((Op::Depth(usize::MAX), Direct::FoldPath)), None),
                    7 => (None, Some(Term::Collect)),
                    8 => (None, Some(Term::Fold)),
                    9 => (None, Some(Term::FoldPath)),
                    10 => (None, Some(Term::Iter(usize::MAX))),
                    _ => (None, Some(Term::Iter(r.below(m.len() + 1)))),
                };
                match job {
                    Some((op, _)) => ops = vec![op],
                    None => ops = (0..r.below(5)).map(|_| random_op(&mut r, h)).collect(),
                }
                let k = key(&[m.shape_key(), own as u64, j, salt]);
                let rf = reference(&m, &ops);
                let j = match (job, term) {
                    (Some((op, d)), _) => Job::Direct(op, d),
                    (_, Some(t)) => Job::Pipe(&ops, t),
                    _ => unreachable!(),
                };
                let k_elems = match term {
                    Some(Term::Iter(k)) => Some(k),
                    _ => None,
                };
                cx.eval(
                    k,
                    m.len() > 1,
                    || format!("openings during {fam} {own:?} {j:?} on {}", m.show()),
                    || {
                        opens_on();
                        run_job(&m, fam, own, j)?;
                        judge_below(&m, &rf, k_elems, &opens())
                    },
                )?;
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ Part 3: trees without an end
use crate::nodes::*;
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::{HashMap, HashSet, VecDeque};
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;

thread_local! {
    static SPEC: Cell<(u64, u8)> = const { Cell::new((0, 0)) };
    static MADE: Cell<u64> = const { Cell::new(0) };
    static ROOTS: Cell<u64> = const { Cell::new(0) };
}
/// what there is to know about a node without opening it
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Seed {
    id: u64,
    depth: u32,
    /// levels left below this node (binary trees whose left subtrees end)
    left: u32,
}
#[derive(Clone, Copy)]
enum Slot {
    Node(Seed),
    Empty,
    End,
}
/// generic kinds: 0 every node has 1-3 children; 1 every node has infinitely many; 2 a mix of leaves,
/// small families and infinite ones; 3 infinitely many finite subtrees below the root; 4 small and finite;
/// 5 like 2 without infinite families.
/// binary kinds: 10 complete; 11 random; 12 finite left subtrees; 13 finite
fn slot(s: Seed, i: usize) -> Slot {
    let (salt, kind) = SPEC.with(|x| x.get());
    let h = key(&[salt, s.id]);
    let child = |left| Slot::Node(Seed { id: key(&[salt, s.id, i as u64 + 1]) >> 2, depth: s.depth + 1, left });
    if kind >= 10 {
        if i > 1 {
            return Slot::End;
        }
        return match kind {
            10 => child(0),
            11 if (h >> (20 + i)) & 3 != 0 => child(0),
            12 if i == 1 && s.left == u32::MAX => child(u32::MAX),
            12 if i == 0 && s.left == u32::MAX && h & 64 != 0 => child(3),
            12 if s.left != u32::MAX && s.left > 0 && (h >> (20 + i)) & 1 != 0 => child(s.left - 1),
            13 if s.left > 0 && (h >> (20 + 2 * i)) & 3 != 0 => child(s.left.min(9) - 1),
            _ => Slot::Empty,
        };
    }
    let n = width(s);
    if i < n {
        child(0)
    } else {
        Slot::End
    }
}
/// how many children a node of the generic kinds has
fn width(s: Seed) -> usize {
    let (salt, kind) = SPEC.with(|x| x.get());
    let h = key(&[salt, s.id]);
    match kind {
        0 => 1 + (h % 3) as usize,
        1 => usize::MAX,
        2 => match h % 8 {
            0 | 1 => 0,
            2 => usize::MAX,
            x => (x as usize - 1) / 2,
        },
        5 => match h % 8 {
            0 | 1 => 0,
            x => (x as usize + 1) / 2,
        },
        3 if s.depth == 0 => usize::MAX,
        3 if s.depth < 4 => (h % 4) as usize,
        4 if s.depth < 3 => (h % 4) as usize,
        _ => 0,
    }
}
/// what an iterator over them truthfully says about its length: nothing, or everything
fn told(s: Seed, at: usize) -> (usize, Option<usize>) {
    match width(s) {
        _ if SPEC.with(|x| x.get()).0 & 1 != 0 => (0, None),
        usize::MAX => (usize::MAX, None),
        n => (n - at, Some(n - at)),
    }
}
/// an iterator without an end which says so
pub struct Unending<F>(F);
impl<T, F: FnMut() -> T> Iterator for Unending<F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        Some((self.0)())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (if SPEC.with(|x| x.get()).0 & 2 != 0 { 0 } else { usize::MAX }, None)
    }
}
fn root_seed(n: u64) -> Seed {
    Seed { id: key(&[n, SPEC.with(|x| x.get()).0, 99]) >> 2, depth: 0, left: u32::MAX }
}

/// the specification: elements one at a time, straight from `slot`
struct Spec {
    order: Order,
    frames: Vec<(Seed, usize, bool)>,
    queue: VecDeque<(Vec<Seed>, Vec<usize>)>,
    at: Option<(Vec<Seed>, Vec<usize>, usize)>,
    root: Option<Seed>,
    path: Vec<usize>,
    /// nodes an implementation may have opened by now
    may: HashSet<u64>,
}
#[derive(Debug)]
struct Elem {
    id: u64,
    anc: Vec<u64>,
    path: Vec<usize>,
    leaf: bool,
}
fn is_leaf(s: Seed) -> bool {
    for i in 0..3 {
        match slot(s, i) {
            Slot::Node(_) => return false,
            Slot::Empty => {}
            Slot::End => return true,
        }
    }
    true
}
impl Spec {
    fn new(order: Order, root: Seed) -> Spec {
        Spec { order, frames: vec![], queue: VecDeque::new(), at: None, root: Some(root), path: vec![], may: HashSet::new() }
    }
    fn here(&mut self) -> Elem {
        let top = self.frames.last().unwrap().0;
        Elem { id: top.id, anc: self.frames.iter().map(|f| f.0.id).collect(), path: self.path.clone(), leaf: is_leaf(top) }
    }
    /// go to the next child of the node on top; false when there is none
    fn down(&mut self) -> bool {
        loop {
            let (s, i, _) = *self.frames.last().unwrap();
            self.frames.last_mut().unwrap().1 += 1;
            match slot(s, i) {
                Slot::Node(c) => {
                    self.may.insert(c.id);
                    self.frames.push((c, 0, false));
                    self.path.push(i);
                    return true;
                }
                Slot::Empty => {}
                Slot::End => return false,
            }
        }
    }
    fn next(&mut self) -> Option<Elem> {
        if let Some(r) = self.root.take() {
            self.may.insert(r.id);
            if self.order == Order::Bfs {
                self.queue.push_back((vec![r], vec![]));
                return Some(Elem { id: r.id, anc: vec![r.id], path: vec![], leaf: is_leaf(r) });
            }
            self.frames.push((r, 0, false));
            if self.order == Order::Pre {
                return Some(self.here());
            }
        }
        match self.order {
            Order::Bfs => loop {
                if self.at.is_none() {
                    let (a, p) = self.queue.pop_front()?;
                    self.at = Some((a, p, 0));
                }
                let (a, p, i) = self.at.as_mut().unwrap();
                let s = slot(*a.last().unwrap(), *i);
                *i += 1;
                match s {
                    Slot::Empty => {}
                    Slot::End => self.at = None,
                    Slot::Node(c) => {
                        let (mut a, mut p) = (a.clone(), { let mut q = p.clone(); q.push(*i - 1); q });
                        a.push(c);
                        self.may.insert(c.id);
                        let e = Elem { id: c.id, anc: a.iter().map(|s| s.id).collect(), path: p.clone(), leaf: is_leaf(c) };
                        p.shrink_to_fit();
                        self.queue.push_back((a, p));
                        return Some(e);
                    }
                }
            },
            Order::Pre => loop {
                if self.frames.is_empty() {
                    return None;
                }
                if self.down() {
                    return Some(self.here());
                }
                self.frames.pop();
                self.path.pop();
            },
            Order::Post => {
                // the element given last is still on top, marked
                if self.frames.last()?.2 {
                    self.frames.pop();
                    self.path.pop();
                    self.frames.last()?;
                }
                while self.down() {}
                self.frames.last_mut().unwrap().2 = true;
                Some(self.here())
            }
            Order::In => loop {
                let (s, i, _) = *self.frames.last()?;
                match i {
                    // left
                    0 => {
                        self.frames.last_mut().unwrap().1 = 1;
                        if let Slot::Node(c) = slot(s, 0) {
                            self.may.insert(c.id);
                            self.frames.push((c, 0, false));
                            self.path.push(0);
                        }
                    }
                    // itself
                    1 => {
                        self.frames.last_mut().unwrap().1 = 2;
                        return Some(self.here());
                    }
                    2 => {
                        self.frames.last_mut().unwrap().1 = 3;
                        if let Slot::Node(c) = slot(s, 1) {
                            self.may.insert(c.id);
                            self.frames.push((c, 0, false));
                            self.path.push(1);
                        }
                    }
                    _ => {
                        self.frames.pop();
                        self.path.pop();
                    }
                }
            },
        }
    }
}

/// owned nodes; children come from an iterator which makes them when asked
pub struct Inf(Seed);
pub struct InfKids(Seed, usize);
impl Iterator for InfKids {
    type Item = Inf;
    fn next(&mut self) -> Option<Inf> {
        match slot(self.0, self.1) {
            Slot::Node(s) => {
                self.1 += 1;
                MADE.with(|m| m.set(m.get() + 1));
                Some(Inf(s))
            }
            _ => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        told(self.0, self.1)
    }
}
impl Kids for InfKids {
    fn kid_ids(&self) -> Option<Vec<Option<u64>>> {
        Some((0..2).map_while(|i| if let Slot::Node(s) = slot(self.0, i) { Some(Some(s.id)) } else { None }).collect())
    }
}
impl OwnedTreeNode for Inf {
    type OwnedValue = Tok;
    type OwnedChildren = InfKids;
    fn get_value_and_children(self) -> (Tok, InfKids) {
        opened(self.0.id);
        (Tok::new(self.0.id), InfKids(self.0, 0))
    }
}
pub struct InfBin(Seed);
fn two<T>(s: Seed, mut f: impl FnMut(Seed) -> T) -> [Option<T>; 2] {
    [0, 1].map(|i| match slot(s, i) {
        Slot::Node(c) => Some(f(c)),
        _ => None,
    })
}
impl OwnedBinaryTreeNode for InfBin {
    type OwnedValue = Tok;
    fn get_value_and_children_binary(self) -> (Tok, [Option<Self>; 2]) {
        opened(self.0.id);
        (Tok::new(self.0.id), two(self.0, InfBin))
    }
}
/// borrowed nodes; children are made when the iterator over them is asked, and stay where they are
pub struct Grow {
    s: Seed,
    kids: RefCell<Vec<*mut Grow>>,
}
fn grow(s: Seed) -> Grow {
    Grow { s, kids: Default::default() }
}
impl Drop for Grow {
    fn drop(&mut self) {
        for k in self.kids.get_mut().drain(..) {
            drop(unsafe { Box::from_raw(k) })
        }
    }
}
impl NodeId for Grow {
    fn nid(&self) -> u64 {
        self.s.id
    }
}
fn grown(s: Seed, at: &mut usize, kids: &mut Vec<*mut Grow>) -> Option<*mut Grow> {
    let Slot::Node(c) = slot(s, *at) else { return None };
    MADE.with(|m| m.set(m.get() + 1));
    if *at == kids.len() {
        kids.push(Box::into_raw(Box::new(grow(c))));
    }
    *at += 1;
    Some(kids[*at - 1])
}
pub struct GrowKids<'a>(&'a Grow, usize);
impl<'a> Iterator for GrowKids<'a> {
    type Item = &'a Grow;
    fn next(&mut self) -> Option<&'a Grow> {
        grown(self.0.s, &mut self.1, &mut self.0.kids.borrow_mut()).map(|p| unsafe { &*p })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        told(self.0.s, self.1)
    }
}
impl std::iter::FusedIterator for GrowKids<'_> {}
impl<'a> BorrowedTreeNode<'a> for Grow {
    type BorrowedValue = ByVal;
    type BorrowedChildren = GrowKids<'a>;
    fn get_value_and_children_iter(&'a self) -> (ByVal, Self::BorrowedChildren) {
        opened(self.s.id);
        (ByVal(self.s.id.to_string()), GrowKids(self, 0))
    }
}
pub struct GrowKidsMut<'a>(Seed, usize, &'a mut Vec<*mut Grow>);
impl<'a> Iterator for GrowKidsMut<'a> {
    type Item = &'a mut Grow;
    fn next(&mut self) -> Option<&'a mut Grow> {
        grown(self.0, &mut self.1, self.2).map(|p| unsafe { &mut *p })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        told(self.0, self.1)
    }
}
impl std::iter::FusedIterator for GrowKidsMut<'_> {}
impl<'a> MutBorrowedTreeNode<'a> for Grow {
    type MutBorrowedValue = &'a mut u64;
    type MutBorrowedChildren = GrowKidsMut<'a>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut u64, Self::MutBorrowedChildren) {
        opened(self.s.id);
        let s = self.s;
        (&mut self.s.id, GrowKidsMut(s, 0, self.kids.get_mut()))
    }
}
pub struct GrowBin {
    s: Seed,
    kids: OnceCell<[Option<Box<GrowBin>>; 2]>,
}
fn grow_bin(s: Seed) -> GrowBin {
    GrowBin { s, kids: OnceCell::new() }
}
impl GrowBin {
    fn fill(&self) {
        opened(self.s.id);
        self.kids.get_or_init(|| two(self.s, |c| Box::new(grow_bin(c))));
    }
}
impl NodeId for GrowBin {
    fn nid(&self) -> u64 {
        self.s.id
    }
}
impl NodeId for InfBin {
    fn nid(&self) -> u64 {
        self.0.id
    }
}
impl<'a> BorrowedBinaryTreeNode<'a> for GrowBin {
    type BorrowedValue = ByVal;
    fn get_value_and_children_binary_iter(&'a self) -> (ByVal, [Option<&'a Self>; 2]) {
        self.fill();
        let [l, r] = self.kids.get().unwrap();
        (ByVal(self.s.id.to_string()), [l.as_deref(), r.as_deref()])
    }
}
impl<'a> MutBorrowedBinaryTreeNode<'a> for GrowBin {
    type MutBorrowedValue = &'a mut u64;
    fn get_value_and_children_binary_iter_mut(&'a mut self) -> (&'a mut u64, [Option<&'a mut Self>; 2]) {
        self.fill();
        let [l, r] = self.kids.get_mut().unwrap();
        (&mut self.s.id, [l.as_deref_mut(), r.as_deref_mut()])
    }
}

/// online monitor of one traversal
struct Watch {
    spec: Spec,
    visited: u64,
    events: u64,
    checked: usize,
    /// children iterators which produce one node per call
    counts: bool,
}
impl Watch {
    fn new(order: Order, root: Seed, counts: bool) -> Watch {
        MADE.with(|m| m.set(0));
        opens_on();
        Watch { spec: Spec::new(order, root), visited: 0, events: 0, checked: 0, counts }
    }
    fn expect(&mut self, leaves: bool) -> Result<Option<Elem>, String> {
        loop {
            self.visited += 1;
            if self.visited > 200_000 {
                return Err("reference: no such element in reach".into());
            }
            match self.spec.next() {
                Some(e) if leaves && !e.leaf => continue,
                x => return Ok(x),
            }
        }
    }
    fn work(&mut self, leaves: bool) -> R {
        if opens_len() > self.checked {
            let log = opens();
            for id in &log[self.checked..] {
                if !self.spec.may.contains(id) {
                    return Err(format!("after {} elements node {id} had been opened, which is neither visited nor on the way", self.visited));
                }
            }
            self.checked = log.len();
        }
        let made = MADE.with(|m| m.get());
        let bound = if leaves { 2 * self.spec.may.len() as u64 + 2 } else { self.spec.may.len() as u64 + 1 };
        if self.counts && made > bound {
            return Err(format!("{made} nodes were generated to visit {}", self.spec.may.len()));
        }
        self.events += 1;
        Ok(())
    }
    fn plain(&mut self, got: Option<u64>, leaves: bool) -> Result<bool, String> {
        let want = self.expect(leaves)?.map(|e| e.id);
        if got != want {
            return Err(format!("visit {}: got {got:?}, expected {want:?}", self.visited));
        }
        if got.is_some() {
            self.work(leaves)?;
        }
        Ok(got.is_some())
    }
    fn anc<V: Ident>(&mut self, got: Option<&[V]>, leaves: bool) -> Result<bool, String> {
        let want = self.expect(leaves)?.map(|e| e.anc);
        let got = got.map(|g| g.iter().map(|v| v.id()).collect::<Vec<_>>());
        if got != want {
            return Err(format!("visit {}: ancestors {got:?}, expected {want:?}", self.visited));
        }
        if got.is_some() {
            self.work(leaves)?;
        }
        Ok(got.is_some())
    }
    fn ctx<V: Ident, C>(&mut self, got: Option<&TreeContext<V, C>>) -> Result<bool, String> {
        let want = self.expect(false)?.map(|e| (e.anc, e.path.len(), e.path));
        let got = got.map(|c| (c.ancestors().iter().map(|v| v.id()).collect::<Vec<_>>(), c.depth(), c.path().to_vec()));
        if got != want {
            return Err(format!("visit {}: context {got:?}, expected {want:?}", self.visited));
        }
        if got.is_some() {
            self.work(false)?;
        }
        Ok(got.is_some())
    }
}
macro_rules! endless {
    ($it:expr, $mode:expr, $w:ident, $n:expr) => {{
        match $mode {
            Mode::Plain => {
                let mut it = $it;
                for _ in 0..$n {
                    if !$w.plain(it.next().map(|v| v.id()), false)? {
                        break;
                    }
                }
            }
            Mode::Leaves(k) => {
                let mut it = $it;
                for _ in 0..k {
                    $w.plain(it.next().map(|v| v.id()), false)?;
                }
                let mut it = it.leaves();
                for _ in 0..$n {
                    if !$w.plain(it.next().map(|v| v.id()), true)? {
                        break;
                    }
                }
            }
            Mode::Anc => {
                let mut it = $it.attach_ancestors();
                for _ in 0..$n {
                    if !$w.anc(it.next().map(|v| &v[..]), false)? {
                        break;
                    }
                }
            }
            Mode::AncLeaves(k) => {
                let mut it = $it.attach_ancestors();
                for _ in 0..k {
                    // (advancing past the end is not specified)
                    if !$w.anc(it.next().map(|v| &v[..]), false)? {
                        return Ok($w.events);
                    }
                }
                let mut it = it.leaves();
                for _ in 0..$n {
                    if !$w.anc(it.next().map(|v| &v[..]), true)? {
                        break;
                    }
                }
            }
            _ => {
                let mut it = $it.attach_context();
                for _ in 0..$n {
                    if !$w.ctx(it.next())? {
                        break;
                    }
                }
            }
        }
        Ok($w.events)
    }};
}
fn endless_run(bin: bool, own: Own, ord: Order, mode: Mode, n: usize) -> Result<u64, String> {
    let root = root_seed(1);
    let mut w = Watch::new(ord, root, !bin);
    match (bin, own, ord) {
        (false, Own::Owned, Order::Bfs) => endless!(Inf(root).bfs(), mode, w, n),
        (false, Own::Owned, Order::Pre) => endless!(Inf(root).dfs_preorder(), mode, w, n),
        (false, Own::Owned, _) => endless!(Inf(root).dfs_postorder(), mode, w, n),
        (false, Own::Ref, _) => {
            let t = grow(root);
            match ord {
                Order::Bfs => endless!(t.bfs_iter(), mode, w, n),
                Order::Pre => endless!(t.dfs_preorder_iter(), mode, w, n),
                _ => endless!(t.dfs_postorder_iter(), mode, w, n),
            }
        }
        (false, Own::Mut, _) => {
            let mut t = grow(root);
            match ord {
                Order::Bfs => endless!(t.bfs_iter_mut(), mode, w, n),
                Order::Pre => endless!(t.dfs_preorder_iter_mut(), mode, w, n),
                _ => endless!(t.dfs_postorder_iter_mut(), mode, w, n),
            }
        }
        (true, Own::Owned, Order::Bfs) => endless!(OwnedBinaryTreeNode::bfs(InfBin(root)), mode, w, n),
        (true, Own::Owned, Order::Pre) => endless!(OwnedBinaryTreeNode::dfs_preorder(InfBin(root)), mode, w, n),
        (true, Own::Owned, Order::In) => endless!(OwnedBinaryTreeNode::dfs_inorder(InfBin(root)), mode, w, n),
        (true, Own::Owned, _) => endless!(OwnedBinaryTreeNode::dfs_postorder(InfBin(root)), mode, w, n),
        (true, Own::Ref, _) => {
            let t = grow_bin(root);
            match ord {
                Order::Bfs => endless!(t.bfs_iter(), mode, w, n),
                Order::Pre => endless!(t.dfs_preorder_iter(), mode, w, n),
                Order::In => endless!(t.dfs_inorder_iter(), mode, w, n),
                _ => endless!(t.dfs_postorder_iter(), mode, w, n),
            }
        }
        (true, Own::Mut, _) => {
            let mut t = grow_bin(root);
            match ord {
                Order::Bfs => endless!(t.bfs_iter_mut(), mode, w, n),
                Order::Pre => endless!(t.dfs_preorder_iter_mut(), mode, w, n),
                Order::In => endless!(t.dfs_inorder_iter_mut(), mode, w, n),
                _ => endless!(t.dfs_postorder_iter_mut(), mode, w, n),
            }
        }
    }
}

/// collections without an end
struct Forest;
impl IntoIterator for Forest {
    type Item = Inf;
    type IntoIter = Unending<Box<dyn FnMut() -> Inf>>;
    fn into_iter(self) -> Self::IntoIter {
        ROOTS.with(|r| r.set(0));
        Unending(Box::new(|| {
            let n = ROOTS.with(|r| r.replace(r.get() + 1));
            Inf(root_seed(n))
        }))
    }
}
struct BinForest;
impl IntoIterator for BinForest {
    type Item = InfBin;
    type IntoIter = Unending<Box<dyn FnMut() -> InfBin>>;
    fn into_iter(self) -> Self::IntoIter {
        ROOTS.with(|r| r.set(0));
        Unending(Box::new(|| {
            let n = ROOTS.with(|r| r.replace(r.get() + 1));
            InfBin(root_seed(n))
        }))
    }
}
/// borrowed collections without an end; the trees are made when asked for
struct Woods<T>(RefCell<Vec<*mut T>>, fn(Seed) -> T);
impl<T> Woods<T> {
    fn of(f: fn(Seed) -> T) -> Woods<T> {
        Woods(Default::default(), f)
    }
    fn tree(&self) -> *mut T {
        let n = ROOTS.with(|r| r.replace(r.get() + 1));
        let p = Box::into_raw(Box::new((self.1)(root_seed(n))));
        self.0.borrow_mut().push(p);
        p
    }
}
impl<T> Drop for Woods<T> {
    fn drop(&mut self) {
        for k in self.0.get_mut().drain(..) {
            drop(unsafe { Box::from_raw(k) })
        }
    }
}
impl<'a, T: 'a> IntoIterator for &'a Woods<T> {
    type Item = &'a T;
    type IntoIter = Unending<Box<dyn FnMut() -> &'a T + 'a>>;
    fn into_iter(self) -> Self::IntoIter {
        ROOTS.with(|r| r.set(0));
        Unending(Box::new(move || unsafe { &*self.tree() }))
    }
}
impl<'a, T: 'a> IntoIterator for &'a mut Woods<T> {
    type Item = &'a mut T;
    type IntoIter = Unending<Box<dyn FnMut() -> &'a mut T + 'a>>;
    fn into_iter(self) -> Self::IntoIter {
        ROOTS.with(|r| r.set(0));
        Unending(Box::new(move || unsafe { &mut *self.tree() }))
    }
}
impl<'a> BorrowedIntoIteratorOfTrees<'a, Grow> for &'a Woods<Grow> {}
impl<'a> MutBorrowedIntoIteratorOfTrees<'a, Grow> for &'a mut Woods<Grow> {}
impl<'a> BorrowedIntoIteratorOfBinaryTrees<'a, GrowBin> for &'a Woods<GrowBin> {}
impl<'a> MutBorrowedIntoIteratorOfBinaryTrees<'a, GrowBin> for &'a mut Woods<GrowBin> {}
impl OwnedIntoIteratorOfTrees<Inf> for Forest {}
impl OwnedIntoIteratorOfBinaryTrees<InfBin> for BinForest {}

fn hash(id: u64, kids: &[Option<u64>]) -> u64 {
    let mut h = key(&[id, 7]);
    for k in kids {
        h = key(&[h, k.unwrap_or(3), k.is_some() as u64]);
    }
    h
}
macro_rules! forest {
    ($how:expr, $n:expr, $forest:expr, $one:expr, $v:ty, $kids:ty, $to:expr, $ids:ident, $bfs:ident, $pre:ident, $post:ident, $fold:ident, $fold_path:ident, $map:ident, $map_path:ident, $prune:ident, $pipe:ident $(, $ino:ident)?) => {{
        let one = |t: u64| ($one)(root_seed(t));
        let mut events = 0u64;
        macro_rules! results {
            ($it:expr, $got:expr, $want:expr) => {{
                let mut it = $it;
                for t in 0..$n as u64 {
                    let Some(x) = it.next() else { return Err(format!("ended after {t} trees of an endless collection")) };
                    let roots = ROOTS.with(|r| r.get());
                    if roots > t + 2 {
                        return Err(format!("{roots} trees were taken from the collection for {} results", t + 1));
                    }
                    let (got, want) = (($got)(x), ($want)(t));
                    if got != want {
                        return Err(format!("result {t}: {got:?}, expected {want:?}"));
                    }
                    events += 1;
                }
            }};
        }
        macro_rules! elements {
            ($it:expr, $ord:expr) => {{
                let mut it = $it;
                let mut t = 0u64;
                'all: loop {
                    let mut s = Spec::new($ord, root_seed(t));
                    while let Some(e) = s.next() {
                        let got = it.next().map(|v| v.id());
                        if got != Some(e.id) {
                            return Err(format!("tree {t}: got {got:?}, expected {}", e.id));
                        }
                        let roots = ROOTS.with(|r| r.get());
                        if roots > t + 1 {
                            return Err(format!("{roots} trees were taken from the collection while still in tree {t}"));
                        }
                        events += 1;
                        if events >= $n as u64 {
                            break 'all;
                        }
                    }
                    t += 1;
                }
            }};
        }
        macro_rules! contexts {
            ($it:expr, $ord:expr) => {{
                let mut it = $it.attach_context();
                let mut t = 0u64;
                'all: loop {
                    let mut s = Spec::new($ord, root_seed(t));
                    while let Some(e) = s.next() {
                        let got = it.next().map(|c| (c.ancestors().iter().map(|v| v.id()).collect::<Vec<_>>(), c.path().to_vec()));
                        let mut p = vec![t as usize];
                        p.extend(&e.path);
                        let want = Some((e.anc, p));
                        if got != want {
                            return Err(format!("tree {t}: {got:?}, expected {want:?}"));
                        }
                        if ROOTS.with(|r| r.get()) > t + 1 {
                            return Err(format!("more trees than needed were taken from the collection in tree {t}"));
                        }
                        events += 1;
                        if events >= $n as u64 {
                            break 'all;
                        }
                    }
                    t += 1;
                }
            }};
        }
        let fold = |t: u64| one(t).fold(|k: $kids, v: Tok| hash(v.id(), &($to)(k)));
        match $how {
            0 => elements!($forest.$bfs(), Order::Bfs),
            1 => elements!($forest.$pre(), Order::Pre),
            2 => elements!($forest.$post(), Order::Post),
            3 => contexts!($forest.$bfs(), Order::Bfs),
            4 => contexts!($forest.$pre(), Order::Pre),
            5 => contexts!($forest.$post(), Order::Post),
            6 => results!($forest.$fold(|k: $kids, v: $v| hash(v.id(), &($to)(k))), |x| x, fold),
            7 => results!($forest.$fold_path(|k: $kids, _p: &[usize], v: $v| hash(v.id(), &($to)(k))), |x| x, fold),
            8 => results!($forest.$map(|v: $v| v.id() + 1), |x| $ids(&x), |t| $ids(&one(t).map(|v| v.id() + 1))),
            9 => results!($forest.$map_path(|p: &[usize], v: $v| v.id() + p.len() as u64), |x| $ids(&x), |t| $ids(&one(t).map_path(|p: &[usize], v| v.id() + 1 + p.len() as u64))),
            10 => {
                // dropping every third root would move the results; keep the roots
                let stay: HashSet<u64> = (0..$n as u64 + 3).map(|t| root_seed(t).id).collect();
                let f = |v: &$v| !stay.contains(&v.id()) && v.id() % 3 == 0;
                let g = |v: &Tok| !stay.contains(&v.id()) && v.id() % 3 == 0;
                results!($forest.$prune(f), |x: _| { let _: &_ = &x; $ids(&map_ids(x)) }, |t| $ids(&map_ids(one(t).prune(g).unwrap())))
            }
            11 => {
                let it = $forest.$pipe().prune_depth(2).map_trees(|v: $v| v.id() + 5);
                results!(it.trees(), |x| $ids(&x), |t| $ids(&one(t).into_pipeline().prune_depth(2).map_tree(|v: Tok| v.id() + 5).collect_tree().unwrap()))
            }
            12 => {
                let it = $forest.$pipe().map_trees(|v: $v| v.id() + 5);
                results!(it.fold_trees(|k: $kids, v| hash(v, &($to)(k))), |x| x, |t| one(t).into_pipeline().map_tree(|v: Tok| v.id() + 5).fold_tree(|k: $kids, v| hash(v, &($to)(k))).unwrap())
            }
            $(14 => elements!($forest.$ino(), Order::In),
            15 => contexts!($forest.$ino(), Order::In),)?
            _ => elements!($forest.$pipe(), Order::Pre),
        }
        Ok(events)
    }};
}
trait MapIds {
    type Out;
    fn ids(self) -> Self::Out;
}
impl<V: Ident> MapIds for Tree<V> {
    type Out = Tree<u64>;
    fn ids(self) -> Tree<u64> {
        self.map(|v| v.id())
    }
}
impl<V: Ident> MapIds for BinaryTree<V> {
    type Out = BinaryTree<u64>;
    fn ids(self) -> BinaryTree<u64> {
        OwnedBinaryTreeNode::map(self, |v: V| v.id())
    }
}
fn map_ids<T: MapIds>(t: T) -> T::Out {
    t.ids()
}
fn tree_ids(t: &Tree<u64>) -> Vec<(usize, u64)> {
    let mut out = vec![];
    let mut st = vec![(0, t)];
    while let Some((d, t)) = st.pop() {
        out.push((d, t.value));
        st.extend(t.children.iter().rev().map(|c| (d + 1, c)));
    }
    out
}
fn bin_ids(t: &BinaryTree<u64>) -> Vec<(usize, u64)> {
    let mut out = vec![];
    let mut st = vec![(1, Some(t))];
    while let Some((d, t)) = st.pop() {
        let Some(t) = t else {
            out.push((d, 0));
            continue;
        };
        out.push((d, t.value));
        st.push((d * 2 + 1, t.right.as_deref()));
        st.push((d * 2, t.left.as_deref()));
    }
    out
}
fn gk(k: Vec<u64>) -> Vec<Option<u64>> {
    k.into_iter().map(Some).collect()
}
fn bk(k: [Option<u64>; 2]) -> Vec<Option<u64>> {
    k.to_vec()
}
fn forest_run(bin: bool, own: Own, how: usize, n: usize) -> Result<u64, String> {
    macro_rules! go {
        ($gf:expr, $bf:expr, $v:ty, $bv:ty, [$($names:tt)*], $ino:ident) => {
            if bin {
                forest!(how, n, $bf, |s| InfBin(s), $bv, [Option<u64>; 2], bk, bin_ids, $($names)*, $ino)
            } else {
                forest!(how, n, $gf, |s| Inf(s), $v, Vec<u64>, gk, tree_ids, $($names)*)
            }
        };
    }
    let (mut woods, mut bin_woods) = (Woods::of(grow), Woods::of(grow_bin));
    match own {
        Own::Owned => go!(Forest, BinForest, Tok, Tok, [bfs_each, dfs_preorder_each, dfs_postorder_each, fold_each, fold_path_each, map_each, map_path_each, prune_each, into_pipeline], dfs_inorder_each),
        Own::Mut => go!((&mut woods), (&mut bin_woods), &mut u64, &mut u64, [bfs_each_iter_mut, dfs_preorder_each_iter_mut, dfs_postorder_each_iter_mut, fold_each_mut, fold_path_each_mut, map_each_mut, map_path_each_mut, prune_each_mut, into_pipeline_mut], dfs_inorder_each_iter_mut),
        Own::Ref => go!((&woods), (&bin_woods), ByVal, ByVal, [bfs_each_iter, dfs_preorder_each_iter, dfs_postorder_each_iter, fold_each_ref, fold_path_each_ref, map_each_ref, map_path_each_ref, prune_each_ref, into_pipeline_ref], dfs_inorder_each_iter),
    }
}

/// pipelines on trees without an end: elements and openings compared with the reference filter
fn endless_pipe(bin: bool, own: Own, n: usize, salt: u64, limit: usize) -> Result<u64, String> {
    let root = root_seed(1);
    opens_on();
    MADE.with(|m| m.set(0));
    let cut = |id: u64| id != root.id && key(&[salt, id]) % 5 == 0;
    let calls = std::cell::RefCell::new(vec![]);
    let mut got = vec![];
    macro_rules! go {
        ($it:expr) => {{
            let mut it = $it
                .prune(|v| {
                    calls.borrow_mut().push(v.id());
                    cut(v.id())
                })
                .map_path(|p: &[usize], v| (p.len(), v.id()))
                .prune_depth(limit);
            while got.len() < n {
                let Some(v) = it.next() else { break };
                if v.0 != it.current_path().len() {
                    return Err(format!("path of length {} where current_path is {:?}", v.0, it.current_path()));
                }
                got.push(v);
            }
        }};
    }
    match (bin, own) {
        (true, Own::Owned) => go!(OwnedBinaryTreeNode::into_pipeline(InfBin(root))),
        (true, Own::Mut) => {
            let mut t = grow_bin(root);
            go!(t.into_pipeline_mut())
        }
        (true, Own::Ref) => {
            let t = grow_bin(root);
            go!(t.into_pipeline_ref())
        }
        (false, Own::Owned) => go!(Inf(root).into_pipeline()),
        (false, Own::Mut) => {
            let mut t = grow(root);
            go!(t.into_pipeline_mut())
        }
        (false, Own::Ref) => {
            let t = grow(root);
            go!(t.into_pipeline_ref())
        }
    }
    // reference: preorder, skipping what is below pruned nodes or too deep
    let (mut want, mut consulted, mut max) = (vec![], vec![], 0u64);
    let mut st = vec![(root, 0usize, true)];
    while let Some((s, i, fresh)) = st.pop() {
        if fresh {
            if want.len() == n {
                break;
            }
            consulted.push(s.id);
            if cut(s.id) || s.depth as usize > limit {
                continue;
            }
            want.push((s.depth as usize, s.id));
            st.push((s, 0, false));
            continue;
        }
        match slot(s, i) {
            Slot::End => {}
            Slot::Empty => st.push((s, i + 1, false)),
            Slot::Node(c) => {
                if want.len() == n {
                    break;
                }
                max += 1;
                st.push((s, i + 1, false));
                st.push((c, 0, true));
            }
        }
        if max > 400_000 {
            return Err("reference: no such element in reach".into());
        }
    }
    if got != want {
        return Err(format!("{} elements, expected {}: {got:?}", got.len(), want.len()));
    }
    let allowed: HashSet<u64> = consulted.into_iter().collect();
    if let Some(x) = opens().iter().find(|x| !allowed.contains(x)) {
        return Err(format!("node {x} was opened: it is below a pruned node, or not asked for yet"));
    }
    if !bin && MADE.with(|m| m.get()) > max + 1 {
        return Err(format!("{} nodes generated where {max} were needed", MADE.with(|m| m.get())));
    }
    Ok(got.len() as u64)
}

/// fold: how many values are pending at each closure call
fn fold_pending(bin: bool, how: usize, salt: u64) -> Result<u64, String> {
    let root = Seed { left: 9, ..root_seed(1) };
    let (mut calls, mut worst, mut bad) = (0u64, 0u64, None);
    let depth: std::cell::RefCell<HashMap<u64, u64>> = Default::default();
    // depths of all nodes (finite kinds)
    let mut st = vec![root];
    while let Some(s) = st.pop() {
        depth.borrow_mut().insert(s.id, s.depth as u64);
        for i in 0.. {
            match slot(s, i) {
                Slot::Node(c) => st.push(c),
                Slot::Empty => {}
                Slot::End => break,
            }
        }
    }
    let cut = |id: u64| id != root.id && key(&[salt, id]) % 6 == 0;
    let mut look = |id: u64| {
        calls += 1;
        let d = depth.borrow()[&id];
        let l = live();
        worst = worst.max(l);
        // one per level on the way to the node, and the node which comes next
        if l > d + 2 && bad.is_none() {
            bad = Some(format!("{l} values pending at a node at depth {d}"));
        }
    };
    macro_rules! go {
        ($n:expr, $kids:ty, $to:expr) => {
            match how {
                0 => drop($n.fold(|k: $kids, v: Tok| {
                    look(v.id());
                    hash(v.id(), &($to)(k))
                })),
                1 => drop($n.fold_path(|k: $kids, _p: &[usize], v: Tok| {
                    look(v.id());
                    hash(v.id(), &($to)(k))
                })),
                2 => drop($n.into_pipeline().prune(|v| cut(v.id())).fold_tree(|k: $kids, v: Tok| {
                    look(v.id());
                    hash(v.id(), &($to)(k))
                })),
                _ => drop($n.into_pipeline().prune_path(|_p, v| cut(v.id())).map_tree(|v| v).fold_path(|k: $kids, _p: &[usize], v: Tok| {
                    look(v.id());
                    hash(v.id(), &($to)(k))
                })),
            }
        };
    }
    if bin {
        go!(InfBin(root), [Option<u64>; 2], bk)
    } else {
        go!(Inf(root), Vec<u64>, gk)
    }
    match bad {
        Some(b) => Err(b),
        None => Ok(calls),
    }
}

/// at_path: only the nodes on the way are opened
fn endless_path(bin: bool, own: Own, list: bool, r: &mut Rng) -> Result<u64, String> {
    let tree = if list { r.below(20) } else { 1 };
    let root = root_seed(tree as u64);
    let (mut s, mut path, mut way) = (root, vec![], vec![]);
    let mut hit = true;
    for _ in 0..r.below(40) {
        let i = if bin { r.below(2) } else { r.below(6) };
        way.push(s.id);
        path.push(i);
        // an earlier child may be missing
        match slot(s, i) {
            Slot::Node(c) => s = c,
            _ => {
                hit = false;
                break;
            }
        }
    }
    opens_on();
    MADE.with(|m| m.set(0));
    ROOTS.with(|r| r.set(0));
    let in_list = |p: &[usize]| [&[tree][..], p].concat();
    let got = match (bin, own, list) {
        (true, Own::Owned, false) => OwnedBinaryTreeNode::at_path(InfBin(root), &path).map(|n| n.0),
        (true, Own::Mut, false) => grow_bin(root).at_path_mut(&path).map(|n| n.s),
        (true, Own::Ref, false) => grow_bin(root).at_path_ref(&path).map(|n| n.s),
        (false, Own::Owned, false) => Inf(root).at_path(&path).map(|n| n.0),
        (false, Own::Mut, false) => grow(root).at_path_mut(&path).map(|n| n.s),
        (false, Own::Ref, false) => grow(root).at_path_ref(&path).map(|n| n.s),
        (true, Own::Owned, true) => BinForest.at_path(&in_list(&path)).map(|n| n.0),
        (true, Own::Mut, true) => (&mut Woods::of(grow_bin)).at_path_mut(&in_list(&path)).map(|n| n.s),
        (true, Own::Ref, true) => (&Woods::of(grow_bin)).at_path_ref(&in_list(&path)).map(|n| n.s),
        (false, Own::Owned, true) => Forest.at_path(&in_list(&path)).map(|n| n.0),
        (false, Own::Mut, true) => (&mut Woods::of(grow)).at_path_mut(&in_list(&path)).map(|n| n.s),
        (false, Own::Ref, true) => (&Woods::of(grow)).at_path_ref(&in_list(&path)).map(|n| n.s),
    };
    let roots = ROOTS.with(|r| r.get());
    if list && roots > tree as u64 + 1 {
        return Err(format!("at_path({path:?}) in tree {tree} of a collection took {roots} trees out of it"));
    }
    if got != if hit { Some(s) } else { None } {
        return Err(format!("at_path({path:?}): {got:?}, expected {s:?} ({hit})"));
    }
    if opens() != way {
        return Err(format!("at_path({path:?}) opened {:?}, the way there is {way:?}", opens()));
    }
    let need: usize = path.iter().map(|i| i + 1).sum();
    if !bin && MADE.with(|m| m.get()) > need as u64 {
        return Err(format!("at_path({path:?}) generated {} nodes", MADE.with(|m| m.get())));
    }
    Ok(path.len() as u64 + 1)
}

pub struct Endless {
    pub cases: u64,
    pub max: usize,
}
impl Prop for Endless {
    fn cases(&self) -> u64 {
        self.cases
    }
    fn rule(&self) -> String {
        format!("{} seeded infinite trees and endless collections (infinitely deep, infinitely many children, mixtures, finite left subtrees), generated on demand, up to {} elements taken", self.cases, self.max)
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        let mut r = Rng::new(seed, "endless", i);
        let salt = r.next();
        macro_rules! one {
            ($kind:expr, $what:expr, $body:expr) => {{
                let kind: u8 = $kind;
                let what = $what;
                let k = key(&[salt, kind as u64, skey(&what)]);
                cx.eval(k, true, || format!("{what} on generated trees of kind {kind}, salt {salt}"), || {
                    SPEC.with(|s| s.set((salt, kind)));
                    let x = $body;
                    SPEC.with(|s| s.set((0, 0)));
                    x
                })?
            }};
        }
        for own in OWNS {
            for (ord, kinds) in [(Order::Bfs, &[0u8, 1, 2, 3, 5][..]), (Order::Pre, &[0, 1, 2, 3, 5]), (Order::Post, &[3])] {
                for kind in kinds {
                    let n = r.range(1, self.max);
                    let k = if [0, 5].contains(kind) { r.below(50) } else { r.below(50) };
                    for mode in [Mode::Plain, Mode::Anc, Mode::Ctx, Mode::Leaves(k), Mode::AncLeaves(k), Mode::Leaves(0)] {
                        let leaves = matches!(mode, Mode::Leaves(_) | Mode::AncLeaves(_));
                        // leaves must exist within reach: below a node with infinitely many children they
                        // come in breadth-first order only if its children can be leaves
                        if leaves && ([0, 1].contains(kind) || (ord == Order::Post && k > 0)) {
                            continue;
                        }
                        // some of these trees end at once, or are too poor in leaves: the reference decides
                        let n = if leaves { n.min(60) } else { n };
                        if leaves && !reachable(salt, *kind, ord, mode, n) {
                            continue;
                        }
                        one!(*kind, format!("{own:?} {ord:?} {mode:?} first {n}"), endless_run(false, own, ord, mode, n));
                    }
                }
            }
            for (ord, kinds) in [(Order::Bfs, &[10u8, 11, 12][..]), (Order::Pre, &[10, 11, 12]), (Order::In, &[12])] {
                for kind in kinds {
                    let n = r.range(1, self.max);
                    let k = r.below(50);
                    for mode in [Mode::Plain, Mode::Anc, Mode::Ctx, Mode::Leaves(k), Mode::AncLeaves(k), Mode::Leaves(0)] {
                        let leaves = matches!(mode, Mode::Leaves(_) | Mode::AncLeaves(_));
                        if leaves && (*kind == 10 || ord == Order::In && k > 0) {
                            continue;
                        }
                        if matches!((ord, mode), (Order::In, Mode::AncLeaves(_))) {
                            continue;
                        }
                        let n = if leaves { n.min(60) } else { n };
                        if leaves && !reachable(salt, *kind, ord, mode, n) {
                            continue;
                        }
                        one!(*kind, format!("{own:?} {ord:?} {mode:?} first {n}"), endless_run(true, own, ord, mode, n));
                    }
                }
            }
        }
        let own = *r.pick(&OWNS);
        for how in 0..16 {
            let n = r.range(1, 60);
            if how < 14 {
                one!(4, format!("endless {own:?} collection, way {how}, {n} results"), forest_run(false, own, how, n));
            }
            one!(13, format!("endless {own:?} collection, way {how}, {n} results"), forest_run(true, own, how, n));
        }
        for kind in [0, 1, 2, 3, 5] {
            // (below a depth limit, an infinite family has no next element)
            let (n, limit) = (r.range(1, self.max), if (1..4).contains(&kind) || r.chance(1, 2) { usize::MAX } else { r.range(1, 30) });
            let p = r.next();
            let own = *r.pick(&OWNS);
            one!(kind, format!("{own:?} pipeline (salt {p}, depth limit {limit}), first {n}"), endless_pipe(false, own, n, p, limit));
        }
        for kind in [10, 11, 12] {
            let (n, limit) = (r.range(1, self.max), if r.chance(1, 2) { usize::MAX } else { r.range(1, 12) });
            let p = r.next();
            let own = *r.pick(&OWNS);
            one!(kind, format!("{own:?} pipeline (salt {p}, depth limit {limit}), first {n}"), endless_pipe(true, own, n, p, limit));
        }
        for how in 0..4 {
            let p = r.next();
            one!(4, format!("fold way {how} (salt {p})"), fold_pending(false, how, p));
            one!(13, format!("fold way {how} (salt {p})"), fold_pending(true, how, p));
        }
        for j in 0..6 {
            let kind = [0, 1, 2, 10, 11, 12][j];
            let mut r2 = Rng::new(salt, "path", j as u64);
            for own in OWNS {
                one!(kind, format!("{own:?} at_path {j}"), endless_path(j > 2, own, false, &mut r2));
                one!(kind, format!("{own:?} at_path {j} in an endless collection"), endless_path(j > 2, own, true, &mut r2));
            }
        }
        Ok(())
    }
}
/// whether the reference finds the leaves asked for (or the end) with reasonable effort
fn reachable(salt: u64, kind: u8, ord: Order, mode: Mode, n: usize) -> bool {
    SPEC.with(|s| s.set((salt, kind)));
    let ord = if ord == Order::Bfs { ord } else { Order::Pre };
    let k = match mode {
        Mode::Leaves(k) | Mode::AncLeaves(k) => k,
        _ => 0,
    };
    let mut s = Spec::new(ord, root_seed(1));
    let (mut seen, mut leaves) = (0, 0);
    while leaves < n {
        seen += 1;
        if seen > 4000 {
            return false;
        }
        match s.next() {
            None => return true,
            Some(e) => leaves += (seen > k && e.leaf) as usize,
        }
    }
    true
}

// ------------------------------------------------------------- Part 4: collections of finite trees
use crate::lists::*;
use crate::p_cpipe::{creference, random_list_op, run_cjob, CJob, CRef, CTerm};

pub struct InLists {
    src: Lists,
}
fn places(ms: &[Model]) -> HashMap<u64, (usize, usize)> {
    ms.iter().enumerate().flat_map(|(t, m)| m.nodes.iter().enumerate().map(move |(i, n)| (n.id, (t, i)))).collect()
}
/// every node opened when an element arrives was passed before it or is on the way to such a node
fn judge_list_opens(ms: &[Model], obs: &Obs, log: &[u64]) -> Result<u64, String> {
    let index = places(ms);
    let mut may = HashSet::new();
    let grant = |may: &mut HashSet<u64>, id: u64| {
        let Some((t, i)) = index.get(&id) else { return };
        let mut c = Some(*i);
        while let Some(x) = c {
            if !may.insert(ms[*t].nodes[x].id) {
                break;
            }
            c = ms[*t].nodes[x].parent;
        }
    };
    obs.prefix.iter().for_each(|id| grant(&mut may, *id));
    let (mut checked, mut n) = (0, 0);
    for (j, ev) in obs.evs.iter().enumerate() {
        grant(&mut may, ev.id);
        let until = obs.opens_at.get(j).copied().unwrap_or(checked);
        for id in &log[checked..until] {
            n += 1;
            if !may.contains(id) {
                return Err(format!("node {id} was opened to produce element {j} (node {}), which needs only nodes on the way to it", ev.id));
            }
        }
        checked = until;
    }
    Ok(n)
}
/// nothing below a pruned node, nothing behind what was asked for
fn judge_list_below(ms: &[Model], rf: &CRef, term: CTerm, log: &[u64]) -> Result<u64, String> {
    let index = places(ms);
    let mut place = HashMap::new();
    let mut roots = vec![];
    for m in ms {
        roots.push(place.len());
        for i in m.preorder() {
            place.insert(m.nodes[i].id, place.len());
        }
    }
    let limit = match term {
        CTerm::Iter(k) => {
            let out: Vec<u64> = rf.rfs.iter().zip(ms).flat_map(|(r, m)| r.out.iter().map(|o| m.nodes[o.0].id)).collect();
            match k {
                0 => None,
                k if k <= out.len() => Some(place[&out[k - 1]]),
                _ => Some(place.len()),
            }
        }
        CTerm::Trees(k) | CTerm::Fold(k) | CTerm::FoldPath(k) => {
            let kept: Vec<usize> = (0..ms.len()).filter(|t| !rf.rfs[*t].out.is_empty()).collect();
            match k {
                0 => None,
                // the root of the next tree shows that the one before is complete
                k if k < kept.len() => Some(roots[kept[k]]),
                _ => Some(place.len()),
            }
        }
        _ => Some(place.len()),
    };
    let stays: Vec<HashSet<usize>> = rf.rfs.iter().map(|r| r.out.iter().map(|o| o.0).collect()).collect();
    for id in log {
        let (t, i) = index[id];
        let Some(limit) = limit else { return Err(format!("node {id} was opened before anything was asked for")) };
        if place[id] > limit {
            return Err(format!("node {id} was opened before anything behind the last result ({term:?}) was asked for"));
        }
        if ms[t].nodes[i].parent.is_some_and(|p| !stays[t].contains(&p)) {
            return Err(format!("node {id} was opened although an ancestor was pruned"));
        }
    }
    Ok(log.len() as u64 + 1)
}
impl Prop for InLists {
    fn cases(&self) -> u64 {
        self.src.cases()
    }
    fn rule(&self) -> String {
        format!("collections ({}): every traversal, plain and with context, bulk operations and random pipelines stopped at random results, with every opening logged", self.src.text())
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        let (bin, ms, mut r) = self.src.get("lazylist", seed, i);
        let total: usize = ms.iter().map(|m| m.len()).sum();
        if ms.len() > 3000 || total > 6000 {
            return Ok(());
        }
        let lk = lists_key(&ms);
        let hmax = ms.iter().map(|m| m.height()).max().unwrap_or(0);
        let fam = if bin { "SpyBin" } else { "SpyNode" };
        for own in OWNS {
            let coll = *r.pick(colls(bin, own));
            for ord in orders(bin) {
                for mode in [Mode::Plain, Mode::Ctx] {
                    cx.eval(
                        key(&[lk, skey(&format!("{own:?}{coll:?}{ord:?}{mode:?}"))]),
                        ms.len() > 1,
                        || format!("openings during {fam} {own:?} {coll:?} {ord:?} {mode:?} on {}", show(&ms)),
                        || {
                            opens_on();
                            let obs = crate::p_coll::run_list(&ms, fam, own, coll, *ord, mode, usize::MAX);
                            judge_list_opens(&ms, &obs, &opens())
                        },
                    )?;
                }
            }
            for j in 0..12 {
                let (salt, den) = (r.next(), *r.pick(&[2, 3, 5]));
                let root = !bin && r.chance(1, 2);
                let op = match j {
                    0 => Op::Map(salt),
                    1 => Op::MapPath(salt),
                    2 => Op::Prune { salt, den, root },
                    3 => Op::PrunePath { salt, den, root },
                    _ => Op::Depth(r.below(hmax + 2)),
                };
                let stop = if r.chance(1, 2) { usize::MAX } else { r.below(ms.len() + 1) };
                let mut ops = vec![op];
                let (job, term) = match j {
                    0..=4 => (None, CTerm::Trees(stop)),
                    5 => (None, CTerm::Fold(stop)),
                    6 => (None, CTerm::FoldPath(stop)),
                    _ => {
                        ops = (0..r.below(5)).map(|_| random_list_op(&mut r, hmax)).collect();
                        if bin {
                            // (which index a tree behind a pruned root has is left open: keep the roots)
                            for o in ops.iter_mut() {
                                if let Op::Prune { root, .. } | Op::PrunePath { root, .. } = o {
                                    *root = false;
                                }
                            }
                        }
                        let t = match j {
                            7 => CTerm::Trees(stop),
                            8 => CTerm::Fold(stop),
                            9 => CTerm::FoldPath(stop),
                            _ => CTerm::Iter(if r.chance(1, 4) { usize::MAX } else { r.below(total + 1) }),
                        };
                        (Some(()), t)
                    }
                };
                if j == 5 || j == 6 {
                    ops.clear();
                }
                let job = match job {
                    None => CJob::Each(op, term),
                    Some(()) => CJob::Pipe(&ops, term),
                };
                cx.eval(
                    key(&[lk, skey(&format!("{own:?}{coll:?}{job:?}"))]),
                    ms.len() > 1,
                    || format!("openings during {fam} {own:?} {coll:?} {job:?} on {}", show(&ms)),
                    || {
                        opens_on();
                        run_cjob(&ms, fam, own, coll, job)?;
                        judge_list_below(&ms, &creference(&ms, &ops, false), term, &opens())
                    },
                )?;
            }
        }
        Ok(())
    }
}

pub struct Lazy(Vec<Box<dyn Prop>>);
impl Lazy {
    pub fn new(quick: bool) -> Lazy {
        let (a, b) = if quick { ((5, 6, 3000, 30), (5, 5, 3000, 24)) } else { ((7, 8, 40_000, 60), (6, 7, 40_000, 40)) };
        Lazy(vec![
            Box::new(OnDemand::new(Src::new(a.0, a.1, a.2, a.3))),
            Box::new(Below::new(Src::new(b.0, b.1, b.2, b.3))),
            Box::new(InLists { src: if quick { Lists::new(3, 3, 2, 2_500, 12) } else { Lists::new(4, 3, 3, 30_000, 20) } }),
            Box::new(Endless { cases: if quick { 4_000 } else { 80_000 }, max: if quick { 300 } else { 900 } }),
        ])
    }
}
impl Prop for Lazy {
    fn cases(&self) -> u64 {
        self.0.iter().map(|p| p.cases()).sum()
    }
    fn rule(&self) -> String {
        self.0.iter().map(|p| p.rule()).collect::<Vec<_>>().join("; ") + "; distinct by (tree, operation, parameters); non-trivial: at least 2 nodes"
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        // alternate between the parts, so that a time box cuts them evenly
        let mut left = i;
        let mut sizes: Vec<u64> = self.0.iter().map(|p| p.cases()).collect();
        let mut base = vec![0; sizes.len()];
        loop {
            let live: Vec<usize> = (0..sizes.len()).filter(|p| sizes[*p] > 0).collect();
            let m = live.iter().map(|p| sizes[*p]).min().unwrap();
            if left < m * live.len() as u64 {
                let p = live[(left + left / live.len() as u64) as usize % live.len()];
                return self.0[p].case(seed, base[p] + left / live.len() as u64, cx);
            }
            left -= m * live.len() as u64;
            live.iter().for_each(|p| {
                sizes[*p] -= m;
                base[*p] += m;
            });
        }
    }
}
