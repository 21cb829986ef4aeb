//! P19: very deep trees on a small call stack. Every operation runs on a thread whose stack is far
//! smaller than the tree is deep, so call stack proportional to depth ends the process; the results
//! are checked on the way (every element, and the whole ancestor list / path at sampled elements).
use crate::engine::*;
use crate::model::{Order, BIN_ORDERS, GEN_ORDERS};
use crate::nodes::*;
use crate::rng::Rng;
use crate::tok::Ident;
use crate::traverse::{Own, OWNS};
use std::cell::Cell;
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;

const STACK: usize = 128 << 10;
const NONE: u32 = u32::MAX;

// ------------------------------------------------------------------ the model: no paths stored

pub struct DM {
    bin: bool,
    parent: Vec<u32>,
    seg: Vec<u32>,
    depth: Vec<u32>,
    slots: Vec<Vec<u32>>,
}
impl DM {
    fn new(bin: bool) -> DM {
        DM { bin, parent: vec![NONE], seg: vec![0], depth: vec![0], slots: vec![if bin { vec![NONE, NONE] } else { vec![] }] }
    }
    fn len(&self) -> usize {
        self.parent.len()
    }
    /// `seg` is ignored for generic trees (children are appended)
    fn add(&mut self, p: usize, seg: usize) -> usize {
        let i = self.len();
        let seg = if self.bin {
            assert!(self.slots[p][seg] == NONE);
            self.slots[p][seg] = i as u32;
            seg
        } else {
            self.slots[p].push(i as u32);
            self.slots[p].len() - 1
        };
        self.parent.push(p as u32);
        self.seg.push(seg as u32);
        self.depth.push(self.depth[p] + 1);
        self.slots.push(if self.bin { vec![NONE, NONE] } else { vec![] });
        i
    }
    fn id(i: u32) -> u64 {
        i as u64 + 1
    }
    fn kids(&self, i: u32) -> impl DoubleEndedIterator<Item = u32> + '_ {
        self.slots[i as usize].iter().copied().filter(|k| *k != NONE)
    }
    fn leaf(&self, i: u32) -> bool {
        self.kids(i).next().is_none()
    }
    fn height(&self) -> u32 {
        *self.depth.iter().max().unwrap()
    }
    fn order(&self, o: Order) -> Vec<u32> {
        let mut out = Vec::with_capacity(self.len());
        match o {
            Order::Pre => {
                let mut st = vec![0u32];
                while let Some(i) = st.pop() {
                    out.push(i);
                    st.extend(self.kids(i).rev());
                }
            }
            Order::Post => {
                let mut st = vec![0u32];
                while let Some(i) = st.pop() {
                    out.push(i);
                    st.extend(self.kids(i));
                }
                out.reverse();
            }
            Order::Bfs => {
                let mut level = vec![0u32];
                while !level.is_empty() {
                    out.extend(level.iter().copied());
                    level = level.iter().flat_map(|i| self.kids(*i)).collect();
                }
            }
            Order::In => {
                let mut st = vec![(0u32, false)];
                while let Some((i, done)) = st.pop() {
                    if done {
                        out.push(i);
                        continue;
                    }
                    let s = &self.slots[i as usize];
                    if s[1] != NONE {
                        st.push((s[1], false));
                    }
                    st.push((i, true));
                    if s[0] != NONE {
                        st.push((s[0], false));
                    }
                }
            }
        }
        out
    }
    fn path(&self, mut i: u32) -> Vec<usize> {
        let mut p = vec![];
        while self.parent[i as usize] != NONE {
            p.push(self.seg[i as usize] as usize);
            i = self.parent[i as usize];
        }
        p.reverse();
        p
    }
    /// nodes with neither themselves nor an ancestor in `cut`
    fn keep(&self, cut: &[bool]) -> Vec<bool> {
        let mut k = vec![true; self.len()];
        for i in 0..self.len() {
            k[i] = !cut[i] && (i == 0 || k[self.parent[i] as usize]);
        }
        k
    }
}

pub const SHAPES: usize = 7;
fn shape(bin: bool, kind: usize, n: usize, r: &mut Rng) -> DM {
    let mut m = DM::new(bin);
    let mut at = 0;
    match (bin, kind) {
        (true, 0..=5) => {
            for i in 0..n {
                let (side, sib) = match kind {
                    0 => (0, false),
                    1 => (1, false),
                    2 => (i % 2, false),
                    3 => (0, true),
                    4 => (1, true),
                    _ => (r.below(2), r.chance(1, 2)),
                };
                let next = m.add(at, side);
                if sib {
                    let mut s = m.add(at, 1 - side);
                    if kind == 5 {
                        for _ in 0..r.below(3) {
                            s = m.add(s, r.below(2));
                        }
                    }
                }
                at = next;
            }
        }
        (false, 0..=3) => {
            for _ in 0..n {
                let (before, after) = match kind {
                    0 => (0, 0),
                    1 => (1, 0),
                    2 => (0, 1),
                    _ => (r.below(3), r.below(3)),
                };
                for _ in 0..before {
                    let mut s = m.add(at, 0);
                    if kind == 3 {
                        for _ in 0..r.below(3) {
                            s = m.add(s, 0);
                        }
                    }
                }
                let next = m.add(at, 0);
                for _ in 0..after {
                    m.add(at, 0);
                }
                at = next;
            }
        }
        (false, 4) | (true, 6) => {
            // two equally deep chains
            let (mut a, mut b) = (m.add(0, 0), m.add(0, 1));
            for i in 0..n {
                a = m.add(a, if r.chance(1, 9) { 1 } else { 0 });
                b = m.add(b, if i % 5 == 0 { 0 } else { 1 });
            }
        }
        (false, 5) => {
            // a long handle, many leaves, one of which goes on
            for _ in 0..n / 2 {
                at = m.add(at, 0);
            }
            let top = at;
            for i in 0..600 {
                let k = m.add(top, 0);
                if i == 300 {
                    at = k;
                }
            }
            for _ in 0..n / 2 {
                at = m.add(at, 0);
            }
        }
        _ => {
            // three chains half-way down
            for _ in 0..n / 2 {
                at = m.add(at, 0);
            }
            let mut c = [m.add(at, 0), m.add(at, 0), m.add(at, 0)];
            for i in 0..n / 2 {
                for (j, x) in c.iter_mut().enumerate() {
                    if i * (3 - j) < n {
                        *x = m.add(*x, 0);
                    }
                }
            }
        }
    }
    m
}

// ------------------------------------------------------------------ nodes which are destroyed without recursion

thread_local! {
    static BASE: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
}
/// remember how much call stack is in use where the library opens a node
#[inline(never)]
fn mark() {
    let x = 0u8;
    let used = BASE.with(|b| b.get()).wrapping_sub(&x as *const u8 as usize);
    if used < 1 << 40 {
        PEAK.with(|p| p.set(p.get().max(used)));
    }
}

pub struct DNode {
    v: u64,
    kids: Vec<DNode>,
}
impl Drop for DNode {
    fn drop(&mut self) {
        let mut st = std::mem::take(&mut self.kids);
        while let Some(mut n) = st.pop() {
            st.append(&mut n.kids);
        }
    }
}
pub struct DBin {
    v: u64,
    kids: [Option<Box<DBin>>; 2],
}
impl Drop for DBin {
    fn drop(&mut self) {
        let mut st: Vec<Box<DBin>> = std::mem::take(&mut self.kids).into_iter().flatten().collect();
        while let Some(mut n) = st.pop() {
            st.extend(std::mem::take(&mut n.kids).into_iter().flatten());
        }
    }
}
impl NodeId for DNode {
    fn nid(&self) -> u64 {
        self.v
    }
}
impl NodeId for DBin {
    fn nid(&self) -> u64 {
        self.v
    }
}
impl OwnedTreeNode for DNode {
    type OwnedValue = u64;
    type OwnedChildren = Vec<DNode>;
    fn get_value_and_children(mut self) -> (u64, Vec<DNode>) {
        mark();
        (self.v, std::mem::take(&mut self.kids))
    }
}
impl<'a> MutBorrowedTreeNode<'a> for DNode {
    type MutBorrowedValue = &'a mut u64;
    type MutBorrowedChildren = std::slice::IterMut<'a, DNode>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut u64, Self::MutBorrowedChildren) {
        mark();
        (&mut self.v, self.kids.iter_mut())
    }
}
impl<'a> BorrowedTreeNode<'a> for DNode {
    type BorrowedValue = &'a u64;
    type BorrowedChildren = std::slice::Iter<'a, DNode>;
    fn get_value_and_children_iter(&'a self) -> (&'a u64, Self::BorrowedChildren) {
        mark();
        (&self.v, self.kids.iter())
    }
}
impl OwnedBinaryTreeNode for DBin {
    type OwnedValue = u64;
    fn get_value_and_children_binary(mut self) -> (u64, [Option<Self>; 2]) {
        mark();
        (self.v, std::mem::take(&mut self.kids).map(|k| k.map(|b| *b)))
    }
}
impl<'a> MutBorrowedBinaryTreeNode<'a> for DBin {
    type MutBorrowedValue = &'a mut u64;
    fn get_value_and_children_binary_iter_mut(&'a mut self) -> (&'a mut u64, [Option<&'a mut Self>; 2]) {
        mark();
        let [l, r] = &mut self.kids;
        (&mut self.v, [l.as_deref_mut(), r.as_deref_mut()])
    }
}
impl<'a> BorrowedBinaryTreeNode<'a> for DBin {
    type BorrowedValue = &'a u64;
    fn get_value_and_children_binary_iter(&'a self) -> (&'a u64, [Option<&'a Self>; 2]) {
        mark();
        let [l, r] = &self.kids;
        (&self.v, [l.as_deref(), r.as_deref()])
    }
}

trait DBuild: Sized {
    /// dropping a part of the tree is recursive: not something a traversal could avoid
    const FRAGILE: bool;
    fn node(v: u64, kids: Vec<Option<Self>>) -> Self;
    fn dismantle(self) {}
}
impl DBuild for DNode {
    const FRAGILE: bool = false;
    fn node(v: u64, kids: Vec<Option<Self>>) -> Self {
        DNode { v, kids: kids.into_iter().flatten().collect() }
    }
}
impl DBuild for DBin {
    const FRAGILE: bool = false;
    fn node(v: u64, kids: Vec<Option<Self>>) -> Self {
        let mut k = kids.into_iter().map(|k| k.map(Box::new));
        DBin { v, kids: [k.next().unwrap(), k.next().unwrap()] }
    }
}
impl DBuild for Tree<u64> {
    const FRAGILE: bool = true;
    fn node(value: u64, kids: Vec<Option<Self>>) -> Self {
        Tree { value, children: kids.into_iter().flatten().collect() }
    }
    fn dismantle(self) {
        end_tree(self)
    }
}
impl DBuild for BinaryTree<u64> {
    const FRAGILE: bool = true;
    fn node(value: u64, kids: Vec<Option<Self>>) -> Self {
        let mut k = kids.into_iter().map(|k| k.map(Box::new));
        BinaryTree { value, left: k.next().unwrap(), right: k.next().unwrap() }
    }
    fn dismantle(self) {
        end_bin(self)
    }
}
fn end_tree<T>(t: Tree<T>) {
    let mut st = vec![t];
    while let Some(mut t) = st.pop() {
        st.append(&mut t.children);
    }
}
fn end_bin<T>(t: BinaryTree<T>) {
    let mut st = vec![Box::new(t)];
    while let Some(mut t) = st.pop() {
        st.extend(t.left.take());
        st.extend(t.right.take());
    }
}
fn build<N: DBuild>(m: &DM) -> N {
    let mut done: Vec<Option<N>> = (0..m.len()).map(|_| None).collect();
    for i in (0..m.len()).rev() {
        let kids = m.slots[i].iter().map(|k| if *k == NONE { None } else { done[*k as usize].take() }).collect();
        done[i] = Some(N::node(DM::id(i as u32), kids));
    }
    done[0].take().unwrap()
}
/// the tree, or what a failed check leaves of it, is taken apart without recursion
struct Whole<N: DBuild>(Option<N>);
impl<N: DBuild> Drop for Whole<N> {
    fn drop(&mut self) {
        if let Some(n) = self.0.take() {
            n.dismantle()
        }
    }
}

// ------------------------------------------------------------------ online checker

struct Check<'m> {
    m: &'m DM,
    exp: Vec<u32>,
    pos: usize,
    /// positions at which the complete list is compared
    full: Vec<usize>,
    pub compared: u64,
    /// collections: this tree's index in front of every path
    prefix: Option<usize>,
}
impl<'m> Check<'m> {
    fn new(m: &'m DM, exp: Vec<u32>, r: &mut Rng) -> Check<'m> {
        let n = exp.len();
        let mut full: Vec<usize> = (0..5).map(|_| r.below(n.max(1))).collect();
        full.extend([0, 1, 2, n / 2, n.saturating_sub(2), n.saturating_sub(1)]);
        full.sort();
        full.dedup();
        Check { m, exp, pos: 0, full, compared: 0, prefix: None }
    }
    fn here(&self) -> Result<u32, String> {
        self.exp.get(self.pos).copied().ok_or_else(|| format!("an element beyond the {} expected ones", self.exp.len()))
    }
    fn value(&mut self, id: u64) -> R {
        let i = self.here()?;
        if id != DM::id(i) {
            return Err(format!("element {}: got node {id}, expected node {}", self.pos, DM::id(i)));
        }
        self.pos += 1;
        self.compared += 1;
        Ok(())
    }
    fn list<V: Ident>(&self, s: &[V]) -> R {
        let i = self.here()?;
        let (d, m) = (self.m.depth[i as usize] as usize, self.m);
        if s.len() != d + 1 {
            return Err(format!("element {} (node {}): {} ancestors, expected {}", self.pos, DM::id(i), s.len(), d + 1));
        }
        if d > 0 && s[d - 1].id() != DM::id(m.parent[i as usize]) {
            return Err(format!("element {} (node {}): parent {}, expected {}", self.pos, DM::id(i), s[d - 1].id(), DM::id(m.parent[i as usize])));
        }
        if self.full.binary_search(&self.pos).is_ok() {
            let mut c = i;
            for k in (0..=d).rev() {
                if s[k].id() != DM::id(c) {
                    return Err(format!("element {} (node {}): ancestor at depth {k} is {}, expected {}", self.pos, DM::id(i), s[k].id(), DM::id(c)));
                }
                c = m.parent[c as usize];
            }
        }
        Ok(())
    }
    fn path(&self, p: &[usize], i: u32) -> R {
        let m = self.m;
        let pre = self.prefix.is_some() as usize;
        let d = m.depth[i as usize] as usize + pre;
        let bad = p.len() != d || (d > pre && p[d - 1] != m.seg[i as usize] as usize) || (pre == 1 && p.first() != self.prefix.as_ref());
        let bad = bad || (self.full.binary_search(&self.pos).is_ok() && p[pre..] != m.path(i)[..]);
        if bad {
            return Err(format!("element {} (node {} at depth {d}): wrong path (length {}, ends {:?})", self.pos, DM::id(i), p.len(), &p[p.len().saturating_sub(4)..]));
        }
        Ok(())
    }
    fn ancestors<V: Ident>(&mut self, s: &[V]) -> R {
        self.list(s)?;
        self.value(s.last().map(|v| v.id()).unwrap_or(0))
    }
    fn context<V: Ident, C: Kids>(&mut self, c: &TreeContext<V, C>, kids: bool) -> R {
        let i = self.here()?;
        self.list(c.ancestors())?;
        self.path(c.path(), i)?;
        if c.depth() != self.m.depth[i as usize] as usize {
            return Err(format!("element {} (node {}): depth {}", self.pos, DM::id(i), c.depth()));
        }
        if kids {
            let want: Vec<Option<u64>> = self.m.slots[i as usize].iter().map(|k| if *k == NONE { None } else { Some(DM::id(*k)) }).collect();
            let got = c.children().kid_ids();
            if got.as_ref() != Some(&want) {
                return Err(format!("element {} (node {}): children {got:?}, expected {want:?}", self.pos, DM::id(i)));
            }
        }
        self.value(c.ancestors().last().map(|v| v.id()).unwrap_or(0))
    }
    fn end(&self) -> R {
        if self.pos != self.exp.len() {
            return Err(format!("ended after {} of {} elements", self.pos, self.exp.len()));
        }
        Ok(())
    }
    /// a closure call of map / prune / fold
    fn call(&mut self, err: &mut Option<String>, path: Option<&[usize]>, id: u64) {
        if err.is_some() {
            return;
        }
        let r = self.here().and_then(|i| {
            if let Some(p) = path {
                self.path(p, i)?;
            }
            self.value(id)
        });
        *err = r.err();
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum DMode {
    Plain,
    Leaves(usize),
    Anc,
    AncLeaves(usize),
    Ctx,
}

macro_rules! deep_modes {
    ($it:expr, $mode:expr, $pre:ident, $ck:ident, $stop:expr, $kids:expr) => {{
        macro_rules! drain {
            ($i:expr) => {{
                let mut it = $i;
                while $ck.pos < $stop {
                    match it.next() {
                        Some(v) => $ck.value(v.id())?,
                        None => {
                            $ck.end()?;
                            if it.next().is_some() {
                                return Err("an element after the end".into());
                            }
                            break;
                        }
                    }
                }
            }};
        }
        macro_rules! drain_anc {
            ($i:expr) => {{
                let mut it = $i;
                while $ck.pos < $stop {
                    match it.next() {
                        Some(v) => $ck.ancestors(&v[..])?,
                        None => {
                            $ck.end()?;
                            break;
                        }
                    }
                }
            }};
        }
        match $mode {
            DMode::Plain => drain!($it),
            DMode::Leaves(k) => {
                let mut it = $it;
                for _ in 0..k {
                    match it.next() {
                        Some(v) => $pre.value(v.id())?,
                        None => break,
                    }
                }
                drain!(it.leaves())
            }
            DMode::Anc => drain_anc!($it.attach_ancestors()),
            DMode::AncLeaves(k) => {
                let mut it = $it.attach_ancestors();
                for _ in 0..k {
                    match it.next() {
                        Some(v) => $pre.ancestors(&v[..])?,
                        None => break,
                    }
                }
                drain_anc!(it.leaves())
            }
            DMode::Ctx => {
                let mut it = $it.attach_context();
                while $ck.pos < $stop {
                    match it.next() {
                        Some(c) => $ck.context(c, $kids)?,
                        None => {
                            $ck.end()?;
                            break;
                        }
                    }
                }
            }
        }
        Ok(())
    }};
}

trait DeepGen: DBuild + NodeId + 'static {
    fn walk(m: &DM, own: Own, ord: Order, mode: DMode, stop: usize, r: &mut Rng) -> Result<u64, String>;
    fn op(m: &DM, own: Own, job: Job, r: &mut Rng) -> Result<u64, String>;
}

fn checks<'m>(m: &'m DM, ord: Order, mode: DMode, r: &mut Rng) -> (Check<'m>, Check<'m>) {
    let o = m.order(ord);
    let exp = match mode {
        DMode::Leaves(k) | DMode::AncLeaves(k) => {
            let mut done = vec![false; m.len()];
            o[..k.min(o.len())].iter().for_each(|i| done[*i as usize] = true);
            let seq = if ord == Order::Bfs { o.clone() } else { m.order(Order::Pre) };
            seq.into_iter().filter(|i| m.leaf(*i) && !done[*i as usize]).collect()
        }
        _ => o.clone(),
    };
    let pre = Check::new(m, o, r);
    let ck = Check::new(m, exp, r);
    (pre, ck)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Job {
    Map,
    MapPath,
    Prune,
    PrunePath,
    Depth,
    Fold,
    FoldPath,
    AtPath,
    /// prune, map_tree, prune_depth, map_path, then collect_tree / fold_tree / fold_path / iteration
    Chain(u8),
    /// over a collection: bulk map / prune / fold, pipelines, plain and context traversals
    MapEach,
    PruneEach,
    FoldEach,
    ChainEach(u8),
    WalkEach(Order),
    CtxEach(Order),
}
const JOBS: [Job; 22] = [
    Job::Map,
    Job::MapPath,
    Job::Prune,
    Job::PrunePath,
    Job::Depth,
    Job::Fold,
    Job::FoldPath,
    Job::AtPath,
    Job::Chain(0),
    Job::Chain(1),
    Job::Chain(2),
    Job::Chain(3),
    Job::MapEach,
    Job::PruneEach,
    Job::FoldEach,
    Job::ChainEach(0),
    Job::ChainEach(1),
    Job::WalkEach(Order::Bfs),
    Job::WalkEach(Order::Pre),
    Job::WalkEach(Order::Post),
    Job::CtxEach(Order::Pre),
    Job::CtxEach(Order::Post),
];

/// which nodes prune, chosen by id
fn cut(m: &DM, r: &mut Rng, fragile: bool) -> Vec<bool> {
    let mut below = vec![0u32; m.len()];
    for i in (1..m.len()).rev() {
        let p = m.parent[i] as usize;
        below[p] = below[p].max(below[i] + 1);
    }
    let den = *r.pick(&[3usize, 40, 5000]);
    let cap = if fragile {
        60
    } else if r.chance(1, 2) {
        u32::MAX
    } else {
        2000
    };
    let mut c: Vec<bool> = (0..m.len()).map(|i| i > 0 && below[i] < cap && (below[i] < 40 || r.chance(1, 5000)) && r.chance(1, den)).collect();
    // one deep cut
    if !fragile && r.chance(1, 2) {
        let d = (m.height() as f64 * 0.8) as u32;
        if let Some(i) = (0..m.len()).find(|i| m.depth[*i] == d) {
            c[i] = true;
        }
    }
    c
}
fn hash(id: u64, kids: impl Iterator<Item = Option<u64>>) -> u64 {
    let mut h = key(&[id, 77]);
    for k in kids {
        h = key(&[h, k.unwrap_or(5), k.is_some() as u64]);
    }
    h
}
/// expected fold of the nodes kept
fn hashes(m: &DM, keep: &[bool], f: impl Fn(u64) -> u64) -> Vec<u64> {
    let mut h = vec![0; m.len()];
    for i in (0..m.len()).rev() {
        if !keep[i] {
            continue;
        }
        let kids: Vec<Option<u64>> = m.slots[i]
            .iter()
            .filter(|k| m.bin || keep[**k as usize])
            .map(|k| if *k == NONE || !keep[*k as usize] { None } else { Some(h[*k as usize]) })
            .collect();
        h[i] = hash(f(DM::id(i as u32)), kids.into_iter());
    }
    h
}
fn same_tree<T>(t: &Tree<T>, m: &DM, keep: &[bool], f: impl Fn(&T) -> u64, want: impl Fn(u64) -> u64) -> R {
    let mut st = vec![(t, 0u32)];
    while let Some((t, i)) = st.pop() {
        if f(&t.value) != want(DM::id(i)) {
            return Err(format!("result: wrong value at node {} (depth {})", DM::id(i), m.depth[i as usize]));
        }
        let kids: Vec<u32> = m.kids(i).filter(|k| keep[*k as usize]).collect();
        if kids.len() != t.children.len() {
            return Err(format!("result: node {} has {} children, expected {}", DM::id(i), t.children.len(), kids.len()));
        }
        st.extend(t.children.iter().zip(kids));
    }
    Ok(())
}
fn same_bin<T>(t: &BinaryTree<T>, m: &DM, keep: &[bool], f: impl Fn(&T) -> u64, want: impl Fn(u64) -> u64) -> R {
    let mut st = vec![(t, 0u32)];
    while let Some((t, i)) = st.pop() {
        if f(&t.value) != want(DM::id(i)) {
            return Err(format!("result: wrong value at node {} (depth {})", DM::id(i), m.depth[i as usize]));
        }
        for (s, k) in [(0, &t.left), (1, &t.right)] {
            let want = m.slots[i as usize][s];
            let want = if want != NONE && keep[want as usize] { Some(want) } else { None };
            match (k, want) {
                (None, None) => {}
                (Some(k), Some(w)) => st.push((k, w)),
                _ => return Err(format!("result: slot {s} of node {} is {}", DM::id(i), if k.is_some() { "filled" } else { "empty" })),
            }
        }
    }
    Ok(())
}
struct Expect<'m> {
    m: &'m DM,
    calls: Check<'m>,
    keep: Vec<bool>,
    cut: Vec<bool>,
    depth: usize,
    err: Option<String>,
}
impl<'m> Expect<'m> {
    fn done(&self) -> R {
        if let Some(e) = &self.err {
            return Err(format!("closure call {e}"));
        }
        self.calls.end().map_err(|e| format!("closure calls {e}"))
    }
}
fn twice(x: u64) -> u64 {
    x * 2 + 1
}

macro_rules! deep_ops {
    ($tree:ident, $same:ident, $end:ident, $kids:ty, $kid_iter:expr, $n:expr, $own_refs:expr, $job:expr, $m:ident, $r:ident, $fragile:expr,
     $map:ident, $map_path:ident, $prune:ident, $prune_path:ident, $prune_depth:ident, $fold:ident, $fold_path:ident, $at_path:ident, $pipe:ident) => {{
        let m = $m;
        let all = vec![true; m.len()];
        match $job {
            Job::Map | Job::MapPath => {
                let mut x = Expect { m, calls: Check::new(m, m.order(Order::Pre), $r), keep: all, cut: vec![], depth: 0, err: None };
                let t = if $job == Job::Map {
                    $n.$map(|v| {
                        let id = v.id();
                        x.calls.call(&mut x.err, None, id);
                        twice(id)
                    })
                } else {
                    $n.$map_path(|p: &[usize], v| {
                        let id = v.id();
                        x.calls.call(&mut x.err, Some(p), id);
                        twice(id)
                    })
                };
                let e = x.done().and_then(|_| $same(&t, m, &x.keep, |v| *v, twice));
                $end(t);
                e.map(|_| x.calls.compared)
            }
            Job::Prune | Job::PrunePath => {
                let cut = cut(m, $r, $fragile);
                let keep = m.keep(&cut);
                let asked = m.order(Order::Pre).into_iter().filter(|i| *i == 0 || keep[m.parent[*i as usize] as usize]).collect();
                let mut x = Expect { m, calls: Check::new(m, asked, $r), keep, cut, depth: 0, err: None };
                let t = if $job == Job::Prune {
                    $n.$prune(|v| {
                        let id = v.id();
                        x.calls.call(&mut x.err, None, id);
                        x.cut.get(id as usize - 1).copied().unwrap_or(true)
                    })
                } else {
                    $n.$prune_path(|p: &[usize], v| {
                        let id = v.id();
                        x.calls.call(&mut x.err, Some(p), id);
                        x.cut.get(id as usize - 1).copied().unwrap_or(true)
                    })
                };
                let Some(t) = t else { return Err("prune returned None".into()) };
                let e = x.done().and_then(|_| $same(&t, m, &x.keep, |v| v.id(), |v| v));
                $end(t);
                e.map(|_| x.calls.compared)
            }
            Job::Depth => {
                let h = m.height() as usize;
                let d = if $fragile { h - $r.below(h.min(20)) } else { *$r.pick(&[h, h - 1, h / 2, 3, 0, h + 7]) };
                let keep: Vec<bool> = m.depth.iter().map(|x| *x as usize <= d).collect();
                let t = $n.$prune_depth(d);
                let e = $same(&t, m, &keep, |v| v.id(), |v| v);
                $end(t);
                e.map(|_| keep.iter().filter(|k| **k).count() as u64)
            }
            Job::Fold | Job::FoldPath => {
                let want = hashes(m, &all, |x| x)[0];
                let mut x = Expect { m, calls: Check::new(m, m.order(Order::Post), $r), keep: all, cut: vec![], depth: 0, err: None };
                let got = if $job == Job::Fold {
                    $n.$fold(|kids: $kids, v| {
                        let id = v.id();
                        x.calls.call(&mut x.err, None, id);
                        hash(id, $kid_iter(kids))
                    })
                } else {
                    $n.$fold_path(|kids: $kids, p: &[usize], v| {
                        let id = v.id();
                        x.calls.call(&mut x.err, Some(p), id);
                        hash(id, $kid_iter(kids))
                    })
                };
                x.done()?;
                if got != want {
                    return Err("fold: wrong result".into());
                }
                Ok(x.calls.compared)
            }
            Job::AtPath => {
                let deepest = (0..m.len()).max_by_key(|i| m.depth[*i]).unwrap();
                let i = if $r.chance(1, 2) { deepest } else { $r.below(m.len()) } as u32;
                let mut p = m.path(i);
                let miss = $r.chance(1, 3);
                if miss {
                    p.push(if m.bin { 2 } else { m.slots[i as usize].len() });
                }
                let got = $n.$at_path(&p);
                match (&got, miss) {
                    (None, true) => {}
                    (Some(g), false) if g.nid() == DM::id(i) => {}
                    _ => return Err(format!("a path of {} steps to node {}{}: got {:?}", p.len(), DM::id(i), if miss { " and beyond" } else { "" }, got.map(|g| g.nid()))),
                }
                Ok(p.len() as u64)
            }
            Job::Chain(how) => {
                let cutset = cut(m, $r, $fragile);
                let h = m.height() as usize;
                let d = if $fragile { h - $r.below(h.min(20)) } else { *$r.pick(&[h, h / 2, h - 3, 3]) };
                let keep1 = m.keep(&cutset);
                let keep: Vec<bool> = (0..m.len()).map(|i| keep1[i] && m.depth[i] as usize <= d).collect();
                let it = $n
                    .$pipe()
                    .prune(|v| cutset.get(v.id() as usize - 1).copied().unwrap_or(true))
                    .map_tree(|v| v.id())
                    .prune_depth(d)
                    .map_path(|p: &[usize], v| (p.len() as u64, twice(v)));
                let f = |v: &(u64, u64)| v.1;
                match how {
                    0 => {
                        let Some(t) = it.collect_tree() else { return Err("collect_tree returned None".into()) };
                        let e = $same(&t, m, &keep, f, twice);
                        $end(t);
                        e?
                    }
                    1 => {
                        let got = it.fold_tree(|kids: $kids, v| hash(v.1, $kid_iter(kids)));
                        if got != Some(hashes(m, &keep, twice)[0]) {
                            return Err("fold_tree: wrong result".into());
                        }
                    }
                    2 => {
                        let mut bad = None;
                        let got = it.fold_path(|kids: $kids, p: &[usize], v| {
                            if p.len() as u64 != v.0 {
                                bad = Some(format!("fold_path at depth {} with a path of {}", v.0, p.len()));
                            }
                            hash(v.1, $kid_iter(kids))
                        });
                        if let Some(b) = bad {
                            return Err(b);
                        }
                        if got != Some(hashes(m, &keep, twice)[0]) {
                            return Err("fold_path: wrong result".into());
                        }
                    }
                    _ => {
                        let mut it = it;
                        let seq: Vec<u32> = m.order(Order::Pre).into_iter().filter(|i| keep[*i as usize]).collect();
                        let stop = if $fragile || $r.chance(1, 2) { usize::MAX } else { $r.below(seq.len() + 1) };
                        let mut ck = Check::new(m, seq, $r);
                        while ck.pos < stop {
                            let Some((len, v)) = it.next() else {
                                ck.end()?;
                                break;
                            };
                            let i = ck.here()?;
                            let p = it.current_path();
                            // pruning renumbers the siblings of generic trees: compare lengths, and segments of binary trees
                            if p.len() != m.depth[i as usize] as usize || len != p.len() as u64 || it.current_depth() != p.len() {
                                return Err(format!("current_path of length {} at depth {}", p.len(), m.depth[i as usize]));
                            }
                            if m.bin {
                                ck.path(p, i)?;
                            }
                            ck.value((v - 1) / 2)?;
                        }
                    }
                }
                Ok(keep.iter().filter(|k| **k).count() as u64)
            }
            _ => unreachable!(),
        }
    }};
}

macro_rules! deep_each {
    ($same:ident, $end:ident, $kids:ty, $kid_iter:expr, $c:expr, $job:expr, $m:ident, $r:ident, $fragile:expr, $trees:expr,
     $map:ident, $prune:ident, $fold:ident, $pipe:ident, $bfs:ident, $pre:ident, $post:ident, $post_kids:expr) => {{
        let m = $m;
        let all = vec![true; m.len()];
        let mut n = 0;
        match $job {
            Job::MapEach => {
                let mut calls = 0u64;
                for t in $c.$map(|v| {
                    calls += 1;
                    twice(v.id())
                }) {
                    let e = $same(&t, m, &all, |v| *v, twice);
                    $end(t);
                    e?;
                    n += 1;
                }
                if calls != 2 * m.len() as u64 {
                    return Err(format!("{calls} closure calls for {} nodes", 2 * m.len()));
                }
            }
            Job::PruneEach => {
                let cut = cut(m, $r, $fragile);
                let keep = m.keep(&cut);
                for t in $c.$prune(|v| cut.get(v.id() as usize - 1).copied().unwrap_or(true)) {
                    let e = $same(&t, m, &keep, |v| v.id(), |v| v);
                    $end(t);
                    e?;
                    n += 1;
                }
            }
            Job::FoldEach => {
                let want = hashes(m, &all, |x| x)[0];
                for h in $c.$fold(|kids: $kids, v| hash(v.id(), $kid_iter(kids))) {
                    if h != want {
                        return Err("fold_each: wrong result".into());
                    }
                    n += 1;
                }
            }
            Job::ChainEach(how) => {
                let cut = cut(m, $r, $fragile);
                let keep = m.keep(&cut);
                let it = $c.$pipe().prune(|v| cut.get(v.id() as usize - 1).copied().unwrap_or(true)).map_path(|p: &[usize], v| (p.len(), twice(v.id())));
                if how == 0 {
                    for t in it.trees() {
                        let e = $same(&t, m, &keep, |v| v.1, twice);
                        $end(t);
                        e?;
                        n += 1;
                    }
                } else {
                    let want = hashes(m, &keep, twice)[0];
                    for h in it.fold_path(|kids: $kids, _p: &[usize], v| hash(v.1, $kid_iter(kids))) {
                        if h != want {
                            return Err("fold_path over a collection: wrong result".into());
                        }
                        n += 1;
                    }
                }
            }
            Job::WalkEach(o) => {
                let seq = m.order(o);
                let mut ck = Check::new(m, seq, $r);
                macro_rules! go {
                    ($it:expr) => {
                        for v in $it {
                            if ck.pos == ck.exp.len() {
                                n += 1;
                                ck.pos = 0;
                            }
                            ck.value(v.id())?;
                        }
                    };
                }
                match o {
                    Order::Bfs => go!($c.$bfs()),
                    Order::Pre => go!($c.$pre()),
                    _ => go!($c.$post()),
                }
                ck.end()?;
                n += 1;
            }
            Job::CtxEach(o) => {
                let mut ck = Check::new(m, m.order(o), $r);
                ck.prefix = Some(0);
                macro_rules! go {
                    ($it:expr, $k:expr) => {{
                        let mut it = $it.attach_context();
                        while let Some(c) = it.next() {
                            if ck.pos == ck.exp.len() {
                                n += 1;
                                ck.pos = 0;
                                ck.prefix = Some(n);
                            }
                            ck.context(c, $k)?;
                        }
                    }};
                }
                match o {
                    Order::Pre => go!($c.$pre(), true),
                    _ => go!($c.$post(), $post_kids),
                }
                ck.end()?;
                n += 1;
            }
            _ => unreachable!(),
        }
        if n != 2 {
            return Err(format!("{n} results for 2 trees"));
        }
        Ok(2 * m.len() as u64)
    }};
}

fn gk(k: Vec<u64>) -> impl Iterator<Item = Option<u64>> {
    k.into_iter().map(Some)
}
fn bk(k: [Option<u64>; 2]) -> impl Iterator<Item = Option<u64>> {
    k.into_iter()
}

macro_rules! impl_gen {
    ($t:ty) => {
        impl DeepGen for $t {
            fn walk(m: &DM, own: Own, ord: Order, mode: DMode, stop: usize, r: &mut Rng) -> Result<u64, String> {
                let mut w = Whole(Some(build::<$t>(m)));
                let (mut pre, mut ck) = checks(m, ord, mode, r);
                let res: R = (|| match (own, ord) {
                    (Own::Owned, Order::Bfs) => deep_modes!(w.0.take().unwrap().bfs(), mode, pre, ck, stop, true),
                    (Own::Owned, Order::Pre) => deep_modes!(w.0.take().unwrap().dfs_preorder(), mode, pre, ck, stop, true),
                    (Own::Owned, _) => deep_modes!(w.0.take().unwrap().dfs_postorder(), mode, pre, ck, stop, false),
                    (Own::Mut, Order::Bfs) => deep_modes!(w.0.as_mut().unwrap().bfs_iter_mut(), mode, pre, ck, stop, true),
                    (Own::Mut, Order::Pre) => deep_modes!(w.0.as_mut().unwrap().dfs_preorder_iter_mut(), mode, pre, ck, stop, true),
                    (Own::Mut, _) => deep_modes!(w.0.as_mut().unwrap().dfs_postorder_iter_mut(), mode, pre, ck, stop, true),
                    (Own::Ref, Order::Bfs) => deep_modes!(w.0.as_ref().unwrap().bfs_iter(), mode, pre, ck, stop, true),
                    (Own::Ref, Order::Pre) => deep_modes!(w.0.as_ref().unwrap().dfs_preorder_iter(), mode, pre, ck, stop, true),
                    (Own::Ref, _) => deep_modes!(w.0.as_ref().unwrap().dfs_postorder_iter(), mode, pre, ck, stop, true),
                })();
                res.map(|_| pre.compared + ck.compared)
            }
            fn op(m: &DM, own: Own, job: Job, r: &mut Rng) -> Result<u64, String> {
                let each = matches!(job, Job::MapEach | Job::PruneEach | Job::FoldEach | Job::ChainEach(_) | Job::WalkEach(_) | Job::CtxEach(_));
                if !each {
                    let mut w = Whole(Some(build::<$t>(m)));
                    return match own {
                        Own::Owned => deep_ops!(Tree, same_tree, end_tree, Vec<u64>, gk, w.0.take().unwrap(), (), job, m, r, <$t>::FRAGILE, map, map_path, prune, prune_path, prune_depth, fold, fold_path, at_path, into_pipeline),
                        Own::Mut => deep_ops!(Tree, same_tree, end_tree, Vec<u64>, gk, w.0.as_mut().unwrap(), (), job, m, r, false, map_mut, map_path_mut, prune_mut, prune_path_mut, prune_depth_mut, fold_mut, fold_path_mut, at_path_mut, into_pipeline_mut),
                        Own::Ref => deep_ops!(Tree, same_tree, end_tree, Vec<u64>, gk, w.0.as_ref().unwrap(), (), job, m, r, false, map_ref, map_path_ref, prune_ref, prune_path_ref, prune_depth_ref, fold_ref, fold_path_ref, at_path_ref, into_pipeline_ref),
                    };
                }
                let (a, b) = (build::<$t>(m), build::<$t>(m));
                match own {
                    Own::Owned => deep_each!(same_tree, end_tree, Vec<u64>, gk, vec![a, b], job, m, r, <$t>::FRAGILE, (), map_each, prune_each, fold_each, into_pipeline, bfs_each, dfs_preorder_each, dfs_postorder_each, false),
                    Own::Mut => {
                        let mut v = vec![a, b];
                        let res = (|| deep_each!(same_tree, end_tree, Vec<u64>, gk, (&mut v), job, m, r, false, (), map_each_mut, prune_each_mut, fold_each_mut, into_pipeline_mut, bfs_each_iter_mut, dfs_preorder_each_iter_mut, dfs_postorder_each_iter_mut, true))();
                        v.into_iter().for_each(|t| t.dismantle());
                        res
                    }
                    Own::Ref => {
                        let v = vec![a, b];
                        let res = (|| deep_each!(same_tree, end_tree, Vec<u64>, gk, (&v), job, m, r, false, (), map_each_ref, prune_each_ref, fold_each_ref, into_pipeline_ref, bfs_each_iter, dfs_preorder_each_iter, dfs_postorder_each_iter, true))();
                        v.into_iter().for_each(|t| t.dismantle());
                        res
                    }
                }
            }
        }
    };
}
macro_rules! impl_bin {
    ($t:ty) => {
        impl DeepGen for $t {
            fn walk(m: &DM, own: Own, ord: Order, mode: DMode, stop: usize, r: &mut Rng) -> Result<u64, String> {
                let mut w = Whole(Some(build::<$t>(m)));
                let (mut pre, mut ck) = checks(m, ord, mode, r);
                let res: R = (|| match (own, ord) {
                    (Own::Owned, Order::Bfs) => deep_modes!(OwnedBinaryTreeNode::bfs(w.0.take().unwrap()), mode, pre, ck, stop, true),
                    (Own::Owned, Order::Pre) => deep_modes!(OwnedBinaryTreeNode::dfs_preorder(w.0.take().unwrap()), mode, pre, ck, stop, true),
                    (Own::Owned, Order::In) => deep_modes!(OwnedBinaryTreeNode::dfs_inorder(w.0.take().unwrap()), mode, pre, ck, stop, false),
                    (Own::Owned, _) => deep_modes!(OwnedBinaryTreeNode::dfs_postorder(w.0.take().unwrap()), mode, pre, ck, stop, false),
                    (Own::Mut, Order::Bfs) => deep_modes!(w.0.as_mut().unwrap().bfs_iter_mut(), mode, pre, ck, stop, true),
                    (Own::Mut, Order::Pre) => deep_modes!(w.0.as_mut().unwrap().dfs_preorder_iter_mut(), mode, pre, ck, stop, true),
                    (Own::Mut, Order::In) => deep_modes!(w.0.as_mut().unwrap().dfs_inorder_iter_mut(), mode, pre, ck, stop, true),
                    (Own::Mut, _) => deep_modes!(w.0.as_mut().unwrap().dfs_postorder_iter_mut(), mode, pre, ck, stop, true),
                    (Own::Ref, Order::Bfs) => deep_modes!(w.0.as_ref().unwrap().bfs_iter(), mode, pre, ck, stop, true),
                    (Own::Ref, Order::Pre) => deep_modes!(w.0.as_ref().unwrap().dfs_preorder_iter(), mode, pre, ck, stop, true),
                    (Own::Ref, Order::In) => deep_modes!(w.0.as_ref().unwrap().dfs_inorder_iter(), mode, pre, ck, stop, true),
                    (Own::Ref, _) => deep_modes!(w.0.as_ref().unwrap().dfs_postorder_iter(), mode, pre, ck, stop, true),
                })();
                res.map(|_| pre.compared + ck.compared)
            }
            fn op(m: &DM, own: Own, job: Job, r: &mut Rng) -> Result<u64, String> {
                let each = matches!(job, Job::MapEach | Job::PruneEach | Job::FoldEach | Job::ChainEach(_) | Job::WalkEach(_) | Job::CtxEach(_));
                if !each {
                    let mut w = Whole(Some(build::<$t>(m)));
                    return match own {
                        Own::Owned => deep_ops!(BinaryTree, same_bin, end_bin, [Option<u64>; 2], bk, w.0.take().unwrap(), (), job, m, r, <$t>::FRAGILE, map, map_path, prune, prune_path, prune_depth, fold, fold_path, at_path, into_pipeline),
                        Own::Mut => deep_ops!(BinaryTree, same_bin, end_bin, [Option<u64>; 2], bk, w.0.as_mut().unwrap(), (), job, m, r, false, map_mut, map_path_mut, prune_mut, prune_path_mut, prune_depth_mut, fold_mut, fold_path_mut, at_path_mut, into_pipeline_mut),
                        Own::Ref => deep_ops!(BinaryTree, same_bin, end_bin, [Option<u64>; 2], bk, w.0.as_ref().unwrap(), (), job, m, r, false, map_ref, map_path_ref, prune_ref, prune_path_ref, prune_depth_ref, fold_ref, fold_path_ref, at_path_ref, into_pipeline_ref),
                    };
                }
                let (a, b) = (build::<$t>(m), build::<$t>(m));
                match own {
                    Own::Owned => deep_each!(same_bin, end_bin, [Option<u64>; 2], bk, vec![a, b], job, m, r, <$t>::FRAGILE, (), map_each, prune_each, fold_each, into_pipeline, bfs_each, dfs_preorder_each, dfs_postorder_each, false),
                    Own::Mut => {
                        let mut v = vec![a, b];
                        let res = (|| deep_each!(same_bin, end_bin, [Option<u64>; 2], bk, (&mut v), job, m, r, false, (), map_each_mut, prune_each_mut, fold_each_mut, into_pipeline_mut, bfs_each_iter_mut, dfs_preorder_each_iter_mut, dfs_postorder_each_iter_mut, true))();
                        v.into_iter().for_each(|t| t.dismantle());
                        res
                    }
                    Own::Ref => {
                        let v = vec![a, b];
                        let res = (|| deep_each!(same_bin, end_bin, [Option<u64>; 2], bk, (&v), job, m, r, false, (), map_each_ref, prune_each_ref, fold_each_ref, into_pipeline_ref, bfs_each_iter, dfs_preorder_each_iter, dfs_postorder_each_iter, true))();
                        v.into_iter().for_each(|t| t.dismantle());
                        res
                    }
                }
            }
        }
    };
}
impl_gen!(DNode);
impl_gen!(Tree<u64>);
impl_bin!(DBin);
impl_bin!(BinaryTree<u64>);

/// runs on a thread with a small stack; returns (events, peak stack seen at node openings)
fn small_stack(f: impl FnOnce() -> Result<u64, String> + Send) -> Result<(u64, u64), String> {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                let x = 0u8;
                BASE.with(|b| b.set(&x as *const u8 as usize));
                PEAK.with(|p| p.set(0));
                let r = guarded(f).map_err(|p| format!("unexpected panic: {p}")).and_then(|r| r);
                r.map(|e| (e, PEAK.with(|p| p.get()) as u64))
            })
            .expect("a thread");
        h.join().unwrap_or_else(|_| Err("the thread died".into()))
    })
}

pub struct Deep {
    quick: bool,
    combos: Vec<(bool, &'static str, Own, What)>,
    rounds: u64,
}
#[derive(Clone, Copy, Debug)]
enum What {
    Walk(Order),
    Op(Job),
}
impl Deep {
    pub fn new(quick: bool) -> Deep {
        let mut combos = vec![];
        for (bin, fam) in [(false, "DNode"), (true, "DBin"), (false, "Tree"), (true, "BinaryTree")] {
            for own in OWNS {
                for o in if bin { &BIN_ORDERS[..] } else { &GEN_ORDERS[..] } {
                    combos.push((bin, fam, own, What::Walk(*o)));
                }
                for j in JOBS {
                    // the tree around the node found, or the rest of the tree, would be dropped recursively
                    if own == Own::Owned && j == Job::AtPath && (fam == "Tree" || fam == "BinaryTree") {
                        continue;
                    }
                    combos.push((bin, fam, own, What::Op(j)));
                }
            }
        }
        Deep { quick, combos, rounds: if quick { 14 } else { 140 } }
    }
}
impl Prop for Deep {
    fn cases(&self) -> u64 {
        self.combos.len() as u64 * self.rounds
    }
    fn rule(&self) -> String {
        format!(
            "{} combinations of node family, ownership and operation (every traversal with ancestors, context and leaves() converted at several points, at_path, map, prune, fold, pipelines, collections) on {SHAPES} shape families of very deep trees, each run on a thread with {} KiB of stack; distinct by (shape, size, combination, parameters), all non-trivial",
            self.combos.len(),
            STACK >> 10
        )
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        let mut r = Rng::new(seed, "deep", i);
        let (round, c) = (i / self.combos.len() as u64, (i % self.combos.len() as u64) as usize);
        let (bin, fam, own, what) = self.combos[c];
        let kind = ((round + c as u64) % SHAPES as u64) as usize;
        let n = if self.quick { r.range(50_000, 120_000) } else { r.range(60_000, 400_000) };
        let m = shape(bin, kind, n, &mut r);
        // breadth-first ancestors are rebuilt per level: time grows with the square of the depth
        let shallow = shape(bin, kind, r.range(3_000, 4_500), &mut r);
        cx.peak("deepest_tree", m.height() as u64);
        cx.peak("largest_tree", m.len() as u64);
        let fragile = own == Own::Owned && (fam == "Tree" || fam == "BinaryTree");
        macro_rules! run {
            ($m:ident($($a:expr),*)) => {
                match fam {
                    "DNode" => DNode::$m($($a),*),
                    "DBin" => DBin::$m($($a),*),
                    "Tree" => Tree::<u64>::$m($($a),*),
                    _ => BinaryTree::<u64>::$m($($a),*),
                }
            };
        }
        let mut peak = 0;
        match what {
            What::Walk(ord) => {
                for j in 0..9 {
                    let meta = [1, 2, 6, 7, 8].contains(&j);
                    let m = if meta && ord == Order::Bfs { &shallow } else { &m };
                    let l = m.len();
                    let some = r.below(l);
                    let modes = [DMode::Plain, DMode::Ctx, DMode::Anc, DMode::Leaves(0), DMode::Leaves(some), DMode::Leaves(l - 1), DMode::AncLeaves(0), DMode::AncLeaves(some), DMode::AncLeaves(l - 2)];
                    let mode = modes[j];
                    let stops = if fragile { vec![usize::MAX] } else { vec![usize::MAX, *r.pick(&[0, r.clone().below(l), r.clone().below(l), l - 1, l])] };
                    for stop in stops {
                        let s = r.next();
                        let k = key(&[kind as u64, n as u64, c as u64, skey(&format!("{mode:?}")), stop as u64, bin as u64]);
                        cx.eval(
                            k,
                            true,
                            || format!("{fam} {own:?} {ord:?} {mode:?} stop={stop} on shape {kind} with {l} nodes, height {}", m.height()),
                            || {
                                let (e, p) = small_stack(|| run!(walk(m, own, ord, mode, stop, &mut Rng::new(s, "w", 0))))?;
                                peak = peak.max(p);
                                Ok(e)
                            },
                        )?;
                    }
                }
            }
            What::Op(job) => {
                let s = r.next();
                let k = key(&[kind as u64, n as u64, c as u64, skey(&format!("{job:?}")), bin as u64]);
                let m = &m;
                cx.eval(
                    k,
                    true,
                    || format!("{fam} {own:?} {job:?} on shape {kind} with {} nodes, height {}", m.len(), m.height()),
                    || {
                        let (e, p) = small_stack(|| run!(op(m, own, job, &mut Rng::new(s, "o", 0))))?;
                        peak = peak.max(p);
                        Ok(e)
                    },
                )?;
            }
        }
        cx.peak("peak_stack_bytes_seen_at_node_openings", peak);
        Ok(())
    }
}
