//! Lists of trees, and every kind of collection the library accepts them in.
use crate::engine::*;
use crate::model::*;
use crate::nodes::*;
use crate::rng::Rng;
use crate::traverse::*;
use tree_iterators_rs::prelude::*;

/// Lists for case numbers: every short list of tiny trees, then a few huge ones, then random ones.
pub struct Lists {
    small: Vec<Vec<usize>>, // indexes into `tiny`
    tiny: Vec<Model>,
    nspecial: usize,
    random: u64,
    max: usize,
    g: usize,
    b: usize,
    len: usize,
}
impl Lists {
    pub fn new(g: usize, b: usize, len: usize, random: u64, max: usize) -> Lists {
        let mut tiny = vec![];
        let mut small: Vec<Vec<usize>> = vec![];
        for (bin, n) in [(false, g), (true, b)] {
            let base = tiny.len();
            tiny.extend(all_small(bin, n));
            let k = tiny.len() - base;
            let mut level: Vec<Vec<usize>> = vec![vec![]];
            for l in 0..=len {
                if l > 0 {
                    level = level.iter().flat_map(|v| (0..k).map(|x| [v.clone(), vec![base + x]].concat()).collect::<Vec<_>>()).collect();
                    small.extend(level.iter().cloned());
                } else {
                    // the empty list; the marker says which kind
                    small.push(vec![usize::MAX - bin as usize]);
                }
            }
        }
        small.sort_by_key(|v| v.len());
        Lists { small, tiny, nspecial: if max >= 8 { 8 } else { 0 }, random, max, g, b, len }
    }
    pub fn cases(&self) -> u64 {
        (self.small.len() + self.nspecial) as u64 + self.random
    }
    pub fn get(&self, stream: &str, seed: u64, i: u64) -> (bool, Vec<Model>, Rng) {
        let mut r = Rng::new(seed, stream, i);
        let (bin, mut v): (bool, Vec<Model>) = if (i as usize) < self.small.len() {
            let s = &self.small[i as usize];
            if s[0] >= usize::MAX - 1 {
                (s[0] == usize::MAX - 1, vec![])
            } else {
                (self.tiny[s[0]].binary, s.iter().map(|x| self.tiny[*x].clone()).collect())
            }
        } else if (i as usize) < self.small.len() + self.nspecial {
            let j = i as usize - self.small.len();
            let bin = j % 2 == 1;
            let v = match j / 2 {
                // more trees than 8 / 16 bits count
                0 => (0..400).map(|_| random(&mut r, bin, 4)).collect(),
                1 => (0..66_000).map(|k| if k % 1000 < 2 { random(&mut r, bin, 4) } else { Model::single(bin) }).collect(),
                2 => (0..3).map(|_| sized(&mut r, bin, 1500)).collect(),
                _ => vec![deep(bin, &[1100]), Model::single(bin), deep(bin, &[300, 260]), deep(bin, &[3]), deep(bin, &[70])],
            };
            (bin, v)
        } else {
            let bin = r.chance(1, 2);
            let n = match r.below(8) {
                0 => r.range(0, 2),
                7 => r.range(8, 40),
                _ => r.range(1, 6),
            };
            let max = self.max;
            (
                bin,
                (0..n)
                    .map(|_| {
                        let m = if r.chance(1, 3) { 3.min(max) } else { max };
                        random(&mut r, bin, m)
                    })
                    .collect(),
            )
        };
        let mut base = 0;
        for m in v.iter_mut() {
            let t = std::mem::replace(m, Model::single(bin));
            *m = t.finish(base);
            base += m.len() as u64;
        }
        (bin, v, r)
    }
    pub fn text(&self) -> String {
        format!("every list of up to {} generic trees with up to {} nodes or binary trees with up to {} nodes, {} lists, the empty list included; a few lists of 400 and 66000 trees of trees with 1500 nodes, and of trees with up to 1100 levels; then {} seeded random lists of up to 40 trees with up to {} nodes", self.len, self.g, self.b, self.small.len(), self.random, self.max)
    }
}
pub fn lists_key(v: &[Model]) -> u64 {
    key(&v.iter().map(|m| m.shape_key()).chain([v.len() as u64]).collect::<Vec<_>>())
}
pub fn show(v: &[Model]) -> String {
    let mut s = String::from("[");
    for m in v {
        s.push_str(&m.show());
        s.push_str("; ");
        if s.len() > 3000 {
            s.push_str("...");
            break;
        }
    }
    s.push(']');
    s
}

/// A user-defined collection of trees; its iterators give no size hints.
pub struct Bag<N>(pub std::collections::VecDeque<N>);
pub struct BagIter<I>(I);
impl<I: Iterator> Iterator for BagIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
impl<N> IntoIterator for Bag<N> {
    type Item = N;
    type IntoIter = BagIter<std::collections::vec_deque::IntoIter<N>>;
    fn into_iter(self) -> Self::IntoIter {
        BagIter(self.0.into_iter())
    }
}
impl<'a, N> IntoIterator for &'a Bag<N> {
    type Item = &'a N;
    type IntoIter = BagIter<std::collections::vec_deque::Iter<'a, N>>;
    fn into_iter(self) -> Self::IntoIter {
        BagIter(self.0.iter())
    }
}
impl<'a, N> IntoIterator for &'a mut Bag<N> {
    type Item = &'a mut N;
    type IntoIter = BagIter<std::collections::vec_deque::IterMut<'a, N>>;
    fn into_iter(self) -> Self::IntoIter {
        BagIter(self.0.iter_mut())
    }
}
impl<N: OwnedTreeNode> OwnedIntoIteratorOfTrees<N> for Bag<N> {}
impl<N: OwnedBinaryTreeNode> OwnedIntoIteratorOfBinaryTrees<N> for Bag<N> {}
impl<'a, N: MutBorrowedTreeNode<'a>> MutBorrowedIntoIteratorOfTrees<'a, N> for &'a mut Bag<N> {}
impl<'a, N: MutBorrowedBinaryTreeNode<'a>> MutBorrowedIntoIteratorOfBinaryTrees<'a, N> for &'a mut Bag<N> {}
impl<'a, N: BorrowedTreeNode<'a>> BorrowedIntoIteratorOfTrees<'a, N> for &'a Bag<N> {}
impl<'a, N: BorrowedBinaryTreeNode<'a>> BorrowedIntoIteratorOfBinaryTrees<'a, N> for &'a Bag<N> {}

/// which collection type carries the trees
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Coll {
    Vec,
    /// `[T; N]` (Vec for more than 4 trees)
    Array,
    /// `slice::Iter`, `slice::IterMut`
    SliceIter,
    /// `&[T]`, generic trees only
    Slice,
    Bag,
}
pub fn colls(binary: bool, own: Own) -> &'static [Coll] {
    match (own, binary) {
        (Own::Owned, _) => &[Coll::Vec, Coll::Array, Coll::Bag],
        (Own::Mut, _) => &[Coll::Vec, Coll::Array, Coll::SliceIter, Coll::Bag],
        (Own::Ref, false) => &[Coll::Vec, Coll::Slice, Coll::SliceIter, Coll::Bag],
        (Own::Ref, true) => &[Coll::Vec, Coll::Array, Coll::SliceIter, Coll::Bag],
    }
}

pub fn build_all<N: Build>(v: &[Model]) -> Vec<N> {
    v.iter().map(N::build).collect()
}

/// run `$body` with `$c` bound to the collection (by value)
#[macro_export]
macro_rules! with_owned_coll {
    ($v:expr, $coll:expr, $c:ident => $body:expr) => {{
        let v: Vec<_> = $v;
        match ($coll, v.len()) {
            (Coll::Bag, _) => {
                let $c = Bag(v.into_iter().collect());
                $body
            }
            (Coll::Array, 0) => $crate::arr_owned!(v, 0, $c, $body),
            (Coll::Array, 2) => $crate::arr_owned!(v, 2, $c, $body),
            (Coll::Array, 3) => $crate::arr_owned!(v, 3, $c, $body),
            _ => {
                let $c = v;
                $body
            }
        }
    }};
}
#[macro_export]
macro_rules! arr_owned {
    ($v:ident, $n:literal, $c:ident, $body:expr) => {{
        let Ok($c) = <[_; $n]>::try_from($v) else { unreachable!() };
        $body
    }};
}
/// `$c` is bound to the mutably borrowed collection; afterwards `$v` holds the trees again
#[macro_export]
macro_rules! with_mut_coll {
    ($v:ident, $coll:expr, $c:ident => $body:expr) => {{
        match ($coll, $v.len()) {
            (Coll::Bag, _) => {
                let mut b = Bag(std::mem::take(&mut $v).into_iter().collect());
                let res = {
                    let $c = &mut b;
                    $body
                };
                $v = b.0.into_iter().collect();
                res
            }
            (Coll::Array, 0) => $crate::arr_mut!($v, 0, $c, $body),
            (Coll::Array, 2) => $crate::arr_mut!($v, 2, $c, $body),
            (Coll::Array, 3) => $crate::arr_mut!($v, 3, $c, $body),
            (Coll::SliceIter, _) => {
                let $c = $v.iter_mut();
                $body
            }
            _ => {
                let $c = &mut $v;
                $body
            }
        }
    }};
}
#[macro_export]
macro_rules! arr_mut {
    ($v:ident, $n:literal, $c:ident, $body:expr) => {{
        let Ok(mut a) = <[_; $n]>::try_from(std::mem::take(&mut $v)) else { unreachable!() };
        let res = {
            let $c = &mut a;
            $body
        };
        $v = a.into_iter().collect();
        res
    }};
}
#[macro_export]
macro_rules! with_ref_gen_coll {
    ($v:ident, $coll:expr, $c:ident => $body:expr) => {{
        match $coll {
            Coll::Bag => {
                let b = Bag(std::mem::take(&mut $v).into_iter().collect());
                let res = {
                    let $c = &b;
                    $body
                };
                $v = b.0.into_iter().collect();
                res
            }
            Coll::SliceIter => {
                let $c = $v.iter();
                $body
            }
            Coll::Slice => {
                let $c = &$v[..];
                $body
            }
            _ => {
                let $c = &$v;
                $body
            }
        }
    }};
}
#[macro_export]
macro_rules! with_ref_bin_coll {
    ($v:ident, $coll:expr, $c:ident => $body:expr) => {{
        match ($coll, $v.len()) {
            (Coll::Bag, _) => {
                let b = Bag(std::mem::take(&mut $v).into_iter().collect());
                let res = {
                    let $c = &b;
                    $body
                };
                $v = b.0.into_iter().collect();
                res
            }
            (Coll::Array, 0) => $crate::arr_ref!($v, 0, $c, $body),
            (Coll::Array, 2) => $crate::arr_ref!($v, 2, $c, $body),
            (Coll::Array, 3) => $crate::arr_ref!($v, 3, $c, $body),
            (Coll::SliceIter, _) => {
                let $c = $v.iter();
                $body
            }
            _ => {
                let $c = &$v;
                $body
            }
        }
    }};
}
#[macro_export]
macro_rules! arr_ref {
    ($v:ident, $n:literal, $c:ident, $body:expr) => {{
        let Ok(a) = <[_; $n]>::try_from(std::mem::take(&mut $v)) else { unreachable!() };
        let res = {
            let $c = &a;
            $body
        };
        $v = a.into_iter().collect();
        res
    }};
}
