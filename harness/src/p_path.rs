//! P08: at_path / at_path_ref / at_path_mut on nodes and collections, for every path of the tree and
//! for paths that leave it.
use crate::engine::*;
use crate::lists::*;
use crate::model::*;
use crate::nodes::*;
use crate::rng::Rng;
use crate::tok::*;
use crate::traverse::*;
use crate::{with_mut_coll, with_owned_coll, with_ref_bin_coll, with_ref_gen_coll};
use tree_iterators_rs::prelude::*;

pub struct Paths {
    src: Src,
    lists: Lists,
}

/// ids of the subtree below i, with paths relative to it
fn sub_dump(m: &Model, i: usize) -> Vec<(Vec<usize>, u64)> {
    let mut out = vec![];
    let mut st = vec![(vec![], i)];
    while let Some((p, x)) = st.pop() {
        out.push((p.clone(), m.nodes[x].id));
        for (s, k) in m.nodes[x].slots.iter().enumerate().rev() {
            if let Some(k) = k {
                let mut q = p.clone();
                q.push(s);
                st.push((q, *k));
            }
        }
    }
    out
}

fn hostile(r: &mut Rng, width: usize) -> usize {
    match r.below(9) {
        0 => width,
        1 => width + 1,
        2 => usize::MAX,
        3 => usize::MAX - 1,
        4 => 1 << 32,
        5 => 256 + r.below(width + 1),
        6 => 65_536 + r.below(width + 1),
        7 => (1 << 63) + r.below(width + 1),
        _ => r.below(width + 3),
    }
}

/// paths to ask for: every (or many) real ones, and paths leaving the tree at every kind of place
fn queries(m: &Model, r: &mut Rng, limit: usize) -> Vec<Vec<usize>> {
    let mut q: Vec<Vec<usize>> = vec![];
    let nodes: Vec<usize> = if m.len() <= limit { (0..m.len()).collect() } else { (0..limit).map(|_| r.below(m.len())).chain([0, m.len() - 1]).collect() };
    for i in nodes {
        let p = m.nodes[i].path.clone();
        let w = m.nodes[i].slots.len();
        q.push(p.clone());
        // one step off the node
        for s in [w, w + 1, hostile(r, w)] {
            let mut x = p.clone();
            x.push(s);
            q.push(x);
        }
        if m.binary {
            for s in 0..2 {
                if m.nodes[i].slots[s].is_none() {
                    let mut x = p.clone();
                    x.push(s);
                    q.push(x.clone());
                    // and further on from there
                    x.push(r.below(2));
                    q.push(x);
                }
            }
        } else if m.is_leaf(i) {
            let mut x = p.clone();
            x.extend([0, 0]);
            q.push(x);
        }
        // leave the tree half-way and go on as if nothing had happened
        if !p.is_empty() {
            let mut x = p.clone();
            let at = r.below(x.len());
            x[at] = hostile(r, 2);
            q.push(x);
        }
    }
    for _ in 0..4 {
        q.push((0..r.below(7)).map(|_| r.below(4)).collect());
    }
    q.push(vec![usize::MAX; 3]);
    q.sort();
    q.dedup();
    q
}

/// the outcome of one query: the dump of the subtree found, after it was checked for identity
pub type Found = Option<Vec<(Vec<usize>, u64)>>;

macro_rules! one_tree {
    ($t:ty, $m:expr, $own:expr, $path:expr, $find:expr) => {{
        let mut n = <$t as Build>::build($m);
        match $own {
            Own::Owned => {
                let f = n.at_path($path);
                let d = f.as_ref().map(|f| f.dump());
                // everything that was not handed out is gone, once
                let kept = d.as_ref().map_or(0, |d| d.len() as u64);
                let (c, _, live, faults) = audit();
                if live != kept || !faults.is_empty() {
                    return Err(format!("{c} values created, {kept} handed out, {live} still live; {faults:?}"));
                }
                d
            }
            Own::Mut => {
                let whole = n.dump();
                let f = n.at_path_mut($path);
                let d = f.as_ref().map(|f| f.dump());
                let addr = f.map(|f| f as *const $t as usize);
                let want = $find(&n, $path).map(|f: &$t| f as *const $t as usize);
                if addr != want {
                    return Err("at_path_mut returned a different node (address)".into());
                }
                if n.dump() != whole {
                    return Err("at_path_mut changed the tree".into());
                }
                d
            }
            Own::Ref => {
                let whole = n.dump();
                let f = n.at_path_ref($path);
                let addr = f.map(|f| f as *const $t as usize);
                let want = $find(&n, $path).map(|f: &$t| f as *const $t as usize);
                if addr != want {
                    return Err("at_path_ref returned a different node (address)".into());
                }
                let d = f.map(|f| f.dump());
                if n.dump() != whole {
                    return Err("at_path_ref changed the tree".into());
                }
                d
            }
        }
    }};
}
fn find_tree<'a>(n: &'a Tree<Tok>, p: &[usize]) -> Option<&'a Tree<Tok>> {
    p.iter().try_fold(n, |n, s| n.children.get(*s))
}
fn find_list<'a>(n: &'a ListNode, p: &[usize]) -> Option<&'a ListNode> {
    p.iter().try_fold(n, |n, s| if *s < n.kids.len() { n.kids.iter().nth(*s) } else { None })
}
fn find_vecref<'a>(n: &'a VecRefNode, p: &[usize]) -> Option<&'a VecRefNode> {
    p.iter().try_fold(n, |n, s| n.kids.get(*s))
}
fn find_spy<'a>(n: &'a SpyNode, p: &[usize]) -> Option<&'a SpyNode> {
    p.iter().try_fold(n, |n, s| n.kids.get(*s))
}
fn find_bin<'a>(n: &'a BinaryTree<Tok>, p: &[usize]) -> Option<&'a BinaryTree<Tok>> {
    p.iter().try_fold(n, |n, s| match s {
        0 => n.left.as_deref(),
        1 => n.right.as_deref(),
        _ => None,
    })
}
fn find_spybin<'a>(n: &'a SpyBin, p: &[usize]) -> Option<&'a SpyBin> {
    p.iter().try_fold(n, |n, s| n.kids.get(*s).and_then(|k| k.as_deref()))
}

pub fn query(m: &Model, fam: Fam, own: Own, path: &[usize]) -> Result<Found, String> {
    Ok(match fam {
        "Tree" => one_tree!(Tree<Tok>, m, own, path, find_tree),
        "ListNode" => one_tree!(ListNode, m, own, path, find_list),
        "VecRefNode" => one_tree!(VecRefNode, m, own, path, find_vecref),
        "SpyNode" => one_tree!(SpyNode, m, own, path, find_spy),
        "BinaryTree" => one_tree!(BinaryTree<Tok>, m, own, path, find_bin),
        _ => one_tree!(SpyBin, m, own, path, find_spybin),
    })
}

#[allow(unused_assignments)]
fn query_list(ms: &[Model], fam: Fam, own: Own, coll: Coll, path: &[usize]) -> Found {
    macro_rules! gen {
        ($t:ty, $with_ref:ident, $o:ident, $mu:ident, $re:ident) => {{
            let mut v: Vec<$t> = build_all(ms);
            fn own_<C: $o<$t>>(c: C, p: &[usize]) -> Found {
                c.at_path(p).map(|n| n.dump())
            }
            fn mut_<'a, C: $mu<'a, $t>>(c: C, p: &[usize]) -> Found {
                c.at_path_mut(p).map(|n| n.dump())
            }
            fn ref_<'a, C: $re<'a, $t>>(c: C, p: &[usize]) -> Found {
                c.at_path_ref(p).map(|n| n.dump())
            }
            match own {
                Own::Owned => with_owned_coll!(v, coll, c => own_(c, path)),
                Own::Mut => with_mut_coll!(v, coll, c => mut_(c, path)),
                Own::Ref => $with_ref!(v, coll, c => ref_(c, path)),
            }
        }};
    }
    macro_rules! g {
        ($t:ty) => {
            gen!($t, with_ref_gen_coll, OwnedIntoIteratorOfTrees, MutBorrowedIntoIteratorOfTrees, BorrowedIntoIteratorOfTrees)
        };
    }
    macro_rules! b {
        ($t:ty) => {
            gen!($t, with_ref_bin_coll, OwnedIntoIteratorOfBinaryTrees, MutBorrowedIntoIteratorOfBinaryTrees, BorrowedIntoIteratorOfBinaryTrees)
        };
    }
    match fam {
        "Tree" => g!(Tree<Tok>),
        "ListNode" => g!(ListNode),
        "VecRefNode" => g!(VecRefNode),
        "SpyNode" => g!(SpyNode),
        "BinaryTree" => b!(BinaryTree<Tok>),
        _ => b!(SpyBin),
    }
}

fn judge(got: &Found, want: &Found) -> R {
    if got == want {
        return Ok(());
    }
    let brief = |f: &Found| f.as_ref().map(|d| format!("node {} with {} nodes below it", d[0].1, d.len() - 1)).unwrap_or("None".into());
    Err(format!("found {}, expected {}", brief(got), brief(want)))
}

impl Paths {
    pub fn with(src: Src, lists: Lists) -> Paths {
        Paths { src, lists }
    }
    pub fn new(quick: bool) -> Paths {
        match quick {
            true => Paths { src: Src::new(6, 6, 4_000, 24), lists: Lists::new(3, 2, 3, 3_000, 10) },
            false => Paths { src: Src::new(8, 8, 60_000, 60), lists: Lists::new(3, 3, 3, 40_000, 20) },
        }
    }
}
impl Prop for Paths {
    fn cases(&self) -> u64 {
        self.src.cases() + self.lists.cases()
    }
    fn rule(&self) -> String {
        format!("trees: {}; collections: {}; each queried with the paths of its nodes and with paths leaving the tree (index = width, width+1, 255+, 2^16+, 2^32+, 2^63+, usize::MAX, empty binary slots, below leaves, wrong turns half-way), on every node family, owned/mut/ref, results compared by address and by whole subtree; non-trivial: a non-empty path", self.src.text(), self.lists.text())
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        if i < self.src.cases() {
            let (m, mut r) = self.src.get("P08", seed, i);
            cx.peak("largest_tree", m.len() as u64);
            let sk = m.shape_key();
            let (limit, sample) = if m.len() > 1000 { (4, 12) } else if m.len() > 12 { (8, 40) } else { (12, usize::MAX) };
            for p in queries(&m, &mut r, limit).into_iter().take(sample) {
                let want = m.at_path(&p).map(|x| sub_dump(&m, x));
                for (fi, fam) in fams(m.binary).iter().enumerate() {
                    if m.len() > 12 && (fi + p.len()) % fams(m.binary).len() != (i % 4) as usize % fams(m.binary).len() {
                        continue;
                    }
                    for own in OWNS {
                        cx.count(if want.is_some() { "paths_inside" } else { "paths_outside" }, 1);
                        cx.eval(
                            key(&[sk, fi as u64, own as u64, key(&p.iter().map(|x| *x as u64).collect::<Vec<_>>())]),
                            !p.is_empty(),
                            || format!("{fam} {own:?} at_path {p:?} on {}", m.show()),
                            || {
                                judge(&query(&m, fam, own, &p)?, &want)?;
                                Ok(1)
                            },
                        )?;
                    }
                }
            }
            return Ok(());
        }
        let (bin, ms, mut r) = self.lists.get("P08l", seed, i - self.src.cases());
        let mut qs: Vec<Vec<usize>> = vec![vec![], vec![0], vec![ms.len()], vec![ms.len(), 0], vec![usize::MAX], vec![usize::MAX, 0], vec![hostile(&mut r, ms.len())]];
        let pick: Vec<usize> = if ms.len() <= 3 { (0..ms.len()).collect() } else { vec![0, ms.len() - 1, r.below(ms.len()), r.below(ms.len())] };
        for t in pick {
            let lim = if ms.len() > 3 { 2 } else { 4 };
            for p in queries(&ms[t], &mut r, lim).into_iter().take(24) {
                qs.push([vec![t], p].concat());
            }
        }
        if ms.len() > 1000 {
            qs.truncate(20);
        }
        let lk = lists_key(&ms);
        for p in qs {
            let want = p.split_first().and_then(|(t, rest)| {
                let m = ms.get(*t)?;
                m.at_path(rest).map(|x| sub_dump(m, x))
            });
            let fam = *r.pick(fams(bin));
            for own in OWNS {
                let coll = *r.pick(colls(bin, own));
                cx.count(if want.is_some() { "collection_paths_inside" } else { "collection_paths_outside" }, 1);
                cx.eval(
                    key(&[lk, skey(fam), own as u64, coll as u64, key(&p.iter().map(|x| *x as u64).collect::<Vec<_>>())]),
                    !p.is_empty(),
                    || format!("{fam} {own:?} {coll:?} at_path {p:?} on {}", show(&ms)),
                    || {
                        judge(&query_list(&ms, fam, own, coll, &p), &want)?;
                        Ok(1)
                    },
                )?;
            }
        }
        Ok(())
    }
}
