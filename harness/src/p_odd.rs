//! P16: values whose types are unusual for a container: zero-sized with a destructor, or large and
//! strictly aligned.
use crate::engine::*;
use crate::model::*;
use crate::rng::Rng;
use crate::tok::*;
use crate::traverse::*;
use std::cell::Cell;
use tree_iterators_rs::prelude::*;

thread_local!(static ZST: Cell<(u64, u64)> = const { Cell::new((0, 0)) });

/// zero-sized; what is created and dropped is counted
pub struct Zst(());
impl Zst {
    fn new() -> Zst {
        ZST.with(|z| z.set((z.get().0 + 1, z.get().1)));
        Zst(())
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZST.with(|z| z.set((z.get().0, z.get().1 + 1)));
    }
}
impl Ident for Zst {
    fn id(&self) -> u64 {
        0
    }
}

#[repr(align(64))]
pub struct Big {
    tok: Tok,
    pad: [u64; 24],
}
impl Ident for Big {
    fn id(&self) -> u64 {
        let id = self.tok.id();
        if (self as *const Big as usize) % 64 != 0 || self.pad.iter().any(|p| *p != id ^ 77) {
            fault(format!("the value of node {id} is misplaced or damaged"));
        }
        id
    }
}

pub trait Odd: Ident {
    fn make(id: u64) -> Self;
    fn shown(id: u64) -> u64;
    fn live() -> u64;
}
impl Odd for Zst {
    fn make(_: u64) -> Zst {
        Zst::new()
    }
    fn shown(_: u64) -> u64 {
        0
    }
    fn live() -> u64 {
        let (c, d) = ZST.with(|z| z.get());
        c.wrapping_sub(d)
    }
}
impl Odd for Big {
    fn make(id: u64) -> Big {
        Big { tok: Tok::new(id), pad: [id ^ 77; 24] }
    }
    fn shown(id: u64) -> u64 {
        id
    }
    fn live() -> u64 {
        live()
    }
}

fn gen<V: Odd>(m: &Model) -> Tree<V> {
    let mut done: Vec<Option<Tree<V>>> = (0..m.len()).map(|_| None).collect();
    for i in m.preorder().into_iter().rev() {
        let children = m.kids(i).into_iter().map(|k| done[k].take().unwrap()).collect();
        done[i] = Some(Tree { value: V::make(m.nodes[i].id), children });
    }
    done[0].take().unwrap()
}
fn bin<V: Odd>(m: &Model) -> BinaryTree<V> {
    let mut done: Vec<Option<Box<BinaryTree<V>>>> = (0..m.len()).map(|_| None).collect();
    for i in m.preorder().into_iter().rev() {
        let [left, right] = [0, 1].map(|s| m.nodes[i].slots[s].and_then(|k| done[k].take()));
        done[i] = Some(Box::new(BinaryTree { value: V::make(m.nodes[i].id), left, right }));
    }
    *done[0].take().unwrap()
}

fn nothing_left<V: Odd>(what: &str) -> R {
    let (_, _, _, faults) = audit();
    if !faults.is_empty() {
        return Err(format!("{what}: {faults:?}"));
    }
    match V::live() {
        0 => Ok(()),
        n => Err(format!("{what}: {} values never dropped (or dropped twice, if negative)", n as i64)),
    }
}

fn one<V: Odd + 'static>(m: &Model, own: Own, ord: Order, mode: Mode, stop: usize) -> Result<u64, String> {
    let cap = m.len() * 2 + 8;
    let zst = V::shown(1) == 0;
    macro_rules! go {
        ($build:expr, $o:ident, $m:ident, $r:ident) => {{
            let mut n = $build;
            match own {
                Own::Owned => $o(n, ord, mode, stop, cap),
                Own::Mut => $m(&mut n, ord, mode, stop, cap),
                Own::Ref => $r(&n, ord, mode, stop, cap),
            }
        }};
    }
    let o = if m.binary {
        go!(bin::<V>(m), owned_binary, mut_binary, ref_binary)
    } else {
        go!(gen::<V>(m), owned_generic, mut_generic, ref_generic)
    };
    let (mut pre, mut evs) = expect(m, own, ord, mode);
    if zst {
        pre.iter_mut().for_each(|p| *p = 0);
        for e in &mut evs {
            e.id = 0;
            e.anc.iter_mut().flatten().for_each(|a| *a = 0);
            e.kids.iter_mut().flatten().flatten().flatten().for_each(|a| *a = 0);
        }
    }
    if let Some(d) = diff(m, &o, &(pre, evs), stop) {
        return Err(d);
    }
    nothing_left::<V>("after the traversal")?;
    Ok(o.evs.len() as u64 + 1)
}

fn ops<V: Odd + 'static>(m: &Model, r: &mut Rng) -> Result<u64, String> {
    let n = m.len() as u64;
    let keep = r.range(0, m.len());
    let d = r.range(0, m.height() + 1);
    let at_depth = (0..m.len()).filter(|i| m.depth(*i) <= d).count() as u64;
    macro_rules! go {
        ($b:ident, $sum:expr, $dfs:ident) => {{
            let mut id = 0;
            let mapped = $b::<V>(m).map(|v| {
                drop(v);
                id += 1;
                V::make(id)
            });
            if V::live() != n || id != n {
                return Err(format!("map called {id} times, {} values live, for {n} nodes", V::live()));
            }
            let total = mapped.fold($sum);
            if total != n {
                return Err(format!("fold counted {total} of {n} nodes"));
            }
            nothing_left::<V>("after fold")?;
            let cut = $b::<V>(m).prune_depth(d);
            if V::live() != at_depth {
                return Err(format!("prune_depth({d}) left {} values, expected {at_depth}", V::live()));
            }
            drop(cut);
            nothing_left::<V>("after prune_depth")?;
            let mut asked = 0;
            let kept = $b::<V>(m).prune(|_| {
                asked += 1;
                asked > keep + 1
            });
            if V::live() > keep as u64 + 1 || kept.is_none() {
                return Err(format!("prune kept {} values", V::live()));
            }
            drop(kept);
            nothing_left::<V>("after prune")?;
            let mut it = $b::<V>(m).into_pipeline();
            let mut held = vec![];
            for _ in 0..keep {
                held.extend(it.next());
            }
            drop(it);
            if V::live() != held.len() as u64 || held.len() != keep {
                return Err(format!("{} values live while {} are held, {keep} wanted", V::live(), held.len()));
            }
            drop(held);
            nothing_left::<V>("after a partial pipeline")?;
        }};
    }
    if m.binary {
        go!(bin, |c: [Option<u64>; 2], _| c.into_iter().flatten().sum::<u64>() + 1, dfs_preorder)
    } else {
        go!(gen, |c: Vec<u64>, _| c.into_iter().sum::<u64>() + 1, dfs_preorder)
    }
    Ok(n)
}

pub fn odd(m: &Model, r: &mut Rng, cx: &mut Ctx) -> R {
    let n = m.len();
    let sk = m.shape_key();
    for big in [false, true] {
        let name = if big { "64-byte aligned" } else { "zero-sized" };
        for &ord in orders(m.binary) {
            for own in OWNS {
                let k = r.range(0, n);
                for mode in [Mode::Plain, Mode::Leaves(k), Mode::Anc, Mode::AncLeaves(k), Mode::Ctx] {
                    let stop = if r.chance(1, 3) { usize::MAX } else { r.range(0, n) };
                    cx.eval(
                        key(&[sk, big as u64, ord as u64, own as u64, skey(&format!("{mode:?}")), stop.min(n + 1) as u64, 77]),
                        n > 1,
                        || format!("{name} values, {own:?} {ord:?} {mode:?} stop={stop} on {}", m.show()),
                        || {
                            ZST.with(|z| z.set((0, 0)));
                            if big {
                                one::<Big>(m, own, ord, mode, stop)
                            } else {
                                one::<Zst>(m, own, ord, mode, stop)
                            }
                        },
                    )?;
                }
            }
        }
        let mut rr = Rng::new(r.next(), "odd", 0);
        cx.eval(
            key(&[sk, big as u64, 78, rr.next()]),
            n > 1,
            || format!("{name} values, map/fold/prune/pipeline on {}", m.show()),
            || {
                ZST.with(|z| z.set((0, 0)));
                if big {
                    ops::<Big>(m, &mut rr)
                } else {
                    ops::<Zst>(m, &mut rr)
                }
            },
        )?;
    }
    Ok(())
}
