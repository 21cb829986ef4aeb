//! P01..P06: traversals, ancestors, contexts and leaves against the reference model; P18: panics.
use crate::engine::*;
use crate::model::*;
use crate::nodes::*;
use crate::rng::Rng;
use crate::tok::*;
use crate::traverse::*;
use tree_iterators_rs::prelude::*;

pub struct Trav {
    prop: String,
    quick: bool,
    src: Src,
}
impl Trav {
    pub fn new(prop: &str, quick: bool) -> Trav {
        let (g, b, r, max) = match (prop, quick) {
            ("P05" | "P06", true) => (7, 7, 30_000, 30),
            ("P05" | "P06", false) => (9, 9, 80_000, 40),
            ("P18", true) => (6, 6, 5_000, 24),
            ("P18", false) => (8, 8, 40_000, 40),
            ("P01", true) => (8, 8, 30_000, 40),
            (_, true) => (8, 8, 70_000, 40),
            (_, false) => (10, 10, 400_000, 60),
        };
        let mut src = Src::new(g, b, r, max);
        src.large = prop != "P18";
        Trav { prop: prop.to_string(), quick, src }
    }
    pub fn with(prop: &str, src: Src) -> Trav {
        Trav { prop: prop.to_string(), quick: true, src }
    }
    fn points(&self, n: usize, r: &mut Rng) -> Vec<usize> {
        if n <= 8 || (!self.quick && n <= 14) {
            return (0..=n + 2).collect();
        }
        let mut v = vec![0, 1, 2, n - 1, n, n + 1, n + 2];
        for _ in 0..6 {
            v.push(r.range(1, n));
        }
        v.sort();
        v.dedup();
        v
    }
    fn modes(&self, m: &Model, r: &mut Rng) -> Vec<(Mode, usize)> {
        let n = m.len();
        let all = usize::MAX;
        let mut v = vec![];
        match self.prop.as_str() {
            "P01" => {
                v.push((Mode::Plain, all));
                v.push((Mode::Plain, r.range(0, n)));
                v.push((Mode::Adapt(Adapt::ForEach), all));
                v.push((Mode::Adapt(Adapt::Nth(r.range(0, 3))), all));
                v.push((Mode::Adapt([Adapt::Last, Adapt::Count, Adapt::Collect][r.below(3)]), all));
            }
            "P02" => {
                v.push((Mode::Anc, all));
                v.push((Mode::Anc, r.range(0, n)));
            }
            "P03" => {
                v.push((Mode::Ctx, all));
                v.push((Mode::Ctx, r.range(0, n)));
            }
            "P04" => {
                v.push((Mode::Leaves(0), all));
                v.push((Mode::Leaves(0), r.range(0, n)));
            }
            "P05" => v.extend(self.points(n, r).into_iter().map(|k| (Mode::Leaves(k), all))),
            "P06" => v.extend(self.points(n, r).into_iter().map(|k| (Mode::AncLeaves(k), all))),
            _ => unreachable!(),
        }
        v
    }
}

pub fn mode_key(mode: Mode) -> u64 {
    skey(&format!("{mode:?}"))
}

impl Prop for Trav {
    fn cases(&self) -> u64 {
        self.src.cases()
    }
    fn rule(&self) -> String {
        let what = match self.prop.as_str() {
            "P01" => "plain iteration to the end and beyond, to a random stop, and through for_each/nth/last/count/collect, size_hint checked at every step; non-trivial: at least 2 nodes",
            "P02" => "attach_ancestors to the end and to a random stop; non-trivial: at least 2 nodes",
            "P03" => "attach_context to the end and to a random stop, every reported path resolved with at_path; non-trivial: at least 2 nodes",
            "P04" => "leaves() on a fresh traversal, to the end and beyond; non-trivial: at least 2 nodes",
            "P05" => "leaves() after k elements (every k on small trees, sampled on large ones); non-trivial: 0 < k < nodes",
            "P06" => "attach_ancestors, k steps, leaves() (every k on small trees, sampled on large ones); non-trivial: at least 2 nodes and k < nodes",
            "P18" => "attach_ancestors/attach_context after k elements, with the conversion's panic observed, plus every mode run to the end watching for panics; non-trivial: at least 2 nodes",
            _ => unreachable!(),
        };
        let what = match self.prop.as_str() {
            "P18" => what.to_string(),
            _ => format!("{what}; plus one traversal per tree, family, ownership and order continued from a random point through for_each/fold/nth/count/find/last/collect"),
        };
        format!("{}; each tree in every node family ({} generic, {} binary), owned/borrowed/mutably borrowed, in every order: {what}", self.src.text(), GEN_FAMS.len(), BIN_FAMS.len())
    }
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R {
        let (m, mut r) = self.src.get(&self.prop, seed, i);
        cx.peak("largest_tree", m.len() as u64);
        cx.peak("deepest_tree", m.height() as u64);
        let sk = m.shape_key();
        if self.prop == "P18" {
            return self.case18(&m, &mut r, cx);
        }
        for (fi, fam) in fams(m.binary).iter().enumerate() {
            // large trees: rotate through the families instead of running all of them
            if m.len() > 1200 && fi as u64 != i % fams(m.binary).len() as u64 || m.len() > 60 && !self.src.is_special(i) && fi as u64 != i % fams(m.binary).len() as u64 {
                continue;
            }
            for own in OWNS {
                for &ord in orders(m.binary) {
                    // iterative deepening is quadratic in the height
                    let modes = self.modes(&m, &mut r);
                    // the rest of a partly consumed traversal through another entry point of its trait
                    let (mode, _) = *r.pick(&modes);
                    if !matches!(mode, Mode::Adapt(_)) {
                        let (stop, a) = (r.range(0, m.len().min(40) + 1), Adapt::any(&mut r));
                        let kk = key(&[sk, fi as u64, own as u64, ord as u64, mode_key(mode), stop as u64, skey(&format!("{a:?}"))]);
                        cx.eval(
                            kk,
                            m.len() > 1 && stop < m.len(),
                            || format!("{fam} {own:?} {ord:?} {mode:?}, {a:?} after {stop} on {}", m.show()),
                            || {
                                let o = and_then(a, || run(&m, fam, own, ord, mode, stop, false));
                                match diff_then(&m, &o, expect(&m, own, ord, mode), stop, a) {
                                    None => Ok((o.prefix.len() + o.evs.len()) as u64 + 1),
                                    Some(d) => Err(d),
                                }
                            },
                        )?;
                    }
                    for (mode, stop) in modes {
                        let k = match mode {
                            Mode::Leaves(k) | Mode::AncLeaves(k) => k,
                            _ => 0,
                        };
                        let nontrivial = m.len() > 1 && k < m.len() && (self.prop != "P05" || k > 0);
                        let kk = key(&[sk, fi as u64, own as u64, ord as u64, mode_key(mode), stop.min(m.len() + 1) as u64]);
                        cx.eval(
                            kk,
                            nontrivial,
                            || format!("{fam} {own:?} {ord:?} {mode:?} stop={stop} on {}", m.show()),
                            || {
                                let o = run(&m, fam, own, ord, mode, stop, false);
                                if let Some(d) = diff(&m, &o, &expect(&m, own, ord, mode), stop) {
                                    return Err(d);
                                }
                                if self.prop == "P03" && own == Own::Ref {
                                    resolve(&m, fam, &o)?;
                                }
                                Ok((o.prefix.len() + o.evs.len()) as u64 + 1)
                            },
                        )?;
                    }
                }
            }
        }
        Ok(())
    }
}

fn resolve(m: &Model, fam: &str, o: &Obs) -> R {
    match fam {
        "Tree" => {
            let t = Tree::<Tok>::build(m);
            for e in &o.evs {
                let got = t.at_path_ref(e.path.as_ref().unwrap()).map(|n| n.nid());
                if got != Some(e.id) {
                    return Err(format!("path {:?} of node {} leads to {got:?}", e.path, e.id));
                }
            }
        }
        "BinaryTree" => {
            let t = BinaryTree::<Tok>::build(m);
            for e in &o.evs {
                let got = t.at_path_ref(e.path.as_ref().unwrap()).map(|n| n.nid());
                if got != Some(e.id) {
                    return Err(format!("path {:?} of node {} leads to {got:?}", e.path, e.id));
                }
            }
        }
        _ => {}
    }
    Ok(())
}

impl Trav {
    fn case18(&self, m: &Model, r: &mut Rng, cx: &mut Ctx) -> R {
        let n = m.len();
        let sk = m.shape_key();
        for (fi, fam) in fams(m.binary).iter().enumerate() {
            // very deep ones: the families in turn
            if n * m.height() as usize > 1_000_000 && fi != n % fams(m.binary).len() {
                continue;
            }
            for own in OWNS {
                for &ord in orders(m.binary) {
                    let mut ks = self.points(n, r);
                    ks.truncate(if n * m.height() as usize > 1_000_000 { 5 } else { 24 });
                    for k in ks {
                        for mode in [Mode::LateCtx(k), Mode::LateAnc(k)] {
                            let kk = key(&[sk, fi as u64, own as u64, ord as u64, mode_key(mode)]);
                            cx.eval(
                                kk,
                                n > 1,
                                || format!("{fam} {own:?} {ord:?} {mode:?} on {}", m.show()),
                                || {
                                    let got = guarded(|| run(m, fam, own, ord, mode, usize::MAX, false));
                                    match (k > 0, got) {
                                        (true, Err(_)) => Ok(k.min(n) as u64 + 1),
                                        (true, Ok(o)) => Err(format!(
                                            "no panic although {} elements had been yielded; {} elements followed",
                                            o.prefix.len(),
                                            o.evs.len()
                                        )),
                                        (false, Err(p)) => Err(format!("panicked on a fresh traversal: {p}")),
                                        (false, Ok(o)) => Ok(o.evs.len() as u64 + 1),
                                    }
                                },
                            )?;
                        }
                    }
                    // nothing else panics
                    for mode in [Mode::Plain, Mode::Leaves(r.range(0, n + 1)), Mode::AncLeaves(r.range(0, n + 1)), Mode::Anc, Mode::Ctx] {
                        let kk = key(&[sk, fi as u64, own as u64, ord as u64, mode_key(mode), 1]);
                        cx.eval(
                            kk,
                            n > 1,
                            || format!("{fam} {own:?} {ord:?} {mode:?} on {}", m.show()),
                            || Ok(run(m, fam, own, ord, mode, usize::MAX, false).evs.len() as u64 + 1),
                        )?;
                    }
                }
            }
        }
        Ok(())
    }
}
