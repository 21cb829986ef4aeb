//! tree_monitor: runtime monitors for tree_iterators_rs. See /verif/DESIGN.md.
//!   tree_monitor shard <prop> <tier> <seed> <shard> <of> <status file> <result file> <time box s>
//!   tree_monitor case  <prop> <tier> <seed> <case>
#![allow(dead_code)]
#![allow(clippy::all)]
mod engine;
mod lists;
mod model;
mod nodes;
mod rng;
#[cfg(not(miri))]
mod stale;
#[cfg(any(feature = "pipe", feature = "cpipe", feature = "own", feature = "ub", feature = "share", feature = "lazy"))]
mod stages;
mod tok;
mod traverse;

#[cfg(not(miri))]
#[global_allocator]
static ALLOCATOR: stale::Stale = stale::Stale;

#[cfg(any(feature = "coll", feature = "share"))]
mod p_coll;
#[cfg(feature = "cpipe")]
mod p_cpipe;
#[cfg(feature = "deep")]
mod p_deep;
#[cfg(feature = "lazy")]
mod p_lazy;
#[cfg(feature = "own")]
mod p_own;
#[cfg(feature = "own")]
mod p_odd;
#[cfg(feature = "mutn")]
mod p_mut;
#[cfg(feature = "path")]
mod p_path;
#[cfg(any(feature = "pipe", feature = "lazy"))]
mod p_pipe;
#[cfg(feature = "ser")]
mod p_serde;
#[cfg(feature = "share")]
mod p_share;
#[cfg(feature = "trav")]
mod p_trav;
#[cfg(feature = "ub")]
mod p_ub;

use engine::*;

fn make(prop: &str, tier: &str) -> Box<dyn Prop> {
    let quick = tier != "thorough";
    let _ = quick;
    match prop {
        #[cfg(feature = "trav")]
        "P01" | "P02" | "P03" | "P04" | "P05" | "P06" => Box::new(p_trav::Trav::new(prop, quick)),
        #[cfg(all(feature = "trav", feature = "coll"))]
        "P18" => Box::new(p_coll::Both(Box::new(p_trav::Trav::new(prop, quick)), Box::new(p_coll::Colls::new(prop, quick)))),
        #[cfg(feature = "coll")]
        "P07" => Box::new(p_coll::Colls::new(prop, quick)),
        #[cfg(feature = "path")]
        "P08" => Box::new(p_path::Paths::new(quick)),
        #[cfg(feature = "mutn")]
        "P09" => Box::new(p_mut::Writes::new(quick)),
        #[cfg(feature = "mutn")]
        "P10" => Box::new(p_mut::Edits::new(quick)),
        #[cfg(feature = "pipe")]
        "P11" | "P12" | "P13" | "P14" => Box::new(p_pipe::Pipes::new(prop, quick)),
        #[cfg(feature = "cpipe")]
        "P15" => Box::new(p_cpipe::CPipes::new(quick)),
        #[cfg(feature = "own")]
        "P16" => Box::new(p_own::Ownership::new(quick)),
        #[cfg(feature = "ub")]
        "P17" => p_ub::make(quick),
        #[cfg(feature = "lazy")]
        "P20" => Box::new(p_lazy::Lazy::new(quick)),
        #[cfg(feature = "ser")]
        "P21" => Box::new(p_serde::Faithful::new(quick)),
        #[cfg(feature = "share")]
        "P22" => Box::new(p_share::Shared::new(quick)),
        #[cfg(feature = "deep")]
        "P19" => Box::new(p_deep::Deep::new(quick)),
        _ => {
            eprintln!("property {prop} is not compiled in");
            std::process::exit(2)
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("shard") => {
            let (prop, tier) = (&a[2], &a[3]);
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let (seed, shard, of, timebox) = (n(4), n(5), n(6), n(9));
            let p = make(prop, tier);
            let status = std::fs::File::create(&a[7]).unwrap();
            let mut cx = Ctx { want_samples: 3, beat: Some(Beat::new(status)), ..Default::default() };
            let start = std::time::Instant::now();
            let (mut done, mut failure, mut truncated) = (0u64, None, false);
            for i in 0..p.cases() {
                // which shard runs a case must not correlate with what the case is
                if (i ^ 0x5eed).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) % of != shard {
                    continue;
                }
                if done > 0 && start.elapsed().as_secs() >= timebox {
                    truncated = true;
                    break;
                }
                cx.beat.as_mut().unwrap().start(i);
                if let Err(e) = p.case(seed, i, &mut cx) {
                    failure = Some((i, e));
                    break;
                }
                let ms = cx.beat.as_ref().unwrap().began.elapsed().as_millis() as u64;
                cx.peak("longest_case_ms", ms);
                done += 1;
            }
            let mut out = String::new();
            out.push_str(&format!(
                "{{\"cases\":{done},\"planned\":{},\"truncated\":{truncated},\"evals\":{},\"rule\":{},",
                p.cases(),
                cx.evals,
                esc(&p.rule())
            ));
            out.push_str("\"counters\":{");
            out.push_str(&cx.counters.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","));
            out.push_str("},\"samples\":[");
            out.push_str(&cx.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
            out.push_str("],\"failure\":");
            match failure {
                None => out.push_str("null"),
                Some((i, e)) => out.push_str(&format!("{{\"case\":{i},\"message\":{}}}", esc(&e))),
            }
            out.push('}');
            let keys: Vec<u8> = cx.keys.iter().flat_map(|k| k.to_le_bytes()).collect();
            std::fs::write(format!("{}.keys", a[8]), keys).unwrap();
            std::fs::write(&a[8], out).unwrap();
        }
        Some("merge") => {
            // number of distinct keys over all shards
            let mut v: Vec<[u8; 8]> = vec![];
            for f in &a[2..] {
                v.extend(std::fs::read(f).unwrap().chunks_exact(8).map(|c| <[u8; 8]>::try_from(c).unwrap()));
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
        }
        Some("case") => {
            let p = make(&a[2], &a[3]);
            let mut cx = Ctx { verbose: true, ..Default::default() };
            match p.case(a[4].parse().unwrap(), a[5].parse().unwrap(), &mut cx) {
                Ok(()) => println!("HELD evals={}", cx.evals),
                Err(e) => {
                    println!("FAILED {e}");
                    std::process::exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: see main.rs");
            std::process::exit(2)
        }
    }
}
