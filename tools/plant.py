#!/usr/bin/env python3
"""plant.py SPEC.py [--nocheck] [--only ID,ID]: builds /verif/seeded/<id>/ from seed specs and confirms them (development tool).

A spec file defines SEEDS, a list of dicts: id, prop, edits [(file under tree_iterators_rs/src, old, new[, how many of the occurrences])], needs, breaks, demo (main.rs).
"""
import json, os, subprocess, sys
ROOT = "/verif/seeded"
SRC = "/repo/tree_iterators_rs/src/"
DEMO = r'''#!/bin/bash
# Run in the repository's root. Exit 0: the property holds on this input; nonzero: it does not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'find "$d" -depth -delete' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
tree_iterators_rs = { path = "$repo/tree_iterators_rs"@FEATURES@ }
streaming-iterator = { version = "0.1.9", features = ["alloc"] }
@DEPS@
EOF
cd "$d" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTFLAGS=-Awarnings
cargo build --offline -q || exit 2
timeout 120 "$d/target/debug/demo"
'''
PRE = "#![allow(unused_imports, dead_code)]\nuse streaming_iterator::{StreamingIterator, StreamingIteratorMut};\nuse tree_iterators_rs::prelude::*;\n"


def sh(cmd, cwd="/repo", timeout=1000):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    assert not sh("git status --porcelain")[1].strip(), "dirty /repo"
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(ROOT, s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/main.rs", "w").write("//! " + s["breaks"].replace("\n", " ") + "\n" + PRE + s["demo"])
        demo = DEMO.replace("@FEATURES@", s.get("features", "")).replace("@DEPS@", s.get("deps", ""))
        open(d + "/demo.sh", "w").write(demo)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        try:
            rc0, o0 = sh("bash %s/demo.sh" % d)
            for e in s["edits"]:
                f, old, new = e[:3]
                t = open(SRC + f).read()
                n = t.count(old)
                assert n >= 1 if len(e) > 3 else n == 1, (s["id"], f, n, old)
                open(SRC + f, "w").write(t.replace(old, new, e[3] if len(e) > 3 else 1))
            rc, diff = sh("git diff")
            open(d + "/patch.diff", "w").write(diff)
            rc, t = sh("bash /tmp/t.sh")
            tests = t.strip().split("\n")[-1]
            rc1, o1 = sh("bash %s/demo.sh" % d)
            res = ""
            if "--nocheck" not in sys.argv:
                for p in s.get("checks", [s["prop"]]):
                    rcc, oc = sh("./check %s quick" % p, cwd="/verif", timeout=1800)
                    v = [l for l in oc.split("\n") if l.startswith("VIOLATION") or "ERROR" in l]
                    res += " %s:%s %s" % (p, rcc, v[:1])
            print(s["id"], "| demo clean", rc0, "patched", rc1, "|", tests, "|", res, flush=True)
            if rc0 != 0:
                print(o0[-1500:])
            if rc1 in (0, 2):
                print(o1[-1500:])
            if "missing []" not in tests:
                print(t[-800:])
        except AssertionError as e:
            print("EDIT DOES NOT APPLY", e)
        finally:
            sh("git checkout -- .")


main()
