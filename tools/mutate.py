#!/usr/bin/env python3
"""Mutation campaign over tree_iterators_rs (development tool, no check uses it).

mutate.py OUT.jsonl [workers] [limit] [seed]
Works on copies under /tmp/mut. Keeps mutants that compile and pass the repository's tests, then runs the
native monitors on them until one reports; survivors of both are what to look at.
"""
import json, os, random, re, shutil, subprocess, sys, threading, time

OUT = sys.argv[1]
WORKERS = int(sys.argv[2]) if len(sys.argv) > 2 else 7
LIMIT = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
SEED = int(sys.argv[4]) if len(sys.argv) > 4 else 1
SRC = "/tmp/mut_base/tree_iterators_rs/src"
BASE = "/tmp/mut"

SWAPS = [
    (r"==", ["!="]), (r"!=", ["=="]), (r" > ", [" >= ", " < "]), (r" < ", [" <= "]), (r" >= ", [" > "]), (r" <= ", [" < "]),
    (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]), (r"\b3\b", ["2"]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"!(?=[a-z])", [""]),
    (r"\.is_none\(\)", [".is_some()"]), (r"\.is_some\(\)", [".is_none()"]),
    (r"push_back", ["push_front"]), (r"push_front", ["push_back"]), (r"pop_front", ["pop_back"]), (r"pop_back", ["pop_front"]),
    (r"\blast_mut\b", ["first_mut"]), (r"\blast\(\)", ["first()"]),
    (r"\[left, right\]", ["[right, left]"]), (r"\bcurrent = left\b", ["current = right"]),
    (r"usize::MAX", ["0"]), (r"wrapping_add\(1\)", ["wrapping_add(2)"]),
    (r"\bSome\(\w+\)$", ["None"]), (r"\.take\(\)", [""]), (r"\.clear\(\)", [".truncate(1)"]),
    (r"\bunwrap_or_default\(\)", ["unwrap()"]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]),
    (r"\.fuse\(\)", [""]), (r"\.enumerate\(\)", [".skip(0).enumerate()"]), (r"Vec::new\(\)", []),
    (r"\bis_empty\(\)", ["len() == 1"]), (r"self\.root\b", ["None"]), (r"self\.is_root\b", ["true", "false"]),
    (r"prune_path", ["prune"]), (r"\.nth\(", [".skip(0).nth("]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]),
    (r"\.len\(\)", [".len() + 1"]), (r"saturating_sub", ["wrapping_sub"]), (r"truncate\(", ["truncate(1 + "]),
]
STMT = re.compile(r"^\s+(?!let |return [a-zA-Z(]|use |pub |type |const |\}|\)|break [a-zA-Z'])[^{}]*;\s*$")


def mutants():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f in ("examples.rs", "lib.rs"):
                continue
            lines = open(p).read().split("\n")
            use = False
            for i, l in enumerate(lines):
                s = l.strip()
                if s.startswith("use ") or s.startswith("pub use ") or s.startswith("pub(crate) use"):
                    use = True
                if use:
                    if s.endswith(";"):
                        use = False
                    continue
                if not s or s.startswith("//") or s.startswith("#") or s.startswith("type ") or s.startswith("pub type"):
                    continue
                if "fn " in s and "(" in s and not s.startswith("let"):
                    continue
                if re.match(r"(impl|pub struct|where|macro_rules)", s):
                    continue
                # statement deletion (single line, balanced)
                if STMT.match(l) and all(l.count(a) == l.count(b) for a, b in ("()", "[]")):
                    out.append((os.path.relpath(p, SRC), i, l, re.match(r"\s*", l).group() + ";", "delete"))
                for pat, reps in SWAPS:
                    for m in re.finditer(pat, l):
                        for r in reps:
                            n = l[:m.start()] + r + l[m.end():]
                            out.append((os.path.relpath(p, SRC), i, l, n, "%s->%s" % (pat, r)))
    seen, uniq = set(), []
    for m in out:
        k = (m[0], m[1], m[3])
        if k not in seen:
            seen.add(k)
            uniq.append(m)
    return uniq


FEATS = {"trav": ["P01", "P02", "P03", "P04", "P05", "P06"], "coll": ["P07"], "trav,coll": ["P18"], "path": ["P08"], "mutn": ["P09", "P10"],
         "pipe": ["P11", "P12", "P13", "P14"], "cpipe": ["P15"], "lazy": ["P20"], "own,pipe,cpipe": ["P16"], "share": ["P22"], "deep": ["P19"]}


def order(f):
    if f.startswith("tree_iterators"):
        a = ["pipe"]
    elif f.startswith("tree_collection"):
        a = ["cpipe"]
    elif f.startswith("collection"):
        a = ["coll"]
    elif f.startswith("prelude"):
        a = ["path", "pipe", "cpipe", "coll"]
    else:
        a = ["trav", "coll", "mutn"]
    return a + [x for x in FEATS if x not in a]


def run(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return "timeout", ""


def worker(w, queue, lock, out):
    r, h, t = "%s/w%d" % (BASE, w), "%s/h%d" % (BASE, w), "%s/t%d" % (BASE, w)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never")
    henv = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=t)
    while True:
        with lock:
            if not queue:
                return
            f, i, old, new, op = queue.pop()
        p = os.path.join(r, "tree_iterators_rs/src", f)
        src = open(os.path.join(SRC, f)).read()
        lines = src.split("\n")
        assert lines[i] == old
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        rec = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        rc, o = run(["cargo", "check", "-p", "tree_iterators_rs", "--offline", "-q"], r, 200, env)
        if rc != 0:
            rec["r"] = "nocompile"
        else:
            rc, o = run(["bash", "-c", "ulimit -v 8000000; exec cargo test --workspace --all-features --offline -q -- --test-threads 2"], r, 120, env)
            if rc != 0:
                rec["r"] = "tests"
            else:
                rec["r"] = "SURVIVED"
                for feat in order(f):
                    rc, o = run(["cargo", "build", "--offline", "--quiet", "--features", feat], h, 400, henv)
                    if rc != 0:
                        rec["r"] = "harness does not build: " + o[-300:]
                        break
                    hit = None
                    for prop in FEATS[feat]:
                        st, rs = "%s/st%d" % (BASE, w), "%s/rs%d" % (BASE, w)
                        open(st, "w").close()
                        if os.path.exists(rs):
                            os.remove(rs)
                        rc, o = run(["bash", "-c", "ulimit -v 8000000; exec %s/debug/tree_monitor shard %s quick 1 %d 8 %s %s 15" % (t, prop, w % 8, st, rs)], h, 90)
                        if rc != 0 or not os.path.exists(rs):
                            hit = (prop, "died rc=%s %s" % (rc, o[-200:]))
                        else:
                            fl = json.load(open(rs))["failure"]
                            if fl:
                                hit = (prop, str(fl)[:200])
                        if hit:
                            break
                    if hit:
                        rec["r"], rec["by"], rec["how"] = "caught", hit[0], hit[1]
                        break
        open(p, "w").write(src)
        with lock:
            out.write(json.dumps(rec) + "\n")
            out.flush()


def main():
    if not os.path.exists("/tmp/mut_base"):
        subprocess.run(["git", "clone", "-q", "/repo", "/tmp/mut_base"], check=True)
    ms = mutants()
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    ms = [m for m in ms if (m[0], m[1] + 1, m[3].strip()) not in done]
    random.Random(SEED).shuffle(ms)
    ms = ms[:LIMIT]
    print(len(ms), "mutants", flush=True)
    if OUT == "/dev/stdout":
        return
    for w in range(WORKERS):
        for n, s in (("w", "/tmp/mut_base"), ("h", "/verif/harness")):
            d = "%s/%s%d" % (BASE, n, w)
            if os.path.exists(d):
                shutil.rmtree(d)
            subprocess.run(["cp", "-a", s, d], check=True)
        c = "%s/h%d/Cargo.toml" % (BASE, w)
        t = open(c).read().replace('"/repo/', '"%s/w%d/' % (BASE, w)).replace("opt-level = 1", "opt-level = 0")
        open(c, "w").write(t)
    lock = threading.Lock()
    with open(OUT, "a") as out:
        ts = [threading.Thread(target=worker, args=(w, ms, lock, out)) for w in range(WORKERS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


main()
