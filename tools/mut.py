#!/usr/bin/env python3
"""Development tool (no check uses it): runs the checks against small edits of the source in scratch copies.
mut.py [-t] [-v] [-k SUBSTR] FILE...   (corpus/*.txt by default)
A corpus file has blocks
  @@ name EXPECT          EXPECT: comma-separated properties that must alarm, or 'quiet', or 'any'
  #### src/file.rs
  old text
  ====
  new text
or, for a whole function (the K-th of that name),
  #### src/file.rs fn NAME#K
  new text
-t also runs the stable tests on each edit; -v prints the alarms."""
import json, os, re, subprocess, sys, threading, queue, glob, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = int(os.environ.get("N", "6"))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def parse(path):
    out = []
    for blk in ("\n" + open(path).read()).split("\n@@ ")[1:]:
        head, _, body = blk.partition("\n")
        name, exp = head.split()[:2]
        edits = []
        for e in ("\n" + body).split("\n#### ")[1:]:
            f, _, t = e.partition("\n")
            o, _, n = t.partition("\n====\n") if not t.startswith("====\n") else ("", 0, t[5:])
            edits.append((f.strip(), o, n.rstrip("\n")))
        out.append((os.path.basename(path)[:-4] + "/" + name, exp, edits))
    return out


def setup(k):
    w = os.environ.get("MUT_DIR", "/tmp/mut") + "%d" % k
    if not os.path.exists(w):
        shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns("target"))
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target -e Cargo.lock", cwd=w)
    if not os.path.exists(w + ".build"):
        shutil.copytree(os.path.join(HERE, ".build"), w + ".build", symlinks=True)
    return w


def edit(w, f, o, n):
    f, _, fn = f.partition(" fn ")
    p = os.path.join(w, f)
    t = open(p).read()
    if fn:
        fn, _, k = fn.partition("#")
        ms = list(re.finditer(r"(?m)^[ \t]*(?:pub(?:\([a-z]+\))? )?(?:unsafe )?fn %s\b" % re.escape(fn), t))
        if not ms:
            return "NO FUNCTION %s in %s" % (fn, f)
        a = ms[int(k or 1) - 1].start()
        b = t.index("{", a)
        ind = re.match(r"[ \t]*", t[a:]).group()
        e = re.compile(r"(?m)^%s\}" % ind).search(t, a)
        if e is None:
            return "NO END of %s" % fn
        open(p, "w").write(t[:a] + (o or n) + t[e.end():])
        return ""
    if t.count(o) != 1:
        # comment lines and blank lines may lie between the lines
        ls = [re.escape(x.strip()) for x in o.split("\n") if x.strip() and not x.strip().startswith("//")]
        ms = re.findall(r"[ \t]*" + r"[ \t]*(?://[^\n]*)?\n(?:[ \t]*(?://[^\n]*)?\n)*[ \t]*".join(ls), t)
        if len(ms) == 1 and t.count(ms[0]) == 1:
            o = ms[0]
    if t.count(o) != 1:
        return "TEXT FOUND %d TIMES in %s: %s" % (t.count(o), f, o[:80])
    open(p, "w").write(t.replace(o, n))
    return ""


def main():
    a = sys.argv[1:]
    test, verb = "-t" in a, "-v" in a
    key = a[a.index("-k") + 1] if "-k" in a else ""
    ids = a[a.index("-i") + 1].split(",") if "-i" in a else ["all"]
    skip = {key, ",".join(ids)}
    files = [x for x in a if not x.startswith("-") and x not in skip] or sorted(glob.glob(HERE + "/corpus/*.txt"))
    q, lock, stat = queue.Queue(), threading.Lock(), {"ok": 0, "bad": 0}
    for f in files:
        for m in parse(f):
            if key in m[0]:
                q.put(m)

    def work(k):
        w = setup(k)
        env = dict(os.environ, VERIF_REPO=w, VERIF_BUILD=w + ".build", VERIF_EVIDENCE=w + ".evidence")
        while True:
            try:
                name, exp, edits = q.get_nowait()
            except queue.Empty:
                return
            sh("git checkout -q -f . && git clean -fdq -e target -e Cargo.lock", cwd=w)
            msg = ""
            for f, o, n in edits:
                msg = edit(w, f, o, n)
                if msg:
                    break
            v, o, und = [], "", []
            env["VERIF_UNKNOWN"] = w + ".unk"
            open(w + ".unk", "w").close()
            if not msg:
                r = sh([sys.executable, HERE + "/check.py"] + ids, cwd=HERE, env=env)
                o = r.stdout
                v = [l.split()[1].split("=")[1] for l in o.splitlines() if l.startswith("VIOLATION")]
                und = [l.strip() for l in o.splitlines() if "UNDECIDED" in l]
                unk = sorted(set(open(w + ".unk").read().split("\n")) - {""})
                unk = [x for x in unk if not x.startswith(("std::env::current_dir", "petgraph::", "std::fmt::Formatter", "shell_words::split", "std::io::_print", "rust_decimal::prelude", "std::rt::panic_fmt", "std::env::args", "ledger_rs_lib::run", "<rust_decimal::Decimal as rust_decimal::prelude"))]
                if unk:
                    with lock:
                        print("   unknown calls in", name, unk)
                if r.returncode not in (0, 1):
                    msg = "NO ANSWER: " + o[-600:]
            if test and not msg:
                e2 = dict(os.environ, RUSTUP_TOOLCHAIN="1.85.1", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=w + "/target", RUSTFLAGS="-A warnings -A invalid_reference_casting")
                st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                r = sh("cargo nextest run --workspace --offline --no-fail-fast --test-threads 4", cwd=w, env=e2)
                names = {l.split()[-1] for l in r.stdout.splitlines() if l.strip().startswith("FAIL") or "SIGABRT" in l or "SIGSEGV" in l}
                fails = sorted(n for n in names if any(s.endswith(n) for s in st))
                if "error: could not compile" in r.stdout:
                    msg = "TESTS DO NOT BUILD"
                elif fails:
                    msg = "tests: " + ",".join(fails)[:200]
            exps = exp.split(",")
            good = (not v) if exp == "quiet" else bool(v) if exp == "any" else any(x in v for x in exps)
            if msg.startswith(("TEXT", "NO ")):
                good = False
            with lock:
                stat["ok" if good else "bad"] += 1
                print("%s %-44s want=%s got=%s und=%d %s" % ("  " if good else "XX", name, exp, ",".join(v) or "-", len(und), msg), flush=True)
                if verb or (not good and exp == "quiet"):
                    print("\n".join("        " + l.strip()[:500] for l in o.splitlines() if l.startswith("  ")), flush=True)
        
    ts = [threading.Thread(target=work, args=(k,)) for k in range(min(N, max(1, q.qsize())))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(stat)


if __name__ == "__main__":
    main()
