#!/usr/bin/env python3
"""Development tool (no check uses it): confirms planted bugs in a scratch copy and runs the checks there.
plant.py new ID PROPERTY FILE NEEDS BREAKS  (old/new text on stdin, separated by a line '====', blocks by '####' + file)
plant.py verify ID...     builds, stable tests, demo, own check
plant.py checks ID...     only runs all checks against the bug
plant.py refactor DIFF... runs all checks after a behaviour-preserving patch (they must stay quiet)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
W = os.environ.get("PLANT_DIR", "/tmp/plant")
ENV = dict(os.environ, VERIF_REPO=W, VERIF_BUILD=W + ".build", RUSTUP_TOOLCHAIN="1.85.1", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=W + "/target", RUSTFLAGS="-W invalid_reference_casting", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''#!/bin/bash
# Builds the small program beside this script against the library in the current directory and runs it.
export RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true RUSTFLAGS="-A warnings -A invalid_reference_casting"
unset CARGO_TARGET_DIR
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ledger-rs-lib = { path = "$PWD" }
chrono = "*"
[workspace]
EOF
cp "$PWD/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
export CARGO_TARGET_DIR="$w/target"
cd "$w" && cargo build -q --offline || exit 3
mkdir "$w/scratch" && cd "$w/scratch" && timeout 60 "$w/target/debug/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.exists(W):
        shutil.copytree("/repo", W, symlinks=True)
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target -e Cargo.lock", cwd=W)


def apply(patch):
    r = sh(["git", "apply", patch], cwd=W)
    if r.returncode:
        raise SystemExit("patch does not apply: " + r.stdout)


def tests():
    r = sh("cargo test --workspace --no-run --offline", cwd=W, env=ENV)
    if r.returncode:
        return "build fails:\n" + r.stdout[-3000:]
    r = sh("cargo nextest run --workspace --offline --no-fail-fast --test-threads 8", cwd=W, env=ENV)
    bad = [l for l in r.stdout.splitlines() if l.strip().startswith("FAIL") or "SIGABRT" in l or "SIGSEGV" in l]
    names = {l.split()[-1] for l in bad}
    bad = sorted(n for n in names if any(s.endswith("::" + n) or s.endswith(n) for s in STABLE))
    r2 = sh("cargo test --workspace --doc --offline", cwd=W, env=ENV)
    if r2.returncode:
        bad.append("doc tests")
    return "tests fail: %s" % bad if bad else ""


def demo(d):
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd=W, env=dict(ENV))
    return r.returncode, r.stdout[-1500:]


def checks(ids="all"):
    r = sh([sys.executable, os.path.join(HERE, "check.py")] + (ids if isinstance(ids, list) else [ids]), cwd=HERE, env={k: v for k, v in ENV.items() if k not in ("CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "RUSTFLAGS")})
    v = [l.split()[1].split("=")[1] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return v, r.stdout


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        i, prop, needs, breaks = args[:4]
        fresh()
        blocks, cur = {}, None
        for l in sys.stdin.read().split("\n"):
            if l.startswith("#### "):
                cur = blocks.setdefault(l[5:].strip(), [])
                cur.append([])
            elif cur is not None:
                cur[-1].append(l)
        for f, bs in blocks.items():
            p = os.path.join(W, f)
            t = open(p).read()
            for b in bs:
                k = b.index("====")
                o, n = "\n".join(b[:k]), "\n".join(b[k + 1:])
                n = n.rstrip("\n") if not o.endswith("\n") else n
                if t.count(o) != 1:
                    raise SystemExit("%s: text found %d times: %s" % (f, t.count(o), o))
                t = t.replace(o, n)
            open(p, "w").write(t)
        d = os.path.join(SEED, i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=W).stdout)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        if not os.path.exists(os.path.join(d, "demo.sh")):
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        cmd, args = "verify", [i]
    if cmd in ("verify", "checks"):
        for i in args or sorted(os.listdir(SEED)):
            d = os.path.join(SEED, i)
            meta = json.load(open(os.path.join(d, "meta.json")))
            msg = []
            fresh()
            if cmd == "verify":
                rc, o = demo(d)
                if rc:
                    msg.append("demo fails on the unchanged tree: " + o)
            apply(os.path.join(d, "patch.diff"))
            if cmd == "verify":
                m = tests()
                if m:
                    msg.append(m)
                rc, o = demo(d)
                if rc == 0 or rc == 3:
                    msg.append("demo exits %d with the patch %s" % (rc, o))
            v, o = checks()
            und = [l for l in o.splitlines() if "UNDECIDED" in l]
            print("%-34s %s own=%s all=%s und=%d %s" % (i, meta["property"], "CAUGHT" if meta["property"] in v else "missed", ",".join(v), len(und), " | ".join(msg) or "ok"), flush=True)
    elif cmd == "refactor":
        for p in args:
            fresh()
            apply(p)
            m = tests() if os.environ.get("FULL") else ""
            v, o = checks()
            und = [l.strip()[:200] for l in o.splitlines() if "UNDECIDED" in l]
            extra = "" if "C02:" in o else o[-800:]
            print("%-34s alarms=%s und=%d %s%s" % (os.path.basename(p), ",".join(v) or "none", len(und), m, extra), flush=True)
            if os.environ.get("SHOW"):
                print("\n".join(l[:600] for l in o.splitlines() if l.startswith("  ")))
    fresh()


main()
