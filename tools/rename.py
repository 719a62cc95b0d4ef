#!/usr/bin/env python3
"""Development tool: renames one function at a time (scratch copies) and reports checks that do not stay quiet."""
import os, re, subprocess, sys, threading, queue, glob
sys.argv = sys.argv[:1] + sys.argv[1:]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {"main", "default", "fmt", "next", "from", "into", "add", "add_assign", "div", "mul", "mul_assign", "sub_assign", "deref", "deref_mut", "from_str", "new", "find", "remove", "parse"}
src = {f: open(f).read() for f in glob.glob("/repo/src/**/*.rs", recursive=True)}
tests = "".join(open(f).read() for f in glob.glob("/repo/tests/**/*.rs", recursive=True))
names = set()
for f, t in src.items():
    t = t.split("#[cfg(test)]\nmod ")[0]
    names |= set(re.findall(r"^\s*(?:pub(?:\([a-z]+\))? )?fn (\w+)", t, re.M))
only = sys.argv[1:]
names = sorted(n for n in names if n not in SKIP and (n in only if only else not re.search(r"\b%s\b" % n, tests)))
q = queue.Queue()
for n in names:
    q.put(n)


def work(k):
    w = "/tmp/mut%d" % k
    env = dict(os.environ, VERIF_REPO=w, VERIF_BUILD=w + ".build", VERIF_EVIDENCE=w + ".evidence")
    while True:
        try:
            n = q.get_nowait()
        except queue.Empty:
            return
        subprocess.run("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", shell=True, cwd=w)
        for f in glob.glob(w + "/src/**/*.rs", recursive=True):
            t = open(f).read()
            open(f, "w").write(re.sub(r"\b%s\b(?=\s*(\(|::<|[,;}]|<))" % n, n + "_zq", t))
        r = subprocess.run([sys.executable, HERE + "/check.py", "all"], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "UNDECIDED" in l]
        print(n, "quiet" if r.returncode == 0 and not bad else "rc=%d" % r.returncode, len(bad), flush=True)
        for l in bad[:6]:
            print("     ", l[:300])
        if r.returncode not in (0, 1):
            print(r.stdout[-500:])


ts = [threading.Thread(target=work, args=(k,)) for k in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
