"""Builds the rustc driver and dumps the type-checked program of /repo as JSON.

The dump is made from /repo's working tree on every run: the fingerprints of the
workspace crate are removed from our own target directory first, because cargo
skips the wrapper when it thinks the crate is fresh."""
import glob, json, os, re, shutil, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def sysroot_lib():
    return os.path.join(run(["rustc", "+nightly", "--print", "sysroot"]).strip().splitlines()[-1], "lib")


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN",
              "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    lib = sysroot_lib()
    env["LD_LIBRARY_PATH"] = lib + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
    return env


def build_driver(env):
    out = os.path.join(BUILD, "driver")
    run(["cargo", "+nightly", "build", "--offline", "--quiet", "--target-dir", out],
        env=env, cwd=os.path.join(VERIF, "driver"))
    exe = os.path.join(out, "debug", "mirdump")
    if not os.path.exists(exe):
        raise BuildError("driver not built")
    return exe


def ensure_lock():
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        for src in ("/opt/vp/Cargo.lock", os.path.join(VERIF, "repo.Cargo.lock")):
            if os.path.exists(src):
                shutil.copyfile(src, lock)
                return


NAMES = os.path.join(VERIF, "analysis", "names.json")


def signatures(lib):
    """{path: signature} of the plain functions and inherent methods"""
    ty = {t["id"] if isinstance(t, dict) and "id" in t else i: t for i, t in enumerate(lib.get("types", []))}

    def show(i):
        t = ty.get(i)
        return re.sub(r"'\w+ ?", "", t["s"] if isinstance(t, dict) and "s" in t else json.dumps(t, sort_keys=True))
    return {f["path"]: ", ".join(map(show, f["inputs"])) + " -> " + show(f["output"])
            for f in lib.get("fns", []) if f.get("inputs") is not None and "{" not in f["path"] and "<" not in f["path"]}


def renames(lib):
    """{current path: known path} of functions that were renamed or moved: a known function is gone and exactly one
    new function has its signature (and, if there are several, its module or its name)"""
    if not os.path.exists(NAMES):
        return {}
    with open(NAMES) as fh:
        known = json.load(fh)
    now = signatures(lib)
    gone = {p: s for p, s in known.items() if p not in now}
    new = {p: s for p, s in now.items() if p not in known}
    out = {}
    up = lambda p: p.rpartition("::")[0]
    last = lambda p: p.rpartition("::")[2]
    for close in (lambda a, b: up(a) == up(b), lambda a, b: last(a) == last(b), lambda a, b: True):
        pairs = [(g, n) for g in gone for n in new if gone[g] == new[n] and close(g, n)]
        for g, n in pairs:
            if sum(1 for x in pairs if x[0] == g) == 1 and sum(1 for x in pairs if x[1] == n) == 1:
                out[n] = g
        for n, g in out.items():
            gone.pop(g, None)
            new.pop(n, None)
    return out


def dump():
    """Returns {crate file name: parsed JSON} for the library and the binary."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = base_env()
        exe = build_driver(env)
        ensure_lock()
        target = os.path.join(BUILD, "target")
        out = os.path.join(BUILD, "dump")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for pat in (".fingerprint/ledger-rs-lib-*", "build/ledger-rs-lib", "build/ledger-rs-lib-*", "incremental/*"):
            for p in glob.glob(os.path.join(target, "debug", pat)):
                shutil.rmtree(p, ignore_errors=True)
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["MIRDUMP_OUT"] = out
        env["RUSTFLAGS"] = "-A invalid_reference_casting -A warnings -C debug-assertions=off -C overflow-checks=on"
        env["CARGO_INCREMENTAL"] = "0"
        run(["cargo", "+nightly", "check", "--offline", "--quiet", "--lib", "--bins",
             "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", target], env=env, cwd=REPO)
        res = {}
        for f in sorted(glob.glob(os.path.join(out, "*.json"))):
            with open(f) as fh:
                res[os.path.basename(f)[:-5]] = fh.read()
        lib = json.loads(res.get("ledger_rs_lib", "{}"))
        ren = renames(lib)
        for k, t in res.items():
            for new, old in ren.items():
                for pre in ("crate::", "ledger_rs_lib::"):
                    t = re.sub(r"(?<![\w:])" + re.escape(pre + new[7:]) + r"(?!\w|::[a-z])", lambda m: pre + old[7:], t)
            res[k] = json.loads(t)
        if "ledger_rs_lib" not in res:
            raise BuildError("the library crate was not dumped: %s" % sorted(res))
        return res


if __name__ == "__main__":
    d = dump()
    if "--names" in sys.argv:
        with open(NAMES, "w") as fh:
            json.dump(signatures(d["ledger_rs_lib"]), fh, indent=0, sort_keys=True)
    for k, v in d.items():
        print(k, len(v["fns"]), "functions", len(v["adts"]), "types")
