"""C01 Reading journals and reporting has no side effects outside the process.

(1) Effect analysis: every external function called or mentioned anywhere in the library and the
program is classified; operations that create, change or delete files, start processes, use the
network, change the environment or the working directory, or consult files of their own (time zone
data) are violations, and so is writing through a file handle.  (2) Path provenance: every file is
opened by a function that opens exactly the path it was given; the paths given to it, followed
through the analysed entry points, are elements of the list of file names of the command line, or
the file an include directive names, with nothing added but the working directory."""
from core import *
from rules.c02 import strip_strs
from rules.c12 import included, outer, lines_of
from rules.c14 import READ

FS = {"write", "remove_file", "remove_dir", "remove_dir_all", "rename", "copy", "create_dir", "create_dir_all", "hard_link", "soft_link",
      "set_permissions", "symlink"}
FILE = {"create", "create_new", "set_len", "set_permissions", "set_modified", "set_times", "lock"}
OPTS = {"write", "append", "create", "create_new", "truncate"}
READS = {"open", "read_to_string", "read", "read_dir", "read_link"}
ENV = {"set_var", "remove_var", "set_current_dir"}
KNOWN_CRATES = {"std", "core", "alloc", "chrono", "rust_decimal", "petgraph", "shell_words", "anyhow", "log", "crate", "ledger_rs_lib", "wasm_bindgen", "hashbrown", "num_traits"}


def effect(name, callee, prog):
    """what a call of the external function does outside the process, or None"""
    n = name.lstrip("<")
    m = n.split("::")[-1]
    if n.startswith(("std::fs::File::", "std::fs::File as")) and m in FILE:
        return "changes a file"
    if n.startswith("std::fs::OpenOptions") and m in OPTS:
        return "opens a file for writing"
    if n.startswith("std::fs::DirBuilder"):
        return "creates a directory"
    if n.startswith("std::fs::") and n.count("::") == 2 and m in FS:
        return "changes the file system"
    if n.startswith("std::process::") and m not in ("exit", "abort", "id", "report"):
        return "starts a process"
    if n.startswith(("std::net::", "std::os::")) and not n.startswith("std::os::unix::ffi"):
        return "uses the system or the network"
    if n.startswith("std::env::") and m in ENV:
        return "changes the environment"
    if n.startswith(("chrono::Local", "chrono::offset::Local", "chrono::offset::local")):
        return "reads the time zone files"
    ta = [prog.tys(a) for a in callee.get("targs", [])]
    tr = (callee.get("trait") or "").split("::")[-1]
    if tr == "Write" and "io" in (callee.get("trait") or "") and any("fs::File" in t for t in ta):
        return "writes to a file"
    if n.startswith("std::io::copy") and any("fs::File" in t for t in ta[1:2]):
        return "writes to a file"
    return None


def crate_of(name):
    n = name.lstrip("<&'")
    for x in ("mut ", "a mut ", "a "):
        if n.startswith(x):
            n = n[len(x):]
    return n.split("::")[0].split(" ")[0]


def effects(ck):
    n = 0
    for prog in (ck.ctx.prog, ck.ctx.bin):
        if prog is None:
            continue
        for f in prog.fns.values():
            for c in calls_of(prog, f):
                if c["kind"] == "closure" or any(t in prog.fns for t in c["targets"]):
                    continue
                n += 1
                w = effect(c["name"], c["callee"], prog)
                if w is None and c["callee"].get("abi") not in (None, "Rust") and "extern" in str(c["callee"].get("abi")):
                    w = "calls foreign code"
                if w is not None:
                    ck.ob("no effects outside the process", "%s: %s at %s" % (f["path"], c["name"], c["span"]), False, w)
                k = crate_of(c["name"])
                if k not in KNOWN_CRATES and ("::" in c["name"]) and len(k) > 1 and k.islower() and k.isidentifier():
                    ck.undecided("no effects outside the process", "%s at %s" % (c["name"], c["span"]), "unclassified crate %s" % k)
    ck.ob("no effects outside the process", "all %d calls of external functions" % n, True)
    ck.count("external call sites", n)


def is_read(name):
    n = name.lstrip("<")
    return n.startswith(("std::fs::File::open", "std::fs::read", "std::fs::OpenOptions::open"))


def openers(prog):
    for f in prog.fns.values():
        for c in calls_of(prog, f):
            if is_read(c["name"]):
                yield f, c


def plain_path(t):
    """a path with conversions between string, path and reference types dropped"""
    while True:
        t = strip_strs(t)
        if t.op in ("path", "utf8path", "pathstr") and t.args:
            t = t.args[0]
        elif t.op == "ref" and t.args[0][0] == "V" and not t.args[1]:
            t = t.args[0][1]
        else:
            return t


def opened(ck):
    """every opening function opens the path it was given"""
    prog = ck.ctx.prog
    out = {}
    if ck.ctx.bin is not None:
        for f, c in openers(ck.ctx.bin):
            ck.ob("files are opened by the library only", "%s at %s" % (f["path"], c["span"]), False, "the program opens a file itself")
    fs = {f["path"]: (f, c) for f, c in openers(prog)}
    for p, (f, c) in sorted(fs.items()):
        w = "%s at %s" % (p, c["span"])
        i = ck.run(p.split("::{closure")[0])
        evs = [e for e in i.events if e.kind in ("call", "fallible", "open") and is_read(str(e.callee)) and e.fn == p]
        if not evs:
            ck.undecided("a function opens the path it was given", w, "not seen")
            continue
        for e in evs:
            v = plain_path(e.args[-1])
            ks = [k for k, x in enumerate(i.params) if v is plain_path(x)]
            if ks:
                out[p] = ks[0]
                ck.ob("a function opens the path it was given", w, True)
            elif any(x.op == "c" and x.args[0] == "str" and x.args[1] for x in subterms(v)) or \
                    any(x.op == "call" and "env" in str(x.args[0]) for x in subterms(v)):
                ck.ob("a function opens the path it was given", w, False, "opens %s" % show(v, 5)[:300])
            else:
                ck.undecided("a function opens the path it was given", w, "opens %s" % show(v, 5)[:300])
    return out


def given(ck):
    ops = opened(ck)
    prog = ck.ctx.prog
    cs = callers_of(prog)
    seen = set()
    # from the command line
    i = ck.run("crate::run")
    for e in i.events:
        if e.kind == "call" and str(e.callee) in ops:
            seen.add(e.fn)
            v = plain_path(i.deep_arg(e, ops[str(e.callee)]) if hasattr(i, "deep_arg") else e.args[ops[str(e.callee)]])
            v = strip_strs(v)
            w = "%s at %s" % (e.fn, e.span)
            consts = [x for x in subterms(v) if x.op == "c" and x.args[0] == "str" and x.args[1] and not inside_test(v, x)]
            if v.op == "e" and v.args[0].op in ("phi", "f", "fold"):
                ck.ob("only files named by the caller are opened", w, True)
            elif v.op in ("c", "concat", "call") or consts and v.op != "e":
                ck.ob("only files named by the caller are opened", w, False, "opens %s" % show(v, 5)[:300])
            else:
                ck.undecided("only files named by the caller are opened", w, "opens %s" % show(v, 4)[:300])
    # from include directives
    i = ck.run(READ)
    L, j, line = outer(i)
    for e in i.events:
        if e.kind == "call" and str(e.callee) in ops:
            seen.add(e.fn)
            v = strip_strs(simp(e.args[ops[str(e.callee)]], e.pc))
            w = "%s at %s" % (e.fn, e.span)
            if v.op == "ref":
                v = strip_strs(e.res) if False else v
            named = lines_of(v)
            if not named:
                ck.ob("only files named by the journal are included", w, not (v.op in ("c", "concat", "call")), "opens %s" % show(v, 5)[:300])
    n = len(ck.obs)
    ops_j = {o for _, v in leaves(simp(L.next[j], L.cont), L.cont) for o in subterms(v) if o.op == "jrnl.file"}
    for o in ops_j:
        for c, v in leaves(strip_strs(simp(o.args[1], L.cont)), L.cont):
            extra = sorted(texts(v) - {"", "/", ".", "./", ".."})
            if extra:
                ck.ob("only files named by the journal are included", "include", False, "a path is made with %s" % extra)
        included(ck, "include", o, line, L.cont)
    for o in ck.obs[n:]:
        o["rule"] = "only files named by the journal are included"
        o["key"] = "%s @ %s" % (o["rule"], o["where"])
    for o in ck.und:
        pass
    # every other caller hands on a path it was given itself
    todo, done = sorted(ops), set()
    while todo:
        q = todo.pop()
        if q in done:
            continue
        done.add(q)
        for c in sorted(cs.get(q, ())):
            if c in seen or c == q or "{closure" in c:
                continue
            k = ck.run(c)
            for e in k.events:
                if e.kind == "call" and str(e.callee) == q and e.fn == c:
                    v = plain_path(simp(e.args[ops[q]], e.pc))
                    hit = [n for n, x in enumerate(k.params) if v is plain_path(x)]
                    w = "%s at %s" % (c, e.span)
                    if hit:
                        ck.ob("only files named by the caller are opened", w, True)
                        ops[c] = hit[0]
                        todo.append(c)
                    elif v.op in ("c", "concat"):
                        ck.ob("only files named by the caller are opened", w, False, "opens %s" % show(v, 5)[:300])
                    else:
                        ck.undecided("only files named by the caller are opened", w, "opens %s" % show(v, 4)[:300])


def texts(v):
    """constant texts a value is made with (those of tests apart)"""
    if not isinstance(v, T) or v.op in ("needle", "cs"):
        return set()
    if v.op == "ite":
        return texts(v.args[1]) | texts(v.args[2])
    if v.op == "c":
        return {v.args[1]} if v.args[0] == "str" else set()
    return set().union(*[texts(a) for a in v.args if isinstance(a, T)]) if v.args else set()


def inside_test(v, x):
    return any(y.op in ("needle", "cs") and any(z is x for z in subterms(y)) for y in subterms(v))


def check(ck):
    ck.group("effects", effects)
    ck.group("paths", given)
