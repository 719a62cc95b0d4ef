"""C13 Malformed or unreadable input is reported, never silently accepted.

Failure flow.  A fallible operation is a call of an external function that reports failure in its
result (opening and reading files, parsing dates, times and decimals, splitting the command line),
or of a crate function that hands such a failure to its caller (as Err, or as None).  In every
function that contains one (and in the reader and the entry points as a whole) the condition under
which the operation was reached and failed must be incompatible with going round any enclosing loop
and with returning normally; returning Err, or None from a function whose None is then treated as a
failure by its callers, hands the failure on."""
from core import *
from rules.c02 import strip_strs
from rules.c14 import READ
from rules import c17, c12

TOP = ("crate::run", "crate::run_command", "crate::parse_file", "crate::parse_text", "crate::journal::Journal::read", READ)
RULE = "a failure is not passed over"


def local_type(prog, path):
    f = prog.by_path.get(path)
    return prog.types[f["locals"][0][0]] if f else None


def direct(prog, f, givers):
    """does f itself call something fallible?"""
    itp = Interp(prog)
    for b in f["blocks"]:
        if b["cleanup"] or b["t"]["k"] != "call":
            continue
        t = b["t"]
        c = t["f"].get("fn")
        if c is None or not t.get("dest"):
            continue
        name = c.get("rdef") or c["def"]
        if name in givers:
            return True
        rid = c.get("rid") or c["id"]
        if rid in prog.fns:
            r = prog.types[prog.fns[rid]["locals"][0][0]]
            if r.get("path") == "std::result::Result" and not r["s"].endswith("fmt::Error>"):
                return True
            continue
        d = t["dest"]
        ty = f["locals"][d["l"]][0] if not d["p"] else (d["p"][-1][3] if d["p"][-1][0] == "." else None)
        if itp.fallible(c, name, ty):
            return True
    return False


def failing(prog, i, givers):
    """[(event, condition of failure, is it an Option?)]"""
    for e in i.events:
        if e.res is None or e.pc is FALSE:
            continue
        if e.kind == "fallible":
            bad = NOT(cond(is_variant(e.res, "std::result::Result", "Ok")))
        elif e.kind == "call" and str(e.callee) in prog.by_path:
            t = local_type(prog, str(e.callee))
            if t.get("path") == "std::result::Result" and not t["s"].endswith("fmt::Error>"):
                bad = NOT(cond(is_variant(e.res, "std::result::Result", "Ok")))
            elif str(e.callee) in givers:
                bad = NOT(cond(is_variant(e.res, "std::option::Option", "Some")))
            else:
                continue
        else:
            continue
        yield e, AND(e.pc, bad)


def outwards(i, e, F):
    """conditions at the level of the root under which the failure has passed all enclosing loops,
    or the loop that goes on: (None, cond) or (loop, cond)"""
    level = [(e.loops, F)]
    while level:
        loops, c = level.pop()
        if c is FALSE:
            continue
        if not loops:
            yield None, c
            continue
        L = i.loops.get(loops[-1])
        if L is None:
            raise AnalysisError("loop not recorded")
        yield L, AND(c, L.cont)
        ways = getattr(L, "ways", [])
        for k, (pc, oc, dead) in enumerate(ways):
            if dead:
                continue
            x = AND(c, pc)
            if x is not FALSE:
                level.append((loops[:-1], AND(AND(L.entry_pc, oc), x)))


def same_text(i, e, others, c):
    """under c another attempt at the same text succeeded"""
    mine = {strip_strs(a) for a in e.args if isinstance(a, T)}
    for o, _ in others:
        if o is e or o.kind != "fallible":
            continue
        if mine & {strip_strs(a) for a in o.args if isinstance(a, T) and a.op not in ("c",)} and \
                implies(c, cond(is_variant(o.res, "std::result::Result", "Ok"))):
            return True
    return False


def kind_of(t):
    p = t.get("path")
    return {"std::result::Result": "Err", "std::option::Option": "None"}.get(p)


def root(ck, path, givers, found):
    prog = ck.ctx.prog
    i = ck.run(path)
    f = prog.by_path[path]
    rt = kind_of(prog.types[f["locals"][0][0]])
    evs = list(failing(prog, i, givers))
    for e, F in evs:
        w = "%s: %s at %s" % (path, short(e.callee), e.span)
        bad = None
        for L, c in outwards(i, e, F):
            if c is FALSE or ruled_out(c):
                continue
            if L is not None:
                if same_text(i, e, evs, c):
                    continue
                bad = ("the loop at %s goes on" % L.span, c)
                break
            if i.out is None or i.out.pc is FALSE:
                continue
            c = AND(c, i.out.pc)
            if c is FALSE or ruled_out(c) or same_text(i, e, evs, c):
                continue
            if rt == "Err" and all(is_variant(v, "std::result::Result", "Err") is TRUE for _, v in leaves(simp(i.ret, c), c)):
                continue
            if rt == "None" and all(is_variant(v, "std::option::Option", "None") is TRUE for _, v in leaves(simp(i.ret, c), c)):
                found.add(path)
                continue
            bad = ("%s returns normally" % path, c)
            break
        ck.ob(RULE, w, bad is None, "%s after a failure when %s" % (bad[0], show(bad[1], 4)[:400]) if bad else "")


def ruled_out(c):
    f = facts(c)
    return f is not TRUE and AND(c, f) is FALSE


def short(c):
    return "::".join(str(c).split("::")[-2:])


def flows(ck):
    prog = ck.ctx.prog
    tops = [p for p in TOP if p in prog.by_path]
    pubs = [f for f in prog.fns.values() if f.get("pub")]
    reach = ck.ctx.reachable([prog.by_path[p] for p in tops])
    givers, done = set(), set()
    for rnd in range(4):
        todo = [p for p in tops if p not in done] + sorted(
            f["path"] for f in prog.fns.values() if f["path"] in prog.by_path and not f.get("test")
            and "{closure" not in f["path"] and direct(prog, f, givers) and f["path"] not in done and f["path"] not in tops)
        if not todo:
            break
        found = set()
        for p in todo:
            done.add(p)
            ck.group(RULE, root, p, givers, found)
        new = found - givers
        givers |= new
        # callers of a function that now hands failures on as None
        cs = callers_of(prog)
        for n in new:
            done -= cs.get(n, set())
    ck.count("functions with fallible operations", len(done))


def queries(ck):
    """tests whether a file exists: nothing may go on as if nothing was asked for"""
    i = ck.run(READ)
    L, j, line = c12.outer(i)
    for e in i.events:
        if e.kind != "fsquery":
            continue
        w = "%s at %s" % (e.fn, e.span)
        c = AND(AND(e.pc, NOT(cond(mk("fsquery", str(e.callee).split("::")[-1], e.args[0])))), L.cont)
        ok = True
        for k, v in leaves(simp(L.next[j], c), c):
            ok = ok and any(o.op == "jrnl.file" for o in c12.chain(v, i)[0])
        ck.ob("a missing include file is reported", w, c is FALSE or ok, "reading goes on when %s" % show(c, 4)[:300])


def options(ck):
    """unknown options, missing values"""
    i = ck.run("crate::run")
    F = None
    for r in c17.reports(i, i.ret):
        jn = r.args[0]
        if jn.op == "fold":
            F = jn.args[0]
    if F is None:
        raise AnalysisError("list of files")
    F = c17.unfold(i, F) or F
    L = c17.loop_of(i, F) if F.op == "phi" else None
    if L is None:
        raise AnalysisError("list of files %s" % show(F, 3)[:200])
    nx = simp(L.next[F], L.cont)
    src = {strip_strs(v.args[1]) for _, v in leaves(nx, L.cont) if v.op == "vec.push" and strip_strs(v.args[1]).op == "e"}
    if len(src) != 1:
        raise AnalysisError("source of the file names")
    O = src.pop().args[0]
    ps = [p for p in L.next if L.init[p] is ZERO and any(a.op == "lt" and a.args[0] is p and a.args[1] is length(O) for a in support(L.cont))]
    if len(ps) != 1:
        raise AnalysisError("position in the options")
    p = ps[0]
    more = cond(lt(p, length(O)))
    known = cond(eq(mk("e", O, p), cstr("-f")))
    ways = [("goes on", L.cont)] + [("ends", c) for c in c17.live(L)]
    for what, c in ways:
        for cc, v in (leaves(nx, c) if what == "goes on" else [(c, None)]):
            if what == "goes on" and v.op == "vec.push":
                continue    # taken for a file: C17
            b = AND(AND(cc, more), NOT(known))
            ck.ob("unknown options are reported", c17.where(L), b is FALSE, "the loop %s when %s" % (what, show(b, 4)[:300]))
        b = AND(AND(c, AND(more, known)), NOT(cond(lt(add(p, ONE), length(O)))))
        ck.ob("missing option values are reported", c17.where(L), b is FALSE, "the loop %s when %s" % (what, show(b, 4)[:300]))
    # values of options on the command line
    args = i.params[0]
    A, p = c17.args_loop(i, args)
    arg = mk("e", args, p)
    dash = AND(cond(nonempty(arg)), c17.char_is(arg, 0, "-"))
    O = c17.unfold(i, O) or O
    if O not in A.next:
        raise AnalysisError("options are not collected in the loop over the arguments")
    d = AND(A.cont, dash)
    for c, v in leaves(simp(A.next[O], d), d):
        ck.ob("options are not passed over", c17.where(A), v is not O, "nothing is recorded when %s" % show(c, 4)[:300])
        x = c17.unfold(i, v) or v
        M = c17.loop_of(i, x) if x.op == "phi" else None
        if M is None:
            raise AnalysisError("options become %s" % show(x, 3)[:200])
        ats = support(M.cont) | support(M.next[x])
        qs = [a for a in ats if a.op == "lt" and a.args[0] in M.next and a.args[1] is length(args)]
        ks = [a for a in support(M.cont) if a.op == "lt" and a.args[0] in M.next and a.args[1] is not length(args)]
        if len(qs) != 1 or len(ks) != 1:
            raise AnalysisError("values of options")
        for cc in [M.cont] + c17.live(M):
            b = AND(AND(cc, cond(ks[0])), NOT(cond(qs[0])))
            if ks[0].args[1] is length(chars(arg)):     # the dash itself
                b = AND(b, NOT(cond(eq(ks[0].args[0], ZERO))))
            ck.ob("missing option values are reported", c17.where(M), b is FALSE, "passed over when %s" % show(b, 4)[:300])


HIDE = {"catch_unwind": "panics are caught", "from_utf8_lossy": "undecodable text is replaced", "set_hook": "the panic message is replaced",
        "from_utf8_lossy_owned": "undecodable text is replaced", "from_utf16_lossy": "undecodable text is replaced",
        "resume_unwind": "panics are caught", "exit": "the process ends without a panic message"}


def hidden(ck):
    """nothing in the library or the program swallows a failure as a whole"""
    n = 0
    for prog in (ck.ctx.prog, ck.ctx.bin):
        for f in (prog.fns.values() if prog is not None else ()):
            for c in calls_of(prog, f):
                m = c["name"].split("::")[-1]
                n += 1
                if m in HIDE and c["name"].startswith(("std::", "core::", "alloc::")) and not (m == "exit" and not exits_ok(prog, f)):
                    ck.ob("failures are not hidden as a whole", "%s: %s at %s" % (f["path"], m, c["span"]), False, HIDE[m])
    ck.ob("failures are not hidden as a whole", "all %d call sites" % n, True)


def exits_ok(prog, f):
    """does f end the process with status 0?"""
    for b in f["blocks"]:
        t = b["t"]
        if t["k"] == "call" and t["f"].get("fn") and (t["f"]["fn"].get("rdef") or t["f"]["fn"]["def"]).endswith("process::exit"):
            a = t["args"][0]
            if "0_i32" in str(a) or "'v': 0" in str(a) or "'int': 0" in str(a):
                return True
    return False


def both(*fs):
    def f(ck):
        for g in fs:
            g(ck)
    return f


CUT = ("slice", "upto", "from", "after", "trim_matches", "trim_end_matches", "trim_start_matches", "dropprefix", "dropsuffix", "replace", "concat", "piece")


def whole(ck):
    """the text of a field is parsed as a whole: the builders of transactions parse the date texts
    they are given, not a part of them"""
    p = "crate::xact::Xact::create"
    i = ck.run(p, without=("create",))
    names = [n for n in ("date", "aux_date")]
    par = {n: v for n, v in zip(names, i.params)}
    n = 0
    for e in i.events:
        if e.kind == "fallible" and "NaiveDate" in str(e.callee):
            n += 1
    for x in set(subterms(i.ret)) | set(subterms(i.out.pc)):
        if x.op in ("dparse", "dparses"):
            for c, t in leaves(x.args[1]):
                t = strip_strs(t)
                while t.op in ("trim_start", "trim_end"):
                    t = t.args[0]
                ck.ob("the whole text is parsed", "%s: %s" % (p, show(x, 4)), t.op not in CUT or not cuts_param(t, i), "parses only %s" % show(t, 5))
        elif x.op == "call" and "parse_and_remainder" in str(x.args[0]):
            ck.ob("the whole text is parsed", "%s: %s" % (p, show(x, 3)), False, "parses only the beginning of the text")


def cuts_param(t, i):
    while t.op in CUT + ("trim_start", "trim_end"):
        t = strip_strs(t.args[0])
        if not isinstance(t, T):
            return False
    return any(t is strip_strs(p) for p in i.params)


def check(ck):
    from rules import c15, c18
    ck.group("whole texts", whole)
    ck.part("written means present", both(c15.scan_amount, c15.scan_post), lambda r, w: r == "no amount only if none is written")
    ck.part("written means present", c15.builders, lambda r, w: r.startswith(("amount from its texts", "lot price from its texts")) and not r.endswith("commodity") or
            r in ("quantity from its text", "lot date from its text"))
    ck.part("price fields", c18.directive, lambda r, w: r in ("price directive: date", "price directive: quantity"))
    ck.group("hidden failures", hidden)
    ck.group("failure flow", flows)
    ck.group("queries", queries)
    ck.group("options", options)
