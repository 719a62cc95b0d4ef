"""C17 Command-line arguments are honoured completely and in order.

`run`, `run_command` and the binary's `main` are analysed as a whole.  The report returned must be
made of the journal obtained by reading, one after the other into one new journal, the list of file
names; that list is followed back through the loops that build it: one pass of the loop over the
option/value pairs appends exactly the value of a "-f" pair, one pass of the loop over the arguments
appends an argument that does not start with '-' to the commands, and for one that does, a pair
("-" + letter, next argument) for every letter after the dash, moving past what it used."""
from core import *
from rules.c02 import strip_strs
from rules.c15 import char_is

RUN = "crate::run"
REORDER = {"sorted", "rev", "dedup", "retain", "truncate", "take", "skip", "slice", "mut", "upd", "call"}


def loop_of(i, p):
    for L in i.loops.values():
        if p in L.next:
            return L
    return None


def live(L):
    return [c for c, t in L.exits if (c, t) not in L.dead]


def where(L):
    return "%s, loop at %s" % (L.fn, L.span)


def inner_source(t):
    """the phi a list is made of by reordering or selecting"""
    seen = [x for x in subterms(t) if x.op == "phi" and len(x.args) == 2]
    return seen


def reports(i, t):
    """report terms in the result"""
    return {x for x in subterms(t) if x.op in ("report.accounts", "report.balance")}


def journal_files(ck, i, w):
    """the list of files, from the journal the reports are made of"""
    rule = "all files are read in order into one journal"
    js = {r.args[0] for r in reports(i, i.ret)}
    if not js:
        raise AnalysisError("no report in the result")
    names = set()
    for j in js:
        if j.op == "fold":
            seq, init, bv, body = j.args
            acc = mk("acc", bv.args[0])
            ok = body.op == "jrnl.file" and body.args[0] is acc and strip_strs(body.args[1]) is mk("e", seq, bv)
            if not ok and (body.op not in ("jrnl.file", "ite", "acc") or any(x.op == "call" for x in subterms(seq))):
                ck.undecided(rule, w, "a pass makes %s" % show(body, 4))
                continue
            ck.ob(rule, w, ok, "a file makes the journal %s" % show(body, 4))
            fresh = init.op == "agg" and fields(init).get("xacts") is mk("vec.new")
            if init.op == "agg":
                ck.ob("reading starts with a new journal", w, fresh, show(init, 2))
            names.add(seq)
        elif j.op == "phi":
            L = loop_of(i, j)
            nx = simp(L.next[j], L.cont)
            ok = nx.op == "jrnl.file" and nx.args[0] is j and nx.args[1].op == "e"
            if nx.op == "jrnl.file" and nx.args[0] is not j or nx.op == "ite" and any(v is j for _, v in leaves(nx, L.cont)):
                ck.ob(rule, where(L), False, "a pass makes %s" % show(nx, 4))
                continue
            if not ok:
                ck.undecided(rule, where(L), "a pass makes %s" % show(nx, 4))
                continue
            seq, p = nx.args[1].args
            if not (p in L.next and L.init[p] is ZERO and simp(L.next[p], L.cont) is add(p, ONE)):
                bad = p.op == "revidx" or p in L.next and (L.init[p].op == "c" and L.init[p] is not ZERO)
                if bad:
                    ck.ob(rule, where(L), False, "reads %s" % show(nx.args[1], 4))
                else:
                    ck.undecided(rule, where(L), "reads %s" % show(nx.args[1], 4))
                continue
            early = FALSE
            for c in live(L):
                early = OR(early, AND(c, lt(p, length(seq))))
            ck.ob(rule, where(L), early is FALSE, "stops when %s" % show(early, 4)[:300])
            names.add(seq)
        elif j.op == "jrnl.file":
            ck.ob(rule, w, False, "the journal is that of one file only: %s" % show(j, 4)[:300])
        elif j.op == "agg":
            ck.ob(rule, w, False, "no file is read")
        else:
            ck.undecided(rule, w, "journal %s" % show(j, 3)[:300])
    if len(names) != 1:
        raise AnalysisError("%d lists of files" % len(names))
    return names.pop()


def unfold(i, t):
    """the loop variable t is the closed form of"""
    for L in i.loops.values():
        for p, v in getattr(L, "closed", {}).items():
            if v is t and p in L.next:
                return p
    return None


def source_phi(ck, i, rule, t):
    """t itself if it is built by a loop; a reordering or selection of such a list is a violation"""
    if t.op == "phi" and loop_of(i, t) is not None:
        return t
    p = unfold(i, t)
    if p is not None:
        return p
    if (t.op in REORDER or t.op.startswith("vec.")) and not any(x.op == "call" for x in subterms(t)) and any(x.op == "phi" for x in subterms(t)):
        ck.ob(rule, "result", False, "the list is changed afterwards: %s" % show(t, 3)[:300])
    raise AnalysisError("the list is %s" % show(t, 3)[:200])


def filenames(ck, i, F):
    """F holds the value of each -f pair of the option list, which is returned"""
    rule = "each -f value is taken once, in order"
    F = source_phi(ck, i, rule, F)
    L = loop_of(i, F)
    w = where(L)
    ck.ob(rule, w, L.init[F] is mk("vec.new") or L.init[F].op != "vec.new" and L.init[F].op not in ("vec.push",), "starts with %s" % show(L.init[F], 3))
    nx = simp(L.next[F], L.cont)
    src = None
    for c, v in leaves(nx, L.cont):
        if v.op == "vec.push" and v.args[0] is F and strip_strs(v.args[1]).op == "e":
            x = strip_strs(v.args[1])
            if src is not None and src is not x:
                raise AnalysisError("two sources")
            src = x
        elif v is F:
            ck.ob(rule, w, False, "no file name is taken when %s" % show(c, 5)[:300])
        elif v.op in ("vec.push", "vec.insert", "upd", "vec.new", "sorted"):
            ck.ob(rule, w, False, "the list becomes %s" % show(v, 4)[:300])
        else:
            raise AnalysisError("the list becomes %s" % show(v, 3)[:200])
    if src is None:
        return None
    O, q = src.args
    ps = [p for p in L.next if p is not F and simp(L.next[p], L.cont).op in ("add", "+") or p is not F and L.init[p] is ZERO]
    ps = [p for p in ps if any(x is p for x in subterms(q))]
    if len(ps) != 1:
        raise AnalysisError("position in the options")
    p = ps[0]
    ok = L.init[p] is ZERO and q is add(p, ONE) and simp(L.next[p], L.cont) is add(p, const(2))
    ck.ob(rule, w, ok, "starts at %s, takes %s, goes on at %s" % (show(L.init[p], 2), show(q, 3), show(L.next[p], 3)))
    isf = cond(eq(mk("e", O, p), cstr("-f")))
    ck.ob("only -f is taken for a file", w, implies(L.cont, isf), "also when %s" % show(AND(L.cont, NOT(isf)), 5)[:300])
    early = FALSE
    for c in live(L):
        early = OR(early, AND(c, lt(p, length(O))))
    ck.ob("no option is left out", w, early is FALSE, "stops when %s" % show(early, 5)[:300])
    return O


def has_exit(c):
    """is c possible only through an inner loop that is left early?"""
    return any(a.op == "exit" and implies(c, cond(a)) for a in support(c))


def args_loop(i, args):
    """loop over the arguments: (loop, position)"""
    out = []
    for L in i.loops.values():
        for p in L.next:
            if any(a.op == "lt" and a.args[0] is p and a.args[1] is length(args) for a in support(L.cont)) and not L.outer:
                out.append((L, p))
    if len(out) != 1:
        raise AnalysisError("%d loops over the arguments" % len(out))
    return out[0]


def arguments(ck, i, args, O, C):
    L, p = args_loop(i, args)
    w = where(L)
    arg = mk("e", args, p)
    dash = AND(cond(nonempty(arg)), char_is(arg, 0, "-"))
    ck.ob("all arguments are looked at", w, L.init[p] is ZERO, "starts at argument %s" % show(L.init[p], 2))
    early = FALSE
    for c in live(L):
        early = OR(early, AND(c, lt(p, length(args))))
    ck.ob("all arguments are looked at", w, early is FALSE, "stops when %s" % show(early, 5)[:300])
    nd, d = AND(L.cont, NOT(dash)), AND(L.cont, dash)
    # arguments without a dash
    rule = "arguments that are not options are kept in order"
    if C is not None:
        C = source_phi(ck, i, rule, C)
        ck.ob(rule, w, C in L.next and L.init[C] is mk("vec.new"), "starts with %s" % show(L.init.get(C, C), 3)[:200])
    if C is not None and C in L.next:
        for c, v in leaves(simp(L.next[C], nd), nd):
            ok = v.op == "vec.push" and v.args[0] is C and strip_strs(v.args[1]) is arg
            if not ok and not (v is C or v.op in ("vec.push", "vec.insert", "vec.new")):
                ck.undecided(rule, w, "commands become %s" % show(v, 3)[:300])
                continue
            ck.ob(rule, w, ok, "the commands become %s when %s" % (show(v, 3)[:300], show(c, 4)[:300]))
        for c, v in leaves(simp(L.next[C], d), d):
            ck.ob("options are not commands", w, v is C, "the commands become %s when %s" % (show(v, 3)[:300], show(c, 4)[:300]))
    if nd is FALSE:
        ck.ob(rule, w, False, "an argument without dash is never accepted")
        return
    for c, v in leaves(simp(L.next[p], nd), nd):
        ck.ob(rule, w, v is add(p, ONE), "goes on at %s" % show(v, 4))
    # options
    rule = "every option letter gets its own value"
    O = source_phi(ck, i, rule, O)
    if O not in L.next:
        raise AnalysisError("options are not collected in the loop over the arguments")
    ck.ob(rule, w, L.init[O] is mk("vec.new"), "starts with %s" % show(L.init[O], 3)[:200])
    for c, v in leaves(simp(L.next[O], nd), nd):
        ck.ob("commands are not options", w, v is O, "the options become %s when %s" % (show(v, 3)[:300], show(c, 4)[:300]))
    if d is FALSE:
        ck.ob(rule, w, False, "no option is ever accepted")
        return
    # a dash alone names no option
    lone = AND(d, NOT(lt(ONE, length(chars(arg)))))
    for a in support(lone):
        if a.op == "eq" and ONE in a.args and length(arg) in a.args:
            lone = AND(lone, cond(a))
        elif a.op == "lt" and a.args[0] is ONE and a.args[1] is length(arg):
            lone = AND(lone, NOT(cond(a)))
        elif a.op == "eq" and strip_strs(arg) in [strip_strs(x) for x in a.args] and any(x.op == "c" for x in a.args):
            lone = AND(lone, cond(a) if any(x.op == "c" and x.args[1] == "-" for x in a.args) else NOT(cond(a)))
        elif a.op in ("nonempty", "hasnonws") and a.args[0].op in ("slice", "after") and strip_strs(a.args[0].args[0]) is strip_strs(arg):
            lone = AND(lone, NOT(cond(a)))
    if not has_exit(lone) and not any(x.op == "fold" for a in support(lone) if a.op != "exit" for x in subterms(a)):
        ck.ob("a dash alone is not passed over", w, lone is FALSE, "goes on when %s" % show(lone, 5)[:300])
    xs = {v for _, v in leaves(simp(L.next[O], d), d)}
    if O in xs:
        ck.ob(rule, w, False, "an argument with a dash is passed over")
    if len(xs) != 1:
        raise AnalysisError("%d ways to collect options" % len(xs))
    x = xs.pop()
    x = unfold(i, x) or x
    M = loop_of(i, x) if x.op == "phi" else None
    if M is None:
        raise AnalysisError("options become %s" % show(x, 3)[:200])
    pairs(ck, i, M, x, O, arg, args, p, L, d)


def pairs(ck, i, M, x, O, arg, args, p, L, d):
    rule = "every option letter gets its own value"
    w = where(M)
    if M.init[x] is not O:
        ck.ob(rule, w, False, "earlier options are dropped: starts with %s" % show(M.init[x], 3)[:200])
        return
    ls = leaves(simp(M.next[x], M.cont), M.cont)
    both = [(c, v) for c, v in ls if v.op == "vec.push" and v.args[0].op == "vec.push" and v.args[0].args[0] is x]
    none = [(c, v) for c, v in ls if v is x]
    if len(both) + len(none) != len(ls):
        raise AnalysisError("a pass makes %s" % show(M.next[x], 4)[:200])
    opts = {(strip_strs(v.args[0].args[1]), strip_strs(v.args[1])) for _, v in both}
    if len(opts) != 1:
        raise AnalysisError("%d kinds of options" % len(opts))
    o, val = opts.pop()
    if val.op != "e" or val.args[0] is not args or val.args[1] not in M.next:
        ck.ob(rule, w, False, "the value is %s" % show(val, 4)[:300])
        return
    q = val.args[1]
    ck.ob(rule, w, M.init[q] is add(p, ONE), "the first value is argument %s" % show(M.init[q], 3))
    for c, v in both:
        for cc, nq in leaves(simp(M.next[q], c), c):
            ck.ob(rule, w, nq is add(q, ONE), "after a value goes on at %s" % show(nq, 3))
        ck.ob(rule, w, implies(c, lt(q, length(args))), "a value past the last argument")
    for c, v in none:
        for cc, nq in leaves(simp(M.next[q], c), c):
            ck.ob(rule, w, nq is q, "a value is dropped when %s" % show(c, 4)[:200])
    # the letters
    if o.op == "e" and o.args[1] in M.next and not none:
        Q, k = o.args
        ok = queue(Q, arg)
        if ok is None:
            raise AnalysisError("option letters %s" % show(Q, 4)[:200])
        ck.ob(rule, w, ok, "the options are %s" % show(Q, 5)[:300])
        seq = Q
    else:
        ks = [k for k in M.next if o is letter(arg, k)]
        if len(ks) != 1:
            raise AnalysisError("option %s" % show(o, 4)[:200])
        k, seq = ks[0], chars(arg)
        first = OR(*[c for c, _ in none]) if len(none) > 1 else (none[0][0] if none else FALSE)
        if M.init[k] is ZERO:
            ck.ob(rule, w, AND(first, NOT(cond(eq(k, ZERO)))) is FALSE and implies(AND(M.cont, cond(eq(k, ZERO))), first), "letters are skipped when %s" % show(first, 4)[:200])
        else:
            ck.ob(rule, w, M.init[k] is ONE and not none, "starts at letter %s" % show(M.init[k], 2))
    ck.ob(rule, w, simp(M.next[k], M.cont) is add(k, ONE), "goes on at letter %s" % show(M.next[k], 3))
    if o.op == "e":
        ck.ob(rule, w, M.init[k] is ZERO, "starts at letter %s" % show(M.init[k], 2))
    early = FALSE
    for c in live(M):
        early = OR(early, AND(c, lt(k, length(seq))))
    ck.ob(rule, w, early is FALSE, "stops when %s" % show(early, 5)[:300])
    # and the next argument looked at is the one after the values
    for c, v in leaves(simp(L.next[p], d), d):
        if v is q:
            continue
        if o.op == "e" and not none:
            ck.ob("arguments used as values are not looked at again", where(L), v is add(add(p, ONE), length(seq)), "goes on at %s" % show(v, 4)[:300])
        elif any(z.op in ("fold", "phi") and z is not p for z in subterms(v)):
            pass
        else:
            ck.ob("arguments used as values are not looked at again", where(L), False, "goes on at %s" % show(v, 4)[:300])


def letter(arg, k):
    return concat(cstr("-"), mk("chr", mk("e", chars(arg), k)))


def queue(Q, arg):
    """is Q the list of '-' + letter for each letter of arg after the first?  None: not decided"""
    dash = cstr("-")
    if Q.op == "fold" and Q.args[0] is chars(arg) and Q.args[1] is mk("vec.new"):
        seq, _, bv, body = Q.args
        acc = mk("acc", bv.args[0])
        first = cond(eq(bv, ZERO))
        rest = simp(body, NOT(first))
        head = simp(body, first)
        if rest.op == "ite" or head.op not in ("acc", "vec.push", "ite"):
            return False if rest.op == "ite" else None
        return head is acc and rest is mk("vec.push", acc, letter(arg, bv))
    if Q.op == "comp":
        seq, bv, X = Q.args
        a1 = seq.args[0] if seq.op == "chars" else None
        if X.op != "concat" and not (X.op == "e"):
            return None
        if a1 is not None and a1.op in ("slice",) and a1.args[0] is arg:
            return a1.args[1] is ONE and X is concat(dash, mk("chr", mk("e", seq, bv)))
        if a1 is not None and a1.op == "after" and a1.args[0] is arg:
            return None
        if seq is chars(arg):
            return False
    if Q.op.startswith("vec.") and Q.op not in ("vec.new", "vec.push") and Q.args and any(x is arg for x in subterms(Q.args[0])):
        return False            # removed, merged or reordered afterwards
    return None


def commands_of(i):
    """list whose first element the report is chosen by"""
    cs = {a.args[0] for x in support(i.ret) | support(i.out.pc) if x.op != "exit" for a in subterms(x)
          if a.op == "e" and a.args[0].op in ("phi", "fold", "sorted", "rev", "skip", "mut") and not (a.args[0].op == "chars")}
    cs = {c for c in cs if c.op != "chars"}
    return cs


def choice(ck, i, w, C):
    verb = mk("e", C, ZERO)
    pc = i.out.pc
    at = {x.args[1] for a in support(i.ret) for x in subterms(a) if x.op == "e" and x.args[0] is C}
    ck.ob("the first argument selects the report", w, at <= {ZERO}, "it is selected by argument %s" % [show(k, 3) for k in at])
    odd = {x.op for a in support(i.ret) for x in subterms(a)} & {"bytesof", "cast", "call", "lower", "upper"}
    if odd or not at <= {ZERO}:
        if odd:
            ck.undecided("the first argument selects the report", w, "tests with %s" % sorted(odd))
        return
    for word, what in (("b", "report.balance"), ("bal", "report.balance"), ("balance", "report.balance"), ("accounts", "report.accounts")):
        c = AND(pc, AND(cond(eq(verb, cstr(word))), cond(nonempty(verb))))
        c = AND(c, cond(eq(mk("e", chars(verb), ZERO), const(word[0], "char"))))
        if c is FALSE:
            ck.ob("the first argument selects the report", "%s: %s" % (w, word), False, "never accepted")
            continue
        rs = {r.op for _, v in leaves(simp(i.ret, c), c) for r in reports(i, v)}
        ck.ob("the first argument selects the report", "%s: %s" % (w, word), rs == {what}, "gives %s" % sorted(rs))


def whole(ck, root, source):
    i = ck.run(root)
    args = source(i)
    F = journal_files(ck, i, root)
    O = filenames(ck, i, F)
    cs = commands_of(i)
    if len(cs) > 1:
        L, p = args_loop(i, args)
        cs = {c for c in cs if c in L.next}
    C = None
    if len(cs) == 1:
        C = source_phi(ck, i, "arguments that are not options are kept in order", cs.pop())
    if C is not None:
        choice(ck, i, root, C)
    else:
        ck.undecided("the first argument selects the report", root, "%d lists" % len(cs))
    if O is not None:
        arguments(ck, i, args, O, C)


def run(ck):
    whole(ck, RUN, lambda i: i.params[0])


def run_command(ck):
    def source(i):
        for e in i.events:
            if e.kind == "call" and str(e.callee).endswith("shell_words::split"):
                ck.ob("the command text is split as it is", "crate::run_command", strip_strs(e.args[0]) is strip_strs(i.params[0]), "splits %s" % show(e.args[0], 4))
                return pay(mk("call", e.callee, *e.args), "Ok") if False else split_of(i)
        ops = {x.op for L in i.loops.values() for x in subterms(L.cont)} & {"split_ws", "split"}
        if ops:
            ck.ob("the command text is split as it is", "crate::run_command", False, "quotes are not honoured (%s)" % sorted(ops))
        raise AnalysisError("no shell_words::split")

    def split_of(i):
        xs = {x for L in i.loops.values() for x in subterms(L.cont) if x.op == "v" and x.args[0].op == "call" and "shell_words" in str(x.args[0].args[0])}
        ys = {x for L in i.loops.values() for x in subterms(L.cont) if x.op == "e" and any("shell_words" in str(z.args[0]) for z in subterms(x.args[0]) if z.op == "call")}
        zs = {y.args[0] for y in ys if y.args[0].op not in ("chars",)}
        zs = {z for z in zs if z.op not in ("phi",)}
        if len(zs) != 1:
            raise AnalysisError("arguments of run_command")
        return zs.pop()
    whole(ck, "crate::run_command", source)


PARTIAL = {"e", "sl", "slice", "take", "skip", "filter", "sorted", "rev", "vec.dedup", "vec.truncate", "vec.pop", "vec.retain", "first", "last", "upto", "after", "from", "min", "max"}


def binary(ck):
    prog = ck.ctx.bin
    if prog is None:
        raise Missing("no binary")
    f = prog.by_path.get("crate::main")
    if f is None:
        raise Missing("main")
    i = ck.ctx.run(f, prog=prog)
    ck.analysed(i)
    rule = "the program passes on all its arguments"
    calls = [e for e in i.events if e.kind == "call" and str(e.callee) == "ledger_rs_lib::run"]
    if len(calls) != 1:
        raise AnalysisError("%d calls of run" % len(calls))
    e = calls[0]
    w = "%s at %s" % (e.fn, e.span)
    a = e.args[0]
    env = [x.res for x in i.events if x.kind == "call" and str(x.callee).endswith("env::args")]
    if a.op == "phi" and loop_of(i, a) is not None:
        L = loop_of(i, a)
        nx = simp(L.next[a], L.cont)
        if nx.op == "ite" and any(v is a for _, v in leaves(nx, L.cont)):
            ck.ob(rule, w, False, "arguments are dropped: %s" % show(nx, 4)[:300])
        elif nx.op == "vec.push" and nx.args[0] is a and strip_strs(nx.args[1]).op == "e":
            seq, p = strip_strs(nx.args[1]).args
            ok = p in L.next and L.init[p] is ONE and simp(L.next[p], L.cont) is add(p, ONE)
            early = FALSE
            for c in live(L):
                early = OR(early, AND(c, lt(p, length(seq)))) if p in L.next else early
            ck.ob(rule, w, ok and early is FALSE, "starts with argument %s, goes on at %s" % (show(L.init.get(p, p), 2), show(L.next.get(p, p), 3)))
        elif nx.op == "vec.push":
            ck.ob(rule, w, False, "passes on %s" % show(nx.args[1], 4)[:300])
        else:
            ck.undecided(rule, w, show(nx, 4)[:200])
    elif a.op == "call" and "env::args" in str(a.args[0]):
        ck.ob(rule, w, False, "the program name is passed on too")
    elif a.op in ("sorted", "rev"):
        ck.ob(rule, w, False, "passes on %s" % show(a, 4)[:300])
    else:
        ck.undecided(rule, w, "arguments %s" % show(a, 4)[:200])
    prints = [x for x in i.events if x.kind == "call" and str(x.callee) == "std::io::_print" and
              any(y.op == "call" and str(y.args[0]) == "ledger_rs_lib::run" for z in x.args if isinstance(z, T) for y in subterms(z))]
    if not prints:
        ck.ob("the program prints the whole result", w, not i.loops or len(i.loops) > 1, "nothing is printed")
        return
    for x in prints:
        t = x.args[0]
        subs = [y for y in subterms(t) if y.op == "call" and str(y.args[0]) == "ledger_rs_lib::run"]
        parts = [y for y in subterms(t) if y.op in PARTIAL and any(z in subs for z in subterms(y))]
        loops = [l for l in x.loops]
        over = [L for l in loops for L in [i.loops.get(l)] if L is not None and any(z in subs for p in L.next for z in subterms(L.cont))]
        for L in over:
            early = FALSE
            for c in live(L):
                for a in support(L.cont):
                    if a.op == "lt" and a.args[1].op == "len" and a.args[1].args[0] in subs:
                        early = OR(early, AND(c, cond(a)))
            ck.ob("the program prints the whole result", "%s at %s" % (x.fn, x.span), early is FALSE, "stops printing when %s" % show(early, 5)[:300])
            pos = [p for p in L.next if any(a.op == "lt" and a.args[0] is p for a in support(L.cont))]
            for p in pos:
                ck.ob("the program prints the whole result", "%s at %s" % (x.fn, x.span), L.init[p] is ZERO and simp(L.next[p], L.cont) is add(p, ONE), "starts at %s, goes on at %s" % (show(L.init[p], 3), show(L.next[p], 3)))
            if pos and e.seq < x.seq:
                ck.ob("the program prints the whole result", "%s at %s" % (x.fn, x.span), implies(L.cont, x.pc), "prints only when %s" % show(x.pc, 4)[:300])
        if any(y.op != "e" for y in parts) or parts and not loops:
            ck.ob("the program prints the whole result", "%s at %s" % (x.fn, x.span), False, "prints %s" % show(t, 5)[:300])
        else:
            ck.ob("the program prints the whole result", "%s at %s" % (x.fn, x.span), True)
        if not loops:
            ck.ob("the program prints the result whenever there is one", "%s at %s" % (x.fn, x.span), implies(e.pc, x.pc), "only when %s" % show(x.pc, 4)[:300])


def check(ck):
    ck.group("run", run)
    ck.group("run_command", run_command)
    ck.group("binary", binary)
    from rules import c12
    ck.part("every file is read", c12.sources, lambda r, w: True)
