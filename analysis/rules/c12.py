"""C12 Every line is read once, alone, and nothing is silently skipped.

The reader is analysed as a whole from `read_into_journal`.  (1) A line is only read into an empty
buffer and the text handed on is that of the line just read; (2) the loops over lines are left
without failing only at the end of the input (or, inside a transaction, at a blank line); (3) in the
decision tree of one pass over a line, the journal is left as it was only for blank lines, comment
lines and lines starting with '-', digits start a transaction that is finalized on every way out,
`include` reads exactly the file it names, and each other way on changes the journal; (4) inside a
transaction each line adds a posting or a note; (5) the entry points hand the whole source on."""
from core import *
from rules.c02 import strip_strs
from rules.c14 import READ, note_loop, mk_hasnonws, trim, part
from rules.c15 import char_is
from rules.c18 import foreign

COMMENT = ";#*|"
IGNORED = COMMENT + "-"
READERS = {"read_line", "new", "with_capacity", "get_ref", "get_mut"}


def lines_of(*ts):
    return {t for x in ts for t in subterms(x) if t.op == "line"}


def reads(i):
    return [e for e in i.events if e.kind == "read_line"]


def line_of(e):
    return mk("line", e.res.args[0]) if e.res is not None and e.res.op == "rl" else None


def eof(line):
    r = mk("rl", line.args[0])
    n = pay(r, "Ok")
    isok = cond(is_variant(r, "std::result::Result", "Ok"))
    return AND(isok, OR(cond(eq(n, ZERO)), NOT(cond(nonempty(line)))))


def outer(i):
    """the loop over the directives, its journal and the line of a pass"""
    out = []
    for L in i.loops.values():
        for p in L.next:
            if len(p.args[1]) == 1 and p.args[1][0] == "(*journal)" and L.init[p].op == "deref":
                out.append((L, p))
    if len(out) != 1:
        raise AnalysisError("%d loops over the lines of a journal" % len(out))
    L, p = out[0]
    ls = {t for t in lines_of(L.cont) if not any(t in lines_of(M.cont) for M in i.loops.values() if M is not L)}
    if len(ls) != 1:
        raise AnalysisError("%d lines are looked at in one pass over the journal" % len(ls))
    return L, p, ls.pop()


def inner(i):
    ls = note_loop(i)
    if len(ls) != 1:
        raise AnalysisError("%d loops read the lines of a transaction" % len(ls))
    L, posts = ls[0][:2]
    lines = lines_of(L.cont)
    if len(lines) != 1:
        raise AnalysisError("%d lines are looked at in one pass over a transaction" % len(lines))
    return L, posts, lines.pop()


def chain(t, i, stop=None):
    """operators applied to a journal, last first"""
    inits = {p: L.init[p] for L in i.loops.values() for p in L.next}
    out = []
    while True:
        if t.op.startswith("jrnl."):
            out.append(t)
            t = t.args[0]
        elif t.op == "upd":
            v = t.args[2]
            while v.op.startswith("pool."):
                out.append(v)
                v = v.args[0]
            if v.op not in ("f", "phi"):
                out.append(v)
            t = t.args[0]
        elif t.op == "phi" and t is not stop and inits.get(t) is not None and inits[t].op.startswith("jrnl."):
            t = inits[t]        # a loop over part of the input of this pass
        else:
            return out, t


def where(L):
    return "%s, loop at %s" % (L.fn, L.span)


def alone(ck):
    i = ck.run(READ)
    evs = reads(i)
    if not evs:
        raise Missing("no read_line in the reader")
    for e in evs:
        old = strip_strs(simp(e.args[2], e.pc))
        w = "%s, line read at %s" % (e.fn, e.span)
        if old.op == "c":
            ck.ob("lines are read into an empty buffer", w, old.args[1] == "", "the buffer holds %s" % show(old))
        elif lines_of(old) or old.op == "phi":
            ck.ob("lines are read into an empty buffer", w, False, "the buffer still holds %s" % show(old, 5))
        else:
            ck.undecided("lines are read into an empty buffer", w, "buffer %s" % show(old, 5))
    other = set()
    for f in i.seen_fns:
        for c in calls_of(ck.ctx.prog, ck.ctx.prog.by_path[f]) if f in ck.ctx.prog.by_path else ():
            if c["kind"] == "call" and ("io::" in c["name"] or "io::" in str(c["callee"].get("trait"))) and not c["name"].startswith("crate::"):
                other.add((c["name"].split("::")[-1], f, c["span"]))
    for m, f, sp in sorted(other, key=str):
        if m in ("take", "consume", "skip_until", "seek", "seek_relative", "read_until", "read_exact", "read", "lines", "split", "bytes", "fill_buf", "skip"):
            ck.ob("lines are only read one after another", "%s: %s at %s" % (f, m, sp), m not in ("take", "consume", "skip_until", "seek", "seek_relative", "skip"),
                  "skips part of the input")
            if m not in ("take", "consume", "skip_until", "seek", "seek_relative", "skip"):
                raise AnalysisError("another way of reading: %s" % m)
    for e in i.events:
        if e.kind == "call" and str(e.callee).split("::")[-1] in ("scan_post", "tokenize_xact_header", "parse_price_directive"):
            ls = lines_of(*[a for a in e.args if isinstance(a, T)])
            ck.ob("a line is interpreted on its own", "%s at %s" % (str(e.callee).split("::")[-1], e.span), len(ls) == 1, "the text is made of %d lines" % len(ls))
    # every line that is read is looked at
    used = set()
    for L in i.loops.values():
        used |= lines_of(L.cont, *[v for v in L.next.values()], *[c for c, _ in L.exits])
    for e in evs:
        l = line_of(e) or None
        if l is not None:
            ck.ob("each line that is read is looked at", "%s, line read at %s" % (e.fn, e.span), l in used, "the line is dropped")


def ends(ck):
    i = ck.run(READ)
    L, j, line = outer(i)
    c = inside_exits(i.out.pc)
    if not any(a.op == "exit" for a in support(i.out.pc)):
        live = [x for x in L.exits if x not in L.dead]
        if len(live) != 1:
            raise AnalysisError("%d ways out of the loop over the journal" % len(live))
        c = AND(c, live[0][0])
    bad = AND(c, NOT(eof(line)))
    ck.ob("a journal is read to its end", where(L), bad is FALSE, "reading stops without an error when %s" % show(bad, 6)[:400])


def plain_tests(c, line):
    """only tests of the line and of the result of reading it"""
    return not foreign(c, {"line", "rdsite", "rl", "exit", "v", "is", "eq"})


def dispatch(ck):
    i = ck.run(READ)
    L, j, line = outer(i)
    w = where(L)
    nx = simp(L.next[j], L.cont)
    text = AND(mk_hasnonws(line), NOT(OR(cond(eq(line, cstr("\n"))), cond(eq(line, cstr("\r\n"))))))
    text = AND(text, cond(nonempty(line)))
    ign = FALSE
    for c in IGNORED:
        ign = OR(ign, char_is(line, 0, c))
    for c in COMMENT:
        ign = OR(ign, char_is(trim_start(line), 0, c))
    more = AND(text, NOT(ign))
    digits = FALSE
    for c in "0123456789":
        digits = OR(digits, char_is(line, 0, c))
    for k, v in leaves(nx, L.cont):
        ops, base = chain(v, i)
        k = inside_exits(k)
        if v is j or not ops:
            if base is not j:
                ck.undecided("only blank and comment lines are ignored", w, "journal becomes %s" % show(v, 4))
                continue
            bad = AND(k, more)
            ck.ob("only blank and comment lines are ignored", w, bad is FALSE, "a line is skipped when %s" % shorter(bad))
            continue
        names = [o.op for o in ops]
        if AND(AND(k, digits), text) is not FALSE:
            ck.ob("a transaction is finalized", w, "jrnl.finalize" in names, "%s ends with %s" % (shorter(AND(k, digits)), names))
        for o in ops:
            if o.op == "jrnl.file":
                included(ck, w, o, line, k)
            if o.op == "pool.pdir":
                ck.ob("price directives are passed on whole", w, strip_strs(trim_end(o.args[1])) is trim_end(line) or strip_strs(trim(o.args[1])) is trim(line),
                      "passes on %s" % show(o.args[1], 5))
    # what is ignored does not fail
    r = mk("rl", line.args[0])
    got = AND(cond(is_variant(r, "std::result::Result", "Ok")), AND(NOT(cond(eq(pay(r, "Ok"), ZERO))), cond(nonempty(line))))
    blank = [(cond(eq(line, cstr(s))), repr(s)) for s in ("\n", "\r\n")] + [(char_is(line, 0, c), "lines starting with " + c) for c in IGNORED]
    for c, what in blank:
        bad = AND(AND(got, c), NOT(L.cont))
        if foreign(bad, {"line", "rdsite", "rl", "hasnonws", "trim_start", "trim_end"}):
            ck.undecided("blank and comment lines are accepted", "%s: %s" % (w, what), "operators")
            continue
        ck.ob("blank and comment lines are accepted", "%s: %s" % (w, what), bad is FALSE, "fails when %s" % shorter(bad))
        c = AND(AND(got, c), L.cont)
        ck.ob("blank and comment lines change nothing", "%s: %s" % (w, what), same(simp(L.next[j], c), j, c), "the journal becomes %s" % show(simp(L.next[j], c), 4))
    for d in "0123456789":
        ck.ob("lines starting with a digit are transactions", "%s: %s" % (w, d), AND(L.cont, char_is(line, 0, d)) is not FALSE, "never accepted")
    ws = {str(e.callee).split("::")[-1]: e for e in i.events if e.kind == "call"}
    for n, c, what in (("include", cond(eq(upto(trim_start(line), charset(RUST_WS)), cstr("include"))), "jrnl.file"), ("P", char_is(line, 0, "P"), "pool.pdir")):
        c = AND(L.cont, AND(c, NOT(AND(digits, digits)) if n == "P" else c))
        nx = L.next[j]
        if n == "P":
            # the line starts with a letter: there is nothing to trim
            m = {mk("trim_start", line): line}
            c, nx = AND(cond(subst(c, m, rebuild)), char_is(line, 0, "P")), subst(nx, m, rebuild)
        ok = c is not FALSE and any(any(o.op == what for o in chain(v, i)[0]) for _, v in leaves(simp(nx, c), c))
        ck.ob("%s directives are processed" % n, w, ok, "not processed")


def included(ck, w, o, line, k):
    ws = charset(RUST_WS)
    word = upto(trim_start(from_(trim_start(line), ws)), ws)
    rest = trim(from_(trim_start(line), ws))
    for c, v in leaves(strip_strs(simp(o.args[1], k)), k):
        v = strip_strs(v)
        if v.op == "pathjoin":
            base = v.args[0]
            if not any(x.op == "call" and "current_dir" in str(x.args[0]) for x in subterms(base)) or lines_of(base):
                ck.ob("include reads the file it names", w, not lines_of(base), "the directory is %s" % show(base, 5))
                continue
            v = v.args[1]
        if same(v, word, c) or same(v, rest, c):
            ck.ob("include reads the file it names", w, True)
        elif foreign(v, {"line", "rdsite", "pathjoin"}) and not stripped(v):
            ck.undecided("include reads the file it names", w, "operators %s" % foreign(v, {"line", "rdsite"}))
        else:
            ck.ob("include reads the file it names", w, False, "reads %s" % show(v, 6))


def stripped(v):
    """something other than white space is cut off the ends"""
    ms = [x for x in subterms(v) if x.op in ("trim_start_matches", "trim_end_matches", "trim_matches")]
    return any(x.args[1].op == "needle" or x.args[1].op == "cs" and not set(x.args[1].args[0]) <= set(RUST_WS + "\"'") for x in ms)


def shorter(c):
    return show(c, 5)[:400]


def contents(ck):
    """lines of a transaction"""
    i = ck.run(READ)
    M, j, head = outer(i)
    L, posts, line = inner(i)
    w = where(L)
    # ways out that do not fail
    site = line.args[0]
    xs = {a for t in [M.cont] + list(M.next.values()) for a in support(t) if a.op == "exit" and site in subterms(a.args[1])}
    adds = [e for e in i.events if e.kind == "call" and str(e.callee).endswith("Journal::add_xact")]
    if len(adds) != 1:
        raise AnalysisError("%d places start a transaction" % len(adds))
    pc = AND(M.cont, adds[0].pc)
    bad = FALSE
    for a in xs:
        c = AND(AND(pc, cond(a)), a.args[1])
        for b in xs:
            if b is not a:      # there is one way out
                c = AND(c, NOT(cond(b)))
        b = AND(AND(c, NOT(eof(line))), mk_hasnonws(line))
        bad = OR(bad, b)
    if not xs:
        raise AnalysisError("ways out of the transaction are not separated")
    ck.ob("a transaction ends only at a blank line or the end", w, bad is FALSE, "ends when %s" % shorter(bad))
    # postings
    body = trim_start(line)
    note = char_is(body, 0, ";")
    c = AND(AND(L.cont, NOT(note)), mk_hasnonws(line))
    for k, v in leaves(simp(L.next[posts], c), c):
        ck.ob("each posting line adds a posting", w, v.op == "vec.push" and v.args[0] is posts, "the postings become %s when %s" % (show(v, 4), shorter(k)))
        if v.op == "vec.push":
            ls = lines_of(v.args[1])
            xacts = {x for x in subterms(v.args[1]) if x.op == "xactref"}
            own = {x for t in xacts for x in lines_of(t)}
            ck.ob("a posting is made of its own line", w, not (ls - own - {line}), "made of %d lines" % len(ls))
    for p in L.next:
        if p.args[1] == j.args[1]:
            for k, v in leaves(simp(L.next[p], L.cont), L.cont):
                bad = [o.op for o in chain(v, i, p)[0] if o.op in ("jrnl.finalize", "jrnl.xact", "jrnl.file", "pool.pdir")]
                ck.ob("lines of a transaction belong to it", w, not bad, "a line leads to %s when %s" % (bad, shorter(k)))
    # the transaction finalized is the one started
    for e in i.events:
        if e.kind == "call" and str(e.callee) == "crate::xact::finalize":
            x = e.args[0]
            ok = x.op == "ref" and x.args[0][0] == "H" and x.args[0][1].op == "xactref" or x.op == "xactref"
            if ok:
                ck.ob("the transaction finalized is the one that was started", "%s at %s" % (e.fn, e.span), lines_of(x) == {head}, show(x, 5))
            else:
                ck.undecided("the transaction finalized is the one that was started", e.fn, show(x, 4))


def sources(ck):
    for p in ("crate::parse_file", "crate::parse_text", "crate::journal::Journal::read"):
        if p not in ck.ctx.prog.by_path:
            continue
        i = ck.run(p)
        evs = [e for e in i.events if e.kind == "call" and "BufReader" in str(e.callee) and str(e.callee).endswith(("new", "with_capacity"))]
        if not evs:
            ck.undecided("the whole source is read", p, "no reader is made")
            continue
        for e in evs:
            v = strip_strs(e.args[-1])
            while v.op.startswith("io.") or v.op == "bytesof" or v.op == "ref" and v.args[0][0] == "V" and not v.args[1]:
                v = strip_strs(v.args[0][1] if v.op == "ref" else v.args[0])
            s = i.params[0]
            want = [i.params[0], i.params[1]] if p.endswith("read") else [s]
            opened = [strip_strs(pay(mk("call", "File::open", x), "Ok")) for x in want]
            okv = any(v is strip_strs(x) for x in want) or v in opened
            cut = {x.op for x in subterms(v)} & {"slice", "upto", "from", "after"} or \
                {str(x.args[0]) for x in subterms(v) if x.op == "call" and str(x.args[0]).split("::")[-1] in ("take", "skip", "chain")}
            if okv or cut:
                ck.ob("the whole source is read", "%s at %s" % (p, e.span), okv, "reads %s" % show(v, 5))
            else:
                ck.undecided("the whole source is read", p, "reads %s" % show(v, 5))


def counted(ck):
    p = "crate::journal::Journal::read"
    i = ck.run(p)
    if i.ret is None or i.ret is UNIT:
        raise Missing("Journal::read returns nothing")
    rule = "the number of transactions read is returned"
    old = length(fldval(mk("deref", i.params[0]), "xacts"))
    new = length(fldval(i.load_ref(i.out, i.params[0]), "xacts"))
    for c, t in leaves(i.ret, i.out.pc):
        if t is sub(new, old):
            ck.ob(rule, p, True)
        elif t is new or t is old or t.op == "c":
            ck.ob(rule, p, False, "returns %s" % show(t, 5))
        elif t.op == "fold" and t.args[1] is ZERO:
            acc = mk("acc", t.args[2].args[0])
            ls = list(leaves(t.args[3]))
            if any(l is acc for _, l in ls):
                ck.ob(rule, p, False, "counts only some of them: %s" % show(t, 5))
            elif all(l is add(acc, ONE) for _, l in ls) and same(length(t.args[0]), sub(new, old), c):
                ck.ob(rule, p, True)
            else:
                ck.undecided(rule, p, "returns %s" % show(t, 5))
        else:
            ck.undecided(rule, p, "returns %s" % show(t, 5))


def check(ck):
    ck.group("counted", counted)
    ck.group("lines alone", alone)
    ck.group("ends", ends)
    ck.group("dispatch", dispatch)
    ck.group("contents", contents)
    ck.group("sources", sources)
