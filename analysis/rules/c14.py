"""C14 Transaction headers and notes are recorded as written.

The reader is analysed as a whole (from `read_into_journal`), so every fact is stated over the text
of a line.  (1) What is handed to the journal for a header line is exactly the transaction with the
date, auxiliary date, payee and note that the header grammar selects; (2) storing it keeps those
fields; (3) a note line appends its text to the last posting or, without one, to the transaction,
and any other line leaves all notes alone; (4) the fields are not written elsewhere."""
from core import *
from rules.c02 import strip_strs
from rules.c04 import pay_of
from rules.c18 import foreign, undo

READ = "crate::parser::read_into_journal"
LAST = ("e", mk("last"))
OPT = "std::option::Option"
DATES = {"dparse", "dparses", "line", "rdsite"}


def trim(t):
    return trim_start(trim_end(t))


def header(s, eqs):
    """(date, auxiliary date, payee, note) of a header line"""
    sep = charset(" =")
    date = upto(s, sep)
    r = from_(s, sep)
    aux = AND(mk_exists(chars(s), sep), cond(eq(proj(chars(r), ("e", ZERO)), const("=", "char"))))
    a = eqs(r)
    rest = ite(aux, from_(a, charset(" ")), r)
    note_at = mk("needle", cstr("  ;"))
    pay = apply(None, lambda x: trim(upto(x, note_at)), rest)
    note = apply(None, lambda x: trim(after(x, note_at)), rest)
    return date, ite(aux, upto(a, charset(" ")), cstr("")), pay, note


def option(t, f=lambda x: x):
    return ite(nonempty(t), some(f(t)), NONE)


def day(t):
    return mk("dparse", "NaiveDate", t, cstr("%Y-%m-%d"))


def given(t):
    """t is a date"""
    c = FALSE
    for x, v in leaves(t, TRUE):
        c = OR(c, AND(x, cond(mk("dparses", "NaiveDate", v, cstr("%Y-%m-%d")))))
    return c


def carried(i, p):
    """p keeps text of one line for the next"""
    return any(p in l.next and any(t.op in ("line", "scan.header") for t in subterms(l.next[p])) and
               not any(t.op in ("line", "scan.header") for t in subterms(l.init[p])) for l in i.loops.values())


def headers(ck):
    i = ck.run(READ, without=("header", "create"))
    evs = [e for e in i.events if e.kind == "call" and str(e.callee).endswith("Journal::add_xact")]
    if not evs:
        raise Missing("no call of Journal::add_xact")
    for e in evs:
        x = e.args[1]
        where = "%s, transaction stored at %s" % (e.fn, e.span)
        lines = {t for t in subterms(fldval(x, "date")) if t.op == "line"}
        if has_phi(*[fldval(x, n) for n in ("date", "aux_date", "payee", "note")]) or len(lines) != 1:
            if not lines and not has_phi(fldval(x, "date")):
                ck.ob("date comes from the header line", where, False, "the date is %s" % show(fldval(x, "date"), 6))
                continue
            other = [(n, l) for n in ("date", "aux_date", "payee", "note") for _, l in leaves(fldval(x, n), e.pc)
                     if any(t.op == "f" and t.args[1] == "xacts" or t.op == "phi" and "xacts" in str(t.args[1]) for t in subterms(l))]
            if other:
                ck.ob("header field", "%s: %s" % (where, other[0][0]), False, "taken from an earlier transaction: %s" % show(other[0][1], 5))
                continue
            # the header line is known, and another field rests on state that earlier lines left
            kept = [(n, t) for n in ("aux_date", "payee", "note") for t in subterms(simp(fldval(x, n), e.pc))
                    if t.op == "phi" and len(lines) == 1 and not has_phi(fldval(x, "date")) and carried(i, t)]
            if kept:
                ck.ob("header field", "%s: %s" % (where, kept[0][0]), False, "depends on what an earlier line left in %s" % show(kept[0][1], 5))
                continue
            raise AnalysisError("header fields depend on %d lines" % len(lines))
        line = lines.pop()
        s = trim_end(line)
        for n, name, want in (("date", 0, lambda t: option(t, day)), ("aux_date", 1, lambda t: option(t, day)),
                              ("payee", 2, lambda t: ite(nonempty(t), t, cstr("Unknown Payee"))), ("note", 3, option)):
            got = strip_strs(simp(fldval(x, n), e.pc))
            bad = foreign(got, DATES | {"trim_start_matches", "dropprefix"})
            if bad:
                ck.undecided("header field", "%s: %s" % (where, n), "operators %s" % bad)
                continue
            alts = []
            for eqs in (lambda r: mk("trim_start_matches", r, charset("=")), lambda r: slice_(r, ONE, NULL), lambda r: mk("dropprefix", r, cstr("="))):
                for l in (s, trim_start(s), line):
                    if l is line and n in ("date", "aux_date"):
                        continue
                    t = header(l, eqs)[name]
                    pcs = [e.pc]
                    if n in ("date", "aux_date"):   # dates in other formats are not dates of the language
                        t = strip_strs(t)
                        pcs = [AND(e.pc, NOT(cond(nonempty(t)))), AND(AND(e.pc, cond(nonempty(t))), given(t))]
                    alts.append((strip_strs(apply(None, want, t) if n != "payee" else want(t)), pcs))
            ck.ob("header field", "%s: %s" % (where, n),
                  any(all(same_opt(simp(got, pc), simp(w, pc), pc) for pc in pcs if pc is not FALSE) for w, pcs in alts),
                  "%s is %s, not %s" % (n, show(got, 9)[:600], show(alts[0][0], 9)[:600]))
        ck.ob("a new transaction has no postings", where, length(fldval(x, "posts")) is ZERO, "postings %s" % show(fldval(x, "posts"), 4))


def same_opt(a, b, pc):
    """equal, comparing optional values by presence and content"""
    if same(a, b, pc):
        return True
    pa, pb = is_variant(a, OPT, "Some"), is_variant(b, OPT, "Some")
    if pa.op == "is" or pb.op == "is":
        return False
    pa, pb = cond(pa), cond(pb)
    if AND(pc, AND(pa, NOT(pb))) is not FALSE or AND(pc, AND(pb, NOT(pa))) is not FALSE:
        return False
    pc = AND(pc, pa)
    return pc is FALSE or same(pay_of(simp(a, pc)), pay_of(simp(b, pc)), pc)


def stored(ck):
    """Journal::add_xact keeps the header fields"""
    p = "crate::journal::Journal::add_xact"
    i = ck.run(p, without=("xact",))
    s, x = i.params[:2]
    pushes = [e for e in i.events if e.kind == "push" and e.args[0].op == "ref" and e.args[0].args[0] == ("H", s)]
    if len(pushes) != 1:
        raise AnalysisError("%d additions to the journal" % len(pushes))
    v = pushes[0].args[1]
    if v.op == "box":
        v = v.args[0]
    for n in ("date", "aux_date", "payee", "note"):
        ck.ob("stored transaction keeps its header", "%s: %s" % (p, n), same(fldval(v, n), fldval(x, n), pushes[0].pc), "becomes %s" % show(fldval(v, n), 5))


def part(phi):
    """last component of the place a loop variable stands for"""
    return phi.args[1][-1], phi.args[1][0]


def note_loop(i):
    """the loop that reads the lines of a transaction: (loop, postings, note, line)"""
    out = []
    for L in i.loops.values():
        ps = [p for p in L.next if part(p)[0] == "posts" and part(p)[1].startswith("(*xactref")]
        ps = [p for p in ps if any(x.op == "vec.push" and x.args[0] is p for x in subterms(L.next[p]))]
        for p in ps:
            ns = [q for q in L.next if part(q)[0] == "note" and part(q)[1] == part(p)[1]]
            lines = {t for t in subterms(L.next[p]) if t.op == "line" and not any(t in subterms(v) for v in L.init.values())} or \
                {t for t in subterms(L.cont) if t.op == "line"}
            out.append((L, p, ns[0] if ns else None, lines))
    return out


def notes(ck):
    i = ck.run(READ)
    ls = note_loop(i)
    if len(ls) != 1:
        raise AnalysisError("%d loops read the lines of a transaction" % len(ls))
    L, posts, note, lines = ls[0]
    lines = {t for t in subterms(L.cont) if t.op == "line"}
    if len(lines) != 1:
        raise AnalysisError("%d lines are looked at in one pass" % len(lines))
    line = lines.pop()
    where = "%s loop at %s" % (L.fn["path"] if isinstance(L.fn, dict) else L.fn, L.span)
    body = trim_start(line)
    isnote = cond(eq(proj(chars(body), ("e", ZERO)), const(";", "char")))
    blank = cond(eq(proj(chars(line), ("e", ZERO)), const(" ", "char")))
    pc = AND(AND(L.cont, isnote), AND(mk_hasnonws(line), blank))
    if not ck.ob("note lines are part of the transaction", where, pc is not FALSE, "a line with a note is not accepted"):
        return
    text = trim(slice_(body, ONE, NULL))
    has = mk_hasnonws(slice_(body, ONE, NULL))
    some_posts = cond(nonempty(posts))
    xnote = note if note is not None else fldval(mk("?"), "note")
    steps = (LAST, ("b",), ("f", "note"))

    def appended(rule, old, new, c):
        # absent: the text; present: the old note, and the text at the end
        is_old = cond(is_variant(old, OPT, "Some"))
        for o in (True, False):
            cc = AND(c, is_old if o else NOT(is_old))
            for k, v in leaves(simp(new, cc), cc):
                inside = cond(is_variant(v, OPT, "Some"))
                if not ck.ob(rule, where, AND(k, NOT(inside)) is FALSE, "the note is absent afterwards"):
                    continue
                g = strip_strs(simp(pay_of(v), k))
                t = strip_strs(text)
                if o:
                    okv = g.op == "concat" and same(g.args[0], strip_strs(pay_of(old)), k) and same(g.args[-1], t, k) and \
                        all(z.op == "c" for z in g.args[1:-1]) and "".join(z.args[-1] for z in g.args[1:-1]).isspace()
                else:
                    okv = same(g, t, k)
                ck.ob(rule, where, okv, "the note becomes %s" % show(g, 6))

    # with a posting
    c = AND(AND(pc, has), some_posts)
    np, nn = simp(L.next[posts], c), simp(L.next[note], c) if note is not None else None
    got = projs(np, steps)
    appended("note of the last posting", projs(posts, steps), got, c)
    for k, v in leaves(np, c):
        ck.ob("a note changes nothing else", where, undo(update(v, steps, projs(posts, steps))) is posts, "the postings become %s" % show(v, 5))
    if note is not None:
        ck.ob("a note changes nothing else", where, same(nn, note, c), "the transaction's note becomes %s" % show(nn, 5))
    # without
    c = AND(AND(pc, has), NOT(some_posts))
    if note is None:
        ck.ob("note of the transaction", where, c is FALSE, "a note before the first posting is not recorded")
    else:
        appended("note of the transaction", note, simp(L.next[note], c), c)
        ck.ob("a note changes nothing else", where, same(simp(L.next[posts], c), posts, c), "the postings change")
    # empty note, and lines that are no notes
    for c, what in ((AND(pc, NOT(has)), "an empty note"), (AND(AND(L.cont, NOT(isnote)), mk_hasnonws(line)), "a posting")):
        if c is FALSE:
            continue
        if note is not None:
            ck.ob("only notes change notes", "%s: %s" % (where, what), same(simp(L.next[note], c), note, c), "the transaction's note becomes %s" % show(simp(L.next[note], c), 5))
        for k, v in leaves(simp(L.next[posts], c), c):
            if v.op == "vec.push":
                ck.ob("only notes change notes", "%s: %s" % (where, what), v.args[0] is posts, "earlier postings become %s" % show(v.args[0], 5))
            else:
                ck.ob("only notes change notes", "%s: %s" % (where, what), v is posts, "the postings become %s" % show(v, 5))


def mk_hasnonws(t):
    return cond(nonempty(trim(t)))


def confine(ck):
    seen = set(ck.ctx.run(READ, without=("header", "create")).seen_fns)
    for o, n in (("Xact", "date"), ("Xact", "aux_date"), ("Xact", "payee"), ("Xact", "note"), ("Post", "note")):
        for w, sp in writers(ck.ctx.prog, o, n).items():
            ck.ob("fields are written only by the reader", "%s.%s in %s" % (o, n, w), w in seen, "at %s" % sp[0][1])


def check(ck):
    ck.group("headers", headers)
    ck.group("stored", stored)
    ck.group("notes", notes)
    ck.group("confinement", confine)
