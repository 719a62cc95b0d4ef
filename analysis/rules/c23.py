"""C23 Parsing in pieces equals parsing at once.

By induction over the directives this follows from: what one pass of the reader over a directive
does is a function of the lines of that directive and of the journal, and of nothing else.  So
(1) the loop over the directives, analysed as a whole from every entry point, carries nothing from
pass to pass but the journal (and a buffer that is emptied): no other variable that changes from
pass to pass, nor the state of the journal at the start, nor the text as a whole, occurs in the
conditions or effects of a pass; (2) the entry points start that loop on the journal they were
given, as it is, and leave it as the loop leaves it; (3) an included file is read into the same
journal; (4) no function of the reader uses a variable that outlives the call (statics,
thread-locals)."""
from core import *
from rules.c12 import READ, outer, inner, lines_of, chain, where, eof
from rules.c02 import strip_strs

ENTRY = (("crate::parse_text", 1, 0), ("crate::parse_file", 1, 0), ("crate::journal::Journal::read", 0, 1), (READ, 1, 0))


def own(p):
    """phi of a local variable (not of something on the heap)"""
    return p.op == "phi" and not str(p.args[1][0]).startswith("(*")


def main_loop(i, j):
    """the loop that carries the journal"""
    k = "(*%s)" % show(j, 3)
    out = [(L, p) for L in i.loops.values() if not L.outer for p in L.next if p.args[1] == (k,)]
    if len(out) != 1:
        raise AnalysisError("%d loops over the journal" % len(out))
    return out[0]


def passes(ck):
    rule = "a directive depends on its lines and the journal only"
    for path, jn, sn in ENTRY:
        if path not in ck.ctx.prog.by_path:
            continue
        i = ck.run(path)
        j, src = i.params[jn], i.params[sn]
        L, ph = main_loop(i, j)
        w = "%s: %s" % (path, where(L))
        start = mk("deref", j)
        # (2) before
        ini = L.init[ph]
        if any(x.op == "unk" for x in subterms(ini)):
            raise AnalysisError("journal before the loop")
        ck.ob("reading starts from the journal as it is", w, ini is start, "the journal is first changed to %s" % show(ini, 5)[:300])
        # (2) after
        h = simp(heap(i, j), i.out.pc)
        for c, v in leaves(h, i.out.pc):
            if v is ph:
                ck.ob("reading leaves the journal as it read it", w, True)
            elif v is start:
                bad = nothing_read(c, src)
                ck.ob("reading leaves the journal as it read it", w, bad is FALSE, "nothing is read when %s" % show(bad, 5)[:300])
            elif any(x.op in ("unk", "call") for x in subterms(v)):
                ck.undecided("reading leaves the journal as it read it", w, "the journal becomes %s" % show(v, 5)[:300])
            else:
                ck.ob("reading leaves the journal as it read it", w, False, "the journal is changed afterwards to %s" % show(v, 5)[:300])
        # (1) a pass
        allowed = {ph}
        state = [p for p in L.next if own(p)]
        eff = {}
        for p, v in L.next.items():
            if not own(p):
                eff[p] = simp(v, L.cont)
        terms = list(eff.values()) + [L.cont] + [c for c, _ in L.exits]
        seen = set()
        for t in terms:
            seen |= set(subterms(t))
        for p in state:
            nx = strip_strs(simp(L.next[p], L.cont))
            if nx.op == "c" and nx is strip_strs(L.init[p]) or L.next[p] is L.init[p]:
                continue
            ck.ob(rule, "%s: %s" % (w, "/".join(map(str, p.args[1][1:])) or "local"), p not in seen,
                  "what a line does depends on %s, which earlier lines changed to %s" % (show(p, 2), show(nx, 4)[:200]))
        inits = {mk("deref", j)}
        hit = [x for x in seen if x in inits]
        # the initial journal may name objects, but must not be looked into
        look = [x for x in seen if x.args and x.op not in ("xactref", "phi", "rdsite") and any(a in inits for a in x.args if isinstance(a, T))]
        look = [x for x in look if not (x.op == "jrnl.xact")]
        ck.ob(rule, "%s: the journal at the start" % w, not look, "a line is treated by the state of the journal before reading: %s" % "; ".join(show(x, 4) for x in look[:2])[:300])
        texts = [x for x in seen if x.args and x.op not in ("phi", "rdsite", "line", "rl", "xactref") and any(a is src or a.op == "deref" and a.args[0] is src for a in x.args if isinstance(a, T))]
        ck.ob(rule, "%s: the source" % w, not texts, "a line is treated by the source as a whole: %s" % "; ".join(show(x, 4) for x in texts[:2])[:300])


def nothing_read(c, src):
    """c holds although there is something to read"""
    t = strip_strs(mk("deref", src)) if src.op != "deref" else src
    for x in (src, t, strip_strs(src)):
        c = AND(c, cond(nonempty(x)))
    return c


def includes(ck):
    i = ck.run(READ)
    L, j, line = outer(i)
    n = 0
    for k, v in leaves(simp(L.next[j], L.cont), L.cont):
        ops, base = chain(v, i)
        for o in ops:
            if o.op == "jrnl.file":
                n += 1
                ck.ob("an included file is read into the same journal", where(L), base is j and (o.args[0] is j or o is not ops[-1]), "read into %s" % show(base, 4)[:200])
    if not n:
        raise AnalysisError("no file is included")


def globals_(ck):
    i = ck.run(READ)
    names = set(i.seen_fns)
    names |= {ck.ctx.prog.fns[x]["path"] for x in ck.ctx.reachable([ck.ctx.prog.by_path[p] for p, _, _ in ENTRY if p in ck.ctx.prog.by_path]) if x in ck.ctx.prog.fns}
    hid = hidden_state(ck, sorted(names))
    for st, f, sp, once in hid:
        if once:
            ck.undecided("no state outlives the reader", "%s at %s" % (f, sp), "%s is set once" % st)
        else:
            ck.ob("no state outlives the reader", "%s at %s" % (f, sp), False, "reading depends on %s, which earlier calls changed" % st)
    for n in sorted(names):
        if not any(h[1] == n for h in hid):
            ck.ob("no state outlives the reader", n, True)


def check(ck):
    ck.group("passes", passes)
    ck.group("includes", includes)
    ck.group("globals", globals_)
    from rules import c12
    ck.part("every piece is read to its end", c12.ends, lambda r, w: True)
    ck.part("every piece is read to its end", c12.sources, lambda r, w: True)
    ck.part("own lines only", c12.alone, lambda r, w: True)
