"""C19 A price lookup combines the latest recorded prices along a conversion path.

(1) `get_direct_price` gives the entry of the pair's price map with the greatest time, or nothing
without one; (2) `find_price` searches a path from the source to the target in which every
recorded pair counts one step; without one it answers None, for a single step it gives the direct
price, otherwise (3) the pass over the path multiplies, starting from one, the latest price of
each consecutive pair and keeps the earliest date; (4) the answer is in the target commodity, and
no lookup writes anything."""
from core import *
from rules.c04 import deep_eval, pay_of
from rules.c18 import early_exit

HIST = "crate::history::CommodityHistory"


def latest(m):
    """(time, quantity) of the newest entry of a price map"""
    k = proj(mk("keys", m), ("e", mk("last")))
    return k, proj(m, ("e", k))


def valof(i, t):
    return i.deep(i.out, t)


def direct(ck):
    p = HIST + "::get_direct_price"
    i = ck.run(p)
    s, a, b = i.params[:3]
    g = mk("deref", s)
    m = proj(g, ("e", mk("edgeid", a, b)))
    ck.ob("always answers", p, i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 4))
    r = valof(i, i.ret)
    has, ne = cond(mk("hasedge", g, a, b)), nonempty(m)
    want = ite(AND(has, ne), some(tup(*latest(m))), NONE)
    if has_phi(r) or any(x.op in ("call", "fold", "first") for x in subterms(r)):
        raise AnalysisError("the newest entry is searched in a way not understood: %s" % show(r, 5))
    ck.ob("latest price of the pair", p, same(r, want), "gives %s, not %s" % (show(r, 7), show(want, 7)))
    readonly(ck, i, p)


def readonly(ck, i, p):
    st = [e for e in i.events if e.kind == "store" and e.args[0].op == "ref" and e.args[0].args[0][0] == "H"]
    ck.ob("a lookup changes nothing", p, not st, "writes %s at %s" % (show(st[0].args[0], 5), st[0].span) if st else "")


def search(ck):
    p = HIST + "::find_price"
    i = ck.run(p)
    s, sp, tp = i.params[:3]
    g = mk("deref", s)
    src = pay_of(fldval(mk("deref", sp), "graph_index"))
    tgt = pay_of(fldval(mk("deref", tp), "graph_index"))
    readonly(ck, i, p)
    calls = [e for e in i.events if e.kind == "call" and str(e.callee).endswith("algo::astar")]
    if len(calls) != 1:
        raise AnalysisError("%d path searches" % len(calls))
    e = calls[0]
    ck.ob("searches the recorded pairs", p, valof(i, e.args[0]) is g, "searches %s" % show(e.args[0], 4))
    ck.ob("path starts at the source", p, e.args[1] is src, "starts at %s" % show(e.args[1], 4))
    A = e.res
    node = mk("param", "node")
    closures(ck, i, p, e, node, tgt)
    isA = cond(is_variant(A, "std::option::Option", "Some"))
    path = fldval(pay_of(A), "1")
    dist = fldval(pay_of(A), "0")
    none = simp(i.ret, AND(i.out.pc, NOT(isA)))
    ck.ob("no path, no price", p, none is NONE, "gives %s" % show(none, 4))
    gi = AND(cond(is_variant(fldval(mk("deref", sp), "graph_index"), "std::option::Option", "Some")),
             cond(is_variant(fldval(mk("deref", tp), "graph_index"), "std::option::Option", "Some")))
    need = AND(AND(gi, NOT(isA)), NOT(cond(eq(sp, tp))))
    ck.ob("no path, no price", p, AND(need, NOT(i.out.pc)) is FALSE, "fails when %s" % show(AND(need, NOT(i.out.pc)), 4))
    one = cond(eq(dist, ONE))
    m = proj(g, ("e", mk("edgeid", src, tgt)))
    n = 0
    for L in i.loops.values():
        for x in L.next:
            if L.init[x] in (ZERO, ONE) and L.next[x] is add(x, ONE) and any(y.op == "e" and y.args == (path, x) for z in L.next.values() for y in subterms(z)):
                early_exit(ck, "whole path", "%s loop" % L.fn, L, cond(lt(x, length(path))))
    for c, l in leaves(simp(i.ret, AND(i.out.pc, isA)), AND(i.out.pc, isA)):
        if not (l.op == "agg" and l.args[1] == "Some"):
            ck.ob("a path gives a price", p, False, "gives %s when %s" % (show(l, 4), show(c, 4)))
            continue
        pp = l.args[3]
        am = fldval(pp, "price")
        ck.ob("price in the target commodity", p, strip_content(fldval(am, "commodity")) is tp, "in %s" % show(fldval(am, "commodity"), 4))
        for c1, w in leaves(fldval(pp, "when"), c):
            for c2, q in leaves(fldval(am, "quantity"), c1):
                n += 1
                if implies(c2, one):
                    lw, lq = latest(m)
                    ck.ob("direct price", p, same(w, lw) and same(q, lq), "gives %s at %s" % (show(q, 6), show(w, 6)))
                else:
                    chain(ck, i, p, q, w, path, g, src)
    ck.ob("floor", p, n >= 1, "no price is given")


def closures(ck, i, p, e, node, tgt):
    """goal = target; each recorded pair costs one; no estimate"""
    prog = ck.ctx.prog
    for k, what in ((2, "path ends at the target"), (3, "every pair is one step"), (4, "no estimate")):
        cl = e.args[k]
        ids = cl.args[0] if cl.op == "agg" else None
        f = prog.fns.get(cl.args[1]) if cl.op == "agg" and cl.args[0] == "closure" else None
        if f is None:
            ck.undecided(what, p, "closure not found")
            continue
        j = ck.run(f)
        v = j.ret
        if k == 2:
            a = j.params[1] if len(j.params) > 1 else None
            up = [x for x in subterms(v) if x.op in ("f", "deref", "param")]
            cap = i.deep(i.out, cl.args[3]) if len(cl.args) > 3 else None
            okc = v.op == "ite" and v.args[0].op == "eq" and v.args[1] is TRUE and v.args[2] is FALSE and a in v.args[0].args
            ck.ob(what, p, okc and len(cl.args) == 4 and cap is tgt, "ends at %s with %s" % (show(v, 5), show(cap, 5) if cap is not None else "nothing"))
        elif k == 3:
            ck.ob(what, p, v is ONE, "costs %s" % show(v, 4))
        else:
            ck.ob(what, p, v is ZERO, "estimates %s" % show(v, 4))


def unfold(t):
    """a fold over a list with a last element: the step with that element after the fold over the rest"""
    if t.op == "fold":
        seq, ini, b, step = t.args[:4]
        if seq.op == "vec.new":
            return ini
        if seq.op == "vec.push":
            e = mk("e", seq, b)
            r = subst(step, {mk("acc", b.args[0]): unfold(mk("fold", seq.args[0], ini, b, subst(step, {e: mk("e", seq.args[0], b)}, rebuild), *t.args[4:])), e: seq.args[1]}, rebuild)
            return r if seq not in set(subterms(r)) else t
    return t


def chain(ck, i, p, q, w, path, g, src):
    qs = [x for x in subterms(q) if x.op == "phi"]
    ws = [x for x in subterms(w) if x.op == "phi"]
    if len(qs) != 1 or len(ws) != 1 or qs[0].args[0] != ws[0].args[0]:
        raise AnalysisError("the combined price is %s at %s" % (show(q, 4), show(w, 4)))
    qp, wp = qs[0], ws[0]
    L = next(L for L in i.loops.values() if qp in L.next)
    if wp not in L.next:
        raise AnalysisError("date of another loop")
    idx = [x for x in L.next if L.init[x] in (ZERO, ONE) and L.next[x] is add(x, ONE)]
    inside = None
    for x in idx:
        if any(y.op == "e" and y.args == (path, x) for y in subterms(L.next[qp])):
            inside, ix = cond(lt(x, length(path))), x
    if inside is None:
        raise AnalysisError("not a pass over the path")
    cur = proj(path, ("e", ix))
    prev = [x for x in L.next if x not in (qp, wp, ix)]
    prev = [x for x in prev if L.init[x] is src]
    if len(prev) != 1:
        raise AnalysisError("previous commodity of the path not found")
    pv = prev[0]
    where = "%s loop" % L.fn
    one = qinit(L.init[qp], q, qp)
    ck.ob("starts from one", where, one, "starts from %s" % show(L.init[qp], 4))
    for again in (True, False) if L.init[ix] is ZERO else (False,):
        for older in (True, False):
            m = proj(g, ("e", mk("edgeid", pv, cur)))
            lw, lq = latest(m)

            def val(at):
                if at.op == "eq" and set(at.args) in ({pv, cur}, {src, cur}, {ix, ZERO}):
                    return again        # a path starts at the source and meets no commodity twice
                if at.op == "lt" and set(at.args) == {lw, wp}:
                    return older if at.args[0] is lw else not older
                if at.op == "is" and at.args[0] is wp:
                    return None
                return None
            pc = AND(cond(deep_eval(L.cont, val)), inside)
            nq = [unfold(simp(deep_eval(subst(q, {qp: L.next[qp]}, rebuild), val), pc))]
            nw = simp(deep_eval(L.next[wp], val), pc)
            np_ = simp(deep_eval(L.next[pv], val), pc)
            case = "%s [%s]" % (where, "same commodity again" if again else "older price" if older else "newer price")
            if again:
                ck.ob("step", case, same(nq[0], q, pc) and np_ is pv and same(nw, wp, pc), "a repeated commodity changes the price")
                continue
            ck.ob("step multiplies the latest price of the pair", case, same(nq[0], dec_bin("mul", q, lq), pc), "the price becomes %s" % show(nq[0], 7))
            ck.ob("step goes on from its commodity", case, np_ is cur, "goes on from %s" % show(np_, 4))
            if any(x.op == "is" for x in subterms(nw)):
                ck.undecided("earliest date", case, "date kept as %s" % show(nw, 5))
            else:
                ck.ob("earliest date", case, same(nw, lw if older else wp, pc), "the date becomes %s" % show(nw, 6))
    mx = L.init[wp]
    if mx.op == "call":
        ck.ob("earliest date", where, False, "starts from %s" % show(mx, 4))
    elif not (mx.op == "citem" and mx.args[0].endswith(("::MAX", "::MAX_UTC"))):
        ck.undecided("earliest date", where, "starts from %s" % show(mx, 4))
    else:
        ck.ob("earliest date", where, True)


def qinit(v, q, qp):
    v = unfold(subst(q, {qp: v}, rebuild))
    return v.op == "citem" and v.args[0].endswith("::ONE") or v.op == "dec.const" and str(v.args[0]) in ("1",) or \
        v.op == "dec.const" and isinstance(v.args[0], T) and v.args[0] is ONE


def check(ck):
    ck.group("direct price", direct)
    ck.group("path search", search)
