"""C09 One commodity per symbol.

`find_or_create`, `create`, `find` and `find_index` of the pool are compared, in the cases (symbol
empty, known, unknown), with their specification: an unknown symbol gets a new commodity stored
under exactly that symbol and linked into the price graph; a known one gives the stored one and
changes no commodity; an empty one gives none.  Nothing else adds, replaces, removes or renames
commodities, and commodities compare equal only with equal symbols.  What asks for a commodity
(postings, costs, lots, price directives) asks for the symbol as written."""
from core import *
from rules.c04 import deep_eval, pay_of
from rules.c02 import strip_strs
from rules.c08 import strip_refs, norm_refs

POOL = "crate::pool::CommodityPool"


def world(m, sym, ne, known):
    def w(at):
        if at.op == "nonempty" and strip_strs(at.args[0]) is strip_strs(sym):
            return ne
        if at.op == "has" and at.args[0] is m and strip_strs(at.args[1]) is strip_strs(sym):
            return known
        return None
    return w


def stored(s, sym):
    return mk("ref", ("H", s), (("f", "commodities"), ("e", sym), ("b",)))


def created(ck, f, case, s, sym, h, w):
    """the pool after a new commodity"""
    old = mk("deref", s)
    m = fldval(old, "commodities")
    ok, why = True, ""
    for _, hl in leaves(h):
        n = simp(deep_eval(fldval(hl, "commodities"), w), TRUE)
        if not (n.op == "map.ins" and n.args[0] is m and strip_strs(n.args[1]) is strip_strs(sym)):
            ok, why = False, "the commodities become %s" % show(n, 5)
            break
        for _, c in leaves(proj(n.args[2], ("b",))):
            if strip_strs(simp(deep_eval(fldval(c, "symbol"), w), TRUE)) is not strip_strs(sym):
                ok, why = False, "the symbol of the new commodity is %s" % show(fldval(c, "symbol"), 5)
            gi = fldval(c, "graph_index")
            hist = fldval(hl, "commodity_history")
            oh = fldval(old, "commodity_history")
            if not (hist.op == "g.add_node" and hist.args[0] is oh and hist.args[1].op == "ref" and strip_refs(hist.args[1]) == strip_refs(stored(s, sym))):
                ck.ob("new commodity joins the price graph", "%s [%s]" % (loc(f), case), False, "the price graph becomes %s" % show(hist, 5))
            else:
                ck.ob("new commodity joins the price graph", "%s [%s]" % (loc(f), case),
                      gi.op == "agg" and gi.args[1] == "Some" and gi.args[3].op == "nodeid" and gi.args[3].args[0] is oh, "its graph index is %s" % show(gi, 5))
    ck.ob("new commodity", "%s [%s]" % (loc(f), case), ok, why)


def result_ok(v, s, sym):
    return v.op == "ref" and strip_refs(v) == strip_refs(stored(s, sym))


def foc(ck):
    i = ck.run(POOL + "::find_or_create", without=("pool",))
    f = i.fn
    s, sym = i.params[:2]
    old = mk("deref", s)
    m = fldval(old, "commodities")
    mem = simp(heap(i, s), TRUE)
    if has_phi(i.ret, mem):
        raise AnalysisError("unresolved loop")
    for ne, known in ((False, False), (True, True), (True, False)):
        w = world(m, sym, ne, known)
        case = "empty symbol" if not ne else "known symbol" if known else "new symbol"
        v = norm_refs(simp(deep_eval(i.ret, w), TRUE), i)
        h = simp(deep_eval(mem, w), TRUE)
        pc = cond(deep_eval(i.out.pc, w))
        ck.ob("always answers", "%s [%s]" % (loc(f), case), pc is TRUE, "does not return when %s" % show(NOT(pc), 5))
        if not ne:
            ck.ob("empty symbol is no commodity", loc(f), v is NULL, "returns %s" % show(v, 5))
            ck.ob("empty symbol creates nothing", loc(f), h is old, "the pool becomes %s" % show(h, 5))
            continue
        ck.ob("commodity of the symbol", "%s [%s]" % (loc(f), case), all(result_ok(l, s, sym) for _, l in leaves(v)), "returns %s" % show(v, 6))
        if known:
            okk = all(fldval(l, "commodities") is m and fldval(l, "commodity_history") is fldval(old, "commodity_history") for _, l in leaves(h))
            ck.ob("known commodity stays", loc(f), okk, "the pool becomes %s" % show(h, 6))
        else:
            created(ck, f, case, s, sym, h, w)
    i2 = ck.run(POOL + "::create", without=("pool",))
    f = i2.fn
    s, sym = i2.params[:2]
    old = mk("deref", s)
    m = fldval(old, "commodities")
    w = world(m, sym, True, True)
    pc = cond(deep_eval(i2.out.pc, w))
    if pc is not FALSE:
        h = simp(deep_eval(heap(i2, s), w), pc)
        ck.ob("existing commodity is not replaced", loc(f), all(fldval(l, "commodities") is m for _, l in leaves(h, pc)), "creating a known commodity makes the pool %s" % show(h, 5))
    else:
        ck.ob("existing commodity is not replaced", loc(f), True)
    w = world(m, sym, True, False)
    v = norm_refs(simp(deep_eval(i2.ret, w), TRUE), i2)
    ck.ob("commodity of the symbol", "%s [new symbol]" % loc(f), all(result_ok(l, s, sym) for _, l in leaves(v)), "returns %s" % show(v, 5))
    created(ck, f, "new symbol", s, sym, simp(deep_eval(heap(i2, s), w), TRUE), w)
    seen = i.seen_fns | i2.seen_fns
    confined(ck, "commodities are written only on creation", "CommodityPool", "commodities", seen, (POOL + "::find_or_create", POOL + "::create"))
    confined(ck, "symbols never change", "Commodity", "symbol", seen, (POOL + "::find_or_create", POOL + "::create"))
    confined(ck, "graph links never change", "Commodity", "graph_index", seen, (POOL + "::find_or_create", POOL + "::create"))
    rem = [(g, x, sp) for g, x, ta, sp in removals(ck.ctx.prog) if any("commodity::Commodity" in t for t in ta)]
    ck.ob("commodities are never removed", "crate", not rem, "; ".join("%s calls %s (%s)" % (g["path"], x, sp) for g, x, sp in rem))
    g = [x for x in i.events + i2.events if x.kind == "remove"]
    ck.ob("commodities are never removed", POOL, not g, "removes at %s" % (g[0].span if g else ""))


def finders(ck):
    for p in (POOL + "::find", POOL + "::find_index"):
        i = ck.run(p)
        s, sym = i.params[:2]
        m = fldval(mk("deref", s), "commodities")
        st = [e for e in i.events if e.kind == "store"]
        ck.ob("looking up changes nothing", p, not st, "writes %s" % (show(st[0].args[0], 5) if st else ""))
        ck.ob("always answers", p, i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 5))
        for known in (True, False):
            v = simp(deep_eval(i.ret, world(m, sym, True, known)), TRUE)
            if not known:
                ck.ob("unknown symbol is not found", p, v is NONE, "returns %s" % show(v, 5))
            elif p.endswith("find"):
                ck.ob("known symbol is found", p, v.op == "agg" and v.args[1] == "Some" and result_ok(v.args[3], s, sym), "returns %s" % show(v, 5))
            else:
                gi = fldval(proj(proj(m, ("e", sym)), ("b",)), "graph_index")
                full = ite(cond(is_variant(gi, "std::option::Option", "Some")), some(pay_of(gi)), NONE)
                ck.ob("known symbol is found", p, strip_strs(v) is strip_strs(gi) or same(strip_strs(v), strip_strs(full)), "returns %s" % show(v, 5))


def equality(ck):
    f = ck.ctx.impl("PartialEq", "eq", "Commodity", "Commodity")
    i = ck.run(f)
    a, b = (mk("deref", p) for p in i.params[:2])
    e = cond(i.ret)
    sy = cond(eq(fldval(a, "symbol"), fldval(b, "symbol")))
    ck.ob("equal commodities have equal symbols", loc(f), implies(e, sy), "commodities are equal when %s" % show(e, 6))
    d = cond(subst(e, {b: a}, rebuild))
    ck.ob("a commodity equals itself", loc(f), d is TRUE, "a commodity differs from itself when %s" % show(NOT(d), 6))


def check(ck):
    from rules import c15, c18
    ck.part("commodity of the written symbol", c15.builders, lambda r, w: r.endswith(": commodity"))
    ck.part("commodity of the written symbol", c15.postings, lambda r, w: r.endswith(": commodity") or r == "lot is recorded with its commodity")
    ck.part("commodity of the written symbol", c18.directive, lambda r, w: r in ("price directive: commodity", "price directive: price commodity"))
    ck.group("find or create", foc)
    ck.group("lookups", finders)
    ck.group("equality", equality)
