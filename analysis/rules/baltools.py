"""Rules about Balance, shared by C03 and C05."""
from core import *
from rules.c20 import operands, result

BALANCE = "crate::balance::Balance"


def amount_pair(x, y):
    """the commodity links of two quantities that are combined"""
    def link(q):
        if q.op == "f" and q.args[1] == "quantity":
            return fldval(q.args[0], "commodity")
        return None
    return link(x), link(y)


def resolve_first(pc, t):
    """facts known about the element found by a search: first(seq, p) satisfies p"""
    extra = TRUE
    for x in subterms(t) if t is not None else ():
        if x.op == "first":
            seq, p = x.args[0], x.args[1]
            bvs = [b for b in subterms(p) if b.op == "bv"]
            if len(bvs) == 1:
                extra = AND(extra, cond(subst(p, {bvs[0]: x}, rebuild)))
    return extra


def entry_update(ck, f, i, amt, op):
    """*self after adding (op='add') or subtracting an amount"""
    selfv = mk("deref", i.params[0])
    S = fldval(selfv, "amounts")
    new = fldval(heap(i, i.params[0]), "amounts")
    if i.out is None:
        ck.ob("balance entry", loc(f), False, "never returns")
        return
    aq, ac = fldval(amt, "quantity"), fldval(amt, "commodity")
    # which existing entry is used?
    ex = [a for a in atoms(new) if a.op == "exists"]
    ex += [a for a in atoms(i.out.pc) if a.op == "exists" and a not in ex]
    if len(ex) != 1 or ex[0].args[0] is not S:
        ck.ob("balance entry lookup", loc(f), False, "entries are not looked up by one search over all of self.amounts: %s" % show(new, 7))
        return
    e = ex[0]
    p = e.args[1]
    bv = [b for b in subterms(p) if b.op == "bv"]
    v = commodity_eq(p, ac, fldval(proj(S, ("e", bv[0])), "commodity")) if len(bv) == 1 else None
    ck.ob("balance entry lookup", loc(f), v is True, "the entry to change is chosen by %s, which is not 'same commodity'" % show(p, 8))
    first = mk("first", S, p)
    found, absent = simp(cofactor(new, e, True), TRUE), cofactor(new, e, False)
    old = proj(S, ("e", first))
    pcf = cofactor(i.out.pc, e, True)
    # the found entry
    cell = canon(simp(proj(found, ("e", first)), pcf))
    q = canon(fldval(cell, "quantity"))
    expq = dec_bin(op, fldval(old, "quantity"), aq)
    ck.ob("balance entry sum", loc(f), same(q, expq), "entry of the commodity becomes %s, must be %s" % (show(q, 8), show(expq, 6)))
    c = fldval(cell, "commodity")
    ck.ob("balance entry commodity", loc(f), all(l in (fldval(old, "commodity"), ac) for _, l in leaves(c)), "commodity of the entry becomes %s" % show(c, 6))
    # the others are untouched
    shape = all(l is S or (l.op == "upd" and l.args[0] is S and l.args[1] == ("e", first)) for _, l in leaves(found))
    ck.ob("balance other entries", loc(f), shape, "other entries change: %s" % show(found, 6))
    # a new commodity gets its own entry
    okp = True
    for _, l in leaves(absent):
        if not (l.op == "vec.push" and l.args[0] is S):
            okp = False
            break
        want = dec_neg(aq) if op == "sub" else aq
        if not (same(fldval(l.args[1], "quantity"), want) and same(fldval(l.args[1], "commodity"), ac)):
            okp = False
    ck.ob("balance new entry", loc(f), okp, "an amount in a new commodity gives %s" % show(canon(absent), 8))
    # an amount whose commodity is absent is always accepted; one that is present too (links equal)
    pa = cofactor(i.out.pc, e, False)
    ck.ob("balance accepts", loc(f), pa is TRUE, "refuses a new commodity when %s" % show(NOT(pa), 6))
    pf = cond(subst(pcf, {fldval(old, "commodity"): ac}, rebuild))
    ck.ob("balance accepts", loc(f), pf is TRUE, "refuses an amount of a known commodity when %s" % show(NOT(pf), 6))


def balance_contract(ck):
    i = ck.run(BALANCE + "::new")
    r = i.ret
    am = fldval(r, "amounts")
    ck.ob("new balance is empty", loc(i.fn), nonempty(am) is FALSE, "is %s" % show(r, 6))
    i = ck.run(BALANCE + "::add")
    entry_update(ck, i.fn, i, mk("deref", i.params[1]), "add")
    for tr, op in (("AddAssign", "add"), ("SubAssign", "sub")):
        f = ck.ctx.impl(tr, tr.lower().replace("assign", "_assign"), "Balance", "Amount")
        i = ck.run(f)
        r = heap(i, i.params[0])
        if same(r, mk("bal." + op, mk("deref", i.params[0]), i.params[1])):
            ck.ob("balance operator", loc(f), True, "delegates")
        else:
            i = ck.run(f, without=("balance",))
            entry_update(ck, f, i, i.params[1], op)
    f = ck.ctx.impl("AddAssign", "add_assign", "Balance", "Balance")
    i = ck.run(f)
    r = heap(i, i.params[0])
    ca = contributions(r)
    o = i.params[1]
    want = [("base", mk("deref", i.params[0])), ("each", fldval(o, "amounts"), "elem", "add")]
    ck.ob("balance of balances", loc(f), ca == want, "adding a balance gives %s, must add each of its amounts once" % describe(ca, r))
    ck.ob("balance of balances total", loc(f), i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 6))


def contributions(t):
    """a balance term as a list of what was added to it (order irrelevant), or None"""
    if t.op in ("bal.add", "bal.sub"):
        c = contributions(t.args[0])
        return None if c is None else c + [("one", t.args[1], t.op[4:])]
    if t.op == "bal.addb":
        c = contributions(t.args[0])
        return None if c is None else c + [("bal", t.args[1])]
    if t.op == "bal.new":
        return []
    if t.op == "fold":
        seq, ini, bv, body = t.args[:4]
        c = contributions(ini)
        if c is None:
            return None
        acc = [x for x in subterms(body) if x.op == "acc"]
        b = each(body, seq, bv)
        return None if b is None else c + b
    return [("base", t)]


def whole(t):
    """adding each of a balance's amounts is adding the balance"""
    if t.op in ("bal.add", "bal.sub"):
        return mk(t.op, whole(t.args[0]), t.args[1])
    if t.op == "bal.addb":
        return mk(t.op, whole(t.args[0]), whole(t.args[1]))
    if t.op == "fold":
        seq, ini, bv, body = t.args[:4]
        ini, body = whole(ini), whole(body)
        if seq.op == "f" and seq.args[1] == "amounts" and body.op == "bal.add" and body.args[0].op == "acc" and \
                body.args[0].args[0] == bv.args[0] and body.args[1] is proj(seq, ("e", bv)):
            return mk("bal.addb", ini, seq.args[0])
        return mk("fold", seq, ini, bv, body, *t.args[4:])
    return t


def each(body, seq, bv):
    """what one pass adds"""
    el = proj(seq, ("e", bv))
    if body.op == "bal.add" and body.args[0].op == "acc":
        if body.args[1] is el:
            return [("each", seq, "elem", "add")]
        return [("each", seq, abstract(body.args[1], bv), "add")]
    if body.op == "bal.sub" and body.args[0].op == "acc":
        return [("each", seq, abstract(body.args[1], bv), "sub")]
    if body.op == "bal.addb" and body.args[0].op == "acc":
        return [("each", seq, abstract(body.args[1], bv), "addb")]
    if body.op == "ite":
        return [("each-if", seq, abstract(body, bv))]
    return None


def abstract(t, bv):
    return subst(t, {bv: mk("bv", 0)}, rebuild)


def describe(c, t):
    if c is None:
        return show(t, 8)
    return "[" + ", ".join("%s %s" % (x[0], ", ".join(show(y, 6) if isinstance(y, T) else str(y) for y in x[1:])) for x in c) + "]"
