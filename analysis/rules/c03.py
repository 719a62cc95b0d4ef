"""C03 Amounts of different commodities are never merged.

(1) Every decimal addition or subtraction of two amounts' quantities, found by analysing every
function of the crate as a root, happens only under a path condition that implies the two
amounts have the same commodity.  (2) Balance keeps one entry per commodity: the entry that is
changed is the one found by a same-commodity search over all entries, and an amount in a new
commodity gets an entry of its own."""
from core import *
from rules import baltools
from rules.c20 import OPS, operands

ASSUME = ["commodity links are compared by identity, content or symbol; these agree by C09"]


def combine_guarded(ck):
    n = 0
    for f in ck.ctx.prog.fns.values():
        if "::Quantity" in f["path"] or "amount::Quantity" in f["path"] or f["kind"] == "closure":
            continue
        if not any(c["callee"].get("method") in ("add", "sub", "add_assign", "sub_assign", "sum", "fold") or "Decimal" in c["name"] or c["name"] in ck.ctx.prog.by_path
                   for c in calls_of(ck.ctx.prog, f) if c["kind"] == "call"):
            continue
        try:
            i = ck.run(f, without=("balance",) if f["path"].startswith("crate::balance") or "balance::Balance" in f["path"] else ())
        except (AnalysisError, RecursionError) as e:
            if f["path"].startswith(("crate::amount", "crate::balance", "crate::xact", "crate::<")):
                ck.undecided("combining amounts", loc(f), str(e)[:200])
            continue
        for e in i.events:
            if e.kind != "dec" or e.callee not in ("add", "sub"):
                continue
            x, y = e.args[:2]
            n += 1
            # split by cases first: an operand may be one of several amounts
            okall, why = True, ""
            for cx, lx in leaves(x, e.pc):
                for cy, ly in leaves(y, cx):
                    while lx.op in ("dec.neg", "dec.abs", "dec.nabs"):
                        lx = lx.args[0]
                    while ly.op in ("dec.neg", "dec.abs", "dec.nabs"):
                        ly = ly.args[0]
                    a, b = baltools.amount_pair(lx, ly)
                    if a is None or b is None:
                        if lx.op == "dec.const" or ly.op == "dec.const":
                            continue
                        okall, why = False, "%s %s %s: not the quantities of two amounts" % (show(lx, 5), e.callee, show(ly, 5))
                        continue
                    if a is b:
                        continue
                    facts = AND(cy, AND(baltools.resolve_first(cy, lx), baltools.resolve_first(cy, ly)))
                    if not implies_same(facts, a, b):
                        okall, why = False, "%s %s %s happens also when the commodities differ" % (show(lx, 5), e.callee, show(ly, 5))
            ck.ob("amounts combined only in one commodity", "%s in %s" % (e.fn, f["path"]), okall, why + " (%s)" % e.span)
    ck.ob("floor", "combinations", n >= 6, "%d additions/subtractions of amounts found, 6 expected" % n)


def mixing_refused(ck):
    """adding or subtracting amounts of different commodities does not return"""
    n = 0
    todo = [(tr, f) for tr, m, a, f in ck.ctx.impls_of(("Add", "Sub", "AddAssign", "SubAssign"), "Amount")
            if len(a) == 1 or a[1].split("::")[-1].strip("&") == "Amount"]
    todo.append(("AddAssign", ck.ctx.fn(AMOUNT + "::add")))
    for tr, f in todo:
        i = ck.run(f)
        if i.out is None:
            continue
        a, b = operands(i)[:2]
        ck.ob("mixing is refused", loc(f), implies_same(i.out.pc, fldval(a, "commodity"), fldval(b, "commodity")),
              "amounts of different commodities are accepted: returns when %s" % show(i.out.pc, 6))
        n += 1
    ck.ob("floor", "operations that refuse to mix", n >= 4, "%d operations found, 4 expected" % n)


def implies_same(facts, a, b):
    """facts => same commodity; every atom about (a, b) is tried in the worlds where they differ"""
    for na, nb in ((True, False), (False, True), (False, False)):
        f = facts
        for at in atoms(facts):
            v = None
            if at.op == "isnull" and at.args[0] is a:
                v = na
            elif at.op == "isnull" and at.args[0] is b:
                v = nb
            elif at.op == "eq" and set(strip_content(z) for z in at.args) == {a, b}:
                v = False
            if v is not None:
                f = cofactor(f, at, v)
        if f is not FALSE:
            return False
    return True


def check(ck):
    ck.group("combining amounts", combine_guarded)
    ck.group("mixing refused", mixing_refused)
    ck.group("balance", baltools.balance_contract)
    from rules import c09
    ck.part("equality of commodities", c09.equality, lambda r, w: True)
