"""C20 Amount arithmetic is the decimal arithmetic it names.

For every implementation of an arithmetic operator on Quantity and Amount, and for the named
sign operations, the value-flow term of the result is compared with the operation it names,
on every path (operators with no rule for their type are ignored, ones that exist must obey)."""
from core import *

TECH = "value-flow analysis of MIR: closed-form result terms of every operator impl"
OPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div"}


def operands(i):
    """(self value, other value) at entry"""
    f = i.fn
    vals = []
    for k, p in enumerate(i.params):
        ty = i.prog.types[f["locals"][k + 1][0]]
        vals.append(mk("deref", p) if ty["k"] in ("ref", "ptr") else p)
    return vals


def result(i):
    """the value the operation produces: the return value or *self"""
    rt = i.prog.tys(i.fn["locals"][0][0])
    if rt == "()":
        return heap(i, i.params[0])
    return i.ret


def expect_op(op, a, b):
    return dec_bin(op, a, b)


def quantity_ops(ck):
    n = 0
    for tr, m, a, f in ck.ctx.impls_of(list(OPS) + [o + "Assign" for o in OPS] + ["Neg"], "Quantity"):
        if len(a) > 1 and a[1].split("::")[-1] != "Quantity" and a[1] != a[0]:
            continue
        i = ck.run(f)
        v = operands(i)
        if i.out is None:
            ck.ob("quantity operator", loc(f), False, "never returns")
            continue
        exp = dec_neg(v[0]) if tr == "Neg" else expect_op(OPS[tr.replace("Assign", "")], v[0], v[1])
        r = result(i)
        ck.ob("quantity operator", loc(f), same(r, exp), "computes %s, must be %s" % (show(canon(r), 6), show(exp, 6)))
        ck.ob("quantity operator total", loc(f), i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 6))
        n += 1
    ck.ob("floor", "Quantity operators", n >= 6, "%d operator impls found, 6 expected" % n)


def amount_ops(ck):
    n = 0
    todo = [(tr, m, f) for tr, m, a, f in ck.ctx.impls_of(list(OPS) + [o + "Assign" for o in OPS], "Amount")
            if len(a) == 1 or a[1].split("::")[-1].strip("&") == "Amount"]
    todo.append(("AddAssign", "add", ck.ctx.fn(AMOUNT + "::add")))
    for tr, m, f in todo:
        i = ck.run(f)
        if i.out is None:
            ck.ob("amount operator", loc(f), False, "never returns")
            continue
        a, b = operands(i)[:2]
        op = OPS[tr.replace("Assign", "")]
        r = result(i)
        pc = i.out.pc
        q = fldval(r, "quantity")
        exp = expect_op(op, fldval(a, "quantity"), fldval(b, "quantity"))
        ck.ob("amount quantity", loc(f), same(q, exp, pc) or same(simp(q, pc), exp),
              "quantity is %s, must be %s" % (show(canon(simp(q, pc)), 7), show(exp, 6)))
        ca, cb = fldval(a, "commodity"), fldval(b, "commodity")
        c = simp(fldval(r, "commodity"), pc)
        if op in ("mul", "div"):
            # worlds: left null / right null
            bad = []
            for na in (True, False):
                for nb in (True, False):
                    def w(at):
                        if at.op == "isnull" and at.args[0] is ca:
                            return na
                        if at.op == "isnull" and at.args[0] is cb:
                            return nb
                        if at.op == "eq" and set(strip_content(z) for z in at.args) == {ca, cb} and (na or nb):
                            return na and nb
                        return None
                    x = eval_world(c, w)
                    if x is None:
                        # decided by an unrelated test: all leaves must agree
                        xs = set(l for _, l in leaves(c))
                    else:
                        xs = {x}
                    want = {ca} if not na else ({cb} if not nb else {cb, ca, NULL})
                    if not xs <= want:
                        bad.append("left %s, right %s: %s" % ("null" if na else "set", "null" if nb else "set", [show(x, 5) for x in xs]))
            ck.ob("amount commodity", loc(f), not bad, "; ".join(bad))
            ck.ob("amount operator total", loc(f), pc is TRUE, "does not return when %s" % show(NOT(pc), 6))
        else:
            okc = all(l in (ca, cb) for _, l in leaves(c))
            ck.ob("amount commodity", loc(f), okc, "commodity of the result is %s" % show(c, 6))
            e = subst(pc, {cb: ca}, rebuild)
            e = cond(e)
            ck.ob("amount operator total", loc(f), e is TRUE, "refuses amounts of the same commodity when %s" % show(NOT(e), 6))
        n += 1
    ck.ob("floor", "Amount operators", n >= 7, "%d operations found, 7 expected" % n)


def signs(ck):
    def one(path, expq, keepc=True):
        i = ck.run(path)
        f = i.fn
        if i.out is None:
            ck.ob("sign operation", loc(f), False, "never returns")
            return
        a = operands(i)[0]
        r = result(i)
        q, c = fldval(r, "quantity"), fldval(r, "commodity")
        e = expq(fldval(a, "quantity"))
        ck.ob("sign operation", loc(f), same(q, e), "quantity becomes %s, must be %s" % (show(canon(q), 7), show(e, 5)))
        ck.ob("sign operation commodity", loc(f), same(c, fldval(a, "commodity")), "commodity becomes %s" % show(c, 6))
        ck.ob("sign operation total", loc(f), i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 6))
    one(AMOUNT + "::inverse", dec_neg)
    one(AMOUNT + "::invert", dec_neg)
    one(AMOUNT + "::abs", dec_abs)
    one(AMOUNT + "::copy_from", lambda q: q)
    i = ck.run(AMOUNT + "::remove_commodity")
    a = operands(i)[0]
    r = result(i)
    ck.ob("remove_commodity", loc(i.fn), same(fldval(r, "quantity"), fldval(a, "quantity")) and fldval(r, "commodity") is NULL,
          "leaves %s" % show(r, 6))
    i = ck.run(AMOUNT + "::is_zero")
    q = fldval(operands(i)[0], "quantity")
    ck.ob("is_zero", loc(i.fn), cond(i.ret) is cond(mk("dec.zero", q)), "is %s" % show(i.ret, 6))
    i = ck.run(AMOUNT + "::new")
    q, c = i.params[0], i.params[1]
    exp_c = {True: proj(proj(c, ("v", "Some")), ("f", "0")), False: NULL}
    r = i.ret
    ck.ob("Amount::new", loc(i.fn), same(fldval(r, "quantity"), q), "quantity is %s" % show(fldval(r, "quantity"), 6))
    for v in (True, False):
        x = eval_world(fldval(r, "commodity"), lambda at: v if at.op == "is" and at.args[0] is c and at.args[1] == "Some" else
                       (not v) if at.op == "is" and at.args[0] is c else None)
        ck.ob("Amount::new", loc(i.fn), x is exp_c[v], "commodity of Amount::new(q, %s) is %s" % ("Some(c)" if v else "None", show(x, 6) if x else "?"))
    i = ck.run(AMOUNT + "::null")
    r = i.ret
    qz = fldval(r, "quantity")
    ck.ob("Amount::null", loc(i.fn), qz.op == "dec.const" and qz.args[0] == "0" and fldval(r, "commodity") is NULL, "is %s" % show(r, 6))
    for p, op in (("set_sign_negative", dec_nabs), ("set_sign_positive", dec_abs)):
        i = ck.run("crate::amount::Quantity::" + p)
        r = result(i)
        e = op(operands(i)[0])
        ck.ob("quantity sign", loc(i.fn), same(r, e), "quantity becomes %s, must be %s" % (show(canon(r), 6), show(e, 4)))
    i = ck.run("crate::amount::Quantity::is_sign_positive")
    ck.ob("quantity sign test", loc(i.fn), cond(i.ret) is dec_pos(operands(i)[0]), "is %s" % show(i.ret, 6))
    i = ck.run("crate::amount::Quantity::is_zero")
    ck.ob("quantity zero test", loc(i.fn), cond(i.ret) is cond(mk("dec.zero", operands(i)[0])), "is %s" % show(i.ret, 6))


def check(ck):
    ck.group("quantity operators", quantity_ops)
    ck.group("amount operators", amount_ops)
    ck.group("sign operations", signs)
