"""C15 Postings are recorded as written.

(1) the posting pushed for a line has exactly the account, amount and cost that the scanned fields
of the line denote (whole-reader analysis), and its lot price and date are passed on with its symbol;
(2) the scanned fields are those the posting grammar selects (`scan_post`, the annotation loop pass by
pass, the cost); (3) `scan_amount` splits a text into quantity, symbol and rest as the grammar says;
(4) amounts, annotations and quantities are built from exactly their texts."""
from core import *
from rules.c02 import strip_strs
from rules.c04 import deep_eval, pay_of
from rules.c14 import same_opt, trim, READ, OPT, part
from rules.c18 import foreign, undo

SC = "crate::scanner::"
NOTNUM = charset("".join(c for c in REPS if c not in "0123456789-.,"))
SYMEND = charset(RUST_WS + "0123456789@-{[(;")
SEP = mk("needle", cstr("  "))
EMPTY = cstr("")


def ch(s, k):
    return proj(chars(s), ("e", const(k)))


def char_is(s, k, c):
    return cond(eq(ch(s, k), const(c, "char")))


def amount_spec(text):
    """(number first?, (quantity, symbol, rest) number first, the same symbol first)"""
    s = trim_start(text)
    num = cond(mk("chis", "is_ascii_digit", ch(s, 0)))
    for c in "-.,":
        num = OR(num, char_is(s, 0, c))
    r = trim_start(from_(s, NOTNUM))
    a = upto(s, NOTNUM), upto(r, SYMEND), trim_start(from_(r, SYMEND))
    r = trim_start(from_(s, SYMEND))
    b = upto(r, NOTNUM), upto(s, SYMEND), trim_start(from_(r, NOTNUM))
    return num, a, b


def scan_amount(ck):
    p = SC + "scan_amount"
    i = ck.run(p, without=("scan",))
    text = i.params[0]
    num, a, b = amount_spec(text)
    some_text = cond(nonempty(trim_start(text)))
    got = [projs(i.ret, (("f", "0"), ("f", "quantity"))), projs(i.ret, (("f", "0"), ("f", "symbol"))), proj(i.ret, ("f", "1"))]
    for first, c, want in (("number first", num, a), ("symbol first", NOT(num), b)):
        c = AND(AND(i.out.pc, c), some_text)
        for n, g, w in zip(("quantity", "symbol", "rest"), got, want):
            g = strip_strs(simp(g, c))
            if foreign(g):
                ck.undecided("amount text", "%s: %s, %s" % (p, n, first), "operators %s" % foreign(g))
                continue
            if has_phi(g):
                raise AnalysisError("unresolved loop")
            ck.ob("amount text", "%s: %s, %s" % (p, n, first), same(g, strip_strs(w), c), "the %s is %s, not %s" % (n, show(g, 8), show(w, 8)))
    c = AND(AND(i.out.pc, NOT(num)), some_text)
    if not foreign(i.out.pc):
        ck.has_quantity = implies(c, cond(nonempty(b[0])))
    ok = AND(some_text, OR(num, cond(nonempty(b[0]))))
    lost = AND(ok, NOT(i.out.pc))
    if not foreign(lost):
        ck.ob("every amount is accepted", p, lost is FALSE, "fails when %s" % show(lost, 6))


def tok(t, n):
    return proj(t, ("f", n))


def scan_post(ck):
    p = SC + "scan_post"
    if SC + "scan_amount" not in ck.ctx.prog.by_path:
        raise Missing("scan_amount")
    i = ck.run(p)
    s = trim_start(i.params[0])
    sep = mk_exists(chars(s), SEP)
    rest = trim_start(after(s, SEP))
    more = AND(cond(sep), AND(cond(nonempty(rest)), NOT(char_is(rest, 0, ";"))))
    acc = ite(sep, upto(s, SEP), trim_end(s))
    pc = i.out.pc
    got = strip_strs(simp(tok(i.ret, "account"), pc))
    pcs = no_phi(pc)
    alts = [acc, apply(None, trim_end, acc), trim(acc)]
    if has_phi(got) or foreign(got):
        raise AnalysisError("account: %s" % (foreign(got) or "unresolved loop"))
    ck.ob("account of the line", p, any(same(got, strip_strs(a), pcs) for a in alts), "the account is %s, not %s" % (show(got, 7), show(acc, 7)))
    A = norm.scan_amount(rest)
    names = ("quantity", "symbol", "price_quantity", "price_commodity", "price_date", "cost_quantity", "cost_symbol")
    for n in names:
        g = simp(tok(i.ret, n), AND(pc, NOT(more)))
        ck.ob("without an amount all is empty", "%s: %s" % (p, n), AND(pc, NOT(more)) is FALSE or same(strip_strs(g), EMPTY, AND(pc, NOT(more))),
              "the %s is %s" % (n, show(g, 5)))
    c = AND(pc, more)
    if not ck.ob("amounts are read", p, c is not FALSE, "no line with an amount is accepted"):
        return
    for n, st in (("quantity", "quantity"), ("symbol", "symbol")):
        g = strip_strs(simp(tok(i.ret, n), c))
        w = strip_strs(projs(A, (("f", "0"), ("f", st))))
        ck.ob("amount of the line", "%s: %s" % (p, n), same(g, w, c), "the %s is %s, not %s" % (n, show(g, 7), show(w, 7)))
    if hasattr(ck, "has_quantity"):
        ck.ob("no amount only if none is written", p, ck.has_quantity or implies(c, cond(nonempty(projs(A, (("f", "0"), ("f", "quantity")))))),
              "an amount text without quantity passes for no amount")
    lots(ck, i, p, c, A)


def no_phi(pc):
    """the part of a condition that does not depend on a loop"""
    for a in list(support(pc)):
        if has_phi(a) or a.op == "exit":
            pc = OR(cofactor(pc, a, True), cofactor(pc, a, False))
    return pc


def lots(ck, i, p, c, A):
    """the annotation loop and the cost after it"""
    got = {n: strip_strs(simp(tok(i.ret, n), c)) for n in ("price_quantity", "price_commodity", "price_date", "cost_quantity", "cost_symbol", "is_per_unit")}
    L = None
    for M in i.loops.values():
        if any(x in M.next for g in got.values() for x in subterms(g)):
            if L is not None:
                raise AnalysisError("several loops read the lot")
            L = M
    if L is None:
        raise AnalysisError("no loop reads the lot")
    where = "%s, loop at %s" % (L.fn, L.span)
    # the text that is left: what the cost is read from
    inp = [x for x in L.next if any(y.op == "chars" and y.args[0] is x for y in subterms(L.cont))]
    if len(inp) != 1:
        raise AnalysisError("%d texts are read in the loop" % len(inp))
    P = inp[0]
    left = strip_strs(projs(A, (("f", "1"),)))
    ini = strip_strs(simp(L.init[P], c))
    ck.ob("lot follows the amount", where, any(same(ini, w, c) for w in (left, trim_start(left))), "starts from %s" % show(ini, 6))
    vals = {n: got[n] for n in ("price_quantity", "price_commodity", "price_date")}
    some_left = cond(nonempty(left)), cond(nonempty(trim_start(left)))
    for n, v in vals.items():
        vv = [l for _, l in leaves(v, c) if l is not EMPTY]
        if not vv:
            ck.ob("lot is recorded", "%s: %s" % (where, n), False, "the %s is always empty" % n)
            return
        for k, l in leaves(v, c):
            ck.ob("lot is recorded", "%s: %s" % (where, n), l is not EMPTY or not_after(k, L, P), "the %s is dropped when %s" % (n, show(k, 4)))
        if len(set(vv)) != 1:
            raise AnalysisError("lot values after the loop")
        vals[n] = vv[0]
        init = strip_strs(subst(vv[0], {q: L.init[q] for q in L.init}, rebuild))
        ck.ob("lot starts empty", "%s: %s" % (where, n), init is EMPTY, "starts as %s" % show(init, 5))
    first = {b: AND(cond(nonempty(P)), char_is(P, 0, b)) for b in "{["}
    nxt = {q: L.next[q] for q in L.next}
    inside = slice_(P, ONE, NULL)
    for b, e in (("{", "}"), ("[", "]")):
        cc = AND(L.cont, first[b])
        if not ck.ob("lot is read", "%s: %s" % (where, b), cc is not FALSE, "'%s' ends the loop" % b):
            continue
        body = upto(inside, charset(e))
        A2 = norm.scan_amount(body)
        q, sy = (strip_strs(projs(A2, (("f", "0"), ("f", x)))) for x in ("quantity", "symbol"))
        day = [upto(body, charset(" =")), body, trim(body)]
        want = {"price_quantity": [q], "price_commodity": [sy], "price_date": [vals["price_date"]]} if b == "{" else \
            {"price_quantity": [vals["price_quantity"]], "price_commodity": [vals["price_commodity"]], "price_date": day}
        for n, v in vals.items():
            g = strip_strs(simp(subst(v, nxt, rebuild), cc))
            ck.ob("lot is read", "%s: %s of %s…%s" % (where, n, b, e), any(same(g, strip_strs(w), cc) for w in want[n]),
                  "becomes %s, not %s" % (show(g, 7), show(want[n][0], 7)))
        g = strip_strs(simp(L.next[P], cc))
        w = after(inside, charset(e))
        ck.ob("reading goes on after the lot", "%s: %s…%s" % (where, b, e), same(g, trim_start(w), cc), "goes on with %s" % show(g, 6))
        dead = {t for _, t in L.dead}
        for x, t in L.exits:
            x = AND(x, first[b])
            ck.ob("lot is read", "%s: %s" % (where, b), x is FALSE or t in dead, "stops at '%s' when %s" % (b, show(x, 5)))
    other = AND(AND(L.cont, NOT(first["{"])), NOT(first["["]))
    ck.ob("only a lot is read as one", where, other is FALSE, "goes round when %s" % show(other, 5))
    # the cost
    at, two = char_is(P, 0, "@"), AND(cond(lt(ONE, length(chars(P)))), char_is(P, 1, "@"))
    lft = cond(nonempty(P))
    live = i.out.pc
    for n in ("cost_quantity", "cost_symbol"):
        st = n.split("_")[1]
        for case, cc, arg in (("no @", NOT(at), None), ("@", AND(AND(at, lft), NOT(two)), slice_(P, ONE, NULL)), ("@@", AND(AND(at, lft), two), slice_(P, const(2), NULL))):
            cc = AND(c, cc)
            if arg is None:
                w = EMPTY
            else:
                cc = AND(cc, P_left(i, L, P))
                w = strip_strs(projs(norm.scan_amount(arg), (("f", "0"), ("f", st))))
            if cc is FALSE:
                ck.ob("cost of the line", "%s: %s, %s" % (p, n, case), False, "never read")
                continue
            g = strip_strs(simp(tok(i.ret, n), cc))
            okc = all(l is w or same(l, w, k) or (l is EMPTY and arg is not None and not_after(k, L, P)) for k, l in leaves(g, cc))
            ck.ob("cost of the line", "%s: %s, %s" % (p, n, case), okc, "the %s is %s, not %s" % (n, show(g, 7), show(w, 6)))
            if n == "cost_quantity" and arg is not None:
                pu = simp(tok(i.ret, "is_per_unit"), cc)
                okc = all((l is TRUE) == (case == "@") or not_after(k, L, P) for k, l in leaves(pu, cc))
                ck.ob("kind of the cost", "%s: %s" % (p, case), okc, "per unit: %s" % show(pu, 5))


def P_left(i, L, P):
    return TRUE


def not_after(k, L, P):
    """condition k excludes having gone through the loop (nothing is left after the amount)"""
    return any(a.op == "hasnonws" and not has_phi(a) and implies(k, NOT(cond(a))) for a in support(k)) or \
        any(a.op == "nonempty" and not has_phi(a) and implies(k, NOT(cond(a))) for a in support(k))


def qty(x):
    return pay_of(mk("quantity", x))


def plain(t):
    """quantity!(x) is the decimal x denotes"""
    t = strip_strs(t)
    m = {x: qty(x.args[0]) for x in subterms(t) if x.op == "quantity!"}
    return subst(t, m, rebuild) if m else t


def link(sym):
    return ite(cond(nonempty(sym)), mk("commodity", sym), NULL)


def postings(ck):
    i = ck.run(READ)
    pushes = [e for e in i.events if e.kind == "push" and e.args[1].op == "box" and e.args[1].args[0].op == "agg" and e.args[1].args[0].args[0].endswith("post::Post")]
    if not pushes:
        raise Missing("no posting is added")
    for e in pushes:
        post = e.args[1].args[0]
        where = "%s, posting added at %s" % (e.fn, e.span)
        ts = {x for x in subterms(post) if x.op == "scan.post"}
        if not ts:
            raise AnalysisError("posting is not built from scan_post")
        if len(ts) > 1:
            raise AnalysisError("posting built from several lines")
        T_ = ts.pop()
        x = T_.args[0]
        lines = {y for y in subterms(x) if y.op == "line"}
        if len(lines) != 1:
            raise AnalysisError("posting depends on %d lines" % len(lines))
        line = lines.pop()
        ck.ob("the line is scanned", where, any(same(x, w, e.pc) for w in (line, trim_start(line), trim(line), trim_end(line))), "scans %s" % show(x, 6))
        t = {n: strip_strs(tok(T_, n)) for n in ("account", "quantity", "symbol", "cost_quantity", "cost_symbol", "is_per_unit")}
        f = fields(post)
        pc = strip_strs(e.pc)
        ac = strip_strs(f["account"])
        ck.ob("posting's account", where, same(ac, strip_strs(mk("account", t["account"])), pc), "the account is %s" % show(ac, 6))
        q, s = t["quantity"], t["symbol"]
        am = agg(AMOUNT, "Amount", ("quantity", "commodity"), [qty(q), link(s)])
        want = ite(cond(nonempty(q)), some(am), NONE)
        check_amount(ck, "posting's amount", where, f["amount"], want, pc)
        cq, cs = t["cost_quantity"], t["cost_symbol"]
        unit = cond(tok(T_, "is_per_unit"))
        has = AND(cond(nonempty(cq)), cond(nonempty(q)))
        for case, cc, n in (("no cost", NOT(has), None), ("@", AND(has, unit), dec_bin("mul", qty(cq), qty(q))), ("@@", AND(has, NOT(unit)), qty(cq))):
            cc = AND(pc, cc)
            w = NONE if n is None else some(agg(AMOUNT, "Amount", ("quantity", "commodity"), [n, link(cs)]))
            if n is not None and cc is FALSE:
                ck.ob("posting's cost", "%s (%s)" % (where, case), False, "is never recorded")
                continue
            # a cost without symbol takes the commodity of the posting when multiplied with its amount
            if case == "@":
                c2 = AND(cc, cond(nonempty(cs)))
                check_amount(ck, "posting's cost", "%s (%s)" % (where, case), f["cost"], w, c2)
                c2 = AND(cc, NOT(cond(nonempty(cs))))
                w2 = some(agg(AMOUNT, "Amount", ("quantity", "commodity"), [n, link(s)]))
                check_amount(ck, "posting's cost", "%s (%s, no symbol)" % (where, case), f["cost"], w2, c2)
            else:
                check_amount(ck, "posting's cost", "%s (%s)" % (where, case), f["cost"], w, cc)
        own = e.args[0]
        ck.ob("posting goes to its transaction", where, own.op == "ref" and f["xact_ptr"].op in ("ref", "xactref") and
              (strip_content(f["xact_ptr"]) is (own.args[0][1] if own.args[0][0] == "H" else None)), "added to %s, linked to %s" % (show(own, 4), show(f["xact_ptr"], 4)))
    # the lot: recorded with the symbol of the same posting
    foc = [e for e in i.events if e.kind == "call" and str(e.callee).endswith("CommodityPool::find_or_create") and
           is_variant(e.args[2], OPT, "Some") is TRUE]
    if not foc:
        if any(c["name"].endswith("Annotation::parse") for f in ck.ctx.prog.fns.values() for c in calls_of(ck.ctx.prog, f)):
            ck.ob("lot is recorded", READ, False, "no annotation reaches the commodity pool")
        return
    for e in foc:
        where = "%s, annotation recorded at %s" % (e.fn, e.span)
        a = strip_strs(pay_of(i.deep(i.out, e.args[2])))
        ps = [x for x in subterms(a) if x.op == "annotation.parse"]
        sy = strip_strs(e.args[1])
        if len(ps) != 1:
            raise AnalysisError("annotation %s" % show(a, 5))
        x = ps[0]
        T_ = [y for y in subterms(x) if y.op == "scan.post"]
        if not T_:
            raise AnalysisError("annotation is not built from scan_post")
        T_ = T_[0]
        for k, n in enumerate(("price_date", "price_quantity", "price_commodity")):
            ck.ob("lot is recorded", "%s: %s" % (where, n), x.args[k] is strip_strs(tok(T_, n)), "is %s" % show(x.args[k], 5))
        ck.ob("lot is recorded with its commodity", where, same(sy, strip_strs(tok(T_, "symbol")), strip_strs(e.pc)), "recorded for %s" % show(sy, 5))


def check_amount(ck, rule, where, got, want, pc):
    if pc is FALSE:
        return
    g, w = plain(simp(got, pc)), plain(simp(want, pc))
    gi, wi = cond(is_variant(g, OPT, "Some")), cond(is_variant(w, OPT, "Some"))
    diff = OR(AND(pc, AND(gi, NOT(wi))), AND(pc, AND(wi, NOT(gi))))
    if not ck.ob(rule, where, diff is FALSE, "present: %s, expected: %s" % (show(simp(gi, pc), 5), show(simp(wi, pc), 5))):
        return
    pc = AND(pc, wi)
    if pc is FALSE:
        return
    for n in ("quantity", "commodity"):
        a, b = fldval(pay_of(simp(g, pc)), n), fldval(pay_of(simp(w, pc)), n)
        if n == "commodity":
            # a link made for a non-empty symbol is never null
            m = {x: FALSE for t in (a, pc) for x in support(t) if x.op == "isnull" and x.args[0].op == "commodity"}
            a = deep_eval(a, lambda at: False if at.op == "isnull" and at.args[0].op == "commodity" else True if at.op == "isnull" and at.args[0] is NULL else None)
        ck.ob("%s: %s" % (rule, n), where, same(plain(a), plain(b), pc), "the %s is %s, not %s" % (n, show(simp(a, pc), 6), show(simp(b, pc), 6)))


def builders(ck):
    """parse_amount_parts, Annotation::parse, Quantity::from_str"""
    p = "crate::parser::parse_amount_parts"
    i = ck.run(p, without=("amount",), groups=None)
    i = ck.ctx.run(p, without=())
    q, s = i.params[:2]
    want = ite(cond(nonempty(q)), some(agg(AMOUNT, "Amount", ("quantity", "commodity"), [qty(q), link(s)])), NONE)
    check_amount(ck, "amount from its texts", p, i.ret, want, i.out.pc)
    p = "crate::annotate::Annotation::parse"
    if p in ck.ctx.prog.by_path:
        i = ck.run(p)
        d, q, s = i.params[:3]
        okc = cond(is_variant(i.ret, "std::result::Result", "Ok"))
        pc = AND(i.out.pc, okc)
        v = proj(proj(simp(i.ret, pc), ("v", "Ok")), ("f", "0"))
        want = ite(cond(nonempty(q)), some(agg(AMOUNT, "Amount", ("quantity", "commodity"), [qty(q), link(s)])), NONE)
        check_amount(ck, "lot price from its texts", p, fldval(v, "price"), want, pc)
        day = ite(cond(nonempty(d)), some(mk("dparse", "NaiveDate", d, cstr("%Y-%m-%d"))), NONE)
        ck.ob("lot date from its text", p, same_opt(strip_strs(fldval(v, "date")), strip_strs(day), pc), "the date is %s" % show(fldval(v, "date"), 6))
    p = "crate::amount::Quantity::from_str"
    i = ck.run(p, without=("amount",))
    s = i.params[0]
    x = mk("call", "Decimal::from_str_exact", s)
    if any(y.op == "call" and y.args[0] != x.args[0] for y in subterms(i.ret)):
        y = [y for y in subterms(i.ret) if y.op == "call" and y.args[0] != x.args[0]][0]
        ck.ob("quantity from its text", p, not lossy(y), "the quantity is %s" % show(y, 5))
        return
    for c, l in leaves(i.ret, i.out.pc):
        if l.op == "agg" and l.args[1] == "None":
            ck.ob("quantity from its text", p, implies(c, NOT(cond(is_variant(x, "std::result::Result", "Ok")))), "none when %s" % show(c, 4))
        else:
            v = pay_of(l)
            ck.ob("quantity from its text", p, strip_strs(v) is strip_strs(proj(proj(x, ("v", "Ok")), ("f", "0"))), "the quantity is %s" % show(v, 6))


def lossy(y):
    """does the decimal come from something else than the exact text?"""
    return not str(y.args[0]).startswith("Decimal::from_str_exact")


def kept_lots(ck):
    """the pool keeps the first annotation of each commodity"""
    p = "crate::pool::CommodityPool::find_or_create"
    i = ck.run(p)
    if len(i.params) != 3:
        raise Missing("arguments of find_or_create")
    pool, sym, ann = i.params
    old = fldval(mk("deref", pool), "annotated_commodities")
    new = fldval(heap(i, pool), "annotated_commodities")
    has = lambda m: cond(mk("has", m, sym))
    known = has(fldval(mk("deref", pool), "commodities"))
    present = cond(is_variant(ann, OPT, "Some"))
    # annotations are kept for known commodities only
    pc = AND(i.out.pc, OR(known, NOT(has(old))))
    takes = AND(AND(cond(nonempty(sym)), present), NOT(has(old)))
    for what, c, want in (("a first lot", takes, True), ("no lot or a later one", NOT(takes), False)):
        for cc, v in leaves(simp(new, AND(pc, c)), AND(pc, c)):
            cc = AND(AND(pc, c), cc)
            ins = v.op == "map.ins" and v.args[0] is old and strip_strs(v.args[1]) is strip_strs(sym)
            first = ins and v.args[2] is pay_of(ann)
            if cc is FALSE or (first if want else v is old):
                continue
            if v is old or ins:
                ck.ob("the first lot of a commodity is kept", p, False, "%s: the lots become %s when %s" % (what, show(v, 4), show(cc, 5)[:300]))
            else:
                ck.undecided("the first lot of a commodity is kept", p, "%s: the lots become %s" % (what, show(v, 5)[:200]))
        ck.ob("the first lot of a commodity is kept", "%s: %s" % (p, what), True)


def check(ck):
    ck.group("amount text", scan_amount)
    ck.group("fields of a posting line", scan_post)
    ck.group("postings", postings)
    ck.group("builders", builders)
    ck.group("lots", kept_lots)
    from rules import c08, c09
    ck.part("account of the written name", c08.tree, lambda r, w: True)
    ck.part("account of the written name", c08.register, lambda r, w: True)
    ck.part("commodity of the written symbol", c09.foc, lambda r, w: True)
