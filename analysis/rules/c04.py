"""C04 An omitted amount becomes the exact negation of the rest of its transaction.

On `xact::finalize` (with everything it calls inlined): (1) the balance is a fold over all posts
of the transaction that adds the cost, or else the amount, of each exactly once; (2) every store
to a posting's amount either leaves it unchanged or stores the negation of the only entry of that
balance into the posting found to have neither cost nor amount; (3) that store happens on every
path on which there is such a posting, and a second one is refused; (4) no other function writes
a posting's amount."""
from core import *
from rules import baltools

FIN = "crate::xact::finalize"


def post_of(seq, bv):
    return proj(proj(seq, ("e", bv)), ("b",))


def worlds(post):
    """(cost?, amount?) and a valuation of the atoms about that posting"""
    cost, amount = fldval(post, "cost"), fldval(post, "amount")
    for hc in (True, False):
        for ha in (True, False):
            def w(at, hc=hc, ha=ha):
                if at.op == "is":
                    if at.args[0] is cost:
                        return hc if at.args[1] == "Some" else not hc
                    if at.args[0] is amount:
                        return ha if at.args[1] == "Some" else not ha
                return None
            yield hc, ha, w


def pay_of(o):
    return proj(proj(o, ("v", "Some")), ("f", "0"))


def deep_eval(t, w):
    """evaluate the atoms w knows, everywhere inside t"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or not x.args:
            return x
        r = memo.get(x.id)
        if r is None:
            if x.op == "ite":
                v = w(x.args[0])
                if v is None:
                    r = ite(cond(go(x.args[0])), go(x.args[1]), go(x.args[2]))
                else:
                    r = go(x.args[1] if v else x.args[2])
            else:
                na = tuple(go(a) for a in x.args)
                r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
            memo[x.id] = r
        return r
    return go(t)


def all_posts(seq, posts):
    """is seq the sequence of all postings (possibly by reference)?"""
    return seq is posts


def is_total(B, posts):
    """B adds cost-or-amount of every posting once; returns (ok, why)"""
    parts = []
    t = B
    while t.op == "fold":
        parts.append(t)
        t = t.args[1]
    if t.op != "bal.new":
        return False, "the balance starts as %s" % show(t, 5)
    if len(parts) != 1:
        return False, "the balance is summed in %d passes" % len(parts)
    seq, ini, bv, body = B.args[:4]
    if not all_posts(seq, posts):
        return False, "the balance sums over %s, not over all postings" % show(seq, 6)
    post = post_of(seq, bv)
    for hc, ha, w in worlds(post):
        v = deep_eval(body, w)
        acc = [x for x in subterms(body) if x.op == "acc"]
        a = acc[0] if acc else None
        if hc:
            want = [mk("bal.add", a, pay_of(fldval(post, "cost")))]
        elif ha:
            want = [mk("bal.add", a, pay_of(fldval(post, "amount")))]
        else:
            want = [a]
        if a is None or v not in want:
            return False, "a posting with%s cost and with%s amount changes the balance to %s" % ("" if hc else "out", "" if ha else "out", show(v, 7))
    return True, ""


def null_target(N, i, posts):
    """N designates a posting without cost and amount (or nothing); (ok, why)"""
    if N.op == "fold":
        seq, ini, bv, body = N.args[:4]
        if not all_posts(seq, posts):
            return False, "searches %s" % show(seq, 6)
        post = post_of(seq, bv)
        acc = [x for x in subterms(body) if x.op == "acc"]
        for hc, ha, w in worlds(post):
            v = deep_eval(body, w)
            for _, l in leaves(v):
                if l.op == "acc":
                    if not hc and not ha and len(leaves(v)) == 1:
                        return False, "a posting without amount is passed over"
                    continue
                if hc or ha:
                    return False, "a posting with%s cost and with%s amount is taken for one without amount" % ("" if hc else "out", "" if ha else "out")
        return True, ""
    if N.op == "first":
        seq, p = N.args[:2]
        bv = [b for b in subterms(p) if b.op == "bv"]
        if len(bv) != 1 or not all_posts(seq, posts):
            return False, "searches %s" % show(seq, 6)
        for hc, ha, w in worlds(post_of(seq, bv[0])):
            v = deep_eval(p, w)
            if (hc or ha) and v is not FALSE or not (hc or ha) and v is not TRUE:
                return False, "searches for a posting with %s" % show(p, 7)
        return True, ""
    return None, "unknown form %s" % show(N, 6)


def target_search(ref):
    """the search term that designates the written posting"""
    b, path = ref.args
    cands = [b[1]] if b[0] == "H" else []
    cands += [s[1] for s in path if s[0] == "e"]
    out = []
    for c in cands:
        for x in subterms(c):
            if x.op in ("fold", "first") and x not in out and not any(y is not x and x in list(subterms(y)) for y in out):
                out.append(x)
    return out


def amount_stores(i, posts):
    """(event, ref, old, new) for every store that can change a posting's amount"""
    for e in i.events:
        if e.kind != "store":
            continue
        ref, val, old = e.args[0], e.args[1], e.extra
        path = ref.args[1]
        if path and path[-1] == ("f", "amount"):
            yield e, ref, old, val
        elif path and path[-1] in (("b",), ) or (path and path[-1][0] == "e" and len(path) >= 2 and path[-2] == ("f", "posts")):
            p = (lambda t: proj(t, ("b",))) if path[-1][0] == "e" else (lambda t: t)
            yield e, ref, fldval(p(old), "amount"), fldval(p(val), "amount")
        elif not path and val.op in ("upd", "agg") and "amount" in str(val.args[1:3]):
            yield e, ref, fldval(old, "amount"), fldval(val, "amount")


def fin(ck):
    i = ck.run(FIN)
    f = i.fn
    xp = i.params[0]
    posts = fldval(mk("deref", xp), "posts")
    n_fill = 0
    for e, ref, old, new in amount_stores(i, posts):
        where = "%s at %s" % (e.fn, show_place(*ref.args, 4))
        v = simp(new, e.pc)
        fills = []
        for c, l in leaves(v, e.pc):
            c = inside_exits(c)
            if l is old or same(l, old, c):
                continue
            if l.op == "agg" and l.args[1] == "Some" and same(l.args[3], pay_of(old), c) and implies(c, cond(is_variant(old, "std::option::Option", "Some"))):
                continue
            fills.append((c, l))
        if not fills:
            ck.ob("written amounts are kept", where, True)
            continue
        n_fill += 1
        for c, l in fills:
            if not (l.op == "agg" and l.args[1] == "Some"):
                ck.ob("written amounts are kept", where, False, "a posting's amount becomes %s (%s)" % (show(l, 5), e.span))
                continue
            am = l.args[3]
            q, co = canon(fldval(am, "quantity")), fldval(am, "commodity")
            bal = [x for x in subterms(am) if x.op == "fold" and x.args[1].op in ("bal.new", "fold")]
            tops = [b for b in bal if not any(b is not y and b in list(subterms(y)) for y in bal)]
            if len(tops) != 1:
                ck.ob("filled-in amount", where, False, "the amount filled in, %s, is not taken from the balance (%s)" % (show(am, 6), e.span))
                continue
            B = tops[0]
            entry = proj(fldval(B, "amounts"), ("e", ZERO))
            b0 = fldval(entry, "quantity")
            # zero is its own negation
            z = cond(mk("dec.zero", b0))
            okq = same(q, dec_neg(b0), NOT(z)) and (same(q, dec_neg(b0), z) or same(q, b0, z))
            ck.ob("filled-in amount is the negated balance", where, okq, "quantity filled in is %s, must be the negation of the balance (%s)" % (show(q, 8), e.span))
            ck.ob("filled-in commodity", where, same(co, fldval(entry, "commodity")), "commodity filled in is %s" % show(co, 6))
            ln = length(fldval(B, "amounts"))
            ck.ob("filled-in amount covers every commodity", where, implies(c, cond(eq(ln, ONE))),
                  "the first entry of the balance is used although there may be more (%s)" % e.span)
            okb, why = is_total(B, posts)
            ck.ob("balance of the transaction", where, okb, why)
            ns = target_search(ref)
            if len(ns) != 1:
                ck.undecided("posting filled in", where, "target %s" % show(ref, 6))
                continue
            okn, why = null_target(ns[0], i, posts)
            if okn is None:
                ck.undecided("posting filled in", where, why)
            else:
                ck.ob("only a posting without amount is filled in", where, okn, why)
            # it must happen whenever there is one
            N = ns[0]
            have = NOT(is_null(N)) if implies(c, NOT(is_null(N))) else TRUE
            for a in atoms(c):
                if any(x is N for x in a.args):
                    if implies(c, cond(a)):
                        have = AND(have, cond(a))
                    elif implies(c, NOT(cond(a))):
                        have = AND(have, NOT(cond(a)))
            miss = AND(AND(i.out.pc, have), NOT(c))
            ck.ob("posting without amount is always filled in", where, have is not TRUE and miss is FALSE,
                  "finalize returns without filling it in when %s" % show(miss, 5))
            second(ck, i, N)
    ck.ob("floor", FIN, n_fill >= 1, "no store that fills in an omitted amount was found")
    # nothing else writes amounts
    for w, sp in writers(ck.ctx.prog, "Post", "amount").items():
        ck.ob("amounts written only here", w, w in i.seen_fns, "writes Post.amount at %s" % sp[0][1])


def second(ck, i, N):
    """a second posting without amount must not pass"""
    for k, L in i.loops.items():
        for ph, nx in L.next.items():
            if N.op != "fold" or L.init[ph] is not N.args[1]:
                continue
            body = N.args[3]
            acc = [x for x in subterms(body) if x.op == "acc"]
            idx = [x for x in subterms(nx) if x.op == "phi" and x is not ph]
            if not acc or not any(same(subst(body, {acc[0]: ph, N.args[2]: ix}, rebuild), nx) for ix in idx):
                continue
            for ix in idx:
                post = post_of(N.args[0], ix)
                c = L.cont
                for hc, ha, w in worlds(post):
                    if hc or ha:
                        continue
                    v = cond(deep_eval(c, w))
                    bad = AND(v, NOT(cond(is_null(ph)))) if ph.op == "phi" and N.args[1] is NULL else AND(v, cond(is_variant(ph, "std::option::Option", "Some")))
                    if same(subst(body, {acc[0]: ph, N.args[2]: ix}, rebuild), nx):
                        ck.ob("second posting without amount is refused", "%s loop at %s" % (FIN, L.span), bad is FALSE,
                              "the loop goes on with two postings without amount: %s" % show(bad, 5))
            return


def check(ck):
    ck.group("finalize", fin)
    ck.group("balance", baltools.balance_contract)
