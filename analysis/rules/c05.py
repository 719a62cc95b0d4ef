"""C05 An account's balance is the sum of its own and all its sub-accounts' postings.

(1) `Account::amount` is a fold over all of self.posts that adds each present amount once;
`Account::total` adds the total of every sub-account once and the account's own postings once.
(2) `parse_post` appends exactly one posting to the transaction and that posting to exactly the
account it names, on every path that succeeds.  (3) Nothing else adds to, removes from or
reorders these lists.  (4) Balance addition keeps every entry (see C03)."""
from core import *
from rules import baltools
from rules.c04 import deep_eval, pay_of

ACCT = "crate::account::Account"


def posts_sum(t, acct):
    """is t (a fold over the account's own posts starting from ini) right?  returns (ini, ok, why)"""
    seq, ini, bv, body = t.args[:4]
    post = mk("deref", proj(seq, ("e", bv)))
    am = fldval(post, "amount")
    acc = [x for x in subterms(body) if x.op == "acc"]
    for has in (True, False):
        def w(at):
            if at.op == "is" and at.args[0] is am:
                return has if at.args[1] == "Some" else not has
            return None
        v = deep_eval(body, w)
        want = (mk("bal.add", acc[0], pay_of(am)) if has else acc[0]) if acc else None
        if v is not want:
            return ini, False, "a posting with%s amount changes the balance to %s" % ("" if has else "out", show(v, 6))
    return ini, True, ""


def child(x, acct):
    """x is sub-account number E of acct: returns E"""
    m = fldval(acct, "accounts")
    while x.op in ("ref", "deref") and (x.op == "deref" or (x.args[0][0] == "H" and not x.args[1])):
        x = x.args[0] if x.op == "deref" else x.args[0][1]
    if x.op == "ref":
        # reference into the account's own map
        b, p = x.args
        if len(p) == 3 and p[0] == ("f", "accounts") and p[1][0] == "e" and p[2] == ("b",):
            k = p[1][1]
            return index_of(k, m)
        return None
    if x.op == "b":
        x = x.args[0]
    if x.op == "e" and x.args[0] is m:
        return index_of(x.args[1], m)
    return None


def index_of(k, m):
    while k.op in ("deref",) or (k.op == "ref" and k.args[0][0] == "V"):
        k = k.args[0] if k.op == "deref" else k.args[0][1]
    if k.op == "e" and k.args[0].op == "keys" and k.args[0].args[0] is m:
        return k.args[1]
    return None


def is_each(idx, bv):
    """the index runs over all positions: the loop variable itself or a permutation of it"""
    return idx is not None and (idx is bv or (idx.op == "perm" and idx.args[-1] is bv))


def each_child(a, acct, bv):
    ls = leaves(a)
    if len(ls) > 1 and any(x is bv for c, _ in ls for x in subterms(c)):
        return False
    return all(is_each(child(l, acct), bv) for _, l in ls)


def adds_total(ck, path, k, n):
    """the function adds the total of the account it is given to the balance behind its parameter k
    (by induction over the tree: the recursive calls are taken to)"""
    known = ck.__dict__.setdefault("adding", {})
    key = (path, k)
    if key not in known:
        known[key] = True
        i = ck.run(path)
        accts = [p for j, p in enumerate(i.params) if j != k and i.prog.tys(i.fn["locals"][j + 1][0]).endswith("account::Account")]
        ok = len(i.params) == n and len(accts) == 1 and i.out is not None and i.out.pc is TRUE
        if ok:
            base = mk("deref", i.params[k])
            o, c, bad = parts(ck, baltools.whole(canon(heap(i, i.params[k]))), mk("deref", accts[0]), i.fn, base)
            ok = (o, c, bad) == (1, 1, [])
        known[key] = ok
    return known[key]


def parts(ck, t, acct, f, start=None):
    """decompose a balance into {'own': n, 'children': n, 'bad': [...]}"""
    own, kids, bad = 0, 0, []
    m = fldval(acct, "accounts")
    while True:
        if t.op == "bal.new" and start is None or t is start:
            return own, kids, bad
        if t.op == "bal.addb":
            x = t.args[1]
            if x.op == "acct.amount" and x.args[0] is acct:
                own += 1
            elif x.op == "fold" or x.op.startswith("bal."):
                o, k, b = parts(ck, x, acct, f)
                own, kids, bad = own + o, kids + k, bad + b
            else:
                bad.append("adds %s" % show(x, 5))
            t = t.args[0]
            continue
        if t.op == "fold":
            seq, ini, bv, body = t.args[:4]
            if seq is fldval(acct, "posts"):
                _, ok, why = posts_sum(t, acct)
                own += 1
                if not ok:
                    bad.append(why)
            elif body.op == "bal.addb" and body.args[0].op == "acc":
                x = body.args[1]
                if x.op in ("rec", "acct.total") and (x.op == "acct.total" or x.args[0].endswith("::total")):
                    a = x.args[0] if x.op == "acct.total" else x.args[1]
                    if (seq.op == "keys" and seq.args[0] is m or length(seq) is length(mk("keys", m))) and each_child(a, acct, bv):
                        kids += 1
                    else:
                        bad.append("adds the totals of %s over %s" % (show(a, 6), show(seq, 6)))
                elif x.op == "acct.amount" and seq.op == "acct.tree" and seq.args[0] is acct:
                    # sum over the flattened tree: own amount and all descendants
                    own, kids = own + 1, kids + 1
                else:
                    bad.append("adds %s for each of %s" % (show(x, 6), show(seq, 5)))
            elif body.op == "mut" and body.args[2 + body.args[1]].op == "acc" and adds_total(ck, body.args[0], body.args[1], len(body.args) - 2):
                a = [x for x in body.args[2:] if child(x, acct) is not None]
                if len(a) == 1 and (seq.op == "keys" and seq.args[0] is m or length(seq) is length(mk("keys", m))) and each_child(a[0], acct, bv):
                    kids += 1
                else:
                    bad.append("adds the totals of %s over %s" % (show(body, 5), show(seq, 6)))
            else:
                bad.append("for each of %s the balance becomes %s" % (show(seq, 5), show(body, 6)))
            t = ini
            continue
        if t.op == "acct.amount" and t.args[0] is acct:
            own += 1
            return own, kids, bad
        if has_phi(t):
            why = foreign(ck.run(f["path"]), t)
            if why:
                return own, kids, bad + [why]
            raise AnalysisError("the balance is the result of a loop not understood: %s" % show(t, 6))
        bad.append("starts from %s" % show(t, 6))
        return own, kids, bad


OTHER = {"note", "cost", "date", "aux_date", "payee", "fullname"}


def foreign(i, t):
    """what a balance gathered by a loop depends on besides postings and their amounts"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in subterms(x):
            if y.op == "f" and y.args[1] in OTHER:
                return "whether an amount is added depends on %s" % show(y, 6)
            if y.op == "phi":
                for L in i.loops.values():
                    if y in L.next:
                        todo += [L.next[y], L.init[y], L.cont]
            if y.op == "lt" and y.args[0].op == "phi" and y.args[1].op == "c" and y.args[1].args[1] > 0:
                return "at most %s items are added" % show(y.args[1])
    return None


def sums(ck):
    i = ck.run(ACCT + "::amount")
    acct = mk("deref", i.params[0])
    o, k, bad = parts(ck, baltools.whole(canon(i.ret)), acct, i.fn)
    ck.ob("own postings", loc(i.fn), not bad and (o, k) == (1, 0), "; ".join(bad) or "own postings are added %d times, sub-accounts %d times" % (o, k))
    ck.ob("own postings total", loc(i.fn), i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 6))
    i = ck.run(ACCT + "::total")
    acct = mk("deref", i.params[0])
    o, k, bad = parts(ck, baltools.whole(canon(i.ret)), acct, i.fn)
    ck.ob("total of an account", loc(i.fn), not bad and (o, k) == (1, 1), "; ".join(bad) or "own postings are added %d times, sub-accounts %d times" % (o, k))
    ck.ob("total of an account", loc(i.fn), i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 6))
    for f in (ACCT + "::amount", ACCT + "::total"):
        i = ck.run(f)
        w = [e for e in i.events if e.kind == "store"]
        ck.ob("reading a balance changes nothing", f, not w, "writes %s" % (show(w[0].args[0], 5) if w else ""))


def ok_cond(i):
    """condition under which a function that returns Result/() succeeded"""
    rt = i.prog.tys(i.fn["locals"][0][0])
    if "Result<" in rt:
        return AND(i.out.pc, cond(is_variant(i.ret, "std::result::Result", "Ok")))
    return i.out.pc


def links(ck):
    i = ck.run("crate::parser::parse_post")
    f = i.fn
    names = {l[1]: k for k, l in enumerate(f["locals"]) if l[1] and k <= f["argc"]}
    ptypes = [i.prog.tys(f["locals"][k + 1][0]) for k in range(f["argc"])]
    xi = [k for k, t in enumerate(ptypes) if t.endswith("xact::Xact")]
    if len(xi) != 1:
        raise Missing("transaction parameter of parse_post")
    xp = i.params[xi[0]]
    good = ok_cond(i)
    oldp = fldval(mk("deref", xp), "posts")
    new = simp(fldval(heap(i, xp), "posts"), good)
    lv = [l for _, l in leaves(new, good)]
    ok1 = bool(lv) and all(l.op == "vec.push" and l.args[0] is oldp for l in lv)
    ck.ob("posting joins its transaction once", loc(f), ok1, "the transaction's postings become %s" % show(new, 5))
    if not ok1:
        return
    for l in lv:
        post = proj(l.args[1], ("b",))
        x = fldval(post, "xact_ptr")
        okx = all(y is xp or (y.op == "ref" and y.args == (("H", xp), ())) for _, y in leaves(x, good))
        ck.ob("posting knows its transaction", loc(f), okx, "its transaction link is %s" % show(x, 5))
        a = simp(fldval(post, "account"), good)
        named = mk("account", fldval(scan_post(i), "account"))
        oka = all(strip(y) is strip(named) for _, y in leaves(a, good))
        ck.ob("posting knows the account it names", loc(f), oka, "its account link is %s" % show(a, 6))
    # and the account gets it
    dest = [b for b in i.out.store if b[0] == "H" and b[1].op == "account"]
    acc = [b for b in dest if strip(b[1]) is strip(named)]
    ok2 = len(acc) == 1
    if ok2:
        r = acc[0][1]
        o = fldval(mk("deref", r), "posts")
        n = simp(fldval(heap(i, r), "posts"), good)
        for c, l in leaves(n, good):
            okp = l.op == "vec.push" and l.args[0] is o and last_post(l.args[1], xp)
            ck.ob("posting joins its account once", loc(f), okp, "the account's postings become %s" % show(l, 6))
    else:
        ck.ob("posting joins its account once", loc(f), False, "nothing is added to the account named by the posting")
    for b in dest:
        if b not in acc:
            n = fldval(i.base_value(i.out, b), "posts")
            ck.ob("other accounts unchanged", loc(f), n is fldval(mk("deref", b[1]), "posts"), "postings of %s become %s" % (show(b[1], 5), show(n, 5)))


def scan_post(i):
    xs = {x for b, v in i.out.store.items() for x in subterms(v) if x.op == "scan.post"}
    if len(xs) != 1:
        raise AnalysisError("posting scanned %d times" % len(xs))
    return next(iter(xs))


def strip(t):
    from rules.c02 import strip_strs
    return strip_strs(t)


def last_post(r, xp):
    if r.op != "ref":
        return False
    b, p = r.args
    return b == ("H", xp) and len(p) == 3 and p[0] == ("f", "posts") and p[2] == ("b",) and p[1][0] == "e" and \
        (p[1][1].op == "last" or p[1][1] is length(fldval(mk("deref", xp), "posts")))


def lists(ck):
    prog = ck.ctx.prog
    i = ck.run("crate::parser::parse_post")
    n = 0
    for el in ("std::boxed::Box<post::Post>", "*const post::Post", "post::Post"):
        for f, m, sp in additions(prog, el):
            n += 1
            ck.ob("postings are added only when parsed", "%s %s" % (f["path"], m), f["path"] in i.seen_fns, "adds a posting at %s" % sp)
    ck.ob("floor", "posting additions", n >= 2, "%d found" % n)
    rem = [(f, m, ta, sp) for f, m, ta, sp in removals(prog) if any("post::Post" in t for t in ta)]
    ck.ob("postings are never removed", "crate", not rem, "; ".join("%s calls %s (%s)" % (f["path"], m, sp) for f, m, ta, sp in rem))
    for o, fl in (("Xact", "posts"), ("Account", "posts")):
        for w, sp in writers(prog, o, fl).items():
            direct = [x for x in sp if x[0] == "assign" and x[2] == 0]
            ck.ob("posting lists are never replaced", w, not direct, "assigns %s.%s at %s" % (o, fl, direct[0][1] if direct else ""))


def check(ck):
    ck.group("sums", sums)
    ck.group("links", links)
    ck.group("lists", lists)
    ck.group("balance", baltools.balance_contract)
    from rules import c08
    ck.part("account the line names", c08.tree, lambda r, w: True)
