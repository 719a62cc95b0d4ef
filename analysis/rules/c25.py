"""C25: costs are derived for exchanges between two commodities, and only there.

Every store to Post.cost while a transaction is completed is compared with the rule in all
situations (who has a cost, which amounts are missing, number of commodities, zero totals, which
posting is in which commodity): each situation fixes the truth of the tests on the path to the
store, and the stored value with them."""
from core import *

FIN = "crate::xact::finalize"
COND = "costs are derived for exchanges of two commodities only"
ALLX = "every exchange gets its costs"
VAL = "derived cost is the ratio of the totals times the amount"
WHO = "only postings in the first posting's commodity get a cost"
GIVEN = "a given cost is kept"


def full_pc(i, e):
    c = e.pc
    for l in e.loops:
        c = AND(c, i.loops[l].entry_pc)
    return c


def step_names(path):
    return [s[1] if s[0] == "f" else s[0] for s in path]


def posts_of(t):
    """t is the list of postings of the transaction, possibly as changed by a loop"""
    if t.op == "phi":
        return "posts" in str(t)
    return t.op == "f" and t.args[1] == "posts"


def elem(t):
    """k if t is a posting posts[k]"""
    while t.op in ("b", "box", "deref", "ref"):
        if t.op == "ref":
            b, path = t.args[0], t.args[1]
            ks = [s[1] for s in path if s[0] == "e"]
            if "posts" in step_names(path) and len(ks) == 1:
                return ks[0]
            return None
        t = t.args[0]
    if t.op == "e" and posts_of(t.args[0]):
        return t.args[1]
    return None


def total_of(t):
    """(balance, index) if t is an entry of a balance"""
    if t.op == "e" and t.args[1].op == "c" and t.args[0].op == "f" and t.args[0].args[1] == "amounts":
        return t.args[0].args[0], t.args[1].args[1]
    return None


# what a transaction says besides commodities, amounts and costs
FOREIGN = {"note", "payee", "date", "aux_date", "annotated", "name", "fullname", "account", "accounts", "annotated_commodities", "xacts"}


class Unknown(Exception):
    foreign = False


class World:
    """truth of all tests in one abstract transaction.  posts: per posting (has a cost, has an
    amount, total its commodity belongs to); k: index term of the posting under consideration, at
    position ki; n: commodities in the totals; zero/null/tneg: of totals 0 and 1; azero/aneg: the
    amount of the posting is zero/negative; czero/cneg: the costs written in the journal are"""

    def __init__(self, k, ki, posts, n=2, zero=(False, False), null=(False, False), azero=False, aneg=False, tneg=(False, True), czero=False, cneg=False):
        self.tneg, self.czero, self.cneg = tneg, czero, cneg
        self.k, self.ki, self.posts, self.n = k, ki, posts, n
        self.zero, self.null, self.azero, self.aneg = zero, null, azero, aneg
        self.memo = {}

    # positions
    def pos(self, k):
        if k is self.k:
            return self.ki
        k = self.val(k)
        if k.op == "c" and isinstance(k.args[1], int) and 0 <= k.args[1] < len(self.posts):
            return k.args[1]
        if k.op == "+" and any(x.op == "len" for x in k.args):
            n = len(self.posts) + sum(x.args[1] for x in k.args if x.op == "c")
            if 0 <= n < len(self.posts):
                return n
        return None

    def posting(self, t):
        """position if t is a posting"""
        t = self.val(t)
        k = elem(t)
        return None if k is None else self.pos(k)

    def amount(self, t, field="amount"):
        """position if t is the amount (the cost) of a posting"""
        t = self.val(t)
        if t.op == "f" and t.args[1] == "0":
            t = t.args[0]
        if t.op == "v":
            t = t.args[0]
        if t.op == "f" and t.args[1] == field:
            return self.posting(t.args[0])
        return None

    def total(self, t):
        """(balance, index) if t is an entry of a balance; the last one counts from the end"""
        t = self.val(t)
        if t.op == "e" and t.args[1].op == "last":
            t = mk("e", t.args[0], mk("c", "usize", self.n - 1))
        return total_of(t)

    def side(self, t):
        """total in whose commodity the amount t is"""
        r = self.total(t)
        if r is not None:
            return r[1] if r[1] in (0, 1) else None
        p = self.amount(t)
        return None if p is None else self.posts[p][2]

    def link(self, t):
        t = strip_content(self.val(t))
        if t.op == "f" and t.args[1] == "commodity":
            return self.side(t.args[0])
        return None

    # folds over the postings
    def over_posts(self, seq):
        seq = strip_content(seq)
        return posts_of(seq) or (seq.op in ("enum", "iter") and posts_of(seq.args[0]))

    def at(self, body, bv_, j, acc=None, val=None):
        m = {bv_: mk("c", "usize", j)}
        if acc is not None:
            m[acc] = val
        return subst(body, m, rebuild)

    def fold(self, t):
        seq, init, bv_, step = t.args[:4]
        if not self.over_posts(seq):
            raise Unknown(show(t, 4)[:200])
        if any(x.op.startswith("bal.") for x in subterms(step)):
            raise Unknown(show(t, 4)[:200])
        acc = mk("acc", bv_.args[0])
        v = init
        for j in range(len(self.posts)):
            v = self.val(self.at(step, bv_, j, acc, v))
        return v

    def first(self, t):
        seq, lam = t.args[:2]
        if not self.over_posts(seq):
            raise Unknown(show(t, 4)[:200])
        b = self.bound(lam)
        for j in range(len(self.posts)):
            if self.truth(self.at(lam, b, j) if b is not None else lam):
                return mk("c", "usize", j)
        return length(seq)

    def bound(self, lam):
        bs = [x for x in subterms(lam) if x.op == "bv"]
        if len(set(bs)) > 1:
            raise Unknown(show(lam, 4)[:200])
        return bs[0] if bs else None

    def val(self, t):
        """t with all its tests and folds over the postings decided"""
        if not isinstance(t, T):
            return t
        if t.id in self.memo:
            return self.memo[t.id]
        r = t
        if t.op == "ite":
            x = t
            while x.op == "ite":
                x = x.args[1] if self(x.args[0]) else x.args[2]
            r = self.val(x)
        elif t.op == "fold" and self.over_posts(t.args[0]) and not any(x.op.startswith("bal.") for x in subterms(t.args[3])):
            r = self.fold(t)
        elif t.op == "first" and self.over_posts(t.args[0]):
            r = self.first(t)
        elif t.args and t.op not in ("c", "param", "phi", "fold", "bv", "acc", "exists", "first"):
            na = tuple(self.val(a) if isinstance(a, T) else a for a in t.args)
            if t.op == "ref":
                na = (na[0], tuple(tuple(self.val(y) if isinstance(y, T) else y for y in s) for s in t.args[1])) + na[2:]
            if not all(p is q or p == q for p, q in zip(na, t.args)):
                r = rebuild(t.op, na)
                if r.op == "ite":
                    r = self.val(r)
        self.memo[t.id] = r
        return r

    def truth(self, c):
        c = self.val(c)
        if c is TRUE or c is FALSE:
            return c is TRUE
        return self(c)

    def __call__(self, at):
        if at is TRUE or at is FALSE:
            return at is TRUE
        if at.op == "ite":
            return self.truth(at)
        if at.op == "exit":
            return False
        if at.op == "fold":
            v = self.fold(at)
            if v is TRUE or v is FALSE:
                return v is TRUE
        if at.op == "exists" and self.over_posts(at.args[0]):
            b = self.bound(at.args[1])
            return any(self.truth(self.at(at.args[1], b, j) if b is not None else at.args[1]) for j in range(len(self.posts)))
        if at.op == "is" and "Some" in at.args:
            x = self.val(at.args[0])
            if x.op == "f" and x.args[1] in ("cost", "amount"):
                p = self.posting(x.args[0])
                if p is not None:
                    return self.posts[p][0 if x.args[1] == "cost" else 1]
            if x.op == "f" and x.args[1] == "date":
                return True
            if x is not at.args[0]:
                c = cond(is_variant(x, "std::option::Option", "Some"))
                if c is TRUE or c is FALSE:
                    return c is TRUE
        if at.op == "isnull":
            r = self.link(at.args[0])
            if r is not None:
                return self.null[r]
            x = self.val(at.args[0])
            c = is_null(x)
            if c is TRUE or c is FALSE:
                return c is TRUE
            if x.op in ("ref", "box", "b", "e"):
                return False
        if at.op == "eq":
            rs = [self.link(z) for z in at.args]
            if None not in rs:
                return rs[0] == rs[1]
            vs = [self.number(z) for z in at.args]
            if None not in vs:
                return vs[0] == vs[1]
        if at.op == "lt":
            vs = [self.number(z) for z in at.args]
            if None not in vs:
                return vs[0] < vs[1]
            if at.args[0] is self.k:
                return True
        if at.op == "nonempty" and at.args[0].op == "f":
            if at.args[0].args[1] == "amounts":
                return self.n > 0
            if at.args[0].args[1] == "posts":
                return bool(self.posts)
        if at.op in ("dec.zero", "dec.pos"):
            x = at.args[0]
            if x.op == "f" and x.args[1] == "quantity":
                r = self.total(x.args[0])
                if at.op == "dec.zero" and r is not None and r[1] in (0, 1):
                    return self.zero[r[1]]
                if at.op == "dec.pos" and r is not None and r[1] in (0, 1):
                    return not self.tneg[r[1]]
                p = self.amount(x.args[0])
                if p is not None and at.op == "dec.zero":
                    return self.azero if p == self.ki else False
                if p is not None and at.op == "dec.pos":
                    return not self.aneg if p == self.ki else True
                if self.amount(x.args[0], "cost") is not None:
                    return self.czero if at.op == "dec.zero" else not self.cneg
        u = Unknown(show(at, 6)[:200])
        u.foreign = any(y.op == "f" and y.args[1] in FOREIGN for y in subterms(at))
        raise u

    def number(self, t):
        t = self.val(t)
        if t.op == "c" and isinstance(t.args[1], int):
            return t.args[1]
        if t is self.k:
            return self.ki
        if t.op == "len":
            x = t.args[0]
            if x.op == "f" and x.args[1] == "amounts":
                return self.n
            if self.over_posts(x):
                return len(self.posts)
        if t.op == "+":
            vs = [self.number(x) for x in t.args]
            return None if None in vs else sum(vs)
        return None


def stores(i):
    for e in i.events:
        if e.kind == "store" and e.args[0].op == "ref":
            path = step_names(e.args[0].args[1])
            if path and path[-1] == "cost":
                yield e, path
        elif e.kind == "store" and e.args[0].op == "ref" and "cost" in step_names(e.args[0].args[1]):
            yield e, step_names(e.args[0].args[1])


def transactions(length):
    """all ways to give each posting one of the two commodities"""
    out = [()]
    for _ in range(length):
        out = [x + (s,) for x in out for s in (0, 1)]
    return [x for x in out if 0 in x and 1 in x]


def lengths(k, *ts):
    """numbers of postings beyond three that a test of the code singles out"""
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op in ("lt", "eq") and any(y is k or y.op == "len" and posts_of(strip_content(y.args[0])) for a in x.args for y in subterms(a)):
                out |= {y.args[1] for a in x.args for y in subterms(a) if y.op == "c" and type(y.args[1]) is int and abs(y.args[1]) > 1}
    return sorted({n for m in out for n in (abs(m) - 1, abs(m), abs(m) + 1, abs(m) + 2) if 3 < n < 80})[:12]


def patterns(n):
    return [(0,) * (n - 1) + (1,), (0,) + (1,) * (n - 1), tuple(j % 2 for j in range(n))]


def derived(ck):
    i = ck.run(FIN)
    evs = [(e, p) for e, p in stores(i) if full_pc(i, e) is not FALSE]
    done = 0
    for e, path in evs:
        where = "%s at %s" % (e.fn, e.span)
        ks = [s[1] for s in e.args[0].args[1] if s[0] == "e"]
        if "posts" not in path or len(ks) != 1:
            ck.undecided(COND, where, "stores to %s" % show(e.args[0], 4)[:200])
            continue
        k = ks[0]
        c = full_pc(i, e)
        done += 1
        try:
            for length_ in (2, 3):
                for sides in transactions(length_):
                    for ki in range(length_):
                        situations(ck, where, e, c, k, ki, sides)
            for n in lengths(k, c, e.args[1]):
                for sides in patterns(n):
                    for ki in sorted({0, 1, n // 2, n - 2, n - 1}):
                        situations(ck, where, e, c, k, ki, sides, few=True)
        except Unknown as u:
            if u.foreign:
                ck.ob(COND, where, False, "whether a cost is derived depends on %s" % u)
            else:
                ck.undecided(COND, where, "test %s" % u)
    if not evs:
        ck.ob(ALLX, FIN, False, "no cost is ever derived")
    ck.count("derived cost stores", done)


def situations(ck, where, e, c, k, ki, sides, few=False):
    """one posting of a transaction whose postings are in the given commodities"""
    plain = [(False, True, s) for s in sides]
    me = "posting %d of commodities %s" % (ki, sides)
    bad = []
    for what, kw in (("there is one commodity", dict(n=1)), ("there are three commodities", dict(n=3)),
                     ("the first total is zero", dict(zero=(True, False))), ("the second total is zero", dict(zero=(False, True))),
                     ("both totals are zero", dict(zero=(True, True)))):
        bad.append((COND, what, plain, kw))
    for j in range(len(plain)) if not few else (0, len(plain) - 1):
        for sort, kw in (("", {}), (" of zero", dict(czero=True)), (" below zero", dict(cneg=True))):
            bad.append((GIVEN, "posting %d has a cost%s" % (j, sort), plain[:j] + [(True, True, sides[j])] + plain[j + 1:], kw))
        if j != ki:
            # the posting itself must have an amount: without one nothing is computed
            bad.append((COND, "the amount of posting %d is missing" % j, plain[:j] + [(False, False, sides[j])] + plain[j + 1:], {}))
    for rule, what, posts, kw in bad:
        x = World(k, ki, posts, **kw).truth(c)
        ck.ob(rule, "%s: %s: %s" % (where, me, what), not x, "a cost is derived although %s" % what)
    for null in ((False, False), (True, False), (False, True)):
        for azero, aneg, tneg in ((False, False, (False, True)), (False, False, (True, False)), (True, False, (False, True)), (False, True, (True, True)),
                                  (False, True, (False, False)), (False, False, (True, True)), (False, False, (False, False))):
            alone = sides.count(sides[ki]) == 1
            if alone and (azero or tneg[sides[ki]] != aneg):
                continue        # its amount is the total
            w = World(k, ki, plain, null=null, azero=azero, aneg=aneg, tneg=tneg)
            case = "%s%s%s%s, totals %s" % (me, "" if null == (False, False) else ", total %d without symbol" % null.index(True),
                                            ", zero" if azero else "", ", negative" if aneg else "", "".join("-" if n else "+" for n in tneg))
            x = w.truth(c)
            if sides[ki] != sides[0]:
                ck.ob(WHO, "%s: %s" % (where, case), not x, "gets a cost")
                continue
            ck.ob(ALLX, "%s: %s" % (where, case), x, "gets no cost")
            if x:
                value(ck, where, case, e.args[1], w, sides[ki])


def by_sign(v):
    return any(x.op == "dec.pos" and x.args[0].op == "f" and total_of(x.args[0].args[0]) is not None for x in subterms(v))


def signed(w, q):
    """(negative?, magnitude) of a decimal in the situation w, None if not known"""
    if q.op in ("dec.mul", "dec.div"):
        a, b = signed(w, q.args[0]), signed(w, q.args[1])
        return None if a is None or b is None else (a[0] != b[0], dec_bin(q.op[4:], a[1], b[1]))
    if q.op in ("dec.neg", "dec.abs", "dec.nabs"):
        a = signed(w, q.args[0])
        return None if a is None else ({"dec.neg": not a[0], "dec.abs": False, "dec.nabs": True}[q.op], a[1])
    if q.op == "f" and q.args[1] == "quantity":
        r = w.total(q.args[0])
        if r is not None and r[1] in (0, 1):
            return w.tneg[r[1]], dec_abs(q)
        if w.amount(q.args[0]) == w.ki:
            return w.aneg, dec_abs(q)
    return None


def value(ck, where, case, v, w, a):
    v0, v = v, w.val(v)
    if not (v.op == "agg" and v.args[1] == "Some"):
        ck.ob(VAL, "%s: %s" % (where, case), False, "the cost is %s" % show(v, 4)[:200])
        return
    am = v.args[3]
    q, cm = canon(fldval(am, "quantity")), fldval(am, "commodity")
    parts = {}
    for x in subterms(q):
        if x.op == "f" and x.args[1] == "quantity":
            r = w.total(x.args[0])
            if r is not None:
                parts[r[1]] = x
            elif w.amount(x.args[0]) == w.ki:
                parts["a"] = x
    alts = []
    if {0, 1, "a"} <= set(parts):
        y, x, p = parts[1 - a], parts[a], parts["a"]
        alts = [canon(dec_bin("mul", dec_abs(dec_bin("div", y, x)), p)),
                canon(dec_bin("mul", dec_bin("div", dec_abs(y), dec_abs(x)), p))]
    ok = q in alts
    if not ok and by_sign(v0):
        # the code distinguishes signs: compare sign and magnitude in this situation
        got = signed(w, q)
        if got is None:
            raise Unknown("sign of a total in %s" % show(v0, 4)[:200])
        ok = got in [signed(w, x) for x in alts] or w.azero
    ck.ob(VAL, "%s: %s" % (where, case), ok, "the quantity is %s" % show(q, 6)[:300])
    if not w.null[1 - a]:
        ck.ob(VAL, "%s: %s: commodity" % (where, case), w.link(cm) == 1 - a, "the commodity is %s" % show(cm, 5)[:200])


def check(ck):
    ck.group(COND, derived)
