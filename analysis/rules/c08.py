"""C08 One account per full name, at the place the name says.

`Account::find_or_create` is compared, case by case (separator present or not, first part known or
not, rest empty or not, creation wanted or not), with its specification: the first part of the
name selects or creates exactly the sub-account stored under that part; an existing sub-account is
never replaced; the rest of the name is resolved in that sub-account by the same function.
`fullname` joins the names on the way to the root with ':'.  Lookups create nothing.  No other
function writes the name, parent or sub-accounts of an account."""
from core import *
from rules.c04 import deep_eval, pay_of
from rules.c02 import strip_strs

ACCT = "crate::account::Account"
FOC = ACCT + "::find_or_create"


def spec(ck, i, auto_fixed=None):
    f = i.fn
    s, name = i.params[0], i.params[1]
    auto = i.params[2] if len(i.params) > 2 else None
    acct = mk("deref", s)
    m = fldval(acct, "accounts")
    ret, mem = i.ret, simp(heap(i, s), TRUE)
    if has_phi(ret, mem):
        raise AnalysisError("the lookup is a loop that was not resolved")
    P = charset(":")
    nm = strip_strs(name)
    splits = {(x.op, x.args[0], x.args[1]) for t in (ret, mem) for x in subterms(t) if x.op in ("upto", "from", "after", "first", "exists", "lastmatch")}
    bad = [x for x in splits if x[2] is not P]
    ck.ob("name is split at its first colon", loc(f), bool(splits) and not bad, "the name is split by %s" % [(o, show(x, 4), show(y, 4)) for o, x, y in bad or splits])
    if bad or not splits:
        return
    firsts = {True: upto(name, P), False: name}
    rest = after(name, P)

    def nosep(t):
        m = {}
        for x in strops(t):
            if x.args[1] is P and strip_strs(x.args[0]) is nm:
                m[x] = x.args[0] if x.op == "upto" else cstr("")
        return subst(t, m, rebuild) if m else t

    for hs in (True, False):
        first = firsts[hs]
        for known in (True, False):
            for more in ((True, False) if hs else (False,)):
                for create in (True, False):
                    if auto is None and create:
                        continue

                    def w(at):
                        if at.op == "exists" and at.args[1] is P and strip_strs(at.args[0].args[0]) is nm:
                            return hs
                        if auto is not None and at is auto:
                            return create
                        if at.op == "has" and at.args[0] is m:
                            k = strip_strs(at.args[1])
                            if k is strip_strs(name):
                                return known if not hs else False
                            if k is strip_strs(firsts[True]):
                                return known
                        if at.op == "nonempty" and strip_strs(at.args[0]) is strip_strs(rest):
                            return more
                        return None
                    ns = (lambda t: t) if hs else nosep
                    v = simp(deep_eval(ns(ret), w), TRUE)
                    h = fldval(simp(deep_eval(ns(mem), w), TRUE), "accounts")
                    case = "%s, first part %s%s%s" % ("a:b" if hs else "a", "known" if known else "unknown",
                                                      "" if not hs else ", rest not empty" if more else ", rest empty",
                                                      ", creating" if create else "")
                    # memory
                    if known or not create:
                        ck.ob("existing sub-accounts stay", "%s [%s]" % (loc(f), case), h is m, "the sub-accounts become %s" % show(h, 6))
                    else:
                        okm = h.op == "map.ins" and h.args[0] is m and strip_strs(h.args[1]) is strip_strs(first)
                        why = "the sub-accounts become %s" % show(h, 6)
                        if okm:
                            a = proj(h.args[2], ("b",))
                            okm = fldval(a, "parent") in (s, mk("ref", ("H", s), ())) and strip_strs(simp(deep_eval(fldval(a, "name"), w), TRUE)) is strip_strs(first) and \
                                nonempty(fldval(a, "accounts")) is FALSE and nonempty(fldval(a, "posts")) is FALSE and fldval(a, "fullname") is cstr("")
                            why = "the new sub-account is %s" % show(a, 6)
                        ck.ob("new sub-account", "%s [%s]" % (loc(f), case), okm, why)
                    # result
                    if not known and not create:
                        ck.ob("unknown account is not found", "%s [%s]" % (loc(f), case), v is NONE, "returns %s" % show(v, 6))
                        continue
                    child = mk("ref", ("H", s), (("f", "accounts"), ("e", first), ("b",)))
                    if more:
                        v = under(v)
                        recs = [x for x in subterms(v) if x.op == "rec"]
                        okr = len(recs) == 1 and recs[0].args[0] == f["path"] and rec_ok(recs[0], child, m, first, rest, auto, create, h, w)
                        if okr:
                            r = recs[0]
                            full = ite(cond(is_variant(r, "std::option::Option", "Some")), some(pay_of(r)), NONE)
                            alt = ite(cond(is_variant(r, "std::option::Option", "Some")), some(mk("ref", ("H", pay_of(r)), ())), NONE)
                            okr = v is r or same(strip_strs(v), strip_strs(full)) or same(strip_strs(v), strip_strs(alt))
                        ck.ob("rest is resolved in the sub-account", "%s [%s]" % (loc(f), case), okr, "returns %s" % show(v, 7))
                    else:
                        okr = v.op == "agg" and v.args[1] == "Some" and strip_refs(v.args[3]) == strip_refs(child)
                        ck.ob("account found at its place", "%s [%s]" % (loc(f), case), okr, "returns %s" % show(v, 6))
    ck.ob("lookup always returns", loc(f), i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 5))


def under(v):
    """each case simplified with what holds in it"""
    if v.op != "ite":
        return v
    c = cond(v.args[0])
    return ite(c, under(simp(v.args[1], c)), under(simp(v.args[2], NOT(c))))


def all_atoms(t):
    for x in subterms(t):
        if x.op == "ite":
            yield x.args[0]


def strip_refs(r):
    if r.op == "ref":
        return (r.args[0][0], strip_strs(r.args[0][1]) if isinstance(r.args[0][1], T) else r.args[0][1],
                tuple((s[0],) + tuple(strip_strs(x) if isinstance(x, T) else x for x in s[1:]) for s in r.args[1]))
    return r


def rec_ok(r, child, m, first, rest, auto, create, h, w):
    a = [simp(deep_eval(x, w), TRUE) for x in r.args[1:]]
    cv = proj(proj(h, ("e", first)), ("b",))
    c0 = a[0]
    okc = strip_strs(c0) is strip_strs(cv) or (c0.op == "ref" and strip_refs(c0) == strip_refs(child)) or \
        strip_strs(c0) is strip_strs(proj(proj(m, ("e", first)), ("b",)))
    if not okc and h.op == "map.ins":
        okc = c0.op == "agg" and strip_strs(fldval(c0, "name")) is strip_strs(first) and nonempty(fldval(c0, "accounts")) is FALSE and nonempty(fldval(c0, "posts")) is FALSE
    okr = strip_strs(a[1]) is strip_strs(rest)
    oka = len(a) < 3 or a[2] is auto or a[2] is (TRUE if create else FALSE)
    return okc and okr and oka


def tree(ck):
    i = ck.run(FOC, without=("tree",))
    spec(ck, i)
    seen = set(i.seen_fns)
    for fl in ("accounts", "name", "parent"):
        confined(ck, "account structure is written only on creation", "Account", fl, seen, (FOC,))
    rem = [(f, m, sp) for f, m, ta, sp in removals(ck.ctx.prog) if any("account::Account" in t for t in ta)]
    ck.ob("accounts are never removed", "crate", not rem, "; ".join("%s calls %s (%s)" % (f["path"], m, sp) for f, m, sp in rem))


def lookup_from(i, ret, root, name, auto):
    """ret is the result of the lookup of name from root; (ok, lookups)"""
    fs = {x for x in subterms(ret) if x.op == "acct.foc"}
    if len(fs) != 1:
        return False
    r = next(iter(fs))
    okr = r.args[0] in root and strip_strs(r.args[1]) is strip_strs(name) and r.args[2] is auto
    v, r = norm_refs(ret, i), norm_refs(r, i)
    full = ite(cond(is_variant(r, "std::option::Option", "Some")), some(pay_of(r)), NONE)
    return okr and (v is r or same(v, full))


def register(ck):
    i = ck.run("crate::journal::Journal::register_account")
    s, name = i.params[:2]
    master = [mk("ref", ("H", s), (("f", "master"), ("b",)))]
    # a remembered account, used when the name asked for is exactly the one it was remembered under
    memo = FALSE
    for x in subterms(i.ret):
        if x.op == "eq" and any(strip_strs(a) is strip_strs(name) for a in x.args):
            o = [a for a in x.args if strip_strs(a) is not strip_strs(name)]
            if o and any(y.op == "f" and y.args[0] is mk("deref", s) and y.args[1] not in ("master", "commodity_pool", "xacts") for y in subterms(o[0])):
                memo = OR(memo, cond(x))
    pc = AND(i.out.pc, NOT(memo))
    ret = simp(i.ret, pc)
    if memo is not FALSE:
        ck.undecided("registering finds or creates below the root", loc(i.fn), "remembers an account")
    ck.ob("registering finds or creates below the root", loc(i.fn), lookup_from(i, ret, master, name, TRUE), "returns %s" % show(ret, 6))
    old = proj(fldval(mk("deref", s), "master"), ("b",))
    new = simp(proj(fldval(heap(i, s), "master"), ("b",)), pc)
    ck.ob("registering changes nothing else", loc(i.fn), all(l.op == "acct.added" and l.args[0] is old for _, l in leaves(new, pc)) and
          all(e.args[0].args[1][:1] not in ((("f", "commodity_pool"),), (("f", "xacts"),), ()) for e in i.events if e.kind == "store" and e.args[0].args[0] == ("H", s)),
          "the journal becomes %s" % show(heap(i, s), 5))
    ck.ob("registering accepts every name", loc(i.fn), implies(nonempty(name), i.out.pc), "refuses a name when %s" % show(AND(nonempty(name), NOT(i.out.pc)), 5))


def norm_refs(t, i):
    """&*p -> p"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or not x.args:
            return x
        r = memo.get(x.id)
        if r is None:
            if x.op == "ref" and x.args[0][0] == "H" and not x.args[1]:
                r = go(x.args[0][1])
            elif x.op == "ite":
                r = ite(cond(go(x.args[0])), go(x.args[1]), go(x.args[2]))
            else:
                na = tuple(go(a) for a in x.args)
                r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
            memo[x.id] = r
        return r
    return go(t)


def finders(ck):
    for p in (ACCT + "::find_account", "crate::journal::Journal::find_account"):
        i = ck.run(p)
        w = [e for e in i.events if e.kind == "store"]
        ck.ob("looking up creates nothing", p, not w, "writes %s (%s)" % (show(w[0].args[0], 5), w[0].span) if w else "")
        s = i.params[0]
        root = [s, mk("ref", ("H", s), ())] if p.startswith(ACCT) else [mk("ref", ("H", s), (("f", "master"), ("b",)))]
        ck.ob("looking up finds the account", p, lookup_from(i, i.ret, root, i.params[1], FALSE), "returns %s" % show(i.ret, 6))
        ck.ob("looking up always answers", p, i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 5))


def fullname(ck):
    i = ck.run(ACCT + "::fullname")
    f = i.fn
    s = i.params[0]
    acct = mk("deref", s)
    par, cached = fldval(acct, "parent"), fldval(acct, "fullname")
    nul, have = cond(is_null(par)), nonempty(cached)
    ret = i.ret

    def case(n, h):
        return lambda at: n if at is par_atom or (at.op == "isnull" and at.args[0] is par) else h if at.op == "nonempty" and at.args[0] is cached else None
    par_atom = None
    root = eval_world(ret, case(True, None)) if eval_world(ret, case(True, None)) is not None else None
    for h in (True, False):
        v = eval_world(ret, case(True, h))
        ck.ob("root has no name", loc(f), v is cstr(""), "the full name of the root is %s" % (show(v, 5) if v is not None else "undetermined"))
    v = eval_world(ret, case(False, True))
    computed = eval_world(ret, case(False, False))
    ck.ob("full name", loc(f), v is cached or v is computed, "the full name is %s although one is stored" % (show(v, 5) if v is not None else "?"))
    if computed is None:
        ck.ob("full name", loc(f), False, "the full name depends on something else: %s" % show(ret, 6))
        return
    joined(ck, i, f, s, computed)
    # what is stored is what was computed
    for e in i.events:
        if e.kind == "store" and e.args[0].args[1] and e.args[0].args[1][-1] == ("f", "fullname"):
            c = simp(e.args[1], e.pc)
            ck.ob("stored full name", loc(f), e.args[0].args[0] == ("H", s) and c is simp(computed, e.pc), "stores %s in %s" % (show(c, 5), show(e.args[0], 5)))
    confined(ck, "full name is written only here", "Account", "fullname", i.seen_fns, (ACCT + "::fullname",))


def joined(ck, i, f, s, t):
    acct = mk("deref", s)
    own = fldval(acct, "name")
    # a list of the names from the account up, turned round and joined
    listed = None
    if t.op == "join" and t.args[0].op == "comp":
        x, b, e = t.args[0].args[:3]
        if e.op == "e" and e.args[0] is x and e.args[1].op == "revidx" and e.args[1].args == (x, b):
            t = mk("join", mk("rev", x), t.args[1])
    if t.op == "join" and t.args[0].op == "rev" and t.args[0].args[0].op == "phi" and strip_strs(t.args[1]) is cstr(":"):
        t = listed = t.args[0].args[0]
    if t.op == "phi":
        for k, L in i.loops.items():
            if t in L.next:
                break
        else:
            raise AnalysisError("loop of %s" % show(t))
        init, nx = L.init[t], L.next[t]
        ptrs = [ph for ph in L.next if ph is not t and init_is_self(L.init[ph], s)]
        whole = listed is not None and init.op == "vec.new"
        if whole and ptrs:
            # the account's own name is taken in the first pass
            p = ptrs[0]
            nxt, pn = fldval(mk("deref", p), "parent"), fldval(mk("deref", p), "name")
            np = L.next[p]
            ck.ob("full name climbs to the parent", loc(f), np is nxt or (np.op == "ref" and np.args == (("H", nxt), ())), "goes on to %s" % show(np, 6))
            ck.ob("full name climbs to the root", loc(f), L.cont is NOT(cond(is_null(nxt))), "goes on while %s" % show(L.cont, 6))
            for ne in (True, False):
                v = eval_world(nx, lambda at: ne if at.op == "nonempty" and at.args[0] is pn else None)
                ck.ob("full name joins parts by colons", loc(f), v is not None and (strip_refs(v) is strip_refs(mk("vec.push", t, pn)) if ne else v is t),
                      "a part with %sname makes the list %s" % ("a " if ne else "no ", show(v, 6) if v is not None else show(nx, 6)))
            return
        if listed is None:
            ck.ob("full name starts with the account's name", loc(f), init is own, "starts with %s" % show(init, 5))
        else:
            ck.ob("full name starts with the account's name", loc(f), strip_refs(init) is strip_refs(vec_of(own)), "the list starts as %s" % show(init, 5))
        pars = [ph for ph in L.next if ph is not t and init_is_self(L.init[ph], fldval(acct, "parent"))]
        if len(ptrs) + len(pars) != 1:
            raise AnalysisError("climbing pointer")
        p = (ptrs + pars)[0]
        # the pointer is the account whose name has been taken, or the one whose name comes next
        nxt = fldval(mk("deref", p), "parent")
        up = nxt if ptrs else p
        np = L.next[p]
        ck.ob("full name climbs to the parent", loc(f), np is nxt or (np.op == "ref" and np.args == (("H", nxt), ())), "goes on to %s" % show(np, 6))
        ck.ob("full name climbs to the root", loc(f), L.cont is NOT(cond(is_null(up))), "goes on while %s" % show(L.cont, 6))
        pn = fldval(mk("deref", up), "name")
        for ne in (True, False):
            v = eval_world(nx, lambda at: ne if at.op == "nonempty" and at.args[0] is pn else (ne if at.op == "isnull" and False else None))
            want = (concat(pn, cstr(":"), t) if listed is None else mk("vec.push", t, pn)) if ne else t
            # an empty name is the root's; whether it is skipped by name or by being the root is the same
            alt = None
            ck.ob("full name joins parts by colons", loc(f), v is not None and (strip_strs(v) is strip_strs(want) or strip_refs(v) is strip_refs(want)),
                  "a parent with %sname makes the full name %s" % ("a " if ne else "no ", show(v, 6) if v is not None else show(nx, 6)))
        return
    recs = [x for x in subterms(t) if x.op == "rec"]
    if recs:
        par = fldval(acct, "parent")
        okr = all(strip_strs(r.args[1]) is strip_strs(mk("deref", par)) and r.args[0] == f["path"] for r in recs)
        r = strip_strs(recs[0])
        for c, l in leaves(strip_strs(t)):
            ne = cond(mk("nonempty", r))
            okr = okr and l in (concat(r, cstr(":"), strip_strs(fldval(acct, "name"))), strip_strs(fldval(acct, "name")))
        ck.ob("full name joins parts by colons", loc(f), okr, "the full name is %s" % show(t, 6))
        return
    if any(x.op in ("phi", "join", "rev") for x in subterms(t)):
        raise AnalysisError("the full name is %s" % show(t, 6))
    ck.ob("full name joins parts by colons", loc(f), False, "the full name is %s" % show(t, 6))


def vec_of(x):
    return mk("vec.push", mk("vec.new"), x)


def strip_refs(t):
    """a list of texts, however its elements are borrowed"""
    if t.op == "agg" and t.args[0] == "array":
        r = mk("vec.new")
        for x in t.args[3:]:
            r = mk("vec.push", r, strip_strs(x))
        return r
    if t.op == "vec.push":
        return mk("vec.push", strip_refs(t.args[0]), strip_strs(t.args[1]))
    return t


def init_is_self(x, s):
    return x is s or (x.op == "ref" and x.args == (("H", s), ()))


def check(ck):
    ck.group("find or create", tree)
    ck.group("register", register)
    ck.group("lookups", finders)
    ck.group("full name", fullname)
    from rules import c15
    ck.part("named accounts", c15.scan_post, lambda r, w: r == "account of the line")
    ck.part("named accounts", c15.postings, lambda r, w: r == "posting's account")
