"""C11 A missing link is never followed.

Every dereference of a raw pointer, in every function, is resolved to the values the pointer may
have there and the condition under which the dereference is reached; a value that may be absent
(null, or a field that may hold null: Amount.commodity, Account.parent, Xact.journal) must be ruled
out by that condition.  Where the pointer is an argument, the obligation passes to the callers.
Links that are followed without a test (postings of accounts, nodes of the price graph, accounts and
transactions of postings) are shown to be set to references only."""
from core import *
from rules.c02 import strip_strs

OPT = "std::option::Option"
NEVER = {"ref", "account", "commodity", "xactref"}
SURE_FIELDS = {"account", "xact_ptr"}
NULLABLE = {"commodity", "parent", "journal", "null_commodity", "default_commodity"}
RULE = "absent links are tested before use"
OPAQUE = ("scan.", "annotation.", "xact.create", "quantity", "call", "opaque", "unknown")


def unref(t):
    while t.op in ("deref", "str", "own") and t.args and isinstance(t.args[0], T):
        t = t.args[0]
    return strip_strs(t)


def nonempty_closure(lits):
    """texts that must be non-empty, given the literals"""
    ne, todo = set(), []

    def put(t):
        t = unref(t)
        if t.id not in {x.id for x in ne}:
            ne.add(t)
            todo.append(t)
    pc = TRUE
    for a, v in lits:
        pc = AND(pc, cond(a) if v else NOT(cond(a)))
    if pc is FALSE:
        return None
    for a, v in lits:
        if v and a.op in ("nonempty", "hasnonws"):
            put(a.args[0])
        elif v and a.op == "is" and a.args[1] == "Ok" and a.args[0].op == "call" and "from_str" in str(a.args[0].args[0]):
            put(simp(a.args[0].args[1], pc))
        elif v and a.op == "dparses":
            put(simp(a.args[1], pc))
    while todo:
        t = todo.pop()
        if t.op in ("upto", "from", "trim_start", "trim_end", "slice", "trim"):
            if isinstance(t.args[0], T):
                put(t.args[0])
        if t.op == "trim_start":
            # the first character is no blank: the first word is not empty either
            for cs in (charset(" \t"), charset(" "), charset("\t ")):
                put(upto(t, cs))
    return ne


def satisfiable(c):
    """False when c is contradictory because an empty text would have to be a number or have parts"""
    if c is FALSE:
        return False
    cs = cubes(c, 256)
    if len(cs) >= 256:
        return True
    for lits in cs:
        ne = nonempty_closure(lits)
        if ne is None:
            continue
        ids = {t.id for t in ne}
        pc = TRUE
        for a, v in lits:
            pc = AND(pc, cond(a) if v else NOT(cond(a)))
        if any(not v and a.op == "nonempty" and (unref(a.args[0]).id in ids or unref(simp(a.args[0], pc)).id in ids) for a, v in lits):
            continue
        return True
    return False


def opaque(c, v):
    return any(any(x.op.startswith(o) for o in OPAQUE) or x.op == "phi" for t in list(support(c)) + [v] for x in subterms(t))


def raw_params(prog, f):
    return [k for k in range(f["argc"]) if prog.types[f["locals"][k + 1][0]]["k"] == "ptr"]


def values(v, c):
    """(condition, value) of a pointer, options opened"""
    for cc, x in leaves(v, c):
        yield cc, x


def judge(ck, i, f, v, c, pre, sure):
    """'ok', 'pre' (obligation of the callers), 'bad' or 'open'"""
    worst, why = "ok", ""
    order = {"ok": 0, "pre": 1, "open": 2, "bad": 3}

    def put(r, w):
        nonlocal worst, why
        if order[r] > order[worst]:
            worst, why = r, w
    for cc, x in values(v, c):
        if cc is FALSE or x.op in NEVER:
            continue
        if x.op == "null":
            if satisfiable(cc):
                put("open" if opaque(cc, x) else "bad", "null when %s" % show(cc, 4)[:300])
            continue
        n = AND(cc, is_null(x))
        if n is FALSE or not satisfiable(n):
            continue
        if x.op == "param":
            if x in i.params and i.params.index(x) in raw_params(ck.ctx.prog, f):
                pre.add((i.params.index(x), ()))
                put("pre", "")
                continue
        if x.op == "f":
            root, steps = x, []
            while root.op == "f":
                steps.insert(0, ("f", root.args[1]))
                root = root.args[0]
            if steps[-1][1] in SURE_FIELDS:
                continue
            if root.op == "param" and root in i.params and steps[-1][1] == "commodity" and len(steps) == 1 and \
                    ck.ctx.prog.tys(f["locals"][i.params.index(root) + 1][0]).endswith("history::Price"):
                pre.add((i.params.index(root), tuple(steps)))
                put("pre", "")
                continue
            if root.op == "deref" and root.args[0] in i.params and len(steps) == 1 and \
                    ck.ctx.prog.tys(f["locals"][i.params.index(root.args[0]) + 1][0]).endswith("history::Price"):
                pre.add((i.params.index(root.args[0]), (("*",),) + tuple(steps)))
                put("pre", "")
                continue
            if steps[-1][1] in NULLABLE:
                put("bad", "%s may be null when %s" % (show(x, 4), show(n, 4)[:300]))
                continue
        if x.op == "e":
            s = x.args[0]
            if s.op == "f" and s.args[1] == "posts" or (s.op == "f" and s.args[1] in ("commodity_history", "0")) or \
                    any(y.op == "node" for y in subterms(x.args[1]) if isinstance(y, T)):
                continue    # set to references only: sources()
        if found(x):
            continue
        if x.op == "fold" and x.args[1] is NULL:
            r = flagged(n, x)
            if r is not True:
                put("open" if r is None else "bad", "still unset when %s" % show(n, 4)[:300])
            continue
        put("open", "%s (%s)" % (show(x, 4)[:200], x.op))
    return worst, why


def flagged(c, x):
    """does c imply, through a flag kept along with it, that the link collected by the fold x is set? None: not known"""
    keep = FALSE
    for k, v in leaves(x.args[3]):
        if v.op == "acc" or v is NULL:
            keep = OR(keep, k)
    res = False
    for a in support(c):
        for y in subterms(a):
            if y.op != "fold" or y is x or y.args[0] is not x.args[0]:
                continue
            if y is a and y.args[1] is FALSE:
                on = FALSE
                for k, v in leaves(y.args[3]):
                    if v is TRUE:
                        on = OR(on, k)
                    elif v.op != "acc" and v is not FALSE:
                        res = None if res is False else res
                on = cond(subst(on, {y.args[2]: x.args[2]}, rebuild)) if y.args[2] is not x.args[2] else on
                if on is not FALSE and implies(on, NOT(keep)) and implies(c, cond(a)):
                    return True
            elif y.args[1].op == "c":
                res = None if res is False else res
    return res


def found(x):
    """the link of an account that was found"""
    while x.op in ("f", "v"):
        x = x.args[0]
    return x.op == "acct.foc" or (x.op == "rec" and str(x.args[0]).endswith("Account::find_or_create"))


def inlined(ck, p):
    try:
        return ck.run(p).seen_fns
    except AnalysisError:
        return ()


def derefs(ck):
    prog = ck.ctx.prog
    pre = {}
    res = {}
    for rnd in range(4):
        before = sum(len(v) for v in pre.values())
        for f in prog.fns.values():
            p = f["path"]
            if "::{closure" in p and p.split("::{closure")[0] in prog.by_path and p in inlined(ck, p.split("::{closure")[0]):
                continue        # judged where it is called
            for w in ((), ("scan", "amount")):
                try:
                    i = ck.run(p, without=w)
                except AnalysisError as e:
                    if not w:
                        ck.undecided(RULE, p, str(e)[:200])
                    break
                mine, rs = set(), {}
                for e in i.events:
                    todo = []
                    if e.kind == "rawderef":
                        todo.append(("%s: pointer followed at %s" % (e.fn, e.span), e.args[0]))
                    elif e.kind == "call" and str(e.callee) in pre:
                        for k, steps in pre[str(e.callee)]:
                            a = e.args[k] if k < len(e.args) else None
                            for s in steps:
                                if a is not None:
                                    a = i.load_ref(i.out, a) if s == ("*",) and a.op == "ref" else mk("deref", a) if s == ("*",) else proj(a, s)
                            if a is not None:
                                todo.append(("%s: argument %d of %s at %s" % (e.fn, k + 1, e.callee, e.span), a))
                    for where, v in todo:
                        if e.pc is FALSE:
                            continue
                        r, why = judge(ck, i, f, v, e.pc, mine, None)
                        k = where if e.fn == p else "%s, in %s" % (where, p)
                        if order_of(r) > order_of(rs.get(k, ("ok", ""))[0]) or k not in rs:
                            rs[k] = (r, why)
                if not any(r in ("bad", "open") for r, _ in rs.values()) or w:
                    break
            # calls whose obligation passes on
            if mine:
                pre.setdefault(p, set()).update(mine)
            res[p] = rs
        if sum(len(v) for v in pre.values()) == before:
            break
    for p, rs in res.items():
        for k, (r, why) in rs.items():
            if r == "open":
                ck.undecided(RULE, k, why)
            else:
                ck.ob(RULE, k, r != "bad", why)
                if r == "pre":
                    ck.count("obligations passed to callers")
    ck.count("functions with obligations for their callers", len(pre))


def order_of(r):
    return {"ok": 0, "pre": 1, "open": 2, "bad": 3}[r]


def sources(ck):
    """links that are followed without a test are set to references only"""
    prog = ck.ctx.prog
    n = 0
    for f in prog.fns.values():
        i = ck.run(f["path"])
        for e in i.events:
            if e.kind == "push" and e.args[0].op == "ref":
                path = [s for s in e.args[0].args[1] if s[0] != "b"]
                if not path or path[-1] != ("f", "posts"):
                    continue
                x = e.args[1]
                if x.op == "box" or x.op == "agg":
                    post = x.args[0] if x.op == "box" else x
                    if post.op != "agg" and post.op != "upd":
                        continue
                    for n_ in ("account", "xact_ptr"):
                        sure(ck, i, f, "postings have an account and a transaction", "%s: %s of the posting added at %s" % (f["path"], n_, e.span), fldval(post, n_), e.pc)
                        n += 1
                else:
                    sure(ck, i, f, "postings of an account exist", "%s: posting linked at %s" % (f["path"], e.span), x, e.pc)
                    n += 1
            elif e.kind == "gcall" and str(e.callee).endswith("add_node"):
                sure(ck, i, f, "commodities of the price graph exist", "%s: node added at %s" % (f["path"], e.span), e.args[1], e.pc)
                n += 1
    ck.count("links set", n)
    # accounts are found as references
    p = "crate::account::Account::find_or_create"
    if p in prog.by_path:
        i = ck.run(p)
        for c, v in leaves(i.ret):
            if v.op == "agg" and v.args[1] == "Some":
                for c2, x in leaves(v.args[3], c):
                    if x.op == "null":
                        ck.ob("accounts are found as references", p, False, "null when %s" % show(c2, 4)[:200])
                    elif x.op == "ref" or found(x):
                        ck.ob("accounts are found as references", p, True)
                    else:
                        ck.undecided("accounts are found as references", p, show(x, 4)[:200])


def sure(ck, i, f, rule, where, v, pc):
    for c, x in leaves(v, pc):
        if x.op in NEVER or found(x):
            ck.ob(rule, where, True)
        elif x.op == "null":
            (ck.undecided(rule, where, "null when %s" % show(c, 4)[:200]) if opaque(c, x) else
             ck.ob(rule, where, not satisfiable(c), "null when %s" % show(c, 4)[:200]))
        elif implies(c, NOT(is_null(x))):
            ck.ob(rule, where, True)
        elif x.op == "param":
            ck.count("obligations passed to callers")
        elif x.op == "f" and x.args[1] in NULLABLE and x.args[0].op != "v":
            ck.ob(rule, where, False, "%s may be null" % show(x, 4))
        elif x.op == "f" and x.args[1] in SURE_FIELDS:
            ck.ob(rule, where, True)
        else:
            ck.undecided(rule, where, show(x, 4)[:200])


def check(ck):
    ck.group(RULE, derefs)
    ck.group("links that are followed are set", sources)
