"""C06 Reports list every account exactly once with its full balance.

(1) `flatten_account_tree` lists the account itself once and, for every sub-account once, its
flattened tree.  (2) The accounts report maps that list one to one to account names.  (3) The
balance report has one line per account of the same tree: its text holds the full name and, for
every entry of the account's total, the quantity and the commodity's symbol.  (4) Executing a
command returns the report as a whole (at most reordered)."""
from core import *
from rules.c05 import child, is_each
from rules.c02 import strip_strs

ACCT = "crate::account::Account"


class Bad(Exception):
    pass


def recname(x):
    return x.args[0]


def listing(t, acct, item, recs, base):
    """check that the list t holds item(acct) once and the listing of each sub-account once.
    item(x) returns True if x is the entry of acct.  recs collects the recursive functions used.
    Returns (own, kids)."""
    own = kids = 0
    m = fldval(acct, "accounts")

    def sub(x, seq, bv):
        """x is the listing of one sub-account"""
        if x.op == "rec":
            a = x.args[1]
            recs.add(x.args[0])
        elif x.op == "acct.tree":
            a = x.args[0]
        else:
            return False
        if not (seq.op == "keys" and seq.args[0] is m):
            raise Bad("goes through %s, not through all sub-accounts" % show(seq, 5))
        if not is_each(child(a, acct), bv):
            raise Bad("lists %s for each of %s" % (show(a, 6), show(seq, 5)))
        return True
    while True:
        if t is base or t.op == "vec.new" or (t.op == "array" and not t.args):
            return own, kids
        if t.op == "vec.push":
            if not item(t.args[1]):
                raise Bad("has the line %s" % show(t.args[1], 6))
            own += 1
            t = t.args[0]
        elif t.op == "array":
            for x in t.args:
                if not item(x):
                    raise Bad("has the line %s" % show(x, 6))
                own += 1
            return own, kids
        elif t.op == "vec.extend" or t.op == "vec.append":
            o, k = listing(t.args[1], acct, item, recs, None)
            own, kids = own + o, kids + k
            t = t.args[0]
        elif t.op == "flatcomp":
            seq, bv, body = t.args[:3]
            if not sub(body, seq, bv):
                raise Bad("lists %s for each of %s" % (show(body, 6), show(seq, 5)))
            return own, kids + 1
        elif t.op == "sorted":
            t = t.args[0]
        elif t.op == "fold":
            seq, ini, bv, body = t.args[:4]
            if body.op == "mut" and any(a.op == "acc" for a in body.args if isinstance(a, T)):
                xs = [a for a in body.args[2:] if isinstance(a, T) and a.op != "acc" and child(a, acct) is not None]
                if len(xs) != 1:
                    raise Bad("each pass does %s" % show(body, 6))
                recs.add(body.args[0])
                if not (seq.op == "keys" and seq.args[0] is m) or not is_each(child(xs[0], acct), bv):
                    raise Bad("lists %s for each of %s" % (show(xs[0], 6), show(seq, 5)))
                kids += 1
            elif body.op in ("vec.extend", "vec.append") and body.args[0].op == "acc" and sub(body.args[1], seq, bv):
                kids += 1
            else:
                raise Bad("each pass over %s gives %s" % (show(seq, 5), show(body, 6)))
            t = ini
        elif t.op == "ite":
            raise Bad("depends on a condition: %s" % show(t, 5))
        elif t.op == "phi":
            raise AnalysisError("unresolved loop result")
        else:
            raise Bad("is %s" % show(t, 6))


def tree_rule(ck, rule, f, ret, acct, item, base=None, args=None):
    recs = set()
    try:
        own, kids = listing(ret, acct, item, recs, base)
    except Bad as e:
        ck.ob(rule, loc(f), False, "the list %s" % e)
        return recs
    ck.ob(rule, loc(f), (own, kids) == (1, 1), "the account itself is listed %d times, its sub-accounts %d times" % (own, kids))
    return recs


def is_acct(x, acct, ref):
    return x is ref or x is acct or (x.op == "ref" and x.args == (("H", ref), ()))


def flatten(ck):
    i = ck.run(ACCT + "::flatten_account_tree", without=("tree",))
    s = i.params[0]
    acct = mk("deref", s)
    recs = tree_rule(ck, "flattened tree", i.fn, i.ret, acct, lambda x: is_acct(x, acct, s))
    ck.ob("flattened tree total", loc(i.fn), i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 5))
    follow(ck, "flattened tree", recs, {i.fn["path"]}, lambda acct, ref: (lambda x: is_acct(x, acct, ref)), without=("tree",))


def follow(ck, rule, recs, done, mkitem, without=()):
    """the recursive functions themselves obey the rule (induction step)"""
    todo = set(recs)
    while todo:
        r = todo.pop()
        if r in done:
            continue
        done.add(r)
        i = ck.run(r, without=without)
        f = i.fn
        tys = [i.prog.tys(f["locals"][k + 1][0]) for k in range(f["argc"])]
        ai = [k for k, t in enumerate(tys) if t.endswith("account::Account")]
        if len(ai) != 1:
            raise Missing("account parameter of %s" % r)
        s = i.params[ai[0]]
        acct = mk("deref", s)
        rt = i.prog.tys(f["locals"][0][0])
        base = None
        if rt == "()":
            vi = [k for k, t in enumerate(tys) if t.startswith("&mut") and "Vec" in t]
            if len(vi) != 1:
                raise Missing("list parameter of %s" % r)
            ret = heap(i, i.params[vi[0]])
            base = mk("deref", i.params[vi[0]])
        else:
            ret = i.ret
        todo |= tree_rule(ck, rule, f, ret, acct, mkitem(acct, s), base)
        ck.ob(rule + " total", loc(f), i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 5))


def accounts(ck):
    i = ck.run("crate::report::report_accounts")
    j = mk("deref", i.params[0])
    tree = mk("acct.tree", proj(fldval(j, "master"), ("b",)))
    r = i.ret
    while r.op == "sorted":
        r = r.args[0]
    okc = r.op == "comp" and r.args[0] is tree
    if okc:
        x = r.args[2]
        a = mk("deref", proj(tree, ("e", r.args[1])))
        okc = strip_strs(x) in (strip_strs(fldval(a, "name")), strip_strs(mk("acct.fullname", a)))
    ck.ob("accounts report", loc(i.fn), okc, "the report is %s, must have the name of every account of the tree" % show(r, 7))
    ck.ob("accounts report total", loc(i.fn), i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 5))


def text_parts(t):
    return list(t.args) if t.op == "concat" else [t]


def line(acct, ref):
    """predicate: x is the report line of the account"""
    total = mk("acct.total", acct)
    am = fldval(total, "amounts")

    def ok(x):
        p = [strip_strs(y) for y in text_parts(x)]
        want = [cstr("Account "), strip_strs(mk("acct.fullname", acct)), cstr(" has balance ")]
        if p[:3] != want or len(p) != 4:
            return False
        return entries(text_parts(x)[3])

    def entry_text(body, bv, acc):
        e = proj(am, ("e", bv))
        for null in (True, False):
            def w(at):
                if at.op == "isnull" and at.args[0] is fldval(e, "commodity"):
                    return null
                return None
            v = eval_world(body, w)
            if v is None:
                return False
            got = [strip_strs(y) for y in text_parts(v)]
            q = fldval(e, "quantity")
            exp = [[strip_strs(mk("disp", q, "amount::Quantity"))], [strip_strs(mk("disp", proj(q, ("f", "0")), "rust_decimal::Decimal"))]]
            exp = [([acc] if acc is not None else []) + z for z in exp]
            if not null:
                exp = [z + [cstr(" "), strip_strs(fldval(mk("deref", fldval(e, "commodity")), "symbol"))] for z in exp]
            if got not in exp:
                return False
        return True

    def entries(t):
        if t.op == "fold":
            seq, ini, bv, body = t.args[:4]
            acc = [x for x in subterms(body) if x.op == "acc"]
            return seq is am and ini is cstr("") and bool(acc) and entry_text(body, bv, acc[0])
        if t.op in ("join", "concat_all"):
            c = t.args[0]
            if c.op == "comp" and c.args[0] is am and (len(t.args) < 2 or t.args[1] is cstr("")):
                return entry_text(c.args[2], c.args[1], None)
        return False
    return ok


def balance(ck):
    i = ck.run("crate::report::balance_report", without=("report",))
    j = mk("deref", i.params[0])
    master = proj(fldval(j, "master"), ("b",))
    r = i.ret
    recs = set()
    tree = mk("acct.tree", master)
    if r.op == "comp" and r.args[0] is tree:
        a = mk("deref", proj(tree, ("e", r.args[1])))
        ck.ob("balance report", loc(i.fn), line(a, None)(r.args[2]), "the line of an account is %s" % show(r.args[2], 7))
    else:
        if r.op == "rec":
            recs.add(r.args[0])
        else:
            recs = tree_rule(ck, "balance report", i.fn, r, master, line(master, None))
        follow(ck, "balance report", recs, {i.fn["path"]}, line)
    ck.ob("balance report total", loc(i.fn), i.out.pc is TRUE, "does not return when %s" % show(NOT(i.out.pc), 5))


def command(ck):
    i = ck.run("crate::execute_command")
    kinds = set()
    for c, l in leaves(i.ret, i.out.pc):
        x = l
        while x.op == "sorted":
            x = x.args[0]
        kinds.add(x.op)
        ck.ob("command returns its report", loc(i.fn), x.op in ("report.accounts", "report.balance"), "the command's result is %s" % show(l, 5))
    ck.ob("floor", "reports reachable from a command", kinds == {"report.accounts", "report.balance"}, "commands give %s" % sorted(kinds))


def check(ck):
    ck.group("flattened tree", flatten)
    ck.group("accounts report", accounts)
    ck.group("balance report", balance)
    ck.group("command", command)
    from rules import c02, c05, c08, baltools
    ck.part("full name", c08.fullname, lambda r, w: True)
    ck.part("full balance", c05.sums, lambda r, w: True)
    ck.part("full balance", baltools.balance_contract, lambda r, w: True)
    ck.part("quantity in full", c02.display, lambda r, w: True)
