"""C18 Every price is recorded for the right pair, date and rate.

(1) `CommodityHistory::add_price` inserts the quantity under the given time into the price map of
exactly the edge (source, price commodity), keeping what that map and every other edge hold;
(2) the pool's wrappers pass their arguments on unchanged; (3) `parse_price_directive` records the
scanned date and time (midnight without one), commodity, quantity and price commodity, and the
scanned fields are exactly the blank-separated words of the line; (4) the loop of `finalize` over
the postings records, for each posting with a cost, |cost / amount| of the cost's commodity at
midnight of the transaction date; (5) nothing else changes the recorded prices."""
from core import *
from rules.c04 import deep_eval, pay_of
from rules.c02 import strip_strs

POOL = "crate::pool::CommodityPool"
HIST = "crate::history::CommodityHistory"
MIDNIGHT = mk("time", 0, 0, 0)
BLANK = charset(" \t")
NOPRICE = ("price",)


def record(ck):
    i = ck.run(HIST + "::add_price", without=("history",))
    f = i.fn
    s, src, when, price = i.params[:4]
    old = mk("deref", s)
    h = simp(heap(i, s), i.out.pc)
    a = pay_of(fldval(mk("deref", src), "graph_index"))
    b = pay_of(fldval(mk("deref", fldval(price, "commodity")), "graph_index"))
    eid = mk("edgeid", a, b)
    where = loc(f)
    if has_phi(h) or any(x.op in ("g.?", "unk") for x in subterms(h)):
        raise AnalysisError("unresolved effect on the graph")
    for c, l in leaves(h, i.out.pc):
        ups, base = [], l
        while base.op == "upd":
            ups.append((base.args[1], base.args[2]))
            base = base.args[0]
        ck.ob("only the edge of the pair changes", where, base is old and len(ups) == 1 and ups[0][0] == ("e", eid),
              "the price graph becomes %s" % show(l, 6))
        for st, m in ups:
            if st != ("e", eid):
                continue
            for _, v in leaves(m, c):
                if v.op == "upd" and v.args[1][0] in ("e", "m") and v.args[1][1] is when:
                    # insert-or-overwrite through the entry of the key
                    v = mk("map.ins", v.args[0], v.args[1][1], v.args[2])
                okm = v.op == "map.ins" and v.args[1] is when and v.args[2] is fldval(price, "quantity")
                ck.ob("quantity recorded under its time", where, okm, "the prices of the pair become %s" % show(v, 6))
                if v.op == "map.ins":
                    has = cond(mk("hasedge", old, a, b))
                    for cc, base in leaves(v.args[0], c):
                        ck.ob("earlier prices are kept", where, base is proj(old, ("e", eid)) or base.op == "map.new" and implies(cc, NOT(has)) or
                              base.op == "map.new" and keeps(m, has, old, eid),
                              "recorded into %s when %s" % (show(base, 5), show(cc, 4)))
    # refusing: only for a pair that is not one
    same_c = cond(eq(mk("deref", src), mk("deref", fldval(price, "commodity"))))
    need = AND(AND(NOT(cond(is_null(fldval(price, "commodity")))), NOT(same_c)),
               AND(cond(is_variant(fldval(mk("deref", src), "graph_index"), "std::option::Option", "Some")),
                   cond(is_variant(fldval(mk("deref", fldval(price, "commodity")), "graph_index"), "std::option::Option", "Some"))))
    sy = cond(eq(fldval(mk("deref", src), "symbol"), fldval(mk("deref", fldval(price, "commodity")), "symbol")))
    idp = cond(eq(src, fldval(price, "commodity")))
    miss = AND(AND(AND(need, NOT(sy)), NOT(idp)), NOT(i.out.pc))
    ck.ob("every price between two commodities is recorded", where, miss is FALSE, "refused when %s" % show(miss, 5))


def keeps(m, has, old, eid):
    """m, in the case that the edge exists, extends the map of the edge"""
    v = simp(m, has)
    return all(l.op == "map.ins" and l.args[0] is proj(old, ("e", eid)) for _, l in leaves(v, has))


def the_price(ck, rule, where, before, after, commodity, when, quantity, price_commodity, pc, known=None):
    """after = before with exactly one price recorded"""
    hp = [x for x in subterms(after) if x.op == "hist.price"]
    if len(hp) != 1:
        ck.ob(rule, where, False, "records %d prices (%s)" % (len(hp), show(after, 5)))
        return
    p = hp[0]
    rest = subst(after, {p: p.args[0]}, rebuild)
    ck.ob(rule, where, undo(rest) is undo(before), "changes more than one price: %s" % show(after, 5))
    for what, got, want in (("commodity", p.args[1], commodity), ("date", p.args[2], when), ("quantity", fldval(p.args[3], "quantity"), quantity),
                            ("price commodity", fldval(p.args[3], "commodity"), price_commodity)):
        g, w = strip_strs(subst(got, known, rebuild) if known else got), strip_strs(want)
        if what.endswith("commodity"):
            g, w = (mk("deref", x) if x.op != "deref" and not x.op == "ref" else x for x in (g, w))
            g, w = (strip_content(x) if x.op in ("ref", "deref") else x for x in (g, w))
        ck.ob("%s: %s" % (rule, what), where, same(g, w, pc), "the %s recorded is %s, not %s" % (what, show(got, 7), show(want, 7)))


def undo(t):
    """upd(x, f, x.f) = x"""
    while t.op == "upd":
        b = t.args[0]
        if t.args[2] is projs(b, (t.args[1],)):
            t = b
        elif t.args[2].op == "upd":
            u = undo(t.args[2])
            if u is t.args[2]:
                return t
            t = update(b, (t.args[1],), u)
        else:
            return t
    return t


def wrappers(ck):
    for n in ("add_price", "add_price_struct"):
        p = POOL + "::" + n
        if p not in ck.ctx.prog.by_path:
            continue
        i = ck.run(p, without=NOPRICE)
        s = i.params[0]
        ck.ob("price is passed on", p, i.out.pc is TRUE, "not when %s" % show(NOT(i.out.pc), 5))
        if n == "add_price":
            c, w, pr = i.params[1:4]
        else:
            x = i.params[1]
            c, w, pr = fldval(x, "commodity"), fldval(x, "datetime"), fldval(x, "price")
        for pc, h in leaves(simp(heap(i, s), TRUE)):
            the_price(ck, "price is passed on", p, mk("deref", s), h, c, w, fldval(pr, "quantity"), fldval(pr, "commodity"), pc)


def directive(ck):
    p = POOL + "::parse_price_directive"
    i = ck.run(p, without=NOPRICE)
    s, line = i.params[:2]
    sp = [x for x in subterms(heap(i, s)) if x.op == "scan.price"]
    if not sp:
        i = ck.run(p, without=("price", "scan"))
        tok = [None] * 5
        spec = tokens(line)
        for k in range(5):
            tok[k] = spec[k]
        inline = True
    else:
        ck.ob("the line is scanned", p, all(x.args[0] is line for x in sp), "scans %s" % show(sp[0], 5))
        tok = [proj(sp[0], ("e", const(k))) for k in range(5)]
        inline = False
    h = simp(heap(i, s), i.out.pc)
    if has_phi(h):
        raise AnalysisError("unresolved loop")
    for c, l in leaves(h, i.out.pc):
        hp = [x for x in subterms(l) if x.op == "hist.price"]
        if inline and foreign(l):
            raise AnalysisError("string operations outside the fragment: %s" % foreign(l))
        date = mk("dparse", "NaiveDate", tok[0], cstr("%Y-%m-%d"))
        tm = ite(nonempty(tok[1]), mk("dparse", "NaiveTime", tok[1], cstr("%H:%M:%S")), MIDNIGHT)
        q = pay_of(mk("quantity", tok[3]))
        before = l
        if len(hp) == 1:
            before = hp[0].args[0]
            while before.op == "f":
                before = before.args[0]
        the_price(ck, "price directive", p, before, l, sym(tok[2]), mk("datetime", date, tm), q, sym(tok[4]), c)
        b, syms = before, []
        while b.op == "pool.foc":
            syms.append(b.args[1])
            b = b.args[0]
        ck.ob("price directive changes nothing else", p, b is mk("deref", s), "the pool becomes %s" % show(before, 5))


def sym(t):
    t = strip_strs(t)
    return ite(nonempty(t), mk("commodity", t), NULL)


def tokens(line):
    """the words of a price directive"""
    r0 = trim_start(slice_(line, ONE, NULL))
    d = upto(r0, BLANK)
    r1 = trim_start(from_(r0, BLANK))
    dig = cond(mk("chis", "is_ascii_digit", proj(chars(r1), ("e", ZERO))))
    tm = ite(dig, upto(r1, BLANK), cstr(""))
    r2 = ite(dig, trim_start(from_(r1, BLANK)), r1)
    out = [d, tm]
    for _ in range(3):
        out.append(apply(None, lambda x: upto(x, BLANK), r2))
        r2 = trim_start(apply(None, lambda x: from_(x, BLANK), r2))
    return out


STR_OK = {"c", "param", "deref", "slice", "trim_start", "trim_end", "upto", "from", "after", "cs", "needle", "chars", "e", "chis", "ite", "nonempty",
          "hasnonws", "exists", "first", "cidx", "last", "lastmatch", "len", "rfind", "agg", "ref", "eq", "lt", "+", "-", "null", "bv", "v", "f",
          "prefix", "suffix", "dropprefix", "dropsuffix", "is", "concat"}


def foreign(t, extra=()):
    """operators outside the string fragment the specification is written in"""
    return sorted({x.op for x in subterms(t) if not strips(x)} - STR_OK - set(extra))


def strips(x):
    """surely takes characters off a text that belong to it: no reading of a line strips these"""
    if x.op not in ("trim_start_matches", "trim_end_matches", "trim_matches"):
        return False
    p = x.args[1]
    if p.op == "cs":
        cs = p.args[0] if isinstance(p.args[0], (str, tuple, set, frozenset)) else ()
    elif p.op == "needle" or p.op == "c":
        cs = [y.args[1] for y in subterms(p) if y.op == "c" and isinstance(y.args[1], str)]
        cs = cs[0] if len(cs) == 1 and len(cs[0]) == 1 else ()
    else:
        return False
    marks = {"trim_start_matches": "{[(@=P;", "trim_end_matches": "}])", "trim_matches": "{[(}])@=P;"}[x.op]
    return any(not c.isspace() and c not in marks for c in cs)


def loose(t):
    """whitespace classes count as blanks (exotic whitespace apart from blank and tab is not distinguished)"""
    m = {x: BLANK for x in subterms(t) if x.op == "cs" and set(" \t") <= set(x.args[0]) and set(x.args[0]) <= set(RUST_WS)}
    return subst(t, m, rebuild) if m else t


def words(ck):
    p = "crate::scanner::scan_price_directive"
    i = ck.run(p, without=("scan",))
    line = i.params[0]
    want = tokens(line)
    for k, name in enumerate(("date", "time", "commodity", "quantity", "price commodity")):
        got = loose(strip_strs(simp(proj(i.ret, ("e", const(k))), i.out.pc)))
        bad = foreign(got)
        if bad:
            ck.undecided("words of the line", "%s: %s" % (p, name), "operators %s" % bad)
            continue
        pc = loose(i.out.pc)
        ck.ob("words of the line", "%s: %s" % (p, name), same(got, strip_strs(want[k]), pc),
              "the %s is %s, not %s" % (name, show(got, 9), show(want[k], 9)))


def costs(ck):
    """the loop of finalize that records the costs"""
    i = ck.run("crate::xact::finalize", without=NOPRICE)
    xp, j = i.params[:2]
    xd = mk("deref", xp)
    pool0 = fldval(mk("deref", j), "commodity_pool")
    found = 0
    for L in i.loops.values():
        for ph, nx in L.next.items():
            if not any(x.op == "hist.price" for x in subterms(nx)):
                continue
            found += 1
            one_cost(ck, i, L, ph, nx, xd)
    if not found:
        # a fold form: every posting contributes
        fs = [x for x in subterms(heap(i, j)) if x.op == "fold" and any(y.op == "hist.price" for y in subterms(x.args[3]))]
        if not fs:
            direct = [x for x in subterms(heap(i, j)) if x.op == "hist.price"]
            if direct and any(has_phi(*x.args[1:]) for x in direct):
                ck.ob("costs are recorded", "crate::xact::finalize", False, "only the price of the posting a loop stops at is recorded")
                return
            if direct:
                raise AnalysisError("prices recorded outside a loop over the postings")
            ck.ob("costs are recorded", "crate::xact::finalize", False, "no price is recorded for postings with a cost")
            return
        raise AnalysisError("price loop in fold form")
    if found > 1:
        raise AnalysisError("%d loops record prices" % found)


def post_index(nx, L):
    """the postings the pass works on"""
    out = {}
    for x in subterms(nx):
        if x.op == "f" and x.args[1] in ("cost", "amount") and x.args[0].op == "b" and x.args[0].args[0].op == "e":
            out[x.args[0]] = x.args[0].args[0].args[1]
    return out


def one_cost(ck, i, L, ph, nx, xd):
    where = "%s loop at %s" % (i.fn["path"], L.span.split(":")[0])
    ps = post_index(nx, L)
    if len(ps) != 1:
        raise AnalysisError("the pass over the postings works on %d postings" % len(ps))
    post, idx = list(ps.items())[0]
    seq = post.args[0].args[0]
    posts = fldval(xd, "posts")
    base = seq
    if base.op == "phi":
        if base not in L.init:
            raise AnalysisError("postings of another loop")
        base = L.init[base]
    for _, b in leaves(base):
        while b.op == "upd" or b.op == "phi" and any(b in M.init for M in i.loops.values()):
            b = b.args[0] if b.op == "upd" else next(M.init[b] for M in i.loops.values() if b in M.init)
        ck.ob("every posting of the transaction", where, b is posts or b.op == "ite" or any(x is posts for x in subterms(b)), "goes over %s" % show(b, 4))
    if idx.op == "phi":
        ck.ob("every posting of the transaction", where, L.init.get(idx) is ZERO and L.next.get(idx) is add(idx, ONE),
              "starts at %s and goes on with %s" % (show(L.init.get(idx, UNIT), 4), show(L.next.get(idx, UNIT), 4)))
        inside = cond(lt(idx, length(seq)))
    else:
        raise AnalysisError("postings addressed by %s" % show(idx, 4))
    am, co = pay_of(fldval(post, "amount")), pay_of(fldval(post, "cost"))
    ac, cc = fldval(am, "commodity"), fldval(co, "commodity")
    aq, cq = fldval(am, "quantity"), fldval(co, "quantity")
    for hascost in (True, False):
        for az in (True, False):
            for cz in (True, False):
                for cnull in (True, False):
                    def w(at):
                        if at.op == "is" and at.args[0] is fldval(post, "cost"):
                            return (at.args[1] == "Some") == hascost
                        if at.op == "is" and at.args[0] is fldval(post, "amount"):
                            return (at.args[1] == "Some") == hascost if hascost else None
                        if at.op == "dec.zero":
                            return zero_of(at.args[0], aq, cq, az, cz)
                        if at.op == "isnull" and at.args[0] is ac:
                            return False
                        if at.op == "isnull" and at.args[0] is cc:
                            return cnull
                        if at.op == "eq" and {strip_content(z) for z in at.args} == {ac, cc}:
                            return False
                        return None
                    pc = AND(cond(deep_eval(L.cont, w)), cond(deep_eval(inside, w)))
                    v = simp(deep_eval(nx, w), pc)
                    case = "%s [%s]" % (where, "no cost" if not hascost else "%samount, %scost%s" % (
                        "zero " if az else "", "zero " if cz else "", " without commodity" if cnull else ""))
                    if not hascost or cz:
                        if not hascost and (az or cz or cnull):
                            continue
                        ck.ob("no cost, no price", case, all(undo(l) is ph for _, l in leaves(v, pc)), "records %s" % show(v, 5))
                        continue
                    unit = dec_abs(cq if az else dec_bin("div", cq, aq))
                    date = mk("datetime", pay_of(fldval(xd, "date")), MIDNIGHT)
                    for c, l in leaves(v, pc):
                        the_price(ck, "price of a cost", case, ph, l, ac, date, unit, NULL if cnull else cc, c, {cc: NULL} if cnull else {})
    early_exit(ck, "every posting of the transaction", where, L, inside)


def early_exit(ck, rule, where, L, inside):
    """the loop ends before its last element only by failing"""
    dead = {t for _, t in getattr(L, "dead", ())}
    for c, t in L.exits:
        c = AND(c, inside)
        ck.ob(rule, where, c is FALSE or t in dead, "stops early when %s" % show(c, 5))


def zero_of(x, aq, cq, az, cz):
    if x is aq:
        return az
    if x is cq:
        return cz
    if x.op in ("dec.div", "dec.abs", "dec.neg", "dec.nabs"):
        return zero_of(x.args[0], aq, cq, az, cz)
    return None


MUTATORS = {"add_edge", "update_edge", "edge_weight_mut", "edge_weights_mut", "remove_edge", "remove_node", "retain_edges", "retain_nodes", "clear",
            "clear_edges", "reverse", "index_mut", "edges_directed_mut", "extend_with_edges", "map", "filter_map", "into_edge_type"}


def confine(ck):
    roots = [ck.ctx.run(HIST + "::add_price", without=("history",))]
    seen = set()
    for r in roots:
        seen |= r.seen_fns
    n = 0
    for f in ck.ctx.prog.fns.values():
        for c in calls_of(ck.ctx.prog, f):
            d, m = c["name"], c["name"].split("::")[-1]
            ta = " ".join(ck.ctx.prog.tys(a) for a in c["callee"].get("targs", []))
            graph = d.startswith("petgraph::") and m in MUTATORS
            pmap = "BTreeMap" in d and m in ("insert", "entry", "remove", "clear", "retain", "get_mut", "append", "extend", "pop_last", "pop_first", "split_off",
                                             "values_mut", "iter_mut", "first_entry", "last_entry", "range_mut", "remove_entry") and "NaiveDateTime" in ta and "Quantity" in ta
            if graph or pmap:
                n += 1
                gone = m in (("remove_node", "clear", "clear_edges", "retain_edges", "retain_nodes") if graph else ("clear", "retain", "pop_last", "pop_first", "split_off"))
                ck.ob("recorded prices are not removed", "%s calls %s" % (f["path"], m), not gone, "at %s" % c["span"])
                ck.ob("prices change only when one is recorded", "%s calls %s" % (f["path"], m), f["path"] in seen, "at %s" % c["span"])
    for w, sp in writers(ck.ctx.prog, "CommodityPool", "commodity_history").items():
        for k, s, depth in sp:
            if k == "assign" and depth == 0:
                ck.ob("the price history is never replaced", w, False, "assigned at %s" % s)
    ck.ob("floor", "crate", n >= 1, "nothing records prices")


def check(ck):
    ck.group("recording a price", record)
    ck.group("wrappers", wrappers)
    ck.group("price directive", directive)
    ck.group("words", words)
    ck.group("costs", costs)
    ck.group("confinement", confine)
