"""C10 Stored links always point to live objects.

Types: an object that raw links designate is stored boxed (or its container renews the links).
Operations: no call takes such an object out of its container, moves or replaces it; map entries are
added only where there is none; whole objects and containers are not assigned through references.
Links: a stored link designates an object in its container, not a local variable; a posting's
transaction link is set to the transaction whose postings it joins, and storing a transaction renews
the links of the postings of every transaction the growth may have moved."""
from core import *

ADT = "std::option::Option"
PINNED = ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc", "std::pin::Pin")
MOVERS = {"insert", "append", "extend", "reserve", "reserve_exact", "shrink_to_fit", "shrink_to", "sort", "sort_by", "sort_by_key", "sort_by_cached_key",
          "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "swap", "reverse", "rotate_left", "rotate_right", "push", "push_within_capacity",
          "try_reserve", "select_nth_unstable", "swap_with_slice", "extend_from_within", "extend_from_slice", "resize", "splice", "try_reserve_exact",
          "push_mut", "push_back", "push_front", "make_contiguous"}
VECS = ("std::vec::Vec", "std::slice", "core::slice", "alloc::slice", "alloc::vec", "std::collections::VecDeque", "std::collections::vec_deque")


def linked(prog, adts):
    """types designated by raw pointers in the crate's data, with the places that hold the links"""
    out = {}

    def go(t, where):
        t = prog.types[t]
        if t["k"] == "ptr":
            p = prog.types[t["t"]]
            if p["k"] == "adt":
                out.setdefault(p["path"], []).append(where)
            return
        for a in t.get("args", []) or []:
            if isinstance(a, int):
                go(a, where)
        for k in ("t", "elem"):
            if isinstance(t.get(k), int):
                go(t[k], where)
    for a in adts:
        for v in a["variants"]:
            for f in v["fields"]:
                go(f["ty"], "%s.%s" % (a["path"].split("::")[-1], f["name"]))
    return out


def unpinned(prog, t, pinned=False):
    """types stored by value in a place of type t (where they move with it)"""
    ty = prog.types[t]
    if ty["k"] == "adt":
        if not pinned:
            yield ty["path"]
        p = ty["path"] in PINNED
        for a in ty.get("args", []) or []:
            if isinstance(a, int):
                yield from unpinned(prog, a, p)
    elif ty["k"] in ("tuple", "array", "slice"):
        for a in (ty.get("args") or []) + [ty.get("t"), ty.get("elem")]:
            if isinstance(a, int):
                yield from unpinned(prog, a, False)


def norm_path(p):
    return p[7:] if p.startswith("crate::") else p


def xact_by_value(prog, adts):
    for a in adts:
        for v in a["variants"]:
            for f in v["fields"]:
                if prog.tys(f["ty"]).startswith("std::vec::Vec<xact::Xact>"):
                    return True
    return False


def of_journal(prog, adts):
    """the types a journal is made of"""
    by = {norm_path(a["path"]): a for a in adts}
    st, seen = ["journal::Journal"], {}
    if st[0] not in by:
        raise Missing("journal::Journal")

    def names(t):
        ty = prog.types[t]
        if ty["k"] == "adt":
            yield norm_path(ty["path"])
        for a in list(ty.get("args") or []) + [ty.get("t"), ty.get("elem")]:
            if isinstance(a, int):
                yield from names(a)
    while st:
        x = st.pop()
        if x in seen or x not in by:
            continue
        seen[x] = by[x]
        for v in by[x]["variants"]:
            for f in v["fields"]:
                st.extend(names(f["ty"]))
    return list(seen.values())


def types(ck):
    prog = ck.ctx.prog
    adts = of_journal(prog, [a for a in ck.ctx.dump["ledger_rs_lib"]["adts"] if a.get("local")])
    ln = {norm_path(k): v for k, v in linked(prog, adts).items()}
    ck.count("linked types", len(ln))
    used = set()
    for i in [ck.ctx.run(f["path"]) for f in prog.fns.values()]:
        for e in i.events:
            if e.kind == "rawderef" and e.extra:
                used.add(norm_path(str(e.extra)))
    for a in adts:
        for v in a["variants"]:
            for f in v["fields"]:
                where = "%s.%s (%s)" % (a["path"], f["name"], a["span"])
                vals = [norm_path(x) for x in unpinned(prog, f["ty"])]
                ck.count("fields")
                for x in vals:
                    if x in ln and x in used:
                        if prog.tys(f["ty"]).startswith("std::vec::Vec<xact::Xact>"):
                            continue    # the links are renewed: relink
                        ck.ob("linked objects are stored where they do not move", where, False,
                              "%s is stored by value, but linked from %s" % (x, ", ".join(sorted(set(ln[x])))))
                if vals:
                    ck.ob("linked objects are stored where they do not move", where, True)


def touches_links(prog):
    """functions that set the transaction link of a posting, also through calls"""
    w = set(writers(prog, "Post", "xact_ptr"))
    cs = callers_of(prog)
    st = list(w)
    while st:
        x = st.pop()
        for c in cs.get(x, set()) | ({x.split("::{closure")[0]} if "::{closure" in x else set()):
            if c not in w:
                w.add(c)
                st.append(c)
    return w


def moves(ck):
    prog = ck.ctx.prog
    n = 0
    for f, m, ta, sp in removals(prog):
        ck.ob("no object is taken out of its container", "%s: %s at %s" % (f["path"], m, sp), False, "on %s" % ", ".join(ta)[:200])
    relinks = touches_links(prog)
    for f in prog.fns.values():
        for c in calls_of(prog, f):
            m = c["name"].split("::")[-1]
            ta = [prog.tys(a) for a in c["callee"].get("targs", [])]
            if m in MOVERS and c["name"].startswith(VECS) and ta and ta[0] == "xact::Xact":
                n += 1
                w = "%s: %s at %s" % (f["path"], m, c["span"])
                ok = f["path"] in relinks
                if ok and m != "push":
                    i = ck.ctx.run(f["path"])
                    ok = any(start is ZERO and i.loops[e.loops[0]].entry_pc is TRUE for e, own, start, idx in renewals(i, None))
                ck.ob("transactions are moved only where links are renewed", w, ok, "moves transactions, their postings' links are left behind")
    ck.count("operations on the list of transactions", n)
    ck.ob("no object is taken out of its container", "%d functions" % len(prog.fns), True)


def object_map(prog, t):
    s = prog.tys(t) if isinstance(t, int) else t
    return any(o in s for o in STORED)


def inserts(ck):
    prog = ck.ctx.prog
    bad = {}
    good = set()
    for f in prog.fns.values():
        i = ck.run(f["path"])
        for e in i.events:
            if e.kind != "mapins":
                continue
            r, k, v, m = e.args[:4]
            names = [s[1] for s in r.args[1] if s[0] == "f"] if r.op == "ref" else []
            if not names or names[-1] not in ("accounts", "commodities"):
                continue
            ck.count("insertions")
            free = NOT(cond(mk("has", m, k)))
            from rules.c02 import strip_strs
            ok = implies(e.pc, free) or any(a.op == "has" and a.args[0] is m and strip_strs(a.args[1]) is strip_strs(k) and implies(e.pc, NOT(cond(a)))
                                            for a in support(e.pc))
            if ok:
                good.add((f["path"], e.span))
            else:
                bad[(f["path"], e.span)] = (f, e)
    cs = callers_of(prog)
    for (p, sp), (f, e) in bad.items():
        w = "%s: insertion at %s" % (p, sp)
        callers = cs.get(p, set())
        if not f["pub"] and callers:
            # judged in the callers
            rest = [c for c in callers if (c, sp) not in good and (c, sp) not in bad]
            for c in rest:
                ck.undecided("existing entries are not replaced", w, "not seen in %s" % c)
            continue
        ck.ob("existing entries are not replaced", w, False, "an entry may already exist when %s" % show(e.pc, 4)[:200])
    for p, sp in good:
        ck.ob("existing entries are not replaced", "%s: insertion at %s" % (p, sp), True)


def assigned(ck):
    """whole objects or their containers overwritten through a reference"""
    prog = ck.ctx.prog
    for f in prog.fns.values():
        if f.get("derived"):
            continue
        for kind, p, sp in mutations(prog, f):
            if kind != "assign" or not p["p"]:
                continue
            t = prog.types[f["locals"][p["l"]][0]]
            through = False
            for s in p["p"]:
                if s[0] == "*":
                    through = through or t.get("path") != "std::boxed::Box"
                    t = prog.types[s[1]]
                elif s[0] == ".":
                    t = prog.types[s[3]]
                elif isinstance(s[-1], int):
                    t = prog.types[s[-1]]
            if not through:
                continue
            ck.count("assignments through references")
            s = t["s"]
            if s in STORED or s in ("journal::Journal", "pool::CommodityPool", "history::CommodityHistory") or \
                    (t["k"] == "adt" and not t.get("path", "").startswith("std::option") and
                     any(o in s for o in STORED) and s.startswith(("std::vec::Vec<", "std::collections::", "std::boxed::Box<")) and "&" not in s):
                if any(x in s for x in ("*const", "*mut")) and "Vec<*" in s:
                    continue    # a list of links, not of objects: C05, C06
                ck.ob("objects are not replaced", "%s at %s" % (f["path"], sp), False, "assigns a whole %s" % s)
    ck.ob("objects are not replaced", "%d functions" % len(prog.fns), True)


def prefix_of(ref, names):
    """the reference without its last steps, which must be these (boxes are skipped)"""
    path = list(ref.args[1])
    for n in reversed(names):
        while path and path[-1][0] == "b":
            path.pop()
        if not path or path[-1][0] != ("f" if n else "e") or (n and path[-1][1] != n):
            return None
        path.pop()
    return mk("ref", ref.args[0], tuple(path))


def flat(ref):
    """path of a reference without slices and boxes"""
    return (ref.args[0], tuple(s for s in ref.args[1] if s[0] not in ("sl", "b")))


def owners(ck):
    prog = ck.ctx.prog
    joins = 0
    for f in prog.fns.values():
        i = ck.ctx.run(f["path"])
        for e in i.events:
            if e.kind == "store" and e.args[0].op == "ref" and e.args[0].args[1] and e.args[0].args[1][-1] == ("f", "xact_ptr"):
                own = prefix_of(e.args[0], ("posts", None, "xact_ptr"))
                w = "%s: link set at %s" % (f["path"], e.span)
                if own is None:
                    continue
                ck.analysed(i)
                for c, v in leaves(e.args[1], e.pc):
                    if v.op != "ref":
                        if has_phi(v) or v.op == "acc":
                            ck.undecided("a posting links to the transaction that owns it", w, show(v, 3))
                        else:
                            ck.ob("a posting links to the transaction that owns it", w, False, "linked to %s, not %s" % (show(v, 4), show(own, 4)))
                        continue
                    ck.ob("a posting links to the transaction that owns it", w, flat(v) == flat(own), "linked to %s, not %s" % (show(v, 4), show(own, 4)))
            elif e.kind == "push" and e.args[0].op == "ref":
                r, x = e.args[:2]
                names = [s for s in r.args[1] if s[0] != "b"]
                if not names or names[-1] != ("f", "posts"):
                    continue
                if x.op == "box":
                    post = x.args[0]
                elif x.op in ("param",) or x.op == "agg":
                    post = x
                else:
                    continue
                lk = fldval(post, "xact_ptr")
                if lk.op == "fld" and post.op == "param" and "Post" not in str(post):
                    pass
                own = mk("ref", r.args[0], tuple(r.args[1][:-1]))
                w = "%s: posting added at %s" % (f["path"], e.span)
                joins += 1
                ck.analysed(i)
                for c, v in leaves(lk, e.pc):
                    if v.op == "ref":
                        ok = flat(v) == flat(own)
                    else:
                        ok = own.args[0] == ("H", v) and not own.args[1]
                    ck.ob("a posting links to the transaction that owns it", w, ok, "linked to %s, not %s" % (show(v, 4), show(own, 4)))
    ck.count("postings added", joins)
    if not joins:
        raise Missing("no posting is added")


def renewals(i, push):
    """(store, owner, first transaction covered or None, index of the posting) of the links set in stored transactions"""
    for e in i.events:
        if e.kind != "store" or e.args[0].op != "ref" or not e.args[0].args[1] or e.args[0].args[1][-1] != ("f", "xact_ptr"):
            continue
        if push is not None and e.seq < push.seq:
            continue
        own = prefix_of(e.args[0], ("posts", None, "xact_ptr"))
        if own is None:
            continue
        idx = [s for s in e.args[0].args[1] if s[0] == "e"][-1][1]
        path = [s for s in own.args[1] if s[0] != "b"]
        ks = [j for j, s in enumerate(path) if s == ("f", "xacts")]
        if not ks or (push is not None and mk("ref", own.args[0], tuple(path[:ks[-1] + 1])) is not push.args[0]):
            continue
        steps = path[ks[-1] + 1:]
        start = None
        if len(steps) == 1 and steps[0][0] == "e":
            k = steps[0][1]
            if k.op == "last":
                start = length(push.args[2]) if push is not None else NULL
            elif any(k in i.loops[l].next for l in e.loops):
                start = ZERO
        elif len(steps) == 2 and steps[0][0] == "sl" and steps[0][2] is NULL and any(steps[1][1] in i.loops[l].next for l in e.loops):
            start = steps[0][1]
        yield e, own, start, idx


def relink(ck):
    prog = ck.ctx.prog
    if not xact_by_value(prog, [a for a in ck.ctx.dump["ledger_rs_lib"]["adts"] if a.get("local")]):
        ck.ob("links are renewed when transactions move", "transactions are not stored by value", True)
        return
    pushes = {f["path"] for f, m, sp in additions(prog, "xact::Xact")}
    if not pushes:
        raise Missing("nothing stores transactions")
    relinks = touches_links(prog)
    for p in sorted(pushes):
        if p not in relinks:
            continue    # reported by moves
        i = ck.run(p)
        push = [e for e in i.events if e.kind == "push" and e.args[0].op == "ref" and e.args[0].args[1] and e.args[0].args[1][-1] == ("f", "xacts")]
        if len(push) != 1 or push[0].loops:
            raise AnalysisError("%d additions" % len(push))
        push = push[0]
        old = push.args[2]
        rule, done = "links are renewed when transactions move", False
        every = new = FALSE     # when the renewals reach all transactions, or the added one only
        sure = True
        for e, own, start, idx in renewals(i, push):
            w = "%s: renewal at %s" % (p, e.span)
            if start is None:
                raise AnalysisError("range of the renewal")
            done = True
            # every posting of every transaction in the range
            c = TRUE
            loops = [i.loops[l] for l in e.loops]
            if not any(idx in L.next for L in loops):
                if idx.op in ("c", "last"):
                    ck.ob("the links of all postings are renewed", w, False, "only the posting [%s]" % show(idx))
                    continue
                raise AnalysisError("renewal at %s" % show(idx, 3))
            if not loops:
                raise AnalysisError("renewal outside loops")
            for L in loops:
                ps = [a for a in support(L.cont) if a.op == "lt" and a.args[0] in L.next and L.init[a.args[0]] is ZERO and
                      L.next[a.args[0]] is add(a.args[0], ONE)]
                few = [q for q in L.next if L.init[q].op == "c" and type(L.init[q].args[1]) is int and L.init[q].args[1] > 0 and
                       L.next[q] is add(q, const(-1)) and any(q in a.args for a in support(L.cont))]
                few += [a for a in support(L.cont) if a.op == "lt" and a.args[0] in L.next and a.args[1].op == "c"]
                if few:
                    ck.ob("the links of all postings are renewed", "%s, loop at %s" % (p, L.span), False, "the number of renewals is limited")
                    continue
                if len(ps) != 1:
                    raise AnalysisError("loop of the renewal")
                c = AND(c, cond(ps[0]))
                for x, t in L.exits:
                    y = AND(x, cond(ps[0]))
                    ck.ob("the links of all postings are renewed", "%s, loop at %s" % (p, L.span), y is FALSE, "stops early when %s" % show(y, 4)[:200])
            ck.ob("the links of all postings are renewed", w, implies(c, e.pc), "only when %s" % show(e.pc, 4)[:300])
            entry = AND(push.pc, loops[0].entry_pc)
            for cc, s in leaves(start, entry):
                if s is ZERO:
                    every = OR(every, cc)
                elif s is length(old):
                    new = OR(new, cc)
                elif s.op == "+" and s.args[0] is length(old):
                    ck.ob(rule, w, False, "starts at %s" % show(s, 4))
                else:
                    sure = False
                    ck.undecided(rule, w, "starts at %s" % show(s, 4)[:200])
        if done and sure:
            w = "%s: addition at %s" % (p, push.span)
            miss = AND(push.pc, NOT(OR(every, new)))
            ck.ob(rule, w, miss is FALSE, "no renewal when %s" % show(miss, 4)[:200])
            rest = AND(push.pc, NOT(every))
            full = known_full(rest, old)
            if full is None:
                ck.undecided(rule, w, "condition %s" % show(rest, 4)[:200])
            else:
                ck.ob(rule, w, not full, "only the new transaction is covered when %s, where the others move too" % show(rest, 4)[:200])
        if not done:
            other = [e for e in i.events if e.kind == "store" and e.args[0].op == "ref" and e.args[0].args[1] and e.args[0].args[1][-1] == ("f", "xact_ptr")]
            ck.ob(rule, p, bool(other), "stores a transaction by value without renewing links") if not other else ck.undecided(rule, p, "renewal not recognised")


def known_full(c, old):
    """may c hold although the vector is full (and moves when it grows)? None: not known"""
    n, k = length(old), None
    cap = [a for a in support(c) if any(x.op == "capacity" for x in subterms(a))]
    if not cap:
        return c is not FALSE
    for a in cap:
        x, y = a.args[:2] if a.op in ("eq", "lt") else (None, None)
        if x is None or {x, y} != {n, mk("capacity", old)}:
            return None
    w = c
    for a in cap:
        if a.op == "eq":
            v = True
        elif a.args[0].op == "capacity":    # cap < len: never
            v = False
        else:                               # len < cap
            v = False
        w = AND(w, cond(a) if v else NOT(cond(a)))
    return w is not FALSE


def locals_(ck):
    prog = ck.ctx.prog
    for f in prog.fns.values():
        i = ck.ctx.run(f["path"])
        for e in i.events:
            if e.kind not in ("store", "push", "mapins", "gcall"):
                continue
            r = e.args[0]
            if e.kind != "gcall" and not (isinstance(r, T) and r.op == "ref" and r.args[0][0] == "H"):
                continue
            if e.kind == "gcall" and not str(e.callee).endswith("add_node"):
                continue
            for x in e.args[1:3] if e.kind == "mapins" else e.args[1:2]:
                if isinstance(x, T):
                    hanging(ck, f, e, x)
        out = prog.types[f["locals"][0][0]]
        if out["k"] == "ptr" and i.ret is not None:
            for _, v in leaves(i.ret):
                if v.op == "ref" and v.args[0][0] == "L" and ("b",) not in v.args[1]:
                    ck.ob("links do not designate local variables", "%s returns a link" % f["path"], False, "to %s" % show(v, 3))
    ck.ob("links do not designate local variables", "%d functions" % len(prog.fns), True)


LINKS = ("parent", "account", "xact_ptr", "commodity")


def hanging(ck, f, e, x):
    seen = set()

    def go(t, link):
        if not isinstance(t, T) or (t.id, link) in seen:
            return
        seen.add((t.id, link))
        if t.op == "ref":
            if link and t.args[0][0] == "L" and ("b",) not in t.args[1]:
                ck.ob("links do not designate local variables", "%s at %s" % (f["path"], e.span), False, "stores a link to the local %s" % show(t, 3))
            return
        if t.op == "agg":
            for n, v in zip(t.args[2], t.args[3:]):
                go(v, link or n in LINKS)
            return
        if t.op == "upd":
            go(t.args[0], link)
            go(t.args[2], link or (t.args[1][0] == "f" and t.args[1][1] in LINKS))
            return
        for a in t.args:
            if isinstance(a, T):
                go(a, link)
    path = e.args[0].args[1] if isinstance(e.args[0], T) and e.args[0].op == "ref" else ()
    go(x, bool(path and path[-1][0] == "f" and path[-1][1] in LINKS) or e.kind == "gcall" or
       (e.kind == "push" and bool(path) and path[-1] == ("f", "posts")))


def check(ck):
    ck.group("linked objects are stored where they do not move", types)
    ck.group("no object is taken out of its container", moves)
    ck.group("existing entries are not replaced", inserts)
    ck.group("objects are not replaced", assigned)
    ck.group("a posting links to the transaction that owns it", owners)
    ck.group("links are renewed when transactions move", relink)
    ck.group("links do not designate local variables", locals_)
