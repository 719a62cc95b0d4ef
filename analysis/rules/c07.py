"""C07 The same input always gives the same output.

(1) No function reachable from the entry points calls a source of nondeterminism (clock, random
numbers, threads, environment, process identity) or turns an address into a number or text
that is not only logged.  (2) Wherever a hash map is iterated, the elements are put in an order
determined by their keys before anything order-sensitive is done with them: every traversal
over a map's keys in the value flow of the analysed functions goes through a sort by the keys'
own order."""
import re
from core import *

ROOTS = ("crate::run", "crate::run_command", "crate::parse_file", "crate::parse_text", "crate::report::report_accounts",
         "crate::report::balance_report", "crate::parser::read_into_journal")
SOURCES = re.compile(r"(::now$|::now_utc$|::today$|SystemTime|Instant::|std::time::|chrono::(Local|Utc)|::elapsed$|^rand|::random$|thread_rng|getrandom|fastrand|"
                     r"std::thread::|std::sync::mpsc|rayon|std::process::|std::env::(var|vars|temp_dir|home_dir|args|consts)|std::net::|"
                     r"::type_id$|TypeId::of|type_name|RandomState::new|DefaultHasher|BuildHasher|::hash_one$|::addr$|expose_provenance|"
                     r"std::fs::(read_dir|metadata)|std::path::Path::(metadata|read_dir)|available_parallelism|Location::caller)")
ITER = {"keys", "values", "values_mut", "iter", "iter_mut", "into_iter", "drain", "into_keys", "into_values", "retain"}


# ways to use up a set without its order
CALM = {"count", "sum", "any", "all", "min", "max"}


def entry(ck):
    fs = [ck.ctx.prog.by_path[p] for p in ROOTS if p in ck.ctx.prog.by_path]
    if len(fs) < 5:
        raise Missing("entry points")
    return fs


def sources(ck):
    prog = ck.ctx.prog
    reach = ck.ctx.reachable(entry(ck))
    n = 0
    for x in reach:
        f = prog.fns.get(x)
        if f is None:
            continue
        ck.seen.add(f["path"])
        for c in calls_of(prog, f):
            if c["kind"] == "closure" or any(t in prog.fns for t in c["targets"]):
                continue
            n += 1
            bad = SOURCES.search(c["name"])
            ce = c["callee"]
            if ce.get("trait") in ("std::cmp::Ord", "std::cmp::PartialOrd") and ce.get("targs") and holds_ptr(prog, ce["targs"][0]):
                ck.ob("addresses are not ordered", f["path"], False, "addresses are compared by order (%s)" % c["span"])
            ck.ob("no nondeterministic source", "%s calls %s" % (f["path"], c["name"]), not bad, "can give a different value on each run (%s)" % c["span"])
        for b in f["blocks"]:
            if b["cleanup"]:
                continue
            for s in b["s"]:
                r = s.get("r")
                if r and r["k"] == "cast" and "PointerExpose" in str(r.get("kind", "")):
                    how = number_uses(f, s["p"]["l"])
                    if how == "shown":
                        ck.undecided("addresses are not values", f["path"], "an address is turned into a number that is passed on (%s)" % s.get("sp"))
                    else:
                        ck.ob("addresses are not values", f["path"], how == "equality", "an address is turned into a number (%s)" % s.get("sp"))
                if r and r["k"] == "bin" and r.get("op") in ("Lt", "Le", "Gt", "Ge", "Cmp") and ptr_operand(prog, f, r):
                    ck.ob("addresses are not ordered", f["path"], False, "addresses are compared by order (%s)" % s.get("sp"))
    ck.ob("floor", "external calls", n >= 60, "%d external calls found, 60 expected" % n)
    # statics with interior state
    hid = hidden_state(ck, reach)
    for st, f, sp, once in hid:
        if once:
            ck.undecided("no hidden state", "%s at %s" % (f, sp), "%s is set once" % st)
        else:
            ck.ob("no hidden state", "%s at %s" % (f, sp), False, "the result depends on %s, which keeps its value from run to run" % st)
    if not hid:
        ck.ob("no hidden state", "crate", True)


def number_uses(f, local):
    """what a number made of an address is used for: equality tests only, borrowed, or anything else"""
    found, todo, seen = set(), [local], set()
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for b in f["blocks"]:
            for s in b["s"]:
                r = s.get("r")
                if not r or not mentions(r, l):
                    continue
                if r["k"] == "use":
                    todo.append(s["p"]["l"])
                elif r["k"] == "bin" and r.get("op") in ("Eq", "Ne"):
                    found.add("equality")
                elif r["k"] == "ref":
                    found.add("shown")
                else:
                    found.add("value")
            if mentions(b["t"], l):
                found.add("value")
    return "value" if "value" in found else "shown" if "shown" in found else "equality"


def mentions(j, l):
    if isinstance(j, dict):
        return "l" in j and j["l"] == l and "t" in j or any(mentions(x, l) for x in j.values())
    return isinstance(j, list) and any(mentions(x, l) for x in j)


def holds_ptr(prog, t):
    t = prog.types[t]
    return t["k"] == "ptr" or t["k"] == "ref" and holds_ptr(prog, t["t"])


def ptr_operand(prog, f, r):
    for k in ("a", "b", "l", "r"):
        o = r.get(k)
        if isinstance(o, dict) and o.get("p") and prog.types[o["p"]["t"]]["k"] == "ptr":
            return True
    return False


def keyed(key, seq, elem_bv):
    """does the sort key tell apart the elements (map keys)?"""
    if key.op == "natural":
        return True
    if key.op != "key":
        return None
    k = key.args[0]
    return distinct_key(k)


def distinct_key(k):
    while k.op == "deref" or (k.op == "ref" and k.args[0][0] == "V" and not k.args[1]):
        k = k.args[0] if k.op == "deref" else k.args[0][1]
    if k.op == "e" and k.args[0].op == "keys":
        return True
    if k.op == "f" and k.args[1] in ("name", "symbol"):
        # the name of the object stored under the key (C08, C09: name = key)
        return any(x.op == "keys" for x in subterms(k.args[0]))
    if k.op == "acct.fullname":
        return True
    if k.op == "agg" and k.args[0] == "tuple" or k.op == "tup":
        return any(distinct_key(x) for x in k.args if isinstance(x, T))
    return False


def leaks(t, btree, out, insorted=False, seen=None):
    """order-sensitive uses of a hash map's own order"""
    if seen is None:
        seen = set()
    st = [(t, False)]
    while st:
        x, srt = st.pop()
        if isinstance(x, tuple):
            st.extend((y, False) for y in x)
            continue
        if not isinstance(x, T) or (x.id, srt) in seen:
            continue
        seen.add((x.id, srt))
        if x.op == "sorted":
            v, key = x.args[:2]
            if maps_of(v, btree):
                k = keyed(key, v, None)
                if k is False:
                    out.append("sorted by %s, which does not tell the elements apart" % show(key, 6))
                elif k is None:
                    out.append(None)
            st.append((v, True))
            st.append((key, False))
            continue
        if x.op in ("fold", "comp", "flatcomp", "first"):
            seq = x.args[0]
            bv = x.args[2] if x.op == "fold" else x.args[1]
            body = x.args[3] if x.op == "fold" else x.args[2] if x.op in ("comp", "flatcomp") else x.args[1]
            if seq.op == "keys" and seq.args[0] not in btree and not srt:
                direct = [y for y in subterms(body) if y.op == "e" and y.args[0] is seq and y.args[1].op != "perm" and bv in list(subterms(y.args[1]))]
                if direct and not commutative(x, body):
                    out.append("%s over %s in the map's own order" % (show(body, 6), show(seq, 5)))
            elif seq.op in ("comp", "flatcomp", "keys"):
                pass
        if x.op == "e" and x.args[0].op == "keys" and x.args[0].args[0] not in btree and x.args[1].op in ("c", "last"):
            out.append("picks element %s of %s" % (show(x.args[1]), show(x.args[0], 5)))
        st.extend((a, False) for a in x.args)
    return out


def maps_of(v, btree):
    return any(x.op == "keys" and x.args[0] not in btree for x in subterms(v))


def commutative(x, body):
    """a fold whose result does not depend on the order"""
    if x.op != "fold":
        return False
    b = body
    if b.op in ("map.ins", "set.ins", "or", "and"):
        return True
    if b.op in ("+", "dec.add") and any(a.op == "acc" for a in b.args):
        return True
    if b.op == "ite":
        return all(l.op == "acc" or l in (TRUE, FALSE) or commutative(x, l) for _, l in leaves(b))
    return False


def order(ck):
    prog = ck.ctx.prog
    reach = ck.ctx.reachable(entry(ck))
    paths = {prog.fns[x]["path"] for x in reach if x in prog.fns}
    # functions that iterate a map, and the functions their result is given to
    direct = set()
    for x in reach:
        f = prog.fns.get(x)
        if f is None:
            continue
        for c in calls_of(prog, f):
            m = c["name"].split("::")[-1]
            ta = " ".join(prog.tys(a) for a in c["callee"].get("targs", []))
            if m in ITER and ("HashMap" in c["name"] or "HashSet" in c["name"] or (m == "into_iter" and ("HashMap<" in ta or "HashSet<" in ta))):
                direct.add(f["id"])
    callers = {}
    for x in reach:
        f = prog.fns.get(x)
        if f is None:
            continue
        for c in calls_of(prog, f):
            for t in c["targets"]:
                if t in prog.fns:
                    callers.setdefault(t, set()).add(x)
    import summaries
    contract = {p for g in summaries.ALL.values() for p in g}
    todo, judged, seen = list(direct), set(), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        f = prog.fns[x]
        rec = x in callers.get(x, ())
        up = callers.get(x, set()) - {x}
        if f["kind"] == "closure" or (not f.get("exported") and not rec and up and f["path"] not in contract):
            todo += list(up)        # judged together with its callers
        else:
            judged.add(x)
    n = 0
    for x in sorted(judged):
        f = prog.fns[x]
        i = ck.run(f, without=("tree",) if f["path"].startswith("crate::account") else ("report",) if f["path"].startswith("crate::report") else ())
        if i.out is None:
            continue
        btree = {e.extra[1] for e in i.events if e.kind == "mapiter" and e.extra and e.extra[0]}
        n += len([e for e in i.events if e.kind == "mapiter"])
        out = []
        for v in [i.ret] + [v for b, v in i.out.store.items() if b[0] == "H"]:
            if v is not None:
                leaks(v, btree, out)
        if any(p.op == "phi" for p in subterms(i.ret)) and any(e.kind == "mapiter" for e in i.events):
            phis = [p for p in subterms(i.ret) if p.op == "phi"]
            ck.undecided("hash order", loc(f), "unresolved loop result %s" % show(phis[0]))
        if None in out:
            ck.undecided("hash order", loc(f), "sorted by a comparison that was not understood")
            out = [o for o in out if o]
        ck.ob("hash order does not show", loc(f), not out, "; ".join(sorted(set(out))))
    for x in sorted(direct):
        f = prog.fns[x]
        sets = [c for c in calls_of(prog, f) if c["name"].split("::")[-1] in ITER and "HashSet<" in " ".join([c["name"]] + [prog.tys(a) for a in c["callee"].get("targs", [])])]
        if sets:
            names = {c["name"].split("::")[-1] for c in calls_of(prog, f)}
            text = " ".join(prog.tys(a) for c in calls_of(prog, f) for a in c["callee"].get("targs", []))
            calm = names & CALM or any(n.startswith("sort") for n in names) or "BTree" in text
            if calm:
                ck.undecided("hash order", loc(f), "iterates a hash set at %s" % sets[0]["span"])
            else:
                ck.ob("hash order does not show", loc(f), False, "goes through a hash set in its own order (%s)" % sets[0]["span"])
    ck.count("map traversals", n)
    ck.ob("floor", "hash map traversals", len(judged) >= 1 or not direct, "no function judged")


def pointers(ck):
    """address formatting only in log calls: no report or error text contains an address"""
    for p in ("crate::report::report_accounts", "crate::report::balance_report", "crate::execute_command"):
        i = ck.run(p, without=("report",))
        bad = [x for x in subterms(i.ret) if x.op in ("dispptr", "addr") or (x.op == "disp" and "*const" in str(x.args[1:])) or (x.op == "disp" and "*mut" in str(x.args[1:]))]
        ck.ob("no address in a report", p, not bad, "prints %s" % (show(bad[0], 5) if bad else ""))


def check(ck):
    ck.group("sources", sources)
    ck.group("hash order", order)
    ck.group("addresses", pointers)
