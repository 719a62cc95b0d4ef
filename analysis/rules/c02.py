"""C02 Quantities are exact decimals from journal text to report.

(1) No function of the crate outside the explicit float/int conversion impls handles a floating
point value or calls a decimal operation that can drop digits (rounding, truncation, rescaling,
normalising, non-exact parsing, saturating arithmetic), and none of the conversion impls is
called from the crate.  (2) The text given to the quantity parser reaches the exact decimal
parser unmodified, and its failure is reported.  (3) A quantity is displayed as the whole
decimal without a precision or width.  (4) Quotients never become part of an amount or balance
that is reported: divisions occur only to derive unit prices."""
import re
from core import *

LOSSY = re.compile(r"(^|_)(round|trunc|floor|ceil|rescale|normalize|saturating|wrapping|f32|f64|scientific|radix|fract|quantize)|"
                   r"^(set_scale|with_scale|from_str|parse|to_[iu](8|16|32|64|128|size)|from_retain|powi|powf|powd|sqrt|rem|unpack)")
FLOATS = ("f32", "f64", "f16", "f128")


def conversion_impl(prog, f):
    """impl From<float> / Into<int> and the like: conversions the caller asks for"""
    if not f.get("trait"):
        return False
    t = f["trait"].split("::")[-1]
    if t not in ("From", "Into", "TryFrom", "TryInto", "FromPrimitive", "ToPrimitive"):
        return False
    return any(prog.tys(a) in FLOATS + ("i32", "i64", "u32", "u64", "isize", "usize", "i128", "u128") for a in f["trait_args"])


def decimalish(c):
    n = c["name"]
    if "rust_decimal" in n or "Decimal" in n:
        return True
    ga = c["callee"].get("args") or []
    return False


def lossless(ck):
    prog = ck.ctx.prog
    conv = {f["id"] for f in prog.fns.values() if conversion_impl(prog, f)}
    # closures inside conversions belong to them
    n = 0
    for p in (prog, ck.ctx.bin):
        if p is None:
            continue
        for f in p.fns.values():
            if f["id"] in conv or f.get("derived"):
                continue
            ck.seen.add(f["path"])
            fl = sorted({p.tys(l[0]) for l in f["locals"] if p.tys(l[0]).strip("&mut ") in FLOATS})
            ck.ob("no floating point", loc(f), not fl, "has values of type %s" % fl)
            for c in calls_of(p, f):
                nm = c["name"].split("::")[-1]
                if decimalish(c) or (c["callee"].get("impl_self") is not None and p.tys(c["callee"]["impl_self"]).endswith("Decimal")):
                    n += 1
                    bad = bool(LOSSY.search(nm)) and nm != "from_str_exact"
                    ck.ob("no lossy decimal operation", "%s calls %s" % (f["path"], c["name"]), not bad,
                          "%s can change the value (%s)" % (nm, c["span"]))
                elif nm == "parse" and "str" in c["name"]:
                    tgt = [p.tys(a) for a in c["callee"].get("targs", [])]
                    ck.ob("no lossy decimal operation", "%s calls %s" % (f["path"], c["name"]),
                          not any("Decimal" in x or x in FLOATS for x in tgt), "parses a decimal inexactly (%s)" % c["span"])
                for t in c["targets"]:
                    if t in conv:
                        g = prog.fns[t]
                        floaty = any(prog.tys(a) in FLOATS for a in g["trait_args"]) or g["trait"].split("::")[-1] in ("Into", "ToPrimitive")
                        ck.ob("conversions not used inside", "%s uses %s" % (f["path"], g["path"]), not floaty,
                              "converts a quantity through a primitive number (%s)" % c["span"])
    ck.ob("floor", "decimal calls", n >= 10, "%d calls of decimal operations found, 10 expected" % n)


def parse_exact(ck):
    i = ck.run("crate::amount::Quantity::from_str")
    s = i.params[0]
    evs = [e for e in i.events if e.kind == "call" and e.callee and "Decimal" in str(e.callee)]
    exact = [e for e in evs if str(e.callee).endswith("from_str_exact")]
    ck.ob("exact parser used", loc(i.fn), len(evs) == len(exact) >= 1, "quantities are parsed by %s" % sorted({str(e.callee) for e in evs}))
    for e in exact:
        ck.ob("text parsed unmodified", loc(i.fn), strip_str(i.deep(i.out, e.args[0])) is strip_str(s), "the parsed text is %s" % show(e.args[0], 6))
    r = mk("call", "Decimal::from_str_exact", s)
    exp = ite(isok(r), some(proj(proj(r, ("v", "Ok")), ("f", "0"))), NONE)
    ck.ob("parsed value returned", loc(i.fn), same(strip_strs(i.ret), strip_strs(exp)), "returns %s" % show(i.ret, 7))


def isok(r):
    return is_variant(r, "std::result::Result", "Ok")


def strip_str(t):
    while t.op == "deref" or (t.op == "ref" and t.args[0][0] == "H" and not t.args[1]):
        t = t.args[0] if t.op == "deref" else t.args[0][1]
    return t


def strip_strs(t):
    """drop string dereferences everywhere"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is None:
            if x.op == "deref":
                r = go(x.args[0])
            elif not x.args:
                r = x
            elif x.op == "ite":
                r = ite(cond(go(x.args[0])), go(x.args[1]), go(x.args[2]))
            else:
                na = tuple(go(a) for a in x.args)
                r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
            memo[x.id] = r
        return r
    return go(t)


def display(ck):
    f = ck.ctx.impl("Display", "fmt", "Quantity")
    i = ck.run(f)
    w = [e for e in i.events if e.kind == "write"]
    ok = False
    got = ""
    if len(w) == 1 and w[0].pc is TRUE:
        x = w[0].args[1]
        got = show(x, 6)
        ok = x.op == "disp" and strip_str(x.args[0]) is i.params[0] and len(x.args) == 2
    elif not w:
        # delegation to the decimal's own Display
        r = i.ret
        got = show(r, 6)
        ok = any(x.op == "disp" and strip_str(x.args[0]) is i.params[0] for x in subterms(r))
    ck.ob("whole decimal displayed", loc(f), ok, "Display writes %s" % (got or [show(e.args[1], 6) for e in w]))


def divisions(ck):
    n = 0
    for path in ("crate::xact::finalize", "crate::parser::read_into_journal", "crate::account::Account::amount", "crate::account::Account::total",
                 "crate::report::balance_report", "crate::balance::Balance::add"):
        i = ck.run(path)
        n += 1
        for e in i.events:
            if e.kind == "store" and isinstance(e.args[0], T) and e.args[0].op == "ref":
                for c, l in leaves(e.args[1]):
                    q = quantity_of_amount_written(e.args[0], l)
                    if q is not None and any(x.op in ("dec.div", "dec.rem") for x in subterms(q)):
                        ck.ob("no quotient in an amount", "%s in %s" % (e.fn, path), False, "a posting amount is set to %s (%s)" % (show(q, 7), e.span))
        ck.ob("no quotient in an amount", path, True)


def quantity_of_amount_written(ref, v):
    p = ref.args[1]
    if p and p[-1] == ("f", "amount"):
        return v
    return None


def kept(ck):
    """a quantity that exists is never replaced by a fixed number"""
    for f in ck.ctx.prog.fns.values():
        if f["kind"] == "closure" or f.get("derived"):
            continue
        if f["path"] not in writers(ck.ctx.prog, "Amount", "quantity"):
            continue
        try:
            i = ck.run(f)
        except (AnalysisError, RecursionError):
            continue
        for e in i.events:
            if e.kind == "store" and isinstance(e.args[0], T) and e.args[0].op == "ref" and e.args[0].args[1] and e.args[0].args[1][-1] == ("f", "quantity"):
                bad = [l for _, l in leaves(e.args[1], e.pc) if l.op in ("dec.const", "citem") and isinstance(l, T)]
                ck.ob("a quantity is never replaced by a constant", "%s in %s" % (e.fn, f["path"]), not bad, "set to %s (%s)" % (bad and show(bad[0], 3), e.span))


WHOLE = ("concat", "fold", "ite", "vec.push", "vec.extend", "vec.new", "comp", "flatcomp", "agg", "box", "some")


def printed(ck):
    """in the lines of a report every quantity appears as a whole"""
    for path in ("crate::report::balance_report",):
        i = ck.run(path)
        roots = [i.ret] + [e.args[1] for e in i.events if e.kind == "push" and isinstance(e.args[1], T)]
        for f in ck.ctx.prog.fns.values():
            if f["path"] in i.seen_fns and f["path"].startswith("crate::report::") and f["kind"] != "closure" and f["path"] != path:
                j = ck.run(f)
                if j.out is not None:
                    roots.append(j.ret)
        n, seen = 0, set()

        def go(t, cut):
            nonlocal n
            if not isinstance(t, T):
                if isinstance(t, tuple):
                    for x in t:
                        go(x, cut)
                return
            if (t.id, cut) in seen:
                return
            seen.add((t.id, cut))
            if t.op == "disp" and t.args[0].op == "f" and t.args[0].args[1] == "quantity":
                n += 1
                ck.ob("quantities are printed whole", "%s: %s" % (path, show(t, 4)), cut is None, "only part of it: %s" % (cut and show(cut, 4)))
                return
            if t.op == "fmtspec":
                q = [x for x in subterms(t) if x.op == "f" and x.args[1] == "quantity"]
                if q:
                    n += 1
                    prec = t.args[3] if len(t.args) > 3 else None
                    has = prec is not None and str(prec) not in ("None", "-1")
                    ck.ob("quantities are printed whole", "%s: %s" % (path, show(t, 4)), not has, "printed with a precision")
                    return
            if t.op == "ite":
                go(t.args[1], cut)
                go(t.args[2], cut)
                return
            c = cut
            if t.op in ("slice", "upto", "from", "after", "trim", "trim_start", "trim_end", "take", "replace", "trim_end_matches", "trim_start_matches", "piece"):
                c = t
            for x in t.args:
                go(x, c)
        for r in roots:
            go(r, None)
        if not n:
            ck.undecided("quantities are printed whole", path, "no printed quantity found")


def check(ck):
    from rules import c15
    ck.group("quantities kept", kept)
    ck.group("printed quantities", printed)
    for f in (c15.scan_amount, c15.scan_post, c15.postings, c15.builders):
        ck.part("written quantity", f, lambda rule, where: (rule == "amount text" and ": quantity," in where) or
                (rule == "amount of the line" and where.endswith(": quantity")) or
                rule in ("posting's amount: quantity", "amount from its texts: quantity", "quantity from its text"))
    ck.group("lossless operations", lossless)
    ck.group("exact parsing", parse_exact)
    ck.group("display", display)
    ck.group("divisions", divisions)
