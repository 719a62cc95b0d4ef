"""Contracts of crate functions, used instead of inlining them when another function is
analysed (assume-guarantee).  Every function summarised here has its own obligations, in the
rules, that establish the contract from its body.  A function that does not exist under the
given path is simply inlined."""
from terms import *
from norm import *

A = "crate::amount::"
B = "crate::balance::Balance"
P = "crate::pool::CommodityPool::"
H = "crate::history::CommodityHistory::"


def val(itp, st, x):
    return itp.deep(st, x)


def upd(op):
    """self := op(old self, deep args); returns unit"""
    def h(itp, st, fr, args, callee, span):
        old = itp.load_ref(st, args[0])
        itp.store_ref(st, args[0], mk(op, old, *[val(itp, st, a) for a in args[1:]]), fr, span)
        return UNIT
    return h


def new(op):
    def h(itp, st, fr, args, callee, span):
        return mk(op)
    return h


def commodity_of(sym):
    return ite(nonempty(sym), mk("commodity", sym), NULL)


def h_foc(itp, st, fr, args, callee, span):
    sym = itp.load_ref(st, args[1])
    old = itp.load_ref(st, args[0])
    itp.store_ref(st, args[0], mk("pool.foc", old, sym, val(itp, st, args[2])), fr, span)
    return commodity_of(sym)


def h_regacct(itp, st, fr, args, callee, span):
    nm = itp.load_ref(st, args[1])
    old = itp.load_ref(st, args[0])
    itp.store_ref(st, args[0], mk("jrnl.account", old, nm), fr, span)
    return some(mk("account", nm))


def h_acctfoc(itp, st, fr, args, callee, span):
    """Account::find_or_create(self, name, auto): the link to the account, by the place it is searched from"""
    nm = itp.load_ref(st, args[1]) if args[1].op == "ref" else args[1]
    auto = args[2]
    if auto is not FALSE:
        old = itp.load_ref(st, args[0])
        itp.store_ref(st, args[0], ite(cond(auto), mk("acct.added", old, nm), old), fr, span)
    return mk("acct.foc", args[0], nm, auto)


def pure(op, deref=True):
    def h(itp, st, fr, args, callee, span):
        return mk(op, *[val(itp, st, a) for a in args])
    return h


def rec(op, fields):
    """a function that returns a struct/tuple/array of values computed from its arguments:
    the result is a term with those projections"""
    def h(itp, st, fr, args, callee, span):
        return mk(op, *[val(itp, st, a) for a in args])
    return h


def method(op, ret=None):
    """mutates its first argument, result opaque"""
    def h(itp, st, fr, args, callee, span):
        old = itp.load_ref(st, args[0])
        vals = [val(itp, st, a) for a in args[1:]]
        itp.store_ref(st, args[0], mk(op, old, *vals), fr, span)
        return UNIT if ret is None else mk(ret, old, *vals)
    return h


def event_only(itp, st, fr, args, callee, span):
    return UNIT


def impl_path(prog, trait, name, *tys):
    out = []
    for (t, n, a), f in prog.impls.items():
        if t == trait and n == name and a == tys:
            out.append(f["path"])
    return out


BAL = "balance"
ALL = {
    BAL: {
        B + "::new": new("bal.new"),
        B + "::add": upd("bal.add"),
    },
    "pool": {
        P + "find_or_create": h_foc,
    },
    "price": {
        P + "add_price": upd("pool.price"),
        P + "add_price_struct": upd("pool.prices"),
        P + "parse_price_directive": upd("pool.pdir"),
    },
    "history": {
        H + "add_price": upd("hist.price"),
    },
    "account": {
        "crate::journal::Journal::register_account": h_regacct,
        "crate::account::Account::find_or_create": h_acctfoc,
    },
    "tree": {
        "crate::account::Account::total": pure("acct.total"),
        "crate::account::Account::amount": pure("acct.amount"),
        "crate::account::Account::fullname": pure("acct.fullname"),
        "crate::account::Account::flatten_account_tree": pure("acct.tree"),
    },
    "xact": {
        "crate::journal::Journal::add_xact": method("jrnl.xact", "xactref"),
        "crate::xact::finalize": None,
    },
    "scan": {
        "crate::scanner::scan_post": pure("scan.post"),
        "crate::scanner::scan_amount": lambda itp, st, fr, args, callee, span: scan_amount(val(itp, st, args[0])),
        "crate::scanner::scan_price_directive": pure("scan.price"),
    },
    "header": {
        "crate::scanner::tokenize_xact_header": pure("scan.header"),
    },
    "create": {
        "crate::xact::Xact::create": pure("xact.create"),
    },
    "amount": {
        "crate::parser::parse_amount_parts": None,
        "crate::annotate::Annotation::parse": None,
        "crate::amount::Quantity::from_str": pure("quantity"),
    },
    "file": {
        "crate::parse_file": None,
    },
    "report": {
        "crate::report::report_accounts": pure("report.accounts"),
        "crate::report::balance_report": pure("report.balance"),
    },
}


def h_finalize(itp, st, fr, args, callee, span):
    x, j = args[0], args[1]
    old = itp.load_ref(st, j)
    itp.store_ref(st, j, mk("jrnl.finalize", old, x), fr, span)
    return UNIT


def h_amount_parts(itp, st, fr, args, callee, span):
    q, s = itp.load_ref(st, args[0]), itp.load_ref(st, args[1])
    old = itp.load_ref(st, args[2])
    itp.store_ref(st, args[2], mk("jrnl.commodity", old, s), fr, span)
    am = agg("crate::amount::Amount", "Amount", ("quantity", "commodity"), [mk("quantity!", q), commodity_of(s)])
    return ite(nonempty(q), some(am), NONE)


def h_annotation(itp, st, fr, args, callee, span):
    vals = [val(itp, st, a) for a in args[:3]]
    old = itp.load_ref(st, args[3])
    itp.store_ref(st, args[3], mk("jrnl.commodity", old, vals[2]), fr, span)
    return mk("annotation.parse", *vals)


def h_parse_file(itp, st, fr, args, callee, span):
    nm = val(itp, st, args[0])
    old = itp.load_ref(st, args[1])
    itp.store_ref(st, args[1], mk("jrnl.file", old, nm), fr, span)
    return UNIT


ALL["xact"]["crate::xact::finalize"] = h_finalize
ALL["amount"]["crate::parser::parse_amount_parts"] = h_amount_parts
ALL["amount"]["crate::annotate::Annotation::parse"] = h_annotation
ALL["file"]["crate::parse_file"] = h_parse_file


def make(prog, root, groups=None, without=()):
    """handlers for all groups (or the given ones), except the root itself"""
    out = {}
    for g, d in ALL.items():
        if (groups is not None and g not in groups) or g in without:
            continue
        for p, h in d.items():
            if p != root and p in prog.by_path:
                out[p] = h
        if g == BAL:
            for tr, m, op, t in (("core::ops::arith::AddAssign", "add_assign", "bal.add", "amount::Amount"),
                                 ("core::ops::arith::SubAssign", "sub_assign", "bal.sub", "amount::Amount"),
                                 ("core::ops::arith::AddAssign", "add_assign", "bal.addb", "balance::Balance")):
                for f in prog.fns.values():
                    if f.get("trait", "") and f["trait"].split("::")[-1] == tr.split("::")[-1] and f["name"] == m:
                        a = [prog.types[x]["s"] for x in f["trait_args"]]
                        if a[0].endswith("balance::Balance") and a[1].endswith(t) and f["path"] != root:
                            out[f["path"]] = upd(op)
    return out
