"""Models of the library functions used by (or likely to be used in) the crate."""
from terms import *
from norm import *
import norm

FNS = {}
FNTAB = {}


def fnkey(callee):
    k = (callee.get("rid") or callee["id"]) + "|" + ",".join(str(x) for x in callee.get("rtargs", callee["targs"]))
    FNS[k] = callee
    return k


class Ctx:
    def __init__(self, itp, st, fr, span, site, callee, argtys, retty):
        self.itp, self.st, self.fr, self.span, self.site = itp, st, fr, span, site
        self.callee, self.argtys, self.retty = callee, argtys, retty

    # memory
    def load(self, r):
        return self.itp.load_ref(self.st, r)

    def val(self, r):
        """value with references stripped"""
        return self.itp.deep(self.st, r)

    def s(self, r):
        """string content of a &str / &String / String / &&str"""
        n = 0
        while n < 6:
            if r.op == "ref":
                r = self.load(r)
            elif r.op == "ite" and any(l.op == "ref" for _, l in leaves(r)):
                r = apply(None, lambda x: self.load(x) if x.op == "ref" else x, r)
            elif r.op == "box":
                r = r.args[0]
            else:
                break
            n += 1
        return r

    def store(self, r, v):
        self.itp.store_ref(self.st, r, v, self.fr, self.span)

    def event(self, kind, name, args, extra=None):
        return self.itp.event(kind, name, args, self.st, self.fr, self.span, extra)

    def call(self, f, *args, tag=0):
        return self.itp.call_value(self.st, self.fr, f, list(args), self.span, (self.site, tag))

    def name(self):
        return self.callee.get("rdef") or self.callee["def"]

    def assume(self, c, why, extra=None):
        r = self.itp.assume(self.st, c, [0], self.fr, self.span, why, extra)
        if not r:
            self.st.pc = FALSE
            return False
        return True

    def fork(self, c, fa, fb):
        """run fa under c and fb under not c, merge; value = ite(c, va, vb)"""
        st = self.st
        base_pc = st.pc
        sa, sb = st.copy(AND(base_pc, c)), st.copy(AND(base_pc, NOT(c)))
        va = vb = None
        if sa.pc is not FALSE:
            self.st = sa
            va = fa()
            if va is None or sa.pc is FALSE:
                sa = None
        else:
            sa = None
        if sb is not None and sb.pc is not FALSE:
            self.st = sb
            vb = fb()
            if vb is None or sb.pc is FALSE:
                sb = None
        else:
            sb = None
        self.st = st
        if sa is None and sb is None:
            st.pc = FALSE
            return None
        if sb is None:
            st.store, st.pc = sa.store, sa.pc
            return va
        if sa is None:
            st.store, st.pc = sb.store, sb.pc
            return vb
        m = self.itp.merge([sa, sb])
        st.store, st.pc = m.store, m.pc
        return restrict(ite(c, va, vb), m.pc)

    def unknown(self, *args):
        n = self.name()
        ev = self.event("call", n, list(args), extra=self.callee)
        tys = list(self.argtys) + [None] * len(args)
        r = self.itp.unknown_call(n, self.callee, list(args), self.st, self.fr, self.span, tys, self.retty)
        ev.res = r
        return r

    def pure(self, opname, *args):
        return mk("call", opname, *[self.val(a) for a in args])


MODELS = {}


def model(*keys):
    def d(f):
        for k in keys:
            MODELS[k] = f
        return f
    return d


def family(itp_types, callee):
    """key candidates for a callee"""
    out = []
    name = callee["def"]
    meth = name.split("::")[-1]
    if callee.get("trait"):
        out.append((callee["trait"].split("::")[-1], callee.get("method", meth)))
    out.append(("fn", name))
    if "impl_self" in callee:
        t = itp_types[callee["impl_self"]]
        k = t["k"]
        if k == "adt":
            out.append((t["path"].split("::")[-1], meth))
        else:
            out.append((k, meth))
    return out


_TYPES = [None]


def lookup(callee):
    name = callee["def"]
    for k in family(_TYPES[0], callee):
        if k in MODELS:
            return MODELS[k]
    # constructors
    if name in ("std::option::Option::Some", "std::prelude::v1::Some"):
        return lambda c, x: some(x)
    if name in ("std::result::Result::Ok",):
        return lambda c, x: ok(x)
    if name in ("std::result::Result::Err",):
        return lambda c, x: err(x)
    p = name
    adt = norm.ADT.get(p)
    if adt and adt["kind"] == "struct" and adt["local"]:
        names = [f["name"] for f in adt["variants"][0]["fields"]]
        if names == ["0"]:
            return lambda c, x: x
        return lambda c, *xs: agg(p, "", names, xs)
    q = p.rsplit("::", 1)
    if len(q) == 2 and q[0] in norm.ADT and norm.ADT[q[0]]["kind"] == "enum":
        return lambda c, *xs: agg(q[0], q[1], [str(i) for i in range(len(xs))], xs)
    return None


def resolve_blanket(itp, callee):
    tr, m = callee.get("trait"), callee.get("method")
    ts = [itp.prog.types[x]["s"] for x in callee["targs"]]
    if tr == "std::convert::Into" and m == "into" and len(ts) == 2:
        return itp.prog.impls.get(("std::convert::From", "from", (ts[1], ts[0])))
    f = itp.prog.impls.get((tr, m, tuple(ts)))
    return f


def structural(itp, m, args, st, fr, span, callee):
    c = Ctx(itp, st, fr, span, 0, callee, [], None)
    if m == "clone":
        return c.load(args[0])
    a, b = c.val(args[0]), c.val(args[1])
    if m == "eq":
        return eq(a, b)
    if m == "ne":
        return NOT(eq(a, b))
    if m == "lt":
        return lt(a, b)
    if m == "gt":
        return lt(b, a)
    if m == "le":
        return NOT(lt(b, a))
    if m == "ge":
        return NOT(lt(a, b))
    return mk("cmp", a, b)


# =================================================================== panics
def _panic(c, *args):
    n = c.name()
    extra = n
    for a in args:
        v = c.val(a)
        if v.op == "fmt":
            extra = v
        elif v.op == "c" and v.args[0] == "str":
            extra = v.args[1]
    c.event("panic", "panic", [], extra)
    c.st.pc = FALSE
    return None


for _n in ("panic", "panic_fmt", "panic_nounwind", "unreachable_display", "panic_display", "panic_str_2015",
           "panic_explicit", "assert_failed", "unreachable", "panic_bounds_check", "todo_default_msg",
           "panic_const::panic_const_div_by_zero", "panic_const_div_by_zero", "unimplemented_default_msg"):
    pass


def is_panic_fn(name):
    return "::panicking::" in name or name.startswith("std::rt::begin_panic") or name in ("std::process::abort",)


_lookup0 = lookup


def lookup(callee):  # noqa: F811
    n = callee.get("rdef") or callee["def"]
    if is_panic_fn(n):
        if n.endswith("todo_default_msg") or n.endswith("unimplemented_default_msg") or n.endswith("default_msg"):
            return lambda c, *a: mk("fmt", n)
        return _panic
    return _lookup0(callee)


# =================================================================== identity-like
def _ident_load(c, r):
    """clone / to_owned / as_str ...: the value behind the reference"""
    if r.op == "ref" or r.op == "ite":
        return apply(None, lambda x: c.load(x) if x.op in ("ref",) else x, r)
    t = c.itp.prog.types[c.argtys[0]] if c.argtys and c.argtys[0] is not None else None
    if t and t["k"] == "ref" and c.itp.prog.types[t["t"]]["k"] not in ("str",):
        return c.load(r)
    return r


@model(("Clone", "clone"))
def m_clone(c, r):
    v = _ident_load(c, r)
    return v


@model(("ToOwned", "to_owned"), ("String", "as_str"), ("String", "into_boxed_str"), ("str", "to_string"),
       ("String", "as_mut_str"), ("str", "into_string"), ("str", "to_owned"), ("ToOwned", "clone_into"), ("str", "as_str"))
def m_strid(c, r):
    return c.s(r) if _stringy(c, 0) else _ident_load(c, r)


def _ty(c, i):
    if c.argtys and i < len(c.argtys) and c.argtys[i] is not None:
        t = c.itp.prog.types[c.argtys[i]]
        while t["k"] in ("ref", "ptr"):
            t = c.itp.prog.types[t["t"]]
        return t
    return None


def _stringy(c, i):
    t = _ty(c, i)
    return t is not None and (t["k"] == "str" or t.get("path") in ("std::string::String", "std::boxed::Box", "std::borrow::Cow"))


@model(("Deref", "deref"), ("DerefMut", "deref_mut"), ("AsRef", "as_ref"), ("AsMut", "as_mut"), ("Borrow", "borrow"),
       ("BorrowMut", "borrow_mut"), ("Vec", "as_slice"), ("Vec", "as_mut_slice"), ("Box", "as_ref"), ("Box", "as_mut"))
def m_deref(c, r):
    t = _ty(c, 0)
    if t is None and c.callee.get("targs"):
        t = c.itp.prog.types[c.callee["targs"][0]]      # named as a function: the Self type
        if c.name().startswith("std::boxed::Box"):
            return c.itp.ref_step(r, ("b",))
    if t is not None:
        p = t.get("path")
        if p == "std::string::String":
            return c.s(r)
        if t["k"] == "str":
            return r if r.op != "ref" else c.s(r)
        if p == "std::boxed::Box":
            return c.itp.ref_step(r, ("b",))
        if p in ("std::path::PathBuf", "std::path::Path", "std::ffi::OsString", "std::ffi::OsStr"):
            return mk("ref", ("V", c.val(r)), ())
    return r


@model(("Box", "new"), ("Box", "from"))
def m_box(c, x):
    return mk("box", x)


@model(("Box", "new_uninit"))
def m_box_uninit(c, *a):
    return mk("box", mk("uninit", str(c.site)))


@model(("Box", "leak"), ("Box", "into_raw"))
def m_boxleak(c, x):
    c.event("leak", c.name(), [x])
    b = ("B", c.fr.fid, str(c.site))
    c.st.store[b] = proj(x, ("b",))
    return mk("ref", b, ())


@model(("Into", "into"), ("From", "from"))
def m_into(c, x):
    ts = [c.itp.prog.types[t] for t in c.callee["targs"]]
    if len(ts) >= 2:
        a, b = (ts[0], ts[1]) if c.callee["method"] == "into" else (ts[1], ts[0])

        def core(t):
            while t["k"] == "ref":
                t = c.itp.prog.types[t["t"]]
            return t
        ca, cb = core(a), core(b)
        strs = lambda t: t["k"] == "str" or t.get("path") in ("std::string::String",)
        if strs(ca) and (strs(cb) or cb.get("path") in ("std::path::PathBuf", "std::boxed::Box", "std::ffi::OsString", "std::borrow::Cow", "std::rc::Rc", "std::sync::Arc")):
            return c.s(x)
        if ca["k"] == "char" and strs(cb):
            return charstr(c.val(x))
        if cb.get("path") == "std::option::Option" and ca.get("path") != "std::option::Option":
            return some(x)
        if a["s"] == b["s"]:
            return x
        if cb.get("path", "").startswith("rust_decimal"):
            return dec_from(c, x, ca)
        if cb.get("path", "").startswith("anyhow") or cb["k"] == "dyn":
            return mk("errconv", x)
        if ca.get("path") == "std::vec::Vec" or cb.get("path") == "std::vec::Vec":
            return c.val(x) if x.op == "ref" else x
        if ca["k"] == "bool" and cb["k"] in ("int", "uint"):
            return ite(cond(c.val(x)), ONE, ZERO)
    return mk("call", "conv", c.val(x), cstr("->" + (c.itp.prog.tys(c.retty) if c.retty is not None else "?")))


def dec_from(c, x, t):
    v = c.val(x)
    if v.op == "c":
        return mk("dec.const", str(v.args[1]))
    return mk("call", "Decimal::from<%s>" % t["s"], v)


def charstr(ch):
    if ch.op == "ite":
        return apply("charstr", charstr, ch)
    if ch.op == "c":
        return cstr(ch.args[1])
    return mk("chr", ch)


@model(("ToString", "to_string"))
def m_to_string(c, r):
    t = _ty(c, 0)
    if t is None and c.itp.prog.types[c.callee["targs"][0]]["k"] == "str" if c.callee.get("targs") else False:
        t = c.itp.prog.types[c.callee["targs"][0]]
    return disp(c, c.val(r) if not (t and t["k"] == "str") else c.s(r), t)


def disp(c, v, t):
    if t is not None:
        if t["k"] == "str" or t.get("path") in ("std::string::String", "std::borrow::Cow") or (
                t.get("path") == "std::boxed::Box" and "str" in t["s"]):
            return v
        if t["k"] == "char":
            return charstr(v)
        if t.get("path") == "std::fmt::Arguments":
            return v
        return mk("disp", v, t["s"])
    if v.op == "c" and v.args[0] in ("str",):
        return v
    return mk("disp", v, "?")


@model(("fn", "std::hint::must_use"), ("fn", "std::convert::identity"), ("fn", "std::hint::black_box"))
def m_id(c, x):
    return x


@model(("fn", "std::mem::drop"), ("fn", "core::mem::drop"))
def m_drop(c, x):
    return UNIT


@model(("fn", "std::mem::forget"))
def m_forget(c, x):
    c.event("leak", c.name(), [x])
    return UNIT


@model(("fn", "std::mem::swap"))
def m_swap(c, a, b):
    x, y = c.load(a), c.load(b)
    c.store(a, y)
    c.store(b, x)
    c.event("call", c.name(), [a, b], extra=c.callee)
    return UNIT


@model(("fn", "std::mem::replace"))
def m_replace(c, a, v):
    x = c.load(a)
    c.event("call", c.name(), [a, v], extra=c.callee)
    c.store(a, v)
    return x


@model(("fn", "std::mem::take"))
def m_take(c, a):
    x = c.load(a)
    c.event("call", c.name(), [a], extra=c.callee)
    t = _ty(c, 0)
    c.store(a, default_of(t))
    return x


def default_of(t):
    if t is None:
        return mk("default", "?")
    p = t.get("path", "")
    if p == "std::option::Option":
        return NONE
    if p == "std::string::String" or t["k"] == "str":
        return cstr("")
    if p == "std::vec::Vec":
        return mk("vec.new")
    if p in ("std::collections::HashMap", "std::collections::BTreeMap"):
        return mk("map.new")
    if t["k"] == "bool":
        return FALSE
    if t["k"] == "int":
        return ZERO
    if t["k"] == "tuple" and not t["ts"]:
        return UNIT
    return mk("default", t["s"])


@model(("Default", "default"))
def m_default(c):
    return default_of(c.itp.prog.types[c.retty] if c.retty is not None else None)


# =================================================================== pointers
@model(("fn", "std::ptr::null"), ("fn", "std::ptr::null_mut"))
def m_null(c):
    return NULL


@model(("ptr", "is_null"))
def m_is_null(c, p):
    return is_null(p)


@model(("ptr", "cast_mut"), ("ptr", "cast_const"), ("ptr", "cast"), ("fn", "std::ptr::from_ref"), ("fn", "std::ptr::from_mut"),
       ("NonNull", "as_ptr"), ("NonNull", "from"), ("ptr", "as_ptr"))
def m_ptrcast(c, p):
    return p


@model(("ptr", "as_ref"), ("ptr", "as_mut"))
def m_ptr_as_ref(c, p):
    n = is_null(p)
    v = restrict(p, NOT(n)) if n is not TRUE else p
    v = apply(None, lambda x: x if x.op == "ref" or x in (BOT, NULL) else mk("ref", ("H", x), ()), v)
    return ite(n, NONE, some(v))


@model(("ptr", "read"), ("fn", "std::ptr::read"))
def m_ptr_read(c, p):
    c.event("rawderef", None, [p])
    return c.load(p)


@model(("fn", "std::ptr::eq"), ("fn", "std::ptr::addr_eq"))
def m_ptr_eq(c, a, b):
    return ptr_eq(a, b)


def ptr_eq(a, b):
    return eq(a, b)


# =================================================================== comparisons
@model(("PartialEq", "eq"))
def m_eq(c, a, b):
    t = _ty2(c, 0)
    if t and t["k"] == "ptr":
        return eq(c.load(a), c.load(b))
    if _stringy(c, 0) or _stringy(c, 1):
        return eq(c.s(a), c.s(b))
    return eq(c.val(a), c.val(b))


def _ty2(c, i):
    """type behind one reference"""
    if c.argtys and c.argtys[i] is not None:
        t = c.itp.prog.types[c.argtys[i]]
        if t["k"] == "ref":
            return c.itp.prog.types[t["t"]]
        return t
    return None


@model(("PartialEq", "ne"))
def m_ne(c, a, b):
    return NOT(m_eq(c, a, b))


def _lvl(c, i=0):
    t = _ty(c, i)
    return t is not None and t.get("path", "").startswith("log::")


@model(("PartialOrd", "lt"))
def m_lt(c, a, b):
    return lt(c.val(a), c.val(b))


@model(("PartialOrd", "le"))
def m_le(c, a, b):
    if _lvl(c):
        return FALSE        # logging is off: it has no observable effect on the model
    return NOT(lt(c.val(b), c.val(a)))


@model(("PartialOrd", "gt"))
def m_gt(c, a, b):
    return lt(c.val(b), c.val(a))


@model(("PartialOrd", "ge"))
def m_ge(c, a, b):
    if _lvl(c):
        return FALSE
    return NOT(lt(c.val(a), c.val(b)))


@model(("Ord", "cmp"))
def m_cmp(c, a, b):
    return mk("cmp", c.val(a), c.val(b))


@model(("PartialOrd", "partial_cmp"))
def m_pcmp(c, a, b):
    return some(mk("cmp", c.val(a), c.val(b)))


@model(("Ordering", "reverse"))
def m_ordrev(c, a):
    return mk("cmp", a.args[1], a.args[0]) if a.op == "cmp" else mk("cmprev", a)


@model(("Ord", "min"), ("fn", "std::cmp::min"))
def m_min(c, a, b):
    x, y = c.val(a), c.val(b)
    return ite(lt(y, x), b, a)


@model(("Ord", "max"), ("fn", "std::cmp::max"))
def m_max(c, a, b):
    x, y = c.val(a), c.val(b)
    return ite(lt(y, x), a, b)


# =================================================================== Option / Result
OPT, RES = "std::option::Option", "std::result::Result"


def isome(x):
    return is_variant(x, OPT, "Some")


def isok(x):
    return is_variant(x, RES, "Ok")


def ispos(c, x):
    return (isok if _path0(c) == RES else isome)(x)


def _path0(c):
    t = _ty(c, 0)
    return t.get("path") if t else OPT


def _payload(c, x):
    return pay(x, "Ok" if _path0(c) == RES else "Some")


@model(("Option", "is_some"))
def o_is_some(c, r):
    return isome(c.load(r))


@model(("Option", "is_none"))
def o_is_none(c, r):
    return NOT(isome(c.load(r)))


@model(("Result", "is_ok"))
def r_is_ok(c, r):
    return isok(c.load(r))


@model(("Result", "is_err"))
def r_is_err(c, r):
    return NOT(isok(c.load(r)))


@model(("Option", "unwrap"), ("Option", "expect"), ("Option", "unwrap_unchecked"))
def o_unwrap(c, x, *msg):
    k = isome(x)
    if not c.assume(k, "unwrap", x):
        return None
    return restrict(pay(x, "Some"), k)


@model(("Result", "unwrap"), ("Result", "expect"))
def r_unwrap(c, x, *msg):
    k = isok(x)
    if not c.assume(k, "unwrap", x):
        return None
    return restrict(pay(x, "Ok"), k)


@model(("Result", "unwrap_err"), ("Result", "expect_err"))
def r_unwrap_err(c, x, *msg):
    k = NOT(isok(x))
    if not c.assume(k, "unwrap", x):
        return None
    return restrict(pay(x, "Err"), k)


@model(("Option", "unwrap_or"))
def o_unwrap_or(c, x, d):
    c.event("default", c.name(), [x, d])
    return ite(isome(x), pay(x, "Some"), d)


@model(("Result", "unwrap_or"))
def r_unwrap_or(c, x, d):
    c.event("default", c.name(), [x, d])
    return ite(isok(x), pay(x, "Ok"), d)


@model(("Option", "unwrap_or_default"))
def o_unwrap_or_default(c, x):
    d = default_of(c.itp.prog.types[c.retty])
    c.event("default", c.name(), [x, d])
    return ite(isome(x), pay(x, "Some"), d)


@model(("Result", "unwrap_or_default"))
def r_unwrap_or_default(c, x):
    d = default_of(c.itp.prog.types[c.retty])
    c.event("default", c.name(), [x, d])
    return ite(isok(x), pay(x, "Ok"), d)


@model(("bool", "then"))
def b_then(c, b, f):
    return c.fork(cond(b), lambda: _opt_map(c, c.call(f)), lambda: NONE)


@model(("bool", "then_some"))
def b_then_some(c, b, x):
    return ite(cond(b), some(x), NONE)


@model(("Option", "unwrap_or_else"))
def o_unwrap_or_else(c, x, f):
    return c.fork(isome(x), lambda: pay(x, "Some"), lambda: c.call(f))


@model(("Result", "unwrap_or_else"))
def r_unwrap_or_else(c, x, f):
    return c.fork(isok(x), lambda: pay(x, "Ok"), lambda: c.call(f, pay(x, "Err")))


def _opt_map(c, v):
    return None if v is None else some(v)


@model(("Option", "map"))
def o_map(c, x, f):
    return c.fork(isome(x), lambda: _opt_map(c, c.call(f, pay(x, "Some"))), lambda: NONE)


@model(("Option", "inspect"))
def o_inspect(c, x, f):
    return x


@model(("Option", "map_or"))
def o_map_or(c, x, d, f):
    return c.fork(isome(x), lambda: c.call(f, pay(x, "Some")), lambda: d)


@model(("Option", "map_or_else"))
def o_map_or_else(c, x, d, f):
    return c.fork(isome(x), lambda: c.call(f, pay(x, "Some")), lambda: c.call(d, tag=1))


@model(("Option", "is_some_and"))
def o_is_some_and(c, x, f):
    return c.fork(isome(x), lambda: c.call(f, pay(x, "Some")), lambda: FALSE)


@model(("Option", "is_none_or"))
def o_is_none_or(c, x, f):
    return c.fork(isome(x), lambda: c.call(f, pay(x, "Some")), lambda: TRUE)


@model(("Result", "is_ok_and"))
def r_is_ok_and(c, x, f):
    return c.fork(isok(x), lambda: c.call(f, pay(x, "Ok")), lambda: FALSE)


@model(("Option", "and_then"))
def o_and_then(c, x, f):
    return c.fork(isome(x), lambda: c.call(f, pay(x, "Some")), lambda: NONE)


@model(("Result", "and_then"))
def r_and_then(c, x, f):
    return c.fork(isok(x), lambda: c.call(f, pay(x, "Ok")), lambda: err(pay(x, "Err")))


@model(("Option", "and"))
def o_and(c, x, y):
    return ite(isome(x), y, NONE)


@model(("Option", "or"))
def o_or(c, x, y):
    return ite(isome(x), x, y)


@model(("Option", "xor"))
def o_xor(c, x, y):
    a, b = isome(x), isome(y)
    return ite(a, ite(b, NONE, x), y)


@model(("Option", "or_else"))
def o_or_else(c, x, f):
    return c.fork(isome(x), lambda: x, lambda: c.call(f))


@model(("Option", "filter"))
def o_filter(c, x, f):
    def go():
        p = pay(x, "Some")
        b = ("S", c.fr.fid, str(c.site), "filt")
        c.st.store[b] = p
        r = c.call(f, mk("ref", b, ()))
        if r is None:
            return None
        return ite(cond(r), some(p), NONE)
    return c.fork(isome(x), go, lambda: NONE)


@model(("Option", "ok_or"))
def o_ok_or(c, x, e):
    return ite(isome(x), ok(pay(x, "Some")), err(e))


@model(("Option", "ok_or_else"))
def o_ok_or_else(c, x, f):
    def e():
        v = c.call(f)
        return None if v is None else err(v)
    return c.fork(isome(x), lambda: ok(pay(x, "Some")), e)


@model(("Result", "ok"))
def r_ok(c, x):
    c.event("default", c.name(), [x, NONE])
    return ite(isok(x), some(pay(x, "Ok")), NONE)


@model(("Result", "err"))
def r_err(c, x):
    return ite(isok(x), NONE, some(pay(x, "Err")))


@model(("Result", "map"))
def r_map(c, x, f):
    def a():
        v = c.call(f, pay(x, "Ok"))
        return None if v is None else ok(v)
    return c.fork(isok(x), a, lambda: err(pay(x, "Err")))


@model(("Result", "map_err"))
def r_map_err(c, x, f):
    def b():
        v = c.call(f, pay(x, "Err"))
        return None if v is None else err(v)
    return c.fork(isok(x), lambda: ok(pay(x, "Ok")), b)


@model(("Result", "map_or"))
def r_map_or(c, x, d, f):
    return c.fork(isok(x), lambda: c.call(f, pay(x, "Ok")), lambda: d)


@model(("Result", "or_else"))
def r_or_else(c, x, f):
    return c.fork(isok(x), lambda: x, lambda: c.call(f, pay(x, "Err")))


@model(("Option", "as_ref"), ("Option", "as_mut"), ("Option", "as_deref"), ("Option", "as_deref_mut"))
def o_as_ref(c, r):
    x = c.load(r)
    p = c.itp.ref_step(r, ("v", "Some"), ("f", "0"))
    if c.name().split("::")[-1].startswith("as_deref"):
        t = _ty(c, 0)
        inner = c.itp.prog.types[t["args"][0]] if t and t.get("args") else None
        if inner is not None and inner.get("path") == "std::string::String":
            p = pay(x, "Some")
        elif inner is not None and inner.get("path") == "std::boxed::Box":
            p = c.itp.ref_step(p, ("b",))
    return ite(isome(x), some(p), NONE)


@model(("Result", "as_ref"), ("Result", "as_mut"))
def r_as_ref(c, r):
    x = c.load(r)
    return ite(isok(x), ok(c.itp.ref_step(r, ("v", "Ok"), ("f", "0"))), err(c.itp.ref_step(r, ("v", "Err"), ("f", "0"))))


@model(("Option", "copied"), ("Option", "cloned"))
def o_copied(c, x):
    return ite(isome(x), some(c.load(pay(x, "Some")) if True else BOT), NONE)


@model(("Option", "take"))
def o_take(c, r):
    x = c.load(r)
    c.store(r, NONE)
    return x


@model(("Option", "replace"), ("Option", "insert"))
def o_replace(c, r, v):
    x = c.load(r)
    c.store(r, some(v))
    return x if c.name().endswith("replace") else c.itp.ref_step(r, ("v", "Some"), ("f", "0"))


@model(("Option", "get_or_insert_with"), ("Option", "get_or_insert"))
def o_goi(c, r, f):
    x = c.load(r)

    def new():
        v = f if c.name().endswith("get_or_insert") else c.call(f)
        if v is None:
            return None
        c.store(r, some(v))
        return UNIT
    if c.fork(isome(x), lambda: UNIT, new) is None:
        return None
    return c.itp.ref_step(r, ("v", "Some"), ("f", "0"))


@model(("Option", "iter"), ("Option", "into_iter"))
def o_iter(c, r):
    return mk("it", "val", mk("optseq", c.val(r)), ZERO)


@model(("Option", "unzip"), ("Option", "zip"))
def o_unzip(c, *a):
    return c.unknown(*a)


@model(("Try", "branch"))
def t_branch(c, x):
    t = _ty(c, 0)
    p = t.get("path") if t else OPT
    CF = "std::ops::ControlFlow"
    if p == RES:
        return ite(isok(x), agg(CF, "Continue", ("0",), (pay(x, "Ok"),)), agg(CF, "Break", ("0",), (err(pay(x, "Err")),)))
    return ite(isome(x), agg(CF, "Continue", ("0",), (pay(x, "Some"),)), agg(CF, "Break", ("0",), (NONE,)))


@model(("FromResidual", "from_residual"))
def t_from_residual(c, x):
    t = c.itp.prog.types[c.retty] if c.retty is not None else None
    if t and t.get("path") == RES:
        return apply(None, lambda v: err(mk("errconv", pay(v, "Err"))), x)
    return NONE


# =================================================================== closures called directly
@model(("Fn", "call"), ("FnMut", "call_mut"), ("FnOnce", "call_once"))
def m_fncall(c, f, args):
    xs = []
    i = 0
    if args.op == "agg":
        xs = list(args.args[3:])
    return c.call(f, *xs)


# =================================================================== Vec / slices
def vec_extend(ini, seq):
    if ini.op == "vec.new":
        return seq
    return mk("vec.extend", ini, seq)


@model(("Vec", "new"), ("Vec", "with_capacity"), ("Vec", "with_capacity_in"))
def v_new(c, *a):
    return mk("vec.new")


@model(("fn", "std::slice::<impl [T]>::into_vec"), ("slice", "into_vec"), ("slice", "to_vec"), ("fn", "std::boxed::box_new"),
       ("fn", "std::boxed::box_assume_init_into_vec_unsafe"), ("fn", "std::slice::into_vec"))
def v_into_vec(c, r):
    if r.op == "box":
        r = r.args[0]
    elif r.op == "upd" and "uninit" in c.name() or "assume_init" in c.name():
        r = proj(r, ("b",))
    v = c.load(r) if r.op == "ref" else r
    if "assume_init" in c.name() and any(x.op == "uninit" for x in subterms(v)):
        v = proj(proj(v, ("f", "value")), ("f", "value"))
    if v.op == "agg" and v.args[0] == "array":
        t = mk("vec.new")
        for x in v.args[3:]:
            t = mk("vec.push", t, x)
        return t
    return v


@model(("Vec", "push"))
def v_push(c, r, x):
    c.event("push", "Vec::push", [r, x, c.load(r)])
    old = c.load(r)
    c.store(r, apply(None, lambda v: mk("vec.push", v, x), old))
    return UNIT


@model(("Vec", "len"), ("slice", "len"), ("HashMap", "len"), ("BTreeMap", "len"))
def v_len(c, r):
    return length(c.load(r))


@model(("String", "len"), ("str", "len"))
def s_len(c, r):
    return length(c.s(r))


@model(("Vec", "capacity"), ("String", "capacity"))
def v_cap(c, r):
    return mk("capacity", c.load(r))


@model(("Vec", "reserve"), ("String", "reserve"), ("Vec", "shrink_to_fit"), ("HashMap", "reserve"), ("Vec", "reserve_exact"),
       ("String", "shrink_to_fit"))
def v_reserve(c, r, *a):
    c.event("grow", c.name(), [r])
    return UNIT


@model(("Vec", "is_empty"), ("slice", "is_empty"), ("HashMap", "is_empty"), ("BTreeMap", "is_empty"))
def v_is_empty(c, r):
    return NOT(nonempty(c.load(r)))


@model(("String", "is_empty"), ("str", "is_empty"))
def s_is_empty(c, r):
    return NOT(nonempty(c.s(r)))


def _elem_opt(c, r, cnd, sel):
    return ite(cnd, some(c.itp.ref_step(r, ("e", sel))), NONE)


@model(("slice", "last"), ("slice", "last_mut"))
def v_last(c, r):
    return _elem_opt(c, r, nonempty(c.load(r)), mk("last"))


@model(("slice", "first"), ("slice", "first_mut"))
def v_first(c, r):
    return _elem_opt(c, r, nonempty(c.load(r)), ZERO)


@model(("slice", "get"), ("slice", "get_mut"))
def v_get(c, r, i):
    if i.op in ("agg",):
        return c.unknown(r, i)
    v = c.load(r)
    i = lastindex(v, i)
    k = nonempty(v) if i.op == "last" else has_index(i, v)
    return _elem_opt(c, r, k, i)


def lastindex(v, i):
    """v[len(v)-1] -> last"""
    if i.op == "+" and i.args[1].op == "c" and i.args[1].args[1] == -1:
        L = i.args[0]
        if L is length(v):
            return mk("last")
    return i


@model(("Index", "index"), ("IndexMut", "index_mut"))
def m_index(c, r, i):
    t = _ty(c, 0)
    p = t.get("path") if t else None
    if (t and t["k"] == "str") or p == "std::string::String":
        return str_index(c, c.s(r), i)
    if p in ("std::collections::HashMap", "std::collections::BTreeMap"):
        m = c.load(r)
        k = c.val(i)
        if not c.assume(has_key(m, k), "index"):
            return None
        return c.itp.ref_step(r, ("e", k))
    if i.op == "edgeid":
        c.event("gcall", "edge_weight", [r, i])
        return c.itp.ref_step(r, ("e", i))
    if i.op == "agg":
        lo, hi = range_of(i)
        if lo is None:
            return c.unknown(r, i)
        return c.itp.ref_step(r, ("sl", lo, hi)) if not (lo is ZERO and hi is NULL) else r
    v = c.load(r)
    i2 = lastindex(v, i)
    k = nonempty(v) if i2.op == "last" else has_index(i2, v)
    if not c.assume(k, "bounds"):
        return None
    return c.itp.ref_step(r, ("e", i2))


def range_of(i):
    n = i.args[0].split("::")[-1]
    f = dict(zip(i.args[2], i.args[3:]))
    if n == "RangeTo":
        return ZERO, f["end"]
    if n == "RangeFrom":
        return f["start"], NULL
    if n == "Range":
        return f["start"], f["end"]
    if n == "RangeFull":
        return ZERO, NULL
    if n == "RangeInclusive":
        return f["start"], add(f["end"], ONE)
    if n == "RangeToInclusive":
        return ZERO, add(f["end"], ONE)
    return None, None


def str_index(c, s, i):
    if i.op != "agg":
        return c.unknown(s, i)
    lo, hi = range_of(i)
    if lo is None:
        return c.unknown(s, i)
    c.event("slice", "str slice", [s, lo, hi])
    return slice_(s, lo, hi)


@model(("str", "get"))
def s_get(c, r, i):
    s = c.s(r)
    if i.op == "agg":
        lo, hi = range_of(i)
        if lo is not None:
            c.event("slice", "str get", [s, lo, hi])
            return ite(cond(mk("validslice", s, lo, hi)), some(slice_(s, lo, hi)), NONE)
    return c.unknown(r, i)


@model(("Vec", "clear"))
def v_clear(c, r):
    c.event("remove", c.name(), [r])
    c.store(r, mk("vec.new"))
    return UNIT


@model(("HashMap", "clear"), ("BTreeMap", "clear"))
def h_clear(c, r):
    c.event("remove", c.name(), [r])
    c.store(r, mk("map.new"))
    return UNIT


def _vec_mut(op):
    def f(c, r, *a):
        c.event("remove" if op in ("pop", "remove", "truncate", "retain", "dedup", "drain", "swap_remove", "split_off") else "vecmut",
                c.name(), [r] + list(a))
        old = c.load(r)
        vals = [c.val(x) for x in a]
        c.store(r, mk("vec." + op, old, *vals))
        t = c.itp.prog.types[c.retty] if c.retty is not None else None
        if t and t["s"] == "()":
            return UNIT
        return mk("call", "Vec::" + op, old, *vals)
    return f


for _m in ("pop", "remove", "truncate", "retain", "retain_mut", "dedup", "dedup_by_key", "dedup_by", "drain", "swap_remove", "split_off",
           "resize", "set_len", "append", "insert"):
    MODELS[("Vec", _m)] = _vec_mut(_m)
for _m in ("swap", "rotate_left", "rotate_right", "fill", "copy_from_slice"):
    MODELS[("slice", _m)] = _vec_mut(_m)


@model(("Vec", "append"))
def v_append(c, r, o):
    old, ov = c.load(r), c.load(o)
    c.event("extend", "Vec::append", [r, ov])
    c.store(r, mk("vec.extend", old, ov) if old.op != "vec.new" else ov)
    c.store(o, mk("vec.new"))
    return UNIT


@model(("slice", "reverse"))
def v_reverse(c, r):
    c.store(r, mk("rev", c.load(r)))
    return UNIT


@model(("slice", "sort"), ("slice", "sort_unstable"))
def v_sort(c, r):
    c.event("sort", c.name(), [r, c.load(r)])
    c.store(r, mk_sorted(c.load(r), mk("natural")))
    return UNIT


def mk_sorted(v, key):
    if v.op == "ite":
        return apply(None, lambda x: mk_sorted(x, key), v)
    return mk("sorted", v, key)


def _elem_tmp(c, v, bv):
    b = ("S", c.fr.fid, str(c.site), "cmp%d" % bv)
    c.st.store[b] = seq_at(v, mk("bv", bv))
    return mk("ref", b, ())


@model(("slice", "sort_by_key"), ("slice", "sort_unstable_by_key"), ("slice", "sort_by_cached_key"))
def v_sort_by_key(c, r, f):
    v = c.load(r)
    k = c.call(f, _elem_tmp(c, v, 1))
    if k is None:
        return None
    k = c.val(k)
    c.event("sort", c.name(), [r, v])
    c.store(r, mk_sorted(v, mk("key", k)))
    return UNIT


@model(("slice", "sort_by"), ("slice", "sort_unstable_by"))
def v_sort_by(c, r, f):
    v = c.load(r)
    a, b = _elem_tmp(c, v, 1), _elem_tmp(c, v, 2)
    k = c.call(f, a, b)
    if k is None:
        return None
    k = c.val(k)
    key = mk("cmpby", k)
    if k.op == "cmp":
        swap = subst(k.args[1], {mk("bv", 2): mk("bv", 1)}, rebuild)
        if swap is k.args[0]:
            key = mk("key", k.args[0])
        else:
            swap = subst(k.args[0], {mk("bv", 2): mk("bv", 1)}, rebuild)
            if swap is k.args[1]:
                key = mk("key", k.args[1])     # descending
    c.event("sort", c.name(), [r, v])
    c.store(r, mk_sorted(v, key))
    return UNIT


@model(("slice", "contains"))
def v_contains(c, r, x):
    v = c.load(r)
    return cond(mk_exists(v, eq(seq_at(v, mk("bv", 0)), c.val(x))))


@model(("slice", "iter"), ("slice", "iter_mut"))
def v_iter(c, r):
    return it_slice(c, r)


def it_slice(c, r):
    return mk("it", "slice", r, ZERO)


@model(("slice", "concat"), ("slice", "join"), ("Join", "join"), ("Concat", "concat"))
def v_join(c, r, *sep):
    v = c.load(r) if r.op == "ref" else r
    if v.op == "agg" and v.args[0] == "array":
        xs = [c.s(x) for x in v.args[3:]]
        out = []
        for i, x in enumerate(xs):
            if i and sep:
                out.append(c.s(sep[0]))
            out.append(x)
        return concat(*out)
    t = v
    els = []
    while t.op == "vec.push":
        els.append(c.s(t.args[1]))
        t = t.args[0]
    if t.op == "vec.new":
        els.reverse()
        out = []
        for i, x in enumerate(els):
            if i and sep:
                out.append(c.s(sep[0]))
            out.append(x)
        return concat(*out)
    return mk("join", v, *[c.s(x) for x in sep])


@model(("slice", "split_at"), ("slice", "split_at_mut"))
def v_split_at(c, r, i):
    return tup(c.itp.ref_step(r, ("sl", ZERO, i)), c.itp.ref_step(r, ("sl", i, NULL)))


@model(("slice", "split_first"), ("slice", "split_first_mut"))
def v_split_first(c, r):
    v = c.load(r)
    return ite(nonempty(v), some(tup(c.itp.ref_step(r, ("e", ZERO)), c.itp.ref_step(r, ("sl", ONE, NULL)))), NONE)


@model(("slice", "split_last"), ("slice", "split_last_mut"))
def v_split_last(c, r):
    v = c.load(r)
    return ite(nonempty(v), some(tup(c.itp.ref_step(r, ("e", mk("last"))), c.itp.ref_step(r, ("sl", ZERO, mk("fromend", 1))))), NONE)


# =================================================================== maps
def has_key(m, k):
    if m.op == "ite":
        return cond(apply(None, lambda x: has_key(x, k), m))
    if k.op == "ite":
        return cond(apply(None, lambda x: has_key(m, x), k))
    if m.op == "map.new":
        return FALSE
    if m.op == "map.ins":
        return OR(eq(m.args[1], k), has_key(m.args[0], k))
    if m.op == "upd" and m.args[1][0] == "e":
        return has_key(m.args[0], k)
    if k.op == "e" and k.args[0].op == "keys" and k.args[0].args[0] is m:
        return TRUE
    return cond(mk("has", m, k))


@model(("HashMap", "new"), ("BTreeMap", "new"), ("HashMap", "with_capacity"), ("HashSet", "new"), ("BTreeSet", "new"))
def h_new(c, *a):
    return mk("map.new")


@model(("HashMap", "get"), ("HashMap", "get_mut"), ("BTreeMap", "get"), ("BTreeMap", "get_mut"))
def h_get(c, r, k):
    m, kv = c.load(r), c.val(k)
    c.event("mapget", c.name(), [r, kv])
    return ite(has_key(m, kv), some(c.itp.ref_step(r, ("e", kv))), NONE)


@model(("HashMap", "get_key_value"), ("BTreeMap", "get_key_value"))
def h_get_kv(c, r, k):
    m, kv = c.load(r), c.val(k)
    c.event("mapget", c.name(), [r, kv])
    return ite(has_key(m, kv), some(tup(mk("ref", ("V", kv), ()), c.itp.ref_step(r, ("e", kv)))), NONE)


@model(("HashMap", "contains_key"), ("BTreeMap", "contains_key"), ("HashSet", "contains"), ("BTreeSet", "contains"))
def h_contains(c, r, k):
    c.event("mapget", c.name(), [r, c.val(k)])
    return has_key(c.load(r), c.val(k))


@model(("HashMap", "insert"), ("BTreeMap", "insert"))
def h_insert(c, r, k, v):
    m = c.load(r)
    kv = c.val(k)
    c.event("mapins", c.name(), [r, kv, v, m])
    h = has_key(m, kv)
    old = apply(None, lambda x: proj(x, ("e", kv)), m)
    c.store(r, apply(None, lambda x, k_: mk("map.ins", x, k_, v), m, kv))
    return ite(h, some(old), NONE)


@model(("HashSet", "insert"), ("BTreeSet", "insert"))
def h_sinsert(c, r, k):
    m = c.load(r)
    kv = c.val(k)
    h = has_key(m, kv)
    c.store(r, apply(None, lambda x: mk("map.ins", x, kv, UNIT), m))
    return NOT(h)


def _map_mut(op):
    def f(c, r, *a):
        c.event("remove", c.name(), [r] + list(a))
        m = c.load(r)
        vals = [c.val(x) for x in a]
        c.store(r, mk("map." + op, m, *vals))
        if c.retty is not None and c.itp.prog.tys(c.retty) == "()":
            return UNIT
        return mk("call", "Map::" + op, m, *vals)
    return f


for _m in ("remove", "remove_entry", "retain", "drain", "pop_last", "pop_first", "split_off", "append", "extract_if"):
    for _f in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        MODELS[(_f, _m)] = _map_mut(_m)


@model(("HashMap", "entry"), ("BTreeMap", "entry"))
def h_entry(c, r, k):
    return mk("entry", r, c.val(k))


def _entry_or(c, e, mkv):
    if e.op != "entry":
        return c.unknown(e)
    r, k = e.args
    m = c.load(r)
    h = has_key(m, k)
    c.event("mapget", "entry", [r, k])

    def new():
        v = mkv()
        if v is None:
            return None
        c.event("mapins", "entry", [r, k, v, c.load(r)])
        c.store(r, apply(None, lambda x: mk("map.ins", x, k, v), c.load(r)))
        return UNIT
    if c.fork(h, lambda: UNIT, new) is None:
        return None
    return c.itp.ref_step(r, ("e", k))


@model(("BTreeMap", "last_entry"), ("BTreeMap", "first_entry"))
def h_last_entry(c, r):
    m = c.load(r)
    at = mk("last") if "last_entry" in str(c.name()) else ZERO
    k = apply(None, lambda x: proj(mk("keys", x), ("e", at)), m)
    return ite(nonempty(m), some(mk("entry", r, k)), NONE)


def _occupied(c, e):
    v = c.load(e) if e.op == "ref" else e
    return v.args if v.op == "entry" else None


@model(("OccupiedEntry", "key"))
def oe_key(c, e):
    x = _occupied(c, e)
    return c.unknown(e) if x is None else mk("ref", ("V", x[1]), ())


@model(("OccupiedEntry", "get"), ("OccupiedEntry", "get_mut"), ("OccupiedEntry", "into_mut"))
def oe_get(c, e):
    x = _occupied(c, e)
    return c.unknown(e) if x is None else c.itp.ref_step(x[0], ("e", x[1]))


@model(("OccupiedEntry", "insert"))
def oe_insert(c, e, v):
    x = _occupied(c, e)
    if x is None:
        return c.unknown(e, v)
    r = c.itp.ref_step(x[0], ("e", x[1]))
    old = c.load(r)
    c.event("mapins", "entry", [x[0], x[1], v, c.load(x[0])])
    c.store(r, v)
    return old


@model(("Entry", "or_insert"))
def e_or_insert(c, e, v):
    return _entry_or(c, e, lambda: v)


@model(("Entry", "or_insert_with"))
def e_or_insert_with(c, e, f):
    return _entry_or(c, e, lambda: c.call(f))


@model(("Entry", "or_default"))
def e_or_default(c, e):
    t = c.itp.prog.types[c.retty] if c.retty is not None else None
    if t and t["k"] == "ref":
        t = c.itp.prog.types[t["t"]]
    return _entry_or(c, e, lambda: default_of(t))


@model(("HashMap", "keys"), ("BTreeMap", "keys"))
def h_keys(c, r):
    c.event("mapiter", c.name(), [r], ("BTree" in str(c.name()), c.load(r)))
    return mk("it", "keys", r, ZERO)


@model(("HashMap", "values"), ("BTreeMap", "values"), ("HashMap", "values_mut"), ("BTreeMap", "values_mut"))
def h_values(c, r):
    c.event("mapiter", c.name(), [r], ("BTree" in str(c.name()), c.load(r)))
    return mk("it", "values", r, ZERO)


@model(("HashMap", "iter"), ("BTreeMap", "iter"), ("HashMap", "iter_mut"), ("BTreeMap", "iter_mut"))
def h_iter(c, r):
    c.event("mapiter", c.name(), [r], ("BTree" in str(c.name()), c.load(r)))
    return mk("it", "entries", r, ZERO)


@model(("BTreeMap", "last_key_value"), ("BTreeMap", "first_key_value"))
def b_last(c, r):
    m = c.load(r)
    k = mk("e", mk("keys", m), mk("last") if "last" in c.name() else ZERO)
    return ite(nonempty(m), some(tup(mk("ref", ("V", k), ()), c.itp.ref_step(r, ("e", k)))), NONE)


@model(("BTreeMap", "range"))
def b_range(c, r, rng):
    return mk("it", "val", mk("brange", c.val(r), c.val(rng)), ZERO)


# =================================================================== strings
@model(("String", "new"), ("String", "with_capacity"))
def s_new(c, *a):
    return cstr("")


@model(("String", "push_str"), ("AddAssign", "add_assign"))
def s_push_str(c, r, x):
    t = _ty(c, 0)
    if t is not None and t.get("path") == "std::string::String":
        c.store(r, sconcat(c.load(r), c.s(x)))
        return UNIT
    return m_opassign(c, r, x)


def sconcat(a, b):
    if a.op == "ite" or b.op == "ite":
        return apply("sconcat", concat, a, b)
    return concat(a, b)


@model(("String", "push"))
def s_push(c, r, ch):
    c.store(r, sconcat(c.load(r), charstr(ch)))
    return UNIT


@model(("String", "extend"))
def s_extend(c, r, x):
    return c.unknown(r, x)


@model(("String", "clear"))
def s_clear(c, r):
    c.event("bufclear", c.name(), [r])
    c.store(r, cstr(""))
    return UNIT


@model(("String", "insert_str"))
def s_insert_str(c, r, i, x):
    if i is ZERO:
        c.store(r, sconcat(c.s(x), c.load(r)))
        return UNIT
    return c.unknown(r, i, x)


@model(("String", "insert"))
def s_insert(c, r, i, x):
    if i is ZERO:
        c.store(r, sconcat(charstr(x), c.load(r)))
        return UNIT
    return c.unknown(r, i, x)


@model(("Add", "add"))
def m_add(c, a, b):
    t = _ty(c, 0)
    if t is not None and t.get("path") == "std::string::String":
        return sconcat(c.s(a), c.s(b))
    return m_op(c, a, b)


@model(("str", "trim"))
def s_trim(c, r):
    return trim_start(trim_end(c.s(r)))


@model(("str", "trim_start"), ("str", "trim_left"))
def s_trim_start(c, r):
    return trim_start(c.s(r))


@model(("str", "trim_end"), ("str", "trim_right"))
def s_trim_end(c, r):
    return trim_end(c.s(r))


@model(("str", "chars"))
def s_chars(c, r):
    return mk("it", "chars", c.s(r), ZERO)


@model(("str", "char_indices"))
def s_char_indices(c, r):
    return mk("it", "cidx", c.s(r), ZERO)


@model(("str", "bytes"))
def s_bytes(c, r):
    return mk("it", "val", mk("bytesof", c.s(r)), ZERO)


@model(("str", "as_bytes"), ("String", "as_bytes"), ("String", "into_bytes"))
def s_as_bytes(c, r):
    return mk("ref", ("V", mk("bytesof", c.s(r))), ())


@model(("str", "split_whitespace"), ("str", "split_ascii_whitespace"))
def s_split_ws(c, r):
    return mk("it", "val", mk("split_ws", c.s(r)), ZERO)


@model(("str", "lines"))
def s_lines(c, r):
    return mk("it", "val", mk("lines", c.s(r)), ZERO)


@model(("str", "split"), ("str", "splitn"), ("str", "rsplit"), ("str", "split_terminator"), ("str", "split_inclusive"), ("str", "rsplitn"))
def s_split(c, r, *a):
    n = c.name().split("::")[-1]
    return mk("it", "val", mk(n, c.s(r), *[pat_term(c, c.s(r), x) if i == len(a) - 1 else x for i, x in enumerate(a)]), ZERO)


def first_char(s):
    return mk("e", chars(s), ZERO) if s.op != "c" else mk("c", "char", s.args[1][0])


def pat_pred(c, s, p):
    """pattern as predicate over character index bv0, or ('needle', str)"""
    pv = p
    if p.op == "ref" and c.load(p).op != "agg":
        pv = c.val(p)
    ch = mk("e", chars(s), mk("bv", 0))
    if pv.op == "c" and pv.args[0] == "char":
        return eq(ch, pv)
    if p.op == "ref" and pv.op != "agg" and p.args[0][0] != "V" and c.load(p).op == "agg":
        pv = c.load(p)
    if pv.op == "agg" and pv.args[0] == "array" and all(x.op == "c" and x.args[0] == "char" for x in pv.args[3:]):
        r = FALSE
        for x in pv.args[3:]:
            r = OR(r, eq(ch, x))
        return r
    if pv.op == "agg" and pv.args[0] == "closure" or pv.op == "fn" or p.op == "ref":
        r = c.call(p, ch)
        return cond(r) if r is not None else None
    if pv.op == "c" and pv.args[0] == "str" and len(pv.args[1]) == 1:
        return eq(ch, mk("c", "char", pv.args[1]))
    if _is_char(c, p):
        return eq(ch, pv)
    return mk("needle", pv)


def _is_char(c, p):
    for i, t in enumerate(c.argtys):
        if t is not None and i == len(c.argtys) - 1:
            return c.itp.prog.types[t]["k"] == "char"
    return False


def pat_term(c, s, p):
    r = pat_pred(c, s, p)
    return cset(r, mk("e", chars(s), mk("bv", 0))) if r is not None else mk("needle", UNIT)


def pat_len(c, s, p):
    pr = pat_pred(c, s, p)
    if pr is not None and pr.op == "needle":
        return length(pr.args[0])
    pv = c.val(p) if p.op == "ref" else p
    if pv.op == "c":
        return const(len(pv.args[1].encode()))
    return mk("patlen", pr if pr is not None else UNIT)


def str_find(c, s, p):
    """(condition found, index term)"""
    def one(s1):
        pr = pat_pred(c, s1, p)
        seq = chars(s1)
        ex = exists(seq, pr)
        idx = mk("cidx", s1, mk_first(seq, pr))
        return ite(ex, some(idx), NONE)
    if s.op == "ite":
        return apply(None, one, s)
    return one(s)


def exists(seq, pr):
    return mk_exists(seq, pr)


@model(("str", "find"))
def s_find(c, r, p):
    return str_find(c, c.s(r), p)


@model(("str", "rfind"))
def s_rfind(c, r, p):
    s = c.s(r)
    pr = pat_term(c, s, p)
    seq = chars(s)
    return ite(exists(seq, pr), some(mk("cidx", s, mk("lastmatch", seq, pr))), NONE)


@model(("str", "contains"))
def s_contains(c, r, p):
    s = c.s(r)
    return cond(apply(None, lambda x: exists(chars(x), pat_term(c, x, p)), s))


def starts_with(c, s, p):
    if s.op == "ite":
        return cond(apply(None, lambda x: starts_with(c, x, p), s))
    pr = pat_pred(c, s, p)
    if pr is not None and pr.op == "needle":
        n = pr.args[0]
        if n.op == "c" and s.op == "c":
            return TRUE if s.args[1].startswith(n.args[1]) else FALSE
        if n.op == "c" and n.args[1] == "":
            return TRUE
        if n.op == "c" and s.op == "from" and s.args[1] is pr:
            # the rest from the first match on starts with it
            return exists(chars(s.args[0]), pr)
        if n.op == "c" and len(n.args[1]) <= 4 and n.args[1].isascii():
            # a short constant: one test per character
            r = TRUE
            for k, x in enumerate(n.args[1]):
                r = AND(r, AND(has_index(const(k), chars(s)), eq(seq_at(chars(s), const(k)), mk("c", "char", x))))
            return r
        return cond(mk("prefix", s, n))
    return AND(nonempty(s), cond(subst(pr, {mk("bv", 0): ZERO}, rebuild)))


@model(("str", "starts_with"))
def s_starts_with(c, r, p):
    return starts_with(c, c.s(r), p)


@model(("str", "ends_with"))
def s_ends_with(c, r, p):
    s = c.s(r)
    return cond(mk("suffix", s, pat_term(c, s, p)))


@model(("str", "strip_prefix"))
def s_strip_prefix(c, r, p):
    s = c.s(r)
    return ite(starts_with(c, s, p), some(slice_(s, pat_len(c, s, p), NULL)), NONE)


@model(("str", "strip_suffix"))
def s_strip_suffix(c, r, p):
    s = c.s(r)
    pr = pat_term(c, s, p)
    return ite(cond(mk("suffix", s, pr)), some(mk("dropsuffix", s, pr)), NONE)


@model(("str", "split_once"))
def s_split_once(c, r, p):
    s = c.s(r)
    f = str_find(c, s, p)
    i = pay(f, "Some")
    return ite(isome(f), some(tup(slice_(s, ZERO, i), slice_(s, add(i, pat_len(c, s, p)), NULL))), NONE)


@model(("str", "split_at"))
def s_split_at(c, r, i):
    s = c.s(r)
    c.event("slice", "str split_at", [s, i, NULL])
    return tup(slice_(s, ZERO, i), slice_(s, i, NULL))


@model(("str", "trim_start_matches"), ("str", "trim_end_matches"), ("str", "trim_matches"))
def s_trim_matches(c, r, p):
    s = c.s(r)
    return mk(c.name().split("::")[-1], s, pat_term(c, s, p))


@model(("str", "is_char_boundary"))
def s_icb(c, r, i):
    return cond(mk("charboundary", c.s(r), i))


@model(("char", "is_digit"), ("char", "is_whitespace"), ("char", "is_alphabetic"), ("char", "is_numeric"), ("char", "is_alphanumeric"),
       ("char", "is_ascii_digit"), ("char", "is_ascii_whitespace"), ("char", "is_control"), ("char", "is_ascii_punctuation"),
       ("char", "is_uppercase"), ("char", "is_lowercase"), ("char", "is_ascii"), ("char", "is_ascii_alphabetic"), ("char", "is_ascii_alphanumeric"))
def ch_is(c, ch, *a):
    m = c.name().split("::")[-1]
    v = c.val(ch)

    def one(x):
        mm = m
        if m == "is_digit" and a and a[0] is const(10):
            mm = "is_ascii_digit"
        if x.op == "c":
            s = x.args[1]
            if mm == "is_ascii_digit":
                return TRUE if s in "0123456789" else FALSE
            if mm == "is_whitespace":
                return TRUE if s.isspace() else FALSE
        return cond(mk("chis", mm, x, *([] if mm == "is_ascii_digit" else a)))
    return cond(apply(None, one, v))


@model(("int", "is_ascii_digit"), ("int", "is_ascii_whitespace"), ("int", "is_ascii_alphabetic"), ("int", "is_ascii_alphanumeric"), ("int", "is_ascii_punctuation"))
def byte_is(c, b):
    m = c.name().split("::")[-1]

    def one(x):
        if x.op == "c":
            return TRUE if norm.char_class(m, chr(x.args[1])) else FALSE
        return byte_chis(m, x)
    return cond(apply(None, one, c.val(b)))


def byte_chis(m, x):
    """an ASCII class of a byte; the first byte is in it when the first character is"""
    if x.op == "e" and x.args[1] is ZERO and x.args[0].op == "bytesof":
        x = mk("e", chars(x.args[0].args[0]), ZERO)
    return cond(mk("chis", m, x))


@model(("char", "len_utf8"))
def ch_len(c, ch):
    v = c.val(ch)
    if v.op == "c":
        return const(len(v.args[1].encode()))
    return mk("len_utf8", v)


@model(("char", "to_string"))
def ch_to_string(c, ch):
    return charstr(c.val(ch))


# =================================================================== iterators
SEQ_KINDS = {"chars": "chars", "cidx": "chars", "keys": "keys", "values": "keys", "entries": "keys"}


def seq_at(v, i):
    return proj(v, ("e", i))


def it_seq(c, it):
    """the sequence term and position of a base iterator"""
    k = it.args[0]
    if k == "slice":
        return c.load(it.args[1]), it.args[2]
    if k == "val":
        return it.args[1], it.args[2]
    if k in ("chars", "cidx"):
        return chars(it.args[1]), it.args[2]
    if k in ("keys", "values", "entries"):
        return mk("keys", c.load(it.args[1])), it.args[2]
    return None, None


def it_has(c, it):
    k = it.args[0]
    if k == "range":
        return lt(add(it.args[1], it.args[3]), it.args[2])
    if k in ("map", "filter", "enum", "copied", "peek", "filter_map", "by_ref", "inspect"):
        return it_has(c, it.args[1])
    if k == "rangefrom":
        return TRUE
    if k in ("take",):
        return AND(it_has(c, it.args[1]), lt(it.args[3], it.args[2]))
    if k == "zip":
        return AND(it_has(c, it.args[1]), it_has(c, it.args[2]))
    if k == "flat":
        return cond(mk("flathas", it.args[1], it.args[3]))
    if k == "chain":
        return OR(it_has(c, it.args[1]), it_has(c, it.args[2]))
    if k == "rev":
        return it_has(c, it.args[1])
    seq, pos = it_seq(c, it)
    if seq is None:
        return cond(mk("ithas", it))
    return has_index(pos, seq)


def it_adv(c, it):
    k = it.args[0]
    if k == "range":
        return mk("it", k, it.args[1], it.args[2], add(it.args[3], ONE))
    if k == "rangefrom":
        return mk("it", k, it.args[1], add(it.args[2], ONE))
    if k in ("map", "filter", "filter_map", "inspect"):
        return mk("it", k, it_adv(c, it.args[1]), it.args[2])
    if k in ("copied", "peek", "rev", "by_ref"):
        return mk("it", k, it_adv(c, it.args[1]))
    if k == "enum":
        return mk("it", k, it_adv(c, it.args[1]), add(it.args[2], ONE))
    if k == "take":
        return mk("it", k, it_adv(c, it.args[1]), it.args[2], add(it.args[3], ONE))
    if k == "zip":
        return mk("it", k, it_adv(c, it.args[1]), it_adv(c, it.args[2]))
    if k == "flat":
        return mk("it", k, it.args[1], it.args[2], add(it.args[3], ONE))
    if k == "chain":
        return mk("it", k, it.args[1], it.args[2], add(it.args[3], ONE))
    seq, pos = it_seq(c, it)
    if seq is None:
        return mk("it", "opaque", mk("itadv", it))
    return mk("it", k, it.args[1], add(it.args[2], ONE))


class Skip(Exception):
    pass


def it_item(c, it, skips):
    """the current item (closures are evaluated in c.st); conditions to be passed are
    appended to skips"""
    k = it.args[0]
    if k == "range":
        return add(it.args[1], it.args[3])
    if k == "rangefrom":
        return add(it.args[1], it.args[2])
    if k == "slice":
        return c.itp.ref_step(it.args[1], ("e", it.args[2]))
    if k == "val":
        return seq_at(it.args[1], it.args[2])
    if k == "chars":
        return seq_at(chars(it.args[1]), it.args[2])
    if k == "cidx":
        return tup(mk("cidx", it.args[1], it.args[2]) if it.args[2] is not ZERO else ZERO, seq_at(chars(it.args[1]), it.args[2]))
    if k in ("keys", "values", "entries"):
        r = it.args[1]
        key = mk("e", mk("keys", c.load(r)), it.args[2])
        kr = mk("ref", ("V", key), ())
        if k == "keys":
            return kr
        vr = c.itp.ref_step(r, ("e", key))
        return vr if k == "values" else tup(kr, vr)
    if k == "map":
        x = it_item(c, it.args[1], skips)
        return None if x is None else c.call(it.args[2], x, tag="map")
    if k == "inspect":
        return it_item(c, it.args[1], skips)
    if k == "filter":
        x = it_item(c, it.args[1], skips)
        if x is None:
            return None
        b = ("S", c.fr.fid, str(c.site), "flt")
        c.st.store[b] = x
        p = c.call(it.args[2], mk("ref", b, ()), tag="flt")
        if p is None:
            return None
        skips.append(cond(p))
        c.st.pc = AND(c.st.pc, cond(p))
        return x
    if k == "filter_map":
        x = it_item(c, it.args[1], skips)
        if x is None:
            return None
        p = c.call(it.args[2], x, tag="fm")
        if p is None:
            return None
        skips.append(isome(p))
        c.st.pc = AND(c.st.pc, isome(p))
        return pay(p, "Some")
    if k == "copied":
        x = it_item(c, it.args[1], skips)
        return None if x is None else c.load(x)
    if k in ("peek", "by_ref"):
        return it_item(c, it.args[1], skips)
    if k == "rev":
        inner = it.args[1]
        seq, pos = it_seq(c, inner)
        if seq is not None:
            return it_item(c, mk("it", inner.args[0], inner.args[1], revidx(seq, pos)), skips)
        return mk("revitem", inner)
    if k == "enum":
        x = it_item(c, it.args[1], skips)
        return None if x is None else tup(it.args[2], x)
    if k == "take":
        return it_item(c, it.args[1], skips)
    if k == "zip":
        a = it_item(c, it.args[1], skips)
        b = it_item(c, it.args[2], skips)
        return None if a is None or b is None else tup(a, b)
    if k == "flat":
        outer, f, pos = it.args[1], it.args[2], it.args[3]
        o = it_item(c, it_set(c, outer, mk("outer", pos)), skips)
        if o is None:
            return None
        inner = c.call(f, o, tag="flat") if f is not NULL else o
        if inner is None:
            return None
        inner = to_iter(c, inner)
        return it_item(c, it_set(c, inner, mk("inner", pos)), skips)
    return mk("item", it)


def it_set(c, it, pos):
    k = it.args[0]
    if k in ("slice", "val", "chars", "cidx", "keys", "values", "entries"):
        return mk("it", k, it.args[1], pos)
    if k == "range":
        return mk("it", k, it.args[1], it.args[2], pos)
    if k in ("map", "filter", "filter_map", "inspect"):
        return mk("it", k, it_set(c, it.args[1], pos), it.args[2])
    if k in ("copied", "peek", "by_ref", "rev"):
        return mk("it", k, it_set(c, it.args[1], pos))
    if k == "enum":
        return mk("it", k, it_set(c, it.args[1], pos), pos)
    return it


def it_pos(it):
    k = it.args[0]
    if k in ("slice", "val", "chars", "cidx", "keys", "values", "entries"):
        return it.args[2]
    if k == "range":
        return it.args[3]
    if k in ("map", "filter", "filter_map", "inspect", "copied", "peek", "by_ref", "rev", "enum"):
        return it_pos(it.args[1])
    return None


def to_iter(c, x, ty=None):
    """IntoIterator"""
    if x.op == "it":
        return x
    if x.op == "ref":
        v = c.load(x)
        if v.op == "it":
            return mk("it", "by_ref", v) if False else v
        t = ty
        if t is not None and t["k"] == "ref":
            t = c.itp.prog.types[t["t"]]
        if t is not None and t.get("path") in ("std::collections::HashMap", "std::collections::BTreeMap"):
            c.event("mapiter", "into_iter", [x], ("BTree" in t.get("path"), c.load(x)))
            return mk("it", "entries", x, ZERO)
        if t is not None and t.get("path") == OPT:
            return mk("it", "val", mk("optseq", v), ZERO)
        return mk("it", "slice", x, ZERO)
    if x.op == "agg" and x.args[0].endswith("::Range"):
        lo, hi = range_of(x)
        return mk("it", "range", lo, hi, ZERO)
    if x.op == "agg" and x.args[0].endswith("::RangeInclusive"):
        f = dict(zip(x.args[2], x.args[3:]))
        return mk("it", "range", f["start"], add(f["end"], ONE), ZERO)
    if x.op == "agg" and x.args[0].endswith("::RangeFrom"):
        return mk("it", "rangefrom", range_of(x)[0], ZERO)
    if ty is not None and ty.get("path") in ("std::collections::HashMap", "std::collections::BTreeMap"):
        b = ("S", c.fr.fid, str(c.site), "intoiter")
        c.st.store[b] = x
        c.event("mapiter", "into_iter", [mk("ref", b, ())], ("BTree" in ty.get("path"), x))
        return mk("it", "mapval", mk("ref", b, ()), ZERO)
    if ty is not None and ty.get("path") == OPT:
        return mk("it", "val", mk("optseq", x), ZERO)
    if ty is not None and ty["k"] == "ref":
        # reference of unknown origin
        t = c.itp.prog.types[ty["t"]]
        if t.get("path") in ("std::collections::HashMap", "std::collections::BTreeMap"):
            c.event("mapiter", "into_iter", [x], ("BTree" in t.get("path"), c.load(x)))
            return mk("it", "entries", x, ZERO)
        if t["k"] in ("slice", "array") or t.get("path") == "std::vec::Vec":
            return mk("it", "slice", x, ZERO)
    return mk("it", "val", x, ZERO)


@model(("IntoIterator", "into_iter"), ("Vec", "into_iter"))
def i_into_iter(c, x):
    t = c.itp.prog.types[c.argtys[0]] if c.argtys and c.argtys[0] is not None else None
    if t is not None and t.get("path") == OPT and x.op != "it":
        return mk("it", "val", mk("optseq", x), ZERO)
    if x.op == "ite":
        its = [to_iter(c, l, t) for _, l in leaves(x)]
        if all(i.op == "it" and i.args[0] == "val" and i.args[1] is l and i.args[2] is ZERO for i, (_, l) in zip(its, leaves(x))):
            return mk("it", "val", x, ZERO)      # one of several lists
        return apply(None, lambda y: to_iter(c, y, t), x)
    return to_iter(c, x, t)


@model(("RangeInclusive", "new"))
def ri_new(c, a, b):
    return agg("std::ops::RangeInclusive", "", ("start", "end"), (a, b))


@model(("RangeInclusive", "contains"), ("Range", "contains"), ("RangeFrom", "contains"), ("RangeTo", "contains"), ("RangeToInclusive", "contains"))
def r_contains(c, r, x):
    v, x = c.val(r), c.val(x)
    if v.op != "agg":
        return c.unknown(r, x)
    f = dict(zip(v.args[2], v.args[3:]))
    k = TRUE
    if "start" in f:
        k = AND(k, cond(le(f["start"], x)))
    if "end" in f:
        k = AND(k, cond(le(x, f["end"]) if v.args[0].endswith("Inclusive") else lt(x, f["end"])))
    return k


def _next_value(c, ref, it, advance=True, store=True):
    if it.op == "ite":
        return c.fork(cond(it.args[0]), lambda: _next_value(c, ref, it.args[1], advance, store), lambda: _next_value(c, ref, it.args[2], advance, store))
    if it.op != "it":
        # iterator of unknown kind / a user-defined iterator
        return None
    h = it_has(c, it)
    ctx = c.itp.loopstack[-1] if c.itp.loopstack else None

    def somef():
        skips = []
        base_pc = c.st.pc
        before = c.st.copy()
        x = it_item(c, it, skips)
        if x is None:
            return None
        if skips and advance:
            p = TRUE
            for s_ in skips:
                p = AND(p, s_)
            if ctx is not None:
                sk = c.st.copy(AND(base_pc, NOT(p)))
                old = c.st
                c.st = sk
                c.store(ref, it_adv(c, it))
                c.st = old
                if sk.pc is not FALSE:
                    ctx["skips"].append(sk)
        if advance and store:
            c.store(ref, it_adv(c, it))
        return some(x)
    return c.fork(h, somef, lambda: NONE)


@model(("Iterator", "next"))
def i_next(c, ref):
    it = c.load(ref)
    if it.op == "it" and not c.itp.loopstack and it_filtered(it):
        return i_find_first(c, ref, it)
    r = _next_value(c, ref, it)
    if r is None and c.st.pc is not FALSE and not (it.op == "it"):
        return c.unknown(ref)
    return r


def it_filtered(it):
    while it.op == "it":
        if it.args[0] in ("filter", "filter_map"):
            return True
        if len(it.args) > 1 and isinstance(it.args[1], T) and it.args[1].op == "it":
            it = it.args[1]
        else:
            return False
    return False


@model(("DoubleEndedIterator", "next_back"))
def i_next_back(c, ref):
    it = c.load(ref)
    return i_last(c, it)


@model(("Peekable", "peek"), ("Peekable", "peek_mut"))
def i_peek(c, ref):
    it = c.load(ref)
    if it.op != "it":
        return c.unknown(ref)
    r = _next_value(c, ref, it, advance=False)
    if r is None:
        return None
    x = pay(r, "Some")
    return ite(isome(r), some(mk("ref", ("V", x), ()) if x.op != "ite" else apply(None, lambda y: mk("ref", ("V", y), ()), x)), NONE)


@model(("Iterator", "nth"))
def i_nth(c, ref, n):
    it = c.load(ref)
    if it.op == "it" and n.op == "c" and n.args[1] < 64:
        for _ in range(n.args[1]):
            it = it_adv(c, it)
        c.store(ref, it)
        return i_next(c, ref)
    if it.op == "it" and it_pos(it) is ZERO and not it_filtered(it):
        c.store(ref, it_set(c, it, n))
        return i_next(c, ref)
    return c.unknown(ref, n)


def _adaptor(kind):
    def f(c, it, *a):
        if it.op == "ref":
            it = c.load(it)
        if it.op != "it":
            it = to_iter(c, it)
        return mk("it", kind, it, *a)
    return f


MODELS[("Iterator", "map")] = _adaptor("map")
MODELS[("Iterator", "filter")] = _adaptor("filter")
MODELS[("Iterator", "filter_map")] = _adaptor("filter_map")
MODELS[("Iterator", "inspect")] = _adaptor("inspect")
MODELS[("Iterator", "copied")] = _adaptor("copied")
MODELS[("Iterator", "cloned")] = _adaptor("copied")
MODELS[("Iterator", "peekable")] = _adaptor("peek")
MODELS[("Iterator", "fuse")] = _adaptor("peek")
MODELS[("Iterator", "rev")] = _adaptor("rev")


@model(("Iterator", "by_ref"))
def i_by_ref(c, ref):
    return ref


@model(("Iterator", "enumerate"))
def i_enum(c, it):
    return mk("it", "enum", to_iter(c, it), ZERO)


@model(("Iterator", "take"))
def i_take(c, it, n):
    return mk("it", "take", to_iter(c, it), n, ZERO)


@model(("Iterator", "zip"))
def i_zip(c, a, b):
    return mk("it", "zip", to_iter(c, a), to_iter(c, b))


@model(("Iterator", "chain"))
def i_chain(c, a, b):
    return mk("it", "chain", to_iter(c, a), to_iter(c, b), ZERO)


@model(("Iterator", "flat_map"))
def i_flat_map(c, it, f):
    return mk("it", "flat", to_iter(c, it), f, ZERO)


@model(("Iterator", "flatten"))
def i_flatten(c, it):
    return mk("it", "flat", to_iter(c, it), NULL, ZERO)


@model(("Iterator", "skip"))
def i_skip(c, it, n):
    it = to_iter(c, it)
    k = it.args[0]
    if n.op == "c" and not it_filtered(it):
        for _ in range(n.args[1]):
            it = it_adv(c, it)
        # keep a marker so that rules see the skipped prefix
        return it
    return mk("it", "val", mk("skip", it, n), ZERO)


for _m in ("skip_while", "take_while", "map_while", "step_by", "scan", "cycle", "intersperse"):
    def _mkf(m):
        def f(c, it, *a):
            return mk("it", "val", mk(m, to_iter(c, it), *a), ZERO)
        return f
    MODELS[("Iterator", _m)] = _mkf(_m)


@model(("fn", "std::iter::once"))
def i_once(c, x):
    return mk("it", "val", array(x), ZERO)


@model(("fn", "std::iter::empty"))
def i_empty(c):
    return mk("it", "val", mk("vec.new"), ZERO)


@model(("Chars", "as_str"), ("CharIndices", "offset"))
def i_as_str(c, r):
    return c.unknown(r)


def run_loop(c, it, bodyf, tag):
    """for item in it { bodyf(item) };  bodyf returns None (diverges), False (go on) or a value
    (leave the loop with that value).  Returns (condition, value) list of exits."""
    itp, fr = c.itp, c.fr
    key = (fr.fid, str(c.site), tag)
    tmp = ("S", fr.fid, str(c.site), tag)
    res = ("S", fr.fid, str(c.site), tag + "res")
    st0 = c.st
    st0.store[tmp] = it
    ref = mk("ref", tmp, ())
    outer = c

    def body(st):
        cur = st.store.get(tmp)
        cc = Ctx(itp, st, fr, c.span, (c.site, tag), c.callee, c.argtys, c.retty)
        if cur.op != "it":
            # opaque iterator
            h = cond(mk("ithas", cur))
            item = mk("item", cur)
            nxt = mk("itadv", cur)
            skips = []
            stx = st.copy(AND(st.pc, NOT(h)))
            sts = st.copy(AND(st.pc, h))
            sts.store[tmp] = nxt
            cc.st = sts
        else:
            h = it_has(cc, cur)
            stx = st.copy(AND(st.pc, NOT(h)))
            sts = st.copy(AND(st.pc, h))
            cc.st = sts
            skips = []
            nxt = it_adv(cc, cur)
            pc0 = sts.pc
            item = it_item(cc, cur, skips) if sts.pc is not FALSE else None
            if item is None:
                return [], [("done", stx)]
            sts.store[tmp] = nxt
        back = []
        if skips:
            p = TRUE
            for s_ in skips:
                p = AND(p, s_)
            sk = sts.copy(AND(pc0, NOT(p)))
            if sk.pc is not FALSE:
                back.append(sk)
        exits = [("done", stx)]
        if sts.pc is not FALSE:
            r = bodyf(cc, item)
            if r is not None and sts.pc is not FALSE:
                if r is False:
                    back.append(sts)
                else:
                    brk, val = r          # leave under condition brk with val
                    e = sts.copy(AND(sts.pc, brk))
                    e.store[res] = val
                    if e.pc is not FALSE:
                        exits.append(("brk", e))
                    sts.pc = AND(sts.pc, NOT(brk))
                    if sts.pc is not FALSE:
                        back.append(sts)
        return back, exits
    exits = itp.loop_fix(State_copy(st0), key, fr.fn, fr, c.span, body)
    return exits, res


def State_copy(st):
    return st.copy()


def finish(c, exits, res, vals):
    """merge exits into c.st; vals: kind -> function(state) giving the result value"""
    sts = []
    for t, s in exits:
        if s.pc is FALSE:
            continue
        v = vals[t](s)
        s.store[res] = v
        sts.append(s)
    m = c.itp.merge(sts)
    if m is None:
        c.st.pc = FALSE
        return None
    r = m.store.pop(res)
    c.st.store, c.st.pc = m.store, m.pc
    return r


def _it(c, x):
    if x.op == "ref":
        v = c.load(x)
        if v.op == "it":
            return v
    return to_iter(c, x) if x.op != "it" else x


@model(("Iterator", "for_each"))
def i_for_each(c, it, f):
    exits, res = run_loop(c, _it(c, it), lambda cc, x: None if cc.call(f, x, tag="fe") is None else False, "fe")
    return finish(c, exits, res, {"done": lambda s: UNIT})


@model(("Iterator", "fold"))
def i_fold(c, it, ini, f):
    acc = ("S", c.fr.fid, str(c.site), "acc")
    c.st.store[acc] = ini

    def body(cc, x):
        v = cc.call(f, cc.st.store[acc], x, tag="fold")
        if v is None:
            return None
        cc.st.store[acc] = v
        return False
    exits, res = run_loop(c, _it(c, it), body, "fold")
    return finish(c, exits, res, {"done": lambda s: s.store[acc]})


@model(("Iterator", "try_fold"), ("Iterator", "try_for_each"), ("Iterator", "reduce"), ("Iterator", "partition"))
def i_try(c, it, *a):
    return c.unknown(it, *a)


def leading(c, it, how="take_while"):
    """chars().take_while(p): (text, the characters that end the run), or None"""
    if not (it.op == "it" and it.args[0] == "val" and it.args[1].op == how and it.args[2] is ZERO):
        return None
    inner, p = it.args[1].args[:2]
    if not (inner.op == "it" and inner.args[0] == "chars" and inner.args[2] is ZERO and inner.args[1].op != "ite"):
        return None
    s = inner.args[1]
    if s.op == "ref":
        s = c.s(s)
    ch = mk("e", chars(s), mk("bv", 0))
    b = ("S", c.fr.fid, str(c.site), "lead")
    c.st.store[b] = ch
    r = c.call(p, mk("ref", b, ()), tag="lead")
    if r is None:
        return None
    return s, cset(NOT(cond(r)), ch)


@model(("Iterator", "sum"), ("Iterator", "product"))
def i_sum(c, it):
    j = _it(c, it)
    if j.op == "it" and j.args[0] == "map":
        ld = leading(c, j.args[1])
        if ld is not None:
            ch = mk("e", chars(ld[0]), mk("bv", 0))
            if c.call(j.args[2], ch, tag="len") is mk("len_utf8", ch):
                seq = chars(ld[0])
                return ite(exists(seq, ld[1]), mk("cidx", ld[0], mk_first(seq, ld[1])), length(ld[0]))
    t = c.itp.prog.types[c.retty] if c.retty is not None else None
    how = "product" if c.name().endswith("product") else "sum"
    if t is not None and t.get("path") in c.itp.prog.adts:
        own = [f for (tr, n, a), f in c.itp.prog.impls.items() if tr.split("::")[-1].lower() == how and n == how and a[0] == t["s"]]
        if len(own) == 1:
            return c.itp.inline(own[0], [j], c.st, c.fr, c.span, (c.site, how))
    zero, add = mk(how + "0"), lambda a, x: mk(how + "+", a, x)
    if t is not None and t.get("path") == "rust_decimal::Decimal":
        zero, add = mk("dec.const", "0" if how == "sum" else "1"), lambda a, x: dec_bin("add" if how == "sum" else "mul", a, x)
    acc = ("S", c.fr.fid, str(c.site), "acc")
    c.st.store[acc] = zero

    def body(cc, x):
        cc.st.store[acc] = add(cc.st.store[acc], cc.val(x))
        return False
    exits, res = run_loop(c, _it(c, it), body, "sum")
    return finish(c, exits, res, {"done": lambda s: s.store[acc]})


@model(("Iterator", "count"))
def i_count(c, it):
    it = _it(c, it)
    if it.op == "it" and not it_filtered(it) and it_pos(it) is ZERO:
        j = it
        while j.args[0] in ("map", "copied", "peek", "enum", "inspect"):
            j = j.args[1]
        seq, pos = it_seq(c, j)
        if seq is not None:
            return length(seq)
    acc = ("S", c.fr.fid, str(c.site), "acc")
    c.st.store[acc] = ZERO

    def body(cc, x):
        cc.st.store[acc] = add(cc.st.store[acc], ONE)
        return False
    exits, res = run_loop(c, it, body, "count")
    return finish(c, exits, res, {"done": lambda s: s.store[acc]})


@model(("Iterator", "last"))
def i_last(c, it):
    it = _it(c, it)
    if it.op == "it" and not it_filtered(it) and it_pos(it) is ZERO:
        h = it_has(c, it)
        return c.fork(h, lambda: _opt_map(c, it_item(c, it_set(c, it, mk("last")), [])), lambda: NONE)
    return c.unknown(it)


def i_find_first(c, ref, it):
    def body(cc, x):
        return (TRUE, some(x))
    exits, res = run_loop(c, it, body, "find1")
    r = finish(c, exits, res, {"done": lambda s: NONE, "brk": lambda s: s.store[res]})
    return r


@model(("Iterator", "find"))
def i_find(c, it, f):
    def body(cc, x):
        b = ("S", cc.fr.fid, str(cc.site), "fnd")
        cc.st.store[b] = x
        p = cc.call(f, mk("ref", b, ()), tag="find")
        if p is None:
            return None
        return (cond(p), some(x))
    exits, res = run_loop(c, _it(c, it), body, "find")
    return finish(c, exits, res, {"done": lambda s: NONE, "brk": lambda s: s.store[res]})


@model(("Iterator", "find_map"))
def i_find_map(c, it, f):
    def body(cc, x):
        p = cc.call(f, x, tag="fm")
        if p is None:
            return None
        return (isome(p), some(pay(p, "Some")))
    exits, res = run_loop(c, _it(c, it), body, "fmap")
    return finish(c, exits, res, {"done": lambda s: NONE, "brk": lambda s: s.store[res]})


@model(("Iterator", "position"))
def i_position(c, it, f):
    i = _it(c, it)
    i = mk("it", "enum", i, ZERO)

    def body(cc, x):
        p = cc.call(f, fld(x, "1"), tag="pos")
        if p is None:
            return None
        return (cond(p), some(fld(x, "0")))
    exits, res = run_loop(c, i, body, "pos")
    return finish(c, exits, res, {"done": lambda s: NONE, "brk": lambda s: s.store[res]})


@model(("Iterator", "any"))
def i_any(c, it, f):
    def body(cc, x):
        p = cc.call(f, x, tag="any")
        if p is None:
            return None
        return (cond(p), TRUE)
    exits, res = run_loop(c, _it(c, it), body, "any")
    return finish(c, exits, res, {"done": lambda s: FALSE, "brk": lambda s: TRUE})


@model(("Iterator", "all"))
def i_all(c, it, f):
    def body(cc, x):
        p = cc.call(f, x, tag="all")
        if p is None:
            return None
        return (NOT(cond(p)), FALSE)
    exits, res = run_loop(c, _it(c, it), body, "all")
    return finish(c, exits, res, {"done": lambda s: TRUE, "brk": lambda s: FALSE})


for _m in ("min", "max", "min_by_key", "max_by_key", "min_by", "max_by"):
    def _mkm(m):
        def f(c, it, *a):
            it = _it(c, it)
            v = mk("pick", m, it, *[c.val(x) if x.op != "agg" else x for x in a])
            return ite(it_has(c, it) if it.op == "it" else cond(mk("ithas", it)), some(v), NONE)
        return f
    MODELS[("Iterator", _m)] = _mkm(_m)


@model(("Iterator", "collect"), ("FromIterator", "from_iter"))
def i_collect(c, it):
    it = _it(c, it)
    t = c.itp.prog.types[c.retty] if c.retty is not None else None
    p = t.get("path") if t else "std::vec::Vec"
    if p != "std::vec::Vec":
        if p == "std::string::String":
            return collect_string(c, it)
        if t is not None and p in c.itp.prog.adts:
            own = [f for (tr, n, a), f in c.itp.prog.impls.items() if tr.split("::")[-1] == "FromIterator" and n == "from_iter" and a[0] == t["s"]]
            if len(own) == 1:
                return c.itp.inline(own[0], [it], c.st, c.fr, c.span, (c.site, "coll"))
        return mk("collect", p or "?", it)
    return collect_into(c, it, mk("vec.new"))


def collect_string(c, it):
    ld = leading(c, it)
    if ld is not None:
        return upto(*ld)
    acc = ("S", c.fr.fid, str(c.site), "acc")
    c.st.store[acc] = cstr("")

    def body(cc, x):
        v = cc.s(x)
        if v.op == "e" and v.args[0].op == "chars":
            v = charstr(v)
        cc.st.store[acc] = sconcat(cc.st.store[acc], v)
        return False
    exits, res = run_loop(c, it, body, "coll")
    return finish(c, exits, res, {"done": lambda s: s.store[acc]})


def collect_into(c, it, ini):
    acc = ("S", c.fr.fid, str(c.site), "acc")
    c.st.store[acc] = ini

    def body(cc, x):
        cc.st.store[acc] = apply(None, lambda v: mk("vec.push", v, x), cc.st.store[acc])
        cc.event("push", "collect", [mk("ref", acc, ()), x, NULL])
        return False
    exits, res = run_loop(c, it, body, "coll")
    return finish(c, exits, res, {"done": lambda s: s.store[acc]})


@model(("Extend", "extend"), ("Vec", "extend_from_slice"))
def i_extend(c, r, it):
    t = _ty(c, 0)
    if t and t.get("path") == "std::vec::Vec":
        old = c.load(r)
        src = it
        if it.op == "ref":
            v = c.load(it)
            src = v if v.op != "it" else v
        if src.op != "it":
            c.event("extend", c.name(), [r, src])
            c.store(r, vec_extend(old, src))
            return UNIT
        j = src
        if j.args[0] in ("val", "slice") and j.args[2] is ZERO:
            seq = it_seq(c, j)[0]
            c.event("extend", c.name(), [r, seq])
            c.store(r, vec_extend(old, seq))
            return UNIT
        v = collect_into(c, src, old)
        if v is None:
            return None
        c.store(r, v)
        return UNIT
    if t and t.get("path") == "std::string::String" and it.op != "it":
        return c.unknown(r, it)
    return c.unknown(r, it)


# =================================================================== formatting
def decode_template(b):
    """pieces of a format_args template: str literals or ('arg', i, flags, width, prec)"""
    out = []
    i = 0
    argi = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bytes(b[i:i + n]).decode("utf8"))
            i += n
        elif n == 0x80:
            ln = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(bytes(b[i:i + ln]).decode("utf8"))
            i += ln
        else:
            flags = width = prec = None
            if n & 1:
                flags = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24
                i += 4
            if n & 2:
                width = b[i] | b[i + 1] << 8
                i += 2
            if n & 4:
                prec = b[i] | b[i + 1] << 8
                i += 2
            if n & 8:
                argi = b[i] | b[i + 1] << 8
                i += 2
            out.append(("arg", argi, flags, width, prec))
            argi += 1
    return out


@model(("Argument", "new_display"))
def f_disp(c, r):
    t = _ty(c, 0)
    return mk("fmtarg", "display", disp(c, c.val(r) if not (t and t["k"] == "str") else c.s(r), t))


@model(("Argument", "new_debug"), ("Argument", "new_pointer"), ("Argument", "new_lower_hex"), ("Argument", "new_upper_hex"),
       ("Argument", "new_lower_exp"), ("Argument", "new_octal"), ("Argument", "new_binary"), ("Argument", "from_usize"))
def f_dbg(c, r):
    return mk("fmtarg", c.name().split("::")[-1], c.val(r))


@model(("Arguments", "new"))
def f_args(c, tmpl, args):
    tv = tmpl if tmpl.op == "bytes" else c.val(tmpl)
    av = c.load(args) if args.op == "ref" else args
    if tv.op != "bytes" or av.op != "agg":
        return mk("fmt", "?", c.val(tmpl), av)
    parts = []
    for pc in decode_template(list(tv.args[0])):
        if isinstance(pc, str):
            parts.append(cstr(pc))
        else:
            _, i, fl, w, pr = pc
            a = av.args[3 + i] if 3 + i < len(av.args) else mk("fmtarg", "?", UNIT)
            if a.op == "fmtarg" and a.args[0] == "display" and w is None and pr is None:
                parts.append(a.args[1])
            else:
                parts.append(mk("fmtspec", a, str(fl), str(w), str(pr)))
    return concat(*parts)


@model(("Arguments", "from_str"), ("Arguments", "from_str_nonconst"), ("Arguments", "new_const"))
def f_fromstr(c, s):
    v = c.s(s)
    return v


@model(("fn", "std::fmt::format"), ("fn", "alloc::fmt::format"))
def f_format(c, a):
    return a


@model(("Formatter", "write_fmt"), ("Formatter", "write_str"), ("Write", "write_fmt"), ("Write", "write_str"), ("Write", "write_char"),
       ("Formatter", "write_char"), ("Formatter", "pad"))
def f_write(c, r, a):
    t = _ty(c, 0)
    if t is not None and t.get("path") == "std::string::String":
        v = charstr(a) if c.name().endswith("write_char") else c.s(a)
        c.store(r, sconcat(c.load(r), v))
        return ok(UNIT)
    c.event("write", c.name(), [r, c.s(a)], extra=c.callee)
    return mk("call", "fmt-result", c.s(a))


@model(("Display", "fmt"))
def f_display_fmt(c, x, f):
    t = _ty(c, 0)
    c.event("write", "Display::fmt", [f, disp(c, c.val(x), t)])
    return mk("call", "fmt-result", disp(c, c.val(x), t))


# logging has no effect on the model
@model(("fn", "log::max_level"))
def l_max(c):
    return mk("loglevel")


@model(("fn", "log::__private_api::log"), ("fn", "log::__private_api::loc"), ("fn", "log::__private_api::enabled"))
def l_log(c, *a):
    return mk("logged")


# =================================================================== decimals
def _dec_types(c):
    t = _ty(c, 0)
    return t is not None and t.get("path", "") == "rust_decimal::Decimal"


def m_op(c, a, b):
    if _dec_types(c):
        op = c.callee["method"]
        x, y = c.val(a), c.val(b)
        c.event("dec", op, [x, y])
        return dec_bin(op, x, y)
    t = _ty(c, 0)
    if t is not None and t["k"] == "int":
        x, y = c.val(a), c.val(b)
        op = c.callee["method"]
        return add(x, y) if op == "add" else sub(x, y) if op == "sub" else mk("bin", op, x, y)
    return c.unknown(a, b)


for _m in ("Sub", "Mul", "Div", "Rem"):
    MODELS[(_m, _m.lower())] = m_op


def m_opassign(c, r, x):
    t = _ty(c, 0)
    op = c.callee["method"].replace("_assign", "")
    if t is not None and t.get("path", "") == "rust_decimal::Decimal":
        a, b = c.load(r), c.val(x)
        c.event("dec", op, [a, b])
        c.store(r, dec_bin(op, a, b))
        return UNIT
    if t is not None and t["k"] == "int":
        a, b = c.load(r), c.val(x)
        c.store(r, add(a, b) if op == "add" else sub(a, b) if op == "sub" else mk("bin", op, a, b))
        return UNIT
    return c.unknown(r, x)


for _m, _n in (("SubAssign", "sub_assign"), ("MulAssign", "mul_assign"), ("DivAssign", "div_assign"), ("RemAssign", "rem_assign")):
    MODELS[(_m, _n)] = m_opassign


@model(("Neg", "neg"))
def m_neg(c, a):
    if _dec_types(c):
        return dec_fix(dec_neg(c.val(a)))
    return c.unknown(a)


@model(("Decimal", "set_sign_positive"), ("Decimal", "set_sign_negative"))
def d_setsign(c, r, b):
    d = c.load(r)
    posfn = c.name().endswith("positive")
    bb = cond(b)
    want_pos = bb if posfn else NOT(bb)
    c.store(r, dec_fix(ite(want_pos, dec_abs(d), dec_nabs(d))))
    return UNIT


@model(("Decimal", "is_sign_positive"))
def d_ispos(c, r):
    return dec_pos(c.load(r))


@model(("Decimal", "is_sign_negative"))
def d_isneg(c, r):
    return NOT(dec_pos(c.load(r)))


@model(("Decimal", "abs"))
def d_abs(c, r):
    return dec_abs(c.val(r))


def dec_is_zero(d):
    def one(x):
        while x.op in ("dec.neg", "dec.abs", "dec.nabs"):
            x = x.args[0]
        if x.op == "dec.const":
            return TRUE if float(x.args[0]) == 0 else FALSE
        if x.op == "citem" and x.args[0].endswith("::ZERO"):
            return TRUE
        return cond(mk("dec.zero", x))
    return cond(apply(None, one, d))


@model(("Decimal", "is_zero"))
def d_iszero(c, r):
    return dec_is_zero(c.load(r))


@model(("Decimal", "from_str_exact"))
def d_fse(c, s):
    v = mk("call", "Decimal::from_str_exact", c.s(s))
    c.event("call", "rust_decimal::Decimal::from_str_exact", [c.s(s)], extra=c.callee)
    return v


@model(("Decimal", "normalize"))
def d_norm(c, r):
    return mk("dec.normalize", c.val(r))


# =================================================================== i/o
@model(("BufRead", "read_line"))
def io_read_line(c, rd, buf):
    site = mk("rdsite", str(c.itp.short_fid(c.fr.fid)) + ":" + str(c.site))
    old = c.load(buf)
    c.event("read_line", c.name(), [rd, buf, old])
    line = mk("line", site)
    res = mk("rl", site)
    okc = isok(res)
    nz = NOT(eq(pay(res, "Ok"), ZERO))
    c.store(buf, sconcat(old, line))
    rv = c.load(rd) if rd.op in ("ref", "param") else rd
    return res


@model(("BufReader", "new"), ("Cursor", "new"), ("BufReader", "with_capacity"))
def io_new(c, *a):
    c.event("call", c.name(), list(a), extra=c.callee)
    return mk("io." + [x for x in c.name().split("::") if not x.startswith("<")][-2], c.val(a[-1]))


@model(("File", "open"))
def io_open(c, p):
    v = c.val(p) if p.op == "ref" else p
    c.event("open", c.name(), [v], extra=c.callee)
    return mk("call", "File::open", v)


@model(("Path", "new"))
def p_new(c, p):
    return mk("ref", ("V", c.s(p)), ())


@model(("Path", "to_path_buf"), ("PathBuf", "as_path"), ("Path", "to_owned"), ("Path", "as_os_str"), ("PathBuf", "into_os_string"))
def p_id(c, p):
    return c.val(p)


@model(("FromStr", "from_str"))
def m_from_str(c, s):
    t = c.itp.prog.types[c.retty] if c.retty is not None else None
    if t and t.get("args"):
        inner = c.itp.prog.types[t["args"][0]]
        if inner.get("path") in ("std::path::PathBuf", "std::string::String"):
            return ok(c.s(s))
    return c.unknown(s)


@model(("PathBuf", "new"))
def p_newbuf(c):
    return cstr("")


@model(("PathBuf", "push"))
def p_push(c, r, x):
    old = c.load(r)
    c.store(r, mk("pathjoin", old, c.s(x)))
    return UNIT


@model(("Path", "join"))
def p_join(c, r, x):
    return mk("pathjoin", c.val(r), c.s(x))


@model(("Path", "to_str"))
def p_to_str(c, r):
    v = c.val(r)
    return ite(cond(mk("utf8path", v)), some(v), NONE)


@model(("Path", "display"), ("Path", "to_string_lossy"))
def p_disp(c, r):
    return mk("lossy", c.val(r))


@model(("Path", "is_file"), ("Path", "exists"))
def p_is_file(c, r):
    v = c.val(r)
    c.event("fsquery", c.name(), [v], extra=c.callee)
    return cond(mk("fsquery", c.name().split("::")[-1], v))


# =================================================================== price graph
@model(("Graph", "find_edge"), ("StableGraph", "find_edge"))
def g_find_edge(c, g, a, b):
    t = mk("edge", c.load(g), a, b)
    gv = c.load(g)
    c.event("gcall", "find_edge", [g, a, b])
    if gv.op == "g.add_edge" and gv.args[1] is a and gv.args[2] is b:
        return some(mk("edgeid", gv.args[1], gv.args[2]))
    return ite(cond(mk("hasedge", _gbase(gv), a, b)), some(mk("edgeid", a, b)), NONE)


def _gbase(g):
    while g.op in ("upd",):
        g = g.args[0]
    return g


@model(("Graph", "add_edge"), ("StableGraph", "add_edge"))
def g_add_edge(c, g, a, b, w):
    c.event("gcall", "add_edge", [g, a, b, w])
    e = mk("edgeid", a, b)
    c.store(g, update(c.load(g), (("e", e),), w))
    return e


@model(("Graph", "update_edge"), ("StableGraph", "update_edge"))
def g_update_edge(c, g, a, b, w):
    c.event("gcall", "update_edge", [g, a, b, w])
    e = mk("edgeid", a, b)
    c.store(g, update(c.load(g), (("e", e),), w))
    return e


@model(("Graph", "add_node"), ("StableGraph", "add_node"))
def g_add_node(c, g, w):
    c.event("gcall", "add_node", [g, w])
    old = c.load(g)
    c.store(g, mk("g.add_node", old, w))
    return mk("nodeid", old, w)


@model(("Graph", "edge_weight"), ("Graph", "edge_weight_mut"), ("StableGraph", "edge_weight"), ("StableGraph", "edge_weight_mut"))
def g_edge_weight(c, g, e):
    c.event("gcall", "edge_weight", [g, e])
    if e.op == "edgeid":
        return some(c.itp.ref_step(g, ("e", e)))
    return ite(cond(mk("hasweight", c.load(g), e)), some(c.itp.ref_step(g, ("e", e))), NONE)


@model(("Graph", "node_weight"), ("Graph", "node_weight_mut"))
def g_node_weight(c, g, n):
    c.event("gcall", "node_weight", [g, n])
    return ite(cond(mk("hasnode", c.load(g), n)), some(c.itp.ref_step(g, ("e", mk("node", n)))), NONE)


for _m in ("remove_edge", "remove_node", "clear", "clear_edges", "retain_edges", "retain_nodes", "reverse"):
    MODELS[("Graph", _m)] = _map_mut("g." + _m)


# =================================================================== dates
def _int(x):
    return x.args[1] if x.op == "c" and isinstance(x.args[1], int) else None


def mktime(*hms):
    return mk("time", *hms)


@model(("NaiveDate", "parse_from_str"), ("NaiveTime", "parse_from_str"), ("NaiveDateTime", "parse_from_str"))
def d_parse(c, s, f):
    k = c.callee["def"].split("::")[-2]
    t = mk("dparse", k, c.s(s), c.s(f))
    return ite(cond(mk("dparses", k, c.s(s), c.s(f))), ok(t), err(mk("dparse.err", k, c.s(s), c.s(f))))


@model(("NaiveDateTime", "new"))
def d_new(c, d, t):
    return mk("datetime", d, timeval(t))


@model(("NaiveDate", "and_time"))
def d_and_time(c, d, t):
    return mk("datetime", c.val(d), timeval(t))


def timeval(t):
    if t.op == "citem" and t.args[0].endswith(("NaiveTime::MIN",)):
        return mktime(0, 0, 0)
    if t.op == "ite":
        return apply(None, timeval, t)
    return t


def _hms(c, vals):
    n = [_int(v) for v in vals]
    if None in n:
        return None
    if n[0] < 24 and all(x < 60 for x in n[1:3]) and all(x == 0 for x in n[3:]):
        return mktime(*n[:3])
    return None


@model(("NaiveDate", "and_hms_opt"))
def d_hms(c, d, *a):
    t = _hms(c, a)
    return some(mk("datetime", c.val(d), t)) if t is not None else c.unknown(d, *a)


@model(("NaiveTime", "from_hms_opt"))
def t_hms(c, *a):
    t = _hms(c, a)
    return some(t) if t is not None else c.unknown(*a)


@model(("NaiveTime", "from_hms"))
def t_hms2(c, *a):
    t = _hms(c, a)
    return t if t is not None else c.unknown(*a)


@model(("NaiveDateTime", "date"))
def d_date(c, d):
    v = c.val(d)
    return v.args[0] if v.op == "datetime" else mk("call", "chrono::NaiveDateTime::date", v)


@model(("NaiveDateTime", "time"))
def d_time(c, d):
    v = c.val(d)
    return v.args[1] if v.op == "datetime" else mk("call", "chrono::NaiveDateTime::time", v)
