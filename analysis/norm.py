"""Normalising constructors for terms (equal behaviour -> equal term, where we can)."""
from terms import *

ADT = {}            # path -> adt record (filled by the program loader)


def agg(path, variant, names, vals):
    # rebuilding a struct from all the fields of one value gives that value
    if not variant and names and vals[0].op == "f" and (ADT.get(path) or {}).get("local"):
        x = vals[0].args[0]
        if all(v.op == "f" and v.args[0] is x and v.args[1] == n for v, n in zip(vals, names)):
            return x
    return mk("agg", path, variant, tuple(names), *vals)


def some(x):
    return agg("std::option::Option", "Some", ("0",), (x,))


NONE = agg("std::option::Option", "None", (), ())


def ok(x):
    return agg("std::result::Result", "Ok", ("0",), (x,))


def err(x):
    return agg("std::result::Result", "Err", ("0",), (x,))


def tup(*xs):
    return agg("tuple", "", tuple(str(i) for i in range(len(xs))), xs)


def array(*xs):
    return agg("array", "", tuple(str(i) for i in range(len(xs))), xs)


# ------------------------------------------------------------ projections
def revidx(seq, pos):
    """position counted from the end"""
    return mk("last") if pos is ZERO else mk("revidx", seq, pos)


def proj(t, step):
    if t.op == "ite":
        return apply(("proj", step), lambda x: proj(x, step), t)
    if t is BOT:
        return BOT
    k = step[0]
    if k == "e" and t.op == "optseq" and step[1] is ZERO:
        return pay(t.args[0], "Some")
    if k == "e" and t.op == "agg" and t.args[0] == "array" and step[1].op == "ite":
        return apply(None, lambda i: proj(t, ("e", i)), step[1])
    if t.op == "upd":
        if t.args[1] == step:
            return t.args[2]
        if k == t.args[1][0] == "f":
            return proj(t.args[0], step)
        if k == "e" and t.args[1][0] == "e":
            a, b = t.args[1][1], step[1]
            if distinct(a, b):
                return proj(t.args[0], step)
        if k == "v" and t.args[1][0] == "f":
            # a field written through a variant (enum place): look below
            pass
    if k == "f":
        if t.op == "agg":
            n = t.args[2]
            if step[1] in n:
                return t.args[3 + n.index(step[1])]
            return BOT if t.args[1] else mk("f", t, step[1])
        if t.op == "v" and t.args[0].op == "agg":
            return BOT
        return mk("f", t, step[1])
    if k == "v":
        if t.op == "agg":
            return t if t.args[1] == step[1] else BOT
        return mk("v", t, step[1])
    if k == "b":
        if t.op == "box":
            return t.args[0]
        return mk("b", t)
    if k == "e":
        s = step[1]
        if s.op == "ite":
            return apply(None, lambda x: proj(t, ("e", x)), s)
        if t.op == "agg" and t.args[0] == "array" and s.op == "c" and str(s.args[1]) in t.args[2]:
            return t.args[3 + t.args[2].index(str(s.args[1]))]
        if t.op == "vec.push":
            if s.op == "last":
                return t.args[1]
            L = length(t.args[0])
            if L is s:
                return t.args[1]
            if L.op == "c" and s.op == "c" and s.args[1] < L.args[1]:
                return proj(t.args[0], step)
        if t.op == "map.ins":
            if t.args[1] is s:
                return t.args[2]
            if distinct(t.args[1], s):
                return proj(t.args[0], step)
        if t.op == "comp":
            return subst(t.args[2], {t.args[1]: s}, rebuild)
        if t.op == "sorted" and t.args[0].op == "comp":
            return proj(t.args[0], ("e", mk("perm", t, s)))
        if t.op == "rev":
            return proj(t.args[0], ("e", revidx(t.args[0], s)))
        if t.op == "sl" and t.args[2] is NULL and s.op == "last":
            return proj(t.args[0], step)
        if t.op == "chars" and s is ZERO and t.args[0].op == "upto" and t.args[0].args[0].op == "trim_start" and blank(t.args[0].args[1]):
            return proj(chars(t.args[0].args[0]), step)
        if t.op == "chars" and s.op == "c":
            x = t.args[0]
            if s is ZERO and x.op == "trim_start" and x.args[0].op == "trim_end":
                return proj(chars(trim_start(x.args[0].args[0])), step)
            if from_second(x):
                return proj(chars(x.args[0]), ("e", add(s, ONE)))
        if t.op in ("split_ws", "split", "splitn") and s.op == "c":
            r = piece(t, s.args[1])
            if r is not None:
                return r[0]
        return mk("e", t, s)
    if k == "sl":
        return mk("sl", t, step[1], step[2])
    raise ValueError(step)


def projs(t, path):
    for s in path:
        t = proj(t, s)
    return t


def fld(t, *names):
    for n in names:
        t = proj(t, ("f", n))
    return t


def pay(t, variant, i="0"):
    return proj(proj(t, ("v", variant)), ("f", i))


def update(t, path, val):
    if not path:
        return val
    if t.op == "ite":
        return apply(None, lambda x: update(x, path, val), t)
    if t is BOT:
        return BOT
    step, rest = path[0], path[1:]
    new = update(proj(t, step), rest, val)
    k = step[0]
    if t.op == "agg":
        if k == "f" and step[1] in t.args[2]:
            i = t.args[2].index(step[1])
            vals = list(t.args[3:])
            vals[i] = new
            return agg(t.args[0], t.args[1], t.args[2], vals)
        if k == "v":
            return new if t.args[1] == step[1] else BOT
        if k == "e" and t.args[0] == "array" and step[1].op == "c" and str(step[1].args[1]) in t.args[2]:
            i = t.args[2].index(str(step[1].args[1]))
            vals = list(t.args[3:])
            vals[i] = new
            return agg(t.args[0], t.args[1], t.args[2], vals)
    if k == "b" and t.op == "box":
        return mk("box", new)
    if k == "e" and t.op == "vec.push" and step[1].op == "last":
        return mk("vec.push", t.args[0], new)
    if k == "e" and t.op == "map.ins" and t.args[1] is step[1]:
        return mk("map.ins", t.args[0], t.args[1], new)
    # writing back what is already there
    if new is proj(t, step):
        return t
    if t.op == "upd":
        s0 = t.args[1]
        if s0 == step:
            return mk("upd", t.args[0], step, new)
        if s0[0] == "f" and k == "f" and s0[1] > step[1]:
            return mk("upd", update(t.args[0], (step,), new), s0, t.args[2])
    return mk("upd", t, step, new)


def distinct(a, b):
    """certainly different values"""
    if a is b:
        return False
    if a.op == "c" and b.op == "c":
        return True
    return False


def fresh_bv(*ts):
    """a bound variable not used inside ts"""
    n = -1
    for t in ts:
        for x in subterms(t):
            if x.op == "bv" and x.args[0] > n:
                n = x.args[0]
    return mk("bv", n + 1)


def mk_comp(seq, bv, body):
    """[body(i) for i in positions of seq]"""
    if seq.op == "comp":
        inner = seq
        b2 = fresh_bv(inner.args[2], body)
        x = subst(body, {bv: b2}, rebuild)
        return mk_comp(inner.args[0], b2, x)
    if body.op == "e" and body.args[0] is seq and body.args[1] is bv:
        return seq
    return mk("comp", seq, bv, body)


def simp(t, pc, memo=None):
    """t simplified, caring only about the cases where pc holds (also inside the term)"""
    if pc is TRUE:
        return t
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        y = restrict(x, pc) if x.op == "ite" else x
        if y.op == "ite":
            r = ite(cond(y.args[0]), simp(y.args[1], pc), simp(y.args[2], pc))
        elif y is not x:
            r = go(y)
        elif x.op in ("c", "null", "bottom", "param", "phi", "bv", "acc"):
            r = x
        else:
            na = tuple(go(a) for a in x.args)
            r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
        memo[x.id] = r
        return r
    return go(t)


# ------------------------------------------------------------ integers
def add(a, b):
    if a.op == "ite" or b.op == "ite":
        return apply("add", add, a, b)
    if a.op == "c" and b.op == "c":
        return const(a.args[1] + b.args[1])
    if a.op == "c":
        a, b = b, a
    if b is ZERO:
        return a
    if b.op == "c" and a.op == "+" and a.args[1].op == "c":
        return add(a.args[0], const(a.args[1].args[1] + b.args[1]))
    if b.op != "c" and a.id > b.id:
        a, b = b, a
    return mk("+", a, b)


def sub(a, b):
    if a.op == "ite" or b.op == "ite":
        return apply("sub", sub, a, b)
    if a is b:
        return ZERO
    if a.op == "c" and b.op == "c":
        return const(a.args[1] - b.args[1])
    if b.op == "c":
        return add(a, const(-b.args[1]))
    if a.op == "+" and a.args[0] is b:
        return a.args[1]
    if a.op == "+" and a.args[1] is b:
        return a.args[0]
    return mk("-", a, b)


# ------------------------------------------------------------ sequences
SEQ_WRAP = ("chars", "seq")


def length(t):
    if t.op == "bytesof":
        return length(t.args[0])
    if t.op == "ite":
        return apply("len", length, t)
    if t.op == "c" and t.args[0] == "str":
        return const(len(t.args[1].encode()))
    if t.op == "vec.new" or t.op == "map.new":
        return ZERO
    if t.op == "vec.push":
        return add(length(t.args[0]), ONE)
    if t.op == "agg" and t.args[0] == "array":
        return const(len(t.args[2]))
    if t.op == "upd" and t.args[1][0] == "e":
        return length(t.args[0])
    if t.op in ("sorted", "rev", "comp"):
        return length(t.args[0])
    if t.op == "phi" and len(t.args) > 2:
        return t.args[2]
    if t.op == "fold" and keeps_length(t.args[3]):
        return length(t.args[1])
    if t.op == "entries":
        return length(t.args[0])
    if t.op == "optseq":
        return ite(is_variant(t.args[0], "std::option::Option", "Some"), ONE, ZERO)
    return mk("len", t)


def keeps_length(body):
    """a fold body that only changes elements of its accumulator"""
    accs, upd_seen = set(), False
    for _, l in leaves(body):
        while l.op == "upd" and l.args[1][0] == "e":
            l, upd_seen = l.args[0], True
        accs.add(l)
    return upd_seen and len(accs) == 1 and next(iter(accs)).op == "acc"


def strip_trims(t):
    while t.op in ("trim_start", "trim_end"):
        t = t.args[0]
    return t


def nonempty(t):
    """condition: the sequence / string t has an element"""
    if t.op == "bytesof":
        return nonempty(t.args[0])
    if t.op == "ite":
        return cond(apply("nonempty", nonempty, t))
    if t.op == "c" and t.args[0] == "str":
        return TRUE if t.args[1] else FALSE
    if t.op in ("vec.new", "map.new"):
        return FALSE
    if t.op in ("vec.push", "map.ins"):
        return TRUE
    if t.op == "agg" and t.args[0] == "array":
        return TRUE if t.args[2] else FALSE
    if t.op == "optseq":
        return is_variant(t.args[0], "std::option::Option", "Some")
    if t.op in ("chars", "seq", "sorted", "rev", "entries", "comp", "keys"):
        return nonempty(t.args[0])
    if t.op == "upd" and t.args[1][0] == "e":
        return nonempty(t.args[0])
    if t.op in ("split_ws", "split", "splitn"):
        r = piece(t, 0)
        if r is not None:
            return r[1]
    if t.op in ("trim_start", "trim_end"):
        b = strip_trims(t)
        if b.op == "c":
            return TRUE if b.args[1].strip() else FALSE
        if b.op == "from" and b.args[1].op == "cs" and b.args[1].args[0] == WS_SET:
            b = untrimmed(b, b.args[1])
        return cond(mk("hasnonws", untailed(b)))
    if t.op in ("from",):
        return mk_exists(chars(t.args[0]), t.args[1])
    if t.op == "upto" and t.args[0].op == "trim_start" and blank(t.args[1]):
        return nonempty(t.args[0])
    if t.op == "concat":
        for x in t.args:
            if nonempty(x) is TRUE:
                return TRUE
        r = FALSE
        for x in t.args:
            r = OR(r, nonempty(x))
        return r
    if from_second(t):
        return lt(ONE, length(chars(t.args[0])))
    return cond(mk("nonempty", t))


def from_second(t):
    """the text after the first character (it is one byte long, or the slice would panic)"""
    return t.op == "slice" and t.args[1] is ONE and t.args[2] is NULL


def has_index(pos, seq):
    """condition: pos < len(seq)"""
    if pos is ZERO:
        return nonempty(seq)
    return lt(pos, length(seq))


def lt(a, b):
    if a.op == "ite" or b.op == "ite":
        return cond(apply("lt", lt, a, b))
    if a is ZERO and base_of(b).op == "rl":     # the number of bytes read
        return NOT(eq(b, ZERO))
    if a.op == "c" and b.op == "c":
        try:
            return TRUE if a.args[1] < b.args[1] else FALSE
        except TypeError:
            pass
    if a is b:
        return FALSE
    if b.op == "len":
        if a is ZERO:
            return nonempty(b.args[0])
        if a.op == "first" and a.args[0] is b.args[0]:
            return mk_exists(a.args[0], a.args[1])
        if a.op == "c" and b.args[0].op in ("split_ws", "split", "splitn"):
            r = piece(b.args[0], a.args[1])
            if r is not None:
                return r[1]
    if a.op == "len" and b is ONE:
        return NOT(nonempty(a.args[0]))
    if b is ZERO and a.op == "len":
        return FALSE
    if a.op == "+" and a.args[1].op == "c" and b.op == "c":
        return lt(a.args[0], const(b.args[1] - a.args[1].args[1]))
    if b.op == "+" and b.args[1].op == "c" and a.op == "c":
        return lt(const(a.args[1] - b.args[1].args[1]), b.args[0])
    return cond(mk("lt", a, b))


def base_of(t):
    while t.op in ("f", "v", "b") and isinstance(t.args[0], T):
        t = t.args[0]
    return t


def le(a, b):
    return NOT(lt(b, a))


TWO = {"std::option::Option": "Some", "std::result::Result": "Ok", "std::ops::ControlFlow": "Continue"}


def is_variant(t, path, variant):
    """condition: enum value t is of the given variant"""
    if t.op == "ite":
        return cond(apply(("isv", path, variant), lambda x: is_variant(x, path, variant), t))
    if t is BOT:
        return FALSE
    if t.op == "agg":
        return TRUE if t.args[1] == variant else FALSE
    if t.op == "upd" and t.args[1][0] == "v":
        return is_variant(t.args[0], path, variant)     # writing inside the payload keeps the variant
    if path in TWO:
        pos = TWO[path]
        a = cond(mk("is", t, pos))
        return a if variant == pos else NOT(a)
    adt = ADT.get(path)
    if adt and len(adt["variants"]) == 1:
        return TRUE
    if adt and len(adt["variants"]) == 2:
        pos = adt["variants"][0]["name"]
        a = cond(mk("is", t, pos))
        return a if variant == pos else NOT(a)
    return cond(mk("is", t, variant))


def disc(t, path):
    if t.op == "ite":
        return apply(("disc", path), lambda x: disc(x, path), t)
    if t.op == "agg" and t.args[1]:
        for v in ADT.get(path, {"variants": []})["variants"]:
            if v["name"] == t.args[1]:
                return const(v["disc"])
    return mk("disc", t, path)


def exposed(t):
    """an address as a number"""
    return t.op == "cast" and str(t.args[0]).startswith("PointerExpose")


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and (y.op in ("c", "agg", "null", "ref", "ite") or _cheap(x)):
            return cond(apply("eq", eq, a, b))
    if a is BOT or b is BOT:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if exposed(x) and y.op == "c" and y.args[1] == 0:
            return is_null(x.args[1])
    if exposed(a) and exposed(b):
        return eq(a.args[1], b.args[1])
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[1] == b.args[1] and a.args[0] == b.args[0] else FALSE
    for x, y in ((a, b), (b, a)):
        if y.op == "c":
            # the first byte is an ASCII character when the first character is
            z = x.args[1] if x.op == "cast" and x.args[0] == "char" else x
            if z.op == "e" and z.args[1] is ZERO and z.args[0].op == "bytesof":
                n = ord(y.args[1]) if y.args[0] == "char" else y.args[1]
                if isinstance(n, int) and n < 128:
                    return eq(mk("e", chars(z.args[0].args[0]), ZERO), mk("c", "char", chr(n)))
            if x.op == "disc":
                adt = ADT.get(x.args[1])
                if adt:
                    for v in adt["variants"]:
                        if v["disc"] == y.args[1]:
                            return is_variant(x.args[0], x.args[1], v["name"])
                    return FALSE
            if y is TRUE:
                return cond(x)
            if y is FALSE:
                return NOT(cond(x))
            if x.op == "len" and y is ZERO:
                return NOT(nonempty(x.args[0]))
            if x.op == "cidx" and y is ZERO:
                return eq(x.args[1], ZERO)      # only the first character starts at the first byte
            if y.args[0] == "str" and y.args[1] == "":
                return NOT(nonempty(x))
            if x.op == "e" and x.args[1] is ZERO and x.args[0].op == "chars" and x.args[0].args[0].op == "from" and \
                    x.args[0].args[0].args[1].op == "cs" and y.args[1] in REPS:
                f = x.args[0].args[0]           # the first character that was searched for
                if y.args[1] not in f.args[1].args[0]:
                    return FALSE
                if len(f.args[1].args[0]) == 1:
                    return nonempty(f)
            if x.op == "+" and x.args[1].op == "c":
                return eq(x.args[0], const(y.args[1] - x.args[1].args[1]))
        if x is NULL:
            return is_null(y)
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        if a.args[2] == b.args[2]:
            r = TRUE
            for p, q in zip(a.args[3:], b.args[3:]):
                r = AND(r, eq(p, q))
            return r
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.args[1] and y.op != "agg" and x.args[0] in ("std::option::Option", "std::result::Result"):
            r = is_variant(y, x.args[0], x.args[1])
            for n, v in zip(x.args[2], x.args[3:]):
                r = AND(r, eq(proj(proj(y, ("v", x.args[1])), ("f", n)), v))
            return r
    if a.id > b.id:
        a, b = b, a
    return cond(mk("eq", a, b))


def _cheap(t):
    return len(leaves(t)) <= 4


def is_null(t):
    if t.op == "ite":
        return cond(apply("isnull", is_null, t))
    if t is NULL:
        return TRUE
    if t.op in ("ref", "box"):
        return FALSE
    if t.op == "fold" and t.args[1] is NULL and all(v.op in ("ref", "acc", "null", "box") for _, v in leaves(t.args[3])) and \
            not any(a.op == "acc" or any(y.op == "acc" for y in subterms(a)) for a in support(t.args[3])):
        # a link collected in a pass over a sequence: set or not, as a flag
        b = apply(None, lambda v: v if v.op == "acc" else FALSE if v is NULL else TRUE, t.args[3])
        return NOT(cond(mk("fold", t.args[0], FALSE, t.args[2], b)))
    return cond(mk("isnull", t))


# ------------------------------------------------------------ strings
def concat(*ts):
    out = []
    for t in ts:
        if t.op == "concat":
            parts = t.args
        else:
            parts = (t,)
        for p in parts:
            if p.op == "c" and p.args[0] == "str":
                if p.args[1] == "":
                    continue
                if out and out[-1].op == "c":
                    out[-1] = cstr(out[-1].args[1] + p.args[1])
                    continue
            out.append(p)
    if not out:
        return cstr("")
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def trim_start(t):
    if t.op == "ite":
        return apply("trim_start", trim_start, t)
    if t.op == "c":
        return cstr(t.args[1].lstrip(RUST_WS))
    if t.op == "trim_start":
        return t
    if t.op == "after" and blank(t.args[1]):
        return trim_start(from_(t.args[0], t.args[1]))
    return mk("trim_start", t)


def chars(s):
    """the characters of a string"""
    if s.op == "ite":
        return apply("chars", chars, s)
    return mk("chars", s)


def untail(t):
    """t without a removal of trailing whitespace (for use where it is removed again)"""
    if t.op == "trim_end":
        return t.args[0]
    if t.op == "trim_start":
        return trim_start(untail(t.args[0]))
    return t


def untailed(t):
    """trim_end(s[k..]) does not depend on whitespace at the end of s"""
    if t.op == "slice" and t.args[2] is NULL and t.args[1].op == "c":
        s = untail(t.args[0])
        if s is not t.args[0]:
            return slice_(s, t.args[1], NULL)
    return t


def blank(p):
    """does the pattern match only whitespace?"""
    s = p.args[0] if p.op == "cs" else p.args[0].args[1] if p.op == "needle" and p.args[0].op == "c" else None
    return bool(s) and all(c in RUST_WS for c in s)


def trim_end(t):
    if t.op == "ite":
        return apply("trim_end", trim_end, t)
    if t.op == "c":
        return cstr(t.args[1].rstrip(RUST_WS))
    if t.op == "trim_end":
        return t
    if t.op == "trim_start":
        return trim_start(trim_end(t.args[0]))
    u = untailed(t)
    if u is not t:
        return trim_end(u)
    return mk("trim_end", t)


# ------------------------------------------------------------ character sets and split strings
RUST_WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2003\u2028\u3000"
REPS = "".join(chr(i) for i in range(128)) + "\x85\xa0\u1680\u2003\u2028\u3000" + "\u00e9\u00c9\u00df\u0663\u00bd\u4e00\u200b\u20ac\u00b2\U0001f600"


def char_class(m, ch):
    """truth of char::m for a representative character"""
    a = ord(ch) < 128
    if m == "is_whitespace":
        return ch in RUST_WS
    if m == "is_ascii_digit":
        return ch in "0123456789"
    if m == "is_ascii_whitespace":
        return ch in " \t\n\x0c\r"
    if m == "is_alphabetic":
        return ch.isalpha()
    if m == "is_numeric":
        return ch.isnumeric() and ch != "\u4e00"
    if m == "is_alphanumeric":
        return ch.isalpha() or (ch.isnumeric() and ch != "\u4e00")
    if m == "is_control":
        return ord(ch) < 32 or 127 <= ord(ch) < 160
    if m == "is_uppercase":
        return ch.isupper()
    if m == "is_lowercase":
        return ch.islower()
    if m == "is_ascii":
        return a
    if m == "is_ascii_alphabetic":
        return a and ch.isalpha()
    if m == "is_ascii_alphanumeric":
        return a and ch.isalnum()
    if m == "is_ascii_punctuation":
        return a and 32 < ord(ch) < 127 and not ch.isalnum()
    return None


def char_test(at, ch, c):
    """truth of atom at when the character term ch is the character c (None: not a test of ch)"""
    if at.op == "eq":
        x, y = at.args
        if y is ch:
            x, y = y, x
        if x is ch and y.op == "c" and y.args[0] == "char":
            return None if ord(y.args[1]) >= 128 and y.args[1] not in REPS else c == y.args[1]
    elif at.op == "chis" and at.args[1] is ch and len(at.args) == 2:
        return char_class(at.args[0], c)
    elif at.op == "lt":
        x, y = at.args
        if x is ch and y.op == "c" and y.args[0] == "char":
            return c < y.args[1] if ord(y.args[1]) < 128 else None
        if y is ch and x.op == "c" and x.args[0] == "char":
            return x.args[1] < c if ord(x.args[1]) < 128 else None
    elif at.op == "isin" or at.op == "exists":
        x = at.args[0]
        if at.op == "exists" and at.args[1].op == "eq" and x.op == "chars" and x.args[0].op == "c":
            p, q = at.args[1].args
            if p is ch or q is ch:
                return c in x.args[0].args[1]
    return None


_creps = {}


def char_reps(at):
    if at is None:
        return ALLREPS
    if at.id not in _creps:
        ch = None
        if at.op == "chis" and len(at.args) == 2:
            ch = at.args[1]
        elif at.op in ("eq", "lt"):
            x, y = at.args
            ch = x if is_char(y) else y if is_char(x) else None
        r = None
        if ch is not None and not is_const(ch):
            v = [(c, char_test(at, ch, c)) for c in REPS]
            if all(t is not None for _, t in v):
                r = ch, frozenset(c for c, t in v if t)
        _creps[at.id] = r
    return _creps[at.id]


def is_char(t):
    return t.op == "c" and t.args[0] == "char"


def str_test(b, x, s):
    """truth of atom b when the string x is the constant s (None: not a test of x alone)"""
    if b.op in ("hasnonws", "nonempty") and b.args[0] is x:
        return bool(s.strip(RUST_WS) if b.op == "hasnonws" else s)
    if b.op in ("eq", "chis", "lt"):
        for e in b.args:
            if isinstance(e, T) and e.op == "e" and e.args[0].op == "chars" and e.args[0].args[0] is x and e.args[1] is ZERO and s:
                return char_test(b, e, s[0])
    return None


STRS[0] = str_test
ALLREPS = frozenset(REPS)
CHARS[0] = char_reps


def cset(pr, ch):
    """predicate over the character ch as a set of representative characters (or the predicate)"""
    if pr is TRUE or pr is FALSE or pr.op in ("cs", "needle"):
        return pr
    if pr.op != "ite":
        return pr
    out = []
    for c in REPS:
        t = pr
        while t.op == "ite":
            v = char_test(t.args[0], ch, c)
            if v is None:
                return pr
            t = t.args[1] if v else t.args[2]
        if t is TRUE:
            out.append(c)
        elif t is not FALSE:
            return pr
    if not out:
        return FALSE
    if len(out) == len(REPS):
        return TRUE
    return mk("cs", "".join(out))


def byteset(pr, el):
    """a predicate over the byte el that does not tell the bytes of other characters apart, as a set of
    characters: a search by byte then stops at the first character of the set (None: it is not of this kind)"""
    def test(at, n):
        if at.op == "eq" and el in at.args:
            y = at.args[1] if at.args[0] is el else at.args[0]
            if y.op == "c" and isinstance(y.args[1], int):
                return n == y.args[1]
        elif at.op == "lt":
            x, y = at.args
            if x is el and y.op == "c" and isinstance(y.args[1], int):
                return n < y.args[1]
            if y is el and x.op == "c" and isinstance(x.args[1], int):
                return x.args[1] < n
        elif at.op == "chis" and at.args[1] is el and len(at.args) == 2 and at.args[0].startswith("is_ascii_"):
            return n < 128 and char_class(at.args[0], chr(n))
        return None
    val = []
    for n in range(256):
        t = pr
        while t.op == "ite":
            v = test(t.args[0], n)
            if v is None:
                return None
            t = t.args[1] if v else t.args[2]
        if t is not TRUE and t is not FALSE:
            return None
        val.append(t is TRUE)
    if len(set(val[128:])) != 1:
        return None
    out = "".join(c for c in REPS if (val[ord(c)] if ord(c) < 128 else val[128]))
    return FALSE if not out else TRUE if len(out) == len(REPS) else mk("cs", out)


def charset(s):
    return mk("cs", "".join(c for c in REPS if c in s))


def mk_first(seq, pr):
    if seq.op == "chars":
        for b in range(3):
            p2 = cset(pr, mk("e", seq, mk("bv", b)))
            if p2 is not pr:
                pr = p2
                break
    return mk("first", seq, pr)


def mk_exists(seq, pr):
    if seq.op == "agg" and seq.args[0] == "array" and len(seq.args) <= 35:
        # a table: one test per element
        bs = [b for b in range(3) if any(x is mk("e", seq, mk("bv", b)) for x in subterms(pr))]
        if len(bs) == 1:
            bv = mk("bv", bs[0])
            e = mk("e", seq, bv)
            rs = [cond(subst(pr, {e: x}, rebuild)) for x in seq.args[3:]]
            if not any(bv in subterms(r) for r in rs):
                r = FALSE
                for x in rs:
                    r = OR(r, x)
                return r
    if seq.op == "chars" and seq.args[0].op == "c" and pr.op not in ("cs", "needle") and len(seq.args[0].args[1]) <= 32:
        # membership in a constant string: one test per character
        t = pr.args[0] if pr.op == "ite" and pr.args[1] is TRUE and pr.args[2] is FALSE else pr
        if t.op == "eq":
            for b in range(3):
                e = mk("e", seq, mk("bv", b))
                for x, y in (t.args, t.args[::-1]):
                    if x is e:
                        r = FALSE
                        for c in seq.args[0].args[1]:
                            r = OR(r, eq(y, mk("c", "char", c)))
                        return r
    if seq.op == "chars":
        for b in range(3):
            p2 = cset(pr, mk("e", seq, mk("bv", b)))
            if p2 is not pr:
                pr = p2
                break
    if pr is FALSE:
        return FALSE
    if pr is TRUE:
        return nonempty(seq)
    s = seq.args[0] if seq.op == "chars" else None
    if s is not None:
        if pr.op == "cs" and pr.args[0] == NONWS_SET:
            return nonempty(trim_start(s))
        if pr.op == "cs" and pr.args[0] == WS_SET and s.op == "trim_start" and s.args[0].op == "trim_end":
            # blanks inside a trimmed text: there is a second word
            return nonempty(trim_start(from_(trim_start(s.args[0].args[0]), pr)))
        if s.op == "c" and pr.op == "cs":
            return TRUE if any(c in pr.args[0] or (c not in REPS) for c in s.args[1]) else FALSE
        if s.op == "c" and pr.op == "needle" and pr.args[0].op == "c":
            return TRUE if pr.args[0].args[1] in s.args[1] else FALSE
        if s.op == "upto" and s.args[1] is pr:
            return FALSE
        if s.op == "from" and s.args[1] is pr:
            return cond(mk("exists", chars(s.args[0]), pr))
    return cond(mk("exists", seq, pr))


WS_SET = "".join(c for c in REPS if c in RUST_WS)
NONWS_SET = "".join(c for c in REPS if c not in RUST_WS)


def untrimmed(s, p):
    """a text of which a word is taken: whether blanks at its end were cut off first makes no difference"""
    if s.op == "trim_end":
        return untrimmed(s.args[0], p)
    if s.op == "trim_start":
        return trim_start(untrimmed(s.args[0], p))
    if s.op == "from" and s.args[1] is p:
        return from_(untrimmed(s.args[0], p), p)
    return s


def upto(s, p):
    """the part of s before the first match of p (all of s if there is none)"""
    if p.op == "cs" and p.args[0] == WS_SET and s.op in ("trim_start", "trim_end", "from"):
        s = untrimmed(s, p)
    if s.op == "c" and p.op == "needle" and p.args[0].op == "c":
        return cstr(s.args[1].split(p.args[0].args[1])[0])
    if s.op == "c" and p.op == "cs":
        return cstr(_split(s.args[1], p.args[0])[0])
    if s.op == "upto" and s.args[1] is p:
        return s
    if s.op == "from" and s.args[1] is p:
        return cstr("")
    return mk("upto", s, p)


def _split(s, cs):
    for i, c in enumerate(s):
        if c in cs:
            return s[:i], s[i:]
    return s, ""


def scan_amount(s):
    """the amount written in s, blanks before it apart (C15 shows that they do not count)"""
    while s.op == "trim_start":
        s = s.args[0]
    return mk("scan.amount", s)


def from_(s, p):
    """the part of s from the first match of p (empty if there is none)"""
    if s.op == "c" and p.op == "needle" and p.args[0].op == "c":
        i = s.args[1].find(p.args[0].args[1])
        return cstr(s.args[1][i:] if i >= 0 else "")
    if s.op == "c" and p.op == "cs":
        return cstr(_split(s.args[1], p.args[0])[1])
    if s.op == "upto" and s.args[1] is p:
        return cstr("")
    if s.op == "from" and s.args[1] is p:
        return s
    return mk("from", s, p)


def after(s, p):
    """the part of s after the first match of p (empty if there is none)"""
    if s.op == "c" and s.args[1] == "":
        return s
    return mk("after", s, p)


def piece(t, k):
    """(k-th piece of a split string, condition that there is one)"""
    s = t.args[0]
    if t.op == "split_ws":
        ws = charset(RUST_WS)
        r = trim_start(s)
        for _ in range(k):
            r = trim_start(apply(None, lambda x: from_(x, ws), r))
        return apply(None, lambda x: upto(x, ws), r), nonempty(r)
    n = None
    if t.op == "splitn":
        n, p = t.args[1], t.args[2]
        if n.op != "c":
            return None
        n = n.args[1]
    else:
        p = t.args[1]
    if p.op not in ("cs", "needle") or (n is not None and k >= n):
        return None
    ex = TRUE
    for _ in range(k):
        ex = mk_exists(chars(s), p)
        s = apply(None, lambda x: after(x, p), s)
    if n is not None and k == n - 1:
        return s, ex
    return apply(None, lambda x: upto(x, p), s), ex


_strops = {}


def strops(t):
    """upto/from/after terms inside t"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r |= strops(x)
        return r
    if not isinstance(t, T):
        return frozenset()
    r = _strops.get(t.id)
    if r is None:
        r = frozenset([t]) if t.op in ("upto", "from", "after") else frozenset()
        for a in t.args:
            if isinstance(a, (T, tuple)):
                r |= strops(a)
        _strops[t.id] = r
    return r


_trims = {}


def trims(t):
    """trim terms inside t"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r |= trims(x)
        return r
    if not isinstance(t, T):
        return frozenset()
    r = _trims.get(t.id)
    if r is None:
        r = frozenset([t]) if t.op in ("trim_start", "trim_end") else frozenset()
        for a in t.args:
            if isinstance(a, (T, tuple)):
                r |= trims(a)
        _trims[t.id] = r
    return r


def reduce_nomatch(t, s, p):
    """t in the case that p does not occur in s"""
    m = {}
    for x in strops(t):
        if x.args[1] is p and x.args[0] is s:
            m[x] = s if x.op == "upto" else cstr("")
    return subst(t, m, rebuild) if m else t


_coll = {}


def reduce_false(t, atom):
    """t in the case that the string test fails"""
    if atom.op == "hasnonws":
        b = atom.args[0]
        m = {x: cstr("") for x in trims(t) if strip_trims(x) is b}
        return subst(t, m, rebuild) if m else t
    return reduce_nomatch(t, atom.args[0].args[0], atom.args[1])


def collapse(atom, hi, lo):
    """string values in the case that the test fails in reduced form; a node whose cases then agree
    is its positive case"""
    if hi.op == "c" and hi.args[0] == "bool" or lo.op == "c" and lo.args[0] == "bool":
        return None
    if atom.op == "exists" and atom.args[0].op != "chars":
        return None
    if atom.op == "dec.pos":
        return dec_sign(atom.args[0], hi, lo)
    k = (atom.id, hi.id, lo.id)
    if k in _coll:
        return _coll[k]
    _coll[k] = None
    l2 = reduce_false(lo, atom)
    if hi is l2:
        r = hi
    elif reduce_false(hi, atom) is l2:
        r = hi
    elif l2 is not lo:
        r = mk_ite_raw(atom, hi, l2) if l2.op != "ite" else ite(cond(atom), hi, l2)
    else:
        r = None
    _coll[k] = r
    return r


COLLAPSE[0] = collapse


def _match_at(s, lo):
    """lo = position of the first match of p in s (+ k): returns (p, k)"""
    k = 0
    if lo.op == "+":
        a, b = lo.args[0], lo.args[1]
        if a.op == "c":
            a, b = b, a
        if b.op == "c" and isinstance(b.args[1], int):
            lo, k = a, b.args[1]
        elif b.op == "patlen" and a.op == "cidx":
            return (a.args[1].args[1], "after") if a.args[0] is s and a.args[1].op == "first" and a.args[1].args[0].op == "chars" else None
    if lo.op == "cidx" and lo.args[0] is s and lo.args[1].op == "first" and lo.args[1].args[0].op == "chars" and lo.args[1].args[0].args[0] is s:
        return lo.args[1].args[1], k
    if lo.op == "len" and lo.args[0].op == "upto" and lo.args[0].args[0] is s:
        # the length of the part before the first match
        return lo.args[0].args[1], k
    return None


def slice_(s, lo, hi):
    """s[lo..hi]; hi NULL = open"""
    if any(x.op == "ite" for x in (s, lo, hi)):
        return apply("slice", slice_, s, lo, hi)
    if lo is ZERO:
        m = _match_at(s, hi)
        if m is not None and m[1] == 0:
            return upto(s, m[0])
    elif hi is NULL:
        m = _match_at(s, lo)
        if m is not None:
            p, k = m
            if k == 0:
                return from_(s, p)
            if k == "after" or (p.op == "cs" and all(ord(c) < 128 for c in p.args[0]) and k == 1) or \
                    (p.op == "needle" and p.args[0].op == "c" and k == len(p.args[0].args[1].encode())):
                return after(s, p)
            if k != "after":
                return mk("slice", from_(s, p), const(k), NULL)
        if s.op == "from" and lo.op == "c":
            p, k = s.args[1], lo.args[1]
            if (p.op == "cs" and all(ord(c) < 128 for c in p.args[0]) and k == 1) or \
                    (p.op == "needle" and p.args[0].op == "c" and k == len(p.args[0].args[1].encode())):
                return after(s.args[0], p)
    if lo is ZERO and hi is NULL:
        return s
    if hi.op == "len" and hi.args[0] is s:
        return slice_(s, lo, NULL)
    if hi is NULL and lo.op == "len" and lo.args[0] is s:
        return cstr("")
    if lo is ZERO and hi is ZERO:
        return cstr("")
    if s.op == "slice" and s.args[2] is NULL and lo.op == "c" and s.args[1].op == "c" and hi is NULL:
        return slice_(s.args[0], add(lo, s.args[1]), NULL)
    if s.op == "c" and lo.op == "c" and (hi is NULL or hi.op == "c"):
        b = s.args[1].encode()
        try:
            return cstr((b[lo.args[1]:] if hi is NULL else b[lo.args[1]:hi.args[1]]).decode())
        except UnicodeDecodeError:
            pass
    return mk("slice", s, lo, hi)


# ------------------------------------------------------------ decimals
def dec_neg(d):
    if d.op == "ite":
        return dec_fix(apply("dneg", dec_neg, d))
    if d.op == "dec.neg":
        return d.args[0]
    if d.op == "dec.abs":
        return mk("dec.nabs", d.args[0])
    if d.op == "dec.nabs":
        return mk("dec.abs", d.args[0])
    return mk("dec.neg", d)


def dec_abs(d):
    if d.op == "ite":
        return dec_fix(apply("dabs", dec_abs, d))
    if d.op in ("dec.neg", "dec.nabs", "dec.abs"):
        return mk("dec.abs", d.args[0])
    return mk("dec.abs", d)


def dec_nabs(d):
    if d.op == "ite":
        return dec_fix(apply("dnabs", dec_nabs, d))
    if d.op in ("dec.neg", "dec.nabs", "dec.abs"):
        return mk("dec.nabs", d.args[0])
    return mk("dec.nabs", d)


def dec_pos(d):
    """is_sign_positive"""
    if d.op == "ite":
        return cond(apply("dpos", dec_pos, d))
    if d.op == "dec.abs":
        return TRUE
    if d.op == "dec.nabs":
        return FALSE
    if d.op == "dec.neg":
        return NOT(dec_pos(d.args[0]))
    return cond(mk("dec.pos", d))


def dec_sign(d, hi, lo):
    """the value that is hi if d is positive and lo otherwise, if both are d or -d"""
    def cls(x, pos):
        # value of x as (+-)d given the sign of d
        if x is d:
            return "d"
        if x.op == "dec.neg" and x.args[0] is d:
            return "-d"
        if x.op == "dec.abs" and x.args[0] is d:
            return "d" if pos else "-d"
        if x.op == "dec.nabs" and x.args[0] is d:
            return "-d" if pos else "d"
        return None
    ch, cl = cls(hi, True), cls(lo, False)
    if ch and cl:
        return d if (ch, cl) == ("d", "d") else mk("dec.neg", d) if (ch, cl) == ("-d", "-d") else mk("dec.abs", d) if (ch, cl) == ("d", "-d") else mk("dec.nabs", d)
    return None


def dec_fix(t):
    """if pos(d) then -|d| else |d|  ->  -d ;  if pos(d) then d else -d -> |d| ..."""
    if t.op != "ite":
        return t
    a, hi, lo = t.args
    hi, lo = dec_fix(hi), dec_fix(lo)
    if a.op == "dec.pos":
        r = dec_sign(a.args[0], hi, lo)
        if r is not None:
            return r
    if a.op == "dec.zero":
        # adding or subtracting zero changes nothing
        if lo.op in ("dec.add", "dec.sub") and a.args[0] in lo.args and hi in lo.args:
            return lo
    return node(a, hi, lo)


def dec_bin(op, a, b):
    if op == "sub" and b.op == "dec.neg":
        return dec_bin("add", a, b.args[0])
    if op == "add" and b.op == "dec.neg":
        return dec_bin("sub", a, b.args[0])
    if op == "sub" and a.op == "dec.const" and a.args[0] == "0":
        return dec_neg(b)
    if op in ("add", "mul") and a.id > b.id:
        a, b = b, a
    return mk("dec." + op, a, b)


def rebuild(op, args):
    """normalising reconstruction after substitution"""
    if op == "f":
        return proj(args[0], ("f", args[1]))
    if op == "v":
        return proj(args[0], ("v", args[1]))
    if op == "b":
        return proj(args[0], ("b",))
    if op == "e":
        return proj(args[0], ("e", args[1]))
    if op == "+":
        return add(*args)
    if op == "-":
        return sub(*args)
    if op == "len":
        return length(*args)
    if op == "nonempty":
        return nonempty(*args)
    if op == "lt":
        return lt(*args)
    if op == "eq":
        return eq(*args)
    if op == "isnull":
        return is_null(*args)
    if op == "concat":
        return concat(*args)
    if op == "trim_start":
        return trim_start(*args)
    if op == "trim_end":
        return trim_end(*args)
    if op == "slice":
        return slice_(*args)
    if op == "is":
        return _rebuild_is(*args)
    if op == "dec.pos":
        return dec_pos(*args)
    if op == "dec.neg":
        return dec_neg(*args)
    if op in ("dec.add", "dec.sub", "dec.mul", "dec.div"):
        return dec_bin(op[4:], *args)
    if op == "comp":
        return mk_comp(*args)
    if op == "agg":
        return agg(args[0], args[1], args[2], args[3:])
    if op == "hasnonws":
        return nonempty(trim_start(args[0]))
    if op == "scan.amount":
        return scan_amount(*args)
    if op == "exists":
        return mk_exists(*args)
    if op == "first":
        return mk_first(*args)
    if op == "upto":
        return apply(None, upto, *args)
    if op == "from":
        return apply(None, from_, *args)
    if op == "after":
        return apply(None, after, *args)
    return mk(op, *args)


def _rebuild_is(t, v):
    def one(x):
        if x is BOT:
            return FALSE
        if x.op == "agg":
            return TRUE if x.args[1] == v else FALSE
        while x.op == "upd" and x.args[1][0] == "v":
            x = x.args[0]
        return cond(mk("is", x, v))
    return cond(apply(None, one, t))
