"""Interned value-flow terms and multi-terminal decision diagrams over guard atoms.

A term is T(op, args).  A *value* is a decision diagram: a T('ite', atom, hi, lo) tree
(ordered, reduced) whose leaves are the non-ite terms.  A *condition* is a diagram whose
leaves are TRUE / FALSE.  Two pieces of code that compute the same value under the same
conditions get the same term, however the control flow is written."""

_tab = {}


class T:
    __slots__ = ("op", "args", "id", "_sup")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    k = (op,) + tuple(a.id if isinstance(a, T) else ("#", a.__class__.__name__, a) for a in args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tab)
        t._sup = None
        _tab[k] = t
    return t


def const(v, ty="int"):
    return mk("c", ty, v)


TRUE = mk("c", "bool", True)
FALSE = mk("c", "bool", False)
UNIT = mk("c", "unit", "()")
NULL = mk("null")
ZERO = mk("c", "int", 0)
ONE = mk("c", "int", 1)
BOT = mk("bottom")          # value of an unreachable alternative


def is_const(t):
    return t.op == "c"


def cstr(x):
    return mk("c", "str", x)


# ---------------------------------------------------------------- diagrams
def _top(t):
    return t.args[0].id if t.op == "ite" else None


def excl(a, b):
    """a true implies b false (different alternatives of the same scrutinee)"""
    if a is b or a.op != b.op:
        return False
    if a.op == "is":
        return a.args[0] is b.args[0] and a.args[1] != b.args[1]
    if a.op == "eq":
        for i in (0, 1):
            if is_const(a.args[i]):
                for j in (0, 1):
                    if is_const(b.args[j]) and a.args[1 - i] is b.args[1 - j] and a.args[i] is not b.args[j]:
                        return True
    return False


CHARS = [None]      # norm.char_reps: (character term, representatives that pass) of a test of one character
STRS = [None]       # norm.str_test: truth of a test of a string that is known
_imp = {}


def imp(a, val, b):
    """the truth of atom b when atom a has truth val (None: not determined)"""
    if val and a.op == b.op and excl(a, b):
        return False
    if val and a.op == "eq" and (a.args[0].op == "c" and a.args[0].args[0] == "str" or a.args[1].op == "c" and a.args[1].args[0] == "str"):
        k = (a.id, val, b.id)
        if k not in _imp:
            x, y = a.args
            _imp[k] = STRS[0](b, y, x.args[1]) if x.op == "c" else STRS[0](b, x, y.args[1])
        return _imp[k]
    if b.op == "eq" and (b.args[0].op == "c" and b.args[0].args[0] == "str" or b.args[1].op == "c" and b.args[1].args[0] == "str"):
        k = (a.id, val, b.id)
        if k not in _imp:
            x, y = b.args
            v = STRS[0](a, y, x.args[1]) if x.op == "c" else STRS[0](a, x, y.args[1])
            _imp[k] = False if v is not None and v != val else None
        return _imp[k]
    if (a.op in ("chis", "lt") or b.op in ("chis", "lt")) and a.op in ("chis", "lt", "eq") and b.op in ("chis", "lt", "eq") and a is not b:
        k = (a.id, val, b.id)
        if k not in _imp:
            r = None
            x, y = CHARS[0](a), CHARS[0](b)
            if x is not None and y is not None and x[0] is y[0]:
                s = x[1] if val else CHARS[0](None) - x[1]
                if not s & y[1]:
                    r = False
                elif s <= y[1]:
                    r = True
            _imp[k] = r
        return _imp[k]
    return None


_support = {}


def support(t):
    """the guard atoms of a diagram"""
    if t.op != "ite":
        return frozenset()
    r = _support.get(t.id)
    if r is None:
        r = frozenset([t.args[0]]) | support(t.args[1]) | support(t.args[2])
        _support[t.id] = r
    return r


def mk_ite_raw(atom, hi, lo):
    if hi is lo:
        return hi
    return mk("ite", atom, hi, lo)


_cof = {}


def cofactor(t, atom, val):
    if t.op != "ite":
        return t
    a = t.args[0]
    if a is atom:
        return t.args[1] if val else t.args[2]
    k = (t.id, atom.id, val)
    r = _cof.get(k)
    if r is not None:
        return r
    v = imp(atom, val, a)
    if v is not None:
        r = cofactor(t.args[1 if v else 2], atom, val)
    else:
        r = node(a, cofactor(t.args[1], atom, val), cofactor(t.args[2], atom, val))
    _cof[k] = r
    return r


def node(atom, hi, lo):
    """ite(atom, hi, lo), restoring the ordering"""
    if hi is lo or lo is BOT:
        return hi
    if hi is BOT:
        return lo
    if (hi.op == "ite" and hi.args[0].id <= atom.id) or (lo.op == "ite" and lo.args[0].id <= atom.id):
        return ite(_condleaf(atom), hi, lo)
    if hi.op == "ite":
        hi = _assume(hi, atom, True)
    if lo.op == "ite" and atom.op in ("chis", "lt", "hasnonws", "nonempty"):
        lo = _assume(lo, atom, False)
    if hi is lo:
        return hi
    if atom.op in ("exists", "hasnonws", "dec.pos") and COLLAPSE[0] is not None:
        r = COLLAPSE[0](atom, hi, lo)
        if r is not None:
            return r
    return mk_ite_raw(atom, hi, lo)


COLLAPSE = [None]


def _assume(t, atom, val):
    if t.op != "ite":
        return t
    for a in support(t):
        if a is atom or imp(atom, val, a) is not None:
            return cofactor(t, atom, val)
    return t


_app = {}


def apply(key, f, *ts):
    """leafwise f over diagrams; key identifies f for memoisation (None: no memo)"""
    if all(t.op != "ite" for t in ts):
        return f(*ts)
    k = None
    if key is not None:
        k = (key,) + tuple(t.id for t in ts)
        r = _app.get(k)
        if r is not None:
            return r
    atom = min((t.args[0] for t in ts if t.op == "ite"), key=lambda a: a.id)
    hi = apply(key, f, *[cofactor(t, atom, True) for t in ts])
    lo = apply(key, f, *[cofactor(t, atom, False) for t in ts])
    r = node(atom, hi, lo)
    if k is not None:
        _app[k] = r
    return r


def AND(a, b):
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return ite(a, b, FALSE)


def OR(a, b):
    if a is FALSE or a is b:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    return ite(a, TRUE, b)


_not = {}


def NOT(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    r = _not.get(a.id)
    if r is None:
        if a.op == "ite":
            r = mk_ite_raw(a.args[0], NOT(a.args[1]), NOT(a.args[2]))
        else:
            r = mk_ite_raw(a, FALSE, TRUE)
        _not[a.id] = r
    return r


def cond(t):
    """a boolean value as a condition diagram"""
    if t is TRUE or t is FALSE:
        return t
    if t.op == "ite":
        # leaves may be opaque booleans
        return apply("cond", _condleaf, t) if not _boolleaves(t) else t
    return _condleaf(t)


def _boolleaves(t):
    if t.op == "ite":
        return _boolleaves(t.args[1]) and _boolleaves(t.args[2])
    return t is TRUE or t is FALSE


def _condleaf(t):
    if t is TRUE or t is FALSE or t is BOT:
        return FALSE if t is BOT else t
    return mk_ite_raw(t, TRUE, FALSE)


_ite = {}


def ite(c, a, b):
    """if c then a else b, c a condition"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is not None:
        return r
    atom = min((t.args[0] for t in (c, a, b) if t.op == "ite"), key=lambda x: x.id)
    hi = ite(cofactor(c, atom, True), cofactor(a, atom, True), cofactor(b, atom, True))
    lo = ite(cofactor(c, atom, False), cofactor(a, atom, False), cofactor(b, atom, False))
    r = node(atom, hi, lo)
    _ite[k] = r
    return r


_restr = {}


def restrict(f, c):
    """simplify f, caring only about the cases where c holds"""
    if c is TRUE or c is FALSE or f.op != "ite":
        return f
    k = (f.id, c.id)
    r = _restr.get(k)
    if r is not None:
        return r
    a, ca = f.args[0], c.args[0]
    if ca.id <= a.id:
        if c.args[2] is FALSE:
            r = restrict(cofactor(f, ca, True), c.args[1])
        elif c.args[1] is FALSE:
            r = restrict(cofactor(f, ca, False), c.args[2])
        elif ca.id < a.id:
            # drop the test ca, keeping what it says about the tests of f
            c1, c2 = c.args[1], c.args[2]
            for x in support(f):
                v, w = imp(ca, True, x), imp(ca, False, x)
                if v is not None:
                    c1 = AND(c1, _condleaf(x) if v else NOT(_condleaf(x)))
                if w is not None:
                    c2 = AND(c2, _condleaf(x) if w else NOT(_condleaf(x)))
            r = restrict(f, OR(c1, c2))
        else:
            r = node(a, restrict(f.args[1], c.args[1]), restrict(f.args[2], c.args[2]))
    else:
        c1, c0 = cofactor(c, a, True), cofactor(c, a, False)
        if c0 is FALSE:
            r = restrict(f.args[1], c1)
        elif c1 is FALSE:
            r = restrict(f.args[2], c0)
        else:
            r = node(a, restrict(f.args[1], c1), restrict(f.args[2], c0))
    _restr[k] = r
    return r


def feasible(c, limit=20000):
    """c is not refuted by what its tests say together about single characters
    (the diagram itself only relates tests pairwise)"""
    if c is FALSE or c is TRUE:
        return c is TRUE
    if sum(1 for a in support(c) if a.op == "lt" and CHARS[0](a) is not None) < 1:
        return True
    full = CHARS[0](None)
    dead, n = set(), [0]

    def go(t, st):
        if t is FALSE:
            return False
        if t.op != "ite":
            return True
        k = (t.id, frozenset(st.items()))
        if k in dead:
            return False
        n[0] += 1
        if n[0] > limit:
            return True
        x = CHARS[0](t.args[0])
        for val in (True, False):
            s2 = st
            if x is not None:
                old = st.get(x[0], full)
                new = old & x[1] if val else old - x[1]
                if not new:
                    continue
                if new != old:
                    s2 = dict(st)
                    s2[x[0]] = new
            if go(t.args[1 if val else 2], s2):
                return True
        dead.add(k)
        return False
    return go(c, {})


def implies(a, b):
    c = AND(a, NOT(b))
    return c is FALSE or not feasible(c)


def leaves(t, c=TRUE):
    """[(condition, leaf)] of a value, within condition c; BOT dropped"""
    out = {}

    def go(t, c):
        if c is FALSE:
            return
        if t.op == "ite":
            a = _condleaf(t.args[0])
            go(t.args[1], AND(c, a))
            go(t.args[2], AND(c, NOT(a)))
        elif t is not BOT:
            out[t] = OR(out.get(t, FALSE), c)
    go(t, c)
    return [(v, k) for k, v in out.items()]


def cubes(c, limit=64):
    """disjunction of literal lists [(atom, bool)]"""
    out = []

    def go(t, acc):
        if len(out) >= limit:
            return
        if t is TRUE:
            out.append(acc)
        elif t is FALSE:
            return
        else:
            go(t.args[1], acc + [(t.args[0], True)])
            go(t.args[2], acc + [(t.args[0], False)])
    go(c, [])
    return out


def exists_atoms(c, pred):
    """existentially quantify the atoms for which pred holds"""
    for a in sorted(support(c), key=lambda x: x.id):
        if pred(a):
            c = OR(cofactor(c, a, True), cofactor(c, a, False))
    return c


def forall_atoms(c, pred):
    for a in sorted(support(c), key=lambda x: x.id):
        if pred(a):
            c = AND(cofactor(c, a, True), cofactor(c, a, False))
    return c


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    """all sub-terms (including through diagram nodes, atoms and paths)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


_subst_memo = {}


def subst(t, m, rebuild, memo=None):
    """replace terms by m (dict T->T); rebuild(op, args) constructs normalised terms"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif x.op in ("c", "null", "bottom", "param", "phi"):
            r = x
        else:
            na = tuple(go(a) for a in x.args)
            if all(p is q for p, q in zip(na, x.args)):
                r = x
            elif x.op == "ite":
                r = ite(cond(na[0]), na[1], na[2])
            else:
                r = rebuild(x.op, na)
        memo[x.id] = r
        return r
    return go(t)


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if isinstance(t, tuple):
        if t and t[0] in ("f", "v", "e", "b", "sl") and isinstance(t[0], str):
            return _step(t, depth)
        return "(" + ",".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    o, a = t.op, t.args
    d = depth - 1
    if o == "c":
        return repr(a[1]) if a[0] in ("str", "char") else str(a[1])
    if o == "f":
        return "%s.%s" % (show(a[0], d), a[1])
    if o == "v":
        return "%s@%s" % (show(a[0], d), a[1])
    if o == "e":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "deref":
        return "*%s" % show(a[0], d)
    if o == "b":
        return "box(%s)" % show(a[0], d)
    if o == "param":
        return "%s" % a[1]
    if o == "ite":
        if t is not None and _boolleaves(t):
            cs = cubes(t, 6)
            s = " | ".join(" & ".join(("" if v else "!") + show(x, d) for x, v in c) for c in cs)
            return "{" + s + "}"
        return "if(%s ? %s : %s)" % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == "agg":
        return "%s{%s}" % (a[0].split("::")[-1] + (("::" + a[1]) if a[1] else ""),
                           ", ".join("%s:%s" % (n, show(x, d)) for n, x in zip(a[2], a[3:])))
    if o == "ref":
        return "&" + show_place(a[0], a[1], d)
    if o == "cs":
        return "cs(%s)" % show_cs(a[0])
    if o == "phi":
        return "phi#%s%s" % (a[0], show_loc(a[1]))
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))


def show_cs(x):
    """a set of characters, as its complement when that is shorter"""
    every = [chr(i) for i in range(128)]
    neg = sum(c in x for c in every) > 64
    s = "".join(c for c in every if c not in x) if neg else x
    for r, n in (("0123456789", "0-9"), ("abcdefghijklmnopqrstuvwxyz", "a-z"), ("ABCDEFGHIJKLMNOPQRSTUVWXYZ", "A-Z")):
        s = s.replace(r, n)
    if "\t\n\x0b\x0c\r" in s and "\x85" in s:
        s = "ws" + "".join(c for c in s if c not in "\t\n\x0b\x0c\r \x85\xa0\u1680\u2003\u2028\u3000")
    s = repr(s)[1:-1]
    return "not " + s if neg else s


def show_loc(loc):
    return "<" + ".".join(str(x) for x in loc) + ">" if isinstance(loc, tuple) else str(loc)


def _step(s, d=6):
    if s[0] == "f":
        return "." + s[1]
    if s[0] == "v":
        return "@" + s[1]
    if s[0] == "e":
        return "[" + show(s[1], d) + "]"
    if s[0] == "b":
        return ".box"
    return "[%s]" % ",".join(show(x, d) for x in s[1:])


def show_place(base, path, d=6):
    b = base[0]
    if b == "L":
        s = "local%s_%s" % (base[1], base[2])
    elif b == "H":
        s = "(*%s)" % show(base[1], d)
    else:
        s = "<%s>" % ",".join(show(x, d) if isinstance(x, T) else str(x) for x in base)
    return s + "".join(_step(x, d) for x in path)
