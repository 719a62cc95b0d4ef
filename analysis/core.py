"""Shared machinery of the rules: analysed roots, obligations, evidence and verdicts."""
import json
import os
import sys
import time
import traceback
import build
import norm
import summaries
from interp import *
from norm import *
from terms import *

VERIF = build.VERIF
AMOUNT = "crate::amount::Amount"
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Missing(Exception):
    """an anchor of the property does not exist in the analysed tree"""


class Ctx:
    """the analysed program with a cache of analysed roots"""

    def __init__(self, dump=None):
        self.dump = dump or build.dump()
        self.prog = Program(self.dump["ledger_rs_lib"])
        self.bin = Program(self.dump["ledger_rs_lib-bin"]) if "ledger_rs_lib-bin" in self.dump else None
        self.cache = {}
        self.reach = None
        self.budget = 60

    # ------------------------------------------------ functions
    def fn(self, path):
        f = self.prog.by_path.get(path)
        if f is None:
            raise Missing("function %s not found" % path)
        return f

    def impl(self, trait, name, *tys):
        """the implementation of a trait method, by type name"""
        for (t, n, a), f in self.prog.impls.items():
            if t.split("::")[-1] == trait and n == name and len(a) == len(tys) and \
                    all(x == y or x.endswith("::" + y) for x, y in zip(a, tys)):
                return f
        raise Missing("no implementation of %s::%s for %s" % (trait, name, tys))

    def impls_of(self, traits, tyname):
        for (t, n, a), f in self.prog.impls.items():
            if t.split("::")[-1] in traits and a and a[0].split("::")[-1] == tyname:
                yield t.split("::")[-1], n, a, f

    def run(self, f, without=(), groups=None, prog=None):
        """analyse function f as a root"""
        if isinstance(f, str):
            f = self.fn(f)
        key = (f["path"], tuple(sorted(without)), tuple(sorted(groups)) if groups is not None else None,
               prog is self.bin)
        r = self.cache.get(key)
        if r is None:
            p = prog or self.prog
            i = Interp(p, opaque=summaries.make(p, f["path"], groups, without))
            i.deadline = time.time() + self.budget
            i.run_root(f)
            i.fn = f
            r = self.cache[key] = i
        return r

    # ------------------------------------------------ call graph
    def callgraph(self, prog=None):
        prog = prog or self.prog
        g = {}
        for f in prog.fns.values():
            g[f["id"]] = list(calls_of(prog, f))
        return g

    def reachable(self, roots, prog=None):
        prog = prog or self.prog
        g = self.callgraph(prog)
        seen = {}
        st = [(r["id"], None) for r in roots]
        while st:
            x, via = st.pop()
            if x in seen:
                continue
            seen[x] = via
            for c in g.get(x, ()):
                for y in c["targets"]:
                    if y in prog.fns and y not in seen:
                        st.append((y, x))
        return seen


def closure_ids(f):
    pass


def calls_of(prog, f):
    """calls, function references and closures mentioned in f: {name, targets, span, callee}"""
    for b in f["blocks"]:
        if b["cleanup"]:
            continue
        t = b["t"]
        if t["k"] == "call":
            c = t["f"].get("fn")
            if c is not None:
                yield {"name": c.get("rdef") or c["def"], "def": c["def"], "targets": targets(prog, c), "span": t["sp"], "callee": c,
                       "args": t["args"], "kind": "call"}
            for a in t["args"]:
                yield from fnrefs(prog, a, t["sp"])
        for s in b["s"]:
            yield from fnrefs(prog, s, s.get("sp") if isinstance(s, dict) else None)


def targets(prog, c):
    """functions of the crate a call may reach"""
    rid = c.get("rid")
    if rid in prog.fns or c["id"] in prog.fns:
        return [rid if rid in prog.fns else c["id"]]
    out = [rid or c["id"]]
    m, tr = c.get("method"), c.get("trait")
    if tr and not rid:
        # unresolved (generic) trait call: any implementation in the crate
        out += [g["id"] for (t, n, a), g in prog.impls.items() if t == tr and n == m]
    # standard blanket impls that forward to a trait of the type
    ta = [prog.tys(a) for a in c.get("targs", [])]
    if m == "into" and len(ta) >= 2:
        out += [g["id"] for (t, n, a), g in prog.impls.items() if n == "from" and list(a) == [ta[1], ta[0]]]
    elif m == "to_string" and ta:
        out += [g["id"] for (t, n, a), g in prog.impls.items() if n == "fmt" and t.endswith("::Display") and a[0] == ta[0]]
    elif m == "extend" or m == "collect" or m == "sum":
        pass
    elif (c["def"].startswith(("core::fmt", "std::fmt")) or "fmt::rt" in c["def"]) and ta:
        tr = "::Debug" if "debug" in c["def"] else "::Display"
        out += [g["id"] for (t, n, a), g in prog.impls.items() if n == "fmt" and t.endswith(tr) and a[0] == ta[0]]
    return out


def fnrefs(prog, x, sp):
    """function items and closures mentioned inside a statement"""
    if isinstance(x, dict):
        if "fn" in x and isinstance(x["fn"], dict) and "def" in x["fn"]:
            c = x["fn"]
            yield {"name": c.get("rdef") or c["def"], "def": c["def"], "targets": targets(prog, c), "span": sp, "callee": c,
                   "args": [], "kind": "ref"}
        if x.get("k") == "agg" and x.get("ak") == "closure":
            yield {"name": "closure", "def": "closure", "targets": [x.get("def")], "span": sp, "callee": x, "args": [], "kind": "closure"}
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from fnrefs(prog, v, sp)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from fnrefs(prog, v, sp)


# ---------------------------------------------------------------- values
def canon(t, memo=None):
    """normal form used to compare values: sign tests resolved, string references dropped"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "ite":
            r = dec_fix(ite(cond(go(x.args[0])), go(x.args[1]), go(x.args[2])))
        elif x.op in ("c", "null", "bottom", "param", "bv", "acc"):
            r = x
        elif not x.args:
            r = x
        else:
            na = tuple(go(a) for a in x.args)
            r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
            if r.op == "dec.nabs":
                pass
        memo[x.id] = r
        return r
    return go(t)


def inside_exits(c):
    """c, with what held in the pass a loop was left in"""
    for a in list(support(c)):
        if a.op == "exit" and implies(c, cond(a)):
            c = AND(c, a.args[1])
    return c


def facts(*ts):
    """what is known about the tests of strings that occur in ts"""
    r = TRUE
    seen = set()
    tests = {}
    for t in ts:
        for a in support(t):
            if a.op in ("chis", "lt", "eq") and a.id not in seen:
                x = char_reps(a)
                if x is not None:
                    tests.setdefault(x[0], {})[a] = x[1]
    for ch, ats in tests.items():
        if sum(a.op != "eq" for a in ats) < 2:
            continue        # (pairs of tests are related by the diagrams themselves)
        combos = {tuple((a, c in s) for a, s in ats.items()) for c in REPS}
        any_ = FALSE
        for k in combos:
            x = TRUE
            for a, v in k:
                x = AND(x, cond(a) if v else NOT(cond(a)))
            any_ = OR(any_, x)
        r = AND(r, any_)
    for t in ts:
        for a in support(t):
            if a.id in seen:
                continue
            seen.add(a.id)
            if a.op == "hasnonws":
                x = a.args[0]
                if x.op in ("from", "after"):
                    r = AND(r, OR(NOT(cond(a)), cond(mk_exists(chars(x.args[0]), x.args[1]))))
                if x.op in ("slice", "upto", "from", "after"):
                    r = AND(r, OR(NOT(cond(a)), cond(nonempty(trim_start(x.args[0])))))
                else:
                    r = AND(r, OR(NOT(cond(a)), cond(nonempty(x))))
            elif a.op == "nonempty" and a.args[0].op in ("from", "after", "slice", "upto"):
                r = AND(r, OR(NOT(cond(a)), cond(nonempty(a.args[0].args[0]))))
            elif a.op == "lt" and a.args[0].op == "c" and a.args[1].op == "len" and a.args[1].args[0].op == "chars":
                r = AND(r, OR(NOT(cond(a)), cond(nonempty(a.args[1].args[0].args[0]))))
            elif a.op == "exists" and a.args[0].op == "chars":
                r = AND(r, OR(NOT(cond(a)), cond(nonempty(a.args[0].args[0]))))
    return r


def same(a, b, pc=TRUE):
    if a is b or equal(a, b, pc):
        return True
    f = facts(a, b, pc)
    return f is not TRUE and equal(a, b, AND(pc, f)) or bycases(a, b, pc)


def bycases(a, b, pc, depth=2):
    """equal whether or not some searched character occurs, a text without it being known to be one piece"""
    ats = [x for x in support(a) ^ support(b) if x.op == "hasnonws" or x.op == "exists" and x.args[0].op == "chars"]
    for x in support(a) ^ support(b):
        for u in subterms(x):
            if u.op == "upto":
                e = norm.mk_exists(chars(u.args[0]), u.args[1])
                if e.op == "ite" and e.args[0].op == "exists" and e.args[0] not in ats:
                    ats.append(e.args[0])
    if depth == 0 or not ats or len(ats) > 4:
        return False
    for x in ats:
        no = AND(pc, NOT(cond(x)))
        no = AND(no, norm.reduce_false(no, x))
        ra, rb = (norm.reduce_false(cofactor(t, x, False), x) for t in (a, b))
        yes = AND(pc, cond(x))
        ta, tb = cofactor(a, x, True), cofactor(b, x, True)
        if (no is FALSE or equal(ra, rb, no) or bycases(ra, rb, no, depth - 1)) and \
                (yes is FALSE or equal(ta, tb, yes) or bycases(ta, tb, yes, depth - 1)):
            return True
    return False


def equal(a, b, pc=TRUE):
    if a is b:
        return True
    a, b = canon(simp(a, pc)), canon(simp(b, pc))
    if a is b:
        return True
    return canon(simp(a, pc)) is canon(simp(b, pc))


def heap(i, r):
    """value behind reference r when the root returns"""
    return i.load_ref(i.out, r)


def fields(t):
    return dict(zip(t.args[2], t.args[3:])) if t.op == "agg" else None


def fldval(t, name):
    return proj(t, ("f", name))


def atoms(t):
    return sorted(support(t), key=lambda a: a.id)


def eval_world(t, w):
    """value of a diagram when w(atom) gives the truth of each atom (None: unknown)"""
    while t.op == "ite":
        v = w(t.args[0])
        if v is None:
            return None
        t = t.args[1] if v else t.args[2]
    return t


def loc(f):
    return "%s" % f["path"]


# ---------------------------------------------------------------- effects on fields
def base_name(s):
    """struct name of a type string, without references and generics"""
    s = s.replace("&mut ", "").replace("&", "").replace("*const ", "").replace("*mut ", "")
    return s.split("<")[0].split("::")[-1].strip()


def place_fields(prog, f, p):
    """[(owner type, field)] of the field steps of a MIR place"""
    t = f["locals"][p["l"]][0]
    out = []
    for s in p["p"]:
        if s[0] == ".":
            out.append((base_name(prog.tys(t)), s[1]))
            t = s[3]
        elif s[0] == "*":
            t = s[1]
            out.append(("*", "*"))
        else:
            t = s[-1] if isinstance(s[-1], int) else t
    return out


def mutations(prog, f):
    """(kind, place, span) of every place a function assigns or borrows mutably"""
    for b in f["blocks"]:
        if b["cleanup"]:
            continue
        for s in b["s"]:
            if "p" not in s or "r" not in s:
                continue
            yield "assign", s["p"], s["sp"]
            r = s["r"]
            if r["k"] in ("ref", "addr", "rawptr", "raw") and r.get("mut"):
                yield "borrow", r["p"], s["sp"]
        if b["t"]["k"] == "call" and b["t"].get("dest"):
            yield "assign", b["t"]["dest"], b["t"]["sp"]


def live(prog):
    """ids of the functions that can run: exported ones, trait impls and all they mention"""
    r = getattr(prog, "_live", None)
    if r is None:
        st = [f["id"] for f in prog.fns.values() if f.get("exported") or f.get("pub") or f.get("trait") or f.get("name") == "main"]
        r = set()
        inner = {}
        for y in prog.fns:
            if "::{closure#" in y:
                inner.setdefault(y.rpartition("::{closure#")[0], []).append(y)
        while st:
            x = st.pop()
            if x in r or x not in prog.fns:
                continue
            r.add(x)
            for c in calls_of(prog, prog.fns[x]):
                st += [y for y in c["targets"] if y not in r]
            st += inner.get(x, ())
        prog._live = r
    return r


def writers(prog, owner, field):
    """functions that assign or mutably borrow owner.field: {path: [span]}"""
    out = {}
    alive = live(prog)
    for f in prog.fns.values():
        if f["id"] not in alive:
            continue
        for k, p, sp in mutations(prog, f):
            fs = [x for x in place_fields(prog, f, p) if x[0] != "*"]
            if (owner, field) in fs:
                out.setdefault(f["path"], []).append((k, sp, len(fs) - 1 - fs.index((owner, field))))
    return out


def callers_of(prog):
    out = {}
    for f in prog.fns.values():
        for c in calls_of(prog, f):
            for t in c["targets"]:
                if t in prog.fns:
                    out.setdefault(prog.fns[t]["path"], set()).add(f["path"])
    return out


def confined(ck, rule, owner, field, seen, roots=()):
    """owner.field is written only by functions analysed under the rule's roots, and those that are
    not roots themselves are called only from there"""
    cs = callers_of(ck.ctx.prog)
    for w, sp in writers(ck.ctx.prog, owner, field).items():
        ck.ob(rule, w, w in seen, "writes %s.%s at %s" % (owner, field, sp[0][1]))
        st, done = [w], set()
        while st:
            x = st.pop()
            if x in done or x in roots:
                continue
            done.add(x)
            for c in cs.get(x, ()):
                ck.ob(rule, "%s calls %s" % (c, x), c in seen, "reaches a write of %s.%s" % (owner, field))
                st.append(c)


def has_phi(*ts):
    return any(x.op == "phi" for t in ts if t is not None for x in subterms(t))


REMOVERS = {"pop", "remove", "swap_remove", "truncate", "clear", "drain", "retain", "retain_mut", "dedup", "dedup_by", "dedup_by_key",
            "split_off", "set_len", "extract_if", "pop_if", "remove_entry", "into_boxed_slice", "splice", "resize", "resize_with",
            "remove_node", "remove_edge", "retain_nodes", "retain_edges", "clear_edges", "take", "replace", "swap", "pop_front", "pop_back",
            "into_iter", "split_first_mut", "reverse", "rotate_left", "rotate_right", "fill", "fill_with", "drop_in_place", "drop", "from_raw"}
ADDERS = {"push", "insert", "append", "extend", "extend_from_slice", "push_within_capacity", "entry", "push_back", "push_front", "extend_from_within"}


STORED = ("post::Post", "xact::Xact", "account::Account", "commodity::Commodity")


def stores_objects(t):
    """does a container with this element type hold journal objects (by value, boxed or linked)?"""
    t = t.replace("std::boxed::Box<", "").replace("*const ", "").replace("*mut ", "").rstrip(">")
    return t in STORED


def removals(prog):
    """(function, method, span) of calls that can take an object out of the journal's containers,
    move it, or replace it"""
    for f in prog.fns.values():
        for c in calls_of(prog, f):
            d, m = c["name"], c["name"].split("::")[-1]
            ta = [prog.tys(a) for a in c["callee"].get("targs", [])]
            hold = any(stores_objects(t) for t in ta)
            if m in REMOVERS and hold and d.startswith(("std::vec::Vec::", "std::collections::", "core::slice::", "std::slice::", "petgraph::",
                                                        "std::collections::hash_map", "indexmap", "alloc::", "hashbrown::")):
                yield f, m, ta, c["span"]
            elif d.startswith(("std::mem::", "core::mem::", "std::ptr::", "core::ptr::", "std::option::Option::<T>::take", "std::option::Option::<T>::replace")) and \
                    m in ("swap", "replace", "take", "drop", "forget", "write", "read", "drop_in_place", "copy", "copy_nonoverlapping", "transmute", "zeroed") and \
                    any(any(s in t for s in STORED) and not t.startswith(("&", "*")) for t in ta):
                yield f, m, ta, c["span"]
            elif m in ("into_iter", "drain") and ta and ta[0].startswith(("std::vec::Vec<", "std::collections::HashMap<")) and \
                    any(s in ta[0] for s in STORED) and "&" not in ta[0] and "*" not in ta[0]:
                yield f, m, ta, c["span"]


def additions(prog, elem):
    """(function, method, span) of calls that add an element of exactly type elem to a vector"""
    for f in prog.fns.values():
        for c in calls_of(prog, f):
            d, m = c["name"], c["name"].split("::")[-1]
            ta = [prog.tys(a) for a in c["callee"].get("targs", [])]
            if m in ADDERS and ta and ta[0] == elem and d.startswith("std::vec::Vec"):
                yield f, m, c["span"]


# ---------------------------------------------------------------- same commodity
def commodity_eq(c, a, b):
    """is condition c, over the commodity links a and b, equivalent to 'same commodity'?
    Decided on the four possible situations of two links (identity and symbol equality agree,
    which is property C09).  Returns True/False/None."""
    res = True
    for na, nb, e in ((True, True, True), (True, False, False), (False, True, False), (False, False, True), (False, False, False)):
        def w(at):
            if at.op == "isnull" and at.args[0] is a:
                return na
            if at.op == "isnull" and at.args[0] is b:
                return nb
            if at.op == "eq":
                x, y = (strip_content(z) for z in at.args)
                if {x, y} == {a, b} and x is not y:
                    return e
                if x is y:
                    return True
            return None
        v = eval_world(c, w)
        if v is None:
            return None
        if (v is TRUE) != e:
            res = False
    return res


def strip_content(x):
    """commodity content or symbol -> the link itself"""
    while True:
        if x.op == "deref":
            x = x.args[0]
        elif x.op == "f" and x.args[1] in ("symbol", "graph_index"):
            x = x.args[0]
        elif x.op == "ref" and x.args[0][0] == "H" and not x.args[1]:
            x = x.args[0][1]
        else:
            return x


# ---------------------------------------------------------------- obligations
PLUMBING = ("core::slice::", "std::slice::", "core::iter", "std::iter::", "core::option::", "std::option::", "core::result::", "std::result::",
            "core::bool::", "std::vec::Vec::", "std::collections::", "core::array::", "std::array::", "std::ops::", "core::ops::", "std::env::Args")


def structural_call(n):
    """an operation that arranges values (and has no model), as opposed to one that computes or removes some"""
    m = n.split("::")[-1]
    n = n.lstrip("<")
    return m not in REMOVERS and m not in ("skip", "skip_while", "take_while", "step_by", "nth") and n.startswith(PLUMBING)


class Check:
    def __init__(self, pid, ctx):
        self.pid, self.ctx = pid, ctx
        self.obs = []
        self.und = []
        self.counts = {}
        self.seen = set()
        self.unk = set()

    def ob(self, rule, where, ok, detail="", key=None):
        """one obligation: rule applied at a construct"""
        odd = sorted(n for n in self.unk if structural_call(n)) if not ok else None
        if odd:
            # the value went through a library operation on sequences or options that has no model
            self.undecided(rule, where, "depends on %s" % odd[0])
            return ok
        self.obs.append({"rule": rule, "where": where, "ok": bool(ok), "detail": detail,
                         "key": key or "%s @ %s" % (rule, where)})
        return ok

    def undecided(self, rule, where, why):
        self.und.append({"rule": rule, "where": where, "why": why})

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def analysed(self, i):
        self.seen |= set(i.seen_fns)
        self.count("roots")
        self.unk |= set(i.unknown)
        if os.environ.get("VERIF_UNKNOWN"):
            with open(os.environ["VERIF_UNKNOWN"], "a") as fh:
                fh.write("".join(n + "\n" for n in i.unknown))
        return i

    def run(self, f, **kw):
        return self.analysed(self.ctx.run(f, **kw))

    def part(self, rule, f, want):
        """run a rule group of another property, keeping the obligations that this property implies"""
        self.group(rule, f, _part=want)

    def group(self, rule, f, *a, _part=None):
        """run a sub-rule; a missing anchor or an analysis failure leaves it undecided"""
        if _part is not None:
            sub = type(self)(self.pid, self.ctx)
            sub.group(rule, f, *a)
            self.obs += [dict(o, rule="%s: %s" % (rule, o["rule"])) for o in sub.obs if _part(o["rule"], o["where"])]
            self.seen |= sub.seen
            for u in sub.und:
                self.undecided(rule, u["where"], u["why"])
            return
        self.unk = set()
        try:
            f(self, *a)
        except Missing as e:
            self.undecided(rule, getattr(f, "__name__", "?"), "anchor missing: %s" % e)
        except (AnalysisError, RecursionError) as e:
            self.undecided(rule, getattr(f, "__name__", "?"), "%s: %s" % (type(e).__name__, str(e)[:300]))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(rule, getattr(f, "__name__", "?"), "%s: %s (%s:%s)" % (
                type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()


def known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: "):
                pid, key = l[len("known: property="):].split(" ", 1)
                key, _, what = key.partition(" :: ")
                out.setdefault(pid, {})[key] = what or key
    return out


def hidden_state(ck, names):
    """[(static, function, span, kept)] uses, in the named functions, of statics that can change while the program
    runs; kept: set once (a cache of something constant)"""
    prog = ck.ctx.prog
    st = {x["path"]: x for d in ck.ctx.dump.values() for x in d.get("statics", []) if x["mut"] or not x["freeze"]}
    out = []

    def consts(x):
        if isinstance(x, dict):
            if "static" in x:
                yield x["static"]
            for v in x.values():
                yield from consts(v)
        elif isinstance(x, list):
            for v in x:
                yield from consts(v)
    for n in names:
        f = prog.fns.get(n) or prog.by_path.get(n)
        if f is None:
            continue
        for b in f["blocks"]:
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                for c in consts(s):
                    if c in st:
                        once = any(w in st[c]["ty"] for w in ("LazyLock", "OnceLock", "OnceCell", "LazyCell")) and not \
                            any(w in st[c]["ty"] for w in ("Mutex", "RwLock", "Atomic", "RefCell", "::Cell<"))
                        out.append((c, f["path"], s.get("sp"), once))
            for c in consts(b.get("t") or {}):
                if c in st:
                    out.append((c, f["path"], "", False))
        for c in calls_of(prog, f):
            if "thread::LocalKey" in c["name"]:
                out.append(("a thread-local variable", f["path"], c["span"], False))
    return out
