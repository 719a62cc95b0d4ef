"""Context-sensitive value-flow analysis of MIR.

Every function is analysed from its MIR with its callees in the crate inlined (recursion is
cut at the second activation).  The abstract state is a store: base object -> value term,
plus the path condition `pc` (a decision diagram over guard atoms).  Branches fork the state,
joins merge values into gated terms, loops are solved by iterating from the optimistic
assumption and generalising (anti-unification) changed positions to phi terms.
Calls into other crates are modelled in models.py; unknown ones give opaque terms and havoc
what they could write through &mut arguments."""
import sys
import time
from terms import *
import norm
from norm import *


class Event:
    __slots__ = ("kind", "callee", "args", "pc", "loops", "span", "fn", "stack", "extra", "seq", "res")

    def __init__(self, kind, callee, args, st, fr, span, extra=None):
        self.kind, self.callee, self.args = kind, callee, args
        self.pc, self.loops = st.pc, st.loops
        self.span = span
        self.fn = fr.fn["path"] if fr else None
        self.stack = fr.callstack() if fr else ()
        self.extra = extra
        self.res = None

    def where(self):
        return "%s (%s)" % (self.span, self.fn)

    def __repr__(self):
        return "<%s %s %s | pc=%s @%s>" % (self.kind, self.callee, [show(a, 6) if isinstance(a, T) else a for a in self.args],
                                          show(self.pc, 5), self.span)


class State:
    __slots__ = ("store", "pc", "loops")

    def __init__(self, store=None, pc=TRUE, loops=()):
        self.store = store if store is not None else {}
        self.pc = pc
        self.loops = loops

    def copy(self, pc=None):
        return State(dict(self.store), self.pc if pc is None else pc, self.loops)


class Frame:
    __slots__ = ("fn", "fid", "parent", "span", "base", "args")

    def __init__(self, fn, fid, parent, span):
        self.fn, self.fid, self.parent, self.span = fn, fid, parent, span

    def callstack(self):
        r = []
        f = self
        while f is not None:
            r.append(f.fn["path"])
            f = f.parent
        return tuple(reversed(r))

    def has(self, fnid):
        f = self
        while f is not None:
            if f.fn["id"] == fnid:
                return True
            f = f.parent
        return False


def few_items(v):
    """how many items an iterator standing at the start of an option or a short list has at most"""
    while v.op == "it" and v.args[0] in ("map", "filter", "filter_map", "enum", "copied", "peek", "by_ref", "inspect", "rev"):
        v = v.args[1]
    if v.op == "it" and v.args[0] == "val" and v.args[2] is ZERO:
        if v.args[1].op == "optseq":
            return 1
        if v.args[1].op == "agg" and v.args[1].args[0] == "array":
            return len(v.args[1].args[2]) if len(v.args[1].args[2]) <= 4 else 0
    return 0


class Loop:
    """a solved loop"""

    def __init__(self, key, fn, span):
        self.key, self.fn, self.span = key, fn, span
        self.init = {}      # phi term -> value before the loop
        self.next = {}      # phi term -> value after one pass (gated)
        self.cont = FALSE   # condition (within one pass) to go round again
        self.exits = []     # [(condition, kind)]
        self.outer = ()
        self.entry_pc = TRUE
        self.span_set = set()


class AnalysisError(Exception):
    pass


class Budget(AnalysisError):
    pass


class Program:
    def __init__(self, dump):
        self.types = dump["types"]
        self.fns = {f["id"]: f for f in dump["fns"]}
        self.by_path = {}
        for f in dump["fns"]:
            self.by_path.setdefault(f["path"], f)
        self.adts = {a["path"]: a for a in dump["adts"]}
        norm.ADT.update(self.adts)
        self.crate = dump["crate"]
        for f in dump["fns"]:
            self.prepare(f)
        # trait impls: (trait path, self type string, trait args) -> fns
        self.impls = {}
        for f in dump["fns"]:
            if f.get("trait"):
                key = (f["trait"], f["name"], tuple(self.types[a]["s"] for a in f["trait_args"]))
                self.impls[key] = f

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]["s"]

    def newtype(self, t):
        """tuple structs of the crate with one field are transparent (Quantity(d) is d)"""
        if t["k"] != "adt":
            return False
        return self.newtype_path(t["path"])

    def newtype_path(self, p):
        a = self.adts.get(p)
        return bool(a and a["local"] and a["kind"] == "struct" and [f["name"] for f in a["variants"][0]["fields"]] == ["0"])

    # -------------------------------------------------- CFG
    def succs(self, b):
        t = b["t"]
        k = t["k"]
        if k == "goto" or k == "drop" or k == "assert":
            return [t["t"]]
        if k == "switch":
            return [x[1] for x in t["vals"]] + [t["else"]]
        if k == "call":
            return [t["t"]] if t["t"] is not None else []
        return []

    def prepare(self, f):
        blocks = f["blocks"]
        n = len(blocks)
        succ = [[] if b["cleanup"] else self.succs(b) for b in blocks]
        # reverse post order
        order, seen = [], set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            v, it = st[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    st.append((w, iter(succ[w])))
                    break
            else:
                order.append(v)
                st.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                if b not in preds[s]:
                    preds[s].append(b)
        # blocks from which the function can return
        ro = {b for b in order if blocks[b]["t"]["k"] == "return"}
        work = list(ro)
        while work:
            x = work.pop()
            for p in preds[x]:
                if p not in ro:
                    ro.add(p)
                    work.append(p)
        f["_retok"] = ro
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while rpo[x] > rpo[y]:
                                    x = idom[x]
                                while rpo[y] > rpo[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if rpo[s] <= rpo[b]:
                    if not dom(s, b):
                        f["irreducible"] = True
                        continue
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(preds[x])
        f["_succ"], f["_rpo"], f["_order"], f["_loops"], f["_preds"] = succ, rpo, order, loops, preds

    def find(self, path):
        return self.by_path.get(path)


class Interp:
    MAXSTEPS = 400000

    def __init__(self, prog, opaque=None, models=None):
        import models as M
        M._TYPES[0] = prog.types
        self.prog = prog
        self.opaque = opaque or {}      # fn path -> handler or None (treat as unknown)
        self.M = M
        self.events = []
        self.deadline = None
        self.loops = {}                 # key -> Loop
        self.loopstack = []             # python-level stack of active loop contexts
        self.gstore = {}                # promoted constants
        self.seen_fns = set()
        self.steps = 0
        self.nbv = 0
        self.silent = 0
        self.calls = 0
        self.unknown = {}
        self.boxrefs = set()            # local boxes whose contents have been pointed to

    # ------------------------------------------------------------ events
    def event(self, kind, callee, args, st, fr, span, extra=None):
        e = Event(kind, callee, args, st, fr, span, extra)
        e.seq = len(self.events)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ memory
    def base_value(self, st, base):
        v = st.store.get(base)
        if v is None:
            k = base[0]
            if k == "H":
                v = base[1] if base[1].op == "bytes" else mk("deref", base[1])
            elif k == "V":
                v = base[1]
            elif k == "P":
                v = self.gstore.get(base)
                if v is None:
                    v = mk("promoted", *[str(x) for x in base[1:]])
            else:
                v = mk("uninit", *[str(x) for x in base[1:]])
        return v

    def load(self, st, base, path):
        return projs(self.base_value(st, base), path)

    def store(self, st, base, path, val, fr=None, span=None):
        if val is BOT:
            return
        whole = self.base_value(st, base)
        st.store[base] = update(whole, path, val)
        if base[0] == "H" and fr is not None:
            self.event("store", None, [mk("ref", base, path), val], st, fr, span, projs(whole, path))

    def load_ref(self, st, r):
        """value behind a reference term"""
        if r.op == "ite":
            return apply(None, lambda x: self.load_ref(st, x), r)
        if r.op == "ref":
            return self.load(st, r.args[0], r.args[1])
        if r is BOT:
            return BOT
        if r is NULL:
            return BOT
        return self.load(st, ("H", r), ())

    def store_ref(self, st, r, val, fr=None, span=None, path=()):
        """*r.path = val (conditional on which object r is)"""
        if r.op == "ite":
            for c, leaf in leaves(r):
                if leaf is NULL or leaf is BOT:
                    continue
                old = self.load(st, *self.place_of(leaf, path))
                self.store(st, *self.place_of(leaf, path), ite(c, val, old), fr, span)
            return
        if r is NULL or r is BOT:
            return
        self.store(st, *self.place_of(r, path), val, fr, span)

    def place_of(self, r, path=()):
        if r.op == "ref":
            return r.args[0], r.args[1] + tuple(path)
        return ("H", r), tuple(path)

    def ref_step(self, r, *steps):
        """reference to a part of what r points to"""
        if r.op == "ite":
            return apply(None, lambda x: self.ref_step(x, *steps), r)
        if r is BOT or r is NULL:
            return BOT
        for i, s in enumerate(steps):
            if s[0] == "e" and s[1].op == "ite":
                return apply(None, lambda x: self.ref_step(r, *steps[:i], ("e", x), *steps[i + 1:]), s[1])
        b, p = self.place_of(r)
        if b[0] == "L" and not p and steps and steps[0] == ("b",):
            self.boxrefs.add(b)
        return mk("ref", b, p + tuple(steps))

    def is_box_move(self, fr, o):
        """base of the local box that operand o moves away, if the address of its contents was taken"""
        if o.get("k") == "move" and not o["p"]["p"] and self.prog.types[o["p"]["t"]].get("path") == "std::boxed::Box":
            b = ("L", fr.fid, o["p"]["l"])
            return b if b in self.boxrefs else None
        return None

    def rebox(self, st, base, new):
        """the box at base has moved: pointers to its contents now point into the new place"""
        old = mk("ref", base, (("b",),))
        memo = {}
        for b in list(st.store):
            v = st.store[b]
            if contains(v, lambda x: x is old):
                st.store[b] = subst(v, {old: new}, rebuild, memo)

    # ------------------------------------------------------------ places
    def place_ref(self, st, fr, p, span=None):
        """the address of a MIR place as a reference term; None-typed &str handled by value"""
        r = mk("ref", ("L", fr.fid, p["l"]), ())
        cty = fr.fn["locals"][p["l"]][0]
        for e in p["p"]:
            k = e[0]
            own, cty = cty, None
            if k == "*":
                t = self.prog.types[e[1]]
                if t["k"] == "adt":          # Box
                    r = self.ref_step(self.unalias_box(st, r), ("b",))
                    cty = t["args"][0] if t.get("args") else None
                    continue
                cty = t.get("t")
                inner = self.prog.types[t["t"]] if "t" in t else None
                v = self.load_ref(st, r)
                if inner is not None and inner["k"] == "str":
                    # the str itself: keep the place of the reference; value is the string
                    continue
                if t["k"] == "ptr":
                    self.event("rawderef", None, [v], st, fr, span, extra=inner["s"] if inner else None)
                    if v.op == "ite" or v is NULL:
                        nn = NOT(is_null(v))
                        if nn is not TRUE and nn is not FALSE:
                            v = restrict(v, nn)
                r = apply(None, lambda x: x if x.op == "ref" or x in (BOT, NULL) else mk("ref", ("H", x), ()), v)
            elif k == ".":
                cty = e[3]
                ot = self.prog.types[own] if own is not None else None
                if ot is not None and ot["k"] == "adt" and ot["path"] == "std::boxed::Box":
                    # the pointer inside a Box: as a value, a reference to the content
                    r = apply(None, lambda x: mk("ref", ("V", self.ref_step(x, ("b",))), ()), self.unalias_box(st, r))
                    continue
                if ot is not None and ot["k"] == "adt" and ot["path"] in ("std::ptr::Unique", "std::ptr::NonNull", "core::ptr::unique::Unique"):
                    continue
                if own is None or not self.prog.newtype(self.prog.types[own]):
                    r = self.ref_step(r, ("f", e[1]))
            elif k == "as":
                r = self.ref_step(r, ("v", e[1]))
            elif k == "[]":
                i = self.load(st, ("L", fr.fid, e[1]), ())
                r = apply(None, lambda x: self.ref_step(r, ("e", x)), i)
            elif k == "c[]":
                if e[3]:
                    s = mk("last") if e[1] == 1 else mk("fromend", e[1])
                else:
                    s = const(e[1])
                r = self.ref_step(r, ("e", s))
            elif k == "sub":
                lo = const(e[1])
                hi = mk("fromend", e[2]) if e[3] else const(e[2])
                if e[3] and e[2] == 0:
                    hi = NULL
                r = self.ref_step(r, ("sl", lo, hi))
            else:
                raise AnalysisError("projection %r" % (e,))
        return r

    def unalias_box(self, st, r):
        """r: place of a Box; boxes are copied to a temporary before they are dereferenced"""
        def one(x):
            if x.op != "ref" or x.args[0][0] != "L" or x.args[1]:
                return x
            v = self.load_ref(st, x)
            if contains_alias(v):
                return apply(None, lambda y: y.args[0] if y.op == "boxat" else BOT, v)
            return x
        return apply(None, one, r)

    def read_place(self, st, fr, p, span=None):
        return self.load_ref(st, self.place_ref(st, fr, p, span))

    def write_place(self, st, fr, p, val, span=None):
        if not p["p"]:
            st.store[("L", fr.fid, p["l"])] = val
            return
        r = self.place_ref(st, fr, p, span)
        self.store_ref(st, r, val, fr, span)

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o, span=None):
        k = o["k"]
        if k in ("copy", "move"):
            return self.read_place(st, fr, o["p"], span)
        if k == "rtcheck":
            return FALSE
        t = self.prog.types[o["ty"]]
        if "fn" in o:
            key = o["fn"].get("rid") or o["fn"]["id"]
            self.M.FNTAB[id(o["fn"])] = o["fn"]
            return mk("fn", self.M.fnkey(o["fn"]))
        if "promoted" in o:
            return self.promoted(fr, o)
        if "int" in o:
            if t["k"] == "bool":
                return TRUE if o["int"] else FALSE
            if t["k"] == "char":
                return mk("c", "char", chr(o["int"]))
            if t["k"] == "int":
                return const(o["int"])
            if t["k"] == "ptr":
                return NULL if o["int"] == 0 else mk("intptr", o["int"])
            if t["k"] == "adt":
                adt = self.prog.adts.get(t["path"])
                if adt and adt["kind"] == "enum":
                    for v in adt["variants"]:
                        if v["disc"] == o["int"] and not v["fields"]:
                            return agg(t["path"], v["name"], (), ())
            return mk("c", t["s"], o["int"])
        if "str" in o:
            return cstr(o["str"])
        if "bytes" in o:
            return mk("bytes", tuple(o["bytes"]))
        if "lit" in o:
            v = self.literal(o["lit"])
            if v is not None:
                return v
        if "static" in o:
            return mk("static", o["static"])
        if t["k"] == "tuple" and not t["ts"]:
            return UNIT
        if o.get("zst"):
            if t["k"] == "closure":
                return mk("agg", "closure", t["id"], ())
            if t["k"] == "adt":
                adt = self.prog.adts.get(t["path"])
                if adt and adt["kind"] == "struct":
                    return agg(t["path"], "", (), ())
            return mk("zst", t["s"])
        if "item" in o:
            return mk("citem", o["item"], t["s"])
        return mk("cother", o.get("txt", "?"), t["s"])

    def literal(self, o):
        """term of an evaluated constant"""
        t = self.prog.types[o["ty"]]
        if "ref" in o:
            v = self.literal(o["ref"])
            if v is None:
                return None
            base = ("P", "lit:%d" % v.id)
            self.gstore[base] = v
            return mk("ref", base, ())
        if "fields" not in o:
            return self.operand(None, None, o)
        fs = [self.literal(x) for x in o["fields"]]
        if any(x is None for x in fs):
            return None
        if t["k"] == "tuple":
            return tup(*fs) if fs else UNIT
        if t["k"] == "array":
            return array(*fs)
        if t["k"] != "adt":
            return None
        if t["path"].startswith("rust_decimal") and t["path"].endswith("Decimal"):
            return decimal_literal(dict(zip(o["names"], o["fields"])))
        if t["path"] == "chrono::NaiveTime":
            f = dict(zip(o["names"], o["fields"]))
            n = f.get("secs", {}).get("int")
            return mk("time", n // 3600, n // 60 % 60, n % 60) if n is not None and f.get("frac", {}).get("int") == 0 else None
        if self.prog.newtype_path(t["path"]):
            return fs[0]
        adt = self.prog.adts.get(t["path"])
        if not adt or not (adt.get("local") or t["path"] == "std::option::Option"):
            return None
        return agg(t["path"], o.get("variant", ""), o["names"], fs)

    def promoted(self, fr, o):
        base = ("P", o["of"], o["promoted"])
        if base not in self.gstore:
            f = self.prog.fns.get(o["of"])
            if f is None or o["promoted"] >= len(f["promoted"]):
                return mk("promoted", o["of"], o["promoted"])
            b = f["promoted"][o["promoted"]]
            fake = {"path": f["path"], "id": f["id"] + "#p%d" % o["promoted"], "blocks": b["blocks"], "locals": b["locals"],
                    "argc": 0, "promoted": []}
            self.prog.prepare(fake)
            pf = Frame(fake, ("P", o["of"], o["promoted"]), None, None)
            st = State()
            ne = len(self.events)
            outs = self.run_body(fake, pf, st)
            del self.events[ne:]
            v = self.load(outs, ("L", pf.fid, 0), ()) if outs is not None else BOT
            # copy the reachable temporaries into global storage
            for b2, val in outs.store.items():
                self.gstore[("P",) + (str(b2),)] = val

            def fix(x):
                if isinstance(x, tuple):
                    return tuple(fix(y) for y in x)
                if isinstance(x, T):
                    if x.op == "ref" and x.args[0][0] == "L":
                        return mk("ref", ("P", str(x.args[0])), fix(x.args[1]))
                    if x.args and x.op not in ("c",):
                        return mk(x.op, *[fix(a) for a in x.args])
                return x
            for kk in list(self.gstore):
                if len(kk) == 2:
                    self.gstore[kk] = fix(self.gstore[kk])
            self.gstore[base] = fix(v)
        return self.gstore[base]

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, span, destty=None):
        k = r["k"]
        if k == "use":
            a = r["a"]
            if a["k"] == "copy" and self.prog.types[a["p"]["t"]].get("path") == "std::boxed::Box":
                return apply(None, lambda x: mk("boxat", x), self.place_ref(st, fr, a["p"], span))
            return self.operand(st, fr, a, span)
        if k in ("ref", "rawptr"):
            p = r["p"]
            t = self.prog.types[p["t"]]
            ref = self.place_ref(st, fr, p, span)
            if t["k"] == "str":
                return self.load_ref(st, ref)
            if k == "ref" and p["p"] and p["p"][-1][0] == "*":
                self.event("mkref", None, [ref], st, fr, span, extra=t["s"])
            return ref
        if k == "bin":
            a = self.operand(st, fr, r["a"], span)
            b = self.operand(st, fr, r["b"], span)
            return self.binop(r["op"], a, b)
        if k == "un":
            a = self.operand(st, fr, r["a"], span)
            if r["op"] == "Not":
                if a.op == "c" and a.args[0] == "int":
                    return const(~a.args[1])
                return NOT(cond(a))
            if r["op"] == "Neg":
                if a.op == "c":
                    return const(-a.args[1])
                return mk("neg", a)
            if r["op"] == "PtrMetadata":
                v = self.load_ref(st, a) if a.op == "ref" else a
                return length(v)
            return mk("un", r["op"], a)
        if k == "cast":
            a = self.operand(st, fr, r["a"], span)
            kind = r["kind"]
            if kind.startswith(("BoxDerefTransmute", "PtrToPtr", "PointerCoercion", "Subtype", "FnPtrToPtr", "Transmute")):
                return a
            if kind.startswith("IntToInt") and a.op == "c":
                tt = self.prog.tys(r["t"])
                v = a.args[1]
                if tt == "char":
                    return mk("c", "char", chr(v) if isinstance(v, int) else v)
                if isinstance(v, str):
                    v = ord(v)
                return const(int(v))
            if kind.startswith("IntToInt"):
                tt = self.prog.tys(r["t"])
                if tt in ("usize", "u64", "isize", "i64", "u128", "i128"):
                    return a if a.op != "ite" or not _isbool(a) else mk("cast", tt, a)
                return mk("cast", tt, a)
            if kind.startswith("PointerWithExposedProvenance") and a is ZERO:
                return NULL
            return mk("cast", kind + ":" + self.prog.tys(r["t"]), a)
        if k == "disc":
            t = self.prog.types[r["p"]["t"]]
            v = self.read_place(st, fr, r["p"], span)
            return disc(v, t.get("path", t["s"]))
        if k == "agg":
            ops = [self.operand(st, fr, o, span) for o in r["ops"]]
            a = r["agg"]
            if a == "tuple":
                return tup(*ops) if ops else UNIT
            if a == "array":
                return array(*ops)
            if a == "closure":
                return mk("agg", "closure", r["id"], tuple(str(i) for i in range(len(ops))), *ops)
            if a == "adt":
                if r["path"] == "std::string::String" or r["path"] == "std::vec::Vec":
                    return mk("call", "struct " + r["path"], *ops)
                if self.prog.newtype_path(r["path"]):
                    return ops[0]
                return agg(r["path"], r.get("variant", ""), r["names"], ops)
            return mk("aggother", a, *ops)
        if k == "repeat":
            return mk("repeat", self.operand(st, fr, r["a"], span), r["n"])
        return mk("rv", r.get("txt", "?"))

    def binop(self, op, a, b):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if base == "Eq":
                return eq(a, b)
            if base == "Ne":
                return NOT(eq(a, b))
            if base == "Lt":
                return lt(a, b)
            if base == "Ge":
                return NOT(lt(a, b))
            if base == "Gt":
                return lt(b, a)
            return NOT(lt(b, a))
        if base == "Add":
            v = add(a, b)
        elif base == "Sub":
            v = sub(a, b)
        elif base in ("BitAnd", "BitOr", "BitXor") and (_isbool(a) or _isbool(b)):
            ca, cb = cond(a), cond(b)
            v = AND(ca, cb) if base == "BitAnd" else OR(ca, cb) if base == "BitOr" else ite(ca, NOT(cb), cb)
        elif a.op == "c" and b.op == "c" and base in ("Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr") \
                and isinstance(a.args[1], int) and isinstance(b.args[1], int) and not (base in ("Div", "Rem") and b.args[1] == 0):
            x, y = a.args[1], b.args[1]
            v = const({"Mul": lambda: x * y, "Div": lambda: x // y, "Rem": lambda: x % y, "BitAnd": lambda: x & y,
                       "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << y, "Shr": lambda: x >> y}[base]())
        else:
            v = mk("bin", base, a, b)
        if op.endswith("WithOverflow"):
            return tup(v, FALSE)
        return v

    # ------------------------------------------------------------ merging
    def merge(self, states):
        states = [s for s in states if s is not None and s.pc is not FALSE]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        total = FALSE
        for s in states:
            total = OR(total, s.pc)
        res = State({}, total, states[0].loops)
        keys = set(states[0].store)
        for s in states[1:]:
            keys.update(s.store)
        for k in keys:
            if k[0] == "L":
                have = [s for s in states if k in s.store]
                vals = [(s, s.store[k]) for s in have]
                v = vals[-1][1]
                if all(x is v for _, x in vals):
                    res.store[k] = v
                    continue
            else:
                vals = [(s, self.base_value(s, k)) for s in states]
                v = vals[-1][1]
                if all(x is v for _, x in vals):
                    res.store[k] = v
                    continue
            c = FALSE
            v = None
            for s, x in vals:
                if v is None:
                    v = x
                else:
                    v = ite(s.pc, x, v)
                c = OR(c, s.pc)
            v = restrict(v, total)
            res.store[k] = v
        return res

    # ------------------------------------------------------------ bodies
    def run_body(self, fn, fr, st):
        """analyse the body from block 0; returns the merged state at return (or None)"""
        if fn.get("irreducible"):
            raise AnalysisError("irreducible control flow in " + fn["path"])
        rets = []
        self.region(fn, fr, fn["_order"], {0: [st]}, None, rets, None)
        return self.merge(rets)

    def region(self, fn, fr, order, incoming, header, rets, out):
        """process blocks of `order` (RPO).  `header`: loop header whose region this is (its
        incoming states are processed as a plain block; edges back to it and edges leaving the
        region are collected in out: list of (target, state))."""
        inside = set(order)
        loops = fn["_loops"]
        pending = {b: list(s) for b, s in incoming.items()}
        skip = set()
        for b in order:
            if b in skip:
                continue
            sts = pending.pop(b, None)
            if not sts:
                if b in loops and b != header:
                    skip |= loops[b]
                continue
            st = self.merge(sts)
            if st is None:
                continue
            if b in loops and b != header:
                body = loops[b]
                skip |= body
                lo = [x for x in fn["_order"] if x in body]
                exits = self.mir_loop(fn, fr, b, lo, st, rets)
                for tgt, s in exits:
                    self.edge(tgt, s, inside, header, pending, out)
                continue
            for tgt, s in self.block(fn, fr, b, st, rets):
                self.edge(tgt, s, inside, header, pending, out)

    def edge(self, tgt, s, inside, header, pending, out):
        if s is None or s.pc is FALSE:
            return
        if tgt == header or tgt not in inside:
            out.append((tgt, s))
        else:
            pending.setdefault(tgt, []).append(s)

    # ------------------------------------------------------------ loops
    def mir_loop(self, fn, fr, header, order, st0, rets):
        key = (fr.fid, header)
        span = fn["blocks"][header]["t"]["sp"]
        result = {}

        def body(st):
            out = []
            lrets = []
            self.region(fn, fr, order, {header: [st]}, header, lrets, out)
            back = [s for t, s in out if t == header]
            exits = [(t, s) for t, s in out if t != header]
            exits += [("ret", s) for s in lrets]
            return back, exits
        exits = self.loop_fix(st0, key, fn, fr, span, body)
        res = []
        for t, s in exits:
            if t == "ret":
                rets.append(s)
            else:
                res.append((t, s))
        return res

    def loop_fix(self, st0, key, fn, fr, span, body):
        """solve a loop; returns the exit states [(target, state)] outside the loop"""
        few = max([few_items(v) for b, v in st0.store.items() if b[0] in "LS"], default=0)
        if few:
            r = self.unroll(st0, body, few)
            if r is not None:
                return r
        lid = self.loop_id(key)
        L = Loop(lid, fn["path"], span)
        L.outer = st0.loops
        L.entry_pc = st0.pc
        head = dict(st0.store)
        mark = len(self.events)
        lens_done = False
        for it in range(16):
            del self.events[mark:]
            st = State(dict(head), TRUE, st0.loops + (lid,))
            ctx = {"skips": [], "lid": lid}
            self.loopstack.append(ctx)
            back, exits = body(st)
            self.loopstack.pop()
            back = back + ctx["skips"]
            bm = self.merge(back)
            if bm is None:
                break       # never goes round
            changed = False
            for b in set(head) | set(bm.store):
                if b[0] in "LCSB" and b not in head:
                    continue        # local to the pass
                h = head.get(b)
                if h is None:
                    h = self.base_value(st0, b)
                n = bm.store.get(b)
                if n is None:
                    n = self.base_value(bm, b)
                n = restrict(n, bm.pc)
                if n is h or n is restrict(h, bm.pc):
                    continue
                g = self.generalize(h, n, lid, (self.locname(b),))
                if g is not h:
                    changed = True
                    head[b] = g
            if not changed:
                if not lens_done and self.fixed_lengths(head, bm, st0, lid):
                    lens_done = True
                    continue
                break
        else:
            raise AnalysisError("loop at %s does not converge" % span)
        # record
        if bm is not None:
            L.cont = bm.pc
            for b, g in head.items():
                if b[0] == "L" and b not in bm.store:
                    continue
                self.collect_phis(g, self.base_value(st0, b), self.base_value(bm, b), lid, L)
        L.raw_exits = exits
        self.loops[lid] = L
        live = [(t, s) for t, s in exits if s.pc is not FALSE]
        ro = fn.get("_retok")
        L.dead = [(s.pc, t) for t, s in live if isinstance(t, int) and ro is not None and t not in ro]
        return self.leave_loop(L, live, st0, {t for _, t in L.dead})

    def unroll(self, st0, body, few):
        """a loop over an option or a short literal list: its passes one after the other"""
        mark = len(self.events)
        st, out = st0.copy(), []
        for _ in range(few + 1):
            ctx = {"skips": [], "lid": None}
            self.loopstack.append(ctx)
            back, exits = body(st)
            self.loopstack.pop()
            out += [(t, s) for t, s in exits if s.pc is not FALSE]
            st = self.merge([s for s in back + ctx["skips"] if s.pc is not FALSE])
            if st is None:
                return out
        del self.events[mark:]
        return None

    def fixed_lengths(self, head, bm, st0, lid):
        """sequences of which a pass only changes elements keep their length: note it in their phi"""
        L = Loop(lid, "", "")
        for b, g in head.items():
            if b[0] == "L" and b not in bm.store:
                continue
            self.collect_phis(g, self.base_value(st0, b), self.base_value(bm, b), lid, L)
        m = {}
        for ph, nx in L.next.items():
            if len(ph.args) > 2:
                continue
            ok, upd_seen = True, False
            for _, l in leaves(nx):
                while l.op == "upd" and l.args[1][0] == "e":
                    l, upd_seen = l.args[0], True
                ok = ok and l is ph
            if ok and upd_seen:
                m[ph] = mk("phi", *ph.args, length(L.init[ph]))
        if not m:
            return False
        for b in list(head):
            head[b] = subst(head[b], m, rebuild)
        return True

    def leave_loop(self, L, live, st0, dead=()):
        """translate exit states to the outer context"""
        L.exits = [(s.pc, t) for t, s in live]
        if not live:
            return []
        search = self.search_form(L, live)
        summ = self.summarise(L, live) if search is None else None
        if search is None and summ is None and dead:
            # leaving by a panic aside, does the loop visit every element?
            alive = [(t, s) for t, s in live if t not in dead]
            summ = self.summarise(L, alive) if alive else None
            if summ is not None:
                conds, rest = [], TRUE
                for t, s in live:
                    if t in dead:
                        c = cond(mk("exit", L.key, s.pc))
                        conds.append(AND(rest, c))
                        rest = AND(rest, NOT(c))
                    else:
                        conds.append(None)
                conds = [rest if c is None else c for c in conds]
                L.ways = [(s.pc, c, t in dead) for (t, s), c in zip(live, conds)]
                return self.map_exits(live, conds, [None if t in dead else summ for t, s in live], st0)
        if search is not None:
            conds, maps = search
        elif summ is not None:
            conds, maps = [TRUE], [summ]
        else:
            # choose a default exit: the one taken when a header-like guard fails
            n = len(live)
            if n == 1:
                conds = [TRUE]
            else:
                d = n - 1
                # the exit whose condition does not require the loop to continue
                for i, (t, s) in enumerate(live):
                    cs = support(s.pc)
                    if len(cs) == 1:
                        d = i
                        break
                conds = []
                rest = TRUE
                for i, (t, s) in enumerate(live):
                    if i == d:
                        conds.append(None)
                    else:
                        c = cond(mk("exit", L.key, s.pc))
                        conds.append(AND(rest, c))
                        rest = AND(rest, NOT(c))
                conds[d] = rest
            maps = [None] * len(live)
        L.ways = [(s.pc, c, t in dead) for (t, s), c in zip(live, conds)]
        return self.map_exits(live, conds, maps, st0)

    def map_exits(self, live, conds, maps, st0):
        res = []
        for (t, s), c, m in zip(live, conds, maps):
            ns = State(dict(s.store), AND(st0.pc, c), st0.loops)
            if m:
                memo = {}
                for b in list(ns.store):
                    if b in st0.store and st0.store[b] is ns.store[b]:
                        continue
                    ns.store[b] = subst(ns.store[b], m, rebuild, memo)
            res.append((t, ns))
        return res

    def search_form(self, L, live):
        """a loop whose only state is a position (init 0, +1) and which leaves early under a
        predicate of the current element: express the exits with exists/first"""
        pos = [p for p in L.next if L.init[p] is ZERO and L.next[p] is add(p, ONE)]
        if not pos or L.cont is FALSE:
            return None
        # bound: an atom that compares p with a length and holds whenever we go round
        found = [(p, a) for p in pos for a in support(L.cont) if self.is_bound(a, p) and implies(L.cont, cond(a))]
        if not found:
            return None
        p, bound = found[0]
        # other counters move along with the position
        also = {}
        for q in L.next:
            if q is not p:
                if L.next[q] is not add(q, ONE) or self.has_phi(L.init[q], L.key):
                    return None
                also[q] = add(L.init[q], p)
        if also:
            live = [(t, State(s.store, subst(s.pc, also, rebuild), s.loops)) for t, s in live]
        cb = cond(bound)
        early = []
        exhausted = []
        for i, (t, s) in enumerate(live):
            if implies(s.pc, cb):
                early.append(i)
            elif implies(s.pc, NOT(cb)):
                exhausted.append(i)
            else:
                return None
        if not early or len(exhausted) > 1:
            return None
        pred = FALSE
        for i in early:
            pred = OR(pred, live[i][1].pc)
        predin = restrict(pred, cb)
        seq = bound.args[1] if bound.op == "lt" else None
        if seq is None or seq.op != "len":
            return None
        seq = seq.args[0]
        bv = fresh_bv(predin)
        lam = subst(predin, {p: bv}, rebuild)
        first = mk_first(seq, lam)
        ex = mk_exists(seq, lam)
        by = byteset(lam, mk("e", mk("bytesof", seq), bv))
        if by is not None and by.op == "cs":
            first = mk("cidx", seq, mk_first(chars(seq), by))
            ex = mk_exists(chars(seq), by)
        conds = [None] * len(live)
        maps = [None] * len(live)
        n = 0
        rest = ex
        for i in early:
            if len(early) == 1:
                c = ex
            else:
                n += 1
                if n < len(early):
                    sub_c = subst(restrict(live[i][1].pc, cb), {p: first}, rebuild)
                    c = AND(rest, sub_c)
                    rest = AND(rest, NOT(sub_c))
                else:
                    c = rest
            conds[i] = c
            maps[i] = {p: first}
        for i in exhausted:
            conds[i] = NOT(ex)
            maps[i] = {p: length(seq)}
        for m in maps:
            if m:
                for q, t in also.items():
                    m[q] = subst(t, {p: m[p]}, rebuild)
        return conds, maps

    def is_bound(self, a, p):
        return a.op == "lt" and a.args[0] is p and a.args[1].op == "len"

    def full_traversal(self, L, live):
        """(position phi, sequence) if the loop visits every element of a sequence and leaves only at its end"""
        if len(live) != 1 or L.cont is FALSE:
            return None
        pc = live[0][1].pc
        for p in L.next:
            if L.init[p] is not ZERO or L.next[p] is not add(p, ONE):
                continue
            for a in support(pc):
                if self.is_bound(a, p) and pc is NOT(cond(a)):
                    seq = a.args[1].args[0]
                    if not self.has_phi(seq, L.key):
                        return p, seq
        return None

    def summarise(self, L, live):
        """closed forms of the values computed by a full traversal: {phi: term}"""
        ft = self.full_traversal(L, live)
        if ft is None:
            return None
        p, seq = ft
        L.over = seq
        L.pos = p
        m = {p: length(seq)}
        own = [q for q in L.next if q is not p]
        for q in own:
            N = L.next[q]
            if any(contains(N, lambda x, o=o: x is o) for o in own if o is not q):
                continue
            m[q] = self.closed_form(seq, p, q, L.init[q], N)
        L.closed = m
        return m

    def closed_form(self, seq, p, q, init, N):
        if N.op == "vec.push" and N.args[0] is q and not contains(N.args[1], lambda x: x is q):
            X = N.args[1]
            if X.op == "e" and X.args[0] is seq and X.args[1] is p:
                return self.M.vec_extend(init, seq)
            bv = fresh_bv(X)
            return self.M.vec_extend(init, mk_comp(seq, bv, subst(X, {p: bv}, rebuild)))
        if N.op == "vec.extend" and N.args[0] is q and not contains(N.args[1], lambda x: x is q):
            bv = fresh_bv(N)
            return self.M.vec_extend(init, mk("flatcomp", seq, bv, subst(N.args[1], {p: bv}, rebuild)))
        if N is add(q, ONE):
            return add(init, length(seq))
        bv = fresh_bv(N)
        acc = mk("acc", bv.args[0])
        body = subst(N, {p: bv, q: acc}, rebuild)
        return mk("fold", seq, init, bv, body)

    def loop_id(self, key):
        ids = self.__dict__.setdefault("_lids", {})
        if key not in ids:
            ids[key] = len(ids)
        return ids[key]

    def locname(self, b):
        if b[0] == "L":
            return "_%s@%s" % (b[2], self.short_fid(b[1]))
        if b[0] in "CSB":
            return "%s%d" % (b[0], self.short_fid(b))
        return show_place(b, (), 8)

    def short_fid(self, fid):
        ids = self.__dict__.setdefault("_fids", {})
        if fid not in ids:
            ids[fid] = len(ids)
        return ids[fid]

    def generalize(self, a, b, lid, loc):
        if a is b:
            return a
        if a.op == "phi" and a.args[0] == lid and a.args[1] == loc:
            return a
        if a.op == "agg" and b.op == "agg" and a.args[:3] == b.args[:3] and len(a.args) > 3:
            return mk("agg", *a.args[:3], *[self.generalize(x, y, lid, loc + (n,))
                                            for n, x, y in zip(a.args[2], a.args[3:], b.args[3:])])
        if a.op == "box" and b.op == "box":
            return mk("box", self.generalize(a.args[0], b.args[0], lid, loc + ("box",)))
        if a.op == "it" and b.op == "it" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            out = [a.args[0]]
            for i, (x, y) in enumerate(zip(a.args[1:], b.args[1:])):
                if x is y or x == y:
                    out.append(x)
                elif isinstance(x, T) and isinstance(y, T):
                    out.append(self.generalize(x, y, lid, loc + ("it%d" % i,)))
                else:
                    return mk("phi", lid, loc)
            return mk("it", *out)
        if a.op == "agg" and b.op == "ite" and len(a.args) > 3 and \
                all(l.op == "agg" and l.args[:3] == a.args[:3] for _, l in leaves(b)):
            return self.generalize(a, mk("agg", *a.args[:3], *[proj(b, ("f", n)) for n in a.args[2]]), lid, loc)
        if a.op == "it" and b.op == "ite":
            ls = [l for _, l in leaves(b)]
            if all(l.op == "it" and l.args[0] == a.args[0] and len(l.args) == len(a.args) for l in ls):
                # the same kind of iterator on every path: generalise its parts
                def part(i):
                    xs = [l.args[i] for l in ls]
                    if all(x is xs[0] or x == xs[0] for x in xs):
                        return xs[0]
                    return apply(None, lambda q: q.args[i], b) if all(isinstance(x, T) for x in xs) else None
                ps = [part(i) for i in range(1, len(a.args))]
                if all(x is not None for x in ps):
                    return self.generalize(a, mk("it", a.args[0], *ps), lid, loc)
        ra, ua = self.upds(a)
        rb, ub = self.upds(b)
        if ra is rb and (ua or ub):
            t = ra
            for s in sorted(set(ua) | set(ub)):
                x, y = proj(a, s), proj(b, s)
                g = self.generalize(x, y, lid, loc + (s[1],))
                t = update(t, (s,), g)
            # positions not updated any more keep the root's value
            return t
        return mk("phi", lid, loc)

    def upds(self, t):
        u = set()
        if t.op == "ite":
            root = None
            for _, l in leaves(t):
                r, x = self.upds(l)
                if root is not None and r is not root:
                    return t, set()
                root = r
                u |= x
            return (root, u) if root is not None else (t, u)
        while t.op == "upd" and t.args[1][0] == "f":
            u.add(t.args[1])
            t = t.args[0]
        return t, u

    def collect_phis(self, g, ini, nxt, lid, L):
        """walk the generalised head value and record init/next per phi"""
        if g.op == "phi" and g.args[0] == lid:
            L.init[g] = ini
            L.next[g] = nxt
            return
        if g.op == "agg":
            for n, x in zip(g.args[2], g.args[3:]):
                if self.has_phi(x, lid):
                    s = ("f", n)
                    self.collect_phis(x, proj(ini, s), proj(nxt, s), lid, L)
        elif g.op == "box":
            if self.has_phi(g.args[0], lid):
                self.collect_phis(g.args[0], proj(ini, ("b",)), proj(nxt, ("b",)), lid, L)
        elif g.op == "it":
            for i in range(1, len(g.args)):
                x = g.args[i]
                if isinstance(x, T) and self.has_phi(x, lid):
                    def part(v):
                        return apply(None, lambda q: q.args[i] if q.op == "it" and len(q.args) > i else mk("itpart", q, i), v)
                    self.collect_phis(x, part(ini), part(nxt), lid, L)
        elif g.op == "upd":
            while g.op == "upd":
                x = g.args[2]
                if self.has_phi(x, lid):
                    s = g.args[1]
                    self.collect_phis(x, proj(ini, s), proj(nxt, s), lid, L)
                g = g.args[0]

    def has_phi(self, t, lid):
        return contains(t, lambda x: x.op == "phi" and x.args[0] == lid)

    # ------------------------------------------------------------ blocks
    def block(self, fn, fr, bi, st, rets):
        self.steps += 1
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted in %s (%s)" % (fn["path"], fr.callstack()))
        if self.steps > self.MAXSTEPS:
            raise Budget("step budget exhausted in %s" % fn["path"])
        b = fn["blocks"][bi]
        st = st.copy()
        for s in b["s"]:
            if "r" in s:
                v = self.rvalue(st, fr, s["r"], s.get("sp"))
                self.write_place(st, fr, s["p"], v, s.get("sp"))
                if s["r"]["k"] == "use" and self.boxrefs:
                    b0 = self.is_box_move(fr, s["r"]["a"])
                    if b0 is not None:
                        self.rebox(st, b0, self.ref_step(self.place_ref(st, fr, s["p"]), ("b",)))
            elif "setdisc" in s:
                pass
        t = b["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "return":
            rets.append(st)
            return []
        if k in ("unreachable", "resume", "other"):
            return []
        if k == "drop":
            return [(t["t"], st)]
        if k == "assert":
            c = cond(self.operand(st, fr, t["c"], t["sp"]))
            if not t["exp"]:
                c = NOT(c)
            if t["msg"].startswith("Overflow"):
                return [(t["t"], st)]
            return self.assume(st, c, [(t["t"])], fr, t["sp"], "assert:" + t["msg"])
        if k == "switch":
            d = self.operand(st, fr, t["d"], t["sp"])
            tk = self.prog.types[t["ty"]]["k"]
            out = []
            rest = TRUE
            for v, tgt in t["vals"]:
                if tk == "bool":
                    c = NOT(cond(d)) if v == 0 else cond(d)
                elif tk == "char":
                    c = eq(d, mk("c", "char", chr(v)))
                else:
                    c = eq(d, const(self.signed(v, t["ty"])))
                c2 = AND(AND(st.pc, rest), c)
                if c2 is not FALSE:
                    out.append((tgt, self.narrow(st, c2, c)))
                rest = AND(rest, NOT(c))
            c2 = AND(st.pc, rest)
            if c2 is not FALSE:
                out.append((t["else"], self.narrow(st, c2, rest)))
            if len(out) > 1:
                self.event("branch", None, [d], st, fr, t["sp"])
            return out
        if k == "call":
            return self.call_term(fn, fr, st, t, bi)
        raise AnalysisError("terminator " + k)

    def narrow(self, st, pc, c):
        """copy of st under the additional condition c"""
        s2 = st.copy(pc)
        if c is TRUE or c is FALSE:
            return s2
        sup = support(c)
        for b, v in s2.store.items():
            if v.op == "ite" and not sup.isdisjoint(support(v)):
                s2.store[b] = restrict(v, c)
        return s2

    def signed(self, v, ty):
        s = self.prog.tys(ty)
        if s.startswith("i") and s[1:].isdigit():
            n = int(s[1:])
            if v >= 1 << (n - 1):
                v -= 1 << n
        elif s == "isize" and v >= 1 << 63:
            v -= 1 << 64
        return v

    def assume(self, st, c, targets, fr, span, why, extra=None):
        """continue under c; the rest panics"""
        bad = AND(st.pc, NOT(c))
        if bad is not FALSE:
            s2 = State({}, bad, st.loops)
            self.event("panic", why, [], s2, fr, span, extra)
        good = AND(st.pc, c)
        if good is FALSE:
            return []
        st.pc = good
        return [(targets[0], st)]

    # ------------------------------------------------------------ calls
    def call_term(self, fn, fr, st, t, bi):
        span = t["sp"]
        args = [self.operand(st, fr, a, span) for a in t["args"]]
        argtys = [self.op_ty(a) for a in t["args"]]
        f = t["f"]
        if "fn" in f:
            callee = f["fn"]
        else:
            fv = self.operand(st, fr, f, span)
            callee = self.M.FNS.get(fv.args[0]) if fv.op == "fn" else None
        retty = t["dest"]["t"]
        if callee is None:
            r = mk("call", "indirect", *args)
            self.event("call", "indirect", args, st, fr, span)
            res = r
        else:
            n0 = len(self.events)
            res = self.call(callee, args, st, fr, span, bi, argtys, retty)
            if self.boxrefs:
                for o, v in zip(t["args"], args):
                    b0 = self.is_box_move(fr, o)
                    if b0 is None:
                        continue
                    for e in self.events[n0:]:
                        if e.kind == "mapins" and e.args[2] is v and e.args[0].op == "ref":
                            self.rebox(st, b0, self.ref_step(e.args[0], ("e", e.args[1]), ("b",)))
                        elif e.kind == "push" and e.args[1] is v and e.args[0].op == "ref":
                            self.rebox(st, b0, self.ref_step(e.args[0], ("e", mk("last")), ("b",)))
        if res is None or t["t"] is None:
            if t["t"] is None and res is not None:
                self.event("panic", "diverge", [], st, fr, span, extra=callee and (callee.get("rdef") or callee["def"]))
            return []
        self.write_place(st, fr, t["dest"], res, span)
        if st.pc is FALSE:
            return []
        return [(t["t"], st)]

    def op_ty(self, o):
        if o["k"] in ("copy", "move"):
            return o["p"]["t"]
        return o.get("ty")

    def call(self, callee, args, st, fr, span, site, argtys, retty):
        """returns the result value (None if it never returns); st is updated in place"""
        self.calls += 1
        name = callee.get("rdef") or callee["def"]
        rid = callee.get("rid") or callee["id"]
        # explicit overrides (summarised crate functions)
        if name in self.opaque:
            h = self.opaque[name]
            ev = self.event("call", name, args, st, fr, span, extra=callee)
            if h is not None:
                r = h(self, st, fr, args, callee, span)
                ev.res = r
                return r
            r = self.unknown_call(name, callee, args, st, fr, span, argtys, retty)
            ev.res = r
            return r
        # derived comparison / clone impls of crate types behave structurally
        if callee.get("derived"):
            m = callee.get("method")
            if m in ("eq", "ne", "clone", "partial_cmp", "cmp", "lt", "le", "gt", "ge"):
                return self.M.structural(self, m, args, st, fr, span, callee)
        target = self.prog.fns.get(rid) if callee.get("rlocal", callee["local"]) else None
        if target is None and callee.get("trait") and not callee.get("rlocal"):
            target = self.M.resolve_blanket(self, callee)
            if target is not None and target.get("derived"):
                return self.M.structural(self, callee.get("method"), args, st, fr, span, callee)
        if target is not None:
            if (callee.get("trait") or "").split("::")[-1] in ("Fn", "FnMut", "FnOnce") and "{closure#" in target["path"] and len(args) == 2:
                # a closure called directly: its arguments come as one tuple
                xs = [proj(args[1], ("f", str(k))) for k in range(target["argc"] - 1)]
                return self.call_value(st, fr, args[0], xs, span, site)
            return self.inline(target, args, st, fr, span, site)
        h = self.M.lookup(callee)
        may = self.fallible(callee, name, retty)
        if h is not None:
            ev = self.event("fallible", name, args, st, fr, span, extra=callee) if may else None
            r = h(self.M.Ctx(self, st, fr, span, site, callee, argtys, retty), *args)
            if may:
                ev.res = r
            return r
        ev = self.event("call", name, args, st, fr, span, extra=callee)
        r = self.unknown_call(name, callee, args, st, fr, span, argtys, retty)
        ev.res = r
        if may:
            self.event("fallible", name, args, st, fr, span, extra=callee).res = r
        return r

    def fallible(self, callee, name, retty):
        """an external operation that reports failure in its result"""
        if retty is None or self.prog.types[retty].get("path") != "std::result::Result":
            return False
        s = self.prog.tys(retty)
        if s.endswith((", !>", "fmt::Error>")) or (callee.get("trait") or "").split("::")[-1] in (
                "Try", "FromResidual", "Clone", "From", "Into", "Iterator", "FromIterator", "FnOnce", "FnMut", "Fn", "Default"):
            return False
        return not name.lstrip("<").startswith(("std::result::", "core::result::", "std::option::", "core::option::", "std::mem::"))

    def unknown_call(self, name, callee, args, st, fr, span, argtys, retty):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        vals = [self.deep(st, a) for a in args]
        muts = []
        for i, (a, ty) in enumerate(zip(args, argtys)):
            t = self.prog.types[ty] if ty is not None else None
            if t and t["k"] == "ref" and t["mut"] and self.prog.types[t["t"]]["k"] != "str":
                muts.append(i)
        for i in muts:
            self.store_ref(st, args[i], mk("mut", name, i, *vals), fr, span)
        if retty is not None and self.prog.types[retty]["k"] == "never":
            return None
        if retty is not None and self.prog.tys(retty) == "()":
            return UNIT
        return mk("call", name, *vals)

    def deep(self, st, v, d=0):
        """strip references to get a value that identifies what the callee sees"""
        if v.op == "ref":
            b = v.args[0]
            if b[0] == "L" or b[0] == "P" or d > 0 or True:
                if d > 4:
                    return v
                return self.deep(st, self.load(st, *v.args), d + 1)
        if v.op == "ite":
            return apply(None, lambda x: self.deep(st, x, d), v)
        if v.op == "agg" and v.args[0] != "closure" and any(x.op in ("ref", "ite", "agg") for x in v.args[3:]):
            return mk("agg", *v.args[:3], *[self.deep(st, x, d + 1) if d < 5 else x for x in v.args[3:]])
        return v

    def inline(self, target, args, st, fr, span, site):
        if target["id"] in [None]:
            pass
        if fr is not None and fr.has(target["id"]):
            ev = self.event("rec", target["path"], args, st, fr, span, extra=target)
            vals = [self.deep(st, a) for a in args]
            for i, a in enumerate(args):
                ty = self.prog.types[target["locals"][i + 1][0]]
                if ty["k"] == "ref" and ty["mut"]:
                    self.store_ref(st, a, mk("mut", target["path"], i, *vals), fr, span)
            rt = self.prog.types[target["locals"][0][0]]
            if rt["s"] == "()":
                return UNIT
            ev.res = mk("rec", target["path"], *vals)
            return ev.res
        if target.get("_loops") and 1 <= target["argc"] <= 2:
            # a search in one of several texts: each text by itself
            for k, a in enumerate(args):
                if a.op == "ite" and self.prog.types[target["locals"][k + 1][0]]["s"] == "&str" and len(leaves(a)) <= 4:
                    return self.inline_each(target, args, k, st, fr, span, site)
        self.seen_fns.add(target["path"])
        nf = Frame(target, (fr.fid if fr else (), site, target["id"]), fr, span)
        if len(nf.callstack()) > 60:
            raise AnalysisError("inlining too deep")
        self.event("enter", target["path"], args, st, nf, span)
        s2 = st.copy()
        # clear stale locals of an earlier pass
        for b in [b for b in s2.store if b[0] == "L" and b[1] == nf.fid]:
            del s2.store[b]
        for i, a in enumerate(args):
            s2.store[("L", nf.fid, i + 1)] = a
        out = self.run_body(target, nf, s2)
        if out is None:
            st.pc = FALSE
            return None
        r = out.store.get(("L", nf.fid, 0), UNIT)
        st.store = {b: v for b, v in out.store.items() if not (b[0] == "L" and b[1] == nf.fid)}
        st.pc = out.pc
        self.event("leave", target["path"], [r], st, nf, span)
        return r

    def inline_each(self, target, args, k, st, fr, span, site):
        out, val = [], None
        for n, (c, l) in enumerate(leaves(args[k])):
            s = st.copy(AND(st.pc, c))
            if s.pc is FALSE:
                continue
            v = self.inline(target, args[:k] + [l] + args[k + 1:], s, fr, span, (site, n))
            if v is None or s.pc is FALSE:
                continue
            out.append(s)
            val = v if val is None else ite(c, v, val)
        m = self.merge(out)
        if m is None:
            st.pc = FALSE
            return None
        st.store, st.pc = m.store, m.pc
        return restrict(val, m.pc)

    def call_value(self, st, fr, fv, args, span, site):
        """call a closure / function value"""
        if fv.op == "ref":
            inner = self.load_ref(st, fv)
            if inner.op == "agg" and inner.args[0] == "closure":
                return self.call_closure(st, fr, inner, fv, args, span, site)
            return self.call_value(st, fr, inner, args, span, site)
        if fv.op == "agg" and fv.args[0] == "closure":
            return self.call_closure(st, fr, fv, None, args, span, site)
        if fv.op == "fn":
            callee = self.M.FNS[fv.args[0]]
            if fv.args[0].startswith("ctor "):
                pass
            return self.call(callee, list(args), st, fr, span, site, [None] * len(args), None)
        self.event("call", "indirect", [fv] + list(args), st, fr, span)
        return mk("call", "indirect", fv, *[self.deep(st, a) for a in args])

    def call_closure(self, st, fr, cl, ref, args, span, site):
        target = self.prog.fns.get(cl.args[1])
        if target is None:
            return mk("call", "closure", *args)
        t1 = self.prog.types[target["locals"][1][0]]
        tmp = None
        if t1["k"] in ("ref",):
            if ref is None:
                tmp = ("C", fr.fid, site, cl.args[1])
                st.store[tmp] = cl
                env = mk("ref", tmp, ())
            else:
                env = ref
        else:
            env = cl
        return self.inline(target, [env] + list(args), st, fr, span, (site, "cl"))

    # ------------------------------------------------------------ roots
    def run_root(self, fn, args=None):
        fr = Frame(fn, ("root", fn["id"]), None, fn.get("span"))
        st = State()
        self.params = []
        for i in range(fn["argc"]):
            nm = fn["locals"][i + 1][1] or ("arg%d" % (i + 1))
            v = args[i] if args and args[i] is not None else mk("param", i, nm)
            self.params.append(v)
            st.store[("L", fr.fid, i + 1)] = v
        self.seen_fns.add(fn["path"])
        self.rootframe = fr
        out = self.run_body(fn, fr, st)
        self.out = out
        self.ret = out.store.get(("L", fr.fid, 0), UNIT) if out is not None else None
        return self


def _isbool(t):
    if t is TRUE or t is FALSE:
        return True
    if t.op == "ite":
        return _isbool(t.args[1]) and _isbool(t.args[2])
    return False




def contains_alias(v):
    return v.op == "boxat" or (v.op == "ite" and (contains_alias(v.args[1]) or contains_alias(v.args[2])))


def decimal_literal(f):
    """rust_decimal: 96 bits in hi, mid, lo; scale and sign in flags"""
    try:
        flags, hi, mid, lo = (f[k]["int"] for k in ("flags", "hi", "mid", "lo"))
    except KeyError:
        return None
    n, scale = (hi << 64) + (mid << 32) + lo, flags >> 16 & 255
    t = str(n)
    if scale:
        t = t.rjust(scale + 1, "0")
        t = t[:-scale] + "." + t[-scale:]
        t = t.rstrip("0").rstrip(".")
    return mk("dec.const", ("-" if flags >> 31 else "") + t)
