"""VC generator and symbolic executor over LLVM IR (as printed by tools/irdump.cc).

Every harness (a contract: requires / call of the real function / ensures) is executed on fully
symbolic inputs, one path at a time.  Each clause, each memory access, each UBSan trap and each
libstdc++ assertion becomes a verification condition that an SMT solver must discharge.  Loops
are either exhausted (the solver shows that no further iteration is possible) or cut at their head by an
inductive invariant, found by Houdini over a vocabulary the contract supplies.
"""
import json, os, re, subprocess, sys, time, tempfile

import z3

from . import lia

sys.setrecursionlimit(20000)

FAST_MS = 300


class Unsupported(Exception):
    pass


class Undecided(Exception):
    pass


class Restart(Exception):
    pass


class PathEnd(Exception):
    pass


class Ptr:
    __slots__ = ("rid", "off")

    def __init__(self, rid, off):
        self.rid = rid
        self.off = off

    def __repr__(self):
        return f"Ptr({self.rid},{self.off})"


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Fn({self.name})"


class AddrInt:
    """integer value of a pointer"""

    __slots__ = ("rid", "off")

    def __init__(self, rid, off):
        self.rid = rid
        self.off = off


NULL = Ptr(0, 0)
F32 = z3.Float32()
F64 = z3.Float64()
F80 = z3.FPSort(15, 64)
RNE = z3.RNE()
RTZ = z3.RTZ()

_bvc = {}


def BVV(v, w):
    k = (v, w)
    r = _bvc.get(k)
    if r is None:
        r = z3.BitVecVal(v, w)
        _bvc[k] = r
    return r


def width(t):
    return int(t[1:])


def is_int(t):
    return isinstance(t, str) and t[0] == "i" and t[1:].isdigit()


def fsort(t):
    return {"f32": F32, "f64": F64, "f80": F80}[t]


def tsize(t):
    if isinstance(t, dict):
        return t["sz"]
    if t == "ptr":
        return 8
    if t == "f32":
        return 4
    if t == "f64":
        return 8
    if t == "f80":
        return 16
    w = width(t)
    b = (w + 7) // 8
    p = 1
    while p < b:
        p *= 2
    return p if w <= 64 else b


def tostore(t):
    """bytes actually stored"""
    if is_int(t):
        return (width(t) + 7) // 8
    if t == "f80":
        return 10
    return tsize(t)


def norm(e):
    """simplify a z3 int/bool expression to a python constant when it is one"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def truth(x):
    """c if x is If(c, 1, 0)"""
    if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)) and x.arg(1).as_long() == 1 and x.arg(2).as_long() == 0:
        return x.arg(0)
    return None


def zbv(v, w):
    if isinstance(v, bool):
        return BVV(int(v), w)
    if isinstance(v, int):
        return BVV(v & ((1 << w) - 1), w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, BVV(1, w), BVV(0, w))
    return v


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(bool(v & 1))
    if isinstance(v, z3.BitVecRef):
        return v == BVV(1, v.size())
    return v


def bnot(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def band(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return z3.And(a, b)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def off_add(off, d):
    if isinstance(off, int) and isinstance(d, int):
        r = (off + d) & ((1 << 64) - 1)
        return r
    if isinstance(d, int) and d == 0:
        return off
    if isinstance(off, int) and off == 0:
        return d
    return z3.simplify(zbv(off, 64) + zbv(d, 64))


class Region:
    """A memory object.  cells: byte offset -> (nbytes, type, value).  arr: z3 byte array holding everything that
    is in no cell (None: uninitialised)."""

    __slots__ = ("rid", "size", "cells", "arr", "kind", "alive", "const", "name", "shared", "watch", "align")

    def __init__(self, rid, size, kind, name=""):
        self.rid = rid
        self.size = size
        self.cells = {}
        self.arr = None
        self.kind = kind
        self.alive = True
        self.const = False
        self.name = name
        self.shared = False
        self.watch = None
        self.align = 1

    def clone(self):
        r = Region(self.rid, self.size, self.kind, self.name)
        r.cells = dict(self.cells)
        r.arr = self.arr
        r.alive = self.alive
        r.const = self.const
        r.watch = self.watch
        r.align = self.align
        return r


class Frame:
    __slots__ = ("fn", "blk", "ip", "prev", "env", "allocas", "dest", "cnt", "tag", "sig", "invstack")

    def __init__(self, fn):
        self.fn = fn
        self.blk = 0
        self.ip = 0
        self.prev = -1
        self.env = {}
        self.allocas = []
        self.dest = None
        self.cnt = {}
        self.tag = None
        self.sig = ""
        self.invstack = []

    def clone(self):
        f = Frame(self.fn)
        f.blk, f.ip, f.prev = self.blk, self.ip, self.prev
        f.env = dict(self.env)
        f.allocas = list(self.allocas)
        f.dest = self.dest
        f.cnt = dict(self.cnt)
        f.tag = self.tag
        f.sig = self.sig
        f.invstack = list(self.invstack)
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "anys", "model", "inhook", "watchloops", "wlog", "spec", "flags", "ret", "trace", "last_iter")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.anys = []
        self.model = None
        self.inhook = 0
        self.watchloops = []
        self.wlog = None
        self.spec = None
        self.last_iter = 0
        self.flags = {}
        self.ret = None
        self.trace = None

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        for r in self.mem.values():
            r.shared = True
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.anys = list(self.anys)
        s.model = self.model
        s.last_iter = self.last_iter
        s.inhook = self.inhook
        s.watchloops = list(self.watchloops)
        s.wlog = self.wlog
        s.spec = self.spec
        s.flags = dict(self.flags)
        return s

    def wreg(self, rid):
        r = self.mem[rid]
        if r.shared:
            r = r.clone()
            self.mem[rid] = r
        return r


class Func:
    def __init__(self, name, j):
        self.name = name
        self.dem = j["dem"]
        self.args = j["args"]
        self.ret = j["ret"]
        self.decl = j.get("decl", False)
        self.noreturn = j.get("noreturn", False)
        self.file = j.get("file", "")
        if not self.decl:
            self.blocks = j["blocks"]
            self.loops = {l["h"]: frozenset(l["b"]) for l in j["loops"]}


UBSAN = {
    0: "signed-add-overflow", 1: "builtin-unreachable", 2: "cfi", 3: "division by zero or overflow", 4: "dynamic-type",
    5: "float-to-int conversion out of range", 6: "function-type", 7: "implicit-conversion", 8: "invalid-builtin",
    10: "load of invalid bool/enum value", 11: "missing return", 12: "signed multiplication overflow", 13: "signed negation overflow",
    14: "null attribute", 15: "nonnull", 16: "nonnull-return", 17: "nullability", 18: "array index out of bounds",
    19: "pointer overflow", 20: "shift out of bounds", 21: "signed subtraction overflow", 22: "null/misaligned access", 23: "vla", 24: "alignment",
}


class Stats:
    def inv(self, d):
        for x in self.invs:
            if x["loop"] == d["loop"] and x["invariants"] == d["invariants"]:
                x["times"] += 1
                return
        self.invs.append(dict(d, times=1))

    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}
        self.paths = 0
        self.insts = 0
        self.vcs = 0
        self.trivial = 0
        self.invs = []


def srange(e, depth=0):
    """bounds of the signed value of a bit vector, from its syntax; None if it may wrap or is not understood"""
    w = e.size()
    full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if depth > 12:
        return full
    if z3.is_bv_value(e):
        v = e.as_signed_long()
        return v, v
    k = e.decl().kind()
    if k == z3.Z3_OP_SIGN_EXT:
        return srange(e.arg(0), depth + 1)
    if k == z3.Z3_OP_ZERO_EXT:
        return 0, (1 << e.arg(0).size()) - 1
    if k == z3.Z3_OP_CONCAT:
        n = e.num_args()
        if z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0:
            return 0, (1 << (w - e.arg(0).size())) - 1
        t = e.arg(n - 1)
        m = t.size()
        if n == w - m + 1 and all(e.arg(j).eq(e.arg(0)) for j in range(1, n - 1)) and z3.simplify(z3.Extract(m - 1, m - 1, t)).eq(e.arg(0)):
            return srange(t, depth + 1)
        return full
    if k == z3.Z3_OP_ITE:
        a, b = srange(e.arg(1), depth + 1), srange(e.arg(2), depth + 1)
        return min(a[0], b[0]), max(a[1], b[1])
    if k in (z3.Z3_OP_BSUB, z3.Z3_OP_BNEG):
        a, b = ((0, 0), srange(e.arg(0), depth + 1)) if k == z3.Z3_OP_BNEG else (srange(e.arg(0), depth + 1), srange(e.arg(1), depth + 1))
        lo, hi = a[0] - b[1], a[1] - b[0]
        return (lo, hi) if full[0] <= lo and hi <= full[1] else full
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL) and e.num_args() <= 4:
        lo, hi = srange(e.arg(0), depth + 1)
        for j in range(1, e.num_args()):
            p, q = srange(e.arg(j), depth + 1)
            if k == z3.Z3_OP_BADD:
                lo, hi = lo + p, hi + q
            else:
                c = [lo * p, lo * q, hi * p, hi * q]
                lo, hi = min(c), max(c)
            if lo < full[0] or hi > full[1]:
                return full
        return lo, hi
    return full


def mul_abstract(cs):
    """products of two unknowns as an uninterpreted function: a weaker set of constraints, so that unsat carries over"""
    memo, sym = {}, []

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_app(e) and e.num_args():
            a = [go(c) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_BMUL and sum(not z3.is_bv_value(x) for x in a) > 1:
                w = e.size()
                f = z3.Function(f"mul!{w}", z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
                c = [x for x in a if z3.is_bv_value(x)]
                v = [x for x in a if not z3.is_bv_value(x)]
                r = v[0]
                for x in v[1:]:
                    sym.append(f(r, x) == f(x, r))
                    r = f(r, x)
                for x in c:
                    r = x * r
            else:
                r = e.decl()(*a) if any(x.get_id() != y.get_id() for x, y in zip(a, e.children())) else e
        else:
            r = e
        memo[k] = (e, r)
        return r

    return [go(c) for c in cs] + sym


class Engine:
    def __init__(self, mod, opts=None):
        self.fns = {n: Func(n, j) for n, j in mod["fns"].items()}
        self.globs = mod["globals"]
        self.opts = opts or {}
        self.stats = Stats()
        self.binds = {}
        self.loopmode = {}
        self.unroll = self.opts.get("unroll", 40)
        self.deadline = None
        self.find_binds()
        self.nfresh = 0
        self.solver = None
        self.asserted = []
        self.failures = {}
        self.obls = {}
        self.covers = {}
        self.undecided = {}
        self.assumed_models = set()
        self.called = set()
        self.rid = 1
        self.probe = 0
        self.houdini_cache = {}
        self.used_contracts = set()
        self.max_paths = self.opts.get("max_paths", 60000)
        self.bounded_note = []

    # ---------------------------------------------------------------- solver
    def fresh(self, w, name="x"):
        self.nfresh += 1
        return z3.BitVec(f"{name}!{self.nfresh}", w)

    def freshval(self, t, name="u"):
        if isinstance(t, dict):
            if t["k"] == "s":
                return tuple(self.freshval(ft, name) for _, ft in t["f"])
            return tuple(self.freshval(t["e"], name) for _ in range(t["n"]))
        if t == "ptr":
            raise Unsupported("undefined pointer value")
        if t in ("f32", "f64"):
            b = self.fresh(32 if t == "f32" else 64, name)
            return z3.fpBVToFP(b, fsort(t))
        w = width(t)
        if w == 1:
            self.nfresh += 1
            return z3.Bool(f"{name}!{self.nfresh}")
        return self.fresh(w, name)

    def sync(self, pc):
        s = self.solver
        if s is None:
            s = self.solver = z3.Solver()
            s.set("timeout", FAST_MS)
            self.asserted = []
        a = self.asserted
        n = 0
        m = min(len(a), len(pc))
        while n < m and a[n] is pc[n]:
            n += 1
        if n < len(a):
            s.pop(len(a) - n)
            del a[n:]
        for c in pc[n:]:
            s.push()
            s.add(c)
            a.append(c)
        return s

    def sat(self, st, extra, easy=False):
        """'sat'/'unsat'/'unknown', model"""
        if self.deadline and time.time() > self.deadline:
            raise Undecided("time budget of this obligation exhausted")
        t0 = time.time()
        self.stats.queries += 1
        if self.opts.get("real") and lia.has_fp([extra]):
            try:
                s1 = z3.Solver()
                s1.set("timeout", 500)
                s1.add(*lia.translate(st.pc + [extra]))
                r = s1.check()
            except lia.Give:
                r = z3.unknown
            if r == z3.unsat:
                dt = time.time() - t0
                self.stats.time += dt
                k = self.stats.by.setdefault("z3/int", [0, 0.0])
                k[0] += 1
                k[1] += dt
                return "unsat", None
        s = self.sync(st.pc)
        s.push()
        s.add(extra)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        by = "z3"
        if r == z3.unknown:
            self.solver = None
            if not easy:
                r, m, by = self.hard(st.pc + [extra])
        dt = time.time() - t0
        self.stats.time += dt
        if dt > 1 and os.environ.get("VP_SLOW"):
            print("SLOW %.1f %s %s" % (dt, by, r), self.probe, self.where(st), str(extra)[:300].replace("\n", " "), flush=True)
        k = self.stats.by.setdefault(by, [0, 0.0])
        k[0] += 1
        k[1] += dt
        return str(r), m

    def hard(self, cs, lim=None):
        """portfolio for a query the incremental solver did not settle"""
        lim = lim or self.opts.get("hard_s", 60)
        if self.deadline:
            lim = max(1, min(lim, self.deadline - time.time()))
        ints = None
        if self.opts.get("lia", 1) and lia.interesting(cs):
            try:
                ints = lia.translate(cs)
                s1 = z3.Solver()
                s1.set("timeout", int(min(lim, self.opts.get("lia_s", 3)) * 1000))
                s1.add(*ints)
                if s1.check() == z3.unsat:
                    return z3.unsat, None, "z3/int"
            except lia.Give:
                pass
        if self.opts.get("mulabs"):
            s1 = z3.Solver()
            s1.set("timeout", int(min(lim, 10) * 1000))
            s1.add(*mul_abstract(cs))
            if s1.check() == z3.unsat:
                return z3.unsat, None, "z3/mul"
        s0 = z3.Solver()
        s0.add(*cs)
        body = s0.to_smt2()
        logic = "(set-logic ALL)\n(set-option :produce-models true)\n"
        procs = []
        d = tempfile.mkdtemp(prefix="vpsmt")
        try:
            f1 = os.path.join(d, "q.smt2")
            with open(f1, "w") as f:
                f.write(logic + body)
            f2 = os.path.join(d, "q_bv.smt2")
            with open(f2, "w") as f:
                f.write(body.replace("(check-sat)", "(check-sat-using (then simplify propagate-values solve-eqs elim-uncnstr simplify max-bv-sharing bit-blast sat))") if "Array" not in body and "declare-fun" in body else body)
            cand = [("cvc5", ["cvc5", "--lang=smt2", f"--tlimit={int(lim*1000)}", f1]), ("z3-new", ["z3-new", "-smt2", f"-T:{int(lim)}", f1])]
            if "Array" not in body:
                cand.append(("z3-new/sat", ["z3-new", "-smt2", f"-T:{int(lim)}", f2]))
            if ints is None:
                cand.append(("z3-4.8", ["z3", "-smt2", f"-T:{int(lim)}", f1]))
            else:
                f3 = os.path.join(d, "q_int.smt2")
                s3 = z3.Solver()
                s3.add(*ints)
                with open(f3, "w") as f:
                    f.write(logic + s3.to_smt2())
                cand.append(("z3-new/int", ["z3-new", "-smt2", f"-T:{int(lim)}", f3]))
                cand.append(("cvc5/int", ["cvc5", "--lang=smt2", f"--tlimit={int(lim*1000)}", f3]))
            for n, c in cand:
                procs.append((n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            t0 = time.time()
            res = "unknown"
            by = "none"
            left = dict(procs)
            while left and time.time() - t0 < lim + 2:
                for n in list(left):
                    if left[n].poll() is not None:
                        out = left.pop(n).stdout.read().strip().split("\n")[0].strip()
                        if out == "unsat" or out == "sat" and not n.endswith("/int"):
                            res, by = out, n
                            left = {}
                            break
                time.sleep(0.02)
        finally:
            for _, p in procs:
                if p.poll() is None:
                    p.kill()
                p.wait()
            subprocess.run(["rm", "-rf", d])
        m = None
        if res == "sat":
            s = z3.Solver()
            s.set("timeout", int(lim * 1000))
            s.add(*cs)
            if s.check() == z3.sat:
                m = s.model()
        return res, m, by

    def assume(self, st, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        if st.model is not None:
            if not z3.is_true(st.model.eval(c, model_completion=True)):
                st.model = None
        st.pc.append(c)

    def holds_in_model(self, st, c):
        if st.model is None:
            return None
        v = st.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def feasible(self, st, c):
        """can c hold on this path?  returns (bool, model)"""
        if c is True:
            return True, st.model
        if c is False:
            return False, None
        if self.holds_in_model(st, c):
            return True, st.model
        r, m = self.sat(st, c)
        if r == "unsat":
            return False, None
        # an undecided path is followed: that is sound, its obligations carry the path condition
        return True, m

    def note_undecided(self, what, st):
        if self.probe:
            return
        self.undecided.setdefault(what, self.where(st))

    def where(self, st):
        for f in reversed(st.frames):
            b = f.fn.blocks[f.blk]
            i = b[min(f.ip, len(b) - 1)]
            if "dl" in i:
                return f"{os.path.basename(i['dl'][0])}:{i['dl'][1]} in {f.fn.dem}"
        return st.frames[-1].fn.dem if st.frames else "?"

    def srcwhere(self, st):
        """innermost frame located in the repository"""
        for f in reversed(st.frames):
            b = f.fn.blocks[f.blk]
            i = b[min(f.ip, len(b) - 1)]
            if "dl" in i and "util/" in i["dl"][0]:
                return f"{i['dl'][0].split('/repo/')[-1]}:{i['dl'][1]} in {f.fn.dem}"
        return self.where(st)

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, c, kind, label, cont=True):
        """c must hold on this path.  Afterwards it is assumed."""
        key = (kind, label)
        if not self.probe:
            o = self.obls.setdefault(key, [0, 0])
        self.stats.vcs += 1
        if c is True:
            self.stats.trivial += 1
            if not self.probe:
                o[0] += 1
                o[1] += 1
            return
        if isinstance(c, z3.ExprRef):
            c = norm(c)
            if c is True:
                self.stats.trivial += 1
                if not self.probe:
                    o[0] += 1
                    o[1] += 1
                return
        nc = True if c is False else z3.Not(c)
        if not self.probe:
            o[0] += 1
        if self.probe:
            # inside an inference pass: assume it, the final pass checks it
            if c is False:
                raise PathEnd()
            self.assume(st, c)
            return
        if key in self.failures and len(self.failures) and self.failures[key]["n"] >= 3:
            # enough counterexamples of this one
            if c is False:
                raise PathEnd()
            self.assume_feasible(st, c)
            return
        if nc is True:
            r, m = self.sat(st, z3.BoolVal(True)) if st.model is None else ("sat", st.model)
        elif self.holds_in_model(st, nc):
            r, m = "sat", st.model
        else:
            r, m = self.sat(st, nc)
        if r == "unsat":
            o[1] += 1
            if nc is True:
                raise PathEnd()
            st.pc.append(c)
            return
        if r == "unknown":
            self.undecided.setdefault(f"{kind}: {label}", self.where(st))
        else:
            f = self.failures.setdefault(key, {"n": 0, "kind": kind, "label": label, "where": self.srcwhere(st), "values": [], "inv": bool(st.flags.get("cut"))})
            f["n"] += 1
            m = self.smaller(st, nc, m)
            try:
                f["values"].append(self.extract(st, m))
            except Exception as e:
                f["values"].append({"error": repr(e)})
            if len(f["values"]) > 3:
                f["values"].pop()
        if c is False:
            raise PathEnd()
        self.assume_feasible(st, c)

    def smaller(self, st, nc, m):
        """prefer a counterexample whose buffers are small enough to replay"""
        ns = [a[1] for a in st.anys if a[0] == "buf" and not isinstance(a[1], int)]
        if not ns or max(m.eval(n, model_completion=True).as_long() for n in ns) <= 64:
            return m
        for lim in (64, 1024):
            r, m2 = self.sat(st, z3.And(nc if nc is not True else z3.BoolVal(True), *[z3.ULE(zbv(n, 64), lim) for n in ns]))
            if r == "sat":
                return m2
        return m

    def assume_feasible(self, st, c):
        ok, m = self.feasible(st, c)
        if not ok:
            raise PathEnd()
        self.assume(st, c)
        if m is not None:
            st.model = m

    def extract(self, st, m):
        vals = []
        for a in st.anys:
            if a[0] == "bits":
                v = a[2]
                if not isinstance(v, int):
                    v = m.eval(v, model_completion=True).as_long()
                vals.append(["bits", a[1], v, a[3]])
            elif a[0] == "buf":
                n = a[1]
                if not isinstance(n, int):
                    n = m.eval(n, model_completion=True).as_long()
                if n > 1 << 20:
                    vals.append(["buf", n, None, a[3]])
                    continue
                bs = []
                for i in range(n):
                    if isinstance(a[2], list):
                        b = m.eval(a[2][i], model_completion=True).as_long()
                    else:
                        b = m.eval(z3.Select(a[2], BVV(i, 64)), model_completion=True).as_long()
                    bs.append(b)
                vals.append(["buf", n, bs, a[3]])
        return {"values": vals}

    # ---------------------------------------------------------------- memory
    def new_region(self, st, size, kind, name="", align=16):
        self.rid += 1
        r = Region(self.rid, size, kind, name)
        r.align = align
        st.mem[r.rid] = r
        return r.rid

    def global_region(self, st, name):
        rid = st.flags.setdefault("globals", {}).get(name)
        if rid is not None:
            return rid
        g = self.globs[name]
        # deterministic ids for globals so that forks agree
        rid = -(list(self.globs).index(name) + 1)
        r = Region(rid, g["sz"], "global", name)
        r.align = g["al"]
        r.const = g["const"]
        if "init" not in g:
            r.arr = None
        else:
            for it in g["init"]:
                if it[1] == "zero":
                    off, n = it[0], it[2]
                    if n > 4096:
                        r.arr = z3.K(z3.BitVecSort(64), BVV(0, 8))
                    else:
                        o = off
                        while n > 0:
                            k = 8 if (n >= 8 and o % 8 == 0) else 1
                            r.cells[o] = (k, f"i{8*k}", 0)
                            o += k
                            n -= k
                else:
                    v = self.const(st, it[3])
                    t = it[2]
                    r.cells[it[0]] = (tostore(t), t, v)
        st.mem[rid] = r
        gl = dict(st.flags.get("globals", {}))
        gl[name] = rid
        st.flags["globals"] = gl
        return rid

    def check_access(self, st, p, n, what):
        if isinstance(p, Fn):
            raise Unsupported("data access to a function")
        if not isinstance(p, Ptr):
            raise Unsupported(f"access through {p!r}")
        if p.rid == 0:
            self.oblige(st, False, "memory", f"{what}: null or wild pointer access @ {self.srcwhere(st)}")
        r = st.mem.get(p.rid)
        if r is None or not r.alive:
            self.oblige(st, False, "memory", f"{what}: use after end of lifetime @ {self.srcwhere(st)}")
        c = self.inbounds(p.off, n, r.size)
        if c is not True:
            self.oblige(st, c, "memory", f"{what}: in bounds of {r.kind} {r.name} @ {self.srcwhere(st)}")
        elif not self.probe:
            self.stats.trivial += 1
        return r

    def inbounds(self, off, n, size):
        if isinstance(off, int) and isinstance(size, int) and isinstance(n, int):
            return off + n <= size
        o, s, nn = zbv(off, 64), zbv(size, 64), zbv(n, 64)
        return z3.And(z3.ULE(nn, s), z3.ULE(o, s - nn))

    def getbyte(self, st, r, o):
        """byte at concrete offset"""
        for back in range(0, 16):
            c = r.cells.get(o - back)
            if c is not None:
                if c[0] > back:
                    return self.cellbyte(c, back)
                break
        if r.arr is not None:
            return norm(z3.Select(r.arr, BVV(o, 64)))
        b = self.fresh(8, "undef")
        if not r.shared:
            r.cells[o] = (1, "i8", b)
        else:
            r = st.wreg(r.rid)
            r.cells[o] = (1, "i8", b)
        return b

    def cellbyte(self, c, k):
        v = self.tobits(c[2], c[1], c[0] * 8)
        if isinstance(v, int):
            return (v >> (8 * k)) & 0xFF
        return norm(z3.Extract(8 * k + 7, 8 * k, v))

    def tobits(self, v, t, w):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, z3.BoolRef):
            return z3.If(v, BVV(1, w), BVV(0, w))
        if isinstance(v, z3.FPRef):
            b = fpbits(v)
            if isinstance(b, int):
                return b
            return b
        if isinstance(v, z3.BitVecRef):
            if v.size() < w:
                return z3.ZeroExt(w - v.size(), v)
            return v
        if isinstance(v, Ptr) and v.rid == 0 and isinstance(v.off, int):
            return v.off
        if isinstance(v, Ptr):
            raise Unsupported("byte-wise access to a pointer")
        raise Unsupported(f"bits of {v!r}")

    def frombits(self, b, t):
        if t == "ptr":
            if isinstance(b, int) and b == 0:
                return NULL
            if isinstance(b, int):
                return Ptr(0, b)
            raise Unsupported("pointer made from bytes")
        if t in ("f32", "f64"):
            if isinstance(b, int):
                return fpconst(b, t)
            return frombv(b, t)
        if t == "f80":
            if isinstance(b, int):
                return z3.simplify(z3.fpBVToFP(BVV(b, 80), F80))
            raise Unsupported("f80 load")
        w = width(t)
        if isinstance(b, int):
            if w == 1:
                return bool(b & 1)
            return b & ((1 << w) - 1)
        if b.size() > w:
            b = z3.Extract(w - 1, 0, b)
        if w == 1:
            return norm(b == BVV(1, 1))
        return b

    def load(self, st, p, t):
        if isinstance(t, dict):
            if t["k"] == "s":
                return tuple(self.load(st, Ptr(p.rid, off_add(p.off, o)), ft) for o, ft in t["f"])
            return tuple(self.load(st, Ptr(p.rid, off_add(p.off, i * t["es"])), t["e"]) for i in range(t["n"]))
        n = tostore(t)
        r = self.check_access(st, p, n, "load")
        return self.load_raw(st, r, p.off, n, t)

    def whole_cells(self, r, off, n):
        """bits of n bytes that are several whole cells or lie within one cell, without splitting values into bytes"""
        for back in range(0, 16):
            c = r.cells.get(off - back)
            if c is not None:
                if c[0] >= back + n and (back or c[0] > n):
                    v = self.tobits(c[2], c[1], c[0] * 8)
                    if isinstance(v, int):
                        return (v >> (8 * back)) & ((1 << (8 * n)) - 1)
                    return norm(z3.Extract(8 * (back + n) - 1, 8 * back, v))
                break
        parts, o = [], off
        while o < off + n:
            c = r.cells.get(o)
            if c is None or o + c[0] > off + n:
                return None
            parts.append((self.tobits(c[2], c[1], c[0] * 8), c[0] * 8))
            o += c[0]
        if all(isinstance(v, int) for v, _ in parts):
            x = 0
            for v, w in reversed(parts):
                x = x << w | v & ((1 << w) - 1)
            return x
        if len(parts) == 1:
            return zbv(*parts[0])
        return z3.simplify(z3.Concat(*[zbv(v, w) for v, w in reversed(parts)]))

    def load_raw(self, st, r, off, n, t):
        if isinstance(off, z3.ExprRef):
            off = norm(off)
        if isinstance(off, int):
            c = r.cells.get(off)
            if c is not None and c[0] == n:
                if c[1] == t:
                    return c[2]
                if t == "ptr" and isinstance(c[2], (Ptr, Fn)):
                    return c[2]
                if isinstance(c[2], (Ptr, Fn)):
                    if is_int(t) and width(t) == 64:
                        v = c[2]
                        return AddrInt(v.rid, v.off) if isinstance(v, Ptr) else v
                    raise Unsupported("pointer read as " + t)
                return self.frombits(self.tobits(c[2], c[1], n * 8), t)
            if c is None and r.arr is None and not r.cells_overlap(off, n):
                # uninitialised: arbitrary but stable
                if t == "ptr":
                    raise Unsupported("read of an uninitialised pointer @ " + self.where(st))
                v = self.freshval(t, "uninit")
                r = st.wreg(r.rid)
                r.cells[off] = (n, t, v)
                return v
            e = self.whole_cells(r, off, n)
            if e is not None:
                return self.frombits(e, t)
            bs = [self.getbyte(st, r, off + i) for i in range(n)]
            if all(isinstance(b, int) for b in bs):
                x = 0
                for i, b in enumerate(bs):
                    x |= b << (8 * i)
                return self.frombits(x, t)
            e = z3.Concat(*[zbv(b, 8) for b in reversed(bs)]) if n > 1 else zbv(bs[0], 8)
            return self.frombits(z3.simplify(e), t)
        # symbolic offset
        if r.arr is not None or not isinstance(r.size, int):
            r = self.arrayify(st, r)
            bs = [z3.Select(r.arr, zbv(off_add(off, i), 64)) for i in range(n)]
            e = z3.Concat(*reversed(bs)) if n > 1 else bs[0]
            return self.frombits(z3.simplify(e), t)
        cand = self.candidates(st, r, off, n)
        if cand is None:
            r = self.arrayify(st, r)
            return self.load_raw(st, r, off, n, t)
        if not cand:
            raise PathEnd()
        if t == "ptr":
            return self.load_raw(st, r, self.concretize(st, off, cand), n, t)
        try:
            vals = [(o, self.load_raw(st, r, o, n, t)) for o in cand]
        except Unsupported:
            # some candidate offsets hit pointers: decide which ones are possible
            return self.load_raw(st, r, self.concretize(st, off, cand), n, t)
        if any(isinstance(v, (Ptr, Fn, AddrInt)) for _, v in vals):
            o = self.concretize(st, off, cand)
            return self.load_raw(st, r, o, n, t)
        res = self.table(off, vals, t)
        if res is not None:
            return res
        res = vals[-1][1]
        for o, v in reversed(vals[:-1]):
            res = self.ite(off == BVV(o, 64), v, res, t)
        return res

    def table(self, off, vals, t):
        """an element of a constant table as a few straight lines, if it consists of such (digits, ramps)"""
        if not is_int(t) or width(t) > 64 or len(vals) < 4 or not all(isinstance(v, int) for _, v in vals):
            return None
        w = width(t)
        step = vals[1][0] - vals[0][0]
        runs = []  # first offset, last offset, first value, slope per byte
        for o, v in vals:
            if runs:
                a, b, v0, k = runs[-1]
                d = sgn((v - v0) & ((1 << w) - 1), w)
                if k is None and d % step == 0:
                    runs[-1] = (a, o, v0, d // step)
                    continue
                if k is not None and (v0 + k * (o - a) - v) & ((1 << w) - 1) == 0:
                    runs[-1] = (a, o, v0, k)
                    continue
            runs.append((o, o, v, None))
        if len(runs) * 3 > len(vals):
            return None
        x = zbv(off, 64) if w == 64 else z3.Extract(w - 1, 0, zbv(off, 64))
        res = None
        for a, b, v, k in reversed(runs):
            e = BVV(v, w) if not k else BVV((v - k * a) & ((1 << w) - 1), w) + (x if k == 1 else BVV(k & ((1 << w) - 1), w) * x)
            res = e if res is None else z3.If(z3.ULE(off, BVV(b, 64)), e, res)
        return norm(res)

    def ite(self, c, a, b, t):
        if a is b:
            return a
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(t, str) and t in ("f32", "f64", "f80"):
            return z3.If(c, a, b)
        if is_int(t):
            if isinstance(a, AddrInt) or isinstance(b, AddrInt):
                if isinstance(a, AddrInt) and isinstance(b, AddrInt) and a.rid == b.rid:
                    return AddrInt(a.rid, norm(z3.If(c, zbv(a.off, 64), zbv(b.off, 64))))
                raise Unsupported("ite on addresses")
            w = width(t)
            if w == 1:
                return norm(z3.If(c, zbool(a), zbool(b)))
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            return z3.If(c, zbv(a, w), zbv(b, w))
        raise Unsupported(f"ite on {t}")

    def candidates(self, st, r, off, n):
        """concrete offsets a symbolic offset may take in r (aligned by the stride visible in the expression)"""
        stride, c = stride_of(off)
        step = max(1, stride)
        start = c % step
        cand = [o for o in range(start, r.size - n + 1, step)]
        if len(cand) > self.opts.get("max_cells", 80):
            return None
        return cand

    def concretize(self, st, off, cand):
        """fork over the feasible values of off"""
        for o in cand[:-1] if len(cand) > 1 else cand:
            eq = off == BVV(o, 64)
            if self.fork(st, eq):
                return o
        return cand[-1]

    def arrayify(self, st, r):
        if not r.cells and r.arr is not None:
            return r
        r = st.wreg(r.rid)
        a = r.arr
        if a is None:
            self.nfresh += 1
            a = z3.Array(f"mem!{self.nfresh}", z3.BitVecSort(64), z3.BitVecSort(8))
        for o, c in sorted(r.cells.items()):
            for k in range(c[0]):
                a = z3.Store(a, BVV(o + k, 64), zbv(self.cellbyte(c, k), 8))
        r.cells = {}
        r.arr = a
        return r

    def store(self, st, p, v, t):
        if isinstance(t, dict):
            if t["k"] == "s":
                for (o, ft), x in zip(t["f"], v):
                    self.store(st, Ptr(p.rid, off_add(p.off, o)), x, ft)
            else:
                for i in range(t["n"]):
                    self.store(st, Ptr(p.rid, off_add(p.off, i * t["es"])), v[i], t["e"])
            return
        n = tostore(t)
        r = self.check_access(st, p, n, "store")
        if r.const:
            self.oblige(st, False, "memory", f"store to a constant object @ {self.srcwhere(st)}")
        self.store_raw(st, st.wreg(p.rid), p.off, n, v, t)

    def store_raw(self, st, r, off, n, v, t):
        if isinstance(off, z3.ExprRef):
            off = norm(off)
        if st.wlog is not None:
            st.wlog.append((r.rid, off if isinstance(off, int) else None, n))
        if isinstance(off, int):
            if r.arr is not None and not isinstance(r.size, int):
                # array region of symbolic size: keep everything in the array
                if isinstance(v, (Ptr, Fn, AddrInt)):
                    raise Unsupported("pointer stored in a byte buffer")
                b = zbv(self.tobits(v, t, n * 8), n * 8)
                a = r.arr
                for k in range(n):
                    a = z3.Store(a, BVV(off + k, 64), norm_bv(z3.Extract(8 * k + 7, 8 * k, b)))
                r.arr = a
                return
            self.carve(st, r, off, n)
            r.cells[off] = (n, t, v)
            return
        if isinstance(v, (Ptr, Fn, AddrInt)):
            cand = self.candidates(st, r, off, n) if isinstance(r.size, int) else None
            if cand is None:
                raise Unsupported("pointer stored at a symbolic offset")
            o = self.concretize(st, off, cand)
            r = st.wreg(r.rid)
            return self.store_raw(st, r, o, n, v, t)
        if r.arr is None and isinstance(r.size, int):
            cand = self.candidates(st, r, off, n)
            if cand is not None:
                if not cand:
                    raise PathEnd()
                isp = [o for o in cand if any(isinstance(c[2], (Ptr, Fn, AddrInt)) and q < o + n and o < q + c[0] for q, c in r.cells.items())]
                for o in isp:
                    # stored over a pointer: usually impossible, else a path of its own
                    if self.fork(st, off == BVV(o, 64)):
                        return self.store_raw(st, st.wreg(r.rid), o, n, v, t)
                for o in cand:
                    if o in isp:
                        continue
                    old = self.load_raw(st, r, o, n, t)
                    r = st.wreg(r.rid)
                    nv = self.ite(off == BVV(o, 64), v, old, t)
                    self.carve(st, r, o, n)
                    r.cells[o] = (n, t, nv)
                return
        r = self.arrayify(st, r)
        r = st.wreg(r.rid)
        b = zbv(self.tobits(v, t, n * 8), n * 8)
        a = r.arr
        for k in range(n):
            a = z3.Store(a, zbv(off_add(off, k), 64), norm_bv(z3.Extract(8 * k + 7, 8 * k, b)))
        r.arr = a

    def carve(self, st, r, off, n):
        """remove cells overlapping [off, off+n), keeping the bytes outside"""
        for o in range(off - 15, off + n):
            c = r.cells.get(o)
            if c is None or o + c[0] <= off:
                continue
            if o >= off and o + c[0] <= off + n:
                del r.cells[o]
                continue
            del r.cells[o]
            for k in range(c[0]):
                if not (off <= o + k < off + n):
                    r.cells[o + k] = (1, "i8", self.cellbyte(c, k))

    def copy(self, st, d, s, n, move=False):
        """memcpy / memmove"""
        if isinstance(n, z3.ExprRef):
            n = norm(n)
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            # fork on zero; then symbolic length
            if self.fork(st, n == 0):
                return
            sr = self.check_access(st, s, n, "memcpy source")
            dr = self.check_access(st, d, n, "memcpy destination")
            small = None
            for r, p in ((dr, d), (sr, s)):
                if isinstance(r.size, int) and r.size <= 128 and small is None:
                    small = r.size
            if small is not None:
                for k in range(1, small):
                    if self.fork(st, n == k):
                        return self.copy(st, d, s, k, move)
                return self.copy(st, d, s, small, move)
            if d.rid == s.rid and not move:
                pass
            sa = self.arrayify(st, sr).arr
            dr = self.arrayify(st, st.mem[d.rid])
            dr = st.wreg(d.rid)
            if st.wlog is not None:
                st.wlog.append((d.rid, None, 0))
            j = z3.BitVec("j!lam", 64)
            do, so = zbv(d.off, 64), zbv(s.off, 64)
            dr.arr = z3.Lambda([j], z3.If(z3.And(z3.UGE(j, do), z3.ULT(j - do, n)), z3.Select(sa, j - do + so), z3.Select(dr.arr, j)))
            return
        sr = self.check_access(st, s, n, "memcpy source")
        dr = self.check_access(st, d, n, "memcpy destination")
        if dr.const:
            self.oblige(st, False, "memory", f"memcpy to a constant object @ {self.srcwhere(st)}")
        so, do = s.off, d.off
        if isinstance(so, z3.ExprRef):
            so = norm(so)
        if isinstance(do, z3.ExprRef):
            do = norm(do)
        if isinstance(so, int) and isinstance(do, int) and not (sr.arr is not None and not isinstance(sr.size, int)) and not (dr.arr is not None and not isinstance(dr.size, int)):
            items = []
            o = so
            while o < so + n:
                c = sr.cells.get(o)
                if c is not None and o + c[0] <= so + n:
                    items.append((o - so, c))
                    o += c[0]
                    continue
                if sr.arr is None and not sr.cells_overlap(o, 1):
                    o += 1
                    continue  # uninitialised stays uninitialised
                items.append((o - so, (1, "i8", self.getbyte(st, st.mem[s.rid], o))))
                o += 1
            dr = st.wreg(d.rid)
            if st.wlog is not None:
                st.wlog.append((d.rid, do, n))
            self.carve(st, dr, do, n)
            for ro, c in items:
                dr.cells[do + ro] = c
            return
        if n > 512:
            raise Unsupported("large memcpy at symbolic offset")
        # element-wise
        bs = [self.load_raw(st, st.mem[s.rid], off_add(so, i), 1, "i8") for i in range(n)]
        for i in range(n):
            self.store_raw(st, st.wreg(d.rid), off_add(do, i), 1, bs[i], "i8")

    def memset(self, st, d, v, n):
        if isinstance(n, z3.ExprRef):
            n = norm(n)
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            if self.fork(st, n == 0):
                return
            dr = self.check_access(st, d, n, "memset")
            dr = self.arrayify(st, dr)
            dr = st.wreg(d.rid)
            if st.wlog is not None:
                st.wlog.append((d.rid, None, 0))
            j = z3.BitVec("j!lam", 64)
            do = zbv(d.off, 64)
            dr.arr = z3.Lambda([j], z3.If(z3.And(z3.UGE(j, do), z3.ULT(j - do, n)), zbv(v, 8), z3.Select(dr.arr, j)))
            return
        self.check_access(st, d, n, "memset")
        do = norm(d.off) if isinstance(d.off, z3.ExprRef) else d.off
        if isinstance(do, int):
            r = st.wreg(d.rid)
            if st.wlog is not None:
                st.wlog.append((d.rid, do, n))
            if r.arr is not None and not isinstance(r.size, int):
                for i in range(n):
                    self.store_raw(st, r, do + i, 1, v, "i8")
                return
            if n > 4096 and v == 0 and do == 0 and n == r.size:
                r.cells = {}
                r.arr = z3.K(z3.BitVecSort(64), BVV(0, 8))
                return
            self.carve(st, r, do, n)
            if isinstance(v, int) and v == 0:
                o, k = do, n
                while k > 0:
                    w = 8 if o % 8 == 0 and k >= 8 else 4 if o % 4 == 0 and k >= 4 else 1
                    r.cells[o] = (w, f"i{8*w}", 0)
                    o += w
                    k -= w
                return
            for i in range(n):
                r.cells[do + i] = (1, "i8", v)
            return
        for i in range(n):
            self.store_raw(st, st.wreg(d.rid), off_add(do, i), 1, v, "i8")

    # ---------------------------------------------------------------- forking
    def fork(self, st, c):
        """Split on c.  Returns the value of c on the current path, the other side is queued.
        The queued side restarts the current instruction with the decision recorded."""
        if isinstance(c, bool):
            return c
        c = norm(c)
        if isinstance(c, bool):
            return c
        dec = st.flags.get("dec")
        if dec:
            pos = st.flags.get("decpos", 0)
            if pos < len(dec):
                st.flags["decpos"] = pos + 1
                self.lastboth = True
                return dec[pos]
        ft, mt = self.feasible(st, c)
        ff, mf = self.feasible(st, z3.Not(c))
        if not ft and not ff:
            raise PathEnd()
        took = ft
        self.lastboth = ft and ff
        if ft and ff:
            # snapshot is the state at the start of this instruction
            o = self.snap.clone() if self.snap is not None else None
            if o is None:
                raise Unsupported("fork outside of an instruction")
            o.pc = list(st.pc) + [z3.Not(c)]
            o.model = mf
            nd = list(st.flags.get("dec", ())) + [False]
            o.flags = dict(o.flags)
            o.flags["dec"] = nd
            o.flags["decpos"] = 0
            self.work.append(o)
        d = list(st.flags.get("dec", ())) + [took]
        st.flags["dec"] = d
        st.flags["decpos"] = len(d)
        st.pc.append(c if took else z3.Not(c))
        st.model = mt if took else mf
        return took

    # ---------------------------------------------------------------- values
    def const(self, st, o):
        k = o[0]
        if k == "c":
            w = width(o[1])
            v = int(o[2])
            return bool(v) if w == 1 else v
        if k == "f":
            return fpconst(int(o[2]), o[1])
        if k == "n":
            return NULL
        if k == "u":
            return self.undef(o[1])
        if k == "z":
            return zero(o[1])
        if k == "fn":
            return Fn(o[1])
        if k == "g":
            return Ptr(self.global_region(st, o[1]), 0)
        if k == "ceg":
            b = self.const(st, o[1])
            return Ptr(b.rid, off_add(b.off, o[2] & ((1 << 64) - 1)))
        if k == "agg":
            return tuple(self.const(st, x) for x in o[2])
        if k == "ce":
            i = o[1]
            if i["op"] in ("ptrtoint",):
                p = self.const(st, i["a"][0])
                return AddrInt(p.rid, p.off)
            if i["op"] == "inttoptr":
                v = self.const(st, i["a"][0])
                return Ptr(0, v) if isinstance(v, int) else Ptr(v.rid, v.off)
            raise Unsupported("constant expression " + i["op"])
        raise Unsupported(f"operand {o}")

    def undef(self, t):
        if isinstance(t, dict):
            if t["k"] == "s":
                return tuple(self.undef(ft) for _, ft in t["f"])
            return tuple(self.undef(t["e"]) for _ in range(t["n"]))
        if t == "ptr":
            return NULL
        return self.freshval(t, "undef")

    def val(self, st, f, o):
        if o[0] == "v":
            return f.env[o[1]]
        if o[0] == "c":
            w = o[1]
            return bool(int(o[2])) if w == "i1" else int(o[2])
        return self.const(st, o)

    # ---------------------------------------------------------------- execution
    def explore(self, work):
        """run all states in work to the end; results are delivered by obligations and watch callbacks"""
        saved = getattr(self, "work", None), getattr(self, "snap", None)
        self.work = work
        try:
            while work:
                st = work.pop()
                self.run(st)
        finally:
            self.work, self.snap = saved

    def run(self, st):
        self.stats.paths += 1
        if self.stats.paths > self.max_paths:
            raise Undecided("path budget exhausted")
        try:
            while True:
                if not st.frames:
                    return
                self.step_block(st)
        except PathEnd:
            return
        except Unsupported as e:
            if " @ " not in str(e):
                e.args = (f"{e} @ {self.where(st)} ({self.srcwhere(st)})",)
            raise

    def step_block(self, st):
        self.st_now = st
        f = st.frames[-1]
        while True:
            blk = f.fn.blocks[f.blk]
            ins = blk[f.ip]
            self.stats.insts += 1
            if self.deadline and (self.stats.insts & 1023) == 0 and time.time() > self.deadline:
                raise Undecided("time budget of this obligation exhausted")
            op = ins["op"]
            h = self.simple.get(op)
            if h is not None:
                # no fork, no memory
                f.env[ins["id"]] = h(self, st, f, ins)
                f.ip += 1
                continue
            # possibly forking instruction
            self.snap = None
            if op in self.forky and self.may_fork(st, f, ins, op):
                if "dec" not in st.flags:
                    self.snap = Snap(st)
                else:
                    st.flags["decpos"] = 0
                    self.snap = Snap(st, keepdec=True)
            getattr(self, "i_" + op.replace("-", "_"))(st, f, ins)
            st.flags.pop("dec", None)
            st.flags.pop("decpos", None)
            if not st.frames:
                return
            f = st.frames[-1]

    forky = {"br", "switch", "load", "store", "call", "select", "cmpxchg", "atomicrmw"}

    def may_fork(self, st, f, i, op):
        """can this instruction split the path?  (then the state before it is kept)"""
        if "dec" in st.flags:
            return True
        if op == "br":
            return "c" in i and not isinstance(self.val(st, f, i["c"]), bool)
        if op == "switch":
            return not isinstance(self.val(st, f, i["c"]), int)
        if op == "load":
            p = self.val(st, f, i["a"][0])
            return not (isinstance(p, Ptr) and isinstance(p.off, int))
        if op == "store":
            p = self.val(st, f, i["a"][1])
            return not (isinstance(p, Ptr) and isinstance(p.off, int))
        if op == "call":
            c = i["f"]
            if c[0] == "fn":
                fn = self.fns.get(c[1])
                if fn is not None and not fn.decl and c[1] not in self.builtins and c[1] not in self.binds:
                    return any(isinstance(t, dict) and "byval" in t for t in fn.args)
                if c[1].startswith(("llvm.lifetime", "llvm.dbg", "vp_check", "vp_any", "vp_cover", "vp_define")):
                    return False
            return True
        return True

    # --- straight-line
    def s_bin(self, st, f, i):
        a = self.val(st, f, i["a"][0])
        b = self.val(st, f, i["a"][1])
        t = i["ty"]
        if isinstance(t, dict):
            return tuple(self.binop(i["op"], x, y, t["e"]) for x, y in zip(a, b))
        if i["op"] == "urem" and self.opts.get("urem1") and isinstance(b, z3.BitVecRef) and isinstance(a, z3.BitVecRef):
            # a remainder known to be one subtraction at most
            c = z3.ULT(a - b, b)
            if self.sat(st, z3.Not(z3.Or(z3.ULT(a, b), c)), easy=True)[0] == "unsat":
                return z3.If(z3.ULT(a, b), a, a - b)
        if self.opts.get("divdef"):
            r = self.divdef(st, i["op"], a, b, t)
            if r is not None:
                return r
        return self.binop(i["op"], a, b, t)

    def divdef(self, st, op, a, b, t):
        """division by a constant as fresh quotient and remainder with their defining facts"""
        if op in ("udiv", "urem", "sdiv", "srem"):
            if not isinstance(b, int) or not isinstance(a, z3.BitVecRef) or b < 2 or b & (b - 1) == 0:
                return None
            w = width(t)
            sg = op[0] == "s"
            if sg and b >> (w - 1):
                return None
            kd = a.decl().kind()
            if kd == z3.Z3_OP_ZERO_EXT or kd == z3.Z3_OP_CONCAT and a.num_args() == 2 and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == 0:
                n = a.arg(a.num_args() - 1)
                k = n.size()
                if b >> k:
                    return 0 if op in ("udiv", "sdiv") else a
                r = self.divdef(st, "u" + op[1:], n, b, f"i{k}")
                return r if isinstance(r, int) else z3.ZeroExt(w - k, r)
            tab = self.__dict__.setdefault("divs", {})
            key = (a.get_id(), b, sg)
            d = tab.get(key)
            if d is None:
                q, r = self.fresh(w, "q"), self.fresh(w, "r")
                if sg:
                    hi = ((1 << (w - 1)) - 1) // b
                    lo = -((1 << (w - 1)) // b)
                    facts = [a == q * b + r, q >= lo, q <= hi, z3.If(a >= 0, z3.And(r >= 0, r < b, r <= a), z3.And(r <= 0, r > -b, r >= a))]
                else:
                    top = self.__dict__.setdefault("tops", {})
                    qmax = top.get(a.get_id(), (1 << w) - 1) // b
                    top[q.get_id()], top[r.get_id()] = qmax, b - 1
                    facts = [a == q * b + r, z3.ULE(q, qmax), z3.ULT(r, b), z3.ULE(r, a)]
                d = tab[key] = (a, q, r, facts)
                self.__dict__.setdefault("quots", {})[q.get_id()] = (a, b, r)
            have = st.flags.get("divs", frozenset())
            if key not in have:
                st.flags["divs"] = have | {key}
                for c in d[3]:
                    st.pc.append(c)
                st.model = None
            return d[1] if op.endswith("div") else d[2]
        if op == "mul":
            qs = self.__dict__.get("quots")
            if not qs:
                return None
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and isinstance(a, z3.BitVecRef) and a.get_id() in qs:
                e = a * b
                self.__dict__.setdefault("prods", {})[e.get_id()] = (e, a, b)
                return e
            return None
        if op in ("sub", "add"):
            ps = self.__dict__.get("prods")
            if not ps or isinstance(a, int) or isinstance(b, int) or not isinstance(a, z3.BitVecRef) or not isinstance(b, z3.BitVecRef):
                return None
            w = a.size()
            for x, y in ((a, b), (b, a)) if op == "add" else ((a, b),):
                p = ps.get(y.get_id())
                if p:
                    x0, c, r = self.quots[p[1].get_id()]
                    k = p[2] if op == "sub" else -p[2] % (1 << w)
                    if x0.get_id() == x.get_id() and k == c:
                        return r
        return None

    def binop(self, op, a, b, t):
        if t in ("f32", "f64", "f80"):
            r = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}.get(op)
            if r is None:
                raise Unsupported(op)
            e = r(RNE, a, b)
            if z3.is_fp_value(a) and z3.is_fp_value(b):
                e = z3.simplify(e)
            return e
        w = width(t)
        if isinstance(a, AddrInt) or isinstance(b, AddrInt):
            if isinstance(a, AddrInt) and isinstance(b, AddrInt):
                if op == "sub" and a.rid == b.rid:
                    return norm_i(off_sub(a.off, b.off))
                if op == "sub":
                    return self.fresh(64, "distance")  # of unrelated objects: any number
                raise Unsupported("arithmetic on unrelated addresses")
            if op in ("add", "sub") and isinstance(a, AddrInt):
                d = b if op == "add" else (self.binop("sub", 0, b, t))
                return AddrInt(a.rid, off_add(a.off, d))
            if op == "add":
                return AddrInt(b.rid, off_add(b.off, a))
            if op == "and" and isinstance(a, AddrInt) and isinstance(b, int):
                return self.addr_mask(a, b)
            if op == "urem" and isinstance(a, AddrInt) and isinstance(b, int) and b and b & (b - 1) == 0:
                return self.addr_mask(a, b - 1)
            if op == "sub":
                return self.fresh(64, "distance")
            raise Unsupported("arithmetic on an address: " + op)
        if w == 1:
            if op == "and":
                return band(a, b) if isinstance(a, bool) or isinstance(b, bool) else z3.And(a, b)
            if op == "or":
                if a is True or b is True:
                    return True
                if a is False:
                    return b
                if b is False:
                    return a
                return z3.Or(a, b)
            if op in ("xor", "add", "sub"):
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if isinstance(a, bool):
                    a, b = b, a
                if b is False:
                    return a
                if b is True:
                    return z3.Not(a)
                return z3.Xor(a, b)
            if op == "mul":
                return band(a, b)
            raise Unsupported("i1 " + op)
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (sgn(a, w) >> min(b, w - 1)) & m
            if b == 0 and op in ("udiv", "urem", "sdiv", "srem"):
                return 0
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            if op == "sdiv":
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) & m
            if op == "srem":
                r = abs(sa) % abs(sb)
                return (r if sa >= 0 else -r) & m
            raise Unsupported(op)
        # peepholes
        if isinstance(b, int):
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if b == 0 and op in ("mul", "and"):
                return 0
            if b == 1 and op in ("mul", "udiv", "sdiv"):
                return a
            if op == "and" and b == m:
                return a
            if op == "urem" and b & (b - 1) == 0 and b:
                op, b = "and", b - 1
            if op == "udiv" and b & (b - 1) == 0 and b:
                op, b = "lshr", b.bit_length() - 1
        if isinstance(a, int):
            if a == 0 and op in ("add", "or", "xor"):
                return b
            if a == 0 and op in ("mul", "and", "shl", "lshr"):
                return 0
            if a == 1 and op == "mul":
                return b
        x, y = zbv(a, w), zbv(b, w)
        if op in ("and", "or", "xor"):
            c, d = truth(x), truth(y)
            if c is not None and d is not None:
                # truth values combined as integers stay truth values
                return z3.If(z3.And(c, d) if op == "and" else z3.Or(c, d) if op == "or" else z3.Xor(c, d), BVV(1, w), BVV(0, w))
        if op == "add":
            e = x + y
        elif op == "sub":
            e = x - y
        elif op == "mul":
            e = x * y
        elif op == "and":
            e = x & y
        elif op == "or":
            e = x | y
        elif op == "xor":
            e = x ^ y
        elif op == "shl":
            e = x << y
        elif op == "lshr":
            e = z3.LShR(x, y)
        elif op == "ashr":
            e = x >> y
        elif op == "udiv":
            e = z3.UDiv(x, y)
        elif op == "urem":
            e = z3.URem(x, y)
        elif op == "sdiv":
            e = x / y
        elif op == "srem":
            e = z3.SRem(x, y)
        else:
            raise Unsupported(op)
        if isinstance(a, int) or isinstance(b, int):
            return norm_i(e)
        return e

    def addr_mask(self, a, m):
        # alignment tests
        r = self.st_now.mem.get(a.rid)
        if r is not None and m < (max(16, r.align) if r.kind == "heap" else r.align) and m & (m + 1) == 0 and isinstance(a.off, (int, z3.ExprRef)):
            return self.binop("and", a.off, m, "i64")
        raise Unsupported("address mask")

    def s_fneg(self, st, f, i):
        a = self.val(st, f, i["a"][0])
        if isinstance(i["ty"], dict):
            return tuple(z3.simplify(z3.fpNeg(x)) for x in a)
        return z3.simplify(z3.fpNeg(a))

    def s_cast(self, st, f, i):
        a = self.val(st, f, i["a"][0])
        return self.cast(i["op"], a, i["at"], i["ty"])

    def cast(self, op, a, ft, tt):
        if isinstance(tt, dict) or isinstance(ft, dict):
            if op == "bitcast":
                return self.vbitcast(a, ft, tt)
            return tuple(self.cast(op, x, ft["e"], tt["e"]) for x in a)
        if op == "zext":
            w0, w = width(ft), width(tt)
            if w0 == 1:
                if isinstance(a, bool):
                    return int(a)
                return z3.If(a, BVV(1, w), BVV(0, w))
            if isinstance(a, int):
                return a
            return z3.ZeroExt(w - w0, a)
        if op == "sext":
            w0, w = width(ft), width(tt)
            if w0 == 1:
                if isinstance(a, bool):
                    return (1 << w) - 1 if a else 0
                return z3.If(a, BVV((1 << w) - 1, w), BVV(0, w))
            if isinstance(a, int):
                return sgn(a, w0) & ((1 << w) - 1)
            return z3.SignExt(w - w0, a)
        if op == "trunc":
            w = width(tt)
            if isinstance(a, AddrInt):
                raise Unsupported("truncated address")
            if w == 1:
                if isinstance(a, int):
                    return bool(a & 1)
                return norm(z3.Extract(0, 0, a) == BVV(1, 1))
            if isinstance(a, int):
                return a & ((1 << w) - 1)
            return norm_i(z3.Extract(w - 1, 0, a))
        if op == "bitcast":
            if ft == tt:
                return a
            if tt in ("f32", "f64"):
                return self.frombits(a, tt)
            if ft in ("f32", "f64"):
                return fpbits(a)
            return a
        if op == "ptrtoint":
            if isinstance(a, Fn):
                return a
            if a.rid == 0:
                return a.off
            return AddrInt(a.rid, a.off)
        if op == "inttoptr":
            if isinstance(a, AddrInt):
                return Ptr(a.rid, a.off)
            return Ptr(0, a)
        if op == "uitofp":
            s = fsort(tt)
            if isinstance(a, bool):
                a = int(a)
            if isinstance(a, z3.BoolRef):
                a = zbv(a, 8)
            if isinstance(a, int):
                return z3.simplify(z3.fpToFPUnsigned(RNE, BVV(a, width(ft)), s))
            return z3.fpToFPUnsigned(RNE, a, s)
        if op == "sitofp":
            s = fsort(tt)
            if isinstance(a, int):
                return z3.simplify(z3.fpSignedToFP(RNE, BVV(a, width(ft)), s))
            return z3.fpSignedToFP(RNE, a, s)
        if op == "fptoui":
            return norm_i(z3.fpToUBV(RTZ, a, z3.BitVecSort(width(tt))))
        if op == "fptosi":
            return norm_i(z3.fpToSBV(RTZ, a, z3.BitVecSort(width(tt))))
        if op in ("fpext", "fptrunc"):
            return z3.simplify(z3.fpFPToFP(RNE, a, fsort(tt)))
        raise Unsupported(op)

    def vbitcast(self, a, ft, tt):
        def bits(v, t):
            if isinstance(t, dict):
                out = []
                for x in v:
                    out += bits(x, t["e"])
                return out
            n = tostore(t)
            b = self.tobits(v, t, n * 8)
            if isinstance(b, int):
                return [(b >> (8 * k)) & 255 for k in range(n)]
            return [z3.Extract(8 * k + 7, 8 * k, b) for k in range(n)]

        def mk(bs, t):
            if isinstance(t, dict):
                n = tostore(t["e"])
                return tuple(mk(bs[i * n:(i + 1) * n], t["e"]) for i in range(t["n"]))
            if all(isinstance(x, int) for x in bs):
                x = 0
                for i, b in enumerate(bs):
                    x |= b << (8 * i)
                return self.frombits(x, t)
            e = z3.Concat(*[zbv(b, 8) for b in reversed(bs)]) if len(bs) > 1 else bs[0]
            return self.frombits(z3.simplify(e), t)

        return mk(bits(a, ft), tt)

    def s_gep(self, st, f, i):
        b = self.val(st, f, i["base"])
        off = i["c"] & ((1 << 64) - 1)
        for s, o, t in i["vars"]:
            v = self.val(st, f, o)
            w = width(t)
            if isinstance(v, AddrInt):
                raise Unsupported("address used as index")
            if w < 64:
                v = self.cast("sext", v, t, "i64")
            d = self.binop("mul", v, s & ((1 << 64) - 1), "i64")
            off = off_add(off, d)
        if isinstance(b, Fn):
            if off == 0:
                return b
            raise Unsupported("gep on function")
        return Ptr(b.rid, off_add(b.off, off))

    def s_extractvalue(self, st, f, i):
        v = self.val(st, f, i["a"][0])
        for k in i["ix"]:
            v = v[k]
        return v

    def s_insertvalue(self, st, f, i):
        v = self.val(st, f, i["a"][0])
        x = self.val(st, f, i["a"][1])

        def ins(v, ix):
            if not ix:
                return x
            l = list(v)
            l[ix[0]] = ins(l[ix[0]], ix[1:])
            return tuple(l)

        return ins(v, i["ix"])

    def s_extractelement(self, st, f, i):
        v = self.val(st, f, i["a"][0])
        k = self.val(st, f, i["a"][1])
        if not isinstance(k, int):
            raise Unsupported("extractelement at symbolic index")
        return v[k]

    def s_insertelement(self, st, f, i):
        v = list(self.val(st, f, i["a"][0]))
        x = self.val(st, f, i["a"][1])
        k = self.val(st, f, i["a"][2])
        if not isinstance(k, int):
            raise Unsupported("insertelement at symbolic index")
        v[k] = x
        return tuple(v)

    def s_shufflevector(self, st, f, i):
        a = self.val(st, f, i["a"][0])
        b = self.val(st, f, i["a"][1])
        ab = tuple(a) + tuple(b)
        return tuple(ab[k] if k >= 0 else self.undef(i["at"]["e"]) for k in i["m"])

    def s_freeze(self, st, f, i):
        return self.val(st, f, i["a"][0])

    def s_fcmp(self, st, f, i):
        a = self.val(st, f, i["a"][0])
        b = self.val(st, f, i["a"][1])
        return self.fcmp(i["p"], a, b)

    def fcmp(self, p, a, b):
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if p == "true":
            return True
        if p == "false":
            return False
        if p == "uno":
            return norm(un)
        if p == "ord":
            return norm(z3.Not(un))
        base = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}
        k = p[1:]
        if k == "ne":
            e = z3.Not(z3.fpEQ(a, b))
            if p[0] == "o":
                e = z3.And(e, z3.Not(un))
            # une: true if unordered; fpEQ is false on NaN so Not(fpEQ) is true: right
            return norm(e)
        e = base[k](a, b)
        if p[0] == "u":
            e = z3.Or(e, un)
        return norm(e)

    def s_phi(self, st, f, i):
        raise Unsupported("phi out of place")

    def s_alloca(self, st, f, i):
        n = self.val(st, f, i["n"])
        if not isinstance(n, int):
            raise Unsupported("variable-size alloca")
        rid = self.new_region(st, i["sz"] * n, "local", f"in {f.fn.dem.split('(')[0]}", i["al"])
        f.allocas.append(rid)
        return Ptr(rid, 0)

    simple = {}
    for _o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem", "fadd", "fsub", "fmul", "fdiv", "frem"):
        simple[_o] = s_bin
    for _o in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"):
        simple[_o] = s_cast
    simple.update(gep=s_gep, extractvalue=s_extractvalue, insertvalue=s_insertvalue, freeze=s_freeze, fcmp=s_fcmp, alloca=s_alloca, fneg=s_fneg,
                  extractelement=s_extractelement, insertelement=s_insertelement, shufflevector=s_shufflevector)

    # --- compare / select
    def i_icmp(self, st, f, i):
        a = self.val(st, f, i["a"][0])
        b = self.val(st, f, i["a"][1])
        if isinstance(i["at"], dict):
            f.env[i["id"]] = tuple(self.icmp(st, i["p"], x, y, i["at"]["e"]) for x, y in zip(a, b))
        else:
            f.env[i["id"]] = self.icmp(st, i["p"], a, b, i["at"])
        f.ip += 1

    def icmp(self, st, p, a, b, t):
        if isinstance(a, AddrInt):
            a = Ptr(a.rid, a.off)
        if isinstance(b, AddrInt):
            b = Ptr(b.rid, b.off)
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, int):
                a = Ptr(0, a)
            if isinstance(b, int):
                b = Ptr(0, b)
            if isinstance(a, Fn) or isinstance(b, Fn):
                same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
                if p == "eq":
                    return same
                if p == "ne":
                    return not same
                raise Unsupported("function pointer order")
            if a.rid != b.rid:
                if p in ("eq", "ne"):
                    return p == "ne"
                if a.rid == 0 and isinstance(a.off, int) and a.off == 0:
                    return p in ("ult", "ule")
                if b.rid == 0 and isinstance(b.off, int) and b.off == 0:
                    return p in ("ugt", "uge")
                # either order of two objects, the same one throughout
                lo, hi = min(a.rid, b.rid), max(a.rid, b.rid)
                o = z3.Bool(f"object{lo}!before!object{hi}")
                return o if (a.rid == lo) == (p in ("ult", "ule")) else z3.Not(o)
            a, b = a.off, b.off
            w = 64
        elif not is_int(t):
            raise Unsupported(f"icmp {t}")
        else:
            w = width(t)
        if w == 1:
            if p == "eq":
                if isinstance(a, bool) and isinstance(b, bool):
                    return a == b
                return norm(zbool(a) == zbool(b))
            if p == "ne":
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                return norm(z3.Xor(zbool(a), zbool(b)))
            a, b = zbv(a, 1), zbv(b, 1)
            a, b = norm(a), norm(b)
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            k = p if p in ("eq", "ne") else p[1:]
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k]
        x, y = zbv(a, w), zbv(b, w)
        e = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "ugt": lambda: z3.UGT(x, y),
             "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y, "sgt": lambda: x > y, "sge": lambda: x >= y}[p]()
        return norm(e)

    def i_select(self, st, f, i):
        c = self.val(st, f, i["a"][0])
        a = self.val(st, f, i["a"][1])
        b = self.val(st, f, i["a"][2])
        t = i["ty"]
        if isinstance(c, tuple):
            f.env[i["id"]] = tuple(self.ite(k, x, y, t["e"]) for k, x, y in zip(c, a, b))
            f.ip += 1
            return
        f.env[i["id"]] = self.choose(st, c, a, b, t)
        f.ip += 1

    def choose(self, st, c, a, b, t):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(t, dict):
            if any(isinstance(x, (Ptr, Fn, tuple)) for x in list(a) + list(b)):
                return a if self.fork(st, c) else b
            ts = [ft for _, ft in t["f"]] if t["k"] == "s" else [t["e"]] * t["n"]
            return tuple(self.ite(c, x, y, tt) for x, y, tt in zip(a, b, ts))
        if t == "ptr" or isinstance(a, (AddrInt, Fn)) or isinstance(b, (AddrInt, Fn)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid and a.rid != 0:
                return Ptr(a.rid, norm(z3.If(c, zbv(a.off, 64), zbv(b.off, 64))))
            return a if self.fork(st, c) else b
        if is_int(t) and width(t) == 1:
            return norm(z3.If(c, zbool(a), zbool(b)))
        return self.ite(c, a, b, t)

    # --- control flow
    def goto(self, st, f, b):
        """transfer control to block b of frame f"""
        src = f.blk
        fn = f.fn
        # leaving loops cut by an invariant
        depth = len(st.frames)
        while st.watchloops:
            w = st.watchloops[-1]
            if w["depth"] == depth and b not in w["blocks"]:
                if w["probe"]:
                    w["exit"](st)
                    raise PathEnd()
                st.watchloops.pop()
                continue
            break
        if b in fn.loops:
            blocks = fn.loops[b]
            key = (f.sig, fn.name, b)
            back = src in blocks and (src != b or True) and f.prev != -2 and src in blocks
            if src in blocks:
                # back edge
                if st.watchloops and st.watchloops[-1]["depth"] == depth and st.watchloops[-1]["h"] == b:
                    self.phis(st, f, src, b)
                    f.prev, f.blk = src, b
                    f.ip = self.nphi(fn.blocks[b])
                    st.watchloops[-1]["back"](st)
                    raise PathEnd()
                n = f.cnt.get(b, 0) + 1
                f.cnt[b] = n
                if n > 2 and st.model is not None and False:
                    pass
                lim = self.unroll
                sx = st.flags.get("symexit", {}).get((depth, b), 0)
                counted = (depth, b) in st.flags.get("concexit", ())
                if st.spec and sx > (self.opts.get("sym_unroll", 6) if counted else 0) and key not in self.loopmode:
                    self.loopmode[key] = "inv"
                    raise Restart()
                if n > lim:
                    if st.spec and key not in self.loopmode:
                        self.loopmode[key] = "inv"
                        raise Restart()
                    # is another iteration possible at all?
                    r, m = self.sat(st, z3.BoolVal(True))
                    if r == "unsat":
                        raise PathEnd()
                    if self.opts.get("bound_ok"):
                        self.bounded_note.append(f"{fn.dem} block {b} cut after {lim} iterations")
                        raise PathEnd()
                    raise Undecided(f"loop not exhausted after {lim} iterations: {self.where(st)}")
            else:
                f.cnt[b] = 0
                ce = st.flags.get("concexit")
                if ce and (depth, b) in ce:
                    st.flags["concexit"] = ce - {(depth, b)}
                se = st.flags.get("symexit")
                if se and (depth, b) in se:
                    se = dict(se)
                    se.pop((depth, b))
                    st.flags["symexit"] = se
                if st.spec and self.opts.get("cutfn") and re.search(str(self.opts["cutfn"]), fn.dem):
                    self.loopmode[key] = "inv"
                if self.loopmode.get(key) == "inv":
                    self.phis(st, f, src, b)
                    f.prev, f.blk = src, b
                    f.ip = self.nphi(fn.blocks[b])
                    self.cut(st, f, b, blocks, key)
                    return
        self.phis(st, f, src, b)
        f.prev, f.blk = src, b
        f.ip = self.nphi(fn.blocks[b])

    def nphi(self, blk):
        n = 0
        while blk[n]["op"] == "phi":
            n += 1
        return n

    def phis(self, st, f, src, b):
        blk = f.fn.blocks[b]
        vals = []
        for i in blk:
            if i["op"] != "phi":
                break
            for p, o in i["in"]:
                if p == src:
                    vals.append((i["id"], self.val(st, f, o)))
                    break
            else:
                raise Unsupported("phi without edge")
        for k, v in vals:
            f.env[k] = v

    def i_br(self, st, f, i):
        if "c" not in i:
            return self.goto(st, f, i["t"])
        c = self.val(st, f, i["c"])
        if not isinstance(c, bool):
            c = norm(c)
        if isinstance(c, bool):
            if st.spec:
                for h, blocks in f.fn.loops.items():
                    if f.blk in blocks and ((i["t"] in blocks) != (i["e"] in blocks)):
                        # a counted loop: this exit test is decided without knowing the inputs
                        ce = st.flags.get("concexit", frozenset())
                        if (len(st.frames), h) not in ce:
                            st.flags["concexit"] = ce | {(len(st.frames), h)}
            return self.goto(st, f, i["t"] if c else i["e"])
        # symbolic: note loops whose exit test this is
        self.lastboth = False
        took = self.fork(st, c)
        both = self.lastboth
        for h, blocks in f.fn.loops.items():
            if f.blk in blocks and ((i["t"] in blocks) != (i["e"] in blocks)):
                other = i["e"] if took else i["t"]
                if both:
                    se = dict(st.flags.get("symexit", {}))
                    k = (len(st.frames), h)
                    se[k] = se.get(k, 0) + 1
                    st.flags["symexit"] = se
        return self.goto(st, f, i["t"] if took else i["e"])

    def i_switch(self, st, f, i):
        c = self.val(st, f, i["c"])
        if isinstance(c, int):
            for cv, b in i["cases"]:
                if int(self.const(st, cv)) == int(c):
                    return self.goto(st, f, b)
            return self.goto(st, f, i["d"])
        w = width(i["at"])
        for cv, b in i["cases"]:
            if self.fork(st, zbv(c, w) == BVV(int(self.const(st, cv)), w)):
                return self.goto(st, f, b)
        return self.goto(st, f, i["d"])

    def i_unreachable(self, st, f, i):
        self.oblige(st, False, "safety", f"unreachable code reached @ {self.srcwhere(st)}")
        raise PathEnd()

    def i_ret(self, st, f, i):
        v = self.val(st, f, i["a"][0]) if i["a"] else None
        for rid in f.allocas:
            if rid in st.mem:
                del st.mem[rid]
        depth = len(st.frames)
        while st.watchloops and st.watchloops[-1]["depth"] >= depth:
            w = st.watchloops[-1]
            if w["probe"]:
                w["exit"](st)
                raise PathEnd()
            st.watchloops.pop()
        st.frames.pop()
        if f.tag is not None:
            kind, info = f.tag
            if kind == "hook":
                st.inhook -= 1
                return
            if kind == "eval":
                st.ret = v
                info(st, v)
                raise PathEnd()
            if kind == "harness":
                info(st)
                raise PathEnd()
        if not st.frames:
            return
        g = st.frames[-1]
        ci = g.fn.blocks[g.blk][g.ip]
        if "id" in ci and ci["ty"] != "void":
            g.env[ci["id"]] = v
        if ci.get("inv"):
            self.goto(st, g, ci["t"])
        else:
            g.ip += 1

    def i_resume(self, st, f, i):
        raise Unsupported("exception propagation")

    # --- memory instructions
    def hook_access(self, st, f, p, n, isw, atomic, order, stage=0):
        """run the access hook the harness installed.  Returns True if a hook frame was pushed (re-execute later)."""
        hk = st.flags.get("hook")
        if hk is None or st.inhook or not isinstance(p, Ptr):
            return False
        done = st.flags.get("hooked")
        if done is not None and done[:3] == (len(st.frames), f.blk, f.ip) and done[3] >= stage:
            if done[3] == stage:
                st.flags.pop("hooked")
            return False
        r = st.mem.get(p.rid)
        if r is None or r.watch is None:
            return False
        st.flags["hooked"] = (len(st.frames), f.blk, f.ip, stage)
        g = self.push(st, self.fns[hk], [p, n, int(isw), int(atomic), order])
        g.tag = ("hook", None)
        st.inhook += 1
        return True

    def i_load(self, st, f, i):
        p = self.val(st, f, i["a"][0])
        if self.hook_access(st, f, p, tsize(i["ty"]), False, i["ord"] > 0, i["ord"]):
            return
        f.env[i["id"]] = self.load(st, p, i["ty"])
        f.ip += 1
        if i["ord"] > 0:
            self.post_atomic(st, f, p, 0, i["ord"])

    def i_store(self, st, f, i):
        v = self.val(st, f, i["a"][0])
        p = self.val(st, f, i["a"][1])
        if self.hook_access(st, f, p, tsize(i["st"]), True, i["ord"] > 0, i["ord"]):
            return
        self.store(st, p, v, i["st"])
        f.ip += 1
        if i["ord"] > 0:
            self.post_atomic(st, f, p, 1, i["ord"])

    def post_atomic(self, st, f, p, kind, order):
        hk = st.flags.get("posthook")
        if hk is None or st.inhook:
            return
        r = st.mem.get(p.rid)
        if r is None or r.watch is None:
            return
        g = self.push(st, self.fns[hk], [p, kind, order])
        g.tag = ("hook", None)
        st.inhook += 1

    def i_fence(self, st, f, i):
        f.ip += 1
        if i["ss"] != 0:
            # a fence between threads (a compiler-only fence orders nothing between threads)
            hk = st.flags.get("posthook")
            if hk is not None and not st.inhook:
                g = self.push(st, self.fns[hk], [Ptr(0, 0), 3, i["ord"]])
                g.tag = ("hook", None)
                st.inhook += 1

    def i_cmpxchg(self, st, f, i):
        p = self.val(st, f, i["a"][0])
        if self.hook_access(st, f, p, tsize(i["st"]), True, True, i["ord"]):
            return
        e = self.val(st, f, i["a"][1])
        n = self.val(st, f, i["a"][2])
        t = i["st"]
        old = self.load(st, p, t)
        eq = self.icmp(st, "eq", old, e, t)
        if i["weak"]:
            raise Unsupported("weak cmpxchg")
        self.store(st, p, self.choose(st, eq, n, old, t), t)
        f.env[i["id"]] = (old, eq)
        f.ip += 1
        self.post_atomic(st, f, p, 2, i["ord"])

    def i_atomicrmw(self, st, f, i):
        p = self.val(st, f, i["a"][0])
        if self.hook_access(st, f, p, tsize(i["st"]), True, True, i["ord"]):
            return
        v = self.val(st, f, i["a"][1])
        t = i["st"]
        old = self.load(st, p, t)
        k = i["rmw"]
        if k == "xchg":
            nv = v
        elif k in ("add", "sub", "and", "or", "xor"):
            nv = self.binop(k, old, v, t)
        else:
            raise Unsupported("atomicrmw " + k)
        self.store(st, p, nv, t)
        f.env[i["id"]] = old
        f.ip += 1
        self.post_atomic(st, f, p, 2, i["ord"])

    # --- calls
    def push(self, st, fn, args):
        if fn.decl:
            raise Unsupported("call of undefined " + fn.dem)
        if len(st.frames) > 120:
            raise Undecided("recursion too deep: " + fn.dem)
        f = Frame(fn)
        par = st.frames[-1] if st.frames else None
        f.sig = (par.sig + f"/{par.blk}.{par.ip}") if par else ""
        for n, (a, t) in enumerate(zip(args, fn.args)):
            if isinstance(t, dict) and "byval" in t:
                rid = self.new_region(st, t["byval"], "argument", fn.dem.split("(")[0])
                f.allocas.append(rid)
                self.copy(st, Ptr(rid, 0), a, t["byval"])
                a = Ptr(rid, 0)
            f.env[n] = a
        st.frames.append(f)
        if not self.probe and fn.name not in self.called:
            self.called.add(fn.name)
        return f

    def i_call(self, st, f, i):
        callee = i["f"]
        args = None
        if callee[0] == "fn":
            name = callee[1]
        else:
            fv = self.val(st, f, callee)
            if not isinstance(fv, Fn):
                self.oblige(st, False, "safety", f"call through a null function pointer @ {self.srcwhere(st)}")
            name = fv.name
        if st.flags.get("hook") is not None and not st.inhook and re.match(r"(llvm\.)?mem(cpy|move|set)\b", name):
            d, s_, n = (self.val(st, f, i["a"][0]), self.val(st, f, i["a"][1]), self.val(st, f, i["a"][2]))
            if "memset" not in name and isinstance(s_, Ptr) and self.hook_access(st, f, s_, n, False, False, 0, 1):
                return
            if self.hook_access(st, f, d, n, True, False, 0, 2):
                return
        if name.startswith("llvm."):
            return self.intrinsic(st, f, i, name)
        args = [self.val(st, f, a) for a in i["a"]]
        if name in self.binds and not st.flags.get("nobind") and not self.in_apply(st, name):
            self.used_contracts.add(self.fns[name].dem)
            name = self.binds[name]
        b = self.builtins.get(name)
        fn = self.fns.get(name)
        if b is None and fn is not None:
            b = self.builtins.get(fn.dem.split("(")[0]) if fn.decl or fn.dem.startswith("vp_") else None
        if b is not None:
            r = b(self, st, f, i, args)
            if r is PUSHED:
                return
            if "id" in i and i["ty"] != "void":
                f.env[i["id"]] = r
            self.after_call(st, f, i)
            return
        if fn is None:
            raise Unsupported("call of " + name)
        if fn.decl:
            base = fn.dem.split("(")[0]
            mdl = self.fns.get("__vp_model_" + name) or self.fns.get("__vp_model_" + base.split("::")[-1])
            if mdl is not None:
                self.assumed_models.add(name)
                fn = mdl
            else:
                if fn.noreturn or "__throw_" in name:
                    self.oblige(st, False, "safety", f"{base} is never reached @ {self.srcwhere(st)}")
                    raise PathEnd()
                raise Unsupported("call of external function " + fn.dem)
        self.push(st, fn, args)

    def in_apply(self, st, name):
        for fr in st.frames:
            if fr.fn.name == self.binds[name]:
                return True
        return False

    def after_call(self, st, f, i):
        if i.get("inv"):
            self.goto(st, f, i["t"])
        else:
            f.ip += 1

    def intrinsic(self, st, f, i, name):
        a = [self.val(st, f, x) if x[0] != "md" else None for x in i["a"]]
        t = i["ty"]
        base = name.split(".")[1]
        full = name

        def done(v=None):
            if v is not None:
                f.env[i["id"]] = v
            f.ip += 1

        if full.startswith(("llvm.memcpy", "llvm.memmove")):
            self.copy(st, a[0], a[1], a[2], "memmove" in full)
            return done()
        if full.startswith("llvm.memset"):
            self.memset(st, a[0], a[1], a[2])
            return done()
        if full == "llvm.ubsantrap":
            k = a[0]
            self.oblige(st, False, "safety", f"undefined behaviour ({UBSAN.get(k, k)}) never occurs @ {self.srcwhere(st)}")
            raise PathEnd()
        if full in ("llvm.trap", "llvm.debugtrap"):
            self.oblige(st, False, "safety", f"trap never reached @ {self.srcwhere(st)}")
            raise PathEnd()
        if base in ("lifetime", "dbg", "invariant", "donothing", "experimental", "prefetch", "stackrestore", "annotation", "var"):
            return done()
        if base == "assume":
            return done()
        if base == "expect":
            return done(a[0])
        if full.startswith("llvm.objectsize"):
            return done((1 << 64) - 1)
        if full.startswith("llvm.is.constant"):
            return done(False)
        if base in ("sadd", "uadd", "ssub", "usub", "smul", "umul") and ".with.overflow" in full:
            w = width(full.split(".")[-1])
            op = base[1:]
            x, y = a[0], a[1]
            r = self.binop(op, x, y, f"i{w}")
            if isinstance(x, int) and isinstance(y, int):
                if base[0] == "s":
                    v = {"add": sgn(x, w) + sgn(y, w), "sub": sgn(x, w) - sgn(y, w), "mul": sgn(x, w) * sgn(y, w)}[op]
                    ov = not (-(1 << (w - 1)) <= v < (1 << (w - 1)))
                else:
                    v = {"add": x + y, "sub": x - y, "mul": x * y}[op]
                    ov = not (0 <= v < (1 << w))
                return done((r, ov))
            X, Y = zbv(x, w), zbv(y, w)
            if base[0] == "s":
                rx, ry = srange(X), srange(Y)
                if rx and ry:
                    v = [f(p_, q_) for p_ in rx for q_ in ry for f in ({"add": int.__add__, "sub": int.__sub__, "mul": int.__mul__}[op],)]
                    if -(1 << (w - 1)) <= min(v) and max(v) < (1 << (w - 1)):
                        return done((r, False))
                if op == "add":
                    ok = z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y))
                elif op == "sub":
                    ok = z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True))
                else:
                    ok = z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y))
            else:
                if op == "add":
                    ok = z3.BVAddNoOverflow(X, Y, False)
                elif op == "sub":
                    ok = z3.UGE(X, Y)
                else:
                    ok = z3.BVMulNoOverflow(X, Y, False)
            return done((r, norm(z3.Not(ok))))
        if base in ("smax", "smin", "umax", "umin"):
            w = width(t)
            c = self.icmp(st, {"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[base], a[0], a[1], t)
            return done(self.ite(c, a[0], a[1], t) if not isinstance(c, bool) else (a[0] if c else a[1]))
        if base == "abs":
            w = width(t)
            c = self.icmp(st, "slt", a[0], 0, t)
            n = self.binop("sub", 0, a[0], t)
            return done(n if c is True else a[0] if c is False else self.ite(c, n, a[0], t))
        if base in ("fshl", "fshr"):
            w = width(t)
            k = a[2]
            if not isinstance(k, int):
                raise Unsupported("fshl symbolic")
            k %= w
            if base == "fshr":
                k = (w - k) % w
                hi, lo = (a[0], a[1]) if k else (a[1], a[0])
                if k == 0:
                    return done(a[1])
            if k == 0:
                return done(a[0])
            return done(self.binop("or", self.binop("shl", a[0], k, t), self.binop("lshr", a[1], w - k, t), t))
        if base == "bswap":
            w = width(t)
            r = 0
            for k in range(w // 8):
                by = self.binop("and", self.binop("lshr", a[0], 8 * k, t), 0xFF, t)
                r = self.binop("or", r, self.binop("shl", by, w - 8 - 8 * k, t), t)
            return done(r)
        if base in ("usub", "uadd") and ".sat" in full:
            w = width(t)
            if base == "usub":
                c = self.icmp(st, "uge", a[0], a[1], t)
                v = self.binop("sub", a[0], a[1], t)
                return done(v if c is True else 0 if c is False else self.ite(c, v, 0, t))
            v = self.binop("add", a[0], a[1], t)
            c = self.icmp(st, "ult", v, a[0], t)
            return done(((1 << w) - 1) if c is True else v if c is False else self.ite(c, (1 << w) - 1, v, t))
        if base in ("ctpop", "ctlz", "cttz"):
            w = width(t)
            x = a[0]
            if isinstance(x, int):
                if base == "ctpop":
                    return done(bin(x).count("1"))
                if base == "ctlz":
                    return done(w - x.bit_length())
                return done((x & -x).bit_length() - 1 if x else w)
            if base == "ctpop":
                r = BVV(0, w)
                for k in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, x))
                return done(r)
            r = BVV(w, w)
            rng = range(w) if base == "ctlz" else range(w - 1, -1, -1)
            for k in rng:
                v = w - 1 - k if base == "ctlz" else k
                r = z3.If(z3.Extract(k, k, x) == 1, BVV(v, w), r)
            return done(r)
        if base in ("fabs", "floor", "ceil", "trunc", "rint", "nearbyint", "round", "sqrt", "minnum", "maxnum", "fma", "fmuladd", "copysign"):
            return done(self.fpfun(base, a))
        if base in ("is",) and "fpclass" in full:
            m = a[1]
            x = a[0]
            parts = []
            if m & 3:
                parts.append(z3.fpIsNaN(x))
            if m & 0x204:
                pi = z3.fpIsInf(x)
                if m & 0x204 == 0x204:
                    parts.append(pi)
                elif m & 0x200:
                    parts.append(z3.And(pi, z3.Not(z3.fpIsNegative(x))))
                else:
                    parts.append(z3.And(pi, z3.fpIsNegative(x)))
            if m & ~0x207:
                raise Unsupported("is.fpclass")
            return done(norm(z3.Or(*parts)))
        if base == "launder" or base == "strip" or full.startswith("llvm.threadlocal"):
            return done(a[0])
        if base == "stacksave":
            return done(NULL)
        raise Unsupported("intrinsic " + full)

    def fpfun(self, base, a):
        if base == "fabs":
            r = z3.fpAbs(a[0])
        elif base in ("floor", "ceil", "trunc", "rint", "nearbyint", "round"):
            rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": RTZ, "rint": RNE, "nearbyint": RNE, "round": z3.RNA()}[base]
            r = z3.fpRoundToIntegral(rm, a[0])
        elif base == "sqrt":
            r = z3.fpSqrt(RNE, a[0])
        elif base == "minnum":
            r = z3.fpMin(a[0], a[1])
        elif base == "maxnum":
            r = z3.fpMax(a[0], a[1])
        elif base == "fma":
            r = z3.fpFMA(RNE, a[0], a[1], a[2])
        elif base == "fmuladd":
            r = z3.fpAdd(RNE, z3.fpMul(RNE, a[0], a[1]), a[2])
        elif base == "copysign":
            sx = z3.fpIsNegative(a[1])
            ab = z3.fpAbs(a[0])
            r = z3.If(sx, z3.fpNeg(ab), ab)
        return z3.simplify(r)

    # ---------------------------------------------------------------- loop invariants (Houdini)
    def cut(self, st, f, b, blocks, key):
        """st is at the head of loop b (phis done), arriving from outside.  Replace the loop by its invariant."""
        st.flags["cut"] = True
        depth = len(st.frames)
        fn = f.fn
        spec = st.spec
        phis = [i for i in fn.blocks[b] if i["op"] == "phi"]
        entry = st.clone()
        # 1. what does the loop modify
        mod_cells, mod_regs = set(), set()
        for _ in range(8):
            h, _i, _ = self.havoc(entry, b, phis, mod_cells, mod_regs)
            log = []
            h.wlog = log
            self.probe_run(h, depth, b, blocks, lambda s: None)
            nc, nr = set(mod_cells), set(mod_regs)
            for rid, off, n in log:
                if rid not in entry.mem:
                    continue
                r = entry.mem[rid]
                if off is None or not isinstance(r.size, int) or (r.arr is not None):
                    nr.add(rid)
                else:
                    nc.add((rid, off, n))
            if nc == mod_cells and nr == mod_regs:
                break
            mod_cells, mod_regs = nc, nr
        mod_cells = {c for c in mod_cells if c[0] not in mod_regs}
        if st.wlog is not None:
            for c in mod_cells:
                st.wlog.append(c)
            for r in mod_regs:
                st.wlog.append((r, None, 0))
        # 2. candidates
        i0 = 0
        more = self.find_strides(entry, b, phis, mod_cells, mod_regs, depth, blocks) if self.opts.get("stride") else {}
        cands = self.make_cands(entry, phis, mod_cells, mod_regs, spec, more)
        ckey = (key, tuple(sorted(n for n, _ in cands)))
        good = self.houdini_cache.get(ckey)
        alive, cs = [], []
        for name, mk in cands:
            if good is not None and name not in good:
                continue
            try:
                c = mk(entry, entry, i0)
            except (Unsupported, PathEnd):
                continue
            if c is None:
                continue
            c = norm(zbool(c)) if not isinstance(c, bool) else c
            if c is False:
                continue
            alive.append((name, mk))
            if c is not True:
                cs.append((name, c))
        bad = self.refuted(entry, cs)
        alive = [(n, m) for n, m in alive if n not in bad]
        # 3. weaken until inductive
        while True:
            h, iv, _ = self.havoc(entry, b, phis, mod_cells, mod_regs)
            if not self.assume_all(h, entry, iv, alive):
                raise Undecided("loop head unreachable under its invariant")
            bad = set()

            def back(s, bad=bad, alive=alive, iv=iv):
                cs = []
                for name, mk in alive:
                    if name in bad:
                        continue
                    try:
                        c = mk(s, entry, iv + 1)
                    except (Unsupported, PathEnd):
                        bad.add(name)
                        continue
                    if c is None:
                        bad.add(name)
                        continue
                    c = norm(zbool(c)) if not isinstance(c, bool) else c
                    if c is not True:
                        cs.append((name, z3.BoolVal(False) if c is False else c))
                bad |= self.refuted(s, cs)

            self.probe_run(h, depth, b, blocks, back)
            if not bad:
                break
            alive = [(n, m) for n, m in alive if n not in bad]
        self.houdini_cache[ckey] = {n for n, _ in alive}
        if not self.probe:
            self.stats.inv({"loop": f"{fn.dem} @ {self.where(st)}", "invariants": [n for n, _ in alive], "candidates": len(cands)})
        # 4. continue from an arbitrary iteration; back edges have been shown to preserve the invariant
        h, iv, _ = self.havoc(entry, b, phis, mod_cells, mod_regs)
        if not self.assume_all(h, entry, iv, alive):
            raise Undecided("loop head unreachable under its invariant")
        h.watchloops.append({"depth": depth, "h": b, "blocks": blocks, "probe": False, "back": lambda s: None, "exit": lambda s: None})
        self.become(st, h)

    def refuted(self, st, cs):
        """names of the conditions not provable in st; many at once, a counterexample drops all it falsifies"""
        bad = set()
        cs = list(cs)
        ids, same, uniq = {}, {}, []
        for n, c in cs:
            k = c.get_id()
            if k in ids:
                same.setdefault(ids[k], []).append(n)
            else:
                ids[k] = n
                uniq.append((n, c))
        if same:
            bad = self.refuted(st, uniq)
            return bad | {x for n in bad for x in same.get(n, ())}
        while cs:
            r, m = self.sat(st, z3.Not(z3.And(*[c for _, c in cs])) if len(cs) > 1 else z3.Not(cs[0][1]), len(cs) > 1)
            if r == "unsat":
                break
            if r == "unknown" and len(cs) > 1:
                # one after the other, the proved ones becoming lemmas
                npc = len(st.pc)
                todo = cs
                while todo:
                    later = []
                    for n, c in todo:
                        r, m = self.sat(st, z3.Not(c), len(later) + 1 < len(todo))
                        if r == "unsat":
                            st.pc.append(c)
                        elif r == "sat":
                            bad.add(n)
                        else:
                            later.append((n, c))
                    if len(later) == len(todo):
                        break
                    todo = later
                for n, c in todo:
                    r, m = self.sat(st, z3.Not(c))
                    if r == "unsat":
                        st.pc.append(c)
                    else:
                        bad.add(n)
                del st.pc[npc:]
                st.model = None
                return bad
            drop = set()
            if m is not None:
                drop = {n for n, c in cs if z3.is_false(m.eval(c, model_completion=True))}
            if not drop:
                if len(cs) == 1:
                    bad.add(cs[0][0])
                    break
                # undecided as a whole: split
                h = len(cs) // 2
                return bad | self.refuted(st, cs[:h]) | self.refuted(st, cs[h:])
            bad |= drop
            cs = [(n, c) for n, c in cs if n not in drop]
        return bad

    def become(self, st, h):
        for k in State.__slots__:
            setattr(st, k, getattr(h, k))

    def assume_all(self, h, entry, iv, alive):
        for name, mk in alive:
            c = mk(h, entry, iv)
            c = norm(zbool(c)) if not isinstance(c, bool) else c
            if c is True:
                continue
            if c is False:
                return False
            h.pc.append(c)
        h.model = None
        r, m = self.sat(h, z3.BoolVal(True))
        if r == "sat":
            h.model = m
        return r != "unsat"

    def probe_run(self, h, depth, b, blocks, back):
        self.probe += 1
        try:
            h.watchloops.append({"depth": depth, "h": b, "blocks": blocks, "probe": True, "back": back, "exit": lambda s: None})
            self.explore([h])
        finally:
            self.probe -= 1

    def havoc(self, entry, b, phis, cells, regs):
        h = entry.clone()
        f = h.frames[-1]
        iv = self.fresh(64, "iter")
        h.last_iter = iv
        for p in phis:
            f.env[p["id"]] = self.havoc_val(f.env[p["id"]], p["ty"])
        # group overlapping cells by region
        for rid, off, n in sorted(cells):
            r = h.wreg(rid)
            c = r.cells.get(off)
            if c is not None and c[0] == n:
                r.cells[off] = (n, c[1], self.havoc_val(c[2], c[1]))
            else:
                # several cells or none: havoc each covered cell
                done = False
                for o in range(off, off + n):
                    c = r.cells.get(o)
                    if c is not None and o + c[0] <= off + n:
                        r.cells[o] = (c[0], c[1], self.havoc_val(c[2], c[1]))
                        done = True
                if not done:
                    self.carve(h, r, off, n)
        for rid in regs:
            r = h.wreg(rid)
            if isinstance(r.size, int) and r.arr is None:
                for o, c in list(r.cells.items()):
                    r.cells[o] = (c[0], c[1], self.havoc_val(c[2], c[1]))
            else:
                self.arrayify(h, r)
                r = h.wreg(rid)
                self.nfresh += 1
                r.arr = z3.Array(f"hav!{self.nfresh}", z3.BitVecSort(64), z3.BitVecSort(8))
        h.model = None
        f.cnt = {}
        return h, iv, None

    def havoc_val(self, v, t):
        if isinstance(t, dict):
            ts = [ft for _, ft in t["f"]] if t["k"] == "s" else [t["e"]] * t["n"]
            return tuple(self.havoc_val(x, tt) for x, tt in zip(v, ts))
        if isinstance(v, Ptr):
            return Ptr(v.rid, self.fresh(64, "poff"))
        if isinstance(v, AddrInt):
            return AddrInt(v.rid, self.fresh(64, "poff"))
        if isinstance(v, Fn):
            return v
        return self.freshval(t, "hav")

    def find_strides(self, entry, b, phis, cells, regs, depth, blocks):
        """constants by which an iteration changes a loop variable (only candidates: they are proved or dropped)"""
        found = {}
        h, iv, _ = self.havoc(entry, b, phis, cells, regs)
        first = {p["id"]: h.frames[-1].env[p["id"]] for p in phis if is_int(p["ty"]) and width(p["ty"]) > 1}

        def back(s):
            for k, v0 in first.items():
                v1 = s.frames[-1].env[k]
                if isinstance(v0, z3.BitVecRef) and isinstance(v1, z3.BitVecRef):
                    d = z3.simplify(v1 - v0)
                    if z3.is_bv_value(d):
                        found.setdefault(k, set()).add(d.as_signed_long())

        self.probe_run(h, depth, b, blocks, back)
        return found

    def make_cands(self, entry, phis, cells, regs, spec, more={}):
        """list of (name, mk) with mk(state, entry, i) -> bool/BoolRef/None"""
        out = []
        locs = []
        extra = {}
        for p in phis:
            v = entry.frames[-1].env[p["id"]]
            if isinstance(v, tuple):
                continue
            locs.append((f"phi{p['id']}", p["ty"], lambda s, k=p["id"]: s.frames[-1].env[k]))
            extra[f"phi{p['id']}"] = more.get(p["id"], ())
        for rid, off, n in sorted(cells):
            r = entry.mem[rid]
            c = r.cells.get(off)
            if c is None or c[0] != n:
                continue

            def rd(s, rid=rid, off=off, n=n):
                c = s.mem[rid].cells.get(off)
                if c is None or c[0] != n:
                    raise Unsupported("cell changed shape")
                return c[2]

            locs.append((f"mem[{r.name}+{off}:{n}]", c[1], rd))

        def asint(v):
            if isinstance(v, (Ptr, AddrInt)):
                return v.off, 64
            return v, None

        def eqv(a, t, b):
            """equality of a location value with a 64-bit term"""
            if isinstance(a, (Ptr, AddrInt)):
                return zbv(a.off, 64) == zbv(b, 64)
            if is_int(t):
                w = width(t)
                if w == 1:
                    return None
                bb = zbv(b, 64)
                return zbv(a, w) == (z3.Extract(w - 1, 0, bb) if w < 64 else bb)
            return None

        for nm, t, get in locs:
            v0 = get(entry)
            if isinstance(v0, Fn) or (isinstance(t, str) and t in ("f32", "f64")):
                out.append((f"{nm} unchanged", lambda s, e, i, get=get: self.same(get(s), get(e))))
                continue
            strides = [0, 1, -1]
            if isinstance(v0, (Ptr, AddrInt)):
                strides += [2, 4, 8, 12, 16, -2, -4, -8]
            if is_int(t) and width(t) == 1:
                strides = [0]
            for c in strides + [x for x in extra.get(nm, ()) if x not in strides]:
                def mk(s, e, i, get=get, c=c, t=t):
                    a, b0 = get(s), get(e)
                    if c == 0:
                        return self.same(a, b0)
                    a1, b1 = asint(a)[0], asint(b0)[0]
                    if isinstance(a1, (int, z3.BitVecRef)) and (isinstance(a, (Ptr, AddrInt)) or is_int(t)):
                        w = 64 if isinstance(a, (Ptr, AddrInt)) else width(t)
                        ii = zbv(i, 64)
                        ii = z3.Extract(w - 1, 0, ii) if w < 64 else ii
                        return zbv(a1, w) == zbv(b1, w) + ii * BVV(c & ((1 << w) - 1), w)
                    return None
                out.append((f"{nm} == old + {c}*i", mk))
            for kind in ("terms", "flags"):
                if not (spec and spec.get(kind)) or kind == "flags" and not (is_int(t) and width(t) <= 8):
                    continue
                fnm, n = spec[kind]
                for k in range(n):
                    def mk(s, e, i, get=get, k=k, t=t, fnm=fnm):
                        tv = self.eval_fn(s, fnm, [i, k])
                        a = get(s)
                        if is_int(t) and width(t) == 1:
                            return zbool(a) == (zbv(tv, 64) != BVV(0, 64))
                        return eqv(a, t, tv)
                    out.append((f"{nm} == {kind[:-1]}{k}(i)", mk))
            if spec and spec.get("ptrs") and isinstance(v0, (Ptr, AddrInt)):
                fnm, n = spec["ptrs"]
                for k in range(n):
                    def mk(s, e, i, get=get, k=k, fnm=fnm):
                        tv = self.eval_fn(s, fnm, [i, k], ret="ptr")
                        a = get(s)
                        if tv is None or tv.rid != a.rid:
                            return None
                        return zbv(a.off, 64) == zbv(tv.off, 64)
                    out.append((f"{nm} == ptrterm{k}(i)", mk))
        if spec and spec.get("inv"):
            fnm, n = spec["inv"]
            for k in range(n):
                def mk(s, e, i, k=k, fnm=fnm):
                    return self.eval_fn(s, fnm, [i, k])
                out.append((f"inv{k}(i)", mk))
        return out

    def same(self, a, b):
        if isinstance(a, (Ptr, AddrInt)) and isinstance(b, (Ptr, AddrInt)):
            if a.rid != b.rid:
                return False
            if isinstance(a.off, int) and isinstance(b.off, int):
                return a.off == b.off
            return zbv(a.off, 64) == zbv(b.off, 64)
        if isinstance(a, Fn) or isinstance(b, Fn):
            return isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
        if isinstance(a, z3.FPRef):
            return a == b
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            return zbool(a) == zbool(b)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        w = a.size() if not isinstance(a, int) else b.size()
        return zbv(a, w) == zbv(b, w)

    def eval_fn(self, st, fname, args, ret="int"):
        """evaluate a pure contract function in state st; returns a term.  Definitions (vp_define) it makes are added
        to st's path condition."""
        s = st.clone()
        s.wlog = None
        s.watchloops = []
        s.flags.pop("hook", None)
        s.flags.pop("dec", None)
        s.flags.pop("decpos", None)
        s.flags.pop("symexit", None)
        s.inhook = 1
        base = len(st.pc)
        res = []
        fn = self.fns[fname]

        def done(x, v):
            res.append((x.pc[base:], v, x.flags.get("defs", ())))

        s.flags["defs"] = ()
        s.flags["defbase"] = base
        fr = Frame(fn)
        fr.sig = "eval:" + fname
        for n, a in enumerate(args):
            fr.env[n] = a
        fr.tag = ("eval", done)
        s.frames.append(fr)
        s.spec = None
        self.probe += 1
        sp = self.stats.paths
        try:
            self.explore([s])
        finally:
            self.probe -= 1
            self.stats.paths = sp
        if not res:
            raise PathEnd()
        seen = set()
        for _, _, defs in res:
            for d in defs:
                if d.get_id() not in seen:
                    seen.add(d.get_id())
                    st.pc.append(d)
        alld = [d for _, _, ds in res for d in ds]
        ids = {d.get_id() for d in alld}
        if len(res) == 1:
            pcs = [c for c in res[0][0] if c.get_id() not in ids]
            return res[0][1]
        if ret == "ptr":
            out = None
            for pcs, v, _ in res:
                if out is None:
                    out = v
                elif v.rid != out.rid:
                    return None
                else:
                    c = z3.And(*pcs) if pcs else z3.BoolVal(True)
                    out = Ptr(v.rid, z3.If(c, zbv(v.off, 64), zbv(out.off, 64)))
            return out
        out = None
        for pcs, v, _ in res:
            c = z3.And(*pcs) if pcs else z3.BoolVal(True)
            if out is None:
                out = v
            elif isinstance(v, (bool, z3.BoolRef)):
                out = z3.If(c, zbool(v), zbool(out))
            else:
                out = z3.If(c, zbv(v, 64), zbv(out, 64))
        return out

    # ---------------------------------------------------------------- top level
    def find_binds(self):
        for n, g in self.globs.items():
            if n.startswith("vp_bind_") and "init" in g:
                fs = [it[3][1] for it in g["init"] if it[1] == "val" and it[3][0] == "fn"]
                if len(fs) == 2:
                    self.binds[fs[0]] = fs[1]

    def verify(self, harness, budget=None):
        """prove every obligation of one contract"""
        self.deadline = time.time() + budget if budget else None
        for attempt in range(12):
            self.failures, self.obls, self.covers, self.undecided = {}, {}, {}, {}
            self.ends = 0
            self.rid = 1
            self.stats.paths = 0
            self.stats.invs = []
            st = State()
            fn = self.fns[harness]

            def end(s):
                self.ends += 1

            f = Frame(fn)
            f.tag = ("harness", end)
            st.frames.append(f)
            try:
                self.explore([st])
                break
            except Restart:
                self.solver = None
                continue
            except Undecided as e:
                self.undecided["budget"] = str(e)
                break
            except Unsupported as e:
                loc = "?"
                self.undecided["unsupported"] = str(e)
                break
        else:
            self.undecided["loops"] = "too many restarts"
        return self


class Snap:
    """state at the start of an instruction, cloned only if a fork needs it"""

    def __init__(self, st, keepdec=False):
        self.st = st
        self.c = None
        # cheap snapshot of what one instruction can change
        self.frames = [(f, f.blk, f.ip, f.prev) for f in st.frames]
        self.mem = dict(st.mem)
        for r in st.mem.values():
            r.shared = True
        self.flags = dict(st.flags)
        self.anys = list(st.anys)
        self.wl = list(st.watchloops)
        self.spec = st.spec
        self.inhook = st.inhook
        self.last_iter = st.last_iter
        self.nframes = len(st.frames)
        self.top = st.frames[-1].clone()

    def clone(self):
        s = State()
        s.frames = [f.clone() for f, _, _, _ in self.frames[:-1]]
        for f, (_, b, ip, pv) in zip(s.frames, self.frames[:-1]):
            f.blk, f.ip, f.prev = b, ip, pv
        s.frames.append(self.top.clone())
        s.mem = dict(self.mem)
        s.anys = list(self.anys)
        s.flags = dict(self.flags)
        s.watchloops = list(self.wl)
        s.wlog = self.st.wlog
        s.spec = self.spec
        s.inhook = self.inhook
        s.last_iter = self.last_iter
        return s


PUSHED = object()


def _cells_overlap(self, off, n):
    for o in range(off - 15, off + n):
        c = self.cells.get(o)
        if c is not None and o + c[0] > off:
            return True
    return False


Region.cells_overlap = _cells_overlap


def norm_bv(e):
    return z3.simplify(e)


def norm_i(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def off_sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return BVV((a - b) & ((1 << 64) - 1), 64)
    return zbv(a, 64) - zbv(b, 64)


def fpbits(v):
    """IEEE bits of an FP term"""
    if v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 and z3.is_bv(v.arg(0)):
        return v.arg(0)
    if z3.is_fp_value(v):
        e = z3.simplify(z3.fpToIEEEBV(v))
        if z3.is_bv_value(e):
            return e.as_long()
    return z3.fpToIEEEBV(v)


def frombv(b, t):
    if b.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV:
        return b.arg(0)
    return z3.fpBVToFP(b, fsort(t))


def fpconst(bits, t):
    w = {"f32": 32, "f64": 64, "f80": 80}[t]
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, w), fsort(t)))


def zero(t):
    if isinstance(t, dict):
        if t["k"] == "s":
            return tuple(zero(ft) for _, ft in t["f"])
        return tuple(zero(t["e"]) for _ in range(t["n"]))
    if t == "ptr":
        return NULL
    if t in ("f32", "f64", "f80"):
        return fpconst(0, t)
    if t == "i1":
        return False
    return 0


def stride_of(e):
    """(g, c): e is known to be = c (mod g), g a power of two or small constant"""
    if isinstance(e, int):
        return 0, e
    k = e.decl().kind()
    if z3.is_bv_value(e):
        return 0, e.as_long()
    if k == z3.Z3_OP_BADD:
        g, c = 0, 0
        for a in e.children():
            g2, c2 = stride_of(a)
            c += c2
            g = gcd(g, g2)
        return g, c
    if k == z3.Z3_OP_BMUL:
        cs = [a for a in e.children() if z3.is_bv_value(a)]
        if len(cs) == 1:
            m = cs[0].as_long()
            if m < 1 << 31:
                return m, 0
        return 1, 0
    if k == z3.Z3_OP_BSHL:
        if z3.is_bv_value(e.arg(1)):
            return 1 << e.arg(1).as_long(), 0
        return 1, 0
    if k == z3.Z3_OP_CONCAT:
        last = e.children()[-1]
        if z3.is_bv_value(last):
            return 1 << last.size(), last.as_long()
        return 1, 0
    if k == z3.Z3_OP_ITE:
        g1, c1 = stride_of(e.arg(1))
        g2, c2 = stride_of(e.arg(2))
        g = gcd(g1, g2)
        g = gcd(g, abs(c1 - c2))
        return (g, c1) if g else (0, c1)
    return 1, 0


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


from . import builtins as _b  # noqa: E402

Engine.builtins = _b.TABLE
