"""Functions the engine interprets itself: the contract primitives (vp_*) and the C/C++ runtime that is outside the
repository (memcpy, malloc, ...).  Everything here is part of the trusted base and is listed in the evidence."""
import z3


def _E():
    from . import engine

    return engine


def cstr(eng, st, p):
    """concrete C string behind a pointer (a label)"""
    if p.rid == 0:
        return ""
    r = st.mem[p.rid]
    s = []
    o = p.off
    while True:
        b = eng.getbyte(st, r, o)
        if not isinstance(b, int):
            return "?"
        if b == 0:
            break
        s.append(chr(b))
        o += 1
    return "".join(s)


def logged(eng, st):
    """values drawn inside a substituted callee contract are not inputs of the native replay"""
    if st.inhook:
        return True
    ap = set(eng.binds.values())
    return not any(f.fn.name in ap for f in st.frames)


def vp_any_bits(eng, st, f, i, a):
    n, name = a[0], cstr(eng, st, a[1])
    v = eng.fresh(n, name or "any")
    if logged(eng, st):
        st.anys.append(("bits", n, v, name))
    return z3.ZeroExt(64 - n, v) if n < 64 else v


def vp_any_range(eng, st, f, i, a):
    """value in [lo,hi] (unsigned order if a[3]==0, else signed 64-bit order)"""
    E = _E()
    lo, hi, sg, name = a[0], a[1], a[2], cstr(eng, st, a[3])
    v = eng.fresh(64, name or "any")
    if logged(eng, st):
        st.anys.append(("bits", 64, v, name))
    L, H = E.zbv(lo, 64), E.zbv(hi, 64)
    c = z3.And(L <= v, v <= H) if sg else z3.And(z3.ULE(L, v), z3.ULE(v, H))
    eng.assume(st, c)
    ok, m = eng.feasible(st, z3.BoolVal(True)) if st.model is None else (True, st.model)
    if not ok:
        raise E.PathEnd()
    st.model = m
    return v


def vp_buffer(eng, st, f, i, a):
    """fresh heap object of n arbitrary bytes"""
    n, name = a[0], cstr(eng, st, a[1])
    if isinstance(n, int) and n <= 128:
        rid = eng.new_region(st, n, "buffer", name)
        r = st.mem[rid]
        bs = []
        for k in range(n):
            b = eng.fresh(8, f"{name}[{k}]")
            bs.append(b)
            r.cells[k] = (1, "i8", b)
        st.anys.append(("buf", n, bs, name))
    else:
        rid = eng.new_region(st, n, "buffer", name)
        r = st.mem[rid]
        eng.nfresh += 1
        r.arr = z3.Array(f"{name}!{eng.nfresh}", z3.BitVecSort(64), z3.BitVecSort(8))
        st.anys.append(("buf", n, r.arr, name))
    return _E().Ptr(rid, 0)


def vp_assume(eng, st, f, i, a):
    E = _E()
    c = a[0]
    if isinstance(c, int) and not isinstance(c, bool):
        c = bool(c)
    if c is True:
        return
    if c is False:
        raise E.PathEnd()
    c = E.zbool(c)
    ok, m = eng.feasible(st, c)
    if not ok:
        raise E.PathEnd()
    eng.assume(st, c)
    st.model = m


def vp_check(eng, st, f, i, a):
    E = _E()
    c = a[0]
    lab = cstr(eng, st, a[1])
    if isinstance(c, bool):
        pass
    elif isinstance(c, int):
        c = bool(c)
    else:
        c = E.norm(E.zbool(c))
    eng.oblige(st, c, "ensures", lab)


def vp_cover(eng, st, f, i, a):
    if eng.probe:
        return
    lab = cstr(eng, st, a[0])
    if lab in eng.covers:
        return
    ok = st.model is not None
    if not ok:
        r, m = eng.sat(st, z3.BoolVal(True))
        ok = r == "sat"
        st.model = m
    if ok:
        eng.covers[lab] = eng.covers.get(lab, 0) + 1


def vp_define(eng, st, f, i, a):
    E = _E()
    c = a[0]
    if isinstance(c, (bool, int)):
        if c:
            return
        c = z3.BoolVal(False)
    c = z3.simplify(E.zbool(c))
    if "defs" in st.flags:
        # inside a specification function: the definition holds under the branch conditions taken so far
        g = st.pc[st.flags["defbase"]:]
        d = z3.Implies(z3.And(*g), c) if g else c
        st.flags["defs"] = tuple(st.flags["defs"]) + (d,)
    st.pc.append(c)
    st.model = None


_ufs = {}


def vp_uf(eng, st, f, i, a):
    """uninterpreted function id(a,b,c) -> 64 bits"""
    E = _E()
    k = a[0]
    fn = _ufs.get(k)
    if fn is None:
        s = z3.BitVecSort(64)
        fn = _ufs[k] = z3.Function(f"uf{k}", s, s, s, s)
    st.model = None if st.model is not None and False else st.model
    return fn(*[E.zbv(x, 64) for x in a[1:4]])


def vp_spec(eng, st, f, i, a):
    """vp_spec(kind, fn, n): install a loop-invariant vocabulary; kind 0 inv, 1 terms, 2 ptrs, 3 flags (terms for narrow variables); n==0 removes everything"""
    E = _E()
    kind, fn, n = a
    cur = dict(st.spec) if st.spec else {}
    if n == 0 or eng.opts.get("no_inv"):
        st.spec = None
        return
    if not isinstance(fn, E.Fn):
        raise E.Unsupported("vp_spec needs a function")
    cur[{0: "inv", 1: "terms", 2: "ptrs", 3: "flags"}[kind]] = (fn.name, n)
    st.spec = cur


def vp_watch(eng, st, f, i, a):
    st.wreg(a[0].rid).watch = True


def vp_hook(eng, st, f, i, a):
    E = _E()
    for k, v in zip(("hook", "posthook"), a):
        if isinstance(v, E.Fn):
            st.flags[k] = v.name
        else:
            st.flags.pop(k, None)


def vp_same_object(eng, st, f, i, a):
    return a[0].rid == a[1].rid


def vp_objsize(eng, st, f, i, a):
    r = st.mem.get(a[0].rid)
    return r.size if r is not None else 0


def vp_offset(eng, st, f, i, a):
    return a[0].off


def vp_alive(eng, st, f, i, a):
    r = st.mem.get(a[0].rid)
    return r is not None and r.alive


def vp_watch_heap(eng, st, f, i, a):
    """number of live heap objects"""
    return sum(1 for r in st.mem.values() if r.kind == "heap" and r.alive)


def vp_iter(eng, st, f, i, a):
    return st.last_iter


def vp_byte(eng, st, f, i, a):
    """byte at base+off as a total function (0 outside of the object): for specifications only"""
    E = _E()
    p, off = a[0], E.off_add(a[0].off, a[1])
    r = st.mem.get(p.rid)
    if r is None:
        return 0
    if isinstance(off, z3.ExprRef):
        off = E.norm(off)
    if isinstance(off, int) and isinstance(r.size, int):
        return eng.getbyte(st, r, off) if off < r.size else 0
    o = E.zbv(off, 64)
    if r.arr is not None and not r.cells:
        v = z3.Select(r.arr, o)
        return z3.If(z3.ULT(o, E.zbv(r.size, 64)), v, E.BVV(0, 8))
    if not isinstance(r.size, int):
        raise E.Unsupported("vp_byte on a mixed object")
    v = E.BVV(0, 8)
    for k in reversed(range(r.size)):
        v = z3.If(o == E.BVV(k, 64), E.zbv(eng.getbyte(st, st.mem[p.rid], k), 8), v)
    return v


def vp_is_symbolic(eng, st, f, i, a):
    return True


def m_memcpy(eng, st, f, i, a):
    eng.copy(st, a[0], a[1], a[2])
    return a[0]


def m_memmove(eng, st, f, i, a):
    eng.copy(st, a[0], a[1], a[2], True)
    return a[0]


def m_memset(eng, st, f, i, a):
    E = _E()
    v = a[1]
    v = v & 255 if isinstance(v, int) else E.norm_i(z3.Extract(7, 0, v))
    eng.memset(st, a[0], v, a[2])
    return a[0]


def byte(eng, st, p, k, what):
    E = _E()
    q = E.Ptr(p.rid, E.off_add(p.off, k))
    r = eng.check_access(st, q, 1, what)
    return eng.load_raw(st, r, q.off, 1, "i8")


def concrete_n(eng, st, n, lim, what):
    E = _E()
    if isinstance(n, z3.ExprRef):
        n = E.norm(n)
    if isinstance(n, int):
        return n
    for k in range(lim + 1):
        if eng.fork(st, n == E.BVV(k, 64)):
            return k
    ok, _ = eng.feasible(st, z3.UGT(n, E.BVV(lim, 64)))
    if ok:
        if eng.opts.get("bound_ok"):
            raise E.PathEnd()
        raise E.Undecided(what + " of unbounded symbolic length")
    raise E.PathEnd()


def m_memcmp(eng, st, f, i, a):
    E = _E()
    n = concrete_n(eng, st, a[2], 40, "memcmp")
    res = 0
    for k in reversed(range(n)):
        x, y = byte(eng, st, a[0], k, "memcmp"), byte(eng, st, a[1], k, "memcmp")
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                res = 1 if x > y else (1 << 32) - 1
            continue
        X, Y = E.zbv(x, 8), E.zbv(y, 8)
        res = z3.If(X == Y, E.zbv(res, 32), z3.If(z3.UGT(X, Y), E.BVV(1, 32), E.BVV((1 << 32) - 1, 32)))
    return E.norm_i(res) if not isinstance(res, int) else res


def m_strlen(eng, st, f, i, a):
    E = _E()
    k = 0
    while True:
        b = byte(eng, st, a[0], k, "strlen")
        if isinstance(b, int):
            if b == 0:
                return k
        elif eng.fork(st, b == E.BVV(0, 8)):
            return k
        k += 1
        if k > 300:
            raise E.Undecided("strlen unbounded")


def m_memchr(eng, st, f, i, a):
    E = _E()
    n = concrete_n(eng, st, a[2], 40, "memchr")
    c = a[1]
    c = c & 255 if isinstance(c, int) else E.norm_i(z3.Extract(7, 0, c))
    for k in range(n):
        b = byte(eng, st, a[0], k, "memchr")
        e = (b == c) if isinstance(b, int) and isinstance(c, int) else E.norm(E.zbv(b, 8) == E.zbv(c, 8))
        if eng.fork(st, e):
            return E.Ptr(a[0].rid, E.off_add(a[0].off, k))
    return E.NULL


def alloc(eng, st, n, what):
    E = _E()
    if isinstance(n, z3.ExprRef):
        n = E.norm(n)
    rid = eng.new_region(st, n, "heap", what)
    r = st.mem[rid]
    if not isinstance(n, int):
        eng.nfresh += 1
        r.arr = z3.Array(f"heap!{eng.nfresh}", z3.BitVecSort(64), z3.BitVecSort(8))
    return E.Ptr(rid, 0)


def m_new(eng, st, f, i, a):
    # C++ new either succeeds or throws; a request for more than PTRDIFF_MAX never succeeds
    return alloc(eng, st, a[0], "new")


def m_malloc(eng, st, f, i, a):
    E = _E()
    eng.nfresh += 1
    if st.flags.get("malloc_may_fail") and eng.fork(st, z3.Bool(f"malloc_fails!{eng.nfresh}")):
        return E.NULL
    return alloc(eng, st, a[0], "malloc")


def m_aligned_alloc(eng, st, f, i, a):
    p = alloc(eng, st, a[1], "aligned_alloc")
    if isinstance(a[0], int):
        st.mem[p.rid].align = a[0]
    return p


def m_free(eng, st, f, i, a):
    E = _E()
    p = a[0]
    if p.rid == 0 and isinstance(p.off, int) and p.off == 0:
        return
    r = st.mem.get(p.rid)
    if r is None or not r.alive or r.kind != "heap":
        eng.oblige(st, False, "memory", f"free of something that is not a live heap object @ {eng.srcwhere(st)}")
    eng.oblige(st, (p.off == 0) if isinstance(p.off, int) else E.zbv(p.off, 64) == E.BVV(0, 64), "memory", f"free at the start of an object @ {eng.srcwhere(st)}")
    r = st.wreg(p.rid)
    r.alive = False


def m_tolower(eng, st, f, i, a):
    E = _E()
    c = a[0]
    x = E.zbv(c, 32)
    return E.norm_i(z3.If(z3.And(x >= 65, x <= 90), x + 32, x))


def m_toupper(eng, st, f, i, a):
    E = _E()
    x = E.zbv(a[0], 32)
    return E.norm_i(z3.If(z3.And(x >= 97, x <= 122), x - 32, x))


def _cls(pred):
    def g(eng, st, f, i, a):
        E = _E()
        x = E.zbv(a[0], 32)
        return E.norm_i(z3.If(pred(x), E.BVV(1, 32), E.BVV(0, 32)))

    return g


def rng(x, lo, hi):
    return z3.And(x >= lo, x <= hi)


def m_fp(base):
    def g(eng, st, f, i, a):
        return eng.fpfun(base, a)

    return g


def m_abs(eng, st, f, i, a):
    E = _E()
    x = E.zbv(a[0], 32)
    eng.oblige(st, E.norm(x != E.BVV(1 << 31, 32)), "safety", f"abs(INT_MIN) never happens @ {eng.srcwhere(st)}")
    return E.norm_i(z3.If(x < 0, -x, x))


def m_fail(eng, st, f, i, a):
    E = _E()
    txt = ""
    try:
        for p in a:
            if isinstance(p, E.Ptr):
                s = cstr(eng, st, p)
                if " " in s or "<" in s or "!" in s or "=" in s:
                    txt = s
    except Exception:
        pass
    eng.oblige(st, False, "safety", f"library assertion holds ({txt}) @ {eng.srcwhere(st)}")
    raise E.PathEnd()


def m_yield(eng, st, f, i, a):
    return 0


def m_guard_acquire(eng, st, f, i, a):
    p = a[0]
    v = eng.load(st, p, "i8")
    if isinstance(v, int):
        return 0 if v else 1
    raise _E().Unsupported("symbolic static guard")


def m_guard_release(eng, st, f, i, a):
    eng.store(st, a[0], 1, "i8")


def m_nop(eng, st, f, i, a):
    return 0


def m_math(name):
    """reference functions of specifications, on constants only"""
    import math

    def g(eng, st, f, i, a):
        x = a[0] if isinstance(a[0], z3.ExprRef) else None
        x = z3.simplify(x) if x is not None else None
        if x is None or not z3.is_fp_value(x):
            raise _E().Unsupported(f"{name} of a value that is not constant")
        v = float(z3.simplify(z3.fpToReal(x)).as_fraction())
        return z3.FPVal(getattr(math, name)(v), x.sort())

    return g


TABLE = {
    "sin": m_math("sin"), "cos": m_math("cos"), "tan": m_math("tan"), "exp": m_math("exp"), "log": m_math("log"),
    "vp_any_bits": vp_any_bits, "vp_any_range": vp_any_range, "vp_buffer": vp_buffer, "vp_ram": vp_buffer, "vp_assume": vp_assume, "vp_check": vp_check, "vp_cover": vp_cover,
    "vp_define": vp_define, "vp_uf": vp_uf, "vp_spec": vp_spec, "vp_watch": vp_watch, "vp_hook": vp_hook,
    "vp_same_object": vp_same_object, "vp_byte": vp_byte, "vp_iter": vp_iter, "vp_objsize": vp_objsize, "vp_offset": vp_offset, "vp_alive": vp_alive, "vp_live_heap": vp_watch_heap, "vp_is_symbolic": vp_is_symbolic,
    "memcpy": m_memcpy, "memmove": m_memmove, "memset": m_memset, "memcmp": m_memcmp, "bcmp": m_memcmp, "strlen": m_strlen, "memchr": m_memchr,
    "_Znwm": m_new, "_Znam": m_new, "_ZdlPv": m_free, "_ZdlPvm": m_free, "_ZdaPv": m_free, "_ZdaPvm": m_free,
    "_ZnwmSt11align_val_t": lambda e, s, f, i, a: m_aligned_alloc(e, s, f, i, [a[1], a[0]]), "_ZnamSt11align_val_t": lambda e, s, f, i, a: m_aligned_alloc(e, s, f, i, [a[1], a[0]]),
    "_ZdlPvSt11align_val_t": m_free, "_ZdlPvmSt11align_val_t": m_free, "_ZdaPvSt11align_val_t": m_free,
    "malloc": m_malloc, "free": m_free, "aligned_alloc": m_aligned_alloc,
    "tolower": m_tolower, "toupper": m_toupper,
    "isdigit": _cls(lambda x: rng(x, 48, 57)), "isalpha": _cls(lambda x: z3.Or(rng(x, 65, 90), rng(x, 97, 122))),
    "isalnum": _cls(lambda x: z3.Or(rng(x, 48, 57), rng(x, 65, 90), rng(x, 97, 122))),
    "isspace": _cls(lambda x: z3.Or(x == 32, rng(x, 9, 13))), "isupper": _cls(lambda x: rng(x, 65, 90)), "islower": _cls(lambda x: rng(x, 97, 122)),
    "fabs": m_fp("fabs"), "fabsf": m_fp("fabs"), "floor": m_fp("floor"), "floorf": m_fp("floor"), "ceil": m_fp("ceil"), "ceilf": m_fp("ceil"),
    "trunc": m_fp("trunc"), "truncf": m_fp("trunc"), "round": m_fp("round"), "roundf": m_fp("round"), "sqrt": m_fp("sqrt"), "sqrtf": m_fp("sqrt"),
    "abs": m_abs, "__assert_fail": m_fail, "_ZSt21__glibcxx_assert_failPKciS0_S0_": m_fail, "abort": m_fail, "_ZSt9terminatev": m_fail,
    "_ZSt20__throw_length_errorPKc": m_fail, "_ZSt24__throw_out_of_range_fmtPKcz": m_fail, "_ZSt17__throw_bad_allocv": m_fail, "_ZSt20__throw_out_of_rangePKc": m_fail,
    "_ZSt28__throw_bad_array_new_lengthv": m_fail, "_ZSt19__throw_logic_errorPKc": m_fail, "_ZSt25__throw_bad_function_callv": m_fail,
    "__cxa_guard_acquire": m_guard_acquire, "__cxa_guard_release": m_guard_release, "__cxa_atexit": m_nop, "sched_yield": m_yield,
    "exit": m_fail,
}
