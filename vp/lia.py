"""Second encoding of a verification condition: bit-vectors as bounded integers.

Every bit-vector term t of width w becomes an integer term e with 0 <= e < 2^w; wrap-around, division by constants, shifts and
field extraction become linear constraints over fresh integers.  Terms outside of that (floating point, bitwise mixing of
unrelated values, division by variables) become unconstrained integers of the right range, so an `unsat` answer carries over to
the bit-vector formula; a `sat` answer is never used.
"""
import z3

from .real import Q, Real, has_fp

K = {k: getattr(z3, k) for k in dir(z3) if k.startswith("Z3_OP_")}
INV = {v: k for k, v in K.items()}


class Give(Exception):
    pass


class Lia(Real):
    def __init__(self):
        self.init_fp()
        self.smemo = {}
        self.svars = {}
        self.memo = {}
        self.side = []
        self.n = 0
        self.divs = {}
        self.arrs = {}
        self.funs = {}
        self.bounds = {}  # term id -> [unsigned lo, hi, signed lo, hi], from constraints that hold everywhere

    def fresh(self, lo, hi, tag="k"):
        self.n += 1
        v = z3.Int(f"{tag}!{self.n}")
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        self.known[v.get_id()] = ((Q(lo), Q(hi), 0), v)
        return v

    def fresh_bool(self):
        self.n += 1
        return z3.Bool(f"b!{self.n}")

    # a bit-vector is (expr or python int, lo, hi)
    def wrap(self, e, lo, hi, w):
        m = 1 << w
        if lo >= 0 and hi < m:
            return (e, lo, hi)
        if lo == hi:
            return (lo % m, lo % m, lo % m)
        klo, khi = lo // m, hi // m
        if klo == khi:
            return (e - klo * m, lo - klo * m, hi - klo * m)
        k = self.fresh(klo, khi)
        r = self.fresh(0, m - 1, "w")
        self.side.append(r == e - k * m)
        return (r, 0, m - 1)

    def divmod(self, a, c):
        """a = (expr, lo, hi) by constant c > 0 -> (q, r)"""
        e, lo, hi = a
        if isinstance(e, int):
            return (e // c,) * 3, (e % c,) * 3
        if c == 1:
            return a, (0, 0, 0)
        if lo // c == hi // c:
            q = lo // c
            return (q, q, q), (e - q * c, lo - q * c, hi - q * c)
        k = (e.get_id(), c)
        if k not in self.divs:
            q = self.fresh(lo // c, hi // c, "q")
            r = self.fresh(0, c - 1, "r")
            self.side.append(e == q * c + r)
            self.divs[k] = (q, r, e)
        q, r, _ = self.divs[k]
        return (q, lo // c, hi // c), (r, 0, c - 1)

    def signed(self, a, w):
        e, lo, hi = a
        h = 1 << (w - 1)
        if hi < h:
            return a
        if lo >= h:
            return (e - 2 * h, lo - 2 * h, hi - 2 * h)
        if isinstance(e, int):
            v = e - 2 * h if e >= h else e
            return (v, v, v)
        s = self.fresh(-h, h - 1, "s")
        self.side.append(z3.Or(z3.And(e < h, s == e), z3.And(e >= h, s == e - 2 * h)))
        return (s, -h, h - 1)

    def sbv(self, t):
        """t read as a signed number: arithmetic that does not overflow stays arithmetic"""
        k = t.get_id()
        r = self.smemo.get(k)
        if r is None:
            r = self.sbv_(t)
            b = self.bounds.get(k)
            if b is not None and not isinstance(r[0], int):
                lo, hi = max(r[1], b[2]), min(r[2], b[3])
                if lo <= hi:
                    r = (r[0], lo, hi)
            self.smemo[k] = (r, t)
            return r
        return r[0]

    def sbv_(self, t):
        w = t.size()
        h = 1 << (w - 1)
        if z3.is_bv_value(t):
            v = t.as_signed_long()
            return (v, v, v)
        d = t.decl().kind()
        ch = t.children()
        r = None
        if d == z3.Z3_OP_SIGN_EXT:
            return self.sbv(ch[0])
        if d == z3.Z3_OP_UNINTERPRETED and not ch and self.svar(t) is not None:
            return self.svar(t)
        if d == z3.Z3_OP_EXTRACT and t.params()[1] == 0:
            r = self.sbv(ch[0])
        elif d == z3.Z3_OP_BADD:
            a = [self.sbv(c) for c in ch]
            r = (sum((x[0] for x in a), 0), sum(x[1] for x in a), sum(x[2] for x in a))
        elif d == z3.Z3_OP_BMUL and len(ch) == 2:
            a, b = self.sbv(ch[0]), self.sbv(ch[1])
            q = [x * y for x in a[1:] for y in b[1:]]
            r = (a[0] * b[0], min(q), max(q))
        elif d == z3.Z3_OP_ITE:
            a, b = self.sbv(ch[1]), self.sbv(ch[2])
            c = self.bo(ch[0])
            if z3.is_true(c):
                return a
            if z3.is_false(c):
                return b
            lo, hi = min(a[1], b[1]), max(a[2], b[2])
            v = self.fresh(lo, hi, "site")
            self.side.append(z3.If(c, v == a[0], v == b[0]))
            return (v, lo, hi)
        if r is not None and r[1] >= -h and r[2] < h:
            return r
        return self.signed(self.bv(t), w)

    def svar(self, t):
        """a variable known to have a range around zero"""
        k = t.get_id()
        if k in self.svars:
            return self.svars[k][0]
        b = self.bounds.get(k)
        w = t.size()
        r = None
        if b is not None and b[2] < 0 <= b[3] and (b[2] > -(1 << (w - 1)) or b[3] < (1 << (w - 1)) - 1):
            r = (self.fresh(b[2], b[3], "sv"), b[2], b[3])
        self.svars[k] = (r, t)
        return r

    def bv(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.bv_(t)
            b = self.bounds.get(k)
            if b is not None:
                lo, hi = b[0], b[1]
                if b[2] >= 0:
                    lo, hi = max(lo, b[2]), min(hi, b[3])
                lo, hi = max(lo, r[1]), min(hi, r[2])
                if lo <= hi:
                    r = (r[0], lo, hi)
            self.memo[k] = (r, t)
            return r
        return r[0]

    def learn(self, c):
        """bounds on terms from a constraint that holds"""
        neg = False
        while z3.is_not(c):
            neg, c = not neg, c.arg(0)
        d = c.decl().kind()
        if d == z3.Z3_OP_AND and not neg or d == z3.Z3_OP_OR and neg:
            for x in c.children():
                self.learn(z3.Not(x) if neg else x)
            return
        if c.num_args() != 2 or not z3.is_bv(c.arg(0)):
            return
        rel = {z3.Z3_OP_ULEQ: ("u", "<="), z3.Z3_OP_ULT: ("u", "<"), z3.Z3_OP_UGEQ: ("u", ">="), z3.Z3_OP_UGT: ("u", ">"),
               z3.Z3_OP_SLEQ: ("s", "<="), z3.Z3_OP_SLT: ("s", "<"), z3.Z3_OP_SGEQ: ("s", ">="), z3.Z3_OP_SGT: ("s", ">")}.get(d)
        a, b = c.arg(0), c.arg(1)
        w = a.size()
        m = 1 << w
        if rel is None:
            if d == z3.Z3_OP_EQ and not neg:
                for x, y in ((a, b), (b, a)):
                    # x == 0 ++ y' style equalities: the high part of a term is constant
                    if z3.is_bv_value(y) and x.decl().kind() == z3.Z3_OP_EXTRACT:
                        h, l = x.params()
                        t = x.arg(0)
                        if h == t.size() - 1:
                            v = y.as_long()
                            self.put(t, "u", v << l, ((v + 1) << l) - 1)
            return
        sg, o = rel
        if neg:
            o = {"<=": ">", "<": ">=", ">=": "<", ">": "<="}[o]
        for x, y, op in ((a, b, o), (b, a, {"<=": ">=", "<": ">", ">=": "<=", ">": "<"}[o])):
            if z3.is_bv_value(y) and not z3.is_bv_value(x):
                v = y.as_long() if sg == "u" else y.as_signed_long()
                mn, mx = (0, m - 1) if sg == "u" else (-(m // 2), m // 2 - 1)
                if op == "<=":
                    self.put(x, sg, mn, v)
                elif op == "<":
                    self.put(x, sg, mn, v - 1)
                elif op == ">=":
                    self.put(x, sg, v, mx)
                else:
                    self.put(x, sg, v + 1, mx)

    def put(self, t, sg, lo, hi):
        m = 1 << t.size()
        b = self.bounds.setdefault(t.get_id(), [0, m - 1, -(m // 2), m // 2 - 1])
        i = 0 if sg == "u" else 2
        b[i], b[i + 1] = max(b[i], lo), min(b[i + 1], hi)
        self.keep = getattr(self, "keep", [])
        self.keep.append(t)

    def bo(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.bo_(t)
            self.memo[k] = (r, t)
            return r
        return r[0]

    def abstract(self, t):
        w = t.size()
        return (self.fresh(0, (1 << w) - 1, "x"), 0, (1 << w) - 1)

    def bv_(self, t):
        w = t.size()
        m = 1 << w
        if z3.is_bv_value(t):
            v = t.as_long()
            return (v, v, v)
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                sv = self.svar(t)
                if sv is not None:
                    v = self.fresh(0, m - 1, "u")
                    self.side.append(v == z3.If(sv[0] >= 0, sv[0], sv[0] + m))
                    return (v, 0, m - 1)
                v = self.fresh(0, m - 1, t.decl().name()[:12].replace("|", "_"))
                return (v, 0, m - 1)
            if all(z3.is_bv(c) for c in ch):
                a = [self.bv(c)[0] for c in ch]
                f = self.funs.setdefault(t.decl().name(), z3.Function(t.decl().name() + "!i", *([z3.IntSort()] * (len(ch) + 1))))
                v = self.fresh(0, m - 1, "uf")
                self.side.append(v == f(*[z3.IntVal(x) if isinstance(x, int) else x for x in a]))
                return (v, 0, m - 1)
            return self.abstract(t)
        if d == z3.Z3_OP_BADD:
            e, lo, hi = 0, 0, 0
            # x - c * (x / c)  is  x % c
            for i, p in enumerate(ch):
                if p.decl().kind() == z3.Z3_OP_BMUL and p.num_args() == 2 and z3.is_bv_value(p.arg(0)) and p.arg(1).decl().kind() in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                    x, c = p.arg(1).arg(0), p.arg(1).arg(1)
                    if z3.is_bv_value(c) and c.as_long() and (p.arg(0).as_long() + c.as_long()) % m == 0:
                        j = next((j for j, y in enumerate(ch) if j != i and y.eq(x)), None)
                        if j is not None:
                            e, lo, hi = self.divmod(self.bv(x), c.as_long())[1]
                            ch = [y for k, y in enumerate(ch) if k not in (i, j)]
                            break
            for c in ch:
                a = self.bv(c)
                # a constant in the upper half is a subtraction
                if isinstance(a[0], int) and a[0] > m // 2:
                    a = (a[0] - m,) * 3
                e, lo, hi = e + a[0], lo + a[1], hi + a[2]
            return self.wrap(e, lo, hi, w)
        if d == z3.Z3_OP_BSUB:
            a, b = self.bv(ch[0]), self.bv(ch[1])
            return self.wrap(a[0] - b[0], a[1] - b[2], a[2] - b[1], w)
        if d == z3.Z3_OP_BNEG:
            a = self.bv(ch[0])
            return self.wrap(-a[0], -a[2], -a[1], w)
        if d == z3.Z3_OP_BNOT:
            a = self.bv(ch[0])
            return (m - 1 - a[0], m - 1 - a[2], m - 1 - a[1])
        if d == z3.Z3_OP_BMUL:
            e, lo, hi = 1, 1, 1
            cs = [self.bv(c) for c in ch]
            cs.sort(key=lambda a: not isinstance(a[0], int))
            for a in cs:
                if isinstance(e, int) and e > m // 2:
                    e = lo = hi = e - m
                if not isinstance(e, int) and not isinstance(a[0], int):
                    x = e * a[0]
                    e, lo, hi = self.wrap(x, lo * a[1], hi * a[2], w)
                    continue
                if isinstance(e, int) and not isinstance(a[0], int):
                    p = [e * a[1], e * a[2]]
                    e, lo, hi = self.wrap(e * a[0], min(p), max(p), w)
                else:
                    c = a[0]
                    p = [lo * c, hi * c]
                    e, lo, hi = self.wrap(e * c, min(p), max(p), w)
            return self.wrap(e, lo, hi, w)
        if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            a, b = self.bv(ch[0]), self.bv(ch[1])
            div = d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)
            if isinstance(b[0], int):
                if b[0] == 0:
                    return (m - 1,) * 3 if div else a
                q, r = self.divmod(a, b[0])
                return q if div else r
            if b[1] > 0:
                q = self.fresh(0, a[2], "q")
                r = self.fresh(0, b[2] - 1, "r")
                self.side.append(a[0] == q * b[0] + r)
                self.side.append(r < b[0])
                return (q, 0, a[2]) if div else (r, 0, b[2] - 1)
            q = self.fresh(0, m - 1, "q")
            r = self.fresh(0, m - 1, "r")
            B = b[0]
            self.side.append(z3.Implies(B != 0, z3.And(a[0] == q * B + r, r < B, q <= a[0], r <= a[0])))
            self.side.append(z3.Implies(B == 0, z3.And(q == m - 1, r == a[0])))
            return (q, 0, m - 1) if div else (r, 0, m - 1)
        if d in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            a, b = self.sbv(ch[0]), self.bv(ch[1])
            if not isinstance(b[0], int) or b[0] == 0:
                return self.abstract(t)
            c = b[0] - m if b[0] >= m // 2 else b[0]
            ac = abs(c)
            e, lo, hi = a
            if isinstance(e, int):
                q = abs(e) // ac * (1 if (e < 0) == (c < 0) else -1)
                v = q if d in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else e - q * c
                return (v % m,) * 3
            q = self.fresh(-(max(abs(lo), abs(hi)) // ac), max(abs(lo), abs(hi)) // ac, "sq")
            r = self.fresh(-(ac - 1), ac - 1, "sr")
            self.side.append(e == q * ac + r)
            self.side.append(z3.If(e >= 0, z3.And(r >= 0, q >= 0), z3.And(r <= 0, q <= 0)))
            B = max(abs(lo), abs(hi)) // ac
            if d in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                return self.wrap(q if c > 0 else -q, -B, B, w)
            return self.wrap(r, -(ac - 1) if lo < 0 else 0, ac - 1, w)
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= w:
                return (0, 0, 0)
            a = self.bv(ch[0])
            return self.wrap(a[0] * (1 << s), a[1] << s, a[2] << s, w)
        if d == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= w:
                return (0, 0, 0)
            return self.divmod(self.bv(ch[0]), 1 << s)[0]
        if d == z3.Z3_OP_BASHR and z3.is_bv_value(ch[1]):
            s = min(ch[1].as_long(), w - 1)
            a = self.sbv(ch[0])
            if isinstance(a[0], int):
                return ((a[0] >> s) % m,) * 3
            c = 1 << s
            q = self.fresh(a[1] // c, a[2] // c, "aq")
            r = self.fresh(0, c - 1, "ar")
            self.side.append(a[0] == q * c + r)
            return self.wrap(q, a[1] // c, a[2] // c, w)
        if d == z3.Z3_OP_ZERO_EXT:
            return self.bv(ch[0])
        if d == z3.Z3_OP_SIGN_EXT:
            a = self.sbv(ch[0])
            if a[1] >= 0:
                return a
            if isinstance(a[0], int):
                return (a[0] % m,) * 3
            return self.wrap(a[0], a[1], a[2], w)
        if d == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            a = self.bv(ch[0])
            if l:
                a = self.divmod(a, 1 << l)[0]
            if a[2] < m:
                return a
            return self.divmod(a, m)[1]
        if d == z3.Z3_OP_CONCAT:
            e, lo, hi = 0, 0, 0
            for c in ch:
                s = 1 << c.size()
                a = self.bv(c)
                e, lo, hi = e * s + a[0], lo * s + a[1], hi * s + a[2]
            return (e, lo, hi)
        if d == z3.Z3_OP_BAND and len(ch) == 2:
            a, b = self.bv(ch[0]), self.bv(ch[1])
            if isinstance(a[0], int):
                a, b = b, a
            if isinstance(b[0], int) and b[0]:
                c = b[0]
                l = (c & -c).bit_length() - 1
                if (c >> l) & ((c >> l) + 1) == 0:  # one run of ones
                    q = self.divmod(a, 1 << l)[0] if l else a
                    n = c >> l
                    r = q if q[2] <= n else self.divmod(q, n + 1)[1]
                    return (r[0] * (1 << l), r[1] << l, r[2] << l)
                v = self.fresh(0, min(c, a[2]), "and")
                self.side.append(v <= a[0])
                return (v, 0, min(c, a[2]))
            if isinstance(b[0], int):
                return (0, 0, 0)
            v = self.fresh(0, min(a[2], b[2]), "and")
            self.side += [v <= a[0], v <= b[0]]
            return (v, 0, min(a[2], b[2]))
        if d in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            cs = [self.bv(c) for c in ch]
            hi = (1 << max(c[2] for c in cs).bit_length()) - 1
            v = self.fresh(0, hi, "or")
            s = sum((c[0] for c in cs), 0)
            self.side.append(v <= s)
            if d == z3.Z3_OP_BOR:
                self.side += [v >= c[0] for c in cs]
            return (v, 0, hi)
        if d == z3.Z3_OP_ITE:
            c = self.bo(ch[0])
            a, b = self.bv(ch[1]), self.bv(ch[2])
            if isinstance(a[0], int) and isinstance(b[0], int) and a[0] == b[0]:
                return a
            v = self.fresh(min(a[1], b[1]), max(a[2], b[2]), "ite")
            self.side.append(z3.If(c, v == a[0], v == b[0]))
            return (v, min(a[1], b[1]), max(a[2], b[2]))
        if d == z3.Z3_OP_SELECT:
            return self.select(ch[0], ch[1], w)
        if d in (z3.Z3_OP_FPA_TO_SBV, z3.Z3_OP_FPA_TO_UBV):
            r = self.fp_to_int(t, d, ch)
            if r is not None:
                return r
        return self.abstract(t)

    def select(self, arr, idx, w):
        if z3.is_quantifier(arr) and arr.is_lambda() and arr.num_vars() == 1:
            return self.bv(z3.substitute_vars(arr.body(), idx))
        m = 1 << w
        v = self.fresh(0, m - 1, "sel")
        i = self.bv(idx)[0]
        self.side.append(v == z3.Select(self.arr(arr), i))
        return (v, 0, m - 1)

    def arr(self, a):
        k = a.get_id()
        r = self.arrs.get(k)
        if r is not None:
            return r[0]
        if z3.is_quantifier(a):
            raise Give("array given by a lambda term")
        d = a.decl().kind()
        if d == z3.Z3_OP_STORE:
            x = self.arr(a.arg(0))
            v = z3.Store(x, self.bv(a.arg(1))[0], self.bv(a.arg(2))[0])
        elif d == z3.Z3_OP_ITE:
            v = z3.If(self.bo(a.arg(0)), self.arr(a.arg(1)), self.arr(a.arg(2)))
        elif d == z3.Z3_OP_CONST_ARRAY:
            v = z3.K(z3.IntSort(), z3.IntVal(self.bv(a.arg(0))[0]) if isinstance(self.bv(a.arg(0))[0], int) else self.bv(a.arg(0))[0])
        elif d == z3.Z3_OP_UNINTERPRETED and a.num_args() == 0:
            if not (z3.is_bv_sort(a.sort().domain()) and z3.is_bv_sort(a.sort().range())):
                raise Give("array sort")
            v = z3.Array(a.decl().name() + "!i", z3.IntSort(), z3.IntSort())
        else:
            raise Give("array term " + INV.get(d, str(d)))
        self.arrs[k] = (v, a)
        return v

    def bo_(self, t):
        if z3.is_true(t) or z3.is_false(t):
            return t
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_AND:
            return z3.And(*[self.bo(c) for c in ch])
        if d == z3.Z3_OP_OR:
            return z3.Or(*[self.bo(c) for c in ch])
        if d == z3.Z3_OP_NOT:
            return z3.Not(self.bo(ch[0]))
        if d == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.bo(ch[0]), self.bo(ch[1]))
        if d == z3.Z3_OP_XOR:
            return z3.Xor(self.bo(ch[0]), self.bo(ch[1]))
        if d == z3.Z3_OP_ITE:
            return z3.If(self.bo(ch[0]), self.bo(ch[1]), self.bo(ch[2]))
        if d == z3.Z3_OP_UNINTERPRETED and not ch:
            return t
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            if z3.is_bool(ch[0]):
                return self.bo(ch[0]) == self.bo(ch[1])
            if z3.is_bv(ch[0]):
                a, b = self.bv(ch[0])[0], self.bv(ch[1])[0]
                return z3.BoolVal(a == b) if isinstance(a, int) and isinstance(b, int) else a == b
            r = self.fp_bool(t, d, ch) if z3.is_fp(ch[0]) else None
            return self.fresh_bool() if r is None else r
        if d == z3.Z3_OP_DISTINCT and z3.is_bv(ch[0]) and len(ch) == 2:
            a, b = self.bv(ch[0])[0], self.bv(ch[1])[0]
            return z3.BoolVal(a != b) if isinstance(a, int) and isinstance(b, int) else a != b
        U = {z3.Z3_OP_ULEQ: "<=", z3.Z3_OP_ULT: "<", z3.Z3_OP_UGEQ: ">=", z3.Z3_OP_UGT: ">"}
        S = {z3.Z3_OP_SLEQ: "<=", z3.Z3_OP_SLT: "<", z3.Z3_OP_SGEQ: ">=", z3.Z3_OP_SGT: ">"}
        if d in U or d in S:
            a, b = (self.sbv(ch[0]), self.sbv(ch[1])) if d in S else (self.bv(ch[0]), self.bv(ch[1]))
            o = U.get(d) or S.get(d)
            x, y = a[0], b[0]
            r = x <= y if o == "<=" else x < y if o == "<" else x >= y if o == ">=" else x > y
            return z3.BoolVal(r) if isinstance(r, bool) else r
        r = self.fp_bool(t, d, ch)
        return self.fresh_bool() if r is None else r


def translate(cs):
    """integer constraints whose unsatisfiability implies that of cs"""
    import sys

    old = sys.getrecursionlimit()
    sys.setrecursionlimit(max(old, 20000))
    try:
        x = Lia()
        for c in cs:
            x.learn(c)
            x.learn_fp(c)
        out = [x.bo(c) for c in cs]
        return out + x.side + x.finish_fp()
    finally:
        sys.setrecursionlimit(old)


def interesting(cs):
    """does the formula contain arithmetic that bit-blasting is bad at?"""
    if has_fp(cs):
        return True
    seen = set()
    todo = list(cs)
    ops = {z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I}
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() in ops:
                return True
            todo.extend(t.children())
    return False
