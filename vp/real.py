"""Floating point in the second encoding: every finite float term becomes a real.

A term is (e, lo, hi, g): e the real (or a Fraction), lo <= e <= hi, e a multiple of 2^g.  An operation whose exact result is
known to be representable (a multiple of 2^g below 2^(g + precision)) is the exact operation; any other result is a fresh real
within the rounding error of the exact one, and rounding is monotone with respect to every other float of the formula.  A
term that cannot be shown to be finite from the constraints that hold everywhere is None: comparisons with it are
unconstrained.  So, as for the integers, unsat carries over and sat is never used.
"""
from fractions import Fraction as Q
import z3

PREC = {32: 24, 64: 53}
EMIN = {32: -149, 64: -1074}
MAXF = {32: Q((1 << 24) - 1) * Q(2) ** 104, 64: Q((1 << 53) - 1) * Q(2) ** 971}
NEAR = 24  # roundings compared with each other at most


def num(e):
    return z3.RealVal(str(e)) if isinstance(e, Q) else e


def ulp_exp(x, b):
    """exponent of the unit in the last place of |x| (x a Fraction)"""
    x = abs(x)
    if x == 0:
        return EMIN[b]
    k = x.numerator.bit_length() - x.denominator.bit_length()
    if Q(2) ** k > x:
        k -= 1
    return max(k - PREC[b] + 1, EMIN[b])


def rnd(x, b):
    """to nearest, ties to even; None if it overflows"""
    u = Q(2) ** ulp_exp(x, b)
    n = x / u
    f = n.numerator // n.denominator
    r = n - f
    if r > Q(1, 2) or r == Q(1, 2) and f % 2:
        f += 1
    v = f * u
    return v if abs(v) <= MAXF[b] else None


def tz(x):
    """largest g with x a multiple of 2^g, for a dyadic Fraction"""
    if x == 0:
        return 0
    n, d = abs(x.numerator), x.denominator
    return (n & -n).bit_length() - 1 if d == 1 else -(d.bit_length() - 1)


class Real:
    def init_fp(self):
        self.fps = {}
        self.known = {}
        self.shapes = {}
        self.fbounds = {}
        self.rounded = []  # (exact, result, bits)
        self.floats = []   # other floats of the formula
        self.qs = {}

    def bits(self, t):
        s = t.sort()
        w = s.ebits() + s.sbits()
        return w if (s.ebits(), s.sbits()) in ((8, 24), (11, 53)) else None

    def learn_fp(self, c):
        """bounds on float terms from a comparison that holds"""
        d = c.decl().kind()
        if d == z3.Z3_OP_AND:
            for x in c.children():
                self.learn_fp(x)
            return
        if d not in (z3.Z3_OP_FPA_LE, z3.Z3_OP_FPA_LT, z3.Z3_OP_FPA_GE, z3.Z3_OP_FPA_GT, z3.Z3_OP_FPA_EQ):
            return
        a, b = c.arg(0), c.arg(1)
        for x, y, up in ((a, b, d in (z3.Z3_OP_FPA_LE, z3.Z3_OP_FPA_LT)), (b, a, d not in (z3.Z3_OP_FPA_LE, z3.Z3_OP_FPA_LT))):
            v = self.const(y)
            if v is None or self.const(x) is not None:
                continue
            r = self.fbounds.setdefault(x.get_id(), [None, None, x])
            if up or d == z3.Z3_OP_FPA_EQ:
                r[1] = v if r[1] is None else min(r[1], v)
            if not up or d == z3.Z3_OP_FPA_EQ:
                r[0] = v if r[0] is None else max(r[0], v)

    def const(self, t):
        if not z3.is_fp_value(t):
            return None
        if t.isNaN() or t.isInf():
            return None
        if t.isZero():
            return Q(0)
        b = self.bits(t)
        if b is None:
            return None
        s = -1 if t.sign() else 1
        sig = t.significand_as_long()
        ex = t.exponent_as_long(True)
        p = PREC[b] - 1
        bias = 127 if b == 32 else 1023
        if ex == 0:
            return Q(s * sig) * Q(2) ** (1 - bias - p)
        return Q(s * (sig + (1 << p))) * Q(2) ** (ex - bias - p)

    def fp(self, t):
        k = t.get_id()
        if k in self.fps:
            return self.fps[k][0]
        r = self.fp_(t)
        fb = self.fbounds.get(k)
        if r is not None and fb is not None:
            e, lo, hi, g = r
            lo, hi = max(lo, fb[0]) if fb[0] is not None else lo, min(hi, fb[1]) if fb[1] is not None else hi
            if lo <= hi:
                r = (e, lo, hi, g)
        elif r is None and fb is not None and fb[0] is not None and fb[1] is not None and self.bits(t):
            r = self.free(fb[0], fb[1], self.bits(t))
        if r is not None and not isinstance(r[0], Q):
            self.floats.append((r[0], self.bits(t)))
        self.fps[k] = (r, t)
        return r

    def free(self, lo, hi, b):
        self.n += 1
        v = z3.Real(f"f!{self.n}")
        self.side += [v >= num(lo), v <= num(hi)]
        self.known[v.get_id()] = ((lo, hi, EMIN[b]), v)
        return (v, lo, hi, EMIN[b])

    def norm(self, e):
        if isinstance(e, Q):
            return e
        e = z3.simplify(e, som=True)
        if z3.is_rational_value(e):
            return Q(e.numerator_as_long(), e.denominator_as_long())
        return e

    def shape(self, e):
        """bounds and granularity (None: none known) of a sum of products"""
        k = e.get_id()
        if k in self.shapes:
            return self.shapes[k][0]
        r = None
        d = e.decl().kind()
        ch = e.children()
        if z3.is_rational_value(e) or z3.is_int_value(e):
            v = Q(e.as_long()) if z3.is_int_value(e) else Q(e.numerator_as_long(), e.denominator_as_long())
            r = (v, v, tz(v) if v.denominator & (v.denominator - 1) == 0 else None)
        elif d == z3.Z3_OP_TO_REAL:
            r = self.shape(ch[0])
            r = r and (r[0], r[1], 0 if r[2] is None else max(0, r[2]))
        elif d == z3.Z3_OP_UNINTERPRETED and not ch:
            r = self.known.get(k)
            r = r and r[0]
        elif d == z3.Z3_OP_ADD:
            a = [self.shape(c) for c in ch]
            if all(a):
                r = (sum(x[0] for x in a), sum(x[1] for x in a), None if any(x[2] is None for x in a) else min(x[2] for x in a))
        elif d == z3.Z3_OP_MUL:
            a = [self.shape(c) for c in ch]
            if all(a):
                r = a[0]
                for x in a[1:]:
                    p = [i * j for i in r[:2] for j in x[:2]]
                    r = (min(p), max(p), None if r[2] is None or x[2] is None else r[2] + x[2])
        self.shapes[k] = (r, e)
        return r

    def round(self, e, lo, hi, g, b, tiny=True):
        """the float next to the exact value e"""
        e = self.norm(e)
        if not isinstance(e, Q):
            s = self.shape(e)
            if s is not None:
                lo, hi = max(lo, s[0]), min(hi, s[1])
                g = s[2] if g is None else g if s[2] is None else max(g, s[2])
        if isinstance(e, Q):
            v = rnd(e, b)
            return None if v is None else (v, v, v, max(tz(v), EMIN[b]))
        m = max(abs(lo), abs(hi))
        if g is not None and g >= EMIN[b] and m <= Q(2) ** (PREC[b] + g):
            return (e, lo, hi, g)
        rl, rh = rnd(lo, b), rnd(hi, b)
        if rl is None or rh is None:
            return None
        self.n += 1
        r = z3.Real(f"r!{self.n}")
        u = Q(1, 1 << PREC[b])
        eta = Q(2) ** (EMIN[b] - 1) if tiny else Q(0)
        self.side += [r >= num(rl), r <= num(rh)]
        half = num(Q(2) ** (ulp_exp(m, b) - 1))
        self.side += [r - e <= half, e - r <= half]
        if hi > 0:
            x = z3.And(r >= e * num(1 - u) - num(eta), r <= e * num(1 + u) + num(eta), r >= 0)
            self.side.append(x if lo >= 0 else z3.Implies(e >= 0, x))
        if lo < 0:
            x = z3.And(r <= e * num(1 - u) + num(eta), r >= e * num(1 + u) - num(eta), r <= 0)
            self.side.append(x if hi <= 0 else z3.Implies(e <= 0, x))
        self.rounded.append((e, r, b))
        g = max(g, EMIN[b]) if g is not None else EMIN[b]
        self.known[r.get_id()] = ((rl, rh, g), r)
        return (r, rl, rh, g)

    def rne(self, t):
        return t.decl().kind() == z3.Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN

    def fp_(self, t):
        b = self.bits(t)
        if b is None:
            return None
        v = self.const(t)
        if v is not None:
            return (v, v, v, max(tz(v), EMIN[b]))
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_FPA_NEG:
            a = self.fp(ch[0])
            return a and (-a[0], -a[2], -a[1], a[3])
        if d == z3.Z3_OP_FPA_ABS:
            a = self.fp(ch[0])
            if a is None or a[1] >= 0:
                return a
            if a[2] <= 0:
                return (-a[0], -a[2], -a[1], a[3])
            return (z3.If(a[0] >= 0, a[0], -a[0]), Q(0), max(-a[1], a[2]), a[3])
        if d in (z3.Z3_OP_FPA_MIN, z3.Z3_OP_FPA_MAX):
            a, c = self.fp(ch[0]), self.fp(ch[1])
            if a is None or c is None:
                return None
            f = min if d == z3.Z3_OP_FPA_MIN else max
            le = num(a[0]) <= num(c[0])
            return (z3.If(le, num(a[0]), num(c[0])) if f is min else z3.If(le, num(c[0]), num(a[0])), f(a[1], c[1]), f(a[2], c[2]), min(a[3], c[3]))
        if d == z3.Z3_OP_ITE:
            a, c = self.fp(ch[1]), self.fp(ch[2])
            if a is None or c is None:
                return None
            return (z3.If(self.bo(ch[0]), num(a[0]), num(c[0])), min(a[1], c[1]), max(a[2], c[2]), min(a[3], c[3]))
        if d == z3.Z3_OP_FPA_TO_FP_UNSIGNED and self.rne(ch[0]):
            e, lo, hi = self.bv(ch[1])
            return self.from_int(e, lo, hi, b)
        if d == z3.Z3_OP_FPA_TO_FP and len(ch) == 2 and self.rne(ch[0]):
            if z3.is_bv(ch[1]):
                e, lo, hi = self.sbv(ch[1])
                return self.from_int(e, lo, hi, b)
            if z3.is_fp(ch[1]):
                a = self.fp(ch[1])
                return a and self.round(a[0], a[1], a[2], a[3], b)
            return None
        if d == z3.Z3_OP_FPA_TO_FP and len(ch) == 1 and ch[0].decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV:
            x = ch[0].arg(0)
            return self.fp(x) if x.sort() == t.sort() else None
        if d in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV) and self.rne(ch[0]):
            a, c = self.fp(ch[1]), self.fp(ch[2])
            if a is None or c is None:
                return None
            x, y = a[0], c[0]
            if d == z3.Z3_OP_FPA_SUB:
                d, y, c = z3.Z3_OP_FPA_ADD, -y, (-c[0], -c[2], -c[1], c[3])
            if d == z3.Z3_OP_FPA_ADD:
                return self.round(x + y if isinstance(x, Q) and isinstance(y, Q) else num(x) + num(y), a[1] + c[1], a[2] + c[2], min(a[3], c[3]), b, False)
            if d == z3.Z3_OP_FPA_MUL:
                p = [i * j for i in a[1:3] for j in c[1:3]]
                return self.round(x * y if isinstance(x, Q) and isinstance(y, Q) else num(x) * num(y), min(p), max(p), a[3] + c[3], b)
            if c[1] <= 0 <= c[2]:
                return None
            p = [i / j for i in a[1:3] for j in c[1:3]]
            if isinstance(y, Q):
                n = abs(y.numerator)
                g = a[3] - tz(y) if n & (n - 1) == 0 else None
                return self.round(x / y if isinstance(x, Q) else num(x) * num(1 / y), min(p), max(p), g, b)
            self.n += 1
            q = z3.Real(f"q!{self.n}")
            self.side += [q * num(y) == num(x), q >= num(min(p)), q <= num(max(p))]
            return self.round(q, min(p), max(p), None, b)
        if d == z3.Z3_OP_FPA_FMA and self.rne(ch[0]):
            a, c, s = self.fp(ch[1]), self.fp(ch[2]), self.fp(ch[3])
            if a is None or c is None or s is None:
                return None
            p = [i * j for i in a[1:3] for j in c[1:3]]
            return self.round(num(a[0]) * num(c[0]) + num(s[0]), min(p) + s[1], max(p) + s[2], min(a[3] + c[3], s[3]), b)
        return None

    def from_int(self, e, lo, hi, b):
        if isinstance(e, int):
            return self.round(Q(e), Q(e), Q(e), 0, b)
        return self.round(z3.ToReal(e), Q(lo), Q(hi), 0, b, False)

    def fp_compare(self, d, a, c):
        x, y = self.fp(a), self.fp(c)
        if x is None or y is None:
            return self.fresh_bool()
        if isinstance(x[0], Q) and isinstance(y[0], Q):
            p, q = x[0], y[0]
            return z3.BoolVal({z3.Z3_OP_FPA_LE: p <= q, z3.Z3_OP_FPA_LT: p < q, z3.Z3_OP_FPA_GE: p >= q, z3.Z3_OP_FPA_GT: p > q, z3.Z3_OP_FPA_EQ: p == q}[d])
        p, q = num(x[0]), num(y[0])
        return {z3.Z3_OP_FPA_LE: lambda: p <= q, z3.Z3_OP_FPA_LT: lambda: p < q, z3.Z3_OP_FPA_GE: lambda: p >= q, z3.Z3_OP_FPA_GT: lambda: p > q, z3.Z3_OP_FPA_EQ: lambda: p == q}[d]()

    def fp_bool(self, t, d, ch):
        if d in (z3.Z3_OP_FPA_LE, z3.Z3_OP_FPA_LT, z3.Z3_OP_FPA_GE, z3.Z3_OP_FPA_GT, z3.Z3_OP_FPA_EQ):
            return self.fp_compare(d, ch[0], ch[1])
        if d in (z3.Z3_OP_FPA_IS_NAN, z3.Z3_OP_FPA_IS_INF):
            return z3.BoolVal(False) if self.fp(ch[0]) is not None else self.fresh_bool()
        if d == z3.Z3_OP_FPA_IS_ZERO:
            x = self.fp(ch[0])
            return num(x[0]) == 0 if x is not None else self.fresh_bool()
        if d == z3.Z3_OP_EQ and z3.is_fp(ch[0]):
            # identity: implies equal values; the sign of zero is not tracked
            x, y = self.fp(ch[0]), self.fp(ch[1])
            b = self.fresh_bool()
            if x is not None and y is not None:
                self.side.append(z3.Implies(b, num(x[0]) == num(y[0])))
                self.side.append(z3.Implies(z3.And(num(x[0]) == num(y[0]), num(x[0]) != 0), b))
            return b
        return None

    def fp_to_int(self, t, d, ch):
        """truncation to a bit-vector"""
        if ch[0].decl().kind() != z3.Z3_OP_FPA_RM_TOWARD_ZERO:
            return None
        x = self.fp(ch[1])
        if x is None:
            return None
        w = t.size()
        lo, hi = int(x[1]), int(x[2])
        mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if d == z3.Z3_OP_FPA_TO_SBV else (0, (1 << w) - 1)
        if lo < mn or hi > mx:
            return None
        if isinstance(x[0], Q):
            return (lo % (1 << w),) * 3
        n = self.fresh(lo, hi, "trunc")
        e, r = num(x[0]), z3.ToReal(n)
        self.side.append(z3.If(e >= 0, z3.And(r <= e, e < r + 1), z3.And(r >= e, e > r - 1)))
        return self.wrap(n, lo, hi, w)

    def finish_fp(self):
        """rounding is monotone"""
        out = []
        seen = set()
        near = []
        for f, b in self.floats:
            if f.get_id() not in seen:
                seen.add(f.get_id())
                near.append((f, b))
        near = near[:NEAR]
        for e, r, b in self.rounded[:NEAR]:
            for f, fb in near:
                if fb <= b and not f.eq(r):
                    out += [z3.Implies(e <= f, r <= f), z3.Implies(e >= f, r >= f)]
        for i, (e, r, b) in enumerate(self.rounded[:NEAR]):
            for e2, r2, b2 in self.rounded[:i]:
                if b == b2:
                    out += [z3.Implies(e <= e2, r <= r2), z3.Implies(e >= e2, r >= r2)]
        return out


def has_fp(cs):
    seen = set()
    todo = list(cs)
    ops = {z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_FMA}
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() in ops:
                return True
            todo.extend(t.children())
    return False
