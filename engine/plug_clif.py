"""The error of the compiled elementary functions, decided over all arguments.

The intermediate code of one function (ln, exp, sin, cos), as the library's code generator emitted it, is
evaluated symbolically on pieces of the argument range x = c + b*t (one piece per binade for ln, per period for the
others, split further wherever a comparison, floor or exponent field changes), where every value is a rational
function of t with exact rational coefficients. Pieces with the same function (up to the exact reduction
identities ln(2^e t) = e ln 2 + ln t, exp(k L + t) = 2^k exp(t) e^(k (L - ln 2)), sin(k P + t) = +-sin(t + k(P - pi)))
form a group; for each group z3 decides over the reals that the rational function stays within the stated error of
an enclosure of the exact function (Taylor polynomial with remainder bound on subintervals)."""
import json, math, os, random, re, subprocess, sys, time
from fractions import Fraction as F
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import mpmath
import scenario
from prove import Explored

mpmath.mp.prec = 300
LN2D, PIH, PIL = F(math.log(2)), F(math.pi), F(1.2246467991473532e-16)


class Open(Exception):
    pass


class Split(Exception):
    def __init__(self, points):
        self.points = points


def frac(m):
    """an mpmath number as a fraction (exact)"""
    m = mpmath.mpf(m)
    s, man, e, _ = m._mpf_
    v = F(int(man)) * (F(2) ** e)
    return -v if s else v


# ---- parsing
CONST = re.compile(r'^(v\d+) = (f64const|iconst\.i64) (\S+)')
INST = re.compile(r'^(v\d+) = ([a-z_0-9]+)(?:\.(\w+))? (.*)$')


def fconst(s):
    if 'NaN' in s:
        return math.nan
    if 'Inf' in s:
        return -math.inf if s.startswith('-') else math.inf
    return float.fromhex(s) if '0x' in s else float(s)


def parse(text):
    args, insts, ret = None, {}, None
    for line in text.split('\n'):
        line = line.split(';')[0].strip()
        if not line:
            continue
        m = re.match(r'^block(\d+)\((.*)\):$', line)
        if m:
            if m.group(1) != '0':
                raise Open('more than one block')
            args = [a.split(':')[0].strip() for a in m.group(2).split(',')]
            continue
        if line.startswith('return '):
            ret = line[7:].strip()
            continue
        m = INST.match(line)
        if m:
            insts[m.group(1)] = (m.group(2), m.group(3), [a.strip() for a in m.group(4).split(',')])
    if args is None or ret is None or len(args) != 1:
        raise Open('the shape of the code')
    return args[0], insts, ret


# ---- rational functions: polynomials are tuples of fractions, lowest first
def padd(a, b):
    n = max(len(a), len(b))
    r = [(a[i] if i < len(a) else F(0)) + (b[i] if i < len(b) else F(0)) for i in range(n)]
    while len(r) > 1 and r[-1] == 0:
        r.pop()
    return tuple(r)


def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    while len(r) > 1 and r[-1] == 0:
        r.pop()
    return tuple(r)


def pscale(a, c):
    return tuple(x * c for x in a) if c else (F(0),)


def peval(a, t):
    v = F(0)
    for c in reversed(a):
        v = v * t + c
    return v


ONE = (F(1),)


class Rat:
    __slots__ = ('n', 'd', 'id')
    pool = {}

    def __new__(cls, n, d=ONE):
        if len(d) == 1 and d[0] != 1:
            if d[0] == 0:
                raise Open('division by zero')
            n, d = pscale(n, 1 / d[0]), ONE
        key = (n, d)
        r = cls.pool.get(key)
        if r is None:
            r = object.__new__(cls)
            r.n, r.d, r.id = n, d, len(cls.pool)
            cls.pool[key] = r
        return r

    def const(self):
        return self.n[0] if len(self.n) == 1 and self.d == ONE else None

    def affine(self):
        if self.d == ONE and len(self.n) <= 2:
            return self.n[0], (self.n[1] if len(self.n) == 2 else F(0))
        return None


CACHE = {}


def rat(op, a, b):
    key = (op, a.id, b.id)
    r = CACHE.get(key)
    if r is None:
        if op == '+':
            r = Rat(padd(a.n, b.n), a.d) if a.d == b.d else Rat(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d))
        elif op == '-':
            m = pscale(b.n, F(-1))
            r = Rat(padd(a.n, m), a.d) if a.d == b.d else Rat(padd(pmul(a.n, b.d), pmul(m, a.d)), pmul(a.d, b.d))
        elif op == '*':
            r = Rat(pmul(a.n, b.n), pmul(a.d, b.d))
        else:
            r = Rat(pmul(a.n, b.d), pmul(a.d, b.n))
        CACHE[key] = r
    return r


def const(c):
    return Rat((F(c),))


class Int:
    """an integer-valued affine function of t (const when b = 0)"""
    def __init__(self, a, b=F(0)):
        self.a, self.b = F(a), F(b)


class Piece:
    """x = c + b t for t in the open interval (lo, hi)"""
    def __init__(self, c, b, lo, hi, k):
        self.c, self.b, self.lo, self.hi, self.k = c, b, lo, hi, k


class Eval:
    def __init__(self, code, piece):
        self.x, self.insts, self.ret = code
        self.p = piece
        self.vals = {}

    def run(self):
        return self.v(self.ret)

    def rng(self, a, b):
        u, v = a + b * self.p.lo, a + b * self.p.hi
        return (u, v) if u <= v else (v, u)

    def cut(self, a, b, values):
        """split where a + b t takes one of the values"""
        pts = sorted({t for t in ((F(v) - a) / b for v in values) if self.p.lo < t < self.p.hi})
        if not pts:
            raise Open('split')
        raise Split(pts)

    def bounds(self, r):
        """an enclosure of a rational function over the piece"""
        af = r.affine()
        if af:
            return self.rng(*af)
        lo, hi = self.p.lo, self.p.hi
        m, h = (lo + hi) / 2, (hi - lo) / 2
        def box(p):
            c, q = peval(p, m), list(p)
            # Taylor shift to the midpoint
            for i in range(len(q)):
                for j in range(len(q) - 2, i - 1, -1):
                    q[j] += m * q[j + 1]
            e = sum((abs(x) * h ** i for i, x in enumerate(q) if i), F(0))
            return c - e, c + e
        n, d = box(r.n), box(r.d)
        if d[0] <= 0 <= d[1]:
            raise Open('a denominator may vanish')
        q = [x / y for x in n for y in d]
        return min(q), max(q)

    def whole(self, r):
        """the bits of a double as an integer"""
        if isinstance(r, float):
            import struct
            return Int(struct.unpack('<q', struct.pack('<d', r))[0])
        c = r.const()
        if c is not None and c == 0:
            return Int(0)
        af = r.affine()
        if not af:
            raise Open('the bits of a computed value')
        a, b = af
        u, v = self.rng(a, b)
        if u < 0 < v:
            self.cut(a, b, [0])
        neg = v <= 0
        if neg:
            a, b, u, v = -a, -b, -v, -u
        e = math.frexp(float(v))[1] - 1 if v < F(2) ** 1024 else 1024
        while F(2) ** e >= v and u < F(2) ** e:
            e -= 1
        while F(2) ** (e + 1) < v or (u == v and F(2) ** (e + 1) <= v):
            e += 1
        e = max(e, -1022)
        if u < F(2) ** e and e > -1022:
            f = max(math.frexp(float(u))[1] - 1 if u > 0 else -1080, -1080)
            self.cut(a, b, [F(2) ** i for i in range(max(f - 1, -1022), e + 2)])
        s = F(2) ** 52
        if u < F(2) ** e:           # subnormal
            if v > F(2) ** -1022:
                self.cut(a, b, [F(2) ** -1022])
            q = Int(a * F(2) ** 1074, b * F(2) ** 1074)
        else:
            q = Int((e + 1023) * s + (a / F(2) ** e - 1) * s, b / F(2) ** e * s)
        return Int(q.a - 2 ** 63, q.b) if neg else q

    def low(self, i):
        """(high part, shift n): i = high * 2^n + low bits over the whole piece, as an unsigned number"""
        a, b = i.a, i.b
        u, v = self.rng(a, b)
        if v < 0 or (u < 0 and v <= 0):
            a, u, v = a + 2 ** 64, u + 2 ** 64, v + 2 ** 64
        if u < 0:
            raise Open('the sign of an integer')
        if b == 0:
            return int(a), 0, Int(0)
        for n in range(1, 65):
            h = math.floor(u / 2 ** n)
            if v <= (h + 1) * 2 ** n:
                return h, n, Int(a - h * 2 ** n, b)
        raise Open('integer bits')

    @staticmethod
    def signed(v):
        return v - 2 ** 64 if v >= 2 ** 63 else v

    def bits(self, op, i, j):
        if i.b != 0 and j.b != 0:
            raise Open('bit operation on two variables')
        if i.b == 0:
            i, j = j, i
        h, n, lo = self.low(i)
        m = int(j.a) % 2 ** 64
        mh, ml = m >> n, m & (2 ** n - 1)
        if op == 'band':
            keep = ml == 2 ** n - 1
            if not keep and ml != 0:
                raise Open('a mask inside varying bits')
            h &= mh
        elif op == 'bor':
            keep = ml == 0
            if not keep:
                raise Open('a mask inside varying bits')
            h |= mh
        else:
            keep = ml == 0
            if not keep:
                raise Open('a mask inside varying bits')
            h ^= mh
        top = self.signed(h * 2 ** n)
        return Int(top + (lo.a if keep else 0), lo.b if keep else 0)

    def shift(self, op, i, s):
        s %= 64
        if op == 'ishl':
            u, v = self.rng(i.a, i.b)
            if abs(u) * 2 ** s >= 2 ** 63 or abs(v) * 2 ** s >= 2 ** 63:
                if i.b == 0:
                    return Int(self.signed((int(i.a) << s) % 2 ** 64))
                raise Open('a shift that overflows')
            return Int(i.a * 2 ** s, i.b * 2 ** s)
        if op == 'sshr':
            if i.b == 0:
                return Int(int(i.a) >> s)
            u, v = self.rng(i.a, i.b)
            h = math.floor(u / 2 ** s)
            if v <= (h + 1) * 2 ** s:
                return Int(h)
            raise Open('a shift of varying bits')
        h, n, lo = self.low(i)
        if s >= n:
            return Int((h << n) >> s)
        raise Open('a shift of varying bits')

    def real(self, i):
        """the double with these bits"""
        if i.b == 0:
            import struct
            v = struct.unpack('<d', struct.pack('<q', int(i.a)))[0]
            return const(v) if math.isfinite(v) and not (v == 0) else (const(0) if v == 0 else v)
        h, n, lo = self.low(i)
        if n > 52:
            raise Open('the exponent of a double varies')
        whole = h * 2 ** n
        neg, e, m = whole >> 63, (whole >> 52) & 0x7FF, whole & (2 ** 52 - 1)
        if e == 2047:
            raise Open('a not-a-number pattern')
        s = F(2) ** (max(e, 1) - 1023 - 52) * (-1 if neg else 1)
        base = F(m + (2 ** 52 if e else 0))
        return Rat((s * (base + lo.a), s * lo.b)) if lo.b else const(s * (base + lo.a))

    def cmp(self, op, a, b):
        if isinstance(a, float) or isinstance(b, float):
            if (isinstance(a, float) and math.isnan(a)) or (isinstance(b, float) and math.isnan(b)):
                return op in ('ne', 'uno', 'ult', 'ule', 'ugt', 'uge', 'ueq')
            lo = (a, a) if isinstance(a, float) else (0.0, 0.0)
            hi = (b, b) if isinstance(b, float) else (0.0, 0.0)
            s = (lo[0] > hi[0]) - (lo[0] < hi[0])
            lt, gt, eq = s < 0, s > 0, s == 0
        else:
            d = rat('-', a, b)
            c = d.const()
            if c is not None:
                lt, gt, eq = c < 0, c > 0, c == 0
            else:
                u, v = self.bounds(d)
                if u >= 0 or v <= 0:        # the piece is open
                    lt, gt, eq = v <= 0, u >= 0, False
                else:
                    af = d.affine()
                    if af:
                        self.cut(af[0], af[1], [0])
                    raise Open('an undecided comparison')
        if op in ('ord', 'uno'):
            return op == 'ord'
        op = op[1:] if op[0] == 'u' else op
        return {'lt': lt, 'le': lt or eq, 'gt': gt, 'ge': gt or eq, 'eq': eq, 'ne': not eq, 'one': not eq}[op]

    def icmp(self, op, i, j):
        a, b = i.a - j.a, i.b - j.b
        u, v = self.rng(a, b)
        if b == 0:
            lt, gt, eq = a < 0, a > 0, a == 0
        elif u >= 0 or v <= 0:
            lt, gt, eq = v <= 0, u >= 0, False
        else:
            self.cut(a, b, [0])
        if op[0] == 'u' and (self.rng(i.a, i.b)[0] < 0 or self.rng(j.a, j.b)[0] < 0):
            raise Open('an unsigned comparison')
        o = op[1:] if op[0] in 'us' else op
        return {'lt': lt, 'le': lt or eq, 'gt': gt, 'ge': gt or eq, 'eq': eq, 'ne': not eq}[o]

    def arith(self, op, a, b):
        if isinstance(a, float) or isinstance(b, float):
            raise Open('arithmetic on an infinity')
        if op == '/':
            c = b.const()
            if c == 0:
                raise Open('division by zero')
            if c is None:
                u, v = self.bounds(b)
                if u <= 0 <= v and b.affine():
                    raise Open('division by zero inside a piece')
        return rat(op, a, b)

    def v(self, n):
        if n not in self.vals:
            self.vals[n] = self.eval(n)
        return self.vals[n]

    def i(self, n):
        """an integer operand: a value or an immediate"""
        return self.v(n) if n.startswith('v') else Int(int(n, 0))

    def eval(self, n):
        if n == self.x:
            p = self.p
            return Rat((p.c, p.b)) if p.b else const(p.c)
        op, ty, a = self.insts[n]
        if op == 'f64const':
            c = fconst(a[0])
            return const(c) if math.isfinite(c) else c
        if op == 'iconst':
            return Int(self.signed(int(a[0].replace('_', ''), 0) % 2 ** 64))
        if op == 'select':
            return self.v(a[1]) if self.v(a[0]) else self.v(a[2])
        if op == 'fcmp':
            o, l = a[0].split(' ', 1)
            return self.cmp(o, self.v(l.strip()), self.v(a[1]))
        if op == 'icmp':
            o, l = a[0].split(' ', 1)
            return self.icmp({'eq': 'eq', 'ne': 'ne'}.get(o, o), self.i(l.strip()), self.i(a[1]))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return self.arith({'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op], self.v(a[0]), self.v(a[1]))
        if op == 'fma':
            return self.arith('+', self.arith('*', self.v(a[0]), self.v(a[1])), self.v(a[2]))
        if op == 'fneg':
            x = self.v(a[0])
            return -x if isinstance(x, float) else rat('-', const(0), x)
        if op == 'fabs':
            x = self.v(a[0])
            return abs(x) if isinstance(x, float) else (x if self.cmp('ge', x, const(0)) else rat('-', const(0), x))
        if op in ('fmax', 'fmin'):
            x, y = self.v(a[0]), self.v(a[1])
            if any(isinstance(z, float) and math.isnan(z) for z in (x, y)):
                return math.nan
            return x if self.cmp('ge' if op == 'fmax' else 'le', x, y) else y
        if op in ('floor', 'nearest', 'ceil', 'trunc'):
            x = self.v(a[0])
            if isinstance(x, float):
                return x
            c = x.const()
            if c is not None:
                return const({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'nearest': round}[op](c))
            u, v = self.bounds(x)
            sh = F(1, 2) if op == 'nearest' else F(0)
            if op == 'trunc':
                op = 'ceil' if v <= 0 else 'floor'
                if u < 0 < v:
                    op = 'both'
            k = math.floor(u + sh)
            if v + sh <= k + 1 and op != 'both':
                return const(k + 1 if op == 'ceil' else k)
            af = x.affine()
            if not af:
                raise Open('rounding of a computed value')
            if v - u > 20000:
                raise Open('too many pieces')
            self.cut(af[0], af[1], [i - sh for i in range(math.floor(u + sh), math.ceil(v + sh) + 1)])
        if op == 'bitcast':
            return self.whole(self.v(a[-1].split()[-1])) if ty == 'i64' else self.real(self.v(a[-1].split()[-1]))
        if op in ('band', 'bor', 'bxor', 'band_imm', 'bor_imm', 'bxor_imm'):
            return self.bits(op.split('_')[0], self.i(a[0]), self.i(a[1]))
        if op in ('iadd', 'isub', 'imul', 'iadd_imm', 'imul_imm', 'irsub_imm'):
            i, j = self.i(a[0]), self.i(a[1])
            if op.startswith('iadd'):
                return Int(i.a + j.a, i.b + j.b)
            if op == 'isub':
                return Int(i.a - j.a, i.b - j.b)
            if op == 'irsub_imm':
                return Int(j.a - i.a, j.b - i.b)
            if i.b and j.b:
                raise Open('an integer product')
            return Int(i.a * j.a, i.a * j.b + i.b * j.a)
        if op in ('ishl', 'ushr', 'sshr', 'ishl_imm', 'ushr_imm', 'sshr_imm'):
            j = self.i(a[1])
            if j.b:
                raise Open('a varying shift')
            return self.shift(op.split('_')[0], self.i(a[0]), int(j.a))
        if op in ('fcvt_to_sint_sat', 'fcvt_to_sint'):
            c = self.v(a[0])
            c = c.const() if not isinstance(c, float) else None
            if c is None:
                raise Open('the conversion of a varying value')
            return Int(math.trunc(c))
        if op in ('fcvt_from_sint', 'fcvt_from_uint'):
            i = self.v(a[0])
            return Rat((i.a, i.b)) if i.b else const(i.a)
        raise Open('instruction ' + op)


def concrete(code, x):
    """the value at one double, in double arithmetic"""
    import struct
    xn, insts, ret = code
    memo = {xn: x}
    f2i = lambda v: struct.unpack('<q', struct.pack('<d', v))[0]
    i2f = lambda v: struct.unpack('<d', struct.pack('<q', Eval.signed(v % 2 ** 64)))[0]

    def div(a, b):
        if b != 0:
            return a / b
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)

    def mul(a, b):
        return a * b

    def go(n):
        if not n.startswith('v'):
            return int(n, 0)
        if n in memo:
            return memo[n]
        op, ty, a = insts[n]
        o = op.split('_')[0]
        if op == 'f64const':
            r = fconst(a[0])
        elif op == 'iconst':
            r = Eval.signed(int(a[0].replace('_', ''), 0) % 2 ** 64)
        elif op == 'select':
            r = go(a[1]) if go(a[0]) else go(a[2])
        elif op in ('fcmp', 'icmp'):
            c, l = a[0].split(' ', 1)
            u, v = go(l.strip()), go(a[1])
            un = op == 'fcmp' and (u != u or v != v)
            if op == 'icmp' and c[0] == 'u':
                u, v = u % 2 ** 64, v % 2 ** 64
            if c in ('ord', 'uno'):
                r = un == (c == 'uno')
            elif un:
                r = c == 'ne' or c[0] == 'u'
            else:
                k = c[1:] if c[0] in 'us' else c
                r = {'lt': u < v, 'le': u <= v, 'gt': u > v, 'ge': u >= v, 'eq': u == v, 'ne': u != v, 'one': u != v}[k]
        elif op == 'fadd':
            r = go(a[0]) + go(a[1])
        elif op == 'fsub':
            r = go(a[0]) - go(a[1])
        elif op == 'fmul':
            r = mul(go(a[0]), go(a[1]))
        elif op == 'fdiv':
            r = div(go(a[0]), go(a[1]))
        elif op == 'fneg':
            r = -go(a[0])
        elif op == 'fabs':
            r = abs(go(a[0]))
        elif op in ('fmax', 'fmin'):
            u, v = go(a[0]), go(a[1])
            r = math.nan if u != u or v != v else (max(u, v) if op == 'fmax' else min(u, v))
        elif op in ('floor', 'nearest', 'ceil', 'trunc'):
            u = go(a[0])
            r = u if not math.isfinite(u) else float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'nearest': round}[op](u))
        elif op == 'bitcast':
            u = go(a[-1].split()[-1])
            r = f2i(u) if ty == 'i64' else i2f(u)
        elif o in ('band', 'bor', 'bxor', 'iadd', 'isub', 'imul', 'irsub', 'ishl', 'ushr', 'sshr'):
            u, v = go(a[0]), go(a[1])
            w = v % 64
            r = Eval.signed({'band': u & v, 'bor': u | v, 'bxor': u ^ v, 'iadd': u + v, 'isub': u - v, 'imul': u * v, 'irsub': v - u,
                             'ishl': u << w, 'ushr': (u % 2 ** 64) >> w, 'sshr': u >> w}[o] % 2 ** 64)
        elif op in ('fcvt_to_sint_sat', 'fcvt_to_sint'):
            u = go(a[0])
            r = 0 if u != u else max(-2 ** 63, min(2 ** 63 - 1, int(u))) if math.isfinite(u) else (2 ** 63 - 1 if u > 0 else -2 ** 63)
        elif op == 'fcvt_from_sint':
            r = float(go(a[0]))
        else:
            raise Open('instruction ' + op)
        memo[n] = r
        return r
    return go(ret)


# ---- the exact functions
class Ln:
    tol = F(1, 10 ** 11)
    slack = F(1, 10 ** 13)      # 1100 * |LN2 as a double - ln 2|

    def pieces(self, tier):
        for e in range(-1074, 1024):
            yield Piece(F(0), F(2) ** e, F(1), F(2), e)

    def normal(self, r, k):
        return rat('-', r, const(k * LN2D))
    fn = staticmethod(mpmath.log)

    def taylor(self, m, h, n):
        """coefficients at m and a bound of the remainder on [m-h, m+h]"""
        c = [mpmath.log(m)] + [mpmath.mpf((-1) ** (j + 1)) / j / mpmath.mpf(m) ** j for j in range(1, n)]
        q = mpmath.mpf(h) / (m - h)
        return c, q ** n / n * 2
    special = [(0.0, -math.inf), (-0.0, -math.inf), (math.inf, math.inf), (-math.inf, math.nan), (math.nan, math.nan), (-1.0, math.nan), (-5e-324, math.nan), (1.0, 0.0)]


class Exp:
    tol = F(5, 10 ** 12)
    slack = F(1, 10 ** 13)
    relative = True

    def pieces(self, tier):
        lo, hi = F(-708), F(709)
        for k in range(math.floor(lo / LN2D), math.floor(hi / LN2D) + 1):
            yield Piece(k * LN2D, F(1), max(F(0), lo - k * LN2D), min(LN2D, hi - k * LN2D), k)

    def normal(self, r, k):
        return rat('*', r, const(F(2) ** -k))
    fn = staticmethod(mpmath.exp)

    def taylor(self, m, h, n):
        e = mpmath.exp(m)
        c = [e / mpmath.factorial(j) for j in range(n)]
        return c, mpmath.exp(m + h) * mpmath.mpf(h) ** n / mpmath.factorial(n)
    special = [(1000.0, math.inf), (math.inf, math.inf), (-1000.0, 0.0), (-math.inf, 0.0), (math.nan, math.nan), (0.0, 1.0), (-0.0, 1.0)]


class Sin:
    tol = F(1, 10 ** 11)
    slack = F(1, 10 ** 13)
    fn = staticmethod(mpmath.sin)
    at = 0

    def pieces(self, tier):
        lim = F(1000 if tier == 'quick' else 10000)
        P = PIH + PIL
        for k in range(math.floor(-lim / P - F(1, 2)), math.ceil(lim / P + F(1, 2)) + 1):
            a, b = max(-P / 2, -lim - k * P), min(P / 2, lim - k * P)
            if a < b:
                yield Piece(k * P, F(1), a, b, k)

    def normal(self, r, k):
        return r if k % 2 == 0 else rat('-', const(0), r)

    def taylor(self, m, h, n):
        d = [mpmath.sin(m), mpmath.cos(m), -mpmath.sin(m), -mpmath.cos(m)]
        c = [d[(j + self.at) % 4] / mpmath.factorial(j) for j in range(n)]
        return c, mpmath.mpf(h) ** n / mpmath.factorial(n)
    special = [(math.nan, math.nan), (0.0, 0.0), (-0.0, 0.0), (math.inf, math.nan), (-math.inf, math.nan)]


class Cos(Sin):
    fn = staticmethod(mpmath.cos)
    at = 1
    special = [(math.nan, math.nan), (0.0, 1.0), (-0.0, 1.0), (math.inf, math.nan), (-math.inf, math.nan)]


FUNCS = {'ln': Ln(), 'exp': Exp(), 'sin': Sin(), 'cos': Cos()}


def handles(name):
    return name.startswith('C24.accuracy_')


def zpoly(p, t):
    e = z3.RealVal(0)
    for c in reversed(p):
        e = e * t + z3.RealVal(str(c))
    return e


def shift(p, m):
    """p(m + u) as a polynomial in u"""
    q = list(p)
    for i in range(len(q)):
        for j in range(len(q) - 2, i - 1, -1):
            q[j] += m * q[j + 1]
    return tuple(q)


def point(s, u):
    v = s.model().eval(u, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return F(v.numerator_as_long(), v.denominator_as_long())


def worst(s, u, fn, N, D, T, err, cond, st):
    """a point where the tolerance is exceeded by as large a factor as the solver finds, so that it fails in doubles too"""
    best = point(s, u)
    for factor in (F(101, 100), F(11, 10), F(3, 2), 2, 4, 16, 256, 2 ** 16, 2 ** 32):
        up, dn = (pscale(T, 1 + factor * fn.tol), pscale(T, 1 - factor * fn.tol)) if getattr(fn, 'relative', False) else \
            (padd(T, (factor * fn.tol,)), padd(T, (-factor * fn.tol,)))
        d = zpoly(D, u)
        s.push()
        s.add(z3.Or(d <= 0, zpoly(padd(N, pscale(pmul(up, D), F(-1))), u) > 0, zpoly(padd(N, pscale(pmul(dn, D), F(-1))), u) < 0))
        s.set('timeout', 5000)
        w = s.check()
        st['queries'] += 1
        if w == z3.sat:
            best = point(s, u)
        s.pop()
        if w != z3.sat:
            break
    return best


def group_query(fn, r, lo, hi, st, timeout):
    """sup |r - f| over [lo, hi]: returns None when within the tolerance, else a point t, else raises Open"""
    cuts = max(1, math.ceil(float((hi - lo) * 8)))
    for i in range(cuts):
        a, b = lo + (hi - lo) * i / cuts, lo + (hi - lo) * (i + 1) / cuts
        m, h = (a + b) / 2, (b - a) / 2
        # a centre with a short denominator
        mm = F(round(m * 2 ** 40), 2 ** 40)
        h = max(b - mm, mm - a)
        n = 18
        c, rem = fn.taylor(mpmath.mpf(mm.numerator) / mm.denominator, mpmath.mpf(h.numerator) / h.denominator, n)
        T = tuple(frac(mpmath.mpf(x)) for x in c)
        T = tuple(F(round(x * 2 ** 100), 2 ** 100) for x in T)
        err = frac(rem) + sum(h ** j for j in range(n)) / 2 ** 100
        if err > fn.tol / 100:
            raise Open('a wide enclosure')
        tol = fn.tol - err - fn.slack
        N, D = shift(r.n, mm), shift(r.d, mm)
        u = z3.Real('u')
        if getattr(fn, 'relative', False):
            up = pscale(T, 1 + tol)
            dn = pscale(T, 1 - tol)
            up, dn = padd(up, (-2 * err,)), padd(dn, (2 * err,))
        else:
            up, dn = padd(T, (tol,)), padd(T, (-tol,))
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(u >= z3.RealVal(str(a - mm)), u <= z3.RealVal(str(b - mm)))
        d = zpoly(D, u)
        for cond in (d <= 0, zpoly(padd(N, pscale(pmul(up, D), F(-1))), u) > 0, zpoly(padd(N, pscale(pmul(dn, D), F(-1))), u) < 0):
            if z3.is_true(z3.simplify(cond)) or z3.is_false(z3.simplify(cond)):
                if z3.is_true(z3.simplify(cond)):
                    return mm
                continue
            s.push()
            s.add(cond)
            t0 = time.time()
            w = s.check()
            st['queries'] += 1
            st['solver_s'] += time.time() - t0
            if w == z3.sat:
                return mm + worst(s, u, fn, N, D, T, err, cond, st)
            if w != z3.unsat:
                raise Open('the solver gave up')
            s.pop()
    return None


def run(arg):
    name, binaries, seed, tier, max_paths, tmp, findings = arg
    t0 = time.time()
    rng = random.Random(f'{seed}/{name}')
    fn = FUNCS[name.split('_')[-1]]
    lab, slab = 'within the stated error', 'special arguments'
    st = {'queries': 0, 'solver_s': 0.0, 'opaque': 0}
    res = {'scenario': name, 'paths': 0, 'forks': 0, 'infeasible': 0, 'claims': 0, 'proved': {}, 'open': [], 'violations': [], 'known': [],
           'errors': [], 'validated': 0, 'labels': {lab: {'n': 0, 'witness': 0}, slab: {'n': 1, 'witness': 0}}, 'samples': [], 'stats': st, 'texts': []}
    out = os.path.join(tmp, name + '.json')
    r = subprocess.run([binaries['symbolic'], 'explore', name, '10'], env=dict(os.environ, VSYM_OUT=out), capture_output=True, text=True, timeout=120)
    if r.returncode != 0:
        res['errors'].append('exploration ended with %s: %s' % (r.returncode, r.stderr[-400:]))
        return res
    text = None
    for l in open(out):
        for k, v in (json.loads(l).get('texts') or []):
            if k == 'clif':
                text = v
    os.unlink(out)
    deadline = t0 + (120 if tier == 'quick' else 1500)
    bad = []          # arguments the solver claims to fail
    opens = []
    groups = {}
    n = 0
    code = None
    try:
        if text is None:
            raise Open('no code was captured')
        code = parse(text)
        work = list(fn.pieces(tier))
        while work:
            p = work.pop()
            n += 1
            if n > 60000 or time.time() > deadline:
                raise Open('too many pieces')
            try:
                v = Eval(code, p).run()
            except Split as s:
                b = [p.lo] + s.points + [p.hi]
                work += [Piece(p.c, p.b, u, w, p.k) for u, w in zip(b, b[1:])]
                continue
            if isinstance(v, float):
                bad.append(p.c + p.b * (p.lo + p.hi) / 2)
                continue
            q = fn.normal(v, p.k)
            g = groups.setdefault(q.id, [q, p.lo, p.hi, [], 0])
            g[1], g[2], g[4] = min(g[1], p.lo), max(g[2], p.hi), g[4] + 1
            g[3].append(p)
        res['paths'], res['forks'] = n, len(groups)
        if len(groups) > 400:
            raise Open(f'{len(groups)} different functions')
        for q, lo, hi, ps, cnt in groups.values():
            if time.time() > deadline:
                raise Open('time limit')
            res['claims'] += 1
            res['labels'][lab]['n'] += 1
            t = group_query(fn, q, lo, hi, st, 20000)
            if t is None:
                res['proved']['solver0'] = res['proved'].get('solver0', 0) + 1
            else:
                ps = sorted((p for p in ps if p.lo <= t <= p.hi), key=lambda p: abs(p.k)) or ps
                bad += [p.c + p.b * min(max(t, p.lo), p.hi) for p in ps[:3] + ps[-1:]]
    except Open as e:
        opens.append((lab, str(e)))
        res['claims'] += 1
    except RecursionError:
        opens.append((lab, 'the code is too deep'))
        res['claims'] += 1
    # the special arguments, evaluated one by one
    res['claims'] += 1
    special_bad = False
    try:
        for x, want in fn.special:
            y = concrete(code, x) if code else math.nan
            if not (y == want or (y != y and want != want) or (math.isfinite(want) and abs(y - want) <= 1e-11)):
                special_bad = True
        if not code:
            raise Open('no code')
        if not special_bad:
            res['proved']['evaluation'] = res['proved'].get('evaluation', 0) + 1
    except (Open, OverflowError, KeyError) as e:
        opens.append((slab, str(e)))
    if special_bad:
        opens.append((slab, 'a special argument'))
    # native runs: the solver's points, then samples
    xs = []
    for x in bad:
        f = float(x)
        xs += [f, math.nextafter(f, math.inf), math.nextafter(f, -math.inf)] + [f * (1 + rng.uniform(-1e-3, 1e-3)) for _ in range(20)]
    for p in rng.sample(list(fn.pieces('quick')), 200):
        xs += [float(p.c + p.b * p.lo), float(p.c + p.b * (p.lo + (p.hi - p.lo) * F(rng.random())))]
    lim = {'ln': (5e-324, 1.7e308), 'exp': (-708.0, 709.0)}.get(name.split('_')[-1], (-1e4, 1e4))
    xs = [x for x in xs if lim[0] <= x <= lim[1]]
    fails = {}
    for x, rp in zip(xs, scenario.native(binaries['native'], name, [{'x': x} for x in xs])):
        if rp['status'] in ('panic', 'crash'):
            fails.setdefault('no panic', []).append(({'x': x}, rp['msg']))
        ok = rp['status'] == 'ok'
        for c in rp['claims']:
            if c['label'] in res['labels']:
                res['labels'][c['label']]['witness'] += 1
            if not c['ok']:
                ok = False
                fails.setdefault(c['label'], []).append(({'x': x}, f"{c['a']} against {c['b']} {c['detail']}"))
        res['validated'] += ok
    if bad:
        opens.append((lab, 'a model'))
    for l, why in opens:
        if l not in fails:
            res['open'].append({'label': l, 'why': why, 'path': []})
    for l, reps in fails.items():
        env, detail = reps[0]
        rec = {'scenario': name, 'label': l, 'inputs': env, 'line': scenario.encode(env), 'detail': detail, 'solver': True, 'cases': len(reps)}
        if (name, l) in findings:
            res['known'].append(dict(rec, what=findings[(name, l)]))
        elif any(o[0] == l for o in opens) or l == 'no panic':
            res['violations'].append(rec)
        else:
            st.setdefault('rounding', []).append(rec)
    res['samples'].append({'scenario': name, 'inputs': {'pieces': n, 'functions': len(groups)}, 'claims': [lab]})
    res['wall_s'] = round(time.time() - t0, 2)
    return res


if __name__ == '__main__':
    b = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.build')
    for nm in sys.argv[1:]:
        print(json.dumps(run((nm, {'native': b + '/native-base', 'symbolic': b + '/symbolic-base'}, 1, os.environ.get('TIER', 'quick'), 10, '/tmp', {})), indent=1, default=str))
