"""Exact algebra on the terms the symbolic executor recorded.

An element is num/den: num is a generalised polynomial (rational exponents allowed
on positive atoms), den a product of polynomials.  Atoms are inputs, and ln|f|, exp(m),
lgamma(f), |f|, f^q, sin, ... of elements, with the laws
    ln(f g) = ln|f| + ln|g|     exp(a+b) = exp(a) exp(b)     exp(q ln f) = f^q
    lgamma(f+1) = lgamma(f) + ln f      sqrt(f^2) = |f|
applied when the element is built.  Signs that the laws need are asked of the
solver (`sign`)."""
from fractions import Fraction as Fr
import math, struct

import sympy

HALF = Fr(1, 2)


class TooBig(Exception):
    pass


def norm(q):
    if isinstance(q, Fr) and q.denominator == 1:
        return int(q)
    return q


# ---------------------------------------------------------------- constants

def _tab():
    import mpmath
    mpmath.mp.prec = 200
    pi, ln2 = mpmath.pi, mpmath.ln2
    t = []
    # (value, {symbol: exponent} product form) or a sum form
    def prod(**k):
        v = mpmath.mpf(1)
        for a, e in k.items():
            v *= mpmath.mpf({'pi': pi, 'two': 2, 'three': 3, 'e': mpmath.e, 'ln2': ln2, 'ln10': mpmath.log(10)}[a]) ** (
                mpmath.mpf(Fr(e).numerator) / Fr(e).denominator)
        return v
    for k in [dict(pi=1), dict(pi=HALF), dict(pi=-1), dict(pi=-HALF), dict(two=HALF), dict(two=-HALF),
              dict(two=HALF, pi=HALF), dict(two=-HALF, pi=-HALF), dict(two=-HALF, pi=HALF), dict(two=HALF, pi=-HALF), dict(three=HALF),
              dict(e=1), dict(e=-1), dict(ln2=1), dict(ln2=-1), dict(ln10=1), dict(ln10=-1), dict(pi=2)]:
        t.append((prod(**k), ('prod', k)))
    t.append((mpmath.log(pi), ('lnpi', None)))
    t.append((mpmath.log(2 * pi), ('ln2pi', None)))
    t.append((mpmath.log(3), ('lnp', 3)))
    t.append((mpmath.log(5), ('lnp', 5)))
    t.append((mpmath.log(7), ('lnp', 7)))
    t.append((mpmath.log(mpmath.sqrt(2 * pi)), ('ln2pi_half', None)))
    return t


_TAB = None


def snap(x):
    """A double as an exact number: the rational or the known constant it stands for."""
    global _TAB
    ex = Fr(x)
    if ex.denominator <= 1 << 20 and abs(ex.numerator) < 1 << 53:
        return ('q', ex)
    r = repr(x)
    mant = r.split('e')[0].replace('-', '').replace('.', '').strip('0')
    if len(mant) <= 12:
        return ('q', Fr(r))
    tol = Fr(1, 1 << 51)
    for d in (100, 1000):
        c = ex.limit_denominator(d)
        if c != 0 and abs(c - ex) <= abs(ex) * tol / 4:
            return ('q', c)
    if _TAB is None:
        _TAB = _tab()
    for v, form in _TAB:
        q = float(x / v)
        c = Fr(q).limit_denominator(64)
        if c != 0 and abs(c.numerator) <= 4096:
            import mpmath
            if abs(x / v - mpmath.mpf(c.numerator) / c.denominator) <= abs(q) * 4.5e-16:
                return ('form', form, c)
    return ('q', ex)


class Algebra:
    def __init__(self, sign=None, intsign=None):
        self.atoms = []          # payload tuples
        self.index = {}
        self.polys = []          # interned irreducible polynomials (tuples of items)
        self.polyindex = {}
        self.sign_query = sign   # poly items -> +1/-1/None
        self.cache_factor = {}
        self.touched = False
        self.squares = {}        # atom -> its known square

    # ---- atoms
    def atom(self, *payload):
        i = self.index.get(payload)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(payload)
            self.index[payload] = i
        return i

    def poly_id(self, p):
        key = tuple(sorted(p.items()))
        i = self.polyindex.get(key)
        if i is None:
            i = len(self.polys)
            self.polys.append(dict(p))
            self.polyindex[key] = i
        return i

    # ---- elements
    def const(self, q):
        q = norm(Fr(q))
        return ({(): q} if q != 0 else {}, ())

    def var(self, a, e=1):
        return ({((a, e),): 1}, ())

    def from_double(self, x):
        s = snap(x)
        if s[0] == 'q':
            return self.const(s[1])
        _, (form, k), c = s
        if form == 'prod':
            el = self.const(c)
            for n, e in k.items():
                e = norm(Fr(e))
                if n == 'pi':
                    el = self.mul(el, self.var(self.atom('pi'), e))
                elif n == 'two':
                    el = self.mul(el, self.numpow(2, e))
                elif n == 'three':
                    el = self.mul(el, self.numpow(3, e))
                elif n == 'e':
                    el = self.mul(el, self.var(self.atom('E', (), ()), e))
                elif n == 'ln2':
                    el = self.mul(el, self.var(self.atom('lnp', 2), e))
                else:
                    l = self.add(self.var(self.atom('lnp', 2)), self.var(self.atom('lnp', 5)))
                    el = self.mul(el, self.powint(l, int(e)))
            return el
        lnpi = self.var(self.atom('lnpi'))
        if form == 'lnpi':
            return self.scale(lnpi, c)
        if form == 'lnp':
            return self.scale(self.var(self.atom('lnp', k)), c)
        s = self.add(lnpi, self.var(self.atom('lnp', 2)))
        if form == 'ln2pi_half':
            s = self.scale(s, HALF)
        return self.scale(s, c)

    def numpow(self, p, q):
        """p^q, p prime, q rational"""
        q = Fr(q)
        k = q.numerator // q.denominator
        r = q - k
        el = self.const(Fr(p) ** k)
        if r:
            el = self.mul(el, self.var(self.atom('num', p), norm(r)))
        return el

    def scale(self, a, c):
        if c == 0:
            return ({}, ())
        return ({m: norm(Fr(v) * c) for m, v in a[0].items()}, a[1])

    def neg(self, a):
        return ({m: -v for m, v in a[0].items()}, a[1])

    def is_const(self, a):
        """the rational value, or None"""
        if not a[0]:
            return Fr(0)
        if a[1] == () and len(a[0]) == 1 and () in a[0]:
            return Fr(a[0][()])
        return None

    @staticmethod
    def padd(p, q, c=1):
        r = dict(p)
        for m, v in q.items():
            n = r.get(m, 0) + c * v
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = norm(n) if isinstance(n, Fr) else n
        return r

    @staticmethod
    def mmul(m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            n = d.get(a, 0) + e
            if n == 0:
                d.pop(a, None)
            else:
                d[a] = norm(n)
        return tuple(sorted(d.items()))

    def special(self, m):
        """does this monomial need reducing?"""
        for a, e in m:
            k = self.atoms[a][0]
            if a in self.squares and (e >= 2 or e < 0):
                return True
            if k == 'num' and (e >= 1 or e < 0):
                return True
            if k == 'P' and (e >= 1 or e < 0):
                return True
            if k == 'abs' and (e >= 2 or e < 0):
                return True
        return False

    def reduce_mono(self, m, c):
        """element for c*m, with the exponents of special atoms brought into range"""
        el = ({(): c}, ())
        keep = []
        for a, e in m:
            k = self.atoms[a][0]
            if a in self.squares:
                n = (Fr(e) / 2).__floor__()
                el = self.scale(el, self.squares[a] ** n)
                if e - 2 * n:
                    keep.append((a, norm(Fr(e) - 2 * n)))
            elif k == 'num':
                n = Fr(e).numerator // Fr(e).denominator
                r = Fr(e) - n
                el = self.scale(el, Fr(self.atoms[a][1]) ** n)
                if r:
                    keep.append((a, norm(r)))
            elif k in ('P', 'abs'):
                step = 1 if k == 'P' else 2
                n = step * (Fr(e) / step).__floor__()
                r = Fr(e) - n
                if r:
                    keep.append((a, norm(r)))
                if n:
                    el = self.mul(el, self.powint((self.polys[self.atoms[a][1]], ()), n))
            else:
                keep.append((a, e))
        return self.mul(el, ({tuple(keep): 1}, ()))

    def pmul(self, p, q):
        """product of polynomials, as an element"""
        if len(p) * len(q) > 40000:
            raise TooBig()
        r = {}
        extra = None
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mmul(m1, m2)
                if m and self.special(m):
                    e = self.reduce_mono(m, c1 * c2)
                    extra = e if extra is None else self.add(extra, e)
                    continue
                n = r.get(m, 0) + c1 * c2
                if n == 0:
                    r.pop(m, None)
                else:
                    r[m] = norm(n) if isinstance(n, Fr) else n
        el = (r, ())
        if extra is not None:
            el = self.add(el, extra)
        return el

    def ppow(self, p, n):
        el = self.const(1)
        b = (p, ())
        while n:
            if n & 1:
                el = self.mul(el, b)
            n >>= 1
            if n:
                b = self.mul(b, b)
        return el

    def denpoly(self, den):
        el = self.const(1)
        for pid, e in den:
            for _ in range(e):
                el = self.mul(el, (self.polys[pid], ()))
        return el

    def add(self, a, b):
        if not a[0]:
            return b
        if not b[0]:
            return a
        if a[1] == b[1]:
            return self.reduce((self.padd(a[0], b[0]), a[1]))
        da, db = dict(a[1]), dict(b[1])
        l = dict(da)
        for k, e in db.items():
            l[k] = max(l.get(k, 0), e)
        ma = tuple((k, e - da.get(k, 0)) for k, e in l.items() if e > da.get(k, 0))
        mb = tuple((k, e - db.get(k, 0)) for k, e in l.items() if e > db.get(k, 0))
        na = self.mul((a[0], ()), self.denpoly(ma))
        nb = self.mul((b[0], ()), self.denpoly(mb))
        assert na[1] == () and nb[1] == ()
        return self.reduce((self.padd(na[0], nb[0]), tuple(sorted(l.items()))))

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if not a[0] or not b[0]:
            return ({}, ())
        n = self.pmul(a[0], b[0])
        d = dict(a[1])
        for k, e in b[1]:
            d[k] = d.get(k, 0) + e
        if n[1]:
            for k, e in n[1]:
                d[k] = d.get(k, 0) + e
        return self.reduce((n[0], tuple(sorted(d.items()))))

    def reduce(self, a):
        num, den = a
        if not num:
            return ({}, ())
        if not den:
            return a
        out = []
        for pid, e in den:
            p = self.polys[pid]
            while e > 0 and len(num) >= 2 or (e > 0 and len(num) == 1 and len(p) == 1):
                q = self.divide(num, p)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                out.append((pid, e))
        return (num, tuple(out))

    def divide(self, num, p):
        """exact quotient of generalised polynomials, or None"""
        if len(num) > 400:
            return None
        atoms = sorted({a for m in p for a, _ in m})
        def key(m):
            d = dict(m)
            return tuple(d.get(a, 0) for a in allatoms), m
        allatoms = sorted({a for m in p for a, _ in m} | {a for m in num for a, _ in m})
        lp = max(p, key=key)
        lc = p[lp]
        inv = tuple((a, -e) for a, e in lp)
        r = dict(num)
        q = {}
        for _ in range(4 * len(num) + 8):
            if not r:
                return q
            m = max(r, key=key)
            c = Fr(r[m]) / lc
            t = self.mmul(m, inv)
            # a quotient monomial of special atoms is not handled here
            if t and self.special(t):
                return None
            q[t] = norm(c)
            for m2, c2 in p.items():
                mm = self.mmul(t, m2)
                if mm and self.special(mm):
                    return None
                n = r.get(mm, 0) - c * c2
                if n == 0:
                    r.pop(mm, None)
                else:
                    r[mm] = norm(Fr(n))
            if len(q) > len(num) + 2:
                return None
        return None

    # ---- factoring
    def factor(self, num):
        """num -> (rational coefficient, monomial, [(poly id, exponent)])"""
        key = tuple(sorted(num.items()))
        if key in self.cache_factor:
            return self.cache_factor[key]
        # monomial content
        atoms = sorted({a for m in num for a, _ in m})
        cont = []
        for a in atoms:
            e = min(dict(m).get(a, 0) for m in num)
            if e != 0:
                cont.append((a, e))
        inv = tuple((a, -e) for a, e in cont)
        p = {self.mmul(m, inv): c for m, c in num.items()}
        mono = tuple(cont)
        if len(p) == 1:
            res = (Fr(p[()]), mono, [])
            self.cache_factor[key] = res
            return res
        # rational content, sign
        fr = [Fr(c) for c in p.values()]
        g = 0
        l = 1
        for f in fr:
            g = math.gcd(g, f.numerator)
            l = l * f.denominator // math.gcd(l, f.denominator)
        coef = Fr(g, l)
        lead = max(p)
        if p[lead] < 0:
            coef = -coef
        p = {m: norm(Fr(c) / coef) for m, c in p.items()}
        atoms = sorted({a for m in p for a, _ in m})
        scale = {}
        ok = len(p) <= 40 and max(abs(c) for c in p.values()) < 10 ** 12
        for a in atoms:
            s = 1
            for m in p:
                e = Fr(dict(m).get(a, 0))
                s = s * e.denominator // math.gcd(s, e.denominator)
            scale[a] = s
            if max(abs(dict(m).get(a, 0)) for m in p) * s > 12:
                ok = False
        facs = [(p, 1)]
        if ok:
            gens = [sympy.Symbol('g%d' % a) for a in atoms]
            d = {tuple(int(dict(m).get(a, 0) * scale[a]) for a in atoms): int(c) for m, c in p.items()}
            P = sympy.Poly.from_dict(d, *gens, domain=sympy.ZZ)
            c0, fl = P.factor_list()
            facs = []
            for f, e in fl:
                q = {}
                for mm, c in f.as_dict().items():
                    m = tuple((a, norm(Fr(k, scale[a]))) for a, k in zip(atoms, mm) if k)
                    q[m] = int(c)
                if q[max(q)] < 0:
                    q = {m: -c for m, c in q.items()}
                    if e % 2:
                        c0 = -c0
                facs.append((q, e))
            coef *= Fr(int(c0))
        out = []
        for q, e in facs:
            if len(q) == 1:
                (m, c), = q.items()
                mono = self.mmul(mono, tuple((a, x * e) for a, x in m))
                coef *= Fr(c) ** e
            else:
                out.append((self.poly_id(q), e))
        res = (coef, mono, sorted(out))
        self.cache_factor[key] = res
        return res

    def inv(self, a):
        coef, mono, fs = self.factor(a[0])
        el = ({tuple((x, -e) for x, e in mono): norm(1 / coef)}, ())
        if self.special(tuple((x, -e) for x, e in mono)):
            el = self.reduce_mono(tuple((x, -e) for x, e in mono), norm(1 / coef))
        d = {}
        for k, e in fs:
            d[k] = d.get(k, 0) + e
        el = self.mul(el, ({(): 1}, tuple(sorted(d.items()))))
        return self.mul(el, self.denpoly(a[1]))

    def div(self, a, b):
        if not b[0]:
            raise ZeroDivisionError
        return self.mul(a, self.inv(b))

    def powint(self, a, n):
        n = int(n)
        if n < 0:
            return self.powint(self.inv(a), -n)
        if n > 64:
            raise TooBig()
        el = self.const(1)
        b = a
        while n:
            if n & 1:
                el = self.mul(el, b)
            n >>= 1
            if n:
                b = self.mul(b, b)
        return el

    # ---- signs
    def sign(self, p):
        """sign of a polynomial on the current path: 1, -1 or None"""
        if len(p) == 1:
            (m, c), = p.items()
            s = 1 if c > 0 else -1
            ok = True
            for a, e in m:
                if Fr(e).denominator != 1 or self.positive(a):
                    continue
                if e % 2 == 0:
                    continue
                ok = False
                break
            if ok:
                return s
        self.touched = True
        return self.sign_query(p) if self.sign_query else None

    def positive(self, a):
        return self.atoms[a][0] in ('pi', 'num', 'E', 'lnp', 'lnpi', 'P', 'abs')

    def abspow(self, p, e):
        """|p|^e for an irreducible polynomial (or single atom) p"""
        e = Fr(e)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if self.positive(a) or (e.denominator == 1 and e % 2 == 0):
                    return self.fix({((a, norm(e)),): 1})
                s = self.sign(p)
                if s == 1:
                    return self.fix({((a, norm(e)),): 1})
                if s == -1 and e.denominator == 1:
                    return ({((a, norm(e)),): -1}, ())
                return self.fix({((self.atom('abs', self.poly_id(p)), norm(e)),): 1})
        if e.denominator == 1 and e % 2 == 0:
            return self.powint((p, ()), int(e))
        s = self.sign(p)
        if s is not None:
            if e.denominator == 1:
                r = self.powint((p, ()), int(e))
                return r if s == 1 else self.neg(r)
            q = p if s == 1 else {m: -c for m, c in p.items()}
            return self.fix({((self.atom('P', self.poly_id(q)), norm(e)),): 1})
        return self.fix({((self.atom('abs', self.poly_id(p)), norm(e)),): 1})

    def fix(self, num):
        (m, c), = num.items()
        if self.special(m):
            return self.reduce_mono(m, c)
        return (num, ())

    def rational_pow(self, q, e):
        """|q|^e for a rational q"""
        q, e = abs(Fr(q)), Fr(e)
        if e.denominator == 1:
            return self.const(q ** int(e))
        if q.numerator > 10 ** 15 or q.denominator > 10 ** 15:
            return self.var(self.atom('qpow', q, e))
        el = self.const(1)
        for p, k in list(sympy.factorint(q.numerator).items()) + [(p, -k) for p, k in sympy.factorint(q.denominator).items()]:
            el = self.mul(el, self.numpow(int(p), e * int(k)))
        return el

    def abspower(self, a, e):
        """|a|^e, a an element, e rational"""
        coef, mono, fs = self.factor(a[0])
        el = self.rational_pow(coef, e)
        for x, k in mono:
            el = self.mul(el, self.abspow({((x, 1),): 1}, Fr(k) * e))
        for pid, k in list(fs) + [(p, -k) for p, k in a[1]]:
            el = self.mul(el, self.abspow(self.polys[pid], Fr(k) * e))
        return el

    # ---- functions
    def ln(self, a):
        """ln|a|"""
        coef, mono, fs = self.factor(a[0])
        el = self.lnq(abs(coef))
        for x, k in mono:
            el = self.add(el, self.scale(self.lnatom(x), Fr(k)))
        for pid, k in list(fs) + [(p, -k) for p, k in a[1]]:
            el = self.add(el, self.scale(self.var(self.atom('L', pid)), Fr(k)))
        return el

    def lnatom(self, x):
        p = self.atoms[x]
        if p[0] == 'E':
            return ({p[1]: 1}, p[2])
        if p[0] == 'pi':
            return self.var(self.atom('lnpi'))
        if p[0] == 'num':
            return self.var(self.atom('lnp', p[1]))
        if p[0] in ('P', 'abs'):
            q = self.polys[p[1]]
            if len(q) == 1:
                return self.var(self.atom('L', p[1]))
            coef, mono, fs = self.factor(q)
            return self.ln((q, ()))
        return self.var(self.atom('L', self.poly_id({((x, 1),): 1})))

    def lnq(self, q):
        q = Fr(q)
        if q.numerator > 10 ** 15 or q.denominator > 10 ** 15:
            return self.var(self.atom('lnq', q))
        el = self.const(0)
        for p, k in list(sympy.factorint(q.numerator).items()) + [(p, -k) for p, k in sympy.factorint(q.denominator).items()]:
            el = self.add(el, self.scale(self.var(self.atom('lnp', int(p))), Fr(int(k))))
        return el

    def exp(self, a):
        num, den = a
        el = self.const(1)
        for m, c in num.items():
            if den == () and len(m) == 1 and m[0][1] == 1 and abs(Fr(c)) < 40 and Fr(c).denominator <= 64:
                p = self.atoms[m[0][0]]
                if p[0] == 'L':
                    el = self.mul(el, self.abspow(self.polys[p[1]], Fr(c)))
                    continue
                if p[0] == 'lnp':
                    el = self.mul(el, self.numpow(p[1], Fr(c)))
                    continue
                if p[0] == 'lnpi':
                    el = self.mul(el, self.var(self.atom('pi'), norm(Fr(c))))
                    continue
                if p[0] == 'lnq':
                    el = self.mul(el, self.rational_pow(p[1], Fr(c)))
                    continue
            el = self.mul(el, self.var(self.atom('E', m, den), norm(Fr(c))))
        return el

    def pow(self, a, b):
        q = self.is_const(b)
        if q is not None:
            if q.denominator == 1 and abs(q) <= 64:
                return self.powint(a, int(q))
            if q.denominator <= 64 and abs(q) <= 64:
                return self.abspower(a, q)
        return self.exp(self.mul(b, self.ln(a)))

    def lgamma(self, a):
        q = self.is_const(a)
        if q is not None:
            if q.denominator == 1 and 1 <= q <= 200:
                return self.lnq(math.factorial(int(q) - 1))
            if q.denominator == 2 and 0 < q <= 100:
                # Gamma(n+1/2) = (2n)!/(4^n n!) sqrt(pi)
                n = int(q - HALF)
                r = Fr(math.factorial(2 * n), 4 ** n * math.factorial(n))
                return self.add(self.lnq(r), self.scale(self.var(self.atom('lnpi')), HALF))
        extra = self.const(0)
        if not a[1]:
            c = Fr(a[0].get((), 0))
            for _ in range(40):
                c = Fr(a[0].get((), 0)) if a[0] else Fr(0)
                if c >= 2:
                    lower = self.sub(a, self.const(1))
                    if self.sign(lower[0]) != 1:
                        break
                    extra = self.add(extra, self.ln(lower))
                    a = lower
                elif c < 1:
                    if self.sign(a[0]) != 1:
                        break
                    extra = self.sub(extra, self.ln(a))
                    a = self.add(a, self.const(1))
                else:
                    break
        key = (tuple(sorted(a[0].items())), a[1])
        return self.add(extra, self.var(self.atom('lg', key)))

    def absval(self, a):
        return self.abspower(a, 1) if a[0] else a

    def opaque(self, op, args):
        """an uninterpreted function; odd and even functions in a normal sign"""
        neg = False
        if op in ('sin', 'cos', 'tan', 'atan', 'asin') and args[0][0]:
            p = args[0][0]
            if p[max(p)] < 0:
                args = [self.neg(args[0])]
                neg = op != 'cos'
        if op in ('sin', 'tan', 'atan', 'asin') and not args[0][0]:
            return self.const(0)
        if op == 'cos' and not args[0][0]:
            return self.const(1)
        key = tuple((tuple(sorted(a[0].items())), a[1]) for a in args)
        v = self.var(self.atom('f', op, key))
        return self.neg(v) if neg else v

    # ---- numeric evaluation (for validation)
    def eval_atom(self, a, env, memo):
        if a in memo:
            return memo[a]
        p = self.atoms[a]
        k = p[0]
        if k in ('sym', 'isym'):
            v = env[p[1]]
        elif k == 'pi':
            v = math.pi
        elif k == 'num':
            v = float(p[1])
        elif k == 'lnp':
            v = math.log(p[1])
        elif k == 'lnpi':
            v = math.log(math.pi)
        elif k == 'lnq':
            q = Fr(p[1])
            v = math.log(q.numerator) - math.log(q.denominator)
        elif k == 'qpow':
            v = float(p[1]) ** float(p[2])
        elif k == 'L':
            v = math.log(abs(self.eval((self.polys[p[1]], ()), env, memo)))
        elif k == 'E':
            v = math.exp(self.eval(({p[1]: 1}, p[2]), env, memo))
        elif k == 'P':
            v = self.eval((self.polys[p[1]], ()), env, memo)
        elif k == 'abs':
            v = abs(self.eval((self.polys[p[1]], ()), env, memo))
        elif k == 'lg':
            v = math.lgamma(self.eval((dict(p[1][0]), p[1][1]), env, memo))
        elif k == 'f':
            xs = [self.eval((dict(n), d), env, memo) for n, d in p[2]]
            v = FUN[p[1]](*xs)
        else:
            raise KeyError(k)
        memo[a] = v
        return v

    def eval(self, el, env, memo=None):
        memo = {} if memo is None else memo
        s = []
        for m, c in el[0].items():
            v = float(c)
            for a, e in m:
                v *= self.eval_atom(a, env, memo) ** (e if isinstance(e, int) else float(e))
            s.append(v)
        v = math.fsum(s)
        for pid, e in el[1]:
            v /= self.eval((self.polys[pid], ()), env, memo) ** e
        return v

    def show(self, el, names=None):
        def mono(m):
            return '*'.join((self.show_atom(a) + ('' if e == 1 else f'^{e}')) for a, e in m) or '1'
        n = ' + '.join(f'{c}*{mono(m)}' for m, c in el[0].items()) or '0'
        d = '*'.join(f'({self.show((self.polys[p], ()))})^{e}' for p, e in el[1])
        return n + (f' / {d}' if d else '')

    def show_atom(self, a):
        p = self.atoms[a]
        if p[0] in ('sym', 'isym'):
            return p[1]
        if p[0] in ('L', 'P', 'abs'):
            return f'{p[0]}({self.show((self.polys[p[1]], ()))})'
        if p[0] == 'E':
            return f'E({self.show(({p[1]: 1}, p[2]))})'
        if p[0] == 'lg':
            return f'lgamma({self.show((dict(p[1][0]), p[1][1]))})'
        if p[0] == 'f':
            return p[1] + '(' + ','.join(self.show((dict(n), d)) for n, d in p[2]) + ')'
        return str(p)


def _round_half_away(x):
    return math.copysign(math.floor(abs(x) + 0.5), x)


FUN = {
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan,
    'floor': lambda x: float(math.floor(x)), 'ceil': lambda x: float(math.ceil(x)), 'trunc': lambda x: float(math.trunc(x)),
    'round': _round_half_away, 'roundeven': lambda x: float(round(x)), 'atan2': math.atan2, 'rem': math.fmod,
    'idiv': lambda a, b: a // b, 'imod': lambda a, b: a % b, 'tgamma': math.gamma,
}
