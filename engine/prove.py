"""Decide the claims of one explored scenario with z3."""
from fractions import Fraction as Fr
import json, math, random, struct, threading, time

import z3

from canon import Algebra, TooBig, FUN, norm

INF = float('inf')
Q_TIMEOUT = 20000      # ms, one claim query
S_TIMEOUT = 1500       # ms, one sign query
HARD = 30              # s, when a query is interrupted from outside


def bits2f(h):
    return struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0]


def f2bits(x):
    return '0x%016x' % struct.unpack('<Q', struct.pack('<d', x))[0]


def AND(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(x):
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


class Explored:
    def __init__(self, path):
        self.nodes, self.paths, self.end = [], [], None
        for line in open(path):
            d = json.loads(line)
            if 'n' in d:
                if d['conc'] is not None:
                    d['conc'] = bits2f(d['conc'])
                self.nodes.append(d)
            elif 'path' in d:
                self.paths.append(d)
            else:
                self.end = d
        if self.end is None:
            raise RuntimeError('exploration did not finish')


# ------------------------------------------------------------------ float evaluation

def _pow(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return INF if a > 0 or b % 2 == 0 else -INF
    except ValueError:
        if a == 0 and b < 0:
            return INF
        return math.nan


def _un(f):
    def g(a):
        try:
            return f(a)
        except OverflowError:
            return INF
        except ValueError:
            return math.nan
    return g


def _ln(a):
    if a != a or a < 0:
        return math.nan
    if a == 0:
        return -INF
    return math.log(a)


def _exp(a):
    try:
        return math.exp(a)
    except OverflowError:
        return INF


def _div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(INF, a) * math.copysign(1, b)
    return a / b


FE = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': _div,
    'rem': lambda a, b: math.nan if b == 0 or a in (INF, -INF) else math.fmod(a, b),
    'pow': _pow, 'powi': lambda a, b: _pow(a, b), 'atan2': math.atan2, 'hypot': math.hypot,
    'neg': lambda a: -a, 'abs': abs, 'sqrt': lambda a: math.sqrt(a) if a >= 0 else math.nan,
    'ln': _ln, 'exp': _exp, 'log10': lambda a: math.nan if not a >= 0 else (-INF if a == 0 else math.log10(a)),
    'log2': lambda a: math.nan if not a >= 0 else (-INF if a == 0 else math.log2(a)),
    'exp2': lambda a: _pow(2.0, a), 'ln1p': _un(math.log1p), 'expm1': _un(math.expm1),
    'sin': _un(math.sin), 'cos': _un(math.cos), 'tan': _un(math.tan), 'asin': _un(math.asin), 'acos': _un(math.acos), 'atan': _un(math.atan),
    'sinh': _un(math.sinh), 'cosh': _un(math.cosh), 'tanh': _un(math.tanh), 'cbrt': lambda a: math.copysign(abs(a) ** (1 / 3), a),
    'floor': lambda a: float(math.floor(a)) if math.isfinite(a) else a, 'ceil': lambda a: float(math.ceil(a)) if math.isfinite(a) else a,
    'trunc': lambda a: float(math.trunc(a)) if math.isfinite(a) else a,
    'round': lambda a: math.copysign(math.floor(abs(a) + 0.5), a) if math.isfinite(a) else a,
    'roundeven': lambda a: float(round(a)) if math.isfinite(a) else a,
    'lgamma': lambda a: math.nan if a != a else (INF if a == 0 or a == INF else _un(math.lgamma)(a)), 'tgamma': _un(math.gamma),
    'u2f': lambda i: float(i), 'f2u': lambda a: int(a),
    'iadd': lambda a, b: a + b, 'isub': lambda a, b: a - b, 'imul': lambda a, b: a * b,
    'iwrapadd': lambda a, b: (a + b) % 2 ** 64, 'iwrapsub': lambda a, b: (a - b) % 2 ** 64, 'iwrapmul': lambda a, b: (a * b) % 2 ** 64,
    'idiv': lambda a, b: a // b, 'imod': lambda a, b: a % b,
}


class FloatEval:
    def __init__(self, nodes, env):
        self.nodes, self.env, self.memo = nodes, env, {}

    def __call__(self, i):
        st = [i]
        memo, nodes = self.memo, self.nodes
        while st:
            k = st[-1]
            if k in memo:
                st.pop()
                continue
            n = nodes[k]
            op = n['op']
            if op in ('sym', 'isym', 'any'):
                memo[k] = self.env[n['name']]
            elif op == 'const':
                memo[k] = bits2f(n['bits'])
            elif op == 'iconst':
                memo[k] = int(n['name'])
            else:
                todo = [a for a in n['args'] if a not in memo]
                if todo:
                    st.extend(todo)
                    continue
                memo[k] = FE[op](*[memo[a] for a in n['args']])
            st.pop()
        return memo[i]

    def cond(self, c):
        kind, pred, a, b, taken = c
        x, y = self(a), self(b)
        t = x < y if pred == 'lt' else x <= y if pred == 'le' else x == y
        return t == taken


# ------------------------------------------------------------------ one path

CONSTS = ('pi', 'num', 'lnp', 'lnpi', 'lnq', 'qpow')


class Path:
    def __init__(self, ex, path, stats):
        self.nodes, self.path, self.stats = ex.nodes, path, stats
        self.al = Algebra(sign=self.sign_of)
        self.zv, self.zr = {}, {}
        self.solver = z3.Solver()
        self.solver.set('timeout', S_TIMEOUT)
        self.memo, self.cmemo = {}, {}
        self.signs = {}
        self.subst = {}
        self.roots = {}
        self.alias = {}
        self.strict = {}
        self.late = {}
        self.bnd = {}
        self.pbounds = {}
        self.lemmas_done = set()
        self.pcs = []
        self.at = 0
        self.names = {}
        for c in path['conds']:
            kind, pred, a, b, taken = c
            if pred == 'eq' and taken and a != b:
                for s, k in ((a, b), (b, a)):
                    v = self.constval(k)
                    if v is None or v != v or v in (INF, -INF):
                        continue
                    if self.nodes[s]['op'] in ('sym', 'isym'):
                        self.subst[s] = v
                    else:
                        x, p, q = self.linear(s)
                        if x is not None and x not in self.subst:
                            self.subst[x] = (Fr(v) - q) / p
            if kind == 'd' or kind == 'e':
                if self.nodes[b]['op'] in ('sym', 'isym') and self.constval(a) is not None:
                    self.bnd.setdefault(b, [-INF, INF])[0] = self.constval(a)
                elif self.nodes[a]['op'] in ('sym', 'isym') and self.constval(b) is not None:
                    self.bnd.setdefault(a, [-INF, INF])[1] = self.constval(b)
            elif kind in 'fi':
                # refine the interval of an input compared with a constant
                for s, k, flip in ((a, b, False), (b, a, True)):
                    if self.nodes[s]['op'] not in ('sym', 'isym'):
                        continue
                    v = self.constval(k)
                    if v is None or v != v:
                        continue
                    bd = self.bnd.setdefault(s, [-INF, INF])
                    up = (taken != flip)
                    whole = self.nodes[s]['op'] == 'isym'
                    if pred == 'eq':
                        if taken:
                            bd[0], bd[1] = max(bd[0], v), min(bd[1], v)
                        elif whole:
                            if bd[0] == v:
                                bd[0] = v + 1
                            elif bd[1] == v:
                                bd[1] = v - 1
                        continue
                    # s < k taken, or k < s not taken, bound s from above; strictly in the first case
                    strict = whole and taken == (pred == 'lt')
                    if up:
                        bd[1] = min(bd[1], v - 1 if strict else v)
                    else:
                        bd[0] = max(bd[0], v + 1 if strict else v)
        for s, (lo, hi) in self.bnd.items():
            if self.nodes[s]['op'] == 'isym' and lo == hi:
                self.subst[s] = int(lo)
        for kind, pred, a, b, taken in path['conds']:
            if pred == 'eq' and taken:
                for s, k in ((a, b), (b, a)):
                    v, n = self.constval(k), self.nodes[s]
                    if v == 0 and n['op'] == 'ln' and self.nodes[n['args'][0]]['op'] == 'sym':
                        self.subst[n['args'][0]] = 1.0
                    if v == 1 and n['op'] == 'exp' and self.nodes[n['args'][0]]['op'] == 'sym':
                        self.subst[n['args'][0]] = 0.0
                    if not isinstance(v, float) or v != v or v in (0, INF, -INF):
                        continue
                    if n['op'] == 'ln' and self.nodes[n['args'][0]]['op'] == 'sym' and abs(v) < 100:
                        self.roots[n['args'][0]] = Fr(v), None
                        continue
                    x, e, q = self.monomial(s)
                    n = self.nodes[x]
                    if e == 1 and n['op'] == 'mul':
                        c, d = sorted(n['args'])
                        if c != d and all(self.nodes[i]['op'] == 'sym' and i not in self.roots and i not in self.subst for i in (c, d)) \
                                and not any(sg == 'over' for _, sg in self.roots.values()):
                            self.roots[d] = (Fr(v) / q, c), 'over'
                        continue
                    if x is not None and e == 2 and v * q > 0 and self.nodes[x]['op'] == 'sym' and x not in self.subst:
                        lo, hi = self.bnd.get(x, (-INF, INF))
                        if lo >= 0 or hi <= 0:
                            self.roots[x] = Fr(v) / q, 1 if lo >= 0 else -1
                        else:
                            self.al.squares[self.al.atom('sym', self.nodes[x]['name'])] = Fr(v) / q
        # inputs the path makes equal (or opposite): one stands for the other
        for kind, pred, a, b, taken in path['conds']:
            if pred == 'eq' and taken and a != b:
                (x, p, q), (y, u, v) = self.linear(a), self.linear(b)
                if x is None or y is None or x == y or self.nodes[x]['op'] != self.nodes[y]['op']:
                    continue
                if x > y:
                    x, p, q, y, u, v = y, u, v, x, p, q
                if self.nodes[y]['op'] == 'isym' and p / u != 1:
                    continue
                if y not in self.subst:
                    self.alias[y] = (x, p / u, (q - v) / u)

    def linear(self, k):
        """(input node, scale, offset), scale not zero, if the node is a linear function of one input"""
        n = self.nodes[k]
        op, A = n['op'], n['args']
        if op in ('sym', 'isym'):
            if k in self.alias:
                r, p, q = self.alias[k]
                x, u, v = self.linear(r)
                return x, p * u, p * v + q
            return k, Fr(1), Fr(0)
        none = None, Fr(0), Fr(0)
        if op == 'neg':
            x, p, q = self.linear(A[0])
            return x, -p, -q
        if op in ('add', 'sub', 'mul', 'div'):
            for i in (0, 1):
                c = self.constval(A[1 - i])
                if c is None or c != c or c in (INF, -INF):
                    continue
                c = Fr(c)
                x, p, q = self.linear(A[i])
                if x is None:
                    return none
                if op == 'add':
                    return x, p, q + c
                if op == 'sub':
                    return (x, p, q - c) if i == 0 else (x, -p, c - q)
                if op == 'mul' and c:
                    return x, p * c, q * c
                if op == 'div' and i == 0 and c:
                    return x, p / c, q / c
        return none

    def monomial(self, k):
        """(node x, e, q) if the node is q x^e"""
        n = self.nodes[k]
        op, A = n['op'], n['args']
        if op == 'neg':
            x, e, q = self.monomial(A[0])
            return x, e, -q
        if op == 'pow' and self.constval(A[1]) == 2.0:
            x, e, q = self.monomial(A[0])
            return x, 2 * e, q * q
        if op == 'mul':
            for i in (0, 1):
                c = self.constval(A[1 - i])
                if isinstance(c, float) and c == c and c not in (0, INF, -INF):
                    x, e, q = self.monomial(A[i])
                    return x, e, q * Fr(c)
            (x, e, p), (y, f, q) = self.monomial(A[0]), self.monomial(A[1])
            if x == y:
                return x, e + f, p * q
        if op == 'div':
            c = self.constval(A[1])
            if isinstance(c, float) and c == c and c not in (0, INF, -INF):
                x, e, q = self.monomial(A[0])
                return x, e, q / Fr(c)
        return k, 1, Fr(1)

    def constval(self, k):
        n = self.nodes[k]
        if n['op'] == 'const':
            return bits2f(n['bits'])
        if n['op'] == 'iconst':
            return int(n['name'])
        return None

    # -------- z3 side of the algebra
    def zatom(self, a):
        v = self.zv.get(a)
        if v is None:
            p = self.al.atoms[a]
            nm = p[1] if p[0] in ('sym', 'isym') else f'{p[0]}{a}'
            v = z3.Real(nm)
            self.zv[a] = v
            self.basic_lemma(a, p, v)
        return v

    def root(self, a, q):
        r = self.zr.get((a, q))
        if r is None:
            v = self.zatom(a)
            r = z3.Real(f'r{a}_{q}')
            self.zr[(a, q)] = r
            self.solver.add(r >= 0, r ** q == v)
            if self.al.positive(a):
                self.solver.add(r > 0)
        return r

    def basic_lemma(self, a, p, v):
        k = p[0]
        s = self.solver
        if k == 'pi':
            s.add(v > z3.Q(31415926535, 10 ** 10), v < z3.Q(31415926536, 10 ** 10))
        elif k == 'num':
            s.add(v == p[1])
        elif k in ('lnp', 'lnpi', 'lnq', 'qpow'):
            x = self.al.eval_atom(a, {}, {})
            f = Fr(x)
            e = abs(f) * Fr(1, 10 ** 13) + Fr(1, 10 ** 18)
            s.add(v > z3.Q((f - e).numerator, (f - e).denominator), v < z3.Q((f + e).numerator, (f + e).denominator))
        elif k == 'E':
            s.add(v > 0)
        elif k == 'P':
            s.add(v > 0, v == self.zpoly(self.al.polys[p[1]]))
        elif k == 'abs':
            f = self.al.polys[p[1]]
            z = self.zpoly(f)
            s.add(v >= 0, z3.Or(v == z, v == -z))
        elif k == 'f':
            args = [(dict(n), d) for n, d in p[2]]
            if p[1] in ('sin', 'cos'):
                s.add(v >= -1, v <= 1)
                for b, w in list(self.zv.items()):
                    q = self.al.atoms[b]
                    if b != a and q[0] == 'f' and q[1] in ('sin', 'cos') and q[2] == p[2]:
                        s.add(v * v + w * w == 1)
            elif p[1] == 'floor' and not args[0][1]:
                z = self.zpoly(args[0][0])
                s.add(v <= z, z < v + 1)
            elif p[1] == 'ceil' and not args[0][1]:
                z = self.zpoly(args[0][0])
                s.add(v >= z, z > v - 1)
            elif p[1] == 'imod' or p[1] == 'idiv':
                pass

    def zmono(self, m):
        """(numerator factors, denominator factors) of a monomial"""
        n, d = [], []
        for a, e in m:
            e = Fr(e)
            v = self.zatom(a) if e.denominator == 1 else self.root(a, e.denominator)
            (n if e > 0 else d).extend([v] * abs(e.numerator))
        return n, d

    def clear(self, num):
        """multiply by a monomial so that no exponent is negative:
        returns (poly, [(atom, exponent)] multiplied in)"""
        low = {}
        for m in num:
            for a, e in m:
                if e < 0:
                    low[a] = min(low.get(a, 0), e)
        if not low:
            return num, []
        k = tuple(sorted((a, -e) for a, e in low.items()))
        return {Algebra.mmul(m, k): c for m, c in num.items()}, list(k)

    def zpoly(self, num):
        """z3 term for a polynomial without negative exponents"""
        num, k = self.clear(num)
        if k:
            # value = poly / mono: introduce the quotient
            q = z3.Real(f'q{len(self.zr)}')
            self.zr[('q', len(self.zr))] = q
            self.solver.add(q * self.zprod(k) == self.zpoly(num))
            return q
        ts = []
        for m, c in num.items():
            n, _ = self.zmono(m)
            c = Fr(c)
            t = z3.Q(c.numerator, c.denominator)
            for v in n:
                t = t * v
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def zprod(self, k):
        t = z3.RealVal(1)
        for a, e in k:
            e = Fr(e)
            v = self.zatom(a) if e.denominator == 1 else self.root(a, e.denominator)
            for _ in range(abs(e.numerator)):
                t = t * v
        return t

    def zsign(self, el):
        """a z3 term with the sign of the element"""
        num, k = self.clear(el[0])
        t = self.zpoly(num)
        for a, e in k:
            e = Fr(e)
            if e.denominator == 1 and e % 2 and not self.al.positive(a):
                t = t * self.zatom(a)
        for pid, e in el[1]:
            if e % 2:
                t = t * self.zpoly(self.al.polys[pid])
        return t

    def cmp(self, el, op):
        """formula el op 0"""
        q = self.al.is_const(el)
        if q is not None:
            return {'<': q < 0, '<=': q <= 0, '>': q > 0, '>=': q >= 0, '==': q == 0, '!=': q != 0}[op]
        lo, hi = self.interval(el)
        if lo > 0:
            return op in ('>', '>=', '!=')
        if hi < 0:
            return op in ('<', '<=', '!=')
        if lo == 0 and len(el[0]) == 1 and op in ('<', '>='):
            return op == '>='
        if self.strict and not el[1] and len(el[0]) <= 12:
            r = self.monic(el[0])
            q = self.strict.get(r[0])
            if q is not None:
                q = q * r[1]
                return {'<': q < 0, '<=': q < 0, '>': q > 0, '>=': q > 0, '==': False, '!=': True}[op]
        t = self.zsign(el)
        z = z3.RealVal(0)
        return {'<': t < z, '<=': t <= z, '>': t > z, '>=': t >= z, '==': t == z, '!=': t != z}[op]

    def sign_of(self, p):
        key = tuple(sorted(p.items()))
        if key in self.signs:
            return self.signs[key]
        iv = self.interval((p, ()))
        r = 1 if iv[0] > 0 else -1 if iv[1] < 0 else None
        if r is None:
            t = self.zsign((p, ()))
            for want, f in ((1, t <= 0), (-1, t >= 0)):
                self.solver.push()
                self.solver.add(f)
                c = self.check(self.solver)
                self.solver.pop()
                if c == z3.unsat:
                    r = want
                    break
        if r is not None or self.final:
            self.signs[key] = r
        return r

    def weak_sign(self, el):
        """1 if the path makes it nonnegative, -1 if nonpositive"""
        if not el[0]:
            return 1
        iv = self.interval(el)
        if iv[0] >= 0 or iv[1] <= 0:
            return 1 if iv[0] >= 0 else -1
        if el[1] or len(el[0]) > 4:
            return None
        t = self.zsign(el)
        for want, f in ((1, t < 0), (-1, t > 0)):
            self.solver.push()
            self.solver.add(f)
            c = self.check(self.solver)
            self.solver.pop()
            if c == z3.unsat:
                return want
        return None

    final = False

    def check(self, s):
        t = time.time()
        # some of z3's procedures do not look at its own time limit
        guard = threading.Timer(HARD, z3.main_ctx().interrupt)
        guard.daemon = True
        guard.start()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        guard.cancel()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        return r

    # -------- intervals (outward-rounded crudely: relative slack 1e-9)
    def interval(self, el, memo=None):
        """an enclosing interval; each end is widened relative to the terms it is the sum of"""
        lo = hi = ml = mh = 0.0
        for m, c in el[0].items():
            l = h = float(c)
            for a, e in m:
                l, h = self.ivmul((l, h), self.ivpow(self.ivatom(a), e))
            lo, hi = lo + l, hi + h
            ml, mh = ml + abs(l), mh + abs(h)
        rel = 1e-14 if not el[1] and all(self.al.atoms[a][0] in CONSTS for m in el[0] for a, _ in m) else 1e-11
        if lo != lo or hi != hi:
            lo, hi = -INF, INF
        iv = (lo - rel * ml if math.isfinite(ml) else lo, hi + rel * mh if math.isfinite(mh) else hi)
        if len(el[0]) > 1:
            g = self.grouped(el[0])
            if g is not None and max(iv[0], g[0]) <= min(iv[1], g[1]):
                iv = (max(iv[0], g[0]), min(iv[1], g[1]))
            g = self.content(el[0])
            if g is not None and max(iv[0], g[0]) <= min(iv[1], g[1]):
                iv = (max(iv[0], g[0]), min(iv[1], g[1]))
        iv = self.pathbound(el[0], iv)
        for pid, e in el[1]:
            iv = self.ivmul(iv, self.ivpow(self.interval((self.al.polys[pid], ())), -e))
        if iv[0] != iv[0] or iv[1] != iv[1]:
            return (-INF, INF)
        if el[1]:
            iv = (iv[0] - abs(iv[0]) * 1e-14 if math.isfinite(iv[0]) else iv[0], iv[1] + abs(iv[1]) * 1e-14 if math.isfinite(iv[1]) else iv[1])
        return iv

    def content(self, num):
        """interval with the common monomial taken out"""
        common = None
        for m in num:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: (min(e, d[a]) if e > 0 else max(e, d[a])) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0)}
            if not common:
                return None
        iv = (1.0, 1.0)
        for a, e in common.items():
            iv = self.ivmul(iv, self.ivpow(self.ivatom(a), e))
        rest = {}
        for m, c in num.items():
            k = tuple((a, norm(e - common.get(a, 0))) for a, e in m if e != common.get(a, 0))
            rest[k] = rest.get(k, 0) + c
        return self.ivmul(iv, self.interval((rest, ())))

    def grouped(self, num):
        """interval of sum Q_j exp(R_j), taken group by group"""
        gs = {}
        for m, c in num.items():
            k = tuple(x for x in m if self.al.atoms[x[0]][0] == 'E')
            gs.setdefault(k, {})[tuple(x for x in m if self.al.atoms[x[0]][0] != 'E')] = c
        if len(gs) == 1 and () in gs or len(gs) > 8:
            return None
        lo = hi = ml = mh = 0.0
        for k, q in gs.items():
            iv = self.interval((q, ()))
            if k:
                ex = self.ivcache.get(('exp', k))
                if ex is None:
                    t = self.al.const(0)
                    for x, e in k:
                        p = self.al.atoms[x]
                        t = self.al.add(t, self.al.scale(({p[1]: 1}, p[2]), Fr(e)))
                    l, h = self.interval(t)
                    ex = self.ivcache[('exp', k)] = (_exp(l), _exp(h))
                iv = self.ivmul(iv, (ex[0] * (1 - 1e-11), ex[1] * (1 + 1e-11)))
            lo, hi = lo + iv[0], hi + iv[1]
            ml, mh = ml + abs(iv[0]), mh + abs(iv[1])
        if lo != lo or hi != hi:
            return None
        return (lo - 1e-14 * ml if math.isfinite(ml) else lo, hi + 1e-14 * mh if math.isfinite(mh) else hi)

    @staticmethod
    def shape(num):
        """(key, s, c) with num = s * key + c"""
        c = num.get((), 0)
        items = sorted((m, q) for m, q in num.items() if m)
        if not items:
            return None, 1, c
        k = items[0][1]
        return tuple((m, Fr(q) / k) for m, q in items), k, c

    def pathbound(self, num, iv):
        """tighten the interval of a polynomial by what the path condition says of it"""
        if not self.pbounds or len(num) > 12:
            return iv
        key, k, c = self.shape(num)
        b = self.pbounds.get(key)
        if b is None:
            return iv
        l, h = float(k) * b[0] + float(c), float(k) * b[1] + float(c)
        if k < 0:
            l, h = h, l
        lo, hi = max(iv[0], l) if l == l else iv[0], min(iv[1], h) if h == h else iv[1]
        return (lo, hi) if lo <= hi else iv

    @staticmethod
    def monic(num):
        """(the polynomial up to a factor, the sign of the factor)"""
        it = sorted(num.items())
        c = it[0][1]
        return tuple((m, Fr(k) / Fr(c)) for m, k in it), (1 if c > 0 else -1)

    def entailed(self, f):
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(self.solver.assertions())
        s.add(NOT(f))
        return self.check(s) == z3.unsat

    def learn(self, c):
        kind, pred, a, b, taken = c
        x, fx = self.el(a)[:2]
        y, fy = self.el(b)[:2]
        for f in (fx, fy):
            if f is not True and (f is False or pred == 'eq' or not self.entailed(f)):
                return
        d = self.al.sub(x, y)
        if d[1] or len(d[0]) > 12 or not d[0]:
            return
        if pred == 'lt' and taken or pred == 'le' and not taken:
            r = self.monic(d[0])
            self.strict[r[0]] = r[1] if pred == 'le' else -r[1]
        key, k, q = self.shape(d[0])
        if key is None:
            return
        v = float(-Fr(q) / k)
        bd = self.pbounds.setdefault(key, [-INF, INF])
        if pred == 'eq':
            if taken:
                bd[0], bd[1] = max(bd[0], v), min(bd[1], v)
            return
        if taken == (k > 0):
            bd[1] = min(bd[1], v)
        else:
            bd[0] = max(bd[0], v)

    @staticmethod
    def ivmul(x, y):
        ps = []
        for a in x:
            for b in y:
                p = a * b
                ps.append(0.0 if p != p else p)
        return (min(ps), max(ps))

    @staticmethod
    def ivpow(x, e):
        lo, hi = x
        e = Fr(e)
        if e < 0:
            if lo > 0 or hi < 0:
                x = (1 / hi if hi else INF, 1 / lo if lo else INF)
                return Path.ivpow(x, -e)
            if lo == 0:
                return Path.ivpow((1 / hi if hi else INF, INF), -e)
            return (0.0 if e % 2 == 0 else -INF, INF)
        def pw(a):
            try:
                return a ** (int(e) if e.denominator == 1 else float(e))
            except OverflowError:
                return INF if a > 0 or e % 2 == 0 else -INF
        if e.denominator == 1 and e % 2 == 0:
            a, b = abs(lo), abs(hi)
            return ((0.0 if lo <= 0 <= hi else pw(min(a, b))), pw(max(a, b)))
        if e.denominator != 1:
            return (pw(max(lo, 0.0)), pw(max(hi, 0.0)))
        return (pw(lo), pw(hi))

    def ivatom(self, a):
        r = self.ivcache.get(a)
        if r is None:
            self.ivcache[a] = (-INF, INF)
            r = self._ivatom(a)
            self.ivcache[a] = r
        return r

    def _ivatom(self, a):
        p = self.al.atoms[a]
        k = p[0]
        if k in ('sym', 'isym'):
            b = self.bnd.get(self.names[p[1]], [-INF, INF])
            return (float(b[0]), float(b[1]))
        if k in ('pi', 'num', 'lnp', 'lnpi', 'lnq', 'qpow'):
            x = self.al.eval_atom(a, {}, {})
            return (x, x)
        if k == 'E':
            l, h = self.interval(({p[1]: 1}, p[2]))
            return (_exp(l), _exp(h))
        if k == 'L':
            l, h = self.interval((self.al.polys[p[1]], ()))
            if l > 0:
                return (_ln(l), _ln(h) if h < INF else INF)
            if h < 0:
                return (_ln(-h), _ln(-l) if l > -INF else INF)
            b = self.al.index.get(('abs', p[1]))
            if b is not None:
                al, ah = self.interval(({((b, 1),): 1}, ()))
                if al > 0:
                    return (_ln(al), _ln(ah) if ah < INF else INF)
            return (-INF, _ln(max(-l, h)) if max(-l, h) < INF else INF)
        if k == 'abs':
            l, h = self.interval((self.al.polys[p[1]], ()))
            if l >= 0:
                return (l, h)
            if h <= 0:
                return (-h, -l)
            return (0.0, max(-l, h))
        if k == 'P':
            l, h = self.interval((self.al.polys[p[1]], ()))
            return (max(l, 0.0), h)
        if k == 'lg':
            l, h = self.interval((dict(p[1][0]), p[1][1]))
            if l >= 2 and h < INF:
                return (math.lgamma(l), math.lgamma(h))
            if l > 0 and h < INF:
                return (-0.1215, max(math.lgamma(l), math.lgamma(h)))
            return (-0.1215, INF)
        if k == 'rem':
            return (0.0, 1 / (1260 * p[2] ** 5))
        if k == 'f' and p[1] in ('sin', 'cos'):
            return (-1.0, 1.0)
        if k == 'f' and p[1] in ('floor', 'ceil', 'round', 'roundeven', 'trunc'):
            l, h = self.interval((dict(p[2][0][0]), p[2][0][1]))
            return (l - 1, h + 1)
        if k == 'f' and p[1] == 'atan':
            return (-1.5708, 1.5708)
        return (-INF, INF)

    # -------- terms
    def el(self, i):
        """(element, fin, pinf, ninf) of a node"""
        memo = self.memo
        if i in memo:
            return memo[i]
        st = [i]
        while st:
            k = st[-1]
            if k in memo:
                st.pop()
                continue
            todo = [a for a in self.nodes[k]['args'] if a not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[k] = self.term(k)
            st.pop()
        return memo[i]

    def term(self, k):
        al = self.al
        n = self.nodes[k]
        op = n['op']
        if k in self.subst:
            v = self.subst[k]
            return (al.from_double(v) if isinstance(v, float) else al.const(v)), True, False, False
        if k in self.roots:
            v, sg = self.roots[k]
            if sg == 'over':
                r = self.el(v[1])
                return al.scale(al.inv(r[0]), v[0]), True, False, False
            if sg is None:
                return al.exp(al.const(v)), True, False, False
            return al.scale(al.rational_pow(v, Fr(1, 2)), sg), True, False, False
        if k in self.late:
            # y stands for an earlier node x, so this ends
            return self.el(self.late[k])
        if k in self.alias:
            r, p, q = self.alias[k]
            if r not in self.memo:
                self.memo[r] = self.term(r)
            e = self.memo[r][0]
            return al.add(al.scale(e, p), al.const(q)), True, False, False
        if op == 'sym' or op == 'isym':
            self.names[n['name']] = k
            return al.var(al.atom(op, n['name'])), True, False, False
        if op == 'const':
            x = bits2f(n['bits'])
            if x != x:
                return al.const(0), False, False, False
            if x in (INF, -INF):
                return al.const(0), False, x > 0, x < 0
            return al.from_double(x), True, False, False
        if op == 'iconst':
            return al.const(int(n['name'])), True, False, False
        A = [self.memo[a] for a in n['args']]
        a, fa, pa, na = A[0]
        Z = al.const(0)
        try:
            if len(A) == 1:
                simple = pa is False and na is False
                if op == 'neg':
                    return al.neg(a), fa, na, pa
                if op == 'abs':
                    w = self.weak_sign(a)
                    v = a if w == 1 else al.neg(a) if w == -1 else al.absval(a)
                    return v, fa, OR(pa, na), False
                if op in ('u2f', 'f2u'):
                    return a, fa, False, False
                if op == 'sqrt':
                    return al.abspower(a, Fr(1, 2)) if a[0] else Z, AND(fa, self.cmp(a, '>=')), pa, False
                if op in ('ln', 'log10', 'log2', 'ln1p'):
                    if op == 'ln1p':
                        a = al.add(a, al.const(1))
                    if not a[0]:
                        return Z, False, False, AND(fa)
                    small = al.sub(a, al.const(Fr(1, 10 ** 300)))
                    fin = AND(fa, self.ge_tiny(a))
                    ninf = AND(fa, self.cmp(a, '=='))
                    v = al.ln(a)
                    if op == 'log10':
                        v = al.div(v, al.add(al.var(al.atom('lnp', 2)), al.var(al.atom('lnp', 5))))
                    if op == 'log2':
                        v = al.div(v, al.var(al.atom('lnp', 2)))
                    return v, fin, pa, ninf
                if op in ('exp', 'expm1', 'exp2'):
                    if op == 'exp2':
                        a = al.mul(a, al.var(al.atom('lnp', 2)))
                    v = al.exp(a)
                    if op == 'expm1':
                        v = al.sub(v, al.const(1))
                    ok = AND(fa, self.le_const(a, 709))
                    big = AND(fa, NOT(self.le_const(a, 709))) if ok is not fa else False
                    if na is True or na is not False and self.implied(True, na):
                        return al.const(-1 if op == 'expm1' else 0), True, False, False
                    if na is not False:
                        # exp(-inf) = 0: usable when the closed form is 0 there too (exp(ln f) = f)
                        w = al.add(v, al.const(1)) if op == 'expm1' else v
                        if not self.implied(na, self.cmp(w, '==')):
                            raise NotImplementedError
                        ok = OR(ok, na)
                    return v, ok, pa, False
                if op in ('tanh', 'sinh', 'cosh'):
                    e, m = al.exp(a), al.exp(al.neg(a))
                    s, c = al.scale(al.sub(e, m), Fr(1, 2)), al.scale(al.add(e, m), Fr(1, 2))
                    v = s if op == 'sinh' else c if op == 'cosh' else al.div(s, c)
                    return v, AND(fa, self.le_const(al.absval(a), 700)), False, False
                if op == 'lgamma':
                    return al.lgamma(a), AND(fa, self.cmp(a, '>')), OR(pa, AND(fa, self.cmp(a, '=='))), False
                if op == 'tgamma':
                    return al.exp(al.lgamma(a)), AND(fa, self.cmp(a, '>'), self.le_const(a, 170)), False, False
                if op == 'cbrt':
                    return al.abspower(a, Fr(1, 3)), AND(fa, self.cmp(a, '>=')), False, False
                if op in ('asin', 'acos'):
                    return al.opaque(op, [a]), AND(fa, self.cmp(al.sub(al.absval(a), al.const(1)), '<=')), False, False
                if op in ('floor', 'ceil', 'round', 'trunc', 'roundeven') and al.is_const(a) is not None:
                    return al.from_double(FUN[op](float(al.is_const(a)))), fa, False, False
                if op in ('sin', 'cos', 'tan', 'atan', 'floor', 'ceil', 'round', 'trunc', 'roundeven'):
                    if op in ('floor', 'ceil', 'round', 'trunc', 'roundeven') and self.is_int(a):
                        return a, fa, pa, na
                    return al.opaque(op, [a]), fa, False, False
                raise NotImplementedError(op)
            b, fb, pb, nb = A[1]
            fin = AND(fa, fb)
            if op in ('add', 'sub'):
                if op == 'sub':
                    b, pb, nb = al.neg(b), nb, pb
                if pa is False and na is False and pb is False and nb is False:
                    return al.add(a, b), fin, False, False
                pinf = OR(AND(pa, OR(fb, pb)), AND(fa, pb))
                ninf = OR(AND(na, OR(fb, nb)), AND(fa, nb))
                return al.add(a, b), fin, pinf, ninf
            if op == 'mul':
                v = al.mul(a, b)
                if pa is False and na is False and pb is False and nb is False:
                    return v, fin, False, False
                ap, an = OR(pa, AND(fa, self.cmp(a, '>'))), OR(na, AND(fa, self.cmp(a, '<')))
                bp, bn = OR(pb, AND(fb, self.cmp(b, '>'))), OR(nb, AND(fb, self.cmp(b, '<')))
                anyinf = OR(pa, na, pb, nb)
                return v, fin, AND(anyinf, OR(AND(ap, bp), AND(an, bn))), AND(anyinf, OR(AND(ap, bn), AND(an, bp)))
            if op == 'div':
                if not b[0]:
                    return Z, AND(fa, OR(pb, nb)), False, False
                v = al.div(a, b)
                ok = OR(AND(fin, self.cmp(b, '!=')))
                if pa is False and na is False and pb is False and nb is False:
                    return v, ok, False, False
                if pb is False and nb is False:
                    up, dn = self.cmp(b, '>'), self.cmp(b, '<')
                    return v, ok, OR(AND(pa, fb, up), AND(na, fb, dn)), OR(AND(na, fb, up), AND(pa, fb, dn))
                raise NotImplementedError
            if op in ('pow', 'powi'):
                q = al.is_const(b)
                if q is not None and q.denominator == 1:
                    v = al.pow(a, b) if (a[0] or q >= 0) else Z
                    if q == 0:
                        v = al.const(1)
                    return v, AND(fin, True if q >= 0 else self.cmp(a, '!=')), False, False
                if q is not None and q > 0:
                    return (al.pow(a, b) if a[0] else Z), AND(fin, self.cmp(a, '>=')), False, False
                if not a[0]:
                    return Z, AND(fin, self.cmp(b, '>')), False, False
                return al.pow(a, b), AND(fin, self.cmp(a, '>')), False, False
            if op == 'rem':
                return al.opaque('rem', [a, b]), AND(fin, self.cmp(b, '!=')), False, False
            if op in ('atan2',):
                return al.opaque(op, [a, b]), fin, False, False
            if op == 'hypot':
                return al.abspower(al.add(al.mul(a, a), al.mul(b, b)), Fr(1, 2)), fin, False, False
            if op in ('iadd', 'isub', 'imul'):
                return {'iadd': al.add, 'isub': al.sub, 'imul': al.mul}[op](a, b), True, False, False
            if op in ('idiv', 'imod'):
                return al.opaque(op, [a, b]), True, False, False
            if op.startswith('iwrap'):
                return al.opaque(op, [a, b]), True, False, False
            raise NotImplementedError(op)
        except (TooBig, NotImplementedError) as e:
            self.stats['opaque'] += 1
            return al.var(al.atom('node', k)), False, False, False

    def implied(self, p, q):
        if p is False or q is True:
            return True
        s = self.solver
        s.push()
        if p is not True:
            s.add(p)
        s.add(NOT(q) if q is not False else z3.BoolVal(True))
        c = self.check(s)
        s.pop()
        return c == z3.unsat

    def is_int(self, a):
        if a[1]:
            return False
        for m, c in a[0].items():
            if Fr(c).denominator != 1:
                return False
            for x, e in m:
                t = self.al.atoms[x]
                if t[0] != 'isym' and not (t[0] == 'f' and t[1] in ('floor', 'ceil', 'round', 'trunc', 'roundeven')) or Fr(e).denominator != 1 or e < 0:
                    return False
        return True

    def le_const(self, a, c):
        iv = self.interval(a)
        if iv[1] <= c:
            return True
        return self.cmp(self.al.sub(a, self.al.const(c)), '<=')

    def ge_tiny(self, a):
        q = self.al.is_const(a)
        if q is not None:
            return q >= Fr(1, 10 ** 300)
        iv = self.interval(a)
        if iv[0] >= 1e-300:
            return True
        if not any(self.al.atoms[x][0] == 'E' for m in a[0] for x, _ in m):
            # a ratio of bounded inputs does not underflow
            return self.cmp(a, '>')
        return self.cmp(self.al.sub(a, self.al.const(Fr(1, 10 ** 300))), '>=')

    # -------- path condition
    def condition(self, c):
        kind, pred, a, b, taken = c
        if kind in ('i', 'e'):
            x, y = self.el(a)[0], self.el(b)[0]
            d = self.al.sub(x, y)
            one = self.al.const(1)
            if pred == 'lt':
                return self.cmp(self.al.add(d, one), '<=') if taken else self.cmp(d, '>=')
            if pred == 'le':
                return self.cmp(d, '<=') if taken else self.cmp(self.al.sub(d, one), '>=')
            if taken:
                return self.cmp(d, '==')
            return OR(self.cmp(self.al.add(d, one), '<='), self.cmp(self.al.sub(d, one), '>='))
        x, fx, px, nx = self.el(a)
        y, fy, py, ny = self.el(b)
        ux, uy = NOT(OR(fx, px, nx)), NOT(OR(fy, py, ny))
        d = self.al.sub(x, y)
        nan = False
        if ux is not False or uy is not False:
            nan = OR(self.isnan(a), self.isnan(b))
        if pred == 'eq' and a == b:
            return NOT(nan) if taken else ux
        fin = AND(fx, fy)
        if pred == 'lt':
            t = OR(AND(fin, self.cmp(d, '<')), AND(nx, OR(fy, py)), AND(fx, py))
        elif pred == 'le':
            t = OR(AND(fin, self.cmp(d, '<=')), AND(nx, OR(fy, py, ny)), AND(OR(fx, px), py))
        else:
            t = OR(AND(fin, self.cmp(d, '==')), AND(nx, ny), AND(px, py))
        return AND(NOT(nan), OR(ux, uy, t)) if taken else OR(ux, uy, NOT(t))

    def isnan(self, k):
        """when a node is certainly not a number (as opposed to merely untracked)"""
        if k in self.nans:
            return self.nans[k]
        n = self.nodes[k]
        op = n['op']
        r = False
        if k in self.subst:
            pass
        elif op == 'const':
            x = bits2f(n['bits'])
            r = x != x
        elif op in ('ln', 'log2', 'log10', 'sqrt'):
            a, fa, pa, na = self.el(n['args'][0])
            r = OR(self.isnan(n['args'][0]), na, AND(fa, self.cmp(a, '<')))
        elif op in ('neg', 'abs', 'exp', 'add', 'sub', 'mul', 'div'):
            for a in n['args']:
                r = OR(r, self.isnan(a))
        self.nans[k] = r
        return r

    ivcache = None

    def load(self):
        """assert the path condition; False if it is unsatisfiable"""
        self.ivcache = {}
        self.nans = {}
        for c in self.path['conds']:
            try:
                f = self.condition(c)
            except TooBig:
                continue
            if f is False:
                return False
            if f is not True:
                self.solver.add(f)
            if c[0] in 'fi':
                self.learn(c)
                self.ivcache = {}
        # terms built before all signs were known are built again
        self.memo.clear()
        # other terms the path makes equal to a constant or to each other
        for kind, pred, a, b, taken in self.path['conds']:
            if kind == 'f' and pred == 'eq' and taken and a != b:
                for s, k in ((a, b), (b, a)):
                    v = self.constval(k)
                    if v is not None and v == v and v not in (INF, -INF):
                        if self.nodes[s]['op'] not in ('sym', 'isym', 'const') and s not in self.subst:
                            self.subst[s] = v
                            x, e, q = self.monomial(s)
                            if e == 1 and x != s and self.nodes[x]['op'] not in ('sym', 'isym', 'const') and x not in self.subst:
                                self.subst[x] = Fr(v) / q
                        break
                else:
                    x, y = min(a, b), max(a, b)
                    if self.nodes[y]['op'] not in ('sym', 'isym') and y not in self.subst:
                        self.late[y] = x
        self.nans = {}
        self.ivcache = {}
        self.signs = {k: v for k, v in self.signs.items() if v is not None}
        self.final = True
        return True

    # -------- deciding
    def deep_lemmas(self):
        """facts about ln, exp, lgamma atoms in use"""
        s = self.solver
        for a in list(self.zv):
            if a in self.lemmas_done:
                continue
            self.lemmas_done.add(a)
            p, v = self.al.atoms[a], self.zv[a]
            lo, hi = self.ivatom(a)
            if math.isfinite(lo):
                q = Fr(lo) - abs(Fr(lo)) / 10 ** 9
                s.add(v >= z3.Q(q.numerator, q.denominator))
            if math.isfinite(hi):
                q = Fr(hi) + abs(Fr(hi)) / 10 ** 9
                s.add(v <= z3.Q(q.numerator, q.denominator))
            if p[0] == 'E':
                el = ({p[1]: 1}, p[2])
                z = self.zvalue(el)
                if z is not None:
                    s.add(v >= 1 + z, z3.Implies(z < 1, v * (1 - z) <= 1))
            elif p[0] == 'L':
                f = self.al.polys[p[1]]
                sg = self.sign_of(f)
                if sg is not None:
                    z = self.zpoly(f) * sg
                    s.add(v <= z - 1, v * z >= z - 1)

        # the logarithm of a sum of positive terms lies between its largest term and that plus ln n
        for a in list(self.zv):
            if self.al.atoms[a][0] != 'L' or ('lse', a) in self.lemmas_done:
                continue
            self.lemmas_done.add(('lse', a))
            gs = {}
            for m, c in self.al.polys[self.al.atoms[a][1]].items():
                k = tuple(x for x in m if self.al.atoms[x[0]][0] == 'E')
                gs.setdefault(k, {})[tuple(x for x in m if self.al.atoms[x[0]][0] != 'E')] = c
            if not 2 <= len(gs) <= 4 or any(self.sign_of(q) != 1 for q in gs.values()):
                continue
            terms = []
            for k, q in gs.items():
                t = self.al.ln((q, ()))
                for x, e in k:
                    t = self.al.add(t, self.al.scale(self.al.lnatom(x), Fr(e)))
                terms.append(t)
            la = self.al.var(a)
            n = self.al.lnq(len(gs))
            ups = []
            for t in terms:
                d = self.al.sub(la, t)
                f = self.cmp(d, '>=')
                if f is not True and f is not False:
                    s.add(f)
                ups.append(self.cmp(self.al.sub(d, n), '<='))
            f = OR(*ups)
            if f is not True and f is not False:
                s.add(f)
        # ln x - ln y <= x/y - 1
        ls = [a for a in self.zv if self.al.atoms[a][0] == 'L' and self.sign_of(self.al.polys[self.al.atoms[a][1]])]
        if len(ls) <= 4:
            for a in ls:
                for b in ls:
                    if a != b and ('ratio', a, b) not in self.lemmas_done:
                        self.lemmas_done.add(('ratio', a, b))
                        x, y = (self.zpoly(f) * self.sign_of(f) for f in (self.al.polys[self.al.atoms[k][1]] for k in (a, b)))
                        s.add((self.zv[a] - self.zv[b]) * y <= x - y)

    def zvalue(self, el):
        if el[1]:
            return None
        num, k = self.clear(el[0])
        if k:
            return None
        return self.zpoly(num)

    def violation(self, cl):
        label, kind, a, b, tol, truth, at = cl
        tol = float(tol)
        if kind == 'true':
            return not truth
        x, fx, px, nx = self.el(a)
        if kind == 'fin':
            return NOT(fx)
        y, fy, py, ny = self.el(b)
        d = self.al.sub(x, y)
        ux, uy = NOT(OR(fx, px, nx)), NOT(OR(fy, py, ny))
        fin = AND(fx, fy)
        if kind in ('eq', 'bits'):
            if not d[0]:
                far = False
            else:
                iv = self.interval(d)
                t = Fr(tol) if tol else Fr(1, 10 ** 12)
                if kind == 'eq' and -float(t) <= iv[0] and iv[1] <= float(t):
                    far = False          # an enclosing interval within the tolerance
                else:
                    # |d| > tol(1+max|a|,|b|)
                    c = self.al.const(t)
                    far = OR(self.cmp(self.al.sub(d, c), '>'), self.cmp(self.al.add(d, c), '<'))
                    rel = lambda w: OR(AND(self.cmp(self.al.sub(self.al.sub(d, c), self.al.scale(w, t)), '>'), self.cmp(self.al.sub(self.al.sub(d, c), self.al.scale(self.al.neg(w), t)), '>')),
                                       AND(self.cmp(self.al.add(self.al.add(d, c), self.al.scale(w, t)), '<'), self.cmp(self.al.add(self.al.add(d, c), self.al.scale(self.al.neg(w), t)), '<')))
                    far = AND(far, rel(y))
            return OR(ux, uy, AND(fin, far), self.xor(fx, fy), self.xor(px, py), self.xor(nx, ny))
        if kind in ('le', 'lt'):
            c = self.al.const(Fr(tol) if kind == 'le' else 0)
            t = OR(AND(fin, self.cmp(self.al.sub(d, c), '<=' if kind == 'le' else '<')), AND(nx, OR(fy, py)), AND(OR(fx, nx), py))
            return NOT(t)
        raise RuntimeError(kind)

    @staticmethod
    def xor(x, y):
        if x is y:
            return False
        if x is True:
            return NOT(y)
        if y is True:
            return NOT(x)
        if x is False:
            return y
        if y is False:
            return x
        if x.eq(y):
            return False
        return z3.Xor(x, y)

    def constant(self, k):
        e, f, p, n = self.el(k)
        return self.al.is_const(e) if f is True else None

    def same(self, i, j, memo):
        """equal values by congruence, whatever they are (NaN included): the same operation on equal operands"""
        i, j = self.strip(i), self.strip(j)
        if i == j:
            return True
        key = (i, j)
        if key in memo:
            return memo[key]
        memo[key] = False
        x, y = self.el(i), self.el(j)
        r = False
        if x[1] is True and y[1] is True:
            r = not self.al.sub(x[0], y[0])[0]
        elif x[1] is not True and y[1] is not True:
            m, n = self.nodes[i], self.nodes[j]
            if m['op'] == n['op'] and len(m['args']) == len(n['args']) > 0:
                p, q = m['args'], n['args']
                r = all(self.same(u, v, memo) for u, v in zip(p, q))
                if not r and m['op'] in ('add', 'mul'):
                    r = self.same(p[0], q[1], memo) and self.same(p[1], q[0], memo)
        memo[key] = r
        return r

    def strip(self, k):
        """without neutral operands"""
        while True:
            n = self.nodes[k]
            op, A = n['op'], n['args']
            if op in ('add', 'sub', 'mul', 'div', 'pow'):
                neutral = 0 if op in ('add', 'sub') else 1
                if self.constant(A[1]) == neutral:
                    k = A[0]
                    continue
                if op in ('add', 'mul') and self.constant(A[0]) == neutral:
                    k = A[1]
                    continue
            return k

    def decide(self, cl):
        """('proved', how) | ('open', model inputs or None, why)"""
        label, kind, a, b, tol, truth, at = cl
        if kind in ('eq', 'bits') and a == b:
            return ('proved', 'identical', None)
        try:
            v = self.violation(cl)
        except TooBig:
            return ('open', 'too big', None)
        if v is False:
            return ('proved', 'algebra', None)
        if kind == 'eq' and self.same(a, b, {}):
            return ('proved', 'congruence', None)
        s = self.solver
        why = ''
        for stage in (0, 1, 2):
            if stage == 1:
                self.deep_lemmas()
            if stage == 2:
                v = self.stirling(cl)
                if v is None:
                    break
                if v is False:
                    return ('proved', 'stirling', None)
            s.push()
            if v is not True:
                s.add(v)
            limit = 4000 if stage == 0 else Q_TIMEOUT
            s.set('timeout', limit // 2)
            c = self.check(s)
            f = s
            if c == z3.unknown:
                # another start often succeeds
                f = z3.Solver()
                f.set('timeout', limit)
                f.add(s.assertions())
                c = self.check(f)
            if c == z3.unsat:
                s.pop()
                s.set('timeout', S_TIMEOUT)
                return ('proved', 'solver%d' % stage, None)
            m = None
            if c == z3.sat:
                m = self.model_inputs(f.model())
            why = str(c)
            s.pop()
            s.set('timeout', S_TIMEOUT)
        return ('open', why, m)

    def stirling(self, cl):
        """the violation of an equality with every lgamma(z) replaced by its Stirling enclosure
        (w-1/2) ln w - w + ln(2 pi)/2 + 1/(12w) - 1/(360 w^3) + r, 0 <= r <= 1/(1260 w^5), w = z - j"""
        label, kind, a, b, tol, truth, at = cl
        if kind not in ('eq', 'le', 'lt'):
            return None
        x, fx, px, nx = self.el(a)
        y, fy, py, ny = self.el(b)
        d = self.al.sub(x, y)
        if not any(self.al.atoms[k][0] == 'lg' for m in d[0] for k, _ in m):
            return None
        try:
            e = self.unstirling(d)
        except TooBig:
            return None
        if e is None:
            return None
        c = self.al.const(Fr(float(tol)))
        fin = AND(fx, fy)
        if kind == 'eq':
            v = OR(self.cmp(self.al.sub(e, c), '>'), self.cmp(self.al.add(e, c), '<'))
            v = OR(NOT(OR(fx, px, nx)), NOT(OR(fy, py, ny)), AND(fin, v), self.xor(fx, fy), self.xor(px, py), self.xor(nx, ny))
        else:
            v = OR(NOT(fin), self.cmp(self.al.sub(e, c if kind == 'le' else self.al.const(0)), '>'))
        self.deep_lemmas()
        return v

    def unstirling(self, d):
        al = self.al
        lg = sorted({k for m in d[0] for k, _ in m if al.atoms[k][0] == 'lg'})
        logs = {al.atoms[k][1] for m in d[0] for k, _ in m if al.atoms[k][0] == 'L'}
        out = (d[0], ())
        for k in lg:
            num, den = al.atoms[k][1]
            z = (dict(num), den)
            if den:
                return None
            best = None
            for j in range(0, 4):
                w = al.sub(z, al.const(j))
                if self.interval(w)[0] < 1:
                    break
                if best is None or al.poly_id(w[0])in logs:
                    best = j
            if best is None:
                return None
            w = al.sub(z, al.const(best))
            lw, iw = al.ln(w), al.inv(w)
            base = al.sub(al.mul(al.sub(w, al.const(Fr(1, 2))), lw), w)
            base = al.add(base, al.scale(al.add(al.var(al.atom('lnpi')), al.var(al.atom('lnp', 2))), Fr(1, 2)))
            base = al.add(base, al.scale(iw, Fr(1, 12)))
            base = al.sub(base, al.scale(al.powint(iw, 3), Fr(1, 360)))
            for i in range(best):
                base = al.add(base, al.ln(al.add(w, al.const(i))))
            base = al.add(base, al.var(al.atom('rem', k, self.interval(w)[0])))
            res = al.const(0)
            for m, c in out[0].items():
                t = ({tuple(x for x in m if x[0] != k): c}, ())
                for x, e in m:
                    if x == k:
                        if Fr(e).denominator != 1 or e < 0:
                            return None
                        t = al.mul(t, al.powint(base, int(e)))
                res = al.add(res, t)
            out = res
        r = out
        for pid, e in d[1]:
            for _ in range(int(e)):
                r = al.div(r, (al.polys[pid], ()))
        return r

    def model_inputs(self, m):
        out = {}
        for a, v in self.zv.items():
            p = self.al.atoms[a]
            if p[0] in ('sym', 'isym'):
                x = m.eval(v, model_completion=True)
                try:
                    if z3.is_algebraic_value(x):
                        x = x.approx(20)
                    q = Fr(x.numerator_as_long(), x.denominator_as_long())
                    out[p[1]] = float(q) if p[0] == 'sym' else int(round(q))
                except Exception:
                    pass
        for k, v in self.subst.items():
            out[self.nodes[k]['name']] = float(v) if isinstance(v, Fr) else v
        for k, (v, sg) in self.roots.items():
            if sg == 'over':
                w = out.get(self.nodes[v[1]]['name'])
                if w:
                    out[self.nodes[k]['name']] = float(v[0]) / w
                continue
            out[self.nodes[k]['name']] = math.exp(v) if sg is None else sg * math.sqrt(v)
        for k in self.alias:
            r, p, q = self.linear(k)
            v = out.get(self.nodes[r]['name'])
            if v is not None:
                w = p * Fr(v) + q
                out[self.nodes[k]['name']] = float(w) if self.nodes[k]['op'] == 'sym' else int(w)
        return out

    def feasible_model(self):
        s = self.solver
        s.set('timeout', 2000)
        c = self.check(s)
        s.set('timeout', S_TIMEOUT)
        if c == z3.sat:
            return self.model_inputs(s.model())
        return c


# ------------------------------------------------------------------ floating-point theory

class FPPath(Path):
    """paths over unrestricted doubles: every operation is IEEE 754 (round to nearest even)"""

    def __init__(self, ex, path, stats):
        super().__init__(ex, path, stats)
        self.F = z3.Float64()
        self.rm = z3.RNE()
        self.fmemo = {}
        self.vars = {}

    def fterm(self, i):
        m = self.fmemo
        if i in m:
            return m[i]
        n = self.nodes[i]
        op = n['op']
        A = [self.fterm(a) for a in n['args']]
        if op in ('any', 'sym'):
            t = z3.FP(n['name'], self.F)
            self.vars[n['name']] = (t, 'f')
        elif op == 'isym':
            t = z3.BitVec(n['name'], 64)
            self.vars[n['name']] = (t, 'i')
        elif op == 'const':
            t = z3.fpBVToFP(z3.BitVecVal(int(n['bits'], 16), 64), self.F)
            t = z3.simplify(t)
        elif op == 'iconst':
            t = z3.BitVecVal(int(n['name']), 64)
        elif op == 'u2f':
            t = z3.fpUnsignedToFP(self.rm, A[0], self.F)
        elif op == 'neg':
            t = z3.fpNeg(A[0])
        elif op == 'abs':
            t = z3.fpAbs(A[0])
        elif op in ('add', 'sub', 'mul', 'div'):
            t = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[op](self.rm, *A)
        elif op == 'sqrt':
            t = z3.fpSqrt(self.rm, A[0])
        elif op in ('iadd', 'isub', 'imul'):
            t = A[0] + A[1] if op == 'iadd' else A[0] - A[1] if op == 'isub' else A[0] * A[1]
        else:
            # any value: a function the theory does not have
            f = z3.Function(op, *[a.sort() for a in A], self.F)
            t = f(*A)
            self.stats['opaque'] += 1
        m[i] = t
        return t

    def condition(self, c):
        kind, pred, a, b, taken = c
        x, y = self.fterm(a), self.fterm(b)
        if kind in 'ie':
            t = z3.ULT(x, y) if pred == 'lt' else z3.ULE(x, y) if pred == 'le' else x == y
        else:
            t = z3.fpLT(x, y) if pred == 'lt' else z3.fpLEQ(x, y) if pred == 'le' else z3.fpEQ(x, y)
        return t if taken else z3.Not(t)

    def load(self):
        for c in self.path['conds']:
            self.solver.add(self.condition(c))
        return True

    def decide(self, cl):
        label, kind, a, b, tol, truth, at = cl
        if kind == 'true':
            if truth:
                return ('proved', 'algebra', None)
            v = True
        else:
            x = self.fterm(a)
            if kind == 'fin':
                v = z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))
            else:
                y = self.fterm(b)
                if a == b:
                    return ('proved', 'identical', None)
                if kind == 'bits':
                    v = x != y
                elif kind in ('le', 'lt'):
                    v = z3.Not(z3.fpLEQ(x, y) if kind == 'le' else z3.fpLT(x, y))
                else:
                    t = z3.FPVal(float(tol), self.F)
                    d = z3.fpAbs(z3.fpSub(self.rm, x, y))
                    big = z3.If(z3.fpGT(z3.fpAbs(x), z3.fpAbs(y)), z3.fpAbs(x), z3.fpAbs(y))
                    near = z3.fpLEQ(d, z3.fpMul(self.rm, t, z3.fpAdd(self.rm, z3.FPVal(1.0, self.F), big)))
                    v = z3.Not(z3.Or(x == y, z3.fpEQ(x, y), near))
        s = self.solver
        s.push()
        if v is not True:
            s.add(v)
        s.set('timeout', 60000)
        c = self.check(s)
        m = self.fmodel(s.model()) if c == z3.sat else None
        s.pop()
        if c == z3.unsat:
            return ('proved', 'floating point', None)
        return ('open', str(c), m)

    def fmodel(self, m):
        out = {}
        for n, (t, k) in self.vars.items():
            v = m.eval(t, model_completion=True)
            if k == 'i':
                out[n] = v.as_long()
            else:
                b = z3.simplify(z3.fpToIEEEBV(v))
                out[n] = bits2f('%016x' % b.as_long()) if z3.is_bv_value(b) else math.nan
        return out

    def feasible_model(self):
        self.solver.set('timeout', 20000)
        c = self.check(self.solver)
        return self.fmodel(self.solver.model()) if c == z3.sat else c
