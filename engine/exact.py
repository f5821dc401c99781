"""The recorded terms of a path at one concrete input, in sixty digits: does a claim that fails natively also fail
before rounding? Used on claims the solver left open, so that a difference that is only rounding is not reported."""
import mpmath
from mpmath import mpf

from prove import bits2f, INF

MP = mpmath.mp
BIG, SMALL = mpf(2) ** 1024, mpf(2) ** -1022


class Unclear(Exception):
    pass


def _whole(f):
    return lambda a: mpf(f(a))


def _pow(a, b):
    if a > 0:
        return MP.power(a, b)
    if b == MP.floor(b) and abs(b) < 10 ** 6 and (a != 0 or b >= 0):
        return MP.power(a, int(b))
    raise Unclear


def _pos(f):
    def g(a):
        if a <= 0:
            raise Unclear
        return f(a)
    return g


def _div(a, b):
    if b == 0:
        raise Unclear
    return a / b


OPS = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': _div,
    'pow': _pow, 'powi': _pow, 'hypot': MP.hypot, 'atan2': MP.atan2,
    'neg': lambda a: -a, 'abs': abs, 'sqrt': lambda a: MP.sqrt(a) if a >= 0 else _div(a, 0),
    'ln': _pos(MP.ln), 'exp': MP.exp, 'log10': _pos(MP.log10), 'log2': _pos(lambda a: MP.ln(a) / MP.ln(2)), 'exp2': lambda a: MP.power(2, a),
    'ln1p': lambda a: _pos(MP.ln)(1 + a), 'expm1': MP.expm1,
    'sin': MP.sin, 'cos': MP.cos, 'tan': MP.tan, 'atan': MP.atan, 'sinh': MP.sinh, 'cosh': MP.cosh, 'tanh': MP.tanh,
    'cbrt': lambda a: MP.sign(a) * MP.cbrt(abs(a)),
    'floor': _whole(MP.floor), 'ceil': _whole(MP.ceil), 'trunc': lambda a: MP.floor(a) if a >= 0 else MP.ceil(a),
    'round': lambda a: MP.sign(a) * MP.floor(abs(a) + mpf(0.5)), 'roundeven': MP.nint,
    'lgamma': _pos(MP.loggamma), 'tgamma': _pos(MP.gamma),
    'u2f': lambda i: mpf(i), 'f2u': lambda a: int(a),
    'iadd': lambda a, b: a + b, 'isub': lambda a, b: a - b, 'imul': lambda a, b: a * b,
    'iwrapadd': lambda a, b: (a + b) % 2 ** 64, 'iwrapsub': lambda a, b: (a - b) % 2 ** 64, 'iwrapmul': lambda a, b: (a * b) % 2 ** 64,
    'idiv': lambda a, b: a // b, 'imod': lambda a, b: a % b,
}


class Eval:
    def __init__(self, nodes, env):
        self.nodes, self.env, self.memo = nodes, env, {}

    def __call__(self, i):
        st, memo, nodes = [i], self.memo, self.nodes
        while st:
            k = st[-1]
            if k in memo:
                st.pop()
                continue
            n = nodes[k]
            op = n['op']
            if op in ('sym', 'isym'):
                v = self.env[n['name']]
                v = int(v) if op == 'isym' else mpf(v)
            elif op == 'const':
                v = mpf(bits2f(n['bits']))
            elif op == 'iconst':
                v = int(n['name'])
            elif op not in OPS:
                raise Unclear
            else:
                todo = [a for a in n['args'] if a not in memo]
                if todo:
                    st.extend(todo)
                    continue
                v = OPS[op](*[memo[a] for a in n['args']])
            if isinstance(v, mpmath.mpc) or getattr(v, 'imag', 0):
                raise Unclear
            if not isinstance(v, int):
                # the machine would overflow or underflow here: not a matter of rounding
                if not MP.isfinite(v) or abs(v) >= BIG or (v != 0 and abs(v) < SMALL):
                    raise Unclear
            memo[k] = v
            st.pop()
        return memo[i]

    def cond(self, c):
        kind, pred, a, b, taken = c
        x, y = self(a), self(b)
        return (x < y if pred == 'lt' else x <= y if pred == 'le' else x == y) == taken


def holds(ex, env, label):
    """the claims of this label hold at this input before rounding"""
    with mpmath.workdps(60):
        return _holds(ex, env, label)


def _holds(ex, env, label):
    try:
        ev = Eval(ex.nodes, env)
        hit = None
        for p in ex.paths:
            if p['status'] != 'ok':
                continue
            if all(ev.cond(c) for c in p['conds']):
                hit = p
                break
        if hit is None:
            return False
        found = False
        for lab, kind, a, b, tol, truth, at in hit['claims']:
            if lab != label:
                continue
            found = True
            if kind not in ('eq', 'le', 'lt'):
                return False
            x, y, t = ev(a), ev(b), mpf(float(tol))
            if kind == 'eq' and abs(x - y) > t * max(1, abs(x), abs(y)):
                return False
            if kind == 'le' and x - y > t:
                return False
            if kind == 'lt' and not x < y:
                return False
        return found
    except (Unclear, ZeroDivisionError, ValueError, OverflowError, KeyError, TypeError):
        return False
