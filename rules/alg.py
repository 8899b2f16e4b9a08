"""Algebra on terms: identities of rational expressions (with uninterpreted functions), and linear integer inequalities."""
import hashlib
from fractions import Fraction
from common import *

PRIME = (1 << 61) - 1
# operations which only change the type or the shape of what they are applied to
SHAPELESS = ('cast', 'eval', 'array', 'matrix', 'noalias', 'derived', 'template', 'nestByValue', 'markAsRValue', 'forward', 'move',
             'makeCompressed', 'static_cast', 'asDiagonal')


def _h(*xs):
    d = hashlib.blake2b(repr(xs).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big') % PRIME


class Alg:
    """Value of a term in the field of integers modulo a prime. `leaf` gives chosen terms a value (number, bool or None), everything
    else that is not arithmetic is a function of its operands of which nothing is known."""

    def __init__(self, leaf, seed=0):
        self.leaf, self.seed, self.memo = leaf, seed, {}

    def num(self, x):
        f = Fraction(x)
        return f.numerator * pow(f.denominator, PRIME - 2, PRIME) % PRIME

    def sym(self, *name):
        return _h(self.seed, *name)

    def val(self, t):
        if not isinstance(t, T):
            return t if isinstance(t, (str, bool)) or t is None else t if isinstance(t, int) else repr(t)
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = 0
        self.memo[t] = r = self._val(t)
        return r

    def _val(self, t):
        v = self.leaf(t)
        if v is not None:
            return v if isinstance(v, bool) else self.num(v) if isinstance(v, (float, Fraction)) else v % PRIME
        op, a = t.op, t.a
        if op == 'cb':
            return bool(a[0])
        if op in ('c', 'cf') and isinstance(a[0], (int, float)):
            return self.num(a[0])
        if op == 'add':
            return sum(self.val(x) for x in a) % PRIME
        if op in ('mul', 'prod'):
            r = 1
            for x in a:
                r = r * self.val(x) % PRIME
            return r
        if op == 'op' and a[0] == '/':
            return self.val(a[1]) * pow(self.val(a[2]), PRIME - 2, PRIME) % PRIME
        if op == 'call' and len(a) == 2 and str(a[0]).split('::')[-1] in SHAPELESS:
            return self.val(a[1])
        if op in ('cast', 'conv'):
            return self.val(a[-1])
        if op == 'not':
            x = self.val(a[0])
            return (not x) if isinstance(x, bool) else self.sym('not', x)
        if op in ('and', 'or'):
            xs = [self.val(x) for x in a]
            stop = op == 'or'
            if any(x is stop for x in xs):
                return stop
            xs = sorted((x for x in xs if x is not (not stop)), key=str)
            return (not stop) if not xs else xs[0] if len(xs) == 1 else self.sym(op, *xs)
        if op == 'sel':
            c = self.val(a[0])
            if isinstance(c, bool):
                return self.val(a[1] if c else a[2])
            x, y = self.val(a[1]), self.val(a[2])
            return x if x == y else self.sym('sel', c, x, y)
        if op == 'eq':
            x, y = self.val(a[0]), self.val(a[1])
            if x == y:
                return True
            if isinstance(x, bool) or isinstance(y, bool):
                return False if isinstance(x, bool) and isinstance(y, bool) else self.sym('eq', *sorted((str(x), str(y))))
            return self.sym('eq', *sorted((x, y)))
        return self.sym(op, *[self.val(x) if isinstance(x, T) else tuple(self.val(y) if isinstance(y, T) else y for y in x)
                              if isinstance(x, tuple) else x for x in a])


def identical(f, seeds=3):
    """f(seed) gives a pair of values: equal for every seed"""
    return all((lambda p: p[0] == p[1])(f(s)) for s in range(1, seeds + 1))


# ------------------------------------------------------------------------------------------------ linear integer inequalities
# a linear form: dict symbol -> coefficient, key 1 the constant; a constraint: form >= 0
def ladd(x, y, k=1):
    r = dict(x)
    for s, c in y.items():
        r[s] = r.get(s, 0) + k * c
        if r[s] == 0 and s != 1:
            del r[s]
    return r


def lconst(n):
    return {1: n}


def pieces(t, sym, depth=0):
    """[(constraints, form)]: cases which cover the value of an integer term; sym(t) names terms which are symbols (or None)"""
    s = sym(t)
    if s is not None:
        return [([], s if isinstance(s, dict) else {s: 1, 1: 0})]
    if t.op == 'c':
        return [([], lconst(t.a[0]))]
    if t.op == 'add':
        r = [([], lconst(0))]
        for x in t.a:
            r = [(c + c2, ladd(f, f2)) for c, f in r for c2, f2 in pieces(x, sym)]
        return r
    if t.op == 'mul':
        k = [x for x in t.a if x.op == 'c']
        o = [x for x in t.a if x.op != 'c']
        if len(o) == 1:
            n = 1
            for x in k:
                n *= x.a[0]
            return [(c, {s: v * n for s, v in f.items()}) for c, f in pieces(o[0], sym)]
    if t.op == 'op' and t.a[0] == '/' and t.a[2].op == 'c' and t.a[2].a[0] > 0:
        n = t.a[2].a[0]
        q = ('quot', t)
        r = []
        for c, f in pieces(t.a[1], sym):
            m = {q: 1, 1: 0}
            # f >= 0: n q <= f <= n q + n - 1, q >= 0; f < 0: truncated towards zero
            r.append((c + [f, ladd(f, m, -n), ladd(ladd(m, f, -1) if n == 1 else ladd({q: n, 1: 0}, f, -1), lconst(n - 1)), m], m))
            neg = ladd({k: -v for k, v in f.items()}, lconst(-1))
            r.append((c + [neg, ladd({q: n, 1: 0}, f, -1), ladd(ladd(f, {q: n, 1: 0}, -1), lconst(n - 1)), {q: -1, 1: 0}], m))
        return r
    nm = str(t.a[0]).split('::')[-1] if t.op == 'call' and t.a else t.op
    if nm in ('min', 'max') and len([x for x in t.a if isinstance(x, T)]) == 2:
        x, y = [x for x in t.a if isinstance(x, T)]
        r = []
        for c, f in pieces(x, sym):
            for c2, f2 in pieces(y, sym):
                d = ladd(f2, f, -1)         # y - x
                e = {k: -v for k, v in d.items()}
                r.append((c + c2 + [d], f if nm == 'min' else f2))
                r.append((c + c2 + [e], f2 if nm == 'min' else f))
        return r
    if t.op == 'sel':
        r = []
        for cs, b in conditions(t.a[0], sym):
            r += [(cs + c, f) for c, f in pieces(t.a[1] if b else t.a[2], sym)]
        return r
    return [([], {('opaque', t): 1, 1: 0})]


def conditions(t, sym):
    """[(constraints, bool)]"""
    if t.op == 'not':
        return [(c, not b) for c, b in conditions(t.a[0], sym)]
    if t.op == 'cb':
        return [([], bool(t.a[0]))]
    if t.op in ('and', 'or'):
        r = [([], t.op == 'and')]
        for x in t.a:
            r = [(c + c2, (b and b2) if t.op == 'and' else (b or b2)) for c, b in r for c2, b2 in conditions(x, sym)]
        return r
    if t.op == 'lt':
        r = []
        for c, f in pieces(t.a[0], sym):
            for c2, f2 in pieces(t.a[1], sym):
                d = ladd(f2, f, -1)
                r.append((c + c2 + [ladd(d, lconst(-1))], True))
                r.append((c + c2 + [{k: -v for k, v in d.items()}], False))
        return r
    if t.op == 'eq':
        r = []
        for c, f in pieces(t.a[0], sym):
            for c2, f2 in pieces(t.a[1], sym):
                d = ladd(f2, f, -1)
                e = {k: -v for k, v in d.items()}
                r.append((c + c2 + [d, e], True))
                r.append((c + c2 + [ladd(d, lconst(-1))], False))
                r.append((c + c2 + [ladd(e, lconst(-1))], False))
        return r
    return [([], True), ([], False)]


def tighten(c):
    from math import gcd
    g = 0
    for s, v in c.items():
        if s != 1:
            g = gcd(g, abs(v))
    if g > 1:
        return {s: (v // g) for s, v in c.items()}      # floor of the constant
    return c


def infeasible(cons, limit=4000):
    """no integer solution (shown by Fourier-Motzkin elimination with integer tightening)"""
    key = lambda c: tuple(sorted(((str(k), v) for k, v in c.items())))
    cs = {}
    for c in cons:
        c = tighten({k: v for k, v in c.items() if v or k == 1})
        c.setdefault(1, 0)
        cs[key(c)] = c
    while True:
        cur = list(cs.values())
        for c in cur:
            if len(c) == 1 and c[1] < 0:
                return True
        syms = set(s for c in cur for s in c if s != 1)
        if not syms:
            return False

        def cost(s):
            p = sum(1 for c in cur if c.get(s, 0) > 0)
            n = sum(1 for c in cur if c.get(s, 0) < 0)
            return p * n - p - n
        s = min(syms, key=lambda s: (cost(s), str(s)))
        pos = [c for c in cur if c.get(s, 0) > 0]
        neg = [c for c in cur if c.get(s, 0) < 0]
        cs = {key(c): c for c in cur if not c.get(s, 0)}
        for p in pos:
            for n in neg:
                r = {}
                for k in set(p) | set(n):
                    v = p.get(k, 0) * -n[s] + n.get(k, 0) * p[s]
                    if v or k == 1:
                        r[k] = v
                r.pop(s, None)
                r.setdefault(1, 0)
                r = tighten(r)
                cs[key(r)] = r
        if len(cs) > limit:
            return False


def witness(cons, syms, top=7):
    """a small integer solution, or None"""
    syms = sorted(syms, key=str)

    def rec(i, env):
        if i == len(syms):
            return dict(env) if all(sum(v * (env[k] if k != 1 else 1) for k, v in c.items()) >= 0 for c in cons) else None
        for v in range(-2 if isinstance(syms[i], tuple) else 0, top):
            env[syms[i]] = v
            ok = True
            for c in cons:
                if all(k == 1 or k in env for k in c) and sum(v2 * (env[k] if k != 1 else 1) for k, v2 in c.items()) < 0:
                    ok = False
                    break
            if ok:
                r = rec(i + 1, env)
                if r:
                    return r
            del env[syms[i]]
        return None
    return rec(0, {})
