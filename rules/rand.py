"""Random interpretation of extracted terms: the meaning of a term (including the loops which fill arrays) at sample points of its leaves.
Two terms which agree at independently drawn points are taken as identical, as in Gulwani and Necula's random interpretation; a term with an
operation that is not modelled has no value (Und)."""
import cmath, math, random
from terms import *
from q import loop_body


class Und(Exception):
    pass


class Outside(Und):
    """a store outside of an array"""


class A:
    """array or matrix"""
    __slots__ = ('r', 'c', 'd')

    def __init__(self, r, c, d):
        self.r, self.c, self.d = r, c, list(d)

    def at(self, i, j=None):
        if j is None:
            if not 0 <= i < len(self.d):
                raise Und('index %s of %d' % (i, len(self.d)))
            return self.d[i]
        if not (0 <= i < self.r and 0 <= j < self.c):
            raise Und('index %s,%s of %dx%d' % (i, j, self.r, self.c))
        return self.d[i * self.c + j]

    def map(self, f):
        return A(self.r, self.c, [f(x) for x in self.d])

    @property
    def t(self):
        return A(self.c, self.r, [self.d[i * self.c + j] for j in range(self.c) for i in range(self.r)])

    def row(self, i):
        return A(1, self.c, [self.at(i, j) for j in range(self.c)])

    def col(self, j):
        return A(self.r, 1, [self.at(i, j) for i in range(self.r)])

    def __repr__(self):
        return 'A%dx%d%s' % (self.r, self.c, self.d[:6])


class V:
    """columns or rows of a matrix, one by one"""
    def __init__(self, m, kind):
        self.m, self.kind = m, kind


class L(list):
    """a standard container"""


def vec(xs):
    return A(len(xs), 1, xs)


def conj(x):
    return x.conjugate() if isinstance(x, complex) else x


def binary(f, x, y, matrix=False):
    x, y = (getattr(v, 'k', v) if type(v).__name__ == 'It' else v for v in (x, y))     # difference of iterators
    if isinstance(x, V) or isinstance(y, V):
        v, o = (x, y) if isinstance(x, V) else (y, x)
        if not isinstance(o, A) or not (o.r == 1 or o.c == 1):
            raise Und('vectorwise')
        n = v.m.r if v.kind == 'colwise' else v.m.c
        if len(o.d) != n or (v.kind == 'colwise') != (o.c == 1):
            raise Und('vectorwise shape')
        g = f if v is x else (lambda a, b: f(b, a))
        return A(v.m.r, v.m.c, [g(v.m.at(i, j), o.d[i if v.kind == 'colwise' else j]) for i in range(v.m.r) for j in range(v.m.c)])
    if isinstance(x, A) and isinstance(y, A):
        if (x.r, x.c) == (y.r, y.c):
            return A(x.r, x.c, [f(a, b) for a, b in zip(x.d, y.d)])
        if matrix and x.c == y.r:
            return A(x.r, y.c, [sum(x.at(i, k) * y.at(k, j) for k in range(x.c)) for i in range(x.r) for j in range(y.c)])
        raise Und('shapes %dx%d %dx%d' % (x.r, x.c, y.r, y.c))
    if isinstance(x, A):
        return x.map(lambda a: f(a, y))
    if isinstance(y, A):
        return y.map(lambda b: f(x, b))
    if isinstance(x, (L, type(None))) or isinstance(y, (L, type(None))):
        raise Und('operand')
    try:
        return f(x, y)
    except (ArithmeticError, TypeError) as e:
        raise Und(str(e))


def same(x, y, eps=1e-9):
    if isinstance(x, (A, L)) or isinstance(y, (A, L)):
        if isinstance(x, A) and isinstance(y, A):
            return (x.r, x.c) == (y.r, y.c) and all(same(a, b, eps) for a, b in zip(x.d, y.d))
        if isinstance(x, L) and isinstance(y, L):
            return len(x) == len(y) and all(same(a, b, eps) for a, b in zip(x, y))
        return False
    if x is None or y is None:
        return x is y
    return abs(x - y) <= eps * max(1.0, abs(x), abs(y))


def elementary(f):
    def g(x):
        if isinstance(x, A):
            return x.map(g)
        try:
            y = f(complex(x))
        except (ArithmeticError, TypeError, ValueError) as e:
            raise Und(str(e))
        return y.real if not isinstance(x, complex) and abs(y.imag) < 1e-13 * max(1, abs(y)) else y
    return g


def one(f):
    def g(x):
        if isinstance(x, A):
            return x.map(g)
        if isinstance(x, (L, V)) or x is None:
            raise Und('operand')
        return f(x)
    return g


UNARY = {n: elementary(getattr(cmath, n)) for n in ('cos', 'sin', 'tan', 'sqrt', 'exp', 'acos', 'asin', 'cosh', 'sinh', 'tanh', 'log')}
UNARY['real'] = one(lambda x: complex(x).real)
UNARY['imag'] = one(lambda x: complex(x).imag)
UNARY['abs'] = UNARY['cwiseAbs'] = UNARY['fabs'] = one(abs)
UNARY['square'] = one(lambda x: x * x)
UNARY['inverse'] = one(lambda x: 1 / x)
UNARY['conjugate'] = UNARY['conj'] = UNARY['force_conj'] = one(conj)
UNARY['abs2'] = UNARY['cwiseAbs2'] = one(lambda x: abs(x) ** 2)
for _n in ('eval', 'array', 'matrix', 'derived', 'move', 'forward', 'ref', 'cref', 'noalias', 'get_complex'):
    UNARY[_n] = lambda x: x
UNARY['transpose'] = lambda x: x.t if isinstance(x, A) else x
UNARY['adjoint'] = lambda x: x.t.map(conj) if isinstance(x, A) else conj(x)
UNARY['floor'] = one(math.floor)


def _sum(x):
    if isinstance(x, V):
        m = x.m
        if x.kind == 'colwise':
            return A(1, m.c, [sum(m.at(i, j) for i in range(m.r)) for j in range(m.c)])
        return A(m.r, 1, [sum(m.at(i, j) for j in range(m.c)) for i in range(m.r)])
    if not isinstance(x, A):
        raise Und('sum')
    return sum(x.d)


def _reduce(f):
    def g(x):
        if isinstance(x, V):
            m = x.m
            if x.kind == 'colwise':
                return A(1, m.c, [f([m.at(i, j) for i in range(m.r)]) for j in range(m.c)])
            return A(m.r, 1, [f([m.at(i, j) for j in range(m.c)]) for i in range(m.r)])
        if not isinstance(x, A):
            raise Und('reduction')
        return f(x.d)
    return g


REDUCE = {'sum': _sum, 'maxCoeff': _reduce(max), 'minCoeff': _reduce(min), 'mean': _reduce(lambda d: sum(d) / len(d)),
          'prod': _reduce(math.prod), 'squaredNorm': _reduce(lambda d: sum(abs(v) ** 2 for v in d)),
          'norm': _reduce(lambda d: math.sqrt(sum(abs(v) ** 2 for v in d)))}
CONST = {'pi': math.pi, 'i1': 1j}


def block_of(x, name, k):
    """first row, first column, rows and columns of a named part of a matrix"""
    if name == 'block' and len(k) == 4:
        b = tuple(k)
    elif name == 'leftCols' and len(k) == 1:
        b = (0, 0, x.r, k[0])
    elif name == 'rightCols' and len(k) == 1:
        b = (0, x.c - k[0], x.r, k[0])
    elif name == 'middleCols' and len(k) == 2:
        b = (0, k[0], x.r, k[1])
    elif name == 'topRows' and len(k) == 1:
        b = (0, 0, k[0], x.c)
    elif name == 'bottomRows' and len(k) == 1:
        b = (x.r - k[0], 0, k[0], x.c)
    elif name == 'middleRows' and len(k) == 2:
        b = (k[0], 0, k[1], x.c)
    else:
        return None
    r, c, p, q = b
    if min(b) < 0 or r + p > x.r or c + q > x.c:
        raise Outside('part outside')
    return b


def container_place(b):
    """place of a container whose current value is the term b"""
    while b.op == 'obj':
        b = b.a[0]
    if b.op == 'lv' and len(b.a) > 1 and isinstance(b.a[1], T):
        return b.a[1]
    if b.op in ('elem', 'sub', 'fld') and isinstance(b.a[0], T):
        p = container_place(b.a[0])
        return b if p is b.a[0] else mk(b.op, p, *b.a[1:])
    return b


class Interp:
    """meaning of the terms of one flow graph at one sample point"""

    def __init__(self, g, w, leaf, limit=400000):
        self.g, self.w, self.leaf, self.env = g, w, leaf, {}
        self.memo = {}
        self.steps = limit
        self.done = {}
        self.dep = {}

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        self.steps -= 1
        if self.steps < 0:
            raise Und('too long')
        r = self.leaf(t, self)
        if r is None:
            try:
                r = self._ev(t)
            except (AttributeError, TypeError, ValueError, KeyError, IndexError, ArithmeticError) as e:
                raise Und('%s in %s' % (e, t.op))
        self.memo[t] = r
        return r

    def bind(self, env):
        self.env = env
        self.memo = {}

    def num(self, t):
        x = self.ev(t)
        if isinstance(x, complex) and x.imag == 0:
            x = x.real
        if isinstance(x, float) and x == int(x):
            x = int(x)
        if not isinstance(x, int):
            raise Und('index %s' % show(t, 4))
        return x

    # ---- loops
    def loop(self, lv):
        """value of a loop value after its loop"""
        lid = lv.a[0]
        h = next((h for h in self.g.nodes if h.kind == 'loop' and h.lid == lid), None)
        if h is None:
            raise Und('loop value %s' % show(lv, 3))
        mine = [x for x in self.w.lvinfo if x.a[0] == lid]
        outer = dict(self.env)
        memo = self.memo
        key = (lid,) + tuple(sorted((x.id, id(outer[x]) if isinstance(outer[x], (A, L)) else outer[x]) for x in self.deps(lid) if x in outer))
        if key in self.done:
            cur = self.done[key][0]
            for x in mine:
                self.memo[x] = cur[x]
            if cur[lv] is None:
                raise Und('loop value %s' % show(lv, 3))
            return cur[lv]
        cur = {}
        for x in mine:
            i = self.w.lvinfo[x]
            if len(i) != 2:
                raise Und('loop value without a next value')
            v = i[0]
            cur[x] = self.ev(v.a[1] if v.op == 'iter' else v) if self.evaluable(v) else None
        body = loop_body(self.g, h)
        heads = [n for n in self.g.nodes if n.kind == 'branch' and n.id in body and any(m.id not in body for m, _ in n.succ)]
        if len(heads) != 1:
            raise Und('loop exits')
        hb = heads[0]
        stay = [lab for m, lab in hb.succ if m.id in body]
        idx = None
        it = hb.cond
        if it.op == 'more':
            rng = getattr(self.w, 'ranges', {}).get(lid)
            if rng is None:
                raise Und('range')
            idx, n = rng[0], self.count(rng[1], rng[2])
        k = 0
        try:
            while True:
                if idx is not None:
                    if k >= n:
                        break
                    env = dict(outer)
                    env.update(cur)
                    env[idx] = k
                    self.bind(env)
                else:
                    env = dict(outer)
                    env.update(cur)
                    self.bind(env)
                    if self.cond(it, lid) not in stay:
                        break
                nxt = {}
                for x in mine:
                    v = self.w.lvinfo[x][1]
                    nxt[x] = self.ev(v.a[1] if v.op == 'iter' else v) if cur[x] is not None else None
                cur = nxt
                k += 1
                if k > 200:
                    raise Und('iterations')
        finally:
            self.env, self.memo = outer, memo
        self.done[key] = (cur, outer)
        for x in mine:
            self.memo[x] = cur[x]
        if cur[lv] is None:
            raise Und('loop value %s' % show(lv, 3))
        return cur[lv]

    def deps(self, lid):
        """loop values and bound elements of enclosing constructs on which the loop may depend"""
        r = self.dep.get(lid)
        if r is None:
            r, seen, todo = set(), set(), [lid]
            while todo:
                l = todo.pop()
                if l in seen:
                    continue
                seen.add(l)
                ts = [v for x, i in self.w.lvinfo.items() if x.a[0] == l for v in i]
                h = next((h for h in self.g.nodes if h.kind == 'loop' and h.lid == l), None)
                if h is not None:
                    b = loop_body(self.g, h)
                    ts += [n.cond for n in self.g.nodes if n.kind == 'branch' and n.id in b]
                rg = getattr(self.w, 'ranges', {}).get(l)
                ts += list(rg[1:]) if rg else []
                for t in ts:
                    for s in subterms(t):
                        if s.op == 'lv' and s.a[0] not in seen:
                            r.add(s)
                            todo.append(s.a[0])
                        elif s.op == 'root' and s.a[0] == 'bound':
                            r.add(s)
            self.dep[lid] = r
        return r

    def evaluable(self, v):
        try:
            self.ev(v.a[1] if v.op == 'iter' else v)
            return True
        except Und:
            return False

    def count(self, a, b):
        if a.op == 'iter' and b.op == 'iter' and a.a[0] is b.a[0]:
            return self.pos(b) - self.pos(a)
        if a.op == 'addr' and b.op == 'addr' and a.a[0].op == 'elem' and b.a[0].op == 'elem' and a.a[0].a[0] is b.a[0].a[0]:
            return self.num(b.a[0].a[1]) - self.num(a.a[0].a[1])
        raise Und('range %s %s' % (show(a, 3), show(b, 3)))

    def pos(self, i):
        p = i.a[1]
        return self.size(self.ev(i.a[0])) if p.op == 'endpos' else self.num(p)

    def cond(self, c, lid):
        if c.op == 'not':
            return not self.cond(c.a[0], lid)
        if c.op in ('eq', 'lt') and any(x.op == 'endpos' for x in c.a):
            o = next(x for x in c.a if x.op != 'endpos')
            i = self.w.lvinfo.get(o)
            if not i or i[0].op != 'iter':
                raise Und('range end')
            C = i[0].a[0]
            cv = mk('lv', lid, C)
            n, k = self.size(self.ev(cv if cv in self.w.lvinfo else C)), self.num(o)
            return k == n if c.op == 'eq' else (k < n if c.a[0] is o else n < k)
        return bool(self.ev(c))

    def size(self, x):
        if isinstance(x, A):
            return len(x.d)
        if isinstance(x, L):
            return len(x)
        raise Und('size')

    # ---- operations
    def _ev(self, t):
        o, a = t.op, t.a
        ev = self.ev
        if o in ('c', 'cf', 'cb'):
            return a[0]
        if o == 'root' and a[0] in ('glob', 'global', 'static') or o == 'root' and str(a[-1]).startswith('cpb::constant::'):
            n = str(a[-1]).split('::')[-1]
            if n in CONST:
                return CONST[n]
        if o == 'add':
            r = ev(a[0])
            for x in a[1:]:
                r = binary(lambda p, q: p + q, r, ev(x))
            return r
        if o == 'list':
            return L(ev(x) for x in a)
        if o == 'upd' and a[1] in ('push_back', 'emplace_back') and len(a) == 4:
            b = ev(a[2])
            if type(b) is not L:
                raise Und('appending')
            return L(list(b) + [ev(a[3])])
        if o == 'upd' and a[1] in ('reserve', 'shrink_to_fit'):
            return ev(a[2])
        if o in ('mul', 'prod'):
            r = ev(a[0])
            for x in a[1:]:
                r = binary(lambda p, q: p * q, r, ev(x), True)
            return r
        if o == 'op' and len(a) == 3 and a[0] != 'trunc':
            if a[0] == '/':
                x, y = ev(a[1]), ev(a[2])
                if type(x) is int and type(y) is int:
                    if y == 0 or x % y:
                        raise Und('integer division')
                    return x // y
                return binary(lambda p, q: p / q, x, y)
            f = {'-': lambda p, q: p - q, '+': lambda p, q: p + q, '*': lambda p, q: p * q, '%': lambda p, q: p % q}.get(a[0])
            if f is None:
                raise Und('operator ' + str(a[0]))
            return binary(f, ev(a[1]), ev(a[2]), a[0] == '*')
        if o == 'op' and len(a) == 2 and a[0] == '-':
            return binary(lambda p, q: p * q, -1, ev(a[1]))
        if o == 'mod' and len(a) == 2:
            return self.num(a[0]) % self.num(a[1])
        if o == 'not':
            return not ev(a[0])
        if o == 'and':
            return all(ev(x) for x in a)
        if o == 'or':
            return any(ev(x) for x in a)
        if o == 'eq' and (a[0].op == 'null' or a[1].op == 'null'):
            return ev(a[0]) is ev(a[1])
        if o == 'eq':
            return same(ev(a[0]), ev(a[1]), 1e-14)
        if o == 'lt':
            return binary(lambda p, q: p < q, ev(a[0]), ev(a[1]))
        if o == 'sel':
            return ev(a[1] if ev(a[0]) else a[2])
        if o in ('cast', 'conv', 'conj', 'transpose', 'adjoint') and a:
            x = ev(a[-1])
            if o == 'conj':
                return UNARY['conj'](x)
            if o in UNARY:
                return UNARY[o](x)
            return x
        if o in ('min', 'max'):
            return (min if o == 'min' else max)(ev(x) for x in a)
        if o == 'size':
            return self.size(ev(a[0]))
        if o in ('deref', 'addr', 'alt'):
            return ev(a[0])
        if o == 'var':
            return ev(a[1])
        if o == 'null':
            return None
        if o == 'lv':
            return self.loop(t)
        if o == 'elem':
            x = ev(a[0])
            if a[1].op == 'ix':
                if not isinstance(x, A) or len(a[1].a) != 2:
                    raise Und('index pair')
                return x.at(self.num(a[1].a[0]), self.num(a[1].a[1]))
            i = self.num(a[1])
            if isinstance(x, A):
                return x.at(i)
            if isinstance(x, L):
                if not 0 <= i < len(x):
                    raise Und('index')
                return x[i]
            raise Und('element of %s' % show(a[0], 3))
        if o == 'ix':
            raise Und('index pair')
        if o == 'sub':
            return self.part(ev(a[0]), a[1], [self.num(x) for x in a[2:] if isinstance(x, T)])
        if o == 'map':
            x = ev(a[0])
            if not isinstance(x, A):
                raise Und('map')
            env, memo, out = self.env, self.memo, []
            for e in x.d:
                self.bind(dict(env))
                self.env[a[1]] = e
                out.append(self.ev(a[2]))
            self.env, self.memo = env, memo
            return A(x.r, x.c, out)
        if o == 'op' and len(a) == 2 and a[0] == 'trunc':
            x = ev(a[1])
            if isinstance(x, complex) or not isinstance(x, (int, float)):
                raise Und('trunc')
            return math.trunc(x)
        if o == 'obj':
            return self.object(t)
        if o == 'call':
            return self.call(str(a[0]), a[1:])
        raise Und('%s' % show(t, 3))

    def part(self, x, name, k):
        if not isinstance(x, A):
            raise Und('part of a scalar')
        n = len(x.d)
        if name in ('rowwise', 'colwise'):
            return V(x, name)
        if name == 'row' and len(k) == 1:
            return x.row(k[0])
        if name == 'col' and len(k) == 1:
            return x.col(k[0])
        if name in ('head', 'tail', 'segment', 'topRows') and (x.r == 1 or x.c == 1):
            s, e = (0, k[0]) if name in ('head', 'topRows') else (n - k[0], n) if name == 'tail' else (k[0], k[0] + k[1])
            if not 0 <= s <= e <= n:
                raise Outside('part outside')
            d = x.d[s:e]
            return A(len(d), 1, d) if x.c == 1 else A(1, len(d), d)
        if name == 'diagonal':
            return vec([x.at(i, i) for i in range(min(x.r, x.c))])
        box = block_of(x, name, k)
        if box is not None:
            r, c, p, q = box
            return A(p, q, [x.at(r + i, c + j) for i in range(p) for j in range(q)])
        raise Und('part ' + str(name))

    def object(self, t):
        """container with elements replaced"""
        x = x0 = self.ev(t.a[0])
        for key, v in t.a[1:]:
            if not isinstance(key, T):
                raise Und('object')
            while v.op == 'sel':
                v = v.a[1] if self.ev(v.a[0]) else v.a[2]
            if v.op == key.op and v.a[1:] == key.a[1:] and v.a[0] is t.a[0]:
                continue        # left as it was
            if v.op == key.op and v.a[1:] == key.a[1:] and isinstance(x0, A):
                y = self.ev(v.a[0])
                if y is x0 or isinstance(y, A) and (y.r, y.c, y.d) == (x0.r, x0.c, x0.d):
                    continue
            x = self.store(x, key, self.ev(v), t)
        return x

    def store(self, x, key, v, t):
        """x with the element named by the place key replaced"""
        chain = []
        p = key
        while p.op in ('elem', 'sub'):
            chain.append(p)
            p = p.a[0]
        if not chain:
            raise Und('store')
        base = container_place(t.a[0])
        # steps below the place that the object stands for
        steps = []
        q = key
        while q is not base and q.op in ('elem', 'sub'):
            steps.append(q)
            q = q.a[0]
        if q is not base:
            if base.op in ('root', 'fld', 'elem', 'sub', 'deref', 'alt') or any(k.a[0] is not key.a[0] for k, _ in t.a[1:]):
                raise Und('store place')
            steps = [key]       # parts of a local which was given a new value
        return self.put(x, steps[::-1], v)

    def put(self, x, steps, v):
        s = steps[0]
        if len(steps) > 1:
            if s.op == 'elem' and isinstance(x, L):
                i = self.num(s.a[1])
                if not 0 <= i < len(x):
                    raise Und('index')
                y = L(x)
                y[i] = self.put(x[i], steps[1:], v)
                return y
            raise Und('nested store')
        if s.op == 'elem':
            ix = s.a[1]
            if isinstance(x, A):
                if ix.op == 'ix':
                    i, j = (self.num(y) for y in ix.a[:2])
                    if not (0 <= i < x.r and 0 <= j < x.c):
                        raise Und('index')
                    k = i * x.c + j
                else:
                    k = self.num(ix)
                if not 0 <= k < len(x.d):
                    raise Und('index %d of %d' % (k, len(x.d)))
                y = A(x.r, x.c, x.d)
                y.d[k] = v
                return y
            if isinstance(x, L):
                k = self.num(ix)
                if not 0 <= k < len(x):
                    raise Und('index')
                y = L(x)
                y[k] = v
                return y
        if s.op == 'sub' and isinstance(x, A):
            k = [self.num(y) for y in s.a[2:] if isinstance(y, T)]
            y = A(x.r, x.c, x.d)
            if s.a[1] == 'row' and 0 <= k[0] < x.r:
                if not isinstance(v, A) or len(v.d) != x.c:
                    raise Und('row shape')
                for j in range(x.c):
                    y.d[k[0] * x.c + j] = v.d[j]
                return y
            if s.a[1] == 'col' and 0 <= k[0] < x.c:
                if not isinstance(v, A) or len(v.d) != x.r:
                    raise Und('column shape')
                for i in range(x.r):
                    y.d[i * x.c + k[0]] = v.d[i]
                return y
            if s.a[1] in ('segment', 'head', 'tail') and (x.r == 1 or x.c == 1) and k:
                n = len(x.d)
                p, m = (0, k[0]) if s.a[1] == 'head' else (n - k[0], k[0]) if s.a[1] == 'tail' else (k[0], k[1])
                if p < 0 or p + m > n or isinstance(v, A) and len(v.d) != m:
                    raise Outside('part outside')
                y.d[p:p + m] = v.d if isinstance(v, A) else [v] * m
                return y
            box = block_of(x, s.a[1], k)
            if box is not None and isinstance(v, A) and (v.r, v.c) == box[2:]:
                for i in range(v.r):
                    for j in range(v.c):
                        y.d[(box[0] + i) * x.c + box[1] + j] = v.at(i, j)
                return y
            if s.a[1] in ('colwise', 'rowwise') and isinstance(v, A) and (v.r, v.c) == (x.r, x.c):
                return v
        raise Und('store %s' % show(s, 3))

    def call(self, f, a):
        n = f.split('::')[-1]
        a = [x for x in a if not (x.op == 'default' or x.op == 'call' and str(x.a[0]) == 'default')]
        if f.startswith('cpb::constant::') and n in CONST and not a:
            return CONST[n]
        if n == 'ctor':
            if 'complex' in f and len(a) == 2:
                return complex(self.ev(a[0]), self.ev(a[1]))
            v = [self.ev(x) for x in a]
            if f.startswith('std::vector') and len(v) in (1, 2) and type(v[0]) is int:
                return L([v[1] if len(v) == 2 else None] * v[0])
            if len(v) == 1 and isinstance(v[0], (A, L, complex)):
                return v[0]
            if ('Array' in f or 'Matrix' in f) and len(v) in (1, 2) and all(type(x) is int for x in v):
                r, c = (v + [1])[:2]
                return A(r, c, [None] * (r * c))
            if len(v) == 1:
                return v[0]
            raise Und(f)
        v = [self.ev(x) for x in a]
        if n in UNARY and len(v) == 1:
            return UNARY[n](v[0])
        if n in ('transpose', 'adjoint', 'conj') and len(v) == 1:
            return UNARY[n](v[0])
        if n in REDUCE and len(v) == 1:
            if not isinstance(v[0], (A, V)) or isinstance(v[0], A) and not v[0].d:
                raise Und(n)
            return REDUCE[n](v[0])
        if n in ('rows', 'cols', 'size') and len(v) == 1 and isinstance(v[0], A):
            return v[0].r if n == 'rows' else v[0].c if n == 'cols' else len(v[0].d)
        if n == 'size' and len(v) == 1:
            return self.size(v[0])
        if n == 'make_integer_range' and len(v) == 1:
            return vec([float(i) for i in range(int(v[0]))])
        if n == 'LinSpaced' and len(v) == 3:
            k = int(v[0])
            return vec([v[1] + (v[2] - v[1]) * i / max(k - 1, 1) for i in range(k)])
        if n in ('Ones', 'Zero') and v and all(type(x) is int for x in v):
            r, c = (v + [1])[:2]
            return A(r, c, [1.0 if n == 'Ones' else 0.0] * (r * c))
        if n == 'Constant' and len(v) == 2 and type(v[0]) is int:
            return A(v[0], 1, [v[1]] * v[0])
        if n == 'replicate' and len(v) == 3 and isinstance(v[0], A):
            x, p, q = v
            return A(x.r * p, x.c * q, [x.at(i % x.r, j % x.c) for i in range(x.r * p) for j in range(x.c * q)])
        if n == 'dot' and len(v) == 2:
            x, y = v
            if isinstance(x, A) and isinstance(y, A) and len(x.d) == len(y.d):
                return sum(conj(p) * q for p, q in zip(x.d, y.d))
        if n in ('pow',) and len(v) == 2:
            return binary(lambda p, q: p ** q, v[0], v[1])
        if n in ('min', 'max') and len(v) == 2:
            return binary(min if n == 'min' else max, v[0], v[1])
        if n in ('cwiseProduct',) and len(v) == 2:
            return binary(lambda p, q: p * q, v[0], v[1])
        if n in ('cwiseQuotient',) and len(v) == 2:
            return binary(lambda p, q: p / q, v[0], v[1])
        raise Und('call ' + f)
