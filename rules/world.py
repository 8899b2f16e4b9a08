"""Sample points for structured values: foundations, sites, lattices.  Terms are evaluated at random points (rand.py); loops are not run: the
values they carry are leaves with a given value (one generic pass), and whether a pass reaches an event is its path condition at the point."""
import functools, math, random
from emit import *
from c05 import graph, pick, arg
from rand import Interp, A, L as Lst, Und, vec, same, binary
from q import loop_body

THIS = mk('root', 'this', 0, 'this')


class Rec:
    """value of a class type"""
    def __init__(self, **f):
        self.f = f

    def __repr__(self):
        return 'Rec' + str(sorted(self.f))


class It:
    """iterator into a container"""
    def __init__(self, c, k):
        self.c, self.k = c, k


def unchecked(t):
    """the object before dangling sites are removed from it (which only changes the states)"""
    while t.op == 'upd' and 'remove_dangling' in str(t.a[1]):
        t = t.a[2]
    return t


def strip_ref(t):
    while t.op in ('deref', 'addr', 'conv', 'cast') and t.a and isinstance(t.a[-1], T):
        t = t.a[-1]
    return t


def roots(t):
    while t.op in ('fld', 'elem', 'deref', 'sub') and isinstance(t.a[0], T):
        t = t.a[0]
    return t


class Names:
    """names of the fields behind the public accessors of a class"""
    def __init__(self, P):
        self.P, self.memo = P, {}

    def term(self, qn, **kw):
        for f in pick(self.P, qn, **kw):
            try:
                g, w = graph(self.P, f)
            except Exception:
                continue
            ex = [n for n in g.nodes if n.kind == 'exit']
            if len(ex) == 1 and isinstance(ex[0].d.get('ret'), T):
                return ex[0].d['ret']
        return None

    def __call__(self, qn, default=None, **kw):
        k = qn
        if k not in self.memo:
            t = self.term(qn, **kw)
            r = None
            while t is not None:
                t = strip_ref(t)
                if t.op == 'fld' and isinstance(t.a[0], T):
                    if roots(t) is THIS or strip_ref(t.a[0]).op == 'fld':
                        r = t.a[1]
                    break
                if t.op in ('elem', 'size') and isinstance(t.a[0], T):
                    t = t.a[0]
                    continue
                break
            self.memo[k] = r or default
        return self.memo[k]


class World(Interp):
    """vals: terms with a given value (roots, loop values)"""

    whole = False       # loops that compute a value are unrolled (their sizes are those of the sample point)

    search = None       # the container in which a search that names none looks

    def __init__(self, g, w, vals, extra=None, whole=False):
        Interp.__init__(self, g, w, self._leaf)
        self.whole = whole
        self.vals, self.extra = vals, extra

    def _leaf(self, t, I):
        if t in self.vals:
            v = self.vals[t]
            return None if v is None else v
        if self.extra is not None:
            return self.extra(t, self)
        return None

    def loop(self, lv):
        if not self.whole:
            raise Und('loop value %s' % show(lv, 4))
        return Interp.loop(self, lv)

    def _ev(self, t):
        o, a = t.op, t.a
        if o == 'fld' and unchecked(a[0]).op == 'obj':
            b = unchecked(a[0])
            for k, v in reversed(b.a[1:]):
                if k == a[1] or isinstance(k, T) and k.op == 'fld' and k.a[1] == a[1] and k.a[0] is container_place_of(b):
                    return self.ev(v)
        if o == 'fld':
            b = self.ev(a[0])
            if isinstance(b, Rec):
                if a[1] in b.f:
                    return b.f[a[1]]
                raise Und('field %s' % a[1])
            if isinstance(b, A) and len(b.d) <= 4 and a[1] in ('x', 'y', 'z', 'w'):
                return b.d['xyzw'.index(a[1])]
            if a[1] in ('_value', 'value'):
                return b
            raise Und('field %s of %s' % (a[1], show(a[0], 3)))
        if o == 'iter' and len(a) == 2:
            try:
                c = self.ev(a[0])
            except Und:
                if a[1].op == 'endpos':
                    raise
                c = None        # a place whose value is not needed
            return It(c, self.size(c) if a[1].op == 'endpos' else self.position(a[0], a[1]))
        if o == 'deref' and len(a) == 1:
            v = self.ev(a[0])
            if type(v) is int and self.iterated(a[0]) is not None:
                v = It(self.ev(self.iterated(a[0])), v)
            return v.c[v.k] if isinstance(v, It) and isinstance(v.c, list) else v
        if o == 'op' and len(a) == 2 and a[0] in ('++', '--'):
            v = self.ev(a[1])
            d = 1 if a[0] == '++' else -1
            return It(v.c, v.k + d) if isinstance(v, It) else v + d
        if o == 'upd' and a[1] == 'setConstant' and len(a) == 4:
            x = self.ev(a[2])
            c = self.ev(a[3])
            return x.map(lambda _: c)
        if o == 'upd' and a[1] in ('sort', 'stable_sort') and len(a) == 4:
            x = self.ev(a[2])
            if not isinstance(x, list):
                raise Und('sorted range')
            y = list(x)
            if a[1] == 'sort':
                random.Random(1).shuffle(y)         # equal elements in any order
            return Lst(sorted(y, key=functools.cmp_to_key(lambda p, q: -1 if self.before(a[3], p, q) else 1 if self.before(a[3], q, p) else 0)))
        if o == 'upd' and a[1] in ('push_back', 'emplace_back') and len(a) == 4:
            x = self.ev(a[2])
            if not isinstance(x, list):
                raise Und('appended range')
            return Lst(list(x) + [self.ev(a[3])])
        if o == 'elem' and a[0].op == 'lv' and a[0] not in self.vals:
            x = self.ev(a[0])
            if type(x) in (int, float) or isinstance(x, Rec) and set(x.f) == {'start', 'end'}:
                return x            # all elements have this value
        if o == 'elem' and a[1].op == 'findpos':
            c = self.ev(a[0])
            k = self.position(a[0], a[1])
            return c[k] if 0 <= k < len(c) else self.fail('element at the end')
        if o == 'findpos':
            raise Und('search position')
        if o == 'eq' and any(x.op == 'endpos' for x in a):
            return self.ends(*a)
        if o == 'eq':
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, It) or isinstance(y, It):
                return getattr(x, 'k', x) == getattr(y, 'k', y)
            if isinstance(x, (A, Rec)) and isinstance(y, (A, Rec)) and type(x) is type(y):
                return (x.d == y.d) if isinstance(x, A) else x.f == y.f
            return x == y if isinstance(x, str) or isinstance(y, str) else same(x, y, 1e-12)
        if o == 'not':
            x = self.ev(a[0])
            return x.map(lambda v: not v) if isinstance(x, A) else not x
        if o == 'addr' and a[0].op != 'elem':
            return self.ev(a[0])
        if o == 'op' and len(a) == 3 and a[0] == '/':
            x, y = self.ev(a[1]), self.ev(a[2])

            def div(p, q):
                if isinstance(p, int) and isinstance(q, int):
                    return int(p / q)       # C++ truncates
                return p / q
            return binary(div, x, y)
        if o == 'obj' and a[0].op != 'lv' and (a[0].op in ('type', 'root', 'c') or not self.evaluable(a[0])):
            return self.record(t)
        if o == 'anyof' and len(a) == 2:
            return any(self.holds(a[1], e) for e in self.ev(a[0]))
        if o == 'mod' and len(a) == 2:
            return int(math.fmod(self.num(a[0]), self.num(a[1])))
        return Interp._ev(self, t)

    def iterated(self, t):
        """container of an iterator that is a loop value"""
        i = self.w.lvinfo.get(t)
        return i[0].a[0] if i and i[0].op == 'iter' else None

    def fail(self, s):
        raise Und(s)

    def record(self, t):
        f = {}
        for e in t.a[1:]:
            k, v = e if isinstance(e, tuple) else (None, None)
            if isinstance(k, str):
                f[k] = self.ev(v)
            elif isinstance(k, T) and k.op == 'fld':
                f[k.a[1]] = self.ev(v)
            else:
                raise Und('object')
        return Rec(**f)

    def object(self, t):
        try:
            b = self.ev(t.a[0])
        except Und:
            return self.record(t)
        if isinstance(b, Rec):
            r = Rec(**b.f)
            base = container_place_of(t.a[0])
            for k, v in t.a[1:]:
                x = self.ev(v)
                if isinstance(k, str):
                    r.f[k] = x
                    continue
                if k.op == 'elem':
                    # one of the elements which all had the same value
                    m = [n for n, y in r.f.items() if isinstance(y, (list, A, Rec))]
                    if len(r.f) == 1 and m:
                        r.f[m[0]] = self.put(r.f[m[0]], [k], x)
                        continue
                    if set(r.f) != {'start', 'end'}:
                        raise Und('object')
                    y = r
                    for k, v in t.a[1:]:
                        if k.op != 'elem':
                            raise Und('object')
                        y = self.put(y, [k], self.ev(v))
                    return y
                if not (k.op == 'fld'):
                    raise Und('object')
                r.f[k.a[1]] = x
            return r
        return Interp.object(self, t)

    def position(self, c, p):
        if p.op == 'findpos':
            if len(p.a) == 1:
                pr = p.a[0]
                try:
                    x = self.ev(c)
                except Und:
                    own = set(s.a[0] for s in subterms(pr) if s.op == 'elem' and isinstance(s.a[1], T) and s.a[1].op == 'it')
                    if len(own) != 1:
                        raise
                    x = self.ev(own.pop())      # the value of the container at the time of the search
                for k, e in enumerate(x):
                    if self.holds(pr, e):
                        return k
                return len(x)
            raise Und('search')
        return self.num(p)

    def holds(self, pred, e):
        its = [s for s in subterms(pred) if s.op == 'elem' and s.a[1].op == 'it'] + [s for s in subterms(pred) if s.op == 'it']
        env, memo = self.env, self.memo
        self.bind(dict(env))
        try:
            for s in its:
                self.env[s] = e
            return bool(self.ev(pred))
        finally:
            self.env, self.memo = env, memo

    def before(self, pred, p, q):
        env, memo = self.env, self.memo
        self.bind(dict(env))
        try:
            for s in subterms(pred):
                if s.op in ('it', 'it2') or s.op == 'elem' and isinstance(s.a[1], T) and s.a[1].op in ('it', 'it2'):
                    self.env[s] = p if (s.op if s.op != 'elem' else s.a[1].op) == 'it' else q
            return bool(self.ev(pred))
        finally:
            self.env, self.memo = env, memo

    def ends(self, x, y):
        e, o = (x, y) if x.op == 'endpos' else (y, x)
        if e.op != 'endpos':
            raise Und('search positions')
        if o.op == 'findpos' and self.search is not None:
            return self.position(self.search, o) == len(self.ev(self.search))
        if o in self.vals and isinstance(self.vals[o], It):
            return self.vals[o].k == len(self.vals[o].c)
        i = self.w.lvinfo.get(o)
        if i and i[0].op == 'iter':
            try:
                c = self.ev(i[0].a[0])
            except Und:
                c = self.traversed(o)
            return self.num(o) == self.size(c)
        raise Und('range end')

    def traversed(self, lv):
        """value of the container whose elements are read at a position"""
        memo = self.w.__dict__.setdefault('_reads', {})
        if lv not in memo:
            memo[lv] = set()
            for n in self.g.nodes:
                for t in (getattr(n, 'cond', None), getattr(n, 'value', None)) + tuple(n.args if n.kind in ('mut', 'call') else ()):
                    if isinstance(t, T):
                        memo[lv] |= set(x.a[0] for x in subterms(t) if x.op == 'elem' and x.a[1] is lv)
            for x in self.w.lvinfo.values():
                for t in x:
                    memo[lv] |= set(y.a[0] for y in subterms(t) if y.op == 'elem' and y.a[1] is lv)
        for c in sorted(memo[lv], key=lambda t: t.id):
            try:
                v = self.ev(c)
            except Und:
                continue
            if isinstance(v, (list, A)):
                return v
        raise Und('range of %s' % show(lv, 3))

    def cond(self, c, lid):
        if c.op == 'eq' and any(x.op == 'endpos' for x in c.a):
            o = next((x for x in c.a if x.op != 'endpos'), None)
            i = self.w.lvinfo.get(o)
            if i and i[0].op == 'iter' and mk('lv', lid, i[0].a[0]) not in self.w.lvinfo:
                return self.ends(*c.a)
        return Interp.cond(self, c, lid)

    def put(self, x, steps, v):
        if type(x) in (int, float) and len(steps) == 1 and steps[0].op == 'elem':
            x = vec([x] * 3)        # setZero() and the like
        if isinstance(x, Rec) and set(x.f) == {'start', 'end'} and len(steps) == 1 and steps[0].op == 'elem':
            x = Lst(Rec(**x.f) for _ in range(3))
        return Interp.put(self, x, steps, v)

    def call(self, f, a):
        n = f.split('::')[-1]
        b = [x for x in a if not (x.op == 'default' or x.op == 'call' and str(x.a[0]) == 'default')]
        if n == 'accumulate' and len(b) in (3, 5):
            return self.fold(b)
        if n in ('tie', 'make_tuple', 'make_pair', 'forward_as_tuple') and b:
            return tuple(self.num(x) for x in b)
        if n == 'ctor' and ('Matrix' in f or 'Array' in f) and len(b) == 3:
            return vec([self.ev(x) for x in b])
        if n in ('any', 'all') and len(b) == 1:
            x = self.ev(b[0])
            if isinstance(x, A):
                return (any if n == 'any' else all)(bool(v) for v in x.d)
            raise Und(n)
        if n in ('any_of', 'all_of', 'none_of') and len(b) == 1:
            x = self.ev(b[0])
            if isinstance(x, A):
                y = [bool(v) for v in x.d]
                return any(y) if n == 'any_of' else all(y) if n == 'all_of' else not any(y)
        if n == 'count' and len(b) == 1:
            return sum(bool(v) for v in self.ev(b[0]).d)
        if n in ('cwiseMax', 'cwiseMin') and len(b) == 2:
            return binary(max if n == 'cwiseMax' else min, self.ev(b[0]), self.ev(b[1]))
        if n == 'cwiseAbs' and len(b) == 1:
            return self.ev(b[0]).map(abs)
        if n in ('round', 'lround') and len(b) == 1:
            x = self.ev(b[0])
            return float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)
        if n == 'ceil' and len(b) == 1:
            return float(math.ceil(self.ev(b[0])))
        if n == 'Zero' and not b:
            return vec([0, 0, 0])
        if n in ('epsilon', 'min') and not b and 'numeric_limits' in f:
            return 1.2e-7 if n == 'epsilon' else 1.2e-38
        if n == 'Ones' and not b:
            return vec([1, 1, 1])
        if n == 'isZero' and b:
            return all(abs(v) < 1e-12 for v in self.ev(b[0]).d)
        if n in ('min', 'max') and len(b) == 2:
            return (min if n == 'min' else max)(self.ev(b[0]), self.ev(b[1]))
        if n == 'distance' and len(b) == 2:
            x, y = self.ev(b[0]), self.ev(b[1])
            if isinstance(x, It) and isinstance(y, It):
                return y.k - x.k
        if n == 'select' and len(b) == 3:
            c, x, y = (self.ev(v) for v in b)
            return A(c.r, c.c, [(x.d[i] if isinstance(x, A) else x) if v else (y.d[i] if isinstance(y, A) else y) for i, v in enumerate(c.d)])
        if n == 'Constant' and len(b) == 1:
            return vec([self.ev(b[0])] * 3)
        if n in ('as', 'value') and len(b) == 1:
            return self.ev(b[0])
        if n == 'cast' and len(b) == 1:
            return self.ev(b[0])
        return Interp.call(self, f, a)

    def fold(self, b):
        c, acc = self.ev(b[0]), self.ev(b[1])
        c = c.d if isinstance(c, A) else c
        lo, hi = 0, len(c)
        if len(b) == 5:
            lo, hi = (len(c) if x.op == 'iter' and x.a[1].op == 'endpos' else self.num(x.a[1] if x.op == 'iter' else x) for x in b[3:])
        if b[2].op == 'plus':
            for x in c[lo:hi]:
                acc = binary(lambda p, q: p + q, acc, x)
            return acc
        its = [s for s in subterms(b[2]) if s.op == 'it' or s.op == 'elem' and isinstance(s.a[1], T) and s.a[1].op == 'it']
        av = [s for s in subterms(b[2]) if s.op == 'lv' and self.w.lvinfo.get(s) and self.w.lvinfo[s][0] is b[1]]
        if not its or len(av) != 1:
            raise Und('accumulate')
        env, memo = self.env, self.memo
        for k in range(lo, hi):
            self.bind(dict(env))
            self.env[av[0]] = acc
            for s in its:
                self.env[s] = c[k]
            acc = self.ev(b[2])
        self.env, self.memo = env, memo
        return acc

    def num(self, t):
        x = self.ev(t)
        if isinstance(x, It):
            return x.k
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, float) and x == int(x):
            x = int(x)
        if not isinstance(x, int):
            raise Und('index %s' % show(t, 4))
        return x


def container_place_of(b):
    while b.op == 'obj':
        b = b.a[0]
    return b


# --------------------------------------------------------------------------------------------------- paths
def walk_to(g, start, target, I, stop=(), limit=4000):
    """does the path which the sample point takes from the node `start` arrive at `target` (loops around the target are entered, others are
    left out)? -> True/False"""
    n, k, seen = start, 0, set()
    while True:
        if n is target:
            return True
        if n.kind == 'loop':
            if n.id in seen:
                return False        # one pass
            seen.add(n.id)
        if k and n.id in stop or n.kind in ('exit', 'exitthrow'):
            return False
        k += 1
        if k > limit:
            raise Und('path too long')
        if n.kind == 'loop' and k > 1:
            b = body_of(g, n)
            if target.id not in b:
                outs = sorted(set((m.id, m) for x in g.nodes if x.id in b for m, _ in x.succ if m.id not in b and not throws(m)),
                              key=lambda z: z[0])
                n = outs[0][1] if len(outs) == 1 else search_loop(g, n, b, I)
                continue
            if n.id in stop:
                return False
        if n.kind == 'branch':
            labs = set(lab for _, lab in n.succ)
            if len(set(m.id for m, _ in n.succ)) == 1:
                n = n.succ[0][0]
                continue
            # a loop head test of a loop around the target is taken as staying in the loop
            v = bool(I.cond_value(n))
            nx = [m for m, lab in n.succ if lab == v]
            if len(nx) != 1:
                raise Und('branch')
            n = nx[0]
            continue
        nx = [m for m, lab in n.succ if m.kind != 'exitthrow' and lab != 'throw']
        if len(nx) > 1:
            nx = [m for m in nx if not throws(m)] or nx
        if len(nx) != 1:
            if not nx:
                return False
            raise Und('fork at %s' % n.kind)
        n = nx[0]


def search_loop(g, h, b, I):
    """where a loop without effects, which ends early when it finds something, goes on at the sample point"""
    lv = [x for x in I.w.lvinfo if x.a[0] == h.lid]
    if len(lv) != 1 or any(x.kind in ('mut', 'call') or x.kind == 'write' and x.place is not lv[0].a[1] for x in g.nodes if x.id in b):
        raise Und('loop with several exits on the path')
    if not (I.w.lvinfo[lv[0]][0].op == 'iter' or show(I.w.lvinfo[lv[0]][0], 2) == '0'):
        raise Und('loop with several exits on the path')
    env, vals = I.memo, I.vals
    try:
        for k in range(200):
            I.memo, I.vals = {}, dict(vals)
            I.vals[lv[0]] = k
            n = h
            while True:
                if n.kind == 'branch':
                    v = bool(I.ev(n.cond))
                    nx = [m for m, lab in n.succ if lab == v]
                else:
                    nx = [m for m, lab in n.succ if m.kind != 'exitthrow' and lab != 'throw']
                if len(nx) != 1:
                    raise Und('fork in a search')
                n = nx[0]
                if n.id not in b:
                    return n
                if n is h:
                    break
    finally:
        I.memo, I.vals = env, vals
    raise Und('length of a search')


def throws(m):
    seen = set()
    while m.id not in seen:
        seen.add(m.id)
        if m.kind in ('throw', 'exitthrow'):
            return True
        if len(m.succ) != 1:
            return False
        m = m.succ[0][0]
    return False


def cond_value(self, n):
    """truth of a branch; the test of the head of an active loop is true of the pass which is looked at"""
    for h in self.active:
        b = body_of(self.g, h)
        if n.id in b and any(m.id not in b for m, _ in n.succ) and is_head_test(self.g, h, n):
            stay = [lab for m, lab in n.succ if m.id in b]
            return stay[0]
    c = n.cond
    return self.ev(c)


def is_head_test(g, h, n):
    """first branch after the loop head"""
    m, k = h, 0
    while k < 50:
        if m is n:
            return True
        if m.kind == 'branch' or len(m.succ) != 1:
            return False
        m, k = m.succ[0][0], k + 1
    return False


World.cond_value = cond_value
World.active = ()
