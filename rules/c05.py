"""Input outside its documented domain ends in an exception, not in a result."""
import math
from common import *
from emit import body_of, loops_of, counter, bound_of, lvs

LEVEL = 'other'
RULE = ('For each public function of the table and each kind of invalid argument: with every condition of the inlined flow graph that '
        'the kind of argument decides replaced by its value, no path leads from the entry to a normal return (each one ends in a throw), '
        'and no state of the object is written before the throw.  Loops that look for the offending element start at the first and '
        'end at the last element.')
EXPLAIN = 'Path queries on inlined flow graphs with conditions decided by representatives of the invalid argument.'
ASSUME = ['exceptions thrown are not swallowed by the caller']

NEG_INF = -10 ** 9


def arg(i):
    return mk('root', 'param', 0, 'p%d' % i)


def base_root(t):
    while isinstance(t, T) and t.op in PLACE_OPS and t.op != 'root':
        t = t.a[0]
    return t


def has(t, x):
    return isinstance(t, T) and (t is x or contains(t, lambda y: y is x))



REDUCE = {'any': any, 'all': all, 'minCoeff': min, 'maxCoeff': max, 'allFinite': all, 'sum': sum, 'mean': lambda x: sum(x) / len(x),
          'norm': lambda x: sum(y * y for y in x) ** .5, 'squaredNorm': lambda x: sum(y * y for y in x), 'prod': math.prod,
          'count': lambda x: sum(map(bool, x)), 'isZero': lambda x: all(y == 0 for y in x)}


def broadcast(f, *xs):
    """f of numbers or, element by element, of vectors (tuples)"""
    if None in xs:
        return None
    n = [len(x) for x in xs if isinstance(x, tuple)]
    if not n:
        return f(*xs)
    if len(set(n)) > 1:
        return None
    return tuple(f(*[x[i] if isinstance(x, tuple) else x for x in xs]) for i in range(n[0]))


def evaluate(t, leaf, memo):
    """value of a condition or number when the case decides it, else None"""
    if not isinstance(t, T):
        return None
    if t in memo:
        return memo[t]
    memo[t] = None
    memo[t] = r = _evaluate(t, leaf, memo)
    return r


def _evaluate(t, leaf, memo):
    if t.op in ('c', 'cb', 'cf'):
        return t.a[0]
    v = leaf(t)
    if v is not None:
        return v
    ev_ = lambda x: evaluate(x, leaf, memo)
    a = t.a
    if t.op == 'not':
        x = ev_(a[0])
        return broadcast(lambda x: not x, x)
    if t.op in ('and', 'or'):
        xs = [ev_(x) for x in a]
        if t.op == 'and':
            return False if any(x is not None and not x for x in xs) else None if None in xs else True
        return True if any(x for x in xs if x is not None) else None if None in xs else False
    if t.op == 'eq':
        x, y = ev_(a[0]), ev_(a[1])
        if isinstance(x, tuple) and isinstance(y, tuple):
            return x == y
        return broadcast(lambda x, y: x == y, x, y)
    if t.op == 'lt':
        return broadcast(lambda x, y: x < y, ev_(a[0]), ev_(a[1]))
    if t.op in ('add', 'mul', 'prod'):
        r = 0 if t.op == 'add' else 1
        for x in a:
            r = broadcast((lambda x, y: x + y) if t.op == 'add' else (lambda x, y: x * y), r, ev_(x))
        return r
    if t.op == 'sub':       # part of a vector
        x = ev_(a[0])
        if not isinstance(x, tuple):
            return x
        k = [ev_(y) for y in a[2:] if isinstance(y, T)]
        if any(not isinstance(y, int) for y in k):
            return None
        if a[1] == 'head' and len(k) == 1:
            return x[:k[0]]
        if a[1] == 'tail' and len(k) == 1:
            return x[len(x) - k[0]:]
        if a[1] == 'segment' and len(k) == 2:
            return x[k[0]:k[0] + k[1]]
        return None
    if t.op == 'elem':
        x, k = ev_(a[0]), ev_(a[1])
        return x[k] if isinstance(x, tuple) and isinstance(k, int) and 0 <= k < len(x) else None
    if t.op == 'sel':
        c = ev_(a[0])
        if c is None:
            x, y = ev_(a[1]), ev_(a[2])
            return x if x is not None and x == y else None
        return ev_(a[1] if c else a[2])
    if t.op in ('min', 'max'):
        xs = [ev_(x) for x in a]
        return None if None in xs else (min if t.op == 'min' else max)(xs)
    if t.op in ('anyof', 'allof') and len(a) == 2:
        l = a[0]
        if l.op == 'list':      # a literal list: each of its elements
            def at(v):
                return subst(a[1], lambda x: v if x.op == 'elem' and x.a[0] is l else None)
            vs = [ev_(at(v)) for v in l.a if isinstance(v, T)]
            hit = t.op == 'anyof'
            return hit if hit in [None if v is None else bool(v) for v in vs] else None if None in vs or not vs else not hit
        return ev_(a[1])
    if t.op == 'call' and len(a) >= 2:
        f = str(a[0])
        n = f.split('::')[-1]
        if n in ('abs', 'cwiseAbs', 'fabs', 'labs') and len(a) == 2:
            return broadcast(abs, ev_(a[1]))
        if n in REDUCE and len(a) == 2:
            x = ev_(a[1])
            if isinstance(x, tuple):
                return REDUCE[n](x) if len(x) else None
            return x if n not in ('squaredNorm', 'sum', 'norm', 'prod', 'count', 'size', 'rows') else None
        if n in ('cwiseProduct', 'dot') and len(a) == 3:
            x = broadcast(lambda x, y: x * y, ev_(a[1]), ev_(a[2]))
            return sum(x) if n == 'dot' and isinstance(x, tuple) else x if n == 'cwiseProduct' else None
        if n in ('min', 'max', 'cwiseMin', 'cwiseMax') and len(a) == 3:
            return broadcast(min if 'in' in n else max, ev_(a[1]), ev_(a[2]))
    if t.op in ('cast', 'conv') and a:
        return ev_(a[-1])
    return None


def scalar(v):
    return None if isinstance(v, tuple) else v


def dead_sides(g):
    """guards: (branch, labels of the sides on which no normal return is possible)"""
    m = g.__dict__.get('_dead')
    if m is None:
        ok = reachable([n for n in g.nodes if n.kind == 'exit'], succ='pred') | set(n.id for n in g.nodes if n.kind == 'exit')
        m = {}
        for n in g.nodes:
            if n.kind == 'branch' and n.id in ok:
                d = [lab for k, lab in n.succ if k.id not in ok]
                if d:
                    m[n.id] = d
        g._dead = m
    return m


class Case:
    def __init__(self, name, leaf, doubt=None, effect=True, culprit=None, what=None):
        self.name, self.leaf, self.doubt, self.effect, self.culprit, self.what = name, leaf, doubt, effect, culprit, what


def literal_elements(t):
    """conditions for each element when t speaks about a running element of a literal list"""
    l = [x for x in subterms(t) if x.op == 'elem' and x.a[0].op in ('list', 'obj') and x.a[0].op == 'list' and x.a[1].op in ('lv', 'it')]
    if not l:
        return None
    e = l[0]
    out = []
    for v in e.a[0].a:
        if isinstance(v, T):
            out.append(subst(t, lambda x, v=v: v if x is e else None))
    return out


def decide(R, P, fn, g, w, case, label):
    dead = dead_sides(g)
    memos = {}
    byid = {n.id: n for n in g.nodes}
    lheads = {n.lid: n for n in g.nodes if n.kind == 'loop'}

    def value(t, n):
        """value of t at node n; loop-carried flags of loops which are over have the value the offending element gives them"""
        around = frozenset(h.lid for h in loops_of(g, n))
        return scalar(evaluate(t, lambda x: leaf(x, around), memos.setdefault(around, {})))

    busy = set()

    def leaf(t, around):
        v = case.leaf(t)
        if v is not None or t.op != 'lv' or t.a[0] in around or t in busy:
            return v
        i = w.lvinfo.get(t)
        h = lheads.get(t.a[0])
        if not i or len(i) < 2 or h is None:
            return None
        busy.add(t)
        try:
            v0 = value(i[0], h)
            if not isinstance(v0, bool):
                return None
            inner = around | {t.a[0]}
            vs = []
            for x in i[1:]:
                vs.append(evaluate(x, lambda y: v0 if y is t else leaf(y, inner), {}))
            if None in vs:
                return None
            v1 = [v for v in vs if v != v0]
            if not v1:
                return v0
            if len(v1) != len(vs) or whole_range(g, w, h, case, {}) != 'whole':
                return None
            vs = [evaluate(x, lambda y: v1[0] if y is t else leaf(y, inner), {}) for x in i[1:]]
            return v1[0] if all(v == v1[0] for v in vs) else None
        finally:
            busy.discard(t)
    memo = memos.setdefault(frozenset(), {})
    val = {}
    for n in g.nodes:
        if n.kind == 'branch':
            xs = None if n.cond.op in ('anyof', 'allof', 'not') and contains(n.cond, lambda t: t.op in ('anyof', 'allof')) else \
                literal_elements(n.cond)
            if xs and n.id in dead and len(dead[n.id]) == 1:
                vs = [value(x, n) for x in xs]
                hit = [v for v in vs if v is not None and bool(v) == dead[n.id][0]]
                v = dead[n.id][0] if hit else None if None in vs else (not dead[n.id][0])
            else:
                v = value(n.cond, n)
            if v is not None:
                val[n.id] = bool(v)
    # guards that fire
    fires = [byid[i] for i, d in dead.items() if val.get(i) is not None and val[i] in d]
    # loops which look for the offending element
    forced = {}
    for n in fires:
        for h in loops_of(g, n):
            forced[h.id] = h
    blockexit = set()
    odd = []
    for h in forced.values():
        b = body_of(g, h)
        r = whole_range(g, w, h, case, {})
        if r is not None and r.startswith('misses'):
            for n in g.nodes:
                if n.id in b and n in fires:
                    val[n.id] = not dead[n.id][0]
            continue
        if r == 'whole':
            for n in g.nodes:
                if n.id in b and n.kind == 'branch' and is_head(g, h, n):
                    blockexit.add(n.id)
        elif r is not None:
            odd.append((h, r))
    lim = set()

    def mentions(t):
        for x in deep(w, t):
            if x.op in ('c', 'cb', 'cf', 'endpos', 'lv'):
                continue
            if x.op == 'phi' or case.leaf(x) is not None:
                return True
        return False
    undec = {}
    for i, d in dead.items():
        if i not in val and mentions(byid[i].cond):
            undec[i] = d

    def blocked(strict):
        def f(a, m, lab):
            if a.kind != 'branch':
                return False
            if a.id in val and val[a.id] != lab:
                return True
            if a.id in blockexit:
                bs = [body_of(g, h) for h in forced.values() if a.id in body_of(g, h)]
                if any(m.id not in b for b in bs):
                    return True
            if not strict and a.id in undec:
                return True
            return False
        return f
    key = '%s: %s' % (label, case.name)
    s = Search(g)
    p = s.find([g.entry], goal=lambda n: n.kind == 'exit', avoid_edge=blocked(False))
    if p:
        odd = [x for x in odd if x[0] in p]
        if odd:
            R.unknown('%s: range of the loop at %s: %s' % (key, odd[0][0].loc(), odd[0][1]))
            return
        db = [n for n in p if n.kind == 'branch' and n.id not in val and case.doubt and case.doubt(n.cond)]
        if db:
            R.unknown('%s: depends on %s at %s' % (key, show(db[0].cond)[:60], db[0].loc()))
            return
        R.bad(key, '%s accepts %s: it returns normally instead of throwing' % (fn.qn.replace('cpb::', ''), case.what or case.name),
              describe([n for n in p if n.kind in ('entry', 'branch', 'exit', 'loop')], 10) + ['%s:%d' % (fn.file, fn.line)])
        return
    p = s.find([g.entry], goal=lambda n: n.kind == 'exit', avoid_edge=blocked(True))
    if p:
        u = [n for n in p if n.id in undec]
        R.unknown('%s: guard %s at %s' % (key, show(u[0].cond)[:80] if u else '?', u[0].loc() if u else '?'))
        return
    R.ok(key)
    if not case.effect:
        return
    # nothing is changed before the throw
    blk = blocked(True)
    for n in g.nodes:
        if n.kind in ('write', 'mut') and n.get('place') is not None and of_this(n.place):
            if fn.decl.ctor:
                continue
            if n.kind == 'mut' and n.method in ('reserve', 'tic', 'toc'):
                continue
            if fresh_insert(n):
                continue
            p = Search(g).find([g.entry], goal=lambda m: m is n, avoid_edge=blk)
            if p:
                # does some execution with this argument throw afterwards because of it?
                q = Search(g).find([n], goal=lambda m: m.kind == 'throw', avoid_edge=blk)
                if q:
                    R.bad('%s: %s before the exception' % (key, '.'.join(of_this(n.place))),
                          '%s changes `%s` before it rejects %s' % (fn.qn.replace('cpb::', ''), '.'.join(of_this(n.place)),
                                                                   case.what or case.name), [n.where()] + describe(q, 6))
                    return


def fresh_insert(n):
    """insertion into a map which does nothing when the key exists"""
    return n.kind == 'mut' and n.method in ('insert', 'emplace', 'try_emplace')


def is_head(g, h, n):
    """is n the condition of the loop h (the first branch executed in an iteration)?"""
    b = body_of(g, h)
    x = h
    seen = set()
    while x.id not in seen:
        seen.add(x.id)
        if x.kind == 'branch':
            if any(m.id not in b for m, _ in x.succ):
                return x is n
            return False
        if len(x.succ) != 1:
            return False
        x = x.succ[0][0]
    return False


def whole_range(g, w, h, case, memo):
    """does the loop visit the offending element?  'whole', or what is unusual about its range"""
    hb = [n for n in g.nodes if n.kind == 'branch' and n.id in body_of(g, h) and is_head(g, h, n)]
    if not hb:
        return 'no condition'
    c = hb[0].cond
    if c.op == 'more':
        return 'whole'
    ls = [x for x in subterms(c) if x.op == 'lv' and x.a[0] == h.lid]
    if not ls:
        return 'whole' if 'more' in show(c) else 'condition %s' % show(c)[:60]
    lv = ls[0]
    s = counter(w, lv)
    bs = bound_of(g, h, lv)
    if s is None or not bs:
        i = w.lvinfo.get(lv)
        return 'counter %s' % show(lv)
    sv = evaluate(s, case.leaf, memo)
    cul = case.culprit
    bv = [evaluate(b, case.leaf, memo) for b in bs]
    if cul is not None:
        if sv is None or None in bv:
            return 'range %s..%s' % (show(s), show(bs[0])[:40])
        return 'whole' if sv <= cul < min(bv) else 'misses element %d' % cul
    if s is cint(0) or sv == 0:
        for b in bs:
            if b.op == 'endpos' or b.op == 'size' or b.op == 'call' and str(b.a[0]).split('::')[-1] in ('size', 'rows', 'cols', 'nonZeros'):
                continue
            return 'bound %s' % show(b)[:50]
        return 'whole'
    return 'start %s' % show(s)[:50]


# ------------------------------------------------------------------------------------------------ leaves
def L(*fs):
    def f(t):
        for x in fs:
            v = x(t)
            if v is not None:
                return v
        return None
    return f


def num(term, v):
    return lambda t: v if t is term else None


def size_is(term, v):
    def f(t):
        if t.op == 'size' and t.a[0] is term:
            return v
        if t.op == 'call' and len(t.a) == 2 and t.a[1] is term and str(t.a[0]).split('::')[-1] in ('size', 'length'):
            return v
        return None
    return f


def found(term, yes):
    """position of a key in any map or list of names"""
    def f(t):
        if t.op == 'endpos':
            return -1
        if t.op == 'findpos' and has(t.a[0], term):
            return 3 if yes else -1
        if t.op == 'fresh' and len(t.a) >= 2 and t.a[1] == 'inserted':
            return not yes
        if t.op == 'anyof' and has(t.a[1], term) and contains(t.a[1], lambda y: y.op == 'eq'):
            return yes
        if t.op == 'eq' and any(x.op == 'iter' and len(x.a) == 2 and isinstance(x.a[1], T) and x.a[1].op == 'endpos' for x in t.a) and \
                any(has(x, term) and 'find_if' in show(x, 3) for x in t.a):
            return not yes
        if t.op == 'eq' and (has(t.a[0], term) or has(t.a[1], term)) and contains(t, lambda y: y.op in ('lv', 'it')) \
                and not contains(t, lambda y: y.op in ('findpos', 'endpos')):
            return yes
        return None
    return f


def dims(pred, rows, cols):
    def f(t):
        if t.op == 'call' and len(t.a) == 2 and t.a[0] in ('rows', 'cols') and pred(t.a[1]):
            return rows if t.a[0] == 'rows' else cols
        if t.op == 'size' and pred(t.a[0]):
            return rows * cols
        return None
    return f


def callnamed(n, v, pred=lambda t: True):
    def f(t):
        if t.op == 'call' and str(t.a[0]).split('::')[-1] == n and pred(t):
            return v
        return None
    return f


# ------------------------------------------------------------------------------------------------ tables
OPAQUE = tuple('cpb::Model::' + x for x in ('system', 'hamiltonian', 'eval', 'leads', 'is_complex', 'is_multiorbital')) + \
    tuple('cpb::kpm::Core::' + x for x in ('moments', 'ldos', 'dos', 'greens', 'greens_vector', 'conductivity', 'set_hamiltonian', 'report'))


def graph(P, fn, opaque=()):
    w = Walker(P, opaque=opaque)
    g = w.run(fn, args=[(True, arg(i)) for i in range(len(fn.p))])
    return g, w


def pick(P, qn, n=None, pt=None):
    """overloads of a public function: number of parameters, {index: text in the type}"""
    out = []
    for f in P.fns.values():
        d = f.decl
        if d is None or f.qn != qn or f.b is None and not d.ctor or d.implicit:
            continue
        if d.copyctor or d.movector:
            continue
        if n is not None and len(f.p) != n:
            continue
        if pt and not all(i < len(d.params) and s in (d.params[i].s or '') for i, s in pt.items()):
            continue
        out.append(f)
    return sorted(out, key=lambda f: (f.file, f.line, f.id))


def run(R, P, qn, cases, n=None, pt=None, opaque=(), need=True):
    fs = pick(P, qn, n, pt)
    if not fs:
        if need:
            R.unknown('%s: not found' % qn)
        return
    for f in fs:
        R.count('functions')
        lab = sig(f)
        g, w = graph(P, f, opaque)
        for c in (cases(P, f, g, w) if callable(cases) else cases):
            R.count('cases')
            decide(R, P, f, g, w, c, lab)


def is_energy(t, i):
    """the energy matrix given as parameter i"""
    return t is arg(i)


def ancestor_field(t, name):
    while isinstance(t, T) and t.op in PLACE_OPS:
        if t.op == 'fld' and t.a[1] == name:
            return True
        t = t.a[0]
    return False


def onsite_cases(i):
    m = lambda t: has(t, arg(i))
    ident = lambda imag, tri, herm: L(
        callnamed('isZero', imag, lambda t: m(t) and contains(t, lambda y: y.op == 'call' and str(y.a[0]).endswith('::imag'))),
        callnamed('isUpperTriangular', tri, m),
        lambda t: herm if t.op == 'eq' and m(t) and contains(t, lambda y: y.op in ('conj', 'call') and 'conj' in (y.op + str(y.a[0])) or
                                                             y.op == 'call' and str(y.a[0]).endswith('adjoint')) else None,
        callnamed('isApprox', herm, m))
    d = lambda r, c: dims(m, r, c)
    good = ident(True, True, True)
    return [
        Case('onsite energy with more rows than columns', L(d(3, 2), good)),
        Case('onsite energy with more columns than rows', L(d(2, 3), good)),
        Case('zero-dimensional onsite energy', L(d(0, 0), good)),
        Case('onsite energy with a complex diagonal', L(d(2, 2), ident(False, True, True))),
        Case('complex onsite energy of a single orbital', L(d(1, 1), ident(False, True, True))),
        Case('complex diagonal of a Hermitian-like onsite energy', L(d(3, 3), ident(False, False, True))),
        Case('complex diagonal of a triangular onsite energy', L(d(3, 3), ident(False, True, False))),
        Case('onsite energy that is neither upper triangular nor Hermitian', L(d(2, 2), ident(True, False, False))),
        Case('large onsite energy that is neither upper triangular nor Hermitian', L(d(5, 5), ident(True, False, False))),
    ]


def hopping_cases(i):
    m = lambda t: t is arg(i)
    return [Case('hopping energy without rows', dims(m, 0, 2)), Case('hopping energy without columns', dims(m, 2, 0)),
            Case('zero-dimensional hopping energy', dims(m, 0, 0))]


def blank(i, what):
    return [Case('blank %s' % what, L(size_is(arg(i), 0), found(arg(i), False)))]


def dup(i, what):
    return [Case('%s that already exists (%d letters)' % (what, n), L(size_is(arg(i), n), found(arg(i), True))) for n in (1, 20)]


def unknown_name(i, what):
    return [Case('unknown %s (%d letters)' % (what, n), L(size_is(arg(i), n), found(arg(i), False))) for n in (1, 20)]


# -- Lattice
def lattice(P, R):
    run(R, P, 'cpb::Lattice::add_sublattice', blank(0, 'sublattice name') + dup(0, 'sublattice name'))
    run(R, P, 'cpb::Lattice::add_sublattice', onsite_cases(2), pt={2: 'Eigen::Matrix<std::complex<double>, -1, -1'})
    run(R, P, 'cpb::Lattice::add_alias', blank(0, 'alias name') + dup(0, 'alias name') + unknown_name(1, 'original sublattice'))
    run(R, P, 'cpb::Lattice::register_hopping_energy', blank(0, 'hopping name') + dup(0, 'hopping name'))
    run(R, P, 'cpb::Lattice::register_hopping_energy', hopping_cases(1), pt={1: 'Eigen::Matrix<std::complex<double>, -1, -1'})
    run(R, P, 'cpb::Lattice::sublattice', unknown_name(0, 'sublattice name'), pt={0: 'basic_string'})
    run(R, P, 'cpb::Lattice::hopping_family', unknown_name(0, 'hopping name'), pt={0: 'basic_string'})
    idc = Case('unknown ID', found(arg(0), False))
    idc.leaf = L(lambda t: None, lambda t: found(arg(0), False)(t))
    run(R, P, 'cpb::Lattice::sublattice', [idc], pt={0: 'OpaqueIntegerAlias'})
    run(R, P, 'cpb::Lattice::hopping_family', [idc], pt={0: 'OpaqueIntegerAlias'})
    run(R, P, 'cpb::Lattice::set_offset', moved_origin('origin moved'))
    run(R, P, 'cpb::Lattice::with_offset', moved_origin('origin moved'))


def coord(i, v, k=None, n=3):
    """any vector computed from parameter i has the element v at k, the others are zero (k None: any array has the elements v)"""
    val = v if k is None else tuple(v if j == k else 0.0 for j in range(n))

    def f(t):
        if t.op in ('lt', 'eq', 'not', 'and', 'or', 'add', 'mul', 'sel', 'sub', 'elem') or not has(t, arg(i)):
            return n if t.op == 'size' and of_this(t.a[0]) or t.op == 'call' and t.a[0] == 'cpb::Lattice::ndim' else None
        if t.op == 'call' and str(t.a[0]).split('::')[-1] in ('abs', 'cwiseAbs', 'min', 'max', 'cwiseMin', 'cwiseMax', *REDUCE):
            return None
        if t.op in ('anyof', 'allof'):
            return None
        return val
    return f


def moved_origin(what):
    cs = [Case('%s by %.2f of a primitive vector' % (what, v), coord(0, v)) for v in (0.56, -0.56, 0.7, -0.7)]
    for n in (2, 3):
        for k in range(n):
            for v in (0.56, -0.7):
                cs.append(Case('%s by %.2f of vector %d of %d' % (what, v, k + 1, n), coord(0, v, k, n)))
    return cs


def hopping_terms(P, R):
    for kind, pt in (('matrix', {3: 'Eigen::Matrix<std::complex<double>, -1, -1'}), ('name', {3: 'basic_string'}), ('number', {3: 'std::complex'})):
        if kind == 'number' and not pick(P, 'cpb::Lattice::add_hopping', 4, pt):
            pt = {3: 'complex<double>'}

        def energy_of(i):
            return lambda t: t.op in PLACE_OPS and contains(t, lambda y: y.op == 'findpos' and y.a[0] is arg(i))
        hop = lambda t: t is arg(3) or t.op in PLACE_OPS and ancestor_field(t, 'hoppings') or t.op == 'call' and has(t, arg(3))
        names = L(found(arg(1), True), found(arg(2), True), found(arg(3), True) if kind == 'name' else lambda t: None)
        okdims = L(dims(energy_of(1), 2, 2), dims(energy_of(2), 2, 2), dims(hop, 2, 2))
        if kind == 'number':
            okdims = L(dims(energy_of(1), 1, 1), dims(energy_of(2), 1, 1))

        def cases(P, f, g, w):
            cs = [Case('unknown first sublattice', L(found(arg(1), False), found(arg(2), True), distinct), effect=False),
                  Case('unknown second sublattice', L(found(arg(2), False), found(arg(1), True), distinct), effect=False),
                  Case('hopping from a site to itself', L(same_site, names, okdims), effect=False)]
            if kind == 'name':
                cs.append(Case('unknown hopping name', L(found(arg(3), False), found(arg(1), True), found(arg(2), True), distinct)))
            if kind != 'number':
                cs.append(Case('hopping matrix with too many rows', L(distinct, dims(energy_of(1), 2, 2), dims(energy_of(2), 2, 2), dims(hop, 3, 2), names), effect=False))
                cs.append(Case('hopping matrix with too few columns', L(distinct, dims(energy_of(1), 2, 2), dims(energy_of(2), 2, 2), dims(hop, 2, 1), names), effect=False))
                cs.append(Case('transposed hopping matrix', L(distinct, dims(energy_of(1), 3, 3), dims(energy_of(2), 2, 2), dims(hop, 2, 3), names), effect=False))
            if kind == 'matrix':
                for c in hopping_cases(3):
                    c.leaf = L(c.leaf, found(arg(3), False), found(arg(1), True), found(arg(2), True), distinct,
                               dims(energy_of(1), 2, 2), dims(energy_of(2), 2, 2))
                    cs.append(c)
            cs.append(Case('hopping that exists', L(distinct, names, okdims, same_term(False)), effect=False))
            cs.append(Case('hopping whose conjugate exists', L(distinct, names, okdims, same_term(True)), effect=False))
            cs.append(Case('hopping of a sublattice with itself that exists', L(same_term(False, True), other_cell, names, okdims), effect=False))
            cs.append(Case('hopping of a sublattice with itself whose conjugate exists', L(same_term(True, True), other_cell, names, okdims), effect=False))
            return cs
        run(R, P, 'cpb::Lattice::add_hopping', cases, n=4, pt=pt)


def zero_index(t):
    if t.op == 'eq' and any(x is arg(0) for x in t.a) and any(x.op == 'call' and str(x.a[0]).endswith('Zero') or x.op == 'zero' or
                                                             'Zero' in show(x) for x in t.a):
        return True
    if t.op == 'call' and len(t.a) >= 2 and t.a[1] is arg(0) and str(t.a[0]).split('::')[-1] in ('isZero',):
        return True
    return False


def other_cell(t):
    if zero_index(t):
        return False
    if t.op == 'eq' and set(t.a) == {arg(1), arg(2)}:
        return True
    if t.op == 'call' and t.a[0] == 'any' and has(t, arg(0)):
        return True
    return None


def same_site(t):
    if zero_index(t):
        return True
    if t.op == 'eq' and set(t.a) == {arg(1), arg(2)}:
        return True
    if t.op == 'call' and t.a[0] == 'any' and has(t, arg(0)):
        return False
    if t is arg(0):
        return 0
    return None


def distinct(t):
    if zero_index(t):
        return False
    if t.op == 'eq' and set(t.a) == {arg(1), arg(2)}:
        return False
    return None


def same_term(conjugate, same_sub=False):
    """a new hopping from sublattice 1 to 2 in direction 5 while a hopping which is the same (or its conjugate) exists"""
    new = {'relative_index': 5, 'from': 1, 'to': 1 if same_sub else 2}
    old = {'relative_index': -5, 'from': new['to'], 'to': 1} if conjugate else new

    def terms(x):
        """is x part of an element of the list of terms of an element of the hoppings?"""
        while x.op == 'fld':
            x = x.a[0]
        if x.op == 'elem' and x.a[0].op == 'fld' and contains(x.a[1], lambda z: z.op in ('lv', 'it')):
            b = x.a[0].a[0]
            while b.op == 'fld':
                b = b.a[0]
            return b.op == 'elem' and contains(b.a[1], lambda z: z.op in ('lv', 'it')) and not contains(b.a[1], lambda z: z.op == 'findpos')
        return False

    def whole(x):
        return x.op == 'elem' and terms(x)

    def f(t):
        if t.op == 'fld' and t.a[1] in old:
            return (old if terms(t) else new)[t.a[1]]
        if t is arg(0):
            return 5
        if t is arg(1) or t is arg(2):
            return None
        if t.op == 'fld' and t.a[1] == 'unique_id':
            for i, k in ((1, 'from'), (2, 'to')):
                if contains(t, lambda y: y.op == 'findpos' and y.a[0] is arg(i)):
                    return new[k]
        if t.op == 'addr':
            return f(t.a[0])
        if t.op == 'eq':
            a, b = components(t.a[0]), components(t.a[1])
            if a and b and len(a) == len(b):
                vs = [evaluate(mk('eq', x, y), f, {}) for x, y in zip(a, b)]
                return False if False in vs else None if None in vs else True
        return None
    return f


def components(t):
    """elements of a tuple"""
    if t.op in ('tie', 'list'):
        return [x for x in t.a if isinstance(x, T)]
    if t.op == 'obj' and isinstance(t.a[0], T) and 'tuple' in show(t.a[0], 4):
        return [x for x in (v[1] for v in t.a[1:] if isinstance(v, tuple)) if isinstance(x, T)]
    return None


# -- Registry
def registry(P, R):
    run(R, P, 'cpb::Registry::register_family', blank(0, 'family name') + dup(0, 'family name'))
    fs = pick(P, 'cpb::Registry::register_family')
    for f in fs:
        site = 'SiteID' in f.id
        g, w = graph(P, f)
        for c in onsite_cases(1) if site else hopping_cases(1):
            R.count('cases')
            decide(R, P, f, g, w, c, sig(f))
    run(R, P, 'cpb::Registry::id', unknown_name(0, 'family name'))

    def ids(v):
        def f(t):
            if t.op == 'size' and of_this(t.a[0]):
                return 3
            if has(t, arg(0)) and t.op in PLACE_OPS and t is not arg(0):
                return v
            return None
        return f
    cs = [Case('ID %d of 3 families' % v, ids(v)) for v in (3, 7, -1)]
    run(R, P, 'cpb::Registry::name', cs)
    run(R, P, 'cpb::Registry::energy', cs)


# -- Model
def vectors(n):
    """number of primitive vectors of the lattice"""
    return lambda t: n if t.op == 'size' and ancestor_field(t.a[0], 'vectors') or \
        t.op == 'call' and t.a[0] == 'cpb::Lattice::ndim' else None


def model(P, R):
    def prim(n, k):
        def f(t):
            if t.op in ('elem', 'fld') and has(t, arg(0)) and t is not arg(0):
                x = t.a[1]
                if isinstance(x, T) and x.op == 'c':
                    return 2 if x.a[0] == k else 1
                if isinstance(x, T) and x.op in ('lv', 'it'):
                    return 2
            return None
        c = Case('primitive shape extended along direction %d of a lattice with %d' % (k + 1, n), L(vectors(n), f), culprit=k)
        return c
    run(R, P, 'cpb::Model::add', [prim(1, 1), prim(1, 2), prim(2, 2)], pt={0: 'cpb::Primitive'})
    cs = []
    for n, d in ((1, 0), (2, 0), (3, 0), (1, 1), (1, -1), (2, 3), (2, -3), (3, 4), (3, -4)):
        cs.append(Case('lead direction %d of a lattice with %d' % (d, n), L(vectors(n), num(arg(0), d))))
    run(R, P, 'cpb::Model::attach_lead', cs)

    def moved(P, f, g, w):
        return moved_origin('shape which moves the origin')
    run(R, P, 'cpb::Model::add', moved, pt={0: 'cpb::Shape'})


# -- system
def hopping_blocks(P, R):
    def v(i, x, n=2):
        return L(size_is(arg(i), n), num(arg(i), x), lambda t: x if t.op == 'elem' and t.a[0] is arg(i) else None)
    ns = lambda t: 4 if t.op == 'fld' and t.a[0] is THIS and t.a[1] == 'num_sites' or \
        t.op == 'call' and str(t.a[0]).endswith('::get_num_sites') else None
    cs = [Case('more first than second sites', L(v(0, 1, 3), v(1, 2, 2), ns)), Case('fewer first than second sites', L(v(0, 1, 1), v(1, 2, 2), ns))]
    for x in (-1, 4, 9):
        cs.append(Case('first site %d of 4' % x, L(v(0, x), v(1, 1), ns)))
        cs.append(Case('second site %d of 4' % x, L(v(1, x), v(0, 1), ns)))
    # the first parameter is the family
    sh = []
    for c in cs:
        def shift(t, c=c):
            return c.leaf(subst(t, lambda x: arg(0) if x is arg(1) else arg(1) if x is arg(2) else None))
        sh.append(Case(c.name, shift))
    run(R, P, 'cpb::HoppingBlocks::append', sh)


def sublattices(P, R):
    norb = lambda v: lambda t: v if t.op == 'fld' and t.a[1] == 'num_orbitals' else None
    no = lambda t: False if t.op == 'eq' and any(x is arg(0) for x in t.a) else None
    run(R, P, 'cpb::CompressedSublattices::start_index', [Case('unknown number of orbitals', L(norb(2), num(arg(0), 3)))])

    def cases(P, f, g, w):
        # the current sublattice holds the sites 0, 1, 2
        sub = L(lambda t: 0 if t.op == 'lv' else None, lambda t: 3 if t.op == 'fld' and t.a[1] == 'num_sites' else None)
        out = [Case('hopping matrix of size %d for sites with %d orbitals' % (m, n), L(sub, num(arg(0), i), norb(n), num(arg(1), m)))
               for i, n, m in ((0, 2, 3), (1, 2, 1), (2, 2, 3), (2, 1, 2))]
        return out + [Case('index of a site which does not exist', L(sub, num(arg(0), 3), norb(2), num(arg(1), 2)))]
    run(R, P, 'cpb::CompressedSublattices::ham_index', cases)


def shapes(P, R):
    cs = []
    for k in range(3):
        for x in (0, -1):
            cs.append(Case('size %d in direction %d' % (x, k + 1), L(*[num(arg(i), x if i == k else 1) for i in range(3)],
                                                                     elements_of(lambda i: x if i == k else 1))))
    run(R, P, 'cpb::Primitive::Primitive', cs, n=3)
    cs = [Case('bounding box with %d vertices' % n, size_is(arg(0), n)) for n in (0, 1)]
    run(R, P, 'cpb::Shape::Shape', cs, n=2)
    run(R, P, 'cpb::Polygon::Polygon', cs, n=1)


def elements_of(val):
    """vector made of the three parameters"""
    vs = tuple(val(i) for i in range(3))

    def f(t):
        if t.op == 'call' and str(t.a[0]).split('::')[-1] == 'ctor' and [x for x in t.a[1:]] == [arg(i) for i in range(3)]:
            return vs
        if t.op == 'fld' and of_this(t):
            return vs
        return None
    return f


def systems(P, R):
    names = lambda yes: L(size_is(arg(1), 3), found(arg(1), yes))
    run(R, P, 'cpb::System::find_nearest', [Case('unknown sublattice', names(False))])
    run(R, P, 'cpb::System::sublattice_range', [Case('unknown sublattice', L(size_is(arg(0), 3), found(arg(0), False)))])

    def empty(P, f, g, w):
        # the range of sites which is searched has no element: its start equals its end
        def leaf(t):
            return None
        return []


# -- KPM
def in_range(i, v, n):
    """index given as parameter i has the value v, the Hamiltonian n rows"""
    def f(t):
        if t is arg(i):
            return v
        if t.op == 'sel' and contains(t, lambda y: y.op == 'call' and y.a[0] in ('rows', 'cols')):
            return n
        if t.op == 'call' and t.a[0] in ('rows', 'cols', 'cpb::Hamiltonian::rows', 'cpb::Hamiltonian::cols', 'cpb::System::hamiltonian_size'):
            return n
        if t.op == 'lv' and t.a and 'result' in show(t):
            return n
        return None
    return f


def kpm(P, R):
    cs = []
    for v in (-1, 4, 9):
        cs.append(Case('row %d of 4' % v, L(in_range(0, v, 4), num(arg(1), 1)), effect=False))
        cs.append(Case('column %d of 4' % v, L(in_range(1, v, 4), num(arg(0), 1)), effect=False))
    run(R, P, 'cpb::KPM::calc_greens', cs, opaque=OPAQUE)
    one_ = lambda v: L(size_is(arg(1), 1), lambda t: v if t.op == 'elem' and t.a[0] is arg(1) else None)
    cs = []
    for v in (-1, 4, 9):
        cs.append(Case('row %d of 4' % v, L(in_range(0, v, 4), one_(1)), effect=False))
        cs.append(Case('column %d of 4' % v, L(in_range(0, 1, 4), one_(v)), effect=False))
    cs.append(Case('no column', L(in_range(0, 1, 4), size_is(arg(1), 0)), effect=False))
    run(R, P, 'cpb::KPM::calc_greens_vector', cs, opaque=OPAQUE)

    multi = lambda v: lambda t: v if t.op == 'anyof' and ancestor_field(t.a[0], 'energies') or \
        t.op == 'call' and t.a[0] == 'cpb::Model::is_multiorbital' else None
    picked = lambda n: lambda t: n if t.op == 'size' and t.a[0].op in ('lv', 'root', 'obj', 'call', 'sel') else None
    run(R, P, 'cpb::KPM::calc_spatial_ldos',
        [Case('a multi-orbital model', multi(True), effect=False),
         Case('a shape which contains no site', L(multi(False), picked(0), size_is(arg(3), 0)), effect=False),
         Case('a shape which contains no site of the sublattice', L(multi(False), size_is(arg(3), 3), picked(0), found(arg(3), True)), effect=False),
         Case('a multi-orbital model (one sublattice)', L(multi(True), size_is(arg(3), 3), found(arg(3), True)), effect=False),
         Case('unknown sublattice', L(multi(False), size_is(arg(3), 3), found(arg(3), False)), effect=False)], opaque=OPAQUE)
    run(R, P, 'cpb::KPM::calc_ldos', [Case('unknown sublattice', L(size_is(arg(3), 3), found(arg(3), False)), effect=False)], opaque=OPAQUE)

    fn_of = lambda v: lambda t: v if t.op == 'call' and str(t.a[0]).split('::')[-1] == 'find_first_not_of' and has(t, arg(3)) else None
    run(R, P, 'cpb::KPM::calc_conductivity',
        [Case('direction of %d letters' % n, L(size_is(arg(3), n), fn_of(2 ** 64 - 1)), effect=False) for n in (0, 1, 3)] +
        [Case('direction with a letter other than x, y, z', L(size_is(arg(3), 2), fn_of(k)), effect=False) for k in (0, 1)], opaque=OPAQUE)

    def sizes(a, b, o, orows, ocols):
        return L(size_is(arg(1), a), size_is(arg(2), b), lambda t: orows if t.op == 'call' and t.a[0] == 'rows' and t.a[1] is arg(3) else
                 ocols if t.op == 'call' and t.a[0] == 'cols' and t.a[1] is arg(3) else None,
                 lambda t: o if t.op == 'size' and t.a[0] is arg(3) or t.op == 'call' and len(t.a) == 2 and t.a[1] is arg(3) and
                 str(t.a[0]).split('::')[-1] in ('size', 'nonZeros') else None,
                 lambda t: 4 if t.op == 'lv' and 'result' in show(t) or t.op == 'call' and t.a[0] == 'cpb::System::hamiltonian_size' else None)

    def imag(v):
        """v: parameters with an imaginary part"""
        def f(t):
            if t.op == 'call' and str(t.a[0]).split('::')[-1] == 'isZero':
                i = [k for k in (1, 2, 3) if has(t, arg(k))]
                return i[0] not in v if len(i) == 1 else None
            return None
        return f
    cplx = lambda v: lambda t: v if t.op == 'call' and str(t.a[0]).split('::')[-1] == 'is_complex' else None
    doubt = lambda t: 'complex' in show(t, 40)
    cs = []
    for n, s in (('alpha longer than the Hamiltonian', (5, 4, 16, 4, 4)), ('alpha shorter than the Hamiltonian', (3, 0, 0, 0, 0)),
                 ('beta longer than the Hamiltonian', (4, 5, 0, 0, 0)), ('beta shorter than the Hamiltonian', (4, 3, 0, 0, 0)),
                 ('operator with too few rows', (4, 4, 12, 3, 4)), ('operator with too many columns', (4, 0, 20, 4, 5)), ('empty alpha', (0, 0, 0, 0, 0))):
        for c in (False, True):
            cs.append(Case('%s, %s' % (n, 'complex' if c else 'real'), L(sizes(*s), imag(()), cplx(c)), doubt=doubt, effect=False))
    for i, n in ((1, 'alpha'), (2, 'beta'), (3, 'operator')):
        cs.append(Case('complex %s for a real Hamiltonian' % n, L(sizes(4, 4, 16, 4, 4), imag((i,)), cplx(False)), doubt=doubt, effect=False))
    run(R, P, 'cpb::KPM::moments', cs, opaque=OPAQUE)

    def rng(a, b):
        def f(t):
            if t.op == 'fld' and t.a[1] in ('min_energy', 'min'):
                return a
            if t.op == 'fld' and t.a[1] in ('max_energy', 'max'):
                return b
            return None
        return f
    run(R, P, 'cpb::kpm::Core::Core', [Case('energy range from %g to %g' % x, rng(*x), effect=False)
                                       for x in ((2.0, 1.0), (-1.0, -2.0), (1.0, -1.0), (1.0, 0.0), (0.0, -1.0), (0.5, 0.25))], n=3)
    run(R, P, 'cpb::kpm::lorentz_kernel', [Case('lambda %.1f' % v, num(arg(0), v)) for v in (0.0, -1.0)])


# -- Hamiltonian
def not_finite(nan):
    """an element of the matrix is NaN (or INF): what the various tests for it answer"""
    def f(t):
        if t.op != 'call' or not t.a:
            return None
        n = str(t.a[0]).split('::')[-1]
        return {'allFinite': False, 'isfinite': False, 'isFinite': False, 'hasNaN': nan, 'isNaN': nan, 'isnan': nan,
                'isInf': not nan, 'isinf': not nan}.get(n)
    return f


def hamiltonians(P, R):
    fs = [f for f in P.fns.values() if f.decl is not None and f.b is not None and not f.decl.method and f.decl.ret is not None
          and (f.decl.ret.s or '') == 'cpb::Hamiltonian' and any('cpb::System' in (t.s or '') for t in f.decl.params)]
    if not fs:
        R.unknown('functions that build a Hamiltonian')
    for f in sorted(fs, key=lambda f: f.id):
        R.count('functions')
        g, w = graph(P, f)
        lab = f.qn.replace('cpb::', '') + ' ' + f.id[-90:]
        R.count('cases')
        many = lambda k: lambda t: k if t.op == 'call' and t.a and str(t.a[0]).split('::')[-1] == 'nonZeros' or \
            t.op == 'size' and t.a[0].op == 'sub' and 'valuePtr' in show(t.a[0], 4) else None
        for what, c in (('NaN', not_finite(True)), ('INF', not_finite(False))):
            for k in (1, 7):
                decide(R, P, f, g, w, Case('matrix with %s among %d elements' % (what, k), L(c, many(k)), effect=False), lab)
        # nothing is written to the matrix after the check
        gs = [n for n in g.nodes if n.kind == 'branch' and n.id in dead_sides(g) and contains(n.cond, lambda t: not_finite(True)(t) is not None)]
        for n in g.nodes:
            if n.kind == 'sparse_access' and gs:
                p = Search(g).find(gs, goal=lambda m: m is n)
                if p:
                    R.bad('%s: written after the check' % lab, 'elements of the Hamiltonian are written after it was checked for invalid values', describe(p, 8))
                    break


PARTS = [lattice, hopping_terms, registry, model, hopping_blocks, sublattices, shapes, systems, kpm, hamiltonians]
