"""Where matrix elements are written: emissions (row, column, value) of sparse matrices and triplet lists."""
from common import *


class Emission:
    __slots__ = ('n', 'cont', 'r', 'c', 'v', 'acc', 'old')

    def __repr__(self):
        return '%s (%s, %s) %s %s' % (self.n.loc(), show(self.r), show(self.c), '+=' if self.acc else '=', show(self.v))


CONJ = ('cpb::num::conjugate', 'std::conj', 'cpb::num::detail::conjugate')


def is_conj(t):
    return t.op == 'conj' or t.op == 'call' and t.a and t.a[0] in CONJ


def conj_arg(t):
    return t.a[0] if t.op == 'conj' else t.a[1]


def nconj(t, c=False):
    """normal form with conjugation pushed to the leaves; -> term"""
    if is_conj(t):
        return nconj(conj_arg(t), not c)
    if t.op in ('c', 'cf', 'cb'):
        return t
    if t.op == 'prod':
        xs = []
        st = [t]
        while st:
            x = st.pop()
            if x.op == 'prod':
                st.extend(x.a)
            elif is_conj(x) and conj_arg(x).op == 'prod':
                y = nconj(x)
                st.append(y)
            else:
                xs.append(nconj(x, c))
        xs.sort(key=lambda y: y.id)
        return mk('cprod', *xs)
    if t.op == 'cprod':
        return mk('cprod', *sorted((nconj(x, c) for x in t.a), key=lambda y: y.id)) if c else t
    if t.op == 'mul':
        return MUL(*[nconj(x, c) for x in t.a])
    if t.op == 'add':
        return ADD(*[nconj(x, c) for x in t.a])
    if t.op == 'sel':
        return SEL(t.a[0], nconj(t.a[1], c), nconj(t.a[2], c))
    if t.op == 'call' and t.a[0] in ('num::force_cast', 'cpb::num::force_cast', 'cpb::eigen_cast') and len(t.a) == 2 \
            and isinstance(t.a[1], T) and (is_conj(t.a[1]) or t.a[1].op in ('prod', 'mul', 'add')):
        return mk('call', t.a[0], nconj(t.a[1], c))
    return mk('conj', t) if c else t


def indices(t):
    return (t.a[0], t.a[1]) if t.op == 'ix' and len(t.a) == 2 else None


def elem_of(p):
    """(container, index pair) of a matrix element place"""
    while p.op == 'fld' and p.a[1] in ('re', 'im'):
        p = p.a[0]
    if p.op == 'elem':
        ij = indices(p.a[1])
        if ij:
            return p.a[0], ij
    return None


def is_sparse(P, g, base, spars):
    return base in spars


def emissions(g):
    """(list of Emission, list of nodes that touch a sparse matrix in a way that is not understood)"""
    out, odd = [], []
    sparse = set(n.place for n in g.nodes if n.kind == 'sparse_access')
    for n in g.nodes:
        if n.kind == 'write':
            e = elem_of(n.place)
            if e is None or e[0] not in sparse:
                continue
            x = Emission()
            x.n, x.cont, (x.r, x.c) = n, e[0], e[1]
            v = n.value
            x.acc, x.old = False, None
            if v.op == 'add':
                same = [y for y in v.a if y.op == 'elem' and y.a[1] is n.place.a[1]]
                if len(same) == 1:
                    x.acc = True
                    v = ADD(*[y for y in v.a if y is not same[0]])
            x.v = v
            out.append(x)
        elif n.kind == 'mut' and n.method in ('push_back', 'emplace_back'):
            a = [y for y in n.args if isinstance(y, T)]
            if len(a) == 1 and a[0].op == 'call' and str(a[0].a[0]).startswith('Eigen::Triplet') and len(a[0].a) == 4:
                a = list(a[0].a[1:])
            elif not (len(a) == 3 and n.method == 'emplace_back'):
                continue
            x = Emission()
            x.n, x.cont, x.r, x.c, x.v, x.acc, x.old = n, n.place, a[0], a[1], a[2], True, None
            out.append(x)
    return out, odd


def innermost(g, n):
    """innermost loop head whose natural body contains n, and its body"""
    best = None
    for h in g.nodes:
        if h.kind == 'loop':
            b = body_of(g, h)
            if n.id in b and (best is None or len(b) < len(best[1])):
                best = (h, b)
    return best


def body_of(g, h):
    m = g.__dict__.setdefault('_bodies', {})
    b = m.get(h.id)
    if b is None:
        b = m[h.id] = loop_body(g, h)
    return b


def loops_of(g, n):
    """heads of the loops around n, innermost first"""
    l = [(len(body_of(g, h)), h.id, h) for h in g.nodes if h.kind == 'loop' and n.id in body_of(g, h)]
    return [x[2] for x in sorted(l, key=lambda y: (y[0], y[1]))]


def lvs(t):
    """loop values occurring directly in an index sum"""
    xs = t.a if t.op == 'add' else (t,)
    return [x for x in xs if x.op == 'lv']


def counter(w, lv):
    """('c', start) when lv is a loop counter: starts at a term and grows by one"""
    i = w.lvinfo.get(lv)
    if not i or len(i) < 2:
        return None
    a, b = i[0], i[1]
    if a.op == 'iter':
        a = a.a[1]
    if b.op == 'iter':
        b = b.a[1]
    if b is ADD(lv, cint(1)):
        return a
    return None


def bound_of(g, head, lv):
    """terms t such that the loop continues only while lv < t (or lv != t)"""
    out = []
    b = body_of(g, head)
    for n in g.nodes:
        if n.id in b and n.kind == 'branch':
            stay = [lab for m, lab in n.succ if m.id in b]
            leave = [lab for m, lab in n.succ if m.id not in b]
            if not leave:
                continue
            c = n.cond
            pol = True in stay and True not in leave
            while c.op == 'not':
                c, pol = c.a[0], not pol
            if c.op == 'lt' and c.a[0] is lv and pol:
                out.append(c.a[1])
            elif c.op == 'lt' and c.a[1] is lv and not pol:
                out.append(ADD(c.a[0], cint(1)))
            elif c.op == 'lt' and pol and c.a[0].op == 'add' and lv in c.a[0].a and lv not in subterms(c.a[1]):
                out.append(ADD(c.a[1], MUL(cint(-1), ADD(c.a[0], MUL(cint(-1), lv)))))
            elif c.op == 'eq' and not pol and lv in c.a:
                out.append(c.a[1] if c.a[0] is lv else c.a[0])
    return out


def same_range(w, g, x, y):
    """do the two loop counters run over the same values (any pair of values occurs, in any order)?"""
    if x is y:
        return True
    a, b = counter(w, x), counter(w, y)
    if a is None or b is None or a is not b:
        return False
    hx = next((h for h in g.nodes if h.kind == 'loop' and h.lid == x.a[0]), None)
    hy = next((h for h in g.nodes if h.kind == 'loop' and h.lid == y.a[0]), None)
    if hx is None or hy is None:
        return False
    bx, by = bound_of(g, hx, x), bound_of(g, hy, y)
    return bool(bx) and bool(by) and any(p is q for p in bx for q in by)
