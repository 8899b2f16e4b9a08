"""The reordered, scaled and sliced Hamiltonian of KPM represents the same operator as the model's Hamiltonian."""
from emit import *
from alg import Alg, identical, pieces, infeasible, witness, ladd, lconst, conditions
from c05 import graph, pick, arg, evaluate
from c08 import dom_edges

LEVEL = 'other'
RULE = ('Every element (i, j) = v of the Hamiltonian is written once, at (map[i], map[j]) where map numbers the rows in the order in which '
        'they are queued, with the value (v - [i==j] b) 2/a; a missing diagonal element is written when b is not zero; without reordering the '
        'whole matrix is (H - b) 2/a; the ELL copy holds the same elements at the same row and column and zeros elsewhere; a slice border '
        'recorded after row h counts every state reached from the rows up to h; the slice used for moment n of N holds every row that the '
        'source can have reached and that can still reach the destination; vectors, operators and target indices go through the same map.')
EXPLAIN = ('Symbolic emissions of the inlined flow graph are compared with the rule as rational identities modulo a prime; the slice index is '
           'proved by elimination on linear integer inequalities.')
ASSUME = ['Eigen sparse insert() and markAsRValue() behave as documented', '0 <= n < num_moments']


def posn(t):
    """index form of iterators and their differences"""
    if t.op == 'add':
        it = [x for x in t.a if x.op == 'iter']
        neg = [x for x in t.a if x.op == 'mul' and len(x.a) == 2 and x.a[0] is cint(-1) and x.a[1].op == 'iter']
        if len(it) == 1 and len(neg) == 1 and it[0].a[0] is neg[0].a[1].a[0]:
            rest = [x for x in t.a if x is not it[0] and x is not neg[0]]
            return ADD(it[0].a[1], MUL(cint(-1), neg[0].a[1].a[1]), *rest)
    if t.op == 'iter':
        return t.a[1]
    return t


def place_of(t):
    """place of a container term: its current value, a loop value of it, or one of its updates"""
    while True:
        if t.op == 'lv' and len(t.a) > 1 and isinstance(t.a[1], T):
            t = t.a[1]
        elif t.op == 'upd':
            t = t.a[2]
        elif t.op == 'sel' and place_of(t.a[1]) is place_of(t.a[2]):
            t = t.a[1]
        elif t.op == 'call' and len(t.a) == 2 and isinstance(t.a[1], T) and str(t.a[0]).split('::')[-1] in ('markAsRValue', 'move', 'derived'):
            t = t.a[1]
        else:
            return t


def alternatives(t, conds=()):
    """[(conditions with polarity, term)] of nested selections"""
    if t.op == 'sel':
        return alternatives(t.a[1], conds + ((t.a[0], True),)) + alternatives(t.a[2], conds + ((t.a[0], False),))
    return [(conds, t)]


def strip(c, pol):
    while c.op == 'not':
        c, pol = c.a[0], not pol
    return c, pol


def says_unmapped(c, pol):
    """(element, unmapped?) for conditions which test the mark of entries that are not mapped; unmapped? is None for a test which confuses
    the mark with a position"""
    c, pol = strip(c, pol)
    es = set(x for x in c.a if isinstance(x, T) and x.op == 'elem') if c.op in ('lt', 'eq') else ()
    if len(es) != 1 or not all(isinstance(x, T) and (x in es or x.op == 'c') for x in c.a):
        return None
    e = next(iter(es))
    v = [evaluate(c, lambda t, n=n: n if t is e else None, {}) == pol for n in (-1, 0, 1, 2, 9)]
    if v[0] and not any(v[1:]):
        return e, True
    if not v[0] and all(v[1:]):
        return e, False
    return e, None


def understood(t, known):
    """made of known terms and arithmetic only"""
    if any(t is k for k in known):
        return True
    if t.op in ('c', 'cf', 'cb'):
        return True
    if t.op in ('add', 'mul', 'prod', 'sel', 'eq', 'and', 'or', 'not', 'lt', 'conj', 'cast', 'conv', 'op', 'call'):
        return all(understood(x, known) for x in t.a if isinstance(x, T))
    return False


def named(t, *path):
    """field path at the end of a place"""
    try:
        p = fld_path(t)[1]
    except Exception:
        return False
    return tuple(p[-len(path):]) == path


def scale_terms(ts):
    """the a and b of a scale among the subterms"""
    a, b = set(), set()
    for t in ts:
        for x in subterms(t):
            if x.op == 'fld' and x.a[1] in ('a', 'b') and not contains(x.a[0], lambda y: y.op == 'elem'):
                (a if x.a[1] == 'a' else b).add(x)
    return a, b


def csr_element(t):
    """the value valuePtr[k] (elem terms) inside a term"""
    return [x for x in subterms(t) if x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[1] == 'valuePtr']


def start_of(w, k):
    i = w.lvinfo.get(k)
    return i[0] if i else None


def row_of(w, k):
    """X when the counter k starts at outerIndexPtr[X] (selections of such included)"""
    s = start_of(w, k)
    if s is None:
        return None

    def f(t):
        if t.op == 'elem' and t.a[0].op == 'fld' and t.a[0].a[1] == 'outerIndexPtr':
            return t.a[1]
        if t.op == 'sel':
            x, y = f(t.a[1]), f(t.a[2])
            if x is not None and y is not None:
                return SEL(t.a[0], x, y)
        return None
    return f(s)


def all_of(t):
    return set(subterms(t))


def same_row(X, Y):
    return X is Y


def reorder_part(P, R):
    for f in pick(P, 'cpb::kpm::OptimizedHamiltonian::optimize_for'):
        w = Walker(P)
        g = w.run(f)
        idom = dominators(g)
        es, odd = emissions(g)
        mats = []
        for e in es:
            if e.cont not in mats and csr_element(e.v):
                mats.append(e.cont)
        if not mats:
            R.unknown('optimize_for: no element by element construction found')
        for m in mats:
            one_matrix(R, w, g, idom, m, [e for e in es if e.cont is m])
        scaled(R, w, g, idom, f, len(mats))


def one_matrix(R, w, g, idom, m, es):
    R.count('reordered matrices')
    lab = 'optimize_for: %s' % es[0].n.loc()
    inner = [e for e in es if csr_element(e.v)]
    diag = [e for e in es if not csr_element(e.v)]
    mapp = queue = None
    flags = None
    for e in inner:
        R.count('emissions')
        vs = csr_element(e.v)
        if len(set(vs)) != 1 or vs[0].a[1].op != 'lv':
            R.unknown('%s: element value %s' % (lab, show(e.v)[:120]))
            continue
        V = vs[0]
        k = V.a[1]
        X = row_of(w, k)
        M = V.a[0].a[0]
        C = None
        for x in list(subterms(e.c)) + list(subterms(e.v)):
            if x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[1] == 'innerIndexPtr' and x.a[0].a[0] is M:
                if x.a[1] is k:
                    C = x
        if X is None or C is None:
            R.unknown('%s: row %s / column %s of the element' % (lab, X, C))
            continue
        facts = dom_edges(g, idom, e.n)
        # --- the row
        q = row_position(R, w, lab, e, X)
        # --- the column
        mp = col_position(R, w, g, idom, lab, e, C)
        # --- the value
        value(R, lab, e, V, X, C)
        # --- all the elements of the row
        whole_row(R, w, g, lab, e, k, M, X)
        if q is not None and mp is not None:
            queue, mapp = q, mp
            lockstep(R, w, g, idom, lab, queue, mapp, e)
            whole_matrix(R, w, g, lab, e, M)
            diagonal(R, w, g, idom, lab, e, diag, X, C)
            borders(R, w, g, idom, lab, e, queue, M)


def row_position(R, w, lab, e, X):
    """the row index must be the position of X in the queue"""
    q = None
    good = True
    for cs, x in alternatives(X):
        x = posn(x)
        if x.op == 'elem' and x.a[1] is e.r:
            p = place_of(x.a[0])
            if q is None or q is p:
                q = p
                continue
        good = False
    if good and q is not None:
        R.ok('%s: row %s of the new matrix is row queue[%s] of the original' % (lab, show(e.r), show(e.r)))
        return q
    if e.r.op == 'elem' and e.r.a[1] is X:
        R.ok('%s: row is map[row]' % lab)
        return place_of(e.r.a[0])
    if all(posn(x).op == 'elem' for _, x in alternatives(X)):
        i = set(posn(x).a[1] for _, x in alternatives(X))
        if len(i) == 1:
            i = next(iter(i))
            if e.c is i and e.r is not i:
                R.bad('%s: row' % lab, 'row and column are exchanged: row queue[%s] is written to column %s' % (show(i), show(e.c)), [e.n.where()])
                return None
            if contains(e.r, lambda y: y is i) or contains(e.r, lambda y: y is X) or e.r.op == 'elem':
                R.bad('%s: row' % lab, 'the elements of row queue[%s] are written to row %s' % (show(i), show(e.r)[:120]), [e.n.where()])
                return None
    R.unknown('%s: row %s from %s' % (lab, show(e.r)[:80], show(X)[:80]))
    return None


def col_position(R, w, g, idom, lab, e, C):
    mp = None
    seen = set()
    for cs, x in alternatives(e.c):
        un = [u for u in (says_unmapped(c, p) for c, p in cs) if u]
        odd = [u for u in un if u[1] is None and u[0].a[1] is C]
        if odd:
            R.bad('%s: column' % lab, 'whether the column has a position is decided by %s, which mistakes a position for the mark of columns without one' %
                  [show(c)[-80:] for c, p in cs if says_unmapped(c, p) in odd][0], [e.n.where()])
            return None
        if x.op == 'elem':
            p = place_of(x.a[0])
            if x.a[1] is not C:
                if x.a[1].op == 'elem' or x.a[1].op == 'lv':
                    R.bad('%s: column' % lab, 'the column is %s, which is not the position of the column of the element' % show(x)[:150],
                          [e.n.where()])
                else:
                    R.unknown('%s: column %s' % (lab, show(x)[:120]))
                return None
            if mp is not None and mp is not p:
                R.unknown('%s: column through two maps' % lab)
                return None
            mp = p
            seen.add('mapped')
        elif un and all(u[0].a[1] is C and u[1] for u in un):
            p = place_of(un[0][0].a[0])
            ws = [n for n in g.nodes if n.kind == 'write' and n.place.op == 'elem' and n.place.a[1] is C and place_of(n.place.a[0]) is p
                  and n.id in dom_ids(g, e.n)]
            if ws and all(n.value is x for n in ws):
                seen.add('new')
            elif ws:
                R.bad('%s: column' % lab, 'a new column is written at %s while its position is recorded as %s' % (show(x)[:80], show(ws[0].value)[:80]),
                      [e.n.where(), ws[0].where()])
                return None
            else:
                R.unknown('%s: position of a new column %s' % (lab, show(x)[:80]))
                return None
        elif contains(x, lambda y: y is C) or x is C:
            R.bad('%s: column' % lab, 'the column %s of the element is not its position in the new order' % show(x)[:150], [e.n.where()])
            return None
        else:
            R.unknown('%s: column %s' % (lab, show(x)[:120]))
            return None
    if mp is not None:
        R.ok('%s: column is map[column of the element]' % lab)
    return mp


def dom_ids(g, n):
    """nodes from which n is reached within one pass (ancestors that do not go through the loop head again)"""
    seen = set()
    st = [p for p, _ in n.pred]
    L = innermost(g, n)
    head = L[0].id if L else -1
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.id == head:
            continue
        st.extend(p for p, _ in x.pred)
    return seen


def value(R, lab, e, V, X, C, want=None):
    av, bv = scale_terms([e.v])
    known = [V, X, C, e.r, e.c] + list(av) + list(bv)
    names = []
    for diag in (True, False):
        for b0 in (False, True):
            def pair(seed):
                A = Alg(None, seed)
                S = A.sym
                a, b, v, x = S('a'), 0 if b0 else S('b'), S('V'), S('X')

                def leaf(t):
                    if t is V:
                        return v
                    if t in av:
                        return a
                    if t in bv:
                        return b
                    if t.op == 'eq' and (set(t.a) == {X, C} or set(t.a) == {e.r, e.c}):
                        return diag
                    if t is X:
                        return x
                    if t is C:
                        return x if diag else S('C')
                    if t is e.r:
                        return S('r')
                    if t is e.c:
                        return S('r') if diag else S('c')
                    if t.op == 'lt' and any(y in bv for y in t.a):
                        return not b0       # |b| against a bound: any nonzero b
                    return None
                A.leaf = leaf
                got = A.val(e.v)
                want = A.num(2) * pow(a, -1, P61) * (v - (b if diag else 0)) % P61
                return got, want
            if not identical(pair):
                names.append('%s element, b %s 0' % ('diagonal' if diag else 'off-diagonal', '==' if b0 else '!='))
    if not names:
        R.ok('%s: value (v - [row==col] b) 2/a' % lab)
    elif understood(e.v, known):
        R.bad('%s: value' % lab, 'the value %s is not (v - [row==col] b) 2/a: %s' % (show(e.v)[:200], names[0]), [e.n.where()])
    else:
        R.unknown('%s: value %s' % (lab, show(e.v)[:160]))


P61 = (1 << 61) - 1


def whole_row(R, w, g, lab, e, k, M, X):
    """the inner loop starts at indptr[X] and ends at indptr[X+1], and the element is written in every pass"""
    h = next((h for h in g.nodes if h.kind == 'loop' and h.lid == k.a[0]), None)
    if h is None:
        return
    i = w.lvinfo.get(k)
    if i and len(i) > 1 and i[1] is not ADD(k, cint(1)):
        R.bad('%s: elements of a row' % lab, 'the position in the row goes from k to %s' % show(i[1])[:100], [e.n.where()])
        return
    bs = bound_of(g, h, k)

    def is_next(b):
        if b.op == 'sel':
            return is_next(b.a[1]) and is_next(b.a[2])
        return b.op == 'elem' and b.a[0].op == 'fld' and b.a[0].a[1] == 'outerIndexPtr' and \
            (b.a[1] is ADD(X, cint(1)) or all(y is ADD(x, cint(1)) for (_, y), (_, x) in zip(alternatives(b.a[1]), alternatives(X))) or
             b.a[1].op == 'add' and SUB(b.a[1], X) is cint(1))
    ok = [b for b in bs if is_next(b)]
    if ok and len(bs) == len(ok):
        body = body_of(g, h)
        p = skip_path(g, h, body, e.n)
        if p:
            R.bad('%s: elements of a row' % lab, 'an element can be left out', [e.n.loc()] + describe(p, 12))
        else:
            R.ok('%s: every element of the row is written' % lab)
    elif bs:
        if all(b.op == 'elem' for b in bs) or any(b.op == 'add' for b in bs):
            R.bad('%s: elements of a row' % lab, 'the row ends at %s' % show(bs[0])[:150], [e.n.where()])
        else:
            R.unknown('%s: row ends at %s' % (lab, show(bs[0])[:120]))
    else:
        R.unknown('%s: end of the row' % lab)


def skip_path(g, h, body, n):
    """a pass through the loop (head to head) which avoids n and does not leave the loop; None if there is none"""
    S = Search(g)
    first = [m for m, lab in h.succ if m.id in body]
    seen = {}
    st = [(m, (h,)) for m in first]
    done = set()
    while st:
        x, path = st.pop()
        if x is n or x.id not in body or x.id in done:
            continue
        if x is h:
            return list(path)
        done.add(x.id)
        for m, lab in x.succ:
            if m is h:
                return list(path) + [x]
            st.append((m, path + (x,)))
    return None


def whole_matrix(R, w, g, lab, e, M):
    """the outer counter runs over all the rows"""
    hs = [h for h in loops_of(g, e.n)]
    for h in hs:
        if e.r.op == 'lv' and e.r.a[0] == h.lid:
            c0 = counter(w, e.r)
            bs = bound_of(g, h, e.r)
            full = [b for b in bs if b.op == 'call' and b.a[0] in ('rows', 'cols', 'outerSize') or b.op in ('size',)
                    or b.op == 'call' and str(b.a[0]).split('::')[-1] == 'size']
            off = [b for b in bs if b.op in ('add', 'c')]
            if c0 is None:
                R.unknown('%s: rows from %s' % (lab, show(start_of(w, e.r))[:60]))
            elif c0 is not cint(0):
                R.bad('%s: rows' % lab, 'the rows start at %s' % show(c0), [h.where()])
            elif full and len(bs) == len(full):
                R.ok('%s: rows 0 to %s' % (lab, show(full[0])[:40]))
            elif off:
                R.bad('%s: rows' % lab, 'the rows end at %s' % show(off[0])[:100], [h.where()])
            else:
                R.unknown('%s: rows end at %s' % (lab, [show(b)[:60] for b in bs]))


def lockstep(R, w, g, idom, lab, queue, mapp, e):
    """map[x] = size of the queue, and x is appended to the queue, always together"""
    if queue is mapp:
        return
    writes = [n for n in g.nodes if n.kind == 'write' and n.place.op == 'elem' and place_of(n.place.a[0]) is mapp and relevant(g, n, e)]
    pushes = [n for n in g.nodes if n.kind == 'mut' and n.method in ('push_back', 'emplace_back') and n.place is queue]
    others = [n for n in g.nodes if n.kind == 'mut' and n.place is queue and n.method not in
              ('push_back', 'emplace_back', 'reserve', 'shrink_to_fit')]
    for n in others:
        R.unknown('%s: queue changed by %s' % (lab, n.method))
    used = set()
    for x in writes:
        R.count('map entries')
        i = posn(x.place.a[1])
        mates = [p for p in pushes if p.args and posn(p.args[0]) is i and together(g, idom, x, p)]
        if not mates:
            same = [p for p in pushes if together(g, idom, x, p)]
            if same:
                R.bad('%s: map and queue' % lab, 'row %s is given a position while %s is queued' % (show(i)[:80], show(same[0].args[0])[:80]),
                      [x.where(), same[0].where()])
            else:
                R.bad('%s: map and queue' % lab, 'row %s is given a position without being queued' % show(i)[:80], [x.where()])
            continue
        p = mates[0]
        used.add(p.id)
        # the position
        ls = loops_of(g, x)
        v = x.value
        guards = dom_edges(g, idom, x)
        sz = [c for c, pol in guards if strip(c, pol)[1] and strip(c, pol)[0].op == 'eq' and any(y.op == 'size' for y in strip(c, pol)[0].a)]
        before = p.id in dom_chain(idom, x.id)
        good = None
        if v.op == 'size':
            good = not before and place_of(v.a[0]) is queue and v.a[0].op != 'upd'
        elif v.op == 'add' and before and len(v.a) == 2 and cint(-1) in v.a:
            y = [z for z in v.a if z.op == 'size']
            good = bool(y) and place_of(y[0].a[0]) is queue
        elif v is cint(0) and not ls:
            good = len([p2 for p2 in pushes if not loops_of(g, p2)]) == 1 or None
        else:
            for c in sz:
                c = strip(c, True)[0]
                if v in c.a and place_of([y for y in c.a if y.op == 'size'][0].a[0]) is queue:
                    good = True
        if good:
            R.ok('%s: %s: map[%s] = %s with the queue' % (lab, x.loc(), show(i)[:40], show(v)[:40]))
        elif good is False or v.op == 'add' and any(y.op == 'size' for y in v.a) or v.op == 'c':
            R.bad('%s: map and queue' % lab, 'row %s is queued in position size(queue) but is given the position %s' % (show(i)[:60], show(v)[:60]),
                  [x.where(), p.where()])
        else:
            R.unknown('%s: position %s' % (lab, show(v)[:80]))
        # only rows which have no position yet
        if ls:
            un = [u for u in (says_unmapped(c, pol) for c, pol in guards) if u]
            if any(u[0].a[1] is i and u[1] for u in un) or i.op == 'findpos' and says_unmapped_find(i):
                R.ok('%s: %s: only rows without a position' % (lab, x.loc()))
            elif i.op == 'findpos':
                R.unknown('%s: row found by %s' % (lab, show(i)[:80]))
            else:
                R.bad('%s: map and queue' % lab, 'row %s is given a new position even if it has one' % show(i)[:80], [x.where()])
    for p in pushes:
        if p.id not in used:
            R.bad('%s: map and queue' % lab, 'row %s is queued without being given a position' % show(p.args[0])[:80], [p.where()])


def says_unmapped_find(i):
    c = i.a[0]
    if c.op == 'eq':
        return cint(-1) in c.a
    if c.op == 'lt':
        return c.a[1] is cint(0)
    return False


def relevant(g, n, e):
    """n and e are on a common path (not in different instantiations)"""
    m = g.__dict__.setdefault('_onpath', {})
    if e.n.id not in m:
        m[e.n.id] = onpath(e.n)
    return n.id in m[e.n.id]


def onpath(n):
    out = {n.id}
    for d in ('succ', 'pred'):
        st = [m for m, _ in getattr(n, d)]
        seen = set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            st.extend(m for m, _ in getattr(x, d))
        out |= seen
    return out


def together(g, idom, a, b):
    """a and b are executed in the same passes"""
    first, second = (a, b) if a.id in dom_chain(idom, b.id) else (b, a)
    if first.id not in dom_chain(idom, second.id):
        return False
    la, lb = loops_of(g, a), loops_of(g, b)
    if la != lb:
        return False
    # no way from the first back to its loop head or to the exit without the second
    L = innermost(g, first)
    head, body = L if L else (None, None)
    st, seen = [m for m, _ in first.succ], set()
    while st:
        x = st.pop()
        if x is second or x.id in seen:
            continue
        seen.add(x.id)
        if x is head or x.kind == 'exit' or body is not None and x.id not in body and x.kind not in ('throw', 'exitthrow', 'maythrow'):
            return False
        st.extend(m for m, _ in x.succ)
    return True


def diagonal(R, w, g, idom, lab, e, diag, X, C):
    """rows without a diagonal element get one when b is not zero"""
    ds = [d for d in diag if d.r is d.c]
    if not ds:
        R.bad('%s: missing diagonal' % lab, 'a row without a diagonal element does not get -2b/a when b is not zero', [e.n.where()])
        return
    for d in ds:
        R.count('emissions')
        if d.r is not e.r:
            R.bad('%s: missing diagonal' % lab, 'the diagonal element is written at %s' % show(d.r)[:100], [d.n.where()])
            continue
        av, bv = scale_terms([d.v])

        def pair(seed):
            A = Alg(None, seed)
            a, b = A.sym('a'), A.sym('b')
            A.leaf = lambda t: a if t in av else b if t in bv else None
            return A.val(d.v), -2 * pow(a, -1, P61) * b % P61
        if identical(pair):
            R.ok('%s: missing diagonal element -2b/a' % lab)
        elif understood(d.v, list(av) + list(bv)):
            R.bad('%s: missing diagonal' % lab, 'the value %s is not -2b/a' % show(d.v)[:120], [d.n.where()])
        else:
            R.unknown('%s: diagonal value %s' % (lab, show(d.v)[:100]))
        guards = [strip(c, p) for c, p in dom_edges(g, idom, d.n)]
        L = innermost(g, d.n)
        inside = [(c, p) for c, p in guards if not (c.op in ('lt', 'eq') and L and d.r in c.a)]
        flag = None
        for c, p in inside:
            bs = [y for y in c.a if isinstance(y, T) and y.op == 'fld' and y.a[1] == 'b'] if c.op in ('eq', 'lt') else []
            if bs and c.op == 'lt' and not contains(c, lambda y: y.op == 'lv'):
                v = [evaluate(c, lambda t, x=x: x if t in bs else None, {}) for x in (1, -1)]
                wrong = [x for x, y in zip((1, -1), v) if y is not None and y != p]
                if wrong:
                    R.bad('%s: missing diagonal' % lab, 'the diagonal element is not written if b is %s' % ('positive' if wrong[0] > 0 else 'negative'),
                          [d.n.where()])
            if bs and c.op == 'eq':
                z = [y for y in c.a if y not in bs]
                if p or z and z[0] not in (cint(0), mk('cf', 0.0)):
                    if z and z[0].op in ('c', 'cf'):
                        R.bad('%s: missing diagonal' % lab, 'the diagonal element is only written if b %s %s' % ('==' if p else '!=', show(z[0])),
                              [d.n.where()])
            elif c.op in ('lv', 'eq', 'lt', 'sel') and contains(c, lambda y: y.op == 'lv'):
                flag = (c, p)
        if flag and flag[0].op == 'lv':
            c, p = flag
            info = w.lvinfo.get(c)
            flag_rule(R, w, g, idom, lab, e, d, c, p, X, C)
        elif flag:
            R.unknown('%s: guard of the diagonal element %s' % (lab, show(flag[0])[:80]))
        else:
            R.bad('%s: missing diagonal' % lab, 'the diagonal element is written to rows which have one', [d.n.where()])


def flag_rule(R, w, g, idom, lab, e, d, flag, pol, X, C):
    """the flag is cleared for each row and set exactly with a diagonal element"""
    place = place_of(flag)
    ws = [n for n in g.nodes if n.kind in ('write', 'init') and n.place is place]
    outer = loops_of(g, d.n)
    inner = loops_of(g, e.n)
    good = True
    cleared = False
    sets = []
    for n in ws:
        v = n.value
        ls = loops_of(g, n)
        if v.op == 'cb' and bool(v.a[0]) != pol:        # set
            gs = [strip(c, p) for c, p in dom_edges(g, idom, n)]
            eqs = [c for c, p in gs if p and c.op == 'eq' and (set(c.a) == {X, C} or set(c.a) == {e.r, e.c})]
            if not eqs:
                good = False
                if ls and ls[0] in inner and ls[0] not in outer:
                    R.bad('%s: missing diagonal' % lab, 'a diagonal element counts as written after an element that is not on the diagonal', [n.where()])
                else:
                    R.unknown('%s: flag set at %s' % (lab, n.loc()))
        elif v.op == 'cb':
            if ls and outer and ls[0] is outer[0]:
                cleared = True
        else:
            eqs = [y for y in subterms(v) if y.op == 'eq' and (set(y.a) == {X, C} or set(y.a) == {e.r, e.c})]
            olds = [y for y in subterms(v) if y.op == 'lv' and place_of(y) is place]

            def val(q, old):
                return evaluate(v, lambda t: q if t in eqs else old if t in olds else None, {})
            # flag meaning "seen" is True when it equals not pol
            seen = not pol
            if eqs and olds and val(True, pol) is seen and val(True, seen) is seen and val(False, pol) is pol and val(False, seen) is seen:
                sets.append(n)
            elif eqs and val(True, pol) is seen and val(False, seen) is pol:
                good = False
                R.bad('%s: missing diagonal' % lab, 'an element after the diagonal one makes the row count as having none', [n.where()])
            else:
                good = False
                R.unknown('%s: flag value %s' % (lab, show(v)[:60]))
    sets += [n for n in ws if n.value.op == 'cb' and bool(n.value.a[0]) != pol]
    if not sets and good:
        good = False
        R.bad('%s: missing diagonal' % lab, 'rows with a diagonal element get another one', [d.n.where()])
    if not cleared:
        good = False
        R.bad('%s: missing diagonal' % lab, 'whether a row has a diagonal element is not forgotten before the next row', [n.where() for n in ws][:3])
    if good:
        R.ok('%s: diagonal element inserted where there is none' % lab)


def borders(R, w, g, idom, lab, e, queue, M):
    """slice borders: pushes of size(queue) after the expansion of row h, when h has reached the last border"""
    outer = next((h for h in loops_of(g, e.n) if e.r.op == 'lv' and h.lid == e.r.a[0]), None)
    if outer is None:
        return
    body = body_of(g, outer)
    inner = [h for h in loops_of(g, e.n) if h is not outer]
    lists = set()
    for n in g.nodes:
        if n.id in body and n.kind == 'mut' and n.method in ('push_back', 'emplace_back') and n.place is not queue and n.args \
                and contains(n.args[0], lambda y: y.op == 'size' and place_of(y.a[0]) is queue):
            lists.add(n.place)
    if len(lists) != 1:
        R.unknown('%s: slice borders' % lab)
        return
    sl = next(iter(lists))
    for n in g.nodes:
        if n.kind == 'mut' and n.place is sl and n.id in body and n.method in ('push_back', 'emplace_back'):
            R.count('slice borders')
            v = n.args[0]
            ok = True
            # after the expansion of the row
            sz = [y for y in subterms(v) if y.op == 'size' and place_of(y.a[0]) is queue]
            after = all(i.id in dom_chain(idom, n.id) and n.id not in body_of(g, i) for i in inner)
            if not after:
                R.bad('%s: slice border' % lab, 'the border is recorded before the row has been expanded', [n.where()])
                continue
            post = [y for y in sz if y.a[0].op == 'lv' and any(y.a[0].a[0] == i.lid for i in inner) or y.a[0].op == 'upd']
            if not post:
                R.bad('%s: slice border' % lab, 'the border %s does not count the states that the row adds' % show(v)[:100], [n.where()])
                continue
            d = SUB(v, post[0])
            if d.op == 'c' and d.a[0] >= 0:
                R.ok('%s: border counts the states reached so far' % lab)
            elif d.op == 'c':
                R.bad('%s: slice border' % lab, 'the border %s is less than the number of states reached' % show(v)[:100], [n.where()])
            else:
                R.unknown('%s: border %s' % (lab, show(v)[:100]))
            # when the row is the last one of the slice
            st = []
            for c, p in dom_edges(g, idom, n):
                c, p = strip(c, p)
                if not contains(c, lambda y: y.op == 'elem' and place_of(y.a[0]) is sl):
                    continue
                st.append((c, p))
            done = False
            for c, p in st:
                b = [y for y in subterms(c) if y.op == 'elem' and place_of(y.a[0]) is sl]
                if c.op == 'eq' and p and len(set(b)) == 1:
                    diff = SUB(SUB(c.a[0], c.a[1]), ADD(e.r, MUL(cint(-1), b[0])))      # side - other - (h - back)
                    diff2 = SUB(SUB(c.a[1], c.a[0]), ADD(e.r, MUL(cint(-1), b[0])))
                    dd = diff if diff.op == 'c' else diff2
                    if dd.op == 'c':
                        done = True
                        # h - back + dd == 0  =>  h = back - dd; need h >= back - 1
                        last = b[0].a[1].op == 'add' and any(y.op == 'size' for y in b[0].a[1].a)
                        if dd.a[0] <= 1 and last:
                            R.ok('%s: recorded at the last row of the slice' % lab)
                        elif dd.a[0] > 1:
                            R.bad('%s: slice border' % lab, 'the border is recorded at row back - %d, before the last row of the slice' % dd.a[0], [n.where()])
                        else:
                            R.unknown('%s: border %s' % (lab, show(b[0])[:80]))
                elif c.op == 'lt' and len(set(b)) == 1:
                    done = None
            if done is False:
                if st:
                    R.unknown('%s: border recorded when %s' % (lab, show(st[0][0])[:100]))
                else:
                    R.bad('%s: slice border' % lab, 'a border is recorded at rows which do not end a slice', [n.where()])
            elif done is None:
                R.unknown('%s: border recorded when %s' % (lab, show(st[0][0])[:100]))
    # the first border
    pre = [n for n in g.nodes if n.kind == 'mut' and n.place is sl and n.id not in body and n.id in dom_chain(idom, outer.id)
           and n.method in ('push_back', 'emplace_back')]
    seeds = [n for n in g.nodes if n.kind == 'mut' and n.place is queue and n.id in dom_chain(idom, outer.id) and n.method in ('push_back', 'emplace_back')]
    if len(pre) == 1 and pre[0].args[0].op == 'c' and seeds:
        if pre[0].args[0].a[0] < len(seeds):
            R.bad('%s: slice border' % lab, 'the first slice ends at %s with %d queued rows' % (show(pre[0].args[0]), len(seeds)), [pre[0].where()])
        else:
            R.ok('%s: first slice' % lab)
    # the last one
    after = [n for n in g.nodes if n.kind == 'mut' and n.place is sl and n.id not in body and outer.id in dom_chain(idom, n.id)
             and n.method not in ('shrink_to_fit', 'reserve')]
    fin = [n for n in after if n.method in ('push_back', 'emplace_back') and n.args[0].op == 'call' and n.args[0].a[0] in ('rows', 'cols', 'outerSize')]
    if not fin:
        R.bad('%s: last slice' % lab, 'nothing makes the last slice end at the size of the matrix (rows that the source cannot reach come after it)',
              [outer.where()])
        return
    f = fin[-1]
    later = [n for n in after if n is not f and f.id in dom_chain(idom, n.id) or n is not f and n.kind == 'mut' and reaches(f, n)]
    gs = [strip(c, p) for c, p in dom_edges(g, idom, f) if contains(c, lambda y: y.op == 'elem' and place_of(y.a[0]) is sl)]
    if later:
        R.bad('%s: last slice' % lab, 'the borders are changed by %s after the last one was made the size of the matrix' % later[0].method,
              [f.where(), later[0].where()])
        return
    for c, p in gs:
        other = [y for y in c.a if isinstance(y, T) and not contains(y, lambda z: z.op == 'elem' and place_of(z.a[0]) is sl)]
        b = [y for y in c.a if isinstance(y, T) and y not in other]
        if c.op == 'eq' and not p and other and other[0] is f.args[0] and b and b[0].op == 'elem':
            continue
        if c.op == 'lt' and p and len(c.a) == 2 and b and c.a[0] is b[0] and b[0].op == 'elem' and other[0] is f.args[0]:
            continue
        if other and other[0] is not f.args[0] and len(b) == 1 and b[0].op == 'elem':
            sz = f.args[0]
            v = [evaluate(c, lambda t: x if t is b[0] else y if t is sz else None, {}) for x in range(1, 6) for y in range(x + 1, 7)]
            if any(z is not None and z != p for z in v):
                R.bad('%s: last slice' % lab, 'the last border is left at less than the size of the matrix unless %s' % show(c)[-120:], [f.where()])
                return
            if all(z == p for z in v):
                continue
        R.unknown('%s: last border added when %s' % (lab, show(c)[:100]))
        return
    if len(gs) <= 1:
        R.ok('%s: the last slice ends at the size of the matrix' % lab)


def reaches(a, b):
    st, seen = [m for m, _ in a.succ], set()
    while st:
        x = st.pop()
        if x is b:
            return True
        if x.id in seen:
            continue
        seen.add(x.id)
        st.extend(m for m, _ in x.succ)
    return False


def scaled(R, w, g, idom, f, nmats):
    """optimized_matrix written as a whole"""
    done = 0
    for n in g.nodes:
        if n.kind not in ('write', 'init') or not isinstance(n.value, T):
            continue
        v = n.value
        if v.op not in ('prod', 'mul', 'op', 'add'):
            continue
        hs = list(set(y for y in subterms(v) if y.op == 'deref'))
        av, bv = scale_terms([v])
        eyes = [y for y in subterms(v) if y.op == 'identity' or y.op == 'call' and y.a and y.a[0] == 'identity']
        if len(hs) != 1 or not av | bv or not understood(v, hs + list(av) + list(bv) + eyes):
            continue
        H = hs[0]
        gs = [strip(c, p) for c, p in dom_edges(g, idom, n)]
        b0 = any(p and c.op == 'eq' and any(y in bv or y.op == 'fld' and y.a[1] == 'b' for y in c.a) and
                 any(y is cint(0) or y.op == 'cf' and y.a[0] == 0 for y in c.a) for c, p in gs)
        R.count('scaled matrices')

        def pair(seed):
            A = Alg(None, seed)
            a, b, h = A.sym('a'), (0 if b0 else A.sym('b')), A.sym('H')

            def leaf(t):
                if t is H:
                    return h
                if t in av:
                    return a
                if t in bv:
                    return b
                if t.op == 'call' and t.a and t.a[0] == 'identity' or t.op == 'identity':
                    return 1
                return None
            A.leaf = leaf
            return A.val(v), 2 * pow(a, -1, P61) * (h - b) % P61
        if identical(pair):
            done += 1
            R.ok('optimize_for: %s: %s is (H - b) 2/a' % (n.loc(), 'b == 0' if b0 else 'whole matrix'))
        else:
            R.bad('optimize_for: scaled matrix', 'the matrix %s is not (H - b) 2/a%s' % (show(v)[:150], ' where b is 0' if b0 else ''), [n.where()])
    if not done:
        R.unknown('optimize_for: scaled matrix not found')


def role(t, name):
    """does the term read the field `name` of an index pair"""
    return contains(t, lambda y: y.op == 'fld' and y.a[1] == name)


def gathered(w, g, t):
    """(element writes) of the array a term is the final state of"""
    p = place_of(t)
    return [n for n in g.nodes if n.kind == 'write' and n.place.op == 'elem' and n.place.a[0] is p]


def targets(P, R):
    """optimized target indices: map of the given ones where reordered, the given ones otherwise"""
    for f in pick(P, 'cpb::kpm::OptimizedHamiltonian::optimize_for'):
        w = Walker(P)
        g = w.run(f)
        idom = dominators(g)
        acc = pick(P, 'cpb::kpm::OptimizedHamiltonian::idx')
        if not acc:
            R.unknown('OptimizedHamiltonian::idx not found')
            return
        g2 = Walker(P).run(acc[0])
        slot = next((n.value for n in g2.nodes if n.kind == 'return'), None)
        slot = exit_value(g2)
        if slot is None or slot.op != 'fld':
            R.unknown('OptimizedHamiltonian::idx: %s' % slot)
            return
        es, _ = emissions(g)
        maps = {}
        for e in es:
            vs = csr_element(e.v)
            if vs and vs[0].a[1].op == 'lv':
                maps[e.n.id] = (e, place_maps(e))
        for n in g.nodes:
            if n.kind != 'write' or n.place is not slot:
                continue
            R.count('target index assignments')
            mine = [(e, ms) for e, ms in maps.values() if relevant(g, n, e) and e.n.id in back(n)]
            parts = {}
            if n.value.op == 'obj':
                parts = dict(x for x in n.value.a if isinstance(x, tuple))
            for name in ('src', 'dest'):
                lab = 'optimize_for: %s: %s' % (n.loc(), name)
                other = 'dest' if name == 'src' else 'src'
                t = parts.get(name)
                if t is None:
                    if n.value.op == 'root' or n.value.op == 'param' or not parts:
                        if mine:
                            if n.value.op == 'root':
                                R.bad(lab, 'the target indices are not translated to the new order', [n.where()])
                            else:
                                R.unknown('%s: %s' % (lab, show(n.value)[:80]))
                        else:
                            R.ok('%s: the given indices' % lab)
                    continue
                if not mine:
                    if t.op == 'fld' and t.a[1] == name:
                        R.ok('%s: the given indices' % lab)
                    elif t.op == 'fld' and t.a[1] == other:
                        R.bad(lab, 'the %s indices are taken from the %s indices' % (name, other), [n.where()])
                    else:
                        R.unknown('%s: %s' % (lab, show(t)[:80]))
                    continue
                mp = mine[0][1]
                ws = gathered(w, g, t)
                if not ws and role(t, other) and not role(t, name):
                    R.bad(lab, 'the %s indices are taken from the %s indices' % (name, other), [n.where()])
                    continue
                if not ws and t.op == 'fld':
                    R.bad(lab, 'the target indices are not translated to the new order', [n.where()])
                    continue
                if not ws:
                    R.unknown('%s: %s' % (lab, show(t)[:80]))
                for x in ws:
                    v = x.value
                    if v.op == 'elem' and place_of(v.a[0]) in mp and v.a[1].op == 'elem' and v.a[1].a[0].op == 'fld':
                        if v.a[1].a[0].a[1] == other:
                            R.bad(lab, 'the %s indices are taken from the %s indices' % (name, other), [x.where()])
                        elif v.a[1].a[1] is not x.place.a[1]:
                            R.bad(lab, 'index %s is taken from position %s' % (show(x.place.a[1]), show(v.a[1].a[1])), [x.where()])
                        elif v.a[0].op == 'lv':
                            R.ok('%s: through the finished map' % lab)
                        else:
                            R.unknown('%s: %s' % (lab, show(v)[:80]))
                    elif v.op == 'elem' and v.a[0].op == 'fld' and v.a[0].a[1] in ('src', 'dest'):
                        R.bad(lab, 'the target indices are not translated to the new order', [x.where()])
                    else:
                        R.unknown('%s: %s' % (lab, show(v)[:80]))


def place_maps(e):
    return set(place_of(x.a[0]) for _, x in alternatives(e.c) if x.op == 'elem') | \
        set(place_of(u[0].a[0]) for cs, x in alternatives(e.c) for u in [says_unmapped(c, p) for c, p in cs] if u)


def back(n):
    seen = set()
    st = [m for m, _ in n.pred]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        st.extend(m for m, _ in x.pred)
    return seen


def exit_value(g):
    for n in g.nodes:
        if n.kind == 'exit':
            return n.d.get('ret')
    return None


# ------------------------------------------------------------------------------------------------------------- slices
def slice_index(P, R):
    acc = {}
    for name in ('index', 'last_index', 'optimal_size', 'get_src_offset', 'get_dest_offset', 'get_data'):
        fs = pick(P, 'cpb::kpm::SliceMap::' + name)
        if not fs:
            R.unknown('SliceMap::%s not found' % name)
            continue
        g, w = graph(P, fs[0])
        acc[name] = (fs[0], exit_value(g), g, w)
    if not all(k in acc and acc[k][1] is not None for k in ('get_src_offset', 'get_dest_offset', 'get_data')):
        return
    src, dest, data = (acc[k][1] for k in ('get_src_offset', 'get_dest_offset', 'get_data'))
    n, N = arg(0), arg(1)

    def sym(t):
        if t is n:
            return 'n'
        if t is N:
            return 'N'
        if t is src:
            return 's'
        if t is dest:
            return 'd'
        if t.op == 'size' and t.a[0] is data:
            return {'last': 1, 1: 1}
        return None
    pre = [{'n': 1, 1: 0}, {'N': 1, 'n': -1, 1: -1}, {'s': 1, 1: 0}, {'d': 1, 1: 0}, {'last': 1, 's': -1, 1: 0}, {'last': 1, 'd': -1, 1: 0}]

    def prove(t, lab, fn):
        for cons, r in pieces(t, sym):
            cs = pre + cons
            for what, neg in (('is past the last border', [ladd(r, {'last': 1, 1: 1}, -1)]),
                              ('is negative', [ladd(lconst(-1), r, -1)]),
                              ('leaves out rows which the source has reached and which can reach the destination',
                               [ladd({'last': 1, 1: -1}, r, -1), ladd({'n': 1, 's': 1, 1: -1}, r, -1),
                                ladd({'N': 1, 'n': -1, 'd': 1, 1: -2}, r, -1)])):
                R.count('linear systems')
                if infeasible(cs + neg):
                    R.ok('%s: never %s' % (lab, what))
                    continue
                syms = set(k for c in cs + neg for k in c if k != 1)
                if any(isinstance(k, tuple) and k[0] == 'opaque' for k in syms):
                    R.unknown('%s: %s' % (lab, show(t)[:100]))
                    continue
                wit = witness(cs + neg, syms)
                if wit:
                    R.bad('%s: %s' % (lab, what), 'for moment n=%d of %d, source offset %d, destination offset %d and %d borders the slice %s' %
                          (wit.get('n', 0), wit.get('N', 0), wit.get('s', 0), wit.get('d', 0), wit.get('last', 0) + 1, what), ['%s:%d' % (fn.file, fn.line)])
                else:
                    R.unknown('%s: %s' % (lab, show(t)[:100]))
    if 'index' in acc and acc['index'][1] is not None:
        prove(acc['index'][1], 'SliceMap::index', acc['index'][0])
    if 'optimal_size' in acc and acc['optimal_size'][1] is not None:
        for cs, t in alternatives(acc['optimal_size'][1]):
            if t.op == 'elem' and t.a[0] is data:
                if not cs:
                    prove(t.a[1], 'SliceMap::optimal_size', acc['optimal_size'][0])
                else:
                    R.unknown('SliceMap::optimal_size: conditions')
            else:
                R.unknown('SliceMap::optimal_size: %s' % show(t)[:80])
    # accessor names and the constructor
    for f in pick(P, 'cpb::kpm::SliceMap::SliceMap', n=2):
        g, w = graph(P, f)
        idx = arg(1)
        for name, slot in (('src', src), ('dest', dest)):
            R.count('slice offsets')
            lab = 'SliceMap: %s offset' % name
            other = 'dest' if name == 'src' else 'src'
            ws = [x for x in g.nodes if x.kind == 'write' and slot.op == 'fld' and x.place.op == 'fld' and x.place.a[1] == slot.a[1]]
            ws = [x for x in ws if x.d.get('how') != 'init'] or ws
            if not ws:
                R.unknown('%s: not written' % lab)
            for x in ws:
                v = posn(x.value)
                off = 0
                if v.op == 'add':
                    k = [y for y in v.a if y.op == 'c']
                    o = [y for y in v.a if y.op != 'c']
                    if len(o) == 1 and len(k) == 1 and o[0].op == 'findpos':
                        v, off = o[0], k[0].a[0]
                if v.op != 'findpos':
                    R.unknown('%s: %s' % (lab, show(v)[:100]))
                    continue
                c, pol = strip(v.a[0], True)
                if off < 0:
                    R.bad(lab, 'the offset is %d before the first border past the largest %s index' % (-off, name), [x.where()])
                    continue
                if role(c, other) and not role(c, name):
                    R.bad(lab, 'the %s offset is found from the %s indices' % (name, other), [x.where()])
                    continue
                if c.op != 'lt':
                    R.unknown('%s: %s' % (lab, show(c)[:100]))
                    continue
                l, r = c.a
                if role(l, name) and pol:
                    e = l
                elif role(r, name) and not pol:
                    R.bad(lab, 'the slice found may end at the largest %s index without including it' % name, [x.where()])
                    continue
                else:
                    R.unknown('%s: %s' % (lab, show(c)[:100]))
                    continue
                mx = e.op == 'elem' and e.a[1].op in ('max_element',) or contains(e, lambda y: y.op == 'max_element') \
                    or contains(e, lambda y: y.op == 'call' and str(y.a[0]).split('::')[-1] in ('maxCoeff', 'max_element'))
                if mx:
                    R.ok('%s: first border past the largest index' % lab)
                elif contains(e, lambda y: y.op == 'min_element' or y.op == 'call' and str(y.a[0]).split('::')[-1] in ('minCoeff', 'min_element')) \
                        or e.op == 'elem' and e.a[0].op == 'fld' and not contains(e.a[1], lambda y: y.op not in
                                                                                  ('c', 'add', 'mul', 'size', 'fld', 'root', 'deref', 'op')):
                    R.bad(lab, 'the slice is found from %s, which is not the largest index' % show(e)[:80], [x.where()])
                else:
                    R.unknown('%s: %s' % (lab, show(e)[:100]))


# ------------------------------------------------------------------------------------------------------------- ELL
def ell(P, R):
    for f in pick(P, 'cpb::num::csr_to_ell'):
        g, w = graph(P, f)
        lab = 'csr_to_ell: %s' % sig(f)
        csr = arg(0)
        R.count('conversions')
        ret = exit_value(g)
        if ret is None or ret.op != 'obj':
            R.unknown('%s: result %s' % (lab, show(ret)[:60] if ret is not None else None))
            continue
        parts = dict(x for x in ret.a if isinstance(x, tuple))
        data, ind = parts.get('data'), parts.get('indices')
        if data is None or ind is None:
            R.unknown('%s: result' % lab)
            continue
        wd, wi = gathered(w, g, data), gathered(w, g, ind)
        elems = [x for x in wd if csr_element(x.value)]
        pads = [x for x in wd if not csr_element(x.value)]
        if len(elems) != 1:
            R.unknown('%s: %d element writes' % (lab, len(elems)))
            continue
        x = elems[0]
        ij = indices(x.place.a[1])
        V = csr_element(x.value)[0]
        k = V.a[1]
        X = row_of(w, k) if k.op == 'lv' else None
        if ij is None or X is None:
            R.unknown('%s: element %s' % (lab, show(x.value)[:60]))
            continue
        row, n = ij
        if row is X:
            R.ok('%s: row' % lab)
        elif row.op == 'lv' or n is X:
            R.bad('%s: row' % lab, 'elements of row %s are stored in row %s' % (show(X), show(row)), [x.where()])
        else:
            R.unknown('%s: row %s' % (lab, show(row)[:60]))
        if x.value is V:
            R.ok('%s: value' % lab)
        else:
            R.bad('%s: value' % lab, 'the element is stored as %s' % show(x.value)[:100], [x.where()])
        ci = [y for y in wi if contains(y.value, lambda z: z.op == 'elem' and z.a[0].op == 'fld' and z.a[0].a[1] == 'innerIndexPtr')]
        if len(ci) == 1:
            y = ci[0]
            if y.place.a[1] is not x.place.a[1]:
                R.bad('%s: column' % lab, 'the column is stored at %s, the value at %s' % (show(y.place.a[1])[:80], show(x.place.a[1])[:80]),
                      [y.where(), x.where()])
            elif y.value.op == 'elem' and y.value.a[1] is k:
                R.ok('%s: column' % lab)
            elif y.value.op == 'elem' or y.value.op == 'add':
                R.bad('%s: column' % lab, 'the column is stored as %s' % show(y.value)[:100], [y.where()])
            else:
                R.unknown('%s: column %s' % (lab, show(y.value)[:60]))
        else:
            R.unknown('%s: column' % lab)
        class E:
            pass
        e = E()
        e.n, e.r, e.c = x, row, n
        whole_row(R, w, g, lab, e, k, csr, X)
        whole_matrix(R, w, g, lab, e, csr)
        # the slot number
        i = w.lvinfo.get(n) if n.op == 'lv' else None
        if i and len(i) > 1:
            if i[0] is cint(0) and i[1] is ADD(n, cint(1)):
                R.ok('%s: one slot per element' % lab)
            elif i[0].op == 'c' and i[1].op in ('add', 'lv'):
                R.bad('%s: slots' % lab, 'slots start at %s and go to %s' % (show(i[0]), show(i[1])[:60]), [x.where()])
            else:
                R.unknown('%s: slots %s' % (lab, [show(y)[:40] for y in i]))
        else:
            R.unknown('%s: slot %s' % (lab, show(n)[:60]))
        # padding
        z = [y for y in pads if y.value.op in ('c', 'cf') and y.value.a[0] == 0 or y.value.op in ('call', 'zero') and 'complex' in show(y.value)]
        whole = contains(data, lambda y: y.op == 'upd' and 'Zero' in str(y.a[1])) or any(
            m.kind == 'mut' and m.method in ('setZero', 'setConstant', 'fill') and m.place is place_of(data) for m in g.nodes)
        if whole:
            R.ok('%s: padding is zero' % lab)
        elif not pads:
            R.bad('%s: padding' % lab, 'the unused slots of a row are not set to zero', [x.where()])
        else:
            for y in pads:
                ij2 = indices(y.place.a[1])
                zero = y.value.op in ('c', 'cf') and y.value.a[0] == 0 or y.value.op not in ('c', 'cf', 'elem')
                if y.value.op in ('c', 'cf', 'elem') and not zero:
                    R.bad('%s: padding' % lab, 'the unused slots of a row hold %s' % show(y.value)[:60], [y.where()])
                    continue
                if ij2 is None or ij2[1].op != 'lv':
                    R.unknown('%s: padding at %s' % (lab, show(y.place)[:60]))
                    continue
                i = w.lvinfo.get(ij2[1])
                h = next((h for h in g.nodes if h.kind == 'loop' and h.lid == ij2[1].a[0]), None)
                bs = bound_of(g, h, ij2[1]) if h is not None else []
                start_ok = i and (i[0] is n or i[0].op == 'lv' and place_of(i[0]) is place_of(n) or i[0] is cint(0))
                nnz = parts.get('nnz_per_row')
                end_ok = any(b is nnz or b.op == 'call' and b.a[0] == 'cols' for b in bs)
                if start_ok and end_ok:
                    R.ok('%s: padding of the remaining slots' % lab)
                elif bs and all(SUB(b, nnz).op == 'c' for b in bs) or i and SUB(i[0], n).op == 'c':
                    R.bad('%s: padding' % lab, 'the padding goes from %s to %s of %s slots' % (show(i[0])[:50], show(bs[0])[:50] if bs else '?', show(nnz)[:50]),
                          [y.where()])
                else:
                    R.unknown('%s: padding from %s to %s' % (lab, show(i[0])[:50] if i else None, [show(b)[:50] for b in bs]))
        # enough slots
        nnz = parts.get('nnz_per_row')
        wide(R, w, g, lab, nnz, csr)


def wide(R, w, g, lab, t, csr):
    """slots per row: the largest number of elements of a row"""
    i = w.lvinfo.get(t) if t is not None and t.op == 'lv' else None
    if not i or len(i) < 2:
        R.unknown('%s: slots per row %s' % (lab, show(t)[:60] if t is not None else None))
        return
    d = None
    s = i[1]
    if s.op == 'sel' and s.a[0].op in ('lt', 'not'):
        c, pol = strip(s.a[0], True)
        big, small = (s.a[1], s.a[2]) if pol else (s.a[2], s.a[1])
        if c.op == 'lt':
            if c.a[0] is t and small is t:
                d = big
                cmpd = c.a[1]
            elif c.a[1] is t and big is t:
                d = small
                cmpd = c.a[0]
            elif t in c.a and t in (big, small):
                R.bad('%s: slots per row' % lab, 'the number of slots is not the largest number of elements of a row: %s' % show(s)[:150], [])
                return
    elif s.op == 'call' and str(s.a[0]).endswith('max') and t in s.a:
        d = cmpd = [y for y in s.a[1:] if y is not t][0]
    if d is None:
        R.unknown('%s: slots per row %s' % (lab, show(s)[:80]))
        return
    if i[0].op != 'c' or i[0].a[0] < 0:
        R.unknown('%s: slots per row from %s' % (lab, show(i[0])[:40]))
        return
    o = [y for y in subterms(d) if y.op == 'elem' and y.a[0].op == 'fld' and y.a[0].a[1] == 'outerIndexPtr']
    if len(set(o)) == 2 and cmpd is d:
        a, b = o[0], [y for y in o if y is not o[0]][0]
        for hi, lo in ((a, b), (b, a)):
            k = SUB(hi.a[1], lo.a[1])
            if k is cint(1):
                e = SUB(d, ADD(hi, MUL(cint(-1), lo)))
                if e.op == 'c' and e.a[0] >= 0:
                    R.ok('%s: as many slots as the fullest row has elements' % lab)
                elif e.op == 'c':
                    R.bad('%s: slots per row' % lab, 'there are %d slots fewer than the fullest row has elements' % -e.a[0], [])
                else:
                    R.unknown('%s: slots per row %s' % (lab, show(d)[:80]))
                # all the rows
                if lo.a[1].op == 'lv':
                    h = next((h for h in g.nodes if h.kind == 'loop' and h.lid == lo.a[1].a[0]), None)
                    c0 = counter(w, lo.a[1])
                    bs = bound_of(g, h, lo.a[1]) if h is not None else []
                    if c0 is cint(0) and bs and all(b.op in ('call', 'size') for b in bs):
                        R.ok('%s: all the rows are counted' % lab)
                    elif c0 is not None and c0.op == 'c' and c0 is not cint(0) or any(b.op == 'add' for b in bs):
                        R.bad('%s: slots per row' % lab, 'rows from %s to %s are counted' % (show(c0), [show(b)[:40] for b in bs]), [h.where()])
                    else:
                        R.unknown('%s: rows counted' % lab)
                return
    R.unknown('%s: slots per row %s' % (lab, show(d)[:80]))


# ------------------------------------------------------------------------------------------------------------- vectors and operators
def vectors(P, R):
    for f in pick(P, 'cpb::kpm::OptimizedHamiltonian::reorder'):
        g, w = graph(P, f)
        lab = 'reorder: %s' % (f.decl.params[0].s if f.decl.params else '')[:70]
        v = arg(0)
        R.count('reorder functions')
        es, _ = emissions(g)
        if any(csr_element(e.v) for e in es):
            for e in es:
                vs = csr_element(e.v)
                if not vs:
                    continue
                V = vs[0]
                k = V.a[1]
                X = row_of(w, k) if k.op == 'lv' else None
                C = next((y for y in subterms(e.c) if y.op == 'elem' and y.a[0].op == 'fld' and y.a[0].a[1] == 'innerIndexPtr'), None)
                C2 = next((y for y in subterms(e.r) if y.op == 'elem' and y.a[0].op == 'fld' and y.a[0].a[1] == 'innerIndexPtr'), None)
                if X is None:
                    R.unknown('%s: row' % lab)
                    continue
                good = e.r.op == 'elem' and e.r.a[1] is X and e.c.op == 'elem' and C is not None and e.c.a[1] is C and C.a[1] is k \
                    and place_of(e.r.a[0]) is place_of(e.c.a[0])
                if good and e.v is V:
                    R.ok('%s: (map[row], map[column]) = value' % lab)
                    whole_row(R, w, g, lab, e, k, v, X)
                elif good:
                    R.bad('%s: value' % lab, 'the value is stored as %s' % show(e.v)[:100], [e.n.where()])
                elif e.r.op in ('elem', 'lv') and e.c.op in ('elem', 'lv') and (C is not None or C2 is not None):
                    R.bad('%s: place' % lab, 'element (%s, column) is stored at (%s, %s)' % (show(X)[:40], show(e.r)[:80], show(e.c)[:80]), [e.n.where()])
                else:
                    R.unknown('%s: (%s, %s)' % (lab, show(e.r)[:60], show(e.c)[:60]))
            continue
        ws = [n for n in g.nodes if n.kind == 'write' and n.place.op == 'elem']
        if not ws:
            R.unknown('%s: no element writes' % lab)
        for n in ws:
            i, val = n.place.a[1], n.value
            if val.op == 'elem' and val.a[0] is v and i.op == 'elem' and i.a[1] is val.a[1]:
                if i.a[0] is v:
                    R.unknown('%s: in place' % lab)
                else:
                    R.ok('%s: new[map[i]] = old[i]' % lab)
                    k = val.a[1]
                    if k.op == 'lv' and k in w.lvinfo:
                        h = next((h for h in g.nodes if h.kind == 'loop' and h.lid == k.a[0]), None)
                        c0, bs = counter(w, k), bound_of(g, h, k)
                        if c0 is cint(0) and bs and all(b.op in ('size', 'call') for b in bs):
                            R.ok('%s: every element' % lab)
                        elif c0 is not None and c0.op == 'c' and c0 is not cint(0) or any(b.op == 'add' for b in bs):
                            R.bad('%s: range' % lab, 'elements %s to %s are moved' % (show(c0), [show(b)[:40] for b in bs]), [h.where()])
                        else:
                            R.unknown('%s: range' % lab)
            elif val.op == 'elem' and val.a[0] is v and val.a[1].op == 'elem' and val.a[1].a[1] is i:
                R.bad('%s: direction' % lab, 'the inverse of the map is applied: new[i] = old[map[i]]', [n.where()])
            elif val.op == 'elem' and val.a[0] is v and val.a[1] is i:
                R.bad('%s: direction' % lab, 'the elements are copied without going through the map', [n.where()])
            else:
                R.unknown('%s: %s = %s' % (lab, show(n.place)[:60], show(val)[:60]))
        back_ = [n for n in g.nodes if n.kind == 'write' and n.place is v]
        if back_:
            R.ok('%s: the result replaces the vector' % lab)
        else:
            R.unknown('%s: result' % lab)


def beyond_size(t, name):
    """does the term read elements of the field `name`, not only their number"""
    if not isinstance(t, T):
        return False
    if t.op == 'size' or t.op == 'call' and str(t.a[0]).split('::')[-1] in ('size', 'rows', 'cols'):
        return False
    if t.op == 'fld' and t.a[1] == name:
        return True
    return any(beyond_size(x, name) for y in t.a for x in (y if isinstance(y, tuple) else (y,)))


def reuse(P, R):
    """the matrix made for other target indices is only used again if all of both index lists agree"""
    for f in pick(P, 'cpb::kpm::OptimizedHamiltonian::optimize_for'):
        w = Walker(P)
        g = w.run(f)
        acc = pick(P, 'cpb::kpm::OptimizedHamiltonian::idx')
        slot = exit_value(Walker(P).run(acc[0])) if acc else None
        if slot is None or slot.op != 'fld':
            R.unknown('OptimizedHamiltonian::idx')
            return
        made = {n.id for n in g.nodes if n.kind == 'write' and (n.place is slot or slot in prefixes(n.place))}
        if not made:
            R.unknown('optimize_for: target indices not written')
            return
        for name in ('src', 'dest'):
            R.count('conditions for using the matrix again')
            lab = 'optimize_for: reuse: %s' % name
            wrong = []

            def compares(n, label):
                c = n.d.get('cond')
                if n.kind != 'branch' or not isinstance(c, T) or not beyond_size(c, name):
                    return False
                pol = str(label) == 'True'
                while c.op == 'not':
                    c, pol = c.a[0], not pol
                if c.op == 'call' and str(c.a[0]).split('::')[-1] in ('any', 'all') and len(c.a) > 1:
                    some = str(c.a[0]).split('::')[-1] == 'any'
                    e = c.a[1]
                    differ = e.op == 'not'
                    if differ:
                        e = e.a[0]
                    if e.op == 'eq' and (some != differ or pol == differ):
                        if pol != differ:
                            wrong.append(n)
                        return False
                return True
            # a loop over the elements which compares them: left at its head when none differs
            passed = set()
            for n in g.nodes:
                c = n.d.get('cond')
                if n.kind == 'branch' and isinstance(c, T) and beyond_size(c, name) and contains(c, lambda y: y.op == 'lv'):
                    for h in loops_of(g, n)[:1]:
                        b = body_of(g, h)
                        passed |= {(i, m.id) for i in b for m, _ in g.nodes[i].succ if m.id not in b and g.nodes[i] is not n}
            seen, todo, back_ = {g.entry.id}, [g.entry], {}
            hit = None
            while todo:
                n = todo.pop()
                if n.kind == 'exit':
                    hit = n
                    break
                for m, label in n.succ:
                    if m.id in seen or m.id in made or (n.id, m.id) in passed or compares(n, label):
                        continue
                    seen.add(m.id)
                    back_[m.id] = (n, label)
                    todo.append(m)
            if hit is None:
                R.ok('%s: compared element by element' % lab)
                continue
            path, conds = [], []
            n = hit
            while n.id in back_:
                n, label = back_[n.id]
                if n.kind == 'branch':
                    path.append('%s: %s is %s' % (n.loc(), show(n.d['cond'], 6)[:120], label))
                    conds.append(n.d['cond'])
            fields = ('src', 'dest')
            if all(any(role(c, x) for x in fields) or c.op == 'c' for c in conds):
                R.bad(lab, 'the matrix optimized for other indices is used although the %s indices may differ' % name,
                      (path[::-1] or [f.decl.qn]) + [n.where() for n in wrong[:1]])
            else:
                R.unknown('%s: %s' % (lab, path[:2]))


PARTS = [reuse, reorder_part, targets, slice_index, ell, vectors]
