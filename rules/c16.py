"""Shapes select the sites inside of them, without dangling ones, and leads extend the system up to its edge."""
import itertools, math, random
from world import *
from rand import Outside
from walk import Walker
from c13 import outcome, ret, ptype, brief
from c14 import model, check, is_call, sample_range, range_rec, slice_sites, slice_range, at_site, cells
from c15 import unrolled, passes

LEVEL = 'other'
RULE = ('A line contains the points between the two planes through its ends; a polygon those from which a ray crosses its edges an odd number of '
        'times; a freeform box has the corners center +/- width/2; a site is valid when the shape contains its position; a site that is left out '
        'lowers the number of neighbors of each valid neighbor by one, and a neighbor left with fewer than the minimum is left out in turn; a '
        'lead fills in the sites of its junction up to the first existing one.')
EXPLAIN = ('The terms of the predicates are evaluated at random points and polygons; the passes over sites and hoppings at every site of sample '
           'foundations: which states and counts they change, and to what, compared with the rule.')
ASSUME = ['Eigen operations mean what they are documented to mean', 'rounding errors are not considered']


def points(rnd, n, lim=4):
    return [[rnd.uniform(-lim, lim) for _ in range(3)] for _ in range(n)]


def refs(pts):
    r = {}
    for k, c in enumerate('xyz'):
        r[c] = r[c + '_ref'] = vec([p[k] for p in pts])
    return Rec(**r)


class Elem(World):
    """logical operators act on the elements of arrays"""
    def _ev(self, t):
        if t.op in ('and', 'or', 'not', 'eq', 'lt') and all(isinstance(x, T) and x.op != 'null' for x in t.a):
            v = [self.ev(x) for x in t.a]
            n = {len(x.d) for x in v if isinstance(x, A)}
            if n:
                if len(n) > 1:
                    raise Und('sizes of arrays')
                n = n.pop()
                v = [x.d if isinstance(x, A) else [x] * n for x in v]
                op = {'and': lambda *x: all(x), 'or': lambda *x: any(x), 'not': lambda x: not x, 'eq': lambda x, y: x == y, 'lt': lambda x, y: x < y}[t.op]
                return vec([op(*x) for x in zip(*v)])
        if t.op == 'op' and len(t.a) == 3 and t.a[0] == '/':
            x, y = self.ev(t.a[1]), self.ev(t.a[2])
            if type(x) is int and type(y) is int and y > 0:
                return x // y if x >= 0 else -(-x // y)
        return World._ev(self, t)

    def store(self, x, key, v, t):
        b = t.a[0]
        if key.op == 'elem' and key.a[0].op == 'fld' and isinstance(b, T) and all(k.a[0] is key.a[0] for k, _ in t.a[1:]):
            p = b.a[1] if b.op == 'lv' else b if b.op == 'fld' and b.a[0].op == 'call' else None
            if isinstance(p, T) and p is not key.a[0] and p.op == 'fld' and p.a[1] == key.a[0].a[1]:
                return self.put(x, [key], v)        # part of a local which was made by a call or copied
        return World.store(self, x, key, v, t)


def bools(v, n):
    if not isinstance(v, A) or len(v.d) != n:
        raise Und('result per point')
    return [bool(x) for x in v.d]


# --------------------------------------------------------------------------------------------------- predicates
def in_line(a, b, p):
    d = [y - x for x, y in zip(a, b)]
    return sum(u * (v - w) for u, v, w in zip(d, p, a)) >= 0 and sum(u * (w - v) for u, v, w in zip(d, p, b)) >= 0


def in_polygon(vs, p):
    r = False
    for k in range(len(vs)):
        (x1, y1), (x2, y2) = vs[k][:2], vs[k - 1][:2]
        if (y1 > p[1]) != (y2 > p[1]) and p[0] > x1 + (x2 - x1) / (y2 - y1) * (p[1] - y1):
            r = not r
    return r


def predicates(P, R):
    rnd = random.Random(40)
    for f in pick(P, 'cpb::detail::is_acute_angle', 3):
        def angle():
            g, w = graph(P, f)
            t = ret(g)
            for _ in range(6):
                a, b = points(rnd, 2)
                pts = points(rnd, 12)
                got = bools(Elem(g, w, {arg(0): vec(a), arg(1): vec(b), arg(2): refs(pts)}, whole=True).ev(t), 12)
                for p, v in zip(pts, got):
                    want = sum((x - y) * (z - y) for x, y, z in zip(a, b, p)) >= 0
                    if v != want:
                        return 'the angle at %s between %s and %s is taken as %s' % (brief(vec(b)), brief(vec(a)), brief(vec(p)), 'acute' if v else 'obtuse')
        check(R, f, 'is_acute_angle', 'acute angle', 'is not the sign of the scalar product of both directions', angle)

    for f in pick(P, 'cpb::Line::Line', 2):
        def line():
            g, w = graph(P, f)
            c = outcome(g, mk('fld', THIS, 'contains'))
            vs = outcome(g, mk('fld', THIS, 'vertices'))
            for _ in range(6):
                a, b = points(rnd, 2)
                vals = {arg(0): vec(a), arg(1): vec(b)}
                got = [[x for x in v.d] for v in Elem(g, w, vals, whole=True).ev(vs)]
                if sorted(got) != sorted([a, b]):
                    return 'the bounding vertices of a line are not its ends'
                pts = points(rnd, 12)
                v = called(P, g, w, c, vals, refs(pts), 12)
                for p, x in zip(pts, v):
                    if x != in_line(a, b, p):
                        return 'the line from %s to %s %s %s' % (brief(vec(a)), brief(vec(b)), 'contains' if x else 'does not contain', brief(vec(p)))
        check(R, f, 'Line::contains', 'line', 'does not contain exactly the points between its ends', line)

    for f in pick(P, 'cpb::detail::WithinPolygon::operator()', 1):
        def polygon():
            g, w = graph(P, f)
            t = ret(g)
            for k in range(10):
                n = rnd.randint(3, 6)
                vs = points(rnd, n)
                if k == 9:
                    vs[1][1] = vs[0][1]     # a horizontal edge
                pts = points(rnd, 16)
                me = Rec(x=vec([v[0] for v in vs]), y=vec([v[1] for v in vs]))
                got = bools(Elem(g, w, {THIS: me, arg(0): refs(pts)}, whole=True).ev(t), 16)
                for p, x in zip(pts, got):
                    if x != in_polygon(vs, p):
                        return 'the polygon %s %s (%.2f, %.2f)' % ([[round(y, 2) for y in v[:2]] for v in vs], 'contains' if x else 'does not contain', p[0], p[1])
        check(R, f, 'WithinPolygon', 'polygon', 'does not contain exactly the points inside of the polygon', polygon)

    for f in pick(P, 'cpb::Polygon::Polygon', 1):
        def vertices():
            g, w = graph(P, f)
            for _ in range(4):
                vs = points(rnd, rnd.randint(3, 6))
                vals = {arg(0): Lst(vec(v) for v in vs)}
                I = Elem(g, w, vals, whole=True)
                c = I.ev(outcome(g, mk('fld', THIS, 'contains')))
                if not isinstance(c, Rec) or [c.f['x'].d, c.f['y'].d] != [[v[0] for v in vs], [v[1] for v in vs]]:
                    return 'the polygon that is tested has other vertices than the given ones'
                b = [v.d for v in I.ev(outcome(g, mk('fld', THIS, 'vertices')))]
                for k in range(2):
                    if min(v[k] for v in b) > min(v[k] for v in vs) or max(v[k] for v in b) < max(v[k] for v in vs):
                        return 'the bounding vertices do not enclose the polygon'
        check(R, f, 'Polygon', 'polygon vertices', 'does not keep its vertices', vertices)

    for f in pick(P, 'cpb::FreeformShape::FreeformShape', 3):
        def box():
            g, w = graph(P, f)
            t = outcome(g, mk('fld', THIS, 'vertices'))
            for _ in range(4):
                wd, c = points(rnd, 2)
                wd = [abs(x) + .1 for x in wd]
                b = [v.d for v in Elem(g, w, {arg(1): vec(wd), arg(2): vec(c)}, whole=True).ev(t)]
                for s in itertools.product((-.5, .5), repeat=3):
                    p = [x + y * z for x, y, z in zip(c, s, wd)]
                    if not any(same(vec(v), vec(p)) for v in b):
                        return 'the corner center %+d/2, %+d/2, %+d/2 of the width is not there' % tuple(2 * x for x in s)
            if strip_ref(outcome(g, mk('fld', THIS, 'contains'))) is not arg(0):
                return None
        check(R, f, 'FreeformShape', 'freeform box', 'does not have the corners of the box around its center', box)


def called(P, g, w, c, vals, pts, n):
    """result of a closure made in the graph for one argument"""
    while c.op in ('conv', 'cast', 'addr', 'deref') and isinstance(c.a[-1], T):
        c = c.a[-1]
    if c.op != 'clos':
        raise Und('predicate')
    w2 = Walker(P)
    g2 = w2.run_clos(w, c, values=True)
    if g2 is None:
        raise Und('predicate')
    t = ret(g2)
    fn = P.fns.get(w.clos[c][0])
    v = dict(vals)
    v[mk('root', 'param', 0, fn.p[0]['n'])] = pts
    return bools(Elem(g2, w2, v, whole=True).ev(t), n)


# --------------------------------------------------------------------------------------------------- dangling sites
def inside(at, size):
    return all(0 <= a < n for a, n in zip(at, size))


def neighbors(M, F, idx, sub):
    """flat indices of the neighbors of a site, one for each hopping that stays in the foundation"""
    out = []
    for h in F.f[M.fd['cell']].f[M.cells][sub].f['hoppings']:
        at = [a + b for a, b in zip(idx.d, h.f['relative_index'].d)]
        if inside(at, F.f[M.fd['size']].d):
            out.append(M.index(F, vec(at), h.f['to_sub_idx']))
    return out


def sites_of(M, F):
    return sorted(((M.index(F, c, s), c, s) for c in cells(F.f[M.fd['size']].d) for s in range(F.f[M.fd['nsub']])), key=lambda x: x[0])


def dangling(P, R):
    M = model(P)
    rnd = random.Random(41)
    for f in pick(P, 'cpb::detail::count_neighbors', 1):
        def count():
            g, w = graph(P, f)
            t = ret(g)
            for _ in range(5):
                F = M.foundation(rnd)
                v = World(g, w, {arg(0): F}, whole=True).ev(t)
                for i, c, s in sites_of(M, F):
                    want = len(neighbors(M, F, c, s))
                    if v.d[i] != want:
                        return 'site %s, sublattice %d of a %s foundation has %s neighbors instead of %d' % (c.d, s, F.f[M.fd['size']].d, v.d[i], want)
        check(R, f, 'count_neighbors', 'neighbor counts', 'is not the number of hoppings that stay in the foundation', count)

    for f in pick(P, 'cpb::detail::clear_neighbors', 3):
        def step():
            g, w = graph(P, f, ['cpb::detail::clear_neighbors'])
            for _ in range(12):
                F = M.foundation(rnd)
                at = sites_of(M, F)
                i, c, s = rnd.choice(at)
                near = neighbors(M, F, c, s)
                states = list(F.f[M.fd['states']].d)
                # enough neighbors: nothing is removed, each valid neighbor loses one
                counts = [20 + rnd.randint(0, 5) for _ in at]
                I = World(g, w, {arg(0): site_ref(M, F, c, s), arg(1): vec(list(counts)), arg(2): 3}, whole=True)
                got = I.ev(outcome(g, arg(1)))
                want = [x - (near.count(k) if states[k] else 0) for k, x in enumerate(counts)]
                for k, _, _ in at:
                    if k != i and got.d[k] != want[k]:
                        return 'a%s neighbor reached by %d hoppings of the site has %s neighbors left of %d' % (
                            ' valid' if states[k] else 'n invalid', near.count(k), got.d[k], counts[k])
                # a site which is met again has already been removed
                again = World(g, w, {arg(0): site_ref(M, F, c, s), arg(1): vec(list(got.d)), arg(2): 3}, whole=True).ev(outcome(g, arg(1)))
                for k, _, _ in at:
                    if k != i and again.d[k] != got.d[k]:
                        return 'a site that is met twice lowers the neighbor counts twice'
        check(R, f, 'clear_neighbors: counts', 'dangling: counts', 'does not lower the neighbor count of each valid neighbor by one', step)

        def removal():
            g, w = graph(P, f, ['cpb::detail::clear_neighbors'])
            calls = [n for n in g.nodes if is_call(n, 'clear_neighbors')]
            if not calls:
                if all(once(P, d) for d in pick(P, 'cpb::remove_dangling', 2)):
                    return 'the neighbors of a neighbor that is left out are not followed'
                raise Und('removal of a neighbor')
            sets = [n for n in g.nodes if n.kind == 'write' and n.place.op == 'elem' and n.place.a[0].op == 'fld'
                    and n.place.a[0].a[1] == M.fd['states']]
            lo = rnd.randint(2, 3)
            for _ in range(6):
                F = M.foundation(rnd)
                at = sites_of(M, F)
                states = F.f[M.fd['states']].d
                for i, c, s in rnd.sample(at, min(8, len(at))):
                    hops = F.f[M.fd['cell']].f[M.cells][s].f['hoppings']
                    for j, h in enumerate(hops):
                        to = [a + b for a, b in zip(c.d, h.f['relative_index'].d)]
                        there = inside(to, F.f[M.fd['size']].d)
                        k = M.index(F, vec(to), h.f['to_sub_idx']) if there else None
                        if k == i:
                            continue
                        for left in (lo - 1, lo, lo + 1, lo + 4):
                            counts = [9] * len(at)
                            if there:
                                counts[k] = left
                            want = there and states[k] and left - 1 < lo
                            hit = []
                            for n in calls:
                                I = site_world(M, g, w, n, F, c, s, counts, lo, j)
                                if walk_to(g, g.entry, n, I):
                                    to_ = I.ev(n.d['args'][0])
                                    hit.append(int(to_.f[M.flat]) if isinstance(to_, Rec) else None)
                            if hit != ([k] if want else []):
                                return 'a%s neighbor with %d neighbors, of which it loses one, and a minimum of %d is%s followed' % (
                                    ' valid' if there and states[k] else 'n invalid' if there else ' missing', left, lo, '' if hit else ' not')
                            if any(not loops_of(g, n) for n in sets):
                                continue        # each site is marked when its own neighbors are looked at
                            gone = []
                            for n in sets:
                                I = site_world(M, g, w, n, F, c, s, counts, lo, j)
                                if walk_to(g, g.entry, n, I):
                                    gone.append((I.num(n.place.a[1]), bool(I.ev(n.value))))
                            if gone != ([(k, False)] if want else []):
                                return 'a%s neighbor with %d neighbors, of which it loses one, and a minimum of %d is%s' % (
                                    ' valid' if there and states[k] else 'n invalid' if there else ' missing', left, lo, ' kept' if want else ' left out')
        check(R, f, 'clear_neighbors: removal', 'dangling: removal', 'does not remove exactly the valid neighbors that are left with too few neighbors', removal)

    for f in pick(P, 'cpb::remove_dangling', 2):
        def all_sites():
            g, w = graph(P, f, ['cpb::detail::clear_neighbors', 'cpb::detail::count_neighbors'])
            calls = [n for n in g.nodes if is_call(n, 'clear_neighbors') and loops_of(g, n)]
            if len(calls) != 1:
                raise Und('removal of neighbors')
            n = calls[0]
            for _ in range(6):
                F = M.foundation(rnd)
                st = F.f[M.fd['states']].d
                at = sites_of(M, F)
                for k, (i, c, s) in enumerate(at):
                    vals = {arg(0): F, arg(1): 2}
                    for x in w.lvinfo:
                        if x.a[1].op == 'fld' and x.a[1].a[1] == M.fd['states']:
                            vals[x] = F.f[M.fd['states']]
                        elif w.lvinfo[x] and w.lvinfo[x][0].op == 'obj':
                            vals[x] = site_ref(M, F, c, s)
                        elif w.lvinfo[x] and is_call_term(w.lvinfo[x][0], 'count_neighbors'):
                            vals[x] = vec([3] * len(at))
                    vals.update(at_site(M, g, w, n, F, (c, s), k))
                    I = World(g, w, vals, extra=lambda t, I: vec([3] * len(at)) if t.op == 'call' and str(t.a[0]).endswith('count_neighbors') else None, whole=True)
                    I.active = loops_of(g, n)
                    hit = walk_to(g, loops_of(g, n)[-1], n, I)
                    if not hit and not st[i]:
                        return 'the neighbors of the site %s, sublattice %d, which is left out, keep their numbers of neighbors' % (c.d, s)
                    if hit:
                        a = n.d['args']
                        x = I.ev(a[0])
                        if isinstance(x, Rec) and M.flat in x.f and int(x.f[M.flat]) != i:
                            return 'the neighbors of another site are removed'
                        if I.num(a[2]) != 2:
                            return 'the minimum is not the given one'
                        if st[i]:
                            return 'a valid site is treated as if it were left out'
        check(R, f, 'remove_dangling', 'dangling: sites', 'does not begin with exactly the sites that are left out', all_sites)


def is_call_term(t, name):
    return t.op == 'call' and str(t.a[0]).endswith(name)


def site_ref(M, F, c, s):
    return M.site(F, c, s)


def site_world(M, g, w, n, F, c, s, counts, lo, j):
    """sample point in the pass of the loop over hoppings for hopping j"""
    vals = {arg(0): site_ref(M, F, c, s), arg(1): vec(counts), arg(2): lo}
    h = loops_of(g, n)
    if len(h) != 1:
        raise Und('loop over hoppings')
    for x in w.lvinfo:
        if x.a[0] != h[0].lid:
            continue
        i = w.lvinfo[x][0]
        if i.op == 'iter' or show(i, 2) == '0':
            vals[x] = j
        elif i is arg(1):
            vals[x] = vec(list(counts))
        elif i.op == 'fld' and i.a[1] == M.fd['states']:
            vals[x] = F.f[M.fd['states']]
    I = World(g, w, vals, whole=True)
    I.active = h
    return I


# --------------------------------------------------------------------------------------------------- selection
def selection(P, R):
    M = model(P)
    rnd = random.Random(42)
    fs = [f for f in pick(P, 'cpb::Foundation::Foundation', 2) if 'Shape' in ptype(f, 1)]
    R.need(fs, 'Foundation of a shape')
    for f in fs:
        def states():
            g, w = graph(P, f, ['cpb::remove_dangling', 'cpb::detail::find_bounds'])
            calls = [n for n in g.nodes if is_call(n, 'remove_dangling')]
            if not calls:
                return 'sites with too few neighbors are not removed'
            if len(calls) != 1:
                raise Und('removal of dangling sites')
            if not must_pass(g, calls[0]):
                return unguarded(P, g, w, calls[0])
            n = calls[0]
            me = n.d['args'][0]
            if me.op != 'obj':
                raise Und('foundation')
            parts = dict(me.a[1:])
            t, pos = parts.get(M.fd['states']), parts.get(M.fd['positions'])
            if t is None or pos is None:
                raise Und('states')
            users = [x for x in subterms(t) if x.op == 'call' and str(x.a[0]) == '<user>' and x.a[1] is mk('fld', arg(1), 'contains')]
            if not users:
                if not any(s is arg(1) for s in subterms(t)):
                    return 'the states of the sites do not depend on the shape'
                raise Und('points inside of the shape')
            given = {mk('fld', pos, c): c for c in 'xyz'}
            if pos.op == 'obj':
                given.update({v: c for c, v in pos.a[1:] if c in ('x', 'y', 'z')})
            for u in users:
                u = u.a[2]
                if u.op != 'obj':
                    raise Und('points')
                for name, x in u.a[1:]:
                    c = name[0]
                    inner = [s for s in subterms(x) if s in given]
                    if not inner:
                        raise Und('points')
                    if {given[s] for s in inner} != {c}:
                        return 'coordinate %s of the points is %s of the positions' % (c, '/'.join(sorted(given[s] for s in inner)))
            for _ in range(3):
                x = [rnd.random() < .5 for _ in range(9)]
                I = Elem(g, w, {}, extra=lambda t, I: vec(list(x)) if t.op == 'call' and str(t.a[0]) == '<user>' else None, whole=True)
                got = bools(I.ev(t), 9)
                if got != x:
                    return 'a site %s the shape is %s' % (('inside of', 'left out') if not got[[a != b for a, b in zip(got, x)].index(True)] else ('outside of', 'kept'))
        check(R, f, 'Foundation: states', 'selection: states', 'does not keep exactly the sites inside of the shape that have enough neighbors', states)

        def minimum():
            g, w = graph(P, f, ['cpb::remove_dangling', 'cpb::detail::find_bounds'])
            n = [n for n in g.nodes if is_call(n, 'remove_dangling')]
            get = pick(P, 'cpb::Lattice::get_min_neighbors')
            if len(n) != 1 or len(get) != 1:
                raise Und('minimum')
            t = ret(graph(P, get[0])[0])
            if t.op != 'fld' or t.a[0] is not THIS:
                raise Und('minimum')
            for k in (1, 2, 3):
                v = World(g, w, {arg(0): Rec(**{t.a[1]: k})}, whole=True).num(n[0].d['args'][1])
                if v != k:
                    return 'the minimum is %s for a lattice with %d' % (v, k)
        check(R, f, 'Foundation: minimum', 'selection: minimum', 'does not remove sites by the minimum number of neighbors of the lattice', minimum)


def unguarded(P, g, w, n):
    """lattices for which the removal is skipped"""
    get = {}
    for name in ('get_min_neighbors', 'ndim', 'nsub'):
        for f in pick(P, 'cpb::Lattice::' + name):
            get[name] = ret(graph(P, f)[0])
    if get.get('get_min_neighbors') is None or get['get_min_neighbors'].op != 'fld':
        raise Und('removal of dangling sites')
    key = get['get_min_neighbors'].a[1]
    br = [b for b in g.nodes if b.kind == 'branch' and not loops_of(g, b) and reaches(b, n) and any(not reaches(m, n) for m, _ in b.succ if not throws(m))]
    br += [b for b in g.nodes if b.kind == 'branch' and not loops_of(g, b) and b not in br and len(set(m.id for m, _ in b.succ)) > 1
           and any(m is n or direct(m, n) for m, _ in b.succ)]
    if not br:
        raise Und('removal of dangling sites')
    sizes = {t for x in get.values() for t in subterms(x) if t.op == 'fld' and t.a[0] is THIS and t.a[1] != key}
    for k in (1, 2, 3):
        for d in (1, 2, 3):
            for b in br:
                rec = Rec(**{key: k}, **{t.a[1]: Lst(vec([1, 0, 0]) for _ in range(d)) for t in sizes})
                if not walk_to(g, b, n, World(g, w, {arg(0): rec}, whole=True)):
                    return 'dangling sites are kept for a lattice with %d dimensions or sublattices and at least %d neighbors' % (d, k)
    raise Und('removal of dangling sites')


def direct(m, n):
    while m is not n and len(m.succ) == 1 and m.kind not in ('loop', 'branch'):
        m = m.succ[0][0]
    return m is n


def reaches(m, n):
    seen, todo = set(), [m]
    while todo:
        x = todo.pop()
        if x is n:
            return True
        if x.id not in seen:
            seen.add(x.id)
            todo += [y for y, _ in x.succ]
    return False


def once(P, f):
    """the neighbors of the sites are cleared in one pass over the sites"""
    g, w = graph(P, f, ['cpb::detail::clear_neighbors', 'cpb::detail::count_neighbors'])
    calls = [n for n in g.nodes if is_call(n, 'clear_neighbors')]
    return bool(calls) and all(len(loops_of(g, n)) == 1 for n in calls)


def must_pass(g, n):
    """every way to the normal end goes through the node"""
    seen, todo = set(), [g.entry]
    while todo:
        x = todo.pop()
        if x.id in seen or x is n:
            continue
        seen.add(x.id)
        if x.kind == 'exit':
            return False
        todo += [m for m, _ in x.succ]
    return True


def bounds(P, R):
    M = model(P)
    rnd = random.Random(44)
    for f in pick(P, 'cpb::detail::find_bounds', 2):
        def covers():
            g, w = graph(P, f, ['cpb::Lattice::translate_coordinates'])
            t = ret(g)
            # the conversion to integers cuts off the fraction, unless it is rounded before
            names = {str(x.a[0]).split('::')[-1] for y in [t] + [z for v in w.lvinfo.values() for z in v] for x in subterms(y) if x.op == 'call'}
            for k in range(16):
                cut = k % 2 and not names & {'floor', 'ceil', 'round', 'rint'}
                nd = rnd.choice((1, 2, 3, 3))
                lat = M.lattice(rnd, ndim=nd)
                vs = [vec(v) for v in points(rnd, rnd.randint(2, 5), 9)]
                co = {tuple(v.d): [rnd.uniform(-7, 7) if k < nd else 0. for k in range(3)] for v in vs}
                def translate(t, I):
                    if is_call_term(t, 'translate_coordinates'):
                        x = [y for y in (I.ev(a) for a in t.a[1:]) if isinstance(y, A) and tuple(y.d) in co]
                        if len(x) != 1:
                            raise Und('coordinates of a vertex')
                        return vec([float(math.trunc(y)) if cut else y for y in co[tuple(x[0].d)]])
                shape = Rec(vertices=Lst(vs))
                I = Bounds(g, w, {arg(0): shape, arg(1): lat}, extra=translate, whole=True)
                v = I.ev(t)
                lo, hi = (v.f['first'].d, v.f['second'].d) if isinstance(v, Rec) else (v[0].d, v[1].d)
                for x in co.values():
                    for k in range(3):
                        if lo[k] > x[k] or hi[k] < x[k]:
                            return 'the vertex with the lattice coordinates %s is not within the cells %s to %s' % ([round(y, 2) for y in x], lo, hi)
        check(R, f, 'find_bounds', 'bounds', 'does not cover the vertices of the shape', covers)


class Bounds(Elem):
    def call(self, f, a):
        n = f.split('::')[-1]
        if n in ('max', 'min', 'lowest') and not a and 'numeric_limits' in f:
            return 2147483647 if n == 'max' else -2147483648
        if n == 'Constant' and len(a) == 1:
            return vec([self.num(a[0])] * 3)
        return Elem.call(self, f, a)


# --------------------------------------------------------------------------------------------------- leads
def leads(P, R):
    M = model(P)
    rnd = random.Random(43)
    for f in pick(P, 'cpb::leads::Spec::Spec', 2):
        def spec():
            g, w = graph(P, f)
            a, s = (outcome(g, mk('fld', THIS, x)) for x in ('axis', 'sign'))
            for d in (1, 2, 3, -1, -2, -3):
                I = World(g, w, {arg(0): d}, whole=True)
                got = (I.num(a), I.num(s))
                if got != (abs(d) - 1, 1 if d > 0 else -1):
                    return 'direction %d becomes axis %d with the sign %d' % (d, got[0], got[1])
        check(R, f, 'Spec', 'lead direction', 'does not keep the axis and the sign of the direction', spec)

    for f in pick(P, 'cpb::leads::detail::shape_slice', 2):
        def slices():
            g, w = graph(P, f, ['cpb::detail::find_bounds'])
            t = ret(g)
            for _ in range(6):
                F = M.foundation(rnd)
                size, low = F.f[M.fd['size']].d, F.f[M.fd['bounds']].f['first'].d
                a = [x + rnd.randint(-2, n - 1) for x, n in zip(low, size)]
                b = [max(x, l) + rnd.randint(0, 3) for x, l in zip(a, low)]
                bounds = Rec(first=vec(a), second=vec(b))
                I = World(g, w, {arg(0): F}, extra=lambda t, I: bounds if is_call_term(t, 'find_bounds') else None, whole=True)
                v = I.ev(t)
                got = [(int(x.f['start']), int(x.f['end'])) for x in v.f['data']]
                want = [(max(x - l, 0), min(y + 1 - l, n)) for x, y, l, n in zip(a, b, low, size)]
                if got != want:
                    return 'a shape from %s to %s takes the slice %s of a foundation from %s with size %s' % (a, b, got, low, size)
        check(R, f, 'shape_slice', 'lead slice', 'is not the part of the foundation within the bounds of the shape', slices)

    for f in pick(P, 'cpb::leads::detail::Junction::Junction', 2):
        def middle():
            g, w = graph(P, f, ['cpb::leads::detail::shape_slice', 'cpb::leads::detail::attachment_slice'])
            t = outcome(g, mk('fld', THIS, 'is_valid'))
            while t.op in ('conv', 'cast'):
                t = t.a[-1]
            if t.op != 'call' or str(t.a[0]) != '<user>' or t.a[1] is not mk('fld', mk('fld', arg(1), 'shape'), 'contains'):
                raise Und('sites of the junction')
            ws = [n for n in g.nodes if n.kind == 'write' and n.place.op == 'fld' and n.place.a[1] == slice_range(P)
                  and any(is_call_term(x, 'shape_slice') for x in subterms(n.value))]
            if not ws:
                raise Und('slice of the junction')
            for _ in range(5):
                F = M.foundation(rnd)
                r = [(a, a + rnd.randint(1, 5)) for a in (rnd.randint(0, 3) for _ in range(3))]
                ax = rnd.randrange(3)
                sp = Rec(axis=ax, sign=rnd.choice((1, -1)), shape=Rec())
                I = Elem(g, w, {arg(0): F, arg(1): sp}, extra=lambda t, I: range_rec(P, r) if is_call_term(t, 'shape_slice') else None, whole=True)
                v = I.ev(ws[0].value)
                got = [(int(x.f['start']), int(x.f['end'])) for x in v.f['data']]
                m = sum(r[ax]) // 2
                want = [(m, m + 1) if k == ax else x for k, x in enumerate(r)]
                if got != want:
                    return 'the sites of a lead along axis %d with the slice %s are taken from %s' % (ax, r, got)
        check(R, f, 'Junction', 'junction slice', 'does not take the sites in the middle of the shape along the lead', middle)

    for f in pick(P, 'cpb::leads::create_attachment_area', 2):
        def graph_():
            g, w = graph(P, f, ['cpb::leads::detail::Junction::Junction'])
            inner = [x for x in w.lvinfo if x.a[1].op == 'fld' and x.a[1].a[1] == M.flat]
            states = [x for x in w.lvinfo if x.a[1] is mk('fld', arg(0), M.fd['states'])]
            if len(inner) != 1:
                raise Und('loop over sites')
            lid = inner[0].a[0]
            st = [x for x in states if x.a[0] == lid]
            jn, jall = [], []
            for x in w.lvinfo:
                i = x
                while i in w.lvinfo:
                    i = w.lvinfo[i][0]
                if i.op == 'fld' and i.a[1] == 'is_valid' and any(is_call_term(s, 'Junction::ctor') for s in subterms(i.a[0])):
                    jall.append(x)
                    if x.a[0] == lid:
                        jn.append(x)
            dat = [x for x in w.lvinfo if x.a[1].op == 'fld' and x.a[1].a[1] == 'data' and any(m.a[0] == x.a[0] for m in states) and x.a[0] != lid]
            return g, w, inner[0], states, st, jall, jn, dat

        def sample(g, w, inner, states, jall, dat, r, F, valid, site, k, sp):
            vals = {arg(0): F, arg(1): sp}
            for x in states:
                vals[x] = F.f[M.fd['states']]
            for x in jall:
                vals[x] = vec(list(valid))
            for x in dat:
                vals[x] = range_rec(P, r).f['data']
            if site is not None:
                base = inner.a[1].a[0]
                for name, v in {M.flat: M.index(F, *site), M.spatial: site[0], M.sub: site[1], M.slice_idx: k}.items():
                    vals[mk('lv', inner.a[0], mk('fld', base, name))] = v
            I = World(g, w, vals, whole=True)
            for n in g.nodes:
                ls = loops_of(g, n)
                if (ls and ls[0].lid == inner.a[0]) if site is not None else (len(ls) == 1 and ls[0].lid == dat[0].a[0]):
                    I.active = ls
                    break
            return I

        def fill():
            g, w, inner, states, st, jall, jn, dat = graph_()
            if len(st) != 1 or len(jn) != 1 or len(dat) != 1:
                raise Und('states of the junction')
            for _ in range(25):
                F = M.foundation(rnd)
                size, nsub = F.f[M.fd['size']].d, F.f[M.fd['nsub']]
                ax = rnd.randrange(3)
                r = sample_range(rnd, size)
                r[ax] = (r[ax][0], r[ax][0] + 1)
                todo = slice_sites(r, nsub)
                valid = [rnd.random() < .6 for _ in todo]
                sp = Rec(axis=ax, sign=rnd.choice((1, -1)), shape=Rec())
                for k, site in enumerate(todo):
                    i = M.index(F, *site)
                    old = list(F.f[M.fd['states']].d)
                    new = list(old)
                    left = list(valid)
                    if valid[k]:
                        new[i] = True
                        left[k] = not old[i]
                    kind = '%s site of the foundation %s the junction' % ('a valid' if old[i] else 'an empty', 'on' if valid[k] else 'outside of')
                    got = [bool(x) for x in sample(g, w, inner, states, jall, dat, r, F, valid, site, k, sp).ev(w.lvinfo[st[0]][1]).d]
                    if got != new:
                        return kind + ' %s' % ('is filled in' if got[i] and not old[i] else 'is left empty' if got[i] == old[i] else 'is removed')
                    got = [bool(x) for x in sample(g, w, inner, states, jall, dat, r, F, valid, site, k, sp).ev(w.lvinfo[jn[0]][1]).d]
                    if got != left:
                        return kind + ' %s' % ('ends the path of the lead' if left[k] else 'does not end the path of the lead')
        check(R, f, 'create_attachment_area: sites', 'lead filling', 'does not fill in the empty sites on the way of the lead, up to the first valid ones', fill)

        def step():
            g, w, inner, states, st, jall, jn, dat = graph_()
            if len(dat) != 1:
                raise Und('slice of the lead')
            for _ in range(6):
                F = M.foundation(rnd)
                size, nsub = F.f[M.fd['size']].d, F.f[M.fd['nsub']]
                ax, sg = rnd.randrange(3), rnd.choice((1, -1))
                r = sample_range(rnd, size)
                r[ax] = (r[ax][0], r[ax][0] + 1)
                sp = Rec(axis=ax, sign=sg, shape=Rec())
                v = sample(g, w, inner, states, jall, dat, r, F, [True], None, None, sp).ev(w.lvinfo[dat[0]][1])
                got = [(int(x.f['start']), int(x.f['end'])) for x in v]
                want = [(x[0] - sg, x[1] - sg) if k == ax else x for k, x in enumerate(r)]
                if got != want:
                    return 'a lead with the sign %+d along axis %d goes from %s to %s' % (sg, ax, r, got)
        check(R, f, 'create_attachment_area: steps', 'lead steps', 'does not go from slice to slice against the direction of the lead', step)

        def ends():
            g, w, inner, states, st, jall, jn, dat = graph_()
            if len(dat) != 1:
                raise Und('slice of the lead')
            heads = [n for n in g.nodes if n.kind == 'loop' and n.lid == inner.a[0]]
            steps = [n for n in g.nodes if n.kind == 'write' and [h.lid for h in loops_of(g, n)] == [dat[0].a[0]] and n.place.op == 'fld'
                     and n.place.a[0].op == 'elem' and n.place.a[0].a[0] is dat[0].a[1]]
            if len(heads) != 1 or not steps:
                raise Und('steps of the lead')
            b = {n.id for n in g.nodes if n is heads[0] or heads[0] in loops_of(g, n)}
            outs = {m.id: m for n in g.nodes if n.id in b for m, _ in n.succ if m.id not in b and not throws(m)}
            if len(outs) != 1:
                raise Und('end of the loop over sites')
            after = list(outs.values())[0]
            for _ in range(12):
                F = M.foundation(rnd)
                size, nsub = F.f[M.fd['size']].d, F.f[M.fd['nsub']]
                ax = rnd.randrange(3)
                r = sample_range(rnd, size)
                r[ax] = (r[ax][0], r[ax][0] + 1)
                todo = slice_sites(r, nsub)
                n = rnd.choice((0, 0, 1, len(todo) - 1, len(todo)))
                left = [k < n for k in range(len(todo))]
                rnd.shuffle(left)
                I = sample(g, w, inner, states, jall, dat, r, F, left, None, None, Rec(axis=ax, sign=rnd.choice((1, -1)), shape=Rec()))
                if walk_to(g, after, heads[0], I) != any(left):
                    return 'the lead %s when %d of %d sites have not yet met the structure' % ('goes on' if not any(left) else 'ends', sum(left), len(left))
        check(R, f, 'create_attachment_area: end', 'lead end', 'does not end exactly when all sites of the junction have met the structure', ends)

        def misses():
            g, w, inner, states, st, jall, jn, dat = graph_()
            return not_refused(g, dat, rnd, M, lambda r, F, sp: sample(g, w, inner, states, jall, dat, r, F, [True], None, None, sp))
        check(R, f, 'create_attachment_area: misses', 'lead misses', 'accepts a lead that leaves the foundation without meeting the structure', misses)

    for f in pick(P, 'cpb::leads::detail::attachment_slice', 2):
        def parts():
            g, w = graph(P, f, ['cpb::leads::detail::shape_slice'])
            inner = [x for x in w.lvinfo if x.a[1].op == 'fld' and x.a[1].a[1] == M.flat]
            if len(inner) != 1:
                raise Und('loop over sites')
            heads = [h for n in g.nodes for h in loops_of(g, n) if h.lid == inner[0].a[0]]
            out = [h.lid for n in g.nodes if n is heads[0] or heads[0] in loops_of(g, n) for h in loops_of(g, n) if h is not heads[0]]
            dat = [x for x in w.lvinfo if x.a[1].op == 'fld' and x.a[1].a[1] == 'data' and x.a[0] in out]
            if len(dat) != 1:
                raise Und('slices')
            return g, w, inner[0], heads[0], dat

        def at(g, w, inner, head, dat, r, F, sp, shape, site=None, k=None):
            vals = {arg(0): F, arg(1): sp, dat[0]: range_rec(P, r).f['data']}
            for x in w.lvinfo:
                if x.a[1].op == 'fld' and x.a[1].a[1] == 'data' and x is not dat[0]:
                    vals[x] = range_rec(P, shape).f['data']
            if site is not None:
                for name, v in {M.flat: M.index(F, *site), M.spatial: site[0], M.sub: site[1], M.slice_idx: k}.items():
                    vals[mk('lv', inner.a[0], mk('fld', inner.a[1].a[0], name))] = v
            I = Elem(g, w, vals, extra=lambda t, I: range_rec(P, shape) if is_call_term(t, 'shape_slice') else None, whole=True)
            I.active = [h for h in {h.id: h for n in g.nodes for h in loops_of(g, n)}.values() if h is head and site is not None or h.lid == dat[0].a[0]]
            I.active.sort(key=lambda h: h is not head)
            return I

        def config():
            F = M.foundation(rnd)
            size = F.f[M.fd['size']].d
            ax, sg = rnd.randrange(3), rnd.choice((1, -1))
            shape = sample_range(rnd, size)
            at_ = rnd.randrange(size[ax])
            r = [(at_, at_ + 1) if k == ax else x for k, x in enumerate(shape)]
            return F, size, ax, sg, shape, r, Rec(axis=ax, sign=sg, shape=Rec())

        def order():
            g, w, inner, head, dat = parts()
            for _ in range(8):
                F, size, ax, sg, shape, r, sp = config()
                v = at(g, w, inner, head, dat, r, F, sp, shape).ev(w.lvinfo[dat[0]][1])
                got = [(int(x.f['start']), int(x.f['end'])) for x in v]
                want = [(x[0] - sg, x[1] - sg) if k == ax else x for k, x in enumerate(r)]
                if got != want:
                    return 'the search for a lead with the sign %+d along axis %d goes from %s to %s' % (sg, ax, r, got)
                I = at(g, w, inner, head, dat, r, F, sp, shape)
                I.active = []
                v = I.ev(w.lvinfo[dat[0]][0])
                got = [(int(x.f['start']), int(x.f['end'])) for x in v]
                first = 0 if sg < 0 else size[ax] - 1
                want = [(first, first + 1) if k == ax else x for k, x in enumerate(shape)]
                if got != want:
                    return 'the search for a lead with the sign %+d along axis %d of a %s foundation begins at %s' % (sg, ax, size, got)
        check(R, f, 'attachment_slice: order', 'attachment order', 'does not look for the structure from the far end of the lead on', order)

        def first():
            g, w, inner, head, dat = parts()
            ends = [n for n in g.nodes if n.kind == 'exit']
            if len(ends) != 1:
                raise Und('end')
            t = ret(g)
            for _ in range(12):
                F, size, ax, sg, shape, r, sp = config()
                todo = slice_sites(r, F.f[M.fd['nsub']])
                for k, site in enumerate(todo[:-1]):
                    old = F.f[M.fd['states']].d[M.index(F, *site)]
                    I = at(g, w, inner, head, dat, r, F, sp, shape, site, k)
                    hit = walk_to(g, head, ends[0], I)
                    if hit != bool(old):
                        return 'the search %s at %s site' % ('ends' if hit else 'goes on', 'a valid' if old else 'an empty')
                I = at(g, w, inner, head, dat, r, F, sp, shape)
                I.active = []
                v = I.ev(t)
                got = [(int(x.f['start']), int(x.f['end'])) for x in v.f['data']]
                if got != r:
                    return 'the lead with the slice %s that meets the structure at %d along axis %d is attached at %s' % (shape, r[ax][0], ax, got)
        check(R, f, 'attachment_slice: first', 'attachment slice', 'is not the first slice along the lead with a valid site', first)

        def misses_all():
            g, w, inner, head, dat = parts()
            return not_refused(g, dat, rnd, M, lambda r, F, sp: at(g, w, inner, head, dat, r, F, sp, r))
        check(R, f, 'attachment_slice: misses', 'attachment misses', 'accepts a lead that does not meet the structure', misses_all)

    for f in pick(P, 'cpb::leads::detail::Junction::Junction', 2):
        def empty():
            g, w = graph(P, f, ['cpb::leads::detail::shape_slice', 'cpb::leads::detail::attachment_slice'])
            th = [n for n in g.nodes if n.kind == 'throw']
            if not th:
                return 'no such lead is refused'
            bs = [n for n in g.nodes if n.kind == 'branch' and any(x.op == 'call' and str(x.a[0]) == '<user>' for x in subterms(n.cond))]
            if len(th) != 1 or len(bs) != 1:
                raise Und('test of the junction')
            for v in ([False] * 4, [False, True, False, False], [True] * 4):
                I = Elem(g, w, {}, extra=lambda t, I: vec(list(v)) if t.op == 'call' and str(t.a[0]) == '<user>' else None, whole=True)
                if walk_to(g, bs[0], th[0], I) == any(v):
                    return 'a junction with %d of %d sites is %s' % (sum(v), len(v), 'refused' if any(v) else 'accepted')
        check(R, f, 'Junction: empty', 'empty junction', 'does not refuse exactly the leads without a site in the junction', empty)


def not_refused(g, dat, rnd, M, at):
    th = [n for n in g.nodes if n.kind == 'throw' and not loops_of(g, n)]
    if not th:
        return 'no such lead is refused'
    if len(dat) != 1:
        raise Und('slices')
    heads = [n for n in g.nodes if n.kind == 'loop' and n.lid == dat[0].a[0]]
    if len(heads) != 1:
        raise Und('loop over slices')
    for _ in range(4):
        F = M.foundation(rnd)
        size = F.f[M.fd['size']].d
        ax, sg = rnd.randrange(3), rnd.choice((1, -1))
        end = -1 if sg > 0 else size[ax]
        r = [(end, end + 1) if k == ax else x for k, x in enumerate(sample_range(rnd, size))]
        I = at(r, F, Rec(axis=ax, sign=sg, shape=Rec()))
        I.active = []
        if not any(walk_to(g, heads[0], n, I) for n in th):
            return 'the search along axis %d with the sign %+d that arrives at %d of %d is not refused' % (ax, sg, end, size[ax])


PARTS = [predicates, dangling, selection, bounds, leads]
