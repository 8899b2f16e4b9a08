"""Sites, positions and indices agree everywhere."""
import itertools, random
from world import *
from rand import Outside
from c13 import outcome, ret, ptype, decide, brief

LEVEL = 'other'
RULE = ('The flat index of a site is a bijection from (sublattice, cell) to the sites of the foundation, one block per sublattice; both kinds of '
        'iterators step through exactly their sites with flat, spatial and sublattice index in step; the position stored at a flat index is '
        'origin + sublattice offset + a lattice vector combination; final indices number the valid sites in this order; everything a system or '
        'a lead reports by site index or matrix index uses these numbers.')
EXPLAIN = ('One generic pass of each loop, and each formula, is evaluated as a term at sample points of its leaves and compared with the rule; '
           'path conditions of stores are evaluated at the same points.')
ASSUME = ['Eigen operations mean what they are documented to mean', 'integer overflow does not occur']


class Model:
    """the names of the fields and the parts of a sample foundation"""
    def __init__(self, P):
        self.P = P
        N = Names(P)
        self.N = N
        S, F, L, I = 'cpb::Site::', 'cpb::Foundation::', 'cpb::Lattice::', 'cpb::FinalizedIndices::'
        self.spatial, self.sub, self.flat = N(S + 'get_spatial_idx', 'spatial_idx'), N(S + 'get_sub_idx', 'sub_idx'), N(S + 'get_flat_idx', 'flat_idx')
        self.fd = {}
        t = N.term(S + 'is_valid')
        own = [x.a[1] for x in subterms(t) if x.op == 'fld' and x.a[0] is THIS and x.a[1] != self.flat] if t is not None else []
        self.owner = own[0] if len(set(own)) == 1 else 'foundation'
        for k, q in (('lattice', 'get_lattice'), ('cell', 'get_optimized_unit_cell'), ('bounds', 'get_bounds'), ('size', 'get_spatial_size'),
                     ('nsub', 'get_sub_size'), ('positions', 'get_positions'), ('states', 'get_states'), ('final', 'get_finalized_indices')):
            d = dict(lattice='lattice', cell='unit_cell', bounds='bounds', size='spatial_size', nsub='sub_size', positions='positions',
                     states='is_valid', final='finalized_indices')[k]
            self.fd[k] = N(F + q, d)
        self.fin = dict(indices=N(I + 'operator[]', 'indices'), total=N(I + 'size', 'total_valid_sites'),
                        counts=N(I + 'max_hoppings_per_family', 'hopping_counts'))
        self.lat = dict(vectors=N(L + 'get_vectors', 'vectors'), sublattices=N(L + 'get_sublattices', 'sublattices'),
                        hoppings=N(L + 'get_hoppings', 'hoppings'), offset=N(L + 'get_offset', 'offset'),
                        min_neighbors=N(L + 'get_min_neighbors', 'min_neighbors'))
        self.cells = N('cpb::OptimizedUnitCell::operator[]', 'sites')
        self.slice_idx = N('cpb::SpatialSliceIterator::get_slice_idx', 'slice_idx')

    def lattice(self, rnd, ndim=None, nsub=None):
        ndim = ndim or rnd.randint(1, 3)
        nsub = nsub or rnd.randint(2, 3)
        f = {self.lat['vectors']: Lst(vec([rnd.uniform(-1, 1) for _ in range(3)]) for _ in range(ndim)),
             self.lat['sublattices']: Lst(Rec(first='s%d' % i, second=Rec(position=vec([rnd.uniform(-1, 1) for _ in range(3)]), unique_id=i,
                                                                         alias_id=i)) for i in range(nsub)),
             self.lat['offset']: vec([rnd.uniform(-1, 1) for _ in range(3)]),
             self.lat['hoppings']: Lst([None] * 3), self.lat['min_neighbors']: 1}
        return Rec(**f)

    def cell(self, rnd, nsub, nhop=4, ndim=3):
        ids = list(range(nsub))
        rnd.shuffle(ids)
        sites = Lst()
        for i in range(nsub):
            hops = Lst(Rec(relative_index=vec([rnd.randint(-1, 1) if d < ndim else 0 for d in range(3)]), to_sub_idx=rnd.randrange(nsub),
                           family_id=rnd.randrange(3), is_conjugate=rnd.random() < 0.4) for _ in range(nhop))
            sites.append(Rec(position=vec([rnd.uniform(-1, 1) for _ in range(3)]), norb=rnd.randint(1, 3), unique_id=ids[i],
                             alias_id=rnd.randrange(5), hoppings=hops))
        return Rec(**{self.cells: sites})

    def foundation(self, rnd, ndim=None):
        ndim = ndim or 3
        lat = self.lattice(rnd, ndim)
        nsub = len(lat.f[self.lat['sublattices']])
        size = vec([rnd.randint(2, 3) if d < ndim else 1 for d in range(3)])
        n = nsub * size.d[0] * size.d[1] * size.d[2]
        states = [rnd.random() < 0.7 for _ in range(n)]
        order = list(range(n))
        rnd.shuffle(order)
        lower = vec([rnd.randint(-3, 3) if d < ndim else 0 for d in range(3)])
        f = {self.fd['lattice']: lat, self.fd['cell']: self.cell(rnd, nsub, ndim=ndim), self.fd['size']: size, self.fd['nsub']: nsub,
             self.fd['bounds']: Rec(first=lower, second=vec([a + b - 1 for a, b in zip(lower.d, size.d)])),
             self.fd['positions']: Rec(**{c: vec([rnd.uniform(-5, 5) for _ in range(n)]) for c in 'xyz'}),
             self.fd['states']: vec(states),
             self.fd['final']: Rec(**{self.fin['indices']: vec([order[i] if states[i] else -1 for i in range(n)]), self.fin['total']: n,
                                      self.fin['counts']: vec([0, 0, 0])})}
        return Rec(**f)

    def position(self, F, i):
        p = F.f[self.fd['positions']].f
        return vec([p[c].d[i] for c in 'xyz'])

    # the place of a site in the arrays of the foundation, as Site computes it
    def flat_index(self):
        if not hasattr(self, '_flat'):
            self._flat = None
            for f in pick(self.P, 'cpb::Site::Site', 3):
                try:
                    g, w = graph(self.P, f)
                    self._flat = (f, g, w, outcome(g, mk('fld', THIS, self.flat)))
                except Und:
                    pass
        return self._flat

    def index(self, F, idx, sub):
        f, g, w, t = self.flat_index()
        I = World(g, w, {arg(0): F, arg(1): idx, arg(2): sub})
        return I.num(t)

    def site(self, F, idx, sub, **more):
        d = {self.owner: F, self.spatial: idx, self.sub: sub, self.flat: self.index(F, idx, sub)}
        d.update(more)
        return Rec(**d)


def model(P):
    m = P.__dict__.get('_c14')
    if m is None:
        m = P.__dict__['_c14'] = Model(P)
    return m


def cells(size):
    return [vec([a, b, c]) for c in range(size[2]) for b in range(size[1]) for a in range(size[0])]


def check(R, f, lab, key, what, attempt):
    """attempt() -> None or a description of what disagrees"""
    R.count('generic passes')
    try:
        r = attempt()
    except Und as e:
        R.unknown('%s: %s (%s)' % (lab, what, str(e)[:90]))
        return None
    except (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, RecursionError) as e:
        R.unknown('%s: %s (%s: %s)' % (lab, what, type(e).__name__, str(e)[:80]))
        return None
    if r:
        R.bad(key, '%s: %s' % (lab, what), ['%s:%d' % (f.file, f.line), r])
        return False
    R.ok(lab)
    return True


# --------------------------------------------------------------------------------------------------- indices and iterators
def indices(P, R):
    M = model(P)
    R.need(M.flat_index() is not None, 'constructor of Site')
    f = M.flat_index()[0]
    rnd = random.Random(14)

    def bijection():
        for _ in range(4):
            F = M.foundation(rnd)
            size, nsub = F.f[M.fd['size']].d, F.f[M.fd['nsub']]
            block = size[0] * size[1] * size[2]
            for s in range(nsub):
                got = sorted(M.index(F, i, s) for i in cells(size))
                if got != list(range(s * block, (s + 1) * block)):
                    return 'the sites of sublattice %d of a %s foundation get the indices %s' % (s, size, got[:8])
    check(R, f, 'Site: flat index', 'flat index', 'the sites of one sublattice do not fill its block one by one', bijection)

    def set_by(place, f, what):
        def go():
            g, w = graph(P, f)
            t = outcome(g, mk('fld', THIS, place))
            return g, w, t
        return go

    for f in pick(P, 'cpb::Site::reset_idx'):
        def reset():
            g, w = graph(P, f)
            for _ in range(3):
                F = M.foundation(rnd)
                s = rnd.randrange(F.f[M.fd['nsub']])
                i = rnd.choice(cells(F.f[M.fd['size']].d))
                S = M.site(F, i, s)
                want, S.f[M.flat] = S.f[M.flat], 10 ** 6
                got = World(g, w, {THIS: S}).num(outcome(g, mk('fld', THIS, M.flat)))
                if got != want:
                    return 'the index of cell %s, sublattice %d becomes %d instead of %d' % (i.d, s, got, want)
        check(R, f, 'Site::reset_idx', 'flat index: reset', 'the recomputed flat index is not that of the site', reset)

    for f in pick(P, 'cpb::Site::shifted'):
        def shifted():
            g, w = graph(P, f)
            t = ret(g)
            for _ in range(3):
                F = M.foundation(rnd)
                S = M.site(F, rnd.choice(cells(F.f[M.fd['size']].d)), rnd.randrange(F.f[M.fd['nsub']]))
                d = vec([rnd.randint(-2, 2) for _ in range(3)])
                v = World(g, w, {THIS: S, arg(0): d}).ev(t)
                want = vec([a + b for a, b in zip(S.f[M.spatial].d, d.d)])
                if v.f[M.spatial].d != want.d or v.f[M.sub] != S.f[M.sub] or v.f[M.flat] != M.index(F, want, S.f[M.sub]):
                    return 'cell %s shifted by %s is (%s, sublattice %s, index %s)' % (S.f[M.spatial].d, d.d, v.f[M.spatial].d, v.f[M.sub], v.f[M.flat])
        check(R, f, 'Site::shifted', 'shifted site', 'the shifted site is not the same sublattice of the cell index + shift', shifted)

    for q, want in (('is_valid', lambda F, i: F.f[M.fd['states']].d[i]), ('get_position', lambda F, i: M.position(F, i)),
                    ('get_norb', None), ('get_alias_id', None)):
        for f in pick(P, 'cpb::Site::' + q):
            def access():
                g, w = graph(P, f)
                t = ret(g)
                for _ in range(3):
                    F = M.foundation(rnd)
                    S = M.site(F, rnd.choice(cells(F.f[M.fd['size']].d)), rnd.randrange(F.f[M.fd['nsub']]))
                    v = World(g, w, {THIS: S}).ev(t)
                    c = F.f[M.fd['cell']].f[M.cells][S.f[M.sub]].f
                    x = want(F, S.f[M.flat]) if want else c['norb' if q == 'get_norb' else 'alias_id']
                    if not same(v, x, 1e-9):
                        return 'of cell %s, sublattice %s it is %s instead of %s' % (S.f[M.spatial].d, S.f[M.sub], brief(v), brief(x))
            check(R, f, 'Site::' + q, 'site data: ' + q, 'does not return what is stored for the site', access)

    for f in pick(P, 'cpb::Site::set_valid'):
        def setter():
            g, w = graph(P, f)
            ws = [n for n in g.nodes if n.kind == 'write' and n.place.op == 'elem']
            if len(ws) != 1:
                raise Und('%d stores' % len(ws))
            F = M.foundation(rnd)
            S = M.site(F, rnd.choice(cells(F.f[M.fd['size']].d)), rnd.randrange(F.f[M.fd['nsub']]))
            for b in (True, False):
                I = World(g, w, {THIS: S, arg(0): b})
                if I.num(ws[0].place.a[1]) != S.f[M.flat] or I.ev(ws[0].place.a[0]) is not F.f[M.fd['states']] or bool(I.ev(ws[0].value)) != b:
                    return 'stores %s at %s' % (show(ws[0].value, 4), show(ws[0].place, 5))
        check(R, f, 'Site::set_valid', 'site data: set_valid', 'does not store the state of the site', setter)

    # -- all sites
    fs = pick(P, 'cpb::Foundation::Iterator::operator++')
    R.need(fs, 'Foundation::Iterator::operator++')
    for f in fs:
        def step():
            g, w = graph(P, f)
            out = {k: outcome(g, mk('fld', THIS, k)) for k in (M.flat, M.spatial, M.sub)}
            F = M.foundation(rnd)
            size, nsub = F.f[M.fd['size']].d, F.f[M.fd['nsub']]
            seq = sorted(((M.index(F, i, s), i, s) for s in range(nsub) for i in cells(size)), key=lambda x: x[0])
            for k, (fl, i, s) in enumerate(seq):
                I = World(g, w, {THIS: M.site(F, i, s)})
                got = I.num(out[M.flat])
                if got != fl + 1:
                    return 'from index %d it goes to %d' % (fl, got)
                if k + 1 < len(seq):
                    ni, ns = I.ev(out[M.spatial]), I.num(out[M.sub])
                    if ni.d != seq[k + 1][1].d or ns != seq[k + 1][2]:
                        return 'after cell %s, sublattice %d (index %d of a %s foundation) come the cell %s and sublattice %d with the flat index %d' \
                            % (i.d, s, fl, size, ni.d, ns, got)
        check(R, f, 'Foundation::Iterator::operator++', 'iterator step', 'flat, spatial and sublattice index get out of step', step)
    for q, end in (('cpb::Foundation::begin', False), ('cpb::Foundation::end', True)):
        for f in pick(P, q):
            def ends():
                g, w = graph(P, f)
                t = ret(g)
                F = M.foundation(rnd)
                v = World(g, w, {THIS: F}).ev(t)
                n = len(F.f[M.fd['states']].d)
                if v.f[M.flat] != (n if end else 0):
                    return 'the flat index is %s of %d' % (v.f[M.flat], n)
                if not end and (v.f[M.spatial].d != [0, 0, 0] or v.f[M.sub] != 0):
                    return 'the first site is %s, %s' % (v.f[M.spatial].d, v.f[M.sub])
            check(R, f, q[5:], 'iterator ends', 'does not start at the first or stop after the last site', ends)

    # -- sites of a slice
    fs = pick(P, 'cpb::SpatialSliceIterator::operator++')
    R.need(fs, 'SpatialSliceIterator::operator++')
    rng = slice_field(P)
    R.need(rng, 'range of SpatialSliceIterator')
    for f in fs:
        def step():
            g, w = graph(P, f)
            out = {k: outcome(g, mk('fld', THIS, k)) for k in (M.flat, M.spatial, M.sub, M.slice_idx)}
            for _ in range(2):
                F = M.foundation(rnd)
                size, nsub = F.f[M.fd['size']].d, F.f[M.fd['nsub']]
                r = sample_range(rnd, size)
                spec = slice_sites(r, nsub)
                # the order is that of a walk from the first site
                S, n, seen = M.site(F, spec[0][0], 0, **{rng: range_rec(P, r), M.slice_idx: 0}), 0, []
                todo = set((tuple(i.d), s) for i, s in spec)
                while n < len(spec):
                    at = (tuple(S.f[M.spatial].d), S.f[M.sub])
                    if at not in todo:
                        return 'in the slice %s of a %s foundation, site %d is cell %s of sublattice %d' % (r, size, n, list(at[0]), at[1])
                    todo.discard(at)
                    if S.f[M.slice_idx] != n or S.f[M.flat] != M.index(F, S.f[M.spatial], S.f[M.sub]):
                        return 'cell %s of sublattice %d, number %d of the slice %s, has the flat index %s and the slice index %s' \
                            % (list(at[0]), at[1], n, r, S.f[M.flat], S.f[M.slice_idx])
                    I = World(g, w, {THIS: S})
                    S = Rec(**dict(S.f, **{k: I.ev(out[k]) for k in out}))
                    n += 1
                if S.f[M.slice_idx] != len(spec):
                    return 'after the last of %d sites the slice index is %s' % (len(spec), S.f[M.slice_idx])
        check(R, f, 'SpatialSliceIterator::operator++', 'slice iterator step', 'does not go through the sites of the slice with its indices in step', step)

    for q in ('begin', 'end', 'size'):
        for f in pick(P, 'cpb::Foundation::SpatialSlice::' + q):
            def ends():
                g, w = graph(P, f)
                t = ret(g)
                for _ in range(3):
                    F = M.foundation(rnd)
                    size, nsub = F.f[M.fd['size']].d, F.f[M.fd['nsub']]
                    r = sample_range(rnd, size)
                    S = Rec(**{slice_owner(P): F, slice_range(P): range_rec(P, r)})
                    v = World(g, w, {THIS: S}, extra=range_leaf(P), whole=True).ev(t)
                    n = len(slice_sites(r, nsub))
                    k = v if q == 'size' else v.f[M.slice_idx]
                    if k != (0 if q == 'begin' else n):
                        return '%s for the slice %s with %d sites' % (k, r, n)
                    if q == 'begin' and (v.f[M.spatial].d != [a for a, b in r] or v.f[M.sub] != 0 or v.f[M.flat] != M.index(F, v.f[M.spatial], 0)):
                        return 'the first site of the slice %s is %s, %s, %s' % (r, v.f[M.spatial].d, v.f[M.sub], v.f[M.flat])
            check(R, f, 'SpatialSlice::' + q, 'slice ends', 'does not start at the first or stop after the last site of the slice', ends)


def slice_field(P):
    """the field of the slice iterator that holds the bounds"""
    for f in pick(P, 'cpb::SpatialSliceIterator::SpatialSliceIterator', 3):
        g, w = graph(P, f)
        for p, v in g.final_env.items():
            if p.op == 'fld' and p.a[0] is THIS and v is arg(1):
                return p.a[1]


def slice_range(P):
    for f in pick(P, 'cpb::Foundation::SpatialSlice::SpatialSlice', 2):
        g, w = graph(P, f)
        for n in g.nodes:
            if n.kind == 'write' and n.place.op == 'fld' and n.place.a[0] is THIS and n.value is arg(1):
                return n.place.a[1]
    return 'range'


def slice_owner(P):
    for f in pick(P, 'cpb::Foundation::SpatialSlice::SpatialSlice', 2):
        g, w = graph(P, f)
        for n in g.nodes:
            if n.kind == 'write' and n.place.op == 'fld' and n.place.a[0] is THIS and n.value is arg(0):
                return n.place.a[1]
    return 'foundation'


def range_rec(P, r):
    return Rec(data=Lst(Rec(start=a, end=b) for a, b in r))


def range_leaf(P):
    return None


def sample_range(rnd, size):
    out = []
    for n in size:
        a = rnd.randrange(n)
        out.append((a, rnd.randint(a + 1, n)))
    return out


def slice_sites(r, nsub):
    return [(vec([a, b, c]), s) for s in range(nsub) for c in range(*r[2]) for b in range(*r[1]) for a in range(*r[0])]



# --------------------------------------------------------------------------------------------------- slices
def slices(P, R):
    M = model(P)
    rnd = random.Random(15)
    for f in pick(P, 'cpb::Foundation::SpatialSlice::SpatialSlice', 2):
        def ctor():
            g, w = graph(P, f)
            t = outcome(g, mk('fld', THIS, slice_range(P)))
            for _ in range(3):
                F = M.foundation(rnd)
                size = F.f[M.fd['size']].d
                r = [(0, -1) if rnd.random() < 0.5 else x for x in sample_range(rnd, size)]
                v = World(g, w, {arg(0): F, arg(1): range_rec(P, r)}, whole=True).ev(t)
                got = [(x.f['start'], x.f['end']) for x in v.f['data']]
                want = [(a, n if b < 0 else b) for (a, b), n in zip(r, size)]
                if got != want:
                    return 'the slice %s of a %s foundation becomes %s' % (r, size, got)
        check(R, f, 'SpatialSlice', 'slice bounds', 'does not keep given bounds and open ends up to the size', ctor)

    for f in pick(P, 'cpb::Foundation::SpatialSlice::positions'):
        def positions():
            g, w = graph(P, f)
            ws = {}
            for n in g.nodes:
                if n.kind == 'write' and n.place.op == 'elem' and n.place.a[0].op == 'fld' and n.place.a[0].a[1] in ('x', 'y', 'z'):
                    ws.setdefault(n.place.a[0].a[1], []).append(n)
            if sorted(ws) != ['x', 'y', 'z'] or any(len(x) != 1 for x in ws.values()):
                raise Und('stores')
            for _ in range(4):
                F = M.foundation(rnd)
                size, nsub = F.f[M.fd['size']].d, F.f[M.fd['nsub']]
                r = sample_range(rnd, size)
                todo = slice_sites(r, nsub)
                k = rnd.randrange(len(todo))
                for c, (n,) in ws.items():
                    vals = {THIS: Rec(**{slice_owner(P): F, slice_range(P): range_rec(P, r)})}
                    vals.update(at_site(M, g, w, n, F, todo[k], k))
                    I = World(g, w, vals)
                    if I.num(n.place.a[1]) != k or not same(I.ev(n.value), F.f[M.fd['positions']].f[c].d[M.index(F, *todo[k])]):
                        return 'coordinate %s of site %d is stored as number %s' % (c, k, I.num(n.place.a[1]))
        check(R, f, 'SpatialSlice::positions', 'slice positions', 'does not hold the position of each site under its slice index', positions)

    fs = pick(P, 'cpb::Foundation::SublatticeSlice::SublatticeSlice', 2)
    R.need(fs, 'SublatticeSlice')
    for f in fs:
        own, start, n = block_fields(P, f)

        def ctor():
            g, w = graph(P, f)
            for _ in range(3):
                F = M.foundation(rnd)
                size = F.f[M.fd['size']].d
                block = size[0] * size[1] * size[2]
                cells_ = F.f[M.fd['cell']].f[M.cells]
                for k, c in enumerate(cells_):
                    I = World(g, w, {arg(0): F, arg(1): c.f['unique_id']}, whole=True)
                    a, b = I.num(outcome(g, mk('fld', THIS, start))), I.num(outcome(g, mk('fld', THIS, n)))
                    if (a, b) != (M.index(F, vec([0, 0, 0]), k), block):
                        return 'sublattice %d of a %s foundation gets the sites %d to %d' % (k, size, a, a + b)
        check(R, f, 'SublatticeSlice', 'sublattice slice', 'is not the block of sites of the sublattice', ctor)
    for q in ('get_states', 'get_positions'):
        for f in pick(P, 'cpb::Foundation::SublatticeSlice::' + q):
            own, start, n = block_fields(P, pick(P, 'cpb::Foundation::SublatticeSlice::SublatticeSlice', 2)[0])

            def views():
                g, w = graph(P, f)
                t = ret(g)
                F = M.foundation(rnd)
                a, b = 3, 4
                I = World(g, w, {THIS: Rec(**{own: F, start: a, n: b})}, extra=mapped)
                v = I.ev(t)
                if q == 'get_states':
                    if v.d != F.f[M.fd['states']].d[a:a + b]:
                        return 'the states of %d sites from %d are %s' % (b, a, brief(v))
                else:
                    p = F.f[M.fd['positions']].f
                    got = [v.f[k].d for k in sorted(v.f)]
                    if got != [p[c].d[a:a + b] for c in 'xyz']:
                        return 'the positions of %d sites from %d are other parts or other coordinates' % (b, a)
            check(R, f, 'SublatticeSlice::' + q, 'sublattice data', 'is not the part of the foundation that belongs to the sublattice', views)


def mapped(t, I):
    """an Eigen::Map of the whole of a part is the part"""
    if t.op == 'sub' and t.a[1] in ('map', 'ref'):
        return I.ev(t.a[0])
    return None


def block_fields(P, f):
    """names of the fields that hold the foundation, the start and the length of a block"""
    g, w = graph(P, f)
    own = start = n = None
    for p in g.final_env:
        if p.op == 'fld' and p.a[0] is THIS:
            v = outcome(g, p)
            if v is arg(0):
                own = p.a[1]
            elif contains(v, lambda x: x.op == 'findpos'):
                start = p.a[1]
            elif contains(v, lambda x: x.op == 'fld'):
                n = p.a[1]
    return own or 'foundation', start or 'start_idx', n or 'slice_size'


def at_site(M, g, w, n, F, site, k=None):
    """values of the loop variables of the innermost loop over sites around the node"""
    for h in loops_of(g, n):
        lv = [x for x in w.lvinfo if x.a[0] == h.lid and isinstance(x.a[1], T) and x.a[1].op == 'fld' and x.a[1].a[1] == M.flat]
        if len(lv) == 1:
            base = lv[0].a[1].a[0]
            idx, sub = site
            v = {M.flat: M.index(F, idx, sub), M.spatial: idx, M.sub: sub}
            if k is not None:
                v[M.slice_idx] = k
            out = {}
            for name, x in v.items():
                out[mk('lv', h.lid, mk('fld', base, name))] = x
            return out
    raise Und('loop over sites')


# --------------------------------------------------------------------------------------------------- positions
def positions(P, R):
    M = model(P)
    rnd = random.Random(16)
    fs = pick(P, 'cpb::detail::generate_positions')
    R.need(fs, 'generate_positions')
    for f in fs:
        def blocks():
            g, w = graph(P, f, ['cpb::Lattice::optimized_unit_cell'])
            t = ret(g)
            for _ in range(3):
                F = M.foundation(rnd, ndim=rnd.choice((1, 2, 3, 3)))
                lat, cell = F.f[M.fd['lattice']], F.f[M.fd['cell']]
                size, nsub = F.f[M.fd['size']], F.f[M.fd['nsub']]
                origin = vec([rnd.uniform(-9, 9) for _ in range(3)])
                vs = lat.f[M.lat['vectors']]

                def unit(t, I):
                    return cell if t.op == 'call' and str(t.a[0]).endswith('optimized_unit_cell') else None
                I = World(g, w, {arg(0): origin, arg(1): size, arg(2): lat}, extra=unit, whole=True)
                for c, name in enumerate('xyz'):
                    v = I.ev(t.a[0] if False else part_of(t, name))
                    if len(v.d) != nsub * len(cells(size.d)):
                        return 'there are %d positions for %d sites' % (len(v.d), nsub * len(cells(size.d)))
                    for s in range(nsub):
                        for i in cells(size.d):
                            want = origin.d[c] + cell.f[M.cells][s].f['position'].d[c] + sum(i.d[k] * vs[k].d[c] for k in range(len(vs)))
                            got = v.d[M.index(F, i, s)]
                            if got is None or abs(got - want) > 1e-9:
                                return 'coordinate %s of cell %s, sublattice %d (%s foundation) is %s, not %.4f' % (name, i.d, s, size.d, got, want)
        check(R, f, 'generate_positions', 'site positions', 'a position is not origin + sublattice offset + its combination of lattice vectors at the '
              'flat index of the site', blocks)

    for f in pick(P, 'cpb::Lattice::calc_position'):
        def calc():
            g, w = graph(P, f)
            t = ret(g)
            for k in range(6):
                lat = M.lattice(rnd)
                vs = lat.f[M.lat['vectors']]
                i = vec([rnd.randint(-3, 3) for _ in range(3)])
                subs = lat.f[M.lat['sublattices']]
                s = rnd.randrange(len(subs))

                def name(t, I):
                    if t.op == 'size' and t.a[0] is arg(1):
                        return 5 if k % 2 else 0
                    if t.op == 'elem' and t.a[1].op == 'findpos' and t.a[1].a[0] is arg(1):
                        return subs[s]
                    return None
                v = World(g, w, {THIS: lat, arg(0): i, arg(1): 'name'}, extra=name, whole=True).ev(t)
                want = [lat.f[M.lat['offset']].d[c] + sum(i.d[j] * vs[j].d[c] for j in range(len(vs)))
                        + (subs[s].f['second'].f['position'].d[c] if k % 2 else 0) for c in range(3)]
                if not same(v, vec(want)):
                    return 'the position of cell %s of a %d-dimensional lattice %s is %s instead of %s' \
                        % (i.d, len(vs), 'with a sublattice' if k % 2 else 'without a sublattice', brief(v), brief(vec(want)))
        check(R, f, 'Lattice::calc_position', 'lattice position', 'is not offset + lattice vectors + sublattice position', calc)

    opaque = ['cpb::detail::generate_positions', 'cpb::detail::find_bounds', 'cpb::Lattice::optimized_unit_cell', 'cpb::remove_dangling',
              'cpb::Shape::contains']
    fs = pick(P, 'cpb::Foundation::Foundation', 2)
    R.need(len(fs) == 2, 'constructors of Foundation')
    for f in fs:
        prim = 'Primitive' in ptype(f, 1)

        def built():
            g, w = graph(P, f, opaque)
            out = {k: outcome(g, mk('fld', THIS, M.fd[k])) for k in ('bounds', 'size', 'nsub', 'positions', 'cell')}
            gen = [x for x in subterms(out['positions']) if x.op == 'call' and str(x.a[0]).endswith('generate_positions')]
            if len(gen) != 1:
                raise Und('positions')
            for _ in range(4):
                F = M.foundation(rnd)
                lat = F.f[M.fd['lattice']]
                size = vec([rnd.randint(1, 6) for _ in range(3)])
                low = vec([rnd.randint(-5, 5) for _ in range(3)])
                high = vec([a + n - 1 for a, n in zip(low.d, size.d)])

                def ext(t, I):
                    if t.op == 'call' and str(t.a[0]).endswith('find_bounds'):
                        return Rec(first=low, second=high)
                    if t.op == 'call' and str(t.a[0]).endswith('optimized_unit_cell'):
                        return F.f[M.fd['cell']]
                    return None
                I = World(g, w, {arg(0): lat, arg(1): Rec(size=size)}, extra=ext, whole=True)
                b, n = I.ev(out['bounds']), I.ev(out['size'])
                lo, hi = b.f['first'].d, b.f['second'].d
                if n.d != size.d:
                    return 'a foundation of %s cells has the size %s' % (size.d, n.d)
                if [y - x + 1 for x, y in zip(lo, hi)] != n.d or any(x > 0 or y < 0 for x, y in zip(lo, hi)) and prim:
                    return 'the bounds of %s cells are %s to %s' % (n.d, lo, hi)
                if not prim and (lo != low.d or hi != high.d):
                    return 'the bounds of the shape are changed'
                if I.num(out['nsub']) != len(lat.f[M.lat['sublattices']]):
                    return 'it has %s sublattices' % I.num(out['nsub'])
                o, s = I.ev(gen[0].a[1]), I.ev(gen[0].a[2])
                vs = lat.f[M.lat['vectors']]
                want = vec([lat.f[M.lat['offset']].d[c] + sum(lo[j] * vs[j].d[c] for j in range(len(vs))) for c in range(3)])
                if not same(o, want) or s.d != n.d or I.ev(gen[0].a[3]) is not lat:
                    return 'the positions of cells %s to %s start at %s instead of %s' % (lo, hi, brief(o), brief(want))
        check(R, f, 'Foundation(%s)' % ('Primitive' if prim else 'Shape'), 'foundation origin', 'bounds, size and origin of the positions do not agree', built)

    for f in pick(P, 'cpb::detail::find_bounds'):
        def bounds():
            g, w = graph(P, f, ['cpb::Lattice::translate_coordinates'])
            t = ret(g)
            rounding = contains(t, lambda x: x.op == 'call' and str(x.a[0]).split('::')[-1] in ('floor', 'ceil'))
            for _ in range(5):
                lat = M.lattice(rnd)
                nd = len(lat.f[M.lat['vectors']])
                pts = [vec([rnd.uniform(-9, 9) if k < nd else 0.0 for k in range(3)]) for _ in range(rnd.randint(1, 4))]

                def ext(t, I):
                    if t.op == 'call' and str(t.a[0]).endswith('translate_coordinates'):
                        return I.ev(t.a[2])
                    if t.op == 'call' and 'numeric_limits' in str(t.a[0]):
                        return 2 ** 31 - 1 if str(t.a[0]).endswith('max') else -2 ** 31
                    return None
                I = World(g, w, {arg(0): Rec(vertices=Lst(pts)), arg(1): lat}, extra=ext, whole=True)
                v = I.ev(t)
                lo, hi = v.f['first'].d, v.f['second'].d
                for k in range(3):
                    xs = [p.d[k] for p in pts]
                    pad = 0 if rounding or k >= nd else 1
                    if k < nd and (lo[k] > min(xs) - pad + 1e-9 or hi[k] < max(xs) + pad - 1e-9) or k >= nd and (lo[k] or hi[k]):
                        return 'vertices at %s along direction %d of a %d-dimensional lattice have the bounds %.2f to %.2f' \
                            % (', '.join('%.2f' % x for x in xs), k, nd, lo[k], hi[k])
        check(R, f, 'find_bounds', 'shape bounds', 'the bounds do not enclose all vertices (with one more cell against truncation) along the lattice '
              'vectors and are not zero in other directions', bounds)


def part_of(t, name):
    if t.op == 'obj':
        for k, v in t.a[1:]:
            if k == name or isinstance(k, T) and k.op == 'fld' and k.a[1] == name:
                return v
    return mk('fld', t, name)


# --------------------------------------------------------------------------------------------------- final indices
def final(P, R):
    M = model(P)
    rnd = random.Random(17)
    for f in pick(P, 'cpb::FinalizedIndices::operator[]'):
        def lookup():
            g, w = graph(P, f)
            F = M.foundation(rnd)
            fi = F.f[M.fd['final']]
            for _ in range(4):
                S = M.site(F, rnd.choice(cells(F.f[M.fd['size']].d)), rnd.randrange(F.f[M.fd['nsub']]))
                if World(g, w, {THIS: fi, arg(0): S}).num(ret(g)) != fi.f[M.fin['indices']].d[S.f[M.flat]]:
                    return 'the index of a site is not the one stored under its flat index'
        check(R, f, 'FinalizedIndices::operator[]', 'final index of a site', 'is not the stored one', lookup)

    fs = pick(P, 'cpb::Foundation::get_finalized_indices')
    R.need(fs, 'get_finalized_indices')
    for f in fs:
        def numbers():
            g, w = graph(P, f)
            t = outcome(g, mk('fld', THIS, M.fd['final']))
            for k in range(4):
                F = M.foundation(rnd)
                F.f[M.fd['final']] = Rec(**{M.fin['indices']: vec([]), M.fin['total']: 0, M.fin['counts']: vec([])})
                st = F.f[M.fd['states']].d
                v = World(g, w, {THIS: F}, whole=True).ev(t)
                got, c = v.f[M.fin['indices']].d, 0
                want = []
                for b in st:
                    want.append(c if b else -1)
                    c += bool(b)
                if got != want or v.f[M.fin['total']] != c:
                    return 'sites with the states %s get the indices %s (%s in total)' % (''.join('01'[bool(b)] for b in st), got[:12], v.f[M.fin['total']])
        check(R, f, 'Foundation::get_finalized_indices', 'final indices', 'valid sites are not numbered from 0 in their order, or others get a number', numbers)


# --------------------------------------------------------------------------------------------------- what a system reports
class Subs:
    """names of the fields of the compressed sublattices"""
    def __init__(self, P):
        N = Names(P)
        q = 'cpb::CompressedSublattices::It::'
        self.sys, self.ham = N(q + 'sys_start', 'sys_idx'), N(q + 'ham_start', 'ham_idx')
        self.id, self.n, self.orb = N(q + 'id', 'id'), N(q + 'num_sites', 'num_sites'), N(q + 'num_orbitals', 'num_orbitals')
        t = N.term('cpb::CompressedSublattices::alias_ids')
        ds = set()
        for f in pick(P, 'cpb::CompressedSublattices::begin'):
            g, w = graph(P, f)
            ds |= set(x.a[1] for x in subterms(ret(g)) if x.op == 'fld' and x.a[0] is THIS)
        self.data = ds.pop() if len(ds) == 1 else 'data'
        self.it = 'it'
        for f in pick(P, 'cpb::CompressedSublattices::begin'):
            t = ret(graph(P, f)[0])
            for e in t.a[1:] if t.op == 'obj' else ():
                if isinstance(e, tuple) and isinstance(e[1], T) and e[1].op == 'iter':
                    self.it = e[0] if isinstance(e[0], str) else e[0].a[1]

    def sample(self, rnd):
        k = rnd.randint(2, 4)
        norb = sorted(rnd.randint(1, 3) for _ in range(k))
        ids = rnd.sample(range(9), k)
        return Lst(Rec(**{self.id: ids[i], self.n: rnd.randint(1, 4), self.orb: norb[i]}) for i in range(k))

    def starts(self, data):
        s = h = 0
        out = []
        for e in data:
            out.append((s, h))
            s += e.f[self.n]
            h += e.f[self.n] * e.f[self.orb]
        return out, s, h

    def at(self, w, lid, data, k):
        """loop values of an iteration over the sublattices in its k-th pass"""
        st, _, _ = self.starts(data)
        out = {}
        for x in w.lvinfo:
            if x.a[0] == lid and isinstance(x.a[1], T) and x.a[1].op == 'fld':
                if x.a[1].a[1] == self.sys:
                    out[x] = st[k][0]
                elif x.a[1].a[1] == self.ham:
                    out[x] = st[k][1]
                elif x.a[1].a[1] == self.it:
                    out[x] = It(data, k)
        return out


def report(P, R):
    M, S = model(P), Subs(P)
    rnd = random.Random(18)
    for f in pick(P, 'cpb::CompressedSublattices::It::operator++'):
        def step():
            g, w = graph(P, f)
            data = S.sample(rnd)
            st, s, h = S.starts(data)
            st = st + [(s, h)]
            for k in range(len(data)):
                I = World(g, w, {THIS: Rec(**{S.it: It(data, k), S.sys: st[k][0], S.ham: st[k][1]})})
                a, b = I.num(outcome(g, mk('fld', THIS, S.sys))), I.num(outcome(g, mk('fld', THIS, S.ham)))
                if (a, b) != st[k + 1]:
                    return 'after %d sites with %d orbitals starting at site %d, matrix index %d come site %d and matrix index %d' \
                        % (data[k].f[S.n], data[k].f[S.orb], st[k][0], st[k][1], a, b)
                if I.num(outcome(g, mk('fld', THIS, S.it))) != k + 1:
                    return 'it does not go to the next sublattice'
        check(R, f, 'CompressedSublattices::It::operator++', 'sublattice start', 'the starts of the next sublattice are not the sums over the previous ones', step)
    for q, sp in (('sys_end', lambda st, e: st[0] + e.f[S.n]), ('ham_end', lambda st, e: st[1] + e.f[S.n] * e.f[S.orb]),
                  ('ham_size', lambda st, e: e.f[S.n] * e.f[S.orb]), ('sys_size', lambda st, e: e.f[S.n])):
        for f in pick(P, 'cpb::CompressedSublattices::It::' + q):
            def ends():
                g, w = graph(P, f)
                data = S.sample(rnd)
                st, _, _ = S.starts(data)
                for k, e in enumerate(data):
                    v = World(g, w, {THIS: Rec(**{S.it: It(data, k), S.sys: st[k][0], S.ham: st[k][1]})}).num(ret(g))
                    if v != sp(st[k], e):
                        return 'of %d sites with %d orbitals starting at %s it is %d' % (e.f[S.n], e.f[S.orb], st[k], v)
            check(R, f, 'CompressedSublattices::It::' + q, 'sublattice end', 'is not start + sites (x orbitals)', ends)
    for q, start in (('begin', True), ('end', False)):
        for f in pick(P, 'cpb::CompressedSublattices::' + q):
            def first():
                g, w = graph(P, f)
                data = S.sample(rnd)
                v = World(g, w, {THIS: Rec(**{S.data: data})}).ev(ret(g))
                if v.f[S.it].k != (0 if start else len(data)) or start and (v.f[S.sys] or v.f[S.ham]):
                    return 'it begins at sublattice %s, site %s, matrix index %s' % (v.f[S.it].k, v.f[S.sys], v.f[S.ham])
            check(R, f, 'CompressedSublattices::' + q, 'sublattice begin', 'does not begin at the first or end after the last sublattice', first)

    for f in pick(P, 'cpb::CompressedSublattices::add'):
        def add():
            g, w = graph(P, f)
            push = [n for n in g.nodes if n.kind == 'mut' and n.method in ('push_back', 'emplace_back')]
            more = [n for n in g.nodes if n.kind == 'write' and n.place.op == 'fld' and n.place.a[1] == S.n and n not in push
                    and n.place.a[0].op == 'elem']
            if len(push) != 1 or len(more) != 1:
                raise Und('%d new and %d extended entries' % (len(push), len(more)))
            for k in range(6):
                data = S.sample(rnd) if k else Lst()
                last = data[-1].f[S.id] if data else 0
                sid = last if k % 2 else 20
                I = World(g, w, {THIS: Rec(**{S.data: data}), arg(0): sid, arg(1): 2, arg(2): 3}, extra=None)
                new, ext = walk_to(g, g.entry, push[0], I), walk_to(g, g.entry, more[0], I)
                merge = bool(data) and sid == last
                if new == merge or ext != merge:
                    return 'an entry of the same sublattice as the last one is %s, another one is %s' % ('appended' if new else 'added to it', 'lost')
                if merge:
                    if I.num(more[0].value) != data[-1].f[S.n] + 3 or I.num(more[0].place.a[0].a[1]) != len(data) - 1:
                        return '3 more sites make %s of %d' % (I.num(more[0].value), data[-1].f[S.n])
                else:
                    e = I.ev(push[0].args[0])
                    if (e.f[S.id], e.f[S.n], e.f[S.orb]) != (sid, 3, 2):
                        return 'the new entry has id, sites, orbitals = %s' % ((e.f[S.id], e.f[S.n], e.f[S.orb]),)
        check(R, f, 'CompressedSublattices::add', 'sublattice counts', 'sites are not counted with the sublattice they belong to', add)

    for q, spec in (('decompressed_size', lambda d: S.starts(d)[1]),):
        for f in pick(P, 'cpb::CompressedSublattices::' + q):
            def total():
                g, w = graph(P, f)
                data = S.sample(rnd)
                v = World(g, w, {THIS: Rec(**{S.data: data})}, whole=True).num(ret(g))
                if v != spec(data):
                    return '%d instead of %d' % (v, spec(data))
            check(R, f, 'CompressedSublattices::' + q, 'number of sites', 'is not the sum over the sublattices', total)

    for f in pick(P, 'cpb::CompressedSublattices::decompressed'):
        def ids():
            g, w = graph(P, f)
            for _ in range(3):
                data = S.sample(rnd)
                v = World(g, w, {THIS: Rec(**{S.data: data})}, whole=True).ev(ret(g))
                want = [e.f[S.id] for e in data for _ in range(e.f[S.n])]
                if v.d != want:
                    return 'the sites of %s get the ids %s' % (want, v.d)
        check(R, f, 'CompressedSublattices::decompressed', 'sublattice of a site', 'is not the one whose range contains it', ids)

    for f in pick(P, 'cpb::CompressedSublattices::filter'):
        def kept():
            g, w = graph(P, f)
            t = outcome(g, mk('fld', THIS, S.data))
            for _ in range(3):
                data = S.sample(rnd)
                st, n, _ = S.starts(data)
                keep = vec([rnd.random() < 0.6 for _ in range(n)])
                v = World(g, w, {THIS: Rec(**{S.data: data}), arg(0): keep}, whole=True).ev(t)
                got = [(e.f[S.id], e.f[S.n], e.f[S.orb]) for e in v]
                want = [(e.f[S.id], sum(map(int, keep.d[s:s + e.f[S.n]])), e.f[S.orb]) for (s, _), e in zip(st, data)]
                if got != want:
                    return '(id, sites, orbitals) become %s instead of %s' % (got, want)
        check(R, f, 'CompressedSublattices::filter', 'sublattice counts: removed sites', 'are not those of the remaining sites of each sublattice', kept)

    def lookup(f, vals, spec, what):
        """a search over the sublattices whose result is given in the pass that finds it"""
        g, w = graph(P, f)
        ex = [n for n in g.nodes if n.kind == 'exit']
        hs = [h for h in g.nodes if h.kind == 'loop' and any(x.a[0] == h.lid and isinstance(x.a[1], T) and x.a[1].op == 'fld' and x.a[1].a[1] == S.sys
                                                           for x in w.lvinfo)]
        if len(hs) != 1 or len(ex) != 1:
            raise Und('loop over sublattices')
        for _ in range(2):
            data = S.sample(rnd)
            st, n, _ = S.starts(data)
            for k, e in enumerate(data):
                for i in range(n):
                    v = dict(vals(data, i))
                    v.update(S.at(w, hs[0].lid, data, k))
                    I = World(g, w, v, whole=True)
                    found = walk_to(g, hs[0], ex[0], I)
                    inside = st[k][0] <= i < st[k][0] + e.f[S.n]
                    if found != inside:
                        return 'site %d is %s in the sublattice with the sites %d to %d' % (i, 'looked up' if found else 'not found', st[k][0],
                                                                                         st[k][0] + e.f[S.n] - 1)
                    if found:
                        a = st[k][1] + (i - st[k][0]) * e.f[S.orb]
                        r = spec(I.ev(ex[0].d['ret']), a, e)
                        if r:
                            return 'site %d with %d orbitals %s' % (i, e.f[S.orb], r)

    def orbitals_of(data, i):
        st, _, _ = S.starts(data)
        return [e.f[S.orb] for (s, _), e in zip(st, data) if s <= i < s + e.f[S.n]][0]

    for f in pick(P, 'cpb::CompressedSublattices::ham_index', 2):
        check(R, f, 'CompressedSublattices::ham_index', 'matrix index of a site', 'is not that of its first orbital', lambda: lookup(
            f, lambda d, i: {THIS: Rec(**{S.data: d}), arg(0): i, arg(1): orbitals_of(d, i)},
            lambda v, a, e: None if v == a else 'has the matrix index %s instead of %d' % (v, a), ''))

    sysf = dict(subs=Names(P)('cpb::System::compressed_sublattices', 'compressed_sublattices'))
    fs = pick(P, 'cpb::System::to_hamiltonian_indices')
    R.need(fs, 'System::to_hamiltonian_indices')
    for f in fs:
        def matrix():
            return lookup(f, lambda d, i: {THIS: Rec(compressed_sublattices=Rec(**{S.data: d})), arg(0): i},
                          lambda v, a, e: None if v.d == list(range(a, a + e.f[S.orb])) else 'has the matrix indices %s instead of %d...' % (v.d, a), '')
        check(R, f, 'System::to_hamiltonian_indices', 'matrix indices of a site', 'are not those of its orbitals', matrix)

    for f in pick(P, 'cpb::System::hamiltonian_size'):
        def size():
            g, w = graph(P, f)
            data = S.sample(rnd)
            v = World(g, w, {THIS: Rec(compressed_sublattices=Rec(**{S.data: data}))}, whole=True).num(ret(g))
            if v != S.starts(data)[2]:
                return '%d instead of %d' % (v, S.starts(data)[2])
        check(R, f, 'System::hamiltonian_size', 'matrix size', 'is not the number of orbitals of all sites', size)

    for f in pick(P, 'cpb::System::expanded_positions'):
        def expanded():
            g, w = graph(P, f)
            t = ret(g)
            for _ in range(2):
                data = S.sample(rnd)
                st, n, h = S.starts(data)
                pos = Rec(**{c: vec([rnd.uniform(-5, 5) for _ in range(n)]) for c in 'xyz'})
                I = World(g, w, {THIS: Rec(compressed_sublattices=Rec(**{S.data: data}), positions=pos)}, whole=True)
                for c in 'xyz':
                    try:
                        v = I.ev(part_of(t, c))
                    except Outside:
                        return 'the orbitals of a site are stored outside of the array'
                    want = [x for (s, _), e in zip(st, data) for i in range(s, s + e.f[S.n]) for x in [pos.f[c].d[i]] * e.f[S.orb]]
                    if len(v.d) != len(want) or any(a is None or abs(a - b) > 1e-12 for a, b in zip(v.d, want)):
                        return 'coordinate %s of the orbitals is not that of their sites' % c
        check(R, f, 'System::expanded_positions', 'expanded positions', 'do not repeat the position of a site for each of its orbitals', expanded)

    for f in pick(P, 'cpb::System::sublattice_range'):
        def rng():
            g, w = graph(P, f)
            t = ret(g)
            for k in range(6):
                data = S.sample(rnd)
                st, n, _ = S.starts(data)
                j = rnd.randrange(len(data))

                def ext(t, I):
                    if t.op == 'size' and t.a[0] is arg(0):
                        return 0 if k == 0 else 3
                    if t.op == 'findpos' and contains(t, lambda x: x is arg(0)) or t.op == 'call' and str(t.a[0]).endswith('::id') and len(t.a) == 3:
                        return data[j].f[S.id]
                    if t.op in ('call', 'find_if') and 'find_if' in (t.op, str(t.a[0]).split('::')[-1]):
                        for i in range(len(data)):
                            e = Rec(**{S.it: It(data, i), S.sys: st[i][0], S.ham: st[i][1]})
                            if I.holds(t.a[-1], e):
                                return e
                        raise Und('not found')
                    return None
                I = World(g, w, {THIS: Rec(compressed_sublattices=Rec(**{S.data: data}), positions=Rec(**{c: vec([0] * n) for c in 'xyz'}))}, extra=ext,
                          whole=True)
                v = I.ev(t)
                want = (0, n) if k == 0 else (st[j][0], st[j][0] + data[j].f[S.n])
                if (v.f['start'], v.f['end']) != want:
                    return '%s instead of %s' % ((v.f['start'], v.f['end']), want)
        check(R, f, 'System::sublattice_range', 'sublattice range', 'is not the range of the sites of the sublattice', rng)

    for f in pick(P, 'cpb::System::find_nearest'):
        def near():
            g, w = graph(P, f, ['cpb::System::sublattice_range'])
            t = ret(g)
            for _ in range(40):
                n = rnd.randint(4, 7)
                a = rnd.randrange(n - 1)
                b = rnd.randint(a + 1, n)
                pos = Rec(**{c: vec([rnd.uniform(-5, 5) for _ in range(n)]) for c in 'xyz'})
                to = vec([rnd.uniform(-5, 5) for _ in range(3)])

                def ext(t, I):
                    return Rec(start=a, end=b) if t.op == 'call' and str(t.a[0]).endswith('sublattice_range') else None
                v = World(g, w, {THIS: Rec(positions=pos), arg(0): to}, extra=ext, whole=True).num(t)
                d = [sum((pos.f[c].d[i] - to.d[k]) ** 2 for k, c in enumerate('xyz')) for i in range(n)]
                want = min(range(a, b), key=lambda i: d[i])
                if v != want:
                    return 'of the sites %d to %d it is %d at %.2f instead of %d at %.2f' % (a, b - 1, v, d[v] ** 0.5, want, d[want] ** 0.5)
        check(R, f, 'System::find_nearest', 'nearest site', 'is not the closest site of the range', near)


# --------------------------------------------------------------------------------------------------- unit cell
def sample_lattice(M, rnd, nterm=0):
    """a lattice with aliases and several orbitals"""
    n = rnd.randint(3, 5)
    ids = [rnd.randrange(i + 1) for i in range(n)]
    alias = [i if rnd.random() < 0.5 else ids[i] for i in range(n)]
    alias = [alias[a] for a in alias]
    orb = [rnd.randint(1, 3) for _ in range(n)]
    names = ['s%d' % i for i in range(n)]
    subs = Lst(Rec(first=names[i], second=Rec(position=vec([rnd.uniform(-1, 1) for _ in range(3)]), unique_id=i, alias_id=alias[i],
                                              energy=A(orb[alias[i]], orb[alias[i]], [0.0] * orb[alias[i]] ** 2))) for i in range(n))
    rnd.shuffle(subs)
    hops = Lst()
    for k in range(3 if nterm else 0):
        hops.append(Rec(first='h%d' % k, second=Rec(family_id=k, energy=0, terms=Lst(
            Rec(relative_index=vec([rnd.randint(-1, 1) for _ in range(3)]), **dict(zip(('from', 'to'), rnd.sample(range(n), 2))))
            for _ in range(rnd.randint(1, 2))))))     # different ends: the term of a store does not know that two places may be the same
    rnd.shuffle(hops)
    return Rec(**{M.lat['sublattices']: subs, M.lat['hoppings']: hops})


def built_cell(M, f, lat):
    g, w = graph(M.P, f)
    return World(g, w, {arg(0): lat}, whole=True).ev(outcome(g, mk('fld', THIS, M.cells)))


def cell(P, R):
    M = model(P)
    rnd = random.Random(20)
    fs = pick(P, 'cpb::OptimizedUnitCell::OptimizedUnitCell', 1)
    R.need(fs, 'constructor of OptimizedUnitCell')
    for f in fs:
        def sites():
            for k in range(12):
                lat = sample_lattice(M, rnd)
                got = built_cell(M, f, lat)
                subs = {x.f['second'].f['unique_id']: x.f['second'].f for x in lat.f[M.lat['sublattices']]}
                if sorted(x.f['unique_id'] for x in got) != sorted(subs):
                    return 'of the sublattices %s the unit cell has %s' % (sorted(subs), [x.f['unique_id'] for x in got])
                for x in got:
                    s = subs[x.f['unique_id']]
                    if x.f['alias_id'] != s['alias_id'] or x.f['norb'] != s['energy'].c or not same(x.f['position'], s['position']):
                        return 'sublattice %s gets the id, orbitals or position of another one' % x.f['unique_id']
                al = [x.f['alias_id'] for x in got]
                no = [x.f['norb'] for x in got]
                if no != sorted(no):
                    return 'sublattices with %s orbitals are not in ascending order' % no
                if len([1 for i in range(len(al)) if i == 0 or al[i] != al[i - 1]]) != len(set(al)):
                    return 'sublattices with the ids %s and %s orbitals do not stay together' % (al, [x.f['norb'] for x in got])
        check(R, f, 'OptimizedUnitCell: sites', 'unit cell sites', 'are not the sublattices of the lattice with aliases next to each other', sites)


# --------------------------------------------------------------------------------------------------- what is copied into a system
ZERO = mk('c', 0)
SYSTEM = ['cpb::leads::detail::Junction::Junction', 'cpb::HoppingBlocks::add', 'cpb::CompressedSublattices::add',
          'cpb::Foundation::get_finalized_indices', 'cpb::Lattice::site_registry', 'cpb::Lattice::hopping_registry',
          'cpb::TranslationalSymmetry::translations', 'cpb::CompressedSublattices::verify', 'cpb::HoppingBlocks::nnz', 'cpb::HoppingBlocks::reserve']


class Sample:
    """a foundation and what a function that reads its sites is given with it"""
    def __init__(self, M, rnd, kind):
        self.M, self.kind = M, kind
        self.F = F = M.foundation(rnd)
        self.size, self.nsub = F.f[M.fd['size']].d, F.f[M.fd['nsub']]
        self.fi = F.f[M.fd['final']]
        self.final = self.fi.f[M.fin['indices']].d
        self.shift = vec([0, 0, 0])
        self.vals, self.search = {}, None
        if kind == 'system':
            self.range = [(0, n) for n in self.size]
        if kind == 'boundary':
            self.range = sample_range(rnd, self.size)
            ts = Lst(Rec(direction=vec([1, 0, 0]), boundary_slice=range_rec(M.P, sample_range(rnd, self.size)),
                         shift_index=vec([rnd.randint(-2, 2) for _ in range(3)]), shift_lenght=vec([rnd.uniform(-9, 9) for _ in range(3)]))
                     for _ in range(3))
            self.t = rnd.randrange(3)
            ts[self.t].f['boundary_slice'] = range_rec(M.P, self.range)
            self.translations = ts
            self.shift = ts[self.t].f['shift_index']
            self.vals = {arg(1): F}
        if kind == 'system':
            self.vals = {arg(1): F}
        if kind == 'lead':
            self.range = sample_range(rnd, self.size)
            axis, sign = rnd.randrange(3), rnd.choice((-1, 1))
            self.shift = vec([sign if d == axis else 0 for d in range(3)])
        self.sites = slice_sites(self.range, self.nsub)
        self.sites.sort(key=lambda x: M.index(F, *x))
        ok = [self.final[M.index(F, *x)] >= 0 for x in self.sites]
        if kind == 'lead':
            self.valid = [v and rnd.random() < 0.8 for v in ok]
            self.indices = Lst(self.final[M.index(F, *x)] for x, v in zip(self.sites, self.valid) if v)
            self.junction = Rec(is_valid=vec(self.valid), slice_index=range_rec(M.P, self.range))
            self.vals = {arg(0): F, arg(1): Rec(axis=axis, sign=sign), THIS: Rec(indices=self.indices)}
            self.offset = vec([sign * x for x in F.f[M.fd['lattice']].f[M.lat['vectors']][axis].d])
            self.search = mk('fld', THIS, 'indices')
        else:
            self.valid = ok

    def number_first(self, rnd):
        """let one of the sites of the range be number 0"""
        if self.kind == 'lead':
            return
        ok = [self.M.index(self.F, *x) for x, v in zip(self.sites, self.valid) if v]
        if ok:
            i = rnd.choice(ok)
            if 0 in self.final:
                self.final[self.final.index(0)] = self.final[i]
            self.final[i] = 0

    def leaf(self, t, I):
        if t.op == 'call':
            n = str(t.a[0])
            if n.endswith('get_finalized_indices'):
                return self.fi
            if 'Junction' in n:
                return self.junction if self.kind == 'lead' else None
            if n.endswith('::translations'):
                return self.translations if self.kind == 'boundary' else None
            if n.endswith('HoppingBlocks::nnz'):
                return 5
        return None

    def index(self, flat):
        """number of a site in the system, < 0 if it is not part of it"""
        i = self.final[flat]
        if self.kind == 'lead':
            return self.indices.index(i) if i >= 0 and i in self.indices else -1
        return i

    def world(self, g, w, node, k=None):
        """sample point with the loops around the node at site k of the range"""
        vals = dict(self.vals)
        heads = loops_of(g, node)
        if k is not None:
            vals.update(at_site(self.M, g, w, node, self.F, self.sites[k], k))
        if self.kind == 'boundary':
            h = heads[-1]
            step = [x for x in w.lvinfo if x.a[0] == h.lid and (w.lvinfo[x][0].op == 'iter' or w.lvinfo[x][0] is ZERO)]
            if len(step) != 1:
                raise Und('loop over translations')
            vals[step[0]] = self.t
        I = World(g, w, vals, extra=self.leaf, whole=True)
        I.search = self.search
        I.active = heads
        return I

    def head(self, g, w, node):
        for h in loops_of(g, node):
            if any(x.a[0] == h.lid and isinstance(x.a[1], T) and x.a[1].op == 'fld' and x.a[1].a[1] == self.M.flat for x in w.lvinfo):
                return h
        raise Und('loop over sites')


def producers(P, R):
    """(function, kind) of the functions that read the sites of a foundation into a system"""
    out = []
    for q, n, kind in (('cpb::detail::populate_system', None, 'system'), ('cpb::detail::populate_boundaries', None, 'boundary'),
                       ('cpb::leads::Structure::Structure', 2, 'lead')):
        fs = pick(P, q, n)
        R.need(fs, q)
        out += [(f, kind) for f in fs]
    return out


def loop_covers(S, g, w, node):
    """the loop over sites around the node begins at the first site of the range and ends after the last"""
    M = S.M
    h = S.head(g, w, node)
    lv = {x.a[1].a[1]: x for x in w.lvinfo if x.a[0] == h.lid and isinstance(x.a[1], T) and x.a[1].op == 'fld' and x.a[1].a[1] in
          (M.flat, M.spatial, M.sub, M.slice_idx)}
    I = World(g, w, {k: v for k, v in S.world(g, w, node, 0).vals.items() if k not in lv.values()}, extra=S.leaf, whole=True)
    first = S.sites[0]
    got = {n: I.ev(w.lvinfo[x][0]) for n, x in lv.items()}
    if got[M.flat] != M.index(S.F, *first) or M.spatial in got and got[M.spatial].d != first[0].d or M.sub in got and got[M.sub] != first[1]:
        return 'it begins at cell %s of sublattice %s, index %s' % (got.get(M.spatial), got.get(M.sub), got[M.flat])
    m, k = h, 0
    while m.kind != 'branch':
        nx = [x for x, _ in m.succ if not throws(x)]
        if len(nx) != 1 or k > 60:
            raise Und('end of the loop over sites')
        m, k = nx[0], k + 1
    b = body_of(g, h)
    if not any(x.id not in b for x, _ in m.succ):
        raise Und('end of the loop over sites')
    n = len(S.sites)
    for at in (0, n - 1, n):
        vals = dict(S.world(g, w, node, min(at, n - 1)).vals)
        if at == n:
            vals[lv[M.flat]] = M.index(S.F, *S.sites[-1]) + 1
            if M.slice_idx in lv:
                vals[lv[M.slice_idx]] = n
        I = World(g, w, vals, extra=S.leaf, whole=True)
        v = bool(I.ev(m.cond))
        stays = [x.id in b for x, lab in m.succ if lab == v]
        if stays != [at < n]:
            return 'it %s site %d of %d' % ('goes on after' if at == n else 'ends before', at, n)


def is_call(n, q):
    return n.kind == 'call' and str(getattr(n.d.get('fn'), 'qn', n.d.get('fn')) or n.d.get('decl')).split('(')[0].endswith(q)


def obj_of(n):
    return n.d.get('obj')


def system(P, R):
    M = model(P)
    rnd = random.Random(19)
    for f, kind in producers(P, R):
        if kind == 'boundary':
            def shift():
                g, w = graph(P, f, SYSTEM)
                push = [n for n in g.nodes if n.kind == 'mut' and n.method in ('push_back', 'emplace_back') and n.args and n.args[0].op == 'obj']
                if len(push) != 1:
                    raise Und('%d new boundaries' % len(push))
                for _ in range(3):
                    S = Sample(M, rnd, kind)
                    v = S.world(g, w, push[0]).ev(mk('fld', push[0].args[0], 'shift'))
                    if not same(v, S.translations[S.t].f['shift_lenght']):
                        return 'the shift of the boundary is %s' % brief(v)
            check(R, f, 'populate_boundaries: shift', 'boundary shift', 'is not the length of its translation', shift)
            continue
        name = f.qn[5:] if hasattr(f, 'qn') else kind

        def places():
            g, w = graph(P, f, SYSTEM)
            ws = {}
            for n in g.nodes:
                if n.kind == 'write' and n.place.op == 'elem' and n.place.a[0].op == 'fld' and n.place.a[0].a[1] in ('x', 'y', 'z') \
                        and n.place.a[0].a[0].op == 'fld' and n.place.a[0].a[0].a[1] == 'positions':
                    ws.setdefault(n.place.a[0].a[1], []).append(n)
            if sorted(ws) != ['x', 'y', 'z'] or any(len(x) != 1 for x in ws.values()):
                raise Und('stores')
            for _ in range(3):
                S = Sample(M, rnd, kind)
                for c, (n,) in sorted(ws.items()):
                    r = loop_covers(S, g, w, n)
                    if r:
                        return r
                    for k in range(len(S.sites)):
                        I = S.world(g, w, n, k)
                        fl = M.index(S.F, *S.sites[k])
                        hit = walk_to(g, S.head(g, w, n), n, I)
                        if hit != S.valid[k]:
                            return 'the position of a site which is %s is %s' % ('part of it' if S.valid[k] else 'not part of it', 'stored' if hit else 'left out')
                        if not hit:
                            continue
                        i, v = I.num(n.place.a[1]), I.ev(n.value)
                        want = S.F.f[M.fd['positions']].f[c].d[fl] + (S.offset.d['xyz'.index(c)] if kind == 'lead' else 0)
                        if i != S.index(fl) or not same(v, want):
                            return 'coordinate %s of the site with number %d is stored as number %d with the value %s instead of %s' \
                                % (c, S.index(fl), i, brief(v), brief(want))
        check(R, f, '%s: positions' % name, 'positions: ' + kind, 'the position of a site is not the one of its foundation%s under its number'
              % (' + shift' if kind == 'lead' else ''), places)

        def counted():
            g, w = graph(P, f, SYSTEM)
            adds = [n for n in g.nodes if is_call(n, 'CompressedSublattices::add')]
            if len(adds) != 1:
                raise Und('%d counts' % len(adds))
            n = adds[0]
            for _ in range(3):
                S = Sample(M, rnd, kind)
                r = loop_covers(S, g, w, n)
                if r:
                    return r
                for k in range(len(S.sites)):
                    I = S.world(g, w, n, k)
                    hit = walk_to(g, S.head(g, w, n), n, I)
                    if hit != S.valid[k]:
                        return 'a site which is %s is %s' % ('part of it' if S.valid[k] else 'not part of it', 'counted' if hit else 'not counted')
                    if not hit:
                        continue
                    cell = S.F.f[M.fd['cell']].f[M.cells][S.sites[k][1]].f
                    a = n.args[-3:] if len(n.args) >= 3 else n.args
                    x = I.ev(a[0])
                    x = list(x.f.values())[0] if isinstance(x, Rec) else x
                    y = I.num(a[1])
                    z = I.num(a[2]) if len(a) > 2 else 1
                    if (x, y, z) != (cell['alias_id'], cell['norb'], 1):
                        return 'a site with id %s and %s orbitals is counted as %s' % (cell['alias_id'], cell['norb'], (x, y, z))
        check(R, f, '%s: sublattices' % name, 'sublattice count: ' + kind, 'a site is not counted once with its own sublattice and orbitals', counted)

        if kind == 'lead':
            def numbers():
                g, w = graph(P, f, SYSTEM)
                push = [n for n in g.nodes if n.kind == 'mut' and n.method in ('push_back', 'emplace_back') and n.args and n.args[0].op != 'obj'
                        and loops_of(g, n)]
                if len(push) != 1:
                    raise Und('%d lists of indices' % len(push))
                n = push[0]
                for _ in range(3):
                    S = Sample(M, rnd, kind)
                    r = loop_covers(S, g, w, n)
                    if r:
                        return r
                    for k in range(len(S.sites)):
                        I = S.world(g, w, n, k)
                        hit = walk_to(g, S.head(g, w, n), n, I)
                        if hit != S.valid[k]:
                            return 'a site which is %s the junction is %s' % ('at' if S.valid[k] else 'not at', 'listed' if hit else 'left out')
                        if hit and I.num(n.args[0]) != S.final[M.index(S.F, *S.sites[k])]:
                            return 'the listed number is %s' % show(n.args[0], 5)
            check(R, f, '%s: indices' % name, 'lead indices', 'are not the numbers of the sites at the junction', numbers)

            def shift():
                g, w = graph(P, f, SYSTEM)
                push = [n for n in g.nodes if n.kind == 'mut' and n.method in ('push_back', 'emplace_back') and n.args and n.args[0].op == 'obj'
                        and any(k == 'shift' for k, _ in n.args[0].a[1:])]
                if len(push) != 1:
                    raise Und('%d new boundaries' % len(push))
                for _ in range(3):
                    S = Sample(M, rnd, kind)
                    v = S.world(g, w, push[0]).ev(mk('fld', push[0].args[0], 'shift'))
                    if not same(v, S.offset):
                        return 'the shift of the boundary is %s' % brief(v)
            check(R, f, '%s: shift' % name, 'lead shift', 'is not one lattice vector outwards', shift)


PARTS = [indices, slices, positions, final, cell, report, system]
