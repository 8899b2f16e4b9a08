"""Each lattice bond appears exactly once, in its own direction."""
import itertools, random
from world import *
from c13 import outcome, ret, ptype, brief
from c14 import (model, check, Sample, producers, loop_covers, is_call, SYSTEM, sample_lattice, built_cell, cells, sample_range, range_rec,
                 slice_sites, slice_range, at_site)

LEVEL = 'other'
RULE = ('The unit cell holds each hopping term once in each direction, the reverse one with the opposite relative index and marked as conjugate; '
        'in each system, boundary and lead exactly the forward one is added, under its family, from the site to the site at cell + relative '
        'index (+ translation) on the target sublattice, if and only if both are part of the system; translations connect the edges of the unit '
        'of the symmetry, each direction once.')
EXPLAIN = ('One generic pass of the loops over sites and hoppings is evaluated at every site and hopping of sample foundations: which additions it '
           'reaches and with which arguments, compared with the bond rule.')
ASSUME = ['Eigen operations mean what they are documented to mean', 'integer overflow does not occur']


# --------------------------------------------------------------------------------------------------- unit cell
def unit_cell(P, R):
    M = model(P)
    rnd = random.Random(30)
    fs = pick(P, 'cpb::OptimizedUnitCell::OptimizedUnitCell', 1)
    R.need(fs, 'constructor of OptimizedUnitCell')
    for f in fs:
        def both():
            for _ in range(6):
                lat = sample_lattice(M, rnd, nterm=1)
                got = built_cell(M, f, lat)
                where = {x.f['unique_id']: i for i, x in enumerate(got)}
                want = {i: [] for i in range(len(got))}
                for h in lat.f[M.lat['hoppings']]:
                    h = h.f['second']
                    for t in h.f['terms']:
                        a, b, r = where[t.f['from']], where[t.f['to']], t.f['relative_index'].d
                        want[a].append((tuple(r), b, h.f['family_id'], False))
                        want[b].append((tuple(-x for x in r), a, h.f['family_id'], True))
                for i, x in enumerate(got):
                    have = sorted((tuple(int(v) for v in y.f['relative_index'].d), y.f['to_sub_idx'], y.f['family_id'], bool(y.f['is_conjugate']))
                                  for y in x.f['hoppings'])
                    if have != sorted(want[i]):
                        extra = [y for y in have if y not in want[i]]
                        return 'the site of sublattice %d has the hopping (relative index, to, family, conjugate) %s' % (i, extra[:1] or 'too rarely')
        check(R, f, 'OptimizedUnitCell: hoppings', 'unit cell hoppings', 'a hopping term is not there once in each direction', both)

        def loops():
            # the hoppings which a single term adds, also when both of its ends are on the same sublattice
            g, w = graph(P, f)
            events = sorted((n for n in g.nodes if n.kind == 'mut' and n.method in ('push_back', 'emplace_back') and n.place.op == 'fld'
                             and n.place.a[1] == 'hoppings' and n.place.a[0].op == 'elem' and len(n.args) == 1), key=lambda n: n.id)
            if not events:
                raise Und('additions of hoppings')
            for trial in range(6):
                lat = sample_lattice(M, rnd, nterm=1)
                none = Rec(**lat.f)
                none.f[M.lat['hoppings']] = Lst()
                sites = built_cell(M, f, none)
                where = {x.f['unique_id']: i for i, x in enumerate(sites)}
                names = [x for x in w.lvinfo if x.a[1] is mk('fld', THIS, M.cells) or x.a[1] is events[0].place.a[0].a[0]]
                for h in lat.f[M.lat['hoppings']]:
                    for t in h.f['second'].f['terms']:
                        if rnd.random() < 0.6:
                            t.f['to'] = t.f['from']

                def world(vals):
                    v = {arg(0): lat}
                    loops_ = set(x.a[0] for x in vals)
                    for x in names:
                        if x.a[0] in loops_:
                            v[x] = sites
                    v.update(vals)
                    return World(g, w, v, whole=True)
                want, have = [], []
                for h in lat.f[M.lat['hoppings']]:
                    h = h.f['second']
                    for t in h.f['terms']:
                        a, b, r = where[t.f['from']], where[t.f['to']], t.f['relative_index'].d
                        want.append((a, tuple(r), b, h.f['family_id'], False))
                        want.append((b, tuple(-x for x in r), a, h.f['family_id'], True))
                for n, I, heads in unrolled(g, w, events, world):
                    I.active = heads
                    if walk_to(g, heads[0], n, I):
                        y = I.ev(n.args[0])
                        have.append((int(I.num(n.place.a[0].a[1])), tuple(int(v) for v in y.f['relative_index'].d), int(y.f['to_sub_idx']),
                                     y.f['family_id'], bool(y.f['is_conjugate'])))
                if sorted(have) != sorted(want):
                    odd = [y for y in have if y not in want] or [y for y in want if have.count(y) != want.count(y)]
                    return 'the term (site, relative index, to, family, conjugate) %s is added %d times instead of %d' % (
                        odd[0], have.count(odd[0]), want.count(odd[0]))
        check(R, f, 'OptimizedUnitCell: additions', 'unit cell additions', 'a hopping term is not added once in each direction', loops)


# --------------------------------------------------------------------------------------------------- blocks
def blocks(P, R):
    rnd = random.Random(33)
    for f in pick(P, 'cpb::HoppingBlocks::add', 3):
        def one():
            g, w = graph(P, f)
            events = [n for n in g.nodes if n.kind == 'mut' and n.method in ('push_back', 'emplace_back')]
            if not events or any(n.place.op != 'elem' for n in events):
                raise Und('addition to a block')
            for fam, a, b in itertools.product(range(3), range(4), range(4)):
                vals = {arg(0): Rec(_value=fam), arg(1): a, arg(2): b}
                got = []
                for n in events:
                    I = World(g, w, vals, whole=True)
                    I.active = ()
                    if walk_to(g, g.entry, n, I):
                        v = [I.ev(x) for x in n.args]
                        if len(v) == 1 and isinstance(v[0], Rec):
                            v = [v[0].f['row'], v[0].f['col']]
                        got.append((int(I.num(n.place.a[1])),) + tuple(int(x) for x in v))
                if got != [(fam, a, b)]:
                    return 'the hopping (family, row, column) %s is stored as %s' % ((fam, a, b), got)
        check(R, f, 'HoppingBlocks::add', 'HoppingBlocks::add', 'a hopping is not stored once, in the block of its family, as (row, column)', one)

    for f in pick(P, 'cpb::detail::populate_boundaries'):
        def kept():
            g, w = graph(P, f, SYSTEM)
            events = [n for n in g.nodes if n.kind == 'mut' and n.method in ('push_back', 'emplace_back') and n.place.op == 'fld'
                      and any(k == 'hopping_blocks' for a in n.args if a.op == 'obj' for k, _ in a.a[1:])]
            if len(events) != 1:
                raise Und('addition of a boundary')
            n = events[0]
            conds = [c for c in g.nodes if c.kind == 'branch' and contains(c.cond, lambda t: t.op == 'call' and str(t.a[0]).endswith('HoppingBlocks::nnz'))]
            if not conds:
                return None
            if len(conds) > 1:
                raise Und('conditions on the number of hoppings')
            S = Sample(model(P), rnd, 'boundary')
            for v in (1, 2, 5):
                I = World(g, w, S.vals, extra=lambda t, I: v if t.op == 'call' and str(t.a[0]).endswith('HoppingBlocks::nnz') else S.leaf(t, I), whole=True)
                I.active = loops_of(g, n)
                nx = [m for m, lab in conds[0].succ if lab == bool(I.ev(conds[0].cond))]
                if len(nx) != 1 or not (nx[0] is n or walk_to(g, nx[0], n, I)):
                    return 'a boundary with %d hopping%s is left out' % (v, '' if v == 1 else 's')
        check(R, f, 'populate_boundaries: kept boundaries', 'kept boundaries', 'a boundary with hoppings is left out', kept)


# --------------------------------------------------------------------------------------------------- bonds
def hopping_loop(M, g, w, node):
    """(head, leaf of its position) of the loop over the hoppings of a site around the node"""
    for h in loops_of(g, node):
        for x in w.lvinfo:
            if x.a[0] != h.lid:
                continue
            i = w.lvinfo[x][0]
            if i.op == 'iter' and i.a[0].op == 'fld' and i.a[0].a[1] == 'hoppings':
                return h, x
        c = h
        for _ in range(60):
            if c.kind == 'branch':
                break
            nx = [m for m, _ in c.succ if not throws(m)]
            if len(nx) != 1:
                break
            c = nx[0]
        if c.kind == 'branch':
            for x in w.lvinfo:
                if x.a[0] == h.lid and show(w.lvinfo[x][0], 2) == '0' and contains(c.cond, lambda y: y is x) \
                        and contains(c.cond, lambda y: y.op == 'size' and y.a[0].op == 'fld' and y.a[0].a[1] == 'hoppings'):
                    return h, x
    raise Und('loop over hoppings')


def all_hoppings(S, g, w, node, k):
    """the loop over the hoppings of the site begins at the first one and ends after the last one"""
    M = S.M
    h, x = hopping_loop(M, g, w, node)
    I = S.world(g, w, node, k)
    c = S.F.f[M.fd['cell']].f[M.cells][S.sites[k][1]].f['hoppings']
    i = w.lvinfo[x][0]
    if i.op == 'iter':
        if I.ev(i.a[0]) is not c:
            return 'it goes through the hoppings of another sublattice'
        first = I.num(i.a[1])
    else:
        first = I.num(i)
    if first != 0:
        return 'it begins with hopping %d' % first
    m = h
    for _ in range(60):
        if m.kind == 'branch':
            break
        nx = [y for y, _ in m.succ if not throws(y)]
        if len(nx) != 1:
            raise Und('end of the loop over hoppings')
        m = nx[0]
    b = body_of(g, h)
    if m.kind != 'branch' or not any(y.id not in b for y, _ in m.succ):
        raise Und('end of the loop over hoppings')
    n = len(c)
    for at in (n - 1, n):
        vals = dict(I.vals)
        vals[x] = at
        J = World(g, w, vals, extra=S.leaf, whole=True)
        v = bool(J.ev(m.cond))
        stays = [y.id in b for y, lab in m.succ if lab == v]
        if stays != [at < n]:
            return 'it %s hopping %d of %d' % ('goes on after' if at == n else 'ends before', at, n)


def bonds(P, R):
    M = model(P)
    rnd = random.Random(31)
    for f, kind in producers(P, R):
        g, w = graph(P, f, SYSTEM)
        adds = [n for n in g.nodes if is_call(n, 'HoppingBlocks::add') and loops_of(g, n)]
        R.need(adds, 'additions of hoppings in %s' % f.qn)
        groups = {}
        for n in adds:
            try:
                x = Sample(M, rnd, kind)
                groups.setdefault(x.head(g, w, n).id, []).append(n)
            except Und as e:
                R.unknown('%s: %s' % (f.qn, e))
        if kind == 'lead' and len(groups) == 2:
            order = sorted(groups)
            parts = [('lead: cell', groups[order[0]], False), ('lead: boundary', groups[order[1]], True)]
            # the boundary is the one that goes into the list of boundaries
        elif len(groups) == 1:
            parts = [(kind, list(groups.values())[0], kind == 'boundary')]
        else:
            R.unknown('%s: %d loops over sites add hoppings' % (f.qn, len(groups)))
            continue
        for name, ns, shifted in parts:
            lab = '%s: %s' % (f.qn[5:] if f.qn.startswith('cpb::') else f.qn, name)
            conj = []

            def attempt():
                for _ in range(10):
                    S = Sample(M, rnd, kind)
                    S.number_first(rnd)
                    for n in ns:
                        r = loop_covers(S, g, w, n)
                        if r:
                            return 'of the loop over sites: ' + r
                    sh = S.shift.d if shifted else [0, 0, 0]
                    size = S.size
                    pairs = list(range(len(S.sites)))
                    first = [k for k in pairs if S.index(M.index(S.F, *S.sites[k])) == 0]
                    for k in pairs if len(pairs) < 20 else first + rnd.sample(pairs, 20):
                        idx, sub = S.sites[k]
                        for n in ns:
                            r = all_hoppings(S, g, w, n, k)
                            if r:
                                return 'of the loop over hoppings: ' + r
                        hops = S.F.f[M.fd['cell']].f[M.cells][sub].f['hoppings']
                        for j, h in enumerate(hops):
                            at = [a + b + c for a, b, c in zip(idx.d, sh, h.f['relative_index'].d)]
                            there = all(0 <= a < n for a, n in zip(at, size))
                            to = S.index(M.index(S.F, vec(at), h.f['to_sub_idx'])) if there else -1
                            me = S.index(M.index(S.F, idx, sub))
                            both = S.valid[k] and to >= 0
                            want = [(h.f['family_id'], me, to)] if both else []
                            got = []
                            for n in ns:
                                I = S.world(g, w, n, k)
                                I.vals[hopping_loop(M, g, w, n)[1]] = j
                                if walk_to(g, S.head(g, w, n), n, I):
                                    a = n.args[-3:]
                                    v = I.ev(a[0])
                                    v = list(v.f.values())[0] if isinstance(v, Rec) else v
                                    got.append((v, I.num(a[1]), I.num(a[2])))
                            what = 'hopping %s to sublattice %d%s of cell %s, sublattice %d (%s part of it), whose neighbour is %s' % (
                                h.f['relative_index'].d, h.f['to_sub_idx'], ' (conjugate)' if h.f['is_conjugate'] else '', idx.d, sub,
                                'which is' if S.valid[k] else 'which is not', 'number %d' % to if to >= 0 else 'not part of it')
                            if h.f['is_conjugate']:
                                if got and got != want:
                                    return '%s adds (family, row, column) %s' % (what, got)
                                if got:
                                    conj.append(what)
                            elif got != want:
                                return '%s adds %s instead of %s' % (what, got or 'nothing', want or 'nothing')
            check(R, f, lab, 'bonds: ' + name, 'the added hoppings are not the forward ones between sites of the system', attempt)
            if conj:
                R.bad('conjugate guard: ' + name, '%s: a hopping that is the reverse of another one is added as if it were a forward one' % lab,
                      ['%s:%d' % (f.file, f.line), conj[0]])
            else:
                R.ok('%s: no reverse hoppings' % lab)


# --------------------------------------------------------------------------------------------------- symmetry
def sample_symmetry(P, a):
    """the fields of a symmetry with the given lengths, as its constructor sets them"""
    for f in pick(P, 'cpb::TranslationalSymmetry::TranslationalSymmetry', 3):
        g, w = graph(P, f)
        I = World(g, w, {arg(i): x for i, x in enumerate(a)}, whole=True)
        return Rec(**{p.a[1]: I.ev(outcome(g, p)) for p in g.final_env if p.op == 'fld' and p.a[0] is THIS})
    raise Und('constructor of TranslationalSymmetry')


def head_test(g, h):
    m = h
    for _ in range(60):
        if m.kind == 'branch':
            b = body_of(g, h)
            return (m, b) if any(y.id not in b for y, _ in m.succ) else (None, b)
        nx = [y for y, _ in m.succ if not throws(y)]
        if len(nx) != 1:
            break
        m = nx[0]
    return None, body_of(g, h)


def passes(g, w, h, world):
    """the values of the position of a loop, from its head test"""
    m, b = head_test(g, h)
    lv = [x for x in w.lvinfo if x.a[0] == h.lid and (w.lvinfo[x][0].op == 'iter' or show(w.lvinfo[x][0], 2) == '0') and m is not None
          and contains(m.cond, lambda y: y is x)]
    if len(lv) != 1:
        raise Und('position of a loop')
    for k in range(60):
        I = world({lv[0]: k})
        v = bool(I.ev(m.cond))
        if not any(y.id in b for y, lab in m.succ if lab == v):
            return
        yield lv[0], k
    raise Und('length of a loop')


def unrolled(g, w, events, world, heads=()):
    """(event, world) for every pass of the loops around the events, in their order; world(vals) gives the sample point"""
    def chain(n):
        return [h for h in loops_of(g, n)[::-1] if h not in heads]
    k = 0
    while k < len(events):
        c = chain(events[k])
        if not c:
            yield events[k], world({}), heads
            k += 1
            continue
        j = k
        while j < len(events) and chain(events[j])[:1] == c[:1]:
            j += 1
        for lv, i in passes(g, w, c[0], world):
            def deeper(vals, lv=lv, i=i):
                return world(dict(vals, **{}) | {lv: i})
            for e in unrolled(g, w, events[k:j], deeper, heads + (c[0],)):
                yield e
        k = j


def symmetry(P, R):
    M = model(P)
    rnd = random.Random(32)

    for f in pick(P, 'cpb::TranslationalSymmetry::area'):
        def unit():
            g, w = graph(P, f)
            t = ret(g)
            for _ in range(12):
                F = M.foundation(rnd)
                lat = M.lattice(rnd)
                nd = len(lat.f[M.lat['vectors']])
                F.f[M.fd['lattice']] = lat
                size = vec([rnd.randint(6, 13) if k < nd else 1 for k in range(3)])
                F.f[M.fd['size']] = size
                n = [rnd.choice((None, 1, 2, 3, 4, 5)) if k < nd else None for k in range(3)]
                zero = [rnd.random() < 0.3 for _ in range(3)]
                norm = [sum(x * x for x in v.d) ** 0.5 for v in lat.f[M.lat['vectors']]]
                a = [-1.0 if x is None else 0.0 if x == 1 and zero[k] else (x + rnd.uniform(-0.4, 0.4)) * norm[k] for k, x in enumerate(n)]
                v = World(g, w, {THIS: sample_symmetry(P, a), arg(0): F}, whole=True).ev(t)
                left, right, mid = ([int(x) for x in getattr(v.f[k], 'd', [v.f[k]] * 3)] for k in ('left', 'right', 'middle'))
                for k in range(3):
                    if n[k] is None and (left[k], right[k], mid[k]) != (0, size.d[k] - 1, 0):
                        return 'along direction %d, which is not periodic, the cells %d to %d of %d are kept (translation %d)' % (
                            k, left[k], right[k], size.d[k], mid[k])
                    if n[k] is not None and (right[k] - left[k] + 1 != n[k] or mid[k] != n[k] or left[k] < 0 or right[k] >= size.d[k]):
                        return 'along direction %d with a period of %d of %d cells, the cells %d to %d are kept and the translation is %d' % (
                            k, n[k], size.d[k], left[k], right[k], mid[k])
        check(R, f, 'TranslationalSymmetry::area', 'symmetry area', 'is not one period inside the foundation', unit)

    for f in pick(P, 'cpb::SymmetryArea::contains'):
        def inside():
            g, w = graph(P, f)
            t = ret(g)
            for _ in range(60):
                lo = [rnd.randint(0, 3) for _ in range(3)]
                hi = [x + rnd.randint(0, 2) for x in lo]
                i = [rnd.randint(0, 5) if rnd.random() < 0.3 else rnd.randint(a, b) for a, b in zip(lo, hi)]
                v = bool(World(g, w, {THIS: Rec(left=vec(lo), right=vec(hi), middle=vec([1, 1, 1])), arg(0): vec(i)}, whole=True).ev(t))
                if v != all(a <= x <= b for a, x, b in zip(lo, i, hi)):
                    return 'cell %s is %s the area %s to %s' % (i, 'in' if v else 'not in', lo, hi)
        check(R, f, 'SymmetryArea::contains', 'symmetry area: contains', 'is not a comparison with both ends', inside)

    for f in pick(P, 'cpb::TranslationalSymmetry::apply'):
        def cut():
            g, w = graph(P, f, ['cpb::TranslationalSymmetry::area'])
            ws = [n for n in g.nodes if n.kind == 'write' and n.place.op == 'elem' and n.place.a[0].op == 'fld'
                  and n.place.a[0].a[1] == M.fd['states']]
            if len(ws) != 1:
                raise Und('%d stores of states' % len(ws))
            n = ws[0]
            for _ in range(3):
                F = M.foundation(rnd)
                size, nsub = F.f[M.fd['size']].d, F.f[M.fd['nsub']]
                lo = [rnd.randrange(x) for x in size]
                hi = [rnd.randint(a, x - 1) for a, x in zip(lo, size)]

                def area(t, I):
                    return Rec(left=vec(lo), right=vec(hi), middle=vec([1, 1, 1])) if t.op == 'call' and str(t.a[0]).endswith('::area') else None
                states = F.f[M.fd['states']]
                flags = [x for x in w.lvinfo if x.a[1] is n.place.a[0]]
                for site in slice_sites([(0, x) for x in size], nsub):
                    fl = M.index(F, *site)
                    vals = {arg(0): F}
                    vals.update(at_site(M, g, w, n, F, site))
                    vals.update({x: states for x in flags})
                    I = World(g, w, vals, extra=area, whole=True)
                    I.active = loops_of(g, n)
                    old = states.d[fl]
                    want = old and all(a <= x <= b for a, x, b in zip(lo, site[0].d, hi))
                    hit = walk_to(g, loops_of(g, n)[-1], n, I)
                    if hit and I.num(n.place.a[1]) != fl:
                        return 'the state of another site is changed'
                    new = bool(I.ev(n.value)) if hit else old
                    if new != want:
                        return 'a site of cell %s which is %s becomes %s with the area %s to %s' % (
                            site[0].d, 'valid' if old else 'invalid', 'valid' if new else 'invalid', lo, hi)
        check(R, f, 'TranslationalSymmetry::apply', 'symmetry area: sites', 'does not keep exactly the valid sites of the area', cut)

    for f in pick(P, 'cpb::detail::make_masks'):
        def masks():
            g, w = graph(P, f)
            t = ret(g)
            for nd in (1, 2, 3):
                for on in itertools.product((False, True), repeat=3):
                    v = World(g, w, {arg(0): vec(list(on)), arg(1): nd}, whole=True).ev(t)
                    got = sorted(tuple(int(c) for c in x.d) for x in v)
                    want = sorted(itertools.product(*[(0, 1) if on[k] and k < nd else (0,) for k in range(3)]))
                    if got != want:
                        return 'for %s in %d dimensions they are %s' % (on, nd, got)
        check(R, f, 'make_masks', 'symmetry masks', 'are not all combinations of the periodic directions', masks)

    for f in pick(P, 'cpb::TranslationalSymmetry::translations'):
        def directions():
            g, w = graph(P, f, ['cpb::TranslationalSymmetry::area', 'cpb::detail::make_masks', 'cpb::Lattice::optimized_unit_cell'])
            events = sorted((n for n in g.nodes if n.kind == 'mut' and n.method in ('push_back', 'emplace_back') and n.args and n.args[0].op == 'obj'
                             and any(k == 'direction' for k, _ in n.args[0].a[1:])), key=lambda n: n.id)
            if not events or any(n.place is not events[0].place for n in events):
                raise Und('new translations')
            place = events[0].place
            names = [x for x in w.lvinfo if x.a[1] is place]
            for trial in range(6):
                far = 1 if trial < 3 else 3
                F = M.foundation(rnd)
                nd = rnd.randint(1, 3)
                lat = M.lattice(rnd, ndim=nd)
                F.f[M.fd['lattice']] = lat
                vs = lat.f[M.lat['vectors']]
                on = [k < nd and rnd.random() < 0.7 for k in range(3)]
                on[0] = True
                size = [12 if k < nd else 1 for k in range(3)]
                mid = [rnd.randint(1, 4) if on[k] else 0 for k in range(3)]
                left = [rnd.randint(0, 3) if on[k] else 0 for k in range(3)]
                right = [left[k] + mid[k] - 1 if on[k] else size[k] - 1 for k in range(3)]
                F.f[M.fd['size']] = vec(size)
                rel = [[rnd.randint(-far, far) if k < nd else 0 for k in range(3)] for _ in range(2 if far > 1 else 3)]
                hops = [Lst(Rec(relative_index=vec([s * x for x in r]), to_sub_idx=0, family_id=0, is_conjugate=s < 0) for r in rel)
                        for s in (1, -1)]
                cell = Rec(**{M.cells: Lst(Rec(hoppings=x, position=vec([0, 0, 0]), norb=1, unique_id=i, alias_id=i) for i, x in enumerate(hops))})
                F.f[M.fd['cell']] = cell
                mask = Lst(vec(list(x)) for x in itertools.product(*[(0, 1) if o else (0,) for o in on]))

                def ext(t, I):
                    if t.op == 'call':
                        n = str(t.a[0])
                        if n.endswith('::area'):
                            return Rec(left=vec(left), right=vec(right), middle=vec(mid))
                        if n.endswith('make_masks'):
                            return mask
                        if n.endswith('optimized_unit_cell'):
                            return cell
                    return None
                out = Lst()
                base = {THIS: sample_symmetry(P, [1.0 if o else -1.0 for o in on]), arg(0): F}

                def world(vals):
                    v = dict(base)
                    for x in names + [place]:
                        v[x] = out
                    v.update(vals)
                    return World(g, w, v, extra=ext, whole=True)
                for n, I, heads in unrolled(g, w, events, world):
                    I.active = heads
                    if walk_to(g, heads[0], n, I):
                        out.append(I.ev(n.args[0]))
                seen = [tuple(int(x) for x in t.f['direction'].d) for t in out]
                if len(set(seen)) != len(seen) or (0, 0, 0) in seen:
                    return 'a direction is there twice or zero: %s' % seen
                for t in out:
                    d = [int(x) for x in t.f['direction'].d]
                    if any(x and not o for x, o in zip(d, on)):
                        return 'there is a translation %s with the periodic directions %s' % (d, on)
                    if [int(x) for x in t.f['shift_index'].d] != [a * b for a, b in zip(d, mid)]:
                        return 'direction %s with %s cells per period is shifted by %s' % (d, mid, t.f['shift_index'].d)
                    want = vec([sum(d[k] * mid[k] * vs[k].d[c] for k in range(nd)) for c in range(3)])
                    if not same(t.f['shift_lenght'], want):
                        return 'direction %s with %s cells per period has the length %s instead of %s' % (d, mid, brief(t.f['shift_lenght']), brief(want))
                # every bond that leaves the unit has a translation that brings it back, whose slice contains its site
                for r in rel + [[-x for x in r] for r in rel]:
                    for p in itertools.product(*[range(left[k], right[k] + 1) if on[k] else (0,) for k in range(3)]):
                        d = tuple(-((p[k] - left[k] + r[k]) // mid[k]) if on[k] else 0 for k in range(3))
                        if d == (0, 0, 0):
                            continue
                        if d not in seen:
                            return 'a hopping %s from cell %s of the unit %s to %s needs the translation %s, which is not there' % (r, list(p), left, right, d)
                        sl = out[seen.index(d)].f['boundary_slice'].f['data']
                        for k in range(3):
                            a, b = sl[k].f['start'], sl[k].f['end']
                            if on[k] and not a <= p[k] < (b if b >= 0 else size[k]) or not on[k] and (a, b) not in ((0, -1), (0, size[k])):
                                return 'a hopping %s from cell %s of the unit %s to %s is not in the slice %s to %s of the translation %s' % (
                                    r, list(p), left, right, a, b, d)
        check(R, f, 'TranslationalSymmetry::translations', 'translations', 'are not all directions in which bonds leave the unit, with the shift and '
              'the slice of their sites', directions)


PARTS = [unit_cell, blocks, bonds, symmetry]
