"""Matrix elements sit at the rows and columns of their sites and orbitals, with the energy of their own family."""
from emit import *
from c07 import complex_instances

LEVEL = 'other'
RULE = ('For every emission (row, col, value) of the Hamiltonian assembly (main part, periodic part, lead unit cell and lead '
        'coupling): the row comes from the first and the column from the second site of the hopping; the value is the energy '
        'of the family of the same hopping block, taken in row-major orbital order; site indices are used as matrix indices '
        'only if every site and every hopping has a single orbital; in the periodic part the element is accumulated with the '
        'phase exp(i k.d) of its own boundary; onsite blocks use the energy of their own sublattice; no loop on the way skips '
        'an entry and only exact zeros are left out.')
EXPLAIN = ('Symbolic row, column and value terms of every emission and the loop structure around it are matched against the '
           'rule; one obligation per emission and aspect.')
ASSUME = ['modifier callbacks only change the values they are given']

ENTRIES = ['cpb::ham::make', 'cpb::leads::detail::make_h0', 'cpb::leads::detail::make_h1']


def coo_of(t):
    """{('row'|'col'): set of coordinate places} read directly by an index term"""
    out = {}
    for x in subterms(t):
        if x.op == 'fld' and x.a[1] in ('row', 'col'):
            out.setdefault(x.a[1], set()).add(x.a[0])
    return out


def has_str(t, s):
    return any(isinstance(y, str) and s in y for y in t.a)


def containers(w, t, field):
    """(lv, container) pairs: loop values which walk through a container whose place mentions `field`"""
    out = []
    for x in deep(w, t):
        if x.op == 'lv':
            i = w.lvinfo.get(x)
            if i and i[0].op == 'iter' and field in fld_path(i[0].a[0])[1]:
                out.append((x, i[0].a[0]))
        elif x.op == 'elem' and x.a[1].op == 'lv':
            pth = fld_path(x.a[0])[1]
            if field in pth and pth[-1] != '[]':
                out.append((x.a[1], x.a[0]))
    return out


def family_index(w, t, registry):
    """indices of elements of <registry>.energies in a term"""
    out = set()
    for x in deep(w, t):
        if x.op == 'elem' and x.a[0].op == 'fld' and fld_path(x.a[0])[1][-2:-1] == (registry,):
            out.add(x.a[1])
    return out


def lids(w, t):
    return set(x.a[0] for x in subterms(t) if x.op == 'lv')


def dom_edges(g, idom, n):
    """(condition, label) of the branch edges that dominate n"""
    ch = dom_chain(idom, n.id)
    s = set(ch)
    out = []
    for b in g.nodes:
        if b.kind == 'branch' and b.id in s and b is not n:
            for m, lab in b.succ:
                if m.id in s and m.id != b.id and len(m.pred) == 1:
                    out.append((b.cond, lab))
    return out


def loop_cover(w, g, h):
    """does the loop visit its whole range?  (verdict, text)"""
    body = body_of(g, h)
    ex = []
    for n in g.nodes:
        if n.id in body and n.kind == 'branch':
            for m, lab in n.succ:
                if m.id not in body and not only_throws(g, m):
                    ex.append((n, lab))
    if len(ex) > 1:
        vs = [exit_kind(w, n, lab) for n, lab in ex]
        good = [v for v in vs if v[0] == 'ok']
        other = [n for (n, lab), v in zip(ex, vs) if v[0] == '?']
        if len(good) == 1 and len(other) == len(ex) - 1:
            return 'bad', 'can be left early at %s' % other[0].loc()
    if len(ex) != 1:
        return '?', '%d exits' % len(ex)
    return exit_kind(w, *ex[0])


def exit_kind(w, n, lab):
    c, stay = n.cond, not lab
    while c.op == 'not':
        c, stay = c.a[0], not stay
    if c.op == 'lt' and stay and c.a[0].op == 'lv':
        lv, b = c.a
    elif c.op == 'eq' and not stay:
        lv, b = next(((x, y) for x, y in (c.a, c.a[::-1]) if x.op == 'lv' or (x.op == 'iter' and x.a[1].op == 'lv')), (None, None))
        if lv is None:
            return '?', show(c)[:80]
    else:
        return '?', show(c)[:80]
    if lv.op == 'iter':
        lv = lv.a[1]
    i = w.lvinfo.get(lv)
    if not i or len(i) < 2:
        return '?', 'no loop value'
    a, st = i[0], i[1]
    if a.op == 'iter':
        a = a.a[1]
    if b.op == 'iter':
        b = b.a[1]
    if a.op == 'c' and a.a[0] != 0:
        return 'bad', 'starts at %s' % show(a)
    if b.op == 'add' and any(x.op == 'c' for x in b.a) and any(x.op in ('size', 'endpos') or x.op == 'call' for x in b.a):
        return 'bad', 'ends at %s' % show(b)[:60]
    step = SUB(st.a[1] if st.op == 'iter' else st, lv)
    if step.op == 'c' and step.a[0] != 1:
        return 'bad', 'advances by %s' % show(step)
    return 'ok', ''


def only_throws(g, m):
    memo = g.__dict__.setdefault('_onlythrow', {})
    r = memo.get(m.id)
    if r is None:
        ids = reachable([m]) | {m.id}
        r = memo[m.id] = not any(n.kind == 'exit' for n in g.nodes if n.id in ids)
    return r


def cursor_loops(w, v):
    """value = buffer[cursor] with a cursor that advances through nested loops: (buffer, [lids innermost first]) or None"""
    if v.op != 'elem' or v.a[1].op != 'lv':
        return None
    lv = v.a[1]
    out = []
    cur = lv
    inner = None
    for _ in range(6):
        i = w.lvinfo.get(cur)
        if not i or len(i) < 2:
            return None
        a, b = pos_of(i[0]), pos_of(i[1])
        if a is None or b is None:
            return None
        if inner is None:
            if b is not ADD(cur, cint(1)):
                return None
        elif b is not inner:
            return None
        out.append(cur.a[0])
        if a.op == 'c':
            return (v.a[0], out) if a.a[0] == 0 else None
        if a.op != 'lv':
            return None
        inner, cur = cur, a
    return None


def pos_of(t):
    if t.op == 'addr':
        t = t.a[0]
        if t.op == 'elem':
            return t.a[1]
        return None
    if t.op == 'iter':
        return t.a[1]
    return t


def arms(v):
    """alternatives of a value that depends on which of several fills happened"""
    if v.op == 'sel':
        return arms(v.a[1]) + arms(v.a[2])
    if v.op == 'phi':
        return [y for x in v.a for y in arms(x)]
    return [v]


def check(P, R):
    for qn in ENTRIES:
        fs = P.fn(qn)
        R.need(fs, qn)
        fs = complex_instances(fs) or fs
        f = sorted(fs, key=lambda f: f.id)[-1]
        try:
            w = Walker(P)
            g = w.run(f)
        except Incomplete as e:
            R.unknown('%s: %s' % (sig(f), e))
            continue
        R.count('graph_nodes', len(g.nodes))
        idom = dominators(g)
        em, odd = emissions(g)
        R.count('emissions', len(em))
        seen_loops = {}
        for e in em:
            rr, cc = coo_of(e.r), coo_of(e.c)
            tag = '%s: %s' % (sig(f), (e.n.stack[-1][0] if e.n.stack else '?').split('::(anon')[0])
            if rr or cc:
                hopping_emission(R, tag, w, g, idom, e, rr, cc, qn)
            else:
                onsite_emission(R, tag, w, g, idom, e)
            for h in loops_of(g, e.n):
                if h.id in seen_loops:
                    continue
                v, t = seen_loops[h.id] = loop_cover(w, g, h)
                if v == 'ok':
                    R.ok('%s: loop at %s covers its range' % (tag, h.loc()))
                elif v == 'bad':
                    R.bad('%s: loop coverage' % tag, 'a loop over the emitted entries does not cover its range: it %s' % t,
                          [h.where()])
                else:
                    R.unknown('%s: loop %s: %s' % (tag, h.loc(), t))
            zero_skip(R, tag, w, g, e)


def zero_skip(R, tag, w, g, e):
    """an iteration may leave out the element only if its value is exactly zero"""
    L = innermost(g, e.n)
    if not L:
        return
    head, body = L
    mates = [e.n]

    def edge(a, b, lab):
        if b.id not in body and not (b is head):
            return True          # leaving the loop altogether
        if a.kind != 'branch':
            return False
        c, l = a.cond, lab
        while c.op == 'not':
            c, l = c.a[0], not l
        # value == 0
        if c.op == 'eq' and l is True and any(is_zero(x) for x in c.a):
            o = c.a[1] if is_zero(c.a[0]) else c.a[0]
            return not partial(o)
        return False

    def partial(o):
        """a projection (real part, imaginary part) of the value: zero although the value is not"""
        return o.op == 'fld' and o.a[1] in ('re', 'im') or \
            o.op == 'call' and str(o.a[0]).split('::')[-1] in ('real', 'imag', 're', 'im', 'arg')

    def is_zero(x):
        return x.op in ('c', 'cf') and x.a[0] == 0 or x.op == 'call' and 'complex' in str(x.a[0]) and \
            all(isinstance(y, T) and y.op in ('c', 'cf') and y.a[0] == 0 for y in x.a[1:]) or x.op == 'default'
    # the body proper begins after the loop condition
    S = Search(g)
    inner_first = [m for m, _ in head.succ]
    exitbr = [n for n in g.nodes if n.id in body and n.kind == 'branch' and any(m.id not in body for m, _ in n.succ)]
    p = S.find([head], goal=lambda n: n is head, avoid=lambda n: n is e.n, avoid_edge=edge)
    if p:
        cond = [x for x in p if x.kind == 'branch' and x not in exitbr]
        if cond:
            R.bad('%s: skipped entries' % tag, 'an entry can be left out of the matrix although its value is not zero',
                  [e.n.where()] + describe(p, 14))
        else:
            R.unknown('%s: %s not on every iteration' % (tag, e.n.loc()))
    else:
        R.ok('%s: %s only zeros are left out' % (tag, e.n.loc()))


def hopping_emission(R, tag, w, g, idom, e, rr, cc, qn):
    swapped = is_conj(e.v)
    first, second = ('col', 'row') if swapped else ('row', 'col')
    key = '%s: %s' % (tag, 'conjugate element' if swapped else 'element')
    # 1. orientation
    if set(rr) == {first} and set(cc) == {second} and rr[first] == cc[second] and len(rr[first]) == 1:
        R.ok('%s: %s row from %s, column from %s' % (tag, e.n.loc(), first, second))
    elif set(rr) <= {'row', 'col'} and set(cc) <= {'row', 'col'} and len(rr) == 1 and len(cc) == 1:
        R.bad(key + ': orientation', 'the %s value is written at row index %s and column index %s'
              % ('conjugate' if swapped else 'hopping', show(e.r)[:70], show(e.c)[:70]), [e.n.where()])
        return
    else:
        R.unknown('%s: %s indices %s %s' % (tag, e.n.loc(), show(e.r)[:60], show(e.c)[:60]))
        return
    B = list(rr[first])[0]
    v = nconj(e.v, True) if swapped else nconj(e.v)
    factors = list(v.a) if v.op == 'cprod' else [v]
    # 2. the family is the one of the block which holds the coordinates
    blocks = containers(w, B, 'hopping_blocks')
    bl = set(x.a[0] for x, _ in blocks)
    conts = set(c for _, c in blocks)
    ph = [x for x in factors if any(y.op == 'call' and 'exp' in str(y.a[0]) for y in subterms(x))]
    core = [x for x in factors if x not in ph]
    fam = set()
    src = [x for x in core]
    for x in list(src):
        c = cursor_loops(w, x)
        if c:
            src += fills(w, g, c[0], e.n)
    for x in src:
        fam |= family_index(w, x, 'hopping_registry')
    fl = set()
    for x in fam:
        fl |= lids(w, x)
    if not bl or not fam:
        R.unknown('%s: %s family of the block' % (tag, e.n.loc()))
    elif fl & bl and all(lids(w, x) & bl for x in fam):
        R.ok('%s: %s energy of the block\'s own family' % (tag, e.n.loc()))
    else:
        R.bad(key + ': family', 'the energy is indexed by %s, which does not follow the hopping block of the coordinates'
              % ', '.join(show(x)[:60] for x in fam), [e.n.where()])
    # 3. single-orbital shortcut
    if e.r.op == 'fld' and e.c.op == 'fld':
        conds = dom_edges(g, idom, e.n)
        need = {'site': False, 'hopping': False}
        for c, lab in conds:
            for k in need:
                if single_test(w, c, lab, k):
                    need[k] = True
        for k, ok in need.items():
            if ok:
                R.ok('%s: %s site indices used only if the %s energies are scalars' % (tag, e.n.loc(), k))
            else:
                R.bad(key + ': %s orbitals' % k, 'site indices are used as matrix indices although the number of orbitals of '
                      'the %s energies has not been tested on the way' % k, [e.n.where()])
    else:
        matrix_index(R, key, tag, w, g, idom, e, e.c if swapped else e.r, 'row')
        matrix_index(R, key, tag, w, g, idom, e, e.r if swapped else e.c, 'col')
        # 4. orbital order
        for x in core:
            cl = cursor_loops(w, x)
            li, lj = (lvs(e.c), lvs(e.r)) if swapped else (lvs(e.r), lvs(e.c))
            orbital_order(R, key, tag, w, g, e, x, cl, li, lj)
    # 5. phase
    bnd = [c for c in conts if 'boundaries' in fld_path(c)[1]]
    if bnd and qn == 'cpb::ham::make':
        if not e.acc:
            R.bad(key + ': accumulation', 'a boundary contribution overwrites the element instead of being added to it',
                  [e.n.where()])
        else:
            R.ok('%s: %s boundary contributions are summed' % (tag, e.n.loc()))
        phase(R, key, tag, w, e, ph, bnd)
    elif ph:
        R.bad(key + ': phase', 'a phase factor is applied to a hopping inside the unit cell', [e.n.where()])


def single_test(w, c, lab, k):
    """does the branch condition c, taken as lab, establish that the site / hopping energies are scalars?"""
    while c.op == 'not':
        c, lab = c.a[0], not lab
    hit = False
    for x in deep(w, c):
        if x.op == 'fld' and x.a[1] == 'energies' and (k + '_registry') in fld_path(x)[1]:
            hit = True
        elif k == 'site' and x.op == 'fld' and x.a[1] == 'num_orbitals':
            hit = True
    if not hit or not any(x.op == 'size' or x.op == 'call' and x.a[0] in ('rows', 'cols') or x.op == 'fld' and x.a[1] == 'num_orbitals' for x in deep(w, c)):
        return False
    if c.op in ('anyof', 'allof') and len(c.a) == 2:
        p = c.a[1]
        neg = p.op == 'not'
        q = p.a[0] if neg else p
        if q.op == 'eq' and any(y.op == 'c' and y.a[0] == 1 for y in q.a):
            return (c.op == 'anyof' and neg and lab is False) or (c.op == 'allof' and not neg and lab is True)
    return True


def matrix_index(R, key, tag, w, g, idom, e, t, side):
    """index = orbital + first matrix index of the site:  i + ham_start + (site - site_start) * num_orbitals"""
    what, other = ('rows', 'cols') if side == 'row' else ('cols', 'rows')
    i = [x for x in lvs(t) if counter(w, x) is not None and counter(w, x).op == 'c']
    site = [x for x in subterms(t) if x.op == 'fld' and x.a[1] in ('row', 'col')]
    if len(set(i)) != 1 or len(set(site)) != 1:
        R.unknown('%s: %s matrix index %s' % (tag, e.n.loc(), show(t)[:80]))
        return
    i, site = i[0], site[0]
    hs = [h for h in g.nodes if h.kind == 'loop' and h.lid == i.a[0]]
    bounds = [b for h in hs for b in bound_of(g, h, i)]
    dims = set(x.a[0] for b in bounds + [t] for x in subterms(b) if x.op == 'call' and x.a[0] in ('rows', 'cols') and
               contains(x, lambda y: y.op == 'fld' and y.a[1] == 'energies'))
    if other in dims:
        R.bad(key + ': %s dimension' % side, 'the %s index is formed with the number of %s of the energy matrix: %s, orbitals < %s'
              % (side, other, show(t)[:100], ', '.join(show(b)[:60] for b in bounds)), [e.n.where()])
        return
    X = SUB(t, i)
    if not bounds:
        R.unknown('%s: %s orbital range' % (tag, e.n.loc()))
        return
    n = bounds[0]
    if X is MUL(n, site):
        R.bad(key + ': %s position' % side, 'the matrix index %s assumes that every preceding site has as many orbitals'
              % show(t)[:100], [e.n.where()])
        return
    for hl in lvs(X):
        rest = SUB(SUB(X, hl), MUL(n, site))
        for sl in [x for x in subterms(rest) if x.op == 'lv' and x.a[0] == hl.a[0] and x is not hl]:
            if ADD(rest, MUL(n, sl)) is cint(0):
                ih, is_ = w.lvinfo.get(hl), w.lvinfo.get(sl)
                if ih and is_ and len(ih) > 1 and len(is_) > 1:
                    dh, ds = SUB(ih[1], hl), SUB(is_[1], sl)
                    up = [(c, l) for c, l in dom_edges(g, idom, e.n) if c.op == 'lt' and c.a[0] is site]
                    if not up:
                        up2 = [(c, l) for c, l in dom_edges(g, idom, e.n) if c.op == 'lt' and c.a[1] is site]
                        R.unknown('%s: %s range of the sublattice %s' % (tag, e.n.loc(), [show(c)[:60] for c, l in up2]))
                        return
                    end = ADD(sl, ds)
                    if not any(c.a[1] is end and l is True for c, l in up):
                        R.bad(key + ': %s sublattice' % side, 'the matrix position uses a sublattice which is not the one of the '
                              'site: tested %s, needed site < %s' % ('; '.join('%s %s' % (l, show(c)[:70]) for c, l in up),
                                                                     show(end)[:70]), [e.n.where()])
                        return
                    if ds.op == 'fld' and dh.op == 'mul' and ds in dh.a and len(dh.a) == 2:
                        R.ok('%s: %s %s position = start of the sublattice + offset of the site * orbitals' % (tag, e.n.loc(), side))
                    elif dh is ds:
                        R.bad(key + ': %s position' % side, 'the first matrix index of a sublattice does not take the number of '
                              'orbitals of the preceding ones into account', [e.n.where()])
                    else:
                        R.unknown('%s: %s sublattice steps %s %s' % (tag, e.n.loc(), show(dh)[:60], show(ds)[:60]))
                    return
    R.unknown('%s: %s matrix index %s' % (tag, e.n.loc(), show(t)[:80]))


def elem_index(c, field):
    """index of the element of `field` a place goes through"""
    p = c
    while p.op in ('fld', 'elem', 'sub', 'alt', 'deref'):
        if p.op == 'elem' and p.a[0].op == 'fld' and p.a[0].a[1] == field:
            return p.a[1]
        p = p.a[0]
        if not isinstance(p, T):
            return None
    return None


def phase(R, key, tag, w, e, ph, bnd):
    if not ph:
        R.bad(key + ': phase', 'a hopping across a periodic boundary carries no phase factor', [e.n.where()])
        return
    n = elem_index(bnd[0], 'boundaries')
    shifts = set()
    for x in ph:
        for y in deep(w, x):
            if y.op == 'fld' and y.a[1] == 'shift':
                shifts.add(elem_index(y, 'boundaries'))
    exps = [y for x in ph for y in subterms(x) if y.op == 'call' and str(y.a[0]).split('::')[-1] == 'exp']
    if len(ph) != 1 or len(exps) != 1 or n is None or not shifts:
        R.unknown('%s: %s phase factor' % (tag, e.n.loc()))
        return
    if shifts != {n}:
        R.bad(key + ': phase', 'the phase uses the shift of another boundary (%s) than the hoppings (%s)'
              % (', '.join(show(x)[:30] for x in shifts if x is not None), show(n)[:30]), [e.n.where()])
        return
    arg = exps[0].a[1]
    neg = 0
    for y in subterms(arg):
        if y.op in ('c', 'cf') and isinstance(y.a[0], (int, float)) and y.a[0] < 0:
            neg += 1
        if is_conj(y):
            neg += 1
    top = ph[0]
    for y in subterms(top):
        if is_conj(y) and y is not arg and exps[0] in set(subterms(y)):
            neg += 1
    dots = [y for y in subterms(arg) if y.op == 'call' and str(y.a[0]).split('::')[-1] in ('dot',)]
    if neg % 2:
        R.bad(key + ': phase', 'the phase factor of the boundary is conjugated: %s' % show(ph[0])[:100], [e.n.where()])
    elif len(dots) == 1:
        R.ok('%s: %s phase exp(i k.d) of its own boundary' % (tag, e.n.loc()))
    else:
        R.unknown('%s: %s exponent %s' % (tag, e.n.loc(), show(arg)[:80]))


def fills(w, g, buf, at):
    """values the buffer of a cursor is filled with"""
    out = []
    r = base_of(buf)
    if r is None:
        return out
    for n in g.nodes:
        if n.kind == 'mut' and n.method in ('setConstant', 'fill') and base_of(n.place) is r:
            out += [x for x in n.args if isinstance(x, T)]
        elif n.kind == 'write' and n.place.op in ('elem', 'sub') and base_of(n.place) is r:
            out.append(n.value)
    return out


def base_of(p):
    """the buffer object a place or a loop-carried value belongs to"""
    while True:
        if p.op in ('elem', 'sub'):
            p = p.a[0]
        elif p.op == 'lv' and p.a[1].op in PLACE_OPS:
            p = p.a[1]
        elif p.op == 'upd':
            p = p.a[2]
        else:
            return p


def orbital_order(R, key, tag, w, g, e, x, cl, li, lj):
    if cl is None or len(cl[1]) != 3:
        R.unknown('%s: %s orbital order of %s' % (tag, e.n.loc(), show(x)[:60]))
        return
    L3, L2, L1 = cl[1]
    oi = [lv for lv in li if counter(w, lv) is not None and lv.a[0] in (L1, L2)]
    oj = [lv for lv in lj if counter(w, lv) is not None and lv.a[0] in (L1, L2)]
    if len(oi) == 1 and len(oj) == 1 and oi[0].a[0] == L1 and oj[0].a[0] == L2:
        R.ok('%s: %s values are taken in row-major orbital order' % (tag, e.n.loc()))
    elif len(oi) == 1 and len(oj) == 1:
        R.bad(key + ': orbital order', 'the values of the energy matrix are stored row by row but read with the column as the '
              'outer index', [e.n.where()])
    elif not oi and not oj:
        R.bad(key + ': orbital order', 'the orbital indices do not enter the matrix indices %s, %s' % (show(e.r)[:60], show(e.c)[:60]),
              [e.n.where()])
    else:
        R.unknown('%s: %s orbital indices' % (tag, e.n.loc()))
    # the fill walks the energy matrix in storage order, one run of equal values per matrix element
    base = base_of(cl[0])
    for n in g.nodes:
        if n.kind == 'mut' and n.method == 'setConstant' and base_of(n.place) is base and n.place.op == 'sub':
            a = n.place.a
            if len(a) >= 4 and a[1] == 'segment':
                start, num = a[2], a[3]
                i = w.lvinfo.get(start) if start.op == 'lv' else None
                val = [y for y in n.args if isinstance(y, T)]
                if i and len(i) > 1:
                    if SUB(i[1], start) is num and i[0].op == 'c' and i[0].a[0] == 0:
                        R.ok('%s: %s runs of %s follow each other' % (tag, n.loc(), show(num)[:40]))
                    else:
                        R.bad('%s: fill' % tag, 'runs of %s values are placed %s apart' % (show(num)[:40], show(SUB(i[1], start))[:60]),
                              [n.where()])


def onsite_emission(R, tag, w, g, idom, e):
    key = '%s: onsite element' % tag
    done = False
    for i in lvs(e.r):
        for j in lvs(e.c):
            if i is not j and SUB(e.r, i) is SUB(e.c, j) and counter(w, i) is not None and counter(w, j) is not None:
                done = True
                X = SUB(e.r, i)
                subs = containers(w, X, 'compressed_sublattices')
                sl = set(x.a[0] for x, _ in subs)
                vals = arms(e.v)
                fam = set()
                for v in vals:
                    c = cursor_loops(w, v)
                    src = [v] + (fills(w, g, c[0], e.n) if c else [])
                    for s in src:
                        fam |= family_index(w, s, 'site_registry')
                    if c:
                        orbital_order(R, key, tag, w, g, e, v, c, [i], [j])
                fam = set(x for x in fam if x.op != 'call' and not contains(x, lambda y: y.op == 'it'))
                if not fam or not sl:
                    R.unknown('%s: %s energy of the sublattice' % (tag, e.n.loc()))
                elif all(lids(w, x) & sl for x in fam):
                    R.ok('%s: %s energy of the site\'s own sublattice' % (tag, e.n.loc()))
                else:
                    R.bad(key + ': sublattice', 'the onsite energy is indexed by %s, which does not follow the sublattice of the '
                          'sites' % ', '.join(show(x)[:60] for x in fam), [e.n.where()])
                # the block starts at the first matrix index of the site and advances by one block per site
                lx = lvs(X)
                if len(lx) == 1 and X is lx[0]:
                    inf = w.lvinfo.get(lx[0])
                    if inf and len(inf) > 1:
                        st = SUB(inf[1], lx[0])
                        hb = [bound_of(g, h, lx[0]) for h in g.nodes if h.kind == 'loop' and h.lid == lx[0].a[0]]
                        ib = [bound_of(g, h, i) for h in g.nodes if h.kind == 'loop' and h.lid == i.a[0]]
                        if any(st is y for b in ib for y in b):
                            R.ok('%s: %s advances by the number of orbitals' % (tag, e.n.loc()))
                        elif st.op == 'c':
                            R.bad(key + ': stride', 'the matrix index advances by %s per site' % show(st), [e.n.where()])
                        else:
                            R.unknown('%s: stride %s' % (tag, show(st)[:50]))
    if not done:
        R.unknown('%s: %s onsite indices %s %s' % (tag, e.n.loc(), show(e.r)[:60], show(e.c)[:60]))
