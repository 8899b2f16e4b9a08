"""Everything a system stores per site stays in step."""
from emit import *

LEVEL = 'other'
RULE = ('In the whole construction of a system (inlined flow graph of Model::make_system): the site mask is discarded only after positions '
        '(x, y and z), sublattice counts, hopping coordinates and their site count, and those of every boundary have been filtered with '
        'that same mask; a hopping is dropped exactly when one of its ends is; surviving ends are renumbered, each by the number of sites '
        'kept before it; sublattice counts are taken over each sublattice\'s own original range; no generator sees, and no system is '
        'returned with, a pending mask; generated sites extend positions, sublattices and hopping blocks by the same number of sites; '
        'each finalized index is stored with the position, sublattice and hoppings of its own site; and foundations are not changed '
        'once final indices have been handed out.')
EXPLAIN = ('Field updates of the inlined flow graph, grouped per system object; ordering obligations are path queries, content '
           'obligations compare symbolic terms.')
ASSUME = ['generator callbacks return consistent arrays']

MAKE = 'cpb::Model::make_system'
COMP = ('x', 'y', 'z')


class Roles:
    pass


def roles(P, R):
    r = Roles()
    rec = next((x for x in P.recs.values() if x.short == 'cpb::System' and x.fields), None)
    R.need(rec is not None, 'struct System')
    for f in rec.fields:
        t = f['t'].s
        if 'CartesianArray' in t:
            r.pos = f['n']
        elif 'CompressedSublattices' in t:
            r.cs = f['n']
        elif 'HoppingBlocks' in t:
            r.hb = f['n']
        elif 'Boundary' in t:
            r.bd = f['n']
        elif 'bool' in t:
            r.mask = f['n']
    rec = next((x for x in P.recs.values() if x.short == 'cpb::HoppingBlocks' and x.fields), None)
    R.need(rec is not None, 'class HoppingBlocks')
    for f in rec.fields:
        t = f['t'].s
        if 'COO' in t:
            r.bl = f['n']
        elif 'vector' not in t and 'map' not in t:
            r.ns = f['n']
    for k in ('pos', 'cs', 'hb', 'bd', 'mask', 'bl', 'ns'):
        R.need(hasattr(r, k), 'per-site member %s of System' % k)
    # the count of a sublattice: what CompressedSublattices::add increments
    r.cnt = 'num_sites'
    return r


def unlv(t):
    """the place a read stands for"""
    while isinstance(t, T) and t.op == 'lv' and len(t.a) > 1 and isinstance(t.a[1], T):
        t = t.a[1]
    return t


def sysbase(p, F):
    """B when place p lies inside B.F"""
    q = p
    while isinstance(q, T) and q.op != 'root':
        if q.op == 'fld' and q.a[1] == F:
            return q.a[0], q
        if not q.a or not isinstance(q.a[0], T):
            return None
        q = q.a[0]
    return None


def alts(t):
    """the alternatives of a selection"""
    if t.op == 'sel':
        return alts(t.a[1]) + alts(t.a[2])
    return [t]


def mask_of(t, r):
    """B when every alternative of t reads B.<mask>"""
    bs = set()
    for a in alts(t):
        x = unlv(a)
        if x.op == 'fld' and x.a[1] == r.mask:
            bs.add(x.a[0])
        elif x.op == 'call' and 'Constant' in str(x.a[0]):
            continue
        else:
            return None
    return bs.pop() if len(bs) == 1 else None


def is_slice(t):
    return t.op == 'call' and str(t.a[0]).split('::')[-1] == 'slice' or t.op == 'slice'


def slice_args(t):
    a = [x for x in t.a if isinstance(x, T)]
    return a if len(a) == 2 else None


def rep_of(g, n, target):
    """node that has to be passed so that n was executed for all items: the outermost loop around n which does not contain target"""
    best = n
    for h in loops_of(g, n):
        if target.id in body_of(g, h):
            break
        best = h
    return best


def helpers(P, R):
    """slice keeps exactly the elements selected by the mask, in order; concat puts the second array after the first"""
    for f in sorted(P.fn('cpb::slice'), key=lambda f: f.id):
        if not (len(f.decl.params) == 2 and f.b):
            continue
        try:
            w = Walker(P, pure=())
            g = w.run(f)
        except Incomplete as e:
            R.unknown('slice: %s' % e)
            continue
        args = [n.place for n in g.nodes if n.kind == 'init' and n.place.op == 'root']
        ws = [n for n in g.nodes if n.kind == 'write' and n.place.op == 'elem' and not n.place.a[0].op == 'fld']
        key = 'slice'
        for n in ws:
            v = n.value
            L = innermost(g, n)
            if v.op != 'elem' or L is None or counter(w, v.a[1]) is None:
                R.unknown('slice: %s' % show(v)[:80])
                continue
            i, k = v.a[1], n.place.a[1]
            st = counter(w, i)
            if not (st.op == 'c' and st.a[0] == 0):
                R.bad(key, 'slicing starts at element %s' % show(st), [n.where()])
                continue
            head, body = L
            sel = [m for m in g.nodes if m.id in body and m.kind == 'branch' and m.cond.op == 'elem' and unlv(m.cond.a[0]) is not unlv(v.a[0])]
            if not sel:
                R.unknown('slice: no test of the mask found')
                continue
            t = sel[0]
            if t.cond.a[1] is not i:
                R.bad(key, 'element %s is kept according to mask entry %s' % (show(i), show(t.cond.a[1])), [n.where(), t.where()])
                continue
            pol = edge_to(g, t, n, head)
            if pol is False:
                R.bad(key, 'the elements which are not selected are kept', [t.where(), n.where()])
                continue
            if k.op == 'lv':
                incs = [m for m in g.nodes if m.id in body and m.kind == 'write' and m.place is unlv(k)]
                ok = len(incs) == 1 and incs[0].value is ADD(k, cint(1))
                p = ok and (Search(g).find([n], goal=lambda m: m is head, avoid=lambda m: m is incs[0]) if not Search(g).find(
                    [incs[0]], goal=lambda m: m is n, avoid=lambda m: m is head) else None)
                info = w.lvinfo.get(k, ())
                if ok and not p and info and info[0].op == 'c' and info[0].a[0] == 0:
                    R.ok('slice: keeps the selected elements in order (%s)' % sig(f)[:60])
                elif info and info[0].op == 'c' and info[0].a[0] != 0:
                    R.bad(key, 'the first kept element is stored at %s' % show(info[0]), [n.where()])
                else:
                    R.unknown('slice: output position %s' % show(k)[:60])
            else:
                R.unknown('slice: output position %s' % show(k)[:60])
    n_c = 0
    for f in sorted(P.fn('cpb::concat'), key=lambda f: f.id):
        if not f.b:
            continue
        try:
            w = Walker(P, pure=())
            g = w.run(f)
        except Incomplete as e:
            R.unknown('concat: %s' % e)
            continue
        cps = [n for n in g.nodes if n.kind == 'mut' and n.method == 'copy']
        by = {}
        for n in cps:
            src = unlv(n.args[0])
            off = iter_pos(n.args[3]) if len(n.args) > 3 else None
            by.setdefault(str(show(src))[-6:], []).append((n, src, off))
        n_c += len(cps)
        for n in cps:
            off = iter_pos(n.args[3]) if len(n.args) > 3 else None
            b, e = iter_pos(n.args[1]), iter_pos(n.args[2])
            full = b is not None and e is not None and b.op == 'c' and b.a[0] == 0 and e.op == 'endpos'
            src = n.args[0]
            others = [m for m in cps if m.place is n.place and m is not n]
            if len(others) != 1 or off is None or not full:
                R.unknown('concat: %s' % n.loc())
                continue
            ca, cb = compo(src), compo(others[0].args[0])
            if ca != cb:
                R.bad('concat', 'coordinates %s and %s are joined' % (ca, cb), [n.where(), others[0].where()])
                continue
            res = g.result[1] if isinstance(g.result, tuple) else g.result
            if res is not None and res.op == 'obj' and ca:
                for fd, val in res.a[1:]:
                    c_ = compo(val)
                    if fd in COMP and c_ and c_[0] in COMP and c_[0] != fd:
                        R.bad('concat', 'the joined %s coordinates become %s' % (c_, fd), [n.where()])
            second = src_rank(f, src) > src_rank(f, others[0].args[0])
            if src_rank(f, src) == src_rank(f, others[0].args[0]):
                R.bad('concat', 'the same array is copied twice', [n.where(), others[0].where()])
            elif not second and off.op == 'c' and off.a[0] == 0:
                R.ok('concat: first array at the start (%s)' % f.line)
            elif second and off.op == 'size' and unlv(off.a[0]) is unlv(others[0].args[0]) or second and off.op == 'size' and src_rank(
                    f, off.a[0]) == src_rank(f, others[0].args[0]) >= 0:
                R.ok('concat: second array after the first (%s)' % f.line)
            elif off.op in ('c', 'size'):
                R.bad('concat', 'the %s array is copied to position %s' % ('second' if second else 'first', show(off)), [n.where()])
            else:
                R.unknown('concat: position %s' % show(off)[:60])


def compo(t):
    c = set(x.a[1] for x in subterms(t) if x.op == 'fld' and x.a[1][:1] in COMP)
    return c.pop() if len(c) == 1 else None


def src_rank(f, t):
    """which parameter of f a term is read from"""
    names = [p.get('n') if isinstance(p, dict) else p for p in (f.p or [])]
    for x in subterms(t):
        if x.op == 'root':
            for i, nm in enumerate(names):
                if nm and nm in [str(y).split('#')[0] for y in x.a if isinstance(y, str)]:
                    return i
    return -1


def check(P, R):
    r = roles(P, R)
    fs = P.fn(MAKE)
    R.need(fs, MAKE)
    f = fs[0]
    w = Walker(P)
    g = w.g = w.run(f)
    R.count('graph_nodes', len(g.nodes))
    upd = [n for n in g.nodes if n.kind in ('write', 'mut')]
    R.count('updates', len(upd))
    filters(P, R, r, w, g, upd)
    pending(P, R, r, w, g, upd)
    generators(P, R, r, w, g, upd)
    populate(P, R, r, w, g, upd)
    frozen(P, R, r, w, g, upd)


def discards(g, r, upd):
    out = []
    for n in upd:
        if n.place.op == 'fld' and n.place.a[1] == r.mask and sysbase(n.place, r.mask):
            if n.kind == 'mut' and n.method in ('resize', 'conservativeResize', 'clear') and \
                    all(isinstance(a, T) and a.op == 'c' and a.a[0] == 0 for a in n.args):
                out.append(n)
            elif n.kind == 'write' and empty_value(n.value):
                out.append(n)
    return out


def empty_value(v):
    return v.op == 'default' or v.op == 'call' and 'ctor' in str(v.a[0]) and len(v.a) == 1 \
        or v.op == 'list' and not v.a


def is_sys(P, n, r):
    """the mask belongs to a System (the foundation has a validity array of its own)"""
    b = n.place.a[0] if n.place.op == 'fld' else None
    return b is not None


def sys_bases(g, r, upd):
    """objects whose sublattices and hopping blocks are written: the systems"""
    out = {}
    for n in upd:
        b = sysbase(n.place, r.cs)
        if b:
            out[b[0]] = out.get(b[0], 0) + 1
    return out


def marks(g, r, upd):
    """(discards, updates which mark sites): of masks which are ever set"""
    bases = sys_bases(g, r, upd)
    dis = [n for n in discards(g, r, upd) if n.place.a[0] in bases]
    dirty = []
    vals = set(n.value for n in upd if n.kind == 'write' and sysbase(n.place, r.mask) and sysbase(n.place, r.mask)[0] in bases
               and n.place.op == 'fld' and n.value.size > 1 and not empty_value(n.value))
    for n in upd:
        if n in dis:
            continue
        b = sysbase(n.place, r.mask)
        if b and b[0] in bases:
            if not (n.kind == 'write' and n.place is b[1] and (empty_value(n.value) or n.value.op == 'call' and 'Constant' in str(n.value.a[0]))):
                dirty.append(n)
        elif n.kind == 'mut' and n.method == 'usercall' and any(
                x.op == 'fld' and x.a[1] == r.mask and x.a[0] in bases or x in vals for x in subterms(n.place)):
            # handed to user code through a temporary segment
            dirty.append(n)
    Z = []
    for z in dis:
        if Search(g).find(dirty, goal=lambda n: n is z, avoid=lambda n: n in dis and n is not z):
            Z.append(z)
    return Z, dirty


def filters(P, R, r, w, g, upd):
    bases = sys_bases(g, r, upd)
    Z, dirty = marks(g, r, upd)
    if not Z:
        R.unknown('%s: no place where the mask of the sites is discarded' % MAKE)
    groups = {}
    for n in upd:
        b = sysbase(n.place, r.mask)
        # ---- per-site containers
        k = None
        bb = sysbase(n.place, r.bd)
        if bb and bb[0] in bases:
            h = sysbase(n.place, r.hb)
            if h:
                k = ('boundary ', h, bb[0])
        else:
            h = sysbase(n.place, r.hb)
            if h and h[0] in bases:
                k = ('', h, h[0])
        if k:
            pre_, h, B = k
            rest = fldname_from(n.place, h[1])
            if rest == (r.ns,) and n.kind == 'write' and of_mask(w, n.value, r, B):
                groups.setdefault((pre_ + 'site count of the hopping blocks', B), []).append(n)
            elif rest[:1] == (r.bl,) and n.kind == 'mut' and n.method in ('erase', 'resize') and of_mask(w, n.args[0], r, B) and \
                    any(x.op == 'call' and x.a[0] == 'remove_if' for a in n.args if isinstance(a, T) for x in subterms(a)):
                groups.setdefault((pre_ + 'removal of hoppings', B), []).append(n)
            elif rest[:1] == (r.bl,) and n.kind == 'write' and renumber_idx(w, n.value):
                groups.setdefault((pre_ + 'renumbering of hoppings', B), []).append(n)
        p = sysbase(n.place, r.pos)
        if p and p[0] in bases and n.kind == 'write':
            rest = fldname_from(n.place, p[1])
            if len(rest) == 1 and rest[0] in COMP and any(is_slice(x) for x in subterms(n.value)):
                groups.setdefault(('positions ' + rest[0], p[0]), []).append(n)
            elif not rest and n.value.op == 'obj':
                for c, v in n.value.a[1:]:
                    if c in COMP and is_slice(v):
                        groups.setdefault(('positions ' + c, p[0]), []).append(n)
        c = sysbase(n.place, r.cs)
        if c and c[0] in bases and n.kind == 'write' and n.place.op == 'fld' and n.place.a[1] == r.cnt and \
                of_mask(w, n.value, r, c[0]):
            groups.setdefault(('sublattice counts', c[0]), []).append(n)
    wanted = ['positions x', 'positions y', 'positions z', 'sublattice counts', 'site count of the hopping blocks',
              'removal of hoppings', 'renumbering of hoppings', 'boundary site count of the hopping blocks',
              'boundary removal of hoppings', 'boundary renumbering of hoppings']
    for z in Z:
        B = z.place.a[0]
        for k in wanted:
            ns = groups.get((k, B), [])
            key = 'filtering: %s' % k
            if not ns:
                # nothing of the kind in the whole construction
                if whole_copy(upd, B, r) or other_update(g, r, upd, k, B, z, dirty, Z, groups, bases):
                    R.unknown('%s: %s: filtered in a way that is not recognised' % (MAKE, k))
                else:
                    R.bad(key, 'the mask of removed sites is discarded (%s) but the %s are never filtered with it' % (z.loc(), k), [z.where()])
                continue
            reps = set(rep_of(g, n, z).id for n in ns)
            S = Search(g)
            p = S.find(dirty, goal=lambda n: n is z, avoid=lambda n: n.id in reps or n in Z and n is not z,
                       avoid_edge=lambda a, b, lab: a.kind == 'branch' and all_kept(a.cond, lab, r))
            if p:
                R.bad(key, 'the mask of removed sites is discarded at %s on a path where the %s have not been filtered' % (z.loc(), k),
                      [z.where()] + describe(p, 14))
            else:
                R.ok('%s: before the mask is discarded (%s)' % (k, z.loc()))
            every_item(R, r, w, g, k, key, ns, z, reps, Z + dirty)
    for (k, B), ns in sorted(groups.items(), key=lambda x: x[0][0]):
        for n in ns:
            content(P, R, r, w, g, upd, k, B, n)
    # within a filtering round removal precedes renumbering, and everything uses the same mask
    for (k, B), ns in sorted(groups.items(), key=lambda x: x[0][0]):
        if not k.endswith('renumbering of hoppings'):
            continue
        rem = groups.get((k.replace('renumbering', 'removal'), B), [])
        for n in ns:
            reps = set(rep_of(g, x, n).id for x in rem)
            p = Search(g).find(dirty, goal=lambda m: m is n, avoid=lambda m: m.id in reps)
            if p and rem:
                R.bad('filtering: order of %s' % k, 'hopping coordinates are renumbered before the removed ones have been dropped',
                      [n.where()] + describe(p, 8))
            elif rem:
                R.ok('%s at %s after the removal' % (k, n.loc()))


def all_kept(c, lab, r):
    """the outcome of a test which says that the mask keeps every site"""
    while c.op == 'not':
        c, lab = c.a[0], not lab
    if c.op == 'call' and str(c.a[0]).split('::')[-1] == 'all' and lab is True:
        return any(unlv(x).op == 'fld' and unlv(x).a[1] == r.mask for x in c.a if isinstance(x, T))
    if c.op == 'eq' and lab is True:
        return any(x.op == 'call' and str(x.a[0]).split('::')[-1] in ('count', 'sum', 'std::accumulate', 'accumulate') and
                   mask_of(x.a[1], r) is not None for x in c.a) and any(x.op == 'size' for x in c.a)
    return False


def every_item(R, r, w, g, k, key, ns, z, reps, other):
    """no iteration of the loops around the update skips it"""
    for rep in [n for n in g.nodes if n.id in reps and n.kind == 'loop']:
        if any(m.id in body_of(g, rep) for m in other):
            continue        # a loop over several rounds of removing and filtering
        inner = [n for n in ns if n.id in body_of(g, rep)]
        lvl = [(rep, inner)]
        while lvl:
            h, inn = lvl.pop()
            body = body_of(g, h)
            nxt = {}
            for n in inn:
                t = rep_of(g, n, h)
                nxt.setdefault(t, []).append(n)
            ids = set(t.id for t in nxt)

            def skip_ok(a, b, lab):
                if b.id not in body:
                    return True
                if a.kind != 'branch':
                    return False
                return all_kept(a.cond, lab, r) or about_own(a.cond, lab, inn)
            p = Search(g).find([h], goal=lambda m: m is h, avoid=lambda m: m.id in ids, avoid_edge=skip_ok)
            if p:
                cs = [c for c, l in path_facts(p) if c.op != 'eq' or not any('endpos' in str(x.op) for x in c.a)]
                R.bad(key, 'the %s are not updated in every iteration' % k, [inn[0].where()] + describe(p, 8))
                return
            for t, l in nxt.items():
                if t.kind == 'loop':
                    lvl.append((t, l))
    R.ok('%s: every item is updated' % k)


def about_own(c, lab, ns):
    """a test which says that there is nothing to update, or that the update changes nothing"""
    while c.op == 'not':
        c, lab = c.a[0], not lab
    own = set()
    for n in ns:
        p = n.place
        while isinstance(p, T) and p.op != 'root':
            own.add(p)
            p = p.a[0] if p.a and isinstance(p.a[0], T) else mk('root', 'none', 0, '')
    if c.op == 'eq' and lab is True and any(x.op == 'c' and x.a[0] == 0 for x in c.a) or c.op == 'lt' and lab is False and \
            c.a[0].op == 'c' and c.a[0].a[0] == 0:
        for x in c.a:
            if x.op in ('size', 'call', 'fld'):
                for y in subterms(x):
                    z = unlv(y)
                    if z.op in ('fld', 'elem') and z in own and len(fld_path(z)[1]) > 2:
                        return True
    return False


def region(g, starts, z, stop, edge):
    """nodes on paths from starts to z"""
    fw, todo = set(), [m for s_ in starts for m, l in s_.succ]
    while todo:
        n = todo.pop()
        if n.id in fw:
            continue
        fw.add(n.id)
        if n in stop:
            continue
        for m, l in n.succ:
            if not edge(n, m, l):
                todo.append(m)
    bw, todo = set(), [z]
    while todo:
        n = todo.pop()
        if n.id in bw or n.id not in fw:
            continue
        bw.add(n.id)
        for m, l in n.pred:
            todo.append(m)
    return bw


def other_update(g, r, upd, k, B, z, dirty, Z, groups, bases):
    """an update of the same data between marking and discarding which is not of the recognised form"""
    reg = region(g, dirty, z, Z, lambda a, b, l: a.kind == 'branch' and mask_empty(a.cond, l, r, bases))
    known = set(n.id for ns in groups.values() for n in ns)
    for n in upd:
        if n.id not in reg or n.id in known:
            continue
        b = sysbase(n.place, r.bd)
        inb = bool(b and b[0] is B)
        if inb and n.place is b[1]:
            return 'boundary' in k
        h, c, p = sysbase(n.place, r.hb), sysbase(n.place, r.cs), sysbase(n.place, r.pos)
        if 'hopping' in k and h and inb == ('boundary' in k) and (inb or h[0] is B):
            rest = fldname_from(n.place, h[1])
            if not rest or (rest[0] == r.ns) == ('site count' in k):
                return True
        if k == 'sublattice counts' and c and c[0] is B:
            return True
        if k.startswith('positions') and p and p[0] is B and n.kind != 'mut' or k.startswith('positions') and p and p[0] is B and n.method != 'usercall':
            rest = fldname_from(n.place, p[1])
            if not rest or rest[0] == k[-1]:
                return True
    return False


def whole_copy(upd, B, r):
    return any(n.kind == 'write' and n.place is B for n in upd)


def fldname_from(p, base):
    out = []
    while p is not base and isinstance(p, T) and p.op != 'root':
        if p.op == 'fld':
            out.append(p.a[1])
        p = p.a[0]
    return tuple(reversed(out))


def of_mask(w, v, r, B):
    """does the value depend on the mask of B?"""
    if not isinstance(v, T) or v.op == 'add' and any(unlv(x).op == 'fld' for x in v.a):
        return False
    for x in subterms(v):
        y = unlv(x)
        if y.op == 'fld' and y.a[1] == r.mask and y.a[0] is B:
            return not any(z.op == 'call' and z.a[0] == '<user>' for z in subterms(v)) and v.op != 'sel'
    # through containers which are filled elsewhere
    return any(containers_of_mask(w, x, r, B) for x in subterms(v) if x.op in ('lv', 'root'))


def containers_of_mask(w, x, r, B):
    p = unlv(x)
    memo = w.__dict__.setdefault('_maskc', {})
    key = (p, B)
    if key in memo:
        return memo[key]
    memo[key] = False
    if p.op != 'root' or p.a[0] == 'this':
        return False
    res = False
    for n in w.g.nodes:
        if n.kind in ('mut', 'write') and root_of(n.place) is p:
            vals = [a for a in n.args if isinstance(a, T)] if n.kind == 'mut' else [n.value]
            if any(of_mask(w, a, r, B) for a in vals if isinstance(a, T)):
                res = True
                break
            # counters that advance under the mask
            for a in vals:
                for y in subterms(a):
                    if y.op == 'lv' and conditional_on_mask(w, unlv(y), r, B):
                        res = True
    memo[key] = res
    return res


def conditional_on_mask(w, p, r, B):
    if p.op != 'root':
        return False
    for n in w.g.nodes:
        if n.kind == 'write' and n.place is p:
            for m, _ in n.pred:
                if m.kind == 'branch' and any(x.op == 'fld' and x.a[1] == r.mask for x in subterms(m.cond)):
                    return True
    return False


def renumber_idx(w, v):
    if v.op != 'obj':
        return False
    d = dict((y[0], y[1]) for y in v.a[1:])
    return 'row' in d and 'col' in d


# ------------------------------------------------------------------------------------------------ contents
def content(P, R, r, w, g, upd, k, B, n):
    key = 'filtering: content of %s' % k
    if k.startswith('positions'):
        c = k[-1]
        v = n.value
        if n.value.op == 'obj':
            v = dict((y[0], y[1]) for y in v.a[1:])[c]
        if not is_slice(v) or not slice_args(v):
            R.unknown('%s: %s %s' % (k, n.loc(), show(v)[:80]))
            return
        a, m = slice_args(v)
        pl = set(unlv(x) for x in alts(a))
        mb = mask_of(m, r)
        if mb is not B:
            if mb is not None or all(unlv(x).op == 'fld' for x in alts(m)):
                R.bad(key, 'positions are filtered with another mask: %s' % show(m)[:80], [n.where()])
            else:
                R.unknown('%s: %s mask %s' % (k, n.loc(), show(m)[:80]))
            return
        src = set(unlv(y) for x in pl for y in (alts(slice_args(x)[0]) if is_slice(x) and slice_args(x) else [x]))
        bad = [x for x in src if x.op == 'fld' and x.a[1] in COMP and x.a[1] != c]
        twice = [x for x in pl if is_slice(x) and slice_args(x) and slice_args(x)[1] is m]
        if twice and not bad:
            R.bad(key, 'the %s coordinates are filtered twice with the same mask' % c, [n.where()])
            return
        if bad:
            R.bad(key, 'the %s coordinates are replaced by the %s coordinates' % (c, bad[0].a[1]), [n.where()])
        elif all(x.op == 'fld' and x.a[1] == c or is_slice(x) or x.op in ('concat', 'call') for x in pl):
            R.ok('%s: own component sliced by the mask (%s)' % (k, n.loc()))
        else:
            R.unknown('%s: %s source %s' % (k, n.loc(), show(a)[:80]))
    elif k.endswith('removal of hoppings'):
        pred = None
        for a in n.args:
            for x in subterms(a) if isinstance(a, T) else ():
                if x.op == 'call' and x.a[0] == 'remove_if':
                    pred = x.a[1]
        if pred is None:
            R.unknown('%s: %s' % (k, n.loc()))
            return
        tab = {}
        for rr in (True, False):
            for cc in (True, False):
                tab[rr, cc] = truth(pred, r, rr, cc)
        if any(v is None for v in tab.values()):
            R.unknown('%s: predicate %s' % (k, show(pred)[:100]))
        elif all(v is (not (a and b)) for (a, b), v in tab.items()):
            R.ok('%s: dropped exactly when one of the ends is removed (%s)' % (k, n.loc()))
        else:
            w_ = [(a, b) for (a, b), v in tab.items() if v is not (not (a and b))]
            R.bad(key, 'a hopping whose row site is %s and column site is %s is %s' % (
                'kept' if w_[0][0] else 'removed', 'kept' if w_[0][1] else 'removed', 'dropped' if tab[w_[0]] else 'kept'), [n.where(), show(pred)[:200]])
    elif k.endswith('renumbering of hoppings'):
        d = dict((y[0], y[1]) for y in n.value.a[1:])
        for side in ('row', 'col'):
            v = d[side]
            if v.op != 'elem':
                R.unknown('%s: %s %s' % (k, n.loc(), show(v)[:100]))
                continue
            ix = v.a[1]
            used = [x.a[1] for x in [unlv(ix)] if x.op == 'fld' and x.a[1] in ('row', 'col')]
            if used and used[0] != side:
                R.bad(key, 'the new %s of a hopping is computed from its %s' % (side, used[0]), [n.where()])
                continue
            if not used:
                R.unknown('%s: index of %s %s' % (k, side, show(ix)[:80]))
                continue
            table(R, r, w, g, unlv(v.a[0]), B, '%s (%s)' % (k, side), key, n)
    elif k.endswith('site count of the hopping blocks'):
        v = n.value
        if v.op == 'call' and v.a[0] == 'std::accumulate':
            whole(R, r, w, v, B, k, key, n, None)
        elif v.op == 'call' and str(v.a[0]).split('::')[-1] in ('count', 'sum') and mask_of(v.a[1], r) is B:
            R.ok('%s: number of kept sites (%s)' % (k, n.loc()))
        else:
            R.unknown('%s: %s' % (k, show(v)[:100]))
    elif k == 'sublattice counts':
        v = n.value
        idx = n.place.a[0]
        if v.op == 'elem' and unlv(v.a[0]).op == 'root':
            cont = unlv(v.a[0])
            src = idx.a[1] if idx.op == 'elem' else None
            if src is None or v.a[1] is not src:
                if src is not None and counter(w, src) is not None and counter(w, v.a[1]) is not None or (
                        src is not None and v.a[1].op == 'add' and src in v.a[1].a):
                    R.bad(key, 'sublattice %s receives the count of another: %s' % (show(src)[:40], show(v.a[1])[:60]), [n.where()])
                else:
                    R.unknown('%s: %s' % (k, show(v)[:80]))
                return
            fills = [m for m in upd if m.place is cont and (m.kind == 'mut' and m.method in ('push_back', 'emplace_back'))]
            if len(fills) != 1:
                R.unknown('%s: %d fills of the new counts' % (k, len(fills)))
                return
            whole(R, r, w, fills[0].args[0], B, k, key, fills[0], (g, upd))
        elif v.op == 'call' and v.a[0] == 'std::accumulate':
            whole(R, r, w, v, B, k, key, n, (g, upd))
        else:
            R.unknown('%s: %s' % (k, show(v)[:100]))


def truth(t, r, row, col):
    if t.op == 'not':
        x = truth(t.a[0], r, row, col)
        return None if x is None else not x
    if t.op in ('or', 'and'):
        xs = [truth(x, r, row, col) for x in t.a]
        if t.op == 'or':
            return True if True in xs else None if None in xs else False
        return False if False in xs else None if None in xs else True
    if t.op == 'sel':
        c = truth(t.a[0], r, row, col)
        return None if c is None else truth(t.a[1] if c else t.a[2], r, row, col)
    if t.op == 'cb' or t.op == 'c':
        return bool(t.a[0])
    if t.op == 'eq' and len(t.a) == 2:
        xs = [truth(x, r, row, col) for x in t.a]
        return None if None in xs else xs[0] == xs[1]
    if t.op == 'elem' and all(unlv(x).op == 'fld' and unlv(x).a[1] == r.mask or 'Constant' in str(x.a[0]) for x in alts(t.a[0])):
        s = unlv(t.a[1])
        if s.op == 'fld' and s.a[1] in ('row', 'col'):
            return row if s.a[1] == 'row' else col
    return None


def iter_pos(t):
    """offset of an iterator expression relative to the beginning of its collection"""
    if t.op == 'iter':
        return t.a[1]
    if t.op == 'add':
        rest, it = [], None
        for x in t.a:
            if x.op == 'iter' and it is None:
                it = x
            elif x.op in ('call', 'addr', 'sub') and it is None and 'data' in str(x.a[0]):
                it = x
            else:
                rest.append(x)
        if it is not None and it.op == 'iter':
            return ADD(it.a[1], *rest)
    return None


def whole(R, r, w, v, B, k, key, n, ranged):
    """an accumulate over the mask: the whole of it, or the range of the sublattice"""
    if v.op != 'call' or v.a[0] != 'std::accumulate' or len(v.a) < 6:
        R.unknown('%s: %s' % (k, show(v)[:100]))
        return
    mb = mask_of(v.a[1], r)
    if mb is not B:
        R.unknown('%s: counts %s' % (k, show(v.a[1])[:80]))
        return
    if not (v.a[2].op == 'c' and v.a[2].a[0] == 0):
        if v.a[2].op == 'c':
            R.bad(key, 'the number of kept sites starts from %s' % show(v.a[2]), [n.where()])
        else:
            R.unknown('%s: start %s' % (k, show(v.a[2])[:60]))
        return
    b, e = iter_pos(v.a[4]), iter_pos(v.a[5])
    if ranged is None:
        if b is not None and e is not None and b.op == 'c' and b.a[0] == 0 and e.op == 'endpos':
            R.ok('%s: number of kept sites (%s)' % (k, n.loc()))
        elif b is None or e is None:
            R.unknown('%s: range %s .. %s' % (k, show(v.a[4])[:60], show(v.a[5])[:60]))
        else:
            R.bad(key, 'only the part %s .. %s of the mask is counted' % (show(b), show(e)), [n.where()])
        return
    g, upd = ranged
    if b is None or e is None:
        R.unknown('%s: range %s .. %s' % (k, show(v.a[4])[:60], show(v.a[5])[:60]))
        return
    L = innermost(g, n)
    if b.op == 'add' and len(b.a) == 2 and any(x.op == 'c' for x in b.a) and any(x.op == 'lv' for x in b.a) and L is not None:
        R.bad(key, 'the range of a sublattice starts at %s' % show(b)[:80], [n.where()])
        return
    if L is None or b.op != 'lv':
        if b.op == 'c' or e.op == 'endpos':
            R.bad(key, 'the count of every sublattice is taken over %s .. %s' % (show(b), show(e)), [n.where()])
        else:
            R.unknown('%s: start of the range %s' % (k, show(b)[:80]))
        return
    # start: running sum of the counts of the sublattices before
    info = w.lvinfo.get(b, ())
    it = [x for x in subterms(e) if x.op == 'fld' and x.a[1] == r.cnt]
    if len(info) < 2 or not (info[0].op == 'c' and info[0].a[0] == 0):
        R.unknown('%s: start of the range %s' % (k, [show(x)[:40] for x in info]))
        return
    step = [x for x in (info[1].a if info[1].op == 'add' else (info[1],)) if x is not b]
    if e.op == 'add' and b in e.a and len(e.a) == 3 and any(x.op == 'c' for x in e.a) and len(step) == 1 and step[0] in e.a:
        R.bad(key, 'the range of a sublattice ends at %s' % show(e)[:80], [n.where()])
        return
    if e.op == 'add' and b in e.a and len(e.a) == 2:
        ln = [x for x in e.a if x is not b][0]
    else:
        R.unknown('%s: end of the range %s' % (k, show(e)[:80]))
        return
    cnt_of = unlv(ln)
    if cnt_of.op == 'fld' and cnt_of.a[1] != r.cnt and root_of(cnt_of) is root_of(unlv(step[0]) if step else cnt_of):
        R.bad(key, 'the range of a sublattice has the length %s' % show(ln)[:80], [n.where()])
        return
    if len(step) != 1 or step[0] is not ln:
        R.unknown('%s: step of the range %s against %s' % (k, [show(x)[:60] for x in step], show(ln)[:60]))
        return
    body = L[1]
    dirty = [m for m in upd if m.id in body and m.place.op == 'fld' and m.place.a[1] == r.cnt and sysbase(m.place, r.cs)
             and sysbase(m.place, r.cs)[0] is B]
    if dirty:
        R.bad(key, 'the counts of the sublattices are overwritten while their old values delimit the ranges of the next ones',
              [n.where(), dirty[0].where()])
    else:
        R.ok('%s: taken over the original range of each sublattice (%s)' % (k, n.loc()))


def table(R, r, w, g, cont, B, k, key, at):
    """cont[i] = number of kept sites before i"""
    done = w.__dict__.setdefault('_tables', {})
    if cont in done:
        if done[cont]:
            R.ok('%s: %s' % (k, done[cont]))
        return
    done[cont] = None
    fills = [m for m in g.nodes if m.kind == 'mut' and m.place is cont and m.method in ('push_back', 'emplace_back')
             or m.kind == 'write' and m.place.op == 'elem' and m.place.a[0] is cont]
    if len(fills) != 1:
        R.unknown('%s: %d writes of the table of new indices' % (k, len(fills)))
        return
    n = fills[0]
    L = innermost(g, n)
    if L is None:
        R.unknown('%s: table not filled in a loop' % k)
        return
    head, body = L
    v = n.args[0] if n.kind == 'mut' else n.value
    # what decides: the mask element of this iteration
    tests = [m for m in g.nodes if m.id in body and m.kind == 'branch' and m.cond.op == 'elem'
             and mask_of(m.cond.a[0], r) is not None]
    facts = {}
    for x in subterms(v):
        if x.op == 'elem' and mask_of(x.a[0], r) is not None:
            facts[x] = True
    for m in tests:
        facts[m.cond] = True
    kept = subst(v, lambda x: (x.a[1] if facts[x.a[0]] else x.a[2]) if x.op == 'sel' and x.a[0] in facts else None) if facts else v
    if kept.op != 'lv':
        c = [x for x in subterms(kept) if x.op == 'lv']
        if kept.op == 'add' and len(kept.a) == 2 and any(x.op == 'c' for x in kept.a) and len(c) == 1:
            R.bad(key, 'the new index of a kept site is %s, where %s counts the sites kept before it' % (show(kept)[:60], show(c[0])[:40]), [n.where()])
        else:
            R.unknown('%s: table entry %s' % (k, show(v)[:80]))
        return
    info = w.lvinfo.get(kept, ())
    if len(info) < 2 or info[0].op != 'c':
        R.unknown('%s: counter %s' % (k, [show(x)[:50] for x in info]))
        return
    if info[0].a[0] != 0:
        R.bad(key, 'the new indices start from %s' % show(info[0]), [n.where()])
        return
    # the counter advances by one exactly for kept sites, and the entry is made for every site
    nxt = [x for x in info[1:]]
    incs = [m for m in g.nodes if m.id in body and m.kind == 'write' and m.place is unlv(kept)]
    if len(incs) != 1 or incs[0].value is not ADD(kept, cint(1)):
        if len(incs) == 1 and incs[0].value.op == 'add' and kept in incs[0].value.a and \
                any(mask_of(x.a[0], r) is not None for x in subterms(incs[0].value) if x.op == 'elem'):
            R.ok('%s: counter advanced by the mask' % k)
            done[cont] = 'counter of kept sites'
        else:
            R.unknown('%s: counter updates %s' % (k, [show(m.value)[:50] for m in incs]))
        return
    inc = incs[0]
    p = Search(g).find([head], goal=lambda m: m is head, avoid=lambda m: m is n, avoid_edge=lambda a, b, lab: b.id not in body)
    if p:
        R.bad(key, 'some sites get no entry in the table of new indices', [n.where()] + describe(p, 8))
        return
    for m in tests:
        for val, want in ((True, True), (False, False)):
            p = Search(g).find([m], goal=lambda q: q is head, avoid=(lambda q: q is inc) if want else (lambda q: False),
                               avoid_edge=lambda a, b, lab: b.id not in body or a is m and lab is not val,
                               via=None)
            if want and p:
                R.bad(key, 'a kept site does not advance the new index', [m.where()])
                return
            if not want:
                p = Search(g).find([m], goal=lambda q: q is inc, avoid=lambda q: q is head,
                                   avoid_edge=lambda a, b, lab: a is m and lab is not False)
                if p:
                    R.bad(key, 'a removed site advances the new index', [m.where()])
                    return
    if not tests:
        R.bad(key, 'the new index advances for removed sites as well', [inc.where()])
        return
    done[cont] = 'number of sites kept before (%s)' % n.loc()
    R.ok('%s: %s' % (k, done[cont]))


# ------------------------------------------------------------------------------------------------ pending masks
def gen_calls(g):
    """user calls of site and hopping generators"""
    out = []
    for n in g.nodes:
        if n.kind == 'usercall' and isinstance(n.callee, T):
            s = [x for x in subterms(n.callee) if x.op == 'fld']
            args = [a for a in n.args if isinstance(a, T)]
            if any(a.op == 'obj' and str(a.a[0]).split('@')[0].endswith('System') for a in args) and s:
                out.append(n)
    return out


def pending(P, R, r, w, g, upd):
    bases = sys_bases(g, r, upd)
    Zs, src = marks(g, r, upd)
    Z = set(n.id for n in Zs)
    if not src:
        R.unknown('%s: no place where sites of a system are masked' % MAKE)
        return
    users = gen_calls(g)
    if not users:
        R.unknown('%s: no generator calls recognised' % MAKE)

    def emptyedge(a, b, lab):
        return a.kind == 'branch' and mask_empty(a.cond, lab, r, bases)
    goals = [(u, 'a generator is called') for u in users] + [(e, 'the system is returned') for e in g.nodes if e.kind == 'exit']
    for u, what in goals:
        if u is None:
            continue
        p = Search(g).find(src, goal=lambda n: n is u, avoid=lambda n: n.id in Z, avoid_edge=emptyedge)
        if p:
            R.bad('pending mask: %s' % what, '%s while sites marked for removal are still present' % what, describe(p, 16))
        else:
            R.ok('%s only after the marked sites have been removed (%s)' % (what, u.loc() if u.kind != 'exit' else 'return'))
    # a new mask covers all sites; an existing one is kept
    for n in upd:
        b = sysbase(n.place, r.mask)
        if n.kind != 'write' or not b or b[0] not in bases or n.place is not b[1] or empty_value(n.value):
            continue
        v = n.value
        key = 'new mask'
        B = n.place.a[0]
        if v.op == 'call' and 'Constant' in str(v.a[0]):
            a = [x for x in v.a[1:] if isinstance(x, T)]
            sz = [x for x in a if x.op not in ('cb', 'c')]
            tv = [x for x in a if x.op in ('cb', 'c')]
            if tv and tv[-1].a[0] in (False, 0):
                R.bad(key, 'a new mask starts with all sites marked for removal', [n.where()])
            elif sz and all(x.op == 'size' and any(y.op == 'fld' and y.a[1] == r.pos for y in subterms(x)) for s_ in sz for x in alts(s_)):
                R.ok('new mask covers the present sites (%s)' % n.loc())
            else:
                R.unknown('new mask %s' % show(v)[:80])
        p = Search(g).find(src, goal=lambda m: m is n, avoid_edge=emptyedge)
        if p:
            R.bad('new mask: overwritten', 'a pending mask is overwritten by a new one: marks set by an earlier modifier are lost', [n.where()] + describe(p, 8))
        else:
            R.ok('a mask is created only when none is pending (%s)' % n.loc())


def mask_empty(c, lab, r, bases):
    while c.op == 'not':
        c, lab = c.a[0], not lab
    if c.op == 'eq' and lab is True or c.op == 'lt' and lab is False:
        s = [x for x in c.a if x.op == 'size']
        z = [x for x in c.a if x.op == 'c' and x.a[0] == 0]
        if s and z and (c.op == 'eq' or c.a[0] is z[0]):
            return any(y.op == 'fld' and y.a[1] == r.mask and y.a[0] in bases for y in subterms(s[0]))
    return False


# ------------------------------------------------------------------------------------------------ generators
def generators(P, R, r, w, g, upd):
    bases = sys_bases(g, r, upd)
    for u in gen_calls(g):
        res = u.get('result') if hasattr(u, 'get') else None
        L = innermost(g, u)
        if L is None:
            R.unknown('generator call %s outside a loop' % u.loc())
            continue
        head, body = L
        def from_user(t):
            return isinstance(t, T) and any(x.op == 'call' and x.a[0] == '<user>' and x.a[1] is u.callee for x in subterms(t))
        S = set(n.id for n in upd if n.id in body)
        after = reachable([u], avoid=lambda n: n is head)
        aft = set(n.id for n in after) if after and not isinstance(next(iter(after)), int) else set(after)
        loc = [n for n in upd if n.id in aft and n.id in body]
        kinds = {}
        for n in loc:
            h, c, p = sysbase(n.place, r.hb), sysbase(n.place, r.cs), sysbase(n.place, r.pos)
            b_ = sysbase(n.place, r.bd)
            vals = [n.value] if n.kind == 'write' else [a for a in n.args if isinstance(a, T)]
            dep = any(from_user(v) for v in vals if v is not None)
            if not dep:
                continue
            if b_ and b_[0] in bases:
                if h and fldname_from(n.place, h[1])[:1] == (r.ns,):
                    kinds.setdefault('boundary hopping blocks', []).append(n)
            elif h and h[0] in bases and fldname_from(n.place, h[1])[:1] == (r.ns,):
                kinds.setdefault('hopping blocks', []).append(n)
            elif h and h[0] in bases and fldname_from(n.place, h[1])[:1] == (r.bl,):
                kinds.setdefault('hoppings', []).append(n)
            elif c and c[0] in bases:
                kinds.setdefault('sublattices', []).append(n)
            elif p and p[0] in bases:
                kinds.setdefault('positions', []).append(n)
        if 'hoppings' in kinds:
            hop_gen(R, r, w, g, u, head, body, kinds['hoppings'])
            continue
        if not kinds:
            R.unknown('generator call %s: no use of its result found' % u.loc())
            continue
        for k in ('positions', 'sublattices', 'hopping blocks', 'boundary hopping blocks'):
            key = 'generated sites: %s' % k
            ns = kinds.get(k, [])
            if not ns:
                R.bad(key, 'sites generated at %s are not added to the %s' % (u.loc(), k), [u.where()])
                continue
            ids = set(rep_of(g, n, head).id for n in ns)
            p = Search(g).find([u], goal=lambda n: n is head, avoid=lambda n: n.id in ids or n.kind in ('throw', 'exitthrow'),
                               avoid_edge=lambda a, b, lab: b.id not in body or zero_new(a, lab, from_user))
            if p:
                R.bad(key, 'sites generated at %s are not added to the %s on some path' % (u.loc(), k), [u.where()] + describe(p, 10))
            else:
                R.ok('generated sites extend the %s' % k)
            for n in ns:
                gen_content(R, r, w, k, key, n, u, from_user)
    return


def zero_new(a, lab, from_user):
    if a.kind != 'branch':
        return False
    c = a.cond
    while c.op == 'not':
        c, lab = c.a[0], not lab
    return c.op == 'eq' and lab is True and any(x.op == 'c' and x.a[0] == 0 for x in c.a) and any(from_user(x) for x in c.a)


def new_count(t, from_user):
    """t is the number of generated sites"""
    return t.op == 'size' and from_user(t) or t.op == 'call' and str(t.a[0]).split('::')[-1] in ('size', 'rows') and from_user(t)


def gen_content(R, r, w, k, key, n, u, from_user):
    v = n.value if n.kind == 'write' else (n.args[0] if n.args else None)
    if v is None:
        return
    if k.endswith('hopping blocks') or k == 'sublattices' and n.kind == 'write' and n.place.op == 'fld' and n.place.a[1] == r.cnt:
        xs = list(v.a) if v.op == 'add' else [v]
        new = [x for x in xs if new_count(x, from_user)]
        old = [x for x in xs if x not in new]
        if k == 'sublattices' and not old and n.place.a[0].op != 'elem':
            R.ok('%s: number of generated sites' % k)
            return
        if len(new) == 1 and len(old) >= 1 and not any(x.op == 'c' for x in old) and not any(from_user(x) and x.op != 'sel' for x in old):
            R.ok('%s: increased by the number of generated sites' % k)
        elif not old and len(new) == 1:
            R.bad(key, 'the number of sites is replaced by the number of generated sites', [n.where()])
        elif any(x.op == 'c' and x.a[0] for x in old):
            R.bad(key, 'the number of sites does not grow by the number of generated sites: %s' % show(v)[:120], [n.where()])
        else:
            R.unknown('%s: %s' % (k, show(v)[:120]))
    elif k == 'sublattices':
        objs = [v] if v.op == 'obj' and any(y[0] == r.cnt for y in v.a[1:]) else []
        if not objs:
            R.unknown('%s: %s' % (k, show(v)[:120]))
            return
        d = dict((y[0], y[1]) for y in objs[0].a[1:])
        if new_count(d[r.cnt], from_user):
            R.ok('%s: new sublattice with the number of generated sites' % k)
        else:
            R.bad(key, 'the new sublattice has %s sites' % show(d[r.cnt])[:80], [n.where()])
    elif k == 'positions':
        cc = [x for x in subterms(v) if x.op == 'concat' or x.op == 'call' and str(x.a[0]).split('::')[-1] == 'concat']
        if n.place.op == 'fld' and n.place.a[1] in COMP or not cc:
            R.unknown('%s: %s' % (k, show(v)[:100]))
            return
        a = [x for x in cc[0].a if isinstance(x, T)]
        if len(a) == 2 and from_user_only(a[1], from_user, r) and not from_user_only(a[0], from_user, r):
            R.ok('positions of generated sites appended')
        elif len(a) == 2 and from_user_only(a[0], from_user, r):
            R.bad(key, 'generated positions are put in front of the existing ones, but their sublattice is the last', [n.where()])
        else:
            R.unknown('%s: %s' % (k, show(v)[:100]))


def from_user_only(t, from_user, r):
    """the data of t comes from the generator"""
    for x in subterms(t):
        if x.op == 'call' and x.a[0] == '<user>':
            return True
    return False


def hop_gen(R, r, w, g, u, head, body, ns):
    key = 'generated hoppings'
    for n in ns:
        if n.kind != 'mut' or n.method not in ('push_back', 'emplace_back'):
            continue
        v = n.args[0] if n.args else None
        if v is None or v.op != 'obj':
            R.unknown('%s: %s' % (key, n.loc()))
            continue
        d = dict((y[0], y[1]) for y in v.a[1:])
        ends = {}
        for side in ('row', 'col'):
            ends[side] = [(x.a[0].a[1], x.a[1]) for a in alts(d[side]) for x in [a] if x.op == 'elem' and unlv(x.a[0]).op == 'fld']
            ends[side] = [(f_, i_) for f_, i_ in ends[side]]
        both = ends['row'] + ends['col']
        names = set(f_ for f_, _ in both)
        if not both or len(ends['row']) != len(alts(d['row'])) or len(ends['col']) != len(alts(d['col'])):
            R.unknown('%s: %s' % (key, show(v)[:80]))
        elif len(names) == 1:
            R.bad(key, 'both ends of a generated hopping are taken from `%s`' % names.pop(), [n.where()])
        elif len(set(i_ for _, i_ in both)) > 1:
            R.bad(key, 'the ends of a generated hopping are taken from different positions of the lists', [n.where()])
        else:
            R.ok('%s: both ends of one pair (%s)' % (key, n.loc()))
        idx = n.place.a[1] if n.place.op == 'elem' else None
        same_modifier(R, u, idx, '%s: family' % key, n)
        p = Search(g).find([u], goal=lambda m: m is head, avoid=lambda m: m.kind in ('throw', 'exitthrow') or m is rep_of(g, n, head),
                           avoid_edge=lambda a, b, lab: b.id not in body)
        if p:
            R.bad(key, 'generated hoppings are not stored on some path', [u.where()] + describe(p, 10))
        else:
            R.ok('%s: always stored' % key)


def modifier_of(t):
    """the element of the modifier list which a term belongs to"""
    return set(x for x in subterms(t) if x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[1] == 'structure_modifiers')


def same_modifier(R, u, t, key, n):
    if t is None:
        R.unknown('%s: %s' % (key, n.loc()))
        return
    a = modifier_of(u.callee)
    b = set()
    for x in subterms(t):
        if x.op == 'call' and x.a[0] == '<user>':
            continue
        if x.op == 'findpos':
            b |= modifier_of(x)
    if not b:
        R.unknown('%s: %s' % (key, show(t)[:80]))
    elif b == a:
        R.ok('%s of the generator itself (%s)' % (key, n.loc()))
    else:
        R.unknown('%s: %s' % (key, show(t)[:80]))


# ------------------------------------------------------------------------------------------------ final indices
FLAT = ('flat_idx', 'slice_idx', 'sub_idx', 'spatial_idx')


def sitevars(t, stop=()):
    """the sites (iterator variables over a foundation) a term is about"""
    out = set()
    for x in subterms(t):
        if x.op == 'lv' and len(x.a) > 1 and isinstance(x.a[1], T) and x.a[1].op == 'fld' and x.a[1].a[1] in FLAT:
            out.add(x.a[1].a[0])
    return out


def populate(P, R, r, w, g, upd):
    """every final index is stored with the data of its own site"""
    bases = sys_bases(g, r, upd)
    seen = 0
    per = {}
    for n in upd:
        p = sysbase(n.place, r.pos)
        if n.kind == 'write' and p and p[0] in bases and n.place.op == 'elem' and n.place.a[0].op == 'fld' and n.place.a[0].a[1] in COMP:
            seen += 1
            c = n.place.a[0].a[1]
            k, v = n.place.a[1], n.value
            sk, sv = sitevars(k), sitevars(v)
            per.setdefault(p[0], set()).update(sk)
            key = 'stored positions'
            if not sk or not sv:
                R.unknown('%s: %s' % (key, n.loc()))
            elif sk != sv:
                R.bad(key, 'the position of one site is stored under the index of another', [n.where()])
            else:
                R.ok('%s: %s of the site itself (%s)' % (key, c, n.stack[-2][0] if len(n.stack) > 1 else n.loc()))
            comp_order(R, key, c, v, n)
    for n in upd:
        c = sysbase(n.place, r.cs)
        if not c or c[0] not in bases or n.kind != 'mut' or n.method not in ('push_back', 'emplace_back') or not n.args:
            continue
        v = n.args[0]
        sites = sitevars(v)
        if v.op != 'obj' or not sites or any(x.op == 'call' and x.a[0] == '<user>' for x in subterms(v)):
            continue
        key = 'stored sublattices'
        want = per.get(c[0], set())
        if want and sites != want:
            R.bad(key, 'the sublattice of another site is recorded than the one whose position is stored', [n.where()])
        elif want:
            R.ok('%s: sublattice of the site itself (%s)' % (key, n.loc()))
        d = dict((y[0], y[1]) for y in v.a[1:])
        for f_, x in d.items():
            leaf = set(z.a[1] for a in alts(x) for z in [a] if z.op == 'fld') | set(
                z.a[1] for a in subterms(x) for z in [a] if z.op == 'fld' and z.a[1] in ('unique_id', 'alias_id', 'norb'))
            if 'unique_id' in leaf:
                R.bad(key, 'sublattices are recorded by their unique instead of their alias id, which the registry of sites is indexed by', [n.where()])
            if x.op in ('c', 'cb') and f_ == r.cnt and x.a[0] != 1:
                R.bad(key, 'one site is recorded as %s sites' % show(x), [n.where()])
    # hopping coordinates
    for n in upd:
        if n.kind != 'mut' or n.method not in ('push_back', 'emplace_back') or not n.args:
            continue
        v = n.args[0]
        if v.op != 'obj' or not renumber_idx(w, v) or any(x.op == 'call' and x.a[0] == '<user>' for x in subterms(v)) or n.place.op != 'elem':
            continue
        d = dict((y[0], y[1]) for y in v.a[1:])
        key = 'stored hoppings'
        sr, sc = sitevars(d['row']), sitevars(d['col'])
        fam = n.place.a[1]
        hr, hc, hf = hopvars(d['row']), hopvars(d['col']), hopvars(fam)
        if not sr or not sc or not hf:
            R.unknown('%s: %s' % (key, n.loc()))
            continue
        h = sysbase(n.place, r.hb)
        want = per.get(h[0], set()) if h else set()
        if want and sr != want:
            R.bad(key, 'the row of a hopping is the index of another site than the one whose position is stored', [n.where()])
        elif sr != sc:
            R.bad(key, 'the hopping connects sites unrelated to each other', [n.where()])
        elif hr and not hc:
            R.bad(key, 'row and column of a hopping are exchanged', [n.where()])
        elif hr:
            R.unknown('%s: row depends on the hopping (%s)' % (key, n.loc()))
        elif hc and hc != hf:
            R.bad(key, 'the family of another hopping is recorded', [n.where()])
        elif not hc:
            R.bad(key, 'the column of a hopping does not depend on the hopping', [n.where()])
        else:
            R.ok('%s: row, column and family of the same hopping (%s)' % (key, n.loc()))
        guard_index(R, w, g, n, d['col'], 'column', key)
        guard_index(R, w, g, n, d['row'], 'row', key)
    if not seen:
        R.unknown('%s: no positions are stored by index' % MAKE)


def hopvars(t):
    return set(x for x in subterms(t) if x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[1] == 'hoppings')


def comp_order(R, key, c, v, n):
    """component c of the stored position is component c of the site's position"""
    if v.op != 'elem' or v.a[1].op != 'c':
        R.unknown('%s: component %s' % (key, show(v)[:60]))
        return
    if v.a[1].a[0] != COMP.index(c):
        R.bad(key, 'component %s is stored as %s' % (v.a[1].a[0], c), [n.where()])
        return
    ct = [x for x in subterms(v.a[0]) if x.op == 'call' and str(x.a[0]).endswith('Matrix::ctor') and len(x.a) == 4 and sitevars(x)]
    for x in ct:
        for i, e in enumerate(x.a[1:]):
            cs = set(y.a[1] for z in alts(e) for y in [unlv(z.a[0])] if z.op == 'elem' and y.op == 'fld')
            if cs and cs != {COMP[i]} and cs <= set(COMP):
                R.bad(key, 'coordinate %s of a site is read from %s' % (COMP[i], sorted(cs)), [n.where()])
                return


def guard_index(R, w, g, n, t, what, key):
    """the index is known to be valid (not -1) when it is stored"""
    facts = [x for x in alts(t)]
    leafs = set(facts) | {t}

    def tests(m):
        if m.kind != 'branch':
            return False
        for x in subterms(m.cond):
            if x in leafs and x.op != 'c':
                return True
        return False
    sv = sitevars(t)
    hv = hopvars(t)

    def masked(m):
        # the site was selected by a mask before: rows of leads
        return m.kind == 'branch' and not hv and m.cond.op in ('elem', 'not', 'and') and any(
            x.op == 'elem' for x in subterms(m.cond)) and sitevars(m.cond) & sv
    loops = loops_of(g, n)
    head = loops[0] if hv or len(loops) < 2 else loops[1]
    p = Search(g).find([head], goal=lambda m: m is n, avoid=lambda m: tests(m) or masked(m) or m is not head and False)
    if p and head is not None:
        R.bad('%s: %s' % (key, what), 'a %s index is stored without having been checked to belong to an existing site' % what, [n.where()] + describe(p, 8))
        return
    for m in g.nodes:
        if tests(m) and m.id in body_of(g, head):
            pol = edge_to(g, m, n, head)
            if pol is None:
                continue
            c, want = m.cond, pol
            r_ = accepts_negative(c, leafs, want)
            if r_ is True:
                R.bad('%s: %s' % (key, what), 'a hopping is stored when its %s index is negative: %s is %s' % (what, show(c)[:60], want), [m.where(), n.where()])
                return
    R.ok('%s: %s index checked' % (key, what))


def edge_to(g, m, n, head):
    """the only outcome of branch m which leads to n within the iteration"""
    out = []
    for s_, lab in m.succ:
        if s_ is n or Search(g).find([s_], goal=lambda q: q is n, avoid=lambda q: q is head):
            out.append(lab)
    return out[0] if len(out) == 1 else None


def accepts_negative(c, leafs, val):
    while c.op == 'not':
        c, val = c.a[0], not val
    if c.op == 'lt':
        if c.a[0] in leafs and c.a[1].op == 'c':
            return val and c.a[1].a[0] <= 0
        if c.a[1] in leafs and c.a[0].op == 'c':
            return (not val) and c.a[0].a[0] <= 0
    return None


def frozen(P, R, r, w, g, upd):
    """a foundation whose final indices have been handed out is not changed any more"""
    rec = next((x for x in P.recs.values() if x.short == 'cpb::Foundation' and x.fields), None)
    R.need(rec is not None, 'class Foundation')
    fin = mask = pos = None
    for f in rec.fields:
        t = f['t'].s
        if 'FinalizedIndices' in t:
            fin = f['n']
        elif 'bool' in t:
            mask = f['n']
        elif 'CartesianArray' in t:
            pos = f['n']
    R.need(fin and mask and pos, 'members of Foundation')
    ws = [n for n in upd if n.kind == 'write' and n.place.op == 'fld' and n.place.a[1] == fin and not empty_value(n.value)]
    if not ws:
        R.unknown('foundation: final indices are not cached')
        return
    owners = set(n.place.a[0] for n in ws)
    late = [n for n in upd if any(x.op == 'fld' and x.a[1] == mask and x.a[0] in owners for x in prefix_terms(n))]
    p = Search(g).find(ws, goal=lambda n: n in late)
    if p:
        R.bad('foundation: final indices', 'sites of the foundation are switched on or off after the final indices have been computed',
              describe(p, 12))
    else:
        R.ok('foundation: %d changes of the site mask, none after the final indices are computed' % len(late))


def prefix_terms(n):
    return subterms(n.place)


PARTS = [check, helpers]
