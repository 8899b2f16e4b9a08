"""Modifiers and generators are each applied once, in insertion order, to consistent data."""
import re
from emit import *
from c07 import complex_instances
from c08 import (coo_of, containers, lids, dom_edges, loop_cover, exit_kind, only_throws, cursor_loops, base_of, pos_of, family_index,
                 elem_index)

LEVEL = 'other'
RULE = ('For every call of a user-supplied modifier or generator in the construction of the system, of the Hamiltonian and of the '
        'lead Hamiltonians: it sits in a loop which visits its container from the first to the last element; no iteration skips '
        'it; it is applied once per data item; its arguments (energies, positions, states, names) belong to the same sublattice '
        'or hopping block, hopping positions are those of the row and column sites of the same hopping (the column shifted by the '
        'boundary), its result reaches the matrix unmodified, and paths which bypass it require an empty container. New modifiers are '
        'appended at the end of their container.')
EXPLAIN = 'Symbolic arguments and loop structure of all user calls on inlined flow graphs; one obligation per call and aspect.'
ASSUME = ['modifier callbacks only change the values they are given']


def tail(x, n=110):
    s = show(x, 8)
    return s if len(s) <= n else s[:n] + '..'


def container_of(callee):
    """(container place, index) of the modifier a user call belongs to"""
    p = callee
    while isinstance(p, T) and p.op in ('fld', 'elem', 'sub', 'alt', 'deref', 'addr'):
        if p.op == 'elem':
            return p.a[0], p.a[1]
        p = p.a[0]
    return None


def last_field(p):
    r, path = fld_path(p)
    path = [x for x in path if x not in ('[]', '*', 'alt')]
    return path[-1] if path else None


def usercalls(g):
    out = []
    for n in g.nodes:
        if n.kind != 'usercall' or not isinstance(n.callee, T):
            continue
        c = container_of(n.callee)
        if c is None:
            continue
        k = last_field(c[0])
        dyn = any('StructureModifier::' in s[0] for s in n.stack)
        if dyn:
            out.append((n, 'structure', c[0], c[1]))
        elif k in ('onsite', 'hopping'):
            out.append((n, k, c[0], c[1]))
    return out


def head_of(g, lid):
    return next((h for h in g.nodes if h.kind == 'loop' and h.lid == lid), None)


def modloop(g, idx):
    """head of the loop over the modifiers"""
    for x in subterms(idx):
        if x.op == 'lv':
            h = head_of(g, x.a[0])
            if h is not None:
                return h, x
    return None, None


def skips(g, head, target):
    """path through one iteration of the loop that avoids the target nodes and the loops that contain them"""
    body = body_of(g, head)
    ids = set(n.id for n in target)
    heads = set(h.id for h in g.nodes if h.kind == 'loop' and h is not head and h.id in body and body_of(g, h) & ids)
    ex = [n for n in g.nodes if n.id in body and n.kind == 'branch' and any(m.id not in body and not only_throws(g, m) for m, _ in n.succ)]

    def edge(a, b, lab):
        return b.id not in body
    S = Search(g)
    p = S.find([head], goal=lambda n: n is head, avoid=lambda n: n.id in ids or n.id in heads, avoid_edge=edge)
    if not p:
        return None
    conds = [(c, l) for c, l in path_facts(p) if not any(c is n.cond for n in ex)]
    return p, conds


def about_empty(c, lab):
    """a condition saying that a collection (or a count of items) is empty"""
    while c.op == 'not':
        c, lab = c.a[0], not lab
    if c.op == 'eq' and lab is True and any(x.op == 'c' and x.a[0] == 0 for x in c.a):
        o = c.a[1] if c.a[0].op == 'c' else c.a[0]
        return o.op == 'size' or o.op == 'fld' and o.a[1].startswith('num') or o.op == 'call' and 'size' in str(o.a[0])
    if c.op == 'lt' and lab is False and c.a[0].op == 'c' and c.a[0].a[0] == 0:
        return True
    return False


def segment_of(t):
    """(base component place, start, length) of an array segment inside an argument"""
    out = []
    for x in subterms(t):
        if x.op == 'sub' and len(x.a) >= 4 and x.a[1] == 'segment':
            out.append(x)
    # outermost only
    inner = set(y for x in out for y in subterms(x) if y is not x)
    return [x for x in out if x not in inner]


COMP = {'x': 0, 'y': 1, 'z': 2}


def components(R, tag, n, arg, what):
    """x, y and z references of a Cartesian argument refer to the x, y and z components of the same segment.  -> segments"""
    refs = {}
    names = ('x_ref', 'y_ref', 'z_ref', 'x', 'y', 'z') if arg.op == 'obj' else ()
    for k in names:
        v = member(arg, k)
        if v is not None:
            refs[k[0]] = v
    if set(refs) != {'x', 'y', 'z'}:
        return None
    segs = {}
    for k, v in refs.items():
        s = segment_of(v)
        if len(s) != 1:
            return None
        segs[k] = s[0]
    wrong = []
    for k, s in segs.items():
        # strip gates and loop-carried values down to the component's own name
        names = comp_names(s.a[0])
        if names and names != {k}:
            wrong.append('%s comes from %s' % (k, '/'.join(sorted(names))))
    if wrong:
        R.bad('%s: %s components' % (tag, what), 'the %s passed to the modifier are mixed up: %s' % (what, '; '.join(wrong)), [n.where()])
        return None
    ranges = set((s.a[2], s.a[3]) for s in segs.values())
    if len(ranges) > 1:
        R.bad('%s: %s components' % (tag, what), 'the %s components passed to the modifier cover different ranges' % what, [n.where()])
        return None
    return segs


def comp_names(b):
    out = set()
    todo = [b]
    while todo:
        x = todo.pop()
        if x.op == 'sel':
            todo += [x.a[1], x.a[2]]
        elif x.op == 'phi':
            todo += list(x.a)
        elif x.op == 'lv':
            if isinstance(x.a[1], T):
                todo.append(x.a[1])
        elif x.op == 'fld' and x.a[1] in COMP:
            out.add(x.a[1])
        elif x.op in ('deref', 'addr', 'sub'):
            todo.append(x.a[0])
        elif x.op == 'upd' or x.op == 'call' and x.a[0] == 'slice':
            todo += [y for y in x.a[1:] if isinstance(y, T)][:1]
    return out


def member(v, name):
    """value of a member of an aggregate value"""
    if v.op == 'fld' and v.a[1] == name:
        return v
    for y in v.a:
        if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], T):
            if y[0] == name or isinstance(y[0], T) and y[0].op == 'fld' and y[0].a[1] == name:
                return y[1]
    if v.op in PLACE_OPS:
        return mk('fld', v, name)
    return None


def check(P, R):
    for qn in ('cpb::Model::make_system', 'cpb::ham::make', 'cpb::leads::detail::make_h0', 'cpb::leads::detail::make_h1'):
        fs = P.fn(qn)
        R.need(fs, qn)
        fs = complex_instances(fs) or fs
        f = sorted(fs, key=lambda f: f.id)[-1]
        try:
            w = Walker(P)
            g = w.run(f)
        except Incomplete as e:
            R.unknown('%s: %s' % (sig(f), e))
            continue
        R.count('graph_nodes', len(g.nodes))
        idom = dominators(g)
        us = usercalls(g)
        R.count('user_calls', len(us))
        R.need(us, 'calls of modifiers in ' + qn)
        for n, kind, cont, idx in us:
            one_call(R, f, w, g, idom, n, kind, cont, idx, us)
        if qn.endswith('make_system'):
            structure(P, R, f, w, g, idom, us)
        else:
            bypass(R, f, w, g, us, qn)
    appended(P, R)


def tagof(f, n, kind):
    who = [s[0] for s in n.stack if not s[0].startswith('cpb::StructureModifier')]
    return '%s: %s in %s' % (sig(f).split('(')[0], {'structure': 'structure modifier', 'onsite': 'onsite modifier',
                                                   'hopping': 'hopping modifier'}[kind], who[-1].split('::(anon')[0].replace('cpb::', '') if who else '?')


def one_call(R, f, w, g, idom, n, kind, cont, idx, us):
    tag = tagof(f, n, kind)
    h, lv = modloop(g, idx)
    if h is None or n.id not in body_of(g, h):
        if idx.op == 'c':
            R.bad('%s: all' % tag, 'only element %s of the modifiers is called' % show(idx), [n.where()])
        else:
            R.unknown('%s: %s modifier index %s' % (tag, n.loc(), tail(idx)))
        return
    # 1. whole container, forwards
    if kind != 'structure':
        v, t = loop_cover(w, g, h)
        inf = w.lvinfo.get(lv)
        if v == 'ok' and inf and len(inf) > 1:
            start = pos_of(inf[0])
            step = SUB(pos_of(inf[1]), lv) if pos_of(inf[1]) is not None else None
            if start is not None and start.op == 'c' and start.a[0] == 0 and step is cint(1):
                R.ok('%s: %s all modifiers, first to last' % (tag, n.loc()))
            elif step is cint(-1):
                R.bad('%s: order' % tag, 'the modifiers are applied in reverse order', [h.where()])
            else:
                R.unknown('%s: %s from %s step %s' % (tag, n.loc(), show(inf[0])[:40], show(inf[1])[:40]))
        elif v == 'bad':
            R.bad('%s: all' % tag, 'the loop over the modifiers does not visit all of them: it %s' % t, [h.where()])
        else:
            R.unknown('%s: %s modifiers loop: %s' % (tag, h.loc(), t))
        s = skips(g, h, [n])
        if s is None:
            R.ok('%s: %s every iteration calls the modifier' % (tag, n.loc()))
        elif s[1]:
            R.bad('%s: skip' % tag, 'a modifier can be skipped', [n.where()] + describe(s[0], 10))
        else:
            R.unknown('%s: %s modifier not called on every iteration' % (tag, n.loc()))
    # 2. not twice for the same data
    data = [x for x in loops_of(g, n) if x is not h]
    stop = set(x.id for x in data) | {h.id}
    for m, k2, c2, i2 in us:
        if k2 == kind and (m is n or kind != 'structure') and m.id in body_of(g, h if kind == 'structure' else (data[0] if data else h)):
            if m is n:
                continue
            S = Search(g)
            if [x for x in loops_of(g, m)][1:] != [x for x in loops_of(g, n)][1:]:
                continue
            p = S.find([n], goal=lambda x: x is m, avoid=lambda x: x.id in set(d.id for d in data))
            if p:
                R.bad('%s: twice' % tag, 'the modifiers are applied a second time to the same data at %s' % m.loc(), [n.where(), m.where()])
    # 3. arguments
    if kind == 'onsite':
        onsite_args(R, tag, w, g, n, data)
    elif kind == 'hopping':
        hopping_args(R, tag, w, g, n, h)
    else:
        structure_args(R, tag, w, g, n, data, lv)


def names_index(w, t, reg):
    """index of <registry>.names[...] in a name argument"""
    out = set()
    for x in subterms(t):
        if x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[1] == 'names' and reg in fld_path(x.a[0])[1]:
            out.add(x.a[1])
    return out


def same_sub(R, tag, w, n, segs, name, what, reg='site_registry'):
    """segment and name belong to the same sublattice"""
    ni = names_index(w, name, reg)
    nl = set(l for x in ni for l in lids(w, x))
    key = '%s: %s and name' % (tag, what)
    for s in segs:
        st, ln = s.a[2], s.a[3]
        sl, ll = lids(w, st), lids(w, ln)
        if not ni or not sl or not ll:
            R.unknown('%s: %s %s start %s length %s name %s' % (tag, n.loc(), what, tail(st, 40), tail(ln, 40), tail(name, 40)))
            return
        if sl != ll or not (sl & nl):
            R.bad(key, 'the %s passed to the modifier (start %s, length %s) do not belong to the sublattice whose name is passed (%s)'
                  % (what, tail(st, 60), tail(ln, 60), tail(name, 60)), [n.where()])
            return
        # start of the sublattice = sum of the preceding lengths
        inf = w.lvinfo.get(st) if st.op == 'lv' else None
        if inf and len(inf) > 1:
            if SUB(inf[1], st) is not ln:
                R.bad(key, 'the %s segment starts at %s, which does not advance by its length %s' % (what, tail(st, 60), tail(ln, 60)), [n.where()])
                return
    R.ok('%s: %s %s and name of the same sublattice' % (tag, n.loc(), what))


def onsite_args(R, tag, w, g, n, data):
    a = [x for x in n.args if isinstance(x, T)]
    if len(a) != 3:
        R.unknown('%s: %s arguments' % (tag, n.loc()))
        return
    segs = components(R, tag, n, a[1], 'positions')
    if segs is None:
        R.unknown('%s: %s positions argument %s' % (tag, n.loc(), tail(a[1])))
    else:
        same_sub(R, tag, w, n, list(segs.values()), a[2], 'positions')
        ln = list(segs.values())[0].a[3]
        if contains(a[0], lambda y: y is ln):
            R.ok('%s: %s as many energies as positions' % (tag, n.loc()))
        else:
            R.unknown('%s: %s number of energies' % (tag, n.loc()))
    energies_reach(R, tag, w, g, n, a[0], data)


def buffers(t):
    """array objects an energies argument refers to"""
    out = set()
    for x in subterms(t):
        if x.op == 'addr' and x.a[0].op == 'elem':
            out.add((base_of(x.a[0]), x.a[0].a[1]))
    return out


def energies_reach(R, tag, w, g, n, arg, data):
    """the buffer given to the modifier is the one the matrix elements are read from, and is not refilled in between"""
    bs = buffers(arg)
    bases = set(b for b, _ in bs)
    if len(bases) != 1:
        R.unknown('%s: %s energies argument %s' % (tag, n.loc(), tail(arg)))
        return
    B = list(bases)[0]
    if any(i is not cint(0) for _, i in bs):
        R.bad('%s: energies' % tag, 'the energies passed to the modifier do not start at the first element: %s' % ', '.join(tail(i) for _, i in bs), [n.where()])
        return
    outer = set(d.id for d in data)
    em, _ = emissions(g)
    here = []
    for e in em:
        loops = set(h.id for h in loops_of(g, e.n))
        if outer and not outer <= loops:
            continue
        vs = set()
        for x in subterms(nconj(e.v) if not is_conj(e.v) else e.v):
            if x.op == 'elem' and x.a[1].op == 'lv':
                vs.add(base_of(x.a[0]))
        here.append((e, vs))
    same = [e for e, vs in here if B in vs]
    other = [e for e, vs in here if vs and B not in vs]
    if not same:
        if other:
            R.bad('%s: result' % tag, 'the matrix elements are not read from the energies which the modifier changed', [n.where(), other[0].n.where()])
        else:
            R.unknown('%s: %s use of the energies' % (tag, n.loc()))
        return
    S = Search(g)
    refill = [m for m in g.nodes if m.kind in ('mut', 'write') and m.get('place') is not None and m.place.op in PLACE_OPS and base_of(deref(m.place)) is B
              and not (m.kind == 'mut' and m.method == 'usercall')]
    p = S.find([n], goal=lambda x: x in refill, avoid=lambda x: x.id in outer) if refill else None
    if p:
        R.bad('%s: result' % tag, 'the energies are overwritten after the modifier changed them', [n.where(), p[-1].where()])
        return
    # emission happens after the modifiers of the same data item
    q = S.find([same[0].n], goal=lambda x: x is n, avoid=lambda x: x.id in outer)
    r = S.find([n], goal=lambda x: x is same[0].n, avoid=lambda x: x.id in outer)
    if q and not r:
        R.bad('%s: result' % tag, 'the matrix elements are written before the modifier is applied', [n.where(), same[0].n.where()])
    elif r:
        R.ok('%s: %s the matrix elements are the energies left by the modifiers' % (tag, n.loc()))
    else:
        R.unknown('%s: %s modifier and matrix elements' % (tag, n.loc()))


def deref(p):
    while p.op in ('deref', 'sub') and isinstance(p.a[0], T):
        p = p.a[0]
    return p


def hopping_args(R, tag, w, g, n, h):
    a = [x for x in n.args if isinstance(x, T)]
    if len(a) != 4:
        R.unknown('%s: %s arguments' % (tag, n.loc()))
        return
    data = [x for x in loops_of(g, n) if x is not h]
    energies_reach(R, tag, w, g, n, a[0], data)
    ni = names_index(w, a[3], 'hopping_registry')
    fam = set(l for x in ni for l in lids(w, x))
    writes = [m for m in g.nodes if m.kind == 'write' and m.place.op == 'elem' and m.id in set().union(*[body_of(g, d) for d in data[:1]])] if data else []
    counts = []
    for arg, side, what in ((a[1], 'row', 'source positions'), (a[2], 'col', 'destination positions')):
        segs = components(R, tag, n, arg, what)
        if segs is None:
            R.unknown('%s: %s %s %s' % (tag, n.loc(), what, tail(arg)))
            continue
        got = 0
        for k, s in sorted(segs.items()):
            counts.append(s.a[3])
            if s.a[2] is not cint(0):
                R.bad('%s: %s' % (tag, what), 'the %s passed to the modifier start at %s' % (what, tail(s.a[2])), [n.where()])
            base = base_of(deref(s.a[0]))
            for m in writes:
                if base_of(m.place) is base:
                    got += position_write(R, tag, w, g, m, k, side, what, fam, n)
        if not got:
            R.unknown('%s: %s writes of the %s' % (tag, n.loc(), what))
    if counts and all(c is counts[0] for c in counts):
        R.ok('%s: %s both position arrays have the same length' % (tag, n.loc()))
    elif counts:
        R.bad('%s: lengths' % tag, 'the source and destination positions have different lengths', [n.where()])


def position_write(R, tag, w, g, m, k, side, what, fam, n):
    key = '%s: %s' % (tag, what)
    v = m.value
    if v.op == 'elem' and v.a[1].op == 'c':
        if 'xyz'[v.a[1].a[0]:v.a[1].a[0] + 1] != k:
            R.bad(key, 'component %s of the %s is taken from component %s' % (k, what, show(v.a[1])), [m.where()])
            return 1
        v = v.a[0]
    ps = [x for x in subterms(v) if x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[1] in COMP and 'positions' in fld_path(x.a[0])[1]]
    if not ps:
        return 0
    coo = {}
    for x in ps:
        for c, pl in coo_of(x.a[1]).items():
            coo.setdefault(c, set()).update(pl)
    if set(coo) != {side}:
        R.bad(key, 'the %s passed to the modifier are those of the %s site of the hopping' % (what, '/'.join(sorted(coo)) or '?'), [m.where()])
        return 1
    where = list(coo[side])[0]
    # same place in the buffer as the hopping in the slice
    il, cl = lids(w, m.place.a[1]), set(x.a[0] for x in subterms(where) if x.op == 'lv')
    i = m.place.a[1]
    if i.op == 'lv' and counter(w, i) is cint(0) and il & cl:
        R.ok('%s: %s %s in the order of the hoppings' % (tag, m.loc(), k))
    else:
        R.unknown('%s: %s buffer index %s' % (tag, m.loc(), tail(i)))
    bl = set(x.a[0] for x, _ in containers(w, where, 'hopping_blocks'))
    if bl and fam:
        if bl & fam:
            R.ok('%s: %s positions and name of the same hopping block' % (tag, m.loc()))
        else:
            R.bad(key, 'the positions belong to another hopping block than the name passed to the modifier', [m.where(), n.where()])
    # boundary shift
    bn = [c for _, c in containers(w, where, 'hopping_blocks') if 'boundaries' in fld_path(c)[1]]
    sh = [x for x in subterms(v) if x.op == 'fld' and x.a[1] == 'shift']
    if not bn:
        if sh:
            R.bad(key, 'the %s of a hopping inside the system are shifted' % what, [m.where()])
        return 1
    b = elem_index(bn[0], 'boundaries')
    if side == 'row':
        if sh:
            R.bad(key, 'the %s across a boundary are shifted (the destination should be)' % what, [m.where()])
        return 1
    if not sh:
        R.bad(key, 'the %s of a hopping across a boundary are not shifted to the neighbouring unit' % what, [m.where()])
        return 1
    if set(elem_index(x, 'boundaries') for x in sh) != {b}:
        R.bad(key, 'the %s are shifted by another boundary' % what, [m.where()])
        return 1
    neg = [x for x in subterms(v) if x.op == 'mul' and any(y.op == 'c' and y.a[0] == -1 for y in x.a) and any(y in x.a for y in sh)]
    if neg:
        R.ok('%s: %s shifted by its own boundary' % (tag, m.loc()))
    elif any(x.op == 'add' and any(y in x.a for y in sh) for x in subterms(v)):
        R.bad(key, 'the %s are shifted in the wrong direction' % what, [m.where()])
    else:
        R.unknown('%s: %s shift %s' % (tag, m.loc(), tail(v)))
    return 1


def structure_args(R, tag, w, g, n, data, lv):
    a = [x for x in n.args if isinstance(x, T)]
    inner = [d for d in data if d.id in body_of(g, head_of(g, lv.a[0]))]
    name = a[-1] if len(a) >= 2 else None
    if name is None:
        R.ok('%s: %s generator gets the system' % (tag, n.loc()))
        return
    cart = a[-2]
    segs = components(R, tag, n, cart, 'positions')
    if segs is None:
        R.unknown('%s: %s positions argument' % (tag, n.loc()))
        return
    ranges = set((s.a[2], s.a[3]) for s in segs.values())
    if len(a) == 3:
        st = segment_of(a[0])
        if len(st) == 1:
            if (st[0].a[2], st[0].a[3]) in ranges:
                R.ok('%s: %s states and positions of the same sites' % (tag, n.loc()))
            else:
                R.bad('%s: states' % tag, 'the states and positions passed to the modifier belong to different sites', [n.where()])
        else:
            R.unknown('%s: %s states argument' % (tag, n.loc()))
    if names_index(w, name, 'site_registry'):
        same_sub(R, tag, w, n, list(segs.values()), name, 'positions')
    else:
        st, ln = list(ranges)[0]
        nl = set(x.a[0] for x in subterms(name) if x.op == 'lv')
        sl = set(x.a[0] for x in subterms(st) if x.op == 'lv')
        ll = set(x.a[0] for x in subterms(ln) if x.op == 'lv')
        mixed = [x for x in subterms(st) if x.op == 'eq' and len(set(k for y in x.a for z in subterms(y) if z.op == 'fld'
                                                                      for k in [z.a[1]] if k in ('unique_id', 'alias_id'))) > 1]
        if mixed:
            R.bad('%s: positions and name' % tag, 'the sites of the sublattice are looked up by a different kind of id: %s' % tail(mixed[0]), [n.where()])
        elif nl and nl & sl and (nl & ll or not ll - sl):
            R.ok('%s: %s positions and name of the same sublattice' % (tag, n.loc()))
        elif nl and sl and not nl & sl:
            R.bad('%s: positions and name' % tag, 'the positions passed to the modifier do not belong to the sublattice whose name is passed', [n.where()])
        else:
            R.unknown('%s: %s positions of sublattice' % (tag, n.loc()))
    for d in inner:
        v, t = loop_cover(w, g, d)
        if v == 'ok':
            R.ok('%s: %s all sublattices' % (tag, d.loc()))
        elif v == 'bad':
            R.bad('%s: sublattices' % tag, 'the modifier is not applied to all sublattices: the loop %s' % t, [d.where()])
        else:
            R.unknown('%s: %s sublattice loop: %s' % (tag, d.loc(), t))
        s = skips(g, d, [n])
        if s is None:
            R.ok('%s: %s no sublattice skipped' % (tag, d.loc()))
        elif s[1] and not all(about_empty(c, l) for c, l in s[1][-1:]):
            R.bad('%s: sublattices' % tag, 'the modifier can be skipped for a sublattice', [n.where()] + describe(s[0], 10))


def kind_of(fid):
    m = re.search(r'Storage(?:I|<)(?:NS_|cpb::)?\d*([A-Za-z]+?)E(?:E|\d)', fid)
    return m.group(1) if m else fid


def structure(P, R, f, w, g, idom, us):
    """all structure modifiers: [begin, first generator) on the foundation, the rest on the system"""
    loops = {}
    for n, kind, cont, idx in us:
        h, lv = modloop(g, idx)
        if h is not None:
            loops.setdefault(h.id, (h, lv, []))[2].append(n)
    hs = sorted(loops.values(), key=lambda x: x[0].id)
    nm = sig(f).split('(')[0]
    R.count('modifier_loops', len(hs))
    parts = []
    for h, lv, ns in hs:
        inf = w.lvinfo.get(lv)
        a = pos_of(inf[0]) if inf else None
        st = SUB(pos_of(inf[1]), lv) if inf and len(inf) > 1 and pos_of(inf[1]) is not None else None
        bs = []
        for b in bound_of(g, h, lv):
            bs.append(pos_of(b) or b)
        body = body_of(g, h)
        ex = [x for x in g.nodes if x.id in body and x.kind == 'branch' and any(m.id not in body and not only_throws(g, m) for m, _ in x.succ)]
        if a is None or st is None or len(bs) != 1:
            R.unknown('%s: loop %s over the structure modifiers' % (nm, h.loc()))
            return
        if len(ex) > 1:
            R.bad('%s: structure modifiers' % nm, 'the loop over the structure modifiers can be left early', [x.where() for x in ex])
        if st is not cint(1):
            R.bad('%s: structure modifier order' % nm, 'the structure modifiers are visited with step %s' % show(st)[:40], [h.where()])
            return
        parts.append((a, bs[0], h))
    # the parts follow each other and cover the container
    cur = cint(0)
    okc = True
    for a, b, h in parts:
        if a is not cur:
            if contains(a, lambda y: y.op == 'findpos') or a.op in ('c', 'add', 'findpos'):
                R.bad('%s: structure modifiers' % nm, 'the structure modifiers between %s and %s are not applied (or applied twice)'
                      % (tail(cur, 50), tail(a, 50)), [h.where()])
            else:
                R.unknown('%s: start %s' % (nm, tail(a)))
            okc = False
        cur = b
    if okc:
        if cur.op == 'endpos' or cur.op == 'size':
            R.ok('%s: the %d loops over the structure modifiers cover all of them in order' % (nm, len(parts)))
        elif cur.op in ('findpos', 'add', 'c'):
            R.bad('%s: structure modifiers' % nm, 'the structure modifiers after %s are not applied' % tail(cur, 60), [parts[-1][2].where()])
        else:
            R.unknown('%s: end %s' % (nm, tail(cur)))
    # order of the loops: every path runs them in this order
    for (a1, b1, h1), (a2, b2, h2) in zip(parts, parts[1:]):
        p = Search(g).find([h2], goal=lambda x: x is h1)
        if p:
            R.bad('%s: structure modifier order' % nm, 'later structure modifiers are applied before earlier ones', [h1.where(), h2.where()])
    # every kind of modifier reaches its user function
    for (a, b, h), (_, _, ns) in zip(parts, hs):
        body = body_of(g, h)
        excl = set(kind_of(y.a[2]) for y in subterms(b) if y.op == 'dynis') if b.op == 'findpos' else set()
        ids = set(x.id for x in ns)
        for e in g.nodes:
            if e.kind == 'enter' and e.id in body and 'StructureModifier::Storage' in e.fn and e.fid:
                T_ = kind_of(e.fid)
                ctx = '%s: %s at %s' % (nm, T_, h.loc())
                if T_ in excl:
                    R.ok('%s: not visited by this loop' % ctx)
                    continue
                lv_ = set(h2.id for h2 in g.nodes if h2.kind == 'loop' and h2 is not h and h2.id in body and body_of(g, h2) & ids)
                p = Search(g).find([e], goal=lambda x: x.kind == 'leave' and x.fid == e.fid, avoid=lambda x: x.id in ids or x.id in lv_)
                if p:
                    R.bad(ctx.replace(h.loc(), 'loop %d' % [x[2] for x in parts].index(h)), 'a %s is not applied here although it can occur' % T_, describe(p, 8))
                else:
                    R.ok('%s: always reaches the user function' % ctx)
    # foundation modifiers precede the construction of the system arrays
    if len(parts) > 1:
        pops = [x for x in g.nodes if x.kind == 'enter' and x.fn.endswith('detail::populate_system')]
        for x in pops:
            bad = [h for a, b, h in parts[:1] if Search(g).find([x], goal=lambda y: y is h)]
            late = [h for a, b, h in parts[1:] if Search(g).find([h], goal=lambda y: y is x)]
            if bad or late:
                R.bad('%s: structure modifier order' % nm, 'the system is populated before the foundation modifiers or after the system modifiers',
                      [x.where()])
            else:
                R.ok('%s: populate_system between foundation and system modifiers' % nm)


def bypass(R, f, w, g, us, qn):
    """paths which do not apply the modifiers require that there are none"""
    nm = sig(f).split('(')[0]
    em, _ = emissions(g)
    kinds = {'onsite': [], 'hopping': []}
    for e in em:
        kinds['hopping' if coo_of(e.r) or coo_of(e.c) else 'onsite'].append(e)
    want = ['hopping'] if qn.endswith('h1') else ['onsite', 'hopping']
    for kind in want:
        calls = [x for x in us if x[1] == kind]
        if not calls:
            R.bad('%s: %s modifiers' % (nm, kind), 'no call of the %s modifiers reaches %s' % (kind, nm), [])
            continue
        mheads = set()
        outer = set()
        for n, k, cont, idx in calls:
            h, lv = modloop(g, idx)
            if h is not None:
                mheads.add(h.id)
            for x in loops_of(g, n):
                outer.add(x.id)
        conts = set(c for _, _, c, _ in calls)

        def empty_edge(a, b, lab, conts=conts):
            if a.kind != 'branch':
                return False
            return implies_empty(a.cond, lab, conts)
        S = Search(g)
        bad = 0
        for e in kinds[kind]:
            loops = loops_of(g, e.n)
            p = S.find([g.entry], goal=lambda x: x is e.n, avoid=lambda x: x.id in mheads, avoid_edge=empty_edge)
            if p and not any(n.id in mheads for n in p):
                facts = path_facts(p)
                R.bad('%s: %s modifiers bypassed' % (nm, kind), 'a matrix element is written without applying the %s modifiers although there may be some' % kind,
                      [e.n.where()] + describe(p, 12))
                bad = 1
                break
        if not bad:
            R.ok('%s: no %s element without the modifiers' % (nm, kind))
        # no early exit before any element
        p = S.find([g.entry], goal=lambda x: x.kind == 'exit', avoid=lambda x: x.id in outer, avoid_edge=empty_edge)
        if p:
            R.bad('%s: %s modifiers bypassed' % (nm, kind), 'the %s modifiers are not applied at all on a path where there may be some' % kind, describe(p, 12))
        else:
            R.ok('%s: the %s modifiers are left out only if there are none' % (nm, kind))


def implies_empty(c, lab, conts):
    while c.op == 'not':
        c, lab = c.a[0], not lab
    if c.op == 'and' and lab is True or c.op == 'or' and lab is False:
        return any(implies_empty(x, lab, conts) for x in c.a)
    if c.op == 'eq':
        sz = [x for x in c.a if x.op == 'size' and any(x.a[0] is k for k in conts)]
        z = [x for x in c.a if x.op == 'c' and x.a[0] == 0]
        if sz and z:
            return lab is True
        # iteration: begin == end
    return False


def appended(P, R):
    """Model::add puts a new modifier at the end of its container"""
    n = 0
    for f in methods(P, 'cpb::Model', const=False):
        if f.decl.n != 'add' or f.b is None:
            continue
        pt = f.decl.params[0].strip_ref() if f.decl.params else None
        s = (pt.s if pt is not None else '') or ''
        if not re.search(r'Modifier|Generator', s):
            continue
        n += 1
        try:
            w = Walker(P, inline_pred=lambda fn: fn.decl is not None and (fn.decl.cls or '') in ('cpb::Model',))
            g = w.run(f)
        except Incomplete as e:
            R.unknown('%s: %s' % (sig(f), e))
            continue
        ins = [x for x in g.nodes if x.kind == 'mut' and x.method in ('push_back', 'emplace_back', 'insert', 'emplace', 'push_front')
               and fld_path(x.place)[0] is THIS and last_field(x.place) not in ('names', 'energies')]
        if not ins:
            R.unknown('%s: no insertion found' % sig(f))
            continue
        wrong = [x for x in ins if x.method in ('push_front',) or x.method in ('insert', 'emplace') and any(
            isinstance(y, T) and y.op == 'iter' and y.a[1] is cint(0) for y in x.args)]
        if wrong:
            R.bad('%s: order' % sig(f), 'a new modifier is inserted before the existing ones', [wrong[0].where()])
        elif all(x.method in ('push_back', 'emplace_back') for x in ins):
            S = Search(g)
            p = S.find([g.entry], goal=lambda x: x.kind == 'exit', avoid=lambda x: x in ins)
            q = S.find([ins[0]], goal=lambda x: x in ins)
            if p:
                R.bad('%s: dropped' % sig(f), 'an accepted modifier is not stored', describe(p, 10))
            elif q:
                R.bad('%s: twice' % sig(f), 'a modifier is stored twice', describe(q, 10))
            else:
                R.ok('%s: appended once' % sig(f))
        else:
            R.unknown('%s: insertion %s' % (sig(f), [x.method for x in ins]))
    R.need(n, 'Model::add overloads for modifiers')
