"""Model cache coherence: mutator ; accessor histories."""
from common import *

LEVEL = 'other'
RULE = ('For every public mutator M and every cached accessor A of the model, the flow graph of the history M;A (with M '
        'and A inlined through the model, lead and Hamiltonian handle classes) has no feasible path on which M stores an '
        'input that A depends on and the accessor then returns without passing the code that rebuilds the cache; and '
        'every argument of M reaches a store on every normal path unless the path is taken only when the stored value '
        'already equals the argument.')
EXPLAIN = 'Static dataflow over inlined flow graphs of all mutator/accessor pairs; counts are obligations of this run.'
CLS = 'cpb::Model'
ACC = ['system', 'hamiltonian', 'leads']


def pred_for(P):
    """inline the model's own code, its field types' methods, closures and helpers defined next to them"""
    rec = P.rec(CLS)
    inl = {CLS} | {f['t'].short for f in rec.fields if f['t'] is not None and (f['t'].short or '').startswith('cpb::')}
    src = set()
    for f in P.fns.values():
        if f.decl is not None and f.decl.cls == CLS:
            src.add(f.file)
    src |= files_of(P, [P.rec('cpb::Leads'), P.rec('cpb::Hamiltonian')])

    def pred(fn):
        d = fn.decl
        c = d.cls if d is not None else None
        if c in inl or d is None or d.op == '()' or (c and 'lambda' in c):
            return True
        if fn.qn in ('cpb::ham::make', 'cpb::detail::populate_system'):
            return False
        return c is None and fn.file in src
    return pred


def conv(path):
    return '.'.join(path)


def collect_inputs(g, lo, hi):
    """this-places read (as values, operands or arguments) by nodes with lo <= id < hi"""
    out = set()
    for n in g.nodes:
        if not lo <= n.id < hi:
            continue
        for k in ('place', 'value', 'cond', 'objval'):
            v = n.d.get(k)
            if isinstance(v, T) and (k != 'place' or n.kind == 'read'):
                out.update(p for p in map(of_this, deep_places(g.walker, v)) if p)
        for v in (n.d.get('args') or ()):
            if isinstance(v, T):
                out.update(p for p in map(of_this, deep_places(g.walker, v)) if p)
        for v in (n.d.get('argplaces') or ()):
            if isinstance(v, T):
                p = of_this(v)
                if p:
                    out.add(p)
        o = n.d.get('obj')
        if isinstance(o, T) and n.kind in ('call', 'usercall'):
            p = of_this(o)
            if p:
                out.add(p)
    return out


def check(P, R):
    rec = P.rec(CLS)
    R.need(rec is not None, CLS)
    pred = pred_for(P)
    chrono = {f['n'] for f in rec.fields if f['t'] is not None and (f['t'].short or '') in ('cpb::Chrono',)}
    mutable = {f['n'] for f in rec.fields if f.get('mutable')}
    muts = methods(P, CLS, const=False)
    R.need(len(muts) >= 5, 'public mutators of the model')
    # ---- accessors alone: which stores are caches, which inputs they depend on
    A = {}
    for a in ACC:
        fn = [f for f in P.fn(CLS + '::' + a) if f.decl.const]
        R.need(fn, 'accessor ' + a)
        fn = fn[0]
        w = Walker(P, inline_pred=pred, record_reads=True)
        g = w.run_seq([fn], THIS)
        caches = {}
        for n in g.nodes:
            if n.kind in ('write', 'mut', 'init'):
                p = of_this(n.place)
                if p and p[0] in mutable and p[0] not in chrono:
                    if n.kind == 'write' and is_const(n.value):
                        continue       # flags
                    caches.setdefault(p, []).append(n)
        A[a] = (fn, g, caches)
    allcaches = set(c for a in A.values() for c in a[2])
    R.need(len(allcaches) >= 3, 'cached fields of the model')
    deps = {}
    for a, (fn, g, caches) in A.items():
        idom = dominators(g)
        for c, ns in caches.items():
            ids = {n.id for n in ns}
            # the guard: innermost branch that dominates a rebuild site and tests the cache itself
            reads = set()
            fwd = None
            for n in ns:
                ch = dom_chain(idom, n.id)
                guard = None
                for i in ch:
                    m = g.nodes[i]
                    if guard is None and m.kind == 'branch' and any(of_this(p) and pre(of_this(p), c[:1]) for p in places_in(m.cond)):
                        guard = m
                start = guard if guard is not None else g.entry
                r1 = reachable([start])
                r2 = reachable([n], succ='pred')
                r2.add(n.id)
                for i in (r1 & r2):
                    reads |= collect_inputs(g, i, i + 1)
                R.count('rebuild_sites')
            deps.setdefault(c, set()).update(reads)
    # caches read while rebuilding another cache pull in its inputs
    changed = True
    while changed:
        changed = False
        for c in deps:
            for r in list(deps[c]):
                for c2 in deps:
                    if c2 != c and pre(r, c2) and len(r) >= len(c2):
                        new = deps[c2] - deps[c]
                        if new:
                            deps[c] |= new
                            changed = True
    for c in deps:
        deps[c] = {r for r in deps[c] if r[0] not in chrono and not any(pre(r, x) and len(r) >= len(x) for x in allcaches)}
        R.items.append('cache %s depends on %s' % (conv(c), sorted(set(conv(r) for r in deps[c]))[:12]))
    # ---- histories
    for m in muts:
        if not m.p and not any(True for _ in [0]):
            continue
        for a, (fn, _, caches) in A.items():
            w = Walker(P, inline_pred=pred)
            g = w.run_seq([m, fn], THIS)
            if len(g.marks) < 2:
                R.unknown('%s never returns normally' % sig(m))
                continue
            cut = g.marks[1].id
            S = Search(g)
            R.count('histories')
            R.count('nodes', len(g.nodes))
            stores = {}
            for n in g.nodes[:cut]:
                if n.kind in ('write', 'mut', 'init'):
                    p = of_this(n.place)
                    if p and p[0] not in chrono and not any(pre(p, x) and len(p) >= len(x) for x in allcaches):
                        stores.setdefault(p, []).append(n)
            for c in caches:
                reb = set()
                for n in g.nodes[cut:]:
                    if n.kind in ('write', 'mut', 'init') and of_this(n.place) == c and not (
                            n.kind == 'write' and is_const(n.value)):
                        reb.add(n.id)
                reb |= loops_containing(g, reb) - set(range(cut))
                for p, ns in stores.items():
                    if not any(pre(p, d) for d in deps[c]):
                        continue
                    ids = {n.id for n in ns}
                    path = S.find([g.entry], goal=lambda n: n.kind == 'exit', via=lambda n: n.id in ids,
                                  avoid=lambda n: n.id in reb)
                    item = '%s stores %s; %s() then rebuilds %s' % (sig(m), conv(p), a, conv(c))
                    if path is None:
                        R.ok(item)
                    else:
                        R.bad('stale:%s:%s:%s' % (sig(m), a, conv(c)),
                              '%s changes %s but a following %s() can return the cached %s without rebuilding it'
                              % (sig(m), conv(p), a, conv(c)), describe(path))
    # ---- every argument takes effect
    for m in muts:
        if not m.p:
            continue
        w = Walker(P, inline_pred=pred)
        g = w.run_seq([m], THIS)
        S = Search(g)
        for prm in m.p:
            root = mk('root', 'param', 0, prm['n'])
            ids = set()
            for n in g.nodes:
                if n.kind in ('write', 'mut', 'init', 'call'):
                    pl = n.d.get('place') if n.kind != 'call' else n.d.get('obj')
                    if isinstance(pl, T) and of_this(pl) or n.kind == 'call':
                        vs = list(n.d.get('args') or ()) + [n.d.get('value')]
                        vs += [x for x in (n.d.get('argplaces') or ())]
                        if any(isinstance(v, T) and contains(v, lambda x: x is root) for v in vs):
                            if n.kind == 'call':
                                tgt = [n.d.get('obj')] + list(n.d.get('argplaces') or ())
                                if not any(isinstance(t, T) and of_this(t) for t in tgt):
                                    continue
                            ids.add(n.id)

            def same(n, mm, lab):
                if n.kind != 'branch' or n.cond.op != 'eq' or lab is not True:
                    return False
                x, y = n.cond.a
                for u, v in ((x, y), (y, x)):
                    if u is root and v.op in PLACE_OPS and of_this(v):
                        return True
                return False
            path = S.find([g.entry], goal=lambda n: n.kind == 'exit', avoid=lambda n: n.id in ids, avoid_edge=same)
            item = 'argument %s of %s takes effect on every normal path' % (prm['n'], sig(m))
            if path is None:
                R.ok(item)
                continue
            fs = [(c, l) for c, l in path_facts(path)]
            comp = set()
            for c, l in fs:
                if c.op == 'eq' and l:
                    for u in c.a:
                        if u.op in ('elem', 'fld') and u.a[0] is root:
                            comp.add(u.a[1])
            if len(comp) >= 3:
                R.ok(item)
                continue
            R.bad('ignored:%s:%s' % (sig(m), prm['n']),
                  'a normal path through %s never stores the argument %s although it may differ from the stored value'
                  % (sig(m), prm['n']), describe(path))
