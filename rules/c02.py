"""Replacing the model/Hamiltonian of a solver or KPM object, and re-targeting the optimized Hamiltonian."""
from common import *

LEVEL = 'other'
RULE = ('(a) Every field that a constructor derives from the given model/Hamiltonian is, on every normal path of the '
        'corresponding setter, overwritten with a value that mentions the new one and no field derived from the old one. '
        '(b) In every history setter;accessor (and constructor;accessor) of the exact solver, no path reads eigenvalues or '
        'eigenvectors from the strategy without solving first. (c) Every path through the KPM matrix optimization that '
        'keeps the previous optimized matrix has established equality of all source and destination indices, and every '
        'other path rewrites the matrix, the indices, the scalar tag and (when reordering) the index map and slice map.')
EXPLAIN = 'Static dataflow on inlined flow graphs; counts are obligations of this run.'


def leaves(t, facts, depth=0):
    """(facts, leaf) pairs of a gated value"""
    if t.op == 'sel' and depth < 14:
        c = ev(t.a[0], facts)
        out = []
        for pol, x in ((True, t.a[1]), (False, t.a[2])):
            if c is not None and c is not pol:
                continue
            f = learn(facts, t.a[0], pol)
            if f is not None:
                out += leaves(x, f, depth + 1)
        return out
    if t.op == 'phi':
        return [y for x in t.a for y in leaves(x, facts, depth + 1)]
    return [(facts, t)]


def user_ctor(P, cls):
    l = [f for f in P.fns.values() if f.decl is not None and f.decl.ctor and f.decl.cls == cls
         and not f.decl.copyctor and not f.decl.movector and not f.decl.implicit]
    if not l:
        raise driver.CheckError('anchor missing: constructor of ' + cls)
    return l[0]


def top_fields(P, cls):
    r = P.rec(cls)
    if r is None:
        raise driver.CheckError('anchor missing: ' + cls)
    return [f['n'] for f in r.fields]


OPQ = {'cpb::Model::hamiltonian', 'cpb::Model::eval', 'cpb::Model::system', 'cpb::Model::leads'}


def refresh(P, R, cls, setter, skip=()):
    def inl(fn):
        return fn.qn not in OPQ
    c = user_ctor(P, cls)
    s = one(P, cls + '::' + setter)
    w = Walker(P, inline_pred=inl)
    w.srcname = c.p[0]['n']
    g = w.run(c)
    src = mk('root', 'param', 0, c.p[0]['n'])
    fields = top_fields(P, cls)
    w.st.env = g.final_env
    cval = {f: w.read(FLD(THIS, f)) for f in fields}
    # configuration parameters are stored in fields: express constructor values over those fields
    back = {}
    todo = [(k, v) for k, v in g.final_env.items() if of_this(k)]
    while todo:
        k, v = todo.pop()
        if v.op == 'obj':
            todo += [(FLD(k, x[0]), x[1]) for x in v.a[1:] if isinstance(x[0], str)]
        elif v.op == 'root' and v is not src and v.a[0] == 'param':
            back[v] = k

    def ren(t):
        return subst(t, lambda x: back.get(x))
    derived = [f for f in fields if any(x is src for x in deep(w, cval[f]))]
    R.need(derived, 'fields of %s derived from its model' % cls)
    w2 = Walker(P, inline_pred=inl)
    g2 = w2.run(s)
    new = mk('root', 'param', 0, s.p[0]['n'])
    R.need(g2.final_env is not None, cls + '::' + setter + ' returns')
    w2.st.env = g2.final_env
    R.count('derived_fields', len(derived))

    def model_dep(o):
        w.st.env = g.final_env
        p = THIS
        for n in o:
            p = FLD(p, n)
        return any(y is src for y in deep(w, w.read(p)))
    for f in derived:
        if f in skip:
            continue
        item = '%s::%s re-derives %s' % (cls.replace('cpb::', ''), setter, f)
        v = w2.read(FLD(THIS, f))
        key = 'kept:%s:%s' % (cls, f)
        bad = None
        stack = [(dict(), v)]
        while stack and bad is None:
            facts, t = stack.pop()
            for fs, leaf in leaves(t, facts):
                if leaf.op == 'obj':
                    # an object with individually tracked members
                    for x in leaf.a[1:]:
                        stack.append((fs, x[1]))
                    if leaf.a[0].op in PLACE_OPS and of_this(leaf.a[0]) and of_this(leaf.a[0])[0] in derived:
                        b = leaf.a[0]
                        # members that were not rewritten keep their old content
                        tracked = {x[0] for x in leaf.a[1:]}
                        bad = (fs, b, tracked) if not full_obj(P, cls, b, tracked, g, w) else bad
                    continue
                ps = [p for p in deep_places(w2, leaf)]
                old = [p for p in ps if of_this(p) and of_this(p)[0] in derived and model_dep(of_this(p))]
                if not old:
                    continue
                # keeping a member is fine where the constructor would not have used the model for it
                o = of_this(leaf) if leaf.op in PLACE_OPS else None
                if o:
                    w.st.env = g.final_env
                    p = THIS
                    for n in o:
                        p = FLD(p, n)
                    cv = ren(w.read(p))
                    if all(not any(y is src for y in deep(w, l)) for ff, l in leaves(cv, {}) if compatible(ff, fs)):
                        continue
                bad = (fs, leaf, None)
                break
        if bad:
            R.bad(key, 'after %s::%s the member %s can still be (or be computed from) the one built for the previous '
                       'model: %s' % (cls, setter, f, show(bad[1])[:200]))
        elif not any(y is new for y in deep(w2, v)):
            R.bad(key, 'after %s::%s the member %s does not depend on the new model' % (cls, setter, f))
        else:
            R.ok(item)


def compatible(a, b):
    f = dict(b)
    for t, v in a.items():
        f = learn(f, t, v)
        if f is None:
            return False
    return True


def full_obj(P, cls, base, tracked, g, w):
    """do the individually rewritten members of the object at `base` cover what the constructor derives from the model?"""
    o = of_this(base)
    r = P.rec(cls)
    for n in o:
        t = next((f['t'] for f in (r.fields if r else []) if f['n'] == n), None)
        r = P.rec(t.short) if t is not None and t.short else None
    if r is None:
        return False
    need = set()
    w.st.env = g.final_env
    params = set()
    for f in r.fields:
        p = THIS
        for n in o:
            p = FLD(p, n)
        v = w.read(FLD(p, f['n']))
        if any(y.op == 'root' and y.a[0] == 'param' and y.a[2] == w.srcname for y in deep(w, v)):
            need.add(f['n'])
    return need <= {t for t in tracked if isinstance(t, str)}


def part_refresh(P, R):
    refresh_all = (('cpb::kpm::Core', 'set_hamiltonian', ()), ('cpb::KPM', 'set_model', ()),
                   ('cpb::BaseSolver', 'set_model', ('strategy',)))
    for cls, setter, skip in refresh_all:
        refresh(P, R, cls, setter, skip)


def strat(n):
    return (n.d.get('fn') or n.d.get('callee') or '') if n.kind in ('call', 'vcall', 'usercall') else ''


def part_solver(P, R):
    S_ = 'cpb::SolverStrategy::'
    cls = 'cpb::BaseSolver'

    def inl(fn):
        return fn.qn not in OPQ and not fn.qn.startswith(S_)
    setter = one(P, cls + '::set_model')
    new = mk('root', 'param', 0, setter.p[0]['n'])
    g = Walker(P, inline_pred=inl).run(setter)
    w = g.walker
    S = Search(g)

    def fresh_h(n):
        return any(isinstance(a, T) and any(y is new for y in deep(w, a)) for a in (n.d.get('args') or ()))
    R.need(any(strat(n) == S_ + 'change_hamiltonian' or n.kind == 'usercall' for n in g.nodes),
           'solver strategy replacement in set_model')
    stores = {n.id for n in g.nodes if n.kind in ('write', 'init') and of_this(n.place) == ('strategy',)
              and any(y is new for y in deep(w, n.value))}
    if not stores:
        R.bad('strategy:never', 'set_model never installs a strategy built from the new model')

    def accepted(n, m, lab):
        # the strategy itself confirmed that it took the new Hamiltonian
        if n.kind != 'branch' or lab is not True:
            return False
        c = n.cond
        return c.op == 'call' and str(c.a[0]) == S_ + 'change_hamiltonian' and any(y is new for y in deep(w, c))
    p = S.find([g.entry], goal=lambda n: n.kind == 'exit', avoid=lambda n: n.id in stores, avoid_edge=accepted)
    if p is None:
        R.ok('set_model: on every path the strategy accepts the new Hamiltonian or is rebuilt from it')
    else:
        R.bad('strategy:stale', 'set_model can return while the strategy still holds the previous Hamiltonian', describe(p))
    # result accessors only after a solve
    reads = (S_ + 'eigenvalues', S_ + 'eigenvectors')
    ctor = user_ctor(P, cls)
    muts = [('construction', ctor), ('set_model', setter)]
    clr = P.fn(cls + '::clear')
    if clr:
        muts.append(('clear', clr[0]))
    acc = [f for f in methods(P, cls, const=None) if f.decl.n not in ('solve', 'clear', 'set_model', 'report')]
    nacc = 0
    for name, m in muts:
        for a in acc:
            g = Walker(P, inline_pred=inl).run_seq([m, a], THIS)
            if len(g.marks) < 2:
                continue
            if not any(strat(n) in reads for n in g.nodes):
                continue
            nacc += 1
            S = Search(g)
            # start right after the mutator: facts learned from it matter
            p = S.find([g.entry], goal=lambda n: strat(n) in reads, via=lambda n: n is g.marks[1],
                       avoid=lambda n: strat(n) == S_ + 'solve')
            item = 'after %s, %s solves before reading results' % (name, sig(a))
            if p is None:
                R.ok(item)
            else:
                R.bad('unsolved:%s:%s' % (name, a.decl.n),
                      'after %s, %s can return results of an earlier solve' % (name, sig(a)), describe(p))
    R.need(nacc >= 4, 'solver result accessors')
    # "solved" may only be recorded after solving
    sv = one(P, cls + '::solve')
    g = Walker(P, inline_pred=inl).run(sv)
    S = Search(g)
    p = S.find([g.entry], goal=lambda n: n.kind == 'write' and of_this(n.place) and n.value is TRUE,
               avoid=lambda n: strat(n) == S_ + 'solve')
    if p is None:
        R.ok('solve records completion only after the strategy has solved')
    else:
        R.bad('solved-early', 'the solved flag is set before the strategy has solved: a failing solve is then taken as '
                              'complete', describe(p))


def part_optimize(P, R):
    cls = 'cpb::kpm::OptimizedHamiltonian'
    fn = one(P, cls + '::optimize_for')
    w = Walker(P)
    g = w.run(fn)
    S = Search(g)
    R.count('nodes', len(g.nodes))

    def role(acc, unwrap=None):
        """field returned by a public accessor"""
        f = [x for x in P.fn(cls + '::' + acc)]
        if not f:
            return None
        h = Walker(P).run(f[0])
        r = h.result[1]
        o = of_this(r) if r.op in PLACE_OPS else None
        if not o:
            for p in places_in(r):
                o = of_this(p)
                if o:
                    break
        return o[0] if o else None
    fmat, fidx, fmap, ftag = role('matrix'), role('idx'), role('map'), role('scalar_tag')
    R.need(fmat and fidx, 'accessors matrix()/idx() of the optimized Hamiltonian')
    # reorder map: the field consulted by reorder()
    frm = None
    for f in P.fn(cls + '::reorder'):
        h = Walker(P).run(f)
        for n in h.nodes:
            if n.kind == 'branch':
                for p in places_in(n.cond):
                    o = of_this(p)
                    if o:
                        frm = frm or o[0]
    idxp = mk('root', 'param', 0, fn.p[0]['n'])
    scp = mk('root', 'param', 0, fn.p[1]['n'])

    def writes(f):
        return {n.id for n in g.nodes if n.kind in ('write', 'mut', 'init') and isinstance(n.place, T)
                and of_this(n.place) and of_this(n.place)[0] == f}
    wm = writes(fmat)
    R.need(wm, 'stores of the optimized matrix')
    # 1. the skip path
    want = {('src', 'size'), ('src', 'all'), ('dest', 'size'), ('dest', 'all')}
    cols = {}

    def fact_of(c):
        """which index equality a condition establishes"""
        s = set()
        for x in ('src', 'dest'):
            if not any(p.op == 'fld' and p.a[1] == x for p in places_in(c)):
                continue
            ip = FLD(idxp, x)
            mine = [p for p in places_in(c) if p.op == 'fld' and p.a[1] == x and root_of(p) is THIS]
            if not mine or not any(p is ip for p in places_in(c)):
                continue
            if c.op == 'eq' and all(y.op in ('size', 'rows', 'cols') for y in c.a):
                s.add((x, 'size'))
            elif c.op == 'call' and str(c.a[0]).endswith('::all') and c.a[1].op == 'eq':
                s.add((x, 'all'))
            elif c.op == 'eq' and c.a[0].op in PLACE_OPS and c.a[1].op in PLACE_OPS and {c.a[0], c.a[1]} == {ip, mine[0]}:
                s |= {(x, 'size'), (x, 'all')}
            elif c.op == 'call' and ('isApprox' in str(c.a[0]) or 'equal' in str(c.a[0])):
                s |= {(x, 'all')}
        return s
    ok = True
    # look for a path to the exit that keeps the matrix while missing one of the equalities
    for wfact in sorted(want):
        edges = lambda n, m, lab: n.kind == 'branch' and lab is True and wfact in fact_of(n.cond)
        p = S.find([g.entry], goal=lambda n: n.kind == 'exit', avoid=lambda n: n.id in wm, avoid_edge=edges)
        item = 'the previous optimized matrix is kept only if %s indices match (%s)' % wfact
        if p is None:
            R.ok(item)
        else:
            R.bad('reuse:%s:%s' % wfact,
                  'optimize_for can keep the previously optimized matrix without having compared the %s indices (%s)'
                  % wfact, describe(p))
    # the remembered indices are what the comparison uses
    cmpf = set()
    for n in g.nodes:
        if n.kind == 'branch' and fact_of(n.cond):
            for p in places_in(n.cond):
                if root_of(p) is THIS and of_this(p):
                    cmpf.add(of_this(p)[0])
    for f in cmpf:
        ws = {n.id for n in g.nodes if n.kind == 'write' and of_this(n.place) == (f,) and n.value is idxp}
        p = S.find([g.entry], goal=lambda n: n.kind == 'exit', via=lambda n: n.id in wm, avoid=lambda n: n.id in ws)
        if p is None:
            R.ok('after optimizing, %s records the requested indices' % f)
        else:
            R.bad('remember:%s' % f, 'optimize_for can return a newly optimized matrix without recording the indices it was '
                                     'built for in %s' % f, describe(p))
        # unmapped indices must not be remembered in place of the requested ones
        for n in g.nodes:
            if n.kind in ('write', 'init') and of_this(n.place) and of_this(n.place)[0] == f and n.value is not idxp:
                R.bad('remember-other:%s' % f, '%s is assigned something other than the requested indices at %s'
                      % (f, n.where()))
    # 2. everything is rewritten together
    reord = next((n.cond for n in g.nodes if n.kind == 'branch' and n.cond.op == 'fld' and of_this(n.cond)), None)
    groups = [(fidx, None)]
    if ftag:
        groups.append((ftag, None))
    if reord is not None:
        for f in (fmap, frm):
            if f:
                groups.append((f, reord))
    allw = set()
    for f, c in groups:
        allw |= writes(f)
    for f, c in groups:
        ws = {n.id for n in g.nodes if n.kind in ('write', 'init') and n.place is FLD(THIS, f)
              or n.kind == 'mut' and n.place is FLD(THIS, f) and n.method in ('assign', 'clear', 'swap', 'operator=')}
        p = S.find([g.entry], goal=lambda n: n.kind == 'exit', via=lambda n: n.id in wm,
                   avoid=lambda n: n.id in ws, facts={c: True} if c is not None else None)
        # the store may precede the matrix store: accept paths that already passed it
        if p is not None and any(x.id in ws for x in p):
            p = None
            pre_ = S.find([g.entry], goal=lambda n: n.id in wm, avoid=lambda n: n.id in ws,
                          facts={c: True} if c is not None else None)
            if pre_ is not None:
                p = S.find([pre_[-1]], goal=lambda n: n.kind == 'exit', avoid=lambda n: n.id in ws,
                           facts={c: True} if c is not None else None)
        item = 'every re-optimization%s rewrites %s' % (' with reordering' if c is not None else '', f)
        if p is None:
            R.ok(item)
        else:
            R.bad('partial:%s' % f, 'optimize_for can rewrite the matrix but keep the previous %s' % f, describe(p))
    # 3. the new matrix depends on the Hamiltonian and both scale factors; the new indices on the request
    for n in g.nodes:
        if n.id not in wm or n.kind != 'write':
            continue
        d = deep(w, n.value)
        has_h = any(x.op == 'fld' and root_of(x) is THIS and 'variant' in str(x.a[1]) or x.op == 'alt' for x in d)
        a = any(x.op == 'fld' and x.a[1] == 'a' and root_of(x) is scp for x in d)
        b = any(x.op == 'fld' and x.a[1] == 'b' and root_of(x) is scp for x in d)
        if has_h and a and b:
            R.ok('matrix stored at %s derives from the Hamiltonian and both scale factors' % n.loc())
        elif has_h:
            R.bad('scale:%s' % n.stack[-1][0], 'the optimized matrix stored at %s does not depend on the scale factor %s'
                  % (n.where(), 'a' if not a else 'b'))
        else:
            R.unknown('origin of the matrix stored at %s' % n.loc())
    for f in (fidx,):
        for n in g.nodes:
            if n.kind == 'write' and of_this(n.place) == (f,):
                if any(x is idxp or root_of(x) is idxp for x in deep(w, n.value) if x.op in PLACE_OPS):
                    R.ok('indices stored at %s derive from the request' % n.loc())
                else:
                    R.bad('indices:%s' % n.stack[-1][0], 'optimized indices stored at %s do not derive from the requested '
                          'indices' % n.where())


def part_bounds(P, R):
    fn = one(P, 'cpb::kpm::Bounds::scaling_factors')
    w = Walker(P, inline_pred=lambda f: 'compute::' not in f.qn)
    g = w.run(fn)
    S = Search(g)
    ws = {n.id for n in g.nodes if n.kind == 'write' and of_this(n.place) and of_this(n.place)[0] in ('min', 'max')}
    if not ws:
        R.unknown('energy bounds stores')
        return
    res = g.result[1]
    R.count('nodes', len(g.nodes))
    flds = set(of_this(n.place)[0] for n in g.nodes if n.id in ws)
    for n in g.nodes:
        if n.id in ws:
            ok = any(x.op == 'alt' or x.op == 'fld' and 'variant' in str(x.a[1]) for x in deep(w, n.value))
            (R.ok if ok else lambda i: R.bad('bounds:%s' % of_this(n.place)[0], i))(
                'energy bound %s stored at %s is computed from the object\'s own Hamiltonian' % (of_this(n.place)[0], n.loc()))


PARTS = [part_refresh, part_solver, part_optimize, part_bounds]
