"""Every Hamiltonian the model publishes is Hermitian."""
from emit import *

LEVEL = 'other'
RULE = ('Every write of a matrix element (row, col, value) into the Hamiltonian of a model or into the unit-cell Hamiltonian '
        'of a lead, on both build paths and in the periodic part, either is paired with a write of (col, row, conj(value)) '
        'executed in exactly the same cases, or ranges over a square block symmetrically. The onsite energy blocks stored in '
        'the lattice and in the site registry are made self-adjoint from one triangle and their diagonal is checked to be '
        'real, and num::conjugate is complex conjugation.')
EXPLAIN = ('Symbolic index and value terms of every emission in the inlined flow graph are compared after normalisation; '
           'pairing is a path query within the iteration.')
ASSUME = ['onsite modifiers return Hermitian blocks', 'setFromTriplets adds duplicates']

MAKERS = ['cpb::ham::make', 'cpb::leads::detail::make_h0']


def complex_instances(fs):
    out = []
    for f in fs:
        s = ' '.join(t.s for t in f.decl.targs if hasattr(t, 's')) + f.id
        if 'complex' in s:
            out.append(f)
    return out


def herm_emissions(P, R):
    n_em = 0
    for qn in MAKERS:
        fs = P.fn(qn)
        R.need(fs, qn)
        fs = complex_instances(fs) or fs
        f = sorted(fs, key=lambda f: f.id)[-1]
        try:
            w = Walker(P)
            g = w.run(f)
        except Incomplete as e:
            R.unknown('%s: %s' % (sig(f), e))
            continue
        R.count('graph_nodes', len(g.nodes))
        check_graph(R, sig(f), w, g)


def check_graph(R, name, w, g):
    em, odd = emissions(g)
    R.count('emissions', len(em))
    idom = dominators(g)
    adj = any(x.op in ('conj', 'sub', 'call') and 'adjoint' in str(x.a) for n in g.nodes if n.kind in ('write', 'mut', 'init')
              for t in [n.get('value')] if t is not None and t.size < 4000 for x in subterms(t))
    groups = {}
    for e in em:
        groups.setdefault(e.cont, []).append(e)
    for cont, es in groups.items():
        for e in es:
            where = '%s: (%s)' % (name, e.n.file.split('/')[-1] if e.n.file else '')
            if block_symmetric(w, g, e):
                R.ok('%s: %s symmetric block' % (name, e.n.loc()))
                continue
            sw = [x for x in es if x.r is e.c and x.c is e.r and x is not e and x.acc == e.acc]
            want = nconj(e.v, True)
            cj = [x for x in sw if nconj(x.v) is want]
            key = '%s: element at %s' % (name, describe_em(e))
            if cj:
                p = None
                for x in cj:
                    p = unpaired(g, idom, e.n, x.n)
                    if p is None:
                        break
                if p is None:
                    R.ok('%s: %s paired with %s' % (name, e.n.loc(), cj[0].n.loc()))
                else:
                    R.bad(key, 'the conjugate element is not written in all the cases in which the element is',
                          [e.n.loc()] + describe(p, 20))
            elif sw:
                R.bad(key, 'the transposed element written at %s does not hold the complex conjugate value: %s against %s'
                      % (sw[0].n.loc(), show(sw[0].v)[:140], show(e.v)[:140]), [e.n.where(), sw[0].n.where()])
            elif adj:
                R.unknown('%s: %s the matrix is combined with its adjoint' % (name, e.n.loc()))
            else:
                near = [x for x in es if x is not e]
                R.bad(key, 'no write of the conjugate transposed element accompanies it: (%s, %s)'
                      % (show(e.r)[:90], show(e.c)[:90]), [e.n.where()] + [repr(x)[:200] for x in near][:4])


def describe_em(e):
    fn = e.n.stack[-1][0] if e.n.stack else '?'
    return '%s in %s' % (e.n.file.split('/')[-1] if e.n.file else '', fn)


def block_symmetric(w, g, e):
    """row = i + X, col = j + X with i and j running over the same range"""
    lr, lc = lvs(e.r), lvs(e.c)
    for i in lr:
        for j in lc:
            if i is j:
                continue
            if SUB(e.r, i) is SUB(e.c, j) and same_range(w, g, i, j):
                return True
    return False


def unpaired(g, idom, a, b):
    """a path through one iteration (or the function) that passes a but not b; None when a implies b"""
    L = innermost(g, a)
    head, body = L if L else (g.entry, None)
    if b.id in dom_chain(idom, a.id) and (body is None or b.id in body):
        return None
    S = Search(g)

    def goal(n):
        return n is head or n.kind == 'exit' or (body is not None and n.id not in body and n.kind not in ('exitthrow', 'throw', 'maythrow'))
    return S.find([a], goal=goal, avoid=lambda n: n is b)


def onsite_storage(P, R):
    """energies of sites are stored self-adjoint, with a real diagonal"""
    targets = []
    for f in methods(P, 'cpb::Lattice', const=False):
        if f.decl.n == 'add_sublattice':
            targets.append(f)
    for f in P.fn('cpb::Registry::register_family'):
        if 'SiteID' in (f.id + ''.join(t.s for t in f.decl.targs if hasattr(t, 's')) + (f.decl.clst.s if f.decl.clst else '')):
            targets.append(f)
    R.need(targets, 'Lattice::add_sublattice')
    for f in targets:
        try:
            w = Walker(P)
            g = w.run(f)
        except Incomplete as e:
            R.unknown('%s: %s' % (sig(f), e))
            continue
        arg = None
        for n in g.nodes:
            if n.kind not in ('write', 'mut'):
                continue
            o = of_this(n.place) if n.place is not None else None
            if not o:
                continue
            vals = [n.get('value')] if n.kind == 'write' else [x for x in n.args if isinstance(x, T)]
            for v in vals:
                for ev_ in energy_values(f, v, n):
                    kinds = classify(ev_)
                    if kinds == 'ok':
                        R.ok('%s: stored onsite energy is self-adjoint (%s)' % (sig(f), n.loc()))
                    elif kinds == 'raw':
                        R.bad('%s: stored onsite energy' % sig(f), 'the onsite matrix is stored as it was given (%s) although '
                              'an upper triangular one is accepted' % show(ev_)[:80], [n.where()])
                    else:
                        R.unknown('%s: onsite energy %s' % (sig(f), show(ev_)[:80]))
                    if 'diagonal' not in kinds and kinds in ('ok', 'raw') and not real_scalar(f):
                        S = Search(g)
                        p = S.find([g.entry], goal=lambda m: m is n,
                                   avoid=lambda m: m.kind == 'branch' and mentions_real_diag(m.cond))
                        if p:
                            R.bad('%s: real diagonal' % sig(f), 'an onsite energy is stored without having checked that its '
                                  'diagonal is real', describe(p, 12))
                        else:
                            R.ok('%s: diagonal checked to be real before %s' % (sig(f), n.loc()))


def real_scalar(f):
    """the energy argument is itself real"""
    t = f.decl.params[-1].strip_ref()
    return 'complex' not in t.s and 'MatrixXcd' not in t.s


def mentions_real_diag(c):
    s = [x for x in subterms(c)]
    def has(x, k):
        return x.op == k or any(k in y for y in x.a if isinstance(y, str))
    return any(has(x, 'imag') or has(x, 'conj') or has(x, 'real') for x in s) and any(has(x, 'diagonal') for x in s)


def energy_values(f, v, n):
    """matrices stored: the energy member of a sublattice, or an element of the energies of the registry"""
    out = []
    place = fldname(n.place)[1]
    if place.split('.')[-1] == 'energy' or ('energies' in place):
        return [v] if v is not None else []
    st = [v]
    while st:
        x = st.pop()
        if x.op == 'obj':
            for y in x.a[1:]:
                if y[0] == 'energy':
                    out.append(y[1])
    return out


def classify(v):
    for x in subterms(v):
        if any('selfadjointView' in y for y in x.a if isinstance(y, str)):
            return 'ok'
    if any('triangularView' in y for x in subterms(v) for y in x.a if isinstance(y, str)) and \
            not any(k in y for x in subterms(v) for y in x.a if isinstance(y, str) for k in ('adjoint', 'transpose', 'conj')):
        return 'raw'
    if v.op == 'root' and v.a[0] in ('arg', 'par', 'param'):
        return 'raw'
    if any('canonical_onsite_energy' in str(x.a[0]) for x in subterms(v) if x.op == 'call'):
        return 'ok'
    return '?'


def conj_fn(P, R):
    fs = [f for q in CONJ for f in P.fn(q) if q.startswith('cpb')]
    done = 0
    for f in fs:
        t = f.decl.params[0].strip_ref().s
        w = Walker(P, pure=())
        g = w.run(f)
        r = g.result[1] if isinstance(g.result, tuple) else g.result
        done += 1
        a = [x for x in subterms(r) if x.op == 'root'] if r is not None else []
        cplx = 'complex' in t
        good = r is not None and (is_conj(r) if cplx else r.op == 'root' or is_conj(r))
        if good:
            R.ok('%s for %s' % (f.qn, t))
        else:
            R.bad('%s: %s' % (f.qn, t), 'does not return the complex conjugate: %s' % (show(r)[:80] if r is not None else '?'))
    return done


def check(P, R):
    herm_emissions(P, R)


PARTS = [check, onsite_storage, conj_fn]
