"""A rejected call leaves the object it was made on unchanged."""
from common import *

LEVEL = 'other'
RULE = ('In the inlined flow graph of every public mutating method of the lattice, the energy registries, the model, the '
        'exact solver and the KPM object, no feasible path writes a member of the object and afterwards leaves with an '
        'exception (explicit throw, checked access or a failing evaluation of another model). Clearing a '
        'cache, timing fields, and a map insertion whose failure is the reason for the throw do not count as writes.')
EXPLAIN = ('Static path search on inlined flow graphs with correlated branch conditions; one obligation per public mutating '
           'method that can throw.')
ASSUME = ['memory exhaustion is not considered', 'the solver strategy factory and strategies themselves are not analysed']

CLASSES = ['cpb::Lattice', 'cpb::Registry', 'cpb::Model', 'cpb::KPM', 'cpb::BaseSolver', 'cpb::kpm::Core']
THROWING = ('cpb::Model::hamiltonian', 'cpb::Model::eval', 'cpb::Model::system', 'cpb::Model::leads',
            'cpb::ham::make', 'cpb::compute::minmax_eigenvalues')
TIMERS = ('cpb::Chrono',)


def is_timer(P, p):
    """does the place lie inside a timing object?"""
    while p.op in ('fld', 'elem', 'sub', 'alt'):
        if p.op == 'fld' and p.a[1] in TIMERF:
            return True
        p = p.a[0]
    return False


TIMERF = set()


def clearing(n):
    """resetting a container/pointer/flag: rebuilding is always possible afterwards"""
    if n.kind == 'mut':
        return n.method in ('clear', 'reset')
    v = n.get('value')
    return v is not None and (v.op in ('list', 'null') and not v.a or v is FALSE or v.op == 'default')


def check(P, R):
    for r in P.recs.values():
        if r.repo:
            for f in r.fields:
                s = (f['t'].short or f['t'].s or '') if hasattr(f['t'], 'short') else str(f['t'])
                if 'Chrono' in s:
                    TIMERF.add(f['n'])
    for c in CLASSES:
        recs = [r for r in P.recs.values() if strip_targs(r.qn) == c and r.repo]
        R.need(recs, 'class ' + c)
        names = set(r.qn for r in recs)
        done = 0
        mutable = set(f['n'] for r in recs for f in r.fields if f.get('mutable'))
        for f in sorted((f for n in names for f in methods(P, n, const=False)), key=lambda f: (f.file, f.line, f.id)):
            if f.b is None or f.decl.ret is None or f.decl.ret.s != 'void':
                continue
            done += 1
            try:
                w = Walker(P, inline_pred=lambda fn: fn.qn not in THROWING, throwing=THROWING, usercall_throws=False)
                g = w.run(f)
            except Incomplete as e:
                R.unknown('%s: %s' % (sig(f), e))
                continue
            R.count('methods_analysed')
            R.count('graph_nodes', len(g.nodes))
            idom = dominators(g)
            evals = [n for n in g.nodes if n.kind == 'call' and n.fn in THROWING]

            def again(m):
                # the same evaluation of the same object has already succeeded
                if m.kind != 'maythrow' or not m.pred or m.pred[0][0].kind != 'call':
                    return False
                c = m.pred[0][0]
                dom = dom_chain(idom, c.id)
                return any(e is not c and e.id in dom and e.fn == c.fn and e.objval is c.objval for e in evals)
            thr = [n for n in g.nodes if n.kind in ('throw', 'maythrow') and not again(n)]
            thrid = set(n.id for n in thr)
            R.count('throw_sites', len(thr))
            if not thr:
                continue
            S = Search(g)
            bad = None
            for n in g.nodes:
                if n.kind not in ('write', 'mut', 'init') or n.place is None or fld_path(n.place)[0] is not THIS:
                    continue
                of = of_this(n.place)
                if not of or is_timer(P, n.place):
                    continue
                if clearing(n) and of[0] in mutable:
                    continue
                ins = n.get('inserted')

                def avoid(a, b, lab):
                    if ins is None or a.kind != 'branch' or lab not in (True, False):
                        return False
                    k = learn({}, a.cond, lab)
                    return k is not None and ev(ins, k) is False
                R.count('writes_checked')
                p = S.find([g.entry], goal=lambda x: x.id in thrid, via=lambda x: x is n, avoid_edge=avoid)
                if p:
                    bad = (n, p)
                    break
                if S.capped:
                    R.unknown('%s: path search budget' % sig(f))
            if bad:
                n, p = bad
                R.bad('%s: %s' % (sig(f), '.'.join(of_this(n.place))),
                      'changes member %s and can then leave with an exception (%s)' % ('.'.join(of_this(n.place)),
                                                                                      p[-1].loc()),
                      [x for x in describe(p, 40)])
            else:
                R.ok('%s: %d throw sites, none after a change' % (sig(f), len(thr)))
        R.need(done, 'public mutating methods of ' + c)
