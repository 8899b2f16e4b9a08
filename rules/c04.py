"""A failed lazy evaluation is never taken for a finished one."""
from common import *

LEVEL = 'other'
RULE = ('For every test of a member that decides whether a lazy evaluation is needed: inside the region of code guarded by '
        'that test, no path stores a value into a member the test reads and afterwards leaves with an exception. So an '
        'evaluation that fails leaves the test demanding a new evaluation.')
EXPLAIN = ('Static path search inside dominator regions of inlined flow graphs; one obligation per guard whose members are '
           'written in the guarded region.')
ASSUME = ['memory exhaustion is not considered']

ENTRY = ['cpb::Model', 'cpb::BaseSolver', 'cpb::Leads', 'cpb::kpm::Core', 'cpb::kpm::Bounds', 'cpb::KPM',
         'cpb::kpm::OptimizedHamiltonian']
def check(P, R):
    mt = may_throw_ids(P)
    R.count('functions_that_may_throw', len(mt))

    names = set(P.fns[i].qn for i in mt) | {'cpb::SolverStrategy::solve', 'cpb::compute::minmax_eigenvalues'}
    seen_guards = set()
    for c in ENTRY:
        fs = [f for f in methods(P, c, public=False) if f.b is not None]
        R.need(fs, 'class ' + c)
        for f in fs:

            def inl(fn, c=c):
                d = fn.decl
                # members of the same object, local callables and the timing wrapper are followed;
                # every other call is one step that may fail
                return d is not None and (d.cls in (c, 'cpb::Chrono') or 'lambda' in (d.cls or ''))
            try:
                w = Walker(P, inline_pred=inl, throwing=names, max_nodes=60000)
                g = w.run(f)
            except Incomplete as e:
                R.unknown('%s: %s' % (sig(f), e))
                continue
            R.count('functions_analysed')
            thr = set(n.id for n in g.nodes if n.kind in ('throw', 'maythrow'))
            wr = [n for n in g.nodes if n.kind in ('write', 'mut') and n.place is not None
                  and fld_path(n.place)[0] is THIS and of_this(n.place)]
            br = [n for n in g.nodes if n.kind == 'branch' and len(n.stack) == 1]
            if not wr or not br:
                continue
            idom = dominators(g)
            chains = {}
            for b in br:
                reads = set()
                for p in deep_places(w, b.cond):
                    if fld_path(p)[0] is THIS:
                        o = of_this(p)
                        if o:
                            reads.add(o)
                if not reads:
                    continue
                for m, lab in b.succ:
                    if len(m.pred) != 1:
                        continue
                    reg = [n for n in wr if any(pre(o, of_this(n.place)) for o in reads)
                           and m.id in dom_chain(idom, n.id) and not loose(n)]
                    if not reg:
                        continue
                    inreg = set(t for t in thr if m.id in dom_chain(idom, t))
                    for n in reg:
                        key = '%s guarded by its own test' % '.'.join(of_this(n.place))
                        S = Search(g)
                        p = S.find([n], goal=lambda x: x.id in inreg) if inreg else None
                        k2 = (c, '.'.join(of_this(n.place)))
                        if p:
                            R.bad('%s: %s' % (sig(f), k2[1]),
                                  'the lazily built member %s is stored at %s before the evaluation can still fail (%s)'
                                  % (k2[1], n.loc(), p[-1].loc()), describe([b] + p, 30))
                        else:
                            R.ok('%s: %s stored last under its guard %s' % (sig(f), k2[1], b.loc()))
                            seen_guards.add(k2)
    R.count('guarded_members', len(seen_guards))
    for c, m in sorted(seen_guards):
        R.items.append('member %s of %s' % (m, c))


def loose(n):
    """clearing writes demand a new evaluation, they do not claim one"""
    if n.kind == 'mut':
        return n.method in ('clear', 'reset')
    v = n.get('value')
    return v is not None and (v.op in ('list', 'null') and not v.a or v is FALSE or v.op == 'default')
